package zzverif

import (
	"fmt"
	"math/big"
	"strings"
)

// refASN is an independent reading of a decimal 32-bit AS number.
func refASN(s string) (uint64, bool) {
	if s == "" {
		return 0, false
	}
	n := new(big.Int)
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, false
		}
		n.Mul(n, big.NewInt(10))
		n.Add(n, big.NewInt(int64(s[i]-'0')))
	}
	if n.BitLen() > 32 {
		return 0, false
	}
	return n.Uint64(), true
}

func refASNQuery(q string) (uint64, bool) {
	l := strings.ToLower(q)
	if strings.HasPrefix(l, "as") {
		l = l[2:]
	}
	return refASN(l)
}

func genASNQuery(c *C, near []uint64) string {
	n := uint64(c.r.Uint32())
	if len(near) > 0 && c.chance(0.8) {
		n = near[c.intn(len(near))]
		switch c.intn(4) {
		case 0:
			n++
		case 1:
			n--
		}
	}
	s := fmt.Sprint(n)
	switch c.intn(14) {
	case 0:
		return c.pick("", "AS", "as", "ASAS1", "a1", "s1", "AS 1", " 1", "1 ", "+1", "-1", "AS-1", "0x10", "1_000", "4294967295", "4294967296", "AS4294967295", "as4294967296", "18446744073709551616", "1.5", "AS1-AS2", "1-2", "\u0661", "aS00000000000000000001", "sa1", "1as", "AS1.0")
	case 1:
		return "0" + s
	case 2:
		if c.chance(0.3) {
			return c.hint()
		}
		return "AS" + s + c.pick("0", "00", "a", " ")
	}
	return c.pick("", "AS", "as", "As", "aS") + s
}
