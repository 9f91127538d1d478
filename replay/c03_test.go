package zzverif

import (
	"fmt"
	"testing"

	"github.com/openrdap/rdap/bootstrap"
)

func TestVerifC03(t *testing.T) {
	run(t, func(c *C) {
		type rng struct {
			lo, hi uint64
			key    string
		}
		var rs []rng
		cur := uint64(c.intn(50))
		if c.chance(0.2) {
			cur = 0
		}
		var keys []string
		var near []uint64
		n := c.count(9, 300)
		for i := 0; i < n; i++ {
			lo := cur
			var w uint64
			switch c.intn(4) {
			case 0:
				w = 0
			case 1:
				w = 1
			case 2:
				w = uint64(c.intn(40))
			case 3:
				w = uint64(c.intn(200000000))
			}
			hi := lo + w
			if hi > 4294967295 || (i == n-1 && c.chance(0.2)) {
				hi = 4294967295
			}
			k := fmt.Sprintf("%d-%d", lo, hi)
			switch {
			case lo == hi && c.chance(0.7):
				k = fmt.Sprint(lo)
			case c.chance(0.25):
				k = fmt.Sprintf("%d-%d", hi, lo)
			}
			rs = append(rs, rng{lo, hi, k})
			keys = append(keys, k)
			near = append(near, lo, hi, (lo+hi)/2)
			if hi >= 4294967290 {
				break
			}
			cur = hi + 1
			if c.chance(0.6) {
				cur += uint64(c.intn(30))
			}
		}
		for i := range keys { // order in the document does not matter
			j := c.intn(i + 1)
			keys[i], keys[j] = keys[j], keys[i]
		}
		junk := 0
		for c.chance(0.3) && junk < 3 {
			junk++
			keys = append(keys, c.pick("", "-", "1-", "-5", "1-2-3", "AS5", "AS5-AS9", "x", "4294967296", "0-4294967296", "4294967296-4294967297", "1 - 2", "1..5", "+1", "0x1-0x5", "10.0.0.0/8", "99999999999999999999-1"))
		}
		d := genDoc(c, keys, false)
		q := genASNQuery(c, near)
		c.in("document", string(d.JSON))
		c.in("query", q)
		r, err := bootstrap.NewASNRegistry(d.JSON)
		if err != nil || r == nil {
			c.failf("document rejected: %v", err)
		}
		v, ok := refASNQuery(q)
		a, err := r.Lookup(&bootstrap.Question{RegistryType: bootstrap.ASN, Query: q})
		if !ok {
			if err == nil {
				c.failf("no error for a query that is not a 32-bit AS number (answer %+v)", a)
			}
			c.interesting("bad", q)
			return
		}
		if err != nil || a == nil {
			c.failf("error for AS number %d: %v", v, err)
		}
		c.eq("answer query", a.Query, fmt.Sprint(v))
		for _, g := range rs {
			if g.lo <= v && v <= g.hi {
				want := fmt.Sprintf("AS%d-AS%d", g.lo, g.hi)
				if g.lo == g.hi {
					want = fmt.Sprintf("AS%d", g.lo)
				}
				c.eq("entry", a.Entry, want)
				if !sameStrs(urlStrings(a.URLs), d.Entries[g.key]) {
					c.failf("URLs %v, want those of %s: %v", urlStrings(a.URLs), g.key, d.Entries[g.key])
				}
				c.interesting(len(rs), v == g.lo, v == g.hi, g.key, v)
				return
			}
		}
		if len(a.URLs) != 0 || a.Entry != "" {
			c.failf("answer %q %v although no range contains %d", a.Entry, urlStrings(a.URLs), v)
		}
		c.interesting("none", len(rs), v)
	})
}
