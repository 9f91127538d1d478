package zzverif

import (
	"fmt"
	"net/netip"
	"strings"
	"testing"

	"github.com/openrdap/rdap/bootstrap"
)

func genAddr(c *C, v6 bool) netip.Addr {
	if !v6 {
		var b [4]byte
		for i := range b {
			b[i] = byte(c.intn(256))
		}
		if c.chance(0.7) {
			b[0] = byte(10 + c.intn(2))
			b[1] = byte(c.intn(3))
		}
		return netip.AddrFrom4(b)
	}
	var b [16]byte
	for i := range b {
		b[i] = byte(c.intn(256))
	}
	b[0], b[1] = 0x20, 0x01
	if c.chance(0.7) {
		b[2], b[3] = 0x0d, byte(0xb8+c.intn(2))
		for i := 4; i < 16; i++ {
			b[i] = 0
			if c.chance(0.3) {
				b[i] = byte(c.intn(4))
			}
		}
	}
	return netip.AddrFrom16(b)
}

func TestVerifC02(t *testing.T) {
	run(t, func(c *C) {
		v6 := c.chance(0.5)
		bits, ver, rt := 32, 4, bootstrap.IPv4
		if v6 {
			bits, ver, rt = 128, 6, bootstrap.IPv6
		}
		var nets []netip.Prefix
		seen := map[netip.Prefix]bool{}
		var keys []string
		key := map[netip.Prefix]string{}
		add := func(p netip.Prefix) {
			m := p.Masked()
			if seen[m] {
				return
			}
			seen[m] = true
			nets = append(nets, m)
			k := m.String()
			if c.chance(0.2) {
				k = p.String() // host bits set: the same network
			}
			key[m] = k
			keys = append(keys, k)
		}
		n := c.count(9, 300)
		for i := 0; i < n; i++ {
			var p netip.Prefix
			if len(nets) > 0 && c.chance(0.6) {
				b := nets[c.intn(len(nets))]
				l := b.Bits()
				switch c.intn(3) {
				case 0: // more specific
					l += c.intn(bits - l + 1)
				case 1: // less specific
					l = c.intn(l + 1)
				case 2: // sibling of the same size
					a := b.Addr().AsSlice()
					if l > 0 {
						j := (l - 1) / 8
						a[j] ^= 1 << (7 - (l-1)%8)
					}
					x, _ := netip.AddrFromSlice(a)
					add(netip.PrefixFrom(x, l))
					continue
				}
				p = netip.PrefixFrom(b.Addr(), l)
			} else {
				l := c.intn(bits + 1)
				if c.chance(0.5) {
					l = 8 * (1 + c.intn(bits/8))
				}
				p = netip.PrefixFrom(genAddr(c, v6), l)
			}
			add(p)
		}
		for c.chance(0.3) && len(keys) < 14 {
			j := c.pick("", "x", "10.0.0.0", "10.0.0.0/33", "10.0.0/8", "/8", "10.0.0.0/", "2001:db8::", "2001:db8::/129", "::g/1", "AS1", "1-2", "10.0.0.0/-1", "10.0.0.0/8/8")
			if c.chance(0.4) { // the other family
				j = c.pick("2001:db8::/32", "2000::/3", "::/0")
				if v6 {
					j = c.pick("10.0.0.0/8", "0.0.0.0/0", "32.1.0.0/16")
				}
			}
			keys = append(keys, j)
		}
		d := genDoc(c, keys, false)
		// query
		var qp netip.Prefix
		q := ""
		bad := false
		a0 := genAddr(c, v6)
		if len(nets) > 0 && c.chance(0.8) {
			b := nets[c.intn(len(nets))]
			s := b.Addr().AsSlice()
			for i := b.Bits(); i < bits; i++ {
				if c.chance(0.5) {
					s[i/8] ^= 1 << (7 - i%8)
				}
			}
			if c.chance(0.2) { // just outside
				i := c.intn(bits)
				s[i/8] ^= 1 << (7 - i%8)
			}
			a0, _ = netip.AddrFromSlice(s)
			qp = netip.PrefixFrom(a0, bits)
			if c.chance(0.5) {
				l := b.Bits() + c.intn(5) - 2
				if l < 0 {
					l = 0
				}
				if l > bits {
					l = bits
				}
				qp = netip.PrefixFrom(a0, l)
			}
		} else {
			qp = netip.PrefixFrom(a0, bits)
			if c.chance(0.5) {
				qp = netip.PrefixFrom(a0, c.intn(bits+1))
			}
		}
		if v6 && a0.Is4In6() {
			return
		}
		q = qp.String()
		if qp.Bits() == bits && c.chance(0.8) {
			q = a0.String()
			if v6 && c.chance(0.2) {
				q = a0.StringExpanded()
			}
			if v6 && c.chance(0.2) {
				q = strings.ToUpper(q)
			}
		}
		if c.chance(0.15) {
			bad = true
			q = c.pick("", "x", "10.0.0", "10.0.0.0/33", "10.0.0.0/", "/", "/8", "10.0.0.1 ", "256.0.0.1", "2001:db8::/129", "2001:db8:::", "fe80::1%eth0", "example.com", "AS1", "10.0.0.0/8/8", "010.0.0.1", "1.2.3.4.5", "10.0.0.0/+8")
			if c.chance(0.5) { // a good query of the other family
				o := genAddr(c, !v6)
				q = o.String()
				if c.chance(0.5) {
					q = fmt.Sprintf("%s/%d", o, c.intn(33))
				}
			}
		}
		c.in("version", ver)
		c.in("document", string(d.JSON))
		c.in("query", q)
		r, err := bootstrap.NewNetRegistry(d.JSON, ver)
		if err != nil || r == nil {
			c.failf("document rejected: %v", err)
		}
		for pass := 0; pass < 3; pass++ { // the registry is a map: several orders
			a, err := r.Lookup(&bootstrap.Question{RegistryType: rt, Query: q})
			if bad {
				if err == nil {
					c.failf("no error for a query that is not an IPv%d address or CIDR (answer %+v)", ver, a)
				}
				c.interesting("bad", q)
				continue
			}
			if err != nil || a == nil {
				c.failf("lookup failed: %v", err)
			}
			best := netip.Prefix{}
			found := false
			for _, p := range nets {
				if p.Bits() <= qp.Bits() && p.Contains(qp.Masked().Addr()) && (!found || p.Bits() > best.Bits()) {
					best, found = p, true
				}
			}
			if !found {
				if len(a.URLs) != 0 || a.Entry != "" {
					c.failf("answer %q %v although no entry contains the query", a.Entry, urlStrings(a.URLs))
				}
				c.interesting("none", len(nets))
				continue
			}
			c.eq("entry", a.Entry, best.String())
			if !sameStrs(urlStrings(a.URLs), d.Entries[key[best]]) {
				c.failf("URLs %v, want those of %s: %v", urlStrings(a.URLs), key[best], d.Entries[key[best]])
			}
			c.interesting(ver, len(nets), best.Bits(), qp.Bits())
		}
	})
}
