package zzverif

import (
	"strings"
	"testing"

	"github.com/openrdap/rdap/bootstrap"
)

func genLabel(c *C) string {
	if c.chance(0.06) {
		return strings.ToLower(strings.Trim(c.hint(), "."))
	}
	switch c.intn(9) {
	case 0:
		return "com"
	case 1:
		return "example"
	case 2:
		return "xn--p1ai"
	case 3:
		return "b\u00fccher"
	case 4:
		return ""
	case 5:
		return c.pick("a", "b", "co", "c", "uk", "org", "_tcp", "1", "*", "-", "a b")
	}
	n := 1 + c.intn(4)
	s := ""
	for i := 0; i < n; i++ {
		s += string("abcuom-1"[c.intn(8)])
	}
	return s
}

func genName(c *C, max int) string {
	n := c.intn(max + 1)
	var ls []string
	for i := 0; i < n; i++ {
		ls = append(ls, genLabel(c))
	}
	s := strings.Join(ls, ".")
	if len(s) > 0 {
		s = c.stretch(s)
	}
	return s
}

func TestVerifC01(t *testing.T) {
	run(t, func(c *C) {
		var keys []string
		for i, n := 0, c.count(7, 300); i < n; i++ {
			k := strings.ToLower(genName(c, 3))
			keys = append(keys, k)
			if c.chance(0.4) { // a sub- or superdomain of it, or a near miss
				switch c.intn(4) {
				case 0:
					keys = append(keys, genLabel(c)+"."+k)
				case 1:
					keys = append(keys, genLabel(c)+k)
				case 2:
					if j := strings.IndexByte(k, '.'); j >= 0 {
						keys = append(keys, k[j+1:])
					}
				case 3:
					keys = append(keys, k+".")
				}
			}
		}
		for i := range keys {
			keys[i] = strings.ToLower(keys[i])
		}
		d := genDoc(c, keys, false)
		q := genName(c, 4)
		if len(keys) > 0 && c.chance(0.75) {
			k := keys[c.intn(len(keys))]
			switch c.intn(5) {
			case 0:
				q = k
			case 1:
				q = genLabel(c) + k
			case 2:
				q = k + genLabel(c)
			default:
				q = genName(c, 3) + "." + k
			}
		}
		if c.chance(0.05) {
			for n := c.bigN(5000); len(q) < n; {
				q = genLabel(c) + "." + q
			}
		}
		q = randCase(c, q)
		if c.chance(0.3) {
			q += "."
		}
		if c.chance(0.1) {
			q += "."
		}
		if c.chance(0.02) {
			q = c.hint()
		}
		c.in("document", string(d.JSON))
		c.in("query", q)
		r, err := bootstrap.NewDNSRegistry(d.JSON)
		if err != nil || r == nil {
			c.failf("document rejected: %v", err)
		}
		norm := strings.ToLower(strings.TrimSuffix(q, "."))
		// oracle: the longest entry that equals norm or is preceded by a dot in it
		best, found := "", false
		for e := range d.Entries {
			if e == norm || strings.HasSuffix(norm, "."+e) || e == "" {
				if !found || len(e) > len(best) {
					best, found = e, true
				}
			}
		}
		for pass := 0; pass < 2; pass++ {
			a, err := r.Lookup(&bootstrap.Question{RegistryType: bootstrap.DNS, Query: q})
			if err != nil || a == nil {
				c.failf("lookup failed: %v", err)
			}
			c.eq("answer query", a.Query, norm)
			if found {
				c.eq("entry", a.Entry, best)
				if !sameStrs(urlStrings(a.URLs), d.Entries[best]) {
					c.failf("URLs %v, want those of %q: %v", urlStrings(a.URLs), best, d.Entries[best])
				}
			} else {
				if len(a.URLs) != 0 {
					c.failf("URLs %v without a matching entry", urlStrings(a.URLs))
				}
				c.eq("entry", a.Entry, "")
			}
		}
		if len(r.File().Entries) != len(d.Entries) {
			c.failf("the lookup changed the registry")
		}
		if found {
			c.interesting(len(best), strings.Count(norm, "."), norm == best, len(d.Entries), len(d.Entries[best]))
		}
	})
}
