package zzverif

import (
	"strings"
	"testing"

	"github.com/openrdap/rdap/bootstrap"
)

func TestVerifC04(t *testing.T) {
	run(t, func(c *C) {
		tag := func() string {
			if c.chance(0.1) {
				return strings.ReplaceAll(c.hint(), "-", "")
			}
			return c.pick("ARIN", "VRSN", "RIPE", "A", "arin", "AR", "RIN", "X1", "", "A-B", "~VRSN", "VR SN", "\u00e9", "IN")
		}
		var keys []string
		for i, n := 0, c.count(6, 300); i < n; i++ {
			keys = append(keys, tag())
		}
		d := genDoc(c, keys, true)
		q := ""
		switch c.intn(8) {
		case 0:
			q = tag()
		case 1:
			q = "123-" + tag()
		case 2:
			q = tag() + "-" + tag() + "-" + tag()
		case 3:
			q = tag() + "-"
		case 4:
			q = "-" + tag()
		case 5:
			q = "ABC" + c.pick("~", "_", "--", "-.", "- ", " -") + tag()
		case 6:
			q = c.hint()
		case 7:
			q = "x-" + tag() + c.pick("", " ", "-", ".", "\n")
		}
		q = c.stretch(q)
		c.in("document", string(d.JSON))
		c.in("handle", q)
		r, err := bootstrap.NewServiceProviderRegistry(d.JSON)
		if err != nil || r == nil {
			c.failf("document rejected: %v", err)
		}
		want, entry := []string(nil), ""
		if i := strings.LastIndex(q, "-"); i >= 0 && i < len(q)-1 {
			if us, ok := d.Entries[q[i+1:]]; ok {
				want, entry = us, q[i+1:]
			}
		}
		for pass := 0; pass < 2; pass++ {
			a, err := r.Lookup(&bootstrap.Question{RegistryType: bootstrap.ServiceProvider, Query: q})
			if err != nil || a == nil {
				c.failf("lookup failed: %v", err)
			}
			c.eq("answer query", a.Query, q)
			c.eq("entry", a.Entry, entry)
			if !sameStrs(urlStrings(a.URLs), want) {
				c.failf("URLs %v, want %v", urlStrings(a.URLs), want)
			}
		}
		if entry != "" {
			c.interesting(entry, strings.Count(q, "-"), len(d.Entries))
		}
	})
}
