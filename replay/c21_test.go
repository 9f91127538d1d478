package zzverif

import (
	"encoding/json"
	"reflect"
	"testing"

	"github.com/openrdap/rdap"
)

func TestVerifC21(t *testing.T) {
	run(t, func(c *C) {
		b, _ := json.Marshal(genJCard(c, 0))
		c.in("jcard", string(b))
		v, err := rdap.NewVCard(b)
		var seen any
		json.Unmarshal(b, &seen)
		if _, ok := refVCard(seen, false); !ok {
			return
		}
		if err != nil {
			c.failf("rejected a well-formed jCard: %v", err)
		}
		if c.chance(0.1) {
			// built by the caller rather than decoded
			for _, p := range v.Properties {
				if p.Name == "adr" {
					p.Value = genAddrVal(c)
				}
				if c.chance(0.2) {
					p.Parameters = nil
				}
			}
			c.in("rebuilt", v)
		}
		checkAccessors(c, v)
	})
}

func checkAccessors(c *C, v *rdap.VCard) {
	before := copyVCard(v)
	w := refAccess(v)
	got := map[string]string{
		"Name": v.Name(), "POBox": v.POBox(), "ExtendedAddress": v.ExtendedAddress(), "StreetAddress": v.StreetAddress(),
		"Locality": v.Locality(), "Region": v.Region(), "PostalCode": v.PostalCode(), "Country": v.Country(),
		"Tel": v.Tel(), "Fax": v.Fax(), "Email": v.Email(), "Org": v.Org(),
	}
	for k, x := range w {
		if got[k] != x {
			c.failf("%s() = %q, want %q", k, got[k], x)
		}
		if x != "" {
			c.interesting(k, x)
		}
	}
	for _, n := range []string{"fn", "tel", "adr", "nosuch", c.hint()} {
		var l []*rdap.VCardProperty
		for _, p := range v.Properties {
			if p.Name == n {
				l = append(l, p)
			}
		}
		g := v.Get(n)
		if len(g) != len(l) {
			c.failf("Get(%q): %d properties, want %d", n, len(g), len(l))
		}
		for i := range g {
			if g[i] != l[i] {
				c.failf("Get(%q)[%d] is another property", n, i)
			}
		}
		f := v.GetFirst(n)
		if (len(l) == 0 && f != nil) || (len(l) > 0 && f != l[0]) {
			c.failf("GetFirst(%q) is not the first", n)
		}
	}
	for i, p := range v.Properties {
		if g, want := p.Values(), flat(p.Value); !sameStrs(g, want) {
			c.failf("property %d: Values() = %q, want %q", i, g, want)
		}
	}
	if !reflect.DeepEqual(before, copyVCard(v)) {
		c.failf("an accessor changed the card")
	}
}
