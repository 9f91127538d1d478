package zzverif

import (
	"encoding/json"
	"reflect"
	"testing"

	"github.com/openrdap/rdap"
)

func TestVerifC20(t *testing.T) {
	run(t, func(c *C) {
		bad := 0.0
		if c.chance(0.6) {
			bad = 0.8
		}
		src := genJCard(c, bad)
		b, err := json.Marshal(src)
		if err != nil {
			c.failf("marshal: %v", err)
		}
		// what the decoder sees
		var seen any
		json.Unmarshal(b, &seen)
		if c.chance(0.03) {
			s := c.pick("", "null", "{}", "[", "\"vcard\"", `["vcard",[]]x`, `["vcard",[[]`, "1", "true")
			b, seen = []byte(s), nil
		}
		ignore := c.chance(0.5)
		c.in("jcard", string(b))
		c.in("ignore", ignore)
		want, ok := refVCard(seen, ignore)
		var v *rdap.VCard
		if !ignore && c.chance(0.5) {
			v, err = rdap.NewVCard(b)
		} else {
			v, err = rdap.NewVCardWithOptions(b, rdap.VCardOptions{IgnoreInvalidProperties: ignore})
		}
		if !ok {
			if err == nil {
				c.failf("accepted a jCard that is not well formed: %v", v)
			}
			if v != nil {
				c.failf("a rejected jCard gives a card: %v", v)
			}
			c.interesting("bad", string(b))
			return
		}
		if err != nil {
			c.failf("rejected a well-formed jCard: %v", err)
		}
		if v == nil {
			c.failf("no card and no error")
		}
		if m := sameVCard(v, want); m != "" {
			c.failf("%s", m)
		}
		names := []string{"fn", "tel", "adr", "", "FN", "email", c.hint()}
		for _, p := range v.Properties {
			names = append(names, p.Name)
		}
		for _, n := range names {
			var l []*rdap.VCardProperty
			for _, p := range v.Properties {
				if p.Name == n {
					l = append(l, p)
				}
			}
			g := v.Get(n)
			if len(g) != len(l) || (len(l) > 0 && !reflect.DeepEqual(g, l)) {
				c.failf("Get(%q) returns %d properties, want %d", n, len(g), len(l))
			}
		}
		c.interesting(len(want), ignore, string(b))
	})
}
