package zzverif

import (
	"encoding/json"
	"fmt"
	"reflect"
	"testing"

	"github.com/openrdap/rdap"
)

func TestVerifC17(t *testing.T) {
	run(t, func(c *C) {
		if c.chance(0.1) { // not an object
			s := c.pick("", "[]", "[{}]", "1", `"x"`, "true", "{", `{"a":}`, "{}{}", "nul", "{'a':1}", `{"objectClassName":"domain"`, "\xff", "{} x", `["errorCode"]`, "0", "false", `""`, `{"a":1,}`)
			c.in("document", s)
			o, err := rdap.NewDecoder([]byte(s)).Decode()
			if err == nil || o != nil {
				c.failf("input that is not a JSON object: %#v, %v", o, err)
			}
			c.interesting(s)
			return
		}
		m := map[string]any{}
		for i, n := 0, c.intn(5); i < n; i++ {
			m[c.pick("handle", "ldhName", "notices", "title", "x", "rdapConformance", "errorcode", "ErrorCode", "objectclassname", "ObjectClassName", "domains", "entities", "ipSearchResults", "autnumSearchResults", "nameservers", "description", "status")] = genAny(c, 2)
		}
		want := "*rdap.Help"
		bad := false
		if c.chance(0.25) {
			m["nameserverSearchResults"] = genArr(c)
			want = "*rdap.NameserverSearchResults"
		}
		if c.chance(0.25) {
			m["entitySearchResults"] = genArr(c)
			want = "*rdap.EntitySearchResults"
		}
		if c.chance(0.25) {
			m["domainSearchResults"] = genArr(c)
			want = "*rdap.DomainSearchResults"
		}
		if c.chance(0.4) {
			cls := map[string]string{"autnum": "*rdap.Autnum", "domain": "*rdap.Domain", "entity": "*rdap.Entity", "ip network": "*rdap.IPNetwork", "nameserver": "*rdap.Nameserver"}
			k := c.pick("autnum", "domain", "entity", "ip network", "nameserver")
			var v any = k
			want = cls[k]
			if c.chance(0.35) {
				bad = true
				v = []any{nil, 1.0, true, []any{"domain"}, map[string]any{}, "Domain", "domain ", "", "ip", "ipnetwork", "ip_network", "help", "error", "domains", "AUTNUM", c.hint()}[c.intn(16)]
				if s, ok := v.(string); ok && cls[s] != "" {
					bad = false
					want = cls[s]
				}
			}
			m["objectClassName"] = v
		}
		if c.chance(0.2) {
			m["errorCode"] = []any{404.0, 0.0, "404", -1.0, 70000.0, true, []any{}, "x", map[string]any{}}[c.intn(9)]
			want, bad = "*rdap.Error", false
		}
		b, _ := json.Marshal(m)
		c.in("document", string(b))
		d := rdap.NewDecoder(b)
		o, err := d.Decode()
		if bad {
			if err == nil || o != nil {
				c.failf("%T, %v for an unrecognised object class", o, err)
			}
			c.interesting("bad", string(b))
			return
		}
		if err != nil {
			c.failf("decode failed: %v", err)
		}
		if got := fmt.Sprintf("%T", o); got != want {
			c.failf("decoded to %s, want %s", got, want)
		}
		if reflect.ValueOf(o).IsNil() {
			c.failf("nil result")
		}
		c.interesting(want, len(m))
	})
}

func genArr(c *C) any {
	a := []any{}
	for i, n := 0, c.intn(3); i < n; i++ {
		a = append(a, genAny(c, 2))
	}
	return a
}
