package zzverif

import (
	"encoding/json"
	"reflect"
	"testing"

	"github.com/openrdap/rdap"
)

func TestVerifC24(t *testing.T) {
	run(t, func(c *C) {
		var m map[string]any
		switch {
		case c.chance(0.7):
			m = genWhoisDomain(c, 0)
		case c.chance(0.7):
			m = genResponse(c, 2, 0.05, 0)
		default:
			m = genResponseOf(c, reflect.TypeOf(rdap.Domain{}), "domain", 3, 0.03, 0)
		}
		b, _ := json.Marshal(m)
		c.in("document", string(b))
		o, err := rdap.NewDecoder(b).Decode()
		if err != nil {
			c.failf("decode: %v", err)
		}
		o2, _ := rdap.NewDecoder(b).Decode()
		r := &rdap.Response{Object: o}
		if c.chance(0.01) {
			r.Object = nil
		}
		w := r.ToWhoisStyleResponse()
		if w == nil {
			c.failf("no result")
		}
		var want []kv
		d, isDomain := r.Object.(*rdap.Domain)
		if isDomain {
			want = refWhois(d)
		}
		data := map[string][]string{}
		var keys []string
		for _, x := range want {
			if _, ok := data[x.k]; !ok {
				keys = append(keys, x.k)
			}
			data[x.k] = append(data[x.k], x.v)
		}
		if !sameStrs(w.KeyDisplayOrder, keys) {
			c.failf("keys %q, want %q", w.KeyDisplayOrder, keys)
		}
		for k, v := range data {
			if !sameStrs(w.Data[k], v) {
				c.failf("%s: %q, want %q", k, w.Data[k], v)
			}
		}
		for k, v := range w.Data {
			if _, ok := data[k]; !ok {
				c.failf("%s: %q, want nothing", k, v)
			}
		}
		if w.Data == nil {
			c.failf("nil data")
		}
		if !reflect.DeepEqual(o, o2) {
			c.failf("the conversion changed the response")
		}
		w2 := r.ToWhoisStyleResponse()
		if !reflect.DeepEqual(w, w2) {
			c.failf("converting again gives another result")
		}
		if len(keys) > 1 {
			c.interesting(keys)
		}
	})
}
