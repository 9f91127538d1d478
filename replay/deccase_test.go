package zzverif

import (
	"encoding/json"
	"fmt"
	"reflect"

	"github.com/openrdap/rdap"
)

var topTypes = []struct {
	t    any
	mark string
}{
	{rdap.Autnum{}, "autnum"}, {rdap.Domain{}, "domain"}, {rdap.Entity{}, "entity"}, {rdap.IPNetwork{}, "ip network"}, {rdap.Nameserver{}, "nameserver"},
	{rdap.Error{}, ""}, {rdap.Help{}, ""}, {rdap.DomainSearchResults{}, ""}, {rdap.EntitySearchResults{}, ""}, {rdap.NameserverSearchResults{}, ""},
}

// decodeCase decodes a random document and compares the result with it.
func decodeCase(c *C, scalars, structure bool) {
	wrong := []float64{0.02, 0.1, 0.3}[c.intn(3)]
	var rt reflect.Type
	var m map[string]any
	own := decodeInto != nil && c.chance(0.4)
	if own {
		rt = reflect.TypeOf(vTest{})
		m = genObject(c, rt, 2, wrong)
	} else {
		k := topTypes[c.intn(len(topTypes))]
		rt = reflect.TypeOf(k.t)
		m = genObject(c, rt, 3, wrong)
		delete(m, "objectClassName")
		delete(m, "errorCode")
		for _, n := range []string{"domainSearchResults", "entitySearchResults", "nameserverSearchResults"} {
			if _, isField := fieldsOf(rt)[n]; !isField {
				delete(m, n)
			}
		}
		switch rt.Name() {
		case "Error":
			m["errorCode"] = genScalar(c)
		case "DomainSearchResults", "EntitySearchResults", "NameserverSearchResults":
			for n, f := range fieldsOf(rt) {
				if f == "Domains" || f == "Entities" || f == "Nameservers" {
					if _, ok := m[n]; !ok {
						m[n] = []any{}
					}
				}
			}
		case "Help":
		default:
			m["objectClassName"] = k.mark
		}
	}
	nm, _ := normalise(m).(map[string]any)
	b, _ := json.Marshal(nm)
	c.in("type", rt.Name())
	c.in("document", string(b))
	var o any
	var err error
	if own {
		o, err = decodeInto(b, reflect.New(rt).Interface())
	} else {
		o, err = rdap.NewDecoder(b).Decode()
	}
	if err != nil {
		c.failf("decoding failed: %v", err)
	}
	v := reflect.ValueOf(o)
	if v.Kind() != reflect.Pointer || v.IsNil() || v.Type().Elem() != rt {
		c.failf("decoded to %T, want *%s", o, rt)
	}
	d := &decCheck{c: c, scalars: scalars, structure: structure}
	d.object(rt.Name(), v.Elem(), nm)
	if d.n > 0 {
		c.interesting(rt.Name(), d.n, len(b), fmt.Sprint(wrong))
	}
}
