package zzverif

import (
	"fmt"
	"reflect"

	"github.com/openrdap/rdap"
)

type refProp struct {
	name, typ string
	params    map[string][]string
	value     any
}

func depthOK(v any, left int) bool {
	switch v := v.(type) {
	case nil, bool, float64, string:
		return true
	case []any:
		if left == 0 {
			return false
		}
		for _, e := range v {
			if !depthOK(e, left-1) {
				return false
			}
		}
		return true
	}
	return false
}

func refVCardProp(p any) (refProp, bool) {
	a, ok := p.([]any)
	if !ok || len(a) < 4 {
		return refProp{}, false
	}
	name, ok1 := a[0].(string)
	pm, ok2 := a[1].(map[string]any)
	typ, ok3 := a[2].(string)
	if !ok1 || !ok2 || !ok3 {
		return refProp{}, false
	}
	r := refProp{name: name, typ: typ, params: map[string][]string{}}
	for k, v := range pm {
		switch v := v.(type) {
		case string:
			r.params[k] = []string{v}
		case []any:
			for _, e := range v {
				if s, ok := e.(string); ok {
					r.params[k] = append(r.params[k], s)
				}
			}
		}
	}
	r.value = a[3]
	if len(a) > 4 {
		r.value = append([]any{}, a[3:]...)
	}
	if !depthOK(r.value, 3) {
		return refProp{}, false
	}
	return r, true
}

// refVCard is the statement of C20: the properties of a well-formed jCard.
func refVCard(src any, ignore bool) ([]refProp, bool) {
	top, ok := src.([]any)
	if !ok || len(top) != 2 || top[0] != any("vcard") {
		return nil, false
	}
	ps, ok := top[1].([]any)
	if !ok {
		return nil, false
	}
	out := []refProp{}
	for _, p := range ps {
		r, ok := refVCardProp(p)
		if !ok {
			if ignore {
				continue
			}
			return nil, false
		}
		out = append(out, r)
	}
	return out, true
}

func sameVCard(v *rdap.VCard, want []refProp) string {
	if len(v.Properties) != len(want) {
		return fmt.Sprintf("%d properties, want %d", len(v.Properties), len(want))
	}
	for i, p := range v.Properties {
		w := want[i]
		if p == nil {
			return "nil property"
		}
		if p.Name != w.name || p.Type != w.typ {
			return fmt.Sprintf("property %d is %q of type %q, want %q of type %q", i, p.Name, p.Type, w.name, w.typ)
		}
		if !reflect.DeepEqual(p.Value, w.value) {
			return fmt.Sprintf("property %d (%s): value %s, want %s", i, p.Name, showJSON(p.Value), showJSON(w.value))
		}
		n := 0
		for k, l := range w.params {
			if len(l) == 0 {
				continue
			}
			n++
			if !sameStrs(p.Parameters[k], l) {
				return fmt.Sprintf("property %d (%s): parameter %q is %q, want %q", i, p.Name, k, p.Parameters[k], l)
			}
		}
		m := 0
		for _, l := range p.Parameters {
			if len(l) > 0 {
				m++
			}
		}
		if m != n {
			return fmt.Sprintf("property %d (%s): parameters %q, want %q", i, p.Name, p.Parameters, w.params)
		}
	}
	return ""
}

func genVal(c *C, depth int) any {
	if depth > 0 && c.chance(0.4) {
		a := []any{}
		for i, n := 0, c.count(4, 70); i < n; i++ {
			a = append(a, genVal(c, depth-1))
		}
		return a
	}
	switch c.intn(8) {
	case 0:
		return nil
	case 1:
		return c.chance(0.5)
	case 2:
		return []float64{0, 1, -2.5, 1e21, 1e-7, 123456789}[c.intn(6)]
	case 3:
		return c.pick("", " ", "\n", "a b", "\u00e9")
	case 4:
		if c.chance(0.3) {
			return c.hint()
		}
	}
	return c.stretch(fmt.Sprintf("v%d", c.intn(500)))
}

func genAddrVal(c *C) any {
	n := 7
	if c.chance(0.15) {
		n = c.intn(10)
	}
	a := []any{}
	for i := 0; i < n; i++ {
		switch {
		case c.chance(0.2):
			b := []any{}
			for j, m := 0, c.intn(4); j < m; j++ {
				b = append(b, genVal(c, 1))
			}
			a = append(a, b)
		case c.chance(0.05):
			a = append(a, genVal(c, 1))
		default:
			a = append(a, fmt.Sprintf("c%d-%d", i, c.intn(50)))
		}
	}
	switch {
	case c.chance(0.06):
		return genVal(c, 3)
	case c.chance(0.05):
		return []any{a, a}
	case c.chance(0.05):
		return []any{a}
	}
	return a
}

func genProp(c *C, bad float64) any {
	name := c.pick("version", "fn", "n", "adr", "tel", "tel", "email", "org", "kind", "url", "x-y", "FN", "Tel", "note")
	if c.chance(0.05) {
		name = c.hint()
	}
	params := map[string]any{}
	for i, n := 0, c.intn(3); i < n; i++ {
		k := c.pick("type", "pref", "label", "x", "type")
		switch c.intn(5) {
		case 0:
			l := []any{}
			for j, m := 0, c.intn(4); j < m; j++ {
				l = append(l, []any{c.pick("voice", "fax", "work", "cell"), c.pick("voice", "fax"), 1.0, nil, true, []any{"voice"}}[c.intn(6)])
			}
			params[k] = l
		case 1:
			params[k] = []any{1.0, nil, true, map[string]any{"a": "b"}}[c.intn(4)]
		default:
			params[k] = c.pick("voice", "fax", "work", "Voice", "1", "", "text")
		}
	}
	p := []any{name, params, c.pick("text", "uri", "unknown", "", "integer")}
	if name == "adr" {
		p = append(p, genAddrVal(c))
	} else {
		p = append(p, genVal(c, c.intn(4)))
	}
	for c.chance(0.12) {
		p = append(p, genVal(c, c.intn(3)))
	}
	if c.chance(bad) {
		switch c.intn(9) {
		case 0:
			return genAny(c, 1)
		case 1:
			return p[:c.intn(4)]
		case 2:
			p[0] = []any{1.0, nil, true, []any{"fn"}}[c.intn(4)]
		case 3:
			p[1] = []any{1.0, nil, "x", []any{}}[c.intn(4)]
		case 4:
			p[2] = []any{1.0, nil, true, []any{"text"}}[c.intn(4)]
		case 5:
			p[3] = map[string]any{"a": 1.0}
		case 6:
			p[3] = genVal(c, 6)
		case 7:
			v := any("deep")
			for i, n := 0, 2+c.intn(4); i < n; i++ {
				v = []any{v}
			}
			p[3] = v
		case 8:
			p[3] = []any{"a", []any{"b", map[string]any{}}}
		}
	}
	return p
}

func genJCard(c *C, bad float64) any {
	ps := []any{}
	for i, n := 0, c.count(7, 70); i < n; i++ {
		ps = append(ps, genProp(c, bad*0.3))
	}
	if c.chance(bad * 0.5) {
		switch c.intn(7) {
		case 0:
			return genAny(c, 2)
		case 1:
			return []any{"vcard"}
		case 2:
			return []any{"vcard", ps, "x"}
		case 3:
			return []any{[]any{"VCARD", "vCard", nil, 1.0, "vcard "}[c.intn(5)], ps}
		case 4:
			return []any{"vcard", []any{nil, "x", map[string]any{}, 1.0}[c.intn(4)]}
		case 5:
			return []any{}
		case 6:
			return []any{ps, "vcard"}
		}
	}
	return []any{"vcard", ps}
}
