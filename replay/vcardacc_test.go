package zzverif

import (
	"strconv"
	"strings"

	"github.com/openrdap/rdap"
)

func flat(v any) []string {
	switch v := v.(type) {
	case nil:
		return []string{""}
	case bool:
		if v {
			return []string{"true"}
		}
		return []string{"false"}
	case float64:
		return []string{strconv.FormatFloat(v, 'f', -1, 64)}
	case string:
		return []string{v}
	case []any:
		l := []string{}
		for _, e := range v {
			l = append(l, flat(e)...)
		}
		return l
	}
	return nil
}

func copyVCard(v *rdap.VCard) []refProp {
	var l []refProp
	for _, p := range v.Properties {
		m := map[string][]string{}
		for k, x := range p.Parameters {
			m[k] = append([]string{}, x...)
		}
		l = append(l, refProp{name: p.Name, typ: p.Type, params: m, value: copyJSON(p.Value)})
	}
	return l
}

func copyJSON(v any) any {
	switch v := v.(type) {
	case []any:
		if v == nil {
			return v
		}
		a := make([]any, len(v))
		for i := range v {
			a[i] = copyJSON(v[i])
		}
		return a
	case map[string]any:
		m := map[string]any{}
		for k, e := range v {
			m[k] = copyJSON(e)
		}
		return m
	}
	return v
}

// refAccess states what each accessor returns (C21).
func refAccess(v *rdap.VCard) map[string]string {
	r := map[string]string{}
	first := func(name string) *rdap.VCardProperty {
		for _, p := range v.Properties {
			if p.Name == name {
				return p
			}
		}
		return nil
	}
	for k, n := range map[string]string{"Name": "fn", "Email": "email", "Org": "org"} {
		r[k] = ""
		if p := first(n); p != nil {
			r[k] = strings.Join(flat(p.Value), " ")
		}
	}
	for i, k := range []string{"POBox", "ExtendedAddress", "StreetAddress", "Locality", "Region", "PostalCode", "Country"} {
		r[k] = ""
		p := first("adr")
		if p == nil {
			continue
		}
		comps, ok := p.Value.([]any)
		if !ok {
			comps = []any{p.Value}
		}
		if len(comps) != 7 && len(comps) > 0 {
			all := true
			for _, e := range comps {
				if _, ok := e.([]any); !ok {
					all = false
				}
			}
			if all {
				comps = comps[0].([]any)
			}
		}
		if i < len(comps) {
			r[k] = strings.Join(flat(comps[i]), " ")
		}
	}
	has := func(p *rdap.VCardProperty, t string) bool {
		for _, x := range p.Parameters["type"] {
			if x == t {
				return true
			}
		}
		return false
	}
	tel := func(ok func(p *rdap.VCardProperty) bool) string {
		for _, p := range v.Properties {
			if p.Name == "tel" && ok(p) {
				if l := flat(p.Value); len(l) > 0 {
					return l[0]
				}
			}
		}
		return ""
	}
	r["Tel"] = tel(func(p *rdap.VCardProperty) bool { return len(p.Parameters["type"]) == 0 || has(p, "voice") })
	r["Fax"] = tel(func(p *rdap.VCardProperty) bool { return has(p, "fax") })
	return r
}
