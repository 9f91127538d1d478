package zzverif

import (
	"github.com/openrdap/rdap"
)

type kv struct{ k, v string }

// refWhois is the WHOIS-style account of a domain response, in order (C24).
func refWhois(d *rdap.Domain) []kv {
	var out []kv
	add := func(k, v string) {
		if v != "" {
			out = append(out, kv{k, v})
		}
	}
	add("Domain Name", d.LDHName)
	add("Handle", d.Handle)
	add("WHOIS Server", d.Port43)
	for _, e := range d.Events {
		switch e.Action {
		case "last changed":
			add("Updated Date", e.Date)
		case "registration":
			add("Creation Date", e.Date)
		case "expiration":
			add("Expiration Date", e.Date)
		}
	}
	first := func(role string) *rdap.Entity {
		for i := range d.Entities {
			for _, r := range d.Entities[i].Roles {
				if r == role {
					return &d.Entities[i]
				}
			}
		}
		return nil
	}
	if r := first("registrar"); r != nil {
		if r.VCard != nil {
			add("Registrar", refAccess(r.VCard)["Name"])
		}
		for _, id := range r.PublicIDs {
			if id.Type == "IANA Registrar ID" {
				add("Registrar IANA ID", id.Identifier)
			}
		}
	}
	for _, s := range d.Status {
		add("Domain Status", s)
	}
	for _, x := range [][2]string{{"Registrant", "registrant"}, {"Admin", "administrative"}, {"Tech", "technical"}, {"Abuse", "abuse"}} {
		e := first(x[1])
		if e == nil || e.VCard == nil {
			continue
		}
		a := refAccess(e.VCard)
		for _, f := range [][2]string{{"Name", "Name"}, {"PO Box", "POBox"}, {"Extended Address", "ExtendedAddress"}, {"Street", "StreetAddress"}, {"Locality", "Locality"}, {"Post Code", "PostalCode"}, {"Country", "Country"}, {"Tel", "Tel"}, {"Fax", "Fax"}, {"Email", "Email"}} {
			add(x[0]+" "+f[0], a[f[1]])
		}
	}
	for i := range d.Nameservers {
		add("Name Server", d.Nameservers[i].LDHName)
	}
	return out
}

// genWhoisDomain is a domain document with events, contacts and roles that matter.
func genWhoisDomain(c *C, evil float64) map[string]any {
	m := map[string]any{"objectClassName": "domain"}
	txt := func(s string) any {
		if c.chance(0.1) {
			return ""
		}
		return c.stretch(s)
	}
	if c.chance(0.8) {
		m["ldhName"] = txt("example.com")
	}
	if c.chance(0.7) {
		m["handle"] = txt("H1")
	}
	if c.chance(0.5) {
		m["port43"] = txt("whois.example")
	}
	var ev, st, ns, en []any
	for i, n := 0, c.count(5, 60); i < n; i++ {
		ev = append(ev, map[string]any{"eventAction": c.pick("last changed", "registration", "expiration", "registration", "Last Changed", "last update of RDAP database", "transfer", "reregistration", "deletion", ""), "eventDate": txt("2020-01-0" + itoa(1+i))})
	}
	for i, n := 0, c.count(4, 120); i < n; i++ {
		st = append(st, txt(c.pick("active", "client hold", "locked")))
	}
	for i, n := 0, c.count(4, 120); i < n; i++ {
		ns = append(ns, map[string]any{"objectClassName": "nameserver", "ldhName": txt("ns" + itoa(i) + ".example")})
	}
	for i, n := 0, c.count(6, 40); i < n; i++ {
		e := map[string]any{"objectClassName": "entity", "handle": "E" + itoa(i)}
		var roles []any
		for j, k := 0, c.intn(3); j < k; j++ {
			roles = append(roles, c.pick("registrar", "registrant", "administrative", "technical", "abuse", "Registrant", "billing", "admin", "tech", "sponsor"))
		}
		e["roles"] = roles
		if c.chance(0.8) {
			e["vcardArray"] = genJCard(c, 0)
		}
		var ids []any
		for j, k := 0, c.intn(3); j < k; j++ {
			ids = append(ids, map[string]any{"type": c.pick("IANA Registrar ID", "IANA Registrar ID", "other", "iana registrar id"), "identifier": txt(itoa(c.intn(9999)))})
		}
		e["publicIds"] = ids
		if c.chance(0.3) {
			e["entities"] = []any{map[string]any{"objectClassName": "entity", "roles": []any{c.pick("abuse", "registrant")}, "vcardArray": genJCard(c, 0)}}
		}
		en = append(en, e)
	}
	m["events"], m["status"], m["nameservers"], m["entities"] = ev, st, ns, en
	if evil > 0 {
		spoil(c, m, evil)
		m["objectClassName"] = "domain"
		delete(m, "errorCode")
	}
	nm, _ := normalise(m).(map[string]any)
	return nm
}
