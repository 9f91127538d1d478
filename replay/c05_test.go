package zzverif

import (
	"bytes"
	"encoding/json"
	"net/url"
	"strings"
	"testing"

	"github.com/openrdap/rdap/bootstrap"
)

func TestVerifC05(t *testing.T) {
	run(t, func(c *C) {
		words := []string{"com", "net", "", "a", "b", "10.0.0.0/8", "1-2", "ARIN", "x y", "COM", "\u00e9", "<&>"}
		if c.chance(0.2) {
			words = append(words, c.hint())
		}
		goodURL := []string{"https://a.example/", "http://b.example/rdap", "https://c.example", "relative", "", "//h/p", "mailto:x@y", "https://d.example/?q=1#f", "ftp://e", "http://[::1]:8080/x", "HTTPS://UP.example/"}
		badURL := []string{"http://[::1", "http://a b/", ":x", "http://%zz/", "ht tp://x", "http://x:y/", "%zz", "http://\x7f/"}
		var services []any
		want := map[string][]string{}
		valid := true
		list := func(max int, gen func() string) ([]any, []string) {
			out := []any{}
			var ss []string
			for i, n := 0, c.count(max+1, 100); i < n; i++ {
				s := gen()
				out = append(out, s)
				ss = append(ss, s)
			}
			return out, ss
		}
		word := func() string { return words[c.intn(len(words))] }
		urlg := func() string {
			if c.chance(0.25) {
				return badURL[c.intn(len(badURL))]
			}
			return goodURL[c.intn(len(goodURL))]
		}
		n := c.count(6, 200)
		for i := 0; i < n; i++ {
			size := 2
			if c.chance(0.35) {
				size = 3
			}
			if c.chance(0.04) {
				size = []int{0, 1, 4, 5}[c.intn(4)]
			}
			es, ess := list(4, word)
			us, uss := list(5, urlg)
			switch size {
			case 2:
				services = append(services, []any{es, us})
			case 3:
				xs, _ := list(2, word)
				services = append(services, []any{xs, es, us})
			default:
				valid = false
				s := []any{}
				for j := 0; j < size; j++ {
					a, _ := list(2, word)
					s = append(s, a)
				}
				services = append(services, s)
			}
			var ps []string
			for _, u := range uss {
				if p, err := url.Parse(u); err == nil {
					ps = append(ps, p.String())
				}
			}
			if len(ps) > 0 {
				for _, e := range ess {
					want[e] = ps
				}
			}
		}
		doc := map[string]any{"description": word(), "publication": word(), "version": word(), "services": services}
		desc, pub, ver := doc["description"].(string), doc["publication"].(string), doc["version"].(string)
		if c.chance(0.1) {
			delete(doc, "description")
			desc = ""
		}
		if services == nil && c.chance(0.5) {
			delete(doc, "services")
		}
		if c.chance(0.3) {
			doc["other"] = []any{1, "x", nil}
		}
		broken := c.chance(0.12)
		if broken {
			switch c.intn(8) {
			case 0:
				doc["services"] = "x"
			case 1:
				doc["services"] = []any{[]any{"com", "https://x"}}
			case 2:
				doc["services"] = append([]any{[]any{[]any{"com", 1.0}, []any{"https://x"}}}, services...)
			case 3:
				doc["version"] = 1.0
			case 4:
				doc["description"] = []any{}
			case 5:
				doc["publication"] = true
			case 6:
				doc["services"] = map[string]any{}
			case 7:
				doc["services"] = append(append([]any{}, services...), 7.0)
			}
		}
		b, _ := json.Marshal(doc)
		if c.chance(0.06) {
			broken = true
			switch c.intn(5) {
			case 0:
				b = b[:len(b)-1]
			case 1:
				b = append(b, '}')
			case 2:
				b = []byte(c.pick("", "[]", "1", "\"x\"", "true", "[[]]"))
			case 3:
				b = append(b, []byte(" {}")...)
			case 4:
				b = append([]byte("x"), b...)
			}
		} else if c.chance(0.3) {
			b = append([]byte(" \n\t"), append(b, '\n')...)
		}
		orig := append([]byte(nil), b...)
		c.in("document", string(b))
		f, err := bootstrap.NewFile(b)
		if !bytes.Equal(b, orig) {
			c.failf("the document was modified")
		}
		if broken || !valid {
			if err == nil || f != nil {
				c.failf("malformed document accepted: %v, %v", f, err)
			}
			r1, e1 := bootstrap.NewDNSRegistry(b)
			r2, e2 := bootstrap.NewASNRegistry(b)
			r3, e3 := bootstrap.NewNetRegistry(b, 4)
			r4, e4 := bootstrap.NewServiceProviderRegistry(b)
			if e1 == nil || e2 == nil || e3 == nil || e4 == nil || r1 != nil || r2 != nil || r3 != nil || r4 != nil {
				c.failf("malformed document accepted by a registry constructor")
			}
			c.interesting("bad", broken, valid, len(b))
			return
		}
		if err != nil || f == nil {
			c.failf("document rejected: %v", err)
		}
		check := func(f *bootstrap.File) {
			c.eq("description", f.Description, desc)
			c.eq("publication", f.Publication, pub)
			c.eq("version", f.Version, ver)
			if !bytes.Equal(f.JSON, orig) {
				c.failf("JSON is not the document: %q", f.JSON)
			}
			if len(f.Entries) != len(want) {
				c.failf("entries %d, want %d: %v", len(f.Entries), len(want), keysOf(f.Entries))
			}
			for e, w := range want {
				got, ok := f.Entries[e]
				if !ok || !sameStrs(urlStrings(got), w) {
					c.failf("entry %q has %v, want %v", e, urlStrings(got), w)
				}
			}
		}
		check(f)
		if r, err := bootstrap.NewServiceProviderRegistry(b); err != nil || r == nil {
			c.failf("object tag registry rejected the document: %v", err)
		} else {
			check(r.File())
		}
		if r, err := bootstrap.NewDNSRegistry(b); err != nil || r == nil {
			c.failf("dns registry rejected the document: %v", err)
		} else {
			check(r.File())
		}
		if r, err := bootstrap.NewASNRegistry(b); err != nil || r == nil {
			c.failf("asn registry rejected the document: %v", err)
		} else {
			check(r.File())
		}
		if r, err := bootstrap.NewNetRegistry(b, 6); err != nil || r == nil {
			c.failf("ipv6 registry rejected the document: %v", err)
		} else {
			check(r.File())
		}
		c.interesting(n, len(want), strings.Count(string(b), "http"))
	})
}

func keysOf[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	return out
}
