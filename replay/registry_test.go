package zzverif

import (
	"encoding/json"
	"fmt"
	"net/url"
	"strings"
)

// regDoc is a generated registry document and what it means.
type regDoc struct {
	JSON    []byte
	Entries map[string][]string // entry -> URLs, in order
	Keys    []string
}

// genURLs makes a list of distinct, parseable base URLs.
func genURLs(c *C, tag int) []string {
	n := 1 + c.intn(3)
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, fmt.Sprintf("%s://r%d-%d.example%s", c.pick("https", "http"), tag, i, c.pick("/", "", "/rdap/", "/rdap")))
	}
	return out
}

// genDoc puts the given entries into services of 2 (or 3) arrays.
func genDoc(c *C, keys []string, three bool) *regDoc {
	d := &regDoc{Entries: map[string][]string{}}
	var services [][][]string
	i, tag := 0, 0
	for i < len(keys) {
		n := 1 + c.intn(3)
		if i+n > len(keys) {
			n = len(keys) - i
		}
		urls := genURLs(c, tag)
		tag++
		es := append([]string{}, keys[i:i+n]...)
		if three {
			services = append(services, [][]string{{"x@example.org"}, es, urls})
		} else {
			services = append(services, [][]string{es, urls})
		}
		for _, e := range es {
			if _, ok := d.Entries[e]; !ok {
				d.Keys = append(d.Keys, e)
			}
			d.Entries[e] = urls
		}
		i += n
	}
	if services == nil {
		services = [][][]string{}
	}
	b, err := json.Marshal(map[string]any{"description": "d", "publication": "2020-01-01", "version": "1.0", "services": services})
	if err != nil {
		panic(err)
	}
	d.JSON = b
	return d
}

func urlStrings(us []*url.URL) []string {
	var out []string
	for _, u := range us {
		if u == nil {
			out = append(out, "<nil>")
			continue
		}
		out = append(out, u.String())
	}
	return out
}

func sameStrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func randCase(c *C, s string) string {
	if c.chance(0.6) {
		return s
	}
	b := []byte(s)
	for i := range b {
		if c.chance(0.5) {
			b[i] = strings.ToUpper(string(b[i : i+1]))[0]
		}
	}
	return string(b)
}
