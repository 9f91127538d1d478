package zzverif

import (
	"fmt"
	"net/url"
	"strings"
	"testing"

	"github.com/openrdap/rdap/bootstrap"
)

func TestVerifC10(t *testing.T) {
	run(t, func(c *C) {
		base := ""
		if c.chance(0.9) {
			host := c.pick("example.org", "h:8080", "data.iana.org", "[2001:db8::1]:81", "u:p@h", "H.Example")
			path := c.pick("", "/", "/rdap", "/rdap/", "/a/b", "/a/b/", "/a%2Fb", "/a%2Fb/", "/x%2f", "/a%20b", "/a b", "/\u00e9", "/dns.json", "/dns.json/", "/a//b", "//", "/a;b", "/a:b", "/rdap//", "/x.y", "/%41", "/a+b@c")
			if c.chance(0.1) {
				h := strings.Map(func(r rune) rune {
					if strings.ContainsRune("?#%\x00", r) || r < 32 || r == '.' {
						return -1
					}
					return r
				}, c.hint())
				path = "/" + h
			}
			if strings.HasPrefix(host, "u:p") && path == "" {
				path = "/"
			}
			base = c.pick("https", "http") + "://" + host + path
			if _, err := url.Parse(base); err != nil {
				return
			}
		}
		if c.chance(0.1) {
			base = "https://data.iana.org/rdap/"
		}
		c.in("base", base)
		s := newBootSim(c, base)
		eff := s.base
		bu, _ := url.Parse(eff)
		effs := bu.String()
		// names by the stated rule, over the URL as the client has it
		for _, t := range regTypes {
			s.fc.expected[cacheNameFor(t, effs)] = true
			if effs != eff {
				delete(s.fc.expected, cacheNameFor(t, eff))
			}
		}
		t := regTypes[c.intn(5)]
		c.in("type", fmt.Sprint(int(t)))
		before := bu.String()
		var err error
		if c.chance(0.5) {
			err = s.cl.Download(t)
		} else {
			_, err = s.cl.Lookup(&bootstrap.Question{RegistryType: t, Query: regQuery[t]})
		}
		if err != nil {
			c.failf("failed: %v", err)
		}
		if s.cl.BaseURL == nil || s.cl.BaseURL.String() != before {
			c.failf("the base URL changed from %s to %v", before, s.cl.BaseURL)
		}
		if len(s.fc.unexp) > 0 || len(s.fc.saves) != 1 || s.fc.saves[0] != cacheNameFor(t, effs) {
			c.failf("cached as %v, want %s", s.fc.saves, cacheNameFor(t, effs))
		}
		if len(s.rt.reqs) != 1 {
			c.failf("%d requests", len(s.rt.reqs))
		}
		// expected URL, textually
		ep := bu.EscapedPath()
		if !strings.HasSuffix(ep, "/") {
			ep += "/"
		}
		want := bu.Scheme + "://"
		if bu.User != nil {
			want += bu.User.String() + "@"
		}
		want += bu.Host + ep + plainName(t)
		got := s.rt.reqs[0].URL.String()
		if got != want {
			c.failf("fetched %s, want %s", got, want)
		}
		if s.rt.reqs[0].Method != "GET" {
			c.failf("method %s", s.rt.reqs[0].Method)
		}
		// names of the other types, and again after a lookup
		for _, u := range regTypes {
			s.held(u)
		}
		if len(s.fc.unexp) > 0 {
			c.failf("cache file %v consulted", s.fc.unexp)
		}
		if s.cl.BaseURL.String() != before {
			c.failf("the base URL changed to %v", s.cl.BaseURL)
		}
		c.eq("Filename", t.Filename(), plainName(t))
		c.interesting(effs, int(t))
	})
}
