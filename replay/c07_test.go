package zzverif

import (
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"testing"
	"time"

	"github.com/openrdap/rdap/bootstrap"
	"github.com/openrdap/rdap/bootstrap/cache"
)

// c07Real runs clients over the real caches: two processes sharing a disk
// cache directory, and a default client.
func c07Real(c *C) {
	s := newBootSim(c, "")
	t := regTypes[c.intn(5)]
	ask := func(cl *bootstrap.Client) (string, error) {
		a, err := cl.Lookup(&bootstrap.Question{RegistryType: t, Query: regQuery[t]})
		if err != nil || len(a.URLs) != 1 {
			return "", err
		}
		return a.URLs[0].String(), nil
	}
	want := func(v int) string {
		f, _ := bootstrap.NewFile(verDoc(t, v))
		for _, us := range f.Entries {
			return us[0].String()
		}
		return ""
	}
	expect := func(cl *bootstrap.Client, v, reqs int, what string) {
		c.in("step", what)
		n := len(s.rt.reqs)
		got, err := ask(cl)
		if err != nil || got != want(v) {
			c.failf("%s: got %q, %v; want %q", what, got, err, want(v))
		}
		if len(s.rt.reqs)-n != reqs {
			c.failf("%s: %d requests, want %d", what, len(s.rt.reqs)-n, reqs)
		}
	}
	s.ver = 1
	if c.chance(0.3) {
		cl := &bootstrap.Client{HTTP: &http.Client{Transport: s.rt}}
		expect(cl, 1, 1, "default client, first lookup")
		s.ver = 2
		expect(cl, 1, 0, "default client, second lookup")
		m := cache.NewMemoryCache()
		m.SetTimeout(-time.Second)
		cl = &bootstrap.Client{HTTP: &http.Client{Transport: s.rt}, Cache: m}
		expect(cl, 2, 1, "expiring memory cache, first lookup")
		s.ver = 3
		expect(cl, 3, 1, "expiring memory cache, second lookup")
		c.interesting("memory", int(t))
		return
	}
	dir, err := os.MkdirTemp(os.Getenv("VERIF_TMP"), "c07")
	if err != nil {
		c.failf("harness: %v", err)
	}
	defer os.RemoveAll(dir)
	mk := func() *bootstrap.Client {
		d := cache.NewDiskCache()
		d.Dir = filepath.Join(dir, "c")
		u, _ := url.Parse(s.base)
		return &bootstrap.Client{HTTP: &http.Client{Transport: s.rt}, Cache: d, BaseURL: u}
	}
	file := filepath.Join(dir, "c", plainName(t))
	a, b := mk(), mk()
	expect(a, 1, 1, "A, first lookup")
	s.ver = 2
	expect(b, 1, 0, "B, from the shared directory")
	past := time.Now().Add(-25 * time.Hour)
	if c.chance(0.5) {
		os.Chtimes(file, past, past)
		expect(a, 2, 1, "A, file expired")
		fut := time.Now().Add(time.Hour)
		os.Chtimes(file, fut, fut)
		s.ver = 3
		expect(b, 2, 0, "B, picks up the newer file")
		expect(a, 2, 0, "A, touched file")
	} else {
		fut := time.Now().Add(time.Hour)
		os.WriteFile(file, []byte("{"), 0o600)
		os.Chtimes(file, fut, fut)
		s.ver = 4
		expect(a, 4, 1, "A, newer file unusable")
		if c.chance(0.5) {
			os.Remove(file)
			expect(a, 4, 0, "A, file removed")
			s.ver = 5
			expect(mk(), 5, 1, "C, nothing anywhere")
		}
	}
	c.interesting("disk", int(t))
}

func TestVerifC07(t *testing.T) {
	run(t, func(c *C) {
		if c.chance(0.1) {
			c07Real(c)
			return
		}
		base := ""
		if c.chance(0.3) {
			base = c.pick("https://example.org/rdap/", "http://h:8080/x", "https://data.iana.org/rdap", "https://h")
		}
		s := newBootSim(c, base)
		for i, n := 0, 2+c.intn(25); i < n; i++ {
			s.step("C07")
		}
		c.interesting(len(s.rt.reqs), len(s.fc.saves), len(s.log))
	})
}
