package zzverif

import (
	"bytes"
	"context"
	"crypto/sha256"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"strings"
	"time"

	"github.com/openrdap/rdap/bootstrap"
	"github.com/openrdap/rdap/bootstrap/cache"
)

// fakeCache is a registry cache whose contents, states and failures the
// harness controls, and which records every call.
type fakeCache struct {
	files    map[string][]byte
	state    map[string]cache.FileState
	saveErr  map[string]bool
	loadErr  map[string]bool
	saves    []string
	loads    []string
	probing  bool
	unexp    []string // file names outside the expected set
	expected map[string]bool
}

func newFakeCache() *fakeCache {
	return &fakeCache{files: map[string][]byte{}, state: map[string]cache.FileState{}, saveErr: map[string]bool{}, loadErr: map[string]bool{}, expected: map[string]bool{}}
}

func (f *fakeCache) note(n string) {
	if !f.expected[n] {
		f.unexp = append(f.unexp, n)
	}
}

func (f *fakeCache) Load(n string) ([]byte, error) {
	f.note(n)
	f.loads = append(f.loads, n)
	b, ok := f.files[n]
	if !ok {
		return nil, errors.New("fake cache: no such file")
	}
	if f.loadErr[n] {
		return nil, errors.New("fake cache: load error")
	}
	if f.state[n] == cache.ShouldReload {
		f.state[n] = cache.Good
	}
	return append([]byte(nil), b...), nil
}

func (f *fakeCache) Save(n string, b []byte) error {
	f.note(n)
	f.saves = append(f.saves, n)
	if f.saveErr[n] {
		return errors.New("fake cache: save error")
	}
	f.files[n] = append([]byte(nil), b...)
	f.state[n] = cache.Good
	return nil
}

func (f *fakeCache) State(n string) cache.FileState {
	f.note(n)
	if f.probing {
		return cache.Good
	}
	return f.state[n]
}

func (f *fakeCache) SetTimeout(time.Duration) {}

// fakeRT serves registry documents and faults.
type fakeRT struct {
	body   func(path string) ([]byte, int, string) // body, status, fault
	reqs   []*http.Request
	opened int
	closed int
}

type faultyBody struct {
	r      io.Reader
	err    error
	closed *int
}

func (b *faultyBody) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF && b.err != nil {
		return n, b.err
	}
	return n, err
}
func (b *faultyBody) Close() error { *b.closed++; return nil }

func (f *fakeRT) RoundTrip(r *http.Request) (*http.Response, error) {
	f.reqs = append(f.reqs, r)
	body, status, fault := f.body(r.URL.String())
	if fault == "transport" {
		return nil, errors.New("fake transport error")
	}
	if err := r.Context().Err(); err != nil {
		return nil, err
	}
	f.opened++
	fb := &faultyBody{r: bytes.NewReader(body), closed: &f.closed}
	if fault == "truncated" {
		fb.r = bytes.NewReader(body[:len(body)/2])
		fb.err = io.ErrUnexpectedEOF
	}
	return &http.Response{StatusCode: status, Status: fmt.Sprintf("%d x", status), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: fb, ContentLength: -1, Request: r}, nil
}

var regTypes = []bootstrap.RegistryType{bootstrap.DNS, bootstrap.IPv4, bootstrap.IPv6, bootstrap.ASN, bootstrap.ServiceProvider}

func plainName(t bootstrap.RegistryType) string {
	return map[bootstrap.RegistryType]string{bootstrap.DNS: "dns.json", bootstrap.IPv4: "ipv4.json", bootstrap.IPv6: "ipv6.json", bootstrap.ASN: "asn.json", bootstrap.ServiceProvider: "object-tags.json"}[t]
}

func cacheNameFor(t bootstrap.RegistryType, base string) string {
	if base == "https://data.iana.org/rdap/" {
		return plainName(t)
	}
	h := sha256.Sum256([]byte(base))
	return fmt.Sprintf("%x", h)[:6] + "_" + plainName(t)
}

var regQuery = map[bootstrap.RegistryType]string{bootstrap.DNS: "example.com", bootstrap.IPv4: "10.1.2.3", bootstrap.IPv6: "2001:db8::1", bootstrap.ASN: "AS65000", bootstrap.ServiceProvider: "X-TAG"}

// verDoc is version v of the registry document of type t.
func verDoc(t bootstrap.RegistryType, v int) []byte {
	e := map[bootstrap.RegistryType]string{bootstrap.DNS: "com", bootstrap.IPv4: "10.0.0.0/8", bootstrap.IPv6: "2001:db8::/32", bootstrap.ASN: "64512-65535", bootstrap.ServiceProvider: "TAG"}[t]
	if t == bootstrap.ServiceProvider {
		return []byte(fmt.Sprintf(`{"description":"t%d v%d","services":[[["x"],["%s"],["https://t%d.v%d.example/"]]]}`, t, v, e, t, v))
	}
	return []byte(fmt.Sprintf(`{"description":"t%d v%d","services":[[["%s"],["https://t%d.v%d.example/"]]]}`, t, v, e, t, v))
}

var badDocs = []string{"", "{", "[]", `{"services":[[["com"]]]}`, `{"services":[[["a"],["b"],["c"],["d"]]]}`, `{"services":5}`, "<html>", "\xff", `{"services":[[["com"],["https://x/"]]]`}

type bootSim struct {
	c     *C
	cl    *bootstrap.Client
	fc    *fakeCache
	rt    *fakeRT
	base  string
	mem   map[bootstrap.RegistryType]string // document held in memory
	ver   int
	log   []string
	net   string // fault of the server: ok, transport, status, truncated, garbage
	doc   map[string][]byte
	stat  int
	first string
}

func newBootSim(c *C, base string) *bootSim {
	s := &bootSim{c: c, fc: newFakeCache(), base: base, mem: map[bootstrap.RegistryType]string{}, net: "ok", stat: 200}
	s.rt = &fakeRT{body: func(u string) ([]byte, int, string) {
		var d []byte
		for _, t := range regTypes {
			if strings.HasSuffix(u, "/"+plainName(t)) {
				d = verDoc(t, s.ver)
			}
		}
		switch s.net {
		case "transport":
			return nil, 0, "transport"
		case "status":
			return d, s.stat, ""
		case "truncated":
			return d, 200, "truncated"
		case "garbage":
			return []byte(badDocs[s.stat%len(badDocs)]), 200, ""
		}
		return d, 200, ""
	}}
	s.cl = &bootstrap.Client{HTTP: &http.Client{Transport: s.rt}, Cache: s.fc}
	if base != "" {
		u, err := url.Parse(base)
		if err != nil {
			c.failf("harness: %v", err)
		}
		s.cl.BaseURL = u
	} else {
		s.base = "https://data.iana.org/rdap/"
	}
	for _, t := range regTypes {
		s.fc.expected[s.name(t)] = true
	}
	if c.chance(0.2) {
		s.cl.Verbose = func(string) {}
	}
	return s
}

func (s *bootSim) name(t bootstrap.RegistryType) string { return cacheNameFor(t, s.base) }

func (s *bootSim) op(f string, a ...any) {
	s.log = append(s.log, fmt.Sprintf(f, a...))
	s.c.in("history", s.log)
}

func (s *bootSim) held(t bootstrap.RegistryType) string {
	var f *bootstrap.File
	switch t {
	case bootstrap.DNS:
		if r := s.cl.DNS(); r != nil {
			f = r.File()
		}
	case bootstrap.IPv4:
		if r := s.cl.IPv4(); r != nil {
			f = r.File()
		}
	case bootstrap.IPv6:
		if r := s.cl.IPv6(); r != nil {
			f = r.File()
		}
	case bootstrap.ASN:
		if r := s.cl.ASN(); r != nil {
			f = r.File()
		}
	case bootstrap.ServiceProvider:
		if r := s.cl.ServiceProvider(); r != nil {
			f = r.File()
		}
	}
	if f == nil {
		return ""
	}
	return string(f.JSON)
}

// probe reads what is held in memory without letting the accessors reload.
func (s *bootSim) probe() map[bootstrap.RegistryType]string {
	s.fc.probing = true
	defer func() { s.fc.probing = false }()
	out := map[bootstrap.RegistryType]string{}
	for _, t := range regTypes {
		out[t] = s.held(t)
	}
	return out
}

func validDoc(b string) bool {
	_, err := bootstrap.NewFile([]byte(b))
	return err == nil
}

// step runs one random operation and compares with the reference model.
// what: "C06" or "C07" selects the clauses that are judged.
func (s *bootSim) step(what string) {
	c := s.c
	t := regTypes[c.intn(len(regTypes))]
	if c.chance(0.6) {
		t = regTypes[s.ver%2] // concentrate
	}
	n := s.name(t)
	nreq, nsave := len(s.rt.reqs), len(s.fc.saves)
	files := map[string]string{}
	for k, v := range s.fc.files {
		files[k] = string(v)
	}
	judge := func(p string, ok bool, f string, a ...any) {
		if !ok && (what == p || what == "") {
			c.failf(f, a...)
		}
	}
	others := func() {
		got := s.probe()
		for _, u := range regTypes {
			judge("C06", got[u] == s.mem[u], "registry %s in memory is %q, want %q", u, got[u], s.mem[u])
			s.mem[u] = got[u]
		}
		judge("C06", len(s.fc.unexp) == 0, "cache file %v is not the registry's", s.fc.unexp)
		judge("C06", s.rt.opened == s.rt.closed, "a response body was not closed")
	}
	// expected result of a download now
	wantDownload := func(err error, verb string) bool {
		ok := s.net == "ok" || (s.net == "status" && s.stat == 200)
		saveFails := s.fc.saveErr[n]
		d := string(verDoc(t, s.ver))
		judge("C07", len(s.rt.reqs) == nreq+1, "%s made %d requests, want 1", verb, len(s.rt.reqs)-nreq)
		if !ok || saveFails {
			judge("C06", err != nil, "%s: the download failed (%s %d, cache write fails: %v) but no error was returned", verb, s.net, s.stat, saveFails)
			judge("C07", err != nil, "%s: the download failed but no error was returned", verb)
			if !ok {
				judge("C06", len(s.fc.saves) == nsave, "%s: the cache was written after a failed download", verb)
				for k, v := range files {
					judge("C06", string(s.fc.files[k]) == v, "%s: cached file %s changed after a failed download", verb, k)
				}
				judge("C06", len(files) == len(s.fc.files), "%s: a cached file appeared or vanished", verb)
			}
			return false
		}
		judge("C06", err == nil, "%s failed: %v", verb, err)
		judge("C06", string(s.fc.files[n]) == d, "%s: the cache holds %q, want the downloaded bytes %q", verb, s.fc.files[n], d)
		for k, v := range files {
			if k != n {
				judge("C06", string(s.fc.files[k]) == v, "%s: the cached file of another registry changed", verb)
			}
		}
		s.mem[t] = d
		return err == nil
	}
	switch k := c.intn(10); {
	case k == 0: // another process writes the cache
		doc := string(verDoc(t, 1000+c.intn(1000)))
		if c.chance(0.3) {
			doc = badDocs[c.intn(len(badDocs))]
		}
		s.op("cache file %s replaced (newer): %s", n, doc)
		s.fc.files[n] = []byte(doc)
		s.fc.state[n] = cache.ShouldReload
	case k == 1: // expiry or removal
		if _, ok := s.fc.files[n]; ok {
			if c.chance(0.3) {
				s.op("cache file %s removed", n)
				delete(s.fc.files, n)
				s.fc.state[n] = cache.Absent
			} else {
				s.op("cache file %s expires", n)
				s.fc.state[n] = cache.Expired
			}
		}
	case k == 2: // faults
		s.net = c.pick("ok", "ok", "transport", "status", "truncated", "garbage")
		s.stat = []int{200, 201, 204, 206, 301, 304, 400, 404, 500, 503, 299}[c.intn(11)]
		s.fc.saveErr[n] = c.chance(0.2)
		s.fc.loadErr[n] = c.chance(0.2)
		s.ver++
		s.op("server now %s %d version %d; cache of %s: save fails %v, load fails %v", s.net, s.stat, s.ver, n, s.fc.saveErr[n], s.fc.loadErr[n])
	case k <= 4: // download
		s.ver++
		s.op("Download(%s), server version %d", t, s.ver)
		var err error
		if c.chance(0.5) {
			err = s.cl.Download(t)
		} else {
			err = s.cl.DownloadWithContext(context.Background(), t)
		}
		wantDownload(err, "Download")
		others()
	case k <= 5: // accessor
		st := s.fc.state[n]
		s.op("accessor %s (cache %v)", t, int(st))
		if st == cache.ShouldReload && !s.fc.loadErr[n] && validDoc(string(s.fc.files[n])) {
			s.mem[t] = string(s.fc.files[n])
		}
		got := s.held(t)
		judge("C07", got == s.mem[t], "accessor returned %q, want %q", got, s.mem[t])
		judge("C07", len(s.rt.reqs) == nreq, "an accessor made a network request")
		judge("C06", len(s.fc.saves) == nsave, "an accessor wrote the cache")
		if got != s.mem[t] {
			s.mem[t] = got
		}
		others()
	default: // lookup
		st := s.fc.state[n]
		s.ver++
		s.op("Lookup(%s %s), server version %d, cache state %d", t, regQuery[t], s.ver, int(st))
		need := false
		switch st {
		case cache.ShouldReload:
			if !s.fc.loadErr[n] && validDoc(string(s.fc.files[n])) {
				s.mem[t] = string(s.fc.files[n])
			} else {
				need = true
			}
		case cache.Expired:
			need = true
		}
		if s.mem[t] == "" {
			need = true
		}
		q := &bootstrap.Question{RegistryType: t, Query: regQuery[t]}
		a, err := s.cl.Lookup(q)
		good := true
		if need {
			good = wantDownload(err, "Lookup")
			judge("C07", good == (err == nil), "Lookup error %v", err)
		} else {
			judge("C07", len(s.rt.reqs) == nreq, "Lookup made a network request although the registry is in memory and the cache state is %d", int(st))
			judge("C06", len(s.fc.saves) == nsave || len(s.rt.reqs) != nreq, "Lookup wrote the cache without a download")
			judge("C07", err == nil, "Lookup failed: %v", err)
		}
		if err == nil && good {
			us := urlStrings(a.URLs)
			w := ""
			if i := strings.Index(s.mem[t], "https://"); i >= 0 {
				w = s.mem[t][i:]
				w = w[:strings.IndexByte(w, '"')]
			}
			judge("C07", sameStrs(us, []string{w}), "Lookup answered %v from %q", us, s.mem[t])
		} else if err != nil {
			judge("C07", a == nil, "an answer and an error")
		}
		others()
		if need && good {
			c.interesting("lookup", int(st))
		}
	}
	for _, r := range s.rt.reqs[nreq:] {
		if r.Method != "GET" {
			judge("C10", false, "method %s", r.Method)
		}
	}
}
