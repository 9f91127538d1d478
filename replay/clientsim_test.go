package zzverif

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"reflect"
	"strings"
	"time"

	"github.com/openrdap/rdap"
	"github.com/openrdap/rdap/bootstrap"
	"github.com/openrdap/rdap/bootstrap/cache"
)

// behaviour of one RDAP server
type srvBeh struct {
	kind   string // ok, transport, readerr
	status int
	body   []byte
	decode string // type the body decodes to, "" if it does not
	mark   string
	ignore bool // ignores an expired context
}

type ctxKey struct{}

// attempt is one recorded HTTP request.
type attempt struct {
	req      *http.Request
	url      string
	deadline time.Time
	hasDL    bool
	value    any
	body     string
	closed   int
	read     int
	eof      bool
}

type trackedBody struct {
	a   *attempt
	r   io.Reader
	err error
}

func (b *trackedBody) Read(p []byte) (int, error) {
	if b.a.closed > 0 {
		return 0, errors.New("read after close")
	}
	if len(p) > 4096 {
		p = p[:4096]
	}
	n, err := b.r.Read(p)
	b.a.read += n
	if err == io.EOF && b.err != nil {
		err = b.err
	}
	if err != nil {
		b.a.eof = true
	}
	return n, err
}
func (b *trackedBody) Close() error { b.a.closed++; return nil }

type simRT struct {
	beh      map[string]srvBeh // by host
	attempts []*attempt
}

func (s *simRT) RoundTrip(r *http.Request) (*http.Response, error) {
	a := &attempt{req: r, url: r.URL.String(), value: r.Context().Value(ctxKey{})}
	a.deadline, a.hasDL = r.Context().Deadline()
	if r.Body != nil {
		b, _ := io.ReadAll(r.Body)
		a.body = string(b)
	}
	s.attempts = append(s.attempts, a)
	b, ok := s.beh[r.URL.Host]
	if !ok {
		return nil, errors.New("unknown host " + r.URL.Host)
	}
	if err := r.Context().Err(); err != nil && !b.ignore {
		return nil, err
	}
	if b.kind == "transport" {
		return nil, errors.New("fake transport error at " + r.URL.Host)
	}
	tb := &trackedBody{a: a, r: bytes.NewReader(b.body)}
	if b.kind == "readerr" {
		tb.r = bytes.NewReader(b.body[:len(b.body)/2])
		tb.err = errors.New("fake read error at " + r.URL.Host)
	}
	return &http.Response{StatusCode: b.status, Status: fmt.Sprintf("%d x", b.status), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{"Content-Type": {"application/rdap+json"}}, Body: tb, ContentLength: -1, Request: r}, nil
}

var respBodies = []struct{ body, typ string }{
	{`{"objectClassName":"domain","handle":"%s","ldhName":"x"}`, "*rdap.Domain"},
	{`{"objectClassName":"autnum","handle":"%s"}`, "*rdap.Autnum"},
	{`{"objectClassName":"ip network","handle":"%s"}`, "*rdap.IPNetwork"},
	{`{"objectClassName":"entity","handle":"%s"}`, "*rdap.Entity"},
	{`{"objectClassName":"nameserver","handle":"%s"}`, "*rdap.Nameserver"},
	{`{"errorCode":418,"title":"%s","description":["d1","d2"]}`, "*rdap.Error"},
	{`{"rdapConformance":["%s"]}`, "*rdap.Help"},
	{`{"domainSearchResults":[],"rdapConformance":["%s"]}`, "*rdap.DomainSearchResults"},
	{`{"objectClassName":"bogus","handle":"%s"}`, ""},
	{`{"objectClassName":5,"handle":"%s"}`, ""},
	{`[{"objectClassName":"domain","handle":"%s"}]`, ""},
	{`{"objectClassName":"domain","handle":"%s"`, ""},
	{`"%s"`, ""},
	{`<html>%s`, ""},
}

func genBeh(c *C, i int, goodBias float64) srvBeh {
	b := srvBeh{kind: "ok", status: 200, mark: fmt.Sprintf("M%d-%d", i, c.intn(1000))}
	k := respBodies[c.intn(len(respBodies))]
	if c.chance(goodBias) {
		k = respBodies[c.intn(8)]
	}
	b.body = []byte(fmt.Sprintf(k.body, b.mark))
	b.decode = k.typ
	switch c.intn(8) {
	case 0:
		b.kind = "transport"
	case 1:
		b.kind = "readerr"
	case 2:
		b.status = []int{100, 199, 300, 301, 302, 304, 400, 401, 403, 405, 410, 429, 500, 503}[c.intn(14)]
	case 3:
		b.status = 404
	case 4:
		b.status = []int{201, 202, 203, 204, 206, 250, 299}[c.intn(7)]
	case 5:
		if c.chance(0.4) {
			b.body, b.decode = nil, ""
		}
	}
	if h := c.hintInt(); c.chance(0.03) && h >= 100 && h < 600 {
		b.status = int(h)
	}
	if c.chance(0.05) && b.decode != "" {
		n := []int{100, 5000, 70000}[c.intn(3)]
		if c.chance(0.02) {
			n = 3 << 20
		}
		b.body = append(b.body, bytes.Repeat([]byte(" "), n)...)
	}
	return b
}

type clientSim struct {
	c       *C
	cl      *rdap.Client
	rt, brt *simRT
	bc      *fakeCache
	bcCalls *int
	urls    map[bootstrap.RegistryType][]string
	beh     map[string]srvBeh
	root    bool // the DNS entry is the root zone
	bad     bool // bootstrap downloads fail
}

type countingCache struct {
	cache.RegistryCache
	n *int
}

func (k countingCache) State(f string) cache.FileState { *k.n++; return k.RegistryCache.State(f) }
func (k countingCache) Load(f string) ([]byte, error)  { *k.n++; return k.RegistryCache.Load(f) }
func (k countingCache) Save(f string, b []byte) error  { *k.n++; return k.RegistryCache.Save(f, b) }

var bootEntries = map[bootstrap.RegistryType]string{bootstrap.DNS: "com", bootstrap.IPv4: "10.0.0.0/8", bootstrap.IPv6: "2001:db8::/32", bootstrap.ASN: "64512-65535", bootstrap.ServiceProvider: "TAG"}

func newClientSim(c *C, goodBias float64) *clientSim {
	ctxIDs = map[context.Context]int{}
	s := &clientSim{c: c, beh: map[string]srvBeh{}, urls: map[bootstrap.RegistryType][]string{}, bc: newFakeCache(), bcCalls: new(int)}
	s.rt = &simRT{beh: s.beh}
	s.brt = &simRT{beh: map[string]srvBeh{}}
	n := 0
	docs := map[string][]byte{}
	for _, t := range regTypes {
		var us []string
		for i, k := 0, 1+c.count(4, 40); i < k; i++ {
			host := fmt.Sprintf("s%d.example", n)
			n++
			us = append(us, c.pick("https", "http")+"://"+host+c.pick("", "/", "/rdap", "/rdap/", "/r%2Fx", "/?k=v"))
			s.beh[host] = genBeh(c, n, goodBias)
		}
		s.urls[t] = us
		entry := bootEntries[t]
		if t == bootstrap.DNS && c.chance(0.15) {
			entry = ""
			s.root = true
		}
		sv := []any{[]string{entry}, us}
		if t == bootstrap.ServiceProvider {
			sv = []any{[]string{"x"}, []string{bootEntries[t]}, us}
		}
		b, _ := json.Marshal(map[string]any{"services": []any{sv}})
		docs[plainName(t)] = b
	}
	bt := &http.Client{Transport: roundTrip(func(r *http.Request) (*http.Response, error) {
		a := &attempt{req: r, url: r.URL.String(), value: r.Context().Value(ctxKey{})}
		a.deadline, a.hasDL = r.Context().Deadline()
		s.brt.attempts = append(s.brt.attempts, a)
		if s.bad {
			return nil, errors.New("fake bootstrap failure")
		}
		if err := r.Context().Err(); err != nil {
			return nil, err
		}
		d := docs[r.URL.Path[strings.LastIndexByte(r.URL.Path, '/')+1:]]
		return &http.Response{StatusCode: 200, Status: "200 OK", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: io.NopCloser(bytes.NewReader(d)), Request: r}, nil
	})}
	for _, t := range regTypes {
		s.bc.expected[plainName(t)] = true
	}
	s.cl = &rdap.Client{HTTP: &http.Client{Transport: s.rt}, Bootstrap: &bootstrap.Client{HTTP: bt, Cache: countingCache{s.bc, s.bcCalls}}}
	if c.chance(0.3) {
		s.cl.Verbose = func(string) {}
	}
	if c.chance(0.5) {
		s.cl.UserAgent = c.pick("OpenRDAP/1", "x", "agent with spaces (y)")
	}
	return s
}

type roundTrip func(r *http.Request) (*http.Response, error)

func (f roundTrip) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

func (s *clientSim) server(i int) *url.URL {
	host := fmt.Sprintf("direct%d.example", i)
	s.beh[host] = genBeh(s.c, 100+i, 0.6)
	u, err := url.Parse("https://" + host + s.c.pick("", "/", "/rdap", "/rdap/", "/r%2Fx/", "/?k=v", "/rdap#f"))
	if err != nil {
		panic(err)
	}
	return u
}

type wantRun struct {
	n       int // attempts
	errType rdap.ClientErrorType
	errOf   int    // index of the attempt whose error is returned, -1
	typ     string // decoded type on success
	mark    string
}

// expectRun is the statement's account of trying the servers in order.
func expectRun(behs []srvBeh, deadline bool) wantRun {
	for i, b := range behs {
		failed := b.kind != "ok"
		if deadline && !b.ignore {
			failed = true
		}
		if failed {
			if deadline {
				return wantRun{n: i + 1, errOf: i}
			}
			continue
		}
		if b.status >= 200 && b.status <= 299 && len(b.body) > 0 {
			if b.decode != "" {
				return wantRun{n: i + 1, typ: b.decode, mark: b.mark, errOf: -1}
			}
			continue
		}
		if b.status == 404 {
			return wantRun{n: i + 1, errType: rdap.ObjectDoesNotExist, errOf: -1}
		}
	}
	return wantRun{n: len(behs), errType: rdap.NoWorkingServers, errOf: -1}
}

func clientErrType(err error) rdap.ClientErrorType {
	var ce *rdap.ClientError
	if errors.As(err, &ce) {
		return ce.Type
	}
	return 0
}

// expectedURL is the URL of req at server u, by the rule of C11.
func expectedURL(req *rdap.Request, u *url.URL) string { return req.WithServer(u).URL().String() }

func snapshotReq(r *rdap.Request) string {
	if r == nil {
		return "nil"
	}
	s := fmt.Sprintf("%d %q %s %p %q %v %v", r.Type, r.Query, sortedValues(r.Params), r.Server, r.FetchRoles, r.Timeout, ctxID(r.Context()))
	if r.Server != nil {
		s += fmt.Sprintf(" %#v %v", *r.Server, r.Server)
	}
	return s
}

// one case; what selects the clauses judged
func (s *clientSim) run(what string) {
	c := s.c
	judge := func(p string, ok bool, f string, a ...any) {
		if !ok && p == what {
			c.failf(f, a...)
		}
	}
	var req *rdap.Request
	var targets []string
	unsupported := false
	nomatch := false
	direct := c.chance(0.35)
	var bt bootstrap.RegistryType
	if direct {
		ti := typeInfos[c.intn(len(typeInfos))]
		req = &rdap.Request{Type: ti.typ, Query: genText(c), Server: s.server(0)}
		req.Params = genParams(c, req.Server)
		if c.chance(0.05) {
			// no URL can be made from this server URL
			req.Server = &url.URL{Scheme: "https", Host: "a b.example", Path: req.Server.Path}
		}
		if req.URL() == nil && req.Type != rdap.RawRequest {
			reqIn(c, req)
			resp, err := s.cl.Do(req)
			judge("C14", len(s.rt.attempts) == 0 && clientErrType(err) == rdap.NoWorkingServers, "no URL can be made from the server URL: %d requests, error %v", len(s.rt.attempts), err)
			judge("C14", resp != nil && len(resp.HTTP) == 1 && resp.HTTP[0] != nil && resp.HTTP[0].Error != nil, "no URL can be made from the server URL: the attempt is not recorded with its error")
			return
		}
		if req.Server.Host == "a b.example" {
			return
		}
	} else {
		ti := typeInfos[c.intn(len(typeInfos))]
		if c.chance(0.8) {
			ti = typeInfos[[]int{0, 1, 2, 4}[c.intn(4)]]
		}
		req = &rdap.Request{Type: ti.typ}
		switch ti.typ {
		case rdap.AutnumRequest:
			bt, req.Query = bootstrap.ASN, c.pick("AS65000", "64512", "as65535")
		case rdap.DomainRequest:
			bt, req.Query = bootstrap.DNS, c.pick("example.com", "EXAMPLE.Com.", "a.b.com", "com")
		case rdap.EntityRequest:
			bt, req.Query = bootstrap.ServiceProvider, c.pick("X-TAG", "a-b-TAG", "-TAG", "X:1-TAG")
		case rdap.IPRequest:
			bt, req.Query = bootstrap.IPv4, c.pick("10.1.2.3", "10.0.0.0/8", "10.128.0.0/9")
			if c.chance(0.5) {
				bt, req.Query = bootstrap.IPv6, c.pick("2001:db8::1", "2001:db8::/32", "2001:DB8:0:1::/64")
			}
		default:
			unsupported = true
			req.Query = c.pick("example.com", "10.1.2.3", "AS65000", "X-TAG")
		}
		if !unsupported && !(s.root && bt == bootstrap.DNS) && c.chance(0.1) {
			nomatch = true
			req.Query = map[bootstrap.RegistryType]string{bootstrap.ASN: "1", bootstrap.DNS: "example.zz", bootstrap.ServiceProvider: "X-NONE", bootstrap.IPv4: "192.0.2.1", bootstrap.IPv6: "2002::1"}[bt]
		}
		req.Params = genParams(c, nil)
		if c.chance(0.7) {
			req.Params = nil
		}
	}
	if direct {
		targets = []string{req.URL().String()}
	} else if !unsupported && !nomatch {
		for _, u := range s.urls[bt] {
			pu, _ := url.Parse(u)
			targets = append(targets, expectedURL(req, pu))
		}
	}
	reqIn(c, req)
	if c.chance(0.2) {
		req.FetchRoles = []string{"all"}
	}
	warm := c.chance(0.6)
	s.bad = !warm && c.chance(0.1)
	if warm && !direct && !unsupported {
		if err := s.cl.Bootstrap.Download(bt); err != nil {
			c.failf("harness: %v", err)
		}
		s.brt.attempts = nil
	}
	*s.bcCalls = 0
	// context
	ctx := context.WithValue(context.Background(), ctxKey{}, c.n)
	deadline, cancelled := false, false
	var ctxDL time.Time
	switch c.intn(8) {
	case 0:
		var cancel func()
		ctxDL = time.Now().Add(-time.Second)
		ctx, cancel = context.WithDeadline(ctx, ctxDL)
		defer cancel()
		deadline = true
	case 1:
		var cancel func()
		ctxDL = time.Now().Add(time.Duration(1+c.intn(100)) * time.Minute)
		ctx, cancel = context.WithDeadline(ctx, ctxDL)
		defer cancel()
	case 2:
		var cancel func()
		ctx, cancel = context.WithCancel(ctx)
		cancel()
		cancelled = true
	}
	if (deadline || cancelled) && !direct && !unsupported && !warm {
		warm = true
		s.bad = false
		s.cl.Bootstrap.Download(bt)
		s.brt.attempts = nil
		*s.bcCalls = 0
	}
	for h, b := range s.beh {
		if (deadline || cancelled) && c.chance(0.4) {
			b.ignore = true
			s.beh[h] = b
		}
	}
	req = req.WithContext(ctx)
	if c.chance(0.3) {
		req.Timeout = []time.Duration{time.Minute, time.Hour, -time.Second, time.Duration(1+c.intn(50)) * time.Second}[c.intn(4)]
	}
	var behs []srvBeh
	bi := []string{}
	for _, t := range targets {
		u, _ := url.Parse(t)
		b := s.beh[u.Host]
		eff := b
		if cancelled && !b.ignore {
			eff.kind = "transport"
		}
		behs = append(behs, eff)
		bb := string(b.body)
		if len(bb) > 200 {
			bb = bb[:200] + fmt.Sprintf("... %d bytes", len(b.body))
		}
		bi = append(bi, fmt.Sprintf("%s: %s %d %s ignoresctx=%v", t, b.kind, b.status, bb, b.ignore))
	}
	c.in("servers", bi)
	c.in("context", fmt.Sprintf("deadline passed=%v cancelled=%v timeout=%v bootstrap broken=%v", deadline, cancelled, req.Timeout, s.bad))
	before := snapshotReq(req)
	start := time.Now()
	resp, err := s.cl.Do(req)
	end := time.Now()
	judge("C13", snapshotReq(req) == before, "the request changed: %s, was %s", snapshotReq(req), before)
	att := s.rt.attempts
	// ---- bootstrapping
	switch {
	case direct:
		judge("C15", *s.bcCalls == 0 && len(s.brt.attempts) == 0, "bootstrap was consulted although the request has a server")
		judge("C15", resp == nil || resp.BootstrapAnswer == nil, "a bootstrap answer for a request with a server")
	case unsupported:
		judge("C15", err != nil && clientErrType(err) == rdap.BootstrapNotSupported, "error %v, want bootstrap-not-supported", err)
		judge("C15", len(att) == 0 && len(s.brt.attempts) == 0, "network use for a request that cannot be bootstrapped")
		c.interesting("unsupported", int(req.Type))
		return
	case s.bad:
		judge("C15", err != nil && len(att) == 0, "bootstrapping failed, but error %v and %d RDAP requests", err, len(att))
		return
	default:
		var files []string
		for _, a := range s.brt.attempts {
			files = append(files, a.url)
			judge("C16", a.value == c.n, "the bootstrap request does not use the request's context")
		}
		if warm {
			judge("C15", len(files) == 0, "bootstrap requests %v although the registry is cached", files)
		} else {
			judge("C15", len(files) == 1 && strings.HasSuffix(files[0], "/"+plainName(bt)), "bootstrap requests %v, want one for %s", files, plainName(bt))
		}
		if nomatch {
			judge("C15", err != nil && clientErrType(err) == rdap.BootstrapNoMatch, "error %v, want no-match", err)
			judge("C15", len(att) == 0, "%d requests without a matching server", len(att))
			c.interesting("nomatch", int(bt))
			return
		}
		judge("C15", resp != nil && resp.BootstrapAnswer != nil && sameStrs(urlStrings(resp.BootstrapAnswer.URLs), s.urls[bt]), "bootstrap answer")
		judge("C13", resp != nil && resp.BootstrapAnswer != nil && sameStrs(urlStrings(resp.BootstrapAnswer.URLs), s.urls[bt]), "a registry URL changed")
	}
	// ---- the run
	if len(targets) == 0 {
		return
	}
	w := expectRun(behs, deadline)
	var got []string
	for _, a := range att {
		got = append(got, a.url)
	}
	wantURLs := targets[:w.n]
	sent := make([]string, len(wantURLs))
	for i, u := range wantURLs { // the fragment is not sent
		sent[i] = u
	}
	judge("C14", sameStrs(got, sent), "requests %q, want %q", got, sent)
	if len(got) > 0 {
		// servers tried are a prefix of the answer's URLs
		judge("C15", len(got) <= len(targets) && sameStrs(got, targets[:len(got)]), "servers tried %q, want %q in order", got, targets)
		judge("C13", len(got) <= len(targets) && sameStrs(got, targets[:len(got)]), "servers tried %q, want %q", got, targets)
	} else {
		judge("C15", false, "no server was tried")
	}
	if resp == nil {
		judge("C14", false, "no response record, error %v", err)
		return
	}
	judge("C14", len(resp.HTTP) == w.n, "%d entries recorded, want %d", len(resp.HTTP), w.n)
	for i, h := range resp.HTTP {
		if i >= len(behs) || h == nil {
			judge("C14", false, "nil or extra entry %d", i)
			break
		}
		b := behs[i]
		judge("C14", h.URL == targets[i], "entry %d has URL %s, want %s", i, h.URL, targets[i])
		failed := b.kind != "ok" || deadline && !b.ignore
		if failed {
			judge("C14", h.Error != nil, "entry %d: the failure is not recorded", i)
			judge("C16", h.Error != nil, "entry %d: the failure (%s) is not recorded", i, b.kind)
		} else {
			judge("C14", bytes.Equal(h.Body, b.body), "entry %d: body of %d bytes, want %d", i, len(h.Body), len(b.body))
			judge("C16", bytes.Equal(h.Body, b.body), "entry %d: body of %d bytes, want %d", i, len(h.Body), len(b.body))
			judge("C14", h.Response != nil && h.Response.StatusCode == b.status, "entry %d: response", i)
			if b.status >= 200 && b.status <= 299 && len(b.body) > 0 {
				judge("C14", (h.Error == nil) == (b.decode != ""), "entry %d: error %v", i, h.Error)
			}
		}
	}
	switch {
	case w.typ != "":
		judge("C14", err == nil, "error %v, want success", err)
		judge("C14", fmt.Sprintf("%T", resp.Object) == w.typ, "object of type %T, want %s", resp.Object, w.typ)
		if b, e := json.Marshal(resp.Object); e == nil {
			judge("C14", strings.Contains(string(b), w.mark), "the object is not the one of the accepted response: %s lacks %s", b, w.mark)
		}
	case w.errOf >= 0:
		judge("C14", err != nil, "no error after the deadline")
		if err != nil && len(resp.HTTP) > w.errOf {
			judge("C14", errors.Is(err, resp.HTTP[w.errOf].Error) || err == resp.HTTP[w.errOf].Error, "error %v, want the attempt's %v", err, resp.HTTP[w.errOf].Error)
			judge("C14", clientErrType(err) == 0, "error %v, want the attempt's own error", err)
		}
	default:
		judge("C14", err != nil && clientErrType(err) == w.errType, "error %v (type %d), want type %d", err, clientErrType(err), w.errType)
		judge("C14", resp.Object == nil, "an object with an error: %T", resp.Object)
	}
	// ---- each attempt
	var firstDL time.Time
	for i, a := range att {
		judge("C16", a.req.Method == "GET", "method %s", a.req.Method)
		judge("C16", a.body == "" && a.req.ContentLength == 0, "a request body")
		acc := strings.Join(a.req.Header.Values("Accept"), ",")
		types := map[string]bool{}
		for _, t := range strings.Split(acc, ",") {
			types[strings.TrimSpace(t)] = true
		}
		judge("C16", types["application/rdap+json"] && types["application/json"], "Accept %q", acc)
		ua, has := a.req.Header["User-Agent"]
		if s.cl.UserAgent == "" {
			judge("C16", !has, "User-Agent %q although none is configured", ua)
		} else {
			judge("C16", len(ua) == 1 && ua[0] == s.cl.UserAgent, "User-Agent %q, want %q", ua, s.cl.UserAgent)
		}
		judge("C16", a.value == c.n, "the attempt does not use the request's context")
		if i < len(behs) && a.closed == 0 && (behs[i].kind == "ok" || behs[i].kind == "readerr") && !(deadline && !behs[i].ignore) {
			judge("C16", false, "the body of attempt %d was not closed", i)
		}
		if i < len(behs) && behs[i].kind == "ok" && !(deadline && !behs[i].ignore) {
			judge("C16", a.eof, "the body of attempt %d was not read to its end", i)
		}
		lo, hi := time.Time{}, time.Time{}
		if req.Timeout > 0 {
			lo, hi = start.Add(req.Timeout), end.Add(req.Timeout)
			if !ctxDL.IsZero() && ctxDL.Before(lo) {
				lo, hi = ctxDL, ctxDL
			}
		} else if !ctxDL.IsZero() {
			lo, hi = ctxDL, ctxDL
		}
		if lo.IsZero() {
			judge("C16", !a.hasDL, "a deadline %v although there is no timeout", a.deadline)
		} else {
			judge("C16", a.hasDL && !a.deadline.Before(lo) && !a.deadline.After(hi), "deadline %v, want between %v and %v", a.deadline, lo, hi)
		}
		if i == 0 {
			firstDL = a.deadline
		}
		judge("C16", a.deadline.Equal(firstDL), "attempt %d has its own deadline: the timeout must bound the whole run", i)
	}
	if what == "C13" && !deadline && !cancelled {
		// running it again gives the same requests and result
		s.rt.attempts = nil
		resp2, err2 := s.cl.Do(req)
		var got2 []string
		for _, a := range s.rt.attempts {
			got2 = append(got2, a.url)
		}
		if !sameStrs(got, got2) || (err == nil) != (err2 == nil) {
			c.failf("running the request again: %q %v, first %q %v", got2, err2, got, err)
		}
		if resp2 != nil && !reflect.DeepEqual(resp.Object, resp2.Object) {
			c.failf("running the request again gives another object")
		}
		if snapshotReq(req) != before {
			c.failf("the request changed")
		}
		if !direct && !sameStrs(urlStrings(resp2.BootstrapAnswer.URLs), s.urls[bt]) {
			c.failf("a registry URL changed")
		}
	}
	c.interesting(direct, int(req.Type), w.n, int(w.errType), w.typ, w.errOf, len(targets), deadline, cancelled, req.Timeout > 0)
}

var ctxIDs = map[context.Context]int{}

func ctxID(x context.Context) int {
	if _, ok := ctxIDs[x]; !ok {
		ctxIDs[x] = len(ctxIDs) + 1
	}
	return ctxIDs[x]
}
