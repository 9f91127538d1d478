package zzverif

import (
	"fmt"
	"net/url"
	"sort"
	"strings"

	"github.com/openrdap/rdap"
)

type typeInfo struct {
	typ   rdap.RequestType
	path  string
	param string
}

var typeInfos = []typeInfo{
	{rdap.AutnumRequest, "autnum", ""}, {rdap.DomainRequest, "domain", ""}, {rdap.EntityRequest, "entity", ""},
	{rdap.HelpRequest, "help", ""}, {rdap.IPRequest, "ip", ""}, {rdap.NameserverRequest, "nameserver", ""},
	{rdap.DomainSearchRequest, "domains", "name"}, {rdap.DomainSearchByNameserverRequest, "domains", "nsLdhName"},
	{rdap.DomainSearchByNameserverIPRequest, "domains", "nsIp"}, {rdap.NameserverSearchRequest, "nameservers", "name"},
	{rdap.NameserverSearchByNameserverIPRequest, "nameservers", "ip"}, {rdap.EntitySearchRequest, "entities", "fn"},
	{rdap.EntitySearchByHandleRequest, "entities", "handle"}, {rdap.AutnumSearchRequest, "autnums", "handle"},
	{rdap.RawRequest, "", ""},
}

func genText(c *C) string { return c.stretch(genText0(c)) }

func genText0(c *C) string {
	switch c.intn(8) {
	case 0:
		return c.pick("example.com", "AS123", "192.0.2.0/24", "2001:db8::1", "ABC-TAG", "*.com", "ns1.example.", "")
	case 1:
		n := 1 + c.intn(6)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(c.intn(256))
		}
		return string(b)
	case 2:
		n := 1 + c.intn(5)
		s := ""
		for i := 0; i < n; i++ {
			s += c.pick("/", "?", "#", "%", "%2F", "%41", " ", "+", "&", "=", ";", ":", "@", "..", ".", "~", "!", "'", "(", "*", ",", "\\", "\"", "<", "[", "]", "^", "|", "{", "}", "\n", "\x00", "\x7f", "\u00e9", "\u65e5", "a", "Z", "0", "-", "_", "$")
		}
		return s
	case 3:
		return c.hint()
	}
	n := 1 + c.intn(8)
	s := ""
	for i := 0; i < n; i++ {
		s += string(rune(' ' + c.intn(95)))
	}
	return s
}

func genServer(c *C) *url.URL {
	s := c.pick("https", "http") + "://" + c.pick("rdap.example", "h:8080", "[2001:db8::1]", "u:p@rdap.example") + c.pick("", "/", "/rdap", "/rdap/", "/a%2Fb", "/a%2Fb/", "/a%20b", "/x//", "/\u00e9/", "/v1;x", "/a:b/", "/x%2f")
	if c.chance(0.3) {
		s += "?" + c.pick("k=v", "k=v&k=w&a=", "name=x", "a=%26&b=%3D", "", "q=a+b", "ip=1", "handle=h&fn=f")
	}
	if c.chance(0.2) {
		s += "#" + c.pick("frag", "a%20b", "x")
	}
	u, err := url.Parse(s)
	if err != nil {
		panic(err)
	}
	return u
}

func genParams(c *C, srv *url.URL) url.Values {
	if c.chance(0.6) {
		return nil
	}
	v := url.Values{}
	for i, n := 0, c.intn(3); i < n; i++ {
		k := c.pick("p", "x y", "cursor", "&", "name", "fn", "sort")
		if srv != nil && srv.Query().Has(k) {
			continue
		}
		v[k] = nil
		for j, m := 0, 1+c.intn(2); j < m; j++ {
			v[k] = append(v[k], genText(c))
		}
	}
	return v
}

func genRequest(c *C, needServer bool) (*rdap.Request, typeInfo) {
	ti := typeInfos[c.intn(len(typeInfos))]
	r := &rdap.Request{Type: ti.typ, Query: genText(c)}
	if ti.typ == rdap.IPRequest && c.chance(0.7) {
		r.Query = c.pick("192.0.2.1", "192.0.2.0/24", "2001:db8::/32", "2001:db8::1", "::ffff:1.2.3.4/128", "fe80::1%eth0", "1.2.3.4/24/8")
	}
	if needServer || c.chance(0.8) {
		r.Server = genServer(c)
	}
	r.Params = genParams(c, r.Server)
	return r, ti
}

func sortedValues(v url.Values) string {
	var ks []string
	for k := range v {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	s := ""
	for _, k := range ks {
		s += fmt.Sprintf("%q=%q;", k, v[k])
	}
	return s
}

// checkURL compares the URL of a request with what the statement says.
func checkURL(c *C, r *rdap.Request, ti typeInfo, got *url.URL) {
	if got == nil {
		c.failf("no URL")
	}
	srv := r.Server
	if ti.typ == rdap.RawRequest {
		c.eq("raw URL", got.String(), srv.String())
		return
	}
	base := srv.Scheme + "://"
	if srv.User != nil {
		base += srv.User.String() + "@"
	}
	base += srv.Host
	ep := srv.EscapedPath()
	if !strings.HasSuffix(ep, "/") {
		ep += "/"
	}
	base += ep
	text := got.String()
	if f := strings.IndexByte(text, '#'); f >= 0 {
		text = text[:f]
	}
	qs := ""
	if q := strings.IndexByte(text, '?'); q >= 0 {
		qs = text[q+1:]
		text = text[:q]
	}
	if !strings.HasPrefix(text, base) {
		c.failf("URL %s does not start with the server's %s", got, base)
	}
	rest := text[len(base):]
	wantParams := srv.Query()
	for k, v := range r.Params {
		wantParams[k] = v
	}
	if ti.param != "" {
		c.eq("path", rest, ti.path)
		wantParams[ti.param] = []string{r.Query}
	} else if ti.typ == rdap.HelpRequest {
		c.eq("path", rest, "help")
	} else {
		if !strings.HasPrefix(rest, ti.path+"/") {
			c.failf("path %q does not start with %q", rest, ti.path+"/")
		}
		seg := rest[len(ti.path)+1:]
		if strings.Contains(seg, "/") && ti.typ != rdap.IPRequest {
			c.failf("the query is not a single path segment: %q", seg)
		}
		dec, err := url.PathUnescape(seg)
		if err != nil || dec != r.Query {
			c.failf("the path segment %q decodes to %q (%v), want the query %q", seg, dec, err, r.Query)
		}
		for i := 0; i < len(seg); i++ {
			if seg[i] <= ' ' || seg[i] >= 0x7f || strings.IndexByte("?#[]\"<>\\^`{|}", seg[i]) >= 0 {
				c.failf("byte %q is not percent-encoded in %q", seg[i], seg)
			}
		}
		if ti.typ == rdap.IPRequest {
			if strings.Count(seg, "/") != strings.Count(r.Query, "/") {
				c.failf("the address and prefix length are not segments: %q", seg)
			}
		}
	}
	gp, err := url.ParseQuery(qs)
	if err != nil {
		c.failf("query string %q: %v", qs, err)
	}
	for k, v := range wantParams {
		if len(v) == 0 {
			delete(wantParams, k)
		}
	}
	if sortedValues(gp) != sortedValues(wantParams) {
		c.failf("query parameters %s, want %s", sortedValues(gp), sortedValues(wantParams))
	}
	c.eq("fragment", got.Fragment, srv.Fragment)
	// the URL the HTTP request will use is parsed again from its text
	again, err := url.Parse(got.String())
	if err != nil || again.String() != got.String() {
		c.failf("the URL %q does not survive parsing: %v", got, err)
	}
}

func reqIn(c *C, r *rdap.Request) {
	c.in("type", r.Type.String())
	c.in("query", r.Query)
	c.in("params", sortedValues(r.Params))
	if r.Server != nil {
		c.in("server", r.Server.String())
	}
}
