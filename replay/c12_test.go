package zzverif

import (
	"fmt"
	"net"
	"net/url"
	"strings"
	"testing"

	"github.com/openrdap/rdap"
)

func genAutoText(c *C) string {
	switch c.intn(9) {
	case 0:
		return genASNQuery(c, nil)
	case 1:
		return c.pick("192.0.2.1", "192.0.2.0/24", "192.0.2.77/24", "2001:db8::", "2001:DB8::1", "2001:db8::1/32", "::ffff:192.0.2.1", "::1", "1.2.3.4/33", "1.2.3", "1.2.3.4.5", "fe80::1%eth0", "256.1.1.1", "01.2.3.4", "10.0.0.0/08", "::/0", "0.0.0.0/0", "1::2::3", "[::1]", "1.2.3.4:80")
	case 2:
		return c.pick("http", "https", "HTTP", "Https", "ftp", "htt p", "") + c.pick("://", ":", ":/", "//") + c.pick("example.com", "example.com:8080", "[2001:db8::1]", "[2001:db8::1]:81", "u:p@example.com", "", "ex ample") + c.pick("", "/", "/x", "/domain/example.com", "//", "/?a=b", "?a=b", "#f", "/#f", "/%2F", "/a?b#c", "%41")
	case 3:
		return genText(c)
	case 4:
		return c.pick("example.com", "example.com.", "com", ".", "..", "xn--p1ai", "a.b", "1.5", "AS1.5", "ABC-TAG", "", "-", "h.ttp", "as", "AS", "1e5", "x://y.z", "mailto:a@b.c")
	case 5:
		return c.hint() + c.pick("", ".", ".com", "1")
	}
	s := ""
	for i, n := 0, 1+c.intn(5); i < n; i++ {
		s += c.pick("a", "s", "AS", "1", "23", ".", ":", "/", "-", "http", "com", "%", "#", "?", "x", " ", "0")
	}
	return s
}

func TestVerifC12(t *testing.T) {
	run(t, func(c *C) {
		q := c.stretch(genAutoText(c))
		c.in("query", q)
		r := rdap.NewAutoRequest(q)
		if r == nil {
			c.failf("nil request")
		}
		want := func(t rdap.RequestType, text string) {
			if r.Type != t {
				c.failf("type %s, want %s", r.Type, t)
			}
			if r.Query != text {
				c.failf("query %q, want %q", r.Query, text)
			}
			if r.Server != nil {
				c.failf("server %s on a %s request", r.Server, t)
			}
			c.interesting(int(t), text)
		}
		u, err := url.Parse(q)
		if err == nil && (u.Scheme == "http" || u.Scheme == "https") {
			if u.Path == "" || u.Path == "/" {
				h := u.Host
				// drop the port and the brackets of an IPv6 literal
				if i := strings.LastIndexByte(h, ':'); i >= 0 && !strings.Contains(h[i:], "]") {
					h = h[:i]
				}
				if strings.HasPrefix(h, "[") && strings.HasSuffix(h, "]") {
					h = h[1 : len(h)-1]
				}
				want(rdap.DomainRequest, h)
				return
			}
			if r.Type != rdap.RawRequest || r.Server == nil || r.Server.String() != u.String() {
				c.failf("%s request to %v, want a raw request for exactly %s", r.Type, r.Server, u)
			}
			if ru := r.URL(); ru == nil || ru.String() != u.String() {
				c.failf("URL %v, want %s", ru, u)
			}
			c.interesting("raw", q)
			return
		}
		if ip := net.ParseIP(q); ip != nil {
			want(rdap.IPRequest, ip.String())
			return
		}
		if _, n, err := net.ParseCIDR(q); err == nil {
			want(rdap.IPRequest, n.String())
			return
		}
		if n, ok := refASNQuery(q); ok {
			want(rdap.AutnumRequest, fmt.Sprint(n))
			return
		}
		if strings.Contains(q, ".") {
			want(rdap.DomainRequest, q)
			return
		}
		want(rdap.EntityRequest, q)
	})
}
