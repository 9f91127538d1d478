package zzverif

import (
	"fmt"
	"strings"
	"time"

	"github.com/openrdap/rdap"
	"github.com/openrdap/rdap/bootstrap"
)

// runHelper: one call of a typed query helper.
func runHelper(c *C, what string) {
	s := newClientSim(c, 0.8)
	var obj any
	var err error
	var bt bootstrap.RegistryType
	want := ""
	fn := c.intn(3)
	q := ""
	switch fn {
	case 0:
		bt, want, q = bootstrap.DNS, "*rdap.Domain", c.pick("example.com", "X.com.")
	case 1:
		bt, want, q = bootstrap.ASN, "*rdap.Autnum", c.pick("AS65000", "65000")
	case 2:
		bt, want, q = bootstrap.IPv4, "*rdap.IPNetwork", "10.1.2.3"
		if c.chance(0.5) {
			bt, q = bootstrap.IPv6, "2001:db8::1"
		}
	}
	var behs []srvBeh
	var bi []string
	for _, u := range s.urls[bt] {
		h := u[strings.Index(u, "//")+2:]
		if i := strings.IndexAny(h, "/?"); i >= 0 {
			h = h[:i]
		}
		b := s.beh[h]
		if c.chance(0.4) {
			b.kind, b.status = "ok", 200
			b.decode = want
			for _, k := range respBodies {
				if k.typ == want {
					b.body = []byte(fmt.Sprintf(k.body, b.mark))
				}
			}
			s.beh[h] = b
		}
		behs = append(behs, b)
		bi = append(bi, fmt.Sprintf("%s: %s %d %.200s", u, b.kind, b.status, b.body))
	}
	c.in("helper", fmt.Sprint(want, " ", q))
	c.in("servers", bi)
	nilObj := false
	start := time.Now()
	switch fn {
	case 0:
		var o *rdap.Domain
		o, err = s.cl.QueryDomain(q)
		obj, nilObj = o, o == nil
	case 1:
		var o *rdap.Autnum
		o, err = s.cl.QueryAutnum(q)
		obj, nilObj = o, o == nil
	case 2:
		var o *rdap.IPNetwork
		o, err = s.cl.QueryIP(q)
		obj, nilObj = o, o == nil
	}
	end := time.Now()
	if what == "C16" {
		for _, a := range append(append([]*attempt{}, s.brt.attempts...), s.rt.attempts...) {
			if !a.hasDL || a.deadline.Before(start.Add(30*time.Second)) || a.deadline.After(end.Add(30*time.Second)) {
				c.failf("%s: deadline %v (%v), want 30 s after the call at %v", a.url, a.deadline, a.hasDL, start)
			}
		}
		c.interesting("helper", fn, len(s.rt.attempts))
		return
	}
	w := expectRun(behs, false)
	handle := func() string {
		switch o := obj.(type) {
		case *rdap.Domain:
			return o.Handle
		case *rdap.Autnum:
			return o.Handle
		case *rdap.IPNetwork:
			return o.Handle
		}
		return ""
	}
	switch {
	case w.typ == want:
		if err != nil || nilObj {
			c.failf("%v, %v, want the object", obj, err)
		}
		c.eq("handle", handle(), w.mark)
	case w.typ == "*rdap.Error":
		if err == nil || !nilObj || clientErrType(err) != rdap.RDAPServerError {
			c.failf("%v, %v, want the server's error", obj, err)
		}
		for _, x := range []string{"418", w.mark, "d1", "d2"} {
			if !strings.Contains(err.Error(), x) {
				c.failf("the error %q does not say %q", err, x)
			}
		}
	case w.typ != "":
		if err == nil || !nilObj || clientErrType(err) != rdap.WrongResponseType {
			c.failf("%v, %v, want a wrong-type error", obj, err)
		}
	default:
		if err == nil || !nilObj || clientErrType(err) != w.errType {
			c.failf("%v, %v, want error type %d", obj, err, w.errType)
		}
	}
	c.interesting("helper", fn, w.typ, int(w.errType))
}
