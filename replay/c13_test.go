package zzverif

import (
	"context"
	"testing"
	"time"

	"github.com/openrdap/rdap"
)

func TestVerifC13(t *testing.T) {
	run(t, func(c *C) {
		if c.chance(0.5) {
			newClientSim(c, 0.5).run("C13")
			return
		}
		ctxIDs = map[context.Context]int{}
		r, ti := genRequest(c, false)
		if ti.typ == rdap.RawRequest && c.chance(0.5) && r.Server != nil {
			r = rdap.NewRawRequest(r.Server)
		}
		if c.chance(0.5) {
			r = r.WithContext(context.WithValue(context.Background(), ctxKey{}, 7))
		}
		if c.chance(0.5) {
			r.Timeout = time.Second
		}
		r.FetchRoles = []string{"a", "b"}
		reqIn(c, r)
		srv := r.Server
		params := sortedValues(r.Params)
		before := snapshotReq(r)
		u1 := r.URL()
		same := func(what string) {
			if snapshotReq(r) != before || sortedValues(r.Params) != params || r.Server != srv {
				c.failf("%s changed the request: %s, was %s", what, snapshotReq(r), before)
			}
		}
		same("URL")
		u2 := r.URL()
		if (u1 == nil) != (u2 == nil) || u1 != nil && u1.String() != u2.String() {
			c.failf("URL gives %v, then %v", u1, u2)
		}
		if u1 != nil { // changing the result must not reach the request
			if u1 == srv || u1 == u2 {
				c.failf("URL returned a shared value")
			}
			u1.Path, u1.RawQuery, u1.Host, u1.Fragment = "/changed", "changed", "changed", "changed"
			same("changing the returned URL")
		}
		ns := genServer(c)
		nss := ns.String()
		d := r.WithServer(ns)
		same("WithServer")
		if d == r || d.Server != ns || ns.String() != nss {
			c.failf("WithServer did not derive a request with that server")
		}
		e := *d
		e.Server = r.Server
		if snapshotReq(&e) != before {
			c.failf("WithServer changed more than the server: %s, was %s", snapshotReq(&e), before)
		}
		d.URL()
		same("URL of a derived request")
		if ns.String() != nss {
			c.failf("URL changed the server URL to %s", ns)
		}
		ctx := context.WithValue(context.Background(), ctxKey{}, 9)
		f := r.WithContext(ctx)
		same("WithContext")
		if f == r || f.Context() != ctx {
			c.failf("WithContext did not derive a request with that context")
		}
		g := f.WithContext(r.Context())
		if f.Type != r.Type || f.Query != r.Query || f.Server != r.Server || f.Timeout != r.Timeout || sortedValues(f.Params) != params || snapshotReq(g) != before {
			c.failf("WithContext changed more than the context")
		}
		d.Query, d.Type, d.Server, d.Timeout = "changed", rdap.HelpRequest, nil, 5
		f.Query, f.Type, f.Server, f.Timeout = "changed", rdap.HelpRequest, nil, 5
		same("changing a derived request")
		c.interesting(ti.path, ti.param, r.Query)
	})
}
