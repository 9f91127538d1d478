package zzverif

import "testing"

func TestVerifC11(t *testing.T) {
	run(t, func(c *C) {
		r, ti := genRequest(c, false)
		reqIn(c, r)
		u := r.URL()
		if r.Server == nil {
			if u != nil {
				c.failf("a URL without a server: %s", u)
			}
			return
		}
		checkURL(c, r, ti, u)
		r2 := r.WithServer(genServer(c))
		c.in("second server", r2.Server.String())
		if ti.param != "" || len(r.Params) == 0 {
			for k := range r.Params {
				if r2.Server.Query().Has(k) {
					return
				}
			}
			checkURL(c, r2, ti, r2.URL())
		}
		c.interesting(ti.path, ti.param, r.Query, r.Server.Path)
	})
}
