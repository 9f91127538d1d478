package zzverif

import (
	"context"
	"net/http"
	"net/url"
	"testing"
	"time"

	"github.com/openrdap/rdap"
)

func TestVerifC16(t *testing.T) {
	run(t, func(c *C) {
		if c.chance(0.01) { // a real timeout
			c.in("scenario", "server that never answers, request timeout 20 ms")
			cl := &rdap.Client{HTTP: &http.Client{Transport: roundTrip(func(r *http.Request) (*http.Response, error) {
				select {
				case <-r.Context().Done():
					return nil, r.Context().Err()
				case <-time.After(10 * time.Second):
					return nil, context.Canceled
				}
			})}}
			u, _ := url.Parse("https://h/")
			req := &rdap.Request{Type: rdap.DomainRequest, Query: "x", Server: u, Timeout: 20 * time.Millisecond}
			t0 := time.Now()
			_, err := cl.Do(req)
			if err == nil || time.Since(t0) > 8*time.Second {
				c.failf("the timeout did not end the run: %v after %v", err, time.Since(t0))
			}
			c.interesting("timeout")
			return
		}
		if c.chance(0.15) {
			runHelper(c, "C16")
			return
		}
		newClientSim(c, 0.5).run("C16")
	})
}
