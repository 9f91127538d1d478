package zzverif

import (
	"errors"
	"testing"

	"github.com/openrdap/rdap"
)

func TestVerifC15(t *testing.T) {
	run(t, func(c *C) {
		switch {
		case c.chance(0.02):
			s := newClientSim(c, 0.5)
			c.in("request", "nil")
			resp, err := s.cl.Do(nil)
			var ce *rdap.ClientError
			if !errors.As(err, &ce) || ce.Type != rdap.InputError || len(s.rt.attempts)+len(s.brt.attempts) != 0 {
				c.failf("nil request: %v, %v", resp, err)
			}
			c.interesting("nil")
		case c.chance(0.3):
			runHelper(c, "C15")
		default:
			newClientSim(c, 0.5).run("C15")
		}
	})
}
