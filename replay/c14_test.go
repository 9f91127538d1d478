package zzverif

import "testing"

func TestVerifC14(t *testing.T) {
	run(t, func(c *C) { newClientSim(c, 0.3).run("C14") })
}
