package zzverif

import "testing"

func TestVerifC19(t *testing.T) {
	run(t, func(c *C) { decodeCase(c, false, true) })
}
