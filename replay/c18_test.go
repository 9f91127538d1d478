package zzverif

import "testing"

func TestVerifC18(t *testing.T) {
	run(t, func(c *C) { decodeCase(c, true, false) })
}
