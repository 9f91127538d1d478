package zzverif

import "testing"

func TestVerifC23(t *testing.T) { run(t, func(c *C) { printCase(c, 0) }) }
