package zzverif

import "testing"

func TestVerifC26(t *testing.T) { run(t, cliCase) }
