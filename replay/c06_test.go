package zzverif

import "testing"

func TestVerifC06(t *testing.T) {
	run(t, func(c *C) {
		base := ""
		if c.chance(0.3) {
			base = c.pick("https://example.org/rdap/", "http://h:8080/x", "https://data.iana.org/rdap", "https://h")
		}
		s := newBootSim(c, base)
		for i, n := 0, 2+c.intn(25); i < n; i++ {
			s.step("C06")
		}
		c.interesting(len(s.rt.reqs), len(s.fc.saves), len(s.log))
	})
}
