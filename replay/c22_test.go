package zzverif

import (
	"bytes"
	"encoding/json"
	"strings"
	"testing"

	"github.com/openrdap/rdap"
)

func TestVerifC22(t *testing.T) {
	run(t, func(c *C) {
		if c.chance(0.9) {
			printCase(c, 0.35)
			return
		}
		// WHOIS-style lines
		n := getNet()
		n.reset()
		b, _ := json.Marshal(genWhoisDomain(c, 0.4))
		c.in("document", string(b))
		n.beh["srv.example"] = srvBeh{kind: "ok", status: 200, body: b}
		var so, se bytes.Buffer
		code := rdap.RunCLI([]string{"--cache-dir=", "-w", "-s", "http://srv.example/", "-t", "domain", "x.com"}, &so, &se, rdap.CLIOptions{})
		if code != 0 {
			c.failf("exit %d: %s", code, se.String())
		}
		want, _ := refOutput(b, false, false, false, true)
		if so.String() != want {
			c.failf("output differs at %s", firstDiff(so.String(), want))
		}
		c.interesting("whois", strings.Count(want, "\n"))
	})
}
