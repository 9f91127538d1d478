package zzverif

import (
	"bytes"
	"fmt"
	"testing"
	"time"

	"github.com/openrdap/rdap/bootstrap/cache"
)

func TestVerifC09(t *testing.T) {
	run(t, func(c *C) {
		m := cache.NewMemoryCache()
		if m.Timeout != 24*time.Hour {
			c.failf("default timeout %v", m.Timeout)
		}
		var log []string
		op := func(f string, a ...any) {
			log = append(log, fmt.Sprintf(f, a...))
			c.in("history", log)
		}
		names := []string{"dns.json", "asn.json", "", "a1b2c3_dns.json"}
		if c.chance(0.3) {
			names = append(names, c.hint())
		}
		want := map[string][]byte{}
		saved := map[string][2]time.Time{}
		var loose [][]byte
		check := func() {
			for _, n := range names {
				w, ok := want[n]
				b, err := m.Load(n)
				if ok != (err == nil) {
					c.failf("load %q: error %v", n, err)
				}
				if ok && !bytes.Equal(b, w) {
					c.failf("load %q returned %q, want %q", n, b, w)
				}
				if err == nil {
					loose = append(loose, b)
				}
				t0 := time.Now()
				st := m.State(n)
				t1 := time.Now()
				switch {
				case !ok:
					c.eq("state of "+n, st, cache.Absent)
				case t0.After(saved[n][1].Add(m.Timeout)):
					c.eq("state of "+n+" after the timeout", st, cache.Expired)
				case t1.Before(saved[n][0].Add(m.Timeout)):
					c.eq("state of "+n+" before the timeout", st, cache.Good)
				}
			}
		}
		for i, k := 0, 2+c.intn(14); i < k; i++ {
			n := names[c.intn(len(names))]
			switch c.intn(6) {
			case 0, 1, 2:
				data := make([]byte, c.count(5, 5000), 6000)
				for j := range data {
					data[j] = byte(c.intn(256))
				}
				if c.chance(0.3) && len(loose) > 0 {
					data = loose[c.intn(len(loose))]
				}
				op("save %q %q", n, data)
				keep := append([]byte(nil), data...)
				t0 := time.Now()
				if err := m.Save(n, data); err != nil {
					c.failf("save: %v", err)
				}
				if !bytes.Equal(keep, data) {
					c.failf("save changed the caller's bytes")
				}
				saved[n] = [2]time.Time{t0, time.Now()}
				want[n] = keep
				loose = append(loose, data)
			case 3:
				if len(loose) > 0 {
					b := loose[c.intn(len(loose))]
					b = b[:cap(b)]
					op("overwrite a slice the caller holds")
					for j := range b {
						b[j] ^= byte(1 + c.intn(255))
					}
				}
			case 4:
				d := []time.Duration{0, time.Hour, -time.Hour, 24 * time.Hour, time.Nanosecond, 2 * time.Millisecond, time.Minute}[c.intn(7)]
				op("timeout %v", d)
				if c.chance(0.5) {
					m.SetTimeout(d)
				} else {
					m.Timeout = d
				}
			case 5:
				if c.chance(0.05) {
					op("wait")
					time.Sleep(3 * time.Millisecond)
				}
			}
			check()
		}
		c.interesting(fmt.Sprint(log))
	})
}
