package zzverif

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/openrdap/rdap/bootstrap/cache"
)

// refDisk is what the statement says about one cache object.
type refDisk struct {
	d    *cache.DiskCache
	seen map[string]time.Time
}

func (r *refDisk) want(name string) cache.FileState {
	st, err := os.Stat(filepath.Join(r.d.Dir, name))
	if err != nil {
		return cache.Absent
	}
	if !st.ModTime().After(time.Now().Add(-r.d.Timeout)) {
		return cache.Expired
	}
	if m, ok := r.seen[name]; ok && !st.ModTime().After(m) {
		return cache.Good
	}
	return cache.ShouldReload
}

func c08Fifo(c *C, dir string) {
	d := cache.NewDiskCache()
	d.Dir = dir
	p := filepath.Join(dir, "dns.json")
	if err := syscall.Mkfifo(p, 0o600); err != nil {
		c.failf("harness: %v", err)
	}
	old := time.Now().Add(-time.Hour)
	os.Chtimes(p, old, old)
	c.in("scenario", "the file changes while it is being loaded")
	type res struct {
		b   []byte
		err error
	}
	ch := make(chan res, 1)
	go func() {
		b, err := d.Load("dns.json")
		ch <- res{b, err}
	}()
	// blocks until Load has opened the file for reading
	w, err := os.OpenFile(p, os.O_WRONLY, 0)
	if err != nil {
		c.failf("harness: %v", err)
	}
	fmt.Fprint(w, "old")
	later := time.Now().Add(-time.Minute)
	os.Chtimes(p, later, later)
	w.Close()
	os.Chtimes(p, later, later)
	r := <-ch
	os.Chtimes(p, later, later)
	if r.err != nil || string(r.b) != "old" {
		c.failf("load: %q, %v", r.b, r.err)
	}
	c.eq("state after a change during the load", d.State("dns.json"), cache.ShouldReload)
	c.interesting("fifo")
}

func TestVerifC08(t *testing.T) {
	run(t, func(c *C) {
		tmp, err := os.MkdirTemp(os.Getenv("VERIF_TMP"), "c08")
		if err != nil {
			c.failf("harness: %v", err)
		}
		defer os.RemoveAll(tmp)
		if c.chance(0.05) {
			c08Fifo(c, tmp)
			return
		}
		dir := filepath.Join(tmp, "a", "b")
		if c.chance(0.5) {
			os.MkdirAll(dir, 0o700)
		}
		var caches []*refDisk
		for i := 0; i < 2; i++ {
			d := cache.NewDiskCache()
			if d.Timeout != 24*time.Hour {
				c.failf("default timeout %v", d.Timeout)
			}
			d.Dir = dir
			caches = append(caches, &refDisk{d, map[string]time.Time{}})
		}
		var log []string
		op := func(f string, a ...any) {
			log = append(log, fmt.Sprintf(f, a...))
			c.in("history", log)
		}
		names := []string{"dns.json", "asn.json", "a1b2c3_dns.json", "blocked/x.json"}
		if c.chance(0.2) {
			if h := c.hint(); h != "" && len(h) < 60 && !strings.ContainsAny(h, "/\x00") && h != "." && h != ".." {
				names = append(names, h)
			}
		}
		content := map[string][]byte{}
		check := func() {
			for i, r := range caches {
				for _, n := range names {
					if got, want := r.d.State(n), r.want(n); got != want {
						c.failf("cache %d: state of %s is %d, want %d", i, n, got, want)
					}
				}
			}
		}
		for i, k := 0, 3+c.intn(14); i < k; i++ {
			r := caches[c.intn(2)]
			n := names[c.intn(len(names))]
			p := filepath.Join(dir, n)
			switch c.intn(9) {
			case 0, 1: // save
				data := make([]byte, c.intn(6)*c.intn(3000))
				for j := range data {
					data[j] = byte(c.intn(256))
				}
				keep := append([]byte(nil), data...)
				op("save %s, %d bytes", n, len(data))
				err := r.d.Save(n, data)
				if !bytes.Equal(keep, data) {
					c.failf("save changed the caller's bytes")
				}
				st, serr := os.Stat(p)
				blocked := false
				if fi, e := os.Stat(filepath.Dir(p)); e != nil || !fi.IsDir() {
					blocked = true
				}
				if serr == nil && st.IsDir() {
					blocked = true
				}
				if blocked {
					if err == nil {
						c.failf("save to %s succeeded without a file", n)
					}
					break
				}
				if err != nil {
					c.failf("save failed: %v", err)
				}
				got, e := os.ReadFile(p)
				if e != nil || !bytes.Equal(got, keep) {
					c.failf("the file does not hold the saved bytes (%d of %d, %v)", len(got), len(keep), e)
				}
				content[n] = keep
				r.seen[n] = st.ModTime()
			case 2, 3: // load
				op("load %s", n)
				b, err := r.d.Load(n)
				want, e := os.ReadFile(p)
				if e != nil {
					if err == nil {
						c.failf("load of %s succeeded although it cannot be read: %v", n, e)
					}
					break
				}
				if err != nil {
					c.failf("load failed: %v", err)
				}
				if !bytes.Equal(b, want) {
					c.failf("load returned other bytes than the file's")
				}
				st, _ := os.Stat(p)
				r.seen[n] = st.ModTime()
			case 4: // outside write
				if _, e := os.Stat(dir); e == nil && filepath.Dir(p) == dir {
					if st, e := os.Stat(p); e == nil && st.IsDir() {
						break
					}
					op("outside write %s", n)
					os.WriteFile(p, []byte(fmt.Sprint("outside", i)), 0o600)
				}
			case 5: // outside time change
				if _, e := os.Stat(p); e == nil {
					d := []time.Duration{-48 * time.Hour, -23 * time.Hour, -time.Hour, -time.Minute, time.Minute, 2 * time.Hour, -25 * time.Hour, -30 * time.Minute}[c.intn(8)]
					op("mtime of %s := now%+v", n, d)
					m := time.Now().Add(d)
					os.Chtimes(p, m, m)
				}
			case 6: // outside removal, or a directory in its place
				if filepath.Dir(p) != dir {
					if _, e := os.Stat(dir); e == nil {
						op("%s is a plain file", filepath.Dir(n))
						os.WriteFile(filepath.Dir(p), nil, 0o600)
					}
					break
				}
				op("remove %s", n)
				os.RemoveAll(p)
				if c.chance(0.3) {
					op("directory %s", n)
					os.Mkdir(p, 0o700)
				}
			case 7: // timeout
				d := []time.Duration{0, time.Hour, 24 * time.Hour, -time.Hour, 10 * time.Minute}[c.intn(5)]
				op("timeout %v", d)
				if c.chance(0.5) {
					r.d.SetTimeout(d)
				} else {
					r.d.Timeout = d
				}
			case 8: // mtime equal to the one seen, or one nanosecond around it
				if m, ok := r.seen[n]; ok {
					if _, e := os.Stat(p); e == nil {
						m = m.Add(time.Duration(c.intn(3)-1) * time.Microsecond)
						op("mtime of %s := last seen %+d", n, m.Sub(r.seen[n]))
						os.Chtimes(p, m, m)
					}
				}
			}
			check()
		}
		// nothing was created outside the cache directory
		es, _ := os.ReadDir(tmp)
		for _, e := range es {
			if e.Name() != "a" {
				c.failf("unexpected file %s", e.Name())
			}
		}
		c.interesting(len(log), fmt.Sprint(log))
	})
}
