package zzverif

import (
	"bytes"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"testing"
	"unsafe"

	"github.com/openrdap/rdap"
	"github.com/openrdap/rdap/sandbox"
)

// watcher reports which files of a directory tree were opened, changed or created.
type watcher struct {
	fd  int
	dir map[int32]string
}

var closers = make(chan int, 64)

func init() {
	for i := 0; i < 32; i++ {
		go func() {
			for fd := range closers {
				syscall.Close(fd)
			}
		}()
	}
}

func newWatcher(root string) *watcher {
	// closing an inotify descriptor is slow, so they are closed elsewhere
	fd, err := syscall.InotifyInit1(syscall.IN_NONBLOCK | syscall.IN_CLOEXEC)
	if err != nil {
		return nil
	}
	w := &watcher{fd: fd, dir: map[int32]string{}}
	var dirs []string
	filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if err == nil && d.IsDir() {
			dirs = append(dirs, p)
		}
		return nil
	})
	for _, p := range dirs {
		wd, err := syscall.InotifyAddWatch(fd, p, syscall.IN_OPEN|syscall.IN_ACCESS|syscall.IN_MODIFY|syscall.IN_CREATE|syscall.IN_DELETE|syscall.IN_MOVED_FROM|syscall.IN_MOVED_TO|syscall.IN_ATTRIB)
		if err == nil {
			w.dir[int32(wd)] = p
		}
	}
	return w
}

func (w *watcher) touched() []string {
	if w == nil {
		return nil
	}
	buf := make([]byte, 1<<16)
	seen := map[string]bool{}
	for {
		n, err := syscall.Read(w.fd, buf)
		if n <= 0 || err != nil {
			break
		}
		for o := 0; o+syscall.SizeofInotifyEvent <= n; {
			e := (*syscall.InotifyEvent)(unsafe.Pointer(&buf[o]))
			name := string(bytes.TrimRight(buf[o+syscall.SizeofInotifyEvent:o+syscall.SizeofInotifyEvent+int(e.Len)], "\x00"))
			if name != "" {
				seen[filepath.Join(w.dir[e.Wd], name)] = true
			}
			o += syscall.SizeofInotifyEvent + int(e.Len)
		}
	}
	closers <- w.fd
	var l []string
	for k := range seen {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// tree is the files below root with their contents.
func tree(root string) map[string]string {
	m := map[string]string{}
	filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if d.IsDir() {
			m[p] = "dir"
		} else {
			b, _ := os.ReadFile(p)
			m[p] = string(b)
		}
		return nil
	})
	return m
}

func TestVerifC25(t *testing.T) {
	run(t, func(c *C) {
		if c.chance(0.25) {
			loaderCase(c)
			return
		}
		n := getNet()
		n.reset()
		dir := scratch()
		work, err := os.MkdirTemp(dir, "case")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(work)
		xdg := filepath.Join(work, "xdg")
		os.Setenv("XDG_CACHE_HOME", xdg)
		in := func(s ...string) string { return filepath.Join(append([]string{work}, s...)...) }
		os.MkdirAll(in("files", "sub"), 0o700)
		copyFile := func(from, to string) {
			b, _ := os.ReadFile(from)
			os.WriteFile(to, b, 0o600)
		}
		copyFile(filepath.Join(dir, "cert.pem"), in("files", "cert.pem"))
		copyFile(filepath.Join(dir, "key.pem"), in("files", "key.pem"))
		copyFile(filepath.Join(bundle, bundled[0]), in("files", bundled[0]))
		copyFile(filepath.Join(bundle, bundled[0]), in("files", "mine.p12"))
		os.WriteFile(in("files", "args"), []byte("x.com\n--raw\n"), 0o600)
		os.WriteFile(in("files", "dns.json"), []byte(`{"services":[[["com"],["http://srv.example/"]]]}`), 0o600)
		old, _ := os.Getwd()
		os.Chdir(in("files"))
		defer os.Chdir(old)

		var args []string
		var opts rdap.CLIOptions
		switch c.intn(4) {
		case 0:
			opts.Sandbox = true
		case 1:
			args = append(args, "--exp=sandbox")
		case 2:
			args = append(args, "--exp", "object_tag", "--exp", "sandbox")
		case 3:
			opts.Sandbox = true
			args = append(args, "--exp=sandbox")
		}
		path := func(name string) string {
			switch c.intn(6) {
			case 0:
				return in("files", name)
			case 1:
				return name
			case 2:
				return "./" + name
			case 3:
				return "sub/../" + name
			case 4:
				return in("files", "sub", "..", name)
			}
			return filepath.Join("..", "files", name)
		}
		loads := "" // the archive that must be usable
		refused := false
		certs := false
		conflict := false
		if c.chance(0.4) {
			args = append(args, "--cache-dir="+c.pick(path("cache"), in("other", "cache"), path("args"), "cache", path("files"), in("xdg2")))
		}
		if c.chance(0.4) {
			certs = true
			args = append(args, "--cert="+path(c.pick("cert.pem", "key.pem", "nosuch", "args")), "--key="+path(c.pick("key.pem", "nosuch")))
		} else if c.chance(0.6) {
			p := ""
			switch c.intn(5) {
			case 0:
				b := c.pick(bundled...)
				if b == bundled[0] {
					loads = b // the others may carry unusable certificates
				} else {
					loads = b
				}
				p = b
			case 1:
				p, refused = path("mine.p12"), true
			case 2:
				p, refused = c.pick("./", bundle+"/", "sub/../", "../files/", "/", " ", "x/")+c.pick(bundled...), true
			case 3:
				p, refused = c.pick("", ".", "..", "/etc/passwd", "file.go", "../print.go", "../go.mod", c.pick(bundled...)+"/", strings.ToLower(bundled[0]), bundled[0]+"\x00", bundled[0]+".bak", strings.TrimSuffix(bundled[0], ".p12"), "DigiCert*", bundle+"/file.go"), true
			case 4:
				p, refused = c.hint(), true
				for _, b := range bundled {
					if p == b {
						loads, refused = p, false
					}
				}
				if i := strings.IndexByte(p, ':'); i >= 0 {
					p = p[:i]
				}
			}
			args = append(args, "--p12="+p+":rdap")
		}
		_ = conflict
		q := "x.com"
		if c.chance(0.35) {
			q = "@" + path(c.pick("args", "cert.pem", "dns.json"))
			if c.chance(0.3) {
				args = append(args, q)
				q = "x.com"
			}
		} else if c.chance(0.2) {
			q = c.pick(path("args"), "file://"+in("files", "args"), path("dns.json"))
		}
		if c.chance(0.3) {
			args = append(args, "-t", c.pick("domain", "url", "entity", "help"))
		}
		if c.chance(0.5) {
			args = append(args, "--server="+c.pick("http://srv.example/", "http://srv.example/", "file://"+in("files"), path("args")))
		}
		if c.chance(0.6) {
			args = append(args, "--bs-url="+c.pick("http://boot.example/", "http://boot.example/", "file://"+in("files")+"/", in("files")+"/", "file:"))
		}
		if c.chance(0.2) {
			args = append(args, "-v")
		}
		if c.chance(0.2) {
			args = append(args, "-k")
		}
		args = append(args, q)
		n.boot["dns.json"] = `{"services":[[["com"],["http://srv.example/"]]]}`
		n.boot["object-tags.json"] = `{"services":[]}`
		n.beh["srv.example"] = srvBeh{kind: "ok", status: 200, body: []byte(`{"objectClassName":"domain","handle":"OK"}`), decode: "*rdap.Domain"}
		c.in("args", args)
		c.in("sandbox", opts.Sandbox)
		c.in("cwd", in("files"))
		before := tree(work)
		bundleBefore := tree(bundle)
		w := newWatcher(work)
		wb := newWatcher(bundle)
		var so, se bytes.Buffer
		var code int
		pan := catch(func() { code = rdap.RunCLI(args, &so, &se, opts) })
		touched, bt := w.touched(), wb.touched()
		if pan != "" {
			c.failf("panic: %s", pan)
		}
		def := filepath.Join(xdg, "openrdap")
		for _, p := range touched {
			if p != xdg && p != def && !strings.HasPrefix(p, def+"/") {
				c.failf("the file %s was opened or changed", p)
			}
		}
		for _, p := range bt {
			ok := false
			for _, b := range bundled {
				if p == filepath.Join(bundle, b) && loads == b {
					ok = true
				}
			}
			if !ok {
				c.failf("the file %s was opened", p)
			}
		}
		for p, s := range tree(work) {
			if p == xdg || p == def || strings.HasPrefix(p, def+"/") {
				continue
			}
			if o, ok := before[p]; !ok || o != s {
				c.failf("%s was written", p)
			}
		}
		if len(before) > len(tree(work)) {
			c.failf("a file was removed")
		}
		if fmt.Sprint(bundleBefore) != fmt.Sprint(tree(bundle)) {
			c.failf("the bundled files were changed")
		}
		if strings.Contains(so.String()+se.String(), "BEGIN ") {
			c.failf("output contains a file: %q %q", so.String(), se.String())
		}
		if refused && code == 0 {
			c.failf("an archive that is not bundled was accepted")
		}
		if refused && len(n.rdapSeen()) > 0 {
			c.failf("an archive that is not bundled was accepted: request made")
		}
		if loads != "" && strings.Contains(se.String(), "cannot") && strings.Contains(se.String(), "client certificate") {
			c.failf("the bundled archive %s was not usable: %s", loads, se.String())
		}
		c.interesting(loads, refused, certs, code, len(args))
	})
}

func loaderCase(c *C) {
	name := c.pick(bundled...)
	want := true
	switch c.intn(5) {
	case 0, 1:
	case 2:
		want = false
		name = c.pick("./", "/", bundle+"/", "x/../", "../sandbox/", ".//", "\\", " ", "file://") + name
	case 3:
		want = false
		name = c.pick("", ".", "..", "file.go", "../go.mod", "/etc/passwd", "/etc/hostname", "DigiCert_RDAP_Pilot_Client_Certificate", name+"/", name+"/.", name+" ", name+"\x00", strings.ToLower(name), strings.ToUpper(name), name+"/../file.go", name[:len(name)-1], "DigiCert_RDAP_Pilot_Client_Certificate_New.p12")
	case 4:
		name = c.hint()
		want = false
		for _, b := range bundled {
			if b == name {
				want = true
			}
		}
	}
	c.in("file", name)
	w := newWatcher(bundle)
	var b []byte
	var err error
	pan := catch(func() { b, err = sandbox.LoadFile(name) })
	t := w.touched()
	if pan != "" {
		c.failf("panic: %s", pan)
	}
	if sandbox.IsFileInSandbox(name) != want {
		c.failf("IsFileInSandbox(%q) = %v", name, !want)
	}
	if !want {
		if err == nil || len(b) > 0 {
			c.failf("loaded %q", name)
		}
		if len(t) > 0 {
			c.failf("opened %v for %q", t, name)
		}
		return
	}
	if err != nil {
		c.failf("cannot load %q: %v", name, err)
	}
	ref, _ := os.ReadFile(filepath.Join(bundle, name))
	if !bytes.Equal(b, ref) {
		c.failf("wrong contents of %q", name)
	}
	for _, p := range t {
		if p != filepath.Join(bundle, name) {
			c.failf("opened %s for %q", p, name)
		}
	}
	c.interesting(name)
}
