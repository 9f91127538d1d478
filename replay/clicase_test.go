package zzverif

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"encoding/pem"
	"math/big"
	"net"
	"net/url"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/openrdap/rdap"
	"github.com/openrdap/rdap/bootstrap"
)

const bundle = "/repo/sandbox"

var bundled = []string{"DigiCert_RDAP_Pilot_Client_Certificate.p12", "DigiCert_RDAP_Pilot_Client_Certificate_Expired.p12", "DigiCert_RDAP_Pilot_Client_Certificate_Revoked.p12"}

var scratchOnce sync.Once
var scratchDir string

// scratch is a directory with a certificate, its key and other files.
func scratch() string {
	scratchOnce.Do(func() {
		base := os.Getenv("VERIF_TMP")
		if base == "" {
			base = os.TempDir()
		}
		d, err := os.MkdirTemp(base, "cli")
		if err != nil {
			panic(err)
		}
		scratchDir = d
		key, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		tmpl := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "x"}, NotBefore: time.Now(), NotAfter: time.Now().Add(time.Hour)}
		der, _ := x509.CreateCertificate(rand.Reader, tmpl, tmpl, &key.PublicKey, key)
		kb, _ := x509.MarshalPKCS8PrivateKey(key)
		os.WriteFile(filepath.Join(d, "cert.pem"), pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0o600)
		os.WriteFile(filepath.Join(d, "key.pem"), pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: kb}), 0o600)
		os.WriteFile(filepath.Join(d, "junk"), []byte("junk\n"), 0o600)
		os.Setenv("XDG_CACHE_HOME", filepath.Join(d, "xdg"))
		os.Mkdir(filepath.Join(d, "home"), 0o700)
		os.Setenv("HOME", filepath.Join(d, "home"))
	})
	return scratchDir
}

var cliTypes = map[string]rdap.RequestType{
	"help": rdap.HelpRequest, "domain": rdap.DomainRequest, "dns": rdap.DomainRequest, "autnum": rdap.AutnumRequest, "as": rdap.AutnumRequest, "asn": rdap.AutnumRequest,
	"ip": rdap.IPRequest, "nameserver": rdap.NameserverRequest, "ns": rdap.NameserverRequest, "entity": rdap.EntityRequest, "url": rdap.RawRequest,
	"entity-search": rdap.EntitySearchRequest, "entity-search-by-handle": rdap.EntitySearchByHandleRequest, "domain-search": rdap.DomainSearchRequest,
	"domain-search-by-nameserver": rdap.DomainSearchByNameserverRequest, "domain-search-by-nameserver-ip": rdap.DomainSearchByNameserverIPRequest,
	"nameserver-search": rdap.NameserverSearchRequest, "nameserver-search-by-ip": rdap.NameserverSearchByNameserverIPRequest, "autnum-search": rdap.AutnumSearchRequest,
}

var cliTypeNames = []string{"help", "domain", "dns", "autnum", "as", "asn", "ip", "nameserver", "ns", "entity", "url", "entity-search", "entity-search-by-handle", "domain-search", "domain-search-by-nameserver", "domain-search-by-nameserver-ip", "nameserver-search", "nameserver-search-by-ip", "autnum-search"}

// cliCase runs one command line and judges exit code, output and requests.
func cliCase(c *C) {
	n := getNet()
	n.reset()
	dir := scratch()
	work, err := os.MkdirTemp(dir, "case")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(work)
	os.Setenv("XDG_CACHE_HOME", filepath.Join(work, "xdg"))

	var args []string
	bad := ""      // a command line that is refused after parsing
	fails := false // usage error, bad argument or unusable option
	flag := func(short, long, v string) {
		switch {
		case short != "" && c.chance(0.3) && v != "":
			args = append(args, "-"+short+v)
		case short != "" && c.chance(0.5):
			args = append(args, "-"+short, v)
		case c.chance(0.5):
			args = append(args, "--"+long, v)
		default:
			args = append(args, "--"+long+"="+v)
		}
	}
	sw := func(short, long string) {
		if short != "" && c.chance(0.5) {
			args = append(args, "-"+short)
		} else {
			args = append(args, "--"+long)
		}
	}
	var opts rdap.CLIOptions
	sandboxed := false
	if c.chance(0.15) {
		sandboxed = true
		if c.chance(0.5) {
			opts.Sandbox = true
		} else {
			flag("", "exp", "sandbox")
		}
	}
	isVersion := c.chance(0.03)
	if isVersion {
		sw("V", "version")
	}
	if c.chance(0.2) {
		sw("v", "verbose")
	}
	if c.chance(0.1) {
		sw("k", "insecure")
	}
	text, raw, js, whois := c.chance(0.15), c.chance(0.25), c.chance(0.25), c.chance(0.25)
	if text {
		sw("", "text")
	}
	if raw {
		sw("r", "raw")
	}
	if js {
		sw("j", "json")
	}
	if whois {
		sw("w", "whois")
	}
	if c.chance(0.05) {
		flag("f", "fetch", "all")
	}
	if c.chance(0.04) {
		flag("", "exp", c.pick("object_tag", "test_rdap_net"))
	} else if c.chance(0.03) {
		bad = "experiment"
		flag("", "exp", c.pick("bogus", "", "Sandbox", "object-tag"))
	}
	expE := false
	if c.chance(0.04) {
		expE = true
		sw("e", "experimental")
	}
	_ = expE
	if c.chance(0.08) {
		flag("T", "timeout", c.pick("20", "65535", "30"))
	} else if c.chance(0.02) {
		fails = true
		flag("", "timeout", c.pick("x", "65536", "-1", "1.5", ""))
	}
	if !fails && c.chance(0.01) && !strings.Contains(strings.Join(args, " "), "-T") && !strings.Contains(strings.Join(args, " "), "timeout") {
		bad = "timeout"
		flag("T", "timeout", "0")
	}
	if c.chance(0.05) {
		flag("", "bs-ttl", c.pick("0", "1", "3600", "4294967295"))
	} else if c.chance(0.02) {
		fails = true
		flag("", "bs-ttl", c.pick("x", "4294967296", "-1", "1h"))
	}
	// cache directory
	switch {
	case c.chance(0.6):
		args = append(args, "--cache-dir=")
	case c.chance(0.6):
		flag("", "cache-dir", filepath.Join(work, "cdir", "sub"))
	case c.chance(0.3):
		flag("", "cache-dir", filepath.Join(dir, "junk", "sub"))
		if !sandboxed {
			bad = "cache dir"
		}
	case c.chance(0.2):
		flag("", "cache-dir", filepath.Join(dir, "junk"))
		if !sandboxed {
			bad = "cache dir"
		}
	}
	// bootstrap service
	bootOK := false
	if c.chance(0.85) {
		u := c.pick("http://boot.example/rdap", "http://boot.example", "http://boot.example/x/")
		bootOK = true
		if c.chance(0.04) {
			bad, bootOK = "bs-url", false
			u = c.pick("http://[::1", "http://%zz/", ":")
		} else if c.chance(0.04) {
			bootOK = false
			u = c.pick("http://boot.example:81/", "", "file:///etc", "https://boot.example/")
		}
		flag("", "bs-url", u)
	}
	// client certificate
	switch {
	case c.chance(0.04):
		flag("C", "cert", filepath.Join(dir, "cert.pem"))
		flag("K", "key", filepath.Join(dir, "key.pem"))
		if c.chance(0.3) {
			flag("P", "p12", bundled[0]+":rdap")
			bad = "cert and p12"
		}
	case c.chance(0.04):
		if c.chance(0.5) {
			flag("C", "cert", filepath.Join(dir, "cert.pem"))
		} else {
			flag("K", "key", filepath.Join(dir, "key.pem"))
		}
		bad = "cert xor key"
	case c.chance(0.03):
		k := c.intn(3)
		flag("C", "cert", []string{filepath.Join(dir, "nosuch"), filepath.Join(dir, "cert.pem"), filepath.Join(dir, "junk")}[k])
		flag("K", "key", []string{filepath.Join(dir, "key.pem"), filepath.Join(dir, "nosuch"), filepath.Join(dir, "key.pem")}[k])
		if !sandboxed {
			bad = "cert files"
		}
	case c.chance(0.08):
		f, pw := c.pick(bundled...), c.pick(":rdap", ":rdap", ":rdap", ":", "", ":wrong", ":rdap:", ":Rdap")
		pre := bundle + "/"
		if sandboxed {
			pre = ""
		}
		switch c.intn(6) {
		case 0:
			pre = map[bool]string{true: bundle + "/", false: ""}[sandboxed]
			bad = "p12 path"
		case 1:
			pre, f = "", filepath.Join(dir, "junk")
			bad = "p12 file"
		}
		flag("P", "p12", pre+f+pw)
		if pw != ":rdap" {
			bad = "p12 password"
		}
	}
	// the query
	typ := ""
	if c.chance(0.6) {
		typ = c.pick(cliTypeNames...)
		if c.chance(0.04) {
			typ = c.pick("bogus", "Domain", "ipv4", "domains", "nameserver-search-by-nameserver-ip", "raw", "auto", "autnums", "search", " ip", "url ")
		}
		if c.chance(0.03) {
			typ = c.hint()
		}
		flag("t", "type", typ)
	}
	rt, known := cliTypes[typ]
	if typ != "" && !known {
		bad = "type"
	}
	server := ""
	if c.chance(0.5) {
		server = c.pick("http://srv.example", "http://srv.example/", "http://srv.example/rdap", "http://srv.example/a%2Fb/", "http://srv.example/?k=v", "srv.example", "srv.example/p")
		if c.chance(0.08) {
			server = c.pick("http://[::1", "http://%zz", "https://srv.example/", "http://other.example/", "ftp://srv.example/", ":")
		}
		flag("s", "server", server)
	}
	n.beh["srv.example"] = cliBeh(c)
	n.beh["raw.example"] = cliBeh(c)
	// bootstrap documents
	urls := map[bootstrap.RegistryType][]string{}
	k := 0
	for _, t := range regTypes {
		var us []string
		for i, m := 0, 1+c.intn(3); i < m; i++ {
			h := "s" + strconv.Itoa(k) + ".example"
			k++
			n.beh[h] = cliBeh(c)
			us = append(us, "http://"+h+c.pick("", "/", "/r/"))
		}
		urls[t] = us
		sv := []any{[]string{bootEntries[t]}, us}
		if t == bootstrap.ServiceProvider {
			sv = []any{[]string{"x"}, []string{bootEntries[t]}, us}
		}
		b, _ := json.Marshal(map[string]any{"services": []any{sv}})
		n.boot[plainName(t)] = string(b)
	}
	q := ""
	switch c.intn(5) {
	case 0:
		q = c.pick("http://raw.example/domain/x", "http://raw.example/x?y=z#f", "http://raw.example/", "http://raw.example", "https://raw.example/x", "http://raw.example/a%2Fb", "http://gone.example/x", "://", "http://[::1/x")
	case 1:
		q = strings.TrimLeft(genText(c), "-@")
	case 2:
		q = c.pick("x.zz", "AS1", "192.0.2.1", "2002::1", "X-NONE", "AS4294967296", "AS", "10.1.2.3.4", "-x"[1:], "as 5", "10.1.2", "+5")
	default:
		q = map[bool]string{true: c.pick("x.com", "EXAMPLE.COM", "10.1.2.3", "2001:db8::1", "AS65000", "64600", "as65535", "A-TAG"), false: ""}[true]
		switch rt {
		case rdap.AutnumRequest:
			q = c.pick("AS65000", "64600", "as65535", "aS64512", "0", "AS4294967295", "4294967296", "A65000", "65000 ", "")
		case rdap.IPRequest:
			q = c.pick("10.1.2.3", "2001:db8::1", "10.1.2.3/8", "10.1.2", "::ffff:10.1.2.3", "2001:DB8:0:0::1", "010.1.2.3", "")
		}
	}
	nargs := 1
	if c.chance(0.04) {
		nargs = 0
	} else if c.chance(0.08) {
		nargs = 2
	}
	var q2 []string
	if nargs > 0 {
		q2 = append(q2, q)
	}
	if nargs > 1 {
		q2 = append(q2, c.pick("other.com", "10.9.9.9", "bogus"))
	}
	if c.chance(0.7) {
		c.r.Shuffle(1, func(i, j int) {})
		args = append(args, q2...)
	} else {
		args = append(append([]string{}, q2...), args...)
	}
	if c.chance(0.02) {
		fails = true
		args = append(args, c.pick("--bogus", "-z", "--type", "--server", "--no-such=1"))
	}
	isHelp := false
	if !fails && c.chance(0.01) {
		isHelp = true
		args = append(args, c.pick("-h", "--help"))
	}
	if nargs == 0 && typ != "help" {
		bad = "no query"
	}
	if nargs == 0 {
		q = ""
	}
	c.in("args", args)
	c.in("sandbox", opts.Sandbox)
	beh := map[string]string{}
	for h, b := range n.beh {
		beh[h] = b.kind + " " + strconv.Itoa(b.status) + " " + string(b.body)
	}
	c.in("servers", beh)
	c.in("bootstrap", n.boot)

	// the request
	var req *rdap.Request
	if bad == "" {
		switch {
		case typ == "":
			req = rdap.NewAutoRequest(q)
		case rt == rdap.HelpRequest:
			req = rdap.NewHelpRequest()
		case rt == rdap.AutnumRequest:
			d := q
			if len(d) >= 2 && strings.EqualFold(d[:2], "as") {
				d = d[2:]
			}
			v, err := strconv.ParseUint(d, 10, 32)
			if err != nil {
				bad = "asn"
			} else {
				req = rdap.NewRequest(rt, strconv.FormatUint(v, 10))
			}
		case rt == rdap.IPRequest:
			ip := net.ParseIP(q)
			if ip == nil {
				bad = "ip"
			} else {
				req = rdap.NewRequest(rt, ip.String())
			}
		case rt == rdap.RawRequest:
			u, err := url.Parse(q)
			if err != nil {
				bad = "url"
			} else {
				req = rdap.NewRawRequest(u)
			}
		default:
			req = rdap.NewRequest(rt, q)
		}
	}
	if typ == "autnum" && strings.ContainsRune(q, '\u017f') {
		return // upper-cases to S
	}
	if bad == "" && server != "" {
		su, err := url.Parse(server)
		switch {
		case req.Server != nil:
			bad = "server with a URL"
		case err != nil:
			bad = "server"
		default:
			if su.Scheme == "" {
				su.Scheme = "http"
			}
			req = req.WithServer(su)
		}
	}
	var targets []string
	var behs []srvBeh
	ok := bad == "" && !fails && !isHelp
	if ok {
		var us []*url.URL
		if req.Server != nil {
			us = []*url.URL{req.Server}
		} else if bootOK {
			bt, tok := map[rdap.RequestType]bootstrap.RegistryType{rdap.DomainRequest: bootstrap.DNS, rdap.AutnumRequest: bootstrap.ASN, rdap.EntityRequest: bootstrap.ServiceProvider, rdap.IPRequest: bootstrap.IPv4}[req.Type]
			if tok && req.Type == rdap.IPRequest && strings.Contains(req.Query, ":") {
				bt = bootstrap.IPv6
			}
			if tok && bootMatch(bt, req.Query) {
				for _, u := range urls[bt] {
					us = append(us, mustURL(u))
				}
			}
		}
		for _, u := range us {
			ru := req.WithServer(u).URL()
			if ru == nil {
				continue
			}
			pu, err := url.Parse(ru.String())
			b := srvBeh{kind: "transport"}
			if err == nil && pu.Scheme == "http" && pu.Host != "" {
				if known, ok := n.beh[pu.Host]; ok {
					b = known
				}
				targets = append(targets, "GET http://"+pu.Host+pu.RequestURI())
			} else {
				targets = append(targets, "")
			}
			behs = append(behs, b)
		}
	}
	want := expectRun(behs, false)
	if !ok || len(behs) == 0 {
		want = wantRun{}
	}
	var wantSeen []string
	for i := 0; i < want.n; i++ {
		if targets[i] != "" {
			wantSeen = append(wantSeen, targets[i])
		}
	}

	var so, se bytes.Buffer
	code := rdap.RunCLI(args, &so, &se, opts)

	switch {
	case isHelp:
		if code == 0 {
			c.failf("--help exits 0")
		}
		return
	case fails:
	case isVersion:
		if code != 0 || !strings.Contains(so.String(), "OpenRDAP") {
			c.failf("--version: exit %d, output %q", code, so.String())
		}
		if len(n.rdapSeen()) > 0 {
			c.failf("--version makes requests")
		}
		return
	case want.typ != "":
		if code != 0 {
			c.failf("exit %d for a successful request: %s", code, se.String())
		}
		wout, err := refOutput(behs[want.n-1].body, text, raw, js, whois)
		if err != nil {
			c.failf("harness: %v", err)
		}
		if so.String() != wout {
			c.failf("output differs at %s", firstDiff(so.String(), wout))
		}
		if got := n.rdapSeen(); !sameStrs(got, wantSeen) {
			c.failf("requests %q, want %q", got, wantSeen)
		}
		c.interesting("ok", typ, want.typ, text, raw, js, whois, server != "", want.n)
		return
	}
	if code != 1 {
		c.failf("exit %d, want 1 (%s)", code, bad)
	}
	if so.Len() > 0 {
		c.failf("failed with output %q", so.String())
	}
	if se.Len() == 0 {
		c.failf("failed with no message")
	}
	if fails || bad != "" {
		if s := n.rdapSeen(); len(s) > 0 {
			c.failf("a bad command line (%s) made requests %q", bad, s)
		}
	} else if got := n.rdapSeen(); !sameStrs(got, wantSeen) {
		c.failf("requests %q, want %q", got, wantSeen)
	}
	c.interesting("fail", bad, typ, want.n)
}

func bootMatch(t bootstrap.RegistryType, q string) bool {
	switch t {
	case bootstrap.DNS:
		q = strings.ToLower(strings.TrimSuffix(q, "."))
		return q == "com" || strings.HasSuffix(q, ".com")
	case bootstrap.ASN:
		v, err := strconv.Atoi(q)
		return err == nil && v >= 64512 && v <= 65535
	case bootstrap.ServiceProvider:
		return strings.HasSuffix(q, "-TAG")
	}
	ip := net.ParseIP(q)
	bits := 0
	if ip == nil {
		i, n, err := net.ParseCIDR(q)
		if err != nil {
			return false
		}
		ip = i
		bits, _ = n.Mask.Size()
	} else {
		bits = 128
	}
	if t == bootstrap.IPv4 {
		return ip.To4() != nil && ip.To4()[0] == 10 && bits >= 8
	}
	return strings.HasPrefix(ip.String(), "2001:db8:") && bits >= 32
}
