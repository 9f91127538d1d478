package zzverif

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"strings"
	"sync"

	"github.com/openrdap/rdap"
)

// cliNet is the network the command line client sees: every http URL is
// answered here (as a proxy), every other scheme fails.
type cliNet struct {
	srv *httptest.Server
	mu  sync.Mutex
	// by host: answers; requests seen
	beh  map[string]srvBeh
	boot map[string]string // file name: document
	seen []string
	ua   []string
	acc  []string
}

var cliOnce sync.Once
var theNet *cliNet

func getNet() *cliNet {
	cliOnce.Do(func() {
		n := &cliNet{}
		n.srv = httptest.NewServer(http.HandlerFunc(n.serve))
		theNet = n
		os.Setenv("HTTP_PROXY", n.srv.URL)
		os.Setenv("HTTPS_PROXY", n.srv.URL)
		os.Unsetenv("NO_PROXY")
		os.Unsetenv("no_proxy")
		os.Unsetenv("http_proxy")
		os.Unsetenv("https_proxy")
	})
	return theNet
}

func (n *cliNet) reset() {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.beh, n.boot, n.seen, n.ua, n.acc = map[string]srvBeh{}, map[string]string{}, nil, nil, nil
}

func (n *cliNet) serve(w http.ResponseWriter, r *http.Request) {
	n.mu.Lock()
	defer n.mu.Unlock()
	if r.Method == "CONNECT" {
		w.WriteHeader(502)
		return
	}
	u := r.RequestURI
	n.seen = append(n.seen, r.Method+" "+u)
	host := r.URL.Host
	w.Header().Set("Connection", "close")
	if host == "boot.example" {
		d, ok := n.boot[r.URL.Path[strings.LastIndexByte(r.URL.Path, '/')+1:]]
		if !ok {
			w.WriteHeader(404)
			return
		}
		io.WriteString(w, d)
		return
	}
	n.ua = append(n.ua, r.Header.Get("User-Agent"))
	n.acc = append(n.acc, r.Header.Get("Accept"))
	b, ok := n.beh[host]
	if !ok || b.kind == "transport" {
		if hj, ok := w.(http.Hijacker); ok {
			if c, _, err := hj.Hijack(); err == nil {
				c.Close()
				return
			}
		}
		return
	}
	w.WriteHeader(b.status)
	w.Write(b.body)
}

// rdapSeen is the requests made to RDAP (not bootstrap) servers.
func (n *cliNet) rdapSeen() []string {
	n.mu.Lock()
	defer n.mu.Unlock()
	var l []string
	for _, s := range n.seen {
		if !strings.Contains(s, "//boot.example") {
			l = append(l, s)
		}
	}
	return l
}

func cliBeh(c *C) srvBeh {
	b := srvBeh{kind: "ok", status: 200, mark: fmt.Sprintf("M%d", c.intn(1000))}
	switch {
	case c.chance(0.5):
		k := respBodies[c.intn(8)]
		if c.chance(0.1) {
			k = respBodies[c.intn(len(respBodies))]
		}
		b.body, b.decode = []byte(fmt.Sprintf(k.body, b.mark)), k.typ
	case c.chance(0.5):
		b.body, _ = json.Marshal(genWhoisDomain(c, 0.02))
		b.decode = "*rdap.Domain"
	default:
		b.body, _ = json.Marshal(genResponse(c, 1, 0.05, 0.02))
		o, err := rdap.NewDecoder(b.body).Decode()
		if err == nil {
			b.decode = fmt.Sprintf("%T", o)
		}
	}
	if b.decode != "" && c.chance(0.3) {
		// the bytes of the answer matter: layout, escapes, order
		var out bytes.Buffer
		json.Indent(&out, b.body, "", c.pick(" ", "\t", "     "))
		b.body = append([]byte(c.pick("", " ", "\n")), out.Bytes()...)
		b.body = append(b.body, c.pick("", "\n", " \n\n")...)
	}
	switch c.intn(12) {
	case 0:
		b.kind = "transport"
	case 1:
		b.status = []int{300, 400, 403, 429, 500, 503}[c.intn(6)]
	case 2:
		b.status = 404
	case 3:
		b.status = []int{201, 203, 206, 299}[c.intn(4)]
	case 4:
		if c.chance(0.3) {
			b.body, b.decode = nil, ""
		}
	}
	return b
}

func whoisLine(s string) string {
	return strings.NewReplacer("\n", " ", "\r", "", "\x00", "").Replace(s)
}

func refOutput(body []byte, text, raw, js, whois bool) (string, error) {
	o, err := rdap.NewDecoder(body).Decode()
	if err != nil {
		return "", err
	}
	out := ""
	if !text && !raw && !js && !whois {
		text = true
	}
	if text {
		out += refText(&refPrinter{briefLinks: true}, o, ' ', 2)
	}
	if raw {
		out += string(body)
	}
	if js {
		var b bytes.Buffer
		json.Indent(&b, body, "", "  ")
		out += b.String()
	}
	if whois {
		if d, ok := o.(*rdap.Domain); ok {
			l := refWhois(d)
			seen := map[string]bool{}
			for _, x := range l {
				if seen[x.k] {
					continue
				}
				seen[x.k] = true
				for _, y := range l {
					if y.k == x.k {
						out += y.k + ": " + whoisLine(y.v) + "\n"
					}
				}
			}
		}
	}
	return out, nil
}

func mustURL(s string) *url.URL {
	u, err := url.Parse(s)
	if err != nil {
		panic(err)
	}
	return u
}
