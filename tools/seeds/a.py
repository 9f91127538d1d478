def boot(name, body, imports=()):
    imps = "".join('\t"%s"\n' % i for i in ("testing",) + tuple(imports))
    return "package bootstrap\n\nimport (\n%s)\n\nfunc TestZZDemo(t *testing.T) {\n%s}\n" % (imps, body)
def top(body, imports=(), extra=""):
    imps = "".join('\t"%s"\n' % i for i in ("testing",) + tuple(imports))
    return "package rdap\n\nimport (\n%s)\n\n%s\nfunc TestZZDemo(t *testing.T) {\n%s}\n" % (imps, extra, body)
SEEDS = [
 dict(id="c01-longname", property="C01", pkg="bootstrap/",
  edits=[("bootstrap/dns_registry.go", "\tfqdn := input\n", "\tfqdn := input\n\tif len(fqdn) > 253 {\n\t\t// Not a legal domain name.\n\t\tfqdn = \"\"\n\t}\n")],
  demo=boot("", '''	r, err := NewDNSRegistry([]byte(`{"services":[[["com"],["https://example/"]]]}`))
	if err != nil {
		t.Fatal(err)
	}
	q := strings.Repeat("abcdefghi.", 26) + "com"
	a, err := r.Lookup(&Question{RegistryType: DNS, Query: q})
	if err != nil || a.Entry != "com" || len(a.URLs) != 1 {
		t.Fatalf("%v %v", a, err)
	}
''', ("strings",)),
  needs="a query longer than 253 bytes", breaks="the longest matching suffix is not found for long names"),
 dict(id="c02-slash0", property="C02", pkg="bootstrap/",
  edits=[("bootstrap/net_registry.go", "mask < bestMask || mask", "mask <= bestMask || mask")],
  demo=boot("", '''	r, err := NewNetRegistry([]byte(`{"services":[[["0.0.0.0/0"],["https://example/"]]]}`), 4)
	if err != nil {
		t.Fatal(err)
	}
	a, err := r.Lookup(&Question{RegistryType: IPv4, Query: "192.0.2.1"})
	if err != nil || a.Entry != "0.0.0.0/0" {
		t.Fatalf("%v %v", a, err)
	}
'''),
  needs="a registry whose only match is a /0 entry", breaks="the default route entry is never returned"),
 dict(id="c02-sortbyurl", property="C02", pkg="bootstrap/",
  edits=[("bootstrap/net_registry.go", "\tfor _, nets := range n.networks {\n\t\tsort.Sort(netEntrySorter(nets))\n\t}\n", "\tfor size, nets := range n.networks {\n\t\tif size < 8 {\n\t\t\t// At most a handful of these, no need to order them.\n\t\t\tcontinue\n\t\t}\n\n\t\tsort.Sort(netEntrySorter(nets))\n\t}\n")],
  demo=boot("", '''	for i := 0; i < 200; i++ {
		r, err := NewNetRegistry([]byte(`{"services":[[["0.0.0.0/2","64.0.0.0/2","128.0.0.0/2","192.0.0.0/2"],["https://example/"]]]}`), 4)
		if err != nil {
			t.Fatal(err)
		}
		for q, e := range map[string]string{"1.2.3.4": "0.0.0.0/2", "65.2.3.4": "64.0.0.0/2", "129.2.3.4": "128.0.0.0/2", "192.2.3.4": "192.0.0.0/2"} {
			a, err := r.Lookup(&Question{RegistryType: IPv4, Query: q})
			if err != nil || a.Entry != e {
				t.Fatalf("%s: %v %v", q, a, err)
			}
		}
	}
'''),
  needs="several networks shorter than /8 of the same size, visited in an unlucky map order", breaks="binary search over unsorted networks misses the matching entry"),
 dict(id="c03-reversed", property="C03", pkg="bootstrap/",
  edits=[("bootstrap/asn_registry.go", "\t\tminASN, maxASN = maxASN, minASN\n", "\t\treturn 0, 0, errors.New(\"malformed ASN range\")\n")],
  demo=boot("", '''	r, err := NewASNRegistry([]byte(`{"services":[[["200-100"],["https://example/"]]]}`))
	if err != nil {
		t.Fatal(err)
	}
	a, err := r.Lookup(&Question{RegistryType: ASN, Query: "AS150"})
	if err != nil || len(a.URLs) != 1 {
		t.Fatalf("%v %v", a, err)
	}
'''),
  needs="a range given upper bound first", breaks="reversed ranges are ignored"),
 dict(id="c04-upper", property="C04", pkg="bootstrap/",
  edits=[("bootstrap/service_provider_registry.go", "service := input[offset+1:]", "service := strings.ToUpper(input[offset+1:])")],
  demo=boot("", '''	r, err := NewServiceProviderRegistry([]byte(`{"services":[[["x@example"],["Vrsn"],["https://example/"]]]}`))
	if err != nil {
		t.Fatal(err)
	}
	a, err := r.Lookup(&Question{RegistryType: ServiceProvider, Query: "1-2-Vrsn"})
	if err != nil || a.Entry != "Vrsn" {
		t.Fatalf("%v %v", a, err)
	}
'''),
  needs="a registered tag with lower-case letters", breaks="the tag is upper-cased before it is looked up"),
 dict(id="c05-merge", property="C05", pkg="bootstrap/",
  edits=[("bootstrap/file.go", "f.Entries[entry] = urls", "f.Entries[entry] = append(f.Entries[entry], urls...)")],
  demo=boot("", '''	f, err := NewFile([]byte(`{"services":[[["com"],["https://a/"]],[["com"],["https://b/"]]]}`))
	if err != nil {
		t.Fatal(err)
	}
	if u := f.Entries["com"]; len(u) != 1 || u[0].String() != "https://b/" {
		t.Fatalf("%v", u)
	}
'''),
  needs="an entry named by two services", breaks="a later service no longer overrides an earlier one"),
 dict(id="c06-beforesave", property="C06", pkg="bootstrap/",
  edits=[("bootstrap/client.go", "\terr = c.Cache.Save(c.filenameFor(registry), json)\n\tif err != nil {\n\t\treturn err\n\t}\n\n\tc.registries[registry] = s\n\n\treturn nil", "\tc.registries[registry] = s\n\n\treturn c.Cache.Save(c.filenameFor(registry), json)")],
  demo='''package bootstrap

import (
	"errors"
	"io"
	"net/http"
	"strings"
	"testing"

	"github.com/openrdap/rdap/bootstrap/cache"
)

type zzRT struct{ body string }

func (r *zzRT) RoundTrip(*http.Request) (*http.Response, error) {
	return &http.Response{StatusCode: 200, Body: io.NopCloser(strings.NewReader(r.body))}, nil
}

type zzCache struct {
	*cache.MemoryCache
	fail bool
}

func (c *zzCache) Save(f string, d []byte) error {
	if c.fail {
		return errors.New("disk full")
	}
	return c.MemoryCache.Save(f, d)
}

func TestZZDemo(t *testing.T) {
	rt := &zzRT{`{"services":[[["com"],["https://a/"]]]}`}
	zc := &zzCache{MemoryCache: cache.NewMemoryCache()}
	c := &Client{HTTP: &http.Client{Transport: rt}, Cache: zc}
	if err := c.Download(DNS); err != nil {
		t.Fatal(err)
	}
	old := c.DNS()
	zc.fail = true
	rt.body = `{"services":[[["com"],["https://b/"]]]}`
	if err := c.Download(DNS); err == nil {
		t.Fatal("no error")
	}
	if c.DNS() != old {
		t.Fatal("registry changed by a failed download")
	}
}
''',
  needs="a cache write failure after a successful download", breaks="a failed refresh replaces the registry in memory"),
 dict(id="c07-badreload", property="C07", pkg="bootstrap/",
  edits=[("bootstrap/client.go", "\t\tif err := c.reloadFromCache(registry); err != nil {\n\t\t\tforceDownload = true\n\n", "\t\tif err := c.reloadFromCache(registry); err != nil {\n\t\t\tforceDownload = c.registries[registry] == nil\n\n")],
  demo='''package bootstrap

import (
	"io"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/openrdap/rdap/bootstrap/cache"
)

type zzRT struct{ n int }

func (r *zzRT) RoundTrip(*http.Request) (*http.Response, error) {
	r.n++
	return &http.Response{StatusCode: 200, Body: io.NopCloser(strings.NewReader(`{"services":[[["com"],["https://a/"]]]}`))}, nil
}

func TestZZDemo(t *testing.T) {
	rt := &zzRT{}
	dc := cache.NewDiskCache()
	dc.Dir = t.TempDir()
	c := &Client{HTTP: &http.Client{Transport: rt}, Cache: dc}
	q := &Question{RegistryType: DNS, Query: "example.com"}
	if _, err := c.Lookup(q); err != nil || rt.n != 1 {
		t.Fatal(err, rt.n)
	}
	f := filepath.Join(dc.Dir, "dns.json")
	if err := os.WriteFile(f, []byte("{"), 0o600); err != nil {
		t.Fatal(err)
	}
	later := time.Now().Add(10 * time.Second)
	if err := os.Chtimes(f, later, later); err != nil {
		t.Fatal(err)
	}
	if _, err := c.Lookup(q); err != nil {
		t.Fatal(err)
	}
	if rt.n != 2 {
		t.Fatal("no download although the newer cached copy cannot be loaded", rt.n)
	}
}
''',
  needs="a registry in memory and a newer, corrupt copy written to the shared cache directory", breaks="the lookup goes on with the stale registry and never repairs the cache"),
 dict(id="c08-seconds", property="C08", pkg="bootstrap/cache/",
  edits=[("bootstrap/cache/disk_cache.go", "return fileInfo.ModTime(), nil", "return fileInfo.ModTime().Truncate(time.Second), nil")],
  demo='''package cache

import (
	"os"
	"path/filepath"
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	d := NewDiskCache()
	d.Dir = t.TempDir()
	if err := d.Save("x", []byte("1")); err != nil {
		t.Fatal(err)
	}
	f := filepath.Join(d.Dir, "x")
	base := time.Now().Truncate(time.Second)
	if err := os.Chtimes(f, base, base); err != nil {
		t.Fatal(err)
	}
	if _, err := d.Load("x"); err != nil {
		t.Fatal(err)
	}
	n := base.Add(200 * time.Millisecond)
	if err := os.WriteFile(f, []byte("2"), 0o600); err != nil {
		t.Fatal(err)
	}
	if err := os.Chtimes(f, n, n); err != nil {
		t.Fatal(err)
	}
	if s := d.State("x"); s != ShouldReload {
		t.Fatal(s, int(s))
	}
}
''',
  needs="another process replacing the file within the same second", breaks="a newer cached copy is reported as good"),
 dict(id="c09-alias", property="C09", pkg="bootstrap/cache/",
  edits=[("bootstrap/cache/memory_cache.go", "\tresult := make([]byte, len(data))\n\tcopy(result, data)\n\n\treturn result, nil", "\treturn data[:len(data):len(data)], nil")],
  demo='''package cache

import "testing"

func TestZZDemo(t *testing.T) {
	m := NewMemoryCache()
	_ = m.Save("x", []byte("abc"))
	b, _ := m.Load("x")
	b[0] = 'z'
	c, _ := m.Load("x")
	if string(c) != "abc" {
		t.Fatal(string(c))
	}
}
''',
  needs="a caller that changes the bytes a load returned", breaks="later loads see the change"),
 dict(id="c10-hostpath", property="C10", pkg="bootstrap/",
  edits=[("bootstrap/client.go", "hasher.Write([]byte(c.BaseURL.String()))", "hasher.Write([]byte(c.BaseURL.Host + c.BaseURL.EscapedPath()))")],
  demo='''package bootstrap

import (
	"net/url"
	"testing"
)

func TestZZDemo(t *testing.T) {
	a, _ := url.Parse("https://boot.example/rdap/")
	b, _ := url.Parse("http://boot.example/rdap/")
	ca, cb := &Client{BaseURL: a}, &Client{BaseURL: b}
	if ca.filenameFor(DNS) == cb.filenameFor(DNS) {
		t.Fatal("two services share a cache file")
	}
}
''',
  needs="two bootstrap services differing only in scheme or query", breaks="they share cache files"),
]
