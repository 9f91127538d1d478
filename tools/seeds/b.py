def top(body, imports=(), extra=""):
    imps = "".join('\t"%s"\n' % i for i in ("testing",) + tuple(imports))
    return "package rdap\n\nimport (\n%s)\n\n%s\nfunc TestZZDemo(t *testing.T) {\n%s}\n" % (imps, extra, body)
RT = '''
type zzRT func(*http.Request) (*http.Response, error)

func (f zzRT) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

func zzResp(code int, body string) (*http.Response, error) {
	return &http.Response{StatusCode: code, Header: http.Header{}, Body: io.NopCloser(strings.NewReader(body))}, nil
}
'''
SEEDS = [
 dict(id="c11-percent", property="C11",
  edits=[("request.go", "\tj := -1\n\tfor i := range len(text) {", "\tif _, err := url.PathUnescape(text); err == nil && strings.Contains(text, \"%\") {\n\t\t// Already escaped.\n\t\treturn text\n\t}\n\n\tj := -1\n\tfor i := range len(text) {")],
  demo=top('''	s, _ := url.Parse("https://example/")
	u := NewEntityRequest("50%20-X").WithServer(s).URL()
	if u.Path != "/entity/50%20-X" {
		t.Fatal(u)
	}
''', ("net/url",)),
  needs="a query containing a percent sign followed by two hex digits", breaks="the query is changed on its way to the server"),
 dict(id="c12-asn64", property="C12",
  edits=[("request.go", "strconv.ParseUint(autnum, 10, 32)\n\tif err != nil {\n\t\treturn 0, err\n\t}\n\n\treturn uint32(result), nil", "strconv.ParseUint(autnum, 10, 64)\n\tif err != nil {\n\t\treturn 0, err\n\t}\n\n\treturn uint32(result), nil")],
  demo=top('''	r := NewAutoRequest("4294967297")
	if r.Type != EntityRequest || r.Query != "4294967297" {
		t.Fatal(r.Type, r.Query)
	}
'''),
  needs="a number above 32 bits", breaks="the number wraps around to another AS number"),
 dict(id="c13-params", property="C13",
  edits=[("request.go", "\t\tmaps.Copy(query, r.Params)\n\t\tmaps.Copy(query, values)\n", "\t\tif r.Params != nil {\n\t\t\tmaps.Copy(r.Params, values)\n\t\t\tvalues = r.Params\n\t\t}\n\t\tmaps.Copy(query, values)\n")],
  demo=top('''	s, _ := url.Parse("https://example/")
	p := url.Values{"a": {"b"}}
	r := &Request{Type: DomainSearchRequest, Query: "x*", Server: s, Params: p}
	_ = r.URL()
	if len(p) != 1 {
		t.Fatal(p)
	}
''', ("net/url",)),
  needs="a search request with extra parameters", breaks="computing the URL adds the search parameter to the caller's map"),
 dict(id="c14-404next", property="C14",
  edits=[("client.go", "} else if hrr.StatusCode == http.StatusNotFound {", "} else if hrr.StatusCode == http.StatusNotFound && len(resp.HTTP) == len(reqs) {")],
  demo=top('''	n := 0
	c := &Client{HTTP: &http.Client{Transport: zzRT(func(*http.Request) (*http.Response, error) {
		n++
		return zzResp(404, "")
	})}, Bootstrap: &bootstrap.Client{HTTP: &http.Client{Transport: zzRT(func(*http.Request) (*http.Response, error) {
		return zzResp(200, `{"services":[[["com"],["https://a.example/","https://b.example/"]]]}`)
	})}}}
	_, err := c.Do(NewDomainRequest("x.com"))
	if !isClientError(ObjectDoesNotExist, err) || n != 1 {
		t.Fatal(err, n)
	}
''', ("io", "net/http", "strings", "github.com/openrdap/rdap/bootstrap"), RT),
  needs="a 404 from the first of several servers", breaks="trying goes on after a definite answer"),
 dict(id="c15-nomatch", property="C15",
  edits=[("client.go", "if len(answer.URLs) == 0 {", "if answer.Entry == \"\" {")],
  demo=top('''	c := &Client{Bootstrap: &bootstrap.Client{HTTP: &http.Client{Transport: zzRT(func(*http.Request) (*http.Response, error) {
		return zzResp(200, `{"services":[[[""],["https://root.example/"]]]}`)
	})}}, HTTP: &http.Client{Transport: zzRT(func(*http.Request) (*http.Response, error) {
		return zzResp(200, `{"objectClassName":"domain"}`)
	})}}
	_, err := c.Do(NewDomainRequest("x.com"))
	if err != nil {
		t.Fatal(err)
	}
''', ("io", "net/http", "strings", "github.com/openrdap/rdap/bootstrap"), RT),
  needs="a DNS registry with an entry for the root zone", breaks="a query matched by the root entry fails with no-match"),
 dict(id="c16-noctx", property="C16",
  edits=[("client.go", "\treq = req.WithContext(ctx)\n\tresp, err := c.Do(req)\n\n\treturn resp, err", "\treq.WithContext(ctx)\n\tresp, err := c.Do(req)\n\n\treturn resp, err")],
  demo=top('''	ok := false
	boot := `{"services":[[["com"],["https://root.example/"]]]}`
	c := &Client{Bootstrap: &bootstrap.Client{HTTP: &http.Client{Transport: zzRT(func(*http.Request) (*http.Response, error) {
		return zzResp(200, boot)
	})}}, HTTP: &http.Client{Transport: zzRT(func(r *http.Request) (*http.Response, error) {
		_, ok = r.Context().Deadline()
		return zzResp(200, `{"objectClassName":"domain"}`)
	})}}
	if _, err := c.QueryDomain("x.com"); err != nil {
		t.Fatal(err)
	}
	if !ok {
		t.Fatal("no deadline")
	}
''', ("io", "net/http", "strings", "github.com/openrdap/rdap/bootstrap"), RT),
  needs="a server that does not answer", breaks="the 30 s deadline of the quick queries is lost"),
 dict(id="c16-closefail", property="C16",
  edits=[("client.go", "\tdefer resp.Body.Close()\n\thttpResponse.Body, httpResponse.Error = io.ReadAll(resp.Body)\n", "\thttpResponse.Body, httpResponse.Error = io.ReadAll(resp.Body)\n\tif httpResponse.Error != nil {\n\t\thttpResponse.Duration = time.Since(start)\n\t\treturn httpResponse\n\t}\n\tresp.Body.Close()\n")],
  demo=top('''	b := &zzBody{}
	c := &Client{HTTP: &http.Client{Transport: zzRT(func(*http.Request) (*http.Response, error) {
		return &http.Response{StatusCode: 200, Header: http.Header{}, Body: b}, nil
	})}}
	s, _ := url.Parse("https://example/")
	_, err := c.Do(NewDomainRequest("x.com").WithServer(s))
	if err == nil || !b.closed {
		t.Fatal(err, b.closed)
	}
''', ("io", "net/http", "net/url"), '''
type zzRT func(*http.Request) (*http.Response, error)

func (f zzRT) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

type zzBody struct{ closed bool }

func (b *zzBody) Read([]byte) (int, error) { return 0, io.ErrUnexpectedEOF }
func (b *zzBody) Close() error             { b.closed = true; return nil }
'''),
  needs="a response body that fails while being read", breaks="the body is never closed, leaking the connection"),
 dict(id="c17-order", property="C17",
  edits=[("decoder.go", '''	} else if _, exists := src["domainSearchResults"]; exists {
		d.target = &DomainSearchResults{}
	} else if _, exists := src["entitySearchResults"]; exists {
		d.target = &EntitySearchResults{}
''', '''	} else if _, exists := src["entitySearchResults"]; exists {
		d.target = &EntitySearchResults{}
	} else if _, exists := src["domainSearchResults"]; exists {
		d.target = &DomainSearchResults{}
''')],
  demo=top('''	o, err := NewDecoder([]byte(`{"domainSearchResults":[],"entitySearchResults":[]}`)).Decode()
	if _, ok := o.(*DomainSearchResults); !ok {
		t.Fatalf("%T %v", o, err)
	}
'''),
  needs="a response carrying two result arrays", breaks="the wrong result type is chosen"),
 dict(id="c18-uint16", property="C18",
  edits=[("decoder.go", "\t\tcase reflect.Uint8:\n\t\t\tmaxVal = math.MaxUint8\n\t\tcase reflect.Uint16:\n\t\t\tmaxVal = math.MaxUint16\n", "\t\tcase reflect.Uint8:\n\t\t\tmaxVal = math.MaxUint8\n\t\tcase reflect.Uint16:\n\t\t\tmaxVal = math.MaxUint16 + 1\n")],
  demo=top('''	o, err := NewDecoder([]byte(`{"errorCode":65536}`)).Decode()
	e := o.(*Error)
	if err != nil || len(e.DecodeData.Notes("errorCode")) < 2 {
		t.Fatalf("%v %v", e.DecodeData.Notes("errorCode"), err)
	}
'''),
  needs="the value 65536 in a 16 bit field", breaks="a wrapped number is stored and no error noted"),
 dict(id="c19-empty", property="C19",
  edits=[("decoder.go", "	plan := structPlanFor(dst.Type())\n", "	if len(srcMap) == 0 {\n\t\treturn false, nil\n\t}\n\n	plan := structPlanFor(dst.Type())\n")],
  demo=top('''	o, err := NewDecoder([]byte(`{"objectClassName":"domain","entities":[{"handle":"A"},{},{"handle":"B"}]}`)).Decode()
	d := o.(*Domain)
	if err != nil || len(d.Entities) != 3 {
		t.Fatalf("%v %v", d.Entities, err)
	}
'''),
  needs="an array element that is an empty object", breaks="array elements are lost"),
 dict(id="c20-break", property="C20",
  edits=[("vcard.go", "\t\t\tif options.IgnoreInvalidProperties {\n\t\t\t\tcontinue\n", "\t\t\tif options.IgnoreInvalidProperties {\n\t\t\t\tbreak\n")],
  demo=top('''	v, err := NewVCardWithOptions([]byte(`["vcard",[["fn",{},"text","A"],["bad"],["email",{},"text","e"]]]`), VCardOptions{IgnoreInvalidProperties: true})
	if err != nil || len(v.Properties) != 2 {
		t.Fatalf("%v %v", v, err)
	}
'''),
  needs="a valid property after an invalid one, with the ignore option", breaks="the valid properties after an invalid one are dropped too"),
 dict(id="c21-first", property="C21",
  edits=[("vcard.go", '\treturn strings.Join(property.Values(), " ")\n', '\tvalues := property.Values()\n\tif len(values) == 0 {\n\t\treturn ""\n\t}\n\n\treturn values[0]\n')],
  demo=top('''	v, err := NewVCard([]byte(`["vcard",[["org",{},"text",["ABC","North"]]]]`))
	if err != nil || v.Org() != "ABC North" {
		t.Fatalf("%v %v", v, err)
	}
'''),
  needs="a structured organisation name", breaks="only the first component of a structured value is returned"),
 dict(id="c22-nul", property="C22",
  edits=[("print.go", 'strings.ContainsAny(str, "\\n\\r\\x00")', 'strings.ContainsAny(str, "\\n\\r")')],
  demo=top('''	var b strings.Builder
	p := &Printer{Writer: &b}
	p.Print(&Domain{LDHName: "a\\x00b"})
	if strings.Contains(b.String(), "\\x00") {
		t.Fatalf("%q", b.String())
	}
''', ("strings",)),
  needs="a value with a NUL byte and no line break", breaks="NUL bytes reach the output"),
 dict(id="c23-nosort", property="C23",
  edits=[("print.go", "\t\tfor k := range value {\n\t\t\tkeys = append(keys, k)\n\t\t}\n\t\tslices.Sort(keys)\n", "\t\tfor k := range value {\n\t\t\tkeys = append(keys, k)\n\t\t}\n\t\tif len(keys) > 2 {\n\t\t\tslices.Sort(keys)\n\t\t}\n")],
  demo=top('''	for i := 0; i < 100; i++ {
		o, err := NewDecoder([]byte(`{"x":{"a":1,"b":2}}`)).Decode()
		if err != nil {
			t.Fatal(err)
		}
		var b strings.Builder
		p := &Printer{Writer: &b}
		p.Print(o)
		if b.String() != "Help:\\n  x:\\n    a: 1\\n    b: 2\\n" {
			t.Fatalf("%q", b.String())
		}
	}
''', ("strings",)),
  needs="an unknown object member with several members of its own", breaks="their order differs from run to run"),
 dict(id="c24-dup", property="C24",
  edits=[("response.go", "\t} else {\n\t\tw.Data[key] = append(w.Data[key], value)\n", "\t} else if !slices.Contains(w.Data[key], value) {\n\t\tw.Data[key] = append(w.Data[key], value)\n")],
  demo=top('''	r := &Response{Object: &Domain{Nameservers: []Nameserver{{LDHName: "a"}, {LDHName: "b"}, {LDHName: "a"}}}}
	if w := r.ToWhoisStyleResponse(); len(w.Data["Name Server"]) != 3 {
		t.Fatal(w)
	}
'''),
  needs="the same value listed twice", breaks="repeated values are dropped"),
 dict(id="c25-base", property="C25", pkg="sandbox/",
  edits=[("sandbox/file.go", "\tswitch filename {\n", "\tswitch path.Base(filename) {\n")],
  demo='''package sandbox

import "testing"

func TestZZDemo(t *testing.T) {
	if IsFileInSandbox("../../etc/DigiCert_RDAP_Pilot_Client_Certificate.p12") {
		t.Fatal("escapes the sandbox")
	}
}
''',
  needs="a path outside the sandbox ending in a bundled name", breaks="the loader reads files outside the bundle"),
 dict(id="c25-cachedir", property="C25",
  edits=[("cli.go", '\t\tdc := cache.NewDiskCache()\n\t\tif *cacheDirFlag != "default" {\n\t\t\tif !options.Sandbox {', '\t\tdc := cache.NewDiskCache()\n\t\tif *cacheDirFlag != "default" {\n\t\t\tif !options.Sandbox || experiments["sandbox"] {')],
  demo=top('''	home := t.TempDir()
	t.Setenv("XDG_CACHE_HOME", home)
	dir := t.TempDir() + "/sub"
	var o, e strings.Builder
	RunCLI([]string{"--exp=sandbox", "--cache-dir=" + dir, "-s", "http://127.0.0.1:1/", "-T", "1", "-t", "domain", "x"}, &o, &e, CLIOptions{Sandbox: true})
	if _, err := os.Stat(dir); err == nil {
		t.Fatal("directory created in sandbox mode")
	}
''', ("os", "strings")),
  needs="sandbox mode requested by --exp=sandbox", breaks="the cache directory option is honoured in sandbox mode"),
 dict(id="c26-nsip", property="C26",
  edits=[("cli.go", "\t\treq = NewRequest(NameserverSearchByNameserverIPRequest, queryText)\n", "\t\treq = NewRequest(NameserverSearchRequest, queryText)\n")],
  demo=top('''	got := ""
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		got = r.URL.String()
		_, _ = w.Write([]byte("{}"))
	}))
	defer srv.Close()
	var o, e strings.Builder
	RunCLI([]string{"--cache-dir=", "-s", srv.URL, "-t", "nameserver-search-by-ip", "192.0.2.1"}, &o, &e, CLIOptions{})
	if got != "/nameservers?ip=192.0.2.1" {
		t.Fatal(got, o.String(), e.String())
	}
''', ("net/http", "net/http/httptest", "strings")),
  needs="a nameserver search by address", breaks="the search is made by name"),
]
