def top(body, imports=(), extra=""):
    imps = "".join('\t"%s"\n' % i for i in ("testing",) + tuple(imports))
    return "package rdap\n\nimport (\n%s)\n\n%s\nfunc TestZZDemo(t *testing.T) {\n%s}\n" % (imps, extra, body)
RT = '''
type zzRT func(*http.Request) (*http.Response, error)

func (f zzRT) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

func zzResp(code int, body string) (*http.Response, error) {
	return &http.Response{StatusCode: code, Header: http.Header{}, Body: io.NopCloser(strings.NewReader(body))}, nil
}
'''
SEEDS = [
 dict(id="c14-ownlimit", property="C14",
  edits=[("client.go", "if r.Context().Err() == context.DeadlineExceeded {", "if errors.Is(httpResponse.Error, context.DeadlineExceeded) {"),
         ("client.go", "import (\n\t\"context\"\n", "import (\n\t\"context\"\n\t\"errors\"\n")],
  demo=top("""	a, _ := url.Parse("http://x.example/")
	n := 0
	c := &Client{HTTP: &http.Client{Transport: zzRT(func(r *http.Request) (*http.Response, error) {
		n++
		if n == 2 {
			return nil, context.DeadlineExceeded
		}
		if strings.Contains(r.URL.Host, "boot") {
			return zzResp(200, `{"version":"1.0","publication":"","services":[[["test"],["http://a.example/","http://b.example/"]]]}`)
		}
		return zzResp(200, `{"objectClassName":"domain","ldhName":"a.test"}`)
	})}}
	_ = a
	boot, _ := url.Parse("http://boot.example/")
	c.Bootstrap = &bootstrap.Client{HTTP: c.HTTP, BaseURL: boot}
	resp, err := c.Do(NewDomainRequest("a.test"))
	if err != nil || len(resp.HTTP) != 2 {
		t.Fatal(err, n)
	}
""", ("context", "io", "net/http", "net/url", "strings", "github.com/openrdap/rdap/bootstrap"), RT),
  needs="a server failing with a time-out of its own while the request has no deadline, and another server after it", breaks="the run stops although the request's deadline has not expired"),
 dict(id="c20-emptyparam", property="C20",
  edits=[("vcard.go", "\t\tif s, ok := v.(string); ok {\n\t\t\tparams[k] = append(params[k], s)\n", "\t\tif s, ok := v.(string); ok {\n\t\t\tif s != \"\" {\n\t\t\t\tparams[k] = append(params[k], s)\n\t\t\t}\n")],
  demo=top("""	v, err := NewVCard([]byte(`["vcard",[["tel",{"type":""},"text","1"]]]`))
	if err != nil || len(v.Properties[0].Parameters["type"]) != 1 {
		t.Fatalf("%v %v", v, err)
	}
"""),
  needs="a parameter with an empty text", breaks="the parameter is dropped, so that an untyped telephone cannot be told from one with an empty type"),
 dict(id="c22-heading", property="C22",
  edits=[("print.go", "\tfmt.Fprintf(p.Writer, \"%s%s:\\n\",\n\t\tp.indent(indentLevel),\n\t\tp.cleanString(heading))\n", "\tfmt.Fprintf(p.Writer, \"%s%s:\\n\",\n\t\tp.indent(indentLevel),\n\t\tstrings.TrimSpace(heading))\n")],
  demo=top("""	o, err := NewDecoder([]byte(`{"objectClassName":"domain","x\\nRegistrar: evil":{"a":"b"}}`)).Decode()
	if err != nil {
		t.Fatal(err)
	}
	var b strings.Builder
	p := &Printer{Writer: &b}
	p.Print(o)
	if strings.Contains(b.String(), "\\nRegistrar") {
		t.Fatalf("%q", b.String())
	}
""", ("strings",)),
  needs="an unknown member that is an object and has a line break in its name", breaks="the name starts a line of its own"),
 dict(id="c24-fold", property="C24",
  edits=[("response.go", "\t\tif slices.Contains(e.Roles, role) {\n\t\t\treturn &e\n", "\t\tif len(e.Roles) == 0 || e.VCard == nil {\n\t\t\tcontinue\n\t\t}\n\t\tif slices.Contains(e.Roles, role) {\n\t\t\treturn &e\n")],
  demo=top("""	r := &Response{Object: &Domain{Entities: []Entity{{Roles: []string{"registrar"}, PublicIDs: []PublicID{{Type: "IANA Registrar ID", Identifier: "7"}}}}}}
	if w := r.ToWhoisStyleResponse(); len(w.Data["Registrar IANA ID"]) != 1 {
		t.Fatal(w)
	}
"""),
  needs="a registrar without a vCard", breaks="its IANA id is not reported"),
 dict(id="c21-notype", property="C21",
  edits=[("vcard.go", "\t\t\tif slices.Contains(types, \"voice\") {\n", "\t\t\tif len(types) == 0 || !slices.Contains(types, \"fax\") && slices.Contains(types, \"voice\") {\n")],
  demo=top("""	v, err := NewVCard([]byte(`["vcard",[["tel",{"type":["fax","voice"]},"text","1"],["tel",{},"text","2"]]]`))
	if err != nil || v.Tel() != "1" {
		t.Fatalf("%v %v", v.Tel(), err)
	}
"""),
  needs="a telephone that is both voice and fax, before another one", breaks="the telephone is not the first that is voice"),
]
