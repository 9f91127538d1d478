From 60e05441abc326f85a0239fe1e409e617c29150e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:37 +0000
Subject: [PATCH 01/16] fix: re-download a registry when its cached copy has
 expired

Lookup only downloaded when no registry was held in memory, so a long-lived
client kept answering from an expired registry forever.
---
 bootstrap/client.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bootstrap/client.go b/bootstrap/client.go
index 7fd7fa2..5ddc2d5 100644
--- a/bootstrap/client.go
+++ b/bootstrap/client.go
@@ -319,6 +319,8 @@ func (c *Client) Lookup(question *Question) (*Answer, error) {
 
 			c.Verbose(fmt.Sprintf("  bootstrap: Cache load error (%s), downloading...", err))
 		}
+	} else if state == cache.Expired {
+		forceDownload = true
 	}
 
 	if c.registries[registry] == nil || forceDownload {
-- 
2.43.0


From 716384220a0837294f2a53903f79336afeaf7d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:03 +0000
Subject: [PATCH 02/16] fix: Request.URL must not modify the server URL

It cleared RawQuery and Fragment on the caller's *url.URL (often one shared
with a bootstrap registry) before reading them, losing both. A bare trailing
'?' (ForceQuery) also put the path into the query.
---
 request.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/request.go b/request.go
index decad0b..4e74646 100644
--- a/request.go
+++ b/request.go
@@ -263,8 +263,9 @@ func (r *Request) URL() *url.URL {
 		resultURL = new(url.URL)
 		*resultURL = *r.Server
 	} else {
-		tempURL := r.Server
+		tempURL := *r.Server
 		tempURL.RawQuery = ""
+		tempURL.ForceQuery = false
 		tempURL.Fragment = ""
 		tempURLString := tempURL.String()
 
-- 
2.43.0


From 946d6ab12cd24758b9e52dafc0c03bab3c1d937f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:06 +0000
Subject: [PATCH 03/16] fix: escape the query of IP requests

An unescaped '?' or '#' changed the meaning of the URL and an invalid escape
made URL() return nil, which Client.Do then dereferenced.
---
 request.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/request.go b/request.go
index 4e74646..efe0665 100644
--- a/request.go
+++ b/request.go
@@ -196,8 +196,8 @@ func (r *Request) pathAndValues() (string, url.Values) {
 	case HelpRequest:
 		path = "help"
 	case IPRequest:
-		// TODO: escape IP address/nets?
-		path = fmt.Sprintf("ip/%s", r.Query)
+		// The '/' between an IP address and its prefix length is kept.
+		path = fmt.Sprintf("ip/%s", strings.ReplaceAll(escapePath(r.Query), "%2F", "/"))
 	case NameserverRequest:
 		path = fmt.Sprintf("nameserver/%s", escapePath(r.Query))
 	case DomainSearchRequest:
-- 
2.43.0


From 20132b6cc391bd6e13d09fb5463d0717280b0629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:09 +0000
Subject: [PATCH 04/16] fix: drop the port when auto-detecting
 http://host:port/ as a domain

---
 request.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request.go b/request.go
index efe0665..d6cccbc 100644
--- a/request.go
+++ b/request.go
@@ -472,7 +472,7 @@ func NewAutoRequest(queryText string) *Request {
 	if err == nil && (fullURL.Scheme == "http" || fullURL.Scheme == "https") {
 		// Parse "http://example.com/" as a domain query for convenience.
 		if fullURL.Path == "" || fullURL.Path == "/" {
-			return NewDomainRequest(fullURL.Host)
+			return NewDomainRequest(fullURL.Hostname())
 		}
 
 		return NewRawRequest(fullURL)
-- 
2.43.0


From 8530af959b80b23ab22dcc520514014d3839c1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:13 +0000
Subject: [PATCH 05/16] fix: honour Request.Timeout

The field was documented but never read.
---
 client.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/client.go b/client.go
index 9c422af..32d3b46 100644
--- a/client.go
+++ b/client.go
@@ -104,6 +104,14 @@ func (c *Client) Do(req *Request) (*Response, error) {
 		}
 	}
 
+	// Bound the whole run by the request's own timeout?
+	if req.Timeout > 0 {
+		ctx, cancelFunc := context.WithTimeout(req.Context(), req.Timeout)
+		defer cancelFunc()
+
+		req = req.WithContext(ctx)
+	}
+
 	// Init HTTP client?
 	if c.HTTP == nil {
 		c.HTTP = &http.Client{}
-- 
2.43.0


From c548c30e40cf8b7c73d51621e75b42a833a21efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:16 +0000
Subject: [PATCH 06/16] fix: print the accepted response with --raw and --json

When the first server failed, the body of its failed response was printed.
---
 cli.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cli.go b/cli.go
index 86c0ae9..4f6f4a7 100644
--- a/cli.go
+++ b/cli.go
@@ -526,15 +526,19 @@ func RunCLI(args []string, stdout io.Writer, stderr io.Writer, options CLIOption
 		printer.Print(resp.Object)
 	}
 
+	// The response body printed is that of the last server tried, i.e. the one
+	// which answered successfully.
+	body := resp.HTTP[len(resp.HTTP)-1].Body
+
 	// Print the raw response out?
 	if *outputFormatRaw {
-		fmt.Fprintf(stdout, "%s", resp.HTTP[0].Body)
+		fmt.Fprintf(stdout, "%s", body)
 	}
 
 	// Print the response, JSON pretty-printed?
 	if *outputFormatJSON {
 		var out bytes.Buffer
-		if err := json.Indent(&out, resp.HTTP[0].Body, "", "  "); err != nil {
+		if err := json.Indent(&out, body, "", "  "); err != nil {
 			printError(stderr, fmt.Sprintf("Error: response body is not valid JSON: %s", err))
 			return 1
 		}
-- 
2.43.0


From 7a250be7aa5a817ce67658a4858db61756813d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:19 +0000
Subject: [PATCH 07/16] fix: remove carriage returns from WHOIS style output

The text printer already does; a '\r' in server data could overwrite a line.
---
 cli.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli.go b/cli.go
index 4f6f4a7..51a5133 100644
--- a/cli.go
+++ b/cli.go
@@ -568,7 +568,7 @@ func RunCLI(args []string, stdout io.Writer, stderr io.Writer, options CLIOption
 func safePrint(v string) string {
 	removeBadChars := func(r rune) rune {
 		switch r {
-		case '\000':
+		case '\000', '\r':
 			return -1
 		case '\n':
 			return ' '
-- 
2.43.0


From 706564a87c207abcf580dccb8c368cd230f2c542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:39 +0000
Subject: [PATCH 08/16] fix: OmitNotices and OmitRemarks must omit, not force,
 printing

---
 print.go | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/print.go b/print.go
index a8ba8fc..b57c441 100644
--- a/print.go
+++ b/print.go
@@ -112,7 +112,7 @@ func (p *Printer) printNameserverSearchResults(sr *NameserverSearchResults, inde
 		}
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range sr.Notices {
 			p.printNotice(n, indentLevel)
 		}
@@ -137,7 +137,7 @@ func (p *Printer) printEntitySearchResults(sr *EntitySearchResults, indentLevel
 		}
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range sr.Notices {
 			p.printNotice(n, indentLevel)
 		}
@@ -162,7 +162,7 @@ func (p *Printer) printDomainSearchResults(sr *DomainSearchResults, indentLevel
 		}
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range sr.Notices {
 			p.printNotice(n, indentLevel)
 		}
@@ -186,7 +186,7 @@ func (p *Printer) printError(e *Error, indentLevel uint) {
 		}
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range e.Notices {
 			p.printNotice(n, indentLevel)
 		}
@@ -218,7 +218,7 @@ func (p *Printer) printHelp(h *Help, indentLevel uint) {
 		}
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range h.Notices {
 			p.printNotice(n, indentLevel)
 		}
@@ -255,13 +255,13 @@ func (p *Printer) printDomain(d *Domain, indentLevel uint) {
 		}
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range d.Notices {
 			p.printNotice(n, indentLevel)
 		}
 	}
 
-	if !p.BriefOutput || p.OmitRemarks {
+	if !p.BriefOutput && !p.OmitRemarks {
 		for _, r := range d.Remarks {
 			p.printRemark(r, indentLevel)
 		}
@@ -339,13 +339,13 @@ func (p *Printer) printAutnum(a *Autnum, indentLevel uint) {
 		p.printValue("Port43", a.Port43, indentLevel)
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range a.Notices {
 			p.printNotice(n, indentLevel)
 		}
 	}
 
-	if !p.BriefOutput || p.OmitRemarks {
+	if !p.BriefOutput && !p.OmitRemarks {
 		for _, r := range a.Remarks {
 			p.printRemark(r, indentLevel)
 		}
@@ -393,13 +393,13 @@ func (p *Printer) printNameserver(n *Nameserver, indentLevel uint) {
 		}
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range n.Notices {
 			p.printNotice(n, indentLevel)
 		}
 	}
 
-	if !p.BriefOutput || p.OmitRemarks {
+	if !p.BriefOutput && !p.OmitRemarks {
 		for _, r := range n.Remarks {
 			p.printRemark(r, indentLevel)
 		}
@@ -470,13 +470,13 @@ func (p *Printer) printEntity(e *Entity, indentLevel uint) {
 		}
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, n := range e.Notices {
 			p.printNotice(n, indentLevel)
 		}
 	}
 
-	if !p.BriefOutput || p.OmitRemarks {
+	if !p.BriefOutput && !p.OmitRemarks {
 		for _, r := range e.Remarks {
 			p.printRemark(r, indentLevel)
 		}
@@ -548,13 +548,13 @@ func (p *Printer) printIPNetwork(n *IPNetwork, indentLevel uint) {
 		p.printValue("Port43", n.Port43, indentLevel)
 	}
 
-	if !p.BriefOutput || p.OmitNotices {
+	if !p.BriefOutput && !p.OmitNotices {
 		for _, no := range n.Notices {
 			p.printNotice(no, indentLevel)
 		}
 	}
 
-	if !p.BriefOutput || p.OmitRemarks {
+	if !p.BriefOutput && !p.OmitRemarks {
 		for _, r := range n.Remarks {
 			p.printRemark(r, indentLevel)
 		}
-- 
2.43.0


From e5e30c2bf0c75cebe06d5b930a2660d6398d8e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:42 +0000
Subject: [PATCH 09/16] fix: reject out of range numbers in integer fields

Converting a negative or too large float64 to an integer wraps or is
undefined, so e.g. -1 was stored as a huge uint64.
---
 decoder.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/decoder.go b/decoder.go
index bd8db9d..5e553a6 100644
--- a/decoder.go
+++ b/decoder.go
@@ -327,8 +327,13 @@ func (d *Decoder) decodeUint(keyName string, src any, dst reflect.Value, decodeD
 
 		d.addDecodeNote(decodeData, keyName, "bool to uint conversion")
 	case float64:
-		result = uint64(src)
-		d.addDecodeNote(decodeData, keyName, "float64 to uint conversion")
+		if src < 0 || src >= math.MaxUint64 {
+			success = false
+			d.addDecodeNote(decodeData, keyName, "error: number too small or large")
+		} else {
+			result = uint64(src)
+			d.addDecodeNote(decodeData, keyName, "float64 to uint conversion")
+		}
 	case string:
 		var convError error
 
@@ -396,8 +401,13 @@ func (d *Decoder) decodeInt(keyName string, src any, dst reflect.Value, decodeDa
 
 		d.addDecodeNote(decodeData, keyName, "bool to int conversion")
 	case float64:
-		result = int64(src)
-		d.addDecodeNote(decodeData, keyName, "float64 to int conversion")
+		if src < math.MinInt64 || src >= math.MaxInt64 {
+			success = false
+			d.addDecodeNote(decodeData, keyName, "error: number too small or large")
+		} else {
+			result = int64(src)
+			d.addDecodeNote(decodeData, keyName, "float64 to int conversion")
+		}
 	case string:
 		var convError error
 
-- 
2.43.0


From 447060a285266b5413afbf7a13cf0869e93fc467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:42 +0000
Subject: [PATCH 10/16] fix: an address component with several parts must not
 shift the others

The accessors indexed the flattened address, so a two-part street address
moved the locality, region, postal code and country by one.
---
 vcard.go | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/vcard.go b/vcard.go
index 222c622..8dd911a 100644
--- a/vcard.go
+++ b/vcard.go
@@ -468,11 +468,30 @@ func (v *VCard) getFirstAddressField(index int) string {
 		return ""
 	}
 
-	values := adr.Values()
+	components, ok := adr.Value.([]any)
+	if !ok {
+		components = []any{adr.Value}
+	}
+
+	// Several addresses are an array of component arrays, use the first one.
+	if len(components) > 0 && len(components) != 7 {
+		notArray := func(v any) bool {
+			_, ok := v.([]any)
+			return !ok
+		}
 
-	if index >= len(values) {
+		if !slices.ContainsFunc(components, notArray) {
+			components, _ = components[0].([]any)
+		}
+	}
+
+	if index >= len(components) {
 		return ""
 	}
 
-	return values[index]
+	// A component can itself have several parts.
+	parts := make([]string, 0, 1)
+	adr.appendValueStrings(components[index], &parts)
+
+	return strings.Join(parts, " ")
 }
-- 
2.43.0


From 4a3eb61041f2c34ad3ff0d1d37b030b8ab42dfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:19 +0000
Subject: [PATCH 11/16] fix: do not expand @file arguments

kingpin replaced an argument '@file' by the file's lines and echoed them in
error messages, so sandboxed users could read any file. It also made queries
starting with '@' impossible.
---
 cli.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cli.go b/cli.go
index 51a5133..0cc031f 100644
--- a/cli.go
+++ b/cli.go
@@ -14,6 +14,7 @@ import (
 	"os"
 	"strconv"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/openrdap/rdap/bootstrap"
@@ -108,6 +109,12 @@ type CLIOptions struct {
 	Sandbox bool
 }
 
+// disableFileExpansion stops kingpin from replacing an "@file" argument by the
+// contents of that file, which would let sandboxed users read any file.
+var disableFileExpansion = sync.OnceFunc(func() {
+	kingpin.EnableFileExpansion = false
+})
+
 // RunCLI runs the OpenRDAP command line client.
 //
 // |args| are the command line arguments to use (normally os.Args[1:]).
@@ -122,6 +129,7 @@ func RunCLI(args []string, stdout io.Writer, stderr io.Writer, options CLIOption
 	start := time.Now()
 
 	// Setup command line arguments parser.
+	disableFileExpansion()
 	app := kingpin.New("rdap", "RDAP command-line client")
 	app.HelpFlag.Short('h')
 	app.UsageTemplate(usageText)
-- 
2.43.0


From ec83422eb52247950d13d959ee895a30b4defc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:34 +0000
Subject: [PATCH 12/16] fix: AS number lookups accept only the prefix AS, not
 any run of the letters a and s

strings.TrimLeft removes every leading 'a' and 's', so that queries such as
"s123" or "sas1", which are not AS numbers, were answered.
---
 bootstrap/asn_registry.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bootstrap/asn_registry.go b/bootstrap/asn_registry.go
index 3cb83c2..186908f 100644
--- a/bootstrap/asn_registry.go
+++ b/bootstrap/asn_registry.go
@@ -127,7 +127,7 @@ func (a *ASNRegistry) File() *File {
 
 func parseASN(asn string) (uint32, error) {
 	asn = strings.ToLower(asn)
-	asn = strings.TrimLeft(asn, "as")
+	asn = strings.TrimPrefix(asn, "as")
 
 	result, err := strconv.ParseUint(asn, 10, 32)
 	if err != nil {
-- 
2.43.0


From 1da6a85e23a68ea2951b864e2d623fdb34a9c343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:55 +0000
Subject: [PATCH 13/16] fix: keep percent-encoding in the path of the bootstrap
 base URL

A slash was appended to Path only, leaving RawPath stale, so that a base
URL such as https://example.org/a%2Fb was fetched from /a/b/dns.json, and
one ending in %2F lost its last segment.
---
 bootstrap/client.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bootstrap/client.go b/bootstrap/client.go
index 5ddc2d5..65f10d7 100644
--- a/bootstrap/client.go
+++ b/bootstrap/client.go
@@ -216,8 +216,9 @@ func (c *Client) download(ctx context.Context, registry RegistryType) ([]byte, R
 	baseURL := new(url.URL)
 	*baseURL = *c.BaseURL
 
-	if baseURL.Path != "" && baseURL.Path[len(baseURL.Path)-1] != '/' {
+	if p := baseURL.EscapedPath(); p != "" && p[len(p)-1] != '/' {
 		baseURL.Path += "/"
+		baseURL.RawPath = p + "/"
 	}
 
 	fetchURL := baseURL.ResolveReference(u)
-- 
2.43.0


From d277cbbf313f56852ff4a347e3a3cea9e9d95884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:48 +0000
Subject: [PATCH 14/16] fix: report the server's error code, not the address it
 is stored at

---
 client_error.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/client_error.go b/client_error.go
index 10cce41..f4bf38c 100644
--- a/client_error.go
+++ b/client_error.go
@@ -46,10 +46,15 @@ func isClientError(t ClientErrorType, err error) bool {
 }
 
 func clientErrorFromRDAPError(e *Error) *ClientError {
+	var errorCode uint16
+	if e.ErrorCode != nil {
+		errorCode = *e.ErrorCode
+	}
+
 	return &ClientError{
 		Type: RDAPServerError,
 		Text: fmt.Sprintf("Server returned error code %d, title='%s', description='%s'",
-			e.ErrorCode,
+			errorCode,
 			e.Title,
 			strings.Join(e.Description, " ")),
 	}
-- 
2.43.0


From 8c91c9a3449f3f1607d33a137e42bb37938482c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:44 +0000
Subject: [PATCH 15/16] fix: print the conformance of IP network responses

---
 print.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/print.go b/print.go
index b57c441..8900880 100644
--- a/print.go
+++ b/print.go
@@ -548,6 +548,12 @@ func (p *Printer) printIPNetwork(n *IPNetwork, indentLevel uint) {
 		p.printValue("Port43", n.Port43, indentLevel)
 	}
 
+	if !p.BriefOutput {
+		for _, c := range n.Conformance {
+			p.printValue("Conformance", c, indentLevel)
+		}
+	}
+
 	if !p.BriefOutput && !p.OmitNotices {
 		for _, no := range n.Notices {
 			p.printNotice(no, indentLevel)
-- 
2.43.0


From 52ac8c772e625fc65fa2d6553619f76a5605ab85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:39 +0000
Subject: [PATCH 16/16] fix: do not panic when no RDAP URL can be made from the
 server URL

---
 client.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index 32d3b46..64c986c 100644
--- a/client.go
+++ b/client.go
@@ -250,9 +250,19 @@ func (c *Client) Do(req *Request) (*Response, error) {
 }
 
 func (c *Client) get(rdapReq *Request) *HTTPResponse {
+	rdapURL := rdapReq.URL()
+	if rdapURL == nil {
+		return &HTTPResponse{
+			Error: &ClientError{
+				Type: InputError,
+				Text: fmt.Sprintf("No RDAP URL can be made from the server URL '%s'", rdapReq.Server),
+			},
+		}
+	}
+
 	// HTTPResponse stores the URL, http.Response, response body...
 	httpResponse := &HTTPResponse{
-		URL: rdapReq.URL().String(),
+		URL: rdapURL.String(),
 	}
 
 	start := time.Now()
-- 
2.43.0

