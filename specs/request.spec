package rdap

props C11

// bytes of a path segment that stand for themselves (RFC 3986 pchar without the sub-delims and percent)
define plainByte(b int) bool = (65 <= b && b <= 90) || (97 <= b && b <= 122) || (48 <= b && b <= 57) || b == 45 || b == 95 || b == 46 || b == 126 || b == 36 || b == 38 || b == 43 || b == 58 || b == 61 || b == 64
define hexDigit(d int) string = "0123456789ABCDEF"[d:d+1]
define escByte(b int) string = ite(plainByte(b), chr(b), "%" + hexDigit(b / 16) + hexDigit(b % 16))
// the first n bytes of s, percent-encoded
recursive esc(s string, n int) string = ite(n <= 0, "", esc(s, n-1) + escByte(s[n-1]))

func rdap.escapePath
letold TXT = a0
ensures [C11 every byte that is not plain is percent-encoded] result == esc(TXT, len(TXT))
modifies nothing
loop {i int} esc(TXT, i) == TXT[0:i]
loop {o []byte, i int} str(o) == esc(TXT, i)

helper rdap.shouldPathEscape
ensures result <==> !plainByte(a0)
modifies nothing

define isReq(t int) bool = 1 <= t && t <= RawRequest
define isSearch(t int) bool = DomainSearchRequest <= t && t <= AutnumSearchRequest
// the path below the server's URL, and the parameter carrying a search's query
define pathOf(t int, q string) string = ite(t == AutnumRequest, "autnum/" + esc(q, len(q)), ite(t == DomainRequest, "domain/" + esc(q, len(q)), ite(t == EntityRequest, "entity/" + esc(q, len(q)),
|  ite(t == HelpRequest, "help", ite(t == IPRequest, "ip/" + replaceall(esc(q, len(q)), "%2F", "/"), ite(t == NameserverRequest, "nameserver/" + esc(q, len(q)),
|  ite(t == DomainSearchRequest || t == DomainSearchByNameserverRequest || t == DomainSearchByNameserverIPRequest, "domains",
|  ite(t == NameserverSearchRequest || t == NameserverSearchByNameserverIPRequest, "nameservers",
|  ite(t == EntitySearchRequest || t == EntitySearchByHandleRequest, "entities", ite(t == AutnumSearchRequest, "autnums", ""))))))))))
define paramOf(t int) string = ite(t == DomainSearchRequest || t == NameserverSearchRequest, "name", ite(t == DomainSearchByNameserverRequest, "nsLdhName", ite(t == DomainSearchByNameserverIPRequest, "nsIp",
|  ite(t == NameserverSearchByNameserverIPRequest, "ip", ite(t == EntitySearchRequest, "fn", "handle")))))

func (*rdap.Request).pathAndValues
ghost K string
requires this != nil && isReq(this.Type)
letold t = this.Type
letold q = this.Query
ensures [C11 the path of the request type with the query escaped] result == pathOf(t, q)
ensures [C11 only searches use a parameter] has(r1, K) <==> isSearch(t) && K == paramOf(t)
ensures [C11 a search's query is the parameter's only value] isSearch(t) ==> len(r1[paramOf(t)]) == 1 && r1[paramOf(t)][0] == q
ensures r1 != nil && fresh(r1)
modifies nothing

define urlText(u url.URL) string = pure("(*net/url.URL).String", 0, u)
define bareServer(u url.URL) string = urlText(with(with(with(u, "RawQuery", ""), "ForceQuery", false), "Fragment", ""))
define asDirText(s string) string = ite(suffix(s, "/"), s, s + "/")
define fullText(u url.URL, t int, q string) string = asDirText(bareServer(u)) + pathOf(t, q)

func (*rdap.Request).URL
ghost K string
requires this != nil && isReq(this.Type)
letold t = this.Type
letold q = this.Query
letold S = this.Server
letold SV = *this.Server
letold FULL = fullText(SV, t, q)
letold OK = pure("net/url.Parse", 1, FULL) == nil
ensures [C11 no server, no URL] S == nil ==> result == nil
ensures [C11 a raw request is its server URL] S != nil && t == RawRequest ==> result != nil && fresh(result) && *result == SV
ensures [C11 the path follows the server's URL] S != nil && t != RawRequest ==> ite(OK, result != nil && fresh(result) && *result == with(with(pure("net/url.Parse", 0, FULL), "RawQuery", g.encText), "Fragment", SV.Fragment), result == nil)
ensures [C11 the query has the server's, the request's and the search's parameters] S != nil && t != RawRequest && OK ==> (has(g.encMap, K) <==> uf("query.has", "bool", SV, K) || has(this.Params, K) || (isSearch(t) && K == paramOf(t)))
ensures [C11 the search's parameter wins] S != nil && isSearch(t) && OK ==> len(g.encMap[paramOf(t)]) == 1 && g.encMap[paramOf(t)][0] == q
ensures [C11 the request's parameters win over the server's] S != nil && t != RawRequest && OK && has(this.Params, K) && !(isSearch(t) && K == paramOf(t)) ==> g.encMap[K] == this.Params[K]
modifies g.encN, g.encMap, g.encText

props C12

// the number named by AS1234, as1234 or 1234
define asDigits(q string) string = trimprefix(toupper(q), "AS")
define isAutnum(q string) bool = isnum(asDigits(q)) && numval(asDigits(q)) <= 4294967295

helper rdap.parseAutnum
ensures err == nil <==> isAutnum(a0)
ensures err == nil ==> result == numval(asDigits(a0))
modifies nothing

define plainReq(r *Request, t int, q string) bool = r != nil && fresh(r) && r.Type == t && r.Query == q && r.Server == nil && r.Params == nil && r.ctx == nil && len(r.FetchRoles) == 0 && r.Timeout == 0
define isURL(q string) bool = pure("net/url.Parse", 1, q) == nil && (pure("net/url.Parse", 0, q).Scheme == "http" || pure("net/url.Parse", 0, q).Scheme == "https")
define noPath(q string) bool = pure("net/url.Parse", 0, q).Path == "" || pure("net/url.Parse", 0, q).Path == "/"
define isIP(q string) bool = uf("ip.ok", "bool", q)
define isCIDR(q string) bool = uf("cidr.ok", "bool", q)
define ipText(q string) string = uf("ip.text", "string", uf("ip.of", "string", q))
define netText(q string) string = uf("net.text", "string", uf("cidr.net", "string", q), uf("cidr.mask", "string", q))

func rdap.NewAutoRequest
inline rdap.NewRawRequest rdap.NewDomainRequest rdap.NewIPRequest rdap.NewIPNetRequest rdap.NewAutnumRequest rdap.NewEntityRequest
option paths
letold q = a0
ensures [C12 a bare web address is a domain query] isURL(q) && noPath(q) ==> plainReq(result, DomainRequest, pure("(*net/url.URL).Hostname", 0, pure("net/url.Parse", 0, q)))
ensures [C12 any other web address is fetched as it is] isURL(q) && !noPath(q) ==> result != nil && fresh(result) && result.Type == RawRequest && result.Server != nil && *result.Server == pure("net/url.Parse", 0, q) && result.Params == nil
ensures [C12 an IP address] !isURL(q) && isIP(q) ==> plainReq(result, IPRequest, ipText(q))
ensures [C12 a network] !isURL(q) && !isIP(q) && isCIDR(q) ==> plainReq(result, IPRequest, netText(q))
ensures [C12 an AS number] !isURL(q) && !isIP(q) && !isCIDR(q) && isAutnum(q) ==> plainReq(result, AutnumRequest, itoa(numval(asDigits(q))))
ensures [C12 a domain name] !isURL(q) && !isIP(q) && !isCIDR(q) && !isAutnum(q) && contains(q, ".") ==> plainReq(result, DomainRequest, q)
ensures [C12 anything else is an entity] !isURL(q) && !isIP(q) && !isCIDR(q) && !isAutnum(q) && !contains(q, ".") ==> plainReq(result, EntityRequest, q)
modifies nothing

func rdap.NewHelpRequest
ensures [C12 help] plainReq(result, HelpRequest, "")
modifies nothing

func rdap.NewAutnumRequest
ensures [C12 an AS number in decimal] plainReq(result, AutnumRequest, itoa(a0))
modifies nothing

func rdap.NewDomainRequest
ensures [C12 the domain as given] plainReq(result, DomainRequest, a0)
modifies nothing

func rdap.NewEntityRequest
ensures [C12 the entity as given] plainReq(result, EntityRequest, a0)
modifies nothing

func rdap.NewNameserverRequest
ensures [C12 the nameserver as given] plainReq(result, NameserverRequest, a0)
modifies nothing

func rdap.NewRequest
ensures [C12 type and query as given] plainReq(result, a0, a1)
modifies nothing

func rdap.NewRawRequest
ensures [C12 the URL as given] result != nil && fresh(result) && result.Type == RawRequest && result.Server == a0
modifies nothing

func rdap.NewIPRequest
ensures [C12 the address in text] plainReq(result, IPRequest, uf("ip.text", "string", str(a0)))
modifies nothing

func rdap.NewIPNetRequest
requires a0 != nil
ensures [C12 the network in text] plainReq(result, IPRequest, uf("net.text", "string", str(a0.IP), str(a0.Mask)))
modifies nothing

props C13

// a derived request differs in one field only, and the original is left alone
func (*rdap.Request).WithContext
requires this != nil
ensures [C13 a new request] result != nil && fresh(result)
ensures [C13 only the context differs] *result == with(old(*this), "ctx", a0)
modifies nothing

func (*rdap.Request).WithServer
requires this != nil
ensures [C13 a new request] result != nil && fresh(result)
ensures [C13 only the server differs] *result == with(old(*this), "Server", a0)
modifies nothing

func (*rdap.Request).Context
requires this != nil
ensures [C13 never nil] result != nil
ensures [C13 the request's own context] this.ctx != nil ==> result == this.ctx
ensures [C13 the background context by default] this.ctx == nil ==> result == background()
modifies nothing
