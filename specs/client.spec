package rdap

props C14 C16

define nFailed(n int) bool = uf("http.failed", "bool", n)
define nStatus(n int) int = uf("http.status", "int", n)
define nReadOK(n int) bool = uf("http.readok", "bool", n)
define nBody(n int) string = uf("http.body", "string", n)

// the URL text of a request at its server; whether it has one
opaque hasURL(t int, q string, S url.URL) bool = t == RawRequest || pure("net/url.Parse", 1, fullText(S, t, q)) == nil
define ctxOf(r *Request) any = ite(r.ctx == nil, background(), r.ctx)

opaque sentTo(u string, t int, q string, S url.URL) bool = ite(t == RawRequest, u == urlText(S), existsk(e, "string", u == urlText(with(with(pure("net/url.Parse", 0, fullText(S, t, q)), "RawQuery", e), "Fragment", S.Fragment))))

helper (*rdap.Client).get
option reveal:sentTo reveal:hasURL
ghost K string
ghost N int
requires this != nil && this.HTTP != nil && rdapReq != nil && isReq(rdapReq.Type)
letold n = g.net
letold RT = rdapReq.Type
letold RQ = rdapReq.Query
letold RP = rdapReq.Server
letold RS = *rdapReq.Server
let h = result
ensures h != nil && fresh(h)
ensures n <= g.net && g.net <= n+1
ensures [C14 the attempt's URL is recorded] g.net != n ==> g.reqURL[n] == h.URL
ensures [C16 exactly one GET] g.net != n ==> g.reqMethod[n] == "GET"
ensures [C16 without a body] g.net != n ==> g.reqNoBody[n]
ensures [C16 under the request's context, with the client's HTTP client] g.net != n ==> g.reqCtx[n] == old(ctxOf(rdapReq)) && g.reqClient[n] == id(this.HTTP)
ensures [C16 the Accept header] g.net != n ==> len(g.reqHdr[n]["Accept"]) == 1 && g.reqHdr[n]["Accept"][0] == "application/rdap+json, application/json"
ensures [C16 the User-Agent header when one is set] g.net != n && this.UserAgent != "" ==> len(g.reqHdr[n]["User-Agent"]) == 1 && g.reqHdr[n]["User-Agent"][0] == this.UserAgent
ensures [C16 no other headers] g.net != n && has(g.reqHdr[n], K) ==> K == "Accept" || (K == "User-Agent" && this.UserAgent != "")
ensures [C16 a failed attempt is an error] g.net == n || nFailed(n) || !nReadOK(n) ==> h.Error != nil
ensures [C16 the body is read fully and closed] g.net != n && !nFailed(n) ==> g.closed[n]
ensures [C14 otherwise status and body are recorded] g.net != n && !nFailed(n) && nReadOK(n) ==> h.Error == nil && h.Response != nil && h.Response.StatusCode == nStatus(n) && str(h.Body) == nBody(n)
ensures h.Error == nil ==> h.Response != nil
ensures [C16 what earlier requests carried stays recorded] N < n ==> g.reqCtx[N] == old(g.reqCtx[N])
ensures [C14 the URL is the request's] RP != nil && hasURL(RT, RQ, RS) ==> sentTo(h.URL, RT, RQ, RS)
ensures [C14 no URL is an error] RP == nil || !hasURL(RT, RQ, RS) ==> h.Error != nil && h.URL == ""
modifies g.net, g.reqURL, g.reqMethod, g.reqCtx, g.reqHdr, g.reqNoBody, g.reqClient, g.now, g.closed, g.readAll, g.encN, g.encMap, g.encText


props C15

define canBoot(t int) bool = t == DomainRequest || t == AutnumRequest || t == EntityRequest || t == IPRequest
define regFor(t int, q string) int = ite(t == DomainRequest, bootstrap.DNS, ite(t == AutnumRequest, bootstrap.ASN, ite(t == EntityRequest, bootstrap.ServiceProvider, ite(contains(q, ":"), bootstrap.IPv6, bootstrap.IPv4))))
define cErr(e error, t int) bool = is(e, "*ClientError") && as(e, "*ClientError").Type == t

func rdap.bootstrapTypeFor
requires req != nil
ensures [C15 types with a registry] result != nil <==> canBoot(req.Type)
ensures [C15 the registry of the request type] canBoot(req.Type) ==> fresh(result) && *result == regFor(req.Type, req.Query)
modifies nothing

props C14 C15 C16

define goodStatus(h *HTTPResponse) bool = h.Response.StatusCode >= 200 && h.Response.StatusCode <= 299 && len(h.Body) > 0
// an attempt after which the next server is tried
define movesOn(h *HTTPResponse) bool = h.Error != nil || (!goodStatus(h) && h.Response.StatusCode != 404)
define limited(r Request) any = ite(r.Timeout > 0, uf("ctx.timeout", "any", ite(r.ctx == nil, background(), r.ctx), r.Timeout), ite(r.ctx == nil, background(), r.ctx))

func (*rdap.Client).Do
option paths
use (*bootstrap.Client).Lookup :: carries the question's context; at most one; answered unless a download failed; question is passed on; answered by the registry held
use (*rdap.Client).get :: under the request's context; stays recorded; h != nil; n <= g.net; h.Error == nil ==> h.Response; the URL is the request's; no URL is an error
ghost J int
ghost N int
requires this != nil
requires req != nil ==> isReq(req.Type)
letold R0 = *req
letold n = g.net
letold A0 = g.asks
letold V0 = g.cacheV
let LAST = result.HTTP[len(result.HTTP)-1]
ensures [C15 a missing request] req == nil ==> result == nil && cErr(err, InputError) && g.net == n && g.asks == A0 && g.cacheV == V0
ensures [C15 a given server is asked without bootstrapping] req != nil && R0.Server != nil ==> result != nil && g.asks == A0 && g.cacheV == V0 && result.BootstrapAnswer == nil && len(result.HTTP) == 1 && g.net <= n + 1
ensures [C15 other types cannot be bootstrapped] req != nil && R0.Server == nil && !canBoot(R0.Type) ==> result == nil && cErr(err, BootstrapNotSupported) && g.net == n && g.asks == A0 && g.cacheV == V0
ensures [C15 the registry of the type is asked for the query as it is] g.asks != A0 ==> g.asks == A0 + 1 && g.askedText == R0.Query && g.askedType == regFor(R0.Type, R0.Query)
ensures [C15 no match] result != nil && result.BootstrapAnswer != nil && len(result.BootstrapAnswer.URLs) == 0 ==> err != nil && len(result.HTTP) == 0
ensures [C16 every request of the run carries the limited context] n <= N && N < g.net && req != nil ==> g.reqCtx[N] == limited(R0)
ensures [C14 success ends with a good response that decodes] err == nil ==> result != nil && len(result.HTTP) > 0 && LAST.Error == nil && goodStatus(LAST) && decOK(str(LAST.Body)) && result.Object != nil
ensures [C14 every earlier attempt failed] result != nil && 0 <= J && J < len(result.HTTP) - 1 ==> result.HTTP[J] != nil && movesOn(result.HTTP[J])
ensures [C15 an error object] err == nil && is(result.Object, "*Error") ==> as(result.Object, "*Error") != nil
ensures [C14 not found ends the run] result != nil && len(result.HTTP) > 0 && LAST.Error == nil && !goodStatus(LAST) && LAST.Response.StatusCode == 404 ==> cErr(err, ObjectDoesNotExist)
ensures [C14 every server is tried before giving up] result != nil && len(result.HTTP) > 0 && LAST.Error == nil && !goodStatus(LAST) && LAST.Response.StatusCode != 404 ==> cErr(err, NoWorkingServers) && len(result.HTTP) == ite(R0.Server != nil, 1, len(result.BootstrapAnswer.URLs))
ensures [C14 attempts are at the servers in order] result != nil && 0 <= J && J < len(result.HTTP) ==> result.HTTP[J].Error != nil || sentTo(result.HTTP[J].URL, R0.Type, R0.Query, *ite(R0.Server != nil, R0.Server, result.BootstrapAnswer.URLs[J]))
loop {o []*Request} forall(j, 0, len(o), o[j].ctx == limited(R0) || o[j].ctx == R0.ctx && R0.Timeout <= 0)
loop {i int} n <= N && N < g.net ==> g.reqCtx[N] == limited(R0)
loop {o []*Request} forall(j, 0, len(o), o[j] != nil && o[j].Type == R0.Type && o[j].Query == R0.Query)
loop {o :*Response} forall(j, 0, len(o.HTTP), o.HTTP[j] != nil && movesOn(o.HTTP[j]))
loop {o :*Response} R0.Server != nil ==> o.BootstrapAnswer == nil
loop {o :*Response} o.BootstrapAnswer != nil ==> len(o.BootstrapAnswer.URLs) > 0
loop {i int, o :*Response} len(o.HTTP) == i
loop {i int} R0.Server != nil ==> g.net <= n + i
loop {o []*Request} 0 <= J && J < len(o) ==> o[J].Server == ret("(*bootstrap.Client).Lookup", 0).URLs[J]
loop {o []*Request, i int} len(o) == i
loop {o :*Response} R0.Server == nil ==> o.BootstrapAnswer == ret("(*bootstrap.Client).Lookup", 0)
loop {o :*Response} 0 <= J && J < len(o.HTTP) ==> o.HTTP[J].Error != nil || sentTo(o.HTTP[J].URL, R0.Type, R0.Query, *ite(R0.Server != nil, R0.Server, o.BootstrapAnswer.URLs[J]))

props C15 C16

func rdap.clientErrorFromRDAPError
requires e != nil
ensures [C15 the server's error] fresh(result) && result.Type == RDAPServerError
modifies nothing

func (*rdap.Client).QueryDomain
option paths
use (*rdap.Client).Do :: carries the limited context; success ends with; an error object
ghost N int
requires this != nil
letold n = g.net
ensures [C15 a failed run] ret("(*rdap.Client).Do", 1) != nil ==> result == nil && err == ret("(*rdap.Client).Do", 1)
ensures [C15 the object if it has the type] ret("(*rdap.Client).Do", 1) == nil && is(ret("(*rdap.Client).Do", 0).Object, "*Domain") ==> err == nil && result == as(ret("(*rdap.Client).Do", 0).Object, "*Domain")
ensures [C15 the server's error] ret("(*rdap.Client).Do", 1) == nil && is(ret("(*rdap.Client).Do", 0).Object, "*Error") ==> result == nil && cErr(err, RDAPServerError)
ensures [C15 a wrong type] ret("(*rdap.Client).Do", 1) == nil && !is(ret("(*rdap.Client).Do", 0).Object, "*Domain") && !is(ret("(*rdap.Client).Do", 0).Object, "*Error") ==> result == nil && cErr(err, WrongResponseType)
ensures [C16 thirty seconds] n <= N && N < g.net ==> g.reqCtx[N] == uf("ctx.timeout", "any", background(), 30000000000)

func (*rdap.Client).QueryAutnum
option paths
use (*rdap.Client).Do :: carries the limited context; success ends with; an error object
ghost N int
requires this != nil
letold n = g.net
ensures [C15 a failed run] ret("(*rdap.Client).Do", 1) != nil ==> result == nil && err == ret("(*rdap.Client).Do", 1)
ensures [C15 the object if it has the type] ret("(*rdap.Client).Do", 1) == nil && is(ret("(*rdap.Client).Do", 0).Object, "*Autnum") ==> err == nil && result == as(ret("(*rdap.Client).Do", 0).Object, "*Autnum")
ensures [C15 the server's error] ret("(*rdap.Client).Do", 1) == nil && is(ret("(*rdap.Client).Do", 0).Object, "*Error") ==> result == nil && cErr(err, RDAPServerError)
ensures [C15 a wrong type] ret("(*rdap.Client).Do", 1) == nil && !is(ret("(*rdap.Client).Do", 0).Object, "*Autnum") && !is(ret("(*rdap.Client).Do", 0).Object, "*Error") ==> result == nil && cErr(err, WrongResponseType)
ensures [C16 thirty seconds] n <= N && N < g.net ==> g.reqCtx[N] == uf("ctx.timeout", "any", background(), 30000000000)

func (*rdap.Client).QueryIP
option paths
use (*rdap.Client).Do :: carries the limited context; success ends with; an error object
ghost N int
requires this != nil
letold n = g.net
ensures [C15 a failed run] ret("(*rdap.Client).Do", 1) != nil ==> result == nil && err == ret("(*rdap.Client).Do", 1)
ensures [C15 the object if it has the type] ret("(*rdap.Client).Do", 1) == nil && is(ret("(*rdap.Client).Do", 0).Object, "*IPNetwork") ==> err == nil && result == as(ret("(*rdap.Client).Do", 0).Object, "*IPNetwork")
ensures [C15 the server's error] ret("(*rdap.Client).Do", 1) == nil && is(ret("(*rdap.Client).Do", 0).Object, "*Error") ==> result == nil && cErr(err, RDAPServerError)
ensures [C15 a wrong type] ret("(*rdap.Client).Do", 1) == nil && !is(ret("(*rdap.Client).Do", 0).Object, "*IPNetwork") && !is(ret("(*rdap.Client).Do", 0).Object, "*Error") ==> result == nil && cErr(err, WrongResponseType)
ensures [C16 thirty seconds] n <= N && N < g.net ==> g.reqCtx[N] == uf("ctx.timeout", "any", background(), 30000000000)

