package bootstrap

// ---- the registry cache behind the client (any implementation)
// g.cacheV counts the calls made on it; what it answers may depend on when it is asked

define cState(v int, c any, name string) int = uf("cache.state", "int", v, c, name)
define cLoadOK(v int, c any, name string) bool = uf("cache.loadok", "bool", v, c, name)
define cData(v int, c any, name string) string = uf("cache.data", "string", v, c, name)
define cSaveOK(v int, c any, name string) bool = uf("cache.saveok", "bool", v, c, name)

props C06 C07

extern iface cache.RegistryCache.State
option always
ensures result == cState(old(g.cacheV), this, a0) && g.cacheV == old(g.cacheV) + 1
modifies g.cacheV

extern iface cache.RegistryCache.Load
option always
letold v = g.cacheV
ensures g.cacheV == v + 1 && g.loads == old(g.loads) + 1 && g.loadName == a0
ensures err == nil <==> cLoadOK(v, this, a0)
ensures err == nil ==> str(result) == cData(v, this, a0)
modifies g.cacheV, g.loads, g.loadName

extern iface cache.RegistryCache.Save
option always
letold v = g.cacheV
ensures g.cacheV == v + 1 && g.saves == old(g.saves) + 1 && g.saveName == a0 && g.saveData == str(a1) && g.saveTo == this
ensures err == nil <==> cSaveOK(v, this, a0)
modifies g.cacheV, g.saves, g.saveName, g.saveData, g.saveTo

extern iface cache.RegistryCache.SetTimeout
option always
modifies nothing

// each of the four implementations changes nothing (proved above for each)
extern iface bootstrap.Registry.Lookup
option always
ensures g.asks == old(g.asks) + 1 && g.asked == this && g.askedQ == id(a0) && g.askedText == a0.Query && g.askedType == a0.RegistryType
ensures err == nil ==> result != nil
modifies g.asks, g.asked, g.askedQ, g.askedText, g.askedType

// ---- names and addresses
define plainName(r int) string = ite(r == ASN, "asn.json", ite(r == DNS, "dns.json", ite(r == IPv4, "ipv4.json", ite(r == IPv6, "ipv6.json", "object-tags.json"))))
define isType(r int) bool = r == ASN || r == DNS || r == IPv4 || r == IPv6 || r == ServiceProvider
define defaultURL() string = "https://data.iana.org/rdap/"
define hash6(u string) string = uf("hex", "string", uf("sha256", "string", u))[0:6]
opaque cacheName(u string, r int) string = ite(u == defaultURL(), plainName(r), hash6(u) + "_" + plainName(r))

props C10

func (bootstrap.RegistryType).Filename
requires isType(r)
ensures [C10 plain file names] result == plainName(r)
modifies nothing

func (*bootstrap.Client).filenameFor
option reveal:cacheName
requires this != nil && this.BaseURL != nil && isType(r)
ensures [C10 the cache file depends only on the base URL and the registry] result == cacheName(pure("(*net/url.URL).String", 0, this.BaseURL), r)
modifies nothing

props C06 C10

// what the network answers to the n'th request
define nFailed(n int) bool = uf("http.failed", "bool", n)
define nStatus(n int) int = uf("http.status", "int", n)
define nReadOK(n int) bool = uf("http.readok", "bool", n)
define nBody(n int) string = uf("http.body", "string", n)
define arrived(n int) bool = !nFailed(n) && nStatus(n) == 200 && nReadOK(n)

//define fileOf(s Registry, r int) *File = ite(r == ASN, as(s, "*ASNRegistry").file, ite(r == DNS, as(s, "*DNSRegistry").file, ite(r == ServiceProvider, as(s, "*ServiceProviderRegistry").file, as(s, "*NetRegistry").file)))
//define typeFor(s Registry, r int) bool = ite(r == ASN, is(s, "*ASNRegistry"), ite(r == DNS, is(s, "*DNSRegistry"), ite(r == ServiceProvider, is(s, "*ServiceProviderRegistry"), is(s, "*NetRegistry"))))
// the registry of type r parsed from a document
define parsed(s Registry, r int, doc string, e string, k int) bool = s != nil
|  && (r == ASN ==> is(s, "*ASNRegistry") && holds(as(s, "*ASNRegistry").file.Entries, doc, e, k))
|  && (r == DNS ==> is(s, "*DNSRegistry") && holds(as(s, "*DNSRegistry").file.Entries, doc, e, k))
|  && (r == ServiceProvider ==> is(s, "*ServiceProviderRegistry") && holds(as(s, "*ServiceProviderRegistry").file.Entries, doc, e, k))
|  && (r == IPv4 || r == IPv6 ==> is(s, "*NetRegistry") && holds(as(s, "*NetRegistry").file.Entries, doc, e, k))

// the base URL's path as a directory, and the document below it
define escPath(u url.URL) string = pure("(*net/url.URL).EscapedPath", 0, u)
define asDir(u url.URL) url.URL = ite(escPath(u) != "" && !suffix(escPath(u), "/"), with(with(u, "Path", u.Path + "/"), "RawPath", escPath(u) + "/"), u)
define urlText(u url.URL) string = pure("(*net/url.URL).String", 0, u)
define fetchURL(u url.URL, r int) string = urlText(pure("(*net/url.URL).ResolveReference", 0, asDir(u), pure("net/url.Parse", 0, plainName(r))))

helper bootstrap.newRegistry
ghost E string
ghost K int
requires isType(registry)
letold doc = str(json)
ensures err != nil <==> badDoc(doc)
ensures err == nil ==> fresh(result)
ensures err == nil ==> parsed(result, registry, doc, E, K)
modifies nothing

helper (*bootstrap.Client).download
option paths
ghost E string
ghost K int
requires this != nil && this.BaseURL != nil && this.HTTP != nil && isType(registry)
letold n = g.net
let got = g.net == n+1 && arrived(n) && !badDoc(nBody(n))
ensures n <= g.net && g.net <= n+1
ensures [C10 fetched from below the base URL] g.net != n ==> g.reqURL[n] == fetchURL(*this.BaseURL, registry)
ensures [C10 a GET] g.net != n ==> g.reqMethod[n] == "GET"
ensures [C10 without a body] g.net != n ==> g.reqNoBody[n]
ensures [C10 with the given context and client] g.net != n ==> g.reqCtx[n] == ctx && g.reqClient[n] == id(this.HTTP)
ensures g.net != n && !nFailed(n) ==> g.closed[n]
ensures err == nil ==> got
ensures got ==> err == nil
ensures err == nil ==> str(result) == nBody(n)
ensures err == nil ==> parsed(r1, registry, nBody(n), E, K)
ensures err == nil ==> fresh(r1)
modifies g.net, g.reqURL, g.reqMethod, g.reqCtx, g.reqHdr, g.reqNoBody, g.reqClient, g.now, g.closed, g.readAll

func (*bootstrap.Client).DownloadWithContext
option paths
ghost E string
ghost K int
ghost T int
requires this != nil && isType(registry)
letold n = g.net
letold R0 = this.registries[registry]
letold H0 = has(this.registries, registry)
letold RT = this.registries[T]
letold HT = has(this.registries, T)
letold S0 = g.saves
let NAME = cacheName(pure("(*net/url.URL).String", 0, this.BaseURL), registry)
let got = g.net == n+1 && arrived(n) && !badDoc(nBody(n))
ensures [C06 a failed refresh keeps the registry in memory] err != nil ==> this.registries[registry] == R0 && (has(this.registries, registry) <==> H0)
ensures [C06 nothing but a good download reaches the cache] !got ==> err != nil && g.saves == S0
ensures [C06 the cache gets exactly the downloaded bytes] g.saves != S0 ==> g.saves == S0 + 1 && g.saveName == NAME && g.saveData == nBody(n) && g.saveTo == this.Cache
ensures [C06 success refreshes cache and memory] err == nil ==> g.saves == S0 + 1 && fresh(this.registries[registry]) && parsed(this.registries[registry], registry, nBody(n), E, K)
ensures [C06 other registries are not affected] T != registry ==> this.registries[T] == RT && (has(this.registries, T) <==> HT)
ensures [C06 at most one request] n <= g.net && g.net <= n+1
ensures [C10 fetched from below the base URL] g.net != n ==> g.reqURL[n] == fetchURL(*this.BaseURL, registry)
ensures [C10 a GET] g.net != n ==> g.reqMethod[n] == "GET"
ensures [C10 without a body] g.net != n ==> g.reqNoBody[n]
ensures [C10 with the given context] g.net != n ==> g.reqCtx[n] == ctx
ensures [C10 the default base URL] old(this.BaseURL) == nil ==> *this.BaseURL == pure("net/url.Parse", 0, defaultURL())
ensures [C10 set fields are kept] (old(this.BaseURL) != nil ==> this.BaseURL == old(this.BaseURL)) && (old(this.Cache) != nil ==> this.Cache == old(this.Cache)) && (old(this.HTTP) != nil ==> this.HTTP == old(this.HTTP))
modifies this.HTTP, this.Cache, this.BaseURL, this.registries, this.registries[*], g.net, g.reqURL, g.reqMethod, g.reqCtx, g.reqHdr, g.reqNoBody, g.reqClient, g.now, g.closed, g.readAll, g.cacheV, g.saves, g.saveName, g.saveData, g.saveTo

props C06

func (*bootstrap.Client).Download
ghost E string
ghost K int
ghost T int
requires this != nil && isType(registry)
letold n = g.net
letold R0 = this.registries[registry]
letold H0 = has(this.registries, registry)
letold RT = this.registries[T]
letold HT = has(this.registries, T)
letold S0 = g.saves
let got = g.net == n+1 && arrived(n) && !badDoc(nBody(n))
ensures [C06 a failed refresh keeps the registry in memory] err != nil ==> this.registries[registry] == R0 && (has(this.registries, registry) <==> H0)
ensures [C06 nothing but a good download reaches the cache] !got ==> err != nil && g.saves == S0
ensures [C06 success refreshes cache and memory] err == nil ==> g.saves == S0 + 1 && g.saveData == nBody(n) && parsed(this.registries[registry], registry, nBody(n), E, K)
ensures [C06 other registries are not affected] T != registry ==> this.registries[T] == RT && (has(this.registries, T) <==> HT)

props C07

define needsReload(v int, c any, name string) bool = cState(v, c, name) == cache.ShouldReload
define reloadOK(v int, c any, name string) bool = cLoadOK(v, c, name) && !badDoc(cData(v, c, name))

helper (*bootstrap.Client).reloadFromCache
option paths
ghost E string
ghost K int
ghost T int
requires this != nil && this.BaseURL != nil && this.Cache != nil && this.registries != nil && isType(registry)
letold v = g.cacheV
letold NAME = cacheName(pure("(*net/url.URL).String", 0, this.BaseURL), registry)
letold ok = reloadOK(v, this.Cache, NAME)
ensures err == nil <==> ok
ensures ok ==> has(this.registries, registry) && parsed(this.registries[registry], registry, cData(v, this.Cache, NAME), E, K) && fresh(this.registries[registry])
ensures !ok ==> this.registries[registry] == old(this.registries[registry]) && (has(this.registries, registry) <==> old(has(this.registries, registry)))
ensures T != registry ==> this.registries[T] == old(this.registries[T]) && (has(this.registries, T) <==> old(has(this.registries, T)))
ensures g.cacheV == v + 1
modifies this.registries[*], g.cacheV, g.loads, g.loadName

func (*bootstrap.Client).Lookup
option paths
ghost E string
ghost K int
ghost T int
requires this != nil && question != nil && isType(question.RegistryType)
letold r = question.RegistryType
letold n = g.net
letold v = g.cacheV
letold R0 = this.registries[r]
letold S0 = g.saves
letold A0 = g.asks
let NAME = cacheName(pure("(*net/url.URL).String", 0, this.BaseURL), r)
let newer = needsReload(v, this.Cache, NAME)
let reloaded = newer && reloadOK(v+1, this.Cache, NAME)
let need = ite(newer, !reloaded, cState(v, this.Cache, NAME) == cache.Expired || R0 == nil)
ensures [C07 no request unless needed] !need ==> g.net == n && g.saves == S0
ensures [C07 at most one download] n <= g.net && g.net <= n + 1
ensures [C07 one download when needed, or an error] need ==> g.net == n + 1 || (g.net == n && err != nil)
ensures [C07 a failed download is an error] need && !(g.net == n+1 && arrived(n) && !badDoc(nBody(n))) ==> err != nil && g.asks == A0
ensures [C07 answered by the registry held] g.asks != A0 ==> g.asks == A0 + 1 && g.asked == this.registries[r] && g.askedQ == id(question)
ensures [C07 answered unless a download failed] err == nil ==> g.asks == A0 + 1 && result != nil
ensures [C07 the question is passed on as it is] g.asks != A0 ==> g.askedText == old(question.Query) && g.askedType == r
ensures [C07 a newer cached copy is loaded first] reloaded ==> g.asks == A0 + 1 && fresh(this.registries[r])
ensures [C07 after a download the downloaded registry answers] need && g.asks != A0 ==> fresh(this.registries[r])
ensures [C07 otherwise the registry in memory answers] !need && !reloaded ==> this.registries[r] == R0
ensures [C07 the download carries the question's context] g.net != n ==> g.reqCtx[n] == ite(old(question.ctx) == nil, background(), old(question.ctx))
modifies this.HTTP, this.Cache, this.BaseURL, this.registries, this.Verbose, this.registries[*], g.net, g.reqURL, g.reqMethod, g.reqCtx, g.reqHdr, g.reqNoBody, g.reqClient, g.now, g.closed, g.readAll, g.cacheV, g.saves, g.saveName, g.saveData, g.saveTo, g.loads, g.loadName, g.asks, g.asked, g.askedQ, g.askedText, g.askedType

func (*bootstrap.Client).DNS
ghost E string
ghost K int
ghost T int
requires this != nil
letold v = g.cacheV
letold R0 = this.registries[DNS]
let NAME = cacheName(pure("(*net/url.URL).String", 0, this.BaseURL), DNS)
let reloaded = needsReload(v, this.Cache, NAME) && reloadOK(v+1, this.Cache, NAME)
ensures [C07 keeps the current registry] !reloaded ==> this.registries[DNS] == R0
ensures [C07 loads a newer copy] reloaded ==> parsed(this.registries[DNS], DNS, cData(v+1, this.Cache, NAME), E, K)
ensures [C07 reads the current registry] is(this.registries[DNS], "*DNSRegistry") ==> result == as(this.registries[DNS], "*DNSRegistry")
ensures [C07 or nil] !is(this.registries[DNS], "*DNSRegistry") ==> result == nil
modifies this.HTTP, this.Cache, this.BaseURL, this.registries, this.registries[*], g.cacheV, g.loads, g.loadName

func (*bootstrap.Client).ASN
ghost E string
ghost K int
ghost T int
requires this != nil
letold v = g.cacheV
letold R0 = this.registries[ASN]
let NAME = cacheName(pure("(*net/url.URL).String", 0, this.BaseURL), ASN)
let reloaded = needsReload(v, this.Cache, NAME) && reloadOK(v+1, this.Cache, NAME)
ensures [C07 keeps the current registry] !reloaded ==> this.registries[ASN] == R0
ensures [C07 loads a newer copy] reloaded ==> parsed(this.registries[ASN], ASN, cData(v+1, this.Cache, NAME), E, K)
ensures [C07 reads the current registry] is(this.registries[ASN], "*ASNRegistry") ==> result == as(this.registries[ASN], "*ASNRegistry")
ensures [C07 or nil] !is(this.registries[ASN], "*ASNRegistry") ==> result == nil
modifies this.HTTP, this.Cache, this.BaseURL, this.registries, this.registries[*], g.cacheV, g.loads, g.loadName

func (*bootstrap.Client).IPv4
ghost E string
ghost K int
ghost T int
requires this != nil
letold v = g.cacheV
letold R0 = this.registries[IPv4]
let NAME = cacheName(pure("(*net/url.URL).String", 0, this.BaseURL), IPv4)
let reloaded = needsReload(v, this.Cache, NAME) && reloadOK(v+1, this.Cache, NAME)
ensures [C07 keeps the current registry] !reloaded ==> this.registries[IPv4] == R0
ensures [C07 loads a newer copy] reloaded ==> parsed(this.registries[IPv4], IPv4, cData(v+1, this.Cache, NAME), E, K)
ensures [C07 reads the current registry] is(this.registries[IPv4], "*NetRegistry") ==> result == as(this.registries[IPv4], "*NetRegistry")
ensures [C07 or nil] !is(this.registries[IPv4], "*NetRegistry") ==> result == nil
modifies this.HTTP, this.Cache, this.BaseURL, this.registries, this.registries[*], g.cacheV, g.loads, g.loadName

func (*bootstrap.Client).IPv6
ghost E string
ghost K int
ghost T int
requires this != nil
letold v = g.cacheV
letold R0 = this.registries[IPv6]
let NAME = cacheName(pure("(*net/url.URL).String", 0, this.BaseURL), IPv6)
let reloaded = needsReload(v, this.Cache, NAME) && reloadOK(v+1, this.Cache, NAME)
ensures [C07 keeps the current registry] !reloaded ==> this.registries[IPv6] == R0
ensures [C07 loads a newer copy] reloaded ==> parsed(this.registries[IPv6], IPv6, cData(v+1, this.Cache, NAME), E, K)
ensures [C07 reads the current registry] is(this.registries[IPv6], "*NetRegistry") ==> result == as(this.registries[IPv6], "*NetRegistry")
ensures [C07 or nil] !is(this.registries[IPv6], "*NetRegistry") ==> result == nil
modifies this.HTTP, this.Cache, this.BaseURL, this.registries, this.registries[*], g.cacheV, g.loads, g.loadName

func (*bootstrap.Client).ServiceProvider
ghost E string
ghost K int
ghost T int
requires this != nil
letold v = g.cacheV
letold R0 = this.registries[ServiceProvider]
let NAME = cacheName(pure("(*net/url.URL).String", 0, this.BaseURL), ServiceProvider)
let reloaded = needsReload(v, this.Cache, NAME) && reloadOK(v+1, this.Cache, NAME)
ensures [C07 keeps the current registry] !reloaded ==> this.registries[ServiceProvider] == R0
ensures [C07 loads a newer copy] reloaded ==> parsed(this.registries[ServiceProvider], ServiceProvider, cData(v+1, this.Cache, NAME), E, K)
ensures [C07 reads the current registry] is(this.registries[ServiceProvider], "*ServiceProviderRegistry") ==> result == as(this.registries[ServiceProvider], "*ServiceProviderRegistry")
ensures [C07 or nil] !is(this.registries[ServiceProvider], "*ServiceProviderRegistry") ==> result == nil
modifies this.HTTP, this.Cache, this.BaseURL, this.registries, this.registries[*], g.cacheV, g.loads, g.loadName
