package bootstrap

props C05

assumption a decoded JSON value is not changed by anyone else; json.Unmarshal, net/url.Parse and the like depend only on their arguments

// a service is [entries, urls] or [owners, entries, urls]
define wellFormed(s [][]string) bool = len(s) == 2 || len(s) == 3
define svcEntries(s [][]string) []string = ite(len(s) == 2, s[0], s[1])
define svcURLs(s [][]string) []string = ite(len(s) == 2, s[1], s[2])
define parses(r string) bool = pure("net/url.Parse", 1, r) == nil
// how many of the first n texts are URLs
recursive cnt(r []string, n int) int = ite(n <= 0, 0, cnt(r, n-1) + ite(parses(r[n-1]), 1, 0))
// whether e is among the first n entries
recursive memb(l []string, n int, e string) bool = n > 0 && (l[n-1] == e || memb(l, n-1, e))
// the last of the first n services that names e and has a URL, or -1
recursive lastSvc(s [][][]string, n int, e string) int = ite(n <= 0, 0-1,
|  ite(memb(svcEntries(s[n-1]), len(svcEntries(s[n-1])), e) && cnt(svcURLs(s[n-1]), len(svcURLs(s[n-1]))) > 0, n-1, lastSvc(s, n-1, e)))

define services(doc string) [][][]string = jsonfield(doc, "services", "[][][]string")
define nServices(doc string) int = ite(jsonhas(doc, "services"), len(services(doc)), 0)
// not a JSON object of the registry shape
opaque badDoc(doc string) bool = jsonerr(doc, "struct") || exists(j, 0, nServices(doc), !wellFormed(services(doc)[j]))
// the service that decides entry e, or -1, and the URLs it lists
define entryAt(doc string, e string) int = lastSvc(services(doc), nServices(doc), e)
define entryURLs(doc string, e string) []string = svcURLs(services(doc)[entryAt(doc, e)])
// the map holds e exactly when the document has it, with the right number of URLs, and its K'th text in place
define holds(m map[string][]*url.URL, doc string, e string, K int) bool = (has(m, e) <==> entryAt(doc, e) >= 0)
|  && (entryAt(doc, e) >= 0 ==> len(m[e]) == cnt(entryURLs(doc, e), len(entryURLs(doc, e))))
|  && (entryAt(doc, e) >= 0 && 0 <= K && K < len(entryURLs(doc, e)) && parses(entryURLs(doc, e)[K]) ==>
|    cnt(entryURLs(doc, e), K) < len(m[e]) && *m[e][cnt(entryURLs(doc, e), K)] == pure("net/url.Parse", 0, entryURLs(doc, e)[K]))

func bootstrap.NewFile
option reveal:badDoc
ghost E string
ghost K int
letold doc = str(jsonDocument)
letold S = services(doc)
ensures [C05 rejected exactly when not of the registry shape] err != nil <==> badDoc(doc)
ensures [C05 no result when rejected] err != nil ==> result == nil
ensures [C05 a result otherwise] err == nil ==> result != nil && fresh(result) && result.Entries != nil && fresh(result.Entries)
ensures [C05 an entry exactly for each name of a service with a URL; the last such service wins; all its URLs, as given, in order] err == nil ==> holds(result.Entries, doc, E, K)
ensures [C05 header fields preserved] err == nil ==> result.Description == ite(jsonhas(doc, "description"), jsonfield(doc, "description", "string"), "")
|  && result.Publication == ite(jsonhas(doc, "publication"), jsonfield(doc, "publication", "string"), "")
|  && result.Version == ite(jsonhas(doc, "version"), jsonfield(doc, "version", "string"), "")
ensures [C05 original bytes preserved] err == nil ==> str(result.JSON) == doc
ensures [C05 original bytes, same memory] err == nil ==> result.JSON == jsonDocument
modifies nothing
loop {i int, u []*url.URL, r :[]string} len(u) == cnt(r, i)
loop {i int, u []*url.URL, r :[]string} 0 <= K && K < i && parses(r[K]) ==> cnt(r, K) < len(u) && *u[cnt(r, K)] == pure("net/url.Parse", 0, r[K])
loop {i int, f :*File, e :[]string, u :[]*url.URL} memb(e, i, E) ==> has(f.Entries, E) && f.Entries[E] == u
loop {i int, f :*File, e :[]string} !memb(e, i, E) ==> (has(f.Entries, E) <==> pre(has(f.Entries, E))) && f.Entries[E] == pre(f.Entries[E])
loop {i int, f :*File} has(f.Entries, E) <==> lastSvc(S, i, E) >= 0
loop {i int, f :*File} let(at, lastSvc(S, i, E), at < i && (at >= 0 ==> len(f.Entries[E]) == cnt(svcURLs(S[at]), len(svcURLs(S[at])))))
loop {i int, f :*File} let(at, lastSvc(S, i, E), let(raw, svcURLs(S[at]), at >= 0 && 0 <= K && K < len(raw) && parses(raw[K]) ==> cnt(raw, K) < len(f.Entries[E]) && *f.Entries[E][cnt(raw, K)] == pure("net/url.Parse", 0, raw[K])))
loop {i int} forall(j, 0, i, wellFormed(S[j]))
