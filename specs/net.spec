package bootstrap

props C02

// an address as a number; the network of CIDR text; its prefix length
define ord(b string) int = uf("ip.ord", "int", b)
define ones(b string) int = uf("mask.ones", "int", b)
define cidrOK(s string) bool = uf("cidr.ok", "bool", s)
define cidrNet(s string) string = uf("cidr.net", "string", s)
define cidrLen(s string) int = ones(uf("cidr.mask", "string", s))
define covers(nb string, o int, ip string) bool = len(nb) == len(ip) && ord(nb) <= ord(ip) && ord(ip) <= uf("net.hi", "int", nb, o)
define aligned(nb string, o int) bool = uf("net.aligned", "bool", nb, o)
// a stored network of prefix length m and address size b
define goodNet(e netEntry, m int, b int) bool = e.Net != nil && len(str(e.Net.IP)) == b && ones(str(e.Net.Mask)) == m && aligned(str(e.Net.IP), m)
define hits(e netEntry, m int, ip string) bool = covers(str(e.Net.IP), m, ip)
define bucketOK(l []netEntry, m int, b int) bool = 0 <= m && forall(i, 0, len(l), goodNet(l[i], m, b)) && forall(i, 0, len(l), forall(j, i, len(l), ord(str(l[i].Net.IP)) <= ord(str(l[j].Net.IP))))
define isAnswer(e netEntry, m int, ip string, u []*url.URL, t string) bool = hits(e, m, ip) && u == e.URLs && t == uf("net.text", "string", str(e.Net.IP), str(e.Net.Mask))
define noneYet(u []*url.URL, e string, b int, hit bool) bool = len(u) == 0 && e == "" && b == 0 && !hit

func (*bootstrap.NetRegistry).Lookup
ghost M int
ghost J int
requires this != nil && question != nil
// established by NewNetRegistry (below)
requires this.networks != nil && forallk(m, "int", has(this.networks, m) ==> bucketOK(at(this.networks, m), m, this.numIPBytes))
letold q = question.Query
letold IN = ite(contains(q, "/"), q, q + "/" + itoa(this.numIPBytes*8))
letold IP = cidrNet(IN)
letold good = cidrOK(IN) && len(IP) == this.numIPBytes
letold TAB = this.networks
letold hit = has(TAB, M) && M <= cidrLen(IN) && 0 <= J && J < len(at(TAB, M)) && hits(at(TAB, M)[J], M, IP)
let found = existsk(m, "int", has(TAB, m) && m <= cidrLen(IN) && m >= ite(hit, M, 0) &&
|  exists(j, 0, len(at(TAB, m)), isAnswer(at(TAB, m)[j], m, IP, result.URLs, result.Entry)))
ensures [C02 not an address of this family is an error] !good ==> err != nil && result == nil
ensures [C02 otherwise an answer] good ==> err == nil && result != nil && fresh(result) && result.Query == IN
ensures [C02 a covering network of the longest prefix wins] good && hit ==> found
ensures [C02 only a covering network is reported] good ==> found || (len(result.URLs) == 0 && result.Entry == "")
modifies nothing
loop {b int, u []*url.URL, e string} visited(M) && hit ==> M <= b
loop {b int} 0 <= b
loop {b int, u []*url.URL, e string} noneYet(u, e, b, visited(M) && hit) || has(TAB, b)
loop {b int, u []*url.URL, e string} noneYet(u, e, b, visited(M) && hit) || b <= cidrLen(IN)
loop {b int, u []*url.URL, e string} noneYet(u, e, b, visited(M) && hit) || exists(j, 0, len(at(TAB, b)), isAnswer(at(TAB, b)[j], b, IP, u, e))

define cidrMask(s string) string = uf("cidr.mask", "string", s)
define isFor(e netEntry, k string, u []*url.URL) bool = e.Net != nil && str(e.Net.IP) == cidrNet(k) && str(e.Net.Mask) == cidrMask(k) && e.URLs == u
define inFamily(k string, b int) bool = cidrOK(k) && len(cidrNet(k)) == b
define bucketFilled(l []netEntry, m int, b int) bool = 0 <= m && forall(i, 0, len(l), goodNet(l[i], m, b))
define bucketSorted(l []netEntry) bool = forall(i, 0, len(l), forall(j, i, len(l), ord(str(l[i].Net.IP)) <= ord(str(l[j].Net.IP))))
define apart(m map[int][]netEntry) bool = forallk(x, "int", forallk(y, "int", has(m, x) && has(m, y) && x != y ==> sref(at(m, x)) != sref(at(m, y))))

func bootstrap.NewNetRegistry
ghost E string
ghost K int
letold doc = str(a0)
let m = result.file.Entries
let nets = result.networks
letold B = ite(a1 == 4, 4, 16)
ensures [C02 rejected exactly when the document is] a1 == 4 || a1 == 6 ==> (err != nil <==> badDoc(doc))
ensures [C02 unknown IP versions are rejected] a1 != 4 && a1 != 6 ==> err != nil
ensures [C02 no registry when rejected] err != nil ==> result == nil
ensures [C02 the entries are the document's] err == nil ==> result != nil && fresh(result) && result.file != nil && holds(m, doc, E, K) && result.numIPBytes == B && result.networks != nil
ensures [C02 networks of each size are valid] err == nil ==> forallk(x, "int", has(nets, x) ==> bucketFilled(at(nets, x), x, B))
ensures [C02 networks of each size are in order] err == nil ==> forallk(x, "int", has(nets, x) ==> bucketSorted(at(nets, x)))
modifies nothing
loop {n :*NetRegistry} forallk(x, "int", has(n.networks, x) ==> bucketFilled(at(n.networks, x), x, B))
loop {n :*NetRegistry} apart(n.networks)
loop {n :*NetRegistry} forallk(x, "int", has(n.networks, x) ==> fresh(at(n.networks, x)))
loop {n :*NetRegistry} forallk(x, "int", visited(x) && has(n.networks, x) ==> bucketSorted(at(n.networks, x)))
