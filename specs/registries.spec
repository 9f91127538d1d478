package bootstrap

props C01

func bootstrap.NewDNSRegistry
ghost E string
ghost K int
letold doc = str(a0)
ensures [C01 rejected exactly when the document is] err != nil <==> badDoc(doc)
ensures [C01 no registry when rejected] err != nil ==> result == nil
ensures [C01 the registry is the document's entries] err == nil ==> result != nil && fresh(result) && holds(result.dns, doc, E, K)
ensures [C01 file] err == nil ==> result.file != nil && result.file.Entries == result.dns
modifies nothing

func (*bootstrap.DNSRegistry).File
requires this != nil
ensures result == this.file
modifies nothing

props C04

func bootstrap.NewServiceProviderRegistry
ghost E string
ghost K int
letold doc = str(a0)
ensures [C04 rejected exactly when the document is] err != nil <==> badDoc(doc)
ensures [C04 no registry when rejected] err != nil ==> result == nil
ensures [C04 the registry is the document's entries] err == nil ==> result != nil && fresh(result) && holds(result.services, doc, E, K)
ensures [C04 file] err == nil ==> result.file != nil && result.file.Entries == result.services
modifies nothing

func (*bootstrap.ServiceProviderRegistry).File
requires this != nil
ensures result == this.file
modifies nothing

props C03

define disjointR(a int, b int, c int, d int) bool = b < c || d < a
define noOverlapM(m map[string][]*url.URL) bool = forallk(k, "string", forallk(j, "string", has(m, k) && has(m, j) && isRange(k) && isRange(j) && k != j ==> disjointR(rangeMin(k), rangeMax(k), rangeMin(j), rangeMax(j))))

func bootstrap.NewASNRegistry
ghost E string
ghost K int
letold doc = str(a0)
let m = result.file.Entries
let as = result.asns
ensures [C03 rejected exactly when the document is] err != nil <==> badDoc(doc)
ensures [C03 no registry when rejected] err != nil ==> result == nil
ensures [C03 the entries are the document's] err == nil ==> result != nil && fresh(result) && result.file != nil && holds(m, doc, E, K)
ensures [C03 every numeric entry has its range] err == nil && has(m, E) && isRange(E) ==> exists(i, 0, len(as), as[i].MinASN == rangeMin(E) && as[i].MaxASN == rangeMax(E) && as[i].URLs == m[E])
ensures [C03 ranges are intervals] err == nil ==> forall(i, 0, len(as), as[i].MinASN <= as[i].MaxASN)
ensures [C03 ranges in order] err == nil ==> forall(i, 0, len(as), forall(j, i, len(as), as[i].MinASN <= as[j].MinASN))
ensures [C03 ranges come from entries] err == nil ==> forall(i, 0, len(as), existsk(k, "string", has(m, k) && isRange(k) && as[i].MinASN == rangeMin(k) && as[i].MaxASN == rangeMax(k) && as[i].URLs == m[k]))
ensures [C03 disjoint entries give disjoint ranges] err == nil && noOverlapM(m) ==> forall(i, 0, len(as), forall(j, i+1, len(as), disjointR(as[i].MinASN, as[i].MaxASN, as[j].MinASN, as[j].MaxASN)))
modifies nothing
loop {a []asnRange} forall(i, 0, len(a), a[i].MinASN <= a[i].MaxASN)
loop {a []asnRange, f :*File} visited(E) && isRange(E) ==> exists(i, 0, len(a), a[i].MinASN == rangeMin(E) && a[i].MaxASN == rangeMax(E) && a[i].URLs == f.Entries[E])
loop {a []asnRange, f :*File} forall(i, 0, len(a), existsk(k, "string", visited(k) && has(f.Entries, k) && isRange(k) && a[i].MinASN == rangeMin(k) && a[i].MaxASN == rangeMax(k) && a[i].URLs == f.Entries[k]))
loop {a []asnRange, f :*File} noOverlapM(f.Entries) ==> forall(i, 0, len(a), forall(j, i+1, len(a), disjointR(a[i].MinASN, a[i].MaxASN, a[j].MinASN, a[j].MaxASN)))
loop {a []asnRange, f :*File} noOverlapM(f.Entries) ==> forall(i, 0, len(a), forallk(k, "string", has(f.Entries, k) && isRange(k) && !visited(k) ==> disjointR(a[i].MinASN, a[i].MaxASN, rangeMin(k), rangeMax(k))))
