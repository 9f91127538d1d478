package bootstrap

props C03

// the number named by a query, with the optional prefix removed
define asnDigits(q string) string = trimprefix(tolower(q), "as")
define isASN(s string) bool = isnum(s) && numval(s) <= 4294967295
// an entry is N or A-B
opaque isRange(k string) bool = ite(contains(k, "-"), isASN(k[:indexof(k, "-", 0)]) && isASN(k[indexof(k, "-", 0)+1:]) && !contains(k[indexof(k, "-", 0)+1:], "-"), isASN(k))
define bound0(k string) int = ite(contains(k, "-"), numval(k[:indexof(k, "-", 0)]), numval(k))
define bound1(k string) int = ite(contains(k, "-"), numval(k[indexof(k, "-", 0)+1:]), numval(k))
opaque rangeMin(k string) int = ite(bound0(k) <= bound1(k), bound0(k), bound1(k))
opaque rangeMax(k string) int = ite(bound0(k) <= bound1(k), bound1(k), bound0(k))

func bootstrap.parseASN
ensures [C03 query is the number] isASN(asnDigits(asn)) ==> err == nil && result == numval(asnDigits(asn))
ensures [C03 other queries are errors] !isASN(asnDigits(asn)) ==> err != nil
modifies nothing

func bootstrap.parseASNRange
option reveal:isRange reveal:rangeMin reveal:rangeMax
ensures [C03 entries that are not numbers or ranges are errors] err == nil <==> isRange(a0)
ensures [C03 either order] err == nil ==> r0 == rangeMin(a0) && r1 == rangeMax(a0)
ensures [C03 an interval] err == nil ==> r0 <= r1
modifies nothing

func (*bootstrap.ASNRegistry).Lookup
ghost J int
requires this != nil && question != nil
// established by NewASNRegistry (below)
requires forall(i, 0, len(this.asns), this.asns[i].MinASN <= this.asns[i].MaxASN)
requires forall(i, 0, len(this.asns), forall(j, i, len(this.asns), this.asns[i].MinASN <= this.asns[j].MinASN))
// the document's ranges do not overlap
requires forall(i, 0, len(this.asns), forall(j, i+1, len(this.asns), this.asns[i].MaxASN < this.asns[j].MinASN || this.asns[j].MaxASN < this.asns[i].MinASN))
letold d = asnDigits(question.Query)
let n = numval(d)
let as = this.asns
ensures [C03 not an AS number is an error] !isASN(d) ==> err != nil && result == nil
ensures [C03 an AS number is answered] isASN(d) ==> err == nil && result != nil && fresh(result)
ensures [C03 the containing range wins] isASN(d) && 0 <= J && J < len(as) && as[J].MinASN <= n && n <= as[J].MaxASN ==>
|  result.URLs == as[J].URLs && result.Entry == ite(as[J].MinASN == as[J].MaxASN, "AS" + itoa(as[J].MinASN), "AS" + itoa(as[J].MinASN) + "-AS" + itoa(as[J].MaxASN))
ensures [C03 nothing when no range contains it] isASN(d) && !exists(i, 0, len(as), as[i].MinASN <= n && n <= as[i].MaxASN) ==> len(result.URLs) == 0 && result.Entry == ""
modifies nothing
