package rdap

props C20 C19

define scalarV(s any) bool = s == nil || is(s, "bool") || is(s, "float64") || is(s, "string")
// a value of text, number, boolean, null or arrays of these, nested at most three deep
recursive valOK(s any, d int) bool = scalarV(s) || is(s, "[]any") && d < 3 && allOK(as(s, "[]any"), 0, d+1)
// the elements from i on
recursive allOK(l []any, i int, d int) bool = i >= len(l) || valOK(l[i], d) && allOK(l, i+1, d)
// a property: at least a text name, an object of parameters, a text type and a value
define propShape(l []any) bool = len(l) >= 4 && is(l[0], "string") && is(l[1], "map[string]any") && is(l[2], "string") && valOK(ite(len(l) == 4, l[3], box(l[3:], "[]any")), 0)
recursive propOK(p any) bool = is(p, "[]any") && propShape(as(p, "[]any"))
define cardShape(l []any) bool = len(l) == 2 && is(l[0], "string") && as(l[0], "string") == "vcard" && is(l[1], "[]any")
// how many of the first n properties are well formed
recursive nProps(l []any, n int) int = ite(n <= 0, 0, nProps(l, n-1) + ite(propOK(l[n-1]), 1, 0))
define props(s any) []any = as(as(s, "[]any")[1], "[]any")
recursive restOK(l []any, i int) bool = i >= len(l) || propOK(l[i]) && restOK(l, i+1)
define isCard(s any) bool = is(s, "[]any") && cardShape(as(s, "[]any"))
opaque cardOK(s any) bool = isCard(s) && restOK(props(s), 0)

// v is the value s (an array is a marked copy of s)
define sameV(v any, s any, m any) bool = ite(is(s, "[]any"), is(v, "[]any") && m == s, v == s)
// how many of the first n are texts
recursive nStr(l []any, n int) int = ite(n <= 0, 0, nStr(l, n-1) + ite(is(l[n-1], "string"), 1, 0))
define lst(v any) []any = as(v, "[]any")

func rdap.readValue
requires 0 <= depth && depth <= 3
ghost J int
letold S = value
letold CO = g.copyOf
setend g.copyOf[ite(is(r0, "[]any"), id(lst(r0)), 0)] := value
ensures [C20 accepted exactly when nested at most three deep] r1 == nil <==> valOK(S, depth)
ensures [C20 the value is kept] r1 == nil ==> sameV(r0, S, g.copyOf[id(lst(r0))])
ensures [C20 an array keeps its length] r1 == nil && is(S, "[]any") ==> fresh(id(lst(r0))) && len(lst(r0)) == len(lst(S))
ensures [C20 and its elements in order] r1 == nil && is(S, "[]any") && 0 <= J && J < len(lst(S)) ==> sameV(lst(r0)[J], lst(S)[J], g.copyOf[id(lst(lst(r0)[J]))])
ensures forallk(v, "int", v != 0 && !fresh(v) ==> g.copyOf[v] == CO[v])
modifies g.copyOf
loop {o []any, i int} len(o) == i
loop {o []any, i int} fresh(id(o))
loop {o []any, i int} allOK(lst(S), 0, depth+1) <==> allOK(lst(S), i, depth+1)
loop {o []any, i int} 0 <= J && J < i ==> sameV(o[J], lst(S)[J], g.copyOf[id(lst(o[J]))])
loop {o []any} 0 <= J && J < len(o) && is(o[J], "[]any") ==> id(lst(o[J])) != id(o) && fresh(id(lst(o[J]))) && allocated(id(lst(o[J])))
loop {o []any} forallk(v, "int", v != 0 && !fresh(v) ==> g.copyOf[v] == CO[v])

// parameter K: a single text is a list of one, a list keeps its texts in order, others are dropped
define paramsOK(M map[string][]string, G map[string]any, K string, I int) bool = (has(M, K) ==> has(G, K) && len(M[K]) > 0 && (is(G[K], "string") || is(G[K], "[]any")))
|  && (has(G, K) && is(G[K], "string") ==> has(M, K) && len(M[K]) == 1 && M[K][0] == as(G[K], "string"))
|  && (has(G, K) && is(G[K], "[]any") ==> len(M[K]) == nStr(lst(G[K]), len(lst(G[K]))))
|  && (has(G, K) && is(G[K], "[]any") && 0 <= I && I < len(lst(G[K])) && is(lst(G[K])[I], "string") ==> M[K][nStr(lst(G[K]), I)] == as(lst(G[K])[I], "string"))

func rdap.readParameters
ghost K string
ghost I int
letold P = p
ensures [C20 accepted exactly when an object] err == nil <==> is(P, "map[string]any")
ensures err == nil ==> result != nil
ensures [C20 the string-valued parameters are kept] err == nil ==> paramsOK(result, as(P, "map[string]any"), K, I)
modifies nothing
letold PM = as(p, "map[string]any")
loop {o :map[string][]string} visited(K) ==> has(PM, K)
loop {o :map[string][]string} !visited(K) ==> !has(o, K)
loop {o :map[string][]string} has(o, K) ==> len(o[K]) > 0
loop {o :map[string][]string} visited(K) && is(PM[K], "string") ==> has(o, K) && len(o[K]) == 1 && o[K][0] == as(PM[K], "string")
loop {o :map[string][]string} visited(K) && is(PM[K], "[]any") ==> len(o[K]) == nStr(lst(PM[K]), len(lst(PM[K])))
loop {o :map[string][]string} visited(K) && is(PM[K], "[]any") && 0 <= I && I < len(lst(PM[K])) && is(lst(PM[K])[I], "string") ==> nStr(lst(PM[K]), I) < len(o[K]) && o[K][nStr(lst(PM[K]), I)] == as(lst(PM[K])[I], "string")
loop {o :map[string][]string} visited(K) && !is(PM[K], "string") && !is(PM[K], "[]any") ==> !has(o, K)
loop {o :map[string][]string, k :string} visited(K) && k != K && is(PM[K], "string") ==> has(o, K) && len(o[K]) == 1 && o[K][0] == as(PM[K], "string")
loop {o :map[string][]string, k :string} visited(K) && k != K && is(PM[K], "[]any") ==> len(o[K]) == nStr(lst(PM[K]), len(lst(PM[K])))
loop {o :map[string][]string, k :string} visited(K) && k != K && is(PM[K], "[]any") && 0 <= I && I < len(lst(PM[K])) && is(lst(PM[K])[I], "string") ==> nStr(lst(PM[K]), I) < len(o[K]) && o[K][nStr(lst(PM[K]), I)] == as(lst(PM[K])[I], "string")
loop {o :map[string][]string, k :string} visited(K) && k != K && !is(PM[K], "string") && !is(PM[K], "[]any") ==> !has(o, K)
loop {o :map[string][]string, k :string} visited(k) && has(PM, k)
loop {o :map[string][]string, k :string} k == K ==> is(PM[K], "[]any")
loop {o :map[string][]string, k :string, i int} k == K ==> len(o[K]) == nStr(lst(PM[K]), i)
loop {o :map[string][]string, k :string, i int} k == K && 0 <= I && I < i && is(lst(PM[K])[I], "string") ==> nStr(lst(PM[K]), I) < len(o[K]) && o[K][nStr(lst(PM[K]), I)] == as(lst(PM[K])[I], "string")

// a decoded property holds what the array l gives
define propIs(r *VCardProperty, l []any, cp any) bool = r.Name == as(l[0], "string") && r.Type == as(l[2], "string") && ite(len(l) == 4, sameV(r.Value, l[3], cp), is(r.Value, "[]any") && len(lst(r.Value)) == len(l) - 3)

func rdap.decodeVCardProperty
ghost J int
ghost K string
ghost I int
letold P = p
letold CO = g.copyOf
ensures [C20 accepted exactly when well formed] err == nil <==> propOK(P)
ensures err == nil ==> result != nil && fresh(result) && (is(result.Value, "[]any") ==> fresh(id(lst(result.Value))))
ensures [C20 name, type and value are kept] err == nil ==> propIs(result, lst(P), g.copyOf[id(lst(result.Value))])
ensures [C20 several values in order] err == nil && len(lst(P)) > 4 && 0 <= J && J < len(lst(P)) - 3 ==> sameV(lst(result.Value)[J], lst(P)[3+J], g.copyOf[id(lst(lst(result.Value)[J]))])
ensures [C20 the string-valued parameters are kept] err == nil ==> paramsOK(result.Parameters, as(lst(P)[1], "map[string]any"), K, I)
ensures forallk(v, "int", v != 0 && !fresh(v) ==> g.copyOf[v] == CO[v])
modifies g.copyOf

func rdap.newVCardImpl
option reveal:cardOK
ghost N int
letold SRC = src
letold IG = options.IgnoreInvalidProperties
letold PR = props(src)
letold CO = g.copyOf
ensures [C20 accepted exactly when a jCard of well-formed properties] !IG ==> (err == nil <==> cardOK(SRC))
ensures [C20 with the ignore option invalid properties do not matter] IG ==> (err == nil <==> isCard(SRC))
ensures err == nil ==> result != nil && fresh(result)
ensures [C20 no card when rejected] err != nil ==> result == nil
ensures [C20 exactly the well-formed properties are kept] err == nil ==> len(result.Properties) == nProps(PR, len(PR))
ensures [C20 in order, as given] err == nil && 0 <= N && N < len(PR) && propOK(PR[N]) ==> propIs(result.Properties[nProps(PR, N)], lst(PR[N]), g.copyOf[id(lst(result.Properties[nProps(PR, N)].Value))])
ensures forall(j, 0, len(result.Properties), err == nil ==> result.Properties[j] != nil)
modifies g.copyOf
loop {o :*VCard} forallk(v, "int", v != 0 && !fresh(v) ==> g.copyOf[v] == CO[v])
loop {o :*VCard} forall(j, 0, len(o.Properties), o.Properties[j] != nil)
loop {o :*VCard, i int} len(o.Properties) == nProps(PR, i)
loop {o :*VCard, i int} 0 <= N && N < i && propOK(PR[N]) ==> nProps(PR, N) < len(o.Properties) && propIs(o.Properties[nProps(PR, N)], lst(PR[N]), g.copyOf[id(lst(o.Properties[nProps(PR, N)].Value))]) && fresh(o.Properties[nProps(PR, N)]) && allocated(id(o.Properties[nProps(PR, N)])) && (is(o.Properties[nProps(PR, N)].Value, "[]any") ==> fresh(id(lst(o.Properties[nProps(PR, N)].Value))) && allocated(id(lst(o.Properties[nProps(PR, N)].Value))))
loop {i int} !IG ==> (restOK(PR, 0) <==> restOK(PR, i))

func rdap.NewVCardWithOptions
option reveal:cardOK
ghost N int
letold IG = options.IgnoreInvalidProperties
letold BAD = jsonerr(str(jsonBlob), "[]any")
letold L = jsonfield(str(jsonBlob), "", "[]any")
ensures [C20 a JSON array is accepted exactly when a jCard of well-formed properties] !IG ==> (err == nil <==> !BAD && cardOK(box(L, "[]any")))
ensures [C20 with the ignore option invalid properties do not matter] IG ==> (err == nil <==> !BAD && cardShape(L))
ensures [C20 exactly the well-formed properties are kept] err == nil ==> result != nil && len(result.Properties) == nProps(lst(L[1]), len(lst(L[1])))
ensures [C20 in order, as given] err == nil && 0 <= N && N < len(lst(L[1])) && propOK(lst(L[1])[N]) ==> propIs(result.Properties[nProps(lst(L[1]), N)], lst(lst(L[1])[N]), g.copyOf[id(lst(result.Properties[nProps(lst(L[1]), N)].Value))])
modifies g.copyOf

func rdap.NewVCard
letold BAD = jsonerr(str(jsonBlob), "[]any")
letold L = jsonfield(str(jsonBlob), "", "[]any")
ensures [C20 the default options reject a card with an invalid property] err == nil <==> !BAD && cardOK(box(L, "[]any"))
modifies g.copyOf

props C21

// a value a decoded property can have
recursive jsonV(s any) bool = scalarV(s) || is(s, "[]any") && forall(j, 0, len(lst(s)), jsonV(lst(s)[j]))
// the texts of a value, flattened: how many, and the j-th
define text(s any) string = ite(is(s, "bool"), pure("strconv.FormatBool", 0, as(s, "bool")), ite(is(s, "float64"), pure("strconv.FormatFloat", 0, as(s, "float64"), 102, 0-1, 64), ite(is(s, "string"), as(s, "string"), "")))
define flatN(s any) int = ite(is(s, "[]any"), flatL(as(s, "[]any"), len(as(s, "[]any"))), 1)
recursive flatL(l []any, n int) int = ite(n <= 0, 0, flatL(l, n-1) + flatN(l[n-1]))
define flatAt(s any, j int) string = ite(is(s, "[]any"), flatLAt(as(s, "[]any"), len(as(s, "[]any")), j), text(s))
recursive flatLAt(l []any, n int, j int) string = ite(n <= 0, "", ite(j >= flatL(l, n-1), flatAt(l[n-1], j - flatL(l, n-1)), flatLAt(l, n-1, j)))
// the flattened texts joined by sep
uninterpreted joinFlat(s any, sep string) string
// the first property of the name from position i on
recursive firstNamed(l []*VCardProperty, i int, name string) *VCardProperty = ite(i >= len(l), nil, ite(l[i].Name == name, l[i], firstNamed(l, i+1, name)))
recursive nNamed(l []*VCardProperty, n int, name string) int = ite(n <= 0, 0, nNamed(l, n-1, name) + ite(l[n-1].Name == name, 1, 0))
opaque cardV(v *VCard) bool = v != nil && forall(j, 0, len(v.Properties), v.Properties[j] != nil && jsonV(v.Properties[j].Value))

extern strings.Join
ghost V any
ensures len(a0) == flatN(V) && forall(j, 0, len(a0), a0[j] == flatAt(V, j)) ==> result == joinFlat(V, a1)
modifies nothing

func (*rdap.VCardProperty).appendValueStrings
option unfold-bound:flatLAt
requires jsonV(v) && strings != nil
letold L0 = len(*strings)
letold A0 = *strings
letold S = v
ensures [C21 one text for each value, flattened] len(*strings) == L0 + flatN(S) && flatN(S) >= 0
ensures [C21 in order] forall(j, 0, flatN(S), (*strings)[L0+j] == flatAt(S, j))
ensures [C21 earlier texts stay] forall(j, 0, L0, (*strings)[j] == old((*strings)[j]))
modifies *strings
loop {i int} flatL(lst(S), i) >= 0 && len(*strings) == L0 + flatL(lst(S), i)
loop {i int} forall(j, 0, flatL(lst(S), i), (*strings)[L0+j] == flatLAt(lst(S), i, j))
loop {i int} forall(j, 0, L0, (*strings)[j] == old((*strings)[j]))

func (*rdap.VCard).Get
option reveal:cardV
requires cardV(this)
ghost J int
letold P = this.Properties
ensures [C21 as many as have the name] len(result) == nNamed(P, len(P), name)
ensures [C21 every property of the name in order] 0 <= J && J < len(P) && P[J].Name == name ==> result[nNamed(P, J, name)] == P[J]
ensures [C21 the first one first] ite(len(result) > 0, result[0] == firstNamed(P, 0, name) && result[0] != nil, firstNamed(P, 0, name) == nil)
ensures forall(k, 0, len(result), result[k] != nil && !fresh(result[k]) && result[k].Name == name && jsonV(result[k].Value))
ensures forall(k, 0, len(result), exists(q, 0, len(P), result[k] == P[q]))
ensures len(result) > 0 ==> !fresh(result[0]) && jsonV(result[0].Value)
modifies nothing
loop {o []*VCardProperty, i int} len(o) == nNamed(P, i, name)
loop {i int} 0 <= i && i <= len(P)
loop {o []*VCardProperty, i int} 0 <= J && J < i && P[J].Name == name ==> nNamed(P, J, name) < len(o) && o[nNamed(P, J, name)] == P[J]
loop {o []*VCardProperty, i int} ite(len(o) > 0, o[0] == firstNamed(P, 0, name), firstNamed(P, 0, name) == firstNamed(P, i, name))
loop {o []*VCardProperty, i int} forall(k, 0, len(o), exists(q, 0, i, o[k] == P[q]))
loop {o []*VCardProperty} forall(k, 0, len(o), o[k] != nil && !fresh(o[k]) && o[k].Name == name && jsonV(o[k].Value))

func (*rdap.VCard).GetFirst
option reveal:cardV
letold PP = this.Properties
loop {i int} firstNamed(PP, 0, name) == firstNamed(PP, i, name)
loop {i int} 0 <= i && i <= len(PP)
requires cardV(this)
ensures [C21 the first property of the name] result == firstNamed(this.Properties, 0, name)
ensures result != nil ==> !fresh(result) && jsonV(result.Value)
ensures result != nil && is(result.Value, "[]any") && len(lst(result.Value)) > 0 ==> jsonV(lst(result.Value)[0])
modifies nothing

func (*rdap.VCardProperty).Values
requires this != nil && jsonV(this.Value)
ensures [C21 one text for each value, flattened] len(result) == flatN(this.Value)
ensures [C21 in order] forall(j, 0, len(result), result[j] == flatAt(this.Value, j))
modifies nothing

func (*rdap.VCard).getFirstPropertySingleString
requires cardV(this)
ghost V any
letold F = firstNamed(this.Properties, 0, name)
ensures [C21 nothing when there is no such property] F == nil ==> result == ""
ensures [C21 the flattened texts of the first such property, joined by a space] F != nil && V == F.Value ==> result == joinFlat(V, " ")
modifies nothing

func (*rdap.VCard).Name
setend g.accV["Name"] := result
setend g.accC["Name"] := id(this)
requires cardV(this)
ghost V any
letold F = firstNamed(this.Properties, 0, "fn")
ensures [C21 nothing when there is no such property] F == nil ==> result == ""
ensures [C21 the flattened texts of the first such property, joined by a space] F != nil && V == F.Value ==> result == joinFlat(V, " ")
ensures g.accV["Name"] == result && g.accC["Name"] == id(this)
ensures forallk(q, "string", q != "Name" ==> g.accV[q] == old(g.accV[q]) && g.accC[q] == old(g.accC[q]))
modifies g.accV, g.accC

func (*rdap.VCard).Email
setend g.accV["Email"] := result
setend g.accC["Email"] := id(this)
requires cardV(this)
ghost V any
letold F = firstNamed(this.Properties, 0, "email")
ensures [C21 nothing when there is no such property] F == nil ==> result == ""
ensures [C21 the flattened texts of the first such property, joined by a space] F != nil && V == F.Value ==> result == joinFlat(V, " ")
ensures g.accV["Email"] == result && g.accC["Email"] == id(this)
ensures forallk(q, "string", q != "Email" ==> g.accV[q] == old(g.accV[q]) && g.accC[q] == old(g.accC[q]))
modifies g.accV, g.accC

func (*rdap.VCard).Org
requires cardV(this)
ghost V any
letold F = firstNamed(this.Properties, 0, "org")
ensures [C21 nothing when there is no such property] F == nil ==> result == ""
ensures [C21 the flattened texts of the first such property, joined by a space] F != nil && V == F.Value ==> result == joinFlat(V, " ")
modifies nothing

func (*rdap.VCard).getFirstAddressField
option paths
requires index >= 0
requires cardV(this)
letold F = firstNamed(this.Properties, 0, "adr")
ensures [C21 nothing when there is no address] F == nil ==> result == ""
modifies nothing

func (*rdap.VCard).POBox
setend g.accV["POBox"] := result
setend g.accC["POBox"] := id(this)
requires cardV(this)
letold F = firstNamed(this.Properties, 0, "adr")
ensures [C21 nothing when there is no address] F == nil ==> result == ""
ensures g.accV["POBox"] == result && g.accC["POBox"] == id(this)
ensures forallk(q, "string", q != "POBox" ==> g.accV[q] == old(g.accV[q]) && g.accC[q] == old(g.accC[q]))
modifies g.accV, g.accC

func (*rdap.VCard).ExtendedAddress
setend g.accV["ExtendedAddress"] := result
setend g.accC["ExtendedAddress"] := id(this)
requires cardV(this)
letold F = firstNamed(this.Properties, 0, "adr")
ensures [C21 nothing when there is no address] F == nil ==> result == ""
ensures g.accV["ExtendedAddress"] == result && g.accC["ExtendedAddress"] == id(this)
ensures forallk(q, "string", q != "ExtendedAddress" ==> g.accV[q] == old(g.accV[q]) && g.accC[q] == old(g.accC[q]))
modifies g.accV, g.accC

func (*rdap.VCard).StreetAddress
setend g.accV["StreetAddress"] := result
setend g.accC["StreetAddress"] := id(this)
requires cardV(this)
letold F = firstNamed(this.Properties, 0, "adr")
ensures [C21 nothing when there is no address] F == nil ==> result == ""
ensures g.accV["StreetAddress"] == result && g.accC["StreetAddress"] == id(this)
ensures forallk(q, "string", q != "StreetAddress" ==> g.accV[q] == old(g.accV[q]) && g.accC[q] == old(g.accC[q]))
modifies g.accV, g.accC

func (*rdap.VCard).Locality
setend g.accV["Locality"] := result
setend g.accC["Locality"] := id(this)
requires cardV(this)
letold F = firstNamed(this.Properties, 0, "adr")
ensures [C21 nothing when there is no address] F == nil ==> result == ""
ensures g.accV["Locality"] == result && g.accC["Locality"] == id(this)
ensures forallk(q, "string", q != "Locality" ==> g.accV[q] == old(g.accV[q]) && g.accC[q] == old(g.accC[q]))
modifies g.accV, g.accC

func (*rdap.VCard).Region
requires cardV(this)
letold F = firstNamed(this.Properties, 0, "adr")
ensures [C21 nothing when there is no address] F == nil ==> result == ""
modifies nothing

func (*rdap.VCard).PostalCode
setend g.accV["PostalCode"] := result
setend g.accC["PostalCode"] := id(this)
requires cardV(this)
letold F = firstNamed(this.Properties, 0, "adr")
ensures [C21 nothing when there is no address] F == nil ==> result == ""
ensures g.accV["PostalCode"] == result && g.accC["PostalCode"] == id(this)
ensures forallk(q, "string", q != "PostalCode" ==> g.accV[q] == old(g.accV[q]) && g.accC[q] == old(g.accC[q]))
modifies g.accV, g.accC

func (*rdap.VCard).Country
setend g.accV["Country"] := result
setend g.accC["Country"] := id(this)
requires cardV(this)
letold F = firstNamed(this.Properties, 0, "adr")
ensures [C21 nothing when there is no address] F == nil ==> result == ""
ensures g.accV["Country"] == result && g.accC["Country"] == id(this)
ensures forallk(q, "string", q != "Country" ==> g.accV[q] == old(g.accV[q]) && g.accC[q] == old(g.accC[q]))
modifies g.accV, g.accC

// a telephone property that is voice (or has no type), and one that is fax
define isVoice(p *VCardProperty) bool = has(p.Parameters, "type") ==> exists(t, 0, len(p.Parameters["type"]), p.Parameters["type"][t] == "voice")
define isFax(p *VCardProperty) bool = has(p.Parameters, "type") && exists(t, 0, len(p.Parameters["type"]), p.Parameters["type"][t] == "fax")

func (*rdap.VCard).Tel
setend g.accV["Tel"] := result
setend g.accC["Tel"] := id(this)
requires cardV(this)
ghost J int
letold P = this.Properties
letold FN = firstNamed(this.Properties, 0, "tel")
ensures [C21 nothing when there is no telephone] FN == nil ==> result == ""
ensures [C21 the first when suitable] FN != nil && isVoice(FN) && flatN(FN.Value) > 0 ==> result == flatAt(FN.Value, 0)
ensures [C21 nothing when none is suitable] NS ==> result == ""
ensures g.accV["Tel"] == result && g.accC["Tel"] == id(this)
ensures forallk(q, "string", q != "Tel" ==> g.accV[q] == old(g.accV[q]) && g.accC[q] == old(g.accC[q]))
modifies g.accV, g.accC
letold NS = forall(i, 0, len(P), P[i].Name == "tel" ==> !(isVoice(P[i]) && flatN(P[i].Value) > 0))
letold SU = isVoice(FN) && flatN(FN.Value) > 0
loop {i int} i > 0 ==> !SU

func (*rdap.VCard).Fax
setend g.accV["Fax"] := result
setend g.accC["Fax"] := id(this)
requires cardV(this)
ghost J int
letold P = this.Properties
letold FN = firstNamed(this.Properties, 0, "tel")
ensures [C21 nothing when there is no telephone] FN == nil ==> result == ""
ensures [C21 the first when suitable] FN != nil && isFax(FN) && flatN(FN.Value) > 0 ==> result == flatAt(FN.Value, 0)
ensures [C21 nothing when none is suitable] NS ==> result == ""
ensures g.accV["Fax"] == result && g.accC["Fax"] == id(this)
ensures forallk(q, "string", q != "Fax" ==> g.accV[q] == old(g.accV[q]) && g.accC[q] == old(g.accC[q]))
modifies g.accV, g.accC
letold NS = forall(i, 0, len(P), P[i].Name == "tel" ==> !(isFax(P[i]) && flatN(P[i].Value) > 0))
letold SU = isFax(FN) && flatN(FN.Value) > 0
loop {i int} i > 0 ==> !SU
