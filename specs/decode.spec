package rdap

props C18

// kinds of reflect
define kd(v int) int = kindof(rvtype(v))
define isUint(k int) bool = 8 <= k && k <= 11
define isInt(k int) bool = 3 <= k && k <= 6
define umax(k int) int = ite(k == 8, 255, ite(k == 9, 65535, ite(k == 10, 4294967295, 18446744073709551615)))
define imax(k int) int = ite(k == 3, 127, ite(k == 4, 32767, ite(k == 5, 2147483647, 9223372036854775807)))
define isScalar(s any) bool = s == nil || is(s, "bool") || is(s, "float64") || is(s, "string")

define fitsUint(s any, k int) bool = s == nil || is(s, "bool") || (is(s, "float64") && as(s, "float64") >= 0.0 && trunc(as(s, "float64")) <= umax(k)) || (is(s, "string") && isnum(as(s, "string")) && numval(as(s, "string")) <= umax(k))
define fitsInt(s any, k int) bool = s == nil || is(s, "bool") || (is(s, "float64") && as(s, "float64") >= 0.0 - 9223372036854775808.0 && 0 - imax(k) - 1 <= trunc(as(s, "float64")) && trunc(as(s, "float64")) <= imax(k)) || (is(s, "string") && isint(as(s, "string")) && 0 - imax(k) - 1 <= intval(as(s, "string")) && intval(as(s, "string")) <= imax(k))
define fitsFloat(s any) bool = s == nil || is(s, "bool") || is(s, "float64") || (is(s, "string") && pure("strconv.ParseFloat", 1, as(s, "string"), 64) == nil)
define fitsBool(s any) bool = s == nil || is(s, "bool") || is(s, "float64") || (is(s, "string") && pure("strconv.ParseBool", 1, as(s, "string")) == nil)
define isList(s any) bool = is(s, "[]any")
define isObject(s any) bool = is(s, "map[string]any")
// whether the JSON value can be stored in a variable of the type
recursive okV(s any, T int) bool = let(k, kindof(T), ite(isUint(k), fitsUint(s, k), ite(isInt(k), fitsInt(s, k), ite(k == 14, fitsFloat(s), ite(k == 1, fitsBool(s), ite(k == 24, isScalar(s), ite(k == 23, isList(s), ite(k == 21 || k == 25, isObject(s), ite(nameof(elemof(T)) == "VCard", cardOK(s), okV(s, elemof(T)))))))))))
// how many of the first n values can be stored
recursive nOK(l []any, n int, T int) int = ite(n <= 0, 0, nOK(l, n-1, T) + ite(okV(l[n-1], T), 1, 0))

// notes are only added
define notesKept(D *DecodeData, M map[string][]string, same bool) bool = D != nil ==> same

func (*rdap.Decoder).addDecodeNote
requires this != nil
letold L = decodeData.notes[key]
letold NN = decodeData.notes == nil
ensures [C18 a note is added] decodeData != nil ==> decodeData.notes != nil && len(decodeData.notes[key]) == ite(NN, 0, len(L)) + 1 && decodeData.notes[key][len(decodeData.notes[key])-1] == msg
ensures decodeData != nil ==> ite(NN, fresh(decodeData.notes), decodeData.notes == old(decodeData.notes))
ensures [C18 no other notes change] decodeData != nil ==> forallk(q, "string", q != key ==> ite(NN, len(decodeData.notes[q]) == 0, decodeData.notes[q] == old(decodeData.notes[q])))
modifies decodeData.notes, decodeData.notes[*]

func (*rdap.Decoder).decodeUint
requires this != nil && isUint(kd(id(dst)))
ghost V int
letold N0 = g.rvN[id(dst)]
letold L = ite(decodeData == nil || decodeData.notes == nil, 0, len(decodeData.notes[keyName]))
let f = as(src, "float64")
let t = as(src, "string")
let fits = fitsUint(src, kd(id(dst)))
let val = ite(is(src, "bool"), ite(as(src, "bool"), 1, 0), ite(is(src, "float64"), trunc(f), ite(is(src, "string"), numval(t), 0)))
ensures [C18 stored when it can be represented] result <==> fits
ensures [C18 the exact value] result ==> g.rvUint[id(dst)] == val && g.rvN[id(dst)] == N0 + 1
ensures [C18 left unset otherwise] !result ==> g.rvN[id(dst)] == N0
ensures [C18 a note for every conversion] decodeData != nil && true ==> len(decodeData.notes[keyName]) > L
ensures notesKept(decodeData, old(decodeData.notes), decodeData.notes == old(decodeData.notes) || fresh(decodeData.notes) && old(decodeData.notes) == nil)
ensures decodeData != nil ==> forallk(q, "string", len(decodeData.notes[q]) >= old(ite(decodeData.notes == nil, 0, len(decodeData.notes[q]))))
ensures [C18 nothing else is stored to] V != id(dst) ==> g.rvN[V] == old(g.rvN[V]) && g.rvUint[V] == old(g.rvUint[V])
modifies g.rvN, g.rvUint, decodeData.notes, decodeData.notes[*]

func (*rdap.Decoder).decodeInt
requires this != nil && isInt(kd(id(dst)))
ghost V int
letold N0 = g.rvN[id(dst)]
letold L = ite(decodeData == nil || decodeData.notes == nil, 0, len(decodeData.notes[keyName]))
let f = as(src, "float64")
let t = as(src, "string")
let fits = fitsInt(src, kd(id(dst)))
let val = ite(is(src, "bool"), ite(as(src, "bool"), 1, 0), ite(is(src, "float64"), trunc(f), ite(is(src, "string"), intval(t), 0)))
ensures [C18 stored when it can be represented] result <==> fits
ensures [C18 the exact value] result ==> g.rvInt[id(dst)] == val && g.rvN[id(dst)] == N0 + 1
ensures [C18 left unset otherwise] !result ==> g.rvN[id(dst)] == N0
ensures [C18 a note for every conversion] decodeData != nil && true ==> len(decodeData.notes[keyName]) > L
ensures notesKept(decodeData, old(decodeData.notes), decodeData.notes == old(decodeData.notes) || fresh(decodeData.notes) && old(decodeData.notes) == nil)
ensures decodeData != nil ==> forallk(q, "string", len(decodeData.notes[q]) >= old(ite(decodeData.notes == nil, 0, len(decodeData.notes[q]))))
ensures [C18 nothing else is stored to] V != id(dst) ==> g.rvN[V] == old(g.rvN[V]) && g.rvInt[V] == old(g.rvInt[V])
modifies g.rvN, g.rvInt, decodeData.notes, decodeData.notes[*]

func (*rdap.Decoder).decodeFloat64
requires this != nil && true
ghost V int
letold N0 = g.rvN[id(dst)]
letold L = ite(decodeData == nil || decodeData.notes == nil, 0, len(decodeData.notes[keyName]))
let f = as(src, "float64")
let t = as(src, "string")
let fits = fitsFloat(src)
let val = ite(is(src, "bool"), ite(as(src, "bool"), 1.0, 0.0), ite(is(src, "float64"), f, ite(is(src, "string"), pure("strconv.ParseFloat", 0, t, 64), 0.0)))
ensures [C18 stored when it can be represented] result <==> fits
ensures [C18 the exact value] result ==> g.rvFloat[id(dst)] == val && g.rvN[id(dst)] == N0 + 1
ensures [C18 zero otherwise] !result ==> g.rvFloat[id(dst)] == 0.0 && g.rvN[id(dst)] == N0 + 1
ensures [C18 a note for every conversion] decodeData != nil && !is(src, "float64") ==> len(decodeData.notes[keyName]) > L
ensures [C18 no note for a value of the field's kind] decodeData != nil && !(!is(src, "float64")) ==> decodeData.notes == old(decodeData.notes) && len(decodeData.notes[keyName]) == L
ensures notesKept(decodeData, old(decodeData.notes), decodeData.notes == old(decodeData.notes) || fresh(decodeData.notes) && old(decodeData.notes) == nil)
ensures decodeData != nil ==> forallk(q, "string", len(decodeData.notes[q]) >= old(ite(decodeData.notes == nil, 0, len(decodeData.notes[q]))))
ensures [C18 nothing else is stored to] V != id(dst) ==> g.rvN[V] == old(g.rvN[V]) && g.rvFloat[V] == old(g.rvFloat[V])
modifies g.rvN, g.rvFloat, decodeData.notes, decodeData.notes[*]

func (*rdap.Decoder).decodeString
requires this != nil && true
ghost V int
letold N0 = g.rvN[id(dst)]
letold L = ite(decodeData == nil || decodeData.notes == nil, 0, len(decodeData.notes[keyName]))
let f = as(src, "float64")
let t = as(src, "string")
let fits = isScalar(src)
let val = ite(is(src, "bool"), pure("strconv.FormatBool", 0, as(src, "bool")), ite(is(src, "float64"), pure("strconv.FormatFloat", 0, f, 102, 0-1, 64), ite(is(src, "string"), t, "")))
ensures [C18 stored when it can be represented] result <==> fits
ensures [C18 the exact value] result ==> g.rvString[id(dst)] == val && g.rvN[id(dst)] == N0 + 1
ensures [C18 zero otherwise] !result ==> g.rvString[id(dst)] == "" && g.rvN[id(dst)] == N0 + 1
ensures [C18 a note for every conversion] decodeData != nil && !is(src, "string") ==> len(decodeData.notes[keyName]) > L
ensures [C18 no note for a value of the field's kind] decodeData != nil && !(!is(src, "string")) ==> decodeData.notes == old(decodeData.notes) && len(decodeData.notes[keyName]) == L
ensures notesKept(decodeData, old(decodeData.notes), decodeData.notes == old(decodeData.notes) || fresh(decodeData.notes) && old(decodeData.notes) == nil)
ensures decodeData != nil ==> forallk(q, "string", len(decodeData.notes[q]) >= old(ite(decodeData.notes == nil, 0, len(decodeData.notes[q]))))
ensures [C18 nothing else is stored to] V != id(dst) ==> g.rvN[V] == old(g.rvN[V]) && g.rvString[V] == old(g.rvString[V])
modifies g.rvN, g.rvString, decodeData.notes, decodeData.notes[*]

func (*rdap.Decoder).decodeBool
requires this != nil && true
ghost V int
letold N0 = g.rvN[id(dst)]
letold L = ite(decodeData == nil || decodeData.notes == nil, 0, len(decodeData.notes[keyName]))
let f = as(src, "float64")
let t = as(src, "string")
let fits = fitsBool(src)
let val = ite(is(src, "bool"), as(src, "bool"), ite(is(src, "float64"), f != 0.0, is(src, "string") && pure("strconv.ParseBool", 0, t)))
ensures [C18 stored when it can be represented] result <==> fits
ensures [C18 the exact value] result ==> g.rvBool[id(dst)] == val && g.rvN[id(dst)] == N0 + 1
ensures [C18 zero otherwise] !result ==> g.rvBool[id(dst)] == false && g.rvN[id(dst)] == N0 + 1
ensures [C18 a note for every conversion] decodeData != nil && !is(src, "bool") ==> len(decodeData.notes[keyName]) > L
ensures [C18 no note for a value of the field's kind] decodeData != nil && !(!is(src, "bool")) ==> decodeData.notes == old(decodeData.notes) && len(decodeData.notes[keyName]) == L
ensures notesKept(decodeData, old(decodeData.notes), decodeData.notes == old(decodeData.notes) || fresh(decodeData.notes) && old(decodeData.notes) == nil)
ensures decodeData != nil ==> forallk(q, "string", len(decodeData.notes[q]) >= old(ite(decodeData.notes == nil, 0, len(decodeData.notes[q]))))
ensures [C18 nothing else is stored to] V != id(dst) ==> g.rvN[V] == old(g.rvN[V]) && g.rvBool[V] == old(g.rvBool[V])
modifies g.rvN, g.rvBool, decodeData.notes, decodeData.notes[*]


props C19

// the decode plan of a struct type (reflection over struct fields and tags): assumed
extern rdap.structPlanFor
ensures result != nil
ensures forallk(k, "string", has(result.fieldIndex, k) <==> has(result.knownFields, k))
ensures forallk(k, "string", has(result.fieldIndex, k) ==> rtok(uf("rt.field", "int", id(t), id(result.fieldIndex[k]))) && id(result.fieldIndex[k]) != id(result.decodeDataIndex))
ensures forallk(k, "string", has(result.fieldIndex, k) ==> uf("path.name", "string", id(result.fieldIndex[k])) == k)
modifies nothing

// a variable that is not inside d
define outside(v int, d int) bool = rvroot(v) != rvroot(d) || rvdepth(v) <= rvdepth(d)

func (*rdap.Decoder).decode
requires this != nil && rtok(rvtype(id(dst))) && allocated(rvroot(id(dst)))
set g.rvFrom[id(dst)] := src
letold L = ite(decodeData == nil || decodeData.notes == nil, 0, len(decodeData.notes[keyName]))
letold M0 = decodeData.notes
letold DD = decodeData
letold DST = id(dst)
letold JS = src
letold KEY = keyName
letold FROM = g.rvFrom
letold RV = g.rv
ensures [C19 no field content is an error] r1 == nil
ensures [C19 decoded exactly when the value can be stored] r0 <==> okV(src, rvtype(id(dst)))
ensures [C19 a note when it cannot] DD != nil && !r0 ==> len(DD.notes[KEY]) > L
ensures notesKept(DD, M0, DD.notes == M0 || fresh(DD.notes) && M0 == nil)
ensures DD != nil ==> forallk(q, "string", len(DD.notes[q]) >= old(ite(DD.notes == nil, 0, len(DD.notes[q]))))
ensures [C19 decoded from the value] g.rvFrom[DST] == JS
ensures [C19 nothing outside the variable is decoded into] forallk(v, "int", !fresh(rvroot(v)) && v != DST && outside(v, DST) ==> g.rvFrom[v] == FROM[v])
ensures [C19 nothing outside the variable is stored to] forallk(v, "int", !fresh(rvroot(v)) && v != DST && outside(v, DST) ==> g.rv[v] == RV[v])
modifies g.copyOf, g.rvN, g.rvUint, g.rvInt, g.rvFloat, g.rvString, g.rvBool, g.rv, g.rvFrom, decodeData.notes, decodeData.notes[*]

func (*rdap.Decoder).decodePtr
requires this != nil && rtok(rvtype(id(dst))) && allocated(rvroot(id(dst))) && kd(id(dst)) == 22
letold L = ite(decodeData == nil || decodeData.notes == nil, 0, len(decodeData.notes[keyName]))
letold M0 = decodeData.notes
letold DD = decodeData
letold DST = id(dst)
letold JS = src
letold KEY = keyName
letold FROM = g.rvFrom
letold RV = g.rv
ensures [C19 no field content is an error] r1 == nil
ensures [C19 decoded exactly when the value can be stored] r0 <==> okV(src, rvtype(id(dst)))
ensures [C19 a note when it cannot] DD != nil && !r0 ==> len(DD.notes[KEY]) > L
ensures notesKept(DD, M0, DD.notes == M0 || fresh(DD.notes) && M0 == nil)
ensures DD != nil ==> forallk(q, "string", len(DD.notes[q]) >= old(ite(DD.notes == nil, 0, len(DD.notes[q]))))
ensures [C19 nothing outside the variable is decoded into] forallk(v, "int", !fresh(rvroot(v)) && outside(v, DST) ==> g.rvFrom[v] == FROM[v])
ensures [C19 nothing outside the variable is stored to] forallk(v, "int", !fresh(rvroot(v)) && v != DST && outside(v, DST) ==> g.rv[v] == RV[v])
modifies g.copyOf, g.rvN, g.rvUint, g.rvInt, g.rvFloat, g.rvString, g.rvBool, g.rv, g.rvFrom, decodeData.notes, decodeData.notes[*]

func (*rdap.Decoder).decodeSlice
requires this != nil && rtok(rvtype(id(dst))) && allocated(rvroot(id(dst))) && kd(id(dst)) == 23
ghost J int
letold L = ite(decodeData == nil || decodeData.notes == nil, 0, len(decodeData.notes[keyName]))
letold M0 = decodeData.notes
letold DD = decodeData
letold DST = id(dst)
letold JS = src
letold KEY = keyName
letold FROM = g.rvFrom
letold RV = g.rv
ensures [C19 no field content is an error] r1 == nil
ensures [C19 decoded exactly when the value can be stored] r0 <==> okV(src, rvtype(id(dst)))
ensures [C19 a note when it cannot] DD != nil && !r0 ==> len(DD.notes[KEY]) > L
ensures notesKept(DD, M0, DD.notes == M0 || fresh(DD.notes) && M0 == nil)
ensures DD != nil ==> forallk(q, "string", len(DD.notes[q]) >= old(ite(DD.notes == nil, 0, len(DD.notes[q]))))
ensures [C19 an array keeps exactly the decodable elements] r0 ==> rslen(g.rv[DST]) == nOK(as(JS, "[]any"), len(as(JS, "[]any")), elemof(rvtype(DST)))
ensures [C19 in order] r0 && 0 <= J && J < len(as(JS, "[]any")) && okV(as(JS, "[]any")[J], elemof(rvtype(DST))) ==> g.rvFrom[rsat(g.rv[DST], nOK(as(JS, "[]any"), J, elemof(rvtype(DST))))] == as(JS, "[]any")[J]
ensures [C19 nothing outside the variable is decoded into] forallk(v, "int", !fresh(rvroot(v)) && outside(v, DST) ==> g.rvFrom[v] == FROM[v])
ensures [C19 nothing outside the variable is stored to] forallk(v, "int", !fresh(rvroot(v)) && v != DST && outside(v, DST) ==> g.rv[v] == RV[v])
modifies g.copyOf, g.rvN, g.rvUint, g.rvInt, g.rvFloat, g.rvString, g.rvBool, g.rv, g.rvFrom, decodeData.notes, decodeData.notes[*]
loop {d :*Decoder} DD != nil ==> DD.isKnown == old(DD.isKnown) && DD.values == old(DD.values) && DD.overrideKnownValue == old(DD.overrideKnownValue)
loop {d :*Decoder} notesKept(DD, M0, DD.notes == M0 || fresh(DD.notes) && M0 == nil)
loop {d :*Decoder} DD != nil ==> forallk(q, "string", len(DD.notes[q]) >= old(ite(DD.notes == nil, 0, len(DD.notes[q]))))
loop {d :*Decoder} forallk(v, "int", !fresh(rvroot(v)) && outside(v, DST) ==> g.rvFrom[v] == FROM[v])
loop {d :*Decoder} forallk(v, "int", !fresh(rvroot(v)) && outside(v, DST) ==> g.rv[v] == RV[v])
loop {i int, r reflect.Value} rslen(id(r)) == nOK(as(JS, "[]any"), i, elemof(rvtype(DST)))
loop {i int, r reflect.Value} 0 <= J && J < i && okV(as(JS, "[]any")[J], elemof(rvtype(DST))) ==> nOK(as(JS, "[]any"), J, elemof(rvtype(DST))) < nOK(as(JS, "[]any"), i, elemof(rvtype(DST))) && fresh(rvroot(rsat(id(r), nOK(as(JS, "[]any"), J, elemof(rvtype(DST)))))) && allocated(rvroot(rsat(id(r), nOK(as(JS, "[]any"), J, elemof(rvtype(DST)))))) && rvroot(rsat(id(r), nOK(as(JS, "[]any"), J, elemof(rvtype(DST))))) != rvroot(DST)
loop {i int, r reflect.Value} 0 <= J && J < i && okV(as(JS, "[]any")[J], elemof(rvtype(DST))) ==> g.rvFrom[rsat(id(r), nOK(as(JS, "[]any"), J, elemof(rvtype(DST))))] == as(JS, "[]any")[J]

func (*rdap.Decoder).decodeMap
requires this != nil && rtok(rvtype(id(dst))) && allocated(rvroot(id(dst))) && kd(id(dst)) == 21
ghost J string
letold L = ite(decodeData == nil || decodeData.notes == nil, 0, len(decodeData.notes[keyName]))
letold M0 = decodeData.notes
letold DD = decodeData
letold DST = id(dst)
letold JS = src
letold KEY = keyName
letold FROM = g.rvFrom
letold RV = g.rv
ensures [C19 no field content is an error] r1 == nil
ensures [C19 decoded exactly when the value can be stored] r0 <==> okV(src, rvtype(id(dst)))
ensures [C19 a note when it cannot] DD != nil && !r0 ==> len(DD.notes[KEY]) > L
ensures notesKept(DD, M0, DD.notes == M0 || fresh(DD.notes) && M0 == nil)
ensures DD != nil ==> forallk(q, "string", len(DD.notes[q]) >= old(ite(DD.notes == nil, 0, len(DD.notes[q]))))
ensures [C19 a map keeps exactly the decodable members] r0 ==> (rmat(g.rv[DST], J) != 0 <==> has(as(JS, "map[string]any"), J) && okV(as(JS, "map[string]any")[J], elemof(rvtype(DST))))
ensures [C19 each under its name] r0 && rmat(g.rv[DST], J) != 0 ==> g.rvFrom[rmat(g.rv[DST], J)] == as(JS, "map[string]any")[J]
ensures [C19 nothing outside the variable is decoded into] forallk(v, "int", !fresh(rvroot(v)) && outside(v, DST) ==> g.rvFrom[v] == FROM[v])
ensures [C19 nothing outside the variable is stored to] forallk(v, "int", !fresh(rvroot(v)) && v != DST && outside(v, DST) ==> g.rv[v] == RV[v])
modifies g.copyOf, g.rvN, g.rvUint, g.rvInt, g.rvFloat, g.rvString, g.rvBool, g.rv, g.rvFrom, decodeData.notes, decodeData.notes[*]
loop {d :*Decoder} DD != nil ==> DD.isKnown == old(DD.isKnown) && DD.values == old(DD.values) && DD.overrideKnownValue == old(DD.overrideKnownValue)
loop {d :*Decoder} notesKept(DD, M0, DD.notes == M0 || fresh(DD.notes) && M0 == nil)
loop {d :*Decoder} DD != nil ==> forallk(q, "string", len(DD.notes[q]) >= old(ite(DD.notes == nil, 0, len(DD.notes[q]))))
loop {d :*Decoder} forallk(v, "int", !fresh(rvroot(v)) && outside(v, DST) ==> g.rvFrom[v] == FROM[v])
loop {d :*Decoder} forallk(v, "int", !fresh(rvroot(v)) && outside(v, DST) ==> g.rv[v] == RV[v])
loop {d :*Decoder} visited(J) ==> has(as(JS, "map[string]any"), J)
loop {r :reflect.Value} rmat(id(r), J) != 0 <==> visited(J) && okV(as(JS, "map[string]any")[J], elemof(rvtype(DST)))
loop {r :reflect.Value} rmat(id(r), J) != 0 ==> fresh(rvroot(rmat(id(r), J))) && allocated(rvroot(rmat(id(r), J))) && rvroot(rmat(id(r), J)) != rvroot(DST)
loop {r :reflect.Value} rmat(id(r), J) != 0 ==> g.rvFrom[rmat(id(r), J)] == as(JS, "map[string]any")[J]

func (*rdap.Decoder).decodeStruct
requires this != nil && rtok(rvtype(id(dst))) && allocated(rvroot(id(dst))) && kd(id(dst)) == 25
ghost K string
letold L = ite(decodeData == nil || decodeData.notes == nil, 0, len(decodeData.notes[keyName]))
letold M0 = decodeData.notes
letold DD = decodeData
letold DST = id(dst)
letold JS = src
letold KEY = keyName
letold FROM = g.rvFrom
letold RV = g.rv
ensures [C19 no field content is an error] r1 == nil
ensures [C19 decoded exactly when the value can be stored] r0 <==> okV(src, rvtype(id(dst)))
ensures [C19 a note when it cannot] DD != nil && !r0 ==> len(DD.notes[KEY]) > L
ensures notesKept(DD, M0, DD.notes == M0 || fresh(DD.notes) && M0 == nil)
ensures DD != nil ==> forallk(q, "string", len(DD.notes[q]) >= old(ite(DD.notes == nil, 0, len(DD.notes[q]))))
ensures [C19 every known member is decoded into its field] r0 && has(as(JS, "map[string]any"), K) && has(ret("rdap.structPlanFor", 0).fieldIndex, K) ==> g.rvFrom[rvfield(DST, ret("rdap.structPlanFor", 0).fieldIndex[K])] == as(JS, "map[string]any")[K]
ensures [C19 every member is kept raw] r0 && ret("rdap.structPlanFor", 0).decodeDataIndex != nil ==> as(rvval(g.rv[rvfield(DST, ret("rdap.structPlanFor", 0).decodeDataIndex)]), "*DecodeData") != nil && as(rvval(g.rv[rvfield(DST, ret("rdap.structPlanFor", 0).decodeDataIndex)]), "*DecodeData").values == as(JS, "map[string]any") && as(rvval(g.rv[rvfield(DST, ret("rdap.structPlanFor", 0).decodeDataIndex)]), "*DecodeData").isKnown == ret("rdap.structPlanFor", 0).knownFields
ensures [C19 nothing outside the variable is decoded into] forallk(v, "int", !fresh(rvroot(v)) && outside(v, DST) ==> g.rvFrom[v] == FROM[v])
ensures [C19 nothing outside the variable is stored to] forallk(v, "int", !fresh(rvroot(v)) && v != DST && outside(v, DST) ==> g.rv[v] == RV[v])
modifies g.copyOf, g.rvN, g.rvUint, g.rvInt, g.rvFloat, g.rvString, g.rvBool, g.rv, g.rvFrom, decodeData.notes, decodeData.notes[*]
loop {d :*Decoder} DD != nil ==> DD.isKnown == old(DD.isKnown) && DD.values == old(DD.values) && DD.overrideKnownValue == old(DD.overrideKnownValue)
loop {d :*Decoder} notesKept(DD, M0, DD.notes == M0 || fresh(DD.notes) && M0 == nil)
loop {d :*Decoder} DD != nil ==> forallk(q, "string", len(DD.notes[q]) >= old(ite(DD.notes == nil, 0, len(DD.notes[q]))))
loop {d :*Decoder} forallk(v, "int", !fresh(rvroot(v)) && outside(v, DST) ==> g.rvFrom[v] == FROM[v])
loop {d :*Decoder} forallk(v, "int", !fresh(rvroot(v)) && outside(v, DST) ==> g.rv[v] == RV[v])
loop {m :*DecodeData} fresh(m) ==> m.notes == nil || fresh(m.notes)
loop {m :*DecodeData} fresh(m) ==> m.values == as(JS, "map[string]any")
loop {m :*DecodeData} fresh(m) ==> m.isKnown == pre(m.isKnown)
loop {m :*DecodeData, p :*structPlan} p.decodeDataIndex != nil ==> fresh(m) && rvval(g.rv[rvfield(DST, p.decodeDataIndex)]) == box(m, "*DecodeData")
loop {p :*structPlan} visited(K) && has(p.fieldIndex, K) ==> g.rvFrom[rvfield(DST, p.fieldIndex[K])] == as(JS, "map[string]any")[K]

func (*rdap.DecodeData).Value
requires this != nil
ensures [C19 a member's raw value by name] result == ite(has(this.values, name), this.values[name], nil)
modifies nothing

func (*rdap.DecodeData).Notes
requires this != nil
ensures [C19 the notes on a member] has(this.notes, name) ==> result == this.notes[name]
ensures !has(this.notes, name) ==> result == nil
modifies nothing

func (*rdap.DecodeData).Fields
requires this != nil
ghost K string
ensures [C19 every member is listed] has(this.values, K) ==> exists(i, 0, len(result), result[i] == K)
ensures [C19 only members are listed] forall(i, 0, len(result), has(this.values, result[i]))
modifies nothing
loop {o []string} visited(K) ==> exists(i, 0, len(o), o[i] == K)
loop {o []string} forall(i, 0, len(o), has(this.values, o[i]))

func (*rdap.DecodeData).UnknownFields
requires this != nil
ghost K string
ensures [C19 exactly the members no field accepts are listed] has(this.values, K) && !has(this.isKnown, K) ==> exists(i, 0, len(result), result[i] == K)
ensures [C19 only those] forall(i, 0, len(result), has(this.values, result[i]) && !has(this.isKnown, result[i]))
modifies nothing
loop {o []string} visited(K) && !has(this.isKnown, K) ==> exists(i, 0, len(o), o[i] == K)
loop {o []string} forall(i, 0, len(o), has(this.values, o[i]) && !has(this.isKnown, o[i]))

props C17

// what a document asks to be decoded as
define docMap(doc string) map[string]any = jsonfield(doc, "", "map[string]any")
define knownClass(c string) bool = c == "autnum" || c == "domain" || c == "entity" || c == "ip network" || c == "nameserver"
define classOK(m map[string]any) bool = has(m, "errorCode") || !has(m, "objectClassName") || (is(m["objectClassName"], "string") && knownClass(as(m["objectClassName"], "string")))
define plain(m map[string]any) bool = !has(m, "errorCode") && !has(m, "objectClassName")
define ofClass(m map[string]any, c string) bool = !has(m, "errorCode") && has(m, "objectClassName") && is(m["objectClassName"], "string") && as(m["objectClassName"], "string") == c
define rightType(o any, m map[string]any) bool = (has(m, "errorCode") ==> is(o, "*Error")) && (ofClass(m, "autnum") ==> is(o, "*Autnum")) && (ofClass(m, "domain") ==> is(o, "*Domain")) && (ofClass(m, "entity") ==> is(o, "*Entity")) && (ofClass(m, "ip network") ==> is(o, "*IPNetwork")) && (ofClass(m, "nameserver") ==> is(o, "*Nameserver"))
|  && (plain(m) && has(m, "domainSearchResults") ==> is(o, "*DomainSearchResults")) && (plain(m) && !has(m, "domainSearchResults") && has(m, "entitySearchResults") ==> is(o, "*EntitySearchResults")) && (plain(m) && !has(m, "domainSearchResults") && !has(m, "entitySearchResults") && has(m, "nameserverSearchResults") ==> is(o, "*NameserverSearchResults"))
|  && (plain(m) && !has(m, "domainSearchResults") && !has(m, "entitySearchResults") && !has(m, "nameserverSearchResults") ==> is(o, "*Help"))

func (*rdap.Decoder).decodeTopLevel
requires this != nil && this.target == nil
letold SRC = src
letold OK = classOK(src)
ensures [C17 rejected exactly for an unrecognised class] err == nil <==> OK
ensures [C17 no result when rejected] err != nil ==> result == nil
ensures [C17 the type follows the markers] err == nil ==> result != nil && as(result, "*Error") != nil && rightType(result, SRC)
modifies this.target, g.copyOf, g.rvN, g.rvUint, g.rvInt, g.rvFloat, g.rvString, g.rvBool, g.rv, g.rvFrom

opaque decOK(doc string) bool = !jsonerr(doc, "map[string]any") && classOK(docMap(doc))

func (*rdap.Decoder).Decode
option reveal:decOK
requires this != nil && this.target == nil
letold DOC = str(this.data)
letold M = docMap(DOC)
ensures [C17 rejected exactly when not a JSON object of a known class] err == nil <==> decOK(DOC)
ensures [C17 no result when rejected] err != nil ==> result == nil
ensures [C17 a decoded object] err == nil ==> result != nil && (is(result, "*Error") ==> as(result, "*Error") != nil)
ensures [C17 the type follows the markers] err == nil ==> rightType(result, M)
modifies this.target, g.copyOf, g.rvN, g.rvUint, g.rvInt, g.rvFloat, g.rvString, g.rvBool, g.rv, g.rvFrom
