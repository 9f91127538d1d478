package rdap

props C24

// Response.ToWhoisStyleResponse itself is not under contract: its loops over the four
// lists with ten contact keys per call are beyond the engine; the harness checks it.

// how many values a key has
define nVal(w *WhoisStyleResponse, k string) int = ite(has(w.Data, k), len(w.Data[k]), 0)
// (instance I, J, K of:) keys are listed once, each listed key has a non-empty list of
// non-empty values, and every key that has values is listed
define wfW(w *WhoisStyleResponse, I int, J int, K string) bool = w != nil && w.Data != nil && (0 <= I && I < len(w.KeyDisplayOrder) ==> has(w.Data, w.KeyDisplayOrder[I]))
|  && (0 <= I && I < J && J < len(w.KeyDisplayOrder) ==> w.KeyDisplayOrder[I] != w.KeyDisplayOrder[J])
|  && (has(w.Data, K) ==> len(w.Data[K]) > 0 && 0 <= g.keyPos[K] && g.keyPos[K] < len(w.KeyDisplayOrder) && w.KeyDisplayOrder[g.keyPos[K]] == K)
|  && (has(w.Data, K) && 0 <= J && J < len(w.Data[K]) ==> w.Data[K][J] != "") && (has(w.Data, K) ==> w.Data[K][0] == g.firstV[K])

func (*rdap.WhoisStyleResponse).add
ghost I int
ghost J int
ghost K string
requires wfW(this, I, J, K)
letold LEN0 = nVal(this, key)
letold ORD = this.KeyDisplayOrder
letold KP = g.keyPos
letold FV = g.firstV
letold NEW = value != "" && !has(this.Data, key)
letold DAT = this.Data[key]
setend g.keyPos[ite(value != "" && LEN0 == 0, key, "")] := ite(value != "" && LEN0 == 0, len(ORD), KP[""])
setend g.firstV[ite(NEW, key, "")] := ite(NEW, value, FV[""])
ensures [C24 the first value of a new key] NEW ==> g.firstV[key] == value
ensures [C24 the first value stays] forallk(q, "string", q != key || !NEW ==> g.firstV[q] == FV[q])
ensures [C24 keys once, in order of first use, with non-empty values] wfW(this, I, J, K)
ensures [C24 an empty value adds nothing] value == "" ==> this.KeyDisplayOrder == ORD
ensures [C24 the value comes after those the key has] value != "" ==> has(this.Data, key) && len(this.Data[key]) == LEN0 + 1 && this.Data[key][LEN0] == value
ensures [C24 which stay] value != "" ==> forall(q, 0, LEN0, this.Data[key][q] == DAT[q])
ensures [C24 a new key comes last] this.KeyDisplayOrder == ORD || len(this.KeyDisplayOrder) == len(ORD) + 1 && this.KeyDisplayOrder[len(ORD)] == key
ensures [C24 the order of the others stays] len(ORD) <= len(this.KeyDisplayOrder) && (0 <= I && I < len(ORD) ==> this.KeyDisplayOrder[I] == ORD[I])
ensures [C24 other keys keep their values] forallk(q, "string", q != key || value == "" ==> (has(this.Data, q) <==> old(has(this.Data, q))) && this.Data[q] == old(this.Data[q]))
modifies this.KeyDisplayOrder, this.Data[*], g.keyPos, g.firstV

func rdap.newWhoisStyleResponse
ghost I int
ghost J int
ghost K string
ensures [C24 empty] result != nil && fresh(result) && result.Data != nil && fresh(result.Data) && len(result.KeyDisplayOrder) == 0
ensures forallk(q, "string", !has(result.Data, q))
modifies nothing

define hasRole(e Entity, role string) bool = exists(t, 0, len(e.Roles), e.Roles[t] == role)
recursive firstEnt(l []Entity, i int, role string) int = ite(i >= len(l), len(l), ite(hasRole(l[i], role), i, firstEnt(l, i+1, role)))

func rdap.findFirstEntity
letold L = entities
letold FE = firstEnt(entities, 0, role)
ensures [C24 nothing when no entity has the role] result == nil <==> FE >= len(L)
ensures 0 <= FE && FE <= len(L)
ensures [C24 the first entity holding the role] result != nil ==> result.VCard == L[FE].VCard && result.PublicIDs == L[FE].PublicIDs
modifies nothing
loop {i int} FE == firstEnt(L, i, role)
loop {i int} 0 <= i && i <= len(L)
loop {j int, i :int} 0 <= i && i < len(L) && 0 <= j && j <= len(L[i].Roles) && forall(t, 0, j, L[i].Roles[t] != role)

// contact fields
define one(w *WhoisStyleResponse, k string, v string) bool = (v == "" ==> !has(w.Data, k)) && (v != "" ==> has(w.Data, k)) && (v != "" ==> len(w.Data[k]) == 1) && (v != "" ==> g.firstV[k] == v)
define contactKey(t string, q string) bool = q == t + " Name" || q == t + " PO Box" || q == t + " Extended Address" || q == t + " Street" || q == t + " Locality" || q == t + " Post Code" || q == t + " Country" || q == t + " Tel" || q == t + " Fax" || q == t + " Email"
define okCard(e *Entity) bool = e != nil && e.VCard != nil ==> cardV(e.VCard)

func rdap.addEntityFields
ghost I int
ghost J int
ghost K string
use (*rdap.WhoisStyleResponse).add :: keys once; the value comes after; order of the others; other keys keep; first value
requires wfW(w, I, J, K) && okCard(e)
requires !has(w.Data, t + " Name") && !has(w.Data, t + " PO Box") && !has(w.Data, t + " Extended Address") && !has(w.Data, t + " Street") && !has(w.Data, t + " Locality") && !has(w.Data, t + " Post Code") && !has(w.Data, t + " Country") && !has(w.Data, t + " Tel") && !has(w.Data, t + " Fax") && !has(w.Data, t + " Email")
letold ORD = w.KeyDisplayOrder
letold CARD = ite(e != nil, id(e.VCard), 0)
setend g.whoisC[t] := CARD
setend g.whoisV[t + " Name"] := ite(CARD == 0, "", g.accV["Name"])
setend g.whoisV[t + " PO Box"] := ite(CARD == 0, "", g.accV["POBox"])
setend g.whoisV[t + " Extended Address"] := ite(CARD == 0, "", g.accV["ExtendedAddress"])
setend g.whoisV[t + " Street"] := ite(CARD == 0, "", g.accV["StreetAddress"])
setend g.whoisV[t + " Locality"] := ite(CARD == 0, "", g.accV["Locality"])
setend g.whoisV[t + " Post Code"] := ite(CARD == 0, "", g.accV["PostalCode"])
setend g.whoisV[t + " Country"] := ite(CARD == 0, "", g.accV["Country"])
setend g.whoisV[t + " Tel"] := ite(CARD == 0, "", g.accV["Tel"])
setend g.whoisV[t + " Fax"] := ite(CARD == 0, "", g.accV["Fax"])
setend g.whoisV[t + " Email"] := ite(CARD == 0, "", g.accV["Email"])
ensures [C24 keys once, in order of first use, with non-empty values] wfW(w, I, J, K)
ensures [C24 the contact is the given entity's card] g.whoisC[t] == CARD
ensures [C24 Name: what the card says, if anything] one(w, t + " Name", g.whoisV[t + " Name"])
ensures [C24 Name: of that card] CARD != 0 ==> g.whoisV[t + " Name"] == g.accV["Name"] && g.accC["Name"] == CARD
ensures [C24 PO Box: what the card says, if anything] one(w, t + " PO Box", g.whoisV[t + " PO Box"])
ensures [C24 PO Box: of that card] CARD != 0 ==> g.whoisV[t + " PO Box"] == g.accV["POBox"] && g.accC["POBox"] == CARD
ensures [C24 Extended Address: what the card says, if anything] one(w, t + " Extended Address", g.whoisV[t + " Extended Address"])
ensures [C24 Extended Address: of that card] CARD != 0 ==> g.whoisV[t + " Extended Address"] == g.accV["ExtendedAddress"] && g.accC["ExtendedAddress"] == CARD
ensures [C24 Street: what the card says, if anything] one(w, t + " Street", g.whoisV[t + " Street"])
ensures [C24 Street: of that card] CARD != 0 ==> g.whoisV[t + " Street"] == g.accV["StreetAddress"] && g.accC["StreetAddress"] == CARD
ensures [C24 Locality: what the card says, if anything] one(w, t + " Locality", g.whoisV[t + " Locality"])
ensures [C24 Locality: of that card] CARD != 0 ==> g.whoisV[t + " Locality"] == g.accV["Locality"] && g.accC["Locality"] == CARD
ensures [C24 Post Code: what the card says, if anything] one(w, t + " Post Code", g.whoisV[t + " Post Code"])
ensures [C24 Post Code: of that card] CARD != 0 ==> g.whoisV[t + " Post Code"] == g.accV["PostalCode"] && g.accC["PostalCode"] == CARD
ensures [C24 Country: what the card says, if anything] one(w, t + " Country", g.whoisV[t + " Country"])
ensures [C24 Country: of that card] CARD != 0 ==> g.whoisV[t + " Country"] == g.accV["Country"] && g.accC["Country"] == CARD
ensures [C24 Tel: what the card says, if anything] one(w, t + " Tel", g.whoisV[t + " Tel"])
ensures [C24 Tel: of that card] CARD != 0 ==> g.whoisV[t + " Tel"] == g.accV["Tel"] && g.accC["Tel"] == CARD
ensures [C24 Fax: what the card says, if anything] one(w, t + " Fax", g.whoisV[t + " Fax"])
ensures [C24 Fax: of that card] CARD != 0 ==> g.whoisV[t + " Fax"] == g.accV["Fax"] && g.accC["Fax"] == CARD
ensures [C24 Email: what the card says, if anything] one(w, t + " Email", g.whoisV[t + " Email"])
ensures [C24 Email: of that card] CARD != 0 ==> g.whoisV[t + " Email"] == g.accV["Email"] && g.accC["Email"] == CARD
ensures CARD == 0 ==> g.whoisV[t + " Name"] == "" && g.whoisV[t + " PO Box"] == "" && g.whoisV[t + " Extended Address"] == "" && g.whoisV[t + " Street"] == "" && g.whoisV[t + " Locality"] == "" && g.whoisV[t + " Post Code"] == "" && g.whoisV[t + " Country"] == "" && g.whoisV[t + " Tel"] == "" && g.whoisV[t + " Fax"] == "" && g.whoisV[t + " Email"] == ""
ensures [C24 other keys keep their values] forallk(q, "string", !contactKey(t, q) ==> (has(w.Data, q) <==> old(has(w.Data, q))) && w.Data[q] == old(w.Data[q]))
ensures [C24 the order of the others stays] len(ORD) <= len(w.KeyDisplayOrder) && (0 <= I && I < len(ORD) ==> w.KeyDisplayOrder[I] == ORD[I])
ensures forallk(q, "string", q != t ==> g.whoisC[q] == old(g.whoisC[q]))
ensures forallk(q, "string", !contactKey(t, q) ==> g.whoisV[q] == old(g.whoisV[q]))
modifies w.KeyDisplayOrder, w.Data[*], g.keyPos, g.firstV, g.accV, g.accC, g.whoisV, g.whoisC
