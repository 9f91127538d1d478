package zzverif

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/openrdap/rdap"
)

// rdapNames: the RDAP member names of each type and the Go fields they belong
// to (RFC 9083 names; "Common.Lang" is promoted).
var rdapNames = map[string]string{
	"Autnum":                  "lang:Lang rdapConformance:Conformance objectClassName:ObjectClassName notices:Notices handle:Handle startAutnum:StartAutnum endAutnum:EndAutnum ipVersion:IPVersion name:Name type:Type status:Status country:Country entities:Entities remarks:Remarks links:Links port43:Port43 events:Events",
	"Link":                    "value:Value rel:Rel href:Href hreflang:HrefLang title:Title media:Media type:Type",
	"Notice":                  "title:Title type:Type description:Description links:Links",
	"Remark":                  "title:Title type:Type description:Description links:Links",
	"Event":                   "eventAction:Action eventActor:Actor eventDate:Date links:Links",
	"PublicID":                "type:Type identifier:Identifier",
	"Domain":                  "lang:Lang rdapConformance:Conformance objectClassName:ObjectClassName notices:Notices handle:Handle ldhName:LDHName unicodeName:UnicodeName variants:Variants nameservers:Nameservers secureDNS:SecureDNS entities:Entities status:Status publicIds:PublicIDs remarks:Remarks links:Links port43:Port43 events:Events network:Network",
	"Variant":                 "lang:Lang relation:Relation idnTable:IDNTable variantNames:VariantNames",
	"VariantName":             "lang:Lang ldhName:LDHName unicodeName:UnicodeName",
	"SecureDNS":               "lang:Lang zoneSigned:ZoneSigned delegationSigned:DelegationSigned maxSigLife:MaxSigLife dsData:DS keyData:Keys",
	"DSData":                  "lang:Lang keyTag:KeyTag algorithm:Algorithm digest:Digest digestType:DigestType events:Events links:Links",
	"KeyData":                 "flags:Flags protocol:Protocol algorithm:Algorithm publicKey:PublicKey events:Events links:Links",
	"Entity":                  "lang:Lang rdapConformance:Conformance objectClassName:ObjectClassName notices:Notices handle:Handle vcardArray:VCard roles:Roles publicIds:PublicIDs entities:Entities remarks:Remarks links:Links events:Events asEventActor:AsEventActor status:Status port43:Port43 networks:Networks autnums:Autnums",
	"Error":                   "lang:Lang rdapConformance:Conformance notices:Notices errorCode:ErrorCode title:Title description:Description",
	"Help":                    "lang:Lang rdapConformance:Conformance notices:Notices",
	"IPNetwork":               "lang:Lang rdapConformance:Conformance objectClassName:ObjectClassName notices:Notices handle:Handle startAddress:StartAddress endAddress:EndAddress ipVersion:IPVersion name:Name type:Type country:Country parentHandle:ParentHandle status:Status entities:Entities remarks:Remarks links:Links port43:Port43 events:Events",
	"Nameserver":              "lang:Lang rdapConformance:Conformance objectClassName:ObjectClassName notices:Notices handle:Handle ldhName:LDHName unicodeName:UnicodeName ipAddresses:IPAddresses entities:Entities status:Status remarks:Remarks links:Links port43:Port43 events:Events",
	"IPAddressSet":            "lang:Lang v6:V6 v4:V4",
	"DomainSearchResults":     "lang:Lang rdapConformance:Conformance notices:Notices domainSearchResults:Domains",
	"NameserverSearchResults": "lang:Lang rdapConformance:Conformance notices:Notices nameserverSearchResults:Nameservers",
	"EntitySearchResults":     "lang:Lang rdapConformance:Conformance notices:Notices entitySearchResults:Entities",
	"vTest":                   "a8:A8 a16:A16 a32:A32 a64:A64 u8:U8 u16:U16 u32:U32 u64:U64 f:F b:B s:S pI:PI pS:PS pB:PB lI:LI lU:LU lS:LS lB:LB lF:LF m:M mS:MS mL:ML nest:Nest nests:Nests inner:Inner tag-ged:Tagged deep:Deep deepest:Deepest",
	"vNest":                   "x:X y:Y next:Next",
}

// VDeepest is embedded twice removed.
type VDeepest struct{ Deepest uint16 }

// VEmb is embedded in vTest.
type VEmb struct {
	Deep int16
	VDeepest
}

type vNest struct {
	DecodeData *rdap.DecodeData
	X          int32
	Y          []string
	Next       *vNest
}

type vTest struct {
	DecodeData *rdap.DecodeData
	VEmb
	A8     int8
	A16    int16
	A32    int32
	A64    int64
	U8     uint8
	U16    uint16
	U32    uint32
	U64    uint64
	F      float64
	B      bool
	S      string
	PI     *int8
	PS     *string
	PB     *bool
	LI     []int8
	LU     []uint16
	LS     []string
	LB     []bool
	LF     []float64
	M      map[string]uint8
	MS     map[string]string
	ML     map[string][]string
	Nest   *vNest
	Nests  []vNest
	Inner  vNest
	Tagged string `rdap:"tag-ged"`
	hidden int
}

// decodeInto decodes a document into a harness type (nil when the build has
// no access to the decoder's target).
var decodeInto func(doc []byte, target any) (any, error)

func fieldsOf(t reflect.Type) map[string]string {
	s, ok := rdapNames[t.Name()]
	if !ok {
		panic("harness: no name table for " + t.Name())
	}
	m := map[string]string{}
	for _, p := range strings.Fields(s) {
		k, v, _ := strings.Cut(p, ":")
		m[k] = v
	}
	return m
}

var isVCard = reflect.TypeOf(&rdap.VCard{})

func intBounds(k reflect.Kind) (lo, hi *big.Int, ok bool) {
	one := big.NewInt(1)
	p := func(n uint) *big.Int { return new(big.Int).Lsh(one, n) }
	switch k {
	case reflect.Int8:
		return new(big.Int).Neg(p(7)), new(big.Int).Sub(p(7), one), true
	case reflect.Int16:
		return new(big.Int).Neg(p(15)), new(big.Int).Sub(p(15), one), true
	case reflect.Int32:
		return new(big.Int).Neg(p(31)), new(big.Int).Sub(p(31), one), true
	case reflect.Int64:
		return new(big.Int).Neg(p(63)), new(big.Int).Sub(p(63), one), true
	case reflect.Uint8:
		return new(big.Int), new(big.Int).Sub(p(8), one), true
	case reflect.Uint16:
		return new(big.Int), new(big.Int).Sub(p(16), one), true
	case reflect.Uint32:
		return new(big.Int), new(big.Int).Sub(p(32), one), true
	case reflect.Uint64:
		return new(big.Int), new(big.Int).Sub(p(64), one), true
	}
	return nil, nil, false
}

// refInt is the value of src in an integer field.
func refInt(src any, k reflect.Kind) (*big.Int, bool) {
	lo, hi, _ := intBounds(k)
	unsigned := lo.Sign() == 0
	var n *big.Int
	switch v := src.(type) {
	case nil:
		n = new(big.Int)
	case bool:
		n = new(big.Int)
		if v {
			n = big.NewInt(1)
		}
	case float64:
		if math.IsNaN(v) || math.IsInf(v, 0) || (unsigned && v < 0) {
			return nil, false
		}
		n, _ = new(big.Float).SetFloat64(v).Int(nil) // toward zero
	case string:
		s := v
		if !unsigned && (strings.HasPrefix(s, "+") || strings.HasPrefix(s, "-")) {
			s = s[1:]
		}
		if s == "" {
			return nil, false
		}
		for i := 0; i < len(s); i++ {
			if s[i] < '0' || s[i] > '9' {
				return nil, false
			}
		}
		n, _ = new(big.Int).SetString(s, 10)
		if strings.HasPrefix(v, "-") {
			n.Neg(n)
		}
	default:
		return nil, false
	}
	if n.Cmp(lo) < 0 || n.Cmp(hi) > 0 {
		return nil, false
	}
	return n, true
}

func refOK(src any, t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Pointer:
		if t == isVCard {
			_, ok := refVCard(src, false)
			return ok
		}
		return refOK(src, t.Elem())
	case reflect.Struct, reflect.Map:
		_, ok := src.(map[string]any)
		return ok
	case reflect.Slice:
		_, ok := src.([]any)
		return ok
	case reflect.String:
		switch src.(type) {
		case nil, bool, float64, string:
			return true
		}
		return false
	case reflect.Bool:
		switch v := src.(type) {
		case nil, bool, float64:
			return true
		case string:
			_, err := strconv.ParseBool(v)
			return err == nil
		}
		return false
	case reflect.Float64:
		switch v := src.(type) {
		case nil, bool, float64:
			return true
		case string:
			_, err := strconv.ParseFloat(v, 64)
			return err == nil
		}
		return false
	}
	_, ok := refInt(src, t.Kind())
	return ok
}

// ownKind: the value needs no conversion.
func ownKind(src any, t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Pointer:
		if t == isVCard {
			return refOK(src, t)
		}
		return ownKind(src, t.Elem())
	case reflect.String:
		_, ok := src.(string)
		return ok
	case reflect.Bool:
		_, ok := src.(bool)
		return ok
	case reflect.Float64:
		_, ok := src.(float64)
		return ok
	case reflect.Struct, reflect.Map, reflect.Slice:
		return refOK(src, t)
	}
	f, ok := src.(float64)
	return ok && f == math.Trunc(f) && refOK(src, t)
}

type decCheck struct {
	c *C
	// scalars/structure select which clauses are judged
	scalars, structure bool
	n                  int
}

func (d *decCheck) fail(scalar bool, f string, a ...any) {
	if scalar && d.scalars || !scalar && d.structure {
		d.c.failf(f, a...)
	}
}

// value compares one decoded value; notes(key) lists the notes of the
// enclosing object under key.
func (d *decCheck) value(path, key string, got reflect.Value, src any, notes func(string) []string) {
	t := got.Type()
	d.n++
	needNote := func(scalar bool) {
		if notes != nil && len(notes(key)) == 0 {
			d.fail(scalar, "%s: no note recorded for %s in a %s field", path, showJSON(src), t)
		}
	}
	ok := refOK(src, t)
	switch t.Kind() {
	case reflect.Pointer:
		if t == isVCard {
			want, ok := refVCard(src, false)
			if !ok {
				if !got.IsNil() {
					d.fail(false, "%s: a jCard that is not well formed was stored", path)
				}
				needNote(false)
				return
			}
			if got.IsNil() {
				d.fail(false, "%s: a well-formed jCard was not stored", path)
				return
			}
			if diff := sameVCard(got.Interface().(*rdap.VCard), want); diff != "" {
				d.fail(false, "%s: %s", path, diff)
			}
			return
		}
		scalar := t.Elem().Kind() != reflect.Struct
		if !ok || src == nil {
			if !got.IsNil() {
				if t.Elem().Kind() == reflect.Struct {
					// an empty object is tolerated
					if !isEmptyStruct(got.Elem()) {
						d.fail(false, "%s: not an object, but decoded to %#v", path, got.Elem().Interface())
					}
				} else if !got.Elem().IsZero() {
					d.fail(true, "%s: %s stored as %v", path, showJSON(src), got.Elem().Interface())
				}
			}
			needNote(scalar)
			return
		}
		if got.IsNil() {
			d.fail(scalar, "%s: %s was not stored", path, showJSON(src))
			return
		}
		d.value(path, key, got.Elem(), src, notes)
		return
	case reflect.Struct:
		m, isMap := src.(map[string]any)
		if !isMap {
			if !isEmptyStruct(got) {
				d.fail(false, "%s: not an object, but decoded to %#v", path, got.Interface())
			}
			needNote(false)
			return
		}
		d.object(path, got, m)
		return
	case reflect.Map:
		m, isMap := src.(map[string]any)
		if !isMap {
			if got.Len() != 0 {
				d.fail(false, "%s: not an object, but decoded to %v", path, got.Interface())
			}
			needNote(false)
			return
		}
		n := 0
		for k, v := range m {
			e := got.MapIndex(reflect.ValueOf(k))
			if !refOK(v, t.Elem()) {
				if e.IsValid() {
					d.fail(false, "%s: member %q is not decodable but was kept", path, k)
				}
				if notes != nil && len(notes(key+":"+k))+len(notes(key)) == 0 {
					d.fail(false, "%s: no note for member %q", path, k)
				}
				continue
			}
			n++
			if !e.IsValid() {
				d.fail(false, "%s: member %q was dropped", path, k)
				continue
			}
			d.value(path+"["+k+"]", key+":"+k, e, v, notes)
		}
		if got.Len() != n {
			d.fail(false, "%s: %d members, want %d", path, got.Len(), n)
		}
		return
	case reflect.Slice:
		a, isArr := src.([]any)
		if !isArr {
			if got.Len() != 0 {
				d.fail(false, "%s: not an array, but decoded to %v", path, got.Interface())
			}
			needNote(false)
			return
		}
		j := 0
		for i, v := range a {
			if !refOK(v, t.Elem()) {
				needNote(false)
				continue
			}
			if j >= got.Len() {
				d.fail(false, "%s: element %d (%s) was dropped", path, i, showJSON(v))
				return
			}
			d.value(fmt.Sprintf("%s[%d]", path, j), key, got.Index(j), v, notes)
			j++
		}
		if got.Len() != j {
			d.fail(false, "%s: %d elements, want %d", path, got.Len(), j)
		}
		return
	}
	// scalars
	if !ok {
		if !got.IsZero() {
			d.fail(true, "%s: %s cannot be represented in %s but %v was stored", path, showJSON(src), t, got.Interface())
		}
		needNote(true)
		return
	}
	if !ownKind(src, t) {
		needNote(true)
	}
	switch t.Kind() {
	case reflect.String:
		want := ""
		switch v := src.(type) {
		case string:
			want = v
		case bool:
			want = fmt.Sprint(v)
		case float64:
			want = strconv.FormatFloat(v, 'f', -1, 64)
		}
		if got.String() != want {
			d.fail(true, "%s: %s stored as %q, want %q", path, showJSON(src), got.String(), want)
		}
	case reflect.Bool:
		want := false
		switch v := src.(type) {
		case bool:
			want = v
		case float64:
			want = v != 0
		case string:
			want, _ = strconv.ParseBool(v)
		}
		if got.Bool() != want {
			d.fail(true, "%s: %s stored as %v", path, showJSON(src), got.Bool())
		}
	case reflect.Float64:
		want := 0.0
		switch v := src.(type) {
		case bool:
			if v {
				want = 1
			}
		case float64:
			want = v
		case string:
			want, _ = strconv.ParseFloat(v, 64)
		}
		if got.Float() != want && !(math.IsNaN(want) && math.IsNaN(got.Float())) {
			d.fail(true, "%s: %s stored as %v", path, showJSON(src), got.Float())
		}
	default:
		n, _ := refInt(src, t.Kind())
		if fmt.Sprint(got.Interface()) != n.String() {
			d.fail(true, "%s: %s stored as %v, want %s", path, showJSON(src), got.Interface(), n)
		}
	}
}

func isEmptyStruct(v reflect.Value) bool {
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Type() == reflect.TypeOf((*rdap.DecodeData)(nil)) {
			continue
		}
		if !f.IsZero() {
			return false
		}
	}
	return true
}

func showJSON(v any) string {
	b, _ := json.Marshal(v)
	if len(b) > 300 {
		b = append(b[:300], "..."...)
	}
	return string(b)
}

// object compares a decoded struct with its source object.
func (d *decCheck) object(path string, got reflect.Value, src map[string]any) {
	t := got.Type()
	fields := fieldsOf(t)
	dd, _ := got.FieldByName("DecodeData").Interface().(*rdap.DecodeData)
	if dd == nil {
		d.fail(false, "%s: no decode data", path)
		d.fail(true, "%s: no decode data", path)
		return
	}
	var unknown, all []string
	for name, v := range src {
		all = append(all, name)
		if raw := dd.Value(name); !reflect.DeepEqual(raw, v) {
			d.fail(false, "%s: raw value of %q is %s, want %s", path, name, showJSON(raw), showJSON(v))
		}
		f, known := fields[name]
		if !known {
			unknown = append(unknown, name)
			continue
		}
		d.value(path+"."+name, name, got.FieldByName(f), v, dd.Notes)
	}
	for name, f := range fields {
		if _, ok := src[name]; !ok && !got.FieldByName(f).IsZero() {
			d.fail(false, "%s: field %s is %v although the object has no %q", path, f, got.FieldByName(f).Interface(), name)
		}
	}
	gotU, gotA := append([]string{}, dd.UnknownFields()...), append([]string{}, dd.Fields()...)
	sort.Strings(unknown)
	sort.Strings(all)
	sort.Strings(gotU)
	sort.Strings(gotA)
	if !sameStrs(gotU, unknown) {
		d.fail(false, "%s: unknown members %q, want %q", path, gotU, unknown)
	}
	if !sameStrs(gotA, all) {
		d.fail(false, "%s: members %q, want %q", path, gotA, all)
	}
}

// ---- generation

func genScalar(c *C) any {
	switch c.intn(8) {
	case 0:
		return nil
	case 1:
		return c.chance(0.5)
	case 2, 3:
		return []float64{0, 1, -1, 2, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, 2147483647, 2147483648, -2147483648, -2147483649, 4294967295, 4294967296, 9007199254740993, 9223372036854774784, 9223372036854775808, -9223372036854775808, -9223372036854777856, 18446744073709549568, 18446744073709551616, 1e300, -1e300, 0.5, -0.5, 255.9, 1e-9, 3.25, 1e21, 65535.5, 418}[c.intn(39)]
	case 4:
		return c.pick("0", "1", "255", "256", "-1", "+1", " 1", "1 ", "0x10", "1_0", "1e3", "", "18446744073709551615", "18446744073709551616", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "65535", "65536", "128", "-128", "-129", "127", "32768", "007", "1.5", "true", "false", "T", "yes", "TRUE", "Inf", "NaN", "null", "4294967295", "4294967296", "\u0663")
	case 5:
		return c.hint()
	}
	return c.stretch(c.pick("abc", "x y", "a\nb", "\u00e9\u65e5", "domain", "\x00", "<&>"))
}

func genAny(c *C, depth int) any {
	if depth <= 0 || c.chance(0.6) {
		return genScalar(c)
	}
	if c.chance(0.5) {
		a := []any{}
		for i, n := 0, c.count(4, 70); i < n; i++ {
			a = append(a, genAny(c, depth-1))
		}
		return a
	}
	m := map[string]any{}
	for i, n := 0, c.intn(4); i < n; i++ {
		m[c.pick("a", "b", "handle", "value", "x", "")] = genAny(c, depth-1)
	}
	return m
}

func genFor(c *C, t reflect.Type, depth int, wrong float64) any {
	if c.chance(wrong) {
		return genAny(c, 2)
	}
	switch t.Kind() {
	case reflect.Pointer:
		if t == isVCard {
			return genJCard(c, 0.2)
		}
		return genFor(c, t.Elem(), depth, wrong)
	case reflect.Struct:
		return genObject(c, t, depth-1, wrong)
	case reflect.Slice:
		a := []any{}
		max := 3
		if depth <= 0 {
			max = 1
		}
		n := c.intn(max + 1)
		if k := t.Elem().Kind(); k != reflect.Struct && k != reflect.Pointer {
			n = c.count(max+1, 120)
		}
		if c.chance(0.002) {
			n = c.bigN(40)
		}
		for i := 0; i < n; i++ {
			if depth <= 0 && t.Elem().Kind() == reflect.Struct {
				break
			}
			a = append(a, genFor(c, t.Elem(), depth, wrong))
		}
		return a
	case reflect.Map:
		m := map[string]any{}
		for i, n := 0, c.intn(4); i < n; i++ {
			m[c.pick("k1", "k2", "k3", "", "k:4")] = genFor(c, t.Elem(), depth, wrong)
		}
		return m
	case reflect.String:
		if c.chance(0.1) {
			return c.hint()
		}
		return c.stretch(fmt.Sprintf("s%d", c.intn(1000)))
	case reflect.Bool:
		return c.chance(0.5)
	case reflect.Float64:
		return c.r.NormFloat64()
	}
	_, hi, _ := intBounds(t.Kind())
	f, _ := new(big.Float).SetInt(hi).Float64()
	switch c.intn(3) {
	case 0:
		return float64(c.intn(100))
	case 1:
		return math.Floor(c.r.Float64() * f)
	}
	return genScalar(c)
}

func genObject(c *C, t reflect.Type, depth int, wrong float64) map[string]any {
	m := map[string]any{}
	fields := fieldsOf(t)
	var names []string
	for n := range fields {
		names = append(names, n)
	}
	sort.Strings(names)
	p := 0.35
	if depth <= 0 {
		p = 0.15
	}
	if c.chance(0.1) {
		p = 0.9
	}
	if depth < -1 {
		p = 0.02
	}
	for _, n := range names {
		if !c.chance(p) {
			continue
		}
		f, _ := t.FieldByName(fields[n])
		m[n] = genFor(c, f.Type, depth, wrong)
	}
	for c.chance(0.25) {
		// unknown members, among them near misses of known ones
		k := c.pick("x_ext", "unknown", "decodeData", "DecodeData", "common", "Common", "Handle", "handle ", "lDHName", "LDHName", "conformance", "vcard", "vCard", "ds", "keys", "action", "date", "iPVersion", "publicIDs", "hrefLang", "", "domains", "hidden", "VEmb", "iDNTable", "lang2")
		if c.chance(0.2) {
			k = c.hint()
		}
		if _, known := fields[k]; !known && k != "errorCode" && k != "objectClassName" && !strings.HasSuffix(k, "SearchResults") {
			m[k] = genAny(c, 2)
		}
	}
	return m
}

func normalise(v any) any { // through JSON, as the decoder will see it
	b, err := json.Marshal(v)
	if err != nil {
		return nil
	}
	var out any
	if json.Unmarshal(b, &out) != nil {
		return nil
	}
	return out
}
