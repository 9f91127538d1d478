package zzverif

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/openrdap/rdap"
)

// What the text output of each type consists of, in order. v: a field under a
// label; o: nested objects; b: not in brief output; n (r): notices (remarks).
var printItems = map[string]string{
	"Domain":                  "v Domain Name|LDHName;v Domain Name (Unicode)|UnicodeName;v Handle|Handle;v Status|Status;bv Port43|Port43;o |PublicIDs;bv Conformance|Conformance;n |Notices;r |Remarks;o |Links;bo |Events;bo |Variants;bo |SecureDNS;o |Entities;o |Nameservers;o |Network",
	"Autnum":                  "v Handle|Handle;v Name|Name;v Type|Type;v Status|Status;v IP Version|IPVersion;v Country|Country;v StartAutnum|StartAutnum;v EndAutnum|EndAutnum;bv Conformance|Conformance;bv Port43|Port43;n |Notices;r |Remarks;o |Links;bo |Events;o |Entities",
	"Nameserver":              "v Nameserver|LDHName;v Nameserver (Unicode)|UnicodeName;v Handle|Handle;v Status|Status;bv Port43|Port43;bv Conformance|Conformance;n |Notices;r |Remarks;o |Links;bo |Events;o |IPAddresses;o |Entities",
	"IPAddressSet":            "v IPv6|V6;v IPv4|V4",
	"Entity":                  "v Handle|Handle;v Status|Status;bv Port43|Port43;o |PublicIDs;bv Conformance|Conformance;n |Notices;r |Remarks;o |Links;bo |Events;bo AsEventActor|AsEventActor;v Role|Roles;c |VCard;bo |Networks;bo |Autnums;bo |Entities",
	"IPNetwork":               "v Handle|Handle;v Start Address|StartAddress;v End Address|EndAddress;v IP Version|IPVersion;v Name|Name;v Type|Type;v Country|Country;v ParentHandle|ParentHandle;v Status|Status;bv Port43|Port43;bv Conformance|Conformance;n |Notices;r |Remarks;o |Entities;o |Links;bo |Events",
	"PublicID":                "v Type|Type;v Identifier|Identifier",
	"SecureDNS":               "v Zone Signed|ZoneSigned;v Delegation Signed|DelegationSigned;v Max Signature Life|MaxSigLife;o |DS;o |Keys",
	"KeyData":                 "v Flags|Flags;v Protocol|Protocol;v Algorithm|Algorithm;v Public Key|PublicKey;bo |Events;o |Links",
	"DSData":                  "v Key Tag|KeyTag;v Algorithm|Algorithm;v Digest|Digest;v DigestType|DigestType;bo |Events;o |Links",
	"Variant":                 "v Relation|Relation;v IDN Table|IDNTable;o |VariantNames",
	"VariantName":             "v Domain Name|LDHName;v Domain Name (Unicode)|UnicodeName",
	"Remark":                  "v Title|Title;v Type|Type;v Description|Description;o |Links",
	"Notice":                  "v Title|Title;v Type|Type;v Description|Description;o |Links",
	"Link":                    "v Title|Title;v Href|Href;v Value|Value;v Rel|Rel;v Media|Media;v Type|Type;v HrefLang|HrefLang",
	"Event":                   "v Action|Action;v Actor|Actor;v Date|Date;o |Links",
	"Error":                   "bv Conformance|Conformance;n |Notices;v Error Code|ErrorCode;v Title|Title;v Description|Description",
	"Help":                    "bv Conformance|Conformance;n |Notices",
	"DomainSearchResults":     "bv Conformance|Conformance;n |Notices;o |Domains",
	"EntitySearchResults":     "bv Conformance|Conformance;n |Notices;o |Entities",
	"NameserverSearchResults": "bv Conformance|Conformance;n |Notices;o |Nameservers",
}

var printHeads = map[string]string{
	"Domain": "Domain", "Autnum": "Autnum", "Nameserver": "Nameserver", "IPAddressSet": "IP Addresses", "Entity": "Entity", "IPNetwork": "IP Network",
	"PublicID": "Public ID", "SecureDNS": "Secure DNS", "KeyData": "Key", "DSData": "DSData", "Variant": "Variant", "VariantName": "Variant Name",
	"Remark": "Remark", "Notice": "Notice", "Link": "Link", "Event": "Event", "Error": "Error", "Help": "Help",
	"DomainSearchResults": "Domain Search Results", "EntitySearchResults": "Entity Search Results", "NameserverSearchResults": "Nameserver Search Results",
}

type prLine struct {
	depth int
	text  string
}

type refPrinter struct {
	brief, briefLinks, omitN, omitR bool
	out                             []prLine
}

func clean(s string) string {
	return strings.NewReplacer("\n", "", "\r", "", "\x00", "").Replace(s)
}

func (p *refPrinter) head(s string, d int) { p.out = append(p.out, prLine{d, clean(s) + ":"}) }
func (p *refPrinter) val(k, s string, d int) {
	if s != "" {
		p.out = append(p.out, prLine{d, clean(k) + ": " + clean(s)})
	}
}

func (p *refPrinter) field(label string, v reflect.Value, d int) {
	switch v.Kind() {
	case reflect.String:
		p.val(label, v.String(), d)
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			p.field(label, v.Index(i), d)
		}
	case reflect.Pointer:
		if !v.IsNil() {
			p.val(label, fmt.Sprint(v.Elem().Interface()), d)
		}
	default:
		panic("harness: field of kind " + v.Kind().String())
	}
}

func (p *refPrinter) nested(head string, v reflect.Value, d int) {
	switch v.Kind() {
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			p.object(head, v.Index(i), d)
		}
	case reflect.Pointer:
		if !v.IsNil() {
			p.object(head, v.Elem(), d)
		}
	}
}

func (p *refPrinter) object(head string, v reflect.Value, d int) {
	n := v.Type().Name()
	if head == "" {
		head = printHeads[n]
	}
	if n == "Link" && p.briefLinks {
		p.val("Link", v.FieldByName("Href").String(), d)
		return
	}
	p.head(head, d)
	d++
	for _, it := range strings.Split(printItems[n], ";") {
		kind, rest, _ := strings.Cut(it, " ")
		label, fn, _ := strings.Cut(rest, "|")
		f := v.FieldByName(fn)
		if !f.IsValid() {
			panic("harness: no field " + n + "." + fn)
		}
		if strings.HasPrefix(kind, "b") {
			if p.brief {
				continue
			}
			kind = kind[1:]
		}
		switch kind {
		case "v":
			p.field(label, f, d)
		case "o":
			p.nested(label, f, d)
		case "n":
			if !p.brief && !p.omitN {
				p.nested("", f, d)
			}
		case "r":
			if !p.brief && !p.omitR {
				p.nested("", f, d)
			}
		case "c":
			if c, _ := f.Interface().(*rdap.VCard); c != nil {
				for _, pr := range c.Properties {
					for _, s := range flat(pr.Value) {
						p.val("vCard "+pr.Name, s, d)
					}
				}
			}
		}
	}
	dd, _ := v.FieldByName("DecodeData").Interface().(*rdap.DecodeData)
	if dd == nil {
		return
	}
	u := append([]string{}, dd.UnknownFields()...)
	sort.Strings(u)
	for _, k := range u {
		p.unknown(k, dd.Value(k), d)
	}
}

func (p *refPrinter) unknown(k string, v any, d int) {
	switch v := v.(type) {
	case bool:
		p.val(k, strconv.FormatBool(v), d)
	case float64:
		p.val(k, strconv.FormatFloat(v, 'f', -1, 64), d)
	case string:
		p.val(k, v, d)
	case []any:
		for _, e := range v {
			p.unknown(k, e, d)
		}
	case map[string]any:
		p.head(k, d)
		var ks []string
		for k := range v {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			p.unknown(k, v[k], d+1)
		}
	default:
		p.val(k, "[unprintable value]", d)
	}
}

func refText(p *refPrinter, o any, ch rune, size int) string {
	if ch == 0 {
		ch = ' '
	}
	if size == 0 {
		size = 2
	}
	v := reflect.ValueOf(o)
	p.out = nil
	if v.Kind() == reflect.Pointer && v.Elem().Kind() == reflect.Struct {
		if _, ok := printItems[v.Elem().Type().Name()]; ok {
			p.object("", v.Elem(), 0)
		}
	}
	var sb strings.Builder
	for _, l := range p.out {
		sb.WriteString(strings.Repeat(string(ch), l.depth*size) + l.text + "\n")
	}
	return sb.String()
}

// spoil puts characters that could forge lines into the texts and names of a document.
func spoil(c *C, v any, p float64) any {
	ev := func(s string) string {
		if !c.chance(p) {
			return s
		}
		x := c.pick("\n", "\r", "\x00", "\r\n", "\n\n", "\nDomain:", "\nHandle: x", " \n", "\u2028", "\u0085", "\t", "\v", "\f", "\x1b[2K", "\u00e9", "\ufffd", "%s", "%!", ": ", "\x7f")
		if c.chance(0.1) {
			x = c.hint()
		}
		i := 0
		if len(s) > 0 {
			i = c.intn(len(s) + 1)
			for i > 0 && i < len(s) && s[i]&0xC0 == 0x80 {
				i--
			}
		}
		return s[:i] + x + s[i:]
	}
	switch v := v.(type) {
	case string:
		return ev(v)
	case []any:
		for i := range v {
			v[i] = spoil(c, v[i], p)
		}
		return v
	case map[string]any:
		var ks []string
		for k := range v {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			v[k] = spoil(c, v[k], p)
			if c.chance(p * 0.2) {
				if k2 := ev(k); k2 != k {
					v[k2] = genAny(c, 2)
				}
			}
		}
		return v
	}
	return v
}

// genResponse is a random response document and its type.
func genResponse(c *C, depth int, wrong, evil float64) map[string]any {
	k := topTypes[c.intn(len(topTypes))]
	rt := reflect.TypeOf(k.t)
	return genResponseOf(c, rt, k.mark, depth, wrong, evil)
}

func genResponseOf(c *C, rt reflect.Type, mark string, depth int, wrong, evil float64) map[string]any {
	m := genObject(c, rt, depth, wrong)
	delete(m, "objectClassName")
	delete(m, "errorCode")
	for _, n := range []string{"domainSearchResults", "entitySearchResults", "nameserverSearchResults"} {
		if _, isField := fieldsOf(rt)[n]; !isField {
			delete(m, n)
		}
	}
	if evil > 0 {
		spoil(c, m, evil)
		delete(m, "errorCode")
	}
	switch rt.Name() {
	case "Error":
		m["errorCode"] = genScalar(c)
	case "DomainSearchResults", "EntitySearchResults", "NameserverSearchResults":
		for n, f := range fieldsOf(rt) {
			if f == "Domains" || f == "Entities" || f == "Nameservers" {
				if _, ok := m[n]; !ok {
					m[n] = []any{}
				}
			}
		}
	case "Help":
	default:
		m["objectClassName"] = mark
	}
	nm, _ := normalise(m).(map[string]any)
	return nm
}
