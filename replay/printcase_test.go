package zzverif

import (
	"bytes"
	"encoding/json"
	"reflect"
	"strings"

	"github.com/openrdap/rdap"
)

func printCase(c *C, evil float64) {
	if c.chance(0.01) {
		var buf bytes.Buffer
		(&rdap.Printer{Writer: &buf}).Print([]rdap.RDAPObject{nil, 1, "x", rdap.Domain{Handle: "h"}, &rdap.Notice{Title: "t"}}[c.intn(5)])
		if buf.Len() != 0 {
			c.failf("printed %q for something that is not a response object", buf.String())
		}
		return
	}
	m := genResponse(c, 2, 0.03, evil)
	b, _ := json.Marshal(m)
	c.in("document", string(b))
	o, err := rdap.NewDecoder(b).Decode()
	if err != nil {
		c.failf("decode: %v", err)
	}
	o2, _ := rdap.NewDecoder(b).Decode()
	if c.chance(0.1) {
		// the same objects dropped in both: replay the choices on the second copy
		mask := []bool{}
		keep := c.r.Float64()
		i := 0
		walkDD(reflect.ValueOf(o), func(f reflect.Value) {
			d := c.r.Float64() < keep
			mask = append(mask, d)
			if d {
				f.SetZero()
			}
		})
		walkDD(reflect.ValueOf(o2), func(f reflect.Value) {
			if i < len(mask) && mask[i] {
				f.SetZero()
			}
			i++
		})
		c.in("without decode data", mask)
	}
	pr := rdap.Printer{}
	rp := &refPrinter{}
	if c.chance(0.3) {
		pr.BriefOutput, rp.brief = true, true
	}
	if c.chance(0.4) {
		pr.BriefLinks, rp.briefLinks = true, true
	}
	if c.chance(0.3) {
		pr.OmitNotices, rp.omitN = true, true
	}
	if c.chance(0.3) {
		pr.OmitRemarks, rp.omitR = true, true
	}
	if c.chance(0.3) {
		pr.IndentChar = []rune{'\t', '.', '\u00e9', ' ', '#', '\u65e5'}[c.intn(6)]
	}
	if c.chance(0.3) {
		pr.IndentSize = uint(1 + c.intn(5))
	}
	c.in("printer", pr)
	want := refText(rp, o, pr.IndentChar, int(pr.IndentSize))
	var b1, b2 bytes.Buffer
	p1, p2 := pr, pr
	p1.Writer, p2.Writer = &b1, &b2
	p1.Print(o)
	p2.Print(o)
	if b1.String() != want {
		c.failf("output differs at %s", firstDiff(b1.String(), want))
	}
	if b1.String() != b2.String() {
		c.failf("printing twice differs at %s", firstDiff(b1.String(), b2.String()))
	}
	if !reflect.DeepEqual(o, o2) {
		c.failf("printing changed the object")
	}
	if n := strings.Count(want, "\n"); n > 3 {
		c.interesting(reflect.TypeOf(o).String(), n, pr)
	}
}

func walkDD(v reflect.Value, fn func(reflect.Value)) {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() && v.Type() != isVCard {
			walkDD(v.Elem(), fn)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			walkDD(v.Index(i), fn)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if v.Type().Field(i).Name == "DecodeData" {
				fn(f)
			} else if f.CanSet() {
				walkDD(f, fn)
			}
		}
	}
}

func firstDiff(got, want string) string {
	g, w := strings.Split(got, "\n"), strings.Split(want, "\n")
	for i := range g {
		if i >= len(w) || g[i] != w[i] {
			x := "(nothing)"
			if i < len(w) {
				x = w[i]
			}
			return "line " + itoa(i+1) + ": got " + show(g[i]) + ", want " + show(x)
		}
	}
	if len(w) > len(g) {
		return "line " + itoa(len(g)+1) + ": missing " + show(w[len(g)])
	}
	return "nothing"
}

func itoa(i int) string { b, _ := json.Marshal(i); return string(b) }
