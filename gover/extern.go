package main

// Models of standard-library and dependency functions (trusted).

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type externFn func(f *Frame, fn *ssa.Function, args []Val, pos token.Pos) Val

var mutableExtern = map[string]bool{}
var inlineExtern = map[string]bool{}
var externs = map[string]externFn{}

// purePkgs: functions of these packages without a model are uninterpreted
// functions of their arguments' values, without effects.
var purePkgs = map[string]bool{"strings": true, "strconv": true, "net/url": true, "net": true, "path/filepath": true, "path": true, "encoding/hex": true, "crypto/sha256": true, "unicode": true, "unicode/utf8": true, "bytes": true, "errors": true, "math": true}

func pureExtern(name string, fn *ssa.Function) bool {
	if fn.Pkg == nil {
		return false
	}
	return purePkgs[fn.Pkg.Pkg.Path()]
}

func itoa(t *Term) *Term {
	if t.Op == OInt {
		return Str(t.N.String())
	}
	return Ite(Le(Int(0), t), B("str.from_int", StringS, t), SCat(Str("-"), B("str.from_int", StringS, Sub(Int(0), t))))
}

// ghost declares a ghost state variable.
func ghostVar(name string, s *Sort, t types.Type) {
	heapSortOf["g:"+name] = s
	ghostTypes["g:"+name] = t
}

// ghostArr is a ghost map from keys of sort k to values of Go type t.
func ghostArr(name string, k *Sort, t types.Type) {
	ghostVar(name, ArrS(k, sortOf(t)), types.NewArray(t, 0))
}

var ghostTypes = map[string]types.Type{}

func (f *Frame) ghost(name string) *Term { return f.x.heap(f.cur, "g:"+name) }

func (f *Frame) setGhost(name string, v *Term) {
	if f.ghost(name) == v {
		return
	}
	f.x.setHeap(f.cur, "g:"+name, v)
	f.x.writes = append(f.x.writes, writeRec{"g:" + name, nil, false})
}

func initGhostState(x *Exec, st *State) {}

type termFn func(f *Frame, a []*Term) *Term

func pureT(names string, g termFn) {
	for _, n := range strings.Fields(names) {
		externs[n] = func(f *Frame, fn *ssa.Function, args []Val, pos token.Pos) Val {
			ts := make([]*Term, len(args))
			for i := range args {
				ts[i] = f.x.term(args[i])
			}
			return g(f, ts)
		}
	}
}

// variadic returns the elements of a slice of statically known length.
func (f *Frame) variadic(s *Term, el types.Type) ([]*Term, bool) {
	n := sLen(s)
	if n.Op != OInt {
		return nil, false
	}
	arr := elemsArr(f.x, f.cur, el, s)
	var out []*Term
	for i := int64(0); i < n.N.Int64(); i++ {
		out = append(out, Select(arr, Int(i)))
	}
	return out, true
}

var anyT = types.Universe.Lookup("any").Type()
var errorT = types.Universe.Lookup("error").Type()

// fmtVerb renders one argument under %s/%v/%d.
func (f *Frame) fmtVerb(verb byte, a *Term) *Term {
	if a.Op == OCtor {
		switch a.DTC {
		case cStr:
			if verb == 's' || verb == 'v' {
				return a.Args[0]
			}
		case cInt:
			if verb == 'd' || verb == 'v' {
				if dt := tagTypes[int(a.Args[0].N.Int64())]; dt != nil {
					if _, ok := dt.(*types.Basic); ok {
						return itoa(a.Args[1])
					}
				}
			}
		}
	}
	if a.Op == OIte {
		return Ite(a.Args[0], f.fmtVerb(verb, a.Args[1]), f.fmtVerb(verb, a.Args[2]))
	}
	return App("fmt."+string(verb), StringS, a)
}

func (f *Frame) sprintf(format, va *Term) *Term {
	vs, ok := f.variadic(va, anyT)
	if format.Op != OStr || !ok {
		return App("fmt.any", StringS, format, sLen(va), elemsArr(f.x, f.cur, anyT, va))
	}
	var parts []*Term
	k := 0
	s := format.S
	lit := ""
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			lit += s[i : i+1]
			continue
		}
		i++
		if i >= len(s) {
			break
		}
		if s[i] == '%' {
			lit += "%"
			continue
		}
		spec := ""
		for i < len(s) && strings.IndexByte("+-# 0123456789.", s[i]) >= 0 {
			spec += s[i : i+1]
			i++
		}
		parts = append(parts, Str(lit))
		lit = ""
		if k >= len(vs) {
			parts = append(parts, Str("%!"+s[i:i+1]+"(MISSING)"))
			continue
		}
		if spec == "" {
			parts = append(parts, f.fmtVerb(s[i], vs[k]))
		} else {
			parts = append(parts, App("fmt."+spec+s[i:i+1], StringS, vs[k]))
		}
		k++
	}
	if k < len(vs) {
		return App("fmt.any", StringS, format, sLen(va), elemsArr(f.x, f.cur, anyT, va))
	}
	parts = append(parts, Str(lit))
	return SCat(parts...)
}

func (f *Frame) sprintLike(nm string, va *Term) *Term {
	vs, ok := f.variadic(va, anyT)
	if ok && len(vs) == 1 {
		return f.fmtVerb('v', vs[0])
	}
	return App("fmt."+nm, StringS, sLen(va), elemsArr(f.x, f.cur, anyT, va))
}

// newError is a fresh non-nil error that is none of the repository's types.
func (f *Frame) newError(tag string, text *Term) *Term {
	r := f.x.alloc(f.cur)
	regHeap("H:errstr", ArrS(IntS, StringS))
	f.x.write(f.cur, "H:errstr", r, text)
	e := MkCtor(IfaceS, cPtr, Int(int64(errTag(tag))), r)
	f.x.assume(f.curR, Eq(App("errtext", StringS, e), text), "text of a new error")
	return e
}

func errTag(n string) int {
	k := "*" + n
	if t, ok := tagTab[k]; ok {
		return t
	}
	t := len(tagTab) + 1
	tagTab[k] = t
	tagTypes[t] = nil
	return t
}

// lastIndex is the position of the last occurrence of the 1-character string c.
func lastIndex(s, c *Term) *Term {
	if s.Op == OStr && c.Op == OStr {
		return Int(int64(strings.LastIndex(s.S, c.S)))
	}
	r := App("lastindex", IntS, s, c)
	addFact(r, And(Le(Int(-1), r), Lt(r, SLen(s))))
	addFact(r, Eq(Eq(r, Int(-1)), Not(SContains(s, c))))
	addFact(r, Implies(Le(Int(0), r), And(Eq(SSub(s, r, SLen(c)), c), Not(SContains(SFrom(s, AddI(r, 1)), c)))))
	return r
}

func trimPrefix(s, p *Term) *Term { return Ite(SPrefix(p, s), SFrom(s, SLen(p)), s) }
func trimSuffix(s, p *Term) *Term {
	return Ite(SSuffix(p, s), SSub(s, Int(0), Sub(SLen(s), SLen(p))), s)
}

func uf1(nm string, ret *Sort) termFn {
	return func(f *Frame, a []*Term) *Term { return App(nm, ret, a...) }
}

func replaceAll(s, o, n *Term) *Term {
	if s.Op == OStr && o.Op == OStr && n.Op == OStr {
		return Str(strings.ReplaceAll(s.S, o.S, n.S))
	}
	if s.Op == OIte {
		return Ite(s.Args[0], replaceAll(s.Args[1], o, n), replaceAll(s.Args[2], o, n))
	}
	if s.Op == OApp && s.S == "str.++" && o.Op == OStr && len(o.S) == 1 {
		var ps []*Term
		for _, p := range s.Args {
			ps = append(ps, replaceAll(p, o, n))
		}
		return SCat(ps...)
	}
	r := B("str.replace_all", StringS, s, o, n)
	if o.Op == OStr && len(o.S) == 1 {
		addFact(r, Implies(Not(SContains(s, o)), Eq(r, s)))
		if n.Op == OStr && !strings.Contains(n.S, o.S) {
			addFact(r, Not(SContains(r, o)))
			if n.S == "" {
				// deleting one character cannot introduce another
				for _, ch := range []string{"\n", "\r", "\x00"} {
					if ch != o.S {
						addFact(r, Implies(Not(SContains(s, Str(ch))), Not(SContains(r, Str(ch)))))
					}
				}
			}
		}
	}
	return r
}

func init() {
	pureT("strings.LastIndexByte", func(f *Frame, a []*Term) *Term { return lastIndex(a[0], SFromCode(a[1])) })
	pureT("strings.LastIndex", func(f *Frame, a []*Term) *Term {
		if a[1].Op == OStr && len(a[1].S) == 1 {
			return lastIndex(a[0], a[1])
		}
		return App("lastindexS", IntS, a...)
	})
	pureT("strings.IndexByte strings.IndexRune", func(f *Frame, a []*Term) *Term {
		return SIndexOf(a[0], SFromCode(a[1]), Int(0))
	})
	pureT("strings.Index", func(f *Frame, a []*Term) *Term { return SIndexOf(a[0], a[1], Int(0)) })
	pureT("strings.Contains", func(f *Frame, a []*Term) *Term { return SContains(a[0], a[1]) })
	pureT("strings.ContainsRune", func(f *Frame, a []*Term) *Term {
		if a[1].Op == OInt && a[1].N.Int64() < 128 {
			return SContains(a[0], SFromCode(a[1]))
		}
		return App("containsrune", BoolS, a...)
	})
	pureT("strings.HasPrefix", func(f *Frame, a []*Term) *Term { return SPrefix(a[1], a[0]) })
	pureT("strings.HasSuffix", func(f *Frame, a []*Term) *Term { return SSuffix(a[1], a[0]) })
	pureT("strings.TrimPrefix", func(f *Frame, a []*Term) *Term { return trimPrefix(a[0], a[1]) })
	pureT("strings.TrimSuffix", func(f *Frame, a []*Term) *Term { return trimSuffix(a[0], a[1]) })
	externs["strings.CutPrefix"] = func(f *Frame, fn *ssa.Function, args []Val, pos token.Pos) Val {
		s, p := f.x.term(args[0]), f.x.term(args[1])
		return Tuple{trimPrefix(s, p), SPrefix(p, s)}
	}
	externs["strings.CutSuffix"] = func(f *Frame, fn *ssa.Function, args []Val, pos token.Pos) Val {
		s, p := f.x.term(args[0]), f.x.term(args[1])
		return Tuple{trimSuffix(s, p), SSuffix(p, s)}
	}
	externs["strings.Cut"] = func(f *Frame, fn *ssa.Function, args []Val, pos token.Pos) Val {
		s, p := f.x.term(args[0]), f.x.term(args[1])
		i := SIndexOf(s, p, Int(0))
		found := Le(Int(0), i)
		return Tuple{Ite(found, SSub(s, Int(0), i), s), Ite(found, SFrom(s, Add(i, SLen(p))), Str("")), found}
	}
	pureT("strings.ReplaceAll", func(f *Frame, a []*Term) *Term { return replaceAll(a[0], a[1], a[2]) })
	pureT("strings.Replace", func(f *Frame, a []*Term) *Term {
		if a[3].Op == OInt && a[3].N.Sign() < 0 {
			return replaceAll(a[0], a[1], a[2])
		}
		if a[3] == Int(1) {
			return B("str.replace", StringS, a[0], a[1], a[2])
		}
		return App("strings.Replace", StringS, a...)
	})
	pureT("strings.Clone", func(f *Frame, a []*Term) *Term { return a[0] })
	pureT("strings.ToLower", uf1("strings.ToLower#0", StringS))
	pureT("strings.ToUpper", uf1("strings.ToUpper#0", StringS))

	pureT("fmt.Sprintf", func(f *Frame, a []*Term) *Term { return f.sprintf(a[0], a[1]) })
	pureT("fmt.Sprint", func(f *Frame, a []*Term) *Term { return f.sprintLike("Sprint", a[0]) })
	pureT("fmt.Errorf", func(f *Frame, a []*Term) *Term { return f.newError("fmt.wrapError", f.sprintf(a[0], a[1])) })
	pureT("errors.New", func(f *Frame, a []*Term) *Term { return f.newError("errors.errorString", a[0]) })
	pureT("strconv.Itoa", func(f *Frame, a []*Term) *Term { return itoa(a[0]) })
	pureT("strconv.FormatUint strconv.FormatInt", func(f *Frame, a []*Term) *Term {
		if a[1] == Int(10) {
			return itoa(a[0])
		}
		return App("formatint", StringS, a...)
	})
	_ = fmt.Sprint
}
