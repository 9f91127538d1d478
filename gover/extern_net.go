package main

// Model of the parts of package net that the registries use.
//
// An address is its bytes; ord is its value as a number. A network parsed from
// CIDR text covers the addresses from its own up to hi; networks of one size
// are aligned, so two of them are the same or do not meet.
// (net.IPNet.Contains treats IPv4-mapped IPv6 addresses as IPv4: not modelled.)

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func ipOrd(b *Term) *Term { return App("ip.ord", IntS, b) }
func netHi(b, ones *Term) *Term {
	r := App("net.hi", IntS, b, ones)
	return r
}
func isNet(b, ones *Term) *Term { return App("net.aligned", BoolS, b, ones) }

func maskOnes(m *Term) *Term {
	r := App("mask.ones", IntS, m)
	addFact(r, And(Le(Int(0), r), Le(r, Mul(Int(8), SLen(m)))))
	return r
}

func netContains(nb, ones, x *Term) *Term {
	return And(Eq(SLen(nb), SLen(x)), Le(ipOrd(nb), ipOrd(x)), Le(ipOrd(x), netHi(nb, ones)))
}

func netAxioms(x *Exec) {
	if x.netAx {
		return
	}
	x.netAx = true
	a, b, o := Bound("na", StringS), Bound("nb", StringS), Bound("no", IntS)
	x.assume(True, Forall([]*Term{a, b, o}, Implies(And(Eq(SLen(a), SLen(b)), isNet(a, o), isNet(b, o), Le(ipOrd(a), ipOrd(b)), Le(ipOrd(b), netHi(a, o))), Eq(a, b)), []*Term{netHi(a, o), isNet(b, o)}), "networks of one size are aligned")
	x.assume(True, Forall([]*Term{a, b}, Implies(And(Eq(SLen(a), SLen(b)), Eq(ipOrd(a), ipOrd(b))), Eq(a, b)), []*Term{ipOrd(a), ipOrd(b)}), "addresses are numbers")
	x.trust("package net: CIDR networks are aligned address intervals; bytes.Compare orders addresses as numbers (IPv4-mapped IPv6 addresses aside)")
}

func init() {
	externs["net.ParseCIDR"] = func(f *Frame, fn *ssa.Function, args []Val, pos token.Pos) Val {
		x := f.x
		netAxioms(x)
		s := x.term(args[0])
		ok := App("cidr.ok", BoolS, s)
		nb, mb := App("cidr.net", StringS, s), App("cidr.mask", StringS, s)
		x.assume(f.curR, Implies(ok, And(Or(Eq(SLen(nb), Int(4)), Eq(SLen(nb), Int(16))), Eq(SLen(mb), SLen(nb)), isNet(nb, maskOnes(mb)))), "net.ParseCIDR")
		ip := f.newBytes(App("cidr.ip", StringS, s))
		nt := fn.Signature.Results().At(1).Type()
		el := nt.Underlying().(*types.Pointer).Elem()
		ref := x.alloc(f.cur)
		srt := sortOf(el)
		v := MkCtor(srt, srt.DT.Ctors[0], f.newBytes(nb), f.newBytes(mb))
		x.write(f.cur, objHeap(el), ref, v)
		e := f.newError("net.ParseError", App("cidrerr", StringS, s))
		return Tuple{Ite(ok, ip, nilSlice), Ite(ok, ref, Int(0)), Ite(ok, iNil, e)}
	}
	externs["(net.IPMask).Size"] = func(f *Frame, fn *ssa.Function, args []Val, pos token.Pos) Val {
		b := f.bytesArg(args[0])
		return Tuple{maskOnes(b), Mul(Int(8), SLen(b))}
	}
	ipnet := func(f *Frame, fn *ssa.Function, v Val) (*Term, *Term) {
		x := f.x
		t := fn.Signature.Recv().Type()
		el := t.Underlying().(*types.Pointer).Elem()
		c := x.load(f.cur, &Place{Heap: objHeap(el), Ref: x.term(v), Root: el, T: el})
		return x.bytesOf(f.cur, fieldSel(c, el, 0)), x.bytesOf(f.cur, fieldSel(c, el, 1))
	}
	externs["(*net.IPNet).Contains"] = func(f *Frame, fn *ssa.Function, args []Val, pos token.Pos) Val {
		netAxioms(f.x)
		f.x.oblige(f.curR, Neq(f.x.term(args[0]), Int(0)), "safety", f.loc()+" non-nil network", pos)
		nb, mb := ipnet(f, fn, args[0])
		return netContains(nb, maskOnes(mb), f.bytesArg(args[1]))
	}
	externs["(*net.IPNet).String"] = func(f *Frame, fn *ssa.Function, args []Val, pos token.Pos) Val {
		nb, mb := ipnet(f, fn, args[0])
		return App("net.text", StringS, nb, mb)
	}
	externs["bytes.Compare"] = func(f *Frame, fn *ssa.Function, args []Val, pos token.Pos) Val {
		netAxioms(f.x)
		a, b := f.bytesArg(args[0]), f.bytesArg(args[1])
		other := App("bytes.cmp", IntS, a, b)
		oa, ob := ipOrd(a), ipOrd(b)
		return Ite(Eq(SLen(a), SLen(b)), Ite(Lt(oa, ob), Int(-1), Ite(Eq(oa, ob), Int(0), Int(1))), other)
	}
	externs["bytes.Equal"] = func(f *Frame, fn *ssa.Function, args []Val, pos token.Pos) Val {
		return Eq(f.bytesArg(args[0]), f.bytesArg(args[1]))
	}
	pureT("strings.ContainsAny", func(f *Frame, a []*Term) *Term {
		if a[1].Op == OStr && isASCII(a[1].S) {
			var ds []*Term
			for i := range a[1].S {
				ds = append(ds, SContains(a[0], Str(a[1].S[i:i+1])))
			}
			return Or(ds...)
		}
		return App("strings.ContainsAny", BoolS, a...)
	})
}

func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 128 {
			return false
		}
	}
	return true
}

func init() {
	// net.ParseIP: nil unless the text is an address; a fresh slice otherwise
	externs["net.ParseIP"] = func(f *Frame, fn *ssa.Function, args []Val, pos token.Pos) Val {
		q := f.x.term(args[0])
		ok := App("ip.ok", BoolS, q)
		b := App("ip.of", StringS, q)
		addFact(b, Eq(SLen(b), Int(16)))
		s := f.x.newBytes(f.cur, b)
		return Ite(ok, s, zero(fn.Signature.Results().At(0).Type()))
	}
	externs["(net.IP).String"] = func(f *Frame, fn *ssa.Function, args []Val, pos token.Pos) Val {
		return App("ip.text", StringS, f.x.bytesOf(f.cur, f.x.term(args[0])))
	}
}
