package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Models of URL queries and maps.Copy.
func init() {
	strsMap := types.NewMap(tStr, types.NewSlice(tStr))
	ghostVar("encN", IntS, tInt) // queries encoded
	ghostVar("encMap", IntS, strsMap)
	ghostVar("encText", StringS, tStr)

	// dst[k] = src[k] for every k of src
	externs["maps.Copy"] = func(f *Frame, fn *ssa.Function, args []Val, pos token.Pos) Val {
		x := f.x
		mt := fn.Signature.Params().At(0).Type().Underlying().(*types.Map)
		d, s := x.term(args[0]), x.term(args[1])
		dh, vh := mapHeaps(mt)
		none := ConstArr(ArrS(sortOf(mt.Key()), BoolS), False)
		sd := Ite(Eq(s, Int(0)), none, x.mapDom(f.cur, mt, s))
		sv := x.mapVals(f.cur, mt, s)
		dd, dv := x.mapDom(f.cur, mt, d), x.mapVals(f.cur, mt, d)
		k := Bound("k", sortOf(mt.Key()))
		f.x.oblige(f.curR, Or(Neq(d, Int(0)), Forall([]*Term{k}, Not(Select(sd, k)))), "nil", f.loc()+": maps.Copy into a nil map", pos)
		if sd == none {
			return Tuple{}
		}
		nd, nv := Fresh("copy.dom", dd.Sort), Fresh("copy.val", dv.Sort)
		addFact(nd, Forall([]*Term{k}, Eq(Select(nd, k), Or(Select(dd, k), Select(sd, k)))))
		addFact(nv, Forall([]*Term{k}, Eq(Select(nv, k), Ite(Select(sd, k), Select(sv, k), Select(dv, k)))))
		x.write(f.cur, dh, d, nd)
		x.write(f.cur, vh, d, nv)
		return Tuple{}
	}

	// the parameters of a URL's query: a fresh map
	externs["(*net/url.URL).Query"] = func(f *Frame, fn *ssa.Function, args []Val, pos token.Pos) Val {
		x := f.x
		mt := strsMap
		ut := fn.Signature.Recv().Type().(*types.Pointer).Elem()
		p := x.term(args[0])
		x.oblige(f.curR, Neq(p, Int(0)), "nil", f.loc()+": Query of a nil URL", pos)
		u := Select(x.heap(f.cur, objHeap(ut)), p)
		m := x.newMap(f.cur, mt)
		dh, vh := mapHeaps(mt)
		dom := Fresh("query.dom", ArrS(StringS, BoolS))
		k := Bound("k", StringS)
		addFact(dom, Forall([]*Term{k}, Eq(Select(dom, k), App("query.has", BoolS, u, k))))
		x.write(f.cur, dh, m, dom)
		x.write(f.cur, vh, m, Fresh("query.val", ArrS(StringS, sortOf(mt.Elem()))))
		return m
	}
	externs["(net/url.Values).Encode"] = func(f *Frame, fn *ssa.Function, args []Val, pos token.Pos) Val {
		m := f.x.term(args[0])
		n := f.ghost("encN")
		t := Fresh("encoded", StringS)
		f.setGhost("encN", AddI(n, 1))
		f.setGhost("encMap", m)
		f.setGhost("encText", t)
		return t
	}
}
