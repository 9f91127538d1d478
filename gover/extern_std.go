package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// runPure executes a function value on the current state without keeping its
// effects, returning its (single) result and the reach of its end.
func (f *Frame) runPure(fv Val, args []Val, reach *Term, quiet bool) (*Term, *Term) {
	x := f.x
	saveR, saveS := f.curR, f.cur
	defer func() { f.curR, f.cur = saveR, saveS }()
	f.curR, f.cur = reach, saveS.clone()
	var c *Closure
	switch v := fv.(type) {
	case *Closure:
		c = v
	case *Term:
		if v.Op == OInt {
			c = closureTab[v.N.Int64()]
		}
	}
	if c == nil {
		unsup("call of an unknown function value in a model")
	}
	no := len(x.obs)
	nw := len(x.writes)
	r := f.callFn(c.Fn, args, c.Bind, nil, token.NoPos)
	if quiet {
		x.obs = x.obs[:no]
	}
	x.writes = x.writes[:nw]
	if t, ok := r.(*Term); ok {
		return t, f.curR
	}
	unsup("model: function value with %T result", r)
	return nil, nil
}

var sortSeq int

// sortModel replaces the elements of s by a permutation of them ordered by
// less, which is given as a term over two index variables in the new state.
func (f *Frame) sortModel(s *Term, el types.Type, less func(i, j *Term) *Term, pos token.Pos) {
	x := f.x
	sortSeq++
	n := sLen(s)
	key := elemHeap(el)
	old := Select(x.heap(f.cur, key), sRef(s))
	na := Fresh("sorted", old.Sort)
	refEp[na] = len(wmVars) - 1
	x.write(f.cur, key, sRef(s), na)
	off := sOff(s)
	i, j := Bound("si", IntS), Bound("sj", IntS)
	pn, in := fmt.Sprintf("%sperm!%d", runPrefix, sortSeq), fmt.Sprintf("%sinvp!%d", runPrefix, sortSeq)
	perm := func(t *Term) *Term { return App(pn, IntS, t) }
	inv := func(t *Term) *Term { return App(in, IntS, t) }
	rng := func(t *Term) *Term { return And(Le(Int(0), t), Lt(t, n)) }
	x.assume(f.curR, Forall([]*Term{i}, Implies(rng(i), And(rng(perm(i)), Eq(inv(perm(i)), i), Eq(Select(na, Add(off, i)), Select(old, Add(off, perm(i)))))), []*Term{perm(i)}, []*Term{Select(na, Add(off, i))}), "sort: result elements are input elements")
	x.assume(f.curR, Forall([]*Term{j}, Implies(rng(j), And(rng(inv(j)), Eq(perm(inv(j)), j), Eq(Select(na, Add(off, inv(j))), Select(old, Add(off, j))))), []*Term{inv(j)}, []*Term{Select(old, Add(off, j))}), "sort: every input element is kept")
	k := Bound("sk", IntS)
	x.assume(f.curR, Forall([]*Term{k}, Implies(Not(rng(Sub(k, off))), Eq(Select(na, k), Select(old, k))), []*Term{Select(na, k)}), "sort: elements outside the slice unchanged")
	fi, fj := Fresh("sort.i", IntS), Fresh("sort.j", IntS)
	lij := less(fi, fj)
	lji := Subst(lij, map[*Term]*Term{fi: fj, fj: fi})
	body := Implies(And(Le(Int(0), fi), Lt(fi, fj), Lt(fj, n), lji), lij)
	q := Subst(body, map[*Term]*Term{fi: i, fj: j})
	x.assume(f.curR, Forall([]*Term{i, j}, q), "sort: ordered by Less (a consistent ordering)")
	x.trust("sort: with a consistent ordering the result is an ordered permutation")
}

func (f *Frame) sortIface(v *Term, pos token.Pos) {
	x := f.x
	if v.Op != OCtor || v.DTC != cSlice || v.Args[0].Op != OInt {
		unsup("sort of an unknown dynamic type")
	}
	dt := tagTypes[int(v.Args[0].N.Int64())]
	st, ok := dt.Underlying().(*types.Slice)
	if !ok {
		unsup("sort of %s", dt)
	}
	s := v.Args[1]
	sel := x.V.prog.MethodSets.MethodSet(dt).Lookup(nil, "Less")
	if sel == nil {
		unsup("no Less on %s", dt)
	}
	lessFn := x.V.prog.MethodValue(sel)
	f.sortModel(s, st.Elem(), func(i, j *Term) *Term {
		rng := And(Le(Int(0), i), Lt(i, sLen(s)), Le(Int(0), j), Lt(j, sLen(s)))
		r, _ := f.runPure(&Closure{Fn: lessFn}, []Val{s, i, j}, And(f.curR, rng), false)
		return r
	}, pos)
}

func init() {
	externs["sort.Search"] = func(f *Frame, fn *ssa.Function, args []Val, pos token.Pos) Val {
		x := f.x
		n := x.term(args[0])
		// the predicate may be evaluated at any index in range
		j := Fresh("search.j", IntS)
		f.runPure(args[1], []Val{j}, And(f.curR, Le(Int(0), j), Lt(j, n)), false)
		i := Fresh("search.i", IntS)
		x.assume(f.curR, And(Le(Int(0), i), Implies(Le(Int(0), n), Le(i, n)), Implies(Lt(n, Int(0)), Eq(i, Int(0)))), "sort.Search range")
		at, _ := f.runPure(args[1], []Val{i}, And(f.curR, Lt(i, n)), true)
		x.assume(f.curR, Implies(Lt(i, n), at), "sort.Search: f(i) holds")
		bf, _ := f.runPure(args[1], []Val{AddI(i, -1)}, And(f.curR, Lt(Int(0), i)), true)
		x.assume(f.curR, Implies(Lt(Int(0), i), Not(bf)), "sort.Search: f(i-1) does not hold")
		return i
	}
	externs["sort.Sort"] = func(f *Frame, fn *ssa.Function, args []Val, pos token.Pos) Val {
		f.sortIface(f.x.term(args[0]), pos)
		return Tuple{}
	}
	externs["sort.Stable"] = externs["sort.Sort"]
	externs["sort.Slice"] = func(f *Frame, fn *ssa.Function, args []Val, pos token.Pos) Val {
		v := f.x.term(args[0])
		if v.Op != OCtor || v.DTC != cSlice || v.Args[0].Op != OInt {
			unsup("sort.Slice of an unknown dynamic type")
		}
		st := tagTypes[int(v.Args[0].N.Int64())].Underlying().(*types.Slice)
		s := v.Args[1]
		f.sortModel(s, st.Elem(), func(i, j *Term) *Term {
			rng := And(Le(Int(0), i), Lt(i, sLen(s)), Le(Int(0), j), Lt(j, sLen(s)))
			r, _ := f.runPure(args[1], []Val{i, j}, And(f.curR, rng), false)
			return r
		}, pos)
		return Tuple{}
	}
	externs["sort.SliceStable"] = externs["sort.Slice"]
	strSort := func(f *Frame, s *Term, pos token.Pos) {
		f.sortModel(s, tStr, func(i, j *Term) *Term {
			arr := Select(f.x.heap(f.cur, elemHeap(tStr)), sRef(s))
			return B("str.<", BoolS, Select(arr, Add(sOff(s), i)), Select(arr, Add(sOff(s), j)))
		}, pos)
	}
	externs["sort.Strings"] = func(f *Frame, fn *ssa.Function, args []Val, pos token.Pos) Val {
		strSort(f, f.x.term(args[0]), pos)
		return Tuple{}
	}
	externs["slices.Sort"] = func(f *Frame, fn *ssa.Function, args []Val, pos token.Pos) Val {
		if !types.Identical(fn.Signature.Params().At(0).Type().Underlying(), types.NewSlice(tStr)) {
			unsup("slices.Sort of %s", fn.Signature.Params().At(0).Type())
		}
		strSort(f, f.x.term(args[0]), pos)
		return Tuple{}
	}
	externs["slices.SortFunc"] = func(f *Frame, fn *ssa.Function, args []Val, pos token.Pos) Val {
		s := f.x.term(args[0])
		el := fn.Signature.Params().At(0).Type().Underlying().(*types.Slice).Elem()
		arrNow := func() *Term { return Select(f.x.heap(f.cur, elemHeap(el)), sRef(s)) }
		f.sortModel(s, el, func(i, j *Term) *Term {
			a := arrNow()
			r, _ := f.runPure(args[1], []Val{Select(a, Add(sOff(s), i)), Select(a, Add(sOff(s), j))}, f.curR, false)
			return Lt(r, Int(0))
		}, pos)
		return Tuple{}
	}

	// slices.Contains and ContainsFunc: some element / no element
	contains := func(f *Frame, s *Term, el types.Type, is func(v *Term) *Term) *Term {
		x := f.x
		arr0 := Select(x.heap(f.cur, elemHeap(el)), sRef(s))
		// names for the elements
		arr, off := Fresh("contains.arr", arr0.Sort), Fresh("contains.off", IntS)
		x.assume(f.curR, And(Eq(arr, arr0), Eq(off, sOff(s))), "contains: the elements")
		at := func(i *Term) *Term { return wf(Select(arr, Add(off, i)), el) }
		r := Fresh("contains", BoolS)
		w := Fresh("contains.at", IntS)
		i := Bound("ci", IntS)
		j := Fresh("contains.j", IntS)
		body := is(at(j))
		hold := func(t *Term) *Term { return Subst(body, map[*Term]*Term{j: t}) }
		in := func(t *Term) *Term { return And(Le(Int(0), t), Lt(t, sLen(s))) }
		x.assume(f.curR, Implies(r, And(in(w), hold(w))), "contains: a witness")
		x.assume(f.curR, Implies(Not(r), Forall([]*Term{i}, Implies(in(i), Not(hold(i))), []*Term{Select(arr, Add(off, i))})), "contains: no element")
		return r
	}
	externs["slices.Contains"] = func(f *Frame, fn *ssa.Function, args []Val, pos token.Pos) Val {
		el := fn.Signature.Params().At(0).Type().Underlying().(*types.Slice).Elem()
		v := f.x.term(args[1])
		return contains(f, f.x.term(args[0]), el, func(e *Term) *Term { return Eq(e, v) })
	}
	externs["slices.ContainsFunc"] = func(f *Frame, fn *ssa.Function, args []Val, pos token.Pos) Val {
		el := fn.Signature.Params().At(0).Type().Underlying().(*types.Slice).Elem()
		return contains(f, f.x.term(args[0]), el, func(e *Term) *Term {
			r, _ := f.runPure(args[1], []Val{e}, f.curR, false)
			return r
		})
	}

	// numbers in text: isnum(s, base) and its mathematical value
	parse := func(signed bool) externFn {
		return func(f *Frame, fn *ssa.Function, args []Val, pos token.Pos) Val {
			s, base := f.x.term(args[0]), Int(10)
			bits := int64(64)
			if len(args) == 3 {
				base = f.x.term(args[1])
				b := f.x.term(args[2])
				if b.Op != OInt {
					unsup("ParseUint with computed bit size")
				}
				bits = b.N.Int64()
				if bits == 0 {
					bits = 64
				}
			}
			ok, v := numText(s, base, signed)
			lo, hi := big.NewInt(0), new(big.Int).Sub(pow2(uint(bits)), one)
			if signed {
				lo, hi = new(big.Int).Neg(pow2(uint(bits-1))), new(big.Int).Sub(pow2(uint(bits-1)), one)
			}
			good := And(ok, Le(BigInt(lo), v), Le(v, BigInt(hi)))
			e := f.newError("strconv.NumError", App("numerrtext", StringS, s, base))
			bad := Ite(ok, Ite(Lt(v, BigInt(lo)), BigInt(lo), BigInt(hi)), Int(0))
			return Tuple{Ite(good, v, bad), Ite(good, iNil, e)}
		}
	}
	externs["strconv.ParseUint"] = parse(false)
	externs["strconv.ParseInt"] = parse(true)
	externs["strconv.Atoi"] = parse(true)

	externs["strings.Split"] = func(f *Frame, fn *ssa.Function, args []Val, pos token.Pos) Val {
		r := f.pureCall("strings.Split", fn.Signature, args).(*Term)
		s, sep := f.x.term(args[0]), f.x.term(args[1])
		if sep.Op == OStr && len(sep.S) == 1 {
			n := sLen(r)
			at := func(k int64) *Term { return Select(elemsArr(f.x, f.cur, tStr, r), Int(k)) }
			i := SIndexOf(s, sep, Int(0))
			rest := SFrom(s, AddI(i, 1))
			i2 := SIndexOf(rest, sep, Int(0))
			f.x.assume(f.curR, And(Lt(Int(0), n), Neq(sRef(r), Int(0)),
				Eq(Eq(n, Int(1)), Not(SContains(s, sep))),
				Implies(Eq(n, Int(1)), Eq(at(0), s)),
				Implies(Lt(Int(1), n), Eq(at(0), SSub(s, Int(0), i))),
				Eq(Eq(n, Int(2)), And(SContains(s, sep), Not(SContains(rest, sep)))),
				Implies(Eq(n, Int(2)), Eq(at(1), rest)),
				Implies(Lt(Int(2), n), Eq(at(1), SSub(rest, Int(0), i2)))), "strings.Split on one character")
		}
		return r
	}

	externs["encoding/json.Unmarshal"] = func(f *Frame, fn *ssa.Function, args []Val, pos token.Pos) Val {
		x := f.x
		doc := x.bytesOf(f.cur, x.term(args[0]))
		v := x.term(args[1])
		if v.Op != OCtor || v.DTC != cPtr || v.Args[0].Op != OInt {
			unsup("json.Unmarshal into an unknown type")
		}
		pt := tagTypes[int(v.Args[0].N.Int64())].Underlying().(*types.Pointer)
		bad := jsonErr(doc, pt.Elem())
		var val *Term
		pl := &Place{Heap: objHeap(pt.Elem()), Ref: v.Args[1], Root: pt.Elem(), T: pt.Elem()}
		before := x.load(f.cur, pl)
		switch u := pt.Elem().Underlying().(type) {
		case *types.Struct:
			s := sortOf(pt.Elem())
			c := s.DT.Ctors[0]
			fs := make([]*Term, u.NumFields())
			for i := range fs {
				nm := reflect.StructTag(u.Tag(i)).Get("json")
				if nm == "" || strings.Contains(nm, ",") {
					unsup("json field without a plain tag")
				}
				// a member that is absent leaves the field as it was
				fs[i] = Ite(App("json.has:"+nm, BoolS, doc), jsonField(doc, nm, u.Field(i).Type()), Sel(before, c, i))
			}
			val = MkCtor(s, c, fs...)
		default:
			val = jsonField(doc, "", pt.Elem())
		}
		// on error the target may be partly filled
		part := Fresh("json.partial", val.Sort)
		refEp[part] = 1
		x.store(f.cur, pl, Ite(bad, part, val))
		e := f.newError("json.error", App("jsonerrtext", StringS, doc))
		return Ite(bad, e, iNil)
	}
}

func jsonTypeName(t types.Type) string {
	if _, ok := t.Underlying().(*types.Struct); ok {
		return "struct"
	}
	return mangle(tname(t))
}

func jsonErr(doc *Term, t types.Type) *Term {
	return App("json.err:"+jsonTypeName(t), BoolS, doc)
}

// jsonField is the value of member nm (or of the whole document) decoded as t.
// The decoded structure is treated as immutable and existing before the call.
func jsonField(doc *Term, nm string, t types.Type) *Term {
	fnm := "json:" + nm + ":" + mangle(tname(t))
	funEp[fnm] = 1
	r := App(fnm, sortOf(t), doc)
	return wf(r, t)
}

func numText(s, base *Term, signed bool) (ok, v *Term) {
	k := "u"
	if signed {
		k = "i"
	}
	ok = App("isnum."+k, BoolS, s, base)
	v = App("numval."+k, IntS, s, base)
	if !signed {
		addFact(v, Le(Int(0), v))
	}
	return
}

var _ = sort.Strings
