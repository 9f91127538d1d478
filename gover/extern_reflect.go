package main

// Model of the part of reflect the decoder uses.
//
// A reflect.Type is a type number (for a type of the program, its dynamic type
// tag); a reflect.Value stands for the variable it refers to. What is stored in
// variables through reflection is recorded in ghost maps, one per kind of value.

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// typeNo is the type number of an interface's dynamic type.
func typeNo(v *Term) *Term {
	switch {
	case v.Op == OIte:
		return Ite(v.Args[0], typeNo(v.Args[1]), typeNo(v.Args[2]))
	case v.Op == OCtor && v.DTC == cNil:
		return Int(0)
	case v.Op == OCtor && (v.DTC == cPtr || v.DTC == cSlice || v.DTC == cInt || v.DTC == cOpq):
		return v.Args[0]
	}
	bt := func(k types.BasicKind) *Term { return Int(int64(typeTag(types.Typ[k]))) }
	return Ite(Eq(v, iNil), Int(0), Ite(Is(v, cPtr), Sel(v, cPtr, 0), Ite(Is(v, cSlice), Sel(v, cSlice, 0),
		Ite(Is(v, cInt), Sel(v, cInt, 0), Ite(Is(v, cOpq), Sel(v, cOpq, 0), Ite(Is(v, cStr), bt(types.String),
			Ite(Is(v, cBool), bt(types.Bool), bt(types.Float64))))))))
}

func rtUF(what string, s *Sort, t *Term) *Term {
	if t.Op == OIte {
		return Ite(t.Args[0], rtUF(what, s, t.Args[1]), rtUF(what, s, t.Args[2]))
	}
	r := App("rt."+what, s, t)
	if t.Op == OInt && what == "elem" {
		// New(T) of the element type of a pointer type gives that pointer type
		if dt := tagTypes[int(t.N.Int64())]; dt != nil {
			if p, ok := dt.Underlying().(*types.Pointer); ok {
				return Int(int64(typeTag(p.Elem())))
			}
		}
	}
	return r
}

func rvType(v *Term) *Term {
	r := App("rv.type", IntS, v)
	addFact(r, Neq(r, Int(0)))
	return r
}

// rvDepth counts the steps from the variable's root.
func rvDepth(v *Term) *Term { return App("rv.depth", IntS, v) }

func rvRoot(v *Term) *Term { return App("rv.root", IntS, v) }

// rtElem is the element type; those of a type the decoder supports are supported.
func rtElem(t *Term) *Term {
	r := rtUF("elem", IntS, t)
	k := rtUF("kind", IntS, t)
	if r.Op == OApp {
		addFact(r, Neq(r, Int(0)))
		addFact(r, Implies(And(rtOK(t), Or(Eq(k, Int(21)), Eq(k, Int(22)), Eq(k, Int(23)))),
			Or(rtOK(r), And(Eq(k, Int(22)), Eq(App("rt.name", StringS, r), Str("VCard"))))))
	}
	return r
}

// rtOK: the type is made of the kinds the decoder supports (computed for types of the program).
func rtOK(t *Term) *Term {
	if t.Op == OIte {
		return Ite(t.Args[0], rtOK(t.Args[1]), rtOK(t.Args[2]))
	}
	if t.Op == OInt {
		dt := tagTypes[int(t.N.Int64())]
		return Bool(dt != nil && supported(dt, map[string]bool{}))
	}
	r := App("rt.ok", BoolS, t)
	k := App("rt.kind", IntS, t)
	ks := []*Term{}
	for _, n := range []int64{1, 3, 4, 5, 6, 8, 9, 10, 11, 14, 21, 22, 23, 24, 25} {
		ks = append(ks, Eq(k, Int(n)))
	}
	addFact(r, Implies(r, Or(ks...)))
	addFact(r, Implies(And(r, Eq(k, Int(21))), Eq(App("rt.kind", IntS, App("rt.key", IntS, t)), Int(24))))
	return r
}

// supported follows the types of exported fields, as the decoder does.
func supported(t types.Type, seen map[string]bool) bool {
	k := tname(t)
	if seen[k] {
		return true
	}
	seen[k] = true
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.String, types.Float64, types.Int8, types.Int16, types.Int32, types.Int64,
			types.Uint8, types.Uint16, types.Uint32, types.Uint64:
			return true
		}
	case *types.Pointer:
		if n, ok := types.Unalias(u.Elem()).(*types.Named); ok && (n.Obj().Name() == "VCard" || n.Obj().Name() == "DecodeData") {
			return true
		}
		return supported(u.Elem(), seen)
	case *types.Slice:
		return supported(u.Elem(), seen)
	case *types.Map:
		b, ok := u.Key().Underlying().(*types.Basic)
		return ok && b.Kind() == types.String && supported(u.Elem(), seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if f := u.Field(i); (f.Exported() || f.Anonymous()) && !supported(f.Type(), seen) {
				return false
			}
		}
		return true
	}
	return false
}

func ptrTo(t *Term) *Term {
	if t.Op == OIte {
		return Ite(t.Args[0], ptrTo(t.Args[1]), ptrTo(t.Args[2]))
	}
	if t.Op == OInt {
		if dt := tagTypes[int(t.N.Int64())]; dt != nil {
			return Int(int64(typeTag(types.NewPointer(dt))))
		}
	}
	r := App("rt.ptr", IntS, t)
	addFact(r, Eq(App("rt.elem", IntS, r), t))
	if t.Op == OApp && t.S == "rt.elem" {
		// the pointer type whose element it is, when that is a pointer type
		addFact(r, Implies(App("rt.isptr", BoolS, t.Args[0]), Eq(r, t.Args[0])))
	}
	return r
}

func init() {
	for _, k := range []struct {
		n string
		t types.Type
	}{{"Uint", tInt}, {"Int", tInt}, {"Float", types.Typ[types.Float64]}, {"String", tStr}, {"Bool", tBool}, {"", tInt}} {
		ghostArr("rv"+k.n, IntS, k.t)
		gn := "rv" + k.n
		externs["(reflect.Value).Set"+k.n] = func(f *Frame, fn *ssa.Function, args []Val, pos token.Pos) Val {
			f.x.trust("reflect: setting a variable through reflection stores the value given, in that variable only")
			v, val := f.x.term(args[0]), f.x.term(args[1])
			f.setGhost(gn, Store(f.ghost(gn), v, val))
			f.setGhost("rvN", Store(f.ghost("rvN"), v, Add(Select(f.ghost("rvN"), v), Int(1))))
			return Tuple{}
		}
	}
	ghostArr("rvFrom", IntS, anyT) // the JSON value last decoded into the variable
	ghostArr("copyOf", IntS, anyT) // the JSON array an array was copied from
	ghostArr("rvN", IntS, tInt)    // how many times the variable was set
	pureT("reflect.TypeOf", func(f *Frame, a []*Term) *Term { return typeNo(a[0]) })
	pureT("(reflect.Value).Kind", func(f *Frame, a []*Term) *Term {
		return rtUF("kind", IntS, rvType(a[0]))
	})
	pureT("(reflect.Value).Type", func(f *Frame, a []*Term) *Term { return rvType(a[0]) })
	for _, what := range []string{"Elem", "Key"} {
		pure1("iface reflect.Type."+what, func(f *Frame, a []*Term) *Term {
			if what == "Elem" {
				return rtElem(a[0])
			}
			k := rtUF("key", IntS, a[0])
			addFact(k, Neq(k, Int(0)))
			return k
		})
	}
	pure1("iface reflect.Type.Kind", func(f *Frame, a []*Term) *Term { return rtUF("kind", IntS, a[0]) })
	pure1("iface reflect.Type.Name", func(f *Frame, a []*Term) *Term { return rtUF("name", StringS, a[0]) })
	pureT("reflect.Indirect", func(f *Frame, a []*Term) *Term {
		f.x.trust("reflect.Indirect: a pointer variable that is decoded into is not shared with another variable")
		r := App("rv.indirect", IntS, a[0])
		addFact(r, And(Eq(rvType(r), rtElem(rvType(a[0]))), Eq(rvRoot(r), rvRoot(a[0])), Eq(rvDepth(r), Add(rvDepth(a[0]), Int(1))), Neq(r, Int(0))))
		return r
	})
	pureT("reflect.ValueOf", func(f *Frame, a []*Term) *Term {
		r := App("rv.of", IntS, a[0])
		addFact(r, Implies(Neq(a[0], iNil), Eq(rvType(r), typeNo(a[0]))))
		addFact(r, Eq(App("rv.val", IfaceS, r), a[0]))
		addFact(r, Implies(Is(a[0], cStr), Eq(App("rv.text", StringS, r), Sel(a[0], cStr, 0))))
		return r
	})
	pureT("(reflect.Value).FieldByIndex", func(f *Frame, a []*Term) *Term {
		return rvField(a[0], sRef(a[1]))
	})
	externs["(reflect.Value).IsNil"] = func(f *Frame, fn *ssa.Function, args []Val, pos token.Pos) Val {
		return Fresh("isnil", BoolS)
	}
	newVar := func(f *Frame, t *Term) *Term {
		r := f.x.alloc(f.cur)
		f.x.assume(f.curR, And(Eq(rvType(r), t), Eq(rtOK(rvType(r)), rtOK(t)), Eq(rvRoot(r), r)), "a new variable")
		return r
	}
	externs["reflect.MakeSlice"] = func(f *Frame, fn *ssa.Function, args []Val, pos token.Pos) Val {
		r := newVar(f, f.x.term(args[0]))
		f.x.assume(f.curR, Eq(App("rs.len", IntS, r), f.x.term(args[1])), "a new slice")
		return r
	}
	externs["reflect.Append"] = func(f *Frame, fn *ssa.Function, args []Val, pos token.Pos) Val {
		s := f.x.term(args[0])
		vs, ok := f.variadic(f.x.term(args[1]), fn.Signature.Params().At(1).Type().(*types.Slice).Elem())
		if !ok || len(vs) != 1 {
			unsup("reflect.Append of several values")
		}
		r := newVar(f, rvType(s))
		n := App("rs.len", IntS, s)
		f.x.assume(f.curR, And(Eq(App("rs.len", IntS, r), Add(n, Int(1))),
			Eq(App("rs.arr", ArrS(IntS, IntS), r), Store(App("rs.arr", ArrS(IntS, IntS), s), n, vs[0]))), "reflect.Append")
		return r
	}
	// maps: key text -> the variable that holds the member, 0 when absent
	regHeap("H:rmap", ArrS(IntS, ArrS(StringS, IntS)))
	externs["reflect.MakeMap"] = func(f *Frame, fn *ssa.Function, args []Val, pos token.Pos) Val {
		r := newVar(f, f.x.term(args[0]))
		f.x.write(f.cur, "H:rmap", r, ConstArr(ArrS(StringS, IntS), Int(0)))
		return r
	}
	externs["(reflect.Value).SetMapIndex"] = func(f *Frame, fn *ssa.Function, args []Val, pos token.Pos) Val {
		m, k, v := f.x.term(args[0]), f.x.term(args[1]), f.x.term(args[2])
		f.x.write(f.cur, "H:rmap", m, Store(Select(f.x.heap(f.cur, "H:rmap"), m), App("rv.text", StringS, k), v))
		return Tuple{}
	}
	externs["reflect.New"] = func(f *Frame, fn *ssa.Function, args []Val, pos token.Pos) Val {
		f.x.trust("reflect.New: a new variable of the type given")
		return newVar(f, ptrTo(f.x.term(args[0])))
	}
	externs["(reflect.Value).Interface"] = func(f *Frame, fn *ssa.Function, args []Val, pos token.Pos) Val {
		v := f.x.term(args[0])
		return MkCtor(IfaceS, cPtr, App("rv.type", IntS, v), v)
	}
}

func pure1(name string, g termFn) {
	externs[name] = func(f *Frame, fn *ssa.Function, args []Val, pos token.Pos) Val {
		ts := make([]*Term, len(args))
		for i := range args {
			ts[i] = f.x.term(args[i])
		}
		return g(f, ts)
	}
}

func rvField(v, ix *Term) *Term {
	r := App("rv.field", IntS, v, ix)
	addFact(r, And(Eq(rvType(r), App("rt.field", IntS, rvType(v), ix)), Eq(rvRoot(r), rvRoot(v)), Eq(rvDepth(r), Add(rvDepth(v), Int(1))), Eq(App("rv.fieldix", IntS, r), ix), Neq(r, Int(0))))
	return r
}
