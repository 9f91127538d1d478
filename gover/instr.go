package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

func (f *Frame) set(v ssa.Value, r Val) { f.env[v] = r }

func (f *Frame) nonNil(p *Place, pos token.Pos, what string) {
	if p.Elem == nil && !(p.Ref.Op == OInt && p.Ref.N.Sign() > 0) {
		g := Neq(p.Ref, Int(0))
		if g != True {
			f.x.oblige(f.curR, g, "safety", f.loc()+" non-nil "+what, pos)
		}
	}
}

func (f *Frame) instr(ins ssa.Instruction) {
	x := f.x
	switch i := ins.(type) {
	case *ssa.Alloc:
		el := i.Type().Underlying().(*types.Pointer).Elem()
		r := x.alloc(f.cur)
		if a, ok := el.Underlying().(*types.Array); ok {
			hk := elemHeap(a.Elem())
			if hk == "B" {
				x.write(f.cur, hk, r, zero(el))
			} else {
				x.write(f.cur, hk, r, ConstArr(ArrS(IntS, sortOf(a.Elem())), zero(a.Elem())))
			}
			f.set(i, r)
			return
		}
		x.write(f.cur, objHeap(el), r, zero(el))
		f.set(i, r)
	case *ssa.UnOp:
		f.unop(i)
	case *ssa.BinOp:
		f.set(i, f.binop(i.Op, f.val(i.X), f.val(i.Y), i.X.Type(), i.Type(), i.Pos()))
	case *ssa.Store:
		p := x.place(f.val(i.Addr), i.Addr.Type())
		f.nonNil(p, i.Pos(), "store")
		v := f.val(i.Val)
		x.store(f.cur, p, x.term(v))
	case *ssa.FieldAddr:
		bp := x.place(f.val(i.X), i.X.Type())
		f.nonNil(bp, i.Pos(), "field access ."+bp.T.Underlying().(*types.Struct).Field(i.Field).Name())
		n := *bp
		n.Path = append(append([]int{}, bp.Path...), i.Field)
		n.T = fieldType(bp.T, i.Field)
		f.set(i, &n)
	case *ssa.Field:
		v := f.t(i.X)
		r := fieldSel(v, i.X.Type(), i.Field)
		f.set(i, wf(r, i.Type()))
	case *ssa.IndexAddr:
		idx := f.t(i.Index)
		switch u := i.X.Type().Underlying().(type) {
		case *types.Slice:
			s := f.t(i.X)
			x.oblige(f.curR, And(Le(Int(0), idx), Lt(idx, sLen(s))), "safety", f.loc()+" index in range", i.Pos())
			f.set(i, &Place{Heap: elemHeap(u.Elem()), Ref: sRef(s), Elem: Add(sOff(s), idx), Root: u.Elem(), T: u.Elem()})
		case *types.Pointer:
			a := u.Elem().Underlying().(*types.Array)
			p := f.val(i.X)
			var ref *Term
			switch p := p.(type) {
			case *Term:
				ref = p
			case *Place:
				if len(p.Path) == 0 && p.Elem == nil {
					ref = p.Ref
				} else {
					unsup("index of array field")
				}
			}
			x.oblige(f.curR, And(Le(Int(0), idx), Lt(idx, Int(a.Len()))), "safety", f.loc()+" index in range", i.Pos())
			f.set(i, &Place{Heap: elemHeap(a.Elem()), Ref: ref, Elem: idx, Root: a.Elem(), T: a.Elem()})
		default:
			unsup("indexaddr %s", i.X.Type())
		}
	case *ssa.Index:
		idx := f.t(i.Index)
		v := f.t(i.X)
		if v.Sort == StringS {
			x.oblige(f.curR, And(Le(Int(0), idx), Lt(idx, SLen(v))), "safety", f.loc()+" string index in range", i.Pos())
			f.set(i, strByte(v, idx))
			return
		}
		a := i.X.Type().Underlying().(*types.Array)
		x.oblige(f.curR, And(Le(Int(0), idx), Lt(idx, Int(a.Len()))), "safety", f.loc()+" index in range", i.Pos())
		f.set(i, wf(Select(v, idx), i.Type()))
	case *ssa.Lookup:
		f.lookup(i)
	case *ssa.MapUpdate:
		mt := i.Map.Type().Underlying().(*types.Map)
		m := f.t(i.Map)
		x.oblige(f.curR, Neq(m, Int(0)), "safety", f.loc()+" map non-nil on write", i.Pos())
		k, v := f.t(i.Key), f.t(i.Value)
		x.mapStore(f.cur, mt, m, k, v)
	case *ssa.MakeMap:
		mt := i.Type().Underlying().(*types.Map)
		f.set(i, x.newMap(f.cur, mt))
	case *ssa.MakeSlice:
		st := i.Type().Underlying().(*types.Slice)
		n, c := f.t(i.Len), f.t(i.Cap)
		x.oblige(f.curR, And(Le(Int(0), n), Le(n, c)), "safety", f.loc()+" make: 0 <= len <= cap", i.Pos())
		r := x.alloc(f.cur)
		if isByte(st.Elem()) {
			x.write(f.cur, elemHeap(st.Elem()), r, zeroBytes(c))
		} else {
			x.write(f.cur, elemHeap(st.Elem()), r, ConstArr(ArrS(IntS, sortOf(st.Elem())), zero(st.Elem())))
		}
		f.set(i, mkSlice(r, Int(0), n, c))
	case *ssa.Slice:
		f.sliceOp(i)
	case *ssa.MakeInterface:
		f.set(i, x.makeIface(f.val(i.X), i.X.Type()))
	case *ssa.ChangeInterface:
		f.set(i, f.val(i.X))
	case *ssa.ChangeType:
		f.set(i, f.val(i.X))
	case *ssa.Convert:
		f.set(i, f.convert(f.val(i.X), i.X.Type(), i.Type()))
	case *ssa.TypeAssert:
		f.typeAssert(i)
	case *ssa.MakeClosure:
		c := &Closure{Fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			c.Bind = append(c.Bind, f.val(b))
		}
		f.set(i, c)
	case *ssa.Extract:
		tu, ok := f.val(i.Tuple).(Tuple)
		if !ok {
			unsup("extract of %T", f.val(i.Tuple))
		}
		f.set(i, tu[i.Index])
	case *ssa.Range:
		f.rangeInit(i)
	case *ssa.Next:
		f.next(i)
	case *ssa.Call:
		r := f.call(i.Common(), i.Pos(), i)
		f.set(i, r)
	case *ssa.Defer:
		d := deferRec{call: i, guard: f.curR}
		if !i.Call.IsInvoke() {
			d.fn = f.val(i.Call.Value)
		} else {
			d.fn = f.val(i.Call.Value)
		}
		for _, a := range i.Call.Args {
			d.args = append(d.args, f.val(a))
		}
		f.defers = append(f.defers, d)
	case *ssa.RunDefers:
		f.runDefers()
	default:
		unsup("instruction %T in %s", ins, f.fn)
	}
}

func zeroBytes(n *Term) *Term {
	if n.Op == OInt && n.N.IsInt64() && n.N.Int64() <= 64 {
		b := make([]byte, n.N.Int64())
		return Str(string(b))
	}
	t := App("zerobytes", StringS, n)
	addFact(t, Implies(Le(Int(0), n), Eq(SLen(t), n)))
	return t
}

func strByte(s, idx *Term) *Term {
	c := SCode(SAt(s, idx))
	if c.Op != OInt && !c.bound {
		byteCode[c] = true
		addFact(c, Implies(And(Le(Int(0), idx), Lt(idx, SLen(s))), And(Le(Int(0), c), Le(c, Int(255)))))
	}
	return c
}

func (f *Frame) runDefers() {
	x := f.x
	ds := f.defers
	for k := len(ds) - 1; k >= 0; k-- {
		d := ds[k]
		g := And(f.curR, relCond(d.guard, f.curR))
		if g == False {
			continue
		}
		before := f.cur.clone()
		r0 := f.curR
		f.curR = g
		f.callWith(d.call.Common(), d.fn, d.args, d.call.Pos(), nil)
		afterR := f.curR
		// merge with the path where it was not deferred
		ng := And(r0, Not(relCond(d.guard, r0)))
		if ng == False {
			f.curR = r0
			if afterR == False {
				f.curR = False
			}
			continue
		}
		r, s, _ := x.mergeStates([]edgeState{{g, f.cur, 0}, {ng, before, 0}})
		f.curR, f.cur = r, s
	}
}

func (f *Frame) unop(i *ssa.UnOp) {
	x := f.x
	switch i.Op {
	case token.MUL:
		v := f.val(i.X)
		if c, ok := v.(*Closure); ok {
			f.set(i, c)
			return
		}
		p := x.place(v, i.X.Type())
		f.nonNil(p, i.Pos(), "dereference")
		if g, ok := i.X.(*ssa.Global); ok {
			if t := x.V.globalValue(x, g); t != nil {
				f.set(i, t)
				return
			}
		}
		r := x.load(f.cur, p)
		if r.Op == OInt {
			if _, isF := i.Type().Underlying().(*types.Signature); isF && r.N.IsInt64() {
				if c, ok := closureTab[r.N.Int64()]; ok {
					f.set(i, c)
					return
				}
			}
		}
		f.set(i, r)
	case token.NOT:
		f.set(i, Not(f.t(i.X)))
	case token.SUB:
		v := f.t(i.X)
		if v.Sort == RealS {
			f.set(i, B("-", RealS, v))
		} else {
			f.set(i, wrapInt(Sub(Int(0), v), i.Type(), true))
		}
	case token.XOR:
		v := f.t(i.X)
		// ^v = -v-1 for signed; max-v for unsigned
		lo, hi, _ := intRange(i.Type())
		if lo.Sign() == 0 {
			f.set(i, Sub(BigInt(hi), v))
		} else {
			f.set(i, Sub(Int(-1), v))
		}
	default:
		unsup("unop %s", i.Op)
	}
}

func pow2(n uint) *big.Int { return new(big.Int).Lsh(one, n) }

// wrapInt reduces v to the range of integer type t (64-bit signed arithmetic
// is treated as mathematical unless force).
func wrapInt(v *Term, t types.Type, force bool) *Term {
	lo, hi, ok := intRange(t)
	if !ok {
		return v
	}
	if v.Op == OInt && v.N.Cmp(lo) >= 0 && v.N.Cmp(hi) <= 0 {
		return v
	}
	size := new(big.Int).Add(new(big.Int).Sub(hi, lo), one)
	if v.Op != OInt {
		if lo.Sign() != 0 && size.BitLen() == 65 {
			return v // 64-bit signed: mathematical
		}
	}
	w := Add(Mod(Sub(v, BigInt(lo)), BigInt(size)), BigInt(lo))
	if v.Op == OInt {
		return w
	}
	return Ite(And(Le(BigInt(lo), v), Le(v, BigInt(hi))), v, w)
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func (f *Frame) binop(op token.Token, xv, yv Val, xt, rt types.Type, pos token.Pos) Val {
	x := f.x
	switch op {
	case token.EQL, token.NEQ:
		var e *Term
		if c, ok := xv.(*Closure); ok {
			_ = c
			e = False // comparison with nil only
		} else {
			a, b := x.term(xv), x.term(yv)
			if a.Sort == SliceS {
				e = Eq(sRef(a), sRef(b)) // only comparable with nil
			} else {
				e = Eq(a, b)
			}
		}
		if op == token.NEQ {
			return Not(e)
		}
		return e
	}
	a, b := x.term(xv), x.term(yv)
	switch op {
	case token.ADD:
		if a.Sort == StringS {
			return SCat(a, b)
		}
		return wrapInt(Add(a, b), rt, false)
	case token.SUB:
		return wrapInt(Sub(a, b), rt, false)
	case token.MUL:
		return wrapInt(Mul(a, b), rt, false)
	case token.QUO:
		if a.Sort == RealS {
			return B("/", RealS, a, b)
		}
		x.oblige(f.curR, Neq(b, Int(0)), "safety", f.loc()+" division by zero", pos)
		if isUnsigned(rt) || (a.Op == OInt && b.Op == OInt && a.N.Sign() >= 0 && b.N.Sign() > 0) {
			return Div(a, b)
		}
		return Ite(Le(Int(0), a), Div(a, b), Sub(Int(0), Div(Sub(Int(0), a), b)))
	case token.REM:
		x.oblige(f.curR, Neq(b, Int(0)), "safety", f.loc()+" division by zero", pos)
		if isUnsigned(rt) {
			return Mod(a, b)
		}
		return Ite(Le(Int(0), a), Mod(a, b), Sub(Int(0), Mod(Sub(Int(0), a), b)))
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if a.Sort == StringS {
			switch op {
			case token.LSS:
				return B("str.<", BoolS, a, b)
			case token.LEQ:
				return B("str.<=", BoolS, a, b)
			case token.GTR:
				return B("str.<", BoolS, b, a)
			default:
				return B("str.<=", BoolS, b, a)
			}
		}
		switch op {
		case token.LSS:
			return Lt(a, b)
		case token.LEQ:
			return Le(a, b)
		case token.GTR:
			return Lt(b, a)
		default:
			return Le(b, a)
		}
	case token.SHR:
		if b.Op == OInt && b.N.IsInt64() && b.N.Int64() < 64 {
			return Div(a, BigInt(pow2(uint(b.N.Int64()))))
		}
	case token.SHL:
		if b.Op == OInt && b.N.IsInt64() && b.N.Int64() < 64 {
			return wrapInt(Mul(a, BigInt(pow2(uint(b.N.Int64())))), rt, true)
		}
	case token.AND:
		for _, pr := range [][2]*Term{{a, b}, {b, a}} {
			if pr[1].Op == OInt && pr[1].N.Sign() >= 0 {
				m := new(big.Int).Add(pr[1].N, one)
				if new(big.Int).And(m, pr[1].N).Sign() == 0 {
					return Mod(pr[0], BigInt(m))
				}
			}
		}
		if a.Op == OInt && b.Op == OInt && a.N.Sign() >= 0 && b.N.Sign() >= 0 {
			return BigInt(new(big.Int).And(a.N, b.N))
		}
	case token.OR:
		if a.Op == OInt && b.Op == OInt && a.N.Sign() >= 0 && b.N.Sign() >= 0 {
			return BigInt(new(big.Int).Or(a.N, b.N))
		}
	}
	r := App("bitop."+mangle(op.String())+fmt.Sprint(int(op)), IntS, a, b)
	return wf(r, rt)
}

// ---- maps

func (x *Exec) newMap(st *State, mt *types.Map) *Term {
	r := x.alloc(st)
	d, v := mapHeaps(mt)
	ks, vs := sortOf(mt.Key()), sortOf(mt.Elem())
	x.write(st, d, r, ConstArr(ArrS(ks, BoolS), False))
	x.write(st, v, r, ConstArr(ArrS(ks, vs), zero(mt.Elem())))
	return r
}

func (x *Exec) mapDom(st *State, mt *types.Map, m *Term) *Term {
	d, _ := mapHeaps(mt)
	return Select(x.heap(st, d), m)
}
func (x *Exec) mapVals(st *State, mt *types.Map, m *Term) *Term {
	_, v := mapHeaps(mt)
	return Select(x.heap(st, v), m)
}

func (x *Exec) mapHas(st *State, mt *types.Map, m, k *Term) *Term {
	return And(Neq(m, Int(0)), Select(x.mapDom(st, mt, m), k))
}

func (x *Exec) mapGet(st *State, mt *types.Map, m, k *Term) *Term {
	v := Select(x.mapVals(st, mt, m), k)
	wf(v, mt.Elem())
	return Ite(x.mapHas(st, mt, m, k), v, zero(mt.Elem()))
}

func (x *Exec) mapStore(st *State, mt *types.Map, m, k, v *Term) {
	d, vh := mapHeaps(mt)
	x.write(st, d, m, Store(x.mapDom(st, mt, m), k, True))
	x.write(st, vh, m, Store(x.mapVals(st, mt, m), k, v))
}

func (f *Frame) lookup(i *ssa.Lookup) {
	x := f.x
	if mt, ok := i.X.Type().Underlying().(*types.Map); ok {
		m, k := f.t(i.X), f.t(i.Index)
		has := x.mapHas(f.cur, mt, m, k)
		v := x.mapGet(f.cur, mt, m, k)
		if i.CommaOk {
			f.set(i, Tuple{v, has})
		} else {
			f.set(i, v)
		}
		return
	}
	idx := f.t(i.Index)
	v := f.t(i.X)
	x.oblige(f.curR, And(Le(Int(0), idx), Lt(idx, SLen(v))), "safety", f.loc()+" string index in range", i.Pos())
	f.set(i, strByte(v, idx))
}

var iterCnt int

func (f *Frame) rangeInit(i *ssa.Range) {
	x := f.x
	iterCnt++
	if mt, ok := i.X.Type().Underlying().(*types.Map); ok {
		m := f.t(i.X)
		k := fmt.Sprintf("it:%d", iterCnt)
		s := ArrS(sortOf(mt.Key()), BoolS)
		heapSortOf[k] = s
		f.cur.h[k] = ConstArr(s, False)
		f.set(i, &Iter{Map: m, MT: mt, Vis: k, Dom0: x.mapDom(f.cur, mt, m), n: iterCnt})
		return
	}
	s := f.t(i.X)
	if s.Sort == StringS {
		k := fmt.Sprintf("it:%d", iterCnt)
		heapSortOf[k] = IntS
		f.cur.h[k] = Int(0)
		f.set(i, &Iter{Str: s, Vis: k, n: iterCnt})
		return
	}
	unsup("range over %s", i.X.Type())
}

func (f *Frame) next(i *ssa.Next) {
	x := f.x
	it, ok := f.val(i.Iter).(*Iter)
	if !ok {
		unsup("next of %T", f.val(i.Iter))
	}
	if it.Str != nil {
		pos := x.heap(f.cur, it.Vis)
		ok := Lt(pos, SLen(it.Str))
		r := Fresh("rune", IntS)
		w := Fresh("runew", IntS)
		x.assume(f.curR, And(Le(Int(0), r), Le(r, Int(0x10FFFF)), Le(Int(1), w), Le(w, Int(4)), Implies(ok, Le(Add(pos, w), SLen(it.Str)))), "rune")
		c := strByte(it.Str, pos)
		x.assume(f.curR, Implies(ok, And(Eq(Lt(c, Int(128)), Lt(r, Int(128))), Implies(Lt(c, Int(128)), And(Eq(r, c), Eq(w, Int(1)))))), "rune decoding")
		f.cur.h[it.Vis] = Ite(ok, Add(pos, w), pos)
		x.writes = append(x.writes, writeRec{it.Vis, nil, false})
		f.set(i, Tuple{ok, pos, r})
		return
	}
	mt := it.MT
	vis := x.heap(f.cur, it.Vis)
	okT := Fresh("next.ok", BoolS)
	k := Fresh("next.k", sortOf(mt.Key()))
	wf(k, mt.Key())
	dom := x.mapDom(f.cur, mt, it.Map)
	nn := Neq(it.Map, Int(0))
	x.assume(f.curR, Implies(okT, And(nn, Select(dom, k), Not(Select(vis, k)))), "range next: an unvisited key")
	bk := Bound("k?"+it.Vis, sortOf(mt.Key()))
	if nn != False {
		done := And(nn, Select(it.Dom0, bk), Select(dom, bk))
		x.assume(f.curR, Implies(Not(okT), Forall([]*Term{bk}, Implies(done, Select(vis, bk)))), "range done: all keys visited")
		// instances for ghosts of the key sort
		for _, g := range x.ghosts {
			if g.T != nil && g.T.Sort == bk.Sort {
				x.assume(f.curR, Implies(Not(okT), Implies(And(nn, Select(it.Dom0, g.T), Select(dom, g.T)), Select(vis, g.T))), "range done (ghost instance)")
			}
		}
	}
	v := Select(x.mapVals(f.cur, mt, it.Map), k)
	wf(v, mt.Elem())
	f.cur.h[it.Vis] = Ite(okT, Store(vis, k, True), vis)
	x.writes = append(x.writes, writeRec{it.Vis, nil, false})
	f.set(i, Tuple{okT, k, v})
}

// ---- slices

func (f *Frame) sliceOp(i *ssa.Slice) {
	x := f.x
	opt := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return f.t(v)
	}
	switch u := i.X.Type().Underlying().(type) {
	case *types.Basic:
		s := f.t(i.X)
		lo := opt(i.Low, Int(0))
		hi := opt(i.High, SLen(s))
		x.oblige(f.curR, And(Le(Int(0), lo), Le(lo, hi), Le(hi, SLen(s))), "safety", f.loc()+" string slice in range", i.Pos())
		f.set(i, SSub(s, lo, Sub(hi, lo)))
	case *types.Slice:
		s := f.t(i.X)
		lo := opt(i.Low, Int(0))
		hi := opt(i.High, sLen(s))
		mx := opt(i.Max, sCap(s))
		x.oblige(f.curR, And(Le(Int(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, sCap(s))), "safety", f.loc()+" slice in range", i.Pos())
		f.set(i, mkSlice(sRef(s), Add(sOff(s), lo), Sub(hi, lo), Sub(mx, lo)))
	case *types.Pointer:
		a := u.Elem().Underlying().(*types.Array)
		p := f.val(i.X)
		ref := x.term(p)
		n := Int(a.Len())
		lo := opt(i.Low, Int(0))
		hi := opt(i.High, n)
		mx := opt(i.Max, n)
		x.oblige(f.curR, And(Le(Int(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, n)), "safety", f.loc()+" slice in range", i.Pos())
		f.set(i, mkSlice(ref, lo, Sub(hi, lo), Sub(mx, lo)))
	default:
		unsup("slice of %s", i.X.Type())
	}
}

// contentLen gives the length of byte contents built by append.
var contentLen = map[*Term]*Term{}

// bytesOf is the content of a []byte value as a string.
func (x *Exec) bytesOf(st *State, s *Term) *Term {
	c := Select(x.heap(st, regHeap("B", ArrS(IntS, StringS))), sRef(s))
	if s.Op == OCtor && sRef(s) == Int(0) {
		return Str("")
	}
	if us := units(c); us != nil && sOff(s) == Int(0) && sLen(s) == Int(int64(len(us))) {
		return c
	}
	if c.Op == OIte {
		if n := sLen(s); sOff(s) == Int(0) && n.Op == OIte && n.Args[0] == c.Args[0] && contentLen[c.Args[1]] == n.Args[1] && contentLen[c.Args[2]] == n.Args[2] && n.Args[1] != nil && n.Args[2] != nil {
			return c
		}
	}
	if l := contentLen[c]; l != nil && sOff(s) == Int(0) && l == sLen(s) {
		return c
	}
	r := SSub(c, sOff(s), sLen(s))
	if r.Op == OApp && r.S == "str.substr" {
		// the backing array covers the slice
		if l, ok := knownLen[r]; !ok || l == sLen(s) {
			knownLen[r] = sLen(s)
			addFact(r, Implies(Neq(sRef(s), Int(0)), Eq(B("str.len", IntS, r), sLen(s))))
		}
		addFact(r, Implies(Eq(sRef(s), Int(0)), Eq(r, Str(""))))
	}
	return r
}

func (x *Exec) newBytes(st *State, content *Term) *Term {
	r := x.alloc(st)
	x.write(st, regHeap("B", ArrS(IntS, StringS)), r, content)
	return mkSlice(r, Int(0), SLen(content), SLen(content))
}

func elemsArr(x *Exec, st *State, el types.Type, s *Term) *Term {
	return Shift(Select(x.heap(st, elemHeap(el)), sRef(s)), sOff(s))
}

// appendElems models append(s, t...) for slices of element type el: the result
// is a fresh backing array (see DESIGN: append never aliases).
func (x *Exec) appendSlice(st *State, el types.Type, s, t *Term) *Term {
	n, m := sLen(s), sLen(t)
	if m == Int(0) {
		return s
	}
	r := x.alloc(st)
	if isByte(el) {
		c := SCat(x.bytesOf(st, s), x.bytesOf(st, t))
		contentLen[c] = Add(n, m)
		x.write(st, "B", r, c)
		cp := Fresh("cap", IntS)
		addFact(cp, Le(Add(n, m), cp))
		return mkSlice(r, Int(0), Add(n, m), cp)
	}
	a, b := elemsArr(x, st, el, s), elemsArr(x, st, el, t)
	var arr *Term
	if m.Op == OInt && m.N.IsInt64() && m.N.Int64() <= 8 {
		arr = a
		if n == Int(0) {
			arr = ConstArr(a.Sort, zero(el))
		}
		for k := int64(0); k < m.N.Int64(); k++ {
			arr = Store(arr, AddI(n, k), Select(b, Int(k)))
		}
	} else {
		arr = Cat(a, n, b, Int(0))
	}
	x.write(st, elemHeap(el), r, arr)
	cp := Fresh("cap", IntS)
	addFact(cp, Le(Add(n, m), cp))
	nl := Add(n, m)
	if m.Op == OInt {
		return mkSlice(r, Int(0), nl, cp)
	}
	// appending nothing to a nil slice stays nil
	isNil := And(Eq(sRef(s), Int(0)), Eq(m, Int(0)))
	return mkSlice(Ite(isNil, Int(0), r), Int(0), nl, Ite(isNil, Int(0), cp))
}

// ---- interfaces

func (x *Exec) makeIface(v Val, t types.Type) *Term {
	t = types.Unalias(t)
	if _, ok := t.Underlying().(*types.Interface); ok {
		return x.term(v)
	}
	tag := Int(int64(typeTag(t)))
	switch b := t.(type) {
	case *types.Basic:
		switch b.Kind() {
		case types.String, types.UntypedString:
			return MkCtor(IfaceS, cStr, x.term(v))
		case types.Bool, types.UntypedBool:
			return MkCtor(IfaceS, cBool, x.term(v))
		case types.Float64, types.UntypedFloat:
			return MkCtor(IfaceS, cReal, x.term(v))
		case types.UntypedNil:
			return iNil
		}
	}
	if n, ok := t.(*types.Named); ok && opaqueNamed(tname(n)) {
		return MkCtor(IfaceS, cOpq, tag, x.term(v))
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return MkCtor(IfaceS, cPtr, tag, x.term(v))
	case *types.Slice:
		return MkCtor(IfaceS, cSlice, tag, x.term(v))
	}
	tv := x.term(v)
	if tv.Sort == IntS {
		return MkCtor(IfaceS, cInt, tag, tv)
	}
	return MkCtor(IfaceS, cOpq, tag, boxTerm(tv))
}

func boxTerm(v *Term) *Term {
	nm := "box." + mangle(v.Sort.Name)
	b := App(nm, IntS, v)
	addFact(b, Eq(App("un"+nm, v.Sort, b), v))
	return b
}

// ifaceIs returns the condition that iface v has dynamic type t, and the value.
func ifaceIs(v *Term, t types.Type) (ok, val *Term) {
	t = types.Unalias(t)
	tag := Int(int64(typeTag(t)))
	if b, isB := t.(*types.Basic); isB {
		switch b.Kind() {
		case types.String:
			return Is(v, cStr), Sel(v, cStr, 0)
		case types.Bool:
			return Is(v, cBool), Sel(v, cBool, 0)
		case types.Float64:
			return Is(v, cReal), Sel(v, cReal, 0)
		}
	}
	if n, ok := t.(*types.Named); ok && opaqueNamed(tname(n)) {
		return And(Is(v, cOpq), Eq(Sel(v, cOpq, 0), tag)), Sel(v, cOpq, 1)
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return And(Is(v, cPtr), Eq(Sel(v, cPtr, 0), tag)), Sel(v, cPtr, 1)
	case *types.Slice:
		return And(Is(v, cSlice), Eq(Sel(v, cSlice, 0), tag)), Sel(v, cSlice, 1)
	}
	s := sortOf(t)
	if s == IntS {
		return And(Is(v, cInt), Eq(Sel(v, cInt, 0), tag)), Sel(v, cInt, 1)
	}
	return And(Is(v, cOpq), Eq(Sel(v, cOpq, 0), tag)), App("unbox."+mangle(s.Name), s, Sel(v, cOpq, 1))
}

func (f *Frame) typeAssert(i *ssa.TypeAssert) {
	x := f.x
	v := f.t(i.X)
	if _, ok := i.AssertedType.Underlying().(*types.Interface); ok {
		okT := Fresh("implements", BoolS)
		x.assume(f.curR, Implies(okT, Neq(v, iNil)), "assert to interface")
		if types.Identical(i.AssertedType, types.Universe.Lookup("any").Type()) {
			okT = Neq(v, iNil)
		}
		if i.CommaOk {
			f.set(i, Tuple{Ite(okT, v, iNil), okT})
		} else {
			x.oblige(f.curR, okT, "safety", f.loc()+" type assertion", i.Pos())
			f.set(i, v)
		}
		return
	}
	ok, val := ifaceIs(v, i.AssertedType)
	if sortOf(i.AssertedType) == SliceS {
		if e := refEpoch(v); e > 0 && v.Op != OCtor {
			wfIface(v)
		}
	}
	wf(val, i.AssertedType)
	if i.CommaOk {
		f.set(i, Tuple{Ite(ok, val, zero(i.AssertedType)), ok})
	} else {
		x.oblige(f.curR, ok, "safety", f.loc()+" type assertion to "+tname(i.AssertedType), i.Pos())
		f.set(i, val)
	}
}

// ---- conversions

func (f *Frame) convert(v Val, from, to types.Type) Val {
	x := f.x
	fs, ts := sortOf(from), sortOf(to)
	switch {
	case fs == IntS && ts == IntS:
		t := x.term(v)
		flo, fhi, ok1 := intRange(from)
		tlo, thi, ok2 := intRange(to)
		if !ok1 || !ok2 {
			return t
		}
		if flo.Cmp(tlo) >= 0 && fhi.Cmp(thi) <= 0 {
			return t
		}
		// value known in range by its own facts is left to the solver
		size := new(big.Int).Add(new(big.Int).Sub(thi, tlo), one)
		if t.Op == OInt {
			m := new(big.Int)
			new(big.Int).DivMod(new(big.Int).Sub(t.N, tlo), size, m)
			return BigInt(m.Add(m, tlo))
		}
		return Ite(And(Le(BigInt(tlo), t), Le(t, BigInt(thi))), t, Add(Mod(Sub(t, BigInt(tlo)), BigInt(size)), BigInt(tlo)))
	case fs == IntS && ts == RealS:
		return B("to_real", RealS, x.term(v))
	case fs == RealS && ts == IntS:
		t := x.term(v)
		lo, hi, _ := intRange(to)
		tr := Ite(Le(RealLit("0.0"), t), B("to_int", IntS, t), Sub(Int(0), B("to_int", IntS, B("-", RealS, t))))
		u := App("f2i."+mangle(tname(to)), IntS, t)
		addFact(u, And(Le(BigInt(lo), u), Le(u, BigInt(hi))))
		return Ite(And(Le(BigInt(lo), tr), Le(tr, BigInt(hi))), tr, u)
	case fs == RealS && ts == RealS:
		return v
	case fs == StringS && isByteSlice(to):
		return x.newBytes(f.cur, x.term(v))
	case isByteSlice(from) && ts == StringS:
		return x.bytesOf(f.cur, x.term(v))
	case fs == StringS && ts == StringS:
		return v
	case fs == IntS && ts == StringS:
		t := x.term(v)
		u := App("rune2str", StringS, t)
		for _, c := range lineChars {
			addFact(u, Implies(Or(Lt(t, Int(0)), Le(Int(128), t)), Not(SContains(u, Str(c)))))
		}
		return Ite(And(Le(Int(0), t), Lt(t, Int(128))), SFromCode(t), u)
	case fs == SliceS && ts == SliceS:
		return v
	}
	unsup("conversion %s to %s", from, to)
	return nil
}
