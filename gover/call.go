package main

// Calls: builtins, contracts, extern models, inlining.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func tupleOf(vals []Val) Val {
	switch len(vals) {
	case 0:
		return Tuple{}
	case 1:
		return vals[0]
	}
	return Tuple(vals)
}

func (f *Frame) call(c *ssa.CallCommon, pos token.Pos, ins *ssa.Call) Val {
	var args []Val
	for _, a := range c.Args {
		args = append(args, f.val(a))
	}
	return f.callWith(c, f.val(c.Value), args, pos, ins)
}

func (f *Frame) callWith(c *ssa.CallCommon, fv Val, args []Val, pos token.Pos, ins *ssa.Call) Val {
	x := f.x
	if b, ok := fv.(*ssa.Builtin); ok {
		return f.builtin(b, c, args, pos)
	}
	if c.IsInvoke() {
		return f.invoke(c, x.term(fv), args, pos)
	}
	switch v := fv.(type) {
	case *Closure:
		if v.Fn == nil {
			return Tuple{} // cancelling a context
		}
		return f.callFn(v.Fn, args, v.Bind, c, pos)
	case *Term:
		if v.Op == OInt && v.N.IsInt64() {
			if cl, ok := closureTab[v.N.Int64()]; ok {
				return f.callFn(cl.Fn, args, cl.Bind, c, pos)
			}
		}
		if v.Op == OIte {
			if sg := c.Signature(); sg.Results().Len() == 0 && sg.Params().Len() == 1 && isString(sg.Params().At(0).Type()) && quietLeaves(v) {
				x.oblige(f.curR, Neq(v, Int(0)), "safety", f.loc()+" called function value non-nil", pos)
				x.trust("a Verbose callback (func(string)) has no effect on the data under proof")
				return Tuple{}
			}
			return f.callIte(v, c, args, pos)
		}
		x.oblige(f.curR, Neq(v, Int(0)), "safety", f.loc()+" called function value non-nil", pos)
		sig := c.Signature()
		if sig.Results().Len() == 0 && sig.Params().Len() == 1 && isString(sig.Params().At(0).Type()) {
			x.trust("a Verbose callback (func(string)) has no effect on the data under proof")
			return Tuple{}
		}
		x.trust("unknown function value of type " + sig.String() + ": arbitrary effects assumed")
		x.havocAll(f.cur)
		return f.freshResults("dyn", sig)
	}
	unsup("call of %T", fv)
	return nil
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// callIte calls a function value that is one of two known ones.
func (f *Frame) callIte(v *Term, c *ssa.CallCommon, args []Val, pos token.Pos) Val {
	cond := v.Args[0]
	r0, s0 := f.curR, f.cur
	f.curR, f.cur = And(r0, cond), s0.clone()
	var v1, v2 Val
	if f.curR != False {
		v1 = f.callWith(c, v.Args[1], args, pos, nil)
	}
	r1, s1 := f.curR, f.cur
	f.curR, f.cur = And(r0, Not(cond)), s0.clone()
	if f.curR != False {
		v2 = f.callWith(c, v.Args[2], args, pos, nil)
	}
	r2, s2 := f.curR, f.cur
	rr, st, conds := f.x.mergeStates([]edgeState{{r1, s1, 0}, {r2, s2, 0}})
	f.curR, f.cur = rr, st
	if r1 == False {
		return v2
	}
	if r2 == False {
		return v1
	}
	return f.x.mergeVals(conds, []Val{v1, v2})
}

func (x *Exec) trust(s string) {
	x.trusted[s] = true
}

func (f *Frame) freshResults(nm string, sig *types.Signature) Val {
	var vals []Val
	_, e := 0, len(wmVars)-1
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		r := Fresh("r."+mangle(nm), sortOf(t))
		refEp[r] = e
		wf(r, t)
		vals = append(vals, r)
	}
	return tupleOf(vals)
}

// calleeName is the key under which contracts and models are looked up.
func calleeName(fn *ssa.Function) string {
	n := fn.String()
	if o := fn.Origin(); o != nil {
		n = o.String()
	}
	return shortName(n)
}

func (f *Frame) callFn(fn *ssa.Function, args []Val, bind []Val, c *ssa.CallCommon, pos token.Pos) Val {
	x := f.x
	name := calleeName(fn)
	if sp := x.V.specs.Funcs[name]; sp != nil && fn.Parent() == nil && !x.inlineContract(name) {
		f.shown = f.shownCall(c)
		r := f.contractCall(sp, fn, args, pos)
		f.shown = false
		return r
	}
	if m, ok := externs[name]; ok {
		x.V.noteExtern(x, name)
		return m(f, fn, args, pos)
	}
	inRepo := fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath)
	if fn.Pkg == nil && fn.Origin() == nil && len(fn.Blocks) > 0 {
		inRepo = true // wrappers, bound methods
	}
	if fn.Parent() != nil {
		inRepo = true
	}
	if len(fn.Blocks) > 0 && (inRepo || inlineExtern[name]) {
		for _, s := range x.stack {
			if s == fn {
				unsup("recursive call of %s needs a contract", name)
			}
		}
		x.inlined[name] = true
		vals, st, r := x.run(fn, args, bind, f.cur, f.curR, f.path+"/"+fmt.Sprint(f.callSeq()))
		f.cur, f.curR = st, r
		if r == False {
			return zeroResults(fn.Signature)
		}
		return tupleOf(vals)
	}
	if pureExtern(name, fn) {
		x.V.noteExtern(x, name)
		return f.pureCall(name, fn.Signature, args)
	}
	x.trust("extern " + name + ": arbitrary effects assumed")
	x.havocAll(f.cur)
	return f.freshResults(name, fn.Signature)
}

func (f *Frame) callSeq() int {
	f.nCalls++
	return f.nCalls
}

func zeroResults(sig *types.Signature) Val {
	var vals []Val
	for i := 0; i < sig.Results().Len(); i++ {
		vals = append(vals, zero(sig.Results().At(i).Type()))
	}
	return tupleOf(vals)
}

func (x *Exec) inlineContract(name string) bool {
	if x.spec == nil {
		return false
	}
	if x.spec.Name == name && len(x.stack) == 0 {
		return true
	}
	for _, n := range x.spec.Inline {
		if n == name {
			return true
		}
	}
	return x.V.dropped[name]
}

func paramNames(fn *ssa.Function) []string {
	var out []string
	for i, p := range fn.Params {
		n := p.Name()
		if n == "" || n == "_" {
			n = fmt.Sprintf("p%d", i)
		}
		out = append(out, n)
	}
	return out
}

func resultNames(sig *types.Signature) []string {
	var out []string
	n := sig.Results().Len()
	for i := 0; i < n; i++ {
		out = append(out, sig.Results().At(i).Name())
	}
	return out
}

func bindResults(env map[string]*SVal, sig *types.Signature, vals []*Term) {
	n := sig.Results().Len()
	for i := 0; i < n; i++ {
		v := &SVal{vals[i], sig.Results().At(i).Type()}
		if nm := sig.Results().At(i).Name(); nm != "" && nm != "_" {
			if _, dup := env[nm]; !dup {
				env[nm] = v
			}
		}
		env[fmt.Sprintf("r%d", i)] = v
		if i == 0 {
			env["result"] = v
		}
		if i == n-1 && types.Identical(v.Typ, types.Universe.Lookup("error").Type()) {
			env["err"] = v
		}
	}
}

// spec parameter naming: contracts name parameters positionally, so that a
// renamed parameter in the source does not matter: p0, p1, ... and, for
// methods, "this" = p0.
func (x *Exec) bindParams(sp *FuncSpec, fn *ssa.Function, args []*Term) map[string]*SVal {
	env := map[string]*SVal{}
	for i, p := range fn.Params {
		v := &SVal{args[i], p.Type()}
		env[fmt.Sprintf("p%d", i)] = v
		if fn.Signature.Recv() != nil {
			if i == 0 {
				env["this"] = v
			} else {
				env[fmt.Sprintf("a%d", i-1)] = v
			}
		} else {
			env[fmt.Sprintf("a%d", i)] = v
		}
		if n := p.Name(); n != "" && n != "_" {
			env[n] = v
		}
	}
	if len(fn.Params) == 0 && fn.Signature.Recv() == nil && len(args) == fn.Signature.Params().Len() {
		// a dependency without a body
		for i := range args {
			p := fn.Signature.Params().At(i)
			v := &SVal{args[i], p.Type()}
			env[fmt.Sprintf("a%d", i)] = v
			if p.Name() != "" && p.Name() != "_" {
				env[p.Name()] = v
			}
		}
	}
	return env
}

func (x *Exec) bindLets(sp *FuncSpec, c *SCtx, old bool) {
	for _, l := range sp.Lets {
		if l.Old == old {
			c.env[l.Name] = c.eval(l.Expr)
		}
	}
}

// copyIn turns an interior-pointer argument into a fresh cell for a modular call.
type copied struct {
	p   *Place
	ref *Term
}

func (f *Frame) argTerms(fn *ssa.Function, args []Val) ([]*Term, []copied) {
	x := f.x
	var cps []copied
	ts := make([]*Term, len(args))
	for i, a := range args {
		if p, ok := a.(*Place); ok && (p.Elem != nil || len(p.Path) > 0) {
			r := x.alloc(f.cur)
			x.write(f.cur, objHeap(p.T), r, x.load(f.cur, p))
			cps = append(cps, copied{p, r})
			ts[i] = r
			continue
		}
		ts[i] = x.term(a)
	}
	return ts, cps
}

func (f *Frame) contractCall(sp *FuncSpec, fn *ssa.Function, args []Val, pos token.Pos) Val {
	x := f.x
	ts, cps := f.argTerms(fn, args)
	x.usedContracts[sp.Name] = true
	if sp.Trusted {
		x.trust("assumed contract: " + sp.Name)
	}
	pkg := x.pkgOf(fn)
	env := x.bindParams(sp, fn, ts)
	return f.applyContract(sp, env, pkg, fn.Signature, calleeName(fn), pos, cps)
}

func (x *Exec) pkgOf(fn *ssa.Function) *types.Package {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	if o := fn.Object(); o != nil {
		return o.Pkg()
	}
	return nil
}

func (f *Frame) applyContract(sp *FuncSpec, env map[string]*SVal, pkg *types.Package, sig *types.Signature, name string, pos token.Pos, cps []copied) Val {
	x := f.x
	// ghosts of the callee: instantiated by the caller's ghosts of the same name,
	// else an arbitrary fresh constant
	for _, g := range sp.Ghosts {
		if v, ok := x.ghosts[g.Name]; ok && sortOf(v.Typ) == sortOf(x.V.typeByName(g.Type, pkg)) {
			env[g.Name] = v
		} else {
			t := x.V.typeByName(g.Type, pkg)
			env[g.Name] = &SVal{wf(Fresh("gh."+g.Name, sortOf(t)), t), t}
		}
	}
	pre := f.cur.clone()
	cpre := &SCtx{x: x, st: pre, old: pre, env: env, pkg: pkg}
	x.bindLets(sp, cpre, true)
	for i, r := range sp.Requires {
		if x.spec.Opts["assume-pre:"+sp.Name] {
			x.trust("assumed in " + x.spec.Name + ": the precondition of " + sp.Name + ": " + r.Src)
			x.assume(f.curR, cpre.Bool(r.Expr), "assumed precondition")
			continue
		}
		x.oblige(f.curR, cpre.Bool(r.Expr), "pre", fmt.Sprintf("%s: precondition %d of %s: %s", f.loc(), i, sp.Name, r.Src), pos)
	}
	// effects
	if sp.ModAll {
		x.havocAll(f.cur)
	} else {
		mods := x.modPlaces(sp, cpre)
		if !sp.Opts["noalloc"] && !(onlyGhosts(mods) && plainResults(sig)) {
			x.bumpOnly(f.cur, x.reachable(sig, mods))
		}
		x.havocPlaces(f.cur, mods)
	}
	e := len(wmVars) - 1
	var vals []Val
	var rts []*Term
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		r := Fresh("r."+mangle(name), sortOf(t))
		refEp[r] = e
		wf(r, t)
		vals = append(vals, r)
		rts = append(rts, r)
	}
	env2 := map[string]*SVal{}
	for k, v := range env {
		env2[k] = v
	}
	// a result defined by an equation is that value
	if len(rts) > 0 && plainType(sig.Results().At(0).Type()) {
		for _, en := range sp.Ensures {
			if b, ok := en.Expr.(*ast.BinaryExpr); ok && b.Op == token.EQL {
				if id, ok := b.X.(*ast.Ident); ok && id.Name == "result" {
					c := &SCtx{x: x, st: f.cur, old: pre, env: env2, pkg: pkg}
					if v := c.tryEval(b.Y); v != nil && v.T.Sort == rts[0].Sort {
						rts[0] = v.T
						vals[0] = v.T
						break
					}
				}
			}
		}
	}
	bindResults(env2, sig, rts)
	cpost := &SCtx{x: x, st: f.cur, old: pre, env: env2, pkg: pkg}
	x.bindLets(sp, cpost, false)
	for _, en := range sp.Ensures {
		if f.shown || !x.uses(sp.Name, en) || strings.Contains(en.Src, "ret(") {
			continue // what it says of its own calls is not for callers
		}
		x.assume(f.curR, cpost.Bool(en.Expr), "contract of "+sp.Name+": "+en.Src)
	}
	x.rets[name] = append(x.rets[name], &callRet{vals: vals, sig: sig, st: f.cur.clone()})
	for _, cp := range cps {
		v := Select(x.heap(f.cur, objHeap(cp.p.T)), cp.ref)
		x.store(f.cur, cp.p, v)
	}
	return tupleOf(vals)
}

// ---- modifies

type modPlace struct {
	typ  types.Type // of what is modified, when known
	key  string
	ref  *Term // nil: whole heap (or ghost variable)
	cond *Term
	path []int
	root types.Type
}

// modPlaces evaluates a modifies list in the pre-state.
//
//	*p        the object p points to        p.f      one field of it
//	m[*]      the contents of map m         s[*]     the elements of slice s
//	g.name    ghost variable                heap T   all objects of type T
func (x *Exec) modPlaces(sp *FuncSpec, c *SCtx) []modPlace {
	var out []modPlace
	for _, m := range sp.Modifies {
		if strings.HasPrefix(m, "g.") {
			out = append(out, modPlace{key: "g:" + m[2:], typ: ghostTypes["g:"+m[2:]]})
			continue
		}
		if strings.HasPrefix(m, "heap ") {
			t := x.V.typeByName(strings.TrimSpace(m[5:]), c.pkg)
			if mt, ok := t.Underlying().(*types.Map); ok {
				d, v := mapHeaps(mt)
				out = append(out, modPlace{key: d}, modPlace{key: v})
			} else if st, ok := t.Underlying().(*types.Slice); ok {
				out = append(out, modPlace{key: elemHeap(st.Elem())})
			} else {
				out = append(out, modPlace{key: objHeap(t)})
			}
			continue
		}
		if strings.HasSuffix(m, "[*]") {
			v := c.eval(parseExpr(m[:len(m)-3]))
			if k := strings.LastIndex(m, "."); k > 0 {
				// nothing behind a nil pointer
				if b := c.eval(parseExpr(m[:k])); b.T.Sort == IntS && v.T.Sort == IntS {
					v = &SVal{Ite(Eq(b.T, Int(0)), Int(0), v.T), v.Typ}
				}
			}
			switch u := v.Typ.Underlying().(type) {
			case *types.Map:
				d, vv := mapHeaps(u)
				out = append(out, modPlace{key: d, ref: v.T, typ: u}, modPlace{key: vv, ref: v.T, typ: u})
			case *types.Slice:
				out = append(out, modPlace{key: elemHeap(u.Elem()), ref: sRef(v.T), typ: u})
			}
			continue
		}
		if strings.HasPrefix(m, "*") {
			v := c.eval(parseExpr(m[1:]))
			pt, ok := v.Typ.Underlying().(*types.Pointer)
			if !ok {
				specErr("modifies %s: not a pointer", m)
			}
			out = append(out, modPlace{key: objHeap(pt.Elem()), ref: v.T, typ: pt})
			continue
		}
		// p.f
		k := strings.LastIndex(m, ".")
		if k < 0 {
			specErr("modifies %s", m)
		}
		v := c.eval(parseExpr(m[:k]))
		pt, ok := v.Typ.Underlying().(*types.Pointer)
		if !ok {
			specErr("modifies %s: not a pointer", m)
		}
		st := pt.Elem().Underlying().(*types.Struct)
		idx := -1
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == m[k+1:] {
				idx = i
			}
		}
		if idx < 0 {
			specErr("modifies %s: no such field", m)
		}
		out = append(out, modPlace{key: objHeap(pt.Elem()), ref: v.T, path: []int{idx}, root: pt.Elem(), typ: st.Field(idx).Type()})
	}
	return out
}

func (x *Exec) havocPlaces(st *State, ps []modPlace) {
	e := len(wmVars) - 1
	for _, p := range ps {
		s := heapSortOf[p.key]
		if s == nil {
			specErr("unknown heap %s", p.key)
		}
		if p.ref == nil {
			n := Fresh(p.key+"@c", s)
			refEp[n] = e
			st.h[p.key] = n
			x.writes = append(x.writes, writeRec{p.key, nil, false})
			continue
		}
		h := x.heap(st, p.key)
		if p.path != nil {
			ft := fieldType(p.root, p.path[0])
			n := Fresh("mod."+mangle(p.key), sortOf(ft))
			refEp[n] = e
			wf(n, ft)
			x.write(st, p.key, p.ref, updPath(Select(h, p.ref), p.root, p.path, n))
			continue
		}
		n := Fresh("mod."+mangle(p.key), s.V)
		refEp[n] = e
		x.write(st, p.key, p.ref, n)
	}
}

// ---- interface method calls

func (f *Frame) invoke(c *ssa.CallCommon, recv *Term, args []Val, pos token.Pos) Val {
	x := f.x
	iname := tname(c.Value.Type())
	mname := c.Method.Name()
	uniform := false
	if sp := x.V.specs.Funcs["iface "+iname+"."+mname]; sp != nil && sp.Opts["always"] {
		uniform = true
	}
	// known dynamic type?
	if recv.Op == OCtor && !uniform {
		var tagT *Term
		switch recv.DTC {
		case cPtr, cInt, cSlice, cOpq:
			tagT = recv.Args[0]
		}
		if tagT != nil && tagT.Op == OInt {
			dt := tagTypes[int(tagT.N.Int64())]
			if fn := x.V.lookupMethod(dt, c.Method.Pkg(), mname); fn != nil {
				_, v := ifaceIs(recv, dt)
				return f.callFn(fn, append([]Val{v}, args...), nil, c, pos)
			}
		}
	}
	if recv.Op == OIte && !uniform && x.splitInvoke(recv) {
		cond := recv.Args[0]
		r0, s0 := f.curR, f.cur
		f.curR, f.cur = And(r0, cond), s0.clone()
		var v1, v2 Val
		if f.curR != False {
			v1 = f.invoke(c, recv.Args[1], args, pos)
		}
		r1, s1 := f.curR, f.cur
		f.curR, f.cur = And(r0, Not(cond)), s0.clone()
		if f.curR != False {
			v2 = f.invoke(c, recv.Args[2], args, pos)
		}
		r2, s2 := f.curR, f.cur
		rr, st, conds := x.mergeStates([]edgeState{{r1, s1, 0}, {r2, s2, 0}})
		f.curR, f.cur = rr, st
		if r1 == False {
			return v2
		}
		if r2 == False {
			return v1
		}
		return x.mergeVals(conds, []Val{v1, v2})
	}
	nilV := iNil
	if recv.Sort == IntS { // reflect.Type
		nilV = Int(0)
	}
	x.oblige(f.curR, Neq(recv, nilV), "safety", f.loc()+" interface value non-nil in call of "+iname+"."+mname, pos)
	key := "iface " + iname + "." + mname
	sig := c.Signature()
	if sp := x.V.specs.Funcs[key]; sp != nil {
		env := map[string]*SVal{"this": {recv, c.Value.Type()}}
		for i, a := range args {
			env[fmt.Sprintf("a%d", i)] = &SVal{x.term(a), sig.Params().At(i).Type()}
		}
		if sp.Trusted {
			x.trust("assumed contract: " + sp.Name)
		}
		x.usedContracts[sp.Name] = true
		var pkg *types.Package
		if n, ok := types.Unalias(c.Value.Type()).(*types.Named); ok {
			pkg = n.Obj().Pkg()
		}
		return f.applyContract(sp, env, pkg, sig, key, pos, nil)
	}
	if m, ok := externs[key]; ok {
		x.V.noteExtern(x, key)
		return m(f, nil, append([]Val{recv}, args...), pos)
	}
	if iname == "error" && mname == "Error" || mname == "String" {
		r := App("errtext", StringS, recv)
		return r
	}
	x.trust("interface call " + iname + "." + mname + ": arbitrary effects assumed")
	x.havocAll(f.cur)
	return f.freshResults(iname+"."+mname, sig)
}

func (x *Exec) splitInvoke(t *Term) bool {
	return t.Args[1].Op == OCtor || t.Args[2].Op == OCtor || t.Args[1].Op == OIte || t.Args[2].Op == OIte
}

// ---- builtins

func (f *Frame) builtin(b *ssa.Builtin, c *ssa.CallCommon, args []Val, pos token.Pos) Val {
	x := f.x
	switch b.Name() {
	case "len":
		v := x.term(args[0])
		switch u := c.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			return sLen(v)
		case *types.Basic:
			return SLen(v)
		case *types.Map:
			d := x.mapDom(f.cur, u, v)
			n := App("card."+mangle(d.Sort.Name), IntS, d)
			addFact(n, Le(Int(0), n))
			if d.Op == OConstArr {
				return Int(0)
			}
			k := Bound("ck", d.Sort.K)
			addFact(n, Implies(Eq(n, Int(0)), Forall([]*Term{k}, Not(Select(d, k)))))
			addFact(n, Implies(Lt(Int(0), n), Exists([]*Term{k}, Select(d, k))))
			return Ite(Eq(v, Int(0)), Int(0), n)
		case *types.Array:
			return Int(u.Len())
		case *types.Pointer:
			if a, ok := u.Elem().Underlying().(*types.Array); ok {
				return Int(a.Len())
			}
		}
	case "cap":
		v := x.term(args[0])
		if v.Sort == SliceS {
			return sCap(v)
		}
	case "append":
		s := x.term(args[0])
		el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		t := x.term(args[1])
		if t.Sort == StringS { // append([]byte, string...)
			r := x.alloc(f.cur)
			ct := SCat(x.bytesOf(f.cur, s), t)
			x.write(f.cur, elemHeap(el), r, ct)
			cp := Fresh("cap", IntS)
			addFact(cp, Le(SLen(ct), cp))
			contentLen[ct] = Add(sLen(s), SLen(t))
			return mkSlice(r, Int(0), Add(sLen(s), SLen(t)), cp)
		}
		return x.appendSlice(f.cur, el, s, t)
	case "copy":
		d := x.term(args[0])
		el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		s := x.term(args[1])
		if isByte(el) {
			var src *Term
			if s.Sort == StringS {
				src = s
			} else {
				src = x.bytesOf(f.cur, s)
			}
			sl, dl := SLen(src), sLen(d)
			if s.Sort == SliceS {
				sl = sLen(s)
			}
			n := Ite(Le(sl, dl), sl, dl)
			cell := Select(x.heap(f.cur, elemHeap(el)), sRef(d))
			off := sOff(d)
			var nv *Term
			if off == Int(0) && Eq(SLen(cell), dl) == True && Eq(sl, dl) == True {
				nv = src
			} else {
				nv = SCat(SSub(cell, Int(0), off), SSub(src, Int(0), n), SFrom(cell, Add(off, n)))
				if Sub(sl, dl) == Int(0) && off == Int(0) && cell.Op == OApp && cell.S == "zerobytes" && cell.Args[0] == dl {
					nv = src
				}
			}
			x.write(f.cur, elemHeap(el), sRef(d), nv)
			return n
		}
		sl, dl := sLen(s), sLen(d)
		n := Ite(Le(sl, dl), sl, dl)
		cell := Select(x.heap(f.cur, elemHeap(el)), sRef(d))
		src := elemsArr(x, f.cur, el, s)
		// d[off..off+n) := src[0..n): cat(cell up to off, src up to n, rest)
		rest := Cat(src, n, cell, Add(sOff(d), n))
		nv := Cat(cell, sOff(d), rest, Int(0))
		x.write(f.cur, elemHeap(el), sRef(d), nv)
		return n
	case "delete":
		mt := c.Args[0].Type().Underlying().(*types.Map)
		m, k := x.term(args[0]), x.term(args[1])
		d, _ := mapHeaps(mt)
		x.write(f.cur, d, m, Store(x.mapDom(f.cur, mt, m), k, False))
		return Tuple{}
	case "min", "max":
		r := x.term(args[0])
		for _, a := range args[1:] {
			t := x.term(a)
			if b.Name() == "min" {
				r = Ite(Le(r, t), r, t)
			} else {
				r = Ite(Le(t, r), r, t)
			}
		}
		return r
	case "recover":
		return iNil
	case "ssa:wrapnilchk":
		return args[0]
	case "print", "println":
		return Tuple{}
	}
	unsup("builtin %s", b.Name())
	return nil
}

// ---- pure externs

// pureKey flattens an argument to terms describing its value.
func (x *Exec) pureArgs(st *State, args []*SVal) []*Term {
	var out []*Term
	for _, a := range args {
		switch u := a.Typ.Underlying().(type) {
		case *types.Slice:
			if isByte(u.Elem()) {
				out = append(out, x.bytesOf(st, a.T))
				continue
			}
			out = append(out, sLen(a.T), elemsArr(x, st, u.Elem(), a.T))
			continue
		case *types.Pointer:
			if _, ok := u.Elem().Underlying().(*types.Struct); ok {
				pl := &Place{Heap: objHeap(u.Elem()), Ref: a.T, Root: u.Elem(), T: u.Elem()}
				v := x.load(st, pl)
				out = append(out, Eq(a.T, Int(0)), v)
				continue
			}
		case *types.Map:
			out = append(out, x.mapDom(st, u, a.T), x.mapVals(st, u, a.T))
			continue
		}
		out = append(out, a.T)
	}
	return out
}

// pureResult is the specification-level value of result ix of a pure extern:
// for pointers the pointed-to value, for slices a fresh description.
func (c *SCtx) pureResult(name string, ix int, args []*SVal) *SVal {
	sig := c.x.V.externSig(name)
	if sig == nil {
		specErr("unknown function %s", name)
	}
	for i := range args {
		pi := i
		if sig.Recv() != nil {
			pi--
		}
		if pi >= 0 && pi < sig.Params().Len() {
			pt := sig.Params().At(pi).Type()
			if _, isI := pt.Underlying().(*types.Interface); isI && args[i].T != nil && args[i].T.Sort != IfaceS {
				args[i] = &SVal{c.x.makeIface(args[i].T, args[i].Typ), pt}
			}
		}
	}
	var ts []*Term
	for i, a := range args {
		var pt types.Type
		pi := i
		if sig.Recv() != nil {
			pi--
			if i == 0 {
				pt = sig.Recv().Type()
			}
		}
		if pi >= 0 && pi < sig.Params().Len() {
			pt = sig.Params().At(pi).Type()
		}
		if pt != nil {
			if p, ok := pt.Underlying().(*types.Pointer); ok {
				if _, isS := p.Elem().Underlying().(*types.Struct); isS && types.Identical(p.Elem(), a.Typ) {
					// a pointer to a value given by value
					ts = append(ts, False, a.T)
					continue
				}
			}
		}
		ts = append(ts, c.x.pureArgs(c.st, []*SVal{a})...)
	}
	t := sig.Results().At(ix).Type()
	return c.x.pureVal(name, ix, t, ts)
}

func (x *Exec) pureVal(name string, ix int, t types.Type, ts []*Term) *SVal {
	nm := fmt.Sprintf("%s#%d", mangle(name), ix)
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if _, ok := u.Elem().Underlying().(*types.Struct); ok {
			r := App(nm+".val", sortOf(u.Elem()), ts...)
			funEp[nm+".val"] = 1
			return &SVal{r, u.Elem()}
		}
	case *types.Slice:
		if isByte(u.Elem()) {
			return &SVal{App(nm+".bytes", StringS, ts...), tStr}
		}
	}
	r := App(nm, sortOf(t), ts...)
	if sortOf(t) == IfaceS || sortOf(t) == IntS {
		funEp[nm] = 1
	}
	if b, ok := t.(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		wf(r, t)
	}
	return &SVal{r, t}
}

// pureCall models a call of an effect-free extern as uninterpreted functions of
// its arguments' values.
func (f *Frame) pureCall(name string, sig *types.Signature, args []Val) Val {
	x := f.x
	var as []*SVal
	k := 0
	if sig.Recv() != nil {
		as = append(as, &SVal{f.pureTerm(args[0]), sig.Recv().Type()})
		k = 1
	}
	for i := 0; i < sig.Params().Len(); i++ {
		as = append(as, &SVal{f.pureTerm(args[k+i]), sig.Params().At(i).Type()})
	}
	ts := x.pureArgs(f.cur, as)
	var vals []Val
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		vals = append(vals, f.pureMaterialise(name, i, t, ts))
	}
	if neverNil[name] {
		x.assume(f.curR, Neq(vals[0].(*Term), Int(0)), name+": never nil")
	}
	// by convention a pointer result is set when the error result is not
	if n := len(vals); n > 1 && types.Identical(sig.Results().At(n-1).Type(), errorT) {
		for i := 0; i < n-1; i++ {
			if _, ok := sig.Results().At(i).Type().Underlying().(*types.Pointer); ok {
				x.assume(f.curR, Implies(Eq(vals[n-1].(*Term), iNil), Neq(vals[i].(*Term), Int(0))), name+": a result when there is no error")
			}
		}
	}
	x.rets[name] = append(x.rets[name], &callRet{vals: vals, sig: sig, st: f.cur.clone()})
	return tupleOf(vals)
}

func (f *Frame) pureTerm(v Val) *Term {
	if p, ok := v.(*Place); ok && (p.Elem != nil || len(p.Path) > 0) {
		x := f.x
		r := x.alloc(f.cur)
		x.write(f.cur, objHeap(p.T), r, x.load(f.cur, p))
		return r
	}
	return f.x.term(v)
}

func (f *Frame) pureMaterialise(name string, i int, t types.Type, ts []*Term) Val {
	x := f.x
	nm := fmt.Sprintf("%s#%d", mangle(name), i)
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if _, ok := u.Elem().Underlying().(*types.Struct); ok {
			v := x.pureVal(name, i, t, ts)
			isNil := App(nm+".nil", BoolS, ts...)
			r := x.alloc(f.cur)
			x.write(f.cur, objHeap(u.Elem()), r, v.T)
			return Ite(isNil, Int(0), r)
		}
	case *types.Slice:
		isNil := App(nm+".nil", BoolS, ts...)
		r := x.alloc(f.cur)
		if isByte(u.Elem()) {
			b := App(nm+".bytes", StringS, ts...)
			x.write(f.cur, elemHeap(u.Elem()), r, b)
			addFact(b, Implies(isNil, Eq(b, Str(""))))
			l := SLen(b)
			return mkSlice(Ite(isNil, Int(0), r), Int(0), l, l)
		}
		el := App(nm+".elems", ArrS(IntS, sortOf(u.Elem())), ts...)
		funEp[nm+".elems"] = 1
		l := App(nm+".len", IntS, ts...)
		addFact(l, Le(Int(0), l))
		addFact(l, Implies(isNil, Eq(l, Int(0))))
		x.write(f.cur, elemHeap(u.Elem()), r, el)
		return mkSlice(Ite(isNil, Int(0), r), Int(0), l, l)
	case *types.Map:
		unsup("pure map result of %s", name)
	}
	return x.pureVal(name, i, t, ts).T
}

func sortedKeys[M ~map[string]V, V any](m M) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (v *Verifier) lookupMethod(dt types.Type, pkg *types.Package, name string) *ssa.Function {
	if dt == nil {
		return nil
	}
	return v.prog.LookupMethod(dt, pkg, name)
}

// neverNil lists pure externs whose pointer result is never nil.
var neverNil = map[string]bool{"(*net/url.URL).ResolveReference": true, "(*net/url.URL).JoinPath": true}

func (c *SCtx) tryEval(e ast.Expr) (v *SVal) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(SpecErr); ok {
				v = nil // mentions the results or a later let
				return
			}
			panic(r)
		}
	}()
	return c.eval(e)
}

func plainType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() != types.UnsafePointer
}

// plainResults: nothing allocated by the callee is reachable from its results.
func plainResults(sig *types.Signature) bool {
	for i := 0; i < sig.Results().Len(); i++ {
		if !plainType(sig.Results().At(i).Type()) {
			return false
		}
	}
	return true
}

func onlyGhosts(ms []modPlace) bool {
	for _, m := range ms {
		if !strings.HasPrefix(m.key, "g:") {
			return false
		}
	}
	return true
}

// quietLeaves reports that every known function in v has an empty body.
func quietLeaves(v *Term) bool {
	if v.Op == OIte {
		return quietLeaves(v.Args[1]) && quietLeaves(v.Args[2])
	}
	if v.Op == OInt && v.N.IsInt64() {
		if cl, ok := closureTab[v.N.Int64()]; ok {
			return len(cl.Fn.Blocks) == 1 && len(cl.Fn.Blocks[0].Instrs) == 1
		}
	}
	return true
}

// reachable is the set of heaps of objects the caller can reach through a
// call's results and effects; nil: any.
func (x *Exec) reachable(sig *types.Signature, mods []modPlace) map[string]bool {
	out := map[string]bool{}
	seen := map[string]bool{}
	all := false
	var walk func(t types.Type)
	walk = func(t types.Type) {
		if all {
			return
		}
		t = types.Unalias(t)
		k := t.String()
		if seen[k] {
			return
		}
		seen[k] = true
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			out[objHeap(u.Elem())] = true
			walk(u.Elem())
		case *types.Slice:
			out[elemHeap(u.Elem())] = true
			walk(u.Elem())
		case *types.Array:
			walk(u.Elem())
		case *types.Map:
			d, v := mapHeaps(u)
			out[d], out[v] = true, true
			walk(u.Key())
			walk(u.Elem())
		case *types.Struct:
			if n, ok := t.(*types.Named); ok && tname(n) == "time.Time" {
				return
			}
			for i := 0; i < u.NumFields(); i++ {
				walk(u.Field(i).Type())
			}
		case *types.Interface:
			if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && !strings.Contains(n.Obj().Pkg().Path(), "openrdap") {
				return // values behind interfaces of other packages are not inspected
			}
			if u.NumMethods() == 0 {
				all = true
				return
			}
			for _, p := range x.V.spkgs {
				if p == nil || p.Pkg == nil || !strings.Contains(p.Pkg.Path(), "openrdap") {
					continue
				}
				sc := p.Pkg.Scope()
				for _, n := range sc.Names() {
					tn, ok := sc.Lookup(n).(*types.TypeName)
					if !ok || tn.IsAlias() {
						continue
					}
					if _, isI := tn.Type().Underlying().(*types.Interface); isI {
						continue
					}
					if nt, ok := tn.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
						continue
					}
					if types.Implements(tn.Type(), u) {
						walk(tn.Type())
					}
					if pt := types.NewPointer(tn.Type()); types.Implements(pt, u) {
						walk(pt)
					}
				}
			}
		}
	}
	for i := 0; i < sig.Results().Len(); i++ {
		walk(sig.Results().At(i).Type())
	}
	for _, m := range mods {
		if m.typ == nil {
			return nil
		}
		walk(m.typ)
	}
	if all {
		return nil
	}
	return out
}

// onlyShown reports that a value is used for nothing but the text of a
// func(string) callback: what a contract says about it is then of no interest.
func onlyShown(v ssa.Value) bool {
	rs := v.Referrers()
	if rs == nil {
		return false
	}
	for _, r := range *rs {
		switch r := r.(type) {
		case *ssa.DebugRef, *ssa.IndexAddr:
		case *ssa.MakeInterface:
			if !onlyShown(r) {
				return false
			}
		case *ssa.Slice:
			if !onlyShown(r) {
				return false
			}
		case *ssa.Store:
			ia, ok := r.Addr.(*ssa.IndexAddr)
			if !ok || r.Val != v {
				return false
			}
			al, ok := ia.X.(*ssa.Alloc)
			if !ok || !onlyShown(al) {
				return false
			}
		case *ssa.Call:
			if fn := r.Call.StaticCallee(); fn != nil {
				if n := fn.String(); n != "fmt.Sprintf" && n != "fmt.Sprint" || !onlyShown(r) {
					return false
				}
			} else if r.Call.IsInvoke() {
				return false
			} else if sg := r.Call.Signature(); sg.Results().Len() != 0 || sg.Params().Len() != 1 || !isString(sg.Params().At(0).Type()) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// shownCall reports that the results of a call are only shown.
func (f *Frame) shownCall(c *ssa.CallCommon) bool {
	if c == nil {
		return false
	}
	for _, b := range f.fn.Blocks {
		for _, i := range b.Instrs {
			if cl, ok := i.(*ssa.Call); ok && cl.Common() == c {
				return cl.Call.Signature().Results().Len() == 1 && onlyShown(cl)
			}
		}
	}
	return false
}

// uses reports that the function being proved asks for this clause of a callee's
// contract (all of them, unless it has a use directive for the callee).
func (x *Exec) uses(callee string, en Clause) bool {
	us, ok := x.spec.Use[callee]
	if !ok {
		return true
	}
	for _, u := range us {
		if strings.Contains(en.Label, u) || strings.Contains(en.Src, u) {
			return true
		}
	}
	return false
}
