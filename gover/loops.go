package main

// Loop invariant candidates: templates from contracts and a few generic shapes.
// Every candidate is checked (at entry and at each back edge); those that do not
// hold are dropped and the function is re-executed until all remaining ones are
// inductive (Houdini), so a wrong candidate can never make a proof unsound.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loopCtx struct {
	f     *Frame
	l     *Loop
	key   string
	phis  []*ssa.Phi
	hv    map[*ssa.Phi]*Term
	ev    map[*ssa.Phi]*Term
	hdr   *State
	entry *State
	reach *Term
	mod   map[string]bool
	env   map[ssa.Value]Val
}

type cand struct {
	key string
	at  func(st *State, vals map[*ssa.Phi]*Term) *Term
}

func (f *Frame) curIter() *Iter {
	if f.evalLoop == nil {
		return nil
	}
	at := func(l *Loop) *Iter {
		for _, ins := range l.head.Instrs {
			if n, ok := ins.(*ssa.Next); ok {
				if it, ok := f.env[n.Iter].(*Iter); ok {
					return it
				}
			}
		}
		return nil
	}
	if it := at(f.evalLoop); it != nil {
		return it
	}
	// the innermost enclosing range over a map
	var best *Loop
	for _, l := range f.loops {
		if l != f.evalLoop && l.body[f.evalLoop.head] && at(l) != nil && (best == nil || len(l.body) < len(best.body)) {
			best = l
		}
	}
	if best != nil {
		return at(best)
	}
	return nil
}

func tryBool(fn func() *Term) (t *Term, err error) {
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case SpecErr:
				t, err = nil, fmt.Errorf("%s", e.Msg)
			case Unsupported:
				t, err = nil, fmt.Errorf("%s", e.Msg)
			default:
				panic(r)
			}
		}
	}()
	return fn(), nil
}

type choice struct {
	name string
	phi  *ssa.Phi
	add  int64
	val  *Term // a value in scope that the loop does not change
	typ  types.Type
	ssa  string
}

// inScope are the values computed before the loop that have type t.
func (lc *loopCtx) inScope(t types.Type) []choice {
	var out []choice
	seen := map[*Term]bool{}
	var vs []ssa.Value
	for v := range lc.env {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool {
		if vs[i].Name() != vs[j].Name() {
			return vs[i].Name() < vs[j].Name()
		}
		return vs[i].Pos() < vs[j].Pos()
	})
	for _, v := range vs {
		if ph, ok := v.(*ssa.Phi); ok && lc.hv[ph] != nil {
			continue
		}
		tm, ok := lc.env[v].(*Term)
		if !ok || seen[tm] || !types.Identical(v.Type().Underlying(), t.Underlying()) || isLit(tm) {
			continue
		}
		if b, ok := v.(interface{ Block() *ssa.BasicBlock }); ok && lc.l.body[b.Block()] {
			continue
		}
		seen[tm] = true
		out = append(out, choice{val: tm, typ: v.Type(), ssa: v.Name()})
	}
	return out
}

func (x *Exec) candidates(lc *loopCtx) []*cand {
	var out []*cand
	f := lc.f
	tmpls := x.spec.LoopInv
	if nm := calleeName(f.fn); nm != x.spec.Name {
		if sp := x.V.specs.Funcs[nm]; sp != nil {
			tmpls = append(append([]LoopTmpl{}, tmpls...), sp.LoopInv...)
		}
	}
	for ti, t := range tmpls {
		t := t
		// enumerate assignments of template variables to phis
		var assign [][]choice
		assign = append(assign, nil)
		okAll := true
		for _, v := range t.Vars {
			var opts []choice
			if lc.env == nil {
				okAll = false
				break
			}
			if strings.HasPrefix(v.Type, ":") {
				vt := x.V.typeByNameSafe(v.Type[1:], x.pkgOf(f.fn))
				if vt != nil {
					for _, o := range lc.inScope(vt) {
						o.name = v.Name
						opts = append(opts, o)
					}
				}
			}
			for _, p := range lc.phis {
				if _, ok := lc.hv[p]; !ok || strings.HasPrefix(v.Type, ":") {
					continue
				}
				if p.Comment == v.Name {
					opts = []choice{{name: v.Name, phi: p}}
					break
				}
				vt := x.V.typeByNameSafe(v.Type, x.pkgOf(f.fn))
				if vt == nil {
					continue
				}
				if v.Type == "int" {
					if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
						opts = append(opts, choice{name: v.Name, phi: p}, choice{name: v.Name, phi: p, add: 1})
					}
				} else if sortOf(p.Type()) == sortOf(vt) && (types.Identical(p.Type().Underlying(), vt.Underlying())) {
					opts = append(opts, choice{name: v.Name, phi: p})
				}
			}
			var next [][]choice
			for _, a := range assign {
				for _, o := range opts {
					next = append(next, append(append([]choice{}, a...), o))
				}
			}
			assign = next
		}
		if !okAll {
			continue
		}
		if len(assign) > 60 {
			assign = assign[:60]
		}
		for _, as := range assign {
			as := as
			kd := fmt.Sprintf("T%d", ti)
			for _, ch := range as {
				if ch.val != nil {
					kd += fmt.Sprintf(" %s=%s", ch.name, ch.ssa)
					continue
				}
				kd += fmt.Sprintf(" %s=%s+%d", ch.name, ch.phi.Name(), ch.add)
			}
			at := func(st *State, vals map[*ssa.Phi]*Term) *Term {
				env := map[string]*SVal{}
				for k, v := range x.params {
					env[k] = v
				}
				if f.depth > 1 {
					for _, p := range f.fn.Params {
						if tm, ok := f.env[p].(*Term); ok {
							env[p.Name()] = &SVal{tm, p.Type()}
						}
					}
				}
				for n, nv := range f.names {
					if tm, ok := nv.v.(*Term); ok {
						env[n] = &SVal{tm, nv.t}
					}
				}
				// variables that live in memory (captured or address-taken)
				for v, a := range lc.env {
					if al, ok := v.(*ssa.Alloc); ok && al.Comment != "" {
						if ref, ok := a.(*Term); ok {
							el := al.Type().Underlying().(*types.Pointer).Elem()
							if _, isArr := el.Underlying().(*types.Array); isArr {
								continue
							}
							pl := &Place{Heap: objHeap(el), Ref: ref, Root: el, T: el}
							if al.Heap || true {
								if _, have := env[al.Comment]; !have || al.Comment != "complit" {
									env[al.Comment] = &SVal{x.load(st, pl), el}
								}
							}
						}
					}
				}
				for p, v := range vals {
					if p.Comment != "" {
						env[p.Comment] = &SVal{v, p.Type()}
					}
				}
				for _, ch := range as {
					if ch.val != nil {
						env[ch.name] = &SVal{ch.val, ch.typ}
						continue
					}
					env[ch.name] = &SVal{AddI2(vals[ch.phi], ch.add), ch.phi.Type()}
				}
				f.evalLoop = lc.l
				c := &SCtx{x: x, st: st, old: x.entry, env: env, pkg: x.pkgOf(f.fn), frame: f, pre: lc.entry}
				return c.Bool(t.Expr)
			}
			if _, err := tryBool(func() *Term { return at(lc.hdr, lc.hv) }); err != nil {
				x.V.debugf("  template %q not applicable at %s: %v", t.Src, lc.key, err)
				continue
			}
			out = append(out, &cand{key: kd + " " + t.Src, at: at})
		}
	}
	// generic: objects that existed before the call keep their contents
	for _, k := range sortedBoolKeys(lc.mod) {
		k := k
		if strings.HasPrefix(k, "g:") || strings.HasPrefix(k, "it:") || heapSortOf[k] == nil || heapSortOf[k].K != IntS {
			continue
		}
		out = append(out, &cand{"G frame " + k, func(st *State, vals map[*ssa.Phi]*Term) *Term {
			r := Bound("fr!"+k, IntS)
			a, b := Select(x.heap(st, k), r), Select(x.heap(x.entry, k), r)
			return Forall([]*Term{r}, Implies(And(Lt(Int(0), r), Lt(r, x.entry.wm)), Eq(a, b)))
		}})
	}
	// generic: ... except for what the function may modify
	if x.spec.HasMod && !x.spec.ModAll && x.params != nil {
		pre := &SCtx{x: x, st: x.entry, old: x.entry, env: x.params, pkg: x.pkgOf(x.top)}
		mods := x.modPlaces(x.spec, pre)
		for _, k := range sortedBoolKeys(lc.mod) {
			k := k
			if strings.HasPrefix(k, "g:") || strings.HasPrefix(k, "it:") || heapSortOf[k] == nil || heapSortOf[k].K != IntS {
				continue
			}
			var mine []modPlace
			whole := false
			for _, m := range mods {
				if m.key == k {
					mine = append(mine, m)
					whole = whole || m.ref == nil
				}
			}
			if len(mine) == 0 || whole {
				continue
			}
			out = append(out, &cand{"G frame' " + k, func(st *State, vals map[*ssa.Phi]*Term) *Term {
				r := Bound("fr!"+k, IntS)
				h, h0 := x.heap(st, k), x.heap(x.entry, k)
				excl := []*Term{Lt(Int(0), r), Lt(r, x.entry.wm)}
				for _, m := range mine {
					excl = append(excl, Neq(r, m.ref))
				}
				gs := []*Term{Forall([]*Term{r}, Implies(And(excl...), Eq(Select(h, r), Select(h0, r))))}
				for _, m := range mine {
					if m.path == nil {
						continue
					}
					want, full := Select(h0, m.ref), false
					for _, m2 := range mine {
						if m2.ref == m.ref {
							if m2.path == nil {
								full = true
							} else {
								want = updPath(want, m.root, m2.path, pathSel(Select(h, m.ref), m.root, m2.path))
							}
						}
					}
					if !full {
						gs = append(gs, Eq(Select(h, m.ref), want))
					}
				}
				return And(gs...)
			}})
		}
	}
	// generic: integer bounds
	for _, p := range lc.phis {
		p := p
		hv, ok := lc.hv[p]
		if !ok {
			continue
		}
		ev := lc.ev[p]
		b, isB := p.Type().Underlying().(*types.Basic)
		if isB && b.Info()&types.IsInteger != 0 {
			out = append(out,
				&cand{"G " + p.Name() + ">=entry", func(st *State, vals map[*ssa.Phi]*Term) *Term { return Le(ev, vals[p]) }},
				&cand{"G " + p.Name() + "<=entry", func(st *State, vals map[*ssa.Phi]*Term) *Term { return Le(vals[p], ev) }})
			// comparisons with loop-invariant values
			seen := map[*Term]bool{}
			for bb := range lc.l.body {
				for _, ins := range bb.Instrs {
					bo, ok := ins.(*ssa.BinOp)
					if !ok {
						continue
					}
					switch bo.Op {
					case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
					default:
						continue
					}
					for _, pr := range [][2]ssa.Value{{bo.X, bo.Y}, {bo.Y, bo.X}} {
						if !derivesFrom(pr[0], p) {
							continue
						}
						var n *Term
						if c, ok := pr[1].(*ssa.Const); ok {
							if tt, ok := constVal(c).(*Term); ok {
								n = tt
							}
						} else if v, ok := lc.env[pr[1]]; ok {
							if _, isPhi := pr[1].(*ssa.Phi); isPhi && lc.hv[pr[1].(*ssa.Phi)] != nil {
								continue
							}
							n, _ = v.(*Term)
						} else if call, ok := pr[1].(*ssa.Call); ok {
							// len(s) recomputed in the header, s loop invariant
							if bi, ok := call.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
								if v, ok := lc.env[call.Call.Args[0]].(*Term); ok {
									switch v.Sort {
									case SliceS:
										n = sLen(v)
									case StringS:
										n = SLen(v)
									}
								}
							}
						}
						if n == nil || n.Sort != IntS || seen[n] {
							continue
						}
						seen[n] = true
						n2 := n
						for _, d := range []int64{0, -1} {
							d := d
							out = append(out, &cand{fmt.Sprintf("G %s<=N%+d %s", p.Name(), d, pr[1].Name()), func(st *State, vals map[*ssa.Phi]*Term) *Term {
								return Le(vals[p], AddI(n2, d))
							}})
						}
						out = append(out, &cand{fmt.Sprintf("G %s>=N %s", p.Name(), pr[1].Name()), func(st *State, vals map[*ssa.Phi]*Term) *Term {
							return Le(n2, vals[p])
						}})
					}
				}
			}
		}
		switch hv.Sort {
		case SliceS:
			out = append(out, &cand{"G " + p.Name() + " off=0", func(st *State, vals map[*ssa.Phi]*Term) *Term { return Eq(sOff(vals[p]), Int(0)) }})
			out = append(out, &cand{"G " + p.Name() + " fresh", func(st *State, vals map[*ssa.Phi]*Term) *Term {
				return Or(Eq(sRef(vals[p]), Int(0)), Le(lc.entry.wm, sRef(vals[p])), Eq(sRef(vals[p]), sRef(ev)))
			}})
			// the same number of elements as iterations
			for _, q := range lc.phis {
				q := q
				if b, ok := q.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && lc.hv[q] != nil {
					for _, d := range []int64{0, 1} {
						d := d
						out = append(out, &cand{fmt.Sprintf("G len(%s)=%s+%d", p.Name(), q.Name(), d), func(st *State, vals map[*ssa.Phi]*Term) *Term {
							return Eq(Sub(sLen(vals[p]), sLen(ev)), AddI(vals[q], d))
						}})
					}
				}
			}
		case IntS:
			if _, ok := p.Type().Underlying().(*types.Pointer); ok {
				out = append(out, &cand{"G " + p.Name() + " nonnil", func(st *State, vals map[*ssa.Phi]*Term) *Term { return Neq(vals[p], Int(0)) }})
			}
		}
	}
	return out
}

func AddI2(t *Term, n int64) *Term {
	if n == 0 {
		return t
	}
	return AddI(t, n)
}

func derivesFrom(v ssa.Value, p *ssa.Phi) bool {
	if v == ssa.Value(p) {
		return true
	}
	if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) {
		return derivesFrom(b.X, p) || derivesFrom(b.Y, p)
	}
	return false
}

func (v *Verifier) typeByNameSafe(s string, pkg *types.Package) (t types.Type) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(SpecErr); ok {
				t = nil
				return
			}
			panic(r)
		}
	}()
	return v.typeByName(s, pkg)
}

func sortedBoolKeys(m map[string]bool) []string {
	var out []string
	for k, ok := range m {
		if ok {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}
