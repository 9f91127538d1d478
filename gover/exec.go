package main

// Symbolic execution of SSA functions into verification conditions.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type Place struct {
	Heap string
	Ref  *Term
	Elem *Term // index into the element array, or nil
	Path []int
	Root types.Type // type of the value at heap[ref] (or [elem])
	T    types.Type // pointed-to type
}

type Closure struct {
	Fn   *ssa.Function
	Bind []Val
}

type Tuple []Val

type Iter struct {
	Map  *Term
	MT   *types.Map
	Vis  string // state key of the visited set
	Str  *Term  // string iteration
	Dom0 *Term
	n    int
}

type mixRec struct {
	wm    *Term
	epoch int
	only  map[string]bool // heaps concerned (nil: all)
}

type State struct {
	h     map[string]*Term
	mixes []mixRec
	wm    *Term
}

func (s *State) clone() *State {
	n := &State{h: make(map[string]*Term, len(s.h)), mixes: s.mixes[:len(s.mixes):len(s.mixes)], wm: s.wm}
	for k, v := range s.h {
		n.h[k] = v
	}
	return n
}

type Assump struct {
	f    *Term
	what string
}

type Oblig struct {
	Name          string
	Kind          string // post, pre, safety, inv, frame, assert, cover
	Reach         *Term  `json:"-"`
	Goal          *Term  `json:"-"`
	ReachS, GoalS string
	Props         []string
	NAss          int
	Prop          string
	Cand          string // candidate key for invariants
	Pos           string
	Result        string // unsat(proved)/sat/unknown/error
	By            string
	Ms            int64
	Model         string
}

type writeRec struct {
	key string
	ref *Term
	mix bool // allocation-only (fresh cells)
}

// Exec is one verification task.
type Exec struct {
	topRets       []retRec
	V             *Verifier
	ass           []Assump
	obs           []*Oblig
	writes        []writeRec
	top           *ssa.Function
	spec          *FuncSpec
	entry         *State
	entryWM       *Term
	ghosts        map[string]*SVal
	params        map[string]*SVal
	rets          map[string][]*callRet // results of contract calls, for ret(...)
	dry           int
	cands         map[string]map[string]bool // loop key -> dropped candidate keys
	stack         []*ssa.Function
	trusted       map[string]bool
	netAx         bool
	frames        []*Frame
	loopN         map[string]int
	volat         map[*Term]bool
	quietSafety   int
	inlined       map[string]bool
	usedContracts map[string]bool
	noSafety      bool
	closIds       map[string]int
	fuel          int
	unfolded      map[*Term]bool
}

type callRet struct {
	vals []Val
	sig  *types.Signature
	args []Val
	st   *State
}

type deferRec struct {
	call  *ssa.Defer
	guard *Term
	fn    Val
	args  []Val
}

type Frame struct {
	shown    bool // the call being made is only for show
	x        *Exec
	fn       *ssa.Function
	env      map[ssa.Value]Val
	free     []Val
	defers   []deferRec
	loops    []*Loop
	path     string
	rets     []retRec
	evalLoop *Loop
	names    map[string]nameVal
	nCalls   int
	cur      *State
	curR     *Term
	depth    int
}

type nameVal struct {
	v Val
	t types.Type
}

type retRec struct {
	reach *Term
	vals  []Val
	st    *State
}

func (x *Exec) assume(reach, f *Term, what string) {
	if f == True {
		return
	}
	x.ass = append(x.ass, Assump{Implies(reach, f), what})
}

func (x *Exec) oblige(reach, goal *Term, kind, name string, pos token.Pos) {
	if x.dry > 0 {
		return
	}
	if x.noSafety && kind == "safety" {
		x.assume(reach, goal, "safety(assumed): "+name)
		return
	}
	p := ""
	if pos.IsValid() {
		ps := x.V.prog.Fset.Position(pos)
		p = fmt.Sprintf("%s:%d", strings.TrimPrefix(ps.Filename, "/repo/"), ps.Line)
	}
	x.obs = append(x.obs, &Oblig{Name: name, Kind: kind, Reach: reach, Goal: goal, NAss: len(x.ass), Pos: p})
	x.assume(reach, goal, kind+":"+name)
}

// ---- heap access

func (x *Exec) heap(st *State, key string) *Term {
	if h, ok := st.h[key]; ok {
		return h
	}
	s := heapSortOf[key]
	if s == nil {
		panic("unregistered heap " + key)
	}
	b := Var(key+"@0", s)
	if _, ok := refEp[b]; !ok {
		refEp[b] = 1
	}
	if s.K == IntS && !strings.HasPrefix(key, "g:") {
		for _, m := range st.mixes {
			if m.only != nil && !m.only[key] {
				continue
			}
			n := Var(fmt.Sprintf("%s@%d", key, m.epoch), s)
			refEp[n] = m.epoch
			b = Mix(b, n, m.wm)
		}
	}
	st.h[key] = b
	return b
}

func (x *Exec) setHeap(st *State, key string, v *Term) { st.h[key] = v }

func (x *Exec) write(st *State, key string, ref, v *Term) {
	h := x.heap(st, key)
	st.h[key] = Store(h, ref, v)
	x.writes = append(x.writes, writeRec{key, ref, false})
}

func (x *Exec) alloc(st *State) *Term {
	r := st.wm
	st.wm = AddI(st.wm, 1)
	return r
}

// bump starts a new epoch: everything at or above the current watermark may
// have been allocated and filled in arbitrarily.
func (x *Exec) bump(st *State) int { return x.bumpOnly(st, nil) }

// bumpOnly lets a call allocate: cells above the watermark become arbitrary, in
// the heaps of the given kinds only (objects of other kinds that the call may
// have allocated cannot be reached by the caller).
func (x *Exec) bumpOnly(st *State, only map[string]bool) int {
	pre := st.wm
	w, e := newWM()
	addFact(w, Le(pre, w))
	for k, h := range st.h {
		if strings.HasPrefix(k, "g:") || strings.HasPrefix(k, "it:") || h.Sort.K != IntS || only != nil && !only[k] {
			continue
		}
		n := Var(fmt.Sprintf("%s@%d", k, e), h.Sort)
		refEp[n] = e
		st.h[k] = Mix(h, n, pre)
	}
	st.mixes = append(st.mixes[:len(st.mixes):len(st.mixes)], mixRec{pre, e, only})
	st.wm = w
	x.writes = append(x.writes, writeRec{"*", nil, true})
	return e
}

// havocAll forgets every heap (used for calls with unknown effects).
func (x *Exec) havocAll(st *State) {
	e := x.bump(st)
	for k := range heapSortOf {
		if strings.HasPrefix(k, "g:") || strings.HasPrefix(k, "it:") {
			continue
		}
		n := Fresh(fmt.Sprintf("%s@hv%d", k, e), heapSortOf[k])
		refEp[n] = e
		st.h[k] = n
		x.writes = append(x.writes, writeRec{k, nil, false})
	}
}

func (x *Exec) load(st *State, p *Place) *Term {
	h := x.heap(st, p.Heap)
	if x.volat[p.Ref] {
		v := Fresh("vol", sortOf(p.T))
		return wf(v, p.T)
	}
	v := Select(h, p.Ref)
	if p.Heap == "B" && p.Elem != nil {
		c := SCode(SAt(v, p.Elem))
		return wf(c, types.Typ[types.Uint8])
	}
	if p.Elem != nil {
		v = Select(v, p.Elem)
	}
	t := p.Root
	for _, f := range p.Path {
		v = fieldSel(v, t, f)
		t = fieldType(t, f)
	}
	return wf(v, p.T)
}

func fieldType(t types.Type, i int) types.Type {
	return t.Underlying().(*types.Struct).Field(i).Type()
}

func fieldSel(v *Term, t types.Type, i int) *Term {
	s := sortOf(t)
	return Sel(v, s.DT.Ctors[0], i)
}

func updPath(v *Term, t types.Type, path []int, nv *Term) *Term {
	if len(path) == 0 {
		return nv
	}
	s := sortOf(t)
	c := s.DT.Ctors[0]
	args := make([]*Term, len(c.Fields))
	for i := range args {
		args[i] = Sel(v, c, i)
	}
	args[path[0]] = updPath(args[path[0]], fieldType(t, path[0]), path[1:], nv)
	return MkCtor(s, c, args...)
}

func (x *Exec) store(st *State, p *Place, v *Term) {
	h := x.heap(st, p.Heap)
	cell := Select(h, p.Ref)
	if p.Heap == "B" && p.Elem != nil {
		nv := SCat(SSub(cell, Int(0), p.Elem), SFromCode(v), SFrom(cell, AddI(p.Elem, 1)))
		if us := units(cell); us != nil && p.Elem.Op == OInt && p.Elem.N.IsInt64() && p.Elem.N.Int64() < int64(len(us)) {
			us[p.Elem.N.Int64()] = SFromCode(v)
			nv = SCat(us...)
		}
		x.write(st, p.Heap, p.Ref, nv)
		return
	}
	if p.Elem != nil {
		inner := Select(cell, p.Elem)
		x.write(st, p.Heap, p.Ref, Store(cell, p.Elem, updPath(inner, p.Root, p.Path, v)))
		return
	}
	x.write(st, p.Heap, p.Ref, updPath(cell, p.Root, p.Path, v))
}

// place interprets a pointer value of type *T as a place.
func (x *Exec) place(v Val, t types.Type) *Place {
	switch p := v.(type) {
	case *Place:
		return p
	case *Term:
		el := t.Underlying().(*types.Pointer).Elem()
		return &Place{Heap: objHeap(el), Ref: p, Root: el, T: el}
	}
	unsup("place of %T", v)
	return nil
}

// term converts an engine value to a term.
func (x *Exec) term(v Val) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case *Place:
		if v.Elem == nil && len(v.Path) == 0 {
			return v.Ref
		}
		// an interior pointer that escapes: an opaque, non-nil reference
		t := Fresh("intptr", IntS)
		addFact(t, Lt(Int(0), t))
		x.V.note("interior pointer treated as opaque reference")
		return t
	case *Closure:
		return closureTerm(v)
	case nil:
		unsup("nil value")
	}
	unsup("term of %T", v)
	return nil
}

var closureTab = map[int64]*Closure{}
var closureKey = map[string]int64{}

func closureTerm(c *Closure) *Term {
	k := fmt.Sprintf("%p", c.Fn)
	for _, b := range c.Bind {
		switch b := b.(type) {
		case *Term:
			k += fmt.Sprintf(",%d", b.id)
		case *Place:
			k += fmt.Sprintf(",p%d", b.Ref.id)
		default:
			k += fmt.Sprintf(",%p", b)
		}
	}
	if id, ok := closureKey[k]; ok {
		return Int(id)
	}
	id := int64(1000 + len(closureKey))
	closureKey[k] = id
	closureTab[id] = c
	return Int(id)
}

// ---- loops

type Loop struct {
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
	idx  int
}

func findLoops(fn *ssa.Function) []*Loop {
	var loops []*Loop
	byHead := map[*ssa.BasicBlock]*Loop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := byHead[s]
				if l == nil {
					l = &Loop{head: s, body: map[*ssa.BasicBlock]bool{s: true}}
					byHead[s] = l
					loops = append(loops, l)
				}
				var st []*ssa.BasicBlock
				if !l.body[b] {
					l.body[b] = true
					st = append(st, b)
				}
				for len(st) > 0 {
					n := st[len(st)-1]
					st = st[:len(st)-1]
					for _, p := range n.Preds {
						if !l.body[p] {
							l.body[p] = true
							st = append(st, p)
						}
					}
				}
			}
		}
	}
	sort.Slice(loops, func(i, j int) bool { return loops[i].head.Index < loops[j].head.Index })
	for i, l := range loops {
		l.idx = i
	}
	return loops
}

func rpo(fn *ssa.Function) []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i, j := 0, len(post)-1; i < j; i, j = i+1, j-1 {
		post[i], post[j] = post[j], post[i]
	}
	return post
}

type edge struct{ from, to *ssa.BasicBlock }

type edgeState struct {
	reach *Term
	st    *State
	pidx  int // predecessor index
}

// ---- joins

func conjuncts(t *Term) []*Term {
	if t.Op == OAnd {
		return t.Args
	}
	if t == True {
		return nil
	}
	return []*Term{t}
}

func joinReach(es []*Term) *Term {
	work := append([]*Term{}, es...)
	for changed := true; changed && len(work) > 1; {
		changed = false
	outer:
		for i := len(work) - 1; i > 0; i-- {
			for j := i - 1; j >= 0; j-- {
				a, b := work[j], work[i]
				var r *Term
				if a == b || b == False {
					r = a
				} else if a == False {
					r = b
				} else {
					r = resolve2(a, b, OOr, OAnd)
					if r == nil {
						r = absorb(a, b)
					}
				}
				if r != nil {
					work = append(work[:i], work[i+1:]...)
					work[j] = r
					changed = true
					break outer
				}
			}
		}
	}
	return Or(work...)
}

// absorb: (C and c) or (C and not c and R) where R extra -> (C and (c or R)):
// returns nil unless it simplifies to a plain conjunction.
func absorb(a, b *Term) *Term { return nil }

func relCond(e, join *Term) *Term {
	jc := map[*Term]bool{}
	for _, c := range conjuncts(join) {
		jc[c] = true
	}
	var out []*Term
	for _, c := range conjuncts(e) {
		if !jc[c] {
			out = append(out, c)
		}
	}
	return And(out...)
}

func (x *Exec) mergeTerms(conds []*Term, vs []*Term) *Term {
	r := vs[len(vs)-1]
	for i := len(vs) - 2; i >= 0; i-- {
		r = Ite(conds[i], vs[i], r)
	}
	return r
}

func (x *Exec) mergeStates(es []edgeState) (*Term, *State, []*Term) {
	var live []edgeState
	for _, e := range es {
		if e.reach != False {
			live = append(live, e)
		}
	}
	if len(live) == 0 {
		return False, es[0].st.clone(), nil
	}
	var rs []*Term
	for _, e := range live {
		rs = append(rs, e.reach)
	}
	reach := joinReach(rs)
	conds := make([]*Term, len(live))
	for i := range live {
		conds[i] = relCond(live[i].reach, reach)
	}
	if len(live) == 1 {
		return live[0].reach, live[0].st.clone(), conds
	}
	out := &State{h: map[string]*Term{}}
	keys := map[string]bool{}
	for _, e := range live {
		for k := range e.st.h {
			keys[k] = true
		}
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		vs := make([]*Term, len(live))
		for i, e := range live {
			vs[i] = x.heap(e.st, k)
		}
		out.h[k] = x.mergeTerms(conds, vs)
	}
	// watermark
	out.wm = live[0].st.wm
	for _, e := range live[1:] {
		if e.st.wm == out.wm {
			continue
		}
		d := Sub(e.st.wm, out.wm)
		if d.Op == OInt {
			if d.N.Sign() > 0 {
				out.wm = e.st.wm
			}
			continue
		}
		w, _ := newWM()
		addFact(w, And(Le(out.wm, w), Le(e.st.wm, w)))
		out.wm = w
	}
	// mixes
	seen := map[int]bool{}
	for _, e := range live {
		for _, m := range e.st.mixes {
			if !seen[m.epoch] {
				seen[m.epoch] = true
				out.mixes = append(out.mixes, m)
			}
		}
	}
	sort.Slice(out.mixes, func(i, j int) bool { return out.mixes[i].epoch < out.mixes[j].epoch })
	return reach, out, conds
}

func (x *Exec) mergeVals(conds []*Term, vs []Val) Val {
	same := true
	for _, v := range vs[1:] {
		_, tup := v.(Tuple)
		if tup || v != vs[0] {
			same = false
		}
	}
	if same {
		return vs[0]
	}
	if _, ok := vs[0].(Tuple); ok {
		n := len(vs[0].(Tuple))
		out := make(Tuple, n)
		for i := 0; i < n; i++ {
			var c []Val
			for _, v := range vs {
				c = append(c, v.(Tuple)[i])
			}
			out[i] = x.mergeVals(conds, c)
		}
		return out
	}
	// places with same root shape
	if p0, ok := vs[0].(*Place); ok {
		allSame := true
		for _, v := range vs[1:] {
			p, ok := v.(*Place)
			if !ok || p.Heap != p0.Heap || fmt.Sprint(p.Path) != fmt.Sprint(p0.Path) || (p.Elem == nil) != (p0.Elem == nil) {
				allSame = false
				break
			}
		}
		if allSame {
			var refs, els []*Term
			for _, v := range vs {
				refs = append(refs, v.(*Place).Ref)
				if p0.Elem != nil {
					els = append(els, v.(*Place).Elem)
				}
			}
			n := *p0
			n.Ref = x.mergeTerms(conds, refs)
			if p0.Elem != nil {
				n.Elem = x.mergeTerms(conds, els)
			}
			return &n
		}
	}
	ts := make([]*Term, len(vs))
	for i, v := range vs {
		ts[i] = x.term(v)
	}
	return x.mergeTerms(conds, ts)
}

// ---- function execution

// run executes fn's body from st under reach; returns merged results.
func (x *Exec) run(fn *ssa.Function, args []Val, free []Val, st *State, reach *Term, path string) ([]Val, *State, *Term) {
	if len(fn.Blocks) == 0 {
		unsup("no body: %s", fn)
	}
	if len(x.stack) > 40 {
		unsup("inline depth")
	}
	x.stack = append(x.stack, fn)
	defer func() { x.stack = x.stack[:len(x.stack)-1] }()
	f := &Frame{x: x, fn: fn, env: map[ssa.Value]Val{}, names: map[string]nameVal{}, free: free, path: path, depth: len(x.stack)}
	x.frames = append(x.frames, f)
	defer func() { x.frames = x.frames[:len(x.frames)-1] }()
	for i, p := range fn.Params {
		f.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		f.env[p] = free[i]
	}
	f.loops = findLoops(fn)
	order := rpo(fn)
	in := map[edge][]edgeState{}
	f.region(order, nil, fn.Blocks[0], st, reach, in)
	if len(f.rets) == 0 {
		return nil, st, False
	}
	var es []edgeState
	for _, r := range f.rets {
		es = append(es, edgeState{r.reach, r.st, 0})
	}
	rr, rst, conds := x.mergeStates(es)
	if rr == False {
		return nil, st, False
	}
	var live []retRec
	for _, r := range f.rets {
		if r.reach != False {
			live = append(live, r)
		}
	}
	if len(x.stack) == 1 {
		x.topRets = live
	}
	n := len(live[0].vals)
	out := make([]Val, n)
	for i := 0; i < n; i++ {
		vs := make([]Val, len(live))
		for j := range live {
			vs[j] = live[j].vals[i]
		}
		out[i] = x.mergeVals(conds, vs)
	}
	return out, rst, rr
}

func (f *Frame) loopAt(b *ssa.BasicBlock) *Loop {
	for _, l := range f.loops {
		if l.head == b {
			return l
		}
	}
	return nil
}

// region executes the blocks of order (restricted to within, if non-nil)
// starting at start with the given state. Edges leaving the region or going
// back to a region's own head are left in `in`.
func (f *Frame) region(order []*ssa.BasicBlock, within *Loop, start *ssa.BasicBlock, st *State, reach *Term, in map[edge][]edgeState) {
	for _, b := range order {
		if within != nil && !within.body[b] {
			continue
		}
		var s *State
		var r *Term
		if b == start {
			s, r = st, reach
			if within == nil {
				if l := f.loopAt(b); l != nil {
					unsup("loop at entry block")
				}
			}
		} else {
			l := f.loopAt(b)
			var es []edgeState
			var preds []*ssa.BasicBlock
			seenPred := map[*ssa.BasicBlock]int{}
			for pi, p := range b.Preds {
				if l != nil && l.body[p] {
					continue
				}
				k := edge{p, b}
				lst := in[k]
				if len(lst) == 0 {
					continue
				}
				// a conditional with both successors equal has two entries
				n := seenPred[p]
				if n < len(lst) {
					e := lst[n]
					e.pidx = pi
					es = append(es, e)
					preds = append(preds, p)
				}
				seenPred[p]++
			}
			if len(es) == 0 {
				continue
			}
			r, s = f.join(b, es)
			if r == False {
				continue
			}
			if l != nil && !f.zeroTrip(l, b, r, s) {
				r, s = f.enterLoop(order, l, r, s)
			}
		}
		f.block(b, s, r, in)
	}
}

// join merges the incoming edges of b and binds its phis.
func (f *Frame) join(b *ssa.BasicBlock, es []edgeState) (*Term, *State) {
	x := f.x
	r, s, conds := x.mergeStates(es)
	if r == False {
		return r, s
	}
	var live []edgeState
	for _, e := range es {
		if e.reach != False {
			live = append(live, e)
		}
	}
	vals := map[*ssa.Phi]Val{}
	for _, ins := range b.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		vs := make([]Val, len(live))
		for i, e := range live {
			vs[i] = f.val(phi.Edges[e.pidx])
		}
		vals[phi] = x.mergeVals(conds, vs)
	}
	for p, v := range vals {
		f.env[p] = v
	}
	return r, s
}

func (f *Frame) phis(b *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, ins := range b.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		out = append(out, p)
	}
	return out
}

func copyEnv(m map[ssa.Value]Val) map[ssa.Value]Val {
	n := make(map[ssa.Value]Val, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

// enterLoop cuts the loop at its header: havocs what the body modifies,
// assumes the invariant candidates, and checks them at entry and back edges.
func (f *Frame) enterLoop(order []*ssa.BasicBlock, l *Loop, reach *Term, entry *State) (*Term, *State) {
	x := f.x
	phis := f.phis(l.head)
	entryVals := map[*ssa.Phi]Val{}
	for _, p := range phis {
		entryVals[p] = f.env[p]
	}
	envAtEntry := copyEnv(f.env)
	lkey := f.path + "/" + shortName(f.fn.String()) + fmt.Sprintf("#%d", l.idx)
	nDefers := len(f.defers)

	// 1. find what is modified, to a fixed point
	x.dry++
	mod := map[string]bool{}             // fully havocked heaps
	cells := map[string]map[*Term]bool{} // heap -> invariant refs written
	mixed := map[string]bool{}           // heaps with fresh cells
	bumpAll := false
	stablePhi := map[*ssa.Phi]bool{}
	for _, p := range phis {
		stablePhi[p] = false
	}
	var hdr *State
	for iter := 0; ; iter++ {
		f.env = copyEnv(envAtEntry)
		mark := varCnt
		var wmL *Term
		hdr, wmL = f.loopHeader(l, entry, phis, entryVals, mod, cells, mixed, bumpAll, fmt.Sprintf("%s~d%d", lkey, iter))
		_ = wmL
		sa, so, sw, sr := len(x.ass), len(x.obs), len(x.writes), len(f.rets)
		start := hdr.clone()
		in := map[edge][]edgeState{}
		f.loopBody(order, l, start, True, in)
		changed := false
		for _, w := range x.writes[sw:] {
			if w.mix {
				if !bumpAll {
					bumpAll = true
					changed = true
				}
				continue
			}
			if mod[w.key] {
				continue
			}
			if w.ref == nil {
				mod[w.key] = true
				changed = true
				continue
			}
			if _, ok := wmForm(w.ref); ok && w.ref.maxv > mark {
				if !mixed[w.key] {
					mixed[w.key] = true
					changed = true
				}
				continue
			}
			if w.ref.maxv > mark {
				// may depend on the loop state; does it contain a fresh watermark?
				mod[w.key] = true
				changed = true
				continue
			}
			if e, ok := wmForm(w.ref); ok {
				_ = e
				// allocated before the loop or in this iteration at the header's watermark
				if f.isLoopFresh(w.ref, hdr) {
					if !mixed[w.key] {
						mixed[w.key] = true
						changed = true
					}
					continue
				}
			}
			if cells[w.key] == nil {
				cells[w.key] = map[*Term]bool{}
			}
			if !cells[w.key][w.ref] {
				cells[w.key][w.ref] = true
				changed = true
			}
		}
		// non-array ghost state / iterators compared directly
		for _, es := range backEdges(l, in) {
			for k, v := range es.st.h {
				if strings.HasPrefix(k, "g:") || strings.HasPrefix(k, "it:") {
					if v != x.heap(hdr, k) && !mod[k] {
						mod[k] = true
						changed = true
					}
				}
			}
			if es.st.wm != hdr.wm && !bumpAll {
				// allocations happen in the loop
				if !mixed["*wm"] {
					mixed["*wm"] = true
					changed = true
				}
			}
		}
		x.ass, x.obs, x.writes, f.rets = x.ass[:sa], x.obs[:so], x.writes[:sw], f.rets[:sr]
		f.defers = f.defers[:nDefers]
		if !changed {
			break
		}
		if iter > 12 {
			x.dry--
			unsup("loop modification analysis does not converge in %s", f.fn)
		}
	}
	x.dry--

	// 2. the real header
	f.env = copyEnv(envAtEntry)
	var wmH *Term
	hdr, wmH = f.loopHeader(l, entry, phis, entryVals, mod, cells, mixed, bumpAll, lkey)
	_ = wmH
	// propagate to enclosing loops' write sets
	for k := range mod {
		x.writes = append(x.writes, writeRec{k, nil, false})
	}
	for k, rs := range cells {
		for r := range rs {
			x.writes = append(x.writes, writeRec{k, r, false})
		}
	}
	for k := range mixed {
		if k != "*wm" {
			x.writes = append(x.writes, writeRec{k, hdr.wm, false})
		}
	}
	if bumpAll {
		x.writes = append(x.writes, writeRec{"*", nil, true})
	}
	if x.dry > 0 {
		// nested in someone else's dry run: still assume nothing
		return reach, hdr
	}

	// 3. candidates
	hv := map[*ssa.Phi]*Term{}
	ev := map[*ssa.Phi]*Term{}
	for _, p := range phis {
		if t, ok := f.env[p].(*Term); ok {
			hv[p] = t
			if e, ok := entryVals[p].(*Term); ok {
				ev[p] = e
			} else {
				ev[p] = x.term(entryVals[p])
			}
		}
	}
	lc := &loopCtx{f: f, l: l, key: lkey, phis: phis, hv: hv, ev: ev, hdr: hdr, entry: entry, reach: reach, mod: mod, env: envAtEntry}
	cands := x.candidates(lc)
	dropped := x.cands[lkey]
	var active []*cand
	for _, c := range cands {
		if !dropped[c.key] {
			active = append(active, c)
		}
	}
	for _, c := range active {
		g := c.at(entry, ev)
		x.obs = append(x.obs, &Oblig{Name: lkey + " invariant (entry) " + c.key, Kind: "inv", Reach: reach, Goal: g, NAss: len(x.ass), Cand: lkey + "\x00" + c.key})
	}
	for _, c := range active {
		x.assume(reach, c.at(hdr, hv), "inv "+c.key)
	}
	// 4. body once, to check preservation at back edges. The blocks are executed again by
	// the caller's region walk (which also collects exits and obligations), so
	// only the back-edge states matter here; they are produced by that walk.
	f.pendingLoops(l, active, hv, lkey)
	return reach, hdr
}

type pendLoop struct {
	l      *Loop
	active []*cand
	hv     map[*ssa.Phi]*Term
	key    string
}

var pend = map[*Frame][]*pendLoop{}

func (f *Frame) pendingLoops(l *Loop, active []*cand, hv map[*ssa.Phi]*Term, key string) {
	pend[f] = append(pend[f], &pendLoop{l, active, hv, key})
}

func (f *Frame) isLoopFresh(ref *Term, hdr *State) bool {
	d := Sub(ref, hdr.wm)
	return d.Op == OInt && d.N.Sign() >= 0
}

func backEdges(l *Loop, in map[edge][]edgeState) []edgeState {
	var out []edgeState
	for e, ls := range in {
		if e.to == l.head && l.body[e.from] {
			for _, s := range ls {
				if s.reach != False {
					out = append(out, s)
				}
			}
		}
	}
	return out
}

// loopHeader builds the header state with havocked phis and heaps.
func (f *Frame) loopHeader(l *Loop, entry *State, phis []*ssa.Phi, ev map[*ssa.Phi]Val, mod map[string]bool, cells map[string]map[*Term]bool, mixed map[string]bool, bumpAll bool, tag string) (*State, *Term) {
	x := f.x
	hdr := entry.clone()
	allocs := bumpAll || len(mixed) > 0
	epoch := len(wmVars) - 1
	if e, ok := wmForm(entry.wm); ok {
		epoch = e
	}
	if allocs {
		pre := entry.wm
		w, e := newWM()
		addFact(w, Le(pre, w))
		epoch = e
		hdr.wm = w
		if bumpAll {
			for k, h := range hdr.h {
				if strings.HasPrefix(k, "g:") || strings.HasPrefix(k, "it:") || h.Sort.K != IntS {
					continue
				}
				n := Var(fmt.Sprintf("%s@%d", k, e), h.Sort)
				refEp[n] = e
				hdr.h[k] = Mix(h, n, pre)
			}
			hdr.mixes = append(hdr.mixes[:len(hdr.mixes):len(hdr.mixes)], mixRec{pre, e, nil})
		} else {
			for k := range mixed {
				if k == "*wm" {
					continue
				}
				h := x.heap(hdr, k)
				n := Var(fmt.Sprintf("%s@%d", k, e), h.Sort)
				refEp[n] = e
				hdr.h[k] = Mix(h, n, pre)
			}
		}
	} else {
		// references held by phis are bounded by the entry watermark
		w, e := newWM()
		addFact(w, Le(entry.wm, w))
		epoch = e
		hdr.wm = w
	}
	for k := range mod {
		s := heapSortOf[k]
		n := Fresh(k+"@L", s)
		refEp[n] = epoch
		hdr.h[k] = n
	}
	for k, rs := range cells {
		if mod[k] {
			continue
		}
		var refs []*Term
		for r := range rs {
			refs = append(refs, r)
		}
		sort.Slice(refs, func(i, j int) bool { return refs[i].id < refs[j].id })
		for _, r := range refs {
			h := x.heap(hdr, k)
			n := Fresh(k+"@Lc", h.Sort.V)
			refEp[n] = epoch
			hdr.h[k] = Store(h, r, n)
		}
	}
	for _, p := range phis {
		switch v := ev[p].(type) {
		case *Iter, Tuple:
			unsup("phi of %T", v)
		}
		// a phi all of whose back edges are itself is unchanged
		same := true
		for i, pr := range l.head.Preds {
			if l.body[pr] && p.Edges[i] != ssa.Value(p) {
				same = false
			}
		}
		if same {
			continue
		}
		t := Fresh("phi."+mangle(f.fn.Name())+"."+p.Name(), sortOf(p.Type()))
		refEp[t] = epoch
		if pl, ok := ev[p].(*Place); ok && (pl.Elem != nil || len(pl.Path) > 0) {
			unsup("phi of interior pointers")
		}
		wf(t, p.Type())
		f.env[p] = t
	}
	return hdr, hdr.wm
}

// loopBody executes the loop's blocks from the header.
func (f *Frame) loopBody(order []*ssa.BasicBlock, l *Loop, st *State, reach *Term, in map[edge][]edgeState) {
	f.region(order, l, l.head, st, reach, in)
}

// finishEdge is called when control flows along p->b; back edges of active
// loops check the invariant candidates.
func (f *Frame) finishEdge(p, b *ssa.BasicBlock, pidx int, reach *Term, st *State) {
	if f.x.dry > 0 {
		return
	}
	for _, pl := range pend[f] {
		if pl.l.head == b && pl.l.body[p] {
			vals := map[*ssa.Phi]*Term{}
			for ph := range pl.hv {
				v := f.val(ph.Edges[pidx])
				vals[ph] = f.x.term(v)
			}
			for _, c := range pl.active {
				g := c.at(st, vals)
				f.x.obs = append(f.x.obs, &Oblig{Name: pl.key + " invariant (preserved) " + c.key, Kind: "inv", Reach: reach, Goal: g, NAss: len(f.x.ass), Cand: pl.key + "\x00" + c.key})
			}
		}
	}
}

func predIndex(p, b *ssa.BasicBlock, nth int) int {
	k := 0
	for i, q := range b.Preds {
		if q == p {
			if k == nth {
				return i
			}
			k++
		}
	}
	return -1
}

// block executes one basic block and pushes edge states.
func (f *Frame) block(b *ssa.BasicBlock, st *State, reach *Term, in map[edge][]edgeState) {
	x := f.x
	st = st.clone()
	f.cur, f.curR = st, reach
	push := func(to *ssa.BasicBlock, r *Term, nth int) {
		k := edge{b, to}
		in[k] = append(in[k], edgeState{reach: r, st: f.cur})
		if r != False {
			f.finishEdge(b, to, predIndex(b, to, nth), r, f.cur)
		}
	}
	for _, ins := range b.Instrs {
		if f.curR == False {
			break
		}
		switch ins := ins.(type) {
		case *ssa.Phi:
			continue
		case *ssa.DebugRef:
			if id, ok := ins.Expr.(*ast.Ident); ok && !ins.IsAddr {
				if v, ok := f.env[ins.X]; ok {
					f.names[id.Name] = nameVal{v, ins.X.Type()}
				}
			}
			continue
		case *ssa.If:
			c := x.term(f.val(ins.Cond))
			push(b.Succs[0], And(f.curR, c), 0)
			n := 0
			if b.Succs[0] == b.Succs[1] {
				n = 1
			}
			push(b.Succs[1], And(f.curR, Not(c)), n)
			return
		case *ssa.Jump:
			push(b.Succs[0], f.curR, 0)
			return
		case *ssa.Return:
			vals := make([]Val, len(ins.Results))
			for i, r := range ins.Results {
				vals[i] = f.val(r)
			}
			f.rets = append(f.rets, retRec{f.curR, vals, f.cur.clone()})
			return
		case *ssa.Panic:
			x.oblige(f.curR, False, "safety", f.loc()+" explicit panic unreachable", ins.Pos())
			return
		default:
			f.instr(ins)
		}
	}
	if f.curR == False {
		// unreachable from here; still provide edges
		for _, s := range b.Succs {
			in[edge{b, s}] = append(in[edge{b, s}], edgeState{reach: False, st: f.cur})
		}
	}
}

func (f *Frame) loc() string {
	n := shortName(f.fn.String())
	if f.path != "" {
		return f.path + ">" + n
	}
	return n
}

func (f *Frame) val(v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return constVal(v)
	case *ssa.Function:
		return &Closure{Fn: v}
	case *ssa.Global:
		el := v.Type().Underlying().(*types.Pointer).Elem()
		return &Place{Heap: objHeap(el), Ref: Int(f.x.V.globalRef(v)), Root: el, T: el}
	case *ssa.Builtin:
		return v
	}
	r, ok := f.env[v]
	if !ok {
		unsup("value %s not computed in %s", v.Name(), f.fn)
	}
	return r
}

func (f *Frame) t(v ssa.Value) *Term { return f.x.term(f.val(v)) }

func constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zero(t)
	}
	switch sortOf(t) {
	case BoolS:
		return Bool(constant.BoolVal(c.Value))
	case IntS:
		v := constant.ToInt(c.Value)
		n, ok := new(big.Int).SetString(v.ExactString(), 10)
		if !ok {
			unsup("const %s", c)
		}
		return BigInt(n)
	case StringS:
		return Str(constant.StringVal(c.Value))
	case RealS:
		return realConst(constant.ToFloat(c.Value))
	}
	unsup("const %s", c)
	return nil
}

func realConst(v constant.Value) *Term {
	n, d := constant.Num(v).ExactString(), constant.Denom(v).ExactString()
	neg := strings.HasPrefix(n, "-")
	n = strings.TrimPrefix(n, "-")
	s := n + ".0"
	if d != "1" {
		s = "(/ " + n + ".0 " + d + ".0)"
	}
	if neg {
		s = "(- " + s + ")"
	}
	return RealLit(s)
}

// units splits the content of a byte array into one piece per byte, when each
// piece is visibly one byte (a byte read from a string is one: reading is
// checked to be in range).
func units(c *Term) []*Term {
	var out []*Term
	ps := []*Term{c}
	if c.Op == OApp && c.S == "str.++" {
		ps = c.Args
	}
	for _, p := range ps {
		switch {
		case p.Op == OStr:
			for i := 0; i < len(p.S); i++ {
				out = append(out, Str(p.S[i:i+1]))
			}
		case p.Op == OApp && (p.S == "str.from_code" || p.S == "str.at"):
			out = append(out, p)
		default:
			return nil
		}
	}
	return out
}

// zeroTrip reports that a loop's condition is visibly false on entry, so that
// its body never runs.
func (f *Frame) zeroTrip(l *Loop, b *ssa.BasicBlock, r *Term, s *State) bool {
	for _, ins := range b.Instrs {
		switch ins.(type) {
		case *ssa.Phi, *ssa.BinOp, *ssa.DebugRef, *ssa.If:
		default:
			return false
		}
	}
	br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok || !l.body[b.Succs[0]] || l.body[b.Succs[1]] {
		return false
	}
	x := f.x
	env, cur, curR := f.env, f.cur, f.curR
	so, sa := len(x.obs), len(x.ass)
	f.env, f.cur, f.curR = copyEnv(env), s.clone(), r
	x.dry++
	for _, ins := range b.Instrs {
		if bo, ok := ins.(*ssa.BinOp); ok {
			f.instr(bo)
		}
	}
	c := x.term(f.val(br.Cond))
	x.dry--
	f.env, f.cur, f.curR = env, cur, curR
	x.obs, x.ass = x.obs[:so], x.ass[:sa]
	return c == False
}
