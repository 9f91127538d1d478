package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"os/signal"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"sort"
	"strings"
	"syscall"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Verifier struct {
	prog     *ssa.Program
	spkgs    []*ssa.Package
	specs    *SpecDB
	typeMemo map[string]types.Type
	pkgs     map[string]*types.Package
	dropped  map[string]bool
	notes    map[string]bool
	globals  map[*ssa.Global]int64
	verbose  bool
	debug    bool
	keep     bool
	par      int
	quickMs  int
	fullMs   int
	fnTab    map[string]*ssa.Function
	initVals map[*ssa.Global]Val
	hints    map[string]map[string][]string
}

func (v *Verifier) note(s string) { v.notes[s] = true }
func (v *Verifier) noteExtern(x *Exec, s string) {
	x.trust("model of " + s)
}
func (v *Verifier) debugf(f string, a ...any) {
	if v.debug {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

func (v *Verifier) globalRef(g *ssa.Global) int64 {
	if n, ok := v.globals[g]; ok {
		return n
	}
	n := int64(2000 + len(v.globals))
	v.globals[g] = n
	return n
}

// globalValue returns the value of a package-level variable that is never
// reassigned and whose initialiser is understood, else nil.
func (v *Verifier) globalValue(x *Exec, g *ssa.Global) Val {
	if r, ok := v.initVals[g]; ok {
		return r
	}
	r := v.computeGlobal(x, g)
	v.initVals[g] = r
	return r
}

func (v *Verifier) computeGlobal(x *Exec, g *ssa.Global) Val {
	if g.Pkg == nil {
		return nil
	}
	el := g.Type().Underlying().(*types.Pointer).Elem()
	nm := shortName(g.String())
	inRepo := strings.HasPrefix(g.Pkg.Pkg.Path(), modPath)
	if !inRepo {
		// extern variables: opaque constants (io.EOF, http.NoBody, ...)
		if mutableExtern[nm] {
			return nil
		}
		t := Var0("glob."+mangle(nm), sortOf(el))
		refEp[t] = 1
		wf(t, el)
		if t.Sort == IfaceS {
			addFact(t, Neq(t, iNil))
		}
		if _, ok := el.Underlying().(*types.Pointer); ok {
			addFact(t, Lt(Int(0), t))
		}
		return t
	}
	// every store to g must be the one in the package initialiser
	var stores []*ssa.Store
	for _, fn := range v.fnTab {
		if fn.Pkg != g.Pkg {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if s, ok := ins.(*ssa.Store); ok && s.Addr == ssa.Value(g) {
					stores = append(stores, s)
				}
			}
		}
	}
	if len(stores) == 0 {
		return zero(el)
	}
	if len(stores) != 1 || !strings.HasPrefix(stores[0].Parent().Name(), "init") {
		return nil
	}
	return v.initExpr(stores[0].Val)
}

func (v *Verifier) initExpr(e ssa.Value) Val {
	switch e := e.(type) {
	case *ssa.Const:
		return constVal(e)
	case *ssa.Function:
		return &Closure{Fn: e}
	case *ssa.BinOp:
		a, b := v.initExpr(e.X), v.initExpr(e.Y)
		if a != nil && b != nil {
			s, t := a.(*Term), b.(*Term)
			if s.Sort == StringS && e.Op.String() == "+" {
				return SCat(s, t)
			}
		}
	case *ssa.UnOp:
		if g, ok := e.X.(*ssa.Global); ok && e.Op.String() == "*" {
			return v.globalValue(nil, g)
		}
	case *ssa.Call:
		if fn, ok := e.Call.Value.(*ssa.Function); ok && fn.String() == "sync.OnceFunc" {
			return v.initExpr(e.Call.Args[0])
		}
	case *ssa.ChangeType:
		return v.initExpr(e.X)
	case *ssa.MakeClosure:
		if len(e.Bindings) == 0 {
			return &Closure{Fn: e.Fn.(*ssa.Function)}
		}
	}
	return nil
}

func (v *Verifier) externSig(name string) *types.Signature {
	if fn := v.fnTab[name]; fn != nil {
		return fn.Signature
	}
	if fn := v.findFn(name); fn != nil {
		return fn.Signature
	}
	return nil
}

// findFn resolves "pkg.Func", "(*pkg.T).M", "(pkg.T).M".
func (v *Verifier) findFn(name string) *ssa.Function {
	if f, ok := v.fnTab[name]; ok {
		return f
	}
	for _, p := range v.prog.AllPackages() {
		for _, m := range p.Members {
			switch m := m.(type) {
			case *ssa.Function:
				v.fnTab[shortName(m.String())] = m
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					if _, ok := m.Type().Underlying().(*types.Interface); ok {
						continue
					}
					ms := v.prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						if fn := v.prog.MethodValue(ms.At(i)); fn != nil {
							k := shortName(fn.String())
							if _, ok := v.fnTab[k]; !ok {
								v.fnTab[k] = fn
							}
						}
					}
				}
			}
		}
	}
	f := v.fnTab[name]
	return f
}

func load(repo, overlayDir string) (*Verifier, error) {
	// the toolchain the repository is built with (/opt/vp/env.sh)
	const goroot = "/opt/veriftools/go1.26.10"
	os.Setenv("GOROOT", goroot)
	os.Setenv("PATH", goroot+"/bin:/usr/local/bin:/usr/bin:/bin")
	os.Setenv("GOTOOLCHAIN", "local")
	os.Setenv("GOWORK", "off")
	ov := map[string][]byte{}
	files, _ := filepath.Glob(filepath.Join(overlayDir, "*.go"))
	for _, f := range files {
		// name: <pkgdir with __>@file.go
		b := filepath.Base(f)
		dir, rest, ok := strings.Cut(b, "@")
		if !ok {
			continue
		}
		data, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		d := strings.ReplaceAll(dir, "__", "/")
		if d == "root" {
			d = ""
		}
		ov[filepath.Join(repo, d, "zz_verif_"+rest)] = data
	}
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     repo,
		Overlay: ov,
		Env:     append(os.Environ(), "GOFLAGS=-mod=mod -buildvcs=false", "GOPROXY=off", "CGO_ENABLED=0"),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	bad := ""
	for _, p := range pkgs {
		for _, e := range p.Errors {
			bad += e.Error() + "\n"
		}
	}
	if bad != "" {
		return nil, fmt.Errorf("load: %s", bad)
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics|ssa.GlobalDebug)
	v := &Verifier{prog: prog, typeMemo: map[string]types.Type{}, pkgs: map[string]*types.Package{}, dropped: map[string]bool{}, notes: map[string]bool{}, globals: map[*ssa.Global]int64{}, fnTab: map[string]*ssa.Function{}, initVals: map[*ssa.Global]Val{}, par: runtime.NumCPU(), quickMs: 1500, fullMs: 12000}
	for _, p := range spkgs {
		if p != nil {
			p.Build()
			v.spkgs = append(v.spkgs, p)
		}
	}
	// bodies of generic helpers that are inlined
	for _, path := range []string{"maps", "slices", "cmp"} {
		for _, p := range prog.AllPackages() {
			if p.Pkg.Path() == path {
				p.Build()
			}
		}
	}
	for _, p := range v.spkgs {
		for fn := range ssautil.AllFunctions(prog) {
			_ = fn
			break
		}
		_ = p
	}
	for fn := range allRepoFns(v.spkgs) {
		v.fnTab[shortName(fn.String())] = fn
	}
	return v, nil
}

func allRepoFns(ps []*ssa.Package) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || out[f] {
			return
		}
		out[f] = true
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, p := range ps {
		for _, m := range p.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				if _, ok := m.Type().Underlying().(*types.Interface); ok {
					continue
				}
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := p.Prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						fn := p.Prog.MethodValue(ms.At(i))
						if fn != nil && fn.Synthetic == "" {
							add(fn)
						}
					}
				}
			}
		}
	}
	return out
}

// ---- verification of one function

type FuncReport struct {
	Name       string
	Props      []string
	Status     string // proved, failed, unsupported, missing
	Err        string
	Obs        []*Oblig
	InvActive  int
	InvDropped int
	Trusted    []string
	Inlined    []string
	Contracts  []string
	Rounds     int
	Ms         int64
	Cover      string
}

func (v *Verifier) newExec(fn *ssa.Function, sp *FuncSpec, cands map[string]map[string]bool) *Exec {
	runCnt++
	runPrefix = fmt.Sprintf("r%d:", runCnt)
	wmVars = []*Term{nil}
	iterCnt = 0
	freshCnt = map[string]int{}
	v.initVals = map[*ssa.Global]Val{}
	for k := range heapSortOf {
		if strings.HasPrefix(k, "it:") {
			delete(heapSortOf, k)
		}
	}
	pend = map[*Frame][]*pendLoop{}
	return &Exec{V: v, top: fn, spec: sp, ghosts: map[string]*SVal{}, params: map[string]*SVal{}, rets: map[string][]*callRet{}, cands: cands, trusted: map[string]bool{}, loopN: map[string]int{}, volat: map[*Term]bool{}, inlined: map[string]bool{}, usedContracts: map[string]bool{}, closIds: map[string]int{}, fuel: 2, unfolded: map[*Term]bool{}}
}

func (v *Verifier) execute(fn *ssa.Function, sp *FuncSpec, cands map[string]map[string]bool) (x *Exec, err error) {
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case Unsupported:
				err = fmt.Errorf("unsupported: %s", e.Msg)
			case SpecErr:
				err = fmt.Errorf("contract: %s", e.Msg)
			default:
				if v.debug {
					panic(r)
				}
				err = fmt.Errorf("engine: %v", r)
			}
		}
	}()
	x = v.newExec(fn, sp, cands)
	x.noSafety = sp.Opts["nosafety"]
	wm, _ := newWM()
	st := &State{h: map[string]*Term{}, wm: wm}
	initGhostState(x, st)
	var args []Val
	var ts []*Term
	for i, p := range fn.Params {
		t := Fresh(fmt.Sprintf("p%d.%s", i, mangle(p.Name())), sortOf(p.Type()))
		refEp[t] = 1
		wf(t, p.Type())
		args = append(args, t)
		ts = append(ts, t)
	}
	x.params = x.bindParams(sp, fn, ts)
	pkg := x.pkgOf(fn)
	for _, g := range sp.Ghosts {
		t := v.typeByName(g.Type, pkg)
		gv := Fresh("gh."+g.Name, sortOf(t))
		refEp[gv] = 1
		x.ghosts[g.Name] = &SVal{wf(gv, t), t}
	}
	x.entry = st.clone()
	x.entryWM = wm
	pre := &SCtx{x: x, st: x.entry, old: x.entry, env: x.params, pkg: pkg}
	x.bindLets(sp, pre, true)
	for _, r := range sp.Requires {
		x.assume(True, pre.Bool(r.Expr), "requires "+r.Src)
	}
	st = x.entry.clone()
	for _, g := range sp.Sets {
		if g.End {
			continue
		}
		k := "g:" + g.Name
		x.setHeap(st, k, Store(x.heap(st, k), pre.eval(g.Idx).T, pre.eval(g.Val).T))
	}
	vals, fin, reach := x.run(fn, args, nil, st, True, "")
	if reach == False {
		return x, fmt.Errorf("function never returns normally")
	}
	name := sp.Name
	// cover: the end of the function is reachable under the precondition
	x.obs = append(x.obs, &Oblig{Name: name + ": cover (end reachable)", Kind: "cover", Reach: reach, Goal: False, NAss: len(x.ass)})
	check := func(vals []Val, fin *State, reach *Term, sfx string) {
		env := map[string]*SVal{}
		for k, e := range x.params {
			env[k] = e
		}
		var rts []*Term
		for _, r := range vals {
			rts = append(rts, x.term(r))
		}
		bindResults(env, fn.Signature, rts)
		post := &SCtx{x: x, st: fin, old: x.entry, env: env, pkg: pkg}
		x.bindLets(sp, post, false)
		for _, g := range sp.Sets {
			if g.End {
				k := "g:" + g.Name
				nf := fin.clone()
				x.setHeap(nf, k, Store(x.heap(fin, k), post.eval(g.Idx).T, post.eval(g.Val).T))
				fin, post.st = nf, nf
			}
		}
		for i, e := range sp.Ensures {
			lbl := e.Label
			if lbl == "" {
				lbl = e.Src
			}
			g := post.Bool(e.Expr)
			gs := splitGoal(g)
			for k, gg := range gs {
				nm := fmt.Sprintf("%s: ensures %d: %s%s", name, i, lbl, sfx)
				if len(gs) > 1 {
					nm += fmt.Sprintf(" (%d/%d)", k+1, len(gs))
				}
				x.obs = append(x.obs, &Oblig{Name: nm, Kind: "post", Reach: reach, Goal: gg, NAss: len(x.ass), Props: e.Props})
			}
		}
		// frame
		if !sp.ModAll && sp.HasMod {
			mods := x.modPlaces(sp, pre)
			for _, k := range sortedKeys(fin.h) {
				h := fin.h[k]
				if strings.HasPrefix(k, "it:") {
					continue
				}
				h0 := x.heap(x.entry, k)
				if h == h0 {
					continue
				}
				if strings.HasPrefix(k, "g:") {
					allowed := false
					for _, m := range mods {
						if m.key == k {
							allowed = true
						}
					}
					if !allowed {
						x.obs = append(x.obs, &Oblig{Name: name + ": frame: ghost " + k[2:] + " unchanged" + sfx, Kind: "frame", Reach: reach, Goal: Eq(h, h0), NAss: len(x.ass)})
					}
					continue
				}
				r := Fresh("frame.ref", IntS)
				refEp[r] = 1
				var goals []*Term
				a, b := Select(h, r), Select(h0, r)
				whole := false
				excl := []*Term{Lt(Int(0), r), Lt(r, wm)}
				for _, m := range mods {
					if m.key != k {
						continue
					}
					if m.ref == nil {
						whole = true
						break
					}
					if m.path != nil {
						// equal up to the named field
						fb := Select(h0, m.ref)
						ok := updPath(fb, m.root, m.path, pathSel(Select(h, m.ref), m.root, m.path))
						_ = ok
					}
					excl = append(excl, Neq(r, m.ref))
				}
				if whole {
					continue
				}
				goals = append(goals, Implies(And(excl...), Eq(a, b)))
				// field-wise for places with paths
				done := map[*Term]bool{}
				for _, m := range mods {
					if m.key != k || m.path == nil || done[m.ref] {
						continue
					}
					done[m.ref] = true
					want := Select(h0, m.ref)
					got := Select(h, m.ref)
					full := false
					for _, m2 := range mods {
						if m2.key == k && m2.ref == m.ref {
							if m2.path == nil {
								full = true
							} else {
								want = updPath(want, m.root, m2.path, pathSel(got, m.root, m2.path))
							}
						}
					}
					if !full {
						goals = append(goals, Implies(Neq(m.ref, Int(0)), Eq(got, want)))
					}
				}
				x.obs = append(x.obs, &Oblig{Name: name + ": frame: " + k + " of existing objects unchanged" + sfx, Kind: "frame", Reach: reach, Goal: And(goals...), NAss: len(x.ass)})
			}
		}
	}
	if sp.Opts["paths"] {
		for i, r := range x.topRets {
			check(r.vals, r.st, r.reach, fmt.Sprintf(" @return %d", i))
		}
	} else {
		check(vals, fin, reach, "")
	}
	return x, nil
}

func pathSel(v *Term, t types.Type, path []int) *Term {
	for _, p := range path {
		v = fieldSel(v, t, p)
		t = fieldType(t, p)
	}
	return v
}

// splitGoal splits a conjunction, also one under implications.
func splitGoal(g *Term) []*Term {
	switch {
	case g.Op == OAnd && len(g.Args) <= 12:
		var out []*Term
		for _, a := range g.Args {
			out = append(out, splitGoal(a)...)
		}
		return out
	case g.Op == OOr:
		at := -1
		for i, a := range g.Args {
			if a.Op == OAnd && len(a.Args) <= 12 {
				if at >= 0 {
					return []*Term{g}
				}
				at = i
			}
		}
		if at < 0 {
			return []*Term{g}
		}
		var out []*Term
		for _, c := range g.Args[at].Args {
			rest := append(append([]*Term{}, g.Args[:at]...), g.Args[at+1:]...)
			out = append(out, splitGoal(Or(append(rest, c)...))...)
		}
		return out
	}
	return []*Term{g}
}

// verify first starts invariant inference from the candidates recorded as not
// inductive in an earlier run (only a matter of speed: every remaining one is
// still checked), then from scratch.
func (v *Verifier) verify(name string, pass map[string]bool) *FuncReport {
	key := name
	for _, d := range sortedKeys(v.dropped) {
		key += " -" + d
	}
	if h := v.hints[key]; len(h) > 0 {
		start := map[string]map[string]bool{}
		for lk, cs := range h {
			start[lk] = map[string]bool{}
			for _, c := range cs {
				start[lk][c] = true
			}
		}
		if r := v.verify1(name, start, false); r.Status == "proved" {
			m := map[string][]string{}
			for lk, cs := range start {
				m[lk] = sortedKeys(cs)
			}
			v.hints[key] = m
			return r
		}
	}
	start := map[string]map[string]bool{}
	r := v.verify1(name, start, true)
	if r.Status != "proved" && r.InvDropped > 0 {
		start = map[string]map[string]bool{}
		r = v.verify1(name, start, false)
	}
	if r.Status == "proved" && len(start) > 0 {
		m := map[string][]string{}
		for lk, cs := range start {
			m[lk] = sortedKeys(cs)
		}
		v.hints[key] = m
	}
	return r
}

func (v *Verifier) verify1(name string, cands map[string]map[string]bool, quick bool) *FuncReport {
	t0 := time.Now()
	sp := v.specs.Funcs[name]
	rep := &FuncReport{Name: name, Props: sp.Props}
	defer func() { rep.Ms = time.Since(t0).Milliseconds() }()
	fn := v.findFn(name)
	if fn == nil {
		rep.Status = "missing"
		rep.Err = "function not found in /repo"
		return rep
	}
	var x *Exec
	var err error
	for round := 1; ; round++ {
		rep.Rounds = round
		x, err = v.execute(fn, sp, cands)
		if err != nil {
			rep.Status, rep.Err = "unsupported", err.Error()
			if strings.HasPrefix(rep.Err, "contract") {
				rep.Status = "contract-error"
			}
			return rep
		}
		var inv []*Oblig
		for _, o := range x.obs {
			if o.Cand != "" {
				inv = append(inv, o)
			}
		}
		if len(inv) == 0 {
			break
		}
		x.discharge(inv, v.quickMs, 0)
		anySat := false
		var open []*Oblig
		for _, o := range inv {
			if o.Result == "sat" {
				anySat = true
			} else if o.Result != "unsat" {
				open = append(open, o)
			}
		}
		if quick {
			anySat = false
		} else if !anySat && len(open) > 0 {
			x.discharge(open, v.quickMs, v.invMs(round))
		}
		n := 0
		for _, o := range inv {
			if o.Result == "sat" || o.Result != "unsat" && !anySat {
				lk, ck, _ := strings.Cut(o.Cand, "\x00")
				if cands[lk] == nil {
					cands[lk] = map[string]bool{}
				}
				if !cands[lk][ck] {
					cands[lk][ck] = true
					n++
					v.debugf("  drop %s (%s): %s", o.Name, o.Result, o.By)
				}
			}
		}
		if n == 0 {
			rep.InvActive = len(inv)
			for _, o := range inv {
				v.debugf("  kept %s", o.Name)
			}
			break
		}
		rep.InvDropped += n
		if round > 30 {
			rep.Status, rep.Err = "failed", "invariant inference did not converge"
			return rep
		}
	}
	var rest []*Oblig
	for _, o := range x.obs {
		if o.Cand == "" {
			rest = append(rest, o)
		}
	}
	x.discharge(rest, v.quickMs, v.fullMs)
	rep.Obs = x.obs
	rep.Trusted = sortedKeys(x.trusted)
	rep.Inlined = sortedKeys(x.inlined)
	rep.Contracts = sortedKeys(x.usedContracts)
	rep.Status = "proved"
	for _, o := range rest {
		if o.Kind == "cover" {
			rep.Cover = o.Result
			if o.Result == "unsat" {
				rep.Status = "failed"
				rep.Err = "vacuous: the end of the function is unreachable under the contract's assumptions"
			}
			continue
		}
		if o.Result != "unsat" {
			rep.Status = "failed"
		}
	}
	return rep
}

func (v *Verifier) invMs(round int) int {
	return v.fullMs / 2
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	specs := flag.String("specs", "/verif/specs", "contract files")
	lemmas := flag.String("lemmas", "/verif/lemmas", "client lemma functions (overlay)")
	props := flag.String("props", "", "comma separated property ids")
	only := flag.String("func", "", "verify only functions containing this text")
	out := flag.String("out", "", "write a JSON report")
	verbose := flag.Bool("v", false, "verbose")
	debug := flag.Bool("d", false, "debug")
	keep := flag.Bool("keep", false, "keep smt2 files")
	scr := flag.String("scratch", "", "scratch directory")
	quickMs := flag.Int("quick-ms", 1500, "first attempt timeout")
	fullMs := flag.Int("full-ms", 12000, "portfolio timeout")
	hintsF := flag.String("hints", "/verif/specs/hints.json", "recorded inference results")
	writeHints := flag.Bool("write-hints", false, "update the recorded inference results")
	limit := flag.Duration("limit", 0, "wall time after which nothing more is attempted")
	dump := flag.String("dump", "", "dump SSA of a function")
	prof := flag.String("cpuprofile", "", "write a CPU profile")
	flag.Parse()
	if *prof != "" {
		pf, _ := os.Create(*prof)
		_ = pprof.StartCPUProfile(pf)
		go func() { time.Sleep(90 * time.Second); pprof.StopCPUProfile(); os.Exit(3) }()
	}
	t0 := time.Now()
	if *limit > 0 {
		deadline = t0.Add(*limit)
	}
	sigs := make(chan os.Signal, 1)
	signal.Notify(sigs, syscall.SIGTERM)
	go func() {
		<-sigs
		stopped.Store(true)
	}()
	v, err := load(*repo, *lemmas)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	v.specs = LoadSpecs(*specs)
	v.verbose, v.debug, v.keep = *verbose, *debug, *keep
	v.quickMs, v.fullMs = *quickMs, *fullMs
	if *dump != "" {
		if fn := v.findFn(*dump); fn != nil {
			fn.WriteTo(os.Stdout)
		}
		return
	}
	v.hints = map[string]map[string][]string{}
	if b, err := os.ReadFile(*hintsF); err == nil {
		_ = json.Unmarshal(b, &v.hints)
	}
	scratch = *scr
	if scratch == "" {
		scratch, _ = os.MkdirTemp("", "gover")
		if !*keep {
			defer os.RemoveAll(scratch)
		}
	}
	v.debugf("loaded in %v, scratch %s", time.Since(t0), scratch)
	want := map[string]bool{}
	for _, p := range strings.Split(*props, ",") {
		if p != "" {
			want[p] = true
		}
	}
	var reps []*FuncReport
	// contracts used by the selected functions are verified too
	todo := []string{}
	queued := map[string]bool{}
	add := func(n string) {
		if !queued[n] {
			queued[n] = true
			todo = append(todo, n)
		}
	}
	for _, n := range v.specs.Order {
		sp := v.specs.Funcs[n]
		if sp.Trusted {
			continue
		}
		if *only != "" && !strings.Contains(n, *only) {
			continue
		}
		sel := len(want) == 0
		for _, p := range sp.Props {
			if want[p] {
				sel = true
			}
		}
		if sel {
			add(n)
		}
	}
	byName := map[string]*FuncReport{}
	uses := map[string][]string{} // helper -> callers verified against it
	check := func(n string) {
		r := v.verify(n, want)
		sp := v.specs.Funcs[n]
		if r.Status != "proved" && !sp.Helper {
			// second chance: the split between this function and its internal
			// helpers may have moved; verify it with them inlined
			var dropped []string
			for _, c := range r.Contracts {
				if h := v.specs.Funcs[c]; h != nil && h.Helper && !v.dropped[c] {
					dropped = append(dropped, c)
					v.dropped[c] = true
				}
			}
			if len(dropped) > 0 {
				if r2 := v.verify(n, want); r2.Status == "proved" {
					r = r2
				}
				for _, c := range dropped {
					delete(v.dropped, c)
				}
			}
		}
		byName[n] = r
		for _, c := range r.Contracts {
			sp := v.specs.Funcs[c]
			if sp == nil || sp.Trusted {
				continue
			}
			if sp.Helper {
				uses[c] = append(uses[c], n)
			}
			own := len(want) == 0 || len(sp.Props) == 0
			for _, p := range sp.Props {
				own = own || want[p]
			}
			if *only == "" && own {
				add(c)
			}
			if !own {
				r.Trusted = append(r.Trusted, "contract of "+c+" (its own obligations belong to the check of "+strings.Join(sp.Props, ", ")+")")
			}
		}
	}
	for i := 0; i < len(todo); i++ {
		n := todo[i]
		check(n)
		if sp := v.specs.Funcs[n]; sp.Helper && byName[n].Status != "proved" {
			v.dropped[n] = true
			byName[n].Status = "dropped"
			for _, c := range uses[n] {
				check(c)
			}
		}
	}
	for _, n := range todo {
		r := byName[n]
		reps = append(reps, r)
		if *verbose {
			printReport(r)
		}
	}
	if *writeHints {
		b, _ := json.MarshalIndent(v.hints, "", " ")
		_ = os.WriteFile(*hintsF, b, 0o644)
	}
	if *out != "" {
		type orep struct {
			Funcs       []*FuncReport
			SolverMs    int64
			SolverN     int64
			WallMs      int64
			Assumptions []string
		}
		for _, r := range reps {
			for _, o := range r.Obs {
				o.ReachS, o.GoalS = o.Reach.short(), o.Goal.short()
			}
		}
		b, _ := json.MarshalIndent(orep{reps, solverMs, solverN, time.Since(t0).Milliseconds(), v.specs.Assumptions}, "", " ")
		if err := os.WriteFile(*out, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	}
	bad := 0
	for _, r := range reps {
		if r.Status != "proved" && r.Status != "dropped" {
			bad++
		}
	}
	fmt.Printf("%d functions, %d not proved, solver %d ms in %d calls, wall %d ms\n", len(reps), bad, solverMs, solverN, time.Since(t0).Milliseconds())
}

func printReport(r *FuncReport) {
	n, ok := 0, 0
	for _, o := range r.Obs {
		if o.Kind == "cover" {
			continue
		}
		n++
		if o.Result == "unsat" {
			ok++
		}
	}
	fmt.Printf("%-9s %s  %d/%d obligations, %d invariants (%d dropped), %d rounds, %d ms, cover=%s %s\n", r.Status, r.Name, ok, n, r.InvActive, r.InvDropped, r.Rounds, r.Ms, r.Cover, r.Err)
	for _, o := range r.Obs {
		if o.Kind != "cover" && o.Result != "unsat" {
			fmt.Printf("    %-8s %-7s %s %s\n", o.Result, o.Kind, o.Name, o.Pos)
			if m := strings.TrimSpace(o.Model); m != "" && o.Result == "sat" {
				ls := strings.Split(m, "\n")
				sort.Strings(ls)
				if len(ls) > 12 {
					ls = ls[:12]
				}
				for _, l := range ls {
					fmt.Println("        ", runRe.ReplaceAllString(l, ""))
				}
			}
		}
	}
}
