package main

// Discharging obligations with SMT solvers.

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Solver struct {
	Name string
	Cmd  func(file string, ms int) []string
}

var solvers = []Solver{
	{"z3-5.3.2", func(f string, ms int) []string {
		return []string{"z3-new", fmt.Sprintf("-T:%d", (ms+999)/1000), "smt.random_seed=1", f}
	}},
	{"cvc5-1.1.2", func(f string, ms int) []string {
		return []string{"cvc5", "--strings-exp", "--arrays-exp", "--produce-models", fmt.Sprintf("--tlimit=%d", ms), f}
	}},
	{"z3-4.8.12", func(f string, ms int) []string {
		return []string{"z3", fmt.Sprintf("-T:%d", (ms+999)/1000), f}
	}},
}

type solveRes struct {
	res   string // unsat, sat, unknown
	by    string
	ms    int64
	model string
}

var (
	cacheMu  sync.Mutex
	vcCache  = map[[32]byte]solveRes{}
	solverMs int64
	solverN  int64
	fileN    int64
	scratch  string
	deadline time.Time
	stopped  atomic.Bool
)

var runRe = regexp.MustCompile(`r\d+:`)

func factClosure(fs []*Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	var queue []*Term
	queue = append(queue, fs...)
	out = append(out, fs...)
	inOut := map[*Term]bool{}
	for _, f := range fs {
		inOut[f] = true
	}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, f := range facts[t] {
			if !inOut[f] {
				inOut[f] = true
				out = append(out, f)
				queue = append(queue, f)
			}
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	for len(queue) > 0 {
		t := queue[0]
		queue = queue[1:]
		walk(t)
	}
	return out
}

func (x *Exec) vc(o *Oblig) []*Term {
	var fs []*Term
	fs = append(fs, o.Reach)
	for _, a := range x.ass[:o.NAss] {
		fs = append(fs, a.f)
	}
	fs = append(fs, Not(o.Goal))
	// drop assumptions whose reach contradicts ours syntactically
	rc := map[*Term]bool{}
	for _, c := range conjuncts(o.Reach) {
		rc[Not(c)] = true
	}
	var out []*Term
	for _, f := range fs {
		if f == True {
			continue
		}
		if f.Op == OOr {
			skip := false
			for _, d := range f.Args {
				// assumption ¬c ∨ ... with c in reach is kept; c' ∨.. with c' true is dropped
				if containsTerm(conjuncts(o.Reach), d) {
					skip = true
					break
				}
			}
			if skip {
				continue
			}
		}
		out = append(out, f)
	}
	return unitSimp(factClosure(out))
}

// factor pulls the common conjuncts out of a disjunction of conjunctions.
func factor(t *Term) []*Term {
	if t.Op != OOr {
		return []*Term{t}
	}
	common := map[*Term]int{}
	for _, d := range t.Args {
		if d.Op != OAnd {
			return []*Term{t}
		}
		for _, c := range d.Args {
			common[c]++
		}
	}
	var out []*Term
	for _, c := range t.Args[0].Args {
		if common[c] == len(t.Args) {
			out = append(out, c)
		}
	}
	if len(out) == 0 {
		return []*Term{t}
	}
	var ds []*Term
	for _, d := range t.Args {
		var r []*Term
		for _, c := range d.Args {
			if common[c] < len(t.Args) {
				r = append(r, c)
			}
		}
		ds = append(ds, And(r...))
	}
	return append(out, Or(ds...))
}

// unitSimp splits conjunctions and replaces atoms that are asserted outright
// by their truth values in all other formulas.
func unitSimp(fs []*Term) []*Term {
	units := map[*Term]*Term{}
	for round := 0; round < 4; round++ {
		var flat []*Term
		for _, f := range fs {
			for _, c := range conjuncts(f) {
				flat = append(flat, factor(c)...)
			}
		}
		fs = flat
		n := len(units)
		for _, f := range fs {
			switch f.Op {
			case OTrue, OFalse, OAnd, OOr, OForall, OExists, OIte:
			case ONot:
				switch f.Args[0].Op {
				case OAnd, OOr, OForall, OExists, OIte:
				default:
					units[f.Args[0]] = False
				}
			default:
				if _, ok := units[f]; !ok {
					units[f] = True
				}
				if f.Op == OEq && f.Args[0].Sort == StringS {
					// a text read from memory is replaced by what it equals
					a, b := f.Args[0], f.Args[1]
					if !memText(a) {
						a, b = b, a
					}
					if memText(a) && !memText(b) && units[a] == nil && !mentions(b, a, map[*Term]bool{}) {
						b = Subst(b, units)
						if !mentions(b, a, map[*Term]bool{}) {
							units[a] = b
						}
					}
				}
			}
		}
		if len(units) == n {
			break
		}
		memo := map[*Term]*Term{}
		seen := map[*Term]bool{}
		var out []*Term
		for _, f := range fs {
			g := f
			a := f
			if f.Op == ONot {
				a = f.Args[0]
			}
			if _, ok := units[a]; !ok {
				g = substMemo(f, units, memo)
			}
			if g != True && !seen[g] {
				seen[g] = true
				out = append(out, g)
			}
		}
		fs = out
	}
	return fs
}

func memText(t *Term) bool {
	return t.Op == OVar || t.Op == OSelect || t.Op == OApp && t.S == "str.substr" && t.Args[0].Op == OSelect
}

func mentions(t, a *Term, seen map[*Term]bool) bool {
	if t == a {
		return true
	}
	if seen[t] {
		return false
	}
	seen[t] = true
	for _, b := range t.Args {
		if mentions(b, a, seen) {
			return true
		}
	}
	return false
}

func containsTerm(l []*Term, t *Term) bool {
	for _, x := range l {
		if x == t {
			return true
		}
	}
	return false
}

func runSolver(ctx context.Context, s Solver, file string, ms int) solveRes {
	args := s.Cmd(file, ms)
	t0 := time.Now()
	c, cancel := context.WithTimeout(ctx, time.Duration(ms+1500)*time.Millisecond)
	defer cancel()
	cmd := exec.CommandContext(c, args[0], args[1:]...)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	_ = cmd.Run()
	d := time.Since(t0).Milliseconds()
	atomic.AddInt64(&solverMs, d)
	atomic.AddInt64(&solverN, 1)
	first, rest, _ := strings.Cut(out.String(), "\n")
	r := "unknown"
	switch strings.TrimSpace(first) {
	case "unsat":
		r = "unsat"
	case "sat":
		r = "sat"
	case "unknown", "timeout":
	default:
		if strings.Contains(first, "rror") {
			rest = first + "\n" + rest
			r = "error"
		}
	}
	return solveRes{r, s.Name, d, rest}
}

// solve decides one script: quick attempt, then a portfolio.
func (v *Verifier) solve(text string, quickMs, fullMs int) solveRes {
	if late() {
		return solveRes{res: "unknown", by: "time limit"}
	}
	key := sha256.Sum256([]byte(runRe.ReplaceAllString(text, "")))
	cacheMu.Lock()
	if r, ok := vcCache[key]; ok && (r.res == "unsat" || r.res == "sat") {
		cacheMu.Unlock()
		return r
	}
	cacheMu.Unlock()
	f := filepath.Join(scratch, fmt.Sprintf("%x-%d.smt2", key[:8], atomic.AddInt64(&fileN, 1)))
	if err := os.WriteFile(f, []byte(text), 0o644); err != nil {
		return solveRes{res: "error", model: err.Error()}
	}
	if !v.keep {
		defer os.Remove(f)
	}
	ctx := context.Background()
	r := runSolver(ctx, solvers[0], f, quickMs)
	if r.res == "error" {
		fmt.Fprintln(os.Stderr, "SOLVER ERROR", r.model, f)
		v.keep = true
	}
	if r.res != "unsat" && r.res != "sat" && fullMs > 0 {
		c, cancel := context.WithCancel(ctx)
		ch := make(chan solveRes, len(solvers))
		for _, s := range solvers {
			go func(s Solver) { ch <- runSolver(c, s, f, fullMs) }(s)
		}
		for range solvers {
			q := <-ch
			if q.res == "unsat" || q.res == "sat" {
				if r.res != "unsat" && r.res != "sat" {
					r = q
					cancel()
				}
			}
		}
		cancel()
	}
	cacheMu.Lock()
	vcCache[key] = r
	cacheMu.Unlock()
	return r
}

// splitKeys splits a query on whether the key of a map iteration step is the
// ghost key: where the two are equal one is replaced by the other, so that
// quantifiers over "the entry of this key" are instantiated alike.
func (x *Exec) splitKeys(fs []*Term) [][]*Term {
	var pairs [][2]*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || t.bound {
			if t.Op != OForall && t.Op != OExists {
				return
			}
		}
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == OEq {
			a, b := t.Args[0], t.Args[1]
			if strings.Contains(b.S, "next.k!") {
				a, b = b, a
			}
			if a.Op == OVar && b.Op == OVar && strings.Contains(a.S, "next.k!") && strings.Contains(b.S, "gh.") {
				pairs = append(pairs, [2]*Term{a, b})
			}
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	for _, f := range fs {
		walk(f)
	}
	if len(pairs) == 0 || len(pairs) > 2 {
		return [][]*Term{fs}
	}
	out := [][]*Term{fs}
	for _, p := range pairs {
		var nx [][]*Term
		for _, c := range out {
			m, memo := map[*Term]*Term{p[0]: p[1]}, map[*Term]*Term{}
			var eq []*Term
			for _, f := range c {
				eq = append(eq, substMemo(f, m, memo))
			}
			ne := append(append([]*Term{}, c...), Not(Eq(p[0], p[1])))
			nx = append(nx, unitSimp(factClosure(eq)), unitSimp(factClosure(ne)))
		}
		out = nx
	}
	return liveCases(out)
}

type part struct {
	text string
	qf   string // the quantifier-free consequences, when there are quantifiers
	abs  string // the same with strings abstracted (only "unsat" counts)
}

type job struct {
	o     *Oblig
	parts []part
}

func (x *Exec) mkPart(o *Oblig, fs, gv []*Term) part {
	v := x.V
	all, qf, quant := instantiate(fs)
	if v.keep {
		fileN++
		for k, t := range map[string]string{"abs": RenderAbs(qf), "all": Render(all, gv), "qf": Render(qf, gv)} {
			_ = os.WriteFile(filepath.Join(scratch, fmt.Sprint(mangle(o.Name), ".", fileN, ".", k)), []byte(t), 0o644)
		}
	}
	p := part{Render(all, gv), "", RenderAbs(qf)}
	if quant {
		p.qf = Render(qf, nil)
	}
	return p
}

// splitIte splits a query on the conditions under which its goal selects
// between values: at most four cases.
func splitIte(fs []*Term, goal *Term) [][]*Term {
	if len(fs) == 0 {
		return nil
	}
	cnt := map[*Term]int{}
	seen := map[*Term]bool{}
	var order []*Term
	var atoms func(t *Term)
	atoms = func(t *Term) {
		switch t.Op {
		case OAnd, OOr, ONot:
			for _, a := range t.Args {
				atoms(a)
			}
		case OForall, OExists, OTrue, OFalse, OIte:
		default:
			if !t.bound {
				if cnt[t] == 0 {
					order = append(order, t)
				}
				cnt[t]++
			}
		}
	}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == OIte && !t.Args[0].bound {
			atoms(t.Args[0])
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(goal)
	inGoal := map[*Term]bool{}
	for _, t := range order {
		inGoal[t] = true
	}
	for _, f := range fs {
		walk(f)
	}
	// atoms already decided by a fact are useless
	decided := map[*Term]bool{}
	for _, f := range fs {
		if f.Op == ONot {
			decided[f.Args[0]] = true
		}
		decided[f] = true
	}
	{
		var keep []*Term
		for _, t := range order {
			if !decided[t] {
				keep = append(keep, t)
			}
		}
		order = keep
	}
	sort.SliceStable(order, func(i, j int) bool {
		if gi, gj := inGoal[order[i]], inGoal[order[j]]; gi != gj {
			return gi
		}
		ei, ej := order[i].Op == OEq, order[j].Op == OEq
		if ei != ej {
			return ei
		}
		return cnt[order[i]] > cnt[order[j]]
	})
	if len(order) > 2 {
		order = order[:2]
	}
	out := [][]*Term{fs}
	for _, c := range order {
		var nx [][]*Term
		for _, q := range out {
			pos := append(append([]*Term{}, q...), c)
			neg := append(append([]*Term{}, q...), Not(c))
			nx = append(nx, unitSimp(factClosure(pos)), unitSimp(factClosure(neg)))
		}
		out = nx
	}
	if len(order) == 0 {
		return nil
	}
	return liveCases(out)
}

func liveCases(out [][]*Term) [][]*Term {
	var live [][]*Term
	for _, c := range out {
		dead := false
		for _, f := range c {
			dead = dead || f == False
		}
		if !dead {
			live = append(live, c)
		}
	}
	return live
}

// discharge solves all given obligations in parallel: first a quick attempt at
// each, then (with a full time limit) case splits, then the solver portfolio.
func (x *Exec) discharge(obs []*Oblig, quickMs, fullMs int) {
	v := x.V
	var jobs []job
	for _, o := range obs {
		if late() {
			if o.Result == "" {
				o.Result, o.By = "unknown", "time limit"
			}
			continue
		}
		if o.Goal == True || o.Reach == False {
			o.Result, o.By = "unsat", "simplifier"
			continue
		}
		var gv []*Term
		if o.Kind != "inv" {
			gv = x.modelTerms()
		}
		fs0 := x.vc(o)
		if o.Kind == "cover" {
			jobs = append(jobs, job{o, []part{{Render(fs0, gv), "", ""}}})
			continue
		}
		j := job{o: o}
		for _, fs := range x.splitKeys(fs0) {
			j.parts = append(j.parts, x.mkPart(o, fs, gv))
		}
		jobs = append(jobs, j)
	}
	v.runJobs(jobs, quickMs, 0)
	if fullMs == 0 {
		return
	}
	var split, open []job
	for _, j := range jobs {
		if j.o.Result == "unsat" || j.o.Result == "sat" {
			continue
		}
		open = append(open, j)
		if j.o.Kind == "cover" || late() {
			continue
		}
		k := job{o: j.o}
		for _, fs := range x.splitKeys(x.vc(j.o)) {
			cs := splitIte(fs, j.o.Goal)
			if cs == nil {
				k.parts = nil
				break
			}
			for _, c := range cs {
				k.parts = append(k.parts, x.mkPart(j.o, c, nil))
			}
		}
		if len(k.parts) > 0 {
			split = append(split, k)
		}
	}
	v.runJobs(split, quickMs, 0)
	var rest []job
	for _, j := range open {
		if j.o.Result != "unsat" {
			rest = append(rest, j)
		}
	}
	v.runJobs(rest, quickMs, fullMs)
}

func (v *Verifier) runJobs(jobs []job, quickMs, fullMs int) {
	sem := make(chan bool, v.par)
	var wg sync.WaitGroup
	for _, j := range jobs {
		wg.Add(1)
		sem <- true
		go func(j job) {
			defer wg.Done()
			defer func() { <-sem }()
			fullMs := fullMs
			if j.o.Kind == "cover" && fullMs > 3000 {
				fullMs = 3000
			}
			one := func(p part) solveRes {
				var r solveRes
				if p.abs != "" {
					r = v.solve(p.abs, quickMs, 0)
					if r.res == "unsat" {
						return r
					}
					r = solveRes{}
				}
				if p.qf != "" {
					r = v.solve(p.qf, quickMs, 0)
				}
				if r.res != "unsat" {
					qf := r
					r = v.solve(p.text, quickMs, fullMs)
					if fullMs > 0 && r.res != "unsat" && r.res != "sat" && p.qf != "" && qf.res != "sat" {
						if q := v.solve(p.qf+" ", quickMs, fullMs); q.res == "unsat" {
							r = q
						}
					}
				}
				return r
			}
			r := solveRes{res: "unsat", by: "simplifier"}
			var ms int64
			for _, p := range j.parts {
				r = one(p)
				ms += r.ms
				if r.res != "unsat" {
					break
				}
			}
			j.o.Result, j.o.By, j.o.Ms, j.o.Model = r.res, r.by, ms, r.model
		}(j)
	}
	wg.Wait()
}

// modelTerms are the terms whose values are reported for a failed obligation.
func (x *Exec) modelTerms() []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	add := func(t *Term) {
		if t != nil && !seen[t] && (t.Sort == IntS || t.Sort == StringS || t.Sort == BoolS || t.Sort == RealS) && !isLit(t) {
			seen[t] = true
			out = append(out, t)
		}
	}
	for _, n := range sortedKeys(x.params) {
		p := x.params[n]
		if p.T == nil {
			continue
		}
		if pt, ok := p.Typ.Underlying().(*types.Pointer); ok {
			if st, ok := pt.Elem().Underlying().(*types.Struct); ok && len(out) < 30 {
				c := x.load(x.entry, &Place{Heap: objHeap(pt.Elem()), Ref: p.T, Root: pt.Elem(), T: pt.Elem()})
				for i := 0; i < st.NumFields(); i++ {
					add(fieldSel(c, pt.Elem(), i))
				}
			}
			continue
		}
		if isByteSlice(p.Typ) {
			add(x.bytesOf(x.entry, p.T))
			continue
		}
		add(p.T)
	}
	for _, n := range sortedKeys(x.ghosts) {
		add(x.ghosts[n].T)
	}
	return out
}

// late reports whether the wall time limit has passed.
func late() bool {
	return stopped.Load() || !deadline.IsZero() && time.Now().After(deadline)
}
