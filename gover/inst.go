package main

import (
	"fmt"
	"math/big"
	"sort"
)

// Quantifier instantiation by index matching. SMT triggers do not match
// through the arithmetic of slice offsets, so universally quantified
// assumptions are instantiated here with the indices at which the same arrays
// (or functions) are read in the ground part of the query. Instances are
// consequences of the assumptions: adding them is always sound.

// skolem replaces top-level existentials (in positive position) by constants.
func skolem(t *Term, pol bool, n *int) *Term {
	switch t.Op {
	case ONot:
		return Not(skolem(t.Args[0], !pol, n))
	case OAnd, OOr:
		args := make([]*Term, len(t.Args))
		same := true
		for i, a := range t.Args {
			args[i] = skolem(a, pol, n)
			same = same && args[i] == a
		}
		if same {
			return t
		}
		if t.Op == OAnd {
			return And(args...)
		}
		return Or(args...)
	case OForall, OExists:
		if t.bound || (t.Op == OForall) == pol {
			return t
		}
		m := map[*Term]*Term{}
		for _, v := range t.Args[:len(t.Args)-1] {
			*n++
			m[v] = Var0(fmt.Sprintf("sk!%s!%d!%s", v.Sort.Name, *n, v.S), v.Sort)
		}
		return skolem(Subst(t.Args[len(t.Args)-1], m), pol, n)
	}
	return t
}

func arrRoots(a *Term, out map[*Term]bool) {
	switch a.Op {
	case OStore:
		arrRoots(a.Args[0], out)
	case OIte:
		arrRoots(a.Args[1], out)
		arrRoots(a.Args[2], out)
	default:
		out[a] = true
	}
}

type groundIdx struct {
	sel map[*Term]map[*Term]bool // array root -> indices
	app map[string]map[*Term]bool
}

func appKey(s string, i int) string { return fmt.Sprintf("%s#%d", s, i) }

func (g *groundIdx) collect(t *Term, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.Op == OForall || t.Op == OExists {
		g.collect(t.Args[len(t.Args)-1], seen)
		return
	}
	if (t.Op == OSelect || t.Op == OStore) && !t.bound {
		r := map[*Term]bool{}
		arrRoots(t.Args[0], r)
		for a := range r {
			if g.sel[a] == nil {
				g.sel[a] = map[*Term]bool{}
			}
			g.sel[a][t.Args[1]] = true
		}
	}
	if t.Op == OApp {
		for i, a := range t.Args {
			if !a.bound && !isBuiltinApp(t.S) {
				k := appKey(t.S, i)
				if g.app[k] == nil {
					g.app[k] = map[*Term]bool{}
				}
				g.app[k][a] = true
			}
		}
	}
	for _, a := range t.Args {
		g.collect(a, seen)
	}
}

func isBuiltinApp(s string) bool { _, ok := funTab[s]; return !ok }

// candidates finds ground terms for variable v of a quantifier body.
func (g *groundIdx) candidates(v, body *Term) []*Term {
	out := map[*Term]bool{}
	seen := map[*Term]bool{}
	add := func(idx *Term, grounds map[*Term]bool) {
		if len(grounds) == 0 {
			return
		}
		if idx == v {
			for t := range grounds {
				if t.Sort == v.Sort {
					out[t] = true
				}
			}
			return
		}
		if idx.Op != OLin {
			return
		}
		// idx = v + rest with rest ground
		var rest []*Term
		var rk []*big.Int
		found := false
		for i, a := range idx.Args {
			if a == v {
				if idx.Coefs[i].Cmp(big.NewInt(1)) != 0 {
					return
				}
				found = true
				continue
			}
			if a.bound {
				return
			}
			rest = append(rest, a)
			rk = append(rk, idx.Coefs[i])
		}
		if !found {
			return
		}
		r := Add(linComb(rest, rk), BigInt(idx.N))
		for t := range grounds {
			out[Sub(t, r)] = true
		}
	}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || !t.bound {
			return
		}
		seen[t] = true
		if t.Op == OSelect && !t.Args[0].bound {
			r := map[*Term]bool{}
			arrRoots(t.Args[0], r)
			for a := range r {
				add(t.Args[1], g.sel[a])
			}
		}
		if t.Op == OEq && v.Sort == t.Args[0].Sort {
			// reads of a just-written element: i = n decides
			for i := range t.Args {
				if o := t.Args[1-i]; !o.bound {
					add(t.Args[i], map[*Term]bool{o: true})
				}
			}
		}
		if t.Op == OApp && !isBuiltinApp(t.S) {
			for i, a := range t.Args {
				if a == v || a.Op == OLin {
					add(a, g.app[appKey(t.S, i)])
				}
			}
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(body)
	var l []*Term
	for t := range out {
		l = append(l, t)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	if len(l) > 40 {
		l = l[:40]
	}
	return l
}

// insts returns consequences of t obtained by instantiating its universals.
func (g *groundIdx) insts(t *Term, pol bool, depth int) []*Term {
	if depth > 6 {
		return nil
	}
	conj := (t.Op == OAnd) == pol && (t.Op == OAnd || t.Op == OOr)
	switch {
	case t.Op == ONot:
		return g.insts(t.Args[0], !pol, depth)
	case conj:
		var out []*Term
		for _, a := range t.Args {
			out = append(out, g.insts(a, pol, depth)...)
		}
		return out
	case t.Op == OAnd || t.Op == OOr:
		var out []*Term
		for i, a := range t.Args {
			if !hasQuant(a) {
				continue
			}
			for _, in := range g.insts(a, pol, depth) {
				var d []*Term
				for j, b := range t.Args {
					if j != i {
						if pol {
							d = append(d, b)
						} else {
							d = append(d, Not(b))
						}
					}
				}
				out = append(out, Or(append(d, in)...))
			}
		}
		return out
	case (t.Op == OForall || t.Op == OExists) && (t.Op == OForall) == pol:
		if t.bound {
			return nil
		}
		vars, body := t.Args[:len(t.Args)-1], t.Args[len(t.Args)-1]
		tuples := []map[*Term]*Term{{}}
		for _, v := range vars {
			cs := g.candidates(v, body)
			if len(cs) == 0 {
				return nil
			}
			var nt []map[*Term]*Term
			for _, m := range tuples {
				for _, c := range cs {
					n := map[*Term]*Term{v: c}
					for k, w := range m {
						n[k] = w
					}
					nt = append(nt, n)
				}
			}
			if len(nt) > 300 {
				nt = nt[:300]
			}
			tuples = nt
		}
		var out []*Term
		for _, m := range tuples {
			b := Subst(body, m)
			if !pol {
				b = Not(b)
			}
			if b == True {
				continue
			}
			out = append(out, b)
			if hasQuant(b) {
				out = append(out, g.insts(b, true, depth+1)...)
			}
		}
		return out
	}
	return nil
}

var hasQ = map[*Term]bool{}

func hasQuant(t *Term) bool {
	if r, ok := hasQ[t]; ok {
		return r
	}
	r := t.Op == OForall || t.Op == OExists
	for _, a := range t.Args {
		if r {
			break
		}
		r = hasQuant(a)
	}
	hasQ[t] = r
	return r
}

// instantiate returns the skolemised assumptions and their instances, and the
// quantifier-free part of both.
func instantiate(fs []*Term) (all, qf []*Term, any bool) {
	n := 0
	var sk []*Term
	have := map[*Term]bool{}
	for _, f := range fs {
		if !hasQuant(f) {
			sk = append(sk, f)
			have[f] = true
			continue
		}
		any = true
		s := skolem(f, true, &n)
		sk = append(sk, s)
		have[s] = true
	}
	if !any {
		return fs, fs, false
	}
	wfSeen := map[*Term]bool{}
	groundWF(sk, wfSeen)
	total := 0
	for round := 0; round < 3 && total < 1500; round++ {
		g := &groundIdx{sel: map[*Term]map[*Term]bool{}, app: map[string]map[*Term]bool{}}
		seen := map[*Term]bool{}
		for _, f := range factClosure(sk) {
			g.collect(f, seen)
		}
		var add []*Term
		for _, f := range sk {
			if !hasQuant(f) {
				continue
			}
			for _, in := range g.insts(f, true, 0) {
				in = skolem(in, true, &n)
				if in != True && !have[in] && total < 1500 {
					have[in] = true
					total++
					add = append(add, in)
				}
			}
		}
		if len(add) == 0 {
			break
		}
		groundWF(add, wfSeen)
		sk = append(sk, add...)
	}
	sk = factClosure(sk)
	for _, f := range sk {
		if !hasQuant(f) {
			qf = append(qf, f)
		}
	}
	return sk, qf, true
}

// groundWF records the type invariants of ground terms that arose by
// instantiation.
func groundWF(fs []*Term, seen map[*Term]bool) {
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.Args {
			walk(a)
		}
		if t.bound {
			return
		}
		switch t.Op {
		case OSel:
			if si := structInfos[t.Args[0].Sort]; si != nil {
				wf(t, si.st.Field(t.Idx).Type())
				return
			}
			if t.Sort == SliceS {
				wfSlice(t)
			}
		case OSelect:
			if t.Sort == SliceS {
				wfSlice(t)
			}
		}
	}
	for _, f := range fs {
		walk(f)
	}
}
