package main

// Terms: hash-consed first-order terms over Bool, Int, Real, String, arrays
// and datatypes, with a simplifier, and their SMT-LIB rendering.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Sort struct {
	Name string
	K, V *Sort     // arrays
	DT   *Datatype // datatypes
}

type Ctor struct {
	Name   string
	Fields []string // selector names
	Sorts  []*Sort
}

type Datatype struct {
	Name  string
	Ctors []*Ctor
}

var (
	BoolS   = &Sort{Name: "Bool"}
	IntS    = &Sort{Name: "Int"}
	RealS   = &Sort{Name: "Real"}
	StringS = &Sort{Name: "String"}
)

var arrSorts = map[[2]*Sort]*Sort{}

func ArrS(k, v *Sort) *Sort {
	key := [2]*Sort{k, v}
	if s, ok := arrSorts[key]; ok {
		return s
	}
	s := &Sort{Name: "(Array " + k.Name + " " + v.Name + ")", K: k, V: v}
	arrSorts[key] = s
	return s
}

type Op int

const (
	OVar Op = iota
	OInt
	OReal
	OStr
	OTrue
	OFalse
	ONot
	OAnd
	OOr
	OIte
	OEq
	OLin // linear combination: sum coefs*args + N
	OMul
	ODiv
	OMod
	OLe // Args[0] <= Args[1] over Int
	OSelect
	OStore
	OConstArr
	OShift // shift(arr, off)
	OCat   // cat(arrA, n, arrB, offB)
	OMix   // mix(H, Hnew, wm): H below wm, Hnew at or above
	OApp   // uninterpreted function, or SMT builtin with S name
	OCtor
	OSel
	OIs
	OForall
	OExists
	OBound // bound variable
	OLet   // unused
)

type Term struct {
	Op    Op
	Args  []*Term
	Coefs []*big.Int
	N     *big.Int
	S     string
	R     string // real literal text
	Sort  *Sort
	DTC   *Ctor
	Idx   int // selector index
	Pats  [][]*Term
	id    int
	maxv  int // largest creation index of a variable inside
	bound bool
}

var (
	termTab  = map[string]*Term{}
	termCnt  int
	varCnt   int
	varTab   = map[string]*Term{}
	funTab   = map[string]*FunDecl{}
	funOrder []string
	dtOrder  []*Sort
	dtTab    = map[string]*Sort{}
)

type FunDecl struct {
	Name string
	Args []*Sort
	Ret  *Sort
}

func key(op Op, args []*Term, extra string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d|%s", op, extra)
	for _, a := range args {
		fmt.Fprintf(&b, "|%d", a.id)
	}
	return b.String()
}

func mk(t *Term, extra string) *Term {
	k := key(t.Op, t.Args, extra)
	if o, ok := termTab[k]; ok {
		return o
	}
	termCnt++
	t.id = termCnt
	for _, a := range t.Args {
		if a.maxv > t.maxv {
			t.maxv = a.maxv
		}
		if a.bound {
			t.bound = true
		}
	}
	termTab[k] = t
	return t
}

var (
	True  = mk(&Term{Op: OTrue, Sort: BoolS}, "T")
	False = mk(&Term{Op: OFalse, Sort: BoolS}, "F")
)

// Var returns the variable named name, creating it if necessary.
func Var(name string, s *Sort) *Term { return Var0(runPrefix+name, s) }

var (
	runCnt    int
	runPrefix string
)

// Var0 is the variable with exactly that name (shared between runs).
func Var0(name string, s *Sort) *Term {
	if t, ok := varTab[name]; ok {
		if t.Sort != s {
			panic("var sort clash " + name + " " + t.Sort.Name + " vs " + s.Name)
		}
		return t
	}
	varCnt++
	t := mk(&Term{Op: OVar, S: name, Sort: s, maxv: varCnt}, name)
	varTab[name] = t
	return t
}

var freshCnt = map[string]int{}

func Fresh(prefix string, s *Sort) *Term {
	freshCnt[prefix]++
	return Var(fmt.Sprintf("%s!%d", prefix, freshCnt[prefix]), s)
}

func Bound(name string, s *Sort) *Term {
	return mk(&Term{Op: OBound, S: name, Sort: s, bound: true}, name+":"+s.Name)
}

var smallInts = map[int64]*Term{}

func Int(n int64) *Term {
	if t, ok := smallInts[n]; ok {
		return t
	}
	t := BigInt(big.NewInt(n))
	smallInts[n] = t
	return t
}

func BigInt(n *big.Int) *Term {
	return mk(&Term{Op: OInt, N: n, Sort: IntS}, n.String())
}

func RealLit(s string) *Term { return mk(&Term{Op: OReal, R: s, Sort: RealS}, s) }
func Str(s string) *Term     { return mk(&Term{Op: OStr, S: s, Sort: StringS}, "s"+s) }
func Bool(b bool) *Term {
	if b {
		return True
	}
	return False
}

func Not(a *Term) *Term {
	switch a.Op {
	case OTrue:
		return False
	case OFalse:
		return True
	case ONot:
		return a.Args[0]
	}
	return mk(&Term{Op: ONot, Args: []*Term{a}, Sort: BoolS}, "")
}

func And(as ...*Term) *Term { return nary(OAnd, as) }
func Or(as ...*Term) *Term  { return nary(OOr, as) }

func nary(op Op, as []*Term) *Term {
	unit, zero := True, False
	if op == OOr {
		unit, zero = False, True
	}
	seen := map[*Term]bool{}
	var out []*Term
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == unit || seen[t] {
			return true
		}
		if t == zero {
			return false
		}
		if t.Op == op {
			for _, x := range t.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if t.Op == ONot && seen[t.Args[0]] {
			return false
		}
		if t.Op != ONot && seen[Not(t)] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, a := range as {
		if a == nil {
			panic("nil in nary")
		}
		if !add(a) {
			return zero
		}
	}
	// absorption: (a or b) and (a or not b) -> a, for two elements
	if len(out) == 2 {
		inner := OOr
		if op == OOr {
			inner = OAnd
		}
		if r := resolve2(out[0], out[1], op, inner); r != nil {
			return r
		}
	}
	switch len(out) {
	case 0:
		return unit
	case 1:
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return mk(&Term{Op: op, Args: out, Sort: BoolS}, "")
}

// resolve2 handles A op B where A and B differ in one complementary literal
// (A = x inner c, B = x inner not c), the common shape after an if/else join.
func resolve2(a, b *Term, op, inner Op) *Term {
	lits := func(t *Term) []*Term {
		if t.Op == inner {
			return t.Args
		}
		return []*Term{t}
	}
	la, lb := lits(a), lits(b)
	in := func(t *Term, l []*Term) bool {
		for _, x := range l {
			if x == t {
				return true
			}
		}
		return false
	}
	var onlyA, onlyB, common []*Term
	for _, x := range la {
		if in(x, lb) {
			common = append(common, x)
		} else {
			onlyA = append(onlyA, x)
		}
	}
	for _, x := range lb {
		if !in(x, la) {
			onlyB = append(onlyB, x)
		}
	}
	if len(onlyA) == 0 {
		return a
	}
	if len(onlyB) == 0 {
		return b
	}
	if len(onlyA) == 1 && len(onlyB) == 1 && onlyA[0] == Not(onlyB[0]) {
		if inner == OAnd {
			return And(common...)
		}
		return Or(common...)
	}
	return nil
}

func Implies(a, b *Term) *Term { return Or(Not(a), b) }

func Ite(c, a, b *Term) *Term {
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("ite sorts %s vs %s: %s / %s", a.Sort.Name, b.Sort.Name, a.short(), b.short()))
	}
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if c.Op == ONot {
		return Ite(c.Args[0], b, a)
	}
	if a.Sort == BoolS {
		if a == True {
			return Or(c, b)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
		if b == False {
			return And(c, a)
		}
	}
	if a.Op == OIte && a.Args[0] == c {
		a = a.Args[1]
	}
	if b.Op == OIte && b.Args[0] == c {
		b = b.Args[2]
	}
	if a == b {
		return a
	}
	// same-constructor merging
	if a.Op == OCtor && b.Op == OCtor && a.DTC == b.DTC {
		args := make([]*Term, len(a.Args))
		for i := range args {
			args[i] = Ite(c, a.Args[i], b.Args[i])
		}
		return MkCtor(a.Sort, a.DTC, args...)
	}
	return mk(&Term{Op: OIte, Args: []*Term{c, a, b}, Sort: a.Sort}, "")
}

// ---- integers

func linParts(t *Term) (args []*Term, coefs []*big.Int, n *big.Int) {
	switch t.Op {
	case OInt:
		return nil, nil, t.N
	case OLin:
		return t.Args, t.Coefs, t.N
	}
	return []*Term{t}, []*big.Int{big.NewInt(1)}, big.NewInt(0)
}

func linComb(ts []*Term, ks []*big.Int) *Term {
	m := map[*Term]*big.Int{}
	n := new(big.Int)
	for i, t := range ts {
		as, cs, c := linParts(t)
		n.Add(n, new(big.Int).Mul(c, ks[i]))
		for j, a := range as {
			if m[a] == nil {
				m[a] = new(big.Int)
			}
			m[a] = new(big.Int).Add(m[a], new(big.Int).Mul(cs[j], ks[i]))
		}
	}
	var args []*Term
	for a, c := range m {
		if c.Sign() != 0 {
			args = append(args, a)
		}
	}
	if len(args) == 0 {
		return BigInt(n)
	}
	sort.Slice(args, func(i, j int) bool { return args[i].id < args[j].id })
	coefs := make([]*big.Int, len(args))
	ex := "L" + n.String()
	for i, a := range args {
		coefs[i] = m[a]
		ex += "," + m[a].String()
	}
	if len(args) == 1 && n.Sign() == 0 && coefs[0].Cmp(big.NewInt(1)) == 0 {
		return args[0]
	}
	return mk(&Term{Op: OLin, Args: args, Coefs: coefs, N: n, Sort: IntS}, ex)
}

var one = big.NewInt(1)
var minusOne = big.NewInt(-1)

func Add(a, b *Term) *Term {
	if a.Sort == RealS {
		return mk(&Term{Op: OApp, S: "+", Args: []*Term{a, b}, Sort: RealS}, "+")
	}
	return linComb([]*Term{a, b}, []*big.Int{one, one})
}
func Sub(a, b *Term) *Term {
	if a.Sort == RealS {
		return mk(&Term{Op: OApp, S: "-", Args: []*Term{a, b}, Sort: RealS}, "-")
	}
	return linComb([]*Term{a, b}, []*big.Int{one, minusOne})
}
func AddI(a *Term, n int64) *Term { return Add(a, Int(n)) }

func Mul(a, b *Term) *Term {
	if a.Sort == RealS {
		return mk(&Term{Op: OApp, S: "*", Args: []*Term{a, b}, Sort: RealS}, "*")
	}
	if a.Op == OInt {
		return linComb([]*Term{b}, []*big.Int{a.N})
	}
	if b.Op == OInt {
		return linComb([]*Term{a}, []*big.Int{b.N})
	}
	return mk(&Term{Op: OMul, Args: []*Term{a, b}, Sort: IntS}, "")
}

// Div and Mod are SMT-LIB (Euclidean) division and modulus.
func Div(a, b *Term) *Term {
	if a.Op == OInt && b.Op == OInt && b.N.Sign() != 0 {
		q := new(big.Int)
		q.DivMod(a.N, b.N, new(big.Int))
		return BigInt(q)
	}
	return mk(&Term{Op: ODiv, Args: []*Term{a, b}, Sort: IntS}, "")
}
func Mod(a, b *Term) *Term {
	if a.Op == OInt && b.Op == OInt && b.N.Sign() != 0 {
		m := new(big.Int)
		new(big.Int).DivMod(a.N, b.N, m)
		return BigInt(m)
	}
	return mk(&Term{Op: OMod, Args: []*Term{a, b}, Sort: IntS}, "")
}

func Le(a, b *Term) *Term {
	if a.Sort == RealS {
		return mk(&Term{Op: OApp, S: "<=", Args: []*Term{a, b}, Sort: BoolS}, "<=")
	}
	d := Sub(b, a) // d >= 0 ?
	if d.Op == OInt {
		return Bool(d.N.Sign() >= 0)
	}
	// string lengths are nonnegative: len >= -k
	if isNonNeg(d) {
		return True
	}
	if nd := AddI(Sub(a, b), -1); isNonNeg(nd) { // a-b-1 >= 0, i.e. b < a
		return False
	}
	return mk(&Term{Op: OLe, Args: []*Term{a, b}, Sort: BoolS}, "")
}

func isNonNeg(t *Term) bool {
	if t.Op == OInt {
		return t.N.Sign() >= 0
	}
	as, cs, n := linParts(t)
	if n.Sign() < 0 {
		// reference watermarks are at least 1
		k := new(big.Int).Set(n)
		ok := false
		for i, a := range as {
			if a.Op == OVar && wmEpoch[a] != 0 && cs[i].Sign() > 0 {
				k.Add(k, cs[i])
				ok = true
			}
		}
		if !ok || k.Sign() < 0 {
			return false
		}
	}
	for i, a := range as {
		if cs[i].Sign() < 0 {
			return false
		}
		if !(a.Op == OApp && a.S == "str.len") && !(a.Op == OVar && wmEpoch[a] != 0) {
			return false
		}
	}
	return true
}

func Lt(a, b *Term) *Term {
	if a.Sort == RealS {
		return mk(&Term{Op: OApp, S: "<", Args: []*Term{a, b}, Sort: BoolS}, "<")
	}
	return Le(AddI(a, 1), b)
}
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

// ---- reference epochs (see exec.go): wmEpoch maps a watermark variable to
// its epoch (>=1); refEp maps a variable to the epoch bounding it (or every
// reference stored in it, for heap base variables).

var wmEpoch = map[*Term]int{}
var refEp = map[*Term]int{}

// refEpoch returns e>0 if t is a reference known to be below watermark e.
func refEpoch(t *Term) int {
	switch t.Op {
	case OInt:
		if t.N.Cmp(big.NewInt(100000)) < 0 {
			return 1
		}
		return 0
	case OVar:
		return refEp[t]
	case OSel, OSelect:
		return refEpoch(t.Args[0])
	case OIte:
		if e, ok := refEpMemo[t]; ok {
			return e
		}
		a, b := refEpoch(t.Args[1]), refEpoch(t.Args[2])
		e := max(a, b)
		if a == 0 || b == 0 {
			e = 0
		}
		refEpMemo[t] = e
		return e
	case OApp:
		return funEp[t.S]
	}
	return 0
}

var refEpMemo = map[*Term]int{}

var funEp = map[string]int{}

// wmForm reports whether t is wm_e + k with k >= 0.
func wmForm(t *Term) (e int, ok bool) {
	as, cs, n := linParts(t)
	if len(as) == 1 && as[0].Op == OVar && wmEpoch[as[0]] != 0 && cs[0].Cmp(one) == 0 && n.Sign() >= 0 {
		return wmEpoch[as[0]], true
	}
	return 0, false
}

func refDistinct(a, b *Term) bool {
	if e, ok := wmForm(b); ok {
		if x := refEpoch(a); x > 0 && x <= e {
			return true
		}
	}
	if e, ok := wmForm(a); ok {
		if x := refEpoch(b); x > 0 && x <= e {
			return true
		}
	}
	return false
}

var eqMemo = map[[2]*Term]*Term{}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("eq sorts %s vs %s: %s = %s", a.Sort.Name, b.Sort.Name, a.short(), b.short()))
	}
	if a.id > b.id {
		a, b = b, a
	}
	k := [2]*Term{a, b}
	if r, ok := eqMemo[k]; ok {
		return r
	}
	r := eq1(a, b)
	eqMemo[k] = r
	return r
}

func isLit(t *Term) bool {
	switch t.Op {
	case OInt, OStr, OTrue, OFalse, OReal:
		return true
	case OCtor:
		for _, a := range t.Args {
			if !isLit(a) {
				return false
			}
		}
		return true
	}
	return false
}

func eq1(a, b *Term) *Term {
	switch a.Sort {
	case BoolS:
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
		if a == Not(b) {
			return False
		}
	case IntS:
		d := Sub(a, b)
		if d.Op == OInt {
			return Bool(d.N.Sign() == 0)
		}
		if refDistinct(a, b) {
			return False
		}
		if isNonNeg(AddI(d, -1)) || isNonNeg(AddI(Sub(b, a), -1)) {
			return False
		}
	case StringS:
		if a.Op == OStr && b.Op == OStr {
			return Bool(a.S == b.S)
		}
		if r := strEq(a, b); r != nil {
			return r
		}
	case RealS:
		if a.Op == OReal && b.Op == OReal && a.R != b.R {
			return False
		}
	}
	if a.Op == OCtor && b.Op == OCtor {
		if a.DTC != b.DTC {
			return False
		}
		var cs []*Term
		for i := range a.Args {
			cs = append(cs, Eq(a.Args[i], b.Args[i]))
		}
		return And(cs...)
	}
	if a.Sort.DT != nil && len(a.Sort.DT.Ctors) == 1 && (a.Op == OCtor || b.Op == OCtor) {
		c := a.Sort.DT.Ctors[0]
		var cs []*Term
		for i := range c.Fields {
			cs = append(cs, Eq(Sel(a, c, i), Sel(b, c, i)))
		}
		return And(cs...)
	}
	if a.Sort.DT != nil && len(a.Sort.DT.Ctors) > 1 {
		x, y := a, b
		if y.Op != OCtor {
			x, y = b, a
		}
		if y.Op == OCtor && x.Op != OIte {
			cs := []*Term{Is(x, y.DTC)}
			for i := range y.Args {
				cs = append(cs, Eq(Sel(x, y.DTC, i), y.Args[i]))
			}
			return And(cs...)
		}
	}
	if a.Op == OIte && (isLit(b) || isLit(a.Args[1]) || isLit(a.Args[2]) || b.Op == OCtor || refish(b)) {
		return Ite(a.Args[0], Eq(a.Args[1], b), Eq(a.Args[2], b))
	}
	if b.Op == OIte && (isLit(a) || isLit(b.Args[1]) || isLit(b.Args[2]) || a.Op == OCtor || refish(a)) {
		return Ite(b.Args[0], Eq(a, b.Args[1]), Eq(a, b.Args[2]))
	}
	return mk(&Term{Op: OEq, Args: []*Term{a, b}, Sort: BoolS}, "")
}

func refish(t *Term) bool { _, ok := wmForm(t); return ok }

func Neq(a, b *Term) *Term { return Not(Eq(a, b)) }

// ---- arrays

var selMemo = map[[2]*Term]*Term{}

func Select(a, i *Term) *Term {
	k := [2]*Term{a, i}
	if r, ok := selMemo[k]; ok {
		return r
	}
	r := select1(a, i)
	selMemo[k] = r
	return r
}

func select1(a, i *Term) *Term {
	if a.Sort.K == nil {
		panic("select of non-array " + a.Sort.Name + " " + a.short())
	}
	switch a.Op {
	case OStore:
		e := Eq(a.Args[1], i)
		if e == True {
			return a.Args[2]
		}
		if e == False {
			return Select(a.Args[0], i)
		}
		return Ite(e, a.Args[2], Select(a.Args[0], i))
	case OIte:
		return Ite(a.Args[0], Select(a.Args[1], i), Select(a.Args[2], i))
	case OConstArr:
		return a.Args[0]
	case OShift:
		return Select(a.Args[0], Add(a.Args[1], i))
	case OCat:
		c := Lt(i, a.Args[1])
		if c == True {
			return Select(a.Args[0], i)
		}
		if c == False {
			return Select(a.Args[2], Add(a.Args[3], Sub(i, a.Args[1])))
		}
		return Ite(c, Select(a.Args[0], i), Select(a.Args[2], Add(a.Args[3], Sub(i, a.Args[1]))))
	case OMix:
		// below wm: old; else new
		wm := a.Args[2]
		if e, ok := wmForm(wm); ok {
			if x := refEpoch(i); x > 0 && x <= e {
				return Select(a.Args[0], i)
			}
		}
		c := Lt(i, wm)
		if i.Op == OIte {
			return Ite(i.Args[0], Select(a, i.Args[1]), Select(a, i.Args[2]))
		}
		if c == True {
			return Select(a.Args[0], i)
		}
		if c == False {
			return Select(a.Args[1], i)
		}
		if e, ok := wmForm(i); ok {
			if e2, ok2 := wmForm(wm); ok2 && e > e2 {
				return Select(a.Args[1], i)
			}
		}
		return Ite(c, Select(a.Args[0], i), Select(a.Args[1], i))
	}
	if i.Op == OIte && i.Sort == IntS && a.Sort.V != nil && heapSorts[a.Sort] {
		return Ite(i.Args[0], Select(a, i.Args[1]), Select(a, i.Args[2]))
	}
	return mk(&Term{Op: OSelect, Args: []*Term{a, i}, Sort: a.Sort.V}, "")
}

var heapSorts = map[*Sort]bool{}

func Store(a, i, v *Term) *Term {
	if a.Sort.V != v.Sort || a.Sort.K != i.Sort {
		panic(fmt.Sprintf("store sort %s [%s] := %s", a.Sort.Name, i.Sort.Name, v.Sort.Name))
	}
	if a.Op == OStore && a.Args[1] == i {
		return Store(a.Args[0], i, v)
	}
	if v.Op == OSelect && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	return mk(&Term{Op: OStore, Args: []*Term{a, i, v}, Sort: a.Sort}, "")
}

func ConstArr(s *Sort, v *Term) *Term {
	return mk(&Term{Op: OConstArr, Args: []*Term{v}, Sort: s}, s.Name)
}
func Shift(a, off *Term) *Term {
	if off.Op == OInt && off.N.Sign() == 0 {
		return a
	}
	return mk(&Term{Op: OShift, Args: []*Term{a, off}, Sort: a.Sort}, "")
}
func Cat(a, n, b, off *Term) *Term {
	if n.Op == OInt && n.N.Sign() == 0 {
		return Shift(b, off)
	}
	return mk(&Term{Op: OCat, Args: []*Term{a, n, b, off}, Sort: a.Sort}, "")
}
func Mix(h, hn, wm *Term) *Term {
	return mk(&Term{Op: OMix, Args: []*Term{h, hn, wm}, Sort: h.Sort}, "")
}

// ---- datatypes

func NewDatatype(name string, ctors ...*Ctor) *Sort {
	if s, ok := dtTab[name]; ok {
		return s
	}
	s := &Sort{Name: name, DT: &Datatype{Name: name, Ctors: ctors}}
	dtTab[name] = s
	dtOrder = append(dtOrder, s)
	return s
}

func MkCtor(s *Sort, c *Ctor, args ...*Term) *Term {
	if len(args) != len(c.Fields) {
		panic("ctor arity " + c.Name)
	}
	for i, a := range args {
		if a.Sort != c.Sorts[i] {
			panic(fmt.Sprintf("ctor %s arg %d: %s want %s", c.Name, i, a.Sort.Name, c.Sorts[i].Name))
		}
	}
	// eta: mk(sel0(x),...,seln(x)) = x
	if len(args) > 0 && len(s.DT.Ctors) == 1 && args[0].Op == OSel && args[0].Idx == 0 && args[0].DTC == c {
		x := args[0].Args[0]
		ok := true
		for i, a := range args {
			if !(a.Op == OSel && a.DTC == c && a.Idx == i && a.Args[0] == x) {
				ok = false
				break
			}
		}
		if ok {
			return x
		}
	}
	return mk(&Term{Op: OCtor, DTC: c, Args: args, Sort: s}, c.Name)
}

func Sel(t *Term, c *Ctor, i int) *Term {
	switch t.Op {
	case OCtor:
		if t.DTC == c {
			return t.Args[i]
		}
	case OIte:
		return selIte(t, c, i)
	}
	if t.Sort.DT == nil {
		panic("sel of non-datatype " + t.Sort.Name)
	}
	return mk(&Term{Op: OSel, DTC: c, Idx: i, Args: []*Term{t}, Sort: c.Sorts[i]}, fmt.Sprintf("%s.%d", c.Name, i))
}

type selKey struct {
	t *Term
	c *Ctor
	i int
}

var selIteMemo = map[selKey]*Term{}

func selIte(t *Term, c *Ctor, i int) *Term {
	k := selKey{t, c, i}
	if r, ok := selIteMemo[k]; ok {
		return r
	}
	r := Ite(t.Args[0], Sel(t.Args[1], c, i), Sel(t.Args[2], c, i))
	selIteMemo[k] = r
	return r
}

func Is(t *Term, c *Ctor) *Term {
	if len(t.Sort.DT.Ctors) == 1 {
		return True
	}
	switch t.Op {
	case OCtor:
		return Bool(t.DTC == c)
	case OIte:
		return Ite(t.Args[0], Is(t.Args[1], c), Is(t.Args[2], c))
	}
	return mk(&Term{Op: OIs, DTC: c, Args: []*Term{t}, Sort: BoolS}, c.Name)
}

// ---- functions

func DeclFun(name string, args []*Sort, ret *Sort) {
	if _, ok := funTab[name]; ok {
		return
	}
	funTab[name] = &FunDecl{name, args, ret}
	funOrder = append(funOrder, name)
}

// App applies an uninterpreted function, declaring it on first use.
func App(name string, ret *Sort, args ...*Term) *Term {
	ss := make([]*Sort, len(args))
	nm := name
	for i, a := range args {
		ss[i] = a.Sort
	}
	if d, ok := funTab[nm]; ok {
		if len(d.Args) != len(ss) {
			panic("arity clash " + nm)
		}
		for i := range ss {
			if d.Args[i] != ss[i] {
				panic(fmt.Sprintf("UF %s arg %d sort %s want %s", nm, i, ss[i].Name, d.Args[i].Name))
			}
		}
		ret = d.Ret
	}
	DeclFun(nm, ss, ret)
	if len(args) == 0 {
		return Var0(nm, ret)
	}
	return mk(&Term{Op: OApp, S: nm, Args: args, Sort: ret}, "u"+nm)
}

// B applies an SMT-LIB builtin (no declaration).
func B(name string, ret *Sort, args ...*Term) *Term {
	return mk(&Term{Op: OApp, S: name, Args: args, Sort: ret}, "b"+name)
}

// ---- strings

func SLen(s *Term) *Term {
	switch s.Op {
	case OStr:
		return Int(int64(len(s.S)))
	case OIte:
		return Ite(s.Args[0], SLen(s.Args[1]), SLen(s.Args[2]))
	}
	if s.Op == OApp && s.S == "str.++" {
		r := Int(0)
		for _, a := range s.Args {
			r = Add(r, SLen(a))
		}
		return r
	}
	if s.Op == OApp && s.S == "str.from_code" && s.Sort == StringS && byteCode[s.Args[0]] {
		return Int(1)
	}
	if l, ok := knownLen[s]; ok {
		return l
	}
	return B("str.len", IntS, s)
}

// knownLen gives the length of the contents of well-formed byte slices.
var knownLen = map[*Term]*Term{}

// byteCode marks integer terms known to be in 0..255.
var byteCode = map[*Term]bool{}

func SCat(as ...*Term) *Term {
	var out []*Term
	for _, a := range as {
		if a.Sort != StringS {
			panic("concat of " + a.Sort.Name)
		}
		var parts []*Term
		if a.Op == OApp && a.S == "str.++" {
			parts = a.Args
		} else {
			parts = []*Term{a}
		}
		for _, p := range parts {
			if p.Op == OStr {
				if p.S == "" {
					continue
				}
				if n := len(out); n > 0 && out[n-1].Op == OStr {
					out[n-1] = Str(out[n-1].S + p.S)
					continue
				}
			}
			out = append(out, p)
		}
	}
	switch len(out) {
	case 0:
		return Str("")
	case 1:
		return out[0]
	}
	return B("str.++", StringS, out...)
}

// SSub is str.substr(s, off, n).
func SSub(s, off, n *Term) *Term {
	if s.Op == OStr && off.Op == OInt && n.Op == OInt {
		o, l := int(off.N.Int64()), int(n.N.Int64())
		if o < 0 || o >= len(s.S) || l <= 0 {
			return Str("")
		}
		if o+l > len(s.S) {
			l = len(s.S) - o
		}
		return Str(s.S[o : o+l])
	}
	if off == Int(0) {
		if n == SLen(s) || Sub(n, SLen(s)) == Int(0) {
			return s
		}
	}
	if n == Int(0) {
		return Str("")
	}
	if s.Op == OIte && (n.Op == OIte && n.Args[0] == s.Args[0] || off.Op == OIte && off.Args[0] == s.Args[0]) {
		br := func(t *Term, k int) *Term {
			if t.Op == OIte && t.Args[0] == s.Args[0] {
				return t.Args[k]
			}
			return t
		}
		return Ite(s.Args[0], SSub(s.Args[1], br(off, 1), br(n, 1)), SSub(s.Args[2], br(off, 2), br(n, 2)))
	}
	if s.Op == OApp && s.S == "str.++" && off.Op == OInt {
		// drop literal-length prefixes
		if l := SLen(s.Args[0]); l.Op == OInt && l.N.Cmp(off.N) <= 0 {
			return SSub(SCat(s.Args[1:]...), Sub(off, l), n)
		}
		if off == Int(0) {
			// whole leading parts
			for k := 1; k < len(s.Args); k++ {
				if Sub(SLen(SCat(s.Args[:k]...)), n) == Int(0) {
					return SCat(s.Args[:k]...)
				}
			}
		}
	}
	if n == Int(1) {
		return SAt(s, off)
	}
	return B("str.substr", StringS, s, off, n)
}

func SFrom(s, off *Term) *Term { return SSub(s, off, Sub(SLen(s), off)) }

func SPrefix(p, s *Term) *Term {
	if p.Op == OStr && s.Op == OStr {
		return Bool(strings.HasPrefix(s.S, p.S))
	}
	if p.Op == OStr && p.S == "" {
		return True
	}
	return B("str.prefixof", BoolS, p, s)
}
func SSuffix(p, s *Term) *Term {
	if p.Op == OStr && s.Op == OStr {
		return Bool(strings.HasSuffix(s.S, p.S))
	}
	if p.Op == OStr && p.S == "" {
		return True
	}
	return B("str.suffixof", BoolS, p, s)
}
func SContains(s, p *Term) *Term {
	if p.Op == OStr && s.Op == OStr {
		return Bool(strings.Contains(s.S, p.S))
	}
	if p.Op == OStr && len(p.S) == 1 && s.Op == OApp && s.S == "str.++" {
		var cs []*Term
		for _, a := range s.Args {
			cs = append(cs, SContains(a, p))
		}
		return Or(cs...)
	}
	if s.Op == OIte {
		return Ite(s.Args[0], SContains(s.Args[1], p), SContains(s.Args[2], p))
	}
	return B("str.contains", BoolS, s, p)
}
func SIndexOf(s, p, from *Term) *Term { return B("str.indexof", IntS, s, p, from) }
func SAt(s, i *Term) *Term {
	if s.Op == OStr && i.Op == OInt {
		k := int(i.N.Int64())
		if k >= 0 && k < len(s.S) {
			return Str(s.S[k : k+1])
		}
	}
	return B("str.at", StringS, s, i)
}
func SCode(s *Term) *Term { // str.to_code
	if s.Op == OStr && len(s.S) == 1 {
		return Int(int64(s.S[0]))
	}
	if s.Op == OApp && s.S == "str.from_code" && byteCode[s.Args[0]] {
		return s.Args[0]
	}
	return B("str.to_code", IntS, s)
}
func SFromCode(c *Term) *Term {
	if c.Op == OInt && c.N.IsInt64() {
		k := c.N.Int64()
		if k >= 0 && k < 256 {
			return Str(string([]byte{byte(k)}))
		}
	}
	if c.Op == OIte {
		return Ite(c.Args[0], SFromCode(c.Args[1]), SFromCode(c.Args[2]))
	}
	if c.Op == OApp && c.S == "str.to_code" && c.Args[0].Op == OApp && c.Args[0].S == "str.at" && byteCode[c] {
		return c.Args[0]
	}
	return B("str.from_code", StringS, c)
}

// strEq simplifies equality of concatenations with literal parts.
func strEq(a, b *Term) *Term {
	parts := func(t *Term) []*Term {
		if t.Op == OApp && t.S == "str.++" {
			return append([]*Term{}, t.Args...)
		}
		if t.Op == OStr && t.S == "" {
			return nil
		}
		return []*Term{t}
	}
	pa, pb := parts(a), parts(b)
	if len(pa) == 1 && len(pb) == 1 {
		return nil
	}
	changed := false
	for len(pa) > 0 && len(pb) > 0 {
		x, y := pa[0], pb[0]
		if x == y {
			pa, pb = pa[1:], pb[1:]
			changed = true
			continue
		}
		if x.Op == OStr && y.Op == OStr {
			n := len(x.S)
			if len(y.S) < n {
				n = len(y.S)
			}
			if x.S[:n] != y.S[:n] {
				return False
			}
			pa, pb = pa[1:], pb[1:]
			if len(x.S) > n {
				pa = append([]*Term{Str(x.S[n:])}, pa...)
			}
			if len(y.S) > n {
				pb = append([]*Term{Str(y.S[n:])}, pb...)
			}
			changed = true
			continue
		}
		break
	}
	for len(pa) > 0 && len(pb) > 0 {
		x, y := pa[len(pa)-1], pb[len(pb)-1]
		if x == y {
			pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
			changed = true
			continue
		}
		if x.Op == OStr && y.Op == OStr {
			n := len(x.S)
			if len(y.S) < n {
				n = len(y.S)
			}
			if x.S[len(x.S)-n:] != y.S[len(y.S)-n:] {
				return False
			}
			pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
			if len(x.S) > n {
				pa = append(pa[:len(pa):len(pa)], Str(x.S[:len(x.S)-n]))
			}
			if len(y.S) > n {
				pb = append(pb[:len(pb):len(pb)], Str(y.S[:len(y.S)-n]))
			}
			changed = true
			continue
		}
		break
	}
	if len(pa) == 0 || len(pb) == 0 {
		for _, p := range append(pa, pb...) {
			if p.Op == OStr && p.S != "" {
				return False
			}
		}
	}
	if !changed {
		return nil
	}
	return Eq(SCat(pa...), SCat(pb...))
}

// ---- quantifiers

func Forall(vars []*Term, body *Term, pats ...[]*Term) *Term { return quant(OForall, vars, body, pats) }
func Exists(vars []*Term, body *Term, pats ...[]*Term) *Term { return quant(OExists, vars, body, pats) }

func quant(op Op, vars []*Term, body *Term, pats [][]*Term) *Term {
	if body == True || body == False || len(vars) == 0 {
		return body
	}
	free := freeBound(body, map[*Term]map[*Term]bool{})
	used := false
	for _, v := range vars {
		if free[v] {
			used = true
		}
	}
	if !used {
		return body
	}
	args := append(append([]*Term{}, vars...), body)
	ex := ""
	for _, p := range pats {
		ex += ";"
		for _, t := range p {
			ex += fmt.Sprintf(",%d", t.id)
		}
	}
	t := mk(&Term{Op: op, Args: args, Sort: BoolS, Pats: pats}, ex)
	// bound flag: still open if other bound variables are free
	rest := 0
	for v := range free {
		in := false
		for _, w := range vars {
			if v == w {
				in = true
			}
		}
		if !in {
			rest++
		}
	}
	t.bound = rest > 0
	return t
}

func freeBound(t *Term, memo map[*Term]map[*Term]bool) map[*Term]bool {
	if !t.bound {
		return nil
	}
	if m, ok := memo[t]; ok {
		return m
	}
	m := map[*Term]bool{}
	if t.Op == OBound {
		m[t] = true
	}
	for _, a := range t.Args {
		for v := range freeBound(a, memo) {
			m[v] = true
		}
	}
	if t.Op == OForall || t.Op == OExists {
		for _, v := range t.Args[:len(t.Args)-1] {
			delete(m, v)
		}
	}
	memo[t] = m
	return m
}

// ---- substitution

func Subst(t *Term, m map[*Term]*Term) *Term { return substMemo(t, m, map[*Term]*Term{}) }

func substMemo(t *Term, m, memo map[*Term]*Term) *Term {
	var go1 func(t *Term) *Term
	go1 = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		same := true
		for i, a := range t.Args {
			args[i] = go1(a)
			if args[i] != a {
				same = false
			}
		}
		var r *Term
		if same {
			r = t
		} else {
			r = rebuild(t, args, go1)
		}
		memo[t] = r
		return r
	}
	return go1(t)
}

func rebuild(t *Term, args []*Term, rec func(*Term) *Term) *Term {
	switch t.Op {
	case ONot:
		return Not(args[0])
	case OAnd:
		return And(args...)
	case OOr:
		return Or(args...)
	case OIte:
		return Ite(args[0], args[1], args[2])
	case OEq:
		return Eq(args[0], args[1])
	case OLin:
		return Add(linComb(args, t.Coefs), BigInt(t.N))
	case OMul:
		return Mul(args[0], args[1])
	case ODiv:
		return Div(args[0], args[1])
	case OMod:
		return Mod(args[0], args[1])
	case OLe:
		return Le(args[0], args[1])
	case OSelect:
		return Select(args[0], args[1])
	case OStore:
		return Store(args[0], args[1], args[2])
	case OConstArr:
		return ConstArr(t.Sort, args[0])
	case OShift:
		return Shift(args[0], args[1])
	case OCat:
		return Cat(args[0], args[1], args[2], args[3])
	case OMix:
		return Mix(args[0], args[1], args[2])
	case OCtor:
		return MkCtor(t.Sort, t.DTC, args...)
	case OSel:
		return Sel(args[0], t.DTC, t.Idx)
	case OIs:
		return Is(args[0], t.DTC)
	case OForall, OExists:
		var pats [][]*Term
		for _, p := range t.Pats {
			var q []*Term
			for _, x := range p {
				q = append(q, rec(x))
			}
			pats = append(pats, q)
		}
		return quant(t.Op, args[:len(args)-1], args[len(args)-1], pats)
	case OApp:
		switch t.S {
		case "str.len":
			return SLen(args[0])
		case "str.++":
			return SCat(args...)
		case "str.substr":
			return SSub(args[0], args[1], args[2])
		case "str.prefixof":
			return SPrefix(args[0], args[1])
		case "str.suffixof":
			return SSuffix(args[0], args[1])
		case "str.contains":
			return SContains(args[0], args[1])
		case "str.at":
			return SAt(args[0], args[1])
		case "str.to_code":
			return SCode(args[0])
		case "str.from_code":
			return SFromCode(args[0])
		}
		if _, ok := funTab[t.S]; ok {
			return App(t.S, t.Sort, args...)
		}
		return B(t.S, t.Sort, args...)
	}
	panic("rebuild")
}

func (t *Term) short() string {
	s := render(t)
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}

func (t *Term) String() string { return t.short() }

// ---- SMT-LIB rendering

func smtStr(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '"' {
			b.WriteString(`""`)
		} else if c < 32 || c > 126 || c == '\\' {
			fmt.Fprintf(&b, "\\u{%x}", c)
		} else {
			b.WriteByte(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func bigStr(n *big.Int) string {
	if n.Sign() < 0 {
		return "(- " + new(big.Int).Neg(n).String() + ")"
	}
	return n.String()
}

func sym(s string) string {
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.ContainsRune("_!.$-+<>=/*", c)) {
			return "|" + s + "|"
		}
	}
	return s
}

// head renders t given rendered arguments.
func head(t *Term, a []string) string {
	j := func(op string) string { return "(" + op + " " + strings.Join(a, " ") + ")" }
	switch t.Op {
	case OVar, OBound:
		return sym(t.S)
	case OInt:
		return bigStr(t.N)
	case OReal:
		return t.R
	case OStr:
		if absStr != nil {
			return absStr.lit(t.S)
		}
		return smtStr(t.S)
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case ONot:
		return j("not")
	case OAnd:
		return j("and")
	case OOr:
		return j("or")
	case OIte:
		return j("ite")
	case OEq:
		return j("=")
	case OLin:
		var ps []string
		for i := range t.Args {
			if t.Coefs[i].Cmp(one) == 0 {
				ps = append(ps, a[i])
			} else {
				ps = append(ps, "(* "+bigStr(t.Coefs[i])+" "+a[i]+")")
			}
		}
		if t.N.Sign() != 0 {
			ps = append(ps, bigStr(t.N))
		}
		if len(ps) == 1 {
			return ps[0]
		}
		return "(+ " + strings.Join(ps, " ") + ")"
	case OMul:
		return j("*")
	case ODiv:
		return j("div")
	case OMod:
		return j("mod")
	case OLe:
		return j("<=")
	case OSelect:
		return j("select")
	case OStore:
		return j("store")
	case OConstArr:
		return "((as const " + t.Sort.Name + ") " + a[0] + ")"
	case OShift, OCat, OMix:
		// only reached when a heap-level array escapes whole into a formula;
		// rendered as an uninterpreted function (sound: weaker)
		nm := map[Op]string{OShift: "arr.shift", OCat: "arr.cat", OMix: "arr.mix"}[t.Op] + "." + t.Sort.Name
		var ss []*Sort
		for _, x := range t.Args {
			ss = append(ss, x.Sort)
		}
		DeclFun(nm, ss, t.Sort)
		return j(sym(nm))
	case OApp:
		if len(a) == 0 {
			return sym(t.S)
		}
		if _, ok := funTab[t.S]; ok {
			return j(sym(t.S))
		}
		if absStr != nil {
			return absStr.op(t, a)
		}
		return j(t.S)
	case OCtor:
		if len(a) == 0 {
			return sym(t.DTC.Name)
		}
		return j(sym(t.DTC.Name))
	case OSel:
		return j(sym(t.DTC.Fields[t.Idx]))
	case OIs:
		return "((_ is " + sym(t.DTC.Name) + ") " + a[0] + ")"
	}
	panic(fmt.Sprint("head ", t.Op))
}

func render(t *Term) string { // plain tree rendering, depth limited (debug)
	var r func(t *Term, d int) string
	r = func(t *Term, d int) string {
		if d > 12 {
			return "..."
		}
		if t.Op == OForall || t.Op == OExists {
			q := "forall"
			if t.Op == OExists {
				q = "exists"
			}
			var vs []string
			for _, v := range t.Args[:len(t.Args)-1] {
				vs = append(vs, "("+sym(v.S)+" "+v.Sort.Name+")")
			}
			return "(" + q + " (" + strings.Join(vs, " ") + ") " + r(t.Args[len(t.Args)-1], d+1) + ")"
		}
		a := make([]string, len(t.Args))
		for i, x := range t.Args {
			a[i] = r(x, d+1)
		}
		return head(t, a)
	}
	return r(t, 0)
}

// Script renders (assert each), sharing repeated closed subterms.
type Script struct {
	defs  strings.Builder
	names map[*Term]string
	cnt   map[*Term]int
	vars  map[*Term]bool
	funs  map[string]bool
	sorts map[*Sort]bool
	n     int
}

func (s *Script) count(t *Term) {
	s.cnt[t]++
	if s.cnt[t] > 1 {
		return
	}
	s.noteSort(t.Sort)
	if t.Op == OVar {
		s.vars[t] = true
	}
	if t.Op == OApp {
		if _, ok := funTab[t.S]; ok {
			s.funs[t.S] = true
		}
	}
	for _, a := range t.Args {
		s.count(a)
	}
	for _, p := range t.Pats {
		for _, x := range p {
			s.count(x)
		}
	}
}

func (s *Script) noteSort(x *Sort) {
	if x == nil || s.sorts[x] {
		return
	}
	s.sorts[x] = true
	s.noteSort(x.K)
	s.noteSort(x.V)
	if x.DT != nil {
		for _, c := range x.DT.Ctors {
			for _, f := range c.Sorts {
				s.noteSort(f)
			}
		}
	}
}

func (s *Script) rend(t *Term) string {
	if n, ok := s.names[t]; ok {
		return n
	}
	var out string
	switch t.Op {
	case OForall, OExists:
		q := "forall"
		if t.Op == OExists {
			q = "exists"
		}
		var vs []string
		for _, v := range t.Args[:len(t.Args)-1] {
			vs = append(vs, "("+sym(v.S)+" "+v.Sort.Name+")")
		}
		body := s.rend(t.Args[len(t.Args)-1])
		if len(t.Pats) > 0 {
			body = "(! " + body
			for _, p := range t.Pats {
				var ps []string
				for _, x := range p {
					ps = append(ps, s.rend(x))
				}
				body += " :pattern (" + strings.Join(ps, " ") + ")"
			}
			body += ")"
		}
		out = "(" + q + " (" + strings.Join(vs, " ") + ") " + body + ")"
	default:
		a := make([]string, len(t.Args))
		for i, x := range t.Args {
			a[i] = s.rend(x)
		}
		out = head(t, a)
	}
	if len(t.Args) > 0 && !t.bound && s.cnt[t] > 1 {
		s.n++
		n := fmt.Sprintf("t!%d", s.n)
		fmt.Fprintf(&s.defs, "(define-fun %s () %s %s)\n", n, t.Sort.Name, out)
		s.names[t] = n
		return n
	}
	return out
}

// Render produces a complete SMT-LIB script asserting all of fs.
func Render(fs []*Term, getValues []*Term) string {
	s := &Script{names: map[*Term]string{}, cnt: map[*Term]int{}, vars: map[*Term]bool{}, funs: map[string]bool{}, sorts: map[*Sort]bool{}}
	for _, f := range fs {
		s.count(f)
	}
	for _, v := range getValues {
		s.count(v)
	}
	var asserts strings.Builder
	for _, f := range fs {
		r := s.rend(f)
		fmt.Fprintf(&s.defs, "(assert %s)\n", r)
	}
	var gv []string
	for _, v := range getValues {
		gv = append(gv, s.rend(v))
	}
	// shift/cat/mix may have been declared during rendering
	for _, t := range termTabFuns {
		_ = t
	}
	var out strings.Builder
	out.WriteString("(set-logic ALL)\n")
	// datatypes, in dependency order: declare all at once
	var dts []*Sort
	for _, d := range dtOrder {
		if s.sorts[d] {
			dts = append(dts, d)
		}
	}
	emitDTs(&out, dts)
	var vs []*Term
	for v := range s.vars {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].id < vs[j].id })
	for _, v := range vs {
		fmt.Fprintf(&out, "(declare-const %s %s)\n", sym(v.S), v.Sort.Name)
	}
	body := s.defs.String()
	for _, n := range funOrder {
		if s.funs[n] || strings.HasPrefix(n, "arr.") && strings.Contains(body, sym(n)) {
			d := funTab[n]
			if len(d.Args) == 0 {
				continue
			}
			var as []string
			for _, a := range d.Args {
				as = append(as, a.Name)
			}
			fmt.Fprintf(&out, "(declare-fun %s (%s) %s)\n", sym(n), strings.Join(as, " "), d.Ret.Name)
		}
	}
	out.WriteString(body)
	out.WriteString(asserts.String())
	out.WriteString("(check-sat)\n")
	if len(gv) > 0 {
		out.WriteString("(get-value (" + strings.Join(gv, " ") + "))\n")
	}
	return out.String()
}

var termTabFuns []string

func emitDTs(out *strings.Builder, dts []*Sort) {
	if len(dts) == 0 {
		return
	}
	// one mutually recursive block is always accepted
	out.WriteString("(declare-datatypes (")
	for _, d := range dts {
		out.WriteString("(" + sym(d.DT.Name) + " 0)")
	}
	out.WriteString(") (\n")
	for _, d := range dts {
		out.WriteString("  (")
		for _, c := range d.DT.Ctors {
			if len(c.Fields) == 0 {
				out.WriteString("(" + sym(c.Name) + ")")
				continue
			}
			out.WriteString("(" + sym(c.Name))
			for i, f := range c.Fields {
				out.WriteString(" (" + sym(f) + " " + c.Sorts[i].Name + ")")
			}
			out.WriteString(")")
		}
		out.WriteString(")\n")
	}
	out.WriteString("))\n")
}
