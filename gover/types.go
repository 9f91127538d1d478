package main

// Mapping of Go types to sorts, heap keys, zero values and type invariants.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

const modPath = "github.com/openrdap/rdap"

type Unsupported struct{ Msg string }

func unsup(f string, a ...any) { panic(Unsupported{fmt.Sprintf(f, a...)}) }

func shortName(s string) string {
	s = strings.ReplaceAll(s, modPath+"/bootstrap/cache", "cache")
	s = strings.ReplaceAll(s, modPath+"/bootstrap", "bootstrap")
	s = strings.ReplaceAll(s, modPath+"/sandbox", "sandbox")
	s = strings.ReplaceAll(s, modPath+"/test", "rdaptest")
	s = strings.ReplaceAll(s, modPath, "rdap")
	return s
}

func tname(t types.Type) string {
	return shortName(types.TypeString(types.Unalias(t), func(p *types.Package) string { return p.Path() }))
}

func mangle(s string) string {
	var b strings.Builder
	for _, c := range s {
		switch {
		case c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z', c >= '0' && c <= '9', c == '.', c == '_':
			b.WriteRune(c)
		case c == '*':
			b.WriteString("P")
		case c == '/':
			b.WriteString("_")
		default:
			b.WriteString("_")
		}
	}
	return b.String()
}

var (
	sliceCtor = &Ctor{Name: "mkslice", Fields: []string{"s.ref", "s.off", "s.len", "s.cap"}, Sorts: []*Sort{IntS, IntS, IntS, IntS}}
	SliceS    = NewDatatype("Slice", sliceCtor)

	cNil   = &Ctor{Name: "inil"}
	cStr   = &Ctor{Name: "istr", Fields: []string{"i.str"}, Sorts: []*Sort{StringS}}
	cBool  = &Ctor{Name: "ibool", Fields: []string{"i.bool"}, Sorts: []*Sort{BoolS}}
	cReal  = &Ctor{Name: "ireal", Fields: []string{"i.real"}, Sorts: []*Sort{RealS}}
	cInt   = &Ctor{Name: "iint", Fields: []string{"i.itag", "i.int"}, Sorts: []*Sort{IntS, IntS}}
	cPtr   = &Ctor{Name: "iptr", Fields: []string{"i.ptag", "i.ptr"}, Sorts: []*Sort{IntS, IntS}}
	cSlice = &Ctor{Name: "islice", Fields: []string{"i.stag", "i.slice"}, Sorts: []*Sort{IntS, SliceS}}
	cOpq   = &Ctor{Name: "iopq", Fields: []string{"i.otag", "i.opq"}, Sorts: []*Sort{IntS, IntS}}
	IfaceS = NewDatatype("Iface", cNil, cStr, cBool, cReal, cInt, cPtr, cSlice, cOpq)
	iNil   = MkCtor(IfaceS, cNil)
)

func mkSlice(ref, off, ln, cp *Term) *Term { return MkCtor(SliceS, sliceCtor, ref, off, ln, cp) }

var nilSlice = mkSlice(Int(0), Int(0), Int(0), Int(0))

func sRef(s *Term) *Term { return Sel(s, sliceCtor, 0) }
func sOff(s *Term) *Term { return Sel(s, sliceCtor, 1) }
func sLen(s *Term) *Term { return Sel(s, sliceCtor, 2) }
func sCap(s *Term) *Term { return Sel(s, sliceCtor, 3) }

// opaque types are represented by an integer handle.
func opaqueNamed(n string) bool {
	switch n {
	case "time.Time", "reflect.Value", "reflect.Type", "sync.Map", "sync.Mutex", "sync.Once", "reflect.rtype", "strings.Builder", "bytes.Buffer":
		return true
	}
	return false
}

var sortMemo = map[string]*Sort{}

type structInfo struct {
	st   *types.Struct
	ctor *Ctor
	sort *Sort
}

var structInfos = map[*Sort]*structInfo{}

func sortOf(t types.Type) *Sort {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		if opaqueNamed(tname(n)) {
			return IntS
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return BoolS
		case u.Info()&types.IsInteger != 0:
			return IntS
		case u.Info()&types.IsFloat != 0:
			return RealS
		case u.Info()&types.IsString != 0:
			return StringS
		case u.Kind() == types.UnsafePointer, u.Kind() == types.UntypedNil:
			return IntS
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return IntS
	case *types.Slice:
		return SliceS
	case *types.Interface:
		return IfaceS
	case *types.Array:
		if isByte(u.Elem()) {
			return StringS
		}
		return ArrS(IntS, sortOf(u.Elem()))
	case *types.Struct:
		return structSort(t, u)
	case *types.Tuple:
	}
	unsup("sort of %s", t)
	return nil
}

func structSort(t types.Type, u *types.Struct) *Sort {
	nm := "S." + mangle(tname(t))
	if _, named := t.(*types.Named); !named {
		nm = fmt.Sprintf("S.anon%d", typeTag(t))
	}
	if s, ok := sortMemo[nm]; ok {
		return s
	}
	c := &Ctor{Name: "mk." + nm}
	s := NewDatatype(nm, c)
	sortMemo[nm] = s
	for i := 0; i < u.NumFields(); i++ {
		c.Fields = append(c.Fields, fmt.Sprintf("%s.%s.%d", nm, u.Field(i).Name(), i))
		c.Sorts = append(c.Sorts, sortOf(u.Field(i).Type()))
	}
	structInfos[s] = &structInfo{u, c, s}
	return s
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8)
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isByte(s.Elem())
}

var tagTab = map[string]int{}
var tagTypes = map[int]types.Type{}

func typeTag(t types.Type) int {
	k := tname(t)
	if n, ok := tagTab[k]; ok {
		return n
	}
	n := len(tagTab) + 1
	tagTab[k] = n
	tagTypes[n] = t
	return n
}

// ---- heap keys

var heapSortOf = map[string]*Sort{}

func regHeap(key string, s *Sort) string {
	if _, ok := heapSortOf[key]; !ok {
		heapSortOf[key] = s
		if s.K != nil {
			heapSorts[s] = true
		}
	}
	return key
}

func objHeap(t types.Type) string {
	if a, ok := t.Underlying().(*types.Array); ok {
		return elemHeap(a.Elem())
	}
	return regHeap("H:"+mangle(tname(t)), ArrS(IntS, sortOf(t)))
}

func elemHeap(t types.Type) string {
	if isByte(t) {
		return regHeap("B", ArrS(IntS, StringS))
	}
	return regHeap("E:"+mangle(tname(t)), ArrS(IntS, ArrS(IntS, sortOf(t))))
}

func mapHeaps(m *types.Map) (dom, val string) {
	k, v := sortOf(m.Key()), sortOf(m.Elem())
	n := mangle(tname(m.Key())) + ":" + mangle(tname(m.Elem()))
	return regHeap("MD:"+n, ArrS(IntS, ArrS(k, BoolS))), regHeap("MV:"+n, ArrS(IntS, ArrS(k, v)))
}

// ---- zero values

func zero(t types.Type) *Term {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		if tname(n) == "time.Time" {
			return timeZero()
		}
		if opaqueNamed(tname(n)) {
			return Int(0)
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s := sortOf(t)
		c := s.DT.Ctors[0]
		args := make([]*Term, u.NumFields())
		for i := range args {
			args[i] = zero(u.Field(i).Type())
		}
		return MkCtor(s, c, args...)
	case *types.Array:
		if isByte(u.Elem()) {
			return Str(strings.Repeat("\x00", int(u.Len())))
		}
		return ConstArr(sortOf(t), zero(u.Elem()))
	}
	return zeroOfSort(sortOf(t))
}

func zeroOfSort(s *Sort) *Term {
	switch s {
	case BoolS:
		return False
	case IntS:
		return Int(0)
	case RealS:
		return RealLit("0.0")
	case StringS:
		return Str("")
	case SliceS:
		return nilSlice
	case IfaceS:
		return iNil
	}
	unsup("zero of sort %s", s.Name)
	return nil
}

func timeZero() *Term { return Var("time.zero", IntS) }

// ---- facts attached to terms, added to a query when the term occurs in it

var facts = map[*Term][]*Term{}
var factOnce = map[string]bool{}

func addFact(t, f *Term) {
	if f == True {
		return
	}
	if t.bound {
		return
	}
	for _, g := range facts[t] {
		if g == f {
			return
		}
	}
	facts[t] = append(facts[t], f)
}

func intRange(t types.Type) (lo, hi *big.Int, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB || b.Info()&types.IsInteger == 0 {
		return nil, nil, false
	}
	p := func(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }
	var bits uint
	switch b.Kind() {
	case types.Int8, types.Uint8:
		bits = 8
	case types.Int16, types.Uint16:
		bits = 16
	case types.Int32, types.Uint32:
		bits = 32
	default:
		bits = 64
	}
	if b.Info()&types.IsUnsigned != 0 {
		return new(big.Int), new(big.Int).Sub(p(bits), one), true
	}
	return new(big.Int).Neg(p(bits - 1)), new(big.Int).Sub(p(bits-1), one), true
}

// wf records the type invariant of a value of Go type t as facts on its atoms.
func wf(v *Term, t types.Type) *Term {
	if v.bound {
		return v
	}
	switch v.Op {
	case OInt, OStr, OTrue, OFalse, OCtor, OLin, OReal:
		return v
	case OIte:
		k := wfKey{v, t}
		if wfMemo[k] {
			return v
		}
		wfMemo[k] = true
		wf(v.Args[1], t)
		wf(v.Args[2], t)
		return v
	}
	if lo, hi, ok := intRange(t); ok {
		addFact(v, Le(BigInt(lo), v))
		addFact(v, Le(v, BigInt(hi)))
		if lo.Sign() == 0 && hi.Cmp(big.NewInt(255)) == 0 {
			byteCode[v] = true
		}
		return v
	}
	switch v.Sort {
	case SliceS:
		wfSlice(v)
	case IntS:
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
			wfRef(v)
		}
	case IfaceS:
		wfIface(v)
	}
	return v
}

type wfKey struct {
	v *Term
	t types.Type
}

var wfMemo = map[wfKey]bool{}

func wfRef(v *Term) {
	addFact(v, Le(Int(0), v))
	if e := refEpoch(v); e > 0 {
		addFact(v, Lt(v, wmVar(e)))
	}
}

func wfSlice(v *Term) {
	ref, off, ln, cp := sRef(v), sOff(v), sLen(v), sCap(v)
	addFact(v, And(Le(Int(0), ref), Le(Int(0), off), Le(Int(0), ln), Le(ln, cp), Implies(Eq(ref, Int(0)), And(Eq(cp, Int(0)), Eq(ln, Int(0)), Eq(off, Int(0))))))
	if e := refEpoch(ref); e > 0 {
		addFact(v, Lt(ref, wmVar(e)))
	}
	addFact(v, Le(cp, BigInt(new(big.Int).Lsh(one, 62))))
}

func wfIface(v *Term) {
	if e := refEpoch(v); e > 0 {
		addFact(v, Implies(Is(v, cPtr), And(Le(Int(0), Sel(v, cPtr, 1)), Lt(Sel(v, cPtr, 1), wmVar(e)))))
		addFact(v, Implies(Is(v, cSlice), Lt(sRef(Sel(v, cSlice, 1)), wmVar(e))))
	}
	sl := Sel(v, cSlice, 1)
	addFact(v, Implies(Is(v, cSlice), And(Le(Int(0), sRef(sl)), Le(Int(0), sOff(sl)), Le(Int(0), sLen(sl)), Le(sLen(sl), sCap(sl)), Implies(Eq(sRef(sl), Int(0)), Eq(sLen(sl), Int(0))))))
}

var wmVars = []*Term{nil}

func wmVar(e int) *Term { return wmVars[e] }

func newWM() (*Term, int) {
	e := len(wmVars)
	v := Var(fmt.Sprintf("wm!%d", e), IntS)
	wmVars = append(wmVars, v)
	wmEpoch[v] = e
	addFact(v, Le(Int(100000), v))
	if e > 1 {
		addFact(v, Le(wmVars[e-1], v))
	}
	return v, e
}
