package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Output: every write to an io.Writer is recorded, in order, as a text.
//   g.outN     how many texts were written
//   g.out[n]   the n-th text
//   g.outTo[n] the writer it went to
//   g.shown[k] how often a part k of a response was printed (ghost code of contracts)

func (f *Frame) emit(w, text *Term) {
	f.x.trust("a write to an io.Writer changes nothing the library holds")
	n := f.ghost("outN")
	f.setGhost("out", Store(f.ghost("out"), n, text))
	f.setGhost("outTo", Store(f.ghost("outTo"), n, w))
	f.setGhost("outN", AddI(n, 1))
}

var lineChars = []string{"\n", "\r", "\x00"}

func init() {
	ghostVar("outN", IntS, tInt)
	ghostArr("out", IntS, tStr)
	ghostArr("outTo", IntS, anyT)
	ghostArr("shown", StringS, tInt)
	// what a contact accessor returned last, and for which card
	ghostArr("accV", StringS, tStr)
	ghostArr("accC", StringS, tInt)
	// where a WHOIS-style key stands in the display order
	ghostArr("keyPos", StringS, tInt)
	// the first value of a WHOIS-style key
	ghostArr("firstV", StringS, tStr)
	// what a contact field was set from, and the card of a contact
	ghostArr("whoisV", StringS, tStr)
	ghostArr("whoisC", StringS, tInt)

	write := func(text func(f *Frame, a []*Term) *Term) externFn {
		return func(f *Frame, fn *ssa.Function, args []Val, pos token.Pos) Val {
			a := make([]*Term, len(args))
			for i := range args {
				a[i] = f.x.term(args[i])
			}
			f.emit(a[0], text(f, a))
			n := Fresh("written", IntS)
			e := Fresh("write.err", IfaceS)
			return Tuple{wf(n, tInt), wf(e, anyT)}
		}
	}
	externs["fmt.Fprintf"] = write(func(f *Frame, a []*Term) *Term { return f.sprintf(a[1], a[2]) })
	externs["fmt.Fprint"] = write(func(f *Frame, a []*Term) *Term { return f.sprintLike("Sprint", a[1]) })
	externs["fmt.Fprintln"] = write(func(f *Frame, a []*Term) *Term { return SCat(f.sprintLike("Sprint", a[1]), Str("\n")) })
	externs["io.WriteString"] = write(func(f *Frame, a []*Term) *Term { return a[1] })

	pureT("strings.Repeat", func(f *Frame, a []*Term) *Term {
		f.x.trust("strings.Repeat: the count is not negative and the text fits in memory")
		r := App("strings.Repeat#0", StringS, a...)
		for _, c := range lineChars {
			addFact(r, Implies(Not(SContains(a[0], Str(c))), Not(SContains(r, Str(c)))))
		}
		addFact(r, Implies(And(Eq(SLen(a[0]), Int(1)), Le(Int(0), a[1])), Eq(SLen(r), a[1])))
		return r
	})
	externs["strings.Map"] = func(f *Frame, fn *ssa.Function, args []Val, pos token.Pos) Val {
		x := f.x
		s := x.term(args[1])
		r := Fresh("strmap", StringS)
		j := Fresh("strmap.r", IntS)
		v, _ := f.runPure(args[0], []Val{j}, And(f.curR, Le(Int(0), j), Le(j, Int(0x10ffff))), false)
		i := Bound("mr", IntS)
		at := Subst(v, map[*Term]*Term{j: i})
		in := And(Le(Int(0), i), Le(i, Int(0x10ffff)))
		same, clean := []*Term{Eq(at, i)}, []*Term{}
		for _, c := range lineChars {
			code := Int(int64(c[0]))
			x.assume(f.curR, Implies(Forall([]*Term{i}, Implies(in, Neq(at, code))), Not(SContains(r, Str(c)))), "strings.Map: a character that nothing is mapped to")
			same = append(same, Eq(i, code))
			clean = append(clean, Not(SContains(s, Str(c))))
		}
		x.trust("strings.Map: valid UTF-8 text")
		x.assume(f.curR, Implies(And(append(clean, Forall([]*Term{i}, Implies(in, Or(same...))))...), Eq(r, s)), "strings.Map: unchanged characters")
		return r
	}
}

var _ types.Type
