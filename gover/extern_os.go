package main

// Models of time and of the file system.
//
// A time.Time is an instant (an integer); the clock never runs backwards.
// The file system may be changed from outside between any two calls: each call
// first lets the files it looks at move to a later version. A version is a
// modification time and contents, and the contents change only together with
// the modification time.

import (
	"go/token"
	"go/types"
	"path/filepath"

	"golang.org/x/tools/go/ssa"
)

func (f *Frame) bytesArg(v Val) *Term { return f.x.bytesOf(f.cur, f.x.term(v)) }

// newBytes allocates a []byte with the given contents.
func (f *Frame) newBytes(s *Term) *Term {
	r := f.x.alloc(f.cur)
	f.x.write(f.cur, "B", r, s)
	n := SLen(s)
	return mkSlice(r, Int(0), n, n)
}

func (f *Frame) tick() *Term {
	n := Fresh("now", IntS)
	f.x.assume(f.curR, Le(f.ghost("now"), n), "the clock does not run backwards")
	f.setGhost("now", n)
	f.x.trust("time: instants are integers, the clock does not run backwards")
	return n
}

// fsStep lets the outside world change the file at path p.
func (f *Frame) fsStep(p *Term) (m, d *Term) {
	x := f.x
	mt, dt := f.ghost("fsMtime"), f.ghost("fsData")
	m, d = Fresh("mtime", IntS), Fresh("fdata", StringS)
	x.assume(f.curR, And(Le(Select(mt, p), m), Implies(Eq(Select(mt, p), m), Eq(Select(dt, p), d))), "outside changes to a file advance its modification time")
	f.setGhost("fsMtime", Store(mt, p, m))
	f.setGhost("fsData", Store(dt, p, d))
	x.trust("file system: outside changes advance a file's modification time; os.Stat/ReadFile/WriteFile/MkdirAll as documented")
	return
}

var fileInfoTag = "os.fileInfo"

func init() {
	regHeap("B", ArrS(IntS, StringS))
	ghostVar("now", IntS, tInt)
	ghostArr("fsMtime", StringS, tInt)
	ghostArr("fsData", StringS, tStr)
	ghostVar("statN", IntS, tInt)
	ghostVar("statOK", BoolS, tBool)
	ghostVar("statPath", StringS, tStr)
	ghostVar("statMtime", IntS, tInt)
	ghostVar("readMtime", IntS, tInt)
	ghostVar("readPath", StringS, tStr)
	ghostVar("readN", IntS, tInt)
	ghostVar("wrote", IntS, tInt) // number of writes to the file system
	ghostVar("wrotePath", StringS, tStr)
	ghostVar("wroteData", StringS, tStr)

	externs["time.Now"] = func(f *Frame, fn *ssa.Function, args []Val, pos token.Pos) Val { return f.tick() }
	externs["time.Since"] = func(f *Frame, fn *ssa.Function, args []Val, pos token.Pos) Val {
		return Sub(f.tick(), f.x.term(args[0]))
	}
	externs["time.Until"] = func(f *Frame, fn *ssa.Function, args []Val, pos token.Pos) Val {
		return Sub(f.x.term(args[0]), f.tick())
	}
	pureT("(time.Time).After", func(f *Frame, a []*Term) *Term { return Lt(a[1], a[0]) })
	pureT("(time.Time).Before", func(f *Frame, a []*Term) *Term { return Lt(a[0], a[1]) })
	pureT("(time.Time).Equal", func(f *Frame, a []*Term) *Term { return Eq(a[0], a[1]) })
	pureT("(time.Time).Compare", func(f *Frame, a []*Term) *Term {
		return Ite(Lt(a[0], a[1]), Int(-1), Ite(Eq(a[0], a[1]), Int(0), Int(1)))
	})
	pureT("(time.Time).Add", func(f *Frame, a []*Term) *Term { return Add(a[0], a[1]) })
	pureT("(time.Time).Sub", func(f *Frame, a []*Term) *Term { return Sub(a[0], a[1]) })
	pureT("(time.Time).IsZero", func(f *Frame, a []*Term) *Term { return Eq(a[0], timeZero()) })

	externs["os.Stat"] = func(f *Frame, fn *ssa.Function, args []Val, pos token.Pos) Val {
		p := f.x.term(args[0])
		m, _ := f.fsStep(p)
		ok := Fresh("statok", BoolS)
		f.setGhost("statN", AddI(f.ghost("statN"), 1))
		f.setGhost("statOK", ok)
		f.setGhost("statPath", p)
		f.setGhost("statMtime", m)
		info := MkCtor(IfaceS, cInt, Int(int64(errTag(fileInfoTag))), m)
		e := f.newError("fs.PathError", App("staterr", StringS, p))
		return Tuple{Ite(ok, info, iNil), Ite(ok, iNil, e)}
	}
	externs["os.Lstat"] = externs["os.Stat"]
	fi := func(what string, g func(f *Frame, m *Term) *Term) {
		externs["iface io/fs.FileInfo."+what] = func(f *Frame, fn *ssa.Function, args []Val, pos token.Pos) Val {
			return g(f, Sel(f.x.term(args[0]), cInt, 1))
		}
		externs["iface os.FileInfo."+what] = externs["iface io/fs.FileInfo."+what]
	}
	fi("ModTime", func(f *Frame, m *Term) *Term { return m })
	fi("IsDir", func(f *Frame, m *Term) *Term { return Fresh("isdir", BoolS) })
	fi("Size", func(f *Frame, m *Term) *Term { return Fresh("fsize", IntS) })
	externs["os.IsNotExist"] = func(f *Frame, fn *ssa.Function, args []Val, pos token.Pos) Val {
		return App("isnotexist", BoolS, f.x.term(args[0]))
	}
	externs["os.ReadFile"] = func(f *Frame, fn *ssa.Function, args []Val, pos token.Pos) Val {
		p := f.x.term(args[0])
		m, d := f.fsStep(p)
		ok := Fresh("readok", BoolS)
		f.setGhost("readN", AddI(f.ghost("readN"), 1))
		f.setGhost("readPath", p)
		f.setGhost("readMtime", m)
		b := f.newBytes(d)
		e := f.newError("fs.PathError", App("readerr", StringS, p))
		return Tuple{Ite(ok, b, nilSlice), Ite(ok, iNil, e)}
	}
	externs["os.WriteFile"] = func(f *Frame, fn *ssa.Function, args []Val, pos token.Pos) Val {
		x := f.x
		p := x.term(args[0])
		d := f.bytesArg(args[1])
		m0, _ := f.fsStep(p)
		ok := Fresh("writeok", BoolS)
		m1, part := Fresh("wmtime", IntS), Fresh("partial", StringS)
		x.assume(f.curR, Le(m0, m1), "writing does not move the modification time back")
		f.setGhost("fsMtime", Store(f.ghost("fsMtime"), p, m1))
		f.setGhost("fsData", Store(f.ghost("fsData"), p, Ite(ok, d, part)))
		f.setGhost("wrote", AddI(f.ghost("wrote"), 1))
		f.setGhost("wrotePath", p)
		f.setGhost("wroteData", d)
		e := f.newError("fs.PathError", App("writeerr", StringS, p))
		return Ite(ok, iNil, e)
	}
	externs["os.MkdirAll"] = func(f *Frame, fn *ssa.Function, args []Val, pos token.Pos) Val {
		ok := Fresh("mkdirok", BoolS)
		e := f.newError("fs.PathError", App("mkdirerr", StringS, f.x.term(args[0])))
		return Ite(ok, iNil, e)
	}
	externs["path/filepath.Join"] = func(f *Frame, fn *ssa.Function, args []Val, pos token.Pos) Val {
		vs, ok := f.variadic(f.x.term(args[0]), tStr)
		if !ok {
			unsup("filepath.Join of a computed list")
		}
		all := true
		var ls []string
		for _, v := range vs {
			all = all && v.Op == OStr
			if all {
				ls = append(ls, v.S)
			}
		}
		if all {
			return Str(filepath.Join(ls...))
		}
		return App("filepath.Join", StringS, vs...)
	}
	externs["path.Join"] = externs["path/filepath.Join"]
	_ = types.Universe
}
