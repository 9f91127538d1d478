package main

// Models of net/http, contexts and hashing.
//
// The network answers a request in any way: the n'th request made has a
// transport error, status, body and body read error that are arbitrary
// functions of n. What was sent is recorded in ghost state.

import (
	"go/token"
	"go/types"
	"net/textproto"
	"net/url"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const bodyTag = "http.body"

// structOf is the struct type behind a named type of a package the program uses.
func (f *Frame) namedOf(fn *ssa.Function, ptr types.Type) types.Type {
	return ptr.Underlying().(*types.Pointer).Elem()
}

func fieldIndex(t types.Type, name string) int {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	unsup("no field %s in %s", name, t)
	return 0
}

func (f *Frame) newObj(t types.Type, fields map[string]*Term) *Term {
	x := f.x
	r := x.alloc(f.cur)
	v := zero(t)
	for k, fv := range fields {
		v = updPath(v, t, []int{fieldIndex(t, k)}, fv)
	}
	x.write(f.cur, objHeap(t), r, v)
	return r
}

// body of a request: none when nil or http.NoBody
func noBody(b *Term) *Term {
	if b.Op == OCtor && b.DTC != cNil && b.Args[0].Op == OInt {
		dt := tagTypes[int(b.Args[0].N.Int64())]
		return Bool(dt != nil && strings.HasSuffix(dt.String(), "http.noBody"))
	}
	if b.Op == OIte {
		return Ite(b.Args[0], noBody(b.Args[1]), noBody(b.Args[2]))
	}
	return Eq(b, iNil)
}

func bodyNo(b *Term) (*Term, *Term) {
	tag := Int(int64(errTag(bodyTag)))
	return And(Is(b, cInt), Eq(Sel(b, cInt, 0), tag)), Sel(b, cInt, 1)
}

func httpUF(what string, s *Sort, n *Term) *Term {
	r := App("http."+what, s, n)
	if s == IfaceS {
		funEp["http."+what] = 1
	}
	return r
}

func canonKey(k *Term) *Term {
	if k.Op == OStr {
		return Str(textproto.CanonicalMIMEHeaderKey(k.S))
	}
	return App("canonkey", StringS, k)
}

func init() {
	ghostVar("net", IntS, tInt) // HTTP requests made
	ghostArr("reqURL", IntS, tStr)
	ghostArr("reqMethod", IntS, tStr)
	ghostArr("reqCtx", IntS, anyT)
	ghostArr("reqHdr", IntS, types.NewMap(tStr, types.NewSlice(tStr)))
	ghostArr("reqNoBody", IntS, tBool)
	ghostArr("reqClient", IntS, tInt)
	ghostArr("closed", IntS, tBool)
	ghostArr("readAll", IntS, tBool)
	// attributes of request objects
	regHeap("H:req.url", ArrS(IntS, StringS))
	regHeap("H:req.method", ArrS(IntS, StringS))
	regHeap("H:req.ctx", ArrS(IntS, IfaceS))
	regHeap("H:req.nobody", ArrS(IntS, BoolS))

	hdrT := types.NewMap(tStr, types.NewSlice(tStr))
	newReq := func(f *Frame, fn *ssa.Function, ctx, method, u, body *Term) Val {
		x := f.x
		rt := f.namedOf(fn, fn.Signature.Results().At(0).Type())
		bad := Or(Eq(ctx, iNil), App("http.badreq", BoolS, method, u))
		hdr := x.newMap(f.cur, hdrT)
		r := f.newObj(rt, map[string]*Term{"Header": hdr, "Method": method, "Body": Ite(noBody(body), iNil, body)})
		x.write(f.cur, "H:req.url", r, u)
		x.write(f.cur, "H:req.method", r, Ite(Eq(method, Str("")), Str("GET"), method))
		x.write(f.cur, "H:req.ctx", r, ctx)
		x.write(f.cur, "H:req.nobody", r, noBody(body))
		e := f.newError("url.Error", App("http.badreq.text", StringS, method, u))
		x.trust("net/http: requests carry what they were created with; the server's and network's answers are arbitrary")
		return Tuple{Ite(bad, Int(0), r), Ite(bad, e, iNil)}
	}
	externs["net/http.NewRequestWithContext"] = func(f *Frame, fn *ssa.Function, args []Val, pos token.Pos) Val {
		t := func(i int) *Term { return f.x.term(args[i]) }
		return newReq(f, fn, t(0), t(1), t(2), t(3))
	}
	externs["net/http.NewRequest"] = func(f *Frame, fn *ssa.Function, args []Val, pos token.Pos) Val {
		t := func(i int) *Term { return f.x.term(args[i]) }
		return newReq(f, fn, ctxBackground(), t(0), t(1), t(2))
	}
	externs["(*net/http.Request).WithContext"] = func(f *Frame, fn *ssa.Function, args []Val, pos token.Pos) Val {
		x := f.x
		r0, ctx := x.term(args[0]), x.term(args[1])
		x.oblige(f.curR, Neq(r0, Int(0)), "safety", f.loc()+" non-nil request", pos)
		rt := f.namedOf(fn, fn.Signature.Results().At(0).Type())
		r := x.alloc(f.cur)
		x.write(f.cur, objHeap(rt), r, Select(x.heap(f.cur, objHeap(rt)), r0))
		for _, k := range []string{"H:req.url", "H:req.method", "H:req.nobody"} {
			x.write(f.cur, k, r, Select(x.heap(f.cur, k), r0))
		}
		x.write(f.cur, "H:req.ctx", r, ctx)
		return r
	}
	do := func(f *Frame, fn *ssa.Function, cl, req *Term, pos token.Pos) Val {
		x := f.x
		x.oblige(f.curR, Neq(req, Int(0)), "safety", f.loc()+" non-nil HTTP request", pos)
		n := f.ghost("net")
		f.setGhost("net", AddI(n, 1))
		at := func(k string) *Term { return Select(x.heap(f.cur, k), req) }
		qt := f.namedOf(fn, fn.Signature.Params().At(0).Type())
		q := Select(x.heap(f.cur, objHeap(qt)), req)
		rec := func(g string, v *Term) { f.setGhost(g, Store(f.ghost(g), n, v)) }
		rec("reqURL", at("H:req.url"))
		rec("reqMethod", fieldSel(q, qt, fieldIndex(qt, "Method")))
		rec("reqCtx", at("H:req.ctx"))
		rec("reqHdr", fieldSel(q, qt, fieldIndex(qt, "Header")))
		rec("reqNoBody", And(at("H:req.nobody"), Eq(fieldSel(q, qt, fieldIndex(qt, "Body")), iNil)))
		rec("reqClient", cl)
		f.tick()
		rt := f.namedOf(fn, fn.Signature.Results().At(0).Type())
		hdr := x.newMap(f.cur, hdrT)
		r := f.newObj(rt, map[string]*Term{
			"StatusCode": httpUF("status", IntS, n),
			"Status":     httpUF("statustext", StringS, n),
			"Header":     hdr,
			"Body":       MkCtor(IfaceS, cInt, Int(int64(errTag(bodyTag))), n),
		})
		failed := httpUF("failed", BoolS, n)
		e := f.newError("url.Error", httpUF("failtext", StringS, n))
		return Tuple{Ite(failed, Int(0), r), Ite(failed, e, iNil)}
	}
	externs["(*net/http.Client).Do"] = func(f *Frame, fn *ssa.Function, args []Val, pos token.Pos) Val {
		cl := f.x.term(args[0])
		f.x.oblige(f.curR, Neq(cl, Int(0)), "safety", f.loc()+" non-nil HTTP client", pos)
		return do(f, fn, cl, f.x.term(args[1]), pos)
	}
	closeB := func(f *Frame, fn *ssa.Function, args []Val, pos token.Pos) Val {
		b := f.x.term(args[0])
		is, n := bodyNo(b)
		g := f.ghost("closed")
		f.setGhost("closed", Ite(is, Store(g, n, True), g))
		return Ite(App("http.closeok", BoolS, n), iNil, f.newError("close", Str("close")))
	}
	for _, nm := range []string{"iface io.ReadCloser.Close", "iface io.Closer.Close"} {
		externs[nm] = closeB
	}
	externs["io.ReadAll"] = func(f *Frame, fn *ssa.Function, args []Val, pos token.Pos) Val {
		b := f.x.term(args[0])
		is, n := bodyNo(b)
		ok := Ite(is, httpUF("readok", BoolS, n), Fresh("readok", BoolS))
		d := Ite(is, Ite(httpUF("readok", BoolS, n), httpUF("body", StringS, n), httpUF("part", StringS, n)), Fresh("read", StringS))
		g := f.ghost("readAll")
		f.setGhost("readAll", Ite(is, Store(g, n, True), g))
		e := f.newError("read", httpUF("readtext", StringS, n))
		return Tuple{f.newBytes(d), Ite(ok, iNil, e)}
	}
	hdr := func(add bool) externFn {
		return func(f *Frame, fn *ssa.Function, args []Val, pos token.Pos) Val {
			x := f.x
			h, k, v := x.term(args[0]), canonKey(x.term(args[1])), x.term(args[2])
			x.oblige(f.curR, Neq(h, Int(0)), "safety", f.loc()+" non-nil header map", pos)
			one := x.alloc(f.cur)
			x.write(f.cur, elemHeap(tStr), one, Store(Select(x.heap(f.cur, elemHeap(tStr)), one), Int(0), v))
			s := mkSlice(one, Int(0), Int(1), Int(1))
			if add {
				s = x.appendSlice(f.cur, tStr, x.mapGet(f.cur, hdrT, h, k), s)
			}
			x.mapStore(f.cur, hdrT, h, k, s)
			return Tuple{}
		}
	}
	externs["(net/http.Header).Add"] = hdr(true)
	externs["(net/http.Header).Set"] = hdr(false)
	externs["(net/http.Header).Get"] = func(f *Frame, fn *ssa.Function, args []Val, pos token.Pos) Val {
		return Fresh("header", StringS)
	}

	// hashing
	ghostVar("cacheV", IntS, tInt) // calls made on registry caches
	ghostVar("loads", IntS, tInt)
	ghostVar("loadName", StringS, tStr)
	ghostVar("saves", IntS, tInt)
	ghostVar("saveName", StringS, tStr)
	ghostVar("saveData", StringS, tStr)
	ghostVar("saveTo", IfaceS, anyT)
	ghostVar("asks", IntS, tInt)
	ghostVar("asked", IfaceS, anyT)
	ghostVar("askedQ", IntS, tInt)
	ghostVar("askedText", StringS, tStr)
	ghostVar("askedType", IntS, tInt)
	regHeap("H:hash", ArrS(IntS, StringS))
	externs["crypto/sha256.New"] = func(f *Frame, fn *ssa.Function, args []Val, pos token.Pos) Val {
		r := f.x.alloc(f.cur)
		f.x.write(f.cur, "H:hash", r, Str(""))
		return MkCtor(IfaceS, cPtr, Int(int64(errTag("sha256.digest"))), r)
	}
	externs["iface hash.Hash.Write"] = func(f *Frame, fn *ssa.Function, args []Val, pos token.Pos) Val {
		x := f.x
		r := Sel(x.term(args[0]), cPtr, 1)
		b := f.bytesArg(args[1])
		x.write(f.cur, "H:hash", r, SCat(Select(x.heap(f.cur, "H:hash"), r), b))
		return Tuple{SLen(b), iNil}
	}
	externs["iface hash.Hash.Sum"] = func(f *Frame, fn *ssa.Function, args []Val, pos token.Pos) Val {
		x := f.x
		r := Sel(x.term(args[0]), cPtr, 1)
		return f.newBytes(SCat(f.bytesArg(args[1]), sha256Of(Select(x.heap(f.cur, "H:hash"), r))))
	}
	externs["encoding/hex.EncodeToString"] = func(f *Frame, fn *ssa.Function, args []Val, pos token.Pos) Val {
		b := f.bytesArg(args[0])
		h := App("hex", StringS, b)
		addFact(h, Eq(SLen(h), Mul(Int(2), SLen(b))))
		return h
	}

	externs["net/url.Parse"] = func(f *Frame, fn *ssa.Function, args []Val, pos token.Pos) Val {
		r := f.pureCall("net/url.Parse", fn.Signature, args)
		if t := f.x.term(args[0]); t.Op == OStr {
			_, err := url.Parse(t.S)
			f.x.assume(f.curR, Eq(Eq(f.x.term(r.(Tuple)[1]), iNil), Bool(err == nil)), "net/url.Parse of a constant")
		}
		return r
	}

	// contexts
	externs["context.Background"] = func(f *Frame, fn *ssa.Function, args []Val, pos token.Pos) Val { return ctxBackground() }
	externs["context.TODO"] = func(f *Frame, fn *ssa.Function, args []Val, pos token.Pos) Val {
		return MkCtor(IfaceS, cInt, Int(int64(errTag("context.todo"))), Int(0))
	}
	ctxWith := func(nm string) externFn {
		return func(f *Frame, fn *ssa.Function, args []Val, pos token.Pos) Val {
			x := f.x
			x.oblige(f.curR, Neq(x.term(args[0]), iNil), "safety", f.loc()+" non-nil parent context", pos)
			c := App("ctx."+nm, IfaceS, x.term(args[0]), x.term(args[1]))
			funEp["ctx."+nm] = 1
			addFact(c, Neq(c, iNil))
			x.trust("context.WithTimeout/WithDeadline: a derived context that depends on parent and limit; cancelling has no effect on the data under proof")
			return Tuple{c, &Closure{Fn: nil}}
		}
	}
	externs["context.WithTimeout"] = ctxWith("timeout")
	externs["context.WithDeadline"] = ctxWith("deadline")
	externs["context.WithCancel"] = func(f *Frame, fn *ssa.Function, args []Val, pos token.Pos) Val {
		return Tuple{f.x.term(args[0]), &Closure{Fn: nil}}
	}
	externs["iface context.Context.Err"] = func(f *Frame, fn *ssa.Function, args []Val, pos token.Pos) Val {
		f.tick()
		funEp["ctx.err"] = 1
		return App("ctx.err", IfaceS, f.x.term(args[0]), f.ghost("now"))
	}
}

func ctxBackground() *Term {
	return MkCtor(IfaceS, cInt, Int(int64(errTag("context.background"))), Int(0))
}

func sha256Of(s *Term) *Term {
	h := App("sha256", StringS, s)
	addFact(h, Eq(SLen(h), Int(32)))
	return h
}
