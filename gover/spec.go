package main

// Contract files: parsing and evaluation of specification expressions.
//
// Expressions use Go syntax plus  A ==> B, old(e), forall(i, lo, hi, e),
// exists(i, lo, hi, e), forallk(k, "string", e), has(m, k), ite(c, a, b), and the
// builtin and declared specification functions below.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Clause struct {
	Src   string
	Expr  ast.Expr
	Label string
	Props []string
}

type GhostDecl struct{ Name, Type string }

type FuncSpec struct {
	Name     string
	File     string
	Props    []string
	Ghosts   []GhostDecl
	Lets     []LetDecl
	Requires []Clause
	Ensures  []Clause
	Modifies []string
	ModAll   bool
	HasMod   bool
	LoopInv  []LoopTmpl
	Inline   []string // callees to inline even though they have a contract
	Use      map[string][]string
	Opts     map[string]bool
	Sets     []GhostSet
	Trusted  bool
	Helper   bool // an internal contract: inlined instead when it does not verify
}

// GhostSet is ghost code run at the function's entry: g.Name[Idx] := Val.
type GhostSet struct {
	Name     string
	Idx, Val ast.Expr
	End      bool
}

type LetDecl struct {
	Name string
	Expr ast.Expr
	Old  bool
	Src  string
}

type LoopTmpl struct {
	Vars []GhostDecl
	Clause
}

type SpecFun struct {
	Name     string
	Params   []GhostDecl
	Ret      string
	Body     ast.Expr
	Rec      bool
	Uninterp bool
	Opaque   bool // unfolded only under "option reveal:<name>"
	Pkg      string
}

type Axiom struct {
	Vars []GhostDecl
	Clause
	Pat string
}

type SpecDB struct {
	Funcs       map[string]*FuncSpec
	Order       []string
	Funs        map[string]*SpecFun
	Axioms      []Axiom
	Assumptions []string
}

func splitTop(s string, sep string) []string {
	var out []string
	depth := 0
	inStr := byte(0)
	last := 0
	for i := 0; i < len(s); i++ {
		c := s[i]
		if inStr != 0 {
			if c == '\\' && inStr == '"' {
				i++
			} else if c == inStr {
				inStr = 0
			}
			continue
		}
		switch c {
		case '"', '`', '\'':
			inStr = c
		case '(', '[', '{':
			depth++
		case ')', ']', '}':
			depth--
		}
		if depth == 0 && strings.HasPrefix(s[i:], sep) {
			out = append(out, s[last:i])
			i += len(sep) - 1
			last = i + 1
		}
	}
	return append(out, s[last:])
}

// desugar rewrites A ==> B and A <==> B (lowest precedence) into calls.
func desugar(s string) string {
	// innermost groups first
	var b strings.Builder
	i := 0
	for i < len(s) {
		c := s[i]
		if c == '"' || c == '`' || c == '\'' {
			j := i + 1
			for j < len(s) && s[j] != c {
				if s[j] == '\\' && c != '`' {
					j++
				}
				j++
			}
			b.WriteString(s[i : j+1])
			i = j + 1
			continue
		}
		if c == '(' || c == '[' {
			depth := 0
			j := i
			inStr := byte(0)
			for ; j < len(s); j++ {
				d := s[j]
				if inStr != 0 {
					if d == '\\' && inStr != '`' {
						j++
					} else if d == inStr {
						inStr = 0
					}
					continue
				}
				if d == '"' || d == '`' || d == '\'' {
					inStr = d
				} else if d == '(' || d == '[' {
					depth++
				} else if d == ')' || d == ']' {
					depth--
					if depth == 0 {
						break
					}
				}
			}
			if j >= len(s) {
				panic("unbalanced spec expression: " + s)
			}
			b.WriteByte(c)
			var parts []string
			for _, p := range splitTop(s[i+1:j], ",") {
				parts = append(parts, desugar(p))
			}
			b.WriteString(strings.Join(parts, ","))
			b.WriteByte(s[j])
			i = j + 1
			continue
		}
		b.WriteByte(c)
		i++
	}
	r := b.String()
	if ps := splitTop(r, "<==>"); len(ps) == 2 {
		return "iff(" + desugarImp(ps[0]) + "," + desugarImp(ps[1]) + ")"
	}
	return desugarImp(r)
}

func desugarImp(r string) string {
	ps := splitTop(r, "==>")
	out := ps[len(ps)-1]
	for k := len(ps) - 2; k >= 0; k-- {
		out = "imp(" + ps[k] + "," + out + ")"
	}
	return out
}

func parseExpr(src string) ast.Expr {
	d := desugar(src)
	e, err := parser.ParseExpr(d)
	if err != nil {
		panic(fmt.Sprintf("spec expression %q: %v", src, err))
	}
	return e
}

func parseDecls(s string) []GhostDecl {
	var out []GhostDecl
	s = strings.TrimSpace(s)
	if s == "" {
		return nil
	}
	for _, p := range splitTop(s, ",") {
		f := strings.SplitN(strings.TrimSpace(p), " ", 2)
		out = append(out, GhostDecl{f[0], strings.TrimSpace(f[1])})
	}
	return out
}

func LoadSpecs(dir string) *SpecDB {
	db := &SpecDB{Funcs: map[string]*FuncSpec{}, Funs: map[string]*SpecFun{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, fn := range files {
		data, err := os.ReadFile(fn)
		if err != nil {
			panic(err)
		}
		db.parse(filepath.Base(fn), string(data))
	}
	return db
}

func (db *SpecDB) parse(file, text string) {
	// join continuation lines (trailing backslash or deeper-indented "|" start)
	var lines []string
	for _, l := range strings.Split(text, "\n") {
		t := strings.TrimSpace(l)
		if t == "" || strings.HasPrefix(t, "//") {
			continue
		}
		if strings.HasPrefix(t, "| ") && len(lines) > 0 {
			lines[len(lines)-1] += " " + t[2:]
			continue
		}
		lines = append(lines, t)
	}
	var cur *FuncSpec
	pkg := ""
	props := []string{}
	for _, l := range lines {
		kw, rest, _ := strings.Cut(l, " ")
		rest = strings.TrimSpace(rest)
		label := ""
		var cprops []string
		if strings.HasPrefix(rest, "[") && (kw == "ensures" || kw == "requires" || kw == "loop") {
			e := strings.Index(rest, "]")
			for _, w := range strings.Fields(rest[1:e]) {
				if len(w) == 3 && w[0] == 'C' && w[1] >= '0' && w[1] <= '9' {
					cprops = append(cprops, w)
				} else {
					if label != "" {
						label += " "
					}
					label += w
				}
			}
			rest = strings.TrimSpace(rest[e+1:])
		}
		switch kw {
		case "package":
			pkg = rest
			cur = nil
		case "props":
			props = strings.Fields(rest)
			cur = nil
		case "assumption":
			db.Assumptions = append(db.Assumptions, rest)
		case "func", "extern", "helper":
			cur = &FuncSpec{Name: rest, File: file, Props: props, Opts: map[string]bool{}, Trusted: kw == "extern", Helper: kw == "helper"}
			if _, dup := db.Funcs[rest]; dup {
				panic("duplicate contract for " + rest)
			}
			db.Funcs[rest] = cur
			db.Order = append(db.Order, rest)
		case "prop":
			cur.Props = strings.Fields(rest)
		case "ghost":
			cur.Ghosts = append(cur.Ghosts, parseDecls(rest)...)
		case "let", "letold":
			n, e, _ := strings.Cut(rest, "=")
			cur.Lets = append(cur.Lets, LetDecl{strings.TrimSpace(n), parseExpr(e), kw == "letold", e})
		case "set", "setend": // set g.name[idx] := value (ghost code at entry, at the end)
			l, r, ok := strings.Cut(rest, ":=")
			l = strings.TrimSpace(l)
			k := strings.Index(l, "[")
			if !ok || k < 0 || !strings.HasPrefix(l, "g.") || !strings.HasSuffix(l, "]") {
				specErr("set g.name[index] := value")
			}
			cur.Sets = append(cur.Sets, GhostSet{l[2:k], parseExpr(l[k+1 : len(l)-1]), parseExpr(r), kw == "setend"})
		case "requires":
			cur.Requires = append(cur.Requires, Clause{rest, parseExpr(rest), label, cprops})
		case "ensures":
			cur.Ensures = append(cur.Ensures, Clause{rest, parseExpr(rest), label, cprops})
		case "modifies":
			cur.HasMod = true
			if rest == "everything" {
				cur.ModAll = true
			} else if rest != "nothing" {
				for _, m := range splitTop(rest, ",") {
					cur.Modifies = append(cur.Modifies, strings.TrimSpace(m))
				}
			}
		case "loop":
			// loop {i int, s string} expr
			var vars []GhostDecl
			if strings.HasPrefix(rest, "{") {
				e := strings.Index(rest, "}")
				vars = parseDecls(rest[1:e])
				rest = strings.TrimSpace(rest[e+1:])
			}
			cur.LoopInv = append(cur.LoopInv, LoopTmpl{vars, Clause{rest, parseExpr(rest), label, cprops}})
		case "option":
			for _, o := range strings.Fields(rest) {
				cur.Opts[o] = true
			}
		case "use": // use CALLEE :: text; text — assume only these clauses of its contract
			nm, cl, ok := strings.Cut(rest, "::")
			if !ok {
				specErr("use %s", rest)
			}
			if cur.Use == nil {
				cur.Use = map[string][]string{}
			}
			nm = strings.TrimSpace(nm)
			cur.Use[nm] = []string{}
			for _, u := range strings.Split(cl, ";") {
				if u = strings.TrimSpace(u); u != "" {
					cur.Use[nm] = append(cur.Use[nm], u)
				}
			}
		case "inline":
			cur.Inline = append(cur.Inline, strings.Fields(rest)...)
		case "define", "recursive", "uninterpreted", "opaque":
			cur = nil
			// name(params) ret = body
			op := strings.Index(rest, "(")
			depth, cp := 0, -1
			for i := op; i < len(rest); i++ {
				if rest[i] == '(' {
					depth++
				} else if rest[i] == ')' {
					depth--
					if depth == 0 {
						cp = i
						break
					}
				}
			}
			f := &SpecFun{Name: rest[:op], Params: parseDecls(rest[op+1 : cp]), Rec: kw == "recursive" || kw == "opaque", Opaque: kw == "opaque", Uninterp: kw == "uninterpreted", Pkg: pkg}
			tail := strings.TrimSpace(rest[cp+1:])
			if kw == "uninterpreted" {
				f.Ret = tail
			} else {
				r, b, ok := strings.Cut(tail, "=")
				if !ok {
					panic("define without body: " + l)
				}
				f.Ret = strings.TrimSpace(r)
				f.Body = parseExpr(b)
			}
			db.Funs[f.Name] = f
		default:
			panic(file + ": unknown spec line: " + l)
		}
		if cur != nil && cur.Opts["pkg:"] {
			_ = pkg
		}
	}
}

// ---- evaluation

type SVal struct {
	T   *Term
	Typ types.Type
}

type SCtx struct {
	x     *Exec
	st    *State
	old   *State
	pre   *State // state at the entry of the enclosing loop
	env   map[string]*SVal
	pkg   *types.Package
	frame *Frame
	depth int
	binds int
	hyp   *Term // context for bound reasoning (unused)
}

func (c *SCtx) with(env map[string]*SVal) *SCtx {
	n := *c
	n.env = map[string]*SVal{}
	for k, v := range c.env {
		n.env[k] = v
	}
	for k, v := range env {
		n.env[k] = v
	}
	return &n
}

type SpecErr struct{ Msg string }

func specErr(f string, a ...any) { panic(SpecErr{fmt.Sprintf(f, a...)}) }

func (c *SCtx) Bool(e ast.Expr) *Term {
	v := c.eval(e)
	if v.T == nil || v.T.Sort != BoolS {
		specErr("not a boolean: %s", exprStr(e))
	}
	return v.T
}

func exprStr(e ast.Expr) string {
	return types.ExprString(e)
}

var tInt, tStr, tBool = types.Typ[types.Int], types.Typ[types.String], types.Typ[types.Bool]

// typeByName parses a type in the context of the repository's packages.
func (v *Verifier) typeByName(s string, pkg *types.Package) types.Type {
	switch s {
	case "int":
		return tInt
	case "string":
		return tStr
	case "bool":
		return tBool
	case "any":
		return types.Universe.Lookup("any").Type()
	case "real", "float64":
		return types.Typ[types.Float64]
	case "ref":
		return types.NewPointer(types.NewStruct(nil, nil))
	case "error":
		return types.Universe.Lookup("error").Type()
	}
	key := s
	if pkg != nil {
		key = pkg.Path() + "|" + s
	}
	if t, ok := v.typeMemo[key]; ok {
		return t
	}
	e, err := parser.ParseExpr(s)
	if err != nil {
		specErr("type %q: %v", s, err)
	}
	t := v.typeExpr(e, pkg)
	v.typeMemo[key] = t
	return t
}

func (v *Verifier) typeExpr(e ast.Expr, pkg *types.Package) types.Type {
	switch e := e.(type) {
	case *ast.Ident:
		if pkg != nil {
			if o := pkg.Scope().Lookup(e.Name); o != nil {
				return o.Type()
			}
		}
		if o := types.Universe.Lookup(e.Name); o != nil {
			return o.Type()
		}
		specErr("unknown type %s", e.Name)
	case *ast.SelectorExpr:
		p := v.pkgByName(e.X.(*ast.Ident).Name, pkg)
		if p != nil {
			if o := p.Scope().Lookup(e.Sel.Name); o != nil {
				return o.Type()
			}
		}
		specErr("unknown type %s", exprStr(e))
	case *ast.StarExpr:
		return types.NewPointer(v.typeExpr(e.X, pkg))
	case *ast.ArrayType:
		return types.NewSlice(v.typeExpr(e.Elt, pkg))
	case *ast.MapType:
		return types.NewMap(v.typeExpr(e.Key, pkg), v.typeExpr(e.Value, pkg))
	case *ast.ParenExpr:
		return v.typeExpr(e.X, pkg)
	case *ast.InterfaceType:
		return types.Universe.Lookup("any").Type()
	}
	specErr("type expression %s", exprStr(e))
	return nil
}

func (v *Verifier) pkgByName(n string, from *types.Package) *types.Package {
	switch n {
	case "rdap":
		return v.typesPkg(modPath)
	case "bootstrap":
		return v.typesPkg(modPath + "/bootstrap")
	case "cache":
		return v.typesPkg(modPath + "/bootstrap/cache")
	case "sandbox":
		return v.typesPkg(modPath + "/sandbox")
	case "url":
		return v.typesPkg("net/url")
	case "http":
		return v.typesPkg("net/http")
	case "json":
		return v.typesPkg("encoding/json")
	}
	return v.typesPkg(n)
}

func (v *Verifier) typesPkg(path string) *types.Package {
	if p, ok := v.pkgs[path]; ok {
		return p
	}
	for _, p := range v.prog.AllPackages() {
		if p.Pkg.Path() == path {
			v.pkgs[path] = p.Pkg
			return p.Pkg
		}
	}
	return nil
}

func (c *SCtx) lookupIdent(name string) *SVal {
	if v, ok := c.env[name]; ok {
		return v
	}
	switch name {
	case "true":
		return &SVal{True, tBool}
	case "false":
		return &SVal{False, tBool}
	case "nil":
		return &SVal{nil, types.Typ[types.UntypedNil]}
	}
	if v, ok := c.x.ghosts[name]; ok {
		return v
	}
	if c.pkg != nil {
		if v := c.pkgObj(c.pkg, name); v != nil {
			return v
		}
	}
	return nil
}

func (c *SCtx) pkgObj(p *types.Package, name string) *SVal {
	switch o := p.Scope().Lookup(name).(type) {
	case *types.Const:
		t := constVal(ssa.NewConst(o.Val(), o.Type())).(*Term)
		typ := o.Type()
		if b, ok := typ.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
			typ = types.Default(typ)
		}
		return &SVal{t, typ}
	case *types.Var:
		for _, sp := range c.x.V.prog.AllPackages() {
			if sp.Pkg == p {
				if g, ok := sp.Members[name].(*ssa.Global); ok {
					if t := c.x.V.globalValue(c.x, g); t != nil {
						if tt, ok := t.(*Term); ok {
							return &SVal{tt, o.Type()}
						}
					}
					pl := &Place{Heap: objHeap(o.Type()), Ref: Int(c.x.V.globalRef(g)), Root: o.Type(), T: o.Type()}
					return &SVal{c.x.load(c.st, pl), o.Type()}
				}
			}
		}
	}
	return nil
}

func (c *SCtx) coerceNil(a, b *SVal) (*SVal, *SVal) {
	if a.T == nil && b.T != nil {
		a = &SVal{nilOf(b), b.Typ}
	}
	if b.T == nil && a.T != nil {
		b = &SVal{nilOf(a), a.Typ}
	}
	// box when comparing an interface with a concrete value
	if a.T.Sort == IfaceS && b.T.Sort != IfaceS {
		b = &SVal{c.x.makeIface(b.T, b.Typ), a.Typ}
	} else if b.T.Sort == IfaceS && a.T.Sort != IfaceS {
		a = &SVal{c.x.makeIface(a.T, a.Typ), b.Typ}
	}
	if a.T.Sort == RealS && b.T.Sort == IntS {
		b = &SVal{toReal(b.T), a.Typ}
	} else if b.T.Sort == RealS && a.T.Sort == IntS {
		a = &SVal{toReal(a.T), b.Typ}
	}
	return a, b
}

func toReal(t *Term) *Term {
	if t.Op == OInt {
		return realConst(constant.ToFloat(constant.Make(t.N)))
	}
	return B("to_real", RealS, t)
}

func nilOf(v *SVal) *Term {
	return zeroOfSort(v.T.Sort)
}

func (c *SCtx) eval(e ast.Expr) *SVal {
	x := c.x
	switch e := e.(type) {
	case *ast.ParenExpr:
		return c.eval(e.X)
	case *ast.Ident:
		v := c.lookupIdent(e.Name)
		if v == nil {
			specErr("unknown name %s", e.Name)
		}
		return v
	case *ast.BasicLit:
		switch e.Kind {
		case token.INT:
			n, _ := new(big.Int).SetString(e.Value, 0)
			return &SVal{BigInt(n), tInt}
		case token.FLOAT:
			return &SVal{realConst(constant.MakeFromLiteral(e.Value, token.FLOAT, 0)), types.Typ[types.Float64]}
		case token.STRING:
			s, err := strconv.Unquote(e.Value)
			if err != nil {
				specErr("string literal %s", e.Value)
			}
			return &SVal{Str(s), tStr}
		case token.CHAR:
			r, _, _, err := strconv.UnquoteChar(e.Value[1:len(e.Value)-1], '\'')
			if err != nil {
				specErr("char literal %s", e.Value)
			}
			return &SVal{Int(int64(r)), tInt}
		}
	case *ast.UnaryExpr:
		v := c.eval(e.X)
		switch e.Op {
		case token.NOT:
			return &SVal{Not(v.T), tBool}
		case token.SUB:
			if v.T.Sort == RealS {
				return &SVal{B("-", RealS, v.T), v.Typ}
			}
			return &SVal{Sub(Int(0), v.T), v.Typ}
		}
	case *ast.BinaryExpr:
		return c.binary(e)
	case *ast.StarExpr:
		v := c.eval(e.X)
		pt := v.Typ.Underlying().(*types.Pointer)
		pl := &Place{Heap: objHeap(pt.Elem()), Ref: v.T, Root: pt.Elem(), T: pt.Elem()}
		return &SVal{x.load(c.st, pl), pt.Elem()}
	case *ast.SelectorExpr:
		if id, ok := e.X.(*ast.Ident); ok && c.lookupIdent(id.Name) == nil {
			if id.Name == "g" {
				return c.ghostState(e.Sel.Name)
			}
			if p := x.V.pkgByName(id.Name, c.pkg); p != nil {
				if v := c.pkgObj(p, e.Sel.Name); v != nil {
					return v
				}
			}
		}
		return c.field(c.eval(e.X), e.Sel.Name)
	case *ast.IndexExpr:
		return c.index(c.eval(e.X), c.eval(e.Index))
	case *ast.SliceExpr:
		v := c.eval(e.X)
		lo := Int(0)
		if e.Low != nil {
			lo = c.eval(e.Low).T
		}
		if v.T.Sort == StringS {
			hi := SLen(v.T)
			if e.High != nil {
				hi = c.eval(e.High).T
			}
			return &SVal{SSub(v.T, lo, Sub(hi, lo)), v.Typ}
		}
		hi := sLen(v.T)
		if e.High != nil {
			hi = c.eval(e.High).T
		}
		return &SVal{mkSlice(sRef(v.T), Add(sOff(v.T), lo), Sub(hi, lo), Sub(sCap(v.T), lo)), v.Typ}
	case *ast.CallExpr:
		return c.call(e)
	}
	specErr("unsupported expression %s", exprStr(e))
	return nil
}

func (c *SCtx) binary(e *ast.BinaryExpr) *SVal {
	switch e.Op {
	case token.LAND:
		a := c.Bool(e.X)
		if a == False {
			return &SVal{False, tBool}
		}
		return &SVal{And(a, c.Bool(e.Y)), tBool}
	case token.LOR:
		a := c.Bool(e.X)
		if a == True {
			return &SVal{True, tBool}
		}
		return &SVal{Or(a, c.Bool(e.Y)), tBool}
	}
	a, b := c.eval(e.X), c.eval(e.Y)
	switch e.Op {
	case token.EQL, token.NEQ:
		a, b = c.coerceNil(a, b)
		var r *Term
		if a.T.Sort == SliceS && (b.T == nilSlice || a.T == nilSlice) {
			r = Eq(sRef(a.T), sRef(b.T))
		} else {
			if a.T.Sort != b.T.Sort {
				specErr("comparison of %s and %s in %s", a.T.Sort.Name, b.T.Sort.Name, exprStr(e))
			}
			r = Eq(a.T, b.T)
		}
		if e.Op == token.NEQ {
			r = Not(r)
		}
		return &SVal{r, tBool}
	}
	a, b = c.coerceNil(a, b)
	s, t := a.T, b.T
	switch e.Op {
	case token.ADD:
		if s.Sort == StringS {
			return &SVal{SCat(s, t), tStr}
		}
		return &SVal{Add(s, t), a.Typ}
	case token.SUB:
		return &SVal{Sub(s, t), a.Typ}
	case token.MUL:
		return &SVal{Mul(s, t), a.Typ}
	case token.QUO:
		return &SVal{Div(s, t), a.Typ}
	case token.REM:
		return &SVal{Mod(s, t), a.Typ}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if s.Sort == RealS {
			op := map[token.Token]string{token.LSS: "<", token.LEQ: "<=", token.GTR: ">", token.GEQ: ">="}[e.Op]
			return &SVal{B(op, BoolS, s, t), tBool}
		}
		switch e.Op {
		case token.LSS:
			return &SVal{Lt(s, t), tBool}
		case token.LEQ:
			return &SVal{Le(s, t), tBool}
		case token.GTR:
			return &SVal{Lt(t, s), tBool}
		default:
			return &SVal{Le(t, s), tBool}
		}
	}
	specErr("operator %s", e.Op)
	return nil
}

func (c *SCtx) ghostState(name string) *SVal {
	k := "g:" + name
	s, ok := heapSortOf[k]
	if !ok {
		specErr("unknown ghost state %s", name)
	}
	_ = s
	t := ghostTypes[k]
	return &SVal{c.x.heap(c.st, k), t}
}

// field evaluates v.name, following pointers and embedded structs.
func (c *SCtx) field(v *SVal, name string) *SVal {
	obj, path, _ := types.LookupFieldOrMethod(v.Typ, true, c.x.V.anyPkgFor(v.Typ, c.pkg), name)
	fv, ok := obj.(*types.Var)
	if !ok {
		specErr("no field %s in %s", name, v.Typ)
	}
	cur := v
	for _, i := range path {
		t := cur.Typ
		if p, ok := t.Underlying().(*types.Pointer); ok {
			pl := &Place{Heap: objHeap(p.Elem()), Ref: cur.T, Root: p.Elem(), T: p.Elem()}
			cell := c.x.load(c.st, pl)
			cur = &SVal{cell, p.Elem()}
			t = p.Elem()
		}
		ft := fieldType(t, i)
		cur = &SVal{wf(fieldSel(cur.T, t, i), ft), ft}
	}
	_ = fv
	return cur
}

func (v *Verifier) anyPkgFor(t types.Type, def *types.Package) *types.Package {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg()
	}
	return def
}

func (c *SCtx) index(v, i *SVal) *SVal {
	x := c.x
	switch u := v.Typ.Underlying().(type) {
	case *types.Slice:
		if isByte(u.Elem()) {
			return &SVal{strByte(x.bytesOf(c.st, v.T), i.T), tInt}
		}
		r := Select(Select(x.heap(c.st, elemHeap(u.Elem())), sRef(v.T)), Add(sOff(v.T), i.T))
		return &SVal{wf(r, u.Elem()), u.Elem()}
	case *types.Map:
		k := i.T
		if sortOf(u.Key()) == IfaceS && k.Sort != IfaceS {
			k = x.makeIface(k, i.Typ)
		}
		return &SVal{x.mapGet(c.st, u, v.T, k), u.Elem()}
	case *types.Basic:
		return &SVal{strByte(v.T, i.T), tInt}
	case *types.Array:
		return &SVal{Select(v.T, i.T), u.Elem()}
	}
	specErr("index of %s", v.Typ)
	return nil
}

func (c *SCtx) args(e *ast.CallExpr) []*SVal {
	out := make([]*SVal, len(e.Args))
	for i, a := range e.Args {
		out[i] = c.eval(a)
	}
	return out
}

func litStr(e ast.Expr) string {
	if b, ok := e.(*ast.BasicLit); ok && b.Kind == token.STRING {
		s, _ := strconv.Unquote(b.Value)
		return s
	}
	return exprStr(e)
}

func (c *SCtx) call(e *ast.CallExpr) *SVal {
	x := c.x
	name := ""
	switch f := e.Fun.(type) {
	case *ast.Ident:
		name = f.Name
	case *ast.SelectorExpr:
		name = exprStr(f)
	default:
		specErr("call %s", exprStr(e))
	}
	b := func(t *Term) *SVal { return &SVal{t, tBool} }
	switch name {
	case "imp":
		a := c.Bool(e.Args[0])
		if a == False {
			return b(True)
		}
		return b(Implies(a, c.Bool(e.Args[1])))
	case "iff":
		return b(Eq(c.Bool(e.Args[0]), c.Bool(e.Args[1])))
	case "ite":
		cc := c.Bool(e.Args[0])
		p, q := c.eval(e.Args[1]), c.eval(e.Args[2])
		p, q = c.coerceNil(p, q)
		return &SVal{Ite(cc, p.T, q.T), p.Typ}
	case "old":
		n := *c
		n.st = c.old
		return n.eval(e.Args[0])
	case "pre":
		if c.pre == nil {
			specErr("pre outside a loop")
		}
		n := *c
		n.st = c.pre
		return n.eval(e.Args[0])
	case "forall", "exists":
		id := e.Args[0].(*ast.Ident).Name
		c.binds++
		bv := Bound(fmt.Sprintf("%s?%d", id, c.depth), IntS)
		lo, hi := c.eval(e.Args[1]).T, c.eval(e.Args[2]).T
		n := c.with(map[string]*SVal{id: {bv, tInt}})
		n.depth++
		body := n.Bool(e.Args[3])
		rng := And(Le(lo, bv), Lt(bv, hi))
		if name == "forall" {
			return b(Forall([]*Term{bv}, Implies(rng, body)))
		}
		return b(Exists([]*Term{bv}, And(rng, body)))
	case "forallk", "existsk":
		id := e.Args[0].(*ast.Ident).Name
		t := x.V.typeByName(litStr(e.Args[1]), c.pkg)
		bv := Bound(fmt.Sprintf("%s?%d", id, c.depth), sortOf(t))
		n := c.with(map[string]*SVal{id: {bv, t}})
		n.depth++
		body := n.Bool(e.Args[2])
		if name == "forallk" {
			return b(Forall([]*Term{bv}, body))
		}
		return b(Exists([]*Term{bv}, body))
	case "let":
		id := e.Args[0].(*ast.Ident).Name
		return c.with(map[string]*SVal{id: c.eval(e.Args[1])}).eval(e.Args[2])
	case "len":
		v := c.eval(e.Args[0])
		switch {
		case v.T.Sort == StringS:
			return &SVal{SLen(v.T), tInt}
		case v.T.Sort == SliceS:
			return &SVal{sLen(v.T), tInt}
		}
		specErr("len of %s", v.Typ)
	case "has":
		m, k := c.eval(e.Args[0]), c.eval(e.Args[1])
		mt := m.Typ.Underlying().(*types.Map)
		return b(x.mapHas(c.st, mt, m.T, k.T))
	case "at": // at(m, k): the value stored under a key known to be present
		m, k := c.eval(e.Args[0]), c.eval(e.Args[1])
		mt := m.Typ.Underlying().(*types.Map)
		v := Select(x.mapVals(c.st, mt, m.T), k.T)
		wf(v, mt.Elem())
		return &SVal{v, mt.Elem()}
	case "str": // bytes of a []byte
		v := c.eval(e.Args[0])
		if v.T.Sort == StringS {
			return &SVal{v.T, tStr}
		}
		return &SVal{x.bytesOf(c.st, v.T), tStr}
	case "chr":
		return &SVal{SFromCode(c.eval(e.Args[0]).T), tStr}
	case "prefix":
		return b(SPrefix(c.eval(e.Args[1]).T, c.eval(e.Args[0]).T))
	case "suffix":
		return b(SSuffix(c.eval(e.Args[1]).T, c.eval(e.Args[0]).T))
	case "contains":
		return b(SContains(c.eval(e.Args[0]).T, c.eval(e.Args[1]).T))
	case "indexof":
		return &SVal{SIndexOf(c.eval(e.Args[0]).T, c.eval(e.Args[1]).T, c.eval(e.Args[2]).T), tInt}
	case "isnum": // isnum(s): unsigned decimal number text
		ok, _ := numText(c.eval(e.Args[0]).T, Int(10), false)
		return b(ok)
	case "numval":
		_, v := numText(c.eval(e.Args[0]).T, Int(10), false)
		return &SVal{v, tInt}
	case "isint":
		ok, _ := numText(c.eval(e.Args[0]).T, Int(10), true)
		return b(ok)
	case "intval":
		_, v := numText(c.eval(e.Args[0]).T, Int(10), true)
		return &SVal{v, tInt}
	case "jsonerr": // jsonerr(bytes, "type")
		if n := litStr(e.Args[1]); strings.Contains(n, "[") {
			return b(jsonErr(c.bytesArg(e.Args[0]), x.V.typeByName(n, c.pkg)))
		}
		return b(App("json.err:"+litStr(e.Args[1]), BoolS, c.bytesArg(e.Args[0])))
	case "jsonhas":
		return b(App("json.has:"+litStr(e.Args[1]), BoolS, c.bytesArg(e.Args[0])))
	case "jsonfield": // jsonfield(bytes, "member", "type")
		t := x.V.typeByName(litStr(e.Args[2]), c.pkg)
		return &SVal{jsonField(c.bytesArg(e.Args[0]), litStr(e.Args[1]), t), t}
	case "toupper":
		return &SVal{App("strings.ToUpper#0", StringS, c.eval(e.Args[0]).T), tStr}
	case "lastindex":
		return &SVal{lastIndex(c.eval(e.Args[0]).T, c.eval(e.Args[1]).T), tInt}
	case "tolower":
		return &SVal{App("strings.ToLower#0", StringS, c.eval(e.Args[0]).T), tStr}
	case "trimsuffix":
		return &SVal{trimSuffix(c.eval(e.Args[0]).T, c.eval(e.Args[1]).T), tStr}
	case "trimprefix":
		return &SVal{trimPrefix(c.eval(e.Args[0]).T, c.eval(e.Args[1]).T), tStr}
	case "replaceall":
		return &SVal{replaceAll(c.eval(e.Args[0]).T, c.eval(e.Args[1]).T, c.eval(e.Args[2]).T), tStr}
	case "itoa":
		return &SVal{itoa(c.eval(e.Args[0]).T), tStr}
	case "toreal":
		return &SVal{toReal(c.eval(e.Args[0]).T), types.Typ[types.Float64]}
	case "trunc":
		t := c.eval(e.Args[0]).T
		return &SVal{Ite(Le0r(t), B("to_int", IntS, t), Sub(Int(0), B("to_int", IntS, B("-", RealS, t)))), tInt}
	case "is":
		v := c.eval(e.Args[0])
		t := x.V.typeByName(litStr(e.Args[1]), c.pkg)
		ok, _ := ifaceIs(v.T, t)
		return b(ok)
	case "as":
		v := c.eval(e.Args[0])
		t := x.V.typeByName(litStr(e.Args[1]), c.pkg)
		_, val := ifaceIs(v.T, t)
		if v.T.Op != OCtor && !v.T.bound {
			wfIface(v.T)
		}
		return &SVal{wf(val, t), t}
	case "with": // with(v, "field", e): the struct v with one field replaced
		v := c.eval(e.Args[0])
		nv := c.eval(e.Args[2])
		return &SVal{updPath(v.T, v.Typ, []int{fieldIndex(v.Typ, litStr(e.Args[1]))}, nv.T), v.Typ}
	case "id": // the identity of an object
		if v := c.eval(e.Args[0]).T; v.Sort == SliceS {
			return &SVal{sRef(v), tInt}
		} else {
			return &SVal{v, tInt}
		}
	case "box":
		v := c.eval(e.Args[0])
		t := v.Typ
		if len(e.Args) > 1 {
			t = x.V.typeByName(litStr(e.Args[1]), c.pkg)
		}
		return &SVal{x.makeIface(v.T, t), x.V.typeByName("any", nil)}
	case "fresh":
		v := c.eval(e.Args[0])
		r := v.T
		switch r.Sort {
		case SliceS:
			r = sRef(r)
		case IfaceS:
			r = Sel(r, cPtr, 1)
		}
		return b(Le(c.old.wm, r))
	case "allocated": // a reference that exists in the current state
		return b(Lt(c.eval(e.Args[0]).T, c.st.wm))
	case "sref":
		return &SVal{sRef(c.eval(e.Args[0]).T), x.V.typeByName("ref", nil)}
	case "samecell": // the object behind the pointer is unchanged
		v := c.eval(e.Args[0])
		pt := v.Typ.Underlying().(*types.Pointer)
		h := objHeap(pt.Elem())
		return b(Eq(Select(x.heap(c.st, h), v.T), Select(x.heap(c.old, h), v.T)))
	case "unchanged": // named heap fully unchanged on pre-existing cells is the frame's job
		v := c.eval(e.Args[0])
		n := *c
		n.st = c.old
		o := n.eval(e.Args[0])
		return b(Eq(v.T, o.T))
	case "mapeq": // same contents
		m, k := c.eval(e.Args[0]), c.eval(e.Args[1])
		mt := m.Typ.Underlying().(*types.Map)
		return b(And(Eq(x.mapDom(c.st, mt, m.T), x.mapDom(c.st, mt, k.T)), Eq(x.mapVals(c.st, mt, m.T), x.mapVals(c.st, mt, k.T))))
	case "domain": // map domain as a value
		m := c.eval(e.Args[0])
		mt := m.Typ.Underlying().(*types.Map)
		return &SVal{x.mapDom(c.st, mt, m.T), tInt}
	case "values":
		m := c.eval(e.Args[0])
		mt := m.Typ.Underlying().(*types.Map)
		return &SVal{x.mapVals(c.st, mt, m.T), tInt}
	case "elems": // element array of a slice, as a value (only for equality)
		v := c.eval(e.Args[0])
		el := v.Typ.Underlying().(*types.Slice).Elem()
		return &SVal{elemsArr(x, c.st, el, v.T), tInt}
	case "visited": // visited(k): the enclosing map range has already yielded key k
		if c.frame == nil {
			specErr("visited outside a loop")
		}
		it := c.frame.curIter()
		if it == nil || it.MT == nil {
			specErr("no map iterator")
		}
		k := c.eval(e.Args[0])
		h := c.x.heap(c.st, it.Vis)
		if h.Sort.K != k.T.Sort {
			specErr("visited key sort")
		}
		return b(Select(h, k.T))
	case "background": // the background context
		return &SVal{T: ctxBackground()}
	case "pure": // pure("pkg.Func", i, args...): i'th result of a pure extern
		fn := litStr(e.Args[0])
		ix := int(c.eval(e.Args[1]).T.N.Int64())
		var as []*SVal
		for _, a := range e.Args[2:] {
			as = append(as, c.eval(a))
		}
		return c.pureResult(fn, ix, as)
	case "kindof", "elemof", "rtok", "nameof", "rvtype", "rvroot", "rvdepth", "rslen": // reflection
		a := c.eval(e.Args[0]).T
		switch name {
		case "kindof":
			return &SVal{rtUF("kind", IntS, a), tInt}
		case "elemof":
			return &SVal{rtElem(a), tInt}
		case "nameof":
			return &SVal{rtUF("name", StringS, a), tStr}
		case "rvtype":
			return &SVal{rvType(a), tInt}
		case "rvdepth":
			return &SVal{rvDepth(a), tInt}
		case "rvroot":
			return &SVal{rvRoot(a), tInt}
		case "rslen":
			return &SVal{App("rs.len", IntS, a), tInt}
		}
		return b(rtOK(a))
	case "rvfield": // the field of a struct variable at an index path
		a, ix := c.eval(e.Args[0]).T, sRef(c.eval(e.Args[1]).T)
		return &SVal{rvField(a, ix), tInt}
	case "rvval":
		return &SVal{App("rv.val", IfaceS, c.eval(e.Args[0]).T), anyT}
	case "rsat": // the variable that holds element i of a slice made by reflection
		return &SVal{Select(App("rs.arr", ArrS(IntS, IntS), c.eval(e.Args[0]).T), c.eval(e.Args[1]).T), tInt}
	case "rmat": // the variable that holds member k of a map made by reflection, or 0
		return &SVal{Select(Select(x.heap(c.st, "H:rmap"), c.eval(e.Args[0]).T), c.eval(e.Args[1]).T), tInt}
	case "uf": // uf("name", "type", args...): a modelling function
		t := x.V.typeByName(litStr(e.Args[1]), c.pkg)
		var ts []*Term
		for _, a := range e.Args[2:] {
			ts = append(ts, c.eval(a).T)
		}
		return &SVal{App(litStr(e.Args[0]), sortOf(t), ts...), t}
	case "ret", "retn": // ret("callee", i): result of the (only, or last) contract/extern call
		fn := litStr(e.Args[0])
		ix := int(c.eval(e.Args[1]).T.N.Int64())
		rs := x.rets[fn]
		if len(rs) == 0 {
			specErr("no call of %s", fn)
		}
		r := rs[len(rs)-1]
		return &SVal{x.term(r.vals[ix]), r.sig.Results().At(ix).Type()}
	}
	if sf := x.V.specs.Funs[name]; sf != nil {
		return c.applySpecFun(sf, c.args(e))
	}
	specErr("unknown specification function %s", name)
	return nil
}

func (c *SCtx) bytesArg(e ast.Expr) *Term {
	v := c.eval(e)
	if v.T.Sort == StringS {
		return v.T
	}
	return c.x.bytesOf(c.st, v.T)
}

func Le0r(t *Term) *Term { return B(">=", BoolS, t, RealLit("0.0")) }

func (c *SCtx) applySpecFun(sf *SpecFun, args []*SVal) *SVal {
	x := c.x
	pkg := c.pkg
	if sf.Pkg != "" {
		pkg = x.V.pkgByName(sf.Pkg, c.pkg)
	}
	if len(args) != len(sf.Params) {
		specErr("%s: %d arguments, want %d", sf.Name, len(args), len(sf.Params))
	}
	env := map[string]*SVal{}
	ts := make([]*Term, len(args))
	for i, p := range sf.Params {
		t := x.V.typeByName(p.Type, pkg)
		a := args[i]
		if a.T == nil {
			a = &SVal{zeroOfSort(sortOf(t)), t}
		}
		if sortOf(t) == IfaceS && a.T.Sort != IfaceS {
			a = &SVal{x.makeIface(a.T, a.Typ), t}
		}
		if a.T.Sort != sortOf(t) {
			specErr("%s argument %d: %s, want %s", sf.Name, i, a.T.Sort.Name, sortOf(t).Name)
		}
		env[p.Name] = &SVal{a.T, t}
		ts[i] = a.T
	}
	rt := x.V.typeByName(sf.Ret, pkg)
	if sf.Rec || sf.Uninterp {
		r := App("spec."+sf.Name, sortOf(rt), ts...)
		if sf.Opaque && !x.spec.Opts["reveal:"+sf.Name] {
			return &SVal{wf(r, rt), rt}
		}
		if sf.Rec && !r.bound && c.x.fuel > 0 && !c.x.unfolded[r] {
			c.x.unfolded[r] = true
			c.x.fuel--
			n := &SCtx{x: x, st: x.entry, old: x.entry, env: env, pkg: pkg, depth: c.depth + 20}
			body := n.eval(sf.Body)
			c.x.fuel++
			if r.Sort == BoolS && hasQuant(body.T) {
				addFact(r, Implies(r, body.T))
				addFact(r, Implies(body.T, r))
			} else {
				addFact(r, Eq(r, body.T))
			}
		}
		if sf.Rec && r.bound && x.spec.Opts["unfold-bound:"+sf.Name] && c.x.fuel > 0 && !c.x.unfolded[r] {
			// the definition for every value of the bound variables
			c.x.unfolded[r] = true
			c.x.fuel--
			n := &SCtx{x: x, st: x.entry, old: x.entry, env: env, pkg: pkg, depth: c.depth + 20}
			body := n.eval(sf.Body)
			c.x.fuel++
			var vs []*Term
			for v := range freeBound(r, map[*Term]map[*Term]bool{}) {
				vs = append(vs, v)
			}
			sort.Slice(vs, func(i, j int) bool { return vs[i].S < vs[j].S })
			q := Forall(vs, Eq(r, body.T), []*Term{r})
			facts[r] = append(facts[r], q)
			for _, a := range ts {
				if !a.bound && a.Op != OInt {
					addFact(a, q)
				}
			}
		}
		if sf.Uninterp {
			wf(r, rt)
		}
		return &SVal{r, rt}
	}
	n := &SCtx{x: x, st: c.st, old: c.old, pre: c.pre, env: env, pkg: pkg, frame: c.frame, depth: c.depth + 20}
	r := n.eval(sf.Body)
	return &SVal{r.T, rt}
}
