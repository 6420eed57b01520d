package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

type Clause struct {
	Name string
	Text string
	Expr ast.Expr
}
type TVar struct {
	Name, Type string
	Any        bool
}
type Template struct {
	Vars []TVar
	Text string
	Expr ast.Expr
	Must string // claimed: some loop has to keep it (an invariant that is itself part of the property)
}
type Contract struct {
	Name     string
	File     string
	Line     int
	Params   []string
	Results  []string
	Requires []Clause
	Ensures  []Clause
	Modifies []ast.Expr
	ModAny   bool
	Invs     []Template
	Rnd      bool
	Trusted  bool
	NoAlloc  bool
	Cut      bool // prove that sums and products of narrow integers do not wrap, and use it
	Inline   bool
	MayPanic bool
	Nullable map[string]bool
	Alias    bool
	Why      string
}

type Define struct {
	Params []string
	Expr   ast.Expr
}
type Logic struct {
	Name   string
	Params []string // "seq float32", "int", ...
	Res    string
}

var headRe = regexp.MustCompile(`^func\s+((?:func )?(?:\([^)]*\))?[^\s(]+)\s*\(([^)]*)\)\s*(?:\(([^)]*)\))?\s*$`)

func splitNames(s string) []string {
	var r []string
	for _, p := range strings.Split(s, ",") {
		p = strings.TrimSpace(p)
		if p != "" {
			r = append(r, p)
		}
	}
	return r
}

func parseExpr(file string, line int, s string) (ast.Expr, error) {
	e, err := parser.ParseExpr(s)
	if err != nil {
		return nil, fmt.Errorf("%s:%d: %v in %q", file, line, err, s)
	}
	return e, nil
}

// loadContracts reads all contract files.
func (w *World) loadContracts(dir string) error {
	fs, _ := filepath.Glob(filepath.Join(dir, "*.ctr"))
	sort.Strings(fs)
	for _, f := range fs {
		if err := w.loadContractFile(f); err != nil {
			return err
		}
	}
	return nil
}

func (w *World) loadContractFile(f string) error {
	data, err := os.ReadFile(f)
	if err != nil {
		return err
	}
	var cur *Contract
	lines := strings.Split(string(data), "\n")
	for i := 0; i < len(lines); i++ {
		ln := i + 1
		l := strings.TrimRight(lines[i], " \t")
		if k := strings.Index(l, "//"); k >= 0 {
			l = strings.TrimRight(l[:k], " \t")
		}
		// continuation lines
		for strings.HasSuffix(l, "\\") && i+1 < len(lines) {
			i++
			n := lines[i]
			if k := strings.Index(n, "//"); k >= 0 {
				n = n[:k]
			}
			l = strings.TrimSuffix(l, "\\") + " " + strings.TrimSpace(n)
			l = strings.TrimRight(l, " \t")
		}
		t := strings.TrimSpace(l)
		if t == "" {
			continue
		}
		bad := func(m string) error { return fmt.Errorf("%s:%d: %s: %s", f, ln, m, t) }
		clause := func(s string) (Clause, error) {
			name := s
			if len(s) > 0 && s[0] == '"' {
				k := strings.Index(s[1:], "\":")
				if k < 0 {
					return Clause{}, bad("unterminated clause name")
				}
				name = s[1 : k+1]
				s = s[k+3:]
			}
			e, err := parseExpr(f, ln, strings.TrimSpace(s))
			if len(name) > 90 {
				name = name[:90] + "..."
			}
			return Clause{name, strings.TrimSpace(s), e}, err
		}
		word, rest, _ := strings.Cut(t, " ")
		rest = strings.TrimSpace(rest)
		switch word {
		case "func", "funcvalue":
			m := headRe.FindStringSubmatch("func " + rest)
			if m == nil {
				return bad("bad contract header")
			}
			nm := m[1]
			if word == "funcvalue" {
				nm = "func " + nm
			}
			cur = &Contract{Name: nm, File: f, Line: ln, Params: splitNames(m[2]), Results: splitNames(m[3]), Nullable: map[string]bool{}}
			if w.contracts[nm] != nil {
				return bad("duplicate contract")
			}
			w.contracts[nm] = cur
		case "define":
			k := strings.Index(rest, "(")
			k2 := strings.Index(rest, ")")
			e := strings.Index(rest, "=")
			if k < 0 || k2 < k || e < k2 {
				return bad("bad define")
			}
			ex, err := parseExpr(f, ln, strings.TrimSpace(rest[e+1:]))
			if err != nil {
				return err
			}
			w.defines[strings.TrimSpace(rest[:k])] = &Define{splitNames(rest[k+1 : k2]), ex}
		case "logic":
			k := strings.Index(rest, "(")
			k2 := strings.LastIndex(rest, ")")
			w.logics[rest[:k]] = &Logic{rest[:k], splitNames(rest[k+1 : k2]), strings.TrimSpace(rest[k2+1:])}
		case "axiom": // axiom <symbol>: smt
			s, ax, ok := strings.Cut(rest, ":")
			if !ok {
				return bad("bad axiom")
			}
			w.axioms[s] = append(w.axioms[s], strings.TrimSpace(ax))
		default:
			if cur == nil {
				return bad("clause outside contract")
			}
			switch word {
			case "requires":
				c, err := clause(rest)
				if err != nil {
					return err
				}
				cur.Requires = append(cur.Requires, c)
			case "ensures":
				c, err := clause(rest)
				if err != nil {
					return err
				}
				cur.Ensures = append(cur.Ensures, c)
			case "modifies":
				if strings.TrimSpace(rest) == "anything" {
					cur.ModAny = true
					continue
				}
				for _, p := range splitTopComma(rest) {
					e, err := parseExpr(f, ln, p)
					if err != nil {
						return err
					}
					cur.Modifies = append(cur.Modifies, e)
				}
			case "rnd":
				cur.Rnd = true
			case "trusted":
				cur.Trusted = true
				cur.Why = rest
			case "cutint":
				cur.Cut = true
			case "noalloc":
				cur.NoAlloc = true
			case "inline":
				cur.Inline = true
			case "maypanic":
				cur.MayPanic = true
			case "alias":
				cur.Alias = true
			case "nullable":
				for _, n := range splitNames(rest) {
					cur.Nullable[n] = true
				}
			default:
				must := ""
				if strings.HasPrefix(t, "claim \"") { // claim "name" inv(...): ...
					k := strings.Index(t[7:], "\" ")
					if k < 0 {
						return bad("bad claim")
					}
					must = t[7 : 7+k]
					t = strings.TrimSpace(t[7+k+1:])
				}
				if strings.HasPrefix(t, "inv(") {
					k := strings.Index(t, "):")
					if k < 0 {
						return bad("bad invariant template")
					}
					var vs []TVar
					for _, p := range splitNames(t[4:k]) {
						n, ty, ok := strings.Cut(p, " ")
						if !ok {
							return bad("template variable needs a type")
						}
						any := strings.HasPrefix(n, "?")
						vs = append(vs, TVar{strings.TrimPrefix(n, "?"), strings.TrimSpace(ty), any})
					}
					e, err := parseExpr(f, ln, strings.TrimSpace(t[k+2:]))
					if err != nil {
						return err
					}
					cur.Invs = append(cur.Invs, Template{vs, strings.TrimSpace(t[k+2:]), e, must})
					continue
				}
				return bad("unknown clause")
			}
		}
	}
	return nil
}

func splitTopComma(s string) []string {
	var r []string
	d, st := 0, 0
	for i, c := range s {
		switch c {
		case '(', '[':
			d++
		case ')', ']':
			d--
		case ',':
			if d == 0 {
				r = append(r, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	return append(r, strings.TrimSpace(s[st:]))
}

// ---------------------------------------------------------------- evaluation

type specEnv struct {
	x    *X
	vars map[string]Val
	st   *State
	old  *State
	pre  *State
	node int
	con  *Contract
	bnd  map[string]*boundInfo
	dep  int
}

type boundInfo struct {
	sym  string
	offs []string        // offsets seen with this variable as index
	pats map[string]bool // select terms indexed by exactly this variable
}

func (e *specEnv) with(vars map[string]Val) *specEnv {
	n := *e
	n.vars = vars
	return &n
}

func (e *specEnv) boolean(ex ast.Expr) string {
	e.dep++
	v := e.eval(ex)
	if len(v.C) != 1 {
		fail("spec: boolean expected")
	}
	return v.C[0]
}

var tInt = types.Typ[types.Int]
var tBool = types.Typ[types.Bool]
var tF32 = types.Typ[types.Float32]
var tF64 = types.Typ[types.Float64]
var tReal types.Type = types.NewNamed(types.NewTypeName(token.NoPos, nil, "real", nil), types.Typ[types.Int], nil)
var tUInt = types.Typ[types.UntypedInt]
var tUFloat = types.Typ[types.UntypedFloat]

func boolVal(s string) Val { return Val{T: tBool, C: []string{s}} }
func intVal(s string) Val  { return Val{T: tInt, C: []string{s}} }

// untyped constants carry their exact value in the component text until unified.
func (e *specEnv) lit(v constant.Value) Val {
	if v.Kind() == constant.Float {
		return Val{T: tUFloat, C: []string{v.ExactString()}}
	}
	n, _ := new(big.Int).SetString(v.ExactString(), 10)
	return Val{T: tUInt, C: []string{num(n)}}
}
func untyped(v Val) bool { return v.T == types.Type(tUInt) || v.T == types.Type(tUFloat) }

func (e *specEnv) coerce(v Val, t types.Type) Val {
	if !untyped(v) {
		return v
	}
	if t == tReal {
		r, ok := new(big.Rat).SetString(strings.NewReplacer("(", "", ")", "", " ", "").Replace(v.C[0]))
		if !ok {
			fail("spec: real literal")
		}
		return Val{T: tReal, C: []string{ratText(r)}}
	}
	if isFloat(t) {
		r, ok := new(big.Rat).SetString(strings.NewReplacer("(", "", ")", "", " ", "").Replace(v.C[0]))
		if !ok {
			fail("spec: float literal %s", v.C[0])
		}
		bits := 64
		if fsuf(t) == "32" {
			bits = 32
			f, _ := r.Float32()
			return Val{T: t, C: []string{e.x.fconst(float64(f), bits)}}
		}
		f, _ := r.Float64()
		return Val{T: t, C: []string{e.x.fconst(f, bits)}}
	}
	return Val{T: t, C: v.C}
}
func (e *specEnv) unify(a, b Val) (Val, Val) {
	if untyped(a) && !untyped(b) {
		return e.coerce(a, b.T), b
	}
	if untyped(b) && !untyped(a) {
		return a, e.coerce(b, a.T)
	}
	if untyped(a) && untyped(b) {
		return Val{T: tInt, C: a.C}, Val{T: tInt, C: b.C}
	}
	return a, b
}
func (e *specEnv) intOf(ex ast.Expr) string {
	v := e.eval(ex)
	if untyped(v) || isInt(v.T) {
		return v.C[0]
	}
	fail("spec: integer expected")
	return ""
}

func (e *specEnv) eval(ex ast.Expr) Val {
	x := e.x
	switch n := ex.(type) {
	case *ast.ParenExpr:
		return e.eval(n.X)
	case *ast.BasicLit:
		switch n.Kind {
		case token.INT, token.FLOAT, token.CHAR:
			return e.lit(constant.MakeFromLiteral(n.Value, n.Kind, 0))
		case token.STRING:
			s := constant.StringVal(constant.MakeFromLiteral(n.Value, n.Kind, 0))
			return Val{T: types.Typ[types.String], C: []string{x.strConst(s)}}
		}
	case *ast.Ident:
		switch n.Name {
		case "true", "false":
			return boolVal(n.Name)
		case "nil":
			return Val{T: types.Typ[types.UntypedNil], C: []string{"0", "0", "0", "0"}}
		}
		if v, ok := e.vars[n.Name]; ok {
			return v
		}
		if c := x.w.constant(n.Name, e.con); c != nil {
			return e.lit(c)
		}
		fail("spec: unknown name %s", n.Name)
	case *ast.UnaryExpr:
		v := e.eval(n.X)
		switch n.Op {
		case token.NOT:
			return boolVal(not(v.C[0]))
		case token.SUB:
			if untyped(v) {
				if b, ok := bigOf(v.C[0]); ok {
					return Val{T: v.T, C: []string{num(new(big.Int).Neg(b))}}
				}
				return Val{T: v.T, C: []string{"-" + v.C[0]}}
			}
			if v.T == tReal {
				return Val{T: tReal, C: []string{"(- " + v.C[0] + ")"}}
			}
			if isFloat(v.T) {
				return x.fop("neg", v.T, v)
			}
			return Val{T: v.T, C: []string{sub("0", v.C[0])}}
		}
	case *ast.BinaryExpr:
		return e.binary(n)
	case *ast.SelectorExpr:
		v := e.eval(n.X)
		return e.field(v, n.Sel.Name)
	case *ast.StarExpr:
		v := e.eval(n.X)
		p, ok := v.T.Underlying().(*types.Pointer)
		if !ok {
			fail("spec: deref of non-pointer")
		}
		return x.loadAt(e.st, p.Elem(), v.C[0], v.C[1])
	case *ast.IndexExpr:
		v := e.eval(n.X)
		i := e.intOf(n.Index)
		return e.index(v, i)
	case *ast.SliceExpr:
		v := e.eval(n.X)
		lo, hi := "0", ""
		if n.Low != nil {
			lo = e.intOf(n.Low)
		}
		if len(v.C) != 4 {
			fail("spec: slice of non-slice")
		}
		if n.High != nil {
			hi = e.intOf(n.High)
		} else {
			hi = v.C[2]
		}
		return Val{T: v.T, C: []string{v.C[0], add(v.C[1], lo), sub(hi, lo), sub(v.C[3], lo)}}
	case *ast.CallExpr:
		return e.callExpr(n)
	}
	fail("spec: unsupported expression %T", ex)
	return Val{}
}

func (e *specEnv) field(v Val, name string) Val {
	x := e.x
	t := v.T
	if p, ok := t.Underlying().(*types.Pointer); ok {
		s, ok := p.Elem().Underlying().(*types.Struct)
		if !ok {
			fail("spec: field of non-struct")
		}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if f.Name() == name {
				r := Val{T: f.Type()}
				for _, l := range x.fieldLocs(typeKey(p.Elem()), f, v.C[0], v.C[1]) {
					r.C = append(r.C, x.readLoc(e.st, l))
				}
				return r
			}
		}
		for i := 0; i < s.NumFields(); i++ { // promoted
			if f := s.Field(i); f.Embedded() {
				fv := e.field(v, f.Name())
				if _, isP := f.Type().Underlying().(*types.Pointer); isP {
					if r, ok := e.tryField(fv, name); ok {
						return r
					}
				} else if r, ok := e.tryField(fv, name); ok {
					return r
				}
			}
		}
		fail("spec: no field %s in %s", name, p.Elem())
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		k := 0
		for i := 0; i < s.NumFields(); i++ {
			c := len(compsOf(s.Field(i).Type()))
			if s.Field(i).Name() == name {
				return Val{T: s.Field(i).Type(), C: v.C[k : k+c]}
			}
			k += c
		}
		k = 0
		for i := 0; i < s.NumFields(); i++ {
			c := len(compsOf(s.Field(i).Type()))
			if s.Field(i).Embedded() {
				if r, ok := e.tryField(Val{T: s.Field(i).Type(), C: v.C[k : k+c]}, name); ok {
					return r
				}
			}
			k += c
		}
	}
	fail("spec: no field %s in %s", name, t)
	return Val{}
}
func (e *specEnv) tryField(v Val, name string) (r Val, ok bool) {
	defer func() {
		if p := recover(); p != nil {
			if _, is := p.(unsupported); is {
				ok = false
				return
			}
			panic(p)
		}
	}()
	return e.field(v, name), true
}

func (e *specEnv) index(v Val, i string) Val {
	x := e.x
	switch u := v.T.Underlying().(type) {
	case *types.Slice:
		idx := add(v.C[1], i)
		for _, b := range e.bnd {
			if i == b.sym {
				b.offs = append(b.offs, v.C[1])
			}
		}
		r := Val{T: u.Elem()}
		for _, l := range x.locs(u.Elem(), v.C[0], idx) {
			t := e.readNamed(l)
			r.C = append(r.C, t)
			for _, b := range e.bnd {
				if idx == b.sym {
					b.pats[t] = true
				}
			}
		}
		return r
	case *types.Pointer:
		a, ok := u.Elem().Underlying().(*types.Array)
		if !ok {
			fail("spec: index of pointer")
		}
		idx := add(v.C[1], i)
		r := x.loadAt(e.st, a.Elem(), v.C[0], idx)
		for _, b := range e.bnd {
			if idx == b.sym {
				for _, t := range r.C {
					b.pats[t] = true
				}
			}
		}
		return r
	case *types.Array:
		r := Val{T: u.Elem()}
		for _, c := range v.C {
			t := sel(c, i)
			r.C = append(r.C, t)
			for _, b := range e.bnd {
				if i == b.sym {
					b.pats[t] = true
				}
			}
		}
		return r
	case *types.Basic:
		return Val{T: types.Typ[types.Uint8], C: []string{"(strat " + v.C[0] + " " + i + ")"}}
	}
	fail("spec: index of %s", v.T)
	return Val{}
}

// readNamed reads a location through a named inner array, so that quantifier patterns stay small.
func (e *specEnv) readNamed(l loc) string {
	x := e.x
	if l.arr {
		return x.readLoc(e.st, l)
	}
	return sel(x.selB(x.heap(e.st, l.key, l.sort), l.b, l.sort), l.i)
}

func (e *specEnv) binary(n *ast.BinaryExpr) Val {
	x := e.x
	switch n.Op {
	case token.LAND:
		a := e.eval(n.X).C[0]
		return boolVal(and(a, e.eval(n.Y).C[0]))
	case token.LOR:
		a := e.eval(n.X).C[0]
		return boolVal(or(a, e.eval(n.Y).C[0]))
	}
	a, b := e.unify(e.eval(n.X), e.eval(n.Y))
	if a.T == tReal || b.T == tReal {
		p, q := a.C[0], b.C[0]
		if a.T != tReal && isInt(a.T) {
			p = "(to_real " + p + ")"
		}
		if b.T != tReal && isInt(b.T) {
			q = "(to_real " + q + ")"
		}
		switch n.Op {
		case token.ADD, token.SUB, token.MUL, token.QUO:
			return Val{T: tReal, C: []string{"(" + n.Op.String() + " " + p + " " + q + ")"}}
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return boolVal("(" + n.Op.String() + " " + p + " " + q + ")")
		case token.EQL:
			return boolVal(eq(p, q))
		case token.NEQ:
			return boolVal(not(eq(p, q)))
		}
	}
	isNil := func(v Val) bool { return v.T == types.Typ[types.UntypedNil] }
	if n.Op == token.EQL || n.Op == token.NEQ {
		var c string
		switch {
		case isNil(a) || isNil(b):
			v := a
			if isNil(a) {
				v = b
			}
			c = eq(v.C[0], "0")
		case isFloat(a.T):
			c = x.fcmp("==", a.T, a.C[0], b.C[0])
		default:
			if len(a.C) != len(b.C) {
				fail("spec: comparing %s with %s", a.T, b.T)
			}
			var fs []string
			for k := range a.C {
				fs = append(fs, eq(a.C[k], b.C[k]))
			}
			c = and(fs...)
		}
		if n.Op == token.NEQ {
			c = not(c)
		}
		return boolVal(c)
	}
	if isFloat(a.T) {
		if !isFloat(b.T) {
			fail("spec: mixing %s and %s", a.T, b.T)
		}
		switch n.Op {
		case token.ADD:
			return x.fop("add", a.T, a, b)
		case token.SUB:
			return x.fop("sub", a.T, a, b)
		case token.MUL:
			return x.fop("mul", a.T, a, b)
		case token.QUO:
			return x.fop("div", a.T, a, b)
		}
		return boolVal(x.fcmp(n.Op.String(), a.T, a.C[0], b.C[0]))
	}
	if !isInt(a.T) || !isInt(b.T) {
		fail("spec: operator %s on %s", n.Op, a.T)
	}
	p, q := a.C[0], b.C[0]
	switch n.Op {
	case token.ADD:
		return intVal(add(p, q))
	case token.SUB:
		return intVal(sub(p, q))
	case token.MUL:
		return intVal(x.mulT(p, q))
	case token.QUO:
		return intVal(edivT(p, q))
	case token.REM:
		return intVal(emodT(p, q))
	case token.LSS:
		return boolVal(lt(p, q))
	case token.LEQ:
		return boolVal(le(p, q))
	case token.GTR:
		return boolVal(lt(q, p))
	case token.GEQ:
		return boolVal(le(q, p))
	case token.SHR:
		if k, ok := bigOf(q); ok {
			return intVal("(div " + p + " " + pow2(int(k.Int64())) + ")")
		}
	case token.SHL:
		if k, ok := bigOf(q); ok {
			return intVal(mul(p, pow2(int(k.Int64()))))
		}
	case token.AND:
		return intVal(x.bitop(token.AND, p, q, tInt, e.node))
	case token.XOR:
		return intVal(x.bitop(token.XOR, p, q, tInt, e.node))
	}
	fail("spec: operator %s", n.Op)
	return Val{}
}

func sortOfName(s string) (types.Type, bool) {
	switch s {
	case "int":
		return tInt, true
	case "float32":
		return tF32, true
	case "float64":
		return tF64, true
	case "bool":
		return tBool, true
	case "string":
		return types.Typ[types.String], true
	case "uint8", "byte":
		return types.Typ[types.Uint8], true
	case "int32":
		return types.Typ[types.Int32], true
	case "uint16":
		return types.Typ[types.Uint16], true
	case "int64":
		return types.Typ[types.Int64], true
	case "uint32":
		return types.Typ[types.Uint32], true
	case "int16":
		return types.Typ[types.Int16], true
	case "uint64":
		return types.Typ[types.Uint64], true
	case "real":
		return tReal, true
	}
	return nil, false
}
func smtSortOf(t types.Type) string {
	if t == tReal {
		return "Real"
	}
	return compsOf(t)[0].Sort
}

func (e *specEnv) callExpr(n *ast.CallExpr) Val {
	x := e.x
	id, ok := n.Fun.(*ast.Ident)
	if !ok {
		fail("spec: call of %T", n.Fun)
	}
	arg := func(i int) Val {
		if i >= len(n.Args) {
			fail("spec: missing argument of %s", id.Name)
		}
		return e.eval(n.Args[i])
	}
	switch id.Name {
	case "len":
		v := arg(0)
		switch u := v.T.Underlying().(type) {
		case *types.Slice:
			return intVal(v.C[2])
		case *types.Basic:
			return intVal("(strlen " + v.C[0] + ")")
		case *types.Array:
			return intVal(fmt.Sprint(u.Len()))
		}
		fail("spec: len of %s", v.T)
	case "cap":
		return intVal(arg(0).C[3])
	case "gpos": // ghost: number of bytes read from a reader / written to a writer so far
		return intVal(x.readLoc(e.st, loc{key: "ghost.pos", sort: "Int", b: arg(0).C[0], i: "0"}))
	case "gbyte": // ghost: byte number i of a reader's or writer's stream
		return intVal(x.readLoc(e.st, loc{key: "ghost.bytes", sort: "Int", b: arg(0).C[0], i: e.intOf(n.Args[1])}))
	case "base":
		return intVal(arg(0).C[0])
	case "off":
		return intVal(arg(0).C[1])
	case "old":
		o := *e
		o.st = e.old
		return o.eval(n.Args[0])
	case "pre":
		o := *e
		o.st = e.pre
		return o.eval(n.Args[0])
	case "imp":
		a := arg(0).C[0]
		return boolVal(imp(a, arg(1).C[0]))
	case "iff":
		return boolVal(eq(arg(0).C[0], arg(1).C[0]))
	case "ite":
		c := arg(0).C[0]
		a, b := e.unify(arg(1), arg(2))
		r := Val{T: a.T}
		for k := range a.C {
			r.C = append(r.C, ite(c, a.C[k], b.C[k]))
		}
		return r
	case "same": // identity of values (bit pattern for floats; same array view for slices)
		a, b := e.unify(arg(0), arg(1))
		var fs []string
		for k := range a.C {
			fs = append(fs, eq(a.C[k], b.C[k]))
		}
		return boolVal(and(fs...))
	case "nan64":
		return Val{T: tF64, C: []string{"qnan64"}}
	case "isnan":
		v := arg(0)
		return boolVal("(nan" + fsuf(v.T) + " " + v.C[0] + ")")
	case "isfin":
		v := arg(0)
		return boolVal("(fin" + fsuf(v.T) + " " + v.C[0] + ")")
	case "ord":
		v := arg(0)
		return Val{T: tReal, C: []string{"(ord" + fsuf(v.T) + " " + v.C[0] + ")"}}
	case "real":
		v := arg(0)
		if untyped(v) {
			return e.coerce(v, tReal)
		}
		return Val{T: tReal, C: []string{"(to_real " + v.C[0] + ")"}}
	case "fresh": // allocated during the call
		v := arg(0)
		return boolVal(le(e.old.alloc, v.C[0]))
	case "allocated":
		v := arg(0)
		return boolVal(lt(v.C[0], e.st.alloc))
	case "disjoint":
		a, b := arg(0), arg(1)
		return boolVal(not(eq(a.C[0], b.C[0])))
	case "sqrt":
		v := e.coerce(arg(0), tF64)
		return x.fop("sqrt", v.T, v)
	case "abs":
		v := arg(0)
		if isFloat(v.T) {
			return x.fop("abs", v.T, v)
		}
		return intVal(ite(le("0", v.C[0]), v.C[0], sub("0", v.C[0])))
	case "min", "max":
		a, b := e.unify(arg(0), arg(1))
		if isFloat(a.T) {
			fail("spec: float min/max")
		}
		c := le(a.C[0], b.C[0])
		if id.Name == "max" {
			c = le(b.C[0], a.C[0])
		}
		return intVal(ite(c, a.C[0], b.C[0]))
	case "forall", "exists":
		return e.quant(id.Name, n)
	case "forallv", "existsv": // forallv(v, type, body)
		v := n.Args[0].(*ast.Ident).Name
		t, ok := sortOfName(n.Args[1].(*ast.Ident).Name)
		if !ok {
			fail("spec: type in forallv")
		}
		e2, sym := e.bind(v, t)
		bi := &boundInfo{sym: sym, pats: map[string]bool{}}
		e2.bnd = map[string]*boundInfo{sym: bi}
		for k, o := range e.bnd {
			e2.bnd[k] = o
		}
		x.bound++
		b := e2.eval(n.Args[2]).C[0]
		x.bound--
		q := "forall"
		if id.Name == "existsv" {
			q = "exists"
		}
		if len(bi.pats) > 0 {
			var ps []string
			for _, p := range sortedKeys(bi.pats) {
				ps = append(ps, ":pattern ("+p+")")
			}
			b = "(! " + b + " " + strings.Join(ps, " ") + ")"
		}
		return boolVal("(" + q + " ((" + sym + " " + smtSortOf(t) + ")) " + b + ")")
	case "cnt", "where": // where(s, lo, hi, v): position of an occurrence, if there is one; cnt(s, lo, hi, v): occurrences of v in s[lo:hi]
		s := arg(0)
		lo, hi := e.intOf(n.Args[1]), e.intOf(n.Args[2])
		et := s.T.Underlying().(*types.Slice).Elem()
		l := x.locs(et, s.C[0], "0")
		if len(n.Args) == 5 { // cnt(s, lo, hi, v, Field): over one field of struct elements
			fn := n.Args[4].(*ast.Ident).Name
			st, ok := et.Underlying().(*types.Struct)
			if !ok {
				fail("spec: cnt field of non-struct")
			}
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == fn {
					l = x.fieldLocs(typeKey(et), st.Field(i), s.C[0], "0")
					et = st.Field(i).Type()
				}
			}
		}
		v := e.coerce(e.eval(n.Args[3]), et)
		if len(l) != 1 {
			fail("spec: cnt of composite elements")
		}
		t := "(" + id.Name + l[0].sort + " " + x.selB(x.heap(e.st, l[0].key, l[0].sort), s.C[0], l[0].sort) + " " + x.cntIdx(s.C[1], lo) + " " + x.cntIdx(s.C[1], hi) + " " + v.C[0] + ")"
		for _, b := range e.bnd {
			if b.sym == v.C[0] {
				b.pats[t] = true
			}
		}
		if id.Name == "where" {
			return intVal(sub(t, s.C[1]))
		}
		return intVal(t)
	}
	if t, ok := sortOfName(id.Name); ok && len(n.Args) == 1 {
		v := arg(0)
		if untyped(v) {
			return e.coerce(v, t)
		}
		if v.T == tReal {
			fail("spec: conversion from real")
		}
		if isFloat(v.T) && !isFloat(t) || isFloat(t) || isInt(t) {
			return x.conv(v, t)
		}
		return v
	}
	if d := x.w.defines[id.Name]; d != nil {
		vars := map[string]Val{}
		for i, p := range d.Params {
			vars[p] = arg(i)
		}
		if e.dep > 60 {
			fail("spec: define recursion")
		}
		e2 := e.with(vars)
		e2.dep++
		return e2.eval(d.Expr)
	}
	if l := x.w.logics[id.Name]; l != nil {
		var as, sorts []string
		ai := -1
		for _, p := range l.Params {
			if strings.HasPrefix(p, "at ") { // element position: the array and the absolute index
				s := arg(ai + 1)
				ix := e.intOf(n.Args[ai+2])
				ai += 2
				sl, ok := s.T.Underlying().(*types.Slice)
				if !ok {
					fail("spec: %s needs a slice", id.Name)
				}
				ls := x.locs(sl.Elem(), s.C[0], "0")
				if len(ls) != 1 {
					fail("spec: position in composite elements")
				}
				as = append(as, x.selB(x.heap(e.st, ls[0].key, ls[0].sort), s.C[0], ls[0].sort), add(s.C[1], ix))
				sorts = append(sorts, arraySort(ls[0].sort), "Int")
				continue
			}
			if strings.HasPrefix(p, "frames ") { // slice of slices: header arrays (base, offset), outer offset, heap of the elements
				ai++
				s := arg(ai)
				sl, ok := s.T.Underlying().(*types.Slice)
				if !ok {
					fail("spec: %s needs a slice", id.Name)
				}
				in, ok := sl.Elem().Underlying().(*types.Slice)
				if !ok {
					fail("spec: %s needs a slice of slices", id.Name)
				}
				ls := x.locs(sl.Elem(), s.C[0], "0")
				es := x.locs(in.Elem(), "0", "0")
				as = append(as, x.selB(x.heap(e.st, ls[0].key, ls[0].sort), s.C[0], ls[0].sort), x.selB(x.heap(e.st, ls[1].key, ls[1].sort), s.C[0], ls[1].sort), s.C[1], x.heap(e.st, es[0].key, es[0].sort))
				sorts = append(sorts, arraySort(ls[0].sort), arraySort(ls[1].sort), "Int", arraySort(arraySort(es[0].sort)))
				continue
			}
			if strings.HasPrefix(p, "seq ") {
				ai++
				s := arg(ai)
				sl, ok := s.T.Underlying().(*types.Slice)
				if !ok {
					fail("spec: %s needs a slice", id.Name)
				}
				ls := x.locs(sl.Elem(), s.C[0], "0")
				if len(ls) != 1 {
					fail("spec: seq of composite elements")
				}
				as = append(as, x.selB(x.heap(e.st, ls[0].key, ls[0].sort), s.C[0], ls[0].sort), s.C[1])
				sorts = append(sorts, arraySort(ls[0].sort), "Int")
				continue
			}
			if strings.HasPrefix(p, "heap ") { // heap float32 | heap fits.Image.Data.base ...
				key := strings.TrimSpace(p[5:])
				srt := "Int"
				if k := strings.Index(key, ":"); k > 0 && key[:2] != "E:" {
					srt, key = key[:k], key[k+1:]
				}
				if key == "float32" {
					key, srt = "E:float32", "F32"
				}
				as = append(as, x.heap(e.st, key, srt))
				sorts = append(sorts, arraySort(arraySort(srt)))
				continue
			}
			t, ok := sortOfName(p)
			if !ok {
				fail("spec: logic parameter type %s", p)
			}
			ai++
			v := e.coerce(arg(ai), t)
			as = append(as, v.C[0])
			sorts = append(sorts, smtSortOf(t))
		}
		rt, ok := sortOfName(l.Res)
		if !ok {
			fail("spec: logic result type")
		}
		nm := "lg_" + l.Name
		_ = sorts
		x.declLogic(l)
		t := "(" + nm + " " + strings.Join(as, " ") + ")"
		for _, b := range e.bnd {
			for _, a := range as {
				if a == b.sym {
					b.pats[t] = true
				}
			}
		}
		return Val{T: rt, C: []string{t}}
	}
	if m, ok := map[string]string{"pow": "m_Pow", "exp": "m_Exp", "log": "m_Log", "floor": "m_Floor", "sin": "m_Sin", "cos": "m_Cos", "atan2": "m_Atan2", "log10": "m_Log10"}[id.Name]; ok {
		var as []string
		sg := ""
		for i := range n.Args {
			as = append(as, e.coerce(arg(i), tF64).C[0])
			sg += " F64"
		}
		x.declFun(m, "("+strings.TrimSpace(sg)+") F64")
		return Val{T: tF64, C: []string{"(" + m + " " + strings.Join(as, " ") + ")"}}
	}
	if m, ok := map[string]string{"f32frombits": "m_Float32frombits", "f64frombits": "m_Float64frombits"}[id.Name]; ok {
		t := tF32
		if m == "m_Float64frombits" {
			t = tF64
		}
		x.declFun(m, "(Int) "+smtSortOf(t))
		return Val{T: t, C: []string{"(" + m + " " + e.intOf(n.Args[0]) + ")"}}
	}
	if m, ok := map[string]string{"f32bits": "m_Float32bits", "f64bits": "m_Float64bits"}[id.Name]; ok {
		v := arg(0)
		x.declFun(m, "("+smtSortOf(v.T)+") Int")
		return Val{T: tInt, C: []string{"(" + m + " " + v.C[0] + ")"}}
	}
	fail("spec: unknown function %s", id.Name)
	return Val{}
}

func (e *specEnv) bind(v string, t types.Type) (*specEnv, string) {
	x := e.x
	x.loopSeq++
	sym := fmt.Sprintf("q_%s_%d", clean(v), x.loopSeq)
	vars := map[string]Val{}
	for k, w := range e.vars {
		vars[k] = w
	}
	vars[v] = Val{T: t, C: []string{sym}}
	e2 := e.with(vars)
	return e2, sym
}

func (e *specEnv) quant(kind string, n *ast.CallExpr) Val {
	x := e.x
	if len(n.Args) != 4 {
		fail("spec: %s(i, lo, hi, body)", kind)
	}
	v := n.Args[0].(*ast.Ident).Name
	lo, hi := e.intOf(n.Args[1]), e.intOf(n.Args[2])
	evalWith := func(repl func(sym string) string) (string, string, *boundInfo) {
		e2, sym := e.bind(v, tInt)
		bi := &boundInfo{sym: sym, pats: map[string]bool{}}
		bn := map[string]*boundInfo{}
		for k, b := range e.bnd {
			bn[k] = b
		}
		bn[sym] = bi
		e2.bnd = bn
		if repl != nil {
			e2.vars[v] = intVal(repl(sym))
		}
		x.bound++
		defer func() { x.bound-- }()
		b := e2.eval(n.Args[3]).C[0]
		return b, sym, bi
	}
	body, sym, bi := evalWith(nil)
	shift := ""
	if len(bi.pats) == 0 && len(bi.offs) > 0 {
		shift = bi.offs[0]
		body, sym, bi = evalWith(func(s string) string { return "(- " + s + " " + shift + ")" })
		lo, hi = add(lo, shift), add(hi, shift)
	}
	rng := and(le(lo, sym), lt(sym, hi))
	if kind == "forall" && strings.Contains(body, "(exists ") {
		// make the terms that instantiate the inner existential visible when this formula is a goal
		var ts []string
		for _, p := range sortedKeys(bi.pats) {
			if strings.HasPrefix(p, "(select ") && !strings.Contains(p[1:], "(") {
				if it, ok := x.symIdx[strings.Fields(p[1:])[1]]; ok {
					for _, srt := range []string{"F32", "F64", "Int"} {
						if strings.Contains(x.items[it].text, "(Array Int "+srt+")") {
							ts = append(ts, "(touch"+srt+" "+p+")")
						}
					}
				}
			}
		}
		rng = and(append([]string{rng}, ts...)...)
	}
	inner := imp(rng, body)
	if kind == "exists" {
		inner = and(rng, body)
	}
	if len(bi.pats) > 0 {
		var ps []string
		for _, p := range sortedKeys(bi.pats) {
			if strings.Contains(p, sym) {
				ps = append(ps, ":pattern ("+p+")")
			}
		}
		if len(ps) > 4 {
			ps = ps[:4]
		}
		if len(ps) > 0 {
			inner = "(! " + inner + " " + strings.Join(ps, " ") + ")"
		}
	}
	return boolVal("(" + kind + " ((" + sym + " Int)) " + inner + ")")
}

// Mods evaluates the modifies clause.
func (c *Contract) Mods(ev *specEnv) []modTarget {
	var r []modTarget
	for _, m := range c.Modifies {
		n0 := len(r)
		r = append(r, ev.modTargets(m)...)
		for k := n0; k < len(r); k++ {
			r[k].root = rootIdent(m)
		}
	}
	return r
}

func (e *specEnv) modTargets(m ast.Expr) []modTarget {
	x := e.x
	switch n := m.(type) {
	case *ast.SliceExpr:
		v := e.eval(n)
		return []modTarget{{slice: &v}}
	case *ast.CallExpr:
		if id, ok := n.Fun.(*ast.Ident); ok && (id.Name == "gpos" || id.Name == "gbytes") && len(n.Args) == 1 {
			b := e.eval(n.Args[0]).C[0]
			if id.Name == "gpos" {
				return []modTarget{{locs: []loc{{key: "ghost.pos", sort: "Int", b: b, i: "0"}}}}
			}
			return []modTarget{{locs: []loc{{key: "ghost.bytes", sort: "(Array Int Int)", b: b, arr: true}}}}
		}
		if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "all" && len(n.Args) == 1 {
			r := e.modTargets(n.Args[0])
			for i := range r {
				if r[i].slice != nil {
					fail("spec: modifies all(...) of a slice")
				}
				r[i].all = true
			}
			return r
		}
	case *ast.SelectorExpr:
		v := e.eval(n.X)
		p, ok := v.T.Underlying().(*types.Pointer)
		if !ok {
			fail("spec: modifies of field of non-pointer")
		}
		s := p.Elem().Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == n.Sel.Name {
				return []modTarget{{locs: x.fieldLocs(typeKey(p.Elem()), s.Field(i), v.C[0], v.C[1])}}
			}
		}
		fail("spec: modifies: no field %s", n.Sel.Name)
	case *ast.StarExpr:
		v := e.eval(n.X)
		p := v.T.Underlying().(*types.Pointer)
		return []modTarget{{locs: x.locs(p.Elem(), v.C[0], v.C[1])}}
	}
	fail("spec: modifies %T", m)
	return nil
}

// cntIdx is the absolute index of a range bound; ground sums get a name so that patterns stay free of arithmetic.
func (x *X) cntIdx(off, i string) string {
	for _, s := range symRe.FindAllString(off+" "+i, -1) {
		if strings.HasPrefix(s, "q_") {
			return add(off, i)
		}
	}
	return x.endOf(off, i)
}

func rootIdent(e ast.Expr) string {
	for {
		switch n := e.(type) {
		case *ast.Ident:
			return n.Name
		case *ast.SliceExpr:
			e = n.X
		case *ast.IndexExpr:
			e = n.X
		case *ast.SelectorExpr:
			e = n.X
		case *ast.StarExpr:
			e = n.X
		case *ast.ParenExpr:
			e = n.X
		case *ast.CallExpr:
			return ""
		default:
			return ""
		}
	}
}

var mfRe = regexp.MustCompile(`\bm_\w+`)
var mfSig = map[string]string{"m_Float32bits": "(F32) Int", "m_Float64bits": "(F64) Int", "m_Float32frombits": "(Int) F32", "m_Float64frombits": "(Int) F64"}
var lgRe = regexp.MustCompile(`\blg_(\w+)`)

// declLogic declares a logic function, those its axioms mention, and the axioms.
func (x *X) declLogic(l *Logic) {
	nm := "lg_" + l.Name
	if _, ok := x.symIdx[nm]; ok {
		return
	}
	for _, a := range x.w.axioms[l.Name] {
		for _, m := range mfRe.FindAllString(a, -1) {
			if sig, ok := mfSig[m]; ok {
				x.declFun(m, sig)
			}
		}
	}
	var sorts []string
	elem := func(t string) string {
		ty, ok := sortOfName(strings.TrimSpace(t))
		if !ok {
			fail("spec: logic parameter type %s", t)
		}
		return smtSortOf(ty)
	}
	for _, p := range l.Params {
		switch {
		case strings.HasPrefix(p, "at "):
			sorts = append(sorts, arraySort(elem(p[3:])), "Int")
		case strings.HasPrefix(p, "seq "):
			sorts = append(sorts, arraySort(elem(p[4:])), "Int")
		case strings.HasPrefix(p, "frames "):
			sorts = append(sorts, arraySort("Int"), arraySort("Int"), "Int", arraySort(arraySort(elem(p[7:]))))
		case strings.HasPrefix(p, "heap "):
			key := strings.TrimSpace(p[5:])
			srt := "Int"
			if k := strings.Index(key, ":"); k > 0 && key[:2] != "E:" {
				srt = key[:k]
			}
			if key == "float32" {
				srt = "F32"
			}
			sorts = append(sorts, arraySort(arraySort(srt)))
		default:
			sorts = append(sorts, elem(p))
		}
	}
	rt, ok := sortOfName(l.Res)
	if !ok {
		fail("spec: logic result type")
	}
	x.declFun(nm, "("+strings.Join(sorts, " ")+") "+smtSortOf(rt))
	for _, a := range x.w.axioms[l.Name] {
		for _, m := range lgRe.FindAllStringSubmatch(a, -1) {
			if o := x.w.logics[m[1]]; o != nil {
				x.declLogic(o)
			}
		}
		x.axiom(nm, a)
	}
}
