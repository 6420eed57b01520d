package main

import (
	"fmt"
	"go/types"
	"math/big"
	"regexp"
	"sort"
	"strings"
)

// ---------------------------------------------------------------- sorts, values

type Comp struct{ Path, Sort string }

// Val is a symbolic Go value: its flattened SMT components.
type Val struct {
	T  types.Type
	C  []string
	Fn *Closure // statically known function value
	F  []Val    // tuple elements (keeps closures)
}

type unsupported struct{ msg string }

func fail(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

func arraySort(s string) string { return "(Array Int " + s + ")" }

func compsOf(t types.Type) []Comp {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.Float32:
			return []Comp{{"", "F32"}}
		case u.Kind() == types.Float64, u.Kind() == types.UntypedFloat:
			return []Comp{{"", "F64"}}
		case u.Info()&types.IsBoolean != 0:
			return []Comp{{"", "Bool"}}
		case u.Info()&types.IsInteger != 0:
			return []Comp{{"", "Int"}}
		case u.Info()&types.IsString != 0:
			return []Comp{{"", "Str"}}
		default:
			return []Comp{{"", "Int"}}
		}
	case *types.Slice:
		return []Comp{{".base", "Int"}, {".off", "Int"}, {".len", "Int"}, {".cap", "Int"}}
	case *types.Pointer:
		return []Comp{{".base", "Int"}, {".idx", "Int"}}
	case *types.Struct:
		var r []Comp
		for i := 0; i < u.NumFields(); i++ {
			for _, c := range compsOf(u.Field(i).Type()) {
				r = append(r, Comp{"." + u.Field(i).Name() + c.Path, c.Sort})
			}
		}
		return r
	case *types.Array:
		var r []Comp
		for _, c := range compsOf(u.Elem()) {
			r = append(r, Comp{"[]" + c.Path, arraySort(c.Sort)})
		}
		return r
	case *types.Tuple:
		var r []Comp
		for i := 0; i < u.Len(); i++ {
			for _, c := range compsOf(u.At(i).Type()) {
				r = append(r, Comp{fmt.Sprintf("#%d%s", i, c.Path), c.Sort})
			}
		}
		return r
	default:
		return []Comp{{"", "Int"}}
	}
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func fsuf(t types.Type) string {
	b := t.Underlying().(*types.Basic)
	if b.Kind() == types.Float32 {
		return "32"
	}
	return "64"
}

// intBits returns width and signedness; 64-bit signed integers are treated as mathematical.
func intBits(t types.Type) (int, bool) {
	switch t.Underlying().(*types.Basic).Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32:
		return 32, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	}
	return 64, true
}

func pow2(n int) string { return new(big.Int).Lsh(big.NewInt(1), uint(n)).String() }

func typeKey(t types.Type) string {
	if n, ok := t.(*types.Named); ok {
		if _, isS := n.Underlying().(*types.Struct); isS {
			return n.Obj().Pkg().Name() + "." + n.Obj().Name()
		}
		return typeKey(n.Underlying())
	}
	if a, ok := t.(*types.Alias); ok {
		return typeKey(types.Unalias(a))
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		return "iface"
	}
	if b, ok := t.(*types.Basic); ok {
		switch b.Kind() {
		case types.Uint8:
			return "uint8"
		case types.Int32:
			return "int32"
		}
		return b.Name()
	}
	return strings.NewReplacer(" ", "_", "(", "<", ")", ">", "|", "!", ";", ",").Replace(types.TypeString(t, func(p *types.Package) string { return p.Name() }))
}

// ---------------------------------------------------------------- emission

type Item struct {
	kind  byte // 'd' definition/declaration, 'a' assertion, 'x' axiom attached to owner symbol
	text  string
	sym   string
	owner string
	node  int
	cand  int // -1, or the candidate invariant whose activity it needs
	deps  []string
}

type Obl struct {
	name  string
	fn    string
	kind  string
	pos   string
	node  int
	seq   int
	reach string
	goal  string
	cand  int
	user  bool
}

type Cand struct {
	desc   string
	active bool
	init   bool // active at the start of the search
	loop   string
	key    string // position-independent identity, used by proof hints
}

type Emit struct {
	items   []Item
	symIdx  map[string]int // symbol -> item index
	symSer  map[string]int
	serial  int
	obls    []Obl
	cands   []Cand
	nodes   []map[int]bool // node -> ancestors (incl. self)
	axOwned map[string][]int
	dry     int
	hash    map[string]string // def text -> symbol
	strs    map[string]string
	notes   map[string]bool
	defs    map[string]string
}

func NewEmit() *Emit {
	return &Emit{symIdx: map[string]int{}, symSer: map[string]int{}, axOwned: map[string][]int{}, hash: map[string]string{}, strs: map[string]string{}, notes: map[string]bool{}, defs: map[string]string{}}
}

var symRe = regexp.MustCompile(`\|[^|]*\||[A-Za-z_!$%&*+./:<=>?@^~-][A-Za-z0-9_!$%&*+./:<=>?@^~-]*`)

func (e *Emit) deps(text string) []string {
	var r []string
	seen := map[string]bool{}
	for _, s := range symRe.FindAllString(text, -1) {
		if seen[s] {
			continue
		}
		seen[s] = true
		if _, ok := e.symIdx[s]; ok {
			r = append(r, s)
		}
	}
	return r
}

func clean(h string) string {
	var b strings.Builder
	for _, c := range h {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' {
			b.WriteRune(c)
		}
	}
	s := b.String()
	if len(s) > 40 {
		s = s[:1] + s[len(s)-39:]
	}
	return s
}

func (e *Emit) fresh(hint, sort string) string {
	e.serial++
	s := fmt.Sprintf("%s!%d", clean("k"+hint), e.serial)
	e.symIdx[s] = len(e.items)
	e.symSer[s] = e.serial
	e.items = append(e.items, Item{kind: 'd', text: fmt.Sprintf("(declare-const %s %s)", s, sort), sym: s, node: -1, cand: -1})
	return s
}

var atomRe = regexp.MustCompile(`^[^ ()]+$`)

// def names a term (no-op for atoms); identical definitions are shared.
func (e *Emit) def(hint, sort, term string) string {
	if atomRe.MatchString(term) || len(term) < 12 && strings.HasPrefix(term, "(- ") {
		return term
	}
	if s, ok := e.hash[sort+term]; ok {
		if _, live := e.symIdx[s]; live {
			return s
		}
	}
	e.serial++
	s := fmt.Sprintf("%s!%d", clean("d"+hint), e.serial)
	d := e.deps(term)
	e.symIdx[s] = len(e.items)
	e.symSer[s] = e.serial
	e.items = append(e.items, Item{kind: 'd', text: fmt.Sprintf("(define-fun %s () %s %s)", s, sort, term), sym: s, node: -1, cand: -1, deps: d})
	e.hash[sort+term] = s
	return s
}

// defc names a term by a constant with a defining equation (the name survives preprocessing,
// so quantifier patterns can mention it).
func (e *Emit) defc(hint, sort, term string) string {
	if atomRe.MatchString(term) {
		return term
	}
	if s, ok := e.hash["c"+sort+term]; ok {
		if _, live := e.symIdx[s]; live {
			return s
		}
	}
	s := e.fresh(hint, sort)
	e.axiom(s, eq(s, term))
	e.defs[s] = term
	e.hash["c"+sort+term] = s
	return s
}

func (e *Emit) defTerm(sym string) (string, bool) {
	if t, ok := e.defs[sym]; ok {
		return t, true
	}
	i, ok := e.symIdx[sym]
	if !ok {
		return "", false
	}
	t := e.items[i].text
	if !strings.HasPrefix(t, "(define-fun ") {
		return "", false
	}
	t = strings.TrimPrefix(t, "(define-fun "+sym+" () ")
	// skip sort
	n := 0
	if t[0] == '(' {
		d := 0
		for k, c := range t {
			if c == '(' {
				d++
			} else if c == ')' {
				d--
				if d == 0 {
					n = k + 1
					break
				}
			}
		}
	} else {
		n = strings.IndexByte(t, ' ')
	}
	return t[n+1 : len(t)-1], true
}

// expand rewrites symbols created at or after serial `from` by their definitions;
// ok is false when the term depends on a declared (not defined) symbol of that age.
func (e *Emit) expand(term string, from int, budget *int) (string, bool) {
	ok := true
	out := symRe.ReplaceAllStringFunc(term, func(s string) string {
		ser, known := e.symSer[s]
		if !known || ser < from || !ok {
			return s
		}
		d, isdef := e.defTerm(s)
		if !isdef {
			ok = false
			return s
		}
		*budget--
		if *budget < 0 {
			ok = false
			return s
		}
		r, k := e.expand(d, from, budget)
		if !k {
			ok = false
		}
		return r
	})
	return out, ok
}

func (e *Emit) invariant(term string, from int) bool {
	b := 400
	_, ok := e.expand(term, from, &b)
	return ok
}

func (e *Emit) assume(node int, reach, fact string) { e.assumeC(node, reach, fact, -1) }
func (e *Emit) assumeC(node int, reach, fact string, cand int) {
	if fact == "true" {
		return
	}
	t := fact
	if reach != "true" {
		t = "(=> " + reach + " " + fact + ")"
	}
	e.items = append(e.items, Item{kind: 'a', text: t, node: node, cand: cand, deps: e.deps(t)})
}

// axiom attaches a globally valid ground fact to a symbol (included only when the symbol is used).
func (e *Emit) axiom(owner, fact string) {
	e.items = append(e.items, Item{kind: 'x', text: fact, owner: owner, node: -1, cand: -1, deps: e.deps(fact)})
	e.axOwned[owner] = append(e.axOwned[owner], len(e.items)-1)
}

func (e *Emit) oblige(o Obl) {
	if o.goal == "true" {
		// trivially true obligations are still counted
	}
	o.seq = len(e.items)
	e.obls = append(e.obls, o)
}

func (e *Emit) newNode(preds ...int) int {
	m := map[int]bool{}
	for _, p := range preds {
		for k := range e.nodes[p] {
			m[k] = true
		}
	}
	id := len(e.nodes)
	m[id] = true
	e.nodes = append(e.nodes, m)
	return id
}

type mark struct{ items, obls, cands, nodes int }

func (e *Emit) mark() mark { return mark{len(e.items), len(e.obls), len(e.cands), len(e.nodes)} }
func (e *Emit) rollback(m mark) {
	for i := len(e.items) - 1; i >= m.items; i-- {
		it := e.items[i]
		if it.sym != "" {
			delete(e.symIdx, it.sym)
		}
		if it.kind == 'x' {
			l := e.axOwned[it.owner]
			for len(l) > 0 && l[len(l)-1] >= m.items {
				l = l[:len(l)-1]
			}
			e.axOwned[it.owner] = l
		}
	}
	e.items = e.items[:m.items]
	e.obls = e.obls[:m.obls]
	e.cands = e.cands[:m.cands]
	e.nodes = e.nodes[:m.nodes]
}

// query renders the satisfiability query for a set of obligations at one program point.
func heavyOf(t string) int {
	m := 0
	if strings.Contains(t, "(cnt") {
		m |= 1
	}
	if strings.Contains(t, "(touch") {
		m |= 2
	}
	return m
}

func (e *Emit) query(o *Obl, goal string, slim bool, prelude func(used map[string]bool) string) string {
	return e.queryN(o, goal, slim, false, prelude)
}
func (e *Emit) queryN(o *Obl, goal string, slim, cores bool, prelude func(used map[string]bool) string) string {
	hv := heavyOf(goal)
	inc := map[int]bool{}
	anc := e.nodes[o.node]
	var work []string
	seen := map[string]bool{}
	push := func(ds []string) {
		for _, d := range ds {
			if !seen[d] {
				seen[d] = true
				work = append(work, d)
			}
		}
	}
	for i := 0; i < o.seq; i++ {
		it := &e.items[i]
		if it.kind == 'a' && (it.node < 0 || anc[it.node]) && (it.cand < 0 || e.cands[it.cand].active) {
			if slim && heavyOf(it.text)&^hv != 0 {
				continue
			}
			inc[i] = true
			push(it.deps)
		}
	}
	push(e.deps(goal))
	push(e.deps(o.reach))
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		i := e.symIdx[s]
		if !inc[i] {
			inc[i] = true
			push(e.items[i].deps)
		}
		for _, j := range e.axOwned[s] {
			if !inc[j] {
				if slim && heavyOf(e.items[j].text)&^hv != 0 {
					continue
				}
				inc[j] = true
				push(e.items[j].deps)
			}
		}
	}
	idx := make([]int, 0, len(inc))
	for i := range inc {
		idx = append(idx, i)
	}
	sort.Ints(idx)
	var b strings.Builder
	used := map[string]bool{}
	for _, i := range idx {
		it := &e.items[i]
		if it.kind == 'd' {
			b.WriteString(it.text + "\n")
		} else if cores && it.cand >= 0 {
			b.WriteString(fmt.Sprintf("(assert (! %s :named cnd_%d))\n", it.text, it.cand))
		} else {
			b.WriteString("(assert " + it.text + ")\n")
		}
		for _, s := range symRe.FindAllString(it.text, -1) {
			used[s] = true
		}
	}
	body := "(assert " + o.reach + ")\n(assert (not " + goal + "))\n"
	for _, s := range symRe.FindAllString(body, -1) {
		used[s] = true
	}
	if cores {
		return "(set-option :produce-unsat-cores true)\n" + prelude(used) + b.String() + body + "(check-sat)\n(get-unsat-core)\n"
	}
	return prelude(used) + b.String() + body + "(check-sat)\n"
}

// ---------------------------------------------------------------- term helpers

func and(ts ...string) string {
	var r []string
	for _, t := range ts {
		if t == "true" || t == "" {
			continue
		}
		if t == "false" {
			return "false"
		}
		r = append(r, t)
	}
	switch len(r) {
	case 0:
		return "true"
	case 1:
		return r[0]
	}
	return "(and " + strings.Join(r, " ") + ")"
}
func or(ts ...string) string {
	var r []string
	for _, t := range ts {
		if t == "false" || t == "" {
			continue
		}
		if t == "true" {
			return "true"
		}
		r = append(r, t)
	}
	switch len(r) {
	case 0:
		return "false"
	case 1:
		return r[0]
	}
	return "(or " + strings.Join(r, " ") + ")"
}
func not(t string) string {
	switch t {
	case "true":
		return "false"
	case "false":
		return "true"
	}
	if strings.HasPrefix(t, "(not ") {
		return t[5 : len(t)-1]
	}
	return "(not " + t + ")"
}
func imp(a, b string) string {
	if a == "true" {
		return b
	}
	if a == "false" || b == "true" {
		return "true"
	}
	return "(=> " + a + " " + b + ")"
}
func ite(c, a, b string) string {
	if c == "true" {
		return a
	}
	if c == "false" {
		return b
	}
	if a == b {
		return a
	}
	return "(ite " + c + " " + a + " " + b + ")"
}
func eq(a, b string) string {
	if a == b {
		return "true"
	}
	return "(= " + a + " " + b + ")"
}
func bigOf(s string) (*big.Int, bool) {
	if strings.HasPrefix(s, "(- ") && strings.HasSuffix(s, ")") {
		n, ok := new(big.Int).SetString(s[3:len(s)-1], 10)
		if !ok {
			return nil, false
		}
		return n.Neg(n), true
	}
	if len(s) == 0 || s[0] < '0' || s[0] > '9' {
		return nil, false
	}
	return new(big.Int).SetString(s, 10)
}
func num(n *big.Int) string {
	if n.Sign() < 0 {
		return "(- " + new(big.Int).Neg(n).String() + ")"
	}
	return n.String()
}
func inum(n int64) string { return num(big.NewInt(n)) }

// endOf adds an offset and a length, seeing through the definition of a length as (end - offset).
func (e *Emit) endOf(a, b string) string {
	if d, ok := e.defs[b]; ok && strings.HasPrefix(d, "(- ") && strings.HasSuffix(d, " "+a+")") {
		if m := d[3 : len(d)-len(a)-2]; atomRe.MatchString(m) {
			return m
		}
	}
	return e.defc("e", "Int", add(a, b))
}
func add(a, b string) string {
	x, ok1 := bigOf(a)
	y, ok2 := bigOf(b)
	if ok1 && ok2 {
		return num(new(big.Int).Add(x, y))
	}
	if ok1 && x.Sign() == 0 {
		return b
	}
	if ok2 && y.Sign() == 0 {
		return a
	}
	// (+ o (- j o)) -> j
	if strings.HasPrefix(b, "(- ") && strings.HasSuffix(b, " "+a+")") && atomRe.MatchString(b[3:len(b)-len(a)-2]) {
		return b[3 : len(b)-len(a)-2]
	}
	return "(+ " + a + " " + b + ")"
}
func sub(a, b string) string {
	x, ok1 := bigOf(a)
	y, ok2 := bigOf(b)
	if ok1 && ok2 {
		return num(new(big.Int).Sub(x, y))
	}
	if ok2 && y.Sign() == 0 {
		return a
	}
	if a == b {
		return "0"
	}
	return "(- " + a + " " + b + ")"
}
func mul(a, b string) string {
	x, ok1 := bigOf(a)
	y, ok2 := bigOf(b)
	if ok1 && ok2 {
		return num(new(big.Int).Mul(x, y))
	}
	if ok1 && x.Sign() == 0 || ok2 && y.Sign() == 0 {
		return "0"
	}
	if ok1 && x.Cmp(big.NewInt(1)) == 0 {
		return b
	}
	if ok2 && y.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	return "(* " + a + " " + b + ")"
}
func le(a, b string) string { return cmpT("<=", a, b, func(c int) bool { return c <= 0 }) }
func lt(a, b string) string { return cmpT("<", a, b, func(c int) bool { return c < 0 }) }
func cmpT(op, a, b string, f func(int) bool) string {
	x, ok1 := bigOf(a)
	y, ok2 := bigOf(b)
	if ok1 && ok2 {
		return fmt.Sprint(f(x.Cmp(y)))
	}
	if a == b {
		return fmt.Sprint(f(0))
	}
	return "(" + op + " " + a + " " + b + ")"
}
func sel(a, i string) string        { return "(select " + a + " " + i + ")" }
func sto(a, i, v string) string     { return "(store " + a + " " + i + " " + v + ")" }
func sel2(h, b, i string) string    { return sel(sel(h, b), i) }
func sto2(h, b, i, v string) string { return sto(h, b, sto(sel(h, b), i, v)) }
