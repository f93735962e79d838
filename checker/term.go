package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Term is a hash-consed immutable value description (Herbrand term). Every value the abstract
// interpreter talks about - integers, byte strings, map states, pointers - is a Term; facts are
// boolean Terms.
type Term struct {
	Op   string
	Sym  string
	Args []*Term
	ID   int
	Typ  types.Type // advisory: type of the value, when known
	deps map[int]bool
	size int
}

type TermTable struct {
	tab  map[string]*Term
	list []*Term
}

var TT = &TermTable{tab: map[string]*Term{}}

func mk(op, sym string, args ...*Term) *Term {
	if (op == "ia" || op == "byteat") && len(args) == 2 {
		// the elements of a part of a list are elements of the list
		for args[0].Op == "drop" || args[0].Op == "take" {
			if args[0].Op == "drop" {
				args = []*Term{args[0].Args[0], mkAdd(args[0].Args[1], args[1])}
			} else {
				args = []*Term{args[0].Args[0], args[1]}
			}
		}
	}
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(sym)
	for _, a := range args {
		sb.WriteByte('|')
		sb.WriteString(strconv.Itoa(a.ID))
	}
	k := sb.String()
	if t, ok := TT.tab[k]; ok {
		return t
	}
	t := &Term{Op: op, Sym: sym, Args: append([]*Term(nil), args...), ID: len(TT.list), size: 1}
	for _, a := range args {
		t.size += a.size
		if t.size > 1<<30 {
			t.size = 1 << 30
		}
		for d := range a.deps {
			if t.deps == nil {
				t.deps = map[int]bool{}
			}
			t.deps[d] = true
		}
	}
	TT.list = append(TT.list, t)
	TT.tab[k] = t
	return t
}

// mkDep creates a term that additionally depends on the given loop instances.
func mkDep(loops []int, op, sym string, args ...*Term) *Term {
	t := mk(op, sym, args...)
	for _, l := range loops {
		if t.deps == nil {
			t.deps = map[int]bool{}
		}
		t.deps[l] = true
	}
	return t
}

func (t *Term) withType(ty types.Type) *Term {
	if t.Typ == nil && ty != nil {
		t.Typ = ty
	}
	return t
}

var (
	tNil   = mk("c", "nil")
	tTrue  = mk("c", "true")
	tFalse = mk("c", "false")
)

func mkInt(v int64) *Term    { return mk("c", strconv.FormatInt(v, 10)) }
func mkBig(v *big.Int) *Term { return mk("c", v.String()) }
func mkStr(s string) *Term   { return mk("s", s) }
func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func (t *Term) isConst() bool { return t.Op == "c" || t.Op == "s" }
func (t *Term) intVal() (*big.Int, bool) {
	if t.Op != "c" {
		return nil, false
	}
	v, ok := new(big.Int).SetString(t.Sym, 10)
	return v, ok
}
func (t *Term) int64() (int64, bool) {
	v, ok := t.intVal()
	if !ok || !v.IsInt64() {
		return 0, false
	}
	return v.Int64(), true
}

func (t *Term) String() string { return t.str(14) }
func (t *Term) Long() string   { return t.str(60) }
func (t *Term) str(depth int) string {
	switch t.Op {
	case "c":
		return t.Sym
	case "s":
		return strconv.Quote(t.Sym)
	case "obj", "param", "glob", "fn":
		return t.Sym
	}
	if depth <= 0 {
		return "…"
	}
	a := make([]string, len(t.Args))
	for i := range t.Args {
		a[i] = t.Args[i].str(depth - 1)
	}
	switch t.Op {
	case "fa":
		return a[0] + "." + t.Sym
	case "at":
		if len(t.Args) > 1 {
			return fmt.Sprintf("*%d~%s", t.Args[1].ID, a[0])
		}
		return "*" + a[0]
	case "res":
		return a[0] + "#" + t.Sym
	case "add":
		return "(" + a[0] + "+" + a[1] + ")"
	case "lin":
		return "(" + t.linString(depth) + ")"
	case "eq":
		return a[0] + " == " + a[1]
	case "le":
		return a[0] + " <= " + a[1]
	case "not":
		return "!(" + a[0] + ")"
	case "imp":
		return "(" + a[0] + " => " + a[1] + ")"
	case "all":
		return "∀" + t.Sym + ". " + a[0]
	case "call":
		return t.Sym + "(" + strings.Join(a, ", ") + ")"
	}
	s := t.Op
	if t.Sym != "" {
		s += ":" + t.Sym
	}
	if len(a) > 0 {
		s += "(" + strings.Join(a, ", ") + ")"
	}
	return s
}

func (t *Term) linString(depth int) string {
	parts := strings.Split(t.Sym, ",")
	var out []string
	for i, a := range t.Args {
		c := parts[i+1]
		if c == "1" {
			out = append(out, a.str(depth-1))
		} else {
			out = append(out, c+"*"+a.str(depth-1))
		}
	}
	if parts[0] != "0" || len(out) == 0 {
		out = append(out, parts[0])
	}
	return strings.Join(out, " + ")
}

// ---- linear integer normal form ----

type Lin struct {
	K    *big.Int
	Vars map[*Term]*big.Int
}

func newLin() *Lin { return &Lin{K: new(big.Int), Vars: map[*Term]*big.Int{}} }

func linOf(t *Term) *Lin {
	l := newLin()
	l.addTerm(t, big.NewInt(1))
	return l
}

func (l *Lin) addTerm(t *Term, c *big.Int) {
	if v, ok := t.intVal(); ok {
		l.K.Add(l.K, new(big.Int).Mul(v, c))
		return
	}
	if t.Op == "lin" {
		parts := strings.Split(t.Sym, ",")
		k, _ := new(big.Int).SetString(parts[0], 10)
		l.K.Add(l.K, k.Mul(k, c))
		for i, a := range t.Args {
			co, _ := new(big.Int).SetString(parts[i+1], 10)
			l.addVar(a, co.Mul(co, c))
		}
		return
	}
	l.addVar(t, c)
}

func (l *Lin) addVar(t *Term, c *big.Int) {
	if e, ok := l.Vars[t]; ok {
		e = new(big.Int).Add(e, c)
		if e.Sign() == 0 {
			delete(l.Vars, t)
		} else {
			l.Vars[t] = e
		}
		return
	}
	if c.Sign() != 0 {
		l.Vars[t] = new(big.Int).Set(c)
	}
}

func (l *Lin) add(o *Lin, c *big.Int) {
	l.K.Add(l.K, new(big.Int).Mul(o.K, c))
	for t, v := range o.Vars {
		l.addVar(t, new(big.Int).Mul(v, c))
	}
}

func (l *Lin) term() *Term {
	if len(l.Vars) == 0 {
		return mkBig(l.K)
	}
	vars := make([]*Term, 0, len(l.Vars))
	for t := range l.Vars {
		vars = append(vars, t)
	}
	sort.Slice(vars, func(i, j int) bool { return vars[i].ID < vars[j].ID })
	if len(vars) == 1 && l.K.Sign() == 0 && l.Vars[vars[0]].IsInt64() && l.Vars[vars[0]].Int64() == 1 {
		return vars[0]
	}
	sym := l.K.String()
	for _, v := range vars {
		sym += "," + l.Vars[v].String()
	}
	return mk("lin", sym, vars...)
}

func mkAdd(a, b *Term) *Term {
	l := linOf(a)
	l.addTerm(b, big.NewInt(1))
	return l.term()
}
func mkSub(a, b *Term) *Term {
	l := linOf(a)
	l.addTerm(b, big.NewInt(-1))
	return l.term()
}
func mkMulC(a *Term, c *big.Int) *Term {
	l := newLin()
	l.addTerm(a, c)
	return l.term()
}

// mkLe builds the canonical form of a <= b over the integers.
func mkLe(a, b *Term) *Term {
	d := linOf(a)
	d.addTerm(b, big.NewInt(-1)) // d <= 0
	if len(d.Vars) == 0 {
		return mkBool(d.K.Sign() <= 0)
	}
	// divide by gcd of coefficients
	g := new(big.Int)
	for _, c := range d.Vars {
		g.GCD(nil, nil, g, new(big.Int).Abs(c))
	}
	if g.Cmp(big.NewInt(1)) > 0 {
		for t, c := range d.Vars {
			d.Vars[t] = new(big.Int).Div(c, g)
		}
		// sum + K <= 0  ->  sum <= -K -> sum/g <= floor(-K/g)
		nk := new(big.Int).Neg(d.K)
		nk.Div(nk, g) // floor for positive g (Euclidean == floor here)
		d.K = nk.Neg(nk)
	}
	l, r := newLin(), newLin()
	for t, c := range d.Vars {
		if c.Sign() > 0 {
			l.addVar(t, c)
		} else {
			r.addVar(t, new(big.Int).Neg(c))
		}
	}
	// l + K <= r
	if len(l.Vars) == 0 {
		l.K.Set(d.K)
	} else {
		r.K.Neg(d.K)
	}
	return mk("le", "", l.term(), r.term())
}

func mkNot(t *Term) *Term {
	switch t {
	case tTrue:
		return tFalse
	case tFalse:
		return tTrue
	}
	switch t.Op {
	case "not":
		return t.Args[0]
	case "le": // !(a<=b) == b+1 <= a
		return mkLe(mkAdd(t.Args[1], mkInt(1)), t.Args[0])
	}
	return mk("not", "", t)
}

// nonNil reports terms that can never equal nil.
func nonNil(t *Term) bool {
	switch t.Op {
	case "at":
		return extError(t)
	case "obj", "fa", "ia", "clo", "fn", "iface", "app", "err", "sl", "str", "struct", "list":
		if t.Op == "list" && len(t.Args) == 0 {
			return false
		}
		return true
	case "upd", "mapnew":
		return true
	}
	return false
}

// extError: the value of an error variable of another module (io.EOF, ...); these are distinct,
// not nil, and never assigned.
func extError(t *Term) bool {
	if t.Op != "at" || len(t.Args) != 1 || t.Args[0].Op != "glob" || strings.HasPrefix(t.Args[0].Sym, modPath) {
		return false
	}
	n, ok := t.Args[0].Typ.(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

func isIntTerm(t *Term) bool {
	if _, ok := t.intVal(); ok || t.Op == "lin" {
		return true
	}
	if t.Typ != nil {
		if b, ok := t.Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			return true
		}
	}
	return false
}

func mkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.isConst() && b.isConst() {
		return tFalse
	}
	if a == tNil || b == tNil {
		x := a
		if a == tNil {
			x = b
		}
		if nonNil(x) {
			return tFalse
		}
	}
	if a == tTrue || a == tFalse {
		a, b = b, a
	}
	if b == tTrue {
		return a
	}
	if b == tFalse {
		return mkNot(a)
	}
	if a.Op == "obj" && b.Op == "obj" {
		return tFalse
	}
	if a.Op == "err" && (b.Op == "err" && strings.HasPrefix(a.Sym, "init:") && strings.HasPrefix(b.Sym, "init:") || b.Op == "iface") ||
		b.Op == "err" && a.Op == "iface" {
		return tFalse
	}
	if extError(a) && (extError(b) || b.Op == "err" && (b.Sym == "new" || strings.HasPrefix(b.Sym, "init:"))) ||
		extError(b) && a.Op == "err" && (a.Sym == "new" || strings.HasPrefix(a.Sym, "init:")) {
		return tFalse
	}
	if a.Op == "err" && b.Op == "err" && (a.Sym == "new" || b.Sym == "new") && !strings.HasPrefix(a.Sym, "of") && !strings.HasPrefix(b.Sym, "of") && !strings.HasPrefix(a.Sym, "join") && !strings.HasPrefix(b.Sym, "join") {
		return tFalse
	}
	_, ai := a.intVal()
	_, bi := b.intVal()
	if ai || bi || (a.Op == "lin") || (b.Op == "lin") {
		d := linOf(a)
		d.addTerm(b, big.NewInt(-1))
		if len(d.Vars) == 0 {
			return mkBool(d.K.Sign() == 0)
		}
		// canonical sign: smallest-ID variable positive
		var first *Term
		for t := range d.Vars {
			if first == nil || t.ID < first.ID {
				first = t
			}
		}
		if d.Vars[first].Sign() < 0 {
			n := newLin()
			n.add(d, big.NewInt(-1))
			d = n
		}
		l, r := newLin(), newLin()
		for t, c := range d.Vars {
			if c.Sign() > 0 {
				l.addVar(t, c)
			} else {
				r.addVar(t, new(big.Int).Neg(c))
			}
		}
		r.K.Neg(d.K)
		a, b = l.term(), r.term()
		if a.ID > b.ID && !b.isConst() {
			a, b = b, a
		}
		return mk("eq", "", a, b)
	}
	if a.isConst() || (!b.isConst() && a.ID > b.ID) {
		a, b = b, a
	}
	return mk("eq", "", a, b)
}

// contains reports whether t has sub as a subterm.
func (t *Term) contains(sub *Term) bool {
	if t == sub {
		return true
	}
	if sub.ID > t.ID {
		return false
	}
	seen := map[*Term]bool{}
	var rec func(x *Term) bool
	rec = func(x *Term) bool {
		if x == sub {
			return true
		}
		if seen[x] || x.ID < sub.ID {
			return false
		}
		seen[x] = true
		for _, a := range x.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// walk visits all distinct subterms.
func (t *Term) walk(f func(*Term) bool) {
	seen := map[*Term]bool{}
	var rec func(x *Term)
	rec = func(x *Term) {
		if seen[x] {
			return
		}
		seen[x] = true
		if !f(x) {
			return
		}
		for _, a := range x.Args {
			rec(a)
		}
	}
	rec(t)
}

// subst replaces subterms by a map (rebuilding through the smart constructors where needed).
func subst(t *Term, m map[*Term]*Term) *Term {
	cache := map[*Term]*Term{}
	var rec func(x *Term) *Term
	rec = func(x *Term) *Term {
		if r, ok := m[x]; ok {
			return r
		}
		if len(x.Args) == 0 {
			return x
		}
		if r, ok := cache[x]; ok {
			return r
		}
		args := make([]*Term, len(x.Args))
		ch := false
		for i, a := range x.Args {
			args[i] = rec(a)
			ch = ch || args[i] != a
		}
		r := x
		if ch {
			r = rebuild(x, args)
		}
		cache[x] = r
		return r
	}
	return rec(t)
}

func rebuild(x *Term, args []*Term) *Term {
	switch x.Op {
	case "lin":
		parts := strings.Split(x.Sym, ",")
		l := newLin()
		l.K.SetString(parts[0], 10)
		for i, a := range args {
			c, _ := new(big.Int).SetString(parts[i+1], 10)
			l.addTerm(a, c)
		}
		return l.term()
	case "le":
		return mkLe(args[0], args[1])
	case "eq":
		return mkEq(args[0], args[1])
	case "not":
		return mkNot(args[0])
	case "len":
		return mkLen(args[0])
	case "and":
		return mkAnd(args...)
	case "or":
		return mkOr(args...)
	case "look", "has":
		return rebuildLook(x, args)
	case "take", "drop":
		if x.Op == "take" {
			return mkTake(args[0], args[1])
		}
		if x.Op == "drop" {
			return mkDrop(args[0], args[1])
		}
	}
	return mk(x.Op, x.Sym, args...).withType(x.Typ)
}

// rebuildLook evaluates lookups in maps whose keys are constants.
func rebuildLook(x *Term, args []*Term) *Term {
	m, k := args[0], args[1]
	for m.Op == "upd" {
		if m.Args[1] == k {
			if x.Op == "has" {
				return tTrue
			}
			return m.Args[2]
		}
		if !k.isConst() || !m.Args[1].isConst() {
			break
		}
		m = m.Args[0]
	}
	if m.Op == "mapnew" || m == tNil {
		if x.Op == "has" {
			return tFalse
		}
		if x.Typ != nil {
			if z := zeroConst(x.Typ); z != nil {
				return z
			}
		}
	}
	return mk(x.Op, x.Sym, m, k).withType(x.Typ)
}

func zeroConst(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsNumeric != 0:
			return mkInt(0)
		case u.Info()&types.IsString != 0:
			return tEmpty
		}
		return nil
	case *types.Slice, *types.Pointer, *types.Map, *types.Interface, *types.Signature, *types.Chan:
		return tNil
	}
	return nil
}

// ---- byte strings ----

// mkLen is the length of a slice/string/map term.
func mkLen(t *Term) *Term {
	switch t.Op {
	case "s":
		return mkInt(int64(len(t.Sym)))
	case "list":
		return mkInt(int64(len(t.Args)))
	case "app":
		if t.Args[1].Op == "list" {
			return mkAdd(mkLen(t.Args[0]), mkInt(int64(len(t.Args[1].Args))))
		}
		return mkAdd(mkLen(t.Args[0]), mkLen(t.Args[1]))
	case "zeros":
		return t.Args[0]
	case "put", "copyinto", "updidx", "sorted":
		return mkLen(t.Args[0])
	case "take":
		return t.Args[1]
	case "fileread", "section":
		return t.Args[len(t.Args)-1]
	case "slice":
		lo, hi := t.Args[1], t.Args[2]
		if hi == tNil {
			return mkSub(mkLen(t.Args[0]), lo)
		}
		return mkSub(hi, lo)
	case "drop":
		return mkSub(mkLen(t.Args[0]), t.Args[1])
	case "dropLP":
		return mkSub(mkSub(mkLen(t.Args[0]), mkInt(4)), mkLen(mk("LP", "", t.Args[0])))
	case "LP":
		return stripConv(mkLE(4, "int32", mkTake(t.Args[0], mkInt(4))))
	case "hashsum":
		if n, ok := hashSizes[t.Sym]; ok {
			return mkInt(n)
		}
	case "full":
		return mkLen(t.Args[0])
	case "sl":
		return mkSub(t.Args[2], t.Args[1])
	case "errs":
		return mkAdd(mkLen(t.Args[0]), mk("added", "", t.Args[1]))
	case "cat":
		r := mkInt(0)
		for _, a := range t.Args {
			r = mkAdd(r, mkLen(a))
		}
		return r
	case "byte1":
		return mkInt(1)
	case "encle", "encbe":
		n, _ := strconv.Atoi(t.Sym)
		return mkInt(int64(n / 8))
	}
	if t == tNil {
		return mkInt(0)
	}
	return mk("len", "", t)
}

var hashSizes = map[string]int64{"sha256": 32, "sha512": 64, "sha1": 20, "md5": 16, "sha224": 28, "sha384": 48}

func stripConv(t *Term) *Term {
	for t.Op == "conv" {
		t = t.Args[0]
	}
	return t
}

func mkLE(n int, ty string, bytes *Term) *Term { return mk("le"+strconv.Itoa(n*8), ty, bytes) }

// prefixedBy: when s is drop(b,4) and n the little-endian length at the start of b, returns b.
func prefixedBy(s, n *Term) *Term {
	if s.Op != "drop" {
		return nil
	}
	m := stripConv(n)
	if !strings.HasPrefix(m.Op, "le32") || len(m.Args) != 1 {
		return nil
	}
	p := m.Args[0] // take(b,4)
	if p.Op != "take" || p.Args[1] != mkInt(4) {
		return nil
	}
	if mkDrop(p.Args[0], mkInt(4)) == s {
		return p.Args[0]
	}
	return nil
}

// mkTake: the first n bytes of s.
func mkTake(s, n *Term) *Term {
	// take(drop(S,4), le32(take(S,4))) == LP(S)
	if b := prefixedBy(s, n); b != nil {
		return mk("LP", "", b)
	}
	if mkLen(s) == n {
		return s
	}
	if k, ok := n.int64(); ok && k == 0 {
		return tEmpty
	}
	if s.Op == "put" && mkLen(s.Args[2]) == n {
		// what was just written at the start
		if k, ok := s.Args[1].int64(); ok && k == 0 {
			return s.Args[2]
		}
	}
	return mk("take", "", s, n)
}

func mkDrop(s, n *Term) *Term {
	if k, ok := n.int64(); ok && k == 0 {
		return s
	}
	if s.Op == "drop" {
		if b := prefixedBy(s, n); b != nil {
			return mk("dropLP", "", b)
		}
		return mkDrop(s.Args[0], mkAdd(s.Args[1], n))
	}
	return mk("drop", "", s, n)
}

func debugf(f string, a ...interface{}) {
	if debug {
		fmt.Printf(f+"\n", a...)
	}
}

var debug bool
