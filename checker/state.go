package main

import (
	"go/types"
	"math/big"
	"sort"
	"strings"
)

// Dom is the set of values a term may have: a finite set of constants, or everything within an
// interval except a finite set of constants.
type Dom struct {
	neg    bool
	set    []*Term // sorted by ID
	lo, hi *big.Int
}

func (d *Dom) has(c *Term) bool {
	for _, e := range d.set {
		if e == c {
			return true
		}
	}
	return false
}

// admits reports whether constant c is in the domain.
func (d *Dom) admits(c *Term) bool {
	if !d.neg {
		return d.has(c)
	}
	if d.has(c) {
		return false
	}
	if v, ok := c.intVal(); ok {
		if d.lo != nil && v.Cmp(d.lo) < 0 || d.hi != nil && v.Cmp(d.hi) > 0 {
			return false
		}
	}
	return true
}

func sortTerms(s []*Term) []*Term {
	sort.Slice(s, func(i, j int) bool { return s[i].ID < s[j].ID })
	var u []*Term
	for i, c := range s {
		if i == 0 || c != s[i-1] {
			u = append(u, c)
		}
	}
	return u
}

func bigEq(a, b *big.Int) bool {
	if a == nil || b == nil {
		return a == b
	}
	return a.Cmp(b) == 0
}

func (d *Dom) equal(o *Dom) bool {
	if d == o {
		return true
	}
	if d == nil || o == nil || d.neg != o.neg || len(d.set) != len(o.set) || !bigEq(d.lo, o.lo) || !bigEq(d.hi, o.hi) {
		return false
	}
	for i := range d.set {
		if d.set[i] != o.set[i] {
			return false
		}
	}
	return true
}

func (d *Dom) single() *Term {
	if d == nil {
		return nil
	}
	if !d.neg && len(d.set) == 1 {
		return d.set[0]
	}
	if d.neg && d.lo != nil && d.hi != nil && d.lo.Cmp(d.hi) == 0 {
		return mkBig(d.lo)
	}
	return nil
}

// domMeet intersects; nil result with ok=false means empty.
func domMeet(a, b *Dom) (*Dom, bool) {
	if a == nil {
		return b, true
	}
	if b == nil {
		return a, true
	}
	if !a.neg || !b.neg {
		if a.neg {
			a, b = b, a
		}
		var keep []*Term
		for _, c := range a.set {
			if b.admits(c) {
				keep = append(keep, c)
			}
		}
		if len(keep) == 0 {
			return nil, false
		}
		return &Dom{set: keep}, true
	}
	r := &Dom{neg: true, set: sortTerms(append(append([]*Term(nil), a.set...), b.set...)), lo: a.lo, hi: a.hi}
	if b.lo != nil && (r.lo == nil || b.lo.Cmp(r.lo) > 0) {
		r.lo = b.lo
	}
	if b.hi != nil && (r.hi == nil || b.hi.Cmp(r.hi) < 0) {
		r.hi = b.hi
	}
	return r.normalise()
}

func (r *Dom) normalise() (*Dom, bool) {
	one := big.NewInt(1)
	for {
		ch := false
		if r.lo != nil && r.has(mkBig(r.lo)) {
			r.lo = new(big.Int).Add(r.lo, one)
			ch = true
		}
		if r.hi != nil && r.has(mkBig(r.hi)) {
			r.hi = new(big.Int).Sub(r.hi, one)
			ch = true
		}
		if !ch {
			break
		}
	}
	if r.lo != nil && r.hi != nil && r.lo.Cmp(r.hi) > 0 {
		return nil, false
	}
	if r.lo != nil || r.hi != nil {
		var keep []*Term
		for _, c := range r.set {
			if v, ok := c.intVal(); ok {
				if r.lo != nil && v.Cmp(r.lo) < 0 || r.hi != nil && v.Cmp(r.hi) > 0 {
					continue
				}
			}
			keep = append(keep, c)
		}
		r.set = keep
	}
	return r, true
}

// domJoin is the union; exact reports whether no value was added.
func domJoin(a, b *Dom) (r *Dom, exact bool) {
	if a == nil || b == nil {
		return nil, a == b || true
	}
	if !a.neg && !b.neg {
		s := sortTerms(append(append([]*Term(nil), a.set...), b.set...))
		if len(s) > 40 {
			return hull(s), false
		}
		return &Dom{set: s}, true
	}
	if a.neg && b.neg {
		r = &Dom{neg: true}
		for _, c := range a.set {
			if !b.admits(c) {
				r.set = append(r.set, c)
			}
		}
		for _, c := range b.set {
			if !a.admits(c) {
				r.set = append(r.set, c)
			}
		}
		r.set = sortTerms(r.set)
		exact = true
		one := big.NewInt(1)
		// exact when the intervals overlap or touch
		if a.hi != nil && b.lo != nil && new(big.Int).Add(a.hi, one).Cmp(b.lo) < 0 {
			exact = false
		}
		if b.hi != nil && a.lo != nil && new(big.Int).Add(b.hi, one).Cmp(a.lo) < 0 {
			exact = false
		}
		if a.lo != nil && b.lo != nil {
			r.lo = a.lo
			if b.lo.Cmp(a.lo) < 0 {
				r.lo = b.lo
			}
		}
		if a.hi != nil && b.hi != nil {
			r.hi = a.hi
			if b.hi.Cmp(a.hi) > 0 {
				r.hi = b.hi
			}
		}
		if len(r.set) == 0 && r.lo == nil && r.hi == nil {
			return nil, exact
		}
		return r, exact
	}
	if a.neg {
		a, b = b, a
	}
	// a finite, b cofinite
	r = &Dom{neg: true, lo: b.lo, hi: b.hi}
	exact = true
	for _, c := range b.set {
		if !a.has(c) {
			r.set = append(r.set, c)
		}
	}
	for _, c := range a.set {
		v, ok := c.intVal()
		if !ok {
			if b.lo != nil || b.hi != nil {
				return nil, false
			}
			continue
		}
		if r.lo != nil && v.Cmp(r.lo) < 0 {
			if new(big.Int).Sub(r.lo, big.NewInt(1)).Cmp(v) != 0 {
				exact = false
			}
			r.lo = v
		}
		if r.hi != nil && v.Cmp(r.hi) > 0 {
			if new(big.Int).Add(r.hi, big.NewInt(1)).Cmp(v) != 0 {
				exact = false
			}
			r.hi = v
		}
	}
	if len(r.set) == 0 && r.lo == nil && r.hi == nil {
		return nil, exact
	}
	return r, exact
}

// domUnion is the exact union of two small sets of integers: their hull without what is between them.
func domUnion(a, b *Dom) *Dom {
	d := &Dom{neg: true}
	for _, o := range []*Dom{a, b} {
		if !o.neg {
			o = hull(o.set)
		}
		if o == nil || o.lo == nil || o.hi == nil {
			return nil
		}
		if d.lo == nil || o.lo.Cmp(d.lo) < 0 {
			d.lo = o.lo
		}
		if d.hi == nil || o.hi.Cmp(d.hi) > 0 {
			d.hi = o.hi
		}
	}
	if w := new(big.Int).Sub(d.hi, d.lo); w.Cmp(big.NewInt(256)) >= 0 {
		return nil
	}
	for v := d.lo; v.Cmp(d.hi) <= 0; v = new(big.Int).Add(v, bigOne) {
		if t := mkBig(v); !a.admits(t) && !b.admits(t) {
			d.set = append(d.set, t)
		}
	}
	d.set = sortTerms(d.set)
	return d
}

func hull(s []*Term) *Dom {
	var lo, hi *big.Int
	for _, c := range s {
		v, ok := c.intVal()
		if !ok {
			return nil
		}
		if lo == nil || v.Cmp(lo) < 0 {
			lo = v
		}
		if hi == nil || v.Cmp(hi) > 0 {
			hi = v
		}
	}
	return &Dom{neg: true, lo: lo, hi: hi}
}

// State is the memory and the path facts of one partition of executions.
type State struct {
	mem   map[*Term]*Term // address -> value
	facts map[*Term]bool
	dom   map[*Term]*Dom
	bot   bool
}

func newState() *State {
	return &State{mem: map[*Term]*Term{}, facts: map[*Term]bool{}, dom: map[*Term]*Dom{}}
}

func (s *State) clone() *State {
	n := &State{mem: make(map[*Term]*Term, len(s.mem)+4), facts: make(map[*Term]bool, len(s.facts)+4),
		dom: make(map[*Term]*Dom, len(s.dom)+2), bot: s.bot}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k := range s.facts {
		n.facts[k] = true
	}
	for k, v := range s.dom {
		n.dom[k] = v
	}
	return n
}

func (s *State) sortedFacts() []*Term {
	l := make([]*Term, 0, len(s.facts))
	for f := range s.facts {
		l = append(l, f)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].ID < l[j].ID })
	return l
}

func (s *State) sortedMem() []*Term {
	l := make([]*Term, 0, len(s.mem))
	for f := range s.mem {
		l = append(l, f)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].ID < l[j].ID })
	return l
}

func (s *State) sortedDom() []*Term {
	l := make([]*Term, 0, len(s.dom))
	for f := range s.dom {
		l = append(l, f)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].ID < l[j].ID })
	return l
}

// domOf views a fact as a constraint on a single term.
func domOf(f *Term) (x *Term, d *Dom) {
	switch f.Op {
	case "eq":
		if f.Args[1].isConst() && f.Args[0].Op != "lin" {
			return f.Args[0], &Dom{set: []*Term{f.Args[1]}}
		}
	case "not":
		e := f.Args[0]
		if e.Op == "eq" && e.Args[1].isConst() && e.Args[0].Op != "lin" {
			return e.Args[0], &Dom{neg: true, set: []*Term{e.Args[1]}}
		}
	case "le":
		l, r := f.Args[0], f.Args[1]
		if v, ok := r.intVal(); ok && l.Op != "lin" {
			return l, &Dom{neg: true, hi: v}
		}
		if v, ok := l.intVal(); ok && r.Op != "lin" {
			return r, &Dom{neg: true, lo: v}
		}
	case "in":
		return f.Args[0], &Dom{set: sortTerms(append([]*Term(nil), f.Args[1:]...))}
	}
	return nil, nil
}

func mkIn(x *Term, set []*Term) *Term {
	u := sortTerms(append([]*Term(nil), set...))
	if len(u) == 1 {
		return mkEq(x, u[0])
	}
	return mk("in", "", append([]*Term{x}, u...)...)
}

func (s *State) getDom(x *Term) *Dom { return s.dom[x] }

func (s *State) setDom(x *Term, d *Dom) {
	if s.bot || d == nil {
		return
	}
	old := s.dom[x]
	n, ok := domMeet(old, d)
	if ok && n.neg {
		// intrinsic bounds
		lo, hi := typeBounds(x)
		if n.lo != nil && hi != nil && n.lo.Cmp(hi) > 0 || n.hi != nil && lo != nil && n.hi.Cmp(lo) < 0 {
			ok = false
		}
		if ok && n.lo != nil && hi != nil && n.lo.Cmp(hi) == 0 {
			n = &Dom{set: []*Term{mkBig(hi)}}
		} else if ok && n.hi != nil && lo != nil && n.hi.Cmp(lo) == 0 {
			n = &Dom{set: []*Term{mkBig(lo)}}
		}
	}
	if !ok {
		s.bot = true
		return
	}
	if n.equal(old) {
		return
	}
	if c := n.single(); c != nil && n.neg {
		n = &Dom{set: []*Term{c}}
	}
	s.dom[x] = n
	if c := n.single(); c != nil {
		// a nil slice/string/map is empty and so on
		if c == tNil {
			if x.Op == "len" {
				return
			}
		}
		if x.Op == "len" {
			if v, ok := c.int64(); ok && v == 0 && x.Args[0].Op == "app" {
			}
		}
	}
}

// assume adds a fact; the state becomes bottom if it contradicts what is known.
func (s *State) assume(f *Term) {
	if s.bot || f == tTrue {
		return
	}
	switch s.eval(f) {
	case 1:
		return
	case -1:
		s.bot = true
		return
	}
	switch f.Op {
	case "and":
		for _, a := range f.Args {
			s.assume(a)
		}
		return
	case "not":
		if f.Args[0].Op == "or" {
			for _, a := range f.Args[0].Args {
				s.assume(mkNot(a))
			}
			return
		}
	}
	if x, d := domOf(f); x != nil {
		s.setDom(x, d)
		if x.Op == "dyntype" && f.Op == "eq" {
			s.assume(mkNot(mkEq(x.Args[0], tNil)))
		}
		return
	}
	s.facts[f] = true
	switch f.Op {
	case "has":
		if ks, ok := constKeys(f.Args[0]); ok {
			s.setDom(f.Args[1], &Dom{set: ks})
		}
	case "not":
		if g := f.Args[0]; g.Op == "has" {
			if ks, ok := constKeys(g.Args[0]); ok {
				s.setDom(g.Args[1], &Dom{neg: true, set: ks})
			}
		}
	case "eq":
		x, y := f.Args[0], f.Args[1]
		if x.Op != "lin" && y.Op != "lin" {
			dx, dy := s.dom[x], s.dom[y]
			s.setDom(x, dy)
			s.setDom(y, dx)
		}
	case "le":
		if rev := mkLe(f.Args[1], f.Args[0]); rev.Op == "le" && s.facts[rev] {
			s.assume(mkEq(f.Args[0], f.Args[1]))
		}
		// a sum of non-negative terms bounded by a constant
		l := linLe(f)
		if len(l.Vars) > 1 {
			s.propagateBounds(l)
		}
	}
}

// propagateBounds derives per-variable bounds of sum(c_i x_i)+K <= 0.
func (s *State) propagateBounds(l *Lin) {
	for x, c := range l.Vars {
		if new(big.Int).Abs(c).Cmp(bigOne) != 0 {
			continue
		}
		// c*x <= -K - sum others(min)
		rest := new(big.Int).Neg(l.K)
		ok := true
		for y, d := range l.Vars {
			if y == x {
				continue
			}
			lo, hi := s.bounds(y)
			var b *big.Int
			if d.Sign() > 0 {
				b = lo
			} else {
				b = hi
			}
			if b == nil {
				ok = false
				break
			}
			rest.Sub(rest, new(big.Int).Mul(d, b))
		}
		if !ok || rest.BitLen() > 62 {
			continue
		}
		if c.Sign() > 0 {
			s.setDom(x, &Dom{neg: true, hi: rest})
		} else {
			s.setDom(x, &Dom{neg: true, lo: rest.Neg(rest)})
		}
		if s.bot {
			return
		}
	}
}

func (s *State) bounds(x *Term) (lo, hi *big.Int) {
	lo, hi = typeBounds(x)
	if d := s.dom[x]; d != nil {
		if d.neg {
			if d.lo != nil && (lo == nil || d.lo.Cmp(lo) > 0) {
				lo = d.lo
			}
			if d.hi != nil && (hi == nil || d.hi.Cmp(hi) < 0) {
				hi = d.hi
			}
			for i := 0; i <= len(d.set); i++ {
				if lo != nil && d.has(mkBig(lo)) {
					lo = new(big.Int).Add(lo, bigOne)
				}
				if hi != nil && d.has(mkBig(hi)) {
					hi = new(big.Int).Sub(hi, bigOne)
				}
			}
		} else if h := hull(d.set); h != nil {
			lo, hi = h.lo, h.hi
		}
	}
	return
}

// eval decides a boolean term: 1 true, -1 false, 0 unknown.
func (s *State) eval(f *Term) int { return s.evalD(f, 3) }

func (s *State) holds(f *Term) bool { return s.bot || s.evalD(f, 4) == 1 }

func (s *State) evalD(f *Term, d int) int {
	if s.bot {
		return 1
	}
	switch f {
	case tTrue:
		return 1
	case tFalse:
		return -1
	}
	if s.facts[f] {
		return 1
	}
	switch f.Op {
	case "not":
		return -s.evalD(f.Args[0], d)
	case "and":
		r := 1
		for _, a := range f.Args {
			switch s.evalD(a, d) {
			case -1:
				return -1
			case 0:
				r = 0
			}
		}
		return r
	case "or":
		r := -1
		for _, a := range f.Args {
			switch s.evalD(a, d) {
			case 1:
				return 1
			case 0:
				r = 0
			}
		}
		return r
	}
	if x, dm := domOf(f); x != nil {
		if r := s.evalDom(x, dm); r != 0 {
			return r
		}
	}
	switch f.Op {
	case "eq":
		if s.facts[mk("not", "", f)] {
			return -1
		}
		x, c := f.Args[0], f.Args[1]
		if dx, dc := s.dom[x], s.dom[c]; dx != nil && dc != nil {
			if _, ok := domMeet(dx, dc); !ok {
				return -1
			}
			if a, b := dx.single(), dc.single(); a != nil && a == b {
				return 1
			}
		}
		if c == tNil {
			// error lists hold no nil (decided by errorDiscipline)
			if x.Op == "at" && x.Args[0].Op == "ia" {
				if l := x.Args[0].Args[0]; l.Op == "errs" || l.Op == "at" && l.Args[0].Op == "fa" && strings.HasSuffix(l.Args[0].Sym, ".Errors") {
					return -1
				}
			}
			// len(x) > 0 implies x != nil
			if l := mkLen(x); l.Op == "len" && s.dom[l] != nil {
				if lo := s.dom[l].lo; s.dom[l].neg && lo != nil && lo.Sign() > 0 {
					return -1
				}
			}
			return 0
		}
		if _, isInt := c.intVal(); (isInt || c.Op == "lin" || x.Op == "lin" || isIntTerm(x) && isIntTerm(c)) && d > 0 {
			if s.provable(mkLe(mkAdd(x, mkInt(1)), c), d) || s.provable(mkLe(mkAdd(c, mkInt(1)), x), d) {
				return -1
			}
			if s.provable(mkLe(x, c), d) && s.provable(mkLe(c, x), d) {
				return 1
			}
		}
	case "le":
		if s.facts[mk("not", "", f)] {
			return -1
		}
		if d > 0 {
			if s.provable(f, d) {
				return 1
			}
			if s.provable(mkNot(f), d) {
				return -1
			}
		}
	default:
		if s.facts[mk("not", "", f)] {
			return -1
		}
		if c := s.dom[f].single(); c != nil {
			if c == tTrue {
				return 1
			} else if c == tFalse {
				return -1
			}
		}
	}
	return 0
}

func (s *State) evalDom(x *Term, q *Dom) int {
	cur := s.dom[x]
	lo, hi := typeBounds(x)
	if cur == nil {
		if lo == nil && hi == nil {
			return 0
		}
		cur = &Dom{neg: true, lo: lo, hi: hi}
	}
	if !cur.neg {
		all, any := true, false
		for _, c := range cur.set {
			if q.admits(c) {
				any = true
			} else {
				all = false
			}
		}
		if all {
			return 1
		}
		if !any {
			return -1
		}
		return 0
	}
	l, h := s.bounds(x)
	if !q.neg {
		any := false
		for _, c := range q.set {
			if cur.admits(c) {
				if v, ok := c.intVal(); ok && (l != nil && v.Cmp(l) < 0 || h != nil && v.Cmp(h) > 0) {
					continue
				}
				any = true
			}
		}
		if !any {
			return -1
		}
		if l != nil && h != nil && l.Cmp(h) == 0 && q.has(mkBig(l)) {
			return 1
		}
		return 0
	}
	// both cofinite
	ok := true
	if q.lo != nil {
		if h != nil && h.Cmp(q.lo) < 0 {
			return -1
		}
		if l == nil || l.Cmp(q.lo) < 0 {
			ok = false
		}
	}
	if q.hi != nil {
		if l != nil && l.Cmp(q.hi) > 0 {
			return -1
		}
		if h == nil || h.Cmp(q.hi) > 0 {
			ok = false
		}
	}
	for _, c := range q.set {
		if !cur.has(c) {
			v, isI := c.intVal()
			if isI && (l != nil && v.Cmp(l) < 0 || h != nil && v.Cmp(h) > 0) {
				continue
			}
			ok = false
		}
	}
	if ok {
		return 1
	}
	return 0
}

// ---- linear reasoning ----

var big64 = new(big.Int).Lsh(big.NewInt(1), 50)

// typeBounds returns intrinsic bounds of an atom.
func typeBounds(t *Term) (lo, hi *big.Int) {
	switch t.Op {
	case "len", "cap", "popcount", "added", "hashsize":
		return big.NewInt(0), big64
	case "fsize":
		return big.NewInt(0), big64
	case "and":
		if v, ok := t.Args[1].intVal(); ok && v.Sign() >= 0 {
			return big.NewInt(0), v
		}
	case "min":
		l0, h0 := typeBounds(t.Args[0])
		l1, h1 := typeBounds(t.Args[1])
		if l0 != nil && l1 != nil {
			lo = l0
			if l1.Cmp(lo) < 0 {
				lo = l1
			}
		}
		hi = h0
		if h1 != nil && (hi == nil || h1.Cmp(hi) < 0) {
			hi = h1
		}
		return
	}
	k := ""
	if (strings.HasPrefix(t.Op, "le") || strings.HasPrefix(t.Op, "be")) && len(t.Op) > 2 {
		k = t.Sym
	}
	if t.Op == "conv" {
		k = t.Sym
	}
	if t.Op == "byteat" {
		k = "uint8"
	}
	if k == "" && t.Typ != nil {
		k = basicKind(t.Typ)
	}
	switch k {
	case "uint8", "byte":
		return big.NewInt(0), big.NewInt(255)
	case "uint16":
		return big.NewInt(0), big.NewInt(65535)
	case "uint32":
		return big.NewInt(0), big.NewInt(1<<32 - 1)
	case "uint64", "uint", "uintptr":
		return big.NewInt(0), new(big.Int).SetUint64(1<<64 - 1)
	case "int8":
		return big.NewInt(-128), big.NewInt(127)
	case "int16":
		return big.NewInt(-32768), big.NewInt(32767)
	case "int32":
		return big.NewInt(-1 << 31), big.NewInt(1<<31 - 1)
	case "int", "int64":
		return big.NewInt(-1 << 63), big.NewInt(1<<63 - 1)
	}
	return nil, nil
}

var bigOne = big.NewInt(1)

func linLe(f *Term) *Lin { // L <= 0
	l := linOf(f.Args[0])
	l.addTerm(f.Args[1], big.NewInt(-1))
	return l
}

// provable tries to show the le-term f from the le/eq facts by a bounded search for a positive
// linear combination.
func (s *State) provable(f *Term, depth int) bool { return s.search(f, depth, 300) }

// deep is holds with a longer search, for the rules.
func (s *State) deep(f *Term) bool {
	if s.holds(f) {
		return true
	}
	for d := 4; d < 10; d++ {
		if s.search(f, d, 20000) {
			return true
		}
	}
	return false
}

// deep1 is holds with a somewhat longer search.
func (s *State) deep1(f *Term) bool {
	if s.holds(f) {
		return true
	}
	if f.Op == "eq" {
		a, b := mkLe(f.Args[0], f.Args[1]), mkLe(f.Args[1], f.Args[0])
		return s.deep1(a) && s.deep1(b)
	}
	return f.Op == "le" && s.search(f, 5, 3000)
}

func (s *State) search(f *Term, depth, budget int) bool {
	if f == tTrue {
		return true
	}
	if f == tFalse || f.Op != "le" {
		return false
	}
	if s.facts[f] {
		return true
	}
	goal := linLe(f)
	var idx map[*Term][]*Lin
	build := func() {
		idx = map[*Term][]*Lin{}
		addL := func(l *Lin) {
			for v := range l.Vars {
				idx[v] = append(idx[v], l)
			}
		}
		for _, g := range s.sortedFacts() {
			switch g.Op {
			case "le":
				addL(linLe(g))
			case "eq":
				if _, ok := g.Args[1].intVal(); ok || g.Args[0].Op == "lin" || g.Args[1].Op == "lin" || isIntTerm(g.Args[0]) {
					l := linOf(g.Args[0])
					l.addTerm(g.Args[1], big.NewInt(-1))
					addL(l)
					n := newLin()
					n.add(l, big.NewInt(-1))
					addL(n)
				}
			}
		}
	}
	minLins := func(v *Term) []*Lin {
		// min(a,b) <= a, <= b
		if v.Op != "min" {
			return nil
		}
		var out []*Lin
		for _, a := range v.Args {
			l := newLin()
			l.addVar(v, bigOne)
			l.addTerm(a, big.NewInt(-1))
			out = append(out, l)
		}
		return out
	}
	var rec func(g *Lin, d int) bool
	rec = func(g *Lin, d int) bool {
		if len(g.Vars) == 0 {
			return g.K.Sign() <= 0
		}
		mx := new(big.Int).Set(g.K)
		ok := true
		for v, c := range g.Vars {
			lo, hi := s.bounds(v)
			b := lo
			if c.Sign() > 0 {
				b = hi
			}
			if b == nil {
				ok = false
				break
			}
			mx.Add(mx, new(big.Int).Mul(c, b))
		}
		if ok && mx.Sign() <= 0 {
			return true
		}
		if d == 0 {
			return false
		}
		if idx == nil {
			build()
		}
		vars := make([]*Term, 0, len(g.Vars))
		for v := range g.Vars {
			vars = append(vars, v)
		}
		sort.Slice(vars, func(i, j int) bool { return vars[i].ID < vars[j].ID })
		for _, v := range vars {
			c := g.Vars[v]
			for _, l := range append(minLins(v), idx[v]...) {
				lc := l.Vars[v]
				if lc.Sign() != c.Sign() {
					continue
				}
				budget--
				if budget < 0 {
					return false
				}
				n := newLin()
				n.add(g, new(big.Int).Abs(lc))
				n.add(l, new(big.Int).Neg(new(big.Int).Abs(c)))
				if len(n.Vars) > len(g.Vars)+1 {
					continue
				}
				if rec(n, d-1) {
					return true
				}
			}
			lo, hi := s.bounds(v)
			b := lo
			if c.Sign() > 0 {
				b = hi
			}
			if b != nil && b.BitLen() < 40 && len(g.Vars) > 1 {
				n := newLin()
				n.add(g, bigOne)
				delete(n.Vars, v)
				n.K.Add(n.K, new(big.Int).Mul(c, b))
				budget--
				if budget > 0 && rec(n, d-1) {
					return true
				}
			}
		}
		return false
	}
	return rec(goal, depth)
}

func basicKind(t types.Type) string {
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Name()
	}
	return ""
}

// ---- merging ----

// entails reports whether every constraint of b holds in a (a is at least as strong).
func (a *State) entails(b *State) bool {
	for f := range b.facts {
		if !a.facts[f] && a.evalD(f, 1) != 1 {
			return false
		}
	}
	for x, d := range b.dom {
		if a.dom[x].equal(d) {
			continue
		}
		if a.evalDom(x, d) != 1 {
			return false
		}
	}
	return true
}

// exactMerge merges the constraints of two states with equal memory if that loses nothing.
func exactMerge(a, b *State) *State {
	if a.entails(b) {
		return b
	}
	if b.entails(a) {
		return a
	}
	var fa, fb []*Term
	for f := range a.facts {
		if !b.facts[f] {
			fa = append(fa, f)
		}
	}
	for f := range b.facts {
		if !a.facts[f] {
			fb = append(fb, f)
		}
	}
	if len(fa) > 1 || len(fb) > 1 {
		return nil
	}
	var dx []*Term
	for x, d := range a.dom {
		if !d.equal(b.dom[x]) {
			dx = append(dx, x)
		}
	}
	for x := range b.dom {
		if _, ok := a.dom[x]; !ok {
			dx = append(dx, x)
		}
	}
	switch {
	case len(fa) == 0 && len(fb) == 0 && len(dx) == 1:
		x := dx[0]
		if a.dom[x] == nil || b.dom[x] == nil {
			return nil
		}
		j, exact := domJoin(a.dom[x], b.dom[x])
		if !exact {
			if j = domUnion(a.dom[x], b.dom[x]); j == nil {
				return nil
			}
		}
		n := a.clone()
		if j == nil {
			delete(n.dom, x)
		} else {
			n.dom[x] = j
		}
		return n
	case len(fa) == 1 && len(fb) == 1 && len(dx) == 0 && fa[0] == mkNot(fb[0]):
		n := a.clone()
		delete(n.facts, fa[0])
		return n
	}
	return nil
}

// lossyFacts computes the constraints common to all states.
func lossyFacts(sts []*State) *State {
	n := newState()
	first := sts[0]
	for f := range first.facts {
		ok := true
		for _, o := range sts[1:] {
			if !o.facts[f] && o.evalD(f, 2) != 1 {
				ok = false
				break
			}
		}
		if ok {
			n.facts[f] = true
		}
	}
	for i, o := range sts[1:] {
		for f := range o.facts {
			if n.facts[f] {
				continue
			}
			ok := true
			for k, p := range sts {
				if k == i+1 {
					continue
				}
				if !p.facts[f] && p.evalD(f, 2) != 1 {
					ok = false
					break
				}
			}
			if ok {
				n.facts[f] = true
			}
		}
	}
	for x, d := range first.dom {
		j := d
		for _, o := range sts[1:] {
			od := o.dom[x]
			if od == nil {
				lo, hi := o.bounds(x)
				if lo != nil || hi != nil {
					od = &Dom{neg: true, lo: lo, hi: hi}
				}
			}
			j, _ = domJoin(j, od)
			if j == nil {
				break
			}
		}
		if j != nil {
			n.dom[x] = j
		}
	}
	return n
}

// constKeys: the keys of a map whose contents are completely known.
func constKeys(m *Term) ([]*Term, bool) {
	var ks []*Term
	for ; m.Op == "upd"; m = m.Args[0] {
		if !m.Args[1].isConst() {
			return nil, false
		}
		dup := false
		for _, k := range ks {
			dup = dup || k == m.Args[1]
		}
		if !dup {
			ks = append(ks, m.Args[1])
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].ID < ks[j].ID })
	return ks, m.Op == "mapnew"
}
