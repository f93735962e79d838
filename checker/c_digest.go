package main

import (
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks = append(checks, checkDef{"C33", checkC33, 30}) }

const (
	fnOneMb   = "signingblock.(*signingBlock).computeOneMbChunkContentDigests"
	fnVerity  = "signingblock.(*signingBlock).computeVerityContentDigest"
	fnVtRoot  = "signingblock.(*verityTreeBuilder).generateTreeRootHash"
	fnVtLevel = "signingblock.(*verityTreeBuilder).calculateLevelOffset"
	fnVtChunk = "signingblock.(*verityTreeBuilder).digestDataByChunks"
	fnVtSalt  = "signingblock.(*verityTreeBuilder).saltedDigest"
	fnVtNew   = "signingblock.newVerityTreeBuilder"
	fnChained = "signingblock.newChainedDataSource"
	fnSink    = "signingblock.(*byteWriter).Write"
	invSource = "invoke signingblock.dataSource."
)

// sources: sections of data are opaque; writing one to a hash or a buffer appends it.
func sources(x *Exec) {
	x.bound[invSource+"length"] = &Boundary{Pure: true}
	x.bound[invSource+"chunkCount"] = &Boundary{Pure: true}
	x.bound[invSource+"writeTo"] = &Boundary{Effect: func(x *Exec, fr *Frame, st *State, call *Term, args []*Term) {
		w := unwrap(args[1])
		d := mk("section", "", args[0], args[2], args[3])
		if _, ok := st.mem[mk("bufc", "", w)]; ok {
			st.mem[mk("bufc", "", w)] = mkCat(st.mem[mk("bufc", "", w)], d)
			return
		}
		st.mem[mk("hdata", "", w)] = mkCat(x.hashData(st, w), d)
	}}
}

// counters assumes how the other counters of a loop relate to one that starts at 0 and grows by step.
func (a *An) counters(l *LoopRec, st *State, off *Term, step int64) {
	bs := a.backs(l, nil)
	for _, k := range l.Cells {
		if k.Phi == off || k.Addr != nil || k.Init == nil || k.Phi.Typ == nil || !intType(k.Phi.Typ) || len(bs) == 0 {
			continue
		}
		for _, d := range []int64{1, -1} {
			all, pos := true, true
			for _, b := range bs {
				all = all && b.step(k.Phi) == mkAdd(k.Phi, mkInt(d))
				pos = pos && b.st.holds(mkLe(mkInt(1), k.Phi))
			}
			if !all {
				continue
			}
			rounds := mkMulC(mkSub(k.Phi, k.Init), big.NewInt(d*step))
			st.assume(mkEq(off, rounds))
			st.assume(mkLe(off, rounds))
			st.assume(mkLe(rounds, off))
			if d < 0 && pos {
				// it ends at 0 unless it starts below
				i := st.clone()
				divisions(i, k.Init)
				if i.deep(mkLe(mkInt(0), k.Init)) || k.Init.Op == "quo" && i.deep(mkLe(mkInt(0), k.Init.Args[0])) {
					st.assume(mkLe(mkInt(0), k.Phi))
				}
			}
		}
	}
}

// divisions assumes what the quotients and remainders by constants in the terms mean, for
// dividends that are not negative.
func divisions(st *State, l ...*Term) {
	seen := map[*Term]bool{}
	one := func(t *Term) bool {
		if (t.Op != "quo" && t.Op != "rem") || seen[t] || len(t.Args) != 2 {
			return true
		}
		seen[t] = true
		x := t.Args[0]
		m, ok := t.Args[1].intVal()
		if !ok || m.Sign() <= 0 || !st.deep(mkLe(mkInt(0), x)) {
			return true
		}
		q := mkMulC(mk("quo", "", x, t.Args[1]), m)
		rest := mkSub(x, q)
		st.assume(mkLe(mkInt(0), rest))
		st.assume(mkLe(mkAdd(rest, mkInt(1)), t.Args[1]))
		r := mk("rem", "", x, t.Args[1])
		st.assume(mkLe(mkInt(0), r))
		st.assume(mkEq(r, rest))
		st.assume(mkLe(r, rest))
		st.assume(mkLe(rest, r))
		if st.holds(mkLe(mkInt(1), r)) {
			st.assume(mkLe(mkInt(1), rest))
		}
		return true
	}
	for _, t := range l {
		t.walk(one)
	}
	for _, t := range st.sortedFacts() {
		t.walk(one)
	}
}

// minima assumes what the minima in the terms mean.
func minima(st *State, l ...*Term) {
	for _, t := range append(l, st.sortedFacts()...) {
		t.walk(func(m *Term) bool {
			if m.Op == "min" && len(m.Args) == 2 {
				for i, v := range m.Args {
					st.assume(mkLe(m, v))
					if st.holds(mkLe(v, m.Args[1-i])) {
						st.assume(mkLe(v, m))
					}
				}
			}
			return true
		})
	}
}

// roundedUp: q is n divided by m, rounded up.
func roundedUp(st *State, q, n *Term, m int64) bool {
	s := st.clone()
	s.assume(mkLe(mkInt(0), n))
	divisions(s, q, n)
	mq := mkMulC(q, big.NewInt(m))
	return s.deep(mkLe(n, mq)) && s.deep(mkLe(mq, mkAdd(n, mkInt(m-1))))
}

// sourceRule decides one implementation of a data source: its length, the number of its chunks
// and what it writes.
func (c *Check) sourceRule(typ string, setup func(se *Term, st *State), length func(a *An, st *State, se *Term) *Term, section func(a *An, st *State, se, off, n *Term) *Term) {
	pre := "signingblock.(*" + typ + ")."
	a := c.anOpt(pre+"length", func(x *Exec, f *ssa.Function, ps []*Term, st *State) { setup(ps[0], st) })
	for _, r := range a.rets {
		c.req(same(r.st, r.vals[0], length(a, r.st, a.ps[0])), "the length of a section is the number of its bytes", a.where(), "it is %s", short(r.vals[0]))
	}
	c.req(len(a.rets) > 0, "a section has a length", a.where(), "length never returns")
	a = c.anOpt(pre+"chunkCount", func(x *Exec, f *ssa.Function, ps []*Term, st *State) { setup(ps[0], st) })
	for _, r := range a.rets {
		c.req(roundedUp(r.st, r.vals[0], length(a, r.st, a.ps[0]), 1<<20), "the number of chunks is the length in MiB, rounded up", a.where(), "it is %s", short(r.vals[0]))
	}
	c.req(len(a.rets) > 0, "a section has chunks", a.where(), "chunkCount never returns")
	if section == nil {
		return
	}
	a = c.anOpt(pre+"writeTo", func(x *Exec, f *ssa.Function, ps []*Term, st *State) {
		setup(ps[0], st)
		st.mem[mk("hdata", "", ps[1])] = mk("hdata0", "", ps[1])
		st.assume(mkLe(mkInt(0), ps[2]))
		st.assume(mkLe(mkInt(1), ps[3]))
	})
	wh := a.where()
	se, w, off, n := a.ps[0], a.ps[1], a.ps[2], a.ps[3]
	k := 0
	for _, r := range a.succErr(0) {
		k++
		end := mkAdd(off, n)
		c.req(r.st.holds(mkLe(end, length(a, r.st, se))), "nothing after the section is written", wh, "offset + size may exceed the length")
		got := a.x.hashData(r.st, w)
		want := mkCat(a.x.hashData(a.x0(), w), section(a, r.st, se, off, n))
		c.req(same(r.st, got, want), "exactly the requested bytes are written", wh, "written: %s", short(got))
	}
	c.req(k > 0, "a section can be written", wh, "writeTo never succeeds")
	c.noNeedlessError(a, mkLe(mkAdd(off, n), length(a, a.x0(), se)), wh)
}

// noNeedlessError: when cond holds, only input and output errors make the function fail.
func (c *Check) noNeedlessError(a *An, cond *Term, wh string) {
	for _, r := range a.rets {
		e := r.vals[len(r.vals)-1]
		st := r.st.clone()
		st.assume(cond)
		st.assume(nonNilT(e))
		if st.bot || ioFailed(st) {
			continue
		}
		s := e.String()
		c.req(strings.Contains(s, "Write") || strings.Contains(s, "writeTo") || strings.Contains(s, "Seek") || strings.Contains(s, "Copy"), "a section that exists can be written", wh, "%s is returned for it", short(e))
	}
}

// totalCell: a loop over all of the sources adds up what fn gives for each.
func (a *An) isTotal(st *State, t, sources *Term, fn string) bool {
	for _, it := range a.listIters(st, sources, nil) {
		k := it.l.cellPhi(t)
		if k == nil || k.Init != mkInt(0) {
			continue
		}
		good := true
		for _, b := range it.backs {
			d := mkSub(b.step(k.Phi), k.Phi)
			if d.Op == "res" && d.Sym == "0" {
				d = d.Args[0]
			}
			good = good && d.Sym == dn(invSource+fn) && d.Args[0] == it.elem
		}
		if good {
			return true
		}
	}
	return false
}

// chainedRule: a chain of sources writes the sections of its sources that make up the requested one.
func (c *Check) chainedRule() {
	f := "signingblock.dataSourceChained."
	a := c.anOpt("signingblock.(*dataSourceChained).writeTo", func(x *Exec, fn *ssa.Function, ps []*Term, st *State) {
		sources(x)
		st.assume(mkLe(mkInt(0), ps[2]))
		st.assume(mkLe(mkInt(1), ps[3]))
	})
	wh := a.where()
	se, w, off, n := a.ps[0], a.ps[1], a.ps[2], a.ps[3]
	srcs, total := at(fieldOf(se, f+"sources")), at(fieldOf(se, f+"totalSize"))
	hk := mk("hdata", "", w)
	le := func(s *Term) *Term { return res(mk("call", dn(invSource+"length"), s), 0) }
	rounds := 0
	for _, l := range a.sortedLoops() {
		lw := a.loopWhere(l)
		hc := l.cellFor(hk)
		var ic, oc, nc *LoopCell
		el := tNil
		for _, k := range l.Cells {
			switch {
			case k.Init == off:
				oc = k
			case k.Init == n:
				nc = k
			case k.Init == mkInt(-1):
				ic, el = k, elemAt(srcs, mkAdd(k.Phi, mkInt(1)))
			case k.Init == mkInt(0):
				ic, el = k, elemAt(srcs, k.Phi)
			}
		}
		if !c.req(hc != nil && ic != nil && oc != nil && nc != nil && hc.Init == a.x.hashData(a.x0(), w), "the sources are written one after another", lw, "the loop does not carry the position, the offset and the remaining size") {
			continue
		}
		size := le(el)
		for _, b := range a.backs(l, nil) {
			rounds++
			s := b.st.clone()
			s.assume(mkLe(mkInt(0), oc.Phi))
			c.req(b.step(ic.Phi) == mkAdd(ic.Phi, mkInt(1)), "no source is left out", lw, "the index becomes %s", short(b.step(ic.Phi)))
			h := b.step(hc.Phi)
			if h == hc.Phi {
				c.req(b.step(nc.Phi) == nc.Phi && b.step(oc.Phi) == mkSub(oc.Phi, size) && s.holds(mkLe(size, oc.Phi)), "only sources before the offset are passed over", lw, "offset becomes %s, size %s", short(b.step(oc.Phi)), short(b.step(nc.Phi)))
				continue
			}
			m := mkSub(nc.Phi, b.step(nc.Phi))
			c.req(h == mkCat(hc.Phi, mk("section", "", el, oc.Phi, m)) && s.holds(mkEq(mkAdd(oc.Phi, m), size)) && s.holds(mkLe(m, nc.Phi)), "the rest of a source is written", lw, "a round writes %s", short(h))
			c.req(s.holds(mkEq(b.step(oc.Phi), mkInt(0))), "the next source is written from its start", lw, "the offset becomes %s", short(b.step(oc.Phi)))
			for _, d := range dids(b.st, dn(invSource+"writeTo")) {
				c.req(okErr(b.st, callOf(d), 0), "an error of a source is an error of the chain", lw, "the error of a source is ignored")
			}
		}
		for _, r := range a.rets {
			h := a.cell(r.st, hk)
			if h == hc.Phi || !h.contains(hc.Phi) {
				continue
			}
			// returns from within the loop
			s := r.st.clone()
			s.assume(mkEq(r.vals[0], tNil))
			if s.bot {
				continue
			}
			rounds++
			c.req(h == mkCat(hc.Phi, mk("section", "", el, oc.Phi, nc.Phi)) && s.holds(mkLe(mkAdd(oc.Phi, nc.Phi), size)), "the last section is written completely", lw, "the last write is %s", short(h))
			for _, d := range dids(s, dn(invSource+"writeTo")) {
				c.req(okErr(s, callOf(d), 0), "an error of a source is an error of the chain", lw, "the error of a source is ignored")
			}
		}
		for _, r := range a.rets {
			if h := a.cell(r.st, hk); h == hc.Phi && !r.st.holds(nonNilT(r.vals[0])) {
				c.req(r.st.holds(mkLe(mkAdd(off, n), total)), "nothing is missing after the last source", wh, "a section outside the chain may be written as empty")
			}
		}
	}
	c.req(rounds > 2, "the sources of a chain are written", wh, "no loop over them was found")
	c.noNeedlessError(a, mkLe(mkAdd(off, n), total), wh)
}

// firstByte is the first byte of the data t, following what loops leave unchanged.
func (a *An) firstByte(t *Term, seen map[*Term]bool) *Term {
	switch t.Op {
	case "put":
		k, ok := t.Args[1].int64()
		if ok && k == 0 {
			return a.firstByte(t.Args[2], seen)
		}
		if ok && k > 0 {
			return a.firstByte(t.Args[0], seen)
		}
	case "cat", "take":
		return a.firstByte(t.Args[0], seen)
	case "byte1":
		return t.Args[0]
	case "s":
		if len(t.Sym) > 0 {
			return mkInt(int64(t.Sym[0]))
		}
	case "zeros":
		return mkInt(0)
	}
	for _, l := range a.sortedLoops() {
		k := l.cellPhi(t)
		if k == nil || seen[t] {
			continue
		}
		seen[t] = true
		v := a.firstByte(k.Init, seen)
		for _, b := range a.backs(l, nil) {
			n := a.firstByte(b.step(k.Phi), seen)
			if n != v && n != t && !seen[n] {
				return t
			}
		}
		return v
	}
	return t
}

// header: t is one byte and a number of 4 bytes.
func (a *An) header(st *State, t *Term) (b, n *Term) {
	if t.Op == "take" && t.Args[1] == mkInt(5) {
		t = t.Args[0]
	}
	rest := subseq(t, mkInt(1), mkInt(5))
	for u := t; u.Op == "put" && rest.Op != "encle"; u = u.Args[0] {
		if u.Args[1] == mkInt(1) && mkLen(u.Args[2]) == mkInt(4) {
			rest = u.Args[2]
		} else if k, ok := u.Args[1].int64(); !ok || k != 0 || mkLen(u.Args[2]) != mkInt(1) {
			break
		}
	}
	if rest.Op != "encle" || rest.Sym != "32" {
		return nil, nil
	}
	return a.firstByte(t, map[*Term]bool{}), rest.Args[0]
}

// chunkedRule decides the chunked digests, for every list of algorithms that have them.
func (c *Check) oneMbRule() {
	const mib = 1 << 20
	s256, ok1 := c.w.constInt(modPath+"/signingblock", "digestChunkedSha256")
	s512, ok2 := c.w.constInt(modPath+"/signingblock", "digestChunkedSha512")
	if !ok1 || !ok2 {
		fatalf("the constants of the chunked digests were not found")
	}
	alg := map[int64]string{s256: "sha256", s512: "sha512"}
	width := map[int64]int64{s256: 32, s512: 64}
	for _, algos := range [][]int64{{s256}, {s512}, {s256, s512}, {s512, s256}} {
		a := c.anOpt(fnOneMb, func(x *Exec, f *ssa.Function, ps []*Term, st *State) {
			sources(x)
			st.assume(mkEq(mkLen(ps[1]), mkInt(int64(len(algos)))))
			for i, v := range algos {
				st.mem[ia(ps[1], mkInt(int64(i)))] = mkInt(v)
			}
		})
		wh := a.where()
		n := 0
		for _, r := range a.succErr(1) {
			n++
			m := a.x.mapContent(r.st, r.vals[0])
			for _, v := range algos {
				d, ok := a.x.mapLookup(r.st, m, mkInt(v), types.NewSlice(types.Typ[types.Byte]))
				if !c.req(ok == tTrue && d.Op == "hashsum:"+alg[v] || d.Op == "hashsum" && d.Sym == alg[v], "the digest of an algorithm uses its hash function", wh, "digest %d is %s", v, short(d)) {
					continue
				}
				list := d.Args[0]
				if list.Op == "take" && r.st.holds(mkLe(mkLen(list.Args[0]), list.Args[1])) {
					list = list.Args[0]
				}
				c.chunkList(a, r.st, list, d, width[v], mib, wh)
			}
			for ; m.Op == "upd"; m = m.Args[0] {
			}
			c.req(m.Op == "mapnew", "only the requested digests are returned", wh, "the result starts as %s", short(m))
		}
		c.req(n > 0, "the digests can be computed", wh, "no accepting path")
		for _, r := range a.rets {
			s := r.st.clone()
			s.assume(nonNilT(r.vals[1]))
			if s.bot {
				continue
			}
			bad := false
			for _, d := range dids(s, dn(invSource+"writeTo")) {
				bad = bad || !okErr(s, callOf(d), 0)
			}
			for _, l := range a.sortedLoops() {
				for _, k := range l.Cells {
					bad = bad || a.isTotal(s, k.Phi, a.ps[2], "chunkCount") && s.holds(mkLe(mkInt(1<<20), k.Phi))
				}
			}
			c.req(bad, "only a section that cannot be read is an error", wh, "%s is returned", short(r.vals[1]))
		}
	}
}

// chunkList: list is the byte 0x5a, the number of chunks and their digests of the given width.
func (c *Check) chunkList(a *An, st *State, list, digest *Term, width, mib int64, wh string) {
	conts := a.ps[2]
	found := false
	for _, it := range a.listIters(st, conts, nil) {
		k := it.l.cellPhi(list)
		if k == nil {
			continue
		}
		found = true
		b5, total := a.header(st, k.Init)
		c.req(b5 == mkInt(0x5a), "the list of digests begins with 0x5a", wh, "it is %s", short(k.Init))
		c.req(total != nil && a.isTotal(st, total, conts, "chunkCount"), "the list of digests holds the number of chunks", wh, "it is %s", short(k.Init))
		if total == nil {
			continue
		}
		put := mkLen(k.Init) != mkInt(5)
		c.req(!put || mkLen(k.Init) == mkAdd(mkInt(5), mkMulC(total, big.NewInt(width))), "the list of digests has room for all of them", wh, "its length is %s", short(mkLen(k.Init)))
		for _, b := range it.backs {
			c.chunkRounds(a, b, it, k, digest, width, mib, put)
		}
	}
	c.req(found, "every section is digested", wh, "no loop over the sections adds digests to %s", short(list))
}

// initial and next: a term over the loop's variables before the first round, and after the round of b.
func (l *LoopRec) initial(t *Term) *Term {
	m := map[*Term]*Term{}
	for _, k := range l.Cells {
		m[k.Phi] = k.Init
	}
	return subst(t, m)
}

func (l *LoopRec) next(b back, t *Term) *Term {
	m := map[*Term]*Term{}
	for _, k := range l.Cells {
		m[k.Phi] = b.step(k.Phi)
	}
	return subst(t, m)
}

// chunkRounds decides the chunks of one section.
func (c *Check) chunkRounds(a *An, b back, it iter, k *LoopCell, digest *Term, width, mib int64, put bool) {
	acc := b.step(k.Phi)
	var in *LoopRec
	var ik *LoopCell
	for _, l := range a.sortedLoops() {
		if q := l.cellPhi(acc); q != nil && q.Init == k.Phi {
			in, ik = l, q
		}
	}
	lw := a.loopWhere(it.l)
	if !c.req(in != nil, "the chunks of a section are digested one after another", lw, "a section adds %s", short(acc)) {
		return
	}
	lw = a.loopWhere(in)
	size := res(mk("call", dn(invSource+"length"), it.elem), 0)
	n := 0
	ex := b.st.clone()
	for _, ib := range a.backs(in, nil) {
		n++
		nx := ib.step(ik.Phi)
		var d, pos *Term
		if nx.Op == "put" && nx.Args[0] == ik.Phi {
			pos, d = nx.Args[1], nx.Args[2]
			if d.Op == "take" {
				c.req(d.Args[1] == mkInt(width) || d.Args[1].Op != "c", "a digest is kept completely", lw, "it is cut to %s bytes", short(d.Args[1]))
				d = d.Args[0]
			}
		} else if nx.Op == "cat" && nx.Args[0] == ik.Phi && len(nx.Args) == 2 {
			d = nx.Args[1]
		}
		if !c.req(d != nil && d.Op == digest.Op && d.Sym == digest.Sym, "a chunk adds its digest", lw, "a round stores %s", short(nx)) {
			continue
		}
		c.req(put == (pos != nil), "digests are written one after another", lw, "a round stores %s", short(nx))
		if pos != nil {
			ok := false
			for _, q := range in.Cells {
				o := it.l.cellPhi(q.Init)
				ok = ok || o != nil && o.Init == mkInt(0) && b.step(o.Phi) == q.Phi && ib.step(q.Phi) == mkAdd(q.Phi, mkInt(1)) && pos == mkAdd(mkMulC(q.Phi, big.NewInt(width)), mkInt(5))
				ok = ok || o != nil && o.Init == mkInt(5) && b.step(o.Phi) == q.Phi && ib.step(q.Phi) == mkAdd(q.Phi, mkInt(width)) && pos == q.Phi
			}
			c.req(ok, "digests are stored in the order of the chunks", lw, "one is stored at %s", short(pos))
		}
		data := d.Args[0]
		var head, sec *Term
		if data.Op == "cat" {
			sec = data.Args[len(data.Args)-1]
			head = tEmpty
			for _, t := range data.Args[:len(data.Args)-1] {
				head = mkCat(head, t)
			}
		}
		if !c.req(sec != nil && sec.Op == "section" && sec.Args[0] == it.elem && mkSub(mkLen(data), mkLen(sec)) == mkInt(5), "a digest covers a header and a part of the section", lw, "it covers %s", short(data)) {
			continue
		}
		off, cs := sec.Args[1], sec.Args[2]
		b5, sz := a.header(ib.st, head)
		c.req(b5 == mkInt(0xa5) && sz == cs, "a chunk is prefixed with 0xa5 and its length", lw, "it is prefixed with %s", short(head))
		end := mkAdd(off, cs)
		first, next := in.initial(off), in.next(ib, off)
		after := next == end || ib.st.holds(mkEq(end, size)) && ib.st.holds(mkLe(size, next))
		c.req(first == mkInt(0) && after, "the chunks follow one another", lw, "a chunk is read at %s, the next one at %s", short(off), short(next))
		full := ib.st.holds(mkEq(cs, mkInt(mib))) && ib.st.holds(mkLe(end, size))
		last := ib.st.holds(mkLe(cs, mkInt(mib))) && ib.st.holds(mkEq(end, size))
		c.req(full || last, "every chunk but the last one of a section has one MiB", lw, "a chunk has %s bytes", short(cs))
		for _, w := range dids(ib.st, dn(invSource+"writeTo")) {
			c.req(okErr(ib.st, callOf(w), 0), "a section that cannot be read is an error", lw, "the error is ignored")
		}
		c.req(ex.holds(mkLe(size, off)), "a section is digested to its end", lw, "the loop may end before")
	}
	c.req(n > 0, "the chunks of a section are digested", lw, "the loop has no rounds")
}

func checkC33(c *Check) {
	apk := "signingblock.dataSourceApk."
	c.sourceRule("dataSourceApk", func(se *Term, st *State) {
		st.assume(mkLe(mkInt(0), at(fieldOf(se, apk+"start"))))
		st.assume(mkLe(at(fieldOf(se, apk+"start")), at(fieldOf(se, apk+"end"))))
	}, func(a *An, st *State, se *Term) *Term {
		return mkSub(at(fieldOf(se, apk+"end")), at(fieldOf(se, apk+"start")))
	}, func(a *An, st *State, se, off, n *Term) *Term {
		return mk("fileread", "", at(fieldOf(se, apk+"file")), mkAdd(at(fieldOf(se, apk+"start")), off), n)
	})
	data := func(se *Term) *Term { return at(fieldOf(se, "signingblock.dataSourceBytes.data")) }
	c.sourceRule("dataSourceBytes", func(se *Term, st *State) {}, func(a *An, st *State, se *Term) *Term {
		return mkLen(data(se))
	}, func(a *An, st *State, se, off, n *Term) *Term { return subseq(data(se), off, mkAdd(off, n)) })
	c.sourceRule("dataSourceChained", func(se *Term, st *State) {}, func(a *An, st *State, se *Term) *Term {
		return at(fieldOf(se, "signingblock.dataSourceChained.totalSize"))
	}, nil)
	c.chainedRule()
	c.oneMbRule()
	c.saltRule()
	c.pagesRule()
	c.levelsRule()
	c.treeRule()
	c.sinkRule()
	c.verityRule()
}

const vtType = "signingblock.verityTreeBuilder."

// saltRule: the digest of a page is the hash of the salt and the page.
func (c *Check) saltRule() {
	a := c.an(fnVtSalt)
	wh := a.where()
	b, data := a.ps[0], a.ps[1]
	h, salt := at(fieldOf(b, vtType+"hasher")), at(fieldOf(b, vtType+"salt"))
	for _, r := range a.rets {
		st := r.st.clone()
		want := mkCat(salt, data)
		if st.holds(mkEq(mkLen(salt), mkInt(0))) {
			want = data
		}
		c.req(same(st, r.vals[0], mk("hashsumv", "", mk("halg0", "", h), want)) || same(st, r.vals[0], mk("hashsumv", "", mk("halg0", "", h), mkCat(salt, data))), "a page is digested with the salt before it", wh, "the digest is %s", short(r.vals[0]))
	}
	c.req(len(a.rets) > 0, "a page can be digested", wh, "no path returns")
}

// pagesRule: all of the pages of a source are digested, the last one filled up with zeros.
func (c *Check) pagesRule() {
	const page = 4096
	a := c.anOpt(fnVtChunk, func(x *Exec, f *ssa.Function, ps []*Term, st *State) {
		sources(x)
		st.mem[mk("hdata", "", ps[2])] = mk("hdata0", "", ps[2])
		st.assume(mkLe(mkInt(0), res(mk("call", dn(invSource+"length"), ps[1]), 0)))
	}, fnVtSalt)
	wh := a.where()
	b, src, sink := a.ps[0], a.ps[1], a.ps[2]
	size := res(mk("call", dn(invSource+"length"), src), 0)
	hk := mk("hdata", "", sink)
	sec := func(off, n *Term) *Term { return mk("section", "", src, off, n) }
	// digestOf: t appends to h the digest of a page
	digestOf := func(st *State, t, h *Term) *Term {
		if t.Op != "cat" || len(t.Args) != 2 || t.Args[0] != h {
			return nil
		}
		d := t.Args[1]
		if d.Op != "res" || d.Sym != "0" || !strings.HasPrefix(d.Args[0].Sym, dn(fnVtSalt)) || d.Args[0].Args[0] != b {
			return nil
		}
		return d.Args[0].Args[1]
	}
	// lastPage: p is the rest of the data from off on, filled up with zeros
	lastPage := func(st *State, p, off *Term) {
		if !c.req(p.Op == "cat" && len(p.Args) == 2 && p.Args[0].Op == "section" && p.Args[1].Op == "zeros", "the last page is filled up with zeros", wh, "the last page is %s", short(p)) {
			return
		}
		m := p.Args[0].Args[2]
		left := mkSub(size, off)
		c.req(p.Args[0] == sec(off, m) && st.deep(mkLe(m, left)) && st.deep(mkLe(left, m)), "the last page holds the rest of the data", wh, "it holds %s", short(p.Args[0]))
		c.req(mkAdd(m, p.Args[1].Args[0]) == mkInt(page), "the last page is a full one", wh, "it has %s bytes", short(mkAdd(m, p.Args[1].Args[0])))
		c.req(st.deep(mkLe(mkInt(1), m)), "no empty page is added", wh, "a page of zeros may be added")
	}
	n := 0
	for _, r := range a.succErr(0) {
		n++
		ok := false
		for _, w := range dids(r.st, dn(invSource+"writeTo")) {
			c.req(okErr(r.st, callOf(w), 0), "a page that cannot be read is an error", wh, "the error is ignored")
		}
		for _, l := range a.doneLoops(r.st) {
			hc := l.cellFor(hk)
			if hc == nil || hc.Init != mk("hdata0", "", sink) {
				continue
			}
			lw := a.loopWhere(l)
			for _, oc := range l.Cells {
				if oc.Init != mkInt(0) || oc.Addr != nil {
					continue
				}
				off := oc.Phi
				good := true
				for _, bk := range a.backs(l, nil) {
					good = good && bk.step(off) == mkAdd(off, mkInt(page))
				}
				if !good {
					continue
				}
				ok = true
				inside := false // the last page is digested in a round, too
				for _, bk := range a.backs(l, nil) {
					p := digestOf(bk.st, bk.step(hc.Phi), hc.Phi)
					if p != nil && p.Op == "cat" {
						inside = true
						lastPage(bk.st, p, off)
					} else {
						c.req(p != nil && p.Op == "section" && p.Args[0] == src && p.Args[1] == off && bk.st.holds(mkEq(p.Args[2], mkInt(page))), "every full page is digested", lw, "a round adds %s", short(bk.step(hc.Phi)))
						st := bk.st.clone()
						a.counters(l, st, off, page)
						divisions(st, mk("quo", "", size, mkInt(page)))
						c.req(st.deep(mkLe(mkAdd(off, mkInt(page)), size)), "only full pages are digested in rounds", lw, "a page may end after the data")
					}
					for _, w := range dids(bk.st, dn(invSource+"writeTo")) {
						c.req(okErr(bk.st, callOf(w), 0), "a page that cannot be read is an error", lw, "the error is ignored")
					}
				}
				if inside {
					c.req(r.st.holds(mkLe(size, off)) && a.cell(r.st, hk) == hc.Phi, "the last page is digested", lw, "the end of the data may be left out")
					continue
				}
				st := r.st.clone()
				a.counters(l, st, off, page)
				divisions(st, mk("quo", "", size, mkInt(page)))
				c.req(st.deep(mkLe(size, mkAdd(off, mkInt(page-1)))), "every full page is digested", lw, "the loop may end before the last full page")
				// the offset is a multiple of the page size and at most the size (by the rounds)
				q := mk("quo", "", size, mkInt(page))
				st.assume(mkEq(off, mkMulC(q, big.NewInt(page))))
				st.assume(mkLe(off, mkMulC(q, big.NewInt(page))))
				st.assume(mkLe(mkMulC(q, big.NewInt(page)), off))
				end := a.cell(st, hk)
				divisions(st, q, end, mk("rem", "", size, mkInt(page)))
				if end == hc.Phi {
					st.assume(mkLe(mkAdd(off, mkInt(1)), size))
					c.req(st.bot || st.deep(mkLe(mkInt(1), mkInt(0))), "the last page is digested", lw, "the end of the data may be left out")
					continue
				}
				p := digestOf(st, end, hc.Phi)
				if p == nil {
					c.req(false, "the last page is digested", wh, "at the end is added %s", short(end))
					continue
				}
				lastPage(st, p, off)
			}
		}
		c.req(ok, "the pages are digested in order", wh, "no loop over the pages: %s", short(a.cell(r.st, hk)))
	}
	c.req(n > 0, "pages can be digested", wh, "no accepting path")
	c.noNeedlessError(a, tTrue, wh)
}

// levelsRule: the offsets of the levels of the tree, the highest one first.
func (c *Check) levelsRule() {
	const page = 4096
	a := c.anOpt(fnVtLevel, func(x *Exec, f *ssa.Function, ps []*Term, st *State) {
		x.wantEvent["store"] = true
		st.assume(mkLe(mkInt(0), ps[1]))
		st.assume(mkLe(mkInt(1), ps[2]))
	})
	wh := a.where()
	data, dsize := a.ps[1], a.ps[2]
	// digests: t is the size of the digests of the pages of d bytes
	digests := func(st *State, t, d *Term) bool {
		ok := false
		t.walk(func(q *Term) bool {
			if q.Op == "quo" && (t == mk("mul", "", dsize, q) || t == mk("mul", "", q, dsize)) && roundedUp(st, q, d, page) {
				ok = true
			}
			return true
		})
		return ok
	}
	// level: l is one level with digests of n bytes
	level := func(st *State, l, n *Term) bool {
		if l.Op != "list" || len(l.Args) != 1 {
			return false
		}
		v := l.Args[0]
		s := st.clone()
		s.assume(mkLe(mkInt(0), n))
		divisions(s, v)
		k := int64(0)
		if v.Op == "lin" || true {
			for _, co := range linOf(v).Vars {
				k, _ = new(big.Int).Rem(co, big.NewInt(page)).Int64(), true
			}
		}
		return k == 0 && len(linOf(v).Vars) == 1 && linOf(v).K.Sign() == 0 && s.deep(mkLe(n, v)) && s.deep(mkLe(v, mkAdd(n, mkInt(page-1))))
	}
	n := 0
	for _, r := range a.succErr(1) {
		n++
		var dc, lc *LoopCell
		var loop *LoopRec
		for _, l := range a.doneLoops(r.st) {
			for _, k := range l.Cells {
				if k.Init == data {
					dc, loop = k, l
				}
			}
		}
		if loop != nil {
			for _, k := range loop.Cells {
				if k != dc && (k.Init == tNil || k.Init.Op == "list" || k.Init.Op == "zeros") {
					lc = k
				}
			}
		}
		if !c.req(lc != nil, "the levels are computed from the size of the data", wh, "no loop over the levels was found") {
			continue
		}
		lw := a.loopWhere(loop)
		for _, b := range a.backs(loop, nil) {
			nd := b.step(dc.Phi)
			c.req(digests(b.st, nd, dc.Phi), "a level holds the digests of the pages below it", lw, "its data is %s", short(nd))
			ap := b.step(lc.Phi)
			c.req(ap.Op == "app" && ap.Args[0] == lc.Phi && level(b.st, ap.Args[1], nd), "a level is filled up to whole pages", lw, "its size is %s", short(ap))
			c.req(b.st.holds(mkLe(mkInt(page+1), nd)), "levels are added up to the first one of one page", lw, "a level may be added above it")
		}
		// the list of all levels, as the loop leaves it
		v := r.vals[0]
		if !c.req(v.Op == "sl" && v.Args[1] == mkInt(0), "the offsets of the levels are returned", wh, "%s is returned", short(v)) {
			continue
		}
		arr := v.Args[0]
		stores := 0
		for _, e := range a.x.log {
			if e.Kind != "store" || e.Args[0].Op != "ia" || e.Args[0].Args[0] != arr {
				continue
			}
			stores++
			c.levelStore(a, r, loop, lc, dc, arr, e, digests, level, v, lw)
		}
		c.req(stores > 0, "the offsets are stored", wh, "no store")
	}
	c.req(n > 0, "the levels can be computed", wh, "no accepting path")
}

func (c *Check) levelStore(a *An, r Res, loop *LoopRec, lc, dc *LoopCell, arr *Term, e *Event, digests func(*State, *Term, *Term) bool, level func(*State, *Term, *Term) bool, ret *Term, lw string) {
	const page = 4096
	i, val := e.Args[0].Args[1], e.Args[1]
	var el, prev *Term
	lin := linOf(stripConv(val))
	for t, co := range lin.Vars {
		if co.Cmp(big.NewInt(1)) != 0 {
			continue
		}
		if s := stripConv(t); s.Op == "at" && s.Args[0].Op == "ia" && s.Args[0].Args[0].contains(lc.Phi) {
			el = s
		} else {
			prev = t
		}
	}
	where := c.w.posOf(e.Fn, e.Instr.Pos()) + " in " + shortFn(e.Fn)
	if !c.req(el != nil && prev != nil && len(lin.Vars) == 2 && lin.K.Sign() == 0, "an offset is the one before it and the size of a level", where, "%s is stored", val.Long()) {
		return
	}
	levels, idx := el.Args[0].Args[0], el.Args[0].Args[1]
	nl := mkLen(levels)
	c.req(levels.Op == "app" && levels.Args[0] == lc.Phi && levels.Args[1].Op == "list", "the highest level is one of the levels", lw, "the levels are %s", short(levels))
	if levels.Op == "app" {
		ok := false
		levels.Args[1].walk(func(q *Term) bool {
			if q.Op == "mul" && digests(r.st, q, dc.Phi) && level(r.st, levels.Args[1], q) {
				ok = ok || r.st.holds(mkLe(q, mkInt(page)))
			}
			return true
		})
		c.req(ok, "the highest level has one page", lw, "it is %s", short(levels.Args[1]))
	}
	c.req(mkAdd(idx, i) == nl, "the highest level comes first", where, "the size at %s is used for the offset at %s", short(idx), short(i))
	pi := mkSub(i, mkInt(1))
	isPrev := prev == at(ia(arr, pi)) || prev.Op == "at" && prev.Args[0] == ia(arr, pi)
	ranged := false
	for _, l := range a.doneLoops(r.st) {
		if k := l.cellPhi(prev); k != nil && k.Init == mkInt(0) {
			all := true
			for _, b := range a.backs(l, nil) {
				all = all && b.step(k.Phi) == val
			}
			isPrev = isPrev || all
		}
		for _, k := range l.Cells {
			if !i.contains(k.Phi) {
				continue
			}
			s := subst(i, map[*Term]*Term{k.Phi: k.Init})
			all := s == mkInt(1) && mkSub(i, k.Phi).isConst()
			for _, b := range a.backs(l, nil) {
				all = all && b.step(k.Phi) == mkAdd(k.Phi, mkInt(1))
			}
			ex := r.st.clone()
			ranged = ranged || all && ex.holds(mkLe(mkAdd(nl, mkInt(1)), i))
		}
	}
	c.req(isPrev, "an offset is the one before it and the size of a level", where, "%s is stored", short(val))
	c.req(ranged && ret.Args[2] == mkAdd(nl, mkInt(1)), "every level has an offset", where, "not all offsets are stored")
}

// sinkRule: a write to a part of the tree stores all of the data after what was written before.
func (c *Check) sinkRule() {
	f := "signingblock.byteWriter."
	a := c.anOpt(fnSink, func(x *Exec, fn *ssa.Function, ps []*Term, st *State) {
		x.wantEvent["copy"] = true
		st.assume(mkLe(mkInt(0), at(fieldOf(ps[0], f+"offset"))))
	})
	wh := a.where()
	w, p := a.ps[0], a.ps[1]
	dest, off := at(fieldOf(w, f+"dest")), at(fieldOf(w, f+"offset"))
	n := 0
	for _, r := range a.succErr(1) {
		if r.st.holds(mkEq(mkLen(p), mkInt(0))) {
			continue
		}
		n++
		now := a.cell(r.st, fieldOf(w, f+"offset"))
		minima(r.st, now, r.vals[0])
		equal := func(a, b *Term) bool { return r.st.deep(mkLe(a, b)) && r.st.deep(mkLe(b, a)) }
		c.req(equal(r.vals[0], mkLen(p)), "a write that succeeds is complete", wh, "it returns %s", short(r.vals[0]))
		c.req(r.st.deep(mkLe(mkAdd(off, mkLen(p)), mkLen(dest))), "what does not fit is an error", wh, "it may succeed")
		c.req(equal(now, mkAdd(off, mkLen(p))), "the next write follows", wh, "the offset becomes %s", short(now))
		ok := false
		for _, e := range a.x.log {
			if e.Kind == "copy" && e.Args[0] == mkDrop(dest, off) && (e.Args[1] == p || e.Args[1] == mkTake(p, mkLen(p))) {
				ok = true
			}
		}
		c.req(ok, "the data is stored after what was written before", wh, "it is not copied there")
	}
	c.req(n > 0, "a write can succeed", wh, "no accepting path")
	for _, r := range a.rets {
		st := r.st.clone()
		st.assume(nonNilT(r.vals[1]))
		st.assume(mkLe(mkAdd(off, mkLen(p)), mkLen(dest)))
		st.assume(mkLe(mkInt(1), mkLen(p)))
		minima(st, r.vals...)
		c.req(st.bot || st.deep(mkLe(mkInt(1), mkInt(0))), "what fits is stored", wh, "%s is returned", short(r.vals[1]))
	}
}

// treeRule: the levels are filled from the lowest one, each from the one below it.
func (c *Check) treeRule() {
	a := c.anOpt(fnVtRoot, func(x *Exec, f *ssa.Function, ps []*Term, st *State) {
		x.wantEvent["copy"] = true
		sources(x)
	}, fnVtSalt, fnVtChunk, fnVtLevel)
	wh := a.where()
	b, conts := a.ps[0], a.ps[1]
	n := 0
	for _, r := range a.succErr(1) {
		ds := dids(r.st, dn(fnVtLevel))
		if !c.req(len(ds) == 1 && okErr(r.st, callOf(ds[0]), 1), "the levels are computed", wh, "they are not") {
			continue
		}
		lv := ds[0]
		h := at(fieldOf(b, vtType+"hasher"))
		c.req(arg(lv, 1) == res(mk("call", dn(invSource+"length"), conts), 0) && strings.HasPrefix(arg(lv, 2).Op, "hashsize") && arg(lv, 2).contains(h), "the levels are those of the contents", wh, "they are computed for %s and %s", short(arg(lv, 1)), short(arg(lv, 2)))
		offs := res0(callOf(lv))
		// the tree
		last := mkSub(mkLen(offs), mkInt(1))
		for _, l := range a.doneLoops(r.st) {
			for _, k := range l.Cells {
				if k.Init != mkSub(mkLen(offs), mkInt(2)) {
					continue
				}
				n++
				c.treeRounds(a, r.st, l, k.Phi, offs, last, conts)
			}
		}
		ret := r.vals[0]
		ok := ret.Op == "res" && ret.Sym == "0" && strings.HasPrefix(ret.Args[0].Sym, dn(fnVtSalt)) && ret.Args[0].Args[0] == b
		if !c.req(ok, "the root is the digest of the highest level", wh, "it is %s", short(ret)) {
			continue
		}
		e := a.callEvent(ret.Args[0])
		top := e.Raw[1]
		c.req(top.Op == "sl" && top.Args[1] == mkInt(0) && top.Args[2] == mkInt(4096) && a.isTree(r.st, top.Args[0], offs, last), "the root is the digest of the highest level", wh, "it is the digest of %s", short(top))
	}
	c.req(n > 0, "the levels are filled from the lowest one", wh, "no loop over the levels was found")
}

// isTree: obj is the buffer that holds all levels.
func (a *An) isTree(st *State, obj, offs, last *Term) bool {
	for _, l := range a.sortedLoops() {
		if k := l.cellFor(obj); k != nil {
			return k.Init == mk("zeros", "", elemAt(offs, last)) || k.Init == mk("zeros", "", stripConv(elemAt(offs, last)))
		}
	}
	return false
}

func (c *Check) treeRounds(a *An, ex *State, l *LoopRec, i, offs, last, conts *Term) {
	lw := a.loopWhere(l)
	one := mkInt(1)
	o := func(k *Term) *Term { return elemAt(offs, k) }
	low := mkSub(mkLen(offs), mkInt(2))
	c.req(ex.holds(mkLe(i, mkInt(-1))), "every level is filled", lw, "the loop may end before")
	for _, bk := range a.backs(l, nil) {
		c.req(bk.step(i) == mkSub(i, one), "every level is filled", lw, "the next level is %s", short(bk.step(i)))
		ds := dids(bk.st, dn(fnVtChunk))
		if !c.req(len(ds) == 1 && okErr(bk.st, callOf(ds[0]), 0), "a level is filled by digests", lw, "%d calls, or an error is ignored", len(ds)) {
			continue
		}
		e := a.callEvent(callOf(ds[0]))
		src, sink := unwrap(e.Raw[1]), unwrap(e.Raw[2])
		dest := a.cell(e.St, fieldOf(sink, "signingblock.byteWriter.dest"))
		off := a.cell(e.St, fieldOf(sink, "signingblock.byteWriter.offset"))
		c.req(dest.Op == "sl" && a.isTree(ex, dest.Args[0], offs, last) && dest.Args[1] == o(i) && dest.Args[2] == o(mkAdd(i, one)) && off == mkInt(0), "the digests are stored in the place of their level", lw, "they go to %s", short(dest))
		if dest.Op != "sl" {
			continue
		}
		lowest := bk.st.clone()
		lowest.assume(mkEq(i, low))
		higher := bk.st.clone()
		higher.assume(mkNot(mkEq(i, low)))
		if src == conts {
			c.req(higher.bot, "only the lowest level has the digests of the contents", lw, "a higher level may digest them")
		} else {
			d := a.cell(e.St, fieldOf(src, "signingblock.dataSourceBytes.data"))
			c.req(lowest.bot, "the lowest level has the digests of the contents", lw, "it may digest something else")
			c.req(d.Op == "sl" && d.Args[0] == dest.Args[0] && d.Args[1] == o(mkAdd(i, one)) && d.Args[2] == o(mkAdd(i, mkInt(2))), "a level has the digests of the level below it", lw, "it digests %s", short(d))
		}
		for _, ev := range a.x.log {
			if ev.Kind != "copy" || rootOf(ev.Args[0]) != rootOf(dest.Args[0]) && !(ev.Args[0].Op == "sl" && ev.Args[0].Args[0] == dest.Args[0]) {
				continue
			}
			w := c.w.posOf(ev.Fn, ev.Instr.Pos()) + " in " + shortFn(ev.Fn)
			s := a.x.content(ev.St, ev.Args[1], true)
			c.req(s.Op == "zeros" || s.Op == "take" && s.Args[0].Op == "zeros", "levels are filled up with zeros", w, "%s is copied", short(s))
			now := at(fieldOf(sink, "signingblock.byteWriter.offset"))
			moved := false
			ev.Args[0].walk(func(t *Term) bool {
				moved = moved || t.Op == "at" && len(t.Args) == 2 && t.Args[0] == now.Args[0]
				return true
			})
			c.req(moved, "levels are filled up after the digests", w, "zeros are written at %s", short(ev.Args[0]))
		}
	}
}

// verityRule: the verity digest is the root and the total length.
func (c *Check) verityRule() {
	a := c.anOpt(fnVerity, func(x *Exec, f *ssa.Function, ps []*Term, st *State) { sources(x) }, fnVtRoot)
	wh := a.where()
	conts := a.ps[1]
	n := 0
	for _, r := range a.succErr(1) {
		n++
		st := r.st
		first := res(mk("call", dn(invSource+"length"), elemAt(conts, mkInt(0))), 0)
		c.req(st.holds(mkEq(mk("rem", "", first, mkInt(4096)), mkInt(0))), "the first section is a number of whole pages", wh, "it may not be")
		ds := dids(st, dn(fnVtRoot))
		if !c.req(len(ds) == 1 && okErr(st, callOf(ds[0]), 1), "the root of the tree is computed", wh, "it is not") {
			continue
		}
		b, src := arg(ds[0], 0), unwrap(arg(ds[0], 1))
		e := a.callEvent(callOf(ds[0]))
		h := a.cell(e.St, fieldOf(e.Raw[0], vtType+"hasher"))
		salt := a.x.content(e.St, a.cell(e.St, fieldOf(e.Raw[0], vtType+"salt")), true)
		c.req(a.x.hashAlg(e.St, h) == mkStr("sha256"), "the tree is built with SHA-256", wh, "it uses %s", short(a.x.hashAlg(e.St, h)))
		c.req(salt == mk("zeros", "", mkInt(8)), "the salt is eight zero bytes", wh, "it is %s in %s", short(salt), short(b))
		rs := unwrap(e.Raw[1])
		list := a.cell(e.St, fieldOf(rs, "signingblock.dataSourceChained.sources"))
		total := a.cell(e.St, fieldOf(rs, "signingblock.dataSourceChained.totalSize"))
		c.req(list == conts, "the tree covers all sections", wh, "it covers %s", short(src))
		c.req(a.isTotal(st, total, conts, "length"), "the length is that of all sections", wh, "it is %s", short(total))
		v := a.x.content(st, r.vals[0], true)
		root := res0(callOf(ds[0]))
		le := mk("encle", "64", total)
		c.req(mkLen(v) == mkInt(40) || v.Op == "cat", "the digest has 40 bytes", wh, "it has %s", short(mkLen(v)))
		okRoot, okLen := false, false
		for t := v; ; {
			if t.Op == "put" {
				if t.Args[1] == mkInt(32) && !okLen {
					okLen = t.Args[2] == le
				} else if t.Args[1] == mkInt(0) && !okRoot {
					okRoot = t.Args[2] == root || t.Args[2].Op == "take" && t.Args[2].Args[0] == root
				}
				t = t.Args[0]
				continue
			}
			if t.Op == "cat" && len(t.Args) == 2 {
				okRoot = okRoot || t.Args[0] == root
				okLen = okLen || t.Args[1] == le
			}
			break
		}
		c.req(okRoot && okLen, "the digest is the root and the total length", wh, "it is %s", short(v))
	}
	c.req(n > 0, "the verity digest can be computed", wh, "no accepting path")
	for _, r := range a.rets {
		s := r.st.clone()
		s.assume(nonNilT(r.vals[1]))
		if s.bot {
			continue
		}
		bad := s.holds(mkNot(mkEq(mk("rem", "", res(mk("call", dn(invSource+"length"), elemAt(conts, mkInt(0))), 0), mkInt(4096)), mkInt(0))))
		for _, d := range dids(s, dn(fnVtRoot)) {
			bad = bad || !okErr(s, callOf(d), 1)
		}
		c.req(bad, "only a first section without whole pages or data that cannot be read is an error", wh, "%s is returned", short(r.vals[1]))
	}
}
