package main

import "strings"

func init() {
	checks = append(checks,
		checkDef{"C04", checkC04, 20},
	)
}

// iter is a completed loop over all elements of a list or all keys of a map.
type iter struct {
	l     *LoopRec
	elem  *Term // element or key, in terms of the loop's variables
	idx   *Term // index of the element (lists)
	backs []back
}

// listIters finds the completed loops of st that visit every element of the list, in order.
func (a *An) listIters(st *State, list, p *Term) []iter { return a.listItersFrom(st, list, p, 0) }

// listItersFrom: every element from the given index on.
func (a *An) listItersFrom(st *State, list, p *Term, from int64) []iter {
	var out []iter
	n := mkLen(list)
	for _, l := range a.doneLoops(st) {
		bs, ex := a.sticky(l, st, p)
		for _, c := range l.Cells {
			i0, ok := c.Init.int64()
			if !ok {
				continue
			}
			// the index, whatever the variable starts at (a range over a part of the list starts at -1)
			idx := mkAdd(c.Phi, mkInt(from-i0))
			if !ex.holds(mkLe(n, idx)) {
				continue
			}
			good := len(l.Backs) > 0
			for _, b := range bs {
				good = good && b.step(c.Phi) == mkAdd(c.Phi, mkInt(1))
			}
			if good {
				out = append(out, iter{l, elemAt(list, idx), idx, bs})
			}
		}
	}
	return out
}

// anyIters: every element, in any order (forwards or backwards).
func (a *An) anyIters(st *State, list, p *Term) []iter {
	out := a.listIters(st, list, p)
	n := mkLen(list)
	for _, l := range a.doneLoops(st) {
		bs, ex := a.sticky(l, st, p)
		for _, c := range l.Cells {
			idx, end := c.Phi, mkInt(-1)
			switch c.Init {
			case mkAdd(n, mkInt(-1)):
			case n:
				idx, end = mkAdd(c.Phi, mkInt(-1)), mkInt(0)
			default:
				continue
			}
			if !ex.holds(mkLe(c.Phi, end)) {
				continue
			}
			good := len(l.Backs) > 0
			for _, b := range bs {
				good = good && b.step(c.Phi) == mkAdd(c.Phi, mkInt(-1))
			}
			if good {
				out = append(out, iter{l, elemAt(list, idx), idx, bs})
			}
		}
	}
	return out
}

// mapIters finds the completed loops of st that visit every key of the map content m.
func (a *An) mapIters(st *State, m, p *Term) []iter {
	var out []iter
	for _, l := range a.doneLoops(st) {
		bs := a.backs(l, p)
		var key *Term
		good := len(l.Backs) > 0
		for _, b := range bs {
			k := (*Term)(nil)
			for _, f := range b.st.sortedFacts() {
				if f.Op == "more" && len(f.Args) == 1 && f.Args[0].Op == "iter" && len(f.Args[0].Args) == 2 && f.Args[0].Args[1] == m && st.facts[mkNot(f)] {
					k = mk("mapkey", f.Sym, f.Args[0])
				}
			}
			if k == nil || key != nil && k != key {
				good = false
				break
			}
			key = k
		}
		if good {
			out = append(out, iter{l, key, nil, bs})
		}
	}
	return out
}

// keyLists: lists that, on the path of st, hold every key of the map content m.
func (a *An) keyLists(st *State, m, p *Term) []*Term {
	var out []*Term
	for _, it := range a.mapIters(st, m, p) {
		for _, c := range it.l.Cells {
			good := mkLen(c.Init) == mkInt(0)
			for _, b := range it.backs {
				good = good && b.step(c.Phi) == app(c.Phi, listOf(it.elem))
			}
			if good {
				out = append(out, c.Phi)
				out = append(out, a.sortedVersions(st, c.Phi)...)
			}
		}
	}
	return out
}

// keyIters: loops over every key of the map content m, directly or through a list of its keys.
func (a *An) keyIters(st *State, m, p *Term) []iter {
	out := a.mapIters(st, m, p)
	for _, k := range a.keyLists(st, m, p) {
		out = append(out, a.anyIters(st, k, p)...)
	}
	return out
}

// unsorted: the list that the sorted list t was made from.
func unsorted(t *Term) *Term {
	for t != nil && t.Op == "sorted" {
		t = t.Args[0]
	}
	return t
}

// sortedVersions: the sorted forms of the list that the completed loops of st refer to.
func (a *An) sortedVersions(st *State, list *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, l := range a.doneLoops(st) {
		for _, b := range l.Backs {
			for _, f := range b.st.known() {
				f.walk(func(t *Term) bool {
					if t.Op == "sorted" && t.Args[0] == list && !seen[t] {
						seen[t] = true
						out = append(out, t)
					}
					return true
				})
			}
		}
	}
	return out
}

// fieldsOf looks into a described object: the interface value of a pointer to a local struct.
func describes(v *Term, typ string, fields ...*Term) bool {
	for v.Op == "iface" || v.Op == "ref" {
		v = v.Args[0]
	}
	if v.Op != "struct" || v.Sym != typ || len(v.Args) != len(fields) {
		return false
	}
	for i, f := range fields {
		if v.Args[i] != f {
			return false
		}
	}
	return true
}

// integrityRule decides the comparison of claimed and computed digests.
func (c *Check) integrityRule() {
	a := c.anClean(fnIntegrity, 2, fnCompute)
	wh := a.where()
	s, expected := a.ps[0], a.ps[1]
	n := 0
	for _, r := range a.rets {
		st := r.st.clone()
		st.assume(r.vals[0])
		if st.bot {
			continue
		}
		n++
		d := c.integrityCompare(a, st, expected)
		if d == nil {
			continue
		}
		sb := func(f string) *Term { return at(fieldOf(s, "signingblock.signingBlock."+f)) }
		c.req(arg(d, 0) == s, "digests are computed of the file whose block is verified", wh, "receiver %s", short(arg(d, 0)))
		secs := arg(d, 2)
		ok := secs.Op == "list" && len(secs.Args) == 3
		if !c.req(ok, "three sections of the file are digested", wh, "sections %s", short(secs)) {
			continue
		}
		apk := "signingblock.dataSourceApk"
		c.req(describes(secs.Args[0], apk, sb("file"), mkInt(0), sb("sigBlockOffset")), "the first section is everything before the signing block", wh, "section %s", short(secs.Args[0]))
		c.req(describes(secs.Args[1], apk, sb("file"), sb("centralDirOffset"), sb("eocdOffset")), "the second section is the central directory", wh, "section %s", short(secs.Args[1]))
		eocd := mkPut(sb("eocd"), mkInt(16), mkEnc("le", 32, sb("sigBlockOffset")))
		c.req(describes(secs.Args[2], "signingblock.dataSourceBytes", eocd), "the third section is the end-of-central-directory record with the signing block's offset as directory offset", wh, "section %s", short(secs.Args[2]))
	}
	c.req(n > 0, "the integrity check can succeed", wh, "no path returns true without an error")
	// a negative answer is an error
	b := c.an(fnIntegrity, fnCompute)
	for _, r := range b.rets {
		st := b.noNewErrors(r.st, b.ps[2])
		if st == nil {
			continue
		}
		st = st.clone()
		st.assume(mkNot(r.vals[0]))
		c.req(st.bot, "a failed integrity check is an error", wh, "false can be returned without an error")
	}
}

// integrityCompare finds the digest computation all of whose results were compared.
func (c *Check) integrityCompare(a *An, st *State, expected *Term) *Term {
	wh := a.where()
	m := content(expected)
	ds := dids(st, dn(fnCompute))
	if !c.req(len(ds) > 0, "the digests of the file are computed", wh, "success without computing digests") {
		return nil
	}
	for _, d := range ds {
		if !okErr(st, callOf(d), 1) {
			continue
		}
		actual := mk("content", "", res0(callOf(d)))
		lists := a.keyLists(st, m, a.ps[2])
		all := false
		for _, l := range lists {
			all = all || l == unsorted(arg(d, 1))
		}
		if all {
			lists = append(lists, arg(d, 1))
		}
		if !c.req(all, "a digest is computed for every claimed kind", wh, "digests are computed for %s", short(arg(d, 1))) {
			return nil
		}
		its := a.mapIters(st, m, a.ps[2])
		for _, l := range lists {
			its = append(its, a.anyIters(st, l, a.ps[2])...)
		}
		good := false
		for _, it := range its {
			g := true
			for _, b := range it.backs {
				e, x := look(m, it.elem), look(actual, it.elem)
				g = g && (b.st.holds(mkEq(e, x)) || b.st.holds(mkEq(mk("mapval", it.elem.Sym, it.elem.Args...), x)))
			}
			good = good || g
		}
		if c.req(good, "every claimed digest is compared with the computed one", wh, "an accepting path does not compare all of them") {
			return d
		}
		return nil
	}
	c.req(false, "a failure to compute the digests is an error", wh, "success although computing the digests may have failed")
	return nil
}

// computeRule decides that the computation returns a digest for each requested kind.
func (c *Check) computeRule() {
	const (
		chunked = "signingblock.(*signingBlock).computeOneMbChunkContentDigests"
		verity  = "signingblock.(*signingBlock).computeVerityContentDigest"
	)
	a := c.an(fnCompute, chunked, verity)
	wh := a.where()
	s, algos, contents := a.ps[0], a.ps[1], a.ps[2]
	ch := c.an(chunked)
	for _, r := range ch.succErr(1) {
		s := r.st.clone()
		s.assume(mkEq(r.vals[0], tNil))
		c.req(s.bot || r.vals[0].Op == "obj", "computed digests are returned", ch.where(), "success can return no digests")
	}
	for _, r := range a.succErr(1) {
		st := r.st
		nothing := false
		for _, d := range dids(st, dn(chunked)) {
			nothing = nothing || st.holds(mkEq(res0(callOf(d)), tNil))
		}
		if nothing {
			continue
		}
		its := a.listIters(st, algos, nil)
		if !c.req(len(its) > 0, "every requested kind is considered", wh, "success without a loop over the requested kinds") {
			continue
		}
		it := its[0]
		m := a.x.mapContent(st, r.vals[0])
		// what a round does with each kind
		var chunkList, flag *LoopCell
		for _, k := range it.l.Cells {
			if k.Phi == it.idx {
				continue
			}
			chunk, ver, ok := true, true, true
			for _, b := range it.backs {
				for kind := int64(1); kind <= 3; kind++ {
					sp := specialise(b.st, map[*Term]*Term{it.elem: mkInt(kind)})
					if sp == nil {
						continue
					}
					step := subst(b.step(k.Phi), map[*Term]*Term{it.elem: mkInt(kind)})
					switch {
					case kind == kVerity256:
						chunk = chunk && step == k.Phi
						ver = ver && sp.holds(step)
					default:
						chunk = chunk && (step == app(k.Phi, listOf(mkInt(kind))))
						ver = ver && step == k.Phi
					}
				}
			}
			_ = ok
			if chunk && mkLen(k.Init) == mkInt(0) {
				chunkList = k
			}
			if ver && k.Init == tFalse {
				flag = k
			}
		}
		lw := a.loopWhere(it.l)
		if !c.req(chunkList != nil && flag != nil, "kinds are split into chunked and verity digests", lw, "the loop does not collect them") {
			continue
		}
		// some[n]: whether digests of that sort are requested on this path
		none := st.holds(mkLe(mkLen(chunkList.Phi), mkInt(0)))
		if !none {
			ok := false
			for _, d := range dids(st, dn(chunked)) {
				ok = ok || okErr(st, callOf(d), 1) && arg(d, 0) == s && arg(d, 1) == chunkList.Phi && arg(d, 2) == contents && innermost(m) == content(res0(callOf(d)))
			}
			c.req(ok, "requested chunked digests are computed over the given sections and returned", wh, "result %s", short(m))
		}
		if !st.holds(mkNot(flag.Phi)) {
			ok := false
			for _, d := range dids(st, dn(verity)) {
				ok = ok || okErr(st, callOf(d), 1) && arg(d, 0) == s && arg(d, 1) == contents && m.Op == "upd" && m.Args[1] == mkInt(kVerity256) && m.Args[2] == res0(callOf(d))
			}
			c.req(ok, "a requested verity digest is computed over the given sections and returned", wh, "result %s", short(m))
		}
	}
}

func checkC04(c *Check) {
	for _, v3 := range []bool{false, true} {
		l := c.signer(v3)
		for _, r := range l.ok {
			d := l.signature(r.st)
			if !c.req(d != nil, "accepted signer: signature verified over the complete signed data", l.a.where(), "an accepting path has no successful verifySignature call over the signed data") {
				continue
			}
			if _, chosen := c.digestLoop(l, r.st, arg(d, 1)); chosen != nil {
				c.digestMap(l, r.st, arg(d, 1), chosen)
			}
		}
	}
	c.integrityRule()
	c.computeRule()
	c.signerLoops()
	c.errorGates()
}

func hasPrefixAny(s string, l ...string) bool {
	for _, p := range l {
		if strings.HasPrefix(s, p) {
			return true
		}
	}
	return false
}

// appended: a list to which a loop has appended every element of another list, written as one append.
func (a *An) appended(st *State, v *Term, lists ...*Term) *Term {
	if v.Op != "phi" {
		return v
	}
	for _, list := range lists {
		for _, it := range a.listIters(st, list, nil) {
			k := it.l.cellPhi(v)
			good := k != nil && len(it.backs) > 0
			for _, b := range it.backs {
				good = good && b.step(v) == app(v, listOf(it.elem))
			}
			if good {
				return app(k.Init, list)
			}
		}
	}
	return v
}
