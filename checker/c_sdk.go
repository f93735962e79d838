package main

func init() {
	checks = append(checks, checkDef{"C06", checkC06, 20})
}

const (
	tV3Info    = "signingblock.schemeV3SignerInfo."
	tV3        = "signingblock.schemeV3."
	tV31       = "signingblock.schemeV31."
	fnFinal3   = "signingblock.(*schemeV3).finalizeResult"
	fnConsol   = "signingblock.(*schemeV3).consolidateLineages"
	maxInt32   = 2147483647
	apiPie     = 28
	apiTiramsu = 33
)

// rangeBinding: the SDK range of an accepted v3 signer is the signed one, and is recorded.
func (c *Check) rangeBinding() {
	l := c.signer(true)
	a := l.a
	for _, r := range l.ok {
		st := r.st
		c.req(st.holds(mkEq(l.outerMin, l.inMin)), "the minimum SDK version outside the signed data equals the signed one", a.where(), "an accepting path does not compare them")
		c.req(st.holds(mkEq(l.outerMax, l.inMax)), "the maximum SDK version outside the signed data equals the signed one", a.where(), "an accepting path does not compare them")
		c.req(st.holds(mkLe(mkInt(1), l.outerMin)) && st.holds(mkLe(l.outerMin, l.outerMax)), "the SDK range of a signer is a positive, non-empty range", a.where(), "an accepting path does not check the range")
		ad := fieldOf(l.recv, tV3+"signers")
		now := a.cell(st, ad)
		ok := now.Op == "app" && now.Args[0] == at(ad) && now.Args[1].Op == "list" && len(now.Args[1].Args) == 1
		if !c.req(ok, "an accepted signer is recorded with its SDK range", a.where(), "the recorded signers become %s", short(now)) {
			continue
		}
		obj := now.Args[1].Args[0]
		mn, mx := a.cell(st, fieldOf(obj, tV3Info+"minSdkVersion")), a.cell(st, fieldOf(obj, tV3Info+"maxSdkVersion"))
		c.req(same(st, mn, l.inMin) && same(st, mx, l.inMax), "an accepted signer is recorded with its SDK range", a.where(), "recorded range %s, %s", short(mn), short(mx))
	}
}

// coverageRule: the signers of a block cover the requested range without gaps or overlaps.
func (c *Check) coverageRule() {
	a := c.anClean(fnFinal3, 3, fnConsol)
	wh := a.where()
	s, reqMin, reqMax, res := a.ps[0], a.ps[1], a.ps[2], a.ps[3]
	signers := at(fieldOf(s, tV3+"signers"))
	rot := at(fieldOf(s, tV3+"rotationMinSdkVersion"))
	v31 := at(fieldOf(s, tV3+"actingAsV31"))
	oks := a.succRes(res)
	c.req(len(oks) > 0, "a set of signers can be accepted", wh, "no accepting path")
	for _, r := range oks {
		st := r.st
		its := a.listIters(st, signers, res)
		if !c.req(len(its) > 0, "the SDK ranges of all signers are considered", wh, "an accepting path has no complete loop over the signers") {
			continue
		}
		found := false
		why := "no pair of variables follows the ranges"
		for _, it := range its {
			info := func(i *Term, f string) *Term { return at(fieldOf(elemAt(signers, i), tV3Info+f)) }
			eMin, eMax := info(it.idx, "minSdkVersion"), info(it.idx, "maxSdkVersion")
			type cand struct{ cur, exit, init *Term }
			firsts := []cand{{nil, info(mkInt(0), "minSdkVersion"), nil}}
			lasts := []cand{{info(mkAdd(it.idx, mkInt(-1)), "maxSdkVersion"), info(mkAdd(mkLen(signers), mkInt(-1)), "maxSdkVersion"), nil}}
			for _, k := range it.l.Cells {
				firsts = append(firsts, cand{k.Phi, k.Phi, k.Init})
				lasts = append(lasts, cand{k.Phi, k.Phi, k.Init})
			}
			for _, F := range firsts {
				for _, L := range lasts {
					if F.cur == L.cur {
						continue
					}
					ok := true
					for _, b := range it.backs {
						first := b.st.clone()
						first.assume(mkEq(it.idx, mkInt(0)))
						if F.init != nil {
							first.assume(mkEq(F.cur, F.init))
						}
						if L.init != nil {
							first.assume(mkEq(L.cur, L.init))
						}
						if !first.bot {
							ok = ok && (F.init == nil || same(first, b.step(F.cur), eMin)) && (L.init == nil || same(first, b.step(L.cur), eMax))
						}
						later := b.st.clone()
						later.assume(mkLe(mkInt(1), it.idx))
						if F.init != nil {
							later.assume(mkNot(mkEq(F.cur, mkInt(0))))
						}
						if !later.bot {
							ok = ok && holdsInc(later, eMin, L.cur) && (F.init == nil || same(later, b.step(F.cur), F.cur)) && (L.init == nil || same(later, b.step(L.cur), eMax))
						}
					}
					if !ok {
						continue
					}
					why = "the range covered by the signers is not compared with the requested one"
					// coverage of the requested range
					lo := true
					for _, as31 := range []*Term{v31, mkNot(v31)} {
						for _, old := range []*Term{mkLe(reqMin, mkInt(apiPie-1)), mkLe(mkInt(apiPie), reqMin)} {
							s := st.clone()
							s.assume(as31)
							s.assume(old)
							if s.bot {
								continue
							}
							R := reqMin
							if as31 == v31 {
								R = reqMax
							} else if old == mkLe(reqMin, mkInt(apiPie-1)) {
								R = mkInt(apiPie)
							}
							lo = lo && s.holds(mkLe(F.exit, R))
						}
					}
					hi := true
					s := st.clone()
					s.assume(mkEq(rot, mkInt(0)))
					hi = hi && (s.bot || s.holds(mkLe(reqMax, L.exit)))
					s = st.clone()
					s.assume(mkNot(mkEq(rot, mkInt(0))))
					hi = hi && (s.bot || s.holds(mkLe(rot, mkAdd(L.exit, mkInt(1)))) || s.holds(mkLe(mk("conv", "int32", mkAdd(rot, mkInt(-1))), L.exit)))
					if lo && hi {
						found = true
					}
				}
			}
		}
		c.req(found, "the accepted signers cover the requested range contiguously", wh, "%s", why)
	}
	c.bothJudged()
}

// bothJudged: with a v3.1 block the v3.1 signers and the v3 signers are judged, and the errors of both count.
func (c *Check) bothJudged() {
	b := c.anClean("signingblock.(*schemeV31).finalizeResult", 3, fnFinal3)
	wh := b.where()
	s, reqMin, reqMax, res := b.ps[0], b.ps[1], b.ps[2], b.ps[3]
	oks := b.succRes(res)
	c.req(len(oks) > 0, "a set of v3.1 signers can be accepted", wh, "no accepting path")
	for _, r := range oks {
		st := r.st
		var d31 *Term
		for _, d := range dids(st, dn(fnFinal3)) {
			if arg(d, 0) == fieldOf(s, tV31+"backendV31") && arg(d, 2) == reqMax && arg(d, 3) == res {
				d31 = d
			}
		}
		c.req(d31 != nil, "the ranges of the v3.1 signers are checked", wh, "an accepting path does not check them")
		found := false
		for _, d := range dids(st, dn(fnFinal3)) {
			if arg(d, 0) == fieldOf(s, tV31+"backendV3") && arg(d, 1) == reqMin && arg(d, 2) == reqMax {
				v3 := arg(d, 3)
				ok := v3.Op == "look" && v3.Args[1] == mkInt(3) && fieldName(v3.Args[0]) == resType+".ExtraResults"
				// its errors are the caller's
				e := b.cell(st, fieldOf(v3, errField))
				ok = ok && (st.holds(mkLe(mkLen(e), mkInt(0))) || b.appendsAll(st, fieldOf(res, errField), func(u *Term) bool {
					return u.Op == "errs" && u.Args[1] == callOf(d) && u.Args[0].Op == "at" && u.Args[0].Args[0] == fieldOf(v3, errField)
				}))
				found = found || ok
			}
		}
		if !found {
			// no v3 result was recorded: the v3 signers were never parsed, which v31SignersRule excludes
			for t, dm := range st.dom {
				if t.Op == "look" && t.Args[1] == mkInt(3) && fieldName(t.Args[0]) == resType+".ExtraResults" && !dm.neg && len(dm.set) == 1 && dm.set[0] == tNil {
					found = true
				}
			}
			for t := range st.facts {
				if t.Op == "not" && t.Args[0].Op == "has" && t.Args[0].Args[1] == mkInt(3) && fieldName(t.Args[0].Args[0]) == resType+".ExtraResults" {
					found = true
				}
			}
		}
		c.req(found, "the ranges of the v3 signers are checked and their errors count", wh, "an accepting path does not")
	}
}

func checkC06(c *Check) {
	c.rangeBinding()
	c.coverageRule()
	c.signerLoops()
	c.errorGates()
}

// holdsInc: b == a+1, possibly computed in 32 bits.
func holdsInc(st *State, b, a *Term) bool {
	n := mkAdd(a, mkInt(1))
	return st.holds(mkEq(b, n)) || st.holds(mkEq(b, mk("conv", "int32", n))) || st.holds(mkEq(mk("conv", "int32", mkAdd(b, mkInt(-1))), a))
}

// anySub: some subterm satisfies f.
func anySub(t *Term, f func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(x *Term) bool
	rec = func(x *Term) bool {
		if seen[x] {
			return false
		}
		seen[x] = true
		if f(x) {
			return true
		}
		for _, y := range x.Args {
			if rec(y) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// appendsAll: the list in the cell was extended by the whole list that isList recognises, in one go
// or element by element.
func (a *An) appendsAll(st *State, addr *Term, isList func(*Term) bool) bool {
	if anySub(a.cell(st, addr), func(t *Term) bool { return t.Op == "app" && isList(t.Args[1]) }) {
		return true
	}
	for _, l := range a.doneLoops(st) {
		k := l.cellFor(addr)
		if k == nil {
			continue
		}
		var list *Term
		for _, b := range a.backs(l, nil) {
			s := b.step(k.Phi)
			if s.Op == "app" && s.Args[1].Op == "list" && len(s.Args[1].Args) == 1 && s.Args[1].Args[0].Op == "at" && s.Args[1].Args[0].Args[0].Op == "ia" {
				list = s.Args[1].Args[0].Args[0].Args[0]
			}
		}
		if list == nil || !isList(list) {
			continue
		}
		for _, it := range a.listIters(st, list, nil) {
			if it.l != l {
				continue
			}
			good := true
			for _, b := range it.backs {
				good = good && b.step(k.Phi) == app(k.Phi, listOf(it.elem))
			}
			if good {
				return true
			}
		}
	}
	return false
}
