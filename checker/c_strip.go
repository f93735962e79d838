package main

import "golang.org/x/tools/go/ssa"

import "sort"

func init() {
	checks = append(checks, checkDef{"C08", checkC08, 20})
}

const (
	fnV1Verify  = "apkverifier.(*schemeV1).verify"
	fnV1Ordered = "apkverifier.(*schemeV1).orderedSigs"
	fnV1Sig     = "apkverifier.(*schemeV1).verifySignature"
	fnV1Entry   = "apkverifier.(*schemeV1).verifyManifestEntry"
	fnV1Main    = "apkverifier.(*schemeV1).verifyMainManifest"
	tV1Sig      = "apkverifier.schemeV1Signature."
	tManifest   = "apkverifier.manifest."
	tV1         = "apkverifier.schemeV1."
	attrStrip2  = 0xbeeff00d
	attrMinSdk3 = 0x559f8b02
)

// stripV2: the stripping protection attribute of a v2 signer.
func (c *Check) stripV2() {
	l := c.signer(false)
	a := l.a
	n := 0
	for _, r := range l.ok {
		loop, cell := c.attrLoop(l, r.st)
		if loop == nil {
			continue
		}
		lw := a.loopWhere(loop)
		attr := LP(cell.Phi)
		sid := le32i(drop(attr, 4))
		extra := at(fieldOf(l.result, resType+".ExtraBlocks"))
		max := at(fieldOf(l.recv, "signingblock.schemeV2.maxSdkVersion"))
		for _, b := range a.backs(loop, l.result) {
			s := b.st.clone()
			s.assume(mkEq(le32u(attr), mkInt(attrStrip2)))
			s.assume(mkLe(mkInt(apiPie), max))
			if s.bot {
				continue
			}
			n++
			var ids []int64
			for id := range blockOf {
				ids = append(ids, id)
			}
			sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
			rest := s.clone()
			for _, id := range ids {
				rest.assume(mkNot(mkEq(sid, mkInt(id))))
				t := s.clone()
				t.assume(mkEq(sid, mkInt(id)))
				if t.bot {
					continue
				}
				t = specialise(t, map[*Term]*Term{sid: mkInt(id)})
				if t == nil {
					continue
				}
				blk := look(content(extra), mkInt(blockOf[id]))
				ok := t.holds(nonNilT(blk))
				for _, f := range t.sortedFacts() { // the lookup may go through a copy of the field's value
					if f.Op == "not" && f.Args[0].Op == "eq" {
						ok = ok || isBlockNonNil(f.Args[0], blockOf[id], l.result)
					}
				}
				c.req(ok, "a v2 signer that names a stripped scheme is rejected when the scheme's block is missing", lw, "scheme %d: a round accepts the attribute without a block", id)
			}
			c.req(rest.bot, "a v2 signer that names an unknown stripped scheme is rejected", lw, "a round accepts the attribute with an unknown scheme id")
		}
	}
	c.req(n > 0, "the stripping protection of v2 signers is evaluated where v3 is supported", a.where(), "no round handles the attribute")
}

// isBlockNonNil: the equation compares the block of the result's extra blocks with nil.
func isBlockNonNil(eq *Term, id int64, result *Term) bool {
	x, y := eq.Args[0], eq.Args[1]
	if x == tNil {
		x = y
	} else if y != tNil {
		return false
	}
	return x.Op == "look" && x.Args[1] == mkInt(id) && x.Args[0].Op == "content" && fieldName(x.Args[0].Args[0]) == resType+".ExtraBlocks" && x.contains(result)
}

// stripV3: a v3 signer that requires rotation from an SDK version on.
func (c *Check) stripV3() {
	l := c.signer(true)
	a := l.a
	n := 0
	rot := at(fieldOf(l.recv, tV3+"rotationMinSdkVersion"))
	max := at(fieldOf(l.recv, tV3+"maxSdkVersion"))
	for _, r := range l.ok {
		loop, cell := c.attrLoop(l, r.st)
		if loop == nil {
			continue
		}
		lw := a.loopWhere(loop)
		attr := LP(cell.Phi)
		for _, b := range a.backs(loop, l.result) {
			s := b.st.clone()
			s.assume(mkEq(le32u(attr), mkInt(attrMinSdk3)))
			s.assume(mkLe(mkInt(apiTiramsu), max))
			if s.bot {
				continue
			}
			n++
			none := s.clone()
			none.assume(mkEq(rot, mkInt(0)))
			c.req(none.bot, "a v3 signer that requires rotation is rejected without a v3.1 block", lw, "a round accepts the attribute without a v3.1 block")
			s.assume(mkNot(mkEq(rot, mkInt(0))))
			c.req(s.bot || s.holds(mkEq(rot, le32i(drop(attr, 4)))), "rotation starts at the SDK version the v3 signer requires", lw, "a round accepts another SDK version")
		}
		now := a.cell(r.st, fieldOf(l.recv, tV3+"rotationMinSdkVersion"))
		c.req(now == rot || now.Op == "phi", "verifying a signer does not change the SDK version where rotation starts", a.where(), "it becomes %s", short(now))
	}
	c.req(n > 0, "the rotation requirement of v3 signers is evaluated where v3.1 is supported", a.where(), "no round handles the attribute")
}

// v1Outer finds the loops over all signatures of a v1-signed APK.
func (c *Check) v1Outer(a *An, st *State) []iter {
	var out []iter
	for _, d := range dids(st, dn(fnV1Ordered)) {
		if arg(d, 0) == a.ps[0] {
			out = append(out, a.listIters(st, res0(callOf(d)), nil)...)
		}
	}
	return out
}

func (c *Check) v1Verify() *An {
	return c.an(fnV1Verify, fnV1Ordered, fnV1Sig, fnV1Entry, fnV1Main)
}

// stripV1: the X-Android-APK-Signed attribute of a v1 signature.
func (c *Check) stripV1() {
	// only APKs without a signing block on platforms that know schemes 2 and 3 matter
	a := c.anOpt(fnV1Verify, func(x *Exec, f *ssa.Function, ps []*Term, st *State) {
		st.assume(mkNot(ps[2]))
		st.assume(mkLe(mkInt(24), ps[4]))
		x.keepErrs, x.maxStates, x.maxEntry = true, 1000, 200
	}, fnV1Ordered, fnV1Sig, fnV1Entry, fnV1Main)
	wh := a.where()
	hasBlock, max := a.ps[2], a.ps[4]
	n := 0
	for _, r := range a.succErr(0) {
		st := r.st
		its := c.v1Outer(a, st)
		if !c.req(len(its) > 0, "all v1 signatures are considered", wh, "an accepting path has no complete loop over the signatures") {
			continue
		}
		good := false
		for _, it := range its {
			why := ""
			for _, b := range it.backs {
				s := b.st.clone()
				s.assume(mkNot(hasBlock))
				s.assume(mkLe(mkInt(24), max))
				if s.bot {
					continue
				}
				var sig *Term
				for _, d := range dids(s, dn(fnV1Sig)) {
					if arg(d, 1) == it.elem || same(s, arg(d, 1), it.elem) {
						sig = d
					}
				}
				if sig != nil {
					s.assume(mkEq(res(callOf(sig), 1), tNil))
				}
				main := c.mainAttrs(s, it.elem, sig)
				if main == nil {
					if s.bot {
						continue
					}
					why = "a round does not look at the main attributes"
					break
				}
				s.assume(has(main, mkStr("x-android-apk-signed")))
				if s.bot {
					continue
				}
				if sig == nil {
					why = "a round does not verify the signature"
					break
				}
				n++
				if !c.idListExcluded(a, s, look(main, mkStr("x-android-apk-signed")), max) {
					why = "a round accepts a signature file naming scheme 2 or a supported scheme 3"
					break
				}
			}
			if why == "" {
				good = true
			} else {
				c.notes = append(c.notes, why)
			}
		}
		why := ""
		if len(c.notes) > 0 {
			why = c.notes[len(c.notes)-1]
		}
		c.req(good, "a v1 signature file that names a missing newer scheme is rejected", wh, "%s", why)
	}
	c.req(n > 0, "the attribute naming newer schemes is evaluated", wh, "no round reads the attribute")
}

// mainAttrs: the content of the main attributes of the signature file of sig, as read in s.
func (c *Check) mainAttrs(s *State, sig, call *Term) *Term {
	var out *Term
	for _, f := range s.known() {
		f.walk(func(t *Term) bool {
			if (t.Op == "has" || t.Op == "look") && t.Args[1] == mkStr("x-android-apk-signed") && fieldName(t.Args[0]) == tManifest+"main" && t.Args[0].contains(sig) {
				out = t.Args[0]
			}
			return true
		})
	}
	return out
}

// idListExcluded: on the path of s, every element of the comma separated list was seen not to name
// scheme 2, nor scheme 3 where the range supports it.
func (c *Check) idListExcluded(a *An, s *State, list, max *Term) bool {
	for _, l := range a.doneLoops(s) {
		for _, t := range splitsOf(l, s, list) {
			for _, it := range a.listIters(s, t, nil) {
				if it.l != l {
					continue
				}
				ok := true
				for _, b := range it.backs {
					for id, cond := range map[int64]*Term{2: tTrue, 3: mkLe(mkInt(apiPie), max)} {
						x := b.st.clone()
						x.assume(cond)
						num := parsedInt(x, it.elem)
						if num == nil {
							if !x.bot && !emptyTok(x, it.elem) {
								ok = false
							}
							continue
						}
						x.assume(mkEq(num.err, tNil))
						x.assume(mkEq(num.val, mkInt(id)))
						if !x.bot && !emptyTok(x, it.elem) {
							ok = false
						}
					}
				}
				if ok {
					return true
				}
			}
		}
	}
	return false
}

// known lists every fact and every term with a known domain.
func (s *State) known() []*Term { return append(s.sortedFacts(), s.sortedDom()...) }

// libCalls lists the library calls of one name that the state knows something about.
func libCalls(s *State, name string, over *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, f := range s.known() {
		f.walk(func(t *Term) bool {
			if t.Op == "call" && t.Sym == name && !seen[t] && (over == nil || t.contains(over)) {
				seen[t] = true
				out = append(out, t)
			}
			return true
		})
	}
	return out
}

// splitsOf: the lists made of the comma separated elements of list.
func splitsOf(l *LoopRec, s *State, list *Term) []*Term {
	var out []*Term
	for _, t := range libCalls(s, "strings.Split", list) {
		if len(t.Args) == 2 && t.Args[0] == list && t.Args[1] == mkStr(",") {
			out = append(out, res(t, 0))
		}
	}
	return out
}

type parsed struct{ val, err *Term }

// parsedInt: the number that the path made of the (trimmed) token.
func parsedInt(s *State, tok *Term) *parsed {
	for _, n := range []string{"strconv.ParseInt", "strconv.Atoi", "strconv.ParseUint"} {
		for _, t := range libCalls(s, n, tok) {
			x := t.Args[0]
			if r := x; r.Op == "res" && r.Args[0].Sym == "strings.TrimSpace" {
				x = r.Args[0].Args[0]
			}
			if x == tok && (len(t.Args) < 2 || t.Args[1] == mkInt(10)) {
				return &parsed{res(t, 0), res(t, 1)}
			}
		}
	}
	return nil
}

func emptyTok(s *State, tok *Term) bool {
	for _, t := range libCalls(s, "strings.TrimSpace", tok) {
		if t.Args[0] == tok && s.holds(mkEq(res(t, 0), mkStr(""))) {
			return true
		}
	}
	return s.holds(mkEq(tok, mkStr("")))
}

func checkC08(c *Check) {
	c.stripV2()
	c.stripV3()
	c.v31SignersRule()
	c.stripV1()
	c.signerLoops()
	c.errorGates()
	c.bothJudged()
}
