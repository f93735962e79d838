package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks = append(checks, checkDef{"C14", checkC14, 8})
}

const (
	fnV1SigVerify = "apkverifier.(*schemeV1).verifySignature"
	fnV1ChainEq   = "apkverifier.(*schemeV1).chainEqual"
	fnV1AddBlock  = "apkverifier.(*schemeV1).addSignatureBlock"
	fnV1AddSF     = "apkverifier.(*schemeV1).addSignatureFile"
	fnPkcs7Parse  = "pkcs7.Parse"
)

// signtool: the term that says whether the signature file was written by signtool.
func signtool(s *State, mainAttrs *Term) *Term {
	for _, k := range libCalls(s, "strings.Contains", nil) {
		if len(k.Args) == 2 && k.Args[0] == look(mainAttrs, mkStr("created-by")) && k.Args[1] == mkStr("signtool") {
			return res0(k)
		}
	}
	return tFalse
}

// sfRule decides which signature files count.
func (c *Check) sfRule() {
	a := c.anMaps2(fnV1Verify, 400, fnV1Ordered, fnV1Digests, fnV1SigVerify, fnV1Main)
	wh := a.where()
	p, min, max := a.ps[0], a.ps[3], a.ps[4]
	man := at(fieldOf(p, tV1+"manifest"))
	raw, mainEnd := at(fieldOf(man, tManifest+"rawData")), at(fieldOf(man, tManifest+"mainAttributtesEnd"))
	chunks := content(at(fieldOf(man, tManifest+"chunks")))
	n := 0
	for _, r := range a.succErr(0) {
		st := r.st
		sigs := a.x.mapContent(st, c.fieldNow(a, st, p, tV1+"sigs"))
		found := false
		for _, d := range dids(st, dn(fnV1Ordered)) {
			for _, it := range a.listIters(st, res0(callOf(d)), nil) {
				cell := it.l.cellPhi(sigs)
				if cell == nil || arg(d, 0) != p {
					continue
				}
				found = true
				lw := a.loopWhere(it.l)
				c.req(innermost(cell.Init).Op == "mapnew" && cell.Init.Op != "upd", "only signatures that passed count", lw, "initially %s", short(cell.Init))
				for _, b := range it.backs {
					step := b.step(cell.Phi)
					// a signature that fails makes the verification fail
					good := false
					for _, v := range dids(b.st, dn(fnV1SigVerify)) {
						if same(b.st, arg(v, 1), it.elem) && arg(v, 0) == p && arg(v, 2) == min && arg(v, 3) == max && okErr(b.st, callOf(v), 1) {
							good = true
							c.req(c.chainKept(a, it, b, p, it.elem, res0(callOf(v))), "the chain of every signature is reported", lw, "a verified signature's chain is not kept")
						}
					}
					c.req(good, "verification fails when a signature block does not verify", lw, "it succeeds although a signature may have failed")
					if step == cell.Phi {
						continue
					}
					n++
					why := c.sfCounts(a, b, step, cell.Phi, it.elem, min, max, raw, mainEnd, chunks)
					c.req(why == "", "a signature counts only if its signature file vouches for the manifest", lw, "%s", why)
				}
				// the number of signers is limited
				lim := false
				for _, k := range it.l.Cells {
					if k.Addr == fieldOf(p, tV1+"chain") {
						s := st.clone()
						s.assume(mkLe(mkInt(11), mkLen(k.Phi)))
						lim = s.bot && mkLen(k.Init) == mkLen(at(k.Addr))
					}
				}
				c.req(lim, "at most ten signers are accepted", wh, "more than ten may be accepted")
			}
		}
		c.req(found, "success means that all signatures were verified", wh, "an accepting path does not go through all signatures")
		s := st.clone()
		s.assume(mkEq(mkLen(sigs), mkInt(0)))
		c.req(s.bot, "at least one signature has to count", wh, "success without a signature that counts")
	}
	c.req(n > 0, "a signature can count", wh, "no round adds one")
}

// chainKept: the round adds the chain to the ones that are counted and reported, unless it is nil.
func (c *Check) chainKept(a *An, it iter, b back, p, sig, chain *Term) bool {
	for _, k := range it.l.Cells {
		if k.Addr != fieldOf(p, tV1+"chain") {
			continue
		}
		if b.step(k.Phi) == app(k.Phi, listOf(chain)) {
			return c.fieldNow(a, b.st, sig, tV1Sig+"chain") == chain
		}
		return b.step(k.Phi) == k.Phi && (b.st.holds(mkEq(chain, tNil)) || b.st.holds(mkLe(mkLen(chain), mkInt(0))))
	}
	return false
}

// sfCounts says why the signature must not be among those that count.
func (c *Check) sfCounts(a *An, b back, step, phi, sig, min, max, raw, mainEnd, chunks *Term) string {
	if step.Op != "upd" || step.Args[0] != phi || step.Args[2] != sig && !same(b.st, step.Args[2], sig) {
		return "the signatures that count become " + short(step)
	}
	if !same(b.st, step.Args[1], at(fieldOf(sig, tV1Sig+"name"))) {
		return "a signature counts under the name " + short(step.Args[1])
	}
	st := b.st
	sm := c.fieldNow(a, st, sig, tV1Sig+"signatureManifest")
	mainField := at(fieldOf(sm, tManifest+"main"))
	main := content(mainField)
	tool := signtool(st, main)
	// main attributes
	suffix := mkStr("-digest-manifest-main-attributes")
	why := c.v1Digests(a, st, mainField, suffix, min, max, func(s *State, data *Term) bool { return data == mkTake(raw, mainEnd) })
	if why != "" {
		none := st.holds(mkLe(at(fieldOf(sm, tManifest+"mainAttributtesEnd")), mkInt(0))) || st.holds(tool)
		for _, d := range dids(st, dn(fnV1Digests)) {
			none = none || arg(d, 0) == a.ps[0] && same(st, arg(d, 1), mainField) && arg(d, 2) == suffix && arg(d, 3) == min && arg(d, 4) == max && st.holds(mkLe(mkLen(res0(callOf(d))), mkInt(0)))
		}
		if !none {
			return "main attributes: " + why
		}
	}
	// whole manifest
	var whole *Term
	switch {
	case st.holds(tool):
		whole = mkStr("-digest")
	case st.holds(mkNot(tool)):
		whole = mkStr("-digest-manifest")
	}
	why = "the digest of the manifest depends on an undetermined attribute"
	if whole != nil {
		why = c.v1Digests(a, st, mainField, whole, min, max, func(s *State, data *Term) bool { return data == raw })
		if why == "" {
			return ""
		}
	}
	// or each section
	ents := content(at(fieldOf(sm, tManifest+"entries")))
	for _, it := range a.keyIters(st, ents, nil) {
		good := true
		for _, b2 := range it.backs {
			w := "entries of the signature file are skipped"
			vals := []*Term{look(ents, it.elem)}
			if it.elem.Op == "mapkey" {
				vals = append(vals, mk("mapval", it.elem.Sym, it.elem.Args...))
			}
			for _, e := range vals {
				x := c.v1Digests(a, b2.st, e, mkStr("-digest"), min, max, func(s *State, data *Term) bool {
					sec := look(chunks, it.elem)
					if !s.holds(has(chunks, it.elem)) && !s.holds(mkLe(mkInt(1), mkLen(sec))) {
						return false
					}
					return data == sec || s.holds(tool) && data == mkTake(sec, mkAdd(mkLen(sec), mkInt(-1)))
				})
				if x == "" {
					w = ""
				} else if w != "" {
					w = x
				}
			}
			if w != "" {
				good, why = false, "sections: "+w
				break
			}
		}
		if good {
			return ""
		}
	}
	return "neither the manifest nor each of its sections is digested: " + why
}

// fileSigners decides that all files have the signers that are reported.
func (c *Check) fileSigners() {
	a := c.v1Main()
	wh := a.where()
	p, apk := a.ps[0], a.ps[1]
	chain := fieldOf(p, tV1+"chain")
	for _, r := range a.succErr(0) {
		its, why := c.requiredIters(a, r.st, apk)
		good := false
		for _, it := range its {
			w := ""
			for _, b := range it.backs {
				if x := c.sameSigners(a, it, b, p, chain); x != "" {
					w = x
				}
			}
			if w == "" {
				good = true
				k := it.l.cellFor(chain)
				c.req(k != nil && c.fieldNow(a, r.st, p, tV1+"chain") == k.Phi, "the signers of the files are reported", wh, "reported chains %s", short(c.fieldNow(a, r.st, p, tV1+"chain")))
			} else {
				why = w
			}
		}
		c.req(good, "every file is listed by the same non-empty set of signature files", wh, "%s", why)
	}
	// comparing sets of signers
	m := c.an(fnV1Match, fnV1ChainEq)
	n := 0
	for _, r := range m.succBool(0, true) {
		n++
		for _, d := range [][2]*Term{{m.ps[1], m.ps[2]}, {m.ps[2], m.ps[1]}} {
			good := same(r.st, d[0], d[1])
			for _, it := range m.listIters(r.st, d[0], nil) {
				g := true
				for _, b := range it.backs {
					g = g && c.hasEqualChain(b.st, it.elem, d[1])
				}
				good = good || g
			}
			c.req(good, "two sets of signers are equal only if each chain of one is in the other", m.where(), "chains of %s may be missing in %s", short(d[0]), short(d[1]))
		}
	}
	c.req(n > 0, "two sets of signers can be equal", m.where(), "never")
	e := c.an(fnV1ChainEq)
	n = 0
	raw := func(l, i *Term) *Term { return at(fieldOf(elemAt(l, i), "crypto/x509.Certificate.Raw")) }
	for _, r := range e.succBool(0, true) {
		n++
		x, y := e.ps[1], e.ps[2]
		good := false
		for _, it := range e.listIters(r.st, x, nil) {
			g := r.st.holds(mkEq(mkLen(x), mkLen(y)))
			for _, b := range it.backs {
				g = g && b.st.holds(mkEq(raw(x, it.idx), raw(y, it.idx)))
			}
			good = good || g
		}
		c.req(good, "chains are equal only if all their encoded certificates are", e.where(), "true without comparing all")
	}
	c.req(n > 0, "chains can be equal", e.where(), "never")
}

// hasEqualChain: the state knows an element of the list that is an equal chain.
func (c *Check) hasEqualChain(st *State, x, list *Term) bool {
	for _, f := range st.sortedFacts() {
		if f.Op != "did" || f.Sym != dn(fnV1ChainEq) || !st.holds(res0(callOf(f))) {
			continue
		}
		for i := 1; i <= 2; i++ {
			y := arg(f, 3-i)
			if same(st, arg(f, i), x) && y.Op == "at" && y.Args[0].Op == "ia" && y.Args[0].Args[0] == list {
				return true
			}
		}
	}
	return false
}

// sameSigners says why a round that accepts a file may leave its signers undetermined.
func (c *Check) sameSigners(a *An, it iter, b back, p, chain *Term) string {
	k := it.l.cellFor(chain)
	if k == nil {
		return "the signers are not kept"
	}
	why := "the signature files that list the file are not collected"
	for _, l := range c.listers(a, b.st, p, it.elem) {
		if !b.st.holds(mkLe(mkInt(1), mkLen(l))) {
			why = "a file may be in no signature file"
			continue
		}
		step := b.step(k.Phi)
		if step == k.Phi {
			for _, d := range dids(b.st, dn(fnV1Match)) {
				if b.st.holds(res0(callOf(d))) && (arg(d, 1) == k.Phi && arg(d, 2) == l || arg(d, 2) == k.Phi && arg(d, 1) == l) {
					return ""
				}
			}
			why = "the signers of a file are not compared"
			continue
		}
		if step == l && c.firstRound(it, b) {
			return ""
		}
		why = "the signers become " + short(step)
	}
	return why
}

// firstRound: the way round the loop is only possible in the first round.
func (c *Check) firstRound(it iter, b back) bool {
	if it.idx != nil && b.st.holds(mkLe(it.idx, mkInt(0))) {
		return true
	}
	for _, f := range it.l.Cells {
		if f.Init == tFalse && b.st.holds(mkNot(f.Phi)) || f.Init == tTrue && b.st.holds(f.Phi) {
			good := true
			for _, x := range it.backs {
				good = good && x.st.holds(mkEq(x.step(f.Phi), mkNot(f.Init)))
			}
			if good {
				return true
			}
		}
	}
	return false
}

// listers: lists of the chains of exactly the signatures whose signature file lists the path.
func (c *Check) listers(a *An, st *State, p, path *Term) []*Term {
	var out []*Term
	for _, d := range dids(st, dn(fnV1Ordered)) {
		for _, it := range a.listIters(st, res0(callOf(d)), nil) {
			if arg(d, 0) != p {
				continue
			}
			sm := at(fieldOf(it.elem, tV1Sig+"signatureManifest"))
			ents := content(at(fieldOf(sm, tManifest+"entries")))
			listed := []*Term{has(ents, path), nonNilT(look(ents, path))}
			for _, k := range it.l.Cells {
				good := mkLen(k.Init) == mkInt(0)
				for _, b := range it.backs {
					in := b.st.holds(listed[0]) || b.st.holds(listed[1])
					outside := b.st.holds(mkNot(listed[0])) || b.st.holds(mkNot(listed[1]))
					switch b.step(k.Phi) {
					case app(k.Phi, listOf(at(fieldOf(it.elem, tV1Sig+"chain")))):
						good = good && in
					case k.Phi:
						good = good && outside
					default:
						good = false
					}
				}
				if good {
					out = append(out, k.Phi)
				}
			}
		}
	}
	return out
}

// allSigs: the signatures that are gone through are all that were read.
func (c *Check) allSigs() {
	a := c.an(fnV1Ordered)
	wh := a.where()
	p := a.ps[0]
	sigs := content(at(fieldOf(p, tV1+"sigs")))
	for _, r := range a.rets {
		good := false
		for _, it := range a.listIters(r.st, at(fieldOf(p, tV1+"sigNames")), nil) {
			for _, k := range it.l.Cells {
				g := k.Phi == r.vals[0] && mkLen(k.Init) == mkInt(0)
				for _, b := range it.backs {
					switch b.step(k.Phi) {
					case app(k.Phi, listOf(look(sigs, it.elem))):
					case k.Phi:
						g = g && (b.st.holds(mkNot(has(sigs, it.elem))) || b.st.holds(mkEq(look(sigs, it.elem), tNil)))
					default:
						g = false
					}
				}
				good = good || g
			}
		}
		c.req(good, "all signatures are gone through", wh, "the result is %s", short(r.vals[0]))
	}
	// every signature is stored under its name, and its name is remembered
	allowed := map[ssa.Instruction]bool{}
	for _, n := range []string{fnV1AddBlock, fnV1AddSF} {
		b := c.anMaps(n, fnParseMan, fnPkcs7Parse)
		bw := b.where()
		m := fieldOf(b.ps[0], tV1+"sigs")
		for _, e := range b.x.log {
			if e.Kind == "mapupdate" {
				allowed[e.Instr] = true
			}
		}
		for _, r := range b.rets {
			now := b.x.mapContent(r.st, at(m))
			if now == content(at(m)) {
				continue
			}
			c.req(c.addsSig(b, r.st, b.ps[0], now), "a signature is kept under its name", bw, "signatures become %s", short(now))
		}
	}
	v := c.anMaps2(fnV1Verify, 400, fnV1Ordered, fnV1Digests, fnV1SigVerify, fnV1Main)
	for _, e := range v.x.log {
		if e.Kind == "mapupdate" {
			allowed[e.Instr] = true // sfRule
		}
	}
	n := 0
	for _, f := range c.w.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if m, is := i.(*ssa.MapUpdate); is && isSigMap(m.Map.Type()) {
					n++
					c.req(allowed[i], "signatures are added only where they are read", c.w.posOf(f, i.Pos())+" in "+shortFn(f), "a signature is added here")
				}
			}
		}
	}
	c.req(n > 0, "signatures are kept", wh, "no update of the signatures found")
}

func isSigMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	e, ok := m.Elem().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := e.Elem().(*types.Named)
	return ok && n.Obj().Name() == "schemeV1Signature"
}

// addsSig: the change adds one new signature under its name.
func (c *Check) addsSig(a *An, st *State, p, now *Term) bool {
	old := content(at(fieldOf(p, tV1+"sigs")))
	names := at(fieldOf(p, tV1+"sigNames"))
	if now.Op != "upd" || now.Args[0] != old {
		return false
	}
	k, v := now.Args[1], now.Args[2]
	isNew := st.holds(mkNot(has(old, k))) || st.holds(mkEq(look(old, k), tNil))
	return isNew && c.fieldNow(a, st, v, tV1Sig+"name") == k && c.fieldNow(a, st, p, tV1+"sigNames") == app(names, listOf(k))
}

func checkC14(c *Check) {
	c.sfRule()
	c.fileSigners()
	c.allSigs()
	c.hasherCache(c.v1Main(), c.anMaps2(fnV1Verify, 400, fnV1Ordered, fnV1Digests, fnV1SigVerify, fnV1Main))
}
