package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks = append(checks, checkDef{"C18", checkC18, 40}) }

const (
	tSV      = "signingblock.sourceStampVerifier."
	tSR      = "signingblock.SourceStampResult."
	fnStVer  = "signingblock.(*sourceStampVerifier).verifySignature"
	fnStAttr = "signingblock.(*sourceStampVerifier).parseStampAttributes"
	fnStDig  = "signingblock.(*sourceStampVerifier).getSignatureSchemeDigest"
	fnStV1   = "signingblock.(*sourceStampVerifier).getSchemeV1ContentDigest"
	fnStFil  = "signingblock.(*sourceStampVerifier).filterSignaturesToVerify"
	fnStLin  = "signingblock.(*sourceStampVerifier).parseStampCertLineage"
	parseAnd = "internal/x509andr.ParseCertificateForGo"
	zipFiles = "github.com/avast/apkparser.ZipReader.File"
	zipRead  = "(*github.com/avast/apkparser.ZipReaderFile).ReadAll"
)

// stamp interprets a method of the verifier, keeping only the paths that add no error.
func (c *Check) stamp(name string, pre func(st *State, ps []*Term) []*Term, bounds ...string) *An {
	return c.anOpt(name, func(x *Exec, f *ssa.Function, ps []*Term, st *State) {
		x.watch = fieldOf(fieldOf(ps[0], tSV+"res"), tSR+"Errors")
		x.watch0 = at(x.watch)
		if pre != nil {
			for _, p := range pre(st, ps) {
				st.assume(p)
			}
		}
	}, bounds...)
}

func stampErrors(v *Term) *Term { return fieldOf(fieldOf(v, tSV+"res"), tSR+"Errors") }

// stampRule decides what a source stamp without errors has been checked for.
func (c *Check) stampRule() {
	for _, scheme := range []int64{1, 2, 3, 31} {
		for _, empty := range []bool{false, true} {
			a := c.stamp(fnStamp, func(st *State, ps []*Term) []*Term {
				st.mem[fieldOf(ps[0], tSV+"verifiedSchemeId")] = mkInt(scheme)
				n := mkLe(mkInt(1), mkLen(content(ps[3])))
				if empty {
					n = mkNot(n)
				}
				return []*Term{n, nonNilT(ps[2]), nonNilT(look(content(at(fieldOf(ps[1], zipFiles))), mkStr("stamp-cert-sha256")))}
			}, fnStVer, fnStAttr, fnStDig, fnStV1)
			c.stampPaths(a, scheme, empty)
		}
	}
}

// noStampErrors: the path is not known to have recorded an error.
func (a *An) noStampErrors(st *State, v *Term) bool {
	return !st.holds(mkLe(mkInt(1), mkLen(a.cell(st, stampErrors(v)))))
}

// bufData is what a buffer argument of a recorded call contains.
func bufData(t *Term) *Term {
	if t.Op == "bufref" {
		t = t.Args[0]
	}
	if t.Op == "content" {
		t = t.Args[0]
	}
	return t
}

// dataOf is the data of v, a buffer or a slice, on the path of st.
func dataOf(st *State, v *Term) *Term {
	if d := st.mem[mk("bufc", "", v)]; d != nil {
		return d
	}
	return bufData(v)
}

func (c *Check) stampPaths(a *An, scheme int64, empty bool) int {
	wh := fmt.Sprintf("%s, scheme %d, digests given: %v", a.where(), scheme, !empty)
	v, zip, B := a.ps[0], a.ps[1], a.ps[2]
	S := LP(B)
	entry := look(content(at(fieldOf(zip, zipFiles))), mkStr("stamp-cert-sha256"))
	need := scheme
	if need == 31 {
		need = 3
	}
	full, attrs := 0, 0
	for _, r := range a.rets {
		st := r.st
		if !a.noStampErrors(st, v) {
			continue
		}
		if !c.req(r.vals[0] == fieldOf(v, tSV+"res"), "a stamp that is present is reported", wh, "result %s", short(r.vals[0])) {
			continue
		}
		cert := a.cell(st, fieldOf(fieldOf(v, tSV+"res"), tSR+"Cert"))
		parsed := cert.Op == "res" && cert.Sym == "0" && cert.Args[0].Sym[:min(len(parseAnd), len(cert.Args[0].Sym))] == parseAnd && okErr(st, cert.Args[0], 1)
		if parsed && st.holds(mkEq(cert, tNil)) {
			continue // excluded: the parser returns a certificate or an error
		}
		if !c.req(parsed && same(st, cert.Args[0].Args[0], LP(S)), "the certificate of the stamp is the first item of its block", wh, "the reported certificate is %s", short(cert)) {
			continue
		}
		// the hash of the certificate in the archive
		hash := mk("hashsum", "sha256", at(fieldOf(cert, certRaw)))
		ok := false
		for _, d := range dids(st, zipRead) {
			ok = ok || arg(d, 0) == entry && okErr(st, callOf(d), 1) && same(st, res0(callOf(d)), hash)
		}
		c.req(ok, "the certificate matches the hash stored in the archive", wh, "an accepting path does not compare the SHA-256 of the certificate with stamp-cert-sha256")
		// the signatures of the scheme
		vs := []*Term{}
		bad := false
		for _, d := range dids(st, dn(fnStVer)) {
			if st.holds(mkNot(res0(callOf(d)))) {
				bad = true // records an error, see falseRule
			} else if arg(d, 0) == v { // a false result would have recorded an error

				vs = append(vs, d)
			}
		}
		for _, d := range dids(st, dn(fnStAttr)) {
			bad = bad || st.holds(mkNot(res0(callOf(d))))
		}
		if bad {
			continue
		}
		loop, cell := c.wholeLoop(a, st, LP(dropLP(S)), nil, "signature lists of the stamp")
		if loop == nil {
			continue
		}
		rec := LP(cell.Phi)
		var why string
		ok = false
		for _, d := range vs {
			if !same(st, arg(d, 2), cert) {
				continue
			}
			sigs := bufData(arg(d, 3))
			coll, id := sigs, mkInt(need) // the list itself, or a map of the lists by their scheme
			if sigs.Op == "look" && sigs.Args[1] == id {
				coll = sigs.Args[0]
			}
			k := loop.cellPhi(coll)
			if k == nil {
				why = "its signatures are " + short(sigs)
				continue
			}
			good := (k.Init == tNil && coll == sigs || k.Init.Op == "mapnew" && coll != sigs) && st.holds(nonNilT(sigs))
			why = "no list of the scheme may have been found"
			for _, b := range a.backs(loop, nil) {
				n := b.step(coll)
				if n == coll {
					if !b.st.holds(mkNot(mkEq(le32i(rec), id))) {
						good, why = false, "the list of the scheme may be passed over"
					}
					continue
				}
				if coll != sigs {
					if n.Op != "upd" || n.Args[0] != coll {
						good, why = false, "the lists kept are "+short(n)
						continue
					}
					if b.st.holds(mkNot(mkEq(n.Args[1], id))) && b.st.holds(mkNot(mkEq(le32i(rec), id))) {
						continue
					}
					if n.Args[1] != le32i(rec) {
						good, why = false, "a list is kept as that of the scheme "+short(n.Args[1])
					}
					n = n.Args[2]
				} else if !b.st.holds(mkEq(le32i(rec), id)) {
					good, why = false, "the list of another scheme may be used"
				}
				if !same(b.st, dataOf(b.st, n), LP(drop(rec, 4))) {
					good, why = false, "the list used is "+short(dataOf(b.st, n))
				}
			}
			if !good {
				continue
			}
			// the data it covers
			why = "the data verified is " + short(arg(d, 1))
			for _, g := range dids(st, dn(fnStDig)) {
				if arg(d, 1) != res0(callOf(g)) {
					continue
				}
				e := a.callEvent(callOf(g))
				if e == nil {
					continue
				}
				m := a.x.mapContent(e.St, e.Raw[1])
				why = "the digests covered are " + short(m)
				if !empty {
					ok = ok || m == content(a.ps[3])
					continue
				}
				for _, h := range dids(st, dn(fnStV1)) {
					base := content(a.ps[3])
					if e.Raw[1] != a.ps[3] {
						base = mk("mapnew", "")
					}
					ok = ok || arg(h, 1) == zip && m == mk("upd", "", base, mkInt(4), res0(callOf(h)))
				}
			}
		}
		if !c.req(ok, "a signature of the verified scheme covers all content digests and verifies with the certificate", wh, "an accepting path has no such verification: %s", why) {
			continue
		}
		full++
		// attributes
		rest := dropLP(dropLP(S))
		if st.holds(mkEq(mkLen(rest), mkInt(0))) {
			continue
		}
		attrs++
		data := LP(rest)
		ok = false
		for _, d := range vs {
			ok = ok || same(st, arg(d, 1), data) && same(st, arg(d, 2), cert) && same(st, bufData(arg(d, 3)), LP(dropLP(rest)))
		}
		c.req(ok, "attributes are signed", wh, "an accepting path with attributes does not verify their signatures")
		ok = false
		for _, d := range dids(st, dn(fnStAttr)) {
			ok = ok || arg(d, 0) == v && same(st, bufData(arg(d, 1)), data)
		}
		c.req(ok, "the attributes that were verified are the ones that are used", wh, "an accepting path with attributes does not use the signed ones")
	}
	c.req(full > attrs && attrs > 0, "stamps with and without attributes can be accepted", wh, "%d accepting paths, %d with attributes", full, attrs)
	return full
}

// stampMissing decides the cases in which there is nothing to verify.
func (c *Check) stampMissing() {
	for _, present := range []bool{false, true} {
		a := c.anOpt(fnStamp, func(x *Exec, f *ssa.Function, ps []*Term, st *State) {
			st.assume(mkEq(ps[2], tNil))
			e := nonNilT(look(content(at(fieldOf(ps[1], zipFiles))), mkStr("stamp-cert-sha256")))
			if !present {
				e = mkNot(e)
			}
			st.assume(e)
		}, fnStVer, fnStAttr, fnStDig, fnStV1)
		wh := fmt.Sprintf("%s, no stamp block, hash present: %v", a.where(), present)
		c.req(len(a.rets) > 0, "a missing stamp block is noticed", wh, "no path")
		for _, r := range a.rets {
			if present {
				c.req(r.vals[0] != tNil && r.st.holds(mkLe(mkInt(1), mkLen(a.cell(r.st, stampErrors(a.ps[0]))))), "a certificate hash without a stamp block is an error", wh, "result %s", short(r.vals[0]))
			} else {
				c.req(r.vals[0] == tNil, "without a stamp there is no result", wh, "result %s", short(r.vals[0]))
			}
		}
	}
}

// stampFalse: a check that fails records an error, so that the stamp has errors.
func (c *Check) stampFalse() {
	for _, n := range []string{fnStVer, fnStAttr} {
		a := c.anOpt(n, nil, fnVerSig, fnStFil, fnStLin)
		k := 0
		for _, r := range a.rets {
			if r.st.holds(r.vals[0]) {
				continue
			}
			k++
			e := a.cell(r.st, stampErrors(a.ps[0]))
			c.req(r.st.holds(mkLe(mkInt(1), mkLen(e))) || r.st.holds(mkNot(mkEq(mkLen(e), mkInt(0)))), "a check of the stamp that fails records an error", a.where(), "false may be returned with the error list %s", short(e))
		}
		c.req(k > 0, "a check of the stamp can fail", a.where(), "no path returns false")
	}
}

// stampVerify: true means that all signatures chosen from the list are valid.
func (c *Check) stampVerify() {
	a := c.anOpt(fnStVer, nil, fnVerSig, fnStFil)
	wh := a.where()
	v, data, cert := a.ps[0], a.ps[1], a.ps[2]
	n := 0
	for _, r := range a.rets {
		st := r.st
		if st.holds(mkNot(r.vals[0])) {
			continue
		}
		n++
		c.req(st.holds(r.vals[0]), "the verdict on a list of signatures is definite", wh, "result %s", short(r.vals[0]))
		loop, cell := c.wholeLoop(a, st, content(a.ps[3]), nil, "signatures of the stamp")
		if loop == nil {
			continue
		}
		rec := LP(cell.Phi)
		ds := dids(st, dn(fnStFil))
		if !c.req(len(ds) == 1 && arg(ds[0], 0) == v, "the signatures to verify are chosen", wh, "%d choices", len(ds)) {
			continue
		}
		k := loop.cellPhi(arg(ds[0], 1))
		if !c.req(k != nil && mkLen(k.Init) == mkInt(0), "the choice is made among the signatures in the list", wh, "it is made among %s", short(arg(ds[0], 1))) {
			continue
		}
		lw := a.loopWhere(loop)
		added := false
		for _, b := range a.backs(loop, nil) {
			nv := b.step(k.Phi)
			if nv == k.Phi {
				for _, id := range algoIDs {
					s := b.st.clone()
					s.assume(mkEq(le32i(rec), mkInt(id)))
					c.req(s.bot, "every supported signature is considered", fmt.Sprintf("%s, algorithm %#x", lw, id), "it may be passed over")
				}
				continue
			}
			added = true
			ok := nv.Op == "app" && nv.Args[0] == k.Phi && nv.Args[1].Op == "list" && len(nv.Args[1].Args) == 1
			if ok {
				e := nv.Args[1].Args[0]
				al, by := c.structField(e, "algo"), c.structField(e, "data")
				ok = al != nil && by != nil && same(b.st, al, le32i(rec)) && same(b.st, by, LP(drop(rec, 4)))
			}
			c.req(ok, "algorithm and bytes of a signature come from one record", lw, "a round adds %s", short(nv))
		}
		c.req(added, "supported signatures are considered", lw, "no round adds one")
		list := res0(callOf(ds[0]))
		c.req(st.holds(mkLe(mkInt(1), mkLen(list))) || st.holds(mkNot(mkEq(mkLen(list), mkInt(0)))), "at least one signature is verified", wh, "nothing may have been chosen")
		ok := false
		for _, it := range a.anyIters(st, list, nil) {
			good := len(it.backs) > 0
			for _, b := range it.backs {
				one := false
				for _, d := range dids(b.st, fnVerSig) {
					one = one || okErr(b.st, callOf(d), 0) && same(b.st, arg(d, 0), at(fieldOf(cert, certPubKey))) &&
						isElemField(arg(d, 1), it.elem, "algo") && same(b.st, arg(d, 2), data) && isElemField(arg(d, 3), it.elem, "data")
				}
				good = good && one
			}
			ok = ok || good
		}
		c.req(ok, "every chosen signature is verified over the data with the key of the certificate", wh, "no loop verifies all of them")
	}
	c.req(n > 0, "a list of signatures can be accepted", wh, "no path")
}

// stampFilter decides which signatures of a list are verified: for every SDK level at which Java
// came to know algorithms, the strongest of the signatures that the requested range can use.
func (c *Check) stampFilter() {
	a := c.an(fnStFil)
	wh := a.where()
	v, sigs := a.ps[0], a.ps[1]
	max, min := at(fieldOf(v, tSV+"maxSdkVersion")), at(fieldOf(v, tSV+"minSdkVersion"))
	algoOf := func(p *Term) *Term { return at(fieldOf(p, "signingblock.stampSignature.algo")) }
	n := 0
	done := map[string]bool{}
	for _, r := range a.rets {
		st := r.st
		if r.vals[0] == tNil || st.holds(mkEq(mkLen(r.vals[0]), mkInt(0))) {
			continue
		}
		n++
		// the loop that chooses candidates
		var it iter
		var mc, lc *LoopCell
		for _, i := range a.listIters(st, sigs, nil) {
			for _, k := range i.l.Cells {
				if k.Init == mk("mapnew", "") {
					it, mc = i, k
				}
			}
		}
		if !c.req(mc != nil, "all signatures are candidates", wh, "no loop over all signatures collects candidates") {
			continue
		}
		for _, k := range it.l.Cells {
			if i, ok := k.Init.int64(); ok && i == 0x7fffffff {
				lc = k
			}
		}
		c.req(lc != nil && st.holds(mkLe(lc.Phi, min)), "some signature can be verified by the oldest version of the range", wh, "the lowest SDK level is not compared with the range")
		if lc == nil {
			continue
		}
		lw := a.loopWhere(it.l)
		elem := ia(sigs, it.idx)
		if !done[lw] {
			done[lw] = true
			for _, nw := range algoSpecs {
				old := []int64{0}
				for _, o := range algoSpecs {
					if o.jca == nw.jca {
						old = append(old, o.id)
					}
				}
				for _, o := range old {
					for _, below := range []bool{false, true} {
						c.stampChoice(it, mc, lc, lw, nw, o, below, max, elem, algoOf)
					}
				}
			}
		}
		// the result
		ok := false
		for _, i2 := range a.listIters(st, sigs, nil) {
			k := i2.l.cellPhi(r.vals[0])
			if k == nil || mkLen(k.Init) != mkInt(0) {
				continue
			}
			good := true
			el := ia(sigs, i2.idx)
			for _, sp := range algoSpecs {
				some, skip := false, false
				for _, b := range i2.backs {
					s := specialise(b.st, map[*Term]*Term{algoOf(el): mkInt(sp.id)})
					if s == nil {
						continue
					}
					chosen := mkEq(look(mc.Phi, mkInt(sp.jca)), el)
					if nv := b.step(k.Phi); nv == k.Phi {
						skip = true
						good = good && s.holds(mkNot(chosen))
					} else {
						some = true
						good = good && s.holds(chosen) && nv.Op == "app" && nv.Args[0] == k.Phi && nv.Args[1].Op == "list" && len(nv.Args[1].Args) == 1 && isElem(nv.Args[1].Args[0], el)
					}
				}
				good = good && some && skip
			}
			ok = ok || good
		}
		for _, i2 := range a.keyIters(st, mc.Phi, nil) {
			k := i2.l.cellPhi(r.vals[0])
			if k == nil || mkLen(k.Init) != mkInt(0) {
				continue
			}
			good := true
			for _, b := range i2.backs {
				nv := b.step(k.Phi)
				good = good && nv.Op == "app" && nv.Args[0] == k.Phi && nv.Args[1].Op == "list" && len(nv.Args[1].Args) == 1 && isElem(nv.Args[1].Args[0], look(mc.Phi, i2.elem))
			}
			ok = ok || good
		}
		c.req(ok, "exactly the chosen signatures are verified", wh, "the result is not known to consist of all candidates")
	}
	c.req(n > 0, "signatures can be chosen", wh, "no path")
}

// isElem: v is the list element (or the whole struct) p points to.
func isElem(v, p *Term) bool {
	if v == p || v == at(p) {
		return true
	}
	if v.Op != "struct" || len(v.Args) == 0 {
		return false
	}
	for _, f := range v.Args {
		if f.Op != "at" || f.Args[0].Op != "fa" || f.Args[0].Args[0] != p {
			return false
		}
	}
	return true
}

// stampChoice: one round of the selection, for a new algorithm and the candidate at its level.
func (c *Check) stampChoice(it iter, mc, lc *LoopCell, lw string, nw algoSpec, o int64, below bool, max, elem *Term, algoOf func(*Term) *Term) {
	sm := mkInt(nw.jca)
	cand := look(mc.Phi, sm)
	in := mkLe(sm, max)
	if below {
		in = mkNot(in)
	}
	where := fmt.Sprintf("%s: %#x", lw, nw.id)
	m := map[*Term]*Term{algoOf(elem): mkInt(nw.id)}
	if o != 0 {
		m[algoOf(cand)] = mkInt(o)
	}
	some := false
	for _, b := range it.backs {
		s := specialise(b.st, m)
		if s == nil {
			continue
		}
		s.assume(in)
		if o == 0 {
			s.assume(mkEq(cand, tNil))
			s.assume(mkNot(has(mc.Phi, sm)))
		} else {
			s.assume(nonNilT(cand))
			s.assume(has(mc.Phi, sm))
		}
		if s.bot {
			continue
		}
		some = true
		nm := subst(b.step(mc.Phi), m)
		keep := nm == mc.Phi
		set := nm == mk("upd", "", mc.Phi, sm, elem)
		nl := subst(b.step(lc.Phi), m)
		if below {
			c.req(keep, "signatures that the range cannot use are passed over", where, "the candidates become %s", short(nm))
			c.req(nl == lc.Phi, "signatures that the range cannot use are passed over", where, "the lowest level becomes %s", short(nl))
			continue
		}
		want := set
		switch {
		case o == 0:
		case kindRank[algoKind[nw.id]] == kindRank[algoKind[o]]:
			want = set || keep
		case kindRank[algoKind[nw.id]] < kindRank[algoKind[o]]:
			want = keep
		}
		c.req(want, "the strongest signature of a level is chosen", where, "with a candidate %#x, the candidates become %s", o, short(nm))
		c.req(nl == sm || nl == lc.Phi && s.holds(mkLe(lc.Phi, sm)) || s.holds(mkEq(nl, sm)), "the lowest level of the signatures is determined", where, "it becomes %s", short(nl))
	}
	c.req(some, "every signature can be considered", where, "with a candidate %#x there is no way round the loop", o)
}

// isElemField: v is the field of the list element e.
func isElemField(v, e *Term, f string) bool {
	switch v.Op {
	case "field":
		return v.Args[0] == e && hasSuffixField(v.Sym, f)
	case "at":
		return v.Args[0].Op == "fa" && hasSuffixField(v.Args[0].Sym, f) && (v.Args[0].Args[0] == e || e.Op == "at" && v.Args[0].Args[0] == e.Args[0])
	}
	return false
}

func hasSuffixField(sym, f string) bool { return sym == f || strings.HasSuffix(sym, "."+f) }

// stampLineage decides the parser of a stamp's lineage.
func (c *Check) stampLineage() {
	a := c.anOpt(fnStLin, nil, fnVerSig)
	var oks []Res
	for _, r := range a.rets {
		if r.vals[0] == tNil {
			continue
		}
		c.req(r.st.holds(mkLe(mkLen(a.cell(r.st, stampErrors(a.ps[0]))), mkLen(at(stampErrors(a.ps[0]))))), "a lineage with errors is not used", a.where(), "nodes may be returned with new errors")
		oks = append(oks, r)
	}
	c.lineage(lineageSpec{a, content(a.ps[1]), oks, "signingblock.SourceStampLineageNode.", [5]string{"Cert", "ParentAlgo", "Algo", "Signature", "Flags"}})
}

// stampAttributes decides how the attributes of a stamp are used.
func (c *Check) stampAttributes() {
	a := c.anOpt(fnStAttr, nil, fnStLin)
	wh := a.where()
	v := a.ps[0]
	resA := fieldOf(v, tSV+"res")
	n := 0
	for _, r := range a.rets {
		st := r.st
		if st.holds(mkNot(r.vals[0])) {
			continue
		}
		n++
		loop, cell := c.wholeLoop(a, st, LP(content(a.ps[1])), nil, "attributes of the stamp")
		if loop == nil {
			continue
		}
		lw := a.loopWhere(loop)
		attr := LP(cell.Phi)
		found := false
		for _, b := range a.backs(loop, nil) {
			s := b.st.clone()
			s.assume(mkEq(le32u(attr), mkInt(0x9d6303f7)))
			if s.bot {
				continue
			}
			found = true
			ok := false
			why := "the lineage is not parsed"
			for _, d := range dids(s, dn(fnStLin)) {
				nodes := res0(callOf(d))
				if arg(d, 0) != v || !same(s, bufData(arg(d, 1)), drop(attr, 4)) {
					continue
				}
				why = "the lineage reported is " + short(a.cell(s, fieldOf(resA, tSR+"Lineage")))
				if !s.holds(nonNilT(nodes)) || a.cell(s, fieldOf(resA, tSR+"Lineage")) != nodes {
					continue
				}
				why = "the certificate of the last node is not compared"
				for _, cert := range []*Term{at(fieldOf(resA, tSR+"Cert")), a.cell(s, fieldOf(resA, tSR+"Cert"))} {
					last := fieldOf(elemAt(nodes, mkAdd(mkLen(nodes), mkInt(-1))), "signingblock.SourceStampLineageNode.Cert")
					ok = ok || s.holds(mkEq(at(fieldOf(cert, certRaw)), at(fieldOf(at(last), certRaw))))
				}
			}
			c.req(ok, "a lineage is valid and ends in the certificate of the stamp", lw, "a round accepts a lineage: %s", why)
		}
		c.req(found, "a stamp can have a lineage", lw, "no round accepts one")
	}
	c.req(n > 0, "attributes can be accepted", wh, "no path")
}

// sortsBy: the comparison function that sorted a list puts smaller keys first.
func (c *Check) sortsBy(a *An, less *Term, list *Term, key func(elem *Term) *Term) string {
	f := a.x.fns[less.Sym]
	if less.Op != "fn" || f == nil || len(f.Blocks) == 0 {
		return "the comparison " + short(less) + " is not known"
	}
	x := newAnalysis(c.w)
	st := newState()
	var free []*Term
	for _, v := range f.FreeVars {
		o := mk("param", "captured "+v.Name()).withType(v.Type())
		free = append(free, o)
		st.mem[o] = list
	}
	fr := &Frame{fn: f, info: x.info(f), ctx: shortName(f)}
	ps := params(f)
	rets := x.runFrame(fr, ps, free, st)
	c.used[f] = true
	c.paths += len(rets)
	if len(ps) != 2 || len(rets) == 0 {
		return "the comparison has an unknown form"
	}
	p, q := ps[0], ps[1]
	if b, ok := ps[0].Typ.Underlying().(*types.Basic); ok && b.Kind() == types.Int && len(free) > 0 {
		p, q = elemAt(list, p), elemAt(list, q)
	}
	for _, r := range rets {
		v := r.vals[0]
		smaller := lt(key(p), key(q))
		if !types.Identical(f.Signature.Results().At(0).Type(), types.Typ[types.Bool]) {
			v = lt(v, mkInt(0))
		}
		for _, t := range []bool{true, false} {
			s := r.st.clone()
			w, g := v, smaller
			if !t {
				w, g = mkNot(v), mkNot(smaller)
			}
			s.assume(w)
			if !s.bot && !s.holds(g) {
				return "the comparison does not order by the key: " + short(v)
			}
		}
	}
	return ""
}

// stampDigest decides the encoding of the digests that a stamp signs.
func (c *Check) stampDigest() {
	a := c.an(fnStDig)
	wh := a.where()
	m := content(a.ps[1])
	c.req(len(a.rets) > 0, "the digests are encoded", wh, "no path")
	for _, r := range a.rets {
		why := "the result " + short(r.vals[0]) + " is not built by a loop"
		ok := false
		for _, l := range a.doneLoops(r.st) {
			k := l.cellPhi(r.vals[0])
			if k == nil {
				continue
			}
			why = "the encoding does not start empty"
			if mkLen(k.Init) != mkInt(0) {
				continue
			}
			why = c.stampPairs(a, r.st, l, k, m)
			if ok = why == ""; ok {
				break
			}
		}
		c.req(ok, "the digests are signed as a sequence of algorithm and digest, in the order of the algorithms", wh, "%s", why)
	}
}

func (c *Check) stampPairs(a *An, st *State, l *LoopRec, k *LoopCell, m *Term) string {
	bs := a.backs(l, nil)
	// what a round writes
	var alg, dat *Term
	for _, b := range bs {
		nv := b.step(k.Phi)
		if nv.Op != "cat" || len(nv.Args) != 5 || nv.Args[0] != k.Phi || nv.Args[2].Op != "encle" || nv.Args[2].Sym != "32" {
			return "a round writes " + short(nv)
		}
		x, d := nv.Args[2].Args[0], nv.Args[4]
		if nv.Args[1] != mk("encle", "32", mkAdd(mkLen(d), mkInt(8))) || nv.Args[3] != mk("encle", "32", mkLen(d)) || alg != nil && (alg != x || dat != d) {
			return "a round writes " + short(nv)
		}
		alg, dat = x, d
	}
	if alg == nil {
		return "no round"
	}
	why := "the loop does not visit all digests in the order of a sorted list"
	for _, col := range a.doneLoops(st) {
		for _, kc := range col.Cells {
			srts := a.sortedVersions(st, kc.Phi)
			mk("list", "", alg, dat).walk(func(t *Term) bool {
				if t.Op == "sorted" && t.Args[0] == kc.Phi {
					srts = append(srts, t)
				}
				return true
			})
			for _, srt := range srts {
				for _, it := range a.listIters(st, srt, nil) {
					if it.l != l {
						continue
					}
					// keys or pairs
					keyOf := func(e *Term) *Term { return e }
					fa, fd := "", ""
					if alg != it.elem {
						if alg.Op != "at" || alg.Args[0].Op != "fa" || dat.Op != "at" || dat.Args[0].Op != "fa" || alg.Args[0].Args[0] != dat.Args[0].Args[0] || alg.Args[0].Args[0] != it.elem.Args[0] {
							why = "the algorithm written is " + short(alg)
							continue
						}
						fa, fd = alg.Args[0].Sym, dat.Args[0].Sym
						keyOf = func(e *Term) *Term { return at(fieldOf(e.Args[0], fa)) }
					} else if dat != look(m, it.elem) {
						why = "the digest written is " + short(dat)
						continue
					}
					if mkLen(kc.Init) != mkInt(0) {
						why = "the list of digests does not start empty"
						continue
					}
					good := false
					for _, mi := range a.mapIters(st, m, nil) {
						if mi.l != col {
							continue
						}
						good = true
						for _, b := range mi.backs {
							nv := b.step(kc.Phi)
							okv := nv.Op == "app" && nv.Args[0] == kc.Phi && nv.Args[1].Op == "list" && len(nv.Args[1].Args) == 1
							if okv {
								e := nv.Args[1].Args[0]
								if fa == "" {
									okv = e == mi.elem
								} else {
									okv = e.Op == "struct" && e.contains(mi.elem) && len(e.Args) == 2
									fields := 0
									for ad, v := range b.st.mem {
										if ad.Op == "fa" && (ad.Sym == fa && v == mi.elem || ad.Sym == fd && v == look(m, mi.elem)) {
											fields++
										}
									}
									okv = okv && fields == 2
								}
							}
							if !okv {
								good, why = false, "the list of digests gets "+short(nv)
							}
						}
					}
					if !good {
						continue
					}
					list := mk("param", "list").withType(types.NewSlice(types.Typ[types.Int]))
					if w := c.sortsBy(a, srt.Args[1], list, func(e *Term) *Term {
						if e.Op != "at" {
							if fa == "" {
								return e
							}
							return mk("field", fa, e)
						}
						return keyOf(e)
					}); w != "" {
						why = w
						continue
					}
					return ""
				}
			}
		}
	}
	return why
}

// stampV1 decides the digest used for APKs that only have a JAR signature.
func (c *Check) stampV1() {
	a := c.an(fnStV1)
	wh := a.where()
	entry := look(content(at(fieldOf(a.ps[1], zipFiles))), mkStr("META-INF/MANIFEST.MF"))
	n := 0
	for _, r := range a.rets {
		st := r.st
		v := a.x.content(st, r.vals[0], false)
		ok := st.holds(mkEq(mkLen(v), mkInt(0))) || mkLen(v) == mkInt(0)
		for _, d := range dids(st, zipRead) {
			if arg(d, 0) == entry && okErr(st, callOf(d), 1) && v == mk("hashsum", "sha256", res0(callOf(d))) {
				ok = true
				n++
			}
		}
		c.req(ok, "the digest of a JAR signature is the SHA-256 of the manifest", wh, "the digest is %s", short(v))
	}
	c.req(n > 0, "the digest of a JAR signature is the SHA-256 of the manifest", wh, "no path computes it")
}

// stampEntry decides what the stamp of a file is verified against.
func (c *Check) stampEntry() {
	a := c.an(fnEntry, fnNewBlock, fnFind, fnFrostAPK, fnPick, fnStamp)
	wh := a.where()
	n := 0
	for _, e := range a.x.log {
		if e.Kind != "call" || e.Name != dn(fnStamp) {
			continue
		}
		n++
		st := e.St
		v := e.Raw[0]
		for f, p := range map[string]*Term{"minSdkVersion": a.ps[1], "maxSdkVersion": a.ps[2]} {
			got := a.cell(st, fieldOf(v, tSV+f))
			c.req(got == p, "the stamp is verified for the requested range", wh, "%s is %s", f, short(got))
		}
		finds := dids(st, dn(fnFind))
		id := a.cell(st, fieldOf(v, tSV+"verifiedSchemeId"))
		for strings.HasPrefix(id.Op, "conv:") || id.Op == "conv" {
			id = id.Args[0]
		}
		if !c.req(id.Op == "at" && len(id.Args) == 2 && fieldName(id.Args[0]) == resType+".SchemeId", "the stamp is verified for the scheme of the last verification", wh, "scheme %s", short(id)) {
			continue
		}
		pick := id.Args[1]
		c.req(strings.HasPrefix(pick.Sym, dn(fnPick)+"@"), "the stamp is verified for the scheme of the last verification", wh, "scheme %s", short(id))
		now := a.cell(st, id.Args[0])
		c.req(now == id, "the stamp is verified for the scheme of the last verification", wh, "the last verification has %s", short(now))
		c.req(e.Raw[3] == res0(pick), "the stamp is verified against the digests of the verified scheme", wh, "digests %s", short(e.Raw[3]))
		ok := len(finds) == 1
		if ok {
			blocks := res0(callOf(finds[0]))
			val, _ := a.x.mapLookup(st, innermost(a.x.mapContent(st, blocks)), mkInt(idStamp), nil)
			ok = e.Raw[2] == val || e.Raw[2] == look(innermost(a.x.mapContent(st, blocks)), mkInt(idStamp))
		}
		c.req(ok, "the stamp block of the file is verified", wh, "block %s", short(e.Raw[2]))
		z := e.Raw[1]
		open := z.Op == "res" && z.Sym == "0" && strings.HasPrefix(z.Args[0].Sym, "github.com/avast/apkparser.OpenZipReader@") && len(z.Args[0].Args) > 0 && unwrap(z.Args[0].Args[0]) == unwrap(a.ps[0])
		c.req(z == a.ps[3] || open || z.Op == "join" && z.contains(a.ps[3]), "the stamp is verified with the archive of the file", wh, "archive %s", short(z))
	}
	c.req(n > 0, "the stamp is verified", wh, "no call")
	for _, r := range a.succErr(2) {
		ds := dids(r.st, dn(fnStamp))
		ss := a.cell(r.st, fieldOf(r.vals[0], resType+".SourceStamp"))
		c.req(len(ds) == 1 && ss == res0(callOf(ds[0])), "the result of the stamp is reported", wh, "a path reports %s", short(ss))
		errs := a.cell(r.st, fieldOf(r.vals[0], errField))
		c.req(errs.Op == "errs" && strings.HasPrefix(errs.Args[1].Sym, dn(fnPick)+"@"), "the stamp does not change the verdict", wh, "the errors are %s", short(errs))
	}
	// the digests of the verified scheme are those that were checked
	p := c.anClean(fnPick, 4, c.pickBounds()...)
	for _, r := range p.succRes(p.ps[4]) {
		ig := dids(r.st, dn(fnIntegrity))
		if len(ig) == 0 {
			continue
		}
		ok := false
		m := r.vals[0]
		v31 := false
		for _, d := range ig {
			g := arg(d, 1)
			same := g == m || g.Op == "ref" && g.Args[0].Op == "content" && g.Args[0].Args[0] == m
			ok = ok || same && arg(d, 2) == p.ps[4]
			v31 = v31 || same && g.Op == "at"
		}
		c.req(ok && !v31, "the digests handed to the stamp are those of the scheme that were compared with the file", p.where(), "the digests returned are %s", short(m))
	}
}

func (c *Check) pickBounds() []string {
	b := []string{fnIntegrity}
	for _, id := range []int64{2, 3, 31} {
		b = append(b, parseName(id), finalName(id))
	}
	return b
}

func checkC18(c *Check) {
	c.stampMissing()
	c.stampRule()
	c.stampFalse()
	c.stampVerify()
	c.stampFilter()
	c.stampLineage()
	c.stampAttributes()
	c.stampDigest()
	c.stampV1()
	c.stampEntry()
}
