package main

// Checks of a single signer of a v2/v3/v3.1 block (verifySigner of schemeV2 and schemeV3).

func init() {
	checks = append(checks,
		checkDef{"C01", checkC01, 10},
		checkDef{"C02", checkC02, 10},
		checkDef{"C03", checkC03, 8},
		checkDef{"C05", checkC05, 6},
	)
}

type signerLayout struct {
	name                             string
	a                                *An
	recv, block, digests, result     *Term
	B, D                             *Term
	sigs, key, dig, certs, attrs     *Term
	outerMin, outerMax, inMin, inMax *Term
	v3                               bool
	ok                               []Res
}

const (
	kChunked256 = 1
	kChunked512 = 2
	kVerity256  = 3
)

// The ten supported algorithm ids with the kind of content digest they stand for.
var algoKind = map[int64]int64{
	0x0101: kChunked256, 0x0103: kChunked256, 0x0201: kChunked256, 0x0301: kChunked256,
	0x0102: kChunked512, 0x0104: kChunked512, 0x0202: kChunked512,
	0x0421: kVerity256, 0x0423: kVerity256, 0x0425: kVerity256,
}
var algoIDs = []int64{0x0101, 0x0102, 0x0103, 0x0104, 0x0201, 0x0202, 0x0301, 0x0421, 0x0423, 0x0425}

var kindRank = map[int64]int{kChunked256: 1, kVerity256: 2, kChunked512: 3}

// signer interprets verifySigner of one scheme; signature verification is an opaque boundary, the
// lineage functions of v3 too.
func (c *Check) signer(v3 bool) *signerLayout {
	l := &signerLayout{v3: v3, name: "signingblock.(*schemeV2).verifySigner"}
	bounds := []string{"signingblock.verifySignature"}
	if v3 {
		l.name = "signingblock.(*schemeV3).verifySigner"
		bounds = append(bounds, "signingblock.(*schemeV3).readSigningCertificateLineage", "signingblock.(*V3SigningLineage).getSubLineage", "signingblock.lineageCalculateMinSdkVersion")
	}
	a := c.anClean(l.name, 3, bounds...)
	l.a = a
	l.recv, l.block, l.digests, l.result = a.ps[0], a.ps[1], a.ps[2], a.ps[3]
	l.B = content(l.block)
	l.D = LP(l.B)
	p := dropLP(l.B)
	if v3 {
		l.outerMin, l.outerMax = le32i(p), le32i(drop(p, 4))
		p = drop(p, 8)
	}
	l.sigs, l.key = LP(p), LP(dropLP(p))
	q := l.D
	l.dig, l.certs = LP(q), LP(dropLP(q))
	q = dropLP(dropLP(q))
	if v3 {
		l.inMin, l.inMax = le32i(q), le32i(drop(q, 4))
		q = drop(q, 8)
	}
	l.attrs = LP(q)
	l.ok = a.succRes(l.result)
	c.req(len(l.ok) > 0, "a signer can be accepted", a.where(), "no path without errors was found")
	return l
}

// signature returns the successful signature verification on an accepting path.
func (l *signerLayout) signature(st *State) *Term {
	for _, d := range dids(st, "signingblock.verifySignature") {
		if okErr(st, callOf(d), 0) && same(st, arg(d, 2), l.D) {
			return d
		}
	}
	return nil
}

// sigLoop finds the loop over the signature records and decides that it visits every record.
func (c *Check) sigLoop(l *signerLayout, st *State) (*LoopRec, *LoopCell) {
	return c.wholeLoop(l.a, st, l.sigs, l.result, "signature records")
}

// wholeLoop: on the path of st, a loop has consumed the length-prefixed records of data completely.
func (c *Check) wholeLoop(a *An, st *State, data, result *Term, what string) (*LoopRec, *LoopCell) {
	loop, cell := a.bufLoop(st, data)
	if !c.req(loop != nil, "a loop visits the "+what, a.where(), "an accepting path has no loop over %s", short(data)) {
		return nil, nil
	}
	c.req(st.holds(mkLe(mkLen(cell.Phi), mkInt(0))), "the loop ends only when all "+what+" are consumed", a.loopWhere(loop), "the loop can be left with data remaining, without an error")
	for _, b := range a.backs(loop, result) {
		c.req(b.step(cell.Phi) == dropLP(cell.Phi), "each round of the loop consumes exactly one of the "+what, a.loopWhere(loop), "a round leaves %s", short(b.step(cell.Phi)))
	}
	return loop, cell
}

func checkC01(c *Check) {
	for _, v3 := range []bool{false, true} {
		l := c.signer(v3)
		a := l.a
		for _, r := range l.ok {
			st := r.st
			d := l.signature(st)
			if !c.req(d != nil, "accepted signer: signature verified over the complete signed data", a.where(), "an accepting path has no successful verifySignature call over the signed data") {
				continue
			}
			pk := arg(d, 0)
			okKey := pk.Op == "res" && pk.Sym == "0" && len(pk.Args[0].Args) == 1 && same(st, pk.Args[0].Args[0], l.key) && okErr(st, pk.Args[0], 1)
			c.req(okKey, "accepted signer: verified with the key the signer declares", a.where(), "the key used is %s", short(pk))
			c.sigPair(l, st, d)
		}
	}
	c.signerLoops()
	c.errorGates()
	c.bothJudged()
}

// sigPair: the algorithm and the signature bytes that are verified come from the same record.
func (c *Check) sigPair(l *signerLayout, st *State, d *Term) {
	loop, cell := c.sigLoop(l, st)
	if loop == nil {
		return
	}
	algo, sig := arg(d, 1), arg(d, 3)
	rec := LP(cell.Phi)
	for _, b := range l.a.backs(loop, l.result) {
		m := map[*Term]*Term{}
		for _, k := range loop.Cells {
			m[k.Phi] = b.step(k.Phi)
		}
		na, ns := subst(algo, m), subst(sig, m)
		keep := same(b.st, na, algo) && same(b.st, ns, sig)
		take := same(b.st, na, le32i(rec)) && same(b.st, ns, LP(drop(rec, 4)))
		c.req(keep || take, "algorithm and signature bytes are taken from one signature record", l.a.loopWhere(loop),
			"a round sets the algorithm to %s and the signature to %s", short(na), short(ns))
	}
}

func checkC02(c *Check) {
	for _, v3 := range []bool{false, true} {
		l := c.signer(v3)
		a := l.a
		seen := map[*LoopRec]bool{}
		for _, r := range l.ok {
			d := l.signature(r.st)
			if !c.req(d != nil, "accepted signer: signature verified over the complete signed data", a.where(), "an accepting path has no successful verifySignature call over the signed data") {
				continue
			}
			best := arg(d, 1)
			supp := true
			if dm := r.st.dom[best]; dm == nil || dm.neg {
				supp = false
			} else {
				for _, t := range dm.set {
					v, ok := t.int64()
					supp = supp && ok && algoKind[v] != 0
				}
			}
			c.req(supp, "the algorithm used is a supported one", a.where(), "an accepting path uses algorithm %s, not known to be supported", short(best))
			loop, cell := c.sigLoop(l, r.st)
			if loop == nil || seen[loop] {
				continue
			}
			seen[loop] = true
			bc := loop.cellPhi(best)
			if !c.req(bc != nil, "the algorithm used is the one the selection loop chose", a.loopWhere(loop), "the algorithm %s is not carried by the loop", short(best)) {
				continue
			}
			none, isNone := bc.Init.int64()
			c.req(isNone && algoKind[none] == 0, "before the first record no algorithm is selected", a.loopWhere(loop), "initial value %s", short(bc.Init))
			c.selection(l, loop, cell, bc, none)
		}
	}
}

// selection enumerates all (selected, next) pairs of algorithms over the abstract loop body.
func (c *Check) selection(l *signerLayout, loop *LoopRec, cell, bc *LoopCell, none int64) {
	e := le32i(LP(cell.Phi))
	bs := l.a.backs(loop, l.result)
	cands := append([]int64{none}, algoIDs...)
	next := append([]int64{0x0105, 0x0203, 0x0401, 0x0422, 0x0424, 0, none}, algoIDs...)
	wh := l.a.loopWhere(loop)
	for _, b := range cands {
		for _, n := range next {
			// allowed results
			allowed := []int64{b}
			kn := algoKind[n]
			if kn != 0 {
				switch kb := algoKind[b]; {
				case kb == 0 || kindRank[kn] > kindRank[kb]:
					allowed = []int64{n}
				case kindRank[kn] == kindRank[kb]:
					allowed = []int64{b, n}
				}
			}
			feasible := false
			for _, k := range bs {
				s := specialise(k.st, map[*Term]*Term{bc.Phi: mkInt(b), e: mkInt(n)})
				if s == nil {
					continue
				}
				feasible = true
				got := subst(k.step(bc.Phi), map[*Term]*Term{bc.Phi: mkInt(b), e: mkInt(n)})
				ok := false
				for _, v := range allowed {
					if same(s, got, mkInt(v)) {
						ok = true
					}
				}
				c.req(ok, "the selection keeps the strongest supported algorithm", wh,
					"with 0x%04x selected and a record for 0x%04x the loop selects %s", uint32(b), uint32(n), short(got))
			}
			c.req(feasible, "every signature record can be processed, whatever its algorithm", wh, "with 0x%04x selected, a record for 0x%04x always fails", uint32(b), uint32(n))
		}
	}
}

// certLoop decides how the certificates of a signer are collected.
func (c *Check) certLoop(l *signerLayout, st *State) (list *LoopCell, first []*Term) {
	a := l.a
	loop, cell := c.wholeLoop(a, st, l.certs, l.result, "certificates of a signer")
	if loop == nil {
		return nil, nil
	}
	wh := a.loopWhere(loop)
	bs := a.backs(loop, l.result)
	cert := func(b back, phi *Term) *Term {
		v := b.step(phi)
		if v.Op != "app" || v.Args[0] != phi || v.Args[1].Op != "list" || len(v.Args[1].Args) != 1 {
			return nil
		}
		e := v.Args[1].Args[0]
		if e.Op != "res" || e.Sym != "0" || len(e.Args[0].Args) != 1 || e.Args[0].Args[0] != LP(cell.Phi) || !okErr(b.st, e.Args[0], 1) {
			return nil
		}
		return e
	}
	for _, k := range loop.Cells {
		if k.Init != tNil && mkLen(k.Init) != mkInt(0) {
			continue
		}
		good := len(bs) > 0
		for _, b := range bs {
			if cert(b, k.Phi) == nil {
				good = false
			}
		}
		if good {
			list = k
			break
		}
	}
	if !c.req(list != nil, "every certificate in the signed data is parsed completely and appended to the signer's chain", wh, "no list collects one parsed certificate per record") {
		return nil, nil
	}
	fs := firsts(loop, bs, list.Phi)
	// reported chains
	ad := fieldOf(l.result, certsField)
	rc := loop.cellFor(ad)
	now := a.cell(st, ad)
	entry := at(ad)
	if rc == nil {
		c.req(now == app(entry, listOf(list.Phi)), "the signer's chain is appended to the reported chains", a.where(), "reported chains become %s", short(now))
		return list, fs
	}
	c.req(now == rc.Phi && rc.Init == entry, "the reported chains are those of the signers", a.where(), "after the signer the reported chains are %s", short(now))
	for _, b := range bs {
		first := b.st.clone()
		first.assume(mkEq(mkLen(list.Phi), mkInt(0)))
		nl := b.step(list.Phi)
		if !first.bot {
			c.req(b.step(rc.Phi) == app(rc.Phi, listOf(nl)), "the first certificate starts a new reported chain", wh, "reported chains become %s", short(b.step(rc.Phi)))
		}
		later := b.st.clone()
		later.assume(mkLe(mkInt(1), mkLen(list.Phi)))
		if !later.bot {
			last := mkAdd(mkLen(rc.Phi), mkInt(-1))
			c.req(b.step(rc.Phi) == rc.Phi && later.mem[ia(rc.Phi, last)] == nl, "further certificates extend the chain of their signer", wh, "reported chains become %s, last chain %s", short(b.step(rc.Phi)), short1(later.mem[ia(rc.Phi, last)]))
		}
	}
	return list, fs
}

func short1(t *Term) string {
	if t == nil {
		return "unchanged"
	}
	return short(t)
}

func checkC03(c *Check) {
	for _, v3 := range []bool{false, true} {
		l := c.signer(v3)
		a := l.a
		for _, r := range l.ok {
			st := r.st
			d := l.signature(st)
			if !c.req(d != nil, "accepted signer: signature verified over the complete signed data", a.where(), "an accepting path has no successful verifySignature call over the signed data") {
				continue
			}
			pk := arg(d, 0)
			okKey := pk.Op == "res" && pk.Sym == "0" && len(pk.Args[0].Args) == 1 && same(st, pk.Args[0].Args[0], l.key)
			c.req(okKey, "accepted signer: verified with the key the signer declares", a.where(), "the key used is %s", short(pk))
			list, fs := c.certLoop(l, st)
			if list == nil {
				continue
			}
			c.req(nonEmpty(st, list.Phi, fs), "an accepted signer has a certificate", a.where(), "a signer without certificates is accepted")
			eq := false
			for _, f := range fs {
				eq = eq || st.holds(mkEq(l.key, at(fieldOf(f, "crypto/x509.Certificate.RawSubjectPublicKeyInfo"))))
			}
			c.req(eq, "the declared key equals the key of the signer's first certificate", a.where(), "an accepting path does not compare the declared key with the first certificate")
		}
	}
	c.certsWriters()
	c.signerLoops()
}

// digestFacts finds, on an accepting path, the list of digest algorithms and the chosen digest.
func (c *Check) digestLoop(l *signerLayout, st *State, best *Term) (algos, chosen *LoopCell) {
	a := l.a
	loop, cell := c.wholeLoop(a, st, l.dig, l.result, "digest records")
	if loop == nil {
		return
	}
	bs := a.backs(loop, l.result)
	rec := LP(cell.Phi)
	for _, k := range loop.Cells {
		isAlgos, isChosen, takes := len(bs) > 0, len(bs) > 0, false
		for _, b := range bs {
			s := b.step(k.Phi)
			if s != app(k.Phi, listOf(le32i(rec))) {
				isAlgos = false
			}
			yes := b.st.clone()
			yes.assume(mkEq(le32i(rec), best))
			if !yes.bot {
				if s == LP(drop(rec, 4)) {
					takes = true
				} else {
					isChosen = false
				}
			}
			no := b.st.clone()
			no.assume(mkNot(mkEq(le32i(rec), best)))
			if !no.bot && s != k.Phi {
				isChosen = false
			}
		}
		if isAlgos && mkLen(k.Init) == mkInt(0) {
			algos = k
		}
		if isChosen && takes {
			chosen = k
		}
	}
	wh := a.loopWhere(loop)
	c.req(algos != nil, "the algorithm id of every digest record is collected", wh, "no list collects the ids")
	c.req(chosen != nil, "the content digest is the one stated for the algorithm that was verified", wh, "no variable carries that digest through the loop")
	return
}

func checkC05(c *Check) {
	for _, v3 := range []bool{false, true} {
		l := c.signer(v3)
		a := l.a
		for _, r := range l.ok {
			st := r.st
			d := l.signature(st)
			if !c.req(d != nil, "accepted signer: signature verified over the complete signed data", a.where(), "an accepting path has no successful verifySignature call over the signed data") {
				continue
			}
			best := arg(d, 1)
			dl, chosen := c.digestLoop(l, st, best)
			loop, cell := c.sigLoop(l, st)
			if dl == nil || loop == nil || chosen == nil {
				continue
			}
			var sl *LoopCell
			for _, k := range loop.Cells {
				good := mkLen(k.Init) == mkInt(0)
				for _, b := range a.backs(loop, l.result) {
					good = good && b.step(k.Phi) == app(k.Phi, listOf(le32i(LP(cell.Phi))))
				}
				if good {
					sl = k
				}
			}
			if !c.req(sl != nil, "the algorithm id of every signature record is collected, supported or not", a.loopWhere(loop), "no list collects the ids") {
				continue
			}
			c.req(a.listsEqual(st, dl.Phi, sl.Phi), "digest and signature records name the same algorithms in the same order", a.where(), "an accepting path does not compare the two lists completely")
			c.digestMap(l, st, best, chosen)
		}
	}
	c.signerLimit()
}

// digestMap: the digest is stored under its kind, and does not contradict an earlier signer.
func (c *Check) digestMap(l *signerLayout, st *State, best *Term, chosen *LoopCell) {
	a := l.a
	now := a.cell(st, l.digests)
	prev := content(l.digests)
	if now.Op != "upd" || now.Args[0] != prev {
		c.req(false, "an accepted signer's content digest is recorded", a.where(), "digests become %s", short(now))
		return
	}
	k := now.Args[1]
	c.req(now.Args[2] == chosen.Phi, "an accepted signer's content digest is recorded", a.where(), "recorded digest is %s", short(now.Args[2]))
	old := look(prev, k)
	c.req(st.holds(mkEq(old, tNil)) || st.holds(mkNot(has(prev, k))) || st.holds(mkEq(old, chosen.Phi)), "signers do not contradict each other on a digest", a.where(), "a digest that differs from the one of a preceding signer is accepted")
	kv, ok := k.int64()
	dm := st.dom[best]
	if ok && dm != nil && !dm.neg {
		for _, t := range dm.set {
			v, _ := t.int64()
			c.req(algoKind[v] == kv, "the digest is recorded under the kind its algorithm stands for", a.where(), "algorithm 0x%04x is recorded as digest kind %d", v, kv)
		}
	} else {
		c.req(false, "the digest is recorded under the kind its algorithm stands for", a.where(), "kind %s not resolved", short(k))
	}
}
