package main

import "strings"

func init() {
	checks = append(checks, checkDef{"C07", checkC07, 20})
}

const (
	fnLineage  = "signingblock.(*schemeV3).readSigningCertificateLineage"
	fnVerSig   = "signingblock.verifySignature"
	fnSub      = "signingblock.(*V3SigningLineage).getSubLineage"
	fnNodesEq  = "signingblock.(V3LineageSigningCertificateNodeList).Equal"
	fnNodeEq   = "signingblock.(*V3LineageSigningCertificateNode).Equal"
	tNode      = "signingblock.V3LineageSigningCertificateNode."
	tLineage   = "signingblock.V3SigningLineage."
	x509Parse  = "crypto/x509.ParseCertificate"
	certPubKey = "crypto/x509.Certificate.PublicKey"
	certRaw    = "crypto/x509.Certificate.Raw"
)

// later gives what is known in a round of the loop that is not the first one: variables that every
// round increases, extends or makes non-nil have left their initial value. Nil if impossible.
func (a *An) later(l *LoopRec, bs []back, b back) *State {
	s := b.st.clone()
	for _, k := range l.Cells {
		inc, grow, non := true, true, true
		for _, x := range bs {
			n := x.step(k.Phi)
			inc = inc && n == mkAdd(k.Phi, mkInt(1))
			grow = grow && n.Op == "app" && n.Args[0] == k.Phi && x.st.holds(mkLe(mkInt(1), mkLen(n.Args[1])))
			non = non && (x.st.holds(nonNilT(n)) || isParse(n) && okErr(x.st, n.Args[0], 1))
		}
		switch {
		case inc:
			s.assume(mkLe(mkAdd(k.Init, mkInt(1)), k.Phi))
		case grow:
			s.assume(mkLe(mkAdd(mkLen(k.Init), mkInt(1)), mkLen(k.Phi)))
		case non:
			s.assume(nonNilT(k.Phi))
		}
	}
	if s.bot {
		return nil
	}
	return s
}

// lastRound: the term t, over the loop's variables, is what the previous round made of v.
func lastRound(l *LoopRec, bs []back, t, v *Term) bool {
	for _, b := range bs {
		m := map[*Term]*Term{}
		for _, k := range l.Cells {
			m[k.Phi] = b.step(k.Phi)
		}
		n := nextVal(l, b, t)
		if !same(b.st, subst(t, m), v) && (n == nil || !same(b.st, n, v)) {
			return false
		}
	}
	return len(bs) > 0
}

// nextVal: what the term t over the loop's variables is at the start of the next round, where the last
// element of a list that a round extends is the element it adds. Nil if that is not how t gets its value.
func nextVal(l *LoopRec, b back, t *Term) *Term {
	for _, k := range l.Cells {
		if t == k.Phi {
			return b.step(t)
		}
		if v := b.step(k.Phi); t == elemAt(k.Phi, mkAdd(mkLen(k.Phi), mkInt(-1))) && v.Op == "app" && v.Args[0] == k.Phi && v.Args[1].Op == "list" {
			return v.Args[1].Args[len(v.Args[1].Args)-1]
		}
	}
	if t.Op == "at" && t.Args[0].Op == "fa" {
		x := nextVal(l, b, t.Args[0].Args[0])
		if x == nil {
			return nil
		}
		ad := fieldOf(x, t.Args[0].Sym)
		if v := b.st.mem[ad]; v != nil {
			return v
		}
		return at(ad)
	}
	return nil
}

// firsts gives the first element of a list that every round extends by one element, and the variables
// that hold it: they are nil before the first round, which sets them.
func firsts(l *LoopRec, bs []back, list *Term) []*Term {
	out := []*Term{elemAt(list, mkInt(0))}
	for _, k := range l.Cells {
		if k.Init != tNil {
			continue
		}
		good := len(bs) > 0
		for _, b := range bs {
			v := b.step(list)
			if v.Op != "app" || v.Args[0] != list || v.Args[1].Op != "list" || len(v.Args[1].Args) != 1 {
				good = false
				break
			}
			e := v.Args[1].Args[0]
			if !(b.st.holds(nonNilT(e)) || isParse(e) && okErr(b.st, e.Args[0], 1)) {
				good = false
			}
			none := b.st.clone()
			none.assume(mkEq(mkLen(list), mkInt(0)))
			none.assume(mkEq(k.Phi, tNil))
			if !none.bot && b.step(k.Phi) != e {
				good = false
			}
			some := b.st.clone()
			some.assume(mkLe(mkInt(1), mkLen(list)))
			some.assume(nonNilT(k.Phi))
			if !some.bot && b.step(k.Phi) != k.Phi {
				good = false
			}
		}
		if good {
			out = append(out, k.Phi)
		}
	}
	return out
}

// nonEmpty: the list, whose first element is in the variables fs, has an element.
func nonEmpty(st *State, list *Term, fs []*Term) bool {
	if st.holds(mkLe(mkInt(1), mkLen(list))) {
		return true
	}
	for _, f := range fs[1:] {
		if st.holds(nonNilT(f)) {
			return true
		}
	}
	return false
}

// isParse: t is the first result of a certificate parser (which is not nil if there is no error).
func isParse(t *Term) bool {
	return t.Op == "res" && t.Sym == "0" && (t.Args[0].Sym == x509Parse || strings.HasPrefix(t.Args[0].Sym, parseAnd+"@"))
}

func isParsedCert(st *State, t, data *Term) bool {
	return isParse(t) && len(t.Args[0].Args) == 1 && same(st, t.Args[0].Args[0], data) && okErr(st, t.Args[0], 1)
}

// lineageSpec names the parts of a kind of lineage.
type lineageSpec struct {
	a      *An
	data   *Term // the bytes of the lineage
	oks    []Res // the paths that accept it
	typ    string
	fields [5]string // certificate, parent's algorithm, algorithm, signature, flags
}

// lineageRule decides the parser of the proof-of-rotation attribute.
func (c *Check) lineageRule() {
	a := c.an(fnLineage, fnVerSig)
	c.lineage(lineageSpec{a, content(a.ps[1]), a.succErr(1), tNode, [5]string{"SigningCert", "ParentSigAlgorithm", "SigAlgorithm", "Signature", "Flags"}})
}

func (c *Check) lineage(sp lineageSpec) {
	a := sp.a
	wh := a.where()
	B := sp.data
	oks := sp.oks
	certField := sp.typ + sp.fields[0]
	n := 0
	for _, r := range oks {
		st := r.st
		if st.holds(mkLe(mkLen(r.vals[0]), mkInt(0))) || r.vals[0] == tNil {
			continue // no lineage
		}
		n++
		c.req(st.holds(mkEq(le32i(B), mkInt(1))), "the lineage has the known version", wh, "an accepted lineage may have another version")
		loop, cell := c.wholeLoop(a, st, drop(B, 4), nil, "nodes of the lineage")
		if loop == nil {
			continue
		}
		lw := a.loopWhere(loop)
		bs := a.backs(loop, nil)
		N := LP(cell.Phi)
		SD := LP(N)
		algo, sig := le32i(drop(dropLP(N), 4)), LP(drop(dropLP(N), 8))
		signed := le32i(dropLP(SD))
		// the certificate of the node
		var cert *Term
		for _, b := range bs {
			for _, k := range loop.Cells {
				if v := b.step(k.Phi); isParsedCert(b.st, v, LP(SD)) {
					cert = v
				} else if v.Op == "app" && v.Args[1].Op == "list" {
					for _, e := range v.Args[1].Args {
						if isParsedCert(b.st, e, LP(SD)) {
							cert = e
						} else if w := b.st.mem[fieldOf(e, certField)]; w != nil && isParsedCert(b.st, w, LP(SD)) {
							cert = w
						}
					}
				}
			}
		}
		if !c.req(cert != nil, "the certificate of every node is parsed", lw, "no round keeps a certificate parsed from the node") {
			continue
		}
		// the result
		rc := loop.cellPhi(r.vals[0])
		okRes := rc != nil && mkLen(rc.Init) == mkInt(0)
		for _, b := range bs {
			if rc == nil {
				break
			}
			v := b.step(rc.Phi)
			ok := v.Op == "app" && v.Args[0] == rc.Phi && v.Args[1].Op == "list" && len(v.Args[1].Args) == 1
			if ok {
				o := v.Args[1].Args[0]
				for i, w := range []*Term{cert, signed, algo, sig, le32i(dropLP(N))} {
					ok = ok && same(b.st, a.cell(b.st, fieldOf(o, sp.typ+sp.fields[i])), w)
				}
			}
			okRes = okRes && ok
		}
		c.req(okRes, "the reported nodes are those of the lineage", lw, "the result does not collect every node with its contents")
		for _, b := range bs {
			if s := a.later(loop, bs, b); s != nil {
				ok := false
				for _, d := range dids(s, fnVerSig) {
					pk := arg(d, 0)
					ok = ok || okErr(s, callOf(d), 0) && same(s, arg(d, 2), SD) && same(s, arg(d, 3), sig) &&
						pk.Op == "at" && pk.Args[0].Op == "fa" && pk.Args[0].Sym == certPubKey && lastRound(loop, bs, pk.Args[0].Args[0], cert) &&
						lastRound(loop, bs, arg(d, 1), algo)
				}
				c.req(ok, "every node after the first is signed by its predecessor with the algorithm it announced", lw, "a round does not verify the node's signature with the previous certificate and algorithm")
				ok = false
				for _, k := range loop.Cells {
					ok = ok || lastRound(loop, bs, k.Phi, algo) && s.holds(mkEq(k.Phi, signed))
				}
				c.req(ok, "the signed algorithm of a node is the one its predecessor announced", lw, "a round does not compare them")
				// no duplicates: compared with every earlier certificate
				ok = false
				for _, k := range loop.Cells {
					if !k.Phi.isListOf(bs, cert, certField) {
						continue
					}
					for _, it := range a.anyIters(s, k.Phi, nil) {
						good := true
						for _, ib := range it.backs {
							e := it.elem
							if !k.plainCerts(bs, cert) {
								e = at(fieldOf(e, certField))
							}
							x, y := at(fieldOf(e, certRaw)), at(fieldOf(cert, certRaw))
							good = good && (ib.st.holds(mkNot(mkEq(x, y))) || ib.st.holds(mkNot(mkEq(e, cert))))
						}
						ok = ok || good
					}
				}
				c.req(ok, "no certificate occurs twice in a lineage", lw, "a round does not compare the certificate with all earlier ones")
			}
		}
	}
	c.req(n > 0, "a lineage can be accepted", wh, "no path returns nodes")
}

// isListOf: every round appends cert, or a node with it.
func (t *Term) isListOf(bs []back, cert *Term, certField string) bool {
	for _, b := range bs {
		v := b.step(t)
		if v.Op != "app" || v.Args[0] != t || v.Args[1].Op != "list" || len(v.Args[1].Args) != 1 {
			return false
		}
		e := v.Args[1].Args[0]
		if e != cert && b.st.mem[fieldOf(e, certField)] != cert {
			return false
		}
	}
	return len(bs) > 0
}

func (k *LoopCell) plainCerts(bs []back, cert *Term) bool {
	for _, b := range bs {
		if b.step(k.Phi).Args[1].Args[0] != cert {
			return false
		}
	}
	return true
}

// attrLoop finds the loop over the additional attributes of a signer.
func (c *Check) attrLoop(l *signerLayout, st *State) (*LoopRec, *LoopCell) {
	return c.wholeLoop(l.a, st, l.attrs, l.result, "additional attributes")
}

// rotationAttr: a lineage attribute of an accepted signer ends in the signer's certificate.
func (c *Check) rotationAttr() {
	l := c.signer(true)
	a := l.a
	for _, r := range l.ok {
		st := r.st
		loop, cell := c.attrLoop(l, st)
		if loop == nil {
			continue
		}
		list, fs := c.certLoop(l, st)
		if list == nil {
			continue
		}
		lw := a.loopWhere(loop)
		attr := LP(cell.Phi)
		id := le32u(attr)
		feasible := false
		for _, b := range a.backs(loop, l.result) {
			s := b.st.clone()
			s.assume(mkEq(id, mkInt(0x3ba06f8c)))
			if s.bot {
				continue
			}
			feasible = true
			var d *Term
			for _, x := range dids(s, dn(fnLineage)) {
				if same(s, arg(x, 1), bufref(drop(attr, 4))) && okErr(s, callOf(x), 1) {
					d = x
				}
			}
			if !c.req(d != nil, "a lineage attribute is parsed and verified", lw, "a round accepts the attribute without a verified lineage") {
				continue
			}
			nodes := res0(callOf(d))
			s.assume(mkLe(mkInt(1), mkLen(nodes)))
			if s.bot {
				continue
			}
			ok := false
			for _, x := range dids(s, dn(fnSub)) {
				sub := res0(callOf(x))
				obj := arg(x, 0)
				nf := a.cell(s, fieldOf(obj, tLineage+"Nodes"))
				if f := c.structField(obj, "Nodes"); f != nil {
					nf = f
				}
				sl := mkLen(a.cell(s, fieldOf(sub, tLineage+"Nodes")))
				ok = ok || okErr(s, callOf(x), 1) && same(s, nf, nodes) && isAny(arg(x, 1), fs) && s.holds(mkEq(mkLen(nodes), sl))
			}
			c.req(ok, "the last certificate of a lineage is the one of the signer", lw, "a round accepts a lineage that may end in another certificate")
			// the lineage is kept with the signer
			ad := fieldOf(l.recv, tV3+"signers")
			now := a.cell(s, ad)
			ok = false
			if now.Op == "app" && now.Args[1].Op == "list" {
				o := now.Args[1].Args[0]
				ln := a.cell(s, fieldOf(o, tV3Info+"lineage"))
				nn := a.cell(s, fieldOf(ln, tLineage+"Nodes"))
				ok = same(s, nn, nodes)
			}
			c.req(ok, "the lineage is recorded with its signer", lw, "recorded signers %s", short(now))
		}
		c.req(feasible, "a lineage attribute can be accepted", lw, "no round accepts one")
	}
	// the sub lineage ends in the certificate
	b := c.an(fnSub)
	wh := b.where()
	nodes := at(fieldOf(b.ps[0], tLineage+"Nodes"))
	oks := b.succErr(1)
	c.req(len(oks) > 0, "a certificate can be found in a lineage", wh, "no path succeeds")
	for _, r := range oks {
		sn := b.cell(r.st, fieldOf(r.vals[0], tLineage+"Nodes"))
		ok := false
		if sn.Op == "take" && sn.Args[0] == nodes {
			last := elemAt(nodes, mkAdd(sn.Args[1], mkInt(-1)))
			sc := at(fieldOf(last, tNode+"SigningCert"))
			ok = r.st.holds(mkEq(at(fieldOf(sc, certRaw)), at(fieldOf(b.ps[1], certRaw)))) || r.st.holds(mkEq(sc, b.ps[1]))
		}
		c.req(ok, "a lineage cut at a certificate ends in that certificate", wh, "returned nodes %s", short(sn))
	}
}

// consolidateRule: the lineages of several signers are prefixes of one another.
func (c *Check) consolidateRule() {
	a := c.an(fnConsol, fnNodesEq)
	wh := a.where()
	lin := a.ps[1]
	nodesOf := func(e *Term) *Term { return at(fieldOf(e, tLineage+"Nodes")) }
	oks := a.succErr(1)
	n := 0
	for _, r := range oks {
		st := r.st
		if st.holds(mkLe(mkLen(lin), mkInt(0))) {
			continue
		}
		n++
		v := r.vals[0]
		ok := v.Op == "at" && v.Args[0].Op == "ia" && v.Args[0].Args[0] == lin
		var k *Term
		if ok {
			k = v.Args[0].Args[1]
		}
		// or a variable that holds the best lineage so far
		fromOne := append(a.listIters(st, lin, nil), a.listItersFrom(st, lin, nil, 1)...)
		for _, it := range fromOne {
			if kc := it.l.cellPhi(v); kc != nil && kc.Init == elemAt(lin, mkInt(0)) {
				ok = true
				for _, b := range it.backs {
					ok = ok && (b.step(v) == v || b.step(v) == it.elem)
				}
			}
		}
		if !c.req(ok, "the consolidated lineage is one of the signers' lineages", wh, "result %s", short(v)) {
			continue
		}
		good := false
		for _, it := range a.anyIters(st, lin, nil) {
			g := true
			for _, b := range it.backs {
				if k != nil && b.st.holds(mkEq(k, it.idx)) || b.st.holds(mkEq(v, it.elem)) {
					continue
				}
				x := false
				e := nodesOf(it.elem)
				for _, d := range dids(b.st, dn(fnNodesEq)) {
					p, q := arg(d, 0), arg(d, 1)
					if q == e {
						p, q = q, p
					}
					x = x || b.st.holds(res0(callOf(d))) && p == e && q == mkTake(nodesOf(v), mkLen(e))
				}
				g = g && x
			}
			good = good || g
		}
		c.req(good, "every lineage is compared with the same-length start of the consolidated one", wh, "an accepting path does not compare all of them")
		// the consolidated lineage is a longest one
		max := false
		for _, it := range a.listIters(st, lin, nil) {
			sz := mkLen(nodesOf(it.elem))
			for _, m := range it.l.Cells {
				if k == nil {
					break
				}
				kc := it.l.cellPhi(k)
				if m.Init != mkInt(0) || kc == nil || kc.Init != mkInt(0) {
					continue
				}
				g := true
				for _, b := range it.backs {
					nm, nk := b.step(m.Phi), b.step(k)
					g = g && b.st.holds(mkLe(m.Phi, nm)) && b.st.holds(mkLe(sz, nm)) && (nm == m.Phi && nk == k || same(b.st, nm, sz) && nk == it.idx)
				}
				max = max || g
			}
		}
		// without a separate maximum: the size of the best so far
		for _, it := range fromOne {
			sz := mkLen(nodesOf(it.elem))
			if k == nil {
				g := it.l.cellPhi(v) != nil
				for _, b := range it.backs {
					cur, nv := mkLen(nodesOf(v)), b.step(v)
					g = g && (nv == v && b.st.holds(mkLe(sz, cur)) || nv == it.elem && b.st.holds(mkLe(cur, sz)))
				}
				max = max || g
				continue
			}
			if kc := it.l.cellPhi(k); kc != nil && kc.Init == mkInt(0) {
				g := true
				for _, b := range it.backs {
					nk := b.step(k)
					cur := mkLen(nodesOf(elemAt(lin, k)))
					g = g && (nk == k && b.st.holds(mkLe(sz, cur)) || nk == it.idx && b.st.holds(mkLe(cur, sz)))
				}
				max = max || g
			}
		}
		c.req(max, "the consolidated lineage is a longest one", wh, "the choice of the lineage is not recognised as a maximum")
	}
	c.req(n > 0, "lineages can be consolidated", wh, "no path succeeds with lineages")

	// equality of node lists
	b := c.an(fnNodesEq, fnNodeEq)
	wh = b.where()
	x, y := b.ps[0], b.ps[1]
	for _, r := range b.succBool(0, true) {
		st := r.st
		c.req(st.holds(mkEq(mkLen(x), mkLen(y))), "equal node lists have the same length", wh, "lists of different length may be equal")
		good := false
		its := append(b.anyIters(st, x, nil), b.anyIters(st, y, nil)...)
		for _, it := range its {
			g := true
			for _, k := range it.backs {
				ok := false
				for _, d := range dids(k.st, dn(fnNodeEq)) {
					p, q := arg(d, 0), arg(d, 1)
					e, f := elemAt(x, it.idx), elemAt(y, it.idx)
					ok = ok || k.st.holds(res0(callOf(d))) && (p == e && q == f || p == f && q == e)
				}
				g = g && ok
			}
			good = good || g
		}
		c.req(good, "equal node lists have equal nodes", wh, "a path returns true without comparing all nodes")
	}
	d := c.an(fnNodeEq)
	wh = d.where()
	for _, r := range d.succBool(0, true) {
		st := r.st
		if st.holds(mkEq(d.ps[0], d.ps[1])) {
			continue
		}
		for _, f := range []string{"ParentSigAlgorithm", "SigAlgorithm", "Signature", "Flags"} {
			c.req(st.holds(mkEq(at(fieldOf(d.ps[0], tNode+f)), at(fieldOf(d.ps[1], tNode+f)))), "equal nodes have the same "+f, wh, "nodes that differ in it may be equal")
		}
		p, q := at(fieldOf(d.ps[0], tNode+"SigningCert")), at(fieldOf(d.ps[1], tNode+"SigningCert"))
		c.req(st.holds(mkEq(p, q)) || st.holds(mkEq(at(fieldOf(p, certRaw)), at(fieldOf(q, certRaw)))), "equal nodes have the same certificate", wh, "nodes that differ in it may be equal")
	}
	c.req(len(d.succBool(0, true)) > 0, "nodes can be equal", wh, "no path returns true")
}

// lineagesCollected: finalizeResult consolidates the lineages of all signers.
func (c *Check) lineagesCollected() {
	a := c.anClean(fnFinal3, 3, fnConsol)
	wh := a.where()
	s, res := a.ps[0], a.ps[3]
	signers := at(fieldOf(s, tV3+"signers"))
	sl := fieldOf(res, resType+".SigningLineage")
	n := 0
	for _, r := range a.succRes(res) {
		st := r.st.clone()
		st.assume(mkEq(at(sl), tNil))
		if st.bot {
			continue
		}
		n++
		var d *Term
		for _, x := range dids(st, dn(fnConsol)) {
			if okErr(st, callOf(x), 1) && same(st, a.cell(st, sl), res0(callOf(x))) {
				d = x
			}
		}
		if !c.req(d != nil, "the reported lineage is the consolidated one", wh, "an accepting path reports %s", short(a.cell(st, sl))) {
			continue
		}
		good, grow := false, false
		for _, it := range a.listIters(st, signers, res) {
			ln := at(fieldOf(it.elem, tV3Info+"lineage"))
			sz := mkLen(at(fieldOf(ln, tLineage+"Nodes")))
			for _, k := range it.l.Cells {
				g := mkLen(k.Init) == mkInt(0)
				p := k.Init == mkInt(0)
				for _, b := range it.backs {
					no := b.st.clone()
					no.assume(mkEq(ln, tNil))
					if !no.bot {
						g = g && b.step(k.Phi) == k.Phi
						p = p && b.step(k.Phi) == k.Phi
					}
					yes := b.st.clone()
					yes.assume(nonNilT(ln))
					if !yes.bot {
						g = g && b.step(k.Phi) == app(k.Phi, listOf(ln))
						p = p && same(yes, b.step(k.Phi), sz) && yes.holds(mkLe(k.Phi, sz))
					}
				}
				good = good || g && arg(d, 1) == k.Phi
				grow = grow || p
			}
		}
		c.req(good, "the lineages of all signers are consolidated", wh, "the consolidated list %s does not hold the lineage of every signer", short(arg(d, 1)))
		c.req(grow, "lineages never get shorter for later platform versions", wh, "the lengths are not compared")
	}
	c.req(n > 0, "lineages can be accepted", wh, "no accepting path without a lineage from before")
}

func checkC07(c *Check) {
	c.lineageRule()
	c.rotationAttr()
	c.consolidateRule()
	c.lineagesCollected()
	c.signerLoops()
	c.errorGates()
	c.bothJudged()
}

func isAny(t *Term, l []*Term) bool {
	for _, x := range l {
		if t == x {
			return true
		}
	}
	return false
}
