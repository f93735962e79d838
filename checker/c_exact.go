package main

import (
	"golang.org/x/tools/go/ssa"
)

// C32: the length-prefixed records of a signing block are read exactly.

func init() { checks = append(checks, checkDef{"C32", checkC32, 60}) }

const (
	fnGetLP = "signingblock.getLenghtPrefixedSlice"
)

func checkC32(c *Check) {
	c.lpRule()
	c.signerReads()
	c.lineageReads()
	c.stampReads()
	c.blockReads()
}

// lpRule: a length-prefixed record is the one its prefix describes, and the reader is left right after it.
func (c *Check) lpRule() {
	a := c.anOpt(fnGetLP, func(x *Exec, f *ssa.Function, ps []*Term, st *State) { x.wantEvent["bufnext"] = true })
	wh := a.where()
	b := content(a.ps[0])
	n := le32i(b)
	ok := 0
	for _, r := range a.rets {
		s := r.st.clone()
		s.assume(mkEq(r.vals[1], tNil))
		if !s.bot {
			ok++
			c.req(s.holds(mkLe(mkInt(4), mkLen(b))), "a record has a complete length prefix", wh, "it is read from fewer than four bytes")
			c.req(s.holds(mkLe(mkInt(0), n)), "a record's length is not negative", wh, "a negative length is accepted")
			c.req(s.holds(mkLe(mkAdd(n, mkInt(4)), mkLen(b))), "a record lies inside the structure around it", wh, "a length that exceeds the data is accepted")
			got, known := a.x.bufValue(s, r.vals[0])
			c.req(known && same(s, got, LP(b)), "the record's bytes are those its prefix describes", wh, "they are %s", short(got))
			left := a.cell(s, mk("bufc", "", a.ps[0]))
			c.req(same(s, left, dropLP(b)), "the reader is left right after the record", wh, "it is left with %s", short(left))
		}
		f := r.st.clone()
		f.assume(nonNilT(r.vals[1]))
		for _, p := range []*Term{mkLe(mkInt(4), mkLen(b)), mkLe(mkInt(0), n), mkLe(mkAdd(n, mkInt(4)), mkLen(b))} {
			f.assume(p)
		}
		c.req(f.bot, "a well-formed record can be read", wh, "a record inside the data may be rejected")
	}
	c.req(ok > 0, "records can be read", wh, "no path succeeds")
	c.nextEvents(a)
}

// nextEvents: no (*bytes.Buffer).Next is asked for more than there is, which it would cut silently.
func (c *Check) nextEvents(a *An) {
	for _, e := range a.x.log {
		if e.Kind != "bufnext" {
			continue
		}
		c.req(e.St.holds(mkLe(mkInt(0), e.Args[0])), "a length is not negative", c.w.posOf(e.Instr.Parent(), e.Instr.Pos()), "%s may be negative", short(e.Args[0]))
		c.req(e.St.holds(mkLe(e.Args[0], e.Args[1])), "a length does not exceed what remains", c.w.posOf(e.Instr.Parent(), e.Instr.Pos()), "%s bytes may be taken of %s", short(e.Args[0]), short(e.Args[1]))
	}
}

// bufValue: the bytes in the buffer v.
func (x *Exec) bufValue(st *State, v *Term) (*Term, bool) {
	if v.Op == "bufref" {
		return v.Args[0], true
	}
	if v == tNil {
		return v, false
	}
	return x.bufContent(st, v), true
}

// reads interprets a function, marking the paths on which a read of buffered data fails.
func (c *Check) reads(name string, setup func(x *Exec, f *ssa.Function, ps []*Term, st *State), bounds ...string) *An {
	return c.anOpt(name, func(x *Exec, f *ssa.Function, ps []*Term, st *State) {
		x.markShort = true
		x.wantEvent["bufnext"] = true
		st.mem[shortCell] = tFalse
		if setup != nil {
			setup(x, f, ps, st)
		}
	}, bounds...)
}

// noShort: on the paths on which the function succeeds, no read has failed.
func (c *Check) noShort(a *An, ok []Res) {
	c.req(len(ok) > 0, "the structure can be accepted", a.where(), "no path succeeds")
	for _, r := range ok {
		c.req(r.st.mem[shortCell] == tFalse, "a structure that ends early, or has a length that is negative or too large, is rejected", a.where(), "a path on which a read fails succeeds")
	}
	c.nextEvents(a)
}

func watchErrors(p int) func(x *Exec, f *ssa.Function, ps []*Term, st *State) {
	return func(x *Exec, f *ssa.Function, ps []*Term, st *State) {
		x.watch = fieldOf(ps[p], errField)
		x.watch0 = at(x.watch)
	}
}

func (c *Check) signerReads() {
	for _, v3 := range []bool{false, true} {
		l := c.signer(v3)
		for _, r := range l.ok {
			d := l.signature(r.st)
			if c.req(d != nil, "the signed data is the first record of the signer", l.a.where(), "an accepting path has no signature verification over it") {
				c.sigPair(l, r.st, d)
				c.digestLoop(l, r.st, arg(d, 1))
			}
			c.certLoop(l, r.st)
			c.wholeLoop(l.a, r.st, l.attrs, l.result, "additional attributes")
		}
		bounds := []string{"signingblock.verifySignature"}
		n, v := "signingblock.(*schemeV2)", 3
		if v3 {
			n = "signingblock.(*schemeV3)"
			bounds = append(bounds, fnLineage, fnSub, "signingblock.lineageCalculateMinSdkVersion")
		}
		a := c.reads(n+".verifySigner", watchErrors(v), bounds...)
		c.noShort(a, a.succRes(a.ps[v]))
		p := c.reads(n+".parseSigners", watchErrors(v), n+".verifySigner")
		c.noShort(p, p.succRes(p.ps[v]))
	}
	c.signersRule()
}

func (c *Check) lineageReads() {
	a := c.reads(fnLineage, nil, fnVerSig)
	c.noShort(a, a.succErr(1))
	c.lineageRule()
}

// stampReads: the block, the certificates, attributes and lineage of a source stamp.
func (c *Check) stampReads() {
	watch := func(x *Exec, f *ssa.Function, ps []*Term, st *State) {
		x.watch = stampErrors(ps[0])
		x.watch0 = at(x.watch)
	}
	all := func(a *An) (l []Res) {
		for _, r := range a.rets {
			if !r.st.bot && a.noStampErrors(r.st, a.ps[0]) {
				l = append(l, r)
			}
		}
		return
	}
	a := c.reads(fnStamp, func(x *Exec, f *ssa.Function, ps []*Term, st *State) {
		watch(x, f, ps, st)
		st.assume(nonNilT(ps[2]))
	}, fnStVer, fnStAttr, fnStDig, fnStV1)
	c.noShort(a, all(a))
	a = c.reads(fnStVer, watch, fnVerSig, fnStFil)
	c.noShort(a, a.succBool(0, true))
	a = c.reads(fnStAttr, watch, fnStLin)
	c.noShort(a, a.succBool(0, true))
	a = c.reads(fnStLin, watch, fnVerSig)
	var ok []Res
	for _, r := range all(a) {
		if r.vals[0] != tNil {
			ok = append(ok, r)
		}
	}
	c.noShort(a, ok)
	c.stampVerify()
	c.stampLineage()
	c.stampAttributes()
}

// blockReads: the entries of the signing block.
func (c *Check) blockReads() {
	a := c.reads(fnFind, func(x *Exec, f *ssa.Function, ps []*Term, st *State) {
		x.maxStates = 600
		st.assume(nonNilT(ps[2]))
	}, fnFindEocd, fnZip64, fnFindBlock, fnFrostParse)
	c.noShort(a, a.succErr(2))
	c.collectRule()
}
