package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	fnEntry     = "signingblock.VerifySigningBlockReaderWithZip"
	fnNewBlock  = "signingblock.newSigningBlock"
	fnFind      = "signingblock.(*signingBlock).findSignatureBlocks"
	fnFrostAPK  = "signingblock.(*frostingInfo).verifyApk"
	fnPick      = "signingblock.(*signingBlock).pickAndVerify"
	fnStamp     = "signingblock.(*sourceStampVerifier).VerifySourceV2Stamp"
	fnIntegrity = "signingblock.(*signingBlock).verifyIntegrity"
	fnCompute   = "signingblock.(*signingBlock).computeContentDigests"
	resType     = "signingblock.VerificationResult"
)

const (
	idV2    = 0x7109871a
	idV3    = 0xf05368c0
	idV31   = 0x1b93ad61
	idStamp = 0x6dff800d
	idFrost = 0x2146444e
)

var blockOf = map[int64]int64{2: idV2, 3: idV3, 31: idV31}
var schemeName = map[int64]string{2: "schemeV2", 3: "schemeV3", 31: "schemeV31"}

// dn is the name under which calls of the anchor are recorded.
func dn(anchor string) string {
	if i := strings.Index(anchor, ".(*"); i >= 0 {
		j := strings.Index(anchor, ")")
		return "(*" + anchor[:i] + "." + anchor[i+3:j] + anchor[j:]
	}
	if i := strings.Index(anchor, ".("); i >= 0 {
		j := strings.Index(anchor, ")")
		return "(" + anchor[:i] + "." + anchor[i+2:j] + anchor[j:]
	}
	return anchor
}

// structField reads a field of a struct value (or of the struct a reference points to) by name.
func (c *Check) structField(v *Term, name string) *Term {
	for v != nil && (v.Op == "ref") && len(v.Args) > 0 {
		v = v.Args[0]
	}
	if v == nil || v.Op != "struct" {
		return nil
	}
	t := c.w.typeByName(v.Sym)
	if t == nil {
		return nil
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields() && i < len(v.Args); i++ {
		if s.Field(i).Name() == name {
			return v.Args[i]
		}
	}
	return nil
}

// typeByName resolves "signingblock.schemeV3".
func (w *World) typeByName(n string) types.Type {
	dot := strings.LastIndexByte(n, '.')
	if dot < 0 {
		return nil
	}
	pk, name := n[:dot], n[dot+1:]
	for p, sp := range w.Pkgs {
		if p == pk || p == modPath+"/"+pk || p == modPath && pk == "apkverifier" {
			if t := sp.Type(name); t != nil {
				return t.Type()
			}
		}
	}
	return nil
}

// calledWith: the cell's value is what it was directly after the given call.
func after(cell, call *Term) bool {
	return cell.Op == "at" && len(cell.Args) == 2 && cell.Args[1] == call
}

// entryRule decides the function that verifies the signing block of a file: what it verifies, that
// the errors of the verified block decide, and what the single fallback may do.
func (c *Check) entryRule() {
	a := c.an(fnEntry, fnNewBlock, fnFind, fnFrostAPK, fnPick, fnStamp)
	wh := a.where()
	min, max := a.ps[1], a.ps[2]
	c.req(len(a.succErr(2)) > 0, "verification of the signing block can succeed", wh, "no path returns a nil error")
	for _, r := range a.succErr(2) {
		st := r.st
		res := r.vals[0]
		errs := a.cell(st, fieldOf(res, errField))
		if !c.req(errs.Op == "errs" && strings.HasPrefix(errs.Args[1].Sym, dn(fnPick)+"@"), "success is decided by the errors of the last verification of a block", wh, "a nil error is returned with the error list %s", short(errs)) {
			continue
		}
		pick := errs.Args[1]
		c.req(st.holds(mkLe(mkLen(errs), mkInt(0))), "success means that the block in use has no errors", wh, "a nil error is returned although errors may have been recorded")
		for _, f := range []string{"Certs", "SchemeId", "SigningLineage"} {
			v := a.cell(st, fieldOf(res, resType+"."+f))
			c.req(after(v, pick), "the reported "+f+" is the one of the verification that decided", wh, "the reported value is %s", short(v))
		}
	}
	// the calls that verify a block
	n := 0
	for _, e := range a.x.log {
		if e.Kind != "call" || e.Name != dn(fnPick) {
			continue
		}
		n++
		st := e.St
		at0 := c.w.posOf(e.Fn, e.Instr.Pos()) + " verification of a block"
		s, blocks, res := e.Raw[0], e.Raw[1], e.Raw[4]
		finds := dids(st, dn(fnFind))
		if !c.req(len(finds) == 1, "the blocks that are verified were read from the file", at0, "%d searches for the signing block before", len(finds)) {
			continue
		}
		find := callOf(finds[0])
		news := dids(st, fnNewBlock)
		c.req(len(news) == 1 && arg(news[0], 0) == a.ps[0] && s == res0(callOf(news[0])) && okErr(st, callOf(news[0]), 2), "the block is read from the given file", at0, "receiver %s", short(s))
		c.req(blocks == res0(find) && okErr(st, find, 2), "the blocks that are verified were found without error", at0, "blocks %s", short(blocks))
		c.req(arg(finds[0], 0) == s && arg(finds[0], 1) == max, "the signing block is searched with the requested SDK range", at0, "arguments %s", short(finds[0]))
		c.req(e.Raw[2] == min && e.Raw[3] == max, "the block is verified for the requested SDK range", at0, "range %s, %s", short(e.Raw[2]), short(e.Raw[3]))
		c.req(e.Raw[4].Op == "obj", "results are collected in the returned object", at0, "result object %s", short(res))
		errs := a.cell(st, fieldOf(res, errField))
		prev := dids(st, dn(fnPick))
		bl := a.x.mapContent(st, blocks)
		if len(prev) == 0 {
			c.req(bl.Op == "content", "the blocks of the file are verified unchanged", at0, "blocks become %s", short(bl))
			continue
		}
		// the fallback
		fb := at0 + " (fallback)"
		pick := callOf(prev[len(prev)-1])
		c.req(len(prev) == 1, "there is a single fallback", fb, "%d verifications precede", len(prev))
		cond := st.holds(mkLe(min, mkInt(27)))
		c.req(cond, "the fallback needs a range with Android versions before 9", fb, "the minimum SDK version is not known to be below 28")
		sid := mk("at", "", fieldOf(res, resType+".SchemeId"), pick)
		c.req(st.holds(mkLe(mkInt(3), sid)), "the fallback replaces a v3 or v3.1 block only", fb, "the scheme that failed is not known to be 3 or newer")
		c.req(st.holds(nonNilT(look(innermost(bl), mkInt(idV2)))), "the fallback needs a v2 block", fb, "the presence of a v2 block is not known")
		c.req(errs == tNil, "the fallback starts without errors", fb, "error list %s", short(errs))
		onlyDel := true
		gone := false
		for m := bl; ; m = m.Args[0] {
			if m.Op == "del" {
				if m.Args[1] == mkInt(idV3) {
					gone = true
				}
				if m.Args[1] != mkInt(idV3) && m.Args[1] != mkInt(idV31) {
					onlyDel = false
				}
				continue
			}
			onlyDel = onlyDel && m.Op == "content"
			break
		}
		c.req(onlyDel && gone, "the fallback drops the v3 block and changes no other block", fb, "blocks become %s", short(bl))
		for _, f := range []string{"Certs", "SigningLineage", "ExtraResults"} {
			v := a.cell(st, fieldOf(res, resType+"."+f))
			c.req(v == tNil || mkLen(v) == mkInt(0), "no partial result of the rejected block survives: "+f, fb, "at the second verification the field is %s", short(v))
		}
	}
	c.req(n > 0, "the signing block is verified", wh, "no call of %s", fnPick)
}

func innermost(m *Term) *Term {
	for m.Op == "del" || m.Op == "upd" {
		m = m.Args[0]
	}
	return m
}

func res0(call *Term) *Term { return res(call, 0) }

func parseName(id int64) string {
	return "signingblock.(*" + schemeName[id] + ").parseSigners"
}
func finalName(id int64) string {
	return "signingblock.(*" + schemeName[id] + ").finalizeResult"
}

// pickRule decides the function that chooses the scheme, parses its signers and checks the file.
func (c *Check) pickRule() {
	a := c.anClean(fnPick, 4, c.pickBounds()...)
	wh := a.where()
	s, blocks, min, max, res := a.ps[0], a.ps[1], a.ps[2], a.ps[3], a.ps[4]
	seen := map[int64]bool{}
	for _, r := range a.succRes(res) {
		st := r.st
		// an integrity check that fails records an error (decided by integrityRule)
		failed := false
		for _, d := range dids(st, dn(fnIntegrity)) {
			if st.holds(mkNot(res0(callOf(d)))) && arg(d, 2) == res {
				failed = true
			}
		}
		if failed {
			continue
		}
		sid := a.cell(st, fieldOf(res, resType+".SchemeId"))
		id, ok := sid.int64()
		if !c.req(ok, "the scheme in use is reported", wh, "scheme id %s", short(sid)) {
			continue
		}
		if st.holds(mkLe(max, mkInt(23))) {
			c.req(id == 1, "no block is used below Android 7", wh, "scheme id %d is reported", id)
			continue
		}
		if !c.req(blockOf[id] != 0, "success requires a block of a known scheme", wh, "scheme id %d is accepted", id) {
			continue
		}
		seen[id] = true
		for _, newer := range []int64{3, 31} {
			if newer > id {
				c.req(st.holds(mkEq(look(content(blocks), mkInt(blockOf[newer])), tNil)), "the newest scheme that is present is used", wh, "scheme %d is used although a block of scheme %d may be present", id, newer)
			}
		}
		var all []*Term
		for k := range blockOf {
			all = append(all, dids(st, dn(parseName(k)))...)
		}
		ds := dids(st, dn(parseName(id)))
		if !c.req(len(ds) == 1 && len(all) == 1, "the signers of the block in use are parsed and verified", wh, "scheme %d: %d calls", id, len(ds)) {
			continue
		}
		p := ds[0]
		call := callOf(p)
		blk := look(content(blocks), mkInt(blockOf[id]))
		c.req(arg(p, 1) == bufref(blk), "the whole block of the scheme in use is parsed", wh, "scheme %d parses %s", id, short(arg(p, 1)))
		c.req(arg(p, 2) == mk("ref", "", mk("mapnew", "")), "content digests are collected from an empty map", wh, "initial digests %s", short(arg(p, 2)))
		c.req(arg(p, 3) == res, "the results of the signers go to the caller's result", wh, "result %s", short(arg(p, 3)))
		certs := a.cell(st, fieldOf(res, certsField))
		c.req(after(certs, call), "the reported certificates are those of the signers", wh, "scheme %d: certificates %s", id, short(certs))
		c.req(st.holds(mkLe(mkInt(1), mkLen(certs))), "a block without signers is rejected", wh, "scheme %d is accepted without a certificate", id)
		// the SDK range of the scheme object
		fields := map[string][]*Term{}
		recv := arg(p, 0)
		if id == 31 {
			for _, bk := range []string{"backendV3", "backendV31"} {
				f := c.structField(recv, bk)
				fields["minSdkVersion"] = append(fields["minSdkVersion"], c.structField(f, "minSdkVersion"))
				fields["maxSdkVersion"] = append(fields["maxSdkVersion"], c.structField(f, "maxSdkVersion"))
				want := mkBool(bk == "backendV31")
				c.req(c.structField(f, "actingAsV31") == want, "the v3.1 block is verified by v3.1 rules, its v3 block by v3 rules", wh, "%s has actingAsV31=%v", bk, c.structField(f, "actingAsV31"))
			}
		} else {
			fields["minSdkVersion"] = append(fields["minSdkVersion"], c.structField(recv, "minSdkVersion"))
			fields["maxSdkVersion"] = append(fields["maxSdkVersion"], c.structField(recv, "maxSdkVersion"))
			if id == 3 {
				c.req(c.structField(recv, "actingAsV31") == tFalse, "a v3 block is verified by v3 rules", wh, "actingAsV31 is set for a v3 block")
			}
		}
		for f, vs := range fields {
			want := min
			if f[1] == 'a' {
				want = max
			}
			for _, v := range vs {
				c.req(v == want, "the scheme is verified for the requested "+f, wh, "scheme %d: the scheme object has %s = %v", id, f, v)
			}
		}
		// integrity
		var digests *Term
		ig := 0
		for _, d := range dids(st, dn(fnIntegrity)) {
			if !st.holds(res0(callOf(d))) || arg(d, 0) != s || arg(d, 2) != res {
				continue
			}
			m := arg(d, 1)
			if m.Op == "ref" && m.Args[0].Op == "content" && len(m.Args[0].Args) == 2 && m.Args[0].Args[1] == call {
				digests = m.Args[0]
				ig |= 1
			}
			if m.Op == "at" && m.Args[0].Op == "fa" && strings.HasSuffix(m.Args[0].Sym, ".v31ContentDigests") {
				ig |= 2
			}
		}
		c.req(ig&1 != 0, "the content digests of the accepted signers are checked against the file", wh, "scheme %d: no successful integrity check of the collected digests", id)
		if id == 31 {
			c.req(ig&2 != 0, "the content digests of v3.1 signers are checked against the file", wh, "no successful integrity check of the v3.1 digests")
		}
		if digests != nil {
			c.req(st.holds(mkLe(mkInt(1), mkLen(digests))) || st.holds(mkNot(mkEq(mkLen(digests), mkInt(0)))), "a block without content digests is rejected", wh, "scheme %d is accepted without a content digest", id)
		}
		fin := 0
		for _, d := range dids(st, dn(finalName(id))) {
			if arg(d, 1) == min && arg(d, 2) == max && arg(d, 3) == res {
				fin++
			}
		}
		c.req(fin > 0 || id == 2, "the SDK ranges of the signers are checked for the requested range", wh, "scheme %d: finalizeResult is not called", id)
	}
	for _, id := range []int64{2, 3, 31} {
		c.req(seen[id], "each scheme can be used", wh, "no accepting path for scheme %d", id)
	}
}

// signersRule decides the loops over the signers of a block.
func (c *Check) signersRule() {
	for _, id := range []int64{2, 3} {
		vs := "signingblock.(*" + schemeName[id] + ").verifySigner"
		a := c.anClean(parseName(id), 3, vs)
		wh := a.where()
		recv, block, digests, res := a.ps[0], a.ps[1], a.ps[2], a.ps[3]
		oks := a.succRes(res)
		c.req(len(oks) > 0, "a block can be accepted", wh, "no accepting path")
		for _, r := range oks {
			st := r.st
			loop, cell := c.wholeLoop(a, st, LP(content(block)), res, "signers of the block")
			if loop == nil {
				continue
			}
			for _, b := range a.backs(loop, res) {
				ok := false
				for _, d := range dids(b.st, dn(vs)) {
					ok = ok || arg(d, 1) == bufref(LP(cell.Phi)) && arg(d, 0) == recv && arg(d, 2) == digests && arg(d, 3) == res
				}
				c.req(ok, "every signer of the block is verified", a.loopWhere(loop), "a round of the loop does not verify its signer")
			}
			if id == 2 {
				n := mkLen(a.cell(st, fieldOf(res, certsField)))
				c.req(st.holds(mkLe(n, mkInt(10))), "a v2 block has at most ten signers", wh, "a block with more than ten signers is accepted")
			}
			certs := a.cell(st, fieldOf(res, certsField))
			c.req(certs.Op == "at" || certs.Op == "phi", "only the verification of signers adds certificates", wh, "certificates become %s", short(certs))
		}
	}
	c.v31SignersRule()
}

// v31SignersRule: a v3.1 block is verified together with its v3 block.
func (c *Check) v31SignersRule() {
	v3p := parseName(3)
	a := c.anClean(parseName(31), 3, v3p)
	wh := a.where()
	recv, block, digests, res := a.ps[0], a.ps[1], a.ps[2], a.ps[3]
	bk := func(n string) *Term { return fieldOf(recv, "signingblock.schemeV31."+n) }
	oks := a.succRes(res)
	c.req(len(oks) > 0, "a block can be accepted", wh, "no accepting path")
	extra := at(fieldOf(res, resType+".ExtraBlocks"))
	for _, r := range oks {
		st := r.st
		var p31, p3 *Term
		for _, d := range dids(st, dn(v3p)) {
			switch {
			case arg(d, 0) == bk("backendV31") && arg(d, 1) == bufref(content(block)) && arg(d, 3) == res:
				p31 = d
			case arg(d, 0) == bk("backendV3"):
				p3 = d
			}
		}
		if !c.req(p31 != nil, "the v3.1 block is parsed and verified completely", wh, "no verification of the v3.1 signers with the caller's result") {
			continue
		}
		if !c.req(p3 != nil, "a v3.1 block without a verified v3 block is rejected", wh, "an accepting path does not verify the v3 block") {
			continue
		}
		blk := arg(p3, 1)
		okb := blk.Op == "bufref" && blk.Args[0].Op == "look" && blk.Args[0].Args[1] == mkInt(idV3) && blk.Args[0].Args[0].Op == "content" && fieldName(blk.Args[0].Args[0].Args[0]) == resType+".ExtraBlocks"
		c.req(okb && st.holds(nonNilT(blk.Args[0])), "the v3 block verified along with v3.1 is the one of the file", wh, "block %s", short(blk))
		_ = extra
		c.req(arg(p3, 2) == digests || arg(p3, 2).contains(digests), "the digests of the v3 signers are reported to the caller", wh, "digest map %s", short(arg(p3, 2)))
		// the v3.1 digests are kept
		kept := a.cell(st, bk("v31ContentDigests"))
		okd := kept.Op == "obj"
		if okd {
			e := a.callEvent(callOf(p31))
			okd = e != nil && e.Raw[2] == kept && a.x.mapContent(e.St, kept).Op == "mapnew"
		}
		c.req(okd, "the digests of the v3.1 signers are kept for the integrity check", wh, "v31ContentDigests is %s", short(kept))
		// the result of the v3 block is kept
		var v3res *Term
		if e := a.callEvent(callOf(p3)); e != nil {
			v3res = e.Raw[3]
		}
		er := a.cell(st, fieldOf(res, resType+".ExtraResults"))
		var m *Term
		if er.Op == "obj" {
			m = a.x.mapContent(st, er)
		} else if v, ok := st.mem[er]; ok {
			m = v
		}
		c.req(v3res != nil && m != nil && m.Op == "upd" && m.Args[1] == mkInt(3) && m.Args[2] == v3res, "the result of the v3 block is kept for the verdict", wh, "extra results are %s", short1(m))
		// rotation level: the smallest minimum of the v3.1 signers
		for _, e := range a.x.log {
			if e.Kind == "call" && len(e.Args) > 0 && e.Args[0] == callOf(p3) {
				c.rotationMin(a, e.St, callOf(p31), bk("backendV31"), e.St.mem[fieldOf(e.Raw[0], "signingblock.schemeV3.rotationMinSdkVersion")])
			}
		}
	}
}

// callEvent is the recorded call (the last one when several paths share it).
func (a *An) callEvent(call *Term) *Event {
	for i := len(a.x.log) - 1; i >= 0; i-- {
		if e := a.x.log[i]; e.Kind == "call" && len(e.Args) > 0 && e.Args[0] == call {
			return e
		}
	}
	return nil
}

// rotationMin: rot is the minimum of the v3.1 signers' minimum SDK versions, 0 without signers.
func (c *Check) rotationMin(a *An, st *State, p31, backend, rot *Term) {
	wh := a.where()
	if !c.req(rot != nil, "the v3 signers are verified knowing where v3.1 rotation starts", wh, "the rotation level is not set before the v3 signers are verified") {
		return
	}
	signers := at2(fieldOf(backend, "signingblock.schemeV3.signers"), p31)
	good := false
	var why string
	for _, l := range a.sortedLoops() {
		bs := a.backs(l, nil)
		for _, k := range l.Cells {
			if k.Init != mkInt(2147483647) || len(bs) == 0 {
				continue
			}
			for _, ix := range l.Cells {
				if ix.Init != mkInt(-1) && ix.Init != mkInt(0) {
					continue
				}
				idx := ix.Phi
				if ix.Init == mkInt(-1) {
					idx = mkAdd(idx, mkInt(1))
				}
				e := at(fieldOf(elemAt(signers, idx), "signingblock.schemeV3SignerInfo.minSdkVersion"))
				ok := true
				for _, b := range bs {
					s := b.step(k.Phi)
					// s == min(k, e)
					lo := b.st.holds(mkLe(s, k.Phi)) && b.st.holds(mkLe(s, e))
					if !(lo && (s == k.Phi || s == e)) || b.step(ix.Phi) != mkAdd(ix.Phi, mkInt(1)) {
						ok = false
						why = fmt.Sprintf("a round makes the level %s", short(s))
					}
				}
				if ok && rot.contains(k.Phi) || ok && rot == mkInt(0) && st.holds(mkEq(k.Phi, k.Init)) {
					good = true
				}
			}
		}
	}
	c.req(good, "rotation starts at the smallest minimum SDK version of the v3.1 signers", wh, "%s", why)
}

func at2(addr, tok *Term) *Term { return mk("at", "", addr, tok) }

func fieldName(t *Term) string {
	for t != nil && (t.Op == "at" || t.Op == "content") {
		t = t.Args[0]
	}
	if t != nil && t.Op == "fa" {
		return t.Sym
	}
	return ""
}

// errorDiscipline: error lists only ever grow; the single reset is the one of the fallback.
func (c *Check) errorDiscipline(fields ...string) {
	n := 0
	for _, f := range c.w.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					fa, ok := in.Addr.(*ssa.FieldAddr)
					if !ok {
						// overwriting a whole result
						if s, ok := deref(in.Addr.Type()).Underlying().(*types.Struct); ok && hasField(deref(in.Addr.Type()), s, fields) {
							_, fresh := in.Addr.(*ssa.Alloc)
							c.req(fresh, "a verification result is never overwritten", c.w.posOf(f, in.Pos())+" store in "+shortFn(f), "a whole result is overwritten")
						}
						continue
					}
					sym := fieldSym(deref(fa.X.Type()), fa.Field)
					if !in2(sym, fields) {
						continue
					}
					n++
					wh := c.w.posOf(f, in.Pos()) + " store to " + sym + " in " + shortFn(f)
					ok = growsOnly(in.Val, fa, map[ssa.Value]bool{})
					if !ok && c.w.lookup(fnEntry) != nil && isNilConst(in.Val) && c.onlyCalledFrom(f, c.w.lookup(fnEntry)) {
						// decided by entryRule at the second verification
						ok = true
					}
					c.req(ok, "errors are only ever added", wh, "the error list is replaced by something that is not the list extended")
					c.req(c.appendsErrors(in.Val, map[ssa.Value]bool{}), "a recorded error is an error", wh, "a value that may be nil is added to the error list")
					c.used[f] = true
				case *ssa.FieldAddr:
					sym := fieldSym(deref(in.X.Type()), in.Field)
					if !in2(sym, fields) || in.Referrers() == nil {
						continue
					}
					for _, u := range *in.Referrers() {
						switch u := u.(type) {
						case *ssa.Store:
							if u.Addr == in {
								continue
							}
						case *ssa.UnOp, *ssa.DebugRef:
							continue
						}
						c.req(false, "error lists are not aliased", c.w.posOf(f, in.Pos())+" address of "+sym+" in "+shortFn(f), "the address of the error list escapes")
					}
				}
			}
		}
	}
	c.req(n > 0, "errors are recorded", modPath, "no store to an error list found")
}

func hasField(t types.Type, s *types.Struct, fields []string) bool {
	for i := 0; i < s.NumFields(); i++ {
		if in2(fieldSym(t, i), fields) {
			return true
		}
	}
	return false
}

func in2(s string, l []string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

// onlyCalledFrom: g is f or a function that only f (transitively) calls statically.
func (c *Check) onlyCalledFrom(g, f *ssa.Function) bool {
	if g == f {
		return true
	}
	if g.Parent() == f {
		return true
	}
	n := 0
	for _, h := range c.w.Funcs {
		for _, b := range h.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op == g {
						n++
						if h != f {
							return false
						}
					}
				}
			}
		}
	}
	return n > 0 && !token.IsExported(g.Name())
}

// growsOnly: v is append(load of the same field, ...), possibly joined with the list itself.
func growsOnly(v ssa.Value, fa *ssa.FieldAddr, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Call:
		b, ok := v.Call.Value.(*ssa.Builtin)
		return ok && b.Name() == "append" && growsOnly(v.Call.Args[0], fa, seen)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !growsOnly(e, fa, seen) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if v.Op != token.MUL {
			return false
		}
		l, ok := v.X.(*ssa.FieldAddr)
		return ok && l.Field == fa.Field && l.X == fa.X
	}
	return false
}

// appendsErrors: the values appended in the expression for an error list are not nil.
func (c *Check) appendsErrors(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !c.appendsErrors(e, seen) {
				return false
			}
		}
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); !ok || b.Name() != "append" {
			return true
		}
		if !c.appendsErrors(v.Call.Args[0], seen) {
			return false
		}
		sl, ok := v.Call.Args[1].(*ssa.Slice)
		if !ok {
			return true // another error list
		}
		al, ok := sl.X.(*ssa.Alloc)
		if !ok {
			return true
		}
		for _, r := range *al.Referrers() {
			ia, ok := r.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			for _, u := range *ia.Referrers() {
				if st, ok := u.(*ssa.Store); ok && st.Addr == ia && !c.nonNilErr(st.Val, st.Block(), map[ssa.Value]bool{}) {
					return false
				}
			}
		}
	}
	return true
}

// nonNilErr: v is not nil where it is used in block b.
func (c *Check) nonNilErr(v ssa.Value, b *ssa.BasicBlock, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	for d := b; d != nil; d = d.Idom() {
		p := d.Idom()
		if p == nil || len(p.Instrs) == 0 {
			continue
		}
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok || len(d.Preds) != 1 {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok || !(bo.X == v && isNilConst(bo.Y) || bo.Y == v && isNilConst(bo.X)) {
			continue
		}
		if bo.Op == token.NEQ && p.Succs[0] == d || bo.Op == token.EQL && p.Succs[1] == d {
			return true
		}
	}
	switch v := v.(type) {
	case *ssa.MakeInterface:
		return true
	case *ssa.Call:
		if n := calleeName(&v.Call); n == "fmt.Errorf" || n == "errors.New" {
			return true
		}
		if f := v.Call.StaticCallee(); f != nil && len(f.Blocks) > 0 {
			for _, bl := range f.Blocks {
				if r, ok := bl.Instrs[len(bl.Instrs)-1].(*ssa.Return); ok && (len(r.Results) != 1 || !c.nonNilErr(r.Results[0], bl, seen)) {
					return false
				}
			}
			return true
		}
	case *ssa.Phi:
		for i, e := range v.Edges {
			if !c.nonNilErr(e, v.Block().Preds[i], seen) {
				return false
			}
		}
		return true
	case *ssa.Parameter:
		f := v.Parent()
		idx := -1
		for i, p := range f.Params {
			if p == v {
				idx = i
			}
		}
		n := 0
		for _, h := range c.w.Funcs {
			for _, bl := range h.Blocks {
				for _, in := range bl.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == f {
						n++
						if !c.nonNilErr(ci.Common().Args[idx], bl, seen) {
							return false
						}
					}
				}
			}
		}
		return n > 0 && !token.IsExported(f.Name())
	case *ssa.UnOp:
		if ia, ok := v.X.(*ssa.IndexAddr); ok {
			if l, ok := ia.X.(*ssa.UnOp); ok {
				if fa, ok := l.X.(*ssa.FieldAddr); ok {
					return strings.HasSuffix(fieldSym(deref(fa.X.Type()), fa.Field), ".Errors")
				}
			}
		}
	}
	return false
}

func (c *Check) signerLoops() {
	c.signersRule()
	c.pickRule()
	c.entryRule()
}
func (c *Check) errorGates()   { c.errorDiscipline(errField) }
func (c *Check) certsWriters() {}
func (c *Check) signerLimit()  { c.signersRule() }
