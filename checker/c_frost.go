package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks = append(checks, checkDef{"C19", checkC19, 30}) }

const (
	fnFrBlock = "signingblock.(*frostingInfo).parseFrostingBlock"
	fnFrInt   = "signingblock.(*frostingInfo).readInt32"
	fnFrItem  = "signingblock.(*frostingInfo).readArrayItem"
	fnFrSig   = "signingblock.(*frostingInfo).verifySignature"
	fnFrHash  = "signingblock.(*frostingInfo).hashFileSection"
	tFI       = "signingblock.frostingInfo."
	tFR       = "signingblock.FrostingResult."
	tSB       = "signingblock.signingBlock."
)

func checkC19(c *Check) {
	c.frostBlockRule()
	c.frostSigRule()
	c.frostHashRule()
	c.frostFileRule()
	c.frostFoundRule()
	c.frostEntryRule()
}

// advances: the effect of a function that only reads from the reader it is given: it moves forward.
func advances(x *Exec, fr *Frame, st *State, call *Term, args []*Term) {
	for _, v := range args {
		r := unwrap(v)
		k := mk("rpos", "", r)
		if _, ok := st.mem[k]; !ok {
			continue
		}
		_, p := x.readerData(st, r)
		n := mk("rposv", "", r, call)
		st.assume(mkLe(p, n))
		st.mem[k] = n
	}
}

// moves: the effect of a function that only uses the reader it is given.
func moves(x *Exec, fr *Frame, st *State, call *Term, args []*Term) {
	for _, v := range args {
		r := unwrap(v)
		k := mk("rpos", "", r)
		if _, ok := st.mem[k]; ok {
			st.mem[k] = mk("rposv", "", r, call)
			st.assume(mkLe(mkInt(0), st.mem[k]))
		}
	}
}

// effects declares boundaries with known effects: pairs of an anchor and its effect.
func (c *Check) effects(l ...any) func(x *Exec, f *ssa.Function, ps []*Term, st *State) {
	return func(x *Exec, f *ssa.Function, ps []*Term, st *State) {
		for i := 0; i < len(l); i += 2 {
			g := c.w.lookup(l[i].(string))
			if g == nil {
				fatalf("anchor %s not found in the source", l[i])
			}
			x.bound[fnName(g)] = &Boundary{Effect: l[i+1].(func(*Exec, *Frame, *State, *Term, []*Term))}
		}
	}
}

// padded is the part of data that t shows, filled up with zeros where data ends: its offset and size.
func padded(t, data *Term) (off, size *Term) {
	if t.Op == "put" && t.Args[0].Op == "zeros" && t.Args[1] == mkInt(0) {
		if off, _ = padded(t.Args[2], data); off != nil {
			return off, t.Args[0].Args[0]
		}
		return nil, nil
	}
	if t.Op == "take" {
		if off, _ = padded(t.Args[0], data); off != nil {
			return off, t.Args[1]
		}
		return nil, nil
	}
	if t.Op == "drop" && t.Args[0] == data {
		return t.Args[1], mkSub(mkLen(data), t.Args[1])
	}
	if t == data {
		return mkInt(0), mkLen(data)
	}
	return nil, nil
}

// builtin: t is a string that the program contains, or a part of one chosen by an index.
func builtin(t *Term) bool {
	switch t.Op {
	case "s":
		return true
	case "at", "ia":
		return builtin(t.Args[0])
	case "take", "drop":
		return builtin(t.Args[0])
	case "call", "res", "pcall":
		if t.Op == "res" {
			return builtin(t.Args[0])
		}
		for _, v := range t.Args {
			if !v.isConst() && v.Op != "s" {
				return false
			}
		}
		return len(t.Args) > 0 && t.Args[0].Op == "s"
	}
	return false
}

// frostBlockRule: what is reported lies in the signed region, and a built-in key signed it.
func (c *Check) frostBlockRule() {
	a := c.anOpt(fnFrBlock, c.effects(fnFrInt, advances, fnFrItem, moves), fnFrSig)
	wh := a.where()
	f, block := a.ps[0], a.ps[1]
	n := 0
	for _, r := range a.succErr(0) {
		st := r.st
		n++
		var d *Term
		for _, e := range dids(st, dn(fnFrSig)) {
			if okErr(st, callOf(e), 0) && arg(e, 0) == f {
				d = e
			}
		}
		if !c.req(d != nil, "the signature of the frosting verified", wh, "a block is accepted without a verified signature") {
			continue
		}
		c.req(builtin(arg(d, 3)), "the key is one of the built-in keys", wh, "the key is %s", short(arg(d, 3)))
		so, sn := padded(dataOf(st, arg(d, 1)), block)
		if !c.req(so != nil, "the signed data is part of the block", wh, "signed %s", short(arg(d, 1))) {
			continue
		}
		for _, fd := range []string{"fileSha256", "protobufInfo"} {
			v := a.cell(st, fieldOf(f, tFI+fd))
			o, m := padded(a.x.content(st, v, true), block)
			if !c.req(o != nil, "what is reported is part of the block", wh, "%s is %s", fd, short(v)) {
				continue
			}
			c.req(st.deep(mkLe(so, o)) && st.deep(mkLe(mkAdd(o, m), mkAdd(so, sn))), "what is reported lies in the signed region", wh, "%s may lie outside of the signed data", fd)
		}
	}
	c.req(n > 0, "a frosting block can be accepted", wh, "no accepting path")
	c.onlyReads(fnFrInt, true)
	c.onlyReads(fnFrItem, false)
}

// onlyReads: the function changes nothing of its caller but the position of the reader; with
// forward, it moves the reader forward.
func (c *Check) onlyReads(name string, forward bool) {
	f := c.w.lookup(name)
	x := newAnalysis(c.w)
	for k := range x.mods().of(f) {
		c.req(k == "buf", "reading a number or an item changes nothing else", c.pos(f)+" "+name, "it may write %s", k)
	}
	seen := map[*ssa.Function]bool{}
	n := 0
	var walk func(g *ssa.Function)
	walk = func(g *ssa.Function) {
		if seen[g] {
			return
		}
		seen[g] = true
		c.used[g] = true
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					if _, ok := in.(*ssa.TypeAssert); ok {
						c.req(!forward, "numbers are read forward", c.w.posOf(g, in.Pos())+" in "+shortFn(g), "the reader is converted")
					}
					continue
				}
				cc := call.Common()
				m := ""
				if cc.IsInvoke() {
					m = cc.Method.Name()
				} else if h := cc.StaticCallee(); h != nil {
					m = h.Name()
				}
				if m == "ReadByte" {
					n++
				}
				c.req(!forward || m != "Seek" && m != "UnreadByte" && m != "UnreadRune" && m != "Reset", "numbers are read forward", c.w.posOf(g, in.Pos())+" in "+shortFn(g), "it calls %s", m)
				for _, h := range x.mods().targets(cc) {
					if len(h.Blocks) > 0 && c.w.isRepoFunc(h) {
						walk(h)
					}
				}
			}
		}
	}
	walk(f)
	c.req(n > 0, "numbers are read byte by byte", c.pos(f)+" "+name, "no byte is read")
}

// dependsOnlyOn: no other input of the function than p shows in t.
func dependsOnlyOn(t, p *Term) bool {
	if t == p {
		return true
	}
	if t.Op == "param" || t.Op == "obj" || t.Op == "havoc" {
		return false
	}
	for _, v := range t.Args {
		if !dependsOnlyOn(v, p) {
			return false
		}
	}
	return true
}

// frostSigRule decides what a verified frosting signature means.
func (c *Check) frostSigRule() {
	a := c.an(fnFrSig)
	wh := a.where()
	f, signed, sig, key := a.ps[0], a.ps[1], a.ps[2], a.ps[3]
	n := 0
	for _, r := range a.succErr(0) {
		st := r.st
		n++
		var used *Term
		for _, t := range st.sortedFacts() {
			k, ok := frostVerified(a, st, t, signed, sig)
			if ok {
				used = k
			}
		}
		if !c.req(used != nil, "the signature verifies over the SHA-256 of the signed data", wh, "an accepting path has no successful verification") {
			continue
		}
		der := used.Args[0]
		c.req(okErr(st, used, 1) && dependsOnlyOn(der, key) && der.contains(key), "the signature is verified with the given key", wh, "the key is parsed from %s", short(der))
		for d := der; ; d = d.Args[0] {
			if d.Op == "res" && (strings.Contains(d.Args[0].Sym, ".DecodeString") || strings.Contains(d.Args[0].Sym, "ReadAll")) {
				c.req(okErr(st, d.Args[0], 1), "a key that cannot be decoded is not used", wh, "the error of %s is ignored", short(d.Args[0]))
			}
			if len(d.Args) == 0 {
				break
			}
		}
		v := a.cell(st, fieldOf(f, tFI+"usedKeySha256"))
		c.req(strings.Contains(v.String(), "encoding/hex.EncodeToString") && containsTerm(v, mk("hashsum", "sha256", der)), "the reported key is the one that was used", wh, "the reported hash is %s", short(v))
		for _, k := range []string{"fileSha256", "protobufInfo"} {
			now := a.cell(st, fieldOf(f, tFI+k))
			c.req(now == at(fieldOf(f, tFI+k)), "verifying changes nothing that is reported", wh, "%s becomes %s", k, short(now))
		}
	}
	c.req(n > 0, "a frosting signature can verify", wh, "no accepting path")
}

func containsTerm(t, s *Term) bool { return t == s || t.contains(s) }

// frostVerified: t says that the signature verifies with the key parsed by the returned call.
func frostVerified(a *An, st *State, t, signed, sig *Term) (*Term, bool) {
	if t.Op == "res" && t.Sym == "0" {
		t = t.Args[0]
	}
	name := strings.TrimSuffix(strings.SplitN(t.Sym, "@", 2)[0], "#0")
	if len(t.Args) < 3 || name != "crypto/ecdsa.Verify" && name != "crypto/ecdsa.VerifyASN1" {
		return nil, false
	}
	k := t.Args[0]
	if k.Op == "assert:*crypto/ecdsa.PublicKey" || k.Op == "assert" || strings.HasPrefix(k.Op, "assert") {
		k = k.Args[0]
	}
	if k.Op == "res" && k.Sym == "0" {
		k = k.Args[0]
	}
	if !strings.HasPrefix(k.Sym, "crypto/x509.ParsePKIXPublicKey") || len(k.Args) != 1 {
		return nil, false
	}
	if !same(st, t.Args[1], mk("hashsum", "sha256", signed)) {
		return nil, false
	}
	if name == "crypto/ecdsa.VerifyASN1" {
		return k, t.Args[2] == sig
	}
	for _, d := range dids(st, "encoding/asn1.Unmarshal") {
		if arg(d, 0) == sig && okErr(st, callOf(d), 1) && len(t.Args) == 4 && t.Args[2].Op == "at" && t.Args[3].Op == "at" && t.Args[2] != t.Args[3] &&
			t.Args[2].Args[0].Op == "fa" && t.Args[3].Args[0].Op == "fa" && strings.HasSuffix(t.Args[2].Args[0].Sym, ".R") && strings.HasSuffix(t.Args[3].Args[0].Sym, ".S") {
			return k, st.holds(mkEq(mkLen(res0(callOf(d))), mkInt(0)))
		}
	}
	return nil, false
}

// frostHashRule: exactly the given section of the file is hashed.
func (c *Check) frostHashRule() {
	a := c.anOpt(fnFrHash, func(x *Exec, f *ssa.Function, ps []*Term, st *State) {
		st.assume(mkLe(mkInt(0), ps[4]))
	})
	wh := a.where()
	h, rd, off, size := a.ps[1], a.ps[2], a.ps[3], a.ps[4]
	hk := mk("hdata", "", h)
	n := 0
	for _, r := range a.succErr(0) {
		st := r.st
		end := a.x.hashData(st, h)
		n++
		ok := false
		for _, l := range a.doneLoops(st) {
			hc, pc := l.cellFor(hk), l.cellFor(mk("fpos", "", rd))
			if hc == nil || pc == nil || end != hc.Phi {
				continue
			}
			ok = true
			lw := a.loopWhere(l)
			c.req(pc.Init == off, "the section starts where it is said to", lw, "the first byte hashed is at %s", short(pc.Init))
			c.req(hc.Init == a.x.hashData(a.x0(), h), "nothing else is hashed", lw, "before the loop, %s was hashed", short(hc.Init))
			read := mkSub(pc.Phi, off)
			for _, b := range a.backs(l, nil) {
				s := b.st.clone()
				s.assume(mkLe(read, size))
				m := mkSub(b.step(pc.Phi), pc.Phi)
				c.req(b.step(hc.Phi) == mkCat(hc.Phi, mk("fileread", "", rd, pc.Phi, m)), "what is read is hashed", lw, "a round adds %s", short(b.step(hc.Phi)))
				c.req(s.holds(mkLe(mkAdd(read, m), size)), "nothing after the section is hashed", lw, "a round may read %s", short(m))
			}
			c.req(st.holds(mkLe(size, read)), "the whole section is hashed", lw, "the loop may end before the end of the section")
		}
		c.req(ok || end == mkCat(a.x.hashData(a.x0(), h), mk("fileread", "", rd, off, size)), "the section of the file is hashed", wh, "hashed: %s", short(end))
	}
	c.req(n > 0, "a section can be hashed", wh, "no accepting path")
}

func (a *An) x0() *State { return newState() }

// frostFileRule: the file digest covers the file around the signing block.
func (c *Check) frostFileRule() {
	a := c.anOpt(fnFrostAPK, c.effects(fnFrHash, hashesSection))
	wh := a.where()
	f, rd, sb, v2, cdo, cds, eocd := a.ps[0], a.ps[1], a.ps[2], a.ps[3], a.ps[4], a.ps[5], a.ps[6]
	le := func(t *Term) *Term { return mk("encle", "32", t) }
	n := 0
	for _, r := range a.succErr(0) {
		for _, with := range []bool{false, true} {
			st := r.st.clone()
			cond := mkLe(mkInt(1), mkLen(v2))
			if !with {
				cond = mkNot(cond)
			}
			st.assume(cond)
			if st.bot {
				continue
			}
			n++
			for _, d := range dids(st, dn(fnFrHash)) {
				c.req(okErr(st, callOf(d), 0), "a section that cannot be read is an error", wh, "an error is ignored")
			}
			l := []*Term{mk("fileread", "", rd, mkInt(0), sb)}
			if with {
				l = append(l, le(mkInt(idV2)), v2)
			}
			l = append(l, mk("fileread", "", rd, cdo, cds), mk("put", "", eocd, mkInt(16), le(sb)))
			want := l[0]
			for _, t := range l[1:] {
				want = mkCat(want, t)
			}
			c.req(st.holds(mkEq(mk("hashsum", "sha256", want), at(fieldOf(f, tFI+"fileSha256")))), "the digest covers the file before the signing block, the v2 block, the central directory and the end of it", wh, "an accepting path does not compare this digest (v2 block: %v)", with)
		}
	}
	c.req(n > 1, "the digest of a file can match", wh, "no accepting path")
}

// frostFoundRule: the reported frosting is the one that is verified, and finding it changes nothing else.
func (c *Check) frostFoundRule() {
	a := c.anOpt(fnFind, func(x *Exec, f *ssa.Function, ps []*Term, st *State) {
		x.maxStates = 600
		st.assume(nonNilT(ps[2]))
	}, fnFindEocd, fnZip64, fnFindBlock, fnFrBlock)
	wh := a.where()
	resP := a.ps[2]
	frA := fieldOf(resP, resType+".Frosting")
	n := 0
	for _, l := range a.sortedLoops() {
		lw := a.loopWhere(l)
		fc := l.cellFor(frA)
		if fc == nil {
			continue
		}
		// the cell of the result: the one that some return gives back
		var rc *LoopCell
		for _, r := range a.rets {
			if k := l.cellPhi(r.vals[1]); k != nil {
				rc = k
			}
		}
		if !c.req(rc != nil, "the frosting that was found is returned", lw, "the result is not carried by the loop") {
			continue
		}
		c.req(rc.Init == tNil, "nothing is found before the blocks are read", lw, "initial value %s", short(rc.Init))
		for _, b := range a.backs(l, nil) {
			c.req(a.frostKept(b.st, resP), "reading a frosting block does not change the verdict", lw, "errors change")
			ds := dids(b.st, dn(fnFrBlock))
			fr, found := b.step(fc.Phi), b.step(rc.Phi)
			if len(ds) == 0 {
				c.req(fr == fc.Phi && found == rc.Phi, "only a frosting block is reported as frosting", lw, "the frosting becomes %s", short(fr))
				continue
			}
			n++
			c.frostReported(a, b.st, ds, fr, found, lw)
		}
	}
	c.req(n > 1, "frosting can be found", wh, "no loop parses a frosting block")
	for _, r := range a.rets {
		c.req(a.frostKept(r.st, resP), "reading a frosting block does not change the verdict", wh, "errors change")
		ds := dids(r.st, dn(fnFrBlock))
		if len(ds) == 0 {
			continue
		}
		c.req(r.st.holds(mkEq(r.vals[2], tNil)), "a frosting block is never a reason not to verify the file", wh, "error %s is returned after parsing one", short(r.vals[2]))
	}
}

func (a *An) frostKept(st *State, resP *Term) bool {
	e := fieldOf(resP, errField)
	v, ok := st.mem[e]
	return !ok || v == at(e) || v.Op == "phi" && a.neverGrows(e)
}

// neverGrows: no loop changes the cell.
func (a *An) neverGrows(e *Term) bool {
	for _, l := range a.sortedLoops() {
		if k := l.cellFor(e); k != nil {
			for _, b := range a.backs(l, nil) {
				if b.step(k.Phi) != k.Phi {
					return false
				}
			}
		}
	}
	return true
}

// frostReported: the result fr tells about the block parsed into found.
func (c *Check) frostReported(a *An, st *State, ds []*Term, fr, found *Term, wh string) {
	if !c.req(len(ds) == 1, "a frosting block is parsed once", wh, "%d calls", len(ds)) {
		return
	}
	call := callOf(ds[0])
	ev := a.callEvent(call)
	if ev == nil {
		return
	}
	f := ev.Raw[0]
	e := a.cell(st, fieldOf(fr, tFR+"Error"))
	c.req(e == res0(call), "the reported error is the one of the block", wh, "reported: %s", short(e))
	key, info := a.cell(st, fieldOf(fr, tFR+"KeySha256")), a.cell(st, fieldOf(fr, tFR+"ProtobufInfo"))
	c.req(key == a.cell(st, fieldOf(f, tFI+"usedKeySha256")) && after(key, call), "the reported key is the one of the block", wh, "reported: %s", short(key))
	c.req(info == a.cell(st, fieldOf(f, tFI+"protobufInfo")) && after(info, call), "the reported metadata is the one of the block", wh, "reported: %s", short(info))
	d := a.cell(st, fieldOf(f, tFI+"fileSha256"))
	c.req(after(d, call), "the digest of the block is kept", wh, "digest %s", short(d))
	s := st.clone()
	s.assume(mkEq(e, tNil))
	c.req(s.bot || found == f, "a frosting without error goes on to be compared with the file", wh, "the frosting to compare is %s", short(found))
}

// frostEntryRule: the frosting is compared with this file, and never decides.
func (c *Check) frostEntryRule() {
	a := c.an(fnEntry, fnNewBlock, fnFind, fnFrostAPK, fnPick, fnStamp)
	wh := a.where()
	n := 0
	for _, r := range a.rets {
		st := r.st
		fs := dids(st, dn(fnFind))
		if len(fs) != 1 {
			continue
		}
		find := callOf(fs[0])
		s, rd := arg(fs[0], 0), a.ps[0]
		resP := r.vals[0]
		frA := fieldOf(resP, resType+".Frosting")
		fr := a.cell(st, frA)
		c.req(after(fr, find), "the frosting that was found is reported", wh, "reported: %s", short(fr))
		e := a.cell(st, fieldOf(fr, tFR+"Error"))
		vs := dids(st, dn(fnFrostAPK))
		switch {
		case len(vs) == 0:
			c.req(after(e, find) || e == at(fieldOf(fr, tFR+"Error")), "the error of the frosting block is reported", wh, "reported: %s", short(e))
			t := st.clone()
			t.assume(nonNilT(res(find, 1)))
			t.assume(mkEq(e, tNil))
			c.req(t.bot, "a frosting without error has been compared with the file", wh, "a path does not compare it")
		default:
			n++
			v := vs[len(vs)-1]
			c.req(e == res0(callOf(v)), "a frosting that does not match the file is an error", wh, "reported: %s", short(e))
			blocks := func(m *Term) bool {
				return m.Op == "look" && m.Args[1] == mkInt(idV2)
			}
			c.req(arg(v, 0) == res(find, 1) && (arg(v, 1) == rd || arg(v, 1).Op == "at" && arg(v, 1).Args[0] == fieldOf(s, tSB+"file")), "the frosting that was found is compared with this file", wh, "arguments %s", short(v))
			for i, fd := range map[int]string{2: "sigBlockOffset", 4: "centralDirOffset", 5: "centralDirSize", 6: "eocd"} {
				t := arg(v, i)
				c.req(after(t, find) && t.Args[0] == fieldOf(s, tSB+fd), "the parts of the file are the ones found", wh, "%s is %s", fd, short(t))
			}
			c.req(blocks(arg(v, 3)), "the v2 block belongs to the digest", wh, "the block is %s", short(arg(v, 3)))
		}
		for _, x := range []*Term{r.vals[1], r.vals[2], a.cell(st, fieldOf(resP, errField)), a.cell(st, fieldOf(resP, resType+".Certs")), a.cell(st, fieldOf(resP, resType+".SchemeId"))} {
			for _, v := range vs {
				c.req(!x.contains(callOf(v)), "frosting does not show in the verdict", wh, "%s depends on it", short(x))
			}
		}
	}
	c.req(n > 0, "frosting is compared with the file", wh, "no path compares it")
	nb := c.an(fnNewBlock)
	for _, r := range nb.succErr(2) {
		v := nb.cell(r.st, fieldOf(r.vals[0], tSB+"file"))
		c.req(v == nb.ps[0], "the signing block belongs to the given file", nb.where(), "its file is %s", short(v))
	}
	for _, f := range c.w.Funcs {
		c.req(!a.x.mods().of(f)["f:"+tSB+"file"], "the file of a signing block stays the same", c.pos(f), "%s sets it", shortFn(f))
	}
	// what can happen does not depend on the frosting
	outcomes := map[string]map[string]bool{}
	for _, r := range a.rets {
		st := r.st
		fs := dids(st, dn(fnFind))
		if len(fs) != 1 {
			continue
		}
		find := callOf(fs[0])
		e := a.cell(st, fieldOf(a.cell(st, fieldOf(r.vals[0], resType+".Frosting")), tFR+"Error"))
		for k, f := range map[string][]*Term{
			"no frosting":      {mkEq(res(find, 1), tNil)},
			"valid frosting":   {nonNilT(res(find, 1)), mkEq(e, tNil)},
			"invalid frosting": {nonNilT(res(find, 1)), nonNilT(e)},
		} {
			for _, found := range []bool{false, true} {
				t := st.clone()
				for _, x := range f {
					t.assume(x)
				}
				if found {
					t.assume(mkEq(res(find, 2), tNil))
				} else {
					t.assume(nonNilT(res(find, 2)))
				}
				if t.bot {
					continue
				}
				picks := 0
				for range dids(t, dn(fnPick)) {
					picks++
				}
				stamps := len(dids(t, dn(fnStamp)))
				v := r.vals[2]
				kind := v.Op + ":" + v.Sym
				if t.holds(mkEq(v, tNil)) {
					kind = "nil"
				} else if d := dynType(v); d != nil && d.Op == "s" {
					kind = d.Sym
				}
				if outcomes[k] == nil {
					outcomes[k] = map[string]bool{}
				}
				outcomes[k][fmt.Sprintf("block found: %v, %d verifications, %d stamps, error %s", found, picks, stamps, kind)] = true
			}
		}
	}
	for k, m := range outcomes {
		for j, o := range outcomes {
			for x := range m {
				c.req(o[x], "the same can happen with and without frosting", wh, "%s is possible with %s, not with %s", x, k, j)
			}
		}
	}
	c.req(len(outcomes) == 3, "frosting can be missing, valid or invalid", wh, "%d of these happen", len(outcomes))
}

// hashesSection: the effect of hashing a section of the file (see frostSection).
func hashesSection(x *Exec, fr *Frame, st *State, call *Term, args []*Term) {
	h := unwrap(args[1])
	st.mem[mk("hdata", "", h)] = mkCat(x.hashData(st, h), mk("fileread", "", unwrap(args[2]), args[3], args[4]))
}
