package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks = append(checks,
		checkDef{"C09", checkC09, 20},
		checkDef{"C10", checkC10, 20},
		checkDef{"C12", checkC12, 20},
	)
}

const (
	fnVerify   = "apkverifier.VerifyWithSdkVersionReader"
	fnV1       = "apkverifier.verifySchemeV1"
	fnManifest = "apkverifier.getManifestInfo"
	fnEncode   = "apkverifier.(*sandboxVersionEncoder).EncodeToken"
	tEncoder   = "apkverifier.sandboxVersionEncoder."
	tNotFound  = "*signingblock.signingBlockNotFoundError"
	apkparser  = "github.com/avast/apkparser"
)

// dynIs: the dynamic type of the interface value is the named one.
func dynIs(st *State, v *Term, typ string) bool { return st.holds(mkEq(dynType(v), mkStr(typ))) }

func dynType(v *Term) *Term {
	if v.Op == "iface" {
		return mkStr(v.Sym)
	}
	return mk("dyntype", "", v)
}

func (c *Check) verdict() *An {
	key := fnVerify + "|verdict"
	if a, ok := c.ans[key]; ok {
		return a
	}
	a := c.anOpt(fnVerify, func(x *Exec, f *ssa.Function, ps []*Term, st *State) { x.maxStates = 1500 }, fnEntry, fnV1, fnManifest)
	c.ans[key] = a
	return a
}

// verdictRule decides the function that combines the signing block and the v1 signature.
func (c *Check) verdictRule() {
	a := c.verdict()
	wh := a.where()
	r, zipArg, min, max := a.ps[0], a.ps[1], a.ps[2], a.ps[3]
	anyMin := mkInt(-1)
	modes := map[string]bool{}
	for _, ret := range a.succErr(1) {
		st := ret.st
		sbs := dids(st, fnEntry)
		if !c.req(len(sbs) == 1, "the signing block is verified before success", wh, "%d verifications of the signing block on an accepting path", len(sbs)) {
			continue
		}
		sb := callOf(sbs[0])
		E := res(sb, 2)
		zip := arg(sbs[0], 3)
		min1, max1 := arg(sbs[0], 1), arg(sbs[0], 2)
		c.req(arg(sbs[0], 0) == r, "the signing block of the given file is verified", wh, "file %s", short(arg(sbs[0], 0)))
		okZip := zip == zipArg && st.holds(nonNilT(zipArg))
		for _, d := range dids(st, apkparser+".OpenZipReader") {
			okZip = okZip || arg(d, 0) == r && zip == res0(callOf(d)) && okErr(st, callOf(d), 1)
		}
		c.req(okZip, "the ZIP file that is verified is the given one or the file itself", wh, "ZIP reader %s", short(zip))
		c.req(max1 == max, "the maximum SDK version is the requested one", wh, "maximum %s", short(max1))
		// the minimum
		mans := dids(st, fnManifest)
		var man *Term
		for _, d := range mans {
			if arg(d, 0) == zip {
				man = callOf(d)
			}
		}
		okMin := min1 == min
		if man != nil && min1 == res(man, 0) {
			okMin = st.holds(mkEq(min, anyMin)) && okErr(st, man, 3)
		}
		c.req(okMin, "the minimum SDK version is the requested one or the manifest's", wh, "minimum %s", short(min1))
		if min1 == min {
			s := st.clone()
			s.assume(mkEq(min, anyMin))
			c.req(s.bot || man != nil && s.holds(nonNilT(res(man, 3))), "without a requested minimum the manifest's is used", wh, "the minimum SDK version of the manifest is not used")
		}
		c.req(st.holds(mkLe(min1, max)), "an invalid SDK range is rejected", wh, "success without checking the range")
		// the signing block's error
		c.req(st.holds(mkEq(E, tNil)) || dynIs(st, E, tNotFound), "an invalid signing block is rejected", wh, "success although the signing block's error may be set")
		vs := dids(st, fnV1)
		var v1 *Term
		for _, d := range vs {
			if okErr(st, callOf(d), 1) && arg(d, 0) == zip && arg(d, 2) == min1 && arg(d, 3) == max {
				v1 = d
			}
		}
		if v1 == nil {
			modes["block"] = true
			c.req(st.holds(mkEq(E, tNil)) && st.holds(mkLe(mkInt(24), min1)), "v1 is only skipped if the signing block verified and Android 7 is the minimum", wh, "success without a verified v1 signature")
			c.req(len(vs) == 0, "a v1 signature that is verified counts", wh, "the v1 verdict for other arguments or with an error is ignored")
			continue
		}
		modes["v1"] = true
		flag := st.clone()
		flag.assume(mkEq(mkEq(E, tNil), arg(v1, 1)))
		c.req(arg(v1, 1) == mkEq(E, tNil) || st.eval(mkEq(E, tNil)) != 0 && st.eval(mkEq(E, tNil)) == st.eval(arg(v1, 1)), "v1 is verified knowing whether the signing block is valid", wh, "flag %s", short(arg(v1, 1)))
		if !st.holds(mkLe(max, mkInt(25))) { // a manifest is read whenever the range includes Android 8
			if c.req(man != nil, "the manifest is read where its sandbox version counts", wh, "the manifest is not read") {
				scheme := a.cell(st, fieldOf(ret.vals[0], "apkverifier.Result.SigningSchemeId"))
				if v := c.structField(ret.vals[0], "SigningSchemeId"); v != nil {
					scheme = v
				}
				s := st.clone()
				s.assume(mkEq(res(man, 3), tNil))
				t := s.clone()
				s.assume(mkLe(mkInt(26), max))
				s.assume(mkLe(mkInt(2), res(man, 2)))
				u := s.clone()
				u.assume(nonNilT(E))
				c.req(u.bot, "a sandbox version that needs a signing block is rejected without one", wh, "success with sandbox version 2 and no valid signing block")
				s.assume(mkLe(scheme, mkInt(1)))
				c.req(s.bot, "a sandbox version that needs a newer scheme is rejected with v1", wh, "success with sandbox version 2 and scheme 1")
				t.assume(mkLe(mkInt(30), res(man, 1)))
				t.assume(mkLe(res(man, 1), max))
				t.assume(mkLe(scheme, mkInt(1)))
				c.req(t.bot, "a target SDK version that needs a newer scheme is rejected with v1", wh, "success with target SDK version 30 and scheme 1")
				m := st.clone()
				m.assume(nonNilT(res(man, 3)))
				m.assume(mkNot(mkEq(scheme, mkInt(1))))
				m.assume(mkLe(mkInt(1), scheme)) // pickRule
				c.req(m.bot, "a manifest that cannot be read is an error beside a signing block", wh, "success although the manifest could not be read")
			}
		}
		d := st.clone()
		d.assume(mkEq(res(sb, 1), mkInt(0x0a786564)))
		c.req(d.bot, "a file that is also a DEX file is rejected when v1 is used", wh, "success for a file starting with the DEX magic")
	}
	c.req(modes["block"] && modes["v1"], "both kinds of verification can succeed", wh, "modes %v", modes)
	c.wrappers()
}

// reported decides what the verification reports.
func (c *Check) reportedRule() {
	a := c.verdict()
	wh := a.where()
	for _, ret := range a.succErr(1) {
		st := ret.st
		sbs := dids(st, fnEntry)
		if len(sbs) != 1 {
			continue // decided by verdictRule
		}
		sb := callOf(sbs[0])
		blk := res(sb, 0)
		st = st.clone()
		if st.holds(mkEq(res(sb, 2), tNil)) {
			st.assume(nonNilT(blk)) // entryRule
		}
		if st.bot {
			continue
		}
		scheme := c.structField(ret.vals[0], "SigningSchemeId")
		certs := c.structField(ret.vals[0], "SignerCerts")
		br := c.structField(ret.vals[0], "SigningBlockResult")
		if !c.req(scheme != nil && certs != nil && br != nil, "the result can be read", wh, "result %s", short(ret.vals[0])) {
			continue
		}
		c.req(br == blk || br == tNil && st.holds(mkEq(blk, tNil)), "the signing block's result is reported", wh, "result %s", short(br))
		used := st.holds(mkEq(res(sb, 2), tNil)) && st.holds(nonNilT(blk))
		fromBlock := after(certs, sb) && fieldName(certs) == resType+".Certs"
		if used {
			c.req(after(scheme, sb) && fieldName(scheme) == resType+".SchemeId", "the reported scheme is the one that verified", wh, "scheme %s", short(scheme))
		} else if dynIs(st, res(sb, 2), tNotFound) {
			c.req(scheme == mkInt(1), "without a signing block scheme 1 is reported", wh, "scheme %s", short(scheme))
		}
		ok := fromBlock && used
		for _, d := range dids(st, fnV1) {
			v1 := callOf(d)
			if certs == res(v1, 0) {
				ok = okErr(st, v1, 1) && (!used || st.holds(mkEq(mkLen(blockCerts(st, sb)), mkInt(0))))
			}
		}
		c.req(ok, "the reported certificates are those of the signatures that verified", wh, "certificates %s", short(certs))
	}
}

func blockCerts(st *State, sb *Term) *Term {
	return at2(fieldOf(res(sb, 0), resType+".Certs"), sb)
}

// wrappers: the other entry points pass the verdict on.
func (c *Check) wrappers() {
	for _, w := range []struct {
		fn, to   string
		err      int
		min, max bool
	}{
		{"apkverifier.Verify", fnVerify, 1, false, false},
		{"apkverifier.VerifyReader", fnVerify, 1, false, false},
		{"apkverifier.VerifyWithSdkVersion", fnVerify, 1, true, true},
		{"signingblock.VerifySigningBlock", fnEntry, 2, true, true},
		{"signingblock.VerifySigningBlockReader", fnEntry, 2, true, true},
	} {
		a := c.an(w.fn, w.to)
		for _, r := range a.succErr(w.err) {
			ok := false
			for _, d := range dids(r.st, w.to) {
				call := callOf(d)
				mi, ma := mkInt(-1), mkInt(2147483647)
				zi, ni, xi := 1, 2, 3
				if w.to == fnEntry {
					zi, ni, xi = 3, 1, 2
				}
				var zip *Term = tNil
				for i, p := range a.f.Params {
					switch {
					case p.Name() == "minSdkVersion" || w.min && i == len(a.f.Params)-2:
						mi = a.ps[i]
					case p.Name() == "maxSdkVersion" || w.max && i == len(a.f.Params)-1:
						ma = a.ps[i]
					case strings.HasSuffix(p.Type().String(), "apkparser.ZipReader"):
						zip = a.ps[i]
					}
				}
				src := arg(d, 0)
				okSrc := src == a.ps[0]
				for _, o := range dids(r.st, "os.Open") {
					if src.contains(res0(callOf(o))) && okErr(r.st, callOf(o), 1) && arg(o, 0) == a.ps[0] {
						okSrc = true
					}
				}
				ok = ok || okErr(r.st, call, w.err) && okSrc && arg(d, ni) == mi && arg(d, xi) == ma && arg(d, zi) == zip && c.isValue(r.vals[0], res(call, 0))
			}
			c.req(ok, "the verdict is passed on unchanged", a.where(), "success without a successful %s of the same file and range", w.to)
		}
		c.req(len(a.succErr(w.err)) > 0, "verification can succeed", a.where(), "no accepting path")
	}
}

// isValue: v is the value x, possibly put together of all its fields.
func (c *Check) isValue(v, x *Term) bool {
	if v == x {
		return true
	}
	if v.Op != "struct" {
		return false
	}
	t := c.w.typeByName(v.Sym)
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok || s.NumFields() != len(v.Args) {
		return false
	}
	for i, f := range v.Args {
		if f != fieldVal(x, fieldSym(t, i)) {
			return false
		}
	}
	return true
}

// manifestRule decides where the manifest's values come from.
func (c *Check) manifestRule() {
	a := c.an(fnManifest)
	wh := a.where()
	file := look(content(at(fieldOf(a.ps[0], apkparser+".ZipReader.File"))), mkStr("AndroidManifest.xml"))
	n := 0
	for _, r := range a.succErr(3) {
		st := r.st
		if st.holds(mkEq(file, tNil)) {
			c.req(r.vals[0] == mkInt(1) && r.vals[1] == mkInt(0) && r.vals[2] == mkInt(1), "a file without a manifest has the default values", wh, "values %s, %s, %s", short(r.vals[0]), short(r.vals[1]), short(r.vals[2]))
			continue
		}
		ok, none := false, false
		for _, d := range dids(st, apkparser+".ParseXml") {
			call := callOf(d)
			if !okErr(st, call, 0) || !arg(d, 0).contains(file) {
				continue
			}
			if !describes(arg(d, 1), "apkverifier.sandboxVersionEncoder", mkInt(1), mkInt(0), mkInt(1)) {
				continue
			}
			n++
			ok = true
			for i, f := range []string{"minSdkVersion", "targetSdkVersion", "sandboxVersion"} {
				ok = ok && r.vals[i].Op == "at" && after(r.vals[i], call) && fieldName(r.vals[i]) == tEncoder+f
			}
		}
		for _, d := range dids(st, "(*"+apkparser+".ZipReaderFile).Next") {
			none = none || st.holds(mkNot(res0(callOf(d))))
		}
		c.req(ok || none, "the values of the manifest are those parsed without an error", wh, "values %s, %s, %s", short(r.vals[0]), short(r.vals[1]), short(r.vals[2]))
	}
	c.req(n > 0, "the manifest is parsed", wh, "no successful path parses it")
	// the parser's callback
	e := c.an(fnEncode)
	wh = e.where()
	start := mk("assert", "encoding/xml.StartElement", e.ps[1])
	name := fieldVal(fieldVal(start, "encoding/xml.StartElement.Name"), "encoding/xml.Name.Local")
	attrs := fieldVal(start, "encoding/xml.StartElement.Attr")
	seen := 0
	for _, r := range e.rets {
		if !r.st.holds(mkEq(r.vals[0], tNil)) && !(extError(r.vals[0]) && strings.HasSuffix(r.vals[0].Args[0].Sym, ".ErrEndParsing")) {
			continue
		}
		for _, w := range []struct{ el, attr, field string }{
			{"manifest", "targetSandboxVersion", "sandboxVersion"},
			{"uses-sdk", "minSdkVersion", "minSdkVersion"},
			{"uses-sdk", "targetSdkVersion", "targetSdkVersion"},
		} {
			st := r.st.clone()
			st.assume(mkEq(mk("dyntype", "", e.ps[1]), mkStr("encoding/xml.StartElement")))
			st.assume(mkEq(name, mkStr(w.el)))
			if st.bot {
				continue
			}
			seen++
			addr := fieldOf(e.ps[0], tEncoder+w.field)
			v := e.cell(st, addr)
			if v == at(addr) {
				// no attribute of that name
				ok := false
				for _, it := range e.listIters(st, attrs, nil) {
					good := true
					for _, b := range it.backs {
						s := b.st.clone()
						s.assume(mkEq(attrName(it.elem), mkStr(w.attr)))
						good = good && s.bot
					}
					ok = ok || good
				}
				c.req(ok, "an attribute of the manifest that matters is not overlooked", wh, "%s of <%s> can be missed", w.attr, w.el)
				continue
			}
			ok := false
			for _, t := range libCalls(st, "strconv.ParseInt", attrs) {
				if v == mk("conv", "int32", res(t, 0)) && okErr(st, t, 1) && t.Args[1] == mkInt(10) && t.Args[2] == mkInt(32) && t.Args[0].Op == "at" {
					x := t.Args[0].Args[0]
					ok = ok || x.Op == "fa" && x.Sym == "encoding/xml.Attr.Value" && x.Args[0].Op == "ia" && x.Args[0].Args[0] == attrs &&
						st.holds(mkEq(attrName(at(x.Args[0])), mkStr(w.attr)))
				}
			}
			c.req(ok, "the value of a manifest attribute is the number it spells", wh, "%s becomes %s", w.field, short(v))
		}
	}
	c.req(seen > 0, "attributes of the manifest are read", wh, "no path handles an element")
}

// attrName: the local name of an attribute in a list.
func attrName(el *Term) *Term {
	if el.Op == "at" && len(el.Args) == 1 {
		return at(fieldOf(fieldOf(el.Args[0], "encoding/xml.Attr.Name"), "encoding/xml.Name.Local"))
	}
	return fieldVal(fieldVal(el, "encoding/xml.Attr.Name"), "encoding/xml.Name.Local")
}

func fieldVal(v *Term, f string) *Term { return mk("field", f, v) }

// notFoundRule: errors that say that there is no signing block are only made of a failed search or
// of the absence of a block that can be used.
func (c *Check) notFoundRule() {
	a := c.an(fnEntry, fnNewBlock, fnFind, fnFrostAPK, fnPick, fnStamp)
	wh := a.where()
	for _, r := range a.rets {
		e := r.vals[2]
		if !strings.HasPrefix(dynType(e).Sym, tNotFound) && dynType(e) != mkStr(tNotFound) {
			continue
		}
		ok := false
		for _, d := range dids(r.st, dn(fnFind)) {
			ok = ok || r.st.holds(nonNilT(res(callOf(d), 2)))
		}
		c.req(ok, "a signing block counts as not found only if the search failed", wh, "the error is made on another path")
	}
	// a failed search is never anything else
	for _, r := range a.rets {
		for _, d := range dids(r.st, dn(fnFind)) {
			if !r.st.holds(nonNilT(res(callOf(d), 2))) {
				continue
			}
			c.req(dynType(r.vals[2]) == mkStr(tNotFound), "a file without a valid signing block is reported as such", wh, "error %s", short(r.vals[2]))
		}
	}
	n := 0
	for _, f := range c.w.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				al, ok := in.(*ssa.Alloc)
				if !ok || typeName(deref(al.Type())) != tNotFound[1:] {
					continue
				}
				n++
				allowed := false
				for _, x := range []string{fnEntry, fnPick, "signingblock.ExtractCertsReader"} {
					if g := c.w.lookup(x); g != nil && (f == g || c.reachOnlyFrom(f, g)) {
						allowed = true
					}
				}
				c.req(allowed, "only the search for a block reports its absence", c.w.posOf(f, in.Pos())+" in "+shortFn(f), "another function makes an error that counts as no signing block")
			}
		}
	}
	c.req(n > 0, "the absence of a block is reported", wh, "no such error is made")
}

// reachOnlyFrom: f is only called by g or by functions only called by g.
func (c *Check) reachOnlyFrom(f, g *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var ok func(h *ssa.Function) bool
	ok = func(h *ssa.Function) bool {
		if h == g {
			return true
		}
		if seen[h] {
			return true
		}
		seen[h] = true
		n := 0
		for _, k := range c.w.Funcs {
			for _, b := range k.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if *op == h {
							n++
							if !ok(k) && !c.allowedFinder(k) {
								return false
							}
						}
					}
				}
			}
		}
		return n > 0
	}
	return ok(f)
}

func (c *Check) allowedFinder(f *ssa.Function) bool {
	for _, x := range []string{fnEntry, fnPick, "signingblock.ExtractCertsReader"} {
		if c.w.lookup(x) == f {
			return true
		}
	}
	return false
}

// pickErrors: what pickAndVerify reports when no block can be used.
func (c *Check) pickErrors() {
	b := []string{fnIntegrity}
	for _, id := range []int64{2, 3, 31} {
		b = append(b, parseName(id), finalName(id))
	}
	a := c.an(fnPick, b...)
	wh := a.where()
	blocks, max, resP := a.ps[1], a.ps[3], a.ps[4]
	n := 0
	for _, r := range a.rets {
		st := r.st
		parsed := false
		for k := range blockOf {
			parsed = parsed || len(dids(st, dn(parseName(k)))) > 0
		}
		now, entry := a.errsAt(st, resP)
		s := st.clone()
		for _, id := range []int64{2, 3, 31} {
			s.assume(mkEq(look(content(blocks), mkInt(blockOf[id])), tNil))
		}
		s.assume(mkLe(mkInt(24), max))
		if s.bot {
			continue
		}
		n++
		c.req(!parsed, "without a block nothing is verified", wh, "a scheme is parsed without a block")
		last := now
		ok := last.Op == "app" && last.Args[0] == entry && last.Args[1].Op == "list" && len(last.Args[1].Args) == 1 && dynType(last.Args[1].Args[0]) == mkStr(tNotFound)
		c.req(ok, "without a block the signing block counts as not found", wh, "errors become %s", short(now))
		c.req(a.cell(s, fieldOf(resP, resType+".SchemeId")) == mkInt(1), "without a block scheme 1 is reported", wh, "scheme %s", short(a.cell(s, fieldOf(resP, resType+".SchemeId"))))
	}
	c.req(n > 0, "the absence of all blocks is handled", wh, "no path")
	// and only then
	for _, r := range a.rets {
		now, _ := a.errsAt(r.st, resP)
		bad := false
		now.walk(func(t *Term) bool {
			bad = bad || t.Op == "iface" && t.Sym == tNotFound
			return true
		})
		if !bad {
			continue
		}
		for _, id := range []int64{2, 3, 31} {
			c.req(r.st.holds(mkEq(look(content(blocks), mkInt(blockOf[id])), tNil)), "a block that is present is used", wh, "the absence of a block is reported although block %d may be present", id)
		}
	}
}

func checkC09(c *Check) {
	c.signerLoops()
	c.errorGates()
	c.bothJudged()
	c.notFoundRule()
	c.pickErrors()
	c.verdictRule()
}

func checkC10(c *Check) {
	c.signerLoops()
	c.notFoundRule()
	c.pickErrors()
	c.reportedRule()
	c.collectRule()
}

func checkC12(c *Check) {
	c.verdictRule()
	c.reportedRule()
	c.manifestRule()
	c.notFoundRule()
	c.entryRule()
}

// cursor is the position of a loop in the bytes it consumes.
type cursor struct {
	phi  *Term
	rem  *Term                // the bytes not yet consumed at the head of the loop
	left func(st *Term) *Term // the bytes not yet consumed for another value of the cell
	end  *Term                // all bytes are consumed
}

// cursors finds the cells of a loop that consume the bytes data through a reader, a buffer or a slice.
func (a *An) cursors(l *LoopRec, data *Term) []cursor {
	var out []cursor
	for _, k := range l.Cells {
		switch {
		case k.Addr != nil && k.Addr.Op == "rpos" && k.Init == mkInt(0):
			d := l.Header.mem[mk("rdata", "", k.Addr.Args[0])]
			if d == nil {
				d, _ = a.x.get(l.Header, mk("rdata", "", k.Addr.Args[0]))
			}
			if d != data {
				continue
			}
			out = append(out, cursor{k.Phi, mkDrop(data, k.Phi), func(v *Term) *Term { return mkDrop(data, v) }, mkLe(mkLen(data), k.Phi)})
		case k.Init == data:
			out = append(out, cursor{k.Phi, k.Phi, func(v *Term) *Term { return v }, mkEq(mkLen(k.Phi), mkInt(0))})
		}
	}
	return out
}

const fnFindEocd = "signingblock.(*signingBlock).findEocd"
const fnZip64 = "signingblock.(*signingBlock).isZip64"
const fnFindBlock = "signingblock.(*signingBlock).findApkSigningBlock"
const fnFrostParse = "signingblock.(*frostingInfo).parse"

// supportedSince is the SDK level from which on Android knows the block.
var supportedSince = []struct{ id, sdk int64 }{{idV2, 24}, {idV3, 28}, {idV31, 33}, {idStamp, 0}}

// collectRule decides how the entries of the signing block are found.
func (c *Check) collectRule() {
	a := c.anOpt(fnFind, func(x *Exec, f *ssa.Function, ps []*Term, st *State) {
		x.maxStates = 600
		st.assume(nonNilT(ps[2]))
	}, fnFindEocd, fnZip64, fnFindBlock, fnFrostParse)
	wh := a.where()
	s, max, resP := a.ps[0], a.ps[1], a.ps[2]
	extraA := fieldOf(resP, resType+".ExtraBlocks")
	n := 0
	for _, r := range a.succErr(2) {
		st := r.st
		eo, z64, fb := dids(st, dn(fnFindEocd)), dids(st, dn(fnZip64)), dids(st, dn(fnFindBlock))
		if !c.req(len(eo) == 1 && len(z64) == 1 && len(fb) == 1, "the end of the ZIP file and the signing block are found first", wh, "blocks are returned without the searches") {
			continue
		}
		c.req(okErr(st, callOf(eo[0]), 0) && arg(eo[0], 0) == s, "a file without an end-of-central-directory record is rejected", wh, "blocks are returned although it was not found")
		c.req(st.holds(mkNot(res0(callOf(z64[0])))) && arg(z64[0], 0) == s, "a ZIP64 file is rejected", wh, "blocks of a ZIP64 file are returned")
		c.req(okErr(st, callOf(fb[0]), 2) && arg(fb[0], 0) == s, "a file without a signing block is rejected", wh, "blocks are returned although none was found")
		c.req(a.cell(st, fieldOf(s, "signingblock.signingBlock.sigBlockOffset")) == res(callOf(fb[0]), 1), "the position of the signing block is recorded", wh, "offset %s", short(a.cell(st, fieldOf(s, "signingblock.signingBlock.sigBlockOffset"))))
		blk := res0(callOf(fb[0]))
		sect := subseq(blk, mkInt(8), mkAdd(mkLen(blk), mkInt(-24)))
		done := false
		for _, l := range a.doneLoops(st) {
			for _, cu := range a.cursors(l, sect) {
				mc := l.cellFor(r.vals[0])
				xc := l.cellFor(extraA)
				if mc == nil || xc == nil || mc.Init.Op != "mapnew" {
					continue
				}
				done = true
				n++
				c.req(st.holds(cu.end), "every entry of the signing block is read", a.loopWhere(l), "the loop can end with entries left")
				c.req(a.cell(st, r.vals[0]) == mc.Phi, "the blocks that were found are returned", wh, "blocks %s", short(a.cell(st, r.vals[0])))
				c.collectLoop(a, l, cu, r.vals[0], mc, xc, max)
			}
		}
		c.req(done, "the entries of the signing block are read one by one", wh, "no loop reads the section between the two sizes and collects blocks")
	}
	c.req(n > 0, "blocks can be found", wh, "no accepting path")
	c.entryErrors(a)
}

// entryErrors: reading the entries fails only for an entry that does not fit the block.
func (c *Check) entryErrors(a *An) {
	n := 0
	for _, r := range a.rets {
		fb := dids(r.st, dn(fnFindBlock))
		if len(fb) != 1 {
			continue
		}
		blk := res0(callOf(fb[0]))
		for _, l := range a.sortedLoops() {
			for _, cu := range a.cursors(l, subseq(blk, mkInt(8), mkAdd(mkLen(blk), mkInt(-24)))) {
				st := r.st.clone()
				inside := false
				for f := range st.facts {
					inside = inside || f.contains(cu.phi)
				}
				if !inside {
					continue
				}
				st.assume(nonNilT(r.vals[2]))
				elen := mkLE(8, "int64", take(cu.rem, 8))
				for _, f := range []*Term{mkLe(mkInt(12), mkLen(cu.rem)), mkLe(mkInt(4), elen), mkLe(elen, mkInt(1<<31-1)), mkLe(mkAdd(elen, mkInt(8)), mkLen(cu.rem))} {
					st.assume(f)
				}
				n++
				c.req(st.bot, "a signing block fails only for an entry that does not fit", a.loopWhere(l), "an entry that fits leads to the error %s", short(r.vals[2]))
			}
		}
	}
	c.req(n > 0, "malformed entries are errors", a.where(), "no failing path inside a loop")
}

func (c *Check) collectLoop(a *An, l *LoopRec, cu cursor, blocks *Term, mc, xc *LoopCell, max *Term) {
	wh := a.loopWhere(l)
	elen := mkLE(8, "int64", take(cu.rem, 8))
	id := le32u(drop(cu.rem, 8))
	data := mkTake(drop(cu.rem, 12), mkAdd(elen, mkInt(-4)))
	n := 0
	for _, b := range a.backs(l, nil) {
		st := b.st
		n++
		okNext := same(st, mkLen(cu.left(b.step(cu.phi))), mkSub(mkLen(cu.rem), mkAdd(elen, mkInt(8)))) ||
			b.step(cu.phi) == mkAdd(cu.phi, mkAdd(elen, mkInt(8))) || b.step(cu.phi) == mkDrop(cu.phi, mkAdd(elen, mkInt(8)))
		c.req(okNext, "an entry ends where its size says", wh, "next position %s", short(b.step(cu.phi)))
		c.req(st.holds(mkLe(mkInt(4), elen)) && st.holds(mkLe(mkAdd(elen, mkInt(8)), mkLen(cu.rem))), "an entry lies inside the signing block", wh, "an entry of another size is accepted")
		// what is stored
		before, now := mc.Phi, b.step(mc.Phi)
		seen := func(t *State, k int64) *State {
			t = t.clone()
			t.assume(mkEq(id, mkInt(k)))
			return t
		}
		extraPtr := a.cell(st, fieldOf(xc.Addr.Args[0], resType+".ExtraBlocks"))
		extra := a.x.mapContent(st, extraPtr)
		was := content(xc.Phi)
		stored := func(m *Term) *Term { // the bytes stored under id
			if m.Op == "upd" && m.Args[1] == id {
				return a.x.content(st, m.Args[2], true)
			}
			return nil
		}
		switch {
		case now == before:
		case now.Op == "upd" && now.Args[0] == before && now.Args[1] == id:
			c.req(stored(now) == data, "a block is the content of its entry", wh, "stored %s", short(stored(now)))
			c.req(st.holds(mkEq(look(before, id), tNil)), "the first block with an id counts", wh, "a block can be replaced by a later one")
		case now.Op == "upd" && now.Args[0] == before && now.Args[1].isConst():
			c.req(st.holds(mkEq(id, now.Args[1])), "a block is stored under its own id", wh, "stored as %s", short(now.Args[1]))
			c.req(a.x.content(st, now.Args[2], true) == data, "a block is the content of its entry", wh, "stored %s", short(now))
			c.req(st.holds(mkEq(look(before, now.Args[1]), tNil)) || st.holds(mkEq(look(before, id), tNil)), "the first block with an id counts", wh, "a block can be replaced by a later one")
		default:
			c.req(false, "a block is stored under its own id", wh, "blocks become %s", short(now))
		}
		for _, k := range supportedSince {
			t := seen(st, k.id)
			if t.bot {
				continue
			}
			if now != before {
				c.req(k.sdk == 0 || t.holds(mkLe(mkInt(k.sdk), max)), "a block counts only if the SDK level supports it", wh, "block %#x is used without SDK level %d", k.id, k.sdk)
			} else {
				u := t.clone()
				u.assume(mkLe(mkInt(k.sdk), max))
				for _, x := range []*Term{id, mkInt(k.id)} {
					u.assume(mkEq(look(before, x), tNil))
					u.assume(mkEq(look(was, x), tNil))
				}
				c.req(u.bot, "a supported block is not overlooked", wh, "block %#x is not used", k.id)
			}
			if k.id == idStamp {
				continue
			}
			u := t.clone()
			lo := mkLe(mkInt(k.sdk), max)
			if k.id == idV3 {
				lo = mkLe(mkInt(33), max) // kept for the v3.1 scheme
				v := u.clone()
				v.assume(lo)
				v.assume(mkEq(look(before, id), tNil))
				v.assume(mkEq(look(was, id), tNil))
				if !v.bot {
					c.req(stored(extra) == data, "the v3 block is kept for the v3.1 scheme", wh, "the other blocks become %s", short(extra))
				}
			}
			u = t.clone()
			u.assume(mkNot(mkLe(mkInt(k.sdk), max)))
			u.assume(mkEq(look(before, id), tNil))
			u.assume(mkEq(look(was, id), tNil))
			if !u.bot {
				c.req(stored(extra) == data, "an unsupported block stays known", wh, "the other blocks become %s", short(extra))
			}
		}
		if now != before {
			t := st.clone()
			for _, k := range supportedSince {
				t.assume(mkNot(mkEq(id, mkInt(k.id))))
			}
			c.req(t.bot, "nothing else becomes a block to verify", wh, "another id is used")
		}
		if v := stored(extra); extra != was && extra.Op == "upd" && v != nil {
			c.req(v == data, "other blocks are the content of their entries", wh, "stored %s", short(v))
		}
	}
	c.req(n > 0, "entries can be read", wh, "no way round the loop")
}
