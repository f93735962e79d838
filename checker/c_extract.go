package main

import "golang.org/x/tools/go/ssa"

func init() { checks = append(checks, checkDef{"C30", checkC30, 30}) }

const (
	fnSBExtract = "signingblock.ExtractCertsReader"
	fnAVExtract = "apkverifier.ExtractCertsReader"
	fnV1Extract = "apkverifier.extractCertsSchemeV1"
)

// blockExtract decides which block the certificates are taken from.
func (c *Check) blockExtract() {
	b := []string{fnNewBlock, fnFind}
	for _, id := range []int64{2, 3, 31} {
		b = append(b, parseName(id))
	}
	a := c.anOpt(fnSBExtract, func(x *Exec, f *ssa.Function, ps []*Term, st *State) { x.keepErrs = true }, b...)
	wh := a.where()
	max := a.ps[2]
	seen := map[int64]bool{}
	nothing, failed := 0, 0
	for _, r := range a.rets {
		st := r.st
		if st.bot {
			continue
		}
		certs, e := r.vals[0], r.vals[1]
		notFound := dynType(e) == mkStr(tNotFound)
		news, finds := dids(st, fnNewBlock), dids(st, dn(fnFind))
		if !c.req(len(news) == 1 && arg(news[0], 0) == a.ps[0] && len(finds) <= 1, "certificates are read from the given file", wh, "%d files, %d searches", len(news), len(finds)) {
			continue
		}
		sb := callOf(news[0])
		if len(finds) == 0 {
			c.req(st.holds(nonNilT(res(sb, 2))) && e.contains(res(sb, 2)) && st.holds(nonNilT(e)) && !notFound, "a file that cannot be read is an error", wh, "error %s without a search", short(e))
			continue
		}
		find := callOf(finds[0])
		c.req(arg(finds[0], 0) == res0(sb) && arg(finds[0], 1) == max && okErr(st, sb, 2), "the signing block is searched in the given file with the requested SDK range", wh, "search %s", short(finds[0]))
		if st.holds(nonNilT(res(find, 2))) {
			failed++
			c.req(notFound && certs == tNil, "a failed search means that there is no signing block", wh, "error %s", short(e))
			continue
		}
		c.req(okErr(st, find, 2), "blocks are used only if the search succeeded", wh, "its error is ignored")
		blocks := content(res0(find))
		var parses []*Term
		var which int64
		for _, id := range []int64{2, 3, 31} {
			if ds := dids(st, dn(parseName(id))); len(ds) > 0 {
				parses = append(parses, ds...)
				which = id
			}
		}
		if len(parses) == 0 {
			nothing++
			none := true
			for _, id := range []int64{2, 3, 31} {
				none = none && st.holds(mkEq(look(blocks, mkInt(blockOf[id])), tNil))
			}
			c.req(none, "a block that is present is used", wh, "no block is parsed although one may be present")
			c.req(notFound && certs == tNil, "without a block the signing block counts as not found", wh, "error %s", short(e))
			continue
		}
		seen[which] = true
		if !c.req(len(parses) == 1, "a single block is used", wh, "%d blocks are parsed", len(parses)) {
			continue
		}
		for _, newer := range []int64{3, 31} {
			if newer > which {
				c.req(st.holds(mkEq(look(blocks, mkInt(blockOf[newer])), tNil)), "the newest scheme that is present is used", wh, "scheme %d is used although a block of scheme %d may be present", which, newer)
			}
		}
		p := parses[0]
		call := callOf(p)
		c.req(arg(p, 1) == bufref(look(blocks, mkInt(blockOf[which]))), "the whole block of the scheme in use is parsed", wh, "scheme %d parses %s", which, short(arg(p, 1)))
		c.req(after(certs, call) && fieldName(certs) == certsField, "the certificates of the block are returned", wh, "certificates %s", short(certs))
		if certs.Op != "at" || certs.Args[0].Op != "fa" {
			continue
		}
		owner := certs.Args[0].Args[0]
		errs := a.cell(st, fieldOf(owner, errField))
		if !c.req(errs.Op == "errs" && errs.Args[0] == tNil && errs.Args[1] == call, "only the errors of the block count", wh, "errors %s", short(errs)) {
			continue
		}
		n := mkLen(errs)
		s := st.clone()
		s.assume(mkEq(e, tNil))
		c.req(s.bot || s.holds(mkLe(n, mkInt(0))), "parsing errors are returned", wh, "a nil error although errors may have been recorded")
		s = st.clone()
		s.assume(nonNilT(e))
		c.req(s.bot || s.holds(mkLe(mkInt(1), n)) && e.contains(errs), "without parsing errors no error is returned", wh, "error %s", short(e))
	}
	for _, id := range []int64{2, 3, 31} {
		c.req(seen[id], "each scheme can be used", wh, "no path for scheme %d", id)
	}
	c.req(nothing > 0 && failed > 0, "the absence of a block is handled", wh, "no such path")
}

// archiveExtract decides when v1 signatures are looked at.
func (c *Check) archiveExtract() {
	a := c.anOpt(fnAVExtract, func(x *Exec, f *ssa.Function, ps []*Term, st *State) { x.keepErrs = true }, fnSBExtract, fnV1Extract)
	wh := a.where()
	r0, zipArg := a.ps[0], a.ps[1]
	anyMin, anyMax := mkInt(-1), mkInt(2147483647)
	modes := map[string]bool{}
	for _, r := range a.rets {
		st := r.st
		if st.bot {
			continue
		}
		certs, e := r.vals[0], r.vals[1]
		sbs, v1s := dids(st, fnSBExtract), dids(st, fnV1Extract)
		if len(sbs) == 0 {
			ok := false
			for _, d := range dids(st, apkparser+".OpenZipReader") {
				ok = ok || st.holds(nonNilT(res(callOf(d), 1))) && st.holds(nonNilT(e)) && st.holds(mkEq(zipArg, tNil))
			}
			c.req(ok && len(v1s) == 0, "only a file that is no archive ends early", wh, "error %s before the signing block is read", short(e))
			continue
		}
		sb := callOf(sbs[0])
		c.req(len(sbs) == 1 && arg(sbs[0], 0) == r0 && arg(sbs[0], 1) == anyMin && arg(sbs[0], 2) == anyMax, "the signing block of the given file is read for all Android versions", wh, "%s", short(sbs[0]))
		E := res(sb, 1)
		if len(v1s) == 0 {
			modes["block"] = true
			s := st.clone()
			s.assume(mkEq(dynType(E), mkStr(tNotFound)))
			c.req(s.bot, "without a signing block the v1 signatures are looked at", wh, "they are not looked at although no block may have been found")
			c.req(certs == res0(sb) && (e == E || st.holds(mkEq(E, tNil)) && st.holds(mkEq(e, tNil)) || e.contains(E)), "the signing block's certificates and error are returned", wh, "returns %s and %s", short(certs), short(e))
			c.req(!st.holds(mkEq(e, tNil)) || st.holds(mkEq(E, tNil)), "a parsing error is returned", wh, "the error of the block is dropped")
			continue
		}
		modes["v1"] = true
		c.req(dynIs(st, E, tNotFound), "v1 signatures are looked at only without a signing block", wh, "they are looked at with another error or none")
		v1 := callOf(v1s[0])
		zip := arg(v1s[0], 0)
		okZip := zip == zipArg && st.holds(nonNilT(zipArg))
		for _, d := range dids(st, apkparser+".OpenZipReader") {
			okZip = okZip || arg(d, 0) == r0 && zip == res0(callOf(d)) && okErr(st, callOf(d), 1)
		}
		c.req(okZip && len(v1s) == 1 && arg(v1s[0], 1) == anyMin && arg(v1s[0], 2) == anyMax, "the v1 signatures of the given file are read for all Android versions", wh, "%s", short(v1s[0]))
		// without a block the first part has no certificates (blockExtract)
		certs = a.appended(st, certs, res0(v1))
		c.req(certs == res0(v1) || certs == app(res0(sb), res0(v1)) || certs == app(tNil, res0(v1)), "the certificates of the v1 signatures are returned", wh, "returns %s", short(certs))
		c.req(e == res(v1, 1) || e.contains(res(v1, 1)) && st.holds(nonNilT(e)) && st.holds(nonNilT(res(v1, 1))) || okErr(st, v1, 1) && st.holds(mkEq(e, tNil)), "the error of the v1 signatures is returned", wh, "returns %s", short(e))
	}
	c.req(modes["block"] && modes["v1"], "both kinds of signatures can be used", wh, "modes %v", modes)
}

// v1Extract decides that all v1 signatures are reported.
func (c *Check) v1Extract() {
	a := c.anOpt(fnV1Extract, func(x *Exec, f *ssa.Function, ps []*Term, st *State) { x.keepErrs = true }, fnNewV1, fnV1Ordered, fnV1SigVerify)
	wh := a.where()
	min, max := a.ps[1], a.ps[2]
	n := 0
	for _, r := range a.rets {
		st := r.st
		if st.bot {
			continue
		}
		certs, e := r.vals[0], r.vals[1]
		news := dids(st, fnNewV1)
		if !c.req(len(news) == 1 && arg(news[0], 0) == a.ps[0], "the signatures of the given archive are read", wh, "%d archives", len(news)) {
			continue
		}
		v := callOf(news[0])
		ords := dids(st, dn(fnV1Ordered))
		if len(ords) == 0 {
			c.req(st.holds(nonNilT(res(v, 1))) && st.holds(nonNilT(e)), "an archive whose signatures cannot be parsed is an error", wh, "error %s", short(e))
			continue
		}
		n++
		found := ""
		if !okErr(st, v, 1) {
			found = "the error of the archive is ignored"
		}
		good := false
		for _, it := range a.listIters(st, res0(callOf(ords[0])), nil) {
			var cell *LoopCell
			for _, k := range it.l.Cells {
				if k.Phi == certs {
					cell = k
				}
			}
			ok := cell != nil && arg(ords[0], 0) == res0(v)
			if ok && cell.Init != tNil && !(cell.Init.Op == "at" && fieldName(cell.Init) == tV1+"chain") {
				ok = false
			}
			for _, b := range it.backs {
				g := false
				for _, d := range dids(b.st, dn(fnV1SigVerify)) {
					if !same(b.st, arg(d, 1), it.elem) || arg(d, 0) != res0(v) || arg(d, 2) != min || arg(d, 3) != max {
						continue
					}
					k := callOf(d)
					step := tNil
					if cell != nil {
						step = b.step(cell.Phi)
						if step == cell.Phi {
							g = b.st.holds(mkEq(res0(k), tNil)) || b.st.holds(mkEq(mkLen(res0(k)), mkInt(0)))
						} else {
							g = step == app(cell.Phi, listOf(res0(k)))
						}
					}
					if st.holds(mkEq(e, tNil)) && !okErr(b.st, k, 1) {
						g = false
					}
				}
				ok = ok && g
			}
			good = good || ok
		}
		if found == "" && !good {
			found = "no loop over all signatures that keeps their certificates and errors"
		}
		c.req(found == "", "the certificates and errors of all v1 signatures are returned", wh, "%s", found)
	}
	c.req(n > 0, "v1 certificates can be extracted", wh, "no path")
}

// extractWrappers: the functions that take a path.
func (c *Check) extractWrappers() {
	for _, w := range []struct{ fn, to string }{
		{"apkverifier.ExtractCerts", fnAVExtract},
		{"signingblock.ExtractCerts", fnSBExtract},
	} {
		a := c.an(w.fn, w.to)
		n := 0
		for _, r := range a.rets {
			ds := dids(r.st, w.to)
			opens := dids(r.st, "os.Open")
			if !c.req(len(opens) == 1 && arg(opens[0], 0) == a.ps[0], "the given file is opened", a.where(), "%d files are opened", len(opens)) {
				continue
			}
			o := callOf(opens[0])
			if len(ds) == 0 {
				c.req(r.st.holds(nonNilT(res(o, 1))) && r.st.holds(nonNilT(r.vals[1])), "a file that cannot be opened is an error", a.where(), "error %s", short(r.vals[1]))
				continue
			}
			n++
			call := callOf(ds[0])
			ok := okErr(r.st, o, 1) && arg(ds[0], 0).contains(res0(o)) && r.vals[0] == res0(call)
			for i, p := range a.ps[1:] {
				ok = ok && arg(ds[0], i+1) == p
			}
			ok = ok && (r.vals[1] == res(call, 1) || r.vals[1].contains(res(call, 1)) && r.st.holds(nonNilT(res(call, 1))) || okErr(r.st, call, 1) && r.st.holds(mkEq(r.vals[1], tNil)))
			c.req(ok, "certificates and error are passed on unchanged", a.where(), "returns %s and %s", short(r.vals[0]), short(r.vals[1]))
		}
		c.req(n > 0, "certificates can be extracted", a.where(), "no path")
	}
}

func checkC30(c *Check) {
	c.blockExtract()
	c.archiveExtract()
	c.v1Extract()
	c.extractWrappers()
	c.notFoundRule()
	c.collectRule()
}
