package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks = append(checks, checkDef{"C17", checkC17, 40}) }

const (
	tCtx     = "apkverifier.manifestParserContext."
	tMan     = "apkverifier.manifest."
	fnHeader = "apkverifier.(*manifestParserContext).readHeader"
	fnManPar = "apkverifier.(*manifestParserContext).parse"
)

func nameByte(c int) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '-' || c == '_'
}

// goodName: the name has at most 70 bytes, and a completed loop over all its bytes goes on only for
// allowed ones.
func (a *An) goodName(st *State, name *Term) string {
	n := mkLen(name)
	some := st.holds(mkLe(mkInt(1), n)) || st.holds(mkNot(mkEq(n, mkInt(0))))
	if !some || !st.holds(mkLe(n, mkInt(70))) {
		return "its length is not bounded by 1 and 70"
	}
	why := "no loop over all its bytes"
	for _, it := range a.anyIters(st, name, nil) {
		bad := ""
		for _, b := range it.backs {
			t := mk("byteat", "", name, it.idx)
			for c := 0; c < 256 && bad == ""; c++ {
				if !nameByte(c) && !b.st.holds(mkNot(mkEq(t, mkInt(int64(c))))) {
					bad = fmt.Sprintf("the byte %#02x is allowed", c)
				}
			}
		}
		if bad == "" {
			return ""
		}
		why = bad
	}
	return why
}

// headerRule decides how one header is read.
func (c *Check) headerRule() {
	a := c.anOpt(fnHeader, func(x *Exec, f *ssa.Function, ps []*Term, st *State) { x.maxStates, x.maxEntry = 400, 60 })
	wh := a.where()
	ctx := a.ps[0]
	posA, brkA := fieldOf(ctx, tCtx+"pos"), fieldOf(ctx, tCtx+"consecutiveLineBreaks")
	D := at(fieldOf(ctx, tCtx+"data"))
	n := mkLen(D)
	brk0 := at(brkA)
	byteOf := func(i *Term) *Term { return mk("byteat", "", D, i) }
	ended, named, nameless := 0, 0, 0
	loops := map[*LoopRec]*manRoles{}
	for _, r := range a.succErr(3) {
		st := r.st
		name, val, single := r.vals[0], r.vals[1], r.vals[2]
		pos, brk := a.cell(st, posA), a.cell(st, brkA)
		if st.holds(mkLe(mkInt(2), brk0)) {
			ended++
			c.req(name == mkStr("") && val == mkStr("") && single == tFalse && brk == mkInt(0) && pos == at(posA), "an empty line ends a section", wh, "%s: %s, section goes on: %s", short(name), short(val), short(single))
			continue
		}
		c.req(st.holds(mkLe(brk0, mkInt(1))), "an empty line ends a section", wh, "reading may go on behind an empty line")
		if name == mkStr("") {
			nameless++
			c.req(val == mkStr("") && (single == tFalse || st.holds(mkNot(single))) && st.holds(mkLe(n, pos)), "a header has a name", wh, "a header without a name has the value %s", short(val))
			continue
		}
		named++
		// the name
		raw := name
		lower := false
		if name.Op == "res" && name.Args[0].Op == "call" && name.Args[0].Sym == "strings.ToLower" {
			lower = true
			raw = name.Args[0].Args[0]
		}
		c.req(lower, "names are compared without regard to case", wh, "the name is %s", short(name))
		colon := mkAdd(at(posA), mkLen(raw))
		c.req(raw.Op == "take" && raw.Args[0] == mkDrop(D, at(posA)), "the name is the text before the colon", wh, "the name is %s", short(raw))
		if raw.Op == "take" {
			colon = mkAdd(at(posA), raw.Args[1])
		}
		w := a.goodName(st, raw)
		c.req(w == "", "a name consists of 1 to 70 letters, digits, hyphens and underscores", wh, "%s: %s", short(raw), w)
		c.req(st.holds(mkEq(byteOf(colon), mkInt(':'))) && st.holds(mkEq(byteOf(mkAdd(colon, mkInt(1))), mkInt(' '))) && st.holds(mkLe(mkAdd(colon, mkInt(2)), n)),
			"a colon and a space separate name and value", wh, "the bytes behind the name %s are not checked", short(raw))
		// the value
		start := mkAdd(colon, mkInt(2))
		var ro *manRoles
		for _, l := range a.doneLoops(st) {
			for _, k := range l.Cells {
				if k.Init == mkStr("") && val.contains(k.Phi) {
					if ro = loops[l]; ro == nil {
						ro = a.manRoles(l, k, D, st, val, pos, brk, single)
						loops[l] = ro
					}
				}
			}
		}
		if !c.req(ro != nil && ro.why == "", "the value is read up to the end of its lines", wh, "%s", roWhy(ro)) {
			continue
		}
		c.req(ro.pos.Init == start && ro.mark.Init == start && ro.last.Init == start && ro.brk.Init == mkInt(0), "the value starts behind the separator", wh, "it starts at %s", short(ro.mark.Init))
		p, m, l, b := ro.pos.Phi, ro.mark.Phi, ro.last.Phi, ro.brk.Phi
		// only its own line breaks are consumed
		end := st.holds(mkLe(n, p)) && pos == p
		next := byteOf(p)
		for _, x := range []int64{0, 10, 13} {
			c.req(end || st.holds(mkNot(mkEq(next, mkInt(x)))), "the value ends at the next header or the end of the file", fmt.Sprintf("%s, byte %d", wh, x), "it may end before such a byte")
		}
		s := st.clone()
		s.assume(mkEq(b, mkInt(1)))
		c.req(end || pos == p && st.holds(mkLe(mkInt(1), b)) && (s.bot || s.holds(mkNot(mkEq(next, mkInt(' '))))), "a line that starts with a space continues the value", wh, "the value may end before it")
		c.req(brk == b && ro.singleOK(st, single), "a header counts if its line ends, and its section goes on unless an empty line follows", wh, "goes on: %s", short(single))
		piece := subseq(D, m, l)
		good := val == mkCat(ro.val.Phi, piece) || val == ro.val.Phi && st.holds(mkLe(l, m))
		c.req(good, "the value is the text of its lines", wh, "the value is %s", short(val))
	}
	c.req(ended > 0 && named > 0 && nameless > 0, "headers, ends of sections and the end of the file are told apart", wh, "%d/%d/%d paths", named, ended, nameless)
	c.req(len(loops) > 0, "the value is read up to the end of its lines", wh, "no loop found")
	for lp, ro := range loops {
		if ro.why != "" {
			continue
		}
		lw := a.loopWhere(lp)
		seen := map[string]bool{}
		for _, bk := range a.backs(lp, nil) {
			st := bk.st
			p, m, l, b, v := ro.pos.Phi, ro.mark.Phi, ro.last.Phi, ro.brk.Phi, ro.val.Phi
			cur := byteOf(p)
			is := func(x int64) bool { return st.holds(mkEq(cur, mkInt(x))) }
			not := func(x int64) bool { return st.holds(mkNot(mkEq(cur, mkInt(x)))) }
			nb := bk.step(b)
			next := mkAdd(p, mkInt(1))
			c.req(not(0), "a NUL byte in a value is an error", lw, "reading goes on behind a NUL byte")
			c.req(bk.step(p) == next && st.holds(mkLe(next, n)), "every byte is looked at", lw, "the position becomes %s", short(bk.step(p)))
			keep := bk.step(m) == m && bk.step(v) == v
			switch {
			case is('\n'):
				seen["lf"] = true
				cr := ro.cr != nil && st.holds(ro.cr.Phi)
				ok := keep && bk.step(l) == l
				if cr {
					ok = ok && nb == b && bk.step(ro.cr.Phi) == tFalse
				} else {
					ok = ok && nb == mkAdd(b, mkInt(1))
				}
				c.req(ok, "a line feed counts as a line break unless it belongs to a carriage return", lw, "line breaks become %s", short(nb))
			case is('\r'):
				seen["cr"] = true
				c.req(keep && bk.step(l) == l && nb == mkAdd(b, mkInt(1)) && (ro.cr == nil || bk.step(ro.cr.Phi) == tTrue), "a carriage return counts as a line break", lw, "line breaks become %s", short(nb))
			case !keep:
				seen["fold"] = true
				ok := is(' ') && st.holds(mkEq(b, mkInt(1))) && nb == mkInt(0)
				c.req(ok, "only a space after a single line break continues the value", lw, "the value goes on after %s line breaks", short(b))
				c.req(bk.step(v) == mkCat(v, subseq(D, m, l)) && bk.step(m) == next, "a continued value is put together from its lines", lw, "it becomes %s", short(bk.step(v)))
			default:
				seen["text"] = true
				c.req(st.holds(mkEq(b, mkInt(0))) && nb == b && not('\n') && not('\r') && bk.step(l) == next, "the value ends with its line", lw, "text behind %s line breaks belongs to the value", short(b))
			}
		}
		c.req(seen["lf"] && seen["cr"] && seen["fold"] && seen["text"], "line breaks, continuations and text are told apart", lw, "%v", seen)
	}
}

func roWhy(r *manRoles) string {
	if r == nil {
		return "no loop that puts the value together"
	}
	return r.why
}

// manRoles: which variable of the loop that reads a value plays which part.
type manRoles struct {
	why                           string
	pos, mark, last, brk, cr, val *LoopCell
}

// singleOK: the section goes on exactly if a line break was seen.
func (r *manRoles) singleOK(st *State, single *Term) bool {
	want := mkLe(mkInt(1), r.brk.Phi)
	if single == want {
		return true
	}
	if st.holds(want) {
		return st.holds(single)
	}
	return st.holds(mkNot(want)) && st.holds(mkNot(single))
}

func (a *An) manRoles(l *LoopRec, val *LoopCell, D *Term, st *State, v, pos, brk, single *Term) *manRoles {
	r := &manRoles{val: val}
	r.brk = l.cellPhi(brk)
	r.pos = l.cellPhi(pos)
	bs := a.backs(l, nil)
	for _, b := range bs {
		s := b.step(val.Phi)
		for _, m := range l.Cells {
			for _, e := range l.Cells {
				if m != e && s == mkCat(val.Phi, subseq(D, m.Phi, e.Phi)) {
					r.mark, r.last = m, e
				}
			}
		}
	}
	for _, k := range l.Cells {
		if k.Init != tFalse {
			continue
		}
		set := true
		for _, b := range bs {
			if b.st.holds(mkEq(mk("byteat", "", D, pos), mkInt('\r'))) != (b.step(k.Phi) == tTrue) {
				set = false
			}
		}
		if set {
			r.cr = k
		}
	}
	switch {
	case r.brk == nil:
		r.why = "the line breaks are not counted in the loop"
	case r.pos == nil:
		r.why = "the position is not advanced in the loop"
	case r.mark == nil:
		r.why = "no continued lines are put together"
	}
	return r
}

// sectionRule decides how headers are put together to sections.
func (c *Check) sectionRule() {
	a := c.anOpt(fnManPar, func(x *Exec, f *ssa.Function, ps []*Term, st *State) { x.wantEvent["mapupdate"] = true }, fnHeader)
	wh := a.where()
	ctx, withChunks := a.ps[0], a.ps[1]
	posA := fieldOf(ctx, tCtx+"pos")
	D := at(fieldOf(ctx, tCtx+"data"))
	man := at(fieldOf(ctx, tCtx+"man"))
	field := func(n string) *Term { return at(fieldOf(man, tMan+n)) }
	main, entries, chunks := field("main"), field("entries"), field("chunks")
	endA := fieldOf(man, tMan+"mainAttributtesEnd")
	calls := func(st *State) []*Term {
		var l []*Term
		for _, d := range dids(st, dn(fnHeader)) {
			if callOf(d).Op == "call" {
				l = append(l, callOf(d))
			}
		}
		return l
	}
	// header: k, v are name and value of a header that was read without an error
	header := func(st *State, k, v *Term) bool {
		return k.Op == "res" && k.Sym == "0" && v == res(k.Args[0], 1) && okErr(st, k.Args[0], 3) && st.holds(res(k.Args[0], 2)) && isHeader(k.Args[0])
	}
	// section: the name of a section, taken from its first header
	section := func(st *State, k *Term) bool {
		return k.Op == "res" && k.Sym == "1" && isHeader(k.Args[0]) && okErr(st, k.Args[0], 3) && st.holds(res(k.Args[0], 2)) && st.holds(mkEq(res0(k.Args[0]), mkStr("name")))
	}
	kinds := map[string]int{}
	for _, e := range a.x.log {
		if e.Kind != "mapupdate" || e.St.bot {
			continue
		}
		st := e.St
		m, k, v := e.Args[0], e.Args[1], e.Args[2]
		ew := c.site(e.Fn, e.Instr, "")
		switch {
		case m == main:
			kinds["main"]++
			c.req(header(st, k, v), "main attributes are the headers before the first section", ew, "%s: %s is stored", short(k), short(v))
			c.req(a.cell(st, endA) == at(endA), "main attributes are the headers before the first section", ew, "stored behind the end of the main attributes")
		case m == entries:
			kinds["entries"]++
			c.req(section(st, k), "a section starts with its name", ew, "a section is stored as %s", short(k))
			now := a.x.mapContent(st, v)
			c.req(st.holds(mkEq(look(a.x.mapContent(st, entries), k), tNil)) || st.holds(mkNot(has(a.x.mapContent(st, entries), k))), "a section replaces no other", ew, "the section %s may exist", short(k))
			c.req(now.Op == "mapnew", "a new section is empty", ew, "it is %s", short(now))
		case m == chunks:
			kinds["chunks"]++
			cur := a.x.mapContent(st, chunks)
			c.req(section(st, k), "a section starts with its name", ew, "a section is stored as %s", short(k))
			c.req(st.holds(mkNot(has(cur, k))) || st.holds(mkEq(look(cur, k), tNil)), "two sections with the same name are an error", ew, "the second one replaces the first")
			pos := a.cell(st, posA)
			last := lastHeader(st)
			c.req(last != nil && okErr(st, last, 3) && st.holds(mkNot(res(last, 2))), "a section is complete when its bytes are kept", ew, "its end has not been read")
			lo := sliceStart(v, D)
			if !c.req(lo != nil && same(st, v, subseq(D, lo, pos)), "the bytes of a section end where reading ended", ew, "the bytes are %s", short(v)) {
				continue
			}
			good := false
			for _, l := range a.sortedLoops() {
				start := a.cell(l.Header, posA)
				if lo == start {
					good = true
				}
				for _, p := range l.Cells {
					if p.Phi != lo || p.Init != a.cell(l.Entry, posA) {
						continue
					}
					g := true
					for _, b := range a.backs(l, nil) {
						if b.st.holds(mkNot(withChunks)) {
							continue
						}
						g = g && b.step(p.Phi) == a.cell(b.st, posA)
					}
					good = good || g
				}
			}
			c.req(good, "the bytes of a section start where the previous one ended", ew, "they start at %s", short(lo))
		default:
			kinds["section"]++
			cont := a.x.mapContent(st, entries)
			own := m.Op == "look" && section(st, m.Args[1]) && content(m.Args[0]) == cont || m.Op == "look" && section(st, m.Args[1])
			if cont.Op == "upd" && cont.Args[2] == m && section(st, cont.Args[1]) {
				own = true
			}
			c.req(own && header(st, k, v), "headers of a section are kept under its name", ew, "%s: %s is stored in %s", short(k), short(v), short(m))
		}
	}
	for _, k := range []string{"main", "entries", "chunks", "section"} {
		c.req(kinds[k] > 0, "headers and sections are kept", wh+" "+k, "never stored")
	}
	// errors and ends
	for _, l := range a.sortedLoops() {
		lw := a.loopWhere(l)
		for _, b := range a.backs(l, nil) {
			for _, h := range calls(b.st) {
				c.req(okErr(b.st, h, 3), "a header that cannot be read is an error", lw, "reading goes on after an error")
			}
			if h := lastHeader(b.st); h != nil && h.Op == "call" {
				s := b.st.clone()
				s.assume(res(h, 2))
				inHeader := !s.bot
				if inHeader {
					// the last header of this way round the loop was kept
					c.req(keeps(a, b.st, res0(h)), "every header is kept", lw, "a header is skipped")
				}
			}
		}
	}
	n := 0
	for _, r := range a.succErr(0) {
		st := r.st
		n++
		hs := calls(st)
		ends := 0
		for _, h := range hs {
			c.req(okErr(st, h, 3), "a header that cannot be read is an error", wh, "parsing succeeds after an error")
			if st.holds(mkNot(res(h, 2))) {
				ends++
			}
		}
		last := lastHeader(st)
		c.req(ends >= 2 && last != nil && st.holds(mkNot(res(last, 2))), "parsing ends with the end of the file", wh, "%d ends of sections", ends)
		end := a.cell(st, endA)
		okEnd := false
		for _, l := range a.doneLoops(st) {
			okEnd = okEnd || end == a.cell(l.Entry, posA)
		}
		c.req(okEnd && end != at(posA), "the main attributes end where the first section starts", wh, "they end at %s", short(end))
		for _, l := range a.doneLoops(st) {
			for _, k := range l.Cells {
				if k.Addr == chunks {
					for _, b := range a.backs(l, nil) {
						s := b.st.clone()
						s.assume(withChunks)
						c.req(s.bot || b.step(k.Phi).Op == "upd", "the bytes of every section are kept", a.loopWhere(l), "a section is skipped")
					}
				}
			}
		}
	}
	c.req(n > 0, "manifests can be parsed", wh, "no path returns a nil error")
}

func isHeader(t *Term) bool { return t.Op == "call" && strings.HasPrefix(t.Sym, dn(fnHeader)+"@") }

// lastHeader: the call that moved the position last.
func lastHeader(st *State) *Term { return st.mem[mk("fver", tCtx+"pos")] }

// keeps: the name is a key of a map on this path.
func keeps(a *An, st *State, k *Term) bool {
	for _, m := range st.sortedMem() {
		v := st.mem[m]
		if v.Op == "upd" && v.Args[1] == k && v.Args[2] == res(k.Args[0], 1) {
			return true
		}
	}
	return false
}

// sliceStart: where a part of D starts.
func sliceStart(v, D *Term) *Term {
	if v.Op == "take" {
		v = v.Args[0]
	}
	if v == D {
		return mkInt(0)
	}
	if v.Op == "drop" && v.Args[0] == D {
		return v.Args[1]
	}
	return nil
}

// fileRule decides what is parsed and returned for a file.
func (c *Check) fileRule() {
	a := c.an(fnParseMan, fnManPar)
	wh := a.where()
	n := 0
	for _, e := range a.x.log {
		if e.Kind != "call" || e.Name != dn(fnManPar) || e.St.bot {
			continue
		}
		n++
		ctx := e.Raw[0]
		ew := c.site(e.Fn, e.Instr, "")
		data := a.cell(e.St, fieldOf(ctx, tCtx+"data"))
		man := a.cell(e.St, fieldOf(ctx, tCtx+"man"))
		read := data.Op == "res" && data.Sym == "0" && okErr(e.St, data.Args[0], 1) && readsAll(data.Args[0], a.ps[0])
		c.req(read, "the whole file is parsed", ew, "parsed is %s", short(data))
		c.req(a.cell(e.St, fieldOf(man, tMan+"rawData")) == data, "the bytes that are hashed are the bytes that are parsed", ew, "kept are %s", short(a.cell(e.St, fieldOf(man, tMan+"rawData"))))
		c.req(e.Args[2] == a.ps[1], "sections are kept if they are asked for", ew, "parsed with %s", short(e.Args[2]))
		for _, f := range []string{"main", "entries", "chunks"} {
			m := a.x.mapContent(e.St, a.cell(e.St, fieldOf(man, tMan+f)))
			c.req(m.Op == "mapnew", "parsing starts with nothing", ew+" "+f, "it starts with %s", short(m))
		}
		for _, f := range []string{"pos", "consecutiveLineBreaks"} {
			c.req(a.cell(e.St, fieldOf(ctx, tCtx+f)) == mkInt(0), "parsing starts with nothing", ew+" "+f, "it starts with %s", short(a.cell(e.St, fieldOf(ctx, tCtx+f))))
		}
	}
	c.req(n > 0, "the file is parsed", wh, "no call of the parser")
	ok := 0
	for _, r := range a.succErr(1) {
		st := r.st
		ok++
		good := false
		for _, e := range a.x.log {
			if e.Kind == "call" && e.Name == dn(fnManPar) {
				call := e.Args[0]
				man := a.cell(e.St, fieldOf(e.Raw[0], tCtx+"man"))
				if man == r.vals[0] && okErr(st, call, 0) {
					good = a.cell(st, fieldOf(man, tMan+"rawData")) == a.cell(e.St, fieldOf(e.Raw[0], tCtx+"data"))
				}
			}
		}
		c.req(good, "only what was parsed without an error is returned", wh, "returned is %s", short(r.vals[0]))
	}
	c.req(ok > 0, "a manifest can be returned", wh, "no path returns a nil error")
}

// readsAll: the call reads everything from the file.
func readsAll(call, f *Term) bool {
	return call.Op == "call" && (strings.HasPrefix(call.Sym, "io/ioutil.ReadAll@") || strings.HasPrefix(call.Sym, "io.ReadAll@")) && call.contains(f)
}

// chunkedRule: the manifest is parsed with its sections.
func (c *Check) chunkedRule() {
	a := c.an(fnV1New, fnParseMan, fnV1AddBlock, fnV1AddSF, "apkverifier.(*schemeV1).prepForVerification")
	n := 0
	for _, e := range a.x.log {
		if e.Kind == "call" && e.Name == dn(fnParseMan) {
			n++
			c.req(e.Args[2] == tTrue, "the sections of the manifest are told apart", c.site(e.Fn, e.Instr, ""), "they are not kept")
		}
	}
	c.req(n > 0, "the manifest is parsed", a.where(), "no call of the parser")
}

func checkC17(c *Check) {
	c.headerRule()
	c.sectionRule()
	c.fileRule()
	c.chunkedRule()
}
