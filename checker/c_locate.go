package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks = append(checks, checkDef{"C28", checkC28, 40})
}

const tBlock = "signingblock.signingBlock."

// filePart: the bytes of t are n bytes of a file from position off.
func filePart(t *Term) (file, off, n *Term, ok bool) {
	switch t.Op {
	case "fileread":
		return t.Args[0], t.Args[1], t.Args[2], true
	case "drop":
		f, o, l, ok := filePart(t.Args[0])
		if !ok {
			return nil, nil, nil, false
		}
		return f, mkAdd(o, t.Args[1]), mkSub(l, t.Args[1]), true
	case "take":
		f, o, _, ok := filePart(t.Args[0])
		return f, o, t.Args[1], ok
	}
	return nil, nil, nil, false
}

// fileNum is an integer that was decoded from a file.
type fileNum struct{ t, pos *Term }

// fileNums lists the little-endian integers of the given width that the state knows about.
func fileNums(st *State, file *Term, op string, more ...*Term) []fileNum {
	var out []fileNum
	seen := map[*Term]bool{}
	visit := func(t *Term) bool {
		if t.Op == op && !seen[t] {
			seen[t] = true
			if f, o, _, ok := filePart(t.Args[0]); ok && f == file {
				out = append(out, fileNum{t, o})
			}
		}
		return true
	}
	for _, f := range st.sortedFacts() {
		f.walk(visit)
	}
	for _, t := range st.sortedDom() {
		t.walk(visit)
	}
	for _, m := range st.sortedMem() {
		m.walk(visit)
		st.mem[m].walk(visit)
	}
	for _, t := range more {
		t.walk(visit)
	}
	return out
}

// numAt: the decoded integer at a position of the file, nil if none is known.
func numAt(st *State, l []fileNum, pos *Term) *Term {
	for _, n := range l {
		if n.pos == pos || same(st, n.pos, pos) {
			return n.t
		}
	}
	return nil
}

func ioFailed(st *State) bool {
	for _, v := range st.mem {
		if v.Op == "fposbad" {
			return true
		}
	}
	return false
}

// eocdRule decides the search for the end-of-central-directory record.
func (c *Check) eocdRule() {
	a := c.anOpt(fnFindEocd, func(x *Exec, f *ssa.Function, ps []*Term, st *State) { x.keepErrs = true })
	wh := a.where()
	s := a.ps[0]
	file, size := at(fieldOf(s, tBlock+"file")), at(fieldOf(s, tBlock+"fileSize"))
	magic, min := mkInt(0x06054b50), int64(22)
	// record: what the search knows about a record at position p
	record := func(st *State, p *Term) (isMagic, isEnd, inRange, adjacent, cdOff, cdSize *Term) {
		w32, w16 := fileNums(st, file, "le32"), fileNums(st, file, "le16")
		m, cl := numAt(st, w32, p), numAt(st, w16, mkAdd(p, mkInt(20)))
		cdOff, cdSize = numAt(st, w32, mkAdd(p, mkInt(16))), numAt(st, w32, mkAdd(p, mkInt(12)))
		if m != nil {
			isMagic = mkEq(m, magic)
		}
		if cl != nil {
			isEnd = mkEq(mkAdd(p, mkAdd(cl, mkInt(min))), size)
		}
		if cdOff != nil {
			inRange = lt(cdOff, p)
			if cdSize != nil {
				adjacent = mkEq(mkAdd(cdOff, cdSize), p)
			}
		}
		return
	}
	holds := func(st *State, f *Term) bool { return f != nil && st.holds(f) }
	n := 0
	for _, r := range a.succErr(0) {
		st := r.st
		n++
		p := a.cell(st, fieldOf(s, tBlock+"eocdOffset"))
		isMagic, isEnd, inRange, adjacent, cdOff, cdSize := record(st, p)
		c.req(holds(st, isMagic), "the end-of-central-directory record has its magic", wh, "success with a record at %s that was not recognised", short(p))
		c.req(holds(st, isEnd), "the end-of-central-directory record ends at the end of the file", wh, "success for a record at %s with another comment length", short(p))
		c.req(holds(st, inRange), "the central directory starts before its end record", wh, "success without checking the central directory's offset")
		c.req(holds(st, adjacent), "the central directory ends where its end record starts", wh, "success without checking the central directory's size")
		c.req(cdOff != nil && a.cell(st, fieldOf(s, tBlock+"centralDirOffset")) == cdOff, "the central directory's offset is the declared one", wh, "offset %s", short(a.cell(st, fieldOf(s, tBlock+"centralDirOffset"))))
		c.req(cdSize != nil && a.cell(st, fieldOf(s, tBlock+"centralDirSize")) == cdSize, "the central directory's size is the declared one", wh, "size %s", short(a.cell(st, fieldOf(s, tBlock+"centralDirSize"))))
		e := a.x.content(st, a.cell(st, fieldOf(s, tBlock+"eocd")), true)
		f, o, l, ok := filePart(e)
		c.req(ok && f == file && same(st, o, p) && same(st, mkAdd(p, l), size), "the end record is kept from its start to the end of the file", wh, "kept %s", short(e))
		c.req(a.nearest(st, p, record, size), "the record nearest to the end of the file is used", wh, "records behind %s are skipped", short(p))
	}
	c.req(n > 0, "an end record can be found", wh, "no accepting path")
	// a record that is there is found
	for _, r := range a.rets {
		if r.st.bot || r.st.holds(mkEq(r.vals[0], tNil)) {
			continue
		}
		st := r.st.clone()
		st.assume(nonNilT(r.vals[0]))
		if st.bot || ioFailed(st) || st.holds(mkLe(size, mkInt(min-1))) {
			continue
		}
		ok := a.nearest(st, nil, record, size)
		for _, m := range fileNums(st, file, "le32") {
			if !st.holds(mkEq(m.t, magic)) || !a.nearest(st, m.pos, record, size) {
				continue
			}
			_, isEnd, inRange, adjacent, _, _ := record(st, m.pos)
			if !holds(st, isEnd) {
				continue
			}
			t := st.clone()
			if inRange != nil {
				t.assume(inRange)
			}
			if adjacent != nil {
				t.assume(adjacent)
			}
			ok = ok || t.bot
		}
		c.req(ok, "a consistent end record is found", wh, "the search can fail although there is one")
	}
}

// nearest: on the path of st no record lies behind position p, or (p nil) none at all within the
// reach of the largest comment.
func (a *An) nearest(st *State, p *Term, record func(*State, *Term) (a, b, c, d, e, f *Term), size *Term) bool {
	if p != nil && st.holds(mkEq(mkAdd(p, mkInt(22)), size)) {
		return true // no comment
	}
	for _, l := range a.doneLoops(st) {
		for _, k := range l.Cells {
			step := int64(0)
			good := len(l.Backs) > 0
			for i, b := range a.backs(l, nil) {
				nx := b.step(k.Phi)
				switch nx {
				case mkAdd(k.Phi, mkInt(1)):
					good = good && (i == 0 || step == 1)
					step = 1
				case mkAdd(k.Phi, mkInt(-1)):
					good = good && (i == 0 || step == -1)
					step = -1
				default:
					good = false
				}
			}
			if !good || k.Val == nil {
				continue
			}
			// the position that corresponds to the counter: linear in it
			for _, b := range l.Backs {
				for _, m := range fileNums(b.st, fileOfRecord(b.st), "le32") {
					d := mkAdd(m.pos, k.Phi)
					if step < 0 {
						d = mkSub(m.pos, k.Phi)
					}
					if d.contains(k.Phi) { // position = const ∓ counter
						continue
					}
					first := mkSub(d, k.Init)
					if step < 0 {
						first = mkAdd(d, k.Init)
					}
					if !st.holds(mkEq(mkAdd(first, mkInt(22)), size)) {
						continue
					}
					all := true
					for _, b2 := range a.backs(l, nil) {
						isMagic, isEnd, _, _, _, _ := record(b2.st, m.pos)
						t := b2.st.clone()
						if isMagic != nil {
							t.assume(isMagic)
						}
						if isEnd != nil {
							t.assume(isEnd)
						}
						all = all && t.bot
					}
					if !all {
						continue
					}
					if p != nil {
						if same(st, m.pos, p) {
							return true
						}
						continue
					}
					// the counter went through all possible comment lengths
					if st.holds(mkLe(m.pos, mkInt(-1))) || st.holds(mkLe(mkAdd(m.pos, mkInt(22+65536)), size)) {
						return true
					}
				}
			}
		}
	}
	return false
}

// fileOfRecord: the file the state read from.
func fileOfRecord(st *State) *Term {
	for _, m := range st.sortedMem() {
		if m.Op == "fpos" {
			return m.Args[0]
		}
	}
	return nil
}

// zip64Rule decides the detection of ZIP64 files.
func (c *Check) zip64Rule() {
	a := c.an(fnZip64)
	wh := a.where()
	s := a.ps[0]
	file, p := at(fieldOf(s, tBlock+"file")), at(fieldOf(s, tBlock+"eocdOffset"))
	loc := mkAdd(p, mkInt(-20))
	n := 0
	for _, v := range []bool{true, false} {
		for _, r := range a.succBool(0, v) {
			m := numAt(r.st, fileNums(r.st, file, "le32", r.vals[0]), loc)
			is := m != nil && r.st.holds(mkEq(m, mkInt(0x07064b50)))
			if v {
				n++
				c.req(is, "only a file with a ZIP64 locator is a ZIP64 file", wh, "other files are reported as ZIP64")
				continue
			}
			if r.st.holds(mkLe(p, mkInt(19))) || ioFailed(r.st) {
				continue
			}
			c.req(m != nil && r.st.holds(mkNot(mkEq(m, mkInt(0x07064b50)))), "a ZIP64 locator before the end record is recognised", wh, "a file with a locator is not reported")
		}
	}
	c.req(n > 0, "ZIP64 files can be recognised", wh, "no path reports one")
}

// blockRule decides where the signing block is taken from.
func (c *Check) blockRule() {
	a := c.anOpt(fnFindBlock, func(x *Exec, f *ssa.Function, ps []*Term, st *State) { x.keepErrs = true })
	wh := a.where()
	s := a.ps[0]
	file, cd := at(fieldOf(s, tBlock+"file")), at(fieldOf(s, tBlock+"centralDirOffset"))
	lo, hi := mkInt(0x20676953204b5041), mkInt(0x3234206b636f6c42)
	parts := func(st *State, off *Term, more ...*Term) (m1, m2, foot, head *Term) {
		w := fileNums(st, file, "le64", more...)
		m1, m2, foot = numAt(st, w, mkAdd(cd, mkInt(-16))), numAt(st, w, mkAdd(cd, mkInt(-8))), numAt(st, w, mkAdd(cd, mkInt(-24)))
		if off != nil {
			head = numAt(st, w, off)
		}
		return
	}
	// magic: the comparison of the magic as a whole
	magic := func(st *State) *Term {
		for _, t := range st.sortedDom() {
			if f, o, l, ok := filePart(t); ok && f == file && same(st, o, mkAdd(cd, mkInt(-16))) && l == mkInt(16) {
				return mkEq(t, mkStr("APK Sig Block 42"))
			}
		}
		return tFalse
	}
	n := 0
	for _, r := range a.succErr(2) {
		st := r.st
		n++
		b := a.x.content(st, r.vals[0], true)
		f, o, l, ok := filePart(b)
		if !c.req(ok && f == file, "the signing block is a part of the file", wh, "block %s", short(b)) {
			continue
		}
		m1, m2, foot, head := parts(st, o)
		c.req(m1 != nil && m2 != nil && st.holds(mkEq(m1, lo)) && st.holds(mkEq(m2, hi)) || st.holds(magic(st)), "the signing block ends with its magic", wh, "a block without the magic is accepted")
		c.req(same(st, mkAdd(o, l), cd), "the signing block ends where the central directory starts", wh, "block at %s of %s bytes", short(o), short(l))
		c.req(r.vals[1] == o, "the offset is that of the signing block", wh, "offset %s", short(r.vals[1]))
		c.req(st.holds(mkLe(mkInt(0), o)), "the signing block lies inside the file", wh, "offset %s may be negative", short(o))
		c.req(foot != nil && same(st, l, mkAdd(foot, mkInt(8))), "the signing block has the size that its end declares", wh, "%s bytes", short(l))
		c.req(foot != nil && head != nil && st.holds(mkEq(head, foot)), "the sizes at both ends of the signing block are the same", wh, "the sizes are not compared")
		c.req(st.holds(mkLe(mkInt(32), l)), "the signing block has room for its fixed parts", wh, "a block of less than 32 bytes is accepted")
	}
	c.req(n > 0, "a signing block can be found", wh, "no accepting path")
	for _, r := range a.rets {
		if r.st.bot {
			continue
		}
		st := r.st.clone()
		st.assume(nonNilT(r.vals[2]))
		if st.bot || ioFailed(st) {
			continue
		}
		st.assume(mkLe(mkInt(32), cd))
		m1, m2, foot, _ := parts(st, nil)
		if m1 != nil {
			st.assume(mkEq(m1, lo))
		}
		if m2 != nil {
			st.assume(mkEq(m2, hi))
		}
		if g := magic(st); g != tFalse {
			st.assume(g)
		}
		if foot != nil {
			st.assume(mkLe(mkInt(24), foot))
			st.assume(mkLe(foot, mkInt(0x7fffffff-8)))
			st.assume(mkLe(mkAdd(foot, mkInt(8)), cd))
			if _, _, _, head := parts(st, mkSub(cd, mkAdd(foot, mkInt(8)))); head != nil {
				st.assume(mkEq(head, foot))
			}
		}
		c.req(st.bot, "a signing block that is there is found", wh, "the search can fail although there is one")
	}
}

// openRule decides what is recorded about the file.
func (c *Check) openRule() {
	a := c.an(fnNewBlock)
	wh := a.where()
	r0 := a.ps[0]
	n := 0
	for _, r := range a.succErr(2) {
		n++
		st := r.st
		get := func(f string) *Term {
			if v := c.structField(r.vals[0], f); v != nil {
				return v
			}
			return a.cell(st, fieldOf(r.vals[0], tBlock+f))
		}
		c.req(unwrap(get("file")) == unwrap(r0), "the given file is searched", wh, "file %s", short(get("file")))
		c.req(get("fileSize").Op == "fsize" && get("fileSize").Args[0] == unwrap(r0), "the size of the file is taken", wh, "size %s", short(get("fileSize")))
		f, o, l, ok := filePart(innerLE(r.vals[1], "le32"))
		c.req(ok && f == unwrap(r0) && o == mkInt(0) && l == mkInt(4), "the magic is the start of the file", wh, "magic %s", short(r.vals[1]))
	}
	c.req(n > 0, "a file can be opened", wh, "no accepting path")
}

func innerLE(t *Term, op string) *Term {
	if t.Op == op {
		return t.Args[0]
	}
	return t
}

// onlyWrittenIn: the fields of a struct are only assigned in the given functions and in functions
// that only those call.
func (c *Check) onlyWrittenIn(typ string, in map[string][]string) {
	n := 0
	for _, f := range c.w.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				fa, ok := i.(*ssa.FieldAddr)
				if !ok || typeName(deref(fa.X.Type())) != typ {
					continue
				}
				name := fieldSym(deref(fa.X.Type()), fa.Field)
				name = name[strings.LastIndex(name, ".")+1:]
				fns, watched := in[name]
				if !watched || !escapes(fa) {
					continue
				}
				n++
				ok = false
				for _, w := range fns {
					if g := c.w.lookup(w); g != nil && (g == f || c.reachOnlyFrom(f, g)) {
						ok = true
					}
				}
				c.req(ok, "the layout of the file is only recorded by the search", c.w.posOf(f, fa.Pos())+" in "+shortFn(f), "%s is changed here", name)
			}
		}
	}
	c.req(n > 0, "the layout of the file is recorded", typ, "no assignment found")
}

// escapes: the address is used for anything but loads.
func escapes(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp:
		case *ssa.DebugRef:
		case *ssa.FieldAddr:
			if escapes(r) {
				return true
			}
		case *ssa.IndexAddr:
			if escapes(r) {
				return true
			}
		default:
			return true
		}
	}
	return false
}

func (c *Check) layoutRule() {
	c.openRule()
	c.eocdRule()
	c.zip64Rule()
	c.blockRule()
	c.onlyWrittenIn("signingblock.signingBlock", map[string][]string{
		"file": {fnNewBlock}, "fileSize": {fnNewBlock}, "eocdOffset": {fnFindEocd}, "centralDirOffset": {fnFindEocd},
		"centralDirSize": {fnFindEocd}, "eocd": {fnFindEocd}, "sigBlockOffset": {fnFind},
	})
}

func checkC28(c *Check) {
	c.layoutRule()
	c.collectRule()
}
