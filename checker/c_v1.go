package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks = append(checks, checkDef{"C13", checkC13, 7})
}

const (
	fnV1Digests = "apkverifier.(*schemeV1).getDigestsToVerify"
	fnV1Entry1  = "apkverifier.verifySchemeV1"
	fnV1New     = "apkverifier.newSchemeV1"
	fnV1Match   = "apkverifier.(*schemeV1).certChainsMatch"
	fnParseMan  = "apkverifier.parseManifest"
	tZip        = "github.com/avast/apkparser.ZipReader."
	tZipFile    = "github.com/avast/apkparser.ZipReaderFile."
)

// ---- digests of a manifest section ----

// isHasher: h is the hash object for the digest name algo on the path of st: made by the constructor
// that the table holds for it, or taken from the cache of such objects.
func (c *Check) isHasher(a *An, st *State, h, algo *Term) bool {
	switch h.Op {
	case "look":
		if h.Args[1] != algo {
			return false
		}
		cache := fieldOf(a.ps[0], tV1+"hashers")
		m := h.Args[0]
		if m.Op == "content" && m.Args[0] == at(cache) {
			return true
		}
		for _, l := range a.sortedLoops() {
			for _, k := range l.Cells {
				if k.Phi == innermost(m) && k.Addr == at(cache) {
					return true
				}
			}
		}
	case "res":
		return h.Sym == "0" && c.isFactory(h.Args[0], algo)
	}
	return false
}

// isFactory: the call of the constructor that the table of digest names holds for algo.
func (c *Check) isFactory(call, algo *Term) bool {
	if call.Op != "call" || !strings.HasPrefix(call.Sym, "dyn@") || len(call.Args) == 0 {
		return false
	}
	f := call.Args[0]
	return f.Op == "look" && f.Args[1] == algo && c.isDigestTable(f.Args[0])
}

// knownDigest: the key is one of the acceptable digests, which are all in the table (digestNames).
func (c *Check) knownDigest(m, k *Term) bool {
	return k.Op == "at" && k.Args[0].Op == "ia" && k.Args[0].Args[0].Op == "res" && k.Args[0].Args[0].Sym == "0" &&
		strings.HasPrefix(k.Args[0].Args[0].Args[0].Sym, dn(fnV1Digests)+"@") && c.isDigestTable(m)
}

func (c *Check) isDigestTable(m *Term) bool {
	n := 0
	for ; m.Op == "upd"; m = m.Args[0] {
		n++
	}
	return m.Op == "mapnew" && n > 0 || m.Op == "content" && m.Args[0].Op == "at" && m.Args[0].Args[0] == mk("glob", modPath+".digestHashers")
}

// hasherCache: the cache of hash objects only holds, under every name, an object made by the constructor for it.
func (c *Check) hasherCache(as ...*An) {
	ok := map[ssa.Instruction]bool{}
	for _, a := range as {
		for _, e := range a.x.log {
			if e.Kind == "mapupdate" {
				if _, ours := e.Instr.(*ssa.MapUpdate); ours && isHashMap(e.Instr.(*ssa.MapUpdate).Map.Type()) {
					m, k, v := e.Args[0], e.Args[1], e.Args[2]
					good := m == at(fieldOf(a.ps[0], tV1+"hashers")) && v.Op == "res" && c.isFactory(v.Args[0], k)
					c.req(good, "cached hash objects belong to the digest name they are cached for", c.w.posOf(e.Fn, e.Instr.Pos())+" in "+shortFn(e.Fn), "%s becomes %s", short(k), short(v))
					ok[e.Instr] = true
				}
			}
		}
	}
	for _, f := range c.w.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if m, is := i.(*ssa.MapUpdate); is && isHashMap(m.Map.Type()) && !ok[i] {
					c.req(false, "cached hash objects belong to the digest name they are cached for", c.w.posOf(f, i.Pos())+" in "+shortFn(f), "the cache is filled here")
				}
			}
		}
	}
}

func isHashMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	n, ok := m.Elem().(*types.Named)
	return ok && n.Obj().Name() == "Hash" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "hash"
}

// sumOf: the value is the hash of data by the object for the digest name algo.
func (c *Check) sumOf(a *An, st *State, v, algo *Term) (data *Term) {
	if v.Op != "hashsumv" || v.Args[0].Op != "halg0" || !c.isHasher(a, st, v.Args[0].Args[0], algo) {
		return nil
	}
	h, data := v.Args[0].Args[0], v.Args[1]
	if h.Op == "res" && data.Op == "cat" && data.Args[0] == mk("hdata0", "", h) {
		data = mkDropFirst(data) // what the constructors return has no data yet (digestNames)
	}
	return data
}

// mkDropFirst is the concatenation without its first part.
func mkDropFirst(t *Term) *Term {
	out := t.Args[len(t.Args)-1]
	for i := len(t.Args) - 2; i > 0; i-- {
		out = mkCat(t.Args[i], out)
	}
	return out
}

// v1Digests: on the path of st all digests that count of the section entry were compared with
// what dataOk accepts. It returns the reason why not.
func (c *Check) v1Digests(a *An, st *State, entry, suffix, min, max *Term, dataOk func(s *State, data *Term) bool) string {
	why := "the acceptable digests of the entry are not determined"
	for _, d := range dids(st, dn(fnV1Digests)) {
		if arg(d, 0) != a.ps[0] || !same(st, arg(d, 1), entry) || arg(d, 2) != suffix || arg(d, 3) != min || arg(d, 4) != max {
			continue
		}
		list := res0(callOf(d))
		if !st.holds(mkLe(mkInt(1), mkLen(list))) {
			why = "there may be no acceptable digest"
			continue
		}
		why = "not every acceptable digest is compared"
		for _, it := range a.listIters(st, list, nil) {
			good := true
			for _, b := range it.backs {
				good = good && c.digestCompared(a, b.st, entry, suffix, it.elem, dataOk)
			}
			if good {
				return ""
			}
		}
	}
	return why
}

func (c *Check) digestCompared(a *An, st *State, entry, suffix, algo *Term, dataOk func(s *State, data *Term) bool) bool {
	for _, f := range st.sortedFacts() {
		if f.Op != "eq" {
			continue
		}
		for i := range f.Args {
			data := c.sumOf(a, st, f.Args[i], algo)
			if data == nil || !c.decoded(st, f.Args[1-i], look(content(entry), mkCat(algo, suffix))) {
				continue
			}
			if dataOk(st, data) {
				return true
			}
		}
	}
	return false
}

// decoded: v is what the base64 text stands for.
func (c *Check) decoded(st *State, v, text *Term) bool {
	if v.Op != "res" || v.Sym != "0" {
		return false
	}
	k := v.Args[0]
	return k.Op == "call" && k.Sym == "(*encoding/base64.Encoding).DecodeString" && okErr(st, k, 1) && same(st, k.Args[1], text) &&
		k.Args[0].contains(mk("glob", "encoding/base64.StdEncoding"))
}

// wholeFile: data is everything that one reading of the file gives.
func wholeFile(st *State, data, f *Term) bool {
	opened, whole := false, false
	for _, d := range st.sortedFacts() {
		if d.Op != "did" {
			continue
		}
		touches := false
		for _, x := range d.Args[1:] {
			touches = touches || unwrap(x) == f
		}
		if !touches {
			continue
		}
		switch {
		case d.Sym == "(*github.com/avast/apkparser.ZipReaderFile).Open":
			opened = opened || okErr(st, callOf(d), 0)
		case strings.HasSuffix(d.Sym, "apkparser.ZipReaderFile).Next"), strings.HasSuffix(d.Sym, "apkparser.ZipReaderFile).Close"):
		case d.Sym == "io.Copy":
			whole = whole || data.Op == "streamrest" && data.Args[0] == f
		case d.Sym == "io.ReadAll" || d.Sym == "io/ioutil.ReadAll":
			whole = whole || data == res0(callOf(d)) && okErr(st, callOf(d), 1)
		default:
			return false
		}
	}
	return opened && whole
}

// ---- the files of the archive ----

// visit is one way of going through all files of the archive.
type visit struct {
	it          iter
	name, isDir *Term
}

func (c *Check) fileVisits(a *An, st *State, apk *Term) []visit {
	var out []visit
	for _, it := range a.listIters(st, at(fieldOf(apk, tZip+"FilesOrdered")), nil) {
		out = append(out, visit{it, at(fieldOf(it.elem, tZipFile+"Name")), at(fieldOf(it.elem, tZipFile+"IsDir"))})
	}
	files := content(at(fieldOf(apk, tZip+"File")))
	for _, it := range a.keyIters(st, files, nil) {
		f := look(files, it.elem)
		out = append(out, visit{it, it.elem, at(fieldOf(f, tZipFile+"IsDir"))})
		if it.elem.Op != "mapkey" {
			continue
		}
		v := mk("mapval", it.elem.Sym, it.elem.Args...)
		out = append(out, visit{it, it.elem, at(fieldOf(v, tZipFile+"IsDir"))})
	}
	return out
}

// textIs gives st under the assumption that the text t is the constant.
func textIs(st *State, t *Term, v string) *State {
	s := st.clone()
	s.assume(mkEq(t, mkStr(v)))
	for name, f := range map[string]func(a, b string) bool{"strings.HasPrefix": strings.HasPrefix, "strings.HasSuffix": strings.HasSuffix, "strings.Contains": strings.Contains} {
		for _, k := range libCalls(st, name, t) {
			if len(k.Args) == 2 && k.Args[0] == t && k.Args[1].Op == "s" {
				s.assume(mkEq(res0(k), mkBool(f(v, k.Args[1].Sym))))
				if f(v, k.Args[1].Sym) {
					s.assume(res0(k))
				} else {
					s.assume(mkNot(res0(k)))
				}
			}
		}
	}
	return s
}

func below(dir string, name *Term) *Term {
	return res0(mk("call", "strings.HasPrefix", name, mkStr(dir)))
}

// collected: the cells of the loop that hold the names of all files that need a digest.
func (c *Check) collected(v visit) []*Term {
	var out []*Term
	for _, k := range v.it.l.Cells {
		if mkLen(k.Init) != mkInt(0) {
			continue
		}
		good, some := true, false
		for _, b := range v.it.backs {
			step := b.step(k.Phi)
			if step == app(k.Phi, listOf(v.name)) {
				some = true
				continue
			}
			if step != k.Phi {
				good = false
				break
			}
			s := b.st.clone()
			s.assume(mkNot(v.isDir))
			s.assume(mkNot(below("META-INF/", v.name)))
			if !s.bot && !c.seenBefore(v, k, s) {
				good = false
				break
			}
		}
		if good && some {
			out = append(out, k.Phi)
		}
	}
	return out
}

// seenBefore: the name is in a set of names that were all collected.
func (c *Check) seenBefore(v visit, list *LoopCell, s *State) bool {
	for _, k := range v.it.l.Cells {
		if innermost(k.Init).Op != "mapnew" || k.Init.Op == "upd" {
			continue
		}
		if !s.holds(look(k.Phi, v.name)) && !s.holds(has(k.Phi, v.name)) {
			continue
		}
		good := true
		for _, b := range v.it.backs {
			step := b.step(k.Phi)
			if step == k.Phi {
				continue
			}
			if step.Op != "upd" || step.Args[0] != k.Phi || step.Args[1] != v.name {
				good = false
				break
			}
			t := b.st.clone()
			t.assume(mkNot(below("META-INF/", v.name)))
			t.assume(mkNot(v.isDir))
			if !t.bot && b.step(list.Phi) != app(list.Phi, listOf(v.name)) {
				good = false
			}
		}
		if good {
			return true
		}
	}
	return false
}

// sawFile: the state implies that the archive has one of the named files.
func (c *Check) sawFile(a *An, st *State, v visit, apk *Term, names ...string) bool {
	files := content(at(fieldOf(apk, tZip+"File")))
	for _, n := range names {
		if st.holds(has(files, mkStr(n))) || st.holds(nonNilT(look(files, mkStr(n)))) {
			return true
		}
	}
	for _, k := range v.it.l.Cells {
		if k.Init.Op == "mapnew" { // a set of names of files
			in := false
			for _, n := range names {
				in = in || st.holds(has(k.Phi, mkStr(n))) || st.holds(look(k.Phi, mkStr(n)))
			}
			for _, b := range v.it.backs {
				step := b.step(k.Phi)
				in = in && (step == k.Phi || step.Op == "upd" && step.Args[0] == k.Phi && step.Args[1] == v.name)
			}
			if in {
				return true
			}
			continue
		}
		if k.Init != tFalse || !st.holds(k.Phi) {
			continue
		}
		good := true
		for _, b := range v.it.backs {
			if b.step(k.Phi) == k.Phi {
				continue
			}
			s := b.st.clone()
			for _, n := range names {
				s.assume(mkNot(mkEq(v.name, mkStr(n))))
			}
			s.assume(b.step(k.Phi))
			good = good && s.bot
		}
		if good {
			return true
		}
	}
	return false
}

// mainManifest decides what the manifest has to say about the files of the archive.
func (c *Check) mainManifest() {
	a := c.v1Main()
	wh := a.where()
	p, apk, min, max := a.ps[0], a.ps[1], a.ps[2], a.ps[3]
	entries := content(at(fieldOf(at(fieldOf(p, tV1+"manifest")), tManifest+"entries")))
	files := content(at(fieldOf(apk, tZip+"File")))
	rets := a.succErr(0)
	c.req(len(rets) > 0, "the manifest can be accepted", wh, "no accepting path")
	for _, r := range rets {
		st := r.st
		// every manifest entry names a file
		good := false
		mits := a.keyIters(st, entries, nil)
		for _, it := range mits {
			g := true
			for _, b := range it.backs {
				g = g && (b.st.holds(has(files, it.elem)) || b.st.holds(nonNilT(look(files, it.elem))))
			}
			good = good || g
		}
		c.req(good, "every manifest entry names a file of the archive", wh, "an accepting path does not look up all entries")
		// every file has been digested
		good = false
		its, why := c.requiredIters(a, st, apk)
		for _, it := range its {
			g := true
			for _, b := range it.backs {
				if !b.st.holds(has(entries, it.elem)) && !b.st.holds(nonNilT(look(entries, it.elem))) {
					g, why = false, "a file may have no manifest entry"
					break
				}
				f := look(files, it.elem)
				w := c.v1Digests(a, b.st, look(entries, it.elem), mkStr("-digest"), min, max, func(s *State, data *Term) bool {
					return wholeFile(s, data, f)
				})
				if w != "" {
					g, why = false, w
					break
				}
			}
			good = good || g
		}
		c.req(good, "every file of the archive matches all its acceptable digests in the manifest", wh, "%s", why)
	}
}

// requiredIters: the completed loops over all files that need a digest, or why there is none.
func (c *Check) requiredIters(a *An, st *State, apk *Term) (its []iter, why string) {
	why = "the files of the archive are not collected"
	for _, v := range c.fileVisits(a, st, apk) {
		for _, list := range c.collected(v) {
			man := c.sawFile(a, st, v, apk, "AndroidManifest.xml", "BundleConfig.pb")
			for _, l := range []*Term{list, app(list, listOf(mkStr("AndroidManifest.xml")))} {
				if l == list && !man {
					why = "neither the Android manifest nor a bundle configuration is required"
					continue
				}
				its = append(its, a.listIters(st, l, nil)...)
			}
		}
	}
	return
}

// anMaps: an analysis that also records updates of maps.
func (c *Check) anMaps(name string, bounds ...string) *An { return c.anMaps2(name, 0, bounds...) }

// anMaps2 with more room for paths.
func (c *Check) anMaps2(name string, room int, bounds ...string) *An {
	key := name + "|maps|" + strings.Join(bounds, "|")
	if a, ok := c.ans[key]; ok {
		return a
	}
	a := c.anOpt(name, func(x *Exec, f *ssa.Function, ps []*Term, st *State) {
		x.wantEvent["mapupdate"] = true
		x.hasKey = c.knownDigest
		if room > 0 {
			x.maxStates, x.maxEntry = 5*room, room
			x.keepCells = []*Term{fieldOf(ps[0], tV1+"chain")}
		}
	}, bounds...)
	c.ans[key] = a
	return a
}

func (c *Check) v1Main() *An {
	return c.anMaps(fnV1Main, fnV1Ordered, fnV1Digests, fnV1Match)
}

// v1Flow: the scheme is read from the archive, verified with the caller's arguments and its manifest is checked.
func (c *Check) v1Flow() {
	a := c.an(fnV1Entry1, fnV1New, fnV1Verify)
	wh := a.where()
	n := 0
	for _, r := range a.succErr(1) {
		n++
		ok := false
		for _, d := range dids(r.st, dn(fnV1New)) {
			if arg(d, 0) != a.ps[0] || !okErr(r.st, callOf(d), 1) {
				continue
			}
			for _, v := range dids(r.st, dn(fnV1Verify)) {
				ok = ok || arg(v, 0) == res0(callOf(d)) && arg(v, 1) == a.ps[0] && arg(v, 2) == a.ps[1] && arg(v, 3) == a.ps[2] && arg(v, 4) == a.ps[3] && okErr(r.st, callOf(v), 0)
			}
		}
		c.req(ok, "a v1 signature is accepted only after the scheme read from the archive was verified", wh, "success without it")
	}
	c.req(n > 0, "v1 signatures can be accepted", wh, "no accepting path")
	v := c.v1Verify()
	for _, r := range v.succErr(0) {
		ok := false
		for _, d := range dids(r.st, dn(fnV1Main)) {
			ok = ok || arg(d, 0) == v.ps[0] && arg(d, 1) == v.ps[1] && arg(d, 2) == v.ps[3] && arg(d, 3) == v.ps[4] && okErr(r.st, callOf(d), 0)
		}
		c.req(ok, "a v1 signature is accepted only after its manifest was checked against the files", v.where(), "success without it")
	}
}

// v1Reading: the manifest that counts is the file META-INF/MANIFEST.MF.
func (c *Check) v1Reading() {
	a := c.an(fnV1New, fnParseMan, "apkverifier.(*schemeV1).addSignatureBlock", "apkverifier.(*schemeV1).addSignatureFile", "apkverifier.(*schemeV1).prepForVerification")
	wh := a.where()
	n := 0
	for _, r := range a.succErr(1) {
		man := c.fieldNow(a, r.st, r.vals[0], tV1+"manifest")
		good := false
		for _, v := range c.fileVisits(a, r.st, a.ps[0]) {
			for _, k := range v.it.l.Cells {
				if k.Init != tNil || k.Phi != man {
					continue
				}
				g := true
				for _, b := range v.it.backs {
					s := b.st.clone()
					step := b.step(k.Phi)
					if step == k.Phi {
						g = g && textIs(s, v.name, "META-INF/MANIFEST.MF").bot
						continue
					}
					ok := false
					for _, d := range dids(b.st, dn(fnParseMan)) {
						ok = ok || step == res0(callOf(d)) && okErr(b.st, callOf(d), 1) && arg(d, 0) == v.it.elem && arg(d, 1) == tTrue
					}
					n++
					g = g && ok && s.holds(mkEq(v.name, mkStr("META-INF/MANIFEST.MF"))) && s.holds(mkEq(k.Phi, tNil))
				}
				good = good || g
			}
		}
		c.req(good, "the manifest is read from META-INF/MANIFEST.MF, once", wh, "manifest %s", short(man))
	}
	c.req(n > 0, "the manifest is read", wh, "no round reads it")
}

// fieldNow: the value of a field of the object (or struct value) in st.
func (c *Check) fieldNow(a *An, st *State, obj *Term, f string) *Term {
	if obj.Op == "ref" {
		obj = obj.Args[0]
	}
	if v, ok := a.x.get(st, fieldOf(obj, f)); ok {
		return v
	}
	return a.cell(st, fieldOf(obj, f))
}

func checkC13(c *Check) {
	c.mainManifest()
	c.v1Flow()
	c.v1Reading()
	c.hasherCache(c.v1Main())
}
