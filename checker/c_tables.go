package main

import (
	"fmt"
	"go/types"
	"strings"
)

func init() { checks = append(checks, checkDef{"C16", checkC16, 60}) }

const (
	fnV1Check = "apkverifier.(*schemeV1).checkSignature"
	fnV1Canon = "apkverifier.(*schemeV1).pkixCanonical"
)

// What the object identifiers denote: the hash function of a digest algorithm, and the key type and
// hash function ("" if the identifier leaves it open) of a signature algorithm.
var oidHash = map[string]string{
	"1.2.840.113549.2.2": "md2", "1.3.14.3.2.24": "md2", // md2, md2WithRSA
	"1.2.840.113549.2.5": "md5", "1.3.14.3.2.25": "md5", "1.3.14.3.2.3": "md5", // md5, md5WithRSA (two)
	"1.3.14.3.2.26": "sha1", "1.3.14.3.2.29": "sha1", // sha1, sha1WithRSA
	"2.16.840.1.101.3.4.2.1": "sha256", "2.16.840.1.101.3.4.2.2": "sha384", "2.16.840.1.101.3.4.2.3": "sha512", "2.16.840.1.101.3.4.2.4": "sha224",
}

var oidSig = map[string][2]string{
	"1.2.840.113549.1.1.1": {"rsa", ""}, "1.2.840.113549.1.1.2": {"rsa", "md2"}, "1.2.840.113549.1.1.4": {"rsa", "md5"}, "1.2.840.113549.1.1.5": {"rsa", "sha1"},
	"1.2.840.113549.1.1.11": {"rsa", "sha256"}, "1.2.840.113549.1.1.12": {"rsa", "sha384"}, "1.2.840.113549.1.1.13": {"rsa", "sha512"}, "1.2.840.113549.1.1.14": {"rsa", "sha224"},
	"1.2.840.10040.4.1": {"dsa", ""}, "1.2.840.10040.4.3": {"dsa", "sha1"}, "2.16.840.1.101.3.4.3.1": {"dsa", "sha224"}, "2.16.840.1.101.3.4.3.2": {"dsa", "sha256"},
	"1.2.840.10045.2.1": {"ecdsa", ""}, "1.2.840.10045.4.1": {"ecdsa", "sha1"}, "1.2.840.10045.4.3.1": {"ecdsa", "sha224"}, "1.2.840.10045.4.3.2": {"ecdsa", "sha256"},
	"1.2.840.10045.4.3.3": {"ecdsa", "sha384"}, "1.2.840.10045.4.3.4": {"ecdsa", "sha512"},
}

// v1Algo is an algorithm of a signature block by the number that stands for it (those of crypto/x509,
// further ones after 65534).
type v1Algo struct {
	num       int64
	key, hash string
}

var v1Algos = []v1Algo{{1, "rsa", "md2"}, {2, "rsa", "md5"}, {3, "rsa", "sha1"}, {4, "rsa", "sha256"}, {5, "rsa", "sha384"}, {6, "rsa", "sha512"},
	{7, "dsa", "sha1"}, {8, "dsa", "sha256"}, {9, "ecdsa", "sha1"}, {10, "ecdsa", "sha256"}, {11, "ecdsa", "sha384"}, {12, "ecdsa", "sha512"}}

// ownAlgo: the numbers the package defines for the algorithms crypto/x509 has none for.
func (c *Check) ownAlgos() []v1Algo {
	l := append([]v1Algo(nil), v1Algos...)
	for n, k := range map[string]string{"SHA224WithRSA": "rsa", "DSAWithSHA224": "dsa", "ECDSAWithSHA224": "ecdsa"} {
		v, ok := c.w.constInt(modPath, n)
		if !ok || v <= 16 {
			fatalf("constant %s not found", n)
		}
		l = append(l, v1Algo{v, k, "sha224"})
	}
	return l
}

// initialMap: the contents a package-level map is initialised with.
func (c *Check) initialMap(a *An, name string) map[*Term]*Term {
	out := map[*Term]*Term{}
	st := newState()
	m := a.x.mapContent(st, a.x.load(st, mk("glob", modPath+"."+name), c.w.globType(modPath, name)))
	for ; m.Op == "upd"; m = m.Args[0] {
		if _, ok := out[m.Args[1]]; !ok {
			out[m.Args[1]] = m.Args[2]
		}
	}
	c.req(m.Op == "mapnew" && len(out) > 0, "the table is a constant", name, "its contents are %s", short(m))
	return out
}

// digestNames: the table of digest names.
func (c *Check) digestNames(a *An) map[*Term]*Term {
	t := c.initialMap(a, "digestHashers")
	want := map[string]string{"sha-512": "crypto/sha512.New", "sha-384": "crypto/sha512.New384", "sha-256": "crypto/sha256.New", "sha1": "crypto/sha1.New", "sha": "crypto/sha1.New"}
	for k, v := range t {
		n := k.Sym
		c.req(want[n] != "" && v.Op == "fn" && v.Sym == want[n], "a digest name in a manifest selects the hash function it denotes", "digestHashers: "+k.String(), "selects %s", short(v))
	}
	for n := range want {
		c.req(t[mkStr(n)] != nil, "every digest name of the manifests is known", "digestHashers: "+n, "it is missing")
	}
	return t
}

func (c *Check) digestChoice() {
	a := c.an(fnV1Digests)
	wh := a.where()
	table := c.digestNames(a)
	entry, suffix, min, max := a.ps[1], a.ps[2], a.ps[3], a.ps[4]
	ents := content(entry)
	order := []string{"sha-512", "sha-384", "sha-256", "sha1"}
	listed := func(n *Term) *Term { return has(ents, mkCat(n, suffix)) }
	known := func(st *State, n *Term) bool {
		if d := st.dom[n]; d != nil && len(d.set) > 0 {
			for _, k := range d.set {
				if table[k] == nil {
					return false
				}
			}
			return true
		}
		return n.isConst() && table[n] != nil
	}
	n := 0
	for _, r := range a.rets {
		v := r.vals[0]
		// the strongest digest from level 18 on
		for i := 0; i <= len(order); i++ {
			s := r.st.clone()
			s.assume(mkLe(mkInt(18), max))
			for _, o := range order[:i] {
				s.assume(mkNot(listed(mkStr(o))))
			}
			if i < len(order) {
				s.assume(listed(mkStr(order[i])))
			}
			if s.bot {
				continue
			}
			old := v
			if i < len(order) {
				q := listOf(mkStr(order[i]))
				ok := v == q || v.Op == "app" && v.Args[1] == q
				c.req(ok, "from level 18 on the strongest digest counts", wh+": "+order[i], "the digests are %s", short(v))
				n++
				switch {
				case v == q:
					old = tNil
				case v.Op == "app":
					old = v.Args[0]
				}
			}
			c.oldDigests(a, s, old, entry, suffix, min, table, known)
		}
		s := r.st.clone()
		s.assume(mkLe(max, mkInt(17)))
		if !s.bot {
			c.oldDigests(a, s, v, entry, suffix, min, table, known)
		}
	}
	c.req(n > 0, "from level 18 on the strongest digest counts", wh, "no path adds one")
}

// oldDigests: the digests that count before level 18: all that the entry lists.
func (c *Check) oldDigests(a *An, st *State, v, entry, suffix, min *Term, table map[*Term]*Term, known func(*State, *Term) bool) {
	wh := a.where()
	ents := content(entry)
	s := st.clone()
	s.assume(mkLe(mkInt(18), min))
	if !s.bot {
		c.req(s.holds(mkEq(mkLen(v), mkInt(0))), "digests only count as on the levels asked for", wh+": no level before 18", "the digests are %s", short(v))
	}
	s = st.clone()
	s.assume(mkLe(min, mkInt(17)))
	if s.bot {
		return
	}
	found := false
	for _, split := range libCalls(s, "strings.Split", nil) {
		lower := mk("call", "strings.ToLower", look(ents, mkStr("digest-algorithms")))
		if split.Args[0] == mkStr("sha sha1") {
			if !s.holds(mkEq(res0(lower), mkStr(""))) {
				continue
			}
		} else if split.Args[0] != res0(lower) {
			continue
		}
		if split.Args[1] != mkStr(" ") {
			continue
		}
		if split.Args[0] != mkStr("sha sha1") && !s.holds(mkNot(mkEq(res0(lower), mkStr("")))) {
			continue
		}
		for _, it := range a.listIters(s, res0(split), nil) {
			k := it.l.cellPhi(v)
			if k == nil || mkLen(k.Init) != mkInt(0) {
				continue
			}
			found = true
			for _, b := range it.backs {
				in := has(ents, mkCat(it.elem, suffix))
				c.v1OldRound(a, it, b, k, in, min, table, known)
			}
		}
	}
	c.req(found, "before level 18 all listed digests count", wh, "the digests are %s", short(v))
}

func (c *Check) v1OldRound(a *An, it iter, b back, k *LoopCell, in, min *Term, table map[*Term]*Term, known func(*State, *Term) bool) {
	lw := a.loopWhere(it.l)
	switch b.step(k.Phi) {
	case k.Phi:
		// left out: unknown on the platform, or absent
		for name := range table {
			n := name.Sym
			s := b.st.clone()
			s.assume(mkEq(it.elem, name))
			s.assume(in)
			if n == "sha-384" || n == "sha-512" {
				s.assume(mkLe(mkInt(9), min))
			}
			c.req(s.bot, "before level 18 every listed digest that the platform knows counts", lw+": "+n, "it may be left out")
		}
	case app(k.Phi, listOf(it.elem)):
		c.req(b.st.holds(in), "only digests that the entry has count", lw, "a digest may be missing in the entry")
		c.req(known(b.st, it.elem), "only known digests count", lw, "an unknown digest may count")
		for _, n := range []string{"sha-384", "sha-512"} {
			s := b.st.clone()
			s.assume(mkEq(it.elem, mkStr(n)))
			s.assume(mkLe(min, mkInt(8)))
			c.req(s.bot, "only digests that the platform knows count", lw+": "+n, "it counts before level 9")
		}
	default:
		c.req(false, "only the listed digests count", lw, "the digests become %s", short(b.step(k.Phi)))
	}
}

// algoTable: the table of pairs of algorithm identifiers, and how it is used.
func (c *Check) algoTable() {
	a := c.an(fnV1SigVerify, fnV1Check, fnV1Canon)
	wh := a.where()
	algos := map[[2]string]int64{}
	for _, g := range c.ownAlgos() {
		algos[[2]string{g.key, g.hash}] = g.num
	}
	t := c.initialMap(a, "oidToAlgo")
	for k, v := range t {
		s := k.Sym
		p := strings.Split(s, " ")
		if len(p) != 2 {
			c.req(false, "a pair of algorithm identifiers selects the algorithm it denotes", "oidToAlgo: "+s, "not a pair")
			continue
		}
		sig, ok := oidSig[p[1]]
		h := sig[1]
		d := oidHash[p[0]]
		if h == "" {
			h = d
		}
		// identifiers without a hash of their own need one; a hash that is named twice has to be the same
		ok = ok && h != "" && (p[0] == "" || d != "" && d == h)
		c.req(ok && v == mkInt(algos[[2]string{sig[0], h}]), "a pair of algorithm identifiers selects the algorithm it denotes", "oidToAlgo: "+s, "selects %s", short(v))
	}
	n := 0
	for _, e := range a.x.log {
		if e.Kind != "call" || e.Name != dn(fnV1Check) {
			continue
		}
		n++
		cert, algo, sig := e.Args[2], e.Args[3], e.Args[5]
		_ = cert
		good := algo.Op == "look" && e.St.holds(has(algo.Args[0], algo.Args[1]))
		if good {
			cont := algo.Args[0]
			cnt := 0
			for ; cont.Op == "upd"; cont = cont.Args[0] {
				cnt++
			}
			good = cont.Op == "mapnew" && cnt >= len(t)
		}
		c.req(good, "the algorithm comes from the table", c.w.posOf(e.Fn, e.Instr.Pos())+" in "+shortFn(e.Fn), "it is %s", short(algo))
		good = good && c.pairKey(algo.Args[1], sig)
		c.req(good, "the algorithm is chosen by both identifiers of the signer", c.w.posOf(e.Fn, e.Instr.Pos())+" in "+shortFn(e.Fn), "it is %s", short(algo))
	}
	c.req(n > 0, "signatures of signature blocks are checked", wh, "no call")
}

const (
	tSI   = "fullsailor/pkcs7.SignerInfo."
	tAlgo = "crypto/x509/pkix.AlgorithmIdentifier.Algorithm"
)

// signerOf: the signer information a field's value belongs to.
func signerOf(v *Term, field string) *Term {
	if v.Op == "at" && v.Args[0].Op == "fa" && v.Args[0].Sym == tSI+field {
		return v.Args[0].Args[0]
	}
	return nil
}

// pairKey: the text "<digest identifier> <signature identifier>" of the signer whose signature it is.
func (c *Check) pairKey(k, sig *Term) bool {
	info := signerOf(sig, "EncryptedDigest")
	if info == nil {
		return false
	}
	oid := func(f string) *Term {
		return mk("res", "0", mk("call", "(encoding/asn1.ObjectIdentifier).String", at(fieldOf(fieldOf(info, tSI+f), tAlgo))))
	}
	d, e := oid("DigestAlgorithm"), oid("DigestEncryptionAlgorithm")
	if k.Op == "cat" {
		return k == mkCat(d, mkStr(" "), e)
	}
	if k.Op != "res" || k.Args[0].Op != "call" || !strings.HasPrefix(k.Args[0].Sym, "fmt.Sprint") {
		return false
	}
	f := k.Args[0]
	if f.Sym != "fmt.Sprintf" || f.Args[0] != mkStr("%s %s") || f.Args[1].Op != "list" || len(f.Args[1].Args) != 2 {
		return false
	}
	return unwrap(f.Args[1].Args[0]) == d && unwrap(f.Args[1].Args[1]) == e
}

// v1CheckRule: what the verification of the signature of a signature block means for every algorithm.
func (c *Check) v1CheckRule() {
	a := c.an(fnV1Check)
	wh := a.where()
	cert, algo, signed, sig := a.ps[1], a.ps[2], a.ps[3], a.ps[4]
	pub := at(fieldOf(cert, "crypto/x509.Certificate.PublicKey"))
	own := map[int64]bool{2: true, 7: true, 8: true}
	all := c.ownAlgos()
	// a signature may get leading zero bytes
	sigOk := func(t *Term) bool {
		return t == sig || t.Op == "cat" && len(t.Args) == 2 && t.Args[0].Op == "zeros" && t.Args[1] == sig
	}
	std := func(st *State, v, num *Term) bool {
		for _, k := range pureCalls(st, "(*crypto/x509.Certificate).CheckSignature", v) {
			if okErr(st, k, 0) && k.Args[0] == cert && st.holds(mkEq(k.Args[1], num)) && k.Args[2] == signed && sigOk(k.Args[3]) {
				return true
			}
		}
		return false
	}
	for _, g := range all {
		name := fmt.Sprintf("%s with %s (%d)", g.key, g.hash, g.num)
		ktype := "*crypto/" + g.key + ".PublicKey"
		key := mk("assert", ktype, pub)
		h := hashSum(g.hash, signed)
		n := 0
		for _, r := range a.rets {
			st := r.st.clone()
			st.assume(mkEq(algo, mkInt(g.num)))
			st.assume(mkEq(r.vals[0], tNil))
			if st.bot {
				continue
			}
			ok := false
			if g.num <= 16 {
				ok = std(st, r.vals[0], algo) || std(st, r.vals[0], mkInt(g.num))
				if ok && own[g.num] {
					continue // crypto/x509 refuses these
				}
			}
			n++
			switch g.key {
			case "rsa":
				for _, t := range pureCalls(st, "crypto/rsa.VerifyPKCS1v15", r.vals[0]) {
					ok = ok || okErr(st, t, 0) && t.Args[0] == key && dynIs(st, pub, ktype) && t.Args[1] == mkInt(hashIds[g.hash]) && t.Args[2] == h && sigOk(t.Args[3])
				}
			case "dsa":
				for _, t := range pureCalls(st, "crypto/dsa.Verify", r.vals[0]) {
					ok = ok || st.holds(res0(t)) && t.Args[0] == key && dynIs(st, pub, ktype) && c.dsaDigest(st, t.Args[1], h, key) && c.sigInt(a, st, sig, t.Args[2], 0) && c.sigInt(a, st, sig, t.Args[3], 1)
				}
			case "ecdsa":
				for _, t := range pureCalls(st, "crypto/ecdsa.Verify", r.vals[0]) {
					ok = ok || st.holds(res0(t)) && t.Args[0] == key && dynIs(st, pub, ktype) && t.Args[1] == h && c.sigInt(a, st, sig, t.Args[2], 0) && c.sigInt(a, st, sig, t.Args[3], 1)
				}
			}
			c.req(ok, "the signature of a signature block is verified as its algorithm says", wh+": "+name, "accepted without that verification")
		}
		c.req(n > 0, "every algorithm of signature blocks can verify", wh+": "+name, "no accepting path")
	}
	for _, r := range a.succErr(0) {
		st := r.st.clone()
		for _, g := range all {
			st.assume(mkNot(mkEq(algo, mkInt(g.num))))
		}
		c.req(st.bot || std(st, r.vals[0], algo), "other algorithms are left to crypto/x509", wh, "accepted for another algorithm")
	}
}

// dsaDigest: the leftmost bytes of the hash, as many as the order of the group has (or the whole, shorter hash).
func (c *Check) dsaDigest(st *State, d, h, key *Term) bool {
	bits := mkInt(0)
	q := func(t *Term) bool {
		if t.Op == "call" && t.Sym == "(*math/big.Int).BitLen" && t.Args[0].contains(key) {
			bits = res0(t)
		}
		return true
	}
	for _, f := range st.known() {
		f.walk(q)
	}
	d.walk(q)
	for _, n := range []*Term{mk("quo", "", bits, mkInt(8)), mk("quo", "", mkAdd(bits, mkInt(7)), mkInt(8))} {
		if d == mkTake(h, n) || d == h && st.holds(mkLe(mkLen(h), n)) {
			return true
		}
	}
	return false
}

// sigInt: v is the i-th of the exactly two integers that the signature consists of, and positive.
func (c *Check) sigInt(a *An, st *State, sig, v *Term, i int) bool {
	if v.Op != "at" || len(v.Args) != 2 || v.Args[0].Op != "fa" || v.Args[0].Args[0].Op != "obj" {
		return false
	}
	obj, call := v.Args[0].Args[0], v.Args[1]
	t, ok := a.x.objType[obj].Underlying().(*types.Struct)
	if !ok || t.NumFields() != 2 || v.Args[0].Sym != fieldSym(a.x.objType[obj], i) {
		return false
	}
	pos := false
	for _, k := range pureCalls(st, "(*math/big.Int).Sign") {
		pos = pos || k.Args[0] == v && st.holds(lt(mkInt(0), res0(k)))
	}
	if !pos {
		return false
	}
	for _, n := range []string{"internal/asn1andr.Unmarshal", "encoding/asn1.Unmarshal"} {
		for _, d := range dids(st, n) {
			if callOf(d) != call || !okErr(st, call, 1) || !st.holds(mkEq(mkLen(res0(call)), mkInt(0))) {
				continue
			}
			if arg(d, 0) == sig || arg(d, 0).Op == "cat" && arg(d, 0).Args[0].Op == "zeros" && arg(d, 0).Args[1] == sig {
				return true
			}
		}
	}
	return false
}

// hashOid: the digest algorithm of signed attributes.
func (c *Check) hashOid() {
	fn := "apkverifier.(*schemeV1).getHashForOID"
	if c.w.lookup(fn) == nil {
		return // inlined, C15 decides what is compared
	}
	a := c.an(fn)
	n := 0
	for _, r := range a.succErr(1) {
		v, ok := r.vals[0].int64()
		good := false
		for _, k := range pureCalls(r.st, "(encoding/asn1.ObjectIdentifier).Equal") {
			if !r.st.holds(res0(k)) {
				continue
			}
			for i := 0; i < 2; i++ {
				if k.Args[i] == a.ps[1] && k.Args[1-i].Op == "list" {
					var p []string
					for _, x := range k.Args[1-i].Args {
						p = append(p, x.String())
					}
					good = good || ok && cryptoHashes[v] == oidHash[strings.Join(p, ".")]
				}
			}
		}
		n++
		c.req(good, "a digest identifier selects the hash function it denotes", a.where()+fmt.Sprintf(": %d", v), "it is not the one of the identifier")
	}
	c.req(n > 0, "a digest identifier selects the hash function it denotes", a.where(), "never")
}

func checkC16(c *Check) {
	c.digestChoice()
	c.algoTable()
	c.v1CheckRule()
	c.hashOid()
}
