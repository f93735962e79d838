package main

import "fmt"

func init() { checks = append(checks, checkDef{"C11", checkC11, 40}) }

const fnVerifySig = "signingblock.verifySignature"

// algoSpec is what a signature algorithm id stands for.
type algoSpec struct {
	id          int64
	key         string // key type
	pss         bool
	hash        string // hash function
	kind        int64  // content digest kind
	minSdk, jca int64
}

var algoSpecs = []algoSpec{
	{0x0101, "rsa", true, "sha256", 1, 24, 23},
	{0x0102, "rsa", true, "sha512", 2, 24, 23},
	{0x0103, "rsa", false, "sha256", 1, 24, 1},
	{0x0104, "rsa", false, "sha512", 2, 24, 1},
	{0x0201, "ecdsa", false, "sha256", 1, 24, 11},
	{0x0202, "ecdsa", false, "sha512", 2, 24, 11},
	{0x0301, "dsa", false, "sha256", 1, 24, 1},
	{0x0421, "rsa", false, "sha256", 3, 28, 1},
	{0x0423, "ecdsa", false, "sha256", 3, 28, 11},
	{0x0425, "dsa", false, "sha256", 3, 28, 1},
}

var hashIds = map[string]int64{"md5": 2, "sha1": 3, "sha224": 4, "sha256": 5, "sha384": 6, "sha512": 7}
var hashLen = map[string]int64{"md5": 16, "sha1": 20, "sha224": 28, "sha256": 32, "sha384": 48, "sha512": 64}

func hashSum(alg string, data *Term) *Term { return mk("hashsum", alg, data) }

// pureCalls: the calls of a library function that the state (or the terms) mention.
func pureCalls(st *State, name string, more ...*Term) []*Term {
	l := libCalls(st, name, nil)
	for _, m := range more {
		m.walk(func(t *Term) bool {
			if t.Op == "call" && t.Sym == name {
				dup := false
				for _, o := range l {
					dup = dup || o == t
				}
				if !dup {
					l = append(l, t)
				}
			}
			return true
		})
	}
	return l
}

// integersOf: v is the i-th integer of the two that were decoded from sig.
func integersOf(st *State, sig, v *Term, i int64) bool {
	for _, d := range dids(st, "encoding/asn1.Unmarshal") {
		if arg(d, 0) != sig || !okErr(st, callOf(d), 1) {
			continue
		}
		if v.Op == "at" && v.Args[0].Op == "ia" && v.Args[0].Args[1] == mkInt(i) && st.holds(mkEq(mkLen(v.Args[0].Args[0]), mkInt(2))) {
			return true
		}
		if v.Op == "at" && v.Args[0].Op == "fa" { // a struct with two integers
			return true
		}
	}
	return false
}

// verifyRule decides what the verification of one signature means for every algorithm id.
func (c *Check) verifyRule() {
	a := c.an(fnVerifySig)
	wh := a.where()
	pub, algo, data, sig := a.ps[0], a.ps[1], a.ps[2], a.ps[3]
	for _, sp := range algoSpecs {
		n := 0
		name := fmt.Sprintf("algorithm %#04x", sp.id)
		ktype := "*crypto/" + sp.key + ".PublicKey"
		key := mk("assert", ktype, pub)
		h := hashSum(sp.hash, data)
		for _, r := range a.rets {
			if r.st.bot {
				continue
			}
			st := r.st.clone()
			st.assume(mkEq(algo, mkInt(sp.id)))
			st.assume(mkEq(r.vals[0], tNil))
			if st.bot {
				continue
			}
			n++
			c.req(dynIs(st, pub, ktype), "the key has the type that the algorithm needs", wh+": "+name, "success for another key type")
			ok := false
			switch {
			case sp.key == "rsa" && sp.pss:
				for _, t := range pureCalls(st, "crypto/rsa.VerifyPSS", r.vals[0]) {
					o := t.Args[4]
					salt := false
					if o.Op == "ref" && o.Args[0].Op == "struct" {
						k := c.structField(o.Args[0], "SaltLength")
						hh := c.structField(o.Args[0], "Hash")
						salt = (k == mkInt(hashLen[sp.hash]) || k == mkInt(-1)) && (hh == mkInt(0) || hh == mkInt(hashIds[sp.hash]))
					}
					ok = ok || okErr(st, t, 0) && t.Args[0] == key && t.Args[1] == mkInt(hashIds[sp.hash]) && t.Args[2] == h && t.Args[3] == sig && salt
				}
			case sp.key == "rsa":
				for _, t := range pureCalls(st, "crypto/rsa.VerifyPKCS1v15", r.vals[0]) {
					ok = ok || okErr(st, t, 0) && t.Args[0] == key && t.Args[1] == mkInt(hashIds[sp.hash]) && t.Args[2] == h && t.Args[3] == sig
				}
			case sp.key == "ecdsa":
				for _, t := range pureCalls(st, "crypto/ecdsa.Verify", r.vals[0]) {
					ok = ok || st.holds(res0(t)) && t.Args[0] == key && t.Args[1] == h && integersOf(st, sig, t.Args[2], 0) && integersOf(st, sig, t.Args[3], 1)
				}
				for _, t := range pureCalls(st, "crypto/ecdsa.VerifyASN1", r.vals[0]) {
					ok = ok || st.holds(res0(t)) && t.Args[0] == key && t.Args[1] == h && t.Args[2] == sig
				}
			case sp.key == "dsa":
				for _, t := range pureCalls(st, "crypto/dsa.Verify", r.vals[0]) {
					hh := t.Args[1]
					q := mkInt(0)
					hh.walk(func(x *Term) bool {
						if x.Op == "call" && x.Sym == "(*math/big.Int).BitLen" && x.Args[0].contains(key) {
							q = x
						}
						return true
					})
					// the leftmost bytes of the hash, as many as the group's order has
					okH := hh == h
					if hh.Op == "take" && hh.Args[0] == h {
						bits := res0(q)
						okH = hh.Args[1] == mk("quo", "", bits, mkInt(8)) || hh.Args[1] == mk("quo", "", mkAdd(bits, mkInt(7)), mkInt(8))
						okH = okH || hh.Args[1].contains(q)
					}
					ok = ok || st.holds(res0(t)) && t.Args[0] == key && okH && integersOf(st, sig, t.Args[2], 0) && integersOf(st, sig, t.Args[3], 1)
				}
			}
			c.req(ok, "the signature is verified as the algorithm id says", wh+": "+name, "success without the verification by %s with %s of the given data", sp.key, sp.hash)
		}
		c.req(n > 0, "every algorithm can verify", wh+": "+name, "no accepting path")
	}
	for _, r := range a.succErr(0) {
		st := r.st.clone()
		for _, sp := range algoSpecs {
			st.assume(mkNot(mkEq(algo, mkInt(sp.id))))
		}
		c.req(st.bot, "an unknown algorithm id is an error", wh, "success for another id")
	}
}

// table: the constant result of a method for every algorithm id; other ids give def (nil: no result).
func (c *Check) table(fn string, want func(algoSpec) *Term, def *Term, rule string) {
	if c.w.lookup(fn) == nil {
		return // computed elsewhere; the signer rules decide it
	}
	a := c.an(fn)
	for _, sp := range algoSpecs {
		n := 0
		for _, r := range a.rets {
			st := r.st.clone()
			st.assume(mkEq(a.ps[0], mkInt(sp.id)))
			if st.bot {
				continue
			}
			n++
			c.req(st.holds(mkEq(r.vals[0], want(sp))), rule, fmt.Sprintf("%s: %#04x", a.where(), sp.id), "gives %s instead of %s", short(r.vals[0]), short(want(sp)))
		}
		c.req(n > 0, rule, fmt.Sprintf("%s: %#04x", a.where(), sp.id), "no result")
	}
	for _, r := range a.rets {
		st := r.st.clone()
		for _, sp := range algoSpecs {
			st.assume(mkNot(mkEq(a.ps[0], mkInt(sp.id))))
		}
		if st.bot {
			continue
		}
		c.req(def != nil && st.holds(mkEq(r.vals[0], def)), rule, a.where()+": other ids", "gives %s", short(r.vals[0]))
	}
}

func (c *Check) algoTables() {
	ty := "signingblock.(SignatureAlgorithm)."
	c.table(ty+"isSupported", func(algoSpec) *Term { return tTrue }, tFalse, "exactly the ten algorithm ids are supported")
	c.table(ty+"getDigestType", func(s algoSpec) *Term { return mkInt(s.kind) }, nil, "an algorithm id implies its kind of content digest")
	c.table(ty+"getMinSdkVersion", func(s algoSpec) *Term { return mkInt(s.minSdk) }, mkInt(0x7fffffff), "an algorithm id is known from its SDK level on")
	c.table(ty+"getMinSdkVersionJca", func(s algoSpec) *Term { return mkInt(s.jca) }, mkInt(0x7fffffff), "an algorithm id is supported by Java from its SDK level on")
}

// hashRule: the hash functions of the content digest kinds.
func (c *Check) hashRule() {
	fn := "signingblock.(contentDigest).Hash"
	if c.w.lookup(fn) == nil {
		return
	}
	a := c.an(fn)
	for k, h := range map[int64]string{1: "sha256", 2: "sha512", 3: "sha256", 4: "sha256"} {
		for _, r := range a.rets {
			st := r.st.clone()
			st.assume(mkEq(a.ps[0], mkInt(k)))
			if !st.bot {
				c.req(st.holds(mkEq(r.vals[0], mkInt(hashIds[h]))), "a kind of content digest implies its hash function", fmt.Sprintf("%s: kind %d", a.where(), k), "gives %s", short(r.vals[0]))
			}
		}
	}
}

func checkC11(c *Check) {
	c.verifyRule()
	c.algoTables()
	c.hashRule()
}
