package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks = append(checks, checkDef{"C15", checkC15, 14}) }

const (
	tPK        = "fullsailor/pkcs7.PKCS7."
	tX509      = "crypto/x509.Certificate."
	fnSigInfos = "pkcs7.(*PKCS7).GetSignerInfos"
	fnSigAttr  = "pkcs7.(*SignerInfo).UnmarshalSignedAttribute"
	fnMarshAtt = "pkcs7.(*SignerInfo).MarshalAuthenticatedAttributes"
	anUnmarsh  = "internal/asn1andr.Unmarshal"
)

// pk names a function of the pkcs7 package as calls do.
func pk(anchor string) string { return strings.Replace(dn(anchor), "pkcs7.", "fullsailor/pkcs7.", 1) }

// firstElem: the first element of a list that only grows.
func (a *An) firstElem(st *State, v *Term) *Term {
	for i := 0; i < 20; i++ {
		switch v.Op {
		case "list":
			if len(v.Args) > 0 {
				return v.Args[0]
			}
			return nil
		case "app":
			v = v.Args[0]
			continue
		case "sl":
			return a.x.load(st, ia(v.Args[0], mkInt(0)), nil)
		}
		var cell *LoopCell
		for _, l := range a.doneLoops(st) {
			if c := l.cellPhi(v); c != nil {
				for _, b := range a.backs(l, nil) {
					s := b.step(v)
					for s.Op == "app" {
						s = s.Args[0]
					}
					if s != v {
						return nil
					}
				}
				cell = c
			}
		}
		if cell == nil {
			return nil
		}
		v = cell.Init
	}
	return nil
}

// vouched says why the certificate might not be one whose signature verified.
func (c *Check) vouched(a *An, st *State, cert *Term) string {
	for _, l := range a.doneLoops(st) {
		k := l.cellPhi(cert)
		if k == nil {
			continue
		}
		if k.Init != tNil {
			if w := c.vouched(a, st, k.Init); w != "" {
				return w
			}
		}
		for _, b := range a.backs(l, nil) {
			if s := b.step(cert); s != cert {
				if w := c.vouched(a, b.st, s); w != "" {
					return w
				}
			}
		}
		return ""
	}
	return c.sigVerified(a, st, cert)
}

// sigVerified says why no signature verified with the key of this certificate on the path of st.
func (c *Check) sigVerified(a *An, st *State, cert *Term) string {
	p, sig, max := a.ps[0], a.ps[1], a.ps[3]
	block := at(fieldOf(sig, tV1Sig+"cert"))
	raw := at(fieldOf(at(fieldOf(sig, tV1Sig+"signatureManifest")), tManifest+"rawData"))
	certs := at(fieldOf(block, tPK+"Certificates"))
	if cert.Op != "at" || cert.Args[0].Op != "ia" || cert.Args[0].Args[0] != certs {
		return "the signer's certificate is " + short(cert) + ", not one of the signature block"
	}
	why := "no signature was verified with the key of the certificate"
	for _, d := range dids(st, dn(fnV1Check)) {
		if arg(d, 0) != p || !same(st, arg(d, 1), cert) || !okErr(st, callOf(d), 0) {
			continue
		}
		info := signerOf(arg(d, 4), "EncryptedDigest")
		if info == nil {
			why = "what is verified is not a signature of a signer"
			continue
		}
		list := info.Args[0]
		if info.Op == "ia" && list.Op == "take" {
			list = list.Args[0]
		}
		fromBlock := info.Op == "ia" && list == at(fieldOf(block, tPK+"Signers"))
		for _, g := range dids(st, pk(fnSigInfos)) {
			fromBlock = fromBlock || info.Op == "ia" && list == res0(callOf(g)) && arg(g, 0) == block
		}
		if !fromBlock {
			why = "the signer is not one of the signature block"
			continue
		}
		if w := c.declaredCert(a, st, info, cert); w != "" {
			why = w
			continue
		}
		data := arg(d, 3)
		attrs := at(fieldOf(info, tSI+"AuthenticatedAttributes"))
		if data == raw {
			if st.holds(mkEq(mkLen(attrs), mkInt(0))) {
				return ""
			}
			why = "the signature is over the signature file although there are signed attributes"
			continue
		}
		why = c.signedAttrs(a, st, info, block, raw, data, max)
		if why == "" {
			return ""
		}
	}
	return why
}

// declaredCert: the certificate has the serial number and issuer that the signer declares.
func (c *Check) declaredCert(a *An, st *State, info, cert *Term) string {
	ias := fieldOf(info, tSI+"IssuerAndSerialNumber")
	serial := at(fieldOf(ias, "fullsailor/pkcs7.IssuerAndSerial.SerialNumber"))
	name := at(fieldOf(fieldOf(ias, "fullsailor/pkcs7.IssuerAndSerial.IssuerName"), "encoding/asn1.RawValue.FullBytes"))
	ok := false
	for _, k := range pureCalls(st, "(*math/big.Int).Cmp") {
		x, y := k.Args[0], k.Args[1]
		if y == serial {
			x, y = y, x
		}
		ok = ok || x == serial && y == at(fieldOf(cert, tX509+"SerialNumber")) && st.holds(mkEq(res0(k), mkInt(0)))
	}
	if !ok {
		return "the certificate's serial number may differ from the declared one"
	}
	var decoded []*Term
	for _, d := range dids(st, anUnmarsh) {
		if arg(d, 0) == name && okErr(st, callOf(d), 1) {
			decoded = append(decoded, callOf(d))
		}
	}
	ds := dids(st, dn(fnV1Canon))
	for _, d := range ds {
		for _, e := range ds {
			if d == e || arg(e, 1) != fieldOf(cert, tX509+"Issuer") || !st.holds(mkEq(res0(callOf(d)), res0(callOf(e)))) {
				continue
			}
			for _, u := range decoded {
				if arg(d, 1).contains(u) {
					return ""
				}
			}
		}
	}
	return "the certificate's issuer may differ from the declared one"
}

// attrCell: the places a signed attribute of the given type was decoded to.
func (c *Check) attrCell(st *State, info *Term, oid ...int64) []*Term {
	var id []*Term
	for _, n := range oid {
		id = append(id, mkInt(n))
	}
	var out []*Term
	for _, d := range dids(st, pk(fnSigAttr)) {
		if arg(d, 0) == info && arg(d, 1) == listOf(id...) && okErr(st, callOf(d), 0) {
			out = append(out, callOf(d))
		}
	}
	return out
}

func filledBy(v *Term, calls []*Term) bool {
	for _, c := range calls {
		if v.Op == "at" && len(v.Args) == 2 && v.Args[1] == c && v.Args[0].Op == "obj" {
			return true
		}
	}
	return false
}

// signedAttrs says why the signed attributes may not vouch for the signature file.
func (c *Check) signedAttrs(a *An, st *State, info, block, raw, data, max *Term) string {
	ok := false
	for _, d := range dids(st, pk(fnMarshAtt)) {
		ok = ok || arg(d, 0) == info && okErr(st, callOf(d), 1) && data == res0(callOf(d))
	}
	if !ok {
		return "the signature is over " + short(data)
	}
	// the digest
	alg := at(fieldOf(fieldOf(info, tSI+"DigestAlgorithm"), tAlgo))
	digests := c.attrCell(st, info, 1, 2, 840, 113549, 1, 9, 4)
	good := false
	for _, f := range st.known() {
		if f.Op != "eq" && f.Op != "==" || len(f.Args) != 2 || !st.holds(f) {
			continue
		}
		for i := 0; i < 2; i++ {
			h, v := f.Args[i], f.Args[1-i]
			if h.Op != "hashsum" || h.Args[0] != raw || !filledBy(v, digests) {
				continue
			}
			for _, k := range pureCalls(st, "(encoding/asn1.ObjectIdentifier).Equal") {
				for j := 0; j < 2; j++ {
					if k.Args[j] == alg && oidHash[dotted(k.Args[1-j])] == h.Sym && st.holds(res0(k)) {
						good = true
					}
				}
			}
		}
	}
	if !good {
		return "the message digest of the signed attributes need not be the one of the signature file"
	}
	s := st.clone()
	s.assume(mkLe(mkInt(24), max))
	if s.bot {
		return ""
	}
	types := c.attrCell(s, info, 1, 2, 840, 113549, 1, 9, 3)
	own := at(fieldOf(block, tPK+"ContentType"))
	for _, k := range pureCalls(s, "(encoding/asn1.ObjectIdentifier).Equal") {
		for j := 0; j < 2; j++ {
			if k.Args[j] == own && filledBy(k.Args[1-j], types) && s.holds(res0(k)) {
				return ""
			}
		}
	}
	return "from Android 7 on the content type of the signed attributes may differ from the one of the message"
}

func dotted(l *Term) string {
	if l.Op != "list" {
		return "?"
	}
	var p []string
	for _, x := range l.Args {
		p = append(p, x.String())
	}
	return strings.Join(p, ".")
}

// blockRule decides what it takes for a signature block to verify.
func (c *Check) sigBlockRule() {
	a := c.an(fnV1SigVerify, fnV1Check, fnV1Canon)
	wh := a.where()
	n := 0
	for _, r := range a.succErr(1) {
		n++
		first := a.firstElem(r.st, r.vals[0])
		if first == nil {
			c.req(false, "the reported chain starts with the certificate whose signature verified", wh, "the chain is %s", short(r.vals[0]))
			continue
		}
		why := c.vouched(a, r.st, first)
		c.req(why == "", "a signature block verifies only with a signer whose signature over the signature file verified", wh, "%s", why)
		c.req(r.st.holds(nonNilT(first)), "the reported chain starts with the certificate whose signature verified", wh, "it may start with none")
	}
	c.req(n > 0, "a signature block can verify", wh, "no accepting path")
}

// allVerified: success of the verification means that every signature block verified.
func (c *Check) allVerified() {
	a := c.anMaps2(fnV1Verify, 400, fnV1Ordered, fnV1Digests, fnV1SigVerify, fnV1Main)
	wh := a.where()
	p, min, max := a.ps[0], a.ps[3], a.ps[4]
	n := 0
	for _, r := range a.succErr(0) {
		n++
		found := false
		for _, d := range dids(r.st, dn(fnV1Ordered)) {
			for _, it := range a.listIters(r.st, res0(callOf(d)), nil) {
				good := arg(d, 0) == p
				for _, b := range it.backs {
					g := false
					for _, v := range dids(b.st, dn(fnV1SigVerify)) {
						g = g || same(b.st, arg(v, 1), it.elem) && arg(v, 0) == p && arg(v, 2) == min && arg(v, 3) == max && okErr(b.st, callOf(v), 1)
					}
					good = good && g
				}
				found = found || good
			}
		}
		c.req(found, "one signature block that does not verify makes verification fail", wh, "success without every signature block verified")
	}
	c.req(n > 0, "v1 verification can succeed", wh, "no accepting path")
}

const (
	fnNewV1   = "apkverifier.newSchemeV1"
	fnV1AddMf = "apkverifier.(*schemeV1).addManifest"
	fnV1Prep  = "apkverifier.(*schemeV1).prepForVerification"
)

// baseName: the file name of the path up to its last dot.
func baseName(t, path *Term) bool {
	if t.Op != "take" || t.Args[0].Op != "res" {
		return false
	}
	k := t.Args[0].Args[0]
	return k.Op == "call" && (k.Sym == "path/filepath.Base" || k.Sym == "path.Base") && k.Args[0] == path && isLastDot(t.Args[1], t.Args[0])
}

// isLastDot: n is the position of the last dot of s.
func isLastDot(n, s *Term) bool {
	if n.Op != "res" || n.Args[0].Op != "call" {
		return false
	}
	k := n.Args[0]
	switch k.Sym {
	case "strings.LastIndexByte":
		return k.Args[0] == s && k.Args[1] == mkInt('.')
	case "strings.LastIndex":
		return k.Args[0] == s && k.Args[1] == mkStr(".")
	}
	return false
}

// pairing: a signature block is kept together with the signature file of its own name.
func (c *Check) pairing() {
	n := 0
	for _, fn := range []string{fnV1AddBlock, fnV1AddSF} {
		a := c.anMaps(fn, fnParseMan, fnPkcs7Parse)
		p, path, f := a.ps[0], a.ps[1], a.ps[2]
		for _, r := range a.rets {
			now := a.x.mapContent(r.st, at(fieldOf(p, tV1+"sigs")))
			// the record that was written to
			var rec, key *Term
			if now.Op == "upd" {
				key, rec = now.Args[1], now.Args[2]
			}
			fld := "cert"
			if fn == fnV1AddSF {
				fld = "signatureManifest"
			}
			for m := range r.st.mem {
				if m.Op == "fa" && m.Sym == tV1Sig+fld && (rec == nil || m.Args[0] == rec) {
					rec = m.Args[0]
				}
			}
			if rec == nil {
				ok := fn == fnV1AddBlock && r.st.holds(nonNilT(r.vals[0]))
				c.req(ok, "a signature is kept under its file name", a.where(), "a path keeps no signature, or what it had before")
				continue
			}
			n++
			if rec.Op == "look" {
				key = rec.Args[1]
			}
			c.req(key != nil && baseName(key, path), "a signature is kept under its file name", a.where(), "it is kept under %s", short(key))
			v := c.fieldNow(a, r.st, rec, tV1Sig+fld)
			good := false
			if fn == fnV1AddSF {
				for _, d := range dids(r.st, dn(fnParseMan)) {
					good = good || arg(d, 0) == f && v == res0(callOf(d))
				}
				c.req(good, "the signature file that was read is kept", a.where(), "kept is %s", short(v))
				continue
			}
			for _, d := range dids(r.st, pk(fnPkcs7Parse)) {
				for _, e := range append(dids(r.st, "io/ioutil.ReadAll"), dids(r.st, "io.ReadAll")...) {
					rd := arg(e, 0)
					good = good || v == res0(callOf(d)) && okErr(r.st, callOf(d), 1) && arg(d, 0) == res0(callOf(e)) && okErr(r.st, callOf(e), 1) && (rd == f || rd.Op == "iface" && rd.Args[0] == f)
				}
			}
			c.req(good, "the signature block that was read is kept", a.where(), "kept is %s", short(v))
		}
	}
	c.req(n > 3, "signatures are kept", "schemev1.go", "%d paths keep one", n)

	// a manifest that does not parse is not kept
	pm := c.an(fnParseMan, "apkverifier.(*manifestParserContext).parse")
	for _, r := range pm.rets {
		c.req(r.st.holds(mkEq(r.vals[1], tNil)) || r.st.holds(mkEq(r.vals[0], tNil)), "a signature file that does not parse is not kept", pm.where(), "a partial result together with an error")
	}

	a := c.anMaps(fnNewV1, fnV1AddBlock, fnV1AddSF, fnV1AddMf, fnV1Prep)
	name := func(f *Term) *Term { return at(fieldOf(f, "github.com/avast/apkparser.ZipReaderFile.Name")) }
	for _, e := range a.x.log {
		if e.Kind == "mapupdate" && strings.HasSuffix(typeName(e.Instr.(*ssa.MapUpdate).Map.Type()), "]*github.com/avast/apkparser.ZipReaderFile") {
			c.req(same(e.St, e.Args[1], name(e.Args[2])), "files are remembered under their own name", c.w.posOf(a.f, e.Instr.Pos()), "under %s", short(e.Args[1]))
		}
	}
	rounds := 0
	for _, l := range a.sortedLoops() {
		for _, b := range a.backs(l, nil) {
			for _, d := range dids(b.st, dn(fnV1AddBlock)) {
				if !within(callOf(d), l) {
					continue
				}
				rounds++
				path := arg(d, 1)
				good := path == name(arg(d, 2)) || same(b.st, path, name(arg(d, 2)))
				why := "no signature file is read"
				for _, e := range dids(b.st, dn(fnV1AddSF)) {
					sf := arg(e, 1)
					switch {
					case !good:
						why = "the block's name is " + short(path)
					case !(sf.Op == "cat" && len(sf.Args) == 2 && sf.Args[1] == mkStr(".SF") && stem(sf.Args[0], path)):
						why = "the signature file's name is " + short(sf)
					case arg(e, 2).Op != "look" || arg(e, 2).Args[1] != sf:
						why = "the signature file is " + short(arg(e, 2))
					case arg(e, 0) != arg(d, 0) && false:
					default:
						why = ""
					}
				}
				c.req(why == "", "a signature block is verified with the signature file of its name", a.loopWhere(l), "%s", why)
			}
		}
	}
	c.req(rounds > 0, "signature blocks are read", a.where(), "no round reads one")
}

// stem: t is the path without its extension.
func stem(t, path *Term) bool {
	if t.Op == "take" && t.Args[0] == path {
		return isLastDot(t.Args[1], path)
	}
	if t.Op == "res" && t.Args[0].Op == "call" && t.Args[0].Sym == "strings.TrimSuffix" && t.Args[0].Args[0] == path {
		e := t.Args[0].Args[1]
		return e.Op == "res" && e.Args[0].Op == "call" && (e.Args[0].Sym == "path/filepath.Ext" || e.Args[0].Sym == "path.Ext") && e.Args[0].Args[0] == path
	}
	return false
}

// within: the call was made in a round of the loop.
func within(call *Term, l *LoopRec) bool {
	f := false
	call.walk(func(t *Term) bool {
		for _, k := range l.Cells {
			f = f || t == k.Phi
		}
		return !f
	})
	return f
}

// attrRule: a signed attribute is decoded from the only attribute of its type.
func (c *Check) attrRule() {
	a := c.an(fnSigAttr, anUnmarsh)
	wh := a.where()
	p, typ, out := a.ps[0], a.ps[1], a.ps[2]
	n := 0
	for _, r := range a.succErr(0) {
		n++
		good := false
		for _, it := range a.listIters(r.st, at(fieldOf(p, tSI+"AuthenticatedAttributes")), nil) {
			g, some := true, false
			// what is decoded behind the loop
			var later *Term
			for _, d := range dids(r.st, anUnmarsh) {
				if arg(d, 1) == out && okErr(r.st, callOf(d), 1) {
					later = arg(d, 0)
					for _, b := range it.backs {
						for _, e := range dids(b.st, anUnmarsh) {
							if callOf(e) == callOf(d) {
								later = nil
							}
						}
					}
				}
			}
			for _, b := range it.backs {
				eq := tFalse
				for _, k := range pureCalls(b.st, "(encoding/asn1.ObjectIdentifier).Equal") {
					t := at(fieldOf(it.elemAddr(), tSIAttr+"Type"))
					if k.Args[0] == t && k.Args[1] == typ || k.Args[1] == t && k.Args[0] == typ {
						eq = res0(k)
					}
				}
				var call *Term
				for _, d := range dids(b.st, anUnmarsh) {
					if within(callOf(d), it.l) {
						v := fieldOf(fieldOf(it.elemAddr(), tSIAttr+"Value"), "encoding/asn1.RawValue.Bytes")
						g = g && call == nil && arg(d, 0) == at(v) && arg(d, 1) == out && okErr(b.st, callOf(d), 1)
						call = callOf(d)
					}
				}
				if call == nil && later != nil {
					m := map[*Term]*Term{}
					for _, k := range it.l.Cells {
						if s := b.step(k.Phi); s != k.Phi {
							m[k.Phi] = s
						}
					}
					step := subst(later, m)
					if step != later {
						v := fieldOf(fieldOf(it.elemAddr(), tSIAttr+"Value"), "encoding/asn1.RawValue.Bytes")
						g = g && same(b.st, step, at(v))
						call = later
					}
				}
				if call == nil {
					g = g && b.st.holds(mkNot(eq))
					continue
				}
				some = true
				g = g && b.st.holds(eq)
				// the first one, and remembered
				once := false
				for _, k := range it.l.Cells {
					s := b.step(k.Phi)
					if s == k.Phi {
						continue
					}
					e := r.st.clone()
					e.assume(mkEq(k.Phi, k.Init))
					switch {
					case k.Init == tFalse && s == tTrue:
						once = once || e.bot && b.st.holds(mkNot(k.Phi))
					case k.Init == tNil && b.st.holds(nonNilT(s)):
						once = once || e.bot && b.st.holds(mkEq(k.Phi, tNil))
					case k.Init == mkInt(0) && s == mkAdd(k.Phi, mkInt(1)):
						once = once || e.bot && r.st.holds(mkEq(k.Phi, mkInt(1)))
					}
				}
				g = g && once
			}
			good = good || g && some
		}
		c.req(good, "a signed attribute is the only one of its type", wh, "it may be missing, repeated or another one")
	}
	c.req(n > 0, "signed attributes can be decoded", wh, "no accepting path")

	m := c.an(fnMarshAtt, anUnmarsh, "internal/asn1andr.Marshal")
	c.setEncoding(m, at(fieldOf(m.ps[0], tSI+"AuthenticatedAttributes")))
}

const tSIAttr = "fullsailor/pkcs7.SignerAttribute."

func checkC15(c *Check) {
	c.sigBlockRule()
	c.allVerified()
	c.pairing()
	c.attrRule()
	c.signerCopies()
}

func (it iter) elemAddr() *Term { return it.elem.Args[0] }
