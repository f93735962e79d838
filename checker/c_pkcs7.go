package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks = append(checks, checkDef{"C29", checkC29, 20}) }

const (
	fnP7Verify = "pkcs7.(*PKCS7).Verify"
	fnP7Sig    = "pkcs7.verifySignature"
	fnP7Cert   = "pkcs7.getCertFromCertsByIssuerAndSerial"
	fnP7Attr   = "pkcs7.unmarshalAttribute"
	fnP7Attrs  = "pkcs7.marshalAttributes"
	fnP7Algo   = "pkcs7.getSignatureAlgorithmFromAI"
	fnP7RSA    = "pkcs7.getRSASignatureAlgorithmForDigestAlgorithm"
	fnP7Hash   = "pkcs7.getHashForOID"
	tP7Signer  = "fullsailor/pkcs7.signerInfo."
)

// inPkcs: an analysis that looks into the functions of the pkcs7 package.
func (c *Check) inPkcs(fn string, bounds ...string) *An {
	return c.anOpt(fn, func(x *Exec, _ *ssa.Function, _ []*Term, _ *State) {
		delete(x.noInline, modPath+"/fullsailor")
	}, bounds...)
}

// fieldIn: the value of a field of the structure x is (a value) or points to.
func fieldIn(x *Term, f string) *Term {
	if x.Op == "at" && len(x.Args) == 1 {
		return at(fieldOf(x.Args[0], f))
	}
	if x.Typ != nil {
		if _, ptr := x.Typ.Underlying().(*types.Pointer); ptr {
			return at(fieldOf(x, f))
		}
	}
	return mk("field", f, x)
}

// copyOf: v is the structure src, possibly copied field by field.
func copyOf(v, src *Term) bool {
	if v == src || v.Op == "at" && len(v.Args) == 1 && v.Args[0] == src {
		return true
	}
	if v.Op != "struct" || v.Typ == nil {
		return false
	}
	s, ok := v.Typ.Underlying().(*types.Struct)
	if !ok || s.NumFields() != len(v.Args) {
		return false
	}
	for i, f := range v.Args {
		if !copyOf(f, fieldIn(src, fieldSym(v.Typ, i))) {
			return false
		}
	}
	return len(v.Args) > 0
}

// oidsEqual: the identifiers that v is known to equal on the path of st, in dotted form.
func oidsEqual(st *State, v *Term) []string {
	var out []string
	for _, k := range pureCalls(st, "(encoding/asn1.ObjectIdentifier).Equal") {
		for i := 0; i < 2; i++ {
			if k.Args[i] == v && k.Args[1-i].Op == "list" && st.holds(res0(k)) {
				out = append(out, dotted(k.Args[1-i]))
			}
		}
	}
	return out
}

// p7Signers: the message verifies only if it has signers and each of them verifies.
func (c *Check) p7Signers() {
	a := c.inPkcs(fnP7Verify, fnP7Sig)
	wh := a.where()
	p := a.ps[0]
	list := at(fieldOf(p, tPK+"Signers"))
	n := 0
	for _, r := range a.succErr(0) {
		n++
		c.req(r.st.holds(mkNot(mkEq(mkLen(list), mkInt(0)))), "a message without signers does not verify", wh, "a path accepts it")
		found := false
		for _, it := range a.listIters(r.st, list, nil) {
			good := len(it.backs) > 0
			for _, b := range it.backs {
				g := false
				for _, d := range dids(b.st, pk(fnP7Sig)) {
					s := arg(d, 1)
					g = g || arg(d, 0) == p && (copyOf(s, it.elem) || s == it.elem.Args[0]) && okErr(b.st, callOf(d), 0)
				}
				good = good && g
			}
			found = found || good
		}
		c.req(found, "one signer that does not verify makes verification fail", wh, "success without every signer verified")
	}
	c.req(n > 0, "a message can verify", wh, "no accepting path")
}

// p7Signer: what the verification of one signer means.
func (c *Check) p7Signer() {
	a := c.inPkcs(fnP7Sig, fnP7Cert, fnP7Attr, fnP7Attrs, fnP7Algo, fnP7RSA)
	wh := a.where()
	p, s := a.ps[0], a.ps[1]
	body := at(fieldOf(p, tPK+"Content"))
	attrs := fieldIn(s, tP7Signer+"AuthenticatedAttributes")
	dalg := fieldIn(fieldIn(s, tP7Signer+"DigestAlgorithm"), tAlgo)
	ealg := fieldIn(s, tP7Signer+"DigestEncryptionAlgorithm")
	n := 0
	for _, r := range a.succErr(0) {
		st := r.st
		var sig *Term
		for _, k := range pureCalls(st, "(*crypto/x509.Certificate).CheckSignature", r.vals[0]) {
			if okErr(st, k, 0) {
				sig = k
			}
		}
		if !c.req(sig != nil, "a signer verifies only if its signature does", wh, "an accepting path verifies no signature") {
			continue
		}
		n++
		c.req(sig.Args[3] == fieldIn(s, tP7Signer+"EncryptedDigest"), "what is verified is the signature of the signer", wh, "it is %s", short(sig.Args[3]))
		cert := false
		for _, d := range dids(st, pk(fnP7Cert)) {
			cert = cert || res0(callOf(d)) == sig.Args[0] && arg(d, 0) == at(fieldOf(p, tPK+"Certificates")) && copyOf(arg(d, 1), fieldIn(s, tP7Signer+"IssuerAndSerialNumber"))
		}
		c.req(cert && st.holds(nonNilT(sig.Args[0])), "the certificate is the one that the signer names", wh, "it is %s", short(sig.Args[0]))
		// the algorithm
		hash := ""
		for _, o := range oidsEqual(st, dalg) {
			hash = oidHash[o]
		}
		own, alg := (*Term)(nil), false
		for _, d := range dids(st, pk(fnP7Algo)) {
			if copyOf(arg(d, 0), ealg) {
				own = res0(callOf(d))
			}
		}
		if own != nil {
			alg = st.holds(mkEq(sig.Args[1], own))
			for _, d := range dids(st, pk(fnP7RSA)) {
				h, ok := arg(d, 0).int64()
				rsa := false
				for _, o := range oidsEqual(st, fieldIn(ealg, tAlgo)) {
					rsa = rsa || o == "1.2.840.113549.1.1.1"
				}
				alg = alg || sig.Args[1] == res0(callOf(d)) && ok && cryptoHashes[h] == hash && rsa && st.holds(mkEq(own, mkInt(0)))
			}
		}
		c.req(alg, "the algorithm is the one that the signer names", wh, "it is %s", short(sig.Args[1]))
		// what is signed
		data := sig.Args[2]
		if data == body {
			c.req(st.holds(mkEq(mkLen(attrs), mkInt(0))), "with signed attributes the signature is over them", wh, "it is over the content")
			continue
		}
		over := false
		for _, d := range dids(st, pk(fnP7Attrs)) {
			over = over || data == res0(callOf(d)) && arg(d, 0) == attrs && okErr(st, callOf(d), 1)
		}
		c.req(over, "the signature is over the content or the signed attributes", wh, "it is over %s", short(data))
		var found []*Term
		for _, d := range dids(st, pk(fnP7Attr)) {
			if arg(d, 0) == attrs && dotted(arg(d, 1)) == "1.2.840.113549.1.9.4" && okErr(st, callOf(d), 0) {
				found = append(found, callOf(d))
			}
		}
		digest := false
		for _, f := range st.known() {
			if f.Op != "eq" && f.Op != "==" || len(f.Args) != 2 || !st.holds(f) {
				continue
			}
			for i := 0; i < 2; i++ {
				h, v := f.Args[i], f.Args[1-i]
				digest = digest || h.Op == "hashsum" && h.Args[0] == body && h.Sym == hash && filledBy(v, found)
			}
		}
		c.req(digest, "the signed attributes hold the digest of the content", wh, "an accepting path does not compare it")
	}
	c.req(n > 0, "a signer can verify", wh, "no accepting path")
}

// p7Parts: the functions that find the certificate and the attributes.
func (c *Check) p7Parts() {
	a := c.inPkcs(fnP7Cert)
	wh := a.where()
	n := 0
	for _, r := range a.rets {
		v := r.vals[0]
		if r.st.holds(mkEq(v, tNil)) {
			continue
		}
		n++
		if !c.req(v.Op == "at" && v.Args[0].Op == "ia" && v.Args[0].Args[0] == a.ps[0], "the certificate is one of the message", wh, "it is %s", short(v)) {
			continue
		}
		ias := a.ps[1]
		serial, issuer := false, false
		num := fieldIn(ias, "fullsailor/pkcs7.issuerAndSerial.SerialNumber")
		name := fieldIn(fieldIn(ias, "fullsailor/pkcs7.issuerAndSerial.IssuerName"), "encoding/asn1.RawValue.FullBytes")
		for _, k := range pureCalls(r.st, "(*math/big.Int).Cmp") {
			x, y := k.Args[0], k.Args[1]
			if y == num {
				x, y = y, x
			}
			serial = serial || x == num && y == at(fieldOf(v, tX509+"SerialNumber")) && r.st.holds(mkEq(res0(k), mkInt(0)))
		}
		issuer = r.st.holds(mkEq(name, at(fieldOf(v, tX509+"RawIssuer"))))
		c.req(serial, "the certificate has the serial number that the signer names", wh, "it may have another one")
		c.req(issuer, "the certificate has the issuer that the signer names", wh, "it may have another one")
	}
	c.req(n > 0, "a certificate can be found", wh, "no path returns one")

	a = c.inPkcs(fnP7Attr, anUnmarsh)
	wh = a.where()
	n = 0
	for _, r := range a.rets {
		s := r.st.clone()
		s.assume(mkEq(r.vals[0], tNil))
		if s.bot {
			continue
		}
		n++
		good := false
		for _, d := range append(dids(s, anUnmarsh), dids(s, "encoding/asn1.Unmarshal")...) {
			v := arg(d, 0)
			if v.Op != "at" || v.Args[0].Op != "fa" || v.Args[0].Args[0].Op != "fa" || !okErr(s, callOf(d), 1) || arg(d, 1) != a.ps[2] {
				continue
			}
			el := v.Args[0].Args[0].Args[0]
			if el.Op != "ia" || el.Args[0] != a.ps[0] || v != at(fieldOf(fieldOf(el, "fullsailor/pkcs7.attribute.Value"), "encoding/asn1.RawValue.Bytes")) {
				continue
			}
			t := at(fieldOf(el, "fullsailor/pkcs7.attribute.Type"))
			for _, k := range pureCalls(s, "(encoding/asn1.ObjectIdentifier).Equal") {
				good = good || s.holds(res0(k)) && (k.Args[0] == t && k.Args[1] == a.ps[1] || k.Args[1] == t && k.Args[0] == a.ps[1])
			}
		}
		c.req(good, "an attribute is decoded from an attribute of its type", wh, "an accepting path decodes another one, or none")
	}
	c.req(n > 0, "an attribute can be decoded", wh, "no accepting path")

	a = c.inPkcs(fnP7Attrs, anUnmarsh, "internal/asn1andr.Marshal")
	c.setEncoding(a, a.ps[0])
}

// setEncoding: the result is the encoding of the attributes as a set, without the enclosing header.
func (c *Check) setEncoding(m *An, attrs *Term) {
	n := 0
	for _, r := range m.succErr(1) {

		n++
		good := false
		var encs []*Term
		for _, d := range dids(r.st, "internal/asn1andr.Marshal") {
			encs = append(encs, callOf(d))
		}
		for _, k := range append(encs, pureCalls(r.st, "encoding/asn1.Marshal")...) {
			v := k.Args[0]
			for _, e := range append(dids(r.st, anUnmarsh), dids(r.st, "encoding/asn1.Unmarshal")...) {
				o := r.vals[0]
				good = good || v.Op == "iface" && v.Args[0].Op == "struct" && len(v.Args[0].Args) == 1 && v.Args[0].Args[0] == attrs &&
					strings.Contains(v.Args[0].Sym, "set") && arg(e, 0) == res0(k) && okErr(r.st, k, 1) &&
					o.Op == "at" && len(o.Args) == 2 && o.Args[1] == callOf(e) && o.Args[0].Op == "fa" && o.Args[0].Sym == "encoding/asn1.RawValue.Bytes"
			}
		}
		c.req(good, "signed attributes are signed as one set", m.where(), "what is verified is %s", short(r.vals[0]))
	}
	c.req(n > 0, "signed attributes can be encoded", m.where(), "no accepting path")
}

// p7Tables: identifiers select the algorithms they denote.
func (c *Check) p7Tables() {
	nums := map[int64]v1Algo{}
	for _, g := range v1Algos {
		nums[g.num] = g
	}
	a := c.inPkcs(fnP7Algo)
	wh := a.where()
	seen := map[int64]bool{}
	for _, r := range a.rets {
		v, ok := r.vals[0].int64()
		if !c.req(ok, "a signature identifier selects a fixed algorithm", wh, "it selects %s", short(r.vals[0])) || v == 0 {
			continue
		}
		seen[v] = true
		where := fmt.Sprintf("%s: %d", wh, v)
		good := false
		for _, o := range oidsEqual(r.st, fieldIn(a.ps[0], tAlgo)) {
			sig, known := oidSig[o]
			if o == "1.3.14.3.2.29" {
				sig, known = [2]string{"rsa", "sha1"}, true
			}
			g, std := nums[v]
			good = good || known && std && sig == [2]string{g.key, g.hash}
			if o == "1.2.840.113549.1.1.10" {
				good = good || c.pssRule(a, r.st, v)
			}
		}
		c.req(good, "a signature identifier selects the algorithm it denotes", where, "it is not the one of the identifier")
	}
	c.req(seen[3] && seen[4] && seen[10], "a signature identifier selects the algorithm it denotes", wh, "common algorithms are missing")

	a = c.inPkcs(fnP7RSA)
	wh = a.where()
	n := 0
	for _, r := range a.rets {
		v, ok := r.vals[0].int64()
		if !c.req(ok, "RSA with a digest selects a fixed algorithm", wh, "it selects %s", short(r.vals[0])) || v == 0 {
			continue
		}
		n++
		good := false
		for h, name := range cryptoHashes {
			good = good || r.st.holds(mkEq(a.ps[0], mkInt(h))) && nums[v].key == "rsa" && nums[v].hash == name
		}
		// the digest without a number is none that a message can name
		good = good || r.st.holds(mkEq(a.ps[0], mkInt(0)))
		c.req(good, "RSA with a digest selects the algorithm with this digest", fmt.Sprintf("%s: %d", wh, v), "it is another one")
	}
	c.req(n > 1, "RSA with a digest selects the algorithm with this digest", wh, "never")
}

// pssRule: the parameters of an RSA-PSS identifier are those of the selected algorithm.
func (c *Check) pssRule(a *An, st *State, v int64) bool {
	want := map[int64][2]string{13: {"sha256", "32"}, 14: {"sha384", "48"}, 15: {"sha512", "64"}}[v]
	if want[0] == "" {
		return false
	}
	for _, d := range dids(st, "encoding/asn1.Unmarshal") {
		p := arg(d, 0)
		if p != fieldIn(fieldIn(a.ps[0], "crypto/x509/pkix.AlgorithmIdentifier.Parameters"), "encoding/asn1.RawValue.FullBytes") || !okErr(st, callOf(d), 1) {
			continue
		}
		filled := func(t *Term, path ...string) bool {
			if t.Op != "at" || len(t.Args) != 2 || t.Args[1] != callOf(d) {
				return false
			}
			x := t.Args[0]
			for i := len(path) - 1; i >= 0; i-- {
				if x.Op != "fa" || !strings.HasSuffix(x.Sym, "."+path[i]) {
					return false
				}
				x = x.Args[0]
			}
			return x.Op == "obj"
		}
		hash, mgf, salt, trailer := false, false, false, false
		for _, k := range pureCalls(st, "(encoding/asn1.ObjectIdentifier).Equal") {
			if !st.holds(res0(k)) {
				continue
			}
			for i := 0; i < 2; i++ {
				x, o := k.Args[i], dotted(k.Args[1-i])
				hash = hash || filled(x, "Hash", "Algorithm") && oidHash[o] == want[0]
				mgf = mgf || filled(x, "MGF", "Algorithm") && o == "1.2.840.113549.1.1.8"
			}
		}
		for t, dm := range st.dom {
			if dm.neg || len(dm.set) != 1 {
				continue
			}
			salt = salt || filled(t, "SaltLength") && dm.set[0].String() == want[1]
			trailer = trailer || filled(t, "TrailerField") && dm.set[0].String() == "1"
		}
		return hash && mgf && salt && trailer
	}
	return false
}

// p7Parse: the parsed message has the parts of its encoding.
func (c *Check) p7Parse() {
	const fnCerts, fnSD, fnB2D = "pkcs7.(rawCertificates).Parse", "pkcs7.parseSignedData", "pkcs7.ber2der"
	a := c.inPkcs(fnSD, anUnmarsh, fnCerts)
	wh := a.where()
	// filled: t is the field at the path of a structure of the given type that one of the calls decoded to
	filled := func(t *Term, calls []*Term, typ string, path ...string) bool {
		if t.Op != "at" || len(t.Args) != 2 {
			return false
		}
		ok := false
		for _, k := range calls {
			ok = ok || t.Args[1] == k
		}
		x := t.Args[0]
		for i := len(path) - 1; i >= 0; i-- {
			if x.Op != "fa" || !strings.HasSuffix(x.Sym, "."+path[i]) {
				return false
			}
			x = x.Args[0]
		}
		return ok && x.Op == "obj" && typeName(x.Typ) == typ
	}
	decoded := func(st *State, from func(*Term) bool, typ string) []*Term {
		var out []*Term
		for _, d := range append(dids(st, anUnmarsh), dids(st, "encoding/asn1.Unmarshal")...) {
			if from(arg(d, 0)) && arg(d, 1).Op == "iface" && arg(d, 1).Sym == "*"+typ {
				out = append(out, callOf(d))
			}
		}
		return out
	}
	const tSD, tRaw = "fullsailor/pkcs7.signedData", "encoding/asn1.RawValue"
	n := 0
	for _, r := range a.succErr(1) {
		n++
		v := r.vals[0]
		get := func(f string) *Term { return c.fieldNow(a, r.st, v, tPK+f) }
		whole := decoded(r.st, func(t *Term) bool { return t == a.ps[0] }, tSD)
		c.req(filled(get("Signers"), whole, tSD, "SignerInfos"), "the signers are those of the encoding", wh, "they are %s", short(get("Signers")))
		c.req(filled(get("ContentType"), whole, tSD, "ContentInfo", "ContentType"), "the content type is that of the encoding", wh, "it is %s", short(get("ContentType")))
		certs := false
		for _, d := range dids(r.st, pk(fnCerts)) {
			raw := arg(d, 0)
			if raw.Op == "struct" && len(raw.Args) == 1 {
				certs = certs || filled(raw.Args[0], whole, tSD, "Certificates", "Raw") && get("Certificates") == res0(callOf(d)) && okErr(r.st, callOf(d), 1)
			}
		}
		c.req(certs, "the certificates are those of the encoding", wh, "they are %s", short(get("Certificates")))
		isContent := func(t *Term) bool { return filled(t, whole, tSD, "ContentInfo", "Content", "Bytes") }
		outer := decoded(r.st, isContent, tRaw)
		inner := decoded(r.st, func(t *Term) bool { return filled(t, outer, tRaw, "Bytes") }, "fullsailor/pkcs7.unsignedData")
		body := get("Content")
		ok := filled(body, outer, tRaw, "Bytes") || filledBy(body, inner)
		if !ok && (body == tEmpty || r.st.holds(mkEq(mkLen(body), mkInt(0)))) { // no content
			for t := range r.st.dom {
				ok = ok || t.Op == "len" && isContent(t.Args[0]) && r.st.holds(mkEq(t, mkInt(0)))
			}
		}
		c.req(ok, "the content is that of the encoding", wh, "it is %s", short(body))
	}
	c.req(n > 0, "signed messages can be parsed", wh, "no accepting path")

	a = c.inPkcs(fnPkcs7Parse, anUnmarsh, fnSD, "pkcs7.parseEnvelopedData", fnB2D)
	wh = a.where()
	n = 0
	for _, r := range a.succErr(1) {
		for _, d := range dids(r.st, pk(fnSD)) {
			if r.vals[0] != res0(callOf(d)) {
				continue
			}
			n++
			good, signed := false, false
			for _, b := range dids(r.st, pk(fnB2D)) {
				for _, e := range append(dids(r.st, anUnmarsh), dids(r.st, "encoding/asn1.Unmarshal")...) {
					if arg(b, 0) != a.ps[0] || !okErr(r.st, callOf(b), 1) || arg(e, 0) != res0(callOf(b)) || !okErr(r.st, callOf(e), 1) {
						continue
					}
					one := []*Term{callOf(e)}
					good = good || filled(arg(d, 0), one, "fullsailor/pkcs7.contentInfo", "Content", "Bytes") && r.st.holds(mkEq(mkLen(res0(callOf(e))), mkInt(0)))
					for _, k := range pureCalls(r.st, "(encoding/asn1.ObjectIdentifier).Equal") {
						for i := 0; i < 2; i++ {
							signed = signed || r.st.holds(res0(k)) && filled(k.Args[i], one, "fullsailor/pkcs7.contentInfo", "ContentType") && dotted(k.Args[1-i]) == "1.2.840.113549.1.7.2"
						}
					}
				}
			}
			c.req(good && signed, "a signed message is the whole input", wh, "an accepting path parses %s", short(arg(d, 0)))
		}
	}
	c.req(n > 0, "signed messages can be parsed", wh, "no accepting path")
}

// mapped is a loop that builds a list from each element of another one.
type mapped struct {
	it iter
	b  back
	v  *Term // the element that the round adds
}

// mappings finds the loops that build v by adding one element for each element of src, in order.
func (a *An) mappings(st *State, v, src *Term, elem types.Type) [][]mapped {
	var out [][]mapped
	for _, it := range a.listIters(st, src, nil) {
		var l []mapped
		for _, b := range it.backs {
			var e *Term
			if v.Op == "sl" && v.Args[1] == mkInt(0) && st.holds(mkEq(v.Args[2], mkLen(src))) {
				if o := ia(v.Args[0], it.idx); a.written(b.st, o) {
					e = a.x.load(b.st, o, elem)
				}
			} else if k := it.l.cellPhi(v); k != nil && mkLen(k.Init) == mkInt(0) {
				if s := b.step(v); s.Op == "app" && s.Args[0] == v && s.Args[1].Op == "list" && len(s.Args[1].Args) == 1 {
					e = s.Args[1].Args[0]
				}
			}
			if e == nil {
				l = nil
				break
			}
			l = append(l, mapped{it, b, e})
		}
		if l != nil {
			out = append(out, l)
		}
	}
	return out
}

// written: something was stored in the cell or a field of it on the path of st.
func (a *An) written(st *State, o *Term) bool {
	for m := range st.mem {
		for x := m; ; x = x.Args[0] {
			if x == o {
				return true
			}
			if x.Op != "fa" {
				break
			}
		}
	}
	return false
}

// converted says why v may differ from the structure src (of type from) in a field, whatever the
// types are called.
func (a *An) converted(st *State, v, src *Term, from types.Type, to types.Type) string {
	if v == src || copyOf(v, src) {
		return ""
	}
	switch f := from.Underlying().(type) {
	case *types.Struct:
		t, ok := to.Underlying().(*types.Struct)
		if !ok || v.Op != "struct" || t.NumFields() != len(v.Args) || f.NumFields() != t.NumFields() {
			break
		}
		for i := range v.Args {
			j := -1
			for k := 0; k < f.NumFields(); k++ {
				if f.Field(k).Name() == t.Field(i).Name() {
					j = k
				}
			}
			if j < 0 {
				return "no field " + t.Field(i).Name()
			}
			if w := a.converted(st, v.Args[i], fieldIn(src, fieldSym(from, j)), f.Field(j).Type(), t.Field(i).Type()); w != "" {
				return t.Field(i).Name() + ": " + w
			}
		}
		return ""
	case *types.Slice:
		t, ok := to.Underlying().(*types.Slice)
		if !ok {
			break
		}
		for _, l := range a.mappings(st, v, src, t.Elem()) {
			good := true
			for _, m := range l {
				good = good && a.converted(m.b.st, m.v, m.it.elem, f.Elem(), t.Elem()) == ""
			}
			if good {
				return ""
			}
		}
	}
	return "it is " + short(v)
}

// signerCopies: the signers that verification looks at are those of the message.
func (c *Check) signerCopies() {
	if c.w.lookup(fnSigInfos) == nil {
		return // the signers are used as they are
	}
	a := c.inPkcs(fnSigInfos)
	wh := a.where()
	n := 0
	for _, r := range a.rets {
		src := at(fieldOf(a.ps[0], tPK+"Signers"))
		from := structField(a.f.Params[0].Type(), "Signers")
		to := a.f.Signature.Results().At(0).Type()
		n++
		why := "no signers"
		if from != nil {
			why = a.converted(r.st, r.vals[0], src, from, to)
			for _, l := range a.mappings(r.st, r.vals[0], src, to.Underlying().(*types.Slice).Elem()) {
				for _, m := range l {
					if w := a.converted(m.b.st, m.v, m.it.elem, from.Underlying().(*types.Slice).Elem(), to.Underlying().(*types.Slice).Elem()); w != "" {
						why = w
					}
				}
			}
		}
		c.req(why == "", "the signers that are verified are those of the message", wh, "%s", why)
	}
	c.req(n > 0, "the signers that are verified are those of the message", wh, "no path")
}

func structField(t types.Type, name string) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				return s.Field(i).Type()
			}
		}
	}
	return nil
}

func checkC29(c *Check) {
	c.p7Signers()
	c.p7Signer()
	c.p7Parts()
	c.p7Tables()
	c.p7Parse()
}
