// Package-less helper copied beside each demonstration: a tiny, self-contained APK builder and
// signer (JAR/v1, v2, v3, v3.1, source stamp) made only from the Go standard library, so that a
// demonstration can compose hostile or legitimate APKs in memory.
package main

import (
	"archive/zip"
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"math/big"
	"os"
	"strings"
	"time"
)

const (
	RsaPss256  = 0x0101
	RsaPss512  = 0x0102
	RsaPkcs256 = 0x0103
	RsaPkcs512 = 0x0104
	Ec256      = 0x0201
	Ec512      = 0x0202
	VerityRsa  = 0x0421
	VerityEc   = 0x0423

	IdV2    = 0x7109871a
	IdV3    = 0xf05368c0
	IdV31   = 0x1b93ad61
	IdStamp = 0x6dff800d

	AttrStripV2 = 0xbeeff00d
	AttrRot     = 0x3ba06f8c
	AttrMinSdk  = 0x559f8b02
)

func must(err error) {
	if err != nil {
		fmt.Println("demo infrastructure failure:", err)
		os.Exit(3)
	}
}

type Key struct {
	Priv crypto.Signer
	Cert *x509.Certificate
	DER  []byte
	SPKI []byte
}

var serial int64 = 100

func mkKey(name string, priv crypto.Signer) *Key {
	serial++
	t := &x509.Certificate{SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: name, Organization: []string{"demo"}},
		NotBefore: time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC), NotAfter: time.Date(2050, 1, 1, 0, 0, 0, 0, time.UTC)}
	der, err := x509.CreateCertificate(rand.Reader, t, t, priv.Public(), priv)
	must(err)
	c, err := x509.ParseCertificate(der)
	must(err)
	return &Key{priv, c, der, c.RawSubjectPublicKeyInfo}
}

func EC(name string) *Key {
	p, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	must(err)
	return mkKey(name, p)
}

func RSA(name string) *Key {
	p, err := rsa.GenerateKey(rand.Reader, 2048)
	must(err)
	return mkKey(name, p)
}

func u32(v uint32) []byte { b := make([]byte, 4); binary.LittleEndian.PutUint32(b, v); return b }
func u64(v uint64) []byte { b := make([]byte, 8); binary.LittleEndian.PutUint64(b, v); return b }
func cat(p ...[]byte) []byte {
	return bytes.Join(p, nil)
}
func lp(p ...[]byte) []byte { b := cat(p...); return cat(u32(uint32(len(b))), b) }

// Sign signs data with the signature algorithm id's primitive.
func (k *Key) Sign(algo uint32, data []byte) []byte {
	var h crypto.Hash = crypto.SHA256
	switch algo {
	case RsaPss512, RsaPkcs512, Ec512:
		h = crypto.SHA512
	}
	hh := h.New()
	hh.Write(data)
	var opts crypto.SignerOpts = h
	if algo == RsaPss256 || algo == RsaPss512 {
		opts = &rsa.PSSOptions{SaltLength: h.Size(), Hash: h}
	}
	s, err := k.Priv.Sign(rand.Reader, hh.Sum(nil), opts)
	must(err)
	return s
}

type File struct {
	Name string
	Data []byte
}

// Zip builds a plain zip (stored entries, no comment).
func Zip(files ...File) []byte {
	var b bytes.Buffer
	w := zip.NewWriter(&b)
	for _, f := range files {
		o, err := w.CreateHeader(&zip.FileHeader{Name: f.Name, Method: zip.Store})
		must(err)
		_, err = o.Write(f.Data)
		must(err)
	}
	must(w.Close())
	return b.Bytes()
}

func cdOff(z []byte) (cd, eocd int) {
	eocd = bytes.LastIndex(z, []byte{0x50, 0x4b, 5, 6})
	return int(binary.LittleEndian.Uint32(z[eocd+16:])), eocd
}

// Digest computes the content digest the algorithm commits to, over an APK without signing block.
func Digest(algo uint32, z []byte) []byte {
	cd, eo := cdOff(z)
	secs := [][]byte{z[:cd], z[cd:eo], z[eo:]}
	switch algo {
	case VerityRsa, VerityEc:
		return verity(cat(secs...))
	}
	nh := sha256.New
	if algo == RsaPss512 || algo == RsaPkcs512 || algo == Ec512 {
		nh = sha512.New
	}
	var chunks [][]byte
	for _, s := range secs {
		for len(s) > 0 {
			n := len(s)
			if n > 1<<20 {
				n = 1 << 20
			}
			h := nh()
			h.Write([]byte{0xa5})
			h.Write(u32(uint32(n)))
			h.Write(s[:n])
			chunks = append(chunks, h.Sum(nil))
			s = s[n:]
		}
	}
	h := nh()
	h.Write([]byte{0x5a})
	h.Write(u32(uint32(len(chunks))))
	h.Write(cat(chunks...))
	return h.Sum(nil)
}

func verity(data []byte) []byte {
	salt := make([]byte, 8)
	level := data
	for {
		var out []byte
		for o := 0; o < len(level); o += 4096 {
			e := o + 4096
			if e > len(level) {
				e = len(level)
			}
			page := make([]byte, 4096)
			copy(page, level[o:e])
			s := sha256.Sum256(cat(salt, page))
			out = append(out, s[:]...)
		}
		if r := len(out) % 4096; r != 0 {
			out = append(out, make([]byte, 4096-r)...)
		}
		if len(out) == 4096 {
			s := sha256.Sum256(cat(salt, out))
			return cat(s[:], u64(uint64(len(data))))
		}
		level = out
	}
}

// Signer describes one v2/v3 signer; zero values mean "do the right thing".
type Signer struct {
	Key            *Key
	Algos          []uint32
	DigestAlgos    []uint32          // algorithm ids in the digest list (default: Algos)
	Digests        map[uint32][]byte // overrides
	Certs          [][]byte          // default: Key.DER
	SPKI           []byte            // declared public key (default: Key.SPKI)
	Attrs          [][]byte          // each already id||value
	V3             bool
	Min, Max       uint32 // signed
	UMin, UMax     uint32 // unsigned copies (default: Min, Max)
	Corrupt        map[uint32]bool
	SignedTamper   func([]byte) []byte // applied after signing
	ExtraSignedEnd []byte
}

func (s *Signer) Encode(z []byte) []byte {
	da := s.DigestAlgos
	if da == nil {
		da = s.Algos
	}
	var digs [][]byte
	for _, a := range da {
		d, ok := s.Digests[a]
		if !ok {
			d = Digest(a, z)
		}
		digs = append(digs, lp(u32(a), lp(d)))
	}
	certs := s.Certs
	if certs == nil {
		certs = [][]byte{s.Key.DER}
	}
	var cs [][]byte
	for _, c := range certs {
		cs = append(cs, lp(c))
	}
	var at [][]byte
	for _, a := range s.Attrs {
		at = append(at, lp(a))
	}
	sd := cat(lp(digs...), lp(cs...))
	if s.V3 {
		sd = cat(sd, u32(s.Min), u32(s.Max))
	}
	sd = cat(sd, lp(at...), s.ExtraSignedEnd)
	var sigs [][]byte
	for _, a := range s.Algos {
		sig := s.Key.Sign(a, sd)
		if s.Corrupt[a] {
			sig[len(sig)-1] ^= 1
		}
		sigs = append(sigs, lp(u32(a), lp(sig)))
	}
	if s.SignedTamper != nil {
		sd = s.SignedTamper(sd)
	}
	spki := s.SPKI
	if spki == nil {
		spki = s.Key.SPKI
	}
	r := lp(sd)
	if s.V3 {
		mn, mx := s.UMin, s.UMax
		if mn == 0 {
			mn = s.Min
		}
		if mx == 0 {
			mx = s.Max
		}
		r = cat(r, u32(mn), u32(mx))
	}
	return cat(r, lp(sigs...), lp(spki))
}

func Block(z []byte, signers ...*Signer) []byte {
	var l [][]byte
	for _, s := range signers {
		l = append(l, lp(s.Encode(z)))
	}
	return lp(l...)
}

type Pair struct {
	Id   uint32
	Data []byte
}

// Insert puts an APK Signing Block with the pairs before the central directory.
func Insert(z []byte, pairs ...Pair) []byte {
	var body []byte
	for _, p := range pairs {
		body = cat(body, u64(uint64(len(p.Data)+4)), u32(p.Id), p.Data)
	}
	size := uint64(len(body) + 24)
	blk := cat(u64(size), body, u64(size), []byte("APK Sig Block 42"))
	cd, eo := cdOff(z)
	out := cat(z[:cd], blk, z[cd:])
	binary.LittleEndian.PutUint32(out[eo+len(blk)+16:], uint32(cd+len(blk)))
	return out
}

type Node struct {
	Key        *Key
	ParentAlgo uint32
	Algo       uint32
	Flags      uint32
	BadSig     bool
	Signer     *Key // default: previous node's key
}

// Lineage encodes a proof-of-rotation attribute value.
func Lineage(nodes ...Node) []byte {
	out := u32(1)
	for i, n := range nodes {
		sd := cat(lp(n.Key.DER), u32(n.ParentAlgo))
		var sig []byte
		if i > 0 {
			k := n.Signer
			if k == nil {
				k = nodes[i-1].Key
			}
			sig = k.Sign(nodes[i-1].Algo, sd)
			if n.BadSig {
				sig[len(sig)-1] ^= 1
			}
		}
		out = cat(out, lp(lp(sd), u32(n.Flags), u32(n.Algo), lp(sig)))
	}
	return out
}

// ---- JAR (v1) signing ----

func b64(b []byte) string { return base64.StdEncoding.EncodeToString(b) }

type V1 struct {
	Files     []File
	Key       *Key
	SFExtra   string              // extra main attributes of the .SF file, each line ending in \r\n
	Skip      map[string]bool     // entries left out of the manifest
	BadDigest map[string]bool     // entries with a wrong digest in the manifest
	NoWhole   bool                // leave the whole-manifest digest out
	SFSkip    map[string]bool     // entries left out of the .SF file
	SFBad     map[string]bool     // entries with a wrong digest in the .SF file
	EditMF    func(string) string // applied to the manifest before it is digested into the .SF
	TamperMF  func(string) string // applied to the manifest after it was signed
	TamperSF  func(string) string // applied to the .SF after it was signed
	Name      string              // base name, default CERT
	SigKey    *Key                // key that really signs (default Key)
	Attrs     bool                // use signed attributes
	BadAttr   bool                // wrong message digest in signed attributes
	AttrType  asn1.ObjectIdentifier
}

func digestLine(d []byte) string { return "SHA-256-Digest: " + b64(d) + "\r\n" }

// Sign returns the complete file list (signature files first).
func (v *V1) Sign() []File {
	name := v.Name
	if name == "" {
		name = "CERT"
	}
	mf := "Manifest-Version: 1.0\r\nCreated-By: 1.0 (demo)\r\n\r\n"
	chunks := map[string]string{}
	var order []string
	for _, f := range v.Files {
		if v.Skip[f.Name] || strings.HasSuffix(f.Name, "/") {
			continue
		}
		s := sha256.Sum256(f.Data)
		if v.BadDigest[f.Name] {
			s[0] ^= 1
		}
		c := "Name: " + f.Name + "\r\n" + digestLine(s[:]) + "\r\n"
		chunks[f.Name] = c
		order = append(order, f.Name)
		mf += c
	}
	if v.EditMF != nil {
		mf = v.EditMF(mf)
	}
	sf := "Signature-Version: 1.0\r\n"
	if !v.NoWhole {
		s := sha256.Sum256([]byte(mf))
		sf += "SHA-256-Digest-Manifest: " + b64(s[:]) + "\r\n"
	}
	sf += v.SFExtra + "\r\n"
	for _, n := range order {
		if v.SFSkip[n] {
			continue
		}
		s := sha256.Sum256([]byte(chunks[n]))
		if v.SFBad[n] {
			s[0] ^= 1
		}
		sf += "Name: " + n + "\r\n" + digestLine(s[:]) + "\r\n"
	}
	signer := v.SigKey
	if signer == nil {
		signer = v.Key
	}
	p7 := PKCS7(v.Key, signer, []byte(sf), v.Attrs, v.BadAttr, v.AttrType)
	if v.TamperMF != nil {
		mf = v.TamperMF(mf)
	}
	if v.TamperSF != nil {
		sf = v.TamperSF(sf)
	}
	ext := ".RSA"
	if _, ok := v.Key.Priv.(*ecdsa.PrivateKey); ok {
		ext = ".EC"
	}
	return append([]File{{"META-INF/MANIFEST.MF", []byte(mf)}, {"META-INF/" + name + ".SF", []byte(sf)}, {"META-INF/" + name + ext, p7}}, v.Files...)
}

type algId struct {
	Algorithm  asn1.ObjectIdentifier
	Parameters asn1.RawValue `asn1:"optional"`
}

var (
	oidData       = asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 7, 1}
	oidSignedData = asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 7, 2}
	oidSha256     = asn1.ObjectIdentifier{2, 16, 840, 1, 101, 3, 4, 2, 1}
	oidRsa        = asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 1, 1}
	oidEcdsa256   = asn1.ObjectIdentifier{1, 2, 840, 10045, 4, 3, 2}
	oidCtype      = asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 3}
	oidMdigest    = asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 4}
)

func der(class, tag int, constructed bool, content []byte) []byte {
	b, err := asn1.Marshal(asn1.RawValue{Class: class, Tag: tag, IsCompound: constructed, Bytes: content})
	must(err)
	return b
}
func seq(p ...[]byte) []byte { return der(0, 16, true, cat(p...)) }
func set(p ...[]byte) []byte { return der(0, 17, true, cat(p...)) }
func m(v interface{}) []byte {
	b, err := asn1.Marshal(v)
	must(err)
	return b
}
func alg(oid asn1.ObjectIdentifier, null bool) []byte {
	if null {
		return seq(m(oid), []byte{5, 0})
	}
	return seq(m(oid))
}

// SignerInfo builds one PKCS#7 SignerInfo over content.
func SignerInfo(certKey, signKey *Key, content []byte, attrs, badAttr bool, ctype asn1.ObjectIdentifier) []byte {
	sigAlg := alg(oidRsa, true)
	algo := uint32(RsaPkcs256)
	if _, ok := signKey.Priv.(*ecdsa.PrivateKey); ok {
		sigAlg = alg(oidEcdsa256, false)
		algo = Ec256
	}
	tbs := content
	var attrBytes []byte
	if attrs {
		d := sha256.Sum256(content)
		if badAttr {
			d[0] ^= 1
		}
		if ctype == nil {
			ctype = oidData
		}
		a := cat(seq(m(oidCtype), set(m(ctype))), seq(m(oidMdigest), set(m(d[:]))))
		tbs = set(a)
		attrBytes = der(2, 0, true, a)
	}
	return seq(m(1), seq(certKey.Cert.RawIssuer, m(certKey.Cert.SerialNumber)), alg(oidSha256, true), attrBytes, sigAlg, m(signKey.Sign(algo, tbs)))
}

func PKCS7Raw(certs [][]byte, infos ...[]byte) []byte {
	sd := seq(m(1), set(alg(oidSha256, true)), seq(m(oidData)), der(2, 0, true, cat(certs...)), set(infos...))
	return seq(m(oidSignedData), der(2, 0, true, sd))
}

func PKCS7(certKey, signKey *Key, content []byte, attrs, badAttr bool, ctype asn1.ObjectIdentifier) []byte {
	return PKCS7Raw([][]byte{certKey.DER}, SignerInfo(certKey, signKey, content, attrs, badAttr, ctype))
}

// ---- source stamp ----

// Stamp encodes a source stamp v2 block: signatures[schemeId] over digest records, attributes.
func Stamp(k *Key, algo uint32, schemes map[uint32][]byte, attrs []byte, badScheme, badAttr bool) []byte {
	var ss [][]byte
	for _, id := range []uint32{1, 2, 3} {
		data, ok := schemes[id]
		if !ok {
			continue
		}
		sig := k.Sign(algo, data)
		if badScheme {
			sig[len(sig)-1] ^= 1
		}
		ss = append(ss, lp(u32(id), lp(lp(u32(algo), lp(sig)))))
	}
	out := cat(lp(k.DER), lp(ss...))
	if attrs != nil {
		sig := k.Sign(algo, attrs)
		if badAttr {
			sig[len(sig)-1] ^= 1
		}
		out = cat(out, lp(attrs), lp(lp(u32(algo), lp(sig))))
	}
	return lp(out)
}

// StampDigest is the data the stamp signs for one content digest kind (1: sha256, 2: sha512, 3: verity, 4: v1).
func StampDigest(kind uint32, d []byte) []byte { return lp(u32(kind), lp(d)) }

func Sha256(b []byte) []byte { s := sha256.Sum256(b); return s[:] }
func Sha1(b []byte) []byte   { s := sha1.Sum(b); return s[:] }

var failed = false

func check(cond bool, format string, a ...interface{}) {
	if !cond {
		failed = true
		fmt.Printf("FAIL: "+format+"\n", a...)
	}
}

func done() {
	if failed {
		os.Exit(1)
	}
	fmt.Println("ok")
}
