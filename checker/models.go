package main

import (
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Models of the standard library functions the repository uses. Anything without a model is opaque.

type callCtx struct {
	x    *Exec
	fr   *Frame
	ps   *PS
	in   ssa.CallInstruction
	name string
	args []*Term // args[0] is the receiver for interface calls, the first argument otherwise
	sig  *types.Signature
}

type model func(c *callCtx) []outcome

var models map[string]model

func (c *callCtx) st() *State { return c.ps.st }

func (c *callCtx) bytes(i int) *Term { return c.x.content(c.st(), c.args[i], true) }

func (c *callCtx) ret(v ...*Term) []outcome {
	if len(v) == 1 {
		return one(c.ps, v[0])
	}
	return one(c.ps, mk("tuple", "", v...))
}

// fork clones the state for the two outcomes of condition f.
func (c *callCtx) fork(f *Term) (yes, no *PS) {
	switch c.st().eval(f) {
	case 1:
		return c.ps, nil
	case -1:
		return nil, c.ps
	}
	yes = c.ps.clone()
	no = c.ps
	yes.st.assume(f)
	no.st.assume(mkNot(f))
	if yes.st.bot {
		yes = nil
	}
	if no.st.bot {
		no = nil
	}
	return
}

var errNew = mk("err", "new")

// pureStd: standard library functions whose results depend only on the contents of the arguments
// and which change nothing.
func pureStd(n string) bool {
	for _, p := range []string{"strings.", "bytes.", "strconv.", "(encoding/asn1.", "encoding/hex.", "(*encoding/base64.Encoding).", "crypto/rsa.Verify", "crypto/ecdsa.Verify",
		"crypto/dsa.Verify", "crypto/x509.Parse", "(*crypto/x509.Certificate).CheckSignature", "fmt.Sprint", "fmt.Errorf", "(crypto.Hash).", "(*math/big.Int).Sign", "(*math/big.Int).Cmp",
		"(*math/big.Int).BitLen", "(time.Time).", "path/filepath.", "unicode/", "(crypto/x509.SignatureAlgorithm).", "crypto/md5.Sum", "crypto/sha1.Sum",
		"(crypto/x509/pkix.Name).ToRDNSequence", "invoke error.Error", "encoding/asn1.Marshal", "invoke crypto/elliptic.Curve.Params", "reflect.TypeOf", "math/big.NewInt", "encoding/pem.Decode",
		"(net.IP).", "net.ParseIP", "invoke reflect.Type.", "time.Unix", "os.IsNotExist", "(github.com/avast/apkparser"} {
		if strings.HasPrefix(n, p) {
			switch n {
			case "(github.com/avast/apkparser.ZipReaderFile).Open":
				return false
			}
			return true
		}
	}
	return false
}

// ---- hash objects ----

func (x *Exec) hashData(st *State, h *Term) *Term {
	if v, ok := st.mem[mk("hdata", "", h)]; ok {
		return v
	}
	if tok := st.mem[mk("ver", "", rootOf(h))]; tok != nil {
		return mk("hdata0", "", h, tok)
	}
	return mk("hdata0", "", h)
}

func (x *Exec) hashAlg(st *State, h *Term) *Term {
	if v, ok := st.mem[mk("halg", "", h)]; ok {
		return v
	}
	return mk("halg0", "", h)
}

var cryptoHashes = map[int64]string{2: "md5", 3: "sha1", 4: "sha224", 5: "sha256", 6: "sha384", 7: "sha512"}

func algOf(h *Term) *Term {
	if k, ok := h.int64(); ok {
		if n, ok := cryptoHashes[k]; ok {
			return mkStr(n)
		}
	}
	return h
}

func mkHash(alg, data *Term) *Term {
	if alg.Op == "s" {
		return mk("hashsum", alg.Sym, data)
	}
	return mk("hashsumv", "", alg, data)
}

func hashSizeTerm(alg *Term) *Term {
	if alg.Op == "s" {
		if n, ok := hashSizes[alg.Sym]; ok {
			return mkInt(n)
		}
	}
	return mk("hashsize", "", alg).withType(types.Typ[types.Int])
}

func (c *callCtx) newHash(alg *Term) []outcome {
	o := c.x.newObj(c.fr, c.in.(ssa.Instruction), "h"+c.x.site(c.fr, c.in), types.NewStruct(nil, nil))
	c.x.clearObj(c.st(), o)
	c.st().mem[mk("halg", "", o)] = alg
	c.st().mem[mk("hdata", "", o)] = tEmpty
	return c.ret(o)
}

// ---- files ----

func (x *Exec) filePos(st *State, f *Term) *Term {
	if v, ok := st.mem[mk("fpos", "", f)]; ok {
		return v
	}
	if tok := st.mem[mk("fver", "fpos")]; tok != nil {
		return mk("fposv", "", f, tok).withType(types.Typ[types.Int64])
	}
	return mk("fpos0", "", f).withType(types.Typ[types.Int64])
}

func unwrap(t *Term) *Term {
	for t.Op == "iface" {
		t = t.Args[0]
	}
	return t
}

// readInto stores n bytes of data at the start of slice dst.
func (c *callCtx) readInto(st *State, dst, data *Term) {
	x := c.x
	if dst.Op == "sl" {
		obj := dst.Args[0]
		cont, ok := x.get(st, obj)
		if !ok {
			cont = x.defaultLoad(st, obj, types.NewArray(types.Typ[types.Uint8], 0))
		}
		st.mem[obj] = mkPut(cont, dst.Args[1], data)
		return
	}
	x.notes["write into an opaque slice"]++
}

func (c *callCtx) seek(f, off, whence *Term) []outcome {
	x, st := c.x, c.st()
	var target *Term
	k, ok := whence.int64()
	pos := x.filePos(st, f)
	if !ok {
		target = mk("seekto", "", f, off, whence).withType(types.Typ[types.Int64])
	} else {
		switch k {
		case 0:
			target = off
		case 1:
			target = mkAdd(pos, off)
		case 2:
			target = mkAdd(mk("fsize", "", f), off)
		default:
			target = mk("seekto", "", f, off, whence).withType(types.Typ[types.Int64])
		}
	}
	bad := c.ps.clone()
	bad.st.mem[mk("fpos", "", f)] = mk("fposbad", c.x.site(c.fr, c.in), f).withType(types.Typ[types.Int64])
	c.st().mem[mk("fpos", "", f)] = target
	c.st().assume(mkLe(mkInt(0), target))
	var out []outcome
	if !c.st().bot {
		out = append(out, outcome{c.ps, mk("tuple", "", target, tNil)})
	}
	return append(out, outcome{bad, mk("tuple", "", mkInt(0), mk("err", "io"))})
}

func isReaderObj(x *Exec, st *State, r *Term) bool {
	_, ok := st.mem[mk("rdata", "", r)]
	return ok
}

// ---- binary encoding ----

func encSize(t types.Type) (int, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Uint8, types.Int8, types.Bool:
			return 1, true
		case types.Uint16, types.Int16:
			return 2, true
		case types.Uint32, types.Int32:
			return 4, true
		case types.Uint64, types.Int64:
			return 8, true
		}
	case *types.Array:
		n, ok := encSize(u.Elem())
		return n * int(u.Len()), ok
	case *types.Struct:
		s := 0
		for i := 0; i < u.NumFields(); i++ {
			n, ok := encSize(u.Field(i).Type())
			if !ok {
				return 0, false
			}
			s += n
		}
		return s, true
	}
	return 0, false
}

func decode(order, kind string, n int, b *Term) *Term {
	if n == 1 {
		return mk("byteat", "", b, mkInt(0))
	}
	return mk(order+strconv.Itoa(n*8), kind, b)
}

func orderOf(t *Term) string {
	if t.Op == "iface" {
		if strings.Contains(t.Sym, "bigEndian") {
			return "be"
		}
		return "le"
	}
	if strings.Contains(t.String(), "BigEndian") {
		return "be"
	}
	return "le"
}

// decodeInto assigns the fields of a fixed-size value read from data at offset off.
func (c *callCtx) decodeInto(st *State, order string, addr *Term, t types.Type, data *Term, off int) bool {
	x := c.x
	n, ok := encSize(t)
	if !ok {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		x.store(st, addr, decode(order, u.Name(), n, mkTake(mkDrop(data, mkInt(int64(off))), mkInt(int64(n)))), t)
	case *types.Array:
		if isByte(u.Elem()) {
			x.store(st, addr, mkTake(mkDrop(data, mkInt(int64(off))), mkInt(int64(n))), t)
			return true
		}
		es, _ := encSize(u.Elem())
		for i := 0; i < int(u.Len()) && i < 256; i++ {
			c.decodeInto(st, order, mk("ia", "", addr, mkInt(int64(i))), u.Elem(), data, off+i*es)
		}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			es, _ := encSize(u.Field(i).Type())
			c.decodeInto(st, order, x.mkField(addr, t, i), u.Field(i).Type(), data, off)
			off += es
		}
	}
	return true
}

func (c *callCtx) encode(order string, v *Term, t types.Type) *Term {
	n, ok := encSize(t)
	if !ok {
		return nil
	}
	switch t.Underlying().(type) {
	case *types.Basic:
		if n == 1 {
			return mk("byte1", "", v)
		}
		return mkEnc(order, n*8, v)
	}
	return nil
}

// mkEnc is the encoding of v in bits bits.
func mkEnc(order string, bits int, v *Term) *Term {
	s := strconv.Itoa(bits)
	if v.Op == order+s {
		return v.Args[0] // re-encoding what was decoded
	}
	if v.Op == "conv" {
		lo, hi := kindRange(v.Sym)
		if lo != nil && new(big.Int).Sub(hi, lo).BitLen() >= bits {
			return mkEnc(order, bits, v.Args[0])
		}
	}
	return mk("enc"+order, s, v)
}

// ---- zip files ----
// ZipReaderFile methods come from apkparser and are opaque: Open/Next/Read change its position.

func init() {
	models = map[string]model{
		// errors
		"errors.New": func(c *callCtx) []outcome {
			if c.x.inInit {
				return c.ret(mk("err", "init:"+c.x.site(c.fr, c.in)))
			}
			return c.ret(errNew)
		},
		"fmt.Errorf": func(c *callCtx) []outcome {
			if c.x.inInit {
				return c.ret(mk("err", "init:"+c.x.site(c.fr, c.in)))
			}
			return c.ret(errNew)
		},
		"bytes.Clone": func(c *callCtx) []outcome {
			v := c.x.content(c.st(), c.args[0], true)
			if len(c.x.loopStack) == 0 {
				return c.ret(c.x.freshBytes(c.fr, c.st(), c.in.(ssa.Instruction), "clone"+c.x.site(c.fr, c.in), v, c.sig.Results().At(0).Type()))
			}
			return c.ret(v)
		},
		// bytes
		"bytes.NewBuffer": func(c *callCtx) []outcome {
			o := c.x.newObj(c.fr, c.in.(ssa.Instruction), "buf"+c.x.site(c.fr, c.in), namedType(c.x.w, "bytes", "Buffer"))
			c.x.clearObj(c.st(), o)
			c.st().mem[mk("bufc", "", o)] = c.bytes(0)
			return c.ret(o)
		},
		"bytes.NewBufferString": func(c *callCtx) []outcome { return models["bytes.NewBuffer"](c) },
		"(*bytes.Buffer).Bytes": func(c *callCtx) []outcome { return c.ret(c.x.bufContent(c.st(), c.args[0])) },
		"(*bytes.Buffer).String": func(c *callCtx) []outcome {
			return c.ret(c.x.bufContent(c.st(), c.args[0]))
		},
		"(*bytes.Buffer).Len": func(c *callCtx) []outcome { return c.ret(mkLen(c.x.bufContent(c.st(), c.args[0]))) },
		"(*bytes.Buffer).Next": func(c *callCtx) []outcome {
			p, n := c.args[0], c.args[1]
			b := c.x.bufContent(c.st(), p)
			c.x.event("bufnext", "", c.fr, c.in.(ssa.Instruction), c.st(), n, mkLen(b))
			yes, no := c.fork(mkLe(n, mkLen(b)))
			var out []outcome
			if yes != nil {
				yes.st.mem[mk("bufc", "", p)] = mkDrop(b, n)
				out = append(out, outcome{yes, mkTake(b, n)})
			}
			if no != nil {
				no.st.mem[mk("bufc", "", p)] = tEmpty
				out = append(out, outcome{no, b})
			}
			return out
		},
		"(*bytes.Buffer).Write": func(c *callCtx) []outcome {
			p := c.args[0]
			d := c.bytes(1)
			c.st().mem[mk("bufc", "", p)] = mkCat(c.x.bufContent(c.st(), p), d)
			return c.ret(mkLen(d), tNil)
		},
		"(*bytes.Buffer).WriteString": func(c *callCtx) []outcome { return models["(*bytes.Buffer).Write"](c) },
		"(*bytes.Buffer).WriteByte": func(c *callCtx) []outcome {
			p := c.args[0]
			c.st().mem[mk("bufc", "", p)] = mkCat(c.x.bufContent(c.st(), p), byteTerm(c.args[1]))
			return c.ret(tNil)
		},
		"(*bytes.Buffer).Reset": func(c *callCtx) []outcome {
			c.st().mem[mk("bufc", "", c.args[0])] = tEmpty
			return c.ret(tNil)
		},
		"(*bytes.Buffer).Truncate": func(c *callCtx) []outcome {
			p := c.args[0]
			c.st().mem[mk("bufc", "", p)] = mkTake(c.x.bufContent(c.st(), p), c.args[1])
			return c.ret(tNil)
		},
		"bytes.NewReader": func(c *callCtx) []outcome {
			o := c.x.newObj(c.fr, c.in.(ssa.Instruction), "rd"+c.x.site(c.fr, c.in), namedType(c.x.w, "bytes", "Reader"))
			c.x.clearObj(c.st(), o)
			c.st().mem[mk("rdata", "", o)] = c.bytes(0)
			c.st().mem[mk("rpos", "", o)] = mkInt(0)
			return c.ret(o)
		},
		"(*bytes.Reader).Len": func(c *callCtx) []outcome {
			d, p := c.x.readerData(c.st(), c.args[0])
			l := mkSub(mkLen(d), p)
			switch c.st().eval(mkLe(p, mkLen(d))) {
			case 1:
				return c.ret(l)
			case -1:
				return c.ret(mkInt(0))
			}
			yes, no := c.fork(mkLe(p, mkLen(d)))
			var out []outcome
			if yes != nil {
				out = append(out, outcome{yes, l})
			}
			if no != nil {
				out = append(out, outcome{no, mkInt(0)})
			}
			return out
		},
		"(*bytes.Reader).Size": func(c *callCtx) []outcome {
			d, _ := c.x.readerData(c.st(), c.args[0])
			return c.ret(mkLen(d))
		},
		"(*bytes.Reader).Seek": func(c *callCtx) []outcome {
			d, p := c.x.readerData(c.st(), c.args[0])
			k, ok := c.args[2].int64()
			if !ok {
				return nil
			}
			t := c.args[1]
			switch k {
			case 1:
				t = mkAdd(p, t)
			case 2:
				t = mkAdd(mkLen(d), t)
			}
			t = c.x.arith(c.st(), t, types.Typ[types.Int64])
			yes, no := c.fork(mkLe(mkInt(0), t))
			var out []outcome
			if yes != nil {
				yes.st.mem[mk("rpos", "", c.args[0])] = t
				out = append(out, outcome{yes, mk("tuple", "", t, tNil)})
			}
			if no != nil {
				out = append(out, outcome{no, mk("tuple", "", mkInt(0), mk("err", "io"))})
			}
			return out
		},
		"(*bytes.Reader).Read": func(c *callCtx) []outcome {
			// reads min(len(dst), rest) bytes; io.EOF when nothing is left
			d, p := c.x.readerData(c.st(), c.args[0])
			rest := mkDrop(d, p)
			n := c.x.lenOf(c.st(), c.args[1], types.NewSlice(types.Typ[types.Uint8]))
			yes, no := c.fork(mkLe(mkAdd(p, n), mkLen(d)))
			var out []outcome
			if yes != nil {
				c2 := *c
				c2.ps = yes
				c2.readInto(yes.st, c.args[1], mkTake(rest, n))
				yes.st.mem[mk("rpos", "", c.args[0])] = mkAdd(p, n)
				out = append(out, outcome{yes, mk("tuple", "", n, tNil)})
				// an empty read at the end reports io.EOF
				e := yes.clone()
				e.st.assume(mkLe(mkLen(d), p))
				if !e.st.bot {
					out = append(out, outcome{e, mk("tuple", "", mkInt(0), mk("err", "io"))})
				}
			}
			if no != nil {
				s := no.clone()
				s.st.assume(mkLe(mkAdd(p, mkInt(1)), mkLen(d)))
				if !s.st.bot {
					m := mkSub(mkLen(d), p)
					c2 := *c
					c2.ps = s
					c2.readInto(s.st, c.args[1], rest)
					s.st.mem[mk("rpos", "", c.args[0])] = mkLen(d)
					out = append(out, outcome{s, mk("tuple", "", m, tNil)})
				}
				no.st.assume(mkLe(mkLen(d), p))
				if !no.st.bot {
					out = append(out, outcome{no, mk("tuple", "", mkInt(0), mk("err", "io"))})
				}
			}
			return out
		},
		"bytes.Equal": func(c *callCtx) []outcome { return c.ret(mkEq(c.bytes(0), c.bytes(1))) },
		"crypto/hmac.Equal": func(c *callCtx) []outcome {
			return c.ret(mkEq(c.bytes(0), c.bytes(1)))
		},
		"crypto/subtle.ConstantTimeCompare": func(c *callCtx) []outcome {
			e := mkEq(c.bytes(0), c.bytes(1))
			yes, no := c.fork(e)
			var out []outcome
			if yes != nil {
				out = append(out, outcome{yes, mkInt(1)})
			}
			if no != nil {
				out = append(out, outcome{no, mkInt(0)})
			}
			return out
		},
		"bytes.Compare": func(c *callCtx) []outcome {
			a, b := c.bytes(0), c.bytes(1)
			yes, no := c.fork(mkEq(a, b))
			var out []outcome
			if yes != nil {
				out = append(out, outcome{yes, mkInt(0)})
			}
			if no != nil {
				r := mk("call", "bytes.Compare", a, b).withType(types.Typ[types.Int])
				no.st.assume(mkNot(mkEq(r, mkInt(0))))
				out = append(out, outcome{no, r})
			}
			return out
		},
		"(*crypto/x509.Certificate).Equal": func(c *callCtx) []outcome {
			a, b := c.args[0], c.args[1]
			if a == b {
				return c.ret(tTrue)
			}
			if c.st().eval(mkEq(a, tNil)) == 1 || c.st().eval(mkEq(b, tNil)) == 1 {
				return c.ret(mkEq(a, b))
			}
			return c.ret(mkEq(c.x.certRaw(c.st(), a), c.x.certRaw(c.st(), b)))
		},
		// encoding/binary
		"(encoding/binary.littleEndian).Uint16":    leGet("le", 2, "uint16"),
		"(encoding/binary.littleEndian).Uint32":    leGet("le", 4, "uint32"),
		"(encoding/binary.littleEndian).Uint64":    leGet("le", 8, "uint64"),
		"(encoding/binary.bigEndian).Uint16":       leGet("be", 2, "uint16"),
		"(encoding/binary.bigEndian).Uint32":       leGet("be", 4, "uint32"),
		"(encoding/binary.bigEndian).Uint64":       leGet("be", 8, "uint64"),
		"(encoding/binary.littleEndian).PutUint16": lePut("le", 2),
		"(encoding/binary.littleEndian).PutUint32": lePut("le", 4),
		"(encoding/binary.littleEndian).PutUint64": lePut("le", 8),
		"(encoding/binary.bigEndian).PutUint16":    lePut("be", 2),
		"(encoding/binary.bigEndian).PutUint32":    lePut("be", 4),
		"(encoding/binary.bigEndian).PutUint64":    lePut("be", 8),
		"encoding/binary.Read":                     modelBinaryRead,
		"encoding/binary.Write":                    modelBinaryWrite,
		// io
		"invoke io.ReadSeeker.Seek": func(c *callCtx) []outcome { return c.seek(c.args[0], c.args[1], c.args[2]) },
		"invoke io.Seeker.Seek":     func(c *callCtx) []outcome { return c.seek(c.args[0], c.args[1], c.args[2]) },
		"io.ReadFull":               modelReadFull,
		"io.ReadAtLeast":            nil,
		"io.CopyN":                  modelCopyN,
		"io.Copy":                   modelCopy,
		"io.CopyBuffer":             modelCopy,
		// hashing
		"(crypto.Hash).New": func(c *callCtx) []outcome { return c.newHash(algOf(c.args[0])) },
		"(crypto.Hash).Size": func(c *callCtx) []outcome {
			return c.ret(hashSizeTerm(algOf(c.args[0])))
		},
		"(crypto.Hash).Available": func(c *callCtx) []outcome {
			if algOf(c.args[0]).Op == "s" {
				return c.ret(tTrue)
			}
			return c.ret(mk("call", "(crypto.Hash).Available", c.args[0]))
		},
		"(crypto.Hash).HashFunc": func(c *callCtx) []outcome { return c.ret(c.args[0]) },
		"crypto/sha256.New":      func(c *callCtx) []outcome { return c.newHash(mkStr("sha256")) },
		"crypto/sha256.New224":   func(c *callCtx) []outcome { return c.newHash(mkStr("sha224")) },
		"crypto/sha512.New":      func(c *callCtx) []outcome { return c.newHash(mkStr("sha512")) },
		"crypto/sha512.New384":   func(c *callCtx) []outcome { return c.newHash(mkStr("sha384")) },
		"crypto/sha1.New":        func(c *callCtx) []outcome { return c.newHash(mkStr("sha1")) },
		"crypto/md5.New":         func(c *callCtx) []outcome { return c.newHash(mkStr("md5")) },
		"crypto/sha256.Sum256":   func(c *callCtx) []outcome { return c.ret(mkHash(mkStr("sha256"), c.bytes(0))) },
		"crypto/sha256.Sum224":   func(c *callCtx) []outcome { return c.ret(mkHash(mkStr("sha224"), c.bytes(0))) },
		"crypto/sha512.Sum512":   func(c *callCtx) []outcome { return c.ret(mkHash(mkStr("sha512"), c.bytes(0))) },
		"crypto/sha512.Sum384":   func(c *callCtx) []outcome { return c.ret(mkHash(mkStr("sha384"), c.bytes(0))) },
		"crypto/sha1.Sum":        func(c *callCtx) []outcome { return c.ret(mkHash(mkStr("sha1"), c.bytes(0))) },
		"crypto/md5.Sum":         func(c *callCtx) []outcome { return c.ret(mkHash(mkStr("md5"), c.bytes(0))) },
		"invoke hash.Hash.Write": func(c *callCtx) []outcome {
			h := c.args[0]
			d := c.bytes(1)
			c.st().mem[mk("hdata", "", h)] = mkCat(c.x.hashData(c.st(), h), d)
			return c.ret(mkLen(d), tNil)
		},
		"invoke io.Writer.Write": func(c *callCtx) []outcome {
			w := unwrap(c.args[0])
			if _, ok := c.st().mem[mk("hdata", "", w)]; ok {
				d := c.bytes(1)
				c.st().mem[mk("hdata", "", w)] = mkCat(c.x.hashData(c.st(), w), d)
				return c.ret(mkLen(d), tNil)
			}
			return nil
		},
		"invoke hash.Hash.Reset": func(c *callCtx) []outcome {
			c.st().mem[mk("hdata", "", c.args[0])] = tEmpty
			return c.ret(tNil)
		},
		"invoke hash.Hash.Size": func(c *callCtx) []outcome {
			return c.ret(hashSizeTerm(c.x.hashAlg(c.st(), c.args[0])))
		},
		"invoke hash.Hash.Sum": func(c *callCtx) []outcome {
			h := c.args[0]
			return c.ret(mkCat(c.bytes(1), mkHash(c.x.hashAlg(c.st(), h), c.x.hashData(c.st(), h))))
		},
		// sorting
		"sort.Slice":       modelSort,
		"sort.SliceStable": modelSort,
		"sort.Sort":        modelSort,
		"sort.Stable":      modelSort,
		"sort.Ints":        modelSort,
		"sort.Strings":     modelSort,
		// text
		"strings.HasPrefix": func(c *callCtx) []outcome { return strPred(c, strings.HasPrefix) },
		"strings.HasSuffix": func(c *callCtx) []outcome { return strPred(c, strings.HasSuffix) },
		"strings.Contains":  func(c *callCtx) []outcome { return strPred(c, strings.Contains) },
		"strings.ToLower": func(c *callCtx) []outcome {
			if c.args[0].Op == "s" {
				return c.ret(mkStr(strings.ToLower(c.args[0].Sym)))
			}
			return nil
		},
	}
	delete(models, "io.ReadAtLeast")
}

func strPred(c *callCtx, f func(a, b string) bool) []outcome {
	if c.args[0].Op == "s" && c.args[1].Op == "s" {
		return c.ret(mkBool(f(c.args[0].Sym, c.args[1].Sym)))
	}
	return nil
}

func byteTerm(v *Term) *Term {
	if k, ok := v.int64(); ok && k >= 0 && k < 256 {
		return mkStr(string([]byte{byte(k)}))
	}
	return mk("byte1", "", v)
}

func namedType(w *World, pkg, name string) types.Type {
	if p := w.Prog.ImportedPackage(pkg); p != nil {
		if t := p.Type(name); t != nil {
			return t.Type()
		}
	}
	return types.NewStruct(nil, nil)
}

// certRaw is the DER encoding of a certificate.
func (x *Exec) certRaw(st *State, c *Term) *Term {
	a := mk("fa", "crypto/x509.Certificate.Raw", c)
	if v, ok := x.get(st, a); ok {
		return v
	}
	return x.defaultLoad(st, a, types.NewSlice(types.Typ[types.Uint8]))
}

func leGet(order string, n int, kind string) model {
	return func(c *callCtx) []outcome {
		i := len(c.args) - 1
		b := c.bytes(i)
		c.x.event("index", "", c.fr, c.in.(ssa.Instruction), c.st(), mkInt(int64(n-1)), mkLen(b))
		return c.ret(decode(order, kind, n, mkTake(b, mkInt(int64(n)))))
	}
}

func lePut(order string, n int) model {
	return func(c *callCtx) []outcome {
		dst, v := c.args[len(c.args)-2], c.args[len(c.args)-1]
		c.x.event("index", "", c.fr, c.in.(ssa.Instruction), c.st(), mkInt(int64(n-1)), c.x.lenOf(c.st(), dst, types.NewSlice(types.Typ[types.Uint8])))
		c.readInto(c.st(), dst, mkEnc(order, n*8, v))
		return c.ret(tNil)
	}
}

func modelBinaryRead(c *callCtx) []outcome {
	x, st := c.x, c.st()
	r, order := unwrap(c.args[0]), orderOf(c.args[1])
	data := c.args[2]
	if data.Op != "iface" {
		return nil
	}
	t := x.types[data.Sym]
	var size *Term
	var elem types.Type
	ptr := false
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		elem = u.Elem()
		n, ok := encSize(elem)
		if !ok {
			return nil
		}
		size = mkInt(int64(n))
		ptr = true
	case *types.Slice:
		if !isByte(u.Elem()) {
			return nil
		}
		size = x.lenOf(st, data.Args[0], t)
	default:
		return nil
	}
	rt := ""
	if c.args[0].Op == "iface" {
		rt = c.args[0].Sym
	}
	put := func(ps *PS, src *Term) {
		c2 := *c
		c2.ps = ps
		if ptr {
			c2.decodeInto(ps.st, order, data.Args[0], elem, src, 0)
		} else {
			c2.readInto(ps.st, data.Args[0], mkTake(src, size))
		}
	}
	switch rt {
	case "*bytes.Buffer":
		b := x.bufContent(st, r)
		yes, no := c.fork(mkLe(size, mkLen(b)))
		var out []outcome
		if yes != nil {
			put(yes, b)
			yes.st.mem[mk("bufc", "", r)] = mkDrop(b, size)
			out = append(out, outcome{yes, tNil})
		}
		if no != nil {
			no.st.mem[mk("bufc", "", r)] = tEmpty
			out = append(out, outcome{no, mk("err", "io")})
		}
		return out
	case "*bytes.Reader":
		d, p := x.readerData(st, r)
		yes, no := c.fork(mkLe(mkAdd(p, size), mkLen(d)))
		var out []outcome
		if yes != nil {
			put(yes, mkDrop(d, p))
			yes.st.mem[mk("rpos", "", r)] = mkAdd(p, size)
			out = append(out, outcome{yes, tNil})
		}
		if no != nil {
			np := mkLen(d)
			if st.eval(mkLe(mkLen(d), p)) == 1 {
				np = p
			} else if st.eval(mkLe(p, mkLen(d))) != 1 {
				np = mk("max", "", sortTerms([]*Term{p, mkLen(d)})...).withType(types.Typ[types.Int])
			}
			no.st.mem[mk("rpos", "", r)] = np
			out = append(out, outcome{no, mk("err", "io")})
		}
		return out
	}
	if isReaderObj(x, st, r) || st.mem[mk("bufc", "", r)] != nil || rt != "" && rt != "*os.File" {
		return nil
	}
	// a file
	pos := x.filePos(st, r)
	bad := c.ps.clone()
	bad.st.mem[mk("fpos", "", r)] = mk("fposbad", x.site(c.fr, c.in), r).withType(types.Typ[types.Int64])
	put(c.ps, mk("fileread", "", r, pos, size))
	st.mem[mk("fpos", "", r)] = mkAdd(pos, size)
	if !ptr && data.Args[0].Op == "sl" {
		x.havocObj(bad.st, data.Args[0].Args[0], mk("partial", x.site(c.fr, c.in)))
	}
	return []outcome{{c.ps, tNil}, {bad, mk("err", "io")}}
}

func modelBinaryWrite(c *callCtx) []outcome {
	x, st := c.x, c.st()
	w, order, v := c.args[0], orderOf(c.args[1]), c.args[2]
	if v.Op != "iface" || w.Op != "iface" {
		// hash.Hash is passed as an interface without a known dynamic type
		if v.Op != "iface" {
			return nil
		}
	}
	t := x.types[v.Sym]
	var enc *Term
	if s, ok := t.Underlying().(*types.Slice); ok && isByte(s.Elem()) {
		enc = x.content(st, v.Args[0], true)
	} else {
		enc = c.encode(order, v.Args[0], t)
	}
	if enc == nil {
		return nil
	}
	u := unwrap(w)
	if _, ok := st.mem[mk("hdata", "", u)]; ok {
		st.mem[mk("hdata", "", u)] = mkCat(x.hashData(st, u), enc)
		return c.ret(tNil)
	}
	if w.Op == "iface" && w.Sym == "*bytes.Buffer" {
		st.mem[mk("bufc", "", u)] = mkCat(x.bufContent(st, u), enc)
		return c.ret(tNil)
	}
	return nil
}

func modelReadFull(c *callCtx) []outcome {
	x, st := c.x, c.st()
	r := c.args[0]
	dst := c.args[1]
	n := x.lenOf(st, dst, types.NewSlice(types.Typ[types.Uint8]))
	if r.Op == "iface" && (r.Sym == "*bytes.Reader" || r.Sym == "*bytes.Buffer") {
		u := r.Args[0]
		var d, p *Term
		if r.Sym == "*bytes.Reader" {
			d, p = x.readerData(st, u)
		} else {
			d, p = x.bufContent(st, u), mkInt(0)
		}
		yes, no := c.fork(mkLe(mkAdd(p, n), mkLen(d)))
		var out []outcome
		adv := func(ps *PS, to *Term) {
			if r.Sym == "*bytes.Reader" {
				ps.st.mem[mk("rpos", "", u)] = to
			} else {
				ps.st.mem[mk("bufc", "", u)] = mkDrop(d, to)
			}
		}
		if yes != nil {
			c2 := *c
			c2.ps = yes
			c2.readInto(yes.st, dst, mkTake(mkDrop(d, p), n))
			adv(yes, mkAdd(p, n))
			out = append(out, outcome{yes, mk("tuple", "", n, tNil)})
		}
		if no != nil {
			adv(no, mkLen(d))
			if dst.Op == "sl" {
				x.havocObj(no.st, dst.Args[0], mk("partial", x.site(c.fr, c.in)))
			}
			out = append(out, outcome{no, mk("tuple", "", mk("short", x.site(c.fr, c.in)).withType(types.Typ[types.Int]), mk("err", "io"))})
		}
		return out
	}
	f := unwrap(r)
	pos := x.filePos(st, f)
	bad := c.ps.clone()
	bad.st.mem[mk("fpos", "", f)] = mk("fposbad", x.site(c.fr, c.in), f).withType(types.Typ[types.Int64])
	if dst.Op == "sl" {
		x.havocObj(bad.st, dst.Args[0], mk("partial", x.site(c.fr, c.in)))
	}
	c.readInto(st, dst, mk("fileread", "", f, pos, n))
	st.mem[mk("fpos", "", f)] = mkAdd(pos, n)
	out := []outcome{{c.ps, mk("tuple", "", n, tNil)}}
	sh := mk("short", x.site(c.fr, c.in)).withType(types.Typ[types.Int])
	other := mk("err", "io")
	if g := ioEOF(c.fr.fn); g != nil {
		// io.EOF only when nothing was read
		other = mk("err", "io:"+x.site(c.fr, c.in))
		end := bad.clone()
		eof := x.load(st, mk("glob", "io.EOF"), g.Type().Underlying().(*types.Pointer).Elem())
		end.st.assume(mkNot(mkEq(eof, tNil)))
		if !end.st.bot {
			out = append(out, outcome{end, mk("tuple", "", mkInt(0), eof)})
		}
		bad.st.assume(mkNot(mkEq(other, eof)))
		if bad.st.bot {
			return out
		}
	}
	bad.st.assume(mkLe(mkInt(0), sh))
	bad.st.assume(mkLe(sh, n))
	return append(out, outcome{bad, mk("tuple", "", sh, other)})
}

// ioEOF: the function refers to io.EOF.
func ioEOF(f *ssa.Function) *ssa.Global {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for _, o := range in.Operands(nil) {
				if g, ok := (*o).(*ssa.Global); ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "io" && g.Name() == "EOF" {
					return g
				}
			}
		}
	}
	return nil
}

func modelCopyN(c *callCtx) []outcome {
	x, st := c.x, c.st()
	w, f, n := c.args[0], unwrap(c.args[1]), c.args[2]
	pos := x.filePos(st, f)
	bad := c.ps.clone()
	bad.st.mem[mk("fpos", "", f)] = mk("fposbad", x.site(c.fr, c.in), f).withType(types.Typ[types.Int64])
	u := unwrap(w)
	data := mk("fileread", "", f, pos, n)
	if _, ok := st.mem[mk("hdata", "", u)]; ok || isHash(c) {
		st.mem[mk("hdata", "", u)] = mkCat(x.hashData(st, u), data)
		bad.st.mem[mk("hdata", "", u)] = mkDep(x.loopStack, "partial", x.site(c.fr, c.in), u)
	} else {
		st.facts[mk("did", "copied", w, data)] = true
		for o := range x.reachDirect(st, []*Term{w}) {
			x.havocObj(st, o, data)
		}
	}
	st.mem[mk("fpos", "", f)] = mkAdd(pos, n)
	x.event("call", "io.CopyN", c.fr, c.in.(ssa.Instruction), st, w, data)
	return []outcome{{c.ps, mk("tuple", "", n, tNil)}, {bad, mk("tuple", "", mk("short", x.site(c.fr, c.in)).withType(types.Typ[types.Int64]), mk("err", "io"))}}
}

// modelCopy: everything that is left of a stream goes to the writer, or an error is returned.
func modelCopy(c *callCtx) []outcome {
	x, st := c.x, c.st()
	site := c.x.site(c.fr, c.in)
	w, r := c.args[0], unwrap(c.args[1])
	u := unwrap(w)
	bad := c.ps.clone()
	rest := mkDep(x.loopStack, "streamrest", site, r)
	call := mkDep(x.loopStack, "call", "io.Copy@"+site, c.args...)
	for _, s := range []*State{st, bad.st} {
		s.facts[mk("did", "io.Copy", call, w, c.args[1])] = true
	}
	x.event("call", "io.Copy", c.fr, c.in.(ssa.Instruction), st, call, w, c.args[1])
	hk := mk("hdata", "", u)
	_, known := st.mem[hk]
	if known || isHash(c) {
		st.mem[hk] = mkCat(x.hashData(st, u), rest)
		bad.st.mem[hk] = mkDep(x.loopStack, "partial", site, u)
	} else {
		for o := range x.reachDirect(st, []*Term{w}) {
			x.havocObj(st, o, rest)
			x.havocObj(bad.st, o, mkDep(x.loopStack, "partial", site, u))
		}
	}
	for _, s := range []*State{st, bad.st} {
		if _, ok := s.mem[mk("fpos", "", r)]; ok {
			s.mem[mk("fpos", "", r)] = mk("fposv", "", r, call).withType(types.Typ[types.Int64])
		}
	}
	n := mkDep(x.loopStack, "copied", site, r).withType(types.Typ[types.Int64])
	return []outcome{{c.ps, mk("tuple", "", n, tNil)}, {bad, mk("tuple", "", n, mk("err", "io"))}}
}

// isHash: the static type of the call's first argument before its conversion is hash.Hash.
func isHash(c *callCtx) bool {
	a := c.in.Common().Args[0]
	for {
		switch v := a.(type) {
		case *ssa.ChangeInterface:
			a = v.X
			continue
		case *ssa.MakeInterface:
			a = v.X
			continue
		}
		break
	}
	n, ok := a.Type().(*types.Named)
	return ok && strings.HasPrefix(n.Obj().Name(), "Hash") && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "hash"
}

// modelSort: the slice holds a permutation of its old elements.
func modelSort(c *callCtx) []outcome {
	x, st := c.x, c.st()
	v := unwrap(c.args[0])
	less := tNil
	if len(c.args) > 1 {
		less = c.args[1]
		if less.Op == "clo" {
			less = mk("fn", less.Sym)
		}
	} else if c.args[0].Op == "iface" {
		less = mkStr(c.args[0].Sym)
	}
	x.event("sort", c.name, c.fr, c.in.(ssa.Instruction), st, v, less)
	if v.Op == "sl" {
		cont := x.content(st, v, false)
		o := v.Args[0]
		x.havocObj(st, o, mk("sorted", "", cont, less))
		st.mem[o] = mk("sorted", "", cont, less)
		return c.ret(tNil)
	}
	if v.Op == "obj" || v.isConst() {
		return c.ret(tNil)
	}
	s := mk("sorted", "", v, less).withType(v.Typ)
	m := map[*Term]*Term{v: s}
	for a, t := range st.mem {
		if t == v || t.contains(v) {
			st.mem[a] = subst(t, m)
		}
	}
	for k, t := range c.ps.env {
		if t == v {
			c.ps.env[k] = s
		}
	}
	return c.ret(tNil)
}
