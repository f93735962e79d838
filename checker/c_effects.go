package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks = append(checks, checkDef{"C25", checkC25, 60}, checkDef{"C31", checkC31, 100})
}

// harmless: packages whose functions have no effect outside the process, minus the listed exceptions.
var harmless = []string{"bytes", "strings", "strconv", "errors", "fmt", "math", "math/big", "math/bits", "math/cmplx", "sort", "slices", "maps", "cmp", "iter", "unicode", "unicode/utf8", "unicode/utf16", "path", "bufio", "io", "io/ioutil",
	"hash", "hash/crc32", "hash/fnv", "hash/adler32", "hash/crc64", "reflect", "sync", "sync/atomic", "encoding", "encoding/asn1", "encoding/base64", "encoding/base32", "encoding/binary", "encoding/hex", "encoding/pem", "encoding/json", "encoding/xml",
	"crypto", "crypto/md5", "crypto/sha1", "crypto/sha256", "crypto/sha512", "crypto/rsa", "crypto/ecdsa", "crypto/dsa", "crypto/ed25519", "crypto/elliptic", "crypto/subtle", "crypto/hmac", "crypto/aes", "crypto/des", "crypto/cipher", "crypto/x509/pkix",
	"container/heap", "container/list", "container/ring", "time", "unsafe", "text/tabwriter", "context"}

var harmful = map[string]bool{
	"fmt.Print": true, "fmt.Printf": true, "fmt.Println": true, "fmt.Scan": true, "fmt.Scanf": true, "fmt.Scanln": true,
	"io/ioutil.WriteFile": true, "io/ioutil.ReadFile": true, "io/ioutil.TempFile": true, "io/ioutil.TempDir": true, "io/ioutil.ReadDir": true,
	"time.Sleep": true, "time.AfterFunc": true, "time.NewTimer": true, "time.NewTicker": true, "time.Tick": true, "time.After": true, "time.LoadLocation": true,
	"context.AfterFunc": true,
}

// allowed: other library functions that verification may use.
var allowed = map[string]bool{
	"os.Open": true, "(*os.File).Close": true, "(*os.File).Read": true, "(*os.File).ReadAt": true, "(*os.File).Seek": true, "(*os.File).Stat": true, "(*os.File).Name": true,
	"path/filepath.Base": true, "path/filepath.Dir": true, "path/filepath.Ext": true, "path/filepath.Join": true, "path/filepath.Clean": true, "path/filepath.Split": true, "path/filepath.ToSlash": true, "path/filepath.FromSlash": true, "path/filepath.Match": true, "path/filepath.IsAbs": true, "path/filepath.Rel": true,
	"crypto/x509.ParseCertificate": true, "crypto/x509.ParseCertificates": true, "crypto/x509.ParsePKIXPublicKey": true, "crypto/x509.ParsePKCS1PublicKey": true, "crypto/x509.MarshalPKIXPublicKey": true,
	"(*crypto/x509.Certificate).CheckSignature": true, "(*crypto/x509.Certificate).CheckSignatureFrom": true, "(*crypto/x509.Certificate).Equal": true,
	"net.ParseIP": true, "(net.IP).String": true, "(net.IP).Equal": true, "net/url.Parse": true,
	"github.com/avast/apkparser.OpenZipReader": true, "github.com/avast/apkparser.OpenZip": true, "github.com/avast/apkparser.OpenZipReaderFromReader": true, "github.com/avast/apkparser.ParseXml": true, "github.com/avast/apkparser.ParseManifest": true,
	"github.com/avast/apkparser.NewBinaryXmlDecoder": true,
}

// opens: library functions whose first argument names the file they open.
var opens = map[string]int{"os.Open": 0, "github.com/avast/apkparser.OpenZip": 0, "github.com/avast/apkparser.OpenZipReader": -1, "os.Stat": 0}

func pkgOfName(n string) string {
	n = strings.TrimPrefix(n, "invoke ")
	n = strings.TrimPrefix(n, "(")
	n = strings.TrimPrefix(n, "*")
	i := strings.LastIndex(n, "/")
	j := strings.IndexAny(n[i+1:], ".")
	if j < 0 {
		return n
	}
	return n[:i+1+j]
}

func harmlessCall(n string) bool {
	if harmful[n] {
		return false
	}
	if allowed[n] || strings.HasSuffix(n, ".init") || strings.HasPrefix(n, "invoke error.") {
		return true
	}
	pk := pkgOfName(n)
	for _, h := range harmless {
		if h == pk {
			return true
		}
	}
	switch {
	case strings.HasPrefix(n, "(crypto/x509.") && strings.HasSuffix(n, ").String"), strings.HasPrefix(n, "(crypto/x509.") && strings.HasSuffix(n, ").Error"):
		return true
	case strings.HasPrefix(n, "(*github.com/avast/apkparser.ZipReader"), strings.HasPrefix(n, "(*github.com/avast/apkparser.BinXml"), strings.HasPrefix(n, "(github.com/avast/apkparser."):
		return true
	case strings.HasPrefix(n, modPath+"/internal/asn1andr."):
		return true // analysed by itself
	case strings.HasPrefix(n, "invoke io."), strings.HasPrefix(n, "invoke hash."), strings.HasPrefix(n, "invoke crypto"), strings.HasPrefix(n, "invoke reflect.Type"), strings.HasPrefix(n, "invoke encoding/binary.ByteOrder"), strings.HasPrefix(n, "invoke sort."), strings.HasPrefix(n, "invoke fmt."):
		return true
	}
	return false
}

func checkC25(c *Check) {
	for i, p := range []*PTA{c.pta(), c.ptaAsn1()} {

		c.countPTA(p)
		var names []string
		for n := range p.ext {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			for in := range p.ext[n] {
				f := in.Parent()
				if strings.HasPrefix(n, "function value ") {
					c.req(false, "every call goes to a known function", c.site(f, in, n), "the called function is not known")
					continue
				}
				c.req(harmlessCall(n), "only library functions without effect outside the process are called", c.site(f, in, n), "%s may write, open, start or print something, or read the environment", n)
				if k, ok := opens[n]; ok {
					args := in.Common().Args
					for j, a := range args {
						if b, is := a.Type().Underlying().(*types.Basic); is && b.Kind() == types.String && (k < 0 || j == k) {
							c.req(c.givenPath(p, a, map[ssa.Value]bool{}), "a file is opened only under the path that the caller gave", c.site(f, in, n), "the name is not the path parameter of the exported function, handed down unchanged")
						}
					}
				}
			}
		}
		for _, x := range p.order {
			for _, b := range x.fn.Blocks {
				for _, in := range b.Instrs {
					if g, ok := in.(*ssa.Go); ok {
						c.req(false, "no goroutine is started", c.site(x.fn, g, "go"), "go statement")
					}
				}
			}
			c.req(true, "no goroutine is started", c.w.pos(x.fn)+" "+shortFn(x.fn), "")
		}
		for _, e := range p.sortedWrites() {
			o := e.loc.obj
			if o.kind != "glob" || !strings.HasPrefix(o.desc, "package variable os.") && !strings.HasPrefix(o.desc, "package variable log.") && !strings.HasPrefix(o.desc, "package variable syscall.") {
				continue
			}
			if i == 0 && c.conversionPanicUnreachable(p, e.fn) {
				c.req(true, "nothing is printed", c.site(e.fn, e.in, e.kind), "")
				continue
			}
			c.req(false, "nothing is printed", c.site(e.fn, e.in, e.kind), "%s to %s", e.kind, o.desc)
		}
	}
}

// givenPath: the string is a parameter of an exported function that reached here unchanged.
func (c *Check) givenPath(p *PTA, v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !c.givenPath(p, e, seen) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		// a captured variable that is assigned once
		if al, ok := v.X.(*ssa.Alloc); ok {
			return c.givenCell(p, al, seen)
		}
		if fv, ok := v.X.(*ssa.FreeVar); ok {
			return c.givenFree(p, fv, seen)
		}
		return false
	case *ssa.FreeVar:
		return c.givenFree(p, v, seen)
	case *ssa.Parameter:
		f := v.Parent()
		idx := -1
		for i, q := range f.Params {
			if q == v {
				idx = i
			}
		}
		for _, e := range c.w.entryFuncs() {
			if e == f {
				return true
			}
		}
		n := 0
		for ctx, m := range p.calls {
			if !m[f] {
				continue
			}
			for _, b := range ctx.fn.Blocks {
				for _, in := range b.Instrs {
					cl, ok := in.(ssa.CallInstruction)
					if !ok || cl.Common().StaticCallee() != f {
						continue
					}
					n++
					if idx >= len(cl.Common().Args) || !c.givenPath(p, cl.Common().Args[idx], seen) {
						return false
					}
				}
			}
		}
		return n > 0
	}
	return false
}

func (c *Check) givenCell(p *PTA, al *ssa.Alloc, seen map[ssa.Value]bool) bool {
	n := 0
	for _, r := range *al.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr != al || !c.givenPath(p, r.Val, seen) {
				return false
			}
			n++
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			// the closure must only read it
			g := r.Fn.(*ssa.Function)
			for i, b := range r.Bindings {
				if b == al {
					for _, u := range *g.FreeVars[i].Referrers() {
						if _, ok := u.(*ssa.UnOp); !ok {
							return false
						}
					}
				}
			}
		default:
			return false
		}
	}
	return n > 0
}

func (c *Check) givenFree(p *PTA, fv *ssa.FreeVar, seen map[ssa.Value]bool) bool {
	g := fv.Parent()
	n := 0
	for i, q := range g.FreeVars {
		if q != fv {
			continue
		}
		for _, b := range g.Parent().Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == g {
					n++
					switch x := mc.Bindings[i].(type) {
					case *ssa.Alloc:
						if !c.givenCell(p, x, seen) {
							return false
						}
					default:
						if !c.givenPath(p, x, seen) {
							return false
						}
					}
				}
			}
		}
	}
	return n > 0
}

// checkC31: nothing that belongs to the caller is written to. Reading through the streams and the
// archive that the caller hands in is what they are for.
func checkC31(c *Check) {
	for i, p := range []*PTA{c.pta(), c.ptaAsn1()} {

		c.countPTA(p)
		for _, e := range p.sortedWrites() {
			if e.init {
				continue
			}
			if e.loc.obj.kind != "caller" {
				c.req(true, "writes go to objects of the verification itself", c.site(e.fn, e.in, e.kind), "")
				continue
			}
			ok, why := c.mayWrite(p, e)
			c.req(ok, "writes go to objects of the verification itself", c.site(e.fn, e.in, e.kind), "%s to %s of the %s", e.kind, typeDesc(e.loc.typ), e.loc.obj.desc)
			if ok {
				c.req(true, "what the caller handed in is only used for "+why, c.site(e.fn, e.in, e.kind), "")
			}
		}
		if i == 1 {
			continue
		}
	}
}

func typeDesc(t types.Type) string {
	if t == nil {
		return "a part"
	}
	return types.TypeString(t, nil)
}

// mayWrite: the writes to objects of the caller that are part of the interface.
func (c *Check) mayWrite(p *PTA, e pwrite) (bool, string) {
	var q *ssa.Parameter
	for k, o := range p.objs {
		if o == e.loc.obj {
			q, _ = k.v.(*ssa.Parameter)
		}
	}
	if q == nil {
		return false, ""
	}
	f := q.Parent()
	if strings.HasPrefix(e.kind, "(*github.com/avast/apkparser.ZipReader") && strings.HasSuffix(e.kind, "#0") {
		switch m := e.kind[strings.LastIndex(e.kind, ".")+1 : len(e.kind)-2]; m {
		case "Open", "Close", "Next", "Read", "ReadAll", "ReadHead":
			return true, "opening and reading its entries (closing: see C23)"
		}
	}
	if e.loc.typ != nil && strings.HasSuffix(types.TypeString(e.loc.typ, nil), "apkparser.ZipReaderFile") && readsStream(e) {
		return true, "opening and reading its entries (closing: see C23)"
	}
	if it, ok := q.Type().Underlying().(*types.Interface); ok {
		if it.NumMethods() == 0 && e.kind != "store" {
			return true, "receiving the decoded value"
		}
		switch {
		case it.NumMethods() == 0:
			return isAsn1(e.fn), "receiving the decoded value"
		case hasMethod(it, "Read") && readsStream(e):
			return true, "reading and seeking"
		case hasMethod(it, "Write") && writesStream(e):
			return true, "writing the requested output"
		}
		return false, ""
	}
	if f.Signature.Recv() != nil && len(f.Params) > 0 && f.Params[0] == q && e.kind == "store" {
		if st, ok := e.in.(*ssa.Store); ok {
			if sameShape(deref(st.Addr.Type()), deref(q.Type())) {
				return true, "filling in the receiver"
			}
			if fa, ok := st.Addr.(*ssa.FieldAddr); ok && sameShape(fa.X.Type().Underlying().(*types.Pointer).Elem(), deref(q.Type())) {
				return true, "filling in the receiver"
			}
		}
	}
	return false, ""
}

func hasMethod(it *types.Interface, n string) bool {
	for i := 0; i < it.NumMethods(); i++ {
		if it.Method(i).Name() == n {
			return true
		}
	}
	return false
}

func argNo(kind string) (string, string) {
	i := strings.LastIndex(kind, "#")
	if i < 0 {
		return kind, ""
	}
	return kind[:i], kind[i+1:]
}

// readsStream: the written argument is the stream that is read from.
func readsStream(e pwrite) bool {
	n, a := argNo(e.kind)
	switch n {
	case "io.ReadFull", "io.ReadAtLeast", "encoding/binary.Read", "io.ReadAll", "io/ioutil.ReadAll":
		return a == "0"
	case "io.Copy", "io.CopyN", "io.CopyBuffer":
		return a == "1"
	}
	return strings.HasPrefix(n, "invoke io.Read") && a == "0" || strings.HasPrefix(n, "invoke io.Seek") && a == "0"
}

func writesStream(e pwrite) bool {
	n, a := argNo(e.kind)
	return a == "0" && (strings.HasPrefix(n, "fmt.Fprint") || n == "io.WriteString" || n == "io.Copy" || strings.HasPrefix(n, "invoke io.Writer."))
}

var _ = fmt.Sprint
