package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks = append(checks, checkDef{"C27", checkC27, 15}) }

const (
	fnCertInfo = "apkverifier.NewCertInfo"
	fnFill     = "apkverifier.(*CertInfo).Fill"
	fnPickBest = "apkverifier.PickBestApkCert"
	fnNameStr  = "signingblock.PkixNameToString"
	tCert      = "crypto/x509.Certificate."
	tCertInfo  = "apkverifier.CertInfo."
	tName      = "crypto/x509/pkix.Name."
)

// hexOf: v is the hexadecimal form of the digest of data.
func hexOf(v *Term, alg string, data *Term) bool {
	sum := mk("hashsum", alg, data)
	if v.Op == "res" && v.Args[0].Op == "call" {
		k := v.Args[0]
		switch {
		case k.Sym == "encoding/hex.EncodeToString":
			return k.Args[0] == sum
		case strings.HasPrefix(k.Sym, "fmt.Sprintf"):
			if l := k.Args[1]; (k.Args[0] == mkStr("%x") || k.Args[0] == mkStr("%02x")) && l.Op == "list" && len(l.Args) == 1 && l.Args[0].Op == "iface" {
				return l.Args[0].Args[0] == sum
			}
		}
	}
	return false
}

// describes says in what the description differs from the certificate.
func (c *Check) describes(a *An, st *State, info, cert *Term) string {
	f := func(n string) *Term { return a.cell(st, fieldOf(info, tCertInfo+n)) }
	of := func(n string) *Term { return at(fieldOf(cert, tCert+n)) }
	for _, d := range []struct{ f, alg string }{{"Md5", "md5"}, {"Sha1", "sha1"}, {"Sha256", "sha256"}} {
		if v := f(d.f); !hexOf(v, d.alg, of("Raw")) {
			return d.f + " is " + short(v)
		}
	}
	for _, d := range []struct{ f, from string }{{"ValidFrom", "NotBefore"}, {"ValidTo", "NotAfter"}, {"SerialNumber", "SerialNumber"}} {
		v := f(d.f)
		if v.Op == "res" && strings.HasPrefix(v.Args[0].Sym, "(*math/big.Int).Set@") {
			v = v.Args[0].Args[1] // a copy
		}
		if !same(st, v, of(d.from)) {
			return d.f + " is " + short(v)
		}
	}
	for _, n := range []string{"Issuer", "Subject"} {
		v := f(n)
		ok := false
		for _, d := range dids(st, fnNameStr) {
			if p := arg(d, 0); v == res0(callOf(d)) && (p == fieldOf(cert, tCert+n) || p == refOf(of(n))) {
				ok = true
			}
		}
		if !ok {
			return n + " is " + short(v)
		}
	}
	v := f("SignatureAlgorithm")
	if !(v.Op == "res" && v.Args[0].Op == "call" && v.Args[0].Sym == "(crypto/x509.SignatureAlgorithm).String" && v.Args[0].Args[0] == of("SignatureAlgorithm")) {
		return "SignatureAlgorithm is " + short(v)
	}
	return ""
}

func (c *Check) fillRule() {
	a := c.an(fnFill, fnNameStr)
	n := 0
	for _, r := range a.rets {
		if r.st.bot {
			continue
		}
		n++
		why := c.describes(a, r.st, a.ps[0], a.ps[1])
		c.req(why == "", "a certificate description has the values of the certificate", a.where(), "%s", why)
	}
	c.req(n > 0, "a certificate can be described", a.where(), "no path")
	a = c.an(fnCertInfo, fnNameStr)
	for _, r := range a.rets {
		if r.st.bot {
			continue
		}
		why := c.describes(a, r.st, r.vals[0], a.ps[0])
		c.req(why == "", "a new description describes the given certificate", a.where(), "%s", why)
	}
}

// fromChains: the value is a chain of the list of chains, picked in any way.
func (a *An) fromChains(v, chains *Term, seen map[*Term]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch v.Op {
	case "at":
		if v.Args[0].Op == "ia" {
			return a.chainList(v.Args[0].Args[0], chains, seen)
		}
	case "phi":
		return a.allOf(v, func(t *Term) bool { return t == tNil || a.fromChains(t, chains, seen) })
	}
	return false
}

// chainList: every element of the list is a chain of the list of chains.
func (a *An) chainList(v, chains *Term, seen map[*Term]bool) bool {
	if v == chains || v == tNil || v == content(chains) {
		return true
	}
	if seen[v] && v.Op == "phi" {
		return true
	}
	switch v.Op {
	case "list":
		for _, e := range v.Args {
			if !a.fromChains(e, chains, seen) {
				return false
			}
		}
		return true
	case "app":
		return a.chainList(v.Args[0], chains, seen) && a.chainList(v.Args[1], chains, seen)
	case "sorted", "take", "drop":
		return a.chainList(v.Args[0], chains, seen)
	case "phi":
		seen[v] = true
		return a.allOf(v, func(t *Term) bool { return a.chainList(t, chains, seen) })
	}
	return false
}

// allOf: the property holds for everything a loop variable can become.
func (a *An) allOf(phi *Term, ok func(*Term) bool) bool {
	found := false
	for _, l := range a.sortedLoops() {
		for _, k := range l.Cells {
			if k.Phi != phi {
				continue
			}
			found = true
			if !ok(k.Init) {
				return false
			}
			for i := range l.Backs {
				if s := l.Steps[i][phi]; s != phi && !ok(s) {
					return false
				}
			}
		}
	}
	return found
}

func (c *Check) bestRule() {
	a := c.anOpt(fnPickBest, func(x *Exec, f *ssa.Function, ps []*Term, st *State) {
		x.wantEvent["sort"], x.wantEvent["store"] = true, true
	}, fnCertInfo, fnNameStr)
	wh := a.where()
	chains := a.ps[0]
	some, none := 0, 0
	for _, e := range a.x.log {
		if (e.Kind == "sort" || e.Kind == "store") && len(e.Args) > 0 {
			t := e.Args[0]
			for t.Op == "conv" || t.Op == "iface" || t.Op == "take" || t.Op == "drop" || t.Op == "ia" {
				t = t.Args[0]
			}
			c.req(t != chains, "the order of the caller's chains does not change", c.site(e.Fn, e.Instr, e.Kind), "%s is changed", short(e.Args[0]))
		}
	}
	for _, r := range a.rets {
		st := r.st
		if st.bot {
			continue
		}
		info, cert := r.vals[0], r.vals[1]
		if cert == tNil || st.holds(mkEq(cert, tNil)) {
			none++
			c.req(info == tNil, "without a certificate nothing is described", wh, "describes %s", short(info))
			empty := st.holds(mkEq(mkLen(chains), mkInt(0))) || st.holds(mkEq(chains, tNil))
			for _, it := range a.listIters(st, chains, nil) {
				for _, k := range it.l.Cells {
					// what was kept of the chains is empty
					if k.Init != tNil && mkLen(k.Init) != mkInt(0) || !(st.holds(mkEq(mkLen(k.Phi), mkInt(0))) || st.holds(mkEq(k.Phi, tNil))) {
						continue
					}
					ok := true
					for _, b := range it.backs {
						s := b.step(k.Phi)
						skip := b.st.holds(mkEq(mkLen(it.elem), mkInt(0))) || b.st.holds(mkEq(it.elem, tNil))
						keep := s == app(k.Phi, listOf(it.elem)) || s == it.elem || b.st.holds(nonNilT(s)) && s.contains(it.elem)
						ok = ok && (skip || keep)
					}
					empty = empty || ok
				}
				// every chain is empty
				all := true
				for _, b := range it.backs {
					all = all && b.st.holds(mkEq(mkLen(it.elem), mkInt(0)))
				}
				empty = empty || all
			}
			c.req(empty, "a certificate is picked whenever there is one", wh, "none is picked although a chain may have certificates")
			continue
		}
		some++
		ok := cert.Op == "at" && cert.Args[0].Op == "ia" && cert.Args[0].Args[1] == mkInt(0) && a.fromChains(cert.Args[0].Args[0], chains, map[*Term]bool{})
		c.req(ok, "the first certificate of one of the chains is picked", wh, "picks %s", short(cert))
		why := "describes another certificate: " + short(info)
		for _, d := range dids(st, fnCertInfo) {
			if arg(d, 0) == cert && info == res0(callOf(d)) {
				why = ""
			}
		}
		if why != "" && info.Op == "obj" {
			why = c.describes(a, st, info, cert)
		}
		c.req(why == "", "the certificate that was picked is described", wh, "%s", why)
	}
	c.req(some > 0 && none > 0, "certificates can be picked", wh, "no such path")
}

// nameRule: the text form of a name shows every part under its own label.
func (c *Check) nameRule() {
	a := c.an(fnNameStr)
	wh := a.where()
	n := a.ps[0]
	labels := []struct{ f, label string }{{"Country", "C="}, {"Province", "ST="}, {"Locality", "L="}, {"Organization", "O="}, {"OrganizationalUnit", "OU="}, {"CommonName", "CN="}}
	fieldsIn := func(ts []*Term) (out []string, consts []string) {
		seen := map[string]bool{}
		for _, t := range ts {
			t.walk(func(s *Term) bool {
				if s.Op == "at" && len(s.Args) > 0 && s.Args[0].Op == "fa" && strings.HasPrefix(s.Args[0].Sym, tName) && s.Args[0].Args[0] == n {
					f := strings.TrimPrefix(s.Args[0].Sym, tName)
					if !seen[f] {
						seen[f] = true
						out = append(out, f)
					}
				}
				if s.Op == "s" {
					consts = append(consts, s.Sym)
				}
				return true
			})
		}
		return
	}
	shows := func(ts []*Term, f, label string) bool {
		fs, cs := fieldsIn(ts)
		if len(fs) != 1 || fs[0] != f {
			return false
		}
		for _, s := range cs {
			if t := strings.TrimLeft(s, " ,"); strings.HasPrefix(t, label) || t+"=" == label {
				return true
			}
		}
		return false
	}
	for _, r := range a.rets {
		st := r.st
		if st.bot {
			continue
		}
		for _, l := range labels {
			v := at(fieldOf(n, tName+l.f))
			if st.holds(mkEq(mkLen(v), mkInt(0))) || st.holds(mkEq(v, tNil)) || st.holds(mkEq(v, mkStr(""))) {
				continue
			}
			ok := false
			for _, f := range st.sortedFacts() {
				if f.Op != "did" || ok {
					continue
				}
				var own []*Term
				for _, x := range f.Args[1:] {
					if !containsOp(x, "bufref") {
						own = append(own, x)
					}
				}
				ok = shows(own, l.f, l.label)
			}
			r.vals[0].walk(func(s *Term) bool {
				for i := 0; (s.Op == "cat" || s.Op == "app") && i+1 < len(s.Args); i++ {
					if p := s.Args[i]; p.Op == "s" && endsIn(p.Sym, l.label) {
						fs, _ := fieldsIn(s.Args[i+1 : i+2])
						ok = ok || len(fs) == 1 && fs[0] == l.f
					}
				}
				ok = ok || s.Op != "at" && shows([]*Term{s}, l.f, l.label)
				return !ok
			})
			c.req(ok, "the text of a name shows "+l.f, wh, "a path omits it or shows it under another label")
		}
	}
	c.req(len(a.rets) > 0, "names can be shown", wh, "no path")
}

func checkC27(c *Check) {
	c.fillRule()
	c.bestRule()
	c.nameRule()
}

func containsOp(t *Term, op string) bool {
	found := false
	t.walk(func(s *Term) bool {
		found = found || s.Op == op
		return !found
	})
	return found
}

// endsIn: the text ends in the label, which is not just the end of another one.
func endsIn(s, label string) bool {
	if !strings.HasSuffix(s, label) {
		return false
	}
	s = strings.TrimSuffix(s, label)
	return s == "" || s[len(s)-1] == ' ' || s[len(s)-1] == ','
}
