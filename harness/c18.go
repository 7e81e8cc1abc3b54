package harness

import (
	"crypto/rand"
	"crypto/x509"
	"math/big"
	"net/url"
	"strings"
	"sync"

	"pgregory.net/rapid"

	authorizerd "github.com/yahoojapan/athenz-authorizer/v5"
)

// C18: role certificates.

type c18Step struct {
	Certs []Cert `json:"certs"`
	Act   string `json:"act"`
	Res   string `json:"res"`
}

type c18Plan struct {
	Docs   []Doc     `json:"docs"`
	Prefix *string   `json:"prefix"` // nil: the default
	NoPol  bool      `json:"nopol,omitempty"`
	Steps  []c18Step `json:"steps"`
}

var (
	rcDomains = []string{"a", "ab", "a.b", "b", "dom", "do", "Dom", "A"}
	rcRoles   = []string{"c", "bc", "b.c", ".b.c", "mc", "c/d", "c:role.d", "m", "C"}
)

var uriCache sync.Map

// uriFits says whether a certificate can carry the URI and gives it back unchanged.
func uriFits(u string) (ok bool) {
	if v, has := uriCache.Load(u); has {
		return v.(bool)
	}
	defer func() { uriCache.Store(u, ok) }()
	p, err := url.Parse(u)
	if err != nil || p.String() != u {
		return false
	}
	tmpl := &x509.Certificate{SerialNumber: big.NewInt(1), URIs: []*url.URL{p}}
	raw, err := x509.CreateCertificate(rand.Reader, tmpl, tmpl, key("ec7").Priv.Public(), key("ec7").Priv)
	if err != nil {
		return false
	}
	crt, err := x509.ParseCertificate(raw)
	return err == nil && len(crt.URIs) == 1 && crt.URIs[0].String() == u
}

func refCertRoles(certs []Cert, prefix string) map[string][]string {
	out := map[string][]string{}
	for _, c := range certs {
		if d, r, ok := strings.Cut(c.CN, ":role."); ok {
			out[d] = append(out[d], r)
		}
		for _, u := range c.URIs {
			if rest, ok := strings.CutPrefix(u, prefix); ok {
				if d, r, ok := strings.Cut(rest, "/"); ok {
					out[d] = append(out[d], r)
				}
			}
		}
	}
	return out
}

func genC18(t *rapid.T) c18Plan {
	p := c18Plan{NoPol: oneIn(t, "nopol", 20)}
	prefix := "athenz://role/"
	if oneIn(t, "prefix", 3) {
		prefix = pick(t, "whichprefix", "spiffe://x/", "athenz://role/a", "athenz://", "https://h.test/p?r=", "")
		p.Prefix = &prefix
	}
	acts, ress := []string{"read", "write"}, []string{"x", "y"}
	for _, d := range shuffled(t, "doms", rcDomains)[:intIn(t, "ndom", 1, 4)] {
		var pol Pol
		for i, n := 0, intIn(t, "nasn", 1, 6); i < n; i++ {
			eff := "allow"
			if oneIn(t, "deny", 4) {
				eff = "deny"
			}
			pol = append(pol, Asn{d + ":role." + pick(t, "role", rcRoles...), pick(t, "act", "read", "write", "*"), d + ":" + pick(t, "res", "x", "y", "*"), eff})
		}
		p.Docs = append(p.Docs, Doc{Domain: d, Pols: []Pol{pol}})
	}
	dom := func() string {
		if oneIn(t, "anydom", 4) {
			return pick(t, "d", rcDomains...)
		}
		return pick(t, "doc", p.Docs...).Domain
	}
	role := func(d string) string {
		for _, x := range p.Docs {
			if x.Domain == d && !oneIn(t, "anyrole", 3) {
				a := pick(t, "asn", x.Pols[0]...)
				return strings.TrimPrefix(a.Role, d+":role.")
			}
		}
		return pick(t, "r", rcRoles...)
	}
	for i, n := 0, intIn(t, "nstep", 1, 4); i < n; i++ {
		s := c18Step{Act: pick(t, "act", acts...), Res: pick(t, "res", ress...)}
		for j, m := 0, pick(t, "ncert", 0, 1, 2, 3, 0, 1, 2, 3, 6, 12); j < m; j++ {
			c := Cert{IssuerCN: "ca", NotBefore: T0 - 3600}
			switch intIn(t, "cn", 0, 4) {
			case 0, 1:
				d := dom()
				c.CN = d + ":role." + role(d)
			case 2:
				d := dom()
				c.CN = pick(t, "badcn", "", d, d+".role."+role(d), d+":Role."+role(d), d+":role", d+":policy."+role(d), d+"/"+role(d))
			}
			for k, l := 0, intIn(t, "nuri", 0, 4); k < l; k++ {
				d := dom()
				pre := prefix
				if oneIn(t, "otherprefix", 5) {
					pre = pick(t, "pre", "athenz://rol/", "athenz://role", "xathenz://role/", "athenz://role/role/", "spiffe://y/", "athenz://Role/")
				}
				u := pre + d + "/" + role(d)
				if oneIn(t, "malformed", 8) {
					u = pre + pick(t, "mal", d, d+":role."+role(d), d+"."+role(d), d+"%2F"+role(d), "")
				}
				if !strings.Contains(u, "://") {
					u = "x://" + u
				}
				if oneIn(t, "bare", 12) {
					// a name without any prefix
					u = pick(t, "barename", d+"/"+role(d), "/"+d+"/"+role(d), d+":role."+role(d), "x:"+d+"/"+role(d), u+"/"+prefix+d+"/"+role(d), "//"+d+"/"+role(d))
				}
				if uriFits(u) {
					c.URIs = append(c.URIs, u)
				}
			}
			s.Certs = append(s.Certs, c)
		}
		p.Steps = append(p.Steps, s)
	}
	return p
}

func runC18(c *Case, p c18Plan) error {
	prefix := "athenz://role/"
	opts := []authorizerd.Option{authorizerd.WithDisableJwkd(), authorizerd.WithAccessTokenParam(authorizerd.NewAccessTokenParam(false, false, "", "", false, nil))}
	if p.Prefix != nil {
		prefix = *p.Prefix
		opts = append(opts, authorizerd.WithRoleCertURIPrefix(prefix))
	}
	if p.NoPol {
		opts = append(opts, authorizerd.WithDisablePolicyd())
	}
	w := newWorld(stdRing(), p.Docs, nil, opts...)
	defer w.stop()
	w.mustInit()
	half()
	for i, s := range p.Steps {
		var certs []*x509.Certificate
		for n, k := range s.Certs {
			x := k.build()
			certs = append(certs, x)
			for m, u := range x.URIs {
				if u.String() != k.URIs[m] {
					harnessf("URI %q became %q in certificate %d", k.URIs[m], u, n)
				}
			}
		}
		dr := refCertRoles(s.Certs, prefix)
		want, defined := p.NoPol, true
		granting := 0
		for d, rs := range dr {
			v, ok := decide(p.Docs, d, rs, s.Act, s.Res)
			defined = defined && ok
			if v.Allowed {
				want = true
				granting++
			}
		}
		if !defined {
			continue
		}
		for n := 0; n < 5; n++ {
			if err := w.az.VerifyRoleCert(w.ctx, certs, s.Act, s.Res); (err == nil) != want {
				return failf("step %d: certificates %+v naming %v, action %q resource %q: want granted %v, got %v", i, s.Certs, dr, s.Act, s.Res, want, err)
			}
		}
		switch {
		case p.NoPol:
			c.Label("policies disabled")
		case len(dr) == 0:
			c.Label("no role named")
		case want:
			c.Label("granted")
			c.NonTrivial()
			if granting < len(dr) {
				c.Label("one domain grants, another does not")
			}
		default:
			c.Label("refused")
		}
		if len(dr) > 1 {
			c.Label("several domains")
		}
	}
	return nil
}

func init() {
	register(Sub{Prop: "C18", Name: "rolecert", Quick: 14000, Thorough: 350000,
		Rule: "certificates naming roles by common name and by URI under default and custom prefixes, domains and roles whose concatenations collide, malformed names, several certificates; compared with the policy reference over the named roles; non-trivial: granted"},
		genC18, runC18)
}
