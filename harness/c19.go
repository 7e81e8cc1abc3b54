package harness

import (
	"crypto/x509"
	"errors"
	"net/http"
	"reflect"
	"time"

	"pgregory.net/rapid"

	authorizerd "github.com/yahoojapan/athenz-authorizer/v5"
)

// C19: a request is authorized by any one valid enabled credential.

// anyCred is a role token or an access token together with what is wrong with it.
type anyCred struct {
	Kind   string   `json:"kind"` // role, access
	Domain string   `json:"d"`
	Name   string   `json:"n"`
	Roles  []string `json:"r"`
	Fault  string   `json:"fault,omitempty"` // expired, forged, key, altered, unbound
	N      int64    `json:"x"`               // makes tokens distinct
}

var credFaults = []string{"expired", "forged", "unknownkey", "altered", "empty"}

// build makes the token; bind is the certificate an access token is bound to.
func (a anyCred) build(bind *Cert) string {
	exp := T0 + 100000 + a.N
	if a.Fault == "expired" {
		exp = T0 - 10 - a.N
	}
	var tok string
	if a.Kind == "role" {
		rt := RT{Domain: a.Domain, Principal: a.Name, KeyID: "t0", Roles: a.Roles, Issued: T0 - 1000, Expiry: exp}
		k := "ec1"
		switch a.Fault {
		case "forged":
			k = "ec3"
		case "unknownkey":
			rt.KeyID = "m0"
			k = "ec0"
		}
		tok = roleToken(rt.unsigned(), k)
		if a.Fault == "altered" {
			rt.Principal += "x"
			tok = rt.unsigned() + tok[len(tok)-len(";s=")-90:]
		}
	} else {
		at := plainAT(a.Domain, a.Name, "client.a", a.Roles, exp)
		at.Bind = bind
		switch a.Fault {
		case "forged":
			at.Key = "ec3"
		case "unknownkey":
			at.Header["kid"] = "zz"
		case "altered":
			at.Mut = []AMut{{Kind: "clm", S: "sub", V: a.Name + "x"}}
		}
		tok, _ = at.build()
	}
	if a.Fault == "empty" {
		tok = ""
	}
	return tok
}

func (a anyCred) view() prinView {
	v := prinView{Name: a.Name, Domain: a.Domain, Roles: a.Roles, Exp: T0 + 100000 + a.N}
	if a.Kind == "role" {
		v.Issue = T0 - 1000
	} else {
		v.Issue, v.OAuth, v.Client = T0-100, true, "client.a"
	}
	return v
}

// want is the principal the credential yields for the request, if it is authorized.
func (a anyCred) want(docs []Doc, noPolicy bool, act, res string) (prinView, bool) {
	if a.Fault != "" {
		return prinView{}, false
	}
	v := a.view()
	if noPolicy {
		return v, true
	}
	d, _ := decide(docs, a.Domain, a.Roles, act, res)
	v.Auth = sortedKeys(d.Roles)
	return v, d.Allowed
}

func sameView(a, b prinView) bool {
	a.Auth, b.Auth = uniqSorted(a.Auth), uniqSorted(b.Auth)
	if len(a.Roles) == 0 && len(b.Roles) == 0 {
		a.Roles, b.Roles = nil, nil
	}
	return reflect.DeepEqual(a, b)
}

type c19Req struct {
	AT     *anyCred `json:"at,omitempty"`
	RT     *anyCred `json:"rt,omitempty"`
	RT2    *anyCred `json:"rt2,omitempty"` // a further value of the role token's header
	Scheme string   `json:"scheme"`        // how the access token is presented
	Header string   `json:"header"`        // where the role token is put
	Swap   bool     `json:"swap,omitempty"`
	Certs  []int    `json:"certs,omitempty"` // peer certificates, leaf first
	TLS    bool     `json:"tls,omitempty"`
	Act    string   `json:"act"`
	Res    string   `json:"res"`
}

type c19Plan struct {
	Docs     []Doc    `json:"docs"`
	Access   bool     `json:"access"`
	Role     bool     `json:"role"`
	RoleCert bool     `json:"rolecert"`
	NoPolicy bool     `json:"nopol,omitempty"`
	Bind     bool     `json:"bind"`
	Header   string   `json:"header"`
	Reqs     []c19Req `json:"reqs"`
}

var c19Certs = []Cert{{CN: "client.a", IssuerCN: "ca", NotBefore: T0 - 36000}, {CN: "client.b", IssuerCN: "ca", NotBefore: T0 - 36000}, {CN: "client.a", IssuerCN: "ca", NotBefore: T0 - 36000, Serial: 7}}

func genSmallPolicies(t *rapid.T, doms ...string) []Doc {
	var docs []Doc
	for i, d := range doms {
		var pol Pol
		for j, n := 0, intIn(t, "nasn", 1, 7); j < n; j++ {
			eff := "allow"
			if oneIn(t, "deny", 5) {
				eff = "deny"
			}
			pol = append(pol, Asn{d + ":role." + pick(t, "role", "r0", "r1", "r2"), pick(t, "act", "read", "write", "*", "r*"), d + ":" + pick(t, "res", "x", "y", "*", "/p/?"), eff})
		}
		docs = append(docs, Doc{Domain: d, Tag: i, Pols: []Pol{pol}})
	}
	return docs
}

func genAnyCred(t *rapid.T, kind string, faulty int) *anyCred {
	a := &anyCred{Kind: kind, Domain: pick(t, "d", "dom", "dom", "dom2", "none"), Name: pick(t, "n", "user.a", "user.b", "svc.c"), Roles: shuffled(t, "roles", []string{"r0", "r1", "r2"})[:intIn(t, "nr", 1, 3)], N: int64(intIn(t, "x", 0, 5))}
	if oneIn(t, "faulty", faulty) {
		a.Fault = pick(t, "fault", credFaults...)
	}
	return a
}

func genC19(t *rapid.T) c19Plan {
	p := c19Plan{Docs: genSmallPolicies(t, "dom", "dom2"), Access: !oneIn(t, "noaccess", 4), Role: !oneIn(t, "norole", 4), RoleCert: oneIn(t, "rolecert", 2), NoPolicy: oneIn(t, "nopol", 8), Bind: oneIn(t, "bind", 2),
		Header: pick(t, "header", "Athenz-Role-Auth", "Athenz-Role-Auth", "X-Role", "x-role-auth", "Authorization-Role")}
	if !p.Access && !p.Role {
		p.RoleCert = true
	}
	for i, n := 0, intIn(t, "nreq", 1, 6); i < n; i++ {
		q := c19Req{Act: pick(t, "act", "read", "write"), Res: pick(t, "res", "x", "y", "/p/1"), Header: p.Header, Scheme: pick(t, "scheme", "Bearer ", "Bearer ", "Bearer ", "bearer ", "Basic ", "Bearer")}
		if !oneIn(t, "noat", 5) {
			q.AT = genAnyCred(t, "access", 2)
		}
		if !oneIn(t, "nort", 5) {
			q.RT = genAnyCred(t, "role", 2)
			if oneIn(t, "rt2", 6) {
				q.RT2 = genAnyCred(t, "role", 3)
			}
		}
		if oneIn(t, "otherheader", 8) {
			q.Header = pick(t, "oh", "Athenz-Role-Auth", "X-Role", "X-Role-Auth", "Athenz-Principal-Auth", "Yahoo-Role-Auth")
		}
		q.Swap = oneIn(t, "swap", 12)
		q.TLS = p.Bind && !oneIn(t, "notls", 6) || oneIn(t, "tls", 3)
		if q.TLS {
			q.Certs = pick(t, "certs", []int{0}, []int{0}, []int{0}, []int{0, 1}, []int{1, 0}, []int{1}, []int{2}, []int{2, 0}, nil)
		}
		p.Reqs = append(p.Reqs, q)
	}
	return p
}

func runC19(c *Case, p c19Plan) error {
	opts := []authorizerd.Option{
		authorizerd.WithAccessTokenParam(authorizerd.NewAccessTokenParam(p.Access, p.Bind, "0s", "0s", false, nil)),
		authorizerd.WithRoleAuthHeader(p.Header), authorizerd.WithCacheExp(time.Hour)}
	if !p.Role {
		opts = append(opts, authorizerd.WithDisableRoleToken())
	}
	if !p.RoleCert {
		opts = append(opts, authorizerd.WithDisableRoleCert())
	}
	if p.NoPolicy {
		opts = append(opts, authorizerd.WithDisablePolicyd())
	}
	w := newWorld(stdRing(), p.Docs, stdJwks(), opts...)
	defer w.stop()
	w.mustInit()
	half()
	for i, q := range p.Reqs {
		h := http.Header{}
		var at, rt string
		if q.AT != nil {
			var bind *Cert
			if p.Bind {
				bind = &c19Certs[0]
			}
			at = q.AT.build(bind)
		}
		if q.RT != nil {
			rt = q.RT.build(nil)
		}
		if q.Swap {
			at, rt = rt, at
		}
		if q.AT != nil || q.Swap && q.RT != nil {
			h.Set("Authorization", q.Scheme+at)
		}
		if q.RT != nil || q.Swap && q.AT != nil {
			h.Set(q.Header, rt)
			if q.RT2 != nil && !q.Swap {
				h.Add(q.Header, q.RT2.build(nil)) // only the first value counts
			}
		}
		var certs []*x509.Certificate
		for _, n := range q.Certs {
			certs = append(certs, c19Certs[n].build())
		}
		var wants []prinView
		open := false
		if p.Access && q.AT != nil && !q.Swap {
			ok := !p.Bind || len(q.Certs) > 0 && q.Certs[0] == 0
			if v, auth := q.AT.want(p.Docs, p.NoPolicy, q.Act, q.Res); auth && ok {
				switch q.Scheme {
				case "Bearer ", "bearer ":
					wants = append(wants, v)
				case "Bearer":
					open = true
				}
			}
		}
		if p.Role && q.RT != nil && !q.Swap && http.CanonicalHeaderKey(q.Header) == http.CanonicalHeaderKey(p.Header) {
			if v, auth := q.RT.want(p.Docs, p.NoPolicy, q.Act, q.Res); auth {
				wants = append(wants, v)
			}
		}
		pr, err := w.az.Authorize(httpReq(w.ctx, "/p?z=1", h, certs, q.TLS), q.Act, q.Res)
		verr := w.az.Verify(httpReq(w.ctx, "/p?z=1", h, certs, q.TLS), q.Act, q.Res)
		where := func(f string, a ...any) error {
			return failf("request %d %s (access enabled %v, role enabled %v, header %q): %v", i, jsonText(q), p.Access, p.Role, p.Header, failf(f, a...))
		}
		if (err == nil) != (verr == nil) {
			return where("Authorize says %v, Verify says %v", err, verr)
		}
		if open {
			c.Label("unspecified scheme")
			continue
		}
		if len(wants) == 0 {
			if err == nil {
				return where("no credential is authorized, got %v", viewOf(pr))
			}
			if !errors.Is(err, authorizerd.ErrInvalidCredentials) || !errors.Is(verr, authorizerd.ErrInvalidCredentials) {
				return where("error %v / %v instead of the invalid-credentials error", err, verr)
			}
			if pr != nil {
				return where("principal returned with an error")
			}
			c.Label("refused")
			continue
		}
		c.Label("granted")
		if q.AT != nil && q.RT != nil && len(wants) == 1 {
			c.Label("one of two credentials is authorized")
			c.NonTrivial()
		}
		if err != nil {
			return where("a credential is authorized (%v), got %v", wants[0], err)
		}
		hit := false
		for _, v := range wants {
			hit = hit || sameView(v, viewOf(pr))
		}
		if !hit {
			return where("principal %v belongs to no authorized credential: %v", viewOf(pr), wants)
		}
	}
	return nil
}

func init() {
	register(Sub{Prop: "C19", Name: "request", Quick: 22000, Thorough: 550000,
		Rule: "requests carrying an access token, a role token, both or neither, each valid or faulty, in their own or another place, with client certificate chains, under all combinations of enabled types; non-trivial: exactly one of two presented credentials is authorized"},
		genC19, runC19)
}
