package harness

import (
	"context"
	"crypto/x509"
	"net/http"
	"reflect"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"

	authorizerd "github.com/yahoojapan/athenz-authorizer/v5"
)

// C14: cached results are reused for the identical request only.

// MRule is one mapping rule.
type MRule struct {
	Method   string `json:"m"`
	Path     string `json:"p"`
	Action   string `json:"a"`
	Resource string `json:"r"`
}

func mapping(rules map[string][]MRule) (*authorizerd.MappingRules, error) {
	if rules == nil {
		return authorizerd.NewMappingRules(nil)
	}
	m := map[string][]authorizerd.Rule{}
	for d, rs := range rules {
		var l []authorizerd.Rule
		if rs != nil {
			l = []authorizerd.Rule{}
		}
		for _, r := range rs {
			l = append(l, authorizerd.Rule{Method: r.Method, Path: r.Path, Action: r.Action, Resource: r.Resource})
		}
		m[d] = l
	}
	return authorizerd.NewMappingRules(m)
}

// plainAT is an ordinary access token signed by j1.
func plainAT(aud, sub, client string, scp []string, exp int64) *ATok {
	l := []any{}
	for _, s := range scp {
		l = append(l, s)
	}
	return &ATok{Header: map[string]any{"alg": "ES256", "kid": "j1", "typ": "at+jwt"},
		Claims: map[string]any{"iss": ztsBase, "aud": aud, "sub": sub, "client_id": client, "scp": l, "iat": T0 - 100, "exp": exp},
		Alg:    "ES256", Key: "ec1"}
}

// Cred is a token of either type.
type Cred struct {
	RT *RT   `json:"rt,omitempty"`
	AT *ATok `json:"at,omitempty"`
}

func (k Cred) build() string {
	switch {
	case k.RT != nil:
		id := k.RT.KeyID
		ring := stdRing().ZTS
		ring["t2"] = "ec2"
		return roleToken(k.RT.unsigned(), ring[id])
	case k.AT != nil:
		tok, _ := k.AT.build()
		return tok
	}
	return ""
}

// azCall is one authorization call.
type azCall struct {
	Via   string `json:"via"` // role, access, http
	Tok   int    `json:"tok"`
	Tail  string `json:"tail,omitempty"`  // appended to the token
	Twist int    `json:"twist,omitempty"` // the character that many before the end is another one
	Cert  *Cert  `json:"cert,omitempty"`
	Act   string `json:"act"`
	Res   string `json:"res"`
	Query string `json:"q,omitempty"`
}

type azOut struct {
	P   prinView
	Err bool
}

func (k azCall) do(ctx context.Context, az authorizerd.Authorizerd, toks []string, creds []Cred) azOut {
	p, err := k.call(ctx, az, toks, creds)
	if err != nil {
		if p != nil && !reflect.ValueOf(p).IsNil() {
			panic(&Violation{"a principal is returned together with the error " + err.Error()})
		}
		return azOut{Err: true}
	}
	return azOut{P: viewOf(p)}
}

func (k azCall) call(ctx context.Context, az authorizerd.Authorizerd, toks []string, creds []Cred) (authorizerd.Principal, error) {
	tok := ""
	if k.Tok >= 0 {
		tok = toks[k.Tok]
		if n := len(tok) - k.Twist; k.Twist > 0 && n >= 0 {
			b := byte('A')
			if tok[n] == b {
				b = 'Q'
			}
			tok = tok[:n] + string(b) + tok[n+1:]
		}
		tok += k.Tail
	}
	var crt *x509.Certificate
	if k.Cert != nil {
		crt = k.Cert.build()
	}
	switch k.Via {
	case "role":
		return az.AuthorizeRoleToken(ctx, tok, k.Act, k.Res)
	case "access":
		return az.AuthorizeAccessToken(ctx, tok, k.Act, k.Res, crt)
	case "http":
		h := http.Header{}
		if k.Tok >= 0 && creds[k.Tok].AT != nil {
			h.Set("Authorization", "Bearer "+tok)
		} else if k.Tok >= 0 {
			h.Set("Athenz-Role-Auth", tok)
		}
		r := httpReq(ctx, "/", h, nil, false)
		r.URL.RawQuery = k.Query
		if crt != nil {
			r = httpReq(ctx, "/", h, []*x509.Certificate{crt}, true)
			r.URL.RawQuery = k.Query
		}
		return az.Authorize(r, k.Act, k.Res)
	}
	harnessf("via %q", k.Via)
	return nil, nil
}

type c14Plan struct {
	Doc      Doc                `json:"doc"`
	Cfg      atCfg              `json:"cfg"`
	NoPolicy bool               `json:"nopol,omitempty"`
	Rules    map[string][]MRule `json:"rules,omitempty"`
	Prefix   string             `json:"prefix,omitempty"`
	Creds    []Cred             `json:"creds"`
	Calls    []azCall           `json:"calls"`
	Par      bool               `json:"par,omitempty"`
}

var (
	actPool   = []string{"read", "write", "get", "a", "b", "a:b", "Read", "a,b", "a\\", "\\", "a::b", "a\\b"}
	resPool   = []string{"/x", "x", "y", "/x/y", "x:y", "b:x", "/y", "X", ":x", "a:b:x", "x\\:y"}
	queryPool = []string{"", "k=1", "k=2", "k=1&z=2", "k=a%3Ab", "y", "k=1:y", "z=2&k=1", "x:y"}
	joiners   = []string{":", "", ",", "|", "/", ";", "\x00", "-", "_", " ", ".", "\\:", "::", "\n", "+", "&", "?"}
)

func genC14(t *rapid.T) c14Plan {
	p := c14Plan{Doc: Doc{Domain: "dom"}}
	p.Cfg = atCfg{Bind: oneIn(t, "bind", 2), Backdate: "1h", Offset: "1h"}
	if oneIn(t, "cid", 4) {
		p.Cfg.ClientID = true
		p.Cfg.Listed = map[string][]string{"client.a": {"client.a"}, "client.b": {"client.a", "client.b"}}
	}
	p.NoPolicy = oneIn(t, "nopol", 6)
	base := T0 + int64(100000)
	cert := func() *Cert {
		return &Cert{CN: pick(t, "cn", "client.a", "client.b", "a", "a:b"), IssuerCN: pick(t, "icn", "ca", "ca2", "b:a"), NotBefore: T0 - 3600, Serial: int64(intIn(t, "sn", 0, 2)),
			URIs: shuffled(t, "uri", spiffePool)[:intIn(t, "nuri", 0, 1)]}
	}
	certs := []*Cert{cert(), cert()}
	roles := []string{"r0", "r1", "r2"}
	p.Creds = append(p.Creds, Cred{RT: &RT{Domain: "dom", Principal: "user.a", KeyID: "t0", Roles: []string{"r0"}, Issued: T0 - 50, Expiry: base}},
		Cred{RT: &RT{Domain: "dom", Principal: "user.b", KeyID: pick(t, "kid", "t0", "t1"), Roles: shuffled(t, "rr", roles)[:2], Issued: T0 - 50, Expiry: base + 1}},
		Cred{AT: plainAT("dom", "user.c", pick(t, "client", "client.a", "client.b"), []string{"r0"}, base+2)},
		Cred{AT: plainAT("dom", "user.d", "client.a", shuffled(t, "ar", roles)[:2], base+3)})
	if oneIn(t, "bound", 2) {
		p.Creds[2].AT.Bind = certs[0]
	}
	if oneIn(t, "bound2", 2) {
		p.Creds[3].AT.Bind = certs[1]
	} else if p.Cfg.Bind && len(certs[0].URIs) > 0 {
		p.Creds[3].AT.Claims["cnf"] = map[string]any{"proxy-principals#spiffe": []any{certs[0].URIs[0]}}
	}
	if oneIn(t, "longtok", 3) { // long tokens, the same over a long front
		pad := strings.Repeat(pick(t, "padunit", "x", "ab.", "z-"), pick(t, "padtimes", 30, 100, 300, 1200))
		p.Creds[0].RT.Principal, p.Creds[1].RT.Principal = pad, pad
		for _, i := range []int{2, 3} {
			if oneIn(t, "padhead", 4) {
				p.Creds[i].AT.Header["aa"] = pad
			} else {
				p.Creds[i].AT.Claims["aa"] = pad
			}
		}
		if oneIn(t, "twins", 2) {
			a := *p.Creds[2].AT
			a.Claims = map[string]any{}
			for k, v := range p.Creds[2].AT.Claims {
				a.Claims[k] = v
			}
			a.Claims["scp"] = []any{pick(t, "twinrole", roles...)}
			r := *p.Creds[0].RT
			r.Roles = []string{pick(t, "twinrole2", roles...)}
			p.Creds[3].AT, p.Creds[1].RT = &a, &r
		}
	}
	if !p.NoPolicy && oneIn(t, "rules", 2) {
		m := []MRule{}
		for i, n := 0, intIn(t, "nrules", 1, 3); i < n; i++ {
			m = append(m, MRule{pick(t, "m", actPool...), pick(t, "path", "/x?k={v}", "/x", "/{q}?k=1", "/x?k=1&z={v}", "/{q}/y", "/x?k={v}&z=2"), pick(t, "ta", actPool...), pick(t, "tr", "x", "y", "{v}", "{q}:{v}", "/x")})
		}
		p.Rules = map[string][]MRule{"dom": m}
	}
	long, longFront := "", false
	if oneIn(t, "long", 6) {
		long, longFront = strings.Repeat(pick(t, "longunit", "/seg", "a", ":", "b/"), pick(t, "longtimes", 8, 20, 60, 300)), oneIn(t, "longfront", 2)
	}
	gencall := func() azCall {
		k := azCall{Via: pick(t, "via", "role", "access", "http", "http", "access"), Act: pick(t, "act", actPool...), Res: pick(t, "res", resPool...)}
		if longFront {
			k.Res = long + k.Res
		} else {
			k.Res += long
		}
		k.Tok = intIn(t, "tok", 0, 3)
		if !oneIn(t, "confuse", 10) {
			if k.Via == "role" {
				k.Tok %= 2
			} else if k.Via == "access" {
				k.Tok = 2 + k.Tok%2
			}
		}
		if k.Via != "role" && !oneIn(t, "nocert", 4) {
			k.Cert = certs[intIn(t, "which", 0, 1)]
			if at := p.Creds[k.Tok].AT; at != nil && at.Bind != nil && p.Cfg.Bind && !oneIn(t, "unbound", 5) {
				k.Cert = at.Bind
			}
		}
		if k.Via == "http" {
			k.Query = pick(t, "query", queryPool...)
		}
		return k
	}
	nbase := intIn(t, "nbase", 1, 3)
	for i := 0; i < nbase; i++ {
		p.Calls = append(p.Calls, gencall())
	}
	pol := Pol{}
	for _, k := range p.Calls {
		if !oneIn(t, "nogrant", 6) {
			pol = append(pol, Asn{"dom:role." + pick(t, "grole", roles...), k.Act, "dom:" + k.Res, "allow"})
			pol = append(pol, Asn{"dom:role.r0", k.Act, "dom:" + k.Res, "allow"})
		}
	}
	for i, n := 0, intIn(t, "nasn", 1, 4); i < n; i++ {
		eff := "allow"
		if oneIn(t, "deny", 6) {
			eff = "deny"
		}
		pol = append(pol, Asn{"dom:role." + pick(t, "arole", roles...), pick(t, "aact", actPool...), "dom:" + pick(t, "ares", append([]string{"1", "2", "x*"}, resPool...)...), eff})
	}
	p.Doc.Pols = []Pol{pol}
	for i, n := 0, intIn(t, "nder", 2, 8); i < n; i++ {
		k := deriveCall(t, p.Calls[intIn(t, "from", 0, len(p.Calls)-1)], gencall)
		if oneIn(t, "redivide", 8) {
			k = p.Calls[intIn(t, "redivided", 0, len(p.Calls)-1)]
			k.Act, k.Res = redivide(t, k.Act, k.Res)
		}
		if oneIn(t, "othertoken", 6) && k.Tok >= 0 { // with another token, of the same kind if it has to be
			k.Tok = k.Tok/2*2 + 1 - k.Tok%2
			if oneIn(t, "otherkind", 2) {
				k.Tok, k.Via = (k.Tok+2)%4, "http"
			}
		}
		p.Calls = append(p.Calls, k)
	}
	if oneIn(t, "mirror", 3) { // the derived call first, the original after it
		for i, j := 0, len(p.Calls)-1; i < j; i, j = i+1, j-1 {
			p.Calls[i], p.Calls[j] = p.Calls[j], p.Calls[i]
		}
	}
	p.Par = oneIn(t, "par", 3)
	return p
}

// deriveCall makes a different call that looks like an earlier one.
func deriveCall(t *rapid.T, k azCall, fresh func() azCall) azCall {
	if k.Cert != nil {
		c := *k.Cert
		k.Cert = &c
	}
	switch intIn(t, "derive", 0, 17) {
	case 0, 1, 2: // the same text, divided otherwise
		j := pick(t, "join", ":", ":", ":", pick(t, "join2", joiners...))
		var parts []string
		parts = append(parts, k.Tail)
		if k.Cert != nil {
			parts = append(parts, k.Cert.IssuerCN, k.Cert.CN)
		}
		parts = append(parts, k.Act, k.Res)
		if k.Query != "" {
			parts = append(parts, k.Query)
		}
		all := strings.Join(parts, j)
		var cuts []int // where a delimiter could be
		for i := 0; i+len(j) <= len(all); i++ {
			if all[i:i+len(j)] == j {
				cuts = append(cuts, i)
			}
		}
		nparts := pick(t, "nparts", 3, 4, 5, 6)
		if len(cuts) < nparts-1 {
			return k
		}
		sel := map[int]bool{}
		for _, c := range shuffled(t, "cuts", cuts)[:nparts-1] {
			sel[c] = true
		}
		var np []string
		last := 0
		for _, c := range cuts {
			if sel[c] && c >= last {
				np = append(np, all[last:c])
				last = c + len(j)
			}
		}
		np = append(np, all[last:])
		out := azCall{Via: k.Via, Tok: k.Tok}
		switch len(np) {
		case 3:
			out.Tail, out.Act, out.Res = np[0], np[1], np[2]
		case 4:
			out.Tail, out.Act, out.Res, out.Query = np[0], np[1], np[2], np[3]
			out.Via = "http"
		case 5, 6:
			out.Cert = &Cert{CN: np[2], IssuerCN: np[1], NotBefore: T0 - 3600}
			if k.Cert != nil {
				out.Cert.Serial, out.Cert.URIs, out.Cert.NotBefore = k.Cert.Serial, k.Cert.URIs, k.Cert.NotBefore
			}
			out.Tail, out.Act, out.Res = np[0], np[3], np[4]
			if out.Via == "role" {
				out.Via = "access"
			}
			if len(np) == 6 {
				out.Query = np[5]
				out.Via = "http"
			}
		default:
			return k
		}
		return out
	case 3: // the other way of presenting the token
		k.Via = pick(t, "other", "role", "access", "http")
		if k.Via != "http" {
			k.Query = ""
		}
		if k.Via == "role" && oneIn(t, "keepcert", 2) {
			k.Cert = nil
		}
		return k
	case 4: // another certificate of the same names
		if k.Cert != nil {
			switch intIn(t, "certpart", 0, 3) {
			case 0:
				k.Cert.Serial += 1
			case 1:
				k.Cert.URIs = []string{pick(t, "uri", spiffePool...)}
			case 2:
				k.Cert.NotBefore -= 7200
			default:
				k.Cert.URIs = nil
			}
		}
		return k
	case 5:
		if k.Cert != nil {
			k.Cert.CN, k.Cert.IssuerCN = k.Cert.IssuerCN, k.Cert.CN
		} else {
			k.Act, k.Res = k.Res, k.Act
		}
		return k
	case 6:
		k.Cert = nil
		return k
	case 7:
		k.Tok = intIn(t, "othertok", 0, 3)
		return k
	case 8:
		k.Query = pick(t, "query", queryPool...)
		k.Via = "http"
		return k
	case 9:
		k.Act = pick(t, "act", actPool...)
		return k
	case 10:
		k.Res = pick(t, "res", resPool...)
		return k
	case 11: // other case, or something at an end
		if oneIn(t, "case", 2) {
			k.Act, k.Res = strings.ToUpper(k.Act), strings.ToUpper(k.Res)
		} else {
			k.Res += pick(t, "end", "/", " ", ":", "*", "\\", "\x00")
		}
		return k
	case 16: // one character
		f := pick(t, "onein", &k.Res, &k.Res, &k.Act, &k.Query)
		if b := []byte(*f); len(b) > 0 {
			b[pick(t, "oneat", 0, len(b)-1, len(b)/2)] ^= 3
			*f = string(b)
		}
		if k.Query != "" {
			k.Via = "http"
		}
		return k
	case 13: // an altered token
		k.Twist = pick(t, "twist", 1, 2, 3, 10, 30, 60, 80, 90, 120, 200, 300, 400, 600, 1200)
		return k
	case 14, 15: // one of two long values that differ at one end only
		l := strings.Repeat(pick(t, "unit", "/seg", "a", ":", "\\"), pick(t, "times", 8, 20, 60, 300))
		switch intIn(t, "longwhat", 0, 3) {
		case 0:
			k.Act = pick(t, "longact", k.Act+l, l+k.Act)
		case 1:
			k.Query = pick(t, "longq", "k="+l+pick(t, "lq", "1", "2"), l)
			k.Via = "http"
		default:
			if oneIn(t, "longfront", 2) {
				k.Res = l + k.Res
			} else {
				k.Res += l
			}
		}
		return k
	case 12:
		if k.Cert != nil {
			k.Cert.CN = pick(t, "cn", "client.a", "client.b", "a", "")
		}
		return k
	}
	return fresh()
}

func runC14(c *Case, p c14Plan) error {
	opts := []authorizerd.Option{p.Cfg.param(), authorizerd.WithCacheExp(time.Hour), authorizerd.WithDisableRoleCert(), authorizerd.WithResourcePrefix(p.Prefix)}
	if p.NoPolicy {
		opts = append(opts, authorizerd.WithDisablePolicyd())
	}
	if p.Rules != nil {
		opts = append(opts, authorizerd.WithTranslator(lib(mapping(p.Rules))))
	}
	w := newWorld(stdRing(), []Doc{p.Doc}, stdJwks(), opts...)
	defer w.stop()
	w.mustInit()
	half()
	var toks []string
	for _, k := range p.Creds {
		toks = append(toks, k.build())
	}
	var want []azOut
	granted, refused := map[string]bool{}, false
	for i, k := range p.Calls {
		f := w.build(opts...)
		if err := f.Init(w.ctx); err != nil {
			return failf("initialisation over healthy sources failed: %v", err)
		}
		time.Sleep(2 * time.Millisecond)
		fresh := k.do(w.ctx, f, toks, p.Creds)
		got := k.do(w.ctx, w.az, toks, p.Creds)
		want = append(want, fresh)
		if !reflect.DeepEqual(fresh, got) {
			return failf("call %d %s: an authorizer that answered the earlier calls says %s, one with an empty cache says %s", i, jsonText(k), got, fresh)
		}
		id := jsonText(k)
		if fresh.Err {
			refused = refused || len(granted) > 0
			c.Label("refused")
		} else {
			if granted[id] {
				c.Label("repeated grant")
			}
			granted[id] = true
			c.Label("granted")
		}
	}
	if len(granted) > 0 && refused {
		c.NonTrivial()
	}
	if len(granted) > 1 {
		c.Label("several grants")
	}
	if p.Par {
		c.Label("concurrent")
		par := w.build(opts...)
		if err := par.Init(w.ctx); err != nil {
			return failf("initialisation over healthy sources failed: %v", err)
		}
		time.Sleep(2 * time.Millisecond)
		errs := make([]error, 8)
		var wg sync.WaitGroup
		for g := range errs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						errs[g] = failf("%v", r)
					}
				}()
				for n := 0; n < 3*len(p.Calls); n++ {
					i := (n + g) % len(p.Calls)
					if got := p.Calls[i].do(w.ctx, par, toks, p.Creds); !reflect.DeepEqual(got, want[i]) {
						errs[g] = failf("call %d %s among concurrent ones says %s, alone it says %s", i, jsonText(p.Calls[i]), got, want[i])
						return
					}
				}
			}()
		}
		wg.Wait()
		for _, err := range errs {
			if err != nil {
				return err
			}
		}
	}
	return nil
}

func (o azOut) String() string {
	if o.Err {
		return "refused"
	}
	return "granted " + o.P.String()
}

func init() {
	register(Sub{Prop: "C14", Name: "differential", Quick: 4500, Thorough: 112500,
		Rule: "1-3 calls, half of them granted, and 2-8 calls derived from earlier ones (same text divided otherwise, token absorbing the certificate names, other certificate of the same names, other credential type, single-part changes); each is compared with a fresh authorizer; non-trivial: a refused call after a grant"},
		genC14, runC14)
}
