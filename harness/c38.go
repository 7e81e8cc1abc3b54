package harness

import (
	"context"
	"crypto/x509"
	"net/http"
	"reflect"
	"strings"
	"time"

	"pgregory.net/rapid"

	authorizerd "github.com/yahoojapan/athenz-authorizer/v5"
)

// C38: all entry points agree.

type epStep struct {
	Call  int    `json:"c"`
	Entry string `json:"e"`
	Adv   int    `json:"adv,omitempty"`   // seconds to wait first
	Chain int    `json:"chain,omitempty"` // certificates presented with the client's
}

type epPlan struct {
	Base   c14Plan  `json:"base"`
	Header string   `json:"hdr,omitempty"`
	Only   string   `json:"only,omitempty"` // the only kind of credential that requests may carry
	Cache  int      `json:"cache"`          // seconds, 0 is the default
	Steps  []epStep `json:"steps"`
}

var epEntries = []string{"authorize", "verify", "http-authorize", "http-verify"}

func genEp(t *rapid.T) epPlan {
	p := epPlan{Base: genC14(t), Header: pick(t, "hdr", "", "", "X-Role-Token", "athenz-role-auth"), Only: pick(t, "only", "", "", "", "access", "role"), Cache: pick(t, "cache", 0, 5, 3600)}
	b := &p.Base
	b.Par = false
	b.Prefix = pick(t, "prefix", "", "", "", "x", "/", "Pre:")
	if b.Prefix != "" {
		for _, a := range append(Pol(nil), b.Doc.Pols[0]...) {
			_, r, _ := strings.Cut(a.Resource, ":")
			b.Doc.Pols[0] = append(b.Doc.Pols[0], Asn{a.Role, a.Action, "dom:" + b.Prefix + r, a.Effect})
		}
	}
	now := T0 + int64(1)
	// some credentials are no good, or run out on the way
	for i := range b.Creds {
		exp := now + pick(t, "life", int64(100000), 100000, 100000, 100000, 40, 7, -5, -7200)
		if b.Creds[i].RT != nil {
			b.Creds[i].RT.Expiry = exp
			b.Creds[i].RT.KeyID = pick(t, "kid", b.Creds[i].RT.KeyID, b.Creds[i].RT.KeyID, b.Creds[i].RT.KeyID, "t2")
			b.Creds[i].RT.Domain = pick(t, "dom", "dom", "dom", "dom", "dom", "dom", "other")
		} else {
			b.Creds[i].AT.Claims["exp"] = exp
			if oneIn(t, "claim", 6) {
				b.Creds[i].AT.Claims[pick(t, "which", "aud", "iat", "nbf", "sub", "scp", "client_id")] = pick[any](t, "odd", "other", now+50, now-1e6, "", nil, []any{"r0"})
			}
			if oneIn(t, "key", 8) {
				b.Creds[i].AT.Key = "ec3"
			}
		}
	}
	if !b.NoPolicy && oneIn(t, "literal", 3) { // some calls are translated if spelt exactly so
		if b.Rules == nil {
			b.Rules = map[string][]MRule{}
		}
		for i, n := 0, intIn(t, "nliteral", 1, 2); i < n; i++ {
			k := &b.Calls[intIn(t, "litcall", 0, len(b.Calls)-1)]
			k.Res = pick(t, "litpath", "/x", "/A/b", "/q/Y", "/a/", "/")
			r := MRule{k.Act, k.Res, pick(t, "litact", "read", "map"), pick(t, "litres", "lit", "Lit:x")}
			if r.Method == "" {
				continue
			}
			b.Rules["dom"] = append(b.Rules["dom"], r)
			for _, role := range []string{"r0", "r1", "r2"} {
				b.Doc.Pols[0] = append(b.Doc.Pols[0], Asn{"dom:role." + role, r.Action, "dom:" + b.Prefix + r.Resource, "allow"})
			}
		}
	}
	for i := range b.Calls {
		k := &b.Calls[i]
		k.Query = ""
		if oneIn(t, "blank", 25) {
			k.Act = ""
		} else if oneIn(t, "blank2", 25) {
			k.Res = ""
		}
		if k.Tok < 0 {
			k.Tok = i % 4
		}
		if k.Via == "http" || k.Via == "role" && b.Creds[k.Tok].RT == nil || k.Via == "access" && b.Creds[k.Tok].AT == nil {
			k.Via = "access"
			if b.Creds[k.Tok].RT != nil {
				k.Via = "role"
			}
		}
		if k.Via == "role" {
			k.Cert = nil
		}
		if oneIn(t, "tail", 12) {
			k.Tail = pick(t, "tailtext", "=", "==", "-", ".", "~", "x", ";", ";s=", "%20", ",", "\"")
		}
		if oneIn(t, "space", 10) {
			pad := pick(t, "spacetext", " ", "  ", "\t", "\u00a0", "%20", "/", ".", "\n")
			switch intIn(t, "where", 0, 3) {
			case 0:
				k.Act += pad
			case 1:
				k.Act = pad + k.Act
			case 2:
				k.Res += pad
			case 3:
				k.Res = pad + k.Res
			}
		}
		for _, c := range k.Tail {
			if c <= ' ' || c > '~' {
				k.Tail = "x"
				break
			}
		}
	}
	twins := map[int]int{}
	for i, n := 0, len(b.Calls); i < n; i++ {
		if oneIn(t, "twin", 2) {
			k := b.Calls[i]
			switch intIn(t, "how", 0, 5) {
			case 0:
				k.Act = flipCase(t, "case", k.Act)
			case 1, 2:
				k.Res = flipCase(t, "case", k.Res)
			case 3:
				k.Res = near(t, "near", k.Res)
			case 4:
				k.Act = near(t, "near", k.Act)
			case 5:
				k.Act, k.Res = redivide(t, k.Act, k.Res)
			}
			b.Calls = append(b.Calls, k)
			twins[i], twins[len(b.Calls)-1] = len(b.Calls)-1, i
		}
	}
	for i, n := 0, intIn(t, "nsteps", 4, 14); i < n; i++ {
		s := epStep{Call: intIn(t, "call", 0, len(b.Calls)-1), Entry: pick(t, "entry", epEntries...), Adv: pick(t, "adv", 0, 0, 0, 0, 0, 1, 3, 20, 70)}
		if oneIn(t, "chain", 3) {
			s.Chain = intIn(t, "chainlen", 1, 3)
		}
		if i > 0 && oneIn(t, "same", 2) {
			s.Call, s.Adv = p.Steps[i-1].Call, 0
			if tw, ok := twins[s.Call]; ok && oneIn(t, "other", 2) {
				s.Call = tw
				if oneIn(t, "sameentry", 2) {
					s.Entry = p.Steps[i-1].Entry
				}
			}
		}
		p.Steps = append(p.Steps, s)
	}
	return p
}

// epToken is the credential text of a call.
func epToken(k azCall, toks []string) string {
	tok := toks[k.Tok]
	if n := len(tok) - k.Twist; k.Twist > 0 && n >= 0 {
		b := byte('A')
		if tok[n] == b {
			b = 'Q'
		}
		tok = tok[:n] + string(b) + tok[n+1:]
	}
	return tok + k.Tail
}

// epDo presents a call by one of the entry points; the principal is nil by the verifying ones.
func epDo(ctx context.Context, az authorizerd.Authorizerd, k azCall, entry, hdr string, chain int, toks []string) (*prinView, error) {
	tok := epToken(k, toks)
	var crt *x509.Certificate
	if k.Cert != nil {
		crt = k.Cert.build()
	}
	h := http.Header{}
	if k.Via == "access" {
		h.Set("Authorization", "Bearer "+tok)
	} else {
		h.Set(hdr, tok)
	}
	r := httpReq(ctx, "/", h, nil, false)
	if crt != nil {
		all := []*x509.Certificate{crt}
		for i := 0; i < chain; i++ {
			all = append(all, Cert{CN: k.Cert.IssuerCN, IssuerCN: "root", NotBefore: T0 - 7200, Serial: int64(100 + i)}.build())
		}
		r = httpReq(ctx, "/", h, all, true)
	}
	r.URL.RawQuery = ""
	var pr authorizerd.Principal
	var err error
	switch {
	case entry == "http-authorize":
		pr, err = az.Authorize(r, k.Act, k.Res)
	case entry == "http-verify":
		return nil, az.Verify(r, k.Act, k.Res)
	case entry == "authorize" && k.Via == "access":
		pr, err = az.AuthorizeAccessToken(ctx, tok, k.Act, k.Res, crt)
	case entry == "authorize":
		pr, err = az.AuthorizeRoleToken(ctx, tok, k.Act, k.Res)
	case k.Via == "access":
		return nil, az.VerifyAccessToken(ctx, tok, k.Act, k.Res, crt)
	default:
		return nil, az.VerifyRoleToken(ctx, tok, k.Act, k.Res)
	}
	if err != nil {
		if pr != nil && !reflect.ValueOf(pr).IsNil() {
			return nil, failf("%s returned a principal together with the error %v", entry, err)
		}
		return nil, err
	}
	v := viewOf(pr)
	return &v, nil
}

func runEp(c *Case, p epPlan) error {
	b := p.Base
	opts := []authorizerd.Option{authorizerd.WithDisableRoleCert()}
	hdr := "Athenz-Role-Auth"
	if p.Header != "" {
		hdr = p.Header
		opts = append(opts, authorizerd.WithRoleAuthHeader(p.Header))
	}
	switch p.Only {
	case "access":
		opts = append(opts, b.Cfg.param(), authorizerd.WithDisableRoleToken())
	case "role": // certificates and client identifiers are then not configured either
		opts = append(opts, authorizerd.WithAccessTokenParam(authorizerd.NewAccessTokenParam(false, b.Cfg.Bind, b.Cfg.Backdate, b.Cfg.Offset, b.Cfg.ClientID, b.Cfg.Listed)))
	default:
		opts = append(opts, b.Cfg.param())
	}
	if b.NoPolicy {
		opts = append(opts, authorizerd.WithDisablePolicyd())
	}
	if b.Rules != nil {
		opts = append(opts, authorizerd.WithTranslator(lib(mapping(b.Rules))))
	}
	if b.Prefix != "" {
		opts = append(opts, authorizerd.WithResourcePrefix(b.Prefix))
	}
	life := time.Minute
	if p.Cache > 0 {
		life = time.Duration(p.Cache) * time.Second
		opts = append(opts, authorizerd.WithCacheExp(life))
	}
	w := newWorld(stdRing(), []Doc{b.Doc}, stdJwks(), opts...)
	defer w.stop()
	w.mustInit()
	half()
	var toks []string
	for _, k := range b.Creds {
		toks = append(toks, k.build())
	}
	lone := map[string]authorizerd.Authorizerd{}
	for _, e := range epEntries {
		f := w.build(append(opts[:len(opts):len(opts)], authorizerd.WithCacheExp(time.Nanosecond))...)
		if err := f.Init(w.ctx); err != nil {
			return failf("initialisation over healthy sources failed: %v", err)
		}
		lone[e] = f
	}
	granted := map[string]time.Time{}
	kinds := map[string]map[string]bool{}
	for i, s := range p.Steps {
		time.Sleep(time.Duration(s.Adv) * time.Second)
		k := b.Calls[s.Call]
		if p.Only != "" && p.Only != k.Via {
			c.Label("not the kind of credential that is on")
			// the direct calls are not concerned; requests carrying it are refused
			for _, e := range []string{"http-authorize", "http-verify"} {
				if _, err := epDo(w.ctx, w.az, k, e, hdr, s.Chain, toks); err == nil {
					return failf("step %d: %s granted a request whose only credential is of a kind that is switched off: %s", i, e, jsonText(k))
				}
			}
			continue
		}
		// every entry point of an authorizer of its own, which has forgotten all earlier calls
		time.Sleep(time.Millisecond)
		type res struct {
			p  *prinView
			ok bool
		}
		fresh := map[string]res{}
		for _, e := range epEntries {
			pr, err := epDo(w.ctx, lone[e], k, e, hdr, s.Chain, toks)
			if v, bad := err.(*Violation); bad {
				return v
			}
			fresh[e] = res{pr, err == nil}
		}
		want := fresh["authorize"]
		for _, e := range epEntries[1:] {
			if fresh[e].ok != want.ok {
				return failf("step %d %s: %s says %v, authorize says %v (tokens: %v)", i, jsonText(k), e, fresh[e].ok, want.ok, clip([]byte(epToken(k, toks)), 200))
			}
		}
		if want.ok && !reflect.DeepEqual(*want.p, *fresh["http-authorize"].p) {
			return failf("step %d %s: the request yields %s, the token alone %s", i, jsonText(k), *fresh["http-authorize"].p, *want.p)
		}
		// the authorizer in use
		pr, err := epDo(w.ctx, w.az, k, s.Entry, hdr, s.Chain, toks)
		if v, bad := err.(*Violation); bad {
			return v
		}
		id := epToken(k, toks) + "\x00" + jsonText(k.Cert) + "\x00" + k.Act + "\x00" + k.Res
		if b.NoPolicy {
			id = epToken(k, toks) + "\x00" + jsonText(k.Cert)
		}
		now := time.Now()
		at, was := granted[id]
		was = was && now.Sub(at) <= life // granted within the lifetime: may be reused
		switch {
		case (err == nil) == want.ok:
		case err == nil && was:
			c.Label("reused past its time")
		default:
			return failf("step %d %s: the authorizer in use says %v by %s (error %v), an unused one %v", i, jsonText(k), err == nil, s.Entry, err, want.ok)
		}
		if err == nil && want.ok {
			if pr != nil && !reflect.DeepEqual(*pr, *want.p) {
				return failf("step %d %s: the authorizer in use yields %s by %s, an unused one %s", i, jsonText(k), *pr, s.Entry, *want.p)
			}
			if !was {
				granted[id] = now
			}
		}
		c.Label(s.Entry + map[bool]string{true: " granted", false: " refused"}[err == nil])
		if kinds[id] == nil {
			kinds[id] = map[string]bool{}
		}
		if kinds[id][s.Entry] = true; err == nil && len(kinds[id]) > 1 {
			c.NonTrivial()
			c.Label("granted by several entry points")
		}
		if want.ok {
			c.Label("all grant")
		} else {
			c.Label("all refuse")
		}
	}
	return nil
}

func init() {
	register(Sub{Prop: "C38", Name: "entries", Quick: 4500, Thorough: 112500,
		Rule: "calls with role and access tokens, good, altered, expired and running out, presented to four authorizers that remember nothing, one per entry point (authorize, verify, request authorize, request verify), and by a random one of them to an authorizer in use; all must agree; non-trivial: one call granted by several entry points of the authorizer in use"},
		genEp, runEp)
}

// redivide splits the text of the action and the resource at another separator.
func redivide(t *rapid.T, act, res string) (string, string) {
	all := act + ":" + res
	var cuts []int
	for i := range len(all) {
		if all[i] == ':' && i != len(act) {
			cuts = append(cuts, i)
		}
	}
	if len(cuts) == 0 {
		return act + ":" + res, res
	}
	i := cuts[intIn(t, "cut", 0, len(cuts)-1)]
	return all[:i], all[i+1:]
}
