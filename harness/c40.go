package harness

import (
	"context"
	"crypto/x509"
	stderrors "errors"
	"net/http"
	"strings"
	"time"

	"github.com/pkg/errors"
	"pgregory.net/rapid"

	authorizerd "github.com/yahoojapan/athenz-authorizer/v5"
	"github.com/yahoojapan/athenz-authorizer/v5/pubkey"
)

// C40: a refusal says why.

var reasons = map[string]error{
	"invalid-token": authorizerd.ErrRoleTokenInvalid, "expired-token": authorizerd.ErrRoleTokenExpired, "domain-mismatch": authorizerd.ErrDomainMismatch,
	"domain-not-found": authorizerd.ErrDomainNotFound, "domain-expired": authorizerd.ErrDomainExpired, "no-match": authorizerd.ErrNoMatch,
	"policy-resource": authorizerd.ErrInvalidPolicyResource, "deny": authorizerd.ErrDenyByPolicy, "fetch-policy": authorizerd.ErrFetchPolicy,
	"parameters": authorizerd.ErrInvalidParameters, "credentials": authorizerd.ErrInvalidCredentials, "fetch-pubkey": pubkey.ErrFetchAthenzPubkey,
}

// reasonsOf are the documented reasons an error carries.
func reasonsOf(err error) map[string]bool {
	m := map[string]bool{}
	for n, e := range reasons {
		if errors.Cause(err) == e || stderrors.Is(err, e) {
			m[n] = true
		}
	}
	return m
}

type rsCall struct {
	Kind   string   `json:"k"` // role, access, cert
	HTTP   bool     `json:"http,omitempty"`
	Verify bool     `json:"v,omitempty"`
	Dom    string   `json:"d"`
	Roles  []string `json:"r"`
	Faults []string `json:"f,omitempty"`
	Act    string   `json:"act"`
	Res    string   `json:"res"`
	User   int      `json:"u"`
}

type rsPlan struct {
	Docs  []Doc    `json:"docs"`
	Calls []rsCall `json:"calls"`
	Gone  int      `json:"gone"` // from this call on the policies have expired, -1: never
	NoPol bool     `json:"nopol,omitempty"`
	Map   bool     `json:"map,omitempty"` // with mapping rules: get /m<resource> is read <resource>
}

var rsRoleFaults = []string{"nosig", "pair", "time", "expired", "key", "sig"}
var rsAccessFaults = []string{"nosig", "expired", "key", "sig", "future"}

func genRs(t *rapid.T) rsPlan {
	p := rsPlan{Gone: -1, NoPol: oneIn(t, "nopol", 12), Map: oneIn(t, "map", 4)}
	for _, dom := range []string{"dom", "dom.sub"} {
		d := Doc{Domain: dom}
		for i, n := 0, intIn(t, "pols", 0, 4); i < n; i++ {
			var pol Pol
			for j, m := 0, intIn(t, "asns", 1, 3); j < m; j++ {
				pol = append(pol, Asn{dom + ":role." + pick(t, "role", "a", "b", "c"), pick(t, "act", "read", "write", "*", "r*"), dom + ":" + pick(t, "res", "/x", "/x*", "/y", "*"), pick(t, "eff", "allow", "ALLOW", "deny", "Deny")})
			}
			d.Pols = append(d.Pols, pol)
		}
		p.Docs = append(p.Docs, d)
	}
	n := intIn(t, "calls", 1, 10)
	for i := 0; i < n; i++ {
		k := rsCall{Kind: pick(t, "kind", "role", "role", "access", "access", "cert"), Dom: pick(t, "dom", "dom", "dom", "dom", "dom.sub", "dom.sub", "other"), Act: pick(t, "act", "read", "read", "write", "list", "READ"), Res: pick(t, "res", "/x", "/x", "/xx", "/y", "/z"), User: intIn(t, "user", 0, 2), Verify: rapid.Bool().Draw(t, "verify")}
		k.Roles = shuffled(t, "order", []string{"a", "b", "c", "none"})[:intIn(t, "nroles", 1, 3)]
		if k.Kind != "cert" {
			k.HTTP = oneIn(t, "http", 5)
		}
		if oneIn(t, "empty", 10) {
			k.Act = ""
		}
		if oneIn(t, "empty2", 10) {
			k.Res = ""
		}
		if oneIn(t, "faulty", 2) {
			fs := rsRoleFaults
			if k.Kind == "access" {
				fs = rsAccessFaults
			}
			if k.Kind != "cert" {
				for j, m := 0, pick(t, "nfaults", 1, 1, 1, 2, 3); j < m; j++ {
					k.Faults = append(k.Faults, pick(t, "fault", fs...))
				}
			}
		}
		p.Calls = append(p.Calls, k)
	}
	if oneIn(t, "gone", 4) {
		p.Gone = intIn(t, "goneAt", 0, n-1)
	}
	return p
}

func (k rsCall) has(f string) bool {
	for _, x := range k.Faults {
		if x == f {
			return true
		}
	}
	return false
}

func (k rsCall) token() string {
	now := time.Now().Unix()
	exp := now + 3600
	if k.has("expired") {
		exp = now - 2
	}
	if k.Kind == "access" {
		kid, iat := "j0", now-10
		if k.has("key") {
			kid = "j9"
		}
		if k.has("future") {
			iat = now + 1000
		}
		tok := jwtSign(must(jsonBytes(map[string]any{"alg": "RS256", "kid": kid, "typ": "at+jwt"})), must(jsonBytes(map[string]any{"sub": "user.u" + itoa(k.User), "client_id": "c", "aud": k.Dom, "iss": "https://zts", "scp": k.Roles, "iat": iat, "exp": exp})), "RS256", "rsa1")
		if k.has("sig") {
			i := strings.LastIndex(tok, ".") + 10
			tok = tok[:i] + swapChar(tok[i]) + tok[i+1:]
		}
		if k.has("nosig") {
			tok = tok[:strings.LastIndex(tok, ".")]
		}
		return tok
	}
	r := RT{Domain: k.Dom, Principal: "user.u" + itoa(k.User), KeyID: "t0", Roles: k.Roles, Issued: now - 10, Expiry: exp}
	if k.has("key") {
		r.KeyID = "t9"
	}
	u := r.unsigned()
	if k.has("pair") {
		u = strings.Replace(u, ";d=", ";oops;d=", 1)
	}
	if k.has("time") {
		u = strings.Replace(u, ";t=", ";t=x", 1)
	}
	tok := roleToken(u, "ec1")
	if k.has("sig") {
		i := strings.LastIndex(tok, ";s=") + 12
		tok = tok[:i] + swapChar(tok[i]) + tok[i+1:]
	}
	if k.has("nosig") {
		tok = tok[:strings.LastIndex(tok, ";s=")]
	}
	return tok
}

func swapChar(c byte) string {
	if c == 'A' {
		return "B"
	}
	return "A"
}

// want is the set of sets of reasons the call may be answered with; nil means it must be granted.
func (k rsCall) want(p rsPlan, gone bool) (grant bool, allowed []string) {
	if !p.NoPol && (k.Act == "" || k.Res == "") && k.Kind != "cert" {
		return false, []string{"parameters"}
	}
	if len(k.Faults) > 0 {
		if k.Kind == "access" {
			return false, []string{""}
		}
		for _, f := range k.Faults {
			switch f {
			case "nosig", "pair":
				allowed = append(allowed, "invalid-token")
			case "key":
				allowed = append(allowed, "invalid-token")
			case "expired":
				allowed = append(allowed, "expired-token")
			default: // no documented reason of its own
				allowed = append(allowed, "", "invalid-token")
			}
		}
		return false, allowed
	}
	if p.NoPol {
		return true, nil
	}
	docs := p.Docs
	if gone {
		docs = nil
	}
	v, _ := decide(docs, k.Dom, k.Roles, k.Act, k.Res)
	switch {
	case v.Allowed:
		return true, nil
	case v.Deny:
		return false, []string{"deny"}
	}
	return false, []string{"no-match"}
}

func runRs(c *Case, p rsPlan) error {
	docs := append([]Doc(nil), p.Docs...)
	for i := range docs {
		docs[i].TTL = 7200
	}
	opts := []authorizerd.Option{authorizerd.WithEnableRoleCert(), authorizerd.WithCacheExp(time.Second), authorizerd.WithPolicyPurgePeriod("100h"),
		authorizerd.WithAccessTokenParam(authorizerd.NewAccessTokenParam(true, false, "", "", false, nil))}
	if p.Map {
		rules := map[string][]authorizerd.Rule{}
		for _, d := range []string{"dom", "dom.sub", "other"} {
			rules[d] = []authorizerd.Rule{{Method: "get", Path: "/m/{r}", Action: "read", Resource: "/{r}"}}
		}
		opts = append(opts, authorizerd.WithTranslator(lib(authorizerd.NewMappingRules(rules))))
	}
	if p.NoPol {
		opts = append(opts, authorizerd.WithDisablePolicyd())
	}
	w := newWorld(stdRing(), docs, map[string]map[string]string{athenzJwksURL(): {"j0": "rsa1"}}, opts...)
	defer w.stop()
	w.mustInit()
	half()
	ctx := context.Background()
	kinds := map[string]bool{}
	for i, k := range p.Calls {
		if p.Gone == i {
			// nothing is refreshed: the authorizer was not started
			time.Sleep(2*time.Hour + 10*time.Second)
		} else {
			time.Sleep(2 * time.Second) // no grant is reused
		}
		gone := p.Gone >= 0 && i >= p.Gone
		mapped := k
		if p.Map && k.Kind != "cert" && k.Act == "read" && k.Res != "" {
			mapped.Act, mapped.Res = "get", "/m"+k.Res
		}
		var err error
		tok := ""
		switch {
		case k.Kind == "cert":
			if p.NoPol || k.Act == "" || k.Res == "" {
				continue
			}
			var uris []string
			for _, r := range k.Roles {
				uris = append(uris, "athenz://role/"+k.Dom+"/"+r)
			}
			err = w.az.VerifyRoleCert(ctx, []*x509.Certificate{Cert{CN: "user.x", IssuerCN: "ca", NotBefore: T0 - 100, URIs: uris}.build()}, mapped.Act, mapped.Res)
		case k.HTTP:
			tok = k.token()
			h := http.Header{}
			if k.Kind == "role" {
				h.Set("Athenz-Role-Auth", tok)
			} else {
				h.Set("Authorization", "Bearer "+tok)
			}
			r := httpReq(ctx, "/anything", h, nil, true)
			if k.Verify {
				err = w.az.Verify(r, mapped.Act, mapped.Res)
			} else {
				_, err = w.az.Authorize(r, mapped.Act, mapped.Res)
			}
		case k.Kind == "role" && k.Verify:
			err = w.az.VerifyRoleToken(ctx, k.token(), mapped.Act, mapped.Res)
		case k.Kind == "role":
			_, err = w.az.AuthorizeRoleToken(ctx, k.token(), mapped.Act, mapped.Res)
		case k.Verify:
			err = w.az.VerifyAccessToken(ctx, k.token(), mapped.Act, mapped.Res, nil)
		default:
			_, err = w.az.AuthorizeAccessToken(ctx, k.token(), mapped.Act, mapped.Res, nil)
		}
		grant, allowed := k.want(p, gone)
		if grant != (err == nil) {
			return failf("call %d (%s): must be granted: %v, the error is %v", i, jsonText(k), grant, err)
		}
		if err == nil {
			kinds["granted"] = true
			continue
		}
		if k.HTTP {
			allowed = []string{"credentials"}
		}
		got := reasonsOf(err)
		ok := false
		for _, a := range allowed {
			if a == "" && len(got) == 0 || len(got) == 1 && got[a] {
				ok = true
			}
			if k.HTTP && got[a] { // may tell more
				ok = true
			}
		}
		if !ok {
			return failf("call %d (%s) is refused for the reasons %v (%v), the true reasons are %q", i, jsonText(k), sortedKeys(got), err, allowed)
		}
		for g := range got {
			kinds[g] = true
			c.Label(g)
		}
		if len(got) == 0 {
			c.Label("no documented reason")
		}
	}
	if len(kinds) > 1 {
		c.NonTrivial()
	}
	return nil
}

// ---- failing sources ----

type rcsPlan struct {
	Break string `json:"b"` // zms, zts, keys (both), policy, policies (both), jwk0, jwk1, jwk01
	How   string `json:"h"`
	Code  int    `json:"code"`
	Later bool   `json:"later"` // fails after a good start
	N     int    `json:"n"`
}

func genRcs(t *rapid.T) rcsPlan {
	return rcsPlan{Break: pick(t, "break", "zms", "zts", "keys", "policy", "policies", "jwk0", "jwk1", "jwk01"), How: pick(t, "how", "status", "status", "transport", "garbage", "resource"), Code: pick(t, "code", 500, 503, 404, 403, 401, 301, 204, 304, 502), Later: rapid.Bool().Draw(t, "later"), N: intIn(t, "n", 0, 1000)}
}

func runRcs(c *Case, p rcsPlan) error {
	docs := []Doc{{Domain: "dom", Pols: []Pol{{{"dom:role.a", "read", "dom:/x", "allow"}}}}, {Domain: "dim", Pols: []Pol{{{"dim:role.a", "read", "dim:/x", "allow"}}}}}
	urls := []string{athenzJwksURL(), "https://keys" + itoa(p.N) + ".test/jwks"}
	w := newWorld(stdRing(), docs, map[string]map[string]string{urls[0]: {"j0": "rsa1"}, urls[1]: {"k0": "ec3"}},
		authorizerd.WithPubkeyRefreshPeriod("1m"), authorizerd.WithPubkeyRetryDelay("10s"), authorizerd.WithJwkRefreshPeriod("1m"), authorizerd.WithJwkRetryDelay("10s"), authorizerd.WithPolicyRefreshPeriod("1m"))
	defer w.stop()
	cause := &netErr{msg: "refused " + itoa(p.N)}
	bad := func(*http.Request) *Resp {
		switch p.How {
		case "transport":
			return &Resp{Err: cause}
		case "garbage":
			return &Resp{Status: 200, Body: []byte(`{"publicKeys": 3, "keys": 4, "signedPolicyData": 5`)}
		case "resource":
			d := docs[0]
			d.Pols = append([]Pol{{{"dom:role.a", "read", "nocolon", "allow"}}}, d.Pols...)
			return &Resp{Status: 200, Body: docBody(d)}
		}
		return &Resp{Status: p.Code, Body: []byte("{}")}
	}
	want := ""
	breakIt := func() {
		switch p.Break {
		case "zms", "zts", "keys":
			for _, env := range []string{"zms", "zts"} {
				if p.Break == env || p.Break == "keys" {
					w.n.handle(serviceURL("sys.auth", env), bad)
				}
			}
			want = "fetch-pubkey"
		case "policy":
			w.n.handle(policyURL("dom"), bad)
			want = "fetch-policy"
		case "policies":
			w.n.handle(policyURL("dom"), bad)
			w.n.handle(policyURL("dim"), bad)
			want = "fetch-policy"
		default:
			for _, i := range p.Break[3:] {
				w.n.handle(urls[i-'0'], bad)
			}
		}
	}
	if p.How == "resource" && !strings.HasPrefix(p.Break, "polic") || p.Code == 301 && p.How == "status" {
		return nil
	}
	judge := func(err error) error {
		got := reasonsOf(err)
		switch p.How {
		case "status":
		case "resource":
			want = "policy-resource"
		default:
			want = ""
		}
		if want != "" && !got[want] {
			return failf("%s fails (%s %d): the error is %v, with the reasons %v, not %s", p.Break, p.How, p.Code, err, sortedKeys(got), want)
		}
		for g := range got {
			if g != want {
				return failf("%s fails (%s): the error %v claims the reason %s", p.Break, p.How, err, g)
			}
		}
		if strings.HasPrefix(p.Break, "jwk") {
			for i, u := range urls {
				if strings.Contains(err.Error(), u) != strings.Contains(p.Break[3:], itoa(i)) {
					return failf("the key set at %s fails (%s), the error is: %v", p.Break, p.How, err)
				}
			}
		} else if p.How == "transport" && !stderrors.Is(err, cause) && !strings.Contains(err.Error(), cause.msg) {
			return failf("%s fails with %v, the error is %v", p.Break, cause, err)
		}
		c.Label("%s %s", p.Break[:3], p.How)
		c.NonTrivial()
		return nil
	}
	if !p.Later {
		breakIt()
		err := w.init()
		if err == nil {
			return failf("%s fails (%s %d), yet the authorizer is initialised", p.Break, p.How, p.Code)
		}
		return judge(err)
	}
	w.mustInit()
	ctx, cancel := context.WithCancel(w.ctx)
	ech := w.az.Start(ctx)
	time.Sleep(30 * time.Second)
	breakIt()
	time.Sleep(2 * time.Minute)
	cancel()
	n := 0
	for err := range ech {
		if stderrors.Is(err, context.Canceled) || errors.Cause(err) == context.Canceled {
			continue // reported because of the stop
		}
		n++
		if e := judge(err); e != nil {
			return e
		}
	}
	if n == 0 && (!strings.HasPrefix(p.Break, "polic") || p.How == "resource") { // an unavailable policy is replaced by the last one
		return failf("%s fails (%s %d) for two minutes, nothing is reported", p.Break, p.How, p.Code)
	}
	return nil
}

func init() {
	register(Sub{Prop: "C40", Name: "refusals", Quick: 6000, Thorough: 150000,
		Rule: "up to 10 calls by every entry point, with sound credentials and with one or several faults, against policies of two domains that may expire; non-trivial if at least two different outcomes (a grant, a reason) occur"}, genRs, runRs)
	register(Sub{Prop: "C40", Name: "sources", Quick: 3000, Thorough: 75000,
		Rule: "one source, or two of a kind, fail at initialisation or later, by status, transport, content or an assertion that cannot be loaded; non-trivial if an error was judged"}, genRcs, runRcs)
}
