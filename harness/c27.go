package harness

import (
	"context"
	"crypto/x509"
	"fmt"
	"net/http"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"

	authorizerd "github.com/yahoojapan/athenz-authorizer/v5"
	"github.com/yahoojapan/athenz-authorizer/v5/access"
	"github.com/yahoojapan/athenz-authorizer/v5/jwk"
	"github.com/yahoojapan/athenz-authorizer/v5/policy"
	"github.com/yahoojapan/athenz-authorizer/v5/pubkey"
)

// C27: configuration.

// cfgText is a setting together with whether it is acceptable.
type cfgText struct {
	S  string `json:"s"`
	OK bool   `json:"ok"`
}

// c27Plan sets any subset of the settings; a nil setting's option is not given.
type c27Plan struct {
	Target string             `json:"target"`
	URL    *cfgText           `json:"url,omitempty"`
	Dur    map[string]cfgText `json:"dur,omitempty"`
	JWK    []cfgText          `json:"jwk,omitempty"`
	JWKNil bool               `json:"jwknil,omitempty"`
	Order  []int              `json:"order,omitempty"` // draws for shuffling the options
	Pubkey bool               `json:"pubkey"`
	Policy bool               `json:"policy"`
	Jwk    bool               `json:"jwkd"`
	Access bool               `json:"access"`
	Role   bool               `json:"role"`
	Cert   bool               `json:"cert"`
	Toggle bool               `json:"toggle,omitempty"` // every switch is first set the other way
}

// Duration settings and the component each belongs to.
var c27Durs = map[string]string{
	"pubkeyRefresh": "pubkey", "pubkeyRetry": "pubkey", "pubkeyETag": "pubkey", "pubkeyPurge": "pubkey",
	"policyMargin": "policy", "policyRefresh": "policy", "policyPurge": "policy", "policyRetry": "policy",
	"jwkRefresh": "jwk", "jwkRetry": "jwk",
	"certBack": "access", "certOffset": "access",
}

func genDurText(t *rapid.T, good int) cfgText {
	if !oneIn(t, "baddur", good) {
		switch intIn(t, "gd", 0, 3) {
		case 0:
			return cfgText{"", true}
		case 1:
			return cfgText{fmt.Sprintf("%d%s", intIn(t, "n", 1, 90), pick(t, "u", "ms", "s", "m", "h", "us", "ns")), true}
		case 2:
			return cfgText{fmt.Sprintf("%dh%dm%ds", intIn(t, "h", 0, 99), intIn(t, "m", 0, 99), intIn(t, "s", 1, 99)), true}
		}
		return cfgText{fmt.Sprintf("%s%d.%d%s", pick(t, "sign", "", "+"), intIn(t, "n", 0, 9), intIn(t, "f", 1, 99), pick(t, "u", "s", "m", "h")), true}
	}
	n := intIn(t, "n", 1, 99)
	return cfgText{pick(t, "bad",
		fmt.Sprint(n), fmt.Sprintf("%d s", n), fmt.Sprintf(" %ds", n), fmt.Sprintf("%ds ", n), fmt.Sprintf("%dd", n), fmt.Sprintf("%dw", n), fmt.Sprintf("%dS", n), fmt.Sprintf("%dH", n),
		fmt.Sprintf("--%ds", n), fmt.Sprintf("1h%d", n), fmt.Sprintf("%dsec", n), fmt.Sprintf("%dmin", n), "s", ".", ".s", "one hour", "%", " ", "PT1H", "0x10s", "1,5h", "1e3s", "9999999999h", "\t", "nil"), false}
}

var urlHosts = []string{"zts.test/zts/v1", "zts.test", "zts.test:4443/zts/v1", "127.0.0.1:8443", "a-b.c_d/x", "https.test/v1", "http-x.test", "localhost/http"}

func genURLText(t *rapid.T, bad bool) cfgText {
	h := pick(t, "host", urlHosts...)
	if bad {
		return cfgText{pick(t, "badscheme", "ftp://", "ws://", "httpx://", "https+x://", "h2://", "xhttp://", "xhttps://", "file://", "a.b-c://", "shttp://", "unix://", "s3://", "htt://", "httpss://") + h, false}
	}
	return cfgText{pick(t, "scheme", "", "http://", "https://") + h, true}
}

func genJwkURLText(t *rapid.T, bad bool) cfgText {
	if bad {
		return cfgText{pick(t, "badjwk", "", "keys.test/jwks", "/jwks", "ftp://keys.test/j", "://keys.test", "https//keys.test", "keys", "https://keys.test/%zz", " https://keys.test/j", "ws://keys.test/j", "//keys.test/j", "https", "mailto:x@keys.test", "file:///etc/keys", "httpss://keys.test", "1http://keys.test", "https://keys .test/"), false}
	}
	return cfgText{pick(t, "jwk", "https://keys.test/jwks", "http://keys.test/jwks", "https://keys.test:8443/jwks?x=1&y=%2F", "https://10.0.0.1/a/b", "http://k.test", "https://user@keys.test/j"), true}
}

func genC27(t *rapid.T) c27Plan {
	p := c27Plan{Target: pick(t, "target", "authorizer", "authorizer", "authorizer", "pubkey", "policy", "jwk", "access"), Dur: map[string]cfgText{},
		Pubkey: true, Policy: true, Jwk: true, Access: true, Role: true, Cert: true}
	p.Toggle = oneIn(t, "toggle", 3)
	// one setting in about half of the cases is bad
	bad := pick(t, "badkind", "", "", "", "url", "dur", "dur", "dur", "jwk", "jwk", "none")
	if p.Target == "authorizer" {
		p.Policy, p.Jwk, p.Access, p.Role, p.Cert = !oneIn(t, "nopol", 4), !oneIn(t, "nojwk", 4), !oneIn(t, "noat", 4), !oneIn(t, "nort", 3), !oneIn(t, "nocert", 2)
		if bad == "none" {
			p.Access, p.Role, p.Cert = false, false, false
		}
		if p.Access {
			p.Jwk = true
		}
		p.Pubkey = p.Policy || p.Role || !oneIn(t, "nopk", 2)
	}
	if bad == "url" || !oneIn(t, "nourl", 4) || p.Target == "jwk" {
		p.URL = new(cfgText)
		*p.URL = genURLText(t, bad == "url")
	}
	names := sortedKeys(c27Durs)
	badName := ""
	if bad == "dur" {
		badName = pick(t, "badname", names...)
	}
	for _, n := range names {
		if n == badName {
			p.Dur[n] = genDurText(t, 1)
		} else if oneIn(t, "given", 2) {
			p.Dur[n] = genDurText(t, 1000)
		}
	}
	nj := intIn(t, "njwk", 0, 4)
	at := -1
	if bad == "jwk" {
		nj = max(nj, 1)
		at = intIn(t, "badat", 0, nj-1)
	}
	for i := 0; i < nj; i++ {
		p.JWK = append(p.JWK, genJwkURLText(t, i == at))
	}
	p.JWKNil = nj == 0 && oneIn(t, "jwknil", 2)
	for i := 0; i < 24; i++ {
		p.Order = append(p.Order, intIn(t, "order", 0, 99))
	}
	return p
}

// permuted reorders options by the plan's draws.
func permuted[T any](xs []T, draws []int) []T {
	for i := len(xs) - 1; i > 0 && i < len(draws); i-- {
		j := draws[i] % (i + 1)
		xs[i], xs[j] = xs[j], xs[i]
	}
	return xs
}

// wrong names the settings that have to make the constructor fail.
func (p c27Plan) wrong() (out []string) {
	if p.URL != nil && !p.URL.OK && p.Target != "access" {
		out = append(out, fmt.Sprintf("Athenz URL %q", p.URL.S))
	}
	on := map[string]bool{"pubkey": p.Pubkey, "policy": p.Policy, "jwk": p.Jwk, "access": p.Access}
	for _, n := range sortedKeys(p.Dur) {
		if c := c27Durs[n]; !p.Dur[n].OK && (p.Target == "authorizer" && on[c] || p.Target == c) {
			out = append(out, fmt.Sprintf("%s %q", n, p.Dur[n].S))
		}
	}
	if p.Target == "authorizer" && p.Jwk || p.Target == "jwk" {
		for _, u := range p.JWK {
			if !u.OK {
				out = append(out, fmt.Sprintf("JWK URL %q", u.S))
			}
		}
	}
	if p.Target == "authorizer" && !p.Access && !p.Role && !p.Cert {
		out = append(out, "no credential type")
	}
	return out
}

func (p c27Plan) jwkURLs() []string {
	if p.JWKNil {
		return nil
	}
	out := []string{}
	for _, u := range p.JWK {
		out = append(out, u.S)
	}
	return out
}

// options builds the authorizer's options.
func (p c27Plan) options(client *http.Client) []authorizerd.Option {
	var o []authorizerd.Option
	sw := func(on bool, enable, disable func() authorizerd.Option) {
		a, b := disable(), enable()
		if !on {
			a, b = b, a
		}
		if p.Toggle {
			o = append(o, a) // a later option overrides an earlier one
		}
		o = append(o, b)
	}
	sw(p.Pubkey, authorizerd.WithEnablePubkeyd, authorizerd.WithDisablePubkeyd)
	sw(p.Policy, authorizerd.WithEnablePolicyd, authorizerd.WithDisablePolicyd)
	sw(p.Jwk, authorizerd.WithEnableJwkd, authorizerd.WithDisableJwkd)
	sw(p.Role, authorizerd.WithEnableRoleToken, authorizerd.WithDisableRoleToken)
	sw(p.Cert, authorizerd.WithEnableRoleCert, authorizerd.WithDisableRoleCert)
	var s []authorizerd.Option
	for _, n := range sortedKeys(p.Dur) {
		v := p.Dur[n].S
		switch n {
		case "pubkeyRefresh":
			s = append(s, authorizerd.WithPubkeyRefreshPeriod(v))
		case "pubkeyRetry":
			s = append(s, authorizerd.WithPubkeyRetryDelay(v))
		case "pubkeyETag":
			s = append(s, authorizerd.WithPubkeyETagExpiry(v))
		case "pubkeyPurge":
			s = append(s, authorizerd.WithPubkeyETagPurgePeriod(v))
		case "policyMargin":
			s = append(s, authorizerd.WithPolicyExpiryMargin(v))
		case "policyRefresh":
			s = append(s, authorizerd.WithPolicyRefreshPeriod(v))
		case "policyPurge":
			s = append(s, authorizerd.WithPolicyPurgePeriod(v))
		case "policyRetry":
			s = append(s, authorizerd.WithPolicyRetryDelay(v))
		case "jwkRefresh":
			s = append(s, authorizerd.WithJwkRefreshPeriod(v))
		case "jwkRetry":
			s = append(s, authorizerd.WithJwkRetryDelay(v))
		}
	}
	back, hasBack := p.Dur["certBack"]
	off, hasOff := p.Dur["certOffset"]
	if hasBack || hasOff || !p.Access {
		s = append(s, authorizerd.WithAccessTokenParam(authorizerd.NewAccessTokenParam(p.Access, true, back.S, off.S, false, nil)))
	}
	if p.URL != nil {
		s = append(s, authorizerd.WithAthenzURL(p.URL.S))
	}
	s = append(s, authorizerd.WithJwkURLs(p.jwkURLs()), authorizerd.WithHTTPClient(client), authorizerd.WithAthenzDomains("dom"))
	// switches keep their order among themselves; the rest comes in any order around them
	s = permuted(s, p.Order)
	k := 0
	if len(p.Order) > 0 {
		k = p.Order[0] % (len(s) + 1)
	}
	return append(append(append([]authorizerd.Option(nil), s[:k]...), o...), s[k:]...)
}

func (p c27Plan) create(n *Net) (err error) {
	switch p.Target {
	case "authorizer":
		var az authorizerd.Authorizerd
		if az, err = authorizerd.New(p.options(n.client())...); err == nil && az == nil {
			return failf("no authorizer and no error")
		}
	case "pubkey":
		o := []pubkey.Option{pubkey.WithHTTPClient(n.client())}
		if p.URL != nil {
			o = append(o, pubkey.WithAthenzURL(p.URL.S))
		}
		for name, f := range map[string]func(string) pubkey.Option{"pubkeyRefresh": pubkey.WithRefreshPeriod, "pubkeyRetry": pubkey.WithRetryDelay, "pubkeyETag": pubkey.WithETagExpiry, "pubkeyPurge": pubkey.WithETagPurgePeriod} {
			if d, ok := p.Dur[name]; ok {
				o = append(o, f(d.S))
			}
		}
		_, err = pubkey.New(o...)
	case "policy":
		o := []policy.Option{policy.WithHTTPClient(n.client()), policy.WithPubKeyProvider(stdRing().provider()), policy.WithAthenzDomains("dom")}
		if p.URL != nil {
			o = append(o, policy.WithAthenzURL(p.URL.S))
		}
		for name, f := range map[string]func(string) policy.Option{"policyMargin": policy.WithExpiryMargin, "policyRefresh": policy.WithRefreshPeriod, "policyPurge": policy.WithPurgePeriod, "policyRetry": policy.WithRetryDelay} {
			if d, ok := p.Dur[name]; ok {
				o = append(o, f(d.S))
			}
		}
		_, err = policy.New(o...)
	case "jwk":
		o := []jwk.Option{jwk.WithHTTPClient(n.client()), jwk.WithURLs(p.jwkURLs())}
		if p.URL != nil {
			o = append(o, jwk.WithAthenzJwksURL(p.URL.S))
		}
		for name, f := range map[string]func(string) jwk.Option{"jwkRefresh": jwk.WithRefreshPeriod, "jwkRetry": jwk.WithRetryDelay} {
			if d, ok := p.Dur[name]; ok {
				o = append(o, f(d.S))
			}
		}
		_, err = jwk.New(o...)
	case "access":
		var o []access.Option
		for name, f := range map[string]func(string) access.Option{"certBack": access.WithClientCertificateGoBackSeconds, "certOffset": access.WithClientCertificateOffsetSeconds} {
			if d, ok := p.Dur[name]; ok {
				o = append(o, f(d.S))
			}
		}
		_, err = access.New(o...)
	}
	return err
}

func runC27(c *Case, p c27Plan) error {
	n := newNet()
	err := p.create(n)
	if v, ok := err.(*Violation); ok {
		return v
	}
	wrong := p.wrong()
	if len(wrong) > 0 {
		c.Label("unacceptable: %s", strings.Fields(wrong[0])[0])
		c.NonTrivial()
		if err == nil {
			return failf("creating the %s succeeded in spite of %s", p.Target, strings.Join(wrong, ", "))
		}
	} else {
		c.Label("acceptable")
		if err != nil {
			return failf("creating the %s from an acceptable configuration failed: %v", p.Target, err)
		}
	}
	if r := n.requests(); len(r) > 0 {
		return failf("creating the %s made a request to %s", p.Target, r[0].URL)
	}
	return nil
}

// ---- wiring -------------------------------------------------------------------

type wirePlan struct {
	Host   string   `json:"host"`
	Scheme string   `json:"scheme"`
	Sys    string   `json:"sys"` // "-" for not given
	Doms   []string `json:"doms"`
	Jwks   []string `json:"jwks"`
	// enabled components
	Pubkey bool `json:"pubkey"`
	Policy bool `json:"policy"`
	Jwk    bool `json:"jwkd"`
	// seconds; 0 means the default, by an empty or absent setting
	PkRefresh  int `json:"pkrefresh"`
	PkRetry    int `json:"pkretry"`
	PkETag     int `json:"pketag"`
	PkPurge    int `json:"pkpurge"`
	PolRefresh int `json:"polrefresh"`
	PolRetry   int `json:"polretry"`
	PolMargin  int `json:"polmargin"`
	PolPurge   int `json:"polpurge"`
	Attempts   int `json:"attempts"`
	JwkRefresh int `json:"jwkrefresh"`
	JwkRetry   int `json:"jwkretry"`
	Style      int `json:"style"` // how durations are written and whether defaults are given as ""

	TTL   int    `json:"ttl"`
	ETags bool   `json:"etags"`
	Fail  string `json:"fail,omitempty"` // the source that fails after initialisation
	FailN int    `json:"failn,omitempty"`

	Header string `json:"header"` // "-" not given
	Prefix string `json:"prefix"`
	CertP  string `json:"certp"`
}

func genWire(t *rapid.T) wirePlan {
	p := wirePlan{Host: pick(t, "host", urlHosts...), Scheme: pick(t, "scheme", "", "http://", "https://"), Sys: pick(t, "sys", "-", "", "sys.auth", "sys.other", "home.sys"),
		Pubkey: true, Policy: true, Jwk: true, ETags: !oneIn(t, "noetag", 4), Style: intIn(t, "style", 0, 7),
		Header: pick(t, "header", "-", "X-Role", "Athenz-Role-Auth"), Prefix: pick(t, "prefix", "", "", "pre/", "/v1"), CertP: pick(t, "certp", "-", "spiffe://role/", "athenz://r/")}
	switch intIn(t, "disabled", 0, 7) {
	case 0:
		p.Policy = false
	case 1:
		p.Jwk = false
	case 2:
		p.Pubkey, p.Policy = false, false
	case 3:
		p.Policy, p.Jwk = false, false
	}
	p.Doms = shuffled(t, "doms", []string{"dom", "dom2", "a.b.c", "Mixed"})[:intIn(t, "ndoms", 0, 3)]
	p.Jwks = shuffled(t, "jwks", []string{"https://keys.test/jwks", "http://keys.test/jwks", "https://k2.test:8443/j?x=1"})[:intIn(t, "njwks", 0, 3)]
	per := func(l string) int { return pick(t, l, 0, 600, 1500, 2700, 5400, 7200, 25200, 61200) }
	ret := func(l string) int { return pick(t, l, 0, 1, 7, 45, 100, 200) }
	p.PkRefresh, p.PolRefresh, p.JwkRefresh = per("pkr"), per("polr"), per("jwkr")
	p.PkRetry, p.PolRetry, p.JwkRetry = ret("pkd"), ret("pold"), ret("jwkd")
	p.PkETag = pick(t, "etag", 0, 0, 1000, 4000, 20000, 100000)
	p.PkPurge = pick(t, "pkpurge", 0, 509, 3011, 40009)
	p.PolMargin = pick(t, "margin", 0, 0, 600, 7200, 40000, 200000)
	p.PolPurge = pick(t, "purge", 0, 307, 1213, 5003, 40009)
	p.Attempts = pick(t, "attempts", 0, 1, 2, 3, 5)
	p.TTL = pick(t, "ttl", 900, 5000, 20000, 90000, 604800, 3600000)
	p.Fail = pick(t, "fail", "", "", "pubkey", "policy", "jwk")
	p.FailN = intIn(t, "failn", 1, 7)
	if oneIn(t, "long", 12) {
		// long enough for the default ETag expiry
		p.PkRefresh, p.PkETag, p.PolRefresh, p.PolPurge = pick(t, "longpkr", 172800, 320000), 0, 61200, 40009
	}
	return p
}

func (p wirePlan) text(secs int) string {
	d := time.Duration(secs) * time.Second
	switch p.Style % 4 {
	case 0:
		return d.String()
	case 1:
		return fmt.Sprintf("%dms", secs*1000)
	case 2:
		return fmt.Sprintf("%dm%ds", secs/60, secs%60)
	}
	return fmt.Sprintf("%ds", secs)
}

func orDefault(secs int, def string) time.Duration {
	if secs == 0 {
		return must(time.ParseDuration(def))
	}
	return time.Duration(secs) * time.Second
}

// wireSource is one fake source and what it has been asked.
type wireSource struct {
	kind string
	url  string
	mu   sync.Mutex
	reqs []Req
	fail int // number of requests left to fail
	tag  string
	exp  time.Time // of the document last sent
	sent time.Time
}

func runWire(c *Case, p wirePlan) error {
	n := newNet()
	ctx, stop := context.WithCancel(context.Background())
	defer stop()
	base := "https://" + p.Host
	sys := p.Sys
	if sys == "-" || sys == "" {
		sys = "sys.auth"
	}
	ring := stdRing()
	const polRole = "r0"
	docOf := func(d string) Doc {
		return Doc{Domain: d, TTL: p.TTL, Pols: []Pol{{Asn{d + ":role." + polRole, "read", d + ":" + p.Prefix + "x", "allow"}}}}
	}
	var srcs []*wireSource
	source := func(kind, u string, body func() []byte) {
		s := &wireSource{kind: kind, url: u}
		srcs = append(srcs, s)
		n.handle(u, func(r *http.Request) *Resp {
			s.mu.Lock()
			defer s.mu.Unlock()
			now := time.Now()
			inm, has := r.Header.Get("If-None-Match"), r.Header["If-None-Match"] != nil
			s.reqs = append(s.reqs, Req{At: now, INM: inm, HasINM: has, URL: u})
			if s.fail > 0 {
				s.fail--
				return &Resp{Status: 503}
			}
			if has && s.tag != "" && inm == s.tag {
				return &Resp{Status: 304}
			}
			res := &Resp{Status: 200, Body: body()}
			s.sent, s.exp = now, now.Add(time.Duration(p.TTL)*time.Second)
			if p.ETags && kind != "jwk" {
				s.tag = fmt.Sprintf(`"%s-%d"`, kind, len(s.reqs))
				res.Header = map[string]string{"ETag": s.tag}
			}
			return res
		})
	}
	if p.Pubkey {
		for _, env := range []string{"zms", "zts"} {
			source("pubkey", base+"/domain/"+sys+"/service/"+env, func() []byte { return ring.body(env) })
		}
	}
	if p.Policy {
		for _, d := range p.Doms {
			source("policy", base+"/domain/"+d+"/signed_policy_data", func() []byte { return docBody(docOf(d)) })
		}
	}
	if p.Jwk {
		source("jwk", base+"/oauth2/keys?rfc=true", func() []byte { return jwksBody(map[string]string{"j0": "rsa1", "j1": "ec1"}) })
		for _, u := range p.Jwks {
			source("jwk", u, func() []byte { return jwksBody(map[string]string{"x0": "rsa2"}) })
		}
	}

	opts := []authorizerd.Option{authorizerd.WithAthenzURL(p.Scheme + p.Host), authorizerd.WithHTTPClient(n.client()), authorizerd.WithResourcePrefix(p.Prefix),
		authorizerd.WithCacheExp(500 * time.Hour)} // its cleaning would tick every 30 s
	if len(p.Doms) > 0 || p.Style >= 4 {
		opts = append(opts, authorizerd.WithAthenzDomains(p.Doms...))
	}
	if len(p.Jwks) > 0 || p.Style >= 4 {
		opts = append(opts, authorizerd.WithJwkURLs(p.Jwks))
	}
	if p.Sys != "-" {
		opts = append(opts, authorizerd.WithPubkeySysAuthDomain(p.Sys))
	}
	dur := func(secs int, f func(string) authorizerd.Option) {
		if secs > 0 {
			opts = append(opts, f(p.text(secs)))
		} else if p.Style >= 4 {
			opts = append(opts, f(""))
		}
	}
	dur(p.PkRefresh, authorizerd.WithPubkeyRefreshPeriod)
	dur(p.PkRetry, authorizerd.WithPubkeyRetryDelay)
	dur(p.PkETag, func(s string) authorizerd.Option {
		if s != "" {
			s += "250ms" // never exactly at a refresh
		}
		return authorizerd.WithPubkeyETagExpiry(s)
	})
	dur(p.PkPurge, authorizerd.WithPubkeyETagPurgePeriod)
	dur(p.PolRefresh, authorizerd.WithPolicyRefreshPeriod)
	dur(p.PolRetry, authorizerd.WithPolicyRetryDelay)
	dur(p.PolMargin, func(s string) authorizerd.Option {
		if s != "" {
			s += "250ms"
		}
		return authorizerd.WithPolicyExpiryMargin(s)
	})
	dur(p.PolPurge, authorizerd.WithPolicyPurgePeriod)
	dur(p.JwkRefresh, authorizerd.WithJwkRefreshPeriod)
	dur(p.JwkRetry, authorizerd.WithJwkRetryDelay)
	if p.Attempts > 0 || p.Style >= 4 {
		opts = append(opts, authorizerd.WithPolicyRetryAttempts(p.Attempts))
	}
	if !p.Pubkey {
		opts = append(opts, authorizerd.WithDisablePubkeyd(), authorizerd.WithDisableRoleToken())
	}
	if !p.Policy {
		opts = append(opts, authorizerd.WithDisablePolicyd())
	}
	if !p.Jwk {
		opts = append(opts, authorizerd.WithDisableJwkd(), authorizerd.WithAccessTokenParam(authorizerd.NewAccessTokenParam(false, true, "", "", false, nil)))
	}
	if p.Header != "-" {
		opts = append(opts, authorizerd.WithRoleAuthHeader(p.Header))
	}
	if p.CertP != "-" {
		opts = append(opts, authorizerd.WithRoleCertURIPrefix(p.CertP))
	}

	az := lib(authorizerd.New(opts...))
	time.Sleep(500 * time.Millisecond)
	if err := az.Init(ctx); err != nil {
		return failf("initialisation over healthy sources failed: %v; requests: %s", err, reqURLs(n))
	}
	known := map[string]*wireSource{}
	for _, s := range srcs {
		known[s.url] = s
		if len(s.reqs) == 0 {
			return failf("initialisation did not contact %s; requests: %s", s.url, reqURLs(n))
		}
		s.reqs = s.reqs[:0]
	}
	for _, r := range n.requests() {
		if known[r.URL] == nil {
			return failf("initialisation contacted %s, which belongs to no enabled source", r.URL)
		}
		if r.HasINM {
			return failf("the first request to %s carries If-None-Match %q", r.URL, r.INM)
		}
	}
	if err := p.probe(c, az, ctx); err != nil {
		return err
	}

	// From here on the background updater works.
	refresh := map[string]time.Duration{"pubkey": orDefault(p.PkRefresh, "24h"), "policy": orDefault(p.PolRefresh, "30m"), "jwk": orDefault(p.JwkRefresh, "24h")}
	retry := map[string]time.Duration{"pubkey": orDefault(p.PkRetry, "1m"), "policy": orDefault(p.PolRetry, "1m"), "jwk": orDefault(p.JwkRetry, "1m")}
	attempts := p.Attempts
	if attempts == 0 {
		attempts = 2
	}
	margin, purge, etag := orDefault(p.PolMargin, "3h"), orDefault(p.PolPurge, "1h"), orDefault(p.PkETag, "168h")
	if p.PolMargin > 0 {
		margin += 250 * time.Millisecond
	}
	if p.PkETag > 0 {
		etag += 250 * time.Millisecond
	}
	ttl := time.Duration(p.TTL) * time.Second
	horizon := time.Duration(0)
	for _, s := range srcs {
		horizon = max(horizon, 2*refresh[s.kind])
		if s.kind == p.Fail {
			s.fail = p.FailN
		}
	}
	horizon += 17 * time.Minute
	start := time.Now()
	ech := az.Start(ctx)
	done := make(chan struct{})
	go func() {
		defer close(done)
		for range ech {
		}
	}()
	tag0 := map[string]time.Time{}
	for _, s := range srcs {
		tag0[s.url] = s.sent
	}
	time.Sleep(horizon)
	end := time.Now()
	stop()

	for _, r := range n.requests() {
		if known[r.URL] == nil {
			return failf("the updater contacted %s, which belongs to no enabled source", r.URL)
		}
	}
	const eps = time.Second
	for _, s := range srcs {
		s.mu.Lock()
		reqs := append([]Req(nil), s.reqs...)
		s.mu.Unlock()
		say := func(f string, a ...any) error {
			var at []string
			for i, r := range reqs {
				if i > 14 {
					at = append(at, "...")
					break
				}
				at = append(at, r.At.Sub(start).String())
			}
			return failf("%s source %s (refresh %v, retry %v, attempts %d, margin %v, purge %v, ETag expiry %v, document lifetime %v): %v; requests after start at %s", s.kind, s.url, refresh[s.kind], retry[s.kind], attempts, margin, purge, etag, ttl, failf(f, a...), strings.Join(at, " "))
		}
		P, R := refresh[s.kind], retry[s.kind]
		failing := 0
		if s.kind == p.Fail {
			failing = p.FailN
		}
		// 1. an attempt at every refresh time, counted from the start, until failures shift it
		busy := time.Duration(0) // how long failure handling may keep the updater from its schedule
		if p.Fail == s.kind {
			busy = time.Duration(2*failing+attempts+2) * R
		}
		near := func(at time.Time) bool {
			for _, r := range reqs {
				if d := r.At.Sub(at); d >= -eps && d <= eps {
					return true
				}
			}
			return false
		}
		for k := 1; ; k++ {
			at := start.Add(time.Duration(k) * P)
			if at.After(end.Add(-2 * eps)) {
				break
			}
			if k > 1 && time.Duration(k-1)*P < P+busy+eps {
				continue
			}
			if !near(at) {
				return say("nothing at its %d. refresh, %v after the start", k, at.Sub(start))
			}
		}
		c.Label("%s refreshes on time", s.kind)
		if failing == 0 {
			// 2. and nothing else, except when a policy document expires before its refresh
			for i, r := range reqs {
				off := r.At.Sub(start)
				k := (off + P/2) / P
				if d := off - k*P; k >= 1 && d >= -eps && d <= eps {
					continue
				}
				if s.kind == "policy" && r.At.After(start.Add(P)) {
					continue // judged below
				}
				return say("request %d at %v is at no refresh time", i, off)
			}
		}
		// 3. retries
		if failing > 0 && len(reqs) > 0 {
			c.NonTrivial()
			switch s.kind {
			case "pubkey", "jwk":
				// every source of the component fails the first FailN attempts
				last := min(failing, len(reqs)-1)
				long := false
				for i := 1; i <= last; i++ {
					g := reqs[i].At.Sub(reqs[i-1].At)
					if g > R+eps {
						return say("attempt %d came %v after a failed one", i, g)
					}
					long = long || g > R-eps/2
				}
				if failing >= 2 && last >= 2 && !long {
					return say("no two attempts are a retry delay apart")
				}
				c.Label("%s retries", s.kind)
			case "policy":
				want := min(failing, attempts) + 1
				if len(reqs) < want {
					return say("%d attempts instead of %d", len(reqs), want)
				}
				for i := 1; i < want; i++ {
					if g := reqs[i].At.Sub(reqs[i-1].At); g > R+eps || g < R-eps {
						return say("attempt %d came %v after the previous one", i, g)
					}
				}
				if failing > attempts && len(reqs) > want {
					next := reqs[want].At.Sub(reqs[want-1].At)
					if P > time.Duration(attempts+2)*R+purge && ttl > 3*P && next < P/2 {
						// the attempts are used up: the cached policies serve until the next refresh
						return say("attempt %d, %v after the previous one, is one too many", want, next)
					}
				}
				c.Label("policy retries")
			}
		}
		// 4. conditional requests
		if failing == 0 && p.ETags {
			stored := tag0[s.url]
			for i, r := range reqs {
				switch s.kind {
				case "pubkey":
					fresh := r.At.Sub(stored) < etag
					if pp := orDefault(p.PkPurge, "84h"); !r.HasINM && fresh {
						if d := stored.Sub(start) % pp; d < eps || d > pp-eps {
							// a purge at the very instant of the refresh may remove the new entry for the old one
							stored = r.At
							break
						}
					}
					if r.HasINM != fresh {
						return say("request %d at %v: the ETag is %v old, If-None-Match sent: %v", i, r.At.Sub(start), r.At.Sub(stored), r.HasINM)
					}
					if fresh {
						c.Label("pubkey conditional")
					} else {
						stored = r.At
						c.NonTrivial()
						c.Label("pubkey ETag expired")
					}
				case "policy":
					if i > 0 && r.At.Sub(reqs[i-1].At) < eps || i+1 < len(reqs) && reqs[i+1].At.Sub(r.At) < eps {
						stored = time.Time{} // a refresh and a purge at once: either may be first
					}
					left := stored.Add(ttl).Sub(r.At) - margin
					if left > -eps && left < eps {
						stored = time.Time{}
					}
					if stored.IsZero() {
						break
					}
					if r.HasINM != (left > 0) {
						return say("request %d at %v: the document has %v left, If-None-Match sent: %v", i, r.At.Sub(start), stored.Add(ttl).Sub(r.At), r.HasINM)
					}
					if left > 0 {
						c.Label("policy conditional")
					} else {
						stored = r.At
						c.NonTrivial()
						c.Label("policy document near its expiry")
					}
				}
			}
		}
		if s.kind == "jwk" {
			for _, r := range reqs {
				if r.HasINM {
					return say("conditional request for a JWK set")
				}
			}
		}
		// 5. expired documents are replaced at the next purge
		if s.kind == "policy" && failing == 0 && p.Fail != "policy" && P < horizon && len(p.Doms) == 1 {
			last, exp := time.Time{}, tag0[s.url].Add(ttl)
			if !p.ETags {
				exp = start
			}
			for i, r := range reqs {
				onTick := false
				off := r.At.Sub(start)
				k := (off + P/2) / P
				if d := off - k*P; d >= -eps && d <= eps {
					onTick = true
				}
				if !onTick && (r.At.Before(exp.Add(-eps)) || r.At.After(exp.Add(purge+2*eps))) {
					return say("request %d at %v is at no refresh time and not within a purge period after the document's expiry at %v", i, off, exp.Sub(start))
				}
				if !last.IsZero() {
					if late := exp.Add(purge + 2*eps); exp.After(last) && r.At.After(late) {
						return say("the document that expired at %v was replaced only at %v", exp.Sub(start), off)
					}
				}
				if !onTick {
					c.Label("expired document replaced at a purge")
					c.NonTrivial()
				}
				if !r.HasINM {
					exp = r.At.Add(ttl)
				}
				last = r.At
			}
		}
	}
	return nil
}

func reqURLs(n *Net) string {
	var out []string
	for _, r := range n.requests() {
		out = append(out, r.URL)
	}
	return strings.Join(out, " ")
}

// probe asks a few things whose answers depend on the header and the prefixes.
func (p wirePlan) probe(c *Case, az authorizerd.Authorizerd, ctx context.Context) error {
	now := time.Now().Unix()
	const res = "x"
	for _, d := range append(append([]string(nil), p.Doms...), "elsewhere") {
		granted := !p.Policy || d != "elsewhere"
		if p.Pubkey {
			rt := RT{Domain: d, Principal: "user.a", KeyID: "t0", Roles: []string{"r0"}, Issued: now - 10, Expiry: now + 1000}
			tok := roleToken(rt.unsigned(), "ec1")
			hdr := p.Header
			if hdr == "-" {
				hdr = "Athenz-Role-Auth"
			}
			for _, h := range []string{hdr, "Athenz-Role-Auth", "X-Role", "Athenz-Principal-Auth"} {
				err := az.Verify(httpReq(ctx, "/", http.Header{h: {tok}}, nil, false), "read", res)
				if want := granted && h == hdr; (err == nil) != want {
					return failf("role token of domain %q in header %q (configured: %q), prefix %q, policies enabled %v: got %v", d, h, p.Header, p.Prefix, p.Policy, err)
				}
				c.Label("header probes")
			}
		}
		if p.Jwk {
			tok, _ := plainAT(d, "user.a", "client", []string{"r0"}, now+1000).build()
			err := az.VerifyAccessToken(ctx, tok, "read", res, nil)
			if err == nil {
				return failf("an access token without certificate was accepted although binding is the default")
			}
			a := plainAT(d, "user.a", "client", []string{"r0"}, now+1000)
			a.Claims["cnf"] = map[string]any{"x5t#S256": thumbprint(c19Certs[0].build())}
			tok, _ = a.build()
			if err := az.VerifyAccessToken(ctx, tok, "read", res, c19Certs[0].build()); (err == nil) != granted {
				return failf("bound access token of domain %q, prefix %q, policies enabled %v: got %v", d, p.Prefix, p.Policy, err)
			}
		}
		if p.Policy {
			pre := p.CertP
			if pre == "-" {
				pre = "athenz://role/"
			}
			for _, x := range []string{"athenz://role/", "spiffe://role/", "athenz://r/"} {
				crt := Cert{CN: "user.a", IssuerCN: "ca", URIs: []string{x + d + "/r0"}, NotBefore: T0 - 100}
				err := az.VerifyRoleCert(ctx, []*x509.Certificate{crt.build()}, "read", p.Prefix+res)
				if want := d != "elsewhere" && x == pre; (err == nil) != want {
					return failf("role certificate with URI %q, configured prefix %q: got %v", crt.URIs[0], p.CertP, err)
				}
			}
		}
	}
	return nil
}

func init() {
	register(Sub{Prop: "C27", Name: "validate", Quick: 20000, Thorough: 500000,
		Rule: "options for the authorizer, the public-key, policy and JWK daemons and the access-token processor, in any order, mostly with one unacceptable Athenz URL, duration, JWK URL or set of credential types; non-trivial: the configuration has to be refused"},
		genC27, runC27)
	register(Sub{Prop: "C27", Name: "wiring", Quick: 1500, Thorough: 37500,
		Rule: "authorizers with random URLs, system domain, domains, JWK URLs, enabled components, periods, delays, attempts, margins and prefixes (or defaults), run for two refresh periods of virtual time over recording servers, of which one kind may fail for a while; non-trivial: a retry, an expired ETag, a document near or past expiry was seen"},
		genWire, runWire)
}
