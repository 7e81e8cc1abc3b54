package harness

import (
	"context"
	"net/http"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"

	authorizerd "github.com/yahoojapan/athenz-authorizer/v5"
)

// C30: initialisation.

// srcPlan says how one source answers in one initialisation.
type srcPlan struct {
	Delay int    `json:"delay,omitempty"` // milliseconds per response
	Fault string `json:"fault,omitempty"`
	N     int    `json:"n,omitempty"` // policies: how many attempts meet the fault
}

type initPhase struct {
	Src    map[string]srcPlan `json:"src"`              // zms, zts, pol:<domain>, jwk:<url>
	Cancel int                `json:"cancel"`           // milliseconds after the start; -1 never, 0 before it
	Rotate bool               `json:"rotate,omitempty"` // from here on other keys sign and are published
	Wait   int                `json:"wait,omitempty"`   // seconds before it
}

type initPlan struct {
	Doms     []string    `json:"doms"`
	Jwks     []string    `json:"jwks"`
	Policy   bool        `json:"policy"`
	Pubkey   bool        `json:"pubkey"`
	Jwk      bool        `json:"jwkd"`
	Role     bool        `json:"role"`
	Attempts int         `json:"attempts"`
	Retry    int         `json:"retry"` // milliseconds
	Phases   []initPhase `json:"phases"`
}

var keyFaults = []string{"500", "404", "err", "cut", "garbage", "304", "null", "badkey", "otherkeys", "otherkeys", "noid"}
var polFaults = []string{"500", "404", "err", "cut", "garbage", "304", "null", "expired", "ztssig", "zmssig", "keyid", "altered"}
var jwkFaults = []string{"500", "404", "err", "cut", "garbage", "204"}

func genInit(t *rapid.T) initPlan {
	p := initPlan{Policy: true, Pubkey: true, Jwk: true, Role: true, Attempts: intIn(t, "attempts", 1, 3), Retry: pick(t, "retry", 1000, 100, 3000)}
	switch intIn(t, "disabled", 0, 9) {
	case 0:
		p.Policy = false
	case 1:
		p.Jwk = false
	case 2:
		p.Policy, p.Role, p.Pubkey = false, false, false
	case 3:
		p.Policy, p.Jwk = false, false
	case 4:
		p.Role = false
	case 5:
		p.Policy, p.Role, p.Pubkey, p.Jwk = false, false, false, false
	}
	p.Doms = shuffled(t, "doms", []string{"dom", "dom2", "a.b"})[:intIn(t, "ndoms", 0, 3)]
	p.Jwks = shuffled(t, "jwks", []string{"https://keys.test/a", "http://keys.test/b"})[:intIn(t, "njwks", 0, 2)]
	for i, n := 0, intIn(t, "nphase", 1, 3); i < n; i++ {
		ph := initPhase{Src: map[string]srcPlan{}, Cancel: -1}
		faulty := pick(t, "faulty", 0, 0, 1, 1, 2, 4) // expected number of faulty sources
		names := p.sources()
		for _, s := range names {
			var sp srcPlan
			if oneIn(t, "delayed", 2) {
				sp.Delay = pick(t, "delay", 1, 13, 130, 1300, 7000)
			}
			if faulty > 0 && oneIn(t, "fault", max(1, len(names)/faulty)) {
				switch {
				case strings.HasPrefix(s, "pol:"):
					if i == 0 {
						sp.Fault, sp.N = pick(t, "pf", polFaults...), intIn(t, "n", 1, p.Attempts+2)
					}
				case strings.HasPrefix(s, "jwk:"):
					sp.Fault = pick(t, "jf", jwkFaults...)
				default:
					sp.Fault = pick(t, "kf", keyFaults...)
					if i > 0 && (sp.Fault == "otherkeys" || sp.Fault == "noid") {
						sp.Fault = "500"
					}
				}
			}
			if sp != (srcPlan{}) {
				ph.Src[s] = sp
			}
		}
		if oneIn(t, "cancel", 5) {
			ph.Cancel = pick(t, "at", 0, 1, 7, 100, 500, 2000, 9000)
		}
		ph.Rotate = i > 0 && oneIn(t, "rotate", 2)
		if i > 0 {
			ph.Wait = pick(t, "wait", 0, 1, 100)
		}
		p.Phases = append(p.Phases, ph)
	}
	return p
}

func (p initPlan) sources() (out []string) {
	if p.Pubkey {
		out = append(out, "zms", "zts")
	}
	if p.Policy {
		for _, d := range p.Doms {
			out = append(out, "pol:"+d)
		}
	}
	if p.Jwk {
		out = append(out, "jwk:"+athenzJwksURL())
		for _, u := range p.Jwks {
			out = append(out, "jwk:"+u)
		}
	}
	return out
}

// expect says whether the phase initialises everything, and when the last source is obtained if all are asked at once
// (lo) and if they are asked one after the other (hi).
func (p initPlan) expect(ph initPhase, first bool) (ok bool, lo, hi time.Duration, why string) {
	ok = true
	no := func(s string) {
		ok = false
		if why != "" {
			why += ", "
		}
		why += s
	}
	ms := func(n int) time.Duration { return time.Duration(n) * time.Millisecond }
	if p.Pubkey {
		unusable := ""
		for _, e := range []string{"zms", "zts"} {
			s := ph.Src[e]
			lo = max(lo, ms(s.Delay))
			hi += ms(s.Delay)
			switch s.Fault {
			case "":
			case "otherkeys", "noid":
				unusable = e // obtained, but of no use for the documents
			default:
				no(e + " keys " + s.Fault)
			}
		}
		if unusable != "" && p.Policy && len(p.Doms) > 0 {
			no("the " + unusable + " keys do not verify the policies")
		}
	}
	if p.Policy {
		for _, d := range p.Doms {
			s := ph.Src["pol:"+d]
			n := 0
			if s.Fault != "" {
				n = s.N
			}
			if n > p.Attempts {
				no("policies of " + d + " " + s.Fault)
				n = p.Attempts
			}
			took := ms((n+1)*s.Delay + n*p.Retry)
			lo = max(lo, took)
			hi += took
		}
	}
	if p.Jwk {
		for _, u := range append([]string{athenzJwksURL()}, p.Jwks...) {
			s := ph.Src["jwk:"+u]
			lo = max(lo, ms(s.Delay))
			hi += ms(s.Delay)
			if s.Fault != "" {
				no("JWK set " + u + " " + s.Fault)
			}
		}
	}
	return ok, lo, hi, why
}

func runInit(c *Case, p initPlan) error {
	n := newNet()
	ctx, stop := context.WithCancel(context.Background())
	defer stop()
	rev := 0 // which keys are in use
	zms := func() string { return []string{"ec0", "ec4", "ec5"}[rev] }
	zts := func() string { return []string{"ec1", "ec6", "rsa0"}[rev] }
	jk := func() string { return []string{"ec1", "ec2", "p384"}[rev] }
	alg := func() string { return []string{"ES256", "ES256", "ES384"}[rev] }
	docOf := func(d string) Doc {
		return Doc{Domain: d, Tag: rev, Pols: []Pol{{Asn{d + ":role.r" + itoa(rev), "read", d + ":x", "allow"}}}}
	}
	sig := func() signing { return signing{zms(), "m" + itoa(rev), zts(), "t" + itoa(rev)} }
	var mu sync.Mutex
	var ph initPhase
	seen := map[string]int{}
	var keysAt []time.Duration // when key lists were answered
	var problem error
	var t0 time.Time
	answer := func(name string, good func() []byte, bad func(fault string) []byte) {
		u := ""
		switch kind, arg, _ := strings.Cut(name, ":"); kind {
		case "pol":
			u = policyURL(arg)
		case "jwk":
			u = arg
		default:
			u = serviceURL("sys.auth", name)
		}
		n.handle(u, func(r *http.Request) *Resp {
			mu.Lock()
			defer mu.Unlock()
			seen[name]++
			if strings.HasPrefix(name, "pol:") && p.Pubkey && len(keysAt) < 2 && problem == nil {
				problem = failf("%s was requested %v after the start, before the public keys of both services were there", name, time.Since(t0))
			}
			s := ph.Src[name]
			res := &Resp{Status: 200, Delay: time.Duration(s.Delay) * time.Millisecond}
			if s.Fault == "" || s.N > 0 && seen[name] > s.N {
				res.Body = good()
			} else {
				switch s.Fault {
				case "500":
					res.Status, res.Body = 500, good()
				case "404":
					res.Status, res.Body = 404, []byte(`{}`)
				case "204":
					res.Status = 204
				case "304":
					res.Status = 304
				case "err":
					res.Err = &netErr{msg: "connection refused"}
				case "cut":
					res.Body = good()
					res.BodyErr, res.CutAt = true, len(res.Body)/2
				case "garbage":
					res.Body = []byte("<html>proxy</html>")
				case "null":
					res.Body = []byte("null")
				default:
					res.Body = bad(s.Fault)
				}
			}
			if name == "zms" || name == "zts" {
				keysAt = append(keysAt, time.Since(t0)+res.Delay)
			}
			return res
		})
	}
	for _, e := range []string{"zms", "zts"} {
		list := func() map[string]string {
			if e == "zms" {
				return map[string]string{"m" + itoa(rev): zms(), "old": "ec7"}
			}
			return map[string]string{"t" + itoa(rev): zts(), "old": "ec7"}
		}
		answer(e, func() []byte { return pubkeyBody(e, list()) }, func(f string) []byte {
			l := list()
			if f == "badkey" {
				return pkBody(pkList{Keys: l}, "der")
			}
			for id := range l {
				l[id] = "rsa2"
				if f == "noid" {
					delete(l, id)
				}
			}
			return pubkeyBody(e, l)
		})
	}
	for _, d := range append(append([]string(nil), p.Doms...), "stranger") {
		answer("pol:"+d, func() []byte { return must(jsonBytes(signDoc(docOf(d), time.Now().Add(time.Hour*200), sig()))) }, func(f string) []byte {
			s, doc, exp := sig(), docOf(d), time.Now().Add(200*time.Hour)
			switch f {
			case "expired":
				exp = time.Now().Add(-time.Minute)
			case "ztssig":
				s.ZTSKey = "ec3"
			case "zmssig":
				s.ZMSKey = "ec3"
			case "keyid":
				s.ZTSID = "nosuch"
			}
			sp := signDoc(doc, exp, s)
			if f == "altered" {
				sp.SignedPolicyData.PolicyData.Policies[0].Assertions[0].Effect = "deny"
			}
			return must(jsonBytes(sp))
		})
	}
	for _, u := range append([]string{athenzJwksURL()}, p.Jwks...) {
		answer("jwk:"+u, func() []byte { return jwksBody(map[string]string{"k" + itoa(rev): jk()}) }, nil)
	}
	opts := []authorizerd.Option{authorizerd.WithAthenzURL(ztsURL), authorizerd.WithHTTPClient(n.client()), authorizerd.WithAthenzDomains(p.Doms...), authorizerd.WithJwkURLs(p.Jwks),
		authorizerd.WithPolicyRetryDelay((time.Duration(p.Retry) * time.Millisecond).String()), authorizerd.WithPolicyRetryAttempts(p.Attempts), authorizerd.WithCacheExp(time.Millisecond),
		authorizerd.WithAccessTokenParam(authorizerd.NewAccessTokenParam(p.Jwk, false, "", "", false, nil))}
	if !p.Policy {
		opts = append(opts, authorizerd.WithDisablePolicyd())
	}
	if !p.Pubkey {
		opts = append(opts, authorizerd.WithDisablePubkeyd())
	}
	if !p.Jwk {
		opts = append(opts, authorizerd.WithDisableJwkd())
	}
	if !p.Role {
		opts = append(opts, authorizerd.WithDisableRoleToken())
	}
	az := lib(authorizerd.New(opts...))
	on := map[string]bool{}
	for _, s := range p.sources() {
		on[s] = true
	}
	half()
	loaded := false // an earlier initialisation loaded everything
	for i := range p.Phases {
		time.Sleep(time.Duration(p.Phases[i].Wait) * time.Second)
		mu.Lock()
		ph = p.Phases[i]
		if ph.Rotate {
			rev = (rev + 1) % 3
		}
		seen, keysAt, t0 = map[string]int{}, nil, time.Now()
		mu.Unlock()
		ictx, cancel := context.WithCancel(ctx)
		ok, lo, hi, why := p.expect(ph, i == 0)
		open, either := false, false
		if ph.Cancel >= 0 {
			tc := time.Duration(ph.Cancel)*time.Millisecond + 500*time.Microsecond
			if ph.Cancel == 0 {
				cancel()
				ok, why = false, "the context is cancelled"
			} else {
				time.AfterFunc(tc, cancel)
				if tc < lo {
					ok, why = false, "the context is cancelled before everything is there"
				}
				either = ok && tc < hi // the order in which sources are asked is open
			}
			// without cached documents of an earlier phase the rule is strict; with them, policies count as there
			open = i > 0 && ph.Cancel > 0 && p.Policy
		}
		err := az.Init(ictx)
		took := time.Since(t0)
		say := func(f string, a ...any) error {
			return failf("initialisation %d (%s; enabled: pubkey %v policy %v jwk %v; domains %q JWK URLs %q): %v", i, jsonText(ph), p.Pubkey, p.Policy, p.Jwk, p.Doms, p.Jwks, failf(f, a...))
		}
		if problem != nil {
			return say("%v", problem)
		}
		mu.Lock()
		for s := range seen {
			if !on[s] {
				mu.Unlock()
				return say("%s was contacted", s)
			}
		}
		mu.Unlock()
		for _, r := range n.requests() {
			if strings.Contains(r.URL, "stranger") {
				return say("contacted %s", r.URL)
			}
		}
		switch {
		case open:
			c.Label("cancelled with earlier documents: open")
		case either && err != nil:
			c.Label("cancelled in between")
		case ok && err != nil:
			return say("failed although everything could be obtained: %v", err)
		case !ok && err == nil:
			return say("succeeded although: %s", why)
		case err != nil:
			c.Label("refused")
			c.NonTrivial()
			if len(ph.Src) > 0 && ph.Cancel < 0 {
				c.Label("faults: %d", strings.Count(why, ",")+1)
			}
		default:
			c.Label("initialised")
			if took > hi+time.Second && !loaded {
				c.Label("slower than the model")
			}
		}
		if err == nil && !open {
			loaded = true
			if e := p.probes(c, az, ctx, rev, zts(), jk(), alg(), ph); e != nil {
				return say("after success: %v", e)
			}
			if len(ph.Src) > 1 {
				c.NonTrivial()
			}
		}
		cancel()
	}
	return nil
}

// probes checks that the freshly loaded keys and policies decide.
func (p initPlan) probes(c *Case, az authorizerd.Authorizerd, ctx context.Context, rev int, ztsKey, jwkKey, alg string, ph initPhase) error {
	now := time.Now().Unix()
	for _, d := range append(append([]string(nil), p.Doms...), "stranger") {
		for _, role := range []string{"r0", "r1", "r2"} {
			want := !p.Policy || d != "stranger" && role == "r"+itoa(rev)
			if p.Role && ph.Src["zts"].Fault == "" {
				rt := RT{Domain: d, Principal: "u", KeyID: "t" + itoa(rev), Roles: []string{role}, Issued: now - 5, Expiry: now + 100}
				_, err := az.AuthorizeRoleToken(ctx, roleToken(rt.unsigned(), ztsKey), "read", "x")
				if (err == nil) != want {
					return failf("role token of %s with role %s: got %v", d, role, err)
				}
				if _, err := az.AuthorizeRoleToken(ctx, roleToken(rt.unsigned(), "ec3"), "read", "x"); err == nil {
					return failf("a role token signed by a stranger is accepted")
				}
			}
			if p.Jwk {
				for _, u := range append([]string{""}, p.Jwks...) {
					a := plainAT(d, "u", "c", []string{role}, now+100)
					a.Header["kid"], a.Key, a.Alg, a.Header["alg"] = "k"+itoa(rev), jwkKey, alg, alg
					if u != "" {
						a.Header["jku"] = u
					}
					a.Claims["iat"] = now - 5
					tok, _ := a.build()
					_, err := az.AuthorizeAccessToken(ctx, tok, "read", "x", nil)
					if (err == nil) != want {
						return failf("access token of %s with role %s and jku %q: got %v", d, role, u, err)
					}
				}
			}
			if p.Policy {
				crt := c19Certs[0]
				crt.CN = d + ":role." + role
				err := az.VerifyRoleCert(ctx, certChain(crt), "read", "x")
				if (err == nil) != want {
					return failf("role certificate of %s with role %s: got %v", d, role, err)
				}
			}
		}
	}
	if p.Policy {
		pc := az.GetPolicyCache(ctx)
		for _, d := range p.Doms {
			if _, ok := pc[d+":role.r"+itoa(rev)]; !ok {
				return failf("the policy cache lacks %s", d)
			}
		}
	}
	c.Label("probed")
	return nil
}

func init() {
	register(Sub{Prop: "C30", Name: "init", Quick: 14000, Thorough: 350000,
		Rule: "one to three initialisations of an authorizer with random domains, JWK URLs and enabled components over sources that each answer with their own delay and possibly a fault, with key rotation between them and cancellation at chosen times; non-trivial: the initialisation has to fail, or succeeds over several slow or partly failing sources"},
		genInit, runInit)
}
