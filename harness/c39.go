package harness

import (
	"context"
	"crypto/x509"
	"fmt"
	"io"
	"net/http"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/kpango/glg"
	"pgregory.net/rapid"

	authorizerd "github.com/yahoojapan/athenz-authorizer/v5"
	"github.com/yahoojapan/athenz-authorizer/v5/client"
	"github.com/yahoojapan/athenz-authorizer/v5/jwk"
	"github.com/yahoojapan/athenz-authorizer/v5/policy"
	"github.com/yahoojapan/athenz-authorizer/v5/pubkey"
)

// C39: concurrent use is free of data races. The cases run on the real clock in a
// binary built with the race detector, which ends the process at the first report;
// tools/check.py attributes the report by its stacks.

type rcOp struct {
	Kind string `json:"k"`
	I    int    `json:"i"`
	N    int    `json:"n"` // repetitions
}

type rcPlan struct {
	Vers   [2][]Doc             `json:"vers"`   // two versions of every document
	Rings  [2]map[string]string `json:"rings"`  // ZTS keys other than t0
	Cache  int                  `json:"cache"`  // ms
	Period int                  `json:"period"` // ms
	Purge  int                  `json:"purge"`
	ETags  bool                 `json:"etags"`
	Faults int                  `json:"faults"` // every n-th answer fails
	Start  bool                 `json:"start"`
	Map    bool                 `json:"map"`
	NoPol  bool                 `json:"nopol"`
	Bound  bool                 `json:"bound"`
	Client bool                 `json:"client"` // client ids are verified
	Two    bool                 `json:"two"`
	Work   [][]rcOp             `json:"work"`
	Rounds int                  `json:"rounds"`
	Stop   int                  `json:"stop"` // the authorizer is stopped in this round, -1: after the work
	Procs  int                  `json:"procs"`
	Logs   bool                 `json:"logs"` // the same in all cases of a process
}

var rcKinds = []string{"auth", "auth", "auth", "auth", "role", "role", "token", "token", "cert", "cache", "swap", "swap", "init", "cancelled", "bad", "yield"}

func genRc(t *rapid.T) rcPlan {
	p := rcPlan{Cache: pick(t, "cache", 4, 20, 60000), Period: pick(t, "period", 2, 4, 10), Purge: pick(t, "purge", 3, 10, 60000),
		ETags: rapid.Bool().Draw(t, "etags"), Faults: pick(t, "faults", 0, 0, 3, 7), Start: !oneIn(t, "nostart", 4), Map: rapid.Bool().Draw(t, "map"),
		NoPol: oneIn(t, "nopol", 8), Bound: rapid.Bool().Draw(t, "bound"), Client: oneIn(t, "client", 3), Two: oneIn(t, "two", 3), Rounds: intIn(t, "rounds", 2, 6), Stop: -1, Procs: pick(t, "procs", 2, 4, 8)}
	if p.Start && oneIn(t, "stops", 3) {
		p.Stop = intIn(t, "stop", 0, p.Rounds-1)
	}
	p.Logs = envInt("VERIF_SHARD", 0)%2 == 1
	n := pick(t, "roles", 1, 3, 12)
	for v := range p.Vers {
		for _, dom := range []string{"dom", "dim"} {
			d := Doc{Domain: dom, Tag: v}
			for i := 0; i < n; i++ {
				var pol Pol
				if oneIn(t, "absent", 4) {
					continue
				}
				pol = append(pol, Asn{dom + ":role.r" + itoa(i), pick(t, "act", "read", "*", "re?d"), dom + ":" + pick(t, "res", "/x", "/*", "/y"), genEffect(t, "eff")})
				if oneIn(t, "more", 3) {
					pol = append(pol, Asn{dom + ":role.r" + itoa(i), "read", dom + ":/x", "allow"})
				}
				d.Pols = append(d.Pols, pol)
			}
			p.Vers[v] = append(p.Vers[v], d)
		}
		p.Rings[v] = map[string]string{}
		for _, id := range []string{"t1", "t2"} {
			if rapid.Bool().Draw(t, "published") {
				p.Rings[v][id] = pick(t, "key", "ec2", "rsa1", "ec3")
			}
		}
	}
	for w, k := 0, intIn(t, "workers", 2, 6); w < k; w++ {
		var ops []rcOp
		for j, m := 0, intIn(t, "ops", 1, 6); j < m; j++ {
			ops = append(ops, rcOp{Kind: pick(t, "kind", rcKinds...), I: intIn(t, "i", 0, 5), N: intIn(t, "n", 1, 4)})
		}
		p.Work = append(p.Work, ops)
	}
	return p
}

// rcServers answers from one of two prepared versions of everything, with no lock
// that would order the requests of different updaters.
type rcServers struct {
	cur     atomic.Int32
	seq     atomic.Int32
	served  atomic.Int32
	failing atomic.Bool
	faults  int
	etags   bool
	bodies  map[string][2][]byte
}

func (s *rcServers) RoundTrip(r *http.Request) (*http.Response, error) {
	if err := r.Context().Err(); err != nil {
		return nil, err
	}
	b, ok := s.bodies[r.URL.String()]
	v := s.cur.Load()
	n := int(s.seq.Add(1))
	res := &Resp{Status: 200, Body: b[v], Header: map[string]string{}}
	switch {
	case !ok:
		res = &Resp{Status: 404}
	case s.faults > 0 && n%s.faults == 0 && s.failing.Load():
		switch n / s.faults % 4 {
		case 0:
			return nil, &netErr{msg: "refused", temp: true}
		case 1:
			res = &Resp{Status: 500}
		case 2:
			res.Body = []byte("{")
		default:
			res.BodyErr, res.CutAt = true, len(res.Body)/2
		}
	case s.etags:
		tag := fmt.Sprintf("\"v%d\"", v)
		res.Header["ETag"] = tag
		if r.Header.Get("If-None-Match") == tag {
			res = &Resp{Status: 304, Header: map[string]string{"ETag": tag}}
		} else {
			s.served.Add(1)
		}
	default:
		s.served.Add(1)
	}
	return newNet().response(r, res), nil
}

func rcWorld(p rcPlan) *rcServers {
	s := &rcServers{faults: p.Faults, etags: p.ETags, bodies: map[string][2][]byte{}}
	both := func(u string, f func(v int) []byte) { s.bodies[u] = [2][]byte{f(0), f(1)} }
	both(serviceURL("sys.auth", "zms"), func(v int) []byte {
		m := map[string]string{"m0": "ec0"}
		if v == 1 {
			m["m1"] = "rsa0"
		}
		return pubkeyBody("zms", m)
	})
	both(serviceURL("sys.auth", "zts"), func(v int) []byte {
		m := map[string]string{"t0": "ec1"}
		for id, k := range p.Rings[v] {
			m[id] = k
		}
		return pubkeyBody("zts", m)
	})
	both(athenzJwksURL(), func(v int) []byte {
		m := map[string]string{"j0": "rsa1"}
		for id, k := range p.Rings[v] {
			m[id] = k
		}
		return jwksBody(m)
	})
	both(rcURL2, func(v int) []byte { return jwksBody(map[string]string{"k" + itoa(v): "ec" + itoa(2+v)}) })
	for i, d := range p.Vers[0] {
		both(policyURL(d.Domain), func(v int) []byte { return docBody(p.Vers[v][i]) })
	}
	return s
}

const rcURL2 = "https://other.test/keys"

func ms(n int) string { return itoa(n) + "ms" }

var rcLogs sync.Once

// logs turns every log level on, for the rest of the process: what is logged is
// read too, but the logger's own locks hide some races.
func (p rcPlan) logs() {
	if p.Logs {
		rcLogs.Do(func() { glg.Get().InitWriter().SetWriter(io.Discard).SetMode(glg.WRITER) })
	}
}

func runRc(c *Case, p rcPlan) error {
	p.logs()
	old := runtime.GOMAXPROCS(p.Procs)
	defer runtime.GOMAXPROCS(old)
	srv := rcWorld(p)
	hc := &http.Client{Transport: srv}
	opts := []authorizerd.Option{
		authorizerd.WithAthenzURL(ztsURL), authorizerd.WithHTTPClient(hc), authorizerd.WithAthenzDomains("dom", "dim"),
		authorizerd.WithJwkURLs([]string{rcURL2}),
		authorizerd.WithCacheExp(time.Duration(p.Cache) * time.Millisecond),
		authorizerd.WithPubkeyRefreshPeriod(ms(p.Period)), authorizerd.WithPubkeyRetryDelay(ms(1)), authorizerd.WithPubkeyETagExpiry(ms(p.Purge * 3)), authorizerd.WithPubkeyETagPurgePeriod(ms(p.Purge)),
		authorizerd.WithPolicyRefreshPeriod(ms(p.Period)), authorizerd.WithPolicyRetryDelay(ms(1)), authorizerd.WithPolicyPurgePeriod(ms(p.Purge)),
		authorizerd.WithJwkRefreshPeriod(ms(p.Period)), authorizerd.WithJwkRetryDelay(ms(1)),
		authorizerd.WithAccessTokenParam(authorizerd.NewAccessTokenParam(true, p.Bound, "1h", "1h", p.Client, map[string][]string{"user.alice": {"user.u0", "user.u1", "user.u2"}})),
		authorizerd.WithEnableRoleCert(),
	}
	if p.Map {
		opts = append(opts, authorizerd.WithTranslator(lib(authorizerd.NewMappingRules(map[string][]authorizerd.Rule{
			"dom": {{Method: "GET", Path: "/p/{n}?q={m}", Action: "read", Resource: "/{n}"}, {Method: "GET", Path: "/x", Action: "read", Resource: "/x"}}}))))
	}
	if p.NoPol {
		opts = append(opts, authorizerd.WithDisablePolicyd())
	}
	azs := []authorizerd.Authorizerd{lib(authorizerd.New(opts...))}
	if p.Two {
		azs = append(azs, lib(authorizerd.New(opts...)))
	}
	ctx, stop := context.WithCancel(context.Background())
	defer stop()
	for _, az := range azs {
		if err := az.Init(ctx); err != nil {
			return failf("initialisation over healthy sources failed: %v", err)
		}
	}
	srv.failing.Store(true)
	run, halt := context.WithCancel(ctx)
	defer halt()
	var drain sync.WaitGroup
	if p.Start {
		for _, az := range azs {
			ech := az.Start(run)
			drain.Add(1)
			go func() {
				defer drain.Done()
				for range ech {
				}
			}()
		}
	}
	// the credentials, made before the work so that nothing here orders the workers
	now := time.Now().Unix()
	roles := []string{"r0", "r1"}
	crt := Cert{CN: "user.alice", IssuerCN: "ca", NotBefore: now - 100, Serial: 1, URIs: []string{"athenz://role/dom/r0", "athenz://role/dom/r2"}}.build()
	certs := []*x509.Certificate{crt}
	rts, ats := []string{}, []string{}
	for i := 0; i < 3; i++ {
		rts = append(rts, roleToken(RT{Domain: "dom", Principal: "user.u" + itoa(i), KeyID: "t0", Roles: roles[:1+i%2], Issued: now - 10, Expiry: now + 600}.unsigned(), "ec1"))
		claims := map[string]any{"sub": "user.u" + itoa(i), "client_id": "user.u" + itoa(i), "aud": "dom", "iss": "https://zts", "scp": roles[:1+i%2], "iat": now - 10, "exp": now + 600}
		if p.Bound {
			claims["cnf"] = map[string]any{"x5t#S256": thumbprint(crt)}
		}
		ats = append(ats, jwtSign(must(jsonBytes(map[string]any{"alg": "RS256", "kid": "j0", "typ": "at+jwt"})), must(jsonBytes(claims)), "RS256", "rsa1"))
	}
	// with other keys: valid in some versions only
	rts = append(rts, roleToken(RT{Domain: "dom", Principal: "user.k", KeyID: "t1", Roles: roles, Issued: now - 10, Expiry: now + 600}.unsigned(), "ec2"))
	var granted, other atomic.Int32
	use := func(pr authorizerd.Principal, err error) {
		if err != nil || pr == nil {
			other.Add(1)
			return
		}
		granted.Add(1)
		_ = viewOf(pr).String()
	}
	one := func(op rcOp, seq int) {
		az := azs[op.I%len(azs)]
		octx := context.Background()
		switch op.Kind {
		case "auth":
			h := http.Header{}
			target := "/x"
			switch op.I {
			case 0, 1, 2:
				h.Set("Athenz-Role-Auth", rts[op.I])
			case 3:
				h.Set("Authorization", "Bearer "+ats[seq%3])
			case 4:
				h.Set("Athenz-Role-Auth", rts[3])
				target = "/p/x?q=" + itoa(seq%3)
			default:
				h.Set("Authorization", "Bearer "+ats[0])
				h.Set("Athenz-Role-Auth", "v=Z1;bad")
			}
			r := httpReq(octx, target, h, certs, true)
			act := "read"
			if p.Map {
				act = "GET"
			}
			if seq%4 == 3 {
				if az.Verify(r, act, target) == nil {
					granted.Add(1)
				}
				return
			}
			use(az.Authorize(r, act, target))
		case "role":
			use(az.AuthorizeRoleToken(octx, rts[op.I%4], pick2(seq, "read", "write"), "/x"))
		case "token":
			use(az.AuthorizeAccessToken(octx, ats[op.I%3], "read", pick2(seq, "/x", "/y"), crt))
		case "cert":
			if az.VerifyRoleCert(octx, certs, "read", "/x") == nil {
				granted.Add(1)
			}
		case "cancelled":
			cctx, cancel := context.WithCancel(octx)
			go cancel()
			use(az.AuthorizeRoleToken(cctx, rts[op.I%4], "read", "/x"+itoa(seq)))
		case "bad":
			use(az.AuthorizeRoleToken(octx, rts[op.I%4]+"x", "read", "/x"))
			use(az.AuthorizeAccessToken(octx, ats[op.I%3]+"x", "read", "/x", nil))
		case "cache":
			if !p.NoPol {
				_ = jsonText(az.GetPolicyCache(octx))
			}
		case "swap":
			srv.cur.Store(1 - srv.cur.Load())
		case "init":
			if err := az.Init(octx); err != nil {
				other.Add(1)
			}
		case "yield":
			time.Sleep(time.Duration(op.I*300) * time.Microsecond)
		}
	}
	for r := 0; r < p.Rounds; r++ {
		var wg sync.WaitGroup
		begin := make(chan struct{})
		for w := range p.Work {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-begin
				for j, op := range p.Work[w] {
					for k := 0; k < op.N; k++ {
						one(op, r*1000+j*10+k)
					}
				}
			}()
		}
		if p.Stop == r {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-begin
				time.Sleep(time.Duration(p.Period) * 500 * time.Microsecond)
				halt()
			}()
		}
		close(begin)
		wg.Wait()
	}
	halt()
	drain.Wait()
	if granted.Load() > 1 && srv.served.Load() > 5 {
		c.NonTrivial()
		c.Label("sources fetched again while requests were authorized")
	}
	if p.Stop >= 0 {
		c.Label("stopped while in use")
	}
	if p.Start {
		c.Label("with background updates")
	}
	if p.Two {
		c.Label("two authorizers")
	}
	return nil
}

func pick2(n int, a, b string) string {
	if n%5 == 4 {
		return b
	}
	return a
}

// ---- the components by themselves ----

type rpPlan struct {
	W      rcPlan `json:"w"`
	Read   int    `json:"read"`  // readers
	Write  int    `json:"write"` // concurrent updates
	Rounds int    `json:"rounds"`
	Daemon bool   `json:"daemon"`
}

func genRp(t *rapid.T) rpPlan {
	return rpPlan{W: genRc(t), Read: intIn(t, "read", 1, 4), Write: intIn(t, "write", 1, 3), Rounds: intIn(t, "rounds2", 1, 5), Daemon: rapid.Bool().Draw(t, "daemon")}
}

func runRp(c *Case, p rpPlan) error {
	p.W.logs()
	old := runtime.GOMAXPROCS(p.W.Procs)
	defer runtime.GOMAXPROCS(old)
	srv := rcWorld(p.W)
	// all components share one client whose transport retries
	hc := &http.Client{Transport: lib(client.NewExponentialRoundTripper(srv, 100, 3, 5*time.Millisecond))}
	pk := lib(pubkey.New(pubkey.WithAthenzURL(ztsURL), pubkey.WithHTTPClient(hc), pubkey.WithRefreshPeriod(ms(p.W.Period)), pubkey.WithRetryDelay("1ms"), pubkey.WithETagExpiry(ms(p.W.Purge*3)), pubkey.WithETagPurgePeriod(ms(p.W.Purge))))
	jd := lib(jwk.New(jwk.WithAthenzJwksURL(ztsURL), jwk.WithURLs([]string{rcURL2}), jwk.WithHTTPClient(hc), jwk.WithRefreshPeriod(ms(p.W.Period)), jwk.WithRetryDelay("1ms")))
	pd := lib(policy.New(policy.WithAthenzURL(ztsURL), policy.WithAthenzDomains("dom", "dim"), policy.WithHTTPClient(hc), policy.WithPubKeyProvider(pk.GetProvider()), policy.WithRefreshPeriod(ms(p.W.Period)), policy.WithRetryDelay("1ms"), policy.WithPurgePeriod(ms(p.W.Purge))))
	ctx, stop := context.WithCancel(context.Background())
	defer stop()
	for _, f := range []func(context.Context) error{pk.Update, jd.Update, pd.Update} {
		if err := f(ctx); err != nil {
			return failf("the first update over healthy sources failed: %v", err)
		}
	}
	var drain sync.WaitGroup
	srv.failing.Store(true)
	run, halt := context.WithCancel(ctx)
	defer halt()
	if p.Daemon {
		for _, ch := range []<-chan error{pk.Start(run), jd.Start(run), pd.Start(run)} {
			drain.Add(1)
			go func() {
				defer drain.Done()
				for range ch {
				}
			}()
		}
	}
	kp, prov := pk.GetProvider(), jd.GetProvider()
	var hits atomic.Int32
	for r := 0; r < p.Rounds; r++ {
		var wg sync.WaitGroup
		for i := 0; i < p.Read; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < 20; k++ {
					if kp(pubkey.EnvZTS, pick2(k, "t0", "t1")) != nil && prov(pick2(k, "j0", "t1"), "") != nil && prov("k"+itoa(k%2), rcURL2) != nil {
						hits.Add(1)
					}
					rs, err := pd.CheckPolicyRoles(ctx, "dom", []string{"r0", "r1"}, "read", "/x")
					if err == nil && len(rs) > 0 {
						hits.Add(1)
					}
					if k%10 == 5 {
						_ = jsonText(pd.GetPolicyCache(ctx))
					}
				}
			}()
		}
		for i := 0; i < p.Write; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				srv.cur.Store(int32((r + i) % 2))
				_ = pk.Update(ctx)
				_ = pd.Update(ctx)
				_ = jd.Update(ctx)
			}()
		}
		wg.Wait()
	}
	halt()
	drain.Wait()
	if hits.Load() > 0 {
		c.NonTrivial()
	}
	if p.Write > 1 {
		c.Label("concurrent updates")
	}
	return nil
}

func init() {
	register(Sub{Prop: "C39", Name: "authorizer", Quick: 400, Thorough: 10000, NoBubble: true, Race: true,
		Rule: "2 to 6 goroutines work on one or two authorizers at once (requests with role tokens, access tokens bound to certificates and bad credentials, policy dumps, repeated initialisation, cancelled calls, sources that switch between two versions and fail) while the background updates run every few milliseconds and, in a third of the cases, the authorizer is stopped meanwhile; the race detector watches every memory access; non-trivial if requests were granted and sources were fetched again"}, genRc, runRc)
	register(Sub{Prop: "C39", Name: "parts", Quick: 400, Thorough: 10000, NoBubble: true, Race: true,
		Rule: "readers and 1 to 3 concurrent updates of the three daemons, all over one retrying transport, with or without their background updates; non-trivial if a reader got a key or a decision"}, genRp, runRp)
}
