package harness

import (
	"net/http"
	"sort"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"

	authorizerd "github.com/yahoojapan/athenz-authorizer/v5"
)

// C37: a running authorizer follows what is published.

type c37Timing struct {
	Period int `json:"period"` // milliseconds, 0 is the library's default
	Retry  int `json:"retry"`
}

type c37Op struct {
	Adv  int      `json:"adv,omitempty"` // milliseconds to wait first
	Kind string   `json:"k"`             // publish, down, up, check
	Src  string   `json:"src,omitempty"`
	V    c37State `json:"v,omitempty"`
	How  string   `json:"how,omitempty"` // of an outage
}

// c37State is the content of a source from some instant on.
type c37State struct {
	Grants []int  `json:"g,omitempty"`   // policies: per role and action 0 nothing, 1 allow, 2 deny
	TTL    int    `json:"ttl,omitempty"` // seconds, 0 is a year
	Key    string `json:"key,omitempty"` // keys: what the id stands for, "" is not published
}

type c37Plan struct {
	Pub      c37Timing      `json:"pub"`
	Pol      c37Timing      `json:"pol"`
	Jwk      c37Timing      `json:"jwk"`
	Attempts int            `json:"attempts"`
	Cache    int            `json:"cache"` // milliseconds, 0 is the default
	Margin   int            `json:"margin"`
	ETag     bool           `json:"etag,omitempty"`
	Lat      map[string]int `json:"lat"`
	TokTTL   []int          `json:"tokttl"`
	Start    map[string]c37State
	Ops      []c37Op `json:"ops"`
}

var c37Doms = []string{"dom", "dom2"}

const c37JKU = "https://keys.test/more"

var c37Sources = []string{"zms", "zts", "pol:dom", "pol:dom2", "jwk:", "jwk:" + c37JKU}

func (x c37Timing) period(def time.Duration) time.Duration {
	if x.Period == 0 {
		return def
	}
	return time.Duration(x.Period) * time.Millisecond
}

func (x c37Timing) retry() time.Duration {
	if x.Retry == 0 {
		return time.Minute
	}
	return time.Duration(x.Retry) * time.Millisecond
}

func (p c37Plan) lat(prefix ...string) (sum time.Duration) {
	for s, l := range p.Lat {
		for _, x := range prefix {
			if strings.HasPrefix(s, x) {
				sum += time.Duration(l) * time.Millisecond
			}
		}
	}
	return sum
}

func (p c37Plan) attempts() int {
	if p.Attempts == 0 {
		return 2
	}
	return p.Attempts
}

// bound is how long after its publication something new is in force at the latest.
func (p c37Plan) bound(src string) time.Duration {
	switch {
	case strings.HasPrefix(src, "pol:"): // what was fetched just before can be installed one refresh later, and the next refresh takes its time too
		once := time.Duration(p.attempts()+1) * (p.lat("pol:") + p.Pol.retry())
		return p.Pol.period(30*time.Minute) + 2*once + time.Second
	case strings.HasPrefix(src, "jwk:"):
		return p.Jwk.period(24*time.Hour) + p.Jwk.retry() + 2*p.lat("jwk:") + time.Second
	}
	return p.Pub.period(24*time.Hour) + p.Pub.retry() + 2*p.lat("z") + time.Second
}

func (p c37Plan) cache() time.Duration {
	if p.Cache == 0 {
		return time.Minute
	}
	return time.Duration(p.Cache) * time.Millisecond
}

func genC37(t *rapid.T) c37Plan {
	p := c37Plan{Attempts: intIn(t, "attempts", 1, 3), ETag: oneIn(t, "etag", 2), Lat: map[string]int{}, Start: map[string]c37State{}}
	n := intIn(t, "n", 3, 14)
	if oneIn(t, "defaults", 16) {
		p.Attempts, p.Cache, n = 0, 1800000, min(n, 6)
	} else {
		base := pick(t, "base", 2000, 7000, 30000, 600000)
		mk := func(l string) c37Timing {
			return c37Timing{base * intIn(t, l, 1, 4), pick(t, l+"retry", base/10, base/10, base/4, base)}
		}
		p.Pub, p.Pol, p.Jwk = mk("pub"), mk("pol"), mk("jwk")
		p.Cache = pick(t, "cache", base/4, base/2, base, 2*base)
		p.Margin = pick(t, "margin", 0, 1000, base, 10*base)
	}
	for _, s := range c37Sources {
		if oneIn(t, "slow", 3) {
			p.Lat[s] = pick(t, "lat", 1, 30, 400)
		}
	}
	state := func(src string) c37State {
		if strings.HasPrefix(src, "pol:") {
			s := c37State{}
			for i := 0; i < 4; i++ {
				s.Grants = append(s.Grants, pick(t, "grant", 0, 1, 1, 1, 2))
			}
			if oneIn(t, "ttl", 4) {
				s.TTL = int(p.bound(src)/time.Second)*intIn(t, "lives", 1, 3)/2 + 1
			}
			return s
		}
		return c37State{Key: pick(t, "key", "ec2", "ec2", "ec3", "")}
	}
	for _, s := range c37Sources {
		p.Start[s] = state(s)
		if strings.HasPrefix(s, "pol:") {
			p.Start[s] = c37State{Grants: p.Start[s].Grants}
		}
	}
	far := 400 * 24 * 3600
	for i := 0; i < 4; i++ {
		p.TokTTL = append(p.TokTTL, pick(t, "tokttl", far, far, far, int(p.bound("jwk:")/time.Second)*intIn(t, "toklives", 1, 4)))
	}
	pub := []string{"zts", "pol:dom", "pol:dom", "pol:dom2", "jwk:", "jwk:" + c37JKU}
	last := ""
	for i := 0; i < n; i++ {
		o := c37Op{Kind: pick(t, "kind", "publish", "publish", "check", "check", "check", "down", "up")}
		if last == "publish" && oneIn(t, "look", 2) {
			o.Kind = "check"
		}
		src := pick(t, "src", pub...)
		if oneIn(t, "same", 2) && len(p.Ops) > 0 && p.Ops[len(p.Ops)-1].Src != "" {
			src = p.Ops[len(p.Ops)-1].Src
		}
		b := int(p.bound(src) / time.Millisecond)
		l := int(p.cache() / time.Millisecond)
		o.Adv = pick(t, "adv", 0, 0, l/2, l+1, b/4, b/2, b+1, b+l+1, b+l+1, b+l+1, b+l+1, 2*b+l)
		if o.Kind != "check" {
			o.Src = src
		}
		switch o.Kind {
		case "publish":
			o.V = state(src)
		case "down":
			if oneIn(t, "zms", 6) {
				o.Src = "zms"
			}
			o.How = pick(t, "how", "500", "404", "err", "garbage", "cut")
		case "check":
			o.Src = src // remembered for the next steps only
		}
		last = o.Kind
		p.Ops = append(p.Ops, o)
	}
	b := int(p.bound("pol:")/time.Millisecond) + int(p.cache()/time.Millisecond) + 1
	p.Ops = append(p.Ops, c37Op{Kind: "check", Adv: pick(t, "final", 0, b, b/2, 2*b)})
	return p
}

// c37Version is a state with the time it was the published one.
type c37Version struct {
	c37State
	from, to time.Time // to: zero while it is current
	exp      time.Time
	body     []byte
	tag      string
}

type c37Source struct {
	vs    []*c37Version
	downs [][2]time.Time // to is zero while it lasts
	how   string
}

// since is the earliest instant such that something published at it or later is in force at t.
func (s *c37Source) since(t time.Time, bound, lat time.Duration) time.Time {
	bad := append([][2]time.Time(nil), s.downs...)
	for _, v := range s.vs { // an expired document is as good as none
		if !v.exp.IsZero() && (v.to.IsZero() || v.to.After(v.exp.Add(-lat))) {
			bad = append(bad, [2]time.Time{v.exp.Add(-lat - time.Second), v.to})
		}
	}
	cands := []time.Time{t}
	for _, d := range bad {
		if d[0].Before(t) {
			cands = append(cands, d[0].Add(-time.Millisecond))
		}
	}
	sort.Slice(cands, func(i, j int) bool { return cands[i].After(cands[j]) })
	first := s.vs[0].from
cand:
	for _, u := range cands {
		w := u.Add(-bound)
		if w.Before(first) {
			break
		}
		for _, d := range bad {
			if !d[0].After(u) && (d[1].IsZero() || !d[1].Before(w)) {
				continue cand
			}
		}
		return w
	}
	return first
}

// between lists the versions current at some instant of [from, to].
func (s *c37Source) between(from, to time.Time) (out []*c37Version) {
	for _, v := range s.vs {
		if !v.from.After(to) && (v.to.IsZero() || !v.to.Before(from)) {
			out = append(out, v)
		}
	}
	return out
}

type c37Call struct {
	name, keySrc, key, dom string
	roles                  []int
	act                    int
	exp                    time.Time
	do                     func() error
}

func runC37(c *Case, p c37Plan) error {
	n := newNet()
	ctx, stop := bg()
	defer stop()
	var mu sync.Mutex
	srcs := map[string]*c37Source{}
	acts, roles := []string{"read", "write"}, []string{"r0", "r1"}
	nver := 0
	publish := func(name string, st c37State) {
		now := time.Now()
		v := &c37Version{c37State: st, from: now}
		nver++
		v.tag = `"v` + itoa(nver) + `"`
		switch kind, arg, _ := strings.Cut(name, ":"); kind {
		case "pol":
			d := Doc{Domain: arg, Tag: nver, TTL: 365 * 24 * 3600, Pols: []Pol{nil}}
			if st.TTL > 0 {
				d.TTL = st.TTL
				v.exp = now.Add(d.ttl())
			}
			for i, g := range st.Grants {
				if g > 0 {
					d.Pols[0] = append(d.Pols[0], Asn{arg + ":role." + roles[i/2], acts[i%2], arg + ":x", []string{"", "allow", "deny"}[g]})
				}
			}
			v.body = docBody(d)
		case "jwk":
			m := map[string]string{"other": "rsa0"}
			if st.Key != "" {
				m["k"] = st.Key
			}
			v.body = jwksBody(m)
		case "zts":
			m := map[string]string{"t0": "ec1"}
			if st.Key != "" {
				m["k"] = st.Key
			}
			v.body = pubkeyBody(name, m)
		default:
			v.body = pubkeyBody(name, map[string]string{"m0": "ec0"})
		}
		mu.Lock()
		defer mu.Unlock()
		s := srcs[name]
		if s == nil {
			s = &c37Source{}
			srcs[name] = s
		} else {
			s.vs[len(s.vs)-1].to = now
		}
		s.vs = append(s.vs, v)
	}
	for _, name := range c37Sources {
		publish(name, p.Start[name])
		s := srcs[name]
		u := serviceURL("sys.auth", name)
		if kind, arg, _ := strings.Cut(name, ":"); kind == "pol" {
			u = policyURL(arg)
		} else if kind == "jwk" {
			if u = arg; u == "" {
				u = athenzJwksURL()
			}
		}
		n.handle(u, func(r *http.Request) *Resp {
			mu.Lock()
			defer mu.Unlock()
			v := s.vs[len(s.vs)-1]
			res := &Resp{Status: 200, Body: v.body, Delay: time.Duration(p.Lat[name]) * time.Millisecond}
			if p.ETag {
				res.Header = map[string]string{"ETag": v.tag}
				if r.Header.Get("If-None-Match") == v.tag {
					res.Status, res.Body = 304, nil
				}
			}
			switch s.how {
			case "500":
				res.Status = 500
			case "404":
				res.Status, res.Body = 404, []byte("{}")
			case "err":
				res.Err = &netErr{msg: "connection refused"}
			case "garbage":
				res.Status, res.Body = 200, []byte("<html>")
			case "cut":
				res.Status, res.Body = 200, v.body
				res.BodyErr, res.CutAt = true, len(v.body)/2
			}
			return res
		})
	}
	opts := []authorizerd.Option{authorizerd.WithAthenzURL(ztsURL), authorizerd.WithHTTPClient(n.client()), authorizerd.WithAthenzDomains(c37Doms...), authorizerd.WithJwkURLs([]string{c37JKU}),
		authorizerd.WithAccessTokenParam(authorizerd.NewAccessTokenParam(true, false, "", "", false, nil))}
	ms := func(n int) string { return (time.Duration(n) * time.Millisecond).String() }
	if p.Pub.Period > 0 {
		opts = append(opts, authorizerd.WithPubkeyRefreshPeriod(ms(p.Pub.Period)), authorizerd.WithPubkeyRetryDelay(ms(p.Pub.Retry)),
			authorizerd.WithPolicyRefreshPeriod(ms(p.Pol.Period)), authorizerd.WithPolicyRetryDelay(ms(p.Pol.Retry)),
			authorizerd.WithJwkRefreshPeriod(ms(p.Jwk.Period)), authorizerd.WithJwkRetryDelay(ms(p.Jwk.Retry)),
			authorizerd.WithPolicyRetryAttempts(p.Attempts), authorizerd.WithPolicyExpiryMargin(ms(p.Margin)))
	}
	if p.Cache > 0 {
		opts = append(opts, authorizerd.WithCacheExp(time.Duration(p.Cache)*time.Millisecond))
	}
	az := lib(authorizerd.New(opts...))
	if err := az.Init(ctx); err != nil {
		return failf("initialisation over healthy sources failed: %v", err)
	}
	ech := az.Start(ctx)
	go func() {
		for range ech {
		}
	}()
	half()
	now := time.Now()
	var calls []c37Call
	for i, k := range []string{"ec2", "ec3"} {
		for _, d := range c37Doms {
			exp := now.Add(time.Duration(p.TokTTL[i]) * time.Second).Truncate(time.Second)
			for _, rs := range [][]int{{0}, {0, 1}} {
				var names []string
				for _, r := range rs {
					names = append(names, roles[r])
				}
				rt := RT{Domain: d, Principal: "u", KeyID: "k", Roles: names, Issued: now.Unix() - 5, Expiry: exp.Unix()}
				tok := roleToken(rt.unsigned(), k)
				a := i
				calls = append(calls, c37Call{"role token of " + d + " signed by " + k, "zts", k, d, rs, a, exp, func() error { return az.VerifyRoleToken(ctx, tok, acts[a], "x") }})
			}
			for j, u := range []string{"", c37JKU} {
				exp := now.Add(time.Duration(p.TokTTL[2+j]) * time.Second).Truncate(time.Second)
				at := plainAT(d, "u", "c", roles[:1+i], exp.Unix())
				at.Header["kid"], at.Key, at.Alg, at.Header["alg"], at.Claims["iat"] = "k", k, "ES256", "ES256", now.Unix()-5
				if u != "" {
					at.Header["jku"] = u
				}
				tok, _ := at.build()
				a := 1 - i
				calls = append(calls, c37Call{"access token of " + d + " signed by " + k + " jku " + u, "jwk:" + u, k, d, []int{0, 1}[:1+i], a, exp, func() error { return az.VerifyAccessToken(ctx, tok, acts[a], "x", nil) }})
			}
		}
	}
	grants := func(v *c37Version, k c37Call) bool {
		ok := false
		for _, r := range k.roles {
			switch v.Grants[2*r+k.act] {
			case 1:
				ok = true
			case 2:
				return false
			}
		}
		return ok
	}
	determinate := map[string]bool{}
	for i, o := range p.Ops {
		time.Sleep(time.Duration(o.Adv) * time.Millisecond)
		s := srcs[o.Src]
		now := time.Now()
		switch o.Kind {
		case "publish":
			publish(o.Src, o.V)
		case "down":
			mu.Lock()
			if s.how == "" {
				s.downs = append(s.downs, [2]time.Time{now})
			}
			s.how = o.How
			mu.Unlock()
		case "up":
			mu.Lock()
			if s.how != "" {
				s.downs[len(s.downs)-1][1] = now
				s.how = ""
			}
			mu.Unlock()
		case "check":
			for _, k := range calls {
				now := time.Now()
				err := k.do()
				pol, keys := srcs["pol:"+k.dom], srcs[k.keySrc]
				// what can be in force at t
				view := func(t time.Time) ([]*c37Version, []*c37Version) {
					return pol.between(pol.since(t, p.bound("pol:"), p.lat("pol:")), now), keys.between(keys.since(t, p.bound(k.keySrc), 0), now)
				}
				then := now.Add(-p.cache() - time.Millisecond)
				pv, kv := view(then)
				mayGrant := false
				if k.exp.After(then) {
					for _, v := range pv {
						for _, x := range kv {
							if grants(v, k) && x.Key == k.key && (v.exp.IsZero() || v.exp.After(then)) {
								mayGrant = true
							}
						}
					}
				}
				pv, kv = view(now)
				mayRefuse := !k.exp.After(now)
				for _, v := range pv {
					mayRefuse = mayRefuse || !grants(v, k) || !v.exp.IsZero() && !v.exp.After(now)
				}
				for _, x := range kv {
					mayRefuse = mayRefuse || x.Key != k.key
				}
				if err == nil && !mayGrant || err != nil && !mayRefuse {
					return failf("step %d (%v after the start): %s, roles %v, %s: %s, but no state published since %v ago (policies, bound %v), %v ago (keys, bound %v) says so", i, now.Sub(pol.vs[0].from), k.name, k.roles, acts[k.act],
						map[bool]string{true: "granted", false: "refused"}[err == nil],
						now.Sub(pol.since(map[bool]time.Time{true: then, false: now}[err == nil], p.bound("pol:"), p.lat("pol:"))), p.bound("pol:"), now.Sub(keys.since(map[bool]time.Time{true: then, false: now}[err == nil], p.bound(k.keySrc), 0)), p.bound(k.keySrc))
				}
				switch {
				case mayGrant && mayRefuse:
					c.Label("either is right")
				case err == nil:
					c.Label("must be granted")
				default:
					c.Label("must be refused")
				}
				if mayGrant != mayRefuse {
					id := k.name + itoa(k.act) + itoa(len(k.roles))
					if was, ok := determinate[id]; ok && was != (err == nil) {
						c.NonTrivial()
						c.Label("a change is followed")
					}
					determinate[id] = err == nil
				}
			}
		}
	}
	return nil
}

func init() {
	register(Sub{Prop: "C37", Name: "follow", Quick: 3000, Thorough: 75000,
		Rule: "an authorizer initialised and started with random periods, delays and lifetimes (or the defaults) over two policy documents, two key lists and two JWK sets that are republished, expire and fail for a while; role and access tokens are checked at chosen instants; each verdict must be that of some state published within the bound, later than the last state assuredly obtained; non-trivial: the only right verdict of some call changes during the run and is given both times"},
		genC37, runC37)
}
