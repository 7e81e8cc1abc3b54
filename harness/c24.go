package harness

import (
	"context"
	"errors"
	"net/http"
	"sort"
	"sync"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"

	authorizerd "github.com/yahoojapan/athenz-authorizer/v5"
	"github.com/yahoojapan/athenz-authorizer/v5/jwk"
	"github.com/yahoojapan/athenz-authorizer/v5/policy"
	"github.com/yahoojapan/athenz-authorizer/v5/pubkey"
)

// C24: background updaters refresh on schedule, retry, report and stop.

// Outage makes one endpoint of an updater fail for a while.
type Outage struct {
	D    string `json:"d"` // updater
	E    int    `json:"e"` // endpoint, modulo their number
	From int    `json:"from"`
	Len  int    `json:"len"` // tenths of a second since the start, both off every grid
	How  string `json:"how"`
}

// updCfg configures one updater. Durations are in tenths of a second.
type updCfg struct {
	Period int `json:"p"`
	Retry  int `json:"r"`
	Tries  int `json:"n,omitempty"` // policy: attempts after the first
	Delay  int `json:"delay,omitempty"`
}

type schedPlan struct {
	Mode    string            `json:"mode"` // pubkey, policy, jwk, all
	Upd     map[string]updCfg `json:"upd"`
	Warm    bool              `json:"warm"` // loaded before the start
	Outages []Outage          `json:"out"`
	Cancel  int               `json:"cancel"`
	Late    int               `json:"late,omitempty"` // nobody reads the error channel before
}

func genSchedPlan(t *rapid.T) schedPlan {
	p := schedPlan{Mode: pick(t, "mode", "pubkey", "policy", "jwk", "all"), Upd: map[string]updCfg{}, Warm: !oneIn(t, "cold", 3)}
	ds := []string{p.Mode}
	if p.Mode == "all" {
		ds = []string{"pubkey", "policy", "jwk"}
	}
	longest := 0
	for _, d := range ds {
		u := updCfg{Period: pick(t, "period", 50, 70, 100, 300, 600), Retry: pick(t, "retry", 10, 10, 20, 30, 110), Tries: intIn(t, "tries", 1, 3)}
		if oneIn(t, "slow", 4) {
			u.Delay = pick(t, "delay", 1, 4)
		}
		if d == "pubkey" && p.Mode == "all" && !p.Warm {
			u = updCfg{Period: 30, Retry: 10, Tries: 1} // policies need the keys
		}
		longest = max(longest, u.Period)
		p.Upd[d] = u
	}
	end := longest * intIn(t, "periods", 2, 9)
	for _, d := range ds {
		if d == "pubkey" && p.Mode == "all" && !p.Warm {
			continue
		}
		from := 0
		for i, n := 0, intIn(t, "nout", 0, 3); i < n; i++ {
			o := Outage{D: d, E: intIn(t, "e", 0, 1), From: from + intIn(t, "from", 0, 3*p.Upd[d].Period), How: pick(t, "how", "err", "500", "cut", "garbage")}
			if i == 0 && oneIn(t, "first", 3) {
				o.From = 0
			}
			o.Len = pick(t, "len", 1, p.Upd[d].Retry, p.Upd[d].Period/2, p.Upd[d].Period, 2*p.Upd[d].Period, p.Upd[d].Retry*12, 5*p.Upd[d].Period)
			from = o.From + o.Len
			p.Outages = append(p.Outages, o)
		}
	}
	p.Cancel = intIn(t, "cancel", 0, end)
	if oneIn(t, "long", 2) {
		p.Cancel = end
	}
	if oneIn(t, "late", 3) {
		p.Late = pick(t, "latetill", p.Cancel/4, p.Cancel/2, p.Cancel, p.Cancel+40)
	}
	return p
}

type served struct {
	at, end time.Duration // since the start
	ok      bool
	live    bool
}

const tenth = 100 * time.Millisecond

func (u updCfg) period() time.Duration { return time.Duration(u.Period) * tenth }
func (u updCfg) retry() time.Duration  { return time.Duration(u.Retry) * tenth }

func runSched(c *Case, p schedPlan) error {
	n := newNet()
	var mu sync.Mutex
	failing := 0
	log := map[string]map[int][]served{"pubkey": {}, "policy": {}, "jwk": {}}
	var t0 time.Time
	started := false
	handle := func(d string, e int, url string, body func() []byte) {
		n.handle(url, func(r *http.Request) *Resp {
			live := r.Context().Err() == nil
			mu.Lock()
			defer mu.Unlock()
			since := time.Since(t0)
			dl := time.Duration(p.Upd[d].Delay) * tenth
			resp := &Resp{Status: 200, Body: body(), Delay: dl}
			ok := true
			if started {
				for _, o := range p.Outages {
					from := time.Duration(o.From)*tenth - 30*time.Millisecond
					if o.D == d && o.E%2 == e && since >= from && since < from+time.Duration(o.Len)*tenth {
						ok = false
						switch o.How {
						case "err":
							resp = &Resp{Delay: dl, Err: &netErr{msg: "refused"}}
						case "500":
							resp.Status = 500
						case "cut":
							resp.BodyErr, resp.CutAt = true, len(resp.Body)/2
						case "garbage":
							resp.Body = []byte("<html>")
						}
						break
					}
				}
				if !ok {
					failing++
				}
				log[d][e] = append(log[d][e], served{since, since + dl, ok, live})
			}
			return resp
		})
	}
	doc := wDoc("a", 1)
	handle("pubkey", 0, serviceURL("sys.auth", "zms"), func() []byte { return stdRing().body("zms") })
	handle("pubkey", 1, serviceURL("sys.auth", "zts"), func() []byte { return stdRing().body("zts") })
	handle("policy", 0, policyURL("dom.a"), func() []byte { return docBody(doc) })
	handle("jwk", 0, athenzJwksURL(), func() []byte { return jwksBody(map[string]string{"j0": "rsa1"}) })
	handle("jwk", 1, "https://idp.test/jwks", func() []byte { return jwksBody(map[string]string{"j0": "ec1"}) })

	var start func(context.Context) <-chan error
	var load func(context.Context) error
	u := p.Upd[p.Mode]
	switch p.Mode {
	case "pubkey":
		d := lib(pubkey.New(pubkey.WithAthenzURL(ztsURL), pubkey.WithHTTPClient(n.client()), pubkey.WithRefreshPeriod(u.period().String()), pubkey.WithRetryDelay(u.retry().String())))
		start, load = d.Start, d.Update
	case "policy":
		d := policyDaemon(n, policy.WithAthenzDomains("dom.a"), policy.WithRefreshPeriod(u.period().String()), policy.WithRetryDelay(u.retry().String()), policy.WithRetryAttempts(u.Tries))
		start, load = d.Start, d.Update
	case "jwk":
		d := lib(jwk.New(jwk.WithAthenzJwksURL(ztsURL), jwk.WithURLs([]string{"https://idp.test/jwks"}), jwk.WithHTTPClient(n.client()), jwk.WithRefreshPeriod(u.period().String()), jwk.WithRetryDelay(u.retry().String())))
		start, load = d.Start, d.Update
	default:
		a := lib(authorizerd.New(authorizerd.WithAthenzURL(ztsURL), authorizerd.WithHTTPClient(n.client()), authorizerd.WithAthenzDomains("dom.a"), authorizerd.WithJwkURLs([]string{"https://idp.test/jwks"}),
			authorizerd.WithPubkeyRefreshPeriod(p.Upd["pubkey"].period().String()), authorizerd.WithPubkeyRetryDelay(p.Upd["pubkey"].retry().String()),
			authorizerd.WithPolicyRefreshPeriod(p.Upd["policy"].period().String()), authorizerd.WithPolicyRetryDelay(p.Upd["policy"].retry().String()), authorizerd.WithPolicyRetryAttempts(p.Upd["policy"].Tries),
			authorizerd.WithJwkRefreshPeriod(p.Upd["jwk"].period().String()), authorizerd.WithJwkRetryDelay(p.Upd["jwk"].retry().String())))
		start, load = a.Start, a.Init
	}
	ctx, stop := bg()
	defer stop()
	if p.Warm {
		if err := load(ctx); err != nil {
			return failf("first load over healthy sources failed: %v", err)
		}
	}
	mu.Lock()
	t0, started = time.Now(), true
	mu.Unlock()
	ech := start(ctx)
	type report struct {
		at  time.Duration
		err error
	}
	var reports []report
	closed := make(chan struct{})
	lateTill := time.Duration(p.Late) * tenth
	if p.Late > 0 {
		c.Label("reports are read late")
	}
	go func() {
		defer close(closed)
		// The channel holds 100 reports.
		for wait := p.Late > 0; wait; {
			time.Sleep(tenth)
			mu.Lock()
			wait = time.Since(t0) < lateTill && failing < 60
			if !wait {
				lateTill = time.Since(t0)
			}
			mu.Unlock()
		}
		for err := range ech {
			mu.Lock()
			reports = append(reports, report{time.Since(t0), err})
			mu.Unlock()
		}
	}()
	tc := time.Duration(p.Cancel)*tenth + 50*time.Millisecond
	time.Sleep(tc)
	synctest.Wait()
	mu.Lock()
	atCancel := len(reports)
	mu.Unlock()
	stop()
	worst := time.Minute
	for _, u := range p.Upd {
		worst += 100 * (u.retry()*time.Duration(u.Tries+2) + u.period())
	}
	limit := time.NewTimer(worst)
	select {
	case <-closed:
		limit.Stop()
	case <-limit.C:
		return failf("the error channel is not closed %v after the context was cancelled", worst)
	}
	settle := time.Minute
	for _, u := range p.Upd {
		settle += 3 * u.period()
	}
	time.Sleep(settle)
	synctest.Wait()
	mu.Lock()
	defer mu.Unlock()
	if len(reports) == 0 || !errors.Is(reports[len(reports)-1].err, context.Canceled) {
		return failf("the last report before the channel is closed must be the context's error; reports %v", reports)
	}
	for i, r := range reports {
		if r.err == nil {
			return failf("report %d is nil", i)
		}
	}
	const eps = 5 * time.Millisecond
	failedRounds := 0
	var due []time.Duration // when a report must have arrived at the latest
	uncertain := 0
	ends := map[string]int{"pubkey": 2, "policy": 1, "jwk": 2}
	for _, d := range sortedKeys(p.Upd) {
		u := p.Upd[d]
		type round struct {
			at, end time.Duration
			ok      bool
		}
		var rounds []round
		for e := 0; e < ends[d]; e++ {
			k := 0
			for _, s := range log[d][e] {
				if s.at > tc {
					if s.live {
						return failf("%s made a request %v after the context was cancelled", d, s.at-tc)
					}
					continue
				}
				if k == len(rounds) {
					if e > 0 && !(s.end > tc || len(rounds) > 0 && rounds[len(rounds)-1].end+time.Duration(u.Delay)*tenth > tc) {
						return failf("%s: endpoint %d is asked more often than endpoint 0", d, e)
					}
					rounds = append(rounds, round{s.at, s.end, s.ok})
				} else {
					rounds[k].at, rounds[k].end = min(rounds[k].at, s.at), max(rounds[k].end, s.end)
					rounds[k].ok = rounds[k].ok && s.ok
				}
				k++
			}
			if k < len(rounds) && !(k == len(rounds)-1 && rounds[k].end+time.Duration(u.Delay)*tenth > tc) {
				return failf("%s: endpoint %d was asked %d times, endpoint 0 %d times", d, e, k, len(rounds))
			}
		}
		sort.SliceStable(rounds, func(i, j int) bool { return rounds[i].at < rounds[j].at })
		P, R := u.period(), u.retry()
		slack := 2*time.Duration(u.Delay)*tenth + eps
		if len(rounds) == 0 {
			if tc > P+slack {
				return failf("%s: no refresh within %v of the start, the period is %v", d, tc, P)
			}
			continue
		}
		if rounds[0].at > P+eps {
			return failf("%s: the first refresh came %v after the start, the period is %v", d, rounds[0].at, P)
		}
		cached := p.Warm
		fails, stretch := 0, 0
		for i, r := range rounds {
			if r.end > tc {
				if !r.ok {
					uncertain++
				}
				break
			}
			next := tc
			if i+1 < len(rounds) {
				next = rounds[i+1].at
			}
			if r.ok {
				if fails > 0 {
					c.Label("%s recovers", d)
					c.NonTrivial()
				}
				cached, fails = true, 0
				if next > max(r.at+P, r.end)+slack {
					return failf("%s: after the refresh at %v the next one is at %v, the period is %v", d, r.at, next, P)
				}
				if i == 0 || !rounds[i-1].ok {
					stretch = i
				}
				if n, most := i-stretch+1, int((r.at-rounds[stretch].at)/P)+4; n > most {
					return failf("%s: %d refreshes between %v and %v although all succeed and the period is %v", d, n, rounds[stretch].at, r.at, P)
				}
				continue
			}
			fails++
			within := R
			if d == "policy" && fails%(u.Tries+1) == 0 {
				if cached {
					// the refresh is over: it makes do with the policies it has
					within = R + P
				} else {
					// the refresh itself is over one delay after its last attempt
					within = 2 * R
					failedRounds++
					due = append(due, r.end+R)
				}
			} else if d != "policy" {
				failedRounds++
				due = append(due, r.end+R)
			}
			if next > r.end+within+slack {
				return failf("%s: after the failure at %v the next attempt is at %v, the retry delay is %v", d, r.end, next, R)
			}
			if fails > 4 {
				if span, least := r.at-rounds[i-4].at, min(R, P)*9/10; span < least {
					return failf("%s: retry storm, five failing attempts within %v (retry delay %v, period %v)", d, span, R, P)
				}
			}
		}
	}
	// every failure is reported, nothing else is
	sort.Slice(due, func(i, j int) bool { return due[i] < due[j] })
	if lateTill >= tc {
		atCancel = len(reports) - 1
	}
	for i, at := range due {
		if at+eps > tc {
			break
		}
		at = max(at, lateTill)
		if i >= atCancel {
			return failf("%d refreshes had failed by %v, only %d reports came", len(due), at, atCancel)
		}
		if reports[i].at > at+eps {
			return failf("failure %d is reported at %v, it must be by %v", i, reports[i].at, at)
		}
	}
	if lateTill < tc && atCancel > failedRounds+uncertain {
		return failf("%d reports for %d failed refreshes: %v", atCancel, failedRounds, reports)
	}
	if failedRounds > 0 {
		c.Label("%s reports failures", p.Mode)
	}
	if tc < 1*time.Second {
		c.Label("cancelled at once")
	}
	return nil
}

func init() {
	register(Sub{Prop: "C24", Name: "schedule", Quick: 14000, Thorough: 350000,
		Rule: "one updater, or all of them in the authorizer, over random periods, retry delays, attempts and response times with outage windows of single endpoints and a random cancellation; request and report timelines (virtual clock) are checked for missed or excess refreshes, late retries, storms, unreported failures, requests after the cancellation and the closing of the channel; non-trivial: an updater recovers from an outage"},
		genSchedPlan, runSched)
}
