package harness

import (
	"context"
	"fmt"
	"net/http"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"

	authorizerd "github.com/yahoojapan/athenz-authorizer/v5"
	"github.com/yahoojapan/athenz-authorizer/v5/policy"
)

// C36: nothing keeps running once its work is done.

type lkStep struct {
	Kind  string `json:"k"`
	N     int    `json:"n"`
	Fault string `json:"f,omitempty"`
	Src   int    `json:"s,omitempty"`
}

type lkPlan struct {
	Roles int      `json:"roles"`
	Deny  []int    `json:"deny"`
	Start bool     `json:"start"`
	Steps []lkStep `json:"steps"`
}

func genLk(t *rapid.T) lkPlan {
	p := lkPlan{Roles: pick(t, "roles", 0, 1, 4, 30), Start: rapid.Bool().Draw(t, "start")}
	for i, n := 0, intIn(t, "nd", 0, 3); i < n && p.Roles > 0; i++ {
		p.Deny = append(p.Deny, intIn(t, "d", 0, p.Roles-1))
	}
	for i, n := 0, intIn(t, "steps", 1, 5); i < n; i++ {
		p.Steps = append(p.Steps, lkStep{Kind: pick(t, "kind", "check", "check", "cancelled", "refresh", "refresh", "overlap", "overlap", "wait", "read", "new"), N: intIn(t, "n", 1, 6), Fault: pick(t, "fault", "", "", "500", "err", "cut", "garbage", "304", "slow"), Src: intIn(t, "src", 0, 3)})
	}
	return p
}

// bubbleGoroutines counts the goroutines of this bubble other than the caller by
// the function that created them.
func bubbleGoroutines() map[string]int {
	buf := make([]byte, 4<<20)
	txt := string(buf[:runtime.Stack(buf, true)])
	blocks := strings.Split(txt, "\n\n")
	tag := ""
	if i := strings.Index(blocks[0], "synctest bubble "); i >= 0 {
		tag = blocks[0][i:]
		tag = tag[:strings.IndexAny(tag, "],\n")]
	} else {
		harnessf("no bubble in %q", clip(buf[:200], 200))
	}
	out := map[string]int{}
	for _, b := range blocks[1:] {
		head, _, _ := strings.Cut(b, "\n")
		if !strings.Contains(head, tag+"]") && !strings.Contains(head, tag+",") {
			continue
		}
		by := "?"
		if i := strings.LastIndex(b, "created by "); i >= 0 {
			by, _, _ = strings.Cut(b[i+len("created by "):], "\n")
			by, _, _ = strings.Cut(by, " in goroutine")
		}
		if strings.HasPrefix(by, "testing/synctest") || strings.HasPrefix(by, "internal/synctest") || strings.HasPrefix(by, "testing.") {
			continue
		}
		out[by]++
	}
	return out
}

func runLk(c *Case, p lkPlan) error {
	d := Doc{Domain: "dom"}
	for i := 0; i < p.Roles; i++ {
		d.Pols = append(d.Pols, Pol{{"dom:role.r" + itoa(i), "read", "dom:/x", "allow"}})
	}
	for _, i := range p.Deny {
		d.Pols = append(d.Pols, Pol{{"dom:role.r" + itoa(i), "re*", "dom:*", "deny"}})
	}
	fault, src := "", -1
	wrap := func(k int, ok func() *Resp) func(*http.Request) *Resp {
		return func(*http.Request) *Resp {
			r := ok()
			r.Delay = 5 * time.Millisecond
			if src != k {
				return r
			}
			switch fault {
			case "500":
				r.Status = 500
			case "err":
				r.Err = &netErr{msg: "refused", temp: true}
			case "cut":
				r.BodyErr, r.CutAt = true, len(r.Body)/2
			case "garbage":
				r.Body = []byte("<html>")
			case "304":
				r.Status, r.Body = 304, nil
			case "slow":
				r.Delay = 3 * time.Second
			}
			return r
		}
	}
	w := &World{n: newNet(), ring: stdRing(), docs: []Doc{d}, jwks: stdJwks()}
	w.ctx, w.stop = context.WithCancel(context.Background())
	defer w.stop()
	w.n.handle(serviceURL("sys.auth", "zms"), wrap(0, func() *Resp { return &Resp{Status: 200, Body: w.ring.body("zms")} }))
	w.n.handle(serviceURL("sys.auth", "zts"), wrap(1, func() *Resp { return &Resp{Status: 200, Body: w.ring.body("zts")} }))
	w.n.handle(policyURL("dom"), wrap(2, func() *Resp { return &Resp{Status: 200, Body: docBody(d), Header: map[string]string{"ETag": "e"}} }))
	w.n.handle(athenzJwksURL(), wrap(3, func() *Resp { return &Resp{Status: 200, Body: jwksBody(w.jwks[athenzJwksURL()])} }))
	opts := []authorizerd.Option{authorizerd.WithCacheExp(time.Minute), authorizerd.WithPolicyRefreshPeriod("10m"), authorizerd.WithPubkeyRefreshPeriod("10m"), authorizerd.WithJwkRefreshPeriod("10m"),
		authorizerd.WithPubkeyRetryDelay("1s"), authorizerd.WithJwkRetryDelay("1s"), authorizerd.WithPolicyPurgePeriod("7m")}
	w.az = w.build(opts...)
	settle := func() map[string]int { time.Sleep(10 * time.Second); synctest.Wait(); return bubbleGoroutines() }
	w.mustInit()
	if p.Start {
		ech := w.az.Start(w.ctx)
		go func() {
			for range ech {
			}
		}()
		// after the first background refresh everything that stays is there
		time.Sleep(11 * time.Minute)
		c.Label("with background updates")
	}
	roles := []string{}
	for i := 0; i < p.Roles; i++ {
		roles = append(roles, "r"+itoa(i))
	}
	base := settle()
	check := func(when string) error {
		var err error
		for try := 0; try < 3; try++ { // a background refresh may be under way at one instant
			now := settle()
			err = nil
			for by, n := range now {
				if n > base[by] {
					err = failf("%s: %d goroutines started by %s are still there 30 s later, %d were there before", when, n, by, base[by])
				}
			}
			if err == nil {
				return nil
			}
			time.Sleep(777 * time.Millisecond)
		}
		return err
	}
	tokN := int64(0)
	for i, s := range p.Steps {
		switch s.Kind {
		case "check", "cancelled":
			for k := 0; k < s.N*5; k++ {
				tokN++
				ctx := context.Background()
				if s.Kind == "cancelled" {
					cc, cancel := context.WithCancel(ctx)
					if k%2 == 0 {
						cancel()
					} else {
						go cancel()
					}
					defer cancel()
					ctx = cc
				}
				tok := roleToken(RT{Domain: "dom", Principal: "user.a", KeyID: "t0", Roles: roles, Issued: T0 - 1000, Expiry: T0 + 9000000 + tokN}.unsigned(), "ec1")
				_, err := w.az.AuthorizeRoleToken(ctx, tok, "read", "/x")
				if err != nil && len(p.Deny) > 0 {
					c.Label("checks that end early with a deny")
					c.NonTrivial()
				}
				if k%3 == 0 {
					_ = w.az.VerifyRoleToken(ctx, tok+"x", "read", "/x")
					_ = w.az.VerifyAccessToken(ctx, tok, "read", "/x", nil)
				}
			}
		case "refresh":
			fault, src = s.Fault, s.Src
			for k := 0; k < s.N; k++ {
				ctx, cancel := context.WithCancel(w.ctx)
				if s.Fault == "slow" {
					time.AfterFunc(time.Second, cancel)
				}
				err := w.az.Init(ctx)
				time.Sleep(4 * time.Second)
				cancel()
				if err != nil {
					c.Label("failing refresh")
				}
			}
			fault, src = "", -1
			c.NonTrivial()
		case "overlap":
			// refreshes that overlap, their context stays
			for k := 0; k < 6; k++ {
				var wg sync.WaitGroup
				for j := 0; j <= s.N; j++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						if err := w.az.Init(w.ctx); err != nil {
							harnessf("refresh: %v", err)
						}
					}()
				}
				wg.Wait()
			}
			c.Label("overlapping refreshes")
			c.NonTrivial()
		case "wait":
			time.Sleep(time.Duration(s.N) * 4 * time.Minute)
		case "read":
			for k := 0; k < s.N*4; k++ {
				w.az.GetPolicyCache(w.ctx)
			}
		case "new":
			// an authorizer that is made but never started does nothing
			for k := 0; k < s.N; k++ {
				w.build(opts...)
			}
		}
		if err := check(fmt.Sprintf("step %d %s", i, jsonText(s))); err != nil {
			return err
		}
	}
	w.stop()
	time.Sleep(2 * time.Hour)
	synctest.Wait()
	if left := bubbleGoroutines(); len(left) > 0 {
		return failf("two hours after the context was cancelled there are still goroutines started by %v", left)
	}
	return nil
}

// ---- overlapping refreshes of the policy daemon ----

type ovPlan struct {
	Doms   int   `json:"doms"`
	Rounds []int `json:"rounds"` // how many refreshes overlap in each round
	Delay  []int `json:"delay"`  // ms, of each domain
	Procs  int   `json:"procs"`
	Purge  int   `json:"purge"` // minutes
	TTL    int   `json:"ttl"`   // minutes
	Gap    int   `json:"gap"`   // ms between rounds
}

func genOv(t *rapid.T) ovPlan {
	p := ovPlan{Doms: pick(t, "doms", 0, 1, 1, 3), Procs: pick(t, "procs", 2, 4, 8), Purge: pick(t, "purge", 1, 10, 60), TTL: pick(t, "ttl", 5, 30, 3000), Gap: pick(t, "gap", 0, 0, 1, 1000)}
	for i := 0; i < p.Doms; i++ {
		p.Delay = append(p.Delay, pick(t, "delay", 0, 0, 1, 50))
	}
	for i, n := 0, intIn(t, "n", 5, 60); i < n; i++ {
		p.Rounds = append(p.Rounds, intIn(t, "overlap", 1, 6))
	}
	return p
}

func runOv(c *Case, p ovPlan) error {
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(p.Procs))
	n := newNet()
	var doms []string
	var served atomic.Int64
	for i := 0; i < p.Doms; i++ {
		dom := "dom" + itoa(i)
		doms = append(doms, dom)
		n.handle(policyURL(dom), func(*http.Request) *Resp {
			served.Add(1)
			return &Resp{Status: 200, Delay: time.Duration(p.Delay[i]) * time.Millisecond, Body: docBody(Doc{Domain: dom, TTL: p.TTL * 60, Pols: []Pol{{{dom + ":role.r", "read", dom + ":x", "allow"}}}})}
		})
	}
	d := policyDaemon(n, policy.WithAthenzDomains(doms...), policy.WithRetryDelay("0s"), policy.WithPurgePeriod(itoa(p.Purge)+"m"))
	ctx, cancel := bg()
	defer cancel()
	if err := d.Update(ctx); err != nil {
		return failf("valid policies were not loaded: %v", err)
	}
	time.Sleep(10 * time.Second)
	synctest.Wait()
	base := bubbleGoroutines()
	for i, k := range p.Rounds {
		var wg sync.WaitGroup
		errs := make([]error, k)
		for j := 0; j < k; j++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				errs[j] = d.Update(ctx)
			}()
		}
		wg.Wait()
		for _, err := range errs {
			if err != nil {
				return failf("round %d: valid policies were not loaded: %v", i, err)
			}
		}
		time.Sleep(time.Duration(p.Gap) * time.Millisecond)
	}
	time.Sleep(10 * time.Second)
	synctest.Wait()
	for by, k := range bubbleGoroutines() {
		if k > base[by] {
			return failf("%d rounds of overlapping refreshes, the last 10 s ago: %d goroutines started by %s, there were %d after the first refresh", len(p.Rounds), k, by, base[by])
		}
	}
	// each domain is fetched again once when its policies have expired, not once per earlier refresh
	if p.Doms > 0 {
		before := served.Load()
		time.Sleep(time.Duration(p.TTL+p.Purge) * time.Minute)
		synctest.Wait()
		if k := served.Load() - before; k > int64(2*p.Doms*(1+p.Purge/p.TTL)) && p.TTL > p.Purge {
			return failf("%d domains were fetched %d times when their policies had expired", p.Doms, k)
		}
	}
	c.NonTrivial()
	c.Label("domains: %d", p.Doms)
	cancel()
	time.Sleep(2 * time.Minute)
	synctest.Wait()
	if left := bubbleGoroutines(); len(left) > 0 {
		return failf("after the context was cancelled there are still goroutines started by %v", left)
	}
	return nil
}

func init() {
	register(Sub{Prop: "C36", Name: "overlap", Quick: 400, Thorough: 10000,
		Rule: "5 to 60 rounds of up to 6 policy refreshes at once over 0 to 3 domains that answer at once or later; afterwards no more goroutines than after the first refresh, expired policies are fetched again by one purge loop only, and after the cancellation nothing is left; non-trivial: all rounds done"},
		genOv, runOv)
	register(Sub{Prop: "C36", Name: "goroutines", Quick: 3500, Thorough: 87500,
		Rule: "sequences of granted, denied, malformed and cancelled checks, refreshes that succeed, fail, overlap or are cancelled, waits over background refreshes and cache reads; after each step no goroutine may be there that was not there before, and after the cancellation none at all; non-trivial: a check ends early with a deny, or refreshes took place"},
		genLk, runLk)
}
