package harness

import (
	"context"
	"crypto"
	"net/http"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"pgregory.net/rapid"

	"github.com/yahoojapan/athenz-authorizer/v5/jwk"
)

// C21: JSON web key sets.

type jwServe struct {
	URL  string            `json:"url"`
	Keys map[string]string `json:"keys"`
	Mode string            `json:"mode"`
}

type jwOp struct {
	Serve  []jwServe `json:"serve,omitempty"`
	Cancel bool      `json:"cancel,omitempty"`
}

type jwPlan struct {
	Athenz string   `json:"athenz"` // as configured
	URLs   []string `json:"urls"`
	Ops    []jwOp   `json:"ops"`
	Race   bool     `json:"race,omitempty"`
}

var (
	jwURLs = []string{"https://idp.test/jwks", "https://idp.test/jwks/", "http://idp.test/jwks", "https://idp.test/jwks?x=1", "https://other.test/jwks", "https://zts.test/zts/v1/oauth2/keys", "https://idp.test:443/jwks"}
	jwKids = []string{"j0", "j1", "J0", "j", "0", ""}
)

func genJwPlan(t *rapid.T) jwPlan {
	p := jwPlan{Athenz: pick(t, "athenz", ztsURL, "https://"+ztsURL, "http://"+ztsURL), Race: oneIn(t, "race", 4)}
	p.URLs = shuffled(t, "urls", jwURLs)[:intIn(t, "nurl", 0, 3)]
	if oneIn(t, "also", 4) {
		p.URLs = append(p.URLs, athenzJwksURL())
	}
	all := append([]string{athenzJwksURL()}, p.URLs...)
	if oneIn(t, "dup", 6) {
		p.URLs = append(p.URLs, all[len(all)-1])
	}
	for i, n := 0, intIn(t, "nop", 1, 8); i < n; i++ {
		var o jwOp
		for _, u := range all {
			if i > 0 && !oneIn(t, "change", 2) {
				continue
			}
			s := jwServe{URL: u, Keys: map[string]string{}, Mode: pick(t, "mode", "ok", "ok", "ok", "ok", "ok", "500", "404", "err", "cut", "garbage", "304", "slow")}
			for _, kid := range shuffled(t, "kids", jwKids)[:pick(t, "nkid", 1, 2, 3, 4, 1, 2, 3, 4, 0)] {
				s.Keys[kid] = pick(t, "key", poolKeys...)
			}
			o.Serve = append(o.Serve, s)
		}
		o.Cancel = oneIn(t, "cancel", 15)
		p.Ops = append(p.Ops, o)
	}
	return p
}

func runJw(c *Case, p jwPlan) error {
	n := newNet()
	d := lib(jwk.New(jwk.WithAthenzJwksURL(p.Athenz), jwk.WithURLs(p.URLs), jwk.WithHTTPClient(n.client())))
	prov := d.GetProvider()
	conf := map[string]bool{athenzJwksURL(): true}
	for _, u := range p.URLs {
		conf[u] = true
	}
	cur := map[string]jwServe{}
	for u := range conf {
		n.handle(u, func(*http.Request) *Resp {
			s := cur[u]
			b := jwksBody(s.Keys)
			switch s.Mode {
			case "500":
				return &Resp{Status: 500, Body: b}
			case "404":
				return &Resp{Status: 404, Body: b}
			case "304":
				return &Resp{Status: 304}
			case "err":
				return &Resp{Err: &netErr{msg: "refused"}}
			case "cut":
				return &Resp{Status: 200, Body: b, BodyErr: true, CutAt: len(b) / 2}
			case "garbage":
				return &Resp{Status: 200, Body: []byte("<html>busy</html>")}
			case "slow":
				return &Resp{Status: 200, Body: b, Delay: 3 * time.Second}
			}
			return &Resp{Status: 200, Body: b}
		})
	}
	have := map[string]map[string]string{}
	for i, o := range p.Ops {
		for _, s := range o.Serve {
			cur[s.URL] = s
		}
		before := len(n.requests())
		ctx, stop := context.WithCancel(context.Background())
		if o.Cancel {
			stop()
		}
		var done atomic.Bool
		var wg sync.WaitGroup
		var raceErr atomic.Value
		slow := false
		for u := range conf {
			slow = slow || cur[u].Mode == "slow"
		}
		if p.Race && !slow {
			for u, keys := range have {
				for kid := range keys {
					if _, ok := cur[u].Keys[kid]; !ok || kid == "" {
						continue
					}
					wg.Add(1)
					go func() {
						defer wg.Done()
						for !done.Load() {
							if prov(kid, u) == nil {
								raceErr.Store(failf("op %d: key %q of %s is in the old and the new set, yet it is missing during the refresh", i, kid, u))
								return
							}
							runtime.Gosched()
						}
					}()
				}
			}
		}
		err := d.Update(ctx)
		done.Store(true)
		wg.Wait()
		stop()
		if e := raceErr.Load(); e != nil {
			return e.(error)
		}
		asked := map[string]int{}
		for _, r := range n.requests()[before:] {
			asked[r.URL]++
			if !conf[r.URL] {
				return failf("op %d: %s was contacted; configured are the Athenz URL and %v", i, r.URL, p.URLs)
			}
		}
		failed := []string{}
		for u := range conf {
			if asked[u] == 0 && !o.Cancel {
				return failf("op %d: %s was not fetched", i, u)
			}
			if !o.Cancel && (cur[u].Mode == "ok" || cur[u].Mode == "slow") {
				have[u] = cur[u].Keys
			} else {
				failed = append(failed, u)
				if have[u] != nil && !o.Cancel {
					c.Label("previous set kept: %s", cur[u].Mode)
					c.NonTrivial()
				}
			}
		}
		if (err != nil) != (len(failed) > 0) {
			return failf("op %d: failing URLs %v, error %v", i, failed, err)
		}
		if err == nil {
			c.Label("refreshed")
		}
		probe := append([]string{"", ztsURL, "https://zts.test/zts/v1", "HTTPS://IDP.TEST/jwks", "https://evil.test/jwks", athenzJwksURL() + "&x", strings.TrimSuffix(athenzJwksURL(), "?rfc=true")}, jwURLs...)
		for _, u := range append(probe, athenzJwksURL()) {
			for _, kid := range append([]string{"", "nosuch", "j0 "}, jwKids...) {
				src := u
				if u == "" {
					src = athenzJwksURL()
				}
				want := ""
				if kid != "" {
					want = have[src][kid]
				}
				got := prov(kid, u)
				if (got == nil) != (want == "") {
					return failf("op %d: key %q of %q: want %q, got %T", i, kid, u, want, got)
				}
				if want == "" {
					continue
				}
				pub, ok := key(want).Priv.Public().(interface{ Equal(crypto.PublicKey) bool })
				if !ok || !pub.Equal(got) {
					return failf("op %d: key %q of %q is not the published key %s", i, kid, u, want)
				}
			}
		}
	}
	return nil
}

func init() {
	register(Sub{Prop: "C21", Name: "sets", Quick: 20000, Thorough: 500000,
		Rule: "histories of refreshes over the Athenz URL and up to three look-alike configured URLs whose sets change, fail, or answer late or truncated; requests and lookups under configured and look-alike URLs are compared with a reference; non-trivial: a set survives a failed fetch"},
		genJwPlan, runJw)
}
