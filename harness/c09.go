package harness

import (
	"context"
	"fmt"
	"math/rand/v2"
	"net/http"
	"runtime"
	"slices"
	"sync"
	"sync/atomic"
	"time"

	"pgregory.net/rapid"

	"github.com/yahoojapan/athenz-authorizer/v5/policy"
)

// C09: checks concurrent with refreshes see one snapshot.

// Snap is one revision of the single loaded domain: which of the roles it allows.
type Snap struct {
	Kind string `json:"k"` // subset, all, none, deny (one role denied), bad (not loadable)
	Seed uint64 `json:"s"`
}

func (s Snap) allowed(n int) map[string]bool {
	m := map[string]bool{}
	r := rand.New(rand.NewPCG(s.Seed, 7))
	for i := 0; i < n; i++ {
		if s.Kind == "subset" && r.IntN(2) == 0 || s.Kind == "all" || s.Kind == "deny" {
			m["r"+itoa(i)] = true
		}
	}
	return m
}

// denied is the role that rejects every request presenting it, if any.
func (s Snap) denied(n int) string {
	if s.Kind == "deny" {
		return "r" + itoa(int(s.Seed%uint64(n)))
	}
	return ""
}

func (s Snap) doc(n int) Doc {
	d := Doc{Domain: "dom"}
	al := s.allowed(n)
	for i := 0; i < n; i++ {
		r := "r" + itoa(i)
		var p Pol
		if al[r] {
			p = append(p, Asn{"dom:role." + r, "read", "dom:/x", "allow"})
		}
		if s.denied(n) == r {
			p = append(p, Asn{"dom:role." + r, "re*", "dom:*", "deny"})
		}
		if len(p) > 0 {
			d.Pols = append(d.Pols, p)
		}
	}
	if s.Kind == "bad" {
		d.Pols = append(d.Pols, Pol{{"dom:role.r0", "read", "nocolon", "allow"}})
	}
	return d
}

// expect is the decision for the given roles.
func (s Snap) expect(n int, roles []string) verdict {
	al, den := s.allowed(n), s.denied(n)
	v := verdict{Roles: map[string]bool{}}
	for _, r := range roles {
		if r == den {
			v.Deny = true
		} else if al[r] {
			v.Roles[r] = true
		}
	}
	v.Allowed = !v.Deny && len(v.Roles) > 0
	if !v.Allowed {
		v.Roles = map[string]bool{}
	}
	return v
}

type snapPlan struct {
	N        int    `json:"n"`
	Snaps    []Snap `json:"snaps"` // the first is loaded before the checks start
	Checkers int    `json:"ch"`
	Dumpers  int    `json:"du"`
	Stride   []int  `json:"st"` // per checker: presents every k-th role
	Cancel   []int  `json:"cancel,omitempty"`
	Procs    int    `json:"procs"`
}

func genSnapPlan(t *rapid.T) snapPlan {
	p := snapPlan{N: pick(t, "n", 3, 20, 60, 120), Checkers: intIn(t, "ch", 1, 5), Dumpers: intIn(t, "du", 0, 1), Procs: pick(t, "procs", 1, 2, 4, 8)}
	k := intIn(t, "snaps", 2, 6)
	for i := 0; i < k; i++ {
		kind := pick(t, "kind", "subset", "subset", "all", "none", "deny", "bad")
		if i == 0 && kind == "bad" {
			kind = "subset"
		}
		p.Snaps = append(p.Snaps, Snap{kind, uint64(intIn(t, "seed", 1, 1<<20))})
		if i > 0 && oneIn(t, "cancel", 8) {
			p.Cancel = append(p.Cancel, i)
		}
	}
	for i := 0; i < p.Checkers; i++ {
		p.Stride = append(p.Stride, pick(t, "stride", 1, 1, 1, 2, 7))
	}
	return p
}

func runSnap(c *Case, p snapPlan) error {
	old := runtime.GOMAXPROCS(0)
	if p.Procs < old {
		runtime.GOMAXPROCS(p.Procs)
		defer runtime.GOMAXPROCS(old)
	}
	var cur atomic.Int32
	var bodies [][]byte
	for _, s := range p.Snaps {
		bodies = append(bodies, docBody(s.doc(p.N)))
	}
	n := newNet()
	n.handle(policyURL("dom"), func(*http.Request) *Resp { return &Resp{Status: 200, Body: bodies[cur.Load()]} })
	d := policyDaemon(n, policy.WithAthenzDomains("dom"), policy.WithRetryDelay("0s"))
	ctx, cancel := bg()
	defer cancel()
	if err := d.Update(ctx); err != nil {
		return failf("valid policies were not loaded: %v", err)
	}
	// effective[i] is the snapshot in force once refresh i has ended; a cancelled
	// refresh may or may not have taken effect.
	var started, done atomic.Int32
	var finished atomic.Bool
	cancelled := map[int]bool{}
	for _, i := range p.Cancel {
		cancelled[i] = true
	}
	var mu sync.Mutex
	var firstErr error
	fail := func(e error) {
		mu.Lock()
		if firstErr == nil {
			firstErr = e
		}
		mu.Unlock()
		finished.Store(true)
	}
	// candidates are the snapshots that may be in force between two instants.
	candidates := func(lo, hi int32) []int {
		var out []int
		// what refresh lo left behind
		i := int(lo)
		for {
			if p.Snaps[i].Kind != "bad" {
				out = append(out, i)
				if !cancelled[i] || i == 0 {
					break
				}
			}
			i--
		}
		for i := int(lo) + 1; i <= int(hi); i++ {
			if p.Snaps[i].Kind != "bad" {
				out = append(out, i)
			}
		}
		return out
	}
	var wg sync.WaitGroup
	for w := 0; w < p.Checkers; w++ {
		var roles []string
		for i := w % p.N; i < p.N; i += p.Stride[w] {
			roles = append(roles, "r"+itoa(i))
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 4 || !finished.Load(); k++ {
				lo := done.Load()
				got, err := d.CheckPolicyRoles(ctx, "dom", roles, "read", "/x")
				hi := started.Load()
				var e error
				cs := candidates(lo, hi)
				for _, i := range cs {
					if e = agree(p.Snaps[i].expect(p.N, roles), got, err); e == nil {
						break
					}
				}
				if len(cs) > 1 {
					c.Label("check overlapping a refresh")
					c.NonTrivial()
				}
				if e != nil {
					fail(failf("check of %d roles during refreshes %d..%d gives roles %q, error %v: no snapshot in force gives that (%v)", len(roles), lo, hi, got, err, e))
					return
				}
				if k > 400 {
					return
				}
			}
		}()
	}
	for w := 0; w < p.Dumpers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 4 || !finished.Load(); k++ {
				lo := done.Load()
				m := d.GetPolicyCache(ctx)
				hi := started.Load()
				got := map[string]bool{}
				for r := range m {
					got[r] = true
				}
				ok := false
				cs := candidates(lo, hi)
				for _, i := range cs {
					want := map[string]bool{}
					for r := range p.Snaps[i].allowed(p.N) {
						want["dom:role."+r] = true
					}
					ok = ok || sameSet(want, got)
				}
				if !ok {
					fail(failf("policy cache read during refreshes %d..%d has %d roles: that is no snapshot in force", lo, hi, len(got)))
					return
				}
				if k > 200 {
					return
				}
			}
		}()
	}
	for i := 1; i < len(p.Snaps); i++ {
		cur.Store(int32(i))
		started.Store(int32(i))
		uctx, ucancel := ctx, context.CancelFunc(func() {})
		if cancelled[i] {
			uctx, ucancel = context.WithCancel(ctx)
			go ucancel()
		}
		err := d.Update(uctx)
		ucancel()
		done.Store(int32(i))
		if e := func() error {
			if cancelled[i] {
				return nil
			}
			if (err != nil) != (p.Snaps[i].Kind == "bad") {
				return failf("refresh %d (%s): %v", i, p.Snaps[i].Kind, err)
			}
			return nil
		}(); e != nil {
			fail(e)
			break
		}
	}
	finished.Store(true)
	wg.Wait()
	return firstErr
}

// ---- expiry ----

type expPlan struct {
	N        int      `json:"n"`
	Seeds    []uint64 `json:"seeds"` // one per fetch
	TTL      int      `json:"ttl"`
	Purge    int      `json:"purge"`
	Checkers int      `json:"ch"`
	Rounds   int      `json:"rounds"`
	Fails    []int    `json:"fails"` // fetches that fail
	Procs    int      `json:"procs"`
}

func genExpPlan(t *rapid.T) expPlan {
	p := expPlan{N: pick(t, "n", 5, 30, 80), TTL: intIn(t, "ttl", 1, 4), Purge: pick(t, "purge", 1, 3, 100000), Checkers: intIn(t, "ch", 1, 4), Rounds: intIn(t, "rounds", 1, 3), Procs: pick(t, "procs", 1, 2, 8)}
	for i := 0; i < 8; i++ {
		p.Seeds = append(p.Seeds, uint64(intIn(t, "seed", 1, 1<<20)))
	}
	nf := intIn(t, "nf", 0, 2)
	for i := 0; i < nf; i++ {
		p.Fails = append(p.Fails, intIn(t, "fail", 1, 5))
	}
	return p
}

func runExp(c *Case, p expPlan) error {
	old := runtime.GOMAXPROCS(0)
	if p.Procs < old {
		runtime.GOMAXPROCS(p.Procs)
		defer runtime.GOMAXPROCS(old)
	}
	type served struct {
		s   Snap
		exp time.Time
	}
	var mu sync.Mutex
	var docs []served
	fetches := 0
	n := newNet()
	n.handle(policyURL("dom"), func(*http.Request) *Resp {
		mu.Lock()
		defer mu.Unlock()
		k := fetches
		fetches++
		for _, f := range p.Fails {
			if f == k {
				return &Resp{Status: 500}
			}
		}
		s := Snap{"subset", p.Seeds[k%len(p.Seeds)] + uint64(k)}
		exp := time.Now().Add(time.Duration(p.TTL)*time.Second + 500*time.Millisecond)
		docs = append(docs, served{s, exp})
		return &Resp{Status: 200, Body: must(jsonBytes(signDoc(s.doc(p.N), exp, stdSigning)))}
	})
	d := policyDaemon(n, policy.WithAthenzDomains("dom"), policy.WithRetryDelay("0s"), policy.WithRetryAttempts(1), policy.WithPurgePeriod(fmt.Sprintf("%ds", p.Purge)))
	ctx, cancel := bg()
	defer cancel()
	if err := d.Update(ctx); err != nil {
		return failf("valid policies were not loaded: %v", err)
	}
	var roles []string
	for i := 0; i < p.N; i++ {
		roles = append(roles, "r"+itoa(i))
	}
	var firstErr error
	for r := 0; r < p.Rounds && firstErr == nil; r++ {
		mu.Lock()
		last := docs[len(docs)-1].exp
		mu.Unlock()
		if w := time.Until(last); w > 0 {
			time.Sleep(w + 250*time.Millisecond)
		}
		var wg sync.WaitGroup
		for w := 0; w < p.Checkers; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < 30; k++ {
					now := time.Now()
					got, err := d.CheckPolicyRoles(ctx, "dom", roles, "read", "/x")
					e := agree(verdict{Roles: map[string]bool{}}, got, err)
					mu.Lock()
					for _, s := range docs {
						if e != nil && s.exp.After(now) {
							e = agree(s.s.expect(p.N, roles), got, err)
						}
					}
					if len(got) > 0 {
						c.Label("granted by a document fetched after the expiry")
						c.NonTrivial()
					}
					if e != nil && firstErr == nil {
						firstErr = failf("round %d: check of %d roles after the expiry grants %d of them (error %v): neither nothing nor one valid document (%v)", r, p.N, len(got), err, e)
					}
					mu.Unlock()
					if e != nil {
						return
					}
					if k%5 == 4 {
						time.Sleep(20 * time.Millisecond)
					}
				}
			}()
		}
		wg.Wait()
	}
	return firstErr
}

// ---- slow refreshes of several domains ----

type slowStep struct {
	Kinds  []string `json:"k"` // per domain: ok, bad, 500
	Seeds  []uint64 `json:"s"`
	Delays []int    `json:"d"` // milliseconds until the response
	Body   bool     `json:"b,omitempty"`
	Probe  []int    `json:"p"`
}

type slowPlan struct {
	Doms  int        `json:"doms"`
	N     int        `json:"n"`
	Steps []slowStep `json:"steps"`
}

func genSlow(t *rapid.T) slowPlan {
	p := slowPlan{Doms: intIn(t, "doms", 1, 4), N: pick(t, "n", 1, 2, 5, 20)}
	for i, n := 0, intIn(t, "steps", 2, 4); i < n; i++ {
		var s slowStep
		for d := 0; d < p.Doms; d++ {
			k := "ok"
			if i > 0 {
				k = pick(t, "kind", "ok", "ok", "ok", "ok", "bad", "500")
			}
			s.Kinds = append(s.Kinds, k)
			s.Seeds = append(s.Seeds, uint64(intIn(t, "seed", 1, 1<<20)))
			s.Delays = append(s.Delays, pick(t, "delay", 0, 0, 50, 300, 2000))
		}
		for k, m := 0, intIn(t, "np", 1, 4); k < m; k++ {
			s.Probe = append(s.Probe, pick(t, "probe", 1, 49, 51, 200, 301, 1999, 2001, 4000))
		}
		p.Steps = append(p.Steps, s)
	}
	return p
}

func runSlow(c *Case, p slowPlan) error {
	n := newNet()
	dom := func(d int) string { return "dom" + itoa(d) }
	doc := func(d int, seed uint64, bad bool) Doc {
		k := Snap{"subset", seed}
		if bad {
			k.Kind = "bad"
		}
		x := k.doc(p.N)
		x.Domain = dom(d)
		for i := range x.Pols {
			for j := range x.Pols[i] {
				x.Pols[i][j].Role = dom(d) + x.Pols[i][j].Role[len("dom"):]
				if x.Pols[i][j].Resource != "nocolon" {
					x.Pols[i][j].Resource = dom(d) + x.Pols[i][j].Resource[len("dom"):]
				}
			}
		}
		return x
	}
	cur := 0
	var names []string
	for d := 0; d < p.Doms; d++ {
		names = append(names, dom(d))
		n.handle(policyURL(dom(d)), func(*http.Request) *Resp {
			st := p.Steps[cur]
			r := &Resp{Status: 500}
			if st.Kinds[d] != "500" {
				r = &Resp{Status: 200, Body: docBody(doc(d, st.Seeds[d], st.Kinds[d] == "bad"))}
			}
			r.Delay = time.Duration(st.Delays[d]) * time.Millisecond
			return r
		})
	}
	pd := policyDaemon(n, policy.WithAthenzDomains(names...), policy.WithRetryDelay("0s"), policy.WithRetryAttempts(0))
	ctx, cancel := bg()
	defer cancel()
	var roles []string
	for i := 0; i < p.N; i++ {
		roles = append(roles, "r"+itoa(i))
	}
	var force []uint64 // per domain: the document in force
	last := make([]uint64, p.Doms)
	check := func(when string) error {
		for d := 0; d < p.Doms; d++ {
			v := verdict{Roles: map[string]bool{}}
			if force != nil {
				v = Snap{"subset", force[d]}.expect(p.N, roles)
			}
			got, err := pd.CheckPolicyRoles(ctx, dom(d), roles, "read", "/x")
			if e := agree(v, got, err); e != nil {
				return failf("%s, domain %d: %v", when, d, e)
			}
		}
		m := pd.GetPolicyCache(ctx)
		want, got := map[string]bool{}, map[string]bool{}
		for d := 0; d < p.Doms && force != nil; d++ {
			for r := range (Snap{"subset", force[d]}).allowed(p.N) {
				want[dom(d)+":role."+r] = true
			}
		}
		for r := range m {
			got[r] = true
		}
		if !sameSet(want, got) {
			return failf("%s: the policy cache shows %d roles, not the %d of the policies in force", when, len(got), len(want))
		}
		return nil
	}
	for i, st := range p.Steps {
		cur = i
		done := make(chan error, 1)
		t0 := time.Now()
		go func() { done <- pd.Update(ctx) }()
		slowest := 0
		for d := range st.Delays {
			slowest = max(slowest, st.Delays[d])
		}
		probes := append([]int(nil), st.Probe...)
		slices.Sort(probes)
		for _, at := range probes {
			// only moments at which some response is outstanding
			if at >= slowest {
				break
			}
			time.Sleep(time.Until(t0.Add(time.Duration(at) * time.Millisecond)))
			c.NonTrivial()
			c.Label("check during a refresh")
			if e := check(failf("%d ms after the start of refresh %d (responses after %v ms)", at, i, st.Delays).Error()); e != nil {
				return e
			}
		}
		err := <-done
		bad := false
		for d, k := range st.Kinds {
			switch k {
			case "ok":
				last[d] = st.Seeds[d]
			case "bad":
				bad = true
			}
		}
		if (err != nil) != bad {
			return failf("refresh %d (%v): %v", i, st.Kinds, err)
		}
		if bad {
			// the refused document is kept by the fetcher and would be refused again
			c.Label("refresh refused")
			if e := check(failf("after the refused refresh %d", i).Error()); e != nil {
				return e
			}
			return nil
		}
		force = append([]uint64(nil), last...)
		if e := check(failf("after refresh %d", i).Error()); e != nil {
			return e
		}
	}
	return nil
}

func init() {
	register(Sub{Prop: "C09", Name: "slow", Quick: 4000, Thorough: 100000,
		Rule: "refreshes of 1-4 domains whose responses take different times, some failing or refused; checks of every domain and the cache at chosen moments during the refresh must show the policies in force before it; non-trivial: such a check was made while a response was outstanding"},
		genSlow, runSlow)
	register(Sub{Prop: "C09", Name: "snapshot", Quick: 700, Thorough: 17500,
		Rule: "1-5 checkers and a cache reader run in parallel with a sequence of refreshes between snapshots that allow, deny or drop random halves of up to 120 roles, some refreshes failing or cancelled, on 1-8 cores; every result must be that of one snapshot in force during the call; non-trivial: a check overlapped a refresh"},
		genSnapPlan, runSnap)
	register(Sub{Prop: "C09", Name: "expiry", Quick: 500, Thorough: 12500,
		Rule: "concurrent checks start just after the expiry of the loaded document while the library fetches a different one in the background, 1-3 times; every result is that of nothing or of one unexpired document; non-trivial: a check saw a document fetched after an expiry"},
		genExpPlan, runExp)
}
