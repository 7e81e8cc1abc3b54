package harness

import (
	"fmt"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"

	authorizerd "github.com/yahoojapan/athenz-authorizer/v5"
	"github.com/yahoojapan/athenz-authorizer/v5/policy"
)

// C32: the exported policy cache shows the policies in force.

type pcStep struct {
	Doc  *Doc `json:"doc,omitempty"`  // published from here on
	Fail int  `json:"fail,omitempty"` // domain index+1 that cannot be obtained
	Adv  int  `json:"adv,omitempty"`  // seconds
}

type pcPlan struct {
	Docs   []Doc    `json:"docs"`
	Auth   bool     `json:"auth,omitempty"` // through the authorizer
	Off    bool     `json:"off,omitempty"`  // with policies disabled
	Steps  []pcStep `json:"steps"`
	Tamper bool     `json:"tamper,omitempty"`
	Checks []Check  `json:"checks"`
}

func genPc(t *rapid.T) pcPlan {
	p := pcPlan{Auth: oneIn(t, "auth", 3), Tamper: rapid.Bool().Draw(t, "tamper")}
	p.Off = p.Auth && oneIn(t, "off", 6)
	for _, d := range shuffled(t, "doms", poolDomains)[:intIn(t, "ndoms", 1, 3)] {
		doc := genDoc(t, d)
		doc.TTL = pick(t, "ttl", 0, 0, 5, 20)
		p.Docs = append(p.Docs, doc)
	}
	cur := append([]Doc(nil), p.Docs...)
	for i, n := 0, intIn(t, "steps", 0, 4); i < n; i++ {
		var s pcStep
		k := intIn(t, "which", 0, len(p.Docs)-1)
		if !oneIn(t, "nodoc", 3) {
			d := genDoc(t, p.Docs[k].Domain)
			if oneIn(t, "swap", 3) {
				// the assertions of before with other effects
				d = Doc{Domain: cur[k].Domain}
				for _, pl := range cur[k].Pols {
					np := append(Pol(nil), pl...)
					for j := range np {
						if oneIn(t, "flip", 2) {
							np[j].Effect = genEffect(t, "eff")
						}
					}
					d.Pols = append(d.Pols, np)
				}
			}
			d.TTL, d.Tag = pick(t, "ttl", 0, 0, 5, 20), i+1
			s.Doc = &d
			cur[k] = d
		}
		if oneIn(t, "fail", 4) {
			s.Fail = 1 + intIn(t, "failw", 0, len(p.Docs)-1)
		}
		s.Adv = pick(t, "adv", 0, 1, 4, 6, 21)
		p.Steps = append(p.Steps, s)
	}
	for i := 0; i < 3; i++ {
		p.Checks = append(p.Checks, genCheck(t, cur))
	}
	return p
}

type pcEntry struct {
	Role, ResDom, Act, Res string
	Deny                   bool
}

type pcForce struct {
	doc Doc
	exp time.Time
}

// comparePc compares an exported cache with the documents in force.
func comparePc(got map[string]interface{}, force []pcForce, docs []Doc, now time.Time) error {
	want := map[pcEntry]bool{}
	// Only the roles of a document's own domain decide requests; how documents
	// share others is left open.
	own := func(role string) bool {
		for _, d := range docs {
			if strings.HasPrefix(role, d.Domain+":role.") {
				return true
			}
		}
		return false
	}
	for _, f := range force {
		if !f.exp.After(now) {
			continue
		}
		for _, pl := range f.doc.Pols {
			for _, a := range pl {
				if !strings.HasPrefix(a.Role, f.doc.Domain+":role.") {
					continue
				}
				i := strings.IndexByte(a.Resource, ':')
				want[pcEntry{a.Role, a.Resource[:i], a.Action, a.Resource[i+1:], a.deny()}] = true
			}
		}
	}
	seen := map[pcEntry]bool{}
	for role, v := range got {
		if !own(role) {
			continue
		}
		as, ok := v.([]*policy.Assertion)
		if !ok {
			return failf("the entry of role %q is a %T", role, v)
		}
		if len(as) == 0 {
			return failf("the entry of role %q is empty", role)
		}
		for _, a := range as {
			e := pcEntry{role, a.ResourceDomain, a.Action, a.Resource, a.Effect != nil}
			if !want[e] {
				return failf("the policy cache shows %+v, which no document in force contains", e)
			}
			seen[e] = true
		}
	}
	for e := range want {
		d := e
		d.Deny = true
		if !seen[e] && !(!e.Deny && seen[d]) {
			return failf("the policy cache does not show %+v, which is in force", e)
		}
	}
	return nil
}

func runPc(c *Case, p pcPlan) error {
	cur := append([]Doc(nil), p.Docs...)
	fail := 0
	n := newNet()
	exps := make([]time.Time, len(cur))
	served := make([][]pcForce, len(cur))
	var mu sync.Mutex
	for i := range cur {
		n.handle(policyURL(cur[i].Domain), func(*httpRequest) *Resp {
			mu.Lock()
			defer mu.Unlock()
			if fail == i+1 {
				return &Resp{Status: 503}
			}
			exps[i] = time.Now().Add(cur[i].ttl() + 250*time.Millisecond)
			served[i] = append(served[i], pcForce{cur[i], exps[i]})
			return &Resp{Status: 200, Body: must(jsonBytes(signDoc(cur[i], exps[i], stdSigning)))}
		})
	}
	ctx, cancel := bg()
	defer cancel()
	var read func() map[string]interface{}
	var update func() error
	var decideRaw func(Check) ([]string, error)
	if p.Auth {
		for _, env := range []string{"zms", "zts"} {
			n.handle(serviceURL("sys.auth", env), func(*httpRequest) *Resp { return &Resp{Status: 200, Body: stdRing().body(env)} })
		}
		opts := []authorizerd.Option{authorizerd.WithAthenzURL(ztsURL), authorizerd.WithHTTPClient(n.client()), authorizerd.WithAthenzDomains(docDomains(cur)...),
			authorizerd.WithDisableJwkd(), authorizerd.WithAccessTokenParam(authorizerd.NewAccessTokenParam(false, false, "", "", false, nil)),
			authorizerd.WithPolicyRetryDelay("1s"), authorizerd.WithEnableRoleToken(), authorizerd.WithCacheExp(100 * time.Hour)}
		if p.Off {
			opts = append(opts, authorizerd.WithDisablePolicyd())
		}
		az := lib(authorizerd.New(opts...))
		read = func() map[string]interface{} { return az.GetPolicyCache(ctx) }
		update = func() error { return az.Init(ctx) }
	} else {
		d := policyDaemon(n, policy.WithAthenzDomains(docDomains(cur)...))
		read = func() map[string]interface{} { return d.GetPolicyCache(ctx) }
		update = func() error { return d.Update(ctx) }
		decideRaw = func(k Check) ([]string, error) { return d.CheckPolicyRoles(ctx, k.Domain, k.Roles, k.Act, k.Res) }
	}
	if m := read(); m == nil || len(m) != 0 {
		return failf("before the first refresh the policy cache is %v", m)
	}
	force := make([]pcForce, len(cur))
	// inForce compares with what may be in force: once a document has expired the
	// library fetches anew in the background, so each domain shows one whole
	// unexpired document or nothing.
	inForce := func(m map[string]interface{}) error {
		now := time.Now()
		err := comparePc(m, force, p.Docs, now)
		expired := false
		for _, f := range force {
			expired = expired || !f.exp.IsZero() && !f.exp.After(now)
		}
		if err == nil || !expired {
			return err
		}
		mu.Lock()
		defer mu.Unlock()
		var try func(k int, sel []pcForce) bool
		try = func(k int, sel []pcForce) bool {
			if k == len(force) {
				return comparePc(m, sel, p.Docs, now) == nil
			}
			for _, f := range append([]pcForce{{}, force[k]}, served[k]...) {
				if try(k+1, append(sel[:k:k], f)) {
					return true
				}
			}
			return false
		}
		if try(0, nil) {
			c.Label("document fetched after an expiry")
			return nil
		}
		return err
	}
	compare := func(when string) error {
		m := read()
		synctest.Wait() // for fetching that the read may have started
		if m == nil {
			return failf("%s: the policy cache is nil", when)
		}
		if p.Off {
			if len(m) > 0 {
				return failf("%s: policies are disabled, yet the policy cache has %d roles", when, len(m))
			}
			return nil
		}
		if err := inForce(m); err != nil {
			return failf("%s: %v", when, err)
		}
		if len(m) > 0 {
			c.Label("roles shown")
			c.NonTrivial()
		}
		stable := true
		for _, f := range force {
			stable = stable && (f.exp.IsZero() || f.exp.After(time.Now()))
		}
		if p.Tamper && stable {
			var before []string
			for _, k := range p.Checks {
				if decideRaw != nil {
					r, err := decideRaw(k)
					sortStrings(r)
					before = append(before, fmt.Sprint(r, err))
				}
			}
			for r := range m {
				delete(m, r)
			}
			m["dom:role.tampered"] = []*policy.Assertion{}
			for i, k := range p.Checks {
				if decideRaw != nil {
					r, err := decideRaw(k)
					sortStrings(r)
					if now := fmt.Sprint(r, err); now != before[i] {
						return failf("%s: emptying the returned map changes a decision from %s to %s", when, before[i], now)
					}
				}
			}
			if err := inForce(read()); err != nil {
				return failf("%s: after emptying the returned map: %v", when, err)
			}
			c.Label("returned map changed")
		}
		return nil
	}
	for i := -1; i < len(p.Steps); i++ {
		adv := 0
		mu.Lock()
		fail = 0
		if i >= 0 {
			s := p.Steps[i]
			fail, adv = s.Fail, s.Adv
			if s.Doc != nil {
				for k := range cur {
					if cur[k].Domain == s.Doc.Domain {
						cur[k] = *s.Doc
					}
				}
			}
		}
		old := append([]time.Time(nil), exps...)
		mu.Unlock()
		err := update()
		if !p.Off && (err != nil) != (fail > 0 && force[fail-1].exp.IsZero()) {
			return failf("refresh %d: error %v", i+1, err)
		}
		mu.Lock()
		for k := range cur {
			if fail == k+1 {
				c.Label("a domain could not be obtained")
				exps[k] = old[k]
				if l := served[k]; len(l) > 0 {
					force[k] = l[len(l)-1] // perhaps fetched in the background
				}
			} else {
				force[k] = pcForce{cur[k], exps[k]}
			}
		}
		fail = 0 // so that fetching in the background is over at once
		mu.Unlock()
		if e := compare(fmt.Sprintf("after refresh %d", i+1)); e != nil {
			return e
		}
		time.Sleep(time.Duration(adv)*time.Second + 500*time.Millisecond)
		for _, f := range force {
			if !f.exp.IsZero() && !f.exp.After(time.Now()) {
				c.Label("a document has expired")
			}
		}
		if adv > 0 {
			if e := compare(fmt.Sprintf("%ds after refresh %d", adv, i+1)); e != nil {
				return e
			}
		}
	}
	return nil
}

func init() {
	register(Sub{Prop: "C32", Name: "cache", Quick: 10000, Thorough: 250000,
		Rule: "histories of refreshes over 1-3 domains with documents that change, expire or cannot be obtained, read through the daemon and the authorizer; the exported cache is compared with the assertions of the documents in force, and the returned map is emptied between reads; non-trivial: some role is shown"},
		genPc, runPc)
}
