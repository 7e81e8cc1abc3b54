package harness

import (
	"context"
	"net/http"
	"runtime"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"

	authorizerd "github.com/yahoojapan/athenz-authorizer/v5"
	"github.com/yahoojapan/athenz-authorizer/v5/policy"
)

// C35: a cancelled call never grants what is not granted, and leaves no trace.

type canCall struct {
	Roles  []int  `json:"roles"` // every i-th role from j on: pairs start, stride
	When   string `json:"w"`     // before, at, late, deadline, live
	Spin   int    `json:"spin"`  // yields before cancelling
	Again  int    `json:"again"` // live calls afterwards
	Access bool   `json:"acc,omitempty"`
	HTTP   bool   `json:"http,omitempty"`
}

type canPlan struct {
	N     int       `json:"n"`
	Per   int       `json:"per"` // assertions per role before the one that counts
	Allow []int     `json:"allow"`
	Deny  []int     `json:"deny"`
	Auth  bool      `json:"auth,omitempty"`
	Calls []canCall `json:"calls"`
	Procs int       `json:"procs"`
}

func genCan(t *rapid.T) canPlan {
	p := canPlan{N: pick(t, "n", 1, 3, 20, 80, 200), Per: pick(t, "per", 0, 1, 5, 30), Auth: oneIn(t, "auth", 2), Procs: pick(t, "procs", 1, 2, 4, 8)}
	if p.Auth {
		p.N = min(p.N, 80)
	}
	for i := 0; i < p.N; i++ {
		if !oneIn(t, "na", 4) {
			p.Allow = append(p.Allow, i)
		}
	}
	for i, n := 0, intIn(t, "nd", 0, 2); i < n; i++ {
		p.Deny = append(p.Deny, intIn(t, "d", 0, p.N-1))
	}
	for i, n := 0, intIn(t, "ncall", 1, 5); i < n; i++ {
		p.Calls = append(p.Calls, canCall{Roles: []int{intIn(t, "from", 0, min(p.N-1, 3)), pick(t, "stride", 1, 1, 1, 2, 7)}, When: pick(t, "when", "before", "at", "at", "at", "late", "deadline", "live"), Spin: pick(t, "spin", 0, 1, 3, 10, 50, 400), Again: intIn(t, "again", 0, 2),
			Access: oneIn(t, "acc", 2), HTTP: oneIn(t, "http", 3)})
	}
	return p
}

// dlCtx is a context whose deadline passes when it is told to.
type dlCtx struct {
	context.Context
	done chan struct{}
	once sync.Once
}

func (d *dlCtx) pass()                       { d.once.Do(func() { close(d.done) }) }
func (d *dlCtx) Done() <-chan struct{}       { return d.done }
func (d *dlCtx) Deadline() (time.Time, bool) { return time.Now().Add(time.Hour), true }
func (d *dlCtx) Err() error {
	select {
	case <-d.done:
		return context.DeadlineExceeded
	default:
		return nil
	}
}

func runCan(c *Case, p canPlan) error {
	if old := runtime.GOMAXPROCS(0); p.Procs < old {
		runtime.GOMAXPROCS(p.Procs)
		defer runtime.GOMAXPROCS(old)
	}
	d := Doc{Domain: "dom"}
	eff := map[int]string{}
	for _, i := range p.Allow {
		eff[i] = "allow"
	}
	for _, i := range p.Deny {
		eff[i] = "deny"
	}
	for i := 0; i < p.N; i++ {
		var pl Pol
		role := "dom:role.r" + itoa(i)
		for k := 0; k < p.Per; k++ {
			pl = append(pl, Asn{role, "write" + itoa(k), "dom:/never", []string{"deny", "allow"}[k%2]})
		}
		if e := eff[i]; e != "" {
			pl = append(pl, Asn{role, "re?d", "dom:/*", e})
		}
		if len(pl) > 0 {
			d.Pols = append(d.Pols, pl)
		}
	}
	docs := []Doc{d}
	var pd policy.Daemon
	var w *World
	if p.Auth {
		w = newWorld(stdRing(), docs, stdJwks(), authorizerd.WithAccessTokenParam(authorizerd.NewAccessTokenParam(true, false, "", "", false, nil)))
		defer w.stop()
		w.mustInit()
	} else {
		n := newNet()
		serveDocs(n, docs)
		pd = policyDaemon(n, policy.WithAthenzDomains("dom"))
		ctx, cancel := bg()
		defer cancel()
		if err := pd.Update(ctx); err != nil {
			return failf("valid policies were not loaded: %v", err)
		}
	}
	half()
	for i, k := range p.Calls {
		var roles []string
		for j := k.Roles[0]; j < p.N; j += k.Roles[1] {
			roles = append(roles, "r"+itoa(j))
		}
		want, _ := decide(docs, "dom", roles, "read", "/x")
		tok := ""
		if p.Auth {
			if k.Access {
				tok, _ = plainAT("dom", "user.a", "client.a", roles, T0+90000+int64(i)).build()
			} else {
				tok = roleToken(RT{Domain: "dom", Principal: "user.a", KeyID: "t0", Roles: roles, Issued: T0 - 1000, Expiry: T0 + 90000 + int64(i)}.unsigned(), "ec1")
			}
		}
		call := func(ctx context.Context) ([]string, error) {
			if !p.Auth {
				return pd.CheckPolicyRoles(ctx, "dom", append([]string(nil), roles...), "read", "/x")
			}
			var pr authorizerd.Principal
			var err error
			switch {
			case k.HTTP && k.Access:
				pr, err = w.az.Authorize(httpReq(ctx, "/", http.Header{"Authorization": {"Bearer " + tok}}, nil, false), "read", "/x")
			case k.HTTP:
				pr, err = w.az.Authorize(httpReq(ctx, "/", http.Header{"Athenz-Role-Auth": {tok}}, nil, false), "read", "/x")
			case k.Access:
				pr, err = w.az.AuthorizeAccessToken(ctx, tok, "read", "/x", nil)
			default:
				pr, err = w.az.AuthorizeRoleToken(ctx, tok, "read", "/x")
			}
			if err != nil {
				if pr != nil {
					return []string{"(a principal)"}, err
				}
				return nil, err
			}
			return viewOf(pr).Auth, nil
		}
		var ctx context.Context
		var cancel func()
		ctx, cancel = context.WithCancel(context.Background())
		var wg sync.WaitGroup
		switch k.When {
		case "before":
			cancel()
		case "at", "late":
			if k.When == "late" {
				dl := &dlCtx{Context: context.Background(), done: make(chan struct{})}
				ctx, cancel = dl, dl.pass
			}
			start := make(chan struct{})
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for s := 0; s < k.Spin; s++ {
					runtime.Gosched()
				}
				cancel()
			}()
			close(start)
		case "deadline":
			var c2 context.CancelFunc
			ctx, c2 = context.WithDeadline(ctx, time.Now().Add(-time.Second))
			defer c2()
		}
		got, err := call(ctx)
		wg.Wait()
		cancel()
		if err == nil || k.When == "live" {
			if e := agree(want, got, err); e != nil {
				return failf("call %d (%s cancelled: %s) over %d roles: %v", i, strings.TrimPrefix(jsonText(k), " "), k.When, len(roles), e)
			}
		} else if len(got) > 0 {
			return failf("call %d: %q together with error %v", i, got, err)
		}
		if k.When != "live" {
			if want.Deny {
				c.Label("cancelled call that has to be denied")
				c.NonTrivial()
			}
			if err != nil && want.Allowed {
				c.Label("cancelled call refused although granted by the policies")
				c.NonTrivial()
			}
			if err == nil {
				c.Label("cancelled too late")
			}
		}
		synctest.Wait()
		for a := 0; a < k.Again; a++ {
			got, err := call(context.Background())
			if e := agree(want, got, err); e != nil {
				return failf("call %d repeated without cancellation after a call cancelled %s (%v): %v", i, k.When, err, e)
			}
		}
	}
	return nil
}

func init() {
	register(Sub{Prop: "C35", Name: "cancel", Quick: 8000, Thorough: 200000,
		Rule: "policy checks and authorizations over 1-200 roles, some denying, whose context is cancelled before, during or not at all, each followed by live calls of the same; a grant needs the exact roles of the reference, and live calls answer as the reference; non-trivial: a cancelled call has to be denied, or was refused although the policies grant it"},
		genCan, runCan)
}
