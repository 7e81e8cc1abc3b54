package harness

import (
	"context"
	"net/http"
	"reflect"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"

	authorizerd "github.com/yahoojapan/athenz-authorizer/v5"
)

// C28: what a principal says.

type idCred struct {
	Access bool     `json:"access,omitempty"`
	Domain string   `json:"d"`
	Name   string   `json:"n"`
	Roles  []string `json:"r"`
	Issue  int64    `json:"i"` // seconds before T0
	Exp    int64    `json:"e"` // seconds after T0
	Client string   `json:"c,omitempty"`
	Extra  string   `json:"x,omitempty"` // further role-token fields
}

func (k idCred) build() string {
	if k.Access {
		l := []any{}
		for _, r := range k.Roles {
			l = append(l, r)
		}
		a := &ATok{Header: map[string]any{"alg": "ES256", "kid": "j1"},
			Claims: map[string]any{"iss": ztsBase, "aud": k.Domain, "sub": k.Name, "client_id": k.Client, "scp": l, "iat": T0 - k.Issue, "exp": T0 + k.Exp}, Alg: "ES256", Key: "ec1"}
		tok, _ := a.build()
		return tok
	}
	r := RT{Domain: k.Domain, Principal: k.Name, KeyID: "t0", Roles: k.Roles, Issued: T0 - k.Issue, Expiry: T0 + k.Exp, Extra: k.Extra}
	return roleToken(r.unsigned(), "ec1")
}

func (k idCred) view() prinView {
	return prinView{Name: k.Name, Domain: k.Domain, Roles: k.Roles, Issue: T0 - k.Issue, Exp: T0 + k.Exp, OAuth: k.Access, Client: k.Client}
}

type idCall struct {
	Cred int    `json:"cred"`
	HTTP bool   `json:"http,omitempty"`
	Act  string `json:"act"`
	Res  string `json:"res"`
	Par  int    `json:"par"` // 0: one after the other, otherwise so many goroutines make it
}

type idPlan struct {
	Versions [][]Doc    `json:"versions"`
	Creds    []idCred   `json:"creds"`
	Phases   [][]idCall `json:"phases"` // phase i runs under Versions[i]
	NoPolicy bool       `json:"nopol,omitempty"`
	Prefix   string     `json:"prefix,omitempty"`
}

func genIDCred(t *rapid.T, doms, roles []string) idCred {
	k := idCred{Access: oneIn(t, "access", 2), Domain: pick(t, "d", doms...), Issue: int64(intIn(t, "i", 0, 3000)), Exp: int64(intIn(t, "e", 20000, 90000))}
	k.Name = pick(t, "n", "user.a", "user.a", "user.b", "svc.c", "dom.service-1", "user.日本", "a,b", "x=y", "", "p:role.q", "U", "user a", "0")
	for i, n := 0, intIn(t, "nr", 1, 4); i < n; i++ {
		k.Roles = append(k.Roles, pick(t, "r", roles...))
	}
	if k.Access {
		k.Client = pick(t, "c", "client.a", "client.b", "", "user.a", k.Name)
	} else {
		k.Name = strings.NewReplacer(";", "").Replace(k.Name)
		k.Extra = pick(t, "x", "", "", ";c=1", ";z=user.z", ";q=1,2")
		if k.Name == "" {
			k.Name = "p"
		}
	}
	return k
}

func genID(t *rapid.T) idPlan {
	p := idPlan{NoPolicy: oneIn(t, "nopol", 8), Prefix: pick(t, "prefix", "", "", "p/")}
	doms := []string{"dom", "dom2"}
	roles := []string{"r0", "r1", "r2", "r3", "R0"}
	for v, n := 0, intIn(t, "nver", 1, 3); v < n; v++ {
		var docs []Doc
		for i, d := range doms {
			var pol Pol
			for j, m := 0, intIn(t, "nasn", 2, 9); j < m; j++ {
				eff := "allow"
				if oneIn(t, "deny", 8) {
					eff = "deny"
				}
				pol = append(pol, Asn{d + ":role." + pick(t, "role", "r0", "r1", "r2", "r3", "R0"), pick(t, "act", "read", "write", "*", "r*"), d + ":" + p.Prefix + pick(t, "res", "x", "y", "*", "*", "z?"), eff})
			}
			docs = append(docs, Doc{Domain: d, Tag: 10*v + i, Pols: []Pol{pol}})
		}
		p.Versions = append(p.Versions, docs)
	}
	for i, n := 0, intIn(t, "ncred", 1, 6); i < n; i++ {
		k := genIDCred(t, doms, roles)
		if i > 0 && oneIn(t, "twin", 2) {
			// differs from an earlier one in a single respect
			o := p.Creds[intIn(t, "of", 0, i-1)]
			f := k
			k = o
			k.Roles = append([]string(nil), o.Roles...)
			switch pick(t, "diff", "name", "roles", "order", "domain", "issue", "exp", "client", "none", "kind", "near") {
			case "name":
				k.Name = f.Name
			case "roles":
				k.Roles = f.Roles
			case "order":
				k.Roles = shuffled(t, "ord", k.Roles)
			case "domain":
				k.Domain = f.Domain
			case "issue":
				k.Issue = f.Issue
			case "exp":
				k.Exp = f.Exp
			case "client":
				if k.Access {
					k.Client = pick(t, "c2", "client.a", "client.b", "", "CLIENT.A")
				}
			case "kind":
				k.Access = !k.Access
				k.Client, k.Extra = "", ""
			case "near":
				if n := near(t, "nn", k.Name); !strings.ContainsAny(n, ";\n\r") && cleanUTF8(n) == n && strings.TrimSpace(n) != "" {
					k.Name = n
				}
			}
		}
		if !k.Access && (k.Name == "" || strings.ContainsAny(k.Name, ";=")) {
			k.Name = "user.n"
		}
		p.Creds = append(p.Creds, k)
	}
	for range p.Versions {
		var calls []idCall
		for i, n := 0, intIn(t, "ncall", 1, 8); i < n; i++ {
			c := idCall{Cred: intIn(t, "cred", 0, len(p.Creds)-1), HTTP: oneIn(t, "http", 3), Act: pick(t, "cact", "read", "read", "write"), Res: pick(t, "cres", "x", "y", "z1", "READ")}
			if oneIn(t, "par", 2) {
				c.Par = intIn(t, "npar", 1, 6)
			}
			calls = append(calls, c)
		}
		p.Phases = append(p.Phases, calls)
	}
	return p
}

// returned is a principal together with what it has to say for ever.
type returned struct {
	p     authorizerd.Principal
	want  prinView
	where string
}

func runID(c *Case, p idPlan) error {
	const exp = 10 * time.Second
	opts := []authorizerd.Option{authorizerd.WithAccessTokenParam(authorizerd.NewAccessTokenParam(true, false, "", "", false, nil)), authorizerd.WithCacheExp(exp), authorizerd.WithResourcePrefix(p.Prefix)}
	if p.NoPolicy {
		opts = append(opts, authorizerd.WithDisablePolicyd())
	}
	w := newWorld(stdRing(), p.Versions[0], stdJwks(), opts...)
	defer w.stop()
	w.mustInit()
	half()
	toks := make([]string, len(p.Creds))
	for i, k := range p.Creds {
		toks[i] = k.build()
	}
	var mu sync.Mutex
	var got []returned
	var bad error
	ctx, cancel := context.WithCancel(w.ctx)
	defer cancel()
	one := func(k idCall, docs []Doc, where string) {
		cr := p.Creds[k.Cred]
		want := cr.view()
		allowed := true
		if !p.NoPolicy {
			v, ok := decide(docs, cr.Domain, cr.Roles, k.Act, p.Prefix+k.Res)
			if !ok {
				return // newlines: left open
			}
			allowed, want.Auth = v.Allowed, sortedKeys(v.Roles)
		}
		var pr authorizerd.Principal
		var err error
		switch {
		case k.HTTP && cr.Access:
			pr, err = w.az.Authorize(httpReq(ctx, "/", http.Header{"Authorization": {"Bearer " + toks[k.Cred]}}, nil, false), k.Act, k.Res)
		case k.HTTP:
			pr, err = w.az.Authorize(httpReq(ctx, "/", http.Header{"Athenz-Role-Auth": {toks[k.Cred]}}, nil, false), k.Act, k.Res)
		case cr.Access:
			pr, err = w.az.AuthorizeAccessToken(ctx, toks[k.Cred], k.Act, k.Res, nil)
		default:
			pr, err = w.az.AuthorizeRoleToken(ctx, toks[k.Cred], k.Act, k.Res)
		}
		mu.Lock()
		defer mu.Unlock()
		fail := func(f string, a ...any) {
			if bad == nil {
				bad = failf("%s, credential %s: %v", where, jsonText(cr), failf(f, a...))
			}
		}
		switch {
		case (err == nil) != allowed:
			fail("authorization result %v, expected allowed=%v", err, allowed)
		case err == nil && isNil(pr):
			fail("no principal")
		case err == nil:
			if v := viewOf(pr); !sameID(v, want) {
				fail("the principal is %v, signed and granted is %v", v, want)
			}
			got = append(got, returned{pr, want, where})
			if len(want.Auth) > 0 && len(want.Auth) < len(uniqSorted(want.Roles)) {
				c.Label("some but not all roles grant")
				c.NonTrivial()
			}
		default:
			if !isNil(pr) {
				fail("a principal comes with an error: %v", viewOf(pr))
			}
		}
	}
	for i, docs := range p.Versions {
		if i > 0 {
			time.Sleep(exp + time.Second) // what was cached has expired
			if !p.NoPolicy {
				for _, d := range docs {
					w.setDoc(d)
				}
				w.mustInit()
			}
			c.Label("policies replaced")
		}
		var wg sync.WaitGroup
		for j, k := range p.Phases[i] {
			where := "phase " + itoa(i) + " call " + itoa(j) + " " + jsonText(k)
			if k.Par == 0 {
				wg.Wait()
				one(k, docs, where)
				continue
			}
			for g := 0; g < k.Par; g++ {
				wg.Add(1)
				go func() { defer wg.Done(); one(k, docs, where) }()
			}
			c.Label("concurrent")
		}
		wg.Wait()
		if bad != nil {
			return bad
		}
		// nothing returned so far has changed
		for _, r := range got {
			if v := viewOf(r.p); !sameID(v, r.want) {
				return failf("the principal returned in %s says %v after later authorizations, it said %v", r.where, v, r.want)
			}
		}
	}
	c.mu.Lock()
	c.labels["principals"] += len(got)
	c.mu.Unlock()
	if len(got) > 1 {
		c.NonTrivial()
	}
	return nil
}

// sameID compares everything a principal says; roles keep their order, authorized roles are a set.
func sameID(a, b prinView) bool {
	if len(a.Roles) == 0 && len(b.Roles) == 0 {
		a.Roles, b.Roles = nil, nil
	}
	a.Auth, b.Auth = uniqSorted(a.Auth), uniqSorted(b.Auth)
	return reflect.DeepEqual(a, b)
}

func init() {
	register(Sub{Prop: "C28", Name: "principal", Quick: 12000, Thorough: 300000,
		Rule: "role and access tokens, many of which differ in one field, authorized one after the other and concurrently under one to three versions of the policies; every principal ever returned is compared with the signed fields and the granting roles at once and after everything else; non-trivial: several principals, or a strict subset of the roles grants"},
		genID, runID)
}
