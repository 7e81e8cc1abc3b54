package harness

import (
	"errors"
	"net/http"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"

	authorizerd "github.com/yahoojapan/athenz-authorizer/v5"
)

// C29: translation, prefix and policies together.

// stubRow is one line of a custom translator: what it makes of one domain, action, resource and query.
type stubRow struct {
	Domain string `json:"d"`
	Act    string `json:"a"`
	Res    string `json:"r"`
	Query  string `json:"q"`
	ToAct  string `json:"ta"`
	ToRes  string `json:"tr"`
	Err    bool   `json:"err,omitempty"`
}

type mapCall struct {
	Access bool     `json:"access,omitempty"`
	HTTP   bool     `json:"http,omitempty"`
	Domain string   `json:"d"`
	Roles  []string `json:"r"`
	Act    string   `json:"a"`
	Res    string   `json:"s"`
	Query  string   `json:"q,omitempty"`
	Name   string   `json:"n"`
}

type mapPlan struct {
	Docs     []Doc              `json:"docs"`
	Kind     string             `json:"kind"` // none, rules, stub
	Rules    map[string][]MRule `json:"rules,omitempty"`
	Stub     []stubRow          `json:"stub,omitempty"`
	Prefix   string             `json:"prefix"`
	NoPolicy bool               `json:"nopol,omitempty"`
	Calls    []mapCall          `json:"calls"`
	Twice    bool               `json:"twice,omitempty"`
	Par      bool               `json:"par,omitempty"`
}

// mapped is the reference: what the policies are asked about.
func (p mapPlan) mapped(k mapCall) (act, res string, reject, open bool) {
	act, res = k.Act, k.Res
	q := ""
	if k.HTTP {
		q = k.Query
	}
	switch p.Kind {
	case "rules":
		out, _, o := refTranslate(p.Rules[k.Domain], act, res, q)
		act, res, reject, open = out.Act, out.Res, out.Err, o
	case "stub":
		for _, r := range p.Stub {
			if r.Domain == k.Domain && r.Act == act && r.Res == res && r.Query == q {
				if r.Err {
					return "", "", true, false
				}
				act, res = r.ToAct, r.ToRes
				break
			}
		}
	}
	return act, p.Prefix + res, reject, open
}

type stubTranslator []stubRow

var errStub = errors.New("stub translator refuses")

func (s stubTranslator) Translate(d, a, r, q string) (string, string, error) {
	for _, x := range s {
		if x.Domain == d && x.Act == a && x.Res == r && x.Query == q {
			if x.Err {
				// the mapped pair comes along, but the error decides
				return x.ToAct, x.ToRes, errStub
			}
			return x.ToAct, x.ToRes, nil
		}
	}
	return a, r, nil
}

func genMap(t *rapid.T) mapPlan {
	p := mapPlan{Kind: pick(t, "kind", "none", "rules", "rules", "rules", "stub", "stub"), Prefix: pick(t, "prefix", "", "", "/api", "svc:", "P/", "*", "x?"), NoPolicy: oneIn(t, "nopol", 8), Twice: oneIn(t, "twice", 2), Par: oneIn(t, "par", 4)}
	doms := shuffled(t, "doms", []string{"dom", "dom2", "Dom", "dom.sub"})[:intIn(t, "ndoms", 2, 3)]
	ruleDoms := doms[:intIn(t, "nrd", 1, 2)]
	if p.Kind == "rules" {
		p.Rules = map[string][]MRule{}
		for _, d := range ruleDoms {
			rs := []MRule{}
			for i, n := 0, intIn(t, "nrule", 1, 4); i < n; i++ {
				r := genRule(t)
				if oneIn(t, "rprefixed", 6) {
					r.Resource = p.Prefix + r.Resource
				}
				rs = append(rs, r)
			}
			p.Rules[d] = rs
		}
	}
	for i, n := 0, intIn(t, "ncall", 1, 8); i < n; i++ {
		k := mapCall{Access: oneIn(t, "access", 2), HTTP: !oneIn(t, "direct", 3), Domain: pick(t, "d", doms...), Roles: shuffled(t, "roles", []string{"r0", "r1", "r2"})[:intIn(t, "nr", 1, 3)], Name: pick(t, "n", "user.a", "user.b")}
		switch {
		case p.Kind == "rules" && len(p.Rules[k.Domain]) > 0 && !oneIn(t, "free", 5):
			rs := p.Rules[k.Domain]
			q := genReqFor(t, k.Domain, rs[intIn(t, "rule", 0, len(rs)-1)])
			k.Act, k.Res, k.Query = q.Method, q.Path, q.Query
		default:
			k.Act, k.Res, k.Query = pick(t, "a", "read", "write", "GET"), pick(t, "s", "/a", "x", "/a/b", "y:z", "res"), pick(t, "q", "", "", "k=1", "k=2", "K=1", "k=1&", "&k=1", "a;b", "%zz", "k=+1")
		}
		if oneIn(t, "prefixed", 8) {
			k.Res = p.Prefix + k.Res
		}
		if i > 0 && oneIn(t, "like", 3) {
			// the same as an earlier call but for one thing
			f := k
			k = p.Calls[intIn(t, "as", 0, i-1)]
			switch pick(t, "diff", "query", "act", "res", "domain", "via", "type", "roles", "name") {
			case "query":
				k.Query = f.Query
			case "act":
				k.Act = f.Act
			case "res":
				k.Res = f.Res
			case "domain":
				k.Domain = f.Domain
			case "via":
				k.HTTP = !k.HTTP
			case "type":
				k.Access = !k.Access
			case "roles":
				k.Roles = f.Roles
			case "name":
				k.Name = f.Name
			}
		}
		switch intIn(t, "empty", 0, 24) {
		case 0:
			k.Act = ""
		case 1:
			k.Res = ""
		}
		k.Query = strings.NewReplacer("#", "", "\n", "").Replace(k.Query)
		p.Calls = append(p.Calls, k)
		if p.Kind == "stub" && !oneIn(t, "norow", 4) {
			q := ""
			if k.HTTP {
				q = k.Query
			}
			p.Stub = append(p.Stub, stubRow{k.Domain, k.Act, k.Res, q, pick(t, "ta", "read", "write", "map", ""), pick(t, "tr", "x", "/a", "mapped", "y:z", "", p.Prefix, p.Prefix+"x"), oneIn(t, "err", 5)})
		}
	}
	// Assertions about what calls become, and about what they would become were a step left out or done twice.
	pols := map[string]Pol{}
	for _, k := range p.Calls {
		a, r, _, _ := p.mapped(k)
		bare := strings.TrimPrefix(r, p.Prefix)
		for i, n := 0, intIn(t, "nasn", 1, 3); i < n; i++ {
			act, res := a, r
			switch intIn(t, "variant", 0, 13) {
			case 0:
				act, res = k.Act, p.Prefix+k.Res // not translated
			case 1:
				res = bare // not prefixed
			case 2:
				res = p.Prefix + r // prefixed twice
			case 3:
				act = k.Act
			case 4:
				res = p.Prefix + k.Res
			case 5:
				res = "*"
			case 6:
				act = "*"
			case 7:
				q := k
				q.HTTP = !q.HTTP // as without the query, or with it
				act, res, _, _ = p.mapped(q)
			case 8:
				q := k
				q.Domain = pick(t, "od", doms...)
				act, res, _, _ = p.mapped(q)
			}
			if act == "" || strings.ContainsAny(res+act, "\n\r") {
				continue
			}
			d := k.Domain
			pols[d] = append(pols[d], Asn{d + ":role." + pick(t, "arole", "r0", "r1", "r2"), act, d + ":" + res, genEffect(t, "eff")})
		}
	}
	for i, d := range doms {
		pol := pols[d]
		if len(pol) == 0 {
			pol = Pol{Asn{d + ":role.r0", "read", d + ":x", "allow"}}
		}
		p.Docs = append(p.Docs, Doc{Domain: d, Tag: i, Pols: []Pol{pol}})
	}
	return p
}

func runMap(c *Case, p mapPlan) error {
	opts := []authorizerd.Option{authorizerd.WithAccessTokenParam(authorizerd.NewAccessTokenParam(true, false, "", "", false, nil)), authorizerd.WithCacheExp(time.Hour), authorizerd.WithResourcePrefix(p.Prefix)}
	switch p.Kind {
	case "rules":
		if why := refRuleValid(p.Rules); why != "" {
			c.Label("invalid rules")
			return nil
		}
		opts = append(opts, authorizerd.WithTranslator(lib(mapping(p.Rules))))
	case "stub":
		opts = append(opts, authorizerd.WithTranslator(stubTranslator(p.Stub)))
	}
	if p.NoPolicy {
		opts = append(opts, authorizerd.WithDisablePolicyd())
	}
	w := newWorld(stdRing(), p.Docs, stdJwks(), opts...)
	defer w.stop()
	w.mustInit()
	half()
	toks := make([]string, len(p.Calls))
	for i, k := range p.Calls {
		cr := idCred{Access: k.Access, Domain: k.Domain, Name: k.Name, Roles: k.Roles, Issue: 100, Exp: 50000}
		toks[i] = cr.build()
		for j := 0; j < i; j++ {
			if o := p.Calls[j]; o.Access == k.Access && o.Domain == k.Domain && o.Name == k.Name && strings.Join(o.Roles, ",") == strings.Join(k.Roles, ",") {
				toks[i] = toks[j] // the same credential again
			}
		}
	}
	one := func(i int) error {
		k := p.Calls[i]
		var pr authorizerd.Principal
		var err error
		switch {
		case k.HTTP:
			h := http.Header{}
			if k.Access {
				h.Set("Authorization", "Bearer "+toks[i])
			} else {
				h.Set("Athenz-Role-Auth", toks[i])
			}
			r := httpReq(w.ctx, "/unrelated/path", h, nil, false)
			r.URL.RawQuery = k.Query
			pr, err = w.az.Authorize(r, k.Act, k.Res)
		case k.Access:
			pr, err = w.az.AuthorizeAccessToken(w.ctx, toks[i], k.Act, k.Res, nil)
		default:
			pr, err = w.az.AuthorizeRoleToken(w.ctx, toks[i], k.Act, k.Res)
		}
		act, res, reject, open := p.mapped(k)
		say := func(f string, a ...any) error {
			return failf("call %d %s (translator %s, prefix %q, policies enabled %v; decided on action %q resource %q): %v", i, jsonText(k), p.Kind, p.Prefix, !p.NoPolicy, act, res, failf(f, a...))
		}
		if p.NoPolicy {
			c.Label("policies disabled")
			if err != nil {
				return say("a valid credential was rejected: %v", err)
			}
			return nil
		}
		if k.Act == "" || k.Res == "" {
			c.Label("empty action or resource")
			if err == nil {
				return say("accepted")
			}
			return nil
		}
		if reject {
			c.Label("translation error")
			if err == nil {
				return say("accepted although the translator fails")
			}
			return nil
		}
		v, ok := decide(p.Docs, k.Domain, k.Roles, act, res)
		if open || !ok {
			c.Label("left open")
			return nil
		}
		raw, rok := decide(p.Docs, k.Domain, k.Roles, k.Act, k.Res)
		if rok && raw.Allowed != v.Allowed {
			c.Label("mapping decides")
			c.NonTrivial()
		}
		if (err == nil) != v.Allowed {
			return say("got %v, the policies say allowed=%v", err, v.Allowed)
		}
		if err == nil {
			c.Label("allowed")
			if got := uniqSorted(viewOf(pr).Auth); strings.Join(got, ",") != strings.Join(sortedKeys(v.Roles), ",") {
				return say("authorized roles %q, granting roles %q", got, sortedKeys(v.Roles))
			}
		} else {
			c.Label("rejected")
		}
		return nil
	}
	for n := 0; n < 2; n++ {
		if p.Par && n == 0 {
			errs := make([]error, len(p.Calls))
			var wg sync.WaitGroup
			for i := range p.Calls {
				wg.Add(1)
				go func() { defer wg.Done(); errs[i] = one(i) }()
			}
			wg.Wait()
			for _, err := range errs {
				if err != nil {
					return err
				}
			}
			continue
		}
		for i := range p.Calls {
			if err := one(i); err != nil {
				return err
			}
		}
		if !p.Twice {
			break
		}
	}
	return nil
}

func init() {
	register(Sub{Prop: "C29", Name: "mapped", Quick: 20000, Thorough: 500000,
		Rule: "role and access tokens presented directly and in HTTP requests with queries, mapping rules or a custom translator (with errors), prefixes, and policies about the mapped pair and about what it would be with a step left out, doubled or taken from another domain; non-trivial: the mapped pair is decided differently from the caller's own pair"},
		genMap, runMap)
}
