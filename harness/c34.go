package harness

import (
	"context"
	"errors"
	"net/http"
	"sync"
	"time"

	"pgregory.net/rapid"

	authorizerd "github.com/yahoojapan/athenz-authorizer/v5"
)

// C34: authorizers in one process do not influence each other.

type isoInst struct {
	Docs   []Doc  `json:"docs"`
	Key    string `json:"key"` // ZTS key and token key
	Header string `json:"header"`
	Prefix string `json:"prefix"`
	Access bool   `json:"access"`
	Role   bool   `json:"role"`
	NoPol  bool   `json:"nopol,omitempty"`
	Bind   bool   `json:"bind,omitempty"`
	Map    string `json:"map,omitempty"` // maps action read to this one
	Start  bool   `json:"start,omitempty"`
}

type isoCall struct {
	Inst int     `json:"i"`
	Key  string  `json:"k"`
	Cred anyCred `json:"c"`
	HTTP bool    `json:"h,omitempty"`
	Act  string  `json:"act"`
	Res  string  `json:"res"`
}

type isoOp struct {
	Calls  []isoCall `json:"calls,omitempty"`
	Par    bool      `json:"par,omitempty"`
	Reinit int       `json:"re,omitempty"` // instance+1 that gets new documents and keys
	Docs   []Doc     `json:"docs,omitempty"`
	Key    string    `json:"key,omitempty"`
	Stop   int       `json:"stop,omitempty"` // instance+1 whose context is cancelled
}

type isoPlan struct {
	Inst []isoInst `json:"inst"`
	Ops  []isoOp   `json:"ops"`
}

var isoKeys = []string{"ec1", "ec2", "ec0"}

func genIso(t *rapid.T) isoPlan {
	var p isoPlan
	for i, n := 0, intIn(t, "ninst", 2, 3); i < n; i++ {
		in := isoInst{Docs: genSmallPolicies(t, "dom", "dom2"), Key: pick(t, "key", isoKeys...), Header: pick(t, "header", "", "X-Role", "X-Other"), Prefix: pick(t, "prefix", "", "", "/pre"),
			Access: !oneIn(t, "noaccess", 4), Role: !oneIn(t, "norole", 4), NoPol: oneIn(t, "nopol", 6), Bind: oneIn(t, "bind", 5), Map: pick(t, "map", "", "", "write", "delete"), Start: oneIn(t, "start", 2)}
		if !in.Access && !in.Role {
			in.Role = true
		}
		p.Inst = append(p.Inst, in)
	}
	call := func() isoCall {
		k := intIn(t, "inst", 0, len(p.Inst)-1)
		return isoCall{Inst: k, Key: pick(t, "ckey", p.Inst[k].Key, p.Inst[k].Key, "ec1", "ec2"), Cred: *genAnyCred(t, pick(t, "kind", "role", "access"), 8), HTTP: oneIn(t, "http", 2), Act: pick(t, "act", "read", "write"), Res: pick(t, "res", "x", "y", "/p/1")}
	}
	for i, n := 0, intIn(t, "nop", 1, 4); i < n; i++ {
		o := isoOp{Par: oneIn(t, "par", 3)}
		for k, m := 0, intIn(t, "ncall", 1, 5); k < m; k++ {
			ca := call()
			o.Calls = append(o.Calls, ca)
			if oneIn(t, "other", 2) {
				ca.Inst = intIn(t, "oinst", 0, len(p.Inst)-1)
				o.Calls = append(o.Calls, ca)
			}
		}
		switch intIn(t, "what", 0, 3) {
		case 0:
			o.Reinit, o.Docs, o.Key = 1+intIn(t, "re", 0, len(p.Inst)-1), genSmallPolicies(t, "dom", "dom2"), pick(t, "nkey", isoKeys...)
		case 1:
			o.Stop = 1 + intIn(t, "stop", 0, len(p.Inst)-1)
		}
		p.Ops = append(p.Ops, o)
	}
	return p
}

func isoRing(k string) KeyRing {
	return KeyRing{ZMS: map[string]string{"m0": "ec0"}, ZTS: map[string]string{"t0": k, "tp": "ec1"}}
}

func runIso(c *Case, p isoPlan) error {
	ws := make([]*World, len(p.Inst))
	cur := append([]isoInst(nil), p.Inst...)
	ctxs := make([]context.CancelFunc, len(p.Inst))
	stopped := make([]bool, len(p.Inst))
	signed := signing{"ec0", "m0", "ec1", "tp"}
	for i, in := range p.Inst {
		opts := []authorizerd.Option{
			authorizerd.WithAccessTokenParam(authorizerd.NewAccessTokenParam(in.Access, in.Bind, "0s", "0s", false, nil)),
			authorizerd.WithCacheExp(20 * time.Minute), authorizerd.WithResourcePrefix(in.Prefix), authorizerd.WithDisableRoleCert(),
			authorizerd.WithPubkeyRefreshPeriod("30m"), authorizerd.WithJwkRefreshPeriod("30m"), authorizerd.WithPolicyRefreshPeriod("30m"),
		}
		if in.Header != "" {
			opts = append(opts, authorizerd.WithRoleAuthHeader(in.Header))
		}
		if !in.Role {
			opts = append(opts, authorizerd.WithDisableRoleToken())
		}
		if in.NoPol {
			opts = append(opts, authorizerd.WithDisablePolicyd())
		}
		if in.Map != "" {
			opts = append(opts, authorizerd.WithTranslator(lib(authorizerd.NewMappingRules(map[string][]authorizerd.Rule{
				"dom": {{Method: "read", Path: "/p/{n}", Action: in.Map, Resource: "x"}}}))))
		}
		w := &World{n: newNet(), ring: isoRing(in.Key), jwks: map[string]map[string]string{athenzJwksURL(): {"j1": in.Key}}}
		for _, d := range in.Docs {
			w.docs = append(w.docs, d)
		}
		w.ctx, w.stop = context.WithCancel(context.Background())
		defer w.stop()
		for _, env := range []string{"zms", "zts"} {
			w.n.handle(serviceURL("sys.auth", env), func(*http.Request) *Resp { return &Resp{Status: 200, Body: isoRing(cur[i].Key).body(env)} })
		}
		for k := range in.Docs {
			w.n.handle(policyURL(in.Docs[k].Domain), func(*http.Request) *Resp {
				return &Resp{Status: 200, Body: must(jsonBytes(signDoc(cur[i].Docs[k], time.Now().Add(300*time.Hour), signed)))}
			})
		}
		w.n.handle(athenzJwksURL(), func(*http.Request) *Resp {
			return &Resp{Status: 200, Body: jwksBody(map[string]string{"j1": cur[i].Key})}
		})
		w.az = w.build(opts...)
		ws[i] = w
	}
	for i, w := range ws {
		w.mustInit()
		if p.Inst[i].Start {
			ctx, stop := context.WithCancel(w.ctx)
			ctxs[i] = stop
			ech := w.az.Start(ctx)
			go func() {
				for range ech {
				}
			}()
		}
	}
	half()
	// wants is what a lone authorizer would answer.
	wants := func(k isoCall) (prinView, bool) {
		in := cur[k.Inst]
		if k.Key != in.Key && k.Cred.Fault != "unknownkey" || k.Cred.Fault != "" {
			return prinView{}, false
		}
		if k.Cred.Kind == "role" && !in.Role || k.Cred.Kind == "access" && (!in.Access || in.Bind) {
			return prinView{}, false
		}
		v := k.Cred.view()
		if in.NoPol {
			return v, true
		}
		act, res := k.Act, k.Res
		if in.Map != "" && k.Cred.Domain == "dom" && act == "read" && res == "/p/1" {
			act, res = in.Map, "x"
		}
		d, _ := decide(in.Docs, k.Cred.Domain, k.Cred.Roles, act, in.Prefix+res)
		v.Auth = sortedKeys(d.Roles)
		return v, d.Allowed
	}
	token := func(k isoCall) string {
		exp := T0 + 1000000 + k.Cred.N
		if k.Cred.Fault == "expired" {
			exp = T0 - 10 - k.Cred.N
		}
		sk := k.Key
		if k.Cred.Fault == "forged" {
			sk = "ec3"
		}
		if k.Cred.Kind == "role" {
			rt := RT{Domain: k.Cred.Domain, Principal: k.Cred.Name, KeyID: "t0", Roles: k.Cred.Roles, Issued: T0 - 1000, Expiry: exp}
			if k.Cred.Fault == "unknownkey" {
				rt.KeyID = "zz"
			}
			tok := roleToken(rt.unsigned(), sk)
			switch k.Cred.Fault {
			case "altered":
				rt.Principal += "x"
				tok = rt.unsigned() + tok[len(tok)-len(";s=")-90:]
			case "empty":
				tok = ""
			}
			return tok
		}
		at := plainAT(k.Cred.Domain, k.Cred.Name, "client.a", k.Cred.Roles, exp)
		at.Key = sk
		switch k.Cred.Fault {
		case "unknownkey":
			at.Header["kid"] = "zz"
		case "altered":
			at.Mut = []AMut{{Kind: "clm", S: "sub", V: k.Cred.Name + "x"}}
		case "empty":
			return ""
		}
		tok, _ := at.build()
		return tok
	}
	// identical credentials are identical text, whichever instance they are shown to
	toks := map[string]string{}
	tokOf := func(k isoCall) string {
		id := jsonText([]any{k.Key, k.Cred})
		if toks[id] == "" {
			toks[id] = token(k)
		}
		return toks[id]
	}
	one := func(k isoCall, tok string) error {
		want, ok := wants(k)
		want.Exp = T0 + 1000000 + k.Cred.N
		w := ws[k.Inst]
		var pr authorizerd.Principal
		var err error
		in := cur[k.Inst]
		switch {
		case k.HTTP:
			h := http.Header{}
			if k.Cred.Kind == "access" {
				h.Set("Authorization", "Bearer "+tok)
			} else if in.Header == "" {
				h.Set("Athenz-Role-Auth", tok)
			} else {
				h.Set(in.Header, tok)
			}
			pr, err = w.az.Authorize(httpReq(w.ctx, "/", h, nil, false), k.Act, k.Res)
		case k.Cred.Kind == "role":
			if !in.Role {
				return nil
			}
			pr, err = w.az.AuthorizeRoleToken(context.Background(), tok, k.Act, k.Res)
		default:
			if !in.Access {
				return nil
			}
			pr, err = w.az.AuthorizeAccessToken(context.Background(), tok, k.Act, k.Res, nil)
		}
		if ok != (err == nil) {
			return failf("authorizer %d of %d: call %s: a lone authorizer would say authorized=%v, this one says %v", k.Inst, len(ws), jsonText(k), ok, err)
		}
		if ok && !sameView(want, viewOf(pr)) {
			return failf("authorizer %d: call %s: principal %v, want %v", k.Inst, jsonText(k), viewOf(pr), want)
		}
		if ok {
			c.Label("granted")
		}
		for j := range cur {
			o := k
			o.Inst = j
			if _, okj := wants(o); okj != ok {
				c.Label("authorizers differ about a call")
				c.NonTrivial()
			}
		}
		return nil
	}
	for i, o := range p.Ops {
		var wg sync.WaitGroup
		var mu sync.Mutex
		var errs []error
		for _, k := range o.Calls {
			tok := tokOf(k)
			if !o.Par {
				if err := one(k, tok); err != nil {
					return err
				}
				continue
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				if err := one(k, tok); err != nil {
					mu.Lock()
					errs = append(errs, err)
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		if err := errors.Join(errs...); err != nil {
			return failf("%v", errs[0])
		}
		if o.Stop > 0 && ctxs[o.Stop-1] != nil {
			ctxs[o.Stop-1]()
			stopped[o.Stop-1] = true
			c.Label("one of them is stopped")
		}
		if o.Reinit > 0 {
			j := o.Reinit - 1
			cur[j].Docs, cur[j].Key = o.Docs, o.Key
			if p.Inst[j].Start && !stopped[j] {
				time.Sleep(40 * time.Minute) // its background updates take the change over
				c.Label("one of them refreshes in the background")
			} else {
				if err := ws[j].az.Init(ws[j].ctx); err != nil {
					return failf("op %d: refreshing authorizer %d from healthy sources: %v", i, j, err)
				}
				c.Label("one of them is refreshed")
				// its cached grants may stay for their lifetime
				time.Sleep(40 * time.Minute)
			}
		}
	}
	return nil
}

func init() {
	register(Sub{Prop: "C34", Name: "instances", Quick: 7000, Thorough: 175000,
		Rule: "two or three authorizers with their own keys, policies, headers, prefixes, rules and enabled components over their own servers; the same credentials are presented to several of them, one after the other or concurrently, while one is refreshed or stopped; each answers as a lone authorizer by the reference; non-trivial: two of them have to answer a call differently"},
		genIso, runIso)
}
