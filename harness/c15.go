package harness

import (
	"reflect"
	"time"

	"pgregory.net/rapid"

	authorizerd "github.com/yahoojapan/athenz-authorizer/v5"
)

// C15: cached grants age out, failures are not remembered.

type c15Op struct {
	Adv  int     `json:"adv,omitempty"` // seconds to wait first
	Doc  int     `json:"doc"`           // -1 leaves it; otherwise the variant to serve from here on
	Ring string  `json:"ring,omitempty"`
	Jwk  string  `json:"jwk,omitempty"`
	Call *azCall `json:"call,omitempty"`
}

type c15Plan struct {
	Life  int     `json:"life"` // cache lifetime in seconds, plus a quarter
	Docs  []Doc   `json:"docs"`
	Creds []Cred  `json:"creds"`
	Start bool    `json:"start,omitempty"`
	Bind  bool    `json:"bind,omitempty"`
	Ops   []c15Op `json:"ops"`
}

func genC15(t *rapid.T) c15Plan {
	p := c15Plan{Life: pick(t, "life", 2, 5, 10, 60), Start: oneIn(t, "start", 3), Bind: oneIn(t, "bind", 3)}
	near := func() int64 { return T0 + int64(intIn(t, "expiry", 2, 2*p.Life+10)) }
	far := int64(T0 + 100000)
	more := func(rs ...string) []string {
		for i, n := 0, pick(t, "more", 0, 0, 0, 1, 5, 20); i < n; i++ {
			rs = append(rs, "other"+itoa(i))
		}
		return rs
	}
	p.Creds = []Cred{
		{RT: &RT{Domain: "dom", Principal: "user.a", KeyID: "t2", Roles: more("r0", "r1"), Issued: T0 - 50, Expiry: pick(t, "e0", far, near())}},
		{AT: plainAT("dom", "user.b", "client.a", more("r0", "r1"), pick(t, "e1", far, near()))},
		{RT: &RT{Domain: "dom", Principal: "user.c", KeyID: "t1", Roles: []string{"r1"}, Issued: T0 - 50, Expiry: far}},
	}
	cert := &Cert{CN: "client.a", IssuerCN: "ca", NotBefore: T0 - 3600}
	if p.Bind {
		p.Creds[1].AT.Bind = cert
	}
	// variants of the policy
	for i := 0; i < 3; i++ {
		var pol Pol
		for _, r := range []string{"r0", "r1"} {
			for _, a := range []string{"read", "write"} {
				switch intIn(t, "rule", 0, 3) {
				case 0, 1:
					pol = append(pol, Asn{"dom:role." + r, a, "dom:x", "allow"})
				case 2:
					if oneIn(t, "deny", 2) {
						pol = append(pol, Asn{"dom:role." + r, a, "dom:x", "deny"})
					}
				}
			}
		}
		p.Docs = append(p.Docs, Doc{Domain: "dom", Tag: i, Pols: []Pol{pol}})
	}
	mk := func() *azCall {
		k := &azCall{Tok: pick(t, "tok", 0, 1, 0, 1, 2), Act: pick(t, "act", "read", "read", "write"), Res: "x"}
		k.Via = "role"
		if k.Tok == 1 {
			k.Via = "access"
			if p.Bind {
				k.Cert = cert
			}
		}
		if oneIn(t, "http", 4) {
			k.Via = "http"
		}
		return k
	}
	calls := []*azCall{mk(), mk()}
	n := intIn(t, "n", 4, 16)
	for i := 0; i < n; i++ {
		o := c15Op{Doc: -1}
		switch intIn(t, "adv", 0, 5) {
		case 0, 1:
			o.Adv = intIn(t, "short", 0, 2)
		case 2, 3:
			o.Adv = intIn(t, "part", 1, p.Life)
		case 4:
			o.Adv = pick(t, "edge", p.Life, p.Life+1, p.Life-1, p.Life/2+1)
		}
		switch intIn(t, "op", 0, 7) {
		case 0:
			o.Doc = intIn(t, "doc", 0, 2)
		case 1:
			o.Ring = pick(t, "ring", "full", "gone", "other")
		case 2:
			o.Jwk = pick(t, "jwk", "full", "gone", "other")
		}
		if !oneIn(t, "quiet", 4) {
			o.Call = calls[intIn(t, "which", 0, 1)]
			if oneIn(t, "newcall", 5) {
				o.Call = mk()
			}
		}
		p.Ops = append(p.Ops, o)
	}
	return p
}

func runC15(c *Case, p c15Plan) error {
	life := time.Duration(p.Life)*time.Second + 250*time.Millisecond
	opts := []authorizerd.Option{
		authorizerd.WithAccessTokenParam(authorizerd.NewAccessTokenParam(true, p.Bind, "1h", "1h", false, nil)),
		authorizerd.WithCacheExp(life), authorizerd.WithDisableRoleCert()}
	ring := stdRing()
	ring.ZTS["t2"] = "ec2"
	w := newWorld(ring, []Doc{p.Docs[0]}, stdJwks(), opts...)
	defer w.stop()
	w.mustInit()
	if p.Start {
		ech := w.az.Start(w.ctx)
		go func() {
			for range ech {
			}
		}()
	}
	half()
	var toks []string
	for _, k := range p.Creds {
		toks = append(toks, k.build())
	}
	type entry struct {
		at   time.Time // the latest instant at which the grant can have been established
		view prinView
	}
	cache := map[string]entry{}
	failed := map[string]bool{}
	for i, o := range p.Ops {
		time.Sleep(time.Duration(o.Adv) * time.Second)
		changed := o.Doc >= 0 || o.Ring != "" || o.Jwk != ""
		if o.Doc >= 0 {
			w.setDoc(p.Docs[o.Doc])
		}
		switch o.Ring {
		case "full":
			w.ring.ZTS["t2"] = "ec2"
		case "gone":
			delete(w.ring.ZTS, "t2")
		case "other":
			w.ring.ZTS["t2"] = "ec3"
		}
		switch o.Jwk {
		case "full":
			w.jwks[athenzJwksURL()]["j1"] = "ec1"
		case "gone":
			delete(w.jwks[athenzJwksURL()], "j1")
		case "other":
			w.jwks[athenzJwksURL()]["j1"] = "ec3"
		}
		if changed {
			w.mustInit()
		}
		if o.Call == nil {
			continue
		}
		f := w.build(opts...)
		if err := f.Init(w.ctx); err != nil {
			return failf("initialisation over healthy sources failed: %v", err)
		}
		fresh := o.Call.do(w.ctx, f, toks, p.Creds)
		got := o.Call.do(w.ctx, w.az, toks, p.Creds)
		id := jsonText(o.Call)
		if o.Call.Via == "http" { // shares the entry of the direct call
			k := *o.Call
			k.Via = "role"
			if p.Creds[k.Tok].AT != nil {
				k.Via = "access"
			}
			id = jsonText(k)
		}
		now := time.Now()
		e, has := cache[id]
		age := now.Sub(e.at)
		old := has && age < life
		switch {
		case reflect.DeepEqual(got, fresh):
			if got.Err {
				failed[id] = true
				c.Label("refused")
				if has {
					c.Label("refused after an old grant")
					c.NonTrivial()
				}
			} else {
				if failed[id] {
					c.Label("granted once the cause of a refusal is gone")
					c.NonTrivial()
				}
				cache[id] = entry{now, got.P}
				c.Label("granted")
			}
		case old && !got.Err && reflect.DeepEqual(got.P, e.view):
			c.Label("repeated though now different")
			c.NonTrivial()
		default:
			return failf("op %d, call %s: answered %s; a check now gives %s; last grant %v ago (lifetime %v, had one: %v): %s", i, id, got, fresh, age, life, has, e.view)
		}
	}
	return nil
}

func init() {
	register(Sub{Prop: "C15", Name: "ages", Quick: 5000, Thorough: 125000,
		Rule: "histories of calls, policy changes, key rotations and waits around the cache lifetime; each answer is the answer of a fresh authorizer or a grant younger than the lifetime; non-trivial: a grant repeated after its cause is gone, a refusal after such a grant aged out, or a grant after a refusal"},
		genC15, runC15)
}
