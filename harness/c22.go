package harness

import (
	"crypto"
	"encoding/json"
	"fmt"
	"net/http"
	"sort"
	"strings"
	"sync"

	"github.com/AthenZ/athenz/utils/zpe-updater/util"
	"pgregory.net/rapid"

	"github.com/yahoojapan/athenz-authorizer/v5/jwk"
	"github.com/yahoojapan/athenz-authorizer/v5/policy"
	"github.com/yahoojapan/athenz-authorizer/v5/pubkey"
)

// C22: no response crashes a daemon, loses what is loaded, or leaks a connection.

// JMut replaces, removes or duplicates one node of a JSON tree.
type JMut struct {
	Node int    `json:"n"`
	Op   string `json:"op"`
}

// Weird is one response. Every kind but "good" is derived from the valid one.
type Weird struct {
	Kind   string            `json:"k"`
	Rev    int               `json:"rev"`
	Status int               `json:"st,omitempty"`
	Raw    string            `json:"raw,omitempty"`
	N      int               `json:"n,omitempty"`
	Muts   []JMut            `json:"muts,omitempty"`
	Hdr    map[string]string `json:"hdr,omitempty"`
	Again  bool              `json:"again,omitempty"` // the valid response follows when asked again
}

type wPlan struct {
	Target string             `json:"target"`
	Ops    []map[string]Weird `json:"ops"` // endpoint -> response from here on
}

var wEnds = map[string][]string{"policy": {"a", "b"}, "pubkey": {"zms", "zts"}, "jwk": {"j1", "j2"}}

var wRaw = []string{"", " ", "\n", "<html>503</html>", "{", "[", "nul", "\x00\x01", "\xff\xfe{}", "tru", `{"a":}`, `"open`, "{]", "-"}
var wTop = []string{"null", " null\n", "true", "0", `"x"`, "[]", "[null]", "[{}]", "[[]]"}

// wOdd is JSON whose effect the specification leaves open.
var wOdd = []string{"{}", "{}{}", `{"keys":null}`, `{"keys":[]}`, `{"keys":[null]}`, `{"keys":{}}`, `{"keys":[{"kty":"EC"}]}`, `{"publicKeys":null}`, `{"publicKeys":[null]}`, `{"publicKeys":[{}]}`, `{"publicKeys":{}}`, `{"publicKeys":[{"id":1}]}`,
	`{"signedPolicyData":null}`, `{"signedPolicyData":{}}`, `{"signedPolicyData":{"policyData":null,"expires":"2999-01-01T00:00:00.000Z"},"keyId":"t0"}`, `{"signedPolicyData":{"expires":"never"}}`, `{"signedPolicyData":[],"signature":null}`, `{"kty":"oct","k":""}`, `{"kty":"RSA","n":"","e":""}`}

var mutOps = []string{"null", "null", "null", "obj", "arr", "arrnull", "empty", "num", "big", "true", "del", "del", "dup", "nest", "long"}

func genMuts(t *rapid.T) []JMut {
	var out []JMut
	for i, n := 0, intIn(t, "nmut", 1, 3); i < n; i++ {
		out = append(out, JMut{intIn(t, "node", 0, 60), pick(t, "mop", mutOps...)})
	}
	return out
}

func genWeird(t *rapid.T, target string, rev int) Weird {
	w := Weird{Rev: rev, Kind: pick(t, "kind", "good", "good", "good", "status", "status", "status", "err", "cut", "raw", "raw", "top", "odd", "mut", "mut", "deep", "redirect")}
	if target == "policy" && oneIn(t, "signed", 3) {
		w.Kind = "signed"
	}
	if oneIn(t, "etag", 3) {
		w.Hdr = map[string]string{"ETag": pick(t, "etagv", fmt.Sprintf(`"r%d"`, rev), `""`, "*", "x")}
	}
	switch w.Kind {
	case "status":
		w.Status = pick(t, "status", 304, 304, 304, 201, 202, 203, 204, 205, 206, 226, 299, 300, 305, 306, 399, 400, 401, 403, 404, 409, 412, 418, 429, 500, 502, 503, 504, 599, 600, 999)
		w.Raw = pick(t, "sbody", "valid", "valid", "", "<html>")
	case "redirect":
		w.Status = pick(t, "rstatus", 301, 302, 303, 307, 308)
		w.Raw = pick(t, "loc", "-", "", "self", "https://nowhere.test/", "::bad::", "/relative", "ftp://x/y")
	case "cut":
		w.N = intIn(t, "cut", 0, 1000)
	case "raw":
		w.Raw = pick(t, "raw", wRaw...)
	case "top":
		w.Raw = pick(t, "top", wTop...)
	case "odd":
		w.Raw = pick(t, "odd", wOdd...)
	case "deep":
		w.Raw, w.N = pick(t, "deepk", "[", `{"keys":`, `{"publicKeys":[`, `{"signedPolicyData":`, `{"a":`), pick(t, "deepn", 50, 9999, 10001, 200000)
	case "mut", "signed":
		w.Muts = genMuts(t)
	}
	w.Again = w.Kind != "good" && oneIn(t, "again", 6)
	return w
}

func genWPlan(t *rapid.T) wPlan {
	p := wPlan{Target: pick(t, "target", "policy", "policy", "pubkey", "pubkey", "jwk")}
	rev := 0
	for i, n := 0, intIn(t, "nop", 1, 7); i < n; i++ {
		o := map[string]Weird{}
		for _, e := range wEnds[p.Target] {
			if i == 0 || oneIn(t, "change", 2) {
				rev++
				o[e] = genWeird(t, p.Target, rev)
			}
		}
		p.Ops = append(p.Ops, o)
	}
	fin := map[string]Weird{}
	for _, e := range wEnds[p.Target] {
		rev++
		fin[e] = Weird{Kind: "good", Rev: rev}
	}
	p.Ops = append(p.Ops, fin)
	return p
}

// mutate applies the mutations to a JSON text.
func mutate(body []byte, muts []JMut) []byte {
	var v any
	if json.Unmarshal(body, &v) != nil {
		return body
	}
	for _, m := range muts {
		type slot struct {
			get func() any
			set func(any)
			del func()
		}
		var slots []slot
		slots = append(slots, slot{func() any { return v }, func(x any) { v = x }, func() {}})
		var walk func(x any)
		walk = func(x any) {
			switch n := x.(type) {
			case map[string]any:
				ks := make([]string, 0, len(n))
				for k := range n {
					ks = append(ks, k)
				}
				sort.Strings(ks)
				for _, k := range ks {
					slots = append(slots, slot{func() any { return n[k] }, func(y any) { n[k] = y }, func() { delete(n, k) }})
					walk(n[k])
				}
			case []any:
				for i := range n {
					slots = append(slots, slot{func() any { return n[i] }, func(y any) { n[i] = y }, func() { n[i] = nil }})
					walk(n[i])
				}
			}
		}
		walk(v)
		s := slots[m.Node%len(slots)]
		switch m.Op {
		case "null":
			s.set(nil)
		case "obj":
			s.set(map[string]any{})
		case "arr":
			s.set([]any{})
		case "arrnull":
			s.set([]any{nil})
		case "empty":
			s.set("")
		case "num":
			s.set(-1)
		case "big":
			s.set(json.Number("1e400"))
		case "true":
			s.set(true)
		case "del":
			s.del()
		case "dup":
			s.set([]any{s.get(), s.get()})
		case "nest":
			s.set(map[string]any{"x": s.get()})
		case "long":
			s.set(strings.Repeat("A", 5000))
		}
		// normalise shared subtrees
		b, err := json.Marshal(v)
		if err != nil || json.Unmarshal(b, &v) != nil {
			return body
		}
	}
	return must(json.Marshal(v))
}

// signedMutant is a document of odd shape with valid signatures.
func signedMutant(d Doc, muts []JMut) []byte {
	good := docBody(d)
	var full util.DomainSignedPolicyData
	if json.Unmarshal(good, &full) != nil {
		return good
	}
	var spd util.SignedPolicyData
	if json.Unmarshal(mutate(must(json.Marshal(full.SignedPolicyData)), muts), &spd) != nil {
		return mutate(good, muts)
	}
	pd, err := json.Marshal(spd.PolicyData)
	if err != nil {
		return mutate(good, muts)
	}
	spd.ZmsKeyId, spd.ZmsSignature = "m0", key("ec0").sign(string(pd))
	sb, err := json.Marshal(&spd)
	if err != nil {
		return mutate(good, muts)
	}
	return must(json.Marshal(map[string]any{"keyId": "t0", "signature": key("ec1").sign(string(sb)), "signedPolicyData": json.RawMessage(sb)}))
}

func wDoc(e string, rev int) Doc {
	dom := "dom." + e
	return Doc{Domain: dom, Tag: rev, Pols: []Pol{
		{{dom + ":role.keep", "read", dom + ":/keep", "allow"}, {dom + fmt.Sprintf(":role.rev%d", rev), "read", dom + ":/*", "allow"}},
		{{dom + ":role.bad", "*", dom + ":*", "deny"}}}}
}

func wKeys(rev int) map[string]string {
	return map[string]string{"keep": poolKeys[rev%len(poolKeys)], fmt.Sprintf("rev%d", rev): poolKeys[(rev+1)%len(poolKeys)]}
}

// jwKeyName tells which key a JWK provider returned.
func jwKeyName(got any) string {
	for _, k := range poolKeys {
		if pub, ok := key(k).Priv.Public().(interface{ Equal(crypto.PublicKey) bool }); ok && got != nil && pub.Equal(got) {
			return k
		}
	}
	if got == nil {
		return ""
	}
	return "unknown key"
}

func runWeird(c *Case, p wPlan) error {
	n := newNet()
	ctx, stop := bg()
	defer stop()
	serve := map[string]Weird{}
	asked := map[string]int{}
	var mu sync.Mutex
	valid := func(e string, rev int) []byte {
		switch p.Target {
		case "policy":
			return docBody(wDoc(e, rev))
		case "pubkey":
			return pubkeyBody(e, wKeys(rev))
		}
		return jwksBody(wKeys(rev))
	}
	answer := func(e, self string) *Resp {
		mu.Lock()
		w := serve[e]
		asked[e]++
		count := asked[e]
		mu.Unlock()
		good := &Resp{Status: 200, Header: w.Hdr, Body: valid(e, w.Rev)}
		if w.Again && count > 1 {
			return good
		}
		switch w.Kind {
		case "status":
			r := &Resp{Status: w.Status, Header: w.Hdr, Body: []byte(w.Raw)}
			if w.Raw == "valid" {
				r.Body = good.Body
			}
			return r
		case "redirect":
			r := &Resp{Status: w.Status, Header: map[string]string{}, Body: good.Body}
			if w.Raw == "self" {
				r.Header["Location"] = self
			} else if w.Raw != "-" {
				r.Header["Location"] = w.Raw
			}
			return r
		case "err":
			return &Resp{Err: &netErr{msg: "connection reset"}}
		case "cut":
			return &Resp{Status: 200, Header: w.Hdr, Body: good.Body, BodyErr: true, CutAt: w.N % (len(good.Body) - 2)}
		case "raw", "top", "odd":
			return &Resp{Status: 200, Header: w.Hdr, Body: []byte(w.Raw)}
		case "deep":
			return &Resp{Status: 200, Header: w.Hdr, Body: []byte(strings.Repeat(w.Raw, w.N))}
		case "mut":
			return &Resp{Status: 200, Header: w.Hdr, Body: mutate(good.Body, w.Muts)}
		case "signed":
			return &Resp{Status: 200, Header: w.Hdr, Body: signedMutant(wDoc(e, w.Rev), w.Muts)}
		}
		return good
	}
	var update func() error
	var usable func(e string, rev int) error
	switch p.Target {
	case "policy":
		d := policyDaemon(n, policy.WithAthenzDomains("dom.a", "dom.b"), policy.WithRetryAttempts(1))
		for _, e := range wEnds["policy"] {
			u := policyURL("dom." + e)
			n.handle(u, func(*http.Request) *Resp { return answer(e, u) })
		}
		update = func() error { return d.Update(ctx) }
		usable = func(e string, rev int) error {
			dom := "dom." + e
			for _, role := range []string{"keep", fmt.Sprintf("rev%d", rev)} {
				if _, err := d.CheckPolicyRoles(ctx, dom, []string{role}, "read", "/keep"); err != nil {
					return failf("role %s of %s must be allowed by revision %d, got %v", role, dom, rev, err)
				}
			}
			if _, err := d.CheckPolicyRoles(ctx, dom, []string{"keep", "bad"}, "read", "/keep"); err == nil {
				return failf("the deny assertion of %s revision %d is gone", dom, rev)
			}
			return nil
		}
	case "pubkey":
		d := lib(pubkey.New(pubkey.WithAthenzURL(ztsURL), pubkey.WithHTTPClient(n.client())))
		for _, e := range wEnds["pubkey"] {
			u := serviceURL("sys.auth", e)
			n.handle(u, func(*http.Request) *Resp { return answer(e, u) })
		}
		update = func() error { return d.Update(ctx) }
		usable = func(e string, rev int) error {
			for id, k := range wKeys(rev) {
				if got := whichKey(d.GetProvider()(pubkey.AthenzEnv(e), id)); got != k {
					return failf("%s key %q must be %s of revision %d, got %q", e, id, k, rev, got)
				}
			}
			return nil
		}
	default:
		urls := map[string]string{"j1": athenzJwksURL(), "j2": "https://idp.test/jwks"}
		d := lib(jwk.New(jwk.WithAthenzJwksURL(ztsURL), jwk.WithURLs([]string{urls["j2"]}), jwk.WithHTTPClient(n.client())))
		for _, e := range wEnds["jwk"] {
			n.handle(urls[e], func(*http.Request) *Resp { return answer(e, urls[e]) })
		}
		update = func() error { return d.Update(ctx) }
		usable = func(e string, rev int) error {
			for id, k := range wKeys(rev) {
				if got := jwKeyName(d.GetProvider()(id, urls[e])); got != k {
					return failf("%s key %q must be %s of revision %d, got %q", urls[e], id, k, rev, got)
				}
			}
			return nil
		}
	}
	const none, open = 0, -1
	got, force := map[string]int{}, map[string]int{}
	for i, o := range p.Ops {
		for e, w := range o {
			serve[e] = w
		}
		clear(asked)
		err := update()
		allGood := true
		for _, e := range wEnds[p.Target] {
			w := serve[e]
			kind := w.Kind
			allGood = allGood && kind == "good"
			retried := w.Again && asked[e] > 1
			switch {
			case kind == "good":
				got[e] = w.Rev
			case kind == "odd", kind == "mut", kind == "signed", kind == "top" && p.Target == "jwk":
				got[e] = open
				c.Label("open: %s", kind)
			case retried:
				got[e] = w.Rev
				c.Label("retry gets it")
			default:
				c.Label("fails: %s", kind)
				if got[e] > 0 {
					c.NonTrivial()
				}
			}
			if (kind == "odd" || kind == "mut" || kind == "signed") && i > 0 {
				c.NonTrivial()
			}
		}
		if p.Target == "policy" {
			// the policies of all domains come into force together
			all, anyOpen := true, false
			for _, e := range wEnds["policy"] {
				all = all && got[e] != none
				anyOpen = anyOpen || got[e] == open
			}
			for _, e := range wEnds["policy"] {
				switch {
				case anyOpen:
					force[e] = open
				case all:
					force[e] = got[e]
				}
			}
		} else {
			for e, r := range got {
				force[e] = r
			}
		}
		if allGood && err != nil {
			return failf("op %d: every source answers properly, yet the refresh fails: %v", i, err)
		}
		for _, e := range wEnds[p.Target] {
			if force[e] > 0 {
				if uerr := usable(e, force[e]); uerr != nil {
					return failf("op %d (%s answers %s, refresh error %v): %v", i, e, jsonText(serve[e]), err, uerr)
				}
			}
		}
		if p.Target != "jwk" {
			if un := n.unclosed(""); len(un) > 0 {
				return failf("op %d: response bodies never closed: %v", i, un)
			}
		}
	}
	return nil
}

func init() {
	register(Sub{Prop: "C22", Name: "responses", Quick: 12000, Thorough: 300000,
		Rule: "histories of responses to the policy, public key and JWK daemons: every status, redirects, transport errors, truncated bodies, non-JSON, JSON of other shapes, structural mutations of valid bodies, and odd documents with valid signatures, mixed with valid revisions; no panic, what is loaded stays usable through assured failures, the final valid answers are applied, and every policy and public key body is closed; non-trivial: a failing or odd answer arrives while something is loaded"},
		genWPlan, runWeird)
}
