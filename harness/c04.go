package harness

import (
	"context"
	"encoding/json"
	"fmt"
	"time"

	authcore "github.com/AthenZ/athenz/libs/go/zmssvctoken"
	"github.com/AthenZ/athenz/utils/zpe-updater/util"
	"pgregory.net/rapid"

	"github.com/yahoojapan/athenz-authorizer/v5/policy"
	"github.com/yahoojapan/athenz-authorizer/v5/pubkey"
)

// C04: only authentic, unexpired documents take effect.

// Forgery says how a document was made. Whether it is authentic follows from its
// history alone: each level must still be the text that was signed, by the key that
// the service publishes under the id the document names.
type Forgery struct {
	Doc      Doc    `json:"doc"`
	ZMSKey   string `json:"zmsKey"`
	ZMSID    string `json:"zmsID"`
	ZTSKey   string `json:"ztsKey"`
	ZTSID    string `json:"ztsID"`
	Expires  string `json:"exp"` // future, past, none, zero
	Inner    string `json:"inner,omitempty"`
	InnerArg int    `json:"innerArg,omitempty"`
	Outer    string `json:"outer,omitempty"`
	OuterArg int    `json:"outerArg,omitempty"`
	Resign   bool   `json:"resign,omitempty"` // the inner level is signed again after everything else
}

type forgePlan struct {
	Base  Doc       `json:"base"`
	Steps []forgeSt `json:"steps"`
}

type forgeSt struct {
	ZMS   map[string]string `json:"zms"` // published keys at this step
	ZTS   map[string]string `json:"zts"`
	Forge Forgery           `json:"forge"`
}

// alter changes the policy data in place and says whether it changed anything.
func alterInner(pd *util.PolicyData, kind string, n int) {
	var asns []*util.Assertion
	for _, p := range pd.Policies {
		asns = append(asns, p.Assertions...)
	}
	a := func() *util.Assertion {
		if len(asns) == 0 {
			return nil
		}
		return asns[n%len(asns)]
	}
	switch kind {
	case "effect":
		if x := a(); x != nil {
			if x.Effect == "deny" {
				x.Effect = "allow"
			} else {
				x.Effect = "deny"
			}
		}
	case "role":
		if x := a(); x != nil {
			x.Role += "x"
		}
	case "action":
		if x := a(); x != nil {
			x.Action = "*" + x.Action
		}
	case "resource":
		if x := a(); x != nil {
			x.Resource += "*"
		}
	case "add":
		pd.Policies = append(pd.Policies, &util.Policy{Name: "dom:policy.evil", Modified: ts(time.Unix(1, 0)),
			Assertions: []*util.Assertion{{Role: "dom:role.evil", Action: "*", Resource: "dom:*", Effect: "allow"}}})
	case "addasn":
		if len(pd.Policies) > 0 {
			p := pd.Policies[n%len(pd.Policies)]
			p.Assertions = append(p.Assertions, &util.Assertion{Role: "dom:role.evil", Action: "*", Resource: "dom:*", Effect: "allow"})
		}
	case "drop":
		if len(pd.Policies) > 0 {
			i := n % len(pd.Policies)
			pd.Policies = append(append([]*util.Policy{}, pd.Policies[:i]...), pd.Policies[i+1:]...)
		}
	case "dropasn":
		if len(pd.Policies) > 0 {
			p := pd.Policies[n%len(pd.Policies)]
			if len(p.Assertions) > 0 {
				p.Assertions = p.Assertions[1:]
			}
		}
	case "name":
		if len(pd.Policies) > 0 {
			pd.Policies[n%len(pd.Policies)].Name += "x"
		}
	case "domain":
		pd.Domain += "x"
	case "swap":
		if len(pd.Policies) > 1 {
			pd.Policies[0], pd.Policies[1] = pd.Policies[1], pd.Policies[0]
		}
	}
}

// build makes the document and decides whether it is authentic and in time.
func (f Forgery) build(ring KeyRing) (body []byte, authentic bool) {
	expires := time.Now().Add(f.Doc.ttl())
	switch f.Expires {
	case "past":
		expires = time.Now().Add(-time.Second)
	case "longpast":
		expires = time.Now().Add(-24 * time.Hour)
	}
	d := signDoc(f.Doc, expires, signing{f.ZMSKey, f.ZMSID, f.ZTSKey, f.ZTSID})
	if f.Expires == "none" || f.Expires == "zero" {
		if f.Expires == "none" {
			d.SignedPolicyData.Expires = nil
		} else {
			d.SignedPolicyData.Expires = ts(time.Time{})
		}
		d.Signature = key(f.ZTSKey).sign(string(must(json.Marshal(d.SignedPolicyData))))
	}
	innerSigned := string(must(json.Marshal(d.SignedPolicyData.PolicyData)))
	outerSigned := ""
	innerSigOK, outerSigOK := true, true

	// The inner level is altered first and the outer one signed over it, as by a
	// ZTS that was tricked, then the outer one is altered on its way.
	spd := d.SignedPolicyData
	if f.Inner != "" {
		switch f.Inner {
		case "zmsSigEmpty":
			spd.ZmsSignature, innerSigOK = "", false
		case "zmsSigOther":
			spd.ZmsSignature, innerSigOK = key(f.ZMSKey).sign("something else"), false
		case "zmsSigCut":
			spd.ZmsSignature, innerSigOK = spd.ZmsSignature[:len(spd.ZmsSignature)/2], false
		case "zmsSigOuter":
			spd.ZmsSignature, innerSigOK = key(f.ZMSKey).sign(string(must(json.Marshal(spd)))), false
		default:
			alterInner(spd.PolicyData, f.Inner, f.InnerArg)
		}
		d.Signature = key(f.ZTSKey).sign(string(must(json.Marshal(spd))))
	}
	outerSigned = string(must(json.Marshal(spd)))
	switch f.Outer {
	case "":
	case "expires":
		spd.Expires = ts(time.Now().Add(f.Doc.ttl() + time.Duration(1+f.OuterArg)*time.Hour))
	case "modified":
		spd.Modified = ts(time.Unix(1600000000, 0))
	case "zmsKeyId":
		spd.ZmsKeyId = []string{"m0", "m1", "t0", "", "zz"}[f.OuterArg%5]
	case "keyId":
		d.KeyId = []string{"t0", "t1", "m0", "", "zz"}[f.OuterArg%5]
	case "sigEmpty":
		d.Signature, outerSigOK = "", false
	case "sigOther":
		d.Signature, outerSigOK = key(f.ZTSKey).sign("something else"), false
	case "sigCut":
		d.Signature, outerSigOK = d.Signature[:len(d.Signature)/2], false
	case "sigInner":
		d.Signature, outerSigOK = spd.ZmsSignature, false
	case "sigGarbage":
		d.Signature, outerSigOK = "not.base64-!", false
	default:
		alterInner(spd.PolicyData, f.Outer, f.OuterArg)
	}
	innerKey, outerKey := f.ZMSKey, f.ZTSKey
	if f.Resign {
		innerSigned = string(must(json.Marshal(spd.PolicyData)))
		innerSigOK = true
		old := spd.ZmsSignature
		spd.ZmsSignature = key(f.ZMSKey).sign(innerSigned)
		_ = old // the new signature is randomised, so the outer text changes with it
	}
	if string(must(json.Marshal(spd.PolicyData))) != innerSigned {
		innerSigOK = false
	}
	if string(must(json.Marshal(spd))) != outerSigned {
		outerSigOK = false
	}
	inTime := spd.Expires != nil && spd.Expires.Time.After(time.Now())
	ok := inTime && innerSigOK && outerSigOK && ring.ZMS[spd.ZmsKeyId] == innerKey && ring.ZTS[d.KeyId] == outerKey
	return must(json.Marshal(d)), ok
}

func genForgery(t *rapid.T, zms, zts map[string]string) Forgery {
	f := Forgery{Expires: "future"}
	f.Doc = Doc{Domain: "dom", Pols: genRev(t, "dom", 0, 0).Pols, Tag: intIn(t, "tag", 1, 5)}
	f.Doc.Pols = append(f.Doc.Pols, Pol{{"dom:role.new", "*", "dom:*", "allow"}})
	ids, idt := sortedKeys(zms), sortedKeys(zts)
	f.ZMSID, f.ZTSID = pick(t, "zmsid", ids...), pick(t, "ztsid", idt...)
	f.ZMSKey, f.ZTSKey = zms[f.ZMSID], zts[f.ZTSID]
	if oneIn(t, "valid", 5) {
		return f
	}
	// one, sometimes two things wrong
	n := pick(t, "wrong", 1, 1, 2)
	for i := 0; i < n; i++ {
		switch pick(t, "what", "inner", "inner", "outer", "outer", "zms", "zts", "swapkeys", "expiry") {
		case "inner":
			f.Inner = pick(t, "inner", "effect", "role", "action", "resource", "add", "addasn", "drop", "dropasn", "name", "domain", "swap", "zmsSigEmpty", "zmsSigOther", "zmsSigCut", "zmsSigOuter")
			f.InnerArg = intIn(t, "innerarg", 0, 6)
		case "outer":
			f.Outer = pick(t, "outer", "effect", "role", "action", "resource", "add", "addasn", "drop", "dropasn", "name", "domain", "swap",
				"expires", "modified", "zmsKeyId", "keyId", "sigEmpty", "sigOther", "sigCut", "sigInner", "sigGarbage")
			f.OuterArg = intIn(t, "outerarg", 0, 6)
			f.Resign = oneIn(t, "resign", 3)
		case "zms":
			f.ZMSKey, f.ZMSID = pick(t, "zk", "ec0", "ec1", "ec2", "rsa0", "rsa1", "rsa2"), pick(t, "zi", "m0", "m1", "m2", "t0", "", "zz")
		case "zts":
			f.ZTSKey, f.ZTSID = pick(t, "tk", "ec0", "ec1", "ec2", "rsa0", "rsa1", "rsa2"), pick(t, "ti", "t0", "t1", "t2", "m0", "", "zz")
		case "swapkeys":
			// Each level signed under the other service's key.
			f.ZMSKey, f.ZMSID, f.ZTSKey, f.ZTSID = f.ZTSKey, f.ZTSID, f.ZMSKey, f.ZMSID
		case "expiry":
			f.Expires = pick(t, "exp", "past", "longpast", "none", "zero")
		}
	}
	return f
}

func genForgePlan(t *rapid.T) forgePlan {
	p := forgePlan{Base: Doc{Domain: "dom", Pols: genRev(t, "dom", 0, 0).Pols}}
	p.Base.Pols = append(p.Base.Pols, Pol{{"dom:role.old", "*", "dom:*", "allow"}})
	n := intIn(t, "n", 1, 4)
	for i := 0; i < n; i++ {
		st := forgeSt{ZMS: map[string]string{"m0": "ec0", "m1": "rsa0"}, ZTS: map[string]string{"t0": "ec1", "t1": "rsa1"}}
		if oneIn(t, "rotate", 3) {
			// Rotated, shared or overlapping ids.
			st.ZMS = map[string]string{"m0": pick(t, "k", "ec0", "ec2"), pick(t, "id", "m1", "t0", "x"): "ec1"}
			st.ZTS = map[string]string{"t0": pick(t, "k2", "ec1", "ec3"), pick(t, "id2", "t1", "m0", "x"): pick(t, "k3", "ec0", "rsa1")}
		}
		st.Forge = genForgery(t, st.ZMS, st.ZTS)
		p.Steps = append(p.Steps, st)
	}
	return p
}

func runForge(c *Case, p forgePlan) error {
	ring := stdRing()
	var body []byte
	n := newNet()
	n.handle(policyURL("dom"), func(*httpRequest) *Resp { return &Resp{Status: 200, Body: body} })
	pkp := func(env pubkey.AthenzEnv, id string) authcore.Verifier { return ring.provider()(env, id) }
	mk := func() policy.Daemon {
		return policyDaemon(n, policy.WithPubKeyProvider(pkp), policy.WithAthenzDomains("dom"), policy.WithRetryDelay("0s"), policy.WithRetryAttempts(1))
	}
	ctx, cancel := bg()
	defer cancel()
	body = docBody(p.Base)
	loaded := mk()
	if err := loaded.Update(ctx); err != nil {
		return failf("valid document refused: %v", err)
	}
	force := p.Base
	checks := append(histChecks([]string{"dom"}), Check{"dom", []string{"old"}, "a", "b"}, Check{"dom", []string{"new"}, "a", "b"}, Check{"dom", []string{"evil"}, "a", "b"})
	for i, st := range p.Steps {
		ring = KeyRing{ZMS: st.ZMS, ZTS: st.ZTS}
		var ok bool
		body, ok = st.Forge.build(ring)
		fresh := mk()
		err := fresh.Update(ctx)
		if ok {
			c.Label("authentic")
		} else {
			c.Label("not authentic: inner=%s outer=%s expires=%s resigned=%v", st.Forge.Inner, st.Forge.Outer, st.Forge.Expires, st.Forge.Resign)
			c.NonTrivial()
		}
		if ok != (err == nil) {
			return failf("step %d: document authentic=%v, refresh of an empty daemon: %v", i, ok, err)
		}
		if ok {
			force = st.Forge.final()
			if e := compareAll(fresh, ctx, []Doc{force}, checks); e != nil {
				return failf("step %d: fresh daemon: %v", i, e)
			}
		} else if e := compareAll(fresh, ctx, nil, checks); e != nil {
			return failf("step %d: fresh daemon after a rejected document: %v", i, e)
		}
		_ = loaded.Update(ctx)
		if e := compareAll(loaded, ctx, []Doc{force}, checks); e != nil {
			return failf("step %d (authentic=%v): %v", i, ok, e)
		}
	}
	return nil
}

// final is the content of an accepted document: some alterations happen to change
// nothing, or are undone by signing both levels again.
func (f Forgery) final() Doc {
	d := f.Doc
	pd := policyData(d)
	if f.Inner != "" {
		alterInner(pd, f.Inner, f.InnerArg)
	}
	out := Doc{Domain: pd.Domain}
	for _, p := range pd.Policies {
		var q Pol
		for _, a := range p.Assertions {
			q = append(q, Asn{a.Role, a.Action, a.Resource, a.Effect})
		}
		out.Pols = append(out.Pols, q)
	}
	return out
}

func compareAll(d policy.Daemon, ctx context.Context, docs []Doc, checks []Check) error {
	for _, ck := range checks {
		v, _ := decide(docs, ck.Domain, ck.Roles, ck.Act, ck.Res)
		roles, err := d.CheckPolicyRoles(ctx, ck.Domain, ck.Roles, ck.Act, ck.Res)
		if e := agree(v, roles, err); e != nil {
			return fmt.Errorf("%+v: %v", ck, e)
		}
	}
	return nil
}

func init() {
	register(Sub{Prop: "C04", Name: "forge", Quick: 9000, Thorough: 225000,
		Rule: "a loaded and an empty daemon are served 1-4 documents that are valid or altered at either level, signed by other keys, ids or services, on one level only, or expired, under rotating published keys; authenticity follows from how the document was made; non-trivial: some document is not authentic"},
		genForgePlan, runForge)
}
