package harness

import (
	"strings"

	"pgregory.net/rapid"

	"github.com/yahoojapan/athenz-authorizer/v5/policy"
)

// C01: decisions equal the loaded policies; C02: wildcards; C03: deny precedence.

type decidePlan struct {
	Docs   []Doc   `json:"docs"`
	Checks []Check `json:"checks"`
}

var (
	poolDomains = []string{"dom", "dom.sub", "Dom", "dom2", "do"}
	poolRoles   = []string{"admin", "reader", "Admin", "admin2", "a.b", "role.admin", "", "admin,read"}
	poolActs    = []string{"read", "write", "r*", "*", "re?d", "READ", "", "delete", "read,read"}
	poolRess    = []string{"/a", "/a/b", "/a/*", "*", "/?", "/A", "", "x:y", "/a*b", "dom:/a"}
)

// genDoc draws a document around a small vocabulary, so that requests hit.
func genDoc(t *rapid.T, dom string) Doc {
	d := Doc{Domain: dom}
	np := intIn(t, "npol", 0, 4)
	for i := 0; i < np; i++ {
		p := Pol{}
		na := intIn(t, "nasn", 0, 5)
		for j := 0; j < na; j++ {
			p = append(p, genAsn(t, dom))
		}
		if len(p) > 0 && oneIn(t, "twins", 4) {
			// Two assertions whose comma-separated forms coincide.
			a := p[len(p)-1]
			b := a
			if oneIn(t, "twinrole", 2) {
				a.Role, b.Action = a.Role+",x", "x,"+a.Action
			} else {
				r := pick(t, "twinres", "/a", "*", "")
				a.Action, b.Resource = a.Action+","+dom+":"+r, dom+":"+r+","+a.Resource
			}
			b.Effect = genEffect(t, "eff")
			p[len(p)-1] = a
			p = append(p, b)
		}
		d.Pols = append(d.Pols, p)
	}
	return d
}

func genAsn(t *rapid.T, dom string) Asn {
	rd := dom
	switch intIn(t, "rdom", 0, 9) {
	case 0:
		rd = flipCase(t, "rdcase", dom)
	case 1:
		rd = pick(t, "rdother", poolDomains...)
	case 2:
		rd = pick(t, "rdnear", dom+"x", "", "*", dom+".sub", "d")
	}
	role := dom + ":role." + pick(t, "role", poolRoles...)
	if oneIn(t, "roleodd", 12) {
		role = pick(t, "roleoddk", strings.ToUpper(role), dom+":"+"admin", dom+".role.admin", "admin", dom+":role.adminx")
	}
	return Asn{Role: role, Action: pick(t, "act", poolActs...), Resource: rd + ":" + pick(t, "res", poolRess...), Effect: genEffect(t, "eff")}
}

func genCheck(t *rapid.T, docs []Doc) Check {
	c := Check{}
	// Most requests are aimed at an existing assertion.
	var all []Asn
	for _, d := range docs {
		for _, p := range d.Pols {
			all = append(all, p...)
		}
	}
	if len(all) > 0 && !oneIn(t, "free", 4) {
		a := all[intIn(t, "aim", 0, len(all)-1)]
		i := strings.Index(a.Role, ":role.")
		if i > 0 {
			c.Domain = a.Role[:i]
			c.Roles = append(c.Roles, a.Role[i+len(":role."):])
		} else {
			c.Domain = docs[0].Domain
		}
		res := a.Resource[strings.IndexByte(a.Resource, ':')+1:]
		c.Act = genMatchingEasy(t, "act", a.Action)
		c.Res = genMatchingEasy(t, "res", res)
	} else {
		c.Domain = pick(t, "dom", poolDomains...)
		c.Act = pick(t, "act", "read", "write", "delete", "Read", "")
		c.Res = pick(t, "res", "/a", "/a/b", "/A", "x:y", "", "/zzz")
	}
	if oneIn(t, "domodd", 10) {
		c.Domain = pick(t, "domodd", strings.ToUpper(c.Domain), c.Domain+"x", "")
	}
	n := intIn(t, "nroles", 0, 3)
	for i := 0; i < n; i++ {
		c.Roles = append(c.Roles, pick(t, "role", poolRoles...))
	}
	for i, r := range c.Roles {
		c.Roles[i] = maybeNear(t, "rolenear", r, 8)
		if oneIn(t, "fullname", 20) {
			c.Roles[i] = c.Domain + ":role." + r // roles are given without their domain
		}
	}
	if oneIn(t, "whole", 12) {
		switch intIn(t, "which", 0, 2) {
		case 0:
			c.Domain = near(t, "domnear", c.Domain)
		case 1:
			c.Act = near(t, "actnear", c.Act)
		case 2:
			c.Res = near(t, "resnear", c.Res)
		}
	}
	c.Roles = shuffled(t, "rolesh", c.Roles)
	return c
}

// genMatchingEasy instantiates a pattern, rarely perturbing it.
func genMatchingEasy(t *rapid.T, label, pat string) string {
	var sb strings.Builder
	for _, r := range pat {
		switch r {
		case '*':
			if oneIn(t, label+"/huge", 40) {
				sb.WriteString(strings.Repeat("/seg", pick(t, label+"/hn", 70, 300, 1100, 5000)))
			}
			sb.WriteString(pick(t, label+"/*", "", "x", "/a", "ead", "b"))
		case '?':
			sb.WriteString(pick(t, label+"/?", "a", "x", "A"))
		default:
			sb.WriteRune(r)
		}
	}
	s := sb.String()
	if oneIn(t, label+"/m", 8) {
		s = pick(t, label+"/mk", s+"x", "x"+s, strings.ToUpper(s), strings.TrimSuffix(s, "d"))
	}
	return s
}

func genDecidePlan(t *rapid.T) decidePlan {
	p := decidePlan{}
	doms := shuffled(t, "doms", poolDomains)[:intIn(t, "ndoms", 1, 3)]
	for _, d := range doms {
		p.Docs = append(p.Docs, genDoc(t, d))
	}
	if oneIn(t, "bulk", 12) {
		// many assertions of one role around those drawn above
		d := &p.Docs[intIn(t, "bulkdoc", 0, len(p.Docs)-1)]
		role := d.Domain + ":role." + pick(t, "bulkrole", poolRoles...)
		var pol Pol
		for i, n := 0, pick(t, "nbulk", 20, 60, 130, 300); i < n; i++ {
			pol = append(pol, Asn{role, "act" + itoa(i%7), d.Domain + ":/bulk/" + itoa(i), "allow"})
		}
		i := intIn(t, "bulkat", 0, len(d.Pols))
		d.Pols = append(d.Pols[:i:i], append([]Pol{pol}, d.Pols[i:]...)...)
	}
	n := intIn(t, "nchecks", 1, 8)
	for i := 0; i < n; i++ {
		ck := genCheck(t, p.Docs)
		if oneIn(t, "crowd", 20) {
			// many roles around those that count
			var more []string
			for j, m := 0, pick(t, "ncrowd", 9, 17, 33, 70, 140, 300); j < m; j++ {
				more = append(more, "crowd"+itoa(j))
			}
			at := pick(t, "crowdat", 0, len(more)/2, len(more))
			ck.Roles = append(append(append([]string(nil), more[:at]...), ck.Roles...), more[at:]...)
		}
		p.Checks = append(p.Checks, ck)
	}
	if oneIn(t, "bulkdeny", 15) {
		d := &p.Docs[intIn(t, "bddoc", 0, len(p.Docs)-1)]
		pols, cks := genBulkDeny(t, d.Domain)
		d.Pols = append(d.Pols, pols...)
		p.Checks = append(p.Checks, cks...)
	}
	if oneIn(t, "grants", 15) {
		d := &p.Docs[intIn(t, "grantdoc", 0, len(p.Docs)-1)]
		pol, ck := genGrantCrowd(t, d.Domain)
		d.Pols = append(d.Pols, pol)
		p.Checks = append(p.Checks, ck)
	}
	return p
}

// genBulkDeny gives one role many assertions, all but one allowing.
func genBulkDeny(t *rapid.T, dom string) ([]Pol, []Check) {
	n := pick(t, "nbd", 10, 33, 70, 140, 300)
	role := "bulky" + itoa(intIn(t, "bdrole", 0, 1))
	pols := make([]Pol, intIn(t, "bdpols", 1, 3))
	at := pick(t, "bdat", 0, n/2, n-1)
	for i := 0; i < n; i++ {
		a := Asn{dom + ":role." + role, pick(t, "bdact", "do*", "*", "do"), dom + ":/b*" + itoa(i), "allow"}
		if i%10 == 3 {
			a.Resource = dom + ":/b/" + strings.Repeat("*", 1+i%7)
		}
		if i == at {
			a.Action, a.Resource, a.Effect = "do", dom+":/b/1", "deny"
		}
		pols[i%len(pols)] = append(pols[i%len(pols)], a)
	}
	return pols, []Check{{dom, []string{role}, "do", "/b/1"}, {dom, []string{role}, "do", "/b/2"}, {dom, []string{"other", role}, "DO", "/B/1"}}
}

// genGrantCrowd makes many roles grant the same request; now and then one of them denies it.
func genGrantCrowd(t *rapid.T, dom string) (Pol, Check) {
	m := pick(t, "ngrants", 5, 9, 17, 40, 140)
	ck := Check{Domain: dom, Act: "read", Res: "/crowd"}
	denier := intIn(t, "denier", -m, m-1)
	var pol Pol
	for j := 0; j < m; j++ {
		a := Asn{dom + ":role.crowd" + itoa(j), pick(t, "gact", "read", "*"), dom + ":" + pick(t, "gres", "/crowd", "*"), "allow"}
		if j == denier {
			a.Effect = "deny"
		}
		pol = append(pol, a)
		ck.Roles = append(ck.Roles, "crowd"+itoa(j))
	}
	ck.Roles = shuffled(t, "groles", ck.Roles)
	return pol, ck
}

func labelVerdict(c *Case, v verdict) {
	switch {
	case v.Allowed:
		c.Label("verdict: granted")
		if len(v.Roles) > 1 {
			c.Label("verdict: granted by several roles")
		}
	case v.Deny:
		c.Label("verdict: denied")
	default:
		c.Label("verdict: no match")
	}
}

func runDecide(c *Case, p decidePlan) error {
	n := newNet()
	serveDocs(n, p.Docs)
	d := policyDaemon(n, policy.WithAthenzDomains(docDomains(p.Docs)...))
	ctx, cancel := bg()
	defer cancel()
	if err := d.Update(ctx); err != nil {
		return failf("valid policies were not loaded: %v", err)
	}
	return checkAll(c, d, ctx, p.Docs, p.Checks)
}

func checkAll(c *Case, d policy.Daemon, ctx ctxT, docs []Doc, checks []Check) error {
	for i, ck := range checks {
		v, ok := decide(docs, ck.Domain, ck.Roles, ck.Act, ck.Res)
		if !ok {
			c.Label("unspecified")
			continue
		}
		labelVerdict(c, v)
		if v.Allowed || v.Deny {
			c.NonTrivial()
		}
		roles, err := d.CheckPolicyRoles(ctx, ck.Domain, ck.Roles, ck.Act, ck.Res)
		if e := agree(v, roles, err); e != nil {
			return failf("check %d %+v: %v", i, ck, e)
		}
		if e := d.CheckPolicy(ctx, ck.Domain, ck.Roles, ck.Act, ck.Res); (e == nil) != v.Allowed {
			return failf("check %d %+v: CheckPolicy says %v, want allowed=%v", i, ck, e, v.Allowed)
		}
	}
	return nil
}

// ---- C02 ----

type globPlan struct {
	Pats []globCase `json:"pats"`
}
type globCase struct {
	Act  string      `json:"a"`
	Res  string      `json:"r"`
	Vals [][2]string `json:"v"`
}

func genGlobPlan(t *rapid.T) globPlan {
	var p globPlan
	max := pick(t, "max", 6, 6, 6, 25)
	n := intIn(t, "n", 1, 5)
	for i := 0; i < n; i++ {
		g := globCase{Act: genGlob(t, "act", max), Res: genGlob(t, "res", max)}
		if oneIn(t, "plainact", 2) {
			g.Act = "read"
		}
		m := intIn(t, "nv", 1, 6)
		for j := 0; j < m; j++ {
			a, r := genMatching(t, "va", g.Act), genMatching(t, "vr", g.Res)
			if oneIn(t, "swap", 12) {
				a, r = r, a
			}
			g.Vals = append(g.Vals, [2]string{a, r})
		}
		p.Pats = append(p.Pats, g)
	}
	return p
}

func runGlob(c *Case, p globPlan) error {
	doc := Doc{Domain: "dom"}
	var checks []Check
	for i, g := range p.Pats {
		role := "r" + string(rune('a'+i))
		doc.Pols = append(doc.Pols, Pol{{Role: "dom:role." + role, Action: g.Act, Resource: "dom:" + g.Res, Effect: "allow"}})
		for _, v := range g.Vals {
			checks = append(checks, Check{"dom", []string{role}, v[0], v[1]})
			if strings.ContainsAny(g.Res+g.Act, "^$.|[]+\\(){}") {
				c.Label("pattern with metacharacters")
			}
		}
	}
	return runDecide(c, decidePlan{[]Doc{doc}, checks})
}

// ---- C03 ----

type denyPlan struct {
	Arrange [][]Pol `json:"arr"` // the same assertions, arranged differently
	Checks  []Check `json:"checks"`
}

func genDenyPlan(t *rapid.T) denyPlan {
	var asns []Asn
	n := intIn(t, "n", 2, 8)
	for i := 0; i < n; i++ {
		asns = append(asns, Asn{
			Role:     "dom:role." + pick(t, "role", "a", "b", "c"),
			Action:   pick(t, "act", "read", "*", "re*", "Read"),
			Resource: pick(t, "rd", "dom:", "DOM:") + pick(t, "res", "/x", "/*", "*", "/X"),
			Effect:   genEffect(t, "eff"),
		})
	}
	var p denyPlan
	k := intIn(t, "narr", 2, 3)
	for i := 0; i < k; i++ {
		as := shuffled(t, "perm", asns)
		nd := intIn(t, "dups", 0, 3)
		for j := 0; j < nd; j++ {
			as = append(as, asns[intIn(t, "dup", 0, len(asns)-1)])
		}
		np := intIn(t, "np", 1, 4)
		pols := make([]Pol, np)
		for _, a := range as {
			i := intIn(t, "pol", 0, np-1)
			pols[i] = append(pols[i], a)
		}
		p.Arrange = append(p.Arrange, pols)
	}
	m := intIn(t, "nchecks", 1, 6)
	for i := 0; i < m; i++ {
		p.Checks = append(p.Checks, Check{"dom", shuffled(t, "roles", []string{"a", "b", "c"})[:intIn(t, "nr", 1, 3)],
			pick(t, "cact", "read", "READ", "write"), pick(t, "cres", "/x", "/y", "/X", "z")})
	}
	if oneIn(t, "bulkdeny", 20) {
		pols, cks := genBulkDeny(t, "dom")
		for i := range p.Arrange {
			p.Arrange[i] = append(p.Arrange[i], shuffled(t, "bdorder", pols)...)
		}
		p.Checks = append(p.Checks, cks...)
	}
	if oneIn(t, "grants", 20) {
		pol, ck := genGrantCrowd(t, "dom")
		for i := range p.Arrange {
			p.Arrange[i] = append(p.Arrange[i], shuffled(t, "gorder", pol))
		}
		p.Checks = append(p.Checks, ck)
	}
	return p
}

func runDeny(c *Case, p denyPlan) error {
	for i, pols := range p.Arrange {
		docs := []Doc{{Domain: "dom", Pols: pols}}
		if i > 0 {
			c.Label("rearranged")
		}
		if err := runDecide(c, decidePlan{docs, p.Checks}); err != nil {
			return failf("arrangement %d: %v", i, err)
		}
	}
	return nil
}

type denyRacePlan struct {
	Keys    int   `json:"keys"`    // number of distinct (role, action, resource)
	Pols    int   `json:"pols"`    // number of policies, each holding every key
	DenyAt  []int `json:"deny_at"` // per key: the policy that denies it, or -1
	Rotate  int   `json:"rot"`
	Repeats int   `json:"rep"`
	OneRole bool  `json:"one_role"`
}

func genDenyRace(t *rapid.T) denyRacePlan {
	p := denyRacePlan{Keys: intIn(t, "keys", 1, 24), Pols: intIn(t, "pols", 2, 12), Rotate: intIn(t, "rot", 0, 7), Repeats: intIn(t, "rep", 1, 3), OneRole: oneIn(t, "one", 2)}
	for i := 0; i < p.Keys; i++ {
		if oneIn(t, "none", 4) {
			p.DenyAt = append(p.DenyAt, -1)
		} else {
			p.DenyAt = append(p.DenyAt, intIn(t, "deny", 0, p.Pols-1))
		}
	}
	return p
}

func runDenyRace(c *Case, p denyRacePlan) error {
	doc := Doc{Domain: "dom"}
	role := func(k int) string {
		if p.OneRole {
			return "r"
		}
		return "r" + itoa(k)
	}
	var checks []Check
	for k := 0; k < p.Keys; k++ {
		checks = append(checks, Check{"dom", []string{role(k)}, "act" + itoa(k), "/x" + itoa(k)})
	}
	for i := 0; i < p.Pols; i++ {
		var pol Pol
		for j := 0; j < p.Keys; j++ {
			k := (j + i*p.Rotate) % p.Keys
			eff := "allow"
			if p.DenyAt[k] == i {
				eff = "deny"
			}
			pol = append(pol, Asn{"dom:role." + role(k), "act" + itoa(k), "dom:/x" + itoa(k), eff})
		}
		doc.Pols = append(doc.Pols, pol)
	}
	for i := 0; i < p.Repeats; i++ {
		if err := runDecide(c, decidePlan{[]Doc{doc}, checks}); err != nil {
			return failf("load %d: %v", i, err)
		}
	}
	return nil
}

func init() {
	register(Sub{Prop: "C01", Name: "daemon", Quick: 18000, Thorough: 450000,
		Rule: "1-3 documents over look-alike domains, roles, patterns; up to 8 requests mostly aimed at an assertion, compared with the reference decision; non-trivial: some request is granted or denied by an assertion"},
		genDecidePlan, runDecide)
	register(Sub{Prop: "C02", Name: "glob", Quick: 20000, Thorough: 500000,
		Rule: "1-5 random glob pairs with values instantiated from the pattern and then perturbed, compared with a dynamic-programming matcher; non-trivial: some value matches"},
		genGlobPlan, runGlob)
	register(Sub{Prop: "C03", Name: "order", Quick: 9000, Thorough: 225000,
		Rule: "one multiset of overlapping allow/deny assertions loaded in 2-3 arrangements (permuted, duplicated, regrouped), each compared with the reference; non-trivial: some request is granted or denied"},
		genDenyPlan, runDeny)
	register(Sub{Prop: "C03", Name: "race", Quick: 4000, Thorough: 100000,
		Rule: "2-12 policies that all hold the same keys, one of them denying, loaded in parallel 1-3 times; non-trivial: some request is granted or denied"},
		genDenyRace, runDenyRace)
}
