package harness

import (
	"fmt"
	"strconv"
	"strings"
	"time"

	authcore "github.com/AthenZ/athenz/libs/go/zmssvctoken"
	"pgregory.net/rapid"

	authorizerd "github.com/yahoojapan/athenz-authorizer/v5"
	"github.com/yahoojapan/athenz-authorizer/v5/pubkey"
	"github.com/yahoojapan/athenz-authorizer/v5/role"
)

// C10: role tokens.

// RTok says how a role token is made: fields, signed by a key, then altered.
type RTok struct {
	Fields [][2]string `json:"f"` // key, value; a key of "!" stands for a field without '='
	Key    string      `json:"key"`
	Mut    []Mut       `json:"mut,omitempty"`
}

// Mut alters a finished token.
type Mut struct {
	Kind string `json:"k"`
	I    int    `json:"i,omitempty"`
	J    int    `json:"j,omitempty"`
	S    string `json:"s,omitempty"`
}

func (r RTok) unsigned() string {
	var fs []string
	for _, f := range r.Fields {
		if f[0] == "!" {
			fs = append(fs, f[1])
		} else {
			fs = append(fs, f[0]+"="+f[1])
		}
	}
	return strings.Join(fs, ";")
}

type signedText struct{ text, sig, key string }

// build returns the token and what was signed in making it.
func (r RTok) build() (tok string, signed []signedText) {
	u := r.unsigned()
	s := key(r.Key).sign(u)
	signed = append(signed, signedText{u, s, r.Key})
	tok = u + ";s=" + s
	for _, m := range r.Mut {
		u, s, ok := strings.Cut(tok, ";s=")
		if !ok {
			break
		}
		fs := strings.Split(u, ";")
		i, j := m.I%len(fs), m.J%len(fs)
		at := 0
		if len(u) > 0 {
			at = m.I % len(u)
		}
		switch m.Kind {
		case "swap":
			fs[i], fs[j] = fs[j], fs[i]
			u = strings.Join(fs, ";")
		case "drop":
			u = strings.Join(append(append([]string{}, fs[:i]...), fs[i+1:]...), ";")
		case "add":
			u = strings.Join(append(append(append([]string{}, fs[:i]...), m.S), fs[i:]...), ";")
		case "append":
			u += m.S
		case "set":
			k, _, _ := strings.Cut(fs[i], "=")
			fs[i] = k + "=" + m.S
			u = strings.Join(fs, ";")
		case "setkey":
			for n, f := range fs {
				if strings.HasPrefix(f, m.S[:2]) {
					fs[n] = m.S
				}
			}
			u = strings.Join(fs, ";")
		case "upper":
			u = strings.ToUpper(u)
		case "byte":
			if u != "" {
				u = u[:at] + m.S + u[at+1:]
			}
		case "insert":
			u = u[:at] + m.S + u[at:]
		case "delete":
			if u != "" {
				u = u[:at] + u[at+1:]
			}
		case "cut":
			tok = tok[:m.I%(len(tok)+1)]
			continue
		case "sigother": // a signature of another text
			s = key(r.Key).sign(u + m.S)
			signed = append(signed, signedText{u + m.S, s, r.Key})
		case "sigkey": // signed by another key
			s = key(m.S).sign(u)
			signed = append(signed, signedText{u, s, m.S})
		case "sigempty":
			s = ""
		case "sigcut":
			s = s[:len(s)/2]
		case "sigtail":
			s += m.S
		case "sigset":
			s = m.S
		case "nosig":
			tok = u
			continue
		case "delim":
			tok = u + m.S + s
			continue
		case "prefix":
			tok = m.S + tok
			continue
		case "front": // the signature up front, where it is not a signature
			tok = "s=" + s + ";" + u
			continue
		default:
			harnessf("mutation %q", m.Kind)
		}
		tok = u + ";s=" + s
	}
	return tok, signed
}

// refToken is what the reference makes of a role token.
type refToken struct {
	ok        tri
	why       string
	domain    string
	principal string
	roles     []string
	issue     int64
	hasIssue  bool
	expiry    int64
	dup       bool
}

func refRole(tok string, signed []signedText, zts map[string]string, now time.Time) (r refToken) {
	text, sig, ok := strings.Cut(tok, ";s=")
	if !ok {
		r.why = "no signature"
		return r
	}
	seen := map[string]string{}
	for _, f := range strings.Split(text, ";") {
		k, v, ok := strings.Cut(f, "=")
		if !ok {
			r.why = "malformed field"
			return r
		}
		if k == "t" || k == "e" {
			if strings.HasPrefix(v, "+") || strings.Contains(v, "_") {
				r.dup = true // accepted or not: left open
			} else if _, err := strconv.ParseInt(v, 10, 64); err != nil {
				r.why = "malformed time"
				return r
			}
		}
		if strings.Contains("dkperts", k) && len(k) == 1 {
			if _, again := seen[k]; again {
				r.dup = true
			}
			if k == "s" {
				r.dup = true
			}
			seen[k] = v
		}
	}
	match, same := "", false
	for _, s := range signed {
		if s.text == text {
			same = true
			if s.sig == sig {
				match = s.key
			}
		}
	}
	if !same {
		r.why = "text was never signed"
		return r
	}
	r.domain, r.principal = seen["d"], seen["p"]
	if v, ok := seen["r"]; ok {
		r.roles = strings.Split(v, ",")
	}
	if v, ok := seen["t"]; ok {
		r.issue, _ = strconv.ParseInt(v, 10, 64)
		r.hasIssue = true
	}
	exp, has := seen["e"]
	r.expiry, _ = strconv.ParseInt(exp, 10, 64)
	if r.dup {
		r.ok = unknown
		return r
	}
	if !has || !now.Before(time.Unix(r.expiry, 0)) {
		r.why = "expired"
		return r
	}
	if match == "" {
		r.ok, r.why = unknown, "another encoding of the signature"
		for _, s := range signed {
			if s.text == text && len(sig) < len(s.sig)-4 {
				r.ok = no
			}
		}
		return r
	}
	pub, ok := zts[seen["k"]]
	if !ok || pub != match {
		r.why = "not signed by the key published under that id"
		return r
	}
	r.ok = yes
	return r
}

type rtStep struct {
	ZMS map[string]string `json:"zms,omitempty"` // key lists to publish from here on
	ZTS map[string]string `json:"zts,omitempty"`
	Tok *RTok             `json:"tok"`
	Adv int               `json:"adv,omitempty"`
}

type rtPlan struct {
	Steps []rtStep `json:"steps"`
}

var poolKeys = []string{"ec0", "ec1", "ec2", "rsa0", "rsa1", "rsa2"}

func genRTok(t *rapid.T, zts, zms map[string]string) *RTok {
	ids := sortedKeys(zts)
	kid := pick(t, "kid", ids...)
	r := &RTok{Key: zts[kid]}
	exp := T0 + pick(t, "exp", 3600, 3600, 3600, 60, 3, 1, 100000000)
	f := [][2]string{{"v", "Z1"}, {"d", pick(t, "d", "dom", "dom.sub", "a", "")}, {"r", pick(t, "r", "admin", "admin,reader", "", "a,b,c", "role with space", "x=y", "admin,", ",admin", "a,,b", "a,a", " admin", "a, b", "Admin,admin", "b,a")},
		{"p", pick(t, "p", "user.alice", "svc.x", "", "a=b")}, {"h", "host"}, {"a", "f0e1"}, {"t", itoa(T0 - pick(t, "t", 10, 0, -3600, 100000))}, {"e", itoa(exp)}, {"k", kid}, {"i", "10.0.0.1"}}
	switch intIn(t, "shape", 0, 9) {
	case 0:
		f = shuffled(t, "order", f)
	case 1: // lose a field
		i := intIn(t, "lose", 0, len(f)-1)
		f = append(f[:i:i], f[i+1:]...)
	case 2: // odd value in place
		i := intIn(t, "odd", 0, len(f)-1)
		f[i][1] = pick(t, "oddv", "", "abc", "12x", "1.5", "-5", "0", "99999999999999999999", "100000000000", "1046684800000", "4102444800000", "253402300800", "1046684800000000", "0x10", " 5", itoa(exp)+" ", "a=b=c", "t0", "m0", "946684799", "+946688400")
	case 3: // odd field
		i := intIn(t, "pos", 0, len(f))
		n := pick(t, "oddf", [2]string{"!", "noequals"}, [2]string{"!", ""}, [2]string{"", "x"}, [2]string{"proxy", "user.bob"}, [2]string{"E", "1"}, [2]string{"z", "x"}, [2]string{"ss", "1"}, [2]string{"d", "dom2"}, [2]string{"e", "1"})
		f = append(f[:i:i], append([][2]string{n}, f[i:]...)...)
	case 4: // expired
		for i := range f {
			if f[i][0] == "e" {
				f[i][1] = itoa(T0 - pick(t, "ago", 0, 1, 60, 1000000))
			}
		}
	case 5: // key trouble
		if oneIn(t, "zmskey", 2) {
			id := pick(t, "zmsid", sortedKeys(zms)...)
			r.Key = zms[id]
			for i := range f {
				if f[i][0] == "k" {
					f[i][1] = id
				}
			}
		} else if oneIn(t, "otherkey", 2) {
			r.Key = pick(t, "key", poolKeys...)
		} else {
			for i := range f {
				if f[i][0] == "k" {
					f[i][1] = pick(t, "badid", "t0", "t1", "m0", "m1", "x", "", "T0")
				}
			}
		}
	}
	r.Fields = f
	if oneIn(t, "alter", 3) {
		n := pick(t, "nmut", 1, 1, 1, 2)
		for i := 0; i < n; i++ {
			m := Mut{Kind: pick(t, "mut", "swap", "drop", "add", "append", "set", "setkey", "upper", "byte", "insert", "delete", "cut", "sigother", "sigkey", "sigempty", "sigcut", "sigtail", "sigset", "nosig", "delim", "prefix", "front"),
				I: intIn(t, "mi", 0, 200), J: intIn(t, "mj", 0, 9)}
			switch m.Kind {
			case "add", "append":
				m.S = pick(t, "ms", "z=1", ";z=1", "e=4000000000", ";e=4000000000", "d=dom2", "p=user.root", ";r=admin", "r=root", " ", ";", "s=x", ";S=x", "\n")
			case "set":
				m.S = pick(t, "ms", "admin", "4000000000", "dom", "t1", "")
			case "setkey":
				m.S = pick(t, "ms", "r=root", "d=dom2", "p=user.root", "e=4000000000", "k=t1", "k=t0", "t=1", "h=other", "a=salt2", "i=1.1.1.1", "v=Z2", "v=S1")
			case "byte", "insert":
				m.S = pick(t, "ms", "a", "=", ";", "0", "9", ",", " ", "\x00", "A")
			case "sigother":
				m.S = pick(t, "ms", ";", "x", " ")
			case "sigkey":
				m.S = pick(t, "ms", poolKeys...)
			case "sigtail":
				m.S = pick(t, "ms", ";s=x", ";e=4000000000", "AAAA", "-", ";")
			case "sigset":
				m.S = pick(t, "ms", "x", "AAAA", "-", "MEUCIQ--", ";s=")
			case "delim":
				m.S = pick(t, "ms", ";S=", "s=", ";s:", "; s=", "=", "", ";s")
			case "prefix":
				m.S = pick(t, "ms", " ", ";", ";s=", "a=b;", "Bearer ", "s=;")
			}
			r.Mut = append(r.Mut, m)
		}
	}
	return r
}

func genRing(t *rapid.T) (zms, zts map[string]string) {
	std := stdRing()
	if !oneIn(t, "rotate", 3) {
		return std.ZMS, std.ZTS
	}
	zms = map[string]string{"m0": pick(t, "zk0", poolKeys...), pick(t, "zi", "m1", "t0", "x"): pick(t, "zk1", poolKeys...)}
	zts = map[string]string{pick(t, "ti0", "t0", "t1", "m0"): pick(t, "tk0", poolKeys...), pick(t, "ti1", "t1", "x", "t2", ""): pick(t, "tk1", poolKeys...)}
	return zms, zts
}

func genRTPlan(t *rapid.T) rtPlan {
	var p rtPlan
	n := intIn(t, "n", 1, 6)
	var zms, zts map[string]string
	for i := 0; i < n; i++ {
		var s rtStep
		if i == 0 || oneIn(t, "newring", 4) {
			zms, zts = genRing(t)
			s.ZMS, s.ZTS = zms, zts
		}
		s.Tok = genRTok(t, zts, zms)
		if i > 0 && oneIn(t, "again", 5) {
			// an earlier token again, under other keys or later
			s.Tok = p.Steps[intIn(t, "which", 0, i-1)].Tok
		}
		s.Adv = pick(t, "adv", 0, 0, 1, 2, 70)
		p.Steps = append(p.Steps, s)
	}
	return p
}

func runRT(c *Case, p rtPlan) error {
	ring := stdRing()
	proc := lib(role.New(role.WithPubkeyProvider(func(env pubkey.AthenzEnv, id string) authcore.Verifier { return ring.provider()(env, id) })))
	w := newWorld(ring, nil, nil, authorizerd.WithDisablePolicyd(), authorizerd.WithDisableJwkd(), authorizerd.WithAccessTokenParam(authorizerd.NewAccessTokenParam(false, false, "", "", false, nil)),
		authorizerd.WithCacheExp(time.Millisecond))
	defer w.stop()
	half()
	made := map[string]string{}
	var signed []signedText
	for i, s := range p.Steps {
		if s.ZTS != nil {
			ring = KeyRing{s.ZMS, s.ZTS}
			w.ring = ring
			w.mustInit()
		}
		id := string(must(jsonBytes(s.Tok)))
		tok, ok := made[id]
		if !ok {
			var sg []signedText
			tok, sg = s.Tok.build()
			signed = append(signed, sg...)
			made[id] = tok
		}
		ref := refRole(tok, signed, ring.ZTS, time.Now())
		where := func(f string, a ...any) error { return failf("step %d, token %q: %s", i, tok, fmt.Sprintf(f, a...)) }
		rt, err := proc.ParseAndValidateRoleToken(tok)
		pr, aerr := w.az.AuthorizeRoleToken(w.ctx, tok, "act", "res")
		switch ref.ok {
		case unknown:
			c.Label("unspecified")
			continue
		case no:
			c.Label("rejected: %s", ref.why)
			if len(s.Tok.Mut) > 0 {
				c.NonTrivial()
			}
			if err == nil || aerr == nil {
				return where("must be rejected (%s); processor: %v, authorizer: %v", ref.why, err, aerr)
			}
			if pr != nil {
				return where("a principal is returned with the rejection")
			}
		case yes:
			c.Label("accepted")
			c.NonTrivial()
			if err != nil || aerr != nil {
				return where("must be accepted; processor: %v, authorizer: %v", err, aerr)
			}
			v := viewOf(pr)
			if rt.Domain != ref.domain || rt.Principal != ref.principal || fmt.Sprintf("%q", rt.Roles) != fmt.Sprintf("%q", ref.roles) ||
				v.Domain != ref.domain || v.Name != ref.principal || fmt.Sprintf("%q", v.Roles) != fmt.Sprintf("%q", ref.roles) || v.Exp != ref.expiry {
				return where("identity: signed domain %q principal %q roles %q expiry %d, token has %q %q %q, principal %v", ref.domain, ref.principal, ref.roles, ref.expiry, rt.Domain, rt.Principal, rt.Roles, v)
			}
		}
		time.Sleep(time.Duration(max(s.Adv, 1)) * time.Second)
	}
	return nil
}

func init() {
	register(Sub{Prop: "C10", Name: "token", Quick: 18000, Thorough: 450000,
		Rule: "sequences of role tokens built from fields (odd, missing, duplicated, reordered), signed by keys of rotating ZMS/ZTS rings and then altered; processor and authorizer must agree with a reference parser and with the record of what was signed; non-trivial: an accepted token or an altered one that must be rejected"},
		genRTPlan, runRT)
}
