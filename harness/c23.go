package harness

import (
	"bytes"
	"context"
	"crypto/x509"
	"fmt"
	"log"
	"net/http"
	"reflect"
	"strings"
	"sync"
	"time"

	"github.com/kpango/glg"
	"pgregory.net/rapid"

	authorizerd "github.com/yahoojapan/athenz-authorizer/v5"
)

// C23: arbitrary credentials are rejected without crashing.
// C25: token signatures never reach the logs.

// BOp edits a byte string at a relative position.
type BOp struct {
	Kind string `json:"k"`
	At   int    `json:"at"` // per mille
	S    []byte `json:"s,omitempty"`
}

// AnyTok is a token text: genuine, genuine and then edited, or made up.
type AnyTok struct {
	Kind    string `json:"k"` // rt, at, raw, fields, jws
	N       int64  `json:"x,omitempty"`
	Raw     []byte `json:"raw,omitempty"`
	Header  string `json:"h,omitempty"`
	Claims  string `json:"c,omitempty"`
	Sign    string `json:"sign,omitempty"` // name of the key, "" none, "hs" a MAC with the public key
	Edits   []BOp  `json:"e,omitempty"`
	Trusted bool   `json:"-"`
}

// strangeKeys sign, but are not published.
var strangeKeys = []string{"ec3", "rsa2"}

// build returns the text and what trusted keys signed in it.
func (a AnyTok) build(bind *Cert) (tok string, genuine []string) {
	switch a.Kind {
	case "rt":
		rt := RT{Domain: "dom", Principal: "user.a", KeyID: "t0", Roles: []string{"r0", "r1"}, Issued: T0 - 50, Expiry: T0 + 100000 + a.N}
		if a.N%2 == 1 {
			// characters that are special in cache keys
			rt.Extra = `;proxy=` + strings.Repeat(`:\`, 20)
		}
		tok = roleToken(rt.unsigned(), "ec1")
		genuine = append(genuine, rt.unsigned()+";s=")
	case "at":
		at := plainAT("dom", "user.b", "client.a", []string{"r0", "r1"}, T0+100000+a.N)
		at.Bind = bind
		tok, _ = at.build()
		genuine = append(genuine, tok[:strings.LastIndexByte(tok, '.')+1])
	case "raw":
		tok = string(a.Raw)
	case "fields":
		tok = string(a.Raw)
		if a.Sign != "" {
			tok = roleToken(tok, a.Sign)
			if a.Sign == "ec1" || a.Sign == "rsa1" {
				genuine = append(genuine, string(a.Raw)+";s=")
			}
		}
	case "jws":
		alg := "ES256"
		k := a.Sign
		switch {
		case k == "hs":
			alg, k = "HS256", "ec1"
		case strings.HasPrefix(k, "rsa"):
			alg = "RS256"
		case k == "":
			alg, k = "none", "ec1"
		}
		tok = jwtSign([]byte(a.Header), []byte(a.Claims), alg, k)
		if a.Sign == "ec1" || a.Sign == "rsa1" {
			genuine = append(genuine, tok[:strings.LastIndexByte(tok, '.')+1])
		}
	default:
		harnessf("token kind %q", a.Kind)
	}
	for _, e := range a.Edits {
		n := len(tok)
		at := e.At * n / 1000
		switch e.Kind {
		case "flip":
			if at < n {
				tok = tok[:at] + string([]byte{tok[at] ^ 1}) + tok[at+1:]
			}
		case "ins":
			tok = tok[:at] + string(e.S) + tok[at:]
		case "del":
			tok = tok[:at] + tok[min(n, at+1+len(e.S)):]
		case "cut":
			tok = tok[:at]
		case "head":
			tok = tok[at:]
		case "dup":
			tok = tok + tok[at:]
		case "tail":
			tok += string(e.S)
		case "pre":
			tok = string(e.S) + tok
		case "upper":
			tok = strings.ToUpper(tok)
		case "rep":
			tok = strings.ReplaceAll(tok, ";", string(e.S))
		case "dot":
			tok = strings.Replace(tok, ".", string(e.S), 1)
		}
	}
	return tok, genuine
}

var soupParts = []string{"v=Z1", "v=", "v", "d=dom", "d=", "r=r0", "r=r0,r1", "r=", "p=user.a", "h=h", "a=1", "t=1", "t=x", "t=-1", "t=99999999999999999999", "e=1999999999", "e=", "e=1e9", "e=0x10", "k=t0", "k=", "k=zz", "i=::1", "s=", "s=abc", "=", "==", "=x", "", " ", "z=1", "\x00=\x00", "\xff", "日=本", "proxy=p"}
var soupJoin = []string{";", ";", ";", ";", ";;", "; ", ",", ";s=", ";s=;", "\n", "&"}

var strangeHeaders = []string{`{"alg":"ES256","kid":"j1"}`, `{"alg":"ES256","kid":"j1","jku":"https://evil.test/jwks"}`, `{"alg":"RS256","kid":"j0"}`, `{"alg":"none"}`, `{"alg":"none","kid":"j1"}`, `{"alg":"HS256","kid":"j1"}`, `{"alg":"HS256","kid":"j0"}`,
	`{"alg":null,"kid":"j1"}`, `{"alg":256,"kid":"j1"}`, `{"alg":"ES256","kid":null}`, `{"alg":"ES256","kid":1}`, `{"alg":"ES256","kid":["j1"]}`, `{"alg":"ES256"}`, `{"alg":"ES256","kid":""}`, `{"alg":"ES256","kid":"j1","jku":1}`, `{"alg":"ES256","kid":"j1","jku":null}`, `{"alg":"ES256","kid":"j1","jku":{}}`,
	`{}`, `null`, `[]`, `""`, `0`, ``, `{`, `{"alg":"ES256","kid":"j1","crit":["x"],"x":1}`, `{"alg":"ES384","kid":"j1"}`, `{"alg":"PS256","kid":"j0"}`, `{"alg":"EdDSA","kid":"j1"}`, `{"alg":"RS256","kid":"j1"}`, `{"alg":"ES256","kid":"j0"}`, `{"ALG":"ES256","KID":"j1"}`, `{"alg":"ES256","alg":"none","kid":"j1"}`}

var strangeClaims = []string{`{"aud":"dom","sub":"user.a","client_id":"client.a","scp":["r0"],"iat":946684000,"exp":1999999999}`, `{}`, `null`, `[]`, `"x"`, `1`, ``, `{`, `{"exp":null}`, `{"exp":"1999999999"}`, `{"exp":1e300}`, `{"exp":-1}`, `{"exp":1999999999.5}`,
	`{"aud":["dom","x"],"scp":["r0"],"exp":1999999999}`, `{"aud":{},"scp":["r0"],"exp":1999999999}`, `{"aud":"dom","scp":"r0 r1","exp":1999999999}`, `{"aud":"dom","scp":[1],"exp":1999999999}`, `{"aud":"dom","scp":null,"exp":1999999999}`, `{"aud":"dom","scp":[null],"exp":1999999999}`,
	`{"aud":"dom","sub":"user.a","scp":["r0"],"exp":1999999999,"cnf":null}`, `{"aud":"dom","sub":"user.a","scp":["r0"],"exp":1999999999,"cnf":{}}`, `{"aud":"dom","sub":"user.a","scp":["r0"],"exp":1999999999,"cnf":{"x5t#S256":1}}`, `{"aud":"dom","sub":"user.a","scp":["r0"],"exp":1999999999,"cnf":"x"}`, `{"aud":"dom","sub":"user.a","scp":["r0"],"exp":1999999999,"cnf":{"x5t#S256":null}}`, `{"aud":"dom","sub":"user.a","scp":["r0"],"exp":1999999999,"cnf":[]}`,
	`{"aud":"dom","sub":1,"client_id":{},"scp":["r0"],"exp":1999999999}`, `{"iat":"x","exp":1999999999}`, `{"nbf":99999999999,"exp":1999999999}`, `{"aud":"dom","scp":["r0"],"exp":9999999999999999999999}`}

func genBytes(t *rapid.T, label string, max int) []byte {
	switch intIn(t, label+"/k", 0, 3) {
	case 0:
		return rapid.SliceOfN(rapid.Byte(), 0, max).Draw(t, label)
	case 1:
		return []byte(rapid.StringN(0, max, -1).Draw(t, label))
	case 2:
		return []byte(pick(t, label+"/p", soupJoin...))
	default:
		return []byte(pick(t, label+"/p", ".", "..", ";s=", "s=", "=", ":", " ", "\x00", "\n", "\t", "%", "%s", "+", "/", "A", "Bearer ", "v=Z1;", "\xc0\x80", "e30", "e30."))
	}
}

func genAnyTok(t *rapid.T, i int) AnyTok {
	a := AnyTok{N: int64(i)}
	a.Kind = pick(t, "tok", "rt", "rt", "rt", "at", "at", "at", "raw", "fields", "fields", "jws", "jws", "jws")
	edits := 0
	switch a.Kind {
	case "rt", "at":
		edits = pick(t, "nedit", 0, 1, 1, 1, 2, 4)
	case "raw":
		a.Raw = genBytes(t, "raw", 60)
	case "fields":
		var sb strings.Builder
		for j, n := 0, intIn(t, "nf", 0, 12); j < n; j++ {
			if j > 0 {
				sb.WriteString(pick(t, "join", soupJoin...))
			}
			sb.WriteString(pick(t, "part", soupParts...))
		}
		a.Raw = []byte(sb.String())
		a.Sign = pick(t, "sign", "", "ec3", "ec1", "ec1", "rsa2", "rsa1")
		edits = pick(t, "nedit", 0, 0, 0, 1)
	case "jws":
		a.Header, a.Claims = pick(t, "hdr", strangeHeaders...), pick(t, "clm", strangeClaims...)
		if oneIn(t, "goodhdr", 2) {
			a.Header = pick(t, "gh", strangeHeaders[0], strangeHeaders[2])
		}
		a.Sign = pick(t, "sign", "", "hs", "ec3", "rsa2", "ec1", "rsa1")
		edits = pick(t, "nedit", 0, 0, 0, 1)
	}
	for j := 0; j < edits; j++ {
		e := BOp{Kind: pick(t, "op", "flip", "flip", "ins", "ins", "del", "cut", "head", "dup", "tail", "pre", "upper", "rep", "dot"), At: intIn(t, "at", 0, 1000)}
		switch e.Kind {
		case "ins", "tail", "pre", "rep", "dot", "del":
			e.S = genBytes(t, "es", 5)
		}
		a.Edits = append(a.Edits, e)
	}
	return a
}

// crCall presents credentials.
type crCall struct {
	Via    string `json:"via"` // role, access, http, cert
	Tok    int    `json:"tok"` // -1 none
	Tok2   int    `json:"tok2"`
	Hdr    string `json:"hdr,omitempty"`
	Scheme string `json:"scheme,omitempty"`
	Certs  []int  `json:"certs,omitempty"`
	Act    string `json:"act"`
	Res    string `json:"res"`
	Twice  bool   `json:"twice,omitempty"`
}

type crPlan struct {
	NoPolicy bool     `json:"nopol,omitempty"`
	RoleCert bool     `json:"rolecert,omitempty"`
	Cfg      atCfg    `json:"cfg"`
	Map      bool     `json:"map,omitempty"` // with a resource prefix and mapping rules
	Toks     []AnyTok `json:"toks"`
	Calls    []crCall `json:"calls"`
}

var crCerts = []Cert{
	{CN: "client.a", IssuerCN: "ca", NotBefore: T0 - 36000},
	{CN: "", IssuerCN: "", NotBefore: T0 - 36000},
	{CN: "dom:role.r0", IssuerCN: "dom:role.r0", NotBefore: T0 - 36000, URIs: []string{"athenz://role/dom/r0", "athenz://role/", "athenz://role/dom", "spiffe://", "urn:x", "athenz://role/dom/r0/x?y=1#z"}},
	{CN: ":role.", IssuerCN: "日本\x01", NotBefore: 0, URIs: []string{"athenz://role//", "//x"}},
	{CN: "client.b:role.x:role.y", IssuerCN: "ca", NotBefore: 1 << 33},
}

var crDoc = Doc{Domain: "dom", Pols: []Pol{{{"dom:role.r0", "read", "dom:x", "allow"}, {"dom:role.r1", "*", "dom:*", "allow"}, {"dom:role.r2", "*", "dom:*", "deny"}}}}

func genCrPlan(t *rapid.T) crPlan {
	p := crPlan{NoPolicy: oneIn(t, "nopol", 4), RoleCert: oneIn(t, "rolecert", 3), Map: oneIn(t, "map", 4)}
	p.Cfg = atCfg{Bind: oneIn(t, "bind", 3), Backdate: pick(t, "back", "", "0s", "1h"), Offset: pick(t, "off", "", "0s", "1h"), ClientID: oneIn(t, "cid", 3)}
	if p.Cfg.ClientID && !oneIn(t, "nolist", 4) {
		p.Cfg.Listed = map[string][]string{"client.a": {"client.a", ""}, "": {""}}
	}
	nt := intIn(t, "ntok", 1, 4)
	for i := 0; i < nt; i++ {
		p.Toks = append(p.Toks, genAnyTok(t, i))
	}
	for i, n := 0, intIn(t, "ncall", 1, 8); i < n; i++ {
		k := crCall{Tok: intIn(t, "which", 0, nt-1), Tok2: intIn(t, "which2", -1, nt-1), Act: pick(t, "act", "read", "read", "write", "", "\x00", "日"), Res: pick(t, "res", "x", "x", "y", "", "*", "\xff")}
		kind := p.Toks[k.Tok].Kind
		k.Via = pick(t, "via", "match", "match", "match", "role", "access", "http", "http", "cert")
		if k.Via == "match" {
			k.Via = pick(t, "anyvia", "role", "access")
			if kind == "rt" || kind == "fields" {
				k.Via = "role"
			}
			if kind == "at" || kind == "jws" {
				k.Via = "access"
			}
		}
		if k.Via == "http" {
			k.Scheme = pick(t, "scheme", "Bearer ", "Bearer ", "bearer ", "Bearer", "Bearer  ", "Basic ", "", "Bearer\t", "Bearer  x ", "\x00")
			if oneIn(t, "plus", 12) {
				k.Tok = -1
			}
		}
		for j, m := 0, pick(t, "ncert", 0, 0, 1, 1, 2, 3); j < m; j++ {
			k.Certs = append(k.Certs, intIn(t, "cert", 0, len(crCerts)-1))
		}
		k.Twice = oneIn(t, "twice", 3)
		p.Calls = append(p.Calls, k)
	}
	return p
}

func (p crPlan) world() *World {
	opts := []authorizerd.Option{p.Cfg.param(), authorizerd.WithCacheExp(time.Minute)}
	if p.NoPolicy {
		opts = append(opts, authorizerd.WithDisablePolicyd())
	}
	if !p.RoleCert {
		opts = append(opts, authorizerd.WithDisableRoleCert())
	}
	doc := crDoc
	if p.Map {
		doc = Doc{Domain: "dom", Pols: []Pol{{{"dom:role.r0", "read", "dom:/pre/x", "allow"}, {"dom:role.r1", "*", "dom:*", "allow"}}}}
		opts = append(opts, authorizerd.WithResourcePrefix("/pre/"), authorizerd.WithTranslator(lib(mapping(map[string][]MRule{"dom": {{Method: "read", Path: "/a/{x}", Action: "read", Resource: "{x}"}}}))))
	}
	return newWorld(stdRing(), []Doc{doc}, stdJwks(), opts...)
}

// answer is what one call returned.
type crAnswer struct {
	p    authorizerd.Principal
	err  error
	verr error
}

func (p crPlan) call(ctx context.Context, az authorizerd.Authorizerd, k crCall, toks []string) crAnswer {
	var certs []*x509.Certificate
	var leaf *x509.Certificate
	for _, n := range k.Certs {
		certs = append(certs, crCerts[n].build())
		leaf = certs[0]
	}
	var a crAnswer
	tok := func(i int) string {
		if i < 0 {
			return ""
		}
		return toks[i]
	}
	switch k.Via {
	case "role":
		a.p, a.err = az.AuthorizeRoleToken(ctx, tok(k.Tok), k.Act, k.Res)
		a.verr = az.VerifyRoleToken(ctx, tok(k.Tok), k.Act, k.Res)
	case "access":
		a.p, a.err = az.AuthorizeAccessToken(ctx, tok(k.Tok), k.Act, k.Res, leaf)
		a.verr = az.VerifyAccessToken(ctx, tok(k.Tok), k.Act, k.Res, leaf)
	case "http":
		h := http.Header{}
		if k.Tok >= 0 {
			h["Authorization"] = []string{k.Scheme + tok(k.Tok)}
			if k.Twice {
				h["Authorization"] = append(h["Authorization"], k.Scheme+tok(k.Tok2))
			}
		}
		if k.Tok2 >= 0 {
			h["Athenz-Role-Auth"] = []string{tok(k.Tok2)}
		}
		a.p, a.err = az.Authorize(httpReq(ctx, "/a/x?q=1", h, certs, len(k.Certs) > 0 || k.Twice), k.Act, k.Res)
		a.verr = az.Verify(httpReq(ctx, "/a/x?q=1", h, certs, len(k.Certs) > 0 || k.Twice), k.Act, k.Res)
	case "cert":
		a.p, a.err = az.AuthorizeRoleCert(ctx, certs, k.Act, k.Res)
		a.verr = az.VerifyRoleCert(ctx, certs, k.Act, k.Res)
	}
	return a
}

func isNil(p authorizerd.Principal) bool {
	return p == nil || reflect.ValueOf(p).Kind() == reflect.Pointer && reflect.ValueOf(p).IsNil()
}

func runCr(c *Case, p crPlan) error {
	logs := &logBuf{}
	defer logs.capture()()
	w := p.world()
	defer w.stop()
	w.mustInit()
	half()
	var toks []string
	var gen [][]string
	for _, a := range p.Toks {
		tok, g := a.build(&crCerts[0])
		toks, gen = append(toks, tok), append(gen, g)
	}
	// trusted: the text starts with something a trusted key signed.
	startsTrusted := func(i int, text string) bool {
		for _, g := range gen[i] {
			if strings.HasPrefix(text, g) {
				return true
			}
		}
		return false
	}
	trusted := func(i int) bool { return i >= 0 && startsTrusted(i, toks[i]) }
	// inHeader: as trusted, for the bearer token of an Authorization header.
	inHeader := func(scheme string, i int) bool {
		if i < 0 {
			return false
		}
		text := scheme + toks[i]
		if len(text) > 6 && strings.EqualFold(text[:7], "bearer ") {
			text = text[7:]
		}
		return startsTrusted(i, text)
	}
	kindOf := func(i int) string {
		switch p.Toks[i].Kind {
		case "rt", "fields":
			return "role"
		case "at", "jws":
			return "access"
		}
		return ""
	}
	for i, k := range p.Calls {
		a := p.call(w.ctx, w.az, k, toks)
		open := false
		switch k.Via {
		case "role", "access":
			open = trusted(k.Tok) && kindOf(k.Tok) == k.Via
		case "http":
			open = k.Tok >= 0 && inHeader(k.Scheme, k.Tok) && kindOf(k.Tok) == "access" || trusted(k.Tok2)
			if p.RoleCert && len(k.Certs) > 0 {
				open = true
			}
		case "cert":
			open = true
		}
		if a.err != nil && !isNil(a.p) {
			return failf("call %d %s: a principal is returned with error %v", i, jsonText(k), a.err)
		}
		if a.err == nil && a.p == nil {
			return failf("call %d %s: neither an error nor a principal is returned", i, jsonText(k))
		}
		if !open {
			c.Label("%s rejected", k.Via)
			c.NonTrivial()
			if a.err == nil || a.verr == nil {
				return failf("call %d %s: nothing in it is signed by a trusted key, yet it is accepted (%v, %v); tokens %q %q", i, jsonText(k), a.err, a.verr, tokAt(toks, k.Tok), tokAt(toks, k.Tok2))
			}
			continue
		}
		if k.Via != "cert" && a.err == nil {
			c.Label("%s accepted", k.Via)
		}
		// an untouched token passes wherever nothing but the policy stands in its way
		if (k.Via == "role" || k.Via == "access" && !p.Cfg.Bind && !p.Cfg.ClientID) && len(p.Toks[k.Tok].Edits) == 0 && (p.Toks[k.Tok].Kind == "rt" || p.Toks[k.Tok].Kind == "at") &&
			(p.NoPolicy || k.Act == "read" && k.Res == "x") && !p.Map && a.err != nil {
			return failf("call %d %s: a genuine token is rejected: %v", i, jsonText(k), a.err)
		}
	}
	return nil
}

func tokAt(toks []string, i int) string {
	if i < 0 {
		return ""
	}
	return toks[i]
}

// logBuf collects what is logged.
type logBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *logBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.Write(p)
}

func (l *logBuf) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.String()
}

// capture turns every level on and returns the function that turns them off.
func (l *logBuf) capture() func() {
	old := log.Writer()
	log.SetOutput(l)
	glg.Get().InitWriter().SetWriter(l).SetMode(glg.WRITER)
	return func() {
		log.SetOutput(old)
		glg.Get().InitWriter().SetMode(glg.NONE)
	}
}

const sigWindow = 24

// sigOf is the part of a token that must not be logged.
func sigOf(tok, via string) string {
	if via == "role" {
		if i := strings.LastIndex(tok, ";s="); i >= 0 {
			return tok[i+3:]
		}
		return ""
	}
	return tok[strings.LastIndexByte(tok, '.')+1:]
}

func runLog(c *Case, p crPlan) error {
	logs := &logBuf{}
	defer logs.capture()()
	w := p.world()
	defer w.stop()
	w.mustInit()
	half()
	var toks []string
	for _, a := range p.Toks {
		tok, _ := a.build(&crCerts[0])
		toks = append(toks, tok)
	}
	// plain is everything that is no signature
	plain := ""
	for _, tok := range toks {
		if i := strings.LastIndex(tok, ";s="); i >= 0 {
			plain += tok[:i] + "\n"
		} else {
			plain += tok[:max(strings.LastIndexByte(tok, '.'), 0)] + "\n"
		}
	}
	start := len(logs.String())
	for i, k := range p.Calls {
		if k.Via == "cert" {
			continue
		}
		for r := 0; r < 2; r++ {
			a := p.call(w.ctx, w.az, k, toks)
			if a.err == nil {
				c.Label("%s accepted", k.Via)
			} else {
				c.Label("%s rejected", k.Via)
			}
		}
		all := logs.String()
		out := all[start:]
		if strings.Contains(out, "masked tok") {
			c.Label("token logged")
			c.NonTrivial()
		}
		for _, ti := range []int{k.Tok, k.Tok2} {
			if ti < 0 {
				continue
			}
			for _, via := range []string{"role", "access"} {
				if k.Via != "http" && k.Via != via {
					continue
				}
				tok := toks[ti]
				sig := sigOf(tok, via)
				if via == "role" && !strings.Contains(tok, ";s=") || via == "access" && !strings.Contains(tok, ".") || k.Via == "http" && via == "role" != (p.Toks[ti].Kind == "rt" || p.Toks[ti].Kind == "fields") {
					continue
				}
				for j := 0; j+sigWindow <= len(sig); j++ {
					win := sig[j : j+sigWindow]
					if strings.Contains(plain, win) {
						continue
					}
					if n := strings.Index(out, win); n >= 0 {
						return failf("call %d %s: %d characters of the signature of %q are logged: ...%s", i, jsonText(k), sigWindow, tok, clip([]byte(out[max(0, n-200):]), 400))
					}
				}
			}
		}
		start = len(all)
	}
	return nil
}

func genLogPlan(t *rapid.T) crPlan {
	p := genCrPlan(t)
	// mostly genuine tokens, so that tokens are logged at all
	for i := range p.Toks {
		if oneIn(t, "genuine", 2) && (p.Toks[i].Kind == "rt" || p.Toks[i].Kind == "at") {
			p.Toks[i].Edits = nil
		}
	}
	for i := range p.Calls {
		if !oneIn(t, "strange", 4) {
			p.Calls[i].Act, p.Calls[i].Res = "read", "x"
		}
	}
	return p
}

func init() {
	register(Sub{Prop: "C23", Name: "soup", Quick: 28000, Thorough: 700000,
		Rule: "raw bytes, role token field soups, JWTs with strange headers and claims under trusted, strange, confused or no keys, and byte-edited genuine tokens, through every entry point with strange certificates and headers under all configurations, debug logging on; no panic, a nil principal with every error, and no acceptance unless the text starts with what a trusted key signed; non-trivial: a credential without trusted signature is presented"},
		genCrPlan, runCr)
	register(Sub{Prop: "C25", Name: "logs", Quick: 20000, Thorough: 500000,
		Rule: fmt.Sprintf("the same credentials, mostly genuine, presented twice (fresh, then cached) with every log level captured; no %d consecutive characters of a signature may appear in the log; non-trivial: the library logs a masked token", sigWindow)},
		genLogPlan, runLog)
}
