package harness

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/hmac"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/x509"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math"
	"strings"
	"time"

	"pgregory.net/rapid"

	authorizerd "github.com/yahoojapan/athenz-authorizer/v5"
)

// C11 access tokens, C12 certificate binding, C13 client ids.

// ATok says how an access token is made: header and claims, signed under an
// algorithm by a key, then altered. Claims of the form "x5t:<cert>" are resolved to
// the thumbprint of the step's certificates.
type ATok struct {
	Header map[string]any `json:"h"`
	Claims map[string]any `json:"c"`
	Alg    string         `json:"alg"` // how it is signed; the header may say otherwise
	Key    string         `json:"key"`
	Bind   *Cert          `json:"bind,omitempty"` // cnf carries this certificate's thumbprint
	Near   int            `json:"near,omitempty"` // not quite that thumbprint: 1 + a kind of nearAt
	Mut    []AMut         `json:"mut,omitempty"`
}

type AMut struct {
	Kind string `json:"k"`
	I    int    `json:"i,omitempty"`
	S    string `json:"s,omitempty"`
	V    any    `json:"v,omitempty"`
}

type jwsRec struct {
	input, sig, alg, key string
	header, claims       map[string]any
}

func jsonMap(m map[string]any) []byte {
	if m == nil {
		m = map[string]any{}
	}
	return must(json.Marshal(m))
}

func (a ATok) build() (string, []jwsRec) {
	claims := map[string]any{}
	for k, v := range a.Claims {
		claims[k] = v
	}
	if a.Bind != nil {
		cnf := map[string]any{}
		if m, ok := claims["cnf"].(map[string]any); ok {
			for k, v := range m {
				cnf[k] = v
			}
		}
		cnf["x5t#S256"] = thumbprint(a.Bind.build())
		if a.Near > 0 {
			cnf["x5t#S256"] = nearAt((a.Near-1)%nearKinds, a.Near, thumbprint(a.Bind.build()))
		}
		claims["cnf"] = cnf
	}
	header := map[string]any{}
	for k, v := range a.Header {
		header[k] = v
	}
	var recs []jwsRec
	sign := func(alg, k string) (in, sig string) {
		in = b64u(jsonMap(header)) + "." + b64u(jsonMap(claims))
		sig = b64u(attackSig(in, alg, k))
		recs = append(recs, jwsRec{in, sig, alg, k, copyMap(header), copyMap(claims)})
		return in, sig
	}
	in, sig := sign(a.Alg, a.Key)
	tok := in + "." + sig
	for _, m := range a.Mut {
		switch m.Kind {
		case "hdr", "clm":
			t := header
			if m.Kind == "clm" {
				t = claims
			}
			if m.V == nil {
				delete(t, m.S)
			} else {
				t[m.S] = m.V
			}
			in = b64u(jsonMap(header)) + "." + b64u(jsonMap(claims))
		case "sigflip":
			if len(sig) > 4 {
				i := 1 + m.I%(len(sig)-4)
				c := byte('A')
				if sig[i] == 'A' {
					c = 'Q'
				}
				sig = sig[:i] + string(c) + sig[i+1:]
			}
		case "sigempty":
			sig = ""
		case "sigcut":
			sig = sig[:len(sig)/2]
		case "sigother":
			sig = b64u(attackSig(in+"x", a.Alg, a.Key))
		case "resign": // by another key or algorithm
			var alg, k string
			k, alg, _ = strings.Cut(m.S, "/")
			if !canSign(k, alg) {
				continue
			}
			header["alg"] = alg
			in, sig = sign(alg, k)
		case "mac": // MAC keyed with the public key, in several encodings
			header["alg"] = "HS256"
			in = b64u(jsonMap(header)) + "." + b64u(jsonMap(claims))
			mac := hmac.New(sha256.New, publicBytes(a.Key, m.S))
			mac.Write([]byte(in))
			sig = b64u(mac.Sum(nil))
			recs = append(recs, jwsRec{in, sig, "HS256", a.Key, copyMap(header), copyMap(claims)})
		case "none":
			header["alg"] = m.S
			in = b64u(jsonMap(header)) + "." + b64u(jsonMap(claims))
		case "two":
			tok = in
			continue
		case "four":
			tok = in + "." + sig + "." + m.S
			continue
		case "wrap":
			tok = m.S + in + "." + sig
			continue
		case "tail":
			tok = in + "." + sig + m.S
			continue
		case "cut":
			tok = tok[:m.I%(len(tok)+1)]
			continue
		case "swapparts":
			p := strings.Split(in, ".")
			in = p[1] + "." + p[0]
		default:
			harnessf("mutation %q", m.Kind)
		}
		tok = in + "." + sig
	}
	return tok, recs
}

func copyMap(m map[string]any) map[string]any {
	out := map[string]any{}
	for k, v := range m {
		out[k] = v
	}
	return out
}

func publicBytes(k, enc string) []byte {
	switch enc {
	case "pem":
		return key(k).PubPEM
	case "der":
		return must(x509.MarshalPKIXPublicKey(key(k).Priv.Public()))
	case "jwk":
		return must(json.Marshal(jwkOf("j0", k)))
	case "empty":
		return nil
	}
	harnessf("encoding %q", enc)
	return nil
}

func canSign(k, alg string) bool {
	switch key(k).Priv.Public().(type) {
	case *rsa.PublicKey:
		return strings.HasPrefix(alg, "RS") || strings.HasPrefix(alg, "PS")
	default:
		return strings.HasPrefix(alg, "ES")
	}
}

func attackSig(in, alg, k string) []byte {
	if alg == "HS256" || alg == "HS512" || alg == "none" {
		return jwsSig(in, alg, k)
	}
	if !canSign(k, alg) {
		return []byte("no such signature")
	}
	return jwsSig(in, alg, k)
}

// algFits says whether the algorithm is one of the key's type.
func algFits(k, alg string) tri {
	switch pub := key(k).Priv.Public().(type) {
	case *rsa.PublicKey:
		switch alg {
		case "RS256", "RS384", "RS512", "PS256", "PS384", "PS512":
			return yes
		}
	case *ecdsa.PublicKey:
		want := "ES256"
		if pub.Curve == elliptic.P384() {
			want = "ES384"
		}
		if alg == want {
			return yes
		}
		if strings.HasPrefix(alg, "ES") {
			return unknown
		}
	}
	return no
}

type atCfg struct {
	Bind     bool                `json:"bind"`
	Backdate string              `json:"back"`
	Offset   string              `json:"off"`
	ClientID bool                `json:"cid"`
	Listed   map[string][]string `json:"listed"`
	Default  bool                `json:"default,omitempty"` // not configured at all
}

func (c atCfg) param() authorizerd.Option {
	if c.Default {
		return authorizerd.WithJwkURLs(nil)
	}
	return authorizerd.WithAccessTokenParam(authorizerd.NewAccessTokenParam(true, c.Bind, c.Backdate, c.Offset, c.ClientID, c.Listed))
}

func seconds(d string) int64 {
	if d == "" {
		return 0
	}
	return int64(must(time.ParseDuration(d)) / time.Second)
}

// verdict3 collects reasons: any "no" wins over "unknown", which wins over "yes".
type verdict3 struct {
	v   tri
	why string
}

func (v *verdict3) no(f string, a ...any) {
	if v.v != no {
		v.v, v.why = no, fmt.Sprintf(f, a...)
	}
}
func (v *verdict3) open(f string, a ...any) {
	if v.v == yes {
		v.v, v.why = unknown, fmt.Sprintf(f, a...)
	}
}

// numClaim reads an optional integer claim.
func numClaim(v *verdict3, c map[string]any, name string) (n int64) {
	x, ok := c[name]
	if !ok || x == nil {
		return 0
	}
	f, ok := x.(float64)
	if !ok {
		v.no("claim %s is no number", name)
		return 0
	}
	if f != math.Trunc(f) || math.Abs(f) > 1e15 {
		v.open("fractional or huge %s", name)
		return 0
	}
	return int64(f)
}

// atRef is the reference verdict on an access token.
type atRef struct {
	verdict3
	claims map[string]any
}

func refAccess(tok string, recs []jwsRec, jwks map[string]map[string]string, cfg atCfg, cert *Cert, now time.Time) (r atRef) {
	r.v = yes
	parts := strings.Split(tok, ".")
	if len(parts) != 3 {
		r.no("not three parts")
		return r
	}
	in, sig := parts[0]+"."+parts[1], parts[2]
	var hit *jwsRec
	same := false
	for i := range recs {
		if recs[i].input == in {
			same = true
			if recs[i].sig == sig {
				hit = &recs[i]
			}
		}
	}
	if !same {
		r.no("never signed")
		return r
	}
	if hit == nil {
		raw, err := base64.RawURLEncoding.DecodeString(sig)
		for i := range recs {
			if recs[i].input == in && (err != nil || string(raw) == string(must(base64.RawURLEncoding.DecodeString(recs[i].sig)))) {
				r.open("another encoding of the signature")
				return r
			}
		}
		r.no("signature altered")
		return r
	}
	h, c := hit.header, hit.claims
	r.claims = c
	alg, _ := h["alg"].(string)
	if alg != hit.alg {
		r.no("signed under another algorithm than the header's")
	}
	kid, ok := h["kid"].(string)
	if !ok || kid == "" {
		r.no("no kid")
	}
	url := athenzJwksURL()
	if j, has := h["jku"]; has {
		s, ok := j.(string)
		switch {
		case !ok:
			r.no("jku is no string")
		case s == "":
			r.open("empty jku")
		default:
			url = s
		}
	}
	pub, ok := jwks[url][kid]
	switch {
	case !ok:
		r.no("key not in the selected set")
	case pub != hit.key:
		r.no("signed by another key")
	default:
		switch algFits(pub, alg) {
		case no:
			r.no("algorithm of another key type")
		case unknown:
			r.open("curve")
		}
	}
	switch e, isnum := c["exp"].(float64); {
	case !isnum || e == 0:
		r.no("no expiry")
	case e != math.Trunc(e) || math.Abs(e) > 1e15:
		r.open("fractional or huge exp")
	case !now.Before(time.Unix(int64(e), 0)):
		r.no("expired")
	}
	iat := numClaim(&r.verdict3, c, "iat")
	if time.Unix(iat, 0).After(now) {
		r.no("issued in the future")
	}
	if nbf := numClaim(&r.verdict3, c, "nbf"); time.Unix(nbf, 0).After(now) {
		r.no("not valid yet")
	}
	str := func(name string) string {
		x, ok := c[name]
		if !ok || x == nil {
			return ""
		}
		s, ok := x.(string)
		if !ok {
			r.open("claim %s is no string", name)
		}
		return s
	}
	str("aud")
	str("sub")
	str("iss")
	clientID := str("client_id")
	cnf, ok := c["cnf"].(map[string]any)
	if x, has := c["cnf"]; has && x != nil && !ok {
		r.open("cnf is no object")
	}
	if x, has := c["scp"]; has && x != nil {
		l, ok := x.([]any)
		if !ok {
			r.open("scp is no list")
		}
		for _, e := range l {
			if _, ok := e.(string); !ok {
				r.open("scp element is no string")
			}
		}
	}
	if cfg.ClientID {
		listed := false
		if cert != nil {
			for _, id := range cfg.Listed[cert.CN] {
				listed = listed || id == clientID
			}
		}
		if !listed {
			r.no("client id not listed")
		}
	}
	if cfg.Bind {
		if !bound(cfg, cnf, cert, iat, clientID) {
			r.no("certificate not bound")
		}
	}
	return r
}

// bound is the reference for certificate-bound access tokens.
func bound(cfg atCfg, cnf map[string]any, cert *Cert, iat int64, clientID string) bool {
	if cert == nil {
		return false
	}
	if th, ok := cnf["x5t#S256"].(string); ok {
		if th == thumbprint(cert.build()) {
			return true
		}
		issued := cert.NotBefore + seconds(cfg.Backdate)
		if off := seconds(cfg.Offset); off != 0 && cert.CN != "" && cert.CN == clientID && issued >= iat && issued <= iat+off {
			return true
		}
	}
	if l, ok := cnf["proxy-principals#spiffe"].([]any); ok {
		for _, x := range l {
			for _, u := range cert.build().URIs {
				if s, ok := x.(string); ok && s == u.String() {
					return true
				}
			}
		}
	}
	return false
}

type atStep struct {
	Jwks map[string]map[string]string `json:"jwks,omitempty"` // key sets published from here on
	Tok  *ATok                        `json:"tok"`
	Cert *Cert                        `json:"cert,omitempty"`
	Adv  int                          `json:"adv,omitempty"`
}

type atPlan struct {
	Cfg   atCfg    `json:"cfg"`
	URLs  []string `json:"urls"` // configured JWK URLs besides Athenz's
	Steps []atStep `json:"steps"`
}

var jkuPool = []string{"https://jwk.test/keys", "http://jwk.test/keys", "https://jwk.test/keys2"}

func algsFor(k string) []string {
	switch {
	case strings.HasPrefix(k, "rsa"):
		return []string{"RS256", "RS256", "RS384", "RS512", "PS256", "PS384", "PS512"}
	case k == "p384":
		return []string{"ES384"}
	}
	return []string{"ES256"}
}

func genJwks(t *rapid.T, urls []string) map[string]map[string]string {
	m := map[string]map[string]string{athenzJwksURL(): {"j0": pick(t, "k0", "rsa1", "rsa1", "ec1", "p384"), "j1": pick(t, "k1", "ec1", "ec2", "rsa2")}}
	for _, u := range urls {
		s := map[string]string{}
		for _, kid := range []string{"j0", "j1", "x"} {
			if !oneIn(t, "nokid", 3) {
				s[kid] = pick(t, "k", "rsa0", "rsa1", "ec0", "ec1", "ec3", "p384")
			}
		}
		m[u] = s
	}
	return m
}

// genATok draws a token that is mostly right under the published key sets.
func genATok(t *rapid.T, jwks map[string]map[string]string, cfg atCfg, wrong int) *ATok {
	urls := sortedKeys(jwks)
	u := pick(t, "url", urls...)
	kids := sortedKeys(jwks[u])
	if len(kids) == 0 {
		u = athenzJwksURL()
		kids = sortedKeys(jwks[u])
	}
	kid := pick(t, "kid", kids...)
	k := jwks[u][kid]
	a := &ATok{Key: k, Alg: pick(t, "alg", algsFor(k)...)}
	a.Header = map[string]any{"alg": a.Alg, "kid": kid, "typ": "at+jwt"}
	if u != athenzJwksURL() || oneIn(t, "jkuathenz", 6) {
		a.Header["jku"] = u
	}
	a.Claims = map[string]any{"aud": pick(t, "aud", "dom", "dom.sub", ""), "sub": pick(t, "sub", "user.alice", "svc.x"), "client_id": pick(t, "cid", "client.a", "client.b", ""),
		"iss": "zts", "scp": []any{"admin", "reader"}[:intIn(t, "nscp", 0, 2)], "ver": 1, "auth_time": T0 - 100,
		"iat": T0 - pick(t, "iat", 0, 10, 100000), "exp": T0 + pick(t, "exp", 1, 3, 60, 3600, 3600, 100000000)}
	if oneIn(t, "othertyp", 10) {
		if v := pick(t, "typ", "JWT", "jwt", "", "-", "application/at+jwt"); v == "-" {
			delete(a.Header, "typ")
		} else {
			a.Header["typ"] = v
		}
	}
	if !oneIn(t, "wrong", wrong) {
		return a
	}
	switch pick(t, "what", "time", "time", "header", "header", "claims", "alg", "mut", "mut", "mut") {
	case "time":
		switch intIn(t, "time", 0, 6) {
		case 6:
			a.Claims["nbf"], a.Claims["iat"] = T0-pick(t, "nbfago", 0, 1, 100, 100000), T0+pick(t, "iatin", -1, 0, 1, 60, 3600)
		case 0:
			a.Claims["exp"] = T0 - pick(t, "ago", 0, 1, 3600)
		case 1:
			delete(a.Claims, "exp")
		case 2:
			a.Claims["exp"] = pick[any](t, "expv", 0, -1, "4000000000", 1.5, true, nil, 1e18)
		case 3:
			a.Claims["iat"] = pick[any](t, "iatv", T0+1, T0+3600, T0, 0, "x", nil)
		case 4:
			a.Claims["nbf"] = pick[any](t, "nbfv", T0+1, T0+60, T0, T0-1, 0, "x")
		case 5:
			delete(a.Claims, "iat")
		}
	case "header":
		switch intIn(t, "hdr", 0, 3) {
		case 0:
			if oneIn(t, "kidnear", 3) {
				a.Header["kid"] = near(t, "kidn", kid)
				break
			}
			if v := pick[any](t, "kidv", nil, "", "zz", "j0", "j1", 1, []any{"j0"}, "J0", "j0 "); v == nil {
				delete(a.Header, "kid")
			} else {
				a.Header["kid"] = v
			}
		case 1:
			if oneIn(t, "jkunear", 3) {
				a.Header["jku"] = near(t, "jkun", u)
				break
			}
			if v := pick[any](t, "jkuv", nil, "", jkuPool[0], jkuPool[1], jkuPool[2], athenzJwksURL(), "https://evil.test/keys", "https://jwk.test/keys/", 5, true, "https://JWK.test/keys", "file:///etc/passwd"); v == nil {
				delete(a.Header, "jku")
			} else {
				a.Header["jku"] = v
			}
		case 2:
			a.Header["alg"] = pick[any](t, "algv", "none", "None", "", "HS256", "RS512", "ES256", "PS256", "ES384", "XX", 5, true)
		case 3:
			a.Header["jwk"] = jwkOf("j0", "ec7")
			a.Key, a.Alg = "ec7", "ES256"
			a.Header["alg"] = "ES256"
		}
	case "claims":
		a.Claims[pick(t, "ck", "aud", "scp", "cnf", "client_id", "sub")] = pick[any](t, "cv", nil, 1, []any{"dom"}, "x", map[string]any{"a": 1})
	case "alg":
		a.Key = pick(t, "okey", poolKeys...)
		a.Alg = pick(t, "oalg", algsFor(a.Key)...)
		if oneIn(t, "hs", 4) {
			a.Alg = "HS256"
		} else if oneIn(t, "nonealg", 6) {
			a.Alg = "none"
		}
		a.Header["alg"] = a.Alg
	case "mut":
		m := AMut{Kind: pick(t, "mut", "hdr", "clm", "clm", "sigflip", "sigempty", "sigcut", "sigother", "resign", "mac", "none", "two", "four", "wrap", "tail", "cut", "swapparts"), I: intIn(t, "mi", 0, 700)}
		switch m.Kind {
		case "hdr":
			m.S = pick(t, "hk", "kid", "jku", "alg", "typ")
			m.V = pick[any](t, "hv", "j0", "j1", "x", "none", jkuPool[0], nil)
		case "clm":
			m.S = pick(t, "ck", "exp", "scp", "aud", "sub", "client_id", "iat", "cnf", "nbf")
			m.V = pick[any](t, "cv", 4000000000, T0, []any{"root"}, "dom2", "client.a", nil, map[string]any{})
		case "resign":
			k := pick(t, "rk", poolKeys...)
			m.S = k + "/" + pick(t, "ralg", algsFor(k)...)
		case "mac":
			m.S = pick(t, "enc", "pem", "der", "jwk", "empty")
		case "none":
			m.S = pick(t, "nonev", "none", "None", "NONE", "nOnE", "")
		case "four", "tail", "wrap":
			m.S = pick(t, "junk", "", "x", " ", ".", "=", "Bearer ", "\n")
		}
		a.Mut = append(a.Mut, m)
	}
	return a
}

func genATPlan(t *rapid.T) atPlan {
	var p atPlan
	p.URLs = shuffled(t, "urls", jkuPool)[:intIn(t, "nurls", 0, 2)]
	p.Cfg = atCfg{Backdate: "1h", Offset: "1h"}
	n := intIn(t, "n", 1, 5)
	var jw map[string]map[string]string
	for i := 0; i < n; i++ {
		var s atStep
		if i == 0 || oneIn(t, "newjwks", 4) {
			jw = genJwks(t, p.URLs)
			s.Jwks = jw
		}
		s.Tok = genATok(t, jw, p.Cfg, 2)
		if i > 0 && oneIn(t, "again", 5) {
			s.Tok = p.Steps[intIn(t, "which", 0, i-1)].Tok
		}
		if oneIn(t, "cert", 3) {
			s.Cert = genCert(t)
		}
		s.Adv = pick(t, "adv", 0, 0, 1, 2, 70)
		p.Steps = append(p.Steps, s)
	}
	return p
}

var spiffePool = []string{"spiffe://a/b", "spiffe://a/c", "athenz://role/dom/admin", "https://x.test/y", "spiffe://b/b", "athenz://instanceid/a/b"}

func genCert(t *rapid.T) *Cert {
	c := &Cert{CN: pick(t, "cn", "client.a", "client.b", "client.a.", "", "Client.a"), IssuerCN: "ca", NotBefore: T0 - int64(pick(t, "nb", 0, 3600, 3610, 7200, 10, 3, -1800)), Serial: int64(intIn(t, "sn", 0, 3))}
	c.URIs = shuffled(t, "uris", spiffePool)[:pick(t, "nuris", 0, 1, 2, 0, 1, 2, 3, 6)]
	if len(c.URIs) == 0 {
		c.URIs = nil
	}
	return c
}

func genBindPlan(t *rapid.T) atPlan {
	p := genATPlan(t)
	p.URLs = nil
	p.Cfg = atCfg{Bind: !oneIn(t, "nobind", 6), Backdate: pick(t, "back", "1h", "1h", "", "0s", "90s"), Offset: pick(t, "off", "1h", "1h", "10s", "", "0s")}
	if oneIn(t, "cid", 4) {
		p.Cfg.ClientID = true
		p.Cfg.Listed = genListed(t)
	}
	if oneIn(t, "default", 6) {
		p.Cfg = atCfg{Bind: true, Backdate: "1h", Offset: "1h", Default: true}
	}
	p.Steps = nil
	n := intIn(t, "n", 1, 5)
	jw := stdJwks()
	for i := 0; i < n; i++ {
		s := atStep{Tok: genATok(t, jw, p.Cfg, 12)}
		if i == 0 {
			s.Jwks = jw
		}
		if i > 0 && oneIn(t, "sametok", 3) {
			s.Tok = p.Steps[i-1].Tok
		} else {
			genCnf(t, s.Tok)
		}
		if !oneIn(t, "nocert", 8) {
			s.Cert = genCert(t)
			if s.Tok.Bind != nil {
				switch intIn(t, "how", 0, 5) {
				case 0, 1: // the very certificate
					b := *s.Tok.Bind
					s.Cert = &b
				case 2: // renewed: issued around the edges of the window
					iat, _ := s.Tok.Claims["iat"].(int)
					off := seconds(p.Cfg.Offset)
					b := *s.Tok.Bind
					b.Serial++
					b.CN, _ = s.Tok.Claims["client_id"].(string)
					edges := []int64{-1, 0, 1, off - 1, off, off + 1, off / 2, 3 * off, -off}
					b.NotBefore = int64(iat) - seconds(p.Cfg.Backdate) + edges[intIn(t, "edge", 0, len(edges)-1)]
					if oneIn(t, "othercn", 5) {
						b.CN = pick(t, "rcn", "client.a", "client.b", "")
					}
					s.Cert = &b
				}
			}
		}
		s.Adv = intIn(t, "adv", 0, 2)
		p.Steps = append(p.Steps, s)
	}
	return p
}

// genCnf gives the token a confirmation claim.
func genCnf(t *rapid.T, a *ATok) {
	cnf := map[string]any{}
	switch intIn(t, "cnf", 0, 7) {
	case 0:
	case 1:
		cnf["x5t#S256"] = pick[any](t, "x5", "", "AAAA", 5, []any{"x"}, map[string]any{})
	case 2:
		a.Claims["cnf"] = pick[any](t, "cnfv", "", nil, "x", map[string]any{}, 5)
		return
	default:
		a.Bind = genCert(t)
		if oneIn(t, "near", 4) {
			a.Near = 1 + intIn(t, "nearkind", 0, 4*nearKinds)
		}
	}
	if oneIn(t, "proxy", 2) {
		l := []any{}
		n := intIn(t, "np", 0, 3)
		for i := 0; i < n; i++ {
			if oneIn(t, "spnear", 4) {
				l = append(l, near(t, "spk", pick(t, "sp0", spiffePool...)))
				continue
			}
			l = append(l, pick[any](t, "sp", "spiffe://a/b", "spiffe://a/c", "spiffe://a/", "spiffe://A/b", "athenz://role/dom/admin", 7, ""))
		}
		if oneIn(t, "notlist", 8) {
			cnf["proxy-principals#spiffe"] = "spiffe://a/b"
		} else {
			cnf["proxy-principals#spiffe"] = l
		}
	}
	a.Claims["cnf"] = cnf
}

func genListed(t *rapid.T) map[string][]string {
	m := map[string][]string{}
	for _, cn := range []string{"client.a", "client.b", "client.a.", "", "Client.a"} {
		if oneIn(t, "listcn", 2) {
			m[cn] = shuffled(t, "ids", []string{"client.a", "client.b", "", "client"})[:intIn(t, "nids", 0, 3)]
		}
	}
	return m
}

func genClientPlan(t *rapid.T) atPlan {
	p := atPlan{Cfg: atCfg{ClientID: !oneIn(t, "nocid", 8), Listed: genListed(t), Backdate: "1h", Offset: "1h"}}
	if oneIn(t, "nilmap", 12) {
		p.Cfg.Listed = nil
	}
	if oneIn(t, "bind", 6) {
		p.Cfg.Bind = true
	}
	jw := stdJwks()
	n := intIn(t, "n", 1, 5)
	for i := 0; i < n; i++ {
		s := atStep{Tok: genATok(t, jw, p.Cfg, 12)}
		if i == 0 {
			s.Jwks = jw
		}
		s.Tok.Claims["client_id"] = pick[any](t, "client", "client.a", "client.b", "", "client", "client.a ", nil, "Client.a")
		if s.Tok.Claims["client_id"] == nil {
			delete(s.Tok.Claims, "client_id")
		}
		if cid, ok := s.Tok.Claims["client_id"].(string); ok {
			s.Tok.Claims["client_id"] = maybeNear(t, "cidnear", cid, 8)
		}
		if !oneIn(t, "nocert", 6) {
			s.Cert = genCert(t)
			if oneIn(t, "cnnear", 6) && len(s.Cert.CN) < 30 {
				s.Cert.CN = strings.ToValidUTF8(strings.ReplaceAll(near(t, "cnnear", s.Cert.CN), "\x00", ""), "")
			}
			if p.Cfg.Bind && !oneIn(t, "unbound", 4) {
				s.Tok.Bind = s.Cert
			}
		}
		p.Steps = append(p.Steps, s)
	}
	return p
}

func runAT(prop string) func(c *Case, p atPlan) error {
	return func(c *Case, p atPlan) error {
		jwks := map[string]map[string]string{athenzJwksURL(): {}}
		for _, u := range p.URLs {
			jwks[u] = map[string]string{}
		}
		for u, m := range p.Steps[0].Jwks {
			jwks[u] = m
		}
		w := newWorld(stdRing(), nil, jwks, authorizerd.WithDisablePolicyd(), authorizerd.WithDisablePubkeyd(), authorizerd.WithDisableRoleToken(), authorizerd.WithCacheExp(time.Millisecond), p.Cfg.param())
		defer w.stop()
		w.mustInit()
		half()
		made := map[string]string{}
		var recs []jwsRec
		for i, s := range p.Steps {
			if i > 0 && s.Jwks != nil {
				for u, m := range s.Jwks {
					w.jwks[u] = m
				}
				w.mustInit()
			}
			id := string(must(json.Marshal(s.Tok)))
			tok, ok := made[id]
			if !ok {
				var rs []jwsRec
				tok, rs = s.Tok.build()
				recs = append(recs, rs...)
				made[id] = tok
			}
			var crt *x509.Certificate
			if s.Cert != nil {
				crt = s.Cert.build()
			}
			ref := refAccess(tok, recs, w.jwks, p.Cfg, s.Cert, time.Now())
			pr, err := w.az.AuthorizeAccessToken(w.ctx, tok, "act", "res", crt)
			where := func(f string, a ...any) error {
				return failf("step %d, token %s, header %v claims %v, certificate %+v: %s", i, tok, s.Tok.Header, s.Tok.Claims, s.Cert, fmt.Sprintf(f, a...))
			}
			switch ref.v {
			case unknown:
				c.Label("unspecified: %s", ref.why)
			case no:
				c.Label("rejected: %s", ref.why)
				if ref.why == "certificate not bound" || ref.why == "client id not listed" || prop == "C11" {
					c.NonTrivial()
				}
				if err == nil {
					return where("must be rejected: %s", ref.why)
				}
				if pr != nil {
					return where("a principal is returned with the rejection")
				}
			case yes:
				c.Label("accepted")
				c.NonTrivial()
				if err != nil {
					return where("must be accepted: %v", err)
				}
				v := viewOf(pr)
				sub, _ := ref.claims["sub"].(string)
				aud, _ := ref.claims["aud"].(string)
				if v.Name != sub || v.Domain != aud {
					return where("principal %v, signed sub %q aud %q", v, sub, aud)
				}
			}
			time.Sleep(time.Duration(max(s.Adv, 1)) * time.Second)
		}
		return nil
	}
}

func init() {
	register(Sub{Prop: "C11", Name: "token", Quick: 18000, Thorough: 450000,
		Rule: "sequences of JWTs over 1-3 key sets (RSA, P-256, P-384 keys, all RS/PS/ES algorithms) with wrong times, kid, jku, algorithm confusion, unsigned, re-signed or altered parts; non-trivial: accepted, or rejected for a known reason"},
		genATPlan, runAT("C11"))
	register(Sub{Prop: "C12", Name: "binding", Quick: 14000, Thorough: 350000,
		Rule: "tokens with thumbprint and proxy confirmations presented with the bound, a renewed (issue time on either edge of the window), an unrelated or no certificate under drawn backdate/offset settings; non-trivial: accepted, or rejected by the certificate or client-id rule"},
		genBindPlan, runAT("C12"))
	register(Sub{Prop: "C13", Name: "clientid", Quick: 14000, Thorough: 350000,
		Rule: "tokens with drawn client ids presented with certificates of look-alike common names under drawn tables; non-trivial: accepted, or rejected by the client-id or certificate rule"},
		genClientPlan, runAT("C13"))
}
