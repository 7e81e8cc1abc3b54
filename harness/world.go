package harness

import (
	"bytes"
	"context"
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/hmac"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/x509"
	"crypto/x509/pkix"
	"embed"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"hash/fnv"
	"io"
	"math/big"
	"net/http"
	"net/url"
	"strings"
	"sync"
	"time"

	authcore "github.com/AthenZ/athenz/libs/go/zmssvctoken"
	"github.com/AthenZ/athenz/utils/zpe-updater/util"
	"github.com/ardielle/ardielle-go/rdl"
	"github.com/yahoojapan/athenz-authorizer/v5/pubkey"
)

// ---- keys -------------------------------------------------------------------

//go:embed keys/*.pem
var keyFS embed.FS

// Key is one key pair in every representation the fake servers need.
type Key struct {
	Name   string
	Priv   crypto.Signer
	PubPEM []byte
	Y64    string // YBase64 of PubPEM, as published by Athenz
	Signer authcore.Signer
	Ver    authcore.Verifier
}

var keyRing = loadKeys()

func loadKeys() map[string]*Key {
	m := map[string]*Key{}
	ents := must(keyFS.ReadDir("keys"))
	for _, e := range ents {
		raw := must(keyFS.ReadFile("keys/" + e.Name()))
		blk, _ := pem.Decode(raw)
		k := &Key{Name: strings.TrimSuffix(e.Name(), ".pem")}
		if blk.Type == "RSA PRIVATE KEY" {
			k.Priv = must(x509.ParsePKCS1PrivateKey(blk.Bytes))
		} else {
			k.Priv = must(x509.ParseECPrivateKey(blk.Bytes))
		}
		k.PubPEM = pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: must(x509.MarshalPKIXPublicKey(k.Priv.Public()))})
		k.Y64 = new(authcore.YBase64).EncodeToString(k.PubPEM)
		k.Signer = must(authcore.NewSigner(raw))
		k.Ver = must(authcore.NewVerifier(k.PubPEM))
		m[k.Name] = k
	}
	return m
}

func key(name string) *Key {
	k := keyRing[name]
	if k == nil {
		harnessf("no key %q", name)
	}
	return k
}

func (k *Key) sign(s string) string { return must(k.Signer.Sign(s)) }

// KeyRing maps (service, key id) to a key name: what ZMS and ZTS publish.
type KeyRing struct {
	ZMS map[string]string
	ZTS map[string]string
}

// stdRing is the ring used where keys are not the subject of the check.
func stdRing() KeyRing {
	return KeyRing{ZMS: map[string]string{"m0": "ec0", "m1": "rsa0"}, ZTS: map[string]string{"t0": "ec1", "t1": "rsa1"}}
}

// provider is a pubkey.Provider over the ring, for checks of a single component.
func (r KeyRing) provider() pubkey.Provider {
	return func(env pubkey.AthenzEnv, id string) authcore.Verifier {
		m := r.ZMS
		if env == pubkey.EnvZTS {
			m = r.ZTS
		}
		if n, ok := m[id]; ok {
			return key(n).Ver
		}
		return nil
	}
}

func (r KeyRing) body(env string) []byte {
	m := r.ZMS
	if env == "zts" {
		m = r.ZTS
	}
	return pubkeyBody(env, m)
}

type pubEntry struct {
	ID  string `json:"id"`
	Key string `json:"key"`
}

func pubkeyBody(env string, m map[string]string) []byte {
	ents := []pubEntry{}
	for _, id := range sortedKeys(m) {
		ents = append(ents, pubEntry{id, key(m[id]).Y64})
	}
	return keyListBody("sys.auth."+env, ents)
}

func keyListBody(name string, ents []pubEntry) []byte {
	m := map[string]any{"name": name, "publicKeys": ents}
	switch n := decor(ents); n % 7 {
	case 0:
	case 1:
		m["modified"] = ""
	default:
		m["modified"] = time.Unix(T0-int64(n/7%100000000), 0).UTC().Format("2006-01-02T15:04:05.000Z")
	}
	return padded(decor(ents)/8, must(json.Marshal(m)))
}

// ---- policies ---------------------------------------------------------------

// Asn is one assertion, with the full role name and the full resource name.
type Asn struct {
	Role     string `json:"role"`
	Action   string `json:"act"`
	Resource string `json:"res"`
	Effect   string `json:"eff"`
}

func (a Asn) deny() bool { return strings.EqualFold(a.Effect, "deny") }

// Pol is one policy: a list of assertions.
type Pol []Asn

// Doc is the content of one domain's policy document.
type Doc struct {
	Domain string `json:"dom"`
	Pols   []Pol  `json:"pols"`
	TTL    int    `json:"ttl,omitempty"` // seconds from signing to expiry, 0 means a week
	Tag    int    `json:"tag,omitempty"` // makes documents distinguishable on the wire
}

func (d Doc) ttl() time.Duration {
	if d.TTL == 0 {
		return 7 * 24 * time.Hour
	}
	return time.Duration(d.TTL) * time.Second
}

func ts(t time.Time) *rdl.Timestamp { return &rdl.Timestamp{Time: t.UTC()} }

// decor is a number for the parts of a served object that must not matter; it depends on the content only.
func decor(v any) uint64 {
	h := fnv.New64a()
	h.Write(must(json.Marshal(v)))
	return h.Sum64()
}

// padded makes some served objects long, with space that means nothing.
func padded(n uint64, b []byte) []byte {
	size := 0
	switch {
	case n%1000 == 7:
		size = 5 << 20
	case n%50 == 7:
		size = 200 << 10
	}
	i := bytes.IndexByte(b, '{') + 1
	if size == 0 || i == 0 {
		return b
	}
	return append(append(append([]byte(nil), b[:i]...), bytes.Repeat([]byte{' '}, size)...), b[i:]...)
}

// modified is a modification time that says nothing about the order of the versions.
func modified(n uint64) *rdl.Timestamp {
	switch n % 7 {
	case 0:
		return nil
	case 1:
		return ts(time.Unix(2500000000, 0))
	}
	return ts(time.Unix(T0-int64(n/7%100000000), 0))
}

func policyData(d Doc) *util.PolicyData {
	pd := &util.PolicyData{Domain: d.Domain}
	n := decor(d)
	for i, p := range d.Pols {
		up := &util.Policy{Name: fmt.Sprintf("%s:policy.p%d", d.Domain, i), Modified: modified(n / 64 * uint64(i+1))}
		if n%8 < 3 {
			up.Name += fmt.Sprintf("-%d", d.Tag)
		}
		if n%64 == 63 {
			up.Name, up.Modified = "", nil
		}
		for _, a := range p {
			up.Assertions = append(up.Assertions, &util.Assertion{Role: a.Role, Action: a.Action, Resource: a.Resource, Effect: a.Effect})
		}
		pd.Policies = append(pd.Policies, up)
	}
	return pd
}

// signing says how a document is signed.
type signing struct {
	ZMSKey, ZMSID, ZTSKey, ZTSID string
}

var stdSigning = signing{"ec0", "m0", "ec1", "t0"}

func signDoc(d Doc, expires time.Time, s signing) *util.DomainSignedPolicyData {
	pd := policyData(d)
	spd := &util.SignedPolicyData{
		Expires:      ts(expires),
		Modified:     modified(decor(d)),
		PolicyData:   pd,
		ZmsKeyId:     s.ZMSID,
		ZmsSignature: key(s.ZMSKey).sign(string(must(json.Marshal(pd)))),
	}
	return &util.DomainSignedPolicyData{
		KeyId:            s.ZTSID,
		Signature:        key(s.ZTSKey).sign(string(must(json.Marshal(spd)))),
		SignedPolicyData: spd,
	}
}

// docBody is the wire form of a freshly signed valid document.
func docBody(d Doc) []byte {
	return padded(decor(d)/8, must(json.Marshal(signDoc(d, time.Now().Add(d.ttl()), stdSigning))))
}

// ---- reference model of policy decisions ------------------------------------

type verdict struct {
	Allowed bool
	Deny    bool            // rejected by a deny assertion (as opposed to no match)
	Roles   map[string]bool // roles that grant
}

// tri is a three-valued result for matches the specification leaves open.
type tri int

const (
	no tri = iota
	yes
	unknown
)

// globMatch is the reference matcher: naive backtracking over runes.
func globMatch(pat, s string) tri {
	p, v := []rune(strings.ToLower(pat)), []rune(strings.ToLower(s))
	r := globRunes(p, v, true)
	if strings.ContainsRune(string(v), '\n') && r != globRunes(p, v, false) {
		return unknown
	}
	if r {
		return yes
	}
	return no
}

func globRunes(p, v []rune, newlines bool) bool {
	// dp over suffixes, iterative to stay polynomial.
	next := make([]bool, len(v)+1)
	next[len(v)] = true
	for i := len(p) - 1; i >= 0; i-- {
		cur := make([]bool, len(v)+1)
		for j := len(v); j >= 0; j-- {
			wild := j < len(v) && (newlines || v[j] != '\n')
			switch p[i] {
			case '*':
				cur[j] = next[j] || (wild && cur[j+1])
			case '?':
				cur[j] = wild && next[j+1]
			default:
				cur[j] = j < len(v) && v[j] == p[i] && next[j+1]
			}
		}
		next = cur
	}
	return next[0]
}

// applies says whether the assertion concerns the request.
func (a Asn) applies(domain, role, act, res string) tri {
	if a.Role != domain+":role."+role {
		return no
	}
	i := strings.IndexByte(a.Resource, ':')
	if i < 0 || !strings.EqualFold(a.Resource[:i], domain) {
		return no
	}
	m, n := globMatch(a.Action, act), globMatch(a.Resource[i+1:], res)
	switch {
	case m == no || n == no:
		return no
	case m == yes && n == yes:
		return yes
	}
	return unknown
}

// decide is the reference decision; ok is false when it depends on a point the
// specification leaves open.
func decide(docs []Doc, domain string, roles []string, act, res string) (v verdict, ok bool) {
	v.Roles = map[string]bool{}
	ok = true
	for _, d := range docs {
		for _, p := range d.Pols {
			for _, a := range p {
				for _, r := range roles {
					switch a.applies(domain, r, act, res) {
					case unknown:
						ok = false
					case yes:
						if a.deny() {
							v.Deny = true
						} else {
							v.Roles[r] = true
						}
					}
				}
			}
		}
	}
	v.Allowed = !v.Deny && len(v.Roles) > 0
	if !v.Allowed {
		v.Roles = map[string]bool{}
	}
	return v, ok
}

// agree compares a CheckPolicyRoles result with the reference.
func agree(v verdict, roles []string, err error) error {
	if v.Allowed != (err == nil) {
		return failf("decision: want allowed=%v (deny=%v), got error %v", v.Allowed, v.Deny, err)
	}
	if err != nil {
		if len(roles) != 0 {
			return failf("roles %q returned with error %v", roles, err)
		}
		return nil
	}
	got := map[string]bool{}
	for _, r := range roles {
		got[r] = true
	}
	if !sameSet(got, v.Roles) {
		return failf("authorized roles: want %v, got %v", sortedKeys(v.Roles), roles)
	}
	return nil
}

// ---- fake network -----------------------------------------------------------

// Resp is one scripted response.
type Resp struct {
	Status  int
	Header  map[string]string
	Body    []byte
	Delay   time.Duration
	Err     error
	CutAt   int  // with BodyErr: number of body bytes delivered before the error
	BodyErr bool // reading the body fails after CutAt bytes
}

// Req is one request as the server saw it.
type Req struct {
	At     time.Time
	Method string
	URL    string
	INM    string
	HasINM bool
}

// Net is an in-memory http.RoundTripper.
type Net struct {
	mu      sync.Mutex
	routes  map[string]func(*http.Request) *Resp
	log     []Req
	bodies  []*trackedBody
	def     func(*http.Request) *Resp
	onStart func(*http.Request)
}

func newNet() *Net { return &Net{routes: map[string]func(*http.Request) *Resp{}} }

func (n *Net) handle(u string, f func(*http.Request) *Resp) {
	n.mu.Lock()
	n.routes[u] = f
	n.mu.Unlock()
}

func (n *Net) client() *http.Client { return &http.Client{Transport: n} }

func (n *Net) requests() []Req {
	n.mu.Lock()
	defer n.mu.Unlock()
	return append([]Req(nil), n.log...)
}

func (n *Net) requestsTo(sub string) []Req {
	var out []Req
	for _, r := range n.requests() {
		if strings.Contains(r.URL, sub) {
			out = append(out, r)
		}
	}
	return out
}

func (n *Net) unclosed(sub string) []string {
	n.mu.Lock()
	defer n.mu.Unlock()
	var out []string
	for _, b := range n.bodies {
		if b.closed == 0 && strings.Contains(b.url, sub) {
			out = append(out, fmt.Sprintf("%s (status %d)", b.url, b.status))
		}
	}
	return out
}

type trackedBody struct {
	n      *Net
	r      io.Reader
	url    string
	status int
	closed int
	read   int
}

func (b *trackedBody) Read(p []byte) (int, error) {
	b.n.mu.Lock()
	c := b.closed
	b.n.mu.Unlock()
	if c > 0 {
		return 0, fmt.Errorf("http: read on closed response body")
	}
	k, err := b.r.Read(p)
	b.read += k
	return k, err
}

func (b *trackedBody) Close() error {
	b.n.mu.Lock()
	b.closed++
	b.n.mu.Unlock()
	return nil
}

type netErr struct {
	msg  string
	temp bool
}

func (e *netErr) Error() string   { return e.msg }
func (e *netErr) Temporary() bool { return e.temp }
func (e *netErr) Timeout() bool   { return false }

type failReader struct{ r io.Reader }

func (f failReader) Read(p []byte) (int, error) {
	k, err := f.r.Read(p)
	if err == io.EOF {
		return k, io.ErrUnexpectedEOF
	}
	return k, err
}

func (n *Net) RoundTrip(req *http.Request) (*http.Response, error) {
	u := req.URL.String()
	n.mu.Lock()
	_, has := req.Header["If-None-Match"]
	n.log = append(n.log, Req{time.Now(), req.Method, u, req.Header.Get("If-None-Match"), has})
	h := n.routes[u]
	def := n.def
	st := n.onStart
	n.mu.Unlock()
	if st != nil {
		st(req)
	}
	var r *Resp
	switch {
	case h != nil:
		r = h(req)
	case def != nil:
		r = def(req)
	default:
		r = &Resp{Status: 404, Body: []byte(`{"code":404,"message":"not found"}`)}
	}
	if r.Delay > 0 {
		t := time.NewTimer(r.Delay)
		select {
		case <-t.C:
		case <-req.Context().Done():
			t.Stop()
			return nil, req.Context().Err()
		}
	} else if err := req.Context().Err(); err != nil {
		return nil, err
	}
	if r.Err != nil {
		return nil, r.Err
	}
	return n.response(req, r), nil
}

func (n *Net) response(req *http.Request, r *Resp) *http.Response {
	var rd io.Reader = bytes.NewReader(r.Body)
	if r.BodyErr {
		rd = failReader{bytes.NewReader(r.Body[:min(max(r.CutAt, 0), len(r.Body))])}
	}
	b := &trackedBody{n: n, r: rd, url: req.URL.String(), status: r.Status}
	n.mu.Lock()
	n.bodies = append(n.bodies, b)
	n.mu.Unlock()
	h := http.Header{}
	for k, v := range r.Header {
		h.Set(k, v)
	}
	return &http.Response{
		Status: fmt.Sprintf("%d %s", r.Status, http.StatusText(r.Status)), StatusCode: r.Status,
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: h, Body: b, ContentLength: -1, Request: req,
	}
}

// ---- credentials ------------------------------------------------------------

func roleToken(unsigned, keyName string) string {
	return unsigned + ";s=" + key(keyName).sign(unsigned)
}

// RT describes an ordinary role token.
type RT struct {
	Domain, Principal, KeyID string
	Roles                    []string
	Issued, Expiry           int64 // unix seconds
	Extra                    string
}

func (r RT) unsigned() string {
	return fmt.Sprintf("v=Z1;d=%s;r=%s;p=%s;h=host.test;a=9f2c%s;t=%d;e=%d;k=%s;i=10.0.0.1",
		r.Domain, strings.Join(r.Roles, ","), r.Principal, r.Extra, r.Issued, r.Expiry, r.KeyID)
}

func b64u(b []byte) string { return base64.RawURLEncoding.EncodeToString(b) }

// jwtSign makes a compact JWS over the given raw header and payload.
func jwtSign(header, payload []byte, alg, keyName string) string {
	in := b64u(header) + "." + b64u(payload)
	return in + "." + b64u(jwsSig(in, alg, keyName))
}

func jwsSig(in, alg, keyName string) []byte {
	hsh := map[string]crypto.Hash{"256": crypto.SHA256, "384": crypto.SHA384, "512": crypto.SHA512}
	if alg == "none" || alg == "None" || alg == "" {
		return nil
	}
	h := hsh[alg[2:]]
	digest := func() []byte { x := h.New(); x.Write([]byte(in)); return x.Sum(nil) }
	switch alg[:2] {
	case "HS":
		// MAC keyed with the public key, the classic confusion attack.
		nh := sha256.New
		if h == crypto.SHA512 {
			nh = sha512.New
		}
		m := hmac.New(nh, key(keyName).PubPEM)
		m.Write([]byte(in))
		return m.Sum(nil)
	case "RS":
		return must(rsa.SignPKCS1v15(rand.Reader, key(keyName).Priv.(*rsa.PrivateKey), h, digest()))
	case "PS":
		return must(rsa.SignPSS(rand.Reader, key(keyName).Priv.(*rsa.PrivateKey), h, digest(), &rsa.PSSOptions{SaltLength: rsa.PSSSaltLengthEqualsHash}))
	case "ES":
		k := key(keyName).Priv.(*ecdsa.PrivateKey)
		r, s, err := ecdsa.Sign(rand.Reader, k, digest())
		if err != nil {
			harnessf("%v", err)
		}
		sz := (k.Curve.Params().BitSize + 7) / 8
		out := make([]byte, 2*sz)
		r.FillBytes(out[:sz])
		s.FillBytes(out[sz:])
		return out
	}
	harnessf("alg %q", alg)
	return nil
}

// jwkOf is the public JWK of a key.
func jwkOf(kid, keyName string) map[string]any {
	m := map[string]any{"kid": kid, "use": "sig"}
	if kid == "" {
		delete(m, "kid")
	}
	switch k := key(keyName).Priv.(type) {
	case *rsa.PrivateKey:
		m["kty"], m["alg"] = "RSA", "RS256"
		m["n"], m["e"] = b64u(k.N.Bytes()), b64u(big.NewInt(int64(k.E)).Bytes())
	case *ecdsa.PrivateKey:
		m["kty"] = "EC"
		m["crv"], m["alg"] = "P-256", "ES256"
		if k.Curve == elliptic.P384() {
			m["crv"], m["alg"] = "P-384", "ES384"
		}
		sz := (k.Curve.Params().BitSize + 7) / 8
		x, y := make([]byte, sz), make([]byte, sz)
		k.X.FillBytes(x)
		k.Y.FillBytes(y)
		m["x"], m["y"] = b64u(x), b64u(y)
	}
	return m
}

func jwksBody(m map[string]string) []byte {
	ks := []any{}
	for _, kid := range sortedKeys(m) {
		ks = append(ks, jwkOf(kid, m[kid]))
	}
	return padded(decor(m)/8, must(json.Marshal(map[string]any{"keys": ks})))
}

// Cert describes a client certificate.
type Cert struct {
	CN        string   `json:"cn"`
	IssuerCN  string   `json:"icn"`
	URIs      []string `json:"uris,omitempty"`
	NotBefore int64    `json:"nb"`
	Serial    int64    `json:"sn"`
}

var certCache sync.Map

// build makes a real certificate: created, signed and parsed by crypto/x509.
func (c Cert) build() *x509.Certificate {
	id := string(must(json.Marshal(c)))
	if v, ok := certCache.Load(id); ok {
		return v.(*x509.Certificate)
	}
	tmpl := &x509.Certificate{
		SerialNumber: big.NewInt(c.Serial + 1),
		Subject:      pkix.Name{CommonName: c.CN},
		NotBefore:    time.Unix(c.NotBefore, 0),
		NotAfter:     time.Unix(c.NotBefore, 0).Add(30 * 24 * time.Hour),
	}
	for _, u := range c.URIs {
		tmpl.URIs = append(tmpl.URIs, must(url.Parse(u)))
	}
	parent := &x509.Certificate{Subject: pkix.Name{CommonName: c.IssuerCN}, SerialNumber: big.NewInt(1)}
	raw := must(x509.CreateCertificate(rand.Reader, tmpl, parent, key("ec7").Priv.Public(), key("ec7").Priv))
	crt := must(x509.ParseCertificate(raw))
	certCache.Store(id, crt)
	return crt
}

func thumbprint(c *x509.Certificate) string {
	sum := sha256.Sum256(c.Raw)
	return b64u(sum[:])
}

// ---- misc -------------------------------------------------------------------

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sortStrings(out)
	return out
}

func sameSet(a, b map[string]bool) bool {
	if len(a) != len(b) {
		return false
	}
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return true
}

func bg() (context.Context, context.CancelFunc) { return context.WithCancel(context.Background()) }
