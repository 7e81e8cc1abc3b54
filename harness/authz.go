package harness

import (
	"context"
	"crypto/tls"
	"crypto/x509"
	"fmt"
	"net/http"
	"reflect"
	"time"

	authorizerd "github.com/yahoojapan/athenz-authorizer/v5"
)

// T0 is where the virtual clock of every case starts.
const T0 = 946684800

// World is a complete authorizer over the fake network.
type World struct {
	n    *Net
	ring KeyRing
	docs []Doc
	jwks map[string]map[string]string // URL -> kid -> key name
	az   authorizerd.Authorizerd
	ctx  context.Context
	stop func()
}

// newWorld serves the sources and builds an authorizer; init is separate.
func newWorld(ring KeyRing, docs []Doc, jwks map[string]map[string]string, opts ...authorizerd.Option) *World {
	w := &World{n: newNet(), ring: ring, docs: docs, jwks: jwks}
	w.ctx, w.stop = context.WithCancel(context.Background())
	w.serve()
	w.az = w.build(opts...)
	return w
}

func (w *World) serve() {
	for _, env := range []string{"zms", "zts"} {
		w.n.handle(serviceURL("sys.auth", env), func(*http.Request) *Resp { return &Resp{Status: 200, Body: w.ring.body(env)} })
	}
	for _, d := range w.docs {
		w.setDoc(d)
	}
	for u := range w.jwks {
		w.n.handle(u, func(*http.Request) *Resp { return &Resp{Status: 200, Body: jwksBody(w.jwks[u])} })
	}
}

func (w *World) setDoc(d Doc) {
	w.n.handle(policyURL(d.Domain), func(*http.Request) *Resp { return &Resp{Status: 200, Body: docBody(d)} })
}

// build makes another authorizer over the same servers.
func (w *World) build(opts ...authorizerd.Option) authorizerd.Authorizerd {
	var urls []string
	for _, u := range sortedKeys(w.jwks) {
		if u != athenzJwksURL() {
			urls = append(urls, u)
		}
	}
	base := []authorizerd.Option{
		authorizerd.WithAthenzURL(ztsURL),
		authorizerd.WithHTTPClient(w.n.client()),
		authorizerd.WithAthenzDomains(docDomains(w.docs)...),
		authorizerd.WithPolicyRetryDelay("1s"),
		authorizerd.WithJwkURLs(urls),
	}
	return lib(authorizerd.New(append(base, opts...)...))
}

func (w *World) init() error { return w.az.Init(w.ctx) }

// mustInit initialises over healthy sources.
func (w *World) mustInit() {
	if err := w.init(); err != nil {
		panic(&Violation{"initialisation over healthy sources failed: " + err.Error()})
	}
}

// stdJwks publishes one RSA and one EC key at the Athenz URL.
func stdJwks() map[string]map[string]string {
	return map[string]map[string]string{athenzJwksURL(): {"j0": "rsa1", "j1": "ec1"}}
}

// half moves the clock between two seconds, so that no instant coincides with it.
func half() { time.Sleep(500 * time.Millisecond) }

// prinView is everything a principal says.
type prinView struct {
	Name, Domain string
	Roles, Auth  []string
	Issue, Exp   int64
	OAuth        bool
	Client       string
}

func viewOf(p authorizerd.Principal) prinView {
	if p == nil || reflect.ValueOf(p).IsNil() {
		return prinView{Name: "(no principal)"}
	}
	v := prinView{Name: p.Name(), Domain: p.Domain(), Roles: append([]string(nil), p.Roles()...), Auth: append([]string(nil), p.AuthorizedRoles()...), Issue: p.IssueTime(), Exp: p.ExpiryTime()}
	if o, ok := p.(authorizerd.OAuthAccessToken); ok {
		v.OAuth, v.Client = true, o.ClientID()
	}
	sortStrings(v.Auth)
	return v
}

func (v prinView) String() string {
	return fmt.Sprintf("{name %q domain %q roles %q authorized %q issued %d expires %d oauth %v client %q}", v.Name, v.Domain, v.Roles, v.Auth, v.Issue, v.Exp, v.OAuth, v.Client)
}

func uniqSorted(s []string) []string {
	m := map[string]bool{}
	for _, x := range s {
		m[x] = true
	}
	return sortedKeys(m)
}

// httpReq builds an incoming request as net/http would.
func httpReq(ctx context.Context, target string, hdr http.Header, certs []*x509.Certificate, tlsOn bool) *http.Request {
	r := must(http.NewRequestWithContext(ctx, "GET", "https://svc.test"+target, nil))
	if hdr != nil {
		r.Header = hdr
	}
	if tlsOn {
		r.TLS = &tls.ConnectionState{PeerCertificates: certs}
	}
	return r
}

// certChain builds certificates, leaf first.
func certChain(cs ...Cert) (out []*x509.Certificate) {
	for _, c := range cs {
		out = append(out, c.build())
	}
	return out
}
