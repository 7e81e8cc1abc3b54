package harness

import (
	"context"
	"crypto/x509"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"reflect"
	"strings"
	"time"

	"pgregory.net/rapid"

	authorizerd "github.com/yahoojapan/athenz-authorizer/v5"
)

// C33: authorizing a request leaves it as it was, and takes credentials only from
// their own places.

type c33Req struct {
	Method string   `json:"m"`
	AT     *anyCred `json:"at,omitempty"` // in the Authorization header
	RT     *anyCred `json:"rt,omitempty"` // in the role header
	QAT    *anyCred `json:"qat,omitempty"`
	QRT    *anyCred `json:"qrt,omitempty"`
	Query  string   `json:"q,omitempty"`
	Body   string   `json:"b"` // none, form, json, multipart
	BAT    *anyCred `json:"bat,omitempty"`
	Cookie bool     `json:"ck,omitempty"`
	Second bool     `json:"2nd,omitempty"` // further values of the credential headers
	Certs  []int    `json:"certs,omitempty"`
	TLS    bool     `json:"tls,omitempty"`
	Act    string   `json:"act"`
	Res    string   `json:"res"`
	Verify bool     `json:"v,omitempty"`
	Again  bool     `json:"again,omitempty"`
}

type c33Plan struct {
	Docs   []Doc    `json:"docs"`
	Access bool     `json:"access"`
	Role   bool     `json:"role"`
	Cert   bool     `json:"cert"`
	Bind   bool     `json:"bind"`
	NoPol  bool     `json:"nopol,omitempty"`
	Trans  bool     `json:"trans,omitempty"`
	Header string   `json:"header"`
	Reqs   []c33Req `json:"reqs"`
}

func genC33(t *rapid.T) c33Plan {
	p := c33Plan{Docs: genSmallPolicies(t, "dom", "dom2"), Access: !oneIn(t, "noaccess", 5), Role: !oneIn(t, "norole", 4), Cert: oneIn(t, "rolecert", 3), NoPol: oneIn(t, "nopol", 8), Bind: oneIn(t, "bind", 3),
		Trans: oneIn(t, "trans", 3), Header: pick(t, "header", "Athenz-Role-Auth", "x-role-auth", "X-Role")}
	if !p.Access && !p.Role {
		p.Access = true
	}
	maybe := func(label, kind string, n int) *anyCred {
		if !oneIn(t, label, n) {
			return nil
		}
		return genAnyCred(t, kind, 4)
	}
	for i, n := 0, intIn(t, "nreq", 1, 4); i < n; i++ {
		q := c33Req{Method: pick(t, "m", "GET", "POST", "PUT", "PATCH", "DELETE", "post"), Act: pick(t, "act", "read", "write"), Res: pick(t, "res", "x", "y", "/p/1")}
		q.AT, q.RT = maybe("at", "access", 2), maybe("rt", "role", 2)
		q.QAT, q.QRT, q.BAT = maybe("qat", "access", 3), maybe("qrt", "role", 4), maybe("bat", "access", 3)
		q.Query = pick(t, "query", "", "", "z=1", "a=b&a=c", "%zz", "access_token=", ";")
		q.Body = pick(t, "body", "none", "form", "form", "json", "text")
		q.Cookie, q.Second = oneIn(t, "cookie", 4), oneIn(t, "second", 6)
		q.TLS = p.Bind && !oneIn(t, "notls", 6) || oneIn(t, "tls", 3)
		if q.TLS {
			q.Certs = pick(t, "certs", []int{0}, []int{0}, []int{0, 1}, []int{1, 0}, nil)
		}
		q.Verify, q.Again = oneIn(t, "v", 3), oneIn(t, "again", 2)
		p.Reqs = append(p.Reqs, q)
	}
	return p
}

// watchedBody records what is done to a request body.
type watchedBody struct {
	r             io.Reader
	reads, closes int
}

func (b *watchedBody) Read(p []byte) (int, error) { b.reads++; return b.r.Read(p) }
func (b *watchedBody) Close() error               { b.closes++; return nil }

type c33Key struct{}

// reqView is everything about a request that others may rely on.
func reqView(r *http.Request) map[string]any {
	h := http.Header{}
	for k, v := range r.Header {
		h[k] = append([]string(nil), v...)
	}
	v := map[string]any{"method": r.Method, "url": r.URL.String(), "header": h, "host": r.Host, "length": r.ContentLength, "requestURI": r.RequestURI, "proto": r.Proto,
		"form": fmt.Sprint(r.Form == nil, r.PostForm == nil, r.MultipartForm == nil), "remote": r.RemoteAddr, "close": r.Close, "transfer": fmt.Sprint(r.TransferEncoding), "trailer": fmt.Sprint(r.Trailer),
		"ctx": r.Context().Value(c33Key{})}
	if r.TLS != nil {
		var l []string
		for _, c := range r.TLS.PeerCertificates {
			l = append(l, certView(c))
		}
		v["tls"] = l
	}
	return v
}

func certView(c *x509.Certificate) string {
	if c == nil {
		return "nil"
	}
	var u []string
	for _, x := range c.URIs {
		u = append(u, x.String())
	}
	return fmt.Sprintf("%p %s %s %s %v %v %s", c, c.Subject.CommonName, c.Issuer.CommonName, c.SerialNumber, c.NotBefore, c.NotAfter, strings.Join(u, " ")) + thumbprint(c)
}

func runC33(c *Case, p c33Plan) error {
	opts := []authorizerd.Option{
		authorizerd.WithAccessTokenParam(authorizerd.NewAccessTokenParam(p.Access, p.Bind, "0s", "0s", false, nil)),
		authorizerd.WithRoleAuthHeader(p.Header)}
	if !p.Role {
		opts = append(opts, authorizerd.WithDisableRoleToken())
	}
	if !p.Cert {
		opts = append(opts, authorizerd.WithDisableRoleCert())
	}
	if p.NoPol {
		opts = append(opts, authorizerd.WithDisablePolicyd())
	}
	if p.Trans {
		opts = append(opts, authorizerd.WithTranslator(lib(authorizerd.NewMappingRules(map[string][]authorizerd.Rule{"dom": {{Method: "zzz", Path: "/never", Action: "a", Resource: "r"}}}))))
	}
	w := newWorld(stdRing(), p.Docs, stdJwks(), opts...)
	defer w.stop()
	w.mustInit()
	half()
	for i, q := range p.Reqs {
		tok := func(a *anyCred) string {
			if a == nil {
				return ""
			}
			var bind *Cert
			if p.Bind && a.Kind == "access" {
				bind = &c19Certs[0]
			}
			return a.build(bind)
		}
		h := http.Header{"X-Other": {"1", "2"}, "x-raw-name": {"kept"}}
		if q.AT != nil {
			h["Authorization"] = []string{"Bearer " + tok(q.AT)}
		}
		if q.RT != nil {
			h.Set(p.Header, tok(q.RT))
		}
		if q.Second {
			h.Add("Authorization", "Basic eDp5")
			h.Add(p.Header, "second")
		}
		if q.Cookie {
			good := tok(&anyCred{Kind: "access", Domain: "dom", Name: "user.c", Roles: []string{"r0", "r1", "r2"}})
			role := tok(&anyCred{Kind: "role", Domain: "dom", Name: "user.c", Roles: []string{"r0", "r1", "r2"}})
			h.Add("Cookie", "access_token="+good+"; Authorization="+good+"; "+p.Header+"="+url.QueryEscape(role))
		}
		query := []string{}
		if q.Query != "" {
			query = append(query, q.Query)
		}
		if q.QAT != nil {
			query = append(query, "access_token="+url.QueryEscape(tok(q.QAT)))
		}
		if q.QRT != nil {
			query = append(query, url.QueryEscape(p.Header)+"="+url.QueryEscape(tok(q.QRT)))
		}
		body := ""
		switch q.Body {
		case "form":
			body = "a=b&access_token=" + url.QueryEscape(tok(q.BAT))
			h.Set("Content-Type", "application/x-www-form-urlencoded")
		case "json":
			body = jsonText(map[string]string{"access_token": tok(q.BAT)})
			h.Set("Content-Type", "application/json")
		case "text":
			body = "access_token=" + tok(q.BAT)
		}
		target := "/p"
		if len(query) > 0 {
			target += "?" + strings.Join(query, "&")
		}
		var certs []*x509.Certificate
		for _, n := range q.Certs {
			certs = append(certs, c19Certs[n].build())
		}
		r := httpReq(context.WithValue(w.ctx, c33Key{}, "mine"), target, h, certs, q.TLS)
		r.Method = q.Method
		var wb *watchedBody
		if q.Body != "none" {
			wb = &watchedBody{r: strings.NewReader(body)}
			r.Body, r.ContentLength = wb, int64(len(body))
		}
		before := reqView(r)
		// the verdict depends on the two headers only
		wants := []prinView{}
		translated := !(p.Trans && q.Query != "") // what odd queries translate to is not the subject
		bound := !p.Bind || len(q.Certs) > 0 && q.Certs[0] == 0
		if p.Access && q.AT != nil && bound {
			if v, ok := q.AT.want(p.Docs, p.NoPol, q.Act, q.Res); ok {
				wants = append(wants, v)
			}
		}
		if p.Role && q.RT != nil {
			if v, ok := q.RT.want(p.Docs, p.NoPol, q.Act, q.Res); ok {
				wants = append(wants, v)
			}
		}
		rounds := 1
		if q.Again {
			rounds = 2
		}
		for k := 0; k < rounds; k++ {
			var pr authorizerd.Principal
			var err error
			if q.Verify {
				err = w.az.Verify(r, q.Act, q.Res)
			} else {
				pr, err = w.az.Authorize(r, q.Act, q.Res)
			}
			where := func(f string, a ...any) error {
				return failf("request %d %s, call %d: %v", i, jsonText(q), k, failf(f, a...))
			}
			if after := reqView(r); !reflect.DeepEqual(before, after) {
				for n, v := range before {
					if !reflect.DeepEqual(v, after[n]) {
						return where("the request's %s was %v and is %v afterwards", n, v, after[n])
					}
				}
				return where("the request was changed: %v, %v", before, after)
			}
			if wb != nil && (wb.reads > 0 || wb.closes > 0 || r.Body != io.ReadCloser(wb)) {
				return where("the request's body was read %d times and closed %d times", wb.reads, wb.closes)
			}
			if err == nil && len(wants) == 0 {
				return where("authorized although no credential header holds a valid credential (%v)", pr)
			}
			if err != nil && len(wants) > 0 && translated {
				return where("refused (%v) although a credential header holds a valid credential", err)
			}
			if err == nil {
				c.Label("granted")
			} else {
				c.Label("refused")
			}
			if (q.QAT != nil && q.QAT.Fault == "" || q.BAT != nil && q.BAT.Fault == "") && len(wants) == 0 {
				c.Label("valid credential only elsewhere")
				c.NonTrivial()
			}
			if wb != nil && len(wants) > 0 {
				c.Label("body behind an authorized request")
				c.NonTrivial()
			}
		}
		time.Sleep(time.Second)
	}
	return nil
}

func init() {
	register(Sub{Prop: "C33", Name: "request", Quick: 20000, Thorough: 500000,
		Rule: "requests of all methods with bodies, forms, cookies, queries and repeated headers, some of which hold further credentials, before and after each call; non-trivial: an authorized request has a body, or a valid credential is only in a place of no account"},
		genC33, runC33)
}
