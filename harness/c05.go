package harness

import (
	"context"
	"errors"
	"fmt"
	"net/http"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"

	"github.com/yahoojapan/athenz-authorizer/v5/policy"
)

// Histories of one policy daemon against a scripted policy server.
// C05 atomic refresh, C06 expiry, C07 outages, C08 conditional fetches.

// Rev is one published revision of a domain's document.
type Rev struct {
	Pols []Pol  `json:"pols"`
	TTL  int    `json:"ttl"` // seconds; the document expires half a second later
	ETag string `json:"etag,omitempty"`

	SameExp bool `json:"same_exp,omitempty"` // expires with the revision before it
}

// Out is the server's answer to one request.
type Out struct {
	Kind  string `json:"k"`
	Delay int    `json:"dl,omitempty"` // seconds
}

// POp is one step of a history.
type POp struct {
	Op     string           `json:"op"` // pub, adv, upd
	Dom    int              `json:"dom,omitempty"`
	Rev    *Rev             `json:"rev,omitempty"`
	Sec    int              `json:"sec,omitempty"`
	Script map[string][]Out `json:"script,omitempty"` // domain index -> answers, then honest ones
	Stay   map[string]Out   `json:"stay,omitempty"`   // answers after the script is exhausted
	Cancel *int             `json:"cancel,omitempty"` // seconds after the start of the update (0: before it)
}

type histPlan struct {
	NDom     int   `json:"ndom"`
	Margin   int   `json:"margin"`
	Delay    int   `json:"delay"`
	Attempts int   `json:"att"`
	Purge    int   `json:"purge"` // seconds, 0: never within the history
	Hook     bool  `json:"hook"`  // the context of the refreshes stays alive, expired policies are fetched again
	Init     []Rev `json:"init"`
	Ops      []POp `json:"ops"`
}

type published struct {
	rev    Rev
	doc    Doc
	expiry time.Time
	body   []byte
}

type polServer struct {
	mu     sync.Mutex
	doms   []string
	cur    map[string]*published
	acc    map[string]*published   // last document validly obtained
	all    map[string][]*published // every document validly obtained
	prev   map[string][]*published // every document published before
	script map[string][]Out
	stay   map[string]Out
	noTag  bool // never send an ETag, never answer 304
	margin time.Duration

	reqs   map[string][]servedReq
	inmErr string
}

type servedReq struct {
	at  time.Time
	ok  bool
	end time.Time
}

func newPolServer(doms []string) *polServer {
	return &polServer{doms: doms, cur: map[string]*published{}, acc: map[string]*published{}, all: map[string][]*published{}, prev: map[string][]*published{},
		script: map[string][]Out{}, stay: map[string]Out{}, reqs: map[string][]servedReq{}}
}

func (s *polServer) publish(dom string, r Rev) {
	d := Doc{Domain: dom, Pols: r.Pols}
	exp := time.Now().Add(time.Duration(r.TTL)*time.Second + 500*time.Millisecond)
	s.mu.Lock()
	if c := s.cur[dom]; c != nil && r.SameExp {
		exp = c.expiry
	}
	s.mu.Unlock()
	p := &published{rev: r, doc: d, expiry: exp, body: padded(decor(r)/8, must(jsonBytes(signDoc(d, exp, stdSigning))))}
	s.mu.Lock()
	if c := s.cur[dom]; c != nil {
		s.prev[dom] = append(s.prev[dom], c)
	}
	if p.rev.ETag != "" {
		// Unique within the domain, as of an honest server, but not across domains.
		bare, quoted := strings.CutSuffix(p.rev.ETag, `"`)
		p.rev.ETag = fmt.Sprintf("%s-%d", bare, len(s.prev[dom]))
		if quoted {
			p.rev.ETag += `"`
		}
	}
	s.cur[dom] = p
	s.mu.Unlock()
}

func (s *polServer) install(n *Net) {
	for _, d := range s.doms {
		d := d
		n.handle(policyURL(d), func(r *http.Request) *Resp { return s.serve(d, r) })
	}
}

// serve answers one request and records what a correct client makes of the answer.
func (s *polServer) serve(dom string, req *http.Request) *Resp {
	s.mu.Lock()
	start := time.Now()
	inm := req.Header.Get("If-None-Match")
	_, has := req.Header["If-None-Match"]
	want := ""
	if a := s.acc[dom]; a != nil && !s.noTag && a.rev.ETag != "" && start.Before(a.expiry.Add(-s.margin)) {
		want = a.rev.ETag
	}
	if (want != "") != has || inm != want {
		if s.inmErr == "" {
			s.inmErr = fmt.Sprintf("request for %s at %v carries If-None-Match %q (present %v), want %q", dom, start.UTC(), inm, has, want)
		}
	}
	o := Out{Kind: "ok"}
	if q := s.script[dom]; len(q) > 0 {
		o, s.script[dom] = q[0], q[1:]
	} else if st, ok := s.stay[dom]; ok {
		o = st
	}
	s.mu.Unlock()
	sleep := time.Duration(o.Delay) * time.Second
	if o.Kind == "hang" {
		sleep = 24 * time.Hour
	}
	cancelled := false
	if sleep > 0 {
		t := time.NewTimer(sleep)
		select {
		case <-t.C:
		case <-req.Context().Done():
			t.Stop()
			cancelled = true
		}
	} else if req.Context().Err() != nil {
		cancelled = true
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	rec := servedReq{at: start}
	defer func() { rec.end = time.Now(); s.reqs[dom] = append(s.reqs[dom], rec) }()
	if cancelled {
		return &Resp{Err: req.Context().Err()}
	}
	cur := s.cur[dom]
	full := func(p *published) *Resp {
		h := map[string]string{}
		if !s.noTag && p.rev.ETag != "" {
			h["ETag"] = p.rev.ETag
		}
		if time.Now().Before(p.expiry) {
			rec.ok = true
			s.acc[dom] = p
			s.all[dom] = append(s.all[dom], p)
		}
		return &Resp{Status: 200, Header: h, Body: p.body}
	}
	switch o.Kind {
	case "ok":
		if !s.noTag && has && cur.rev.ETag != "" && inm == cur.rev.ETag {
			rec.ok = true
			// whatever a 304 answer carries, the document in force and its tag stay
			switch len(s.prev[dom]) % 3 {
			case 1:
				return &Resp{Status: 304}
			case 2:
				return &Resp{Status: 304, Header: map[string]string{"ETag": `"unrelated"`}}
			}
			return &Resp{Status: 304, Header: map[string]string{"ETag": cur.rev.ETag}}
		}
		return full(cur)
	case "replay":
		if p := s.prev[dom]; len(p) > 0 {
			return full(p[len(p)-1])
		}
		return full(cur)
	case "replay0":
		if p := s.prev[dom]; len(p) > 0 {
			return full(p[0])
		}
		return full(cur)
	case "304":
		// Not asked for, or not true: only used where the oracle tolerates any
		// continuation with accepted documents.
		rec.ok = true
		return &Resp{Status: 304}
	case "neterr":
		return &Resp{Err: &netErr{"connection refused", true}}
	case "garbage":
		return &Resp{Status: 200, Header: map[string]string{"ETag": `"garbage"`}, Body: []byte(`{"signedPolicyData":`)}
	case "cut":
		return &Resp{Status: 200, Header: map[string]string{"ETag": `"cut"`}, Body: cur.body, BodyErr: true, CutAt: len(cur.body) / 2}
	case "badsig":
		d := signDoc(cur.doc, cur.expiry, signing{"ec0", "m0", "ec2", "t0"})
		return &Resp{Status: 200, Header: map[string]string{"ETag": `"badsig"`}, Body: must(jsonBytes(d))}
	case "expired":
		d := signDoc(cur.doc, time.Now().Add(-1500*time.Millisecond), stdSigning)
		return &Resp{Status: 200, Header: map[string]string{"ETag": `"expired"`}, Body: must(jsonBytes(d))}
	case "404":
		return &Resp{Status: 404, Body: []byte(`{"code":404}`)}
	case "500":
		return &Resp{Status: 500, Header: map[string]string{"ETag": `"oops"`}, Body: cur.body}
	case "204":
		return &Resp{Status: 204}
	}
	harnessf("outcome %q", o.Kind)
	return nil
}

func (p *published) malformed() bool {
	for _, pol := range p.doc.Pols {
		for _, a := range pol {
			if !strings.Contains(a.Resource, ":") {
				return true
			}
		}
	}
	return false
}

var (
	histDoms  = []string{"dom0", "dom1", "dom2"}
	histRoles = []string{"ra", "rb", "rc"}
	histActs  = []string{"read", "write"}
	histRess  = []string{"/x", "/y"}
)

func genRev(t *rapid.T, dom string, malformed, foreign int) Rev {
	r := Rev{TTL: pick(t, "ttl", 3, 8, 20, 60, 600, 100000), SameExp: oneIn(t, "sameexp", 4)}
	np := intIn(t, "np", 0, 3)
	for i := 0; i < np; i++ {
		var p Pol
		na := intIn(t, "na", 1, 3)
		for j := 0; j < na; j++ {
			a := Asn{Role: dom + ":role." + pick(t, "role", histRoles...), Action: pick(t, "act", "read", "write", "*"),
				Resource: dom + ":" + pick(t, "res", "/x", "/y", "*"), Effect: genEffect(t, "eff")}
			if malformed > 0 && oneIn(t, "malformed", malformed) {
				a.Resource = "nocolon"
			}
			if foreign > 0 && oneIn(t, "foreign", foreign) {
				// A role of a domain the daemon does not load.
				a.Role = "ext:role.ra"
			}
			p = append(p, a)
		}
		r.Pols = append(r.Pols, p)
	}
	if !oneIn(t, "notag", 3) {
		r.ETag = pick(t, "etag", `"a"`, `"b"`, `"c"`, `"d"`, `"A"`, `W/"a"`, `w/"a"`, "a", `"a, b"`, `'a'`, `""`, `"a`, `"a"-gzip"`, "W/a")
	}
	return r
}

type histCfg struct {
	malformed int      // 1 in n assertions
	foreign   int      // 1 in n assertions
	fail      []string // failure kinds
	failRate  int      // 1 in n answers fail
	cancel    bool
	purge     bool
	lateFirst bool // the first refresh may fail too
}

func genOuts(t *rapid.T, cfg histCfg) []Out {
	var outs []Out
	n := intIn(t, "nout", 0, 5)
	for i := 0; i < n; i++ {
		o := Out{Kind: "ok"}
		if oneIn(t, "fails", cfg.failRate) {
			o.Kind = pick(t, "kind", cfg.fail...)
		}
		if oneIn(t, "slow", 5) {
			o.Delay = intIn(t, "delay", 1, 4)
		}
		outs = append(outs, o)
	}
	return outs
}

func genHist(cfg histCfg) func(t *rapid.T) histPlan {
	return func(t *rapid.T) histPlan {
		p := histPlan{NDom: intIn(t, "ndom", 1, 3), Margin: pick(t, "margin", 0, 5, 30, 10800), Delay: intIn(t, "rdelay", 0, 4), Attempts: intIn(t, "att", 0, 3)}
		if cfg.purge {
			p.Hook = true
			if !oneIn(t, "nopurge", 3) {
				p.Purge = intIn(t, "purge", 2, 9)
			}
		}
		for i := 0; i < p.NDom; i++ {
			p.Init = append(p.Init, genRev(t, histDoms[i], cfg.malformed*3, cfg.foreign))
		}
		script := func(op *POp) {
			op.Script = map[string][]Out{}
			op.Stay = map[string]Out{}
			for i := 0; i < p.NDom; i++ {
				if o := genOuts(t, cfg); len(o) > 0 && !oneIn(t, "honest", 3) {
					op.Script[itoa(i)] = o
				}
				if oneIn(t, "stay", 5) {
					op.Stay[itoa(i)] = Out{Kind: pick(t, "staykind", cfg.fail...)}
				}
			}
		}
		first := POp{Op: "upd"}
		if cfg.lateFirst && oneIn(t, "latefirst", 3) {
			script(&first)
		}
		p.Ops = append(p.Ops, first)
		n := intIn(t, "nops", 2, 12)
		for i := 0; i < n; i++ {
			if cfg.cancel && p.NDom > 1 && oneIn(t, "abort", 12) {
				// a refresh that obtains a new document but is cancelled while
				// it waits for another domain, then one that finds nothing new
				d := intIn(t, "abd", 0, p.NDom-1)
				r := genRev(t, histDoms[d], 0, 0)
				r.TTL = pick(t, "abttl", 600, 100000)
				if r.ETag == "" {
					r.ETag = `"ab"`
				}
				at := intIn(t, "abat", 0, 3)
				p.Ops = append(p.Ops, POp{Op: "pub", Dom: d, Rev: &r},
					POp{Op: "upd", Cancel: &at, Script: map[string][]Out{itoa((d + 1) % p.NDom): {{Kind: "ok", Delay: 4}}}}, POp{Op: "upd"})
				continue
			}
			switch pick(t, "op", "pub", "pub", "adv", "upd", "upd", "upd") {
			case "pub":
				d := intIn(t, "d", 0, p.NDom-1)
				r := genRev(t, histDoms[d], cfg.malformed, cfg.foreign)
				p.Ops = append(p.Ops, POp{Op: "pub", Dom: d, Rev: &r})
			case "adv":
				p.Ops = append(p.Ops, POp{Op: "adv", Sec: pick(t, "sec", 1, 2, 5, 9, 25, 61)})
			case "upd":
				op := POp{Op: "upd"}
				script(&op)
				if cfg.cancel && oneIn(t, "cancel", 5) {
					c := intIn(t, "cancelat", 0, 4)
					op.Cancel = &c
				}
				p.Ops = append(p.Ops, op)
			}
		}
		return p
	}
}

// what a run asserts
type histAssert struct {
	exact    bool // decisions equal the model's after every step
	errors   bool // Update's result equals the model's
	attempts bool
	inm      bool
	oneOf    bool // decisions are those of one accepted unexpired document, or of none
	expired  bool // only unexpired accepted documents ever grant
}

func histDuration(p histPlan) string {
	if p.Purge == 0 {
		return "87600h"
	}
	return fmt.Sprintf("%ds", p.Purge)
}

type histRun struct {
	srv  *polServer
	d    policy.Daemon
	snap map[string]*published
	doms []string
	net  *Net
}

func startHist(p histPlan, noTag bool) *histRun {
	h := &histRun{doms: histDoms[:p.NDom], snap: map[string]*published{}, net: newNet()}
	h.srv = newPolServer(h.doms)
	h.srv.noTag = noTag
	h.srv.margin = time.Duration(p.Margin) * time.Second
	h.srv.install(h.net)
	cl := h.net.client()
	cl.Timeout = 10 * time.Second
	h.d = policyDaemon(h.net, policy.WithHTTPClient(cl), policy.WithAthenzDomains(h.doms...),
		policy.WithExpiryMargin(fmt.Sprintf("%ds", p.Margin)), policy.WithRetryDelay(fmt.Sprintf("%ds", p.Delay)),
		policy.WithRetryAttempts(p.Attempts), policy.WithPurgePeriod(histDuration(p)))
	return h
}

func (p histPlan) maxAttempts() int {
	if p.Attempts == 0 {
		return 3 // 0 leaves the default of two retries
	}
	return 1 + p.Attempts
}

// step executes one operation; upd returns Update's error.
func (h *histRun) step(ctx context.Context, p histPlan, op POp) (err error) {
	switch op.Op {
	case "pub":
		h.srv.publish(h.doms[op.Dom], *op.Rev)
	case "adv":
		time.Sleep(time.Duration(op.Sec) * time.Second)
	case "upd":
		h.srv.mu.Lock()
		h.srv.script, h.srv.stay = map[string][]Out{}, map[string]Out{}
		for k, v := range op.Script {
			h.srv.script[h.doms[int(k[0]-'0')]] = append([]Out(nil), v...)
		}
		for k, v := range op.Stay {
			h.srv.stay[h.doms[int(k[0]-'0')]] = v
		}
		h.srv.reqs = map[string][]servedReq{}
		h.srv.mu.Unlock()
		uctx, cancel := ctx, func() {}
		if !p.Hook {
			// Without a live context nothing fetches between refreshes, as after Init.
			uctx, cancel = context.WithCancel(ctx)
			defer cancel()
		}
		if op.Cancel != nil {
			uctx, cancel = context.WithCancel(uctx)
			if *op.Cancel == 0 {
				cancel()
			} else {
				tm := time.AfterFunc(time.Duration(*op.Cancel)*time.Second+250*time.Millisecond, cancel)
				defer tm.Stop()
			}
		}
		err = h.d.Update(uctx)
		// Cancellations leave whole seconds, expiries must not be met exactly.
		if off := time.Since(time.Unix(T0, 0)) % time.Second; off != 0 {
			time.Sleep(time.Second - off)
		}
	}
	return err
}

// live is the model's snapshot at this moment.
func (h *histRun) live() []Doc {
	var docs []Doc
	for _, d := range h.doms {
		if p := h.snap[d]; p != nil && time.Now().Before(p.expiry) {
			docs = append(docs, p.doc)
		}
	}
	return docs
}

func histChecks(doms []string) []Check {
	var cs []Check
	for _, d := range doms {
		for _, a := range histActs {
			for _, r := range histRess {
				for _, ro := range histRoles {
					cs = append(cs, Check{d, []string{ro}, a, r})
				}
				cs = append(cs, Check{d, histRoles, a, r})
			}
		}
	}
	return cs
}

func runHist(as histAssert) func(c *Case, p histPlan) error {
	return func(c *Case, p histPlan) error {
		h := startHist(p, false)
		ctx, cancel := bg()
		defer cancel()
		for i, r := range p.Init {
			h.srv.publish(h.doms[i], r)
		}
		checks := histChecks(h.doms)
		updates := 0
		for i, op := range p.Ops {
			err := h.step(ctx, p, op)
			where := func(format string, a ...any) error {
				return failf("step %d (%s): %s", i, op.Op, fmt.Sprintf(format, a...))
			}
			h.srv.mu.Lock()
			inm := h.srv.inmErr
			h.srv.mu.Unlock()
			if as.inm && inm != "" {
				return where("%s", inm)
			}
			if op.Op == "upd" {
				updates++
				if e := h.judgeUpdate(c, p, op, err, as); e != nil {
					return where("%v", e)
				}
			}
			if e := h.judgeDecisions(c, ctx, checks, as, updates); e != nil {
				return where("%v", e)
			}
		}
		return nil
	}
}

func (h *histRun) judgeUpdate(c *Case, p histPlan, op POp, err error, as histAssert) error {
	h.srv.mu.Lock()
	defer h.srv.mu.Unlock()
	failed, missing, bad := 0, "", ""
	for _, d := range h.doms {
		rs := h.srv.reqs[d]
		if as.attempts && op.Cancel == nil {
			if len(rs) > p.maxAttempts() {
				return fmt.Errorf("%d requests for %s, at most %d configured", len(rs), d, p.maxAttempts())
			}
			got := false
			for k, r := range rs {
				if got {
					return fmt.Errorf("request for %s after one had succeeded", d)
				}
				got = r.ok
				if k > 0 && r.at.Sub(rs[k-1].at) < time.Duration(p.Delay)*time.Second {
					return fmt.Errorf("attempts for %s only %v apart, retry delay is %ds", d, r.at.Sub(rs[k-1].at), p.Delay)
				}
			}
			if !got && len(rs) < p.maxAttempts() {
				return fmt.Errorf("gave up on %s after %d failed attempts of %d", d, len(rs), p.maxAttempts())
			}
		}
		if len(rs) > 1 {
			c.Label("retried")
		}
		if n := len(rs); n > 0 && !rs[n-1].ok {
			failed++
			c.Label("domain outage")
		}
		switch a := h.srv.acc[d]; {
		case a == nil:
			missing = d
		case a.malformed() && time.Now().Before(a.expiry):
			bad = d
		case a.malformed():
			// A malformed document that has expired in the meantime: whether it
			// still fails the refresh is not specified.
			if as.errors {
				c.Label("unspecified")
			}
			bad = "?"
		}
	}
	wantErr := missing != "" || bad != ""
	if op.Cancel != nil {
		c.Label("cancelled refresh")
		if *op.Cancel == 0 && err == nil && as.errors {
			return errors.New("refresh with a cancelled context reported success")
		}
	} else if as.errors && bad != "?" && wantErr != (err != nil) {
		return fmt.Errorf("want an error: %v (missing %q, malformed %q), got %v", wantErr, missing, bad, err)
	}
	if err == nil {
		if bad != "" && bad != "?" && as.errors {
			return fmt.Errorf("refresh with a malformed assertion in %s reported success", bad)
		}
		c.Label("refresh ok")
		if failed > 0 {
			c.Label("refresh ok with last document")
			c.NonTrivial()
		}
		for _, d := range h.doms {
			if h.snap[d] != nil && h.snap[d] != h.srv.acc[d] {
				c.NonTrivial()
				c.Label("snapshot replaced")
			}
			h.snap[d] = h.srv.acc[d]
		}
	} else {
		c.Label("refresh failed")
		if len(h.snap) > 0 {
			c.Label("refresh failed with policies loaded")
			c.NonTrivial()
		}
	}
	return nil
}

func (h *histRun) judgeDecisions(c *Case, ctx context.Context, checks []Check, as histAssert, updates int) error {
	live := h.live()
	for _, d := range h.doms {
		if p := h.snap[d]; p != nil && time.Now().After(p.expiry) {
			c.Label("policy in force has expired")
			if as.expired {
				c.NonTrivial()
			}
		}
	}
	for _, ck := range checks {
		roles, err := h.d.CheckPolicyRoles(ctx, ck.Domain, ck.Roles, ck.Act, ck.Res)
		if as.exact {
			v, _ := decide(live, ck.Domain, ck.Roles, ck.Act, ck.Res)
			if e := agree(v, roles, err); e != nil {
				return fmt.Errorf("%+v: %v", ck, e)
			}
		}
		if as.oneOf {
			if e := h.oneSnapshot(ck, roles, err); e != nil {
				return e
			}
		}
		if as.expired && err == nil {
			if !anyAllow(h.unexpired(c), ck) {
				return fmt.Errorf("%+v granted (%v) although no unexpired document allows it", ck, roles)
			}
		}
	}
	return nil
}

// unexpired lists every document obtained so far that is still valid.
func (h *histRun) unexpired(c *Case) (ok []Doc) {
	h.srv.mu.Lock()
	defer h.srv.mu.Unlock()
	for _, d := range h.doms {
		for _, p := range h.srv.all[d] {
			if time.Now().Before(p.expiry) {
				ok = append(ok, p.doc)
			}
		}
	}
	return ok
}

// oneSnapshot: the decision is that of a single accepted, unexpired document of the
// domain, or of no document unless the one of the last refresh is still valid.
func (h *histRun) oneSnapshot(ck Check, roles []string, err error) error {
	h.srv.mu.Lock()
	defer h.srv.mu.Unlock()
	var first error
	try := func(docs []Doc) bool {
		v, _ := decide(docs, ck.Domain, ck.Roles, ck.Act, ck.Res)
		e := agree(v, roles, err)
		if first == nil {
			first = e
		}
		return e == nil
	}
	now := time.Now()
	none := h.snap[ck.Domain] == nil
	for _, p := range h.srv.all[ck.Domain] {
		none = none || !now.Before(p.expiry)
	}
	if none && try(nil) {
		return nil
	}
	for _, p := range h.srv.all[ck.Domain] {
		if now.Before(p.expiry) && try([]Doc{p.doc}) {
			return nil
		}
	}
	if first == nil {
		first = errors.New("no document explains it")
	}
	return fmt.Errorf("%+v: no single valid document explains the decision (roles %q, error %v): %v", ck, roles, err, first)
}

// anyAllow says whether some assertion of the documents allows the request.
func anyAllow(docs []Doc, ck Check) bool {
	for _, d := range docs {
		for _, p := range d.Pols {
			for _, a := range p {
				if !a.deny() {
					for _, r := range ck.Roles {
						if a.applies(ck.Domain, r, ck.Act, ck.Res) == yes {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// ---- C08: the same history with and without conditional requests ----

func runConditional(c *Case, p histPlan) error {
	type obs struct {
		errs  []bool
		roles [][]string
		at    []time.Duration
	}
	observe := func(noTag bool) (o obs, e error) {
		h := startHist(p, noTag)
		ctx, cancel := bg()
		defer cancel()
		for i, r := range p.Init {
			h.srv.publish(h.doms[i], r)
		}
		checks := histChecks(h.doms)
		start := time.Now()
		for i, op := range p.Ops {
			err := h.step(ctx, p, op)
			if op.Op != "upd" {
				continue
			}
			if m := h.srv.inmErr; m != "" && !noTag {
				return o, failf("step %d: %s", i, m)
			}
			o.errs = append(o.errs, err != nil)
			o.at = append(o.at, time.Since(start))
			for _, ck := range checks {
				r, _ := h.d.CheckPolicyRoles(ctx, ck.Domain, ck.Roles, ck.Act, ck.Res)
				sortStrings(r)
				o.roles = append(o.roles, r)
			}
		}
		for _, r := range h.net.requests() {
			if r.HasINM {
				c.NonTrivial()
				c.Label("conditional request sent")
			}
		}
		return o, nil
	}
	a, err := observe(false)
	if err != nil {
		return err
	}
	b, err := observe(true)
	if err != nil {
		return err
	}
	// A document that expires while the answer is on its way is retried only when it
	// was sent in full. From there on the two runs are at different times.
	same := 0
	for same < len(a.at) && a.at[same] == b.at[same] {
		same++
	}
	if same < len(a.at) {
		c.Label("runs drift apart")
	}
	checks := histChecks(histDoms[:p.NDom])
	a.errs, a.roles = a.errs[:same], a.roles[:same*len(checks)]
	for i := range a.errs {
		if a.errs[i] != b.errs[i] {
			return failf("update %d: failed=%v with conditional requests, failed=%v without", i, a.errs[i], b.errs[i])
		}
	}
	for i := range a.roles {
		if fmt.Sprint(a.roles[i]) != fmt.Sprint(b.roles[i]) {
			return failf("update %d, %+v: granted by %q with conditional requests, %q without", i/len(checks), checks[i%len(checks)], a.roles[i], b.roles[i])
		}
	}
	return nil
}

func init() {
	plainFail := []string{"500", "404", "neterr", "garbage", "cut", "badsig", "expired", "hang", "204"}
	register(Sub{Prop: "C05", Name: "history", Quick: 12000, Thorough: 300000,
		Rule: "publish/advance/refresh histories over 1-3 domains with failing answers, malformed assertions and cancelled contexts; after each step 16 decisions per domain are compared with the model snapshot; non-trivial: a refresh replaced, kept or failed to replace a loaded snapshot"},
		genHist(histCfg{malformed: 25, fail: plainFail, failRate: 3, cancel: true, lateFirst: true}),
		runHist(histAssert{exact: true, errors: true}))
	register(Sub{Prop: "C06", Name: "exact", Quick: 7000, Thorough: 175000,
		Rule: "histories that pass document expiries with failing, replaying and not-modified answers, no purging; decisions equal those of the unexpired last valid documents; non-trivial: a document in force has expired, or a refresh kept or replaced one"},
		genHist(histCfg{fail: append([]string{"replay", "replay0"}, plainFail...), failRate: 2}),
		runHist(histAssert{exact: true, expired: true}))
	register(Sub{Prop: "C06", Name: "purge", Quick: 4000, Thorough: 100000,
		Rule: "the same with the purge loop and its re-fetching hook running every 2-9 s and with unsolicited 304 answers; every grant must come from an accepted, unexpired document; non-trivial: a document in force has expired"},
		genHist(histCfg{fail: append([]string{"replay", "replay0", "304"}, plainFail...), failRate: 2, purge: true, foreign: 12}),
		runHist(histAssert{expired: true, oneOf: true}))
	register(Sub{Prop: "C07", Name: "history", Quick: 10000, Thorough: 250000,
		Rule: "histories with outages of single domains; request counts and spacing per refresh, and decisions of every domain, follow the model; non-trivial: a refresh relied on the last valid document"},
		genHist(histCfg{fail: plainFail, failRate: 2, lateFirst: true, foreign: 12}),
		runHist(histAssert{exact: true, errors: true, attempts: true}))
	register(Sub{Prop: "C08", Name: "differential", Quick: 4500, Thorough: 112500,
		Rule: "each history is run twice, against a server with ETags and 304 answers and against one without; non-trivial: a conditional request was sent"},
		genHist(histCfg{fail: plainFail, failRate: 3, lateFirst: true}), runConditional)
	register(Sub{Prop: "C08", Name: "header", Quick: 4500, Thorough: 112500,
		Rule: "every request of a history carries If-None-Match exactly when the last accepted document has an ETag and is outside the margin; non-trivial as in C05"},
		genHist(histCfg{fail: plainFail, failRate: 3, malformed: 30, lateFirst: true, cancel: true}),
		runHist(histAssert{inm: true, exact: true}))
}
