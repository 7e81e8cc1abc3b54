package harness

import (
	"context"
	"fmt"
	"io"
	"net/http"
	"reflect"
	"strings"
	"sync"
	"time"

	"github.com/pkg/errors"
	"pgregory.net/rapid"

	"github.com/yahoojapan/athenz-authorizer/v5/client"
)

// C26: the retrying transport is bounded and transparent.

// upStep is one outcome of the transport below.
type upStep struct {
	Kind   string `json:"k"` // temp, perm, plain, wrapped, status
	Status int    `json:"s,omitempty"`
	Size   int    `json:"n,omitempty"` // bytes of body
	Cut    bool   `json:"cut,omitempty"`
	Delay  int    `json:"d,omitempty"` // ms until the outcome
}

type backoffPlan struct {
	Factor int        `json:"f"` // tenths
	Max    int        `json:"max"`
	Limit  int        `json:"lim"` // ms
	Calls  [][]upStep `json:"calls"`
	Par    bool       `json:"par,omitempty"`
	Client bool       `json:"client,omitempty"` // through an http.Client
}

func genBackoffPlan(t *rapid.T) backoffPlan {
	p := backoffPlan{Factor: pick(t, "factor", 5, 10, 10, 20, 30, 50, 100), Max: pick(t, "max", 1, 2, 3, 4, 5, 8, 20), Limit: pick(t, "limit", 0, 1, 100, 500, 1000, 3000, 4000, 9000, 10000, 60000, 3600000), Par: oneIn(t, "par", 4), Client: oneIn(t, "client", 4)}
	for i, n := 0, intIn(t, "ncalls", 1, 3); i < n; i++ {
		var c []upStep
		for j, m := 0, intIn(t, "nsteps", 0, 9); j < m; j++ {
			s := upStep{Kind: pick(t, "kind", "temp", "temp", "temp", "status", "status", "status", "perm", "plain", "wrapped")}
			if s.Kind == "status" {
				s.Status = pick(t, "status", 429, 500, 503, 504, 429, 500, 503, 504, 200, 304, 404, 502, 501, 400, 403, 408, 425, 505, 204)
				s.Size = pick(t, "size", 0, 1, 20, 5000, 70000)
				s.Cut = oneIn(t, "cut", 6)
			}
			if oneIn(t, "delay", 3) {
				s.Delay = pick(t, "delayms", 1, 50, 700, 5000)
			}
			c = append(c, s)
		}
		p.Calls = append(p.Calls, c)
	}
	return p
}

type plainErr struct{ s string }

func (e plainErr) Error() string { return e.s }

func (s upStep) err(i int) error {
	m := fmt.Sprintf("outcome %d", i)
	switch s.Kind {
	case "temp":
		return &netErr{msg: m, temp: true}
	case "perm":
		return &netErr{msg: m}
	case "plain":
		return plainErr{m}
	case "wrapped":
		return errors.Wrap(&netErr{msg: m}, "while dialing")
	}
	return nil
}

func (s upStep) retriable() bool {
	return s.Kind == "status" && (s.Status == 429 || s.Status == 500 || s.Status == 503 || s.Status == 504)
}

func (s upStep) body(i int) string {
	return strings.Repeat(fmt.Sprintf("%d.", i), s.Size)[:s.Size]
}

// upstream plays one call's outcomes; beyond the script everything succeeds.
type upstream struct {
	n      *Net
	mu     sync.Mutex
	steps  []upStep
	at     []time.Time // start of each attempt
	end    []time.Time
	bodies []*trackedBody
	errs   []error
	reqs   []string
	hdrs   []http.Header
}

func (u *upstream) step(i int) upStep {
	if i < len(u.steps) {
		return u.steps[i]
	}
	return upStep{Kind: "status", Status: 200, Size: 10}
}

func (u *upstream) RoundTrip(r *http.Request) (*http.Response, error) {
	u.mu.Lock()
	i := len(u.at)
	u.at = append(u.at, time.Now())
	u.reqs = append(u.reqs, r.Method+" "+r.URL.String()+" "+r.Header.Get("X-Test"))
	u.hdrs = append(u.hdrs, r.Header.Clone())
	s := u.step(i)
	u.mu.Unlock()
	time.Sleep(time.Duration(s.Delay) * time.Millisecond)
	u.mu.Lock()
	defer u.mu.Unlock()
	u.end = append(u.end, time.Now())
	err := s.err(i)
	u.errs = append(u.errs, err)
	if err != nil {
		u.bodies = append(u.bodies, nil)
		return nil, err
	}
	resp := u.n.response(r, &Resp{Status: s.Status, Body: []byte(s.body(i)), BodyErr: s.Cut, CutAt: s.Size / 2, Header: map[string]string{"X-Outcome": fmt.Sprint(i)}})
	u.bodies = append(u.bodies, resp.Body.(*trackedBody))
	return resp, nil
}

type ctxKey struct{}

// routeUp sends each call to its own upstream.
type routeUp struct{}

func (routeUp) RoundTrip(r *http.Request) (*http.Response, error) {
	return r.Context().Value(ctxKey{}).(*upstream).RoundTrip(r)
}

func runBackoff(c *Case, p backoffPlan) error {
	f := float64(p.Factor) / 10
	rt := lib(client.NewExponentialRoundTripper(routeUp{}, f, p.Max, time.Duration(p.Limit)*time.Millisecond))
	hc := &http.Client{Transport: rt, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
	one := func(steps []upStep) error {
		u := &upstream{n: newNet(), steps: steps}
		req := must(http.NewRequestWithContext(context.WithValue(context.Background(), ctxKey{}, u), "GET", "https://x.test/p?q=1", nil))
		req.Header.Set("X-Test", "v")
		start := time.Now()
		var resp *http.Response
		var err error
		if p.Client {
			resp, err = hc.Do(req)
		} else {
			resp, err = rt.RoundTrip(req)
		}
		u.mu.Lock()
		defer u.mu.Unlock()
		n := len(u.at)
		if n < 1 || n > p.Max {
			return failf("%d attempts, at most %d are configured (%+v)", n, p.Max, steps)
		}
		var prevWait time.Duration
		for i := 0; i < n; i++ {
			s, last := u.step(i), i == n-1
			if u.reqs[i] != "GET https://x.test/p?q=1 v" {
				return failf("attempt %d sends %q", i, u.reqs[i])
			}
			if !reflect.DeepEqual(u.hdrs[i], u.hdrs[0]) || len(u.hdrs[i]["X-Test"]) != 1 {
				return failf("attempt %d sends the headers %v, the first sent %v", i, u.hdrs[i], u.hdrs[0])
			}
			wait := time.Duration(float64(2*i+1) / (f * f) * float64(time.Second))
			room := start.Add(time.Duration(p.Limit) * time.Millisecond).Sub(u.end[i].Add(wait))
			tol := 2*time.Millisecond + wait/100
			rtol := tol
			if p.Factor == 10 {
				rtol = 0 // whole seconds, nothing to round
			}
			switch {
			case s.Kind == "temp" && !last:
				w := u.at[i+1].Sub(u.end[i])
				if w < wait-tol || w > wait+tol {
					return failf("attempt %d follows the temporary error of attempt %d after %v, want %v", i+1, i, w, wait)
				}
				if w <= prevWait {
					return failf("the wait after attempt %d (%v) is not longer than the one before (%v)", i, w, prevWait)
				}
				if room < -rtol || rtol == 0 && room == 0 {
					return failf("attempt %d would come %v past the time limit", i+1, -room)
				}
				prevWait = w
				c.Label("retries after a temporary error")
				c.NonTrivial()
			case s.Kind == "temp" && last && n < p.Max:
				if room > rtol {
					return failf("gave up after the temporary error of attempt %d although %d attempts and %v are left", i, p.Max-n, room)
				}
				c.Label("gives up at the time limit")
			case s.retriable():
				if last && n < p.Max {
					return failf("gave up after the %d of attempt %d although %d attempts are left", s.Status, i, p.Max-n)
				}
				if !last {
					c.Label("retries after a retriable response")
					c.NonTrivial()
				}
			case !last:
				return failf("another attempt follows outcome %d %+v", i, s)
			}
			if b := u.bodies[i]; b != nil && !last && b.closed == 0 {
				return failf("the body of the discarded response %d (status %d) is not closed", i, s.Status)
			}
		}
		if n == p.Max {
			c.Label("uses all attempts")
		}
		i := n - 1
		s := u.step(i)
		if want := u.errs[i]; want != nil {
			if resp != nil {
				return failf("a response is returned together with the error %v", err)
			}
			if p.Client {
				if err == nil || !strings.Contains(err.Error(), want.Error()) {
					return failf("returned %v, the last outcome is %v", err, want)
				}
			} else if err != want {
				return failf("returned %v, the last outcome is %v", err, want)
			}
			return nil
		}
		if err != nil {
			return failf("returned the error %v, the last outcome is a %d", err, s.Status)
		}
		if resp == nil {
			return failf("returned nothing, the last outcome is a %d", s.Status)
		}
		if resp.StatusCode != s.Status || resp.Header.Get("X-Outcome") != fmt.Sprint(i) {
			return failf("returned status %d of outcome %q, the last outcome is %d with status %d", resp.StatusCode, resp.Header.Get("X-Outcome"), i, s.Status)
		}
		u.mu.Unlock()
		got, rerr := io.ReadAll(resp.Body)
		u.mu.Lock()
		want := s.body(i)
		if s.Cut {
			want = want[:s.Size/2]
			if !errors.Is(rerr, io.ErrUnexpectedEOF) {
				return failf("the body of the returned response %d breaks off with an error, reading it gives %v", s.Status, rerr)
			}
		} else if rerr != nil {
			return failf("the body of the returned response (status %d) cannot be read: %v", s.Status, rerr)
		}
		if string(got) != want {
			return failf("the body of the returned response (status %d) reads %q, sent was %q", s.Status, clip(got, 40), clip([]byte(want), 40))
		}
		if err := resp.Body.Close(); err != nil {
			return failf("closing the returned body: %v", err)
		}
		return nil
	}
	errs := make([]error, len(p.Calls))
	var wg sync.WaitGroup
	for i := range p.Calls {
		wg.Add(1)
		go func() {
			defer wg.Done()
			errs[i] = one(p.Calls[i])
		}()
		if !p.Par {
			wg.Wait()
		}
	}
	wg.Wait()
	for i, e := range errs {
		if e != nil {
			return failf("call %d: %v", i, e)
		}
	}
	return nil
}

func init() {
	register(Sub{Prop: "C26", Name: "outcomes", Quick: 60000, Thorough: 1500000,
		Rule: "sequences of temporary and other errors, retriable and other responses with intact or breaking bodies and delays below the transport, over factors, attempt counts and time limits, in one or several (also concurrent) calls, directly or through an http.Client; non-trivial: at least one retry"},
		genBackoffPlan, runBackoff)
}
