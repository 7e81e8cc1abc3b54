package harness

import (
	"crypto"
	"net/http"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	authcore "github.com/AthenZ/athenz/libs/go/zmssvctoken"
	"pgregory.net/rapid"

	"github.com/yahoojapan/athenz-authorizer/v5/jwk"
	"github.com/yahoojapan/athenz-authorizer/v5/pubkey"
)

// C31: refreshing keys never interrupts verification.

// kuSource is what one source (service or URL) answers in one refresh.
type kuSource struct {
	Keys  map[string]string `json:"keys"`
	Fault string            `json:"f,omitempty"`
	Delay int               `json:"d,omitempty"` // milliseconds
}

type kuStep struct {
	Src   []kuSource `json:"src"`
	Probe []int      `json:"p,omitempty"` // milliseconds after the start of the refresh
}

type kuPlan struct {
	JWK    bool     `json:"jwk,omitempty"`
	Fill   int      `json:"fill"` // further keys in every list
	Tags   bool     `json:"tags,omitempty"`
	Steps  []kuStep `json:"steps"`
	Hammer int      `json:"h"`
	Procs  int      `json:"procs"`
}

var kuIDs = []string{"k0", "k1", "k2", "K0", "k"}

func genKu(t *rapid.T) kuPlan {
	p := kuPlan{JWK: rapid.Bool().Draw(t, "jwk"), Fill: pick(t, "fill", 0, 0, 4, 40, 150), Tags: rapid.Bool().Draw(t, "tags"), Hammer: intIn(t, "h", 0, 4), Procs: pick(t, "procs", 1, 4, 8)}
	ns := 2
	var prev []kuSource
	for i, n := 0, intIn(t, "steps", 2, 4); i < n; i++ {
		var st kuStep
		for s := 0; s < ns; s++ {
			src := kuSource{Keys: map[string]string{}}
			if i > 0 && oneIn(t, "same", 3) {
				for k, v := range prev[s].Keys {
					src.Keys[k] = v
				}
			} else {
				for _, id := range shuffled(t, "ids", kuIDs)[:intIn(t, "nid", 1, 4)] {
					src.Keys[id] = pick(t, "key", "ec0", "ec1", "ec2", "rsa0")
				}
				if i > 0 && oneIn(t, "keep", 2) {
					for k, v := range prev[s].Keys {
						if oneIn(t, "keepk", 2) {
							src.Keys[k] = v
						}
					}
				}
			}
			if i > 0 {
				src.Fault = pick(t, "fault", "", "", "", "", "500", "err", "cut", "garbage", "bad", "empty304")
			}
			src.Delay = pick(t, "delay", 0, 0, 0, 30, 200, 1500)
			st.Src = append(st.Src, src)
		}
		prev = st.Src
		for k, m := 0, intIn(t, "np", 0, 3); k < m; k++ {
			st.Probe = append(st.Probe, pick(t, "probe", 1, 31, 100, 201, 700, 1501))
		}
		p.Steps = append(p.Steps, st)
	}
	return p
}

// kuWhich names the key behind a lookup result.
func kuWhich(v any) string {
	switch x := v.(type) {
	case nil:
		return ""
	case authcore.Verifier:
		return whichKey(x)
	}
	for _, n := range []string{"ec0", "ec1", "ec2", "rsa0", "ec5"} {
		if pub, ok := key(n).Priv.Public().(interface{ Equal(crypto.PublicKey) bool }); ok {
			if pub.Equal(v) {
				return n
			}
		}
	}
	return "?"
}

func runKu(c *Case, p kuPlan) error {
	if old := runtime.GOMAXPROCS(0); p.Procs < old {
		runtime.GOMAXPROCS(p.Procs)
		defer runtime.GOMAXPROCS(old)
	}
	n := newNet()
	var step atomic.Int32
	filled := func(m map[string]string) map[string]string {
		out := map[string]string{}
		for k, v := range m {
			out[k] = v
		}
		for i := 0; i < p.Fill; i++ {
			out["fill"+itoa(i)] = "ec5"
		}
		return out
	}
	bodies := make([][][]byte, len(p.Steps))
	for i, st := range p.Steps {
		for _, s := range st.Src {
			var b []byte
			switch {
			case p.JWK:
				b = jwksBody(filled(s.Keys))
			case s.Fault == "bad":
				b = pkBody(pkList{Keys: filled(s.Keys)}, "der")
			default:
				b = pkBody(pkList{Keys: filled(s.Keys)}, "")
			}
			bodies[i] = append(bodies[i], b)
		}
	}
	// faulty says that the source cannot be obtained in that step.
	faulty := func(i, s int) bool {
		switch f := p.Steps[i].Src[s].Fault; f {
		case "":
			return false
		case "bad": // only made for public keys
			return !p.JWK
		}
		return true
	}
	handler := func(s int) func(*http.Request) *Resp {
		return func(*http.Request) *Resp {
			i := int(step.Load())
			src := p.Steps[i].Src[s]
			b := bodies[i][s]
			r := &Resp{Status: 200, Body: b, Delay: time.Duration(src.Delay) * time.Millisecond, Header: map[string]string{}}
			if p.Tags && !p.JWK {
				r.Header["ETag"] = "t" + itoa(i)
			}
			switch src.Fault {
			case "500":
				r.Status = 500
			case "err":
				r.Err = &netErr{msg: "refused"}
			case "cut":
				r.BodyErr, r.CutAt = true, len(b)/2
			case "garbage":
				r.Body = []byte("<html>busy</html>")
			case "empty304":
				r.Status, r.Body = 304, nil
			}
			return r
		}
	}
	urls := []string{serviceURL("sys.auth", "zms"), serviceURL("sys.auth", "zts")}
	if p.JWK {
		urls = []string{athenzJwksURL(), "https://idp.test/jwks"}
	}
	for s, u := range urls {
		n.handle(u, handler(s))
	}
	var update func(ctxT) error
	var lookup func(s int, id string) any
	if p.JWK {
		d := lib(jwk.New(jwk.WithAthenzJwksURL(ztsURL), jwk.WithURLs(urls[1:]), jwk.WithHTTPClient(n.client())))
		prov := d.GetProvider()
		update = d.Update
		lookup = func(s int, id string) any { return prov(id, []string{"", urls[1]}[s]) }
	} else {
		d := lib(pubkey.New(pubkey.WithAthenzURL(ztsURL), pubkey.WithHTTPClient(n.client())))
		prov := d.GetProvider()
		update = d.Update
		lookup = func(s int, id string) any {
			if v := prov([]pubkey.AthenzEnv{pubkey.EnvZMS, pubkey.EnvZTS}[s], id); v != nil {
				return v
			}
			return nil
		}
	}
	ctx, cancel := bg()
	defer cancel()
	// inForce[s] is the step whose list is in force before the current refresh.
	inForce := []int{-1, -1}
	keyAt := func(i, s int, id string) string {
		if i < 0 {
			return ""
		}
		return p.Steps[i].Src[s].Keys[id]
	}
	var mu sync.Mutex
	var firstErr error
	fail := func(e error) {
		mu.Lock()
		if firstErr == nil {
			firstErr = e
		}
		mu.Unlock()
	}
	for i, st := range p.Steps {
		step.Store(int32(i))
		var done atomic.Bool
		// what may be seen during this refresh
		may := func(s int, id, got string) bool {
			return got == keyAt(inForce[s], s, id) || !faulty(i, s) && got == keyAt(i, s, id)
		}
		check := func(s int, id, when string) {
			got := kuWhich(lookup(s, id))
			if !may(s, id, got) {
				fail(failf("refresh %d, %s: key %q of %s is %q: before the refresh it is %q, the refresh (fault %q) publishes %q", i, when, id, urls[s], got, keyAt(inForce[s], s, id), st.Src[s].Fault, keyAt(i, s, id)))
			}
		}
		var wg sync.WaitGroup
		last := 0
		for _, s := range st.Src {
			last = max(last, s.Delay)
		}
		// keys that stay published are looked up as fast as possible
		for h := 0; h < p.Hammer; h++ {
			s := h % 2
			var stay []string
			for _, id := range kuIDs {
				if k := keyAt(inForce[s], s, id); k != "" && (faulty(i, s) || keyAt(i, s, id) != "") {
					stay = append(stay, id)
				}
			}
			if len(stay) == 0 {
				continue
			}
			c.NonTrivial()
			c.Label("lookups of staying keys during a refresh")
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(time.Duration(last) * time.Millisecond)
				for k := 0; k < 40000 && !done.Load(); k++ {
					id := stay[k%len(stay)]
					if v := lookup(s, id); v == nil || k%64 == 0 && !may(s, id, kuWhich(v)) {
						fail(failf("refresh %d: key %q of %s is published before and after the refresh (fault %q) but looks up as %q during it", i, id, urls[s], st.Src[s].Fault, kuWhich(v)))
						return
					}
				}
			}()
		}
		for _, at := range st.Probe {
			if at > last {
				continue
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(time.Duration(at)*time.Millisecond + 300*time.Microsecond)
				c.Label("lookup while a response is awaited")
				for s := range urls {
					for _, id := range kuIDs {
						check(s, id, "while a response is awaited")
					}
				}
			}()
		}
		_ = update(ctx)
		done.Store(true)
		wg.Wait()
		for s := range urls {
			if !faulty(i, s) {
				inForce[s] = i
			} else {
				c.Label("refresh fails")
			}
		}
		for s := range urls {
			for _, id := range kuIDs {
				if got, want := kuWhich(lookup(s, id)), keyAt(inForce[s], s, id); got != want {
					fail(failf("after refresh %d key %q of %s is %q, want %q", i, id, urls[s], got, want))
				}
			}
		}
		if firstErr != nil {
			return firstErr
		}
	}
	return nil
}

func init() {
	register(Sub{Prop: "C31", Name: "keys", Quick: 2500, Thorough: 62500,
		Rule: "histories of refreshes of the public key daemon or the JWK daemon over short and long lists that change, fail or answer late, with lookups at instants while responses are awaited and, in parallel, as fast as possible while they are taken over; each result is the one before or the one after that refresh; non-trivial: keys that stay published are looked up during a refresh"},
		genKu, runKu)
}
