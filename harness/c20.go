package harness

import (
	"fmt"
	"net/http"
	"sync"
	"sync/atomic"
	"time"

	authcore "github.com/AthenZ/athenz/libs/go/zmssvctoken"
	"pgregory.net/rapid"

	"github.com/yahoojapan/athenz-authorizer/v5/pubkey"
)

// C20: the public key store.

// pkList is one revision of a service's key list.
type pkList struct {
	Keys map[string]string `json:"keys"`
	Tag  string            `json:"tag,omitempty"`
}

// pkServe says what a service answers from here on.
type pkServe struct {
	List int    `json:"list"` // revision
	Mode string `json:"mode"`
	Bad  string `json:"bad,omitempty"`
}

type pkOp struct {
	Adv int      `json:"adv"`
	ZMS *pkServe `json:"zms,omitempty"`
	ZTS *pkServe `json:"zts,omitempty"`
}

type pkPlan struct {
	Expiry int                 `json:"expiry"` // ETag lifetime in seconds, plus a quarter; 0 the default
	Sys    string              `json:"sys,omitempty"`
	Lists  map[string][]pkList `json:"lists"`
	Ops    []pkOp              `json:"ops"`
	Race   bool                `json:"race,omitempty"`
}

var pkIDs = []string{"0", "k1", "k2", "zms0", ""}

var badKeys = map[string]string{
	"b64":   "!!!not base64",
	"nopem": new(authcore.YBase64).EncodeToString([]byte("no pem block")),
	"empty": "",
	"der":   new(authcore.YBase64).EncodeToString([]byte("-----BEGIN PUBLIC KEY-----\nAAAA\n-----END PUBLIC KEY-----\n")),
	"cert":  new(authcore.YBase64).EncodeToString([]byte("-----BEGIN NONSENSE-----\nMFkwEwYHKoZIzj0CAQ==\n-----END NONSENSE-----\n")),
}

func genPkPlan(t *rapid.T) pkPlan {
	p := pkPlan{Expiry: pick(t, "expiry", 0, 5, 20), Lists: map[string][]pkList{}, Race: oneIn(t, "race", 3)}
	if oneIn(t, "sys", 4) {
		p.Sys = "sys.other"
	}
	for _, svc := range []string{"zms", "zts"} {
		for i, n := 0, intIn(t, "nlist", 1, 4); i < n; i++ {
			l := pkList{Keys: map[string]string{}}
			for _, id := range shuffled(t, "ids", pkIDs)[:intIn(t, "nid", 0, 4)] {
				l.Keys[id] = pick(t, "key", poolKeys...)
			}
			if !oneIn(t, "notag", 4) {
				l.Tag = pick(t, "tag", `"%s-%d"`, `W/"%s-%d"`, `%s%d`)
				l.Tag = fmt.Sprintf(l.Tag, svc, i)
			}
			p.Lists[svc] = append(p.Lists[svc], l)
		}
	}
	serve := func(svc string) *pkServe {
		s := &pkServe{List: intIn(t, "list", 0, len(p.Lists[svc])-1)}
		s.Mode = pick(t, "mode", "ok", "ok", "ok", "ok", "200", "500", "404", "err", "cut", "badkey", "badkey", "garbage", "304", "204")
		if s.Mode == "badkey" {
			s.Bad = pick(t, "bad", sortedKeys(badKeys)...)
		}
		return s
	}
	for i, n := 0, intIn(t, "nop", 2, 12); i < n; i++ {
		o := pkOp{Adv: pick(t, "adv", 0, 1, 1, 3, 5, 6, 19, 21)}
		if i == 0 || oneIn(t, "zms", 2) {
			o.ZMS = serve("zms")
		}
		if i == 0 || oneIn(t, "zts", 2) {
			o.ZTS = serve("zts")
		}
		p.Ops = append(p.Ops, o)
	}
	return p
}

// pkState is the reference state of one service.
type pkState struct {
	serve   pkServe
	keys    map[string]string
	tag     string
	tagTime time.Time
}

func pkBody(l pkList, bad string) []byte {
	ents := []pubEntry{}
	ids := sortedKeys(l.Keys)
	for i, id := range ids {
		if bad != "" && i == len(ids)/2 {
			ents = append(ents, pubEntry{"bad", badKeys[bad]})
		}
		ents = append(ents, pubEntry{id, key(l.Keys[id]).Y64})
	}
	if bad != "" && len(ids) == 0 {
		ents = append(ents, pubEntry{"bad", badKeys[bad]})
	}
	return keyListBody("sys.auth", ents)
}

var pkSigs = func() map[string]string {
	m := map[string]string{}
	for _, k := range poolKeys {
		m[k] = key(k).sign("hello")
	}
	return m
}()

// whichKey tells which key a verifier belongs to.
func whichKey(v authcore.Verifier) string {
	if v == nil {
		return ""
	}
	for _, k := range poolKeys {
		if v.Verify("hello", pkSigs[k]) == nil {
			return k
		}
	}
	return "unknown key"
}

func runPk(c *Case, p pkPlan) error {
	n := newNet()
	opts := []pubkey.Option{pubkey.WithAthenzURL(ztsURL), pubkey.WithHTTPClient(n.client())}
	life := 168 * time.Hour
	if p.Expiry > 0 {
		life = time.Duration(p.Expiry)*time.Second + 250*time.Millisecond
		opts = append(opts, pubkey.WithETagExpiry(life.String()))
	}
	sys := "sys.auth"
	if p.Sys != "" {
		sys = p.Sys
		opts = append(opts, pubkey.WithSysAuthDomain(sys))
	}
	d := lib(pubkey.New(opts...))
	prov := d.GetProvider()
	st := map[string]*pkState{"zms": {keys: map[string]string{}}, "zts": {keys: map[string]string{}}}
	for svc, s := range st {
		n.handle(serviceURL(sys, svc), func(r *http.Request) *Resp {
			l := p.Lists[svc][s.serve.List]
			h := map[string]string{}
			if l.Tag != "" {
				h["ETag"] = l.Tag
			}
			switch s.serve.Mode {
			case "ok":
				if l.Tag != "" && r.Header.Get("If-None-Match") == l.Tag {
					return &Resp{Status: 304, Header: h}
				}
			case "304":
				return &Resp{Status: 304, Header: h}
			case "500", "404", "204":
				return &Resp{Status: map[string]int{"500": 500, "404": 404, "204": 204}[s.serve.Mode], Header: h, Body: pkBody(l, "")}
			case "err":
				return &Resp{Err: &netErr{msg: "refused"}}
			case "cut":
				b := pkBody(l, "")
				return &Resp{Status: 200, Header: h, Body: b, BodyErr: true, CutAt: len(b) / 2}
			case "garbage":
				return &Resp{Status: 200, Header: h, Body: []byte("<html>")}
			case "badkey":
				return &Resp{Status: 200, Header: h, Body: pkBody(l, s.serve.Bad)}
			}
			return &Resp{Status: 200, Header: h, Body: pkBody(l, "")}
		})
	}
	ctx, stop := bg()
	defer stop()
	half()
	for i, o := range p.Ops {
		time.Sleep(time.Duration(o.Adv) * time.Second)
		if o.ZMS != nil {
			st["zms"].serve = *o.ZMS
		}
		if o.ZTS != nil {
			st["zts"].serve = *o.ZTS
		}
		before := len(n.requests())
		var done atomic.Bool
		var wg sync.WaitGroup
		var raceErr error
		if p.Race {
			// ids that are in the old list and in the one being served resolve throughout
			for svc, s := range st {
				if s.serve.Mode != "ok" && s.serve.Mode != "200" {
					continue
				}
				env := pubkey.AthenzEnv(svc)
				newKeys := p.Lists[svc][s.serve.List].Keys
				for id := range s.keys {
					if _, ok := newKeys[id]; !ok {
						continue
					}
					wg.Add(1)
					go func() {
						defer wg.Done()
						for !done.Load() {
							if prov(env, id) == nil {
								raceErr = failf("op %d: %s key %q is in the old and the new list, yet it is missing during the refresh", i, svc, id)
								return
							}
						}
					}()
				}
			}
		}
		err := d.Update(ctx)
		done.Store(true)
		wg.Wait()
		if raceErr != nil {
			return raceErr
		}
		wantErr := false
		for svc, s := range st {
			l := p.Lists[svc][s.serve.List]
			var reqs []Req
			for _, r := range n.requests()[before:] {
				if r.URL == serviceURL(sys, svc) {
					reqs = append(reqs, r)
				}
			}
			if len(reqs) == 0 {
				return failf("op %d: %s was not asked for its keys", i, svc)
			}
			inm := ""
			for _, r := range reqs {
				if !r.HasINM {
					continue
				}
				inm = r.INM
				if s.tag == "" || r.INM != s.tag {
					return failf("op %d: request to %s carries If-None-Match %s; the list in use has ETag %q", i, svc, r.INM, s.tag)
				}
				if r.At.Sub(s.tagTime) > life {
					return failf("op %d: request to %s carries If-None-Match %s, which is %v old (lifetime %v)", i, svc, r.INM, r.At.Sub(s.tagTime), life)
				}
				c.Label("conditional request")
			}
			switch s.serve.Mode {
			case "ok", "200":
				if s.serve.Mode == "ok" && inm != "" && inm == l.Tag {
					c.Label("not modified")
				} else {
					s.keys, s.tag, s.tagTime = l.Keys, l.Tag, time.Now()
					c.Label("new list")
				}
				if len(s.keys) != len(l.Keys) {
					return failf("op %d: harness: list in use is not the one with ETag %s", i, l.Tag)
				}
			case "304":
				if inm == "" {
					wantErr = true
					c.Label("unsolicited 304")
				}
			default:
				wantErr = true
				c.Label("failed: %s", s.serve.Mode)
				if len(s.keys) > 0 {
					c.NonTrivial()
				}
			}
		}
		if (err != nil) != wantErr {
			return failf("op %d: services %+v %+v: want error %v, got %v", i, st["zms"].serve, st["zts"].serve, wantErr, err)
		}
		for svc, s := range st {
			for _, id := range append([]string{"bad", "nosuch"}, pkIDs...) {
				got := whichKey(prov(pubkey.AthenzEnv(svc), id))
				if got != s.keys[id] {
					return failf("op %d (error %v): %s key %q is %q, must be %q (list in use %v, service %+v)", i, err, svc, id, got, s.keys[id], s.keys, s.serve)
				}
			}
		}
	}
	return nil
}

func init() {
	register(Sub{Prop: "C20", Name: "store", Quick: 3500, Thorough: 87500,
		Rule: "histories of refreshes over revisions of both key lists with and without ETags, rollbacks, outages, truncated bodies, unusable keys, forced 304 and waits around the ETag lifetime; requests and all lookups are compared with a reference store; non-trivial: a refresh of a service with keys fails"},
		genPkPlan, runPk)
}
