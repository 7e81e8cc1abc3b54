package harness

import (
	"fmt"
	"net/url"
	"strings"
	"sync"

	"pgregory.net/rapid"

	authorizerd "github.com/yahoojapan/athenz-authorizer/v5"
)

// C16 mapping rules, C17 their validation.

func isHolder(s string) bool { return strings.HasPrefix(s, "{") && strings.HasSuffix(s, "}") }

// plainHolder is a placeholder whose occurrences cannot overlap another's.
func plainHolder(s string) bool {
	return isHolder(s) && len(s) > 2 && !strings.ContainsAny(s[1:len(s)-1], "{}")
}

// refRuleValid says why a rule set must be refused; "" if it must be accepted.
func refRuleValid(rules map[string][]MRule) string {
	if rules == nil {
		return "no rules"
	}
	for d, rs := range rules {
		if d == "" {
			return "empty domain"
		}
		if rs == nil {
			return "no list"
		}
		for _, r := range rs {
			if r.Method == "" || r.Action == "" || r.Resource == "" {
				return "empty part"
			}
			if r.Path != "" && r.Path[0] != '/' {
				return "no slash"
			}
			path, query, _ := strings.Cut(r.Path, "?")
			used := map[string]bool{}
			vals := strings.Split(path, "/")
			q, err := url.ParseQuery(query)
			if err != nil {
				return "query syntax"
			}
			for _, v := range q {
				if len(v) != 1 {
					return "parameter given twice"
				}
				vals = append(vals, v[0])
			}
			for _, v := range vals {
				if v == "{}" {
					return "empty placeholder"
				}
				if isHolder(v) && used[v] {
					return "placeholder used twice"
				}
				used[v] = true
			}
		}
	}
	return ""
}

type trOut struct {
	Act, Res string
	Err      bool
}

// refTranslate is the reference; open is set where only determinism is specified.
func refTranslate(rules []MRule, method, path, query string) (out trOut, rule int, open bool) {
	req := strings.Split(path, "/")
	q, qerr := url.ParseQuery(query)
	for i, r := range rules {
		if !strings.EqualFold(r.Method, method) {
			continue
		}
		rp, rq, _ := strings.Cut(r.Path, "?")
		segs := strings.Split(rp, "/")
		if len(segs) != len(req) {
			continue
		}
		want, _ := url.ParseQuery(rq)
		vals := map[string]string{}
		match := true
		for j, s := range segs {
			if isHolder(s) {
				vals[s] = req[j]
			} else if s != req[j] {
				match = false
			}
		}
		if qerr != nil {
			// the parameters are unknown
			if match {
				return trOut{Err: true}, -1, false
			}
			continue
		}
		match = match && len(want) == len(q)
		for k, w := range want {
			g, ok := q[k]
			switch {
			case !ok || len(g) != 1:
				match = false
			case isHolder(w[0]):
				vals[w[0]] = g[0]
			case w[0] != g[0]:
				match = false
			}
		}
		if !match {
			continue
		}
		for name := range vals {
			open = open || !plainHolder(name)
		}
		return trOut{Act: r.Action, Res: replaceHolders(r.Resource, vals)}, i, open
	}
	return trOut{Act: method, Res: path}, -1, qerr != nil
}

func replaceHolders(s string, vals map[string]string) string {
	var sb strings.Builder
outer:
	for s != "" {
		for name, v := range vals {
			if strings.HasPrefix(s, name) {
				sb.WriteString(v)
				s = s[len(name):]
				continue outer
			}
		}
		sb.WriteByte(s[0])
		s = s[1:]
	}
	return sb.String()
}

type trReq struct {
	Domain string `json:"d"`
	Method string `json:"m"`
	Path   string `json:"p"`
	Query  string `json:"q,omitempty"`
}

type trPlan struct {
	Rules map[string][]MRule `json:"rules"`
	Reqs  []trReq            `json:"reqs"`
	Twice bool               `json:"twice,omitempty"` // the rule map was used before
}

var (
	segPool    = []string{"a", "b", "ab", "A", "", "x-1", "{x}", "{y}", "{z}", "{long}", "{x", "y}", "%7Bx%7D", "日", "a{x}", "{x}b", "x{}", "a{y}b"}
	paramPool  = []string{"k", "l", "m", "K", ""}
	pvalPool   = []string{"1", "2", "{p}", "{q}", "{r}", "", "v w", "{x}", "a%20b", "%7Bs%7D", "a{x}", "{p}1", "1{q}"}
	valuePool  = []string{"v", "{x}", "{y}", "{z}", "{p}", "{q}", "a", "$1", "%2F", "*", "{", "}", "x}", "{{x}}", "1", "", "日本", "A", "\\", "v:w", "..", "{long}"}
	methodPool = []string{"GET", "get", "POST", "Put", "DELETE", "gET", "é"}
)

func genRule(t *rapid.T) MRule {
	var segs []string
	used := map[string]bool{}
	n := intIn(t, "nseg", 0, 3)
	put := func(s string) string {
		for isHolder(s) && used[s] {
			s = s[:len(s)-1] + "1}"
		}
		used[s] = true
		return s
	}
	var res []string
	for i := 0; i < n; i++ {
		s := put(pick(t, "seg", segPool...))
		segs = append(segs, s)
		if isHolder(s) {
			res = append(res, s)
		}
	}
	r := MRule{Method: pick(t, "method", methodPool...)}
	if n > 0 {
		r.Path = "/" + strings.Join(segs, "/")
	} else {
		r.Path = pick(t, "nopath", "", "/", "/")
	}
	if r.Path != "" && oneIn(t, "query", 2) {
		var ps []string
		for _, k := range shuffled(t, "params", paramPool)[:intIn(t, "nparam", 0, 3)] {
			v := put(pick(t, "pval", pvalPool...))
			if v == "%7Bs%7D" {
				v = put("{s}")
				res = append(res, "{s}")
			} else if isHolder(v) {
				res = append(res, v)
			}
			ps = append(ps, k+"="+url.QueryEscape(v))
			if oneIn(t, "plain", 2) && !strings.ContainsAny(v, " %") {
				ps[len(ps)-1] = k + "=" + v
			}
		}
		r.Path += "?" + strings.Join(ps, "&")
	}
	r.Action = pick(t, "action", "read", "act", "{x}", "update", "A")
	var sb strings.Builder
	for i, n := 0, intIn(t, "npiece", 1, 4); i < n; i++ {
		if len(res) > 0 && !oneIn(t, "lit", 3) {
			sb.WriteString(res[intIn(t, "ph", 0, len(res)-1)])
		} else {
			sb.WriteString(pick(t, "piece", "res", ":", "/", "{", "}", "{x}", "{w}", "-", "x", "日"))
		}
	}
	r.Resource = sb.String()
	return r
}

// genReqFor makes a request that matches the rule, or nearly.
func genReqFor(t *rapid.T, d string, r MRule) trReq {
	path, query, _ := strings.Cut(r.Path, "?")
	segs := strings.Split(path, "/")
	for i, s := range segs {
		if isHolder(s) {
			segs[i] = pick(t, "val", valuePool...)
		}
	}
	q := trReq{Domain: d, Method: flipCase(t, "case", r.Method)}
	var ps []string
	if query != "" {
		for _, kv := range strings.Split(query, "&") {
			k, v, _ := strings.Cut(kv, "=")
			if u, err := url.QueryUnescape(v); err == nil && isHolder(u) {
				v = url.QueryEscape(pick(t, "qval", valuePool...))
			}
			ps = append(ps, k+"="+v)
		}
		ps = shuffled(t, "order", ps)
	}
	switch intIn(t, "near", 0, 15) {
	case 0:
		segs = append(segs, pick(t, "extra", "", "a", "b"))
	case 1:
		if len(segs) > 1 {
			segs = segs[:len(segs)-1]
		}
	case 2:
		i := intIn(t, "i", 0, len(segs)-1)
		segs[i] = pick(t, "otherseg", segPool...)
	case 3:
		ps = append(ps, pick(t, "extraparam", "k=1", "n=1", "l=", "k", "K=1"))
	case 4:
		if len(ps) > 0 {
			ps = ps[1:]
		}
	case 5:
		if len(ps) > 0 {
			k, _, _ := strings.Cut(ps[0], "=")
			ps[0] = k + "=" + pick(t, "otherval", "1", "2", "x", "", "%7Bp%7D")
		}
	case 6:
		if len(ps) > 0 { // one parameter's name instead of another's
			ps[0] = pick(t, "otherkey", "n", "k", "l", "K") + ps[0][strings.IndexByte(ps[0], '='):]
		}
	case 7:
		q.Method = pick(t, "othermethod", methodPool...)
	case 8:
		if oneIn(t, "bad", 2) {
			ps = append(ps, pick(t, "badq", "%zz", "a;b", "k=%", "k=1;l=2", "%"))
		}
	case 9:
		if len(segs) > 1 {
			segs[len(segs)-1] = strings.ToUpper(segs[len(segs)-1])
		}
	case 10:
		if len(ps) > 0 {
			ps = append(ps, ps[0])
		}
	}
	q.Path, q.Query = strings.Join(segs, "/"), strings.Join(ps, "&")
	if oneIn(t, "wrap", 12) { // something around the query
		q.Query = pick(t, "wrapl", "?", "", "&", "#", " ") + q.Query + pick(t, "wrapr", "", "&", "#", "&&", "#f", " ")
	}
	return q
}

func genTrPlan(t *rapid.T) trPlan {
	p := trPlan{Rules: map[string][]MRule{}, Twice: oneIn(t, "twice", 4)}
	doms := []string{"dom", "dom2"}[:intIn(t, "ndom", 1, 2)]
	for _, d := range doms {
		rs := []MRule{}
		for i, n := 0, intIn(t, "nrule", 1, 4); i < n; i++ {
			r := genRule(t)
			if i > 0 && oneIn(t, "same", 2) { // overlapping an earlier rule
				o := rs[intIn(t, "as", 0, i-1)]
				r.Method = flipCase(t, "mcase", o.Method)
				if oneIn(t, "samepath", 2) {
					r.Path = o.Path
				}
			}
			rs = append(rs, r)
		}
		p.Rules[d] = rs
	}
	for i, n := 0, intIn(t, "nreq", 1, 6); i < n; i++ {
		d := pick(t, "dom", doms...)
		rs := p.Rules[d]
		q := genReqFor(t, d, rs[intIn(t, "rule", 0, len(rs)-1)])
		if oneIn(t, "otherdom", 8) {
			q.Domain = pick(t, "odom", "dom", "dom2", "Dom", "", "other")
		}
		p.Reqs = append(p.Reqs, q)
	}
	return p
}

func runTr(c *Case, p trPlan) error {
	if why := refRuleValid(p.Rules); why != "" {
		c.Label("invalid rules: %s", why)
		return nil
	}
	m, err := mapping(p.Rules)
	if p.Twice && err == nil {
		m, err = authorizerd.NewMappingRules(m.Rules)
	}
	if err != nil {
		return failf("rules %+v were refused: %v", p.Rules, err)
	}
	ask := func(q trReq) trOut {
		a, r, err := m.Translate(q.Domain, q.Method, q.Path, q.Query)
		if err != nil {
			return trOut{Err: true}
		}
		return trOut{Act: a, Res: r}
	}
	first := make([]trOut, len(p.Reqs))
	for i, q := range p.Reqs {
		want, rule, open := refTranslate(p.Rules[q.Domain], q.Method, q.Path, q.Query)
		got := ask(q)
		first[i] = got
		if open {
			c.Label("only determinism")
			if _, err := url.ParseQuery(q.Query); err != nil && !got.Err && got != (trOut{Act: q.Method, Res: q.Path}) {
				return failf("request %+v under %+v: translated to %+v although its query cannot be parsed", q, p.Rules[q.Domain], got)
			}
		} else if got != want {
			return failf("request %+v under %+v: got %+v, want %+v (rule %d)", q, p.Rules[q.Domain], got, want, rule)
		}
		if rule >= 0 {
			c.Label("rule matched")
			c.NonTrivial()
			if rule > 0 {
				c.Label("later rule matched")
			}
		} else {
			c.Label("no rule")
		}
		for n := 0; n < 8; n++ {
			if again := ask(q); again != got {
				return failf("request %+v under %+v: first %+v, then %+v", q, p.Rules[q.Domain], got, again)
			}
		}
	}
	var wg sync.WaitGroup
	errs := make([]error, 4)
	for g := range errs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := range p.Reqs {
				i := (n + g) % len(p.Reqs)
				if got := ask(p.Reqs[i]); got != first[i] {
					errs[g] = failf("request %+v: %+v alone, %+v concurrently", p.Reqs[i], first[i], got)
				}
			}
		}()
	}
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	return nil
}

type valPlan struct {
	Rules map[string][]MRule `json:"rules"`
}

func genValPlan(t *rapid.T) valPlan {
	if oneIn(t, "nil", 60) {
		return valPlan{}
	}
	p := valPlan{Rules: map[string][]MRule{}}
	for i, n := 0, intIn(t, "ndom", 0, 3); i < n; i++ {
		rs := []MRule{}
		for j, m := 0, intIn(t, "nrule", 0, 3); j < m; j++ {
			rs = append(rs, genRule(t))
		}
		p.Rules[fmt.Sprintf("dom%d", i)] = rs
	}
	if len(p.Rules) == 0 || oneIn(t, "leave", 4) {
		return p
	}
	d := pick(t, "where", sortedKeys(p.Rules)...)
	rs := p.Rules[d]
	switch intIn(t, "fault", 0, 2) {
	case 0:
		if oneIn(t, "which", 2) {
			p.Rules[""] = rs
		} else {
			p.Rules["nolist"] = nil
		}
		return p
	}
	if len(rs) == 0 {
		return p
	}
	r := &rs[intIn(t, "rule", 0, len(rs)-1)]
	switch intIn(t, "rfault", 0, 9) {
	case 0:
		r.Method = ""
	case 1:
		r.Action = ""
	case 2:
		r.Resource = ""
	case 3:
		r.Path = pick(t, "path", "a", "a/b", "?k=1", " /a", "{x}/a", "", "//", "https://x/")
	case 4:
		r.Path = pick(t, "path", "/{}", "/a/{}/b", "/{}/{}", "/a?k={}", "/{x}?k={}", "/a?k=%7B%7D", "/{ }", "/{}a", "/a{}", "/a?{}=1")
	case 5:
		r.Path = pick(t, "path", "/{x}/{x}", "/{x}?k={x}", "/a?k={x}&l={x}", "/{x}/a/{y}/{x}", "/{x}/{X}", "/{x}/x", "/a?{x}=1&k={x}", "/{x}?{x}=1", "/{x}?k=%7Bx%7D", "/%7Bx%7D/{x}", "/{x}?k=a{x}", "/a?k={x}&l={y}&m={x}")
	case 6:
		r.Path = pick(t, "path", "/a?k=1&k=1", "/a?k=1&k=2", "/a?k&k", "/a?k={x}&k={y}", "/a?k=1&K=1", "/a?k=1&l=1", "/a?k=1&k=", "/a?%6b=1&k=2", "/a?=1&=2", "/a?&", "/a?k=1&&l=2")
	case 7:
		r.Path = pick(t, "path", "/a?%zz", "/a?k=%", "/a?a;b", "/a?k=1;l=2", "/a?k=%2", "/a?k=%20", "/a?k=+", "/%zz", "/a?b?c=1", "/a?", "/a?k=1?", "/a#b?k=1")
	}
	return p
}

func runVal(c *Case, p valPlan) error {
	why := refRuleValid(p.Rules)
	for n := 0; n < 4; n++ {
		m, err := mapping(p.Rules)
		if (why == "") != (err == nil) {
			return failf("rules %s: reason to refuse them %q, error %v", jsonText(p.Rules), why, err)
		}
		if (err == nil) != (m != nil) {
			return failf("rules %s: result %v with error %v", jsonText(p.Rules), m, err)
		}
	}
	if why == "" {
		c.Label("accepted")
		for _, rs := range p.Rules {
			if len(rs) > 0 {
				c.NonTrivial()
			}
		}
	} else {
		c.Label("refused: %s", why)
		c.NonTrivial()
	}
	return nil
}

func init() {
	register(Sub{Prop: "C16", Name: "translate", Quick: 250000, Thorough: 6250000, NoBubble: true,
		Rule: "rule sets with overlapping rules, path and query placeholders, and requests made from a rule by filling placeholders with text that looks like placeholders, or one change away from it; each is asked ten times, also concurrently, and compared with a reference translator; non-trivial: some rule matches"},
		genTrPlan, runTr)
	register(Sub{Prop: "C17", Name: "validate", Quick: 300000, Thorough: 7500000, NoBubble: true,
		Rule: "valid rule sets and rule sets with one fault or near-fault; non-trivial: refused, or accepted with at least one rule"},
		genValPlan, runVal)
}
