package harness

import (
	"context"
	"net/url"
	"strings"
	"time"
	"unicode/utf8"

	"pgregory.net/rapid"

	"github.com/yahoojapan/athenz-authorizer/v5/policy"
)

const ztsURL = "zts.test/zts/v1"
const ztsBase = "https://zts.test/zts/v1"

func policyURL(dom string) string { return ztsBase + "/domain/" + dom + "/signed_policy_data" }
func serviceURL(sys, svc string) string {
	return ztsBase + "/domain/" + sys + "/service/" + svc
}
func athenzJwksURL() string { return ztsBase + "/oauth2/keys?rfc=true" }

// pick draws one element.
func pick[T any](t *rapid.T, label string, xs ...T) T { return rapid.SampledFrom(xs).Draw(t, label) }

// oneIn is true with probability about 1/n.
func oneIn(t *rapid.T, label string, n int) bool { return rapid.IntRange(0, n-1).Draw(t, label) == n-1 }

func intIn(t *rapid.T, label string, lo, hi int) int { return rapid.IntRange(lo, hi).Draw(t, label) }

func shuffled[T any](t *rapid.T, label string, xs []T) []T {
	out := append([]T(nil), xs...)
	for i := len(out) - 1; i > 0; i-- {
		j := rapid.IntRange(0, i).Draw(t, label)
		out[i], out[j] = out[j], out[i]
	}
	return out
}

var globRunesPool = []rune("aabbABz1019/:.-_^$|[]+\\(){}é日 ,=~")

func genLit(t *rapid.T, label string, max int) string {
	return rapid.StringOfN(rapid.SampledFrom(globRunesPool), 0, max, -1).Draw(t, label)
}

// globSnips are pieces of patterns with values that match them if they are taken for regular expressions.
var globSnips = [][2]string{{"a{2}", "aa"}, {"a{1,}", "aaa"}, {"b{0,3}", ""}, {"[a-z]", "m"}, {"[^a]", "b"}, {"(a|b)", "b"}, {"a|b", "a"}, {"a+", "aa"}, {"a.c", "abc"}, {"\\d", "7"}, {"\\.", "."}, {"\\", ""},
	{"\\Qa\\E", "a"}, {"(?i)a", "A"}, {"[[:alpha:]]", "q"}, {"a$", "a"}, {"^a", "a"}, {"(?:ab)", "ab"}, {"[a*]", "a"}, {"(a)*", "aa"}, {"\\x61", "a"}, {"\\pL", "b"}, {"{a,b}", "a"}, {"[!a]", "b"}, {"%2F", "/"}, {"\\*", "*"}, {"\\?", "?"}, {"[*]", "*"}, {"[?]", "?"}}

const globLong = "longer/than/anything/that/could/be/compared/at/once/0123456789/"

// genGlob draws a pattern.
func genGlob(t *rapid.T, label string, max int) string {
	n := intIn(t, label+"/n", 1, max)
	var sb strings.Builder
	if oneIn(t, label+"/long", 10) {
		sb.WriteString(globLong[:intIn(t, label+"/longn", 10, len(globLong))])
	}
	for i := 0; i < n; i++ {
		if oneIn(t, label+"/snip", 12) {
			sb.WriteString(pick(t, label+"/which", globSnips...)[0])
			continue
		}
		switch intIn(t, label+"/k", 0, 9) {
		case 0, 1:
			sb.WriteByte('*')
		case 2:
			sb.WriteByte('?')
		default:
			sb.WriteRune(pick(t, label+"/r", globRunesPool...))
		}
	}
	return sb.String()
}

// genMatching draws a value that matches the pattern, or nearly.
func genMatching(t *rapid.T, label, pat string) string {
	var sb strings.Builder
	if oneIn(t, label+"/re", 3) {
		// as if a piece were a regular expression
		for _, s := range globSnips {
			if strings.Contains(pat, s[0]) {
				pat = strings.Replace(pat, s[0], s[1], 1)
			}
		}
	}
	for _, r := range pat {
		switch r {
		case '*':
			if oneIn(t, label+"/huge", 60) {
				sb.WriteString(strings.Repeat(pick(t, label+"/hs", "a", "/b", "é", "aB1:"), pick(t, label+"/hn", 60, 300, 1100, 5000)))
			}
			sb.WriteString(genLit(t, label+"/s", 3))
		case '?':
			sb.WriteRune(pick(t, label+"/q", globRunesPool...))
		default:
			sb.WriteRune(r)
		}
	}
	v := []rune(sb.String())
	switch intIn(t, label+"/mut", 0, 9) {
	case 0: // lose a character
		if len(v) > 0 {
			i := intIn(t, label+"/i", 0, len(v)-1)
			v = append(v[:i:i], v[i+1:]...)
		}
	case 1: // something before
		v = append([]rune{pick(t, label+"/b", globRunesPool...)}, v...)
	case 2: // something after
		v = append(v, pick(t, label+"/a", globRunesPool...))
	case 3: // replace one character
		if len(v) > 0 {
			v[intIn(t, label+"/i", 0, len(v)-1)] = pick(t, label+"/c", globRunesPool...)
		}
	case 4, 5: // other case
		if oneIn(t, label+"/up", 2) {
			v = []rune(strings.ToUpper(string(v)))
		} else {
			v = []rune(strings.ToLower(string(v)))
		}
	case 6:
		if oneIn(t, label+"/nl", 8) {
			v = append(v, '\n')
		}
	}
	return string(v)
}

// flipCase returns s with another letter case.
func flipCase(t *rapid.T, label, s string) string {
	switch intIn(t, label, 0, 2) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToLower(s)
	}
	return s
}

func genEffect(t *rapid.T, label string) string {
	if oneIn(t, label, 3) {
		return pick(t, label+"/d", "DENY", "deny", "Deny", "dENY")
	}
	return pick(t, label+"/a", "ALLOW", "allow", "Allow")
}

// policyDaemon builds a policy daemon over the fake network.
func policyDaemon(n *Net, opts ...policy.Option) policy.Daemon {
	base := []policy.Option{
		policy.WithAthenzURL(ztsURL),
		policy.WithHTTPClient(n.client()),
		policy.WithPubKeyProvider(stdRing().provider()),
		policy.WithRetryDelay("1s"),
	}
	return lib(policy.New(append(base, opts...)...))
}

// serveDocs makes the network serve the documents, freshly signed per request.
func serveDocs(n *Net, docs []Doc) {
	for _, d := range docs {
		d := d
		n.handle(policyURL(d.Domain), func(*httpRequest) *Resp { return &Resp{Status: 200, Body: docBody(d)} })
	}
}

func docDomains(docs []Doc) []string {
	var out []string
	for _, d := range docs {
		out = append(out, d.Domain)
	}
	return out
}

// Check is one decision request.
type Check struct {
	Domain string   `json:"d"`
	Roles  []string `json:"r"`
	Act    string   `json:"a"`
	Res    string   `json:"s"`
}

func withTimeout(ctx context.Context, d time.Duration) context.Context {
	c, cancel := context.WithTimeout(ctx, d)
	_ = cancel
	return c
}

// nearKinds is the number of ways to almost spell a text.
const nearKinds = 26

// nearAt is a text that careless handling would take for s.
func nearAt(kind, pos int, s string) string {
	cut := 0
	if len(s) > 0 {
		cut = pos % len(s)
		for cut > 0 && !utf8.RuneStart(s[cut]) {
			cut--
		}
	}
	switch kind {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToLower(s)
	case 2:
		return " " + s
	case 3:
		return s + " "
	case 4:
		return s + "\t"
	case 5:
		return s + "x"
	case 6:
		return "x" + s
	case 7:
		return s[:cut]
	case 8:
		return s[cut:]
	case 9:
		return s + "="
	case 10:
		return s + "\x00"
	case 11:
		return s + "/"
	case 12:
		return s + "."
	case 13:
		return s + "," + s
	case 14:
		return url.QueryEscape(s)
	case 15:
		return url.PathEscape(s + " ")
	case 16:
		if u, err := url.PathUnescape(s); err == nil {
			return u
		}
		return s
	case 17:
		return strings.NewReplacer("-", "+", "_", "/", "+", "-", "/", "_").Replace(s)
	case 18: // letters that fold to ASCII ones
		return strings.NewReplacer("s", "\u017f", "k", "\u212a").Replace(s)
	case 19:
		return strings.ReplaceAll(s, ".", "-")
	case 20:
		return strings.ReplaceAll(s, "/", "//")
	case 21:
		return `"` + s + `"`
	case 22:
		return "*"
	case 23:
		return s[:cut] + "*"
	case 24:
		return s[:cut] + "?" + s[min(len(s), cut+1):]
	case 25: // one letter in the other case
		for i := 0; i < len(s); i++ {
			j := (cut + i) % len(s)
			c := s[j]
			if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' {
				return s[:j] + string(c^0x20) + s[j+1:]
			}
		}
	}
	return s
}

// near draws a text that careless handling would take for s.
func near(t *rapid.T, label, s string) string {
	return nearAt(intIn(t, label, 0, nearKinds-1), intIn(t, label+"/p", 0, 99), s)
}

// maybeNear is usually s.
func maybeNear(t *rapid.T, label, s string, one int) string {
	if oneIn(t, label+"?", one) {
		return near(t, label, s)
	}
	return s
}
