From f83a48cfa8ce93589c0ef169d3902a075f1a62a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:08 +0000
Subject: [PATCH 01/18] fix: keep a deny assertion when policies are simplified
 in parallel

The check-then-store on the shared assertion map let an allow assertion of one
policy overwrite a deny assertion that another policy's goroutine had just
stored, so a denied request was granted until the next refresh.
---
 policy/daemon.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/policy/daemon.go b/policy/daemon.go
index a64979e..ab158a5 100644
--- a/policy/daemon.go
+++ b/policy/daemon.go
@@ -334,13 +334,12 @@ func simplifyAndCachePolicy(ctx context.Context, rp gache.Gache, sp *SignedPolic
 					return ctx.Err()
 				default:
 					km := fmt.Sprintf("%s,%s,%s", ass.Role, ass.Action, ass.Resource)
-					if _, ok := assm.Load(km); !ok {
+					// deny policy will override allow policy, and also remove duplication
+					if strings.EqualFold("deny", ass.Effect) {
 						assm.Store(km, ass)
 					} else {
-						// deny policy will override allow policy, and also remove duplication
-						if strings.EqualFold("deny", ass.Effect) {
-							assm.Store(km, ass)
-						}
+						// policies are simplified in parallel, never overwrite an assertion (i.e. deny) stored by others
+						assm.LoadOrStore(km, ass)
 					}
 				}
 			}
-- 
2.43.0


From bb0b3ca22812ca5f26b920433c339396c1bd7378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:54 +0000
Subject: [PATCH 02/18] fix: never cache an already expired signed policy

When a domain cannot be fetched its last signed policy is cached again. Once that
policy had expired, its assertions were stored with a negative expiration, which
gache treats as no expiration, so they kept granting access for good.
---
 policy/daemon.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/policy/daemon.go b/policy/daemon.go
index ab158a5..5c3a29a 100644
--- a/policy/daemon.go
+++ b/policy/daemon.go
@@ -355,6 +355,11 @@ func simplifyAndCachePolicy(ctx context.Context, rp gache.Gache, sp *SignedPolic
 	// cache
 	var retErr error
 	now := fastime.Now()
+	// the signed policy may be a cached one, never cache expired assertions (non-positive expiration means no expiration)
+	if expires := sp.DomainSignedPolicyData.SignedPolicyData.Expires; expires != nil && !expires.After(now) {
+		glg.Warnf("policy already expired at %s, will not be cached", expires.String())
+		return nil
+	}
 	assm.Range(func(k interface{}, val interface{}) bool {
 		ass := val.(*util.Assertion)
 		a, err := NewAssertion(ass.Action, ass.Resource, ass.Effect)
-- 
2.43.0


From 0a60389f8ee44e035b67e1d6776518394e79a71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:19 +0000
Subject: [PATCH 03/18] fix: swap in a complete policy cache when cached
 policies expire

The expired hook fetched the policy once per expired role and merged every copy
into the live cache, so checks saw half-replaced policies, assertions of different
revisions piled up, and a role of a domain that is not configured made the hook
dereference a nil fetcher. Refresh once per expiry and swap the cache instead.
---
 policy/daemon.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/policy/daemon.go b/policy/daemon.go
index 5c3a29a..4c78484 100644
--- a/policy/daemon.go
+++ b/policy/daemon.go
@@ -184,11 +184,19 @@ func (p *policyd) Update(ctx context.Context) error {
 		return err
 	}
 
+	var updating int32
 	rp.StartExpired(ctx, p.purgePeriod).
 		EnableExpiredHook().
-		SetExpiredHook(func(ctx context.Context, key string) {
-			// key = <domain>:role.<role>
-			fetchAndCachePolicy(ctx, *(p.rolePolicies), p.fetchers[strings.Split(key, ":role.")[0]])
+		SetExpiredHook(func(_ context.Context, key string) {
+			// key = <domain>:role.<role>, roles of the same policy expire together
+			if !atomic.CompareAndSwapInt32(&updating, 0, 1) {
+				return
+			}
+			// checks in progress should see either all or none of the new policies, so do not modify the effective cache
+			if err := p.Update(ctx); err != nil {
+				glg.Errorf("update expired policy fail, key: %s, error: %v", key, err)
+				atomic.StoreInt32(&updating, 0)
+			}
 		})
 
 	// swap pointer
-- 
2.43.0


From 75c42530e604c6b474a75b372478db06ae099fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:48 +0000
Subject: [PATCH 04/18] fix: tell assertions apart whose parts contain commas

---
 policy/daemon.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/policy/daemon.go b/policy/daemon.go
index 4c78484..b6d985e 100644
--- a/policy/daemon.go
+++ b/policy/daemon.go
@@ -341,7 +341,8 @@ func simplifyAndCachePolicy(ctx context.Context, rp gache.Gache, sp *SignedPolic
 				case <-ctx.Done():
 					return ctx.Err()
 				default:
-					km := fmt.Sprintf("%s,%s,%s", ass.Role, ass.Action, ass.Resource)
+					// quoted, as any part may contain the separator
+					km := fmt.Sprintf("%q,%q,%q", ass.Role, ass.Action, ass.Resource)
 					// deny policy will override allow policy, and also remove duplication
 					if strings.EqualFold("deny", ass.Effect) {
 						assm.Store(km, ass)
-- 
2.43.0


From 43b92343ce19f838dba63f29c6fbe224bf70c39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:05 +0000
Subject: [PATCH 05/18] fix: never answer a request with the cached result of a
 different one

---
 authorizerd.go | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/authorizerd.go b/authorizerd.go
index 954c4ac..8e76a16 100644
--- a/authorizerd.go
+++ b/authorizerd.go
@@ -18,7 +18,9 @@ package authorizerd
 
 import (
 	"context"
+	"crypto/sha256"
 	"crypto/x509"
+	"encoding/hex"
 	"fmt"
 	"net/http"
 	"strings"
@@ -124,6 +126,9 @@ const (
 	accessToken
 )
 
+// cacheKeyEscaper keeps the delimiter out of the parts of a cache key, so that different parts never make the same key.
+var cacheKeyEscaper = strings.NewReplacer(`\`, `\\`, string(cacheKeyDelimiter), `\`+string(cacheKeyDelimiter))
+
 // New creates the Authorizerd object with the options
 func New(opts ...Option) (Authorizerd, error) {
 	var (
@@ -366,13 +371,20 @@ func (a *authority) AuthorizeAccessToken(ctx context.Context, tok, act, res stri
 
 func (a *authority) authorize(ctx context.Context, m mode, tok, act, res, query string, cert *x509.Certificate) (Principal, error) {
 	var key strings.Builder
-	key.WriteString(tok)
+	keyTok := cacheKeyEscaper.Replace(tok)
+	key.WriteString(keyTok)
 
 	if cert != nil {
 		key.WriteRune(cacheKeyDelimiter)
-		key.WriteString(cert.Issuer.CommonName)
+		key.WriteString(cacheKeyEscaper.Replace(cert.Issuer.CommonName))
 		key.WriteRune(cacheKeyDelimiter)
-		key.WriteString(cert.Subject.CommonName)
+		key.WriteString(cacheKeyEscaper.Replace(cert.Subject.CommonName))
+		if len(cert.Raw) > 0 {
+			// the names alone do not identify the certificate
+			sum := sha256.Sum256(cert.Raw)
+			key.WriteString(`\#`)
+			key.WriteString(hex.EncodeToString(sum[:]))
+		}
 	}
 
 	if !a.disablePolicyd {
@@ -380,20 +392,25 @@ func (a *authority) authorize(ctx context.Context, m mode, tok, act, res, query
 			return nil, errors.Wrap(ErrInvalidParameters, "empty action / resource")
 		}
 		key.WriteRune(cacheKeyDelimiter)
-		key.WriteString(act)
+		key.WriteString(cacheKeyEscaper.Replace(act))
 		key.WriteRune(cacheKeyDelimiter)
-		key.WriteString(res)
+		key.WriteString(cacheKeyEscaper.Replace(res))
 		if query != "" && a.translator != nil {
 			key.WriteRune(cacheKeyDelimiter)
-			key.WriteString(query)
+			key.WriteString(cacheKeyEscaper.Replace(query))
 		}
 	}
 
 	// check if exists in verification success cache
 	cached, ok := a.cache.Get(key.String())
+	if ok {
+		// a result of the other token type does not count
+		_, isAccessToken := cached.(*oAuthAccessToken)
+		ok = isAccessToken == (m == accessToken)
+	}
 	if ok {
 		glg.DebugFunc(func() string {
-			return fmt.Sprintf("use cached result. masked tok: %s, masked key: %s", maskToken(m, tok), maskCacheKey(key.String(), tok))
+			return fmt.Sprintf("use cached result. masked tok: %s, masked key: %s", maskToken(m, tok), maskCacheKey(key.String(), keyTok))
 		})
 		return cached.(Principal), nil
 	}
@@ -466,7 +483,7 @@ func (a *authority) authorize(ctx context.Context, m mode, tok, act, res, query
 	}
 
 	glg.DebugFunc(func() string {
-		return fmt.Sprintf("set token result. masked tok: %s, masked key: %s, act: %s, res: %s", maskToken(m, tok), maskCacheKey(key.String(), tok), act, res)
+		return fmt.Sprintf("set token result. masked tok: %s, masked key: %s, act: %s, res: %s", maskToken(m, tok), maskCacheKey(key.String(), keyTok), act, res)
 	})
 	a.cache.SetWithExpire(key.String(), p, a.cacheExp)
 	return p, nil
-- 
2.43.0


From ccadc9270aa46b6c2b888205e5a663254b38be36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:22 +0000
Subject: [PATCH 06/18] fix: replace mapping placeholders simultaneously

---
 translator.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/translator.go b/translator.go
index 65813d8..c5c5855 100644
--- a/translator.go
+++ b/translator.go
@@ -20,6 +20,7 @@ import (
 	"errors"
 	"fmt"
 	"net/url"
+	"sort"
 	"strings"
 )
 
@@ -177,11 +178,17 @@ OUTER:
 				}
 			}
 
-			replacedRes := rule.Resource
-			for placeholder, v := range placeholderMap {
-				replacedRes = strings.ReplaceAll(replacedRes, placeholder, v)
+			// replace all placeholders in one pass, so that text taken from the request is never taken for a placeholder
+			placeholders := make([]string, 0, len(placeholderMap))
+			for placeholder := range placeholderMap {
+				placeholders = append(placeholders, placeholder)
 			}
-			return rule.Action, replacedRes, nil
+			sort.Sort(sort.Reverse(sort.StringSlice(placeholders)))
+			oldnew := make([]string, 0, 2*len(placeholders))
+			for _, placeholder := range placeholders {
+				oldnew = append(oldnew, placeholder, placeholderMap[placeholder])
+			}
+			return rule.Action, strings.NewReplacer(oldnew...).Replace(rule.Resource), nil
 		}
 	}
 	return method, path, nil
-- 
2.43.0


From 34c7e06b611a86f3b5b93337a3117b6ad1322b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:14 +0000
Subject: [PATCH 07/18] fix: do not drop a role whose name joins with another
 domain to the same text

---
 authorizerd.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/authorizerd.go b/authorizerd.go
index 8e76a16..a1305a4 100644
--- a/authorizerd.go
+++ b/authorizerd.go
@@ -521,7 +521,7 @@ func (a *authority) VerifyRoleCert(ctx context.Context, peerCerts []*x509.Certif
 		return nil
 	}
 
-	drcheck := make(map[string]struct{})
+	drcheck := make(map[[2]string]struct{})
 	domainRoles := make(map[string][]string)
 	addDomainRoles := func(dr []string) {
 		if len(dr) != 2 {
@@ -529,9 +529,9 @@ func (a *authority) VerifyRoleCert(ctx context.Context, peerCerts []*x509.Certif
 		}
 		domain, roleName := dr[0], dr[1]
 		// duplicated role check
-		if _, ok := drcheck[domain+roleName]; !ok {
+		if _, ok := drcheck[[2]string{domain, roleName}]; !ok {
 			domainRoles[domain] = append(domainRoles[domain], roleName)
-			drcheck[domain+roleName] = struct{}{}
+			drcheck[[2]string{domain, roleName}] = struct{}{}
 		}
 	}
 
-- 
2.43.0


From 96c2e45fd88d0d3aca6c70f8f0455eb041f5476a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:51 +0000
Subject: [PATCH 08/18] fix: survive unsolicited 304 and null public key
 responses

---
 pubkey/daemon.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pubkey/daemon.go b/pubkey/daemon.go
index 7be03ca..2c48edc 100644
--- a/pubkey/daemon.go
+++ b/pubkey/daemon.go
@@ -169,6 +169,10 @@ func (p *pubkeyd) Update(ctx context.Context) error {
 		}
 
 		for _, key := range pubKeys.PublicKeys {
+			if key == nil {
+				glg.Errorf("empty key entry, env: %v", env)
+				return errors.Wrap(ErrFetchAthenzPubkey, "empty key entry")
+			}
 			glg.Debugf("Decoding key, env: %v, keyID: %v", env, key.ID)
 			decKey, err := dec.DecodeString(key.Key)
 			if err != nil {
@@ -256,6 +260,10 @@ func (p *pubkeyd) fetchPubKeyEntries(ctx context.Context, env AthenzEnv) (*SysAu
 
 	// if server return NotModified, return policy from cache
 	if r.StatusCode == http.StatusNotModified {
+		if !ok {
+			glg.Error("Server return not modified without ETag in the request")
+			return nil, false, errors.Wrap(ErrFetchAthenzPubkey, "http return status not modified without ETag in the request")
+		}
 		cache := t.(*confCache)
 		glg.Debugf("Server return not modified, ETag: %s", cache.eTag)
 		return cache.sac, false, nil
@@ -272,6 +280,10 @@ func (p *pubkeyd) fetchPubKeyEntries(ctx context.Context, env AthenzEnv) (*SysAu
 		glg.Errorf("Error decoding public key entries, err: %v", err)
 		return nil, false, errors.Wrap(err, "json format not correct")
 	}
+	if sac == nil {
+		glg.Error("Error decoding public key entries, no entry")
+		return nil, false, errors.Wrap(ErrFetchAthenzPubkey, "json format not correct")
+	}
 
 	if _, err = io.Copy(ioutil.Discard, r.Body); err != nil {
 		glg.Warn(errors.Wrap(err, "error io.copy"))
-- 
2.43.0


From 89b5bbc01c1884592a2d9377758d3a5926d294fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:48 +0000
Subject: [PATCH 09/18] fix: forget the ETag of public keys that are not in use

---
 pubkey/daemon.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pubkey/daemon.go b/pubkey/daemon.go
index 2c48edc..3a121ee 100644
--- a/pubkey/daemon.go
+++ b/pubkey/daemon.go
@@ -168,6 +168,14 @@ func (p *pubkeyd) Update(ctx context.Context) error {
 			return nil
 		}
 
+		// the ETag is valid only together with the keys
+		decoded := false
+		defer func() {
+			if _, ok := p.eTagCache.Get(string(env)); ok && !decoded {
+				p.eTagCache.Delete(string(env))
+			}
+		}()
+
 		for _, key := range pubKeys.PublicKeys {
 			if key == nil {
 				glg.Errorf("empty key entry, env: %v", env)
@@ -187,6 +195,7 @@ func (p *pubkeyd) Update(ctx context.Context) error {
 			cm.Store(key.ID, ver)
 			glg.Debugf("Successfully decode key, env: %v, keyID: %v", env, key.ID)
 		}
+		decoded = true
 		cm.Range(func(key interface{}, val interface{}) bool {
 			cache.Store(key, val)
 			return true
@@ -297,6 +306,9 @@ func (p *pubkeyd) fetchPubKeyEntries(ctx context.Context, env AthenzEnv) (*SysAu
 	if eTag != "" {
 		glg.Debugf("Setting ETag %v", eTag)
 		p.eTagCache.SetWithExpire(string(env), &confCache{eTag, sac}, p.eTagExpiry)
+	} else if ok {
+		// the cached ETag belongs to the previous entries
+		p.eTagCache.Delete(string(env))
 	}
 
 	glg.Info("Fetch public key entries success")
-- 
2.43.0


From 76ef4cb8e474177c583766823c4e05e3e811f4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:05 +0000
Subject: [PATCH 10/18] fix: survive unsolicited 304, null and incomplete
 policy responses

---
 policy/daemon.go        | 14 +++++++++++++-
 policy/fetcher.go       |  5 +++++
 policy/signed_policy.go |  3 ++-
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/policy/daemon.go b/policy/daemon.go
index b6d985e..83381a8 100644
--- a/policy/daemon.go
+++ b/policy/daemon.go
@@ -95,7 +95,13 @@ func New(opts ...Option) (Daemon, error) {
 			retryAttempts: p.retryAttempts,
 			athenzURL:     p.athenzURL,
 			spVerifier: func(sp *SignedPolicy) error {
-				return sp.Verify(p.pkp)
+				if err := sp.Verify(p.pkp); err != nil {
+					return err
+				}
+				if sp.SignedPolicyData.PolicyData == nil {
+					return errors.New("no policy data")
+				}
+				return nil
 			},
 			client: p.client,
 		}
@@ -334,6 +340,9 @@ func simplifyAndCachePolicy(ctx context.Context, rp gache.Gache, sp *SignedPolic
 
 	// simplify signed policy cache
 	for _, policy := range sp.DomainSignedPolicyData.SignedPolicyData.PolicyData.Policies {
+		if policy == nil {
+			continue
+		}
 		pol := policy
 		eg.Go(func() error {
 			for _, ass := range pol.Assertions {
@@ -341,6 +350,9 @@ func simplifyAndCachePolicy(ctx context.Context, rp gache.Gache, sp *SignedPolic
 				case <-ctx.Done():
 					return ctx.Err()
 				default:
+					if ass == nil {
+						continue
+					}
 					// quoted, as any part may contain the separator
 					km := fmt.Sprintf("%q,%q,%q", ass.Role, ass.Action, ass.Resource)
 					// deny policy will override allow policy, and also remove duplication
diff --git a/policy/fetcher.go b/policy/fetcher.go
index 49c363d..972e307 100644
--- a/policy/fetcher.go
+++ b/policy/fetcher.go
@@ -110,6 +110,11 @@ func (f *fetcher) Fetch(ctx context.Context) (*SignedPolicy, error) {
 
 	// if server responses NotModified, return policy from cache
 	if res.StatusCode == http.StatusNotModified {
+		if tp == nil {
+			errMsg := "fetch policy HTTP response = 304 not modified, but no policy cache"
+			glg.Errorf("%s, domain: %s", errMsg, f.domain)
+			return nil, errors.Wrap(ErrFetchPolicy, errMsg)
+		}
 		glg.Debugf("policy = 304 not modified, use cache for domain: %s, ETag: %v", f.domain, tp.eTag)
 		return tp.sp, nil
 	}
diff --git a/policy/signed_policy.go b/policy/signed_policy.go
index 73b9690..b300547 100644
--- a/policy/signed_policy.go
+++ b/policy/signed_policy.go
@@ -35,7 +35,8 @@ type SignedPolicy struct {
 // Verify verifies the signed policy and return any errors
 func (s *SignedPolicy) Verify(pkp pubkey.Provider) error {
 
-	if s.SignedPolicyData == nil {
+	// when the response is null, s is nil
+	if s == nil || s.SignedPolicyData == nil {
 		return errors.New("no policy data")
 	}
 
-- 
2.43.0


From 8d731e787bdb93fa32fa4e4d60c73d14e3bac32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:16 +0000
Subject: [PATCH 11/18] fix: close the response body also when a refresh fails

---
 policy/fetcher.go |  8 ++++----
 pubkey/daemon.go  | 15 ++++++++-------
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/policy/fetcher.go b/policy/fetcher.go
index 972e307..d682fbd 100644
--- a/policy/fetcher.go
+++ b/policy/fetcher.go
@@ -193,11 +193,11 @@ func flushAndClose(rc io.ReadCloser) error {
 	if rc != nil {
 		// flush
 		_, err := io.Copy(ioutil.Discard, rc)
-		if err != nil {
-			return err
+		// close, even if the flush failed
+		if cerr := rc.Close(); err == nil {
+			err = cerr
 		}
-		// close
-		return rc.Close()
+		return err
 	}
 	return nil
 }
diff --git a/pubkey/daemon.go b/pubkey/daemon.go
index 3a121ee..b86a134 100644
--- a/pubkey/daemon.go
+++ b/pubkey/daemon.go
@@ -266,6 +266,14 @@ func (p *pubkeyd) fetchPubKeyEntries(ctx context.Context, env AthenzEnv) (*SysAu
 		glg.Errorf("Error making HTTP request, error: %v", err)
 		return nil, false, errors.Wrap(err, "error make http request")
 	}
+	defer func() {
+		if _, err := io.Copy(ioutil.Discard, r.Body); err != nil {
+			glg.Warn(errors.Wrap(err, "error io.copy"))
+		}
+		if err := r.Body.Close(); err != nil {
+			glg.Warn(errors.Wrap(err, "error body.close"))
+		}
+	}()
 
 	// if server return NotModified, return policy from cache
 	if r.StatusCode == http.StatusNotModified {
@@ -294,13 +302,6 @@ func (p *pubkeyd) fetchPubKeyEntries(ctx context.Context, env AthenzEnv) (*SysAu
 		return nil, false, errors.Wrap(ErrFetchAthenzPubkey, "json format not correct")
 	}
 
-	if _, err = io.Copy(ioutil.Discard, r.Body); err != nil {
-		glg.Warn(errors.Wrap(err, "error io.copy"))
-	}
-	if err = r.Body.Close(); err != nil {
-		glg.Warn(errors.Wrap(err, "error body.close"))
-	}
-
 	// set eTag cache
 	eTag := r.Header.Get("ETag")
 	if eTag != "" {
-- 
2.43.0


From 812d0d7cc81ee52d3a8127677ba041519ebd872b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:59 +0000
Subject: [PATCH 12/18] fix: return a readable response body from the retrying
 transport

The body of every successful response was drained and closed before the
response was returned, so no caller could read it.
---
 client/exp_rt.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/client/exp_rt.go b/client/exp_rt.go
index 0eba7db..9e3c538 100644
--- a/client/exp_rt.go
+++ b/client/exp_rt.go
@@ -17,8 +17,6 @@ limitations under the License.
 package client
 
 import (
-	"io"
-	"io/ioutil"
 	"math"
 	"net/http"
 	"time"
@@ -81,9 +79,7 @@ func (p *ExponentialRoundTripper) RoundTrip(req *http.Request) (*http.Response,
 			continue
 		}
 
-		// response success
-		io.Copy(ioutil.Discard, resp.Body)
-		resp.Body.Close()
+		// response success, the body is consumed and closed by the caller
 		return resp, nil
 	}
 
-- 
2.43.0


From f1d079e4cf44769d6619d76aa8b1f4ad1065dd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:21 +0000
Subject: [PATCH 13/18] fix: close the bodies of responses the retrying
 transport discards

---
 client/exp_rt.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/client/exp_rt.go b/client/exp_rt.go
index 9e3c538..2dee1eb 100644
--- a/client/exp_rt.go
+++ b/client/exp_rt.go
@@ -17,6 +17,8 @@ limitations under the License.
 package client
 
 import (
+	"io"
+	"io/ioutil"
 	"math"
 	"net/http"
 	"time"
@@ -76,6 +78,11 @@ func (p *ExponentialRoundTripper) RoundTrip(req *http.Request) (*http.Response,
 		}
 
 		if responseRetriable(resp) {
+			if cnt+1 < p.maxRetryCount {
+				// the response is discarded
+				io.Copy(ioutil.Discard, resp.Body)
+				resp.Body.Close()
+			}
 			continue
 		}
 
-- 
2.43.0


From 9aa8ea1b0ec5d5cd1977e0a83bdb97a81ee3c9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:15 +0000
Subject: [PATCH 14/18] fix: empty the cache on shutdown without racing
 requests in progress

---
 authorizerd.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/authorizerd.go b/authorizerd.go
index a1305a4..9fac584 100644
--- a/authorizerd.go
+++ b/authorizerd.go
@@ -325,7 +325,11 @@ func (a *authority) Start(ctx context.Context) <-chan error {
 			select {
 			case <-ctx.Done():
 				g.Stop()
-				g.Clear()
+				// gache's Clear replaces its shards while requests and its own expiry may still read them
+				g.Foreach(context.Background(), func(key string, _ interface{}, _ int64) bool {
+					g.Delete(key)
+					return true
+				})
 				ech <- ctx.Err()
 				return
 			case err := <-cech:
-- 
2.43.0


From a9cdbb6024c2e419efb1feebc05fbbeca71c64b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:15 +0000
Subject: [PATCH 15/18] fix: read the cached policy of a fetcher atomically

---
 policy/fetcher.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/policy/fetcher.go b/policy/fetcher.go
index d682fbd..a0ad896 100644
--- a/policy/fetcher.go
+++ b/policy/fetcher.go
@@ -87,9 +87,8 @@ func (f *fetcher) Fetch(ctx context.Context) (*SignedPolicy, error) {
 	}
 
 	// ETag header
-	var tp *taggedPolicy
-	if f.policyCache != nil {
-		tp = (*taggedPolicy)(atomic.LoadPointer(&f.policyCache))
+	tp := (*taggedPolicy)(atomic.LoadPointer(&f.policyCache))
+	if tp != nil {
 		if tp.eTag != "" && tp.eTagExpiry.After(fastime.Now()) {
 			glg.Debugf("request on domain: %s, with ETag: %s", f.domain, tp.eTag)
 			req.Header.Set("If-None-Match", tp.eTag)
@@ -173,10 +172,11 @@ func (f *fetcher) FetchWithRetry(ctx context.Context) (*SignedPolicy, error) {
 	if lastErr == nil {
 		lastErr = fmt.Errorf("retryAttempts %v", f.retryAttempts)
 	}
-	if f.policyCache == nil {
+	tp := (*taggedPolicy)(atomic.LoadPointer(&f.policyCache))
+	if tp == nil {
 		return nil, errors.Wrap(errors.Wrap(lastErr, errMsg), "no policy cache")
 	}
-	return (*taggedPolicy)(atomic.LoadPointer(&f.policyCache)).sp, errors.Wrap(lastErr, errMsg)
+	return tp.sp, errors.Wrap(lastErr, errMsg)
 }
 
 func (t *taggedPolicy) String() string {
-- 
2.43.0


From dec15d9cbea949c269ee30466feee45da91e8e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:30 +0000
Subject: [PATCH 16/18] fix: disable log colours once instead of at every
 policy update, where it races

---
 policy/daemon.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/policy/daemon.go b/policy/daemon.go
index 83381a8..197fa2d 100644
--- a/policy/daemon.go
+++ b/policy/daemon.go
@@ -72,8 +72,12 @@ type policyd struct {
 	fetchers map[string]Fetcher // used for concurrent read, should never be updated
 }
 
+// disableLogColor guards the logger setting shared by the whole process.
+var disableLogColor sync.Once
+
 // New represent the constructor of Policyd
 func New(opts ...Option) (Daemon, error) {
+	disableLogColor.Do(func() { glg.Get().DisableColor() })
 	g := gache.New()
 	p := &policyd{
 		rolePolicies: &g,
@@ -160,7 +164,6 @@ func (p *policyd) Start(ctx context.Context) <-chan error {
 
 // Update updates and cache policy data
 func (p *policyd) Update(ctx context.Context) error {
-	glg.Get().DisableColor()
 	jobID := fastime.Now().Unix()
 	glg.Infof("[%d] will update policy", jobID)
 	eg := errgroup.Group{}
-- 
2.43.0


From cadf95c89bc398db129129a67d4192e2779ccad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:30 +0000
Subject: [PATCH 17/18] fix: read the effective policy cache atomically when
 logging its swap

---
 policy/daemon.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/policy/daemon.go b/policy/daemon.go
index 197fa2d..1ef3d7e 100644
--- a/policy/daemon.go
+++ b/policy/daemon.go
@@ -209,14 +209,16 @@ func (p *policyd) Update(ctx context.Context) error {
 		})
 
 	// swap pointer
+	curRpPtrPtr := (*unsafe.Pointer)(unsafe.Pointer(&p.rolePolicies))
 	glg.DebugFunc(func() string {
-		return fmt.Sprintf("cache before swap, old: %p %v; new: %p %v", *p.rolePolicies, (*p.rolePolicies).Len(), rp, rp.Len())
+		curRp := *(*gache.Gache)(atomic.LoadPointer(curRpPtrPtr))
+		return fmt.Sprintf("cache before swap, old: %p %v; new: %p %v", curRp, curRp.Len(), rp, rp.Len())
 	})
-	curRpPtrPtr := (*unsafe.Pointer)(unsafe.Pointer(&p.rolePolicies))
 	oldRpPtr := (*gache.Gache)(atomic.SwapPointer(curRpPtrPtr, unsafe.Pointer(&rp)))
 	glg.Debugf("tmp cache becomes effective")
 	glg.DebugFunc(func() string {
-		return fmt.Sprintf("cache after swap, old: %p %v; new: %p %v", *p.rolePolicies, (*p.rolePolicies).Len(), *oldRpPtr, (*oldRpPtr).Len())
+		curRp := *(*gache.Gache)(atomic.LoadPointer(curRpPtrPtr))
+		return fmt.Sprintf("cache after swap, old: %p %v; new: %p %v", curRp, curRp.Len(), *oldRpPtr, (*oldRpPtr).Len())
 	})
 	(*oldRpPtr).Stop()
 
-- 
2.43.0


From ff329acf89a46212c3c2b4a1c0ef18ad568ce698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:58 +0000
Subject: [PATCH 18/18] fix: a policy cache replaced by an overlapping update
 kept its purge loop

gache's Stop does nothing before the goroutine started by StartExpired runs, so a cache swapped
out at once by another update was purged, and its policies fetched again, until the end.
---
 policy/daemon.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/policy/daemon.go b/policy/daemon.go
index 1ef3d7e..8809423 100644
--- a/policy/daemon.go
+++ b/policy/daemon.go
@@ -45,6 +45,18 @@ type Daemon interface {
 	GetPolicyCache(context.Context) map[string]interface{}
 }
 
+// purgedCache is a cache whose purge can be stopped at any time: gache's Stop has no effect until the goroutine started by StartExpired runs,
+// which may be after the cache is replaced by an overlapping update.
+type purgedCache struct {
+	gache.Gache
+	stopPurge context.CancelFunc
+}
+
+// Stop stops the purge.
+func (c *purgedCache) Stop() {
+	c.stopPurge()
+}
+
 type roleEffect struct {
 	Role   string
 	Effect error
@@ -193,8 +205,10 @@ func (p *policyd) Update(ctx context.Context) error {
 		return err
 	}
 
+	purgeCtx, stopPurge := context.WithCancel(ctx)
+	rp = &purgedCache{Gache: rp, stopPurge: stopPurge}
 	var updating int32
-	rp.StartExpired(ctx, p.purgePeriod).
+	rp.StartExpired(purgeCtx, p.purgePeriod).
 		EnableExpiredHook().
 		SetExpiredHook(func(_ context.Context, key string) {
 			// key = <domain>:role.<role>, roles of the same policy expire together
-- 
2.43.0

