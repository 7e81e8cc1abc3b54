#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the records stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

p("C01", "Policy decisions equal the loaded policies, exactly",
  "For every set of loaded policies and every request (domain, roles, action, resource), access is granted if and only if some assertion attached to exactly <domain>:role.<one of the roles>, whose resource lies in that domain (compared case-insensitively), allows the action and resource and no such assertion denies them; otherwise the request is rejected. "
  "The authorized roles returned with a grant are exactly the requested roles that have a matching allow assertion. Assertions of other roles, other domains, or other resource domains never influence the decision.",
  ["inputs", "configurations"],
  "all policy documents (domains, policies, assertions, effects) and all requests; with or without unrelated roles, domains and policies loaded",
  "The tests check a dozen hand-written caches and requests; the guarantee is over all combinations of policies, roles, effects and requests, including near-miss role and domain names.",
  ["policy/daemon.go", "policy/assertion.go", "authorizerd.go"],
  [("per-role assertion lookup and matching", "policy/daemon.go CheckPolicyRoles"), ("deny-first assertion lists", "policy/daemon.go simplifyAndCachePolicy"), ("assertion parsing", "policy/assertion.go NewAssertion")],
  [("rolePolicies", "role name -> ordered assertions of the snapshot in force", "policy/daemon.go policyd")],
  ["policy.Daemon.CheckPolicy / CheckPolicyRoles", "Authorizerd.AuthorizeRoleToken / VerifyAccessToken"])

p("C02", "Wildcard patterns match whole values, literally and case-insensitively",
  "An assertion's action and resource patterns match a requested value only when the entire value matches: '*' stands for any (possibly empty) run of characters, '?' for exactly one character, and every other character, including regular-expression metacharacters and ':' after the domain, stands only for itself, ignoring letter case on both sides. "
  "Action and resource must both match, and each only against its own pattern.",
  ["inputs"],
  "all patterns and all values over printable text including regexp metacharacters, '/', ':', '*', '?', mixed case and non-ASCII letters (whether a wildcard spans a newline is left open)",
  "The tests try a few patterns; a metacharacter left unescaped, a lost anchor or one-sided case folding shows only on particular pattern/value pairs.",
  ["policy/assertion.go", "policy/daemon.go"],
  [("glob to anchored, escaped regexp", "policy/assertion.go patternFromGlob / isRegexMetaCharacter"), ("lower-casing of both sides", "policy/assertion.go NewAssertion, policy/daemon.go CheckPolicyRoles")],
  [], ["policy.Daemon.CheckPolicyRoles", "policy.NewAssertion"])

p("C03", "A matching deny always wins",
  "If any assertion that applies to any of the caller's roles denies the request, the request is rejected, no matter how many allow assertions match, in which order or in how many policies or duplicates the assertions appear, in which order roles are presented, and however the concurrent loading and evaluation interleave. "
  "Reordering, duplicating or regrouping the assertions of a domain into policies never changes any decision.",
  ["inputs", "schedules"],
  "all policy documents with allow and deny assertions over the same and overlapping patterns, all permutations and partitions of them, all goroutine schedules of loading and checking",
  "Tests load one fixed order once; a deny lost to a race between policies loaded in parallel, or to an ordering accident, needs many orders and schedules.",
  ["policy/daemon.go"],
  [("deny overrides allow while deduplicating", "policy/daemon.go simplifyAndCachePolicy"), ("deny placed before allow", "policy/daemon.go simplifyAndCachePolicy"), ("first deny ends the check", "policy/daemon.go CheckPolicyRoles")],
  [("assm", "deduplicated assertions shared by the per-policy goroutines", "policy/daemon.go simplifyAndCachePolicy")],
  ["policy.Daemon.Update + CheckPolicyRoles"])

p("C04", "Only authentic, unexpired policy documents take effect",
  "A fetched policy document influences decisions only if its expiry is present and in the future, its signed part verifies under the ZTS key it names, and its inner policy data verifies under the ZMS key it names, both keys being currently published for that service. "
  "Any other document (altered anywhere, signed by another key or another service's key, unsigned, re-signed on only one level, naming an unknown key, expired) makes the refresh of that domain fail and changes no decision.",
  ["inputs", "fault_sequences"],
  "all mutations of valid documents: field edits, signature swaps, key-id swaps, cross-service keys, missing parts, expiry changes; before and after a good document was loaded",
  "Tests use a handful of tampered documents with mock verifiers; authenticity must hold for every field and every way of mixing keys and signatures.",
  ["policy/signed_policy.go", "policy/fetcher.go", "pubkey/daemon.go"],
  [("expiry, ZTS and ZMS signature checks", "policy/signed_policy.go Verify"), ("verification before caching", "policy/fetcher.go Fetch")],
  [("policyCache", "last verified document of the domain", "policy/fetcher.go fetcher")],
  ["policy.Daemon.Update", "Authorizerd.Init", "Authorizerd.VerifyRoleToken"])

p("C05", "A policy refresh takes effect completely or not at all",
  "After a successful refresh, decisions are those of the newly served documents of all configured domains and of nothing else: assertions, roles and policies that are no longer served have no effect, and nothing served is missing. "
  "A refresh that reports an error (a domain that cannot be obtained and was never loaded, a malformed assertion, a cancelled context) leaves all decisions as they were.",
  ["histories", "fault_sequences"],
  "all histories of refreshes over several domains in which documents change, shrink, disappear, become malformed or fail to be served",
  "Tests perform at most one or two refreshes; merging, leaking or half-applied snapshots need histories.",
  ["policy/daemon.go", "policy/fetcher.go"],
  [("fresh cache per refresh and pointer swap on success", "policy/daemon.go Update")],
  [("rolePolicies", "snapshot in force", "policy/daemon.go policyd")],
  ["policy.Daemon.Update", "policy.Daemon.CheckPolicyRoles", "GetPolicyCache"])

p("C06", "Expired policies never grant access",
  "Once the expiry time of a domain's policy document has passed, no request is granted on the strength of it, whatever the policy server does meanwhile (errors, timeouts, not-modified answers, replays of the old document) and however many refreshes, retries or purges have run. "
  "Requests are granted again only after a document that is still valid has been obtained.",
  ["histories", "fault_sequences", "configurations"],
  "all timelines of document expiries, refresh periods, purge periods, outages and responses (virtual time)",
  "Tests do not advance time past an expiry while the server fails; the guarantee is over timelines of hours or days.",
  ["policy/daemon.go", "policy/fetcher.go"],
  [("cache entries live until document expiry", "policy/daemon.go simplifyAndCachePolicy SetWithExpire"), ("fallback to the last document", "policy/fetcher.go FetchWithRetry")],
  [("rolePolicies entry expiry", "when an entry stops being used", "policy/daemon.go")],
  ["policy.Daemon.CheckPolicyRoles under virtual time"])

p("C07", "Policy outages are tolerated, bounded and recovered from",
  "While the policy of one domain cannot be fetched, refreshes keep deciding that domain by its last valid document until it expires, and keep applying new documents of the other domains. "
  "Within one refresh each domain is requested until the first success, but at most 1 + configured retry attempts times, successive attempts being at least the retry delay apart. The first refresh after the server recovers applies the current document.",
  ["fault_sequences", "histories", "configurations"],
  "all per-domain sequences of failures (transport errors, error statuses, undecodable or unverifiable bodies) and successes, all retry configurations",
  "Tests exercise single fetches with a fixed failure; tolerance and recovery are statements about sequences over several domains.",
  ["policy/fetcher.go", "policy/daemon.go"],
  [("retry loop and fallback to the cached document", "policy/fetcher.go FetchWithRetry"), ("cached document used despite the error", "policy/daemon.go fetchAndCachePolicy")],
  [("policyCache", "last verified document", "policy/fetcher.go")],
  ["policy.Daemon.Update", "requests seen by the policy server"])

p("C08", "Conditional policy fetches never change the outcome",
  "A policy request carries If-None-Match only with the ETag of the most recently accepted document of that same domain, and carries it exactly while that document has a non-empty ETag and is more than the configured margin away from its expiry. "
  "When the server answers 304 to such a request, every decision after the refresh is the same as if the server had sent the unchanged document again.",
  ["histories", "configurations"],
  "all histories of documents, ETags (present, absent, reused after change back), rejected documents, expiry margins and elapsed times",
  "Tests check one request with one preset ETag; staleness or cross-domain ETag reuse needs histories and several domains.",
  ["policy/fetcher.go"],
  [("ETag stored with the verified document; margin before expiry", "policy/fetcher.go Fetch")],
  [("policyCache.eTag / eTagExpiry", "ETag and until when it may be offered", "policy/fetcher.go taggedPolicy")],
  ["request headers seen by the policy server", "policy.Daemon.CheckPolicyRoles"])

p("C09", "Checks concurrent with refreshes see one consistent snapshot",
  "Every policy check that runs concurrently with refreshes, expiries and other checks returns a decision that is correct for one single policy snapshot that was in force at some moment during the check, never for a mixture of two snapshots, and checks, refreshes and cache reads never deadlock, crash or block each other for good.",
  ["schedules", "histories"],
  "all interleavings of concurrent checks (with many roles), refreshes and expirations",
  "The tests run checks and updates sequentially; torn reads need concurrency on both sides.",
  ["policy/daemon.go"],
  [("atomic snapshot pointer, loaded once per check", "policy/daemon.go CheckPolicyRoles / Update")],
  [("rolePolicies", "atomically swapped snapshot pointer", "policy/daemon.go")],
  ["policy.Daemon.CheckPolicyRoles from many goroutines during Update"])

p("C10", "Role tokens are accepted only if authentic and unexpired",
  "A role token is accepted if and only if it carries a signature after its first ';s=', all fields before it are well-formed, it has not passed its expiry time, and the signature verifies over exactly the text before ';s=' under the currently published ZTS key named by the token. "
  "Domain, roles and principal used for the decision are those of the signed text; changing, adding, removing or reordering anything in the signed text of an accepted token makes it be rejected.",
  ["inputs"],
  "all tokens built from valid ones by field edits, splices, truncations, signature swaps, key-id and service-key swaps, and all expiry times around now",
  "Tests use a few fixed tokens with mock verifiers.",
  ["role/processor.go", "role/token.go", "authorizerd.go"],
  [("split at signature, parse fields, expiry, ZTS key lookup, signature check", "role/processor.go parseToken / validate")],
  [], ["role.Processor.ParseAndValidateRoleToken", "Authorizerd.AuthorizeRoleToken"])

p("C11", "Access tokens are accepted only if authentic and valid now",
  "An access token is accepted only if its kid names a key in the key set selected by its jku (the Athenz key set when jku is absent; none when jku is not configured), its signature verifies with that key under an algorithm of that key's type, it has an expiry in the future, and its issued-at and not-before times, where present, are not in the future; and a token satisfying all of these (and the enabled certificate and client checks) is accepted. "
  "Unsigned tokens, tokens MACed with a public key, tokens with altered header, claims or signature, and tokens without kid or exp are rejected.",
  ["inputs", "configurations"],
  "all combinations of header fields, algorithms, keys, key sets, claims times and mutations of valid tokens",
  "Tests use a fixed list of pre-built tokens; acceptance must be exact over header, key and time combinations.",
  ["access/processor.go", "access/claim.go", "jwk/daemon.go"],
  [("key selection by kid and jku", "access/processor.go keyFunc, jwk/daemon.go getKey"), ("mandatory exp", "access/claim.go Valid")],
  [], ["access.Processor.ParseAndValidateOAuth2AccessToken", "Authorizerd.AuthorizeAccessToken"])

p("C12", "Certificate-bound access tokens only work with a bound certificate",
  "With certificate binding enabled, an otherwise valid access token is accepted if and only if a client certificate is presented and either its SHA-256 thumbprint equals the token's x5t#S256 confirmation; or the token has that confirmation, the certificate's common name is non-empty and equals the token's client_id, the configured offset is non-zero, and the certificate's corrected issue time (NotBefore plus the configured backdating) lies between the token's issue time and that time plus the offset; or one of the certificate's URIs is listed in the token's proxy-principals confirmation. "
  "With binding disabled the certificate plays no part. Unless configured otherwise binding is on, with one hour for both durations.",
  ["inputs", "configurations"],
  "all certificates (common name, URIs, NotBefore, contents), all confirmation claims (also of wrong types) and all backdate/offset settings",
  "Tests enumerate a few combinations with hand-made structs; the rule is a Boolean combination over many fields and time boundaries.",
  ["access/processor.go", "access/option.go"],
  [("thumbprint comparison, rotation window, proxy principals", "access/processor.go validateCertificateBoundAccessToken / validateCertPrincipal")],
  [], ["access.Processor.ParseAndValidateOAuth2AccessToken", "Authorizerd.VerifyAccessToken / Verify"])

p("C13", "Client-ID verification admits only listed pairs",
  "With client-ID verification enabled, an otherwise valid access token is accepted if and only if a client certificate is presented and the token's client_id is listed for exactly that certificate's common name in the configuration. "
  "With it disabled, client_id and common name do not matter (unless certificate binding uses them).",
  ["inputs", "configurations"],
  "all configured common-name to client-id maps, certificates and tokens",
  "Tests use one map and a few pairs.",
  ["access/processor.go", "authorizerd.go"],
  [("authorizedClientIDs lookup", "access/processor.go validateClientID")],
  [], ["access.Processor.ParseAndValidateOAuth2AccessToken", "Authorizerd.VerifyAccessToken"])

p("C14", "A cached result is reused only for the identical request",
  "Whatever requests were answered before, each authorization call returns the same verdict and principal as it would with an empty result cache: a grant obtained for one combination of credential type, credential, client certificate, action, resource and query string is never returned for any different combination.",
  ["inputs", "histories"],
  "all sequences of calls over related credentials, certificates, actions, resources and queries, including values that contain the separators used to build cache keys",
  "Tests check fixed cache keys; a collision needs two specific calls in sequence.",
  ["authorizerd.go"],
  [("cache key composition", "authorizerd.go authorize")],
  [("cache", "successful results by key", "authorizerd.go authority")],
  ["Authorizerd.Authorize* / Verify* call sequences"])

p("C15", "Cached grants age out and failures are never cached",
  "A granted result may be repeated without re-checking for at most the configured cache lifetime after it was established; repeating it does not extend that lifetime, and any later call reflects the then-current policies, keys, token expiry and time. "
  "A rejected call is never remembered: as soon as its cause is gone, the same call succeeds.",
  ["histories", "configurations"],
  "all cache lifetimes, call times, token expiries, policy and key changes, with and without the background purge running (virtual time)",
  "Tests do not advance time; freshness is a statement about timelines.",
  ["authorizerd.go"],
  [("results stored with expiry only on success", "authorizerd.go authorize SetWithExpire")],
  [("cache entry expiry", "when a cached grant stops being used", "authorizerd.go")],
  ["Authorizerd.AuthorizeRoleToken / AuthorizeAccessToken under virtual time"])

p("C16", "Request mapping rules translate deterministically and exactly",
  "For every rule set and request, the first rule (in configured order) of the domain whose method equals the request method ignoring case, whose path segments match one by one (placeholders matching any single segment) and whose query parameters are exactly the request's, each given once with an equal value or a placeholder, yields its action and its resource with every placeholder replaced simultaneously by the raw text it matched; when no rule matches, action and resource are the method and path unchanged. "
  "The result is the same on every call, and text taken from the request is never itself interpreted as a placeholder. A request whose query cannot be parsed is never translated, and it is refused when a rule fits its method and path.",
  ["inputs", "configurations"],
  "all rule sets accepted by validation and all methods, paths and query strings",
  "Tests list examples with one or two placeholders; determinism and substitution hygiene need many values, including values that look like placeholders.",
  ["translator.go"],
  [("rule matching and placeholder substitution", "translator.go Translate")],
  [("Rule.splitPaths / queryValueMap", "validated path and query patterns", "translator.go")],
  ["MappingRules.Translate"])

p("C17", "Invalid mapping rules are rejected, valid ones accepted",
  "Creating a rule set fails if and only if the rule map is missing, a domain name is empty, a domain has a missing rule list, or some rule lacks a method, action or resource, has a non-empty path not starting with '/', an empty placeholder '{}', a placeholder name used twice in the same rule, a query parameter given more than once, or an unparsable query string.",
  ["inputs", "configurations"],
  "all rule maps",
  "Tests list examples; combinations of rules, domains and positions of the offending rule are not covered.",
  ["translator.go"],
  [("rule validation", "translator.go validate / isPlaceholder")],
  [], ["NewMappingRules"])

p("C18", "Role certificates are authorized by exactly the roles they carry",
  "A role-certificate check succeeds if and only if, for at least one domain, the roles of that domain named by the certificates (through a common name of the form domain:role.name, or URIs made of the configured prefix followed by domain/role) are granted the action and resource by the loaded policies, a deny for any of those roles rejecting that domain. "
  "Certificates naming no role are rejected, names from other URIs or malformed names contribute nothing, and no named role is dropped or confused with another; with policies disabled the check always succeeds.",
  ["inputs", "configurations"],
  "all certificate lists with arbitrary common names and URIs, all URI prefixes, all policies",
  "Tests use a few certificates; role collection across several certificates, domains and look-alike names is combinatorial.",
  ["authorizerd.go"],
  [("role extraction and per-domain check", "authorizerd.go VerifyRoleCert")],
  [], ["Authorizerd.VerifyRoleCert"])

p("C19", "A request is authorized by any one valid enabled credential",
  "Verifying an HTTP request succeeds if and only if at least one enabled token type, taken from its own place in the request (access token from the Authorization bearer header with the TLS peer certificate, role token from the configured header), is itself authorized for the action and resource, and then returns that credential's principal; otherwise the invalid-credentials error is returned. "
  "Disabled credential types are never consulted, and an invalid credential of one type never blocks or strengthens a valid one of another.",
  ["inputs", "configurations"],
  "all combinations of enabled authorizers, headers, TLS state and valid, invalid, absent or swapped credentials",
  "Tests stub the individual verifiers or try few combinations.",
  ["authorizerd.go"],
  [("authorizer list and OR logic", "authorizerd.go initAuthorizers / Verify / Authorize")],
  [("authorizers", "enabled credential checks in order", "authorizerd.go")],
  ["Authorizerd.Verify / Authorize"])

p("C20", "The public key store mirrors the last good key list of each service",
  "After a successful refresh, for ZMS and ZTS separately, looking up a key id yields the published key if and only if it is in the list most recently obtained for that service; rotated ids verify with the new key only, and removed ids are gone. "
  "A refresh in which a service cannot be fetched or contains an unusable key reports an error and leaves that service's keys as they were; a 304 is believed only for the list actually in use, and If-None-Match is offered only with the ETag of that list and only within the configured ETag lifetime.",
  ["histories", "fault_sequences"],
  "all histories of key lists, ETags, failures and malformed lists for the two services, and elapsed times",
  "Tests do single updates; losing sync needs a failing step followed by a not-modified answer, or rotations.",
  ["pubkey/daemon.go", "pubkey/option.go"],
  [("per-service fetch, decode all, then replace", "pubkey/daemon.go Update"), ("ETag cache with lifetime", "pubkey/daemon.go fetchPubKeyEntries")],
  [("confCache.ZMSPubKeys / ZTSPubKeys", "keys in force", "pubkey/daemon.go"), ("eTagCache", "last list and ETag per service", "pubkey/daemon.go")],
  ["pubkey.Daemon.GetProvider", "pubkey.Daemon.Update", "request headers"])

p("C21", "JSON web keys come only from configured URLs and stay in sync",
  "A key lookup returns the key with that id from the key set last successfully fetched from exactly the URL asked for (the Athenz URL when none is given), and nothing if that URL is not configured, was never fetched, the id is empty or the set has no such id. "
  "A refresh fetches the Athenz URL and every configured URL, replaces the sets that were obtained, keeps the previous set of each URL that failed, and reports an error if and only if some URL failed; no other URL is ever contacted.",
  ["histories", "fault_sequences", "configurations"],
  "all URL configurations (including duplicates of the Athenz URL), histories of key sets and failures, and lookups by arbitrary id and URL",
  "Tests do single updates with fixed key sets.",
  ["jwk/daemon.go", "jwk/option.go"],
  [("per-URL key store", "jwk/daemon.go Update / getKey")],
  [("keys", "URL -> key set", "jwk/daemon.go")],
  ["jwk.Daemon.GetProvider", "jwk.Daemon.Update", "requests seen by the servers"])

p("C22", "No server response can crash a daemon or leak a connection",
  "Whatever the policy, public-key or JWK server answers (any status, headers and body, truncated or failing bodies, unsolicited 304, JSON of any shape, transport errors), the refresh returns or reports an error without a panic, previously loaded keys and policies stay usable, and later valid answers are applied. "
  "The body of every policy and public-key response is closed, also when the refresh fails.",
  ["inputs", "fault_sequences"],
  "all response sequences: arbitrary statuses, headers, byte bodies and JSON shapes, body read errors, before or after good responses",
  "Tests cover a few malformed bodies; robustness is over all responses and their position in a history.",
  ["policy/fetcher.go", "pubkey/daemon.go", "jwk/daemon.go"],
  [("status, decode and verification checks before use", "policy/fetcher.go Fetch; pubkey/daemon.go fetchPubKeyEntries"), ("flush and close", "policy/fetcher.go flushAndClose")],
  [], ["Update / Init results", "body close counters of the fake server"])

p("C23", "Arbitrary credentials are rejected without crashing",
  "For every byte string given as a role token or access token, and every HTTP request with arbitrary credential headers and client certificate, authorization returns normally; unless the string was issued and signed by a trusted key it is rejected with an error and a nil principal. "
  "This holds with policies, certificate binding and client-ID checks enabled or disabled.",
  ["inputs", "configurations"],
  "all byte strings and all structured near-tokens (field soups, JWTs with arbitrary JSON headers and claims), all requests",
  "Tests try a few malformed tokens.",
  ["role/processor.go", "access/processor.go", "authorizerd.go", "mask.go"],
  [("error returns on every malformed part", "role/processor.go, access/processor.go"), ("masking for debug logs", "mask.go")],
  [], ["Authorizerd.Authorize*, Verify*"])

p("C24", "Background daemons refresh on schedule, retry, report and stop",
  "Once started, each background updater refreshes once per its configured refresh period; a failed refresh is reported on the error channel and tried again no later than the configured retry delay after the failure (not only at the next period), without a retry storm, until it succeeds, and later refreshes carry on. "
  "A policy refresh tries each domain the configured number of times, the retry delay apart, before it gives up, and has failed only if a domain then has no policies loaded earlier to fall back on. "
  "When the context is cancelled every updater stops making requests, the context's error is delivered last and the channel is closed.",
  ["histories", "fault_sequences", "configurations"],
  "all refresh periods, retry delays, outage windows and cancellation times (virtual time), for the policy, public-key and JWK updaters alone and combined in the authorizer",
  "Tests wait a few real milliseconds on one configuration.",
  ["policy/daemon.go", "pubkey/daemon.go", "jwk/daemon.go", "authorizerd.go"],
  [("ticker, failure queue, context", "policy/daemon.go Start; pubkey/daemon.go Start; jwk/daemon.go Start; authorizerd.go Start")],
  [], ["request timeline at the fake server", "error channel"])

p("C25", "Token signatures never reach the logs",
  "At every log level, for every accepted, cached or rejected credential and every configuration, nothing the library logs while authorizing contains the signature part of a role token or access token (the text after ';s=' or after the last '.'), so a logged token can never be replayed.",
  ["inputs", "configurations"],
  "all valid and mutated tokens, cache hits and misses, certificates, all log levels enabled",
  "Tests check the masking helpers on fixed strings; the guarantee is over everything that is logged.",
  ["mask.go", "authorizerd.go"],
  [("maskToken / maskCacheKey", "mask.go")],
  [], ["captured log output of all levels"])

p("C26", "The retrying HTTP transport is bounded and transparent",
  "For every sequence of upstream outcomes the retrying transport makes at most the configured number of attempts. A non-temporary error, or a response with any status other than 429, 500, 503 and 504, is returned immediately and unchanged, with its body still readable; a response with one of these four is followed by another attempt, and so is a temporary error, (2n-1)/factor^2 seconds after the n-th attempt, unless that would not be before the configured time limit, in which case the error is returned. "
  "When attempts run out it returns the last outcome, and the bodies of responses it discards are closed.",
  ["inputs", "fault_sequences", "configurations"],
  "all sequences of errors (temporary or not), statuses and bodies; all factors, counts of at least one, and time limits",
  "Tests check a few two-step sequences and never read the returned body.",
  ["client/exp_rt.go"],
  [("retry loop", "client/exp_rt.go RoundTrip")],
  [], ["ExponentialRoundTripper.RoundTrip"])

p("C27", "Configuration is validated and normalised, and reaches its component",
  "Creating an authorizer or component fails for an Athenz URL with a scheme other than http/https, when no credential type is enabled, or when an enabled component is given a duration that does not parse or a JWK URL that is not an absolute http/https URL, and succeeds otherwise. "
  "An Athenz URL with or without http(s):// prefix leads to the same https requests, an empty duration means the default, and each setting of the authorizer (domains, system auth domain, periods, delays, retries, margins, header, prefixes) governs exactly its own component.",
  ["configurations"],
  "all URLs, durations, domain lists and option combinations",
  "Tests check that options set private fields one at a time, not what the assembled authorizer does with them.",
  ["option.go", "authorizerd.go", "policy/option.go", "pubkey/option.go", "jwk/option.go", "internal/url/util.go"],
  [("functional options and wiring", "authorizerd.go New")],
  [], ["New results", "requests and request times seen by the fake server"])

p("C28", "The returned principal is the credential's own identity",
  "A successful authorization returns a principal whose name, domain, roles, issue time and expiry time (and client ID for access tokens) are exactly those signed into the credential, and whose authorized roles are exactly the roles that grant the request; role-token principals are not OAuth principals, and concurrent or later authorizations never change a principal already returned or mix two identities.",
  ["inputs", "schedules"],
  "all valid role and access tokens and policies, sequential and concurrent calls, cached and uncached",
  "Tests compare a few stubbed principals.",
  ["authorizerd.go", "principal.go", "role/token.go", "access/claim.go"],
  [("principal construction", "authorizerd.go authorize")],
  [], ["Authorizerd.AuthorizeRoleToken / AuthorizeAccessToken"])

p("C29", "Policies are consulted with the mapped action and prefixed resource",
  "With policies enabled, an authorization is decided on the action and resource given by the caller after translation by the configured mapping rules for the token's domain (using the request's query) and with the configured resource prefix put in front, and calls with an empty action or resource are rejected; a translation error rejects the call. "
  "With policies disabled, any valid credential is accepted regardless of action and resource.",
  ["inputs", "configurations"],
  "all mapping rules, prefixes, policies, actions, resources and queries, for both token types and HTTP requests",
  "Tests mock the policy daemon and translator with fixed answers.",
  ["authorizerd.go", "translator.go"],
  [("translate, prefix, check", "authorizerd.go authorize")],
  [], ["Authorizerd.Authorize*, Verify with HTTP requests"])

p("C30", "Initialisation succeeds exactly when every enabled source is loaded",
  "Initialisation returns success if and only if the public keys of both services, the policies of every configured domain (verified with those freshly fetched keys) and every JWK set were obtained, counting only the enabled components; on success requests are decided by them at once. "
  "Disabled components are never contacted, and a cancelled context makes initialisation fail.",
  ["fault_sequences", "configurations"],
  "all subsets of failing sources, all enabled/disabled combinations, all response delays (so all completion orders)",
  "Tests stub the child daemons; the combination with real daemons, keys and orders is not tested.",
  ["authorizerd.go"],
  [("ordered update of public keys then policies, JWKs in parallel", "authorizerd.go Init")],
  [], ["Authorizerd.Init", "requests seen by the fake servers"])

p("C31", "Refreshing keys never interrupts verification",
  "While public keys or JWK sets are being refreshed, however long the responses take and whether or not they can be used, every key lookup gives what it gave before that refresh or what it gives after it: a key that stays published under its id is never missing, so credentials signed with it keep being accepted throughout, and a failing refresh is not noticeable to lookups at all.",
  ["schedules", "fault_sequences"],
  "all key lists and JWK sets, response times and faults, all interleavings of lookups with a refresh",
  "Tests look up keys after a refresh has ended, never during one.",
  ["pubkey/daemon.go", "jwk/daemon.go"],
  [("store new keys, then delete removed ones", "pubkey/daemon.go Update"), ("replace the set of one URL at once", "jwk/daemon.go Update")],
  [], ["Daemon.Update concurrent with the Provider"])

p("C32", "The exported policy cache shows exactly the policies in force",
  "GetPolicyCache returns, for every role of the configured domains, exactly the assertions of the policy documents in force for it, with their effect, resource domain, action and resource (an allow that is overridden by a deny of the same action and resource may be left out); assertions of replaced, refused or expired documents are not shown, and the map is empty before the first refresh and when policies are disabled. Changing the returned map changes neither decisions nor what is returned later.",
  ["histories"],
  "all document histories, expiries and failing refreshes, read through the policy daemon and the authorizer",
  "Tests return a prepared map.",
  ["policy/daemon.go", "authorizerd.go"],
  [("copy of the role cache", "policy/daemon.go GetPolicyCache")],
  [], ["Authorizerd.GetPolicyCache", "policy Daemon.GetPolicyCache"])

p("C33", "Authorizing a request leaves it untouched and reads only the credential headers",
  "Verify and Authorize never change the request they are given: its method, URL, headers, form values, TLS state and context are the same afterwards, and its body is neither read nor closed, so the request can be forwarded as it came. Credentials are taken only from the Authorization header and the configured role header; tokens in the query, form, body or cookies neither authorize a request nor spoil one.",
  ["inputs", "configurations"],
  "all methods, headers, queries and bodies, with credentials in any place, granted, refused and cached",
  "Tests build requests with one header and never look at them afterwards.",
  ["authorizerd.go"],
  [("header extractors", "authorizerd.go initAuthorizers")],
  [], ["Authorizerd.Authorize / Verify and the request afterwards"])

p("C34", "Authorizers in one process do not influence each other",
  "Several authorizers in one process, each with its own options, servers, keys, policies and caches, answer every call as if they were alone: an option, key, policy document, mapping rule or cached result of one never affects another, whatever the order in which they are created, used, refreshed, started or stopped.",
  ["histories", "configurations", "schedules"],
  "all combinations of two or three configurations and interleavings of calls, refreshes and stops",
  "Tests create one authorizer at a time.",
  ["authorizerd.go", "option.go", "policy/daemon.go", "pubkey/daemon.go"],
  [("per-instance state", "authorizerd.go New")],
  [], ["Authorize* of several Authorizerd"])

p("C35", "Cancelled calls never grant wrongly and leave no trace",
  "A policy check or authorization whose context is cancelled or past its deadline, before or at any moment during the call, either fails or gives exactly the right verdict with exactly the roles that grant the request: cancellation never hides a deny and never shortens the list of authorized roles. A failed call returns no principal and no roles, and does not influence the same or any other call made afterwards.",
  ["schedules"],
  "all policies and role lists, all moments of cancellation",
  "Tests cancel, at most, before a call of a stubbed component.",
  ["policy/daemon.go", "authorizerd.go"],
  [("cancelled role checks report an error", "policy/daemon.go CheckPolicyRoles")],
  [], ["CheckPolicyRoles, Authorize* with cancelled contexts"])

p("C36", "Nothing keeps running once its work is done",
  "Authorization calls, refreshes and cache reads leave no goroutine behind once they have settled, whether they succeed, fail, end early with a deny or are cancelled, and repeated refreshes do not accumulate any; only the background updaters and one purge loop per cache stay, and when their context is cancelled everything ends.",
  ["histories", "fault_sequences"],
  "all sequences of calls, refreshes, faults and cancellations",
  "Tests end before leaks matter and do not count goroutines.",
  ["policy/daemon.go", "authorizerd.go", "pubkey/daemon.go", "jwk/daemon.go"],
  [("buffered result channel", "policy/daemon.go CheckPolicyRoles"), ("stop of the replaced cache", "policy/daemon.go Update")],
  [], ["goroutines after Authorize*, Init, Start and cancellation"])

p("C37", "A running authorizer follows what is published within a bounded time",
  "Once an authorizer is initialised and started, everything its sources publish (policy documents, ZTS and ZMS public keys, JWK sets) governs its decisions from, at the latest, one refresh period plus the time that fetching and retrying takes after the publication (for grants: plus the result cache lifetime), for as long as it runs and for every configured domain, key list and key set. "
  "While a source fails or is unreachable, decisions keep following what it published last, until that expires, the other sources keep being followed, and the failed source is followed again within the same bound after it recovers, without a restart.",
  ["histories", "fault_sequences", "schedules"],
  "all histories of publications, outages and expiries, all periods, delays and lifetimes",
  "Tests run the updaters for a few ticks against one constant stub.",
  ["authorizerd.go", "policy/daemon.go", "policy/fetcher.go", "pubkey/daemon.go", "jwk/daemon.go"],
  [("refresh loops", "policy/daemon.go, pubkey/daemon.go, jwk/daemon.go Start"), ("start of all updaters", "authorizerd.go Start")],
  [("rolePolicies", "policies in force", "policy/daemon.go"), ("confCache", "public keys in force", "pubkey/daemon.go"), ("keys", "JWK sets in force", "jwk/daemon.go")],
  ["VerifyRoleToken, VerifyAccessToken of a started Authorizerd at chosen instants"])

p("C38", "All entry points give the same verdict",
  "The same credential, action and resource get the same verdict, and the same principal, whether the credential is presented as a token text (AuthorizeRoleToken, AuthorizeAccessToken) or in a request that carries nothing else (Authorize), and a verifying call (VerifyRoleToken, VerifyAccessToken, Verify) succeeds exactly when its authorizing counterpart does; in any order and repetition of such calls on one authorizer, a verdict differs from that of an unused authorizer only by reusing a grant within the cache lifetime. "
  "A request whose only credential is of a kind that is switched off is refused.",
  ["inputs", "histories", "configurations"],
  "all credentials, requests, configurations and orders of entry points",
  "Tests exercise each entry point alone, with stubbed components.",
  ["authorizerd.go"],
  [("one authorize function behind all token entry points", "authorizerd.go authorize"), ("extraction from the request", "authorizerd.go initAuthorizers")],
  [("cache", "results shared by the entry points", "authorizerd.go")],
  ["Verify*, Authorize* of the same credentials"])

p("C39", "Concurrent use is free of data races",
  "However many goroutines use an authorizer at once (checking credentials of every kind, reading the policy cache, initialising again, cancelling calls) while its background updates run, and also while it is being stopped, no two of them access the same memory unsynchronised with one of them writing, in the library or in what it calls on their behalf; the same holds between several authorizers in one process, for principals handed out and shared by callers, and for the key, key-set and policy daemons and the retrying transport used directly, with updates that overlap.",
  ["schedules", "histories", "configurations"],
  "all interleavings of requests, updates, initialisations, failures and the stop, with any logging level",
  "The tests run almost everything on one goroutine; an unsynchronised access shows only between particular pairs of operations, and usually does no visible harm when it happens.",
  ["authorizerd.go", "policy/daemon.go", "policy/fetcher.go", "pubkey/daemon.go", "jwk/daemon.go", "client/exp_rt.go", "role/processor.go", "access/processor.go", "translator.go"],
  [("atomic swap of the policy cache", "policy/daemon.go Update"), ("atomic cached policy of a fetcher", "policy/fetcher.go"), ("sync.Map of key sets, atomic key stores", "jwk/daemon.go, pubkey/daemon.go"), ("concurrent cache of grants", "authorizerd.go authorize")],
  [("cache", "grants shared by all callers", "authorizerd.go"), ("rolePolicies", "policies in force", "policy/daemon.go")],
  ["the race detector's reports while the public API is used from many goroutines"])

p("C40", "A refusal says why",
  "When credentials are refused, the error (its Cause, or through errors.Is) carries one of the documented reasons exported in errors.go exactly when it is true of the call, whichever entry point is used: an action or resource that is empty gives ErrInvalidParameters before anything else is looked at; a role token without a signature, with a malformed pair or with an unknown key gives ErrRoleTokenInvalid, an expired one ErrRoleTokenExpired (any of the true reasons when several apply); a matching deny gives ErrDenyByPolicy, also when other assertions allow; no matching assertion in force gives ErrNoMatch; and a request none of whose credentials is accepted gives ErrInvalidCredentials. "
  "When a source fails, initialisation and the error channel report it with its reason: a bad status from the policy source ErrFetchPolicy, from a key source ErrFetchAthenzPubkey, an assertion that cannot be loaded ErrInvalidPolicyResource, a failed connection its own error, a failed key set the URLs that failed and no others.",
  ["inputs", "histories", "faults"],
  "all credentials with any combination of faults, policies in any state, all kinds of source failures, at initialisation or later",
  "Tests compare the texts of single errors of single components; the reason that reaches the caller after wrapping, retrying and the precedence of several reasons is not checked.",
  ["authorizerd.go", "errors.go", "role/processor.go", "policy/daemon.go", "policy/fetcher.go", "policy/assertion.go", "pubkey/daemon.go", "jwk/daemon.go"],
  [("exported reasons", "errors.go"), ("wrapping with a cause", "authorizerd.go authorize, verify; policy/daemon.go; policy/fetcher.go")],
  [],
  ["errors returned by Verify*, Authorize*, Init and received from Start"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for r in P: f.write(json.dumps(r, ensure_ascii=False) + "\n")
print(len(P))
