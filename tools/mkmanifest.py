#!/usr/bin/env python3
"""Writes MANIFEST.json. A property is claimed when the harness registers a sub for it."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = "".join(open(f).read() for f in sorted(glob.glob(V + "/harness/*.go")))
claimed = set(re.findall(r'Prop: "(C\d\d)"', src))
T = {
 "C01": ("property-based testing: generated policy sets and requests against a reference decision procedure", ""),
 "C02": ("property-based testing: generated glob patterns and values against a dynamic-programming reference matcher", "Values containing newlines are left open where '*' and '?' are concerned."),
 "C03": ("property-based testing: metamorphic (permute, duplicate, regroup) and repeated parallel loads against a reference decision", "Interleavings inside one load are sampled by repetition on 8 cores, not enumerated."),
 "C04": ("property-based testing: document mutation (altered fields, keys, ids, levels, expiry) with decisions compared before and after", "Alterations are made to fields the signatures cover; unknown JSON fields are not signed and not claimed."),
 "C05": ("stateful property-based testing: histories of served documents and refreshes against a model of the last good snapshot", ""),
 "C06": ("stateful property-based testing on a virtual clock: server histories around expiry instants with an expiry oracle", "Instants exactly equal to the expiry are left open."),
 "C07": ("stateful property-based testing on a virtual clock: generated outages, request-count and spacing invariants, last-good-document model", ""),
 "C08": ("stateful property-based testing: differential run of the same history with and without ETag support, and request-header invariants", ""),
 "C09": ("property-based testing: concurrent checks and refreshes with a snapshot-consistency oracle over the history", "Interleavings are sampled by repetition, not enumerated."),
 "C10": ("property-based testing: generated and mutated role tokens against a reference parser and acceptance rule", ""),
 "C11": ("property-based testing: generated JWTs (algorithms, keys, jku, claims, tampering) against a reference acceptance rule", "Second-granularity boundary instants are left open."),
 "C12": ("property-based testing: generated token, certificate and configuration triples against a reference binding rule", ""),
 "C13": ("property-based testing: generated client-id tables, certificates and tokens against the listing rule", ""),
 "C14": ("property-based testing: call sequences compared differentially with an authorizer whose cache is empty", ""),
 "C15": ("stateful property-based testing on a virtual clock: call and world-change histories against a model of cache ages", "Instants exactly equal to a cache expiry are left open."),
 "C16": ("property-based testing: generated rule sets and requests against a reference translator", ""),
 "C17": ("property-based testing: generated valid and invalid rule sets against a reference validator", ""),
 "C18": ("property-based testing: generated role certificates and policies against a reference decision", ""),
 "C19": ("property-based testing: generated requests carrying several credentials against a reference OR rule", ""),
 "C20": ("stateful property-based testing: generated key-list and failure histories against a model key store", ""),
 "C21": ("stateful property-based testing: generated JWK set and failure histories against a model key store", ""),
 "C22": ("structured fuzzing of server responses (status, headers, JSON shape, truncation) with crash, recovery and body-closing oracles", "Bodies of JWK responses are owned by the jwx dependency and not claimed."),
 "C23": ("structured fuzzing of credentials and requests with a rejection and no-crash oracle", ""),
 "C24": ("property-based testing on a virtual clock: generated periods, delays and outages against a refresh-timeline oracle", ""),
 "C25": ("property-based testing: generated credentials and call histories with every log line searched for the signature", ""),
 "C26": ("property-based testing: generated upstream outcome sequences against a reference of attempts, waits and bodies", ""),
 "C27": ("property-based testing: generated configurations against a reference validator and observed request timelines", ""),
 "C28": ("property-based testing: generated credentials with returned principals compared to the signed fields, also concurrently", "Interleavings are sampled by repetition, not enumerated."),
 "C29": ("property-based testing: generated translators, prefixes and policies against the reference decision", ""),
 "C31": ("property-based testing: generated refresh histories with concurrent lookups against a before-or-after oracle", "Interleavings are sampled by repetition, not enumerated."),
 "C32": ("stateful property-based testing: document histories with the exported cache compared to the assertions in force", "Roles outside a document's own domain are left open."),
 "C33": ("property-based testing: generated requests compared with themselves afterwards, and a header-only reference verdict", ""),
 "C34": ("stateful property-based testing: several instances compared with the reference verdict of a lone one", ""),
 "C35": ("property-based testing: generated cancellations against the reference decision", "Moments of cancellation are sampled, not enumerated."),
 "C36": ("stateful property-based testing on a virtual clock: goroutine counts after generated call and fault histories", ""),
 "C39": ("randomized concurrency testing: generated mixes of concurrent operations and background updates on the real clock under the Go race detector", "A race is reported only if the two accesses occur unordered in a run that was made; logs are turned on in half of the processes, since the logger's own synchronisation hides some."),
 "C40": ("fault-injecting property-based testing: generated faults of credentials, policies and sources against the set of true reasons", "Faults without a documented reason of their own (a bad signature of a role token, most faults of access tokens) are checked for claiming none or, for role tokens, the reason of an invalid token."),
 "C38": ("differential property-based testing: every entry point of unused authorizers and of one in use, over the same generated calls", "Role certificates are left out: the library documents their request entry point as not implemented."),
 "C37": ("stateful property-based testing on a virtual clock: histories of publications, outages and expiries against the set of states a decision may be based on", ""),
 "C30": ("fault-injecting property-based testing: generated source outages against the initialisation outcome rule", ""),
}
BASE = ("Sampled search over generated plans, no exhaustiveness: a pass means no generated case violated the oracle. "
        "Trusted: the oracle in /verif/harness, rapid's generators, Go's testing/synctest virtual clock, the in-memory HTTP transport.")
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: every check drives the public API. tools/check.py is the driver, harness/ the checks, regress/ the saved plans, known_findings.txt the defect record."}
for p in props:
    i = p["id"]
    if i in claimed:
        m["checks"].append({"property": i, "quick_cmd": "python3 tools/check.py %s --tier quick" % i,
                            "thorough_cmd": "python3 tools/check.py %s --tier thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": T[i][0], "level": "exploration",
                            "level_note": (BASE + " " + T[i][1]).strip()})
    else:
        m["not_applicable"].append({"property": i, "reason": "not yet claimed: its check is still being built"})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print("claimed", len(m["checks"]), "unclaimed", len(m["not_applicable"]))
