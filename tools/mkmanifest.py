#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "vf"))
import specs
NA = {
 "C22": "tls.c is a driver of OpenSSL's BIO/SSL state machine: the property is a property of libssl, whose source is not part of the repository; a contract for it would be assumed, not proved.",
 "C23": "isolation is a property of the storage class (thread-local) and of pthread key destructors; sequential contracts have no notion of a second thread, and a deductive verifier for concurrent C is not installed.",
 "C24": "fairness and eventual completion are liveness properties of infinite executions; pre/postconditions and invariants decide safety only (the safety part, forced polling and FIFO order, is in C13/C14).",
 "C25": "the context switch is inline assembly that CBMC's C front end does not interpret; register and stack preservation is also a property of the compiler's code generation.",
}
checks = []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in specs.REG:
        NA.pop(p, None)
        checks.append(dict(property=p, quick_cmd="python3 vf/run.py " + p, thorough_cmd="python3 vf/run.py %s --tier thorough" % p,
            technique="contract-based deductive verification: pre/postconditions and loop invariants on the real functions, discharged by CBMC's SAT back end on every run",
            level=specs.LEVEL[p], level_note=specs.REG[p][1]))
    elif p not in NA:
        NA[p] = "not claimed: within reach of the method, but the contracts for these functions are not finished."
json.dump(dict(version=1, setup_cmd="python3 vf/setup.py", checks=checks,
    not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())]), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print("claimed", [c["property"] for c in checks])
