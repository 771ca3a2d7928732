#!/usr/bin/env python3
"""writes /verif/MANIFEST.json: claims every property that has a rule in analysis/rules"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = " Trusts rustc's MIR, the callee models (std, tokio, prost, hypercore) in analysis/engine/models.py and the type-level stand-ins of unavailable dependencies. What cannot be decided (unsupported construct, lost precision, budget) is listed as undecided in the evidence and does not raise an alarm."
T = {
 "C01": "path-sensitive abstract interpretation of MIR: typestate counting appends against the reported result",
 "C02": "effect analysis (append reachability over the call graph) refined by path-sensitive abstract interpretation",
 "C03": "typestate of the caller's predicate with value numbering, over all paths of MIR",
 "C04": "lockset analysis: one exclusive guard from first read to append on every path",
 "C05": "lock-order and self-wait analysis (modular guard tracking, class-level acquisition summaries)",
 "C06": "ownership/escape analysis: every in-place modification targets a private copy",
 "C07": "dataflow by value numbering from append index / stored reference to the returned sequence number",
 "C08": "abstract interpretation of put, del and repair to closed-form node contents; links of the recorded nodes checked over all node shapes",
 "C09": "abstract interpretation of put, del and repair to closed-form node contents; sizes of the recorded nodes checked over all node shapes",
 "C10": "abstract interpretation of put, del and repair to closed-form node contents; in-order sequence checked over all node shapes",
 "C11": "decision-table extraction of the comparators and search exits from MIR",
 "C12": "abstract interpretation of one poll per abstract state: feasible relations of yielded keys to the bounds; decision table of the builder",
 "C13": "abstract interpretation: closed-form listing of positions evaluated over node shapes, typestate of visit order",
 "C14": "typestate analysis of the poll state machine (wake-ups, completed futures, error propagation)",
 "C15": "value numbering of the keys and bounds passed to the tree",
 "C16": "abstract interpretation with linear facts on the log length at every append and root read",
 "C17": "abstract interpretation of the generated encoders/decoders (wire table) and dataflow between messages and nodes",
 "C18": "error-flow analysis: every failing call or decode leads to an error result on all paths",
 "C19": "abstract interpretation of the tree's operations over logs of known malformed content with symbolic keys: reachable panics, missing errors, endless descents",
 "C20": "typestate/ownership analysis of the C interface (callback count, raw pointers, buffers)",
 "C21": "dataflow by value numbering: delegation with unchanged arguments and results",
 "C22": "dataflow: every root read is indexed by the length read in the same call; cache keys equal read indices",
 "C23": "effect and dataflow analysis of constructors and stream attachment",
 "C24": "abstract interpretation of the function that stores a record, over records of every small tree shape and order, to the message that is appended",
 "C25": "abstract interpretation of put, del and repair to closed-form node contents, compared with the agreed algorithm over all node shapes",
 "C26": "abstract interpretation of whole operations on logs that hold a tree of given shape, keys and values symbolic: answer and appended block compared per path with the map operation",
}
NA = {
 "C27": "equality with the output of another program (JavaScript), which is not part of the repository; its ingredients are C17, C24, C25.",
 "C28": "liveness and safety of the replication protocol live in the replicator/hypercore dependencies, whose source is not available here.",
 "C29": "crash atomicity is decided by hypercore's storage layer, whose source is not available here; the library's own share (one append per change) is C01.",
}
LEVEL = "Decides the property on all paths of the analysed functions, with loops generalised to inductive states."
def main():
    props = [json.loads(l) for l in open(V + "/properties.jsonl")]
    rules = {f[:-3].upper() for f in os.listdir(V + "/analysis/rules") if f.startswith("c") and f[1:3].isdigit()}
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in rules:
            checks.append({"property": i, "quick_cmd": "python3 analysis/check.py " + i, "thorough_cmd": "python3 analysis/check.py %s --thorough" % i,
                           "technique": T[i], "level": "other", "level_note": LEVEL + TRUST})
        else:
            na.append({"property": i, "reason": NA.get(i, "no check yet")})
    m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na,
         "notes": "Static analysis of rustc MIR. /repo has no hooks; the fix: commits are listed in known_findings.txt."}
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
    print(len(checks), "claimed,", len(na), "not")
main()
