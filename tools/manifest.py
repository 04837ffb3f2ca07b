#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the families that exist"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, "lib")]
import check
GRAPH = "explicit TLA+ specification (KV.tla) explored by TLC; every transition replayed on the real cache; random traces of the real cache validated by TLC"
LIN = "explicit TLA+ specification (KV.tla, KVLin.tla); concurrent histories of the real cache checked by TLC for a sequential explanation"
TECH = {"kv": GRAPH, "lin": LIN,
        "resp": "explicit TLA+ specification of the wire format (Resp.tla); messages and broken streams enumerated by TLC and recorded runs of the real connection validated by TLC",
        "client": "explicit TLA+ specification of requests and results (Client.tla); recorded calls of every method against a scripted server validated by TLC",
        "pool": "explicit TLA+ specification of the pool (Pool.tla) model-checked by TLC; its behaviours replayed on the real pool and concurrent traces of the real pool validated by TLC",
        "patience": "explicit TLA+ specification of how long a call may last (Patience.tla); TLC-enumerated sequences of server behaviour played against the real client, outcomes and durations validated by TLC",
        "rdb": "explicit TLA+ specification of the snapshot format (Rdb.tla) whose encodings TLC enumerates; loads of the real code validated by TLC",
        "replica": "explicit TLA+ specification of master, stream and client (Replica.tla); TLC-enumerated scenarios played by a fake master against the real code, traces validated by TLC"}
NOTE = {"kv": "exhaustive over the small constants of the graphs, sampled over rich values; virtual time; trusts TLC and the specification",
        "lin": "schedules sampled (Go scheduler with a scheduling point before every statement of the cache package); trusts TLC and the specification",
        "resp": "exhaustive over short streams and their cuts, sampled over long ones; trusts TLC and the specification",
        "client": "every method with every kind of reply, arguments sampled; trusts TLC and the specification",
        "pool": "model exhaustive for small numbers of callers; schedules of the real pool sampled; trusts TLC and the specification",
        "patience": "all pairs of server behaviours for ten configurations, sampled beyond; real time with a tolerance; trusts TLC and the specification",
        "rdb": "exhaustive over small files and their cuts, sampled over large ones; trusts TLC and the specification",
        "replica": "scenarios exhaustive within small bounds, real schedules sampled; trusts TLC and the specification"}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    fam = check.FAMILY[p["id"]]
    if not os.path.exists("%s/lib/%s.py" % (V, fam)):
        na.append({"property": p["id"], "reason": "machinery not built yet"})
        continue
    t, n = TECH[fam], NOTE[fam]
    if p["id"] in ("C05", "C06", "C07", "C08", "C13"):
        t += "; concurrent histories checked for a sequential explanation (KVLin.tla)"
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"], "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"], "technique": t, "level": "model_checking", "level_note": n})
json.dump({"version": 1, "setup_cmd": "python3 -m py_compile check.py lib/*.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks: the checks drive the public API; scheduling points are added to a copy of the cache package through a build overlay."},
          open(V + "/MANIFEST.json", "w"), indent=1)
