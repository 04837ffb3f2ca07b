#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   decides one property on the current tree of /repo

exit 0: held on everything explored; exit 1 with a VIOLATION line: broken;
anything else: the check could not be carried out."""
import importlib, json, os, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import core

FAMILY = {}
for fam, ids in {
    "kv": ["C%02d" % i for i in range(1, 14)] + ["C28"],
    "lin": ["C14", "C15", "C16"],
    "resp": ["C17"],
    "client": ["C18"],
    "pool": ["C19", "C20"],
    "patience": ["C33"],
    "rdb": ["C21", "C22", "C23", "C24", "C25"],
    "replica": ["C26", "C27", "C29", "C30", "C31", "C32"],
}.items():
    for i in ids:
        FAMILY[i] = fam


def known(prop):
    """lines 'known: property=<id> key=<...>' of the known-findings file"""
    out = []
    path = os.path.join(core.VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known: property=%s " % prop):
                out.append(line.split(" ", 2)[2].strip())
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = core.Ctx(prop, tier, seed)
    code = 2
    try:
        mod = importlib.import_module(FAMILY[prop])
        mod.check(ctx)
        code = report(ctx)
    except core.CheckError as e:
        core.log("CHECK-ERROR property=%s %s" % (prop, e))
        if ctx.violations:   # found before the rest could not be carried out
            code = report(ctx)
    except Exception:
        core.log("CHECK-ERROR property=%s\n%s" % (prop, traceback.format_exc()))
    finally:
        if os.environ.get("VERIF_KEEP"):
            core.log("kept", ctx.dir)
        else:
            ctx.close()
    sys.stdout.flush()
    sys.exit(code)


def report(ctx):
    new, listed = [], []
    keys = known(ctx.prop)
    for v in ctx.violations:
        hit = [k for k in keys if k.startswith("key=" + v.key + " ")]
        (listed if hit else new).append(v)
        if hit:
            core.log("KNOWN-FINDING: property=%s %s" % (ctx.prop, v.text))
    os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
    cov = {"states": ctx.states, "transitions": ctx.transitions,
           "traces_validated_against_impl": ctx.traces, "samples": ctx.samples}
    cov.update(ctx.extra)
    if ctx.exhaustive:
        cov["explanation"] = "; ".join(ctx.exhaustive)
    ev = {"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": "model_checking", "coverage": cov,
          "assumptions": ctx.assumptions, "wall_s": round(time.time() - ctx.started, 2), "violations": len(new)}
    with open(os.path.join(core.VERIF, "evidence", ctx.prop + ".json"), "w") as fp:
        json.dump(ev, fp, indent=1)
        fp.write("\n")
    core.log("%s %s: %d states, %d transitions, %d traces validated, %.1fs" %
             (ctx.prop, ctx.tier, ctx.states, ctx.transitions, ctx.traces, time.time() - ctx.started))
    if not new:
        core.log("OK property=%s" % ctx.prop)
        return 0
    os.makedirs(os.path.join(core.VERIF, "evidence", "replays"), exist_ok=True)
    path = os.path.join(core.VERIF, "evidence", "replays", ctx.prop + ".json")
    with open(path, "w") as fp:
        json.dump([{"what": v.text, "replay": v.replay} for v in new[:20]], fp, indent=1)
        fp.write("\n")
    for v in new[:5]:
        core.log("violated: " + v.text[:1500])
    core.log("VIOLATION property=%s replay=%s" % (ctx.prop, path))
    return 1


if __name__ == "__main__":
    main()
