"""Property C33: how long a client waits (spec/Patience.tla).  TLC enumerates
sequences of moods of the server (PatienceEx); they are played against the
real client and TLC judges the outcomes and how long they took
(PatienceTrace).  Only what happens again when tried alone is a verdict."""
from core import *

CFGS = [dict(t=t, r=r, w=w, via=via, greets=g) for t, r, w, via, g in (
    (0, 0, 0, "client", False), (1200, 0, 0, "client", True), (0, 1000, 0, "client", False), (0, 1000, 0, "client", True), (0, 0, 1000, "client", False),
    (1100, 1500, 1700, "client", False), (1900, 1300, 1100, "client", True),
    (1200, 0, 0, "conn", False), (0, 1000, 1200, "conn", False), (1700, 1100, 1400, "conn", False),
    (1200, 0, 0, "ctx", True), (1100, 0, 0, "exec", False))]
CONTEXTS = [dict(t=t, r=0, w=0, via=via, greets=g) for t, via, g in (
    (1200, "ctx", False), (1000, "ctx", True), (1200, "exec", False), (1000, "exec", True), (0, "ctx", False))]
SLACK = 8000


def tla(c):
    return "[t |-> %d, r |-> %d, w |-> %d, via |-> \"%s\", greets |-> %s]" % (c["t"], c["r"], c["w"], c["via"], str(c["greets"]).upper())


def enumerate_(ctx, length, callers, cfgs):
    out = ctx.tmp("-patience.txt")
    # a cfg file can not hold records
    mod = "MCPatience%d%d" % (length, callers)
    with open(os.path.join(ctx.path("spec"), mod + ".tla"), "w") as fp:
        fp.write("---- MODULE %s ----\nEXTENDS PatienceEx\nTheCfgs == {%s}\n====\n" % (mod, ", ".join(map(tla, cfgs))))
    res = ctx.tlc(mod, "CONSTANTS Len_ = %d\nCallers = {%s}\nCfgs <- TheCfgs\nSPECIFICATION Spec\nINVARIANTS Heals Ends\nCHECK_DEADLOCK FALSE\n" %
                  (length, ", ".join(str(k + 1) for k in range(callers))), out=out, timeout=1200)
    if not res["ok"]:
        raise CheckError("Patience breaks its own laws:\n" + res["text"][-2000:])
    jobs = []
    with open(out) as fp:
        for line in fp:
            if line.startswith('"'):
                jobs.append(json.loads(json.loads(line)))
    jobs.sort(key=jline)
    return jobs


def plan(j):
    c = j["cfg"]
    steps = []
    for s in j["steps"] + [dict(mood="up", calls=1, o="own", bound=0)]:
        wait = max(c["t"], c["r"], c["w"], 500) + 400 if s["o"] == "lasts" else s["calls"] * s["bound"] + SLACK + 1000
        steps.append(dict(mood=s["mood"], calls=s["calls"], wait=wait))
    return dict(cfg=c, steps=steps)


def play(ctx, jobs, n):
    parts = min(n, len(jobs))
    srcs = [write_lines(ctx.tmp(".ndjson"), jobs[p::parts]) for p in range(parts)]
    recs = [None] * len(jobs)
    for p, (out, bad) in enumerate(ctx.run_parts([("patience", s, 800) for s in srcs], parts)):
        if bad:
            ctx.violation("%s: %s" % (bad["what"], bad["detail"]), bad)
            return None
        recs[p::parts] = read_lines(out)
    return recs


def judge(ctx, recs):
    """-> None, or (number of the scenario, event, what is wrong)"""
    f = write_lines(ctx.tmp(".ndjson"), recs)
    res = ctx.tlc("PatienceTrace", "CONSTANTS TraceFile = %s\nSlack = %d\nSPECIFICATION Spec\nINVARIANT Conforms\nALIAS Alias\nCHECK_DEADLOCK FALSE\n" %
                  (tla_str(f), SLACK), timeout=900)
    if res["ok"]:
        if res["states"] < sum(len(x["ev"]) for x in recs):
            raise CheckError("TLC did not look at every event")
        return None
    a = alias_values(res["text"])
    if "t" not in a:
        raise CheckError("cannot read the counterexample:\n" + res["text"][-3000:])
    return int(a["t"]) - 1, int(a["i"]), a.get("bad", "?")


def check(ctx):
    ctx.assumptions = ["TLC and the specification in spec/Patience.tla", "loopback TCP; real time, with %d ms of tolerance for what should end" % SLACK]
    scenarios(ctx, CFGS, 120)


def scenarios(ctx, cfgs, pairs):
    r = ctx.rng("patience")
    one = enumerate_(ctx, 2, 1, cfgs)
    two = enumerate_(ctx, 2, 2, cfgs)
    two = [j for j in two if any(s["calls"] > 1 for s in j["steps"])]
    ctx.exhaustive.append("how long calls last: all %d pairs of moods for %d configurations" % (len(one), len(cfgs)))
    jobs = one + (two if ctx.thorough else r.sample(two, pairs))
    if ctx.thorough:
        jobs += r.sample(enumerate_(ctx, 3, 2, cfgs), 600)
    r.shuffle(jobs)
    jobs = [plan(j) for j in jobs]
    recs = play(ctx, jobs, 8)
    if recs is None:
        return
    found = 0
    while recs and found < 30:
        bad = judge(ctx, recs)
        if bad is None:
            ctx.traces += len(recs)
            ctx.extra["events_moods"] = sum(len(x["ev"]) for x in recs)
            ctx.sample(recs[0])
            return
        t, i, what = bad
        found += 1
        # a busy machine may be late: once more, alone
        again = None
        for _ in range(2):
            alone = play(ctx, [jobs[t]], 1)
            if alone is None:
                return
            again = judge(ctx, alone)
            if again is None:
                break
        if again is not None:
            ctx.violation("%s: %s with %s" % (again[2], jline(alone[0]["ev"][again[1] - 1]), jline(alone[0]["cfg"])), alone[0])
            return
        del recs[t], jobs[t]
    if recs:
        raise CheckError("%d scenarios went wrong only once" % found)
