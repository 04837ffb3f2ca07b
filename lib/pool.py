"""Properties C19 and C20: the pool.  TLC checks the algorithm (PoolAlgo) for
bounds, deadlocks and liveness, and enumerates the quiescent behaviours
(PoolGen); walks through all of them run on the real pool and TLC judges what
happened (PoolTrace).  Logs of concurrent calls with faults are judged by TLC
against PoolLog."""
from collections import deque
from core import *
import patience

LAWS = "INVARIANTS Places Bounded NoBlock NoWaste OpenBounded\nPROPERTY "


def algo(ctx, procs, cap, faults, closer):
    cfg = "CONSTANTS\n%s\nProcs = {%s}\nCap = %d\nMaxFaults = %d\nCloser = %s\nSPECIFICATION %s\n%s\nCHECK_DEADLOCK TRUE\n"
    args = (
        "\n".join("p%d = p%d" % (i, i) for i in range(procs)), ", ".join("p%d" % i for i in range(procs)), cap, faults, closer)
    for spec, props in (("Heals", "Returns"), ("Spec", "GivesUp NotHeldUp")):
        res = ctx.tlc("PoolAlgo", cfg % (args + (spec, LAWS + props)), timeout=3000, heap="12g")
        if not res["ok"]:
            raise CheckError("PoolAlgo breaks its own laws:\n" + res["text"][-2000:])
    ctx.exhaustive.append("algorithm model: %d callers, capacity %d, %d faults: %d states" % (procs, cap, faults, res["states"]))


def walks(edges, init, r, length):
    """paths from init that together take every edge"""
    out = {}
    for e in edges:
        out.setdefault(e[0], []).append(e)
    todo = {s: [e for e in es] for s, es in out.items()}
    for es in todo.values():
        r.shuffle(es)
    left = len(edges)
    paths = []
    while left:
        s, path, fresh = init, [], 0
        while len(path) < length:
            if todo.get(s):
                e = todo[s].pop()
                left -= 1
                fresh += 1
                path.append(e)
                s = e[2]
                continue
            prev, q, goal = {s: None}, deque([s]), None
            while q:
                u = q.popleft()
                if u != s and todo.get(u):
                    goal = u
                    break
                for e in out.get(u, []):
                    if e[2] not in prev:
                        prev[e[2]] = e
                        q.append(e[2])
            if goal is None:
                break
            way = []
            while goal != s:
                way.append(prev[goal])
                goal = prev[goal][0]
            path += way[::-1]
            s = path[-1][2]
        if not fresh:
            raise CheckError("unreachable transitions")
        paths.append([e[1] for e in path])
    return paths


def steps(ctx, n, cap, faults, slow=False):
    out = ctx.tmp("-pool.txt")
    res = ctx.tlc("PoolGen", "CONSTANTS N = %d\nCap = %d\nFaults = %s\nSlow = %s\nEmit = TRUE\nSPECIFICATION Spec\nINVARIANTS Bounded NoWaste\nCHECK_DEADLOCK FALSE\n" %
                  (n, cap, "TRUE" if faults else "FALSE", "TRUE" if slow else "FALSE"), out=out, timeout=1200)
    if not res["ok"]:
        raise CheckError("PoolGen breaks its own laws:\n" + res["text"][-2000:])
    seen = {}
    with open(out) as fp:
        for line in fp:
            if line.startswith('"'):
                x = json.loads(json.loads(line))
                key = lambda st: json.dumps(st, sort_keys=True)
                seen[(key(x["src"]), x["op"], x["p"], x["m"])] = (
                    key(x["src"]), dict(op=x["op"], p=x["p"], m=x["m"], n=x["n"], open=x["open"]), key(x["dst"]))
    init = json.dumps({"mode": "up", "idle": [], "held": ["no"] * n, "wait": []}, sort_keys=True)
    edges = [seen[k] for k in sorted(seen)]
    r = ctx.rng("steps%d%d%s%s" % (n, cap, faults, slow))
    jobs = [dict(cap=cap, steps=p) for p in walks(edges, init, r, 150)]
    name = "callers %d, capacity %d%s" % (n, cap, ", faults" if faults else "") + (", slow attempts" if slow else "")
    ctx.exhaustive.append("%s: all %d transitions of the quiescent pool" % (name, len(edges)))
    return name, jobs


def judge(ctx, module, name, recs, extra=""):
    f = write_lines(ctx.tmp(".ndjson"), recs)
    res = ctx.tlc(module, 'CONSTANTS TraceFile = %s\nJudge = "%s"\nSPECIFICATION Spec\nINVARIANT Conforms%s\nALIAS Alias\nCHECK_DEADLOCK FALSE\n' %
                  (tla_str(f), ctx.prop, extra), timeout=1800)
    n = sum(len(x["ev"]) for x in recs)
    ctx.extra["events_" + name.replace(" ", "_").replace(",", "")] = n
    if res["ok"]:
        if res["states"] < n:
            raise CheckError("TLC looked at %d states of %d events" % (res["states"], n))
        ctx.traces += len(recs)
        ctx.sample({name: recs[0]["ev"][:8]})
        return
    a = alias_values(res["text"])
    if "t" not in a:
        raise CheckError("cannot read the counterexample:\n" + res["text"][-3000:])
    x = recs[int(a["t"]) - 1]
    i = int(a["i"])
    ctx.violation("%s: event %d: %s; %s%s" % (name, i, jline(x["ev"][i - 1])[:500], "specification: " + a.get("bad", a.get("st", "?"))[:500],
                                             "; calls that never came back: " + a["active"][:100] if "Finished is violated" in res["text"] else ""),
                  {k: (v if k != "ev" else v[:i]) for k, v in x.items()})


def run(ctx, mode, name, jobs, instrument=(), n=6):
    parts = min(n, len(jobs))
    srcs = [write_lines(ctx.tmp(".ndjson"), jobs[p::parts]) for p in range(parts)]
    recs = [None] * len(jobs)
    for p, (out, bad) in enumerate(ctx.run_parts([(mode, s, 800, instrument) for s in srcs], parts)):
        if bad:
            ctx.violation("%s: %s %s" % (name, bad["what"], bad["detail"]), bad)
            return None
        recs[p::parts] = read_lines(out)
    return recs


def runs(ctx):
    r = ctx.rng("logs")
    out = []
    for i in range(ctx.pick(220, 4000)):
        how = ["command", "exec", "command", "exec", "client"][i % 5]
        size = r.choice([1, 1, 2, 2, 3, 4, 5, 8, 20, 0, -1])
        cap = size if size > 0 else 20
        theme = r.choice(["calm", "calm", "break", "idle", "refuse", "cancel", "down", "pclose", "garble", "all", "all"])
        j = dict(size=size, cap=cap, callers=r.choice([2, 3, 5, 8, cap, cap + 1, 2 * cap + 2]), calls=r.choice([3, 5, 10, 20]), how=how,
                 delay=r.choice([0, 50, 200, 1000]), close=0, idle=0, refuse=0, cancel=0, down=0, pclose=0, panic=0, garble=0, barrier=True, seed=r.randrange(1, 10**6))
        on = lambda t: theme in (t, "all") and (theme == t or r.randrange(2))
        if on("break"):
            j["close"] = r.choice([5, 20, 60])
        if on("idle"):
            j["idle"] = r.choice([5, 20, 100])
        if on("refuse"):
            j["refuse"] = r.choice([20, 60])
        if on("cancel") and how != "client":
            j["cancel"] = r.choice([10, 50])
        if how == "exec" and r.randrange(3) == 0:
            j["panic"] = r.choice([5, 30, 100])
        if on("down"):
            j["down"] = r.choice([1, 3])
        if on("pclose") and how != "client":
            j["pclose"] = r.choice([1, 3])
        if on("garble"):
            j["garble"] = r.choice([5, 20, 60])
            if how != "client" and r.randrange(2):
                j["pclose"], j["barrier"] = 1, False
        out.append(j)
    return out


def check(ctx):
    if ctx.prop == "C20":
        patience.scenarios(ctx, patience.CONTEXTS, 40)
    ctx.assumptions = ["TLC and the specifications in spec/Pool*.tla", "loopback TCP; the schedules of the Go scheduler are sampled"]
    for args in ctx.pick([(3, 2, 1, "TRUE"), (2, 1, 2, "TRUE")], [(3, 2, 2, "TRUE"), (3, 1, 2, "TRUE"), (2, 2, 3, "TRUE"), (4, 2, 1, "FALSE")]):
        algo(ctx, *args)
    jobs = []
    for args in ctx.pick([(2, 1, True), (3, 2, True, True), (4, 2, False)], [(2, 1, True), (3, 1, True, True), (3, 2, True, True), (4, 2, True), (4, 2, True, True), (4, 3, True), (5, 3, False)]):
        name, js = steps(ctx, *args)
        jobs += js
    recs = run(ctx, "poolsteps", "steps", jobs, n=8)
    if recs:
        judge(ctx, "PoolTrace", "steps", recs)
    logs = runs(ctx)
    half = len(logs) // 2
    for name, js, instr in (("concurrent calls", logs[:half], ()), ("concurrent calls, more schedules", logs[half:], ("cache", "redis"))):
        recs = run(ctx, "poollog", name, js, instr)
        if recs:
            judge(ctx, "PoolLog", name, recs, " Finished" if ctx.prop == "C20" else "")
