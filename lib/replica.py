"""Properties C26, C27 and C29-C32: the replica (spec/Replica.tla).  TLC
explores a transfer byte by byte (SyncEx) and a replica with its master
(ReplicaEx), checks their laws, and prints scenarios; the real code runs these
and random ones against a scripted master and server; TLC validates what was
recorded (SyncTrace, ReplicaTrace, AckTrace)."""
from core import *
import kv, rdb

PARTIAL = {"", "+PON", "+PONG", "$4\r\nPON", "$4\r\nPONG"}


def bulk(v):
    return dict(t="bulk", v=v)


def cmd(*words):
    return dict(t="array", v=[bulk(w) for w in words])


def wire(m):
    t, v = m["t"], m["v"]
    if t == "array":
        return "*%d\r\n" % len(v) + "".join(wire(x) for x in v)
    if t == "bulk":
        return "$%d\r\n%s\r\n" % (len(v), v)
    return {"simple": "+", "error": "-", "int": ":"}.get(t, "$-1" if t == "nil" else None) + v + "\r\n"


def printed(path):
    """the distinct objects a specification printed"""
    seen = {}
    with open(path) as fp:
        for line in fp:
            if line.startswith('"'):
                seen[line] = 1
    return [json.loads(json.loads(l)) for l in sorted(seen)]


# ------------------------------------------------------------------ C26, C27
def transfers(ctx, name, jobs, parts=8):
    srcs = [write_lines(ctx.tmp(".ndjson"), jobs[p::parts]) for p in range(parts)]
    recs = [None] * len(jobs)
    for p, (out, bad) in enumerate(ctx.run_parts([("sync", s, 800) for s in srcs], parts)):
        if bad:
            ctx.violation("%s: %s %s" % (name, bad["what"], bad["detail"]), bad)
            return
        recs[p::parts] = read_lines(out)
    f = write_lines(ctx.tmp(".ndjson"), recs)
    res = ctx.tlc("SyncTrace", 'CONSTANTS TraceFile = %s\nJudge = "%s"\nSPECIFICATION Spec\nINVARIANT Conforms\nALIAS Alias\nCHECK_DEADLOCK FALSE\n' %
                  (tla_str(f), ctx.prop), timeout=1800, heap="10g")
    n = sum(len(x["runs"]) for x in recs)
    ctx.extra["transfers_" + name] = n
    if res["ok"]:
        if res["states"] < 2 * len(recs):
            raise CheckError("TLC looked at %d states of %d records" % (res["states"], len(recs)))
        ctx.traces += n
        ctx.sample({name: {k: v for k, v in recs[len(recs) // 2].items()}} if len(jline(recs[len(recs) // 2])) < 3000 else {name: "large"})
        return
    a = alias_values(res["text"])
    if "i" not in a:
        raise CheckError("cannot read the counterexample:\n" + res["text"][-3000:])
    x = recs[int(a["i"]) - 1]
    ctx.violation("%s: %s: ping answered by %r, the request by %r %s: %s" %
                  (name, a.get("bad"), x["ping"][:60], x["sync"][:300], x["addr"],
                   "; ".join("in pieces of %d: %s %s, asked %s, file %r, delivered %s, end %s, closed %s" %
                             (y["pieces"], y["res"], y["txt"][:60], jline(y["reqs"])[:100], y["file"][:100], jline(y["msgs"])[:200], y["end"], y["closed"]) for y in x["runs"])), x)


def words(r):
    k = r.randrange(12)
    if k == 0:
        return [r.choice(["PING", "ping", "PiNg"])]
    if k < 4:
        return [r.choice(["SELECT", "select", "SeLect"]), str(r.choice([0, 0, 1, 2, 15]))]
    if k == 4:
        return r.choice([["select"], ["select", "x"], ["select", "1", "2"], ["pinging"], ["ping", "a"], ["selected", "1"], [""], ["", "ping"], ["get", "ping"], ["set", "select", "1"]])
    if k == 5:
        return [r.choice(["mset", "del", "x"])] + [kv.value(r, big=False) for _ in range(r.choice([1, 5, 50, 300]))]
    return ["set", r.choice(kv.KEYS), kv.value(r, big=r.randrange(10) == 0)]


def message(r):
    k = r.randrange(20)
    if k == 0:
        return r.choice([dict(t="array", v=[]), dict(t="nil", v=""), dict(t="simple", v="OK"), dict(t="simple", v="ping"), dict(t="error", v="ERR x"), dict(t="int", v="5"),
                         bulk("ping"), bulk(""), bulk("\r\n")])
    if k == 1:
        m = cmd(*words(r))
        if m["v"][0]["v"].lower() == "select":    # with something that is no string: left open
            return m
        m["v"][r.randrange(1, len(m["v"]) + 1):] = [r.choice([dict(t="int", v="7"), dict(t="simple", v="a b"), dict(t="nil", v=""), dict(t="array", v=[bulk("x")])])]
        return m
    return cmd(*words(r))


def stream(r, n):
    return "".join(wire(message(r)) for _ in range(n))


def payload(r, n):
    k = r.randrange(5)
    if k == 0:
        return "".join(chr(r.randrange(256)) for _ in range(n))
    if k == 1:
        return (r.choice(["\n", "\r\n", "$3\r\nabc\r\n", "*1\r\n$4\r\nPING\r\n", "\x00", "\xff"]) * n)[:n]
    return kv.blob(r, n) if n else ""


def transfer_jobs(ctx):
    r = ctx.rng("transfers")
    jobs = []
    for i in range(ctx.pick(300, 4000)):
        n = r.choice([0, 1, 2, 10, 100, 1000, 4090, 4094, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 65535, 65536, 100000, r.randrange(20000)])
        lead = r.choice(["", "", "\n", "\n" * 20, "\r\n\n", "\n" * 5000])
        p = payload(r, n)
        ms = [wire(message(r)) for _ in range(r.choice([0, 1, 3, 20, 100]))]
        s = lead + "$%d\r\n" % n + p + "".join(ms)
        k = r.randrange(8)
        if k == 0:
            s = s[:r.randrange(len(s) + 1)]
        elif k == 1:
            s = s[:max(0, len(s) - r.randrange(1, 30))]
        elif k == 2 and ms:
            # the stream is damaged somewhere
            at = r.randrange(len(ms))
            ms[at] = r.choice(["$5\r\nab", "x\r\n", "*1\r\n$3\r\nabcd\r\n", "*2\r\n$3\r\nset\r\n", "*1\r\n$-5\r\n", "$99999999999\r\n", "*x\r\n", ":1x\r\n", "$3\r\nabcx"])
            s = lead + "$%d\r\n" % n + p + "".join(ms)
        elif k == 3 and ctx.prop == "C26":
            s = lead + r.choice(["-ERR %s\r\n" % kv.blob(r, 30).replace("\n", " ").replace("\r", " "), "+CONTINUE\r\n", ":5\r\nabcde", "*3\r\n", "$-1\r\n", "$-5\r\nabcde", "$%d\r\n" % 10**11, "$\r\n", "FULL\r\n"])
        jobs.append(dict(ping=r.choice(["+PONG\r\n"] * 5 + ["$4\r\nPONG\r\n"]), sync=s, wait=True, addr="", pieces=[0, -r.randrange(1, 10**6)]))
    if ctx.prop == "C26":
        for a, s in [("down", "$1\r\na"), ("nodir", "$1\r\na"), ("full", "$1\r\na"), ("full", "$5000\r\n" + "a" * 5000), ("full", "$100000\r\n" + "b" * 100000)]:
            jobs.append(dict(ping="+PONG\r\n", sync=s, wait=True, addr=a, pieces=[0, 1 if len(s) < 100 else 0]))
    else:   # more than any buffer takes
        for n in ctx.pick([12000], [12000, 25000, 60000]):
            s = "$3\r\nabc" + "".join(wire(cmd("set", "k%d" % (i % 7), str(i)) if i % 100 else cmd("select", str(i // 100 % 3))) for i in range(n))
            jobs.append(dict(ping="+PONG\r\n", sync=s, wait=True, addr="", pieces=[0], lag=300))
        for x in r.sample(jobs, ctx.pick(40, 200)):     # the end, while an earlier error waits
            jobs.append(dict(x, full=True, pieces=[0]))
    return jobs


def transfer(ctx):
    out = ctx.tmp("-sync.txt")
    res = ctx.tlc("SyncEx", "CONSTANTS MaxMsgs = %d\nEmit = TRUE\nSPECIFICATION Spec\nINVARIANTS Outcome Delivered Printed\nCHECK_DEADLOCK FALSE\n" % ctx.pick(2, 3), out=out, timeout=1800, heap="10g")
    if not res["ok"]:
        raise CheckError("SyncEx breaks its own laws:\n" + res["text"][-3000:])
    r = ctx.rng("scenarios")
    cases = printed(out)
    ctx.exhaustive.append("a transfer and a stream of at most %d messages, ended after every byte: %d cases" % (ctx.pick(2, 3), len(cases)))
    if len(cases) > 60000:
        cases = r.sample(cases, 60000)
    jobs = [dict(ping=x["ping"], sync=x["sync"], wait=x["ping"] not in PARTIAL, addr="", pieces=[0, 1] if len(x["sync"]) < 40 or r.randrange(4) == 0 else [0, -r.randrange(1, 10**6)]) for x in cases]
    transfers(ctx, "enumerated", jobs)
    transfers(ctx, "random", transfer_jobs(ctx))


# ------------------------------------------------------------ C29, C30, C31
FAR = 10**6
AT = [dict(t="1000", n=-FAR), dict(t="4102444800000", n=FAR)]


def ttl_at(w):
    """where a relative deadline is, and whether it is in seconds"""
    name = w[0].lower()
    if len(w) == 4 and name in ("setex", "psetex"):
        return 2, name == "setex"
    if len(w) == 3 and name in ("expire", "pexpire"):
        return 2, name == "expire"
    if name == "set":
        for i in range(3, len(w) - 1):
            if w[i].lower() in ("ex", "px"):
                return i + 1, w[i].lower() == "ex"


def ttl_of(m):
    """a relative deadline, in milliseconds"""
    if m["t"] != "array" or not m["v"] or not all(x["t"] == "bulk" for x in m["v"]):
        return None
    w = [x["v"] for x in m["v"]]
    w[0] = w[0].lower()
    p = ttl_at(w)
    if not p:
        return None
    try:
        return int(w[p[0]]) * (1000 if p[1] else 1)
    except ValueError:
        return None


class Steps:
    """the steps of one run; db: the database selected in the stream"""

    def __init__(self, tag="s"):
        self.steps, self.db, self.n, self.tag = [], 0, 0, tag

    def track(self, ms):
        for m in ms:
            if m["t"] == "array" and len(m["v"]) == 2 and m["v"][0]["t"] == "bulk" and m["v"][0]["v"].lower() == "select" and m["v"][1]["v"].isdigit():
                self.db = int(m["v"][1]["v"])

    def put(self, e, ms=(), **kw):
        ms = list(ms)
        self.track(ms)
        ttl = [t for t in map(ttl_of, ms) if t and 0 < t < 100000]
        self.steps.append(dict(e=e, ms=ms, ttl=ttl, **kw))
        return self

    def send(self, ms):
        return self.put("send", ms)

    def drain(self, ms, e="drain", **kw):
        """send, and wait until a last write can be read"""
        self.n += 1
        self.track(ms)
        k, v = "zz" + self.tag, "%s%d" % (self.tag, self.n)
        mark = [cmd("set", k, v)]
        if self.db:
            mark = [cmd("select", "0")] + mark + [cmd("select", str(self.db))]
        return self.put(e, list(ms) + mark, k=k, v=v, **kw)

    def lose(self, ms, how, junk=""):
        return self.drain(ms, "lose", how=how, junk=junk)

    def gets(self, keys, rep=None):
        for k in keys:
            self.steps.append(dict(e="get", k=k, **({"rep": rep} if rep else {})))
        return self


def job(b, steps, scores=(), at=(), patch=(), pieces=0, lead=""):
    return dict(b=list(b), scores=list(scores), at=list(at), patch=list(patch), pieces=pieces, lead=lead, steps=steps.steps if isinstance(steps, Steps) else steps)


EMPTY = list(b"REDIS0009\xff")


def runs(ctx, name, jobs, parts=8, kept=None):
    """kept: judge commands under way at a deadline as the master means them; what fails is then the finding of that name"""
    began = time.time()
    parts = min(parts, len(jobs))
    srcs = [write_lines(ctx.tmp(".ndjson"), jobs[p::parts]) for p in range(parts)]
    recs = []
    for p, (out, bad) in enumerate(ctx.run_parts([("replica", s, 800) for s in srcs], parts)):
        if bad:
            ctx.violation("%s: %s %s" % (name, bad["what"], bad["detail"]), bad)
            return
        recs += read_lines(out)
    if sum(x["kind"] == "run" for x in recs) != len(jobs):
        raise CheckError("%d runs of %d" % (len(recs), len(jobs)))
    f = write_lines(ctx.tmp(".ndjson"), recs)
    ran = time.time()
    res = ctx.tlc("ReplicaTrace", 'CONSTANTS TraceFile = %s\nJudge = "%s"\nKept = %s\nSPECIFICATION Spec\nINVARIANT Conforms\nALIAS Alias\nCHECK_DEADLOCK FALSE\n' %
                  (tla_str(f), ctx.prop, "TRUE" if kept else "FALSE"), timeout=1800, heap="10g")
    ctx.extra["seconds_" + name] = [round(ran - began, 1), round(time.time() - ran, 1)]
    n = sum(len(x["ev"]) for x in recs)
    gets = [e for x in recs for e in x["ev"] if e["e"] == "get"]
    ctx.extra["runs_" + name] = len(jobs)
    ctx.extra["reads_" + name] = len(gets) + sum(len(g) for x in recs for e in x["ev"] if e["e"] == "race" for g in e["reads"])
    ctx.extra["undecided_" + name] = sum(e["amb"] for e in gets)
    ctx.extra["idle_percent_" + name] = max([100 * x["cpu"] // x["wall"] for x in recs if x["kind"] == "idle"], default=0)
    if res["ok"]:
        if res["states"] < n:
            raise CheckError("TLC looked at %d states of %d events" % (res["states"], n))
        ctx.traces += len(jobs)
        x = recs[len(recs) // 2]
        if len(jline(x)) < 4000:
            ctx.sample({name: x})
        return
    a = alias_values(res["text"])
    if "t" not in a:
        raise CheckError("cannot read the counterexample:\n" + res["text"][-3000:])
    x = recs[int(a["t"]) - 1]
    at = int(a["i"])
    if x["kind"] == "idle":
        ctx.violation("%s: %s: %d ms of processor time in %d ms" % (name, a.get("bad"), x["cpu"], x["wall"]), x)
        return
    short = lambda e: jline({k: v for k, v in e.items() if k != "reads"})[:500]
    ctx.violation("%s: %s at event %d %s; snapshot %s; before: %s; the copy could be: %s" %
                  (name, a.get("bad"), at, short(x["ev"][at - 1]), bytes(x["b"][:200]), [short(e) for e in x["ev"][max(0, at - 4):at - 1]], a.get("ss", "?")[:500]),
                  dict(x, ev=x["ev"][:at]), key=kept if kept and at > 2 and x["ev"][at - 1]["e"] == "get" else None)


def scenarios(ctx, ops, pre, send, app=0, bad=(), reps=(), keys=("a",), limit=60000):
    json.dump(list(bad), open(ctx.path("spec/bad.json"), "w"))
    json.dump(list(reps), open(ctx.path("spec/reps.json"), "w"))
    out = ctx.tmp("-replica.txt")
    cfg = "CONSTANTS Ks = %s\nOps = %s\nPreMax = %d\nSendMax = %d\nAppMax = %d\nKept = FALSE\nEmit = TRUE\nSPECIFICATION Spec\nVIEW Scenario\nCONSTRAINT Eager\nINVARIANTS Converged Past ReadThrough ReadsPast Printed\nCHECK_DEADLOCK FALSE\n" % (
        tla_set(keys), tla_set(ops), pre, send, app)
    res = ctx.tlc("ReplicaEx", cfg, out=out, timeout=1800, heap="10g")
    if not res["ok"]:
        raise CheckError("ReplicaEx breaks its own laws:\n" + res["text"][-3000:])
    got = printed(out)
    os.unlink(out)
    ctx.exhaustive.append("every master with keys %s preparing %d and sending %d of %s%s%s: %d scenarios" %
                          ("".join(keys), pre, send, ",".join(ops), " and %d messages nobody can execute" % len(bad) if bad else "", " with %d calls of the application" % app if app else "", len(got)))
    if len(got) > limit:
        got = ctx.rng("limit%d" % len(got)).sample(got, limit)
    return got


def laws(ctx, **kw):
    """deeper than scenarios can be run"""
    json.dump([], open(ctx.path("spec/bad.json"), "w"))
    json.dump([], open(ctx.path("spec/reps.json"), "w"))
    cfg = "CONSTANTS Ks = %s\nOps = %s\nPreMax = %d\nSendMax = %d\nAppMax = %d\nKept = %s\nEmit = FALSE\nSPECIFICATION Spec\nVIEW View2\nINVARIANTS Converged Past ReadThrough ReadsPast\nCHECK_DEADLOCK FALSE\n" % (
        tla_set(kw["keys"]), tla_set(kw["ops"]), kw["pre"], kw["send"], kw["app"], "TRUE" if kw.get("kept") else "FALSE")
    res = ctx.tlc("ReplicaEx", cfg, timeout=2400, heap="10g")
    if not res["ok"]:
        raise CheckError("ReplicaEx breaks its own laws:\n" + res["text"][-3000:])
    ctx.exhaustive.append("laws of the model (convergence, reads from the past only, reads through): keys %s, %d commands before and %d after the snapshot, with loss and passing time" %
                          ("".join(kw["keys"]), kw["pre"], kw["send"]))


def enumerated(ctx, name, cases, keys):
    r = ctx.rng(name)
    jobs = []
    for x in cases:
        st = Steps()
        at = 0
        if any(a["e"] == "set" and a["rep"]["kind"] == "msg" and a["rep"]["m"]["t"] == "bulk" for a in x["app"]):
            continue     # as an answer to a write: left open
        for a in x["app"]:
            if a["n"] > at or not st.steps:
                st.drain(x["sent"][at:a["n"]])
                at = a["n"]
            st.steps.append(dict(e=a["e"], k=a["k"], v=a["v"], rep=a["rep"]))
        rest = x["sent"][at:]
        k = r.randrange(6) if ctx.prop != "C31" else r.choice([0, 1, 2, 4])
        if k == 0:
            st.send(rest).gets(keys).drain([])
        elif k == 1:
            for i in range(len(rest)):
                st.send(rest[i:i + 1])
            st.drain([])
        elif k == 2:
            st.lose(rest, r.choice(["fin", "half", "junk"]), junk=r.choice(["x", "*1\r\n$3\r\nab", "*2\r\n$3\r\nset\r\n"]))
        else:
            st.drain(rest)
        st.gets(keys)
        jobs.append(job(x["b"], st, at=AT, pieces=r.choice([0] * 12 + [1, 3, 3]), lead=r.choice(["", "", "\n\n"])))
    runs(ctx, name, jobs)


def calm(r, m):
    """far deadlines instead of near ones"""
    t = ttl_of(m)
    w = m["v"] if m["t"] == "array" else []
    if t and 0 < t < 100000:
        w[ttl_at([x["v"] for x in w])[0]]["v"] = "1000000"
    for i in range(2, len(w)):
        if w[i]["v"][:1] == "@" and w[i]["v"][:2] != "@@" and (len(w) == 3 and w[0]["v"].lower() == "pexpireat" or w[i - 1]["v"].lower() == "pxat"):
            w[i]["v"] = "@%d" % r.choice([FAR, 10 * FAR, -5, 0, -FAR])
    return m


def gen(r, nkeys=3):
    return kv.Gen(r, dict(vals="safe", nkeys=nkeys, nfields=3))


def gmsg(r, g, bad=False):
    while True:
        c = g.msg()
        if c["kind"] != "array":
            m = dict(t=c["kind"], v={"int": "5", "nil": ""}.get(c["kind"], "ping"))
        else:
            m = cmd(*c["args"])
            w = c["args"]
            if w and w[0].lower() == "select" or c["n"] and not any(x.startswith("@") for x in w):
                continue
        return m


def snapshot(r, g, size):
    """a snapshot with the keys of g in several databases"""
    f = rdb.File(r)
    at = []
    for _ in range(r.choice([0, 1, 3])):
        f.meta()
    f.item([254, 0])
    used = set()
    for _ in range(size):
        k = r.randrange(10)
        if k == 0:
            f.item([254] + rdb.wlen(r, r.choice([0, 0, 1, 5])))
            used = set()
            continue
        key = g.key()
        if key in used:
            continue
        used.add(key)
        if r.randrange(4) == 0:
            n, t = r.choice([(-FAR, 1000), (FAR, 4102444800000)])
            f.item([252] + rdb.le(t, 8))
        name = rdb.wstr(r, [ord(c) for c in key])
        text = lambda: rdb.wstr(r, [ord(c) for c in g.val(key)])
        if k < 7:
            f.item([0] + name + text())
        elif k == 7:
            fs = r.sample(g.fields, r.randrange(1, len(g.fields) + 1))
            f.item([4] + name + [len(fs)] + sum((rdb.wstr(r, [ord(c) for c in q]) + text() for q in fs), []))
        elif k == 8:   # what the copy can not hold
            f.item([r.choice([1, 2])] + name + [1] + rdb.wstr(r, [120]))
        else:
            f.item([13] + name + rdb.wstr(r, f.ziplist([[102], [ord(c) for c in g.val(key)]])))
    f.bulkat = len(f.b)
    f.end()
    return f


def convergence(ctx):
    laws(ctx, keys=["a"], ops=["set", "del", "incr", "past", "soon", "hset", "flush", "flushall", "persist", "keep", "append"], pre=1, send=ctx.pick(2, 4), app=1)
    laws(ctx, keys=["a"], ops=["set", "del", "incr", "past", "soon", "setnx", "persist", "keep", "append"], pre=1, send=ctx.pick(2, 3), app=0, kept=True)
    if ctx.thorough:
        laws(ctx, keys=["a", "b"], ops=["setx", "del", "incr", "soon", "mset"], pre=1, send=3, app=1)
    ops = ["set", "setnx", "del", "incr", "append", "getset", "past", "far", "setex", "hset", "hdel", "setrange", "mset", "flush", "flushall", "persist", "keep", "setat"]
    enumerated(ctx, "enumerated", scenarios(ctx, ops, 1, ctx.pick(2, 3)), ["a"])
    enumerated(ctx, "enumerated, two keys", scenarios(ctx, ["setx", "incr", "del", "mset", "flush", "flushall"], 0, ctx.pick(2, 4), keys=("a", "b")), ["a", "b"])
    r = ctx.rng("histories")
    jobs = []
    for i in range(ctx.pick(250, 4000)):
        g = gen(r, r.choice([1, 2, 4]))
        f = snapshot(r, g, r.choice([0, 2, 5, 12]) if i > 20 else 12)
        st = Steps()
        if i > 20 and i % 2:      # what the snapshot alone gave
            st.drain([]).gets(g.keys)
        for _ in range(r.choice([1, 2, 4])):
            ms = []
            for _ in range(r.choice([0, 1, 3, 10, 40])):
                k = r.randrange(12)
                ms.append(cmd("SELECT", str(r.choice([0, 0, 0, 1, 2]))) if k == 0 else cmd("PING") if k == 1 else calm(r, gmsg(r, g)))
            if r.randrange(2):
                cut = r.randrange(len(ms) + 1)
                st.send(ms[:cut]).gets(g.keys)
                ms = ms[cut:]
            st.drain(ms)
            st.gets(g.keys)
        more = {}
        if i < ctx.pick(3, 20):       # more keys than are kept waiting
            more = dict(bulk=r.choice([10500, 12000, 40000]), bulkat=r.choice([9, f.bulkat]))
        jobs.append(job(f.b, st, at=AT, scores=f.job()["scores"], pieces=r.choice([0, 0, 0, 7, -r.randrange(1, 10**6)]) if sum(len(s.get("ms", ())) for s in st.steps) < 60 else 0, lead=r.choice(["", "\n" * 7])))
        jobs[-1].update(more)
    runs(ctx, "histories", jobs)
    timed(ctx)
    underway(ctx)
    races(ctx)


def underway(ctx):
    """carried out by the master before a deadline, applied after it"""
    jobs = []
    for late in (cmd("append", "a", "x"), cmd("incr", "a"), cmd("setrange", "a", "1", "x"), cmd("set", "a", "x", "keepttl"), cmd("incrbyfloat", "a", "1")):
        st = Steps()
        st.drain([cmd("psetex", "a", "200", "7")])
        st.steps.append(dict(e="wait", n=600))
        st.drain([late]).gets(["a"])
        jobs.append(job(EMPTY, st))
    runs(ctx, "under way", jobs, kept="underway")


def timed(ctx):
    """deadlines that pass while somebody looks"""
    r = ctx.rng("timed")
    jobs = []
    for i in range(ctx.pick(96, 1000)):
        g = gen(r, 3)
        f = rdb.File(r)
        patch, at = [], []
        f.item([254, 0])
        for k in g.keys:
            if r.randrange(2) == 0:
                n = r.choice([250, 400, 600])
                text = 4000000000000 + len(f.b)
                f.item([252])
                patch.append([len(f.b), n])
                f.item(rdb.le(text, 8))
                at.append(dict(t=str(text), n=n))
                f.item([0] + rdb.wstr(r, [ord(c) for c in k]) + rdb.wstr(r, [ord(c) for c in g.val(k)]))
            elif r.randrange(2):
                f.item([0] + rdb.wstr(r, [ord(c) for c in k]) + rdb.wstr(r, [ord(c) for c in g.val(k)]))
        f.end()
        st = Steps()
        for _ in range(2):
            ms = []
            for _ in range(r.choice([1, 2, 4])):
                k, v, n = g.key(), g.val(), r.choice([200, 350, 500, 700])
                ms.append(r.choice([cmd("psetex", k, str(n), v), cmd("set", k, v, "px", str(n)), cmd("PEXPIREAT", k, "@%d" % n), cmd("set", k, v, "nx", "pxat", "@%d" % n), cmd("pexpire", k, str(n)),
                                    cmd("persist", k), cmd("set", k, v, "KEEPTTL"), cmd("expire", k, "1"), cmd("unlink", k), cmd("pexpireat", k, "@%d" % FAR), cmd("set", k, v),
                                    cmd("append", k, "z"), cmd("setex", k, "1", v), cmd("del", k), cmd("incr", k), cmd("getset", k, v), cmd("setnx", k, v), cmd("hset", k, "f", v)]))
            st.drain(ms).gets(g.keys)
            for _ in range(r.choice([1, 2])):
                st.steps.append(dict(e="wait", n=r.choice([100, 300, 450, 700])))
                st.gets(g.keys)
        st.steps.append(dict(e="wait", n=r.choice([500, 1100])))
        st.gets(g.keys)
        jobs.append(job(f.b, st, patch=patch, at=at))
    runs(ctx, "timed", jobs, parts=16)


def races(ctx):
    """reads while commands arrive"""
    r = ctx.rng("races")
    jobs = []
    for i in range(ctx.pick(60, 600)):
        g = gen(r, 2)
        f = snapshot(r, g, r.choice([0, 3]))
        st = Steps()
        ms = []
        for n in range(r.choice([20, 60])):
            k = r.choice(g.keys)
            ms.append(r.choice([cmd("set", k, "v%d" % n), cmd("set", k, "v%d" % n), cmd("append", k, "."), cmd("incr", k), cmd("del", k), cmd("getset", k, str(n)), cmd("setnx", k, "n%d" % n),
                                cmd("mset", g.keys[0], "m%d" % n, g.keys[1], "M%d" % n), cmd("setrange", k, "2", "--"), cmd("ping"), cmd("pexpireat", k, "@%d" % FAR), cmd("setex", k, "1000", "x%d" % n), cmd("flushall"), cmd("expire", k, "1000"), cmd("set", k, "X%d" % n, "xx", "keepttl"),
                                cmd("select", r.choice("0001"))]))
        st.drain([])
        st.put("race", ms, keys=g.keys, n=r.choice([1, 2, 4]), count=30)
        st.drain([]).gets(g.keys)
        jobs.append(job(f.b, st, at=AT, scores=f.job()["scores"]))
    runs(ctx, "races", jobs)


REPS = [dict(kind="msg", m=dict(t="bulk", v="remote")), dict(kind="msg", m=dict(t="bulk", v="")), dict(kind="msg", m=dict(t="nil", v="")),
        dict(kind="msg", m=dict(t="error", v="ERR no")), dict(kind="msg", m=dict(t="simple", v="OK")), dict(kind="close"), dict(kind="down"),
        dict(kind="garbage"), dict(kind="cut", m=dict(t="bulk", v="remote"), cut=7)]


def fallback(ctx):
    keys = ["a"]
    got = scenarios(ctx, ["setx", "del", "hset", "past"], 1, 1, app=2, reps=ctx.pick([REPS[i] for i in (0, 2, 3, 5, 6)], REPS))
    enumerated(ctx, "enumerated", got, [])
    r = ctx.rng("calls")
    jobs = []
    for i in range(ctx.pick(250, 4000)):
        g = gen(r, r.choice([1, 2, 4]))
        f = snapshot(r, g, r.choice([0, 2, 5, 12]))
        st = Steps()
        st.drain([])
        for _ in range(r.choice([5, 10, 30])):
            k = r.choice(g.keys + ["other", "zzs", kv.value(r, big=False)])
            x = r.randrange(8)
            big = "".join(chr(r.randrange(256)) for _ in range(r.choice([1, 100, 5000, 70000])))
            rep = r.choice(REPS[:4] * 3 + REPS + [dict(kind="msg", m=dict(t="bulk", v=big)), dict(kind="msg", m=dict(t="simple", v="PONG"))])
            if x < 4:
                st.steps.append(dict(e="get", k=k, rep=rep))
            elif x < 6:
                v = kv.value(r, big=r.randrange(10) == 0)
                if r.randrange(2):
                    rep = dict(kind="msg", m=dict(t="simple", v="OK"))
                elif rep["kind"] == "msg" and rep["m"]["t"] == "bulk":   # as an answer to a write: left open
                    rep = dict(kind="msg", m=dict(t="error", v="ERR denied"))
                st.steps.append(dict(e="set", k=k, v=v, rep=rep))
                if rep["kind"] == "msg" and rep["m"].get("v") == "OK":   # and it comes back
                    if r.randrange(3):
                        if k != "zzs":
                            st.drain([cmd("set", k, v)]).gets([k], rep=dict(kind="msg", m=dict(t="bulk", v="stale")))
                        else:
                            st.gets([k], rep=dict(kind="msg", m=dict(t="bulk", v="other")))
            else:
                ms = [calm(r, gmsg(r, g)) for _ in range(r.choice([1, 3]))]   # values written are of any kind: no rounding
                st.drain(m for m in ms if m["t"] != "array" or not m["v"] or m["v"][0]["v"].lower() != "incrbyfloat")
        jobs.append(job(f.b, st, at=AT, scores=f.job()["scores"]))
    runs(ctx, "calls", jobs)


BADS = [dict(t="simple", v="OK"), dict(t="error", v="ERR x"), dict(t="int", v="5"), dict(t="nil", v=""), bulk("ping"), dict(t="array", v=[]),
        dict(t="array", v=[dict(t="nil", v="")]), dict(t="array", v=[dict(t="array", v=[])]), dict(t="array", v=[dict(t="int", v="7"), bulk("a")]),
        dict(t="array", v=[dict(t="array", v=[bulk("set"), bulk("a"), bulk("x")])]),
        cmd(""), cmd("", "a"), cmd("set"), cmd("set", "a"), cmd("set", "a", "1", "nx", "xx"), cmd("set", "a", "1", "keepttl", "px", "10"), cmd("set", "a", "1", "ex", "x"), cmd("set", "a", "1", "px", "1.5"), cmd("del"),
        cmd("swapdb", "0", "1"), cmd("rpush", "a", "1"), cmd("sadd", "a", "m"), cmd("zadd", "a", "1", "m"), cmd("incrby", "a", "x"), 
        cmd("setrange", "a", "-1", "x"), cmd("pexpireat", "a", "soon"), cmd("pexpireat", "a"), cmd("setex", "a", "x", "1"),
        cmd("mset", "a"), cmd("mset", "a", "1", "b"), cmd("hmset", "a", "f"), cmd("hdel", "a"), cmd("append", "a"), cmd("getset", "a"), cmd("multi"), cmd("exec"),
        cmd("select", "x"), cmd("select"), cmd("select", "1", "2"), cmd("eval", "return 1", "0"), cmd("incr"), cmd("hincrby", "a", "f", "x"), cmd("hsetnx", "a", "f"), cmd("incrbyfloat", "a", "nan?"),
        cmd("publish", "c", "m"), cmd("expire", "a", "1", "nx"), cmd("expire", "a", "soon"), cmd("persist"), cmd("unlink"), cmd("x" * 300, "a")]


def endurance(ctx):
    got = scenarios(ctx, ["set", "hset"], 1, ctx.pick(1, 2), bad=BADS)
    enumerated(ctx, "enumerated", got, ["a"])
    r = ctx.rng("mixes")
    jobs = []
    for i in range(ctx.pick(250, 4000)):
        g = gen(r, 3)
        f = snapshot(r, g, r.choice([0, 2, 5]))
        st = Steps()
        for _ in range(r.choice([1, 3])):
            ms = []
            for _ in range(r.choice([1, 10, 60])):
                ms.append(r.choice(BADS) if r.randrange(3) else calm(r, gmsg(r, g)) if r.randrange(6) else cmd("select", r.choice("01")))
            st.drain(ms)
            st.gets(g.keys)
        k = r.randrange(6)
        if k < 4:
            ms = [calm(r, gmsg(r, g)) for _ in range(r.choice([0, 3]))]
            how = ["fin", "half", "rst", "junk"][k]
            if how == "rst":     # what is under way may be lost
                st.drain(ms)
                st.put("lose", [], how="rst")
            else:
                st.lose(ms, how, junk=r.choice(["x", "\x00\xff", "*1\r\n$3\r\nabcd\r\n", "*2\r\n$3\r\nset\r\n", "$5\r\nab", "*x\r\n", "$99999999999\r\n", "*1\r\n:1x\r\n", "HTTP/1.0\r\n\r\n"]))
            st.steps.append(dict(e="wait", n=r.choice([1, 10])))
            st.gets(g.keys)
            st.gets(g.keys, rep=dict(kind="down"))
            st.gets(g.keys + ["absent"], rep=r.choice(REPS))
        jobs.append(job(f.b, st, at=AT, scores=f.job()["scores"], pieces=r.choice([0, 0, 3])))
    for n in ctx.pick([700], [700, 5000]):     # in any number
        st = Steps()
        st.put("send", BADS, times=n)
        st.drain([cmd("set", "a", "after")]).gets(["a"])
        jobs.append(job(EMPTY, st))
    for i in range(ctx.pick(8, 40)):     # a long time after the loss
        st = Steps()
        st.drain([cmd("set", "a", "kept"), cmd("hset", "h", "f", "1")])
        st.put("lose", [], how=["fin", "half", "rst", "junk"][i % 4], junk="x")
        for _ in range(3):
            st.steps.append(dict(e="wait", n=1100))
            st.gets(["a", "h", "absent"])
        jobs.append(job(EMPTY, st))
    runs(ctx, "mixes", jobs)


# ----------------------------------------------------------------------- C32
def ack_jobs(ctx, r):
    jobs = []
    offs = [None, "0", "1", "70000", "2147483648", "1000000000000000", "999999999999999", "twice", "int", "id", "late", "bulk"]
    for i in range(ctx.pick(2, 8)):
        watch = ctx.pick((5600, 24600), (12600, 62600))[i % 2]
        for o in offs:
            f = rdb.File(r)
            g = gen(r)
            aux = lambda v: f.item([250] + rdb.wstr(r, list(b"repl-offset")) + rdb.wlen(r, len(v)) + list(v.encode()))
            body = lambda: f.item([254, 0] + [0] + rdb.wstr(r, list(b"a")) + rdb.wstr(r, list(b"1")))
            bulkn, bulkat = 0, 0
            if o == "twice":
                aux("55")
                aux("777")
            elif o == "int":
                f.item([250] + rdb.wstr(r, list(b"repl-offset")) + [193] + rdb.le(31000, 2))
            elif o == "id":
                f.item([250] + rdb.wstr(r, list(b"repl-id")) + rdb.wstr(r, list(b"4321")))
            elif o == "bulk":
                bulkn, bulkat = 300000, len(f.b)
                aux("4711")
            elif o not in (None, "late"):
                aux(o)
            body()
            if o == "late":
                aux("99")
            f.end()
            steps = []
            k = r.randrange(5) if o != "bulk" else 1
            if k == 1:
                steps = [dict(e="send", n=500 + watch // 18 * j, ms=[calm(r, gmsg(r, g)) for _ in range(20)]) for j in range(r.choice([10, 15]))]
            elif k == 2:
                steps = [dict(e="lose", n=r.choice([2500, 3700, watch - 1500]))]
            elif k == 3:
                steps = [dict(e="get", n=700 * j, k=r.choice(["a", "absent"])) for j in range(6)]
            elif k == 4:
                steps = [dict(e="send", n=100, ms=r.sample(BADS, 10)), dict(e="send", n=2000, ms=[cmd("ping")])]
            jobs.append(dict(b=f.b, scores=[], at=[], patch=[], pieces=0, lead=r.choice(["", "\n"]), bulk=bulkn, bulkat=bulkat, watch=watch, steps=steps))
    return jobs


def acknowledged(ctx, again=False):
    r = ctx.rng("acks")
    jobs = ack_jobs(ctx, r)
    recs = []
    for out, bad in ctx.run_parts([("ack", write_lines(ctx.tmp(".ndjson"), jobs[p::4]), 300) for p in range(4)], 4):
        if bad:
            ctx.violation("%s %s" % (bad["what"], bad["detail"]), bad)
            return
        recs += read_lines(out)
    if len(recs) != len(jobs):
        raise CheckError("%d runs of %d" % (len(recs), len(jobs)))
    f = write_lines(ctx.tmp(".ndjson"), recs)
    res = ctx.tlc("AckTrace", "CONSTANT TraceFile = %s\nSPECIFICATION Spec\nINVARIANT Conforms\nALIAS Alias\nCHECK_DEADLOCK FALSE\n" % tla_str(f), timeout=600)
    if res["ok"]:
        if res["states"] < 2 * len(recs):
            raise CheckError("TLC looked at %d states of %d records" % (res["states"], len(recs)))
        ctx.traces += len(recs)
        ctx.extra["acknowledgements"] = sum(len(x["acks"]) for x in recs)
        ctx.extra["links"] = len(recs)
        ctx.sample({k: v for k, v in recs[0].items() if k != "b"})
        return
    if not again:      # a machine that is busy may delay things
        ctx.extra["repeated"] = True
        return acknowledged(ctx, True)
    a = alias_values(res["text"])
    if "i" not in a:
        raise CheckError("cannot read the counterexample:\n" + res["text"][-3000:])
    x = recs[int(a["i"]) - 1]
    ctx.violation("%s: snapshot %s: loaded after %d ms, connection lost at %d (0: never), watched until %d: %s" %
                  (a.get("bad"), bytes(x["b"][:100]), x["from"], x["lost"], x["to"], jline(x["acks"])[:800]), x)


def algo(ctx):
    """the goroutines of the client: nothing lost or out of order, every end reported, nobody stuck or spinning"""
    for snap, stream, cap, damage, acks in ctx.pick([(2, 3, 2, 99, 3), (3, 2, 1, 1, 2)], [(2, 3, 2, 99, 3), (3, 4, 2, 99, 5), (4, 5, 3, 99, 6), (5, 6, 1, 99, 4), (4, 2, 1, 2, 3)]):
        cfg = """CONSTANTS Snap = %d
Stream = %d
Cap = %d
Damage = %d
Acks = %d
SPECIFICATION Spec
INVARIANTS InOrder NoStreamBeforeSnapshot DamagedNotFollowed NothingAfterTheEnd SeenOnce
PROPERTIES Drained Reported Ended ErrorsTaken Delivered
CHECK_DEADLOCK FALSE
""" % (snap, stream, cap, damage, acks)
        res = ctx.tlc("ReplicaAlgo", cfg, timeout=3000)
        if not res["ok"]:
            raise CheckError("ReplicaAlgo breaks its own laws:\n" + res["text"][-2000:])
        ctx.exhaustive.append("goroutines of the client: %d commands in the snapshot (damaged after %s), %d in the stream, room for %d: %d states" %
                              (snap, damage if damage <= snap else "none", stream, cap, res["states"]))


def check(ctx):
    ctx.assumptions = ["TLC and the specification in spec/Replica.tla, Rdb.tla, KV.tla, Resp.tla", "the loopback network"]
    if ctx.prop in ("C27", "C31"):
        algo(ctx)
    {"C26": transfer, "C27": transfer, "C29": convergence, "C30": fallback, "C31": endurance, "C32": acknowledged}[ctx.prop](ctx)
