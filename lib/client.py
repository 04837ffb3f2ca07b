"""Property C18: requests and results of the redis client (spec/Client.tla).
TLC enumerates every method with every kind of reply (ClientEx); chains of
these calls and random ones run on the real client against a server that
answers as scripted; TLC validates the recorded traces (ClientTrace)."""
from core import *
import kv

OPS = ["Get", "StrLen", "Incr", "Decr", "Set", "SetNX", "GetSet", "Append", "SetEX", "PSetEX", "SetRange", "GetRange", "IncrBy", "DecrBy",
       "IncrByFloat", "Select", "MGet", "MSet", "MSetNX"]
STR = {"SetNX", "Get", "GetSet", "GetRange"}


def call(r):
    op = r.choice(OPS)
    k = r.choice(kv.KEYS) if r.randrange(4) else kv.value(r)
    v = kv.value(r)
    num = r.choice(["0", "1", "-1", "5", "-5", "9223372036854775807", "-9223372036854775808", str(r.randrange(-10**9, 10**9))])
    uns = r.choice(["0", "1", "10", "18446744073709551615", "4294967296"])
    if op in ("Get", "StrLen", "Incr", "Decr"):
        return dict(op=op, k=k)
    if op in ("Set", "SetNX", "GetSet", "Append"):
        return dict(op=op, k=k, v=v)
    if op in ("SetEX", "PSetEX"):
        return dict(op=op, k=k, n=uns, v=v)
    if op == "SetRange":
        return dict(op=op, k=k, n=num, v=v)
    if op == "GetRange":
        return dict(op=op, k=k, n=num, m=r.choice(["0", "-1", "7", "-9223372036854775808"]))
    if op in ("IncrBy", "DecrBy"):
        return dict(op=op, k=k, d=num)
    if op == "IncrByFloat":
        return dict(op=op, k=k, d=r.choice(kv.DYADIC))
    if op == "Select":
        return dict(op=op, n=r.choice(["0", "1", "15", "100"]))
    if op == "MGet":
        return dict(op=op, ks=[r.choice(kv.KEYS) for _ in range(r.choice([1, 2, 3, 20]))])
    return dict(op=op, kv=[[q, kv.value(r, big=False)] for q in r.sample(kv.KEYS, r.randrange(1, 8))])


def msg(r, op):
    t = r.choice(["simple", "int", "bulk", "bulk", "nil", "error"] + (["array"] * 6 if op == "MGet" else []))
    line = lambda: "".join(chr(r.choice([32, 43, 45, 36, 42, 58, 48, 97, 255, 0])) for _ in range(r.choice([0, 1, 3, 20, 300])))
    if t == "simple":
        return dict(t=t, v=r.choice(["OK", "OK", "PONG", line()]))
    if t == "error":
        return dict(t=t, v=r.choice(["ERR x", "OK", "NOAUTH", line()]))
    if t == "int":
        return dict(t=t, v=r.choice(kv.INTS))
    if t == "nil":
        return dict(t=t, v="")
    if t == "bulk":
        if op == "IncrByFloat":
            return dict(t=t, v=r.choice(kv.DYADIC + ["x", "", "1x"]))
        v = kv.value(r)
        if op not in STR | {"MGet"} and (v == "OK" or v.lstrip("-+").isdigit()):
            v = "x"     # whether a bulk string may stand for a status or a number is left open
        return dict(t=t, v=v)
    return dict(t=t, v=[msg(r, "Get") for _ in range(r.choice([0, 1, 2, 5, 30]))])


def reply(r, op):
    k = r.randrange(12)
    if k == 0:
        return dict(kind="close")
    m = msg(r, op)
    if op == "IncrByFloat":
        while m["t"] == "simple" or m["t"] == "int" and len(m["v"]) > 15:
            m = msg(r, op)
    if k == 1:
        return dict(kind="cut", m=m, cut=r.choice([0, 1, 2, 3, 5, 10, 100000]))
    if k == 2:
        return dict(kind="garbage", raw=r.choice(["", "\x00x\r\n", "hello\r\n", "\r\n", "$x\r\n", ":1x\r\n", "*y\r\n", "$3\r\nabcdef\r\n", "$-5\r\n"]))
    return dict(kind="msg", m=m)


def validate(ctx, name, items):
    parts = 8
    srcs = [write_lines(ctx.tmp(".ndjson"), items[p::parts]) for p in range(parts)]
    recs = [None] * len(items)
    for p, (out, bad) in enumerate(ctx.run_parts([("client", s, 600) for s in srcs])):
        if bad:
            ctx.violation("%s: %s %s" % (name, bad["what"], bad["detail"]), bad)
            return
        recs[p::parts] = read_lines(out)
    f = write_lines(ctx.tmp(".ndjson"), recs)
    res = ctx.tlc("ClientTrace", "CONSTANT TraceFile = %s\nSPECIFICATION Spec\nINVARIANT Conforms\nALIAS Alias\nCHECK_DEADLOCK FALSE\n" % tla_str(f), timeout=1800)
    n = sum(len(x["ev"]) for x in recs)
    ctx.extra["calls_" + name] = n
    if res["ok"]:
        if res["states"] < n:
            raise CheckError("TLC looked at %d states of %d events" % (res["states"], n))
        ctx.traces += len(recs)
        ctx.sample({name: recs[0]["ev"][:2]} if len(jline(recs[0]["ev"][:2])) < 3000 else {name: "large"})
        return
    a = alias_values(res["text"])
    if "t" not in a:
        raise CheckError("cannot read the counterexample:\n" + res["text"][-3000:])
    x = recs[int(a["t"]) - 1]
    e = x["ev"][int(a["i"]) - 1]
    short = lambda v: jline(v)[:300]
    ctx.violation("%s: call %s (greetings %s) with reply %s: server saw %s, caller got %s; specification: %s" %
                  (name, short(e["c"]), short(e["hs"]), short(e["reply"]), short(e["reqs"]), short(e["res"]), a.get("want", "?")[:400]),
                  {"opt": x["opt"], "ev": x["ev"][:int(a["i"])]})


def check(ctx):
    ctx.assumptions = ["TLC and the specification in spec/Client.tla"]
    out = ctx.path("client-ex.txt")
    res = ctx.tlc("ClientEx", "CONSTANTS Emit = TRUE\nSPECIFICATION Spec\nVIEW View\nINVARIANT NeverInvented ErrorsReported\nCHECK_DEADLOCK FALSE\n", out=out)
    if not res["ok"]:
        raise CheckError("ClientEx breaks its own laws:\n" + res["text"][-2000:])
    edges = {}
    with open(out) as fp:
        for line in fp:
            if line.startswith('"'):
                x = json.loads(json.loads(line))
                edges[json.dumps(x, sort_keys=True)] = x
    r = ctx.rng("client")
    items = []
    for opt in sorted({json.dumps(x["opt"], sort_keys=True) for x in edges.values()}):
        todo = {s: [x for k, x in sorted(edges.items()) if json.dumps(x["opt"], sort_keys=True) == opt and x["src"] == s] for s in ("none", "open")}
        rest = {s: list(todo[s]) for s in todo}
        for s in rest:
            r.shuffle(rest[s])
        while rest["none"] or rest["open"]:
            s, ev = "none", []
            while len(ev) < 60 and (rest["none"] or rest["open"]):
                if rest[s]:
                    x = rest[s].pop()
                else:   # get to the other state
                    x = r.choice([y for y in todo[s] if y["dst"] != s])
                ev.append(dict(c=x["c"], reply=x["reply"], hs=x["hs"]))
                s = x["dst"]
            items.append(dict(opt=json.loads(opt), pool=r.choice([1, 1, 2, 0]), pieces=r.choice([0, 0, 1, 3]), ev=ev))
    ctx.exhaustive.append("%d combinations of method, kind of reply, connection and greeting" % len(edges))
    # with more than one connection the order of use is not fixed
    for it in items:
        it["pool"] = 1
    validate(ctx, "enumerated", items)
    items = []
    for _ in range(ctx.pick(150, 2500)):
        opt = dict(password=r.choice(["", "", "pw", "p w\r\n"]), database=r.choice([0, 0, 1, 15]))
        n = (opt["password"] != "") + (opt["database"] > 0)
        ev = []
        for _ in range(30):
            c = call(r)
            hs = [r.choice([dict(kind="msg", m=dict(t="simple", v="OK"))] * 6 + [dict(kind="msg", m=dict(t="error", v="ERR")), dict(kind="close")]) for _ in range(n)]
            ev.append(dict(c=c, reply=reply(r, c["op"]), hs=hs))
        items.append(dict(opt=opt, pool=1, pieces=r.choice([0, 0, 1, 3, 1000]), ev=ev))
    validate(ctx, "random", items)
