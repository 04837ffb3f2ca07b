"""Property C17: the wire format (spec/Resp.tla).  TLC explores sender, network
and receiver (RespEx) and prints every truncated stream of small messages; the
real connection sends and receives each of them in every segmentation.  Large
random and malformed streams follow.  TLC validates all recorded runs."""
from core import *
import kv

BROKEN = [  # malformed, in every way a message can be
    "x", "\r\n", "\n", "hello\r\n", "+", "+OK", "+OK\r", "-ERR", ":", ":\r\n", ":x\r\n", ":1x\r\n", ":1.5\r\n", ":9223372036854775808\r\n",
    ":-9223372036854775809\r\n", ":--1\r\n", ":12345678901234567890123\r\n", ": 1\r\n", "$", "$\r\n", "$x\r\n", "$-2\r\n", "$-100\r\n", "$3", "$3\r\n", "$3\r\nab",
    "$3\r\nabc", "$3\r\nabc\r", "$3\r\nabcd\r\n", "$3\r\nabc\n\r", "$3\r\nabc+OK\r\n", "$0\r\n", "$0\r\nx\r\n", "$0\r\n\r", "$536870913\r\n", "$999999999999\r\n",
    "$9223372036854775807\r\nabc\r\n", "$18446744073709551616\r\n", "$1e3\r\nabc\r\n", "*", "*\r\n", "*x\r\n", "*1\r\n", "*1\r\nx", "*2\r\n+a\r\n", "*2\r\n+a\r\n:x\r\n",
    "*1\r\n$5\r\nabc\r\n", "*1\r\n*1\r\n$-3\r\n", "*99999\r\n+a\r\n", "*18446744073709551616\r\n", "!x\r\n", "\x00", "\xff\xff", "(12\r\n", "#t\r\n", "%1\r\n",
    "_\r\n", "$5\r\nhello", "$5\r\nhello\r\x00", "$5\r\nhello\x00\n", "$5\r\nhello\n\n", "$5\r\nhello  ", "GET / HTTP/1.1\r\n"]
GOOD = ["", "+OK\r\n", ":1\r\n", "$-1\r\n", "$2\r\n\r\n\r\n", "*0\r\n", "*2\r\n$-1\r\n*1\r\n-E\r\n", "$1\r\n$\r\n", "+\r\n", "-\r\n"]


def message(r, depth=0):
    k = r.randrange(9 if depth < 4 else 7)
    text = lambda n: "".join(chr(r.choice([32, 43, 45, 36, 42, 58, 48, 97, 255, 0, 9])) for _ in range(n))
    if k == 0:
        return dict(t="simple", v=text(r.choice([0, 1, 5, 60, 500, 4090, 4093, 4094, 4095, 4096, 5000])) if depth == 0 else text(r.randrange(9)))
    if k == 1:
        return dict(t="error", v="ERR " + text(r.choice([0, 5, 60, 500, 4090, 4095, 4100])) if depth == 0 else "E")
    if k == 2:
        return dict(t="int", v=r.choice(kv.INTS) if r.randrange(2) else str(r.randrange(-1000, 1000)))
    if k == 3:
        return dict(t="nil", v="")
    if k <= 6:
        n = r.choice([0, 1, 2, 3, 9, 10, 11, 99, 100, 1000, 4085, 4090, 4091, 4096, 4097, 8192, 9999, 16384, 65535, 65536, 70000])
        if depth:
            n = r.choice([0, 1, 2, 10, 50, 4096 if depth == 1 else 3])
        v = kv.blob(r, n) if n else ""
        if n > 10 and r.randrange(3) == 0:
            p = r.randrange(n - 2)
            v = v[:p] + "\r\n" + v[p + 2:]
        return dict(t="bulk", v=v)
    return dict(t="array", v=[message(r, depth + 1) for _ in range(r.choice([0, 1, 2, 3, 5] + ([40] if depth == 0 else [])))])


def nest(n):
    m = dict(t="bulk", v="x")
    for i in range(n):
        m = dict(t="array", v=[m] if i % 2 else [m, dict(t="nil", v="")])
    return m


def validate(ctx, name, items):
    parts = 6
    srcs = [write_lines(ctx.tmp(".ndjson"), items[p::parts]) for p in range(parts)]
    recs = [None] * len(items)
    for p, (out, bad) in enumerate(ctx.run_parts([("resp", s, 900) for s in srcs])):
        if bad:
            ctx.violation("%s: %s %s" % (name, bad["what"], bad["detail"]), bad)
            return
        recs[p::parts] = read_lines(out)
    f = write_lines(ctx.tmp(".ndjson"), recs)
    res = ctx.tlc("RespTrace", "CONSTANT TraceFile = %s\nSPECIFICATION Spec\nINVARIANT Conforms\nALIAS Alias\nCHECK_DEADLOCK FALSE\n" % tla_str(f), timeout=1800)
    ctx.extra["receptions_" + name] = sum(x["ways"] for x in recs)
    if res["ok"]:
        if res["states"] != 2 * len(recs):
            raise CheckError("TLC looked at %d of %d records" % (res["states"], len(recs)))
        ctx.traces += len(recs)
        ctx.sample({name: recs[len(recs) // 2]} if len(jline(recs[len(recs) // 2])) < 2000 else {name: "large"})
        return
    a = alias_values(res["text"])
    if "i" not in a:
        raise CheckError("cannot read the counterexample:\n" + res["text"][-3000:])
    x = recs[int(a["i"]) - 1]
    ctx.violation("%s: messages %s sent as %s; stream %s received as %s; specification: %s" %
                  (name, jline(x.get("msgs"))[:300], jline(x.get("wire"))[:300], jline(x.get("stream"))[:300], jline(x.get("runs"))[:600], a.get("want", "?")[:300]), x)


def check(ctx):
    ctx.assumptions = ["TLC and the specification in spec/Resp.tla", "an in-memory connection stands for TCP"]
    out = ctx.path("resp-ex.txt")
    res = ctx.tlc("RespEx", "CONSTANTS MaxMsgs = %d\n Emit = TRUE\nSPECIFICATION Spec\nINVARIANT Prefix Complete\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n" % ctx.pick(1, 3),
                  out=out, timeout=2400)
    if not res["ok"]:
        raise CheckError("RespEx breaks its own laws:\n" + res["text"][-2000:])
    items = []
    with open(out) as fp:
        for line in fp:
            if line.startswith('"'):
                x = json.loads(json.loads(line))
                items.append(dict(msgs=x["msgs"], stream=x["stream"], cuts="all"))
    if not items:
        raise CheckError("no streams were printed")
    ctx.exhaustive.append("all truncation points and cuts of %d streams of small messages" % len(items))
    validate(ctx, "small", items)
    r = ctx.rng("resp")
    items = [dict(stream=g + b, cuts="all") for b in BROKEN for g in ["", "+OK\r\n", "$3\r\nabc\r\n", "*1\r\n:1\r\n"]]
    items += [dict(stream=g + h, cuts="all") for g in GOOD for h in GOOD]
    items += [dict(unit=u, times=n) for u, n in (("*1\r\n", 10**6), ("*1\r\n", 6 * 10**6), ("*2\r\n+a\r\n", 4 * 10**6))]
    items += [dict(msgs=[m, dict(t="int", v="3")], deep=n) for n in (1, 2, 31, 1000, 4999, 5001, 9998, 9999, 10000, 10001, 10002, 20000)
              for m in (dict(t="bulk", v="x"), dict(t="array", v=[]), dict(t="array", v=[dict(t="nil", v=""), dict(t="simple", v="y")]))
              if not (m["t"] == "array" and n == 10000)]
    validate(ctx, "broken", items)
    items = []
    for i in range(ctx.pick(200, 3000)):
        ms = [message(r) for _ in range(r.choice([1, 1, 2, 3, 6]))]
        items.append(dict(msgs=ms, end=r.choice([-1, -1, -2]), cuts="6"))
    items += [dict(msgs=[nest(n), dict(t="int", v="3")], cuts="4") for n in (1, 5, 30)]
    items += [dict(msgs=[dict(t="array", v=[dict(t="bulk", v=str(j)) for j in range(n)])], cuts="3") for n in (9, 10, 11, 99, 100, 1000)]
    items += [dict(msgs=[dict(t="bulk", v="y" * n), dict(t="simple", v="z")], cuts="2") for n in range(4070, 4110)]
    items += [dict(msgs=[dict(t="simple", v="y" * n), dict(t="nil", v="")], cuts="2") for n in range(4085, 4100)]
    validate(ctx, "large", items)
