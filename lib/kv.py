"""Properties C01-C13 and C28: the sequential meaning of the cache (spec/KV.tla).

Two bindings.  (1) TLC explores KVEx, checks the laws stated there in every
state and prints every transition; each transition is replayed on a fresh real
cache along a shortest path, its result compared, the final state looked at,
again after every unit of time until the last deadline has passed, and random
walks through the graph are replayed too.  (2) Random command sequences over
rich values run on the real cache in virtual time; TLC validates the recorded
traces against KV (KVTrace)."""
import json, os
from core import *

READS = {"Get", "MGet", "StrLen", "GetRange", "Exists", "Type", "HGet", "HMGet", "HExists", "HStrLen", "HLen", "HKeys", "HVals", "HGetAll"}
LAWS = "ResidueInvisible ReadsPure FailuresPure Isolated Deadlines Agree TypeOK"

GRAPH_DEFAULT = dict(Ks=["a"], Fs=["f", "g"], Vs=["1", "x"], Ps=["0"], Os=[0], Gs=[0], Is=["1"], Ds=["0.5"], Ts=[1],
                     As=[1], MaxLen=3, MaxDepth=99, cron=False, obs=["Get"], reads=False, msgs=[])


def graph_cfg(ctx, g):
    # sets with negative numbers can not be written in a configuration file
    lines, defs = ["CONSTANTS"], []
    for c in ["Ops", "Ks", "Fs", "Vs", "Ps", "Os", "Gs", "Is", "Ds", "Ts", "As"]:
        lines.append(" %s <- Def%s" % (c, c))
        defs.append("Def%s == %s" % (c, tla_set(g[c])))
    open(ctx.path("spec/KVExRun.tla"), "w").write("---- MODULE KVExRun ----\nEXTENDS KVEx\n%s\n====\n" % "\n".join(defs))
    lines += [" MaxLen = %d" % g["MaxLen"], " MaxDepth = %d" % g["MaxDepth"], " Emit = TRUE", "SPECIFICATION Spec",
              "CONSTRAINT Small", "INVARIANT " + LAWS, "CHECK_DEADLOCK FALSE"]
    return "\n".join(lines) + "\n"


def graph(ctx, name, g0):
    g = dict(GRAPH_DEFAULT)
    g.update(g0)
    with open(ctx.path("spec/ms.json"), "w") as fp:
        json.dump(g["msgs"], fp)
    out = ctx.path("graph-%s.txt" % name)
    r = ctx.tlc("KVExRun", graph_cfg(ctx, g), workers=6, out=out, timeout=3000)
    if not r["ok"]:
        raise CheckError("KVEx breaks one of its own laws:\n" + r["text"][-2000:])
    edges = 0
    with open(out) as fp:
        for line in fp:
            edges += line[0] == '"'
    # background expiries never stop, so a process gets few caches
    parts = max(6, edges // 300) if g["cron"] else 6
    jobs = []
    for part in range(parts):
        conf = ctx.tmp(".json")
        with open(conf, "w") as fp:
            json.dump({"obs": g["obs"], "keys": g["Ks"], "cron": g["cron"], "seed": ctx.seed, "walks": ctx.pick(1000, 20000),
                       "len": 30, "max": 5, "reads": g["reads"], "graph": out, "part": part, "parts": parts}, fp)
        jobs.append(("kvgraph", conf, 2400))
    summary = {}
    for res, bad in ctx.run_parts(jobs):
        if bad:
            ctx.violation("graph %s: %s %s" % (name, bad["what"], bad["detail"]), bad)
            continue
        for line in read_lines(res):
            if line.get("summary"):
                for k in ("runs", "steps", "bad"):
                    summary[k] = summary.get(k, 0) + line[k]
                summary["states"], summary["edges"] = line["states"], line["edges"]
            else:
                ctx.violation("after %s: %s" % (jline(line["path"]), line["bad"]), line)
    if ctx.violations:
        return
    if edges == 0 or summary["runs"] < edges:
        raise CheckError("graph replay is incomplete: %s" % summary)
    ctx.traces += summary["runs"]
    ctx.extra["graph_%s" % name] = {k: summary[k] for k in ("states", "edges", "runs", "steps")}
    ctx.exhaustive.append("graph %s: every command of %s in every state reachable with keys %s, values %s" %
                          (name, ",".join(g["Ops"]), g["Ks"], g["Vs"]))
    os.unlink(out)


# --------------------------------------------------------------------- traces
INTS = ["0", "1", "-1", "9", "10", "99", "100", "127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32768",
        "-32769", "65535", "65536", "8388607", "8388608", "-8388609", "2147483647", "2147483648", "-2147483648",
        "-2147483649", "4294967295", "4294967296", "9007199254740993", "-9007199254740993", "1000000000000000000",
        "9223372036854775806", "9223372036854775807", "-9223372036854775807", "-9223372036854775808"]
ODD = ["007", "-0", "+5", "1e3", "1E3", "1.50", "0x10", "1_000", " 5", "5 ", "1.", ".5", "-.5", "+1.5", "00", "-007", "0.0",
       "9223372036854775808", "-9223372036854775809", "12345678901234567890", "18446744073709551615", "18446744073709551616",
       "123456789012345678901234567890", "0.1", "3.14159265358979323846", "1e400", "-1e-400", "NaN", "nan", "Inf", "-inf",
       "infinity", "true", "nil", "Nil", "null", "OK", "1,000", "1/2", "٣", "1e", "e1", "-", "+", ".", "--1", "0b1", "0o7",
       "1p3", "0x1p3", "4.940656458412465e-324", "1.7976931348623157e308", "100000000000000000000000", "1e22", "1e21",
       "0.000001", "0.0000001", "-0.0", "5e-324", "1000000000000000000000"]
ODD = [x for x in ODD if all(ord(c) < 256 for c in x)]
BIN = ["\x00", "\x00\x00a", "a\x00", "\r\n", "a\r\nb", "\n", "\xff", "\xfe\xff", "\x80", "\xc3\xa9", "\xe4\xbd\xa0", "\t", "'", '"', "\\",
       "$-1\r\n", "*1\r\n", " ", "a b", "%s%d", "\x7f"]
LENS = [1, 2, 3, 31, 63, 64, 65, 127, 128, 253, 254, 255, 256, 1000, 4095, 4096, 4097, 16383, 16384]
BIGLENS = [65535, 65536, 65537, 70000, 131072]
DYADIC = ["0", "1", "-1", "2", "10", "-3", "0.5", "-0.5", "1.5", "2.25", "-4.75", "100", "1024.125", "1048576.5", "-0.125", "1000000", "123456789"]
DSPELL = DYADIC + ["1e1", "15e-1", "+2.5", "1.50", "007", ".5", "5.", "0.0", "2.5E2", "-25e-2", "1e+2"]
NOTNUM = ["", "x", "abc", "1x", "--1", "1.2.3", "1e", "e", ".", "-", " 1", "1 ", "nan", "inf", "-inf", "Infinity", "0x", "1,5"]
SAFE = ["", "x", "ab", "hello", "zz", "v1", "\x00", "7", "-3", "2.5", "10"]
KEYS = ["a", "b", "key", "", "a b", "K", "k\x00", "\xff", "007", "7", "f", "user:1"]
FIELDS = ["f", "g", "", "F", "1", "01", "1.0", "a", "\x00", "\xff\n", "f1", "f2"]


def blob(r, n):
    kind = r.randrange(4)
    if kind == 0:
        return "".join(chr(r.randrange(256)) for _ in range(min(n, 300))) + "z" * max(0, n - 300)
    if kind == 1:
        return chr(r.choice([0, 48, 49, 57, 97, 255])) * n
    if kind == 2:
        return ("1" + "".join(r.choice("0123456789") for _ in range(n - 1)))[:n]
    p = "".join(chr(r.randrange(256)) for _ in range(r.randrange(1, 20)))
    return (p * (n // len(p) + 1))[:n]


def value(r, big=True):
    k = r.randrange(12)
    if k < 2:
        return r.choice(INTS)
    if k < 5:
        return r.choice(ODD)
    if k < 7:
        return r.choice(BIN)
    if k == 7:
        return ""
    if k == 8:
        return str(r.randrange(-10**r.randrange(1, 25), 10**r.randrange(1, 25)))
    if k == 9:
        return "%s%d.%s" % (r.choice(["", "-"]), r.randrange(10**r.randrange(1, 8)), "".join(r.choice("0123456789") for _ in range(r.randrange(1, 12))))
    if k == 10 or not big:
        return blob(r, r.randrange(1, 40))
    return blob(r, r.choice(LENS) if r.randrange(8) else r.choice(BIGLENS))


class Gen:
    """one random command sequence"""

    def __init__(self, r, prof):
        self.r, self.p = r, prof
        n = prof.get("nkeys", 3)
        self.keys = r.sample(KEYS, n) if n <= len(KEYS) else KEYS + ["m%d" % i for i in range(n - len(KEYS))]
        self.fields = r.sample(FIELDS, prof.get("nfields", 4))
        self.now, self.total = 0, 0
        self.dead = []
        self.grow = {}
        self.ev = []

    def key(self):
        return self.r.choice(self.keys)

    def field(self):
        return self.r.choice(self.fields)

    def val(self, k=None):
        r = self.r
        kind = self.p.get("vals", "any")
        self.grow[k] = 0
        if kind == "any":
            return value(r)
        if kind == "small":
            return value(r, big=False)
        if kind == "int":
            return r.choice(INTS) if r.randrange(5) else r.choice(ODD + NOTNUM + BIN)
        if kind == "dyadic":
            v = r.choice(DSPELL) if r.randrange(5) else r.choice(NOTNUM)
            self.grow[k] = 3 if "e" in v or "E" in v else 0
            return v
        return r.choice(SAFE)

    def piece(self, k):
        """what Append and SetRange add"""
        r = self.r
        kind = self.p.get("vals", "any")
        if kind == "int":
            return r.choice(["0", "1", "7", "", "-", "9", "00", "x", " ", ".5"])
        if kind == "dyadic":
            if self.grow.get(k, 0) >= 3:
                return "x"
            v = r.choice(["0", "0", "e1", "x", ""])
            if v == "e1" and self.grow.get(k, 0):
                v = "0"
            self.grow[k] = self.grow.get(k, 0) + (3 if v == "e1" else 1)
            return v
        if kind == "safe":
            return r.choice(["z", "ab", "q-", "", "\x00"])
        return value(r, big=r.randrange(6) == 0)

    def delta(self):
        r = self.r
        if self.p.get("vals") == "int":
            return r.choice(INTS) if r.randrange(2) else str(r.randrange(-100, 100))
        return str(r.choice([1, -1, 0, 5, 100, -7]))

    def fdelta(self, any=True):
        if any and self.r.randrange(8) == 0:
            return self.r.choice(["NaN", "+Inf", "-Inf"])
        return self.r.choice(DYADIC)

    def ttl(self):
        r = self.r
        if self.p.get("cron"):
            return r.choice([1, 2, 3, 10, 999, 1000, 1001, 1999, 2000, 2001, 4000, 5000, 7777])
        ms = r.choice([1, 2, 3, 10, 999, 1000, 1001, 1999, 2000, 2001, 4000, 60000, 3600000, 86400000])
        return ms

    def setdead(self, ms):
        if ms > 0:
            self.dead.append(self.now + ms)

    def cmd(self, op):
        r = self.r
        k = self.key()
        if op in ("Get", "StrLen", "Incr", "Decr", "Del", "Type", "HLen", "HKeys", "HVals", "HGetAll"):
            return dict(op=op, k=k)
        if op in ("Set", "SetNX", "GetSet"):
            return dict(op=op, k=k, v=self.val(k))
        if op == "SetEX":
            s = r.choice([1, 1, 2, 3, 60, 3600, 86400])
            x = r.randrange(12)
            if x == 0:
                s = r.choice([0, -1, -100, -9223372037, -18446744073, -2**63])
            elif x == 1:
                s = r.choice([2592000, 31536000, 315360000, 3153600000, 9223372036, 9223372037, 18446744074, 27670116111, 10**18, 2**63 - 1])
            self.setdead(s * 1000)
            return dict(op=op, k=k, v=self.val(k), n=max(-1, min(s * 1000, 2000000000)), ns=str(s))
        if op == "PSetEX":
            ms = self.ttl()
            x = r.randrange(12)
            if x == 0:
                ms = r.choice([0, -1, -1000, -9223372036855, -18446744073709, -2**63])
            elif x == 1:
                ms = r.choice([2147483648, 4294967296, 31536000000, 315360000000, 9223372036854, 9223372036855, 18446744073710, 10**17, 2**63 - 1])
            self.setdead(ms)
            return dict(op=op, k=k, v=self.val(k), n=max(-1, min(ms, 2000000000)), ns=str(ms))
        if op == "PExpireAt":
            ms = r.choice([self.ttl(), self.ttl(), 0, -5])
            self.setdead(ms)
            return dict(op=op, k=k, n=ms, ns=str(ms))
        if op == "Append":
            return dict(op=op, k=k, v=self.piece(k))
        if op == "SetRange":
            if r.randrange(25) == 0:
                n = r.choice([2**50, 2**62, 2**63 - 1, -2**63])
                return dict(op=op, k=k, n=max(-2000000000, min(n, 2000000000)), ns=str(n), v=self.piece(k))
            return dict(op=op, k=k, n=self.offset(), v=self.piece(k))
        if op == "GetRange":
            c = dict(op=op, k=k, n=self.index(), m=self.index())
            if self.p.get("full") and r.randrange(2):
                c["n"], c["m"] = r.choice([(0, -1), (0, -1), (0, -1), (0, 2000000000), (-2000000000, -1)])
            if r.randrange(12) == 0:
                for x in r.choice(["n", "m", "nm"]):
                    n = r.choice([2**31, -2**31 - 1, 2**32, -2**32, 2**62, -2**62, 2**63 - 1, -2**63, -2**63 + 1])
                    c[x], c[x + "s"] = max(-2000000000, min(n, 2000000000)), str(n)
            return c
        if op in ("IncrBy", "DecrBy"):
            return dict(op=op, k=k, d=self.delta())
        if op == "IncrByFloat":
            return dict(op=op, k=k, d=self.fdelta())
        if op in ("MSet", "MSetNX"):
            n = r.choice([1, 1, 2, 2, 3]) if self.p.get("many", 0) == 0 else r.choice([1, 2, 3, 50])
            ks = self.keys if n <= len(self.keys) else self.keys + ["m%d" % i for i in range(n)]
            return dict(op=op, kv=[[q, self.val(q)] for q in r.sample(ks, min(n, len(ks)))])
        if op in ("MGet", "Exists"):
            return dict(op=op, ks=[self.key() for _ in range(r.randrange(0 if op == "Exists" else 1, 5))])
        if op == "Flush":
            return dict(op=op)
        if op in ("HSet", "HSetNX"):
            return dict(op=op, k=k, f=self.field(), v=self.val((k,)))
        if op == "HMSet":
            n = r.randrange(0, len(self.fields) + 1)
            fs = r.sample(self.fields, n)
            if r.randrange(20) == 0:
                fs += ["n%d" % i for i in range(r.choice([10, 100, 300]))]
            return dict(op=op, k=k, kv=[[f, self.val((k,))] for f in fs])
        if op in ("HDel", "HMGet"):
            fs = [self.field() for _ in range(r.randrange(1, 4))]
            if r.randrange(10) == 0:
                fs += self.fields
            return dict(op=op, k=k, ks=fs)
        if op in ("HGet", "HExists", "HStrLen"):
            return dict(op=op, k=k, f=self.field())
        if op == "HIncrBy":
            return dict(op=op, k=k, f=self.field(), d=self.delta())
        if op == "HIncrByFloat":
            return dict(op=op, k=k, f=self.field(), d=self.fdelta())
        if op == "Advance":
            left = sorted(set(d - self.now for d in self.dead if d > self.now))
            cand = [1, 2, 999, 1000, 1001, 2000, 4000]
            for d in left[:4]:
                cand += [d, d, d - 1, d + 1]
            n = r.choice([c for c in cand if c > 0 and not (self.p.get("cron") and c > 8000)])
            if self.total + n > 1500000000:
                n = 1
            self.total += n
            self.now += n
            return dict(op=op, n=n)
        if op == "Msg":
            return self.msg()
        raise CheckError("no generator for " + op)

    def offset(self):
        r = self.r
        if self.p.get("vals") in ("int", "dyadic", "safe"):
            return r.choice([0, 0, 1, 2, 3, -1])
        return r.choice([-1, -5, 0, 0, 1, 2, 3, 5, 8, 20, 63, 64, 100]) if r.randrange(20) else r.choice([255, 4096, 16384, 65536])

    def index(self):
        r = self.r
        return r.choice([-1, -2, -3, -5, -64, -100, -2000000000, 0, 0, 1, 2, 3, 5, 31, 63, 64, 100, 255, 4095, 65535, 2000000000])

    def spell(self, w):
        r = self.r
        return r.choice([w, w, w.upper(), w.capitalize(), "".join(r.choice([c.lower(), c.upper()]) for c in w)])

    def msg(self):
        r = self.r
        x = r.randrange(20)
        n = 0
        if x == 0:
            return dict(op="Msg", kind=r.choice(["int", "simple", "error", "nil", "bulk"]), args=[], n=0)
        if x <= 3:   # not supported
            w = r.choice([["rpush", "a", "1"], ["lpush", "a", "1"], ["sadd", "a", "1"], ["zadd", "a", "1", "m"], ["get", "a"], ["foo"],
                          ["expire", "a", "10", "nx"], ["expire", "a"], ["expire", "a", "1.5"], ["pexpire", "a", ""], ["expireat", "a", ""], ["expireat", "a", "then"], ["persist"],
                          ["persist", "a", "b"], ["unlink"], ["rename", "a", "b"], ["set", "a", "b", "xx", "10"], ["set", "a", "b", "nx", "xx"], ["set", "a", "b", "keepttl", "ex", "10"],
                          ["set", "a", "b", "px", "10", "ex", "10"], ["set", "a", "b", "px", "10", "px", "10"], ["set", "a", "b", "pxat"], ["set", "a", "b", "exat", "x"], ["set", "a", "b", "nx", "px"],
                          ["set", "a", "b", "keepttl", "keepttl"], ["set", "a", "b", "get", "put"], ["set", "a", "b", ""], ["set", "a", "b", "pxat", "10", "keepttl"],
                          ["set", "a", "1", "ex", "x"], ["set", "a", "1", "px", "1.5"], ["set", "a", "1", "ex"], ["eval", "return 1", "0"],
                          ["multi"], ["exec"], ["set", "a"], ["set"], ["hset", "h", "f"], ["hmset", "h"], ["hset", "h", "f", "1", "g"],
                          ["", "a", "b"], ["set "], ["\x00"], ["mset", "a"], ["mset", "a", "1", "b"], ["msetnx"], ["del"],
                          ["setex", "a", "1"], ["setex", "a", "x", "1"], ["psetex", "a", "1x", "1"], ["incr"], ["incr", "a", "b"],
                          ["incrby", "a"], ["incrby", "a", "x"], ["incrby", "a", "1.5"], ["decrby", "a", ""], ["incrby", "a", "9223372036854775808"],
                          ["incrbyfloat", "a", "abc"], ["incrbyfloat", "a", "nan"], ["incrbyfloat", "a", "-inf"], ["hincrbyfloat", "h", "f", "Infinity"],
                          ["hincrbyfloat", "h", "f", "NaN"], ["setrange", "a", "4611686018427387904", "x"], ["setrange", "a", "9223372036854775807", ""],
                          ["setrange", "a", "-9223372036854775808", "x"], ["incrbyfloat", "a", ""], ["append", "a"], ["append", "a", "b", "c"], ["setrange", "a", "x", "b"],
                          ["setrange", "a", "1"], ["setrange", "a", "-1", "b"], ["getset", "a"], ["setnx", "a"], ["hdel", "h"],
                          ["hincrby", "h", "f"], ["hincrby", "h", "f", "x"], ["hincrbyfloat", "h", "f", "x"], ["hsetnx", "h", "f"],
                          ["pexpireat", "a"], ["pexpireat", "a", "soon"], ["flushdbx"], ["se", "a", "b"], ["sett", "a", "b"], []])
            w = list(w)
            if len(w) > 1:
                w[1] = self.key() if w[0] != "eval" else w[1]
            if w and w[0]:
                w[0] = self.spell(w[0])
            return dict(op="Msg", kind="array", args=w, n=0)
        c = r.choice(["set", "set", "set", "setex", "psetex", "setpx", "setex5", "hset", "hmset", "setnx", "getset", "append", "setrange", "incr",
                      "decr", "incrby", "decrby", "incrbyfloat", "mset", "msetnx", "del", "flushdb", "pexpireat", "hsetnx", "hdel", "setopt", "setopt", "expire", "pexpire", "expireat", "persist", "unlink", "flushall",
                      "hincrby", "hincrbyfloat"])
        k, f = self.key(), self.field()
        if c in ("flushdb", "flushall") and r.randrange(4):
            c = "set"
        num = str(r.choice([1, 2, 10, 1000, 2500]))
        if c in ("setex", "psetex", "setpx", "setex5", "expire", "pexpire") and r.randrange(12) == 0:
            num = str(r.choice([9223372037, 18446744074, 18446744073710, 2**63 - 1, -18446744073, -2**63, 0, -1, 999999999]))
        args = {
            "set": lambda: [k, self.val(k)], "setnx": lambda: [k, self.val(k)], "getset": lambda: [k, self.val(k)],
            "setex": lambda: [k, num, self.val(k)], "psetex": lambda: [k, num, self.val(k)],
            "setpx": lambda: [k, self.val(k), self.spell("px"), num], "setex5": lambda: [k, self.val(k), self.spell("ex"), num],
            "hset": lambda: [k] + sum([[q, self.val(k)] for q in [self.field() for _ in range(r.randrange(1, 4))]], []),
            "hmset": lambda: [k] + sum([[q, self.val(k)] for q in [self.field() for _ in range(r.randrange(1, 4))]], []),
            "append": lambda: [k, self.piece(k)], "setrange": lambda: [k, str(r.choice([0, 1, 3])), self.piece(k)],
            "incr": lambda: [k], "decr": lambda: [k], "incrby": lambda: [k, self.delta()], "decrby": lambda: [k, self.delta()],
            "incrbyfloat": lambda: [k, self.fdelta(False)],
            "mset": lambda: sum([[q, self.val(q)] for q in [self.key() for _ in range(r.randrange(1, 4))]], []),
            "msetnx": lambda: sum([[q, self.val(q)] for q in r.sample(self.keys, r.randrange(1, len(self.keys) + 1))], []),
            "del": lambda: [self.key() for _ in range(r.randrange(1, 4))], "flushdb": lambda: [],
            "pexpireat": lambda: [k, "@"], "expireat": lambda: [k, "@"], "expire": lambda: [k, num], "pexpire": lambda: [k, num], "persist": lambda: [k],
            "unlink": lambda: [self.key() for _ in range(r.randrange(1, 4))], "flushall": lambda: r.choice([[], ["async"]]), "setopt": lambda: [k, self.val(k)], "hsetnx": lambda: [k, f, self.val(k)],
            "hdel": lambda: [k] + [self.field() for _ in range(r.randrange(1, 3))],
            "hincrby": lambda: [k, f, self.delta()], "hincrbyfloat": lambda: [k, f, self.fdelta(False)],
        }[c]()
        if c in ("setex", "setex5", "expire"):
            self.setdead(min(int(num) * 1000, 2000000000))
        if c in ("psetex", "setpx", "pexpire"):
            self.setdead(min(int(num), 2000000000))
        if c == "pexpireat":
            n = r.choice([self.ttl(), self.ttl(), -5, 0])
            self.setdead(n)
            args[1] = "@%d" % n
        if c == "expireat":
            n, args[1] = self.moment(True)
        if c == "setopt":
            opts = [[r.choice(["nx", "xx"])]] * r.randrange(2) + [["get"]] * (r.randrange(4) == 0)
            x = r.choice(["", "keepttl", "keepttl", "ex", "px", "exat", "pxat", "pxat"])
            if x == "keepttl":
                opts.append([x])
            elif x in ("ex", "px"):
                opts.append([x, num])
                self.setdead(min(int(num) * (1000 if x == "ex" else 1), 2000000000))
            elif x:
                n, w = self.moment(x == "exat")
                opts.append([x, w])
            r.shuffle(opts)
            args += [y if y[:1] in "@-0123456789" else self.spell(y) for o in opts for y in o]
        name = {"setpx": "set", "setex5": "set", "setopt": "set"}.get(c, c)
        return dict(op="Msg", kind="array", args=[self.spell(name)] + args, n=n)

    def moment(self, seconds):
        """an absolute time: how far away, and how it is written"""
        r = self.r
        if r.randrange(8) == 0:
            return r.choice([(0, "1"), (0, "0"), (-1000, "-5"), (2000000000, str(2**63 - 1)), (-1000, str(-2**63))])
        if seconds:     # rounded: nothing near
            n = r.choice([2000000000, 2000000000, -5000])
            return n, "@@%d" % n
        n = r.choice([self.ttl(), self.ttl(), -5, 0])
        self.setdead(n)
        return n, "@%d" % n

    def look(self):
        """reads that show the whole state"""
        out = []
        for k in self.keys:
            for o in self.p.get("look", ["Get"]):
                out.append(dict(op=o, k=k, ks=[k]) if o != "Exists" else dict(op=o, ks=[k]))
        return out

    def run(self, n):   # less than a thousand events
        ops = [o for o, w in self.p["ops"].items() for _ in range(w)]
        for _ in range(n):
            c = self.cmd(self.r.choice(ops))
            self.ev.append(c)
            if c["op"] in self.p.get("watch", ()):
                self.ev += self.look()
        self.ev += self.look()
        return {"cron": bool(self.p.get("cron")), "ev": self.ev}


def free(c):
    return dict(c, free=1)


def traces(ctx, name, prof, count, length):
    r = ctx.rng("traces-" + name)
    twin = prof.get("twin")
    items = []
    for _ in range(count):
        g = Gen(r, prof)
        t = g.run(r.randrange(length // 2, length + 1))
        if twin:    # reads are judged only where both twins have them
            last = len(t["ev"]) - len(g.look())
            t["bare"] = [c for i, c in enumerate(t["ev"]) if i >= last or c["op"] not in READS]
            t["ev"] = [free(c) if i < last and c["op"] in READS else c for i, c in enumerate(t["ev"])]
        items.append(t)
    if max(len(t["ev"]) for t in items) > 900:
        raise CheckError("a trace is too long for the resolution of time")
    recs = record(ctx, name, items, prof.get("cron"))
    if recs is None:
        return
    if not twin:
        recs = validate(ctx, name, recs)
    else:
        bare = record(ctx, name, [{"cron": t["cron"], "ev": t["bare"]} for t in items], prof.get("cron"))
        if bare is None:
            raise CheckError("traces %s: the bare twins can not be run" % name)
        skipped = 0
        while True:
            bad = failing(ctx, name, recs)
            if bad is None:
                break
            t, i, want = bad
            if failing(ctx, name, [bare[t]]) is None:
                complain(ctx, name, recs[t], t, i, want)
                return
            skipped += 1    # something else is wrong: not this property
            del recs[t], bare[t]
            if skipped > 20 or not recs:
                log("note: traces %s are wrong with and without reads" % name)
                return
    if recs:
        ctx.traces += len(recs)
        ctx.extra["events_" + name] = sum(len(x["ev"]) for x in recs)
        ctx.sample({"trace": name, "first_events": recs[0]["ev"][:6] if len(json.dumps(recs[0]["ev"][:6])) < 3000 else recs[0]["ev"][:1]})


def record(ctx, name, items, cron=False):
    parts = max(6, len(items) // 60) if cron else 6
    srcs = [write_lines(ctx.tmp(".ndjson"), items[p::parts]) for p in range(parts)]
    recs = [None] * len(items)
    for p, (out, bad) in enumerate(ctx.run_parts([("kvtrace", src, 1200) for src in srcs])):
        if bad:
            ctx.violation("traces %s: %s %s" % (name, bad["what"], bad["detail"]), bad)
            return None
        recs[p::parts] = read_lines(out)    # fails unless all were recorded
    return recs


def failing(ctx, name, recs):
    """the first trace that is not a behaviour of KV: (trace, event, expected result)"""
    out = write_lines(ctx.tmp(".ndjson"), recs)
    cfg = """CONSTANT TraceFile = %s
SPECIFICATION Spec
INVARIANT Conforms NoEmptyHash
ALIAS Alias
CHECK_DEADLOCK FALSE
""" % tla_str(out)
    res = ctx.tlc("KVTrace", cfg, timeout=1800)
    if res["ok"]:
        n = sum(len(x["ev"]) for x in recs)
        if res["states"] < n:
            raise CheckError("TLC looked at %d states of %d events" % (res["states"], n))
        return None
    a = alias_values(res["text"])
    if "t" not in a:
        raise CheckError("cannot read the counterexample:\n" + res["text"][-3000:])
    return int(a["t"]) - 1, int(a["i"]), a.get("want", "?")


def complain(ctx, name, rec, t, i, want):
    ev = rec["ev"][:i]
    ctx.violation("trace %s %d event %d: %s gave %s, specification: %s" %
                  (name, t + 1, i, jline(ev[-1]["c"])[:400], jline(ev[-1]["r"])[:300], want[:300]), ev)


def validate(ctx, name, recs):
    bad = failing(ctx, name, recs)
    if bad is None:
        return recs
    t, i, want = bad
    complain(ctx, name, recs[t], t, i, want)
    return None


STR_R = dict(Get=2, StrLen=1, MGet=1)
HREADS = dict(HGet=2, HMGet=1, HExists=1, HStrLen=1, HLen=1, HKeys=1, HVals=1, HGetAll=1)
HWRITES = dict(HSet=3, HSetNX=2, HMSet=2, HDel=3)


def D(*ds, **kw):
    out = {}
    for d in ds:
        out.update(d)
    out.update(kw)
    return out


STRW = dict(Set=2, SetNX=1, SetEX=1, PSetEX=1, GetSet=1, MSet=1, MSetNX=1, Append=1, SetRange=1, Incr=1, Decr=1, IncrBy=1, DecrBy=1)
ALLSTR = D(STRW, STR_R, GetRange=1)
ALLHASH = D(HWRITES, HREADS, HIncrBy=1)
S_ALL = list(ALLSTR)
H_ALL = list(ALLHASH)

PLANS = {
    "C01": dict(
        graphs=[dict(Ops=["Set", "SetNX", "SetEX", "PSetEX", "GetSet", "MSet", "Get", "MGet", "StrLen", "GetRange", "Del"],
                     Ks=["a", "b"], Vs=["", "007", "1.50", "x"], Ts=[9], Gs=[0, -1], MaxDepth=3, obs=["Get"])],
        traces=[dict(ops=D(STR_R, Set=3, SetNX=2, SetEX=1, PSetEX=1, GetSet=2, MSet=1, GetRange=2, Del=1), vals="any", full=1, nkeys=4, look=["Get", "StrLen"])],
        n=(750, 4000), len=40),
    "C02": dict(
        graphs=[dict(Ops=["Set", "Append", "SetRange", "GetRange", "StrLen", "Get", "Incr", "Del"], Vs=["1", "ab"], Ps=["", "0", "-"],
                     Os=[-1, 0, 1, 3], Gs=[-3, -1, 0, 1, 2], MaxLen=2, obs=["Get"])],
        traces=[dict(ops=dict(Set=3, Append=3, SetRange=3, GetRange=4, StrLen=2, Get=1, Incr=1, GetSet=1, Del=1), vals="any", nkeys=2, look=["Get", "StrLen"]),
                dict(ops=dict(Set=2, Append=3, SetRange=3, GetRange=2, StrLen=2, Incr=2, IncrBy=2, Decr=1, Get=1, Del=1), vals="int", nkeys=2, look=["Get", "StrLen"])],
        n=(450, 3000), len=40),
    "C03": dict(
        graphs=[dict(Ops=["Set", "Append", "Get", "Incr", "Decr", "IncrBy", "DecrBy", "Del"],
                     Vs=["9223372036854775806", "-9223372036854775807", "0", "x", "1.5", "007", ""], Ps=["0", "-"],
                     Is=["1", "-1", "0", "9223372036854775807", "-9223372036854775808", "10"], MaxLen=20, MaxDepth=4, obs=["Get"])],
        traces=[dict(ops=dict(Set=3, Append=1, SetRange=1, Incr=3, Decr=3, IncrBy=4, DecrBy=4, Get=1, GetSet=1, Del=1, MSet=1), vals="int", nkeys=2,
                     watch=["Incr", "Decr", "IncrBy", "DecrBy"])],
        n=(750, 4000), len=40),
    "C04": dict(
        graphs=[dict(Ops=["Set", "Append", "Get", "Incr", "IncrByFloat", "Del"], Vs=["1.5", "15e-1", "x", "10", "", "-0"], Ps=["0", "x"],
                     Ds=["0.5", "-1.25", "3", "-0.5"], MaxLen=6, MaxDepth=5, obs=["Get"])],
        traces=[dict(ops=dict(Set=3, Append=1, IncrByFloat=6, Incr=1, IncrBy=1, Decr=1, Get=1, StrLen=1, GetSet=1, Del=1), vals="dyadic", nkeys=2,
                     watch=["IncrByFloat"])],
        n=(750, 4000), len=40),
    "C05": dict(
        graphs=[dict(Ops=["Set", "SetNX", "MSetNX", "PSetEX", "Advance", "Get", "Del", "Incr"], Ks=["a", "b"], Vs=["1", "x"], Ts=[1, 2], MaxLen=1,
                     MaxDepth=5, obs=["Get"]),
                dict(Ops=["HSetNX", "HSet", "HGet", "HDel", "HGetAll", "HLen", "HIncrBy"], Ks=["a"], Vs=["1", "x"], MaxLen=1, obs=["HGetAll", "HLen"])],
        traces=[dict(ops=dict(Set=1, SetNX=5, MSetNX=4, PSetEX=2, SetEX=1, Advance=3, Get=1, Del=2, Append=1, Incr=1, StrLen=1), vals="small", nkeys=4, many=1),
                dict(ops=dict(HSetNX=6, HSet=1, HDel=3, HGet=1, HIncrBy=1, HLen=1, Del=1), vals="small", nkeys=2, look=["HGetAll", "HLen"])],
        lin=["nx"], n=(360, 3000), len=40),
    "C06": dict(
        graphs=[dict(Ops=S_ALL + ["IncrByFloat", "Exists", "Type", "Del", "Advance", "HSet", "HLen", "HGet"], Ks=["a"], Fs=["f"], Vs=["1"], Ps=["0"],
                     Ts=[0, 1, 2], As=[1], MaxLen=2, obs=["Get", "Exists"]),
                dict(Ops=["SetEX", "PSetEX", "Advance"] + H_ALL, Ks=["a"], Fs=["f"], Vs=["1"], Ts=[1, 2], MaxLen=1, obs=["HGetAll", "Exists"])],
        traces=[dict(ops=D(ALLSTR, SetEX=5, PSetEX=6, Advance=9, Exists=2, Type=1, Del=1, HSet=1, HGet=1, HLen=1), vals="safe", nkeys=3, look=["Get", "Exists"]),
                dict(ops=dict(PSetEX=12, SetEX=2, Set=2, MGet=2, Get=2, Append=1, Advance=1), vals="safe", nkeys=130, look=["Get", "Exists"], n=(12, 120), len=300)],
        lin=["expired", "clock-string", "clock-hash"], n=(750, 4000), len=60),
    "C07": dict(
        graphs=[dict(Ops=["Set", "SetNX", "SetEX", "PSetEX", "GetSet", "MSet", "MSetNX", "Append", "SetRange", "Incr", "DecrBy", "IncrByFloat", "Del", "Flush", "Advance"],
                     Ks=["a"], Vs=["1"], Ps=["0"], Ts=[0, 1, 3], As=[1], MaxLen=2, MaxDepth=6, obs=["Get"])],
        traces=[dict(ops=D(STRW, IncrByFloat=1, Get=1, SetEX=3, PSetEX=4, Advance=6, Del=1, Flush=1), vals="safe", nkeys=2, look=["Get"])],
        lin=["ttl"], n=(750, 4000), len=60),
    "C08": dict(
        graphs=[dict(Ops=["Set", "PSetEX", "Append", "HSet", "Advance", "Del", "Get", "HGet"], Ks=["a", "b"], Fs=["f"], Vs=["1"], Ps=["0"], Ts=[1, 3], As=[1], MaxLen=1,
                     cron=True, obs=["Get", "HGetAll"])],
        traces=[dict(ops=D(ALLSTR, HWRITES, HGetAll=1, SetEX=3, PSetEX=5, Advance=9, Exists=1, PExpireAt=2, Flush=1, Del=1), vals="safe", nkeys=4, cron=True,
                     look=["Get", "HGetAll"]),
                dict(ops=dict(PSetEX=12, PExpireAt=3, Set=2, HSet=2, Append=2, Advance=1), vals="safe", nkeys=130, cron=True, look=["Get", "HLen"], n=(24, 120), len=300)],
        lin=["cron"], n=(750, 4000), len=60),
    "C09": dict(
        graphs=[dict(Ops=list(HWRITES) + list(HREADS) + ["Del"], Ks=["a"], Fs=["f", "g"], Vs=["", "007", "1.5"], MaxLen=3, obs=["HGetAll", "HLen"])],
        traces=[dict(ops=D(HWRITES, HREADS, Del=1), vals="any", nkeys=2, nfields=5, look=["HGetAll", "HLen"])],
        n=(600, 3000), len=40),
    "C10": dict(
        graphs=[dict(Ops=["HSet", "HSetNX", "HMSet", "HDel", "HGet", "HLen", "HIncrBy"], Ks=["a"], Fs=["f", "g"],
                     Vs=["", "x", "9223372036854775806", "2.5"], Is=["1", "-1", "9223372036854775807"], MaxLen=20, MaxDepth=4, obs=["HGetAll", "HLen"]),
                dict(Ops=["HSet", "HDel", "HGet", "HLen", "HIncrBy", "HIncrByFloat"], Ks=["a"], Fs=["f", "g"],
                     Vs=["", "x", "3", "2.5"], Is=["1", "-1"], Ds=["0.5", "-1.5"], MaxLen=4, MaxDepth=4, obs=["HGetAll", "HLen"])],
        traces=[dict(ops=dict(HSet=3, HSetNX=1, HMSet=1, HDel=1, HIncrBy=8, HGet=1, HLen=1), vals="int", nkeys=2, nfields=3, look=["HGetAll", "HLen"]),
                dict(ops=dict(HSet=2, HSetNX=1, HDel=1, HIncrBy=3, HIncrByFloat=6, HGet=1, HLen=1), vals="dyadic", nkeys=2, nfields=3, look=["HGetAll", "HLen"])],
        n=(450, 3000), len=40),
    "C11": dict(
        graphs=[dict(Ops=S_ALL + ["IncrByFloat", "Type", "Del"] + H_ALL + ["HIncrByFloat"], Ks=["a"], Fs=["f"], Vs=["1"], Ps=["0"], Ts=[9], MaxLen=1,
                     obs=["Get", "HGetAll", "HLen", "Type"])],
        traces=[dict(ops=D(ALLSTR, ALLHASH, IncrByFloat=1, HIncrByFloat=1, Type=4, Del=3, Advance=2), vals="safe", nkeys=3, look=["Type", "Get", "HGetAll", "HLen"],
                     watch=["Type"])],
        n=(750, 4000), len=50),
    "C12": dict(
        graphs=[dict(Ops=["Set", "PSetEX", "Append", "HSet", "HDel", "Del", "SetNX", "Incr", "Advance", "Get", "MGet", "StrLen", "GetRange", "Exists", "Type"] + list(HREADS),
                     Ks=["a"], Fs=["f", "g"], Vs=["1"], Ps=["0"], Ts=[1], MaxLen=2, obs=["Get", "HGetAll"], reads=True)],
        traces=[dict(ops=D(ALLSTR, ALLHASH, Exists=3, Type=3, Get=3, MGet=3, GetRange=3, Advance=4, Del=2, IncrByFloat=1, HIncrByFloat=1), vals="safe", nkeys=2,
                     look=["Get", "HGetAll", "HLen", "StrLen"], twin=True)],
        n=(750, 4000), len=60),
    "C13": dict(
        graphs=[dict(Ops=["Set", "HSet", "HDel", "Append", "Incr", "Del", "Exists", "Flush", "MSet", "Get", "HGet"], Ks=["a", "b"], Fs=["f", "g"], Vs=["1"], Ps=["0"],
                     MaxLen=1, obs=["Get", "HGetAll", "Exists"]),
                dict(Ops=["Set", "PSetEX", "SetNX", "HSet", "Del", "Exists", "Flush", "Advance", "Type"], Ks=["a", "b"], Fs=["f"], Vs=["1"], Ts=[1, 2], As=[1],
                     MaxLen=1, obs=["Get", "HGetAll", "Exists"])],
        traces=[dict(ops=D(ALLSTR, ALLHASH, Del=6, Exists=6, Flush=1), vals="safe", nkeys=5, look=["Get", "HGetAll", "Exists"], watch=["Del", "Flush"]),
                dict(ops=D(ALLSTR, HWRITES, PSetEX=5, Advance=5, Del=6, Exists=6, Flush=1, HGetAll=1), vals="safe", nkeys=4, look=["Get", "HGetAll", "Exists"],
                     watch=["Del"]),
                dict(ops=dict(Set=3, MSet=2, HSet=3, PSetEX=1, Advance=1, Del=4, Exists=2, MGet=1), vals="safe", nkeys=70, many=1, look=["Get", "HLen", "Exists"], n=(12, 60), len=150)],
        lin=["del"], n=(600, 3000), len=50),
    "C28": dict(
        graphs=[dict(Ops=["Msg", "Get", "HGetAll"], Ks=["a"], Fs=["f"], Vs=["1"], MaxLen=2, obs=["Get", "HGetAll"],
                     msgs=[["SET", "a", "1"], ["set", "a", "x", "EX", "1x"], ["set", "a", "x", "px", ""], ["set", "a"], ["set", "a", "1", "nx"], ["set", "a", "2", "KEEPTTL", "xx"], ["set", "a", "3", "px", "0", "get"], ["set", "a", "1", "xx", "nx"], ["SET", "a", "4", "pxat", "7"],
                           ["expire", "a", "-1"], ["pexpire", "a", "0"], ["persist", "a"], ["unlink", "a"], ["flushall"],
                           ["Append", "a", "0"], ["incr", "a"], ["DECRBY", "a", "2"], ["incrby", "a", "z"], ["del", "a"], ["HSET", "a", "f", "1"],
                           ["hmset", "a", "f", "1", "g", "2"], ["hdel", "a", "f"], ["hincrby", "a", "f", "1"], ["hset", "a", "f"], ["rpush", "a", "1"],
                           ["setnx", "a", "7"], ["getset", "a", "8"], ["setrange", "a", "1", "q"], ["setrange", "a", "-1", "q"], ["flushdb"],
                           ["mset", "a", "1"], ["mset", "a"], ["msetnx", "a", "2"], [], ["incrbyfloat", "a", "0.5"], ["hsetnx", "a", "g", "3"],
                           ["hincrbyfloat", "a", "f", "1.5"]], MaxDepth=5)],
        traces=[dict(ops=dict(Msg=12, Advance=2), vals="safe", nkeys=3, nfields=3, look=["Get", "HGetAll", "HLen"], watch=["Msg"])],
        lin=["msg"], n=(750, 3000), len=40),
}


def check(ctx):
    plan = PLANS[ctx.prop]
    ctx.assumptions = ["TLC and the specification in spec/KV.tla", "virtual time of testing/synctest stands for real time",
                       "floating point sums are exercised only where they are exact"]
    for i, g in enumerate(plan["graphs"]):
        g = dict(g)
        g.update(plan.get("deep", {}) if ctx.thorough else {})
        graph(ctx, str(i + 1), g)
    count = ctx.pick(*plan["n"])
    for i, p in enumerate(plan["traces"]):
        traces(ctx, str(i + 1), p, ctx.pick(*p["n"]) if "n" in p else count, p.get("len", plan["len"]))
    if plan.get("lin"):
        import lin
        for kind in plan["lin"]:
            lin.run(ctx, kind)
