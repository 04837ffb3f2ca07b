"""Properties C14-C16 and the concurrent parts of C06 and C08: histories of
concurrent calls recorded from the real cache (with a scheduling point before
every statement) must be linearizable with respect to KV (spec/KVLin.tla)."""
from core import *

R = lambda op, **kw: dict(op=op, **kw)


def string_history(r, i):
    theme = i % 14
    ks = ["a", "b"][:r.choice([1, 1, 2])]
    k = lambda: r.choice(ks)
    u = [0]

    def fresh():
        u[0] += 1
        return "v%d" % u[0]
    pre = []
    themes = [
        lambda: r.choice([R("Incr", k=k()), R("IncrBy", k=k(), d="5"), R("Decr", k=k()), R("DecrBy", k=k(), d="3")]),
        lambda: R("Append", k=k(), v=r.choice("xyz")),
        lambda: r.choice([R("SetNX", k=k(), v=fresh()), R("Get", k=k())]),
        lambda: R("GetSet", k=k(), v=fresh()),
        lambda: r.choice([R("Set", k=k(), v=fresh()), R("Get", k=k()), R("GetSet", k=k(), v=fresh())]),
        lambda: r.choice([R("SetRange", k=k(), n=r.choice([0, 1, 3, 5]), v=r.choice(["p", "qq"])), R("StrLen", k=k()), R("GetRange", k=k(), n=0, m=-1)]),
        lambda: r.choice([R("IncrByFloat", k=k(), d=r.choice(["0.5", "1.5", "2"])), R("Incr", k=k()), R("Get", k=k())]),
        lambda: r.choice([R("Append", k=k(), v=r.choice("xy")), R("Set", k=k(), v=fresh()), R("SetEX", k=k(), v=fresh(), n=1000000, ns="1000"), R("StrLen", k=k())]),
        lambda: r.choice([R("SetNX", k=k(), v="1"), R("Incr", k=k()), R("Set", k=k(), v="10"), R("PSetEX", k=k(), v="5", n=1000000, ns="1000000")]),
        lambda: r.choice([R("IncrByFloat", k=k(), d="0.5"), R("IncrByFloat", k=k(), d="0.25")]),
        lambda: r.choice([R("Incr", k=k()), R("Append", k=k(), v="0"), R("GetSet", k=k(), v="7"), R("Decr", k=k())]),
        lambda: r.choice([R("Flush"), R("Incr", k=k()), R("Append", k=k(), v="1"), R("SetRange", k=k(), n=2, v="5"), R("IncrByFloat", k=k(), d="2")]),
        lambda: r.choice([R("Del", k=k()), R("Incr", k=k()), R("Append", k=k(), v="1"), R("SetNX", k=k(), v="8"), R("GetSet", k=k(), v=fresh()), R("Flush")]),
    ]
    if theme == 13:
        ops = [themes[r.randrange(13)] for _ in range(3)]
        op = lambda: r.choice(ops)()
    else:
        op = themes[theme]
    for q in ks:
        if r.randrange(3) == 0 and theme != 2:
            pre.append(R("Set", k=q, v=r.choice(["1", "10", "2.5"]) if theme in (0, 6, 8, 9, 10, 11, 12) else "ab"))
    if theme in (0, 9, 10, 11, 12):
        pre = [c for c in pre if c["v"] != "2.5"]
    if theme == 9:
        pre = [R("Set", k=q, v="1.5") for q in ks]
    return op, pre, [R(o, k=q) for q in ks for o in ("Get", "StrLen")]


def multi_history(r, i):
    theme = i % 7
    ks = ["a", "b", "c"][:r.choice([2, 2, 3])]
    u = [0]

    def fresh():
        u[0] += 1
        return str(u[0])
    kv = lambda: [[q, fresh()] for q in ks]
    some = lambda: [[q, fresh()] for q in r.sample(ks, r.randrange(1, len(ks) + 1))]
    mget = lambda: R("MGet", ks=r.choice([ks, ks[::-1]]))
    single = lambda: r.choice([R("Set", k=r.choice(ks), v=fresh()), R("Get", k=r.choice(ks)), R("Incr", k=r.choice(ks)), R("GetSet", k=r.choice(ks), v=fresh())])
    op = [
        lambda: r.choice([R("MSet", kv=kv()), mget()]),
        lambda: R("MSet", kv=kv()),
        lambda: r.choice([R("MSetNX", kv=kv()), mget()]),
        lambda: R("MSetNX", kv=some()),
        lambda: r.choice([R("MSet", kv=kv()), R("MSetNX", kv=some()), mget()]),
        lambda: r.choice([R("MSet", kv=kv()), mget(), single()]),
        lambda: r.choice([R("MSet", kv=some()), R("MSetNX", kv=some()), mget(), single()]),
    ][theme]
    pre = [R("Set", k=q, v="0") for q in ks if theme not in (2, 3) and r.randrange(2)]
    return op, pre, [R("MGet", ks=ks)] + [R("Get", k=q) for q in ks]


def hash_history(r, i):
    theme = i % 12
    ks = ["h", "g"][:r.choice([1, 1, 1, 2])]
    fs = ["f1", "f2", "f3"]
    k = lambda: r.choice(ks)
    f = lambda: r.choice(fs)
    u = [0]

    def fresh():
        u[0] += 1
        return str(u[0])
    fv = lambda: [[q, fresh()] for q in r.sample(fs, r.randrange(1, 4))]
    fl = lambda: r.sample(fs, r.randrange(1, 4))
    op = [
        lambda: R("HSet", k=k(), f=f(), v=fresh()),
        lambda: r.choice([R("HSetNX", k=k(), f=f(), v=fresh()), R("HGet", k=k(), f=f())]),
        lambda: r.choice([R("HIncrBy", k=k(), f="f1", d="1"), R("HIncrBy", k=k(), f="f1", d="5")]),
        lambda: r.choice([R("HIncrByFloat", k=k(), f="f1", d="0.5"), R("HIncrByFloat", k=k(), f="f1", d="1.5"), R("HIncrBy", k=k(), f="f2", d="1")]),
        lambda: r.choice([R("HSet", k=k(), f=f(), v=fresh()), R("HDel", k=k(), ks=fl()), R("HLen", k=k())]),
        lambda: r.choice([R("HMSet", k=k(), kv=fv()), R("HGetAll", k=k()), R("HMGet", k=k(), ks=fs)]),
        lambda: r.choice([R("HMSet", k=k(), kv=fv()), R("HDel", k=k(), ks=fl()), R("HKeys", k=k()), R("HVals", k=k()), R("HExists", k=k(), f=f())]),
        lambda: r.choice([R("HSet", k=k(), f=f(), v=fresh()), R("Del", k=k()), R("HLen", k=k())]),
        lambda: r.choice([R("HMSet", k=k(), kv=fv()), R("Flush"), R("HGetAll", k=k()), R("HSetNX", k=k(), f=f(), v=fresh())]),
        lambda: r.choice([R("HIncrBy", k=k(), f="f1", d="1"), R("HDel", k=k(), ks=["f1"]), R("HStrLen", k=k(), f="f1")]),
        lambda: r.choice([R("HSet", k=k(), f=f(), v="1"), R("HIncrBy", k=k(), f=f(), d="2"), R("HDel", k=k(), ks=fl()), R("HMSet", k=k(), kv=fv()), R("Del", k=k()),
                          R("HSetNX", k=k(), f=f(), v=fresh()), R("HLen", k=k()), R("HGetAll", k=k())]),
        lambda: r.choice([R("HSet", k=k(), f=f(), v=fresh()), R("HSetNX", k=k(), f=f(), v=fresh()), R("HMSet", k=k(), kv=fv()), R("HIncrBy", k=k(), f=f(), d="1")]),
    ][theme]
    pre = []
    if r.randrange(3) == 0:
        pre = [R("HSet", k=q, f="f1", v="3") for q in ks]
    return op, pre, [R(o, k=q) for q in ks for o in ("HGetAll", "HLen")]


def expired_history(r, i, flavour="string"):
    """keys that expired just now, not collected yet, are used by many at once"""
    ks = ["a", "b"][:r.choice([1, 1, 2])] if flavour != "multi" else ["a", "b"]
    k = lambda: r.choice(ks)
    pre = [R("PSetEX", k=q, v="7", n=1, ns="1") for q in ks] + [R("Advance", n=2)]
    kv = lambda v: [[q, v] for q in ks]
    reads = {
        "string": [lambda: R("Get", k=k()), lambda: R("StrLen", k=k()), lambda: R("GetRange", k=k(), n=0, m=-1), lambda: R("Exists", ks=[k()]), lambda: R("Type", k=k()),
                   lambda: R("MGet", ks=ks), lambda: R("HGet", k=k(), f="f"), lambda: R("HLen", k=k())],
        "multi": [lambda: R("MGet", ks=ks), lambda: R("Exists", ks=ks), lambda: R("Get", k=k())],
        "hash": [lambda: R("HGet", k=k(), f="f"), lambda: R("HLen", k=k()), lambda: R("HGetAll", k=k()), lambda: R("HMGet", k=k(), ks=["f"]), lambda: R("HExists", k=k(), f="f"),
                 lambda: R("HStrLen", k=k(), f="f"), lambda: R("HKeys", k=k()), lambda: R("HVals", k=k()), lambda: R("Exists", ks=[k()]), lambda: R("Type", k=k()), lambda: R("Get", k=k())],
    }[flavour]
    writes = {
        "string": [lambda: R("SetNX", k=k(), v="n%d" % r.randrange(9)), lambda: R("Append", k=k(), v="x"), lambda: R("Incr", k=k()), lambda: R("Set", k=k(), v="s"),
                   lambda: R("GetSet", k=k(), v="g"), lambda: R("Del", k=k()), lambda: R("MSetNX", kv=kv("m")), lambda: R("SetRange", k=k(), n=1, v="q"),
                   lambda: R("SetEX", k=k(), v="e", n=1000000, ns="1000"), lambda: R("IncrByFloat", k=k(), d="0.5"), lambda: R("DecrBy", k=k(), d="3")],
        "multi": [lambda: R("MSet", kv=kv("s")), lambda: R("MSetNX", kv=kv("n")), lambda: R("MSetNX", kv=kv("m")), lambda: R("SetNX", k=k(), v="x")],
        "hash": [lambda: R("HSet", k=k(), f="f", v="1"), lambda: R("HSetNX", k=k(), f="f", v="2"), lambda: R("HMSet", k=k(), kv=[["f", "3"], ["g", "4"]]),
                 lambda: R("HIncrBy", k=k(), f="f", d="1"), lambda: R("HIncrByFloat", k=k(), f="f", d="0.5"), lambda: R("HDel", k=k(), ks=["f"]), lambda: R("Del", k=k())],
    }[flavour]
    some = reads if i % 3 == 0 else reads + writes * (2 if flavour == "hash" else 1) if i % 3 == 1 else [r.choice(writes), r.choice(reads), r.choice(reads), r.choice(writes)]
    if i % 3 == 2 and i % 2:
        w, rd = some[0], some[1]    # one kind of write among many of one kind of read
        return (lambda: w() if r.randrange(4) == 0 else rd()), pre, [R("Get", k=q) for q in ks] + [R("HGetAll", k=q) for q in ks]
    return (lambda: r.choice(some)()), pre, [R("Get", k=q) for q in ks] + [R("HGetAll", k=q) for q in ks]


def cron_history(r, i):
    """the threads start at the moment the background expiry runs"""
    ks = ["a", "b", "c"]
    k = lambda: r.choice(ks)
    pre = []
    for q in ks:
        pre.append(r.choice([R("PSetEX", k=q, v="7", n=1000, ns="1000"), R("PSetEX", k=q, v="7", n=1000, ns="1000"), R("PSetEX", k=q, v="7", n=100000, ns="100000"),
                             R("Set", k=q, v="7"), R("HSet", k=q, f="f", v="1")]))
    pre.append(R("Advance", n=1999))
    ops = [lambda: R("Get", k=k()), lambda: R("Set", k=k(), v="s"), lambda: R("SetNX", k=k(), v="n"), lambda: R("PSetEX", k=k(), v="p", n=100000, ns="100000"),
           lambda: R("Append", k=k(), v="x"), lambda: R("MSet", kv=[[q, "m"] for q in ks]), lambda: R("HSet", k=k(), f="g", v="2"), lambda: R("HGetAll", k=k()),
           lambda: R("Del", k=k()), lambda: R("Incr", k=k())]
    return (lambda: r.choice(ops)()), pre, [R("Get", k=q) for q in ks] + [R("HGetAll", k=q) for q in ks] + [R("Advance", n=4000)] + [R("Get", k=q) for q in ks]


def ttl_history(r, i):
    """writers that set, replace and drop deadlines at once; afterwards time passes"""
    ks = ["a", "b"][:r.choice([1, 1, 2])]
    k = lambda: r.choice(ks)
    t = lambda: r.choice([dict(n=100, ns="100"), dict(n=100000, ns="100000"), dict(n=100, ns="100"), dict(n=0, ns="0")])
    pre = [r.choice([R("Set", k=q, v="7"), R("PSetEX", k=q, v="7", n=100, ns="100"), R("PSetEX", k=q, v="7", n=100, ns="100")]) for q in ks if r.randrange(3)]
    ops = [lambda: R("PSetEX", k=k(), v="p", **t()), lambda: R("PSetEX", k=k(), v="1", **t()), lambda: R("Set", k=k(), v="2"), lambda: R("GetSet", k=k(), v="3"),
           lambda: R("MSet", kv=[[q, "4"] for q in ks]), lambda: R("Del", k=k()), lambda: R("Append", k=k(), v="0"), lambda: R("SetNX", k=k(), v="5"),
           lambda: R("Incr", k=k()), lambda: R("PExpireAt", k=k(), n=100, ns="100"), lambda: R("HSet", k=k(), f="f", v="1"), lambda: R("HDel", k=k(), ks=["f"]),
           lambda: R("Flush"), lambda: R("SetRange", k=k(), n=1, v="6"), lambda: R("MSetNX", kv=[[q, "9"] for q in ks])]
    some = r.sample(ops, r.choice([2, 2, 3, 5])) + ops[:1]
    look = [R("Get", k=q) for q in ks] + [R("HGetAll", k=q) for q in ks]
    return (lambda: r.choice(some)()), pre, look + [R("Advance", n=150)] + look + [R("Append", k=q, v="z") for q in ks] + [R("Advance", n=100000)] + look


def del_history(r, i):
    """deleting, flushing and counting keys while they are written"""
    ks = ["a", "b", "c"][:r.choice([1, 2, 3])]
    k = lambda: r.choice(ks)
    pre = [r.choice([R("Set", k=q, v="7"), R("HSet", k=q, f="f", v="1")]) for q in ks if r.randrange(4)]
    ops = [lambda: R("Del", k=k()), lambda: R("Del", k=k()), lambda: R("Exists", ks=ks), lambda: R("Set", k=k(), v="1"), lambda: R("SetNX", k=k(), v="2"),
           lambda: R("MSet", kv=[[q, "4"] for q in ks]), lambda: R("HSet", k=k(), f="f", v="1"), lambda: R("HDel", k=k(), ks=["f"]), lambda: R("Flush"),
           lambda: R("Type", k=k()), lambda: R("Append", k=k(), v="0"), lambda: R("MGet", ks=ks)]
    some = r.sample(ops, r.choice([1, 2, 3])) + ops[:1] + ([ops[8]] if r.randrange(2) else [])
    return (lambda: r.choice(some)()), pre, [R("Exists", ks=ks)] + [R(o, k=q) for q in ks for o in ("Get", "Type")]


def nx_history(r, i):
    """conditional writes racing each other"""
    ks = ["a", "b"][:r.choice([1, 1, 2])]
    u = [0]

    def fresh():
        u[0] += 1
        return str(u[0])
    k = lambda: r.choice(ks)
    f = lambda: r.choice(["f", "g"])
    h = i % 2
    pre = []
    if r.randrange(4) == 0:
        pre = [R("PSetEX", k=q, v="7", n=1, ns="1") for q in ks] + [R("Advance", n=2)]
    ops = [lambda: R("HSetNX", k=k(), f=f(), v=fresh()), lambda: R("HDel", k=k(), ks=[f()]), lambda: R("HSet", k=k(), f=f(), v=fresh()), lambda: R("Del", k=k())] if h else \
        [lambda: R("SetNX", k=k(), v=fresh()), lambda: R("MSetNX", kv=[[q, fresh()] for q in ks]), lambda: R("Set", k=k(), v=fresh()), lambda: R("Del", k=k()), lambda: R("Incr", k=k())]
    some = ops[:1] * 2 + r.sample(ops, r.choice([1, 2]))
    return (lambda: r.choice(some)()), pre, [R("HGetAll" if h else "Get", k=q) for q in ks]


def clock_history(r, i, flavour="multi"):
    """a deadline passes while a command is at work: it takes effect before or after that"""
    ks = ["a", "b", "c"][:r.choice([2, 3, 3])] if flavour == "multi" else ["a", "b"][:r.choice([1, 1, 2])]
    u = [0]

    def fresh():
        u[0] += 1
        return str(u[0])
    k = lambda: r.choice(ks)
    order = lambda: r.sample(ks, len(ks))
    kv = lambda: [[q, fresh()] for q in order()]
    T = dict(n=500, ns="500")
    if flavour == "hash":
        pre = [c for q in ks for c in (R("HMSet", k=q, kv=[["f", "7"], ["g", "1"]]), R("PExpireAt", k=q, **T)) if c["op"] == "HMSet" or r.randrange(6)]
        ops = [lambda: R("HSet", k=k(), f="f", v=fresh()), lambda: R("HSetNX", k=k(), f=r.choice("fx"), v=fresh()), lambda: R("HMSet", k=k(), kv=[["f", fresh()], ["x", "4"]]),
               lambda: R("HIncrBy", k=k(), f=r.choice("fx"), d="1"), lambda: R("HIncrByFloat", k=k(), f=r.choice("fx"), d="0.5"), lambda: R("HDel", k=k(), ks=r.choice([["f"], ["f", "g"]])),
               lambda: R("HGet", k=k(), f="f"), lambda: R("HLen", k=k()), lambda: R("HGetAll", k=k()), lambda: R("HMGet", k=k(), ks=["f", "x", "g"]),
               lambda: R("HExists", k=k(), f="f"), lambda: R("HStrLen", k=k(), f="f"), lambda: R("HKeys", k=k()), lambda: R("HVals", k=k()),
               lambda: R("Type", k=k()), lambda: R("Del", k=k()), lambda: R("Get", k=k()), lambda: R("Append", k=k(), v="x"), lambda: R("SetNX", k=k(), v="s")]
        look = [R(o, k=q) for q in ks for o in ("HGetAll", "HLen")]
    else:
        pre = [R("PSetEX", k=q, v=r.choice(["7", "10", "2.5" if flavour == "multi" else "8"]), **T) if r.randrange(6) else R("Set", k=q, v="7") for q in ks]
        multi = [lambda: R("MGet", ks=order()), lambda: R("MGet", ks=order() + order()), lambda: R("Exists", ks=order()), lambda: R("MSetNX", kv=kv()), lambda: R("MSet", kv=kv())]
        single = [lambda: R("Get", k=k()), lambda: R("StrLen", k=k()), lambda: R("GetRange", k=k(), n=0, m=-1), lambda: R("Exists", ks=[k()]), lambda: R("Type", k=k()),
                  lambda: R("HGet", k=k(), f="f"), lambda: R("Set", k=k(), v=fresh()), lambda: R("SetNX", k=k(), v=fresh()), lambda: R("GetSet", k=k(), v=fresh()),
                  lambda: R("Append", k=k(), v="0"), lambda: R("Incr", k=k()), lambda: R("DecrBy", k=k(), d="3"), lambda: R("IncrByFloat", k=k(), d="0.5"),
                  lambda: R("SetRange", k=k(), n=1, v="6"), lambda: R("Del", k=k()), lambda: R("HSet", k=k(), f="f", v="1"), lambda: R("PExpireAt", k=k(), n=100000, ns="100000"),
                  lambda: R("PSetEX", k=k(), v=fresh(), n=100000, ns="100000"), lambda: R("MGet", ks=[k()]), lambda: R("MSetNX", kv=[[k(), fresh()]])]
        ops = multi if flavour == "multi" else single
        look = [R("Get", k=q) for q in ks]
    some = r.sample(ops, r.choice([1, 2, 3]))
    return (lambda: r.choice(some)()), pre, look


def msg_history(r, i):
    """replicated commands take effect at one moment, whoever looks or writes meanwhile"""
    ks = ["a", "b"][:r.choice([1, 2, 2])]
    u = [0]

    def fresh():
        u[0] += 1
        return str(u[0])
    k = lambda: r.choice(ks)
    f = lambda: r.choice("fg")
    M = lambda *a: dict(op="Msg", kind="array", args=list(a), n=0)
    kv = lambda: sum([[q, fresh()] for q in r.sample(ks, len(ks))], [])
    fv = lambda: sum([[q, fresh()] for q in r.sample("fgh", r.randrange(1, 4))], [])
    h = i % 3 == 0
    if h:
        pre = [R("HMSet", k=q, kv=[["f", "7"], ["g", "1"]]) for q in ks if r.randrange(3)]
        msgs = [lambda: M(r.choice(["hset", "HMSET"]), k(), *fv()), lambda: M("hsetnx", k(), f(), fresh()), lambda: M("hdel", k(), *r.sample("fgh", r.randrange(1, 4))),
                lambda: M("hincrby", k(), f(), "2"), lambda: M("HIncrByFloat", k(), f(), "0.5"), lambda: M("del", k()), lambda: M("flushdb"), lambda: dict(M("PEXPIREAT", k(), "@500"), n=500), lambda: M("persist", k()), lambda: M("unlink", k())]
        direct = [lambda: R("HGetAll", k=k()), lambda: R("HLen", k=k()), lambda: R("HMGet", k=k(), ks=["f", "g", "h"]), lambda: R("HKeys", k=k()), lambda: R("HVals", k=k()),
                  lambda: R("HIncrBy", k=k(), f=f(), d="1"), lambda: R("HSet", k=k(), f=f(), v=fresh()), lambda: R("HDel", k=k(), ks=["f"])]
        look = [R(o, k=q) for q in ks for o in ("HGetAll", "HLen")]
    else:
        pre = [R("Set", k=q, v=r.choice(["7", "10"])) for q in ks if r.randrange(3)]
        ttl = lambda: r.choice(["500", "500", "100000", "0"])
        msgs = [lambda: M("set", k(), fresh()), lambda: M("SET", k(), fresh(), "PX", ttl()), lambda: M("set", k(), fresh(), "ex", r.choice(["0", "100"])), lambda: M("psetex", k(), ttl(), fresh()),
                lambda: M("setnx", k(), fresh()), lambda: M("GETSET", k(), fresh()), lambda: M("append", k(), "0"), lambda: M("setrange", k(), "1", "6"),
                lambda: M("incr", k()), lambda: M("decrby", k(), "3"), lambda: M("incrbyfloat", k(), "0.5"), lambda: M("mset", *kv()), lambda: M("MSETNX", *kv()),
                lambda: M("del", k()), lambda: M("flushdb"), lambda: M("setex", k(), "100", fresh()), lambda: dict(M("pexpireat", k(), "@500"), n=500),
                lambda: M("pexpire", k(), ttl()), lambda: M("persist", k()), lambda: M("set", k(), fresh(), "keepttl"), lambda: dict(M("set", k(), fresh(), "pxat", "@500"), n=500), lambda: M("FLUSHALL")]
        direct = [lambda: R("Get", k=k()), lambda: R("MGet", ks=r.sample(ks, len(ks))), lambda: R("Exists", ks=ks), lambda: R("StrLen", k=k()), lambda: R("Incr", k=k()),
                  lambda: R("Set", k=k(), v=fresh()), lambda: R("SetNX", k=k(), v=fresh()), lambda: R("Append", k=k(), v="1")]
        look = [R("Get", k=q) for q in ks]
    some = r.sample(msgs, r.choice([1, 1, 2, 3]))
    other = r.sample(direct, r.choice([1, 2]))
    return (lambda: r.choice(some)(), lambda: r.choice(other)()), pre, look + [R("Advance", n=700)] + look


KINDS = {"msg": (msg_history, "linvirtual"),
         "clock": (clock_history, "linvirtual"), "clock-string": (lambda r, i: clock_history(r, i, "string"), "linvirtual"),
         "clock-hash": (lambda r, i: clock_history(r, i, "hash"), "linvirtual"),
         "ttl": (ttl_history, "linvirtual"), "del": (del_history, "lin"), "nx": (nx_history, "lin"),
         "string": (string_history, "lin"), "multi": (multi_history, "lin"), "hash": (hash_history, "lin"),
         "expired": (expired_history, "lin"), "expired-multi": (lambda r, i: expired_history(r, i, "multi"), "lin"),
         "expired-hash": (lambda r, i: expired_history(r, i, "hash"), "lin"), "cron": (cron_history, "linvirtual")}
COUNT = {"msg": ((260, 6), (2500, 12)),
         "clock": ((200, 8), (2000, 15)), "clock-string": ((240, 8), (2000, 15)), "clock-hash": ((240, 8), (2000, 15)),
         "ttl": ((240, 5), (2000, 10)), "del": ((200, 5), (2000, 10)), "nx": ((160, 5), (2000, 10)),
         "string": ((420, 6), (3500, 12)), "multi": ((280, 6), (2500, 12)), "hash": ((360, 6), (3000, 12)),
         "expired": ((240, 6), (2000, 12)),
         "expired-multi": ((120, 6), (1000, 12)), "expired-hash": ((240, 6), (2000, 12)), "cron": ((120, 3), (600, 3))}


def run(ctx, kind):
    gen, mode = KINDS[kind]
    n, rep = ctx.pick(*COUNT[kind])
    r = ctx.rng("lin-" + kind)
    items = []
    for i in range(n):
        op, pre, post = gen(r, i)
        threads, length = r.choice([(2, 4), (3, 3), (4, 2), (4, 3), (6, 1), (2, 6), (8, 1)])
        ops = op if isinstance(op, tuple) else (op,)    # the first is what the first thread does
        thr = [[ops[0 if t == 0 else -1]() for _ in range(length)] for t in range(threads)]
        clock = kind.startswith("clock")
        if clock:
            thr = [[R("Advance", n=1000)], [op() for _ in range(r.choice([1, 2, 3, 5, 8]))]]
        items.append({"pre": pre, "thr": thr, "post": post, "rep": rep, "clock": clock,
                      "cron": kind == "cron", "wait": 1 if kind == "cron" else 0})
    src = write_lines(ctx.tmp(".ndjson"), items)
    out, bad = ctx.run_driver(mode, src, timeout=900, instrument=("cache", "redis"))
    if bad:
        ctx.violation("concurrent %s calls: %s %s" % (kind, bad["what"], bad["detail"]), bad)
        return
    recs = read_lines(out)
    if len(recs) != n * rep:
        raise CheckError("%d of %d histories were recorded" % (len(recs), n * rep))
    # equal histories need only be looked at once
    seen, uniq = set(), []
    for x in recs:
        key = json.dumps([x["calls"], x["ev"]], sort_keys=True)
        if key not in seen:
            seen.add(key)
            uniq.append(x)
    overlapping = sum(1 for x in uniq if any(a > 0 and b > 0 for a, b in zip(x["ev"], x["ev"][1:])))
    if overlapping * 10 < len(uniq):
        raise CheckError("hardly any calls overlapped")
    f = write_lines(ctx.tmp(".ndjson"), uniq)
    res = ctx.tlc("KVLin", "CONSTANT TraceFile = %s\nSPECIFICATION Spec\nINVARIANT Linearizable\nALIAS Alias\nCHECK_DEADLOCK FALSE\n" % tla_str(f), timeout=1800)
    ctx.extra["histories_" + kind] = {"recorded": len(recs), "distinct": len(uniq), "with_overlapping_calls": overlapping}
    if res["ok"]:
        ctx.traces += len(uniq)
        ctx.sample({"kind": kind, "history": uniq[0]})
        return
    a = alias_values(res["text"])
    if "h" not in a:
        raise CheckError("cannot read the counterexample:\n" + res["text"][-3000:])
    x = uniq[int(a["h"]) - 1]
    x["stuck_at"] = int(a["i"])
    ctx.violation("history of concurrent %s calls has no sequential explanation: calls %s order %s stuck at position %s" %
                  (kind, jline([[c["c"], c["r"]] for c in x["calls"]])[:1000], x["ev"], a["i"]), x)


def check(ctx):
    ctx.assumptions = ["TLC and the specification in spec/KV.tla", "schedules are sampled: the Go scheduler plus yields before every statement of the cache package"]
    for kind in {"C14": ("string", "expired"), "C15": ("multi", "expired-multi", "clock"), "C16": ("hash", "expired-hash")}[ctx.prop]:
        run(ctx, kind)
        if ctx.violations:
            return
