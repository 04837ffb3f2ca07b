"""Properties C21-C25: snapshots.  Rdb.tla says what a snapshot file means.
TLC enumerates small files (RdbEx) and compact encodings (CodecEx), checks
that reading gives what was written, and prints them; these, large random and
damaged files are loaded by the real code, and TLC judges the commands
delivered (RdbTrace, CodecTrace)."""
import struct
from core import *
import kv


def le(n, w):
    return list((n & ((1 << (8 * w)) - 1)).to_bytes(w, "little"))


def wlen(r, n, form=None):
    forms = [32, 64] + ([14, 14] if n < 16384 else []) + ([6, 6, 6] if n < 64 else [])
    f = form or r.choice(forms)
    if f == 6:
        return [n]
    if f == 14:
        return [64 + n // 256, n % 256]
    if f == 32:
        return [128] + list(n.to_bytes(4, "big"))
    return [129] + list(n.to_bytes(8, "big"))


def lzf_ops(r, size):
    """a compressed string made of random operations"""
    comp, plain = [], []
    while len(plain) < size or not plain:
        k = r.randrange(3)
        if k == 0 or not plain:
            n = r.choice([1, 2, 5, 31, 32])
            lit = [r.choice([97, 98, 0, 255, r.randrange(256)]) for _ in range(n)]
            comp += [n - 1] + lit
            plain += lit
        else:
            n = r.choice([3, 4, 8, 9, 10, 50, 200, 264])
            d = min(len(plain), r.choice([1, 2, 3, 7, 255, 256, 257, 1000, 8191, 8192]))
            hi, lo = (d - 1) >> 8, (d - 1) & 255
            comp += [(n - 2) * 32 + hi, lo] if n <= 8 else [224 + hi, n - 9, lo]
            for _ in range(n):
                plain.append(plain[-d])
    return comp, plain


def wstr(r, v):
    """v: a list of bytes"""
    s = bytes(v)
    alt = []
    if 0 < len(s) < 12 and (s.isdigit() or (s[:1] == b"-" and s[1:].isdigit())) and str(int(s)).encode() == s:
        n = int(s)
        alt = [(192 + i, w) for i, w in enumerate((1, 2, 4)) if -(1 << (8 * w - 1)) <= n < 1 << (8 * w - 1)]
    if alt and r.randrange(4):
        op, w = r.choice(alt)
        return [op] + le(int(s), w)
    if v and r.randrange(8) == 0:   # compressed, badly
        comp = []
        for i in range(0, len(v), 32):
            comp += [len(v[i:i + 32]) - 1] + v[i:i + 32]
        return [195] + wlen(r, len(comp)) + wlen(r, len(v)) + comp
    return wlen(r, len(v)) + list(v)


def word(r, big=0):
    k = r.randrange(10)
    if k < 2:
        return list(str(r.choice([0, 1, -1, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 2**31 - 1, 2**31, -2**31, -2**31 - 1, 2**63 - 1, -2**63, 10**12,
                                  r.randrange(-10**6, 10**6)])).encode())
    if k == 2:
        return []
    if k == 3:
        return [r.randrange(256) for _ in range(r.choice([1, 2, 5, 62, 63, 64, 65, 100, 253, 254, 255, 256, 300]))]
    if big and k == 4:
        return [r.randrange(256) for _ in range(r.choice([4085, 4090, 4095, 4096, 4097, 8192, 16383, 16384, 16385]))]
    if k == 5:
        return list(r.choice([b"007", b"-0", b"+1", b" 1", b"1.5", b"REDIS0009", b"\xff", b"\xfe\x00", b"\r\n", b"$3\r\nabc\r\n"]))
    return list(("w%d" % r.randrange(10**r.choice([1, 3, 6]))).encode())


def words(r, n, big=0):
    out = {}
    while len(out) < n:
        w = word(r, big)
        if bytes(w) in out:
            w = w + list(str(len(out)).encode())
        out[bytes(w)] = w
    return list(out.values())


class File:
    def __init__(self, r):
        self.r = r
        self.b = list(b"REDIS" + r.choice([b"0006", b"0007", b"0008", b"0009"]))
        self.scores = {}
        self.ends = []

    def text_score(self, t):
        self.scores[t] = list(struct.pack("<d", float(t)))
        return list(t.encode())

    def score(self):
        r = self.r
        f = r.choice([0.0, 1.0, -1.0, 0.5, 3.14, 1e17, -2.5e-7, 1.7976931348623157e308, 5e-324, 2.0**53 + 2, 0.1, 123456789.0, r.uniform(-1000, 1000), r.gauss(0, 1) * 10.0**r.randrange(-20, 20)])
        return f

    def zlen(self, prev, long):
        return [254] + le(prev, 4) if long or prev > 253 else [prev]

    def zentry(self, v):
        r, s = self.r, bytes(v)
        if len(s) < 21 and s and (s.isdigit() or (s[:1] == b"-" and s[1:].isdigit())) and str(int(s)).encode() == s and -2**63 <= int(s) < 2**63 and r.randrange(5):
            n = int(s)
            forms = [(op, w) for op, w in ((254, 1), (192, 2), (240, 3), (208, 4), (224, 8)) if -(1 << (8 * w - 1)) <= n < 1 << (8 * w - 1)]
            if 0 <= n <= 12:
                forms += [(None, 0)] * 2
            op, w = r.choice(forms)
            return [241 + n] if w == 0 else [op] + le(n, w)
        forms = [5] + ([2] if len(v) < 16384 else []) + ([1, 1] if len(v) < 64 else [])
        f = r.choice(forms)
        return ([len(v)] if f == 1 else [64 + len(v) // 256, len(v) % 256] if f == 2 else [128] + list(len(v).to_bytes(4, "big"))) + list(v)

    def ziplist(self, vs):
        prev, body = 0, []
        for v in vs:
            e = self.zlen(prev, self.r.randrange(12) == 0) + self.zentry(v)
            body += e
            prev = len(e)
        n = len(body) + 11
        return le(n, 4) + le(n - 1 - prev if vs else 10, 4) + le(min(len(vs), 65535), 2) + body + [255]

    def zipmap(self, kvs):
        r = self.r
        ml = lambda n: [254] + le(n, 4) if n > 253 or r.randrange(10) == 0 else [n]
        b = [min(len(kvs), 254)]
        for k, v in kvs:
            free = r.choice([0, 0, 0, 1, 4, 200])
            b += ml(len(k)) + k + ml(len(v)) + [free] + v + [r.randrange(256) for _ in range(free)]
        return b + [255]

    def item(self, e):
        self.b += e

    def key(self, kind, big=0, many=0):
        r = self.r
        w = lambda: word(r, big)
        name = wstr(r, w())
        n = r.choice([1, 1, 2, 3, 5, 10] + ([60, 200, 600] if many else []))
        if kind == "string":
            k = r.randrange(6)
            if k == 0:
                comp, plain = lzf_ops(r, r.choice([1, 20, 100, 2000] + ([5000] if big else [])))
                self.item([0] + name + [195] + wlen(r, len(comp)) + wlen(r, len(plain)) + comp)
            else:
                self.item([0] + name + wstr(r, w()))
        elif kind == "list":
            k = r.randrange(3)
            vs = [w() for _ in range(n)]
            if k == 0:
                self.item([1] + name + wlen(r, n) + sum((wstr(r, v) for v in vs), []))
            elif k == 1:
                self.item([10] + name + wstr(r, self.ziplist(vs)))
            else:
                at, zs = 0, []
                while at < n:
                    m = r.randrange(1, n - at + 1)
                    zs.append(self.ziplist(vs[at:at + m]))
                    at += m
                self.item([14] + name + wlen(r, len(zs)) + sum((wstr(r, z) for z in zs), []))
        elif kind == "set":
            if r.randrange(2):
                self.item([2] + name + wlen(r, n) + sum((wstr(r, v) for v in words(r, n, big)), []))
            else:
                width = r.choice([2, 4, 8])
                lim = 1 << (8 * width - 1)
                ns = sorted({r.choice([-lim, lim - 1, 0, -1, 1, r.randrange(-lim, lim), r.randrange(-200, 200)]) for _ in range(n)})
                self.item([11] + name + wstr(r, le(width, 4) + le(len(ns), 4) + sum((le(x, width) for x in ns), [])))
        elif kind == "zset":
            ms = words(r, n, big)
            k = r.randrange(3)
            if k == 0:
                self.item([5] + name + wlen(r, n) + sum((wstr(r, m) + r.choice([list(struct.pack("<d", self.score()))] * 5 + [list(struct.pack("<d", float("inf")))]) for m in ms), []))
            elif k == 1:
                e = []
                for m in ms:
                    t = r.choice(["%.17g" % self.score()] * 5 + ["inf", "-inf", "nan"])
                    e += wstr(r, m) + ([{"nan": 253, "inf": 254, "-inf": 255}[t]] if t[-1] in "nf" else [len(t)] + self.text_score(t))
                self.item([3] + name + wlen(r, n) + e)
            else:
                vs = []
                for m in ms:
                    f = self.score()
                    vs += [m, self.text_score(str(int(f)) if f == int(f) and abs(f) < 1e15 and str(int(f)) != "-0" else "%.17g" % f)]
                self.item([12] + name + wstr(r, self.ziplist(vs)))
        else:
            ks = words(r, n, big)
            vs = [w() for _ in ks]
            flat = [x for p in zip(ks, vs) for x in p]
            k = r.randrange(3)
            if k == 0:
                self.item([4] + name + wlen(r, n) + sum((wstr(r, v) for v in flat), []))
            elif k == 1:
                self.item([13] + name + wstr(r, self.ziplist(flat)))
            else:
                self.item([9] + name + wstr(r, self.zipmap(list(zip(ks, vs)))))

    def meta(self):
        r = self.r
        k = r.randrange(9)
        if k == 0:
            self.item([250] + wstr(r, word(r)) + wstr(r, word(r)))
        elif k == 1:
            self.item([250] + wstr(r, list(b"repl-id")) + wstr(r, [r.choice(b"0123456789abcdef") for _ in range(r.choice([40, 40, 40, 0, 1, 39, 41, 64, 100]))]))
        elif k == 2:
            self.item([250] + wstr(r, list(b"repl-offset")) + wstr(r, list(str(r.choice([0, 1, 200, 70000, 2**31, 10**15, r.randrange(10**9)])).encode())))
        elif k == 3:
            self.item([254] + wlen(r, r.choice([0, 1, 2, 15, 63, 64, 300, 20000])))
        elif k == 4:
            self.item([251] + wlen(r, r.randrange(100000)) + wlen(r, r.randrange(1000)))
        elif k == 5:
            self.item([249, r.choice([0, 1, 127, 128, 250, 255, r.randrange(256)])])
        elif k == 6:
            self.item([248] + wlen(r, r.choice([0, 5, 100, 100000])))
        elif k == 7:
            self.item([250] + wstr(r, list(r.choice([b"redis-ver", b"redis-bits", b"ctime", b"used-mem", b"aof-preamble"]))) + wstr(r, list(r.choice([b"5.0.7", b"64", b"1604000000", b"0"]))))
        else:
            self.item([247] + wlen(r, r.randrange(1 << 40), 64) + [2, r.randrange(64), 0])

    def expire(self):
        r = self.r
        if r.randrange(2):
            self.item([253] + le(r.choice([0, 1, 255, 1700000000, 2**31 - 1, r.randrange(1, 2**31)]), 4))
        else:
            self.item([252] + le(r.choice([0, 1, 255, 1700000000123, 2**53 + 1, 2**62 - 1, 2**63 - 1, r.randrange(1, 2**45)]), 8))

    def end(self):
        self.b += [255] + [self.r.randrange(256) for _ in range(self.r.choice([0, 8]))]

    def job(self, cuts=False):
        return dict(b=self.b, cuts=cuts, scores=[dict(t=list(t.encode()), b=v) for t, v in sorted(self.scores.items())])


KINDS = ["string", "list", "set", "zset", "hash"]


def random_file(r, prop, size, big=0, many=0):
    f = File(r)
    for _ in range(r.choice([0, 0, 1, 4])):
        f.meta()
    for _ in range(size):
        if r.randrange({"C23": 2, "C24": 5}.get(prop, 6)) == 0:
            f.meta()
        if r.randrange({"C23": 2, "C24": 4}.get(prop, 8)) == 0:
            f.expire()
            while r.randrange(3) == 0:
                f.item(r.choice([[249, r.choice([0, 7, 127, 128, 255, r.randrange(256)])], [248] + wlen(r, r.choice([0, 63, 64, 255, 65535, 16777215, r.randrange(1000)]))]))
        kind = r.choice(KINDS)
        if prop == "C21" and r.randrange(4) or prop == "C23" and r.randrange(2):
            kind = "string"
        if prop == "C22" and r.randrange(8):
            kind = r.choice(KINDS[1:])
        f.key(kind, big, many)
    return f


def damaged(r):
    f = random_file(r, "C24", r.choice([1, 2, 3, 5]))
    k = r.randrange(11)
    if k == 0:      # an unsupported value or marker
        f.item([r.choice([6, 7, 8, 15, 16, 20, 100, 200, 244, 245, 246])] + wstr(r, word(r)) + [r.randrange(256) for _ in range(r.randrange(20))])
    elif k == 1:    # an illegal length or string encoding
        f.item([r.choice([0, 1, 2, 3, 4, 5, 9, 10, 11, 12, 13, 14])] + wstr(r, word(r)) + [r.choice([130, 131, 140, 150, 191, 196, 200, 230, 255])])
    elif k == 2:
        f.item([r.choice([0, 1, 2, 4, 250, 254, 251, 248]), r.choice([130, 160, 191, 196, 210, 255])])
    elif k == 3:    # a string that does not unpack
        comp, plain = lzf_ops(r, 30)
        n = len(plain) + r.choice([-1, 1, 10])
        if r.randrange(2):
            comp, n = [0, 97, 63 + 32 * r.randrange(1, 6), 200] + comp, len(plain) + 8
        f.item([0, 1, 107, 195] + wlen(r, len(comp)) + wlen(r, max(n, 1)) + comp)
    elif k == 4:    # not a snapshot
        f.end()
        j = r.randrange(5)
        f.b[j] = r.choice([x for x in range(256) if x != f.b[j]])
        return f.job()
    elif k == 5:    # ends early
        n = r.randrange(len(f.b))
        f.b = f.b[:n]
        return f.job()
    elif k > 7:     # a compact encoding cut short, or a few of its bytes are different
        vs = [word(r) for _ in range(2 * r.choice([1, 1, 2, 5]))]
        lim = r.choice([2, 4, 8])
        op, z = r.choice([(10, f.ziplist(vs)), (13, f.ziplist(words(r, len(vs)))), (14, f.ziplist(vs)), (9, f.zipmap(list(zip(words(r, len(vs) // 2), vs)))),
                          (9, f.zipmap(list(zip(words(r, len(vs) // 2), vs)))), (11, le(lim, 4) + le(len(vs), 4) + sum((le(x, lim) for x in range(len(vs))), []))])
        n = r.choice([1, 1, 2, 3, len(z), r.randrange(1, len(z) + 1)])
        if k == 8:
            z = z[:len(z) - n]
        else:
            for _ in range(r.choice([1, 1, 2])):
                j = r.choice([r.randrange(len(z)), r.randrange(min(9, len(z))), max(0, len(z) - r.randrange(1, 9))])
                z[j] = r.choice([r.randrange(256), 255, 0, (z[j] + 1) % 256, (z[j] - 1) % 256])
        f.item([op] + wstr(r, word(r)) + ([1] if op == 14 else []) + wlen(r, len(z)) + z)
    f.key(r.choice(KINDS))
    f.end()
    if k in (6, 7): # a few bytes are different
        for _ in range(r.choice([1, 1, 2, 5])):
            j = r.randrange(9, len(f.b))
            x = r.choice([r.randrange(256), 255, 0, (f.b[j] + 1) % 256])
            if not (x == 129 or f.b[j] == 129):   # not a length of gigabytes
                f.b[j] = x
    return f.job()


def load(ctx, name, jobs, parts=8):
    srcs = [write_lines(ctx.tmp(".ndjson"), jobs[p::parts]) for p in range(parts)]
    recs = [None] * len(jobs)
    for p, (out, bad) in enumerate(ctx.run_parts([("rdb", s, 800) for s in srcs], parts)):
        if bad:
            if ctx.prop == "C24":
                ctx.violation("%s: %s %s" % (name, bad["what"], bad["detail"]), bad)
                return
            raise CheckError("the loader ended the process: %s" % bad["detail"][:1000])
        recs[p::parts] = read_lines(out)
    f = write_lines(ctx.tmp(".ndjson"), recs)
    res = ctx.tlc("RdbTrace", 'CONSTANTS TraceFile = %s\nJudge = "%s"\nSPECIFICATION Spec\nINVARIANT Conforms\nALIAS Alias\nCHECK_DEADLOCK FALSE\n' %
                  (tla_str(f), ctx.prop), timeout=1800, heap="10g")
    loads = sum(1 + len(x["cuts"]) for x in recs)
    ctx.extra["loads_" + name.replace(" ", "_")] = loads
    if res["ok"]:
        if res["states"] < 2 * len(recs):
            raise CheckError("TLC looked at %d states of %d files" % (res["states"], len(recs)))
        ctx.traces += loads
        x = recs[len(recs) // 2]
        if len(x["b"]) < 500:
            ctx.sample({name: dict(file=bytes(x["b"]).decode("latin1"), result=x["full"]["res"], commands=len(x["full"]["m"]))})
        return
    a = alias_values(res["text"])
    if "t" not in a:
        raise CheckError("cannot read the counterexample:\n" + res["text"][-3000:])
    x = recs[int(a["t"]) - 1]
    show = [dict(d=c["d"], n=c["n"], a=[bytes(v).decode("latin1")[:40] for v in c["a"][:8]]) for c in (x["dict"][i - 1] for i in x["full"]["m"])]
    at = a.get("j", "0")
    ctx.violation("%s: %s at command %s: file %s: result %s %s, commands %s" %
                  (name, a.get("bad"), at, bytes(x["b"][:120]), x["full"]["res"], x["full"]["txt"][:100], jline(show[max(0, int(at) - 2):int(at) + 2])), dict(file=x["b"], full=x["full"]))


def enumerate_files(ctx, rich, depth, laws=True):
    out = ctx.tmp("-rdb.txt")
    res = ctx.tlc("RdbEx", "CONSTANTS MaxItems = %d\nRich = %s\nEmit = TRUE\nSPECIFICATION Spec\nINVARIANTS Faithful%s Printed\nCHECK_DEADLOCK FALSE\n" %
                  (depth, "TRUE" if rich else "FALSE", " Prefixes" if laws else ""), out=out, timeout=1800, heap="10g")
    if not res["ok"]:
        raise CheckError("RdbEx breaks its own laws:\n" + res["text"][-3000:])
    files = {}
    with open(out) as fp:
        for line in fp:
            if line.startswith('"'):
                x = json.loads(json.loads(line))
                files[bytes(x["b"])] = x
    ctx.exhaustive.append("every snapshot of at most %d items out of %s: %d files" % (depth, "the large set" if rich else "the small set", len(files)))
    return [files[k] for k in sorted(files)]


TABLE = [dict(t=list(b"1"), b=list(struct.pack("<d", 1.0))), dict(t=list(b"-2.5"), b=list(struct.pack("<d", -2.5)))]


def codecs(ctx):
    out = ctx.tmp("-codec.txt")
    res = ctx.tlc("CodecEx", "CONSTANTS Max = %d\nEmit = TRUE\nSPECIFICATION Spec\nINVARIANTS Faithful Printed\nCHECK_DEADLOCK FALSE\n" % ctx.pick(2, 3), out=out, timeout=1800, heap="10g")
    if not res["ok"]:
        raise CheckError("CodecEx breaks its own laws:\n" + res["text"][-3000:])
    jobs = {}
    with open(out) as fp:
        for line in fp:
            if line.startswith('"'):
                x = json.loads(json.loads(line))
                if "kind" not in x:     # of the instance of RdbEx
                    continue
                jobs[json.dumps(x, sort_keys=True)] = x
    jobs = [jobs[k] for k in sorted(jobs)]
    ctx.exhaustive.append("every compact list, set, map and compressed string of few elements: %d" % len(jobs))
    r = ctx.rng("codecs")
    more = []
    for i in range(ctx.pick(1500, 20000)):
        f = File(r)
        n = r.choice([0, 1, 2, 3, 5, 10, 30, 100])
        big = r.randrange(4) == 0
        k = i % 5
        if k == 0:
            more.append(dict(kind="ziplist", b=f.ziplist([word(r, big) for _ in range(n)]), n=n))
        elif k == 1:
            w = r.choice([2, 4, 8])
            lim = 1 << (8 * w - 1)
            ns = sorted({r.choice([-lim, lim - 1, 0, -1, r.randrange(-lim, lim)]) for _ in range(n)})
            more.append(dict(kind="intset", b=le(w, 4) + le(len(ns), 4) + sum((le(x, w) for x in ns), []), n=len(ns)))
        elif k == 2:
            ks = words(r, n, big)
            more.append(dict(kind="zipmap", b=f.zipmap([(q, word(r, big)) for q in ks]), n=n))
        elif k == 3:
            comp, plain = lzf_ops(r, r.choice([1, 5, 40, 300, 2000, 10000 if i % 50 == 3 else 10]))
            more.append(dict(kind="lzf", b=comp, n=len(plain)))
        else:
            size = r.choice([0, 1, 2, 3, 4, 5, 10, 31, 32, 33, 100, 264, 300, 1000, 9000 if i % 50 == 4 else 20])
            alpha = r.choice([[97], [97, 98], [97, 98, 99], list(range(256))])
            more.append(dict(kind="compress", b=[r.choice(alpha) for _ in range(size)], n=size))
    # a list whose count does not fit the header
    for n in (65534, 65535, 65536, 66000) if ctx.thorough else (65600,):
        more.append(dict(kind="ziplist", b=File(r).ziplist([[97]] * n), n=n))
    more.append(dict(kind="ziplist", b=File(r).ziplist([]), n=0))
    # as large as each length can tell
    blob = lambda n: [r.randrange(256) for _ in range(n)]
    for n in (253, 254, 255, 65535, 65536, 70000):
        f = File(r)
        more.append(dict(kind="zipmap", b=f.zipmap([(blob(3), blob(n)), (blob(n), blob(4))]), n=2))
        more.append(dict(kind="ziplist", b=f.ziplist([blob(2), blob(n), blob(n), blob(3)]), n=4))
    for n in (253, 254, 255, 400):
        f = File(r)
        more.append(dict(kind="zipmap", b=f.zipmap([(list(b"f%d" % q), word(r)) for q in range(n)]), n=n))
    for n in (255, 256, 65535, 65536) if ctx.thorough else (255, 256, 5000):
        more.append(dict(kind="intset", b=le(4, 4) + le(n, 4) + sum((le(x, 4) for x in range(n)), []), n=n))
    for name, js in (("enumerated", jobs), ("random", more)):
        srcs = [write_lines(ctx.tmp(".ndjson"), js[p::8]) for p in range(8)]
        recs = [None] * len(js)
        for p, (o, bad) in enumerate(ctx.run_parts([("codec", s, 800) for s in srcs], 8)):
            if bad:
                ctx.violation("%s: %s %s" % (name, bad["what"], bad["detail"]), bad)
                return
            recs[p::8] = read_lines(o)
        f = write_lines(ctx.tmp(".ndjson"), recs)
        res = ctx.tlc("CodecTrace", "CONSTANT TraceFile = %s\nSPECIFICATION Spec\nINVARIANT Conforms\nALIAS Alias\nCHECK_DEADLOCK FALSE\n" % tla_str(f), timeout=1800, heap="10g")
        ctx.extra["decoded_" + name] = len(recs)
        if res["ok"]:
            if res["states"] < 2 * len(recs):
                raise CheckError("TLC looked at %d states of %d records" % (res["states"], len(recs)))
            ctx.traces += len(recs)
            ctx.sample({name: {k: v for k, v in recs[len(recs) // 2].items() if len(str(v)) < 1000}})
            continue
        a = alias_values(res["text"])
        if "i" not in a:
            raise CheckError("cannot read the counterexample:\n" + res["text"][-3000:])
        x = recs[int(a["i"]) - 1]
        ctx.violation("%s: %s of %s gives %s %s" % (name, x["kind"], x["b"][:100], x["res"], str(x["v"])[:300]), x)


def check(ctx):
    ctx.assumptions = ["TLC and the specification in spec/Rdb.tla", "decimal scores are converted by the Go and Python standard libraries"]
    if ctx.prop == "C25":
        return codecs(ctx)
    cuts = ctx.prop == "C24"
    files = enumerate_files(ctx, True, 2)
    if ctx.prop != "C24":
        files = [x for x in files if x["k"] == "eof"]
    load(ctx, "enumerated", [dict(b=x["b"], cuts=cuts, scores=TABLE) for x in files])
    files = enumerate_files(ctx, False, ctx.pick(3, 4), laws=not ctx.thorough)
    if ctx.prop != "C24":
        files = [x for x in files if x["k"] == "eof"]
    r = ctx.rng("files")
    if ctx.thorough and cuts:
        files = r.sample(files, min(len(files), 30000))
    load(ctx, "enumerated, longer", [dict(b=x["b"], cuts=cuts, scores=TABLE) for x in files])
    jobs = []
    if cuts:
        for i in range(ctx.pick(2500, 40000)):
            jobs.append(damaged(r))
        for i in range(ctx.pick(60, 600)):
            f = random_file(r, "C24", r.choice([1, 2, 4]))
            f.end()
            jobs.append(f.job(cuts=len(f.b) < 600))
    else:
        for i in range(ctx.pick(500, 6000)):
            f = random_file(r, ctx.prop, r.choice([1, 2, 5, 10, 30]), big=i % 12 == 6, many=i % 10 == 0)
            f.end()
            jobs.append(f.job())
        if ctx.prop == "C21":   # sizes around those of buffers and lengths
            for n in [63, 64, 4070, 4080, 4090, 4096, 16383, 16384, 65535, 65536, 100000] * ctx.pick(1, 5):
                f = random_file(r, "C21", 2)
                v = [r.randrange(256) for _ in range(n)]
                f.item([0] + wstr(r, word(r)) + wlen(r, n) + v)
                f.key("string")
                f.end()
                jobs.append(f.job())
    load(ctx, "random", jobs)
