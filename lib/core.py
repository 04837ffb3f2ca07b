"""Common machinery: building the driver from /repo, running TLC, verdicts and evidence."""
from concurrent.futures import ThreadPoolExecutor
import itertools, json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
JAR = "/opt/veriftools/tla/tla2tools.jar"
DEPS = "/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    """The check itself could not be carried out (an error exit, never a verdict)."""


def log(*a):
    print(*a, flush=True)


def go_env():
    env = dict(os.environ)
    text = subprocess.run(["bash", "-c", ". /opt/vp/env.sh && env -0"], capture_output=True, check=True).stdout
    for item in text.decode().split("\0"):
        if "=" in item:
            k, v = item.split("=", 1)
            env[k] = v
    return env


class Violation:
    def __init__(self, text, replay=None, key=None):
        self.text = text      # what fails, one line
        self.replay = replay  # data to run it again
        self.key = key or text


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.dir = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        shutil.copytree(os.path.join(VERIF, "spec"), os.path.join(self.dir, "spec"))
        self.env = go_env()
        self.started = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.extra = [], {}
        self.violations = []
        self.assumptions = []
        self.exhaustive = []
        self._drivers = {}
        self._n = itertools.count(1)

    def rng(self, salt):
        return random.Random("%s/%s/%s" % (self.seed, self.prop, salt))

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def path(self, name):
        return os.path.join(self.dir, name)

    def tmp(self, suffix):
        return self.path("%d%s" % (next(self._n), suffix))

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    # ---------------------------------------------------------------- build
    def driver(self, instrument=()):
        """builds the driver against the working tree of /repo; the packages in
        `instrument` get a scheduling point before every statement"""
        key = tuple(instrument)
        if key in self._drivers:
            return self._drivers[key]
        src = self.tmp("-drv")
        shutil.copytree(os.path.join(VERIF, "harness"), src)
        shutil.copy(os.path.join(src, "go.mod.in"), os.path.join(src, "go.mod"))
        mod = open(os.path.join(src, "go.mod")).read().replace("/repo", REPO)
        open(os.path.join(src, "go.mod"), "w").write(mod)
        shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(src, "go.sum"))
        out = os.path.join(src, "driver.bin")
        args = ["go", "build", "-o", out]
        if instrument:
            tool = os.path.join(src, "instr.bin")
            self.go(["go", "build", "-o", tool, "./instr"], src)
            ov = os.path.join(src, "overlay")
            os.mkdir(ov)
            self.go([tool, REPO, ov] + list(instrument), src)
            args += ["-overlay", os.path.join(ov, "overlay.json"), "-tags", "yield"]
        self.go(args + ["."], src)
        self._drivers[key] = out
        return out

    def go(self, args, cwd):
        p = subprocess.run(args, cwd=cwd, env=self.env, capture_output=True, text=True, timeout=600)
        if p.returncode != 0:
            raise CheckError("%s failed:\n%s" % (" ".join(args[:3]), p.stdout + p.stderr))

    def run_driver(self, mode, infile, timeout=300, instrument=(), retry=True, env=None):
        """-> (output path, outcome); outcome is None or a dict describing how
        the code under test made the process end (crash or hang)"""
        exe = self.driver(instrument)
        out = self.tmp(".out")
        e = dict(self.env)
        e.update(env or {})
        try:
            p = subprocess.run(["bash", "-c", 'ulimit -v 4000000; exec "$@"', "driver", exe, mode, infile, out], cwd=self.dir, env=e, capture_output=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("driver %s exceeded %ds" % (mode, timeout))
        err = p.stderr.decode("utf8", "replace")
        if p.returncode == 0:
            return out, None
        if "DRIVER-ERROR" in err:
            raise CheckError("driver: " + err[-2000:])
        bad = None
        if p.returncode == 3 and "DRIVER-HANG" in err:
            bad = {"what": "hang", "detail": open(out + ".hang").read().strip()[:3000]}
        elif ("panic:" in err or "fatal error:" in err) and "liujiangwei/xxcache" in err:
            m = re.search(r"(panic: .*|fatal error: .*)", err)
            bad = {"what": "crash", "detail": m.group(1)[:300], "stderr": err[:4000]}
        elif p.returncode > 0 and "panic:" not in err and "fatal error:" not in err:
            # the driver itself ends with 0 or says why not: somebody else called os.Exit
            bad = {"what": "exit", "detail": "the code under test ended the process with status %d: %s" % (p.returncode, err[-500:])}
        if bad is None:
            raise CheckError("driver %s ended with %d:\n%s" % (mode, p.returncode, err[-3000:]))
        if retry and (bad["what"] != "crash" or "out of memory" in bad["detail"]):   # only a reproducible end is a verdict
            for _ in range(3):
                _, again = self.run_driver(mode, infile, timeout, instrument, retry=False, env=env)
                if again is not None:
                    break
            if again is None:
                raise CheckError("driver %s: %s did not happen again:\n%s" % (mode, bad["what"], err[-3000:]))
        return out, bad

    def run_parts(self, jobs, n=6):
        """runs several drivers at a time; jobs are tuples of arguments of run_driver"""
        if jobs:
            self.driver(jobs[0][3] if len(jobs[0]) > 3 else ())
        with ThreadPoolExecutor(n) as pool:
            return [f.result() for f in [pool.submit(self.run_driver, *j) for j in jobs]]

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, workers=8, timeout=600, out=None, args=(), heap="6g", count=True):
        """-> dict(ok, states, distinct, trace, text); raises unless TLC finished
        with or without a violated invariant"""
        spec = self.path("spec")
        cfgfile = self.tmp(".cfg")
        open(cfgfile, "w").write(cfg)
        outfile = out or self.tmp(".tlc")
        meta = self.tmp("-meta")
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + self.dir, "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8",
               "-cp", JAR + ":" + DEPS, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
               "-config", cfgfile] + list(args) + [module + ".tla"]
        with open(outfile, "w") as fp:
            try:
                p = subprocess.run(cmd, cwd=spec, stdout=fp, stderr=subprocess.STDOUT, timeout=timeout, env=self.env)
            except subprocess.TimeoutExpired:
                raise CheckError("TLC on %s exceeded %ds" % (module, timeout))
        shutil.rmtree(meta, ignore_errors=True)
        text = tail = ""
        with open(outfile, errors="replace") as fp:
            keep = []
            for line in fp:
                if not line.startswith('"'):
                    keep.append(line)
                    if len(keep) > 4000:
                        del keep[200:2000]
            text = "".join(keep)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", text.replace(",", ","))
        st, ds = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        if count:
            self.states += ds
            self.transitions += st
        if p.returncode == 0 and "No error has been found" in text:
            return {"ok": True, "states": ds, "generated": st, "text": text, "out": outfile}
        if p.returncode in (12, 13) or "is violated" in text:
            return {"ok": False, "states": ds, "generated": st, "text": text, "out": outfile}
        raise CheckError("TLC on %s ended with %d:\n%s" % (module, p.returncode, text[-3000:]))

    # ------------------------------------------------------------- verdicts
    def violation(self, text, replay=None, key=None):
        self.violations.append(Violation(text, replay, key))

    def sample(self, x, limit=6):
        if len(self.samples) < limit:
            self.samples.append(x)


def tla_str(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


def tla_set(xs):
    return "{" + ", ".join(tla_str(x) if isinstance(x, str) else str(x) for x in xs) + "}"


def jline(obj):
    return json.dumps(obj, ensure_ascii=True, separators=(",", ":"))


def write_lines(path, items):
    with open(path, "w") as fp:
        for x in items:
            fp.write(jline(x) + "\n")
    return path


def read_lines(path):
    with open(path) as fp:
        return [json.loads(l) for l in fp if l.strip()]


def alias_values(text):
    """the last values printed for the ALIAS of a TLC error trace"""
    vals = {}
    for m in re.finditer(r"^/\\ (\w+) = (.*)$", text, re.M):
        vals[m.group(1)] = m.group(2)
    return vals
