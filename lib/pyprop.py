"""Driver for generated-input checks whose cases are Python objects: a case is
a pure function of a list of choices (so it is replayed and shrunk on them),
and decide() says what is wrong with what the code under test does with it."""
import concurrent.futures, hashlib, json, os, random, shutil, tempfile, time
import build as B
import pbt
from pbt import VERIF, log, CheckError


class Src:
    def __init__(self, seed=None, index=0, choices=None):
        self.r = random.Random("%s:%s" % (seed, index)) if choices is None else None
        self.c = choices
        self.rec = []

    def below(self, n):
        if n <= 1:
            v = 0
        elif self.r:
            v = self.r.randrange(n)
        else:
            i = len(self.rec)
            v = self.c[i] % n if i < len(self.c) else 0
        self.rec.append(v)
        return v

    def range(self, a, b):
        return a + self.below(b - a + 1)

    def bool(self):
        return self.below(2) == 1

    def oneIn(self, n):
        return self.below(n) == n - 1

    def pick(self, l):
        return l[self.below(len(l))]

    def size(self, n):
        k = self.below(4)
        return self.below(n + 1 if k == 3 else min(n, 3 if k == 0 else 8) + 1)

    def bytes(self, n):
        k = self.below(3)
        if k == 0:
            return bytes(self.below(256) for _ in range(n))
        s = self.below(1 << 30)
        rr = random.Random(s)
        return bytes(rr.randrange(256) if k == 1 else rr.choice(b"abcab") for _ in range(n))

    def i32(self):
        k = self.below(4)
        if k == 0:
            return self.range(-8, 8)
        if k == 1:
            return self.pick([0, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, 2**31 - 1, -2**31])
        return self.below(2**32) - 2**31

    def i64(self):
        k = self.below(4)
        if k < 2:
            return self.i32()
        if k == 2:
            return self.pick([2**31, 2**32 - 1, 2**32, -2**31 - 1, 2**63 - 1, -2**63, 2**62])
        return self.below(2**64) - 2**63


class PyProp:
    """subclass: prepare(); gen(src) -> case; decide(case, dir) -> (reason or None, transcript); info(case) -> (tags, nontrivial)"""
    part = None
    workers = pbt.CPUS
    batch = 1

    def __init__(self, pid, quick, thorough, part=None, **kw):
        self.pid, self.quick, self.thorough, self.part = pid, quick, thorough, part
        self.__dict__.update(kw)

    def prepare(self):
        pass

    def finish(self):
        pass

    def scratch(self):
        d = tempfile.mkdtemp(prefix="c", dir=self.tmp)
        return d

    def one(self, src):
        d = self.scratch()
        try:
            case = self.gen(src)
            why, text = self.decide(case, d)
            tags, nt = self.info(case)
            return why, text, tags, nt
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def start(self):
        self.tmp = tempfile.mkdtemp(prefix="vp-%s-" % self.pid, dir=B.WORK)
        os.chmod(self.tmp, 0o755)
        self.prepare()

    def run(self, n=None, seed=None):
        self.start()
        try:
            return self._run(n or (self.thorough if pbt.THOROUGH else self.quick), pbt.SEED if seed is None else seed)
        finally:
            self.finish()
            shutil.rmtree(self.tmp, ignore_errors=True)

    def _run(self, n, seed):
        stats = {"evaluations": 0, "tags": {}, "nt": set(), "samples": [], "per_config": {}, "violations": [], "unreproduced": []}
        bad = []

        def f(i):
            if len(bad) > 20:
                return
            s = Src(seed, i)
            return i, s, self.one(s)
        with concurrent.futures.ThreadPoolExecutor(self.workers) as pool:
            for r in pool.map(f, range(n)):
                if r is None:
                    continue
                i, s, (why, text, tags, nt) = r
                stats["evaluations"] += 1
                for t in tags:
                    stats["tags"][t] = stats["tags"].get(t, 0) + 1
                if nt:
                    stats["nt"].add(hashlib.md5(text.encode("utf-8", "replace")).digest())
                    if len(stats["samples"]) < 3 and i % 7 == 0:
                        stats["samples"].append({"case": "seed %d index %d" % (seed, i), "tags": list(tags), "transcript": text[:600]})
                if why:
                    bad.append((i, s.rec, why, text))
        if bad:
            log("%d suspicious cases; e.g. %s" % (len(bad), [(b[0], b[2][:200]) for b in bad[:4]]))
        t0 = time.time()
        for i, rec, why, text in bad[:3]:
            rs = [self.one(Src(choices=rec)) for _ in range(3)]
            if not any(r[0] for r in rs):
                stats["unreproduced"].append("%d %s" % (i, why))
                continue
            best = self.shrink(rec, 60) if all(r[0] for r in rs) and time.time() - t0 < 200 else rec
            w, t, _, _ = self.one(Src(choices=best))
            stats["violations"].append(self.violation(best, w or why, t if w else text))
        return stats

    def shrink(self, rec, budget):
        t0 = time.time()
        best = list(rec)
        with concurrent.futures.ThreadPoolExecutor(self.workers) as pool:
            def attempt(cands):
                for i in range(0, len(cands), 16):
                    if time.time() - t0 > budget:
                        return None
                    for c, r in zip(cands[i:i + 16], pool.map(lambda c: self.one(Src(choices=c))[0], cands[i:i + 16])):
                        if r:
                            return c
                return None
            improved = True
            while improved and time.time() - t0 < budget:
                improved = False
                k = max(1, len(best) // 2)
                while k >= 1 and time.time() - t0 < budget:
                    c = attempt([best[:i] + best[i + k:] for i in range(0, len(best), k)])
                    if c is not None:
                        best, improved = c, True
                    else:
                        k //= 2
                c = attempt([best[:i] + [v] + best[i + 1:] for i in range(len(best)) if best[i] for v in {0, best[i] // 2, best[i] - 1} if v < best[i]])
                if c is not None:
                    best, improved = c, True
        return best

    def violation(self, choices, why, text):
        d = os.path.join(VERIF, "replays", self.pid)
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%s.json" % (self.part or self.pid, hashlib.md5(repr(choices).encode()).hexdigest()[:10]))
        case = self.gen(Src(choices=choices))
        with open(p, "w") as f:
            json.dump({"property": self.pid, "part": self.part or self.pid, "why": why, "choices": choices, "case": repr(case)[:4000], "transcript": text[:6000]}, f, indent=1)
        log("violation: %s\n%s" % (why[:1500], text[:1500]))
        return {"replay": p, "why": why, "config": self.part, "jobs": choices}

    def replay(self, j):
        self.start()
        try:
            w, t, _, _ = self.one(Src(choices=j["choices"]))
            print(w, "\n", t)
            return bool(w)
        finally:
            self.finish()
            shutil.rmtree(self.tmp, ignore_errors=True)


def exec_out(cmd, e, timeout=60, cwd=None, stdin=None):
    """stdout and stderr and return code (None: no end)"""
    import subprocess
    try:
        p = subprocess.run(cmd, capture_output=True, timeout=timeout, env=e, cwd=cwd, preexec_fn=pbt.limits,
                           **({"input": stdin} if stdin is not None else {"stdin": subprocess.DEVNULL}))
        return p.stdout, p.stderr, p.returncode
    except subprocess.TimeoutExpired as x:
        return x.stdout or b"", x.stderr or b"", None


def differs(a, b):
    al, bl = a.split("\n"), b.split("\n")
    for x, y in zip(al + ["<end>"], bl + ["<end>"]):
        if x != y:
            return "expected %r, actual %r" % (y[:300], x[:300])
    return None
