"""Driver for generated-input checks whose cases run inside a Java process.

A property is a Java class (vp.Prop) which draws choices from a Src and writes
a transcript to an Out.  The same cases run on Avian (one or more build
configurations) and, as the oracle, on the reference JVM (OpenJDK 8 HotSpot);
besides, the property class can check a model of its own ("MODEL-FAIL" lines).
Any difference is replayed, shrunk on the recorded choices, and reported."""
import concurrent.futures, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time
import build as B

VERIF = B.VERIF
JAVA8 = B.JDK8 + "/bin/java"
JAVAC8 = B.JDK8 + "/bin/javac"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
CPUS = min(8, os.cpu_count() or 8)


class CheckError(Exception):
    pass


def log(*a):
    print("[%.1f]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


T0 = time.time()


def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    os.setsid()


def run_proc(cmd, timeout, cwd=None, env=None, stdin=subprocess.DEVNULL, stdout=None, stderr=None):
    """returns (rc or None on timeout, stderr tail)"""
    with tempfile.TemporaryFile() as ef, tempfile.TemporaryFile() as of:
        p = subprocess.Popen(cmd, cwd=cwd, env=env or B.env(), stdin=stdin, stdout=of, stderr=ef,
                             preexec_fn=limits)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            rc = None
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
        def tail(f):
            f.seek(0, 2)
            n = f.tell()
            f.seek(max(0, n - 3000))
            return f.read().decode("utf-8", "replace")
        return rc, tail(of) + tail(ef)


def files_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(os.path.relpath(p, VERIF).encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:16]


def java_files(d):
    out = []
    for dd, _, fs in os.walk(os.path.join(VERIF, d)):
        out += [os.path.join(dd, f) for f in fs if f.endswith(".java")]
    return sorted(out)


def compile_java(name, files, boot=None, cp=None, extra=()):
    """compiles Java files (class file version 8); boot = Avian class library dir"""
    key = files_hash(files) + "-" + hashlib.sha256(repr((boot, cp, extra)).encode()).hexdigest()[:8]
    out = os.path.join(B.WORK, "classes-%s-%s" % (name, key))
    with B.Lock("javac-" + name):
        if os.path.exists(out + "/.ok"):
            return out
        for x in os.listdir(B.WORK):
            if x.startswith("classes-%s-" % name) and time.time() - os.path.getmtime(os.path.join(B.WORK, x)) > 3600:
                shutil.rmtree(os.path.join(B.WORK, x), ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        cmd = [JAVAC8, "-nowarn", "-g", "-encoding", "UTF-8", "-source", "8", "-target", "8", "-d", out,
               "-XDignore.symbol.file", "-Xlint:none"]
        if boot:
            cmd += ["-bootclasspath", boot]
        if cp:
            cmd += ["-classpath", cp]
        cmd += list(extra) + files
        r = subprocess.run(cmd, capture_output=True, text=True, env=B.env())
        if r.returncode:
            raise CheckError("javac failed: " + (r.stdout + r.stderr)[-4000:])
        open(out + "/.ok", "w").close()
    return out


def avian_cmd(config, cp, props=(), libpath=None):
    d = B.build(config)
    exe = "avian-dynamic" if config == "openjdk" else "avian"
    e = B.env()
    e["LD_LIBRARY_PATH"] = d + (":" + B.JDK8 + "/jre/lib/amd64" if config == "openjdk" else "")
    return [os.path.join(d, exe)] + list(props) + ["-Djava.library.path=" + (libpath or d), "-cp", cp], e


def ref_cmd(cp, props=(), libpath=None):
    return [JAVA8, "-Xshare:auto", "-XX:TieredStopAtLevel=1", "-XX:+UseSerialGC", "-Xmx1g", "-Xss4m",
            "-XX:-UsePerfData"] + list(props) + \
        (["-Djava.library.path=" + libpath] if libpath else []) + ["-cp", cp], B.env()


class Case:
    __slots__ = ("tags", "nt", "nchoices", "text", "choices", "done")

    def __init__(self):
        self.tags, self.nt, self.nchoices, self.text, self.choices, self.done = [], False, 0, [], None, False


def parse(path):
    cases, complete = [], False
    cur = None
    try:
        f = open(path, encoding="ascii", errors="replace")
    except FileNotFoundError:
        return [], False
    with f:
        for line in f:
            line = line.rstrip("\n")
            if line.startswith("@B "):
                cur = Case()
                cases.append(cur)
            elif line.startswith("@E "):
                p = line.split(" ")
                if cur is None or len(p) < 5:
                    continue
                cur.done = True
                cur.tags = [] if p[2] == "-" else p[2].split(",")
                cur.nt = p[3] == "1"
                try:
                    cur.nchoices = int(p[4])
                except ValueError:
                    pass
            elif line.startswith("@C") and cur is not None:
                try:
                    cur.choices = [int(x) for x in line.split()[1:]]
                except ValueError:
                    pass
            elif line.startswith("@D"):
                complete = True
            elif cur is not None:
                cur.text.append(line[1:])
    # the last one may have been cut while its transcript was written
    if cases and not complete:
        cases[-1].done = False
    return cases, complete


class VM:
    """One way to run jobs: name, and a function giving the command for a class path."""

    def __init__(self, name, cmdf):
        self.name, self.cmdf = name, cmdf


class Result:
    def __init__(self, cases, complete, rc, err):
        self.cases, self.complete, self.rc, self.err = cases, complete, rc, err


class JavaProp:
    def __init__(self, pid, cls, configs=("fast",), quick=2000, thorough=40000, arg="", ref=True,
                 sources=("java/vp",), files=None, boot="fast", props=(), timeout=150, rule="", libpath=None,
                 assumptions=(), shards=None, prep=None, technique="", avian_props=(), single_timeout=60,
                 flaky_ok=False, extra_cp=None, level="exploration", hang_is_violation=True, cwd_scratch=True,
                 part=None, maxcases=None, ref_props=()):
        self.__dict__.update(locals())
        del self.__dict__["self"]

    # ---- running
    def setup(self):
        bd = B.build(self.boot)
        if self.files:
            base = ["java/vp/%s.java" % x for x in ("Src", "Out", "Prop", "Main")]
            files = [os.path.join(VERIF, f) for f in base + list(self.files)]
        else:
            files = sum((java_files(s) for s in self.sources), [])
        boot = os.path.join(bd, "classpath")
        if self.boot == "openjdk":
            boot = None
        self.classes = compile_java(self.part or self.pid, files, boot=boot)
        cp = self.classes + (":" + self.extra_cp if self.extra_cp else "")
        self.vms = []
        for c in self.configs:
            cmd, e = avian_cmd(c, cp, list(self.props) + list(self.avian_props), self.libpath)
            self.vms.append((c, cmd, e))
        cmd, e = ref_cmd(cp, list(self.props) + list(self.ref_props), self.libpath)
        self.refvm = ("reference", cmd, e)
        self.tmp = tempfile.mkdtemp(prefix="vp-%s-" % self.pid, dir=B.WORK)
        os.chmod(self.tmp, 0o755)
        self.serial = 0

    def run_jobs(self, vm, jobs, timeout):
        name, cmd, e = vm
        self.serial += 1
        stem = os.path.join(self.tmp, "%s-%d" % (name, self.serial))
        os.makedirs(stem + ".d")
        with open(stem + ".jobs", "w") as f:
            f.write("\n".join(jobs) + "\n")
        arg = self.arg(name) if callable(self.arg) else self.arg
        rc, err = run_proc(cmd + ["vp.Main", self.cls, stem + ".jobs", stem + ".out"] + ([arg] if arg else []),
                           timeout, cwd=stem + ".d", env=e)
        cases, complete = parse(stem + ".out")
        for x in (".jobs", ".out"):
            try:
                os.unlink(stem + x)
            except OSError:
                pass
        shutil.rmtree(stem + ".d", ignore_errors=True)
        return Result(cases, complete, rc, err)

    @staticmethod
    def why(res, i, ref):
        """reason why case i of an Avian result is wrong, or None"""
        if i >= len(res.cases) or not res.cases[i].done:
            if res.complete:
                return None
            if res.rc is None:
                return "hang"
            return "died (exit %s)" % res.rc
        t = res.cases[i].text
        if ref is not None and ref.text[:1] == ["UNCAUGHT java.lang.VerifyError"]:
            return None  # not a valid program, whatever Avian makes of it
        for l in t:
            if l.startswith("MODEL-FAIL"):
                return l
        if ref is not None and ref.done and t != ref.text:
            for x, y in zip(t + ["<end>"], ref.text + ["<end>"]):
                if x != y:
                    m = re.findall(r"![A-Za-z.$]+|UNCAUGHT [A-Za-z.$]+", x)
                    return "differs" + (" " + m[-1] if m and m[-1] not in y else "")
            return "differs"
        return None

    def fails(self, vm, jobs_list, timeout=None):
        """runs single-case jobs (one process each batch); returns list of reasons"""
        timeout = timeout or self.single_timeout
        out = [None] * len(jobs_list)
        start = 0
        refres = self.run_jobs(self.refvm, jobs_list, 120) if self.ref else None
        while start < len(jobs_list):
            r = self.run_jobs(vm, jobs_list[start:], timeout)
            n = len(jobs_list) - start
            for i in range(n):
                ref = refres.cases[start + i] if refres and start + i < len(refres.cases) else None
                if refres is not None and (ref is None or not ref.done):
                    out[start + i] = None  # the reference did not finish: not usable
                    continue
                w = self.why(r, i, ref)
                if w and (w == "hang" or w.startswith("died")):
                    if i < len(r.cases) or i == 0:
                        out[start + i] = w
                    start = start + i + 1
                    break
                out[start + i] = w
            else:
                break
        return out

    def shrink(self, vm, choices, budget=90, why=None):
        t0 = time.time()
        why = why or self.fails(vm, ["c " + " ".join(map(str, choices))], timeout=40)[0] or "differs"
        best = list(choices)
        tried = set()

        def attempt(cands):
            cands = [c for c in cands if tuple(c) not in tried][:48]
            for c in cands:
                tried.add(tuple(c))
            if not cands:
                return None
            rs = self.fails(vm, ["c " + " ".join(map(str, c)) for c in cands], timeout=40)
            for c, r in zip(cands, rs):
                if r and r != "hang" and (r == why if why.startswith("differs") else r[:4] == why[:4]):
                    return c
            return None

        improved = True
        while improved and time.time() - t0 < budget:
            improved = False
            n = len(best)
            k = max(1, n // 2)
            while k >= 1 and time.time() - t0 < budget:
                cands = [best[:i] + best[i + k:] for i in range(0, len(best), k)]
                c = attempt(cands) if len(cands) <= 400 else attempt(cands[:48])
                if c is not None and len(c) < len(best):
                    best = c
                    improved = True
                    k = min(k, max(1, len(best) // 2))
                else:
                    k //= 2
            zs = []
            for i in range(len(best)):
                if best[i]:
                    zs.append(best[:i] + [0] + best[i + 1:])
                    if best[i] > 1:
                        zs.append(best[:i] + [best[i] // 2] + best[i + 1:])
                        zs.append(best[:i] + [best[i] - 1] + best[i + 1:])
            c = attempt(zs)
            if c is not None:
                best = c
                improved = True
        return best

    def run(self, ncases=None, seed=None):
        """explores; returns dict(violations=[...], coverage...)"""
        self.setup()
        try:
            return self._run(ncases or (self.thorough if THOROUGH else self.quick), SEED if seed is None else seed)
        finally:
            shutil.rmtree(self.tmp, ignore_errors=True)

    def _run(self, n, seed):
        shards = self.shards or (4 if n >= 200 else 2)
        if THOROUGH:
            shards = max(shards, min(8, n // 50 or 1)) * 4
        if self.maxcases:
            shards = max(shards, (n + self.maxcases - 1) // self.maxcases)
        step = (n + shards - 1) // shards
        ranges = [(i, min(n, i + step)) for i in range(0, n, step)]
        timeout = self.timeout * (5 if THOROUGH else 1)
        pool = concurrent.futures.ThreadPoolExecutor(CPUS)
        futs = {}
        for a, b in ranges:
            job = ["r %d %d %d" % (seed, a, b)]
            if self.ref:
                futs[("ref", a)] = pool.submit(self.run_jobs, self.refvm, job, timeout)
            for vm in self.vms:
                futs[(vm[0], a)] = pool.submit(self.run_jobs, vm, job, timeout)
        bad, stats = [], {"evaluations": 0, "tags": {}, "nt": set(), "samples": [], "per_config": {}}
        for a, b in ranges:
            ref = futs[("ref", a)].result() if self.ref else None
            if ref is not None and not ref.complete:
                raise CheckError("reference VM did not complete (%s): %s" % (ref.rc, ref.err))
            if ref is not None:
                for i, c in enumerate(ref.cases):
                    for l in c.text:
                        if l.startswith("MODEL-FAIL"):
                            raise CheckError("model fails on the reference VM: case r %d %d: %s" % (seed, a + i, "\n".join(c.text)))
            for vi, vm in enumerate(self.vms):
                r = futs[(vm[0], a)].result()
                nruns = 0
                for i in range(b - a):
                    if i < len(r.cases) and r.cases[i].done:
                        nruns += 1
                        c = (ref.cases if ref else r.cases)[i]
                        if vi == 0:
                            for t in c.tags:
                                stats["tags"][t] = stats["tags"].get(t, 0) + 1
                            if c.nt:
                                stats["nt"].add(hashlib.md5("\n".join(c.text).encode()).digest())
                                if len(stats["samples"]) < 3 and (a + i) % 7 == 0:
                                    stats["samples"].append({"case": "seed %d index %d" % (seed, a + i),
                                                             "tags": c.tags, "transcript": "\n".join(c.text)[:600]})
                    w = self.why(r, i, ref.cases[i] if ref else None)
                    if w:
                        bad.append((vm, a, b, a + i, w, r.err))
                        if w == "hang" or w.startswith("died"):
                            break
                stats["evaluations"] += nruns
                stats["per_config"][vm[0]] = stats["per_config"].get(vm[0], 0) + nruns
        pool.shutdown()
        violations = []
        unreproduced = []
        if bad:
            log("%d suspicious cases; e.g. %s" % (len(bad), [(x[0][0], x[3], x[4]) for x in bad[:5]]))
        seen = set()
        tbudget = time.time()
        for vm, a, b, idx, w, err in sorted(bad, key=lambda x: (x[4] == "hang", x[3])):
            if (vm[0], w[:12]) in seen or len(violations) >= 3 or time.time() - tbudget > 400:
                continue
            v = self.confirm(vm, a, b, idx, w, err, seed)
            if v:
                seen.add((vm[0], w[:12]))
                violations.append(v)
            else:
                unreproduced.append("%s r %d %d %s" % (vm[0], seed, idx, w))
        stats["unreproduced"] = unreproduced[:20]
        stats["violations"] = violations
        return stats

    def confirm(self, vm, a, b, idx, w, err, seed):
        rec = None
        if self.ref:
            r = self.run_jobs(self.refvm, ["R %d %d %d" % (seed, idx, idx + 1)], 120)
            rec = r.cases[0].choices if r.cases else None
        else:
            r = self.run_jobs(vm, ["R %d %d %d" % (seed, idx, idx + 1)], self.single_timeout)
            rec = r.cases[0].choices if r.cases else None
        if rec is not None:
            job = "c " + " ".join(map(str, rec))
            rs = [self.fails(vm, [job])[0] for _ in range(3)]
            if all(rs):
                best = rec
                if not any(x == "hang" for x in rs):
                    best = self.shrink(vm, rec)
                    job2 = "c " + " ".join(map(str, best))
                    if not all(self.fails(vm, [job2])[0] for _ in range(2)):
                        best = rec
                return self.violation(vm, ["c " + " ".join(map(str, best))], rs[0])
            if any(rs):
                return self.violation(vm, [job], [x for x in rs if x][0], note="%d of 3 replays" % sum(map(bool, rs)))
        job = "r %d %d %d" % (seed, idx, idx + 1)
        rs = [self.fails(vm, [job])[0] for _ in range(3)]
        if any(rs):
            return self.violation(vm, [job], [x for x in rs if x][0], note="%d of 3 replays" % sum(map(bool, rs)))
        # in the context of the cases before it
        jobs = ["r %d %d %d" % (seed, a, idx + 1)]
        hits = 0
        for _ in range(4):
            ref = self.run_jobs(self.refvm, jobs, self.timeout) if self.ref else None
            r = self.run_jobs(vm, jobs, self.timeout)
            for i in range(idx + 1 - a):
                x = self.why(r, i, ref.cases[i] if ref and i < len(ref.cases) else None)
                if x:
                    hits += 1
                    w = x
                    break
            if hits >= 2:
                break
        if hits:
            return self.violation(vm, jobs, w, note="in context; reproduced %d times" % hits)
        if self.flaky_ok and w != "hang":
            # one wrong outcome is enough where outcomes do not depend on the schedule
            return self.violation(vm, jobs, w, note="seen once")
        return None

    def violation(self, vm, jobs, why, note=""):
        r = self.run_jobs(vm, jobs, self.single_timeout)
        ref = self.run_jobs(self.refvm, jobs, 120) if self.ref else None
        d = os.path.join(VERIF, "replays", self.pid)
        os.makedirs(d, exist_ok=True)
        j = {"property": self.pid, "part": self.part or self.pid, "config": vm[0], "class": self.cls, "jobs": jobs, "why": why, "note": note,
             "avian": [c.text[:200] for c in r.cases[-1:]], "avian_exit": r.rc, "avian_output": r.err[-1500:],
             "reference": [c.text[:200] for c in ref.cases[-1:]] if ref else None}
        p = os.path.join(d, "%s-%s.json" % (vm[0], hashlib.md5(repr(jobs).encode()).hexdigest()[:10]))
        with open(p, "w") as f:
            json.dump(j, f, indent=1)
        ta = "\n".join(r.cases[-1].text) if r.cases else ""
        te = "\n".join(ref.cases[-1].text) if ref and ref.cases else ""
        al, el = ta.split("\n"), te.split("\n")
        for x, y in zip(al + ["<end>"], el + ["<end>"]):
            if x != y:
                log("first difference on %s:\n  expected %s\n  actual   %s" % (vm[0], y[:400], x[:400]))
                break
        return {"replay": p, "why": why, "config": vm[0], "jobs": jobs}

    def replay(self, j):
        self.setup()
        try:
            vm = [v for v in self.vms if v[0] == j["config"]][0]
            ref = self.run_jobs(self.refvm, j["jobs"], 120) if self.ref else None
            r = self.run_jobs(vm, j["jobs"], self.single_timeout)
            n = len(ref.cases) if ref else max(1, len(r.cases))
            for i in range(n):
                w = self.why(r, i, ref.cases[i] if ref else None)
                if w:
                    print("case %d: %s\n-- reference\n%s\n-- avian (%s)\n%s\n%s" %
                          (i, w, "\n".join(ref.cases[i].text) if ref else "-", vm[0],
                           "\n".join(r.cases[i].text) if i < len(r.cases) else "-", r.err[-800:]))
                    return True
            return False
        finally:
            shutil.rmtree(self.tmp, ignore_errors=True)


class GenProp(JavaProp):
    """Cases are generated class files: a generator (run on the reference JVM) turns the
    choices of each case into classes, which then run on every VM."""

    def __init__(self, pid, kind, genmain="gen.GenMain", gensources=("java/gen",), **kw):
        kw.setdefault("maxcases", 2000)
        kw.setdefault("files", ["java/vp/GenCase.java", "java/vp/GenRun.java", "java/vp/Types.java"])
        JavaProp.__init__(self, pid, kw.pop("cls", "vp.GenRun"), **kw)
        self.kind, self.genmain, self.gensources = kind, genmain, gensources

    def setup(self):
        JavaProp.setup(self)
        base = [os.path.join(VERIF, f) for f in ["java/vp/Src.java", "java/vp/Types.java"]]
        self.gencp = compile_java("gen", base + sum((java_files(d) for d in self.gensources), []),
                                  cp=B.JDK8 + "/lib/tools.jar")
        self.gen_cache = {}
        self.gen_lock = threading.Lock()

    def generate(self, jobs):
        key = "\n".join(jobs)
        with self.gen_lock:
            ent = self.gen_cache.setdefault(key, [threading.Lock(), None, 0])
            ent[2] += 1
            if len(self.gen_cache) > 80:
                for k in list(self.gen_cache)[:20]:
                    e = self.gen_cache[k]
                    if e[1] and k != key and e[2] <= 0:
                        shutil.rmtree(e[1][0], ignore_errors=True)
                        del self.gen_cache[k]
        with ent[0]:
            if ent[1] is None:
                d = tempfile.mkdtemp(prefix="gen-", dir=self.tmp)
                with open(d + ".jobs", "w") as f:
                    f.write(key + "\n")
                rc, err = run_proc([JAVA8, "-Xshare:auto", "-XX:TieredStopAtLevel=1", "-XX:+UseSerialGC", "-Xss16m", "-cp",
                                    self.gencp + ":" + B.JDK8 + "/lib/tools.jar", self.genmain, self.kind, d + ".jobs", d], 300)
                if rc != 0:
                    raise CheckError("generator failed: %s %s" % (rc, err))
                meta = []
                with open(d + "/meta") as f:
                    for l in f:
                        p = l.split()
                        meta.append(([] if p[0] == "-" else p[0].split(","), p[1] == "1", [int(x) for x in p[2:]]))
                ent[1] = (d, meta)
        return ent

    def prepare(self, vm, d, cmd, e):
        """command for a VM, with the generated directory on the class path"""
        cmd = list(cmd)
        i = cmd.index("-cp")
        cmd[i + 1] += ":" + d
        return cmd, e

    def run_jobs(self, vm, jobs, timeout):
        ent = self.generate(jobs)
        d, meta = ent[1]
        name, cmd, e = vm
        cmd, e = self.prepare(vm, d, cmd, e)
        r = JavaProp.run_jobs(self, (name, cmd, e), jobs, timeout)
        for c, m in zip(r.cases, meta):
            c.tags, c.nt, c.choices = m[0] + c.tags, m[1], m[2]
        ent[2] -= 1
        return r
