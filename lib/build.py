"""Builds configurations of Avian from /repo's current working tree.

Sources are copied (by content hash) to a private work directory and built
there with the project's own makefile, so /repo is never written to.  The
result is reused only while the content hash of the sources is unchanged.
"""
import fcntl, hashlib, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
WORK = os.environ.get("VP_WORK", os.path.join(VERIF, ".work"))
JDK8 = "/usr/lib/jvm/java-8-openjdk-amd64"
SRC_ITEMS = ["makefile", "openjdk-src.mk", "openjdk.ld", "openjdk.pro", "vm.pro",
             "gradle.properties", "src", "include", "classpath", "test", "unittest"]

CONFIGS = {
    "fast": [],
    "debug": ["mode=debug"],
    "debug-all": ["mode=debug", "codegen-targets=all"],
    "interpret": ["process=interpret"],
    "interpret-debug": ["process=interpret", "mode=debug"],
    "bootimage": ["bootimage=true"],
    "openjdk": ["openjdk=" + JDK8],
    "tails": ["tails=true", "continuations=true", "heapdump=true"],
    "stress": ["mode=stress"],
    "stress-major": ["mode=stress-major"],
}

# glibc >= 2.28 declares fadd & co, which clash with Avian's opcode names, and
# sys/sysctl.h is gone; same workarounds as the project's build in this sandbox.
COMPAT = """#define fadd glibc_fadd
#define fsub glibc_fsub
#define fmul glibc_fmul
#define fdiv glibc_fdiv
#include <math.h>
#undef fadd
#undef fsub
#undef fmul
#undef fdiv
"""


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    for k in ("TRAVIS_PULL_REQUEST", "JAVA_TOOL_OPTIONS", "_JAVA_OPTIONS", "MAKEFLAGS",
              "MAKEOVERRIDES", "CLASSPATH", "LD_LIBRARY_PATH"):
        e.pop(k, None)
    e["JAVA_HOME"] = JDK8
    e["LC_ALL"] = "C.UTF-8"
    e["TZ"] = "UTC"
    return e


def source_files():
    out = []
    for item in SRC_ITEMS:
        p = os.path.join(REPO, item)
        if os.path.isfile(p):
            out.append(item)
        elif os.path.isdir(p):
            for d, ds, fs in os.walk(p):
                ds.sort()
                for f in sorted(fs):
                    full = os.path.join(d, f)
                    if os.path.isfile(full):
                        out.append(os.path.relpath(full, REPO))
    return sorted(out)


_hash = None


def source_hash():
    global _hash
    if _hash is None:
        h = hashlib.sha256()
        for f in source_files():
            h.update(f.encode() + b"\0")
            with open(os.path.join(REPO, f), "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
        _hash = h.hexdigest()[:16]
    return _hash


class Lock:
    def __init__(self, name):
        os.makedirs(WORK, exist_ok=True)
        self.path = os.path.join(WORK, name + ".lock")

    def __enter__(self):
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def tree():
    """Private copy of the sources; returns its directory."""
    h = source_hash()
    d = os.path.join(WORK, "b-" + h)
    with Lock("tree"):
        if not os.path.exists(os.path.join(d, ".ok")):
            # keep at most three older trees
            olds = sorted((os.path.join(WORK, x) for x in os.listdir(WORK)
                           if x.startswith("b-") and x != "b-" + h), key=os.path.getmtime)
            for o in olds[:-2]:
                shutil.rmtree(o, ignore_errors=True)
            shutil.rmtree(d, ignore_errors=True)
            for f in source_files():
                dst = os.path.join(d, f)
                os.makedirs(os.path.dirname(dst), exist_ok=True)
                shutil.copyfile(os.path.join(REPO, f), dst)
            with open(os.path.join(d, "compat.h"), "w") as fh:
                fh.write(COMPAT)
            open(os.path.join(d, ".ok"), "w").close()
        os.utime(d)
    return d


def make_vars(config):
    d = tree()
    extra = "-include %s/compat.h -w $(if $(filter %%/java-lang.o,$@),-D__ANDROID__)" % d
    return CONFIGS[config] + ["extra-cflags=" + extra]


def build_dir(config):
    r = subprocess.run(["make", "-s", "--no-print-directory"] + CONFIGS[config] +
                       ["--eval", "vp-dir: ; @echo $(build)", "vp-dir"],
                       cwd=tree(), env=env(), capture_output=True, text=True)
    b = r.stdout.strip()
    if not b:
        raise BuildError("makefile does not parse: " + r.stderr)
    return b


def build(config, targets=("vp-all",), jobs=8):
    """Builds one configuration; returns the absolute build directory."""
    d = tree()
    b = build_dir(config)
    full = os.path.join(d, b)
    with Lock("build-" + source_hash()):
        os.makedirs(os.path.join(full, "test"), exist_ok=True)
        os.makedirs(os.path.join(full, "extra-dir"), exist_ok=True)
        stamp = os.path.join(full, ".vp-" + "-".join(t.replace("/", "_") for t in targets))
        if os.path.exists(stamp):
            return full
        t0 = time.time()
        # the libraries, executables and class library, without the project's tests
        with open(os.path.join(d, "vp.mk"), "w") as fh:
            fh.write(".DELETE_ON_ERROR:\nvp-all: $(static-library) $(executable) $(dynamic-library) "
                     "$(executable-dynamic) $(classpath-dep) $(build)/classpath.jar $(converter)\n")
        evals = ["-f", "makefile", "-f", "vp.mk"]
        log = os.path.join(WORK, "make-%s-%s.log" % (source_hash(), config))
        with open(log, "w") as fh:
            r = subprocess.run(["make", "-j%d" % jobs] + evals + make_vars(config) +
                               [t.replace("@B@", b) for t in targets], cwd=d, env=env(), stdout=fh,
                               stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
        if r.returncode:
            with open(log) as fh:
                tail = fh.read()[-3000:]
            raise BuildError("building %s failed:\n%s" % (config, tail))
        open(stamp, "w").close()
        print("built %s in %.0f s" % (config, time.time() - t0), file=sys.stderr, flush=True)
    return full


if __name__ == "__main__":
    for c in sys.argv[1:]:
        print(build(c))
