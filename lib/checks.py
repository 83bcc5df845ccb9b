"""The checks: one per property; see DESIGN.md."""
import glob, json, os, subprocess, sys, time, traceback
import build as B
import cp, jni, kf, lambdas, pbt
from pbt import JavaProp, GenProp, VERIF, log

def gens(pid, kinds, configs, quick, thorough, per=None):
    out = []
    for k in kinds:
        for c in configs:
            f = (per or {}).get(c, 1)
            out.append(GenProp(pid, k, configs=(c,), quick=int(quick * f), thorough=int(thorough * f), part="%s-%s" % (k, c)))
    return out


JITS = ("fast", "debug")
JITS3 = JITS + ("stress",)
PER = {"debug": 0.15, "stress": 0.08}
GEN_RULE = ("a generator draws choices and writes a class file of %s; the transcript of values it prints is compared with HotSpot's; "
            "non-trivial: it has at least 6 of the counted features, transcripts distinct")
LIB_FILES = dict(Refl="ReflProp ClassGen Samples", Init="InitProp ClassGen", Zip="ZipProp ZipModel", Io="IoProp ZipModel", Nio="NioProp IoProp ZipProp ZipModel", Conc="ConcProp ThreadProp")

def lib_on(pid, config, parts):
    """the generators of other properties on another configuration of the VM"""
    return [JavaProp(pid, "vp.%sProp" % m, configs=(config,), quick=q, thorough=q * 15, part="%s-%s" % (pid, m), maxcases=1500, flaky_ok=m in ("Ref", "Thread", "Conc"),
                     files=["java/vp/%s.java" % x for x in LIB_FILES.get(m, m + "Prop").split()], props=("-Dfile.encoding=UTF-8",) if m == "Io" else ()) for m, q in parts]

CHECKS = {
  "C01": dict(make=lambda: gens("C01", ["arith"], JITS3, 6000, 80000, PER), rule=GEN_RULE % "arithmetic, conversion, comparison and control flow instructions"),
  "C02": dict(make=lambda: gens("C02", ["exc"], JITS3, 6000, 80000, PER), rule=GEN_RULE % "nested exception handlers, traps, monitors and calls"),
  "C03": dict(make=lambda: gens("C03", ["calls"], JITS3, 6000, 80000, PER), rule=GEN_RULE % "a class hierarchy with field, array, call and type instructions"),
  "C04": dict(make=lambda: [JavaProp("C04", "vp.LinkProp", configs=(c,), quick=q, thorough=q * 20, files=["java/vp/LinkProp.java", "java/vp/ClassGen.java"], part="C04-" + c, ref_props=("-XX:-BytecodeVerificationRemote", "-Xint")) for c, q in (("fast", 4000), ("interpret", 2000), ("debug", 1000), ("stress", 150))],
              rule="a set of classes some of which are missing, come later or are broken, and a history of uses of them from generated code; non-trivial: some use failed"),
  "C05": dict(make=lambda: gens("C05", ["arith", "exc", "calls"], ("interpret",), 3000, 40000), rule=GEN_RULE % "the kinds of C01, C02 and C03"),
  "C07": dict(make=lambda: [lambdas.LambdaProp("C07", "vp.LambdaProp", configs=(c,), quick=q, thorough=q * 20, part="C07-" + c) for c, q in (("fast", 4000), ("interpret", 1500), ("debug", 1000))],
              rule="uses of 1 to 5 of 420 generated lambda expressions and method references with generated values, sequentially or from several threads at once; all are counted"),
  "C08": dict(make=lambda: [JavaProp("C08", "vp.InitProp", configs=(c,), quick=q, thorough=q * 20, files=["java/vp/InitProp.java", "java/vp/ClassGen.java"], part="C08-" + c, maxcases=1500) for c, q in (("fast", 12000), ("interpret", 3000), ("debug", 1500))],
              rule="a generated set of classes and interfaces whose initializers use each other and fail, used in a generated order by one thread or several, events compared with OpenJDK; non-trivial: more than one initializer ran"),
  "C09": dict(make=lambda: [JavaProp("C09", "vp.HeapProp", configs=(c,), quick=q, thorough=q * 15, files=["java/vp/HeapProp.java"], part="C09-" + c) for c, q in (("fast", 1600), ("interpret", 400), ("debug", 250), ("stress", 100))],
              rule="a history of changes to an object graph with collections between and within them, checked against a mirror of the graph; non-trivial: more than three nodes and ten operations"),
  "C10": dict(make=lambda: [JavaProp("C10", "vp.RefProp", configs=(c,), quick=q, thorough=q * 20, files=["java/vp/RefProp.java"], part="C10-" + c, flaky_ok=True) for c, q in (("fast", 600), ("interpret", 200), ("debug", 150))],
              rule="a history of changes to an object graph with references, queues, finalizers and a WeakHashMap, and collections, checked against a mirror; non-trivial: more than two references and nodes"),
  "C11": dict(make=lambda: [JavaProp("C11", "vp.ThreadProp", configs=(c,), quick=q, thorough=q * 20, files=["java/vp/ThreadProp.java"], part="C11-" + c, flaky_ok=True) for c, q in (("fast", 3000), ("interpret", 500), ("stress", 150))],
              rule="a generated set of threads running generated scripts on shared monitors and variables; outcomes that do not depend on the schedule, against a model and OpenJDK; non-trivial: several threads or operations"),
  "C12": dict(make=lambda: [jni.JniProp("C12", "vp.JniProp", configs=(c,), quick=q, thorough=q * 20, part="C12-" + c) for c, q in (("fast", 4000), ("interpret", 800), ("debug", 600), ("stress", 200))],
              rule="calls of native methods of many signatures and scripts of JNI calls run by a native interpreter, compared with OpenJDK and a model; non-trivial: more than five scripted calls"),
  "C13": dict(make=lambda: [JavaProp("C13", "vp.ReflProp", quick=6000, thorough=60000, files=["java/vp/ReflProp.java", "java/vp/ClassGen.java", "java/vp/Samples.java"], maxcases=1500)],
              rule="a history of reflective operations on a generated hierarchy of classes defined at run time, results compared with OpenJDK; non-trivial: more than six operations and some instance"),
  "C14": dict(make=lambda: [cp.CpProp("C14", 1200, 12000)],
              rule="a generated layout of class path elements and list of queries, answers compared with OpenJDK on the same class path; non-trivial: more than one element and more than three files"),
  "C15": dict(make=lambda: [JavaProp("C15", "vp.ZipProp", quick=8000, thorough=200000, files=["java/vp/ZipProp.java", "java/vp/ZipModel.java"])],
              rule="a compression, decompression or archive history over generated data, against an independent model of the formats and OpenJDK; non-trivial: more than two bytes of data or more than one entry"),
  "C17": dict(make=lambda: [JavaProp("C17", "vp.SelectProp", configs=(c,), quick=q, thorough=q * 20, files=["java/vp/SelectProp.java", "java/vp/ClassGen.java"], part="C17-" + c) for c, q in (("fast", 20000), ("interpret", 6000), ("debug", 3000))],
              rule="a generated hierarchy of classes and interfaces in one or two packages with overriding, default, abstract, static, private and package-private methods which call each other and super, called virtually, through interfaces and statically, results compared with OpenJDK; non-trivial: more than four types and two calls which return"),
  "C20": dict(make=lambda: [JavaProp("C20", "vp.StringsProp", quick=60000, thorough=900000, files=["java/vp/StringsProp.java"])],
              rule="a history of string operations over generated strings, results compared with OpenJDK; non-trivial: some string has more than one character and several operations ran"),
  "C21": dict(make=lambda: [JavaProp("C21", "vp.NumProp", quick=60000, thorough=900000, files=["java/vp/NumProp.java"])],
              rule="a history of operations on numbers, characters, Random or BitSet, results compared with OpenJDK; non-trivial: at least one operation did not throw"),
  "C22": dict(make=lambda: [JavaProp("C22", "vp.CollProp", quick=60000, thorough=900000, files=["java/vp/CollProp.java"])],
              rule="a history of operations on one collection, results compared with OpenJDK; non-trivial: the collection held at least 3 to 5 elements"),
  "C23": dict(make=lambda: [JavaProp("C23", "vp.TextProp", quick=200000, thorough=3000000, files=["java/vp/TextProp.java"])],
              rule="generated format strings, message patterns, dates, property files or tokenised text, results compared with OpenJDK; non-trivial: an argument, date, property or enough text takes part"),
  "C24": dict(make=lambda: [JavaProp("C24", "vp.RegexProp", quick=120000, thorough=2000000, files=["java/vp/RegexProp.java"])],
              rule="a generated pattern of the supported syntax and texts, all matching operations, compared with OpenJDK; non-trivial: the pattern has more than two characters"),
  "C25": dict(make=lambda: [JavaProp("C25", "vp.IoProp", quick=20000, thorough=400000, files=["java/vp/IoProp.java", "java/vp/ZipModel.java"], props=("-Dfile.encoding=UTF-8",))],
              rule="a history of reads, writes or file operations on generated data, results compared with OpenJDK; non-trivial: more than 5 bytes or 3 operations"),
  "C26": dict(make=lambda: [JavaProp("C26", "vp.NioProp", quick=20000, thorough=400000, files=["java/vp/%s.java" % x for x in ("NioProp", "IoProp", "ZipProp", "ZipModel")])],
              rule="a history of operations on buffers sharing storage or on channels, results compared with OpenJDK; non-trivial: at least 3 operations"),
  "C27": dict(make=lambda: [JavaProp("C27", "vp.SerProp", quick=150000, thorough=2000000, files=["java/vp/SerProp.java"])],
              rule="a generated list of values and object graphs, written and read back by object streams or laid out by an independent encoder and read; compared with the values written and with OpenJDK; non-trivial: at least one object"),
  "C28": dict(make=lambda: [JavaProp("C28", "vp.ConcProp", configs=(c,), quick=q, thorough=q * 20, files=["java/vp/ConcProp.java", "java/vp/ThreadProp.java"], part="C28-" + c, flaky_ok=True) for c, q in (("fast", 20000), ("interpret", 3000))],
              rule="a history of operations on a java.util.concurrent object, or a set of threads working on one, outcomes that do not depend on the schedule, against a model and OpenJDK; non-trivial: several operations or threads"),
  "C30": dict(make=lambda: [JavaProp("C30", "vp.NetProp", configs=(c,), quick=q, thorough=q * 20, files=["java/vp/NetProp.java"], part="C30-" + c, props=("-Djava.net.preferIPv4Stack=true",)) for c, q in (("fast", 6000), ("interpret", 1000), ("debug", 500))],
              rule="a history of operations on stream and datagram sockets, channels and a selector over the loopback network, checked against a model of the streams and packets and OpenJDK; non-trivial: data or packets arrived"),
  "C06": dict(make=lambda: lib_on("C06", "bootimage", (("Num", 4000), ("Strings", 4000), ("Coll", 4000), ("Text", 4000), ("Refl", 500), ("Init", 500), ("Heap", 150), ("Io", 2000), ("Ser", 3000), ("Thread", 400))),
              rule="a case of C08, C09, C11, C13, C20 to C23, C25 or C27 run on a VM whose class library was compiled ahead of time into a boot image; non-trivial as there"),
  "C16": dict(make=lambda: lib_on("C16", "openjdk", (("Init", 800), ("Heap", 200), ("Conc", 1500), ("Io", 4000), ("Nio", 4000), ("Zip", 1000), ("Ser", 4000), ("Num", 4000), ("Strings", 4000))),
              rule="a case of C08, C09, C15, C20, C21 or C25 to C28 run on a VM built for OpenJDK's class library; non-trivial as there"),
}
SETUP = ["fast", "debug", "interpret", "stress", "bootimage", "openjdk"]


def evidence(pid, cov, wall, violations, level="exploration", assumptions=()):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + ".json"), "w") as f:
        json.dump({"property": pid, "tier": pbt.TIER if pbt.TIER in ("quick", "thorough") else "quick", "seed": pbt.SEED,
                   "level": level, "coverage": cov, "assumptions": list(assumptions), "wall_s": round(wall, 2),
                   "violations": violations}, f, indent=1)


def check(pid):
    t0 = time.time()
    c = CHECKS[pid]
    parts = c["make"]()
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": c["rule"], "samples": [], "parts": {}}
    viol = []
    for p in parts:
        st = p.run()
        cov["evaluations"] += st["evaluations"]
        cov["distinct_nontrivial"] += len(st["nt"]) if isinstance(st["nt"], set) else st["nt"]
        cov["samples"] += st["samples"]
        name = getattr(p, "part", None) or pid
        cov["parts"][name] = {"tags": st.get("tags", {}), "executions_per_config": st.get("per_config", {}),
                              "distinct_nontrivial": len(st["nt"]) if isinstance(st["nt"], set) else st["nt"]}
        if st.get("unreproduced"):
            cov["parts"][name]["unreproduced"] = st["unreproduced"]
        if st.get("extra"):
            cov["parts"][name].update(st["extra"])
        viol += st["violations"]
        log("%s/%s: %d executions, %d distinct non-trivial, %d violations" % (pid, name, st["evaluations"], cov["parts"][name]["distinct_nontrivial"], len(st["violations"])))
        if viol:
            break
    kf.report(pid)
    evidence(pid, cov, time.time() - t0, len(viol), assumptions=c.get("assumptions", ()))
    for v in viol:
        print("VIOLATION property=%s replay=%s" % (pid, v["replay"]), flush=True)
    return 1 if viol else 0


def main(argv):
    try:
        if argv[0] == "check":
            return check(argv[1])
        if argv[0] == "replay":
            j = json.load(open(argv[1]))
            for p in CHECKS[j["property"]]["make"]():
                if (p.part or p.pid) == j.get("part"):
                    bad = p.replay(j)
                    print("reproduced" if bad else "not reproduced")
                    return 1 if bad else 0
            return 2
        if argv[0] == "setup":
            for c in argv[1:] or SETUP:
                B.build(c)
            return 0
    except Exception:
        traceback.print_exc()
        return 3
    return 2
