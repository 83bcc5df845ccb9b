"""Known findings: small programs which show a recorded defect of Avian (known-findings.txt)."""
import os, subprocess
import build as B, pbt
from pbt import VERIF

FILE = os.path.join(VERIF, "known-findings.txt")


def entries():
    out = []
    for l in open(FILE, encoding="utf-8"):
        l = l.rstrip("\n")
        if l.startswith("finding: "):
            head, what = l[9:].split(" | ", 1)
            d = dict(x.split("=", 1) for x in head.split())
            d["what"] = what
            out.append(d)
    return out


def run(cmd, e, n=60):
    """output of a program: stdout and how it ended"""
    try:
        p = subprocess.run(cmd, capture_output=True, timeout=n, env=e, preexec_fn=pbt.limits, stdin=subprocess.DEVNULL)
        return p.stdout.decode("utf-8", "replace") + ("" if p.returncode == 0 else "<ended abnormally>")
    except subprocess.TimeoutExpired as x:
        return (x.stdout or b"").decode("utf-8", "replace") + "<no end>"


def report(pid):
    """prints the KNOWN-FINDING line of each listed finding which still fails"""
    mine = [x for x in entries() if x["property"] == pid]
    if not mine:
        return
    files = [os.path.join(VERIF, "java/vp", f + ".java") for f in ("Src", "Out", "Prop", "GenCase", "GenRun")]
    cp = pbt.compile_java("kf", files + pbt.java_files("java/kf"), boot=os.path.join(B.build("fast"), "classpath"),
                          extra=["-proc:none"])
    for x in mine:
        c = x["config"]
        path = cp + (":" + os.path.join(VERIF, x["classes"]) if "classes" in x else "")
        cmd, e = pbt.avian_cmd(c, path)
        rcmd, re_ = pbt.ref_cmd(path)
        a = run(cmd + ["kf.Show", x["show"]], e)
        r = run(rcmd + ["kf.Show", x["show"]], re_)
        if a != r:
            print("KNOWN-FINDING: property=%s %s (%s): %s" % (pid, x["id"], c, x["what"]), flush=True)
