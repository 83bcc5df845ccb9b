"""addfix.py ID: appends a "fixed:" line to known-findings.txt for each fix commit of /repo not listed yet (development aid)"""
import subprocess, sys, os
f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known-findings.txt")
t = open(f).read()
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "--grep", "^fix:"], text=True).splitlines():
    h, s = l.split(" ", 1)
    if h not in t:
        t += "fixed: property=%s %s %s\n" % (sys.argv[1], h, s[5:])
open(f, "w").write(t)
