"""C14: what classes and resources a class path gives, differential against OpenJDK with the same class path."""
import io, os, struct, zipfile
import build as B
import pbt
from pyprop import PyProp, exec_out, differs

PKGS = ["", "a", "a.b", "a.b.c", "pkg", "pkg.Sub", "com.example.deep.er"]
NAMES = ["Main1", "B", "C$D", "X_1", "Lower", "x", "Long" + "g" * 70, "M\u00e9t\u00e9o"[:1] + "z"]
RES = ["r.txt", "a/r.txt", "a/b/c.properties", "META-INF/services/x.Y", "no-extension", "dir with space/f g.txt", "a/.hidden", "UPPER.TXT", "upper.txt",
       "deep/1/2/3/4/5/6/7/8/9/file", "pkg/Sub.txt", "a/b/%41.txt", "plus+plus", "x" * 120, "META-INF/other", "index.class.txt", "#hash", "a/B.class.bak"]
READS = "rRkue"


class Unseekable(io.RawIOBase):
    def __init__(self, f):
        self.f = f

    def writable(self):
        return True

    def write(self, b):
        return self.f.write(b)

    def seekable(self):
        return False


class CpProp(PyProp):
    def prepare(self):
        bd = B.build("fast")
        files = [os.path.join(pbt.VERIF, "java/cp", x) for x in ("CpMain.java", "Tmpl.java")]
        d = pbt.compile_java("C14", files, boot=os.path.join(bd, "classpath"))
        self.main = open(d + "/CpMain.class", "rb").read()
        self.tmpl = open(d + "/pkga/pkgb/Tmpl.class", "rb").read()

    def cls(self, name, n):
        a = b"\x01" + struct.pack(">H", len("pkga/pkgb/Tmpl")) + b"pkga/pkgb/Tmpl"
        b = name.replace(".", "/").encode()
        assert self.tmpl.count(a) == 1 and self.tmpl.count(b"ID-00000000") == 1
        return self.tmpl.replace(a, b"\x01" + struct.pack(">H", len(b)) + b).replace(b"ID-00000000", b"ID-%08d" % n)

    def gen(self, s):
        names = []
        for _ in range(2 + s.below(5)):
            p, n = s.pick(PKGS), s.pick(NAMES)
            names.append((p + "." if p else "") + n)
        res = [s.pick(RES) for _ in range(1 + s.below(5))]
        els, serial, mainin = [], 0, []
        mode = s.pick(["cp", "cp", "cp", "classpath", "prop", "jar"])
        nel = 1 + s.below(5)
        for i in range(nel):
            kind = s.pick(["dir", "jar", "jar", "dir", "odd"])
            if mode == "jar" and i == 0:
                kind = "jar"
            e = {"kind": kind, "files": {}}
            if kind == "odd":
                e["odd"] = s.pick(["missing", "empty", "garbage", "short", "emptydir"])
                els.append(e)
                continue
            for n in names:
                if s.below(5) < 2:
                    serial += 1
                    e["files"][n.replace(".", "/") + ".class"] = ("class", n, serial)
            for r in res:
                if s.below(5) < 2:
                    serial += 1
                    e["files"][r] = ("data", s.pick([0, 1, 3, 100, 4096, 5000, 70000]), serial, s.below(3))
            for k in range(s.pick([0, 0, 0, 1, 30, 31, 32, 33, 64, 200]) if kind == "jar" else 0):
                serial += 1
                e["files"]["fill/%d.bin" % k] = ("data", k % 7, serial, 0)
            e["shuffle"] = s.below(1000)
            e["dirname"] = s.pick(["el%d", "el%d", "el %d", "el.%d", "el%d.jar", "el%d.zip"]) % i
            e["slash"] = kind == "dir" and s.oneIn(4)
            if kind == "jar":
                e["deflate"] = [s.below(3) for _ in range(5)]
                e["extra"] = s.pick([b"", b"", b"\x99\x99\x04\x00abcd", b"\xfe\xca\x00\x00"])
                e["cextra"] = s.pick([e["extra"], e["extra"], b"", b"\x99\x99\x01\x00z", b"\x98\x99\x14\x00" + b"q" * 20])
                e["ccomment"] = s.pick([b"", b"", b"entry comment"])
                e["comment"] = s.pick([b"", b"", b"", b"a comment", b"c" * 1000, b"PK\x01\x02 not a header"])
                e["stream"] = s.oneIn(4)
                e["dirs"] = s.oneIn(3)
                e["manifest"] = None
                if mode == "jar" and i == 0 or s.oneIn(3):
                    e["manifest"] = (s.pick(["\r\n", "\n"]), [s.below(nel) for _ in range(s.below(4))], s.bool(), s.below(3))
            els.append(e)
        real = [i for i, e in enumerate(els) if e["kind"] != "odd"]
        mainel = 0 if mode == "jar" else (s.pick(real) if real else None)
        path = list(range(nel))
        if s.oneIn(3) and mode != "jar":
            path = [s.below(nel) for _ in range(1 + s.below(nel + 1))]
        if mainel is None or mainel not in path and mode != "jar":
            # a place of its own for the main class
            els.append({"kind": "dir", "files": {}, "dirname": "own", "slash": False, "shuffle": 0})
            mainel = len(els) - 1
            path.insert(s.below(len(path) + 1), mainel)
        els[mainel]["files"]["CpMain.class"] = ("main",)
        qs = []
        for _ in range(4 + s.below(16)):
            k = s.below(6)
            if k < 2:
                n = s.pick(names) if not s.oneIn(6) else s.pick(["a.Nope", "nope", "a.b.c.d.E", "A.B", "java.lang.Nope", "a.B.", ""])
                qs.append(s.pick("cl") + ":" + n)
            elif k < 5:
                n = s.pick(res) if not s.oneIn(6) else s.pick(["nope", "a/nope.txt", "a/b/r.txt", "R.TXT", "fill/31.bin", "fill/0.bin", "fill/199.bin", "CpMain.class"])
                q = s.pick(READS)
                qs.append(q + ":" + ("/" if q == "k" else "") + n)
            else:
                qs.append("a:" + s.pick(["", "-cp", "x y", "-Dx=1", "*", "--", "'", "-jar"]))
        return {"els": els, "path": path, "qs": qs, "mode": mode, "rel": s.bool()}

    def data(self, f):
        if f[0] == "class":
            return self.cls(f[1], f[2])
        if f[0] == "main":
            return self.main
        _, n, serial, k = f
        unit = (b"%d," % serial) if k == 0 else bytes((serial * 7 + j * j * 13 + j) & 255 for j in range(251)) if k == 1 else b"\0\xff\n\r" + bytes([serial & 255])
        return (unit * (n // len(unit) + 1))[:n]

    def build(self, case, d):
        names = []
        for i, e in enumerate(case["els"]):
            if e["kind"] == "odd":
                nm = "odd%d" % i
                p = os.path.join(d, nm)
                if e["odd"] == "emptydir":
                    os.mkdir(p)
                elif e["odd"] != "missing":
                    with open(p, "wb") as f:
                        f.write({"empty": b"", "garbage": b"this is not an archive\n" * 9, "short": b"PK"}[e["odd"]])
                names.append(nm)
            else:
                names.append(e["dirname"])
        for i, e in enumerate(case["els"]):
            if e["kind"] == "odd":
                continue
            p = os.path.join(d, names[i])
            files = list(e["files"].items())
            import random
            random.Random(e["shuffle"]).shuffle(files)
            if e["kind"] == "dir":
                os.mkdir(p)
                for n, f in files:
                    q = os.path.join(p, n)
                    os.makedirs(os.path.dirname(q), exist_ok=True)
                    with open(q, "wb") as o:
                        o.write(self.data(f))
                if e["slash"]:
                    names[i] += "/"
                continue
            with open(p, "wb") as raw:
                with zipfile.ZipFile(Unseekable(raw) if e["stream"] else raw, "w") as z:
                    z.comment = e["comment"]
                    if e["manifest"]:
                        nl, refs, wrap, pos = e["manifest"]
                        lines = ["Manifest-Version: 1.0", "Main-Class: CpMain"]
                        refs = [names[r].replace(" ", "%20") for r in refs if r != i and " " not in names[r]]
                        refs = [r + ("/" if case["els"][k]["kind"] == "dir" and not r.endswith("/") else "") for r, k in [(r, [j for j, nn in enumerate(names) if nn == r][0]) for r in refs]]
                        if refs:
                            l = "Class-Path: " + " ".join(refs)
                            if wrap and len(l) > 20:
                                l = l[:18] + nl + " " + l[18:]
                            lines.insert(1 + pos % 2, l)
                        z.writestr("META-INF/MANIFEST.MF", nl.join(lines) + nl)
                    done = set()
                    for j, (n, f) in enumerate(files):
                        if e["dirs"]:
                            parts = n.split("/")[:-1]
                            for k in range(len(parts)):
                                dn = "/".join(parts[:k + 1]) + "/"
                                if dn not in done:
                                    done.add(dn)
                                    z.writestr(zipfile.ZipInfo(dn), b"")
                        zi = zipfile.ZipInfo(n)
                        zi.extra, zi.comment = e["extra"], e["ccomment"]
                        zi.compress_type = zipfile.ZIP_DEFLATED if e["deflate"][j % 5] else zipfile.ZIP_STORED
                        z.writestr(zi, self.data(f))
                        zi.extra = e["cextra"]  # the central directory's extra field may differ from the local header's
        return names

    def decide(self, case, d):
        names = self.build(case, d)
        pre = "" if case["rel"] else d + "/"
        out = []
        for which in ("ref", "avian"):
            cmd, e = pbt.avian_cmd("fast", "X") if which == "avian" else pbt.ref_cmd("X")
            cmd = [c for c in cmd if not c.startswith("-Djava.library")][:-2]
            cp = ":".join(pre + names[i] for i in case["path"])
            m = case["mode"]
            if m == "jar":
                cmd += ["-jar", pre + names[0]]
            elif m == "prop":
                cmd += ["-Djava.class.path=" + cp, "CpMain"]
            else:
                cmd += ["-" + m, cp, "CpMain"]
            so, se, rc = exec_out(cmd + case["qs"], e, 60, cwd=d)
            out.append(so.decode("latin-1") + ("" if rc == 0 else "exit %s\n" % rc))
            if which == "avian" and rc not in (0, 1, 255):
                out[1] += se.decode("latin-1")[-500:]
        if "exit" in out[0].split("\n")[-2:][0]:
            raise pbt.CheckError("reference fails: " + repr(case)[:1500] + se.decode("latin-1"))
        return differs(out[1], out[0]), out[0]

    def info(self, case):
        tags = [case["mode"]] + sorted({e["kind"] for e in case["els"]} | {e["odd"] for e in case["els"] if e["kind"] == "odd"})
        tags += [k for k in ("stream", "dirs", "manifest") if any(e.get(k) for e in case["els"])] + ["extra-differs"] * any(e.get("extra") != e.get("cextra") for e in case["els"])
        return tags, len(case["els"]) > 1 and sum(len(e["files"]) for e in case["els"]) > 3
