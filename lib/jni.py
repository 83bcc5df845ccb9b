"""JNI property: builds the generated natives and the script interpreter as a library for both VMs"""
import os, shutil, subprocess, sys
import build as B
import pbt

D = os.path.join(pbt.VERIF, "native")
SRC = [os.path.join(D, x) for x in ("gen_jni.py", "jniprop.h", "jniprop.cpp")]


def library():
    out = os.path.join(B.WORK, "jni-" + pbt.files_hash(SRC))
    with B.Lock("jni"):
        if not os.path.exists(out + "/.ok"):
            shutil.rmtree(out, ignore_errors=True)
            os.makedirs(out)
            subprocess.run([sys.executable, SRC[0], out], check=True)
            inc = B.JDK8 + "/include"
            cc = ["g++", "-O1", "-fwrapv", "-fPIC", "-I" + inc, "-I" + inc + "/linux", "-I" + D]
            ps = [subprocess.Popen(cc + ["-c", s, "-o", out + "/" + o], stderr=subprocess.PIPE, text=True)
                  for s, o in ((SRC[2], "a.o"), (out + "/jnisigs.cpp", "b.o"))]
            for p in ps:
                e = p.communicate()[1]
                if p.returncode:
                    raise pbt.CheckError("g++ failed: " + e[-3000:])
            subprocess.run(["g++", "-shared", "-o", out + "/libvpjni.so", out + "/a.o", out + "/b.o", "-lpthread"], check=True)
            open(out + "/.ok", "w").close()
    return out


class JniProp(pbt.JavaProp):
    def setup(self):
        d = library()
        self.props = ["-Dvp.lib=" + d + "/libvpjni.so"]
        self.files = ["java/vp/%s.java" % x for x in ("JniProp", "JniFields", "JniFieldsSub", "JniReg")] + \
            [os.path.join(d, "Jni%s.java" % x) for x in ("Sigs", "Base", "Derived", "Iface", "Ctor")]
        pbt.JavaProp.setup(self)
