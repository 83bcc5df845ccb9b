"""Generates native methods and upcall targets of many signatures: gen_jni.py OUTDIR"""
import os, random, sys
R = random.Random(20240611)
T = "ZBCSIJFDLL"
JT = dict(Z="boolean", B="byte", C="char", S="short", I="int", J="long", F="float", D="double", L="Object", V="void")
CT = dict(Z="jboolean", B="jbyte", C="jchar", S="jshort", I="jint", J="jlong", F="jfloat", D="jdouble", L="jobject", V="void")
NM = dict(Z="Boolean", B="Byte", C="Char", S="Short", I="Int", J="Long", F="Float", D="Double", L="Object", V="Void")
FLD = dict(Z="z", B="b", C="c", S="s", I="i", J="j", F="f", D="d", L="l")


def sig():
    style = R.randrange(6)
    n = R.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 18, 24])
    if style == 0:
        return "".join(R.choice("FD") for _ in range(n))
    if style == 1:
        return "".join(R.choice("IJL") for _ in range(n))
    if style == 2:
        return "".join(R.choice("ZBCS") for _ in range(n))
    return "".join(R.choice(T) for _ in range(n))


def desc(s, r):
    d = lambda c: "Ljava/lang/Object;" if c == "L" else c
    return "(" + "".join(map(d, s)) + ")" + d(r)


def jparams(s):
    return ", ".join("%s a%d" % (JT[c], i) for i, c in enumerate(s))


def jmix(s, start):
    t = "long h = %dL; " % start
    for i, c in enumerate(s):
        v = {"Z": "(a%d ? 1 : 0)", "F": "Float.floatToIntBits(a%d)", "D": "Double.doubleToLongBits(a%d)", "L": "JniProp.key(a%d)"}.get(c, "a%d") % i
        t += "h = h * 31 + %s; " % v
    return t


def jret(r, s):
    if r == "V":
        return "JniProp.last = h; return;"
    if r == "L":
        ls = [i for i, c in enumerate(s) if c == "L"]
        return "JniProp.last = h; return " + ("a%d;" % ls[-1] if ls else "null;")
    return {"Z": "return (h & 4) != 0;", "F": "return (float) (int) (h >> 37);", "D": "return (double) (h >> 20);", "J": "return h;"}.get(r, "return (%s) h;" % JT[r])


def cmix(s, start):
    t = "  jlong h = %dLL;\n" % start
    for i, c in enumerate(s):
        v = {"Z": "(a%d ? 1 : 0)", "F": "fbits(a%d)", "D": "dbits(a%d)", "L": "key(e, a%d)"}.get(c, "a%d") % i
        t += "  h = mul31(h) + %s;\n" % v
    return t


def cret(r, s):
    if r == "V":
        return "  setLast(e, h);\n"
    if r == "L":
        ls = [i for i, c in enumerate(s) if c == "L"]
        return "  setLast(e, h);\n  return %s;\n" % ("a%d" % ls[-1] if ls else "0")
    return {"Z": "  return (h & 4) != 0;\n", "F": "  return (float) (jint) (h >> 37);\n", "D": "  return (double) (h >> 20);\n", "J": "  return h;\n"}.get(r, "  return (%s) h;\n" % CT[r])


def args(s):
    """expressions taking the arguments from v[] (jlong) and o[] (jobject)"""
    out, k = [], 0
    for i, c in enumerate(s):
        if c == "L":
            out.append("o[%d]" % i)
        elif c == "F":
            out.append("tof(v[%d])" % i)
        elif c == "D":
            out.append("tod(v[%d])" % i)
        elif c == "Z":
            out.append("(jboolean) (v[%d] != 0)" % i)
        else:
            out.append("(%s) v[%d]" % (CT[c], i))
    return out


def main(d):
    J, C = [], ["#include \"jniprop.h\"\n"]
    downs = [(sig(), R.choice("VZBCSIJFDLLJID"), R.random() < 0.5) for _ in range(260)]
    ups = [(sig(), R.choice("VZBCSIJFDLLJID"), R.choice(["static", "", "", "final", "private"])) for _ in range(120)]
    R2 = random.Random(77)
    for r in "VZBCSIJFDL":
        for m in ("static", "", ""):
            ups.append(("".join(R2.choice(T) for _ in range(R2.choice([0, 1, 2, 3, 5, 9]))), r, m))
    ctors = sorted(set(sig() for _ in range(30)))
    # native methods
    J.append("package vp;\npublic class JniSigs {\n  static final int DOWNS = %d, UPS = %d, CTORS = %d;\n" % (len(downs), len(ups), len(ctors)))
    for k, (s, r, st) in enumerate(downs):
        J.append("  %snative %s d%d(%s);\n" % ("static " if st else "", JT[r], k, jparams(s)))
        J.append("  static %s e%d(%s) { %s%s }\n" % (JT[r], k, jparams(s), jmix(s, k + 1), jret(r, s)))
        J.append("  static void down%d(JniSigs x, Src s, Out o) { " % k)
        for i, c in enumerate(s):
            J.append("%s a%d = JniProp.any%s(s); " % (JT[c], i, NM[c]))
        a = ", ".join("a%d" % i for i in range(len(s)))
        call = ("" if st else "x.") + "d%d(%s)" % (k, a)
        J.append("JniProp.last = 0; ")
        if r == "V":
            J.append("%s; long got = JniProp.last; e%d(%s); JniProp.same(o, %d, got, JniProp.last); }\n" % (call, k, a, k))
        else:
            J.append("%s got = %s; long l = JniProp.last; JniProp.last = 0; %s exp = e%d(%s); JniProp.same(o, %d, got, exp); JniProp.same(o, %d, l, JniProp.last); }\n" % (JT[r], call, JT[r], k, a, k, k))
        C.append("extern \"C\" JNIEXPORT %s JNICALL Java_vp_JniSigs_d%d(JNIEnv* e, %s%s)\n{\n  (void) e;\n%s%s}\n" % (
            CT[r], k, "jclass" if st else "jobject", "".join(", %s a%d" % (CT[c], i) for i, c in enumerate(s)), cmix(s, k + 1), cret(r, s)))
    J.append("  static void down(int k, JniSigs x, Src s, Out o) {\n    switch (k) {\n")
    for k in range(len(downs)):
        J.append("      case %d: down%d(x, s, o); break;\n" % (k, k))
    J.append("    }\n  }\n")
    # upcalls
    J.append("  static String[] UPSIG = {%s};\n  static String[] CTORSIG = {%s};\n}\n" % (", ".join('"%s"' % u[0] for u in ups), ", ".join('"%s"' % c for c in ctors)))
    B, D, I, U = [], [], [], []
    for k, (s, r, m) in enumerate(ups):
        body = "{ JniProp.bomb(); %s%s }" % (jmix(s, 1000 + k), jret(r, s))
        over = "{ JniProp.bomb(); %s%s }" % (jmix(s, 5000 + k), jret(r, s))
        B.append("  %s %s u%d(%s) %s\n" % ("public " + m if m != "private" else m, JT[r], k, jparams(s), body))
        if m == "" and k % 3 != 0:
            D.append("  public %s u%d(%s) %s\n" % (JT[r], k, jparams(s), over))
        if m == "" and k % 2 == 0:
            I.append("  %s u%d(%s);\n" % (JT[r], k, jparams(s)))
            itf = 1
        else:
            itf = 0
        U.append((k, s, r, m, itf))
    open(os.path.join(d, "JniIface.java"), "w").write("package vp;\npublic interface JniIface {\n" + "".join(I) + "}\n")
    open(os.path.join(d, "JniBase.java"), "w").write("package vp;\npublic class JniBase implements JniIface {\n" + "".join(B) + "}\n")
    open(os.path.join(d, "JniDerived.java"), "w").write("package vp;\npublic class JniDerived extends JniBase {\n" + "".join(D) + "}\n")
    K = ["package vp;\npublic class JniCtor {\n  long h;\n"]
    for k, s in enumerate(ctors):
        K.append("  %sJniCtor(%s) { %sthis.h = h; JniProp.bomb(); }\n" % (R.choice(["public ", "private ", ""]), jparams(s), jmix(s, 77 + k)))
    open(os.path.join(d, "JniCtor.java"), "w").write("".join(K) + "}\n")
    open(os.path.join(d, "JniSigs.java"), "w").write("".join(J))
    C.append("static const char* const upDesc[] = {%s};\n" % ", ".join('"%s"' % desc(s, r) for k, s, r, m, i in U))
    C.append("static const char upMode[] = {%s};\n" % ", ".join("'%s'" % ("s" if m == "static" else "i" if i else "v") for k, s, r, m, i in U))
    for k, s, r, m, itf in U:
        st = "Static" if m == "static" else ""
        a = args(s)
        C.append("static void up%d(JNIEnv* e, jobject t, jmethodID id, jlong* v, jobject* o, int variant, std::string& out)\n{\n  (void) v; (void) o;\n" % k)
        C.append("  jvalue w[%d];\n" % (len(s) + 1))
        for i, c in enumerate(s):
            C.append("  w[%d].%s = %s;\n" % (i, FLD[c], a[i]))
        fa = "".join(", " + x for x in a)
        pre = "" if r == "V" else "%s r = " % CT[r]
        decl = "" if r == "V" else "  %s r;\n" % CT[r]
        asg = "" if r == "V" else "r = "
        tt = "(jclass) t" if st else "t"
        C.append(decl)
        C.append("  if (variant == 0) %se->Call%s%sMethod(%s, id%s);\n  else if (variant == 1) %se->Call%s%sMethodA(%s, id, w);\n  else if (variant == 2) %se->functions->Call%s%sMethod(e, %s, id%s);\n  else %svcall%s%s(e, %s, id%s);\n" % (
            asg, st, NM[r], tt, fa, asg, st, NM[r], tt, asg, st, NM[r], tt, fa, asg, st, NM[r], tt, fa))
        if r == "V":
            C.append("  outLast(e, out);\n}\n")
        else:
            C.append("  outValue(e, out, r);\n}\n" if r != "L" else "  outObject(e, out, r);\n}\n")
    C.append("const int upCount = %d;\n" % len(U))
    C.append("typedef void (*Up)(JNIEnv*, jobject, jmethodID, jlong*, jobject*, int, std::string&);\nstatic const Up ups[] = {%s};\n" % ", ".join("up%d" % u[0] for u in U))
    C.append("""void callUp(JNIEnv* e, int k, jobject t, jlong* v, jobject* o, int variant, int from, std::string& out)
{
  const char* cn = upMode[k] == 'i' && from == 0 ? "vp/JniIface" : from == 1 && upMode[k] != 's' ? "vp/JniDerived" : "vp/JniBase";
  jclass c = e->FindClass(upMode[k] == 's' ? "vp/JniBase" : cn);
  if (c == 0) return;
  char name[20];
  snprintf(name, sizeof(name), "u%d", k);
  jmethodID id = upMode[k] == 's' ? e->GetStaticMethodID(c, name, upDesc[k]) : e->GetMethodID(c, name, upDesc[k]);
  if (id == 0) return;
  ups[k](e, upMode[k] == 's' ? c : t, id, v, o, variant, out);
  e->DeleteLocalRef(c);
}
""")
    for k, s in enumerate(ctors):
        a = args(s)
        C.append("static jobject ctor%d(JNIEnv* e, jclass c, jlong* v, jobject* o, int variant)\n{\n  (void) v; (void) o;\n  jmethodID id = e->GetMethodID(c, \"<init>\", \"%s\");\n  if (id == 0) return 0;\n  jvalue w[%d];\n" % (k, desc(s, "V"), len(s) + 1))
        for i, c in enumerate(s):
            C.append("  w[%d].%s = %s;\n" % (i, FLD[c], a[i]))
        fa = "".join(", " + x for x in a)
        C.append("  return variant == 0 ? e->NewObject(c, id%s) : variant == 1 ? e->NewObjectA(c, id, w) : variant == 2 ? e->functions->NewObject(e, c, id%s) : vnew(e, c, id%s);\n}\n" % (fa, fa, fa))
    C.append("typedef jobject (*Ctor)(JNIEnv*, jclass, jlong*, jobject*, int);\nstatic const Ctor ctors[] = {%s};\n" % ", ".join("ctor%d" % k for k in range(len(ctors))))
    C.append("jobject callCtor(JNIEnv* e, int k, jclass c, jlong* v, jobject* o, int variant) { return ctors[k](e, c, v, o, variant); }\n")
    open(os.path.join(d, "jnisigs.cpp"), "w").write("".join(C))


main(sys.argv[1])
