"""Generates call sites of lambda expressions and method references of many shapes: gen_lambda.py OUTDIR"""
import os, random, sys
R = random.Random(4711)
JT = dict(Z="boolean", B="byte", C="char", S="short", I="int", J="long", F="float", D="double", L="Object", T="String", V="void", N="Integer", M="Long", Y="Double", X="Character", W="Boolean", O="Byte", P="Short", Q="Float")
BOX = dict(Z="W", B="O", C="X", S="P", I="N", J="M", F="Q", D="Y")
UNBOX = dict((v, k) for k, v in BOX.items())
PRIM = "ZBCSIJFD"
REFS = "LTNMYXWOPQ"
WIDER = dict(B="SIJFD", S="IJFD", C="IJFD", I="JFD", J="FD", F="D", Z="", D="")


def val(t):
    return "LambdaProp.any%s(s)" % {"L": "Object", "T": "String"}.get(t, JT[t].capitalize() if t in PRIM else "Boxed" + JT[t])


def types(n, alpha=PRIM + REFS):
    return [R.choice(alpha) for _ in range(n)]


def mix(names, start):
    t = "long h = %dL; " % start
    for n in names:
        t += "h = h * 31 + LambdaProp.key(%s); " % n
    return t + "LambdaProp.note(h); "


def ret(r):
    if r == "V":
        return ""
    return "return LambdaProp.to%s(h);" % {"L": "Object", "T": "String"}.get(r, JT[r].capitalize() if r in PRIM else "Boxed" + JT[r])


def adapt(t):
    """a type an implementation may take where the interface gives t"""
    c = [t, t]
    if t in PRIM:
        c += [BOX[t], "L"] + list(WIDER[t])
    elif t in UNBOX:
        c += [UNBOX[t], "L"] + list(WIDER[UNBOX[t]])
    elif t == "T":
        c += ["L"]
    return R.choice(c)


def adapt_ret(t):
    """a type an implementation may return where the interface wants t"""
    if t == "V":
        return R.choice("V" + PRIM + REFS)
    c = [t, t]
    for u in PRIM:
        if t in WIDER[u]:
            c.append(u)
    if t in PRIM:
        c += [BOX[t]]
        c += [BOX[u] for u in PRIM if t in WIDER[u]]
    elif t in UNBOX:
        c += [UNBOX[t]]
    elif t == "L":
        c += list(PRIM + REFS)
    return R.choice(c)


def params(ts, pre="a"):
    return ", ".join("%s %s%d" % (JT[t], pre, i) for i, t in enumerate(ts))


def boxed(t):
    return BOX.get(t, t)


def main(d):
    n = 420
    top, body = [], []
    for k in range(n):
        kind = R.choice(["lambda", "lambda", "this", "static", "bound", "unbound", "ctor", "iface", "array", "super", "private", "nested", "local", "default"])
        ps = types(R.choice([0, 1, 1, 2, 2, 3, 4, 6]))
        r = R.choice("VVZBCSIJFDLTN")
        caps = types(R.choice([0, 0, 1, 1, 2, 3, 5, 8]))
        generic = R.random() < .35
        thrower = R.random() < .2
        if kind == "array":
            ps, r, generic = ["I"], "L", False
        cls = "C%d" % k
        # the interface
        if kind in ("unbound",):
            ps = ["self"] + ps
        pt = [cls if p == "self" else (JT[boxed(p)] if generic else JT[p]) for p in ps]
        eff = [p if p == "self" else (boxed(p) if generic else p) for p in ps]
        rt = r if not generic or r == "V" else boxed(r)
        extra = R.choice(["", "", "", " default int twice(int x) { return x * 2 + %d; }" % k, " static int st() { return %d; }" % k])
        if generic and pt:
            tv = ["A%d" % i for i in range(len(pt))]
            I = "interface F%d<%s%s> { %s f(%s);%s }" % (k, ", ".join(tv), ", R" if r != "V" else "", "R" if r != "V" else "void", ", ".join("%s a%d" % (t, i) for i, t in enumerate(tv)), extra)
            ft = "F%d<%s>" % (k, ", ".join(pt + ([JT[rt]] if r != "V" else [])))
        else:
            if not pt:
                rt = r
            I = "interface F%d { %s f(%s);%s }" % (k, JT[rt], ", ".join("%s a%d" % (t, i) for i, t in enumerate(pt)), extra)
            ft = "F%d" % k
        top.append("  " + I)
        if R.random() < .15 and not generic:
            top.append("  interface H%d extends F%d { }" % (k, k))
            ft = "H%d" % k
        bridge = generic and pt and R.random() < .35 and kind != "ctor"
        if bridge:
            # an interface which overrides the method with its own types: the lambda needs a bridge
            top.append("  interface H%d extends %s { %s f(%s); }" % (k, ft, JT[rt] if r != "V" else "void", ", ".join("%s a%d" % (t, i) for i, t in enumerate(pt))))
            ft = "H%d" % k
        capn = ["c%d" % i for i in range(len(caps))]
        pn = ["a%d" % i for i in range(len(ps))]
        decl = " ".join("final %s %s = %s;" % (JT[t], nm, val(t)) for nm, t in zip(capn, caps))
        bomb = "LambdaProp.bomb(h); " if thrower else ""
        mem = []
        ipt = [p if p == "self" else adapt(p) for p in eff]
        ir = adapt_ret(rt)
        iparams = lambda ts, pre="a": ", ".join("%s %s%d" % (JT[t], pre, i) for i, t in enumerate(ts))
        names = lambda ts: ["a%d" % i for i in range(len(ts))]
        pre = ""
        if kind in ("lambda", "nested", "local", "default"):
            inner = mix(capn + pn, k)
            if kind == "nested":
                inner = "LambdaProp.Run q = () -> { %sLambdaProp.note(h + 1); }; q.run(); " % mix(capn + pn, k + 7) + inner
            if kind == "local":
                inner = "class Loc { long g() { return %s; } } " % (" + ".join(["LambdaProp.key(%s)" % x for x in capn + pn] or ["3L"])) + inner + "h += new Loc().g(); "
            expr = "(%s) -> { %s%s%s }" % (", ".join(pn), inner, bomb, ret(rt))
        elif kind == "this":
            pre = ""
            mem.append("final %s make(%s) { return (%s) -> { %s%s%s }; }" % (ft, params(caps, "c"), ", ".join(pn), mix(["id"] + capn + pn, k), bomb, ret(rt)))
            expr = "new %s(s.below(1000), 0, 0).make(%s)" % (cls, ", ".join(capn))
        elif kind == "static":
            mem.append("static %s impl(%s) { %s%s%s }" % (JT[ir], iparams(ipt), mix(names(ipt), k), bomb, ret(ir)))
            expr = "%s::impl" % cls
        elif kind in ("bound", "private"):
            mem.append("%s%s impl(%s) { %s%s%s }" % ("private " if kind == "private" else "", JT[ir], iparams(ipt), mix(["id"] + names(ipt), k), bomb, ret(ir)))
            mem.append("final %s make() { return %s; }" % (ft, "this::impl"))
            if kind == "private" or R.random() < .3:
                expr = "new %s(s.below(1000), 0, 0).make()" % cls
            else:
                decl += " %s x = s.oneIn(8) ? null : s.bool() ? new %s(s.below(1000), 0, 0) : new S%d(s.below(1000));" % (cls, cls, k)
                top.append("  static class S%d extends %s { S%d(int i) { super(i, 0, 0); } %s impl(%s) { %s%s%s } }" % (k, cls, k, JT[ir], iparams(ipt), mix(["id"] + names(ipt), k + 5000), bomb, ret(ir)))
                expr = "x::impl"
        elif kind == "unbound":
            ts = ipt[1:]
            mem.append("%s impl(%s) { %s%s%s }" % (JT[ir], iparams(ts), mix(["id"] + names(ts), k), bomb, ret(ir)))
            expr = "%s::impl" % cls
        elif kind == "iface":
            top.append("  interface J%d { %s impl(%s); }" % (k, JT[ir], iparams(ipt)))
            top.append("  static class K%d implements J%d { public %s impl(%s) { %s%s%s } }" % (k, k, JT[ir], iparams(ipt), mix(names(ipt), k), bomb, ret(ir)))
            decl += " J%d x = s.oneIn(8) ? null : new K%d();" % (k, k)
            expr = "x::impl"
        elif kind == "super":
            top.append("  static class B%d { int id; %s impl(%s) { %s%s%s } }" % (k, JT[ir], iparams(ipt), mix(["id"] + names(ipt), k), bomb, ret(ir)))
            mem.append("%s impl(%s) { %s%s }" % (JT[ir], iparams(ipt), mix(names(ipt), k + 99), ret(ir)))
            mem.append("final %s make() { return super::impl; }" % ft)
            expr = "new %s(s.below(1000), 0, 0).make()" % cls
        elif kind == "ctor":
            # the constructed class is the result
            ts = [p for p in ipt]
            top.append("  static class D%d { long v; D%d(%s) { %sthis.v = h; %s} }" % (k, k, iparams(ts), mix(names(ts), k), bomb))
            expr = "D%d::new" % k
        elif kind == "array":
            expr = R.choice(["int[]::new", "String[]::new", "long[][]::new"])
        # the result of a constructor is an object of its class
        if kind == "ctor":
            top[-1], last = top[-1], top[-1]
            for i in range(len(top) - 1, -1, -1):
                if top[i].startswith("  interface F%d" % k):
                    if generic and pt:
                        tv = ["A%d" % i for i in range(len(pt))]
                        top[i] = "  interface F%d<%s, R> { R f(%s); }" % (k, ", ".join(tv), ", ".join("%s a%d" % (t, j) for j, t in enumerate(tv)))
                        ft = "F%d<%s>" % (k, ", ".join(pt + [R.choice(["D%d" % k, "Object"])]))
                    else:
                        top[i] = "  interface F%d { %s f(%s); }" % (k, R.choice(["D%d" % k, "Object", "void"]), ", ".join("%s a%d" % (t, j) for j, t in enumerate(pt)))
                        ft = ft if ft.startswith("H") else "F%d" % k
                        if " void f(" in top[i]:
                            rt = "V"
                    break
            if rt == "V" and not (not (generic and pt) and " void f(" in top[i]):
                rt = "L"
            elif rt != "V":
                rt = "L"
                if " void f(" in top[i]:
                    rt = "V"
            extra = ""
        top.append("  static class %s%s { %s%s(int id, int x, int y) { this.id = id; } %s }" % (cls, " extends B%d" % k if kind == "super" else "", "" if kind == "super" else "int id; ", cls, " ".join(mem)))
        argv = []
        for i, p in enumerate(ps):
            if p == "self":
                argv.append("s.oneIn(8) ? null : new %s(s.below(1000), 0, 0)" % cls)
            elif p == "I" and kind == "array":
                argv.append("s.below(9) - 1")
            elif generic and p in PRIM:
                argv.append("(%s) %s" % (JT[boxed(p)], val(boxed(p))))
            else:
                argv.append(val(p))
        lam = R.random() < .2 and kind in ("lambda", "static") and not generic
        create = "%s f = %s%s;" % (ft, "(%s & java.io.Serializable) " % ft if lam and R.random() < .5 else "(%s & LambdaProp.Mark) " % ft if lam else "", expr)
        call = "f.f(%s)" % ", ".join(argv)
        if bridge and R.random() < .7:
            call = "((F%d) f).f(%s)" % (k, ", ".join(argv))
        if rt != "V":
            call = "o.i(LambdaProp.key(%s));" % call
        else:
            call += ";"
        more = ""
        if "twice" in extra:
            more = "o.i(f.twice(s.below(100)));"
        if " st()" in extra:
            more = "o.i(F%d.st());" % k
        if lam:
            more += " o.z(f instanceof LambdaProp.Mark).z(f instanceof java.io.Serializable);"
        body.append("  // %s\n  static void c%d(Src s, Out o) {\n    %s\n    %s\n    for (int i = 0; i < 2; ++i) { try { %s } catch (RuntimeException e) { o.ex(e); } o.i(LambdaProp.noted()); }\n    %s\n  }" % (kind, k, decl, create, call, more))
    with open(os.path.join(d, "LambdaSites.java"), "w") as f:
        f.write("package vp;\npublic class LambdaSites {\n  static final int N = %d;\n" % n)
        f.write("\n".join(top + body))
        f.write("\n  static void go(int k, Src s, Out o) {\n    switch (k) {\n" + "".join("      case %d: c%d(s, o); break;\n" % (k, k) for k in range(n)) + "    }\n  }\n}\n")


main(sys.argv[1])
