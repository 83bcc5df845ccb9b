package vp;

import java.util.ArrayList;
import java.util.List;

/** Linkage: code naming classes, fields and methods which are missing, appear later, are broken or are of another kind than expected. */
public class LinkProp extends Prop {
  static final class T {
    int id;
    boolean itf, abs;
    int state;      // 0 there, 1 missing, 2 comes later, 3 truncated, 4 of another name
    T sup;
    List<T> ifs = new ArrayList<T>();
    int[] field = new int[4], method = new int[4];   // 0 none, 1 instance, 2 static, 3 abstract (methods)
    byte[] bytes;
    String name() { return "l/C" + id; }
    boolean sub(T o) { if (this == o) return true; if (sup != null && sup.sub(o)) return true; for (T i : ifs) if (i.sub(o)) return true; return false; }
  }
  static ClassGen.Loader loader;
  static List<Object> made = new ArrayList<Object>();
  public static Object any() { return made.get(made.size() - 1); }
  public static void fail() { throw new IllegalStateException(); }
  static final String P = "vp/LinkProp";
  static final String FT = "Ll/C0;";

  static String ft(int v) { return v == 0 ? "I" : v == 1 ? "J" : v == 2 ? "Ljava/lang/Object;" : FT; }
  static String mt(int v) { return v == 3 ? "(" + FT + ")I" : v == 2 ? "(ILjava/lang/String;)I" : v == 1 ? "(J)I" : "()I"; }
  static ClassGen.Code margs(ClassGen.Code c, int v) { return v == 3 ? c.op(1) : v == 2 ? c.op(8, 1) : v == 1 ? c.op(10) : c; }
  static int mwidth(int v) { return v == 0 ? 0 : v == 3 ? 1 : 2; }
  /** makes an int of a field's value */
  static ClassGen.Code toInt(ClassGen g, ClassGen.Code c, int v) { return v == 0 ? c : v == 1 ? c.op(136) : c.op2(184, g.methodref(P, "num", "(Ljava/lang/Object;)I")); }
  static ClassGen.Code put(ClassGen g, ClassGen.Code c, int v, int k) { return v == 0 ? c.op(16, k) : v == 1 ? c.op(16, k).op(133) : c.op(1); }
  public static int num(Object o) { return o == null ? 0 : 1; }
  public static int called(int x) { return x; }

  static ClassGen.Code construct(ClassGen g, ClassGen.Code c, T y) { return c.op2(187, g.cls(y.name())).op(89).op2(183, g.methodref(y.name(), "<init>", "()V")); }

  public void run(Src s, Out o) throws Throwable {
    loader = new ClassGen.Loader();
    made.clear();
    made.add("x");
    int n = 2 + s.below(6);
    List<T> ts = new ArrayList<T>();
    // (a class may not have both a field or static method and an inherited one of an interface by the name)
    boolean[] stat = new boolean[4];
    for (int v = 0; v < 4; ++v) stat[v] = s.oneIn(3);
    for (int i = 0; i < n; ++i) {
      T t = new T();
      t.id = i;
      t.itf = s.oneIn(4);
      t.abs = !t.itf && s.oneIn(6);
      t.state = s.oneIn(3) ? 1 + s.below(2) : 0;
      for (T u : ts) {
        if (u.itf) { if (s.oneIn(3)) t.ifs.add(u); }
        else if (!t.itf && s.oneIn(2)) t.sup = u;
      }
      for (int v = 0; v < 4; ++v) {
        t.field[v] = t.itf ? (s.oneIn(3) ? 2 : 0) : s.below(3);
        t.method[v] = s.oneIn(3) ? 0 : stat[v] ? (t.itf ? 0 : 2) : t.itf || s.oneIn(t.abs ? 2 : 6) ? 3 : 1;
      }
      ts.add(t);
    }
    for (T t : ts) {
      String[] ifs = new String[t.ifs.size()];
      for (int i = 0; i < ifs.length; ++i) ifs[i] = t.ifs.get(i).name();
      String sup = t.sup == null ? "java/lang/Object" : t.sup.name();
      ClassGen g = new ClassGen(t.itf ? 0x601 : t.abs ? 0x421 : 0x21, t.state == 4 ? "l/Other" + t.id : t.name(), sup, ifs);
      for (int v = 0; v < 4; ++v) {
        if (t.field[v] != 0) g.field(t.itf ? 0x19 : t.field[v] == 2 ? 9 : 1, (t.itf ? "g" : "f") + v, ft(v), 0);
        int k = t.method[v];
        if (k == 3) g.method(0x401, "m" + v, mt(v), null, 0, 0, null);
        else if (k != 0) g.method(k == 2 ? 9 : 1, "m" + v, mt(v), new ClassGen.Code().op2(17, t.id * 10 + v + 100).op2(184, g.methodref(P, "called", "(I)I")).op(172), 4, 4, null);
      }
      if (!t.itf) g.method(1, "<init>", "()V", new ClassGen.Code().op(42).op2(183, g.methodref(sup, "<init>", "()V")).op(177), 4, 2, null);
      byte[] b = g.done();

      t.bytes = b;
      if (t.state != 1 && t.state != 2) loader.put("l.C" + t.id, b);
    }
    int nt = 4 + s.below(16);
    String[] desc = new String[nt];
    for (int k = 0; k < nt; ++k) {
      ClassGen g = new ClassGen(0x21, "l/T" + k, "java/lang/Object", new String[0]);
      int text = g.str("text");   // a small index for ldc
      ClassGen.Code c = new ClassGen.Code();
      T t = ts.get(s.below(n)), y = t;
      String f = s.oneIn(3) ? "g" : "f";
      int kind = s.below(18), v = s.below(4);
      for (T u : ts) if (!u.itf && u.sub(t) && s.oneIn(2)) y = u;
      if (y.itf && (kind == 2 || kind == 3 || kind == 5 || kind == 6)) kind = 7;
      if (kind == 17 && !t.itf) kind = 4;
      if (kind == 5 && t.itf) kind = 6;
      if (kind == 6 && !t.itf) kind = 5;
      desc[k] = kind + "@" + t.id + "s" + t.state + (t.itf ? "i" : t.abs ? "a" : "") + "/" + y.id + "." + v;
      c.op(26);                       // iload_0
      int at = c.pc();
      c.op(153, 0, 0);                // ifeq skip
      switch (kind) {
        case 0: toInt(g, c.op2(178, g.fieldref(t.name(), f + v, ft(v))), v); break;
        case 1: if (v == 2) v = 0; if (f.equals("g")) { toInt(g, c.op2(178, g.fieldref(t.name(), f + v, ft(v))), v); break; }
          put(g, c, v, 30 + k).op2(179, g.fieldref(t.name(), f + v, ft(v))); toInt(g, c.op2(178, g.fieldref(t.name(), f + v, ft(v))), v); break;
        case 2: toInt(g, construct(g, c, y).op2(180, g.fieldref(t.name(), f + v, ft(v))), v); break;
        case 3: if (v == 2) v = 0; put(g, construct(g, c, y).op(76, 43), v, 50 + k).op2(181, g.fieldref(t.name(), f + v, ft(v))); toInt(g, c.op(43).op2(180, g.fieldref(t.name(), f + v, ft(v))), v); break;
        case 4: margs(c, v).op2(184, g.methodref(t.name(), "m" + v, mt(v))); break;
        case 5: margs(construct(g, c, y), v).op2(182, g.methodref(t.name(), "m" + v, mt(v))); break;
        case 6: margs(construct(g, c, y), v).op2(185, g.imethodref(t.name(), "m" + v, mt(v))).op(2 + mwidth(v) - 1, 0); break;
        case 7: c.op2(184, g.methodref(P, "any", "()Ljava/lang/Object;")).op2(193, g.cls(t.name())); break;
        case 8: c.op2(184, g.methodref(P, "any", "()Ljava/lang/Object;")).op2(192, g.cls(t.name())).op(87, 6); break;
        case 9: c.op(5).op2(189, g.cls(t.name())).op(190); break;
        case 10: c.op(5, 6).op2(197, g.cls("[[L" + t.name() + ";")).op(2).op(190); break;
        case 11: c.op2(19, g.cls(t.name())).op2(182, g.methodref("java/lang/Object", "hashCode", "()I")).op(3, 126); break;
        case 12: { int from = c.pc(); c.op2(184, g.methodref(P, "fail", "()V")); int to = c.pc(); c.op(4).op(167, 0, 5); int h = c.pc(); c.op(87, 5); c.handler(from, to, h, g.cls(t.name())); break; }
        case 13: construct(g, c, y).op2(184, g.methodref(P, "num", "(Ljava/lang/Object;)I")); break;
        case 14: c.op(1).op2(193, g.cls(t.name())); break;
        case 15: c.op(1).op2(192, g.cls(t.name())).op(87, 7); break;
        case 17: margs(c.op2(184, g.methodref(P, "any", "()Ljava/lang/Object;")), v).op2(185, g.imethodref(t.name(), "m" + v, mt(v))).op(2 + mwidth(v) - 1, 0); break;
        default: c.op2(187, g.cls(t.name())).op(87, 8);
      }
      int skip = c.pc() + 3;
      c.op(167, 0, 5).op(16, 99);     // goto end; skip: 99
      c.b[at + 1] = (byte) (skip - at >> 8); c.b[at + 2] = (byte) (skip - at);
      g.method(9, "t", "(I)I", c.op(172), 8, 4, null);
      loader.put("l.T" + k, g.done());
    }
    boolean[] failed = new boolean[nt], dead = new boolean[nt];
    int uses = 4 + s.below(20), errors = 0;
    for (int i = 0; i < uses; ++i) {
      if (s.oneIn(6)) {
        T t = ts.get(s.below(n));
        if (t.state == 2) {
          t.state = 0;
          loader.put("l.C" + t.id, t.bytes);
          o.k("add" + t.id).nl();
          // a reference which failed to be resolved keeps failing, in Avian it may succeed
          for (int k = 0; k < nt; ++k) dead[k] |= failed[k];
        }
        continue;
      }
      int k = s.below(nt);
      if (dead[k]) continue;
      int go = s.oneIn(3) ? 0 : 1;
      o.i(k).k(desc[k]).i(go);
      try {
        Class c = Class.forName("l.T" + k, true, loader);
        try { o.o(c.getMethod("t", new Class[] {Integer.TYPE}).invoke(null, new Object[] {Integer.valueOf(go)})); }
        catch (java.lang.reflect.InvocationTargetException e) { failed[k] = true; ++errors; String e1 = e.getTargetException().getClass().getName();
          // on HotSpot the failure to find the class of a handler replaces the exception
          if (desc[k].startsWith("12@") && e1.endsWith(".IllegalStateException")) e1 = "java.lang.NoClassDefFoundError";
          o.k(e1); if (System.getProperty("vp.show") != null) e.getTargetException().printStackTrace(); }
      } catch (Throwable e) { o.k("?").ex(e); }
      o.nl();
    }
    o.nontrivial = errors > 0;
  }
}
