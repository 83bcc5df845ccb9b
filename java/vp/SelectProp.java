package vp;

import java.util.ArrayList;
import java.util.List;

/** Which method a call runs: generated hierarchies of classes and interfaces in several packages, called in every way. */
public class SelectProp extends Prop {
  static final String[] NAME = {"a", "a", "b", "b", "c", "d", "d"};
  static final String[] SPEC = {"()I", "(I)I", "()I", "()Ljava/lang/Object;", "()I", "()I", "(I)I"};
  static final int SIGS = NAME.length, CLASS_ONLY = 4;
  static final int PUBLIC = 1, PRIVATE = 2, PROTECTED = 4, STATIC = 8, ABSTRACT = 1024;

  static final class T {
    int id, pkg;
    boolean itf, abs;
    T sup;
    List<T> ifs = new ArrayList<T>();
    int[] flags = new int[SIGS];
    String name() { return (pkg == 0 ? "pa/" : "pb/") + (itf ? "I" : "C") + id; }
    boolean sub(T o) { if (this == o) return true; if (sup != null && sup.sub(o)) return true; for (T i : ifs) if (i.sub(o)) return true; return false; }
    void all(List<T> l) { for (T i : ifs) { if (!l.contains(i)) l.add(i); i.all(l); } if (sup != null) sup.all(l); }
    boolean declares(int m) { return flags[m] != -1; }
  }
  /** the declaration a reference resolves to, or null */
  static T resolve(T o, int m) {
    for (T c = o; c != null; c = c.sup) if (c.declares(m)) return c;
    List<T> l = new ArrayList<T>();
    o.all(l);
    List<T> max = new ArrayList<T>();
    for (T i : l) if (i.declares(m) && (i.flags[m] & (PRIVATE | STATIC)) == 0) {
      boolean over = false;
      for (T j : l) if (j != i && j.sub(i) && j.declares(m) && (j.flags[m] & (PRIVATE | STATIC)) == 0) over = true;
      if (!over) max.add(i);
    }
    return max.isEmpty() ? null : max.get(0);
  }
  static boolean visible(T from, T decl, int m) {
    int f = decl.flags[m];
    if ((f & PUBLIC) != 0) return true;
    if ((f & PRIVATE) != 0) return from == decl;
    return from.pkg == decl.pkg;
  }
  static void body(Src s, ClassGen g, T t, int m, int id, ClassGen.Code c) {
    // the identity of the method, and perhaps what a super call gives
    int how = s.below(4);
    boolean done = false;
    if (how == 0 && t.sup != null) {
      T up = t.sup;
      while (up.sup != null && s.oneIn(4)) up = up.sup;
      T r = resolve(up, m);
      if (r != null && (r.flags[m] & (STATIC | PRIVATE)) == 0 && visible(t, r, m)) {
        T first = resolve(t.sup, m);
        if (first != null && (first.flags[m] & (STATIC | PRIVATE)) == 0 && visible(t, first, m)) {
          call(g, c, 183, up, m, false);
          done = true;
        }
      }
    } else if (how == 1 && !t.ifs.isEmpty()) {
      T up = t.ifs.get(s.below(t.ifs.size()));
      T r = resolve(up, m);
      if (r != null && (r.flags[m] & (STATIC | PRIVATE)) == 0) {
        call(g, c, 183, up, m, true);
        done = true;
      }
    } else if (how == 2) {
      // another method of the same object
      int o = s.below(SIGS);
      T r = resolve(t, o);
      if (r != null && o < m && (r.flags[o] & STATIC) == 0 && visible(t, r, o)) {
        boolean priv = (r.flags[o] & PRIVATE) != 0;
        if (!priv || !t.itf) {
          c.op(42);
          if (SPEC[o].startsWith("(I")) c.op(6);
          int k = t.itf ? g.imethodref(t.name(), NAME[o], SPEC[o]) : g.methodref(t.name(), NAME[o], SPEC[o]);
          if (priv) c.op2(183, k);
          else if (t.itf) c.op2(185, k).op(SPEC[o].startsWith("(I") ? 2 : 1, 0);
          else c.op2(182, k);
          if (!SPEC[o].endsWith("I")) c.op2(184, g.methodref("vp/SelectProp", "num", "(Ljava/lang/Object;)I"));
          c.op2(18 + 1, g.num(id));
          c.op2(184, g.methodref("vp/SelectProp", "mix", "(II)I"));
          if (!SPEC[m].endsWith("I")) c.op2(184, g.methodref("vp/SelectProp", "obj", "(I)Ljava/lang/Object;"));
          c.ret(SPEC[m].endsWith("I") ? 'I' : 'L');
          return;
        }
      }
    }
    c.op2(19, g.num(id));
    if (done) {
      if (!SPEC[m].endsWith("I")) { c.op(95).op2(184, g.methodref("vp/SelectProp", "num", "(Ljava/lang/Object;)I")); }
      c.op2(184, g.methodref("vp/SelectProp", "mix", "(II)I"));
    }
    if (SPEC[m].startsWith("(I") && (t.flags[m] & STATIC) == 0) { c.op(27); c.op2(184, g.methodref("vp/SelectProp", "mix", "(II)I")); }
    if (!SPEC[m].endsWith("I")) c.op2(184, g.methodref("vp/SelectProp", "obj", "(I)Ljava/lang/Object;"));
    c.ret(SPEC[m].endsWith("I") ? 'I' : 'L');
  }
  static void call(ClassGen g, ClassGen.Code c, int op, T owner, int m, boolean itf) {
    c.op(42);
    if (SPEC[m].startsWith("(I")) c.op(27);
    c.op2(op, itf ? g.imethodref(owner.name(), NAME[m], SPEC[m]) : g.methodref(owner.name(), NAME[m], SPEC[m]));
  }
  public static int mix(int a, int b) { return a * 31 + b; }
  public static Object obj(int a) { return Integer.valueOf(a); }
  public static int num(Object a) { return ((Integer) a).intValue() + 5; }

  public void run(Src s, Out o) throws Throwable {
    int ni = s.below(6), nc = 2 + s.below(6), ids = 0;
    int packages = s.bool() ? 1 : 2;
    boolean statics = s.oneIn(4);
    List<T> its = new ArrayList<T>(), cs = new ArrayList<T>(), all = new ArrayList<T>();
    for (int k = 0; k < ni + nc; ++k) {
      T t = new T();
      t.id = k;
      t.pkg = s.below(packages);
      t.itf = cs.isEmpty() ? its.size() < ni && !s.oneIn(4) : its.size() < ni && s.oneIn(3);
      if (!t.itf && !cs.isEmpty() && !s.oneIn(4)) t.sup = cs.get(cs.size() - 1 - Math.min(s.below(cs.size()), s.below(cs.size())));
      t.abs = !t.itf && s.oneIn(4);
      int n = its.isEmpty() ? 0 : s.below(4);
      for (int j = 0; j < n; ++j) { T i = its.get(s.below(its.size())); if (!t.ifs.contains(i)) t.ifs.add(i); }
      for (int m = 0; m < SIGS; ++m) {
        t.flags[m] = -1;
        if (!s.oneIn(3) && !(t.itf && s.oneIn(3)) ) continue;
        if (t.itf) {
          if (m >= CLASS_ONLY) continue;
          t.flags[m] = PUBLIC | (s.oneIn(3) ? ABSTRACT : 0);
        } else if (m < CLASS_ONLY) {
          t.flags[m] = PUBLIC | (t.abs && s.oneIn(4) ? ABSTRACT : 0);
        } else {
          int f = new int[] {0, 0, 0, PUBLIC, PUBLIC, PROTECTED, PRIVATE}[s.below(7)];
          if (statics && s.oneIn(4)) f |= STATIC;
          else if (t.abs && f != PRIVATE && s.oneIn(4)) f |= ABSTRACT;
          // a weaker access than the method it overrides is not a legal program
          T up = t.sup == null ? null : resolve(t.sup, m);
          if (up != null && (up.flags[m] & PUBLIC) != 0 && (f & (PRIVATE | STATIC)) == 0) f = f & ~PROTECTED | PUBLIC;
          if (up != null && (up.flags[m] & PROTECTED) != 0 && (f & (PRIVATE | STATIC | PUBLIC)) == 0) f |= PROTECTED;
          t.flags[m] = f;
        }
      }
      (t.itf ? its : cs).add(t);
      all.add(t);
    }
    // the call sites
    int calls = 4 + s.below(12);
    ClassGen.Loader loader = new ClassGen.Loader();
    int[] site = new int[calls], recv = new int[calls];
    boolean[] arg = new boolean[calls];
    String[] desc = new String[calls];
    int used = 0;
    ClassGen[] gens = new ClassGen[all.size()];
    for (int k = 0; k < all.size(); ++k) {
      T t = all.get(k);
      String[] in = new String[t.ifs.size()];
      for (int i = 0; i < in.length; ++i) in[i] = t.ifs.get(i).name();
      String sup = t.sup == null ? "java/lang/Object" : t.sup.name();
      ClassGen g = gens[k] = new ClassGen(t.itf ? 0x601 : 0x21 | (t.abs ? ABSTRACT : 0), t.name(), sup, in);
      g.version = 52;
      if (!t.itf) {
        ClassGen.Code c = new ClassGen.Code();
        c.op(42).op2(183, g.methodref(sup, "<init>", "()V")).op(177);
        g.method(1, "<init>", "()V", c, 2, 1, null);
      }
      for (int m = 0; m < SIGS; ++m) {
        if (t.flags[m] == -1) continue;
        ++ids;
        if ((t.flags[m] & ABSTRACT) != 0) { g.method(t.flags[m], NAME[m], SPEC[m], null, 0, 0, null); continue; }
        ClassGen.Code c = new ClassGen.Code();
        if ((t.flags[m] & STATIC) != 0) c.op2(19, g.num(ids)).op(172);
        else body(s, g, t, m, ids, c);
        g.method(t.flags[m], NAME[m], SPEC[m], c, 4, 2, null);
      }
    }
    for (int k = 0; k < calls; ++k) {
      T from = cs.get(s.below(cs.size()));
      T r = cs.get(s.below(cs.size()));
      List<T> owners = new ArrayList<T>();
      for (T t : all) if (r.sub(t)) owners.add(t);
      T owner = owners.get(s.below(owners.size()));
      int m = s.below(SIGS);
      T decl = resolve(owner, m);
      if (r.abs || decl == null || !visible(from, decl, m)) continue;
      if ((decl.flags[m] & PRIVATE) != 0) continue;
      boolean st = (decl.flags[m] & STATIC) != 0;
      ClassGen g = gens[all.indexOf(from)];
      ClassGen.Code c = new ClassGen.Code();
      boolean one = SPEC[m].startsWith("(I");
      if (st) {
        if (one) c.op(27);
        c.op2(184, g.methodref(owner.name(), NAME[m], SPEC[m]));
      } else {
        c.op(42).op2(192, g.cls(owner.name()));
        if (one) c.op(27);
        if (owner.itf) c.op2(185, g.imethodref(owner.name(), NAME[m], SPEC[m])).op(one ? 2 : 1, 0);
        else c.op2(182, g.methodref(owner.name(), NAME[m], SPEC[m]));
      }
      if (!SPEC[m].endsWith("I")) c.op2(184, g.methodref("vp/SelectProp", "num", "(Ljava/lang/Object;)I"));
      c.op(172);
      g.method(9, "call" + used, "(Ljava/lang/Object;I)I", c, 3, 2, null);
      site[used] = all.indexOf(from);
      recv[used] = all.indexOf(r);
      desc[used] = from.name() + ": " + owner.name() + "." + NAME[m] + SPEC[m] + " on " + r.name();
      ++used;
    }
    for (int k = 0; k < all.size(); ++k) loader.put(all.get(k).name().replace('/', '.'), gens[k].done());
    if (System.getProperty("vp.dump") != null)
      for (T t : all) {
        String d = t.name() + (t.abs ? " abstract" : "") + " extends " + (t.sup == null ? "-" : t.sup.name());
        for (T i : t.ifs) d += " " + i.name();
        for (int m = 0; m < SIGS; ++m) if (t.flags[m] != -1) d += " " + NAME[m] + SPEC[m] + Integer.toHexString(t.flags[m]);
        System.out.println(d);
      }
    int sum = 0;
    for (int round = 0; round < 2; ++round)
      for (int k = 0; k < used; ++k) {
        o.k(desc[k]);
        try {
          Object r = Class.forName(all.get(recv[k]).name().replace('/', '.'), true, loader).newInstance();
          Class<?> c = Class.forName(all.get(site[k]).name().replace('/', '.'), true, loader);
          try { o.i(((Integer) c.getMethod("call" + k, Object.class, int.class).invoke(null, r, Integer.valueOf(k))).intValue()); }
          catch (java.lang.reflect.InvocationTargetException e) { throw e.getTargetException(); }
          ++sum;
        } catch (IncompatibleClassChangeError e) { o.k(e instanceof NoSuchMethodError ? "!none" : "!icce"); }
        catch (Throwable e) { o.ex(e); }
        o.nl();
      }
    o.nontrivial = sum > 4 && all.size() > 4;
  }
}
