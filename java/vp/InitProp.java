package vp;

import java.lang.reflect.Field;
import java.lang.reflect.Method;
import java.util.ArrayList;
import java.util.List;

/** Class initialization: generated classes whose initializers use each other and fail, used in every way. */
public class InitProp extends Prop {
  static final class T {
    int id;
    boolean itf;
    T sup;
    List<T> ifs = new ArrayList<T>();
    String name() { return "i/C" + id; }
    boolean sub(T o) { if (this == o) return true; if (sup != null && sup.sub(o)) return true; for (T i : ifs) if (i.sub(o)) return true; return false; }
  }
  static StringBuilder events = new StringBuilder();
  static int[] runs, ended;
  static ClassLoader loader;
  static boolean threads;
  static String[] desc;
  static int depth;

  // called by generated code
  public static void begin(int id) { synchronized (events) { ++runs[id]; if (!threads) events.append("<").append(id).append(' '); if (threads && ended[id] != 0) events.append("again " + id); } if (threads) Thread.yield(); }
  public static void end(int id) { synchronized (events) { if (!threads) events.append(id).append("> "); ended[id] = 1; } }
  public static int value(int v) { return v; }
  public static int field(int id, int v) { synchronized (events) { ++runs[id]; if (!threads) events.append("f").append(id).append(' '); ended[id] = 1; } return v; }
  public static void caught(Throwable t) { if (!threads) synchronized (events) { events.append("c:"); name(t); } }
  static void name(Throwable t) {
    events.append(t.getClass().getName());
    if (t instanceof ExceptionInInitializerError) { events.append('('); if (t.getCause() == null) events.append("null"); else name(t.getCause()); events.append(')'); }
    events.append(' ');
  }
  public static void boom(int k) throws Throwable {
    switch (k) {
      case 0: throw new IllegalStateException();
      case 1: throw new java.io.IOException();
      case 2: throw new OutOfMemoryError();
      case 3: throw new StackOverflowError();
      default: Object o = new String[1]; System.out.print(((Integer[]) o)[0]);
    }
  }
  static void used(Class c) throws Throwable { int n = events.length(); Class.forName(c.getName(), true, loader); if (!threads && events.length() != n) events.append("late "); }
  public static int reflect(String name, int how) throws Throwable {
    name = name.replace('/', '.');
    try {
      switch (how) {
        case 0: return Class.forName(name, true, loader).getName().length();
        case 1: return Class.forName(name, false, loader).getName().length();
        case 2: return loader.loadClass(name).getName().length();
        default:
          Class c = Class.forName(name, false, loader);
          switch (how) {
            case 3: return c.isInterface() ? 0 : c.newInstance() == null ? 1 : 2;
            // (on HotSpot a second Field.get on a class which failed to be initialized succeeds, hence "used")
            case 4: { int v = ((Integer) c.getDeclaredField("s").get(null)).intValue(); used(c); return v; }
            case 5: if (c.isInterface()) return 7; return ((Integer) c.getDeclaredMethod("m", new Class[0]).invoke(null, new Object[0])).intValue();
            case 6: return java.lang.reflect.Array.newInstance(c, 2).getClass().getName().length();
            // (on HotSpot this links the class, which fails after a failed initialization)
            case 7: return c.getModifiers();
            default: if (c.isInterface()) return 8; c.getDeclaredField("s").set(null, 5); used(c); return 9;
          }
      }
    } catch (java.lang.reflect.InvocationTargetException e) { throw e.getTargetException(); }
  }

  static final String P = "vp/InitProp";
  ClassGen.Code throwIf(ClassGen g, ClassGen.Code c, int k) { return c.op(16, k).op2(184, g.methodref(P, "boom", "(I)V")); }

  public void run(Src s, Out o) throws Throwable {
    threads = s.oneIn(4);
    int n = 2 + s.below(6);
    ClassGen.Loader l = new ClassGen.Loader();
    loader = l;
    List<T> ts = new ArrayList<T>();
    for (int i = 0; i < n; ++i) {
      T t = new T();
      t.id = i;
      t.itf = s.oneIn(4);
      for (T u : ts) {
        if (u.itf) { if (s.oneIn(3)) t.ifs.add(u); }
        else if (!t.itf && s.oneIn(2)) t.sup = u;
      }
      ts.add(t);
    }
    // ways to use a class, each a method of i/Trig
    int nt = 3 + s.below(14);
    ClassGen tg = new ClassGen(0x21, "i/Trig", "java/lang/Object", new String[0]);
    int[] target = new int[nt];
    desc = new String[nt];
    for (int k = 0; k < nt; ++k) {
      T t = ts.get(s.below(n));
      ClassGen.Code c = new ClassGen.Code();
      int kind = s.below(14);
      target[k] = t.id;
      // static fields and methods may be named through a subclass
      T via = t;
      if (kind == 8 || kind == 9) for (T u : ts) if (u.sub(t) && s.oneIn(2)) via = u;
      if (t.itf && (kind == 1 || kind == 2 || kind == 3 || kind == 9)) kind = 0;
      desc[k] = kind + "@" + t.id + (t.itf ? "i" : "") + "/" + via.id;
      switch (kind) {
        case 0: case 8: c.op2(178, tg.fieldref(via.name(), "s" + t.id, "I")); break;
        case 1: c.op(16, 40 + k).op(89).op2(179, tg.fieldref(t.name(), threads ? "w" : "s" + t.id, "I")); break;
        case 2: case 9: c.op2(184, tg.methodref(via.name(), "m" + t.id, "()I")); break;
        case 3: c.op2(187, tg.cls(t.name())).op(89).op2(183, tg.methodref(t.name(), "<init>", "()V")).op2(182, tg.methodref("java/lang/Object", "getClass", "()Ljava/lang/Class;")).op(87, 8); break;
        case 4: c.op2(178, tg.fieldref(t.name(), "c" + t.id, "I")); break;
        case 5: c.op(5).op2(189, tg.cls(t.name())).op(190); break;
        case 6: c.op2(184, tg.methodref(P, "object", "()Ljava/lang/Object;")).op2(193, tg.cls(t.name())); break;
        case 7: c.op2(19, tg.cls(t.name())).op2(182, tg.methodref("java/lang/Class", "getName", "()Ljava/lang/String;")).op2(182, tg.methodref("java/lang/String", "length", "()I")); break;
        case 10: c.op(1).op2(192, tg.cls(t.name())).op(87, 6); break;
        case 11: c.op(5, 5).op2(197, tg.cls("[[L" + t.name() + ";")).op(2).op(190); break;
        // a value set by another thread would depend on the schedule
        default: int how = s.below(threads ? 8 : 9); desc[k] += "." + how; c.op2(19, tg.str(t.name())).op(16, how).op2(184, tg.methodref(P, "reflect", "(Ljava/lang/String;I)I"));
      }
      if (kind == 11) { c = new ClassGen.Code(); c.op(5, 5).op2(197, tg.cls("[[L" + t.name() + ";")).op(2).op(190); }
      tg.method(9, "t" + k, "()I", c.op(172), 6, 2, null);
    }
    l.put("i.Trig", tg.done());
    for (T t : ts) {
      String[] ifs = new String[t.ifs.size()];
      for (int i = 0; i < ifs.length; ++i) ifs[i] = t.ifs.get(i).name();
      ClassGen g = new ClassGen(t.itf ? 0x601 : 0x21, t.name(), t.sup == null ? "java/lang/Object" : t.sup.name(), ifs);
      g.field(t.itf ? 0x19 : 9, "s" + t.id, "I", 0);
      g.field(0x19, "c" + t.id, "I", g.num(1000 + t.id));
      if (!t.itf) { g.field(9, "s", "I", 0); g.field(9, "w", "I", 0); }
      else g.field(0x19, "s", "I", g.num(77));
      if (!t.itf) {
        g.method(1, "<init>", "()V", new ClassGen.Code().op(42).op2(183, g.methodref(t.sup == null ? "java/lang/Object" : t.sup.name(), "<init>", "()V")).op(177), 4, 2, null);
        g.method(9, "m" + t.id, "()I", new ClassGen.Code().op2(178, g.fieldref(t.name(), "s" + t.id, "I")).op(172), 4, 2, null);
        g.method(9, "m", "()I", new ClassGen.Code().op2(178, g.fieldref(t.name(), "s", "I")).op(172), 4, 2, null);
      }
      if (t.itf || s.oneIn(6) == false) {
        ClassGen.Code c = new ClassGen.Code();
        if (!t.itf || s.bool()) c.op(16, t.id).op2(184, g.methodref(P, "begin", "(I)V"));
        int na = s.below(4);
        for (int a = 0; a < na; ++a) {
          int k = s.below(nt);
          if (s.oneIn(10)) { throwIf(g, c, s.below(5)); continue; }
          if (threads && (target[k] >= t.id)) continue;
          int from = c.pc();
          c.op2(184, g.methodref("i/Trig", "t" + k, "()I")).op(87);
          if (s.oneIn(3)) { int to = c.pc(); c.op(167, 0, 6); c.handler(from, to, c.pc(), 0); c.op2(184, g.methodref(P, "caught", "(Ljava/lang/Throwable;)V")); }
        }
        if (t.itf) c.op(16, t.id).op(16, 60 + t.id).op2(184, g.methodref(P, "field", "(II)I")).op2(179, g.fieldref(t.name(), "s" + t.id, "I"));
        else {
          c.op(16, 60 + t.id).op2(179, g.fieldref(t.name(), "s" + t.id, "I"));
          c.op(16, t.id).op2(184, g.methodref(P, "end", "(I)V"));
        }
        g.method(8, "<clinit>", "()V", c.op(177), 6, 2, null);
      }
      l.put("i.C" + t.id, g.done());
    }
    runs = new int[n];
    ended = new int[n];
    events = new StringBuilder();
    final Class trig = Class.forName("i.Trig", true, loader);
    // HotSpot does not link a class with an interface whose initialization has failed
    for (T t : ts) if (t.itf) { for (T u : ts) Class.forName(u.name().replace('/', '.'), false, loader).getDeclaredFields(); break; }
    if (!threads) {
      int uses = 2 + s.below(14);
      for (int k = 0; k < uses; ++k) {
        int q = s.below(nt);
        events.append(q).append(':');
        o.k(desc[q]);
        use(trig, q, o);
        o.k(events.toString()).nl();
        events.setLength(0);
      }
      for (int r : runs) o.i(r);
      o.nl();
    } else {
      int m = 2 + s.below(5), per = 1 + s.below(4);
      final int[][] plan = new int[m][per];
      for (int[] p : plan) for (int k = 0; k < per; ++k) p[k] = s.below(nt);
      if (System.getProperty("vp.show") != null) for (int[] p : plan) { for (int q : p) o.k(desc[q]); o.nl(); }
      final String[] seen = new String[m];
      final int[] gate = new int[1];
      Thread[] th = new Thread[m];
      for (int i = 0; i < m; ++i) {
        final int id = i;
        th[i] = new Thread() { public void run() {
          StringBuilder b = new StringBuilder();
          try {
            synchronized (gate) { ++gate[0]; gate.notifyAll(); while (gate[0] < plan.length) gate.wait(); }
            for (int q : plan[id]) {
              Out x = new Out();
              try {
                Method me = trig.getMethod("t" + q, new Class[0]);
                b.append(me.invoke(null, new Object[0])).append(' ');
              } catch (java.lang.reflect.InvocationTargetException e) {
                // which thread sees the first failure depends on the schedule
                Throwable t = e.getTargetException();
                if (System.getProperty("vp.show") != null) t.printStackTrace();
                b.append(t instanceof ExceptionInInitializerError || t instanceof NoClassDefFoundError || t instanceof Error ? "Error" : t.getClass().getName()).append(' ');
              }
            }
          } catch (Throwable t) { b.append("?" + t); }
          seen[id] = b.toString();
        } };
        th[i].setDaemon(true);
      }
      for (Thread t : th) t.start();
      boolean hung = false;
      for (Thread t : th) { t.join(20000); if (t.isAlive()) hung = true; }
      if (hung) o.k("HUNG").nl();
      // putstatic makes the values depend on the schedule: only those which were initialized are compared
      for (int i = 0; i < m; ++i) { String[] v = String.valueOf(seen[i]).split(" "); for (int k = 0; k < v.length; ++k) { int val; try { val = Integer.parseInt(v[k]); } catch (NumberFormatException e) { o.k(v[k]); continue; } o.k(val == 0 ? "0" : "v"); } o.nl(); }
      for (int r : runs) o.i(r);
      o.s(events.toString()).nl();
    }
    int done = 0;
    for (int r : runs) done += r;
    o.nontrivial = done > 1;
  }
  public static Object object() { return "x"; }

  void use(Class trig, int q, Out o) throws Throwable {
    try {
      Method me = trig.getMethod("t" + q, new Class[0]);
      o.o(me.invoke(null, new Object[0]));
    } catch (java.lang.reflect.InvocationTargetException e) { StringBuilder b = events; events = new StringBuilder(); name(e.getTargetException()); o.k(events.toString()); events = b; }
  }
}
