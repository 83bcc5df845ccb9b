package vp;

import java.lang.reflect.*;
import java.util.ArrayList;
import java.util.HashMap;
import java.util.List;

/** C13: reflection and proxies over generated classes. */
public class ReflProp extends Prop {
  static final String[] PT = {"I", "J", "Z", "B", "S", "C", "F", "D", "Ljava/lang/String;", "Ljava/lang/Object;", "[I", "[Ljava/lang/Object;"};
  static final Class[] PC = {int.class, long.class, boolean.class, byte.class, short.class, char.class, float.class, double.class,
                             String.class, Object.class, int[].class, Object[].class};

  static final class M { String owner, name, spec; int acc; }
  static final class F { String owner, name, spec; int acc; }
  static final class T {
    String name, sup;
    String[] ifs;
    int acc;
    boolean itf, abs;
    List<M> ms = new ArrayList<M>(), cs = new ArrayList<M>();
    List<F> fs = new ArrayList<F>();
  }

  List<T> ts;
  ClassGen.Loader loader;
  List<Class> types;
  List<Object> objs;

  String spec(Src s, int before) {
    if (before > 0 && s.oneIn(5)) return "Lg/" + ts.get(s.below(before)).name + ";";
    return PT[s.below(PT.length)];
  }

  static List<String> params(String d) {
    List<String> r = new ArrayList<String>();
    int i = 1;
    while (d.charAt(i) != ')') {
      int j = i;
      while (d.charAt(j) == '[') ++j;
      if (d.charAt(j) == 'L') j = d.indexOf(';', j);
      r.add(d.substring(i, j + 1));
      i = j + 1;
    }
    return r;
  }

  static ClassGen.Code body(ClassGen g, Src s, M m, T t, boolean stat) {
    ClassGen.Code c = new ClassGen.Code();
    List<String> ps = params(m.spec);
    String ret = m.spec.substring(m.spec.indexOf(')') + 1);
    if (s.oneIn(8)) {
      String e = new String[] {"java/lang/IllegalStateException", "java/lang/Exception", "java/lang/StackOverflowError"}[s.below(3)];
      return c.op2(187, g.cls(e)).op(89).op2(183, g.methodref(e, "<init>", "()V")).op(191);
    }
    int k = stat ? 0 : 1;
    int[] at = new int[ps.size()];
    for (int i = 0; i < at.length; ++i) { at[i] = k; k += ClassGen.width(ps.get(i).charAt(0)); }
    // store parameters to fields of the same type
    for (int i = 0; i < at.length; ++i) {
      for (F f : t.fs) {
        if (f.spec.equals(ps.get(i)) && (f.acc & 16) == 0 && s.bool()) {
          char ch = f.spec.charAt(0);
          if ((f.acc & 8) != 0) c.load(ch, at[i]).op2(179, g.fieldref("g/" + t.name, f.name, f.spec));
          else if (!stat) c.op(42).load(ch, at[i]).op2(181, g.fieldref("g/" + t.name, f.name, f.spec));
          break;
        }
      }
    }
    char r = ret.charAt(0);
    if (r == 'V') return c.op(177);
    List<Integer> ok = new ArrayList<Integer>();
    for (int i = 0; i < at.length; ++i) if (ps.get(i).equals(ret)) ok.add(i);
    if (ok.size() > 0) return c.load(r, at[ok.get(s.below(ok.size())).intValue()]).ret(r);
    if (r == 'J') c.op(10); else if (r == 'F') c.op(13); else if (r == 'D') c.op(15);
    else if (r == 'L' || r == '[') c.op(1); else if (r == 'Z') c.op(4); else c.op(8);
    return c.ret(r);
  }

  void make(Src s) throws Throwable {
    ts = new ArrayList<T>();
    loader = new ClassGen.Loader();
    int n = 2 + s.below(4);
    for (int i = 0; i < n; ++i) {
      T t = new T();
      t.name = "T" + i;
      t.itf = s.oneIn(3);
      t.abs = t.itf || s.oneIn(6);
      t.acc = 1 | (t.itf ? 0x600 : 0x20 | (t.abs ? 0x400 : 0));
      t.sup = "java/lang/Object";
      List<String> ifs = new ArrayList<String>();
      List<T> inh = new ArrayList<T>();
      for (T u : ts) {
        if (u.itf) { if (s.oneIn(3)) { ifs.add("g/" + u.name); inh.add(u); } }
        else if (!t.itf && t.sup.equals("java/lang/Object") && s.bool()) { t.sup = "g/" + u.name; inh.add(u); }
      }
      t.ifs = ifs.toArray(new String[ifs.size()]);
      ClassGen g = new ClassGen(t.acc, "g/" + t.name, t.sup, t.ifs);
      int nf = s.below(5);
      for (int k = 0; k < nf; ++k) {
        F f = new F();
        f.owner = t.name;
        f.name = "f" + (s.oneIn(4) ? k : i * 10 + k);
        f.spec = spec(s, i);
        f.acc = t.itf ? 0x19 : new int[] {1, 2, 4, 0, 9, 10, 0x41, 0x81, 0x12, 0x19}[s.below(10)];
        int cv = 0;
        if ((f.acc & 8) != 0 && (t.itf || s.bool())) {
          char ch = f.spec.charAt(0);
          if ("IZBSC".indexOf(ch) >= 0) cv = g.num(ch == 'I' ? s.below(2) * 1000000 - 5 : ch == 'Z' ? s.below(2) : s.below(100));
          else if (ch == 'J') cv = g.lng(-123456789012L, 5);
          else if (ch == 'F') cv = g.flt(1.5f);
          else if (ch == 'D') cv = g.lng(Double.doubleToLongBits(-2.25), 6);
          else if (f.spec.equals("Ljava/lang/String;")) cv = g.str("const" + k);
        }
        g.field(f.acc, f.name, f.spec, cv);
        t.fs.add(f);
      }
      int nm = s.below(5);
      HashMap<String, Object> names = new HashMap<String, Object>();
      for (int k = 0; k < nm; ++k) {
        M m = new M();
        List<M> cand = new ArrayList<M>();
        for (T u : inh) for (M x : u.ms) if ((x.acc & 0x1a) == 0) cand.add(x);
        m.owner = t.name;
        if (cand.size() > 0 && s.bool()) {
          M x = cand.get(s.below(cand.size()));
          m.name = x.name;
          m.spec = x.spec;
          m.acc = x.acc & 5;
          if (t.itf) m.acc = 1;
        } else {
          m.name = "m" + (i * 10 + s.below(3));
          StringBuilder sb = new StringBuilder("(");
          int np = s.oneIn(8) ? s.below(10) : s.below(4);
          for (int q = 0; q < np; ++q) sb.append(spec(s, i));
          sb.append(')').append(s.oneIn(4) ? "V" : spec(s, i));
          m.spec = sb.toString();
          m.acc = t.itf ? 1 : new int[] {1, 1, 2, 4, 0, 9, 10, 0x11, 0x21, 0x81}[s.below(10)];
        }
        String pk = m.name + m.spec.substring(0, m.spec.indexOf(')'));
        if (names.containsKey(pk)) continue;
        names.put(pk, pk);
        boolean ab = t.itf || t.abs && (m.acc & 0x1a) == 0 && (m.acc & 0x20) == 0 && s.bool();
        if (ab) m.acc |= 0x400;
        g.method(m.acc, m.name, m.spec, ab ? null : body(g, s, m, t, (m.acc & 8) != 0), 6, 24,
                 s.oneIn(5) ? new String[] {"java/lang/Exception"} : null);
        t.ms.add(m);
      }
      if (!t.itf) {
        // methods that would otherwise be abstract
        if (!t.abs) {
          List<M> all = new ArrayList<M>();
          inherited(t, all);
          for (M x : all) {
            String pk = x.name + x.spec.substring(0, x.spec.indexOf(')'));
            if ((x.acc & 0x400) != 0 && !names.containsKey(pk)) {
              names.put(pk, pk);
              M m = new M();
              m.owner = t.name; m.name = x.name; m.spec = x.spec; m.acc = 1;
              if ((x.acc & 4) != 0) m.acc = 4;
              g.method(m.acc, m.name, m.spec, body(g, s, m, t, false), 6, 24, null);
              t.ms.add(m);
            }
          }
        }
        int nc = 1 + s.below(3);
        for (int k = 0; k < nc; ++k) {
          M m = new M();
          m.owner = t.name; m.name = "<init>";
          StringBuilder sb = new StringBuilder("(");
          if (k > 0) { sb.append(PT[(k * 5 + i) % 12]); int np = s.below(3); for (int q = 0; q < np; ++q) sb.append(spec(s, i)); }
          m.spec = sb.append(")V").toString();
          m.acc = k == 0 ? 1 : s.below(4) == 0 ? 2 : 1;
          ClassGen.Code c = new ClassGen.Code().op(42).op2(183, g.methodref(t.sup, "<init>", "()V"));
          ClassGen.Code b = body(g, s, m, t, false);
          for (int q = 0; q < b.n; ++q) c.op(b.b[q]);
          g.method(m.acc, m.name, m.spec, c, 6, 24, null);
          t.cs.add(m);
        }
      }
      ts.add(t);
      loader.put("g." + t.name, g.done());
    }
    types = new ArrayList<Class>();
    for (T t : ts) types.add(Class.forName("g." + t.name, false, loader));
    objs = new ArrayList<Object>();
  }

  T byName(String n) { for (T t : ts) if (n.equals("g/" + t.name)) return t; return null; }

  /** HotSpot 8's getFields leaves out fields when an interface is inherited in two ways */
  boolean diamond() {
    for (T t : ts) {
      List<String> l = new ArrayList<String>();
      supers(t, l);
      for (int i = 0; i < l.size(); ++i) if (l.indexOf(l.get(i)) != i) return true;
    }
    return false;
  }

  void supers(T t, List<String> out) {
    T u = byName(t.sup);
    if (u != null) supers(u, out);
    for (String x : t.ifs) { out.add(x); supers(byName(x), out); }
  }

  void inherited(T t, List<M> out) {
    T u = byName(t.sup);
    if (u != null) { for (M m : u.ms) if ((m.acc & 10) == 0) out.add(m); inherited(u, out); }
    for (String x : t.ifs) { u = byName(x); out.addAll(u.ms); inherited(u, out); }
  }

  // ---- output
  void show(Out o, Object v) {
    if (v == null) { o.k("null"); return; }
    if (v instanceof Integer || v instanceof Long || v instanceof Short || v instanceof Byte) { o.k(v.getClass().getSimpleName()).i(((Number) v).longValue()); return; }
    if (v instanceof Float) { o.f(((Float) v).floatValue()); return; }
    if (v instanceof Double) { o.d(((Double) v).doubleValue()); return; }
    if (v instanceof Character) { o.k("c").i(((Character) v).charValue()); return; }
    if (v instanceof Boolean) { o.z(((Boolean) v).booleanValue()); return; }
    if (v instanceof String) { o.s((String) v); return; }
    if (v instanceof Class) { o.k("class:" + ((Class) v).getName()); return; }
    for (int i = 0; i < objs.size(); ++i) if (objs.get(i) == v) { o.k("obj" + i + ":" + v.getClass().getName()); return; }
    if (v instanceof int[]) { o.k("int" + ((int[]) v).length); return; }
    o.k(v.getClass().getName());
  }

  static String sig(Class[] ps) {
    StringBuilder sb = new StringBuilder("(");
    for (Class p : ps) sb.append(p.getName()).append(',');
    return sb.append(')').toString();
  }

  static void sorted(Out o, List<String> l) {
    java.util.Collections.sort(l);
    String p = "";
    for (String x : l) { if (!x.equals(p)) o.k(x); p = x; }
  }

  /** a value, usually assignable to type t */
  Object value(Src s, Class t) {
    if (s.oneIn(12)) t = PC[s.below(PC.length)];
    if (t == int.class || t == Integer.class) return Integer.valueOf(s.anyInt());
    if (t == long.class) return Long.valueOf(s.anyLong());
    if (t == boolean.class) return Boolean.valueOf(s.bool());
    if (t == byte.class) return Byte.valueOf((byte) s.anyInt());
    if (t == short.class) return Short.valueOf((short) s.anyInt());
    if (t == char.class) return Character.valueOf((char) s.below(0xd800));
    if (t == float.class) return Float.valueOf(s.anyInt() / 3f);
    if (t == double.class) return Double.valueOf(s.anyInt() / 3.0);
    if (s.oneIn(8)) return null;
    if (t == String.class) return "s" + s.below(10);
    if (t == int[].class) return new int[s.below(4)];
    if (t == Object[].class) return s.bool() ? (Object) new Object[s.below(4)] : new String[s.below(3)];
    List<Object> c = new ArrayList<Object>();
    for (Object x : objs) if (t.isInstance(x)) c.add(x);
    if (c.size() > 0) return c.get(s.below(c.size()));
    return t == Object.class ? (Object) "o" : null;
  }

  Class cls(Src s) {
    int k = s.below(10);
    if (k < 7) return types.get(s.below(types.size()));
    if (k == 7) return PC[s.below(PC.length)];
    if (k == 8) return Array.newInstance(types.get(s.below(types.size())), 0).getClass();
    return new Class[] {Object[][].class, Number.class, Integer.class, Runnable.class, Cloneable.class, Comparable.class, String[].class, int[][].class,
                        Short.class, RuntimeException.class, java.util.AbstractList.class, java.util.List.class, Iterable.class}[s.below(13)];
  }

  static int mods(int m) { return m & 0xfff; }

  public void run(Src s, Out o) throws Throwable {
    make(s);
    for (int i = 0; i < ts.size(); ++i) {
      if (!ts.get(i).abs) {
        for (int k = 0; k < 2; ++k) {
          try { objs.add(types.get(i).newInstance()); } catch (Throwable t) { o.ex(t); }
        }
      }
    }
    o.nl();
    int n = 5 + s.below(25);
    for (int i = 0; i < n; ++i) {
      int op = s.below(19);
      o.i(op);
      int[] ch = new int[40];
      for (int k = 0; k < ch.length; ++k) ch[k] = s.below(1 << 16);
      try { op(new Src(ch), o, op); }
      catch (InvocationTargetException e) { o.k("ITE").ex(e.getTargetException()); }
      catch (RuntimeException e) { o.ex(e); }
      catch (Exception e) { o.ex(e); }
      catch (Error e) { o.ex(e); }
      o.nl();
    }
    for (int i = 0; i < ts.size(); ++i) {
      for (F f : ts.get(i).fs) {
        Field x = types.get(i).getDeclaredField(f.name);
        x.setAccessible(true);
        if ((f.acc & 8) != 0) { o.k(f.name); show(o, x.get(null)); }
        else for (Object b : objs) if (types.get(i).isInstance(b)) { o.k(f.name); show(o, x.get(b)); }
      }
    }
    o.nl();
    if (n > 6 && objs.size() > 0) o.nt();
  }

  Field field(Src s) throws Exception {
    for (int k = 0; k < 4; ++k) {
      int i = s.below(ts.size());
      if (ts.get(i).fs.size() > 0) {
        Field f = types.get(i).getDeclaredField(ts.get(i).fs.get(s.below(ts.get(i).fs.size())).name);
        f.setAccessible(true);
        return f;
      }
    }
    return null;
  }

  Object recv(Src s, Class c) {
    List<Object> l = new ArrayList<Object>();
    for (Object x : objs) if (c.isInstance(x)) l.add(x);
    if (l.size() > 0 && !s.oneIn(12)) return l.get(s.below(l.size()));
    return objs.size() > 0 && s.bool() ? objs.get(s.below(objs.size())) : s.bool() ? "str" : null;
  }

  void op(Src s, Out o, int op) throws Exception {
    Class c = cls(s);
    switch (op) {
      case 0: {
        o.k(c.getName()).k(c.getSimpleName()).k(String.valueOf(c.getCanonicalName())).z(c.isInterface()).z(c.isArray()).z(c.isPrimitive()).z(c.isEnum())
         .k(c.toString());
        o.i(c.getModifiers() & (c.isArray() ? 0x411 : 0xffff));
        show(o, c.getSuperclass());
        show(o, c.getComponentType());
        if (types.contains(c)) for (Class x : c.getInterfaces()) show(o, x);
        break;
      }
      case 1: {
        Class d = cls(s);
        o.z(c.isAssignableFrom(d)).z(d.isAssignableFrom(c)).z(c == d).z(c.equals(d));
        for (Object x : objs) o.z(c.isInstance(x)).z(d.isInstance(x));
        Object v = value(s, d);
        o.z(c.isInstance(v));
        show(o, v);
        show(o, c.cast(v));
        break;
      }
      case 2: {
        c = types.get(s.below(types.size()));
        List<String> l = new ArrayList<String>();
        for (Field f : s.bool() || diamond() ? c.getDeclaredFields() : c.getFields())
          l.add(f.getDeclaringClass().getName() + "." + f.getName() + ":" + f.getType().getName() + ":" + mods(f.getModifiers()));
        sorted(o, l);
        break;
      }
      case 3: {
        c = types.get(s.below(types.size()));
        List<String> l = new ArrayList<String>();
        boolean decl = s.bool();
        for (Method f : decl ? c.getDeclaredMethods() : c.getMethods())
          if (decl || f.getDeclaringClass() != Object.class)
            l.add((decl ? f.getDeclaringClass().getName() : "") + "." + f.getName() + sig(f.getParameterTypes()) + f.getReturnType().getName() + ":" + (decl ? mods(f.getModifiers()) : 0));
        sorted(o, l);
        break;
      }
      case 4: {
        c = types.get(s.below(types.size()));
        List<String> l = new ArrayList<String>();
        for (Constructor f : s.bool() ? c.getDeclaredConstructors() : c.getConstructors())
          l.add(f.getDeclaringClass().getName() + sig(f.getParameterTypes()) + mods(f.getModifiers()));
        sorted(o, l);
        break;
      }
      case 5: {
        c = types.get(s.below(types.size()));
        T t = ts.get(s.below(ts.size()));
        String nm = t.fs.size() > 0 ? t.fs.get(s.below(t.fs.size())).name : "f1";
        Field f = s.bool() ? c.getDeclaredField(nm) : c.getField(nm);
        o.k(f.getName()); show(o, f.getDeclaringClass()); show(o, f.getType()); o.i(mods(f.getModifiers()));
        break;
      }
      case 6: {
        c = types.get(s.below(types.size()));
        T t = ts.get(s.below(ts.size()));
        if (t.ms.size() == 0) break;
        M m = t.ms.get(s.below(t.ms.size()));
        Class[] ps = classes(m.spec);
        if (ps.length > 0 && s.oneIn(6)) ps[s.below(ps.length)] = PC[s.below(PC.length)];
        boolean decl = s.bool();
        Method f = decl ? c.getDeclaredMethod(m.name, ps) : c.getMethod(m.name, ps);
        o.k(f.getName()).k(sig(f.getParameterTypes())); show(o, f.getReturnType()); if (decl) { show(o, f.getDeclaringClass()); o.i(mods(f.getModifiers())); }
        break;
      }
      case 7: {
        int i = s.below(ts.size());
        T t = ts.get(i);
        if (t.cs.size() == 0) { o.i(types.get(i).getDeclaredConstructors().length); break; }
        M m = t.cs.get(s.below(t.cs.size()));
        Constructor k = types.get(i).getDeclaredConstructor(classes(m.spec));
        k.setAccessible(true);
        Object v = k.newInstance(args(s, k.getParameterTypes()));
        if (objs.size() < 12) objs.add(v);
        show(o, v);
        break;
      }
      case 8: case 9: {
        Field f = field(s);
        if (f == null) break;
        Object r = recv(s, f.getDeclaringClass());
        o.k(f.getName());
        if (op == 8) { show(o, f.get(r)); break; }
        if ((f.getModifiers() & 16) != 0) break;
        Object v = value(s, f.getType());
        show(o, v);
        f.set(r, v);
        show(o, f.get(r));
        break;
      }
      case 10: {
        Field f = field(s);
        if (f == null || (f.getModifiers() & 16) != 0) break;
        Object r = recv(s, f.getDeclaringClass());
        Class t = f.getType();
        if (t == int.class) { f.setInt(r, s.anyInt()); o.i(f.getInt(r)); }
        else if (t == long.class) { f.setLong(r, s.anyLong()); o.i(f.getLong(r)); }
        else if (t == byte.class) { f.setByte(r, (byte) s.anyInt()); o.i(f.getByte(r)); }
        else if (t == short.class) { f.setShort(r, (short) s.anyInt()); o.i(f.getShort(r)); }
        else if (t == char.class) { f.setChar(r, (char) s.anyInt()); o.i(f.getChar(r)); }
        else if (t == boolean.class) { f.setBoolean(r, s.bool()); o.z(f.getBoolean(r)); }
        else if (t == float.class) { f.setFloat(r, s.anyInt() / 7f); o.f(f.getFloat(r)); }
        else if (t == double.class) { f.setDouble(r, s.anyInt() / 7.0); o.d(f.getDouble(r)); }
        break;
      }
      case 11: case 12: case 13: {
        T t = ts.get(s.below(ts.size()));
        if (t.ms.size() == 0) break;
        M m = t.ms.get(s.below(t.ms.size()));
        Method f = Class.forName("g." + t.name, true, loader).getDeclaredMethod(m.name, classes(m.spec));
        f.setAccessible(true);
        o.k(m.owner + "." + m.name);
        Object r = (m.acc & 8) != 0 ? null : recv(s, f.getDeclaringClass());
        show(o, r);
        show(o, f.invoke(r, args(s, f.getParameterTypes())));
        break;
      }
      case 14: {
                int len = at(s, 5);
        Object a = Array.newInstance(c, len);
        o.k(a.getClass().getName()).i(Array.getLength(a));
        for (int k = 0; k < 5; ++k) {
          try {
            int x = at(s, len);
            if (s.bool() && x >= 0 && x < len) { Object v = value(s, c); show(o, v); Array.set(a, x, v); }
            show(o, Array.get(a, x));
          } catch (RuntimeException e) { o.ex(e); }
        }
        break;
      }
      case 15: proxy(s, o); break;
      default: sample(s, o, Samples.ALL[s.below(Samples.ALL.length)]); break;
    }
  }

  static int at(Src s, int n) { return s.oneIn(10) ? -1 : s.oneIn(10) ? n : s.below(n + (n == 0 ? 1 : 0)); }

  Class[] classes(String spec) throws Exception {
    List<String> ps = params(spec);
    Class[] r = new Class[ps.size()];
    for (int i = 0; i < r.length; ++i) {
      String p = ps.get(i);
      for (int k = 0; k < PT.length; ++k) if (PT[k].equals(p)) r[i] = PC[k];
      if (r[i] == null) r[i] = Class.forName(p.substring(1, p.length() - 1).replace('/', '.'), false, loader);
    }
    return r;
  }

  Object[] args(Src s, Class[] ps) {
    int n = ps.length;
    if (s.oneIn(15)) n = s.below(n + 2);
    Object[] a = new Object[n];
    for (int i = 0; i < n; ++i) a[i] = value(s, i < ps.length ? ps[i] : int.class);
    if (n == 0 && s.bool()) return null;
    return a;
  }

  void proxy(final Src s, final Out o) throws Exception {
    List<Class> l = new ArrayList<Class>();
    for (int i = 0; i < ts.size(); ++i) if (ts.get(i).itf && (l.size() == 0 || s.bool())) l.add(types.get(i));
    if (s.oneIn(3)) l.add(Comparable.class);
    if (l.size() == 0) l.add(Runnable.class);
    final int mode = s.below(4);
    InvocationHandler h = new InvocationHandler() {
      public Object invoke(Object p, Method m, Object[] as) throws Throwable {
        o.k("H").k(m.getName()).k(sig(m.getParameterTypes())).i(as == null ? 0 : as.length);
        if (as != null) for (Object x : as) show(o, x == p ? "self" : x);
        if (mode == 3) throw new IllegalStateException("h");
        Class r = m.getReturnType();
        if (r == void.class) return null;
        if (as != null) for (Object x : as) if (x != null && r.isInstance(x)) return x;
        if (r == int.class) return Integer.valueOf(77);
        if (r == long.class) return Long.valueOf(-5L << 40);
        if (r == boolean.class) return Boolean.TRUE;
        if (r == byte.class) return Byte.valueOf((byte) -3);
        if (r == short.class) return Short.valueOf((short) -300);
        if (r == char.class) return Character.valueOf('x');
        if (r == float.class) return Float.valueOf(2.5f);
        if (r == double.class) return Double.valueOf(-1e100);
        if (r == String.class) return "ret";
        return null;
      }
    };
    Class[] is = l.toArray(new Class[l.size()]);
    Object p = Proxy.newProxyInstance(loader, is, h);
    o.z(Proxy.isProxyClass(p.getClass())).z(Proxy.isProxyClass(String.class)).z(Proxy.getInvocationHandler(p) == h);
    for (Class x : is) o.z(x.isInstance(p));
    for (Class x : types) o.z(x.isInstance(p));
    if (p instanceof Comparable) {
      try { o.i(((Comparable) p).compareTo("arg")); } catch (RuntimeException e) { o.ex(e); }
    }
    if (p instanceof Runnable) {
      try { ((Runnable) p).run(); } catch (RuntimeException e) { o.ex(e); }
    }
    try { o.i(p.hashCode()); } catch (RuntimeException e) { o.ex(e); }
    try { o.k(p.toString()); } catch (RuntimeException e) { o.ex(e); }
    for (Class x : is) {
      T t = byName(x.getName().replace('.', '/'));
      if (t == null) continue;
      for (M m : t.ms) {
        Method f = x.getDeclaredMethod(m.name, classes(m.spec));
        try { show(o, f.invoke(p, args(s, f.getParameterTypes()))); }
        catch (InvocationTargetException e) { o.k("ITE").ex(e.getTargetException()); }
        catch (RuntimeException e) { o.ex(e); }
      }
    }
  }

  void value(Out o, Object v) {
    if (v instanceof Object[]) { o.k("["); for (Object x : (Object[]) v) value(o, x); o.k("]"); }
    else if (v instanceof int[]) { o.k("["); for (int x : (int[]) v) o.i(x); o.k("]"); }
    else if (v instanceof Samples.In) { o.k("@In").i(((Samples.In) v).a()).s(((Samples.In) v).b()); }
    else if (v instanceof Enum) o.k(((Enum) v).name()).i(((Enum) v).ordinal());
    else show(o, v);
  }

  void ann(Out o, Samples.An a) {
    if (a == null) { o.k("no"); return; }
    o.k(a.annotationType().getName()).i(a.i()).i(a.j()).i(a.b()).i(a.s()).i(a.c()).z(a.z()).f(a.f()).d(a.d()).s(a.str());
    value(o, a.k()); value(o, a.e()); value(o, a.in()); value(o, a.is()); value(o, a.ss()); value(o, a.ks()); value(o, a.es()); value(o, a.ins());
  }

  void list(Out o, java.lang.annotation.Annotation[] as) {
    List<String> l = new ArrayList<String>();
    for (java.lang.annotation.Annotation a : as) l.add(a.annotationType().getSimpleName());
    sorted(o, l);
  }

  static String nm(Object c) { return c == null ? "null" : ((Class) c).getName(); }

  void sample(Src s, Out o, Class c) throws Exception {
    o.k(c.getName());
    switch (s.below(8)) {
      case 0: o.k(c.getSimpleName()).k(nm(c.getDeclaringClass())).k(nm(c.getEnclosingClass())).z(c.isAnonymousClass()).z(c.isLocalClass()).z(c.isMemberClass())
               .z(c.isEnum()).z(c.isAnnotation()).z(c.isInterface()).i(c.getModifiers()); break;
      case 1: ann(o, (Samples.An) c.getAnnotation(Samples.An.class)); o.z(c.isAnnotationPresent(Samples.Mark.class)).z(c.isAnnotationPresent(Samples.Hidden.class)); list(o, c.getDeclaredAnnotations()); break;
      case 2: for (Field f : new Field[] {Samples.B.class.getDeclaredField("f"), Samples.B.class.getDeclaredField("g"), Samples.B.class.getDeclaredField("h")}) {
          list(o, f.getAnnotations());
          ann(o, (Samples.An) f.getAnnotation(Samples.An.class));
        }
        break;
      case 3: {
        Method m = s.bool() ? Samples.B.class.getDeclaredMethod("m", int.class) : s.bool() ? Samples.B.class.getDeclaredMethod("n", String.class, long.class) : Samples.B.class.getDeclaredMethod("o");
        list(o, m.getAnnotations());
        ann(o, (Samples.An) m.getAnnotation(Samples.An.class));
        o.z(m.getAnnotation(Samples.In.class) != null);
        break;
      }
      case 4: if (c.isEnum()) for (Object x : c.getEnumConstants()) o.k(x.toString()); else o.z(c.getEnumConstants() == null); break;
      case 5: {
        List<String> l = new ArrayList<String>();
        for (Class x : c.getDeclaredClasses()) l.add(x.getName());
        sorted(o, l);
        break;
      }
      case 6: {
        Method m = Samples.An.class.getDeclaredMethods()[0];
        m = Samples.An.class.getDeclaredMethod(new String[] {"i", "j", "b", "s", "c", "z", "f", "d", "str", "k", "e", "in", "is", "ss", "ks", "es", "ins"}[s.below(17)]);
        o.k(m.getName()).k(m.getReturnType().getName());
        value(o, m.getDefaultValue());
        break;
      }
      case 7: {
        Field f = Samples.G.class.getDeclaredField(new String[] {"a", "b", "c", "e"}[s.below(4)]);
        type(o, f.getGenericType());
        break;
      }
    }
  }

  void type(Out o, Type t) {
    if (t instanceof Class) o.k(((Class) t).getName());
    else if (t instanceof ParameterizedType) {
      ParameterizedType p = (ParameterizedType) t;
      o.k("<");
      type(o, p.getRawType());
      for (Type x : p.getActualTypeArguments()) type(o, x);
      o.k(">");
    } else if (t instanceof TypeVariable) o.k(((TypeVariable) t).getName());
    else o.k("?");
  }
}
