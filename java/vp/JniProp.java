package vp;

import java.io.*;
import java.lang.reflect.*;
import java.nio.ByteBuffer;

/** Native code: methods of many signatures called from Java and from native code, and scripts of JNI calls
 *  executed by a native interpreter (native/jniprop.cpp), compared with OpenJDK and, for calls, with the
 *  same computation in Java. */
public class JniProp extends Prop {
  static long last;
  static int fuse;
  static String left;
  static ClassLoader loader;
  static byte[] bytes;
  static int[][] scripts; static int[] ops; static int nested;
  static Object[] args;
  static { System.load(System.getProperty("vp.lib")); }

  static native String exec(int[] script, int ops, int level, Object[] in) throws Mine;
  static native void reset();

  public static class Mine extends Exception { public Mine(String m) { super(m); } }

  static void bomb() { if (fuse > 0 && --fuse == 0) throw new IllegalStateException("bomb"); }

  static long key(Object o) {
    if (o == null) return -1;
    if (o instanceof String) return o.hashCode();
    if (o instanceof Integer) return (Integer) o;
    if (o.getClass().isArray()) return Array.getLength(o);
    return o.getClass().getName().length() * 1000;
  }
  static String shallow(Object o) {
    if (o == null) return "null";
    if (o instanceof String) { String s = (String) o; StringBuilder b = new StringBuilder("\""); for (int i = 0; i < s.length(); ++i) { char c = s.charAt(i); if (c >= ' ' && c < 127) b.append(c); else b.append('\\').append((int) c).append(';'); } return b.append('"').toString(); }
    if (o instanceof Integer) return o.toString();
    if (o instanceof Class) return "C:" + ((Class) o).getName();
    if (o instanceof Throwable) return "T:" + o.getClass().getName() + (o instanceof Mine ? ((Throwable) o).getMessage() : "");
    if (o.getClass().isArray()) return o.getClass().getName() + Array.getLength(o);
    return o.getClass().getName();
  }
  /** what native code reports of an object */
  static String show(Object o) {
    if (o instanceof JniFields) return o.toString();
    if (o instanceof Method) return "M:" + ((Method) o).getDeclaringClass().getName() + "." + ((Method) o).getName();
    if (o instanceof Field) return "F:" + ((Field) o).getDeclaringClass().getName() + "." + ((Field) o).getName();
    if (o != null && o.getClass().isArray()) {
      int n = Array.getLength(o); long h = 0;
      for (int i = 0; i < n; ++i) {
        Object x = Array.get(o, i);
        h = h * 31 + (x == null ? 0 : x instanceof Boolean ? ((Boolean) x ? 1 : 2) : x instanceof Character ? (Character) x : x instanceof Float ? Float.floatToIntBits((Float) x) : x instanceof Double ? Double.doubleToLongBits((Double) x) : x instanceof Number ? ((Number) x).longValue() : key(x));
      }
      return o.getClass().getName() + n + ":" + h;
    }
    return shallow(o);
  }
  static int holds(Object o) { return Thread.holdsLock(o) ? 1 : 0; }
  static int poke(ByteBuffer b, int i, int v) { int old = b.get(i); b.put(i, (byte) v); return old + b.limit() * 1000; }
  static void collect(int k) {
    if (k == 0) System.gc();
    else { Object x = null; for (int i = 0; i < k * 40; ++i) x = new Object[] {x == null || i % 10 == 0 ? null : x, new byte[500]}; args[11] = x == null ? null : args[11]; }
  }
  static String nest(int level) throws Mine {
    int k = nested++;
    if (k >= scripts.length) return "none";
    Object lock = new Object();
    try {
      synchronized (lock) { return exec(scripts[k], ops[k], level + 1, args); }
    } catch (IllegalStateException e) {
      return "caught";
    } finally {
      if (Thread.holdsLock(lock)) throw new Error("lock kept");
    }
  }

  static boolean anyBoolean(Src s) { return s.below(2) != 0; }
  static byte anyByte(Src s) { return (byte) s.below(256); }
  static char anyChar(Src s) { return (char) s.below(65536); }
  static short anyShort(Src s) { return (short) s.below(65536); }
  static int anyInt(Src s) { return s.oneIn(2) ? s.below(200) - 100 : s.below(1 << 30) * 4 + s.below(4); }
  static long anyLong(Src s) { return s.oneIn(2) ? s.below(200) - 100 : ((long) anyInt(s) << 32) ^ anyInt(s); }
  static float anyFloat(Src s) { return s.oneIn(8) ? -0.0f : anyInt(s) / 16f; }
  static double anyDouble(Src s) { return s.oneIn(8) ? -0.0 : anyLong(s) / 64.0; }
  static Object anyObject(Src s) { return args[s.below(args.length)]; }
  static void same(Out o, int k, long a, long b) { if (a != b) o.fail("native method " + k + " returned " + a + " for " + b); }
  static void same(Out o, int k, boolean a, boolean b) { if (a != b) o.fail("native method " + k + " returned " + a + " for " + b); }
  static void same(Out o, int k, double a, double b) { if (a != b) o.fail("native method " + k + " returned " + a + " for " + b); }
  static void same(Out o, int k, Object a, Object b) { if (a != b) o.fail("native method " + k + " returned another object"); }

  public void run(Src s, Out o) throws Exception {
    if (bytes == null) {
      InputStream in = JniProp.class.getResourceAsStream("/vp/JniReg.class");
      ByteArrayOutputStream b = new ByteArrayOutputStream();
      for (int c; (c = in.read()) != -1;) b.write(c);
      bytes = b.toByteArray();
    }
    args = new Object[] {null, "abc", new Object(), 42, new int[] {1, 2, 3}, new String[] {"x", null}, new Object[] {"y", 7}, "", new RuntimeException("r"), new Object[4], new JniFieldsSub(), null};
    fuse = 0; nested = 0; last = 0; left = null;
    JniFields.reset();
    loader = new ClassLoader(JniProp.class.getClassLoader()) { };
    JniSigs x = new JniSigs();
    int n = s.range(0, 8);
    for (int i = 0; i < n; ++i) {
      int k = s.below(JniSigs.DOWNS);
      JniSigs.down(k, x, s, o);
      o.i(k);
    }
    int ns = s.range(1, 5);
    scripts = new int[ns][]; ops = new int[ns];
    int total = 0;
    for (int i = 0; i < ns; ++i) {
      ops[i] = s.range(1, 14); total += ops[i];
      int[] a = scripts[i] = new int[ops[i] * 40];
      int seed = s.below(1 << 30);
      boolean small = s.oneIn(3);
      for (int j = 0; j < a.length; ++j) { seed = seed * 1103515245 + 12345; a[j] = (seed ^ (seed >>> 15)) & (small ? 0xff : 0x7fffffff); }
    }
    o.nl();
    try {
      while (nested < ns) {
        int k = nested++;
        try {
          o.line(exec(scripts[k], ops[k], 0, args));
        } catch (Mine e) {
          o.line("left " + left + e.getMessage());
        }
      }
    } finally {
      reset();
    }
    if (total > 5) o.nt();
  }
}
