package vp;

/** Lambda expressions and method references (the call sites are generated by lib/gen_lambda.py). */
public class LambdaProp extends Prop {
  public interface Run { void run(); }
  public interface Mark { }
  public static final class Noted { long h; }
  static final ThreadLocal<long[]> noted = new ThreadLocal<long[]>() { protected long[] initialValue() { return new long[1]; } };
  public static void note(long h) { long[] n = noted.get(); n[0] = n[0] * 17 + h; }
  public static long noted() { long[] n = noted.get(); long r = n[0]; n[0] = 0; return r; }
  public static void bomb(long h) { if ((h & 3) == 0) throw new IllegalStateException(); }
  public static class Obj { public int v; public Obj(int v) { this.v = v; } }

  public static long key(boolean b) { return b ? 3 : 5; }
  public static long key(byte b) { return b; }
  public static long key(char b) { return b; }
  public static long key(short b) { return b; }
  public static long key(int b) { return b; }
  public static long key(long b) { return b; }
  public static long key(float b) { return Float.floatToIntBits(b); }
  public static long key(double b) { return Double.doubleToLongBits(b); }
  public static long key(Object o) {
    if (o == null) return -1;
    if (o instanceof String) return o.hashCode();
    if (o instanceof Boolean) return key(((Boolean) o).booleanValue()) + 100;
    if (o instanceof Character) return key(((Character) o).charValue()) + 200;
    if (o instanceof Float) return key(((Float) o).floatValue()) + 300;
    if (o instanceof Double) return key(((Double) o).doubleValue()) + 400;
    if (o instanceof Number) return ((Number) o).longValue() + 1000 * o.getClass().getName().length();
    if (o instanceof Obj) return ((Obj) o).v;
    if (o.getClass().isArray()) return java.lang.reflect.Array.getLength(o) + 10000 * o.getClass().getName().length();
    try { java.lang.reflect.Field f = o.getClass().getDeclaredField("v"); f.setAccessible(true); return f.getLong(o); } catch (Exception e) { return o.getClass().getName().hashCode(); }
  }
  public static boolean anyBoolean(Src s) { return s.bool(); }
  public static byte anyByte(Src s) { return (byte) s.bits32(); }
  public static char anyChar(Src s) { return (char) s.bits32(); }
  public static short anyShort(Src s) { return (short) s.bits32(); }
  public static int anyInt(Src s) { return s.bits32(); }
  public static long anyLong(Src s) { return s.bits64(); }
  public static float anyFloat(Src s) { return s.bits32() / 8f; }
  public static double anyDouble(Src s) { return s.bits32() / 16d; }
  public static String anyString(Src s) { return s.oneIn(5) ? null : "t" + s.below(100); }
  public static Boolean anyBoxedBoolean(Src s) { return s.oneIn(9) ? null : Boolean.valueOf(anyBoolean(s)); }
  public static Byte anyBoxedByte(Src s) { return s.oneIn(9) ? null : Byte.valueOf(anyByte(s)); }
  public static Character anyBoxedCharacter(Src s) { return s.oneIn(9) ? null : Character.valueOf(anyChar(s)); }
  public static Short anyBoxedShort(Src s) { return s.oneIn(9) ? null : Short.valueOf(anyShort(s)); }
  public static Integer anyBoxedInteger(Src s) { return s.oneIn(9) ? null : Integer.valueOf(anyInt(s)); }
  public static Long anyBoxedLong(Src s) { return s.oneIn(9) ? null : Long.valueOf(anyLong(s)); }
  public static Float anyBoxedFloat(Src s) { return s.oneIn(9) ? null : Float.valueOf(anyFloat(s)); }
  public static Double anyBoxedDouble(Src s) { return s.oneIn(9) ? null : Double.valueOf(anyDouble(s)); }
  public static Object anyObject(Src s) {
    switch (s.below(5)) { case 0: return null; case 1: return anyString(s); case 2: return Integer.valueOf(s.bits32()); case 3: return new int[s.below(4)]; default: return new Obj(s.bits32()); }
  }
  public static boolean toBoolean(long h) { return (h & 8) != 0; }
  public static byte toByte(long h) { return (byte) (h >> 3); }
  public static char toChar(long h) { return (char) (h >> 3); }
  public static short toShort(long h) { return (short) (h >> 3); }
  public static int toInt(long h) { return (int) (h >> 3); }
  public static long toLong(long h) { return h; }
  public static float toFloat(long h) { return (float) (int) (h >> 33); }
  public static double toDouble(long h) { return (double) (h >> 20); }
  public static String toString(long h) { return (h & 7) == 0 ? null : "r" + h; }
  public static Object toObject(long h) { return (h & 7) == 0 ? null : new Obj((int) h); }
  public static Boolean toBoxedBoolean(long h) { return (h & 15) == 0 ? null : Boolean.valueOf(toBoolean(h)); }
  public static Byte toBoxedByte(long h) { return (h & 15) == 0 ? null : Byte.valueOf(toByte(h)); }
  public static Character toBoxedCharacter(long h) { return (h & 15) == 0 ? null : Character.valueOf(toChar(h)); }
  public static Short toBoxedShort(long h) { return (h & 15) == 0 ? null : Short.valueOf(toShort(h)); }
  public static Integer toBoxedInteger(long h) { return (h & 15) == 0 ? null : Integer.valueOf(toInt(h)); }
  public static Long toBoxedLong(long h) { return (h & 15) == 0 ? null : Long.valueOf(toLong(h)); }
  public static Float toBoxedFloat(long h) { return (h & 15) == 0 ? null : Float.valueOf(toFloat(h)); }
  public static Double toBoxedDouble(long h) { return (h & 15) == 0 ? null : Double.valueOf(toDouble(h)); }

  public static void one(int k, Src s, Out o) {
    o.i(k).k(":");
    try { LambdaSites.go(k, s, o); }
    catch (NullPointerException e) { o.ex(e); }
    catch (LinkageError e) { o.ex(e); }
    noted();
    o.nl();
  }

  /** defines LambdaSites and the classes nested in it once more */
  public static final class Again extends ClassLoader {
    Again() { super(LambdaProp.class.getClassLoader()); }
    protected Class<?> loadClass(String n, boolean r) throws ClassNotFoundException {
      if (!n.startsWith("vp.LambdaSites")) return super.loadClass(n, r);
      synchronized (this) {
        Class<?> c = findLoadedClass(n);
        if (c == null) {
          try {
            java.io.InputStream in = LambdaProp.class.getClassLoader().getResourceAsStream(n.replace('.', '/') + ".class");
            if (in == null) throw new ClassNotFoundException(n);
            java.io.ByteArrayOutputStream b = new java.io.ByteArrayOutputStream();
            byte[] buf = new byte[4096];
            for (int k; (k = in.read(buf)) > 0;) b.write(buf, 0, k);
            in.close();
            c = defineClass(n, b.toByteArray(), 0, b.size());
          } catch (java.io.IOException e) { throw new ClassNotFoundException(n); }
        }
        return c;
      }
    }
  }
  /** many more sites than a program normally has, while other threads use theirs */
  public static void many(final Src s, Out o) throws Exception {
    final int copies = 8 + s.below(6);
    final long seed = s.bits64();
    final int[] state = new int[1];
    final String[] out = new String[3];
    Thread[] th = new Thread[out.length];
    for (int i = 0; i < th.length; ++i) {
      final int id = i;
      th[i] = new Thread() { public void run() {
        try {
          for (int r = 0; ; ++r) {
            boolean last;
            synchronized (state) { last = state[0] == 1; }
            Out x = new Out();
            one((id * 7 + r % 60) % LambdaSites.N, new Src(seed, id), x);
            if (last) { one(id * 11 + 100, new Src(seed, id), x); out[id] = "ok"; break; }
            Thread.sleep(1);
          }
        } catch (Throwable e) { out[id] = e.toString(); }
      } };
      th[i].start();
    }
    long h = 0;
    try {
      for (int i = 0; i < copies; ++i) {
        Class<?> c = Class.forName("vp.LambdaSites", true, new Again());
        java.lang.reflect.Method m = c.getDeclaredMethod("go", int.class, Src.class, Out.class);
        m.setAccessible(true);
        for (int k = 0; k < LambdaSites.N; ++k) {
          Out x = new Out();
          try { m.invoke(null, k, new Src(seed, k), x); } catch (java.lang.reflect.InvocationTargetException e) { x.ex(e.getTargetException()); }
          noted();
          h = h * 31 + x.text().hashCode();
        }
      }
    } finally { synchronized (state) { state[0] = 1; } }
    for (Thread t : th) t.join();
    o.i(h).nl();
    for (String x : out) o.k(x == null ? "null" : x).nl();
  }

  public void run(final Src s, Out o) throws Throwable {
    noted();
    if (s.oneIn(1500)) { many(s, o); o.nontrivial = true; return; }
    int n = 1 + s.below(5);
    if (s.oneIn(5)) {
      // the same sites linked and used by several threads
      final int[] ks = new int[n];
      for (int i = 0; i < n; ++i) ks[i] = s.below(LambdaSites.N);
      final long seed = s.bits64();
      final String[] out = new String[4];
      Thread[] th = new Thread[out.length];
      final int[] gate = new int[1];
      for (int i = 0; i < th.length; ++i) {
        final int id = i;
        th[i] = new Thread() { public void run() {
          try {
            synchronized (gate) { ++gate[0]; gate.notifyAll(); while (gate[0] < out.length) gate.wait(); }
            Out x = new Out();
            for (int k : ks) one(k, new Src(seed, k), x);
            out[id] = x.text();
          } catch (Throwable e) { out[id] = e.toString(); }
        } };
      }
      for (Thread t : th) t.start();
      for (Thread t : th) t.join();
      for (String x : out) o.k(x == null ? "null" : x).nl();
    } else for (int i = 0; i < n; ++i) one(s.below(LambdaSites.N), s, o);
    o.nontrivial = true;
  }
}
