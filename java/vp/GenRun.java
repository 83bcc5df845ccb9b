package vp;

/** Runs generated class P<n> for the n-th case. */
public class GenRun extends Prop {
  private int n;
  private static Out out;
  private static int budget;

  public void run(Src s, Out o) throws Throwable {
    GenCase c = (GenCase) Class.forName("P" + n++).newInstance();
    c.run(o);
  }

  // ---- called by generated code
  public static void start(Out o) { out = o; budget = 4000; }
  public static void nl() { out.nl(); }
  public static void pr(int v) { if (--budget > 0) out.i(v); }
  public static void pr(long v) { if (--budget > 0) out.i(v); }
  public static void pr(float v) { if (--budget > 0) out.f(v); }
  public static void pr(double v) { if (--budget > 0) out.d(v); }

  public static void pr(Object v) { if (--budget > 0) ref(out, v); }
  public static void npe() { throw new NullPointerException(); }
  public static void chk(Object v) { if (v == null) throw new NullPointerException(); }

  /** an Object[] which can hold anything */
  public static Object[] plain(Object[] a) { return a != null && a.getClass() != Object[].class ? new Object[4] : a; }

  public static Out ref(Out o, Object v) {
    if (v == null) return o.k("null");
    if (v instanceof String) return o.s((String) v);
    if (v instanceof int[]) { int[] a = (int[]) v; o.k("[I"); for (int i = 0; i < a.length; ++i) o.i(a[i]); return o; }
    if (v instanceof long[]) { long[] a = (long[]) v; o.k("[J"); for (int i = 0; i < a.length; ++i) o.i(a[i]); return o; }
    if (v instanceof byte[]) { byte[] a = (byte[]) v; o.k("[B"); for (int i = 0; i < a.length; ++i) o.i(a[i]); return o; }
    if (v instanceof short[]) { short[] a = (short[]) v; o.k("[S"); for (int i = 0; i < a.length; ++i) o.i(a[i]); return o; }
    if (v instanceof char[]) { char[] a = (char[]) v; o.k("[C"); for (int i = 0; i < a.length; ++i) o.i(a[i]); return o; }
    if (v instanceof boolean[]) { boolean[] a = (boolean[]) v; o.k("[Z"); for (int i = 0; i < a.length; ++i) o.z(a[i]); return o; }
    if (v instanceof float[]) { float[] a = (float[]) v; o.k("[F"); for (int i = 0; i < a.length; ++i) o.f(a[i]); return o; }
    if (v instanceof double[]) { double[] a = (double[]) v; o.k("[D"); for (int i = 0; i < a.length; ++i) o.d(a[i]); return o; }
    if (v instanceof Object[]) {
      Object[] a = (Object[]) v;
      o.k(v.getClass().getName());
      for (int i = 0; i < a.length; ++i) o.k(a[i] == null ? "null" : a[i] == v ? "self" : a[i].getClass().getName());
      return o;
    }
    return o.k(v.getClass().getName());
  }

  private static boolean generated(String c) {
    return c.length() > 1 && c.charAt(0) == 'P' && c.charAt(1) >= '0' && c.charAt(1) <= '9';
  }

  /** exception class and the frames of generated code, with lines */
  public static void caught(Out o, Throwable t) {
    if (--budget < 0) return;
    o.ex(t);
    StackTraceElement[] st = t.getStackTrace();
    int k = 0;
    for (int i = 0; i < st.length && k < 12; ++i) {
      if (generated(st[i].getClassName())) {
        o.k(st[i].getClassName() + "." + st[i].getMethodName()).i(st[i].getLineNumber());
        ++k;
      }
    }
    o.nl();
  }
}
