package vp;

/** Minimal class file writer (no library), used to make classes at run time on both virtual machines. */
public final class ClassGen {
  private byte[] cp = new byte[256];
  private int cpn, cpc = 1;
  private final java.util.HashMap<String, Integer> seen = new java.util.HashMap<String, Integer>();
  private byte[] fields = new byte[64], methods = new byte[64], attrs = new byte[0];
  private int fn, fc, mn, mc, ac;
  private final int access, self, sup;
  public int version = 49;
  private final int[] ifs;

  public ClassGen(int access, String name, String sup, String[] interfaces) {
    this.access = access;
    self = cls(name);
    this.sup = cls(sup);
    ifs = new int[interfaces.length];
    for (int i = 0; i < ifs.length; ++i) ifs[i] = cls(interfaces[i]);
  }

  private static byte[] grow(byte[] b, int n) {
    if (n <= b.length) return b;
    byte[] r = new byte[n * 2];
    System.arraycopy(b, 0, r, 0, b.length);
    return r;
  }

  private void c(int... bs) {
    cp = grow(cp, cpn + bs.length);
    for (int b : bs) cp[cpn++] = (byte) b;
  }

  private int add(String key) { int i = cpc++; seen.put(key, i); return i; }

  public int utf(String s) {
    Integer k = seen.get("u" + s);
    if (k != null) return k;
    byte[] b = new byte[s.length()];
    for (int i = 0; i < b.length; ++i) b[i] = (byte) s.charAt(i);
    c(1, b.length >> 8, b.length);
    for (byte x : b) c(x);
    return add("u" + s);
  }
  public int cls(String s) {
    Integer k = seen.get("c" + s);
    if (k != null) return k;
    int u = utf(s);
    c(7, u >> 8, u);
    return add("c" + s);
  }
  public int str(String s) {
    Integer k = seen.get("s" + s);
    if (k != null) return k;
    int u = utf(s);
    c(8, u >> 8, u);
    return add("s" + s);
  }
  public int num(int v) { c(3, v >> 24, v >> 16, v >> 8, v); return cpc++; }
  public int flt(float f) { int v = Float.floatToIntBits(f); c(4, v >> 24, v >> 16, v >> 8, v); return cpc++; }
  public int lng(long v, int tag) {
    c(tag);
    for (int i = 56; i >= 0; i -= 8) c((int) (v >> i));
    cpc += 2;
    return cpc - 2;
  }
  public int ref(int tag, String owner, String name, String spec) {
    String key = tag + "r" + owner + "." + name + spec;
    Integer k = seen.get(key);
    if (k != null) return k;
    int o = cls(owner), n = utf(name), d = utf(spec);
    c(12, n >> 8, n, d >> 8, d);
    int nt = cpc++;
    c(tag, o >> 8, o, nt >> 8, nt);
    return add(key);
  }
  public int fieldref(String o, String n, String s) { return ref(9, o, n, s); }
  public int methodref(String o, String n, String s) { return ref(10, o, n, s); }
  public int imethodref(String o, String n, String s) { return ref(11, o, n, s); }

  private void f(int... bs) { fields = grow(fields, fn + bs.length); for (int b : bs) fields[fn++] = (byte) b; }
  private void m(int... bs) { methods = grow(methods, mn + bs.length); for (int b : bs) methods[mn++] = (byte) b; }

  public void field(int acc, String name, String spec, int constant) {
    int n = utf(name), s = utf(spec);
    f(acc >> 8, acc, n >> 8, n, s >> 8, s);
    if (constant == 0) f(0, 0);
    else { int a = utf("ConstantValue"); f(0, 1, a >> 8, a, 0, 0, 0, 2, constant >> 8, constant); }
    ++fc;
  }

  /** code null for abstract methods; handlers are quadruples (start, end, handler, type) */
  public void method(int acc, String name, String spec, Code code, int stack, int locals, String[] exceptions) {
    int n = utf(name), s = utf(spec);
    int ca = code == null ? 0 : utf("Code"), ea = exceptions == null ? 0 : utf("Exceptions");
    int[] ex = new int[exceptions == null ? 0 : exceptions.length];
    for (int i = 0; i < ex.length; ++i) ex[i] = cls(exceptions[i]);
    m(acc >> 8, acc, n >> 8, n, s >> 8, s, 0, (code == null ? 0 : 1) + (exceptions == null ? 0 : 1));
    if (code != null) {
      int len = 12 + code.n + 8 * code.hn / 4;
      m(ca >> 8, ca, len >> 24, len >> 16, len >> 8, len, stack >> 8, stack, locals >> 8, locals,
        code.n >> 24, code.n >> 16, code.n >> 8, code.n);
      for (int i = 0; i < code.n; ++i) m(code.b[i]);
      m(code.hn / 4 >> 8, code.hn / 4);
      for (int i = 0; i < code.hn; ++i) m(code.h[i] >> 8, code.h[i]);
      m(0, 0);
    }
    if (exceptions != null) {
      int len = 2 + 2 * ex.length;
      m(ea >> 8, ea, 0, 0, len >> 8, len, ex.length >> 8, ex.length);
      for (int e : ex) m(e >> 8, e);
    }
    ++mc;
  }

  public static final class Code {
    byte[] b = new byte[64];
    int n;
    int[] h = new int[64];
    int hn;
    /** exception handler; type 0 for any */
    public Code handler(int start, int end, int pc, int type) { h[hn++] = start; h[hn++] = end; h[hn++] = pc; h[hn++] = type; return this; }
    public int pc() { return n; }
    public Code op(int... bs) { b = grow(b, n + bs.length); for (int x : bs) b[n++] = (byte) x; return this; }
    public Code op2(int o, int k) { return op(o, k >> 8, k); }
    /** load (base 21) of local k of the given type */
    public Code load(char t, int k) { return op(21 + kind(t), k); }
    public Code ret(char t) { return op(t == 'V' ? 177 : 172 + kind(t)); }
  }

  public static int kind(char t) {
    return t == 'J' ? 1 : t == 'F' ? 2 : t == 'D' ? 3 : t == 'L' || t == '[' ? 4 : 0;
  }
  public static int width(char t) { return t == 'J' || t == 'D' ? 2 : 1; }

  public byte[] done() {
    byte[] r = new byte[10 + cpn + 8 + 2 * ifs.length + 2 + fn + 2 + mn + 2];
    int p = 0;
    int[] h = {0xCA, 0xFE, 0xBA, 0xBE, 0, 0, 0, version, cpc >> 8, cpc};
    for (int x : h) r[p++] = (byte) x;
    System.arraycopy(cp, 0, r, p, cpn); p += cpn;
    int[] g = {access >> 8, access, self >> 8, self, sup >> 8, sup, ifs.length >> 8, ifs.length};
    for (int x : g) r[p++] = (byte) x;
    for (int x : ifs) { r[p++] = (byte) (x >> 8); r[p++] = (byte) x; }
    r[p++] = (byte) (fc >> 8); r[p++] = (byte) fc;
    System.arraycopy(fields, 0, r, p, fn); p += fn;
    r[p++] = (byte) (mc >> 8); r[p++] = (byte) mc;
    System.arraycopy(methods, 0, r, p, mn); p += mn;
    r[p++] = 0; r[p++] = 0;
    return r;
  }

  /** defines a set of classes by name, delegating for the rest */
  public static final class Loader extends ClassLoader {
    private final java.util.HashMap<String, byte[]> map = new java.util.HashMap<String, byte[]>();
    public Loader() { super(ClassGen.class.getClassLoader()); }
    public void put(String name, byte[] b) { map.put(name, b); }
    protected Class findClass(String n) throws ClassNotFoundException {
      byte[] b = map.get(n);
      if (b == null) throw new ClassNotFoundException(n);
      return defineClass(n, b, 0, b.length);
    }
  }
}
