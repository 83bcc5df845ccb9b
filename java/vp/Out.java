package vp;

/** Transcript of one case: plain ASCII lines, compared across virtual machines. */
public final class Out {
  private byte[] buf = new byte[1024];
  private int n;
  String tags = "";
  boolean nontrivial;

  private void b(int c) {
    if (n == buf.length) {
      byte[] x = new byte[n * 2];
      System.arraycopy(buf, 0, x, 0, n);
      buf = x;
    }
    buf[n++] = (byte) c;
  }

  private static final String HEX = "0123456789abcdef";

  private void raw(String s) {
    int len = s.length();
    for (int i = 0; i < len; ++i) {
      char c = s.charAt(i);
      if (c == '\\' ) { b('\\'); b('\\'); }
      else if (c >= 32 && c < 127) b(c);
      else if (c == '\n') { b('\\'); b('n'); }
      else {
        b('\\'); b('u');
        for (int k = 12; k >= 0; k -= 4) b(HEX.charAt((c >> k) & 15));
      }
    }
  }

  /** long in decimal without library help */
  private void num(long v) {
    if (v < 0) b('-');
    byte[] t = new byte[20];
    int k = 0;
    do {
      long d = v % 10;
      t[k++] = (byte) ('0' + (d < 0 ? -d : d));
      v /= 10;
    } while (v != 0);
    while (k > 0) b(t[--k]);
  }

  private void hex(long v) {
    for (int k = 60; k >= 0; k -= 4) b(HEX.charAt((int) (v >>> k) & 15));
  }

  public Out s(String s) { if (s == null) raw("<null>"); else { b('"'); raw(s); b('"'); } b(' '); return this; }
  public Out k(String s) { raw(s); b(' '); return this; }
  public Out i(long v) { num(v); b(' '); return this; }
  public Out z(boolean v) { b(v ? 'T' : 'F'); b(' '); return this; }
  public Out d(double v) { if (v != v) raw("NaN"); else hex(Double.doubleToRawLongBits(v)); b(' '); return this; }
  public Out f(float v) { if (v != v) raw("NaN"); else hex(Float.floatToRawIntBits(v)); b(' '); return this; }
  public Out nl() { b('\n'); return this; }
  public Out line(String s) { raw(s); return nl(); }
  public Out ex(Throwable t) { raw("!"); raw(t == null ? "none" : t.getClass().getName()); b(' '); return this; }
  public Out bytes(byte[] a) {
    if (a == null) return k("<null>");
    return bytes(a, 0, a.length);
  }
  public Out bytes(byte[] a, int off, int len) {
    b('#');
    for (int i = off; i < off + len; ++i) { b(HEX.charAt((a[i] >> 4) & 15)); b(HEX.charAt(a[i] & 15)); }
    b(' ');
    return this;
  }
  public Out o(Object v) {
    if (v == null) return k("<null>");
    if (v instanceof String) return s((String) v);
    if (v instanceof Double) { raw("d"); return d(((Double) v).doubleValue()); }
    if (v instanceof Float) { raw("f"); return f(((Float) v).floatValue()); }
    if (v instanceof Character) { raw("c"); return i(((Character) v).charValue()); }
    if (v instanceof Boolean) return z(((Boolean) v).booleanValue());
    if (v instanceof Long) { raw("l"); return i(((Long) v).longValue()); }
    if (v instanceof Integer) return i(((Integer) v).intValue());
    if (v instanceof Short) { raw("s"); return i(((Short) v).shortValue()); }
    if (v instanceof Byte) { raw("b"); return i(((Byte) v).byteValue()); }
    if (v instanceof byte[]) return bytes((byte[]) v);
    if (v instanceof Object[]) {
      Object[] a = (Object[]) v;
      k("[");
      for (int i = 0; i < a.length; ++i) o(a[i]);
      return k("]");
    }
    if (v instanceof int[]) {
      int[] a = (int[]) v;
      k("i[");
      for (int i = 0; i < a.length; ++i) i(a[i]);
      return k("]");
    }
    return k(v.getClass().getName());
  }

  /** classification of a case, counted by the driver */
  public void tag(String t) {
    if (tags.indexOf(t) < 0) tags = tags + (tags.length() == 0 ? "" : ",") + t;
  }
  public void nt() { nontrivial = true; }
  /** a failed model check, independent of the reference VM */
  public void fail(String why) { raw("MODEL-FAIL " + why); nl(); }
  public void check(boolean ok, String why) { if (!ok) fail(why); }

  public String text() { char[] c = new char[n]; for (int i = 0; i < n; ++i) c[i] = (char) buf[i]; return new String(c, 0, n); }

  byte[] data() { return buf; }
  int length() { return n; }
  void reset() { n = 0; tags = ""; nontrivial = false; }
}
