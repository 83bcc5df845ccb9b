package vp;

/** Histories of String / StringBuilder / StringBuffer operations. */
public class StringsProp extends Prop {
  static final int KINDS = 4;

  public static String gen(Src s) {
    int kind = s.pick(new int[] {Src.ASCII, Src.AB, Src.AB, Src.LATIN, Src.BMP, Src.UNICODE});
    return s.str(kind, 90);
  }

  private String[] pool = new String[12];
  private int np;

  private String pick(Src s) {
    return pool[s.below(np)];
  }

  private String add(Src s, String x) {
    if (x == null || x.length() > 600) return x;
    if (np < pool.length) pool[np++] = x;
    else pool[s.below(pool.length)] = x;
    return x;
  }

  private char anyCh(Src s, String x) {
    if (x.length() > 0 && !s.oneIn(4)) return x.charAt(s.below(x.length()));
    return s.ch(s.pick(new int[] {Src.AB, Src.ASCII, Src.LATIN, Src.BMP}));
  }

  private int idx(Src s, int len) {
    switch (s.below(8)) {
      case 0: return s.oneIn(3) ? -1 - s.below(3) : 0;
      case 1: return len;
      case 2: return s.oneIn(3) ? len + 1 + s.below(3) : len;
      default: return len == 0 ? 0 : s.below(len);
    }
  }

  private String sub(Src s, String x) {
    if (x.length() == 0 || s.oneIn(4)) return pick(s);
    int a = s.below(x.length());
    int b = a + s.below(Math.min(x.length() - a, 4) + 1);
    return x.substring(a, b);
  }

  private static int sgn(int x) { return x < 0 ? -1 : x > 0 ? 1 : 0; }

  public void run(Src s, Out o) throws Throwable {
    np = 0;
    int init = 1 + s.below(3);
    for (int i = 0; i < init; ++i) add(s, gen(s));
    int mode = s.below(3);
    int n = 1 + s.size(40);
    if (mode == 0) {
      o.tag("string");
      for (int i = 0; i < n; ++i) {
        try { strOp(s, o); } catch (IndexOutOfBoundsException e) { o.k("IOOBE"); o.tag("range-error"); }
        o.nl();
      }
    } else if (mode == 1) {
      o.tag("builder");
      builder(s, o, n);
    } else {
      o.tag("buffer");
      buffer(s, o, n);
    }
    if (n >= 3) o.nt();
  }

  private void strOp(Src s, Out o) throws Throwable {
    String x = pick(s);
    switch (s.below(40)) {
      case 0: o.k("len").i(x.length()).i(x.hashCode()).z(x.isEmpty()); break;
      case 1: { int i = idx(s, x.length()); o.k("charAt").i(i); o.i(x.charAt(i)); break; }
      case 2: { int a = idx(s, x.length()), b = idx(s, x.length()); o.k("sub").i(a).i(b); o.s(add(s, x.substring(a, b))); break; }
      case 3: { int a = idx(s, x.length()); o.k("sub1").i(a); o.s(add(s, x.substring(a))); break; }
      case 4: { String y = pick(s); o.k("cat").s(add(s, x.concat(y))); break; }
      case 5: { String y = s.bool() ? pick(s) : sub(s, x); o.k("cmp").i(sgn(x.compareTo(y))).z(x.equals(y)).i(x.compareTo(y)); break; }
      case 6: { char c = anyCh(s, x); o.k("idxc").i(x.indexOf(c)).i(x.lastIndexOf(c)); break; }
      case 7: { char c = anyCh(s, x); int i = idx(s, x.length()); o.k("idxc2").i(i).i(x.indexOf(c, i)).i(x.lastIndexOf(c, i)); break; }
      case 8: { String y = sub(s, x); o.k("idxs").s(y).i(x.indexOf(y)).i(x.lastIndexOf(y)).z(x.contains(y)); break; }
      case 9: { String y = sub(s, x); int i = idx(s, x.length()); o.k("idxs2").s(y).i(i).i(x.indexOf(y, i)).i(x.lastIndexOf(y, i)); break; }
      case 10: { char c = anyCh(s, x), d = anyCh(s, pick(s)); o.k("repl").i(c).i(d).s(add(s, x.replace(c, d))); break; }
      case 11: { String y = sub(s, x), z = sub(s, pick(s)); if (!surr(y)) o.k("repls").s(y).s(z).s(add(s, x.replace(y, z))); break; }
      case 12: { String y = s.bool() ? x.substring(0, s.below(x.length() + 1)) : pick(s); o.k("starts").z(x.startsWith(y)).z(x.endsWith(y)); break; }
      case 13: { String y = sub(s, x); int i = idx(s, x.length()); o.k("starts2").s(y).i(i).z(x.startsWith(y, i)); break; }
      case 14: { String y = x.substring(s.below(x.length() + 1)); o.k("ends").z(x.endsWith(y)).z(y.endsWith(x)); break; }
      case 15: o.k("trim").s(add(s, x.trim())); break;
      case 16: o.k("case").s(lower(x)).s(upper(x)); break;
      case 17: { String y = s.bool() ? upper(x) : pick(s);
        if (ascii(x) && ascii(y)) o.k("ic").z(x.equalsIgnoreCase(y)).i(x.compareToIgnoreCase(y)); break; }
      case 18: { char[] c = x.toCharArray(); o.k("chars").i(c.length); String y = new String(c); o.z(y.equals(x));
        if (c.length > 0) { c[0]++; o.z(y.equals(x)); } break; }
      case 19: { char[] d = new char[x.length() + 3]; int a = idx(s, x.length()), b = idx(s, x.length()), t = s.below(4);
        o.k("getChars").i(a).i(b).i(t);
        if (a <= b) x.getChars(a, b, d, t);
        o.s(new String(d)); break; }
      case 20: { byte[] b = x.getBytes("UTF-8"); o.k("utf8").bytes(b); String y = new String(b, "UTF-8"); o.s(add(s, y)).z(y.equals(x)); break; }
      case 21: { if (latin(x)) { byte[] b = x.getBytes("ISO-8859-1"); o.k("latin1").bytes(b); o.s(new String(b, "ISO-8859-1")); } break; }
      case 22: { char[] c = x.toCharArray(); int a = idx(s, c.length), b = idx(s, c.length); o.k("new").i(a).i(b); o.s(add(s, new String(c, a, b))); break; }
      case 23: { String y = new String(x.toCharArray()); o.k("intern").z(y.intern() == x.intern()).z(y.intern().equals(x)); break; }
      case 24: { String y = pick(s); int a = idx(s, x.length()), b = idx(s, y.length()), l = s.below(6);
        o.k("region").i(a).i(b).i(l).z(x.regionMatches(a, y, b, l));
        if (ascii(x) && ascii(y)) o.z(x.regionMatches(true, a, y, b, l)); break; }
      case 25: { int a = idx(s, x.length()); o.k("cpAt").i(a); o.i(x.codePointAt(a)); break; }
      case 26: { int a = idx(s, x.length()), b = idx(s, x.length()); o.k("cpCount").i(a).i(b); o.i(x.codePointCount(a, b)); break; }
      case 27: o.k("plus").s(add(s, x + s.anyInt() + ',' + s.bool() + pick(s))); break;
      case 28: { String y = s.bool() ? new String(x.toCharArray()) : pick(s); o.k("eq").z(x.equals(y)).z(x.hashCode() == y.hashCode()).z(y.equals(x)); break; }
      case 29: { CharSequence cs = x.subSequence(0, x.length() / 2); o.k("subseq").s(cs.toString()).i(cs.length()); break; }
      case 30: { byte[] b = x.getBytes(); o.k("bytes").bytes(b).s(new String(b)); break; }
      case 31: { char[] c = x.toCharArray(); int a = s.below(c.length + 1), l = s.below(c.length - a + 1); o.k("valueOf").s(String.valueOf(c, a, l)); break; }
      case 32: o.k("valueOf").s(String.valueOf(s.bool())).s(String.valueOf(anyCh(s, x))).s(String.valueOf(s.anyInt())).s(String.valueOf(s.anyLong())).s(String.valueOf((Object) null)); break;
      case 33: { String[] parts = x.split(s.bool() ? "a" : "b"); o.k("split").i(parts.length); for (int i = 0; i < parts.length; ++i) o.s(parts[i]); break; }
      case 34: { byte[] b = x.getBytes("UTF-8"); int a = s.below(b.length + 1);
        while (a < b.length && (b[a] & 0xC0) == 0x80) ++a;
        int e = a + s.below(b.length - a + 1);
        while (e < b.length && (b[e] & 0xC0) == 0x80) ++e;
        o.k("utf8sub").i(a).i(e).s(new String(b, a, e - a, "UTF-8")); break; }
      case 35: { String y = sub(s, x); int i = idx(s, x.length()); o.k("idx3").i(x.indexOf(y, i)); break; }
      case 36: { String y = x.substring(x.length() / 2); String z = y.substring(y.length() / 2); o.k("nested").s(z).i(z.hashCode()).bytes(z.getBytes("UTF-8")); break; }
      case 37: { o.k("copy").z(new String(x).equals(x)).s(new String(x)); break; }
      case 38: { String y = pick(s); int c = x.compareTo(y), d = y.compareTo(x); o.k("antisym").z(c == -d); break; }
      default: { StringBuffer b = new StringBuffer(x); o.k("sb").s(b.toString()).i(b.length()); break; }
    }
  }

  // the reference replaces through a regex, which does not match half a surrogate pair
  static boolean surr(String x) {
    return x.length() > 0 && (x.charAt(0) >= 0xDC00 && x.charAt(0) < 0xE000
      || x.charAt(x.length() - 1) >= 0xD800 && x.charAt(x.length() - 1) < 0xDC00);
  }
  static boolean ascii(String x) { for (int i = 0; i < x.length(); ++i) if (x.charAt(i) > 127) return false; return true; }
  static boolean latin(String x) { for (int i = 0; i < x.length(); ++i) if (x.charAt(i) > 255) return false; return true; }
  static String lower(String x) { return ascii(x) ? x.toLowerCase() : x; }
  static String upper(String x) { return ascii(x) ? x.toUpperCase() : x; }

  private void builder(Src s, Out o, int n) {
    StringBuilder b = s.bool() ? new StringBuilder() : new StringBuilder(pick(s));
    for (int k = 0; k < n; ++k) {
      try {
        switch (s.below(20)) {
          case 0: b.append(pick(s)); break;
          case 1: case 2: { int r = s.below(40); for (int i = 0; i < r; ++i) b.append((char) ('A' + i)); break; }
          case 3: b.append(s.anyInt()).append(s.bool()).append(s.anyLong()); break;
          case 4: { int i = idx(s, b.length()); o.k("ins").i(i); b.insert(i, sub(s, pick(s))); break; }
          case 5: { int i = idx(s, b.length()); o.k("insc").i(i); b.insert(i, anyCh(s, pick(s))); break; }
          case 6: { int i = idx(s, b.length()), j = idx(s, b.length()); o.k("del").i(i).i(j);
            if (i <= j && j <= b.length()) b.delete(i, j); break; }
          case 7: { int i = b.length() == 0 ? 0 : s.below(b.length()); if (b.length() > 0) b.deleteCharAt(i); break; }
          case 8: { int i = idx(s, b.length()), j = idx(s, b.length()); o.k("repl").i(i).i(j);
            if (i <= j && j <= b.length()) b.replace(i, j, sub(s, pick(s))); break; }
          case 9: { String y = sub(s, b.toString()); o.k("idx").i(b.indexOf(y)).i(b.lastIndexOf(y)); break; }
          case 10: { int v = b.length() == 0 ? 0 : s.below(b.length() + 1); o.k("setLength").i(v); b.setLength(v); break; }
          case 11: { int i = idx(s, b.length()); o.k("charAt").i(i); o.i(b.charAt(i)); break; }
          case 12: { if (b.length() > 0) b.setCharAt(s.below(b.length()), anyCh(s, pick(s))); break; }
          case 13: { int i = s.below(b.length() + 1), j = i + s.below(b.length() - i + 1); o.k("sub").s(b.substring(i, j)).s(b.substring(i)); break; }
          case 14: { char[] c = pick(s).toCharArray(); int a = s.below(c.length + 1); b.append(c, a, s.below(c.length - a + 1)); break; }
          case 15: { String y = pick(s); int a = s.below(y.length() + 1); b.append(y, a, a + s.below(y.length() - a + 1)); break; }
          case 16: b.append((Object) null).append((String) null).append(pick(s).toCharArray()); break;
          case 17: { char[] d = new char[b.length() + 2]; int i = s.below(b.length() + 1), j = i + s.below(b.length() - i + 1); b.getChars(i, j, d, s.below(2)); o.s(new String(d)); break; }
          case 18: { int v = b.length(); if (b.length() > 200) b.delete(0, b.length() - s.below(20)); break; }
          default: b.append(anyCh(s, pick(s))); break;
        }
      } catch (IndexOutOfBoundsException e) {
        o.k("IOOBE");
        o.tag("range-error");
      }
      o.i(b.length());
      if (s.below(3) == 0) o.s(b.toString());
      o.nl();
    }
    o.s(b.toString());
  }

  private void buffer(Src s, Out o, int n) {
    StringBuffer b = s.bool() ? new StringBuffer() : new StringBuffer(pick(s));
    for (int k = 0; k < n; ++k) {
      try {
        switch (s.below(14)) {
          case 0: b.append(pick(s)); break;
          case 1: case 2: { int r = s.below(40); for (int i = 0; i < r; ++i) b.append((char) ('A' + i)); break; }
          case 3: b.append(s.anyInt()).append(s.bool()).append(s.anyLong()); break;
          case 4: { int i = idx(s, b.length()); o.k("ins").i(i); b.insert(i, sub(s, pick(s))); break; }
          case 5: { int i = idx(s, b.length()); o.k("insc").i(i); b.insert(i, anyCh(s, pick(s))); break; }
          case 6: { int i = idx(s, b.length()), j = idx(s, b.length()); o.k("del").i(i).i(j);
            if (i <= j && j <= b.length()) b.delete(i, j); break; }
          case 7: { if (b.length() > 0) b.deleteCharAt(s.below(b.length())); break; }
          case 8: { int i = idx(s, b.length()), j = idx(s, b.length()); o.k("repl").i(i).i(j);
            if (i <= j && j <= b.length()) b.replace(i, j, sub(s, pick(s))); break; }
          case 9: { String y = sub(s, b.toString()); o.k("idx").i(b.indexOf(y)); break; }
          case 10: { int v = b.length() == 0 ? 0 : s.below(b.length() + 1); o.k("setLength").i(v); b.setLength(v); break; }
          case 11: { int i = idx(s, b.length()); o.k("charAt").i(i); o.i(b.charAt(i)); break; }
          case 12: { char[] c = pick(s).toCharArray(); int a = s.below(c.length + 1); b.append(c, a, s.below(c.length - a + 1)); break; }
          default: b.append(anyCh(s, pick(s))); break;
        }
      } catch (IndexOutOfBoundsException e) {
        o.k("IOOBE");
        o.tag("range-error");
      }
      o.i(b.length());
      if (s.below(3) == 0) o.s(b.toString());
      o.nl();
    }
    o.s(b.toString());
  }
}
