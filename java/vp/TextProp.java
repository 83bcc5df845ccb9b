package vp;

import java.io.*;
import java.text.*;
import java.util.*;

/** Formatting and parsing of text: Formatter, MessageFormat, dates, Properties, StringTokenizer, Objects. */
public class TextProp extends Prop {
  Src s; Out o;

  public void run(Src s, Out o) throws Throwable {
    this.s = s; this.o = o;
    switch (s.below(8)) {
      case 0: case 1: format(); break;
      case 2: message(); break;
      case 3: dates(); break;
      case 4: properties(); break;
      case 5: tokens(); break;
      case 6: store(); break;
      default: objects();
    }
  }

  String word() { return s.pick(new String[] {"", "a", "Xy", "hello world", "\u00e9\u4e2d", "%", "-12", "null", "a\tb", "q.r"}); }

  void format() {
    o.tag("format");
    int n = 1 + s.below(4);
    StringBuilder f = new StringBuilder();
    List<Object> args = new ArrayList<Object>();
    boolean indexed = s.oneIn(4);
    List<String> specs = new ArrayList<String>();
    for (int i = 0; i < n; ++i) {
      String flags = "", width = "", prec = "", conv; Object arg = null; boolean takes = true;
      boolean left = false;
      switch (s.below(11)) {
        case 0: conv = "%"; takes = false; break;
        case 1: conv = "n"; takes = false; break;
        case 2: conv = s.oneIn(3) ? "B" : "b"; arg = s.pick(new Object[] {null, true, false, "x", 3}); break;
        case 3: conv = s.oneIn(3) ? "S" : "s"; arg = s.oneIn(6) ? null : s.bool() ? word() : (Object) s.anyInt(); if (conv.equals("S") && "\u00e9\u4e2d".equals(arg)) arg = "e"; if (s.oneIn(4)) prec = "." + s.below(6); break;
        case 4: conv = s.oneIn(3) ? "H" : "h"; arg = s.oneIn(6) ? null : s.bool() ? word() : (Object) s.anyInt(); break;
        case 5: conv = s.oneIn(3) ? "C" : "c"; arg = s.bool() ? (Object) (char) ('a' + s.below(20)) : (Object) (65 + s.below(60)); break;
        case 6: conv = "x"; arg = number(); break;
        case 7: conv = s.oneIn(2) ? "X" : "o"; arg = number(); break;
        default: conv = "d"; arg = number();
      }
      boolean num = "dxXo".contains(conv);
      if (takes && s.bool()) {
        width = "" + (1 + s.below(24));
        if (s.oneIn(3)) { flags += "-"; left = true; }
        else if (num && s.oneIn(3)) { flags += "0"; o.tag("zero-pad"); }
      }
      String idx = "";
      if (takes) {
        args.add(arg);
        if (indexed) idx = args.size() + "$";
      }
      specs.add("%" + idx + flags + width + prec + conv);
    }
    // with explicit indices the order does not matter
    if (indexed && specs.size() > 1 && s.bool()) { String t = specs.remove(0); specs.add(t); }
    for (int i = 0; i < specs.size(); ++i) f.append(s.pick(new String[] {"", "", "x", " - ", "\u00e9", "d"})).append(specs.get(i));
    f.append(s.pick(new String[] {"", "end"}));
    if (s.oneIn(12) && !args.isEmpty()) { args.remove(args.size() - 1); o.tag("missing-arg"); }
    Object[] a = args.toArray();
    o.nt();
    o.s(f.toString()).nl();
    String r;
    try {
      switch (s.below(4)) {
        case 0: r = new Formatter().format(f.toString(), a).toString(); break;
        case 1: { StringBuilder b = new StringBuilder("pre"); Formatter k = new Formatter(b); k.format(f.toString(), a); k.format("%s", "again"); r = b.toString(); break; }
        case 2: { ByteArrayOutputStream b = new ByteArrayOutputStream(); PrintStream p = new PrintStream(b); p.printf(f.toString(), a); p.flush(); r = b.toString(); break; }
        default: r = String.format(f.toString(), a);
      }
      o.s(r).nl();
    } catch (IllegalArgumentException e) { o.k("refused").nl(); }
    catch (IllegalStateException e) { o.k("refused").nl(); }
  }
  Object number() {
    switch (s.below(4)) {
      case 0: return s.anyLong();
      case 1: return (short) s.anyInt();
      case 2: return (byte) s.anyInt();
      default: return s.anyInt();
    }
  }

  /** two quotes never adjoin: what that means is left open */
  static void quote(StringBuilder b, String q) {
    if (b.length() > 0 && b.charAt(b.length() - 1) == '\'') b.append('.');
    b.append(q);
  }
  void message() {
    o.tag("message");
    int n = 1 + s.below(12);
    StringBuilder b = new StringBuilder();
    Object[] args = new Object[1 + s.below(11)];
    for (int i = 0; i < args.length; ++i) args[i] = s.oneIn(6) ? null : word() + i;
    for (int i = 0; i < n; ++i)
      switch (s.below(6)) {
        case 0: quote(b, "''"); break;
        case 1: quote(b, "'{" + s.below(3) + "}'"); break;
        case 2: quote(b, "'quoted {'"); break;
        case 3: b.append(s.pick(new String[] {"a", " ", "\u00e9", "text", "%s"})); break;
        default: b.append("{" + s.below(args.length) + "}"); o.nt();
      }
    o.s(b.toString());
    try {
      if (s.bool()) o.s(MessageFormat.format(b.toString(), args));
      else { MessageFormat m = new MessageFormat("{0}"); o.s(m.toPattern()); m.applyPattern(b.toString()); o.s(m.format(args, new StringBuffer("x"), new FieldPosition(0)).toString()); }
    } catch (IllegalArgumentException e) { o.ex(e); }
    o.nl();
  }

  static final TimeZone GMT = TimeZone.getTimeZone("GMT");
  void dates() {
    o.tag("date");
    SimpleDateFormat f = new SimpleDateFormat("yyyy-MM-dd'T'HH:mm:ss");
    f.setTimeZone(GMT);
    int n = 1 + s.below(5);
    for (int i = 0; i < n; ++i) {
      long t;
      switch (s.below(5)) {
        case 0: t = s.below(2000000000) * 1000L; break;
        case 1: { // close to the turn of a year or month
          int y = s.below(400), m = s.below(12);
          t = (y * 365L + y / 4 + m * 30) * 86400000L + (s.below(5) - 2) * 86400000L + s.below(86400000); break; }
        case 2: t = (s.below(6000) * 86400000L) + s.pick(new Long[] {0L, 1L, 999L, 1000L, 86399999L, 86399000L, 43200000L, 3600000L, 59999L}) ; break;
        case 3: t = s.range(-140000, 150000) * 86400000L; break;
        default: t = (s.anyLong() & Long.MAX_VALUE) % (253402300799999L + 12212553600000L) - 12212553600000L; // from 1583
      }
      o.i(t).s(f.format(new Date(t), new StringBuffer("<"), new FieldPosition(0)).toString());
      o.i(new Date(t).getTime());
      String x = f.format(new Date(t), new StringBuffer(), new FieldPosition(0)).toString();
      Date back = f.parse(x, new ParsePosition(0));
      o.i(back.getTime() / 1000);
      if (back.getTime() != t - (t % 1000 + 1000) % 1000) o.fail("date " + x + " reads back as " + back.getTime());
      if (s.bool()) {
        o.tag("parse");
        o.nt();
        String y = s.pick(new String[] {"", "ab", "2000-01-01T00:00:00"}) + x;
        int at = y.length() - x.length();
        if (s.oneIn(3)) { int cut = s.below(y.length() + 1); if (cut > at && (cut - at < 4 || (cut - at) % 3 == 0)) cut = at; y = y.substring(0, cut); }
        else if (s.oneIn(3)) { int p = at + s.below(18); y = y.substring(0, p) + s.pick(new String[] {"x", "/", "?"}) + y.substring(p + 1); }
        if (at > y.length()) continue;
        ParsePosition pos = new ParsePosition(at);
        Date d = f.parse(y, pos);
        o.s(y).z(d == null); if (d != null) o.i(d.getTime() / 1000).i(pos.getIndex());
      }
      o.nl();
    }
  }

  String escaped(String t, boolean key) {
    StringBuilder b = new StringBuilder();
    for (int i = 0; i < t.length(); ++i) {
      char c = t.charAt(i);
      if (c > 126) b.append("\\u" + "0123456789abcdef".charAt(c >> 12) + "0123456789ABCDEF".charAt((c >> 8) & 15) + "0123456789abcdef".charAt((c >> 4) & 15) + "0123456789abcdef".charAt(c & 15));
      else if (c == '\n') b.append("\\n");
      else if (c == '\\') b.append("\\\\");
      else if (c == ' ' && (key || i == 0)) b.append("\\ ");
      else if ((c == '=' || c == ':' || c == '#' || c == '!') && (key || i == 0)) b.append('\\').append(c);
      else b.append(c);
    }
    return b.toString();
  }
  String pkey(boolean key) {
    int n = (key ? 1 : 0) + s.below(6);
    StringBuilder b = new StringBuilder();
    for (int i = 0; i < n; ++i) b.append(s.pick(new String[] {"a", "b", "n", "u", "key", ".", "1", "-", "=", ":", "\\", "\u00e9", "\u4e2d", " ", "#", "!", "\n", "t"}));
    if (!key) while (b.length() > 0 && b.charAt(b.length() - 1) <= ' ') b.setLength(b.length() - 1);
    return b.toString();
  }
  void dump(Properties p) {
    TreeMap<String, String> t = new TreeMap<String, String>();
    for (Enumeration e = p.propertyNames(); e.hasMoreElements();) { String k = (String) e.nextElement(); t.put(k, p.getProperty(k)); }
    for (Map.Entry<String, String> e : t.entrySet()) o.s(e.getKey()).s(e.getValue());
    o.i(p.size()).i(p.stringPropertyNames().size()).s(p.getProperty("no")).s(p.getProperty("no", "dflt")).nl();
  }
  void properties() throws Exception {
    o.tag("properties");
    int n = s.below(7);
    StringBuilder b = new StringBuilder();
    Map<String, String> want = new TreeMap<String, String>();
    for (int i = 0; i < n; ++i) {
      String k = pkey(true), v = pkey(false);
      switch (s.below(6)) { case 0: b.append("# a = comment\n"); break; case 1: b.append("! k: v\n"); break; case 2: b.append("\n"); break; case 3: b.append("   \n"); break; }
      if (s.oneIn(4)) b.append(s.pick(new String[] {" ", "\t", "  "}));
      String sep = s.pick(new String[] {"=", ":", " = ", " : ", "= ", "\t=", " "});
      if (v.length() == 0 && sep.equals(" ") && s.bool()) sep = "";
      b.append(escaped(k, true)).append(sep).append(escaped(v, false));
      if (i < n - 1 || s.bool()) b.append(s.oneIn(4) ? "\r\n" : "\n");
      want.put(k, v);
      o.nt();
    }
    String t = b.toString();
    o.s(t).nl();
    Properties p = new Properties();
    if (s.bool()) p.load(new ByteArrayInputStream(t.getBytes("ISO-8859-1"))); else p.load(new StringReader(t));
    dump(p);
    for (Map.Entry<String, String> e : want.entrySet()) if (!e.getValue().equals(p.getProperty(e.getKey()))) o.fail("key " + e.getKey());
    if (s.bool()) { o.s((String) p.setProperty("new", "v")); dump(p); }
  }
  void store() throws Exception {
    o.tag("store");
    Properties p = new Properties();
    Map<String, String> want = new TreeMap<String, String>();
    int n = s.below(6);
    for (int i = 0; i < n; ++i) { String k = s.pick(new String[] {"a", "key", "b.c", "x-y", "k1"}) + s.below(4), v = s.pick(new String[] {"", "v", "some text", "1=2", "a:b", "x#y", "q!"}) + s.below(3); o.s((String) p.setProperty(k, v)); want.put(k, v); o.nt(); }
    ByteArrayOutputStream out = new ByteArrayOutputStream();
    p.store(out, "a comment");
    Properties q = new Properties();
    q.load(new ByteArrayInputStream(out.toByteArray()));
    dump(q);
    for (Map.Entry<String, String> e : want.entrySet()) if (!e.getValue().equals(q.getProperty(e.getKey()))) o.fail("key " + e.getKey() + " is " + q.getProperty(e.getKey()) + " not " + e.getValue());
  }

  void tokens() {
    o.tag("tokens");
    int n = s.below(14);
    StringBuilder b = new StringBuilder();
    for (int i = 0; i < n; ++i) b.append(s.pick(new String[] {"a", "bc", " ", ",", ";", "\t", "\n", "\u00e9", "."}));
    String delim = s.pick(new String[] {" ", ",", ", ;", " \t\n\r\f", "\u00e9", ""});
    StringTokenizer t;
    switch (s.below(4)) {
      case 0: t = new StringTokenizer(b.toString()); break;
      case 1: t = new StringTokenizer(b.toString(), delim); break;
      default: t = new StringTokenizer(b.toString(), delim, s.bool());
    }
    o.s(b.toString());
    if (n > 2) o.nt();
    for (int i = 0; i < 20; ++i) {
      switch (s.below(5)) {
        case 0: o.i(t.countTokens()); break;
        case 1: o.z(t.hasMoreTokens()).z(t.hasMoreElements()); break;
        case 2: if (s.oneIn(3)) { try { o.s(t.nextToken(s.pick(new String[] {" ", ",", ";a"}))); } catch (NoSuchElementException e) { o.ex(e); } break; }
        default: try { o.s(s.bool() ? t.nextToken() : (String) t.nextElement()); } catch (NoSuchElementException e) { o.ex(e); }
      }
    }
    o.nl();
  }

  Object thing(int d) {
    switch (s.below(d > 0 ? 9 : 5)) {
      case 0: return null;
      case 1: return s.below(3);
      case 2: return s.pick(new String[] {"a", "b"});
      case 3: return (long) s.below(3);
      case 4: return s.bool();
      case 5: { int[] a = new int[s.below(3)]; for (int i = 0; i < a.length; ++i) a[i] = s.below(2); return a; }
      case 6: { double[] a = new double[s.below(3)]; for (int i = 0; i < a.length; ++i) a[i] = s.pick(new Double[] {0.0, -0.0, Double.NaN}); return a; }
      default: { Object[] a = new Object[s.below(3)]; for (int i = 0; i < a.length; ++i) a[i] = thing(d - 1); return a; }
    }
  }
  void objects() {
    o.tag("objects");
    for (int i = 0; i < 6; ++i) {
      Object a = thing(2), b = s.oneIn(3) ? a : thing(2);
      o.nt();
      o.z(Objects.equals(a, b)).z(Objects.deepEquals(a, b));
      if (a == null || !a.getClass().isArray()) { o.i(Objects.hashCode(a)); o.i(Objects.hash(a, 1, "x")); o.s(Objects.toString(a)).s(Objects.toString(a, "none")); }
      try { o.z(Objects.requireNonNull(a) == a); } catch (NullPointerException e) { o.ex(e); }
      try { o.z(Objects.requireNonNull(b, "why") == b); } catch (NullPointerException e) { o.ex(e).s(e.getMessage()); }
      o.nl();
    }
    String l = s.pick(new String[] {"en", "de", ""}), c = s.pick(new String[] {"", "US", "AT"}), v = s.pick(new String[] {"", "POSIX"});
    Locale x = v.length() > 0 ? new Locale(l, c, v) : c.length() > 0 ? new Locale(l, c) : new Locale(l);
    o.s(x.getLanguage()).s(x.getCountry()).s(x.getVariant()).nl();
  }
}
