package vp;

import java.util.BitSet;
import java.util.Random;

/** Histories of operations on the wrapper classes, Math, Random and BitSet. */
public class NumProp extends Prop {
  private String digits(Src s, int radix) {
    int n = s.oneIn(6) ? s.below(70) : s.below(12);
    StringBuilder b = new StringBuilder();
    switch (s.below(6)) { case 0: b.append('-'); break; case 1: if (s.oneIn(3)) b.append('+'); break; }
    if (s.oneIn(6)) b.append(s.pick(new String[] {"0x", "0X", "#", "0", "-", "+", "00000000000000000000000"}));
    for (int i = 0; i < n; ++i) {
      int d = s.below(s.oneIn(60) ? 36 : radix);
      char c = (char) (d < 10 ? '0' + d : (s.bool() ? 'a' : 'A') + d - 10);
      b.append(c);
    }
    if (s.oneIn(20)) b.insert(s.below(b.length() + 1), s.pick(new String[] {" ", "-", "+", "_", ".", "L", "z", "\0", "/", ":", "@", "[", "`", "{"}));
    return b.toString();
  }

  private String intText(Src s, int radix) {
    switch (s.below(4)) {
      case 0: return digits(s, radix);
      case 1: return Integer.toString(s.anyInt(), radix);
      case 2: {
        // around the limits of int and of long
        long v = s.bool() ? Integer.MAX_VALUE : Integer.MIN_VALUE;
        v += s.below(7) - 3;
        return Long.toString(v, radix);
      }
      default: return Long.toString(s.anyLong(), radix);
    }
  }

  private String decimal(Src s) {
    StringBuilder b = new StringBuilder();
    if (s.oneIn(3)) b.append('-');
    int n = 1 + s.below(s.oneIn(4) ? 30 : 8);
    for (int i = 0; i < n; ++i) b.append((char) ('0' + s.below(10)));
    if (s.bool()) {
      b.append('.');
      n = 1 + s.below(s.oneIn(4) ? 30 : 8);
      for (int i = 0; i < n; ++i) b.append((char) ('0' + s.below(10)));
    }
    if (s.bool()) {
      b.append(s.bool() ? 'e' : 'E');
      switch (s.below(3)) { case 0: b.append('-'); break; case 1: b.append('+'); break; }
      b.append(s.below(s.oneIn(4) ? 400 : 40));
    }
    if (s.oneIn(12)) b.append(s.pick(new String[] {"x", "e", "e+", "..", "-", " 1", "1e5e5", ",", "%"}));
    return b.toString();
  }

  private void ints(Src s, Out o) {
    int v = s.anyInt();
    long l = s.anyLong();
    int radix = s.oneIn(3) ? 2 + s.below(35) : 10;
    switch (s.below(17)) {
      case 0: o.s(Integer.toString(v)).s(String.valueOf(v)).s(new Integer(v).toString()); break;
      case 1: o.s(Integer.toString(v, radix)); break;
      case 2: o.s(Integer.toHexString(v)); break;
      case 3: o.s(Integer.toOctalString(v)).s(Integer.toBinaryString(v)); break;
      case 4: o.s(Long.toString(l)).s(String.valueOf(l)).s(new Long(l).toString()); break;
      case 5: o.s(Long.toString(l, radix)); break;
      case 6: o.s(Long.toHexString(l)); break;
      case 7: o.s(Long.toOctalString(l)).s(Long.toBinaryString(l)); break;
      case 8: o.i(Integer.signum(v)).i(Integer.bitCount(v)).i(Integer.reverseBytes(v)).i(Integer.numberOfLeadingZeros(v)).i(Long.signum(l)); break;
      case 9: { String t = intText(s, radix); o.s(t).i(Integer.parseInt(t, radix)); break; }
      case 10: { String t = intText(s, radix); o.s(t).i(Long.parseLong(t, radix)); break; }
      case 11: { String t = intText(s, 10); o.s(t).i(Integer.parseInt(t)).i(Integer.valueOf(t).intValue()).i(new Integer(t).intValue()); break; }
      case 12: { String t = intText(s, 10); o.s(t).i(Long.parseLong(t)).i(Long.valueOf(t).longValue()).i(new Long(t).longValue()); break; }
      case 13: {
        String t = s.bool() ? s.pick(new String[] {"0x", "-0x", "#", "0", "-0", "-#", "", "0X"}) + Integer.toString(s.anyInt() & 0x7fffffff, 16) : digits(s, s.bool() ? 8 : 10);
        o.s(t).i(Integer.decode(t).intValue());
        break;
      }
      case 14: { String t = s.bool() ? intText(s, 10) : String.valueOf(s.below(600) - 300); o.s(t).i(Byte.parseByte(t)); break; }
      case 15: {
        // round trips
        o.check(Integer.parseInt(Integer.toString(v, radix), radix) == v, "int round trip " + v);
        o.check(Long.parseLong(Long.toString(l, radix), radix) == l, "long round trip " + l);
        break;
      }
      default: {
        int w = s.oneIn(3) ? v : s.anyInt();
        Integer a = v, b = w;
        Long c = l, d = s.oneIn(3) ? l : s.anyLong();
        o.z(a.equals(b)).i(sg(a.compareTo(b))).z(c.equals(d)).i(sg(c.compareTo(d))).z(a.equals(c)).z(c.equals(null));
        o.i(a.hashCode()).i(c.hashCode());
        o.i(a.byteValue()).i(a.shortValue()).i(a.longValue()).f(a.floatValue()).d(a.doubleValue());
        o.i(c.byteValue()).i(c.shortValue()).i(c.intValue()).f(c.floatValue()).d(c.doubleValue());
        Short e = (short) v, f = (short) w;
        Byte g = (byte) v, h = (byte) w;
        o.z(e.equals(f)).i(e.compareTo(f)).i(e.hashCode()).s(e.toString()).z(g.equals(h)).i(g.compareTo(h)).i(g.hashCode()).s(g.toString()).s(Byte.toString((byte) v)).s(Short.toString((short) v));
        o.i(e.longValue()).i(g.intValue()).d(e.doubleValue()).f(g.floatValue()).i(e.byteValue());
      }
    }
  }

  private static int sg(int x) { return x < 0 ? -1 : x > 0 ? 1 : 0; }

  private void floats(Src s, Out o) {
    double d = s.anyDouble(), e = s.oneIn(3) ? d : s.anyDouble();
    float f = (float) d, g = (float) e;
    switch (s.below(12)) {
      case 0: o.i(Float.compare(f, g)).i(Double.compare(d, e)); o.d(Math.min(d, e)).d(Math.max(d, e)).f(Math.min(f, g)).f(Math.max(f, g)); break;
      case 1: { int a = s.anyInt(), b = s.anyInt(); long x = s.anyLong(), y = s.anyLong();
        o.i(Math.min(a, b)).i(Math.max(a, b)).i(Math.min(x, y)).i(Math.max(x, y)).i(Math.abs(a)).i(Math.abs(x)); break; }
      case 2: o.d(Math.abs(d)).f(Math.abs(f)).d(Math.signum(d)).f(Math.signum(f)); break;
      case 3: o.d(Math.floor(d)).d(Math.ceil(d)).d(Math.sqrt(d)); break;
      case 4: {
        double r = s.bool() ? d : s.anyInt() / 4.0;
        o.d(r).i(Math.round(r)).i(Math.round((float) r)); break; }
      case 5: o.d(d).i(Double.doubleToLongBits(d)).d(Double.longBitsToDouble(s.anyLong())).f(Float.intBitsToFloat(s.anyInt())).i(Float.floatToIntBits(f)).i(Float.floatToRawIntBits(f)); break;
      case 6: o.z(Double.isNaN(d)).z(Double.isInfinite(d)).z(Float.isNaN(f)).z(Float.isInfinite(f)).z(new Double(d).isNaN()).z(new Float(f).isInfinite()); break;
      case 7: {
        Double a = d, b = e;
        o.z(a.equals(a)).i(a.hashCode()).i(a.intValue()).i(a.longValue()).i(a.byteValue()).i(a.shortValue()).f(a.floatValue());
        Float x = f;
        o.z(x.equals(x) || x.isNaN()).i(x.hashCode()).i(x.intValue()).i(x.longValue()).d(x.doubleValue());
        break;
      }
      case 8: { String t = decimal(s); o.s(t).d(Double.parseDouble(t)).d(new Double(t).doubleValue()).d(Double.valueOf(t).doubleValue()); break; }
      case 9: { String t = decimal(s); o.s(t).f(Float.parseFloat(t)).f(Float.valueOf(t).floatValue()); break; }
      case 10: {
        double x = s.anyInt() / 1024.0 / (1 + s.below(100000)), y = (s.anyInt() % 1000) / 16.0;
        switch (s.below(15)) {
          case 0: o.f((float) Math.sin(x)); break;
          case 1: o.f((float) Math.cos(x)); break;
          case 2: o.f((float) Math.tan(x)); break;
          case 3: o.f((float) Math.exp(y)); break;
          case 4: o.f((float) Math.log(x)); break;
          case 5: o.f((float) Math.pow(y, (double) (s.below(21) - 10))); break;
          case 6: o.f((float) Math.atan(x)); break;
          case 7: o.f((float) Math.atan2(x, y)); break;
          case 8: o.f((float) Math.sinh(y / 4)); break;
          case 9: o.f((float) Math.cosh(y / 4)); break;
          case 10: o.f((float) Math.tanh(y)); break;
          case 11: o.f((float) Math.asin(y / 64)); break;
          case 12: o.f((float) Math.acos(y / 64)); break;
          case 13: o.f((float) Math.log(d)).f((float) Math.exp(d)); break;
          default: o.f((float) Math.pow(d, y)).f((float) Math.atan2(d, e)); break;
        }
        break;
      }
      default: {
        // %g keeps six significant digits (see DESIGN.md); the value must survive to that precision
        if (d == d && !Double.isInfinite(d) && (d == 0 || Math.abs(d) > 1e-300)) {
          double b = Double.parseDouble(Double.toString(d));
          o.check(b == d || Math.abs(b - d) <= Math.abs(d) * 1e-5, "double text " + Double.toString(d));
        }
        if (f == f && !Float.isInfinite(f) && (f == 0 || Math.abs(f) > 1e-30f)) {
          float b = Float.parseFloat(Float.toString(f));
          o.check(b == f || Math.abs(b - f) <= Math.abs(f) * 1e-5f, "float text " + Float.toString(f));
        }
        int v = s.below(200000) - 100000;
        o.check(Double.parseDouble(Double.toString(v)) == v, "small double text " + v);
      }
    }
  }

  private void chars(Src s, Out o) {
    char c = s.oneIn(3) ? (char) s.below(128) : s.ch(Src.ASCII);
    int v = s.anyInt();
    switch (s.below(7)) {
      case 0: o.i(c).z(Character.isDigit(c)).z(Character.isLetter(c)).z(Character.isLetterOrDigit(c)).z(Character.isLowerCase(c)).z(Character.isUpperCase(c)).z(Character.isWhitespace(c)).z(Character.isSpaceChar(c)).z(Character.isISOControl(c)); break;
      case 1: o.i(c).i(Character.toLowerCase(c)).i(Character.toUpperCase(c)).i(Character.toLowerCase((int) c)).i(Character.toUpperCase((int) c)); break;
      case 2: o.i(c).i(Character.digit(c, 2 + s.below(35))).i(Character.forDigit(s.below(40) - 2, 2 + s.below(35))); break;
      case 3: o.i(c).z(Character.isJavaIdentifierStart(c)).z(c > 32 && c != 127 && Character.isJavaIdentifierPart(c)); break;
      case 4: {
        int cp = s.below(0x110000);
        char[] a = Character.toChars(cp);
        o.i(cp).z(Character.isSupplementaryCodePoint(cp)).i(a.length).i(a[0]).i(a[a.length - 1]);
        o.z(Character.isHighSurrogate(a[0])).z(Character.isLowSurrogate(a[a.length - 1]));
        if (a.length == 2) o.z(Character.isSurrogatePair(a[0], a[1])).i(Character.toCodePoint(a[0], a[1]));
        String t = s.str(Src.UNICODE, 20);
        if (t.length() > 0) {
          int i = s.below(t.length()), j = i + s.below(t.length() - i + 1);
          o.i(Character.codePointAt(t, i)).i(Character.codePointCount(t, i, j));
        }
        break;
      }
      case 5: { Character a = c, b = (char) v; o.z(a.equals(b)).i(a.compareTo(b)).i(a.hashCode()).s(a.toString()).s(Character.toString((char) v)); break; }
      default: {
        String t = s.pick(new String[] {"true", "TRUE", "True", "false", "yes", "", "tru", "truee", null});
        o.s(t).z(Boolean.parseBoolean(t)).z(Boolean.valueOf(t).booleanValue()).z(new Boolean(t).booleanValue());
        Boolean a = s.bool(), b = s.bool();
        o.z(a.equals(b)).i(a.compareTo(b)).i(a.hashCode()).s(a.toString()).s(Boolean.toString(b.booleanValue()));
      }
    }
  }

  private void random(Src s, Out o) {
    Random r = new Random(s.anyLong());
    int n = 1 + s.below(12);
    for (int i = 0; i < n; ++i) {
      switch (s.below(6)) {
        case 0: o.i(r.nextInt()); break;
        case 1: o.i(r.nextInt(1 + s.below(s.bool() ? 100 : 0x7fffffff))); break;
        case 2: o.i(r.nextLong()); break;
        case 3: o.d(r.nextDouble()); break;
        case 4: { byte[] b = new byte[s.below(20)]; r.nextBytes(b); o.bytes(b); break; }
        default: if (s.oneIn(5)) r.setSeed(s.anyLong()); else o.i(r.nextInt(1 << s.below(31)));
      }
    }
  }

  private static void show(Out o, BitSet b) {
    o.i(b.length()).i(b.cardinality()).z(b.isEmpty());
    for (int i = b.nextSetBit(0); i >= 0; i = b.nextSetBit(i + 1)) o.i(i);
    o.k(";");
  }

  private void bits(Src s, Out o) {
    BitSet[] b = {new BitSet(), new BitSet(1 + s.below(200)), new BitSet(64)};
    int n = 2 + s.below(25), max = s.pick(new int[] {10, 64, 70, 130, 260});
    for (int i = 0; i < n; ++i) {
      BitSet x = b[s.below(3)], y = b[s.below(3)];
      int p = s.below(max), q = p + s.below(max - p + 1);
      int op = s.below(15);
      o.i(op);
      switch (op) {
        case 0: case 1: case 2: x.set(p); break;
        case 3: x.set(p, q); break;
        case 4: x.clear(p); break;
        case 5: x.clear(p, q); break;
        case 6: x.flip(p); break;
        case 7: x.flip(p, q); break;
        case 8: if (x != y) x.and(y); break;
        case 9: if (x != y) x.or(y); break;
        case 10: if (x != y) x.xor(y); break;
        case 11: if (x != y) x.andNot(y); break;
        case 12: o.z(x.intersects(y)); break;
        case 13: o.z(x.get(p)).i(x.nextSetBit(p)).i(x.nextClearBit(p)); break;
        default: show(o, x);
      }
    }
    for (BitSet x : b) show(o, x);
    o.nt();
  }

  public void run(Src s, Out o) throws Throwable {
    int kind = s.below(8);
    o.tag(new String[] {"int", "int", "int", "float", "float", "char", "random", "bitset"}[kind]);
    if (kind == 6) { random(s, o); o.nl(); o.nt(); return; }
    if (kind == 7) { bits(s, o); o.nl(); return; }
    int n = 1 + s.below(8), ok = 0;
    for (int i = 0; i < n; ++i) {
      try {
        if (kind < 3) ints(s, o); else if (kind < 5) floats(s, o); else chars(s, o);
        ++ok;
      } catch (RuntimeException e) { o.ex(e); }
      o.nl();
    }
    if (ok > 0) o.nt();
  }
}
