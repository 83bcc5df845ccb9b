package vp;

import java.io.*;
import java.util.*;

/** Object streams: round trips, and streams laid out by an independent encoder of the protocol. */
public class SerProp extends Prop {
  public static class Prims implements Serializable {
    private static final long serialVersionUID = 42L;
    byte b; short h; char c; int i; long j; float f; double d; boolean z; transient int skip = 7; static int st = 1;
  }
  public static class Node implements Serializable {
    static final long serialVersionUID = -3L;
    private Object left; protected Object right; public String name; long id; Node next; Prims prims;
  }
  public static class Empty implements Serializable { static final long serialVersionUID = Long.MIN_VALUE; }
  public static class Cust implements Serializable {
    static final long serialVersionUID = 0x123456789abcdefL;
    int kept; Object obj; transient Object extra; transient int[] vals; transient String utf; transient long w; transient double x;
    private void writeObject(ObjectOutputStream o) throws IOException {
      o.defaultWriteObject();
      o.writeInt(vals.length);
      for (int i = 0; i < vals.length; ++i) o.writeInt(vals[i]);
      o.writeUTF(utf); o.writeLong(w); o.writeBoolean(w > 0); o.writeDouble(x);
      o.writeObject(extra);
      o.writeShort((short) w); o.writeByte((byte) w); o.writeChar((char) w); o.writeFloat((float) x);
    }
    private void readObject(ObjectInputStream o) throws IOException, ClassNotFoundException {
      o.defaultReadObject();
      vals = new int[o.readInt()];
      for (int i = 0; i < vals.length; ++i) vals[i] = o.readInt();
      utf = o.readUTF(); w = o.readLong(); if (o.readBoolean() != w > 0) throw new IOException("boolean"); x = o.readDouble();
      extra = o.readObject();
      if (o.readShort() != (short) w || o.readByte() != (byte) w || o.readChar() != (char) w) throw new IOException("narrow");
      float f = o.readFloat(); if (f != (float) x && x == x) throw new IOException("float");
    }
  }
  public static class Base implements Serializable { static final long serialVersionUID = 5L; int bi; Object bo; }
  public static class Sub extends Base { static final long serialVersionUID = 6L; long si; Object so; }
  public static class Sub2 extends Sub { static final long serialVersionUID = 7L; short q; String r; }

  Src s; Out o; List<Object> made; int budget; boolean share;
  static final Class[] TREE = {Prims.class, Node.class, Empty.class, Cust.class};
  static final Class[] GRAPH = {Prims.class, Node.class, Empty.class, Base.class, Sub.class, Sub2.class, Cust.class};

  String str() {
    switch (s.below(6)) {
      case 0: return "";
      case 1: return "\u00e9\u4e2d" + s.below(9);
      case 2: { char[] c = new char[s.pick(new int[] {100, 126, 127, 128, 253, 254, 255, 256, 257, 300, 1000})]; Arrays.fill(c, (char) ('a' + s.below(3))); return new String(c); }
      default: { // no NUL or surrogates: their encoding differs between UTF-8 and the stream's
        StringBuilder b = new StringBuilder(s.str(1 + s.below(8), 1));
        for (int i = 0; i < b.length(); ++i) if (b.charAt(i) == 0 || b.charAt(i) >= 0xd800 && b.charAt(i) < 0xe000) b.setCharAt(i, 'q');
        return b.toString();
      }
    }
  }

  Object obj(int depth) {
    if (s.oneIn(6) || budget <= 0) return null;
    if (s.oneIn(4)) { String t = new String(str()); made.add(t); return t; }
    if (share && !made.isEmpty() && s.oneIn(3)) return made.get(s.below(made.size()));
    --budget;
    Class k = depth <= 0 ? Prims.class : (Class) (share ? GRAPH : TREE)[s.below((share ? GRAPH : TREE).length)];
    if (k == Prims.class) return prims();
    if (k == Empty.class) { Empty e = new Empty(); made.add(e); return e; }
    if (k == Node.class) {
      Node n = new Node(); made.add(n);
      n.left = obj(depth - 1); n.right = obj(depth - 1); n.id = s.anyLong();
      if (s.bool()) { n.name = new String(str()); made.add(n.name); }
      if (s.oneIn(3)) n.prims = prims();
      if (share && s.oneIn(3)) n.next = n;
      return n;
    }
    if (k == Cust.class) {
      Cust c = new Cust(); made.add(c);
      c.kept = s.anyInt(); c.obj = obj(depth - 1); c.vals = new int[s.below(5) == 0 ? s.below(80) : s.below(4)];
      for (int i = 0; i < c.vals.length; ++i) c.vals[i] = s.anyInt();
      c.utf = str(); c.w = s.anyLong(); c.x = s.anyDouble(); c.extra = obj(depth - 1);
      o.tag("custom");
      return c;
    }
    Base b = k == Base.class ? new Base() : k == Sub.class ? new Sub() : new Sub2();
    made.add(b);
    b.bi = s.anyInt(); b.bo = obj(depth - 1);
    if (b instanceof Sub) { ((Sub) b).si = s.anyLong(); ((Sub) b).so = obj(depth - 1); o.tag("superclass"); }
    if (b instanceof Sub2) { ((Sub2) b).q = (short) s.anyInt(); if (s.bool()) { ((Sub2) b).r = new String(str()); made.add(((Sub2) b).r); } }
    return b;
  }

  Prims prims() {
    Prims p = new Prims(); made.add(p);
    p.b = (byte) s.anyInt(); p.h = (short) s.anyInt(); p.c = (char) s.anyInt(); p.i = s.anyInt(); p.j = s.anyLong();
    p.f = (float) s.anyDouble(); p.d = s.anyDouble(); p.z = s.bool();
    return p;
  }

  static void dump(Object x, StringBuilder b, IdentityHashMap<Object, Integer> seen, boolean share) {
    if (x == null) { b.append('0'); return; }
    if (share) {
      Integer n = seen.get(x);
      if (n != null) { b.append('#').append(n); return; }
      seen.put(x, seen.size());
    }
    if (x instanceof String) { b.append('"').append((String) x).append('"'); return; }
    String n = x.getClass().getName();
    b.append(n.substring(n.indexOf('$') + 1)).append('(');
    if (x instanceof Prims) {
      Prims p = (Prims) x;
      b.append(p.b + " " + p.h + " " + (int) p.c + " " + p.i + " " + p.j + " " + Float.floatToIntBits(p.f) + " " + Double.doubleToLongBits(p.d) + " " + p.z);
    } else if (x instanceof Node) {
      Node k = (Node) x;
      b.append(k.id); dump(k.left, b.append(' '), seen, share); dump(k.right, b.append(' '), seen, share); dump(k.name, b.append(' '), seen, share);
      dump(k.next, b.append(' '), seen, share); dump(k.prims, b.append(' '), seen, share);
    } else if (x instanceof Cust) {
      Cust c = (Cust) x;
      b.append(c.kept).append(' ').append(c.utf).append(' ').append(c.w).append(' ').append(Double.doubleToLongBits(c.x));
      for (int i = 0; i < c.vals.length; ++i) b.append(' ').append(c.vals[i]);
      dump(c.obj, b.append(' '), seen, share); dump(c.extra, b.append(' '), seen, share);
    } else if (x instanceof Base) {
      Base c = (Base) x;
      b.append(c.bi); dump(c.bo, b.append(' '), seen, share);
      if (x instanceof Sub) { b.append(' ').append(((Sub) x).si); dump(((Sub) x).so, b.append(' '), seen, share); }
      if (x instanceof Sub2) { b.append(' ').append(((Sub2) x).q); dump(((Sub2) x).r, b.append(' '), seen, share); }
    }
    b.append(')');
  }
  String dump(Object x) { StringBuilder b = new StringBuilder(); dump(x, b, new IdentityHashMap<Object, Integer>(), share); return b.toString(); }

  /* ---- an encoder of the stream protocol of the Java Object Serialization Specification, for the classes above */
  class Enc {
    ByteArrayOutputStream out = new ByteArrayOutputStream();
    IdentityHashMap<Object, Integer> handles = new IdentityHashMap<Object, Integer>();
    int next;
    ByteArrayOutputStream block = new ByteArrayOutputStream();
    boolean oneByOne;

    void u1(int v) { out.write(v); }
    void u2(int v) { u1(v >> 8); u1(v); }
    void u4(int v) { u2(v >> 16); u2(v); }
    void u8(long v) { u4((int) (v >> 32)); u4((int) v); }
    void utf(String t) { try { byte[] a = t.getBytes("UTF-8"); u2(a.length); out.write(a, 0, a.length); } catch (IOException e) { throw new RuntimeException(e); } }
    boolean ref(Object x) {
      Integer h = handles.get(x);
      if (h == null) return false;
      u1(0x71); u4(0x7e0000 + h); return true;
    }
    void flush() {
      byte[] a = block.toByteArray(); block.reset();
      int i = 0;
      while (i < a.length) {
        int n = Math.min(a.length - i, oneByOne ? 1 + s.below(9) : 1024);
        if (n < 256) { u1(0x77); u1(n); } else { u1(0x7a); u4(n); }
        out.write(a, i, n);
        i += n;
      }
    }
    void b1(int v) { block.write(v); }
    void b2(int v) { b1(v >> 8); b1(v); }
    void b4(int v) { b2(v >> 16); b2(v); }
    void b8(long v) { b4((int) (v >> 32)); b4((int) v); }
    void bUtf(String t) { try { byte[] a = t.getBytes("UTF-8"); b2(a.length); block.write(a, 0, a.length); } catch (IOException e) { throw new RuntimeException(e); } }
    void string(String t) {
      if (ref(t)) return;
      u1(0x74); handles.put(t, next++); utf(t);
    }
    void desc(Class k) {
      if (ref(k)) return;
      u1(0x72); utf(k.getName());
      u8(k == Prims.class ? 42L : k == Node.class ? -3L : k == Empty.class ? Long.MIN_VALUE : k == Cust.class ? 0x123456789abcdefL : k == Base.class ? 5L : k == Sub.class ? 6L : 7L);
      handles.put(k, next++);
      u1(k == Cust.class ? 3 : 2);
      String[] f = fields(k);
      u2(f.length);
      for (int i = 0; i < f.length; ++i) {
        int c = f[i].indexOf(':');
        u1(f[i].charAt(0)); utf(f[i].substring(c + 1));
        if (c > 1) string(f[i].substring(0, c).intern());
      }
      u1(0x78);
      if (k == Sub.class) desc(Base.class); else if (k == Sub2.class) desc(Sub.class); else u1(0x70);
    }
    String[] fields(Class k) {
      String P = "Lvp/SerProp$Prims;", S = "Ljava/lang/String;", O = "Ljava/lang/Object;";
      if (k == Prims.class) return new String[] {"B:b", "C:c", "D:d", "F:f", "S:h", "I:i", "J:j", "Z:z"};
      if (k == Node.class) return new String[] {"J:id", O + ":left", S + ":name", "Lvp/SerProp$Node;:next", P + ":prims", O + ":right"};
      if (k == Empty.class) return new String[0];
      if (k == Cust.class) return new String[] {"I:kept", O + ":obj"};
      if (k == Base.class) return new String[] {"I:bi", O + ":bo"};
      if (k == Sub.class) return new String[] {"J:si", O + ":so"};
      return new String[] {"S:q", S + ":r"};
    }
    void write(Object x) {
      flush();
      if (x == null) { u1(0x70); return; }
      if (x instanceof String) { string((String) x); return; }
      if (ref(x)) return;
      u1(0x73); desc(x.getClass());
      handles.put(x, next++);
      if (x instanceof Prims) {
        Prims p = (Prims) x;
        u1(p.b); u2(p.c); u8(Double.doubleToLongBits(p.d)); u4(Float.floatToIntBits(p.f)); u2(p.h); u4(p.i); u8(p.j); u1(p.z ? 1 : 0);
      } else if (x instanceof Node) {
        Node n = (Node) x;
        u8(n.id); write(n.left); write(n.name); write(n.next); write(n.prims); write(n.right);
      } else if (x instanceof Cust) {
        Cust c = (Cust) x;
        u4(c.kept); write(c.obj);
        b4(c.vals.length); for (int i = 0; i < c.vals.length; ++i) b4(c.vals[i]);
        bUtf(c.utf); b8(c.w); b1(c.w > 0 ? 1 : 0); b8(Double.doubleToLongBits(c.x));
        write(c.extra);
        b2((int) c.w); b1((int) c.w); b2((int) c.w); b4(Float.floatToIntBits((float) c.x));
        flush();
        u1(0x78);
      } else if (x instanceof Base) {
        Base b = (Base) x;
        u4(b.bi); write(b.bo);
        if (x instanceof Sub) { u8(((Sub) x).si); write(((Sub) x).so); }
        if (x instanceof Sub2) { u2(((Sub2) x).q); write(((Sub2) x).r); }
      }
    }
  }

  static class Slow extends FilterInputStream { // gives a few bytes at a time
    final int n;
    Slow(InputStream in, int n) { super(in); this.n = n; }
    public int read(byte[] b, int off, int len) throws IOException { return super.read(b, off, Math.min(len, n)); }
  }

  public void run(Src s, Out o) throws Throwable {
    this.s = s; this.o = o; made = new ArrayList<Object>(); budget = 12;
    boolean encoded = s.bool();
    share = encoded;
    int n = 1 + s.below(5);
    int[] kind = new int[n]; Object[] v = new Object[n];
    for (int i = 0; i < n; ++i) {
      kind[i] = s.below(10);
      switch (kind[i]) {
        case 0: v[i] = s.bool(); break;
        case 1: v[i] = (byte) s.anyInt(); break;
        case 2: v[i] = (short) s.anyInt(); break;
        case 3: v[i] = (char) s.anyInt(); break;
        case 4: v[i] = s.anyInt(); break;
        case 5: v[i] = s.anyLong(); break;
        case 6: v[i] = s.bool() ? (Object) (float) s.anyDouble() : (Object) s.anyDouble(); break;
        case 7: v[i] = str(); break;
        default: kind[i] = 8; v[i] = obj(3); if (v[i] != null) o.nt();
      }
    }
    byte[] a;
    if (encoded) {
      o.tag("encoded");
      Enc e = new Enc();
      e.u2(0xaced); e.u2(5);
      e.oneByOne = s.oneIn(3);
      for (int i = 0; i < n; ++i)
        switch (kind[i]) {
          case 0: e.b1((Boolean) v[i] ? 1 : 0); break;
          case 1: e.b1((Byte) v[i]); break;
          case 2: e.b2((Short) v[i]); break;
          case 3: e.b2((Character) v[i]); break;
          case 4: e.b4((Integer) v[i]); break;
          case 5: e.b8((Long) v[i]); break;
          case 6: if (v[i] instanceof Float) e.b4(Float.floatToIntBits((Float) v[i])); else e.b8(Double.doubleToLongBits((Double) v[i])); break;
          case 7: e.bUtf((String) v[i]); break;
          default: e.write(v[i]);
        }
      e.flush();
      a = e.out.toByteArray();
    } else {
      o.tag("written");
      ByteArrayOutputStream bs = new ByteArrayOutputStream();
      ObjectOutputStream os = new ObjectOutputStream(bs);
      for (int i = 0; i < n; ++i)
        switch (kind[i]) {
          case 0: os.writeBoolean((Boolean) v[i]); break;
          case 1: os.writeByte((Byte) v[i]); break;
          case 2: os.writeShort((Short) v[i]); break;
          case 3: os.writeChar((Character) v[i]); break;
          case 4: os.writeInt((Integer) v[i]); break;
          case 5: os.writeLong((Long) v[i]); break;
          case 6: if (v[i] instanceof Float) os.writeFloat((Float) v[i]); else os.writeDouble((Double) v[i]); break;
          case 7: os.writeUTF((String) v[i]); break;
          default: os.writeObject(v[i]);
        }
      os.flush();
      a = bs.toByteArray();
    }
    int bad = s.oneIn(8) ? s.below(4) : -1;
    if (bad >= 0) {
      o.tag("damaged");
      byte[] b = a.clone();
      if (bad == 0) b[s.below(4)] ^= 1 + s.below(255);
      else { int cut = s.below(a.length); b = new byte[cut]; System.arraycopy(a, 0, b, 0, cut); }
      if (!encoded) o.k("own"); // only whether it is refused, the layout is not compared
      try {
        ObjectInputStream in = new ObjectInputStream(new ByteArrayInputStream(b));
        for (int i = 0; i < n; ++i) read(in, kind[i], v[i]);
        o.k("accepted");
      } catch (IOException e) { o.k("refused"); }
      o.nl();
      if (bad == 0) return;
    }
    InputStream is = new ByteArrayInputStream(a);
    if (s.oneIn(3)) is = new Slow(is, 1 + s.below(5));
    ObjectInputStream in = new ObjectInputStream(is);
    for (int i = 0; i < n; ++i) {
      Object g;
      try { g = read(in, kind[i], v[i]); }
      catch (Throwable e) { o.ex(e); o.fail("value " + i + " of kind " + kind[i] + ": " + e + " " + e.getCause() + (e.getCause() == null ? "" : " " + e.getCause().getCause())); return; }
      String want = dump8(v[i], kind[i]), got = dump8(g, kind[i]);
      o.k(got);
      if (!want.equals(got)) o.fail("value " + i + ": wrote " + want + " read " + got);
      o.nl();
    }
    if (encoded || kind[n - 1] == 8) { o.i(in.read()); o.nl(); }
  }

  String dump8(Object v, int kind) {
    if (kind == 8) return dump(v);
    if (v instanceof Float) return "F" + Float.floatToIntBits((Float) v);
    if (v instanceof Double) return "D" + Double.doubleToLongBits((Double) v);
    if (v instanceof Character) return "C" + (int) (Character) v;
    return v.toString();
  }

  static Object read(ObjectInputStream in, int kind, Object v) throws IOException, ClassNotFoundException {
    switch (kind) {
      case 0: return in.readBoolean();
      case 1: return in.readByte();
      case 2: return in.readShort();
      case 3: return in.readChar();
      case 4: return in.readInt();
      case 5: return in.readLong();
      case 6: if (v instanceof Float) return in.readFloat(); return in.readDouble();
      case 7: return in.readUTF();
      default: return in.readObject();
    }
  }
}
