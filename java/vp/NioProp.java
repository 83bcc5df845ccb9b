package vp;

import java.io.*;
import java.nio.*;
import java.nio.channels.*;

/** Histories over families of buffers which share storage, and file channels. */
public class NioProp extends Prop {
  private static void st(Out o, Buffer b) { o.i(b.position()).i(b.limit()).i(b.capacity()); }

  private static int at(Src s, int n) { return s.oneIn(12) ? n + s.below(3) - 1 : n <= 0 ? 0 : s.below(n); }

  private void bytes(Src s, Out o) {
    ByteBuffer[] p = new ByteBuffer[6];
    int np = 0;
    byte[] back = new byte[8 + s.below(60)];
    for (int i = 0; i < back.length; ++i) back[i] = (byte) (i * 37 + 3);
    p[np++] = ByteBuffer.wrap(back);
    p[np++] = s.bool() ? ByteBuffer.allocateDirect(s.below(60)) : ByteBuffer.allocate(s.below(60));
    int off = s.below(back.length), len = s.below(back.length - off + 1);
    p[np++] = ByteBuffer.wrap(back, off, len);
    int n = 4 + s.below(50);
    for (int i = 0; i < n; ++i) {
      int w = s.below(np);
      ByteBuffer b = p[w];
      int op = s.below(40);
      o.i(w).i(op);
      int r = b.remaining(), l = b.limit();
      try {
        switch (op) {
          case 0: b.put((byte) s.anyInt()); break;
          case 1: b.putShort((short) s.anyInt()); break;
          case 2: b.putInt(s.anyInt()); break;
          case 3: b.putLong(s.anyLong()); break;
          case 4: b.putFloat(Float.intBitsToFloat(s.anyInt() & 0x7F7FFFFF)); break;
          case 5: b.putDouble(s.anyInt() * 0.37); break;
          case 6: b.put(at(s, l), (byte) s.anyInt()); break;
          case 7: b.putShort(at(s, l - 1), (short) s.anyInt()); break;
          case 8: b.putInt(at(s, l - 3), s.anyInt()); break;
          case 9: b.putLong(at(s, l - 7), s.anyLong()); break;
          case 10: b.putFloat(at(s, l - 3), Float.intBitsToFloat(s.anyInt() & 0x7F7FFFFF)); break;
          case 11: b.putDouble(at(s, l - 7), s.anyInt() * 0.37); break;
          case 12: { byte[] a = new byte[at(s, r + 1)]; for (int k = 0; k < a.length; ++k) a[k] = (byte) s.below(256); b.put(a); break; }
          case 13: { byte[] a = new byte[r + 5]; for (int k = 0; k < a.length; ++k) a[k] = (byte) (k + i); int q = s.below(5); b.put(a, q, Math.min(at(s, r + 1), a.length - q)); break; }
          case 14: {
            ByteBuffer c = p[s.below(np)];
            if (c != b) { c = c.slice(); if (c.remaining() > r && !s.oneIn(6)) c.limit(r); b.put(c); o.i(c.remaining()); }
            break;
          }
          default: op2(s, o, b, op, r, l); break;
          case 36: if (np < p.length) p[np++] = b.slice(); break;
          case 37: if (np < p.length) p[np++] = b.duplicate(); break;
          case 38: if (np < p.length && s.oneIn(3)) p[np++] = b.asReadOnlyBuffer(); break;
          case 39: { ByteBuffer c = p[s.below(np)]; o.i(sg(b.compareTo(c))).z(b.equals(c)); break; }
        }
      } catch (RuntimeException e) { o.ex(e); }
      st(o, b);
      o.nl();
    }
    for (int i = 0; i < np; ++i) {
      st(o, p[i]);
      o.z(p[i].isReadOnly());
      p[i].clear();
      byte[] a = new byte[p[i].remaining()];
      p[i].get(a);
      o.bytes(a).nl();
    }
    o.nt();
  }
  private static int sg(int x) { return x < 0 ? -1 : x > 0 ? 1 : 0; }

  private void op2(Src s, Out o, ByteBuffer b, int op, int r, int l) {
    switch (op) {
      case 15: o.i(b.get()); break;
      case 16: o.i(b.getShort()); break;
      case 17: o.i(b.getInt()); break;
      case 18: o.i(b.getLong()); break;
      case 19: o.f(b.getFloat()); break;
      case 20: o.d(b.getDouble()); break;
      case 21: o.i(b.get(at(s, l))); break;
      case 22: o.i(b.getShort(at(s, l - 1))); break;
      case 23: o.i(b.getInt(at(s, l - 3))); break;
      case 24: o.i(b.getLong(at(s, l - 7))); break;
      case 25: o.f(b.getFloat(at(s, l - 3))).d(b.getDouble(at(s, l - 7))); break;
      case 26: { byte[] a = new byte[at(s, r + 1)]; b.get(a); o.bytes(a); break; }
      case 27: { byte[] a = new byte[r + 6]; int q = s.below(5); b.get(a, q, Math.min(at(s, r + 1), a.length - q)); o.bytes(a); break; }
      case 28: b.clear(); break;
      case 29: b.flip(); break;
      case 30: b.rewind(); break;
      case 31: b.compact(); break;
      case 32: b.position(at(s, l + 1)); break;
      case 33: b.limit(at(s, b.capacity() + 1)); break;
      case 34: o.i(b.remaining()).z(b.hasRemaining()).z(b.isReadOnly()).z(!b.isReadOnly() && b.hasArray() && b.arrayOffset() > 0); break;
      case 35: if (b.hasArray() && !b.isReadOnly()) { byte[] a = b.array(); o.i(a.length).i(b.arrayOffset()); if (l > 0) o.z(a[b.arrayOffset()] == b.get(0)); } break;
    }
  }

  private void chars(Src s, Out o) {
    CharBuffer[] p = new CharBuffer[5];
    int np = 0;
    char[] back = new char[4 + s.below(30)];
    for (int i = 0; i < back.length; ++i) back[i] = (char) ('a' + i);
    p[np++] = CharBuffer.wrap(back);
    p[np++] = CharBuffer.allocate(s.below(30));
    int n = 4 + s.below(40);
    for (int i = 0; i < n; ++i) {
      int w = s.below(np);
      CharBuffer b = p[w];
      int op = s.below(18), r = b.remaining(), l = b.limit();
      o.i(w).i(op);
      try {
        switch (op) {
          case 0: case 1: b.put((char) ('A' + s.below(60))); break;
          case 2: b.put(at(s, l), (char) s.anyInt()); break;
          case 3: { char[] a = new char[at(s, r + 1)]; for (int k = 0; k < a.length; ++k) a[k] = (char) (k + 'k'); b.put(a); break; }
          case 4: o.i(b.get()); break;
          case 5: o.i(b.get(at(s, l))); break;
          case 6: { char[] a = new char[at(s, r + 1)]; b.get(a); o.s(new String(a)); break; }
          case 7: { char[] a = new char[r + 6]; { int q = s.below(5); b.get(a, q, Math.min(at(s, r + 1), a.length - q)); } o.s(new String(a)); break; }
          case 8: b.clear(); break;
          case 9: b.flip(); break;
          case 10: b.rewind(); break;
          case 11: b.compact(); break;
          case 12: b.position(at(s, l + 1)); break;
          case 13: b.limit(at(s, b.capacity() + 1)); break;
          case 14: if (np < p.length) p[np++] = b.slice(); break;
          case 15: if (np < p.length && s.oneIn(3)) p[np++] = b.asReadOnlyBuffer(); break;
          case 16: { CharBuffer c = p[s.below(np)]; o.i(sg(b.compareTo(c))).z(b.equals(c)); break; }
          default: { CharBuffer c = p[s.below(np)]; if (c != b) { c = c.slice(); if (c.remaining() > r && !s.oneIn(6)) c.limit(r); b.put(c); o.i(c.remaining()); } break; }
        }
      } catch (RuntimeException e) { o.ex(e); }
      st(o, b);
      o.nl();
    }
    for (int i = 0; i < np; ++i) {
      p[i].clear();
      char[] a = new char[p[i].remaining()];
      p[i].get(a);
      o.s(new String(a)).nl();
    }
    o.nt();
  }

  private static int serial;

  private void file(Src s, Out o) throws IOException {
    File f = new File("n" + serial++);
    RandomAccessFile r = new RandomAccessFile(f, "rw");
    try {
      FileChannel c = r.getChannel();
      int n = 3 + s.below(25);
      for (int i = 0; i < n; ++i) {
        int op = s.below(8);
        o.i(op);
        ByteBuffer b = s.oneIn(3) ? ByteBuffer.wrap(new byte[40], s.below(10), s.below(30)) : ByteBuffer.allocate(s.below(50));
        if (s.oneIn(3)) b = b.slice();
        switch (op) {
          case 0: case 1: case 2: {
            for (int k = 0; k < b.remaining(); ++k) b.put(b.position() + k, (byte) (i * 31 + k));
            if (op == 0) o.i(c.write(b, s.below(1 + (int) c.size()))); else o.i(c.write(b));
            break;
          }
          case 3: o.i(c.read(b)); break;
          case 4: o.i(c.read(b, s.below(20 + (int) c.size()))); break;
          case 5: c.position(s.below(1 + (int) c.size())); break;
          case 6: o.i(c.size()).i(c.position()); break;
          default: o.z(c.isOpen());
        }
        o.i(b.position()).i(b.remaining()).i(c.position());
        b.clear();
        byte[] a = new byte[b.remaining()];
        b.get(a);
        o.bytes(a).nl();
      }
      o.nt();
    } finally { r.close(); f.delete(); }
  }

  private void channels(Src s, Out o) throws IOException {
    byte[] d = new byte[s.below(300)];
    for (int k = 0; k < d.length; ++k) d[k] = (byte) s.below(256);
    ByteArrayOutputStream bo = new ByteArrayOutputStream();
    WritableByteChannel w = Channels.newChannel(bo);
    InputStream src = new IoProp.Slow(d, 1 + s.below(40), true);
    ReadableByteChannel r = Channels.newChannel(src);
    if (s.bool()) r = Channels.newChannel(Channels.newInputStream(r));
    if (s.bool()) w = Channels.newChannel(Channels.newOutputStream(w));
    ByteBuffer b = ByteBuffer.allocate(1 + s.below(60));
    if (s.bool()) { ByteBuffer x = ByteBuffer.wrap(new byte[100], 20, 50); b = x.slice(); }
    int steps = 0;
    while (r.read(b) >= 0 || b.position() > 0) {
      b.flip();
      w.write(b);
      b.compact();
      if (++steps > 5000) { o.fail("no progress"); break; }
    }
    r.close();
    w.close();
    o.check(ZipProp.same(d, bo.toByteArray()), "copied through channels");
    o.bytes(bo.toByteArray()).nl();
    if (d.length > 10) o.nt();
  }

  public void run(Src s, Out o) throws Throwable {
    int k = s.below(10);
    o.tag(k < 5 ? "bytes" : k < 7 ? "chars" : k < 9 ? "file" : "channels");
    if (k < 5) bytes(s, o); else if (k < 7) chars(s, o); else if (k < 9) file(s, o); else channels(s, o);
  }
}
