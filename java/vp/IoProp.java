package vp;

import java.io.*;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.List;

/** Stream, reader, writer and file histories. */
public class IoProp extends Prop {
  /** gives at most a few bytes per call */
  static class Slow extends InputStream {
    final byte[] d; final int max; final boolean avail; int p;
    Slow(byte[] d, int max, boolean avail) { this.d = d; this.max = max; this.avail = avail; }
    public int read() { return p < d.length ? d[p++] & 255 : -1; }
    public int read(byte[] b, int off, int n) {
      if (n == 0) return 0;
      if (p >= d.length) return -1;
      n = Math.min(Math.min(n, max), d.length - p);
      System.arraycopy(d, p, b, off, n);
      p += n;
      return n;
    }
    public int available() { return avail ? d.length - p : 0; }
    public void close() { ++closed; }
  }

  /** the array methods are those of InputStream */
  static class OneByte extends InputStream {
    final byte[] d; int p;
    OneByte(byte[] d) { this.d = d; }
    public void close() { ++closed; }
    public int read() { return p < d.length ? d[p++] & 255 : -1; }
  }
  static int closed;

  static byte[] bytes(Src s, int max) {
    byte[] b = new byte[s.size(max)];
    for (int i = 0; i < b.length; ++i) b[i] = (byte) (s.oneIn(5) ? s.pick(new int[] {10, 13, 0, 255, 128, 127}) : s.below(256));
    return b;
  }

  private InputStream source(Src s, byte[] d) {
    closed = 0;
    InputStream in = s.oneIn(4) ? new ByteArrayInputStream(d) { public void close() { ++closed; } } : new Slow(d, s.pick(new int[] {1, 2, 3, 10, 1000}), s.bool());
    if (s.oneIn(8)) in = new OneByte(d);
    if (s.bool()) in = s.bool() ? new BufferedInputStream(in) : new BufferedInputStream(in, 1 + s.below(20));
    return in;
  }

  /** reads n bytes or all there are: how many a single call gives is not compared */
  static int full(InputStream in, byte[] b, int off, int n, Out o) throws IOException {
    int k = 0;
    while (k < n) {
      int c = in.read(b, off + k, n - k);
      if (c == 0 || c > n - k) { o.fail("read returned " + c); return k; }
      if (c < 0) break;
      k += c;
    }
    return k;
  }

  private void input(Src s, Out o) throws IOException {
    byte[] d;
    if (s.bool()) d = bytes(s, 200);
    else {
      // data written by the other side of the interface
      ByteArrayOutputStream bo = new ByteArrayOutputStream();
      DataOutputStream w = new DataOutputStream(bo);
      for (int k = s.below(12); k > 0; --k) data(s, w, o);
      d = bo.toByteArray();
      o.bytes(d).nl();
    }
    DataInputStream in = new DataInputStream(source(s, d));
    int n = 1 + s.below(25), eof = 0;
    for (int i = 0; i < n && eof < 3; ++i) {
      int op = s.below(18);
      o.i(op);
      try {
        switch (op) {
          case 0: o.i(in.readByte()); break;
          case 1: o.i(in.readUnsignedByte()); break;
          case 2: o.i(in.readShort()); break;
          case 3: o.i(in.readUnsignedShort()); break;
          case 4: o.i(in.readChar()); break;
          case 5: o.i(in.readInt()); break;
          case 6: o.i(in.readLong()); break;
          case 7: o.f(in.readFloat()); break;
          case 8: o.d(in.readDouble()); break;
          case 9: o.z(in.readBoolean()); break;
          case 10: case 11: { byte[] b = new byte[s.below(20)]; in.readFully(b); o.bytes(b); break; }
          case 12: { byte[] b = new byte[s.below(20) + 4]; in.readFully(b, 2, b.length - 4); o.bytes(b); break; }
          case 13: { byte[] b = new byte[s.below(30) + 4]; o.i(full(in, b, 3, b.length - 4, o)).bytes(b); break; }
          case 14: o.i(in.read()); break;
          case 15: { int a = in.available(); o.check(a >= 0 && a <= d.length, "available " + a); break; }
          case 16: { long k = s.below(8); while (k > 0) { long c = in.skip(k); if (c <= 0) break; k -= c; } o.i(k); break; }
          default: if (s.oneIn(3)) o.s(in.readUTF()); else o.i(in.read());
        }
      } catch (EOFException e) { o.ex(e); ++eof; if (op >= 10) break; }
      catch (UTFDataFormatException e) { o.ex(e); break; }
      if (op == 17 && eof > 0) break;
      if (eof > 0 && op > 1) break; // how much was consumed is unspecified
    }
    byte[] rest = new byte[300];
    if (eof == 0) { int k = full(in, rest, 0, 300, o); o.i(k).bytes(rest, 0, k); o.i(in.read()); o.i(in.read(new byte[4])); }
    o.nl();
    if (d.length > 5 && n > 3) o.nt();
  }

  private void data(Src s, DataOutputStream w, Out o) throws IOException {
    switch (s.below(12)) {
      case 0: w.writeByte(s.anyInt()); break;
      case 1: w.writeShort(s.anyInt()); break;
      case 2: w.writeChar(s.anyInt()); break;
      case 3: w.writeInt(s.anyInt()); break;
      case 4: w.writeLong(s.anyLong()); break;
      case 5: w.writeFloat(s.anyFloat()); break;
      case 6: w.writeDouble(s.anyDouble()); break;
      case 7: w.writeBoolean(s.bool()); break;
      case 8: { String t = s.str(s.pick(new int[] {Src.ASCII, Src.LATIN, Src.BMP}), 30); w.writeUTF(t); break; }
      case 9: w.writeChars(s.str(Src.BMP, 8)); break;
      case 10: w.writeBytes(s.str(Src.ASCII, 8)); break;
      default: { byte[] b = bytes(s, 12); if (s.bool()) w.write(b); else { int k = s.below(b.length + 1); w.write(b, k, b.length - k); } }
    }
  }

  private void output(Src s, Out o) throws IOException {
    ByteArrayOutputStream bo = s.bool() ? new ByteArrayOutputStream() : new ByteArrayOutputStream(1 + s.below(40));
    OutputStream os = bo;
    for (int k = s.below(3); k > 0; --k) os = s.bool() ? new BufferedOutputStream(os, 1 + s.below(30)) : new BufferedOutputStream(os);
    DataOutputStream w = new DataOutputStream(os);
    int n = 1 + s.below(25);
    for (int i = 0; i < n; ++i) {
      if (s.oneIn(8)) { w.flush(); o.i(bo.size()).bytes(bo.toByteArray()); }
      else if (s.oneIn(8)) { byte[] b = new byte[s.below(3000)]; for (int k = 0; k < b.length; ++k) b[k] = (byte) (k * 7 + n); w.write(b); }
      else data(s, w, o);
      if (os == bo && s.oneIn(12)) { o.bytes(bo.toByteArray()); bo.reset(); }
    }
    w.close();
    o.bytes(bo.toByteArray()).nl();
    ByteArrayOutputStream b2 = new ByteArrayOutputStream();
    bo.writeTo(b2);
    o.check(Arrays.toString(b2.toByteArray()).equals(Arrays.toString(bo.toByteArray())), "writeTo");
    if (n > 3) o.nt();
  }

  static String text(Src s) {
    StringBuilder b = new StringBuilder();
    int n = s.below(12);
    int kind = s.pick(new int[] {Src.ASCII, Src.AB, Src.LATIN, Src.BMP, Src.UNICODE});
    for (int i = 0; i < n; ++i) {
      b.append(s.str(kind, s.oneIn(5) ? 90 : 8));
      switch (s.below(6)) { case 0: b.append('\r'); break; case 1: b.append("\r\n"); break; case 2: case 3: b.append('\n'); break; case 4: if (s.oneIn(3)) b.append("\n\n\r\r\n"); break; }
    }
    return b.toString();
  }

  static String wellFormed(String t) {
    StringBuilder b = new StringBuilder();
    for (int i = 0; i < t.length(); ++i) {
      char c = t.charAt(i);
      if (Character.isHighSurrogate(c) && i + 1 < t.length() && Character.isLowSurrogate(t.charAt(i + 1))) { b.append(c).append(t.charAt(++i)); }
      else if (c >= 0xD800 && c < 0xE000 || c == 0) b.append('?');
      else b.append(c);
    }
    return b.toString();
  }

  private static int full(Reader r, char[] b, int off, int n, Out o) throws IOException {
    int k = 0;
    while (k < n) {
      int c = r.read(b, off + k, n - k);
      if (c == 0 || c > n - k) { o.fail("read returned " + c); return k; }
      if (c < 0) break;
      k += c;
    }
    return k;
  }

  private void reader(Src s, Out o) throws IOException {
    String t = wellFormed(text(s));
    byte[] enc = t.getBytes("UTF-8");
    Reader r;
    closed = 0;
    if (s.oneIn(3)) r = new StringReader(t);
    else {
      InputStream in = source(s, enc);
      r = s.bool() ? new InputStreamReader(in) : new InputStreamReader(in, "UTF-8");
    }
    int kind = s.below(5);
    PushbackReader pr = null; BufferedReader br = null; LineNumberReader lr = null;
    if (kind == 1) r = pr = new PushbackReader(r);
    else if (kind == 2 || kind == 3) r = br = s.bool() ? new BufferedReader(r) : new BufferedReader(r, 1 + s.below(20));
    else if (kind == 4) r = br = lr = s.bool() ? new LineNumberReader(r) : new LineNumberReader(r, 1 + s.below(20));
    o.tag(new String[] {"plain", "pushback", "buffered", "buffered", "lines"}[kind]);
    int n = 1 + s.below(25);
    int last = -1;
    boolean pushed = false;
    for (int i = 0; i < n; ++i) {
      int op = s.below(6);
      // single characters are not translated as the original does
      if (lr != null && t.indexOf('\r') >= 0 && op < 4) op = 4 + (op & 1);
      o.i(op);
      switch (op) {
        case 0: case 1: o.i(last = r.read()); pushed = false; break;
        case 2: case 3: {
          char[] b = new char[s.oneIn(5) ? 60 : s.below(9)];
          int k = full(r, b, 0, b.length, o);
          o.i(k).s(new String(b, 0, k));
          if (k > 0) { last = b[k - 1]; pushed = false; }
          break;
        }
        case 4: if (br != null) o.s(br.readLine()); break;
        default:
          if (pr != null && last >= 0 && !pushed) { pr.unread(last); pushed = true; }
          if (lr != null) { o.i(lr.getLineNumber()); if (s.oneIn(9)) lr.setLineNumber(s.below(100)); }
      }
    }
    if (lr == null) {
      char[] b = new char[1500];
      int k = full(r, b, 0, b.length, o);
      o.i(k).s(new String(b, 0, k));
      o.i(r.read());
    } else {
      String l;
      while ((l = lr.readLine()) != null) o.s(l).i(lr.getLineNumber());
    }
    r.close();
    o.z(closed > 0);
    o.nl();
    if (t.length() > 5) o.nt();
  }

  private void writer(Src s, Out o) throws IOException {
    closed = 0;
    ByteArrayOutputStream bo = new ByteArrayOutputStream() { public void close() { ++closed; } };
    StringWriter sw = null;
    Writer w;
    int kind = s.below(4);
    if (kind == 0) w = sw = new StringWriter(); else w = new OutputStreamWriter(bo);
    if (s.bool()) w = s.bool() ? new BufferedWriter(w) : new BufferedWriter(w, 1 + s.below(30));
    PrintWriter pw = null;
    if (s.bool()) { pw = new PrintWriter(w); w = pw; }
    int n = 1 + s.below(20);
    for (int i = 0; i < n; ++i) {
      String t = wellFormed(text(s));
      switch (s.below(7)) {
        case 0: w.write(t); break;
        case 1: w.write(t.toCharArray()); break;
        case 2: { int a = 0, k = t.length(); w.write(t, a, k); break; }
        case 3: w.write('a' + s.below(600)); break;
        case 4: if (pw != null) { if (s.bool()) pw.print(t); else pw.println(t); } break;
        case 5: if (pw != null) switch (s.below(4)) { case 0: pw.println(); break; case 1: pw.print((char) (65 + s.below(50))); break; case 2: pw.println((Object) t); break; default: pw.print((Object) null); } break;
        default: w.flush(); if (sw != null) o.s(sw.toString()); else o.bytes(bo.toByteArray());
      }
    }
    w.close();
    o.z(closed > 0);
    if (sw != null) o.s(sw.toString()).s(sw.getBuffer().toString()); else o.bytes(bo.toByteArray());
    o.nl();
    if (n > 2) o.nt();
  }

  private void print(Src s, Out o) throws IOException {
    ByteArrayOutputStream bo = new ByteArrayOutputStream();
    OutputStream os = s.bool() ? bo : new BufferedOutputStream(bo);
    PrintStream p = s.bool() ? new PrintStream(os) : new PrintStream(os, true);
    int n = 1 + s.below(20);
    for (int i = 0; i < n; ++i) {
      switch (s.below(16)) {
        case 0: p.print(s.anyInt()); break;
        case 1: p.print(s.anyLong()); break;
        case 2: p.print(s.bool()); break;
        case 3: p.print((char) (32 + s.below(500))); break;
        case 4: p.print(wellFormed(text(s))); break;
        case 5: p.print(s.oneIn(3) ? null : (Object) "obj"); break;
        case 6: p.print(wellFormed(text(s)).toCharArray()); break;
        case 7: p.println(s.anyInt()); break;
        case 8: p.println(s.anyLong()); break;
        case 9: p.println(s.bool()); break;
        case 10: p.println((char) (32 + s.below(500))); break;
        case 11: p.println(s.oneIn(4) ? null : wellFormed(text(s))); break;
        case 12: p.println(wellFormed(text(s)).toCharArray()); break;
        case 13: p.println(); break;
        case 14: if (s.bool()) p.write(s.below(256)); else { byte[] b = bytes(s, 20); p.write(b, 0, b.length); } break;
        default: p.flush(); o.bytes(bo.toByteArray());
      }
    }
    p.close();
    o.bytes(bo.toByteArray()).nl();
    if (n > 2) o.nt();
  }

  // ---- files

  private static int serial;

  private static void wipe(File f) {
    String[] l = f.list();
    if (l != null) for (String x : l) wipe(new File(f, x));
    f.delete();
  }

  private static void tree(File f, String at, Out o) throws IOException {
    String[] l = f.list();
    if (l == null) { o.k("-"); return; }
    Arrays.sort(l);
    for (String x : l) {
      File g = new File(f, x);
      o.s(at + x).z(g.isDirectory()).z(g.isFile()).z(g.exists());
      if (g.isFile()) {
        FileInputStream in = new FileInputStream(g);
        byte[] b = new byte[6000];
        int k = full(in, b, 0, b.length, o);
        in.close();
        o.i(g.length()).i(k);
        if (k < 200) o.bytes(b, 0, k); else o.i(ZipModel.crc(b, 0, k));
      } else tree(g, at + x + "/", o);
    }
  }

  private File path(Src s, File base) {
    File f = base;
    for (int k = s.oneIn(3) ? 2 : 1; k > 0; --k) {
      String n = s.pick(new String[] {"a", "b", "c.txt", "d"});
      f = s.bool() ? new File(f, n) : new File(f.getPath(), n);
    }
    return f;
  }

  private void files(Src s, Out o) throws IOException {
    File base = new File("f" + serial++);
    try {
      o.z(base.mkdir()).z(base.mkdir()).nl();
      int n = 2 + s.below(25);
      for (int i = 0; i < n; ++i) {
        File f = path(s, base);
        int op = s.below(14);
        o.i(op).s(f.getName());
        try {
          switch (op) {
            case 0: o.z(f.mkdir()); break;
            case 1: o.z(f.mkdirs()); break;
            case 2: o.z(f.createNewFile()); break;
            case 3: o.z(f.delete()); break;
            case 4: { File g = path(s, base); if (!g.exists() && !g.getPath().startsWith(f.getPath())) o.z(f.renameTo(g)); break; }
            case 5: case 6: {
              OutputStream os = s.bool() ? new FileOutputStream(f) : new FileOutputStream(f.getPath(), s.bool());
              byte[] b = s.oneIn(4) ? new byte[s.below(4000)] : bytes(s, 80);
              for (int k = 0; k < b.length; ++k) if (b.length > 80) b[k] = (byte) (k * 13);
              if (s.oneIn(4)) for (byte x : b) os.write(x); else { int k = s.below(b.length + 1); os.write(b, 0, k); os.write(b, k, b.length - k); }
              os.close();
              break;
            }
            case 7: o.z(f.exists()).z(f.isFile()).z(f.isDirectory()).i(f.isDirectory() ? 0 : f.length()).z(f.canRead()).z(f.canWrite()); break;
            case 8: {
              String[] l = f.list();
              if (l == null) o.k("null"); else { Arrays.sort(l); for (String x : l) o.s(x); }
              File[] fl = f.listFiles(new FilenameFilter() { public boolean accept(File d, String x) { return x.indexOf('.') < 0; } });
              if (fl == null) o.k("null"); else { String[] y = new String[fl.length]; for (int k = 0; k < y.length; ++k) y[k] = fl[k].getPath(); Arrays.sort(y); for (String x : y) o.s(x); }
              break;
            }
            case 9: case 10: raf(s, o, f); break;
            case 11: {
              FileInputStream in = new FileInputStream(f);
              int a = in.available();
              o.i(a);
              long sk = s.below(10), left = sk;
              if (sk < a) { while (left > 0) { long c = in.skip(left); if (c <= 0) break; left -= c; } o.i(left); }
              byte[] b = new byte[60];
              int k = full(in, b, 5, 50, o);
              o.i(k).bytes(b);
              o.i(in.read());
              in.close();
              break;
            }
            case 12: if (s.oneIn(4)) { o.z(f.setExecutable(s.bool()) && f.isFile()).z(f.isFile() && f.length() > 0); } break;
            default: {
              if (f.isFile()) {
                BufferedReader r = new BufferedReader(new FileReader(f));
                int c = 0; while (r.read() >= 0) if (++c > 10000) break;
                r.close();
              }
            }
          }
        } catch (IOException e) { o.k(e instanceof FileNotFoundException ? "!notfound" : "!io"); }
        o.nl();
      }
      tree(base, "", o);
      o.nl();
      o.nt();
    } finally { wipe(base); }
  }

  private void raf(Src s, Out o, File f) throws IOException {
    if (f.isDirectory()) return;
    boolean rw = s.bool();
    RandomAccessFile r = s.bool() ? new RandomAccessFile(f, rw ? "rw" : "r") : new RandomAccessFile(f.getPath(), rw ? "rw" : "r");
    try {
      int n = 1 + s.below(15);
      for (int i = 0; i < n; ++i) {
        int op = s.below(14);
        o.i(op);
        try {
          switch (op) {
            case 0: case 1: r.seek(s.below(s.oneIn(4) ? 200 : 1 + (int) r.length())); break;
            case 2: o.i(r.length()).i(r.getFilePointer()); break;
            case 3: case 4: if (rw) r.write(s.below(256)); break;
            case 5: o.i(r.read()); break;
            case 6: { byte[] b = new byte[10 + s.below(9)]; int k = r.read(b, 2, b.length - 5); o.i(k).bytes(b); break; }
            case 7: { byte[] b = new byte[1 + s.below(5)]; r.readFully(b); o.bytes(b); break; }
            case 8: o.i(r.readInt()); break;
            case 9: o.i(r.readLong()); break;
            case 10: o.i(r.readShort()).i(r.readUnsignedByte()); break;
            case 11: if (r.getFilePointer() <= r.length()) o.i(r.skipBytes(s.below(20) - 2)); break;
            case 12: o.i(r.readChar()).i(r.readByte()).z(r.readBoolean()); break;
            default: if (r.getFilePointer() < r.length()) o.d(r.readDouble()).f(r.readFloat());
          }
        } catch (EOFException e) { o.ex(e); r.seek(0); }
        o.i(r.getFilePointer());
      }
    } finally { r.close(); }
  }

  private void paths(Src s, Out o) throws IOException {
    StringBuilder b = new StringBuilder();
    int n = s.below(6);
    for (int i = 0; i < n; ++i) b.append(s.pick(new String[] {"/", "a", "b", ".x", "..", "."})).append(s.oneIn(3) ? "" : "/");
    String p = b.toString(), q = s.pick(new String[] {"c", "d/e", "x/", "", ".", "/y", "f//g"});
    File[] fs = {new File(p), new File(p, q), new File(new File(p), q), new File((File) null, q.length() == 0 ? "z" : q)};
    for (int i = 0; i < fs.length; ++i) {
      File f = fs[i];
      if (i > 0 && p.length() == 0 && i < 3) continue;
      o.s(f.getPath()).s(f.getName()).s(f.getParent()).s(f.toString()).z(f.isAbsolute());
      File g = f.getParentFile();
      o.s(g == null ? null : g.getPath());
      if (f.isAbsolute()) o.s(f.getAbsolutePath()).s(f.getAbsoluteFile().getPath());
    }
    o.nl();
    if (p.length() > 2) o.nt();
  }

  public void run(Src s, Out o) throws Throwable {
    int k = s.below(12);
    o.tag(new String[] {"input", "input", "output", "output", "reader", "reader", "writer", "print", "files", "files", "files", "paths"}[k]);
    if (k < 2) input(s, o); else if (k < 4) output(s, o); else if (k < 6) reader(s, o); else if (k < 7) writer(s, o);
    else if (k < 8) print(s, o); else if (k < 11) files(s, o); else paths(s, o);
  }
}
