package vp;

import java.io.ByteArrayInputStream;
import java.io.ByteArrayOutputStream;
import java.io.File;
import java.io.FileOutputStream;
import java.io.IOException;
import java.io.InputStream;
import java.util.ArrayList;
import java.util.Collections;
import java.util.Enumeration;
import java.util.HashMap;
import java.util.List;
import java.util.Map;
import java.util.jar.JarFile;
import java.util.zip.*;

/** Compression streams and archives against ZipModel. */
public class ZipProp extends Prop {
  static byte[] data(Src s) {
    int n;
    switch (s.below(8)) {
      case 0: n = 0; break;
      case 1: n = 1 + s.below(4); break;
      case 2: case 3: n = s.below(200); break;
      case 4: case 5: n = s.below(3000); break;
      case 6: n = 4090 + s.below(12); break;
      default: n = s.below(9000);
    }
    byte[] b = new byte[n];
    int kind = s.below(4);
    long x = s.bits32();
    for (int i = 0; i < n; ++i) {
      x = x * 6364136223846793005L + 1442695040888963407L;
      int r = (int) (x >>> 40);
      switch (kind) {
        case 0: b[i] = (byte) r; break;
        case 1: b[i] = (byte) ('a' + (r % 4 + 4) % 4); break;
        case 2: b[i] = i > 8 && (r & 63) != 0 ? b[i - 8] : (byte) r; break;
        default: b[i] = (byte) (i / 300);
      }
    }
    return b;
  }

  static boolean same(byte[] a, byte[] b) {
    if (a == null || b == null || a.length != b.length) return false;
    for (int i = 0; i < a.length; ++i) if (a[i] != b[i]) return false;
    return true;
  }

  static int chunk(Src s) { return s.pick(new int[] {1, 2, 7, 64, 500, 1024, 5000, 20000}); }

  private void crc(Src s, Out o) {
    byte[] d = data(s);
    CRC32 c = new CRC32();
    if (s.oneIn(3)) { c.update(d.length); c.update(77); c.reset(); }
    for (int i = 0; i < d.length;) {
      int n = Math.min(d.length - i, chunk(s));
      if (n == 1) c.update(d[i]); else c.update(d, i, n);
      i += n;
    }
    o.i(c.getValue());
    o.check(c.getValue() == (ZipModel.crc(d, 0, d.length) & 0xFFFFFFFFL), "crc");
    if (d.length > 0) o.nt();
  }

  private static byte[] pump(Src s, Inflater f, byte[] in, int limit, Out o) throws DataFormatException {
    ByteArrayOutputStream r = new ByteArrayOutputStream();
    int p = 0, oc = chunk(s), ic = chunk(s), spins = 0;
    while (!f.finished() && r.size() <= limit) {
      if (f.needsInput()) {
        if (p == in.length) { o.k("short"); return r.toByteArray(); }
        int n = Math.min(ic, in.length - p);
        f.setInput(in, p, n);
        p += n;
      }
      byte[] b = new byte[oc + 3];
      int n = f.inflate(b, 2, oc);
      if (b[0] != 0 || b[1] != 0 || b[oc + 2] != 0) o.fail("inflate wrote outside the given range");
      r.write(b, 2, n);
      if (n == 0 && ++spins > in.length + 10) { o.fail("no progress"); break; }
    }
    if (f.finished()) o.k("finished").i(in.length - p + f.getRemaining());
    return r.toByteArray();
  }

  private void inflate(Src s, Out o) throws Exception {
    byte[] d = data(s);
    boolean nowrap = s.bool();
    byte[] raw = ZipModel.deflate(s, d);
    byte[] z = nowrap ? raw : ZipModel.zlib(raw, d);
    int damage = s.below(6);
    if (damage == 0) { byte[] x = new byte[s.below(z.length)]; System.arraycopy(z, 0, x, 0, x.length); z = x; o.tag("truncated"); }
    else if (damage == 1) { int k = s.oneIn(3) ? s.below(Math.min(3, z.length)) : s.below(z.length); z[k] ^= (byte) (1 << s.below(8)); o.tag("damaged"); }
    else if (damage == 2) { byte[] x = new byte[z.length + 1 + s.below(9)]; System.arraycopy(z, 0, x, 0, z.length); z = x; o.tag("trailing"); }
    boolean valid = damage > 1;
    if (s.bool()) {
      Inflater f = new Inflater(nowrap);
      if (s.oneIn(4)) { f.setInput(z); try { f.inflate(new byte[10]); } catch (DataFormatException e) { } f.reset(); }
      try {
        byte[] r = pump(s, f, z, 1 << 18, o);
        if (valid) o.check(same(r, d), "inflate result");
        else { o.i(r.length); if (r.length < 300) o.bytes(r); }
        if (damage == 1) o.i(ZipModel.crc(r, 0, r.length));
      } catch (DataFormatException e) { o.ex(e); if (valid) o.fail("DataFormatException"); }
      f.end();
      if (s.oneIn(4)) try { f.inflate(new byte[3]); o.k("?"); } catch (RuntimeException e) { o.k("ended"); }
    } else {
      o.tag("stream");
      final byte[] zz = z; final int mx = chunk(s);
      InputStream in = new ByteArrayInputStream(z) {
        public int read(byte[] b, int off, int n) { return super.read(b, off, Math.min(n, mx)); }
      };
      InputStream is = s.bool() ? new InflaterInputStream(in, new Inflater(nowrap)) : new InflaterInputStream(in, new Inflater(nowrap), 1 + s.below(600));
      try {
        byte[] r = slurp(s, is, o);
        if (valid) o.check(same(r, d), "stream result");
        o.i(r.length);
      } catch (IOException e) { o.k("IOException"); if (valid) o.fail("IOException"); }
      is.close();
    }
    if (d.length > 2) o.nt();
  }

  static byte[] slurp(Src s, InputStream in, Out o) throws IOException {
    ByteArrayOutputStream r = new ByteArrayOutputStream();
    int c = chunk(s);
    while (true) {
      if (s.oneIn(9)) {
        int b = in.read();
        if (b < 0) break;
        r.write(b);
        continue;
      }
      byte[] b = new byte[c + 3];
      int n = in.read(b, 2, c);
      if (n > c || n == 0) { o.fail("read returned " + n); break; }
      if (b[0] != 0 || b[1] != 0 || b[c + 2] != 0) o.fail("read outside the given range");
      if (n < 0) break;
      r.write(b, 2, n);
      if (r.size() > 1 << 18) break;
    }
    return r.toByteArray();
  }

  private void deflate(Src s, Out o) throws Exception {
    byte[] d = data(s);
    boolean nowrap = s.bool();
    int level = s.below(11) - 1;
    ByteArrayOutputStream z = new ByteArrayOutputStream();
    if (s.bool()) {
      Deflater f = level < 0 ? new Deflater() : s.bool() ? new Deflater(level, nowrap) : new Deflater(level);
      if (!(level >= 0)) nowrap = false;
      Deflater g = new Deflater(level < 0 ? 6 : level, nowrap);
      f.end();
      f = g;
      if (s.oneIn(4)) { f.setInput(d); f.deflate(new byte[10]); f.reset(); }
      int p = 0, ic = chunk(s), oc = chunk(s), calls = 0;
      while (!f.finished()) {
        if (f.needsInput()) {
          int n = Math.min(ic, d.length - p);
          if (n > 0 || p == 0 && calls == 0) f.setInput(d, p, n);
          p += n;
          if (p == d.length) f.finish();
        }
        byte[] b = new byte[oc + 3];
        int n = f.deflate(b, 2, oc);
        if (b[0] != 0 || b[1] != 0 || b[oc + 2] != 0) o.fail("deflate wrote outside the given range");
        z.write(b, 2, n);
        if (++calls > 300000) { o.fail("no progress"); break; }
      }
      f.end();
    } else {
      o.tag("stream");
      DeflaterOutputStream os;
      if (s.oneIn(3)) { os = new DeflaterOutputStream(z); nowrap = false; }
      else os = s.bool() ? new DeflaterOutputStream(z, new Deflater(level < 0 ? 6 : level, nowrap)) : new DeflaterOutputStream(z, new Deflater(level < 0 ? 6 : level, nowrap), 1 + s.below(600));
      for (int p = 0; p < d.length;) {
        int n = Math.min(d.length - p, chunk(s));
        if (n == 1) os.write(d[p]); else os.write(d, p, n);
        p += n;
      }
      os.close();
    }
    byte[] c = z.toByteArray();
    int[] end = new int[1];
    byte[] r = ZipModel.inflate(c, nowrap ? 0 : 2, end);
    o.check(same(r, d), "deflated data do not give back the input");
    if (!nowrap && r != null) {
      o.check(c.length == end[0] + 4, "length of zlib stream");
      int a = 0;
      for (int i = 0; i < 4; ++i) a = a << 8 | (c[c.length - 4 + i] & 255);
      o.check(a == ZipModel.adler(d) && ((c[0] & 255) * 256 + (c[1] & 255)) % 31 == 0, "zlib wrapper");
    } else o.check(end[0] == c.length, "length of raw stream");
    o.check(level == 0 || d.length < 2000 || d[0] != d[250] || d[1] != d[251] || c.length < d.length * 1.1, "size");
    if (d.length > 2) o.nt();
  }

  // ---- archives

  static class E { String name; byte[] data; byte[] extra; }

  private static int serial;

  static String name(Src s, int i) {
    String n = s.pick(new String[] {"a", "dir/b", "META-INF/x", "d/e/f/g.txt", "u\u00e9\u4e2d", "with space", "long/"}) + i;
    if (s.oneIn(15)) { StringBuilder b = new StringBuilder(n); for (int k = s.below(300); k > 0; --k) b.append('x'); n = b.toString(); }
    if (s.oneIn(6)) n = n + "/";
    return n;
  }

  static void p2(ByteArrayOutputStream b, int v) { b.write(v); b.write(v >> 8); }
  static void p4(ByteArrayOutputStream b, int v) { p2(b, v); p2(b, v >> 16); }
  static void pb(ByteArrayOutputStream b, byte[] d) { b.write(d, 0, d.length); }

  static byte[] utf(String s) { try { return s.getBytes("UTF-8"); } catch (java.io.UnsupportedEncodingException e) { throw new RuntimeException(e); } }

  /** an archive of these entries, written from the format's description; some with data descriptors, extra fields, comments */
  static byte[] archive(Src s, List<E> es) {
    ByteArrayOutputStream b = new ByteArrayOutputStream(), c = new ByteArrayOutputStream();
    if (s.oneIn(8)) for (int i = 0; i < 0; ++i) b.write(0);
    int n = es.size();
    for (int i = 0; i < n; ++i) {
      E e = es.get(i);
      boolean store = s.bool(), desc = !store && s.oneIn(3);
      byte[] z = store ? e.data : ZipModel.deflate(s, e.data), nm = utf(e.name);
      byte[] lx = new byte[s.oneIn(3) ? 4 + s.below(10) : 0], cx = new byte[s.oneIn(3) ? 4 + s.below(20) : 0], cm = new byte[s.oneIn(4) ? s.below(30) : 0];
      for (int k = 0; k < cm.length; ++k) cm[k] = (byte) (s.oneIn(5) ? "PK\1\2\3\4\5\6".charAt(k & 7) : 'c');
      if (lx.length > 0) { lx[0] = 0x77; lx[1] = 0x66; lx[2] = (byte) (lx.length - 4); }
      if (cx.length > 0) { cx[0] = 0x77; cx[1] = 0x66; cx[2] = (byte) (cx.length - 4); }
      int at = b.size(), crc = ZipModel.crc(e.data, 0, e.data.length), fl = 0x800 | (desc ? 8 : 0);
      p4(b, 0x04034b50); p2(b, 20); p2(b, fl); p2(b, store ? 0 : 8); p4(b, 0x5A215A21);
      p4(b, desc ? 0 : crc); p4(b, desc ? 0 : z.length); p4(b, desc ? 0 : e.data.length);
      p2(b, nm.length); p2(b, lx.length); pb(b, nm); pb(b, lx); pb(b, z);
      if (desc) { p4(b, 0x08074b50); p4(b, crc); p4(b, z.length); p4(b, e.data.length); }
      p4(c, 0x02014b50); p2(c, 20); p2(c, 20); p2(c, fl); p2(c, store ? 0 : 8); p4(c, 0x5A215A21);
      p4(c, crc); p4(c, z.length); p4(c, e.data.length); p2(c, nm.length); p2(c, cx.length); p2(c, cm.length);
      p2(c, 0); p2(c, 0); p4(c, 0); p4(c, at); pb(c, nm); pb(c, cx); pb(c, cm);
    }
    int at = b.size(), len = c.size();
    pb(b, c.toByteArray());
    byte[] cm = new byte[s.oneIn(4) ? s.below(200) : 0];
    for (int k = 0; k < cm.length; ++k) cm[k] = 'z';
    p4(b, 0x06054b50); p2(b, 0); p2(b, 0); p2(b, n); p2(b, n); p4(b, len); p4(b, at); p2(b, cm.length); pb(b, cm);
    return b.toByteArray();
  }

  static List<E> entries(Src s) {
    List<E> es = new ArrayList<E>();
    int n = s.oneIn(6) ? 1 + s.below(120) : 1 + s.below(7);
    for (int i = 0; i < n; ++i) {
      E e = new E();
      e.name = name(s, i);
      e.data = e.name.endsWith("/") ? new byte[0] : n > 20 ? new byte[s.below(60)] : data(s);
      es.add(e);
    }
    return es;
  }

  private void read(Src s, Out o) throws Exception {
    List<E> es = entries(s);
    byte[] z = archive(s, es);
    File f = new File("z" + serial++ + ".zip");
    FileOutputStream fo = new FileOutputStream(f);
    fo.write(z);
    fo.close();
    try {
      ZipFile zf = s.bool() ? new ZipFile(f) : s.bool() ? new ZipFile(f.getPath()) : new JarFile(f.getPath());
      o.i(zf.size());
      o.check(zf.size() == es.size(), "size");
      List<String> names = new ArrayList<String>();
      for (Enumeration<? extends ZipEntry> en = zf.entries(); en.hasMoreElements();) {
        ZipEntry e = en.nextElement();
        names.add(e.getName() + "|" + e.getSize() + "|" + e.isDirectory());
      }
      List<String> want = new ArrayList<String>();
      for (E e : es) want.add(e.name + "|" + e.data.length + "|" + e.name.endsWith("/"));
      Collections.sort(names);
      Collections.sort(want);
      o.check(names.toString().equals(want.toString()), "entries " + names + " instead of " + want);
      List<InputStream> open = new ArrayList<InputStream>();
      List<E> of = new ArrayList<E>();
      for (int k = 0; k < 6; ++k) {
        E e = es.get(s.below(es.size()));
        ZipEntry ze = zf.getEntry(e.name);
        if (ze == null) { o.fail("no entry " + e.name); continue; }
        o.check(ze.getName().equals(e.name) && ze.getSize() == e.data.length, "entry " + e.name);
        open.add(zf.getInputStream(ze));
        of.add(e);
      }
      // interleave the reads of the open entries
      byte[][] got = new byte[open.size()][];
      ByteArrayOutputStream[] bs = new ByteArrayOutputStream[open.size()];
      boolean[] done = new boolean[open.size()];
      for (int i = 0; i < bs.length; ++i) bs[i] = new ByteArrayOutputStream();
      int left = open.size(), steps = 0;
      while (left > 0) {
        int i = s.below(open.size());
        for (int k = 0; k < open.size() && done[i]; ++k) i = (i + 1) % open.size();
        byte[] b = new byte[++steps > 60 ? 20000 : chunk(s)];
        int n = open.get(i).read(b);
        if (n < 0) { done[i] = true; --left; }
        else bs[i].write(b, 0, n);
      }
      for (int i = 0; i < bs.length; ++i) o.check(same(bs[i].toByteArray(), of.get(i).data), "content of " + of.get(i).name);
      o.z(zf.getEntry("no such entry") == null);
      zf.close();
    } finally { f.delete(); }
    if (es.size() > 1) o.nt();
  }

  static int g2(byte[] b, int p) { return (b[p] & 255) | (b[p + 1] & 255) << 8; }
  static int g4(byte[] b, int p) { return g2(b, p) | g2(b, p + 2) << 16; }

  private void write(Src s, Out o) throws Exception {
    List<E> es = entries(s);
    ByteArrayOutputStream bo = new ByteArrayOutputStream();
    ZipOutputStream z = new ZipOutputStream(bo);
    for (E e : es) {
      z.putNextEntry(new ZipEntry(e.name));
      boolean single = s.oneIn(3);
      for (int p = 0; p < e.data.length;) {
        int n = Math.min(e.data.length - p, single ? 1 : chunk(s));
        if (n == 1) z.write(e.data[p]); else z.write(e.data, p, n);
        p += n;
      }
      z.closeEntry();
    }
    z.close();
    byte[] b = bo.toByteArray();
    int p = b.length - 22, n = es.size();
    if (p < 0 || g4(b, p) != 0x06054b50) { o.fail("no end record"); return; }
    o.check(g2(b, p + 8) == n && g2(b, p + 10) == n, "entry count");
    int dir = g4(b, p + 16), len = g4(b, p + 12);
    o.check(dir + len == p, "directory " + dir + " " + len + " " + p);
    int q = dir;
    for (E e : es) {
      if (q < 0 || q + 46 > p || g4(b, q) != 0x02014b50) { o.fail("directory entry"); return; }
      int m = g2(b, q + 10), cs = g4(b, q + 20), us = g4(b, q + 24), at = g4(b, q + 42), nl = g2(b, q + 28);
      o.check(g4(b, q + 16) == ZipModel.crc(e.data, 0, e.data.length), "crc of " + e.name);
      o.check(us == e.data.length, "size of " + e.name);
      o.check(new String(b, q + 46, nl, "UTF-8").equals(e.name), "name " + e.name);
      if (at < 0 || at + 30 > dir || g4(b, at) != 0x04034b50) { o.fail("local header of " + e.name); return; }
      o.check(new String(b, at + 30, g2(b, at + 26), "UTF-8").equals(e.name), "local name " + e.name);
      int d = at + 30 + g2(b, at + 26) + g2(b, at + 28);
      int[] end = new int[1];
      byte[] r = ZipModel.inflate(b, d, end);
      o.check(m == 8 && same(r, e.data), "data of " + e.name);
      o.check(end[0] == d + cs, "compressed size of " + e.name + " " + (end[0] - d) + " " + cs);
      q += 46 + nl + g2(b, q + 30) + g2(b, q + 32);
    }
    o.check(q == p, "end of directory");
    if (n > 1) o.nt();
  }

  public void run(Src s, Out o) throws Throwable {
    int k = s.below(10);
    o.tag(k < 1 ? "crc" : k < 4 ? "inflate" : k < 6 ? "deflate" : k < 8 ? "zipfile" : "zipoutput");
    if (k < 1) crc(s, o); else if (k < 4) inflate(s, o); else if (k < 6) deflate(s, o); else if (k < 8) read(s, o); else write(s, o);
    o.nl();
  }
}
