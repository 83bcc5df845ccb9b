package vp;

import java.io.ByteArrayOutputStream;

/** Reference code for the zip property: CRC-32, Adler-32, an inflater, a deflater of its own, written from the RFCs. */
public class ZipModel {
  static int crc(byte[] a, int off, int n) {
    int c = -1;
    for (int i = 0; i < n; ++i) {
      c ^= a[off + i] & 255;
      for (int k = 0; k < 8; ++k) c = (c & 1) != 0 ? (c >>> 1) ^ 0xEDB88320 : c >>> 1;
    }
    return ~c;
  }

  static int adler(byte[] d) {
    int a = 1, b = 0;
    for (int i = 0; i < d.length; ++i) { a = (a + (d[i] & 255)) % 65521; b = (b + a) % 65521; }
    return (b << 16) | a;
  }

  // ---- inflate
  static class In {
    byte[] d; int p, bit, cnt;
    In(byte[] d, int p) { this.d = d; this.p = p; }
    int bits(int n) {
      int v = 0;
      for (int i = 0; i < n; ++i) {
        if (cnt == 0) { bit = d[p++] & 255; cnt = 8; }
        v |= (bit & 1) << i; bit >>= 1; --cnt;
      }
      return v;
    }
    int sym(int[] lens) { // canonical Huffman, slowly
      int code = 0, first = 0;
      for (int l = 1; l < 16; ++l) {
        code = (code << 1) | bits(1);
        int c = 0;
        for (int i = 0; i < lens.length; ++i) if (lens[i] == l) ++c;
        if (code - first < c) {
          int k = code - first;
          for (int i = 0; i < lens.length; ++i) if (lens[i] == l && k-- == 0) return i;
        }
        first = (first + c) << 1;
      }
      throw new IllegalStateException("bad code");
    }
  }
  static final int[] LB = {3,4,5,6,7,8,9,10,11,13,15,17,19,23,27,31,35,43,51,59,67,83,99,115,131,163,195,227,258};
  static final int[] LE = {0,0,0,0,0,0,0,0,1,1,1,1,2,2,2,2,3,3,3,3,4,4,4,4,5,5,5,5,0};
  static final int[] DB = {1,2,3,4,5,7,9,13,17,25,33,49,65,97,129,193,257,385,513,769,1025,1537,2049,3073,4097,6145,8193,12289,16385,24577};
  static final int[] DE = {0,0,0,0,1,1,2,2,3,3,4,4,5,5,6,6,7,7,8,8,9,9,10,10,11,11,12,12,13,13};
  static final int[] ORD = {16,17,18,0,8,7,9,6,10,5,11,4,12,3,13,2,14,1,15};

  static int[] fixedLit() {
    int[] l = new int[288];
    for (int i = 0; i < 288; ++i) l[i] = i < 144 ? 8 : i < 256 ? 9 : i < 280 ? 7 : 8;
    return l;
  }

  /** raw deflate data from p on; returns the bytes, or null if it is not valid; end[0] = position after it */
  static byte[] inflate(byte[] d, int p, int[] end) {
    try {
      In in = new In(d, p);
      byte[] o = new byte[256];
      int n = 0;
      boolean last = false;
      while (!last) {
        last = in.bits(1) == 1;
        int type = in.bits(2);
        if (type == 0) {
          in.cnt = 0;
          int len = in.bits(16), inv = in.bits(16);
          if ((len ^ inv) != 0xFFFF) return null;
          while (n + len > o.length) { byte[] x = new byte[o.length * 2]; System.arraycopy(o, 0, x, 0, n); o = x; }
          for (int i = 0; i < len; ++i) o[n++] = (byte) in.bits(8);
          continue;
        }
        if (type == 3) return null;
        int[] ll, dl;
        if (type == 1) {
          ll = fixedLit(); dl = new int[30];
          for (int i = 0; i < 30; ++i) dl[i] = 5;
        } else {
          int nl = in.bits(5) + 257, nd = in.bits(5) + 1, nc = in.bits(4) + 4;
          int[] cl = new int[19];
          for (int i = 0; i < nc; ++i) cl[ORD[i]] = in.bits(3);
          int[] all = new int[nl + nd];
          for (int i = 0; i < nl + nd;) {
            int s = in.sym(cl);
            if (s < 16) all[i++] = s;
            else {
              int v = s == 16 ? all[i - 1] : 0, r = s == 16 ? 3 + in.bits(2) : s == 17 ? 3 + in.bits(3) : 11 + in.bits(7);
              while (r-- > 0) all[i++] = v;
            }
          }
          ll = new int[nl]; dl = new int[nd];
          System.arraycopy(all, 0, ll, 0, nl);
          System.arraycopy(all, nl, dl, 0, nd);
        }
        while (true) {
          int s = in.sym(ll);
          if (n + 260 > o.length) { byte[] x = new byte[o.length * 2 + 260]; System.arraycopy(o, 0, x, 0, n); o = x; }
          if (s < 256) o[n++] = (byte) s;
          else if (s == 256) break;
          else {
            int len = LB[s - 257] + in.bits(LE[s - 257]);
            int ds = in.sym(dl), dist = DB[ds] + in.bits(DE[ds]);
            if (dist > n) return null;
            for (int i = 0; i < len; ++i) { o[n] = o[n - dist]; ++n; }
          }
        }
      }
      end[0] = in.p;
      byte[] r = new byte[n];
      System.arraycopy(o, 0, r, 0, n);
      return r;
    } catch (IllegalStateException e) { return null;
    } catch (ArrayIndexOutOfBoundsException e) { return null; }
  }

  // ---- deflate with stored and fixed blocks
  static class Bits {
    ByteArrayOutputStream o = new ByteArrayOutputStream();
    int acc, cnt;
    void put(int v, int n) {
      for (int i = 0; i < n; ++i) { acc |= ((v >> i) & 1) << cnt; if (++cnt == 8) { o.write(acc); acc = cnt = 0; } }
    }
    void code(int v, int n) { for (int i = n - 1; i >= 0; --i) put((v >> i) & 1, 1); }
    void lit(int s) {
      if (s < 144) code(0x30 + s, 8); else if (s < 256) code(0x190 + s - 144, 9);
      else if (s < 280) code(s - 256, 7); else code(0xC0 + s - 280, 8);
    }
    void flush() { if (cnt > 0) { o.write(acc); acc = cnt = 0; } }
  }

  static byte[] deflate(Src s, byte[] d) {
    Bits b = new Bits();
    int p = 0;
    while (true) {
      int n = Math.min(d.length - p, s.bool() ? d.length : s.below(200));
      boolean last = p + n == d.length && !s.oneIn(4);
      b.put(last ? 1 : 0, 1);
      if (s.oneIn(3) && n < 65536) {
        b.put(0, 2); b.flush(); b.put(n, 16); b.put(~n & 0xFFFF, 16);
        for (int i = 0; i < n; ++i) b.put(d[p + i] & 255, 8);
      } else {
        b.put(1, 2);
        int e = p + n;
        for (int i = p; i < e;) {
          int best = 0, dist = 0;
          for (int back = 1; back <= Math.min(i, 300) && best < 258; ++back) {
            int l = 0;
            while (l < 258 && i + l < e && d[i + l] == d[i + l - back]) ++l;
            if (l > best) { best = l; dist = back; }
          }
          if (best >= 3) {
            int c = 28;
            while (LB[c] > best) --c;
            b.lit(257 + c); b.put(best - LB[c], LE[c]);
            int k = 29;
            while (DB[k] > dist) --k;
            b.code(k, 5); b.put(dist - DB[k], DE[k]);
            i += best;
          } else b.lit(d[i++] & 255);
        }
        b.lit(256);
      }
      p += n;
      if (last) break;
    }
    b.flush();
    return b.o.toByteArray();
  }

  static byte[] zlib(byte[] raw, byte[] plain) {
    byte[] r = new byte[raw.length + 6];
    r[0] = 0x78; r[1] = (byte) 0x9C;
    System.arraycopy(raw, 0, r, 2, raw.length);
    int a = adler(plain);
    for (int i = 0; i < 4; ++i) r[raw.length + 2 + i] = (byte) (a >> (24 - 8 * i));
    return r;
  }
}
