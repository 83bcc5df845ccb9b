package vp;

import java.util.*;
import java.lang.ref.*;
import java.lang.reflect.*;
import java.util.concurrent.atomic.*;

/** The collector: a graph of objects of every kind is changed at random while collections run, and must
 *  always be what a mirror of it in arrays of ints says, by contents, by identity and by identity hash code. */
public class HeapProp extends Prop {
  static class Node {
    int id; Object a; byte q; volatile Node b; long p; Object c; double d; short z; float f; char h; boolean t;
    void fill(int seed) { q = (byte) seed; p = seed * 0x9E3779B97F4A7C15L; d = seed * 0.5; z = (short) (seed * 31); f = seed; h = (char) (seed * 7); t = (seed & 1) != 0; }
    boolean same(int seed) { return q == (byte) seed && p == seed * 0x9E3779B97F4A7C15L && d == seed * 0.5 && z == (short) (seed * 31) && f == seed && h == (char) (seed * 7) && t == ((seed & 1) != 0); }
  }
  static class Sub extends Node implements Cloneable {
    Object e; int mine; Object[] g = new Object[1];
    void fill(int seed) { super.fill(seed); mine = ~seed; }
    boolean same(int seed) { return super.same(seed) && mine == ~seed; }
    public Object clone() { try { Sub s = (Sub) super.clone(); s.g = new Object[] {g[0]}; return s; } catch (CloneNotSupportedException x) { throw new RuntimeException(x); } }
  }
  static final int NODE = 0, SUB = 1, ARRAY = 2, BIG = 3, ATOMIC = 4, WEAKISH = 5;
  static final int[] EDGES = {3, 5, 4, 12, 3, 2};
  static Object statics0, statics1; // roots for whole-run checks
  static final int BIGLEN = 9000;

  /** where a big array keeps edge e */
  static int bigAt(int e) { return e == 0 ? 0 : e == 11 ? BIGLEN - 1 : e * 797; }

  static class Dice {
    Src s; long x; int h;
    Dice(Src s, long x) { this.s = s; this.x = x; }
    int below(int n) {
      if (s != null) { int v = s.below(n); h = h * 31 + v; return v; }
      x ^= x << 13; x ^= x >>> 7; x ^= x << 17;
      return (int) ((x >>> 11) % n);
    }
    boolean oneIn(int n) { return below(n) == 0; }
  }

  static class World {
    final Dice s;
    final int R = 10;
    Object[] roots = new Object[R];
    // the mirror: no references
    int n;
    int[] kind = new int[16], seed = new int[16], hash = new int[16]; int[][] edge = new int[16][]; boolean[] hashed = new boolean[16]; int[] pay = new int[16];
    int[] rootOf = new int[R];
    ArrayList<Object> locked = new ArrayList<Object>();
    String wrong; int gcs, verified, made;
    World(Dice s) { this.s = s; Arrays.fill(rootOf, -1); }

    Object make(int k, int seed, int id, int pay) {
      switch (k) {
        case NODE: { Node x = new Node(); x.id = id; x.fill(seed); x.c = payload(pay, seed); return x; }
        case SUB: { Sub x = new Sub(); x.id = id; x.fill(seed); x.c = payload(pay, seed); return x; }
        case ARRAY: { Object[] x = new Object[6]; x[5] = id; x[4] = payload(pay, seed); return x; }
        case BIG: { Object[] x = new Object[BIGLEN]; x[1] = id; x[2] = payload(pay, seed); return x; }
        case ATOMIC: { AtomicReferenceArray<Object> x = new AtomicReferenceArray<Object>(5); x.set(4, id); x.set(3, payload(pay, seed)); return x; }
        default: { LinkedHashMap<Object, Object> m = new LinkedHashMap<Object, Object>(); m.put("id", id); m.put("pay", payload(pay, seed)); m.put(0, null); m.put(1, null); return m; }
      }
    }
    static Object payload(int p, int seed) {
      int len = (seed & 0xffff) % (p >= 20 ? 40000 : 40);
      switch (p % 10) {
        case 0: return null;
        case 1: { byte[] a = new byte[len]; for (int i = 0; i < len; ++i) a[i] = (byte) (seed + i); return a; }
        case 2: { int[] a = new int[len]; for (int i = 0; i < len; ++i) a[i] = seed ^ i; return a; }
        case 3: { long[] a = new long[len]; for (int i = 0; i < len; ++i) a[i] = (long) seed << (i & 31); return a; }
        case 4: { char[] a = new char[len]; for (int i = 0; i < len; ++i) a[i] = (char) (seed * i); return a; }
        case 5: { double[] a = new double[len]; for (int i = 0; i < len; ++i) a[i] = seed + i * 0.25; return a; }
        case 6: return ("s" + seed).intern();
        case 7: { int[][] a = new int[(seed & 7) + 1][(seed >> 3) & 7]; for (int i = 0; i < a.length; ++i) for (int j = 0; j < a[i].length; ++j) a[i][j] = seed + i * 100 + j; return a; }
        case 8: { StringBuilder b = new StringBuilder(); for (int i = 0; i < len; ++i) b.append((char) ('a' + (seed + i) % 26)); return b.toString().substring(len / 3); }
        default: { boolean[] a = new boolean[len]; for (int i = 0; i < len; ++i) a[i] = ((seed >> (i & 15)) & 1) != 0; return a; }
      }
    }
    static boolean samePayload(Object x, int p, int seed) {
      Object y = payload(p, seed);
      if (x == null || y == null) return x == y;
      if (x.getClass() != y.getClass()) return false;
      if (x instanceof String) return p % 10 == 6 ? x == y : x.equals(y);
      int len = Array.getLength(x);
      if (len != Array.getLength(y)) return false;
      if (x instanceof byte[]) return Arrays.equals((byte[]) x, (byte[]) y);
      if (x instanceof int[]) return Arrays.equals((int[]) x, (int[]) y);
      if (x instanceof long[]) return Arrays.equals((long[]) x, (long[]) y);
      if (x instanceof char[]) return Arrays.equals((char[]) x, (char[]) y);
      if (x instanceof double[]) return Arrays.equals((double[]) x, (double[]) y);
      if (x instanceof boolean[]) { for (int i = 0; i < len; ++i) if (((boolean[]) x)[i] != ((boolean[]) y)[i]) return false; return true; }
      for (int i = 0; i < len; ++i) if (!Arrays.equals(((int[][]) x)[i], ((int[][]) y)[i])) return false;
      return true;
    }
    static void link(Object x, int e, Object to, int how) {
      if (x instanceof Sub && e >= 3) { if (e == 3) ((Sub) x).e = to; else if (how == 1) System.arraycopy(new Object[] {to}, 0, ((Sub) x).g, 0, 1); else ((Sub) x).g[0] = to; return; }
      if (x instanceof Node) {
        Node n = (Node) x;
        switch (e) {
          case 0: if (how == 1) { try { Node.class.getDeclaredField("a").set(n, to); } catch (Exception y) { throw new RuntimeException(y); } } else n.a = to; return;
          case 1: if (to instanceof Node || to == null) { n.b = (Node) to; return; }
        }
        // a third edge, and what field b can not hold, goes to an array behind field a's payload
        throw new IllegalStateException();
      }
      if (x instanceof Object[]) {
        Object[] a = (Object[]) x;
        int at = a.length == BIGLEN ? big(e) : e;
        if (how == 1) Array.set(a, at, to);
        else if (how == 2) { Object[] t = {null, to, null}; System.arraycopy(t, 1, a, at, 1); }
        else a[at] = to;
        return;
      }
      if (x instanceof AtomicReferenceArray) {
        AtomicReferenceArray<Object> a = (AtomicReferenceArray<Object>) x;
        if (how == 1) a.compareAndSet(e, a.get(e), to); else if (how == 2) a.getAndSet(e, to); else a.set(e, to);
        return;
      }
      ((Map<Object, Object>) x).put(e, to);
    }
    static int big(int e) { int at = bigAt(e); return e == 0 ? 0 : at < 3 ? 3 : at; }
    static Object follow(Object x, int e) {
      if (x instanceof Sub && e >= 3) return e == 3 ? ((Sub) x).e : ((Sub) x).g[0];
      if (x instanceof Node) return e == 0 ? ((Node) x).a : e == 1 ? ((Node) x).b : null;
      if (x instanceof Object[]) { Object[] a = (Object[]) x; return a[a.length == BIGLEN ? big(e) : e]; }
      if (x instanceof AtomicReferenceArray) return ((AtomicReferenceArray<Object>) x).get(e);
      return ((Map<Object, Object>) x).get(e);
    }
    static boolean canHold(int k, int e, int toKind) {
      if (k == NODE || k == SUB) return e != 2 && (e != 1 || toKind < 0 || toKind == NODE || toKind == SUB);
      if (k == ARRAY) return e < 4;
      if (k == BIG) return true;
      if (k == ATOMIC) return e < 3;
      return e < 2;
    }
    int identity(Object x, int k) {
      if (k == BIG) return (Integer) ((Object[]) x)[1];
      if (k == ARRAY) return (Integer) ((Object[]) x)[5];
      if (k == ATOMIC) return (Integer) ((AtomicReferenceArray<Object>) x).get(4);
      if (k == WEAKISH) return (Integer) ((Map) x).get("id");
      return ((Node) x).id;
    }
    static Class cls(int k) {
      switch (k) { case NODE: return Node.class; case SUB: return Sub.class; case ARRAY: case BIG: return Object[].class; case ATOMIC: return AtomicReferenceArray.class; default: return LinkedHashMap.class; }
    }
    void check(Object x, int i) {
      if (x == null) { bad("node " + i + " is gone"); return; }
      if (x.getClass() != cls(kind[i])) { bad("node " + i + " is of " + x.getClass().getName()); return; }
      if ((kind[i] == ARRAY && ((Object[]) x).length != 6) || (kind[i] == BIG && ((Object[]) x).length != BIGLEN)) { bad("length of node " + i); return; }
      if (identity(x, kind[i]) != i) { bad("node " + i + " is " + identity(x, kind[i])); return; }
      Object p;
      if (x instanceof Node) { Node m = (Node) x; if (!m.same(seed[i])) bad("fields of node " + i); p = m.c; }
      else if (kind[i] == ARRAY) p = ((Object[]) x)[4];
      else if (kind[i] == BIG) { p = ((Object[]) x)[2]; Object[] a = (Object[]) x; for (int j = 3; j < BIGLEN; j += 1 + (j & 7)) if (a[j] != null) { boolean isEdge = false; for (int e = 0; e < 12; ++e) isEdge |= big(e) == j; if (!isEdge) bad("element " + j + " of node " + i); } }
      else if (kind[i] == ATOMIC) p = ((AtomicReferenceArray<Object>) x).get(3);
      else p = ((Map) x).get("pay");
      if (!samePayload(p, pay[i], seed[i])) bad("payload " + pay[i] + " of node " + i);
      if (hashed[i] && System.identityHashCode(x) != hash[i]) bad("identity hash code of node " + i);
    }
    void bad(String s) { if (wrong == null) wrong = s; }
    int walk(int steps) { // index of some node reachable from a root
      int i = rootOf[s.below(R)];
      while (i >= 0 && steps-- > 0) { int e = s.below(edge[i].length); int t = edge[i][e]; if (t < 0) break; i = t; }
      return i;
    }
    /** the object of a node, and a check that it is the one every path gives */
    Object object(int i) {
      // breadth first from the roots through the mirror
      int[] from = new int[n], via = new int[n]; Arrays.fill(from, -2);
      int[] q = new int[n]; int h = 0, t = 0;
      for (int r = 0; r < R; ++r) { int x = rootOf[r]; if (x >= 0 && from[x] == -2) { from[x] = -1; via[x] = r; q[t++] = x; } }
      while (h < t) { int x = q[h++]; if (x == i) break; for (int e = 0; e < edge[x].length; ++e) { int y = edge[x][e]; if (y >= 0 && from[y] == -2) { from[y] = x; via[y] = e; q[t++] = y; } } }
      return get(i, from, via);
    }
    Object get(int i, int[] from, int[] via) { if (from[i] == -1) return roots[via[i]]; Object x = get(from[i], from, via); return x == null ? null : follow(x, via[i]); }

    void verify() {
      ++verified;
      Object[] objs = new Object[n];
      boolean[] seen = new boolean[n];
      int[] q = new int[n]; int h = 0, t = 0;
      for (int r = 0; r < R; ++r) {
        int x = rootOf[r];
        if (x < 0) { if (roots[r] != null) bad("root " + r); continue; }
        if (!seen[x]) { seen[x] = true; objs[x] = roots[r]; q[t++] = x; } else if (objs[x] != roots[r]) bad("root " + r + " is not the same object");
      }
      while (h < t && wrong == null) {
        int x = q[h++];
        check(objs[x], x);
        if (wrong != null) return;
        for (int e = 0; e < edge[x].length; ++e) {
          int y = edge[x][e];
          Object z = (kind[x] == NODE || kind[x] == SUB) && e == 2 ? null : canHold(kind[x], e, -1) ? follow(objs[x], e) : null;
          if (y < 0) { if (z != null) bad("edge " + e + " of node " + x + " should be null"); }
          else if (!seen[y]) { seen[y] = true; objs[y] = z; q[t++] = y; }
          else if (objs[y] != z) bad("edge " + e + " of node " + x + " leads to another object");
        }
      }
      // distinct nodes are distinct objects
      IdentityHashMap<Object, Integer> m = new IdentityHashMap<Object, Integer>();
      for (int i = 0; i < t; ++i) if (objs[q[i]] != null && m.put(objs[q[i]], i) != null) bad("nodes share an object");
    }
    int fresh(int k) {
      if (n == kind.length) { int m = n * 2; kind = Arrays.copyOf(kind, m); seed = Arrays.copyOf(seed, m); hash = Arrays.copyOf(hash, m); { int[][] b = new int[m][]; System.arraycopy(edge, 0, b, 0, n); edge = b; } { boolean[] b = new boolean[m]; System.arraycopy(hashed, 0, b, 0, n); hashed = b; } pay = Arrays.copyOf(pay, m); }
      kind[n] = k; edge[n] = new int[EDGES[k]]; Arrays.fill(edge[n], -1); hashed[n] = false; ++made;
      return n++;
    }
    static int sink;
    void garbage() {
      int k = s.below(6);
      int reps = 1 + s.below(30);
      for (int i = 0; i < reps; ++i) {
        Object g = k == 0 ? new byte[s.below(3000)] : k == 1 ? new Object[s.below(500)] : k == 2 ? new Node() : k == 3 ? (Object) ("x" + i) : k == 4 ? new long[20000] : new int[3][i];
        if (g.hashCode() == 12345) ++sink;
      }
    }
    void gc() { ++gcs; System.gc(); }

    /** holds nodes in locals, arguments and the operand stack of nested calls over collections */
    boolean deep(int d, Object x, Object y, int i, long w, double f) {
      Object z = d % 2 == 0 ? x : y;
      Object[] held = {x, y, z};
      if (d == 0) { if (s.oneIn(3)) gc(); else garbage(); }
      else if (!deep(d - 1, y, x, i, w + d, f * 2)) return false;
      synchronized (held) { if (s.oneIn(8)) garbage(); }
      return held[0] == x && held[1] == y && held[2] == z && (z == x || z == y) && w >= 7 && f > 0;
    }

    void run(int ops) {
      for (int k = 0; k < ops && wrong == null; ++k) step();
      verify();
    }
    void step() {
      switch (s.below(22)) {
        case 0: case 1: case 2: case 3: { // a new node, in a root
          int kd = s.below(6);
          if (kd == BIG && s.below(3) != 0) kd = SUB;
          int i = fresh(kd); seed[i] = s.below(1 << 20); pay[i] = s.below(10); if (s.oneIn(10)) pay[i] += 20;
          int r = s.below(R);
          roots[r] = make(kd, seed[i], i, pay[i]); rootOf[r] = i; break; }
        case 4: case 5: case 6: case 7: case 8: case 9: { // a new edge
          int x = walk(s.below(5)), y = s.oneIn(5) ? -1 : walk(s.below(4));
          if (x < 0) return;
          int e = s.below(edge[x].length);
          if (!canHold(kind[x], e, y < 0 ? -1 : kind[y])) return;
          Object to = y < 0 ? null : object(y), from = object(x);
          if (from == null || (y >= 0 && to == null)) { bad("lost"); return; }
          link(from, e, to, s.below(3)); edge[x][e] = y; break; }
        case 10: { int r = s.below(R); roots[r] = null; rootOf[r] = -1; break; }
        case 11: { int r = s.below(R), q = s.below(R); System.arraycopy(roots, r, roots, q, 1); rootOf[q] = rootOf[r]; break; }
        case 12: case 13: { // take a hash code
          int x = walk(s.below(5)); if (x < 0) return;
          Object o = object(x); if (o == null) { bad("lost"); return; }
          int h = System.identityHashCode(o);
          if (hashed[x]) { if (hash[x] != h) bad("hash code of node " + x + " changed"); } else { hashed[x] = true; hash[x] = h; }
          break; }
        case 14: garbage(); break;
        case 15: gc(); if (s.oneIn(2)) gc(); break;
        case 16: verify(); break;
        case 17: { // clone
          int x = walk(s.below(4)); if (x < 0 || kind[x] == ATOMIC || kind[x] == WEAKISH || kind[x] == NODE) return;
          Object o = object(x); if (o == null) { bad("lost"); return; }
          Object c = o instanceof Sub ? ((Sub) o).clone() : ((Object[]) o).clone();
          if (c == o || c.getClass() != o.getClass()) bad("clone");
          int i = fresh(kind[x]); seed[i] = seed[x]; pay[i] = pay[x]; edge[i] = edge[x].clone();
          if (c instanceof Sub) ((Sub) c).id = i; else ((Object[]) c)[kind[x] == BIG ? 1 : 5] = i;
          int r = s.below(R); roots[r] = c; rootOf[r] = i; break; }
        case 18: { int x = walk(3), y = walk(1); if (x < 0 || y < 0) return;
          if (!deep(1 + s.below(12), object(x), object(y), x, 7, 0.5)) bad("locals"); break; }
        case 19: { // copy a part of an array over itself
          int x = walk(s.below(3)); if (x < 0 || kind[x] != ARRAY) return;
          Object[] a = (Object[]) object(x); if (a == null) { bad("lost"); return; }
          int f = s.below(4), t = s.below(4), len = s.below(5 - Math.max(f, t));
          System.arraycopy(a, f, a, t, len); System.arraycopy(edge[x], f, edge[x], t, len); break; }
        case 20: { // lock it over a collection
          int x = walk(s.below(4)); if (x < 0) return;
          Object o = object(x); if (o == null) { bad("lost"); return; }
          synchronized (o) { if (s.oneIn(3)) gc(); else garbage(); synchronized (o) { o.notifyAll(); } if (!Thread.holdsLock(o)) bad("lock"); }
          break; }
        default: { // by an exception
          int x = walk(s.below(4)); if (x < 0) return;
          Object o = object(x);
          try { thrower(o, s.below(6)); } catch (Holder h) { if (h.o != o) bad("thrown object"); if (h.getMessage() != "m") bad("message"); }
        }
      }
    }
    static class Holder extends RuntimeException { Object o; Holder(Object o) { super("m"); this.o = o; } }
    void thrower(Object o, int d) { if (d == 0) { Holder h = new Holder(o); garbage(); throw h; } try { thrower(o, d - 1); } finally { if (s.oneIn(4)) garbage(); } }
  }

  public void run(Src s, Out o) {
    if (s.below(8) != 0) {
      o.tag("one-thread");
      World w = new World(new Dice(s, 0));
      int ops = s.range(12, 120);
      w.run(ops);
      finish(w, ops, o);
    } else {
      o.tag("threads");
      int n = 2 + s.below(3);
      final World[] ws = new World[n]; final int[] ops = new int[n]; Thread[] ts = new Thread[n]; final Throwable[] died = new Throwable[n];
      for (int i = 0; i < n; ++i) { ws[i] = new World(new Dice(null, (s.anyLong() | 1) * 0x9E3779B97F4A7C15L | 1)); ops[i] = 1 + s.below(60); }
      for (int i = 0; i < n; ++i) {
        final int k = i;
        ts[i] = new Thread() { public void run() { try { ws[k].run(ops[k]); } catch (Throwable t) { died[k] = t; } } };
        ts[i].start();
      }
      try { for (Thread t : ts) t.join(); } catch (InterruptedException e) { o.fail("interrupted"); }
      for (int i = 0; i < n; ++i) { if (died[i] != null) o.fail("thread " + died[i]); ws[i].verify(); finish(ws[i], ops[i], o); }
    }
  }
  void finish(World w, int ops, Out o) {
    if (w.gcs > 0) o.tag("collected");
    if (w.made > 3 && ops > 10) o.nt();
    o.i(w.made).i(w.verified).i(w.s.h).nl();
    if (w.wrong != null) o.fail(w.wrong);
    w.roots = null;
  }
}
