package vp;

import java.util.*;
import java.lang.ref.*;
import java.util.concurrent.atomic.*;

/** Weak, soft and phantom references, reference queues, finalizers and WeakHashMap, against a mirror of the
 *  object graph in arrays of ints: nothing strongly reachable is ever cleared, queued or finalized, and
 *  everything else is, once, after collections. */
public class RefProp extends Prop {
  static class Counts { final int[] c; Counts(int n) { c = new int[n]; } synchronized int incrementAndGet(int i) { return ++c[i]; } synchronized int get(int i) { return c[i]; } }
  static class N { int id; N a, b; N(int id) { this.id = id; } }
  static class F extends N {
    final Counts fin; final AtomicReferenceArray<N> saved; final boolean back;
    F(int id, Counts fin, AtomicReferenceArray<N> saved, boolean back) { super(id); this.fin = fin; this.saved = saved; this.back = back; }
    protected void finalize() {
      if (back) saved.set(id, this);
      fin.incrementAndGet(id);
    }
  }
  static class WR extends WeakReference<N> { int rid; WR(N n, ReferenceQueue<N> q, int rid) { super(n, q); this.rid = rid; } }
  static class SR extends SoftReference<N> { int rid; SR(N n, ReferenceQueue<N> q, int rid) { super(n, q); this.rid = rid; } }
  static class PR extends PhantomReference<N> { int rid; PR(N n, ReferenceQueue<N> q, int rid) { super(n, q); this.rid = rid; } }
  static int rid(Reference r) { return r instanceof WR ? ((WR) r).rid : r instanceof SR ? ((SR) r).rid : ((PR) r).rid; }

  static final int MAXN = 400, MAXR = 400, R = 8;
  static class World {
    final Src s; int h; String wrong;
    final N[] roots = new N[R];
    final Counts fin = new Counts(MAXN);
    final AtomicReferenceArray<N> saved = new AtomicReferenceArray<N>(MAXN);
    final Reference[] held = new Reference[MAXR];
    final ReferenceQueue<N>[] queues = new ReferenceQueue[] {new ReferenceQueue<N>(), new ReferenceQueue<N>()};
    final WeakHashMap<N, Integer> map = new WeakHashMap<N, Integer>();
    // the mirror
    final int[] rootOf = new int[R];
    int n, refs, fulls, died, queued;
    final int[] ea = new int[MAXN], eb = new int[MAXN], mapped = new int[MAXN];
    final boolean[] mapMaybe = new boolean[MAXN], finalizable = new boolean[MAXN], backs = new boolean[MAXN], isSaved = new boolean[MAXN], wasSaved = new boolean[MAXN], everLoose = new boolean[MAXN];
    final int[] kind = new int[MAXR], target = new int[MAXR], queue = new int[MAXR], polled = new int[MAXR];
    final boolean[] cleared = new boolean[MAXR], seenNull = new boolean[MAXR], byHand = new boolean[MAXR], loose = new boolean[MAXR], wasDropped = new boolean[MAXR];
    World(Src s) { this.s = s; Arrays.fill(rootOf, -1); }

    int below(int k) { int v = s.below(k); h = h * 31 + v; return v; }
    void fail(String m) { if (wrong == null) wrong = m; }

    boolean[] reach(boolean soft) {
      boolean[] r = new boolean[MAXN];
      for (int i = 0; i < R; ++i) mark(rootOf[i], r);
      for (int i = 0; i < n; ++i) if (isSaved[i]) mark(i, r);
      if (soft) for (int i = 0; i < refs; ++i) if (kind[i] == 1 && held[i] != null && !cleared[i]) mark(target[i], r);
      return r;
    }
    void mark(int i, boolean[] r) {
      while (i >= 0 && !r[i]) { r[i] = true; mark(ea[i], r); i = eb[i]; }
    }
    /** notes what is no longer strongly reachable */
    void loosen() {
      boolean[] r = reach(false);
      for (int i = 0; i < n; ++i) if (!r[i]) everLoose[i] = mapMaybe[i] = true;
      for (int i = 0; i < refs; ++i) if (!r[target[i]]) loose[i] = true;
    }

    N find(int i) { // a strongly reachable node by walking from a root
      boolean[] seen = new boolean[MAXN];
      for (int k = 0; k < R; ++k) { N x = find(roots[k], i, seen); if (x != null) return x; }
      for (int k = 0; k < n; ++k) if (isSaved[k]) { N x = find(saved.get(k), i, seen); if (x != null) return x; }
      return null;
    }
    N find(N x, int i, boolean[] seen) {
      if (x == null) return null;
      if (x.id == i) return x;
      if (seen[x.id]) return null;
      seen[x.id] = true;
      N y = find(x.a, i, seen);
      return y != null ? y : find(x.b, i, seen);
    }
    int some() { // the id of a strongly reachable node, or -1
      boolean[] r = reach(false);
      if (n == 0) return -1;
      int i = below(n);
      for (int k = 0; k < n; ++k) if (r[(i + k) % n]) return (i + k) % n;
      return -1;
    }
    int someRef() { if (refs == 0) return -1; int i = below(refs); for (int k = 0; k < refs; ++k) if (held[(i + k) % refs] != null) return (i + k) % refs; return -1; }

    void step() {
      switch (below(24)) {
        case 0: case 1: case 2: if (n < MAXN) newNode(); break;
        case 3: case 4: case 5: link(); break;
        case 6: case 7: { int k = below(R); roots[k] = null; rootOf[k] = -1; break; }
        case 8: case 9: case 10: case 11: case 12: if (refs < MAXR) newRef(); break;
        case 13: { int i = someRef(); if (i >= 0 && below(2) == 0) { held[i] = null; wasDropped[i] = true; } break; }
        case 14: case 15: { int i = someRef(); if (i >= 0) get(i); break; }
        case 16: { int i = someRef(); if (i >= 0) { if (below(3) == 0) { held[i].clear(); cleared[i] = true; } else byHand(i); } break; }
        case 17: case 18: poll(below(2)); break;
        case 19: map(); break;
        case 20: garbage(); break;
        case 21: System.gc(); break;
        case 22: if (below(3) == 0) full(); else garbage(); break;
        default: { int i = below(MAXN); for (int k = 0; k < n; ++k) { int j = (i + k) % n; if (isSaved[j]) { saved.set(j, null); isSaved[j] = false; break; } } }
      }
      loosen();
    }
    void newNode() {
      int i = n++, k = below(R);
      finalizable[i] = below(3) == 0; backs[i] = finalizable[i] && below(4) == 0;
      ea[i] = eb[i] = -1;
      roots[k] = finalizable[i] ? new F(i, fin, saved, backs[i]) : new N(i);
      rootOf[k] = i;
    }
    void link() {
      int i = some(), j = below(5) == 0 ? -1 : some();
      if (i < 0) return;
      N x = find(i), y = j < 0 ? null : find(j);
      if (x == null || (j >= 0 && y == null)) { fail("a reachable node was not there"); return; }
      if (below(2) == 0) { x.a = y; ea[i] = j; } else { x.b = y; eb[i] = j; }
    }
    void newRef() {
      int j = some(); if (j < 0) return;
      N y = find(j); if (y == null) { fail("a reachable node was not there"); return; }
      int i = refs++; kind[i] = below(6); if (kind[i] > 2) kind[i] = 0;
      queue[i] = below(3) - 1; if (kind[i] == 2 && queue[i] < 0) queue[i] = 0;
      target[i] = j;
      ReferenceQueue<N> q = queue[i] < 0 ? null : queues[queue[i]];
      held[i] = kind[i] == 0 ? new WR(y, q, i) : kind[i] == 1 ? new SR(y, q, i) : new PR(y, q, i);
    }
    void byHand(int i) {
      boolean was = loose[i], e = held[i].enqueue();
      loose[i] = true; // whether that clears it depends on the version
      if (queue[i] < 0) { if (e) fail("enqueue returned true without a queue"); return; }
      if (byHand[i] || polled[i] > 0) { if (e) fail("enqueue twice"); return; }
      if (!e && !was) fail("enqueue returned false the first time");
      if (e) { byHand[i] = true; if (!held[i].isEnqueued()) fail("isEnqueued is false after enqueue"); }
    }
    void get(int i) {
      N x = (N) held[i].get();
      if (kind[i] == 2 || cleared[i]) { if (x != null) fail("get of a phantom or cleared reference"); return; }
      if (x == null) {
        if (!loose[i]) fail("reference " + i + " to a strongly reachable object cleared (kind " + kind[i] + ", finalizable " + finalizable[target[i]] + ")");
        seenNull[i] = true;
        return;
      }
      if (x.id != target[i]) { fail("get returned another object"); return; }
      if (seenNull[i]) fail("a cleared reference came back");
      if (!loose[i]) { N y = find(target[i]); if (x != y) fail("get returned another object"); }
      else if (fin.get(x.id) > 0 && kind[i] == 0 && !backs[x.id]) fail("a weak reference survived finalization");
      if (below(2) == 0 && !(finalizable[x.id] && loose[i])) { // make it strongly reachable again
        if (loose[i] && mayFinalize(x.id)) return;
        int k = below(R); roots[k] = x; rootOf[k] = x.id;
      }
    }
    boolean mayFinalize(int i) { // whether an object reachable from i may be about to be finalized
      boolean[] r = new boolean[MAXN]; mark(i, r);
      for (int k = 0; k < n; ++k) if (r[k] && finalizable[k]) return true;
      return false;
    }
    void poll(int q) {
      Reference<? extends N> r = queues[q].poll();
      if (r == null) return;
      int i = rid(r);
      if (++polled[i] > 1) { fail("a reference was queued twice"); return; }
      if (queue[i] != q) fail("a reference came to another queue");
      if (r.isEnqueued()) fail("isEnqueued is true after poll");
      if (byHand[i]) return;
      if (wasDropped[i]) {  if (held[i] == null && !loose[i]) fail("an unreachable reference was queued while its target was strongly reachable"); return; }
      if (!loose[i]) fail("reference " + i + " queued while its target was strongly reachable");
      if (r.get() != null) fail("a queued reference was not cleared");
      seenNull[i] = true; ++queued;
    }
    void map() {
      int j = some(); if (j < 0) return;
      N y = find(j);
      switch (below(4)) {
        case 0: case 1: { Integer old = map.put(y, j * 3 + 1); check(old, j); mapped[j] = j * 3 + 1; mapMaybe[j] = false; break; }
        case 2: check(map.get(y), j); if (mapMaybe[j]) break; if (map.containsKey(y) != (mapped[j] != 0)) fail("WeakHashMap.containsKey"); break;
        default: check(map.remove(y), j); mapped[j] = 0;
      }
    }
    void check(Integer v, int j) {
      if (v == null && mapMaybe[j]) { mapped[j] = 0; return; }
      if ((v == null ? 0 : v) != mapped[j]) fail("WeakHashMap has " + v + " for a reachable key, not " + mapped[j]);
    }
    void checkMap(boolean exact) {
      boolean[] r = reach(false);
      int strong = 0, all = 0;
      for (int i = 0; i < n; ++i) if (mapped[i] != 0) { ++all; if (!mapMaybe[i]) ++strong; }
      int sz = map.size();
      if (sz < strong || sz > all) fail("WeakHashMap.size " + sz + ", reachable " + strong + ", put " + all);
      int found = 0;
      for (Iterator<Map.Entry<N, Integer>> it = map.entrySet().iterator(); it.hasNext();) {
        Map.Entry<N, Integer> e = it.next();
        N k = e.getKey();
        if (k == null) { fail("WeakHashMap iterates over a cleared key"); return; }
        if (e.getValue() != mapped[k.id]) fail("WeakHashMap entry");
        if (!mapMaybe[k.id]) ++found;
      }
      if (found != strong) fail("WeakHashMap iterates over " + found + " reachable keys of " + strong);
      if (exact && map.size() != strong) fail("WeakHashMap.size " + map.size() + " after collection, reachable " + strong);
    }
    void garbage() {
      int k = below(4), reps = 1 + below(30);
      for (int i = 0; i < reps; ++i) {
        Object g = k == 0 ? new byte[30000] : k == 1 ? (Object) new Object[500] : k == 2 ? new WeakReference<Object>(new Object()) : new F(MAXN - 1, new Counts(MAXN), new AtomicReferenceArray<N>(MAXN), false);
        if (g.hashCode() == 12345) ++sink;
      }
    }

    void settle() { // notes which resurrected objects are back, after the finalizers have run
      for (int i = 0; i < n; ++i) if (backs[i] && fin.get(i) > 0 && !wasSaved[i]) {
        if (saved.get(i) == null) fail("finalize ran and did not save its object"); else { wasSaved[i] = true; isSaved[i] = true; }
      }
    }
    String lacking() {
      settle();
      boolean[] r = reach(true);
      for (int i = 0; i < n; ++i) if (finalizable[i]) {
        int f = fin.get(i);
        if (f > 1) fail("finalized " + f + " times");
        if (f > 0 && !everLoose[i]) fail("a strongly reachable object was finalized");
        if (!r[i] && f == 0) return "object " + i + " was not finalized";
      }
      for (int q = 0; q < 2; ++q) for (int k = 0; k < 20; ++k) poll(q);
      for (int i = 0; i < refs; ++i) if (held[i] != null && kind[i] != 1) {
        if (r[target[i]]) continue;
        if (kind[i] == 0 && !cleared[i] && held[i].get() != null) return "weak reference " + i + " was not cleared";
        if (queue[i] >= 0 && !cleared[i] && polled[i] == 0) return "reference " + i + " (kind " + kind[i] + ", finalizable " + finalizable[target[i]] + ") was not queued";
      }
      boolean[] st = reach(true);
      for (int i = 0; i < n; ++i) if (mapped[i] != 0 && !st[i]) {
        map.get(new N(-1));
        int live = 0; for (int k = 0; k < n; ++k) if (mapped[k] != 0 && st[k]) ++live;
        if (map.size() > live) return "WeakHashMap still has unreachable keys: " + map.size() + " entries, " + live + " reachable";
      }
      return null;
    }
    /** collects until everything unreachable is gone */
    void full() {
      ++fulls;
      loosen();
      String l = null;
      long until = 0;
      for (int k = 0;; ++k) {
        System.gc();
        l = lacking();
        loosen();
        if (l == null || wrong != null) break;
        if (until == 0) until = System.currentTimeMillis() + 10000;
        else if (k > 20 && System.currentTimeMillis() > until) { fail("after " + k + " collections, " + l); break; }
        try { Thread.sleep(k < 5 ? 1 : 10); } catch (InterruptedException e) { }
      }
      if (wrong != null) return;
      boolean[] r = reach(false);
      for (int i = 0; i < refs; ++i) if (held[i] != null) { get(i); loosen(); }
      checkMap(false);
    }
  }
  static int sink;

  public void run(Src s, Out o) {
    World w = new World(s);
    int ops = s.range(15, 150), first = s.below(1 << 30);
    for (int k = 0; k < ops && w.wrong == null; ++k) w.step();
    if (w.wrong == null) w.checkMap(false);
    if (w.wrong == null) w.full();
    for (int k = 0; k < R; ++k) { w.roots[k] = null; w.rootOf[k] = -1; }
    if (w.wrong == null) w.full();
    if (w.queued > 0) o.tag("queued");
    for (int i = 0; i < w.n; ++i) if (w.fin.get(i) > 0) { o.tag("finalized"); break; }
    if (w.refs > 2 && w.n > 2) o.nt();
    o.i(first).i(ops).nl(); // the rest of a history depends on when references are cleared
    if (w.wrong != null) o.fail(w.wrong);
  }
}
