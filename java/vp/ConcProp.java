package vp;

import java.util.*;
import java.util.concurrent.*;
import java.util.concurrent.atomic.*;
import java.util.concurrent.locks.LockSupport;

/** java.util.concurrent: histories of one thread compared with OpenJDK, and
 *  scripts of several threads whose outcome does not depend on the schedule. */
public class ConcProp extends Prop {
  static final long LONG = 30000;

  public void run(Src s, Out o) {
    switch (s.below(12)) {
      case 0: atomicsSeq(s, o); break;
      case 1: units(s, o); break;
      case 2: queueSeq(s, o); break;
      case 3: futureSeq(s, o); break;
      case 4: map(s, o); break;
      case 5: atomics(s, o); break;
      case 6: linked(s, o); break;
      case 7: blocking(s, o); break;
      case 8: futures(s, o); break;
      case 9: completion(s, o); break;
      case 10: park(s, o); break;
      default: stack(s, o); break;
    }
  }

  static void fail(Out o, String s) { ThreadProp.fail(o, s); }

  /** runs threads; false if something went wrong, which has been reported */
  static boolean go(Out o, final Body... bs) {
    Thread[] ts = new Thread[bs.length];
    final Throwable[] err = new Throwable[bs.length];
    for (int i = 0; i < bs.length; ++i) {
      final int me = i;
      ts[i] = new Thread() { public void run() { try { bs[me].go(me); } catch (Throwable e) { err[me] = e; } } };
    }
    for (Thread t : ts) t.start();
    if (!ThreadProp.joinAll(ts, o)) return false;
    for (Throwable e : err) if (e != null) { e.printStackTrace(); fail(o, "thread threw " + e); return false; }
    return true;
  }
  interface Body { void go(int me) throws Exception; }

  void atomicsSeq(Src s, Out o) {
    AtomicInteger ai = new AtomicInteger(s.anyInt());
    AtomicLong al = new AtomicLong(s.anyLong());
    AtomicBoolean ab = new AtomicBoolean(s.bool());
    String[] pool = { "a", "b", "c", null };
    AtomicReference<String> ar = new AtomicReference<String>(s.pick(pool));
    int len = s.range(0, 5);
    AtomicReferenceArray<String> aa = new AtomicReferenceArray<String>(len);
    int n = s.range(1, 25);
    for (int k = 0; k < n; ++k) {
      int op = s.below(40), i = s.anyInt();
      long l = s.anyLong();
      boolean b = s.bool();
      String p = s.pick(pool), q = s.pick(pool);
      int ix = s.below(len + 2) - 1;
      if (s.bool()) ix = s.below(Math.max(1, len));
      o.k("" + op);
      try {
        switch (op) {
          case 0: o.i(ai.getAndSet(i)); break;
          case 1: o.i(ai.getAndAdd(i)); break;
          case 2: o.i(ai.addAndGet(i)); break;
          case 3: o.i(ai.incrementAndGet()).i(ai.getAndIncrement()); break;
          case 4: o.i(ai.decrementAndGet()).i(ai.getAndDecrement()); break;
          case 5: o.z(ai.compareAndSet(b ? ai.get() : i, (int) l)); break;
          case 6: ai.set(i); break;
          case 7: ai.lazySet(i); break;
          case 8: o.i(ai.byteValue()).i(ai.shortValue()).i(ai.longValue()).d(ai.doubleValue()).f(ai.floatValue()); break;
          case 10: o.i(al.getAndSet(l)); break;
          case 11: o.i(al.getAndAdd(l)); break;
          case 12: o.i(al.addAndGet(l)); break;
          case 13: o.i(al.incrementAndGet()).i(al.getAndIncrement()); break;
          case 14: o.i(al.decrementAndGet()).i(al.getAndDecrement()); break;
          case 15: o.z(al.compareAndSet(b ? al.get() : l, l ^ i)); break;
          case 16: al.set(l); break;
          case 17: al.lazySet(l); break;
          case 18: o.i(al.intValue()).i(al.byteValue()).d(al.doubleValue()).f(al.floatValue()); break;
          case 19: o.s(ab.toString()); break;
          case 20: o.z(ab.getAndSet(b)); break;
          case 21: o.z(ab.compareAndSet(b, i > 0)); break;
          case 22: ab.set(b); break;
          case 23: o.z(ab.weakCompareAndSet(b, l > 0)); break;
          case 24: o.s(ar.getAndSet(p)); break;
          case 25: o.z(ar.compareAndSet(b ? ar.get() : p, q)); break;
          case 26: ar.set(p); break;
          case 27: o.s(ar.toString()); break;
          case 28: ar.lazySet(q); break;
          case 30: aa.set(ix, p); break;
          case 31: o.s(aa.getAndSet(ix, p)); break;
          case 32: o.z(aa.compareAndSet(ix, b ? aa.get(ix) : p, q)); break;
          case 33: o.s(aa.get(ix)); break;
          case 34: o.i(aa.length()); break;
          case 35: o.s(aa.toString().replace(" ", "")); break;
          case 36: aa.lazySet(ix, q); break;
          default: o.i(ai.get()).i(al.get()).z(ab.get()).s(ar.get());
        }
      } catch (RuntimeException e) { o.ex(e); }
      o.nl();
    }
    o.i(ai.get()).i(al.get()).z(ab.get()).s(ar.get());
    for (int i = 0; i < len; ++i) o.s(aa.get(i));
    o.tag("seq-atomics"); o.nt();
  }

  void units(Src s, Out o) {
    TimeUnit[] us = TimeUnit.values();
    for (int k = s.range(1, 10); k > 0; --k) {
      TimeUnit u = s.pick(us), w = s.pick(us);
      long d = s.bool() ? s.anyLong() : s.anyLong() / s.pick(new Integer[] { 1000, 60, 3600, 24, 1000000 });
      o.s(u.toString()).i(d).i(w.convert(d, u)).i(u.toNanos(d)).i(u.toMicros(d)).i(u.toMillis(d)).i(u.toSeconds(d)).i(u.toMinutes(d)).i(u.toHours(d)).i(u.toDays(d)).nl();
      try { o.s(TimeUnit.valueOf(s.bool() ? w.toString() : "FORTNIGHTS").name()); } catch (RuntimeException e) { o.ex(e); }
    }
    o.tag("units"); o.nt();
  }

  void queueSeq(Src s, Out o) {
    int kind = s.below(3);
    int cap = s.range(1, 6);
    Queue<Integer> q;
    LinkedBlockingQueue<Integer> b = null;
    if (kind == 0) q = new ConcurrentLinkedQueue<Integer>();
    else q = b = kind == 1 ? new LinkedBlockingQueue<Integer>(cap) : new LinkedBlockingQueue<Integer>();
    int n = s.range(1, 30);
    for (int k = 0; k < n; ++k) {
      int op = s.below(16), v = s.below(6), m = s.range(-1, 4);
      o.k("" + op);
      try {
        switch (op) {
          case 0: case 1: case 2: o.z(q.offer(v)); break;
          case 3: o.o(q.poll()); break;
          case 4: o.o(q.peek()); break;
          case 5: o.z(q.add(v)); break;
          case 6: o.z(q.isEmpty()); break;
          case 7: if (b != null) o.i(b.size()); break;
          case 8: if (b != null) o.z(b.contains(v)); break;
          case 9: if (b != null) o.z(b.remove((Object) v)); break;
          case 10: if (kind == 1) o.i(b.remainingCapacity()); break;
          case 11: if (b != null) { List<Integer> l = new ArrayList<Integer>(); o.i(m < 0 ? b.drainTo(l) : b.drainTo(l, m)); for (Integer x : l) o.i(x); } break;
          case 12: if (b != null) { for (Object x : b.toArray()) o.o(x); o.i(b.toArray(new Integer[2]).length); } break;
          case 13: if (b != null) o.z(b.offer(v, 1, TimeUnit.MILLISECONDS)); break;
          case 14: if (b != null) o.o(b.poll(1, TimeUnit.MILLISECONDS)); break;
          default: if (v == 0) q.clear(); else if (v == 1) o.o(q.remove()); else if (v == 2) o.o(q.element()); else if (v == 3) q.offer(null); else if (v == 4 && b != null) new LinkedBlockingQueue<Integer>(m - 1);
        }
      } catch (Exception e) { o.ex(e); }
      o.nl();
    }
    Integer x;
    while ((x = q.poll()) != null) o.i(x);
    o.tag("seq-queue");
    if (n > 3) o.nt();
  }

  void futureSeq(final Src s, Out o) {
    final int how = s.below(4), val = s.below(100);
    final int[] runs = new int[1], dones = new int[1];
    FutureTask<Integer> f;
    Callable<Integer> c = new Callable<Integer>() { public Integer call() throws Exception {
      ++runs[0];
      if (how == 1) throw new java.io.IOException("io" + val);
      if (how == 2) throw new StackOverflowError("so");
      return how == 3 ? null : (Integer) val;
    } };
    boolean viaRun = s.bool();
    if (viaRun) f = new FutureTask<Integer>(new Runnable() { public void run() { ++runs[0]; if (how == 2) throw new IllegalStateException("r"); } }, val);
    else f = new FutureTask<Integer>(c);
    int n = s.range(1, 8);
    for (int k = 0; k < n; ++k) {
      int op = s.below(7);
      o.k("" + op);
      try {
        switch (op) {
          case 0: case 1: f.run(); break;
          case 2: o.z(f.cancel(s.bool())); break;
          case 3: o.z(f.isDone()).z(f.isCancelled()); break;
          case 4: o.o(f.get(1, TimeUnit.MILLISECONDS)); break;
          case 5: if (f.isDone()) o.o(f.get()); break;
          default: Thread.currentThread().interrupt(); try { if (!f.isDone()) o.o(f.get()); } finally { Thread.interrupted(); }
        }
      } catch (Throwable e) { o.ex(e); if (e.getCause() != null) { o.ex(e.getCause()); o.s(e.getCause().getMessage()); } }
      o.i(runs[0]).nl();
    }
    try { new FutureTask<Integer>((Callable<Integer>) null); } catch (RuntimeException e) { o.ex(e); }
    try { o.o(Executors.callable(new Runnable() { public void run() { ++runs[0]; } }, val).call()); } catch (Exception e) { o.ex(e); }
    o.tag("seq-future"); o.nt();
  }

  void map(Src s, Out o) {
    final ConcurrentHashMap<Object, Integer> m = new ConcurrentHashMap<Object, Integer>();
    final int nt = s.range(2, 6), ops = s.range(5, 120), shared = s.range(1, 4), own = s.range(1, 12), fixed = s.below(8);
    final boolean collide = s.bool();
    final int seed = s.anyInt();
    final int[] wins = new int[ops];
    final AtomicIntegerA incs = new AtomicIntegerA(shared);
    for (int i = 0; i < fixed; ++i) m.put("fixed" + i, i);
    for (int i = 0; i < shared; ++i) m.put("shared" + i, 0);
    final String[] bad = new String[1];
    Body b = new Body() { public void go(int me) {
      Random r = new Random(seed * 31L + me);
      Map<Object, Integer> model = new HashMap<Object, Integer>();
      for (int i = 0; i < ops; ++i) {
        Object k = new Key(me, r.nextInt(own), collide);
        Integer v = r.nextInt(100), w = r.nextInt(4);
        switch (r.nextInt(14)) {
          case 0: case 1: same(m.put(k, v), model.put(k, v)); break;
          case 2: same(m.remove(k), model.remove(k)); break;
          case 3: same(m.get(k), model.get(k)); break;
          case 4: { Integer old = model.get(k); if (old == null) model.put(k, v); same(m.putIfAbsent(k, v), old); break; }
          case 5: { Integer old = model.get(k); if (old != null) model.put(k, v); same(m.replace(k, v), old); break; }
          case 6: { Integer old = model.get(k); boolean hit = w.equals(old); if (hit) model.put(k, v); same(m.replace(k, w, v), hit); break; }
          case 7: { boolean hit = w.equals(model.get(k)); if (hit) model.remove(k); same(m.remove(k, w), hit); break; }
          case 8: same(m.containsKey(k), model.containsKey(k)); break;
          case 9: case 10: { Object c = "shared" + r.nextInt(shared); Integer old; do { old = m.get(c); } while (!m.replace(c, old, old + 1)); incs.inc((String) c); break; }
          case 11: { boolean won = m.putIfAbsent("once" + i, me) == null; if (won) synchronized (wins) { ++wins[i]; } break; }
          default: {
            int f = 0;
            Set<Object> seen = new HashSet<Object>();
            for (Map.Entry<Object, Integer> e : m.entrySet()) {
              Object x = e.getKey();
              if (!seen.add(x) && (x instanceof String ? ((String) x).startsWith("fixed") : ((Key) x).t == me)) bad[0] = "key seen twice";
              if (x instanceof String && ((String) x).startsWith("fixed")) { ++f; same(e.getValue(), Integer.parseInt(((String) x).substring(5))); }
              if (x instanceof Key && ((Key) x).t == me) same(e.getValue(), model.get(x));
            }
            same(f, fixed);
            for (Object x : model.keySet()) if (!seen.contains(x)) bad[0] = "own key not iterated";
          }
        }
      }
      for (Map.Entry<Object, Integer> e : model.entrySet()) same(m.get(e.getKey()), e.getValue());
    }
    void same(Object a, Object e) { if (a == null ? e != null : !a.equals(e)) bad[0] = "got " + a + " not " + e; }
    };
    Body[] bs = new Body[nt];
    Arrays.fill(bs, b);
    if (!go(o, bs)) return;
    if (bad[0] != null) fail(o, bad[0]);
    for (int i = 0; i < shared; ++i) if (m.get("shared" + i) != incs.a[i]) fail(o, "lost replace: " + m.get("shared" + i) + " not " + incs.a[i]);
    for (int i = 0; i < ops; ++i) if (wins[i] > 1 || wins[i] == 1 != m.containsKey("once" + i)) fail(o, "putIfAbsent won " + wins[i] + " times");
    int n = 0;
    for (Object k : m.keySet()) ++n;
    o.i(fixed);
    if (n != m.size()) fail(o, "size " + m.size() + " not " + n);
    o.tag("map"); o.nt();
  }
  static class AtomicIntegerA { final int[] a; AtomicIntegerA(int n) { a = new int[n]; } synchronized void inc(String k) { ++a[Integer.parseInt(k.substring(6))]; } }
  static class Key {
    final int t, k; final boolean c;
    Key(int t, int k, boolean c) { this.t = t; this.k = k; this.c = c; }
    public int hashCode() { return c ? k % 3 : t * 31 + k; }
    public boolean equals(Object o) { return o instanceof Key && ((Key) o).t == t && ((Key) o).k == k; }
  }

  void atomics(Src s, Out o) {
    final int nt = s.range(2, 6), n = s.range(10, 2000), d = s.range(1, 9);
    final AtomicInteger ai = new AtomicInteger(), cas = new AtomicInteger(), hand = new AtomicInteger(1), tok = new AtomicInteger();
    final AtomicLong al = new AtomicLong(), lcas = new AtomicLong();
    final AtomicBoolean lock = new AtomicBoolean();
    final int[] plain = new int[1];
    final int[][] mine = new int[nt][n];
    final AtomicReference<Integer> ar = new AtomicReference<Integer>(0);
    final AtomicReferenceArray<Integer> aa = new AtomicReferenceArray<Integer>(3);
    for (int i = 0; i < 3; ++i) aa.set(i, 0);
    Body b = new Body() { public void go(int me) {
      for (int i = 0; i < n; ++i) {
        mine[me][i] = ai.getAndIncrement();
        al.addAndGet(((long) d << 32) + 1);
        int v; do { v = cas.get(); } while (!cas.compareAndSet(v, v + d));
        long w; do { w = lcas.get(); } while (!lcas.compareAndSet(w, w + (1L << 33) + d));
        if (i % 8 == 0) {
          while (lock.getAndSet(true)) Thread.yield();
          int p = plain[0]; plain[0] = p + 1;
          lock.set(false);
          Integer r; do { r = ar.get(); } while (!ar.compareAndSet(r, new Integer(r + 1)));
          Integer q; do { q = aa.get(i % 3); } while (!aa.compareAndSet(i % 3, q, new Integer(q + 1)));
          int t = hand.getAndSet(0); if (t != 0) { tok.incrementAndGet(); hand.set(t); }
        }
      }
    } };
    Body[] bs = new Body[nt];
    Arrays.fill(bs, b);
    if (!go(o, bs)) return;
    BitSet seen = new BitSet();
    for (int[] a : mine) for (int i = 0; i < n; ++i) { if (i > 0 && a[i] <= a[i - 1]) { fail(o, "not increasing"); break; } seen.set(a[i]); }
    int locked = nt * ((n + 7) / 8);
    if (ai.get() != nt * n || seen.cardinality() != nt * n) fail(o, "getAndIncrement");
    if (al.get() != (((long) d << 32) + 1) * nt * n) fail(o, "addAndGet");
    if (cas.get() != nt * n * d || lcas.get() != ((1L << 33) + d) * nt * n) fail(o, "compareAndSet");
    if (plain[0] != locked) fail(o, "spin lock " + plain[0] + " not " + locked);
    if (ar.get() != locked || aa.get(0) + aa.get(1) + aa.get(2) != locked) fail(o, "reference compareAndSet");
    o.i(ai.get()).i(al.get()).i(cas.get()).i(lcas.get()).i(plain[0]);
    o.tag("atomics"); o.nt();
  }

  /** items (producer << 16 | serial) exactly once, each producer's in order for each consumer */
  static void checkItems(Out o, List<Integer>[] got, int np, int per, boolean order) {
    int[][] seen = new int[np][per];
    for (List<Integer> l : got) {
      int[] last = new int[np];
      Arrays.fill(last, -1);
      for (int x : l) {
        ++seen[x >> 16][x & 0xffff];
        if (order && (x & 0xffff) <= last[x >> 16]) { fail(o, "out of order"); return; }
        last[x >> 16] = x & 0xffff;
      }
    }
    int bad = 0;
    for (int[] a : seen) for (int x : a) if (x != 1) ++bad;
    if (bad != 0) fail(o, bad + " items not delivered exactly once");
  }

  void linked(Src s, Out o) {
    final ConcurrentLinkedQueue<Integer> q = new ConcurrentLinkedQueue<Integer>();
    final int np = s.range(1, 4), nc = s.range(1, 4), per = s.range(1, 300), pp = s.below(4);
    final AtomicInteger left = new AtomicInteger(np * per);
    final List<Integer>[] got = new List[nc];
    Body[] bs = new Body[np + nc];
    for (int i = 0; i < np; ++i) bs[i] = new Body() { public void go(int me) {
      for (int k = 0; k < per; ++k) { q.add(me << 16 | k); if (k % 16 == 0) ThreadProp.pause(pp); }
    } };
    for (int i = 0; i < nc; ++i) {
      final List<Integer> mine = got[i] = new ArrayList<Integer>();
      bs[np + i] = new Body() { public void go(int me) {
        while (left.get() > 0) { Integer x = q.poll(); if (x == null) Thread.yield(); else { mine.add(x); left.decrementAndGet(); } }
      } };
    }
    if (!go(o, bs)) return;
    checkItems(o, got, np, per, true);
    if (q.poll() != null || !q.isEmpty()) fail(o, "not empty");
    o.i(np).i(nc).i(per); o.tag("linked"); o.nt();
  }

  void blocking(Src s, Out o) {
    final int np = s.range(1, 4), nc = s.range(1, 4), per = s.range(1, 150), cap = s.range(1, 6), pk = s.below(3), ck = s.below(4);
    final LinkedBlockingQueue<Integer> q = s.oneIn(4) ? new LinkedBlockingQueue<Integer>() : new LinkedBlockingQueue<Integer>(cap);
    final boolean bounded = q.remainingCapacity() <= 6;
    final AtomicInteger left = new AtomicInteger(np * per);
    final List<Integer>[] got = new List[nc];
    Body[] bs = new Body[np + nc];
    final boolean[] over = new boolean[1];
    for (int i = 0; i < np; ++i) bs[i] = new Body() { public void go(int me) throws Exception {
      for (int k = 0; k < per; ++k) {
        Integer x = me << 16 | k;
        if (pk == 0) q.put(x);
        else if (pk == 1) { while (!q.offer(x)) Thread.yield(); }
        else while (!q.offer(x, 5, TimeUnit.MILLISECONDS)) { }
        if (bounded && q.size() > cap) over[0] = true;
      }
    } };
    for (int i = 0; i < nc; ++i) {
      final List<Integer> mine = got[i] = new ArrayList<Integer>();
      bs[np + i] = new Body() { public void go(int me) throws Exception {
        while (true) {
          int l = left.get();
          if (l <= 0) break;
          if (ck == 0) { // claim one, then take it
            if (left.compareAndSet(l, l - 1)) mine.add(q.take());
          } else if (ck == 1) { Integer x = q.poll(); if (x == null) Thread.yield(); else { mine.add(x); left.decrementAndGet(); } }
          else if (ck == 2) { Integer x = q.poll(2, TimeUnit.MILLISECONDS); if (x != null) { mine.add(x); left.decrementAndGet(); } }
          else { int n = q.drainTo(mine, 3); if (n == 0) Thread.yield(); else left.addAndGet(-n); }
        }
      } };
    }
    if (!go(o, bs)) return;
    checkItems(o, got, np, per, true);
    if (over[0]) fail(o, "over capacity");
    if (q.size() != 0 || q.peek() != null || bounded && q.remainingCapacity() != cap) fail(o, "not empty");
    o.i(np).i(nc).i(per).i(pk).i(ck); o.tag("blocking"); o.nt();
  }

  void futures(Src s, Out o) {
    final int n = s.range(1, 12), nt = s.range(1, 3), ng = s.range(1, 3);
    final boolean cancels = s.bool();
    final AtomicInteger[] runs = new AtomicInteger[n];
    final FutureTask<Integer>[] fs = new FutureTask[n];
    final int[] how = new int[n];
    final AtomicInteger cancelled = new AtomicInteger();
    for (int i = 0; i < n; ++i) {
      final int me = i;
      how[i] = s.below(4);
      runs[i] = new AtomicInteger();
      fs[i] = new FutureTask<Integer>(new Callable<Integer>() { public Integer call() throws Exception {
        runs[me].incrementAndGet();
        ThreadProp.pause(how[me]);
        if (how[me] == 3) throw new IllegalStateException("f" + me);
        return me * 7;
      } });
    }
    final String[][] res = new String[ng][n];
    final boolean[] okc = new boolean[n];
    Body[] bs = new Body[nt + ng + (cancels ? 1 : 0)];
    for (int i = 0; i < nt; ++i) bs[i] = new Body() { public void go(int me) { for (FutureTask<Integer> f : fs) f.run(); } };
    for (int i = 0; i < ng; ++i) bs[nt + i] = new Body() { public void go(int me) throws Exception {
      for (int k = 0; k < n; ++k) {
        String r;
        try { r = "" + (k % 2 == 0 ? fs[k].get() : fs[k].get(LONG, TimeUnit.MILLISECONDS)); }
        catch (ExecutionException e) { r = "!" + e.getCause().getMessage(); }
        catch (CancellationException e) { r = "cancelled"; }
        if (!fs[k].isDone()) r = "not done";
        res[me - nt][k] = r;
      }
    } };
    if (cancels) bs[nt + ng] = new Body() { public void go(int me) { for (int k = 0; k < n; k += 2) okc[k] = fs[k].cancel(false); } };
    if (!go(o, bs)) return;
    for (int k = 0; k < n; ++k) {
      String e = okc[k] ? "cancelled" : how[k] == 3 ? "!f" + k : "" + k * 7;
      for (String[] r : res) if (!e.equals(r[k])) fail(o, "future gave " + r[k] + " not " + e);
      if (runs[k].get() > 1 || !okc[k] && runs[k].get() != 1) fail(o, "ran " + runs[k].get() + " times");
      if (fs[k].isCancelled() != okc[k]) fail(o, "isCancelled");
      if (!cancels) o.s(res[0][k]);
    }
    o.i(n).i(nt).i(ng); o.tag("futures"); o.nt();
  }

  void completion(Src s, Out o) {
    final int n = s.range(1, 15), order = s.below(3);
    Executor ex = new Executor() { public void execute(Runnable r) {
      if (order == 0) r.run(); else { Thread t = new Thread(r); t.setDaemon(true); t.start(); }
    } };
    ExecutorCompletionService<Integer> cs = s.bool() ? new ExecutorCompletionService<Integer>(ex) : new ExecutorCompletionService<Integer>(ex, new LinkedBlockingQueue<Future<Integer>>());
    final List<Future<Integer>> fs = new ArrayList<Future<Integer>>();
    final int[] how = new int[n];
    for (int i = 0; i < n; ++i) {
      final int me = i;
      how[i] = s.below(4);
      if (s.oneIn(4)) fs.add(cs.submit(new Runnable() { public void run() { ThreadProp.pause(how[me]); if (how[me] == 3) throw new IllegalStateException("c" + me); } }, me));
      else fs.add(cs.submit(new Callable<Integer>() { public Integer call() { ThreadProp.pause(how[me]); if (how[me] == 3) throw new IllegalStateException("c" + me); return me; } }));
    }
    int[] count = new int[n];
    try {
      for (int i = 0; i < n; ++i) {
        Future<Integer> f = i % 2 == 0 ? cs.take() : cs.poll(LONG, TimeUnit.MILLISECONDS);
        int k = -1;
        if (f == null) { fail(o, "task not completed"); return; }
        if (!f.isDone()) fail(o, "not done");
        try { k = f.get(); } catch (ExecutionException e) { k = Integer.parseInt(e.getCause().getMessage().substring(1)); if (how[k] != 3) fail(o, "failed"); }
        ++count[k];
      }
      o.z(cs.poll() == null);
      for (int k = 0; k < n; ++k) {
        if (count[k] != 1) fail(o, "completed " + count[k] + " times");
        try { o.i(fs.get(k).get()); } catch (ExecutionException e) { o.s(e.getCause().getMessage()); }
      }
    } catch (Exception e) { fail(o, "threw " + e); }
    o.tag("completion"); o.nt();
  }

  void park(Src s, Out o) {
    final int rounds = s.range(1, 200), kind = s.below(4);
    final AtomicInteger turn = new AtomicInteger();
    final Thread[] ts = new Thread[2];
    final boolean[] fl = new boolean[2];
    Body b = new Body() { public void go(int me) {
      if (kind == 1) { // a permit given before is kept, once
        LockSupport.unpark(Thread.currentThread());
        LockSupport.unpark(Thread.currentThread());
        LockSupport.park();
        long t0 = System.currentTimeMillis();
        LockSupport.parkNanos(3000000);
        LockSupport.parkUntil(System.currentTimeMillis() + 2);
        fl[me] = true;
        return;
      }
      if (kind == 2) { // an interrupt ends parking and stays
        Thread.currentThread().interrupt();
        LockSupport.park();
        LockSupport.parkNanos(LONG * 1000000);
        fl[me] = Thread.interrupted();
        return;
      }
      Thread other;
      synchronized (ts) { ts[me] = Thread.currentThread(); ts.notifyAll(); while ((other = ts[1 - me]) == null) try { ts.wait(); } catch (InterruptedException e) { } }
      for (int i = 0; i < rounds; ++i) {
        while ((turn.get() & 1) != me) if (kind == 3) LockSupport.park(this); else LockSupport.park();
        turn.incrementAndGet();
        LockSupport.unpark(other);
      }
      fl[me] = true;
    } };
    if (!go(o, b, b)) return;
    if (!fl[0] || !fl[1]) fail(o, "park");
    o.i(turn.get()).i(kind); o.tag("park" + kind); o.nt();
  }

  /** a lock-free stack of nodes */
  void stack(Src s, Out o) {
    final AtomicReference<N> top = new AtomicReference<N>();
    final int nt = s.range(2, 6), per = s.range(1, 400);
    final long[] in = new long[nt], out = new long[nt];
    final int[] pops = new int[nt];
    final int seed = s.anyInt();
    Body b = new Body() { public void go(int me) {
      Random r = new Random(seed + me);
      for (int i = 0; i < per; ++i) {
        if (r.nextInt(5) < 3) {
          N n = new N();
          n.v = r.nextInt(1000000);
          n.w = ~n.v;
          in[me] += n.v;
          ++pops[me];
          do { n.next = top.get(); } while (!top.compareAndSet(n.next, n));
        } else {
          N t;
          do { t = top.get(); } while (t != null && !top.compareAndSet(t, t.next));
          if (t != null) { out[me] += t.v; --pops[me]; if (t.w != ~t.v || t.taken++ != 0) throw new IllegalStateException("node"); }
        }
      }
    } };
    Body[] bs = new Body[nt];
    Arrays.fill(bs, b);
    if (!go(o, bs)) return;
    long si = 0, so = 0;
    int n = 0;
    for (int i = 0; i < nt; ++i) { si += in[i]; so += out[i]; n += pops[i]; }
    for (N t = top.get(); t != null; t = t.next) { so += t.v; --n; }
    if (si != so || n != 0) fail(o, "stack lost nodes");
    o.i(nt).i(per).i(si); o.tag("stack"); o.nt();
  }
  static class N { int v, w, taken; N next; }
}
