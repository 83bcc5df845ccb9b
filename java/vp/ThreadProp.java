package vp;

import java.util.*;

/** Threads, monitors, wait and notify, interruption, volatile variables.
 *  Everything written to the transcript is the same for every schedule. */
public class ThreadProp extends Prop {
  static final long LONG = 20000;

  public void run(Src s, Out o) {
    switch (s.below(12)) {
      case 0: case 1: case 2: locks(s, o); break;
      case 3: case 4: buffer(s, o); break;
      case 5: notifyCount(s, o); break;
      case 6: case 7: interrupts(s, o); break;
      case 8: lifecycle(s, o); break;
      case 9: locals(s, o); break;
      case 10: litmus(s, o); break;
      default: handoff(s, o); break;
    }
  }

  static void fail(Out o, String s) { o.nl(); o.fail(s); }

  static boolean joinAll(Thread[] ts, Out o) {
    try {
      for (Thread t : ts) {
        t.join(LONG * 2);
        if (t.isAlive()) { fail(o, "thread does not end"); return false; }
      }
    } catch (InterruptedException e) { fail(o, "main interrupted"); return false; }
    return true;
  }

  /* ---- mutual exclusion */
  static class Lk {
    int value;           // guarded by this
    long wide;
    volatile Thread owner;
    int depth;
    volatile String bad;
    void enter() {
      Thread me = Thread.currentThread();
      if (depth == 0) {
        if (owner != null) bad = "entered while owned";
        owner = me;
      } else if (owner != me) bad = "not the owner";
      ++depth;
    }
    void leave() {
      if (owner != Thread.currentThread()) bad = "left by another";
      if (--depth == 0) owner = null;
    }
    synchronized int syncAdd(int d, int spins) {
      enter();
      int v = value;
      spin(spins);
      value = v + d;
      leave();
      return v;
    }
    synchronized void syncThrow(int d) {
      enter();
      value += d;
      leave();
      throw new IllegalStateException("x");
    }
    synchronized int recurse(int n, int d) {
      enter();
      if (n > 0) recurse(n - 1, d);
      value += d;
      leave();
      return n;
    }
  }
  static class S1 {
    static int count;
    static synchronized void add(int d, int spins) { int v = count; spin(spins); count = v + d; }
  }

  static int sink;
  static void spin(int n) { int x = 0; for (int i = 0; i < n; ++i) x += i ^ x; if (x == 12345) sink = x; }

  static void pause(int how) {
    switch (how) {
      case 0: break;
      case 1: Thread.yield(); break;
      case 2: spin(200); break;
      case 3: spin(3000); break;
      default: { Object[] l = null; for (int i = 0; i < 400; ++i) { Object[] n = new Object[20]; n[0] = i % 50 == 0 ? null : l; l = n; } if (l == null) throw new Error(); break; }
    }
  }

  void locks(final Src s, Out o) {
    final int nt = s.range(2, 6), nl = s.range(1, 3);
    final Lk[] ls = new Lk[nl];
    final int[] expect = new int[nl];
    final long[] wide = new long[nl];
    for (int i = 0; i < nl; ++i) ls[i] = new Lk();
    S1.count = 0;
    int se = 0;
    final int reps = s.range(1, 60);
    final int[][] script = new int[nt][];
    for (int t = 0; t < nt; ++t) {
      int n = s.range(1, 6);
      script[t] = new int[n * 5];
      for (int i = 0; i < n; ++i) {
        int op = s.below(10), a = s.below(nl), b = s.below(nl), d = s.range(1, 9), p = s.below(5);
        script[t][i * 5] = op;
        script[t][i * 5 + 1] = Math.min(a, b);
        script[t][i * 5 + 2] = Math.max(a, b);
        script[t][i * 5 + 3] = d;
        script[t][i * 5 + 4] = p;
        int lo = Math.min(a, b), hi = Math.max(a, b);
        switch (op) {
          case 0: case 1: case 2: case 3: expect[lo] += d * reps; break;
          case 4: expect[lo] += d * reps * 4; break;
          case 5: expect[lo] += d * reps; expect[hi] += d * reps; break;
          case 6: expect[lo] += d * reps; wide[lo] += ((long) d << 31) * reps; break;
          case 7: se += d * reps; break;
          case 8: expect[lo] += 2 * d * reps; break;
          default: expect[hi] += d * reps; break;
        }
      }
    }
    final Throwable[] thrown = new Throwable[nt];
    Thread[] ts = new Thread[nt];
    final int[] imse = new int[nt];
    for (int t = 0; t < nt; ++t) {
      final int me = t;
      ts[t] = new Thread() { public void run() {
        try {
          for (int r = 0; r < reps; ++r) for (int i = 0; i < script[me].length; i += 5) {
            int op = script[me][i], d = script[me][i + 3], p = script[me][i + 4];
            Lk lo = ls[script[me][i + 1]], hi = ls[script[me][i + 2]];
            switch (op) {
              case 0: synchronized (lo) { lo.enter(); int v = lo.value; pause(p); lo.value = v + d; lo.leave(); } break;
              case 1: lo.syncAdd(d, p * 100); break;
              case 2: try { lo.syncThrow(d); } catch (IllegalStateException e) { } break;
              case 3:
                try {
                  synchronized (lo) { lo.enter(); lo.value += d; pause(p); lo.leave(); if (d > 0) throw new IllegalStateException("y"); }
                } catch (IllegalStateException e) { }
                break;
              case 4: lo.recurse(3, d); break;
              case 5: synchronized (lo) { synchronized (hi) {
                if (lo != hi) { lo.enter(); hi.enter(); int v = lo.value, w = hi.value; pause(p); lo.value = v + d; hi.value = w + d; hi.leave(); lo.leave(); }
                else { lo.enter(); lo.value += 2 * d; lo.leave(); }
              } } break;
              case 6: synchronized (lo) { lo.enter(); lo.value += d; long w = lo.wide; pause(p); lo.wide = w + ((long) d << 31); lo.leave(); } break;
              case 7: S1.add(d, p * 50); break;
              case 8:  // waiting releases every recursion of the monitor and takes them again
                synchronized (lo) { synchronized (lo) {
                  lo.enter(); lo.value += d; lo.leave();
                  if (r % 16 == 0) lo.wait(1);
                  if (!Thread.holdsLock(lo)) imse[me] += 1000;
                  lo.enter(); lo.value += d; lo.leave();
                } if (!Thread.holdsLock(lo)) imse[me] += 1000; }
                if (Thread.holdsLock(lo)) imse[me] += 1000;
                break;
              default:
                synchronized (hi) { hi.enter(); hi.value += d; hi.leave(); if (p == 1) hi.notify(); else if (p == 2) hi.notifyAll(); }
                if (r == 0) try { hi.notify(); } catch (IllegalMonitorStateException e) { ++imse[me]; }
                break;
            }
          }
        } catch (Throwable e) { thrown[me] = e; }
      } };
    }
    for (Thread t : ts) t.start();
    if (!joinAll(ts, o)) return;
    for (int i = 0; i < nl; ++i) {
      o.i(ls[i].value).i(ls[i].wide);
      if (ls[i].value != expect[i] || ls[i].wide != wide[i]) fail(o, "lost update: " + ls[i].value + " not " + expect[i]);
      if (ls[i].bad != null) fail(o, ls[i].bad);
    }
    if (S1.count != se) fail(o, "lost update in static synchronized method");
    for (int t = 0; t < nt; ++t) { o.i(imse[t]); if (thrown[t] != null) fail(o, "thread threw " + thrown[t]); }
    o.tag("locks"); o.nt();
  }

  /* ---- bounded buffer with wait and notify */
  void buffer(Src s, Out o) {
    final int cap = s.range(1, 5), np = s.range(1, 4), nc = s.range(1, 4), per = s.range(1, 120);
    final boolean timed = s.bool();
    final int pp = s.below(4), pc = s.below(4);
    final LinkedList<int[]> q = new LinkedList<int[]>();
    final int[] left = { np * per };
    final List<int[]>[] got = new List[nc];
    final Thread[] ts = new Thread[np + nc];
    final Throwable[] err = new Throwable[1];
    final int[] over = new int[1];
    for (int p = 0; p < np; ++p) {
      final int me = p;
      ts[p] = new Thread() { public void run() {
        try {
          for (int i = 0; i < per; ++i) {
            synchronized (q) {
              while (q.size() >= cap) if (timed) q.wait(LONG); else q.wait();
              q.addLast(new int[] { me, i });
              if (q.size() > cap) over[0]++;
              q.notifyAll();
            }
            pause(pp);
          }
        } catch (Throwable e) { err[0] = e; }
      } };
    }
    for (int c = 0; c < nc; ++c) {
      final List<int[]> mine = got[c] = new ArrayList<int[]>();
      ts[np + c] = new Thread() { public void run() {
        try {
          while (true) {
            synchronized (q) {
              while (q.isEmpty() && left[0] > 0) if (timed) q.wait(LONG); else q.wait();
              if (left[0] == 0) return;
              mine.add(q.removeFirst());
              --left[0];
              q.notifyAll();
            }
            pause(pc);
          }
        } catch (Throwable e) { err[0] = e; }
      } };
    }
    for (int i = ts.length; i-- > 0;) ts[i].start();
    if (!joinAll(ts, o)) return;
    int[][] seen = new int[np][per];
    for (List<int[]> l : got) {
      int[] last = new int[np];
      Arrays.fill(last, -1);
      for (int[] x : l) {
        ++seen[x[0]][x[1]];
        if (x[1] <= last[x[0]]) fail(o, "out of order");
        last[x[0]] = x[1];
      }
    }
    int dup = 0;
    for (int[] a : seen) for (int x : a) if (x != 1) ++dup;
    if (dup != 0 || over[0] != 0 || err[0] != null) fail(o, "buffer: " + dup + " " + over[0] + " " + err[0]);
    o.i(np).i(nc).i(cap).i(per).i(q.size());
    o.tag("buffer"); o.nt();
  }

  /* ---- notify wakes one waiter each, notifyAll all of them */
  void notifyCount(Src s, Out o) {
    final Object m = new Object();
    final int n = s.range(1, 6);
    final int[] waiting = new int[1], woken = new int[1], done = new int[1];
    final boolean[] kind = new boolean[n];
    final int[] depth = new int[n];
    for (int i = 0; i < n; ++i) { kind[i] = s.bool(); depth[i] = s.below(3); }
    final Throwable[] err = new Throwable[1];
    Thread[] ts = new Thread[n];
    for (int i = 0; i < n; ++i) {
      final int me = i;
      ts[i] = new Thread() {
        void nest(int d) throws InterruptedException {
          synchronized (m) {
            if (d > 0) nest(d - 1);
            else {
              ++waiting[0];
              if (kind[me]) m.wait(LONG * 3); else m.wait();
              ++woken[0];
            }
          }
        }
        public void run() {
          try { nest(depth[me]); } catch (Throwable e) { err[0] = e; }
          synchronized (done) { ++done[0]; done.notifyAll(); }
        }
      };
      ts[i].start();
    }
    try {
      await(m, waiting, n);
      int total = 0;
      while (total < n) {
        int k = s.range(1, n);
        boolean all = s.oneIn(4) || k > n - total;
        synchronized (m) {
          if (all) m.notifyAll(); else for (int i = 0; i < k; ++i) m.notify();
        }
        total = all ? n : total + k;
        if (!await(m, woken, total)) { fail(o, "waiter not woken: " + total + " " + woken[0]); return; }
        synchronized (m) { o.i(woken[0]); if (woken[0] != total) fail(o, "too many woken"); }
        pause(s.below(4));
      }
    } catch (InterruptedException e) { fail(o, "interrupted"); }
    if (!joinAll(ts, o)) return;
    if (err[0] != null) fail(o, "threw " + err[0]);
    o.tag("notify");
    if (n > 1) o.nt();
  }

  static boolean await(Object m, int[] v, int n) throws InterruptedException {
    long end = System.currentTimeMillis() + LONG;
    while (true) {
      synchronized (m) { if (v[0] >= n) return true; }
      if (System.currentTimeMillis() > end) return false;
      Thread.yield();
    }
  }

  /* ---- interruption: a history of one thread, with a helper */
  void interrupts(final Src s, final Out out) {
    final int n = s.range(1, 10);
    final int[] ops = new int[n * 2];
    for (int i = 0; i < n; ++i) { ops[2 * i] = s.below(18); ops[2 * i + 1] = s.below(3); }
    final StringBuilder sb = new StringBuilder();
    Thread t = new Thread("subject") { public void run() { history(ops, sb); } };
    t.start();
    if (!joinAll(new Thread[] { t }, out)) return;
    out.s(sb.toString());
    if (sb.indexOf("BAD") >= 0) fail(out, "bad");
    out.tag("interrupt");
    if (n > 2) out.nt();
  }

  static Thread helper(final Thread t, final Object m, final int what) {
    Thread h = new Thread() { public void run() {
      if (what == 2) { // once it is really blocked
        long end = System.currentTimeMillis() + 200;
        while (t.getState() == Thread.State.RUNNABLE && System.currentTimeMillis() < end) Thread.yield();
      } else pause(what * 3);
      t.interrupt();
    } };
    h.start();
    return h;
  }

  static void history(int[] ops, StringBuilder sb) {
    final Thread me = Thread.currentThread();
    Object m = new Object();
    for (int i = 0; i < ops.length; i += 2) {
      int a = ops[i + 1];
      Thread h = null;
      sb.append(' ').append(ops[i]).append(':');
      // joining and waiting for others must not see an interruption of before
      if (ops[i] == 6 || ops[i] >= 15) sb.append(Thread.interrupted());
      try {
        switch (ops[i]) {
          case 0: me.interrupt(); break;
          case 1: sb.append(Thread.interrupted()); break;
          case 2: sb.append(me.isInterrupted()); break;
          case 3: h = helper(me, m, a); Thread.sleep(LONG); sb.append("BAD slept"); break;
          case 4: h = helper(me, m, a); synchronized (m) { m.wait(); } sb.append("BAD waited"); break;
          case 5: h = helper(me, m, a); synchronized (m) { m.wait(LONG); } sb.append("BAD waited"); break;
          case 6: {
            final Object gate = new Object();
            final boolean[] open = new boolean[1];
            Thread x = new Thread() { public void run() { synchronized (gate) { while (!open[0]) try { gate.wait(); } catch (InterruptedException e) { } } } };
            x.start();
            try { h = helper(me, m, a); x.join(); sb.append("BAD joined"); }
            finally {
              synchronized (gate) { open[0] = true; gate.notify(); }
              Thread.interrupted();
              while (x.isAlive()) try { x.join(); } catch (InterruptedException e) { }
            }
            break;
          }
          case 7: synchronized (m) { m.wait(a + 1); } sb.append("timeout"); break;
          case 8: { long t0 = System.currentTimeMillis(); Thread.sleep(a * 2); if (System.currentTimeMillis() - t0 < a * 2 - 1) sb.append("BAD short"); sb.append("slept"); break; }
          case 9: m.wait(1); break;
          case 10: if (a == 0) m.notify(); else m.notifyAll(); break;
          case 11: synchronized (m) { m.wait(-1 - a); } break;
          case 12: Thread.sleep(-1 - a); break;
          case 13: synchronized (m) { m.wait(0, 1); } break;
          case 14: {
            final Thread y = new Thread();
            y.interrupt();
            sb.append(y.isAlive());
            break;
          }
          case 15: {  // interrupting does not take a monitor away from its owner
            final boolean[] in = new boolean[2];
            final Object mm = m;
            Thread x;
            synchronized (m) {
              x = new Thread() { public void run() { in[0] = true; synchronized (mm) { in[1] = Thread.currentThread().isInterrupted(); } } };
              x.start();
              while (!peek(in)) Thread.yield();
              x.interrupt();
              pause(a);
            }
            x.join();
            sb.append(in[1]);
            break;
          }
          case 16: { // both interrupted and notified: one of the two, nothing lost
            final int[] st = new int[3];
            final Object mm = m;
            Thread[] ws = new Thread[2];
            for (int k = 0; k < 2; ++k) {
              ws[k] = new Thread() { public void run() {
                synchronized (mm) { ++st[0]; try { mm.wait(LONG * 3); ++st[1]; } catch (InterruptedException e) { ++st[2]; } }
              } };
              ws[k].start();
            }
            await(mm, st, 2);
            synchronized (m) { ws[0].interrupt(); m.notify(); }
            ws[0].join(LONG); 
            boolean first = !ws[0].isAlive();
            synchronized (m) { m.notifyAll(); }
            ws[1].join(LONG);
            sb.append(first).append(st[1] + st[2]).append(ws[1].isAlive());
            break;
          }
          default: {
            Thread x = new Thread() { public void run() { pause(4); } };
            x.start();
            x.join(a == 0 ? 0 : LONG);
            sb.append(x.isAlive());
            if (a == 2) x.interrupt();
          }
        }
      } catch (Throwable e) {
        sb.append(e.getClass().getName());
      }
      if (h != null) {
        // the helper may not have interrupted yet
        boolean f = false;
        while (h.isAlive()) { try { h.join(); } catch (InterruptedException e) { } }
        Thread.interrupted();
      }
    }
    sb.append(' ').append(me.isInterrupted());
  }
  static synchronized boolean peek(boolean[] b) { return b[0]; }

  /* ---- life of a thread */
  void lifecycle(Src s, Out o) {
    final int n = s.range(1, 6);
    for (int k = 0; k < n; ++k) {
      final int what = s.below(7);
      final boolean daemon = s.bool();
      final String name = s.bool() ? "t" + s.below(100) : null;
      final int prio = s.range(1, 10);
      final StringBuilder sb = new StringBuilder();
      Runnable r = new Runnable() { public void run() {
        Thread c = Thread.currentThread();
        sb.append(c.isAlive()).append(c.isDaemon()).append(c.getPriority()).append(' ');
        sb.append(c.getState()).append(' ');
        if (name != null) sb.append(c.getName());
        if (what == 1) throw new IllegalStateException("bang");
        if (what == 2) throw new StackOverflowError("e");
      } };
      final Throwable[] seen = new Throwable[1];
      Thread t = name == null ? new Thread(r) : new Thread(r, name);
      t.setDaemon(daemon);
      t.setPriority(prio);
      t.setUncaughtExceptionHandler(new Thread.UncaughtExceptionHandler() { public void uncaughtException(Thread x, Throwable e) { seen[0] = e; } });
      o.s(t.getState().toString()).z(t.isAlive());
      try {
        if (what == 3) t.join();
        if (what == 4) t.setPriority(s.bool() ? 11 : 0);
      } catch (Throwable e) { o.ex(e); }
      t.start();
      try {
        if (what == 5) { t.start(); o.s("BAD"); }
        t.join();
        if (what == 6) { t.start(); o.s("BAD"); }
      } catch (Throwable e) { o.ex(e); }
      try { t.join(); } catch (InterruptedException e) { o.ex(e); }
      o.s(t.getState().toString()).z(t.isAlive()).s(sb.toString());
      o.s(seen[0] == null ? "-" : seen[0].toString()).nl();
    }
    o.tag("lifecycle"); o.nt();
  }

  /* ---- thread-local variables */
  void locals(Src s, Out o) {
    final int nv = s.range(1, 5), nt = s.range(1, 5), nops = s.range(1, 30);
    final int[] inits = new int[nv];
    final ThreadLocal<Integer>[] tl = new ThreadLocal[nv];
    for (int i = 0; i < nv; ++i) {
      final int me = i;
      tl[i] = s.bool() ? new ThreadLocal<Integer>() : new ThreadLocal<Integer>() { protected Integer initialValue() { synchronized (inits) { ++inits[me]; } return me * 100; } };
    }
    final int[][] script = new int[nt][nops];
    for (int t = 0; t < nt; ++t) for (int i = 0; i < nops; ++i) script[t][i] = s.below(nv * 4 * 10);
    final StringBuilder[] sb = new StringBuilder[nt];
    Thread[] ts = new Thread[nt];
    for (int t = 0; t < nt; ++t) {
      final int me = t;
      sb[t] = new StringBuilder();
      ts[t] = new Thread() { public void run() {
        for (int x : script[me]) {
          ThreadLocal<Integer> v = tl[x % nv];
          int op = x / nv % 4, val = x / nv / 4;
          if (op == 0) v.set(val + me * 1000);
          else if (op == 1) v.set(null);
          else sb[me].append(v.get()).append(' ');
          if (val == 3) pause(2);
        }
      } };
    }
    for (Thread t : ts) t.start();
    if (!joinAll(ts, o)) return;
    for (StringBuilder b : sb) o.s(b.toString()).nl();
    for (int i : inits) o.i(i);
    for (ThreadLocal<Integer> v : tl) o.s(String.valueOf(v.get()));
    o.tag("locals");
    if (nt > 1) o.nt();
  }

  /* ---- volatile accesses are totally ordered, ordinary ones ordered by them */
  static class V {
    volatile int x, y;
    volatile long lx;
    volatile double dx;
    volatile Object ox;
    int a, b;
    long wide;
    volatile int go;
    volatile int done1, done2, finish;
    static volatile int sx, sy;
    static volatile long slx, sly;
  }

  void litmus(Src s, Out o) {
    final int kind = s.below(6), iters = s.range(200, 1500), d1 = s.below(30), d2 = s.below(30);
    final V v = new V();
    final int[] r1 = new int[iters], r2 = new int[iters];
    Thread[] ts = new Thread[2];
    for (int t = 0; t < 2; ++t) {
      final boolean first = t == 0;
      ts[t] = new Thread() { public void run() {
        for (int i = 0; i < iters; ++i) {
          // meet
          if (first) { v.go = i + 1; for (int k = 0; v.done2 != i + 1; ++k) if (k > 2000) Thread.yield(); }
          else { for (int k = 0; v.go != i + 1; ++k) if (k > 2000) Thread.yield(); v.done2 = i + 1; }
          for (int k = first ? d1 : d2; k > 0; --k) sinkv = k;
          int r;
          switch (kind) {
            case 0: if (first) { v.x = i + 1; r = v.y; } else { v.y = i + 1; r = v.x; } break;
            case 1: if (first) { V.sx = i + 1; r = V.sy; } else { V.sy = i + 1; r = V.sx; } break;
            case 2: if (first) { V.slx = i + 1; r = (int) V.sly; } else { V.sly = i + 1; r = (int) V.slx; } break;
            case 3: if (first) { v.lx = i + 1; r = (int) v.dx; } else { v.dx = i + 1; r = (int) v.lx; } break;
            case 4: if (first) { v.a = i + 1; v.b = -i; v.x = i + 1; r = -1; }
                    else { int x = v.x; r = x != 0 && v.a < x ? 0 : 1; } break;
            default: if (first) { long w = (i & 1) == 0 ? -1L : 0L; v.lx = w; r = 1; }
                     else { long w = v.lx; r = w == 0 || w == -1 ? 1 : 0; } break;
          }
          (first ? r1 : r2)[i] = r;
          // both done with this round before the next
          if (first) { v.done1 = i + 1; for (int k = 0; v.finish != i + 1; ++k) if (k > 2000) Thread.yield(); }
          else { for (int k = 0; v.done1 != i + 1; ++k) if (k > 2000) Thread.yield(); v.finish = i + 1; }
        }
      } };
    }
    V.sx = V.sy = 0; V.slx = V.sly = 0;
    ts[0].start(); ts[1].start();
    if (!joinAll(ts, o)) return;
    int bad = 0;
    for (int i = 0; i < iters; ++i) {
      if (kind < 4) { if (r1[i] != i + 1 && r2[i] != i + 1) ++bad; }
      else if (r2[i] == 0) ++bad;
    }
    if (bad > 0) fail(o, "volatile accesses reordered, kind " + kind + ": " + bad + " of " + iters);
    o.i(kind).i(iters);
    o.tag("litmus" + kind); o.nt();
  }
  static int sinkv;

  /* ---- passing objects around a ring of threads through volatile or guarded slots */
  void handoff(Src s, Out o) {
    final int nt = s.range(2, 5), rounds = s.range(1, 60);
    final boolean vol = s.bool();
    final Slot[] slots = new Slot[nt];
    for (int i = 0; i < nt; ++i) slots[i] = new Slot();
    final long[] sums = new long[nt];
    final int alloc = s.below(3);
    Thread[] ts = new Thread[nt];
    final boolean[] bad = new boolean[nt];
    for (int t = 0; t < nt; ++t) {
      final int me = t;
      ts[t] = new Thread() { public void run() {
        for (int r = 0; r < rounds; ++r) {
          Node n;
          if (me == 0 && r == 0) n = new Node(1, null); else n = slots[me].take(vol);
          sums[me] += n.v;
          int len = 0;
          for (Node q = n; q != null; q = q.next) { if (q.check != q.v * 31) bad[me] = true; ++len; }
          if (alloc > 0) pause(4);
          Node m = new Node(n.v + me + 1, len > 20 ? null : n);
          if (!(me == nt - 1 && r == rounds - 1)) slots[(me + 1) % nt].put(m, vol);
        }
      } };
    }
    for (Thread t : ts) t.start();
    if (!joinAll(ts, o)) return;
    for (int i = 0; i < nt; ++i) { o.i(sums[i]); if (bad[i]) fail(o, "object not published whole"); }
    o.tag("handoff"); o.nt();
  }
  static class Node { final int v; int check; Node next; Node(int v, Node n) { this.v = v; check = v * 31; next = n; } }
  static class Slot {
    volatile Node vn;
    Node n;
    void put(Node x, boolean vol) {
      if (vol) { while (vn != null) Thread.yield(); vn = x; }
      else synchronized (this) { while (n != null) try { wait(); } catch (InterruptedException e) { } n = x; notifyAll(); }
    }
    Node take(boolean vol) {
      if (vol) { Node x; while ((x = vn) == null) Thread.yield(); vn = null; return x; }
      synchronized (this) { while (n == null) try { wait(); } catch (InterruptedException e) { } Node x = n; n = null; notifyAll(); return x; }
    }
  }
}
