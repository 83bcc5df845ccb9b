package vp;

import java.io.*;
import java.net.*;
import java.nio.ByteBuffer;
import java.nio.channels.*;
import java.util.*;

/** Sockets over the loopback network.  Addresses and ports are drawn from the
 *  clock, so that jobs which run at the same time do not meet; they are never
 *  written to the transcript. */
public class NetProp extends Prop {
  static long rnd = System.nanoTime() * 0x9E3779B97F4A7C15L ^ System.currentTimeMillis() ^ ((long) System.identityHashCode(new Object()) << 20);
  static int next(int bound) {
    rnd += 0x9E3779B97F4A7C15L;
    long z = rnd;
    z = (z ^ (z >>> 30)) * 0xBF58476D1CE4E5B9L;
    z = (z ^ (z >>> 27)) * 0x94D049BB133111EBL;
    return (int) ((z >>> 33) % bound);
  }
  static InetSocketAddress addr() {
    return new InetSocketAddress("127." + (1 + next(250)) + "." + next(256) + "." + (1 + next(250)), 10000 + next(20000));
  }

  public void run(Src s, Out o) throws Throwable {
    switch (s.below(12)) {
      case 0: case 1: case 2: pairs(s, o); break;
      case 3: bulk(s, o); break;
      case 4: case 5: case 6: select(s, o); break;
      case 7: case 8: case 9: udp(s, o); break;
      case 10: descriptors(s, o); break;
      default: addresses(s, o); break;
    }
  }

  static final int WAIT = 5000;
  static void pause(int i) { if (i < 100) Thread.yield(); else try { Thread.sleep(1); } catch (InterruptedException e) { } }

  static void fail(Out o, String s) { o.nl(); o.fail(s); }

  /** the stream of bytes of one direction */
  static final class Stream {
    long w, r;
    final int key;
    Stream(int key) { this.key = key; }
    byte at(long i) { long z = (i + 1) * 0x9E3779B97F4A7C15L + key; z ^= z >>> 29; return (byte) (z >>> 7); }
    byte[] take(int n) { byte[] b = new byte[n]; for (int i = 0; i < n; ++i) b[i] = at(w++); return b; }
    boolean check(byte[] b, int off, int n) { boolean ok = true; for (int i = 0; i < n; ++i) ok &= b[off + i] == at(r++); return ok; }
    int pending() { return (int) (w - r); }
  }

  static ServerSocketChannel listen(InetSocketAddress[] at) throws IOException {
    for (int i = 0; ; ++i) {
      ServerSocketChannel c = ServerSocketChannel.open();
      at[0] = addr();
      try {
        c.socket().bind(at[0]);
        return c;
      } catch (IOException e) {
        c.close();
        if (i == 20) throw e;
      }
    }
  }

  /** one end of a connection, through one of the ways to use it */
  static final class End {
    SocketChannel ch; Socket so;
    InputStream in; OutputStream out;
    boolean shutOut, closed;
    int mode;
    End(SocketChannel c, int m) throws IOException {
      ch = c; mode = m;
      if (m == 1) { in = Channels.newInputStream(c); out = Channels.newOutputStream(c); }
    }
    End(Socket s) throws IOException { so = s; mode = 2; in = s.getInputStream(); out = s.getOutputStream(); }
    /** writes all of b */
    void write(Src s, byte[] b) throws IOException {
      int at = 0;
      while (at < b.length) {
        int n = s.oneIn(3) ? b.length - at : 1 + s.below(b.length - at);
        if (mode == 0) {
          int pad = s.below(3);
          if (s.oneIn(4)) {
            ByteBuffer[] bs = new ByteBuffer[1 + s.below(3)];
            int p = at;
            for (int i = 0; i < bs.length; ++i) { int k = i == bs.length - 1 ? at + n - p : s.below(at + n - p + 1); bs[i] = ByteBuffer.wrap(b, p, k); p += k; }
            ch.write(bs);
            int left = 0;
            for (ByteBuffer x : bs) left += x.remaining();
            at += n - left;
          } else {
            ByteBuffer x = ByteBuffer.allocate(pad + n + 2);
            x.position(pad);
            if (s.bool()) { x = x.slice(); }
            x.put(b, at, n);
            x.flip();
            if (x.limit() != n) x.position(pad);
            int k = ch.write(x);
            at += k;
          }
        } else if (n == 1 && s.bool()) {
          out.write(s.bool() ? b[at] & 0xff : b[at] | 0x100);
          at++;
        } else if (at == 0 && n == b.length && s.bool()) {
          out.write(b);
          at += n;
        } else {
          out.write(b, at, n);
          at += n;
        }
      }
    }
    /** at most max bytes, -1 at the end */
    int read(Src s, byte[] b, int off, int max) throws IOException {
      if (mode == 0) {
        ByteBuffer x;
        if (s.bool()) { x = ByteBuffer.wrap(b, off, max); }
        else { ByteBuffer y = ByteBuffer.wrap(b); y.position(off); x = y.slice(); x.limit(max); }
        int p = x.position();
        int n = ch.read(x);
        if (x.position() - p != Math.max(n, 0)) return -9;
        return n;
      }
      if (max == 1 && s.bool()) {
        int c = in.read();
        if (c < 0) return c == -1 ? -1 : -8;
        if (c > 255) return -7;
        b[off] = (byte) c;
        return 1;
      }
      if (s.oneIn(3)) {
        byte[] t = new byte[max];
        int n = in.read(t);
        if (n > 0) System.arraycopy(t, 0, b, off, n);
        return n;
      }
      return in.read(b, off, max);
    }
    void shutdownOutput() throws IOException { so.shutdownOutput(); shutOut = true; }
    void close(Src s) throws IOException {
      closed = true;
      if (so != null) so.close();
      else if (mode == 1 && s.bool()) { if (s.bool()) in.close(); else out.close(); }
      else ch.close();
    }
  }

  static End connect(Src s, InetSocketAddress at, int modes) throws IOException {
    if (s.below(3) == 0) return new End(s.bool() ? new Socket(at.getAddress(), at.getPort()) : new Socket(at.getAddress().getHostAddress(), at.getPort()));
    SocketChannel c = SocketChannel.open();
    if (s.oneIn(4)) {
      c.configureBlocking(false);
      boolean done = c.connect(at);
      for (int i = 0; !done && i < 2000; ++i) { done = c.finishConnect(); if (!done) Thread.yield(); }
      c.configureBlocking(true);
    } else {
      c.connect(at);
    }
    return new End(c, s.below(modes + 1));
  }

  /** connections used in turn by one thread */
  void pairs(Src s, Out o) throws Throwable {
    InetSocketAddress[] at = new InetSocketAddress[1];
    ServerSocketChannel server = listen(at);
    int n = 1 + s.size(3);
    End[][] e = new End[n][2];
    Stream[][] st = new Stream[n][2];     // [i][d]: what side d writes
    List<End> all = new ArrayList<End>();
    try {
      if (s.oneIn(3)) {
        server.configureBlocking(false);
        o.z(server.accept() == null);
        server.configureBlocking(true);
      }
      boolean late = s.bool();            // accept after all have connected
      for (int i = 0; i < n; ++i) {
        e[i][0] = connect(s, at[0], 1);
        all.add(e[i][0]);
        if (!late) { e[i][1] = new End(server.accept(), s.below(2)); all.add(e[i][1]); }
      }
      if (late) for (int i = 0; i < n; ++i) { e[i][1] = new End(server.accept(), s.below(2)); all.add(e[i][1]); }
      if (s.oneIn(3)) server.close();
      for (int i = 0; i < n; ++i) for (int d = 0; d < 2; ++d) st[i][d] = new Stream(i * 2 + d + s.below(1000) * 16);
      int ops = 3 + s.size(30);
      for (int k = 0; k < ops; ++k) {
        int i = s.below(n), d = s.below(2);
        End me = e[i][d], you = e[i][1 - d];
        Stream out = st[i][d], in = st[i][1 - d];
        switch (s.below(10)) {
          case 0: case 1: case 2: case 3:
            if (me.shutOut || me.closed || you.closed || out.pending() > 12000) break;
            me.write(new Src(s.below(1 << 20), k), out.take(s.oneIn(5) ? s.below(6000) : 1 + s.size(60)));
            break;
          case 4: case 5: case 6: case 7: {
            if (me.closed) break;
            int want = in.pending();
            if (want == 0 && !(you.shutOut || you.closed)) break;
            Src q = new Src(s.below(1 << 20), k);
            if (want == 0) { o.i(me.read(q, new byte[4], 0, 1)); break; }
            int left = s.bool() ? want : 1 + s.below(want);
            while (left > 0) {
              int pending = in.pending();
              byte[] b = new byte[pending + 20];
              int off = q.below(8), max = q.bool() && left == pending ? left + 1 + q.below(10) : 1 + q.below(left);
              int r = me.read(q, b, off, max);
              if (r <= 0 || r > max || r > left) { fail(o, "read " + r + " of " + left); return; }
              if (!in.check(b, off, r)) { fail(o, "wrong data in mode " + me.mode); return; }
              for (int m = 0; m < b.length; ++m) if ((m < off || m >= off + r) && b[m] != 0) { fail(o, "wrote outside"); return; }
              left -= r;
            }
            o.k("r");
            break;
          }
          case 8:
            if (me.so != null && !me.shutOut && !me.closed && s.bool()) { me.shutdownOutput(); o.k("sh"); }
            break;
          case 9:
            if (!me.closed && in.pending() == 0 && s.oneIn(3)) { me.close(s); if (me.ch != null) o.z(me.ch.isOpen()); o.k("cl"); }
            break;
        }
      }
      // the rest arrives, and then the end
      for (int i = 0; i < n; ++i) for (int d = 0; d < 2; ++d) {
        End me = e[i][d], you = e[i][1 - d];
        if (me.closed) continue;
        Stream in = st[i][1 - d];
        byte[] b = new byte[600];
        Src q = new Src(s.below(1 << 20), 0);
        while (in.pending() > 0) {
          int r = me.read(q, b, 0, Math.min(b.length, in.pending()));
          if (r <= 0 || !in.check(b, 0, r)) { fail(o, "wrong data at the end " + r); return; }
        }
        if (!you.closed && s.bool() && st[i][d].pending() == 0) you.close(s);
        if (you.closed || you.shutOut) o.i(me.read(s, b, 0, 1));
        o.i(in.r);
      }
      o.nontrivial = ops > 4;
    } finally {
      for (End x : all) if (!x.closed) x.close(s);
      if (server.isOpen()) server.close();
    }
    o.z(server.isOpen());
    boolean refused = false;
    if (s.oneIn(4)) {
      SocketChannel c = SocketChannel.open();
      try { c.connect(at[0]); } catch (IOException x) { refused = true; }
      c.close();
      o.z(refused);
    }
  }

  /** much data both ways, the reader and the writer of each in threads of their own, and garbage */
  void bulk(final Src s, Out o) throws Throwable {
    InetSocketAddress[] at = new InetSocketAddress[1];
    final ServerSocketChannel server = listen(at);
    final String[] bad = new String[4];
    final int[] len = { 1 + s.below(200000), 1 + s.below(200000) };
    final boolean both = s.bool();
    final End[] e = new End[2];
    List<Thread> ts = new ArrayList<Thread>();
    final boolean[] stop = new boolean[1];
    // threads make choices from sources of their own
    final long seed = s.bits32();
    try {
      // OpenJDK's Channels streams of one channel exclude each other
      e[0] = connect(s, at[0], both ? 0 : 1);
      e[1] = new End(server.accept(), both ? 0 : s.below(2));
      final int key = s.below(1000);
      int pause = s.below(3);
      for (int d = 0; d < (both ? 2 : 1); ++d) {
        final int dir = d;
        Runnable w = new Runnable() { public void run() {
          try {
            Src q = new Src(seed, dir);
            Stream st = new Stream(key + dir);
            while (st.w < len[dir]) {
              e[dir].write(q, st.take((int) Math.min(len[dir] - st.w, q.oneIn(4) ? 1 + q.below(20000) : 1 + q.below(500))));
              if (q.oneIn(8)) Thread.sleep(1);
            }
          } catch (Throwable t) { bad[dir * 2] = "writer: " + t; }
        } };
        Runnable r = new Runnable() { public void run() {
          try {
            Src q = new Src(seed, dir + 2);
            Stream st = new Stream(key + dir);
            byte[] b = new byte[20000];
            while (st.r < len[dir]) {
              int max = (int) Math.min(len[dir] - st.r, 1 + q.below(q.oneIn(3) ? 19000 : 900));
              int off = q.below(900);
              int k = e[1 - dir].read(q, b, off, max);
              if (k <= 0 || k > max) { bad[dir * 2 + 1] = "reader got " + k; return; }
              if (!st.check(b, off, k)) { bad[dir * 2 + 1] = "wrong data before " + st.r; return; }
            }
          } catch (Throwable t) { bad[dir * 2 + 1] = "reader: " + t; }
        } };
        ts.add(new Thread(r));
        ts.add(new Thread(w));
      }
      if (pause == 0) Collections.reverse(ts);
      for (Thread t : ts) { t.start(); if (pause == 1) { System.gc(); Thread.sleep(2); } }
      if (pause > 0) System.gc();
      Object junk = null;
      for (int i = 0; i < 300; ++i) junk = new Object[] { i % 10 == 0 ? null : junk, new byte[2000] };
      for (Thread t : ts) {
        t.join(60000);
        if (t.isAlive()) { fail(o, "transfer does not end"); return; }
      }
      for (String x : bad) if (x != null) { fail(o, x); return; }
      o.i(len[0]).i(both ? len[1] : 0);
      o.nontrivial = true;
    } finally {
      for (End x : e) if (x != null) x.close(s);
      server.close();
    }
  }

  static String ops(SelectionKey k) {
    return (k.isReadable() ? "r" : "") + (k.isWritable() ? "w" : "") + (k.isAcceptable() ? "a" : "") + (k.isConnectable() ? "c" : "");
  }

  /** channels in non-blocking mode and a selector, one thread */
  void select(Src s, Out o) throws Throwable {
    InetSocketAddress[] at = new InetSocketAddress[1];
    ServerSocketChannel server = listen(at);
    Selector sel = Selector.open();
    List<SocketChannel> peers = new ArrayList<SocketChannel>(), mine = new ArrayList<SocketChannel>();
    List<SelectionKey> keys = new ArrayList<SelectionKey>();
    List<Stream> to = new ArrayList<Stream>(), from = new ArrayList<Stream>();
    List<DatagramChannel> ds = new ArrayList<DatagramChannel>();
    try {
      server.configureBlocking(false);
      SelectionKey sk = server.register(sel, SelectionKey.OP_ACCEPT, "server");
      int waiting = 0;
      boolean wake = false;
      int ops = 4 + s.size(30);
      for (int k = 0; k < ops; ++k) {
        int c = s.below(12);
        if (mine.isEmpty() && c > 2) c = s.below(3);
        int i = mine.isEmpty() ? 0 : s.below(mine.size());
        switch (c) {
          case 0:
            if (waiting + mine.size() < 5) { SocketChannel p = SocketChannel.open(); p.connect(at[0]); peers.add(p); ++waiting; }
            break;
          case 1: {
            SocketChannel p = server.accept();
            for (int z = 0; p == null && waiting > 0 && z < WAIT; ++z) { pause(z); p = server.accept(); }
            if (p == null) { if (waiting > 0) fail(o, "no connection to accept"); o.k("none"); break; }
            if (waiting == 0) { fail(o, "nobody connected"); return; }
            --waiting;
            p.configureBlocking(false);
            mine.add(p);
            keys.add(p.register(sel, s.below(2) == 0 ? SelectionKey.OP_READ : SelectionKey.OP_READ | SelectionKey.OP_WRITE, Integer.valueOf(mine.size() - 1)));
            to.add(new Stream(mine.size() + 100)); from.add(new Stream(mine.size()));
            o.k("acc");
            break;
          }
          case 2: if (s.oneIn(3)) { sel.wakeup(); wake = true; } break;
          case 3: case 4: { // the peer writes
            if (!peers.get(i).isOpen() || !mine.get(i).isOpen() || to.get(i).pending() > 9000) break;
            ByteBuffer b = ByteBuffer.wrap(to.get(i).take(1 + s.size(3000)));
            while (b.hasRemaining()) peers.get(i).write(b);
            break;
          }
          case 5: case 6: { // read what is there
            if (!mine.get(i).isOpen()) break;
            int off = s.below(5);
            ByteBuffer b = ByteBuffer.allocate(1 + s.size(4000) + off);
            b.position(off);
            int want = Math.min(to.get(i).pending(), b.capacity() - off);
            if (want == 0) { o.i(mine.get(i).read(b)); break; }
            b.limit(off + want);
            for (int z = 0; b.hasRemaining() && z < WAIT; pause(z++)) {
              int p = b.position(), r = mine.get(i).read(b);
              if (r != b.position() - p || r < 0) { fail(o, "read " + r + ", moved by " + (b.position() - p)); return; }
              if (!to.get(i).check(b.array(), p, r)) { fail(o, "wrong data"); return; }
              if (r > 0) z = 0;
            }
            if (b.hasRemaining()) { fail(o, "data does not arrive"); return; }
            break;
          }
          case 7: { // write some, the peer reads it
            if (!mine.get(i).isOpen() || !peers.get(i).isOpen()) break;
            byte[] x = from.get(i).take(1 + s.size(2000));
            ByteBuffer b = ByteBuffer.wrap(x);
            int w = mine.get(i).write(b);
            if (w != x.length || b.hasRemaining()) { fail(o, "wrote " + w + " of " + x.length); return; }
            ByteBuffer y = ByteBuffer.allocate(x.length);
            while (y.hasRemaining()) if (peers.get(i).read(y) < 0) { fail(o, "the peer got less"); return; }
            if (!from.get(i).check(y.array(), 0, x.length)) { fail(o, "the peer got other data"); return; }
            o.k("w");
            break;
          }
          case 8:
            if (mine.get(i).isOpen()) {
              keys.get(i).interestOps(new int[] { 0, SelectionKey.OP_READ, SelectionKey.OP_WRITE, SelectionKey.OP_READ | SelectionKey.OP_WRITE }[s.below(4)]);
              o.i(keys.get(i).interestOps());
            }
            break;
          case 9:
            if (s.oneIn(3) && mine.get(i).isOpen() && to.get(i).pending() == 0) { mine.get(i).close(); o.z(keys.get(i).isValid()).z(mine.get(i).isOpen()); }
            else if (s.oneIn(3) && peers.get(i).isOpen()) { peers.get(i).close(); o.k("pc"); }
            break;
          default: {
            // which keys must be ready, as soon as everything has arrived
            String[] expect = new String[mine.size() + 1], got = null;
            int ready = 0;
            expect[mine.size()] = waiting > 0 ? "a" : null;
            for (int j = 0; j < mine.size(); ++j) if (mine.get(j).isOpen()) {
              int in = keys.get(j).interestOps();
              String x = ((in & SelectionKey.OP_READ) != 0 && (to.get(j).pending() > 0 || !peers.get(j).isOpen()) ? "r" : "") + ((in & SelectionKey.OP_WRITE) != 0 ? "w" : "");
              expect[j] = x.length() > 0 ? x : null;
            }
            for (String x : expect) if (x != null) ++ready;
            int how = s.below(3);
            for (int z = 0; z < WAIT; pause(z++)) {
              sel.selectedKeys().clear();
              int r;
              if (how == 0 || (ready == 0 && !wake && how == 1)) r = sel.selectNow();
              else if (how == 1 || (ready == 0 && !wake)) r = sel.select(ready == 0 && !wake ? 1 : 5000);
              else r = sel.select();
              wake = false;
              if (r != sel.selectedKeys().size()) { fail(o, "select returned " + r + " for " + sel.selectedKeys().size()); return; }
              got = new String[mine.size() + 1];
              for (Iterator<SelectionKey> it = sel.selectedKeys().iterator(); it.hasNext();) {
                SelectionKey key = it.next();
                if (key == sk) got[mine.size()] = ops(key);
                else { int j = ((Integer) key.attachment()).intValue(); got[j] = ops(key); if (key != keys.get(j) || key.channel() != mine.get(j) || key.selector() != sel) fail(o, "strange key"); }
              }
              boolean same = true;
              for (int j = 0; j < got.length; ++j) {
                if (got[j] == null ? expect[j] != null : !got[j].equals(expect[j])) same = false;
                if (got[j] != null) for (int m = 0; m < got[j].length(); ++m) if (expect[j] == null || expect[j].indexOf(got[j].charAt(m)) < 0) { fail(o, "ready for " + got[j] + ", not " + expect[j]); return; }
              }
              if (same) break;
            }
            for (int j = 0; j < got.length; ++j) o.k(got[j] == null ? "-" : got[j]);
            o.i(sel.keys().size());
            break;
          }
        }
      }
      o.nontrivial = mine.size() > 0;
    } finally {
      sel.close();
      for (SocketChannel x : mine) x.close();
      for (SocketChannel x : peers) x.close();
      server.close();
    }
    o.z(sel.isOpen());
    try { sel.selectNow(); o.k("no exception"); } catch (ClosedSelectorException x) { o.ex(x); }
  }

  void udp(Src s, Out o) throws Throwable {
    int n = 2 + s.below(2);
    DatagramChannel[] c = new DatagramChannel[n];
    InetSocketAddress[] a = new InetSocketAddress[n];
    int[] peer = new int[n];
    List<List<byte[]>> q = new ArrayList<List<byte[]>>();
    List<List<Integer>> who = new ArrayList<List<Integer>>();
    boolean[] nonBlocking = new boolean[n];
    try {
      for (int i = 0; i < n; ++i) {
        c[i] = DatagramChannel.open();
        for (int k = 0; ; ++k) {
          a[i] = addr();
          try {
            if (s.bool()) c[i].bind(a[i]); else c[i].socket().bind(a[i]);
            break;
          } catch (IOException x) { if (k == 20) throw x; }
        }
        q.add(new ArrayList<byte[]>()); who.add(new ArrayList<Integer>());
        peer[i] = -1;
      }
      int ops = 3 + s.size(30), key = s.below(1000), got = 0;
      for (int k = 0; k < ops; ++k) {
        int i = s.below(n);
        switch (s.below(8)) {
          case 0: case 1: case 2: {
            int j = peer[i] >= 0 ? peer[i] : s.below(n);
            if (peer[j] >= 0 && peer[j] != i) break;   // it would not take the packet
            // OpenJDK does not send empty packets once connected
            int len = peer[i] < 0 && s.oneIn(6) ? 0 : s.oneIn(4) ? s.below(3000) : 1 + s.size(100);
            byte[] b = new byte[len];
            for (int m = 0; m < len; ++m) b[m] = (byte) (key + k * 31 + m * 7 + (m >> 8));
            int off = s.below(4);
            ByteBuffer x = ByteBuffer.allocate(off + len + 3);
            x.position(off); x.put(b); x.limit(off + len); x.position(off);
            if (q.get(j).size() > 15) break;
            int w = peer[i] >= 0 && len > 0 && s.bool() ? c[i].write(x) : c[i].send(x, a[j]);
            o.i(w).i(x.position() - off);
            q.get(j).add(b); who.get(j).add(i);
            break;
          }
          case 3: case 4: case 5: {
            boolean empty = q.get(i).isEmpty();
            if (empty && !nonBlocking[i]) break;
            int size = s.oneIn(3) ? 1 + s.below(60) : 3010, off = s.below(4);
            ByteBuffer x = ByteBuffer.allocate(off + size + 2);
            x.position(off); x.limit(off + size);
            int from = -1;
            if (peer[i] >= 0 && !nonBlocking[i] && q.get(i).get(0).length > 0 && s.bool()) {
              int r = c[i].read(x);
              if (r != x.position() - off) fail(o, "position after read");
              from = peer[i];
            } else {
              SocketAddress from1 = c[i].receive(x);
              for (int z = 0; from1 == null && !empty && z < WAIT; ++z) { pause(z); from1 = c[i].receive(x); }
              if (!empty && from1 == null) { fail(o, "packet lost"); return; }
              if (from1 != null) for (int m = 0; m < n; ++m) if (from1.equals(a[m])) from = m;
              if (from1 != null && from < 0) { fail(o, "unknown sender"); return; }
              if (from1 != null) {
                InetSocketAddress f = (InetSocketAddress) from1;
                if (f.getPort() != a[from].getPort() || !f.getAddress().equals(a[from].getAddress())) { fail(o, "address of the sender"); return; }
              }
            }
            if (empty) { if (x.position() != off) { fail(o, "packet from nowhere"); return; } break; }
            int at = who.get(i).indexOf(Integer.valueOf(from));
            if (at < 0) { fail(o, "packet of another sender"); return; }
            who.get(i).remove(at);
            byte[] b = q.get(i).remove(at);
            int want = Math.min(size, b.length);
            if (x.position() - off != want) { fail(o, "packet of " + b.length + " bytes gave " + (x.position() - off) + " in a buffer of " + size); return; }
            for (int m = 0; m < want; ++m) if (x.get(off + m) != b[m]) { fail(o, "wrong byte " + m); return; }
            for (int m = 0; m < off; ++m) if (x.get(m) != 0) { fail(o, "wrote before the position"); return; }
            x.limit(x.capacity());
            for (int m = off + want; m < x.capacity(); ++m) if (x.get(m) != 0) { fail(o, "wrote after the packet"); return; }
            ++got;
            break;
          }
          case 6:
            nonBlocking[i] = s.bool();
            c[i].configureBlocking(!nonBlocking[i]);
            break;
          case 7:
            // connect only a channel for which nothing is waiting
            if (s.oneIn(3) && q.get(i).isEmpty()) {
              if (peer[i] < 0) { peer[i] = s.below(n); c[i].connect(a[peer[i]]); }
              o.z(c[i].isConnected());
            }
            break;
        }
      }
      o.nontrivial = got > 0;
    } finally {
      for (DatagramChannel x : c) if (x != null) { x.close(); o.z(x.isOpen()); }
    }
  }

  static int open() {
    String[] l = new File("/proc/self/fd").list();
    return l == null ? 0 : l.length;
  }

  /** what is closed does not stay open */
  void descriptors(Src s, Out o) throws Throwable {
    round(s.below(7), s, o);           // whatever is only made once
    int kind = s.below(7), n = 20 + s.size(40);
    int before = open();
    for (int i = 0; i < n; ++i) round(kind, s, o);
    int after = open();
    if (after - before > n / 2) fail(o, "kind " + kind + ": " + (after - before) + " descriptors stay open after " + n + " rounds");
    o.i(kind).i(n);
    o.nontrivial = true;
  }

  void round(int kind, Src s, Out o) throws Throwable {
    InetSocketAddress[] at = new InetSocketAddress[1];
    switch (kind) {
      case 0: listen(at).close(); break;
      case 1: case 2: case 5: case 6: {
        ServerSocketChannel server = listen(at);
        Socket so = null; SocketChannel ch = null;
        if (kind == 1) so = new Socket(at[0].getAddress(), at[0].getPort());
        else {
          ch = SocketChannel.open();
          if (kind == 5) { ch.configureBlocking(false); ch.connect(at[0]); for (int i = 0; i < 1000 && !ch.finishConnect(); ++i) Thread.yield(); }
          else ch.connect(at[0]);
        }
        SocketChannel c = server.accept();
        if (kind == 6) {
          Selector sel = Selector.open();
          ch.configureBlocking(false);
          ch.register(sel, SelectionKey.OP_WRITE, null);
          sel.select();
          sel.close();
        }
        c.close();
        if (so != null) { if (s.bool()) so.close(); else { so.getOutputStream().close(); so.close(); so.close(); } }
        if (ch != null) { ch.close(); if (s.bool()) ch.close(); }
        server.close();
        break;
      }
      case 3: Selector.open().close(); break;
      case 4: { DatagramChannel d = DatagramChannel.open(); d.close(); d.close(); break; }
    }
  }

  void addresses(Src s, Out o) throws Throwable {
    List<InetSocketAddress> l = new ArrayList<InetSocketAddress>();
    int n = 1 + s.size(6);
    for (int i = 0; i < n; ++i) {
      String h = part(s) + "." + part(s) + "." + part(s) + "." + part(s);
      int port = s.pick(new Integer[] { 0, 1, 80, 65535, 32768 });
      InetAddress a = InetAddress.getByName(h);
      o.s(a.getHostAddress());
      for (byte b : a.getAddress()) o.i(b);
      o.i(a.hashCode());
      InetSocketAddress x = s.bool() ? new InetSocketAddress(a, port) : new InetSocketAddress(h, port);
      o.i(x.getPort()).s(x.getAddress().getHostAddress()).z(x.getAddress().equals(a)).z(a.equals(h));
      for (InetSocketAddress y : l) o.z(x.equals(y)).z(y.equals(x)).z(x.getAddress().equals(y.getAddress())).z(!x.equals(y) || x.hashCode() == y.hashCode());
      l.add(x);
    }
    o.nontrivial = n > 1;
  }

  static int part(Src s) { return s.pick(new Integer[] { 0, 1, 127, 128, 255, 10, 2 }); }
}
