package vp;

import java.io.FileInputStream;
import java.io.FileOutputStream;
import java.io.InputStream;
import java.io.OutputStream;

/** vp.Main PROP-CLASS JOBS OUT [ARG].  JOBS has one job per line: "r SEED FROM TO" or
 *  "c CHOICE CHOICE ...".  For each case, writes
 *  "@B n\n" then, when it has run, "@E n tags nontrivial nchoices\n" + transcript lines
 *  (each starting with a space); for "c" jobs and jobs "R", the choices are written too. */
public class Main {
  private static OutputStream out;
  private static StringBuilder sb = new StringBuilder();

  private static void ascii(String s) throws Exception {
    byte[] b = new byte[s.length()];
    for (int i = 0; i < b.length; ++i) b[i] = (byte) s.charAt(i);
    out.write(b, 0, b.length);
  }

  private static String readAll(String f) throws Exception {
    InputStream in = new FileInputStream(f);
    byte[] buf = new byte[65536];
    int n = 0;
    while (true) {
      if (n == buf.length) {
        byte[] x = new byte[n * 2];
        System.arraycopy(buf, 0, x, 0, n);
        buf = x;
      }
      int c = in.read(buf, n, buf.length - n);
      if (c <= 0) break;
      n += c;
    }
    in.close();
    char[] cs = new char[n];
    for (int i = 0; i < n; ++i) cs[i] = (char) buf[i];
    return new String(cs, 0, n);
  }

  private static int pos;
  private static String text;
  private static boolean more() {
    while (pos < text.length() && text.charAt(pos) == ' ') ++pos;
    return pos < text.length() && text.charAt(pos) != '\n';
  }
  private static long num() {
    boolean neg = false;
    if (text.charAt(pos) == '-') { neg = true; ++pos; }
    long v = 0;
    while (pos < text.length()) {
      char c = text.charAt(pos);
      if (c < '0' || c > '9') break;
      v = v * 10 + (c - '0');
      ++pos;
    }
    return neg ? -v : v;
  }

  private static int serial;

  private static void one(Prop p, Src s, boolean record) throws Exception {
    ascii("@B " + serial + "\n");
    Out o = new Out();
    try {
      p.run(s, o);
    } catch (Throwable t) {
      o.line("UNCAUGHT " + t.getClass().getName());
      if (System.getProperty("vp.trace") != null) t.printStackTrace();
    }
    ascii("@E " + serial + " " + (o.tags.length() == 0 ? "-" : o.tags) + " " + (o.nontrivial ? 1 : 0)
          + " " + s.count() + "\n");
    if (record) {
      StringBuilder b = new StringBuilder("@C");
      for (int i = 0; i < s.count(); ++i) { b.append(' '); b.append(s.choice(i)); }
      b.append('\n');
      ascii(b.toString());
    }
    byte[] d = o.data();
    int n = o.length();
    int lines = 1;
    for (int i = 0; i < n; ++i) if (d[i] == '\n') ++lines;
    byte[] e = new byte[n + lines + 1];
    int k = 0;
    boolean start = true;
    for (int i = 0; i < n; ++i) {
      if (start) { e[k++] = ' '; start = false; }
      e[k++] = d[i];
      if (d[i] == '\n') start = true;
    }
    if (!start) e[k++] = '\n';
    out.write(e, 0, k);
    ++serial;
  }

  public static void main(String[] args) throws Throwable {
    Prop p = (Prop) Class.forName(args[0]).newInstance();
    text = readAll(args[1]);
    out = new FileOutputStream(args[2]);
    p.init(args.length > 3 ? args[3] : "");
    while (pos < text.length()) {
      char k = text.charAt(pos++);
      if (k == 'r' || k == 'R') {
        more(); long seed = num();
        more(); long from = num();
        more(); long to = num();
        for (long i = from; i < to; ++i) one(p, new Src(seed, i), k == 'R');
      } else if (k == 'c') {
        int[] a = new int[16];
        int n = 0;
        while (more()) {
          if (n == a.length) {
            int[] x = new int[n * 2];
            System.arraycopy(a, 0, x, 0, n);
            a = x;
          }
          a[n++] = (int) num();
        }
        int[] x = new int[n];
        System.arraycopy(a, 0, x, 0, n);
        one(p, new Src(x), true);
      }
      while (pos < text.length() && text.charAt(pos++) != '\n') { }
    }
    ascii("@D\n");
    out.close();
    System.exit(0);
  }
}
