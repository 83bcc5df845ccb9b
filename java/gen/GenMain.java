package gen;

import java.io.*;
import java.util.*;
import vp.Src;

/** gen.GenMain KIND JOBS OUTDIR: writes the classes of every case and OUTDIR/meta. */
public class GenMain {
  static int serial;

  static void one(String kind, Src s, File dir, PrintWriter meta) throws Exception {
    String name = "P" + serial++;
    ByteGen g = new ByteGen(s, name, kind);
    Map<String, byte[]> m = g.generate();
    for (Map.Entry<String, byte[]> e : m.entrySet()) {
      FileOutputStream f = new FileOutputStream(new File(dir, e.getKey() + ".class"));
      f.write(e.getValue());
      f.close();
    }
    StringBuilder b = new StringBuilder();
    b.append(g.tags.length() == 0 ? "-" : g.tags).append(' ').append(g.features >= 6 ? 1 : 0);
    for (int i = 0; i < s.count(); ++i) b.append(' ').append(s.choice(i));
    meta.println(b);
  }

  public static void main(String[] a) throws Exception {
    File dir = new File(a[2]);
    dir.mkdirs();
    PrintWriter meta = new PrintWriter(new BufferedWriter(new FileWriter(new File(dir, "meta"))));
    BufferedReader r = new BufferedReader(new FileReader(a[1]));
    for (String l = r.readLine(); l != null; l = r.readLine()) {
      String[] p = l.trim().split(" +");
      if (p[0].equals("r") || p[0].equals("R")) {
        for (long i = Long.parseLong(p[2]); i < Long.parseLong(p[3]); ++i) one(a[0], new Src(Long.parseLong(p[1]), i), dir, meta);
      } else if (p[0].equals("c")) {
        int[] c = new int[p.length - 1];
        for (int i = 0; i < c.length; ++i) c[i] = Integer.parseInt(p[i + 1]);
        one(a[0], new Src(c), dir, meta);
      }
    }
    meta.close();
  }
}
