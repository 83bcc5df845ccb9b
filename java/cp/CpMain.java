import java.io.*;
import java.net.URL;
import java.util.*;

/** Answers queries about the class path it runs with. */
public class CpMain {
  static String read(InputStream in) throws IOException {
    if (in == null) return "none";
    int n = 0;
    long h = 0;
    byte[] b = new byte[300];
    int c;
    while ((c = in.read(b, 0, b.length)) > 0) {
      for (int i = 0; i < c; ++i) h = h * 31 + b[i];
      n += c;
    }
    in.close();
    return n + ":" + h;
  }
  public static void main(String[] args) throws Exception {
    StringBuilder sb = new StringBuilder();
    for (int i = 0; i < args.length; ++i) {
      String q = args[i];
      String n = q.substring(2);
      String r;
      try {
        switch (q.charAt(0)) {
          case 'c': r = (String) Class.forName(n).getMethod("id").invoke(null); break;
          case 'l': r = (String) CpMain.class.getClassLoader().loadClass(n).getMethod("id").invoke(null); break;
          case 'r': r = read(ClassLoader.getSystemResourceAsStream(n)); break;
          case 'R': r = read(CpMain.class.getClassLoader().getResourceAsStream(n)); break;
          case 'k': r = read(CpMain.class.getResourceAsStream(n)); break;
          case 'u': { URL u = ClassLoader.getSystemResource(n); r = u == null ? "null" : read(u.openStream()); break; }
          case 'e': {
            r = "";
            Enumeration<URL> e = CpMain.class.getClassLoader().getResources(n);
            HashSet<String> seen = new HashSet<String>();
            while (e.hasMoreElements()) {
              URL u = e.nextElement();
              if (seen.add(u.toString().replaceAll("/+", "/"))) r += read(u.openStream()) + ",";
            }
            break;
          }
          case 'a': r = n; break;
          default: r = "?";
        }
      } catch (ClassNotFoundException e) { r = "CNFE";
      } catch (NoClassDefFoundError e) { r = "NCDFE";
      } catch (Throwable e) { r = e.toString(); }
      sb.append(q).append(" = ").append(r).append('\n');
    }
    String s = sb.toString();
    for (int i = 0; i < s.length(); ++i) System.out.write(s.charAt(i));
    System.out.flush();
  }
}
