package kf;

import java.util.*;
import vp.*;

/** Shows one recorded defect: prints what the Java platform defines unless the defect is there. */
public class Show {
  static Object[] strings = new String[2];
  static class A { int f; int x[]; private int p() { return 1; } int call(A a) { return a.p(); } }
  static class Priv { private void m() { } void call(Priv p) { try { p.m(); System.out.println("called"); } catch (NullPointerException e) { System.out.println("NPE"); } } }

  static void unused(A a, int[] b) {
    try { int v = a.f; System.out.println("no NPE"); } catch (NullPointerException e) { System.out.println("NPE"); }
    try { int v = b.length; System.out.println("no NPE"); } catch (NullPointerException e) { System.out.println("NPE"); }
    try { int v = b[0]; System.out.println("no NPE"); } catch (NullPointerException e) { System.out.println("NPE"); }
  }

  static void negative(int[] a, int i) {
    try { System.out.println(a[i]); } catch (RuntimeException e) { System.out.println(e.getClass().getName()); }
  }

  public static void main(String[] args) throws Throwable {
    String k = args[0];
    if (k.equals("aastore")) {
      try { strings[0] = new Integer(1); System.out.println("stored"); } catch (ArrayStoreException e) { System.out.println("ASE"); }
    } else if (k.equals("private-null")) {
      new Priv().call(null);
    } else if (k.equals("unused-load")) {
      unused(null, null);
    } else if (k.equals("negative-null")) {
      negative(null, -1);
    } else if (k.equals("list-equals")) {
      List a = new ArrayList(), b = new ArrayList();
      a.add("x"); b.add("x");
      Set c = new HashSet(), d = new HashSet();
      System.out.println(a.equals(b) + " " + (a.hashCode() == b.hashCode()) + " " + c.equals(d));
    } else if (k.equals("stable-sort")) {
      Integer[] p = new Integer[100];
      for (int i = 0; i < p.length; ++i) p[i] = new Integer((i % 3) * 1000 + i);
      Arrays.sort(p, new Comparator<Integer>() { public int compare(Integer x, Integer y) { return x.intValue() / 1000 - y.intValue() / 1000; } });
      boolean ok = true;
      for (int i = 1; i < p.length; ++i) if (p[i - 1].intValue() > p[i].intValue()) ok = false;
      System.out.println(ok);
    } else if (k.startsWith("class:")) {
      Out o = new Out();
      ((GenCase) Class.forName(k.substring(6)).newInstance()).run(o);
      System.out.println(o.text());
    }
  }
}
