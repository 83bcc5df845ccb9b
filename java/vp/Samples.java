package vp;

import java.lang.annotation.*;
import java.util.*;

/** Classes for reflection: annotations, nested classes, enums, generics. */
public class Samples {
  public enum Color { RED, GREEN { int v() { return 2; } }, BLUE; int v() { return 1; } }

  @Retention(RetentionPolicy.RUNTIME)
  public @interface In { int a() default 5; String b() default "in"; }

  @Retention(RetentionPolicy.RUNTIME)
  public @interface An {
    int i() default -7;
    long j() default 1L << 40;
    byte b() default -3;
    short s() default -300;
    char c() default 'q';
    boolean z() default true;
    float f() default 1.5f;
    double d() default -2.5e10;
    String str() default "def";
    Class k() default int[].class;
    Color e() default Color.GREEN;
    In in() default @In;
    int[] is() default {1, 2, -3};
    String[] ss() default {};
    Class[] ks() default {String.class, long.class, void.class};
    Color[] es() default {Color.BLUE, Color.RED};
    In[] ins() default {@In(a = 1), @In(b = "x")};
  }

  @Retention(RetentionPolicy.RUNTIME)
  public @interface Mark { }

  public @interface Hidden { }

  @An public static class A { public int x; }
  @An(i = 2147483647, j = -1, b = 127, s = 32767, c = '\u1234', z = false, f = Float.MIN_VALUE, d = Double.MAX_VALUE, str = "a\u00e9b", k = A.class,
      e = Color.BLUE, in = @In(a = -1, b = ""), is = {}, ss = {"p", "q"}, ks = {}, es = {Color.GREEN}, ins = {})
  @Mark @Hidden
  public static class B extends A {
    @Mark public int f;
    @An(str = "field") static long g;
    int h;
    @Mark @An(i = 9) public void m(int a) { }
    @In(a = 4) private static String n(String x, long y) { return x; }
    void o() { }
    @Deprecated public B() { }
    @An(str = "ctor") public B(int a) { }
    class Inner { class Deep { } }
    static class Nested<T extends Number, U> { }
    interface NI { }
    enum NE { X }
  }
  public static abstract class G<K, V extends Comparable> implements Map<K, V>, Comparable<List<? super K>> {
    public List<String> a;
    Map<K, List<V>> b;
    protected K c;
    V[] d;
    int e;
    List<? extends Number> f;
    Map<String, int[]>[] g;
  }
  public static class H extends ArrayList<String> implements Runnable { public void run() { } }
  public static Object anon() { return new Object() { public String toString() { return "anon"; } }; }
  public static Object local() { class Loc { } return new Loc(); }

  public static final Class[] ALL = {A.class, B.class, B.Inner.class, B.Inner.Deep.class, B.Nested.class, B.NI.class, B.NE.class, G.class, H.class, Color.class,
                                     Color.GREEN.getClass(), An.class, Mark.class, anon().getClass(), local().getClass(), Samples.class, A[].class, int.class};
}
