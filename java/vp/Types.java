package vp;

/** A hierarchy for casts and instanceof of objects and arrays (used by generated code and the reflection check). */
public class Types {
  public interface A {}
  public interface B {}
  public interface C extends A, B {}
  public interface D {}
  public interface E extends C, D {}
  public interface F extends D, B, Comparable {}
  public interface G extends Runnable, F, E {}
  public interface H {}
  public static abstract class K implements D, H {}
  public static class L extends K implements C { }
  public static class M extends L { }
  public static class N extends M implements F { public int compareTo(Object o) { return 0; } }
  public static class O extends K implements G { public int compareTo(Object o) { return 0; } public void run() {} }
  public static class P {}
  public static class Q extends P implements E, Runnable { public void run() {} }
  public static final String[] NAMES = {"A", "B", "C", "D", "E", "F", "G", "H", "K", "L", "M", "N", "O", "P", "Q"};
  public static final String[] CONCRETE = {"L", "M", "N", "O", "P", "Q"};
  public static final String[] OUTER = {"java/lang/Object", "java/lang/Runnable", "java/lang/Comparable", "java/lang/Cloneable", "java/lang/String", "java/lang/Number", "java/lang/Integer"};
}
