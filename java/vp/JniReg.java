package vp;
public class JniReg {
  static native int r(int a);
  native long q(long a, double b);
  static int callR(int a) { return r(a); }
  static long callQ(long a, double b) { return new JniReg().q(a, b); }
  static boolean z = !Boolean.getBoolean("no.such"); static byte b = (byte) "abc".length(); static char c = "q".charAt(0); static short s = (short) -b; static int i = 4000 + b; static long j = 5000000000L + b;
  static float f = b / 2f; static double d = b / 4d; static Object l = "static" + b;
  static String all() { return z + " " + b + " " + c + " " + s + " " + i + " " + j + " " + Float.floatToIntBits(f) + " " + Double.doubleToLongBits(d) + " " + l; }
  static int number() { return 77; }
}
