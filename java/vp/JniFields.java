package vp;
public class JniFields {
  public boolean z; byte b; protected char c; private short s; int i; public long j; float f; private double d; Object l; String str; int shadow = 5;
  static boolean sz; static byte sb; static char sc; private static short ss; public static int si, si2; static long sj; static float sf; static double sd; static Object sl; static String sstr;
  public static void reset() { sz = false; sb = 0; sc = 0; ss = 0; si = si2 = 0; sj = 0; sf = 0; sd = 0; sl = null; sstr = null; }
  public String toString() { return "F:" + z + b + "," + (int) c + "," + s + "," + i + "," + j + "," + Float.floatToIntBits(f) + "," + Double.doubleToLongBits(d) + "," + JniProp.shallow(l) + "," + JniProp.shallow(str) + "," + shadow + "," + ss; }
}
