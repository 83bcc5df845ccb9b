package vp;

/** Source of choices.  Either pseudo-random from a seed, or replayed from a
 *  recorded list (missing choices are 0), so that every case is a pure
 *  function of its choice list and can be shrunk. */
public final class Src {
  private long state;
  private final int[] replay;
  private int[] rec = new int[64];
  private int n;
  private final boolean random;

  public Src(long seed, long index) {
    random = true;
    replay = null;
    state = seed * 0x9E3779B97F4A7C15L + index * 0xD1B54A32D192ED03L + 0x632BE59BD9B4E019L;
    next64();
    next64();
  }

  public Src(int[] choices) {
    random = false;
    replay = choices;
  }

  private long next64() {
    state += 0x9E3779B97F4A7C15L;
    long z = state;
    z = (z ^ (z >>> 30)) * 0xBF58476D1CE4E5B9L;
    z = (z ^ (z >>> 27)) * 0x94D049BB133111EBL;
    return z ^ (z >>> 31);
  }

  /** 0 <= result < bound */
  public int below(int bound) {
    int v;
    if (bound <= 1) {
      v = 0;
    } else if (random) {
      v = (int) ((next64() >>> 33) % bound);
    } else {
      v = n < replay.length ? replay[n] : 0;
      if (v < 0) v = 0;
      if (v >= bound) v = v % bound;
    }
    if (n == rec.length) {
      int[] r = new int[n * 2];
      System.arraycopy(rec, 0, r, 0, n);
      rec = r;
    }
    rec[n++] = v;
    return v;
  }

  public int count() { return n; }
  public int choice(int i) { return rec[i]; }

  public int range(int lo, int hi) { return lo + below(hi - lo + 1); }
  public boolean bool() { return below(2) == 1; }
  /** true with probability 1/k (false is the simple value) */
  public boolean oneIn(int k) { return below(k) == k - 1; }

  public int bits32() { return (below(65536) << 16) | below(65536); }
  public long bits64() { return ((long) bits32() << 32) | (bits32() & 0xFFFFFFFFL); }

  /** skewed to small sizes, all up to max reachable */
  public int size(int max) {
    switch (below(4)) {
      case 0: return below(Math.min(max, 3) + 1);
      case 1: return below(Math.min(max, 10) + 1);
      case 2: return below(Math.min(max, 40) + 1);
      default: return below(max + 1);
    }
  }

  private static final int[] INTS = {
    0, 1, -1, 2, -2, 3, 7, 8, 10, 15, 16, 31, 32, 33, 63, 64, 100, 127, 128, -128, -129, 255, 256,
    1000, 4095, 4096, 32767, 32768, -32768, -32769, 65535, 65536, 1000000, 0x7fffff, 0x800000,
    0x55555555, 0xAAAAAAAA, Integer.MAX_VALUE, Integer.MIN_VALUE, Integer.MAX_VALUE - 1,
    Integer.MIN_VALUE + 1, -7, -8, -31, -32, -100
  };

  public int anyInt() {
    switch (below(4)) {
      case 0: return below(17) - 4;
      case 1: return INTS[below(INTS.length)];
      case 2: {
        int s = below(32);
        int v = (1 << s) + below(3) - 1;
        return bool() ? -v : v;
      }
      default: return bits32();
    }
  }

  public long anyLong() {
    switch (below(5)) {
      case 0: return below(17) - 4;
      case 1: return INTS[below(INTS.length)];
      case 2: {
        int s = below(64);
        long v = (1L << s) + below(3) - 1;
        return bool() ? -v : v;
      }
      case 3: return bits32();
      default: return bits64();
    }
  }

  private static final double[] DOUBLES = {
    0.0, -0.0, 1.0, -1.0, 0.5, 2.0, 10.0, 0.1, 1e10, 1e-10, 1.5, -2.5, 3.0, 100.0, 1e100, 1e300,
    Double.MIN_VALUE, Double.MAX_VALUE, -Double.MAX_VALUE, Double.NaN, Double.POSITIVE_INFINITY,
    Double.NEGATIVE_INFINITY, 2147483647.0, 2147483648.0, -2147483648.0, -2147483649.0, 4294967296.0,
    9.223372036854775807E18, -9.223372036854775808E18, 1.8446744073709552E19, 2.2250738585072014E-308,
    4503599627370496.0, 9007199254740993.0, 0.49999999999999994, 65535.0, 65536.0, 32767.5, 3.4028234663852886E38,
    1.401298464324817E-45, Math.PI, Math.E
  };

  public double anyDouble() {
    switch (below(5)) {
      case 0: return below(17) - 4;
      case 1: return DOUBLES[below(DOUBLES.length)];
      case 2: return (double) anyLong();
      case 3: return bits32() / (double) (1 << below(31));
      default: return Double.longBitsToDouble(bits64());
    }
  }

  private static final float[] FLOATS = {
    0f, -0f, 1f, -1f, 0.5f, 2f, 0.1f, 1e10f, 1e-10f, 1.5f, -2.5f, 16777216f, 16777217f, 8388608f,
    Float.MIN_VALUE, Float.MAX_VALUE, -Float.MAX_VALUE, Float.NaN, Float.POSITIVE_INFINITY,
    Float.NEGATIVE_INFINITY, 2.14748365E9f, -2.14748365E9f, 9.223372E18f, 1.17549435E-38f, 0.49999997f
  };

  public float anyFloat() {
    switch (below(5)) {
      case 0: return below(17) - 4;
      case 1: return FLOATS[below(FLOATS.length)];
      case 2: return (float) anyLong();
      case 3: return bits32() / (float) (1 << below(31));
      default: return Float.intBitsToFloat(bits32());
    }
  }

  public static final int ASCII = 0, LATIN = 1, BMP = 2, UNICODE = 3, AB = 4, DIGITS = 5;

  public char ch(int kind) {
    switch (kind) {
      case ASCII: return (char) (below(3) != 2 ? 'a' + below(26) : 32 + below(95));
      case LATIN: return (char) (bool() ? 32 + below(95) : below(256));
      case AB: return (char) ('a' + below(3));
      case DIGITS: return (char) ('0' + below(10));
      default: {
        int v;
        switch (below(6)) {
          case 0: case 1: return (char) (32 + below(95));
          case 2: return (char) below(256);
          case 3: return (char) (0x780 + below(256));
          default: v = below(65536);
        }
        if (v >= 0xD800 && v < 0xE000) v -= 0x1000;
        return (char) v;
      }
    }
  }

  public String str(int kind, int max) {
    int len = size(max);
    StringBuilder sb = new StringBuilder();
    while (sb.length() < len) {
      if (kind == UNICODE && oneIn(6)) {
        int cp = 0x10000 + below(0x100000);
        sb.append((char) (0xD800 + ((cp - 0x10000) >> 10)));
        sb.append((char) (0xDC00 + ((cp - 0x10000) & 0x3ff)));
      } else {
        sb.append(ch(kind));
      }
    }
    return sb.toString();
  }

  public byte[] bytes(int max) {
    int len = size(max);
    byte[] b = new byte[len];
    int mode = below(3);
    for (int i = 0; i < len; ++i) b[i] = (byte) (mode == 0 ? below(256) : mode == 1 ? below(4) : 'a' + below(26));
    return b;
  }

  public <T> T pick(T[] a) { return a[below(a.length)]; }
  public int pick(int[] a) { return a[below(a.length)]; }
}
