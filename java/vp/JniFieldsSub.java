package vp;
public class JniFieldsSub extends JniFields {
  int shadow = 6;
  public int twice(int x) { return x * 2; }
  public static int stat() { return 1234; }
  public String toString() { return "S:" + super.toString() + "," + shadow; }
}
