package vp;

public abstract class Prop {
  /** run once per process, before any case; arg is the free argument of the command line */
  public void init(String arg) throws Throwable { }
  public abstract void run(Src s, Out o) throws Throwable;
}
