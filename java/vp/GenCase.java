package vp;
public interface GenCase { void run(Out o) throws Throwable; }
