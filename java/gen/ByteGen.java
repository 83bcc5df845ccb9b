package gen;

import java.util.ArrayList;
import java.util.List;
import jdk.internal.org.objectweb.asm.ClassWriter;
import jdk.internal.org.objectweb.asm.Label;
import jdk.internal.org.objectweb.asm.MethodVisitor;
import jdk.internal.org.objectweb.asm.Opcodes;
import vp.Src;

/** Generates verifiable classes with random typed method bodies.  Each case is the
 *  classes NAME (implements vp.GenCase), NAMEQ extends NAME, and interface NAMEI. */
public class ByteGen implements Opcodes {
  static final String OUT = "vp/Out";
  final Src s;
  final String P, Q, I;
  final boolean exc;      // emphasise exceptions
  final boolean calls;    // emphasise calls
  final boolean arith;    // emphasise arithmetic
  String tags = "";
  int features;
  ClassWriter cw, cq, ci;
  int version;

  static final class Fld { String owner, name, desc; boolean st; }
  static final class Mth { String name, desc; String[] params; String ret; int kind; /* 0 static 1 virtual 2 interface 3 private */ boolean sync; boolean inQ; }
  final List<Fld> fields = new ArrayList<Fld>();
  final List<Mth> methods = new ArrayList<Mth>();

  static final String[] PRIMS = {"I", "J", "F", "D", "B", "S", "C", "Z"};
  String[] refs;

  public ByteGen(Src s, String name, String mode) {
    this.s = s;
    P = name;
    Q = name + "Q";
    I = name + "I";
    exc = mode.equals("exc");
    calls = mode.equals("calls");
    arith = mode.equals("arith");
    refs = new String[] {"[I", "[J", "[B", "[D", "[S", "[C", "[F", "[Z", "L" + P + ";", "L" + Q + ";", "Ljava/lang/Object;",
                         "Ljava/lang/String;", "[L" + P + ";", "[Ljava/lang/Object;", "[[I", "L" + I + ";"};
  }

  void tag(String t) {
    if (("," + tags + ",").indexOf("," + t + ",") < 0) { tags += (tags.length() == 0 ? "" : ",") + t; ++features; }
  }

  static int kind(String d) { // 0 int 1 long 2 float 3 double 4 ref 5 void
    switch (d.charAt(0)) {
      case 'J': return 1;
      case 'F': return 2;
      case 'D': return 3;
      case 'L': case '[': return 4;
      case 'V': return 5;
      default: return 0;
    }
  }

  static int size(String d) { int k = kind(d); return k == 5 ? 0 : k == 1 || k == 3 ? 2 : 1; }

  String anyType() {
    switch (s.below(5)) {
      case 0: return "I";
      case 1: case 2: return PRIMS[s.below(PRIMS.length)];
      case 3: return s.pick(new String[] {"J", "D"});
      default: return refs[s.below(refs.length)];
    }
  }

  public java.util.Map<String, byte[]> generate() {
    version = s.pick(new int[] {V1_5, V1_5, V1_4});
    cw = new ClassWriter(ClassWriter.COMPUTE_MAXS);
    cq = new ClassWriter(ClassWriter.COMPUTE_MAXS);
    ci = new ClassWriter(0);
    cw.visit(version, ACC_PUBLIC | ACC_SUPER, P, null, "java/lang/Object", new String[] {"vp/GenCase", I});
    cq.visit(version, ACC_PUBLIC | ACC_SUPER, Q, null, P, null);
    ci.visit(version, ACC_PUBLIC | ACC_INTERFACE | ACC_ABSTRACT, I, null, "java/lang/Object", null);
    cw.visitSource(P + ".java", null);
    if (s.oneIn(6)) { for (int i = 0; i < 300; ++i) cw.newConst(Integer.valueOf(100000 + i)); tag("big-pool"); }
    cw.visitField(ACC_PUBLIC | ACC_STATIC, "o", "L" + OUT + ";", null, null);
    cw.visitField(ACC_PUBLIC | ACC_STATIC, "fuel", "I", null, null);
    int nf = 3 + s.below(6);
    for (int i = 0; i < nf; ++i) {
      Fld f = new Fld();
      f.st = s.bool();
      f.name = "f" + i;
      f.desc = anyType();
      boolean q = !f.st && s.oneIn(5);
      f.owner = q ? Q : P;
      int acc = ACC_PUBLIC | (f.st ? ACC_STATIC : 0) | (s.oneIn(5) ? ACC_VOLATILE : 0);
      (q ? cq : cw).visitField(acc, f.name, f.desc, null, null);
      fields.add(f);
    }
    int nm = 2 + s.below(calls ? 6 : 4);
    for (int i = 0; i < nm; ++i) {
      Mth m = new Mth();
      m.kind = s.below(4);
      m.name = "m" + i;
      int np = s.below(3) == 0 ? s.below(calls ? 14 : 8) : s.below(4);
      m.params = new String[np];
      StringBuilder d = new StringBuilder("(");
      for (int k = 0; k < np; ++k) { m.params[k] = anyType(); d.append(m.params[k]); }
      m.ret = s.oneIn(5) ? "V" : anyType();
      m.desc = d + ")" + m.ret;
      m.sync = m.kind != 2 && s.oneIn(8);
      m.inQ = (m.kind == 1 || m.kind == 2) && s.bool();
      methods.add(m);
    }
    for (Mth m : methods) {
      body(cw, P, m);
      if (m.inQ) body(cq, Q, m);
      if (m.kind == 2) ci.visitMethod(ACC_PUBLIC | ACC_ABSTRACT, m.name, m.desc, null, null).visitEnd();
    }
    ctor(cw, "java/lang/Object");
    ctor(cq, P);
    run();
    cw.visitEnd(); cq.visitEnd(); ci.visitEnd();
    java.util.Map<String, byte[]> r = new java.util.LinkedHashMap<String, byte[]>();
    r.put(P, cw.toByteArray());
    r.put(Q, cq.toByteArray());
    r.put(I, ci.toByteArray());
    return r;
  }

  static final String T = "vp/Types$";

  /** a class or array type of the hierarchy in vp.Types or near it, as an instruction operand */
  String typeName(boolean arrays) {
    String e = s.oneIn(4) ? s.pick(vp.Types.OUTER) : T + s.pick(vp.Types.NAMES);
    int d = arrays ? s.pick(new int[] {0, 1, 1, 2, 3}) : 0;
    if (d > 0 && s.oneIn(8)) return "[[[".substring(0, d) + s.pick(PRIMS);
    return d == 0 ? e : "[[[".substring(0, d) + "L" + e + ";";
  }

  /** push an object or array whose type belongs to that hierarchy, as Object */
  void typed() {
    String e = s.oneIn(6) ? s.pick(vp.Types.OUTER) : T + s.pick(vp.Types.NAMES);
    switch (s.below(5)) {
      case 0: {
        String c = T + s.pick(vp.Types.CONCRETE);
        mv.visitTypeInsn(NEW, c); mv.visitInsn(DUP); mv.visitMethodInsn(INVOKESPECIAL, c, "<init>", "()V", false);
        break;
      }
      case 1: push(s.below(3)); push(s.below(3)); mv.visitMultiANewArrayInsn("[[L" + e + ";", 2); break;
      case 2: push(s.below(3)); mv.visitTypeInsn(ANEWARRAY, "[" + (s.oneIn(3) ? s.pick(PRIMS) : "L" + e + ";")); break;
      default: push(s.below(3)); mv.visitTypeInsn(ANEWARRAY, e);
    }
    mv.visitTypeInsn(CHECKCAST, "java/lang/Object");
  }

  void ctor(ClassWriter c, String sup) {
    MethodVisitor mv = c.visitMethod(ACC_PUBLIC, "<init>", "()V", null, null);
    mv.visitCode();
    mv.visitVarInsn(ALOAD, 0);
    mv.visitMethodInsn(INVOKESPECIAL, sup, "<init>", "()V", false);
    mv.visitInsn(RETURN);
    mv.visitMaxs(0, 0);
    mv.visitEnd();
  }

  // ---- one method under construction
  MethodVisitor mv;
  String self;
  boolean isStatic;
  String retType;
  List<int[]> localIdx = new ArrayList<int[]>();
  List<String> localTy = new ArrayList<String>();
  boolean noLines;  // and so subroutines: lines in the JIT's copies of a subroutine are not tracked
  int next, lastLine, budget, line, loopDepth, tryDepth, monitors;

  void body(ClassWriter c, String owner, Mth m) {
    int acc = ACC_PUBLIC;
    if (m.kind == 0) acc |= ACC_STATIC;
    if (m.kind == 3) acc = ACC_PRIVATE;
    if (m.sync) { acc |= ACC_SYNCHRONIZED; tag("synchronized"); }
    mv = c.visitMethod(acc, m.name, m.desc, null, null);
    mv.visitCode();
    self = owner;
    isStatic = m.kind == 0;
    retType = m.ret;
    localIdx.clear(); localTy.clear();
    next = 0; loopDepth = 0; tryDepth = 0; lastLine = -1;
    noLines = s.oneIn(12);
    line = owner == P ? 100 * (1 + methods.indexOf(m)) : 100 * (51 + methods.indexOf(m));
    if (!isStatic) { localIdx.add(new int[] {0}); localTy.add("L" + owner + ";"); next = 1; }
    for (String p : m.params) { localIdx.add(new int[] {next}); localTy.add(p); next += size(p); }
    if (m.params.length > 6) tag("many-params");
    if (s.oneIn(8)) { next = 250 + s.below(60); tag("wide-locals"); }
    budget = 20 + s.below(110);
    newLine();
    Label ok = new Label();
    mv.visitFieldInsn(GETSTATIC, P, "fuel", "I");
    push(next > 200 ? 60 : 8); // bounds the depth of the stack
    mv.visitInsn(ISUB);
    mv.visitInsn(DUP);
    mv.visitFieldInsn(PUTSTATIC, P, "fuel", "I");
    mv.visitJumpInsn(IFGE, ok);
    zero(retType);
    ret(retType);
    mv.visitLabel(ok);
    int nl = s.below(5);
    for (int i = 0; i < nl; ++i) declare();
    block(3);
    newLine();
    if (retType.equals("V")) ret("V");
    else { expr(retType, 2); ret(retType); }
    mv.visitMaxs(0, 0);
    mv.visitEnd();
  }

  void newLine() {
    Label l = new Label();
    mv.visitLabel(l);
    if (l.getOffset() == lastLine || noLines) return;
    lastLine = l.getOffset();
    mv.visitLineNumber(++line, l);
  }

  int alloc(String t) { int i = next; next += size(t); return i; }

  void declare() {
    String t = anyType();
    newLine();
    expr(t, 2);
    int i = alloc(t);
    store(t, i);
    localIdx.add(new int[] {i});
    localTy.add(t);
  }

  void zero(String t) {
    switch (kind(t)) {
      case 0: mv.visitInsn(ICONST_0); break;
      case 1: mv.visitInsn(LCONST_0); break;
      case 2: mv.visitInsn(FCONST_0); break;
      case 3: mv.visitInsn(DCONST_0); break;
      case 4: mv.visitInsn(ACONST_NULL); break;
    }
  }

  void ret(String t) {
    mv.visitInsn(kind(t) == 5 ? RETURN : kind(t) == 4 ? ARETURN : IRETURN + kind(t));
  }

  void load(String t, int i) { mv.visitVarInsn(kind(t) == 4 ? ALOAD : ILOAD + kind(t), i); }
  void store(String t, int i) { mv.visitVarInsn(kind(t) == 4 ? ASTORE : ISTORE + kind(t), i); }

  void block(int d) {
    int n = 1 + s.below(exc ? 4 : 5);
    int mark = localTy.size();
    for (int i = 0; i < n && budget > 0; ++i) stmt(d);
    while (localTy.size() > mark) { localTy.remove(localTy.size() - 1); localIdx.remove(localIdx.size() - 1); }
  }

  void stmt(int d) {
    --budget;
    newLine();
    int c = s.below(exc ? 26 : 20);
    if (d <= 0 && (c == 5 || c == 6 || c == 7 || c == 8 || c == 12 || c >= 20)) c = s.below(5);
    switch (c) {
      case 0: case 1: assignLocal(d); break;
      case 2: assignField(d); break;
      case 3: assignArray(d); break;
      case 4: print(d); break;
      case 5: ifStmt(d); break;
      case 6: loop(d); break;
      case 7: sw(d); break;
      case 8: case 20: case 21: case 22: case 25: tryStmt(d); break;
      case 9: case 10: { // expression statement
        String t = anyType();
        expr(t, d);
        mv.visitInsn(size(t) == 2 ? POP2 : POP);
        break;
      }
      case 11: iinc(); break;
      case 12: syncStmt(d); break;
      case 13: call(null, d); break;
      case 14: declare(); break;
      case 15: // early return, conditional
        if (monitors == 0 && s.oneIn(3)) {
          Label l = new Label();
          cond(l, 1);
          if (kind(retType) != 5) expr(retType, 1);
          ret(retType);
          mv.visitLabel(l);
          tag("early-return");
        } else print(d);
        break;
      case 16: stackNoise(d); break;
      case 23: case 24: case 17: if (exc || s.oneIn(3)) { throwStmt(d); break; }
      default: assignLocal(d); break;
    }
  }

  void assignLocal(int d) {
    if (localTy.size() == 0) { declare(); return; }
    int k = s.below(localTy.size());
    if (k == 0 && !isStatic) { declare(); return; }
    expr(localTy.get(k), d);
    store(localTy.get(k), localIdx.get(k)[0]);
  }

  void target(Fld f, int d) {
    if (!f.st) expr("L" + f.owner + ";", Math.min(d, 1));
  }

  void assignField(int d) {
    Fld f = fields.get(s.below(fields.size()));
    target(f, d);
    expr(f.desc, d);
    mv.visitFieldInsn(f.st ? PUTSTATIC : PUTFIELD, f.owner, f.name, f.desc);
  }

  /** checks the reference on top of the stack explicitly.  Avian's JIT drops or delays a load whose
   *  result is not used, and with it the NullPointerException, and it tests a negative index before
   *  a null array (known findings); trap() has the implicit checks. */
  void nonNull() {
    if (s.bool()) {
      Label l = new Label();
      mv.visitInsn(DUP);
      mv.visitJumpInsn(IFNONNULL, l);
      mv.visitMethodInsn(INVOKESTATIC, "vp/GenRun", "npe", "()V", false);
      mv.visitLabel(l);
    } else {
      mv.visitInsn(DUP);
      mv.visitMethodInsn(INVOKESTATIC, "vp/GenRun", "chk", "(Ljava/lang/Object;)V", false);
    }
  }

  static String elem(String arr) { return arr.substring(1); }

  String arrayType() {
    switch (s.below(12)) {
      case 0: return "[L" + P + ";";
      case 1: return "[Ljava/lang/Object;";
      case 2: return "[[I";
      default: return "[" + PRIMS[s.below(PRIMS.length)];
    }
  }

  static int aload(String e) {
    switch (e.charAt(0)) {
      case 'I': return IALOAD; case 'J': return LALOAD; case 'F': return FALOAD; case 'D': return DALOAD;
      case 'B': case 'Z': return BALOAD; case 'S': return SALOAD; case 'C': return CALOAD; default: return AALOAD;
    }
  }
  static int astore(String e) { return aload(e) + (IASTORE - IALOAD); }

  void index(int d) {
    if (s.oneIn(exc ? 3 : 10)) { expr("I", d > 0 ? 1 : 0); tag("raw-index"); return; }
    if (s.oneIn(3)) { expr("I", d > 0 ? 1 : 0); push(s.pick(new int[] {1, 3})); mv.visitInsn(IAND); }
    else push(s.below(4));
  }

  void assignArray(int d) {
    String a = arrayType();
    expr(a, d > 0 ? 1 : 0);
    nonNull();
    if (a.equals("[Ljava/lang/Object;")) mv.visitMethodInsn(INVOKESTATIC, "vp/GenRun", "plain", "([Ljava/lang/Object;)[Ljava/lang/Object;", false);
    index(d);
    String e = elem(a);
    if (e.equals("Z") || !isSub(e)) expr(e, d); else expr("I", d);
    mv.visitInsn(astore(e));
    tag("array-store");
  }

  static boolean isSub(String t) { return t.equals("B") || t.equals("S") || t.equals("C") || t.equals("Z"); }

  void print(int d) {
    mv.visitFieldInsn(GETSTATIC, P, "o", "L" + OUT + ";");
    String t = s.pick(PRIMS);
    expr(t, d);
    out(t);
    mv.visitInsn(POP);
  }

  /** stack: Out value -> Out */
  void out(String t) {
    switch (kind(t)) {
      case 0: mv.visitInsn(I2L);
      case 1: mv.visitMethodInsn(INVOKEVIRTUAL, OUT, "i", "(J)L" + OUT + ";", false); break;
      case 2: mv.visitMethodInsn(INVOKEVIRTUAL, OUT, "f", "(F)L" + OUT + ";", false); break;
      case 3: mv.visitMethodInsn(INVOKEVIRTUAL, OUT, "d", "(D)L" + OUT + ";", false); break;
      default: mv.visitMethodInsn(INVOKESTATIC, "vp/GenRun", "ref", "(L" + OUT + ";Ljava/lang/Object;)L" + OUT + ";", false);
    }
  }

  void ifStmt(int d) {
    Label no = new Label(), end = new Label();
    cond(no, d - 1);
    block(d - 1);
    if (s.bool()) {
      mv.visitJumpInsn(GOTO, end);
      mv.visitLabel(no);
      block(d - 1);
      mv.visitLabel(end);
    } else {
      mv.visitLabel(no);
    }
    tag("if");
  }

  /** jumps to l when a random condition does not hold */
  void cond(Label l, int d) {
    switch (s.below(5)) {
      case 0: expr("I", d); mv.visitJumpInsn(IFEQ + s.below(6), l); break;
      case 1: case 2: expr("I", d); expr("I", d); mv.visitJumpInsn(IF_ICMPEQ + s.below(6), l); break;
      case 3: {
        String t = s.pick(new String[] {"J", "F", "D"});
        expr(t, d); expr(t, d);
        mv.visitInsn(t.equals("J") ? LCMP : (t.equals("F") ? FCMPL : DCMPL) + s.below(2));
        mv.visitJumpInsn(IFEQ + s.below(6), l);
        tag("cmp-" + t);
        break;
      }
      default: {
        String t = refs[s.below(refs.length)];
        expr(t, d);
        // whether the library returns the same or equal strings is up to it
        if (s.bool() || t.equals("Ljava/lang/String;")) mv.visitJumpInsn(s.bool() ? IFNULL : IFNONNULL, l);
        else { expr(t, d); mv.visitJumpInsn(s.bool() ? IF_ACMPEQ : IF_ACMPNE, l); }
      }
    }
  }

  void loop(int d) {
    int i = alloc("I");
    int n = 1 + s.below(6);
    boolean pre = s.bool();
    Label top = new Label(), test = new Label(), end = new Label(), cont = new Label();
    push(s.bool() ? 0 : -s.below(3));
    store("I", i);
    localIdx.add(new int[] {i});
    localTy.add("I!");
    int me = localTy.size() - 1;
    if (pre) mv.visitJumpInsn(GOTO, test);
    mv.visitLabel(top);
    localTy.set(me, "I");
    ++loopDepth;
    int inner = s.below(3);
    // the loop variable may be read and written; fuel bounds the iterations
    block(d - 1);
    if (inner == 0) { cond(cont, 1); Label l2 = new Label(); if (s.bool()) { mv.visitJumpInsn(GOTO, end); tag("break"); } }
    mv.visitLabel(cont);
    mv.visitIincInsn(i, 1 + s.below(2));
    --loopDepth;
    mv.visitLabel(test);
    mv.visitFieldInsn(GETSTATIC, P, "fuel", "I");
    mv.visitInsn(ICONST_1);
    mv.visitInsn(ISUB);
    mv.visitInsn(DUP);
    mv.visitFieldInsn(PUTSTATIC, P, "fuel", "I");
    mv.visitJumpInsn(IFLT, end);
    if (s.bool()) { load("I", i); push(n); mv.visitJumpInsn(IF_ICMPLT, top); }
    else { push(n); load("I", i); mv.visitJumpInsn(IF_ICMPGT, top); }
    mv.visitLabel(end);
    tag("loop");
  }

  void sw(int d) {
    expr("I", d - 1);
    int n = 1 + s.below(6);
    Label dflt = new Label(), end = new Label();
    Label[] ls = new Label[n];
    for (int i = 0; i < n; ++i) ls[i] = s.oneIn(5) && i > 0 ? ls[i - 1] : new Label();
    if (s.bool()) {
      int base = s.oneIn(4) ? s.pick(new int[] {Integer.MIN_VALUE, Integer.MAX_VALUE - 10, -5, 1000}) : s.below(4) - 1;
      if (s.bool()) { push(7); mv.visitInsn(IAND); if (s.bool()) { push(base); mv.visitInsn(IADD); } }
      mv.visitTableSwitchInsn(base, base + n - 1, dflt, ls);
      tag("tableswitch");
    } else {
      int[] keys = new int[n];
      java.util.TreeSet<Integer> ks = new java.util.TreeSet<Integer>();
      while (ks.size() < n) { int k = s.anyInt(); while (ks.contains(k)) ++k; ks.add(k); }
      int j = 0;
      for (int k : ks) keys[j++] = k;
      if (s.bool()) { // make hits likely
        int pickk = keys[s.below(n)];
        mv.visitInsn(ICONST_1); mv.visitInsn(IAND); push(pickk); mv.visitInsn(IXOR);
      }
      mv.visitLookupSwitchInsn(dflt, keys, ls);
      tag("lookupswitch");
    }
    for (int i = 0; i < n; ++i) {
      if (i > 0 && ls[i] == ls[i - 1]) continue;
      mv.visitLabel(ls[i]);
      newLine();
      if (budget > 0) block(d - 2); else iincOrNop();
      if (!s.oneIn(3)) mv.visitJumpInsn(GOTO, end);
    }
    mv.visitLabel(dflt);
    if (s.bool()) block(d - 2);
    mv.visitLabel(end);
  }

  void iincOrNop() { if (!iinc()) mv.visitInsn(NOP); }

  boolean iinc() {
    for (int tries = 0; tries < 3; ++tries) {
      if (localTy.size() == 0) break;
      int k = s.below(localTy.size());
      if (localTy.get(k).equals("I")) {
        mv.visitIincInsn(localIdx.get(k)[0], s.pick(new int[] {1, -1, 2, 127, -128, 128, 1000, -1000, 32767, -32768}));
        tag("iinc");
        return true;
      }
    }
    mv.visitInsn(NOP);
    return false;
  }

  static final String[] EXC = {"java/lang/ArithmeticException", "java/lang/NullPointerException",
    "java/lang/ArrayIndexOutOfBoundsException", "java/lang/IndexOutOfBoundsException", "java/lang/ClassCastException",
    "java/lang/ArrayStoreException", "java/lang/NegativeArraySizeException", "java/lang/RuntimeException",
    "java/lang/Exception", "java/lang/Throwable", "java/lang/IllegalStateException", "java/lang/IllegalArgumentException"};

  void traces() {
    // stack: throwable
    mv.visitInsn(DUP);
    mv.visitFieldInsn(GETSTATIC, P, "o", "L" + OUT + ";");
    mv.visitInsn(SWAP);
    mv.visitMethodInsn(INVOKESTATIC, "vp/GenRun", "caught", "(L" + OUT + ";Ljava/lang/Throwable;)V", false);
  }

  void tryStmt(int d) {
    tag("try");
    int kind = 1 + s.below(2);
    Label a = new Label(), b = new Label(), end = new Label();
    ++tryDepth;
    if (kind < 2) {
      int nh = 1 + s.below(3);
      Label[] h = new Label[nh];
      String[] types = new String[nh];
      for (int i = 0; i < nh; ++i) { h[i] = new Label(); types[i] = EXC[s.below(EXC.length)]; }
      mv.visitLabel(a);
      mv.visitInsn(NOP);
      block(d - 1);
      if (s.oneIn(exc ? 2 : 4)) risky();
      mv.visitLabel(b);
      mv.visitJumpInsn(GOTO, end);
      for (int i = 0; i < nh; ++i) {
        mv.visitLabel(h[i]);
        newLine();
        traces();
        int e = alloc("Ljava/lang/Throwable;");
        mv.visitVarInsn(ASTORE, e);
        if (budget > 0) block(d - 2);
        if (s.oneIn(6)) { mv.visitVarInsn(ALOAD, e); mv.visitInsn(ATHROW); tag("rethrow"); }
        else mv.visitJumpInsn(GOTO, end);
      }
      // visited after inner blocks, so inner handlers come first in the table
      for (int i = 0; i < nh; ++i) mv.visitTryCatchBlock(a, b, h[i], types[i]);
    } else {
      // finally, code duplicated as by current compilers
      Label h = new Label();
      mv.visitLabel(a);
      mv.visitInsn(NOP);
      block(d - 1);
      if (s.oneIn(3)) risky();
      mv.visitLabel(b);
      long save = s.count();
      block(d - 2);
      mv.visitJumpInsn(GOTO, end);
      mv.visitLabel(h);
      newLine();
      traces();
      int e = alloc("Ljava/lang/Throwable;");
      mv.visitVarInsn(ASTORE, e);
      block(d - 2);
      if (s.oneIn(4)) { mv.visitJumpInsn(GOTO, end); }
      else { mv.visitVarInsn(ALOAD, e); mv.visitInsn(ATHROW); }
      mv.visitTryCatchBlock(a, b, h, null);
      tag("finally");
    }
    --tryDepth;
    mv.visitLabel(end);
    mv.visitInsn(NOP);
  }

  /** implicit null check of a reference which is often null */
  void trap() {
    Fld f = null;
    for (int i = 0; i < 4 && (f == null || f.st); ++i) f = fields.get(s.below(fields.size()));
    int k = s.below(7);
    if (f.st && k < 3) k = 3;
    String t = k < 3 ? "L" + f.owner + ";" : k < 6 ? "[" + s.pick(PRIMS) : "L" + P + ";";
    if (s.bool()) mv.visitInsn(ACONST_NULL); else expr(t, 1);
    mv.visitTypeInsn(CHECKCAST, t.charAt(0) == '[' ? t : t.substring(1, t.length() - 1));
    switch (k) {
      case 0: case 1:
        mv.visitFieldInsn(GETFIELD, f.owner, f.name, f.desc); use(f.desc); tag("t-npe-getfield"); break;
      case 2: expr(f.desc, 1); mv.visitFieldInsn(PUTFIELD, f.owner, f.name, f.desc); tag("t-npe-putfield"); break;
      case 3: mv.visitInsn(ARRAYLENGTH); use("I"); tag("t-npe-length"); break;
      case 4: push(s.below(5)); mv.visitInsn(aload(elem(t))); use(elem(t)); tag("t-npe-load"); break;
      case 5: push(s.below(5)); expr(elem(t), 1); mv.visitInsn(astore(elem(t))); tag("t-npe-store"); break;
      default: {
        Mth m = null;
        for (Mth x : methods) if (x.kind == 1 || x.kind == 2) m = x;
        if (m == null) { mv.visitInsn(POP); return; }
        for (String p : m.params) expr(p, 0);
        if (m.kind == 2 && s.bool()) mv.visitMethodInsn(INVOKEINTERFACE, I, m.name, m.desc, true);
        else mv.visitMethodInsn(INVOKEVIRTUAL, P, m.name, m.desc, false);
        if (!m.ret.equals("V")) use(m.ret);
        tag("t-npe-call");
      }
    }
  }

  void use(String t) {
    if (kind(t) == 4) mv.visitMethodInsn(INVOKESTATIC, "vp/GenRun", "pr", "(Ljava/lang/Object;)V", false);
    else pr(kind(t) == 0 ? "I" : t);
  }

  /** an expression statement which usually throws */
  void risky() {
    newLine();
    switch (s.below(7)) {
      case 0: expr("I", 1); mv.visitInsn(ICONST_0); mv.visitInsn(s.bool() ? IDIV : IREM); mv.visitInsn(POP); tag("t-div0"); break;
      case 1: expr("J", 1); mv.visitInsn(LCONST_0); mv.visitInsn(s.bool() ? LDIV : LREM); mv.visitInsn(POP2); tag("t-ldiv0"); break;
      case 2: trap(); break;
      case 3: push(s.below(3)); mv.visitIntInsn(NEWARRAY, T_INT); push(s.bool() ? -1 : 5); mv.visitInsn(IALOAD); mv.visitInsn(POP); tag("t-bounds"); break;
      case 4: push(-1 - s.below(5)); mv.visitIntInsn(NEWARRAY, T_DOUBLE); mv.visitInsn(POP); tag("t-negsize"); break;
      case 5:
        if (calls && s.bool()) { typed(); mv.visitTypeInsn(CHECKCAST, typeName(true)); mv.visitInsn(POP); tag("cast-hierarchy"); break; }
        mv.visitLdcInsn("x"); mv.visitTypeInsn(CHECKCAST, "java/lang/Object"); mv.visitTypeInsn(CHECKCAST, s.bool() ? "[I" : P); mv.visitInsn(POP); tag("t-cast"); break;
      default: trap();
    }
  }

  void throwStmt(int d) {
    Label l = new Label();
    cond(l, 1);
    if (s.oneIn(4)) { risky(); mv.visitLabel(l); return; }
    String t = s.pick(new String[] {"java/lang/IllegalStateException", "java/lang/IllegalArgumentException", "java/lang/RuntimeException", "java/lang/ArithmeticException"});
    if (s.oneIn(8)) mv.visitInsn(ACONST_NULL);
    else {
      mv.visitTypeInsn(NEW, t); mv.visitInsn(DUP);
      mv.visitMethodInsn(INVOKESPECIAL, t, "<init>", "()V", false);
    }
    mv.visitInsn(ATHROW);
    mv.visitLabel(l);
    tag("throw");
  }

  void syncStmt(int d) {
    tag("monitor");
    int l = alloc("Ljava/lang/Object;");
    Label a = new Label(), b = new Label(), h = new Label(), hb = new Label(), end = new Label();
    mv.visitTypeInsn(NEW, P); mv.visitInsn(DUP);
    mv.visitMethodInsn(INVOKESPECIAL, P, "<init>", "()V", false);
    mv.visitInsn(DUP);
    store("Ljava/lang/Object;", l);
    mv.visitInsn(MONITORENTER);
    mv.visitLabel(a);
    ++monitors;
    block(d - 1);
    --monitors;
    load("Ljava/lang/Object;", l);
    mv.visitInsn(MONITOREXIT);
    mv.visitLabel(b);
    mv.visitJumpInsn(GOTO, end);
    mv.visitLabel(h);
    int e = alloc("Ljava/lang/Throwable;");
    mv.visitVarInsn(ASTORE, e);
    load("Ljava/lang/Object;", l);
    mv.visitInsn(MONITOREXIT);
    mv.visitLabel(hb);
    mv.visitVarInsn(ALOAD, e);
    mv.visitInsn(ATHROW);
    mv.visitTryCatchBlock(a, b, h, null);
    mv.visitLabel(end);
    mv.visitInsn(NOP);
  }

  /** a value of each kind in turn, rearranged with the untyped stack instructions and popped into prints */
  void stackNoise(int d) {
    tag("stack-ops");
    switch (s.below(9)) {
      case 0: expr("I", d); expr("F", d); mv.visitInsn(SWAP); pr("I"); pr("F"); break;
      case 1: expr("I", d); expr("I", d); mv.visitInsn(DUP2); pr("I"); pr("I"); pr("I"); pr("I"); break;
      case 2: expr("I", d); expr("F", d); mv.visitInsn(DUP_X1); pr("F"); pr("I"); pr("F"); break;
      case 3: expr("J", d); expr("I", d); mv.visitInsn(DUP_X2); pr("I"); pr("J"); pr("I"); break;
      case 4: expr("I", d); expr("F", d); expr("I", d); mv.visitInsn(DUP_X2); pr("I"); pr("F"); pr("I"); pr("I"); break;
      case 5: expr("I", d); expr("D", d); mv.visitInsn(DUP2_X1); pr("D"); pr("I"); pr("D"); break;
      case 6: expr("J", d); expr("D", d); mv.visitInsn(DUP2_X2); pr("D"); pr("J"); pr("D"); break;
      case 7: expr("I", d); expr("I", d); expr("F", d); mv.visitInsn(DUP2_X1); pr("F"); pr("I"); pr("I"); pr("F"); pr("I"); break;
      default: {
        switch (s.below(3)) {
          case 0: expr("J", d); expr("I", d); expr("F", d); mv.visitInsn(DUP2_X2); pr("F"); pr("I"); pr("J"); pr("F"); pr("I"); break;
          case 1: expr("I", d); expr("F", d); expr("J", d); mv.visitInsn(DUP2_X2); pr("J"); pr("F"); pr("I"); pr("J"); break;
          default: expr("I", d); expr("I", d); expr("F", d); expr("F", d); mv.visitInsn(DUP2_X2); pr("F"); pr("F"); pr("I"); pr("I"); pr("F"); pr("F");
        }
      }
    }
  }

  /** pops and prints a value of the type */
  void pr(String t) {
    mv.visitMethodInsn(INVOKESTATIC, "vp/GenRun", "pr", "(" + t + ")V", false);
  }

  void push(int v) {
    if (v >= -1 && v <= 5) mv.visitInsn(ICONST_0 + v);
    else if (v >= -128 && v <= 127) mv.visitIntInsn(BIPUSH, v);
    else if (v >= -32768 && v <= 32767) mv.visitIntInsn(SIPUSH, v);
    else mv.visitLdcInsn(Integer.valueOf(v));
  }

  static final int[] CONV_TO_I = {-1, L2I, F2I, D2I};

  void narrow(String t) {
    switch (t.charAt(0)) {
      case 'B': mv.visitInsn(I2B); break;
      case 'S': mv.visitInsn(I2S); break;
      case 'C': mv.visitInsn(I2C); break;
      case 'Z': mv.visitInsn(ICONST_1); mv.visitInsn(IAND); break;
    }
  }

  int pickLocal(String t) {
    int n = 0;
    for (int i = 0; i < localTy.size(); ++i) if (fits(localTy.get(i), t)) ++n;
    if (n == 0) return -1;
    int k = s.below(n);
    for (int i = 0; i < localTy.size(); ++i) if (fits(localTy.get(i), t) && k-- == 0) return i;
    return -1;
  }

  boolean fits(String have, String want) {
    if (have.equals(want)) return true;
    if (want.equals("I") && isSub(have)) return true;
    if (kind(want) == 4 && kind(have) == 4) {
      if (want.equals("Ljava/lang/Object;")) return true;
      if (want.equals("L" + P + ";") && have.equals("L" + Q + ";")) return true;
      if (want.equals("L" + I + ";") && (have.equals("L" + Q + ";") || have.equals("L" + P + ";"))) return true;
    }
    return false;
  }

  Fld pickField(String t) {
    int n = 0;
    for (Fld f : fields) if (fits(f.desc, t)) ++n;
    if (n == 0) return null;
    int k = s.below(n);
    for (Fld f : fields) if (fits(f.desc, t) && k-- == 0) return f;
    return null;
  }

  void expr(String t, int d) {
    if (isSub(t)) { expr("I", d); narrow(t); return; }
    --budget;
    int c = d <= 0 || budget < 0 ? s.below(4) : s.below(14);
    // leaves
    if (c == 1) { int l = pickLocal(t); if (l >= 0) { load(localTy.get(l), localIdx.get(l)[0]); return; } c = 0; }
    if (c == 2) { Fld f = pickField(t); if (f != null && (f.st || d > 0)) {
        if (!f.st) { expr("L" + f.owner + ";", d - 1); nonNull(); }
        mv.visitFieldInsn(f.st ? GETSTATIC : GETFIELD, f.owner, f.name, f.desc); tag("field-" + f.desc.charAt(0)); return; } c = 0; }
    if (c == 3) { int l = pickLocal(t); if (l >= 0) { load(localTy.get(l), localIdx.get(l)[0]); return; } c = 0; }
    if (c == 0) { constant(t); return; }
    // generic forms
    if (c == 4) { // conditional expression
      Label no = new Label(), end = new Label();
      cond(no, d - 1);
      expr(t, d - 1);
      mv.visitJumpInsn(GOTO, end);
      mv.visitLabel(no);
      expr(t, d - 1);
      // known finding: a comparison is merged with the branch after it, even if that is jumped to
      mv.visitInsn(NOP);
      mv.visitLabel(end);
      tag("cond-expr");
      return;
    }
    if (c == 5) { call(t, d); return; }
    if (c == 6) { // array element
      String a = null;
      if (kind(t) == 4) {
        if (t.equals("L" + P + ";")) a = "[L" + P + ";";
        else if (t.equals("[I")) a = "[[I";
        else if (t.equals("Ljava/lang/Object;")) a = "[Ljava/lang/Object;";
      } else if (t.equals("I")) a = "[" + s.pick(new String[] {"I", "B", "S", "C", "Z"});
      else a = "[" + t;
      if (a != null) { expr(a, d - 1); nonNull(); index(d - 1); mv.visitInsn(aload(elem(a))); tag("array-load"); return; }
    }
    if (c == 7 && d > 1) { // assignment used as a value
      switch (s.below(3)) {
        case 0: { int k = pickLocal(t);
          if (k > 0 && localTy.get(k).equals(t)) { expr(t, d - 1); mv.visitInsn(size(t) == 2 ? DUP2 : DUP); store(t, localIdx.get(k)[0]); return; } break; }
        case 1: { Fld f = pickField(t);
          if (f != null && f.desc.equals(t)) {
            target(f, d - 1); expr(t, d - 1);
            if (f.st) mv.visitInsn(size(t) == 2 ? DUP2 : DUP); else mv.visitInsn(size(t) == 2 ? DUP2_X1 : DUP_X1);
            mv.visitFieldInsn(f.st ? PUTSTATIC : PUTFIELD, f.owner, f.name, f.desc);
            return;
          } break; }
        default:
          if (kind(t) < 4) {
            expr("[" + t, d - 1); nonNull(); index(d - 1); expr(t, d - 1); mv.visitInsn(size(t) == 2 ? DUP2_X2 : DUP_X2); mv.visitInsn(astore(t));
            tag("array-assign-expr");
            return;
          }
      }
    }
    switch (kind(t)) {
      case 0: intExpr(d); break;
      case 1: longExpr(d); break;
      case 2: floatExpr(d); break;
      case 3: doubleExpr(d); break;
      default: refExpr(t, d);
    }
  }

  void constant(String t) {
    switch (kind(t)) {
      case 0: push(s.anyInt()); break;
      case 1: { long v = s.anyLong(); if (v == 0 || v == 1) mv.visitInsn(LCONST_0 + (int) v); else mv.visitLdcInsn(Long.valueOf(v)); break; }
      case 2: { float v = s.anyFloat(); if (v != v) v = Float.NaN; if (v == 0 && 1 / v > 0 || v == 1 || v == 2) mv.visitInsn(FCONST_0 + (int) v); else mv.visitLdcInsn(Float.valueOf(v)); break; }
      case 3: { double v = s.anyDouble(); if (v != v) v = Double.NaN; if (v == 0 && 1 / v > 0 || v == 1) mv.visitInsn(DCONST_0 + (int) v); else mv.visitLdcInsn(Double.valueOf(v)); break; }
      default: refConst(t);
    }
  }

  void refConst(String t) {
    if (s.oneIn(exc ? 6 : 16)) { mv.visitInsn(ACONST_NULL); return; }
    if (t.equals("Ljava/lang/String;")) { mv.visitLdcInsn(s.pick(new String[] {"", "a", "hello", "\u00e9\u4e2d", "zz"})); return; }
    if (t.charAt(0) == '[') {
      String e = elem(t);
      if (e.charAt(0) == '[') {
        push(4); push(4 + s.below(3));
        mv.visitMultiANewArrayInsn(t, 2);
        tag("multianewarray");
        return;
      }
      push(s.oneIn(4) ? s.below(4) : 4 + s.below(5));
      if (e.length() == 1) {
        int code = "ZCFDBSIJ".indexOf(e.charAt(0)) + 4;
        mv.visitIntInsn(NEWARRAY, code);
      } else {
        String cn = e.substring(1, e.length() - 1);
        mv.visitTypeInsn(ANEWARRAY, cn);
      }
      return;
    }
    String cn = t.equals("L" + Q + ";") || (!t.equals("Ljava/lang/Object;") && s.oneIn(3)) ? Q : P;
    mv.visitTypeInsn(NEW, cn);
    mv.visitInsn(DUP);
    mv.visitMethodInsn(INVOKESPECIAL, cn, "<init>", "()V", false);
    tag("new");
  }

  void refExpr(String t, int d) {
    switch (s.below(4)) {
      case 0: // cast from Object
        if (!t.equals("Ljava/lang/Object;")) {
          expr(s.bool() ? "Ljava/lang/Object;" : t, d - 1);
          mv.visitTypeInsn(CHECKCAST, t.charAt(0) == '[' ? t : t.substring(1, t.length() - 1));
          tag("checkcast");
          return;
        }
        expr(refs[s.below(refs.length)], d - 1);
        return;
      case 1:
        if (t.charAt(0) == '[' && elem(t).length() == 1) { // initialised array
          String e = elem(t);
          int n = 4 + s.below(3);
          push(n);
          mv.visitIntInsn(NEWARRAY, "ZCFDBSIJ".indexOf(e.charAt(0)) + 4);
          int k = s.below(3);
          for (int i = 0; i < k; ++i) {
            mv.visitInsn(DUP); push(s.below(n)); expr(e, d - 1); mv.visitInsn(astore(e));
          }
          tag("array-init");
          return;
        }
        if (t.charAt(0) == '[' && elem(t).charAt(0) == 'L') {
          push(4); mv.visitTypeInsn(ANEWARRAY, elem(t).substring(1, elem(t).length() - 1));
          int k = s.below(3);
          for (int i = 0; i < k; ++i) { mv.visitInsn(DUP); push(s.below(4)); expr(elem(t), d - 1); mv.visitInsn(AASTORE); }
          return;
        }
        break;
      case 2: {
        if (t.equals("Ljava/lang/String;")) {
          expr("I", d - 1);
          mv.visitMethodInsn(INVOKESTATIC, "java/lang/String", "valueOf", "(I)Ljava/lang/String;", false);
          return;
        }
        break;
      }
    }
    int l = pickLocal(t);
    if (l >= 0) load(localTy.get(l), localIdx.get(l)[0]); else refConst(t);
  }

  void intExpr(int d) {
    switch (s.below(16)) {
      case 0: case 1: case 2: case 3: case 4: {
        int[] ops = {IADD, ISUB, IMUL, IAND, IOR, IXOR, ISHL, ISHR, IUSHR, IDIV, IREM};
        int op = ops[s.below(ops.length)];
        expr("I", d - 1);
        expr("I", d - 1);
        div(op, IDIV, IREM, "I");
        mv.visitInsn(op);
        tag(op == IDIV || op == IREM ? "idiv" : op >= ISHL && op <= LUSHR ? "ishift" : "iarith");
        break;
      }
      case 5: expr("I", d - 1); mv.visitInsn(INEG); break;
      case 6: expr("I", d - 1); mv.visitInsn(s.pick(new int[] {I2B, I2C, I2S})); tag("i2x"); break;
      case 7: expr("J", d - 1); mv.visitInsn(L2I); tag("l2i"); break;
      case 8: expr("F", d - 1); mv.visitInsn(F2I); tag("f2i"); break;
      case 9: expr("D", d - 1); mv.visitInsn(D2I); tag("d2i"); break;
      case 10: expr("J", d - 1); expr("J", d - 1); mv.visitInsn(LCMP); tag("lcmp"); break;
      case 11: { String t = s.bool() ? "F" : "D"; expr(t, d - 1); expr(t, d - 1); mv.visitInsn((t.equals("F") ? FCMPL : DCMPL) + s.below(2)); tag("fcmp"); break; }
      case 12: { String t = refs[s.below(refs.length)]; expr(s.bool() ? t : "Ljava/lang/Object;", d - 1);
        String u = refs[s.below(refs.length)];
        mv.visitTypeInsn(INSTANCEOF, u.charAt(0) == '[' ? u : u.substring(1, u.length() - 1)); tag("instanceof"); break; }
      case 13:
        if (calls && s.bool()) { typed(); String u = typeName(true); mv.visitTypeInsn(INSTANCEOF, u); tag("instanceof-hierarchy"); break; }
        expr(arrayType(), d - 1); nonNull(); mv.visitInsn(ARRAYLENGTH); tag("arraylength"); break;
      case 14: { // i++ as a value
        int l = pickLocal("I");
        if (l >= 0 && localTy.get(l).equals("I")) {
          int i = localIdx.get(l)[0];
          if (s.bool()) { load("I", i); mv.visitIincInsn(i, 1); } else { mv.visitIincInsn(i, -1); load("I", i); }
        } else push(s.anyInt());
        break;
      }
      default: { expr("Ljava/lang/String;", d - 1); nonNull(); mv.visitMethodInsn(INVOKEVIRTUAL, "java/lang/String", s.bool() ? "length" : "hashCode", "()I", false); break; }
    }
  }

  /** keeps most divisors away from zero */
  void div(int op, int dv, int rm, String t) {
    if (op != dv && op != rm) return;
    if (s.oneIn(exc ? 2 : 6)) return;
    if (t.equals("I")) { if (s.bool()) { push(s.pick(new int[] {1, 3})); mv.visitInsn(IOR); } else { mv.visitInsn(POP); int v = s.anyInt(); push(v == 0 ? 7 : v); } }
    else { if (s.bool()) { mv.visitInsn(LCONST_1); mv.visitInsn(LOR); } else { mv.visitInsn(POP2); long v = s.anyLong(); mv.visitLdcInsn(Long.valueOf(v == 0 ? 7 : v)); } }
  }

  void longExpr(int d) {
    switch (s.below(10)) {
      case 0: case 1: case 2: case 3: {
        int[] ops = {LADD, LSUB, LMUL, LAND, LOR, LXOR, LDIV, LREM};
        int op = ops[s.below(ops.length)];
        expr("J", d - 1);
        expr("J", d - 1);
        div(op, LDIV, LREM, "J");
        mv.visitInsn(op);
        tag(op == LDIV || op == LREM ? "ldiv" : "larith");
        break;
      }
      case 4: case 5: expr("J", d - 1); expr("I", d - 1); mv.visitInsn(s.pick(new int[] {LSHL, LSHR, LUSHR})); tag("lshift"); break;
      case 6: expr("J", d - 1); mv.visitInsn(LNEG); break;
      case 7: expr("I", d - 1); mv.visitInsn(I2L); tag("i2l"); break;
      case 8: expr("F", d - 1); mv.visitInsn(F2L); tag("f2l"); break;
      default: expr("D", d - 1); mv.visitInsn(D2L); tag("d2l"); break;
    }
  }

  void floatExpr(int d) {
    switch (s.below(8)) {
      case 0: case 1: case 2: case 3: {
        expr("F", d - 1); expr("F", d - 1);
        mv.visitInsn(s.pick(new int[] {FADD, FSUB, FMUL, FDIV, FREM}));
        tag("farith");
        break;
      }
      case 4: expr("F", d - 1); mv.visitInsn(FNEG); break;
      case 5: expr("I", d - 1); mv.visitInsn(I2F); tag("i2f"); break;
      case 6: expr("J", d - 1); mv.visitInsn(L2F); tag("l2f"); break;
      default: expr("D", d - 1); mv.visitInsn(D2F); tag("d2f"); break;
    }
  }

  void doubleExpr(int d) {
    switch (s.below(8)) {
      case 0: case 1: case 2: case 3: {
        expr("D", d - 1); expr("D", d - 1);
        mv.visitInsn(s.pick(new int[] {DADD, DSUB, DMUL, DDIV, DREM}));
        tag("darith");
        break;
      }
      case 4: expr("D", d - 1); mv.visitInsn(DNEG); break;
      case 5: expr("I", d - 1); mv.visitInsn(I2D); tag("i2d"); break;
      case 6: expr("J", d - 1); mv.visitInsn(L2D); tag("l2d"); break;
      default: expr("F", d - 1); mv.visitInsn(F2D); tag("f2d"); break;
    }
  }

  /** calls a method returning something that fits t (null: any, result dropped) */
  void call(String t, int d) {
    int n = 0;
    for (Mth m : methods) if (t == null || fits(m.ret, t)) ++n;
    if (n == 0) { if (t != null) constant(t); return; }
    int k = s.below(n);
    Mth m = null;
    for (Mth x : methods) if ((t == null || fits(x.ret, t)) && k-- == 0) { m = x; break; }
    if (m.kind == 3 && !self.equals(P)) { if (t != null) constant(t); return; }
    int ad = Math.min(d - 1, 1);
    if (m.kind != 0) {
      String recv = m.kind == 2 && s.bool() ? "L" + I + ";" : m.inQ && s.oneIn(3) ? "L" + Q + ";" : "L" + P + ";";
      boolean spec = m.kind == 3;
      boolean sup = self.equals(Q) && !isStatic && m.kind == 1 && s.oneIn(3);
      if (sup) { mv.visitVarInsn(ALOAD, 0); }
      else if (!isStatic && s.oneIn(3) && (recv.equals("L" + P + ";") || recv.equals("L" + I + ";"))) mv.visitVarInsn(ALOAD, 0);
      else if (spec) { // not null: the JIT does not check the receiver of invokespecial (known finding)
        mv.visitTypeInsn(NEW, P); mv.visitInsn(DUP); mv.visitMethodInsn(INVOKESPECIAL, P, "<init>", "()V", false); }
      else expr(recv, ad);
      for (String p : m.params) expr(p, ad);
      String owner = recv.substring(1, recv.length() - 1);
      if (sup) { mv.visitMethodInsn(INVOKESPECIAL, P, m.name, m.desc, false); tag("super-call"); }
      else if (spec) { mv.visitMethodInsn(INVOKESPECIAL, P, m.name, m.desc, false); tag("private-call"); }
      else if (owner.equals(I)) { mv.visitMethodInsn(INVOKEINTERFACE, I, m.name, m.desc, true); tag("interface-call"); }
      else { mv.visitMethodInsn(INVOKEVIRTUAL, owner, m.name, m.desc, false); tag("virtual-call"); }
    } else {
      for (String p : m.params) expr(p, ad);
      mv.visitMethodInsn(INVOKESTATIC, P, m.name, m.desc, false);
      tag("static-call");
    }
    if (t == null && !m.ret.equals("V")) mv.visitInsn(size(m.ret) == 2 ? POP2 : POP);
  }

  void run() {
    mv = cw.visitMethod(ACC_PUBLIC, "run", "(L" + OUT + ";)V", null, null);
    mv.visitCode();
    self = P;
    isStatic = false;
    retType = "V";
    localIdx.clear(); localTy.clear();
    next = 2;
    line = 0; lastLine = -1; noLines = false;
    mv.visitVarInsn(ALOAD, 1);
    mv.visitFieldInsn(PUTSTATIC, P, "o", "L" + OUT + ";");
    mv.visitVarInsn(ALOAD, 1);
    mv.visitMethodInsn(INVOKESTATIC, "vp/GenRun", "start", "(L" + OUT + ";)V", false);
    int rounds = 1 + s.below(2);
    for (int r = 0; r < rounds; ++r)
      for (Mth m : methods) {
        newLine();
        Label a = new Label(), b = new Label(), h = new Label(), end = new Label();
        push(400);
        mv.visitFieldInsn(PUTSTATIC, P, "fuel", "I");
        mv.visitLabel(a);
        mv.visitVarInsn(ALOAD, 1);
        budget = 40;
        if (m.kind != 0) {
          String cn = m.kind != 3 && s.bool() ? Q : P;
          if (s.bool()) mv.visitVarInsn(ALOAD, 0);
          else { mv.visitTypeInsn(NEW, cn); mv.visitInsn(DUP); mv.visitMethodInsn(INVOKESPECIAL, cn, "<init>", "()V", false); }
        }
        for (String p : m.params) { if (isSub(p)) { push(s.anyInt()); narrow(p); } else constant(p); }
        if (m.kind == 0) mv.visitMethodInsn(INVOKESTATIC, P, m.name, m.desc, false);
        else mv.visitMethodInsn(m.kind == 3 ? INVOKESPECIAL : INVOKEVIRTUAL, P, m.name, m.desc, false);
        if (m.ret.equals("V")) mv.visitInsn(ICONST_0);
        out(m.ret.equals("V") ? "I" : m.ret);
        mv.visitInsn(POP);
        mv.visitLabel(b);
        mv.visitJumpInsn(GOTO, end);
        mv.visitLabel(h);
        mv.visitVarInsn(ALOAD, 1);
        mv.visitInsn(SWAP);
        mv.visitMethodInsn(INVOKESTATIC, "vp/GenRun", "caught", "(L" + OUT + ";Ljava/lang/Throwable;)V", false);
        mv.visitLabel(end);
        mv.visitTryCatchBlock(a, b, h, "java/lang/Throwable");
        mv.visitMethodInsn(INVOKESTATIC, "vp/GenRun", "nl", "()V", false);
      }
    for (Fld f : fields) {
      if (f.owner.equals(Q)) continue;
      mv.visitVarInsn(ALOAD, 1);
      if (!f.st) mv.visitVarInsn(ALOAD, 0);
      mv.visitFieldInsn(f.st ? GETSTATIC : GETFIELD, f.owner, f.name, f.desc);
      out(f.desc);
      mv.visitInsn(POP);
    }
    mv.visitInsn(RETURN);
    mv.visitMaxs(0, 0);
    mv.visitEnd();
  }
}
