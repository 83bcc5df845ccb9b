// A scripted user of JNI: executes a list of choices as JNI calls and reports what it sees as text.
#include "jniprop.h"
#include <cstdlib>
#include <cstdio>
#include <pthread.h>
#include <vector>

static JavaVM* theVM;
static jclass propClass;   // global reference to vp.JniProp
static jmethodID showID, keyID, holdsID, nestID, pokeID, gcID;
static jfieldID lastID;

extern "C" JNIEXPORT jint JNICALL JNI_OnLoad(JavaVM* vm, void*)
{
  theVM = vm;
  JNIEnv* e;
  if (vm->GetEnv((void**) &e, JNI_VERSION_1_4) != JNI_OK) return -1;
  jclass c = e->FindClass("vp/JniProp");
  if (c == 0) return -1;
  propClass = (jclass) e->NewGlobalRef(c);
  showID = e->GetStaticMethodID(c, "show", "(Ljava/lang/Object;)Ljava/lang/String;");
  keyID = e->GetStaticMethodID(c, "key", "(Ljava/lang/Object;)J");
  holdsID = e->GetStaticMethodID(c, "holds", "(Ljava/lang/Object;)I");
  nestID = e->GetStaticMethodID(c, "nest", "(I)Ljava/lang/String;");
  pokeID = e->GetStaticMethodID(c, "poke", "(Ljava/nio/ByteBuffer;II)I");
  gcID = e->GetStaticMethodID(c, "collect", "(I)V");
  lastID = e->GetStaticFieldID(c, "last", "J");
  return JNI_VERSION_1_4;
}

jlong key(JNIEnv* e, jobject o) { return e->CallStaticLongMethod(propClass, keyID, o); }
void setLast(JNIEnv* e, jlong h) { e->SetStaticLongField(propClass, lastID, h); }
void outLast(JNIEnv* e, std::string& out) { if (!e->ExceptionCheck()) outNum(out, e->GetStaticLongField(propClass, lastID)); }

static void outText(JNIEnv* e, std::string& out, jobject o)
{
  jstring s = (jstring) e->CallStaticObjectMethod(propClass, showID, o);
  if (s == 0) { out += "?"; e->ExceptionClear(); return; }
  const char* c = e->GetStringUTFChars(s, 0);
  out += c;
  out += ' ';
  e->ReleaseStringUTFChars(s, c);
  e->DeleteLocalRef(s);
}
void outObject(JNIEnv* e, std::string& out, jobject o) { if (!e->ExceptionCheck()) { outText(e, out, o); outNum(out, e->GetStaticLongField(propClass, lastID)); } }

static const char* const CLASSES[] = {"java/lang/Object", "java/lang/String", "java/lang/Integer", "java/lang/Number", "vp/JniBase", "vp/JniDerived", "vp/JniIface", "vp/JniFieldsSub", "java/util/List",
  "[I", "[[J", "[Ljava/lang/String;", "[[Ljava/lang/Object;", "[Lvp/JniBase;", "java/lang/RuntimeException", "java/lang/Throwable", "[Lvp/JniIface;", "[Lvp/JniDerived;", "java/lang/CharSequence", "java/lang/Cloneable", "java/lang/Error"};
static const int NCLASSES = 21;
static const char* const MISSING[] = {"vp/NoSuchClass", "[Lvp/NoSuchClass;", "no/such/pack/C"};
static const int N = 12, NG = 4;
static jobject globals[NG], weaks[NG], weakTargets[NG];

static jint r0(JNIEnv*, jclass, jint a) { return a + 1; }
static jint r1(JNIEnv*, jclass, jint a) { return a * 3; }
static jlong r2(JNIEnv*, jobject, jlong a, jdouble d) { return a + (jlong) d; }
static jlong r3(JNIEnv*, jobject, jlong a, jdouble d) { return a - (jlong) d; }

struct Ctx {
  JNIEnv* e;
  const jint* s;
  int n, p, level;
  std::string out;
  jobject slot[N];
  std::vector<std::string>* threads;
  bool stop;

  Ctx(JNIEnv* e, const jint* s, int n, int p, int level) : e(e), s(s), n(n), p(p), level(level), stop(false) { memset(slot, 0, sizeof(slot)); }

  int take(int k) { if (p >= n) return 0; unsigned v = (unsigned) s[p++]; return (int) (v % (unsigned) k); }
  jlong takeLong() { jlong a = p < n ? s[p++] : 0, b = p < n ? s[p++] : 0; int k = take(4); jlong v = mul31(a) * 0x100000001LL + b; return k == 0 ? v : k == 1 ? (jlong) (jint) a % 100 : k == 2 ? (jlong) (jint) b : ((uint64_t) v) >> 20; }
  void num(long long v) { outNum(out, v); }
  void text(const char* t) { out += t; out += ' '; }
  void show(jobject o) { outText(e, out, o); }

  bool thrown()
  {
    if (e->ExceptionCheck()) {
      jthrowable t = e->ExceptionOccurred();
      e->ExceptionClear();
      if (e->ExceptionCheck() || e->ExceptionOccurred() != 0) text("NOT-CLEARED");
      text("!");
      jclass c = e->GetObjectClass(t);
      show(c);
      e->DeleteLocalRef(c);
      e->DeleteLocalRef(t);
      return true;
    }
    return false;
  }
  void put(int i, jobject o) { slot[i] = o; }
  bool is(jobject o, const char* cn) { if (o == 0) return false; jclass c = e->FindClass(cn); bool r = e->IsInstanceOf(o, c); e->DeleteLocalRef(c); return r; }
  jobject find(const char* cn) { int i = take(N); for (int k = 0; k < N; ++k) if (is(slot[(i + k) % N], cn)) return slot[(i + k) % N]; return 0; }
  jobject some() { int i = take(N); for (int k = 0; k < N; ++k) if (slot[(i + k) % N]) return slot[(i + k) % N]; return 0; }
  jclass cls() { return e->FindClass(CLASSES[take(NCLASSES)]); }

  jstring newString()
  {
    int len = take(18), style = take(4);
    std::vector<jchar> u;
    for (int i = 0; i < len; ++i) {
      int k = style == 0 ? 0 : take(7);
      switch (k) {
        case 0: case 1: u.push_back(' ' + 1 + take(94)); break;
        case 2: u.push_back(0x80 + take(0x780)); break;
        case 3: u.push_back(0x800 + take(0xD000)); break;
        case 4: u.push_back(0xD83D); u.push_back(0xDE00 + take(40)); break;
        case 5: u.push_back(0); break;
        default: u.push_back(style == 3 ? 0xD800 + take(0x800) : 'x');
      }
    }
    if (take(2)) { u.push_back(0); return e->NewString(&u[0], u.size() - 1); }
    std::string b;
    for (size_t i = 0; i < u.size(); ++i) {
      jchar c = u[i];
      if (c != 0 && c < 0x80) b += (char) c;
      else if (c < 0x800) { b += (char) (0xC0 | (c >> 6)); b += (char) (0x80 | (c & 63)); }
      else { b += (char) (0xE0 | (c >> 12)); b += (char) (0x80 | ((c >> 6) & 63)); b += (char) (0x80 | (c & 63)); }
    }
    return e->NewStringUTF(b.c_str());
  }

  void inspect(jstring s)
  {
    int len = e->GetStringLength(s), ulen = e->GetStringUTFLength(s);
    num(len);
    unsigned h = 0;
    bool nul = false; // Avian documents that it encodes these in one byte
    const jchar* c = e->GetStringChars(s, 0);
    for (int i = 0; i < len; ++i) { h = h * 31 + c[i]; if (c[i] == 0) nul = true; }
    e->ReleaseStringChars(s, c);
    num(h);
    if (nul) ulen = -1;
    num(ulen);
    const char* b = e->GetStringUTFChars(s, 0);
    h = 0;
    if (!nul && (int) strlen(b) != ulen) text("UTF-LENGTH");
    for (int i = 0; i < ulen; ++i) h = h * 31 + (unsigned char) b[i];
    e->ReleaseStringUTFChars(s, b);
    num(h);
    int from = take(22) - 2, count = take(22) - 1;
    jchar buf[64]; memset(buf, 0x55, sizeof(buf));
    e->GetStringRegion(s, from, count, buf);
    if (!thrown()) { h = 0; for (int i = 0; i < 40; ++i) h = h * 31 + buf[i]; num(h); }
    char bbuf[160]; memset(bbuf, 0, sizeof(bbuf));
    from = take(19); count = take(19);
    e->GetStringUTFRegion(s, from, count, bbuf);
    if (!thrown() && !nul) { h = 0; for (int i = 0; i < 120; ++i) h = h * 31 + (unsigned char) bbuf[i]; num(h); }
    c = e->GetStringCritical(s, 0);
    h = 0;
    for (int i = 0; i < len; ++i) h = h * 37 + c[i];
    e->ReleaseStringCritical(s, c);
    num(h);
  }

#define ARRAY(T, NAME, CN) \
  void array##NAME() { \
    int what = take(8); \
    j##T##Array a; \
    if (what < 2 || (a = (j##T##Array) find(CN)) == 0) { a = e->New##NAME##Array(take(3) ? take(20) : take(300)); if (thrown()) return; put(take(N), a); } \
    int len = e->GetArrayLength(a); num(len); \
    switch (what) { \
      case 2: case 3: { int from = take(len + 6) - 2, count = take(12) - 1; j##T b[12]; for (int i = 0; i < 12; ++i) b[i] = conv##NAME(takeLong()); \
        e->Set##NAME##ArrayRegion(a, from, count, b); thrown(); break; } \
      case 4: { int from = take(len + 4) - 2, count = take(12) - 1; j##T b[12]; memset(b, 1, sizeof(b)); \
        e->Get##NAME##ArrayRegion(a, from, count, b); thrown(); for (int i = 0; i < 12; ++i) outValue(e, out, b[i]); break; } \
      case 5: { jboolean copy = 7; j##T* b = e->Get##NAME##ArrayElements(a, take(2) ? &copy : 0); int how = take(3); \
        for (int i = 0; i < len && i < 8; ++i) outValue(e, out, b[i]); \
        if (how == 0) { e->Release##NAME##ArrayElements(a, b, JNI_ABORT); break; } \
        collect(); \
        for (int k = take(5); k > 0 && len > 0; --k) b[take(len)] = conv##NAME(takeLong()); \
        if (how == 1) { e->Release##NAME##ArrayElements(a, b, JNI_COMMIT); show(a); for (int k = take(3); k > 0 && len > 0; --k) b[take(len)] = conv##NAME(takeLong()); } \
        e->Release##NAME##ArrayElements(a, b, 0); break; } \
      case 6: { j##T* b = (j##T*) e->GetPrimitiveArrayCritical(a, 0); int how = take(2); \
        for (int i = 0; i < len && i < 8; ++i) outValue(e, out, b[i]); \
        if (how) for (int k = take(5); k > 0 && len > 0; --k) b[take(len)] = conv##NAME(takeLong()); \
        e->ReleasePrimitiveArrayCritical(a, b, how ? 0 : JNI_ABORT); break; } \
      default: break; \
    } \
    show(a); \
  }
#define CONV(T, NAME, X) static j##T conv##NAME(jlong v) { return X; }
  CONV(boolean, Boolean, (v & 1) != 0) CONV(byte, Byte, (jbyte) v) CONV(char, Char, (jchar) v) CONV(short, Short, (jshort) v) CONV(int, Int, (jint) v) CONV(long, Long, v)
  CONV(float, Float, (jfloat) (jint) v / 8) CONV(double, Double, (jdouble) (v >> 12) / 16)
  ARRAY(boolean, Boolean, "[Z") ARRAY(byte, Byte, "[B") ARRAY(char, Char, "[C") ARRAY(short, Short, "[S") ARRAY(int, Int, "[I") ARRAY(long, Long, "[J") ARRAY(float, Float, "[F") ARRAY(double, Double, "[D")

  void collect() { if (take(3) == 0) e->CallStaticVoidMethod(propClass, gcID, take(4)); }

  void fields()
  {
    jobject o = find("vp/JniFields");
    if (o == 0) { jclass c = e->FindClass("vp/JniFieldsSub"); o = e->NewObject(c, e->GetMethodID(c, "<init>", "()V")); put(take(N), o); }
    jclass c = take(2) ? e->GetObjectClass(o) : e->FindClass("vp/JniFields");
    bool st = take(2), set = take(2);
    jlong v = takeLong();
#define F(K, NAME, SIG, N1, N2) \
      case K: { jfieldID f = st ? e->GetStaticFieldID(c, N2, SIG) : e->GetFieldID(c, N1, SIG); if (f == 0) { thrown(); return; } \
        if (set) { if (st) e->SetStatic##NAME##Field(c, f, conv##NAME(v)); else e->Set##NAME##Field(o, f, conv##NAME(v)); } \
        outValue(e, out, st ? e->GetStatic##NAME##Field(c, f) : e->Get##NAME##Field(o, f)); break; }
    switch (take(11)) {
      F(0, Boolean, "Z", "z", "sz") F(1, Byte, "B", "b", "sb") F(2, Char, "C", "c", "sc") F(3, Short, "S", "s", "ss") F(4, Int, "I", "i", "si")
      F(5, Long, "J", "j", "sj") F(6, Float, "F", "f", "sf") F(7, Double, "D", "d", "sd")
      F(8, Int, "I", "shadow", "si2")
      default: {
        bool str = take(2);
        jfieldID f = st ? e->GetStaticFieldID(c, str ? "sstr" : "sl", str ? "Ljava/lang/String;" : "Ljava/lang/Object;") : e->GetFieldID(c, str ? "str" : "l", str ? "Ljava/lang/String;" : "Ljava/lang/Object;");
        if (f == 0) { thrown(); return; }
        if (set) { jobject x = str ? find("java/lang/String") : take(5) ? some() : 0; if (st) e->SetStaticObjectField(c, f, x); else e->SetObjectField(o, f, x); collect(); }
        jobject r = st ? e->GetStaticObjectField(c, f) : e->GetObjectField(o, f);
        show(r);
        put(take(N), r);
      }
    }
    show(o);
  }

  void missing()
  {
    jclass c = e->FindClass("vp/JniFieldsSub");
    switch (take(9)) {
      case 0: num(e->GetFieldID(c, "i", "J") != 0); break;
      case 1: num(e->GetFieldID(c, "nothing", "I") != 0); break;
      case 2: num(e->GetStaticFieldID(c, "i", "I") != 0); break;
      case 3: num(e->GetFieldID(c, "si", "I") != 0); break;
      case 4: num(e->GetMethodID(c, "toString", "()I") != 0); break;
      case 5: num(e->GetStaticMethodID(c, "toString", "()Ljava/lang/String;") != 0); break;
      case 6: num(e->GetMethodID(c, "hashCode", "()I") != 0); break;
      case 7: num(e->GetStaticMethodID(c, "stat", "()I") != 0); break;
      default: { jobject x = e->FindClass(MISSING[take(3)]); num(x != 0); }
    }
    thrown();
  }

  void up()
  {
    jlong v[32]; jobject o[32];
    int k = take(upCount), variant = take(4), from = take(3), der = take(2);
    for (int i = 0; i < 26; ++i) { v[i] = takeLong(); o[i] = take(4) ? slot[take(N)] : 0; }
    jclass c = e->FindClass(der || from == 1 ? "vp/JniDerived" : "vp/JniBase");
    jobject t = e->NewObject(c, e->GetMethodID(c, "<init>", "()V"));
    num(k);
    bombs();
    callUp(e, k, t, v, o, variant, from, out);
    thrown();
  }
  void bombs() { if (take(6) == 0) e->SetStaticIntField(propClass, e->GetStaticFieldID(propClass, "fuse", "I"), 1 + take(3)); }

  void ctor()
  {
    jlong v[32]; jobject o[32];
    int k = take(20), variant = take(4);
    for (int i = 0; i < 26; ++i) { v[i] = takeLong(); o[i] = take(4) ? slot[take(N)] : 0; }
    bombs();
    jclass c = e->FindClass("vp/JniCtor");
    jobject x = callCtor(e, k, c, v, o, variant);
    if (thrown()) { num(x != 0); return; }
    num(e->GetLongField(x, e->GetFieldID(c, "h", "J")));
    num(e->IsInstanceOf(x, c));
  }

  void throwing()
  {
    int k = take(5);
    if (k == 0) {
      jclass c = e->FindClass(take(2) ? "java/lang/RuntimeException" : "vp/JniProp$Mine");
      num(e->ThrowNew(c, "from native"));
    } else if (k == 1) {
      jobject t = find("java/lang/Throwable");
      if (t == 0) { jclass c = e->FindClass("java/lang/IllegalStateException"); t = e->NewObject(c, e->GetMethodID(c, "<init>", "()V")); put(take(N), t); }
      num(e->Throw((jthrowable) t));
      jobject u = e->ExceptionOccurred();
      num(e->IsSameObject(t, u));
    } else if (k == 2) {
      jclass c = e->FindClass("java/lang/IllegalArgumentException");
      jstring m = e->NewStringUTF("m");
      jthrowable t = (jthrowable) e->NewObject(c, e->GetMethodID(c, "<init>", "(Ljava/lang/String;)V"), m);
      put(take(N), t);
      e->Throw(t);
    } else if (k == 3) {
      num(e->ExceptionCheck()); num(e->ExceptionOccurred() != 0); return;
    } else {
      // leaves to the caller with an exception pending
      jclass c = e->FindClass("vp/JniProp$Mine");
      e->ThrowNew(c, "left");
      stop = true;
      return;
    }
    num(e->ExceptionCheck());
    if (take(2)) { jthrowable t = e->ExceptionOccurred(); e->ExceptionClear(); put(take(N), t); show(t); }
    else thrown();
  }

  void frame()
  {
    num(e->PushLocalFrame(1 + take(40)));
    jobject saved[N];
    memcpy(saved, slot, sizeof(slot));
    for (int k = take(6); k >= 0 && !stop; --k) step();
    if (stop) return; // the frames go with the return to Java
    int i = take(N);
    jobject r = take(4) ? slot[i] : 0;
    collect();
    jobject x = e->PopLocalFrame(r);
    memcpy(slot, saved, sizeof(slot));
    put(take(N), x);
    show(x);
  }

  void global()
  {
    int g = take(NG);
    jobject x = some();
    switch (take(4)) {
      case 0: if (globals[g]) e->DeleteGlobalRef(globals[g]); globals[g] = x ? e->NewGlobalRef(x) : 0; break;
      case 1: put(take(N), globals[g] ? e->NewLocalRef(globals[g]) : 0); break;
      case 2: num(e->IsSameObject(globals[g], x)); break;
      default: show(globals[g]); num(key(e, globals[g])); 
    }
  }

  void weak()
  {
    int g = take(NG);
    switch (take(4)) {
      case 3: {
        // a weak reference to garbage becomes the same as null
        int k = take(3);
        jobject x = k == 0 ? (jobject) e->NewIntArray(take(50)) : k == 1 ? (jobject) newString() : e->NewObjectArray(take(9), propClass, 0);
        jobject w = e->NewWeakGlobalRef(x);
        num(e->IsSameObject(w, x)); num(e->IsSameObject(w, 0));
        e->DeleteLocalRef(x);
        int i = 0;
        for (; i < 40 && !e->IsSameObject(w, 0); ++i) e->CallStaticVoidMethod(propClass, gcID, 0);
        num(i < 40);
        jobject l = e->NewLocalRef(w);
        num(l == 0 || e->IsSameObject(l, 0));
        e->DeleteWeakGlobalRef(w);
        break; }
      case 0: {
        jobject x = some();
        if (weaks[g]) { e->DeleteWeakGlobalRef(weaks[g]); e->DeleteGlobalRef(weakTargets[g]); weaks[g] = 0; }
        if (x) { weaks[g] = e->NewWeakGlobalRef(x); weakTargets[g] = e->NewGlobalRef(x); }
        break; }
      default:
        collect();
        if (weaks[g]) {
          num(e->IsSameObject(weaks[g], weakTargets[g])); num(e->IsSameObject(weaks[g], 0));
          jobject l = e->NewLocalRef(weaks[g]);
          num(e->IsSameObject(l, weakTargets[g])); show(l);
        }
    }
  }

  void monitor()
  {
    jobject x = some();
    if (x == 0) return;
    int k = take(4);
    if (k == 0) { e->MonitorExit(x); thrown(); return; }
    for (int i = 0; i < k; ++i) num(e->MonitorEnter(x));
    collect();
    num(e->CallStaticIntMethod(propClass, holdsID, x));
    for (int i = 0; i < k; ++i) num(e->MonitorExit(x));
    num(e->CallStaticIntMethod(propClass, holdsID, x));
  }

  void buffer()
  {
    static char mem[256];
    int from = take(100), cap = take(100), i = take(cap + 1), v = take(256);
    for (int k = 0; k < 256; ++k) mem[k] = k * 7;
    jobject b = e->NewDirectByteBuffer(mem + from, cap);
    if (thrown()) return;
    num((char*) e->GetDirectBufferAddress(b) - mem); num(e->GetDirectBufferCapacity(b));
    num(e->CallStaticIntMethod(propClass, pokeID, b, i, v));
    thrown();
    for (int k = 0; k < 6; ++k) num((unsigned char) mem[(from + i - 3 + k) & 255]);
  }

  void reflected()
  {
    jclass c = e->FindClass("vp/JniFieldsSub");
    switch (take(4)) {
      case 0: { jobject m = e->ToReflectedMethod(c, e->GetMethodID(c, "twice", "(I)I"), 0); show(m); jmethodID id = e->FromReflectedMethod(m);
        jobject o = e->NewObject(c, e->GetMethodID(c, "<init>", "()V")); num(e->CallIntMethod(o, id, (jint) 21)); break; }
      case 1: { jobject m = e->ToReflectedMethod(c, e->GetStaticMethodID(c, "stat", "()I"), 1); show(m); num(e->CallStaticIntMethod(c, e->FromReflectedMethod(m))); break; }
      case 2: { jobject f = e->ToReflectedField(c, e->GetFieldID(c, "j", "J"), 0); show(f); jobject o = e->NewObject(c, e->GetMethodID(c, "<init>", "()V"));
        e->SetLongField(o, e->FromReflectedField(f), 99); show(o); break; }
      default: { jobject f = e->ToReflectedField(c, e->GetStaticFieldID(c, "si", "I"), 1); show(f); num(e->GetStaticIntField(c, e->FromReflectedField(f))); }
    }
    thrown();
  }

  void natives()
  {
    jclass c = e->FindClass("vp/JniReg");
    int k = take(4);
    JNINativeMethod m[2] = {{(char*) "r", (char*) "(I)I", (void*) (k & 1 ? r0 : r1)}, {(char*) "q", (char*) "(JD)J", (void*) (k & 2 ? r2 : r3)}};
    num(e->RegisterNatives(c, m, 2));
    thrown();
    num(e->CallStaticIntMethod(c, e->GetStaticMethodID(c, "callR", "(I)I"), (jint) take(1000)));
    thrown();
    num(e->CallStaticLongMethod(c, e->GetStaticMethodID(c, "callQ", "(JD)J"), takeLong(), (jdouble) take(1000)));
    thrown();
    JNINativeMethod one[1] = {{(char*) "r", (char*) "(I)I", (void*) (k & 1 ? r1 : r0)}};
    if (take(4) == 0) {
      num(e->RegisterNatives(c, one, 1)); thrown();
      num(e->CallStaticIntMethod(c, e->GetStaticMethodID(c, "callR", "(I)I"), (jint) take(1000)));
      thrown();
    }
  }

  void unregistered()
  {
    jclass c = e->FindClass("vp/JniReg");
    num(e->UnregisterNatives(c)); thrown();
    num(e->CallStaticIntMethod(c, e->GetStaticMethodID(c, "callR", "(I)I"), (jint) take(1000))); thrown();
    JNINativeMethod one[1] = {{(char*) "r", (char*) "(I)I", (void*) r1}};
    num(e->RegisterNatives(c, one, 1)); thrown();
    num(e->CallStaticIntMethod(c, e->GetStaticMethodID(c, "callR", "(I)I"), (jint) take(1000))); thrown();
  }

  void statics(jclass c)   // the first use of a class initializes it
  {
    int k = take(9), set = take(3) == 0;
#define S(K, T, NAME, SIG, F, V) case K: { jfieldID f = e->GetStaticFieldID(c, F, SIG); if (set) e->SetStatic##NAME##Field(c, f, (T) V); outValue(e, out, e->GetStatic##NAME##Field(c, f)); break; }
    switch (k) {
      S(0, jboolean, Boolean, "Z", "z", 0) S(1, jbyte, Byte, "B", "b", -7) S(2, jchar, Char, "C", "c", 'z') S(3, jshort, Short, "S", "s", 99) S(4, jint, Int, "I", "i", -5)
      S(5, jlong, Long, "J", "j", 77) S(6, jfloat, Float, "F", "f", 1) S(7, jdouble, Double, "D", "d", 2)
      default: { jfieldID f = e->GetStaticFieldID(c, "l", "Ljava/lang/Object;"); if (set) e->SetStaticObjectField(c, f, 0); show(e->GetStaticObjectField(c, f)); }
    }
#undef S
    thrown();
    show(e->CallStaticObjectMethod(c, e->GetStaticMethodID(c, "all", "()Ljava/lang/String;")));
    thrown();
  }

  void misc()
  {
    JavaVM* vm = 0;
    num(e->GetJavaVM(&vm) == 0 && vm == theVM);
    num(e->GetVersion() >= JNI_VERSION_1_4);
    if (take(3) == 0) unregistered();
  }

  void define()
  {
    jobject loader = e->GetStaticObjectField(propClass, e->GetStaticFieldID(propClass, "loader", "Ljava/lang/ClassLoader;"));
    jbyteArray b = (jbyteArray) e->GetStaticObjectField(propClass, e->GetStaticFieldID(propClass, "bytes", "[B"));
    jint len = e->GetArrayLength(b);
    jbyte* p = e->GetByteArrayElements(b, 0);
    jclass c = e->DefineClass("vp/JniReg", loader, p, len);
    e->ReleaseByteArrayElements(b, p, JNI_ABORT);
    if (thrown()) return;
    show(c);
    if (take(3) == 0) statics(c);
    num(e->IsSameObject(c, e->FindClass("vp/JniReg")));
    num(e->CallStaticIntMethod(c, e->GetStaticMethodID(c, "number", "()I")));
    thrown();
  }

  void step();
  void run(int ops) { for (int k = 0; k < ops && !stop; ++k) { step(); if (!stop) out += '\n'; } }
};

struct Job { const jint* s; int n, p, ops, level; std::string out; int used; };

static void* attached(void* p)
{
  Job* j = (Job*) p;
  JNIEnv* e;
  if (theVM->AttachCurrentThread((void**) &e, 0) != 0) { j->out = "attach failed "; return 0; }
  JNIEnv* f;
  if (theVM->GetEnv((void**) &f, JNI_VERSION_1_4) != JNI_OK || f != e) j->out = "GetEnv ";
  Ctx c(e, j->s, j->n, j->p, j->level);
  c.run(j->ops);
  if (c.stop) { c.thrown(); }
  j->out += c.out;
  j->used = c.p;
  theVM->DetachCurrentThread();
  if (theVM->GetEnv((void**) &f, JNI_VERSION_1_4) != JNI_EDETACHED) j->out += "still attached ";
  return 0;
}

void Ctx::step()
{
  int op = take(34);
  num(op);
  static bool trace = getenv("VPTRACE") != 0;
  if (trace) fprintf(stderr, "%p %s\n", (void*) this, out.substr(out.rfind('\n') + 1).c_str());
  if (trace) { std::string q; for (int i = 0; i < N; ++i) { fprintf(stderr, " %p", (void*) slot[i]); outText(e, q, slot[i]); } fprintf(stderr, "  %s\n", q.c_str()); }
  switch (op) {
    case 0: case 1: { jstring s = newString(); put(take(N), s); show(s); break; }
    case 2: { jobject s = find("java/lang/String"); if (s) inspect((jstring) s); break; }
    case 3: arrayBoolean(); break;
    case 4: arrayByte(); break;
    case 5: arrayChar(); break;
    case 6: arrayShort(); break;
    case 7: arrayInt(); break;
    case 8: arrayLong(); break;
    case 9: arrayFloat(); break;
    case 10: arrayDouble(); break;
    case 11: case 12: {
      jobject a = find("[Ljava/lang/Object;");
      if (a == 0 || take(4) == 0) {
        jclass c = e->FindClass(take(2) ? "java/lang/Object" : "[I");
        jobject init = take(2) && e->IsSameObject(c, e->FindClass("java/lang/Object")) ? some() : 0;
        a = e->NewObjectArray(take(12), c, init);
        if (thrown()) break;
        put(take(N), a);
      }
      int len = e->GetArrayLength((jarray) a), i = take(len + 2) - take(2);
      jobject x = some();
      jclass oc = e->FindClass("[Ljava/lang/Object;");
      jclass ac = e->GetObjectClass(a);
      if (take(2) && e->IsSameObject(oc, ac) && !e->IsSameObject(a, x)) { e->SetObjectArrayElement((jobjectArray) a, i, x); thrown(); collect(); }
      else { jobject y = e->GetObjectArrayElement((jobjectArray) a, i); if (!thrown()) { show(y); put(take(N), y); } }
      show(ac); num(len);
      break; }
    case 13: { jclass c = cls(); show(c); show(e->GetSuperclass(c)); jclass d = cls(); num(e->IsAssignableFrom(c, d)); put(take(N), c); break; }
    case 14: { jobject x = some(); jclass c = cls(); num(e->IsInstanceOf(x, c)); num(e->IsInstanceOf(0, c)); if (x) show(e->GetObjectClass(x)); break; }
    case 15: case 16: fields(); break;
    case 17: missing(); break;
    case 18: case 19: case 20: case 21: up(); break;
    case 22: ctor(); break;
    case 23: throwing(); break;
    case 24: { jobject x = some(); if (x) { jobject y = e->NewLocalRef(x); num(e->IsSameObject(x, y)); jobject z = e->NewLocalRef(y); e->DeleteLocalRef(y); show(z); put(take(N), z); } break; }
    case 25: frame(); break;
    case 26: global(); break;
    case 27: weak(); break;
    case 28: e->CallStaticVoidMethod(propClass, gcID, take(4)); break;
    case 29: monitor(); break;
    case 30: buffer(); break;
    case 31: switch (take(4)) { case 3: misc(); break; case 0: reflected(); break; case 1: natives(); break; default: define(); } break;
    case 32: {
      if (level > 1) break;
      Job j; j.s = s; j.n = n; j.p = p; j.ops = 1 + take(6); j.level = level + 1; j.p = p;
      pthread_t t;
      if (pthread_create(&t, 0, attached, &j)) { text("pthread"); break; }
      pthread_join(t, 0);
      p = j.used;
      out += "{" + j.out + "}";
      break; }
    default: { // Java code, which calls native code again
      if (level > 3) break;
      jstring r = (jstring) e->CallStaticObjectMethod(propClass, nestID, (jint) level);
      if (!thrown()) { inspect(r); put(take(N), r); }
      break; }
  }
}

extern "C" JNIEXPORT jstring JNICALL Java_vp_JniProp_exec(JNIEnv* e, jclass, jintArray script, jint ops, jint level, jobjectArray in)
{
  int n = e->GetArrayLength(script);
  std::vector<jint> s(n + 1);
  e->GetIntArrayRegion(script, 0, n, &s[0]);
  Ctx c(e, &s[0], n, 0, level);
  for (int i = 0; i < e->GetArrayLength(in) && i < N; ++i) c.slot[i] = e->GetObjectArrayElement(in, i);
  c.run(ops);
  if (c.stop) {
    jthrowable t = e->ExceptionOccurred();
    e->ExceptionClear();
    jstring r = e->NewStringUTF(c.out.c_str());
    e->SetStaticObjectField(propClass, e->GetStaticFieldID(propClass, "left", "Ljava/lang/String;"), r);
    e->Throw(t);
    return r;
  }
  return e->NewStringUTF(c.out.c_str());
}

extern "C" JNIEXPORT void JNICALL Java_vp_JniProp_reset(JNIEnv* e, jclass)
{
  for (int i = 0; i < NG; ++i) {
    if (globals[i]) e->DeleteGlobalRef(globals[i]);
    if (weaks[i]) { e->DeleteWeakGlobalRef(weaks[i]); e->DeleteGlobalRef(weakTargets[i]); }
    globals[i] = weaks[i] = weakTargets[i] = 0;
  }
}
