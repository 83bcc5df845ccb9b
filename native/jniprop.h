#include <jni.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
jlong key(JNIEnv* e, jobject o);
void setLast(JNIEnv* e, jlong h);
void outLast(JNIEnv* e, std::string& out);
void outObject(JNIEnv* e, std::string& out, jobject o);
inline jlong mul31(jlong h) { return (jlong) ((uint64_t) h * 31); }
inline jint fbits(jfloat f) { jint i; memcpy(&i, &f, 4); return i; }
inline jlong dbits(jdouble f) { jlong i; memcpy(&i, &f, 8); return i; }
inline jfloat tof(jlong v) { jint i = (jint) v; jfloat f; memcpy(&f, &i, 4); return f; }
inline jdouble tod(jlong v) { jdouble f; memcpy(&f, &v, 8); return f; }
inline void outNum(std::string& out, long long v) { char b[32]; snprintf(b, sizeof(b), "%lld ", v); out += b; }
inline void outValue(JNIEnv*, std::string& out, jboolean v) { outNum(out, v); }
inline void outValue(JNIEnv*, std::string& out, jbyte v) { outNum(out, v); }
inline void outValue(JNIEnv*, std::string& out, jchar v) { outNum(out, v); }
inline void outValue(JNIEnv*, std::string& out, jshort v) { outNum(out, v); }
inline void outValue(JNIEnv*, std::string& out, jint v) { outNum(out, v); }
inline void outValue(JNIEnv*, std::string& out, jlong v) { outNum(out, v); }
inline void outValue(JNIEnv*, std::string& out, jfloat v) { outNum(out, fbits(v)); }
inline void outValue(JNIEnv*, std::string& out, jdouble v) { outNum(out, dbits(v)); }
#define VCALL(N, T) \
  inline T vcall##N(JNIEnv* e, jobject o, jmethodID m, ...) { va_list a; va_start(a, m); T r = e->Call##N##MethodV(o, m, a); va_end(a); return r; } \
  inline T vcallStatic##N(JNIEnv* e, jclass o, jmethodID m, ...) { va_list a; va_start(a, m); T r = e->CallStatic##N##MethodV(o, m, a); va_end(a); return r; }
VCALL(Boolean, jboolean) VCALL(Byte, jbyte) VCALL(Char, jchar) VCALL(Short, jshort) VCALL(Int, jint) VCALL(Long, jlong) VCALL(Float, jfloat) VCALL(Double, jdouble) VCALL(Object, jobject)
inline void vcallVoid(JNIEnv* e, jobject o, jmethodID m, ...) { va_list a; va_start(a, m); e->CallVoidMethodV(o, m, a); va_end(a); }
inline void vcallStaticVoid(JNIEnv* e, jclass o, jmethodID m, ...) { va_list a; va_start(a, m); e->CallStaticVoidMethodV(o, m, a); va_end(a); }
inline jobject vnew(JNIEnv* e, jclass c, jmethodID m, ...) { va_list a; va_start(a, m); jobject r = e->NewObjectV(c, m, a); va_end(a); return r; }
extern const int upCount;
void callUp(JNIEnv* e, int k, jobject t, jlong* v, jobject* o, int variant, int from, std::string& out);
jobject callCtor(JNIEnv* e, int k, jclass c, jlong* v, jobject* o, int variant);
