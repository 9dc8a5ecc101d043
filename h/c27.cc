// C27: the C entry points and the Java native bindings against the C++ interface.
#include <jni.h>
#include <brunsli/decode.h>
#include <brunsli/encode.h>
#include <sys/stat.h>
#include "corpus.h"
#include "families.h"
#include "stock_icc.h"
#include "stream.h"
using codec::Bytes;
extern "C" {
JNIEXPORT jbyteArray JNICALL Java_dev_brunsli_wrapper_CodecJNI_nativeDecode(JNIEnv*, jobject, jobject);
JNIEXPORT jbyteArray JNICALL Java_dev_brunsli_wrapper_CodecJNI_nativeEncode(JNIEnv*, jobject, jobject);
JNIEXPORT jint JNI_OnLoad(JavaVM* vm, void* reserved);
}
namespace {
// A Java virtual machine reduced to what direct buffers and byte arrays need.
struct Array { Bytes data; bool filled = false; };
struct Env {
  JNIEnv_ env;
  JNINativeInterface_ fn;
  void* address = nullptr;   // of the direct buffer
  jlong capacity = 0;
  bool no_array = false;     // NewByteArray fails
  std::string wrong;
  Array* made = nullptr;
  int arrays = 0;
  // registration
  std::string cls;
  bool no_class = false;
  jint reg_result = 0, getenv_result = JNI_OK;
  std::vector<std::string> names, sigs;
  std::vector<void*> fns;
};
Env* E(JNIEnv* e) { return (Env*)e; }
void* GetAddr(JNIEnv* e, jobject o) { if (o != (jobject)0x1234) E(e)->wrong = "asked for another object"; return E(e)->address; }
jlong GetCap(JNIEnv* e, jobject o) { if (o != (jobject)0x1234) E(e)->wrong = "asked for another object"; return E(e)->capacity; }
jbyteArray NewArr(JNIEnv* e, jsize n) {
  if (n < 0) E(e)->wrong = "negative array size";
  if (E(e)->no_array) return nullptr;
  Array* a = new Array;
  a->data.assign(n < 0 ? 0 : n, (char)0x5a);
  E(e)->made = a;
  E(e)->arrays++;
  return (jbyteArray)a;
}
void SetReg(JNIEnv* e, jbyteArray arr, jsize at, jsize n, const jbyte* p) {
  Array* a = (Array*)arr;
  if (!a || a != E(e)->made) { E(e)->wrong = "fills an array it did not make"; return; }
  if (at < 0 || n < 0 || (size_t)at + n > a->data.size()) { E(e)->wrong = "fills outside the array"; return; }
  if (n) memcpy(&a->data[at], p, n);
}
jclass FindCls(JNIEnv* e, const char* n) { E(e)->cls = n; return E(e)->no_class ? nullptr : (jclass)0x77; }
jint Register(JNIEnv* e, jclass c, const JNINativeMethod* m, jint n) {
  if (c != (jclass)0x77) E(e)->wrong = "registers on another class";
  for (int i = 0; i < n; ++i) { E(e)->names.push_back(m[i].name); E(e)->sigs.push_back(m[i].signature); E(e)->fns.push_back(m[i].fnPtr); }
  return E(e)->reg_result;
}
void InitEnv(Env* e) {
  // everything else is a call the bindings have no business making
  memset(&e->fn, 0, sizeof e->fn);
  e->fn.GetDirectBufferAddress = GetAddr;
  e->fn.GetDirectBufferCapacity = GetCap;
  e->fn.NewByteArray = NewArr;
  e->fn.SetByteArrayRegion = SetReg;
  e->fn.FindClass = FindCls;
  e->fn.RegisterNatives = Register;
  e->fn.ExceptionCheck = [](JNIEnv*) -> jboolean { return JNI_FALSE; };
  e->fn.DeleteLocalRef = [](JNIEnv*, jobject) {};
  e->fn.GetByteArrayElements = [](JNIEnv* env, jbyteArray a, jboolean* copy) -> jbyte* { if (copy) *copy = JNI_FALSE; return (jbyte*)&((Array*)a)->data[0]; };
  e->fn.ReleaseByteArrayElements = [](JNIEnv*, jbyteArray, jbyte*, jint) {};
  e->fn.GetArrayLength = [](JNIEnv*, jarray a) -> jsize { return (jsize)((Array*)a)->data.size(); };
  e->env.functions = &e->fn;
}
// 1 delivered, 0 null
int Jni(bool decode, const Bytes& in, Bytes* out, std::string* wrong, bool no_array = false) {
  Env e;
  InitEnv(&e);
  codec::Exact ex(in);
  e.address = ex.p;
  e.capacity = (jlong)ex.n;
  e.no_array = no_array;
  jbyteArray a = (decode ? Java_dev_brunsli_wrapper_CodecJNI_nativeDecode : Java_dev_brunsli_wrapper_CodecJNI_nativeEncode)(&e.env, nullptr, (jobject)0x1234);
  *wrong = e.wrong;
  if (ex.n && memcmp(ex.p, in.data(), ex.n)) *wrong = "input modified";
  int rc = 0;
  if (a) {
    if ((Array*)a != e.made) { *wrong = "returned something else"; return 0; }
    *out = e.made->data;
    rc = 1;
  }
  delete e.made;
  return rc;
}
struct SinkData { Bytes got; int magic = 77; };
size_t CSink(void* d, const uint8_t* b, size_t n) {
  SinkData* s = (SinkData*)d;
  if (s->magic != 77) abort();
  s->got.append((const char*)b, n);
  return n;
}
}  // namespace
int main(int argc, char** argv) {
  vf::Runner r("C27", argc, argv);
  bool deep = r.thorough();
  int acc = r.Counter("accepted"), rej = r.Counter("refused");
  r.rule = "every corpus file, every listed damage of it and the listed JPEG families go through the C++ interface, the C entry points and the Java native functions (driven through a JNI function table that holds only what they may use), "
           "results compared byte for byte; the Java classes themselves run in a real virtual machine on the corpus and a selection of damages; non-trivial: all cases";
  auto both = [=](vf::Case& c, bool decode, const std::string& what, const Bytes& in) {
    c.nontrivial = true;
    c.hash = vf::Fnv(in) * 2 + decode;
    Bytes want;
    bool ok;
    if (decode) ok = codec::Decode(in, &want) == 0;
    else {
      brunsli::JPEGData j;
      ok = codec::Read(in, &j) && codec::Encode(j, &want);
    }
    c.Count(ok ? acc : rej);
    codec::Exact ex(in);
    SinkData s;
    int rc = decode ? DecodeBrunsli(ex.n, ex.p, &s, CSink) : EncodeBrunsli(ex.n, ex.p, &s, CSink);
    if (rc != (ok ? 1 : 0)) return c.Fail("c-status", vf::Fmt("%s: C interface returns %d, C++ interface %s", what.c_str(), rc, ok ? "succeeds" : "fails"), in);
    if (ok && s.got != want) return c.Fail("c-bytes", vf::Fmt("%s: C interface delivers %zu bytes, C++ interface %zu, first difference at %zu", what.c_str(), s.got.size(), want.size(), codec::FirstDiff(s.got, want)), in);
    if (!ok && !decode && !s.got.empty()) return c.Fail("c-output", what + ": C encoder failed but delivered bytes", in);
    Bytes jo;
    std::string wrong;
    int jr = Jni(decode, in, &jo, &wrong);
    if (!wrong.empty()) return c.Fail("jni-misuse", what + ": Java binding " + wrong, in);
    if (jr != (ok ? 1 : 0)) return c.Fail("jni-status", vf::Fmt("%s: Java binding gives %s, C++ interface %s", what.c_str(), jr ? "an array" : "null", ok ? "succeeds" : "fails"), in);
    if (ok && jo != want) return c.Fail("jni-bytes", vf::Fmt("%s: Java binding delivers %zu bytes, C++ interface %zu, first difference at %zu", what.c_str(), jo.size(), want.size(), codec::FirstDiff(jo, want)), in);
    if (Jni(decode, in, &jo, &wrong, true) || !wrong.empty()) return c.Fail("jni-noarray", what + ": Java binding without memory for the result " + wrong, in);
  };
  auto corp = std::make_shared<std::vector<corpus::Entry>>(corpus::Load());
  r.Add("corpus", corp->size() * 2, [=](vf::Case& c) {
    auto& e = (*corp)[c.index / 2];
    both(c, c.index & 1, e.name, (c.index & 1) ? e.brn : e.jpg);
  });
  auto st = std::make_shared<std::vector<uint64_t>>();
  auto which = std::make_shared<std::vector<Bytes>>();
  auto dir = std::make_shared<std::vector<bool>>();
  uint64_t n = 0;
  for (auto& e : *corp) for (int d = 0; d < 2; ++d) {
    const Bytes& b = d ? e.brn : e.jpg;
    st->push_back(n);
    which->push_back(b);
    dir->push_back(d);
    n += b.size();
  }
  auto damage = [=](uint64_t i, Bytes* b, bool* decode) {
    const int V = 9;
    uint64_t v = i / V;
    size_t k = st->size() - 1;
    while ((*st)[k] > v) --k;
    size_t at = v - (*st)[k];
    *b = (*which)[k];
    *decode = (*dir)[k];
    switch (i % V) {
      case 0: (*b)[at] ^= 1; break;
      case 1: (*b)[at] ^= 0x80; break;
      case 2: (*b)[at] = 0; break;
      case 3: (*b)[at] = (char)0xff; break;
      case 4: b->resize(at); break;
      case 5: b->erase(at, 1); break;
      case 6: b->insert(at, 1, (char)0xff); break;
      case 7: (*b)[at] += 1; break;
      case 8: b->erase(0, at); break;
    }
    return vf::Fmt("corpus file %zu%s damage %d at %zu", k / 2, *decode ? ".brn" : ".jpg", (int)(i % V), at);
  };
  r.Add("damaged", n * 9, [=](vf::Case& c) {
    Bytes b;
    bool d;
    std::string w = damage(c.index, &b, &d);
    both(c, d, w, b);
  }, nullptr, 60);
  for (auto& f : fam::All(deep, StockIcc())) {
    if (!deep && f.name != "chunk-edges" && f.name != "output-edges" && f.name != "sizes" && f.name != "sampling-factors") continue;
    auto fp = std::make_shared<fam::Family>(f);
    r.Add(f.name, f.size, [=](vf::Case& c) {
      auto m = fp->make(c.index);
      if (!m.valid) return;
      both(c, false, m.desc, m.jpg);
      if (c.failed) return;
      brunsli::JPEGData j;
      Bytes b;
      if (!codec::Read(m.jpg, &j)) return;
      j.version = (c.index & 1) ? 2 : 0;
      if (codec::Encode(j, &b)) both(c, true, m.desc + " (decoding)", b);
    }, [=](uint64_t i) { return fp->make(i).desc; }, f.limit);
  }
  // wrong arguments
  r.Add("arguments", 16, [=](vf::Case& c) {
    c.nontrivial = true;
    int i = (int)c.index;
    SinkData s;
    Env e;
    InitEnv(&e);
    auto jni = [&](bool d) { return (d ? Java_dev_brunsli_wrapper_CodecJNI_nativeDecode : Java_dev_brunsli_wrapper_CodecJNI_nativeEncode)(&e.env, nullptr, (jobject)0x1234); };
    uint8_t one = 0xff;
    bool bad = false;
    switch (i) {
      case 0: bad = DecodeBrunsli(0, nullptr, &s, CSink) != 0; break;
      case 1: bad = EncodeBrunsli(0, nullptr, &s, CSink) != 0; break;
      case 2: bad = DecodeBrunsli(0, &one, &s, CSink) != 0; break;
      case 3: bad = EncodeBrunsli(0, &one, &s, CSink) != 0; break;
      case 4: case 5: e.address = nullptr; e.capacity = 100; bad = jni(i == 4) != nullptr; break;
      case 6: case 7: e.address = &one; e.capacity = -1; bad = jni(i == 6) != nullptr; break;
      case 8: case 9: e.address = &one; e.capacity = 0; bad = jni(i == 8) != nullptr; break;
      case 10: case 11: e.address = nullptr; e.capacity = -1; bad = jni(i == 10) != nullptr; break;
      default: {
        struct Vm { JavaVM_ vm; JNIInvokeInterface_ fn; Env* e; } vm;
        memset(&vm.fn, 0, sizeof vm.fn);
        vm.e = &e;
        vm.fn.GetEnv = [](JavaVM* v, void** out, jint) -> jint { Env* q = ((Vm*)v)->e; if (q->getenv_result == JNI_OK) *out = &q->env; return q->getenv_result; };
        vm.vm.functions = &vm.fn;
        if (i == 13) e.getenv_result = JNI_EVERSION;
        if (i == 14) e.no_class = true;
        if (i == 15) e.reg_result = -3;
        jint v = JNI_OnLoad(&vm.vm, nullptr);
        if (i == 12) {
          bad = v < JNI_VERSION_1_1 || e.cls != "dev/brunsli/wrapper/CodecJNI" || e.names.size() != 2;
          for (size_t k = 0; !bad && k < 2; ++k) {
            void* want = e.names[k] == "nativeDecode" ? (void*)Java_dev_brunsli_wrapper_CodecJNI_nativeDecode : e.names[k] == "nativeEncode" ? (void*)Java_dev_brunsli_wrapper_CodecJNI_nativeEncode : nullptr;
            bad = !want || e.fns[k] != want || e.sigs[k] != "(Ljava/nio/ByteBuffer;)[B";
          }
        } else bad = v >= 0;
      }
    }
    if (!e.wrong.empty()) c.Fail("jni-misuse", vf::Fmt("argument case %d: %s", i, e.wrong.c_str()));
    if (bad) c.Fail("arguments", vf::Fmt("argument case %d handled wrongly", i));
  });
  // the Java classes in a real virtual machine
  const char* java = getenv("VERIF_JAVA");
  if (java) {
    std::string jdir = java;
    uint64_t step = deep ? 5 : 41, per = 4000, cnt = (n * 9 + step - 1) / step;
    r.Add("virtual-machine", 1 + (cnt + per - 1) / per, [=](vf::Case& c) {
      struct It { bool d; Bytes in; };
      std::vector<It> items;
      if (c.index == 0) for (auto& e : *corp) { items.push_back({true, e.brn}); items.push_back({false, e.jpg}); items.push_back({true, ""}); items.push_back({false, ""}); }
      else for (uint64_t k = (c.index - 1) * per; k < std::min(cnt, c.index * per); ++k) { It it; bool d; damage(k * step, &it.in, &d); it.d = d; items.push_back(it); }
      char t[] = "jvmXXXXXX";
      if (!mkdtemp(t)) { c.Fail("scratch", "no scratch directory"); return; }
      std::string in = std::string(t) + "/in", out = std::string(t) + "/out", log = std::string(t) + "/log";
      FILE* f = fopen(in.c_str(), "wb");
      auto put = [&](uint32_t v) { uint8_t b[4] = {(uint8_t)(v >> 24), (uint8_t)(v >> 16), (uint8_t)(v >> 8), (uint8_t)v}; fwrite(b, 1, 4, f); };
      put(items.size());
      for (auto& it : items) { put(it.d); put(it.in.size()); fwrite(it.in.data(), 1, it.in.size(), f); }
      fclose(f);
      std::string cmd = "java -Xshare:auto -Xmx512m -XX:+UseSerialGC -XX:TieredStopAtLevel=1 -cp " + jdir + " dev.brunsli.wrapper.Driver " + jdir + "/libcodec.so " + in + " " + out + " > " + log + " 2>&1";
      int rc = system(cmd.c_str());
      Bytes res;
      if ((f = fopen(out.c_str(), "rb"))) { char b[65536]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) res.append(b, k); fclose(f); }
      Bytes lg;
      if ((f = fopen(log.c_str(), "rb"))) { char b[3000]; size_t k = fread(b, 1, sizeof b, f); lg.assign(b, k); fclose(f); }
      unlink(in.c_str()); unlink(out.c_str()); unlink(log.c_str()); rmdir(t);
      if (rc) { c.Fail("vm", vf::Fmt("virtual machine ended with %d: %s", rc, lg.c_str())); return; }
      size_t at = 0;
      auto get = [&]() { uint32_t v = 0; for (int i = 0; i < 4; ++i) v = v << 8 | (at < res.size() ? (uint8_t)res[at] : 0), ++at; return v; };
      c.nontrivial = true;
      c.hash = c.index;
      for (size_t k = 0; k < items.size(); ++k) for (int way = 0; way < 2; ++way) {
        uint32_t status = get(), len = get();
        Bytes got = at <= res.size() ? res.substr(at, len) : "";
        at += len;
        Bytes want;
        bool ok;
        if (items[k].d) ok = codec::Decode(items[k].in, &want) == 0;
        else { brunsli::JPEGData j; ok = codec::Read(items[k].in, &j) && codec::Encode(j, &want); }
        c.Count(ok ? acc : rej);
        if (status != (ok ? 1u : 2u) || (ok && got != want)) { c.Fail("java", vf::Fmt("%s in Java (%s): result %u, %zu bytes; C++ %s, %zu bytes", items[k].d ? "decoding" : "encoding", way ? "byte array" : "direct buffer", status, got.size(), ok ? "succeeds" : "fails", want.size()), items[k].in); return; }
      }
    }, nullptr, 300);
  }
  return r.Main();
}
