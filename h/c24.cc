// C24: the command-line tools under I/O failures.  The tool's source is linked
// in with its main() renamed; every C library call it makes on files goes
// through the wrappers below (also those made inside libstdc++, which is linked
// statically).  Each run happens in a child process in a scratch directory.
#include <fcntl.h>
#include <memory>
#include <stdarg.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include "corpus.h"
#include "families.h"
#include "stock_icc.h"
#include "stream.h"
using codec::Bytes;
#ifndef TOOL_DECODES
#define TOOL_DECODES 0
#endif
int tool_main(int argc, char** argv);
namespace inj {
enum Kind { kOpen, kSeek, kTell, kRead, kWrite, kClose, kFlush, kStat, kOther };
struct Fault { int at = -1; int mode = 0; bool sticky = false; };
struct Plan { Fault f[2]; };
static bool active = false;
static Plan plan;
struct Log { int calls; bool failed; uint8_t kind[400]; uint8_t big[400]; };
static Log* plog;  // shared with the parent
static int Modes(int kind, bool big) { return kind == kRead || kind == kWrite ? (big ? 4 : 1) : kind == kClose ? 2 : 1; }
// -1: no fault for this call, otherwise the mode
static int Enter(Kind k, bool big = false) {
  if (!active) return -1;
  int i = plog->calls++;
  if (i < 400) { plog->kind[i] = k; plog->big[i] = big; }
  for (auto& f : plan.f) if (f.at >= 0 && (f.at == i || (f.sticky && i > f.at && i < 400 && plog->kind[i] == plog->kind[f.at]))) return f.mode;
  return -1;
}
static void Failed() { plog->failed = true; }
static size_t Short(int mode, size_t n) { return mode == 1 ? 1 : mode == 2 ? n / 2 : n - 1; }
}  // namespace inj
extern "C" {
#define REAL(ret, name, args) ret __real_##name args; ret __wrap_##name args
REAL(FILE*, fopen, (const char* p, const char* m)) { if (inj::Enter(inj::kOpen) >= 0) { inj::Failed(); errno = EACCES; return nullptr; } return __real_fopen(p, m); }
REAL(FILE*, fopen64, (const char* p, const char* m)) { if (inj::Enter(inj::kOpen) >= 0) { inj::Failed(); errno = EACCES; return nullptr; } return __real_fopen64(p, m); }
REAL(int, fseek, (FILE* f, long o, int w)) { if (inj::Enter(inj::kSeek) >= 0) { inj::Failed(); errno = EIO; return -1; } return __real_fseek(f, o, w); }
REAL(int, fseeko, (FILE* f, off_t o, int w)) { if (inj::Enter(inj::kSeek) >= 0) { inj::Failed(); errno = EIO; return -1; } return __real_fseeko(f, o, w); }
REAL(int, fseeko64, (FILE* f, off_t o, int w)) { if (inj::Enter(inj::kSeek) >= 0) { inj::Failed(); errno = EIO; return -1; } return __real_fseeko64(f, o, w); }
REAL(long, ftell, (FILE* f)) { if (inj::Enter(inj::kTell) >= 0) { inj::Failed(); errno = EIO; return -1; } return __real_ftell(f); }
REAL(off_t, ftello, (FILE* f)) { if (inj::Enter(inj::kTell) >= 0) { inj::Failed(); errno = EIO; return -1; } return __real_ftello(f); }
REAL(off_t, ftello64, (FILE* f)) { if (inj::Enter(inj::kTell) >= 0) { inj::Failed(); errno = EIO; return -1; } return __real_ftello64(f); }
REAL(size_t, fread, (void* p, size_t s, size_t n, FILE* f)) {
  int m = inj::Enter(inj::kRead, n > 3);
  if (m == 0) { inj::Failed(); errno = EIO; return 0; }
  if (m > 0) n = inj::Short(m, n);
  return __real_fread(p, s, n, f);
}
REAL(size_t, fwrite, (const void* p, size_t s, size_t n, FILE* f)) {
  if (f == stderr || f == stdout) return __real_fwrite(p, s, n, f);
  int m = inj::Enter(inj::kWrite, n > 3);
  if (m == 0) { inj::Failed(); errno = ENOSPC; return 0; }
  if (m > 0) n = inj::Short(m, n);
  return __real_fwrite(p, s, n, f);
}
REAL(int, fclose, (FILE* f)) {
  int m = inj::Enter(inj::kClose);
  if (m == 0) {  // buffered bytes are lost
    inj::Failed();
    int fd = fileno(f);
    __real_fclose(f);
    errno = ENOSPC;
    return EOF;
  }
  if (m == 1) { inj::Failed(); int fd = dup(fileno(f)); __real_fclose(f); off_t n = lseek(fd, 0, SEEK_END); if (n > 0 && (fcntl(fd, F_GETFL) & O_ACCMODE) != O_RDONLY) ftruncate(fd, n / 2); close(fd); errno = EIO; return EOF; }
  return __real_fclose(f);
}
REAL(int, fflush, (FILE* f)) { if (f == stderr || f == stdout || !f) return __real_fflush(f); if (inj::Enter(inj::kFlush) >= 0) { inj::Failed(); errno = ENOSPC; return EOF; } return __real_fflush(f); }
REAL(ssize_t, read, (int fd, void* p, size_t n)) {
  int m = inj::Enter(inj::kRead, n > 3);
  if (m == 0) { inj::Failed(); errno = EIO; return -1; }
  if (m > 0) n = inj::Short(m, n);
  return __real_read(fd, p, n);
}
REAL(ssize_t, write, (int fd, const void* p, size_t n)) {
  if (fd == 1 || fd == 2) return __real_write(fd, p, n);
  int m = inj::Enter(inj::kWrite, n > 3);
  if (m == 0) { inj::Failed(); errno = ENOSPC; return -1; }
  if (m > 0) n = inj::Short(m, n);
  return __real_write(fd, p, n);
}
REAL(ssize_t, writev, (int fd, const struct iovec* v, int k)) {
  if (fd == 1 || fd == 2) return __real_writev(fd, v, k);
  int m = inj::Enter(inj::kWrite, false);
  if (m >= 0) { inj::Failed(); errno = ENOSPC; return -1; }
  return __real_writev(fd, v, k);
}
REAL(int, fstat, (int fd, struct stat* s)) { if (inj::Enter(inj::kStat) >= 0) { inj::Failed(); errno = EIO; return -1; } return __real_fstat(fd, s); }
REAL(int, stat, (const char* p, struct stat* s)) { if (inj::Enter(inj::kStat) >= 0) { inj::Failed(); errno = EIO; return -1; } return __real_stat(p, s); }
REAL(int, rename, (const char* a, const char* b)) { if (inj::Enter(inj::kOther) >= 0) { inj::Failed(); errno = EIO; return -1; } return __real_rename(a, b); }
REAL(int, fsync, (int fd)) { if (inj::Enter(inj::kFlush) >= 0) { inj::Failed(); errno = EIO; return -1; } return __real_fsync(fd); }
}
namespace {
const char* KindName(int k) { static const char* n[] = {"open", "seek", "tell", "read", "write", "close", "flush", "stat", "other"}; return n[k]; }
bool Get(const std::string& p, Bytes* b) {
  int fd = open(p.c_str(), O_RDONLY);
  if (fd < 0) return false;
  b->clear();
  char t[65536];
  ssize_t n;
  while ((n = __real_read(fd, t, sizeof t)) > 0) b->append(t, n);
  close(fd);
  return n == 0;
}
void Put(const std::string& p, const Bytes& b) {
  int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd < 0 || __real_write(fd, b.data(), b.size()) != (ssize_t)b.size()) { perror("scratch"); _exit(2); }
  close(fd);
}
struct Outcome { int exit = -1; int signal = 0; bool timeout = false; Bytes out; bool has_out = false; inj::Log log; };
struct Dir {
  char t[32] = "toolXXXXXX";
  Dir() { if (!mkdtemp(t)) { perror("mkdtemp"); _exit(2); } }
  std::string P(const std::string& n) const { return std::string(t) + "/" + n; }
  ~Dir() { for (const char* n : {"in", "out", "in.brn", "in.jpg", "sub/x"}) unlink(P(n).c_str()); rmdir(P("sub").c_str()); rmdir(P("in").c_str()); rmdir(P("out").c_str()); rmdir(t); }
};
inj::Log* g_log;
Outcome Run(const Dir& d, const std::vector<std::string>& args, const std::string& outname, const inj::Plan& plan) {
  Outcome o;
  static pid_t owner = 0;
  if (owner != getpid()) {  // shared with the children of this worker only
    owner = getpid();
    g_log = (inj::Log*)mmap(nullptr, sizeof(inj::Log), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  }
  memset(g_log, 0, sizeof *g_log);
  pid_t pid = fork();
  if (!pid) {
    signal(SIGABRT, SIG_DFL);
    signal(SIGSEGV, SIG_DFL);
    struct rlimit nocore = {0, 0};
    setrlimit(RLIMIT_CORE, &nocore);
    if (chdir(d.t)) _exit(99);
    int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 2);
    dup2(nul, 1);
    alarm(60);
    std::vector<char*> av;
    for (auto& a : args) av.push_back((char*)a.c_str());
    av.push_back(nullptr);
    inj::plan = plan;
    inj::plog = g_log;
    inj::active = true;
    int rc = tool_main((int)args.size(), av.data());
    inj::active = false;
    exit(rc);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  if (WIFEXITED(st)) o.exit = WEXITSTATUS(st);
  if (WIFSIGNALED(st)) o.signal = WTERMSIG(st);
  o.log = *g_log;
  if (!outname.empty()) o.has_out = Get(d.P(outname), &o.out);
  return o;
}
struct Input { std::string name; Bytes data; bool ok; Bytes want; };
}  // namespace
int main(int argc, char** argv) {
  vf::Runner r("C24", argc, argv);
  bool deep = r.thorough();
  int runs = r.Counter("runs"), points = r.Counter("fault_points", true), recovered = r.Counter("short_transfers_completed"), reported = r.Counter("failures_reported");
  r.rule = "every C library file operation of the tool's run, numbered, is made to fail in every listed way (once, and from then on), and all pairs of such faults on small inputs; after each run the exit status, signals and the output file are checked; non-trivial: the fault was reached";
  const std::string tool = TOOL_DECODES ? "dbrunsli" : "cbrunsli";
  auto inputs = std::make_shared<std::vector<Input>>();
  auto add = [&](const std::string& n, const Bytes& b) {
    Input i{n, b, false, ""};
    if (TOOL_DECODES) i.ok = codec::Decode(b, &i.want) == 0;
    else { brunsli::JPEGData j; i.ok = codec::Read(b, &j) && codec::Encode(j, &i.want); }
    if (b.empty()) i.ok = false;
    inputs->push_back(i);
  };
  auto corp = corpus::Load();
  Bytes bigd(300000, 0);
  for (size_t i = 0; i < bigd.size(); ++i) bigd[i] = (char)(i * 7919 >> 5);
  Bytes bigw(bigd.size() + 64, 0);
  size_t bn = bigw.size();
  brunsli::BrunsliEncodeJpegBypass(codec::U8(bigd), bigd.size(), (uint8_t*)&bigw[0], &bn);
  bigw.resize(bn);
  Bytes bigj = corp[0].jpg + bigd;  // a long tail
  size_t k = 0;
  for (auto& e : corp) if (k++ % 6 == 0 || e.kind) { if (TOOL_DECODES || !e.kind) add(e.name, TOOL_DECODES ? e.brn : e.jpg); }
  if (TOOL_DECODES) { add("long fallback", bigw); brunsli::JPEGData j; Bytes b; if (codec::Read(bigj, &j) && codec::Encode(j, &b)) add("long tail", b); }
  else add("long tail", bigj);
  size_t good = inputs->size();
  const Bytes& base = TOOL_DECODES ? corp[0].brn : corp[0].jpg;
  for (size_t cut : {(size_t)1, (size_t)3, base.size() / 2, base.size() - 1}) add(vf::Fmt("cut to %zu", cut), base.substr(0, cut));
  add("empty", "");
  add("one byte", Bytes(1, (char)0xff));
  add("text", "hello, world\n");
  for (size_t at = 2; at < base.size(); at += 1 + base.size() / 12) { Bytes b = base; b[at] ^= 0x55; add(vf::Fmt("byte %zu damaged", at), b); }
  std::string def = TOOL_DECODES ? "in.jpg" : "in.brn";
  auto judge = [=](vf::Case& c, const std::string& what, const Outcome& o, bool ok, const Bytes& want) {
    c.Count(runs);
    if (o.signal) return c.Fail("crash", vf::Fmt("%s: %s dies of signal %d", what.c_str(), tool.c_str(), o.signal));
    if (o.exit == 0) {
      if (!ok) return c.Fail("false-success", what + ": success reported for an input that cannot be processed");
      if (o.log.failed) return c.Fail("false-success", what + ": success reported although an operation failed");
      if (!o.has_out) return c.Fail("false-success", what + ": success reported without an output file");
      if (o.out != want) return c.Fail("output", vf::Fmt("%s: success reported, but the output has %zu bytes instead of %zu, first difference at %zu", what.c_str(), o.out.size(), want.size(), codec::FirstDiff(o.out, want)));
    }
  };
  // without faults
  r.Add("plain", inputs->size() * 2, [=](vf::Case& c) {
    auto& in = (*inputs)[c.index / 2];
    Dir d;
    Put(d.P("in"), in.data);
    std::vector<std::string> a = {tool, "in"};
    if (c.index & 1) a.push_back("out");
    Outcome o = Run(d, a, (c.index & 1) ? "out" : def, inj::Plan());
    c.nontrivial = true;
    c.hash = c.index;
    judge(c, in.name, o, in.ok, in.want);
    if (in.ok && o.exit != 0 && !c.failed) c.Fail("false-failure", vf::Fmt("%s: exit status %d although nothing failed", in.name.c_str(), o.exit));
    Bytes still;
    if (!c.failed && (!Get(d.P("in"), &still) || still != in.data)) c.Fail("input-changed", in.name + ": the input file was changed");
  });
  // every single fault
  r.Add("one-fault", inputs->size() * 60 * 4 * 2, [=](vf::Case& c) {
    vf::Radix x(c.index);
    bool sticky = x(2);
    int mode = (int)x(4), at = (int)x(60);
    auto& in = (*inputs)[x(inputs->size())];
    Dir d;
    static thread_local const Input* last = nullptr;
    static thread_local int last_calls = 0;
    static thread_local inj::Log last_log;
    Put(d.P("in"), in.data);
    if (last != &in) {
      Dir d2;
      Put(d2.P("in"), in.data);
      Outcome o = Run(d2, {tool, "in", "out"}, "out", inj::Plan());
      last = &in;
      last_calls = o.log.calls;
      last_log = o.log;
    }
    if (at >= last_calls) return;
    if (mode >= inj::Modes(last_log.kind[at], last_log.big[at])) return;
    c.Max(points, last_calls);
    inj::Plan p;
    p.f[0].at = at;
    p.f[0].mode = mode;
    p.f[0].sticky = sticky;
    Outcome o = Run(d, {tool, "in", "out"}, "out", p);
    c.nontrivial = true;
    c.hash = c.index;
    std::string w = vf::Fmt("%s, operation %d (%s) fails in way %d%s", in.name.c_str(), at, KindName(last_log.kind[at]), mode, sticky ? " and so do later ones" : "");
    judge(c, w, o, in.ok, in.want);
    if (o.exit == 0) c.Count(recovered);
    else c.Count(reported);
    Bytes still;
    if (!c.failed && (!Get(d.P("in"), &still) || still != in.data)) c.Fail("input-changed", w + ": the input file was changed");
  }, nullptr, 120);
  // all pairs of faults
  {
    std::vector<size_t> pick = {0, good - 1};
    if (deep) { pick.clear(); for (size_t i = 0; i < inputs->size(); ++i) pick.push_back(i); }
    auto ps = std::make_shared<std::vector<size_t>>(pick);
    r.Add("two-faults", ps->size() * 14 * 14 * 4 * 4, [=](vf::Case& c) {
      vf::Radix x(c.index);
      inj::Plan p;
      p.f[0].mode = x(4);
      p.f[1].mode = x(4);
      p.f[0].at = x(14);
      p.f[1].at = x(14);
      if (p.f[0].at >= p.f[1].at) return;
      auto& in = (*inputs)[(*ps)[x(ps->size())]];
      static thread_local const Input* last = nullptr;
      static thread_local inj::Log ll;
      if (last != &in) { Dir d2; Put(d2.P("in"), in.data); ll = Run(d2, {tool, "in", "out"}, "out", inj::Plan()).log; last = &in; }
      // (after a short transfer there are further operations, so only the first is checked against the plain run)
      if (p.f[0].at >= ll.calls || p.f[0].mode >= inj::Modes(ll.kind[p.f[0].at], ll.big[p.f[0].at]) || p.f[1].at > ll.calls + 3) return;
      Dir d;
      Put(d.P("in"), in.data);
      Outcome o = Run(d, {tool, "in", "out"}, "out", p);
      c.nontrivial = o.log.calls > p.f[1].at;
      c.hash = c.index + 1234567;
      judge(c, vf::Fmt("%s, operations %d and %d fail in ways %d and %d", in.name.c_str(), p.f[0].at, p.f[1].at, p.f[0].mode, p.f[1].mode), o, in.ok, in.want);
    }, nullptr, 120);
  }
  // argument forms and special files
  r.Add("arguments", 16, [=](vf::Case& c) {
    Dir d;
    auto& in = (*inputs)[0];
    c.nontrivial = true;
    c.hash = c.index + 7654321;
    std::vector<std::string> a = {tool};
    bool ok = false;
    std::string outname = "out", w;
    if (c.index != 3 && c.index != 4) Put(d.P("in"), in.data);
    switch (c.index) {
      case 0: w = "no arguments"; break;
      case 1: a = {tool, "in", "out", "x"}; w = "too many arguments"; break;
      case 2: a = {tool, "", "out"}; w = "empty input name"; break;
      case 3: a = {tool, "in", "out"}; w = "missing input"; break;
      case 4: a = {tool, "in", "out"}; mkdir(d.P("in").c_str(), 0755); w = "input is a directory"; break;
      case 5: a = {tool, "in", "nosuch/out"}; outname = "nosuch/out"; w = "missing output directory"; break;
      case 6: a = {tool, "in", "out"}; mkdir(d.P("out").c_str(), 0755); w = "output is a directory"; break;
      case 7: a = {tool, "in", "/dev/full"}; outname = "/dev/full"; w = "output device full"; break;
      case 8: a = {tool, "in", "in"}; outname = "in"; ok = true; w = "output over the input"; break;
      case 9: a = {tool, "in", "out"}; Put(d.P("out"), Bytes(in.want.size() + 5000, 'x')); ok = true; w = "longer output file exists"; break;
      case 10: a = {tool, "in", ""}; w = "empty output name"; break;
      case 11: a = {tool, "./in", "./out"}; ok = true; w = "relative names"; break;
      case 12: a = {tool, "in"}; outname = def; ok = true; w = "default output name"; break;
      case 13: a = {tool, "/dev/null", "out"}; w = "input /dev/null"; break;
      case 14: a = {tool, "in", "/dev/null"}; outname = ""; w = "output /dev/null"; break;
      case 15: a = {tool, "in/", "out"}; w = "input name with a slash"; break;
    }
    Outcome o = Run(d, a, c.index == 7 ? "" : outname, inj::Plan());
    if (c.index == 14) { if (o.signal) c.Fail("crash", w); return; }
    judge(c, w, o, ok, in.want);
    if (ok && o.exit != 0 && !c.failed) c.Fail("false-failure", vf::Fmt("%s: exit status %d", w.c_str(), o.exit));
  });
  // an input whose size does not fit into 32 bits: a valid file and 4 GiB of zeros after it
  if (TOOL_DECODES) {
    r.Add("huge", 1, [=](vf::Case& c) {
      Dir d;
      auto& in = (*inputs)[0];
      Put(d.P("in"), in.data);
      c.nontrivial = true;
      if (truncate(d.P("in").c_str(), ((off_t)1 << 32) + (off_t)in.data.size())) return;  // the file system cannot do it
      Outcome o = Run(d, {tool, "in", "out"}, "out", inj::Plan());
      if (o.exit == 0) c.Fail("false-success", "success reported for a stream followed by 4 GiB of zeros");
    }, nullptr, 200);
  }
  return r.Main();
}
