// C30, second part: the Apache module that serves pre-compressed files.  Its own source is compiled against a
// stand-in for the server (h/apache) and every listed header, path, file and answer of the server is played.
#include "apache/httpd.h"
#include <stdarg.h>
#include <memory>
#include <string>
#include <vector>
#include "runner.h"
using std::string;
extern "C" module brunsli_module;

struct apr_pool_t { std::vector<void*> mem; ~apr_pool_t() { for (void* p : mem) free(p); } };
struct apr_table_t { std::vector<std::pair<string, char*>> v; };
struct Server {
  int translate_rc = OK;
  bool no_filename = false;
  string root = "/srv/www";
  int stat_rc = APR_SUCCESS;
  apr_filetype_e type = APR_REG;
  std::vector<string> stats;
  int translates = 0;
};
static Server* S;
static std::vector<std::pair<ap_HOOK_translate_name_t*, int>> hooks;
extern "C" {
void* apr_palloc(apr_pool_t* p, apr_size_t n) { void* q = malloc(n ? n : 1); memset(q, 0xa7, n); p->mem.push_back(q); return q; }
void* apr_pcalloc(apr_pool_t* p, apr_size_t n) { void* q = apr_palloc(p, n); memset(q, 0, n); return q; }
char* apr_pstrdup(apr_pool_t* p, const char* s) {
  if (!s) return nullptr;
  char* q = (char*)apr_palloc(p, strlen(s) + 1);
  strcpy(q, s);
  return q;
}
char* apr_pstrndup(apr_pool_t* p, const char* s, apr_size_t n) {
  if (!s) return nullptr;
  n = strnlen(s, n);
  char* q = (char*)apr_palloc(p, n + 1);
  memcpy(q, s, n);
  q[n] = 0;
  return q;
}
char* apr_pstrcat(apr_pool_t* p, ...) {
  string t;
  va_list ap;
  va_start(ap, p);
  while (const char* s = va_arg(ap, const char*)) t += s;
  va_end(ap);
  return apr_pstrdup(p, t.c_str());
}
char* apr_psprintf(apr_pool_t* p, const char* f, ...) {
  char* t = nullptr;
  va_list ap;
  va_start(ap, f);
  if (vasprintf(&t, f, ap) < 0) abort();
  va_end(ap);
  char* q = apr_pstrdup(p, t);
  free(t);
  return q;
}
char* apr_strtok(char* s, const char* sep, char** last) {
  if (!s) s = *last;
  while (*s && strchr(sep, *s)) ++s;
  if (!*s) return nullptr;
  *last = s + 1;
  while (**last && !strchr(sep, **last)) ++*last;
  if (**last) { **last = 0; ++*last; }
  return s;
}
char* apr_collapse_spaces(char* d, const char* s) {
  char* start = d;
  while (*s) { if (!apr_isspace(*s)) *d++ = *s; ++s; }
  *d = 0;
  return start;
}
const char* apr_table_get(const apr_table_t* t, const char* k) {
  for (auto& e : t->v) if (!strcasecmp(e.first.c_str(), k)) return e.second;
  return nullptr;
}
void apr_table_set(apr_table_t* t, const char* k, const char* v) {
  for (auto& e : t->v) if (!strcasecmp(e.first.c_str(), k)) { e.second = strdup(v); return; }
  t->v.push_back({k, strdup(v)});
}
void apr_table_setn(apr_table_t* t, const char* k, const char* v) { apr_table_set(t, k, v); }
void apr_table_add(apr_table_t* t, const char* k, const char* v) { t->v.push_back({k, strdup(v)}); }
void apr_table_addn(apr_table_t* t, const char* k, const char* v) { apr_table_add(t, k, v); }
void apr_table_merge(apr_table_t* t, const char* k, const char* v) {
  const char* o = apr_table_get(t, k);
  apr_table_set(t, k, o ? (string(o) + ", " + v).c_str() : v);
}
void apr_table_mergen(apr_table_t* t, const char* k, const char* v) { apr_table_merge(t, k, v); }
void apr_table_unset(apr_table_t* t, const char* k) {
  for (size_t i = 0; i < t->v.size();) if (!strcasecmp(t->v[i].first.c_str(), k)) t->v.erase(t->v.begin() + i); else ++i;
}
int ap_cstr_casecmp(const char* a, const char* b) { return strcasecmp(a, b); }
int ap_cstr_casecmpn(const char* a, const char* b, apr_size_t n) { return strncasecmp(a, b, n); }
apr_status_t apr_stat(apr_finfo_t* f, const char* name, apr_int32_t wanted, apr_pool_t* p) {
  S->stats.push_back(name);
  if (S->stat_rc != APR_SUCCESS && S->stat_rc != APR_INCOMPLETE) return S->stat_rc;  // nothing is filled in
  f->pool = p;
  f->fname = name;
  f->valid = wanted;
  if (wanted & APR_FINFO_TYPE) f->filetype = S->type;
  f->size = 1000;
  f->mtime = 7;
  return S->stat_rc;
}
int ap_core_translate(request_rec* r) {
  ++S->translates;
  if (S->translate_rc != OK) return S->translate_rc;
  r->filename = S->no_filename ? nullptr : apr_pstrdup(r->pool, (S->root + r->uri).c_str());
  return OK;
}
void ap_set_content_type(request_rec* r, const char* t) { r->content_type = t; }
void ap_hook_translate_name(ap_HOOK_translate_name_t* f, const char* const*, const char* const*, int order) { hooks.push_back({f, order}); }
}

struct Play {
  bool has_accept = true;
  string accept, header = "Accept", uri = "/a.jpg";
  int translate_rc = OK, stat_rc = APR_SUCCESS;
  bool no_filename = false;
  apr_filetype_e type = APR_REG;
};
// 1: image/x-j is among the media ranges, 0: it is not, -1: not a list of media ranges, or depends on letter case
static int Accepts(const string& a) {
  int result = 0;
  size_t i = 0;
  while (true) {
    size_t e = std::min(a.find(',', i), a.size());
    string t = a.substr(i, e - i);
    if (t.find_first_not_of(" \t") != string::npos && t[t.find_first_not_of(" \t")] == ';') result = result == 1 ? 1 : -1;  // parameters of nothing
    t = t.substr(0, t.find(';'));
    while (!t.empty() && (t[0] == ' ' || t[0] == '\t')) t.erase(0, 1);
    while (!t.empty() && (t.back() == ' ' || t.back() == '\t')) t.pop_back();
    if (t == "image/x-j") return 1;
    if (t.find_first_of(" \t") != string::npos) result = -1;
    if (!strcasecmp(t.c_str(), "image/x-j")) result = -1;
    if (e == a.size()) return result;
    i = e + 1;
  }
}
static void Go(vf::Case& c, const Play& p, int served, int declined, int free_) {
  Server s;
  S = &s;
  s.translate_rc = p.translate_rc;
  s.stat_rc = p.stat_rc;
  s.no_filename = p.no_filename;
  s.type = p.type;
  hooks.clear();
  apr_pool_t pool;
  brunsli_module.register_hooks(&pool);
  string show = vf::Fmt("%s%s%s%s, %s, translation %d%s, stat %d, type %d", p.header.c_str(), p.has_accept ? ": \"" : " missing", p.accept.c_str(), p.has_accept ? "\"" : "", p.uri.c_str(), p.translate_rc,
                        p.no_filename ? " without a name" : "", p.stat_rc, (int)p.type);
#define BAD(k, ...) do { c.Fail(k, show + ": " + vf::Fmt(__VA_ARGS__)); return; } while (0)
  if (hooks.size() != 1 || hooks[0].second >= APR_HOOK_REALLY_LAST) BAD("hooks", "%d hooks, the first of order %d", (int)hooks.size(), hooks.empty() ? 0 : hooks[0].second);
  apr_table_t in, out, err, notes;
  char* own = nullptr;
  if (p.has_accept) {
    own = (char*)malloc(p.accept.size() + 1);
    strcpy(own, p.accept.c_str());
    in.v.push_back({p.header, own});
  }
  std::unique_ptr<char, void (*)(void*)> hold(own, free);
  request_rec r;
  memset(&r, 0, sizeof r);
  r.pool = &pool;
  r.method = "GET";
  r.headers_in = &in;
  r.headers_out = &out;
  r.err_headers_out = &err;
  r.notes = &notes;
  r.uri = apr_pstrdup(&pool, p.uri.c_str());
  r.unparsed_uri = r.uri;
  int rc = hooks[0].first(&r);
  if (own && p.accept != own) BAD("header-changed", "the header was changed to \"%s\"", own);
  string name = s.root + p.uri;
  for (auto& f : s.stats) if (f != name + ".j") BAD("path", "looks at \"%s\"", f.c_str());
  bool marked = r.content_type != nullptr, renamed = r.filename && string(r.filename) != name;
  bool given = rc == OK && marked && renamed;
  int client = p.has_accept && !strcasecmp(p.header.c_str(), "Accept") ? Accepts(p.accept) : 0;
  c.nontrivial = !s.stats.empty() || client == 1;
  if (rc == OK) {
    if (!given || strcmp(r.content_type, "image/x-j") || string(r.filename) != name + ".j") BAD("served", "taken, but the file is \"%s\", the type \"%s\"", r.filename ? r.filename : "none", r.content_type ? r.content_type : "none");
    c.Count(served);
  } else {
    if (marked || renamed) BAD("declined", "declined, but the file is \"%s\", the type \"%s\"", r.filename ? r.filename : "none", r.content_type ? r.content_type : "none");
    if (rc != DECLINED && rc != p.translate_rc) BAD("result", "returns %d", rc);
    c.Count(declined);
  }
  if (client < 0) { c.Count(free_); return; }
  bool no = client == 0 || p.translate_rc != OK || p.no_filename || (p.stat_rc != APR_SUCCESS && p.stat_rc != APR_INCOMPLETE) || p.type == APR_NOFILE || p.type == APR_DIR;
  bool yes = !no && p.stat_rc == APR_SUCCESS && p.type == APR_REG;
  if (no && rc == OK) BAD("unasked", "served although %s", client == 0 ? "the client does not accept the type" : "there is no file to serve");
  if (yes && rc != OK) BAD("not-served", "returns %d", rc);
  if (client == 0 && rc != DECLINED) BAD("result", "returns %d to a client that does not accept the type", rc);
#undef BAD
}

int main(int argc, char** argv) {
  vf::Runner r("C30", argc, argv);
  bool deep = r.thorough();
  int served = r.Counter("served"), declined = r.Counter("declined"), free_ = r.Counter("malformed_header");
  r.rule = "every listed combination of Accept header, path, kind of file and answer of the server is played through the Apache module; non-trivial: the client accepts the type or the module looked for the file";
  r.assumptions = {"the server is the stand-in in h/apache, written from the documented interface of Apache and APR; Apache itself is not installed"};
  static const char* const kUris[] = {"/a.jpg", "/", "/dir/", "/a", "/x/y.z/b.jpeg", "/a.jpg.j", "/100%25 %s.jpg", "/a.j", ""};
  static const char* const kAccepts[] = {nullptr, "", "image/x-j", "*/*", "text/html, image/x-j, */*", "image/x-jng", "image/jpeg", "image/x-j;q=0.5", ";", ",", "image/x-j\t"};
  static const char* const kHeaders[] = {"Accept", "accept", "Accept-Encoding"};
  static const int kTr[] = {OK, DECLINED, HTTP_BAD_REQUEST, HTTP_FORBIDDEN, HTTP_INTERNAL_SERVER_ERROR};
  static const int kStat[] = {APR_SUCCESS, APR_INCOMPLETE, ENOENT, ENOTDIR, EACCES, ENAMETOOLONG, EIO};
  static const apr_filetype_e kTypes[] = {APR_REG, APR_DIR, APR_NOFILE, APR_CHR, APR_BLK, APR_PIPE, APR_LNK, APR_SOCK, APR_UNKFILE};
  r.Add("apache-requests", 11 * 3 * 9 * 5 * 2 * 7 * 9, [=](vf::Case& c) {
    vf::Radix x(c.index);
    Play p;
    const char* a = kAccepts[x(11)];
    p.has_accept = a;
    if (a) p.accept = a;
    p.header = kHeaders[x(3)];
    p.uri = kUris[x(9)];
    p.translate_rc = kTr[x(5)];
    p.no_filename = x(2);
    p.stat_rc = kStat[x(7)];
    p.type = kTypes[x(9)];
    Go(c, p, served, declined, free_);
    c.hash = c.index;
  });
  static const char* const kItems[] = {"image/x-j", "IMAGE/X-J", "image/x-jng", "ximage/x-j", "image/x", "image/x-", "image/*", "*/*", "text/html", "image/x-j;q=0.5", "image/x-j ;q=1", "image/x-j;a=b;q=1", "image/x-jpeg;q=0.9", "application/xml;q=0.9", "image/x-j/x", "image/image/x-j", ";q=1"};
  static const char* const kSeps[] = {",", ", ", " ,", "\t,\t", ",,"};
  const int N = 17, SEP = 5, L = deep ? 4 : 3;
  uint64_t n = 0, k = 1;
  for (int l = 1; l <= L; ++l) { k *= N; n += k * SEP; }
  r.Add("apache-accept", n * 2, [=](vf::Case& c) {
    uint64_t i = c.index / 2, k = N;
    int l = 1;
    while (i >= k * SEP) { i -= k * SEP; k *= N; ++l; }
    vf::Radix x(i);
    int sep = (int)x(SEP);
    Play p;
    for (int j = 0; j < l; ++j) p.accept += string(j ? kSeps[sep] : "") + kItems[x(N)];
    if (c.index & 1) p.accept = " " + p.accept + " ";
    Go(c, p, served, declined, free_);
    c.hash = vf::Fnv(p.accept);
  });
  static const char* const kBits[] = {"image/x-j", "i", ",", ";", " ", "x", "\t", "/"};
  const int D = deep ? 7 : 6;
  uint64_t m = 0;
  k = 1;
  for (int l = 0; l <= D; ++l) { m += k; k *= 8; }
  r.Add("apache-accept-strings", m, [=](vf::Case& c) {
    uint64_t i = c.index, k = 1;
    int l = 0;
    while (i >= k) { i -= k; k *= 8; ++l; }
    Play p;
    for (int j = 0; j < l; ++j) { p.accept += kBits[i % 8]; i /= 8; }
    Go(c, p, served, declined, free_);
    c.hash = vf::Fnv(p.accept);
  });
  return r.Main();
}
