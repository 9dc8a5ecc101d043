// C30: the nginx module that serves pre-compressed files.  The module's own source is compiled against a
// stand-in for the server (h/ngx), and every combination of configuration, request, file and single server
// failure in the stated bounds is played through it and compared with a model written from the documentation.
#include "ngx/ngx_http.h"
#include <memory>
#include <string>
#include <vector>
#include "runner.h"
using std::string;
extern "C" ngx_module_t ngx_http_brunsli_static_module;
extern "C" { ngx_module_t ngx_http_core_module; }

// ---- the server ----
struct Server {
  // the file behind the name
  int file = 0;  // 0 regular, 1 directory, 2 neither, 3 cannot be opened
  ngx_err_t err = 0;
  off_t size = 0;
  time_t mtime = 0;
  string root = "/srv/www";
  // failures
  int calls = 0, fail_at = -1, failed = 0;  // failed: the kind of call that failed
  bool header_only = false;
  // what happened
  std::vector<string> opened;
  int headers = 0, bodies = 0, discards = 0, after_failure = 0;
  bool etag = false;
  off_t etag_size = -1;
  time_t etag_mtime = -1;
  ngx_http_headers_out_t sent;
  string sent_type;
  std::vector<std::pair<string, string>> sent_list;
  struct Piece { bool in_file, last, last_in_chain; off_t from, to; ngx_fd_t fd; bool has_file; ngx_uint_t directio; bool in_memory; };
  std::vector<Piece> body;
  ngx_int_t ret_header = 0, ret_body = 0, ret_discard = 0;
  std::vector<void*> mem;
  int fill = 0xa7;      // what fresh memory holds
  bool settings = true;  // the file is opened the way the server is configured
  ~Server() { for (void* p : mem) free(p); }
  enum { kAlloc = 1, kMap, kSymlink, kDiscard, kEtag, kHeader, kBody, kList };
  bool Fails(int kind) {
    bool f = calls++ == fail_at;
    if (failed && (kind == kHeader || kind == kBody)) ++after_failure;
    if (f) failed = kind;
    return f;
  }
  void* Get(size_t n) { void* p = malloc(n ? n : 1); memset(p, fill, n); mem.push_back(p); return p; }
};
static Server* S;
static string Str(const ngx_str_t& s) { return string((char*)s.data, s.len); }
extern "C" {
void ngx_log_error_core(ngx_uint_t, ngx_log_t*, ngx_err_t, const char*, ...) {}
void ngx_conf_log_error(ngx_uint_t, ngx_conf_t*, ngx_err_t, const char*, ...) {}
void ngx_strlow(u_char* d, u_char* s, size_t n) { while (n--) { *d++ = ngx_tolower(*s); s++; } }
ngx_int_t ngx_strcasecmp(u_char* a, u_char* b) { return strcasecmp((char*)a, (char*)b); }
ngx_int_t ngx_strncasecmp(u_char* a, u_char* b, size_t n) {
  for (; n; --n, ++a, ++b) {
    int x = ngx_tolower(*a), y = ngx_tolower(*b);
    if (x != y) return x - y;
    if (!x) return 0;
  }
  return 0;
}
// as documented: the last argument is the length of the second string less one
u_char* ngx_strcasestrn(u_char* a, char* b, size_t n) {
  int first = ngx_tolower(*b);
  ++b;
  for (; *a; ++a) {
    int x = ngx_tolower(*a);
    if (x == first && ngx_strncasecmp(a + 1, (u_char*)b, n) == 0) return a;
  }
  return nullptr;
}
u_char* ngx_strstrn(u_char* a, char* b, size_t n) {
  char first = *b++;
  for (; *a; ++a) if ((char)*a == first && strncmp((char*)a + 1, b, n) == 0) return a;
  return nullptr;
}
u_char* ngx_strlcasestrn(u_char* a, u_char* last, u_char* b, size_t n) {
  int first = ngx_tolower(*b);
  ++b;
  for (; a + n < last; ++a) if (ngx_tolower(*a) == first && ngx_strncasecmp(a + 1, b, n) == 0) return a;
  return nullptr;
}
u_char* ngx_strnstr(u_char* a, char* b, size_t len) {
  size_t n = strlen(b);
  for (; len >= n && *a; ++a, --len) if (strncmp((char*)a, b, n) == 0) return a;
  return nullptr;
}
ngx_int_t ngx_rstrncmp(u_char* a, u_char* b, size_t n) {
  while (n--) if (a[n] != b[n]) return a[n] - b[n];
  return 0;
}
u_char* ngx_cpystrn(u_char* d, u_char* s, size_t n) {
  if (!n) return d;
  while (--n) { *d = *s; if (!*d) return d; ++d; ++s; }
  *d = 0;
  return d;
}
void* ngx_palloc(ngx_pool_t*, size_t n) { return S->Fails(Server::kAlloc) ? nullptr : S->Get(n); }
void* ngx_pnalloc(ngx_pool_t* p, size_t n) { return ngx_palloc(p, n); }
void* ngx_pcalloc(ngx_pool_t* p, size_t n) { void* r = ngx_palloc(p, n); if (r) memset(r, 0, n); return r; }
u_char* ngx_pstrdup(ngx_pool_t* p, ngx_str_t* s) { u_char* r = (u_char*)ngx_palloc(p, s->len); if (r) memcpy(r, s->data, s->len); return r; }
ngx_int_t ngx_pfree(ngx_pool_t*, void*) { return NGX_DECLINED; }
ngx_chain_t* ngx_alloc_chain_link(ngx_pool_t* p) { return (ngx_chain_t*)ngx_palloc(p, sizeof(ngx_chain_t)); }
void* ngx_array_push(ngx_array_t* a) {
  if (S->Fails(Server::kAlloc)) return nullptr;
  void* p = S->Get(a->size * (a->nelts + 1));
  if (a->nelts) memcpy(p, a->elts, a->size * a->nelts);
  a->elts = p;
  return (char*)p + a->size * a->nelts++;
}
void* ngx_list_push(ngx_list_t* l) {
  if (S->Fails(Server::kList)) return nullptr;
  if (l->part.nelts >= l->nalloc) abort();
  l->last = &l->part;
  return (char*)l->part.elts + l->size * l->part.nelts++;
}
u_char* ngx_http_map_uri_to_path(ngx_http_request_t* r, ngx_str_t* name, size_t* root, size_t reserved) {
  if (S->Fails(Server::kMap)) return nullptr;
  string p = S->root + Str(r->uri);
  name->len = p.size() + reserved + 1;
  name->data = (u_char*)S->Get(name->len);
  memcpy(name->data, p.data(), p.size());
  *root = S->root.size();
  name->data[p.size()] = 0;
  return name->data + p.size();
}
ngx_int_t ngx_http_set_disable_symlinks(ngx_http_request_t*, ngx_http_core_loc_conf_t*, ngx_str_t*, ngx_open_file_info_t*) { return S->Fails(Server::kSymlink) ? NGX_ERROR : NGX_OK; }
ngx_int_t ngx_open_cached_file(ngx_open_file_cache_t*, ngx_str_t* name, ngx_open_file_info_t* of, ngx_pool_t*) {
  string n = Str(*name);
  if (name->data[name->len] != 0) n += "<not terminated>";
  if (n.find('\0') != string::npos) n = "<with a zero>";
  S->opened.push_back(n);
  if (of->directio != 900 || of->read_ahead != 3 || of->valid != 5 || of->min_uses != 7 || !of->errors || of->events) S->settings = false;
  of->fd = NGX_INVALID_FILE;
  if (S->file == 3) { of->err = S->err; of->failed = "open()"; return NGX_ERROR; }
  of->err = 0;
  of->is_dir = S->file == 1;
  of->is_file = S->file == 0;
  of->size = S->size;
  of->mtime = S->mtime;
  of->is_directio = S->file == 0 && S->size >= of->directio;
  of->fd = S->file == 1 ? NGX_INVALID_FILE : 77;
  return NGX_OK;
}
ngx_int_t ngx_http_discard_request_body(ngx_http_request_t*) {
  ++S->discards;
  return S->Fails(Server::kDiscard) ? NGX_HTTP_INTERNAL_SERVER_ERROR : S->ret_discard;
}
ngx_int_t ngx_http_set_etag(ngx_http_request_t* r) {
  if (S->Fails(Server::kEtag)) return NGX_ERROR;
  S->etag = true;
  S->etag_size = r->headers_out.content_length_n;
  S->etag_mtime = r->headers_out.last_modified_time;
  return NGX_OK;
}
ngx_int_t ngx_http_set_content_type(ngx_http_request_t* r) {
  if (S->Fails(Server::kAlloc)) return NGX_ERROR;
  ngx_str_set(&r->headers_out.content_type, "image/jpeg");
  r->headers_out.content_type_len = r->headers_out.content_type.len;
  return NGX_OK;
}
ngx_int_t ngx_http_send_header(ngx_http_request_t* r) {
  if (S->Fails(Server::kHeader)) return NGX_ERROR;
  ++S->headers;
  S->sent = r->headers_out;
  S->sent_type = Str(r->headers_out.content_type);
  for (ngx_uint_t k = 0; k < r->headers_out.headers.part.nelts; ++k) {
    ngx_table_elt_t& h = ((ngx_table_elt_t*)r->headers_out.headers.part.elts)[k];
    if (h.hash) S->sent_list.push_back({Str(h.key), Str(h.value)});
  }
  if (r->method == NGX_HTTP_HEAD || S->header_only) r->header_only = 1;
  r->header_sent = 1;
  return S->ret_header;
}
ngx_int_t ngx_http_output_filter(ngx_http_request_t* r, ngx_chain_t* c) {
  if (S->Fails(Server::kBody)) return NGX_ERROR;
  ++S->bodies;
  for (; c; c = c->next) {
    ngx_buf_t* b = c->buf;
    S->body.push_back({(bool)b->in_file, (bool)b->last_buf, (bool)b->last_in_chain, b->file_pos, b->file_last, b->file ? b->file->fd : -9, b->file != nullptr, b->file ? (ngx_uint_t)b->file->directio : 0, b->temporary || b->memory || b->mmap});
  }
  return S->ret_body;
}
char* ngx_conf_set_enum_slot(ngx_conf_t* cf, ngx_command_t* cmd, void* conf) {
  ngx_uint_t* np = (ngx_uint_t*)((char*)conf + cmd->offset);
  if (*np != NGX_CONF_UNSET_UINT) return (char*)"is duplicate";
  ngx_str_t* v = (ngx_str_t*)cf->args->elts;
  for (ngx_conf_enum_t* e = (ngx_conf_enum_t*)cmd->post; e->name.len; ++e) {
    if (e->name.len != v[1].len || strcasecmp((char*)e->name.data, (char*)v[1].data)) continue;
    *np = e->value;
    return nullptr;
  }
  return (char*)NGX_CONF_ERROR;
}
char* ngx_conf_set_flag_slot(ngx_conf_t*, ngx_command_t*, void*) { return (char*)NGX_CONF_ERROR; }
}

// ---- playing a request ----
static const char* const kDirective[] = {"", "off", "on", "always", "ON", "maybe"};
struct Play {
  int level[3] = {0, 0, 0};  // main, server, location: index into kDirective
  bool vary = true, sub = false, has_accept = true, header_only = false, directio = false;
  ngx_uint_t method = NGX_HTTP_GET;
  string uri = "/a.jpg", accept;
  int file = 0;
  ngx_err_t err = 0;
  off_t size = 1000;
  time_t mtime = 1234567;
  ngx_int_t ret_header = 0, ret_body = 0, ret_discard = 0;
};
struct Outcome {
  ngx_int_t rc = 0;
  bool conf_error = false, gzip_vary = false;
  int handlers = 0;
};
// The module's view of the configuration is built the way the server does it.
static Outcome Go(const Play& p, Server* s) {
  Outcome o;
  S = s;
  int fail_at = s->fail_at;
  s->fail_at = -1;  // the configuration phase is checked separately
  static void* loc[2];
  static void* mainc[2];
  ngx_http_brunsli_static_module.ctx_index = 1;
  ngx_http_core_module.ctx_index = 0;
  ngx_http_module_t* m = (ngx_http_module_t*)ngx_http_brunsli_static_module.ctx;
  ngx_pool_t pool;
  ngx_log_t log = {};
  ngx_http_core_main_conf_t cmcf;
  memset(&cmcf, 0, sizeof cmcf);
  for (auto& ph : cmcf.phases) ph.handlers.size = sizeof(ngx_http_handler_pt);
  mainc[0] = &cmcf;
  mainc[1] = nullptr;
  ngx_http_conf_ctx_t hctx = {mainc, mainc, loc};
  ngx_conf_t cf;
  memset(&cf, 0, sizeof cf);
  cf.pool = &pool;
  cf.ctx = &hctx;
  cf.log = &log;
  void* conf[3];
  for (int k = 0; k < 3; ++k) {
    conf[k] = m->create_loc_conf(&cf);
    const char* v = kDirective[p.level[k]];
    if (!*v) continue;
    ngx_str_t args[2] = {ngx_string("brunsli_static"), {strlen(v), (u_char*)v}};
    ngx_array_t a = {args, 2, sizeof(ngx_str_t), 2, &pool};
    cf.args = &a;
    bool found = false;
    for (ngx_command_t* c = ngx_http_brunsli_static_module.commands; c->name.len; ++c) {
      if (Str(c->name) != "brunsli_static") continue;
      found = true;
      const ngx_uint_t where[] = {NGX_HTTP_MAIN_CONF, NGX_HTTP_SRV_CONF, NGX_HTTP_LOC_CONF};
      if (!(c->type & where[k]) || c->conf != NGX_HTTP_LOC_CONF_OFFSET || c->set(&cf, c, conf[k])) { o.conf_error = true; return o; }
    }
    if (!found) { o.conf_error = true; return o; }
  }
  for (int k = 1; k < 3; ++k) if (m->merge_loc_conf(&cf, conf[k - 1], conf[k])) { o.conf_error = true; return o; }
  if (m->postconfiguration(&cf) != NGX_OK) { o.conf_error = true; return o; }
  ngx_array_t& hs = cmcf.phases[NGX_HTTP_CONTENT_PHASE].handlers;
  for (auto& ph : cmcf.phases) o.handlers += (int)ph.handlers.nelts;
  if (hs.nelts != 1 || o.handlers != 1) { o.conf_error = true; return o; }
  ngx_http_core_loc_conf_t clcf;
  memset(&clcf, 0, sizeof clcf);
  clcf.gzip_vary = p.vary;
  clcf.directio = 900;
  clcf.read_ahead = 3;
  clcf.open_file_cache_valid = 5;
  clcf.open_file_cache_min_uses = 7;
  clcf.open_file_cache_errors = 1;
  loc[0] = &clcf;
  loc[1] = conf[2];
  // the request
  ngx_http_request_t* r = (ngx_http_request_t*)calloc(1, sizeof *r);
  ngx_http_request_t* parent = (ngx_http_request_t*)calloc(1, sizeof *r);
  s->mem.push_back(r);
  s->mem.push_back(parent);
  ngx_connection_t con = {&log};
  r->connection = &con;
  r->loc_conf = loc;
  r->main_conf = r->srv_conf = mainc;
  r->pool = &pool;
  r->method = p.method;
  r->main = p.sub ? parent : r;
  auto own = [&](const string& t, bool zero) { u_char* q = (u_char*)s->Get(t.size() + zero); memcpy(q, t.data(), t.size()); if (zero) q[t.size()] = 0; return q; };
  r->uri.len = p.uri.size();
  r->uri.data = own(p.uri, false);
  ngx_table_elt_t acc;
  memset(&acc, 0, sizeof acc);
  acc.hash = 1;
  acc.value.len = p.accept.size();
  acc.value.data = own(p.accept, true);  // the server ends header values with a zero
  r->headers_in.accept = p.has_accept ? &acc : nullptr;
  r->headers_out.headers.size = sizeof(ngx_table_elt_t);
  r->headers_out.headers.nalloc = 20;
  r->headers_out.headers.part.elts = s->Get(20 * sizeof(ngx_table_elt_t));
  r->headers_out.headers.last = &r->headers_out.headers.part;
  r->headers_out.content_length_n = -1;
  r->headers_out.last_modified_time = -1;
  s->file = p.file;
  s->err = p.err;
  s->size = p.size;
  s->mtime = p.mtime;
  s->header_only = p.header_only;
  s->ret_header = p.ret_header;
  s->ret_body = p.ret_body;
  s->ret_discard = p.ret_discard;
  s->calls = 0;
  s->fail_at = fail_at;
  o.rc = ((ngx_http_handler_pt*)hs.elts)[0](r);
  o.gzip_vary = r->gzip_vary;
  return o;
}

// ---- what the documentation promises ----
static int Effective(const Play& p) {  // 0 off, 1 on, 2 always, -1 refused
  int e = 0;
  for (int k = 0; k < 3; ++k) switch (p.level[k]) {
    case 1: e = 0; break;
    case 2: case 4: e = 1; break;
    case 3: e = 2; break;
    case 5: return -1;
  }
  return e;
}
static bool Accepts(const string& a) {  // image/x-j among the media ranges
  size_t i = 0;
  while (true) {
    size_t e = std::min(a.find(',', i), a.size());
    string t = a.substr(i, e - i);
    t = t.substr(0, t.find(';'));
    while (!t.empty() && t[0] == ' ') t.erase(0, 1);
    while (!t.empty() && t.back() == ' ') t.pop_back();
    for (auto& ch : t) ch = (char)tolower(ch);
    if (t == "image/x-j") return true;
    if (e == a.size()) return false;
    i = e + 1;
  }
}
static string Show(const Play& p) {
  return vf::Fmt("brunsli_static \"%s\"/\"%s\"/\"%s\", gzip_vary %d, method %#x, %s%s, Accept %s%s%s, file %s, size %lld", kDirective[p.level[0]], kDirective[p.level[1]], kDirective[p.level[2]], p.vary, (unsigned)p.method,
                 p.uri.c_str(), p.sub ? " (subrequest)" : "", p.has_accept ? "\"" : "", p.has_accept ? p.accept.c_str() : "missing", p.has_accept ? "\"" : "", p.file == 0 ? "regular" : p.file == 1 ? "directory" : p.file == 2 ? "special" : strerror(p.err), (long long)p.size);
}
static string Judge(const Play& p, const Outcome& o, const Server& s, string* key) {
#define BAD(k, ...) do { *key = k; return vf::Fmt(__VA_ARGS__); } while (0)
  int e = Effective(p);
  if (e < 0) { if (!o.conf_error) BAD("configuration", "an unknown value of the directive is accepted"); return ""; }
  if (o.conf_error) BAD("configuration", "the configuration is refused or the handler not installed once");
  bool served = s.headers || s.bodies;
  bool wanted = (p.method & (NGX_HTTP_GET | NGX_HTTP_HEAD)) && p.uri.back() != '/' && e != 0;
  bool client = e == 2 || (!p.sub && p.has_accept && Accepts(p.accept));
  string path = s.root + p.uri + ".j";
  for (auto& f : s.opened) if (f != path) BAD("path", "opens \"%s\" instead of \"%s\"", f.c_str(), path.c_str());
  if (!s.settings) BAD("settings", "opens the file without the server's settings for opening files");
  if (!wanted || !client) {
    if (served) BAD("unasked", "served although %s", !wanted ? "the request is none of the module's" : "the client does not accept the type");
    if (s.failed) { return ""; }
    if (wanted && p.file == 3 && !p.err) { if (o.rc == NGX_OK) BAD("failure-hidden", "returns OK"); return ""; }
    if (o.rc != NGX_DECLINED) BAD("not-declined", "returns %d instead of declining", (int)o.rc);
    if (!wanted && !s.opened.empty()) BAD("opened", "opens the file although the request is none of the module's");
    bool variant = wanted && e == 1 && p.file == 0;
    if (variant && p.vary && !o.gzip_vary) BAD("vary", "does not say that the answer varies");
    if (!wanted && o.gzip_vary) BAD("vary", "says that the answer varies although it does not");
    return "";
  }
  if (s.failed) {
    if (s.after_failure) BAD("after-failure", "goes on sending after call %d of the server failed", s.fail_at);
    if (o.rc == NGX_OK || o.rc == NGX_DECLINED) BAD("failure-hidden", "returns %d although call %d of the server failed", (int)o.rc, s.fail_at);
    return "";
  }
  if (p.file != 0) {
    if (served) BAD("no-file", "served although there is no regular file");
    // a missing file, and one that may not be opened, leave the request to others
    if (p.file == 1 || (p.file == 3 && p.err != 0)) { if (o.rc != NGX_DECLINED) BAD("not-declined", "returns %d instead of declining", (int)o.rc); }
    else if (o.rc == NGX_OK || (p.file == 3 && o.rc == NGX_DECLINED)) BAD("failure-hidden", "returns %d", (int)o.rc);
    return "";
  }
  if (s.opened.empty()) BAD("not-served", "does not look for the file, returns %d", (int)o.rc);
  if (s.discards != 1) BAD("request-body", "the request body is discarded %d times", s.discards);
  if (p.ret_discard != NGX_OK) {
    if (served || o.rc != p.ret_discard) BAD("failure-hidden", "returns %d after discarding the body returned %d", (int)o.rc, (int)p.ret_discard);
    return "";
  }
  if (s.headers != 1) BAD("not-served", "not served, returns %d", (int)o.rc);
  const auto& h = s.sent;
  if (h.status != 200) BAD("status", "status %d", (int)h.status);
  if (h.content_length_n != p.size) BAD("length", "length %lld of a file of %lld bytes", (long long)h.content_length_n, (long long)p.size);
  if (h.last_modified_time != p.mtime) BAD("time", "wrong modification time");
  if (s.sent_type != "image/x-j") BAD("type", "type \"%s\"", s.sent_type.c_str());
  if (!s.etag || s.etag_size != p.size || s.etag_mtime != p.mtime) BAD("etag", "the entity tag is missing or not that of the file");
  if (!h.content_encoding) BAD("encoding", "not marked against further compression");
  bool listed = false;
  for (auto& x : s.sent_list) listed |= x.first == "Content-Encoding" && x.second == "identity";
  if (!listed) BAD("encoding", "no Content-Encoding: identity in the headers");
  if (e == 1 && p.vary && !o.gzip_vary) BAD("vary", "does not say that the answer varies");
  if (e == 2 && o.gzip_vary) BAD("vary", "says that the answer varies although it does not");
  bool header_only = p.method == NGX_HTTP_HEAD || p.header_only;
  if (p.ret_header == NGX_ERROR || p.ret_header > NGX_OK || header_only) {
    if (s.bodies) BAD("body", "sends a body after the headers alone were asked for, or failed");
    if (o.rc != p.ret_header) BAD("result", "returns %d instead of %d", (int)o.rc, (int)p.ret_header);
    return "";
  }
  if (s.bodies != 1 || s.body.empty()) BAD("body", "sends %d bodies in %d pieces", s.bodies, (int)s.body.size());
  off_t at = 0;
  for (size_t k = 0; k < s.body.size(); ++k) {
    auto& b = s.body[k];
    bool end = k + 1 == s.body.size();
    if (b.from != at || b.to < b.from || b.in_file != (b.to > b.from)) BAD("body", "piece %d is %lld..%lld, %s", (int)k, (long long)b.from, (long long)b.to, b.in_file ? "in the file" : "not in the file");
    if (b.in_file && (!b.has_file || b.fd != 77)) BAD("body", "piece %d is not of the opened file", (int)k);
    if (b.in_memory) BAD("body", "piece %d is marked as being in memory", (int)k);
    if (b.in_file && (b.directio != 0) != (p.size >= 900)) BAD("body", "piece %d is%s to be read directly, the file was%s opened so", (int)k, b.directio ? "" : " not", p.size >= 900 ? "" : " not");
    if (b.last != (end && !p.sub) || b.last_in_chain != end) BAD("last", "piece %d of %d is marked %d %d", (int)k, (int)s.body.size(), b.last, b.last_in_chain);
    at = b.to;
  }
  if (at != p.size) BAD("body", "%lld of %lld bytes", (long long)at, (long long)p.size);
  if (o.rc != p.ret_body) BAD("result", "returns %d instead of %d", (int)o.rc, (int)p.ret_body);
  return "";
#undef BAD
}

int main(int argc, char** argv) {
  vf::Runner r("C30", argc, argv);
  bool deep = r.thorough();
  int served = r.Counter("served"), declined = r.Counter("declined"), errors = r.Counter("error_returned"), faults = r.Counter("faults_injected"), confs = r.Counter("configurations_refused");
  r.rule = "every listed combination of configuration, request and file is played through the module, without failures and once for every call into the server that can fail; non-trivial: the module looked for the file";
  r.assumptions = {"the server is the stand-in in h/ngx, written from nginx's documented interface; nginx itself is not installed"};
  auto play = [=](vf::Case& c, const Play& p, bool with_faults) {
    string key, msg;
    int calls = 0;
    // fresh memory may hold anything: once zeros, once garbage
    for (int f = -2; f < (with_faults ? calls : 0) && !c.failed; ++f) {
      Server s;
      s.fill = f == -2 ? 0 : 0xa7;
      s.fail_at = f < 0 ? -1 : f;
      Outcome o = Go(p, &s);
      if (f < 0) {
        calls = s.calls;
        if (f == -1) c.Count(o.conf_error ? confs : s.headers ? served : o.rc == NGX_DECLINED ? declined : errors);
        c.nontrivial = !s.opened.empty();
      } else {
        c.Count(faults);
        if (!s.failed) continue;
      }
      msg = Judge(p, o, s, &key);
      if (!msg.empty()) c.Fail(key, Show(p) + (f < 0 ? "" : vf::Fmt(", server call %d fails", f)) + ": " + msg);
    }
    c.hash = c.index;
  };
  static const ngx_uint_t kMethods[] = {NGX_HTTP_GET, NGX_HTTP_HEAD, NGX_HTTP_POST, NGX_HTTP_PUT, NGX_HTTP_DELETE, NGX_HTTP_OPTIONS, NGX_HTTP_PATCH, NGX_HTTP_TRACE, NGX_HTTP_PROPFIND, NGX_HTTP_UNKNOWN};
  static const char* const kUris[] = {"/a.jpg", "/", "/dir/", "/a", "/x/y.z/b.jpeg", "/a.jpg.j", "/\xc3\xa9 b.jpg", "/a.j"};
  static const char* const kAccepts[] = {nullptr, "", "image/x-j", "*/*", "text/html, image/x-j, */*", "image/x-jng", "image/jpeg"};
  static const struct { int file, err; off_t size; } kFiles[] = {{0, 0, 1000}, {0, 0, 0}, {0, 0, 1}, {0, 0, (off_t)5 << 32}, {1, 0, 4096}, {2, 0, 0}, {3, 0, 0}, {3, ENOENT, 0}, {3, ENOTDIR, 0}, {3, ENAMETOOLONG, 0}, {3, EACCES, 0}, {3, ELOOP, 0}, {3, EMLINK, 0}, {3, EIO, 0}, {3, EMFILE, 0}};
  // configuration x request x file
  r.Add("requests", 4 * 10 * 8 * 7 * 15 * 2 * 2, [=](vf::Case& c) {
    vf::Radix x(c.index);
    Play p;
    p.level[2] = (int)x(4);
    p.method = kMethods[x(10)];
    p.uri = kUris[x(8)];
    const char* a = kAccepts[x(7)];
    p.has_accept = a;
    if (a) p.accept = a;
    auto& f = kFiles[x(15)];
    p.file = f.file; p.err = f.err; p.size = f.size;
    p.vary = x(2);
    p.sub = x(2);
    play(c, p, true);
  });
  // the directive on every level
  r.Add("directives", 6 * 6 * 6 * 4 * 2, [=](vf::Case& c) {
    vf::Radix x(c.index);
    Play p;
    for (int& l : p.level) l = (int)x(6);
    const char* a = kAccepts[x(4)];
    p.has_accept = a;
    if (a) p.accept = a;
    p.vary = x(2);
    play(c, p, false);
  });
  // lists of media ranges
  {
    static const char* const kItems[] = {"image/x-j", "IMAGE/X-J", "Image/x-J", "image/x-jng", "ximage/x-j", "image/x", "image/x-", "image/*", "*/*", "text/html", "image/x-j;q=0.5", "image/x-j ;q=1", "image/x-jpeg;q=0.9", "application/xml;q=0.9", "image/x-j/x", "image/image/x-j"};
    static const char* const kSeps[] = {",", ", ", " ,", " , ", ",,"};
    const int N = 16, SEP = 5, L = deep ? 4 : 3;
    uint64_t n = 0, k = 1;
    for (int l = 1; l <= L; ++l) { k *= N; n += k * SEP; }
    r.Add("accept", n * 4, [=](vf::Case& c) {
      uint64_t i = c.index / 4, k = N;
      int l = 1;
      while (i >= k * SEP) { i -= k * SEP; k *= N; ++l; }
      vf::Radix x(i);
      int sep = (int)x(SEP);
      Play p;
      p.level[2] = 2;
      p.vary = c.index & 1;
      for (int j = 0; j < l; ++j) p.accept += string(j ? kSeps[sep] : "") + kItems[x(N)];
      if (c.index & 2) p.accept = " " + p.accept + " ";
      play(c, p, false);
      c.hash = vf::Fnv(p.accept);
    });
    // every string over the characters that matter
    static const char* const kBits[] = {"image/x-j", "i", ",", ";", " ", "x", "j", "/"};
    const int D = deep ? 7 : 5;
    uint64_t m = 0;
    k = 1;
    for (int l = 0; l <= D; ++l) { m += k; k *= 8; }
    r.Add("accept-strings", m, [=](vf::Case& c) {
      uint64_t i = c.index, k = 1;
      int l = 0;
      while (i >= k) { i -= k; k *= 8; ++l; }
      Play p;
      p.level[2] = 2;
      int words = 0;
      string prev;
      for (int j = 0; j < l; ++j) { p.accept += kBits[i % 8]; i /= 8; }
      // a space within a media range is malformed: either answer will do
      string t;
      for (size_t q = 0; q <= p.accept.size(); ++q) {
        char ch = q < p.accept.size() ? p.accept[q] : ',';
        if (ch == ',' || ch == ';') {
          size_t b = t.find_first_not_of(' '), e = t.find_last_not_of(' ');
          if (b != string::npos && t.substr(b, e - b + 1).find(' ') != string::npos) return;
          t.clear();
          // parameters are not looked into here
          if (ch == ';') { while (q + 1 < p.accept.size() && p.accept[q + 1] != ',') { ++q; if (p.accept[q] == 'i') ++words; } }
        } else t += ch;
      }
      if (words) return;
      play(c, p, false);
      c.hash = vf::Fnv(p.accept);
    });
  }
  // what the server's calls may return
  {
    static const ngx_int_t kRet[] = {NGX_OK, NGX_ERROR, NGX_AGAIN, NGX_DONE, NGX_HTTP_NOT_MODIFIED, NGX_HTTP_INTERNAL_SERVER_ERROR, 499};
    r.Add("returns", 7 * 7 * 7 * 2 * 2 * 4 * 2, [=](vf::Case& c) {
      vf::Radix x(c.index);
      Play p;
      p.accept = "image/x-j";
      p.ret_discard = kRet[x(7)];
      p.ret_header = kRet[x(7)];
      p.ret_body = kRet[x(7)];
      p.method = x(2) ? NGX_HTTP_HEAD : NGX_HTTP_GET;
      p.header_only = x(2);
      p.size = kFiles[x(4)].size;
      p.level[2] = 2 + (int)x(2);
      play(c, p, true);
    });
  }
  return r.Main();
}
