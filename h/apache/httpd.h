// A stand-in for the parts of the Apache HTTP Server's and APR's interface that a translation hook uses,
// written from their documentation.  The calls into the server are answered by the harness.
#ifndef VERIF_APACHE_HTTPD_H_
#define VERIF_APACHE_HTTPD_H_
#include <ctype.h>
#include <errno.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <sys/types.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct apr_pool_t apr_pool_t;
typedef struct apr_table_t apr_table_t;
typedef int apr_status_t;
typedef size_t apr_size_t;
typedef off_t apr_off_t;
typedef int64_t apr_time_t;
typedef int32_t apr_int32_t;
typedef uint32_t apr_uint32_t;
#define APR_SUCCESS 0
#define APR_OS_START_ERROR 20000
#define APR_OS_START_STATUS (APR_OS_START_ERROR + 50000)
#define APR_INCOMPLETE (APR_OS_START_STATUS + 8)
#define APR_ENOENT ENOENT
#define APR_EACCES EACCES
#define APR_ENAMETOOLONG ENAMETOOLONG
#define APR_ENOTDIR ENOTDIR
#define APR_STATUS_IS_ENOENT(s) ((s) == APR_ENOENT)
#define APR_STATUS_IS_ENOTDIR(s) ((s) == APR_ENOTDIR)
#define APR_STATUS_IS_EACCES(s) ((s) == APR_EACCES)
typedef enum {
  APR_NOFILE = 0, APR_REG, APR_DIR, APR_CHR, APR_BLK, APR_PIPE, APR_LNK, APR_SOCK, APR_UNKFILE = 127
} apr_filetype_e;
#define APR_FINFO_LINK 0x1
#define APR_FINFO_MTIME 0x10
#define APR_FINFO_SIZE 0x100
#define APR_FINFO_TYPE 0x8000
#define APR_FINFO_MIN 0x8170
#define APR_FINFO_NORM 0x73b170
typedef struct apr_finfo_t {
  apr_pool_t* pool;
  apr_int32_t valid;
  apr_int32_t protection;
  apr_filetype_e filetype;
  apr_off_t size;
  apr_time_t mtime;
  const char* fname;
} apr_finfo_t;
#define OK 0
#define DECLINED (-1)
#define DONE (-2)
#define HTTP_BAD_REQUEST 400
#define HTTP_FORBIDDEN 403
#define HTTP_NOT_FOUND 404
#define HTTP_INTERNAL_SERVER_ERROR 500
#define M_GET 0
#define M_PUT 1
#define M_POST 2
#define AP_DECLARE(t) t
#define AP_CORE_DECLARE_NONSTD(t) t
#define APR_HOOK_REALLY_FIRST (-10)
#define APR_HOOK_FIRST 0
#define APR_HOOK_MIDDLE 10
#define APR_HOOK_LAST 20
#define APR_HOOK_REALLY_LAST 30
typedef struct server_rec { int unused; } server_rec;
typedef struct conn_rec { int unused; } conn_rec;
typedef struct request_rec request_rec;
struct request_rec {
  apr_pool_t* pool;
  conn_rec* connection;
  server_rec* server;
  request_rec* main;
  request_rec* prev;
  const char* method;
  int method_number;
  int header_only;
  int status;
  char* the_request;
  apr_table_t* headers_in;
  apr_table_t* headers_out;
  apr_table_t* err_headers_out;
  apr_table_t* notes;
  const char* content_type;
  const char* handler;
  const char* content_encoding;
  char* unparsed_uri;
  char* uri;
  char* filename;
  char* canonical_filename;
  char* path_info;
  char* args;
  apr_finfo_t finfo;
};
char* apr_pstrdup(apr_pool_t*, const char*);
char* apr_pstrndup(apr_pool_t*, const char*, apr_size_t);
char* apr_pstrcat(apr_pool_t*, ...);
char* apr_psprintf(apr_pool_t*, const char*, ...);
void* apr_palloc(apr_pool_t*, apr_size_t);
void* apr_pcalloc(apr_pool_t*, apr_size_t);
char* apr_strtok(char*, const char*, char**);
char* apr_collapse_spaces(char*, const char*);
const char* apr_table_get(const apr_table_t*, const char*);
void apr_table_set(apr_table_t*, const char*, const char*);
void apr_table_setn(apr_table_t*, const char*, const char*);
void apr_table_merge(apr_table_t*, const char*, const char*);
void apr_table_mergen(apr_table_t*, const char*, const char*);
void apr_table_add(apr_table_t*, const char*, const char*);
void apr_table_addn(apr_table_t*, const char*, const char*);
void apr_table_unset(apr_table_t*, const char*);
apr_status_t apr_stat(apr_finfo_t*, const char*, apr_int32_t, apr_pool_t*);
int ap_core_translate(request_rec*);
void ap_set_content_type(request_rec*, const char*);
int ap_cstr_casecmp(const char*, const char*);
int ap_cstr_casecmpn(const char*, const char*, apr_size_t);
#define apr_cstr_casecmp ap_cstr_casecmp
#define apr_cstr_casecmpn ap_cstr_casecmpn
#define apr_isspace(c) (isspace(((unsigned char)(c))))
#define apr_tolower(c) (tolower(((unsigned char)(c))))
typedef int ap_HOOK_translate_name_t(request_rec* r);
void ap_hook_translate_name(ap_HOOK_translate_name_t*, const char* const*, const char* const*, int);
typedef struct module_struct {
  int version, minor_version, module_index;
  const char* name;
  void* dynamic_load_handle;
  struct module_struct* next;
  unsigned long magic;
  void (*rewrite_args)(void*);
  void* (*create_dir_config)(apr_pool_t*, char*);
  void* (*merge_dir_config)(apr_pool_t*, void*, void*);
  void* (*create_server_config)(apr_pool_t*, server_rec*);
  void* (*merge_server_config)(apr_pool_t*, void*, void*);
  const void* cmds;
  void (*register_hooks)(apr_pool_t*);
} module;
#define STANDARD20_MODULE_STUFF 20120211, 0, -1, __FILE__, NULL, NULL, 0x41503234UL, NULL
#define AP_DECLARE_MODULE(foo) module foo##_module
#ifdef __cplusplus
}
#endif
#endif
