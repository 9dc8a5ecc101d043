#ifndef VERIF_NGX_CORE_H_
#define VERIF_NGX_CORE_H_
#include "ngx_config.h"
#ifdef __cplusplus
extern "C" {
#endif
#define NGX_OK 0
#define NGX_ERROR -1
#define NGX_AGAIN -2
#define NGX_BUSY -3
#define NGX_DONE -4
#define NGX_DECLINED -5
#define NGX_ABORT -6
#define NGX_CONF_OK NULL
#define NGX_CONF_ERROR (void*)-1
#define NGX_CONF_UNSET -1
#define NGX_CONF_UNSET_UINT (ngx_uint_t) - 1
#define NGX_CONF_UNSET_PTR (void*)-1
#define NGX_CONF_UNSET_SIZE (size_t) - 1
#define NGX_CONF_UNSET_MSEC (ngx_msec_t) - 1
#define NGX_CONF_NOARGS 0x00000001
#define NGX_CONF_TAKE1 0x00000002
#define NGX_CONF_TAKE2 0x00000004
#define NGX_CONF_FLAG 0x00000200
#define NGX_INVALID_FILE -1
#define NGX_FILE_ERROR -1
#define NGX_ENOENT ENOENT
#define NGX_ENOTDIR ENOTDIR
#define NGX_ENAMETOOLONG ENAMETOOLONG
#define NGX_EACCES EACCES
#define NGX_EMLINK EMLINK
#define NGX_ELOOP ELOOP
#define NGX_EPERM EPERM
#define NGX_EEXIST EEXIST
#define NGX_EISDIR EISDIR
#define NGX_ENOMEM ENOMEM
#define NGX_EMFILE EMFILE
#define NGX_ENFILE ENFILE
typedef struct { size_t len; u_char* data; } ngx_str_t;
#define ngx_string(str) { sizeof(str) - 1, (u_char*)str }
#define ngx_null_string { 0, NULL }
#define ngx_str_set(str, text) (str)->len = sizeof(text) - 1; (str)->data = (u_char*)text
#define ngx_str_null(str) (str)->len = 0; (str)->data = NULL
typedef struct { ngx_str_t key, value; } ngx_keyval_t;
typedef struct ngx_pool_s { int unused; } ngx_pool_t;
typedef struct ngx_log_s { ngx_uint_t log_level; const char* action; } ngx_log_t;
typedef struct ngx_module_s ngx_module_t;
typedef struct ngx_command_s ngx_command_t;
typedef struct { void* elts; ngx_uint_t nelts; size_t size; ngx_uint_t nalloc; ngx_pool_t* pool; } ngx_array_t;
typedef struct ngx_list_part_s { void* elts; ngx_uint_t nelts; struct ngx_list_part_s* next; } ngx_list_part_t;
typedef struct { ngx_list_part_t* last; ngx_list_part_t part; size_t size; ngx_uint_t nalloc; ngx_pool_t* pool; } ngx_list_t;
typedef struct ngx_table_elt_s { ngx_uint_t hash; ngx_str_t key, value; u_char* lowcase_key; struct ngx_table_elt_s* next; } ngx_table_elt_t;
typedef struct { ngx_fd_t fd; ngx_str_t name; off_t offset, sys_offset; ngx_log_t* log; unsigned valid_info : 1, directio : 1; } ngx_file_t;
typedef void* ngx_buf_tag_t;
typedef struct ngx_buf_s {
  u_char *pos, *last;
  off_t file_pos, file_last;
  u_char *start, *end;
  ngx_buf_tag_t tag;
  ngx_file_t* file;
  struct ngx_buf_s* shadow;
  unsigned temporary : 1, memory : 1, mmap : 1, recycled : 1, in_file : 1, flush : 1, sync : 1, last_buf : 1, last_in_chain : 1, last_shadow : 1, temp_file : 1;
  int num;
} ngx_buf_t;
typedef struct ngx_chain_s { ngx_buf_t* buf; struct ngx_chain_s* next; } ngx_chain_t;
typedef struct { int unused; } ngx_open_file_cache_t;
typedef struct {
  ngx_fd_t fd;
  ino_t uniq;
  time_t mtime;
  off_t size, fs_size, directio;
  size_t read_ahead;
  ngx_err_t err;
  const char* failed;
  time_t valid;
  ngx_uint_t min_uses;
  size_t disable_symlinks_from;
  unsigned disable_symlinks : 2, test_dir : 1, test_only : 1, log : 1, errors : 1, events : 1, is_dir : 1, is_file : 1, is_link : 1, is_exec : 1, is_directio : 1;
} ngx_open_file_info_t;
typedef struct { ngx_str_t name; ngx_array_t* args; ngx_pool_t *pool, *temp_pool; ngx_log_t* log; void* ctx; } ngx_conf_t;
struct ngx_command_s { ngx_str_t name; ngx_uint_t type; char* (*set)(ngx_conf_t*, ngx_command_t*, void*); ngx_uint_t conf, offset; void* post; };
#define ngx_null_command { ngx_null_string, 0, NULL, 0, 0, NULL }
typedef struct { ngx_str_t name; ngx_uint_t value; } ngx_conf_enum_t;
struct ngx_module_s {
  ngx_uint_t ctx_index, index;
  char* name;
  ngx_uint_t spare0, spare1, version;
  const char* signature;
  void* ctx;
  ngx_command_t* commands;
  ngx_uint_t type;
  ngx_int_t (*init_master)(ngx_log_t*);
  ngx_int_t (*init_module)(void*);
  ngx_int_t (*init_process)(void*);
  ngx_int_t (*init_thread)(void*);
  void (*exit_thread)(void*);
  void (*exit_process)(void*);
  void (*exit_master)(void*);
  uintptr_t h0, h1, h2, h3, h4, h5, h6, h7;
};
#define NGX_MODULE_V1 (ngx_uint_t) - 1, (ngx_uint_t) - 1, NULL, 0, 0, 1025000, ""
#define NGX_MODULE_V1_PADDING 0, 0, 0, 0, 0, 0, 0, 0
#define NGX_LOG_STDERR 0
#define NGX_LOG_EMERG 1
#define NGX_LOG_ALERT 2
#define NGX_LOG_CRIT 3
#define NGX_LOG_ERR 4
#define NGX_LOG_WARN 5
#define NGX_LOG_NOTICE 6
#define NGX_LOG_INFO 7
#define NGX_LOG_DEBUG 8
#define NGX_LOG_DEBUG_CORE 0x010
#define NGX_LOG_DEBUG_HTTP 0x100
void ngx_log_error_core(ngx_uint_t level, ngx_log_t* log, ngx_err_t err, const char* fmt, ...);
#define ngx_log_error(level, log, ...) ngx_log_error_core(level, log, __VA_ARGS__)
#define ngx_log_debug0(level, log, err, fmt) ((void)(log))
#define ngx_log_debug1(level, log, err, fmt, a) ((void)(log), (void)(a))
#define ngx_log_debug2(level, log, err, fmt, a, b) ((void)(log), (void)(a), (void)(b))
#define ngx_log_debug3(level, log, err, fmt, a, b, c) ((void)(log), (void)(a), (void)(b), (void)(c))
#define ngx_memzero(p, n) (void)memset(p, 0, n)
#define ngx_memset(p, c, n) (void)memset(p, c, n)
#define ngx_memcpy(d, s, n) (void)memcpy(d, s, n)
#define ngx_cpymem(d, s, n) (((u_char*)memcpy(d, s, n)) + (n))
#define ngx_copy ngx_cpymem
#define ngx_memmove(d, s, n) (void)memmove(d, s, n)
#define ngx_movemem(d, s, n) (((u_char*)memmove(d, s, n)) + (n))
#define ngx_memcmp(a, b, n) memcmp((const char*)a, (const char*)b, n)
#define ngx_strncmp(a, b, n) strncmp((const char*)a, (const char*)b, n)
#define ngx_strcmp(a, b) strcmp((const char*)a, (const char*)b)
#define ngx_strstr(a, b) strstr((const char*)a, (const char*)b)
#define ngx_strlen(s) strlen((const char*)s)
#define ngx_strchr(s, c) strchr((const char*)s, (int)c)
#define ngx_tolower(c) (u_char)((c >= 'A' && c <= 'Z') ? (c | 0x20) : c)
#define ngx_toupper(c) (u_char)((c >= 'a' && c <= 'z') ? (c & ~0x20) : c)
#define ngx_min(a, b) ((a > b) ? (b) : (a))
#define ngx_max(a, b) ((a < b) ? (b) : (a))
#define ngx_abs(v) (((v) >= 0) ? (v) : -(v))
static inline u_char* ngx_strlchr(u_char* p, u_char* last, u_char c) {
  while (p < last) { if (*p == c) return p; p++; }
  return NULL;
}
void ngx_strlow(u_char* dst, u_char* src, size_t n);
ngx_int_t ngx_strcasecmp(u_char* a, u_char* b);
ngx_int_t ngx_strncasecmp(u_char* a, u_char* b, size_t n);
u_char* ngx_strnstr(u_char* a, char* b, size_t n);
u_char* ngx_strstrn(u_char* a, char* b, size_t n);
u_char* ngx_strcasestrn(u_char* a, char* b, size_t n);
u_char* ngx_strlcasestrn(u_char* a, u_char* last, u_char* b, size_t n);
ngx_int_t ngx_rstrncmp(u_char* a, u_char* b, size_t n);
u_char* ngx_cpystrn(u_char* dst, u_char* src, size_t n);
u_char* ngx_pstrdup(ngx_pool_t* pool, ngx_str_t* src);
void* ngx_palloc(ngx_pool_t* pool, size_t n);
void* ngx_pnalloc(ngx_pool_t* pool, size_t n);
void* ngx_pcalloc(ngx_pool_t* pool, size_t n);
ngx_int_t ngx_pfree(ngx_pool_t* pool, void* p);
void* ngx_array_push(ngx_array_t* a);
void* ngx_list_push(ngx_list_t* l);
#define ngx_calloc_buf(pool) (ngx_buf_t*)ngx_pcalloc(pool, sizeof(ngx_buf_t))
#define ngx_alloc_buf(pool) (ngx_buf_t*)ngx_palloc(pool, sizeof(ngx_buf_t))
ngx_chain_t* ngx_alloc_chain_link(ngx_pool_t* pool);
ngx_int_t ngx_open_cached_file(ngx_open_file_cache_t* cache, ngx_str_t* name, ngx_open_file_info_t* of, ngx_pool_t* pool);
char* ngx_conf_set_enum_slot(ngx_conf_t* cf, ngx_command_t* cmd, void* conf);
char* ngx_conf_set_flag_slot(ngx_conf_t* cf, ngx_command_t* cmd, void* conf);
void ngx_conf_log_error(ngx_uint_t level, ngx_conf_t* cf, ngx_err_t err, const char* fmt, ...);
#define ngx_conf_init_value(conf, def) if (conf == NGX_CONF_UNSET) { conf = def; }
#define ngx_conf_init_uint_value(conf, def) if (conf == NGX_CONF_UNSET_UINT) { conf = def; }
#define ngx_conf_merge_value(conf, prev, def) if (conf == NGX_CONF_UNSET) { conf = (prev == NGX_CONF_UNSET) ? def : prev; }
#define ngx_conf_merge_uint_value(conf, prev, def) if (conf == NGX_CONF_UNSET_UINT) { conf = (prev == NGX_CONF_UNSET_UINT) ? def : prev; }
#ifdef __cplusplus
}
#endif
#endif
