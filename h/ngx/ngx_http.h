#ifndef VERIF_NGX_HTTP_H_
#define VERIF_NGX_HTTP_H_
#include "ngx_core.h"
#ifdef __cplusplus
extern "C" {
#endif
#define NGX_HTTP_UNKNOWN 0x00000001
#define NGX_HTTP_GET 0x00000002
#define NGX_HTTP_HEAD 0x00000004
#define NGX_HTTP_POST 0x00000008
#define NGX_HTTP_PUT 0x00000010
#define NGX_HTTP_DELETE 0x00000020
#define NGX_HTTP_MKCOL 0x00000040
#define NGX_HTTP_COPY 0x00000080
#define NGX_HTTP_MOVE 0x00000100
#define NGX_HTTP_OPTIONS 0x00000200
#define NGX_HTTP_PROPFIND 0x00000400
#define NGX_HTTP_PROPPATCH 0x00000800
#define NGX_HTTP_LOCK 0x00001000
#define NGX_HTTP_UNLOCK 0x00002000
#define NGX_HTTP_PATCH 0x00004000
#define NGX_HTTP_TRACE 0x00008000
#define NGX_HTTP_OK 200
#define NGX_HTTP_NO_CONTENT 204
#define NGX_HTTP_PARTIAL_CONTENT 206
#define NGX_HTTP_NOT_MODIFIED 304
#define NGX_HTTP_BAD_REQUEST 400
#define NGX_HTTP_FORBIDDEN 403
#define NGX_HTTP_NOT_FOUND 404
#define NGX_HTTP_NOT_ALLOWED 405
#define NGX_HTTP_INTERNAL_SERVER_ERROR 500
#define NGX_HTTP_SERVICE_UNAVAILABLE 503
#define NGX_HTTP_MODULE 0x50545448
#define NGX_HTTP_MAIN_CONF 0x02000000
#define NGX_HTTP_SRV_CONF 0x04000000
#define NGX_HTTP_LOC_CONF 0x08000000
#define NGX_HTTP_LIF_CONF 0x20000000
#define NGX_HTTP_MAIN_CONF_OFFSET 0
#define NGX_HTTP_SRV_CONF_OFFSET 8
#define NGX_HTTP_LOC_CONF_OFFSET 16
typedef struct ngx_http_request_s ngx_http_request_t;
typedef ngx_int_t (*ngx_http_handler_pt)(ngx_http_request_t* r);
typedef struct { ngx_array_t handlers; } ngx_http_phase_t;
typedef enum {
  NGX_HTTP_POST_READ_PHASE = 0, NGX_HTTP_SERVER_REWRITE_PHASE, NGX_HTTP_FIND_CONFIG_PHASE, NGX_HTTP_REWRITE_PHASE,
  NGX_HTTP_POST_REWRITE_PHASE, NGX_HTTP_PREACCESS_PHASE, NGX_HTTP_ACCESS_PHASE, NGX_HTTP_POST_ACCESS_PHASE,
  NGX_HTTP_PRECONTENT_PHASE, NGX_HTTP_CONTENT_PHASE, NGX_HTTP_LOG_PHASE
} ngx_http_phases;
typedef struct { ngx_http_phase_t phases[NGX_HTTP_LOG_PHASE + 1]; } ngx_http_core_main_conf_t;
typedef struct {
  ngx_flag_t gzip_vary, etag, log_not_found;
  size_t read_ahead;
  off_t directio;
  time_t open_file_cache_valid;
  ngx_uint_t open_file_cache_min_uses;
  ngx_flag_t open_file_cache_errors, open_file_cache_events;
  ngx_open_file_cache_t* open_file_cache;
  ngx_uint_t disable_symlinks;
  ngx_str_t root;
} ngx_http_core_loc_conf_t;
typedef struct {
  ngx_int_t (*preconfiguration)(ngx_conf_t*);
  ngx_int_t (*postconfiguration)(ngx_conf_t*);
  void* (*create_main_conf)(ngx_conf_t*);
  char* (*init_main_conf)(ngx_conf_t*, void*);
  void* (*create_srv_conf)(ngx_conf_t*);
  char* (*merge_srv_conf)(ngx_conf_t*, void*, void*);
  void* (*create_loc_conf)(ngx_conf_t*);
  char* (*merge_loc_conf)(ngx_conf_t*, void*, void*);
} ngx_http_module_t;
typedef struct { void **main_conf, **srv_conf, **loc_conf; } ngx_http_conf_ctx_t;
typedef struct { ngx_log_t* log; } ngx_connection_t;
typedef struct {
  ngx_list_t headers;
  ngx_table_elt_t *host, *user_agent, *if_modified_since, *accept, *accept_encoding, *accept_language, *range, *if_range, *via;
  off_t content_length_n;
} ngx_http_headers_in_t;
typedef struct {
  ngx_list_t headers, trailers;
  ngx_uint_t status;
  ngx_str_t status_line;
  ngx_table_elt_t *server, *date, *content_length, *content_encoding, *location, *last_modified, *content_range, *accept_ranges, *etag;
  ngx_str_t content_type, charset;
  size_t content_type_len;
  u_char* content_type_lowcase;
  ngx_uint_t content_type_hash;
  off_t content_length_n, content_offset;
  time_t date_time, last_modified_time;
} ngx_http_headers_out_t;
struct ngx_http_request_s {
  ngx_connection_t* connection;
  void **ctx, **main_conf, **srv_conf, **loc_conf;
  ngx_pool_t* pool;
  ngx_http_headers_in_t headers_in;
  ngx_http_headers_out_t headers_out;
  ngx_uint_t method;
  ngx_uint_t http_version;
  ngx_str_t request_line, uri, args, exten, unparsed_uri, method_name;
  ngx_http_request_t *main, *parent;
  unsigned gzip_tested : 1, gzip_ok : 1, gzip_vary : 1, root_tested : 1, header_only : 1, header_sent : 1, error_page : 1, internal : 1, allow_ranges : 1, disable_not_modified : 1, filter_need_in_memory : 1;
};
extern ngx_module_t ngx_http_core_module;
#define ngx_http_get_module_main_conf(r, module) (r)->main_conf[module.ctx_index]
#define ngx_http_get_module_srv_conf(r, module) (r)->srv_conf[module.ctx_index]
#define ngx_http_get_module_loc_conf(r, module) (r)->loc_conf[module.ctx_index]
#define ngx_http_conf_get_module_main_conf(cf, module) ((ngx_http_conf_ctx_t*)cf->ctx)->main_conf[module.ctx_index]
#define ngx_http_conf_get_module_loc_conf(cf, module) ((ngx_http_conf_ctx_t*)cf->ctx)->loc_conf[module.ctx_index]
u_char* ngx_http_map_uri_to_path(ngx_http_request_t* r, ngx_str_t* name, size_t* root_length, size_t reserved);
ngx_int_t ngx_http_set_disable_symlinks(ngx_http_request_t* r, ngx_http_core_loc_conf_t* clcf, ngx_str_t* path, ngx_open_file_info_t* of);
ngx_int_t ngx_http_discard_request_body(ngx_http_request_t* r);
ngx_int_t ngx_http_set_etag(ngx_http_request_t* r);
ngx_int_t ngx_http_set_content_type(ngx_http_request_t* r);
ngx_int_t ngx_http_send_header(ngx_http_request_t* r);
ngx_int_t ngx_http_output_filter(ngx_http_request_t* r, ngx_chain_t* chain);
#define ngx_http_clear_content_length(r) r->headers_out.content_length_n = -1
#define ngx_http_clear_accept_ranges(r) r->allow_ranges = 0
#ifdef __cplusplus
}
#endif
#endif
