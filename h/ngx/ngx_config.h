// A stand-in for the parts of nginx's API that a content handler uses.  The types and the string
// functions follow nginx's documented behaviour; the calls into the server are answered by the harness.
#ifndef VERIF_NGX_CONFIG_H_
#define VERIF_NGX_CONFIG_H_
#include <errno.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <sys/types.h>
#include <time.h>
typedef intptr_t ngx_int_t;
typedef uintptr_t ngx_uint_t;
typedef intptr_t ngx_flag_t;
typedef ngx_uint_t ngx_msec_t;
typedef int ngx_fd_t;
typedef int ngx_err_t;
#define ngx_inline inline
#define ngx_cdecl
#define NGX_WIN32 0
#define NGX_HAVE_OPENAT 1
#define NGX_HTTP_HEADERS 1
#define NGX_PCRE 0
#define NGX_THREADS 0
#define LF (u_char)'\n'
#define CR (u_char)'\r'
#endif
