/* What the proxy harness (h_conn.c) and its CoAP origin servers (origin.c) share. */
#ifndef HCONN_H
#define HCONN_H
#include <stdint.h>
#include <stddef.h>
#define OMAX 8192
#define NSRV 3
enum { K_SMALL, K_BGET, K_BUP, K_413, K_BIGGET, K_NORIGIN, K_SILENT, K_RAW };
typedef struct
{
    int kind, method, server, code;            /* code: class * 32 + detail the origin answers with */
    unsigned up, down, sb1, sb2; uint64_t salt;
    int execs, plain, rx;                      /* executions: all, answered 4.13, bodies delivered */
} plan_t;
plan_t *plan_find(const void *tag, size_t len);
void plan_fill(void *p, size_t n, uint64_t salt);
int origin_create(int i, const char *host, const char *port);
void origin_run(int i);
void origin_destroy(int i);
#endif
