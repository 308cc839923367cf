/* coap_log replacement: formats every message (so that bad arguments are seen by the sanitizers) and keeps quiet */
#include <stdarg.h>
#include <stdio.h>
#include "coap_log.h"
int simlog_verbose;
static void out(const char *lvl, const char *msg, va_list ap) { char b[2000]; vsnprintf(b, sizeof b, msg, ap); if (simlog_verbose) fprintf(stderr, "      [%s] %s\n", lvl, b); }
void coap_log_set_level(coap_log_level_t level) { (void)level; }
coap_log_level_t coap_log_get_level(void) { return COAP_LOG_DEBUG; }
#define L(name) void coap_log_##name(const char *msg, ...) { va_list ap; va_start(ap, msg); out(#name, msg, ap); va_end(ap); }
L(error) L(warn) L(notice) L(info) L(debug)
