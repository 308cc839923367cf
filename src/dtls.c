/* GnuTLS inside the simulation: its clock is the simulated one, the slow generation of Diffie-Hellman parameters is
   replaced by well-known ones, and every record sent is shown to the harness before it is encrypted. */
#define _GNU_SOURCE
#include <time.h>
#include <sys/time.h>
#include <gnutls/gnutls.h>
#include "sim.h"
#include "dtls.h"

const void *dtls_plain; unsigned dtls_plain_len;
int clock_gettime(clockid_t c, struct timespec *t) { t->tv_sec = (c == CLOCK_REALTIME ? 1700000000 : 0) + sim_now / SEC; t->tv_nsec = sim_now % SEC; return 0; }
static time_t now(time_t *t) { time_t v = 1700000000 + sim_now / SEC; if (t) *t = v; return v; }
void dtls_init(void) { gnutls_global_init(); gnutls_global_set_time_function(now); }
int __wrap_gnutls_dh_params_generate2(gnutls_dh_params_t p, unsigned bits) { (void)bits; return gnutls_dh_params_import_raw(p, &gnutls_ffdhe_2048_group_prime, &gnutls_ffdhe_2048_group_generator); }
ssize_t __real_gnutls_record_send(gnutls_session_t s, const void *d, size_t n);
ssize_t __wrap_gnutls_record_send(gnutls_session_t s, const void *d, size_t n)
{
    dtls_plain = d; dtls_plain_len = n;
    ssize_t r = __real_gnutls_record_send(s, d, n);
    dtls_plain = NULL; dtls_plain_len = 0;
    return r;
}
