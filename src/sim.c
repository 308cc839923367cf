#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdarg.h>
#include <sys/select.h>
#include <sys/time.h>
#include <sys/timerfd.h>
#include <time.h>
#include <unistd.h>
#include <arpa/inet.h>
#include "sim.h"

uint64_t sim_now; rng_t sim_rng; long sim_bad_close, sim_fd_opened, sim_events, sim_advances;
int (*sim_on_send)(const saddr_t *, const saddr_t *, const void *, unsigned);
void (*sim_on_consume)(const pkt_t *, unsigned);
void (*sim_on_select)(void);
int (*sim_on_idle)(void);
int (*sim_fault)(const char *);
int (*sim_spurious)(void);
jmp_buf sim_stop_buf;
int sim_streams; void (*sim_on_close)(const saddr_t *, const saddr_t *); int (*sim_writable)(int);
int sim_shutdown; long sim_switches; uint64_t sim_sched_hash;

#define FD0 100
#define NFD 400
enum { F_FREE, F_UDP, F_TIMER };
typedef struct { int kind, nonblock, connected, bound; saddr_t local, peer; pkt_t *head, *tail; int armed, ticks, stream; uint64_t expiry, period; } sfd_t;
static sfd_t F[NFD];
typedef struct ev { uint64_t t, tie; pkt_t *p; void (*fn)(void *); void *arg; } ev_t;
static ev_t *E; static int nE, capE;
static saddr_t conn_local; static unsigned long pkt_id;

#ifdef COAP_IP6
static char addr_strs[4][64]; static int addr_k;
void sim_addr(saddr_t *a, unsigned host, unsigned port)
{
    struct sockaddr_in6 *s = (struct sockaddr_in6 *)&a->ss;
    memset(a, 0, sizeof *a);
    s->sin6_family = AF_INET6; s->sin6_port = htons(port);
    s->sin6_addr.s6_addr[0] = 0xfd; s->sin6_addr.s6_addr[14] = host >> 8; s->sin6_addr.s6_addr[15] = host;
    a->len = sizeof *s;
}
const char *sim_addr_str(unsigned host) { char *b = addr_strs[addr_k++ & 3]; snprintf(b, 64, "fd00::%x", host); return b; }
#else
static char addr_strs[4][64]; static int addr_k;
void sim_addr(saddr_t *a, unsigned host, unsigned port)
{
    struct sockaddr_in *s = (struct sockaddr_in *)&a->ss;
    memset(a, 0, sizeof *a);
    s->sin_family = AF_INET; s->sin_port = htons(port); s->sin_addr.s_addr = htonl(0x0a000000u | host);
    a->len = sizeof *s;
}
const char *sim_addr_str(unsigned host) { char *b = addr_strs[addr_k++ & 3]; snprintf(b, 64, "10.%u.%u.%u", host >> 16 & 255, host >> 8 & 255, host & 255); return b; }
#endif
int sim_addr_eq(const saddr_t *a, const saddr_t *b) { return a->len == b->len && memcmp(&a->ss, &b->ss, a->len) == 0; }

static void fd_drop(sfd_t *f) { while (f->head) { pkt_t *p = f->head; f->head = p->next; free(p); } memset(f, 0, sizeof *f); }
static uint64_t sim_fd_hash;
void sim_reset(uint64_t seed)
{
    sim_fd_hash = vc_mix(seed, 0xfd);
    for (int i = 0; i < NFD; i++) fd_drop(&F[i]);
    for (int i = 0; i < nE; i++) free(E[i].p);
    nE = 0; sim_now = 1000 * SEC + vc_mix(seed, 7) % SEC; sim_rng.s = vc_mix(seed, 0x51a);
    sim_bad_close = sim_fd_opened = sim_events = sim_advances = 0; pkt_id = 0;
    sim_on_send = NULL; sim_on_consume = NULL; sim_on_select = NULL; sim_on_idle = NULL; sim_fault = NULL; sim_spurious = NULL;
    sim_shutdown = 0; sim_switches = 0; sim_sched_hash = 0;
}
void sim_local_for_connect(const saddr_t *a) { conn_local = *a; }
int sim_open_fds(void) { int n = 0; for (int i = 0; i < NFD; i++) n += F[i].kind != F_FREE; return n; }
static sfd_t *get(int fd) { return fd >= FD0 && fd < FD0 + NFD && F[fd - FD0].kind != F_FREE ? &F[fd - FD0] : NULL; }
static int newfd(int kind)
{
    /* not always the lowest: in a real process any descriptor below the lowest free one may have been closed and reused */
    int at = sim_fd_hash & 1 ? (int)(vc_mix(sim_fd_hash, (uint64_t)sim_fd_opened + 1) % 64) : 0;
    for (int j = 0, i = at; j < NFD; j++, i = (i + 1) % NFD) if (F[i].kind == F_FREE) { memset(&F[i], 0, sizeof F[i]); F[i].kind = kind; sim_fd_opened++; return FD0 + i; }
    errno = EMFILE; return -1;
}
/* ---- events */
static void ev_add(ev_t e)
{
    if (nE == capE) { capE = capE ? capE * 2 : 64; E = realloc(E, capE * sizeof *E); }
    e.tie = rng_u64(&sim_rng);
    int i = nE++;
    E[i] = e;
    while (i && (E[(i - 1) / 2].t > E[i].t || (E[(i - 1) / 2].t == E[i].t && E[(i - 1) / 2].tie > E[i].tie))) { ev_t x = E[i]; E[i] = E[(i - 1) / 2]; E[(i - 1) / 2] = x; i = (i - 1) / 2; }
}
static ev_t ev_pop(void)
{
    ev_t r = E[0]; E[0] = E[--nE]; int i = 0;
    for (;;)
    {
        int m = i;
        for (int c = 2 * i + 1; c <= 2 * i + 2 && c < nE; c++) if (E[c].t < E[m].t || (E[c].t == E[m].t && E[c].tie < E[m].tie)) m = c;
        if (m == i) break;
        ev_t x = E[i]; E[i] = E[m]; E[m] = x; i = m;
    }
    return r;
}
void sim_post(const saddr_t *from, const saddr_t *to, const void *d, unsigned len, uint64_t at)
{
    pkt_t *p = malloc(sizeof *p + len);
    p->from = *from; p->to = *to; p->len = len; p->id = ++pkt_id; p->next = NULL; memcpy(p->d, d, len);
    ev_t e = {at < sim_now ? sim_now : at, 0, p, NULL, NULL}; ev_add(e);
}
void sim_at(uint64_t t, void (*fn)(void *), void *arg) { ev_t e = {t < sim_now ? sim_now : t, 0, NULL, fn, arg}; ev_add(e); }
static void deliver(pkt_t *p)
{
    for (int i = 0; i < NFD; i++)
    {
        sfd_t *f = &F[i];
        if (f->kind != F_UDP || !f->bound || !sim_addr_eq(&f->local, &p->to)) continue;
        if (f->connected && !sim_addr_eq(&f->peer, &p->from)) continue;
        p->next = NULL;
        if (f->tail) f->tail->next = p; else f->head = p;
        f->tail = p;
        return;
    }
    free(p);
}
int sim_pending(const saddr_t *to)
{
    int n = 0;
    for (int i = 0; i < NFD; i++) if (F[i].kind == F_UDP && F[i].bound && sim_addr_eq(&F[i].local, to)) for (pkt_t *p = F[i].head; p; p = p->next) n++;
    return n;
}
/* ---- time */
static void timers_fire(void)
{
    for (int i = 0; i < NFD; i++)
        if (F[i].kind == F_TIMER && F[i].armed && F[i].expiry <= sim_now)
        {
            F[i].ticks++;
            if (F[i].period) { while (F[i].expiry <= sim_now) F[i].expiry += F[i].period; } else F[i].armed = 0;
        }
}
/* advance to the next thing that can happen, at most to limit; 0 if nothing can ever happen */
static int advance(uint64_t limit)
{
    uint64_t t = limit;
    for (int i = 0; i < NFD; i++) if (F[i].kind == F_TIMER && F[i].armed && F[i].expiry < t) t = F[i].expiry;
    if (nE && E[0].t < t) t = E[0].t;
    if (t == SIM_INF) return 0;
    if (t > sim_now) { sim_now = t; sim_advances++; }
    timers_fire();
    if (nE && E[0].t <= sim_now)
    {
        ev_t e = ev_pop();
        sim_events++;
        if (e.p) deliver(e.p); else e.fn(e.arg);
    }
    return 1;
}
/* ---- actors */
typedef struct { pthread_t th; sem_t sem; int state, daemon; fd_set rd; int nfds; uint64_t deadline; void (*fn)(void *); void *arg; jmp_buf stop; int *spin; } actor_t;
#define MAXA 64
static actor_t A[MAXA]; static int nA; static __thread int me = -1; static sem_t main_sem; static int all_done;

static int rd_ready(const fd_set *rd, int nfds, fd_set *out)
{
    int n = 0;
    if (out) FD_ZERO(out);
    for (int fd = FD0; fd < nfds && fd < FD0 + NFD; fd++)
    {
        if (!FD_ISSET(fd, rd)) continue;
        sfd_t *f = get(fd);
        if (f && ((f->kind == F_UDP && f->head) || (f->kind == F_TIMER && f->ticks))) { n++; if (out) FD_SET(fd, out); }
    }
    return n;
}
static int a_ready(actor_t *a)
{
    if (a->state == 0) return 1;
    if (a->state == 2) return 0;
    if (sim_shutdown && a->daemon) return 1;
    return rd_ready(&a->rd, a->nfds, NULL) || sim_now >= a->deadline;
}
static void schedule(void)
{
    /* give the baton to a ready actor, advancing time while there is none; returns when it is ours again */
    for (;;)
    {
        int c[MAXA], n = 0, live = 0;
        for (int i = 0; i < nA; i++) { if (a_ready(&A[i])) c[n++] = i; if (A[i].state != 2 && !A[i].daemon) live++; }
        if (!live) { sim_shutdown = 1; n = 0; for (int i = 0; i < nA; i++) if (a_ready(&A[i])) c[n++] = i; if (!n) { all_done = 1; sem_post(&main_sem); break; } }
        if (n)
        {
            int w = c[rng_below(&sim_rng, n)];
            sim_sched_hash = vc_mix(sim_sched_hash, w + 1);
            if (w == me) return;
            sim_switches++;
            sem_post(&A[w].sem);
            break;
        }
        uint64_t lim = SIM_INF;
        for (int i = 0; i < nA; i++) if (A[i].state == 1 && A[i].deadline < lim) lim = A[i].deadline;
        if (!advance(lim)) { if (sim_on_idle) sim_on_idle(); vc_viol("deadlock", "every actor waits and nothing can happen any more"); printf("TOOMANY\n"); fflush(stdout); _exit(1); }
    }
    if (me >= 0 && A[me].state != 2) { while (sem_wait(&A[me].sem)) {} }
}
static void *actor_main(void *p)
{
    me = (int)(long)p;
    while (sem_wait(&A[me].sem)) {}
    if (setjmp(A[me].stop) == 0) A[me].fn(A[me].arg);
    A[me].state = 2;
    schedule();
    return NULL;
}
int sim_actor_spawn(void (*fn)(void *), void *arg)
{
    if (nA == MAXA) return -1;
    A[nA].fn = fn; A[nA].arg = arg; A[nA].state = 0; A[nA].daemon = 0; sem_init(&A[nA].sem, 0, 0);
    if (pthread_create(&A[nA].th, NULL, actor_main, (void *)(long)nA)) return -1;
    return nA++;
}
int sim_actor(void (*fn)(void *), void *arg) { A[nA].fn = fn; A[nA].arg = arg; A[nA].state = 0; A[nA].daemon = 0; return nA++; }
void sim_actor_daemon(int id) { A[id].daemon = 1; }
void sim_run_actors(void)
{
    sem_init(&main_sem, 0, 0); all_done = 0; me = -1;
    for (long i = 0, n = nA; i < n; i++) { sem_init(&A[i].sem, 0, 0); pthread_create(&A[i].th, NULL, actor_main, (void *)i); }
    schedule();
    while (!all_done) while (sem_wait(&main_sem)) {}
    for (int i = 0; i < nA; i++) { pthread_join(A[i].th, NULL); sem_destroy(&A[i].sem); }
    sem_destroy(&main_sem);
    nA = 0;
}
void sim_stop(int code) { if (me >= 0) longjmp(A[me].stop, code ? code : 1); longjmp(sim_stop_buf, code ? code : 1); }
/* block the caller until one of rd is ready or the deadline passes */
static long spins;
static void block(const fd_set *rd, int nfds, uint64_t deadline)
{
    if (me >= 0)
    {
        A[me].rd = *rd; A[me].nfds = nfds; A[me].deadline = deadline; A[me].state = 1;
        schedule();
        A[me].state = 0;
        if (sim_shutdown && A[me].daemon) sim_stop(1);
        return;
    }
    if (sim_on_idle && !sim_on_idle() && !nE)
    {
        /* the script is over; timers of the code under test may still be running: idle hook decides by returning 0 forever */
    }
    if (!advance(deadline)) sim_stop(2);
}
/* ---- wrapped calls */
int __wrap_socket(int d, int t, int p) { (void)p; int e; if (sim_fault && (e = sim_fault("socket"))) { errno = e; return -1; } (void)d; int fd = newfd(F_UDP); if (fd >= 0 && (t & SOCK_NONBLOCK)) get(fd)->nonblock = 1; if (fd >= 0 && sim_streams && (t & 15) == SOCK_STREAM) get(fd)->stream = 1; return fd; }
int sim_sock_addr(int fd, saddr_t *local, saddr_t *peer) { sfd_t *f = get(fd); if (!f) return -1; *local = f->local; *peer = f->peer; return 0; }
int __wrap_setsockopt(int s, int l, int o, const void *v, socklen_t n) { (void)l; (void)o; (void)v; (void)n; if (!get(s)) { errno = EBADF; return -1; } return 0; }
int __wrap_bind(int s, const struct sockaddr *a, socklen_t n)
{
    sfd_t *f = get(s); int e;
    if (!f) { errno = EBADF; return -1; }
    if (sim_fault && (e = sim_fault("bind"))) { errno = e; return -1; }
    memset(&f->local, 0, sizeof f->local); memcpy(&f->local.ss, a, n); f->local.len = n; f->bound = 1; return 0;
}
int __wrap_connect(int s, const struct sockaddr *a, socklen_t n)
{
    sfd_t *f = get(s); int e;
    if (!f) { errno = EBADF; return -1; }
    if (sim_fault && (e = sim_fault("connect"))) { errno = e; return -1; }
    memset(&f->peer, 0, sizeof f->peer); memcpy(&f->peer.ss, a, n); f->peer.len = n; f->connected = 1;
    if (!f->bound) { f->local = conn_local; f->bound = 1; }
    return 0;
}
int __wrap_fcntl(int s, int cmd, ...)
{
    va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
    sfd_t *f = get(s);
    if (!f) { errno = EBADF; return -1; }
    if (cmd == F_GETFL) return O_RDWR | (f->nonblock ? O_NONBLOCK : 0);
    if (cmd == F_SETFL) { f->nonblock = !!(arg & O_NONBLOCK); return 0; }
    return 0;
}
int __wrap_close(int s)
{
    sfd_t *f = get(s);
    if (!f) { sim_bad_close++; errno = EBADF; return -1; }
    if (f->stream && f->connected && sim_on_close) sim_on_close(&f->local, &f->peer);
    fd_drop(f); return 0;
}
ssize_t __wrap_sendto(int s, const void *b, size_t n, int fl, const struct sockaddr *a, socklen_t al)
{
    sfd_t *f = get(s); saddr_t to; int e; (void)fl;
    if (!f || f->kind != F_UDP) { errno = EBADF; return -1; }
    if (sim_fault && (e = sim_fault("send"))) { errno = e; return -1; }
    if (a) { if (al > sizeof to.ss) { errno = EINVAL; return -1; } memset(&to, 0, sizeof to); memcpy(&to.ss, a, al); to.len = al; }
    else if (f->connected) to = f->peer;
    else { errno = EDESTADDRREQ; return -1; }
    if (sim_on_send && (e = sim_on_send(&f->local, &to, b, n))) { errno = e; return -1; }
    return n;
}
ssize_t __wrap_send(int s, const void *b, size_t n, int fl) { return __wrap_sendto(s, b, n, fl, NULL, 0); }
ssize_t __real_write(int s, const void *b, size_t n);
ssize_t __wrap_write(int s, const void *b, size_t n) { return get(s) ? __wrap_sendto(s, b, n, 0, NULL, 0) : __real_write(s, b, n); }
int __wrap_shutdown(int s, int how) { (void)how; if (!get(s)) { errno = EBADF; return -1; } return 0; }
int __wrap_getsockopt(int s, int l, int o, void *v, socklen_t *n) { (void)l; (void)o; if (!get(s)) { errno = EBADF; return -1; } memset(v, 0, *n); return 0; }
static int sa_out(int s, struct sockaddr *a, socklen_t *n, int peer)
{
    sfd_t *f = get(s); saddr_t *x;
    if (!f) { errno = EBADF; return -1; }
    x = peer ? &f->peer : &f->local;
    if (peer && !f->connected) { errno = ENOTCONN; return -1; }
    memcpy(a, &x->ss, *n < x->len ? *n : x->len); *n = x->len; return 0;
}
int __wrap_getsockname(int s, struct sockaddr *a, socklen_t *n) { return sa_out(s, a, n, 0); }
int __wrap_getpeername(int s, struct sockaddr *a, socklen_t *n) { return sa_out(s, a, n, 1); }
ssize_t __wrap_recvfrom(int s, void *b, size_t n, int fl, struct sockaddr *a, socklen_t *al)
{
    sfd_t *f = get(s); int e;
    if (!f || f->kind != F_UDP) { errno = EBADF; return -1; }
    if (sim_fault && (e = sim_fault("recv"))) { errno = e; return -1; }
    while (!f->head)
    {
        if (f->nonblock || (fl & MSG_DONTWAIT)) { errno = EAGAIN; return -1; }
        fd_set r; FD_ZERO(&r); FD_SET(s, &r); block(&r, s + 1, SIM_INF);
    }
    pkt_t *p = f->head;
    size_t got = p->len < n ? p->len : n;
    memcpy(b, p->d, got);
    if (a && al) { socklen_t c = *al < p->from.len ? *al : p->from.len; memcpy(a, &p->from.ss, c); *al = p->from.len; }
    if (f->stream && !(fl & MSG_PEEK) && got < p->len) { if (sim_on_consume) sim_on_consume(p, got); memmove(p->d, p->d + got, p->len - got); p->len -= got; return got; }
    if (f->stream && p->len == 0) return 0;      /* the end stays */
    if (!(fl & MSG_PEEK))
    {
        f->head = p->next; if (!f->head) f->tail = NULL;
        if (sim_on_consume) sim_on_consume(p, got);
        size_t full = p->len; free(p);
        return (fl & MSG_TRUNC) ? (ssize_t)full : (ssize_t)got;
    }
    return (fl & MSG_TRUNC) ? (ssize_t)p->len : (ssize_t)got;
}
ssize_t __wrap_recv(int s, void *b, size_t n, int fl) { return __wrap_recvfrom(s, b, n, fl, NULL, NULL); }
ssize_t __wrap_read(int s, void *b, size_t n)
{
    sfd_t *f = get(s);
    if (!f) { errno = EBADF; return -1; }
    if (f->kind == F_UDP) return __wrap_recvfrom(s, b, n, 0, NULL, NULL);
    if (n < 8) { errno = EINVAL; return -1; }
    if (!f->ticks) { errno = EAGAIN; return -1; }
    uint64_t v = f->ticks; memcpy(b, &v, 8); f->ticks = 0; return 8;
}
static int do_select(int nfds, fd_set *rd, uint64_t deadline, fd_set *out)
{
    if (sim_on_select) sim_on_select();
    for (;;)
    {
        timers_fire();
        int n = rd_ready(rd, nfds, out);
        if (n) { spins = 0; return n; }
        if (sim_spurious && sim_spurious())
            for (int fd = FD0; fd < nfds && fd < FD0 + NFD; fd++) if (FD_ISSET(fd, rd) && get(fd) && get(fd)->kind == F_UDP) { FD_ZERO(out); FD_SET(fd, out); return 1; }
        if (sim_now >= deadline) { FD_ZERO(out); return 0; }
        block(rd, nfds, deadline);
    }
}
int __wrap_select(int nfds, fd_set *rd, fd_set *wr, fd_set *ex, struct timeval *tv)
{
    fd_set in, out; int e;
    if (sim_fault && (e = sim_fault("select"))) { errno = e; return -1; }
    FD_ZERO(&in);
    if (rd) in = *rd;
    for (int fd = 0; fd < nfds && fd < FD_SETSIZE; fd++) if (FD_ISSET(fd, &in) && !get(fd)) { errno = EBADF; return -1; }
    uint64_t dl = tv ? sim_now + (uint64_t)tv->tv_sec * SEC + (uint64_t)tv->tv_usec * 1000 : SIM_INF;
    uint64_t until = dl;
    if (wr && sim_writable)
    {
        int any = 0; fd_set none; FD_ZERO(&none);
        for (;;)
        {
            for (int fd = 0; fd < nfds; fd++) if (FD_ISSET(fd, wr) && get(fd) && sim_writable(fd)) any = 1;
            if (any || sim_now >= dl) break;
            block(&none, 0, sim_now + 5 * MSEC < dl ? sim_now + 5 * MSEC : dl);
        }
        int n = 0;
        for (int fd = 0; fd < nfds; fd++) if (FD_ISSET(fd, wr)) { if (get(fd) && sim_writable(fd)) n++; else FD_CLR(fd, wr); }
        if (rd) FD_ZERO(rd);
        if (ex) FD_ZERO(ex);
        if (tv) { uint64_t left = dl > sim_now ? dl - sim_now : 0; tv->tv_sec = left / SEC; tv->tv_usec = left % SEC / 1000; }
        return n;
    }
    if (wr) for (int fd = 0; fd < nfds; fd++) if (FD_ISSET(fd, wr) && get(fd)) until = sim_now;
    int n = do_select(nfds, &in, until, &out);
    if (rd) *rd = out;
    if (wr) { for (int fd = 0; fd < nfds; fd++) if (FD_ISSET(fd, wr)) { if (get(fd)) n++; } }
    if (ex) FD_ZERO(ex);
    if (tv) { uint64_t left = dl > sim_now ? dl - sim_now : 0; tv->tv_sec = left / SEC; tv->tv_usec = left % SEC / 1000; }
    return n;
}
int __wrap_pselect(int nfds, fd_set *rd, fd_set *wr, fd_set *ex, const struct timespec *ts, const sigset_t *ss)
{
    struct timeval tv; (void)ss;
    if (ts) { tv.tv_sec = ts->tv_sec; tv.tv_usec = (ts->tv_nsec + 999) / 1000; }
    return __wrap_select(nfds, rd, wr, ex, ts ? &tv : NULL);
}
int __wrap_poll(struct pollfd *p, nfds_t n, int ms)
{
    fd_set in, out; int mx = 0, r = 0;
    FD_ZERO(&in);
    for (nfds_t i = 0; i < n; i++) { p[i].revents = 0; if (p[i].fd >= 0 && get(p[i].fd) && (p[i].events & POLLIN)) { FD_SET(p[i].fd, &in); if (p[i].fd >= mx) mx = p[i].fd + 1; } }
    do_select(mx, &in, ms < 0 ? SIM_INF : sim_now + (uint64_t)ms * MSEC, &out);
    for (nfds_t i = 0; i < n; i++) if (p[i].fd >= 0 && get(p[i].fd) && FD_ISSET(p[i].fd, &out)) { p[i].revents = POLLIN; r++; }
    return r;
}
int __wrap_timerfd_create(int c, int fl)
{
    int e; (void)c;
    if (sim_fault && (e = sim_fault("timerfd_create"))) { errno = e; return -1; }
    int fd = newfd(F_TIMER); if (fd >= 0) get(fd)->nonblock = !!(fl & TFD_NONBLOCK); return fd;
}
int __wrap_timerfd_settime(int fd, int fl, const struct itimerspec *n, struct itimerspec *o)
{
    sfd_t *f = get(fd); int e; (void)o;
    if (!f || f->kind != F_TIMER) { errno = EBADF; return -1; }
    if (n->it_value.tv_nsec < 0 || n->it_value.tv_nsec >= 1000000000L || n->it_value.tv_sec < 0) { errno = EINVAL; return -1; }
    if (sim_fault && (e = sim_fault("timerfd_settime"))) { errno = e; return -1; }
    uint64_t v = (uint64_t)n->it_value.tv_sec * SEC + n->it_value.tv_nsec;
    f->ticks = 0; f->armed = v != 0; f->period = (uint64_t)n->it_interval.tv_sec * SEC + n->it_interval.tv_nsec;
    f->expiry = (fl & TFD_TIMER_ABSTIME) ? v : sim_now + v;
    return 0;
}
int __wrap_timerfd_gettime(int fd, struct itimerspec *o)
{
    sfd_t *f = get(fd);
    if (!f || f->kind != F_TIMER) { errno = EBADF; return -1; }
    memset(o, 0, sizeof *o);
    if (f->armed) { uint64_t l = f->expiry > sim_now ? f->expiry - sim_now : 1; o->it_value.tv_sec = l / SEC; o->it_value.tv_nsec = l % SEC; }
    return 0;
}
time_t __wrap_time(time_t *t) { time_t v = 1700000000 + sim_now / SEC; if (t) *t = v; return v; }
int __wrap_clock_gettime(clockid_t c, struct timespec *t) { t->tv_sec = (c == CLOCK_REALTIME ? 1700000000 : 0) + sim_now / SEC; t->tv_nsec = sim_now % SEC; return 0; }
int __wrap_gettimeofday(struct timeval *t, void *z) { (void)z; t->tv_sec = 1700000000 + sim_now / SEC; t->tv_usec = sim_now % SEC / 1000; return 0; }
int sim_rand_top;        /* when 2: the next two calls end in 0xf0-0xff and 0xff */
int __wrap_rand(void) { if (sim_rand_top > 0) return sim_rand_top-- == 2 ? 0xf0 | (int)(rng_u64(&sim_rng) & 15) : 0xff; return (int)(rng_u64(&sim_rng) & 0x7fffffff); }
void __wrap_srand(unsigned s) { (void)s; }
long __wrap_random(void) { return (long)(rng_u64(&sim_rng) & 0x7fffffff); }
int (*sim_on_accept)(int fd, int id, saddr_t *local);
int __wrap_listen(int s, int b) { (void)b; if (!get(s)) { errno = EBADF; return -1; } return 0; }
/* a datagram at a listening socket is a connection, its content the number of the connection */
int __wrap_accept(int s, struct sockaddr *a, socklen_t *al)
{
    int id = 0, e; sfd_t *f; saddr_t loc; char b[64];
    if (sim_fault && (e = sim_fault("accept"))) { errno = e; return -1; }
    ssize_t n = __wrap_recvfrom(s, b, sizeof b, 0, a, al);
    if (n < (ssize_t)sizeof id) return -1;
    memcpy(&id, b, sizeof id);
    int fd = newfd(F_UDP);
    if (fd < 0) return -1;
    f = get(fd);
    if (sim_on_accept && sim_on_accept(fd, id, &loc)) { fd_drop(f); errno = ECONNABORTED; return -1; }
    f->local = loc; f->bound = 1;
    if (sim_streams) { f->stream = f->connected = 1; memset(&f->peer, 0, sizeof f->peer); memcpy(&f->peer.ss, a, *al); f->peer.len = *al; }
    return fd;
}
static void doze(uint64_t ns) { fd_set r; FD_ZERO(&r); uint64_t dl = sim_now + ns; while (sim_now < dl) block(&r, 0, dl); }
unsigned __wrap_sleep(unsigned n) { doze(n * SEC); return 0; }
int __wrap_usleep(useconds_t n) { doze(n * 1000ULL); return 0; }
int __wrap_nanosleep(const struct timespec *q, struct timespec *r) { (void)r; doze((uint64_t)q->tv_sec * SEC + q->tv_nsec); return 0; }
