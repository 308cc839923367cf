/* Simulated sockets, timers, clock and randomness (linked in with -Wl,--wrap): virtual time, scripted network,
   fault injection, event hooks. Single mode: the code under test runs in the calling thread and the world advances
   inside select(). Actor mode: several threads passing a baton, scheduled pseudo-randomly. */
#ifndef SIM_H
#define SIM_H
#include <stdint.h>
#include <stddef.h>
#include <setjmp.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include "vc.h"

#define MSEC 1000000ULL
#define SEC 1000000000ULL
#define SIM_INF UINT64_MAX
#define SIM_MAXPKT 2048

typedef struct { struct sockaddr_storage ss; socklen_t len; } saddr_t;
typedef struct pkt { saddr_t from, to; unsigned len; unsigned long id; struct pkt *next; unsigned char d[]; } pkt_t;

extern uint64_t sim_now;
extern rng_t sim_rng;            /* drives rand() and scheduling */
extern long sim_bad_close, sim_fd_opened, sim_events, sim_advances;

void sim_reset(uint64_t seed);
void sim_addr(saddr_t *a, unsigned host, unsigned port);   /* 10.0.x.y or fd00::x:y depending on the build */
const char *sim_addr_str(unsigned host);                  /* numeric host string */
int sim_addr_eq(const saddr_t *a, const saddr_t *b);
void sim_post(const saddr_t *from, const saddr_t *to, const void *d, unsigned len, uint64_t at);
void sim_at(uint64_t t, void (*fn)(void *), void *arg);
int sim_open_fds(void);
int sim_pending(const saddr_t *to);     /* datagrams queued at a socket */
void sim_local_for_connect(const saddr_t *a);

/* hooks */
extern int (*sim_on_send)(const saddr_t *from, const saddr_t *to, const void *d, unsigned len); /* 0 or errno */
extern void (*sim_on_consume)(const pkt_t *p, unsigned got);
extern void (*sim_on_select)(void);     /* every select entry */
extern int (*sim_on_idle)(void);        /* nothing ready, about to advance time; return 0: stop if no events either */
extern int (*sim_fault)(const char *call); /* 0 or errno */
extern int (*sim_spurious)(void);       /* report a UDP socket readable although it is empty */
void sim_stop(int code) __attribute__((noreturn)); /* longjmp out of the code under test (single mode / own actor) */
extern jmp_buf sim_stop_buf;

/* stream sockets (sim_streams): segments posted in order make up the stream, an empty one ends it */
extern int sim_streams;
extern void (*sim_on_close)(const saddr_t *local, const saddr_t *peer);
extern int (*sim_writable)(int fd);
int sim_sock_addr(int fd, saddr_t *local, saddr_t *peer);

/* actors */
int sim_actor(void (*fn)(void *), void *arg);
int sim_actor_spawn(void (*fn)(void *), void *arg);        /* while the actors run */
extern int (*sim_on_accept)(int fd, int id, saddr_t *local); /* a connection is accepted; nonzero: it is gone again */
void sim_run_actors(void);              /* runs until all actors are done */
extern int sim_shutdown;                /* actors blocked in select get stopped once set */
#define SIM_DAEMON 1
void sim_actor_daemon(int id);          /* actor that is stopped when all others are done */
extern long sim_switches; extern uint64_t sim_sched_hash;
extern int sim_rand_top;
#endif
