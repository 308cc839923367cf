/* Common harness support: PRNG, case loop, statistics, violation reports, watchdog. */
#ifndef VC_H
#define VC_H
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

typedef struct { uint64_t s; } rng_t;
uint64_t vc_mix(uint64_t a, uint64_t b);
uint64_t rng_u64(rng_t *r);
static inline uint32_t rng_below(rng_t *r, uint32_t n) { return n ? (uint32_t)(rng_u64(r) % n) : 0; }
static inline int rng_range(rng_t *r, int lo, int hi) { return lo + (int)rng_below(r, (uint32_t)(hi - lo + 1)); }
static inline int rng_chance(rng_t *r, unsigned num, unsigned den) { return rng_below(r, den) < num; }
void rng_bytes(rng_t *r, void *buf, size_t len);

extern const char *vc_prop;      /* property id being decided */
extern const char *vc_mode;      /* harness mode */
extern uint64_t vc_seed;
extern long vc_case;             /* current case index */
extern rng_t vc_rng;             /* seeded per case */
extern int vc_verbose;
extern int vc_viol_in_case;

/* named counters */
void vc_count(const char *name, uint64_t n);
uint64_t vc_get(const char *name);
/* note a distinct non-trivial observation (64-bit hash) */
void vc_distinct(uint64_t h);
uint64_t vc_hash(const void *p, size_t n, uint64_t h);
/* keep a written-out sample of an actual case */
void vc_sample(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
int vc_want_sample(void);
/* report a violation (key must not contain blanks) */
void vc_viol(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
/* report a finding that known_findings.txt lists: once per process, without ending the run */
void vc_note(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
char *vc_hex(const void *p, size_t n); /* rotating static buffers */
void vc_trace(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

typedef struct { const char *mode; void (*run)(void); const char *rule; } vc_mode_t;
/* parses argv: --prop P --mode M --seed N --first A --cases N --only I --verbose; runs cases; prints STAT */
int vc_main(int argc, char **argv, const vc_mode_t *modes);
/* optional arguments for the harness: value of --opt name=value */
const char *vc_opt(const char *name, const char *def);
extern unsigned vc_case_wall_s;  /* wall-clock watchdog per case (default 120: a case takes milliseconds unless it deadlocks) */
extern unsigned vc_case_cpu_s;   /* CPU watchdog per case (default 30) */
#endif
