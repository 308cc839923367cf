#define _GNU_SOURCE
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <time.h>
#include "vc.h"
#include <stdarg.h>
#include <signal.h>
#include <sys/time.h>
#include <unistd.h>

const char *vc_prop = "P00", *vc_mode = "";
uint64_t vc_seed = 1; long vc_case = -1; rng_t vc_rng; int vc_verbose, vc_viol_in_case;
unsigned vc_case_wall_s = 120;
unsigned vc_case_cpu_s = 30;
static int n_viol;

uint64_t vc_mix(uint64_t a, uint64_t b)
{
    uint64_t z = a + 0x9e3779b97f4a7c15ULL * (b + 1);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
uint64_t rng_u64(rng_t *r)
{
    uint64_t z = (r->s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
void rng_bytes(rng_t *r, void *buf, size_t len)
{
    unsigned char *p = buf;
    while (len--) *p++ = (unsigned char)(rng_u64(r) >> 17);
}
uint64_t vc_hash(const void *p, size_t n, uint64_t h)
{
    const unsigned char *c = p;
    h ^= 0xcbf29ce484222325ULL;
    while (n--) { h ^= *c++; h *= 0x100000001b3ULL; }
    return vc_mix(h, n);
}
/* counters */
static struct { char name[64]; uint64_t v; } cnt[256]; static int n_cnt;
void vc_count(const char *name, uint64_t n)
{
    for (int i = 0; i < n_cnt; i++) if (!strcmp(cnt[i].name, name)) { cnt[i].v += n; return; }
    if (n_cnt < 256) { snprintf(cnt[n_cnt].name, 64, "%s", name); cnt[n_cnt++].v = n; }
}
uint64_t vc_get(const char *name)
{
    for (int i = 0; i < n_cnt; i++) if (!strcmp(cnt[i].name, name)) return cnt[i].v;
    return 0;
}
/* distinct set: open addressing */
static uint64_t *dset; static size_t dcap, dn;
static void dins(uint64_t h)
{
    size_t i = h & (dcap - 1);
    while (dset[i]) { if (dset[i] == h) return; i = (i + 1) & (dcap - 1); }
    dset[i] = h; dn++;
}
static uint64_t n_offers;
extern volatile int vh_on __attribute__((weak));
void vc_distinct(uint64_t h)
{
    n_offers++;
    if (!h) h = 1;
    if (dn * 2 >= dcap)
    {
        size_t oc = dcap; uint64_t *o = dset;
        dcap = dcap ? dcap * 2 : 65536;
        int on = &vh_on != NULL ? vh_on : 0; /* the heap monitor watches the code under test only */
        if (on) vh_on = 0;
        dset = calloc(dcap, 8); dn = 0;
        if (on) vh_on = on;
        for (size_t i = 0; i < oc; i++) if (o[i]) dins(o[i]);
        free(o);
    }
    dins(h);
}
static char *samples[6]; static int n_samples; static long last_sample_case = -1;
int vc_want_sample(void) { return n_samples < 6 && last_sample_case != vc_case; }
void vc_sample(const char *fmt, ...)
{
    va_list ap;
    if (n_samples >= 6) return;
    va_start(ap, fmt);
    if (vasprintf(&samples[n_samples], fmt, ap) >= 0) n_samples++;
    va_end(ap);
    last_sample_case = vc_case;
}
void vc_note(const char *key, const char *fmt, ...)
{
    static char seen[8][64]; static int n;
    va_list ap; char b[3000];
    vc_count(key, 1);
    for (int i = 0; i < n; i++) if (!strcmp(seen[i], key)) return;
    if (n < 8) snprintf(seen[n++], 64, "%s", key);
    va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    for (char *p = b; *p; p++) if (*p == '\n' || *p == '\r') *p = ' ';
    printf("VIOL prop=%s key=%s case=%ld %s\n", vc_prop, key, vc_case, b);
    fflush(stdout);
}
char *vc_hex(const void *p, size_t n)
{
    static char b[4][2100]; static int k; char *o = b[k = (k + 1) & 3];
    size_t i; const unsigned char *c = p;
    for (i = 0; i < n && i < 1000; i++) sprintf(o + 2 * i, "%02x", c[i]);
    o[2 * i] = 0;
    if (i < n) strcat(o, "...");
    return o;
}
void vc_trace(const char *fmt, ...)
{
    va_list ap;
    if (!vc_verbose) return;
    va_start(ap, fmt); vfprintf(stderr, fmt, ap); va_end(ap); fputc('\n', stderr);
}
void vc_viol(const char *key, const char *fmt, ...)
{
    char msg[3000]; va_list ap;
    va_start(ap, fmt); vsnprintf(msg, sizeof msg, fmt, ap); va_end(ap);
    for (char *c = msg; *c; c++) if (*c == '\n' || *c == '\r') *c = ' ';
    vc_viol_in_case++;
    n_viol++;
    printf("VIOL prop=%s key=%s case=%ld %s\n", vc_prop, key, vc_case, msg);
    fflush(stdout);
    if (n_viol >= 20) { printf("TOOMANY\n"); fflush(stdout); _exit(1); }
}
static void jstr(const char *s)
{
    putchar('"');
    for (; *s; s++)
    {
        unsigned char c = *s;
        if (c == '"' || c == '\\') printf("\\%c", c);
        else if (c < 32 || c > 126) printf("\\u%04x", c);
        else putchar(c);
    }
    putchar('"');
}
static void on_vtalrm(int s)
{
    char b[200];
    int n = snprintf(b, sizeof b, "VIOL prop=%s key=hang case=%ld no progress after the CPU limit of one case\n", vc_prop, vc_case);
    (void)s;
    if (write(1, b, n) < 0) {}
    _exit(1);
}
/* a child process that ends the harness when a case makes no progress in real time (a deadlock uses no CPU time, and signals are
   deferred in threads that ThreadSanitizer sees blocked); raw system calls, because the harness may have wrapped the usual ones */
static volatile long *progress;
static void watchdog(void)
{
    pid_t up = getpid();
    progress = mmap(NULL, sizeof *progress, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (progress == MAP_FAILED) { static long dummy; progress = &dummy; return; }
    if (fork() != 0) return;
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    long last = 0; unsigned t = 0;
    while (getppid() == up)
    {
        struct timespec s = { 1, 0 };
        syscall(SYS_nanosleep, &s, NULL);
        if (*progress != last || last < 0) { last = *progress; t = 0; continue; }
        if (++t < vc_case_wall_s) continue;
        char b[200];
        int n = snprintf(b, sizeof b, "VIOL prop=%s key=hang case=%ld no progress in real time\n", vc_prop, last - 1);
        if (syscall(SYS_write, 1, b, n) < 0) {}
        syscall(SYS_kill, up, SIGKILL);
        break;
    }
    syscall(SYS_exit_group, 0);
}
extern void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
static void on_death(void)
{
    char b[100];
    int n = snprintf(b, sizeof b, "CRASHCASE %ld\n", vc_case);
    if (write(1, b, n) < 0) {}
}
static void on_abrt(int s)
{
    on_death();
    signal(s, SIG_DFL);
    raise(s);
}
static char **g_argv; static int g_argc;
const char *vc_opt(const char *name, const char *def)
{
    size_t n = strlen(name);
    for (int i = 1; i + 1 < g_argc; i++)
        if (!strcmp(g_argv[i], "--opt") && !strncmp(g_argv[i + 1], name, n) && g_argv[i + 1][n] == '=')
            return g_argv[i + 1] + n + 1;
    return def;
}
int vc_main(int argc, char **argv, const vc_mode_t *modes)
{
    long first = 0, cases = 1, only = -1; const vc_mode_t *m;
    g_argv = argv; g_argc = argc;
    for (int i = 1; i < argc; i++)
    {
        if (!strcmp(argv[i], "--prop")) vc_prop = argv[++i];
        else if (!strcmp(argv[i], "--mode")) vc_mode = argv[++i];
        else if (!strcmp(argv[i], "--seed")) vc_seed = strtoull(argv[++i], 0, 10);
        else if (!strcmp(argv[i], "--first")) first = atol(argv[++i]);
        else if (!strcmp(argv[i], "--cases")) cases = atol(argv[++i]);
        else if (!strcmp(argv[i], "--only")) only = atol(argv[++i]);
        else if (!strcmp(argv[i], "--verbose")) vc_verbose = 1;
        else if (!strcmp(argv[i], "--opt")) i++;
    }
    for (m = modes; m->mode; m++) if (!strcmp(m->mode, vc_mode)) break;
    if (!m->mode) { fprintf(stderr, "unknown mode %s\n", vc_mode); return 3; }
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_death);
    signal(SIGABRT, on_abrt);
    signal(SIGVTALRM, on_vtalrm);
    watchdog();
    if (only >= 0) { first = only; cases = 1; }
    long done = 0;
    for (vc_case = first; vc_case < first + cases; vc_case++)
    {
        struct itimerval it = {{0, 0}, {vc_case_cpu_s, 0}};
        setitimer(ITIMER_VIRTUAL, &it, NULL);
        *progress = vc_case + 1;
        vc_rng.s = vc_mix(vc_mix(vc_seed, vc_hash(vc_mode, strlen(vc_mode), 0)), (uint64_t)vc_case);
        vc_viol_in_case = 0;
        m->run();
        done++;
        if (n_viol >= 3) break;
    }
    struct itimerval off = {{0, 0}, {0, 0}};
    setitimer(ITIMER_VIRTUAL, &off, NULL);
    *progress = -1;
    printf("STAT {\"mode\":\"%s\",\"cases\":%ld,\"evals\":%llu,\"distinct\":%zu,\"violations\":%d,\"rule\":", vc_mode, done, (unsigned long long)((uint64_t)done > n_offers ? (uint64_t)done : n_offers), dn, n_viol);
    jstr(m->rule ? m->rule : "");
    printf(",\"counters\":{");
    for (int i = 0; i < n_cnt; i++) { if (i) putchar(','); jstr(cnt[i].name); printf(":%llu", (unsigned long long)cnt[i].v); }
    printf("},\"samples\":[");
    for (int i = 0; i < n_samples; i++) { if (i) putchar(','); jstr(samples[i]); }
    printf("]");
    if (dn <= 5000)
    {
        /* few enough to be merged exactly with those of the other shards */
        int k = 0;
        printf(",\"hashes\":[");
        for (size_t i = 0; i < dcap; i++) if (dset[i]) printf("%s\"%llx\"", k++ ? "," : "", (unsigned long long)dset[i]);
        printf("]");
    }
    printf("}\n");
    fflush(stdout);
    /* free our own memory so that leak checking sees only the code under test */
    free(dset); dset = NULL;
    for (int i = 0; i < n_samples; i++) free(samples[i]);
    return n_viol ? 1 : 0;
}
