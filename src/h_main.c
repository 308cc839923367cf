/* P32: the proxy program as a process: command line, start-up with usable and unusable configurations, signals. Each case runs the real main
   in a child process (ASan, leak check at exit) in the harness's scratch directory, with real loopback sockets. */
#include "vc.h"
#include "pki.h"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <gnutls/gnutls.h>
#define V(...) do { if (!vc_viol_in_case) vc_viol(__VA_ARGS__); } while (0)
int proxy_main(int argc, char **argv);
int __wrap_gnutls_dh_params_generate2(gnutls_dh_params_t p, unsigned bits) { (void)bits; return gnutls_dh_params_import_raw(p, &gnutls_ffdhe_2048_group_prime, &gnutls_ffdhe_2048_group_generator); }

/* ---- in the child: a signal that arrives just before the program goes to sleep (or the listener's thread starts) */
static int early, early_sig, quick_sleep, injected_fd = -1;
static void strike(void) { if (early) { early = 0; write(injected_fd, "x", 1); kill(getpid(), early_sig); } }
unsigned __real_sleep(unsigned s);
unsigned __wrap_sleep(unsigned s)
{
    if (s < 60) { if (!quick_sleep) return __real_sleep(s); struct timespec t = { 0, 30000000L }; while (nanosleep(&t, &t) < 0 && errno == EINTR) {} return 0; }
    strike();
    return __real_sleep(s);
}
int __real_pause(void); int __wrap_pause(void) { strike(); return __real_pause(); }
int __real_sigsuspend(const sigset_t *m); int __wrap_sigsuspend(const sigset_t *m) { strike(); return __real_sigsuspend(m); }

static int listening(int port)
{
    static const char *f[] = { "/proc/net/tcp", "/proc/net/tcp6" }; char l[300];
    for (int i = 0; i < 2; i++)
    {
        FILE *p = fopen(f[i], "r"); int hit = 0; unsigned lp, st;
        if (!p) continue;
        while (fgets(l, sizeof l, p)) { char *c = strchr(l, ':'); if (c && (c = strchr(c + 1, ':')) && sscanf(c, ":%X %*s %X", &lp, &st) == 2 && lp == (unsigned)port && st == 0x0a) hit = 1; }
        fclose(p);
        if (hit) return 1;
    }
    return 0;
}
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
static void nap(int ms) { struct timespec t = { ms / 1000, ms % 1000 * 1000000L }; nanosleep(&t, NULL); }
static int tcp(int port)
{
    struct sockaddr_in a = { .sin_family = AF_INET, .sin_port = htons(port), .sin_addr.s_addr = htonl(INADDR_LOOPBACK) }; int s = socket(AF_INET, SOCK_STREAM, 0);
    if (connect(s, (void *)&a, sizeof a) < 0) { close(s); return -1; }
    return s;
}
static int pick_port(int *hold)
{
    struct sockaddr_in a = { .sin_family = AF_INET }; socklen_t al = sizeof a; int one = 1;
    /* below the ephemeral range, a slice for each process, so that nothing else takes it between here and the child's bind */
    for (int k = 0; k < 200; k++)
    {
        int port = 10000 + (getpid() * 61 + rng_below(&vc_rng, 61)) % 20000, s = socket(AF_INET, SOCK_STREAM, 0);
        setsockopt(s, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one); a.sin_port = htons(port);
        if (listening(port) || bind(s, (void *)&a, al) < 0) { close(s); continue; }
        if (hold) { listen(s, 1); *hold = s; } else close(s);
        return port;
    }
    printf("no port\n"); exit(2);
}
static void put(const char *f, const char *s) { FILE *p = fopen(f, "w"); fputs(s, p); fclose(p); }

static char out_txt[6000];
static pid_t run(int argc, char **av, int use_quick, int early_, int sig, int *strike_fd)
{
    int fd[2]; pid_t p;
    if (pipe(fd) < 0) exit(2);
    unlink("child.log"); fflush(stdout);
    if ((p = fork()) == 0)
    {
        int o = open("child.log", O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600); dup2(o, 1); dup2(o, 2); close(o); close(fd[0]);
        quick_sleep = use_quick; early = early_; early_sig = sig; injected_fd = fd[1];
        alarm(0);
        exit(proxy_main(argc, av));
    }
    close(fd[1]); *strike_fd = fd[0];
    return p;
}
static void read_log(void) { int f = open("child.log", O_RDONLY); ssize_t n = f < 0 ? 0 : read(f, out_txt, sizeof out_txt - 1); out_txt[n > 0 ? n : 0] = 0; if (f >= 0) close(f); }
/* waits for the child; returns 0 if it did not end in time (it is then killed) */
static int await(pid_t p, double limit, int *st) { double t = now(); while (now() - t < limit) { if (waitpid(p, st, WNOHANG) == p) return 1; nap(5); } kill(p, SIGKILL); waitpid(p, st, 0); return 0; }
static const char *how(int st) { static char b[80]; if (WIFEXITED(st)) snprintf(b, sizeof b, "exit status %d", WEXITSTATUS(st)); else snprintf(b, sizeof b, "signal %d", WTERMSIG(st)); return b; }
static int san(int st)
{
    read_log();
    if ((WIFEXITED(st) && WEXITSTATUS(st) == 77) || strstr(out_txt, "Sanitizer") || strstr(out_txt, "runtime error:"))
    {
        char *p = strstr(out_txt, "ERROR: "); if (!p) p = strstr(out_txt, "runtime error:"); if (!p) p = out_txt;
        V("sanitizer", "the proxy ended with a sanitizer report: %.300s", p);
        return 1;
    }
    return 0;
}

static void m_main(void)
{
    char conf[1000], portbuf[16], kf[64] = "ok.key", cf[64] = "ok.crt", tf[64] = "ca.crt", *av[8] = { "proxy" }; int ac = 1, hold = -1, port, st = 0, sfd, want = 1, bad = 0; const char *what = "";
    int kind = rng_below(&vc_rng, 3);
    static int gave_up; if (gave_up) return;      /* after a hang: one report is enough, waiting for more costs minutes */
    unlink("proxy.conf"); unlink("other.conf");
    port = pick_port(kind == 1 && rng_chance(&vc_rng, 1, 8) ? &hold : NULL);
    snprintf(portbuf, sizeof portbuf, "%d", port);
    const char *level[] = { "error", "warning", "notice", "info", "debug" }, *lv = level[rng_below(&vc_rng, 5)];
    int named = rng_chance(&vc_rng, 1, 2), missing = 0; const char *name = named ? "other.conf" : "proxy.conf", *tail = "", *head = "";
    if (kind == 1)
    {
        /* one defect that makes the configuration unusable */
        bad = 1;
        if (hold >= 0) what = "the port in use";
        else switch (rng_below(&vc_rng, 12))
        {
        case 0: missing = 1; what = "no configuration file"; break;
        case 1: tail = "= broken\n"; what = "a syntax error at the end of the file"; break;
        case 2: head = "[http_server\n"; what = "a syntax error at the start of the file"; break;
        case 3: lv = "loud"; what = "an unknown log level"; break;
        case 4: strcpy(kf, "nokey.pem"); what = "no key file"; break;
        case 5: strcpy(cf, "nocert.pem"); what = "no certificate file"; break;
        case 6: strcpy(tf, "notrust.pem"); what = "no trust file"; break;
        case 7: strcpy(kf, "junk.pem"); what = "a key file without a key"; break;
        case 8: strcpy(cf, "junk.pem"); what = "a certificate file without a certificate"; break;
        case 9: strcpy(kf, "bad.key"); what = "a key that does not match the certificate"; break;
        case 10: kf[0] = 0; what = "no key file name (the default does not exist)"; break;
        case 11: tail = "[coap_client]\nkey_file = \"unterminated\n"; what = "an unterminated string"; break;
        }
    }
    int k = snprintf(conf, sizeof conf, "%slog_level = %s\nport = %s\n[http_server]\n", head, lv, portbuf);
    if (kf[0]) k += snprintf(conf + k, sizeof conf - k, "key_file = \"%s\"\n", kf);
    k += snprintf(conf + k, sizeof conf - k, "cert_file = \"%s\"\ntrust_file = \"%s\"\n[coap_client]\nkey_file = \"ok.key\"\ncert_file = \"ok.crt\"\ntrust_file = \"ca.crt\"\n%s", cf, tf, tail);
    if (!missing) put(name, conf);
    if (named) { if (rng_chance(&vc_rng, 1, 2)) { av[ac++] = "-c"; av[ac++] = "other.conf"; } else if (rng_chance(&vc_rng, 1, 2)) { av[ac++] = "--config"; av[ac++] = "other.conf"; } else av[ac++] = "--config=other.conf"; }
    if (kind == 0)
    {
        switch (rng_below(&vc_rng, 7))
        {
        case 0: av[ac++] = "-h"; want = 0; what = "-h"; break;
        case 1: av[ac++] = "--help"; want = 0; what = "--help"; break;
        case 2: av[ac++] = "-x"; what = "an unknown option"; break;
        case 3: av[ac++] = "--bogus"; what = "an unknown long option"; break;
        case 4: av[ac++] = "-c"; what = "-c without a file"; break;
        case 5: av[ac++] = "--config"; what = "--config without a file"; break;
        case 6: av[ac++] = "extra"; what = "a stray argument"; break;
        }
        bad = 1;
    }
    uint64_t h = vc_mix(kind, vc_hash(what, strlen(what), named * 8 + ac));
    if (bad)
    {
        pid_t p = run(ac, av, 1, 0, 0, &sfd);
        int seen = 0; double t = now(); int done = 0;
        while (now() - t < 60 && !(done = waitpid(p, &st, WNOHANG) == p)) { if (hold < 0 && listening(port)) { seen = 1; break; } nap(3); }
        if (!done) { kill(p, SIGKILL); waitpid(p, &st, 0); }
        close(sfd);
        if (seen) V("started", "the proxy listens although it was given %s", what);
        else if (!done && (gave_up = 1)) V("hang", "the proxy neither started nor ended with %s", what);
        else if (!san(st) && (!WIFEXITED(st) || WEXITSTATUS(st) != want)) V("wrong-status", "with %s the proxy ended with %s instead of %d", what, how(st), want);
        vc_count(kind == 0 ? "command_lines" : "bad_configurations", 1);
        vc_distinct(h);
        if (hold >= 0) close(hold);
        if (vc_want_sample()) vc_sample("%s: %s", what, how(st));
        return;
    }
    static const int sigs[] = { SIGHUP, SIGINT, SIGQUIT, SIGABRT, SIGTERM };
    int sig = sigs[rng_below(&vc_rng, 5)], when = rng_below(&vc_rng, 4), busy = when == 0 && rng_chance(&vc_rng, 1, 3);
    /* when: 0 while idle and listening, 1 just before going to sleep, 2 as soon as it listens, 3 several signals */
    pid_t p = run(ac, av, !busy, when == 1, sig, &sfd);
    double t = now(); int up = 0, done = 0; char c;
    while (now() - t < 60 && !up && !done) { if (listening(port)) up = 1; else { done = waitpid(p, &st, WNOHANG) == p; if (!done) nap(2); } }
    if (when == 1 && !up) { if (!done) done = await(p, 30, &st); read(sfd, &c, 1) == 1 ? (void)(up = 1) : (void)0; }
    if (!up)
    {
        if (!done) { kill(p, SIGKILL); waitpid(p, &st, 0); }
        close(sfd);
        if (!san(st)) V("not-started", "the proxy did not start on port %d with a good configuration: %s; %.200s", port, done ? how(st) : "nothing in 60 s", out_txt);
        return;
    }
    vc_count("started", 1);
    if (!done)
    {
        if (when == 0 || when == 3)
        {
            nap(rng_below(&vc_rng, 30));
            if (rng_chance(&vc_rng, 1, 2)) { kill(p, SIGPIPE); vc_count("pipe_signals", 1); nap(rng_below(&vc_rng, 20)); if (waitpid(p, &st, WNOHANG) == p) { V("pipe-ends", "the proxy ended (%s) at a SIGPIPE", how(st)); close(sfd); return; } if (!listening(port)) V("pipe-ends", "the proxy stopped listening at a SIGPIPE"); }
            if (busy)
            {
                for (int i = rng_range(&vc_rng, 1, 3); i > 0; i--) { int s = tcp(port); if (s < 0) { V("refused", "the proxy does not accept connections"); break; } if (rng_chance(&vc_rng, 1, 2)) write(s, "GET / HTTP/1.1\r\n\r\n", 18); nap(rng_below(&vc_rng, 10)); close(s); }
                nap(100);
            }
        }
        if (when != 1) for (int i = when == 3 ? rng_range(&vc_rng, 2, 4) : 1; i > 0; i--) { kill(p, sig); nap(rng_below(&vc_rng, 3)); sig = when == 3 ? sigs[rng_below(&vc_rng, 5)] : sig; }
        if (!await(p, 40, &st)) { gave_up = 1; read(sfd, &c, 1); close(sfd); V("signal-lost", "the proxy still ran 40 s after signal %d, sent %s", sig, when == 1 ? "just before it went to sleep" : when == 2 ? "as soon as it listened" : "while it was running"); return; }
    }
    close(sfd);
    if (san(st)) return;
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) V("wrong-status", "the proxy ended with %s instead of 0 at signal %d", how(st), sig);
    if (listening(port)) V("still-listening", "port %d is still listened on after the proxy ended", port);
    vc_count("stopped", 1); if (when == 1) vc_count("signals_before_sleep", 1);
    vc_distinct(vc_mix(h, sig * 4 + when));
    if (vc_want_sample()) vc_sample("started on port %d, signal %d (%d), %s", port, sig, when, how(st));
}
int main(int c, char **v)
{
    static const pki_spec_t s[] = { { "ca", NULL, 1, -86400, 86400 * 3650L, "ca", {0} }, { "ok", "ca", 0, -86400, 86400 * 365L, "server.example.com", {0} }, { "bad", "ca", 0, -86400, 86400 * 365L, "x", {0} } };
    static const vc_mode_t m[] = { {"main", m_main, "runs of the proxy program: command lines, configurations, signals; distinct kinds of run"}, {0, 0, 0} };
    vc_case_wall_s = 400;
    gnutls_global_init(); pki_make(s, 3); put("junk.pem", "-----BEGIN NOTHING-----\nabcd\n-----END NOTHING-----\n");
    return vc_main(c, v, m);
}
