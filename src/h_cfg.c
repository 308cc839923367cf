/* P25: configuration files against an independent reading of the format.  P27: the data buffer against a byte queue. */
#include <errno.h>
#include <ctype.h>
#include <unistd.h>
#include "vc.h"
#include "vheap.h"
#include "config.h"
#include "param.h"
#include "data_buf.h"
#include "coap_log.h"

#define MAXT 200000
static char T[MAXT + 8];
static int tl;

/* ---------------------------------------------------------------- reference */
typedef struct { char *sec, *name, *val; } ent_t;
static ent_t E[4096];
static int nE;
static int *LN, *CN; /* line and column at which each character stands */
static int r_err, r_line, r_col;
enum { T_EOF, T_EOL, T_ASSIGN, T_LB, T_RB, T_ID, T_NUM, T_QUOTE, T_ERR };
static struct { int t, at; char *s; } K;
static int ri;

static void positions(void)
{
    int line = 1, col = 0;
    for (int i = 0; i <= tl; i++)
    {
        char c = i < tl ? T[i] : 0;
        if (c == '\t')
            col = (col / 4 + 1) * 4;
        else
            col++;
        LN[i] = line;
        CN[i] = col;
        if (c == '\n')
        {
            line++;
            col = 0;
        }
    }
}
static char *cut(int a, int b)
{
    char *s = malloc(b - a + 1);
    memcpy(s, T + a, b - a);
    s[b - a] = 0;
    return s;
}
static int asp(char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\v' || c == '\f'; }
static int aal(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static int adg(char c) { return c >= '0' && c <= '9'; }
static void lex(void)
{
    int a;
    free(K.s);
    K.s = NULL;
    while (ri < tl && asp(T[ri]))
        ri++;
    a = K.at = ri;
    if (ri >= tl)
    {
        K.t = T_EOF;
        return;
    }
    switch (T[ri])
    {
    case '\n': ri++; K.t = T_EOL; return;
    case '=': ri++; K.t = T_ASSIGN; return;
    case '[': ri++; K.t = T_LB; return;
    case ']': ri++; K.t = T_RB; return;
    case ';':
        while (ri < tl && T[ri] != '\n')
            ri++;
        K.t = ri < tl ? T_EOL : T_EOF;
        if (ri < tl)
            ri++;
        return;
    case '"':
        for (ri++; ri < tl; ri++)
        {
            if (T[ri] == '"' && !(ri > a + 1 && T[ri - 1] == '\\'))
            {
                K.t = T_QUOTE;
                K.s = cut(a + 1, ri);
                ri++;
                return;
            }
            if (T[ri] == '\n' && !(ri > a + 1 && T[ri - 1] == '\\'))
                break;
        }
        K.t = T_ERR;
        return;
    }
    if (aal(T[ri]))
    {
        while (ri < tl && (aal(T[ri]) || adg(T[ri]) || T[ri] == '_'))
            ri++;
        K.t = T_ID;
        K.s = cut(a, ri);
        return;
    }
    if (adg(T[ri]))
    {
        while (ri < tl && adg(T[ri]))
            ri++;
        K.t = T_NUM;
        K.s = cut(a, ri);
        return;
    }
    K.t = T_ERR;
}
static int want(int ok, int code)
{
    if (ok)
        return 0;
    r_err = K.t == T_ERR ? CONFIG_ELEXICAL : code;
    r_line = LN[K.at];
    r_col = CN[K.at];
    return 1;
}
static char *dup_(const char *s) { char *p = malloc(strlen(s) + 1); strcpy(p, s); return p; }
static void ref_set(const char *sec, const char *name, const char *val)
{
    for (int i = 0; i < nE; i++)
        if (!strcmp(E[i].sec, sec) && !strcmp(E[i].name, name))
        {
            free(E[i].val);
            E[i].val = dup_(val);
            return;
        }
    E[nE].sec = dup_(sec);
    E[nE].name = dup_(name);
    E[nE].val = dup_(val);
    nE++;
}
static void ref_clear(void)
{
    for (int i = 0; i < nE; i++)
    {
        free(E[i].sec);
        free(E[i].name);
        free(E[i].val);
    }
    nE = 0;
}
static void ref_parse(void)
{
    char *sec = dup_(""), *name = NULL;
    positions();
    r_err = r_line = r_col = 0;
    ri = 0;
    for (;;)
    {
        lex();
        if (K.t == T_EOL)
            continue;
        if (K.t == T_EOF)
            break;
        if (K.t == T_ID)
        {
            free(name);
            name = dup_(K.s);
            lex();
            if (want(K.t == T_ASSIGN, CONFIG_ESYNTAX))
                break;
            lex();
            if (want(K.t == T_ID || K.t == T_NUM || K.t == T_QUOTE, CONFIG_ESYNTAX))
                break;
            char *val = dup_(K.s);
            lex();
            if (K.t == T_ERR)
            {
                free(val);
                want(0, CONFIG_ESYNTAX);
                break;
            }
            ref_set(sec, name, val);
            free(val);
        }
        else if (K.t == T_LB)
        {
            lex();
            if (want(K.t == T_ID, CONFIG_ESYNTAX))
                break;
            char *n = dup_(K.s);
            lex();
            if (want(K.t == T_RB, CONFIG_ESYNTAX))
            {
                free(n);
                break;
            }
            free(sec);
            sec = n;
            lex();
        }
        if (want(K.t == T_EOL || K.t == T_EOF, CONFIG_ESYNTAX))
            break;
        if (K.t == T_EOF)
            break;
    }
    free(name);
    free(sec);
    free(K.s);
    K.s = NULL;
}

/* ---------------------------------------------------------------- generator */
static void put(const char *s)
{
    int n = strlen(s);
    if (tl + n <= MAXT)
    {
        memcpy(T + tl, s, n);
        tl += n;
    }
}
static void putc_(char c) { char b[2] = { c, 0 }; put(b); }
static void ws(void)
{
    while (rng_chance(&vc_rng, 1, 3))
        put(rng_chance(&vc_rng, 1, 4) ? "\t" : rng_chance(&vc_rng, 1, 12) ? "\r" : rng_chance(&vc_rng, 1, 20) ? "\v" : " ");
}
static const char *const SECS[] = { "http_server", "coap_client", "s", "A1" };
static const char *const KEYS[] = { "port", "log_level", "key_file", "cert_file", "trust_file", "x", "a_1", "portx" };
static void id(void)
{
    int k = rng_below(&vc_rng, 10);
    if (k < 6)
        put(KEYS[rng_below(&vc_rng, 8)]);
    else if (k < 8)
        put(SECS[rng_below(&vc_rng, 4)]);
    else
    {
        int n = rng_chance(&vc_rng, 1, 5) ? rng_range(&vc_rng, 60, 70) : rng_chance(&vc_rng, 1, 20) ? rng_range(&vc_rng, 120, 600) : rng_range(&vc_rng, 1, 6);
        putc_("abzAZ"[rng_below(&vc_rng, 5)]);
        while (--n > 0)
            putc_("abzAZ0189_"[rng_below(&vc_rng, 10)]);
    }
}
static int lng; /* 1: a value longer than 64 KiB, 2: hundreds of lines */
static void value(void)
{
    int k = rng_below(&vc_rng, 12), n;
    if (lng == 1)
        k = 11;
    if (k < 3)
        id();
    else if (k < 5)
        for (n = rng_chance(&vc_rng, 1, 8) ? rng_range(&vc_rng, 60, 140) : rng_range(&vc_rng, 1, 6); n > 0; n--)
            putc_('0' + rng_below(&vc_rng, 10));
    else if (k < 7)
        put(((const char *const[]){ "debug", "info", "notice", "warning", "error", "4430", "\"a/b.pem\"", "\"\"" })[rng_below(&vc_rng, 8)]);
    else
    {
        putc_('"');
        for (n = lng == 1 ? rng_range(&vc_rng, 60000, 80000) : rng_chance(&vc_rng, 1, 6) ? rng_range(&vc_rng, 60, 70) : rng_chance(&vc_rng, 1, 20) ? rng_range(&vc_rng, 120, 1100) : rng_range(&vc_rng, 0, 12); n > 0; n--)
        {
            int c = lng == 1 ? 39 : rng_below(&vc_rng, 40);
            if (c == 39 && lng == 1)
                putc_("abc ;=[]"[n & 7]);
            else if (c == 0)
                put("\\\"");
            else if (c == 1)
                put("\\\n");
            else if (c == 2)
                putc_('\\');
            else if (c == 3)
                putc_(128 + rng_below(&vc_rng, 128));
            else if (c == 4)
                putc_(rng_range(&vc_rng, 1, 31));
            else
                putc_(rng_range(&vc_rng, 32, 126));
        }
        if (rng_chance(&vc_rng, 24, 25))
            putc_('"');
    }
}
static void eol(void)
{
    ws();
    if (rng_chance(&vc_rng, 1, 8))
    {
        put(";");
        for (int n = rng_below(&vc_rng, 20); n > 0; n--)
            putc_("abc \t\"[]=;\\1\r"[rng_below(&vc_rng, 13)]);
    }
    put("\n");
}
static int sloppy;
static void gen(void)
{
    tl = 0;
    sloppy = rng_chance(&vc_rng, 1, 3);
    int n = rng_chance(&vc_rng, 1, 20) ? 0 : rng_range(&vc_rng, 1, rng_chance(&vc_rng, 1, 6) ? 40 : 8);
    lng = rng_chance(&vc_rng, 1, 20000) ? 1 : rng_chance(&vc_rng, 1, 5000) ? 2 : 0;
    if (lng == 2)
        for (int j = rng_range(&vc_rng, 250, 600); j > 0; j--)
            put(((const char *const[]){ "\n", "x = 12\n", "[s]\n", " a_1=\"v\" ; c\n", "port=y\n" })[rng_below(&vc_rng, 5)]);
    if (lng == 1)
        sloppy = 0, n = rng_range(&vc_rng, 1, 3);
    vc_count("long_texts", lng == 1);
    vc_count("many_lines", lng == 2);
    while (n-- > 0 && tl < MAXT - 4000)
    {
        int k = rng_below(&vc_rng, 12);
        ws();
        if (k < 2)
            ;
        else if (k < 5)
        {
            put("[");
            ws();
            if (rng_chance(&vc_rng, 2, 3))
                put(SECS[rng_below(&vc_rng, 4)]);
            else
                id();
            ws();
            put("]");
        }
        else
        {
            id();
            ws();
            put("=");
            ws();
            value();
        }
        if (sloppy && rng_chance(&vc_rng, 1, 8))
            switch (rng_below(&vc_rng, 6))
            {
            case 0: put("="); break;
            case 1: put("["); break;
            case 2: put("]"); break;
            case 3: value(); break;
            case 4: putc_(rng_range(&vc_rng, 1, 255)); break;
            case 5: if (tl > 0) tl -= rng_below(&vc_rng, tl < 6 ? tl : 6); break;
            }
        eol();
    }
    if (tl > 0 && rng_chance(&vc_rng, 1, 2)) /* no final newline */
        tl--;
    if (sloppy && tl > 0 && rng_chance(&vc_rng, 1, 3))
        tl = rng_below(&vc_rng, tl + 1);
    if (sloppy && tl > 0)
        for (int m = rng_below(&vc_rng, 3); m > 0; m--)
            T[rng_below(&vc_rng, tl)] = rng_chance(&vc_rng, 1, 2) ? "\n\"[]=; \\\ta1_"[rng_below(&vc_rng, 12)] : rng_range(&vc_rng, 1, 255);
    T[tl] = 0;
}
static void gen_raw(void)
{
    tl = rng_below(&vc_rng, 40);
    for (int i = 0; i < tl; i++)
        T[i] = rng_chance(&vc_rng, 1, 12) ? rng_range(&vc_rng, 1, 255) : "ab1_=[]\"\\; \n\t"[rng_below(&vc_rng, 13)];
    T[tl] = 0;
}

/* ---------------------------------------------------------------- config_parse */
static void compare(config_t *c, int ret, unsigned line, unsigned col, int pre)
{
    config_section_t *s;
    config_entry_t *e;
    int n = 0;
    if ((ret == 0) != (r_err == 0))
        vc_viol("accepts-wrongly", "returned %d, the text is %s (line %d col %d): %s", ret, r_err ? "malformed" : "well formed", r_line, r_col, vc_hex(T, tl));
    else if (ret != r_err)
        vc_viol("wrong-error", "error %d reported for error %d: %s", ret, r_err, vc_hex(T, tl));
    else if (ret != 0 && ((int)line != r_line || (int)col != r_col))
        vc_viol("wrong-position", "error at line %d col %d reported at line %u col %u: %s", r_line, r_col, line, col, vc_hex(T, tl));
    vc_count(r_err == 0 ? "well_formed" : r_err == CONFIG_ELEXICAL ? "lexical_errors" : "syntax_errors", 1);
    if (tl > 0 && T[tl - 1] != '\n')
        vc_count("no_final_newline", 1);
    if (r_err != 0) /* what a refused text leaves behind is not specified */
        return;
    for (int i = 0; i < nE; i++)
    {
        const char *v = config_get(c, E[i].sec, E[i].name);
        if (v == NULL || strcmp(v, E[i].val))
            vc_viol("wrong-value", "[%s] %s is \"%s\", assigned \"%s\": %s", E[i].sec, E[i].name, v ? v : "(none)", E[i].val, vc_hex(T, tl));
        vc_count("values_read", 1);
    }
    for (s = c->first; s != NULL; s = s->next)
        for (e = s->first; e != NULL; e = e->next)
            n++;
    if (n != nE)
        vc_viol("extra-entries", "%d entries set, %d assigned: %s", n, nE, vc_hex(T, tl));
    for (int i = 0; i < 8; i++)
        for (int k = 0; k < 5; k++)
        {
            const char *sec = k == 4 ? "" : SECS[k], *v = config_get(c, sec, KEYS[i]);
            int have = 0;
            for (int j = 0; j < nE; j++)
                have |= !strcmp(E[j].sec, sec) && !strcmp(E[j].name, KEYS[i]);
            if (!have && v != NULL)
                vc_viol("value-from-nowhere", "[%s] %s is \"%s\" though never assigned", sec, KEYS[i], v);
        }
    vc_count("entries", nE);
    (void)pre;
}
static char *exact(void)
{
    char *p = malloc(tl + 1);
    memcpy(p, T, tl + 1);
    return p;
}
static int once_strerr(void)
{
    static const struct { int e; const char *has; } X[] = { { CONFIG_ELEXICAL, "lexical" }, { CONFIG_ESYNTAX, "syntax" }, { CONFIG_ENOMEM, "memory" }, { CONFIG_EINVAL, "invalid" }, { CONFIG_OK, "ok" } };
    for (int i = 0; i < 5; i++)
        if (strcasestr(config_strerr(X[i].e), X[i].has) == NULL)
            vc_viol("wrong-description", "error %d is described as \"%s\"", X[i].e, config_strerr(X[i].e));
    for (int e = -40; e < 40; e++)
        if (strlen(config_strerr(e)) > 100)
            vc_viol("wrong-description", "error %d", e);
    return 0;
}
static void m_parse(void)
{
    config_t c;
    unsigned line = 0, col = 0;
    int rounds = rng_chance(&vc_rng, 1, 5) ? 2 : 1, ret;
    if (LN == NULL)
    {
        LN = malloc(sizeof(int) * (MAXT + 16));
        CN = malloc(sizeof(int) * (MAXT + 16));
    }
    once_strerr();
    vh_forget();
    vh_begin(0);
    config_create(&c);
    vh_pause();
    for (int r = 0; r < rounds; r++)
    {
        if (rng_chance(&vc_rng, 1, 6))
            gen_raw();
        else
            gen();
        ref_parse();
        char *t = exact();
        vh_resume();
        ret = config_parse(&c, t, &line, &col);
        vh_pause();
        free(t);
        compare(&c, ret, line, col, r);
        if (r_err != 0)
            break;
    }
    if (rng_chance(&vc_rng, 1, 3))
    {
        vh_resume();
        config_set(&c, SECS[1], KEYS[1], "hand");
        config_set(&c, "", KEYS[0], "");
        vh_pause();
        const char *v = config_get(&c, SECS[1], KEYS[1]), *w = config_get(&c, "", KEYS[0]);
        if (v == NULL || strcmp(v, "hand") || w == NULL || strcmp(w, ""))
            vc_viol("wrong-value", "config_set did not set");
        vc_count("config_set", 2);
    }
    vc_distinct(vc_hash(T, tl, 7));
    if (vc_want_sample())
        vc_sample("error %d at %d:%d, %d entries: %s", r_err, r_line, r_col, nE, vc_hex(T, tl > 60 ? 60 : tl));
    vh_resume();
    config_destroy(&c);
    vh_pause();
    if (vh_live())
        vc_viol("leak", "%ld blocks left after config_destroy: %s", vh_live(), vc_hex(T, tl));
    ref_clear();
}
/* every allocation of a load fails once */
static void m_oom(void)
{
    long total = 0;
    if (LN == NULL)
    {
        LN = malloc(sizeof(int) * (MAXT + 16));
        CN = malloc(sizeof(int) * (MAXT + 16));
    }
    gen();
    ref_parse();
    for (long k = 0; k <= total && k < 60; k++)
    {
        config_t c;
        unsigned line = 0, col = 0;
        char *t = exact();
        vh_forget();
        vh_begin(0);
        config_create(&c);
        config_set(&c, "", "port", "before");
        vh_begin(k);
        int ret = config_parse(&c, t, &line, &col);
        vh_pause();
        if (k == 0)
        {
            total = vh_num;
            if (ret != r_err)
                vc_viol("wrong-error", "error %d reported for error %d: %s", ret, r_err, vc_hex(T, tl));
        }
        else if (vh_failed)
        {
            vc_count("allocation_failures", 1);
            if (ret != CONFIG_ENOMEM)
                vc_viol("oom-unreported", "allocation %ld failed and %d was returned: %s", k, ret, vc_hex(T, tl));
            const char *v = config_get(&c, "", "port");
            if (v == NULL)
                vc_viol("value-lost", "a value set earlier is gone after allocation %ld failed", k);
            else if (v[0] != 0)
                vc_count("kept_values", 1);
        }
        vh_fail_at = 0;
        vh_resume();
        config_destroy(&c);
        vh_pause();
        if (vh_live())
            vc_viol("leak", "%ld blocks left when allocation %ld failed: %s", vh_live(), k, vc_hex(T, tl));
        free(t);
    }
    vc_distinct(vc_hash(T, tl, 9));
    ref_clear();
}
/* the file loader of the proxy */
static void m_file(void)
{
    static const struct { const char *sec, *key, *def; } PK[] = {
        { "", "port", PARAM_DEF_PORT }, { "http_server", "key_file", PARAM_DEF_HTTP_SERVER_KEY_FILE_NAME }, { "http_server", "cert_file", PARAM_DEF_HTTP_SERVER_CERT_FILE_NAME },
        { "http_server", "trust_file", PARAM_DEF_HTTP_SERVER_TRUST_FILE_NAME }, { "coap_client", "key_file", PARAM_DEF_COAP_CLIENT_KEY_FILE_NAME },
        { "coap_client", "cert_file", PARAM_DEF_COAP_CLIENT_CERT_FILE_NAME }, { "coap_client", "trust_file", PARAM_DEF_COAP_CLIENT_TRUST_FILE_NAME } };
    static const char *const LV[] = { "error", "warning", "notice", "info", "debug" };
    static const int LC[] = { COAP_LOG_ERROR, COAP_LOG_WARN, COAP_LOG_NOTICE, COAP_LOG_INFO, COAP_LOG_DEBUG };
    param_t p;
    char name[64];
    int missing = rng_chance(&vc_rng, 1, 30), full = tl, lvl = COAP_LOG_INFO, bad, ret;
    if (LN == NULL)
    {
        LN = malloc(sizeof(int) * (MAXT + 16));
        CN = malloc(sizeof(int) * (MAXT + 16));
    }
    do
        gen();
    while (rng_chance(&vc_rng, 1, 2) && (ref_parse(), ref_clear(), r_err));
    snprintf(name, sizeof(name), "cfg_%ld", vc_case);
    full = tl;
    if (rng_chance(&vc_rng, 1, 20) && tl < MAXT - 20)
    {
        T[full++] = 0; /* what follows a null character is not looked at */
        memcpy(T + full, "]=x\n", 4);
        full += 4;
    }
    if (!missing)
    {
        FILE *f = fopen(name, "w");
        fwrite(T, 1, full, f);
        fclose(f);
    }
    ref_parse();
    bad = missing || r_err;
    for (int i = 0; i < nE; i++)
        if (!E[i].sec[0] && !strcmp(E[i].name, "log_level"))
        {
            int k;
            for (k = 0; k < 5 && strcmp(E[i].val, LV[k]); k++)
                ;
            if (k == 5)
                bad = 1;
            else
                lvl = LC[k];
        }
    memset(&p, 0x5a, sizeof(p));
    vh_forget();
    vh_begin(0);
    ret = param_create(&p, name);
    vh_pause();
    if ((ret != 0) != (bad != 0))
        vc_viol("file-accepts-wrongly", "the file is %s and param_create returned %d: %s", bad ? "bad" : "good", ret, vc_hex(T, tl));
    if (ret == 0 && !bad)
    {
        const char *got[7] = { param_get_port(&p), param_get_http_server_key_file_name(&p), param_get_http_server_cert_file_name(&p), param_get_http_server_trust_file_name(&p),
                               param_get_coap_client_key_file_name(&p), param_get_coap_client_cert_file_name(&p), param_get_coap_client_trust_file_name(&p) };
        for (int k = 0; k < 7; k++)
        {
            const char *w = PK[k].def;
            for (int i = 0; i < nE; i++)
                if (!strcmp(E[i].sec, PK[k].sec) && !strcmp(E[i].name, PK[k].key))
                {
                    w = E[i].val;
                    vc_count("set_parameters", 1);
                }
            if (got[k] == NULL || strcmp(got[k], w))
                vc_viol("wrong-parameter", "[%s] %s is \"%s\", should be \"%s\"", PK[k].sec, PK[k].key, got[k] ? got[k] : "(null)", w);
            vc_count("parameters", 1);
        }
        if ((int)param_get_max_log_level(&p) != lvl)
            vc_viol("wrong-parameter", "log level %d, should be %d", param_get_max_log_level(&p), lvl);
        param_destroy(&p);
    }
    vc_count(bad ? "bad_files" : "good_files", 1);
    if (vh_live())
        vc_viol("leak", "%ld blocks left: %s", vh_live(), vc_hex(T, tl));
    if (!missing)
        unlink(name);
    vc_distinct(vc_hash(T, full, 11));
    ref_clear();
}

/* ---------------------------------------------------------------- data buffer */
static void m_dbuf(void)
{
    data_buf_t b;
    size_t size = rng_chance(&vc_rng, 1, 4) ? DATA_BUF_INIT_SIZE : rng_below(&vc_rng, 40), max = rng_chance(&vc_rng, 1, 4) ? DATA_BUF_MAX_SIZE : rng_below(&vc_rng, 200);
    static unsigned char q[400000];
    size_t n = 0;
    int lng = rng_chance(&vc_rng, 1, 4000);
    if (lng)
        size = rng_range(&vc_rng, 500, 20000), max = rng_range(&vc_rng, 60000, 300000);
    unsigned char next = 1;
    vh_forget();
    vh_begin(0);
    int ret = data_buf_create(&b, size, max);
    vh_pause();
    if ((ret != 0) != (size > max))
        vc_viol("create", "create size %zu max %zu returned %d", size, max, ret);
    if (ret != 0)
    {
        if (vh_live())
            vc_viol("leak", "a failed create leaves memory");
        vc_count("refused_creates", 1);
        return;
    }
    if (data_buf_get_size(&b) != size || data_buf_get_count(&b) != 0 || data_buf_get_space(&b) != size)
        vc_viol("create", "created with size %zu, has size %zu, count %zu, space %zu", size, data_buf_get_size(&b), data_buf_get_count(&b), data_buf_get_space(&b));
    int steps = rng_range(&vc_rng, 1, 120);
    vc_count("long_buffers", lng);
    for (int i = 0; i < steps && !vc_viol_in_case; i++)
    {
        int k = lng && rng_chance(&vc_rng, 1, 3) ? 8 : rng_below(&vc_rng, 10);
        size_t was = data_buf_get_size(&b);
        if (k < 4)
        {
            size_t sp = data_buf_get_space(&b), w = rng_chance(&vc_rng, 1, 3) ? sp : rng_below(&vc_rng, sp + 1), r;
            unsigned char *d = (unsigned char *)data_buf_get_next(&b);
            size_t ask = rng_chance(&vc_rng, 1, 6) && w == sp ? sp + rng_below(&vc_rng, 50) : w;
            for (size_t j = 0; j < w; j++)
                q[n + j] = d[j] = rng_chance(&vc_rng, 1, 20) ? 0 : next++;
            r = data_buf_add(&b, ask);
            if (r != w)
                vc_viol("add", "added %zu of %zu with %zu free", r, ask, sp);
            n += w;
            vc_count("bytes_added", w);
            vc_count(w == sp ? "filled" : "added", 1);
        }
        else if (k < 7)
        {
            size_t w = rng_chance(&vc_rng, 1, 4) ? n : rng_chance(&vc_rng, 1, 8) ? n + rng_below(&vc_rng, 20) : rng_below(&vc_rng, n + 1), e = w < n ? w : n;
            size_t r = data_buf_consume(&b, w);
            if (r != e)
                vc_viol("consume", "consumed %zu of %zu with %zu stored", r, w, n);
            memmove(q, q + e, n - e);
            n -= e;
            vc_count("bytes_consumed", e);
            if (data_buf_get_size(&b) != was)
                vc_viol("size", "consume changed the size");
        }
        else if (k < 9)
        {
            int fail = rng_chance(&vc_rng, 1, 6);
            vh_begin(fail);
            ret = data_buf_expand(&b);
            vh_fail_at = 0;
            vh_pause();
            if (ret == 0)
            {
                if (data_buf_get_size(&b) > data_buf_get_max_size(&b))
                    vc_viol("exceeds-max", "size %zu expanded to %zu, max %zu", was, data_buf_get_size(&b), max);
                if (data_buf_get_size(&b) < was || (was > 0 && data_buf_get_size(&b) == was))
                    vc_viol("size", "size %zu expanded to %zu", was, data_buf_get_size(&b));
                vc_count("expansions", 1);
            }
            else
            {
                if (data_buf_get_size(&b) != was)
                    vc_viol("size", "a failed expand changed the size");
                if (was * 2 <= max && !fail)
                    vc_viol("expand-refused", "size %zu max %zu: expand returned %d", was, max, ret);
                vc_count(fail ? "failed_expansions" : "refused_expansions", 1);
            }
        }
        if (data_buf_get_count(&b) != n || data_buf_get_space(&b) != data_buf_get_size(&b) - n || data_buf_get_next(&b) != data_buf_get_data(&b) + n)
            vc_viol("count", "%zu bytes counted, %zu stored", data_buf_get_count(&b), n);
        else if (memcmp(data_buf_get_data(&b), q, n))
            vc_viol("content", "the stored bytes differ from those added");
        else if (data_buf_get_max_size(&b) != max)
            vc_viol("size", "the maximum changed");
        else
        {
            /* terminated: everything free is zero up to and including the byte after the buffer, unless written to by the user */
            if (data_buf_get_data(&b)[data_buf_get_size(&b)] != 0)
                vc_viol("unterminated", "byte %zu after %zu stored bytes is %d", data_buf_get_size(&b), n, data_buf_get_data(&b)[data_buf_get_size(&b)]);
            if (data_buf_get_data(&b)[n] != 0)
                vc_viol("unterminated", "the byte after %zu stored bytes (size %zu) is %d", n, data_buf_get_size(&b), data_buf_get_data(&b)[n]);
        }
        vc_count("checks", 1);
    }
    vc_distinct(vc_hash(q, n, (size << 20) ^ (max << 8) ^ vc_hash(&b.size, 8, steps)));
    if (vc_want_sample())
        vc_sample("size %zu max %zu, %d steps, ended with %zu bytes in %zu", size, max, steps, n, data_buf_get_size(&b));
    data_buf_destroy(&b);
    if (vh_live())
        vc_viol("leak", "%ld blocks left after destroy", vh_live());
}

static const vc_mode_t MODES[] = {
    { "parse", m_parse, "config_parse of generated and random text equals an independent reading; errors, positions and values; no leak" },
    { "oom", m_oom, "every allocation of a load made to fail: reported, nothing lost or leaked" },
    { "file", m_file, "param_create of files: values, defaults, refusals" },
    { "dbuf", m_dbuf, "operations on the data buffer against a byte queue" },
    { NULL, NULL, NULL } };
int main(int argc, char **argv) { return vc_main(argc, argv, MODES); }
