/* Good and bad certificates, and what a correct peer makes of them. */
#define NAME "server.example.com"
#define YEAR (86400 * 365L)
/* ---- certificates */
static const pki_spec_t S[] = {
    { "ca", NULL, 1, -YEAR, 10 * YEAR, "ca", {0} },
    { "ca2", NULL, 1, -YEAR, 10 * YEAR, "ca2", {0} },
    { "sub", "ca", 1, -YEAR, YEAR, "sub", {0} },
    { "subold", "ca", 1, -YEAR, -60, "subold", {0} },
    { "subrev", "ca", 1, -YEAR, YEAR, "subrev", {0} },
    { "ok", "ca", 0, -YEAR, YEAR, NAME, {0} },                                            /* first end entity */
    { "san", "ca", 0, -YEAR, YEAR, "whatever", { "a.example.org", NAME } },
    { "sanother", "ca", 0, -YEAR, YEAR, NAME, { "a.example.org", "b.example.org" } },
    { "wild", "ca", 0, -YEAR, YEAR, "wild", { "*.example.com" } },
    { "upper", "ca", 0, -YEAR, YEAR, "SERVER.Example.Com", {0} },
    { "othercn", "ca", 0, -YEAR, YEAR, "other.example.com", {0} },
    { "suffix", "ca", 0, -YEAR, YEAR, NAME ".evil.org", {0} },
    { "prefix", "ca", 0, -YEAR, YEAR, "evil" NAME, {0} },
    { "parent", "ca", 0, -YEAR, YEAR, "example.com", {0} },
    { "expired", "ca", 0, -YEAR, -YEAR / 2, NAME, {0} },
    { "justexp", "ca", 0, -YEAR, -1, NAME, {0} },
    { "soonexp", "ca", 0, -YEAR, 300, NAME, {0} },
    { "future", "ca", 0, YEAR, 2 * YEAR, NAME, {0} },
    { "soonval", "ca", 0, 300, YEAR, NAME, {0} },
    { "fresh", "ca", 0, -1, YEAR, NAME, {0} },
    { "ca2leaf", "ca2", 0, -YEAR, YEAR, NAME, {0} },
    { "self", NULL, 0, -YEAR, YEAR, NAME, {0} },
    { "tamper", "ca", 0, -YEAR, YEAR, NAME, {0}, 1 },
    { "inter", "sub", 0, -YEAR, YEAR, NAME, {0}, 0, 1 },
    { "internochain", "sub", 0, -YEAR, YEAR, NAME, {0} },
    { "interold", "subold", 0, -YEAR, YEAR, NAME, {0}, 0, 1 },
    { "interrev", "subrev", 0, -YEAR, YEAR, NAME, {0}, 0, 1 },
    { "nonca", "ok", 0, -YEAR, YEAR, NAME, {0}, 0, 1 },
    { "revoked", "ca", 0, -YEAR, YEAR, NAME, {0} },
    { "ca2rev", "ca2", 0, -YEAR, YEAR, NAME, {0} },
};
#define NS ((int)(sizeof S / sizeof *S))
#define FIRST 5
static const char *const TR[] = { "", "ca.crt", "both.crt", "ca2.crt", "sub.crt" };       /* trust files */
static const char *const CR[] = { "", "ca.crl", "all.crl", "none.crl" };                  /* revocation lists */
static const char *const NM[] = { NAME, "SERVER.EXAMPLE.COM", "other.example.com", "server.example.co", NAME ".evil.org", "example.com", "a." NAME, "x.example.com", "", "a.example.org", NULL };
#define NNM (int)(sizeof NM / sizeof *NM)
static const pki_spec_t *spec(const char *n) { for (int i = 0; i < NS; i++) if (!strcmp(S[i].name, n)) return &S[i]; return NULL; }
static int is(const char *a, const char *b) { return !strcmp(a, b); }
static int revoked(const char *n, int crl)
{
    if (crl == 0 || crl == 3) return 0;
    if (is(n, "revoked") || is(n, "subrev")) return 1;
    return crl == 2 && is(n, "ca2rev");
}
/* 1 trusted, 0 not, -1 depends on the moment; t0..t1 seconds after PKI_BASE */
static int trusted(const char *n, int tr, int crl, double t0, double t1)
{
    const pki_spec_t *s = spec(n); int v = 1;
    static const char *const anchors[5][3] = { {0}, { "ca" }, { "ca", "ca2" }, { "ca2" }, { "sub" } };
    if (s->tamper) return 0;
    for (const pki_spec_t *p = s; ; p = spec(p->issuer))
    {
        int anchor = 0;
        for (int i = 0; i < 3; i++) if (anchors[tr][i] && is(anchors[tr][i], p->name)) anchor = 1;
        if (anchor) break;
        if (p->to < t0 - 2 || p->from > t1 + 2) return 0;
        if (p->to < t1 + 2 || p->from > t0 - 2) v = -1;
        if (revoked(p->name, crl)) return 0;
        if (!p->issuer) return 0;
        /* the issuer must be an anchor or have been sent along, and be an authority */
        if (!spec(p->issuer)->ca) return 0;
        int ia = 0;
        for (int i = 0; i < 3; i++) if (anchors[tr][i] && is(anchors[tr][i], p->issuer)) ia = 1;
        if (!ia && !p->chain) return 0;
    }
    return v;
}
static int match(const char *pat, const char *n)
{
    if (pat[0] == '*' && pat[1] == '.') { const char *d = strchr(n, '.'); return d && d != n && !strcasecmp(d, pat + 1); }
    return !strcasecmp(pat, n);
}
static int named(const char *cert, const char *n)
{
    const pki_spec_t *s = spec(cert); int any = 0;
    if (!n) return 1;             /* no name expected */
    if (!*n) return 0;
    for (int i = 0; i < 3; i++) if (s->dns[i]) { any = 1; if (match(s->dns[i], n)) return 1; }
    return !any && match(s->cn, n);
}
static void certs_make(void)
{
    static const char *const both[] = { "ca", "ca2" }, *const rev[] = { "revoked", "subrev" }, *const rev2[] = { "ca2rev" };
    char line[256]; FILE *a, *b;
    pki_make(S, NS);
    pki_bundle("both", both, 2);
    pki_crl("ca", "ca", rev, 2); pki_crl("ca2", "ca2", rev2, 1); pki_crl("none", "ca", NULL, 0);
    a = fopen("all.crl", "w");
    for (int i = 0; i < 2; i++) { b = fopen(i ? "ca2.crl" : "ca.crl", "r"); while (fgets(line, sizeof line, b)) fputs(line, a); fclose(b); }
    fclose(a);
}
