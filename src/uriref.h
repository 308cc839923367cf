/* Reference reading of a URI: RFC 3986 appendix B, components percent-decoded. */
#ifndef URIREF_H
#define URIREF_H
enum { SCHEME, USER, HOST, PORT, PATH, QUERY, FRAG, NC };
static const char *const NAME[NC] = { "scheme", "userinfo", "host", "port", "path", "query", "fragment" };
static char S[4096];           /* the text */
static char R[NC][4096];       /* reference components, decoded */
static int has[NC];
static int bad;                /* must be refused */
static int loose;              /* not well formed in a way whose treatment is left open: only memory is watched */

static const char *RA[NC], *RB[NC]; /* where each component stands in the text */

static int hexv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static int dec(char *out, const char *a, const char *b)
{
    while (a < b)
    {
        int c = (unsigned char)*a++;
        if (c == 255)
            loose = 1;
        if (c == '%')
        {
            int h = a < b ? hexv(a[0]) : -1, l = b - a > 1 ? hexv(a[1]) : -1;
            if (h < 0 || l < 0 || (h == 0 && l == 0))
                return -1;
            c = h * 16 + l;
            a += 2;
        }
        *out++ = c;
    }
    *out = 0;
    return 0;
}
static void comp(int k, const char *a, const char *b)
{
    has[k] = 1;
    RA[k] = a;
    RB[k] = b;
    if (dec(R[k], a, b))
        bad = 1;
}
static void reference(const char *s)
{
    const char *e = s + strlen(s), *p = s, *q;
    memset(has, 0, sizeof(has));
    bad = loose = 0;
    q = s + strcspn(s, ":/?#");
    if (*q == ':')
    {
        if (q == s)
            loose = 1;
        comp(SCHEME, s, q);
        p = q + 1;
    }
    if (p[0] == '/' && p[1] == '/')
    {
        const char *a = p + 2, *z = a + strcspn(a, "/?#"), *at = memchr(a, '@', z - a), *c, *h;
        if (at != NULL)
        {
            comp(USER, a, at);
            a = at + 1;
            if (memchr(a, '@', z - a))
                loose = 1;
        }
        h = a;
        if (*a == '[')
        {
            const char *cl = memchr(a, ']', z - a);
            if (cl == NULL || (cl + 1 < z && cl[1] != ':') || cl == a + 1)
                loose = 1;
            else
            {
                comp(HOST, a + 1, cl);
                if (memchr(a + 1, '[', cl - a - 1))
                    loose = 1;
                h = cl + 1;
                if (h < z)
                    comp(PORT, h + 1, z);
            }
        }
        else
        {
            c = memchr(a, ':', z - a);
            comp(HOST, a, c ? c : z);
            if (memchr(a, '[', (c ? c : z) - a) || memchr(a, ']', (c ? c : z) - a))
                loose = 1;
            if (c)
                comp(PORT, c + 1, z);
        }
        if (has[PORT])
        {
            c = memchr(h, ':', z - h);
            if (c && (memchr(c + 1, ':', z - c - 1) || memchr(c, '[', z - c) || memchr(c, ']', z - c)))
                loose = 1;
        }
        p = z;
    }
    q = p + strcspn(p, "?#");
    comp(PATH, p, q);
    if (*q == '?')
    {
        const char *f = q + strcspn(q, "#");
        comp(QUERY, q + 1, f);
        q = f;
    }
    if (*q == '#')
        comp(FRAG, q + 1, e);
}
#endif
