#include <string.h>
#include "refcoap.h"
void r_init(rmsg_t *m)
{
    m->ver = 1; m->type = m->tkl = m->cls = m->det = m->mid = 0; memset(m->tok, 0, 8);
    m->nops = 0; m->payload = 0; m->plen = 0; m->used = 0;
}
uint8_t *r_store(rmsg_t *m, const void *p, size_t n)
{
    uint8_t *d = m->store + m->used;
    if (n) memcpy(d, p, n);
    m->used += n;
    return d;
}
int r_append(rmsg_t *m, unsigned num, const void *val, unsigned len)
{
    if (m->nops >= R_MAXOPS || m->used + len > sizeof m->store) return -1;
    rop_t *o = &m->ops[m->nops++];
    o->num = num; o->len = len; o->val = r_store(m, val, len);
    return 0;
}
int r_add(rmsg_t *m, unsigned num, const void *val, unsigned len)
{
    unsigned i = m->nops; rop_t n;
    if (r_append(m, num, val, len) < 0) return -1;
    n = m->ops[i];
    while (i > 0 && m->ops[i - 1].num > num) { m->ops[i] = m->ops[i - 1]; i--; }
    m->ops[i] = n;
    return 0;
}
int r_legal(const rmsg_t *m)
{
    int empty = m->cls == 0 && m->det == 0;
    if (empty && (m->type == 1 || m->tkl || m->nops || m->plen)) return 0;
    if (!empty && m->type == 3) return 0;
    return 1;
}
int r_decode(rmsg_t *m, const uint8_t *b, size_t n)
{
    size_t i; unsigned prev = 0;
    r_init(m);
    if (n < 4) return REF_BAD;
    m->ver = b[0] >> 6;
    if (m->ver != 1) return REF_BADVER;
    m->type = (b[0] >> 4) & 3; m->tkl = b[0] & 15;
    m->cls = b[1] >> 5; m->det = b[1] & 31; m->mid = b[2] * 256u + b[3];
    if (m->tkl > 8) return REF_BAD;
    if (m->cls == 1 || m->cls == 3 || m->cls == 6 || m->cls == 7) return REF_BAD;
    if (n - 4 < m->tkl) return REF_BAD;
    memcpy(m->tok, b + 4, m->tkl);
    for (i = 4 + m->tkl; i < n; )
    {
        unsigned d, l; uint8_t h = b[i++];
        if (h == 0xff)
        {
            if (i == n) return REF_BAD;
            m->plen = n - i;
            if (m->used + m->plen > sizeof m->store) return REF_BAD;
            m->payload = r_store(m, b + i, m->plen);
            i = n;
            break;
        }
        d = h >> 4; l = h & 15;
        if (d == 15 || l == 15) return REF_BAD;
        if (d == 13) { if (n - i < 1) return REF_BAD; d = 13 + b[i]; i++; }
        else if (d == 14) { if (n - i < 2) return REF_BAD; d = 269 + b[i] * 256u + b[i + 1]; i += 2; }
        if (l == 13) { if (n - i < 1) return REF_BAD; l = 13 + b[i]; i++; }
        else if (l == 14) { if (n - i < 2) return REF_BAD; l = 269 + b[i] * 256u + b[i + 1]; i += 2; }
        if (n - i < l) return REF_BAD;
        prev += d;
        if (r_append(m, prev, b + i, l) < 0) return REF_BAD;
        i += l;
    }
    return r_legal(m) ? REF_OK : REF_BAD;
}
size_t r_encode(const rmsg_t *m, uint8_t *o)
{
    uint8_t *s = o; unsigned prev = 0, i;
    *o++ = (uint8_t)(1 << 6 | m->type << 4 | m->tkl);
    *o++ = (uint8_t)(m->cls << 5 | m->det);
    *o++ = (uint8_t)(m->mid >> 8); *o++ = (uint8_t)m->mid;
    memcpy(o, m->tok, m->tkl); o += m->tkl;
    for (i = 0; i < m->nops; i++)
    {
        unsigned d = m->ops[i].num - prev, l = m->ops[i].len;
        unsigned dn = d < 13 ? d : d < 269 ? 13 : 14, ln = l < 13 ? l : l < 269 ? 13 : 14;
        *o++ = (uint8_t)(dn << 4 | ln);
        if (dn == 13) *o++ = (uint8_t)(d - 13);
        if (dn == 14) { *o++ = (uint8_t)((d - 269) >> 8); *o++ = (uint8_t)(d - 269); }
        if (ln == 13) *o++ = (uint8_t)(l - 13);
        if (ln == 14) { *o++ = (uint8_t)((l - 269) >> 8); *o++ = (uint8_t)(l - 269); }
        if (l) memcpy(o, m->ops[i].val, l);
        o += l;
        prev = m->ops[i].num;
    }
    if (m->plen) { *o++ = 0xff; memcpy(o, m->payload, m->plen); o += m->plen; }
    return (size_t)(o - s);
}
rop_t *r_find(rmsg_t *m, unsigned num, unsigned nth)
{
    for (unsigned i = 0; i < m->nops; i++) if (m->ops[i].num == num && nth-- == 0) return &m->ops[i];
    return 0;
}
int r_block_dec(const uint8_t *v, unsigned len, unsigned *num, unsigned *more, unsigned *size)
{
    unsigned x = 0, i;
    if (len > 3) return -1;
    for (i = 0; i < len; i++) x = x << 8 | v[i];
    *num = x >> 4; *more = (x >> 3) & 1;
    if ((x & 7) == 7) return -1;
    *size = 16u << (x & 7);
    return 0;
}
unsigned r_block_enc(uint8_t *v, unsigned num, unsigned more, unsigned size)
{
    unsigned szx = 0, x, n = 0;
    while ((16u << szx) < size) szx++;
    x = num << 4 | (more ? 8 : 0) | szx;
    if (x > 0xffff) v[n++] = (uint8_t)(x >> 16);
    if (x > 0xff) v[n++] = (uint8_t)(x >> 8);
    if (x) v[n++] = (uint8_t)x;
    return n;
}
unsigned r_recognised(unsigned n)
{
    /* the options of RFC 7252, RFC 7959 that the library documents */
    static const uint8_t k[] = {1, 3, 4, 5, 7, 8, 11, 12, 14, 15, 17, 20, 23, 27, 28, 35, 39, 60};
    for (unsigned i = 0; i < sizeof k; i++) if (k[i] == n) return 1;
    return 0;
}
int r_same_content(const rmsg_t *a, const rmsg_t *b)
{
    if (a->cls != b->cls || a->det != b->det || a->nops != b->nops || a->plen != b->plen) return 0;
    for (unsigned i = 0; i < a->nops; i++)
        if (a->ops[i].num != b->ops[i].num || a->ops[i].len != b->ops[i].len
         || (a->ops[i].len && memcmp(a->ops[i].val, b->ops[i].val, a->ops[i].len))) return 0;
    return a->plen == 0 || !memcmp(a->payload, b->payload, a->plen);
}
