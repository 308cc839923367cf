/* Independent reference codec for RFC 7252 messages (written from the RFC, not from the code under test). */
#ifndef REFCOAP_H
#define REFCOAP_H
#include <stdint.h>
#include <stddef.h>
#define R_MAXOPS 1400
typedef struct { unsigned num, len; uint8_t *val; } rop_t;
typedef struct
{
    unsigned ver, type, tkl, cls, det, mid;
    uint8_t tok[8];
    unsigned nops;
    rop_t ops[R_MAXOPS];
    uint8_t *payload; size_t plen;
    uint8_t store[70000]; size_t used;  /* owns values */
} rmsg_t;
enum { REF_OK = 0, REF_BAD = 1, REF_BADVER = 2 };
void r_init(rmsg_t *m);
uint8_t *r_store(rmsg_t *m, const void *p, size_t n);
int r_add(rmsg_t *m, unsigned num, const void *val, unsigned len);      /* keeps order by number, stable */
int r_append(rmsg_t *m, unsigned num, const void *val, unsigned len);
int r_decode(rmsg_t *m, const uint8_t *b, size_t n);
size_t r_encode(const rmsg_t *m, uint8_t *out);                          /* out must be large enough */
int r_legal(const rmsg_t *m);
rop_t *r_find(rmsg_t *m, unsigned num, unsigned nth);
/* block option: returns 0 and fields, or -1 */
int r_block_dec(const uint8_t *v, unsigned len, unsigned *num, unsigned *more, unsigned *size);
unsigned r_block_enc(uint8_t *v, unsigned num, unsigned more, unsigned size); /* minimal length encoding (0..3) */
unsigned r_recognised(unsigned num);
int r_same_content(const rmsg_t *a, const rmsg_t *b);                    /* code, options, payload */
#endif
