/* Certificates of every kind, made at run time with GnuTLS, written as PEM files to the current directory. */
#ifndef PKI_H
#define PKI_H
#include <time.h>
#define PKI_BASE 1700001000L       /* simulated wall-clock time at which the simulations start */
typedef struct
{
    const char *name;       /* files <name>.crt and <name>.key */
    const char *issuer;     /* NULL: self-signed */
    int ca;                 /* may sign certificates */
    long from, to;          /* validity relative to PKI_BASE, seconds */
    const char *cn;
    const char *dns[3];     /* subject alternative names */
    int tamper;             /* spoil the signature */
    int chain;              /* file also holds the issuer's certificate */
} pki_spec_t;
void pki_make(const pki_spec_t *s, int n);
void pki_bundle(const char *out, const char *const *names, int n);     /* trust file out.crt */
void pki_crl(const char *out, const char *issuer, const char *const *revoked, int n); /* out.crl */
#endif
