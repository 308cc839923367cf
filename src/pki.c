#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <gnutls/gnutls.h>
#include <gnutls/x509.h>
#include <gnutls/abstract.h>
#include "pki.h"

#define MAXK 64
static struct { const char *name; gnutls_x509_crt_t crt; gnutls_x509_privkey_t key; } K[MAXK]; static int nK; static unsigned char serial = 10;
#define OK(x) do { int r_ = (x); if (r_ < 0) { printf("pki: %s: %s\n", #x, gnutls_strerror(r_)); exit(2); } } while (0)
static int find(const char *n) { for (int i = 0; i < nK; i++) if (!strcmp(K[i].name, n)) return i; printf("pki: no %s\n", n); exit(2); }
static void put(const char *name, const char *ext, const char *mode, const void *d, size_t n)
{
    char f[128]; snprintf(f, sizeof f, "%s%s", name, ext);
    FILE *h = fopen(f, mode);
    if (!h || fwrite(d, 1, n, h) != n || fclose(h)) { printf("pki: cannot write %s\n", f); exit(2); }
}
static void pem(gnutls_x509_crt_t c, const char *name, const char *mode) { gnutls_datum_t d; OK(gnutls_x509_crt_export2(c, GNUTLS_X509_FMT_PEM, &d)); put(name, ".crt", mode, d.data, d.size); gnutls_free(d.data); }
void pki_make(const pki_spec_t *s, int n)
{
    for (int i = 0; i < n; i++, s++)
    {
        gnutls_datum_t d; int k = nK++, by; unsigned char ser[2] = { 1, ++serial };
        K[k].name = s->name;
        OK(gnutls_x509_privkey_init(&K[k].key)); OK(gnutls_x509_crt_init(&K[k].crt));
        OK(gnutls_x509_privkey_generate(K[k].key, GNUTLS_PK_ECDSA, GNUTLS_CURVE_TO_BITS(GNUTLS_ECC_CURVE_SECP256R1), 0));
        OK(gnutls_x509_crt_set_version(K[k].crt, 3));
        OK(gnutls_x509_crt_set_serial(K[k].crt, ser, 2));
        OK(gnutls_x509_crt_set_activation_time(K[k].crt, PKI_BASE + s->from));
        OK(gnutls_x509_crt_set_expiration_time(K[k].crt, PKI_BASE + s->to));
        OK(gnutls_x509_crt_set_dn_by_oid(K[k].crt, GNUTLS_OID_X520_COMMON_NAME, 0, s->cn, strlen(s->cn)));
        for (int j = 0; j < 3; j++) if (s->dns[j]) OK(gnutls_x509_crt_set_subject_alt_name(K[k].crt, GNUTLS_SAN_DNSNAME, s->dns[j], strlen(s->dns[j]), GNUTLS_FSAN_APPEND));
        OK(gnutls_x509_crt_set_key(K[k].crt, K[k].key));
        OK(gnutls_x509_crt_set_basic_constraints(K[k].crt, s->ca, -1));
        OK(gnutls_x509_crt_set_key_usage(K[k].crt, s->ca ? GNUTLS_KEY_KEY_CERT_SIGN | GNUTLS_KEY_CRL_SIGN : GNUTLS_KEY_DIGITAL_SIGNATURE));
        by = s->issuer ? find(s->issuer) : k;
        OK(gnutls_x509_crt_sign2(K[k].crt, K[by].crt, K[by].key, GNUTLS_DIG_SHA256, 0));
        if (s->tamper)
        {   /* another byte at the very end of the signature */
            gnutls_x509_crt_t t; OK(gnutls_x509_crt_export2(K[k].crt, GNUTLS_X509_FMT_DER, &d));
            d.data[d.size - 1] ^= 1; OK(gnutls_x509_crt_init(&t)); OK(gnutls_x509_crt_import(t, &d, GNUTLS_X509_FMT_DER));
            gnutls_free(d.data); gnutls_x509_crt_deinit(K[k].crt); K[k].crt = t;
        }
        pem(K[k].crt, s->name, "w");
        if (s->chain) pem(K[by].crt, s->name, "a");
        OK(gnutls_x509_privkey_export2(K[k].key, GNUTLS_X509_FMT_PEM, &d)); put(s->name, ".key", "w", d.data, d.size); gnutls_free(d.data);
    }
}
void pki_bundle(const char *out, const char *const *names, int n) { for (int i = 0; i < n; i++) pem(K[find(names[i])].crt, out, i ? "a" : "w"); }
void pki_crl(const char *out, const char *issuer, const char *const *revoked, int n)
{
    gnutls_x509_crl_t c; gnutls_datum_t d; int by = find(issuer);
    OK(gnutls_x509_crl_init(&c));
    OK(gnutls_x509_crl_set_version(c, 2));
    OK(gnutls_x509_crl_set_this_update(c, PKI_BASE - 86400));
    OK(gnutls_x509_crl_set_next_update(c, PKI_BASE + 86400L * 300));
    OK(gnutls_x509_crl_set_number(c, "\1", 1));
    for (int i = 0; i < n; i++) OK(gnutls_x509_crl_set_crt(c, K[find(revoked[i])].crt, PKI_BASE - 86400));
    OK(gnutls_x509_crl_sign2(c, K[by].crt, K[by].key, GNUTLS_DIG_SHA256, 0));
    OK(gnutls_x509_crl_export2(c, GNUTLS_X509_FMT_PEM, &d)); put(out, ".crl", "w", d.data, d.size); gnutls_free(d.data);
    gnutls_x509_crl_deinit(c);
}
