#ifndef DTLS_H
#define DTLS_H
extern const void *dtls_plain; extern unsigned dtls_plain_len;   /* the record being sent, NULL: handshake, alert */
void dtls_init(void);
#endif
