/* CoAP origin servers behind the proxy: the real server library, an application that answers as planned and records. */
#include <errno.h>
#include <string.h>
#include "vc.h"
#include "hconn.h"
#include "coap_msg.h"
#include "coap_server.h"
static coap_server_t S[NSRV];

static plan_t *find(coap_msg_t *m)
{
    for (coap_msg_op_t *op = coap_msg_get_first_op(m); op; op = coap_msg_op_get_next(op))
        if (coap_msg_op_get_num(op) == COAP_MSG_URI_QUERY && coap_msg_op_get_len(op) == 3 && coap_msg_op_get_val(op)[0] == 't')
            return plan_find(coap_msg_op_get_val(op) + 1, 2);
    return plan_find("??", 2);
}
static int rx(coap_server_trans_t *t, coap_msg_t *q, coap_msg_t *r)
{
    static uint8_t want[OMAX];
    plan_t *x = find(q);
    if (!x)
        return -EINVAL;
    x->rx++;
    plan_fill(want, x->up, x->salt);
    if (coap_server_trans_get_body_end(t) != x->up || memcmp(coap_server_trans_get_body(t), want, x->up))
        vc_viol("request-body-changed", "the origin received %zu bytes that are not the %u of the HTTP request", (size_t)coap_server_trans_get_body_end(t), x->up);
    plan_fill(coap_server_trans_get_body(t), x->down, x->salt + 1);
    coap_server_trans_set_body_end(t, x->down);
    return coap_msg_set_code(r, x->code >> 5, x->code & 31);
}
static int handle(int si, coap_server_trans_t *t, coap_msg_t *q, coap_msg_t *r)
{
    static uint8_t body[OMAX], want[OMAX];
    plan_t *x = find(q);
    unsigned num, more, size;
    if (!x)
        return -EINVAL;
    x->execs++;
    if (x->kind == K_NORIGIN)
        return coap_msg_set_code(r, x->code >> 5, x->code & 31);
    if (x->server != si)
        vc_viol("wrong-origin", "a request for origin %d reached origin %d", x->server, si);
    if ((int)coap_msg_get_code_detail(q) != x->method)
        vc_viol("wrong-method", "a request with method %d reached the origin as %u", x->method, coap_msg_get_code_detail(q));
    if (x->kind == K_BGET)
    {
        plan_fill(body, x->down, x->salt + 1);
        return coap_server_trans_handle_blockwise(t, q, r, x->sb1, x->sb2, (char *)body, x->down, NULL);
    }
    if (x->kind == K_413 && coap_msg_parse_block_op(&num, &more, &size, q, COAP_MSG_BLOCK1) == 1)
    {
        x->plain++;
        return coap_msg_set_code(r, 4, 13);
    }
    if (x->kind == K_BUP || x->kind == K_413)
    {
        memset(body, 0, sizeof(body));
        return coap_server_trans_handle_blockwise(t, q, r, x->sb1, x->sb2, (char *)body, OMAX, rx);
    }
    if (x->kind == K_SMALL)
    {
        plan_fill(want, x->up, x->salt);
        if (coap_msg_get_payload_len(q) != x->up || (x->up && memcmp(coap_msg_get_payload(q), want, x->up)))
            vc_viol("request-body-changed", "the origin received %zu bytes that are not the %u of the HTTP request", (size_t)coap_msg_get_payload_len(q), x->up);
    }
    plan_fill(body, x->down, x->salt + 1);
    int ret = coap_msg_set_code(r, x->code >> 5, x->code & 31);
    if (ret == 0 && x->down)
        ret = coap_msg_set_payload(r, (char *)body, x->down);
    return ret;
}
static int handle0(coap_server_trans_t *t, coap_msg_t *q, coap_msg_t *r) { return handle(0, t, q, r); }
static int handle1(coap_server_trans_t *t, coap_msg_t *q, coap_msg_t *r) { return handle(1, t, q, r); }
static int handle2(coap_server_trans_t *t, coap_msg_t *q, coap_msg_t *r) { return handle(2, t, q, r); }
int origin_create(int i, const char *host, const char *port)
{
    int ret = coap_server_create(&S[i], i == 0 ? handle0 : i == 1 ? handle1 : handle2, host, port);
    if (ret == 0)
        ret = coap_server_add_sep_resp_uri_path(&S[i], "/sep");
    return ret;
}
void origin_run(int i)
{
    int r = coap_server_run(&S[i]);
    vc_viol("origin-stopped", "coap_server_run of origin %d returned %d", i, r);
}
void origin_destroy(int i) { coap_server_destroy(&S[i]); }

/* the connection module is built for DTLS, the simulated network is plain: the proxy's client object holds a plain client */
extern void (*conn_client_hook)(const char *host, const char *port);
int plain_client_create(void *c, const char *host, const char *port);
int coap_client_create(void *c, const char *host, const char *port, const char *key, const char *cert, const char *trust, const char *crl, const char *cn)
{
    (void)key; (void)cert; (void)trust; (void)crl; (void)cn;
    if (conn_client_hook)
        conn_client_hook(host, port);
    return plain_client_create(c, host, port);
}
