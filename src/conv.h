#ifndef CONV_H
#define CONV_H
#include "refcoap.h"
#include "coap_msg.h"
static inline const char *msg_differs(coap_msg_t *m, const rmsg_t *r)
{
    coap_msg_op_t *op; unsigned i = 0;
    if (coap_msg_get_ver(m) != 1) return "version";
    if (coap_msg_get_type(m) != r->type) return "type";
    if (coap_msg_get_code_class(m) != r->cls) return "code class";
    if (coap_msg_get_code_detail(m) != r->det) return "code detail";
    if (coap_msg_get_msg_id(m) != r->mid) return "message id";
    if (coap_msg_get_token_len(m) != r->tkl) return "token length";
    if (memcmp(coap_msg_get_token(m), r->tok, r->tkl)) return "token";
    for (op = coap_msg_get_first_op(m); op; op = coap_msg_op_get_next(op), i++)
    {
        if (i >= r->nops) return "too many options";
        if (coap_msg_op_get_num(op) != r->ops[i].num) return "option number";
        if (coap_msg_op_get_len(op) != r->ops[i].len) return "option length";
        if (r->ops[i].len && memcmp(coap_msg_op_get_val(op), r->ops[i].val, r->ops[i].len)) return "option value";
    }
    if (i != r->nops) return "too few options";
    if (coap_msg_get_payload_len(m) != r->plen) return "payload length";
    if (r->plen && memcmp(coap_msg_get_payload(m), r->payload, r->plen)) return "payload";
    return NULL;
}
#endif
