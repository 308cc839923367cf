From 4018d8b31cb210470af66c852708d6cbb5b044f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:42 +0000
Subject: [PATCH 01/49] fix: treat the one-byte extended option delta and
 length as unsigned when parsing

---
 lib/src/coap_msg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/coap_msg.c b/lib/src/coap_msg.c
index af1c50d..417b331 100755
--- a/lib/src/coap_msg.c
+++ b/lib/src/coap_msg.c
@@ -566,7 +566,7 @@ static ssize_t coap_msg_parse_op(coap_msg_t *msg, char *buf, size_t len)
         {
             return -EBADMSG;
         }
-        op_delta += p[0];
+        op_delta += (unsigned char)p[0];
         p++;
         len--;
     }
@@ -586,7 +586,7 @@ static ssize_t coap_msg_parse_op(coap_msg_t *msg, char *buf, size_t len)
         {
             return -EBADMSG;
         }
-        op_len += p[0];
+        op_len += (unsigned char)p[0];
         p++;
         len--;
     }
-- 
2.43.0


From c000de14654c38e52fcc84e1de1f5e2e3e70e9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:42 +0000
Subject: [PATCH 02/49] fix: return the option structure to the pool it came
 from when its value cannot be allocated

---
 lib/src/coap_msg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/coap_msg.c b/lib/src/coap_msg.c
index 417b331..15a0fc1 100755
--- a/lib/src/coap_msg.c
+++ b/lib/src/coap_msg.c
@@ -206,7 +206,7 @@ static coap_msg_op_t *coap_msg_op_new(unsigned num, unsigned len, const char *va
     op->val = (char *)coap_mem_medium_alloc(len);
     if (op->val == NULL)
     {
-        coap_mem_medium_free(op);
+        coap_mem_small_free(op);
         return NULL;
     }
     memcpy(op->val, val, len);
-- 
2.43.0


From 4563203369c8559f1075af4391fbed257a70508b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:42 +0000
Subject: [PATCH 03/49] fix: do not read past the end of a message that ends
 after an option

---
 lib/src/coap_msg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/coap_msg.c b/lib/src/coap_msg.c
index 15a0fc1..16d51ea 100755
--- a/lib/src/coap_msg.c
+++ b/lib/src/coap_msg.c
@@ -640,7 +640,7 @@ static ssize_t coap_msg_parse_ops(coap_msg_t *msg, char *buf, size_t len)
 
     while (1)
     {
-        if (((p[0] & 0xff) == 0xff) || (len == 0))
+        if ((len == 0) || ((p[0] & 0xff) == 0xff))
         {
             break;
         }
-- 
2.43.0


From 344a800b689a2af6eb61880b192d77dec75ddedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:42 +0000
Subject: [PATCH 04/49] fix: compute the space needed by an option from its
 length, not its number

---
 lib/src/coap_msg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/coap_msg.c b/lib/src/coap_msg.c
index 16d51ea..3b06442 100755
--- a/lib/src/coap_msg.c
+++ b/lib/src/coap_msg.c
@@ -931,7 +931,7 @@ static ssize_t coap_msg_format_op(coap_msg_op_t *op, unsigned prev_num, char *bu
     {
         num += 2;
     }
-    else if (op->num >= 13)
+    else if (op->len >= 13)
     {
         num += 1;
     }
-- 
2.43.0


From fd5939320b4c184ce3bdabd2ee04ed93d3e5f8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:42 +0000
Subject: [PATCH 05/49] fix: refuse block numbers that do not fit in the block
 option value

---
 lib/src/coap_msg.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/src/coap_msg.c b/lib/src/coap_msg.c
index 3b06442..c88531c 100755
--- a/lib/src/coap_msg.c
+++ b/lib/src/coap_msg.c
@@ -149,7 +149,7 @@ int coap_msg_op_format_block_val(char *val, unsigned len, unsigned num, unsigned
     switch (len)
     {
     case 1:
-        if (num > (1 << 4))
+        if (num >= (1 << 4))
         {
             return -EINVAL;
         }
@@ -158,7 +158,7 @@ int coap_msg_op_format_block_val(char *val, unsigned len, unsigned num, unsigned
         val[0] |= szx;
         return 1;
     case 2:
-        if (num > (1 << 12))
+        if (num >= (1 << 12))
         {
             return -EINVAL;
         }
@@ -168,7 +168,7 @@ int coap_msg_op_format_block_val(char *val, unsigned len, unsigned num, unsigned
         val[1] |= szx;
         return 2;
     case 3:
-        if (num > (1 << 20))
+        if (num >= (1 << 20))
         {
             return -EINVAL;
         }
-- 
2.43.0


From 50d1d69b8df5a1bcb8139e7b5ce8eb1844dd649d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:42 +0000
Subject: [PATCH 06/49] fix: parse zero-length block option values as zero and
 refuse values longer than three bytes

---
 lib/src/coap_msg.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/src/coap_msg.c b/lib/src/coap_msg.c
index c88531c..a44315d 100755
--- a/lib/src/coap_msg.c
+++ b/lib/src/coap_msg.c
@@ -109,6 +109,11 @@ int coap_msg_op_parse_block_val(unsigned *num, unsigned *more, unsigned *size, c
 {
     switch (len)
     {
+    case 0:
+        *size = 1 << 4;
+        *more = 0;
+        *num = 0;
+        break;
     case 1:
         *size = 1 << ((val[0] & 0x07) + 4);
         *more = !!(val[0] & 0x08);
@@ -120,12 +125,15 @@ int coap_msg_op_parse_block_val(unsigned *num, unsigned *more, unsigned *size, c
         *num = ((unsigned)(unsigned char)val[0] << 4)
              | (((unsigned)(unsigned char)val[1] & 0x000000f0) >> 4);
         break;
-    default:
+    case 3:
         *size = 1 << ((val[2] & 0x07) + 4);
         *more = !!(val[2] & 0x08);
         *num = ((unsigned)(unsigned char)val[0] << 12)
              | ((unsigned)(unsigned char)val[1] << 4)
              | (((unsigned)(unsigned char)val[2] & 0x000000f0) >> 4);
+        break;
+    default:
+        return -EINVAL;
     }
     if (*size > COAP_MSG_OP_MAX_BLOCK_SIZE)
     {
-- 
2.43.0


From b397048873e22d55f9d4dc26d045ba8bef72bb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:42 +0000
Subject: [PATCH 07/49] fix: make the memory pools safe to use from several
 threads

---
 lib/src/coap_mem.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/src/coap_mem.c b/lib/src/coap_mem.c
index 41509ec..82e5cc5 100755
--- a/lib/src/coap_mem.c
+++ b/lib/src/coap_mem.c
@@ -34,8 +34,11 @@
 #include <stdlib.h>
 #include <string.h>
 #include <errno.h>
+#include <pthread.h>
 #include "coap_mem.h"
 
+static pthread_mutex_t coap_mem_mutex = PTHREAD_MUTEX_INITIALIZER;              /**< Protects the active buffer maps of all memory allocators */
+
 int coap_mem_create(coap_mem_t *mem, size_t num, size_t len)
 {
     memset(mem, 0, sizeof(coap_mem_t));
@@ -78,6 +81,7 @@ void *coap_mem_alloc(coap_mem_t *mem, size_t len)
     {
         return NULL;
     }
+    pthread_mutex_lock(&coap_mem_mutex);
     for (byte = 0; byte < coap_mem_get_active_len(mem); byte++)
     {
         for (bit = 0; bit < 8; bit++)
@@ -87,10 +91,12 @@ void *coap_mem_alloc(coap_mem_t *mem, size_t len)
             {
                 mem->active[byte] |= mask;
                 mem_buf = &mem->buf[(8 * byte + bit) * mem->len];
+                pthread_mutex_unlock(&coap_mem_mutex);
                 return mem_buf;
             }
         }
     }
+    pthread_mutex_unlock(&coap_mem_mutex);
     return NULL;
 }
 
@@ -101,6 +107,7 @@ void coap_mem_free(coap_mem_t *mem, void *buf)
     size_t bit = 0;
     void *mem_buf = NULL;
 
+    pthread_mutex_lock(&coap_mem_mutex);
     for (byte = 0; byte < coap_mem_get_active_len(mem); byte++)
     {
         for (bit = 0; bit < 8; bit++)
@@ -113,6 +120,7 @@ void coap_mem_free(coap_mem_t *mem, void *buf)
             }
         }
     }
+    pthread_mutex_unlock(&coap_mem_mutex);
 }
 
 /**
-- 
2.43.0


From 83919463fd34f42bc51e587e4ba8146db110b27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:42 +0000
Subject: [PATCH 08/49] fix: seed the random number generator once even when
 threads race

---
 lib/src/coap_msg.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/lib/src/coap_msg.c b/lib/src/coap_msg.c
index a44315d..3fbdc3e 100755
--- a/lib/src/coap_msg.c
+++ b/lib/src/coap_msg.c
@@ -37,6 +37,7 @@
 #include <time.h>
 #include <errno.h>
 #include <arpa/inet.h>
+#include <pthread.h>
 #include "coap_msg.h"
 #include "coap_mem.h"
 
@@ -44,17 +45,21 @@
 #define coap_msg_op_list_get_last(list)        ((list)->last)                   /**< Get the last option in an option linked-list */
 #define coap_msg_op_list_is_empty(list)        ((list)->first == NULL)          /**< Indicate whether or not an option linked-list is empty */
 
-static int coap_msg_rand_init = 0;                                              /**< Indicates whether or not the random number generator has been initialised */
+static pthread_once_t coap_msg_rand_once = PTHREAD_ONCE_INIT;                   /**< Ensures that the random number generator is seeded exactly once */
+
+/**
+ *  @brief Seed the random number generator
+ */
+static void coap_msg_rand_init(void)
+{
+    srand(time(NULL));
+}
 
 void coap_msg_gen_rand_str(char *buf, size_t len)
 {
     size_t i = 0;
 
-    if (!coap_msg_rand_init)
-    {
-        srand(time(NULL));
-        coap_msg_rand_init = 1;
-    }
+    pthread_once(&coap_msg_rand_once, coap_msg_rand_init);
     for (i = 0; i < len; i++)
     {
         buf[i] = rand() & 0x000000ff;
-- 
2.43.0


From 69469b6494100c42e7a0d94709bd9ee2711db2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:17 +0000
Subject: [PATCH 09/49] fix: do not mistake the first request of a client for a
 duplicate when its message ID is 0

---
 lib/src/coap_server.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/coap_server.c b/lib/src/coap_server.c
index 30f0bc0..b25da6d 100755
--- a/lib/src/coap_server.c
+++ b/lib/src/coap_server.c
@@ -1364,8 +1364,8 @@ static int coap_server_trans_create(coap_server_trans_t *trans, coap_server_t *s
         memset(trans, 0, sizeof(coap_server_trans_t));
         return -errno;
     }
-    coap_msg_create(&trans->req);
-    coap_msg_create(&trans->resp);
+    /* the request and response messages are left cleared until the first */
+    /* exchange so that they do not match a message with a message ID of 0 */
     trans->server = server;
 #ifdef COAP_DTLS_EN
     ret = coap_server_trans_dtls_create(trans);
-- 
2.43.0


From d2e84c290c3cb86983cf3a7d46962340d389dd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:17 +0000
Subject: [PATCH 10/49] fix: reset empty confirmable messages instead of
 passing them to the application

---
 lib/src/coap_server.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/coap_server.c b/lib/src/coap_server.c
index b25da6d..7a4d8f5 100755
--- a/lib/src/coap_server.c
+++ b/lib/src/coap_server.c
@@ -2374,7 +2374,8 @@ static int coap_server_exchange(coap_server_t *server)
     /* check for a valid request */
     if ((coap_msg_get_type(&recv_msg) == COAP_MSG_ACK)
      || (coap_msg_get_type(&recv_msg) == COAP_MSG_RST)
-     || (coap_msg_get_code_class(&recv_msg) != COAP_MSG_REQ))
+     || (coap_msg_get_code_class(&recv_msg) != COAP_MSG_REQ)
+     || (coap_msg_is_empty(&recv_msg)))
     {
         coap_server_trans_reject(trans, &recv_msg);
         coap_msg_destroy(&recv_msg);
-- 
2.43.0


From 6bc2b934985dc5fd7403ff25de5db2f98a716384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:17 +0000
Subject: [PATCH 11/49] fix: stop the acknowledgement timer when a new request
 replaces the previous response

---
 lib/src/coap_server.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/src/coap_server.c b/lib/src/coap_server.c
index 7a4d8f5..b4e9334 100755
--- a/lib/src/coap_server.c
+++ b/lib/src/coap_server.c
@@ -2392,6 +2392,15 @@ static int coap_server_exchange(coap_server_t *server)
         coap_log_info("Received non-confirmable request from address %s and port %u", trans->client_addr, ntohs(trans->client_sin.COAP_IPV_SIN_PORT));
     }
 
+    /* a new request ends the retransmission of the previous response */
+    ret = coap_server_trans_stop_ack_timer(trans);
+    if (ret < 0)
+    {
+        coap_msg_destroy(&recv_msg);
+        coap_server_trans_destroy(trans);
+        return ret;
+    }
+
     /* clear details of the previous request/response */
     coap_server_trans_clear_req(trans);
     coap_server_trans_clear_resp(trans);
-- 
2.43.0


From 68574515341cd0966dcc05a05b34da85f0edadbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:17 +0000
Subject: [PATCH 12/49] fix: keep the server running when a retransmission
 cannot be sent

---
 lib/src/coap_server.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/src/coap_server.c b/lib/src/coap_server.c
index b4e9334..159aee5 100755
--- a/lib/src/coap_server.c
+++ b/lib/src/coap_server.c
@@ -2159,7 +2159,9 @@ static int coap_server_listen(coap_server_t *server)
                 ret = coap_server_trans_handle_ack_timeout(trans);
                 if (ret < 0)
                 {
-                    return ret;
+                    /* give up on this client but keep serving the others */
+                    coap_log_error("Unable to retransmit to address %s and port %u", trans->client_addr, ntohs(trans->client_sin.COAP_IPV_SIN_PORT));
+                    coap_server_trans_destroy(trans);
                 }
             }
         }
-- 
2.43.0


From ad4a3dc64e7b1beae87edcb783273d0d97993b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:52 +0000
Subject: [PATCH 13/49] fix: keep a client's deduplication and retransmission
 state when rejecting a misplaced message

---
 lib/src/coap_server.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/coap_server.c b/lib/src/coap_server.c
index 159aee5..f99e20c 100755
--- a/lib/src/coap_server.c
+++ b/lib/src/coap_server.c
@@ -2379,9 +2379,9 @@ static int coap_server_exchange(coap_server_t *server)
      || (coap_msg_get_code_class(&recv_msg) != COAP_MSG_REQ)
      || (coap_msg_is_empty(&recv_msg)))
     {
+        /* keep the transaction, the message says nothing about the previous exchange */
         coap_server_trans_reject(trans, &recv_msg);
         coap_msg_destroy(&recv_msg);
-        coap_server_trans_destroy(trans);
         return -EBADMSG;
     }
 
-- 
2.43.0


From 272d2077b646450c1d9188db6a895dc2f9cdcd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:56 +0000
Subject: [PATCH 14/49] fix: free the partly copied request when a blockwise
 exchange runs out of memory

---
 lib/src/coap_client.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/coap_client.c b/lib/src/coap_client.c
index 812d1cd..8f4d5fe 100755
--- a/lib/src/coap_client.c
+++ b/lib/src/coap_client.c
@@ -1690,6 +1690,7 @@ static ssize_t coap_client_exchange_blockwise1(coap_client_t *client,
         ret = coap_msg_copy(&msg, req);
         if (ret < 0)
         {
+            coap_msg_destroy(&msg);
             return ret;
         }
         block1_more = 1;
@@ -1851,6 +1852,7 @@ static ssize_t coap_client_exchange_blockwise2(coap_client_t *client,
             ret = coap_msg_copy(&msg, req);
             if (ret < 0)
             {
+                coap_msg_destroy(&msg);
                 return ret;
             }
             block2_more = 0;  /* more must be zero for this use case */
-- 
2.43.0


From 74b4fdddcbc82cdd6f20b5ab020a689440f89c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:56 +0000
Subject: [PATCH 15/49] fix: accept a separate response whose message ID
 happens to equal the one of the request

---
 lib/src/coap_client.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/src/coap_client.c b/lib/src/coap_client.c
index 8f4d5fe..5d30ee7 100755
--- a/lib/src/coap_client.c
+++ b/lib/src/coap_client.c
@@ -1390,7 +1390,8 @@ static int coap_client_exchange_sep(coap_client_t *client, coap_msg_t *req, coap
         {
             return num;
         }
-        if (coap_msg_get_msg_id(resp) == coap_msg_get_msg_id(req))
+        if (((coap_msg_get_type(resp) == COAP_MSG_ACK) || (coap_msg_get_type(resp) == COAP_MSG_RST))
+         && (coap_msg_get_msg_id(resp) == coap_msg_get_msg_id(req)))
         {
             if (coap_msg_get_type(resp) == COAP_MSG_ACK)
             {
@@ -1462,7 +1463,8 @@ static int coap_client_exchange_con(coap_client_t *client, coap_msg_t *req, coap
         {
             return num;
         }
-        if (coap_msg_get_msg_id(resp) == coap_msg_get_msg_id(req))
+        if (((coap_msg_get_type(resp) == COAP_MSG_ACK) || (coap_msg_get_type(resp) == COAP_MSG_RST))
+         && (coap_msg_get_msg_id(resp) == coap_msg_get_msg_id(req)))
         {
             if (coap_msg_get_type(resp) == COAP_MSG_ACK)
             {
@@ -1544,7 +1546,8 @@ static int coap_client_exchange_non(coap_client_t *client, coap_msg_t *req, coap
         {
             return num;
         }
-        if (coap_msg_get_msg_id(resp) == coap_msg_get_msg_id(req))
+        if (((coap_msg_get_type(resp) == COAP_MSG_ACK) || (coap_msg_get_type(resp) == COAP_MSG_RST))
+         && (coap_msg_get_msg_id(resp) == coap_msg_get_msg_id(req)))
         {
             if (coap_msg_get_type(resp) == COAP_MSG_RST)
             {
-- 
2.43.0


From 0c22a380cb7494f7ee14ed12e85a75e91459d8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:56 +0000
Subject: [PATCH 16/49] fix: check the position of a received block with the
 block size that the server used

---
 lib/src/coap_client.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/coap_client.c b/lib/src/coap_client.c
index 5d30ee7..ed69860 100755
--- a/lib/src/coap_client.c
+++ b/lib/src/coap_client.c
@@ -1920,7 +1920,7 @@ static ssize_t coap_client_exchange_blockwise2(coap_client_t *client,
             block2_size = tmp_block_size;
         }
         /* check that the received block is the next one in sequence */
-        if (block2_num * block2_size != block2_start)
+        if (block2_num * tmp_block_size != block2_start)
         {
             coap_msg_destroy(&msg);
             return -EBADMSG;
-- 
2.43.0


From cbcbc77a990cbc4eabcf916cb19e332a9a5ee429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:52 +0000
Subject: [PATCH 17/49] fix: do not reuse the message ID of a recent request by
 chance

---
 lib/include/coap_client.h |  1 +
 lib/src/coap_client.c     | 11 ++++++-----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/lib/include/coap_client.h b/lib/include/coap_client.h
index 5efad4b..c70cfaf 100755
--- a/lib/include/coap_client.h
+++ b/lib/include/coap_client.h
@@ -55,6 +55,7 @@ typedef struct
     int timer_fd;                                                               /**< Timer file descriptor */
     struct timespec timeout;                                                    /**< Timeout value */
     unsigned num_retrans;                                                       /**< Current number of retransmissions */
+    unsigned msg_id;                                                            /**< Last message ID value used in a request message */
     coap_ipv_sockaddr_in_t server_sin;                                          /**< Socket structture */
     socklen_t server_sin_len;                                                   /**< Socket structure length */
     char server_host[COAP_CLIENT_HOST_BUF_LEN];                                 /**< String to hold the server host address */
diff --git a/lib/src/coap_client.c b/lib/src/coap_client.c
index ed69860..cdb9f7d 100755
--- a/lib/src/coap_client.c
+++ b/lib/src/coap_client.c
@@ -564,6 +564,7 @@ int coap_client_create(coap_client_t *client,
     struct addrinfo hints = {0};
     struct addrinfo *list = NULL;
     struct addrinfo *node = NULL;
+    unsigned char msg_id[2] = {0};
     int flags = 0;
     int ret = 0;
 
@@ -646,6 +647,8 @@ int coap_client_create(coap_client_t *client,
         return ret;
     }
 #endif
+    coap_msg_gen_rand_str((char *)msg_id, sizeof(msg_id));
+    client->msg_id = (((unsigned)msg_id[1]) << 8) | (unsigned)msg_id[0];
     coap_log_notice("Connected to host %s and port %s", client->server_host, client->server_port);
     return 0;
 }
@@ -1574,8 +1577,6 @@ static int coap_client_exchange_non(coap_client_t *client, coap_msg_t *req, coap
 
 int coap_client_exchange(coap_client_t *client, coap_msg_t *req, coap_msg_t *resp)
 {
-    unsigned char msg_id_buf[2] = {0};
-    unsigned msg_id = 0;
     ssize_t num = 0;
     char token[4] = {0};
     int ret = 0;
@@ -1589,9 +1590,9 @@ int coap_client_exchange(coap_client_t *client, coap_msg_t *req, coap_msg_t *res
     }
 
     /* generate the message ID */
-    coap_msg_gen_rand_str((char *)msg_id_buf, sizeof(msg_id_buf));
-    msg_id = (((unsigned)msg_id_buf[1]) << 8) | (unsigned)msg_id_buf[0];
-    ret = coap_msg_set_msg_id(req, msg_id);
+    /* use consecutive values so that one is not reused while the server still remembers it */
+    client->msg_id = (client->msg_id + 1) & COAP_MSG_MAX_MSG_ID;
+    ret = coap_msg_set_msg_id(req, client->msg_id);
     if (ret < 0)
     {
         return ret;
-- 
2.43.0


From 9e05fb2a6db239c399ed8386984a7ac4c22b82ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:20 +0000
Subject: [PATCH 18/49] fix: accept null characters in the body of an HTTP
 message

---
 proxy/common/src/http_msg.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/proxy/common/src/http_msg.c b/proxy/common/src/http_msg.c
index f8afeee..a15c2e2 100755
--- a/proxy/common/src/http_msg.c
+++ b/proxy/common/src/http_msg.c
@@ -361,17 +361,17 @@ static ssize_t http_msg_parse_headers(http_msg_t *msg, char *str)
  *
  *  @param[in,out] msg Pointer to a message structure
  *  @param[in] str String representation of the message body
+ *  @param[in] str_len Number of bytes in the string, the body can contain null characters
  *
  *  @returns Number of bytes parsed or error code
  *  @retval >=0 Number of bytes parsed
  *  @retval <0 Error code
  */
-static ssize_t http_msg_parse_body(http_msg_t *msg, char *str)
+static ssize_t http_msg_parse_body(http_msg_t *msg, char *str, size_t str_len)
 {
     http_msg_header_t *header = NULL;
     ssize_t num = 0;
     size_t content_len = 0;
-    size_t str_len = 0;
     char *chunk_size = NULL;
     char *chunk_data = NULL;
     char *param = NULL;
@@ -383,8 +383,6 @@ static ssize_t http_msg_parse_body(http_msg_t *msg, char *str)
     int ret = 0;
     int i = 0;
 
-    str_len = strlen(str);
-
     header = http_msg_get_first_header(msg);
     while (header != NULL)
     {
@@ -521,11 +519,12 @@ static ssize_t http_msg_parse_body(http_msg_t *msg, char *str)
  *
  *  @param[out] msg Pointer to a message structure
  *  @param[in,out] str String containing the message
+ *  @param[in] len Number of bytes in the string
  *
  *  @returns Number of bytes parsed or error code
  *  @retval >0 Number of bytes
  *  @retval <0 Error code
- */static ssize_t __http_msg_parse(http_msg_t *msg, char *str)
+ */static ssize_t __http_msg_parse(http_msg_t *msg, char *str, size_t len)
 {
     ssize_t num = 0;
     char *next = str;
@@ -544,7 +543,7 @@ static ssize_t http_msg_parse_body(http_msg_t *msg, char *str)
     }
     next += num;
 
-    num = http_msg_parse_body(msg, next);
+    num = http_msg_parse_body(msg, next, str + len - next);
     if (num < 0)
     {
         return num;
@@ -567,7 +566,7 @@ ssize_t http_msg_parse(http_msg_t *msg, const char *buf, size_t len)
     }
     memcpy(str, buf, len);
     str[len] = '\0';
-    num = __http_msg_parse(msg, str);
+    num = __http_msg_parse(msg, str, len);
     free(str);
     return num;
 }
-- 
2.43.0


From f815266bd3f8348f2ce32c8ab3e69412092f3cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:45 +0000
Subject: [PATCH 19/49] fix: refuse malformed, negative and oversized chunk
 sizes and content lengths in HTTP messages

---
 proxy/common/src/http_msg.c | 65 +++++++++++++++++++++++++++++++------
 1 file changed, 55 insertions(+), 10 deletions(-)

diff --git a/proxy/common/src/http_msg.c b/proxy/common/src/http_msg.c
index a15c2e2..ceb0182 100755
--- a/proxy/common/src/http_msg.c
+++ b/proxy/common/src/http_msg.c
@@ -35,6 +35,7 @@
 #include <stdio.h>
 #include <string.h>
 #include <ctype.h>
+#include <limits.h>
 #include <errno.h>
 #include "http_msg.h"
 #include "util.h"
@@ -356,6 +357,47 @@ static ssize_t http_msg_parse_headers(http_msg_t *msg, char *str)
     return 0;  /* should never arrive here */
 }
 
+/**
+ *  @brief Parse an unsigned number
+ *
+ *  @param[in] str String containing the number, optionally followed by whitespace
+ *  @param[in] base Base of the number
+ *  @param[out] val Number
+ *
+ *  @returns Error code
+ *  @retval 0 Success
+ *  @retval -EBADMSG The string does not start with a number that can be represented
+ */
+static int http_msg_parse_num(const char *str, unsigned base, size_t *val)
+{
+    unsigned digit = 0;
+    size_t num = 0;
+
+    if (!isxdigit((unsigned char)*str))
+    {
+        return -EBADMSG;
+    }
+    while ((*str != '\0') && (!isspace((unsigned char)*str)))
+    {
+        if (isdigit((unsigned char)*str))
+        {
+            digit = *str - '0';
+        }
+        else
+        {
+            digit = tolower((unsigned char)*str) - 'a' + 10;
+        }
+        if ((!isxdigit((unsigned char)*str)) || (digit >= base) || (num > (INT_MAX - digit) / base))
+        {
+            return -EBADMSG;
+        }
+        num = num * base + digit;
+        str++;
+    }
+    *val = num;
+    return 0;
+}
+
 /**
  *  @brief Parse the body in a message
  *
@@ -377,8 +419,8 @@ static ssize_t http_msg_parse_body(http_msg_t *msg, char *str, size_t str_len)
     char *param = NULL;
     char *next = NULL;
     char *dest = NULL;
-    int total_len = 0;
-    int chunk_len = 0;
+    size_t total_len = 0;
+    size_t chunk_len = 0;
     int chunked = 0;
     int ret = 0;
     int i = 0;
@@ -393,7 +435,11 @@ static ssize_t http_msg_parse_body(http_msg_t *msg, char *str, size_t str_len)
         }
         if (strcasecmp(header->name, "Content-Length") == 0)
         {
-            content_len = atoi(header->value);
+            ret = http_msg_parse_num(header->value, 10, &content_len);
+            if (ret < 0)
+            {
+                return ret;
+            }
         }
         header = header->next;
     }
@@ -429,10 +475,10 @@ static ssize_t http_msg_parse_body(http_msg_t *msg, char *str, size_t str_len)
                 }
 
                 /* parse chunk length */
-                ret = sscanf(chunk_size, "%x", &chunk_len);
-                if (ret != 1)
+                ret = http_msg_parse_num(chunk_size, 16, &chunk_len);
+                if (ret < 0)
                 {
-                    return -EBADMSG;
+                    return ret;
                 }
                 if (chunk_len == 0)
                 {
@@ -443,14 +489,13 @@ static ssize_t http_msg_parse_body(http_msg_t *msg, char *str, size_t str_len)
                     total_len += chunk_len;
                 }
 
-                chunk_data = next;
-                next += chunk_len;
-
                 /* parse the end of chunk-data */
-                if (next + 2 > str + str_len)
+                if ((size_t)(str + str_len - next) < chunk_len + 2)
                 {
                     return -EAGAIN;
                 }
+                chunk_data = next;
+                next += chunk_len;
                 if ((*next != '\r')
                  || (*(next + 1) != '\n'))
                 {
-- 
2.43.0


From dc4a4da15e7a7717a5761114439f44c2e9f59f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:45 +0000
Subject: [PATCH 20/49] fix: do not write beyond the buffer when an HTTP
 message or chunk does not fit

---
 proxy/common/src/http_msg.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/proxy/common/src/http_msg.c b/proxy/common/src/http_msg.c
index ceb0182..42cdfde 100755
--- a/proxy/common/src/http_msg.c
+++ b/proxy/common/src/http_msg.c
@@ -685,7 +685,7 @@ size_t http_msg_generate(http_msg_t *msg, char *buf, size_t len)
         {
             memcpy(buf + str_len, msg->body, msg->body_len);  /* full copy */
         }
-        else if (str_len < (len - 1))  /* if there is space for one byte not including the '\0' */
+        else if (str_len + 1 < len)  /* if there is space for one byte not including the '\0' */
         {
             memcpy(buf + str_len, msg->body, (len - 1) - str_len);  /* partial copy */
         }
@@ -709,8 +709,12 @@ size_t http_msg_generate_chunk(char *out, size_t out_len, const char *in, size_t
     num += target;
 
     target = in_len;
-    actual = (target <= (out_len - 1)) ? target : (out_len - 1);
-    memcpy(out, in, actual);
+    actual = 0;
+    if (out_len > 0)
+    {
+        actual = (target <= (out_len - 1)) ? target : (out_len - 1);
+        memcpy(out, in, actual);
+    }
     out += actual;
     out_len -= actual;
     num += target;
-- 
2.43.0


From 2bfaa04aa0b288bf59e55ad2cb9c108ecb0f51da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:45 +0000
Subject: [PATCH 21/49] fix: free the previous start line and body when they
 are set again

---
 proxy/common/src/http_msg.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/proxy/common/src/http_msg.c b/proxy/common/src/http_msg.c
index 42cdfde..230cd0b 100755
--- a/proxy/common/src/http_msg.c
+++ b/proxy/common/src/http_msg.c
@@ -618,16 +618,19 @@ ssize_t http_msg_parse(http_msg_t *msg, const char *buf, size_t len)
 
 int http_msg_set_start(http_msg_t *msg, const char *start1, const char *start2, const char *start3)
 {
+    free(msg->start[0]);
     msg->start[0] = strdup(start1);
     if (msg->start[0] == NULL)
     {
         return -ENOMEM;
     }
+    free(msg->start[1]);
     msg->start[1] = strdup(start2);
     if (msg->start[1] == NULL)
     {
         return -ENOMEM;
     }
+    free(msg->start[2]);
     msg->start[2] = strdup(start3);
     if (msg->start[2] == NULL)
     {
@@ -643,6 +646,8 @@ int http_msg_set_header(http_msg_t *msg, const char *name, const char *value)
 
 int http_msg_set_body(http_msg_t *msg, const char *buf, size_t len)
 {
+    free(msg->body);
+    msg->body_len = 0;
     msg->body = calloc(len + 1, 1);  /* allocate space for a terminating null character */
     if (msg->body == NULL)           /* even if the body carries binary data */
     {
-- 
2.43.0


From c7f734cdee724fa16a0852f4a1b55c0cdb2b43d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:17 +0000
Subject: [PATCH 22/49] fix: copy a URI that has a host or port but no scheme

---
 proxy/common/src/uri.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proxy/common/src/uri.c b/proxy/common/src/uri.c
index 48dcba4..d580b10 100755
--- a/proxy/common/src/uri.c
+++ b/proxy/common/src/uri.c
@@ -748,7 +748,7 @@ int uri_copy(uri_t *dest, uri_t *src)
     if (src->host != NULL)
     {
         dest->host = strdup(src->host);
-        if (dest->scheme == NULL)
+        if (dest->host == NULL)
         {
             uri_destroy(dest);
             return -ENOMEM;
@@ -757,7 +757,7 @@ int uri_copy(uri_t *dest, uri_t *src)
     if (src->port != NULL)
     {
         dest->port = strdup(src->port);
-        if (dest->scheme == NULL)
+        if (dest->port == NULL)
         {
             uri_destroy(dest);
             return -ENOMEM;
-- 
2.43.0


From 1b16b0ce05a6db0648306e5f96dbf9ec874fde0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:17 +0000
Subject: [PATCH 23/49] fix: do not look for the userinfo and port of a URI in
 its path

---
 proxy/common/src/uri.c | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/proxy/common/src/uri.c b/proxy/common/src/uri.c
index d580b10..ee474a3 100755
--- a/proxy/common/src/uri.c
+++ b/proxy/common/src/uri.c
@@ -432,6 +432,12 @@ static int uri_parse_hier_part(uri_t *uri, char **q)
         /* parse authority and path */
 
         p += 2;
+        /* the authority ends at the first forward slash */
+        path = strchr(p, '/');
+        if (path != NULL)
+        {
+            *path++ = '\0';
+        }
         r = strchr(p, '@');
         if (r != NULL)
         {
@@ -454,20 +460,11 @@ static int uri_parse_hier_part(uri_t *uri, char **q)
             p = r + 1;
         }
 
-        /* check for port and path */
+        /* check for port */
         port = uri_find_port(p);
         if (port != NULL)
         {
             *port++ = '\0';
-            path = strchr(port, '/');
-        }
-        else
-        {
-            path = strchr(p, '/');
-        }
-        if (path != NULL)
-        {
-            *path++ = '\0';
         }
 
         /* parse host */
-- 
2.43.0


From cbb0c243d0b1cfffc2560521598ed294b69afae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:17 +0000
Subject: [PATCH 24/49] fix: do not look for the scheme of a URI beyond its
 first path segment

---
 proxy/common/src/uri.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proxy/common/src/uri.c b/proxy/common/src/uri.c
index ee474a3..ff7e1e4 100755
--- a/proxy/common/src/uri.c
+++ b/proxy/common/src/uri.c
@@ -369,8 +369,8 @@ static int uri_parse_scheme(uri_t *uri, char **q)
         return -EBADMSG;
     }
     p = *q;
-    r = strchr(p, ':');
-    if (r != NULL)
+    r = strpbrk(p, ":/?#");
+    if ((r != NULL) && (*r == ':'))
     {
         *r = '\0';
         len = strlen(p) + 1;
-- 
2.43.0


From 7133d80909b274c0d65c5264b0f7cd02036fd045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:17 +0000
Subject: [PATCH 25/49] fix: refuse a percent-encoded null character in a URI
 instead of cutting the component short

---
 proxy/common/src/uri.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/common/src/uri.c b/proxy/common/src/uri.c
index ff7e1e4..70b272a 100755
--- a/proxy/common/src/uri.c
+++ b/proxy/common/src/uri.c
@@ -266,7 +266,7 @@ static ssize_t uri_decode_str(char *dest, const char *src, size_t dest_str_len,
     while (*src != '\0')
     {
         c = uri_decode_octet(&src);
-        if (c == -1)
+        if ((c == -1) || (c == '\0'))
         {
             return -1;
         }
-- 
2.43.0


From d5f6ebc68caccf2e6e5b4c1f584f4d61eada445a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:09 +0000
Subject: [PATCH 26/49] fix: do not translate unknown CoAP success codes to
 HTTP client errors

---
 proxy/common/src/cross.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/proxy/common/src/cross.c b/proxy/common/src/cross.c
index ab86497..a48592a 100755
--- a/proxy/common/src/cross.c
+++ b/proxy/common/src/cross.c
@@ -145,6 +145,7 @@ static int cross_status_coap_to_http(http_msg_t *http_msg, coap_msg_t *coap_msg)
         case COAP_MSG_CONTENT:
             return http_msg_set_start(http_msg, "HTTP/1.1", "200", "OK");
         }
+        break;
     case COAP_MSG_CLIENT_ERR:
         switch (coap_msg_get_code_detail(coap_msg))
         {
@@ -170,6 +171,7 @@ static int cross_status_coap_to_http(http_msg_t *http_msg, coap_msg_t *coap_msg)
         case COAP_MSG_UNSUP_CONT_FMT:
             return http_msg_set_start(http_msg, "HTTP/1.1", "415", "Unsupported Media Type");
         }
+        break;
     case COAP_MSG_SERVER_ERR:
         switch (coap_msg_get_code_detail(coap_msg))
         {
-- 
2.43.0


From cafd06a2e8c5b31a0ddaa109d2706d6d4412ed9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:09 +0000
Subject: [PATCH 27/49] fix: report that a URI does not fit in a buffer of
 length zero

---
 proxy/common/src/cross.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/common/src/cross.c b/proxy/common/src/cross.c
index a48592a..c778a5b 100755
--- a/proxy/common/src/cross.c
+++ b/proxy/common/src/cross.c
@@ -491,7 +491,7 @@ int cross_uri_coap_to_http(char *buf, size_t len, coap_msg_t *coap_msg)
     /* generate URI */
     num = uri_generate(&uri, buf, len);
     uri_destroy(&uri);
-    if (num > len - 1)
+    if (num >= len)
     {
         return -ENOSPC;
     }
-- 
2.43.0


From 4a2a870f3f334c60b17bef509885463909936c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:09 +0000
Subject: [PATCH 28/49] fix: do not let the ETag option of a CoAP response
 inject HTTP headers

---
 proxy/common/src/cross.c | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/proxy/common/src/cross.c b/proxy/common/src/cross.c
index c778a5b..0cf100c 100755
--- a/proxy/common/src/cross.c
+++ b/proxy/common/src/cross.c
@@ -597,6 +597,29 @@ static int cross_headers_http_to_coap(coap_msg_t *coap_msg, http_msg_t *http_msg
     return 0;
 }
 
+/**
+ *  @brief Determine if the value of a CoAP option can be used as the value of a HTTP header
+ *
+ *  @param[in] op Pointer to a CoAP option structure
+ *
+ *  @returns Comparison value
+ *  @retval 1 The value contains nothing but printable ASCII characters
+ *  @retval 0 The value contains other characters (e.g. the end of a line)
+ */
+static int cross_op_is_printable(coap_msg_op_t *op)
+{
+    unsigned i = 0;
+
+    for (i = 0; i < coap_msg_op_get_len(op); i++)
+    {
+        if ((coap_msg_op_get_val(op)[i] < ' ') || (coap_msg_op_get_val(op)[i] > '~'))
+        {
+            return 0;
+        }
+    }
+    return 1;
+}
+
 /**
  *  @brief Convert CoAP options to HTTP headers
  *
@@ -647,6 +670,10 @@ static int cross_headers_coap_to_http(coap_msg_t *coap_msg, http_msg_t *http_msg
             switch (coap_msg_op_get_num(op))
             {
             case COAP_MSG_ETAG:
+                if (!cross_op_is_printable(op))
+                {
+                    break;
+                }
                 ret = http_msg_set_header(http_msg, "Etag", tmp);
                 if (ret < 0)
                 {
-- 
2.43.0


From b24ad86d6090b968392ad1937e4d266d5630f160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:22 +0000
Subject: [PATCH 29/49] fix: do not read past the end of a configuration whose
 last line is not terminated

---
 proxy/common/src/config.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/common/src/config.c b/proxy/common/src/config.c
index d5fe226..5b28e47 100755
--- a/proxy/common/src/config.c
+++ b/proxy/common/src/config.c
@@ -270,7 +270,7 @@ static int config_parser_next(config_parser_t *p)
 
     p->prev_line = p->line;
     p->prev_col = p->col;
-    if (p->in_idx == p->in_len)
+    if (p->in_idx >= p->in_len)
     {
         c = '\0';
     }
-- 
2.43.0


From 68dc495689959455de9a796d2f2115448e8b03cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:22 +0000
Subject: [PATCH 30/49] fix: describe lexical and syntax errors in
 configurations by their own names

---
 proxy/common/src/config.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/proxy/common/src/config.c b/proxy/common/src/config.c
index 5b28e47..03b9bf4 100755
--- a/proxy/common/src/config.c
+++ b/proxy/common/src/config.c
@@ -37,7 +37,7 @@
 #include <ctype.h>
 #include "config.h"
 
-#define CONFIG_NUM_STR  6
+#define CONFIG_NUM_STR  5
 
 #define CONFIG_PARSER_DEF_TAB_WIDTH   4
 #define CONFIG_PARSER_INIT_STR_LEN   64
@@ -106,7 +106,6 @@ static const char *config_str[CONFIG_NUM_STR + 1] =
     "ok",
     "invalid argument",
     "out of memory",
-    "input/output error",
     "lexical error",
     "syntax error",
     "unknown"
-- 
2.43.0


From 264712eae20eed9387879fe29d71586b60d8ac6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:22 +0000
Subject: [PATCH 31/49] fix: keep the value of a configuration entry when its
 replacement cannot be allocated

---
 proxy/common/src/config.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/proxy/common/src/config.c b/proxy/common/src/config.c
index 03b9bf4..80d7942 100755
--- a/proxy/common/src/config.c
+++ b/proxy/common/src/config.c
@@ -895,6 +895,7 @@ int config_set(config_t *config, const char *section_name, const char *entry_nam
 {
     config_section_t *section = NULL;
     config_entry_t *entry = NULL;
+    char *value = NULL;
     int ret = 0;
 
     section = config_find_section(config, section_name);
@@ -910,12 +911,13 @@ int config_set(config_t *config, const char *section_name, const char *entry_nam
     if (entry != NULL)
     {
         /* replace existing value */
-        free(entry->value);
-        entry->value = strdup(entry_value);
-        if (entry->value == NULL)
+        value = strdup(entry_value);
+        if (value == NULL)
         {
             return CONFIG_ENOMEM;
         }
+        free(entry->value);
+        entry->value = value;
     }
     else
     {
-- 
2.43.0


From d687dfdad8345524255e87e54b2b78fe7a9216ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:22 +0000
Subject: [PATCH 32/49] fix: keep an expanded data buffer terminated

---
 proxy/common/src/data_buf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/common/src/data_buf.c b/proxy/common/src/data_buf.c
index 8baba87..3d3b99f 100755
--- a/proxy/common/src/data_buf.c
+++ b/proxy/common/src/data_buf.c
@@ -75,7 +75,7 @@ int data_buf_expand(data_buf_t *buf)
         return -ENOMEM;
     }
     memcpy(new_data, buf->data, buf->count);
-    memset(new_data + buf->count, 0, new_size - buf->count);
+    memset(new_data + buf->count, 0, new_size + 1 - buf->count);
     free(buf->data);
     buf->data = new_data;
     buf->size = new_size;
-- 
2.43.0


From 79662e0bfd6f16582f2df9779f0c71dd68c62a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:29 +0000
Subject: [PATCH 33/49] fix: do not crash on a request URI without a host or a
 port

---
 proxy/http_coap/src/connection.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/proxy/http_coap/src/connection.c b/proxy/http_coap/src/connection.c
index b730fd8..3143a56 100755
--- a/proxy/http_coap/src/connection.c
+++ b/proxy/http_coap/src/connection.c
@@ -51,6 +51,8 @@
 #define CONNECTION_DATA_BUF_MIN_SPACE  128
 #define CONNECTION_INT_BUF_LEN         16
 #define CONNECTION_BODY_LEN            8192
+#define CONNECTION_COAP_PORT           "5683"
+#define CONNECTION_COAPS_PORT          "5684"
 #define CONNECTION_COAP_BLOCK1_SIZE    32
 #define CONNECTION_COAP_BLOCK2_SIZE    32
 
@@ -544,6 +546,24 @@ static int connection_process(connection_t *con, http_msg_t *req_msg, http_msg_t
         coap_msg_destroy(&coap_req_msg);
         return ret;
     }
+    if (uri_get_host(&uri) == NULL)
+    {
+        coap_log_error("[%u] <%u> %s No host in request URI in request message from HTTP client",
+                       con->listener_index, con->con_index, con->addr);
+        uri_destroy(&uri);
+        coap_msg_destroy(&coap_req_msg);
+        return connection_gen_error_resp(con, resp_msg, 400);
+    }
+    if (uri_get_port(&uri) == NULL)
+    {
+        ret = uri_set_port(&uri, strcasecmp(uri_get_scheme(&uri), "coaps") == 0 ? CONNECTION_COAPS_PORT : CONNECTION_COAP_PORT);
+        if (ret < 0)
+        {
+            uri_destroy(&uri);
+            coap_msg_destroy(&coap_req_msg);
+            return ret;
+        }
+    }
     if (!con->coap_client_active)
     {
         /* first exchange with a CoAP server */
-- 
2.43.0


From 04a16871ecd29a6b19e5cb5a84c7f4e515e73a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:29 +0000
Subject: [PATCH 34/49] fix: do not lose the last byte of a response that
 exactly fills the send buffer

---
 proxy/http_coap/src/connection.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proxy/http_coap/src/connection.c b/proxy/http_coap/src/connection.c
index 3143a56..a4f6e3a 100755
--- a/proxy/http_coap/src/connection.c
+++ b/proxy/http_coap/src/connection.c
@@ -292,7 +292,7 @@ static int connection_send(connection_t *con, http_msg_t *msg)
     while (1)
     {
         len = http_msg_generate(msg, data_buf_get_data(&con->send_buf), data_buf_get_space(&con->send_buf));
-        if (len <= data_buf_get_space(&con->send_buf))
+        if (len < data_buf_get_space(&con->send_buf))
         {
             break;
         }
-- 
2.43.0


From eec397e2c2057cdbfac6bf2bb999b5fa70cb1c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:29 +0000
Subject: [PATCH 35/49] fix: forward DELETE requests to the CoAP server

---
 proxy/http_coap/src/connection.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/proxy/http_coap/src/connection.c b/proxy/http_coap/src/connection.c
index a4f6e3a..ed3f2d1 100755
--- a/proxy/http_coap/src/connection.c
+++ b/proxy/http_coap/src/connection.c
@@ -513,6 +513,18 @@ static int connection_coap_exchange(connection_t *con, coap_msg_t *req_msg, coap
             con->body_end = num;
         }
     }
+    else if (coap_msg_get_code_detail(req_msg) == COAP_MSG_DELETE)
+    {
+        /* execute regular exchange */
+        coap_log_info("[%u] <%u> %s Sending DELETE request to CoAP server host %s and port %s",
+                      con->listener_index, con->con_index, con->addr,
+                      con->coap_client_host, con->coap_client_port);
+        ret = coap_client_exchange(&con->coap_client, req_msg, resp_msg);
+        if (ret < 0)
+        {
+            return ret;
+        }
+    }
     return 0;
 }
 
-- 
2.43.0


From 1bb5e25a68e576a8409de607f3d58c0baa66f169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:29 +0000
Subject: [PATCH 36/49] fix: do not return the body of a GET or DELETE request
 as the body of the response

---
 proxy/http_coap/src/connection.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/proxy/http_coap/src/connection.c b/proxy/http_coap/src/connection.c
index ed3f2d1..4d59073 100755
--- a/proxy/http_coap/src/connection.c
+++ b/proxy/http_coap/src/connection.c
@@ -370,6 +370,7 @@ static int connection_coap_exchange(connection_t *con, coap_msg_t *req_msg, coap
     if (coap_msg_get_code_detail(req_msg) == COAP_MSG_GET)
     {
         /* execute regular exchange */
+        con->body_end = 0;  /* do not return the body of the request */
         coap_log_info("[%u] <%u> %s Sending GET request to CoAP server host %s and port %s",
                       con->listener_index, con->con_index, con->addr,
                       con->coap_client_host, con->coap_client_port);
@@ -516,6 +517,7 @@ static int connection_coap_exchange(connection_t *con, coap_msg_t *req_msg, coap
     else if (coap_msg_get_code_detail(req_msg) == COAP_MSG_DELETE)
     {
         /* execute regular exchange */
+        con->body_end = 0;  /* do not return the body of the request */
         coap_log_info("[%u] <%u> %s Sending DELETE request to CoAP server host %s and port %s",
                       con->listener_index, con->con_index, con->addr,
                       con->coap_client_host, con->coap_client_port);
-- 
2.43.0


From 846dcabd226aea344148960f053c93b7444a4d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:29 +0000
Subject: [PATCH 37/49] fix: process a request that arrived together with the
 previous one without waiting for more data

---
 proxy/http_coap/src/connection.c | 83 +++++++++++++++++---------------
 1 file changed, 43 insertions(+), 40 deletions(-)

diff --git a/proxy/http_coap/src/connection.c b/proxy/http_coap/src/connection.c
index 4d59073..b5b7f54 100755
--- a/proxy/http_coap/src/connection.c
+++ b/proxy/http_coap/src/connection.c
@@ -205,6 +205,49 @@ static int connection_recv(connection_t *con, http_msg_t *msg)
     sd = tls_sock_get_sd(con->sock);
     while (1)
     {
+        if (data_buf_get_count(&con->recv_buf) > 0)
+        {
+            num = http_msg_parse(msg, data_buf_get_data(&con->recv_buf), data_buf_get_count(&con->recv_buf));
+            if (num > 0)
+            {
+                data_buf_consume(&con->recv_buf, num);
+                coap_log_debug("[%u] <%u> %s Received from HTTP client: %s %s %s",
+                               con->listener_index, con->con_index, con->addr,
+                               http_msg_get_start(msg, 0),
+                               http_msg_get_start(msg, 1),
+                               http_msg_get_start(msg, 2));
+                return 0;  /* success */
+            }
+            else if (num == -EAGAIN)
+            {
+                coap_log_debug("[%u] <%u> %s Received incomplete request message from HTTP client",
+                               con->listener_index, con->con_index, con->addr);
+                if (data_buf_get_space(&con->recv_buf) < CONNECTION_DATA_BUF_MIN_SPACE)
+                {
+                    coap_log_debug("[%u] <%u> %s Increasing size of receive buffer",
+                                   con->listener_index, con->con_index, con->addr);
+                    ret = data_buf_expand(&con->recv_buf);
+                    if (ret == -EINVAL)
+                    {
+                        coap_log_error("[%u] <%u> %s Request message from HTTP client too long",
+                                       con->listener_index, con->con_index, con->addr);
+                        return ret;
+                    }
+                    else if (ret == -ENOMEM)
+                    {
+                        coap_log_error("[%u] <%u> %s Out of memory",
+                                       con->listener_index, con->con_index, con->addr);
+                        return ret;
+                    }
+                }
+            }
+            else
+            {
+                coap_log_error("[%u] <%u> %s Failed to parse request message from HTTP client: %s",
+                               con->listener_index, con->con_index, con->addr, http_msg_strerror(ret));
+                return num;
+            }
+        }
         FD_ZERO(&readfds);
         FD_SET(sd, &readfds);
         errno = 0;
@@ -235,46 +278,6 @@ static int connection_recv(connection_t *con, http_msg_t *msg)
             return CON_RET_CLOSED;
         }
         data_buf_add(&con->recv_buf, num);
-        num = http_msg_parse(msg, data_buf_get_data(&con->recv_buf), data_buf_get_count(&con->recv_buf));
-        if (num > 0)
-        {
-            data_buf_consume(&con->recv_buf, num);
-            coap_log_debug("[%u] <%u> %s Received from HTTP client: %s %s %s",
-                           con->listener_index, con->con_index, con->addr,
-                           http_msg_get_start(msg, 0),
-                           http_msg_get_start(msg, 1),
-                           http_msg_get_start(msg, 2));
-            return 0;  /* success */
-        }
-        else if (num == -EAGAIN)
-        {
-            coap_log_debug("[%u] <%u> %s Received incomplete request message from HTTP client",
-                           con->listener_index, con->con_index, con->addr);
-            if (data_buf_get_space(&con->recv_buf) < CONNECTION_DATA_BUF_MIN_SPACE)
-            {
-                coap_log_debug("[%u] <%u> %s Increasing size of receive buffer",
-                               con->listener_index, con->con_index, con->addr);
-                ret = data_buf_expand(&con->recv_buf);
-                if (ret == -EINVAL)
-                {
-                    coap_log_error("[%u] <%u> %s Request message from HTTP client too long",
-                                   con->listener_index, con->con_index, con->addr);
-                    return ret;
-                }
-                else if (ret == -ENOMEM)
-                {
-                    coap_log_error("[%u] <%u> %s Out of memory",
-                                   con->listener_index, con->con_index, con->addr);
-                    return ret;
-                }
-            }
-        }
-        else
-        {
-            coap_log_error("[%u] <%u> %s Failed to parse request message from HTTP client: %s",
-                           con->listener_index, con->con_index, con->addr, http_msg_strerror(ret));
-            return num;
-        }
     }
     return 0;
 }
-- 
2.43.0


From 9ff25bb49a4bca3c26d54605e917885b8065467e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:29 +0000
Subject: [PATCH 38/49] fix: do not wait for the socket when part of a request
 has already been decrypted

---
 proxy/http_coap/src/connection.c | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/proxy/http_coap/src/connection.c b/proxy/http_coap/src/connection.c
index b5b7f54..c4cab1f 100755
--- a/proxy/http_coap/src/connection.c
+++ b/proxy/http_coap/src/connection.c
@@ -248,21 +248,24 @@ static int connection_recv(connection_t *con, http_msg_t *msg)
                 return num;
             }
         }
-        FD_ZERO(&readfds);
-        FD_SET(sd, &readfds);
-        errno = 0;
-        ret = select(sd + 1, &readfds, NULL, NULL, &tv);
-        if (ret == 0)
+        if (gnutls_record_check_pending(tls_sock_get_session(con->sock)) == 0)
         {
-            coap_log_info("[%u] <%u> %s Timed out waiting to read from socket connected to HTTP client",
-                          con->listener_index, con->con_index, con->addr);
-            return CON_RET_TIMEDOUT;
-        }
-        else if (ret == -1)
-        {
-            coap_log_error("[%u] <%u> %s Call to select returned: -1, errno: %d (%s)",
-                           con->listener_index, con->con_index, con->addr, errno, strerror(errno));
-            return -errno;
+            FD_ZERO(&readfds);
+            FD_SET(sd, &readfds);
+            errno = 0;
+            ret = select(sd + 1, &readfds, NULL, NULL, &tv);
+            if (ret == 0)
+            {
+                coap_log_info("[%u] <%u> %s Timed out waiting to read from socket connected to HTTP client",
+                              con->listener_index, con->con_index, con->addr);
+                return CON_RET_TIMEDOUT;
+            }
+            else if (ret == -1)
+            {
+                coap_log_error("[%u] <%u> %s Call to select returned: -1, errno: %d (%s)",
+                               con->listener_index, con->con_index, con->addr, errno, strerror(errno));
+                return -errno;
+            }
         }
         num = tls_sock_read(con->sock, data_buf_get_next(&con->recv_buf), data_buf_get_space(&con->recv_buf));
         if (num < 0)
-- 
2.43.0


From ef94ce368ea01c165af737db2f92c39e04e49625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:29 +0000
Subject: [PATCH 39/49] fix: tell the HTTP client when a response has no body

---
 proxy/http_coap/src/connection.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/proxy/http_coap/src/connection.c b/proxy/http_coap/src/connection.c
index c4cab1f..869a26e 100755
--- a/proxy/http_coap/src/connection.c
+++ b/proxy/http_coap/src/connection.c
@@ -295,6 +295,18 @@ static int connection_send(connection_t *con, http_msg_t *msg)
     size_t len = 0;
     int ret = 0;
 
+    if ((http_msg_get_body_len(msg) == 0)
+     && (strcmp(http_msg_get_start(msg, 1), "304") != 0))
+    {
+        /* otherwise, the client cannot find the end of the response */
+        ret = http_msg_set_header(msg, "Content-Length", "0");
+        if (ret < 0)
+        {
+            coap_log_error("[%u] <%u> %s Failed to set header in response message to HTTP client: %s",
+                           con->listener_index, con->con_index, con->addr, http_msg_strerror(ret));
+            return ret;
+        }
+    }
     while (1)
     {
         len = http_msg_generate(msg, data_buf_get_data(&con->send_buf), data_buf_get_space(&con->send_buf));
-- 
2.43.0


From 2b1ea7e1a30d5db368519a3cab6dd966575034ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:43 +0000
Subject: [PATCH 40/49] fix: keep accepting HTTP clients after one of them
 could not be served

---
 proxy/http_coap/src/listener.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proxy/http_coap/src/listener.c b/proxy/http_coap/src/listener.c
index 119c623..dbc27fa 100755
--- a/proxy/http_coap/src/listener.c
+++ b/proxy/http_coap/src/listener.c
@@ -78,7 +78,7 @@ static void *listener_thread_func(void *data)
             coap_log_error("Unable to create connection data");
             tls_sock_close(sock);
             free(sock);
-            break;
+            continue;
         }
 
         ret = thread_init(&thread, &listener->ctx, connection_thread_func, con);
@@ -86,7 +86,7 @@ static void *listener_thread_func(void *data)
         {
             coap_log_error("Unable to create connection thread");
             connection_delete(con);
-            break;
+            continue;
         }
     }
     coap_log_notice("[%u] Stopped listening on port %s", listener->index, param_get_port(listener->param));
-- 
2.43.0


From 6195983baf23177e915a93463ce42167fd952a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:02 +0000
Subject: [PATCH 41/49] fix: do not send parts of a failed translation in an
 error response

---
 proxy/http_coap/src/connection.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/proxy/http_coap/src/connection.c b/proxy/http_coap/src/connection.c
index 869a26e..95b1ea8 100755
--- a/proxy/http_coap/src/connection.c
+++ b/proxy/http_coap/src/connection.c
@@ -360,6 +360,7 @@ static int connection_gen_error_resp(connection_t *con, http_msg_t *msg, unsigne
     char int_buf[CONNECTION_INT_BUF_LEN] = {0};
     int ret = 0;
 
+    http_msg_reset(msg);  /* discard what has been generated before the error */
     snprintf(int_buf, sizeof(int_buf), "%u", code);
     str = cross_http_resp_code_to_str(code);
     ret = http_msg_set_start(msg, "HTTP/1.1", int_buf, str);
-- 
2.43.0


From e98b02d13d4d54e943552c6340d32da9d3ae4a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:02 +0000
Subject: [PATCH 42/49] fix: keep accepting HTTP clients after running out of
 memory

---
 proxy/http_coap/src/listener.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/proxy/http_coap/src/listener.c b/proxy/http_coap/src/listener.c
index dbc27fa..2f87109 100755
--- a/proxy/http_coap/src/listener.c
+++ b/proxy/http_coap/src/listener.c
@@ -32,6 +32,7 @@
  */
 
 #include <stdlib.h>
+#include <unistd.h>
 #include "listener.h"
 #include "connection.h"
 #include "sock.h"
@@ -58,7 +59,8 @@ static void *listener_thread_func(void *data)
         if (sock == NULL)
         {
             coap_log_error("Out of memory");
-            break;
+            sleep(1);
+            continue;
         }
 
         ret = tls_ssock_accept(&listener->ssock, sock);
-- 
2.43.0


From 4fc1603e6bc09776ab181da71aba5bfe0cffc7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:55 +0000
Subject: [PATCH 43/49] fix: wait for the peer's retransmission instead of
 giving up a DTLS handshake

---
 lib/src/coap_client.c | 5 +++++
 lib/src/coap_server.c | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/lib/src/coap_client.c b/lib/src/coap_client.c
index cdb9f7d..1788228 100755
--- a/lib/src/coap_client.c
+++ b/lib/src/coap_client.c
@@ -274,6 +274,11 @@ static int coap_client_dtls_handshake(coap_client_t *client)
         if (i < COAP_CLIENT_DTLS_HANDSHAKE_ATTEMPTS - 1)
         {
             timeout = gnutls_dtls_get_timeout(client->session);
+            if (timeout == 0)
+            {
+                /* there is nothing to retransmit but the peer will retransmit its messages */
+                timeout = COAP_CLIENT_DTLS_RETRANS_TIMEOUT;
+            }
             coap_log_debug("Handshake timeout: %u msec", timeout);
             ret = coap_client_dtls_listen_timeout(client, timeout);
             if (ret < 0)
diff --git a/lib/src/coap_server.c b/lib/src/coap_server.c
index f99e20c..b95d77b 100755
--- a/lib/src/coap_server.c
+++ b/lib/src/coap_server.c
@@ -447,6 +447,11 @@ static int coap_server_trans_dtls_handshake(coap_server_trans_t *trans)
         if (i < COAP_SERVER_DTLS_HANDSHAKE_ATTEMPTS - 1)
         {
             timeout = gnutls_dtls_get_timeout(trans->session);
+            if (timeout == 0)
+            {
+                /* there is nothing to retransmit but the peer will retransmit its messages */
+                timeout = COAP_SERVER_DTLS_RETRANS_TIMEOUT;
+            }
             coap_log_debug("Handshake timeout: %u msec", timeout);
             ret = coap_server_trans_dtls_listen_timeout(trans, timeout);
             if (ret < 0)
-- 
2.43.0


From e95c976b568a31d83011585952700b860e4c6ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:43 +0000
Subject: [PATCH 44/49] fix: hand out a copy of the cached TLS client session
 instead of a pointer into the shared cache

---
 proxy/common/src/tls.c      | 10 ++++++++--
 proxy/common/src/tls_sock.c |  1 +
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/proxy/common/src/tls.c b/proxy/common/src/tls.c
index 19ec24c..6c54a1a 100755
--- a/proxy/common/src/tls.c
+++ b/proxy/common/src/tls.c
@@ -142,8 +142,12 @@ static gnutls_datum_t tls_client_cache_get(tls_client_cache_t *cache, char *addr
     {
         if (strcmp(addr, cache->element[i].addr) == 0)
         {
-            res.data = cache->element[i].session_data;
-            res.size = cache->element[i].session_data_size;
+            res.data = (unsigned char *)gnutls_malloc(cache->element[i].session_data_size);
+            if (res.data != NULL)
+            {
+                memcpy(res.data, cache->element[i].session_data, cache->element[i].session_data_size);
+                res.size = cache->element[i].session_data_size;
+            }
             break;
         }
     }
@@ -282,6 +286,8 @@ gnutls_datum_t tls_client_get(tls_client_t *client, char *addr)
     ret = lock_put(&client->lock);
     if (ret < 0)
     {
+        gnutls_free(res.data);
+        res.data = NULL;
         res.size = 0;
     }
     return res;
diff --git a/proxy/common/src/tls_sock.c b/proxy/common/src/tls_sock.c
index 7b8cfd8..b3255ea 100755
--- a/proxy/common/src/tls_sock.c
+++ b/proxy/common/src/tls_sock.c
@@ -193,6 +193,7 @@ int tls_sock_open_(tls_sock_t *s, const char *common_name, int timeout)
         if (data.size != 0)
         {
             ret = gnutls_session_set_data(s->session, data.data, data.size);
+            gnutls_free(data.data);
             if (ret != GNUTLS_E_SUCCESS)
             {
                 gnutls_deinit(s->session);
-- 
2.43.0


From a6b8db0135414c4eb4cbc293d713e3ea4c47cc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:27 +0000
Subject: [PATCH 45/49] fix: unlink a removed entry from its neighbours in the
 sample registrar

---
 sample/reg_server/registrar.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sample/reg_server/registrar.c b/sample/reg_server/registrar.c
index 1c918ee..e461e14 100755
--- a/sample/reg_server/registrar.c
+++ b/sample/reg_server/registrar.c
@@ -135,9 +135,13 @@ int registrar_del(registrar_t *registrar, const char *id)
         return -EINVAL;
     }
     if (registrar->first == entry)
-        registrar->first = registrar_entry_get_next(registrar->first);
+        registrar->first = registrar_entry_get_next(entry);
+    else
+        registrar_entry_set_next(registrar_entry_get_prev(entry), registrar_entry_get_next(entry));
     if (registrar->last == entry)
-        registrar->last = registrar_entry_get_prev(registrar->last);
+        registrar->last = registrar_entry_get_prev(entry);
+    else
+        registrar_entry_set_prev(registrar_entry_get_next(entry), registrar_entry_get_prev(entry));
     registrar_entry_delete(entry);
     return 0;
 }
-- 
2.43.0


From 5a1c4c1d57c633e99bdbf4b947c09b0e7fdc35aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:27 +0000
Subject: [PATCH 46/49] fix: report a failed transfer in the sample transfer
 client

---
 sample/transfer_client/transfer_client.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sample/transfer_client/transfer_client.c b/sample/transfer_client/transfer_client.c
index 9295eed..f0690f4 100755
--- a/sample/transfer_client/transfer_client.c
+++ b/sample/transfer_client/transfer_client.c
@@ -229,12 +229,12 @@ int transfer_client_execute(transfer_client_t *client, const char *filename)
         if (num != -1)
         {
             /* a return value of -1 indicates a DTLS failure which has already been logged */
-            coap_log_error("%s", strerror(-ret));
+            coap_log_error("%s", strerror(-num));
         }
         coap_msg_destroy(&resp);
         coap_msg_destroy(&req);
         free(file_buf);
-        return ret;
+        return num;
     }
     free(file_buf);
     coap_log_info("Transfer response: %u.%u",
-- 
2.43.0


From 456cf69c5c75da035a28ff01f3eab8a552ea35cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:27 +0000
Subject: [PATCH 47/49] fix: release the messages after a transfer in the
 sample transfer client

---
 sample/transfer_client/transfer_client.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sample/transfer_client/transfer_client.c b/sample/transfer_client/transfer_client.c
index f0690f4..cee5b0c 100755
--- a/sample/transfer_client/transfer_client.c
+++ b/sample/transfer_client/transfer_client.c
@@ -240,5 +240,7 @@ int transfer_client_execute(transfer_client_t *client, const char *filename)
     coap_log_info("Transfer response: %u.%u",
                   coap_msg_get_code_class(&resp),
                   coap_msg_get_code_detail(&resp));
+    coap_msg_destroy(&resp);
+    coap_msg_destroy(&req);
     return 0;
 }
-- 
2.43.0


From a630acf8c93c3c1403d53b016639f2032ac22948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:27 +0000
Subject: [PATCH 48/49] fix: report a failed save in the sample transfer server

---
 sample/transfer_server/transfer_server.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sample/transfer_server/transfer_server.c b/sample/transfer_server/transfer_server.c
index 4989c3a..3e6d475 100755
--- a/sample/transfer_server/transfer_server.c
+++ b/sample/transfer_server/transfer_server.c
@@ -68,7 +68,12 @@ static int transfer_server_handle_rx(coap_server_trans_t *trans, coap_msg_t *req
         coap_log_warn("%s", strerror(-num));
         return coap_msg_set_code(resp, COAP_MSG_SERVER_ERR, COAP_MSG_INT_SERVER_ERR);
     }
-    fclose(file);
+    if (fclose(file) != 0)
+    {
+        num = -EIO;
+        coap_log_warn("%s", strerror(-num));
+        return coap_msg_set_code(resp, COAP_MSG_SERVER_ERR, COAP_MSG_INT_SERVER_ERR);
+    }
     coap_log_info("Saved %zu bytes to '%s'",
                   coap_server_trans_get_body_end(trans),
                   TRANSFER_SERVER_FILENAME);
-- 
2.43.0


From 9c981f7c68b77dd5577d7b93228aa262dc85241c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:20 +0000
Subject: [PATCH 49/49] fix: do not miss a stop signal that arrives just before
 the proxy goes to sleep

---
 proxy/http_coap/src/proxy.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/proxy/http_coap/src/proxy.c b/proxy/http_coap/src/proxy.c
index 63d87ba..6ef73b3 100755
--- a/proxy/http_coap/src/proxy.c
+++ b/proxy/http_coap/src/proxy.c
@@ -100,6 +100,7 @@ int main(int argc, char **argv)
     };
     struct sigaction sah = {{0}};
     struct sigaction sai = {{0}};
+    sigset_t wait_mask = {{0}};
     const char *config_file_name = CONFIG_FILE_NAME;
     const char *short_opts = ":hc:";
     const char *gnutls_ver = NULL;
@@ -236,6 +237,19 @@ int main(int argc, char **argv)
         return EXIT_FAILURE;
     }
 
+    /* block signals except while waiting for them so that */
+    /* none is missed between checking and going to sleep */
+    ret = pthread_sigmask(SIG_BLOCK, &sah.sa_mask, &wait_mask);
+    if (ret != 0)
+    {
+        coap_log_error("Unable to block signals");
+        tls_server_destroy(&server);
+        tls_deinit();
+        param_destroy(&param);
+        coap_mem_all_destroy();
+        return EXIT_FAILURE;
+    }
+
     listener = listener_new(listener_index,
                             &server,
                             &param,
@@ -270,7 +284,7 @@ int main(int argc, char **argv)
 
     while (go)
     {
-        sleep(3600);
+        sigsuspend(&wait_mask);
     }
     sleep(2);
 
-- 
2.43.0

