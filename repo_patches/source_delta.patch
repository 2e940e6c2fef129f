From b8242051ce5a4090be2c5b15f2217e3ae3564303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:40:56 +0000
Subject: [PATCH 01/79] fix: do not spin forever on a non-empty TLS error queue

The clearing macro waited for the queue to become empty before it
cleared it, so one queued error hung the worker.
---
 src/common/ssl.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/common/ssl.c b/src/common/ssl.c
index 930814c..54ef975 100755
--- a/src/common/ssl.c
+++ b/src/common/ssl.c
@@ -10,10 +10,6 @@ static g_ssl_t *g_ssl_ctx = NULL;
 
 #define ssl_clear_error()                   \
 {                                           \
-    unsigned long rc = 0;                   \
-    do {                                    \
-        rc = ERR_peek_error();              \
-    } while(rc);                            \
     ERR_clear_error();                      \
 }
 
-- 
2.43.0


From 9c76444d33012975a1044fba573c596604222735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:40:56 +0000
Subject: [PATCH 02/79] fix: restore the callbacks saved by a TLS handshake
 exactly once

The handshake could save its own callback as the one to restore, or
leave it installed when it finished. The next event then re-entered the
finished handshake without end.
---
 src/common/ssl.c | 31 +++++++++++--------------------
 1 file changed, 11 insertions(+), 20 deletions(-)

diff --git a/src/common/ssl.c b/src/common/ssl.c
index 54ef975..0c2e538 100755
--- a/src/common/ssl.c
+++ b/src/common/ssl.c
@@ -105,17 +105,12 @@ static int ssl_handshake_cb(con_t *c) {
     if (c->ssl->f_handshaked) {
         if (c->ssl->cc_ev_typ) {
             ev_opt(c, c->ssl->cc_ev_typ);
+            c->ssl->cc_ev_typ = 0;
         }
-
-        if (c->ssl->cc_ev_cbw) {
-            c->ev->write_cb = c->ssl->cc_ev_cbw;
-            c->ssl->cc_ev_cbw = NULL;
-        }
-
-        if (c->ssl->cc_ev_cbr) {
-            c->ev->read_cb = c->ssl->cc_ev_cbr;
-            c->ssl->cc_ev_cbr = NULL;
-        }
+        c->ev->write_cb = c->ssl->cc_ev_cbw;
+        c->ssl->cc_ev_cbw = NULL;
+        c->ev->read_cb = c->ssl->cc_ev_cbr;
+        c->ssl->cc_ev_cbr = NULL;
 
         if (c->ev->write_cb) 
             return c->ev->write_cb(c);
@@ -150,16 +145,12 @@ int ssl_handshake(con_t *c) {
     int sslerr = SSL_get_error(sslc->con, rc);
     if ((sslerr == SSL_ERROR_WANT_READ) || (sslerr == SSL_ERROR_WANT_WRITE)) {
 
-        if (!sslc->cc_ev_typ) 
-            sslc->cc_ev_typ = c->ev->opt; ///cache current event opt
-            
-        if (!sslc->cc_ev_cbr)
-            if(c->ev->read_cb) 
-                sslc->cc_ev_cbr = c->ev->read_cb;
-
-        if (!sslc->cc_ev_cbw)
-            if (c->ev->write_cb) 
-                sslc->cc_ev_cbw = c->ev->write_cb;
+        if (!sslc->cc_ev_typ) { ///cache current event opt and callbacks, once per handshake
+            sslc->cc_ev_typ = c->ev->opt;
+            sslc->cc_ev_cbr = c->ev->read_cb;
+            sslc->cc_ev_cbw = c->ev->write_cb;
+        }
+        c->ev->read_cb = c->ev->write_cb = NULL;
    
         if (sslerr == SSL_ERROR_WANT_READ) {
             c->ev->read_cb = ssl_handshake_cb;
-- 
2.43.0


From 50764b49d1642c951e3110f274c1775219245fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:40:56 +0000
Subject: [PATCH 03/79] fix: keep both directions of a TLS connection awake
 while one waits

A TLS read that had to wait dropped the interest in writability, and the
saved callbacks could be restored long after they were replaced. A
blocked transfer then stalled, or a null or stale callback was called.
Waiting now only adds interest, and a swapped callback is put back as
soon as it runs or the call succeeds.
---
 src/common/ssl.c | 71 ++++++++++++++++++++++++------------------------
 1 file changed, 35 insertions(+), 36 deletions(-)

diff --git a/src/common/ssl.c b/src/common/ssl.c
index 0c2e538..d94131c 100755
--- a/src/common/ssl.c
+++ b/src/common/ssl.c
@@ -166,7 +166,20 @@ int ssl_handshake(con_t *c) {
     return -1;
 }
 
-static int ssl_read_cb(con_t *c) { return c->ev->read_cb(c); }
+/// event edges that were consumed for the ssl layer must be reported again
+static void ssl_ev_rearm(con_t *c) {
+    int opt = c->ev->opt;
+    ev_opt(c, EV_NONE);
+    ev_opt(c, opt);
+}
+
+/// installed as write_cb while ssl_read waits for the socket to be writeable
+static int ssl_read_cb(con_t *c) {
+    c->ev->write_cb = c->ssl->cc_ev_cbw;
+    c->ssl->cc_ev_cbw = NULL;
+    ssl_ev_rearm(c);
+    return c->ev->read_cb ? c->ev->read_cb(c) : 0;
+}
 
 int ssl_read(con_t *c, unsigned char *buf, int bufn) {
     ssl_con_t * sslc = c->ssl;
@@ -175,11 +188,7 @@ int ssl_read(con_t *c, unsigned char *buf, int bufn) {
 
     int rc = SSL_read(sslc->con, buf, bufn);
     if (rc > 0) {
-        if (sslc->cc_ev_typ) {
-            ev_opt(c, sslc->cc_ev_typ);
-            sslc->cc_ev_typ = 0;
-        }
-        if (sslc->cc_ev_cbw) {
+        if (c->ev->write_cb == ssl_read_cb) {
             c->ev->write_cb = sslc->cc_ev_cbw;
             sslc->cc_ev_cbw = NULL;
         }
@@ -188,20 +197,14 @@ int ssl_read(con_t *c, unsigned char *buf, int bufn) {
     
     int sslerr = SSL_get_error(sslc->con, rc);
     if (sslerr == SSL_ERROR_WANT_READ || sslerr == SSL_ERROR_WANT_WRITE) {
-        if (!sslc->cc_ev_typ) 
-            sslc->cc_ev_typ = c->ev->opt;
-        if (!sslc->cc_ev_cbr)
-            if (c->ev->read_cb) 
-                sslc->cc_ev_cbr = c->ev->read_cb;
-        if (!sslc->cc_ev_cbw)
-            if (c->ev->write_cb) 
-                sslc->cc_ev_cbw = c->ev->write_cb;
-
         if (sslerr == SSL_ERROR_WANT_READ) {
-            ev_opt(c, EV_R);
+            ev_opt(c, c->ev->opt | EV_R);
         } else if (sslerr == SSL_ERROR_WANT_WRITE) {
-            c->ev->write_cb = ssl_read_cb;
-            ev_opt(c, EV_W);
+            if (c->ev->write_cb != ssl_read_cb) {
+                sslc->cc_ev_cbw = c->ev->write_cb;
+                c->ev->write_cb = ssl_read_cb;
+            }
+            ev_opt(c, c->ev->opt | EV_W);
         }
         return -11;
     }
@@ -212,7 +215,13 @@ int ssl_read(con_t *c, unsigned char *buf, int bufn) {
     return -1;
 }
 
-static int ssl_write_cb(con_t *c) { return c->ev->write_cb(c); }
+/// installed as read_cb while ssl_write waits for the socket to be readable
+static int ssl_write_cb(con_t *c) {
+    c->ev->read_cb = c->ssl->cc_ev_cbr;
+    c->ssl->cc_ev_cbr = NULL;
+    ssl_ev_rearm(c);
+    return c->ev->write_cb ? c->ev->write_cb(c) : 0;
+}
 
 int ssl_write(con_t *c, unsigned char *data, int datan) {
     ssl_con_t * sslc = c->ssl;
@@ -220,11 +229,7 @@ int ssl_write(con_t *c, unsigned char *data, int datan) {
     ssl_clear_error();
     int rc = SSL_write(sslc->con, data, datan);
     if (rc > 0) {
-        if (sslc->cc_ev_typ) {
-            ev_opt(c, c->ssl->cc_ev_typ);
-            sslc->cc_ev_typ = 0;
-        }
-        if (sslc->cc_ev_cbr) {
+        if (c->ev->read_cb == ssl_write_cb) {
             c->ev->read_cb = sslc->cc_ev_cbr;
             sslc->cc_ev_cbr = NULL;
         }
@@ -233,20 +238,14 @@ int ssl_write(con_t *c, unsigned char *data, int datan) {
     
     int sslerr = SSL_get_error(sslc->con, rc);
     if (sslerr == SSL_ERROR_WANT_READ || sslerr == SSL_ERROR_WANT_WRITE) {
-        if (!sslc->cc_ev_typ)
-            c->ssl->cc_ev_typ = c->ev->opt;
-        if (!sslc->cc_ev_cbr) 
-            if (c->ev->read_cb) 
-                c->ssl->cc_ev_cbr = c->ev->read_cb;
-        if (!sslc->cc_ev_cbw)
-            if (c->ev->write_cb) 
-                c->ssl->cc_ev_cbw = c->ev->write_cb;
-
         if (sslerr == SSL_ERROR_WANT_READ) {
-            c->ev->read_cb = ssl_write_cb;
-            ev_opt(c, EV_R);
+            if (c->ev->read_cb != ssl_write_cb) {
+                sslc->cc_ev_cbr = c->ev->read_cb;
+                c->ev->read_cb = ssl_write_cb;
+            }
+            ev_opt(c, c->ev->opt | EV_R);
         } else if (sslerr == SSL_ERROR_WANT_WRITE) {
-            ev_opt(c, EV_W);
+            ev_opt(c, c->ev->opt | EV_W);
         }
         return -11;
     }
-- 
2.43.0


From 24311bde7217a9374123ff3cea12d4dddbbd2bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:40:56 +0000
Subject: [PATCH 04/79] fix: tell the session when a TLS handshake times out

Only the connection itself was released, so the session that owns it
kept a dangling pointer to it.
---
 src/common/ssl.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/common/ssl.c b/src/common/ssl.c
index d94131c..e8bd82a 100755
--- a/src/common/ssl.c
+++ b/src/common/ssl.c
@@ -33,6 +33,11 @@ static g_ssl_t *g_ssl_ctx = NULL;
 void ssl_cexp(void *data) {
     con_t *c = data;
     c->ssl->f_err = 1;
+    if (!c->ssl->f_handshaked && c->ssl->handshake_cb) {
+        ///the owner of the connection must learn about it
+        c->ssl->handshake_cb(c);
+        return;
+    }
     net_free(c);
     return;
 }
-- 
2.43.0


From 52d35724aa57c7f968aff8620a8e7556bdafe276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:40:56 +0000
Subject: [PATCH 05/79] fix: never keep a half configured TLS context

When limiting the protocol version failed, the context stayed in place
and later connections used it without the limit.
---
 src/common/ssl.c | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/common/ssl.c b/src/common/ssl.c
index e8bd82a..91595b3 100755
--- a/src/common/ssl.c
+++ b/src/common/ssl.c
@@ -308,36 +308,46 @@ int ssl_load_con_certificate(SSL_CTX *ctx, int flag, SSL **ssl) {
 int ssl_load_ctx_certificate(SSL_CTX **ctx, int flag) {
     if (flag == L_SSL_CLIENT) {
         if (!g_ssl_ctx->ctx_client) {
-            schk(g_ssl_ctx->ctx_client = SSL_CTX_new(TLS_client_method()), return -1);
-            schk(1 == SSL_CTX_set_min_proto_version(g_ssl_ctx->ctx_client, TLS1_2_VERSION), return -1);
-            schk(1 == SSL_CTX_set_max_proto_version(g_ssl_ctx->ctx_client, TLS1_3_VERSION), return -1);
-            SSL_CTX_set_session_cache_mode(g_ssl_ctx->ctx_client, SSL_SESS_CACHE_CLIENT);
+            int ret = -1;
+            do {
+                schk(g_ssl_ctx->ctx_client = SSL_CTX_new(TLS_client_method()), break);
+                schk(1 == SSL_CTX_set_min_proto_version(g_ssl_ctx->ctx_client, TLS1_2_VERSION), break);
+                schk(1 == SSL_CTX_set_max_proto_version(g_ssl_ctx->ctx_client, TLS1_3_VERSION), break);
+                SSL_CTX_set_session_cache_mode(g_ssl_ctx->ctx_client, SSL_SESS_CACHE_CLIENT);
+                ret = 0;
+            } while(0);
+
+            if (ret != 0) {
+                SSL_CTX_free(g_ssl_ctx->ctx_client);
+                g_ssl_ctx->ctx_client = NULL;
+                return -1;
+            }
         }
         *ctx = g_ssl_ctx->ctx_client;
     } else {
         if (!g_ssl_ctx->ctx_server) {
             int ret = -1;
             do {
-                schk(g_ssl_ctx->ctx_server = SSL_CTX_new(TLS_server_method()), return -1);
+                schk(g_ssl_ctx->ctx_server = SSL_CTX_new(TLS_server_method()), break);
                 #if 1
-                schk(1 == SSL_CTX_set_min_proto_version(g_ssl_ctx->ctx_server, TLS1_2_VERSION), return -1);
-                schk(1 == SSL_CTX_set_max_proto_version(g_ssl_ctx->ctx_server, TLS1_3_VERSION), return -1);
+                schk(1 == SSL_CTX_set_min_proto_version(g_ssl_ctx->ctx_server, TLS1_2_VERSION), break);
+                schk(1 == SSL_CTX_set_max_proto_version(g_ssl_ctx->ctx_server, TLS1_3_VERSION), break);
                 schk(1 == SSL_CTX_set_cipher_list(g_ssl_ctx->ctx_server,
                                     "ECDHE-ECDSA-AES128-GCM-SHA256:"
                                     "ECDHE-RSA-AES128-GCM-SHA256:"
                                     "ECDHE-ECDSA-AES256-GCM-SHA384:"
                                     "ECDHE-RSA-AES256-GCM-SHA384"
-                                    ), return -1);
+                                    ), break);
                 if (1) {
                     schk(1 == SSL_CTX_set_ciphersuites(g_ssl_ctx->ctx_server, 
                                     "TLS_AES_128_GCM_SHA256:"
                                     "TLS_AES_256_GCM_SHA384:"
                                     "TLS_CHACHA20_POLY1305_SHA256"
-                                ), return -1);
+                                ), break);
                 } else {
                     schk(1 == SSL_CTX_set_ciphersuites(g_ssl_ctx->ctx_server, 
                                     "TLS_CHACHA20_POLY1305_SHA256"
-                                ), return -1);
+                                ), break);
                 }
                 
                 SSL_CTX_set_session_cache_mode(g_ssl_ctx->ctx_server, SSL_SESS_CACHE_SERVER);
-- 
2.43.0


From c05b77b03337af8a5e4542b88231acf06036c97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:40:56 +0000
Subject: [PATCH 06/79] fix: do not close a descriptor twice when connecting
 fails

The connection already owned the descriptor and closed it again when it
was released.
---
 src/common/net.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/common/net.c b/src/common/net.c
index a641f37..2e44f67 100755
--- a/src/common/net.c
+++ b/src/common/net.c
@@ -117,8 +117,7 @@ int net_connect(con_t *c, struct sockaddr_in *addr) {
                 return -11;
             }
             err("connect failed, [%d]\n", errno);
-            close(fd);
-            return -1;
+            return -1; ///fd belongs to the connection, closed when it is freed
         }
         return 0;
     }
-- 
2.43.0


From b768f9db69dc5ef8eed781385da9dbbab9d87c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:40:56 +0000
Subject: [PATCH 07/79] fix: withdraw exactly the pending events of a released
 connection

The first slot was never withdrawn, so a connection released by an
earlier callback was still delivered an event. Slot numbers of an
earlier round could withdraw an event of another connection.
---
 src/common/event.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/event.c b/src/common/event.c
index 52409b6..fbe81b9 100755
--- a/src/common/event.c
+++ b/src/common/event.c
@@ -241,9 +241,9 @@ int ev_alloc(ev_t **ev) {
 
 int ev_free(ev_t *ev) {
     if (ev) {
-        if (ev->idxr) 
+        if (g_event_ctx->evs[ev->idxr] == ev) 
             g_event_ctx->evs[ev->idxr] = NULL;
-        if (ev->idxw)
+        if (g_event_ctx->evs[ev->idxw] == ev)
             g_event_ctx->evs[ev->idxw] = NULL;
     
         queue_remove(&ev->queue);
-- 
2.43.0


From 53cc9c7e7135f061315bde362546966d8af2dfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:40:56 +0000
Subject: [PATCH 08/79] fix: refuse to start when the event driver cannot be
 set up

---
 src/common/event.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/event.c b/src/common/event.c
index fbe81b9..6086167 100755
--- a/src/common/event.c
+++ b/src/common/event.c
@@ -271,7 +271,7 @@ int ev_init(void) {
     g_event_handler.run = ev_select_loop;
 #endif    
     if (g_event_handler.init)
-        g_event_handler.init();
+        schk(0 == g_event_handler.init(), return -1);
 
     /// all worker process will be add listen fd into event.
     /// listen fd set by SO_REUSEPORT. 
-- 
2.43.0


From 96fdfec38dd34cb8130aa2b86bb4c59d4b8c31fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:47:34 +0000
Subject: [PATCH 09/79] fix: retry a TLS transfer whose wake-up callback was
 displaced

---
 src/common/ssl.c | 15 +++++++++++++++
 src/common/ssl.h |  2 ++
 2 files changed, 17 insertions(+)

diff --git a/src/common/ssl.c b/src/common/ssl.c
index 91595b3..6fdfa4b 100755
--- a/src/common/ssl.c
+++ b/src/common/ssl.c
@@ -178,6 +178,8 @@ static void ssl_ev_rearm(con_t *c) {
     ev_opt(c, opt);
 }
 
+static int ssl_write_cb(con_t *c);
+
 /// installed as write_cb while ssl_read waits for the socket to be writeable
 static int ssl_read_cb(con_t *c) {
     c->ev->write_cb = c->ssl->cc_ev_cbw;
@@ -191,6 +193,11 @@ int ssl_read(con_t *c, unsigned char *buf, int bufn) {
 
     ssl_clear_error();
 
+    if (sslc->f_wwait && c->ev->read_cb != ssl_write_cb) { ///displaced, ask for its event again
+        sslc->f_wwait = 0;
+        ssl_ev_rearm(c);
+    }
+    sslc->f_rwait = 0;
     int rc = SSL_read(sslc->con, buf, bufn);
     if (rc > 0) {
         if (c->ev->write_cb == ssl_read_cb) {
@@ -205,6 +212,7 @@ int ssl_read(con_t *c, unsigned char *buf, int bufn) {
         if (sslerr == SSL_ERROR_WANT_READ) {
             ev_opt(c, c->ev->opt | EV_R);
         } else if (sslerr == SSL_ERROR_WANT_WRITE) {
+            sslc->f_rwait = 1;
             if (c->ev->write_cb != ssl_read_cb) {
                 sslc->cc_ev_cbw = c->ev->write_cb;
                 c->ev->write_cb = ssl_read_cb;
@@ -232,6 +240,12 @@ int ssl_write(con_t *c, unsigned char *data, int datan) {
     ssl_con_t * sslc = c->ssl;
 
     ssl_clear_error();
+
+    if (sslc->f_rwait && c->ev->write_cb != ssl_read_cb) { ///displaced, ask for its event again
+        sslc->f_rwait = 0;
+        ssl_ev_rearm(c);
+    }
+    sslc->f_wwait = 0;
     int rc = SSL_write(sslc->con, data, datan);
     if (rc > 0) {
         if (c->ev->read_cb == ssl_write_cb) {
@@ -244,6 +258,7 @@ int ssl_write(con_t *c, unsigned char *data, int datan) {
     int sslerr = SSL_get_error(sslc->con, rc);
     if (sslerr == SSL_ERROR_WANT_READ || sslerr == SSL_ERROR_WANT_WRITE) {
         if (sslerr == SSL_ERROR_WANT_READ) {
+            sslc->f_wwait = 1;
             if (c->ev->read_cb != ssl_write_cb) {
                 sslc->cc_ev_cbr = c->ev->read_cb;
                 c->ev->read_cb = ssl_write_cb;
diff --git a/src/common/ssl.h b/src/common/ssl.h
index 0f346d5..c86e2af 100755
--- a/src/common/ssl.h
+++ b/src/common/ssl.h
@@ -26,6 +26,8 @@ typedef struct {
     char    f_handshaked:1;
     char    f_err:1;
     char    f_closed:1;
+    char    f_rwait:1;  ///ssl_read waits for writeable
+    char    f_wwait:1;  ///ssl_write waits for readable
 } ssl_con_t;
 
 int ssl_init(void);
-- 
2.43.0


From e8de47ccb0edc4b745af79ae9b81888f552f8479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:47:34 +0000
Subject: [PATCH 10/79] fix: never cache the handshake callback as the one to
 restore

---
 src/common/ssl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/ssl.c b/src/common/ssl.c
index 6fdfa4b..04ac7a4 100755
--- a/src/common/ssl.c
+++ b/src/common/ssl.c
@@ -150,7 +150,7 @@ int ssl_handshake(con_t *c) {
     int sslerr = SSL_get_error(sslc->con, rc);
     if ((sslerr == SSL_ERROR_WANT_READ) || (sslerr == SSL_ERROR_WANT_WRITE)) {
 
-        if (!sslc->cc_ev_typ) { ///cache current event opt and callbacks, once per handshake
+        if (c->ev->read_cb != ssl_handshake_cb && c->ev->write_cb != ssl_handshake_cb) { ///cache current event opt and callbacks, once per handshake
             sslc->cc_ev_typ = c->ev->opt;
             sslc->cc_ev_cbr = c->ev->read_cb;
             sslc->cc_ev_cbw = c->ev->write_cb;
-- 
2.43.0


From 61589c8b01fc6d963b173cc0237856c9e3358104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:48:54 +0000
Subject: [PATCH 11/79] fix: bound the length of a presented key by the key
 field

---
 src/app/tls_tunnel_s.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/tls_tunnel_s.c b/src/app/tls_tunnel_s.c
index 56681d5..4e56428 100755
--- a/src/app/tls_tunnel_s.c
+++ b/src/app/tls_tunnel_s.c
@@ -251,7 +251,7 @@ static int tls_tunnel_s_auth_chk(con_t *cdown) {
     int auth_chk = -1;
     do {
         schk(auth->magic == htonl(TLS_TUNNEL_AUTH_MAGIC_NUM), break);
-        schk(0 == ezac_find(g_ses_ctx->ac, auth->key, strlen(auth->key)), break);
+        schk(0 == ezac_find(g_ses_ctx->ac, auth->key, strnlen(auth->key, sizeof(auth->key))), break);
         auth_chk = 0;
     } while(0);
     
-- 
2.43.0


From 67c8b15814d363b6fd532785ba540fce06531d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:48:54 +0000
Subject: [PATCH 12/79] fix: refuse empty method lists and empty domain names

---
 src/app/socks5.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/app/socks5.c b/src/app/socks5.c
index 68eeb36..e00c957 100755
--- a/src/app/socks5.c
+++ b/src/app/socks5.c
@@ -304,8 +304,7 @@ int s5_p2_req(con_t *cdown) {
             if (s5->s5_state == TYP_DOMAINN) {
                 s5p2->dst_addr_n = *p;
                 s5->s5_state = TYP_DOMAIN;
-                if (s5p2->dst_addr_n < 0) s5p2->dst_addr_n = 0;
-                if (s5p2->dst_addr_n > 255) s5p2->dst_addr_n = 255;
+                schk(s5p2->dst_addr_n > 0, {net_free(cdown); return -1;});
                 continue;
             }
             if (s5->s5_state == TYP_DOMAIN) {
@@ -409,6 +408,7 @@ int s5_p1_req(con_t *cdown) {
             }
             if (s5->s5_state == METHODN) {
                 s5p1->methods_n = *p;
+                schk(s5p1->methods_n > 0, {net_free(cdown); return -1;});
                 s5p1->methods_cnt = 0;
                 s5->s5_state = METHOD;
                 continue;
-- 
2.43.0


From 828833205b0950b5d1baf01afd2d8aad68bee068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:48:54 +0000
Subject: [PATCH 13/79] fix: keep room for the terminator of a domain name

---
 src/app/socks5.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/socks5.h b/src/app/socks5.h
index 24044d2..90180bc 100755
--- a/src/app/socks5.h
+++ b/src/app/socks5.h
@@ -31,7 +31,7 @@ typedef struct {
     unsigned char       atyp;
     unsigned char       dst_addr_n;
     unsigned char       dst_addr_cnt;
-    unsigned char       dst_addr[DOMAIN_LENGTH];
+    unsigned char       dst_addr[DOMAIN_LENGTH + 1];
     unsigned char       dst_port[2];
 } s5_ph2_req_t;
 
-- 
2.43.0


From d5f9a031d999a80bb9270e2e48faa576e1b944bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:48:54 +0000
Subject: [PATCH 14/79] fix: give up a pending lookup together with its session

---
 src/app/socks5.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/app/socks5.c b/src/app/socks5.c
index e00c957..8cb1359 100755
--- a/src/app/socks5.c
+++ b/src/app/socks5.c
@@ -8,6 +8,10 @@ static int s5_try_read(con_t *cdown) {
 
     if (0 != net_socket_check_status(cdown->fd)) {
         err("tls tunnel. socket chk err\n");
+        if (ses->dns) { ///nobody is left to be told the result
+            dns_free(ses->dns);
+            ses->dns = NULL;
+        }
         net_free(ses->cup);
         net_free(cdown);
         return -1;
@@ -98,6 +102,7 @@ int s5_cup_connect(con_t *cup) {
 void s5_cup_dns_cb(int status, unsigned char *result, void *data) {
     tls_tunnel_session_t *ses = data;
     dnsc_t *dnsc = ses->dns;
+    ses->dns = NULL;
     s5_t *s5 = (s5_t*)ses->adata;
     s5_ph2_req_t *s5p2 = &s5->s5p2;
     char ipstr[128] = {0};
-- 
2.43.0


From 039cd3428684ae89cd4d1f9fb559a7ac2e0b524d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:48:54 +0000
Subject: [PATCH 15/79] fix: report a lookup that cannot be started and release
 it

---
 src/app/socks5.c | 2 +-
 src/dns/dns.c    | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/app/socks5.c b/src/app/socks5.c
index 8cb1359..8c5764e 100755
--- a/src/app/socks5.c
+++ b/src/app/socks5.c
@@ -126,7 +126,7 @@ void s5_cup_dns_cb(int status, unsigned char *result, void *data) {
         ses->cup->ev->write_cb(ses->cup);
     } else {
         err("TLS tunnel. dns resolv failed\n");
-        dns_free(dnsc);
+        if (dnsc) dns_free(dnsc);
         net_free(ses->cup);
         net_free(ses->cdown);
     }
diff --git a/src/dns/dns.c b/src/dns/dns.c
index 8bdb7b4..6fd9d04 100755
--- a/src/dns/dns.c
+++ b/src/dns/dns.c
@@ -327,7 +327,7 @@ static int dns_request_packet(con_t *c) {
 
 int dns_alloc(dnsc_t **outdns, char *domain, dns_async_cb cb, void *userdata) {
     dnsc_t * dns = mem_pool_alloc(sizeof(dnsc_t));
-    schk(dns, return -1);
+    schk(dns, {cb(-1, NULL, userdata); return -1;});
 
     dns->user_data = userdata;
     dns->cb = cb;
@@ -357,6 +357,7 @@ int dns_alloc(dnsc_t **outdns, char *domain, dns_async_cb cb, void *userdata) {
         return dns->c->ev->write_cb(dns->c);
     } while(0);
 
+    dns_free(dns);
     cb(-1, NULL, userdata);
     return -1;
 }
-- 
2.43.0


From 63b18c7627fc901d76769c7b6b252f4e3a87bf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:48:54 +0000
Subject: [PATCH 16/79] fix: refuse names that do not fit a query

---
 src/dns/dns.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/dns/dns.c b/src/dns/dns.c
index 6fd9d04..874c66b 100755
--- a/src/dns/dns.c
+++ b/src/dns/dns.c
@@ -274,6 +274,7 @@ int dns_request_host2qname(unsigned char *host, unsigned char *qname) {
             stackn = 0;
         } else {
             /// push into stack
+            schk(stackn < 63, return -1); /// longest label of a query
             stack[stackn++] = host[i];
         }
         i ++;
@@ -311,7 +312,9 @@ static int dns_request_packet(con_t *c) {
 
     /// convert www.google.com -> 3www6google3com0
     qname = meta->last;
-    dnsc->qname_len = dns_request_host2qname(dnsc->query, qname);
+    int qnamen = dns_request_host2qname(dnsc->query, qname);
+    schk(qnamen > 0, return dns_async_result(dnsc, -1, NULL));
+    dnsc->qname_len = qnamen;
     meta->last += dnsc->qname_len;
 
     qinfo = (dns_question_t*)meta->last;
@@ -331,7 +334,7 @@ int dns_alloc(dnsc_t **outdns, char *domain, dns_async_cb cb, void *userdata) {
 
     dns->user_data = userdata;
     dns->cb = cb;
-    memcpy(dns->query, domain, strlen(domain) > sizeof(dns->query) ? sizeof(dns->query) : strlen(domain));
+    memcpy(dns->query, domain, strlen(domain) >= sizeof(dns->query) ? sizeof(dns->query) - 1 : strlen(domain));
 
     struct sockaddr_in addr;
     addr.sin_family = AF_INET;
-- 
2.43.0


From 855585187e0d2f5957f7087009eaa1d64bfc1707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:48:54 +0000
Subject: [PATCH 17/79] fix: drop expired lookups instead of live ones

---
 src/dns/dns.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dns/dns.c b/src/dns/dns.c
index 874c66b..11760fd 100755
--- a/src/dns/dns.c
+++ b/src/dns/dns.c
@@ -47,7 +47,7 @@ static int dns_rec_add(char *query, char *addr, int msec) {
 
 int dns_rec_find(char *query, char *out_addr) {
     dns_cache_t *dnsc = ezhash_find(dns_ctx->dns_hash, query, strlen(query));
-    if (dnsc) {
+    if (dnsc && dnsc->expire_msec > systime_msec()) {
         if (out_addr) memcpy(out_addr, dnsc->addr, 4);
         return 0;
     }
@@ -67,7 +67,7 @@ void dns_rec_chk(void *data) {
 
                     ezhash_obj_t *obj = ptr_get_struct(p, ezhash_obj_t, queue);
                     dns_cache_t *dnsc = obj->val;
-                    if (dnsc->expire_msec > now) {
+                    if (dnsc->expire_msec <= now) {
                         if (obj->key) 
                             mem_pool_free(obj->key);
                         if (obj->val)
-- 
2.43.0


From 827ebd705110b0505c4116c316ba5b57239aecd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:48:54 +0000
Subject: [PATCH 18/79] fix: only accept complete address records and bound
 their lifetime

---
 src/dns/dns.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/dns/dns.c b/src/dns/dns.c
index 11760fd..bc5da2f 100755
--- a/src/dns/dns.c
+++ b/src/dns/dns.c
@@ -159,14 +159,15 @@ int dns_response_analyze(con_t *c) {
                 /// answer address finish. check address in here
                 unsigned int rttl = ntohl(dnsc->answer.rdata->ttl);
                 unsigned short rtyp = ntohs(dnsc->answer.rdata->type);
-                unsigned short rdatan = ntohs(dnsc->answer.rdata->data_len);
 
                 /// if this answer is a A TYPE answer (IPV4), return ok
-                if (rtyp == 0x0001) {
+                if (rtyp == 0x0001 && state_len == 4) {
                     if (0 == dns_rec_find((char*)dnsc->query, NULL)) {
                         /// do nothing, record already in cache 
                     } else {
-                        if (rttl > 0 && rdatan > 0) {
+                        if (rttl > DNS_TTL_MAX/1000) 
+                            rttl = DNS_TTL_MAX/1000;
+                        if (rttl > 0) {
                             dns_rec_add((char*)dnsc->query, (char*)dnsc->answer.answer_addr, 1000*rttl);
                         }
                     }
-- 
2.43.0


From d52ad240f7394f00c725a76ac3ac16ba19ea47f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:48:54 +0000
Subject: [PATCH 19/79] fix: refuse a lookup answer that carries a foreign id

---
 src/dns/dns.c | 7 ++++++-
 src/dns/dns.h | 1 +
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/dns/dns.c b/src/dns/dns.c
index bc5da2f..2d2a116 100755
--- a/src/dns/dns.c
+++ b/src/dns/dns.c
@@ -217,6 +217,11 @@ int dns_response_recv(con_t *c) {
 
     /// do basic filter in here, check req question count and answer count     
     header = (dns_header_t*)meta->pos;
+    if (ntohs(header->id) != DNS_QUERY_ID) {
+        err("dns response id [%x], not ours\n", ntohs(header->id));
+        dns_async_result(dnsc, -1, NULL);
+        return -1;
+    }
     if (ntohs(header->question_count) < 1) {
         err("dns response question count [%d], illegal\n", header->question_count);
         dns_async_result(dnsc, -1, NULL);
@@ -303,7 +308,7 @@ static int dns_request_packet(con_t *c) {
 
     /// fill in dns packet header 
     header = (dns_header_t*)meta->last;
-    header->id = (unsigned short)htons(0xbeef);
+    header->id = (unsigned short)htons(DNS_QUERY_ID);
     header->flag = htons(0x100);
     header->question_count = htons(1);
     header->answer_count = 0;
diff --git a/src/dns/dns.h b/src/dns/dns.h
index 4ce31ed..27673e6 100755
--- a/src/dns/dns.h
+++ b/src/dns/dns.h
@@ -9,6 +9,7 @@ extern "C"
 
 #define DNS_TMOUT   5000
 #define DNS_METAN    1500
+#define DNS_QUERY_ID 0xbeef
 #define DNS_TTL_MAX  (3600*1000*3)
 
 #pragma pack(push,1)
-- 
2.43.0


From aa0b96b20b1ab002b7d58125c497ae2749edc9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:48:54 +0000
Subject: [PATCH 20/79] fix: find the records of an answer with plain names or
 empty data

---
 src/dns/dns.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dns/dns.c b/src/dns/dns.c
index 2d2a116..9a9fe29 100755
--- a/src/dns/dns.c
+++ b/src/dns/dns.c
@@ -114,7 +114,7 @@ int dns_response_analyze(con_t *c) {
     */
     for (; p < meta->last; p++) {
         if (state == ANSWER_DOMAIN) {
-            if ((*p)&0xc0) {    /// 0xc0 means two byte length 
+            if (((*p)&0xc0) == 0xc0) {    /// 0xc0 means two byte length 
                 dnsc->answer.name = p;
                 state = ANSWER_DOMAIN2;
                 continue;
@@ -126,6 +126,8 @@ int dns_response_analyze(con_t *c) {
                     state_len = sizeof(dns_rdata_t);
                     continue;
                 }
+                p += *p;  /// skip the label
+                continue;
             }
         }
         if (state == ANSWER_DOMAIN2) {
@@ -143,9 +145,9 @@ int dns_response_analyze(con_t *c) {
             cur++;
             if(cur >= state_len) {
                 ///answer common finish, goto answer address
-                state = ANSWER_ADDR_START;
                 cur = 0;
                 state_len = ntohs(dnsc->answer.rdata->data_len);
+                state = state_len > 0 ? ANSWER_ADDR_START : ANSWER_DOMAIN;
                 continue;
             }
         }
-- 
2.43.0


From 5aac594896417fd0260686e39912f0c7067e879e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:49:04 +0000
Subject: [PATCH 21/79] fix: replace an expired lookup by its successor

---
 src/dns/dns.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dns/dns.c b/src/dns/dns.c
index 9a9fe29..2885e3c 100755
--- a/src/dns/dns.c
+++ b/src/dns/dns.c
@@ -40,6 +40,7 @@ static int dns_rec_add(char *query, char *addr, int msec) {
         msec = DNS_TTL_MAX;
     rdns.expire_msec = systime_msec() + msec;
 
+    ezhash_del(dns_ctx->dns_hash, query, strlen(query)); ///an expired one may still be there
     ezhash_add(dns_ctx->dns_hash, query, strlen(query), &rdns, sizeof(dns_cache_t));
     ///dbg("dns cache add entry: [%s]. ttl [%d] msec\n", query, msec);
     return 0;
-- 
2.43.0


From 3704ec6b6d5447ec21b774b856dd782655cad6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:59:57 +0000
Subject: [PATCH 22/79] fix: forget the callback saved by a displaced TLS wait

---
 src/common/ssl.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/common/ssl.c b/src/common/ssl.c
index 04ac7a4..e14c969 100755
--- a/src/common/ssl.c
+++ b/src/common/ssl.c
@@ -195,6 +195,7 @@ int ssl_read(con_t *c, unsigned char *buf, int bufn) {
 
     if (sslc->f_wwait && c->ev->read_cb != ssl_write_cb) { ///displaced, ask for its event again
         sslc->f_wwait = 0;
+        sslc->cc_ev_cbr = NULL;
         ssl_ev_rearm(c);
     }
     sslc->f_rwait = 0;
@@ -243,6 +244,7 @@ int ssl_write(con_t *c, unsigned char *data, int datan) {
 
     if (sslc->f_rwait && c->ev->write_cb != ssl_read_cb) { ///displaced, ask for its event again
         sslc->f_rwait = 0;
+        sslc->cc_ev_cbw = NULL;
         ssl_ev_rearm(c);
     }
     sslc->f_wwait = 0;
-- 
2.43.0


From 47105951d03ad983609d753900902b21ea67fff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:09:11 +0000
Subject: [PATCH 23/79] fix: notice upstream data that came before relaying
 started

---
 src/app/tls_tunnel_s.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/app/tls_tunnel_s.c b/src/app/tls_tunnel_s.c
index 4e56428..970c956 100755
--- a/src/app/tls_tunnel_s.c
+++ b/src/app/tls_tunnel_s.c
@@ -224,6 +224,7 @@ int tls_tunnel_traffic_proc(con_t *c) {
     cdown->ev->write_cb = NULL;
     
     ev_opt(cdown, EV_R | EV_W);
+    ev_opt(cup, EV_NONE);   ///data that came before must be reported again
     ev_opt(cup, EV_R | EV_W);    
     return cdown->ev->read_cb(cdown);
 }
-- 
2.43.0


From 9daebca72038f2be5b8a21503f16349d13fb773e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:06:43 +0000
Subject: [PATCH 24/79] fix: continue HTTP request parsing after the bytes
 already scanned

A request that arrived in two pieces was parsed again from its first byte
with the parser state of the first piece, without reading anything, so the
worker looped for ever. A request line that exactly filled the buffer was
read into an empty space and aborted the worker.
---
 src/http/http_req.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/http/http_req.c b/src/http/http_req.c
index 8652b45..40c487a 100755
--- a/src/http/http_req.c
+++ b/src/http/http_req.c
@@ -40,6 +40,10 @@ static int web_req_line(con_t *c, web_req_t *req) {
 
     for (;;) {
         if (meta_getlen(c->meta) < 1) {
+            if (meta_getfree(c->meta) < 1) {
+                err("webreq meta full\n");
+                return -1;
+            }
             int recvd = c->recv(c, c->meta->last, meta_getfree(c->meta));
             if (recvd < 0) {
                 if (recvd == -11) {
@@ -188,10 +192,7 @@ static int web_req_line(con_t *c, web_req_t *req) {
             }
         }
 
-        if (meta_getfree(c->meta) < 1) {
-            err("webreq meta full\n");
-            return -1;
-        }
+        meta->pos = meta->last;
     }
 }
 
@@ -210,6 +211,10 @@ static int web_req_hdrs(con_t *c, web_req_t *req) {
     for (;;) {
         
         if (meta_getlen(c->meta) < 1) {
+            if (meta_getfree(c->meta) < 1) {
+                err("webreq meta full\n");
+                return -1;
+            }
             int recvd = c->recv(c, c->meta->last, meta_getfree(c->meta));
             if (recvd < 0) {
                 if (recvd == -11) {
@@ -305,10 +310,7 @@ static int web_req_hdrs(con_t *c, web_req_t *req) {
             }
         }
 
-        if (meta_getfree(c->meta) < 1) {
-            err("webreq meta full\n");
-            return -1;
-        }
+        meta->pos = meta->last;
     }
 }
 
-- 
2.43.0


From 6625bb2ded9e443d7ba7b6b5615ec45ecc10d29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:06:44 +0000
Subject: [PATCH 25/79] fix: release the HTTP request body together with its
 request

---
 src/http/http_req.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/http/http_req.c b/src/http/http_req.c
index 40c487a..4a015eb 100755
--- a/src/http/http_req.c
+++ b/src/http/http_req.c
@@ -13,8 +13,10 @@ web_req_t * web_req_alloc(void) {
 }
 
 void web_req_free(web_req_t *webreq) {
-    if (webreq)
+    if (webreq) {
+        meta_free(webreq->payload);
         mem_pool_free(webreq);
+    }
 }
 
 static int web_req_line(con_t *c, web_req_t *req) {
-- 
2.43.0


From ea53caeec41bfbe90080ccde13ab540eacc560ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:06:45 +0000
Subject: [PATCH 26/79] fix: take exactly the announced HTTP body out of the
 connection buffer

The body stayed in the buffer and was parsed as the next request of a
keep-alive connection, and a request pipelined behind a body was refused.
---
 src/http/http_req.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/http/http_req.c b/src/http/http_req.c
index 4a015eb..923c8f0 100755
--- a/src/http/http_req.c
+++ b/src/http/http_req.c
@@ -336,8 +336,11 @@ static int web_req_payload(con_t *c, web_req_t *req) {
         if (req->payloadn > 0) {
             schk(0 == meta_alloc(&req->payload, req->payloadn), return -1);
             int remain = meta_getlen(c->meta);
+            if (remain > req->payloadn) 
+                remain = req->payloadn;
             if (remain) {
-                schk(0 == meta_pdata(req->payload, c->meta->pos, meta_getlen(c->meta)), return -1);
+                schk(0 == meta_pdata(req->payload, c->meta->pos, remain), return -1);
+                c->meta->pos += remain;
             }
         } else {
             return 0;
-- 
2.43.0


From 5cb261e9f18014c19a599c273eba303fa71183a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:07 +0000
Subject: [PATCH 27/79] fix: compare HTTP methods and header names in full

A header with an empty name or a prefix such as "C" was taken as
Content-Length, and "G" as GET.
---
 src/http/http_req.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/http/http_req.c b/src/http/http_req.c
index 923c8f0..01bcb96 100755
--- a/src/http/http_req.c
+++ b/src/http/http_req.c
@@ -19,6 +19,10 @@ void web_req_free(web_req_t *webreq) {
     }
 }
 
+static int web_req_same(string_t *s, const char *name) {
+    return s->len == strlen(name) && strncasecmp((char*)s->data, name, s->len) == 0;
+}
+
 static int web_req_line(con_t *c, web_req_t *req) {
     unsigned char *p = NULL;
     ///reqline example
@@ -292,16 +296,16 @@ static int web_req_hdrs(con_t *c, web_req_t *req) {
 
                     int i = 0;
                     for (i = 0; i < req->kvn; i++) {
-                        if (strncasecmp((char*)req->kvs[i].k.data, "Connection", req->kvs[i].k.len) == 0) {
-                            if (strncasecmp((char*)req->kvs[i].v.data, "Keep-Alive", req->kvs[i].v.len) == 0) {
+                        if (web_req_same(&req->kvs[i].k, "Connection")) {
+                            if (web_req_same(&req->kvs[i].v, "Keep-Alive")) {
                                 req->fkeepalive = 1;
                             }
                         }
                     }
 
-                    if (strncasecmp((char*)req->method.data, "GET", req->method.len) == 0) {
+                    if (web_req_same(&req->method, "GET")) {
                         req->method_typ = HTTP_METHOD_GET;
-                    } else if (strncasecmp((char*)req->method.data, "POST", req->method.len) == 0) {
+                    } else if (web_req_same(&req->method, "POST")) {
                         req->method_typ = HTTP_METHOD_POST;
                     }
                     return req->cb(c, req);
@@ -320,7 +324,7 @@ static int web_req_payload(con_t *c, web_req_t *req) {
     if (!req->payload) {
         int i = 0;
         for (i = 0; i < req->kvn; i++) {
-            if (strncasecmp((char*)req->kvs[i].k.data, "Content-Length", req->kvs[i].k.len) == 0) {
+            if (web_req_same(&req->kvs[i].k, "Content-Length")) {
                 req->payloadn = strtol((char*)req->kvs[i].v.data, NULL, 10);
                 if (req->payloadn < 0) {
                     err("webreq payloadn illegal. [%d]\n", req->payloadn);
-- 
2.43.0


From 012c7a58d1f3372d7828ad078c45fd1d84ea7e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:08 +0000
Subject: [PATCH 28/79] fix: keep the connection buffer when a web session
 starts on it

The next request of a keep-alive connection and a request handed over by
the protocol detection lost the bytes already received and leaked their buffer.
---
 src/app/webser.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/app/webser.c b/src/app/webser.c
index a4f41e6..f372b5c 100755
--- a/src/app/webser.c
+++ b/src/app/webser.c
@@ -438,10 +438,11 @@ static int webser_req_proc(con_t *c) {
 static int webser_start(con_t *c) {
     webser_t *webc = NULL;
     ///init web connection page and meta memory for use
-    schk(0 == meta_alloc(&c->meta, 4096), {
-        net_free(c);
-        return -1;
-    });
+    if (!c->meta) 
+        schk(0 == meta_alloc(&c->meta, 4096), {
+            net_free(c);
+            return -1;
+        });
 
     schk(0 == web_calloc(&webc), {
         net_free(c);
-- 
2.43.0


From 129f4d607d9c67bc9a573eb6b08d003a8d5d5048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:10 +0000
Subject: [PATCH 29/79] fix: drop the finished web session from a keep-alive
 connection

When the next session could not be allocated the finished one was released
a second time. The remaining bytes are moved with memmove, they may overlap.
---
 src/app/webser.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/app/webser.c b/src/app/webser.c
index f372b5c..c89215a 100755
--- a/src/app/webser.c
+++ b/src/app/webser.c
@@ -116,11 +116,13 @@ static int webser_keepalive(con_t *c) {
     meta_free(webc->rsp_hdr);
     meta_free(webc->rsp_payload);
     mem_pool_free(webc);
+    c->data = NULL;
+    c->data_cb = NULL;
 
     ///process net con meta remian data 
     int remain = meta_getlen(c->meta);
     if (remain) {
-        memcpy(c->meta->start, c->meta->pos, remain);
+        memmove(c->meta->start, c->meta->pos, remain);
         c->meta->pos = c->meta->start;
         c->meta->last = c->meta->pos + remain;
     } else {
-- 
2.43.0


From 59849eea7be073d54a9f4c3ae77639e3153b3ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:11 +0000
Subject: [PATCH 30/79] fix: let the event loop start the next keep-alive
 request and watch for writability

Every pipelined request was handled on the stack of the one before it, so a
client that kept pipelining overflowed the worker's stack. A response that
did not fit the socket buffer was never continued on a plain connection,
because writability was not watched.
---
 src/app/webser.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/app/webser.c b/src/app/webser.c
index c89215a..afebd86 100755
--- a/src/app/webser.c
+++ b/src/app/webser.c
@@ -129,9 +129,15 @@ static int webser_keepalive(con_t *c) {
         meta_clr(c->meta);
     }
 
+    ///start the next request from the event loop, not on this stack
     c->ev->read_cb = webser_start;
-    c->ev->write_cb = NULL;
-    return c->ev->read_cb(c);
+    c->ev->write_cb = webser_start;
+    schk(ev_opt(c, EV_NONE) == 0 && ev_opt(c, EV_R | EV_W) == 0, {
+        net_free(c);
+        return -1;
+    });
+    EZ_TMADD(c, web_exp, WEB_TMOUT);
+    return -11;
 }
 
 void * webser_rsp_mime(webser_t * webser, char * mimetype)
@@ -439,6 +445,11 @@ static int webser_req_proc(con_t *c) {
 
 static int webser_start(con_t *c) {
     webser_t *webc = NULL;
+
+    schk(ev_opt(c, EV_R | EV_W) == 0, {
+        net_free(c);
+        return -1;
+    });
     ///init web connection page and meta memory for use
     if (!c->meta) 
         schk(0 == meta_alloc(&c->meta, 4096), {
-- 
2.43.0


From 0bd55e1b3dd4d743ef8c8486a2738c3e8de79f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:32 +0000
Subject: [PATCH 31/79] fix: release a web connection once when a response
 header cannot be built

The header writer released the connection and its caller released it again.
---
 src/app/webser.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/app/webser.c b/src/app/webser.c
index afebd86..a23dd11 100755
--- a/src/app/webser.c
+++ b/src/app/webser.c
@@ -283,7 +283,7 @@ static int webser_rsp_hdrp(con_t *c, const char * str, ...) {
 
 
     if (!webc->rsp_hdr) {
-        schk(0 == meta_alloc(&webc->rsp_hdr, 4096), {net_free(c);return -1;});
+        schk(0 == meta_alloc(&webc->rsp_hdr, 4096), return -1);
     }
     meta_t * n = webc->rsp_hdr;
     meta_t * p = NULL;
@@ -295,9 +295,9 @@ static int webser_rsp_hdrp(con_t *c, const char * str, ...) {
         }
         n = n->next;
     }
-    schk(0 == meta_alloc(&n, 4096), {net_free(c);return -1;});
-    schk(0 == meta_pdata(n, buf, strlen(buf)), {net_free(c);return -1;});
+    schk(0 == meta_alloc(&n, 4096), return -1);
     p->next = n;
+    schk(0 == meta_pdata(n, buf, strlen(buf)), return -1);
     return 0;
 }
 
-- 
2.43.0


From d2f9aa8b55326c64419d876edce6295146f58fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:33 +0000
Subject: [PATCH 32/79] fix: end the 400 status line

---
 src/app/webser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/app/webser.c b/src/app/webser.c
index a23dd11..4803f4c 100755
--- a/src/app/webser.c
+++ b/src/app/webser.c
@@ -314,7 +314,7 @@ int webser_rsp(con_t *c, int rcode, char *exthdr, void *payload, int payloadn) {
         if (rcode == 200) {
             schk(0 == webser_rsp_hdrp(c, "HTTP/1.1 200 OK\r\n"), break);
         } else if (rcode == 400) {
-            schk(0 == webser_rsp_hdrp(c, "HTTP/1.1 400 Bad Request"), break);
+            schk(0 == webser_rsp_hdrp(c, "HTTP/1.1 400 Bad Request\r\n"), break);
         } else if (rcode == 403) {
             schk(0 == webser_rsp_hdrp(c, "HTTP/1.1 403 Forbidden\r\n"), break);
         } else if (rcode == 404) {
@@ -322,7 +322,7 @@ int webser_rsp(con_t *c, int rcode, char *exthdr, void *payload, int payloadn) {
         } else if (rcode == 500) {
             schk(0 == webser_rsp_hdrp(c, "HTTP/1.1 500 Internal Server Error\r\n"), break);
         } else {
-            schk(0 == webser_rsp_hdrp(c, "HTTP/1.1 400 Bad Request"), break);
+            schk(0 == webser_rsp_hdrp(c, "HTTP/1.1 400 Bad Request\r\n"), break);
         }
         schk(0 == webser_rsp_hdrp(c, "Server: s5\r\n"), break);
         schk(0 == webser_rsp_hdrp(c, "Date: %s\r\n", systime_gmt()), break);    
-- 
2.43.0


From 2c82692883a370bc7efa3043050edf55830984da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:34 +0000
Subject: [PATCH 33/79] fix: refuse file requests too long to be checked

Only the first 1024 bytes of the path were searched for "../", in a buffer
without terminator, so a longer path could leave the web root.
---
 src/app/webser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/app/webser.c b/src/app/webser.c
index 4803f4c..020568b 100755
--- a/src/app/webser.c
+++ b/src/app/webser.c
@@ -412,8 +412,8 @@ static int webser_req_router(con_t *c) {
         });
         
         char uri[1024] = {0};
-        memcpy(uri, webc->webreq->uri.data,
-                webc->webreq->uri.len > 1024 ? 1024 : webc->webreq->uri.len);
+        schk(webc->webreq->uri.len < sizeof(uri), {net_free(c);return -1;});
+        memcpy(uri, webc->webreq->uri.data, webc->webreq->uri.len);
         schk(!strstr(uri, "../"), {net_free(c);return -1;});
         
         c->ev->read_cb = webser_req_file;
-- 
2.43.0


From 7649c770ade5a7ce0a8ca5e81f1a6726020f7dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:35 +0000
Subject: [PATCH 34/79] fix: serve regular files only

The mask test was true for every file type: a directory was answered with
its own size and no content, and a FIFO blocked the worker in open.
---
 src/app/webser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/webser.c b/src/app/webser.c
index 020568b..56498b9 100755
--- a/src/app/webser.c
+++ b/src/app/webser.c
@@ -369,7 +369,7 @@ static int webser_req_file(con_t *c) {
         err("webser stat reqfile [%s] err, [%d]\n", p, errno);
         http_code = 400;
     } else {
-        if (st.st_mode & S_IFMT) {
+        if (S_ISREG(st.st_mode)) {
             if (st.st_mode & S_IRUSR) {
                 webc->ffd = open(p, O_RDONLY);
                 if (-1 == webc->ffd) {
-- 
2.43.0


From 827db77e9d3f126d24ec196b2b1bbd191b8d8c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:36 +0000
Subject: [PATCH 35/79] fix: answer 500 when the requested file cannot be
 opened

---
 src/app/webser.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/app/webser.c b/src/app/webser.c
index 56498b9..468af54 100755
--- a/src/app/webser.c
+++ b/src/app/webser.c
@@ -374,10 +374,12 @@ static int webser_req_file(con_t *c) {
                 webc->ffd = open(p, O_RDONLY);
                 if (-1 == webc->ffd) {
                     err("webser open reqfile [%s] err, [%d]\n", p, errno);
+                    webc->ffd = 0;
                     http_code = 500;
+                } else {
+                    http_code = 200;
+                    webc->fsize = st.st_size;
                 }
-                http_code = 200;
-                webc->fsize = st.st_size;
             } else {
                 http_code = 403;
             }
-- 
2.43.0


From e8500e9632e93cae4a15c045cbbf8aa950f79572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:37 +0000
Subject: [PATCH 36/79] fix: send no more of a growing file than was announced

---
 src/app/webser.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/app/webser.c b/src/app/webser.c
index 468af54..82f3693 100755
--- a/src/app/webser.c
+++ b/src/app/webser.c
@@ -197,7 +197,10 @@ static int webser_rsp_payload_send_ff(con_t *c) {
             meta_clr(meta);
         
         if (meta_getfree(meta) > 0) {
-            int readn = read(webc->ffd, meta->last, meta_getfree(meta));
+            int readn = webc->fsize - webc->fsend;
+            if (readn > meta_getfree(meta)) 
+                readn = meta_getfree(meta);
+            readn = read(webc->ffd, meta->last, readn);
             if (readn <= 0) {
                 err("webserv rff err. [%d] [%d] [%d]\n",
                     errno, webc->fsend, webc->fsize);
-- 
2.43.0


From 4f75785066df927da70e190d9113a63255048441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:38 +0000
Subject: [PATCH 37/79] fix: serve file names without an extension

A path without a dot passed a null extension to the type lookup.
---
 src/app/webser.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/app/webser.c b/src/app/webser.c
index 82f3693..b8a246d 100755
--- a/src/app/webser.c
+++ b/src/app/webser.c
@@ -142,7 +142,9 @@ static int webser_keepalive(con_t *c) {
 
 void * webser_rsp_mime(webser_t * webser, char * mimetype)
 {
-    void * typ = ezhash_find(g_web_ctx->mime_hash, 
+    void * typ = NULL;
+    if (mimetype) 
+        typ = ezhash_find(g_web_ctx->mime_hash, 
                 mimetype, strlen(mimetype));
     return typ ? typ : "text/plain";
 }
-- 
2.43.0


From 4a45443c062932c7f641aec64cd594fba2a9b8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:39 +0000
Subject: [PATCH 38/79] fix: bound registered API names by the size of their
 field

---
 src/app/webser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/webser.c b/src/app/webser.c
index b8a246d..9772380 100755
--- a/src/app/webser.c
+++ b/src/app/webser.c
@@ -49,7 +49,7 @@ int webser_api_reg(char *key, ev_cb cb, enum http_process_status method_type, ch
     schk(p, return -1);
     int keyn = 0;
     if (strlen(key) > (sizeof(p->key)-1)) {
-        keyn = sizeof(key)-1;
+        keyn = sizeof(p->key)-1;
     } else {
         keyn = strlen(key);
     }
-- 
2.43.0


From 8fd73a3fc85abc648aa8d35242dcd380a732c646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:40 +0000
Subject: [PATCH 39/79] fix: answer an echo request without a body

---
 src/app/web_api.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/app/web_api.c b/src/app/web_api.c
index 467e339..7e2bfb9 100755
--- a/src/app/web_api.c
+++ b/src/app/web_api.c
@@ -5,6 +5,8 @@
 static int wapi_echo_post(con_t *c) {
     webser_t * webc = c->data;
     ///dbg("http req data [%s]\n", webc->webreq->payload->pos);
+    if (!webc->webreq->payload) 
+        return webser_rsp(c, 400, NULL, NULL, 0);
     return webser_rsp(c, 200, NULL, webc->webreq->payload->pos, meta_getlen(webc->webreq->payload));
 }
 
-- 
2.43.0


From 0c468ef6513854f3a4f107f3df58bd4e6be15ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:55 +0000
Subject: [PATCH 40/79] fix: keep accepting after an interrupted or aborted
 accept

The listening socket is watched edge triggered, so connections still queued
behind the aborted one waited until another client arrived.
---
 src/common/net.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/common/net.c b/src/common/net.c
index 2e44f67..f91a4fa 100755
--- a/src/common/net.c
+++ b/src/common/net.c
@@ -135,11 +135,14 @@ int net_accept(con_t *c) {
         memset(&caddr, 0x0, caddrn);
         cfd = accept(c->fd, (struct sockaddr *)&caddr, &caddrn);
         if (-1 == cfd) {
-            if (errno == EWOULDBLOCK ||
-                errno == EAGAIN ||
-                errno == EINTR ||
+            if (errno == EINTR ||
                 errno == EPROTO ||
                 errno == ECONNABORTED
+            ) {
+                continue;
+            }
+            if (errno == EWOULDBLOCK ||
+                errno == EAGAIN
             ) {
                 return -11;
             }
-- 
2.43.0


From 4c8020a1315f3b4a389c8fce9484b3dfc86ef76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:56 +0000
Subject: [PATCH 41/79] fix: keep accepting when one accepted connection cannot
 be set up

---
 src/common/net.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/common/net.c b/src/common/net.c
index f91a4fa..9f4cc92 100755
--- a/src/common/net.c
+++ b/src/common/net.c
@@ -149,14 +149,14 @@ int net_accept(con_t *c) {
             err("accept failed, [%d]\n", errno);
             return -1;
         }
-        schk(net_alloc(&cc) != -1, {close(cfd); return -1;});
+        schk(net_alloc(&cc) != -1, {close(cfd); continue;});
         memcpy(&cc->addr, &caddr, caddrn);
         cc->fd = cfd;
         
-        schk(net_socket_nbio(cc->fd) == 0, {net_free(cc); return -1;});
-        schk(net_socket_nodelay(cc->fd) == 0, {net_free(cc); return -1;});
-        schk(net_socket_fastopen(cc->fd) == 0, {net_free(cc); return -1;});
-        schk(net_socket_lowat_send(cc->fd) == 0, {net_free(cc); return -1;});
+        schk(net_socket_nbio(cc->fd) == 0, {net_free(cc); continue;});
+        schk(net_socket_nodelay(cc->fd) == 0, {net_free(cc); continue;});
+        schk(net_socket_fastopen(cc->fd) == 0, {net_free(cc); continue;});
+        schk(net_socket_lowat_send(cc->fd) == 0, {net_free(cc); continue;});
         
         cc->recv = recvs;
         cc->send = sends;
-- 
2.43.0


From 6769da91cd138022d3cef8c25861d3e33d91e71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:17:32 +0000
Subject: [PATCH 42/79] fix: move a timer up when a removal leaves it below a
 later one

---
 src/common/util/bheap.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/common/util/bheap.c b/src/common/util/bheap.c
index c852865..b5ac367 100755
--- a/src/common/util/bheap.c
+++ b/src/common/util/bheap.c
@@ -60,6 +60,12 @@ int heap_del(heap_t * heap, int del_index)
     heap->index--;
     
     i = del_index;
+    if(i > heap->index) return 0; ///the last node itself is deleted
+    while(HEAP_PARENT(i) && tail_node->key < heap->array[HEAP_PARENT(i)]->key) {
+        heap->array[i] = heap->array[HEAP_PARENT(i)];
+        heap->array[i]->index = i;
+        i = HEAP_PARENT(i);
+    }
     while(HEAP_LCHILD(i) <= heap->index) { ///left child is necessary. right child is unnecessary
         child_min = HEAP_LCHILD(i);
         if(HEAP_RCHILD(i) <= heap->index) {
-- 
2.43.0


From 8f0659efdbad1f4994b327a79dbaacd4e990d682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:17:32 +0000
Subject: [PATCH 43/79] fix: do not mark a timer as armed that could not be
 recorded

---
 src/common/timer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/timer.c b/src/common/timer.c
index 04dcc8d..84160d8 100755
--- a/src/common/timer.c
+++ b/src/common/timer.c
@@ -19,7 +19,7 @@ int tm_add(ev_timer_t *timer, timer_cb cb, void *data, int delay_ms) {
     timer->cb = cb;
     timer->data = data;
     timer->node.key = (systime_msec() + delay_ms);
-    schk(0 == heap_add(g_heap, &timer->node), return -1);
+    schk(0 == heap_add(g_heap, &timer->node), {timer->f_timeset = 0; return -1;});
     return 0;
 }
 
-- 
2.43.0


From a0540054b2d27fe674fb3103d1bf54c466199281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:17:32 +0000
Subject: [PATCH 44/79] fix: refuse to start without a timer set

---
 src/common/timer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/timer.c b/src/common/timer.c
index 84160d8..7d5ff6b 100755
--- a/src/common/timer.c
+++ b/src/common/timer.c
@@ -56,7 +56,7 @@ int timer_expire(int *wait_ms) {
 }
 
 int timer_init(void) {
-    heap_create(&g_heap, MAX_NET_CON * 2);
+    schk(0 == heap_create(&g_heap, MAX_NET_CON * 2), return -1);
     return 0;
 }
 
-- 
2.43.0


From 78dab2668d2c62079b2c50f052e9e39ad8addd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:17:32 +0000
Subject: [PATCH 45/79] fix: ask the size class that is used whether it is
 exhausted

---
 src/common/mem.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/common/mem.c b/src/common/mem.c
index 5442cfd..4f93449 100755
--- a/src/common/mem.c
+++ b/src/common/mem.c
@@ -137,11 +137,6 @@ void * mem_pool_alloc(int size) {
     assert(size > 0);
 
     pthread_mutex_lock(&g_mp_thread_lock);
-    if(queue_empty(&g_mem_ctx.blks[blk_idx].usable)) {
-        pthread_mutex_unlock(&g_mp_thread_lock);
-        return NULL;
-    }
-    
     ///choice block
     if (size <= 512) {
         blk_idx = 0;
@@ -167,6 +162,10 @@ void * mem_pool_alloc(int size) {
         return NULL;
     }
     
+    if(queue_empty(&g_mem_ctx.blks[blk_idx].usable)) {
+        pthread_mutex_unlock(&g_mp_thread_lock);
+        return NULL;
+    }
     queue_t * q = queue_head(&g_mem_ctx.blks[blk_idx].usable);
     mem_obj_t * obj = ptr_get_struct(q, mem_obj_t, queue);
     queue_remove(&obj->queue);
-- 
2.43.0


From 151e811ccca05356aca58465271a0b7e269a3c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:17:32 +0000
Subject: [PATCH 46/79] fix: release the pool lock when a damaged block is
 refused

---
 src/common/mem.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/mem.c b/src/common/mem.c
index 4f93449..25ae679 100755
--- a/src/common/mem.c
+++ b/src/common/mem.c
@@ -124,7 +124,7 @@ int mem_pool_init(void) {
 int mem_pool_free(void *p) {
     pthread_mutex_lock(&g_mp_thread_lock);
     mem_obj_t * obj = ptr_get_struct(p, mem_obj_t, addr);
-    schk(obj->magic == MP_OBJ_MAGIC, return -1);
+    schk(obj->magic == MP_OBJ_MAGIC, {pthread_mutex_unlock(&g_mp_thread_lock); return -1;});
     queue_remove(&obj->queue);
     queue_insert_tail(&g_mem_ctx.blks[obj->blk_idx].usable, &obj->queue);
     pthread_mutex_unlock(&g_mp_thread_lock);
-- 
2.43.0


From d1590695ac9da68fe4ce665f5704c02edc663ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:17:32 +0000
Subject: [PATCH 47/79] fix: wrap a ring buffer around exactly at its end

---
 src/common/ringbuffer.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/common/ringbuffer.c b/src/common/ringbuffer.c
index 4d81b27..f14bf5d 100755
--- a/src/common/ringbuffer.c
+++ b/src/common/ringbuffer.c
@@ -64,8 +64,8 @@ int ringbuffer_push(ringbuffer_t *rb,unsigned char *data, int datan)
                 memcpy(rb->last, data, tailn);
                 rb->last += tailn;
                 rb->datan += tailn;
-                rb->last = rb->start;
             }
+            rb->last = rb->start;
             int headn = datan - tailn;
             memcpy(rb->start, data + tailn, headn);
             rb->last += headn;
@@ -73,10 +73,9 @@ int ringbuffer_push(ringbuffer_t *rb,unsigned char *data, int datan)
         }
     } else {
         /// start-----last-----pos-----end
-        int freen = rb->pos - rb->last;
         memcpy(rb->last, data, datan);
-        rb->last += freen;
-        rb->datan += freen;
+        rb->last += datan;
+        rb->datan += datan;
     }
     pthread_mutex_unlock(&rb->lock);
     return 0;
@@ -113,8 +112,8 @@ int ringbuffer_pull(ringbuffer_t *rb, int datan, unsigned char *data, int *outn)
                 memcpy(data, rb->pos, tailn);
                 rb->pos += tailn;
                 rb->datan -= tailn;
-                rb->pos = rb->start;
             }
+            rb->pos = rb->start;
             int headn = rb->last - rb->start;
             int pulln = (datan - tailn >= headn ? headn : (datan - tailn));
             memcpy(data + tailn, rb->start, pulln);
-- 
2.43.0


From c1148b0a72185840c107b612e3d0fa0bd17721a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:20 +0000
Subject: [PATCH 48/79] fix: release every node of a search tree whatever its
 shape

---
 src/common/util/bst.c | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/common/util/bst.c b/src/common/util/bst.c
index 2ec5fee..b8d36e0 100755
--- a/src/common/util/bst.c
+++ b/src/common/util/bst.c
@@ -15,20 +15,25 @@ int bst_create(bst_t ** bst)
 
 int bst_free(bst_t * bst)
 {
-    bst_node_t * stack[8192] = {NULL};
-    int stackn = 0;
-
-    if(!bst->head.right) return 0;
-    stack[stackn++] = bst->head.right;
+    bst_node_t * n = &bst->head;
 
-    while(stackn > 0) {
-        bst_node_t * n = stack[--stackn];
-        if(n->left)
-            stack[stackn++] = n->left;
-        if(n->right)
-            stack[stackn++] = n->right;
-        sys_free(n);
+    for(;;) {
+        if(n->left) {
+            n = n->left;
+        } else if(n->right) {
+            n = n->right;
+        } else {
+            bst_node_t * p = n->parent;
+            if(!p) break;
+            if(p->left == n)
+                p->left = NULL;
+            else
+                p->right = NULL;
+            sys_free(n);
+            n = p;
+        }
     }
+    bst->elem_num = 0;
     return 0;
 }
 
-- 
2.43.0


From f84d19be6119da67682ddd67f40aa23a0c6e9294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:20 +0000
Subject: [PATCH 49/79] fix: look up search tree keys by their order and never
 return the head

---
 src/common/util/bst.c | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/common/util/bst.c b/src/common/util/bst.c
index b8d36e0..f7cd98c 100755
--- a/src/common/util/bst.c
+++ b/src/common/util/bst.c
@@ -80,18 +80,14 @@ bst_node_t * bst_min(bst_node_t * n)
 
 bst_node_t * bst_find(bst_t * bst, long long key)
 {
-    bst_node_t * stack[8192] = {NULL};
-    int stackn = 0;
-
-    stack[stackn++] = &bst->head;
-
-    while(stackn > 0) {
-        bst_node_t * n = stack[--stackn];
-        if(n->num == key) return n;
-        if(n->left)
-            stack[stackn++] = n->left;
-        if(n->right)
-            stack[stackn++] = n->right;
+    bst_node_t * n = &bst->head;
+
+    while(n) {
+        if(n->num == key && n->parent) return n;
+        if(key > n->num)
+            n = n->right;
+        else
+            n = n->left;
     }
     return NULL;
 }
-- 
2.43.0


From 0d86d608d72500e103144bae0cd80ba08255c01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:20 +0000
Subject: [PATCH 50/79] fix: keep a search tree linked and ordered when a node
 is removed

---
 src/common/util/bst.c | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/common/util/bst.c b/src/common/util/bst.c
index f7cd98c..9138e44 100755
--- a/src/common/util/bst.c
+++ b/src/common/util/bst.c
@@ -105,6 +105,7 @@ int bst_del(bst_t * bst, long long key)
             n->parent->right = n->left;
 
         n->left->parent = n->parent;
+        n->left->type = n->type;
         n->left->level = n->level;
     } else if (!n->left && n->right) {
         if(n->type == BST_LEFT) 
@@ -113,20 +114,25 @@ int bst_del(bst_t * bst, long long key)
             n->parent->right = n->right;
 
         n->right->parent = n->parent;
+        n->right->type = n->type;
         n->right->level = n->level;
+    } else if (!n->left && !n->right) {
+        if(n->type == BST_LEFT)
+            n->parent->left = NULL;
+        else
+            n->parent->right = NULL;
     } else {
         ///find right tree mininum node.
         bst_node_t * m = bst_min(n->right);
         ///delete the node
+        if(m->type == BST_LEFT)
+            m->parent->left = m->right;
+        else
+            m->parent->right = m->right;
         if(m->right) {
-            if(m->type == BST_LEFT)
-                m->parent->left = m->right;
-            else
-                m->parent->right = m->right;
             m->right->parent = m->parent;
+            m->right->type = m->type;
             m->right->level = m->level;
-        } else {
-            m->parent->left = NULL;
         }
         ///replace delete node with this node
         if(n->type == BST_LEFT) 
@@ -134,8 +140,10 @@ int bst_del(bst_t * bst, long long key)
         else
             n->parent->right = m;
         n->left->parent = m;
-        n->right->parent = m;
+        if(n->right)
+            n->right->parent = m;
         m->parent = n->parent;
+        m->type = n->type;
         m->level = n->level;
         m->left = n->left;
         m->right = n->right;
-- 
2.43.0


From ffefb899961b96a112f385fa3cdc372629d262b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:21 +0000
Subject: [PATCH 51/79] fix: keep the terminator of the configuration text

---
 src/common/config.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/config.c b/src/common/config.c
index d37549f..f486910 100755
--- a/src/common/config.c
+++ b/src/common/config.c
@@ -127,7 +127,7 @@ int config_init(void) {
         ffd = open(S5_PATH_CFG, O_RDONLY);
         schk(ffd > 0, break);
         while (freadn < fsz) {
-            rc = read(ffd, fbuf + freadn, fsz + 1 - freadn);
+            rc = read(ffd, fbuf + freadn, fsz - freadn);
             schk(rc > 0, break);
             freadn += rc;
         }
-- 
2.43.0


From 6462e99a909cbdd23a6746f4957d5f2f1e84cd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:21 +0000
Subject: [PATCH 52/79] fix: refuse to start when the configuration cannot be
 read

---
 src/common/config.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/common/config.c b/src/common/config.c
index f486910..b72bcb9 100755
--- a/src/common/config.c
+++ b/src/common/config.c
@@ -112,6 +112,7 @@ int config_init(void) {
 
     struct stat fstat;
     int rc = 0;
+    int ret = -1;
     int fsz = 0;
     int ffd = 0;
     int freadn = 0;
@@ -131,15 +132,17 @@ int config_init(void) {
             schk(rc > 0, break);
             freadn += rc;
         }
+        schk(freadn >= fsz, break);
 
         ahead_dbg("config string:\n");
         ahead_dbg("%s", fbuf);
         schk(0 == config_parse(fbuf), break);
+        ret = 0;
     } while(0);
     
-    if (ffd) close(ffd);
+    if (ffd > 0) close(ffd);
     if (fbuf) sys_free(fbuf);
-    return 0;
+    return ret;
 }
 
 int config_end(void) { return OK; }
-- 
2.43.0


From ad4500f6dc3a68f8039d284a9f5a8fcf164f7d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:21 +0000
Subject: [PATCH 53/79] fix: refuse a configuration whose text settings are not
 text

---
 src/common/config.c | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/common/config.c b/src/common/config.c
index b72bcb9..cc46238 100755
--- a/src/common/config.c
+++ b/src/common/config.c
@@ -2,8 +2,15 @@
 
 static config_t g_config;
 
+static int config_parse_str(cJSON *item, char *dst, int dstn) {
+    schk(cJSON_GetStringValue(item), return -1);
+    strncpy(dst, cJSON_GetStringValue(item), dstn-1);
+    return 0;
+}
+
 static int config_parse(char *str) {
     int i = 0;
+    int bad = 0;
     cJSON *root = cJSON_Parse(str);
     if (root) {
         cJSON *sys_daemon = cJSON_GetObjectItem(root, "sys_daemon");
@@ -23,9 +30,9 @@ static int config_parse(char *str) {
         cJSON *ssl_crt_path = cJSON_GetObjectItem(root, "ssl_crt_path");
         cJSON *ssl_key_path = cJSON_GetObjectItem(root, "ssl_key_path");
         if (ssl_crt_path)
-            strncpy(g_config.ssl_crt_path, cJSON_GetStringValue(ssl_crt_path), sizeof(g_config.ssl_crt_path)-1);
+            bad |= config_parse_str(ssl_crt_path, g_config.ssl_crt_path, sizeof(g_config.ssl_crt_path));
         if (ssl_key_path)
-            strncpy(g_config.ssl_key_path, cJSON_GetStringValue(ssl_key_path), sizeof(g_config.ssl_key_path)-1);
+            bad |= config_parse_str(ssl_key_path, g_config.ssl_key_path, sizeof(g_config.ssl_key_path));
         ///dbg("ssl_crt_path: [%s]\n", g_config.ssl_crt_path);
         ///dbg("ssl_key_path: [%s]\n", g_config.ssl_key_path);
 
@@ -39,9 +46,9 @@ static int config_parse(char *str) {
         if (s5_serv_port)
             g_config.s5_serv_port = s5_serv_port->valueint;
         if (s5_serv_auth_path)
-            strncpy(g_config.s5_serv_auth_path, cJSON_GetStringValue(s5_serv_auth_path), sizeof(g_config.s5_serv_auth_path)-1);
+            bad |= config_parse_str(s5_serv_auth_path, g_config.s5_serv_auth_path, sizeof(g_config.s5_serv_auth_path));
         if (s5_serv_gw)
-            strncpy(g_config.s5_serv_gw, cJSON_GetStringValue(s5_serv_gw), sizeof(g_config.s5_serv_gw)-1);
+            bad |= config_parse_str(s5_serv_gw, g_config.s5_serv_gw, sizeof(g_config.s5_serv_gw));
         ///dbg("s5_mode: [%d]\n", g_config.s5_mode);
         ///dbg("s5_serv_port: [%d]\n", g_config.s5_serv_port);
         ///dbg("s5_serv_auth_path: [%s]\n", g_config.s5_serv_auth_path);
@@ -57,9 +64,9 @@ static int config_parse(char *str) {
         if (s5_local_serv_port)
             g_config.s5_local_serv_port = s5_local_serv_port->valueint;
         if (s5_local_serv_ip)
-            strncpy(g_config.s5_local_serv_ip, cJSON_GetStringValue(s5_local_serv_ip), sizeof(g_config.s5_local_serv_ip)-1);
+            bad |= config_parse_str(s5_local_serv_ip, g_config.s5_local_serv_ip, sizeof(g_config.s5_local_serv_ip));
         if (s5_local_auth)
-            strncpy(g_config.s5_local_auth, cJSON_GetStringValue(s5_local_auth), sizeof(g_config.s5_local_auth)-1);
+            bad |= config_parse_str(s5_local_auth, g_config.s5_local_auth, sizeof(g_config.s5_local_auth));
         ///dbg("s5_local_port: [%d]\n", g_config.s5_local_port);
         ///dbg("s5_local_serv_port: [%d]\n", g_config.s5_local_serv_port);
         ///dbg("s5_local_serv_ip: [%s]\n", g_config.s5_local_serv_ip);
@@ -79,9 +86,9 @@ static int config_parse(char *str) {
                 g_config.https_arr[i] = cJSON_GetArrayItem(https_arr, i)->valueint;
         }
         if (http_home)
-            strncpy(g_config.http_home, cJSON_GetStringValue(http_home), sizeof(g_config.http_home)-1);
+            bad |= config_parse_str(http_home, g_config.http_home, sizeof(g_config.http_home));
         if (http_index)
-            strncpy(g_config.http_index, cJSON_GetStringValue(http_index), sizeof(g_config.http_index)-1);
+            bad |= config_parse_str(http_index, g_config.http_index, sizeof(g_config.http_index));
 
         g_config.http_num = cJSON_GetArraySize(http_arr);
         ///for(i = 0; i < g_config.http_num; i++) 
@@ -94,6 +101,7 @@ static int config_parse(char *str) {
         ///dbg("http_home: [%s]\n", g_config.http_home);
         ///dbg("http_index: [%s]\n", g_config.http_index);
         cJSON_Delete(root);
+        schk(!bad, return -1);
     } else {
         err("cjson parse config file failed\n");
         return -1;
-- 
2.43.0


From 6fb3aecd4d0e5c657397005013c16d1a824db49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:21 +0000
Subject: [PATCH 54/79] fix: refuse a configuration with more listen ports than
 there is room for

---
 src/common/config.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/common/config.c b/src/common/config.c
index cc46238..23a85e5 100755
--- a/src/common/config.c
+++ b/src/common/config.c
@@ -77,11 +77,12 @@ static int config_parse(char *str) {
         cJSON *https_arr = cJSON_GetObjectItem(root, "https_arr");
         cJSON *http_home = cJSON_GetObjectItem(root, "http_home");
         cJSON *http_index = cJSON_GetObjectItem(root, "http_index");
-        if (http_arr) {
+        bad |= cJSON_GetArraySize(http_arr) > L_OPEN_PORT_MAX || cJSON_GetArraySize(https_arr) > L_OPEN_PORT_MAX;
+        if (http_arr && !bad) {
             for (i = 0; i < cJSON_GetArraySize(http_arr); i++)
                 g_config.http_arr[i] = cJSON_GetArrayItem(http_arr, i)->valueint;
         }
-        if (https_arr) {
+        if (https_arr && !bad) {
             for (i = 0; i < cJSON_GetArraySize(https_arr); i++)
                 g_config.https_arr[i] = cJSON_GetArrayItem(https_arr, i)->valueint;
         }
-- 
2.43.0


From f844d271cb7dc1c9fc569c024a9fd21def9f72a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:21 +0000
Subject: [PATCH 55/79] fix: refuse a configuration with an impossible worker
 count

---
 src/common/config.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/common/config.c b/src/common/config.c
index 23a85e5..bdff1ff 100755
--- a/src/common/config.c
+++ b/src/common/config.c
@@ -20,6 +20,7 @@ static int config_parse(char *str) {
             g_config.sys_daemon = sys_daemon->valueint;
         if (sys_process)
             g_config.sys_process_num = sys_process->valueint;
+        bad |= g_config.sys_process_num < 0 || g_config.sys_process_num > MAXPROCESS;
         if (sys_loglevel)
             g_config.sys_log_level = sys_loglevel->valueint;
         ///dbg("sys_daemon: [%d]\n", g_config.sys_daemon);
-- 
2.43.0


From 62b4cfb0ba91100d75a1555ca00da6e29c1fae0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:21 +0000
Subject: [PATCH 56/79] fix: never write past the end of a truncated log line

---
 src/common/log.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/common/log.c b/src/common/log.c
index 57bad7e..dab649b 100755
--- a/src/common/log.c
+++ b/src/common/log.c
@@ -14,16 +14,23 @@ static string_t levels[] = {
     string("[info]")
 };
 
+/// snprintf returns the length the text would have needed
+static void log_format_move(log_content_t *ctx, int n) {
+    int room = (int)(ctx->last - ctx->pos) - 1;
+    if (n >= room) n = room - 1;
+    if (n > 0) ctx->pos += n;
+}
+
 static int log_format_prefix(log_content_t *ctx) {
-    ctx->pos += snprintf(ctx->pos, (ctx->last - ctx->pos)-1, "%.*s %s <%s:%d> ",
+    log_format_move(ctx, snprintf(ctx->pos, (ctx->last - ctx->pos)-1, "%.*s %s <%s:%d> ",
         levels[ctx->level].len, levels[ctx->level].data,
-        systime_log(), ctx->func, ctx->line );
+        systime_log(), ctx->func, ctx->line ));
     return 0;
 }
 
 static int log_format_text(log_content_t *ctx) {
     
-    ctx->pos += vsnprintf(ctx->pos, (ctx->last - ctx->pos)-1, ctx->args, ctx->args_list);
+    log_format_move(ctx, vsnprintf(ctx->pos, (ctx->last - ctx->pos)-1, ctx->args, ctx->args_list));
     va_end(ctx->args_list);
     return 0;
 }
-- 
2.43.0


From 8460f69e081944a475f09d959cf3441f37f962d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:21 +0000
Subject: [PATCH 57/79] fix: signal every running worker even if one cannot be
 signalled

---
 src/common/process.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/common/process.c b/src/common/process.c
index 022b328..e7b110d 100755
--- a/src/common/process.c
+++ b/src/common/process.c
@@ -38,10 +38,10 @@ int proc_signal_send(pid_t pid, int32 signal) {
 static int proc_signal_bcast(int sig) {
     int i = 0;
     for (i = 0; i < config_get()->sys_process_num; i++) {
-        if (-1 == proc_signal_send(g_proc_ctx->processes[i].pid, sig)) {
+        if (g_proc_ctx->processes[i].pid <= 0 || g_proc_ctx->processes[i].exited)
+            continue;
+        if (-1 == proc_signal_send(g_proc_ctx->processes[i].pid, sig))
             err("broadcast signal failed\n");
-            return -1;
-        }
     }
     return 0;
 }
-- 
2.43.0


From 0b03550fe064c39af2877622fa9da87e1a1e659c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:21 +0000
Subject: [PATCH 58/79] fix: keep the pid file when a worker stops

---
 src/common/process.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/common/process.c b/src/common/process.c
index e7b110d..0d13a26 100755
--- a/src/common/process.c
+++ b/src/common/process.c
@@ -72,6 +72,7 @@ static int proc_fork(process_t *process) {
     } else if (pid == 0) { ///child
         g_proc_ctx->process_id = process->sequence_num;
         proc_worker_run();
+        exit(EXIT_SUCCESS); /// only the master goes back to main and removes the pid file
     } else if (pid > 0) { ///parent
         process->pid = pid;
     }
-- 
2.43.0


From cc39983defea5edec15d21b430736ec10359321f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:21 +0000
Subject: [PATCH 59/79] fix: do not serve in a worker whose start-up failed

---
 src/common/process.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/process.c b/src/common/process.c
index 0d13a26..2d1a4af 100755
--- a/src/common/process.c
+++ b/src/common/process.c
@@ -52,7 +52,7 @@ void proc_worker_run(void) {
     sigemptyset(&set); ///clear signal set
     sigprocmask(SIG_SETMASK, &set, NULL); ///worker process set the empty signal set to block. it is equal to not block any signal
 
-    modules_process_init();  ///init process modules
+    schk(0 == modules_process_init(), return);  ///init process modules
     for (;;) {
         if (g_proc_ctx->sig_quit) {
             g_proc_ctx->sig_quit = 0;
-- 
2.43.0


From 0f166ed82ce0de0ecff26c849049f69735ee33f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:21 +0000
Subject: [PATCH 60/79] fix: do not lose a reload request that arrives while
 the master is busy

---
 src/common/process.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/common/process.c b/src/common/process.c
index 2d1a4af..a563b57 100755
--- a/src/common/process.c
+++ b/src/common/process.c
@@ -88,6 +88,7 @@ void proc_master_run(void) {
     sigemptyset(&set);
     sigaddset(&set, SIGCHLD);
     sigaddset(&set, SIGINT);
+    sigaddset(&set, SIGHUP);
     sigaddset(&set, SIGUSR1);
     sigaddset(&set, SIGUSR2);
     if (sigprocmask(SIG_BLOCK, &set, NULL) == -1) {
-- 
2.43.0


From 3d7461deae4e1cd27f8bb4b78387398ff0951ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:22 +0000
Subject: [PATCH 61/79] fix: stop the workers already started when the start of
 another fails

---
 src/common/process.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/common/process.c b/src/common/process.c
index a563b57..0b757a0 100755
--- a/src/common/process.c
+++ b/src/common/process.c
@@ -99,6 +99,7 @@ void proc_master_run(void) {
     for (i = 0; i < config_get()->sys_process_num; i++) { /// start worker process
         if (-1 == proc_fork(&g_proc_ctx->processes[i])) {
             err("process spawn number [%d] child failed, errno [%d]\n", i, errno);
+            proc_signal_bcast(SIGINT);
             return;
         }
         if (g_proc_ctx->process_id != L_PROCESS_MASTER)
-- 
2.43.0


From f213edbbe7a29f12c064e3c72ab50adad1f36358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:22 +0000
Subject: [PATCH 62/79] fix: take signals only while the process table exists

---
 src/common/process.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/common/process.c b/src/common/process.c
index 0b757a0..b18a24a 100755
--- a/src/common/process.c
+++ b/src/common/process.c
@@ -182,6 +182,7 @@ void proc_waitpid(void) {
 void proc_signal_cb(int signal) {
     int err_cc = errno; ///cache errno 
     
+    if (!g_proc_ctx) return;
     g_proc_ctx->signal = signal;
     if (g_proc_ctx->process_id == L_PROCESS_MASTER) { ///master
         if (signal == SIGINT) {
@@ -224,7 +225,6 @@ status proc_signal_init(void) {
 int process_init(void) {
     int i = 0;
     schk(!g_proc_ctx, return -1);
-    schk(0 == proc_signal_init(), return -1);
     schk(g_proc_ctx = sys_alloc(sizeof(process_ctx_t)), return -1);
 
     g_proc_ctx->process_id = L_PROCESS_MASTER;
@@ -235,16 +235,19 @@ int process_init(void) {
 
     for (i = 0; i < config_get()->sys_process_num; i++)
         g_proc_ctx->processes[i].sequence_num = i;
+    schk(0 == proc_signal_init(), return -1);
     return 0;
 }
 
 status process_end(void) {
-    if(g_proc_ctx) {
-        if(g_proc_ctx->shm.size > 0 && g_proc_ctx->shm.data) {
-            sys_shm_free(&g_proc_ctx->shm);
-            g_proc_ctx->shm.size = 0;
+    process_ctx_t *ctx = g_proc_ctx;
+    if(ctx) {
+        g_proc_ctx = NULL; /// signals may still arrive
+        if(ctx->shm.size > 0 && ctx->shm.data) {
+            sys_shm_free(&ctx->shm);
+            ctx->shm.size = 0;
         }
-        sys_free(g_proc_ctx);
+        sys_free(ctx);
     }
     return 0;
 }
-- 
2.43.0


From b8bca68eabc4c1944e00bceb7a0389215e0c5a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:22 +0000
Subject: [PATCH 63/79] fix: signal nobody when the pid file holds no process
 number

---
 src/common/process.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common/process.c b/src/common/process.c
index b18a24a..5c20a58 100755
--- a/src/common/process.c
+++ b/src/common/process.c
@@ -25,8 +25,10 @@ int proc_pid_form_file(pid_t *pid) {
     char str[32] = {0};
     int fd = open(S5_PATH_PID, O_RDONLY);
     schk(fd > 0, return -1);
-    schk(read(fd, str, sizeof(str)) > 0, {close(fd); return -1;});
+    schk(read(fd, str, sizeof(str)-1) > 0, {close(fd); return -1;});
+    close(fd);
     *pid = strtol(str, NULL, 10);
+    schk(*pid > 0, return -1);
     return 0;
 }
 
-- 
2.43.0


From 9ea69b61021a3f64c43af075ea76253d6f85cbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:22 +0000
Subject: [PATCH 64/79] fix: tell every byte of a key apart

---
 src/common/aho_corasick.c | 6 ++----
 src/common/aho_corasick.h | 2 +-
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/common/aho_corasick.c b/src/common/aho_corasick.c
index 33e144e..45d7526 100755
--- a/src/common/aho_corasick.c
+++ b/src/common/aho_corasick.c
@@ -39,8 +39,7 @@ int ezac_add(ezac_ctx_t *ctx, char *data, int datan) {
     int i = 0;
 
     for (i = 0; i < datan; i ++) {
-        int idx = data[i];
-        if (idx < 0 || idx > EZAC_MAX) idx = 0;
+        int idx = (unsigned char)data[i];
         if (!n->arr[idx]) {
             schk(n->arr[idx] = sys_alloc(sizeof(ezac_node_t)), return -1);
         }
@@ -91,8 +90,7 @@ int ezac_reset(ezac_ctx_t *ctx) {
 int ezac_find(ezac_ctx_t *ctx, char *data, int datan) {
     int i = 0;
     for (i = 0; i < datan; i++) {
-        int idx = data[i];
-        if (idx < 0 || idx > EZAC_MAX) idx = 0;
+        int idx = (unsigned char)data[i];
         if (!ctx->cur->arr[idx])
             ctx->cur = ctx->cur->pfail;
 
diff --git a/src/common/aho_corasick.h b/src/common/aho_corasick.h
index 952ca7a..4a68b7b 100755
--- a/src/common/aho_corasick.h
+++ b/src/common/aho_corasick.h
@@ -6,7 +6,7 @@ extern "C"
 {
 #endif
 
-#define EZAC_MAX  128
+#define EZAC_MAX  256
 typedef struct ezac_node_t ezac_node_t;
 struct ezac_node_t {
     ezac_node_t * arr[EZAC_MAX];
-- 
2.43.0


From c2aa05d2c2ccda01f6d6507686c5cd09e5d38a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:22 +0000
Subject: [PATCH 65/79] fix: judge every presented key from the start

---
 src/common/aho_corasick.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/common/aho_corasick.c b/src/common/aho_corasick.c
index 45d7526..4d211ca 100755
--- a/src/common/aho_corasick.c
+++ b/src/common/aho_corasick.c
@@ -89,6 +89,7 @@ int ezac_reset(ezac_ctx_t *ctx) {
 
 int ezac_find(ezac_ctx_t *ctx, char *data, int datan) {
     int i = 0;
+    ezac_reset(ctx);
     for (i = 0; i < datan; i++) {
         int idx = (unsigned char)data[i];
         if (!ctx->cur->arr[idx])
-- 
2.43.0


From b023ea26388ae35dfb7a0252d748a797625fb926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:22 +0000
Subject: [PATCH 66/79] fix: try every shorter match when a key stops matching

---
 src/common/aho_corasick.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/aho_corasick.c b/src/common/aho_corasick.c
index 4d211ca..0ca4cbc 100755
--- a/src/common/aho_corasick.c
+++ b/src/common/aho_corasick.c
@@ -92,7 +92,7 @@ int ezac_find(ezac_ctx_t *ctx, char *data, int datan) {
     ezac_reset(ctx);
     for (i = 0; i < datan; i++) {
         int idx = (unsigned char)data[i];
-        if (!ctx->cur->arr[idx])
+        while (!ctx->cur->arr[idx] && ctx->cur != &ctx->root)
             ctx->cur = ctx->cur->pfail;
 
         if (ctx->cur->arr[idx]) {
-- 
2.43.0


From b18b2d25e62f1065f3a0ebc33ea4cc09357982c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:22 +0000
Subject: [PATCH 67/79] fix: link every key to the shorter keys it can fall
 back to

---
 src/common/aho_corasick.c | 31 +++++++++++--------------------
 src/common/aho_corasick.h |  1 +
 2 files changed, 12 insertions(+), 20 deletions(-)

diff --git a/src/common/aho_corasick.c b/src/common/aho_corasick.c
index 0ca4cbc..bd61502 100755
--- a/src/common/aho_corasick.c
+++ b/src/common/aho_corasick.c
@@ -50,32 +50,23 @@ int ezac_add(ezac_ctx_t *ctx, char *data, int datan) {
 }
 
 int ezac_compiler(ezac_ctx_t *ctx) {
-    ezac_node_t *stack[4096] = {0};
-    int stackn = 0;
+    /// shorter nodes first, so the pfail of a node is complete before it is followed
+    ezac_node_t *n = &ctx->root;
+    ezac_node_t *tail = &ctx->root;
     int i = 0;
 
-    for (i = 0; i < EZAC_MAX; i++) {
-        if (ctx->root.arr[i]) {
-            ctx->root.arr[i]->pfail = &ctx->root;
-            stack[stackn++] = ctx->root.arr[i];
-        }
-    }
-
-    while (stackn > 0) {
-        ezac_node_t * n = stack[--stackn];
+    for (; n; n = n->next) {
         for (i = 0; i < EZAC_MAX; i++) {
             if (n->arr[i]) {
                 ezac_node_t * x = n->pfail;
-                char find = 0;
-                do {
-                    if (x->arr[i]) {
-                        find = 1;
-                        break;
-                    }
+                while (x != &ctx->root && !x->arr[i])
                     x = x->pfail;
-                } while(x != &ctx->root);
-                n->arr[i]->pfail = (find ? x->arr[i]: x);
-                stack[stackn++] = n->arr[i];
+                n->arr[i]->pfail = (n != &ctx->root && x->arr[i]) ? x->arr[i] : &ctx->root;
+                if (n->arr[i]->pfail->fendup)
+                    n->arr[i]->fendup = 1;
+                tail->next = n->arr[i];
+                tail = n->arr[i];
+                tail->next = NULL;
             }
         }
     }
diff --git a/src/common/aho_corasick.h b/src/common/aho_corasick.h
index 4a68b7b..889ef35 100755
--- a/src/common/aho_corasick.h
+++ b/src/common/aho_corasick.h
@@ -11,6 +11,7 @@ typedef struct ezac_node_t ezac_node_t;
 struct ezac_node_t {
     ezac_node_t * arr[EZAC_MAX];
     ezac_node_t * pfail;
+    ezac_node_t * next;
     char fendup:1;
 };
 typedef struct {    
-- 
2.43.0


From c6e3a6cdf815b1ce6e14ebc1e4ff32ce3d2beaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:22 +0000
Subject: [PATCH 68/79] fix: an empty key is no key

---
 src/common/aho_corasick.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/common/aho_corasick.c b/src/common/aho_corasick.c
index bd61502..768ae14 100755
--- a/src/common/aho_corasick.c
+++ b/src/common/aho_corasick.c
@@ -38,6 +38,7 @@ int ezac_add(ezac_ctx_t *ctx, char *data, int datan) {
     ezac_node_t *n = &ctx->root;
     int i = 0;
 
+    schk(datan > 0, return -1);
     for (i = 0; i < datan; i ++) {
         int idx = (unsigned char)data[i];
         if (!n->arr[idx]) {
-- 
2.43.0


From a6ae79d97d03e968c1c800c7f8527ddb411f4335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:22 +0000
Subject: [PATCH 69/79] fix: release any number of keys

---
 src/common/aho_corasick.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/common/aho_corasick.c b/src/common/aho_corasick.c
index 768ae14..deeb61d 100755
--- a/src/common/aho_corasick.c
+++ b/src/common/aho_corasick.c
@@ -1,17 +1,21 @@
 #include "common.h"
 
 int ezac_node_free(ezac_node_t *root) {
-    ezac_node_t *stack[4096] = {0};
-    int stackn = 0;
+    ezac_node_t *n = root;
+    ezac_node_t *tail = root;
     int i = 0;
 
-    stack[stackn++] = root;
-    while (stackn > 0) {
-        ezac_node_t * p = stack[--stackn];
+    root->next = NULL;
+    while (n) {
+        ezac_node_t * p = n;
         for (i = 0; i < EZAC_MAX; i++) {
-            if (p->arr[i])
-                stack[stackn++] = p->arr[i];
+            if (p->arr[i]) {
+                tail->next = p->arr[i];
+                tail = p->arr[i];
+                tail->next = NULL;
+            }
         }
+        n = p->next;
         if (p != root)
             sys_free(p);
     }
-- 
2.43.0


From 6a492bc009e7d4b7e5396c43d294593807f2ef60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:22 +0000
Subject: [PATCH 70/79] fix: survive an authorisation file with other entries
 than text or of full size

---
 src/app/tls_tunnel_s.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/app/tls_tunnel_s.c b/src/app/tls_tunnel_s.c
index 970c956..9d8c034 100755
--- a/src/app/tls_tunnel_s.c
+++ b/src/app/tls_tunnel_s.c
@@ -344,6 +344,10 @@ static int tls_tunnel_s_auth_fparse(meta_t *meta) {
         int i = 0;
         for (i = 0; i < cJSON_GetArraySize(root); i++) {
             cJSON * arrobj = cJSON_GetArrayItem(root, i);
+            if (!cJSON_GetStringValue(arrobj)) {
+                err("s5 srv auth entry is not a string\n");
+                continue;
+            }
             if (0 != ezac_add(g_ses_ctx->ac, cJSON_GetStringValue(arrobj), strlen(cJSON_GetStringValue(arrobj)))) {
                 err("s5 srv auth add ac err\n", cJSON_GetStringValue(arrobj));
             }
@@ -357,7 +361,7 @@ static int tls_tunnel_s_auth_fread(meta_t *meta) {
     ssize_t size = 0;
     int fd = open((char*)config_get()->s5_serv_auth_path, O_RDONLY);
     schk(fd > 0, return -1);
-    size = read(fd, meta->pos, meta_getfree(meta));
+    size = read(fd, meta->pos, meta_getfree(meta) - 1); /// keep the terminator
     close(fd);
     schk(size != -1, return -1);
     meta->last += size;
-- 
2.43.0


From 33e25e7d641cc73b6c37e01f24e02f86b54b55ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:22 +0000
Subject: [PATCH 71/79] fix: look for a text only inside the searched text

---
 src/common/sys_string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/sys_string.c b/src/common/sys_string.c
index bfc0b00..5c28c0e 100755
--- a/src/common/sys_string.c
+++ b/src/common/sys_string.c
@@ -9,7 +9,7 @@ unsigned char * l_find_str( unsigned char * str, uint32 strn, unsigned char * fi
     assert(findn > 0);
     assert(strn >= findn);
 
-    for(i = 0; i < strn; i ++) {
+    for(i = 0; i + findn <= strn; i ++) {
         if(str[i] == find[0]) {
             for(j = 0; j < findn; j ++) {
                 if(str[i+j] != find[j]) {
-- 
2.43.0


From 079ec23ac498bbdd1552f4ceef3f70827ed98ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:07 +0000
Subject: [PATCH 72/79] fix: leave no pid file behind when it cannot be written

---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index c2af9a1..b6f7fcc 100755
--- a/src/main.c
+++ b/src/main.c
@@ -38,7 +38,7 @@ int proc_pid_create()
     sprintf(str, "%d", getpid());
     int writen = write(fd, str, strlen(str));
     close(fd);
-    schk(writen == strlen(str), return -1);
+    schk(writen == strlen(str), {unlink(S5_PATH_PID); return -1;});
     return 0;
 }
 
-- 
2.43.0


From 1aef013bb2b4c8ba9c9095860a7dfe5037aaf547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:08 +0000
Subject: [PATCH 73/79] fix: do not use the text of a failed condition as a
 format

---
 src/common/macro.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/macro.h b/src/common/macro.h
index 273d648..f28266e 100755
--- a/src/common/macro.h
+++ b/src/common/macro.h
@@ -89,7 +89,7 @@ extern "C"
 /// improve compile performance
 #define LIKELY(x)  __builtin_expect(!!(x), 1)
 #define UNLIKELY(x)  __builtin_expect(!!(x), 0)
-#define schk(x, actions) if(UNLIKELY(!(x))) {err("schk assert failed. -> \""#x"\". [%d]\n", errno); actions;}
+#define schk(x, actions) if(UNLIKELY(!(x))) {err("schk assert failed. -> \"%s\". [%d]\n", #x, errno); actions;}
 #define sassert(x) schk(x, abort())
 
 
-- 
2.43.0


From 69085b08878d38d2dab58366b53ecf72283780b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:31:39 +0000
Subject: [PATCH 74/79] fix: send the rest of a file's last block before
 reading on

After a partial send of the last block the server read past the end of the
file, took that for an error and cut the answer short.
---
 src/app/webser.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/app/webser.c b/src/app/webser.c
index 9772380..86bea7d 100755
--- a/src/app/webser.c
+++ b/src/app/webser.c
@@ -195,8 +195,9 @@ static int webser_rsp_payload_send_ff(con_t *c) {
         }
         if (webc->fsend >= webc->fsize) 
             break;
-        if (meta_getlen(meta) == 0) 
-            meta_clr(meta);
+        if (meta_getlen(meta) > 0) ///what was read must be sent first
+            continue;
+        meta_clr(meta);
         
         if (meta_getfree(meta) > 0) {
             int readn = webc->fsize - webc->fsend;
-- 
2.43.0


From be547fbec1e65ab3920a655e1ee91d34e029d21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:00:54 +0000
Subject: [PATCH 75/79] fix: refuse a request with more headers than can be
 kept instead of ignoring the rest

---
 src/http/http_req.c | 6 ++++--
 src/http/http_req.h | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/http/http_req.c b/src/http/http_req.c
index 01bcb96..9f00b04 100755
--- a/src/http/http_req.c
+++ b/src/http/http_req.c
@@ -279,8 +279,10 @@ static int web_req_hdrs(con_t *c, web_req_t *req) {
             if (req->state == s_end) {
                 if (*p == LF) {
                     req->kvn ++;
-                    if (req->kvn > (REQ_KV_MAX - 1)) 
-                        req->kvn = REQ_KV_MAX - 1;
+                    if (req->kvn > (REQ_KV_MAX - 1)) {
+                        err("webreq too many headers\n");
+                        return -1;
+                    }
                     req->state = s_key_init;
                     continue;
                 } else {
diff --git a/src/http/http_req.h b/src/http/http_req.h
index 200d798..6c7bda9 100755
--- a/src/http/http_req.h
+++ b/src/http/http_req.h
@@ -6,7 +6,7 @@ extern "C"
 {
 #endif
 
-#define REQ_KV_MAX  16
+#define REQ_KV_MAX  32
 
 typedef struct web_req web_req_t;
 typedef int (*web_req_cb) (con_t * c, web_req_t * req);
-- 
2.43.0


From ab89d0a90b9f5f5253d1f41bbec34e7953fde5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:00:54 +0000
Subject: [PATCH 76/79] fix: keep the size of a served file in 64 bits

---
 src/app/webser.c | 12 ++++++------
 src/app/webser.h |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/app/webser.c b/src/app/webser.c
index 86bea7d..745e3ec 100755
--- a/src/app/webser.c
+++ b/src/app/webser.c
@@ -200,13 +200,13 @@ static int webser_rsp_payload_send_ff(con_t *c) {
         meta_clr(meta);
         
         if (meta_getfree(meta) > 0) {
-            int readn = webc->fsize - webc->fsend;
-            if (readn > meta_getfree(meta)) 
-                readn = meta_getfree(meta);
+            int readn = meta_getfree(meta);
+            if (readn > webc->fsize - webc->fsend) 
+                readn = webc->fsize - webc->fsend;
             readn = read(webc->ffd, meta->last, readn);
             if (readn <= 0) {
-                err("webserv rff err. [%d] [%d] [%d]\n",
-                    errno, webc->fsend, webc->fsize);
+                err("webserv rff err. [%d] [%lld] [%lld]\n",
+                    errno, (long long)webc->fsend, (long long)webc->fsize);
                 net_free(c);
                 return -1;
             }
@@ -333,7 +333,7 @@ int webser_rsp(con_t *c, int rcode, char *exthdr, void *payload, int payloadn) {
         schk(0 == webser_rsp_hdrp(c, "Server: s5\r\n"), break);
         schk(0 == webser_rsp_hdrp(c, "Date: %s\r\n", systime_gmt()), break);    
         schk(0 == webser_rsp_hdrp(c, "Connection: %s\r\n", webc->webreq->fkeepalive ? "keep-alive" : "close"), break);
-        schk(0 == webser_rsp_hdrp(c, "Content-Length: %d\r\n", (webc->type == WEBSER_FILE) ? webc->fsize : meta_getlens(webc->rsp_payload)), break);
+        schk(0 == webser_rsp_hdrp(c, "Content-Length: %lld\r\n", (webc->type == WEBSER_FILE) ? (long long)webc->fsize : (long long)meta_getlens(webc->rsp_payload)), break);
         if (exthdr) {
             schk(0 == webser_rsp_hdrp(c, "%s", exthdr), break);
         }
diff --git a/src/app/webser.h b/src/app/webser.h
index 96d9f30..ebec55c 100755
--- a/src/app/webser.h
+++ b/src/app/webser.h
@@ -25,8 +25,8 @@ typedef struct {
        
     // static file data
     int ffd;        // file fd  
-    int fsize;      // file allsize
-    int fsend;      // file sendsize
+    off_t fsize;    // file allsize
+    off_t fsend;    // file sendsize
 
     // api data
     webser_api_t * api;
-- 
2.43.0


From 8eb46a14cd4424b3acde4b6b6f930275533b40ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:33 +0000
Subject: [PATCH 77/79] fix: use a DNS reply only if it repeats the question
 that was asked

---
 src/dns/dns.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/dns/dns.c b/src/dns/dns.c
index 2885e3c..98edf97 100755
--- a/src/dns/dns.c
+++ b/src/dns/dns.c
@@ -236,6 +236,15 @@ int dns_response_recv(con_t *c) {
         return -1;
     }
 
+    /// the reply must repeat our question 
+    unsigned char qname[512] = {0};
+    if (dns_request_host2qname(dnsc->query, qname) != dnsc->qname_len || 
+        strncasecmp((char*)meta->pos + sizeof(dns_header_t), (char*)qname, dnsc->qname_len)) {
+        err("dns response question, not ours\n");
+        dns_async_result(dnsc, -1, NULL);
+        return -1;
+    }
+
     // make dns connection event invalidate
     return dns_response_analyze(c);
 }
-- 
2.43.0


From 6b80b9d86e5f74201439757612313992bc923530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:23:31 +0000
Subject: [PATCH 78/79] fix: refuse to start when more ports are configured
 than can be listened on

---
 src/common/listen.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/listen.c b/src/common/listen.c
index 188ca51..4a1c9ca 100755
--- a/src/common/listen.c
+++ b/src/common/listen.c
@@ -67,10 +67,10 @@ int listen_init(void) {
     
     
     for (i = 0; i < config_get()->http_num; i++)
-        listen_add(config_get()->http_arr[i], webser_accept_cb, S5_NOSSL);
+        schk(0 == listen_add(config_get()->http_arr[i], webser_accept_cb, S5_NOSSL), return -1);
     
     for (i = 0; i < config_get()->https_num; i++)
-        listen_add(config_get()->https_arr[i], webser_accept_cb_ssl, S5_SSL);
+        schk(0 == listen_add(config_get()->https_arr[i], webser_accept_cb_ssl, S5_SSL), return -1);
 
     schk(0 == listen_start(), return -1);
     return 0;
-- 
2.43.0


From f2970dc10cf645f87154cd956a820c4ab1a1d24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:08:28 +0000
Subject: [PATCH 79/79] fix: serve a short web request on a port shared with
 the tunnel

---
 src/app/webser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/app/webser.c b/src/app/webser.c
index 745e3ec..265bcbf 100755
--- a/src/app/webser.c
+++ b/src/app/webser.c
@@ -500,6 +500,8 @@ static int webser_transfer_to_tlstunnel(con_t *c) {
     /// try to recv TLS tunnel authorization header 
     meta = c->meta;
     while (meta_getlen(meta) < sizeof(tls_tunnel_auth_t)) {
+        if (meta_getlen(meta) >= sizeof(uint32_t) && htonl(TLS_TUNNEL_AUTH_MAGIC_NUM) != ((tls_tunnel_auth_t*)meta->pos)->magic)
+            break;  ///a short request is complete already
         rc = c->recv(c, meta->last, meta_getfree(meta));
         if (rc < 0) {
             if (rc == -11) {
-- 
2.43.0

