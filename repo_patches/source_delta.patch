From 20f89b0da96adcb396d3e80386b713e4d04a966e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:11 +0000
Subject: [PATCH 01/54] fix: forget the SASL and compression offers of the
 previous connection

sasl_support and compression.supported survived a reconnect, so mechanisms
(and stream compression) offered by the previous server could be requested
although the new one did not offer them.
---
 src/conn.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/conn.c b/src/conn.c
index f586a59..d0dab3b 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -2163,6 +2163,8 @@ static void _conn_reset(xmpp_conn_t *conn)
     conn->error = 0;
 
     conn->tls_support = 0;
+    conn->sasl_support = 0;
+    conn->compression.supported = 0;
 
     conn->bind_required = 0;
     conn->session_required = 0;
-- 
2.43.0


From f8729aa79e79e6a5a3ac6b317efc8d82ecddc6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:11 +0000
Subject: [PATCH 02/54] fix: a refused flag word must not change the
 connection's policy

xmpp_conn_set_flags() reported XMPP_EINVOP for unknown flags after it had
already overwritten every known one, e.g. dropping a previously configured
XMPP_CONN_FLAG_MANDATORY_TLS.
---
 src/conn.c | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index d0dab3b..52ddf66 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -1168,6 +1168,8 @@ long xmpp_conn_get_flags(const xmpp_conn_t *conn)
  */
 int xmpp_conn_set_flags(xmpp_conn_t *conn, long flags)
 {
+    long unknown;
+
     if (conn->state != XMPP_STATE_DISCONNECTED) {
         strophe_error(conn->ctx, "conn",
                       "Flags can be set only "
@@ -1180,6 +1182,16 @@ int xmpp_conn_set_flags(xmpp_conn_t *conn, long flags)
         strophe_error(conn->ctx, "conn", "Flags 0x%04lx conflict", flags);
         return XMPP_EINVOP;
     }
+    unknown =
+        flags & ~(XMPP_CONN_FLAG_DISABLE_TLS | XMPP_CONN_FLAG_MANDATORY_TLS |
+                  XMPP_CONN_FLAG_LEGACY_SSL | XMPP_CONN_FLAG_TRUST_TLS |
+                  XMPP_CONN_FLAG_LEGACY_AUTH | XMPP_CONN_FLAG_DISABLE_SM |
+                  XMPP_CONN_FLAG_ENABLE_COMPRESSION |
+                  XMPP_CONN_FLAG_COMPRESSION_DONT_RESET);
+    if (unknown) {
+        strophe_error(conn->ctx, "conn", "Flags 0x%04lx unknown", unknown);
+        return XMPP_EINVOP;
+    }
 
     conn->tls_disabled = (flags & XMPP_CONN_FLAG_DISABLE_TLS) ? 1 : 0;
     conn->tls_mandatory = (flags & XMPP_CONN_FLAG_MANDATORY_TLS) ? 1 : 0;
@@ -1191,16 +1203,6 @@ int xmpp_conn_set_flags(xmpp_conn_t *conn, long flags)
         (flags & XMPP_CONN_FLAG_ENABLE_COMPRESSION) ? 1 : 0;
     conn->compression.dont_reset =
         (flags & XMPP_CONN_FLAG_COMPRESSION_DONT_RESET) ? 1 : 0;
-    flags &= ~(XMPP_CONN_FLAG_DISABLE_TLS | XMPP_CONN_FLAG_MANDATORY_TLS |
-               XMPP_CONN_FLAG_LEGACY_SSL | XMPP_CONN_FLAG_TRUST_TLS |
-               XMPP_CONN_FLAG_LEGACY_AUTH | XMPP_CONN_FLAG_DISABLE_SM |
-               XMPP_CONN_FLAG_ENABLE_COMPRESSION |
-               XMPP_CONN_FLAG_COMPRESSION_DONT_RESET);
-    if (flags) {
-        strophe_error(conn->ctx, "conn", "Flags 0x%04lx unknown", flags);
-        return XMPP_EINVOP;
-    }
-
     return 0;
 }
 
-- 
2.43.0


From d097590e079234b51a6ee3da30bcbc9a30b2bf13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:11 +0000
Subject: [PATCH 03/54] fix: don't restart authentication when post-SASL
 features are missing

With compression allowed, the features of the stream opened after a
successful SASL exchange were guarded by the pre-authentication timer,
which authenticates once more instead of giving up.
---
 src/auth.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index a1bc3b5..078e6f6 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -976,7 +976,8 @@ static void _handle_open_compress(xmpp_conn_t *conn)
     /* setup stream:features handlers */
     handler_add(conn, _handle_features_compress, XMPP_NS_STREAMS, "features",
                 NULL, NULL);
-    handler_add_timed(conn, _handle_missing_features, FEATURES_TIMEOUT, NULL);
+    handler_add_timed(conn, _handle_missing_features_sasl, FEATURES_TIMEOUT,
+                      NULL);
 }
 
 static int _do_bind(xmpp_conn_t *conn, xmpp_stanza_t *bind)
@@ -1071,7 +1072,7 @@ static int _handle_features_compress(xmpp_conn_t *conn,
     xmpp_stanza_t *child;
 
     /* remove missing features handler */
-    xmpp_timed_handler_delete(conn, _handle_missing_features);
+    xmpp_timed_handler_delete(conn, _handle_missing_features_sasl);
 
     /* check for compression */
     child = xmpp_stanza_get_child_by_name_and_ns(stanza, "compression",
-- 
2.43.0


From 75e72d71ba3c5be4627099bfa8bf0b4f14a52e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:11 +0000
Subject: [PATCH 04/54] fix: only use stream management if this server offered
 it

sm_support was remembered from an earlier connection (or restored state)
and <resume/> was sent without looking at the offer at all.
---
 src/auth.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index 078e6f6..d8ad132 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -1135,16 +1135,16 @@ _handle_features_sasl(xmpp_conn_t *conn, xmpp_stanza_t *stanza, void *userdata)
     }
 
     /* Check stream-management support */
-    if (xmpp_stanza_get_child_by_name_and_ns(stanza, "sm", XMPP_NS_SM)) {
-        conn->sm_state->sm_support = 1;
-    }
+    conn->sm_state->sm_support =
+        xmpp_stanza_get_child_by_name_and_ns(stanza, "sm", XMPP_NS_SM) != NULL;
 
     /* We are expecting either <bind/> and optionally <session/> since this is a
        XMPP style connection or we <resume/> the previous session */
 
     /* Check whether we can <resume/> the previous session */
-    if (!conn->sm_disable && conn->sm_state->can_resume &&
-        conn->sm_state->previd && conn->sm_state->bound_jid) {
+    if (!conn->sm_disable && conn->sm_state->sm_support &&
+        conn->sm_state->can_resume && conn->sm_state->previd &&
+        conn->sm_state->bound_jid) {
         resume = xmpp_stanza_new(conn->ctx);
         if (!resume) {
             disconnect_mem_error(conn);
-- 
2.43.0


From da8b3c06976282f387604706df021a5578cd30ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:03 +0000
Subject: [PATCH 05/54] fix: only accept the SM answer that fits our request

<enabled/> in reply to <resume/> skipped resource binding and <resumed/>
in reply to <enable/> took over a session we didn't ask for.
---
 src/auth.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index d8ad132..ffaefd2 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -1231,6 +1231,7 @@ static void _sm_enable(xmpp_conn_t *conn)
         xmpp_stanza_set_attribute(enable, "resume", "true");
     handler_add(conn, _handle_sm, XMPP_NS_SM, NULL, NULL, NULL);
     send_stanza(conn, enable, XMPP_QUEUE_SM_STROPHE);
+    conn->sm_state->resume = 0;
     conn->sm_state->sm_sent_nr = 0;
     conn->sm_state->sm_enabled = 1;
     trigger_sm_callback(conn);
@@ -1399,7 +1400,7 @@ static int _handle_sm(xmpp_conn_t *const conn,
     if (!name)
         goto err_sm;
 
-    if (strcmp(name, "enabled") == 0) {
+    if (strcmp(name, "enabled") == 0 && !conn->sm_state->resume) {
         conn->sm_state->sm_handled_nr = 0;
         resume = xmpp_stanza_get_attribute(stanza, "resume");
         if (resume && (strcasecmp(resume, "true") || strcmp(resume, "1"))) {
@@ -1420,12 +1421,13 @@ static int _handle_sm(xmpp_conn_t *const conn,
          */
         _sm_queue_resend(conn);
         _stream_negotiation_success(conn);
-    } else if (strcmp(name, "resumed") == 0) {
+    } else if (strcmp(name, "resumed") == 0 && conn->sm_state->resume) {
         previd = xmpp_stanza_get_attribute(stanza, "previd");
-        if (!previd || strcmp(previd, conn->sm_state->previd)) {
+        if (!previd || !conn->sm_state->previd ||
+            strcmp(previd, conn->sm_state->previd)) {
             strophe_error(conn->ctx, "xmpp",
                           "SM error: previd didn't match, ours is \"%s\".",
-                          conn->sm_state->previd);
+                          STR_MAYBE_NULL(conn->sm_state->previd));
             name = NULL;
             goto err_sm;
         }
-- 
2.43.0


From f1fb0e6ccb79b5bd90d23715ce4a042ab721def1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:03 +0000
Subject: [PATCH 06/54] fix: handle <failed/> when there's no bind to fall back
 to

A refused <enable/> called _do_bind(conn, NULL).
---
 src/auth.c | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index ffaefd2..6356fec 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -1393,6 +1393,7 @@ static int _handle_sm(xmpp_conn_t *const conn,
     xmpp_stanza_t *failed_cause, *bind = NULL;
     const char *name, *id, *previd, *resume, *cause;
     unsigned long ul_h = 0;
+    int resuming;
 
     UNUSED(userdata);
 
@@ -1400,6 +1401,7 @@ static int _handle_sm(xmpp_conn_t *const conn,
     if (!name)
         goto err_sm;
 
+    resuming = conn->sm_state->resume;
     if (strcmp(name, "enabled") == 0 && !conn->sm_state->resume) {
         conn->sm_state->sm_handled_nr = 0;
         resume = xmpp_stanza_get_attribute(stanza, "resume");
@@ -1481,10 +1483,23 @@ static int _handle_sm(xmpp_conn_t *const conn,
              */
             conn->sm_state->dont_request_resume = 1;
         }
-        bind = conn->sm_state->bind;
-        conn->sm_state->bind = NULL;
+        if (resuming) {
+            bind = conn->sm_state->bind;
+            conn->sm_state->bind = NULL;
+        }
         reset_sm_state(conn->sm_state);
-        _do_bind(conn, bind);
+        if (!resuming) {
+            /* the stream is already bound, go on without stream management */
+            _sm_queue_resend(conn);
+            _stream_negotiation_success(conn);
+        } else if (bind) {
+            _do_bind(conn, bind);
+        } else {
+            strophe_error(conn->ctx, "xmpp",
+                          "Session can't be resumed and stream features "
+                          "does not allow resource bind.");
+            xmpp_disconnect(conn);
+        }
     } else {
         /* unknown stanza received */
         name = NULL;
-- 
2.43.0


From e4749aee80a56fe51de5ea0c05a99dae4a8beb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:03 +0000
Subject: [PATCH 07/54] fix: keep stanzas the server didn't report when
 resumption fails

The check of the return value of _get_h_attribute() was inverted, so a
valid 'h' dropped the entire queue.
---
 src/auth.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index 6356fec..0680d3a 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -1469,9 +1469,9 @@ static int _handle_sm(xmpp_conn_t *const conn,
                  * but if there is, it gives a hint at what the server
                  * already received.
                  */
-                if (!_get_h_attribute(stanza, &ul_h)) {
-                    /* In cases there's no `h` included, drop all elements. */
-                    ul_h = (unsigned long)-1;
+                if (_get_h_attribute(stanza, &ul_h)) {
+                    /* In cases there's no `h` included, keep all elements. */
+                    ul_h = 0;
                 }
                 _sm_queue_cleanup(conn, ul_h);
             }
-- 
2.43.0


From 1527e70394496601d07c8b16da9341b35ca7a0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:03 +0000
Subject: [PATCH 08/54] fix: continue counting from the first retransmitted
 stanza

sm_sent_nr was taken from the head of the queue before the stanzas already
handled by the server were removed from it.
---
 src/auth.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/auth.c b/src/auth.c
index 0680d3a..cf4ae1b 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -1442,11 +1442,11 @@ static int _handle_sm(xmpp_conn_t *const conn,
         conn->sm_state->previd = NULL;
         conn->bound_jid = conn->sm_state->bound_jid;
         conn->sm_state->bound_jid = NULL;
+        _sm_queue_cleanup(conn, ul_h);
         if (conn->sm_state->sm_queue.head)
             conn->sm_state->sm_sent_nr = conn->sm_state->sm_queue.head->sm_h;
         else
             conn->sm_state->sm_sent_nr = ul_h;
-        _sm_queue_cleanup(conn, ul_h);
         _sm_queue_resend(conn);
         strophe_debug(conn->ctx, "xmpp", "Session resumed successfully.");
         _stream_negotiation_success(conn);
-- 
2.43.0


From c378cca43c390562c0a9d84933fdae0114bb81cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:03 +0000
Subject: [PATCH 09/54] fix: SM resumption is only possible if the current
 session allows it

The condition on the 'resume' attribute was always true, and can_resume of
a previous session was kept while its id was gone.
---
 src/auth.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/auth.c b/src/auth.c
index cf4ae1b..e065e68 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -1233,6 +1233,8 @@ static void _sm_enable(xmpp_conn_t *conn)
     send_stanza(conn, enable, XMPP_QUEUE_SM_STROPHE);
     conn->sm_state->resume = 0;
     conn->sm_state->sm_sent_nr = 0;
+    conn->sm_state->can_resume = 0;
+    strophe_free_and_null(conn->ctx, conn->sm_state->id);
     conn->sm_state->sm_enabled = 1;
     trigger_sm_callback(conn);
 }
@@ -1405,7 +1407,7 @@ static int _handle_sm(xmpp_conn_t *const conn,
     if (strcmp(name, "enabled") == 0 && !conn->sm_state->resume) {
         conn->sm_state->sm_handled_nr = 0;
         resume = xmpp_stanza_get_attribute(stanza, "resume");
-        if (resume && (strcasecmp(resume, "true") || strcmp(resume, "1"))) {
+        if (resume && (!strcasecmp(resume, "true") || !strcmp(resume, "1"))) {
             id = xmpp_stanza_get_attribute(stanza, "id");
             if (!id) {
                 strophe_error(conn->ctx, "xmpp",
-- 
2.43.0


From b6973c086877ca8535a90d992aecbf0ba8c2da80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:03 +0000
Subject: [PATCH 10/54] fix: stream management is off until re-enabled after a
 failed resume

The bind request ended up in the SM queue and was sent again when SM got
enabled later on.
---
 src/auth.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index e065e68..f0e3197 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -1528,8 +1528,10 @@ err_sm:
                      buf);
         if (buf != err)
             strophe_free(conn->ctx, buf);
-        /* Don't disable for <failure> cases, they're no hard errors */
-        conn->sm_state->sm_enabled = bind != NULL;
+        /* not enabled in any of these cases, what's sent from here on belongs
+         * to a session without (or with a new) stream management
+         */
+        conn->sm_state->sm_enabled = 0;
     }
     return 0;
 }
-- 
2.43.0


From 96dbd38331a193674acf7602bbce26a6ab79c4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:03 +0000
Subject: [PATCH 11/54] fix: don't wait forever after an unusable SM answer

---
 src/auth.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index f0e3197..fbe1099 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -1395,7 +1395,7 @@ static int _handle_sm(xmpp_conn_t *const conn,
     xmpp_stanza_t *failed_cause, *bind = NULL;
     const char *name, *id, *previd, *resume, *cause;
     unsigned long ul_h = 0;
-    int resuming;
+    int resuming, failed = 0;
 
     UNUSED(userdata);
 
@@ -1454,16 +1454,14 @@ static int _handle_sm(xmpp_conn_t *const conn,
         _stream_negotiation_success(conn);
     } else if (strcmp(name, "failed") == 0) {
         name = NULL;
+        failed = 1;
         conn->sm_state->sm_enabled = 0;
 
         failed_cause =
             xmpp_stanza_get_child_by_ns(stanza, XMPP_NS_STANZAS_IETF);
-        if (!failed_cause)
-            goto err_sm;
-
-        cause = xmpp_stanza_get_name(failed_cause);
+        cause = failed_cause ? xmpp_stanza_get_name(failed_cause) : NULL;
         if (!cause)
-            goto err_sm;
+            cause = "";
 
         if (!strcmp(cause, "item-not-found")) {
             if (conn->sm_state->resume) {
@@ -1532,6 +1530,10 @@ err_sm:
          * to a session without (or with a new) stream management
          */
         conn->sm_state->sm_enabled = 0;
+        if (!failed) {
+            /* there's no way to go on from here */
+            xmpp_disconnect(conn);
+        }
     }
     return 0;
 }
-- 
2.43.0


From aac376a171982569a4315a4c741a6aa07da324d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:32 +0000
Subject: [PATCH 12/54] fix: raw mode ends with the connection it was requested
 for

A client or component connection on the same object skipped authentication.
---
 src/conn.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/conn.c b/src/conn.c
index 52ddf66..cb480a4 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -805,8 +805,17 @@ int xmpp_connect_raw(xmpp_conn_t *conn,
                      xmpp_conn_handler callback,
                      void *userdata)
 {
+    int rc;
+
+    if (conn->state != XMPP_STATE_DISCONNECTED)
+        return XMPP_EINVOP;
+
     conn->is_raw = 1;
-    return xmpp_connect_client(conn, altdomain, altport, callback, userdata);
+    rc = xmpp_connect_client(conn, altdomain, altport, callback, userdata);
+    if (rc != XMPP_EOK)
+        conn->is_raw = 0;
+
+    return rc;
 }
 
 /* Called when tcp connection is established. */
@@ -928,6 +937,7 @@ void conn_disconnect(xmpp_conn_t *conn)
     if (conn->sock != INVALID_SOCKET)
         sock_close(conn->sock);
     _reset_sm_state_for_reconnect(conn);
+    conn->is_raw = 0;
 
     /* fire off connection handler */
     conn->conn_handler(conn, XMPP_CONN_DISCONNECT, conn->error,
-- 
2.43.0


From 5674ded1c690b52ecb6bbeabd4bcdace1824c499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:32 +0000
Subject: [PATCH 13/54] fix: never notify about one disconnect twice

e.g. when TLS fails and </stream:stream> is in the same read buffer.
---
 src/conn.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/conn.c b/src/conn.c
index cb480a4..2437ef2 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -926,6 +926,10 @@ void conn_disconnect_clean(xmpp_conn_t *conn)
  */
 void conn_disconnect(xmpp_conn_t *conn)
 {
+    /* the user has been notified already */
+    if (conn->state == XMPP_STATE_DISCONNECTED)
+        return;
+
     strophe_debug(conn->ctx, "xmpp", "Closing socket.");
     conn->state = XMPP_STATE_DISCONNECTED;
     conn->stream_negotiation_completed = 0;
-- 
2.43.0


From e19a415a709666fc40d5f4f7ea4a62ec834add5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:32 +0000
Subject: [PATCH 14/54] fix: components need an SM state, too

All send, receive and disconnect code paths access it unconditionally.
---
 src/conn.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/conn.c b/src/conn.c
index 2437ef2..de9a271 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -766,6 +766,14 @@ int xmpp_connect_component(xmpp_conn_t *conn,
         return XMPP_EINT;
     }
 
+    if (!conn->sm_state) {
+        conn->sm_state = strophe_alloc(conn->ctx, sizeof(*conn->sm_state));
+        if (!conn->sm_state)
+            return XMPP_EMEM;
+        memset(conn->sm_state, 0, sizeof(*conn->sm_state));
+        conn->sm_state->ctx = conn->ctx;
+    }
+
     port = port ? port : _conn_default_port(conn, XMPP_COMPONENT);
     if (conn->xsock)
         sock_free(conn->xsock);
-- 
2.43.0


From 1b9236a93b2a6576d4a00405569d9fa6abea312a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:32 +0000
Subject: [PATCH 15/54] fix: SM state serialisation without SM state, id or
 memory

---
 src/conn.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index de9a271..8249a1a 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -1513,6 +1513,11 @@ static size_t sm_state_serialize(xmpp_conn_t *conn, unsigned char **buf)
         return 0;
     }
 
+    if (!conn->sm_state->id) {
+        *buf = NULL;
+        return 0;
+    }
+
     uint32_t id_len = strlen(conn->sm_state->id);
     xmpp_send_queue_t *peek = conn->sm_state->sm_queue.head;
     size_t sm_queue_len = 0;
@@ -1594,13 +1599,13 @@ static size_t sm_state_serialize(xmpp_conn_t *conn, unsigned char **buf)
 
 err_serialize:
     strophe_error(conn->ctx, "conn", "Can't serialize more data, buffer full");
-    strophe_free(conn->ctx, buf);
+    strophe_free_and_null(conn->ctx, *buf);
     return 0;
 }
 
 void trigger_sm_callback(xmpp_conn_t *conn)
 {
-    if (!conn || !conn->sm_callback)
+    if (!conn || !conn->sm_callback || !conn->sm_state)
         return;
 
     unsigned char *buf;
-- 
2.43.0


From d24e2c75eef97fc1d575447447f1b97015fd3f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:32 +0000
Subject: [PATCH 16/54] fix: unlink the sent element from its successor in the
 send queue

Dropping the new head wrote to the freed (or SM-queued) element.
---
 src/event.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/event.c b/src/event.c
index 56d0a24..0c2d97b 100644
--- a/src/event.c
+++ b/src/event.c
@@ -174,6 +174,8 @@ void xmpp_run_once(xmpp_ctx_t *ctx, unsigned long timeout)
             /* if we've sent everything update the tail */
             if (!sq)
                 conn->send_queue_tail = NULL;
+            else
+                sq->prev = NULL;
             trigger_sm_callback(conn);
         }
         intf->flush(intf);
-- 
2.43.0


From 5da4b65f2b65d99fc6fab101f1bd96abc6a29b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:56 +0000
Subject: [PATCH 17/54] fix: don't forget the SM session when a reconnect
 attempt fails

previd was dropped and bound_jid leaked when the connection ended before the
session could be resumed.
---
 src/conn.c | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index 8249a1a..9f2d065 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -1618,21 +1618,19 @@ static void _reset_sm_state_for_reconnect(xmpp_conn_t *conn)
 {
     xmpp_sm_state_t *s = conn->sm_state;
 
-    if (s->previd) {
+    if (!s->can_resume) {
+        strophe_free_and_null(conn->ctx, s->previd);
+        strophe_free_and_null(conn->ctx, s->bound_jid);
+        strophe_free_and_null(conn->ctx, s->id);
+    } else if (s->id) {
         strophe_free(conn->ctx, s->previd);
-        s->previd = NULL;
-    }
-
-    if (s->can_resume) {
         s->previd = s->id;
         s->id = NULL;
 
+        strophe_free(conn->ctx, s->bound_jid);
         s->bound_jid = conn->bound_jid;
         conn->bound_jid = NULL;
-    } else if (s->id) {
-        strophe_free(conn->ctx, s->id);
-        s->id = NULL;
-    }
+    } /* else: the previous session wasn't resumed yet */
 
     s->r_sent = s->sm_enabled = s->sm_support = s->resume = 0;
 
-- 
2.43.0


From bfa40ae952fb3ec32492a684022452c94db18e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:56 +0000
Subject: [PATCH 18/54] fix: stanzas without namespace are no stream management
 elements

---
 src/conn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conn.c b/src/conn.c
index 9f2d065..3677e9e 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -2077,7 +2077,7 @@ static void _conn_sm_handle_stanza(xmpp_conn_t *const conn,
     unsigned long ul_h;
 
     ns = xmpp_stanza_get_ns(stanza);
-    if (ns && strcmp(ns, XMPP_NS_SM) != 0)
+    if (!ns || strcmp(ns, XMPP_NS_SM) != 0)
         ++conn->sm_state->sm_handled_nr;
     else {
         name = xmpp_stanza_get_name(stanza);
-- 
2.43.0


From 04009c703d7564e4ac0ae8370f7f995fa2363aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:56 +0000
Subject: [PATCH 19/54] fix: an unparsable 'h' doesn't acknowledge anything

---
 src/conn.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index 3677e9e..588b36f 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -2105,10 +2105,8 @@ static void _conn_sm_handle_stanza(xmpp_conn_t *const conn,
                     conn->ctx, "conn",
                     "Error on strtoul() of '%s', returned value is %llu.",
                     attr_h, ul_h);
-                /* We continue here and drop the complete SM queue instead of
-                 * returning and letting the queue fill up.
-                 */
-                ul_h = ULONG_MAX;
+                /* Nothing was acknowledged, but keep on asking */
+                ul_h = 0;
             }
             while (conn->sm_state->sm_queue.head &&
                    conn->sm_state->sm_queue.head->sm_h < ul_h) {
-- 
2.43.0


From ab9c90145787ff87e27e9537253eb9dceaf4c2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:28 +0000
Subject: [PATCH 20/54] fix: don't lose retransmissions when the connection is
 lost again

They were taken out of the SM queue and discarded with the send queue.
---
 src/auth.c |  2 +-
 src/conn.c | 29 ++++++++++++++++++++++++++++-
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index fbe1099..68cf08d 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -1383,7 +1383,7 @@ static void _sm_queue_resend(xmpp_conn_t *conn)
          */
         strophe_debug_verbose(2, conn->ctx, "conn", "SM_Q_RESEND: %p, h=%lu", e,
                               e->sm_h);
-        send_raw(conn, e->data, e->len, e->owner, NULL);
+        send_raw(conn, e->data, e->len, e->owner, conn->sm_state);
         strophe_free(conn->ctx, queue_element_free(conn->ctx, e));
     }
 }
diff --git a/src/conn.c b/src/conn.c
index 588b36f..8c96e34 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -81,6 +81,7 @@
 
 static int _is_connected(xmpp_conn_t *conn, xmpp_send_queue_owner_t owner);
 static int _disconnect_cleanup(xmpp_conn_t *conn, void *userdata);
+static void _sm_queue_restore(xmpp_conn_t *conn);
 static void _reset_sm_state_for_reconnect(xmpp_conn_t *conn);
 static char *_conn_build_stream_tag(xmpp_conn_t *conn,
                                     char **attributes,
@@ -948,6 +949,7 @@ void conn_disconnect(xmpp_conn_t *conn)
     }
     if (conn->sock != INVALID_SOCKET)
         sock_close(conn->sock);
+    _sm_queue_restore(conn);
     _reset_sm_state_for_reconnect(conn);
     conn->is_raw = 0;
 
@@ -1760,7 +1762,7 @@ int xmpp_conn_send_queue_len(const xmpp_conn_t *conn)
         return conn->send_queue_user_len;
 }
 
-static char *_drop_send_queue_element(xmpp_conn_t *conn, xmpp_send_queue_t *e)
+static void _unlink_send_queue_element(xmpp_conn_t *conn, xmpp_send_queue_t *e)
 {
     if (e == conn->send_queue_head)
         conn->send_queue_head = e->next;
@@ -1775,9 +1777,34 @@ static char *_drop_send_queue_element(xmpp_conn_t *conn, xmpp_send_queue_t *e)
     conn->send_queue_len--;
     if (e->owner == XMPP_QUEUE_USER)
         conn->send_queue_user_len--;
+}
+
+static char *_drop_send_queue_element(xmpp_conn_t *conn, xmpp_send_queue_t *e)
+{
+    _unlink_send_queue_element(conn, e);
     return queue_element_free(conn->ctx, e);
 }
 
+/* Retransmissions which didn't make it to the server are still unacknowledged,
+ * they go back to the SM queue when the connection is lost.
+ */
+static void _sm_queue_restore(xmpp_conn_t *conn)
+{
+    xmpp_send_queue_t *e, *next;
+
+    for (e = conn->send_queue_head; e; e = next) {
+        next = e->next;
+        if (!e->userdata || e->userdata != conn->sm_state)
+            continue;
+        _unlink_send_queue_element(conn, e);
+        e->written = 0;
+        e->wip = 0;
+        e->userdata = NULL;
+        e->sm_h = conn->sm_state->sm_sent_nr++;
+        add_queue_back(&conn->sm_state->sm_queue, e);
+    }
+}
+
 /** Drop an element of the send queue.
  *  This can be used to manage the send queue in case a server
  *  isn't fast enough in processing the elements you're trying
-- 
2.43.0


From c6e6570ed1600392e7e9ec41553edbd68c0f64f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:37 +0000
Subject: [PATCH 21/54] fix: don't read beyond the end of the SM state to
 restore

---
 src/conn.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index 8c96e34..b94c5c8 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -1313,6 +1313,11 @@ struct sm_restore {
 
 static int sm_load_u32(struct sm_restore *sm, uint8_t type, uint32_t *val)
 {
+    if (sm->state_end - sm->state < 5) {
+        strophe_error(sm->conn->ctx, "conn",
+                      "Provided sm_state data is too short");
+        return XMPP_EINVOP;
+    }
     if (*sm->state != type) {
         strophe_error(
             sm->conn->ctx, "conn",
@@ -1321,11 +1326,6 @@ static int sm_load_u32(struct sm_restore *sm, uint8_t type, uint32_t *val)
         return XMPP_EINVOP;
     }
     sm->state++;
-    if ((sm->state + 4) > sm->state_end) {
-        strophe_error(sm->conn->ctx, "conn",
-                      "Provided sm_state data is too short");
-        return XMPP_EINVOP;
-    }
     uint32_t v;
     memcpy(&v, sm->state, 4);
     sm->state += 4;
@@ -1339,12 +1339,12 @@ static int sm_load_string(struct sm_restore *sm, char **val, size_t *len)
     int ret = sm_load_u32(sm, 0x7a, &l);
     if (ret)
         return ret;
-    if ((sm->state + l) > sm->state_end) {
+    if (l > (size_t)(sm->state_end - sm->state)) {
         strophe_error(sm->conn->ctx, "conn",
                       "Provided sm_state data is too short");
         return XMPP_EINVOP;
     }
-    *val = strophe_alloc(sm->conn->ctx, l + 1);
+    *val = strophe_alloc(sm->conn->ctx, (size_t)l + 1);
     if (!*val)
         return XMPP_EMEM;
     memcpy(*val, sm->state, l);
-- 
2.43.0


From 2bf7c281fdbd28f07b4abd12c3ef7fb889628aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:37 +0000
Subject: [PATCH 22/54] fix: restore a usable send queue, or nothing at all

The prev links were missing. On error the freed SM state and partially
restored elements were left behind.
---
 src/conn.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/conn.c b/src/conn.c
index b94c5c8..1dff2a0 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -81,6 +81,7 @@
 
 static int _is_connected(xmpp_conn_t *conn, xmpp_send_queue_owner_t owner);
 static int _disconnect_cleanup(xmpp_conn_t *conn, void *userdata);
+static char *_drop_send_queue_element(xmpp_conn_t *conn, xmpp_send_queue_t *e);
 static void _sm_queue_restore(xmpp_conn_t *conn);
 static void _reset_sm_state_for_reconnect(xmpp_conn_t *conn);
 static char *_conn_build_stream_tag(xmpp_conn_t *conn,
@@ -1437,7 +1438,6 @@ int xmpp_conn_restore_sm_state(xmpp_conn_t *conn,
     ret = sm_load_u32(&sm, 0x9a, &len);
     if (ret)
         goto err_reload;
-    conn->send_queue_user_len = conn->send_queue_len = len;
     for (i = 0; i < len; i++) {
         xmpp_send_queue_t *item = strophe_alloc(conn->ctx, sizeof(*item));
         if (!item) {
@@ -1450,9 +1450,12 @@ int xmpp_conn_restore_sm_state(xmpp_conn_t *conn,
             conn->send_queue_head = item;
             conn->send_queue_tail = item;
         } else {
+            item->prev = conn->send_queue_tail;
             conn->send_queue_tail->next = item;
             conn->send_queue_tail = item;
         }
+        conn->send_queue_len++;
+        conn->send_queue_user_len++;
 
         ret = sm_load_string(&sm, &item->data, &item->len);
         if (ret)
@@ -1487,7 +1490,11 @@ int xmpp_conn_restore_sm_state(xmpp_conn_t *conn,
     return XMPP_EOK;
 
 err_reload:
+    while (conn->send_queue_head)
+        strophe_free(conn->ctx,
+                     _drop_send_queue_element(conn, conn->send_queue_head));
     xmpp_free_sm_state(conn->sm_state);
+    conn->sm_state = NULL;
     return ret;
 }
 
-- 
2.43.0


From cca6e5e292e4458f1c3f34064ecd20407b6a4730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:37 +0000
Subject: [PATCH 23/54] fix: refuse SM states with trailing bytes or a bogus id

---
 src/conn.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/conn.c b/src/conn.c
index 1dff2a0..968167e 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -1487,6 +1487,12 @@ int xmpp_conn_restore_sm_state(xmpp_conn_t *conn,
         item->owner = XMPP_QUEUE_USER;
     }
 
+    if (sm.state != sm.state_end || strlen(conn->sm_state->id) != id_len) {
+        strophe_error(conn->ctx, "conn", "Invalid sm_state data");
+        ret = XMPP_EINVOP;
+        goto err_reload;
+    }
+
     return XMPP_EOK;
 
 err_reload:
-- 
2.43.0


From 5e843e9ab18d62ed8cf3c3c957c6f86a7529493f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:37 +0000
Subject: [PATCH 24/54] fix: don't request acks before SM is enabled

A restored SM state was treated as enabled from the stream header on.
---
 src/conn.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/conn.c b/src/conn.c
index 968167e..0888d57 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -2198,6 +2198,10 @@ static void _conn_reset(xmpp_conn_t *conn)
 
     compression_free(conn);
 
+    /* a restored SM state isn't enabled before the server agreed to it */
+    if (conn->sm_state)
+        _reset_sm_state_for_reconnect(conn);
+
     conn->intf = sock_intf;
     conn->intf.conn = conn;
 
-- 
2.43.0


From 25eefbd309200baf230c78fa81384c0ee5183b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:13 +0000
Subject: [PATCH 25/54] fix: handlers may be deleted while handlers are being
 called

Deleting the running or another handler, or reconnecting from inside of a
handler, left the dispatch loops with dangling pointers. Timed handlers were
called after the connection was terminated and a stanza handler added by an
id handler saw the stanza being dispatched.
---
 src/common.h  |   2 +
 src/handler.c | 109 ++++++++++++++++++++++++++++++++++++--------------
 2 files changed, 81 insertions(+), 30 deletions(-)

diff --git a/src/common.h b/src/common.h
index a367367..b458ee0 100644
--- a/src/common.h
+++ b/src/common.h
@@ -88,6 +88,8 @@ struct _xmpp_ctx_t {
     xmpp_loop_status_t loop_status;
     xmpp_connlist_t *connlist;
     xmpp_handlist_t *timed_handlers;
+    /* handler lists that are being processed right now */
+    struct _handler_cursor_t *cursors;
 
     unsigned long timeout;
 };
diff --git a/src/handler.c b/src/handler.c
index 0577252..a2146e1 100644
--- a/src/handler.c
+++ b/src/handler.c
@@ -25,6 +25,42 @@
 #include "common.h"
 #include "ostypes.h"
 
+/* Position of a running handler_fire_*() in a list. It's adjusted when items
+ * are deleted from inside of a handler, which includes the handler itself. */
+struct _handler_cursor_t {
+    xmpp_handlist_t *item; /* the running handler, NULL if it was deleted */
+    xmpp_handlist_t *next; /* the item to continue with */
+    struct _handler_cursor_t *outer;
+};
+
+static void _cursor_set(xmpp_ctx_t *ctx,
+                        struct _handler_cursor_t *cursor,
+                        xmpp_handlist_t *item)
+{
+    cursor->item = item;
+    cursor->next = item->next;
+    cursor->outer = ctx->cursors;
+    ctx->cursors = cursor;
+}
+
+static void _cursor_unset(xmpp_ctx_t *ctx)
+{
+    ctx->cursors = ctx->cursors->outer;
+}
+
+static void _item_free(xmpp_ctx_t *ctx, xmpp_handlist_t *item)
+{
+    struct _handler_cursor_t *cursor;
+
+    for (cursor = ctx->cursors; cursor; cursor = cursor->outer) {
+        if (cursor->item == item)
+            cursor->item = NULL;
+        if (cursor->next == item)
+            cursor->next = item->next;
+    }
+    strophe_free(ctx, item);
+}
+
 /* Remove item from the list pointed by head, but don't free it.
  * There can be a situation when user's handler deletes another handler which
  * is the previous in the list. handler_fire_stanza() and handler_fire_timed()
@@ -53,7 +89,7 @@ static void _free_handlist_item(xmpp_ctx_t *ctx, xmpp_handlist_t *item)
         strophe_free(ctx, item->u.name);
     if (item->u.type)
         strophe_free(ctx, item->u.type);
-    strophe_free(ctx, item);
+    _item_free(ctx, item);
 }
 
 /** Fire off all stanza handlers that match.
@@ -65,10 +101,15 @@ static void _free_handlist_item(xmpp_ctx_t *ctx, xmpp_handlist_t *item)
  */
 void handler_fire_stanza(xmpp_conn_t *conn, xmpp_stanza_t *stanza)
 {
-    xmpp_handlist_t *item, *next, *head, *head_old;
+    xmpp_handlist_t *item, *head, *head_old;
+    struct _handler_cursor_t cursor;
     const char *id, *ns, *name, *type;
     int ret;
 
+    /* enable all added handlers */
+    for (item = conn->handlers; item; item = item->next)
+        item->enabled = 1;
+
     /* call id handlers */
     id = xmpp_stanza_get_id(stanza);
     if (id) {
@@ -87,10 +128,14 @@ void handler_fire_stanza(xmpp_conn_t *conn, xmpp_stanza_t *stanza)
                 continue;
             }
 
+            _cursor_set(conn->ctx, &cursor, item);
             ret = ((xmpp_handler)(item->handler))(conn, stanza, item->userdata);
-            next = item->next;
-            if (!ret) {
+            _cursor_unset(conn->ctx);
+            /* list may be changed during execution of a handler */
+            item = cursor.item;
+            if (!ret && item) {
                 /* handler is one-shot, so delete it */
+                head = (xmpp_handlist_t *)hash_get(conn->id_handlers, id);
                 head_old = head;
                 _handler_item_remove(&head, item);
                 if (head != head_old) {
@@ -98,9 +143,9 @@ void handler_fire_stanza(xmpp_conn_t *conn, xmpp_stanza_t *stanza)
                     hash_add(conn->id_handlers, id, head);
                 }
                 strophe_free(conn->ctx, item->u.id);
-                strophe_free(conn->ctx, item);
+                _item_free(conn->ctx, item);
             }
-            item = next;
+            item = cursor.next;
         }
     }
 
@@ -109,10 +154,6 @@ void handler_fire_stanza(xmpp_conn_t *conn, xmpp_stanza_t *stanza)
     name = xmpp_stanza_get_name(stanza);
     type = xmpp_stanza_get_type(stanza);
 
-    /* enable all added handlers */
-    for (item = conn->handlers; item; item = item->next)
-        item->enabled = 1;
-
     item = conn->handlers;
     while (item) {
         /* don't fire user handlers until stream negotiation has completed and
@@ -123,22 +164,24 @@ void handler_fire_stanza(xmpp_conn_t *conn, xmpp_stanza_t *stanza)
             continue;
         }
 
-        next = item->next;
+        cursor.next = item->next;
         if ((!item->u.ns || (ns && strcmp(ns, item->u.ns) == 0) ||
              xmpp_stanza_get_child_by_ns(stanza, item->u.ns)) &&
             (!item->u.name || (name && strcmp(name, item->u.name) == 0)) &&
             (!item->u.type || (type && strcmp(type, item->u.type) == 0))) {
 
+            _cursor_set(conn->ctx, &cursor, item);
             ret = ((xmpp_handler)(item->handler))(conn, stanza, item->userdata);
+            _cursor_unset(conn->ctx);
             /* list may be changed during execution of a handler */
-            next = item->next;
-            if (!ret) {
+            item = cursor.item;
+            if (!ret && item) {
                 /* handler is one-shot, so delete it */
                 _handler_item_remove(&conn->handlers, item);
                 _free_handlist_item(conn->ctx, item);
             }
         }
-        item = next;
+        item = cursor.next;
     }
 }
 
@@ -152,7 +195,8 @@ void handler_fire_stanza(xmpp_conn_t *conn, xmpp_stanza_t *stanza)
 uint64_t handler_fire_timed(xmpp_ctx_t *ctx)
 {
     xmpp_connlist_t *connitem;
-    xmpp_handlist_t *item, *next;
+    xmpp_handlist_t *item;
+    struct _handler_cursor_t cursor;
     xmpp_conn_t *conn;
     uint64_t elapsed, min;
     uint64_t timestamp;
@@ -173,7 +217,8 @@ uint64_t handler_fire_timed(xmpp_ctx_t *ctx)
             item->enabled = 1;
 
         item = conn->timed_handlers;
-        while (item) {
+        /* a handler may terminate the connection */
+        while (item && conn->state == XMPP_STATE_CONNECTED) {
             /* don't fire user handlers until stream negotiation has completed
                and skip newly added handlers */
             if ((item->user_handler && !conn->stream_negotiation_completed) ||
@@ -182,24 +227,26 @@ uint64_t handler_fire_timed(xmpp_ctx_t *ctx)
                 continue;
             }
 
-            next = item->next;
+            cursor.next = item->next;
             timestamp = time_stamp();
             elapsed = time_elapsed(item->u.last_stamp, timestamp);
             if (elapsed >= item->u.period) {
                 /* fire! */
                 item->u.last_stamp = timestamp;
+                _cursor_set(ctx, &cursor, item);
                 ret = ((xmpp_timed_handler)item->handler)(conn, item->userdata);
+                _cursor_unset(ctx);
                 /* list may be changed during execution of a handler */
-                next = item->next;
-                if (!ret) {
+                item = cursor.item;
+                if (!ret && item) {
                     /* delete handler if it returned false */
                     _handler_item_remove(&conn->timed_handlers, item);
-                    strophe_free(ctx, item);
+                    _item_free(ctx, item);
                 }
             } else if (min > (item->u.period - elapsed))
                 min = item->u.period - elapsed;
 
-            item = next;
+            item = cursor.next;
         }
 
         connitem = connitem->next;
@@ -212,25 +259,27 @@ uint64_t handler_fire_timed(xmpp_ctx_t *ctx)
      */
     item = ctx->timed_handlers;
     while (item) {
-        next = item->next;
+        cursor.next = item->next;
         timestamp = time_stamp();
         elapsed = time_elapsed(item->u.last_stamp, timestamp);
         if (elapsed >= item->u.period) {
             /* fire! */
             item->u.last_stamp = timestamp;
+            _cursor_set(ctx, &cursor, item);
             ret =
                 ((xmpp_global_timed_handler)item->handler)(ctx, item->userdata);
+            _cursor_unset(ctx);
             /* list may be changed during execution of a handler */
-            next = item->next;
-            if (!ret) {
+            item = cursor.item;
+            if (!ret && item) {
                 /* delete handler if it returned false */
                 _handler_item_remove(&ctx->timed_handlers, item);
-                strophe_free(ctx, item);
+                _item_free(ctx, item);
             }
         } else if (min > (item->u.period - elapsed))
             min = item->u.period - elapsed;
 
-        item = next;
+        item = cursor.next;
     }
 
     return min;
@@ -302,7 +351,7 @@ static void _timed_handler_delete(xmpp_ctx_t *ctx,
         item = *handlers_list;
         if (item->handler == handler) {
             *handlers_list = item->next;
-            strophe_free(ctx, item);
+            _item_free(ctx, item);
         } else {
             handlers_list = &item->next;
         }
@@ -400,7 +449,7 @@ void xmpp_id_handler_delete(xmpp_conn_t *conn,
             }
 
             strophe_free(conn->ctx, item->u.id);
-            strophe_free(conn->ctx, item);
+            _item_free(conn->ctx, item);
             item = next;
         } else {
             prev = item;
@@ -673,7 +722,7 @@ void handler_system_delete_all(xmpp_conn_t *conn)
         if (!item->user_handler) {
             next = item->next;
             _handler_item_remove(&conn->timed_handlers, item);
-            strophe_free(conn->ctx, item);
+            _item_free(conn->ctx, item);
             item = next;
         } else
             item = item->next;
@@ -689,7 +738,7 @@ void handler_system_delete_all(xmpp_conn_t *conn)
                 next = item->next;
                 _handler_item_remove(&head, item);
                 strophe_free(conn->ctx, item->u.id);
-                strophe_free(conn->ctx, item);
+                _item_free(conn->ctx, item);
                 item = next;
             } else
                 item = item->next;
-- 
2.43.0


From 9e88af6eac0346faf0da2fc30c9d3ebc6d1f4d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:25 +0000
Subject: [PATCH 26/54] fix: a recoverable read error doesn't mean the socket
 is closed

Also don't look for an error of a connection which was closed while
reading, the TLS object is gone.
---
 src/event.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/event.c b/src/event.c
index 0c2d97b..49ea2ff 100644
--- a/src/event.c
+++ b/src/event.c
@@ -320,14 +320,14 @@ next_item:
                         xmpp_send_error(conn, XMPP_SE_INVALID_XML,
                                         "parse error");
                     }
-                } else {
+                } else if (conn->state == XMPP_STATE_CONNECTED) {
                     int err = intf->get_error(intf);
                     if (!intf->error_is_recoverable(intf, err)) {
                         strophe_debug(ctx, "xmpp", "Unrecoverable error: %d.",
                                       err);
                         conn->error = err;
                         conn_disconnect(conn);
-                    } else if (!conn->tls) {
+                    } else if (ret == 0 && !conn->tls) {
                         /* return of 0 means socket closed by server */
                         strophe_debug(ctx, "xmpp",
                                       "Socket closed by remote host.");
-- 
2.43.0


From fdd2998b6d58ab949e2dfe4759404a0b6fd094c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:25 +0000
Subject: [PATCH 27/54] fix: don't lose decompressed data, don't treat missing
 output as EOF

A fragment that inflates to nothing was reported as 0, i.e. connection
closed. When the output buffer was filled up exactly the rest of the
output was stuck until more data arrived.
---
 src/compression.c | 48 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 31 insertions(+), 17 deletions(-)

diff --git a/src/compression.c b/src/compression.c
index b1a2c3a..5c0edd3 100644
--- a/src/compression.c
+++ b/src/compression.c
@@ -33,6 +33,8 @@ struct xmpp_compression {
     xmpp_conn_t *conn;
     struct zlib_compression compression, decompression;
     struct conn_interface next;
+    /* the last read didn't return anything, but the connection isn't closed */
+    int more_input;
 };
 
 static int _conn_decompress(struct xmpp_compression *comp,
@@ -52,38 +54,49 @@ static int _conn_decompress(struct xmpp_compression *comp,
     comp->decompression.stream.next_out = buff;
     comp->decompression.stream.avail_out = len;
     int ret = inflate(&comp->decompression.stream, Z_SYNC_FLUSH);
+    size_t produced = comp->decompression.stream.next_out - (Bytef *)buff;
     switch (ret) {
     case Z_STREAM_END:
+        if (produced == 0)
+            break;
+        /* fall through */
     case Z_OK:
+    case Z_BUF_ERROR:
+        /* there may be more output if the entire buffer was used */
         if (comp->decompression.buffer_end ==
-            comp->decompression.stream.next_in)
+                comp->decompression.stream.next_in &&
+            comp->decompression.stream.avail_out > 0)
             comp->decompression.stream.next_in = NULL;
-        return comp->decompression.stream.next_out - (Bytef *)buff;
-    case Z_BUF_ERROR:
-        break;
+        return produced;
     default:
-        strophe_error(comp->conn->ctx, "zlib", "inflate error %d", ret);
-        comp->conn->error = ret;
-        conn_disconnect(comp->conn);
         break;
     }
-    return 0;
+    strophe_error(comp->conn->ctx, "zlib", "inflate error %d", ret);
+    comp->conn->error = ret == Z_STREAM_END ? ECONNRESET : ret;
+    conn_disconnect(comp->conn);
+    return -1;
 }
 
 static int compression_read(struct conn_interface *intf, void *buff, size_t len)
 {
     xmpp_conn_t *conn = intf->conn;
     struct xmpp_compression *comp = conn->compression.state;
-    void *dbuff = buff;
-    size_t dlen = len;
+    int ret;
+    comp->more_input = 0;
     if (comp->decompression.stream.next_in != NULL) {
-        return _conn_decompress(comp, 0, buff, len);
+        ret = _conn_decompress(comp, 0, buff, len);
+        if (ret != 0)
+            return ret;
     }
-    dbuff = comp->decompression.buffer;
-    dlen = STROPHE_COMPRESSION_BUFFER_SIZE;
-    int ret = comp->next.read(intf, dbuff, dlen);
+    ret = comp->next.read(intf, comp->decompression.buffer,
+                          STROPHE_COMPRESSION_BUFFER_SIZE);
     if (ret > 0) {
-        return _conn_decompress(comp, ret, buff, len);
+        ret = _conn_decompress(comp, ret, buff, len);
+        if (ret == 0) {
+            /* 0 would mean that the connection is closed */
+            comp->more_input = 1;
+            return -1;
+        }
     }
     return ret;
 }
@@ -175,8 +188,9 @@ static int compression_get_error(struct conn_interface *intf)
 
 static int compression_is_recoverable(struct conn_interface *intf, int err)
 {
-    struct conn_interface *next = &intf->conn->compression.state->next;
-    return next->error_is_recoverable(next, err);
+    struct xmpp_compression *comp = intf->conn->compression.state;
+    struct conn_interface *next = &comp->next;
+    return comp->more_input || next->error_is_recoverable(next, err);
 }
 
 static const struct conn_interface compression_intf = {
-- 
2.43.0


From d521d5e623bc8186218a7bd2c34790a4a1ae21a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:14 +0000
Subject: [PATCH 28/54] fix: compression with partial writes

If the transport accepted only a part of the compressed data the rest was
thrown away, if it accepted nothing the data consumed so far was passed to
deflate() again. Flush until there's no output left, and let the event
loop terminate the connection on errors as other writers do.
---
 src/compression.c | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/src/compression.c b/src/compression.c
index 5c0edd3..0640d4b 100644
--- a/src/compression.c
+++ b/src/compression.c
@@ -101,10 +101,11 @@ static int compression_read(struct conn_interface *intf, void *buff, size_t len)
     return ret;
 }
 
+/* Returns 0 or the result of a failed write. */
 static int _try_compressed_write_to_network(xmpp_conn_t *conn, int force)
 {
     struct xmpp_compression *comp = conn->compression.state;
-    int ret = 0;
+    int ret;
     ptrdiff_t len =
         comp->compression.stream.next_out - (Bytef *)comp->compression.buffer;
     int buffer_full =
@@ -113,25 +114,30 @@ static int _try_compressed_write_to_network(xmpp_conn_t *conn, int force)
         ret = conn_interface_write(&comp->next, comp->compression.buffer, len);
         if (ret < 0)
             return ret;
-        comp->compression.stream.next_out = comp->compression.buffer;
-        comp->compression.stream.avail_out = STROPHE_COMPRESSION_BUFFER_SIZE;
+        /* keep what couldn't be sent now */
+        len -= ret;
+        if (ret > 0 && len > 0)
+            memmove(comp->compression.buffer,
+                    (Bytef *)comp->compression.buffer + ret, len);
+        comp->compression.stream.next_out =
+            (Bytef *)comp->compression.buffer + len;
+        comp->compression.stream.avail_out =
+            STROPHE_COMPRESSION_BUFFER_SIZE - len;
     }
-    return ret;
+    return 0;
 }
 
 static int
 _compression_write(xmpp_conn_t *conn, const void *buff, size_t len, int flush)
 {
     int ret;
-    const void *buff_end = buff + len;
     struct xmpp_compression *comp = conn->compression.state;
     comp->compression.stream.next_in = (Bytef *)buff;
     comp->compression.stream.avail_in = len;
     do {
         ret = _try_compressed_write_to_network(conn, 0);
-        if (ret < 0) {
-            return ret;
-        }
+        if (ret < 0 || comp->compression.stream.avail_out == 0)
+            break;
 
         ret = deflate(&comp->compression.stream, flush);
         if (ret == Z_STREAM_END) {
@@ -142,19 +148,19 @@ _compression_write(xmpp_conn_t *conn, const void *buff, size_t len, int flush)
         }
         if (ret != Z_OK) {
             strophe_error(conn->ctx, "zlib", "deflate error %d", ret);
+            /* event loop terminates the connection */
             conn->error = ret;
-            conn_disconnect(conn);
-            return ret;
+            return -1;
         }
-        ret = comp->compression.stream.next_in - (Bytef *)buff;
-    } while (comp->compression.stream.next_in < (Bytef *)buff_end);
+        ret = 0;
+    } while (flush ? comp->compression.stream.avail_out == 0
+                   : comp->compression.stream.avail_in > 0);
     if (flush) {
-        ret = _try_compressed_write_to_network(conn, 1);
-        if (ret < 0) {
-            return ret;
-        }
+        return _try_compressed_write_to_network(conn, 1);
     }
-    return ret;
+    /* consumed data mustn't be passed again */
+    len -= comp->compression.stream.avail_in;
+    return ret < 0 && len == 0 ? ret : (int)len;
 }
 
 static int
-- 
2.43.0


From 17494de4a2706bc3edb6ab1ef70478bf787120dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:14 +0000
Subject: [PATCH 29/54] fix: free state of the compression

---
 src/compression.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/compression.c b/src/compression.c
index 0640d4b..a20a647 100644
--- a/src/compression.c
+++ b/src/compression.c
@@ -280,6 +280,7 @@ void compression_free(xmpp_conn_t *conn)
         inflateEnd(&comp->decompression.stream);
         strophe_free_and_null(conn->ctx, comp->decompression.buffer);
     }
+    strophe_free_and_null(conn->ctx, conn->compression.state);
 }
 
 void compression_handle_feature_children(xmpp_conn_t *conn, const char *text)
-- 
2.43.0


From 58d09824c8363585aa0a7ed00f115aa33a6d7fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:14 +0000
Subject: [PATCH 30/54] fix: don't use a queue element dropped from inside of
 the SM callback

---
 src/event.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/event.c b/src/event.c
index 49ea2ff..36dcde0 100644
--- a/src/event.c
+++ b/src/event.c
@@ -177,6 +177,8 @@ void xmpp_run_once(xmpp_ctx_t *ctx, unsigned long timeout)
             else
                 sq->prev = NULL;
             trigger_sm_callback(conn);
+            /* elements may be dropped from inside of the callback */
+            sq = conn->send_queue_head;
         }
         intf->flush(intf);
 
-- 
2.43.0


From 9deaa284f4e4e03892757b76722bea4bf7d1e927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:07 +0000
Subject: [PATCH 31/54] fix: don't wait for the socket if there's decompressed
 data to process

---
 src/event.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/event.c b/src/event.c
index 36dcde0..607212a 100644
--- a/src/event.c
+++ b/src/event.c
@@ -102,7 +102,7 @@ void xmpp_run_once(xmpp_ctx_t *ctx, unsigned long timeout)
     char buf[STROPHE_MESSAGE_BUFFER_SIZE];
     uint64_t next;
     uint64_t usec;
-    int tls_read_bytes = 0;
+    int pending = 0;
 
     if (ctx->loop_status == XMPP_LOOP_QUIT)
         return;
@@ -241,6 +241,9 @@ next_item:
             FD_SET(conn->sock, &rfds);
             if (conn->send_queue_len > 0)
                 FD_SET(conn->sock, &wfds);
+            /* Check if there is something in the SSL or decompression
+             * buffer. */
+            pending |= intf->pending(intf);
             break;
         case XMPP_STATE_DISCONNECTED:
             /* do nothing */
@@ -248,16 +251,16 @@ next_item:
             break;
         }
 
-        /* Check if there is something in the SSL buffer. */
-        if (conn->tls)
-            tls_read_bytes += tls_pending(intf);
-
         if (conn->state != XMPP_STATE_DISCONNECTED && conn->sock > max)
             max = conn->sock;
 
         connitem = connitem->next;
     }
 
+    /* don't wait if there's something to process already */
+    if (pending)
+        tv.tv_sec = tv.tv_usec = 0;
+
     /* check for events */
     if (max > 0)
         ret = select(max + 1, &rfds, &wfds, NULL, &tv);
@@ -276,7 +279,7 @@ next_item:
     }
 
     /* no events happened */
-    if (ret == 0 && tls_read_bytes == 0)
+    if (ret == 0 && !pending)
         return;
 
     /* process events */
-- 
2.43.0


From d5c3a2a910d6d5ecbfbb8ffa970295cb0cdf5a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:32 +0000
Subject: [PATCH 32/54] fix: terminate connection on a parse error

The parser can't continue after an error, i.e. the connection was neither
usable nor terminated. Also the buffer isn't NUL-terminated, don't print
it as a string.
---
 src/event.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/event.c b/src/event.c
index 607212a..d71e714 100644
--- a/src/event.c
+++ b/src/event.c
@@ -321,9 +321,11 @@ next_item:
                 if (ret > 0) {
                     ret = parser_feed(conn->parser, buf, ret);
                     if (!ret) {
-                        strophe_debug(ctx, "xmpp", "parse error [%s]", buf);
+                        strophe_debug(ctx, "xmpp", "parse error");
                         xmpp_send_error(conn, XMPP_SE_INVALID_XML,
                                         "parse error");
+                        /* the parser can't recover from an error */
+                        xmpp_disconnect(conn);
                     }
                 } else if (conn->state == XMPP_STATE_CONNECTED) {
                     int err = intf->get_error(intf);
-- 
2.43.0


From e6fc5513cd9c2f879125c9d08e57604f206e72ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:45 +0000
Subject: [PATCH 33/54] fix: don't crash on a stream error without children

Also check if the allocation of the stream error has failed.
---
 src/auth.c | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index 68cf08d..37b0b87 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -123,17 +123,13 @@ _handle_error(xmpp_conn_t *conn, xmpp_stanza_t *stanza, void *userdata)
     conn->stream_error = (xmpp_stream_error_t *)strophe_alloc(
         conn->ctx, sizeof(xmpp_stream_error_t));
 
-    conn->stream_error->text = NULL;
-    conn->stream_error->type = XMPP_SE_UNDEFINED_CONDITION;
-
     if (conn->stream_error) {
-        child = xmpp_stanza_get_children(stanza);
-        do {
-            const char *ns = NULL;
+        conn->stream_error->text = NULL;
+        conn->stream_error->type = XMPP_SE_UNDEFINED_CONDITION;
 
-            if (child) {
-                ns = xmpp_stanza_get_ns(child);
-            }
+        for (child = xmpp_stanza_get_children(stanza); child;
+             child = xmpp_stanza_get_next(child)) {
+            const char *ns = xmpp_stanza_get_ns(child);
 
             if (ns && strcmp(ns, XMPP_NS_STREAMS_IETF) == 0) {
                 name = xmpp_stanza_get_name(child);
@@ -190,7 +186,7 @@ _handle_error(xmpp_conn_t *conn, xmpp_stanza_t *stanza, void *userdata)
                 else if (strcmp(name, "xml-not-well-formed") == 0)
                     conn->stream_error->type = XMPP_SE_XML_NOT_WELL_FORMED;
             }
-        } while ((child = xmpp_stanza_get_next(child)));
+        }
 
         conn->stream_error->stanza = xmpp_stanza_clone(stanza);
     }
-- 
2.43.0


From 286ca1ccb08ad0afd810b533050abc535e2047f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 34/54] fix: don't count stream errors as stanzas in stream
 management

---
 src/conn.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index 0888d57..70badcd 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -2117,9 +2117,11 @@ static void _conn_sm_handle_stanza(xmpp_conn_t *const conn,
     unsigned long ul_h;
 
     ns = xmpp_stanza_get_ns(stanza);
-    if (!ns || strcmp(ns, XMPP_NS_SM) != 0)
-        ++conn->sm_state->sm_handled_nr;
-    else {
+    if (!ns || strcmp(ns, XMPP_NS_SM) != 0) {
+        /* stream errors are no stanzas, the server doesn't count them */
+        if (!ns || strcmp(ns, XMPP_NS_STREAMS) != 0)
+            ++conn->sm_state->sm_handled_nr;
+    } else {
         name = xmpp_stanza_get_name(stanza);
         if (!name)
             return;
-- 
2.43.0


From b1d6aa6bc0f3c65fde08eeff4bace646c412c91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:11 +0000
Subject: [PATCH 35/54] fix: queue raw data bytewise instead of up to the first
 NUL

---
 src/conn.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index 70badcd..469554f 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -2298,11 +2298,14 @@ void send_raw(xmpp_conn_t *conn,
     if (conn->state != XMPP_STATE_CONNECTED)
         return;
 
-    d = strophe_strndup(conn->ctx, data, len);
+    /* raw data isn't necessarily a string, copy all the bytes */
+    d = strophe_alloc(conn->ctx, len + 1);
     if (!d) {
-        strophe_error(conn->ctx, "conn", "Failed to strndup");
+        strophe_error(conn->ctx, "conn", "Failed to allocate memory");
         return;
     }
+    memcpy(d, data, len);
+    d[len] = '\0';
 
     _send_raw(conn, d, len, owner, userdata);
 }
-- 
2.43.0


From 1355ead35b5178c53888678ad2a2d67f6b7fc95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:25 +0000
Subject: [PATCH 36/54] fix: count the elements of a refused SM state correctly

---
 src/conn.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index 469554f..488259b 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -1445,6 +1445,7 @@ int xmpp_conn_restore_sm_state(xmpp_conn_t *conn,
             goto err_reload;
         }
         memset(item, 0, sizeof(*item));
+        item->owner = XMPP_QUEUE_USER;
 
         if (!conn->send_queue_tail) {
             conn->send_queue_head = item;
@@ -1460,8 +1461,6 @@ int xmpp_conn_restore_sm_state(xmpp_conn_t *conn,
         ret = sm_load_string(&sm, &item->data, &item->len);
         if (ret)
             goto err_reload;
-
-        item->owner = XMPP_QUEUE_USER;
     }
 
     ret = sm_load_u32(&sm, 0xba, &len);
-- 
2.43.0


From a12972694bae09a12ee634e461e4a08aeba95bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:24 +0000
Subject: [PATCH 37/54] fix: refuse base64 with padding in the middle

---
 src/crypto.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/crypto.c b/src/crypto.c
index 779263f..1e0c3ed 100644
--- a/src/crypto.c
+++ b/src/crypto.c
@@ -374,7 +374,8 @@ static void base64_decode(xmpp_ctx_t *ctx,
             *d++ = (word & 0x0000FF00) >> 8;
             *d++ = (word & 0x000000FF);
         }
-        if (hextet > 64)
+        /* only the last quartet may contain padding */
+        if (i != (dlen % 3 ? len - 4 : len))
             goto _base64_decode_error;
         /* handle the remainder */
         switch (dlen % 3) {
-- 
2.43.0


From f9591db5922804741288cf1b29af6335fe3678f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:55 +0000
Subject: [PATCH 38/54] fix: don't disconnect when writing nothing with
 compression

---
 src/compression.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/compression.c b/src/compression.c
index a20a647..71f5505 100644
--- a/src/compression.c
+++ b/src/compression.c
@@ -166,6 +166,9 @@ _compression_write(xmpp_conn_t *conn, const void *buff, size_t len, int flush)
 static int
 compression_write(struct conn_interface *intf, const void *buff, size_t len)
 {
+    /* zlib treats a call without input as an error */
+    if (len == 0)
+        return 0;
     return _compression_write(intf->conn, buff, len, Z_NO_FLUSH);
 }
 
-- 
2.43.0


From 0c1441c6b496662954561f35a9aa41f426b87783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:15 +0000
Subject: [PATCH 39/54] fix: don't accept any certificate if the expected name
 can't be set

---
 src/tls_openssl.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/tls_openssl.c b/src/tls_openssl.c
index 641ca6c..ce8aae2 100644
--- a/src/tls_openssl.c
+++ b/src/tls_openssl.c
@@ -726,7 +726,13 @@ tls_t *tls_new(xmpp_conn_t *conn)
          */
         X509_VERIFY_PARAM_set_hostflags(param,
                                         X509_CHECK_FLAG_NO_PARTIAL_WILDCARDS);
-        X509_VERIFY_PARAM_set1_host(param, conn->domain, 0);
+        /* An empty name would match every certificate. */
+        if ((!conn->domain || conn->domain[0] == '\0' ||
+             X509_VERIFY_PARAM_set1_host(param, conn->domain, 0) == 0) &&
+            !conn->tls_trust) {
+            strophe_error(tls->ctx, "tls", "Couldn't set the expected name");
+            goto err_free_ssl;
+        }
 #endif
 
         ret = SSL_set_fd(tls->ssl, conn->sock);
-- 
2.43.0


From e0904711cbbfb9ca12ff3be5dd7d943e3a9284be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:38 +0000
Subject: [PATCH 40/54] fix: check the name in the server's certificate with
 GnuTLS

---
 src/tls_gnutls.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tls_gnutls.c b/src/tls_gnutls.c
index a6c14cb..bf97dbc 100644
--- a/src/tls_gnutls.c
+++ b/src/tls_gnutls.c
@@ -377,7 +377,8 @@ static int _tls_verify(gnutls_session_t session)
     if (gnutls_certificate_type_get(session) != GNUTLS_CRT_X509)
         return -1;
 
-    if (gnutls_certificate_verify_peers2(session, &status) < 0) {
+    if (gnutls_certificate_verify_peers3(session, tls->conn->domain, &status) <
+        0) {
         strophe_error(tls->ctx, "tls", "Verify peers failed");
         return -1;
     }
-- 
2.43.0


From ba65ba2375899905ae0706e12ec420e3f6e65ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:37 +0000
Subject: [PATCH 41/54] fix: resolver: accept answers whose last record is
 short

---
 src/resolver.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/resolver.c b/src/resolver.c
index 028320a..ea2d772 100644
--- a/src/resolver.c
+++ b/src/resolver.c
@@ -452,12 +452,13 @@ static int resolver_raw_srv_lookup_buf(xmpp_ctx_t *ctx,
         if (name_len == 0)
             return XMPP_DOMAIN_NOT_FOUND;
         j += name_len;
-        BUF_OVERFLOW_CHECK(j + 16, len);
+        BUF_OVERFLOW_CHECK(j + 9, len);
         type = xmpp_ntohs_ptr(&buf[j]);
         class = xmpp_ntohs_ptr(&buf[j + 2]);
         rdlength = xmpp_ntohs_ptr(&buf[j + 8]);
         j += 10;
         if (type == MESSAGE_T_SRV && class == MESSAGE_C_IN) {
+            BUF_OVERFLOW_CHECK(j + 6, len);
             rr = resolver_srv_rr_new(ctx, NULL, 0, 0, 0);
             if (rr) {
                 rr->next = *srv_rr_list;
-- 
2.43.0


From d4862545d7c13f97f52549a1c0d7d7801e7288d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:01 +0000
Subject: [PATCH 42/54] fix: resolver: no trailing dot when a name ends in a
 pointer to the root

---
 src/resolver.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/resolver.c b/src/resolver.c
index ea2d772..fb2d34e 100644
--- a/src/resolver.c
+++ b/src/resolver.c
@@ -359,6 +359,10 @@ static unsigned message_name_get(const unsigned char *buf,
                 name_max > name_len ? name_max - name_len : 0);
             if (rc == 0)
                 return 0;
+            /* A pointer to the root adds nothing behind the last dot. */
+            if (name != NULL && name_len > 0 && name_len < name_max &&
+                name[name_len] == '\0')
+                name[name_len - 1] = '\0';
             /* Pointer is always the last. */
             break;
 
-- 
2.43.0


From 6e323921441898aba175d9365f388ba93ce116fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:23 +0000
Subject: [PATCH 43/54] fix: keep going after an SRV target that has no
 addresses

---
 src/sock.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sock.c b/src/sock.c
index 90b0431..caff7b1 100644
--- a/src/sock.c
+++ b/src/sock.c
@@ -212,10 +212,10 @@ sock_t sock_connect(xmpp_sock_t *xsock)
     char buf[64];
 
     do {
-        if (!xsock->ainfo_cur) {
+        /* Skip targets that don't resolve to any address. */
+        while (!xsock->ainfo_cur && xsock->srv_rr_cur) {
             sock_getaddrinfo(xsock);
-            if (xsock->srv_rr_cur)
-                xsock->srv_rr_cur = xsock->srv_rr_cur->next;
+            xsock->srv_rr_cur = xsock->srv_rr_cur->next;
         }
         if (!xsock->ainfo_cur) {
             /* We tried all available addresses. */
-- 
2.43.0


From a27c573242d121250915b7754398fabf4eb076f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:54 +0000
Subject: [PATCH 44/54] fix: refuse to connect before replacing the candidates
 of a connection in use

---
 src/conn.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/conn.c b/src/conn.c
index 488259b..6b06111 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -668,6 +668,10 @@ int xmpp_connect_client(xmpp_conn_t *conn,
     char *domain;
     int rc;
 
+    /* Don't touch the candidates of a connection that is in use. */
+    if (conn->state != XMPP_STATE_DISCONNECTED)
+        return XMPP_EINVOP;
+
     if (!conn->jid && (conn->tls_client_cert || conn->tls_client_key)) {
         if (tls_id_on_xmppaddr_num(conn) != 1) {
             strophe_debug(conn->ctx, "xmpp",
@@ -758,6 +762,10 @@ int xmpp_connect_component(xmpp_conn_t *conn,
     if (!(server && conn->jid && conn->pass))
         return XMPP_EINVOP;
 
+    /* Don't touch the candidates of a connection that is in use. */
+    if (conn->state != XMPP_STATE_DISCONNECTED)
+        return XMPP_EINVOP;
+
     /* XEP-0114 does not support TLS */
     (void)xmpp_conn_set_flags(conn, xmpp_conn_get_flags(conn) |
                                         XMPP_CONN_FLAG_DISABLE_TLS);
-- 
2.43.0


From 3e5bf1d99cf1ea74d34874a22f2e53cfb10cf2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:00 +0000
Subject: [PATCH 45/54] fix: parser_reset: forget the size of the discarded
 text

---
 src/parser_expat.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser_expat.c b/src/parser_expat.c
index c1d1d38..2c25758 100644
--- a/src/parser_expat.c
+++ b/src/parser_expat.c
@@ -352,6 +352,8 @@ int parser_reset(parser_t *parser)
         strophe_free(parser->ctx, parser->inner_text);
         parser->inner_text = NULL;
     }
+    parser->inner_text_size = 0;
+    parser->inner_text_used = 0;
 
     if (!parser->expat)
         return 0;
-- 
2.43.0


From 1559d4f487fd5a5876c6445e4295860de9e335f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:50 +0000
Subject: [PATCH 46/54] fix: name the not-well-formed stream error as RFC 6120
 does

---
 src/auth.c   | 3 ++-
 src/stanza.c | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index 37b0b87..f4bb1c9 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -183,7 +183,8 @@ _handle_error(xmpp_conn_t *conn, xmpp_stanza_t *stanza, void *userdata)
                     conn->stream_error->type = XMPP_SE_UNSUPPORTED_STANZA_TYPE;
                 else if (strcmp(name, "unsupported-version") == 0)
                     conn->stream_error->type = XMPP_SE_UNSUPPORTED_VERSION;
-                else if (strcmp(name, "xml-not-well-formed") == 0)
+                else if (strcmp(name, "not-well-formed") == 0 ||
+                         strcmp(name, "xml-not-well-formed") == 0)
                     conn->stream_error->type = XMPP_SE_XML_NOT_WELL_FORMED;
             }
         }
diff --git a/src/stanza.c b/src/stanza.c
index 6c6d6df..f0f92ab 100644
--- a/src/stanza.c
+++ b/src/stanza.c
@@ -1593,7 +1593,7 @@ xmpp_error_new(xmpp_ctx_t *ctx, xmpp_error_type_t type, const char *text)
         xmpp_stanza_set_name(error_type, "unsupported-version");
         break;
     case XMPP_SE_XML_NOT_WELL_FORMED:
-        xmpp_stanza_set_name(error_type, "xml-not-well-formed");
+        xmpp_stanza_set_name(error_type, "not-well-formed");
         break;
     default:
         xmpp_stanza_set_name(error_type, "internal-server-error");
-- 
2.43.0


From b15bbb9ea80494ca9a53c0dcd1761f3cfcb920e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:11 +0000
Subject: [PATCH 47/54] fix: detach children that outlive their parent

---
 src/stanza.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/stanza.c b/src/stanza.c
index f0f92ab..aa3d578 100644
--- a/src/stanza.c
+++ b/src/stanza.c
@@ -179,6 +179,8 @@ int xmpp_stanza_release(xmpp_stanza_t *stanza)
             tchild = child;
             child = child->next;
             tchild->next = NULL;
+            tchild->prev = NULL;
+            tchild->parent = NULL;
             xmpp_stanza_release(tchild);
         }
 
-- 
2.43.0


From 8061450385c0349c3370fdf4eddef7bfc24dc8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:01 +0000
Subject: [PATCH 48/54] fix: release the parts of an error reply once when it
 cannot be finished

---
 src/stanza.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/stanza.c b/src/stanza.c
index aa3d578..51b26fa 100644
--- a/src/stanza.c
+++ b/src/stanza.c
@@ -1312,7 +1312,6 @@ xmpp_stanza_t *xmpp_stanza_reply_error(xmpp_stanza_t *stanza,
         goto quit_err;
     if (xmpp_stanza_add_child(reply, error) != XMPP_EOK)
         goto quit_err;
-    xmpp_stanza_release(error);
 
     item = xmpp_stanza_new(ctx);
     if (!item)
@@ -1323,9 +1322,9 @@ xmpp_stanza_t *xmpp_stanza_reply_error(xmpp_stanza_t *stanza,
         goto quit_err;
     if (xmpp_stanza_add_child(error, item) != XMPP_EOK)
         goto quit_err;
-    xmpp_stanza_release(item);
 
     if (text) {
+        xmpp_stanza_release(item);
         item = xmpp_stanza_new(ctx);
         if (!item)
             goto quit_err;
@@ -1335,7 +1334,6 @@ xmpp_stanza_t *xmpp_stanza_reply_error(xmpp_stanza_t *stanza,
             goto quit_err;
         if (xmpp_stanza_add_child(error, item) != XMPP_EOK)
             goto quit_err;
-        xmpp_stanza_release(item);
         text_stanza = xmpp_stanza_new(ctx);
         if (!text_stanza)
             goto quit_err;
@@ -1345,6 +1343,8 @@ xmpp_stanza_t *xmpp_stanza_reply_error(xmpp_stanza_t *stanza,
             goto quit_err;
         xmpp_stanza_release(text_stanza);
     }
+    xmpp_stanza_release(item);
+    xmpp_stanza_release(error);
 
     return reply;
 
-- 
2.43.0


From 49a3888c477f6bb126ddec3d61bb8b984a157ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:29 +0000
Subject: [PATCH 49/54] fix: keep the name or text of a stanza until it has
 been replaced

---
 src/stanza.c | 41 ++++++++++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/src/stanza.c b/src/stanza.c
index 51b26fa..01e520e 100644
--- a/src/stanza.c
+++ b/src/stanza.c
@@ -501,16 +501,23 @@ int xmpp_stanza_to_text(xmpp_stanza_t *stanza, char **buf, size_t *buflen)
  */
 int xmpp_stanza_set_name(xmpp_stanza_t *stanza, const char *name)
 {
+    char *data;
+
     if (stanza->type == XMPP_STANZA_TEXT)
         return XMPP_EINVOP;
 
+    /* name may be the current name of the stanza */
+    data = strophe_strdup(stanza->ctx, name);
+    if (!data)
+        return XMPP_EMEM;
+
     if (stanza->data)
         strophe_free(stanza->ctx, stanza->data);
 
     stanza->type = XMPP_STANZA_TAG;
-    stanza->data = strophe_strdup(stanza->ctx, name);
+    stanza->data = data;
 
-    return stanza->data == NULL ? XMPP_EMEM : XMPP_EOK;
+    return XMPP_EOK;
 }
 
 /** Get the stanza name.
@@ -721,16 +728,23 @@ int xmpp_stanza_add_child(xmpp_stanza_t *stanza, xmpp_stanza_t *child)
  */
 int xmpp_stanza_set_text(xmpp_stanza_t *stanza, const char *text)
 {
+    char *data;
+
     if (stanza->type == XMPP_STANZA_TAG)
         return XMPP_EINVOP;
 
-    stanza->type = XMPP_STANZA_TEXT;
+    /* text may be the current text of the stanza */
+    data = strophe_strdup(stanza->ctx, text);
+    if (!data)
+        return XMPP_EMEM;
 
     if (stanza->data)
         strophe_free(stanza->ctx, stanza->data);
-    stanza->data = strophe_strdup(stanza->ctx, text);
 
-    return stanza->data == NULL ? XMPP_EMEM : XMPP_EOK;
+    stanza->type = XMPP_STANZA_TEXT;
+    stanza->data = data;
+
+    return XMPP_EOK;
 }
 
 /** Set the text data for a text stanza.
@@ -751,19 +765,24 @@ int xmpp_stanza_set_text_with_size(xmpp_stanza_t *stanza,
                                    const char *text,
                                    size_t size)
 {
+    char *data;
+
     if (stanza->type == XMPP_STANZA_TAG)
         return XMPP_EINVOP;
 
-    stanza->type = XMPP_STANZA_TEXT;
+    /* text may be a part of the current text of the stanza */
+    data = strophe_alloc(stanza->ctx, size + 1);
+    if (!data)
+        return XMPP_EMEM;
+
+    memcpy(data, text, size);
+    data[size] = 0;
 
     if (stanza->data)
         strophe_free(stanza->ctx, stanza->data);
-    stanza->data = strophe_alloc(stanza->ctx, size + 1);
-    if (!stanza->data)
-        return XMPP_EMEM;
 
-    memcpy(stanza->data, text, size);
-    stanza->data[size] = 0;
+    stanza->type = XMPP_STANZA_TEXT;
+    stanza->data = data;
 
     return XMPP_EOK;
 }
-- 
2.43.0


From 1a894f97b32b46bc06c41779e285a6cf60500df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:47 +0000
Subject: [PATCH 50/54] fix: SCRAM: do not abort on a long salt

---
 src/scram.c | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/src/scram.c b/src/scram.c
index 35a62db..22ff657 100644
--- a/src/scram.c
+++ b/src/scram.c
@@ -121,12 +121,15 @@ union common_hash_ctx {
     sha512_context sha512;
 };
 
-static void crypto_HMAC(const struct hash_alg *alg,
-                        const uint8_t *key,
-                        size_t key_len,
-                        const uint8_t *text,
-                        size_t len,
-                        uint8_t *digest)
+/* HMAC of the concatenation of text and tail */
+static void crypto_HMAC_tail(const struct hash_alg *alg,
+                             const uint8_t *key,
+                             size_t key_len,
+                             const uint8_t *text,
+                             size_t len,
+                             const uint8_t *tail,
+                             size_t tail_len,
+                             uint8_t *digest)
 {
     uint8_t key_pad[HMAC_BLOCK_SIZE_MAX];
     uint8_t key_ipad[HMAC_BLOCK_SIZE_MAX];
@@ -155,6 +158,8 @@ static void crypto_HMAC(const struct hash_alg *alg,
     alg->init((void *)&ctx);
     alg->update((void *)&ctx, key_ipad, blocksize);
     alg->update((void *)&ctx, text, len);
+    if (tail_len > 0)
+        alg->update((void *)&ctx, tail, tail_len);
     alg->final((void *)&ctx, sha_digest);
 
     alg->init((void *)&ctx);
@@ -163,6 +168,16 @@ static void crypto_HMAC(const struct hash_alg *alg,
     alg->final((void *)&ctx, digest);
 }
 
+static void crypto_HMAC(const struct hash_alg *alg,
+                        const uint8_t *key,
+                        size_t key_len,
+                        const uint8_t *text,
+                        size_t len,
+                        uint8_t *digest)
+{
+    crypto_HMAC_tail(alg, key, key_len, text, len, NULL, 0, digest);
+}
+
 static void SCRAM_Hi(const struct hash_alg *alg,
                      const uint8_t *text,
                      size_t len,
@@ -173,23 +188,18 @@ static void SCRAM_Hi(const struct hash_alg *alg,
 {
     size_t k;
     uint32_t j;
-    uint8_t tmp[128];
+    uint8_t tmp[SCRAM_DIGEST_SIZE];
 
-    static uint8_t int1[] = {0x0, 0x0, 0x0, 0x1};
-
-    /* assume salt + INT(1) isn't longer than sizeof(tmp) */
-    assert(salt_len <= sizeof(tmp) - sizeof(int1));
+    static const uint8_t int1[] = {0x0, 0x0, 0x0, 0x1};
 
     memset(digest, 0, alg->digest_size);
     if (i == 0) {
         return;
     }
 
-    memcpy(tmp, salt, salt_len);
-    memcpy(&tmp[salt_len], int1, sizeof(int1));
-
     /* 'text' for Hi is a 'key' for HMAC */
-    crypto_HMAC(alg, text, len, tmp, salt_len + sizeof(int1), digest);
+    crypto_HMAC_tail(alg, text, len, salt, salt_len, int1, sizeof(int1),
+                     digest);
     memcpy(tmp, digest, alg->digest_size);
 
     for (j = 1; j < i; j++) {
-- 
2.43.0


From 409db0dedae940e1ae2d71c34d909aab2b657b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:13 +0000
Subject: [PATCH 51/54] fix: SCRAM: check the server's nonce and the iteration
 count

---
 src/sasl.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/sasl.c b/src/sasl.c
index a280a7f..cc1f962 100644
--- a/src/sasl.c
+++ b/src/sasl.c
@@ -392,6 +392,7 @@ char *sasl_scram(xmpp_ctx_t *ctx,
     char *tmp;
     char *ptr;
     char *saveptr = NULL;
+    const char *nonce;
     char *response;
     char *auth;
     char *response_b64;
@@ -424,11 +425,20 @@ char *sasl_scram(xmpp_ctx_t *ctx,
         goto out;
     }
 
+    /* the server's nonce must start with ours */
+    nonce = strstr(first_bare, ",r=");
+    if (!nonce || strncmp(r, nonce + 1, strlen(nonce + 1)) != 0) {
+        goto out;
+    }
+
     xmpp_base64_decode_bin(ctx, s, strlen(s), &sval, &sval_len);
     if (!sval) {
         goto out;
     }
     ival = strtol(i, &saveptr, 10);
+    if (ival <= 0) {
+        goto out_sval;
+    }
 
     /* "c=<channel_binding>," + r + ",p=" + sign_b64 + '\0' */
     response_len = 3 + strlen(channel_binding) + strlen(r) + 3 +
-- 
2.43.0


From 6c27810a83632d177614da204982c85b8598ea76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:40 +0000
Subject: [PATCH 52/54] fix: DIGEST-MD5: parse and answer challenges according
 to RFC 2831

---
 src/sasl.c | 69 ++++++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 59 insertions(+), 10 deletions(-)

diff --git a/src/sasl.c b/src/sasl.c
index cc1f962..fb7f1cc 100644
--- a/src/sasl.c
+++ b/src/sasl.c
@@ -80,19 +80,52 @@ static char *_make_string(xmpp_ctx_t *ctx, const char *s, unsigned len)
 /* create a new, null-terminated string quoting another string */
 static char *_make_quoted(xmpp_ctx_t *ctx, const char *s)
 {
-    char *result;
-    size_t len = strlen(s);
+    char *result, *c;
 
-    result = strophe_alloc(ctx, len + 3);
+    result = strophe_alloc(ctx, 2 * strlen(s) + 3);
     if (result != NULL) {
-        result[0] = '"';
-        memcpy(result + 1, s, len);
-        result[len + 1] = '"';
-        result[len + 2] = '\0';
+        c = result;
+        *c++ = '"';
+        for (; *s != '\0'; s++) {
+            if (*s == '"' || *s == '\\')
+                *c++ = '\\';
+            *c++ = *s;
+        }
+        *c++ = '"';
+        *c = '\0';
     }
     return result;
 }
 
+/* remove the backslashes of quoted pairs */
+static void _unquote(char *s)
+{
+    char *d;
+
+    for (d = s; *s != '\0'; s++) {
+        if (*s == '\\' && s[1] != '\0')
+            s++;
+        *d++ = *s;
+    }
+    *d = '\0';
+}
+
+/* whether a comma separated list of tokens has a particular token */
+static int _has_token(const char *list, const char *token)
+{
+    size_t len = strlen(token);
+    size_t n;
+
+    while (*list != '\0') {
+        list += strspn(list, ", \t");
+        n = strcspn(list, ", \t");
+        if (n == len && memcmp(list, token, len) == 0)
+            return 1;
+        list += n;
+    }
+    return 0;
+}
+
 /* split key, value pairs into a hash */
 static hash_t *_parse_digest_challenge(xmpp_ctx_t *ctx, const char *msg)
 {
@@ -129,9 +162,14 @@ static hash_t *_parse_digest_challenge(xmpp_ctx_t *ctx, const char *msg)
             /* if we see quotes, grab the string in between */
             if ((*s == '\'') || (*s == '"')) {
                 t++;
-                while ((*t != *s) && (*t != '\0'))
+                while ((*t != *s) && (*t != '\0')) {
+                    if (*t == '\\' && t[1] != '\0')
+                        t++;
                     t++;
+                }
                 value = _make_string(ctx, (char *)s + 1, (t - s - 1));
+                if (value != NULL)
+                    _unquote(value);
                 if (*t == *s) {
                     s = t + 1;
                 } else {
@@ -258,6 +296,11 @@ char *sasl_digest_md5(xmpp_ctx_t *ctx,
         strophe_error(ctx, "SASL", "couldn't parse digest challenge");
         return NULL;
     }
+    if (hash_get(table, "nonce") == NULL) {
+        strophe_error(ctx, "SASL", "digest challenge without nonce");
+        hash_release(table);
+        return NULL;
+    }
 
     node = xmpp_jid_node(ctx, jid);
     domain = xmpp_jid_domain(ctx, jid);
@@ -275,8 +318,13 @@ char *sasl_digest_md5(xmpp_ctx_t *ctx,
     xmpp_rand_nonce(ctx->rand, cnonce, sizeof(cnonce));
     hash_add(table, "cnonce", strophe_strdup(ctx, cnonce));
     hash_add(table, "nc", strophe_strdup(ctx, "00000001"));
-    if (hash_get(table, "qop") == NULL)
+    /* the challenge lists what the server offers, the response names what
+       the client chose */
+    value = hash_get(table, "qop");
+    if (value == NULL || _has_token(value, "auth"))
         hash_add(table, "qop", strophe_strdup(ctx, "auth"));
+    else if (_has_token(value, "auth-int"))
+        hash_add(table, "qop", strophe_strdup(ctx, "auth-int"));
     value = strophe_alloc(ctx, 5 + strlen(domain) + 1);
     memcpy(value, "xmpp/", 5);
     memcpy(value + 5, domain, strlen(domain));
@@ -359,7 +407,8 @@ char *sasl_digest_md5(xmpp_ctx_t *ctx,
     result = _add_key(ctx, table, "qop", result, 0);
     result = _add_key(ctx, table, "digest-uri", result, 1);
     result = _add_key(ctx, table, "response", result, 0);
-    result = _add_key(ctx, table, "charset", result, 0);
+    if (hash_get(table, "charset") != NULL)
+        result = _add_key(ctx, table, "charset", result, 0);
 
     strophe_free(ctx, node);
     strophe_free(ctx, domain);
-- 
2.43.0


From 03aed6a6d36acfa495c94f9fe4db7675660278a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:48 +0000
Subject: [PATCH 53/54] fix: SCRAM: escape '=' and ',' in the username

---
 src/auth.c | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index f4bb1c9..f581e41 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -549,13 +549,36 @@ err:
     return 0;
 }
 
+/* The characters '=' and ',' of the username have to be escaped. */
+static char *_make_scram_username(xmpp_ctx_t *ctx, const char *node)
+{
+    char *name, *d;
+
+    name = strophe_alloc(ctx, 3 * strlen(node) + 1);
+    if (!name)
+        return NULL;
+    for (d = name; *node != '\0'; node++) {
+        if (*node == '=') {
+            memcpy(d, "=3D", 3);
+            d += 3;
+        } else if (*node == ',') {
+            memcpy(d, "=2C", 3);
+            d += 3;
+        } else {
+            *d++ = *node;
+        }
+    }
+    *d = '\0';
+    return name;
+}
+
 static int _make_scram_init_msg(struct scram_user_data *scram)
 {
     xmpp_conn_t *conn = scram->conn;
     xmpp_ctx_t *ctx = conn->ctx;
     const void *binding_data;
     const char *binding_type;
-    char *node, *message;
+    char *jid_node, *node, *message;
     size_t message_len, binding_type_len = 0, binding_data_len;
     int l, is_secured = xmpp_conn_is_secured(conn);
     /* This buffer must be able to hold:
@@ -580,7 +603,12 @@ static int _make_scram_init_msg(struct scram_user_data *scram)
         binding_type_len += 1;
     }
 
-    node = xmpp_jid_node(ctx, conn->jid);
+    jid_node = xmpp_jid_node(ctx, conn->jid);
+    if (!jid_node) {
+        return -1;
+    }
+    node = _make_scram_username(ctx, jid_node);
+    strophe_free(ctx, jid_node);
     if (!node) {
         return -1;
     }
-- 
2.43.0


From fae417b5768b314765acfa4345882669570f2c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:17 +0000
Subject: [PATCH 54/54] fix: auth: release everything on the error paths

---
 src/auth.c | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/auth.c b/src/auth.c
index f581e41..75c7d41 100644
--- a/src/auth.c
+++ b/src/auth.c
@@ -387,15 +387,20 @@ static int _handle_digestmd5_challenge(xmpp_conn_t *conn,
 
     if (strcmp(name, "challenge") == 0) {
         text = xmpp_stanza_get_text(stanza);
+        if (!text) {
+            disconnect_mem_error(conn);
+            return 0;
+        }
         response = sasl_digest_md5(conn->ctx, text, conn->jid, conn->pass);
+        strophe_free(conn->ctx, text);
         if (!response) {
             disconnect_mem_error(conn);
             return 0;
         }
-        strophe_free(conn->ctx, text);
 
         auth = xmpp_stanza_new(conn->ctx);
         if (!auth) {
+            strophe_free(conn->ctx, response);
             disconnect_mem_error(conn);
             return 0;
         }
@@ -404,6 +409,8 @@ static int _handle_digestmd5_challenge(xmpp_conn_t *conn,
 
         authdata = xmpp_stanza_new(conn->ctx);
         if (!authdata) {
+            strophe_free(conn->ctx, response);
+            xmpp_stanza_release(auth);
             disconnect_mem_error(conn);
             return 0;
         }
@@ -657,6 +664,9 @@ static int _make_scram_init_msg(struct scram_user_data *scram)
     scram->channel_binding =
         xmpp_base64_encode(ctx, (void *)buf, binding_type_len);
     memset(buf, 0, binding_type_len);
+    if (!scram->channel_binding) {
+        goto err_msg;
+    }
     strophe_free(ctx, node);
     scram->scram_init = message;
 
@@ -827,6 +837,10 @@ static void _auth(xmpp_conn_t *conn)
     } else if (conn->sasl_support & SASL_MASK_SCRAM) {
         size_t n;
         scram_ctx = strophe_alloc(conn->ctx, sizeof(*scram_ctx));
+        if (!scram_ctx) {
+            disconnect_mem_error(conn);
+            return;
+        }
         memset(scram_ctx, 0, sizeof(*scram_ctx));
         for (n = 0; n < scram_algs_num; ++n) {
             if (conn->sasl_support & scram_algs[n]->mask) {
@@ -837,6 +851,7 @@ static void _auth(xmpp_conn_t *conn)
 
         auth = _make_sasl_auth(conn, scram_ctx->alg->scram_name);
         if (!auth) {
+            strophe_free(conn->ctx, scram_ctx);
             disconnect_mem_error(conn);
             return;
         }
@@ -855,6 +870,7 @@ static void _auth(xmpp_conn_t *conn)
                                  (unsigned char *)scram_ctx->scram_init,
                                  strlen(scram_ctx->scram_init));
         if (!str) {
+            strophe_free(conn->ctx, scram_ctx->channel_binding);
             strophe_free(conn->ctx, scram_ctx->scram_init);
             strophe_free(conn->ctx, scram_ctx);
             xmpp_stanza_release(auth);
@@ -865,6 +881,7 @@ static void _auth(xmpp_conn_t *conn)
         authdata = xmpp_stanza_new(conn->ctx);
         if (!authdata) {
             strophe_free(conn->ctx, str);
+            strophe_free(conn->ctx, scram_ctx->channel_binding);
             strophe_free(conn->ctx, scram_ctx->scram_init);
             strophe_free(conn->ctx, scram_ctx);
             xmpp_stanza_release(auth);
@@ -904,22 +921,27 @@ static void _auth(xmpp_conn_t *conn)
         }
         authdata = xmpp_stanza_new(conn->ctx);
         if (!authdata) {
+            xmpp_stanza_release(auth);
             disconnect_mem_error(conn);
             return;
         }
         authid = _get_authid(conn);
         if (!authid) {
+            xmpp_stanza_release(authdata);
+            xmpp_stanza_release(auth);
             disconnect_mem_error(conn);
             return;
         }
         str = sasl_plain(conn->ctx, authid, conn->pass);
+        strophe_free(conn->ctx, authid);
         if (!str) {
+            xmpp_stanza_release(authdata);
+            xmpp_stanza_release(auth);
             disconnect_mem_error(conn);
             return;
         }
         xmpp_stanza_set_text(authdata, str);
         strophe_free(conn->ctx, str);
-        strophe_free(conn->ctx, authid);
 
         xmpp_stanza_add_child_ex(auth, authdata, 0);
 
-- 
2.43.0

