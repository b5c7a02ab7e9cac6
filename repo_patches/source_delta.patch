From 2e86fac459befe250fa7b8f70d65dfdfd2f9511b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:51 +0000
Subject: [PATCH 01/23] fix: conn_send must continue after the bytes already
 sent

When send() accepts only part of the buffer, the loop called send() again with
the same pointer and a smaller length, so the peer received the head of the
message twice and never its tail.
---
 src/conn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conn.c b/src/conn.c
index c6cb978..d77973c 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -596,7 +596,6 @@ int conn_send(struct conn_handle *conn, const uint8_t *buff, size_t buff_len)
 
 	if (priv->fd != INVALID_SOCKET) {
 		while (buff_len > 0) {
-			/*! @TODO Bug? buff isn't changed */
 			ret = send(priv->fd, (const char *)buff, (socklen_t)buff_len,
 				   MSG_NOSIGNAL);
 
@@ -617,6 +616,7 @@ int conn_send(struct conn_handle *conn, const uint8_t *buff, size_t buff_len)
 			}
 
 			buff_len -= ret;
+			buff += ret;
 		}
 
 		ret = 0;
-- 
2.43.0


From 972fe3325be3483cffb676c01c9409b46966a285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:44 +0000
Subject: [PATCH 02/23] fix: conn_get_remote_addr prints the port in host byte
 order

sin_port and sin6_port are in network byte order; on a little-endian host the
text named a port with its two bytes swapped.
---
 src/conn.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index d77973c..d410038 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -805,7 +805,7 @@ void conn_get_remote_addr(const struct conn_handle *conn, char dest[54])
 		inet_ntop(addr->sin_family, &addr->sin_addr.s_addr, dest, 46);
 		dest += strlen(dest);
 		dest[0] = ':';
-		conn_port_to_str(addr->sin_port, dest + 1);
+		conn_port_to_str(ntohs(addr->sin_port), dest + 1);
 		break;
 	case AF_INET6:
 		dest[0] = '[';
@@ -814,7 +814,7 @@ void conn_get_remote_addr(const struct conn_handle *conn, char dest[54])
 		dest += strlen(dest);
 		dest[0] = ']';
 		dest[1] = ':';
-		conn_port_to_str(addr6->sin6_port, dest + 2);
+		conn_port_to_str(ntohs(addr6->sin6_port), dest + 2);
 		break;
 	default:
 		strcpy(dest, "(unknown)");
-- 
2.43.0


From 2c38989536e1ca9e73215ebc5599b77d6b3e847b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:43 +0000
Subject: [PATCH 03/23] fix: conn_recv_any must not report an empty datagram as
 a closed connection

---
 src/conn.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index d410038..0242443 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -546,8 +546,6 @@ int conn_recv_any(struct conn_handle *conn, uint8_t *buff, size_t buff_len,
 	struct conn_priv *priv = conn->priv;
 	int ret;
 
-	priv->remote_addr_len = sizeof(priv->remote_addr);
-
 	mutex_lock_shared(&priv->mutex);
 
 	if (priv->fd == INVALID_SOCKET) {
@@ -556,9 +554,18 @@ int conn_recv_any(struct conn_handle *conn, uint8_t *buff, size_t buff_len,
 		goto conn_recv_any_exit;
 	}
 
-	ret = recvfrom(priv->fd, (char *)buff, (socklen_t)buff_len, 0,
-		       (struct sockaddr *)&priv->remote_addr,
-		       &priv->remote_addr_len);
+	do {
+		priv->remote_addr_len = sizeof(priv->remote_addr);
+
+		ret = recvfrom(priv->fd, (char *)buff, (socklen_t)buff_len, 0,
+			       (struct sockaddr *)&priv->remote_addr,
+			       &priv->remote_addr_len);
+
+		/* An empty datagram carries the address of its sender, which
+		 * distinguishes it from a connection which has been shut down
+		 */
+	} while (ret == 0 && conn->type == CONN_TYPE_UDP &&
+		 priv->remote_addr_len > 0);
 
 	if (ret == 0) {
 		ret = -EPIPE;
-- 
2.43.0


From 88970d3852e37ab1994a905618e82a233e79d8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:04 +0000
Subject: [PATCH 04/23] fix: close the descriptor when listening, connecting or
 accepting fails

---
 src/conn.c | 46 ++++++++++++++++++++++++++--------------------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/src/conn.c b/src/conn.c
index 0242443..07e45b9 100644
--- a/src/conn.c
+++ b/src/conn.c
@@ -235,34 +235,30 @@ int conn_listen(struct conn_handle *conn)
 	ret = setsockopt(priv->sock_fd, SOL_SOCKET, SO_REUSEADDR,
 			 (const void *)&yes, sizeof(yes));
 	if (ret == SOCKET_ERROR) {
-		/*! @TODO Close priv->sock_fd */
 		ret = SOCK_ERRNO;
-		goto conn_listen_free;
+		goto conn_listen_close;
 	}
 
 #ifdef __APPLE__
 	ret = setsockopt(priv->sock_fd, SOL_SOCKET, SO_NOSIGPIPE,
 			 (const void *)&yes, sizeof(yes));
 	if (ret == SOCKET_ERROR) {
-		/*! @TODO Close priv->sock_fd */
 		ret = SOCK_ERRNO;
-		goto conn_listen_free;
+		goto conn_listen_close;
 	}
 #endif
 
 	ret = bind(priv->sock_fd, res->ai_addr, (socklen_t)res->ai_addrlen);
 	if (ret == SOCKET_ERROR) {
-		/*! @TODO Close priv->sock_fd */
 		ret = SOCK_ERRNO;
-		goto conn_listen_free;
+		goto conn_listen_close;
 	}
 
 	if (conn->type == CONN_TYPE_TCP) {
 		ret = listen(priv->sock_fd, 0);
 		if (ret == SOCKET_ERROR) {
-			/*! @TODO Close priv->sock_fd */
 			ret = SOCK_ERRNO;
-			goto conn_listen_free;
+			goto conn_listen_close;
 		}
 	}
 
@@ -272,6 +268,12 @@ int conn_listen(struct conn_handle *conn)
 
 	mutex_unlock(&priv->mutex);
 
+	goto conn_listen_free;
+
+conn_listen_close:
+	closesocket(priv->sock_fd);
+	priv->sock_fd = INVALID_SOCKET;
+
 conn_listen_free:
 	freeaddrinfo(res);
 
@@ -296,6 +298,7 @@ int conn_accept(struct conn_handle *conn, struct conn_handle *accepted)
 	static const int twelve_sec = 12;
 	static const int ten = 10;
 #endif
+	int ret;
 
 	apriv->remote_addr_len = sizeof(apriv->remote_addr);
 
@@ -315,29 +318,24 @@ int conn_accept(struct conn_handle *conn, struct conn_handle *accepted)
 		     sizeof(keepalive), NULL, 0, &bytes_returned,
 		     NULL, NULL) !=
 	    0)
-		/*! @TODO Close apriv->conn_fd */
-		return SOCK_ERRNO;
+		goto conn_accept_close;
 
 #else
 	if (setsockopt(apriv->conn_fd, SOL_SOCKET, SO_KEEPALIVE, &yes,
 		       sizeof(yes)) == SOCKET_ERROR)
-		/*! @TODO Close apriv->conn_fd */
-		return SOCK_ERRNO;
+		goto conn_accept_close;
 
 	if (setsockopt(apriv->conn_fd, SOL_TCP, TCP_KEEPIDLE, &ten_min,
 		       sizeof(ten_min)) == SOCKET_ERROR)
-		/*! @TODO Close apriv->conn_fd */
-		return SOCK_ERRNO;
+		goto conn_accept_close;
 
 	if (setsockopt(apriv->conn_fd, SOL_TCP, TCP_KEEPINTVL, &twelve_sec,
 		       sizeof(twelve_sec)) == SOCKET_ERROR)
-		/*! @TODO Close apriv->conn_fd */
-		return SOCK_ERRNO;
+		goto conn_accept_close;
 
 	if (setsockopt(apriv->conn_fd, SOL_TCP, TCP_KEEPCNT, &ten,
 		       sizeof(ten)) == SOCKET_ERROR)
-		/*! @TODO Close apriv->conn_fd */
-		return SOCK_ERRNO;
+		goto conn_accept_close;
 
 #endif
 
@@ -348,6 +346,14 @@ int conn_accept(struct conn_handle *conn, struct conn_handle *accepted)
 	mutex_unlock(&apriv->mutex);
 
 	return 0;
+
+conn_accept_close:
+	ret = SOCK_ERRNO;
+
+	closesocket(apriv->conn_fd);
+	apriv->conn_fd = INVALID_SOCKET;
+
+	return ret;
 }
 
 int conn_connect(struct conn_handle *conn, const char *addr,
@@ -398,7 +404,7 @@ int conn_connect(struct conn_handle *conn, const char *addr,
 			 (const void *)&yes, sizeof(yes));
 	if (ret == SOCKET_ERROR) {
 		ret = SOCK_ERRNO;
-		goto conn_connect_free_early;
+		goto conn_connect_free;
 	}
 
 #ifdef __APPLE__
@@ -406,7 +412,7 @@ int conn_connect(struct conn_handle *conn, const char *addr,
 			 (const void *)&yes, sizeof(yes));
 	if (ret == SOCKET_ERROR) {
 		ret = SOCK_ERRNO;
-		goto conn_connect_free_early;
+		goto conn_connect_free;
 	}
 #endif
 
-- 
2.43.0


From 64b3002639ba4b39dd939e8c0c4ff9c91621915e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:32 +0000
Subject: [PATCH 05/23] fix: digest_to_str must terminate its result

---
 src/digest.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/digest.c b/src/digest.c
index 978ee70..c73933c 100644
--- a/src/digest.c
+++ b/src/digest.c
@@ -137,6 +137,8 @@ void digest_to_str(const uint8_t md5[DIGEST_LEN],
 
 	for (i = 0; i < DIGEST_LEN; i++, result += 2)
 		digest_to_hex8_u(md5[i], result);
+
+	*result = '\0';
 }
 
 static uint8_t hex4_to_digest(char data)
-- 
2.43.0


From 57be178047ca70c5bd035ebd1895c51ddb00fba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:27 +0000
Subject: [PATCH 06/23] fix: get_password_response must not crash without a
 password or memory

---
 src/proxy.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/proxy.c b/src/proxy.c
index 64e4c53..be13e7d 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -1011,9 +1011,19 @@ int get_nonce(uint32_t *nonce)
 int get_password_response(uint32_t nonce, const char *password,
 			  uint8_t response[PROXY_PASS_RES_LEN])
 {
-	unsigned int pass_with_nonce_len = (unsigned int)strlen(password) + 8;
-	uint8_t *pass_with_nonce = malloc(pass_with_nonce_len);
-	char *iter = (char *)pass_with_nonce;
+	unsigned int pass_with_nonce_len;
+	uint8_t *pass_with_nonce;
+	char *iter;
+
+	if (password == NULL)
+		return -EINVAL;
+
+	pass_with_nonce_len = (unsigned int)strlen(password) + 8;
+	pass_with_nonce = malloc(pass_with_nonce_len);
+	if (pass_with_nonce == NULL)
+		return -ENOMEM;
+
+	iter = (char *)pass_with_nonce;
 
 	while (*password != '\0') {
 		if (*password >= 97 && *password <= 122)
-- 
2.43.0


From e3ae8158becd037bc546ef0e38e081aab7854e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:42 +0000
Subject: [PATCH 07/23] fix: proxy_close must clear the idle workers after they
 have finished

---
 src/proxy.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/proxy.c b/src/proxy.c
index be13e7d..0092adf 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -861,10 +861,12 @@ void proxy_close(struct proxy_handle *ph)
 
 	proxy_log(ph, LOG_LEVEL_DEBUG, "Closing client connections...\n");
 
-	priv->idle_workers_head = NULL;
 	for (i = 0; i < priv->num_clients; i++)
 		proxy_worker_free(&priv->client_workers[i]);
 
+	/* The workers add themselves to this list as they finish */
+	priv->idle_workers_head = NULL;
+
 	memset(priv->clients_by_call, 0x0, sizeof(priv->clients_by_call));
 	priv->idle_clients_head = NULL;
 	priv->idle_clients_tail_ptr = NULL;
-- 
2.43.0


From 022f09cf7ab747ce607e5cd5aced0f237b26a46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:39 +0000
Subject: [PATCH 08/23] fix: close the previous TCP connection before opening
 another one

---
 src/proxy_conn.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/proxy_conn.c b/src/proxy_conn.c
index 8476133..f3d4f28 100644
--- a/src/proxy_conn.c
+++ b/src/proxy_conn.c
@@ -725,6 +725,10 @@ static int process_tcp_open_message(struct proxy_conn_handle *pc,
 		return -EINVAL;
 	}
 
+	/* Close any previous connection and let its forwarder finish */
+	conn_close(&priv->conn_tcp);
+	worker_wait_idle(&priv->worker_tcp);
+
 	/* Attempt to connect */
 	ret = conn_connect(&priv->conn_tcp, (const char *)addr, "5200");
 	if (ret < 0) {
-- 
2.43.0


From 3b5b81a4eb48b7d5316f3a1045969f8e8a30e114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:36 +0000
Subject: [PATCH 09/23] fix: a slot can be reconnected only once it is back in
 the pool

---
 src/proxy.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/proxy.c b/src/proxy.c
index 0092adf..b9e90a3 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -376,9 +376,12 @@ static void proxy_worker_func(struct worker_handle *wh)
 	pc = priv->clients_by_call[hash];
 	/* First, check for a reconnect */
 	while (pc != NULL) {
-		ret = proxy_conn_accept(pc, pw->conn_client, pw->callsign, 1);
-		if (ret != -EBUSY)
-			break;
+		/* A slot is only available once it is back in the pool */
+		if (pc->prev_ptr != NULL) {
+			ret = proxy_conn_accept(pc, pw->conn_client, pw->callsign, 1);
+			if (ret != -EBUSY)
+				break;
+		}
 		pc = pc->next_by_call;
 	}
 	/* Fall back on the oldest available slot */
@@ -400,6 +403,7 @@ static void proxy_worker_func(struct worker_handle *wh)
 		priv->idle_clients_tail_ptr = pc->prev_ptr;
 	else
 		pc->next->prev_ptr = pc->prev_ptr;
+	pc->prev_ptr = NULL;
 
 	/* Remove the slot from the hash map */
 	if (pc->prev_by_call_ptr != NULL) {
-- 
2.43.0


From 56d3a2be08266acf670f99235cc03e74d6a2a7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:01 +0000
Subject: [PATCH 10/23] fix: report a failed client slot initialisation

proxy_conn_init released everything but returned 0 when a step failed, so that
callers went on to use a slot without private data.
---
 src/proxy_conn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/proxy_conn.c b/src/proxy_conn.c
index f3d4f28..a2292d6 100644
--- a/src/proxy_conn.c
+++ b/src/proxy_conn.c
@@ -987,7 +987,7 @@ proxy_conn_init_exit:
 	free(pc->priv);
 	pc->priv = NULL;
 
-	return 0;
+	return ret;
 }
 
 int proxy_conn_in_use(struct proxy_conn_handle *pc)
-- 
2.43.0


From 1729b6a282694b31694ad26ae31cc35073b26338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:57 +0000
Subject: [PATCH 11/23] fix: leave nothing dangling when opening the proxy
 fails

When initialising a client slot or worker failed, the lists of idle slots and
workers kept pointing into memory that was released; a denied callsigns regex
which could not be initialised stayed attached without private data.
---
 src/proxy.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/proxy.c b/src/proxy.c
index b9e90a3..ce15097 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -818,13 +818,10 @@ int proxy_open(struct proxy_handle *ph)
 	return 0;
 
 proxy_open_exit_later:
-	priv->idle_workers_head = NULL;
 	for (i = 0; i < priv->num_clients; i++)
 		proxy_worker_free(&priv->client_workers[i]);
 
 proxy_open_exit_late:
-	priv->idle_clients_head = NULL;
-	priv->idle_clients_tail_ptr = NULL;
 	for (i = 0; i < priv->num_clients; i++)
 		proxy_conn_free(&priv->clients[i]);
 
@@ -835,6 +832,16 @@ proxy_open_exit:
 		priv->re_calls_allowed = NULL;
 	}
 
+	if (priv->re_calls_denied != NULL) {
+		regex_free(priv->re_calls_denied);
+		free(priv->re_calls_denied);
+		priv->re_calls_denied = NULL;
+	}
+
+	priv->idle_workers_head = NULL;
+	priv->idle_clients_head = NULL;
+	priv->idle_clients_tail_ptr = NULL;
+
 	log_close(&priv->log);
 
 	free(priv->client_workers);
-- 
2.43.0


From 1c4ab99d251e244a26805dfe9f0dae06f73c0370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:59 +0000
Subject: [PATCH 12/23] fix: clean up a failed proxy_init without using what is
 missing

proxy_free stops the registration service and shuts down the connections, which
crashes when those have not been initialised.
---
 src/proxy.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/proxy.c b/src/proxy.c
index ce15097..b9b13e4 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -601,7 +601,18 @@ int proxy_init(struct proxy_handle *ph)
 	return 0;
 
 proxy_init_exit:
-	proxy_free(ph);
+	/* Nothing has been opened, so there is nothing to stop or close */
+	mutex_free(&priv->idle_workers_mutex);
+	mutex_free(&priv->idle_clients_mutex);
+	mutex_free(&priv->usable_clients_mutex);
+	registration_service_free(&priv->reg_service);
+	conn_free(&priv->conn_listen);
+	conf_free(&ph->conf);
+	log_free(&priv->log);
+	rand_free();
+
+	free(ph->priv);
+	ph->priv = NULL;
 
 	return ret;
 }
-- 
2.43.0


From 0eb75421dcf4532fd1dfd08cafcf34a5d35d371a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:02 +0000
Subject: [PATCH 13/23] fix: close the previous log medium when switching to
 none or stdout

The medium was overwritten before it was used to decide what to close, so log
files and the syslog connection were leaked.
---
 src/log.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/log.c b/src/log.c
index 1616307..14b5c78 100644
--- a/src/log.c
+++ b/src/log.c
@@ -208,7 +208,6 @@ int log_select_medium(struct log_handle *log, enum LOG_MEDIUM medium,
 	/* Open the new medium */
 	switch (medium) {
 	case LOG_MEDIUM_NONE:
-		log->medium = LOG_MEDIUM_NONE;
 		switch (log->medium) {
 		case LOG_MEDIUM_FILE:
 			if (priv->medium_file.fp != NULL) {
@@ -227,11 +226,15 @@ int log_select_medium(struct log_handle *log, enum LOG_MEDIUM medium,
 				priv->medium_eventlog.handle = NULL;
 			}
 
+			break;
+		default:
 			break;
 		}
+
+		log->medium = LOG_MEDIUM_NONE;
+
 		break;
 	case LOG_MEDIUM_STDOUT:
-		log->medium = LOG_MEDIUM_STDOUT;
 		switch (log->medium) {
 		case LOG_MEDIUM_FILE:
 			if (priv->medium_file.fp != NULL) {
@@ -255,6 +258,8 @@ int log_select_medium(struct log_handle *log, enum LOG_MEDIUM medium,
 			break;
 		}
 
+		log->medium = LOG_MEDIUM_STDOUT;
+
 		break;
 	case LOG_MEDIUM_FILE:
 	{
-- 
2.43.0


From d564aac76662e6a3bfb6b89007fe0d6752e50309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:23 +0000
Subject: [PATCH 14/23] fix: a worker whose thread did not start is stopped

It was left in the starting state, so that waking it was reported as successful
although nothing would ever run, and it could not be started again.
---
 src/worker.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/worker.c b/src/worker.c
index 5ecf36d..a4f20b0 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -260,6 +260,8 @@ int worker_start(struct worker_handle *wh)
 	if (priv->state <= WORKER_STOPPED) {
 		priv->state = WORKER_STARTING;
 		ret = thread_start(&priv->thread);
+		if (ret < 0)
+			priv->state = WORKER_STOPPED;
 	}
 
 	mutex_unlock(&priv->mutex);
-- 
2.43.0


From 96a336b7b47c50d69c3473f77cbf75c7d89391bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:25 +0000
Subject: [PATCH 15/23] fix: report unlock errors as negative values

mutex_unlock returned the positive error number, unlike everything else.
---
 src/mutex_posix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mutex_posix.c b/src/mutex_posix.c
index 3469e69..c142f13 100644
--- a/src/mutex_posix.c
+++ b/src/mutex_posix.c
@@ -156,7 +156,7 @@ int mutex_unlock(struct mutex_handle *mutex)
 {
 	struct mutex_priv *priv = mutex->priv;
 
-	return pthread_mutex_unlock(&priv->lock);
+	return -pthread_mutex_unlock(&priv->lock);
 }
 
 int mutex_unlock_shared(struct mutex_handle *mutex)
-- 
2.43.0


From 2141445016b1832ca887401e5ade9a99f5c160f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 16/23] fix: a wait regains the lock only when no reader holds
 it

The wait functions of the condition variables returned with the lock held while
other threads were still holding the shared lock.
---
 src/mutex_posix.c | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/mutex_posix.c b/src/mutex_posix.c
index c142f13..ce84d2f 100644
--- a/src/mutex_posix.c
+++ b/src/mutex_posix.c
@@ -198,6 +198,18 @@ void mutex_free(struct mutex_handle *mutex)
 	}
 }
 
+/*!
+ * @brief Wait for holders of the shared lock after regaining the lock
+ *
+ * @param[in,out] mpriv Private data of the mutex which is held exclusively
+ */
+static void condvar_wait_readers(struct mutex_priv *mpriv)
+{
+	while (mpriv->readers > 0)
+		if (pthread_cond_wait(&mpriv->cond, &mpriv->lock) != 0)
+			break;
+}
+
 int condvar_init(struct condvar_handle *condvar)
 {
 	struct condvar_priv *priv = condvar->priv;
@@ -231,8 +243,12 @@ int condvar_wait(struct condvar_handle *condvar, struct mutex_handle *mutex)
 {
 	struct condvar_priv *priv = condvar->priv;
 	struct mutex_priv *mpriv = mutex->priv;
+	int ret;
 
-	return -pthread_cond_wait(&priv->cond, &mpriv->lock);
+	ret = pthread_cond_wait(&priv->cond, &mpriv->lock);
+	condvar_wait_readers(mpriv);
+
+	return -ret;
 }
 
 int condvar_wait_time(struct condvar_handle *condvar,
@@ -249,6 +265,8 @@ int condvar_wait_time(struct condvar_handle *condvar,
 	abstime.tv_nsec %= 1000000000;
 
 	ret = pthread_cond_timedwait(&priv->cond, &mpriv->lock, &abstime);
+	condvar_wait_readers(mpriv);
+
 	return ret == ETIMEDOUT ? 1 : -ret;
 }
 
-- 
2.43.0


From 9c43d09db5a4a07cd162bcc58ade30b150b67f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:01 +0000
Subject: [PATCH 17/23] fix: register a proxy which has no comment or password

Both are unset unless they are configured, and registering crashed then.
---
 src/registration.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/registration.c b/src/registration.c
index df6d7ce..f17c658 100644
--- a/src/registration.c
+++ b/src/registration.c
@@ -322,10 +322,11 @@ int registration_service_start(struct registration_service_handle *rs,
 
 	mutex_lock(&priv->mutex);
 
-	priv->public = strcmp(conf->password, "PUBLIC") == 0 ? 'Y' : 'N';
+	priv->public = conf->password != NULL &&
+		       strcmp(conf->password, "PUBLIC") == 0 ? 'Y' : 'N';
 
 	priv->reg_name = conf->reg_name;
-	priv->reg_comment = conf->reg_comment;
+	priv->reg_comment = conf->reg_comment == NULL ? "" : conf->reg_comment;
 
 	if (priv->reg_suffix != NULL)
 		free((void *)priv->reg_suffix);
-- 
2.43.0


From e307bc98a05ee960b7504f5f5c3589df676aac0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:04 +0000
Subject: [PATCH 18/23] fix: registration suffix overflow and use after release

The buffer was also used for the input of the digest, which includes the name of
the proxy and overflowed it for names longer than about 50 characters. When the
allocation failed, the suffix of an earlier start was released again later.
---
 src/registration.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/registration.c b/src/registration.c
index f17c658..5365247 100644
--- a/src/registration.c
+++ b/src/registration.c
@@ -328,10 +328,14 @@ int registration_service_start(struct registration_service_handle *rs,
 	priv->reg_name = conf->reg_name;
 	priv->reg_comment = conf->reg_comment == NULL ? "" : conf->reg_comment;
 
-	if (priv->reg_suffix != NULL)
+	if (priv->reg_suffix != NULL) {
 		free((void *)priv->reg_suffix);
-	reg_suffix = malloc(strlen(public_addr) + (2 * DIGEST_LEN) +
-			    sizeof(protocol_version) + 18);
+		priv->reg_suffix = NULL;
+	}
+
+	/* This holds the input of the digest first, and then the suffix */
+	reg_suffix = malloc(strlen(priv->reg_name) + strlen(public_addr) +
+			    (2 * DIGEST_LEN) + sizeof(protocol_version) + 18);
 	if (reg_suffix == NULL) {
 		ret = -ENOMEM;
 		goto registration_service_start_end;
-- 
2.43.0


From 17eec604bd4c718acc55d06fd69a1b7a589bff6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:06 +0000
Subject: [PATCH 19/23] fix: report memory exhaustion while reading the
 configuration

The rest of the file was ignored silently when a line could not be stored.
---
 src/conf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/conf.c b/src/conf.c
index e6058ba..fdb155d 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -440,7 +440,7 @@ static int conf_parse_stream(FILE *stream, struct proxy_conf *conf,
 	size_t line_len = 0;
 	int ret = 0;
 
-	while (conf_readline(&line, &line_len, stream) > 0) {
+	while ((ret = conf_readline(&line, &line_len, stream)) > 0) {
 		ret = conf_parse_line(line, conf, log);
 
 		free(line);
@@ -452,7 +452,7 @@ static int conf_parse_stream(FILE *stream, struct proxy_conf *conf,
 
 	free(line);
 
-	return 0;
+	return ret;
 }
 
 int conf_init(struct proxy_conf *conf)
-- 
2.43.0


From 3980657cefdc524de0c1cbf511a66a4e122c91a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:08 +0000
Subject: [PATCH 20/23] fix: reject numbers which do not fit their setting

A port above 65535 or below zero and a timeout beyond 32 bits were accepted and
replaced by some other number.
---
 src/conf.c | 50 +++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 47 insertions(+), 3 deletions(-)

diff --git a/src/conf.c b/src/conf.c
index fdb155d..41b71bc 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -103,6 +103,44 @@ static int conf_parse_stream(FILE *stream, struct proxy_conf *conf,
  */
 static int conf_readline(char **lineptr, size_t *n, FILE *stream);
 
+/*!
+ * @brief Parse an unsigned decimal number
+ *
+ * @param[in] val Text of the number
+ * @param[in] val_len Length of val in characters
+ * @param[in] max Largest acceptable number
+ * @param[out] number Resulting number, unchanged on failure
+ *
+ * @returns 0 on success, negative ERRNO value on failure
+ */
+static int conf_parse_number(const char *val, size_t val_len, uint32_t max,
+			     uint32_t *number);
+
+static int conf_parse_number(const char *val, size_t val_len, uint32_t max,
+			     uint32_t *number)
+{
+	uint32_t result = 0;
+	size_t i;
+
+	if (val_len == 0)
+		return -EINVAL;
+
+	for (i = 0; i < val_len; i++) {
+		uint32_t digit = (uint32_t)(val[i] - '0');
+
+		if (val[i] < '0' || val[i] > '9')
+			return -EINVAL;
+		if (result > (max - digit) / 10)
+			return -EINVAL;
+
+		result = result * 10 + digit;
+	}
+
+	*number = result;
+
+	return 0;
+}
+
 static int conf_readline(char **lineptr, size_t *n, FILE *stream)
 {
 	size_t so_far = 0;
@@ -198,18 +236,21 @@ static int conf_parse_pair(const char *key, size_t key_len,
 			   const char *val, size_t val_len,
 			   struct proxy_conf *conf, struct log_handle *log)
 {
-	char dummy[2];
+	uint32_t number;
 
 	switch (key_len) {
 	case 4:
 		if (strncmp(key, "Port", key_len) == 0) {
-			if (sscanf(val, "%hu%1s", &conf->port, dummy) != 1) {
+			if (conf_parse_number(val, val_len, UINT16_MAX,
+					      &number) != 0) {
 				log_printf(log, LOG_LEVEL_ERROR,
 					   "Invalid configuration value for 'Port': '%.*s'\n",
 					   (int)val_len, val);
 
 				return -EINVAL;
 			}
+
+			conf->port = (uint16_t)number;
 		}
 
 		break;
@@ -330,13 +371,16 @@ static int conf_parse_pair(const char *key, size_t key_len,
 		break;
 	case 17:
 		if (strncmp(key, "ConnectionTimeout", key_len) == 0) {
-			if (sscanf(val, "%u%1s", &conf->connection_timeout, dummy) != 1) {
+			if (conf_parse_number(val, val_len, UINT32_MAX,
+					      &number) != 0) {
 				log_printf(log, LOG_LEVEL_ERROR,
 					   "Invalid configuration value for 'ConnectionTimeout': '%.*s'\n",
 					   (int)val_len, val);
 
 				return -EINVAL;
 			}
+
+			conf->connection_timeout = number;
 		}
 
 		break;
-- 
2.43.0


From 6efc4614ab7147011c7437a97a426cd63c01c028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:11 +0000
Subject: [PATCH 21/23] fix: AdditionalExternalBindAddresses replaces the
 earlier list

A second occurrence leaked the earlier addresses and added their number to the
length of the new list, a leading comma dropped the last address, and lists of
more than 65535 addresses or a failed allocation left a length which did not
match the list.
---
 src/conf.c | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/conf.c b/src/conf.c
index 41b71bc..c04f259 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -421,28 +421,39 @@ static int conf_parse_pair(const char *key, size_t key_len,
 	case 31:
 		if (strncmp(key, "AdditionalExternalBindAddresses", key_len) == 0) {
 			size_t i, j;
+			size_t count = 1;
 
-			if (conf->bind_addr_ext_add != NULL)
-				free(conf->bind_addr_ext_add);
+			if (conf->bind_addr_ext_add != NULL) {
+				for (i = 0; i < conf->bind_addr_ext_add_len; i++)
+					free(conf->bind_addr_ext_add[i]);
 
-			if (val_len == 0) {
+				free(conf->bind_addr_ext_add);
 				conf->bind_addr_ext_add = NULL;
-				conf->bind_addr_ext_add_len = 0;
-				break;
 			}
 
-			for (i = 1; i < val_len; i++)
+			conf->bind_addr_ext_add_len = 0;
+
+			if (val_len == 0)
+				break;
+
+			for (i = 0; i < val_len; i++)
 				if (val[i] == ',')
-					conf->bind_addr_ext_add_len++;
+					count++;
 
-			conf->bind_addr_ext_add_len++;
+			if (count > UINT16_MAX) {
+				log_printf(log, LOG_LEVEL_ERROR,
+					   "Too many addresses in 'AdditionalExternalBindAddresses'\n");
+
+				return -EINVAL;
+			}
 
 			conf->bind_addr_ext_add = calloc(
-				conf->bind_addr_ext_add_len,
-				sizeof(*conf->bind_addr_ext_add));
+				count, sizeof(*conf->bind_addr_ext_add));
 			if (conf->bind_addr_ext_add == NULL)
 				return -ENOMEM;
 
+			conf->bind_addr_ext_add_len = (uint16_t)count;
+
 			for (i = 0, j = 0; i < conf->bind_addr_ext_add_len; i++) {
 				size_t k = j;
 
-- 
2.43.0


From 60145cac157e5afa916d6ab14ad78bbcd8469b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:26 +0000
Subject: [PATCH 22/23] fix: forget the slots when they cannot be allocated

When proxy_open had no memory for the slots it kept their number, and
proxy_close or proxy_free then walked through slots which do not exist.
---
 src/proxy.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/proxy.c b/src/proxy.c
index b9b13e4..5291d5a 100644
--- a/src/proxy.c
+++ b/src/proxy.c
@@ -674,8 +674,10 @@ int proxy_open(struct proxy_handle *ph)
 	priv->num_clients = 1 + ph->conf.bind_addr_ext_add_len;
 
 	priv->clients = calloc(priv->num_clients, sizeof(*priv->clients));
-	if (priv->clients == NULL)
-		return -ENOMEM;
+	if (priv->clients == NULL) {
+		ret = -ENOMEM;
+		goto proxy_open_exit;
+	}
 
 	priv->client_workers = calloc(priv->num_clients,
 				      sizeof(struct proxy_worker));
-- 
2.43.0


From a92d18d751b819dcef60b7fdf27759f2c35a17d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:15 +0000
Subject: [PATCH 23/23] fix: stop the forwarders of a slot that cannot be
 started

When one of the three forwarders of a slot could not be started, proxy_conn_start
returned the error but left the forwarders it had already started running, so that
a failed proxy_start left threads behind until the proxy was closed.
---
 src/proxy_conn.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/proxy_conn.c b/src/proxy_conn.c
index a2292d6..ac12a5b 100644
--- a/src/proxy_conn.c
+++ b/src/proxy_conn.c
@@ -1053,6 +1053,9 @@ int proxy_conn_start(struct proxy_conn_handle *pc)
 proxy_conn_start_exit:
 	mutex_unlock_shared(&priv->mutex_client);
 
+	if (ret < 0)
+		proxy_conn_stop(pc);
+
 	return ret;
 }
 
-- 
2.43.0

