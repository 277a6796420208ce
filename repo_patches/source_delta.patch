From b5d976c0cf694cbefd7bd0a6a2bfb8401a159176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:02 +0000
Subject: [PATCH 01/35] fix: reset the chunked request body decoder when a
 connection object is reused

li_connection_reset2() left in_chunked_decode_state as it was when the previous
client aborted in the middle of a chunked request body, so the next client that
got the same connection object had its chunked body decoded from a stale state.
---
 src/main/connection.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main/connection.c b/src/main/connection.c
index 12ec924..1e13aea 100644
--- a/src/main/connection.c
+++ b/src/main/connection.c
@@ -761,6 +761,7 @@ static void li_connection_reset2(liConnection *con) {
 	li_vrequest_reset(con->mainvr, FALSE);
 
 	li_http_request_parser_reset(&con->req_parser_ctx);
+	memset(&con->in_chunked_decode_state, 0, sizeof(con->in_chunked_decode_state));
 
 	g_string_truncate(con->info.remote_addr_str, 0);
 	li_sockaddr_clear(&con->info.remote_addr);
-- 
2.43.0


From ac1ef276053493e70a09a318a731dde2eba7c413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:02 +0000
Subject: [PATCH 02/35] fix: don't keep a connection alive when the request
 body wasn't read completely

If the response was finished before the client had sent the complete request
body the remaining body bytes were parsed as the next request.
---
 src/main/connection.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/connection.c b/src/main/connection.c
index 1e13aea..d3401a8 100644
--- a/src/main/connection.c
+++ b/src/main/connection.c
@@ -562,7 +562,8 @@ void li_connection_request_done(liConnection *con) {
 	li_plugins_handle_close(con);
 
 	s = g_atomic_int_get(&con->srv->dest_state);
-	if (con->info.keep_alive &&  (LI_SERVER_RUNNING == s || LI_SERVER_WARMUP == s) && NULL != con->con_sock.data) {
+	/* the rest of an unfinished request body must not be parsed as next request */
+	if (con->info.keep_alive && con->in.out->is_closed &&  (LI_SERVER_RUNNING == s || LI_SERVER_WARMUP == s) && NULL != con->con_sock.data) {
 		li_connection_reset_keep_alive(con);
 	} else {
 		con->state = LI_CON_STATE_CLOSE;
-- 
2.43.0


From a6a027298e0ddfeb29e875462f48e5add0a644cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:02 +0000
Subject: [PATCH 03/35] fix: reject requests with more than one Content-Length
 header

The last one was used silently, which disagrees with other HTTP
implementations about where the request ends (request smuggling).
---
 src/main/request.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/main/request.c b/src/main/request.c
index 86a0cbb..f0c09ec 100644
--- a/src/main/request.c
+++ b/src/main/request.c
@@ -194,6 +194,13 @@ gboolean li_request_validate_header(liConnection *con) {
 		gint64 r;
 		char *err;
 
+		l = li_http_header_find_first(req->headers, CONST_STR_LEN("content-length"));
+		if (NULL != l && NULL != li_http_header_find_next(l, CONST_STR_LEN("content-length"))) {
+			/* more than one "content-length" header */
+			bad_request(con, 400); /* bad request */
+			return FALSE;
+		}
+
 		r = g_ascii_strtoll(val, &err, 10);
 		if (*err != '\0') {
 			_VR_DEBUG(con->srv, con->mainvr, "content-length is not a number: %s (Status: 400)", err);
-- 
2.43.0


From bb1cd6b4b42e7eca25c0afe3855aed3b2f124ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:02 +0000
Subject: [PATCH 04/35] fix: reject GET/HEAD requests with a chunked body

The body was ignored and its bytes were parsed as the next request.
---
 src/main/request.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main/request.c b/src/main/request.c
index f0c09ec..2dcfb07 100644
--- a/src/main/request.c
+++ b/src/main/request.c
@@ -287,9 +287,9 @@ gboolean li_request_validate_header(liConnection *con) {
 	switch(con->mainvr->request.http_method) {
 	case LI_HTTP_METHOD_GET:
 	case LI_HTTP_METHOD_HEAD:
-		/* content-length is forbidden for those */
-		if (con->mainvr->request.content_length > 0) {
-			VR_ERROR(con->mainvr, "%s", "GET/HEAD with content-length -> 400");
+		/* request body is forbidden for those */
+		if (con->mainvr->request.content_length > 0 || transfer_encoding_chunked) {
+			VR_ERROR(con->mainvr, "%s", "GET/HEAD with content-length or chunked body -> 400");
 
 			bad_request(con, 400); /* bad request */
 			return FALSE;
-- 
2.43.0


From 28b8f3dbe2210133756b76f8d60ea96d5c2f8b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:00 +0000
Subject: [PATCH 05/35] fix: do not send Content-Length together with
 Transfer-Encoding: chunked

---
 src/main/response.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/response.c b/src/main/response.c
index 09eb87a..a978b6f 100644
--- a/src/main/response.c
+++ b/src/main/response.c
@@ -62,7 +62,8 @@ void li_response_send_headers(liVRequest *vr, liChunkQueue *raw_out, liChunkQueu
 			li_http_header_overwrite(vr->response.headers, CONST_STR_LEN("Content-Length"), GSTR_LEN(vr->wrk->tmp_str));
 		}
 	} else if (vr->coninfo->keep_alive && vr->request.http_version == LI_HTTP_VERSION_1_1) {
-		/* TODO: maybe someone set a content length header? */
+		/* a message with Transfer-Encoding must not have a Content-Length (backends might have announced one) */
+		li_http_header_remove(vr->response.headers, CONST_STR_LEN("Content-Length"));
 		if (!(vr->response.transfer_encoding & LI_HTTP_TRANSFER_ENCODING_CHUNKED)) {
 			vr->response.transfer_encoding |= LI_HTTP_TRANSFER_ENCODING_CHUNKED;
 			li_http_header_append(vr->response.headers, CONST_STR_LEN("Transfer-Encoding"), CONST_STR_LEN("chunked"));
-- 
2.43.0


From 0119779ea3b8caf9dc4c2488b21059b39f2449ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:32 +0000
Subject: [PATCH 06/35] fix: chunk length of 4 GiB and more was truncated to 8
 hex digits

---
 src/main/filter_chunked.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/filter_chunked.c b/src/main/filter_chunked.c
index e165788..8fe3ce3 100644
--- a/src/main/filter_chunked.c
+++ b/src/main/filter_chunked.c
@@ -8,7 +8,7 @@ static void http_chunk_append_len(liChunkQueue *cq, size_t len) {
 
 	a = g_byte_array_sized_new(sizeof(len) * 2 + 2);
 
-	for (i = 0; i < 8 && len; i++) {
+	for (i = 0; i < sizeof(len) * 2 && len; i++) {
 		len >>= 4;
 	}
 
-- 
2.43.0


From b54eabbd8f3581e53ab4b59bcd378c6fce1eab4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:04 +0000
Subject: [PATCH 07/35] fix: refuse Content-Length values which do not start
 with a digit

---
 src/main/request.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/request.c b/src/main/request.c
index 2dcfb07..e2063ea 100644
--- a/src/main/request.c
+++ b/src/main/request.c
@@ -202,7 +202,7 @@ gboolean li_request_validate_header(liConnection *con) {
 		}
 
 		r = g_ascii_strtoll(val, &err, 10);
-		if (*err != '\0') {
+		if (*err != '\0' || !g_ascii_isdigit(val[0])) {
 			_VR_DEBUG(con->srv, con->mainvr, "content-length is not a number: %s (Status: 400)", err);
 			bad_request(con, 400); /* bad request */
 			return FALSE;
-- 
2.43.0


From caa30dc096d257af0c0f799e5bb4b268ae1e353c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:27 +0000
Subject: [PATCH 08/35] fix: refuse host names with empty labels (they could
 turn into '..' in document roots)

---
 src/main/request.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/main/request.c b/src/main/request.c
index e2063ea..f398f7d 100644
--- a/src/main/request.c
+++ b/src/main/request.c
@@ -187,6 +187,12 @@ gboolean li_request_validate_header(liConnection *con) {
 		g_string_truncate(req->uri.host, i);
 	}
 
+	/* refuse empty labels: parts of the hostname may be used to build paths and must not end up as ".." */
+	if (req->uri.host->str[0] == '.' || NULL != strstr(req->uri.host->str, "..")) {
+		bad_request(con, 400); /* bad request */
+		return FALSE;
+	}
+
 	/* content-length */
 	hh = li_http_header_lookup(req->headers, CONST_STR_LEN("content-length"));
 	if (hh) {
-- 
2.43.0


From 2d164366743b84d53efeb2653fb1808ac359783d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:27 +0000
Subject: [PATCH 09/35] fix: an incomplete percent escape at the end of the
 path left undecoded garbage behind

---
 src/common/utils.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/utils.c b/src/common/utils.c
index 1ab5ce0..cd7546a 100644
--- a/src/common/utils.c
+++ b/src/common/utils.c
@@ -341,8 +341,8 @@ void li_url_decode(GString *path) {
 				}
 				src += 2;
 			} else {
-				/* end of string */
-				return;
+				/* end of string: drop incomplete escape */
+				break;
 			}
 		} else {
 			if (c < 32 || c == 127) c = '_';
-- 
2.43.0


From bfc483a659f6b7eafb6286dd2de23a7a29384b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:27 +0000
Subject: [PATCH 10/35] fix: send exactly one Content-Length header (backends
 may announce several)

---
 src/main/response.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/response.c b/src/main/response.c
index a978b6f..b9bef91 100644
--- a/src/main/response.c
+++ b/src/main/response.c
@@ -59,7 +59,9 @@ void li_response_send_headers(liVRequest *vr, liChunkQueue *raw_out, liChunkQueu
 		if (vr->request.http_method != LI_HTTP_METHOD_HEAD || response_body->length > 0) {
 			/* do not send content-length: 0 if backend already skipped content generation for HEAD */
 			g_string_printf(vr->wrk->tmp_str, "%"LI_GOFFSET_FORMAT, response_body->length);
-			li_http_header_overwrite(vr->response.headers, CONST_STR_LEN("Content-Length"), GSTR_LEN(vr->wrk->tmp_str));
+			/* backends might have announced other lengths (even more than one) */
+			li_http_header_remove(vr->response.headers, CONST_STR_LEN("Content-Length"));
+			li_http_header_insert(vr->response.headers, CONST_STR_LEN("Content-Length"), GSTR_LEN(vr->wrk->tmp_str));
 		}
 	} else if (vr->coninfo->keep_alive && vr->request.http_version == LI_HTTP_VERSION_1_1) {
 		/* a message with Transfer-Encoding must not have a Content-Length (backends might have announced one) */
-- 
2.43.0


From 3c56d9ba37cbd25827d13a5ffed7af84a14c0077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:27 +0000
Subject: [PATCH 11/35] fix: abort responses whose backend closes before
 Content-Length bytes were sent

---
 src/main/stream_http_response.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/stream_http_response.c b/src/main/stream_http_response.c
index 2981f0c..f3efb63 100644
--- a/src/main/stream_http_response.c
+++ b/src/main/stream_http_response.c
@@ -225,6 +225,9 @@ static void stream_http_response_data(liStreamHttpResponse* shr) {
 		if (shr->content_length == 0) {
 			shr->stream.out->is_closed = TRUE;
 			li_stream_disconnect(&shr->stream);
+		} else if (shr->stream.source->out->is_closed) {
+			/* response is not complete: abort */
+			li_stream_disconnect(&shr->stream);
 		}
 	}
 	li_stream_notify(&shr->stream);
-- 
2.43.0


From ce177bcd7106ca556ccd746eb4c25f8d87c0b2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:51 +0000
Subject: [PATCH 12/35] fix: abort responses whose backend was lost before the
 response was connected

---
 src/main/virtualrequest.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/main/virtualrequest.c b/src/main/virtualrequest.c
index 6e932f3..83b8528 100644
--- a/src/main/virtualrequest.c
+++ b/src/main/virtualrequest.c
@@ -536,6 +536,12 @@ void li_vrequest_state_machine(liVRequest *vr) {
 
 			if (LI_VRS_HANDLE_RESPONSE_HEADERS != vr->state) break;
 
+			if (NULL == vr->direct_out && NULL == vr->backend_source->source && !vr->backend_source->out->is_closed) {
+				/* lost the backend before the response was complete (and nobody was connected yet to notice) */
+				li_vrequest_error(vr);
+				return;
+			}
+
 			vr->state = LI_VRS_WRITE_CONTENT;
 
 			/* connect out-queue to signal that the headers are ready */
-- 
2.43.0


From 4f29a3ad20f4b49316214e6280f9ccf7f0c87bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:37 +0000
Subject: [PATCH 13/35] fix: fastcgi: don't leave the client waiting when the
 backend closes without (complete) end request record

---
 src/modules/fastcgi_stream.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/modules/fastcgi_stream.c b/src/modules/fastcgi_stream.c
index 346d215..a1ea7d0 100644
--- a/src/modules/fastcgi_stream.c
+++ b/src/modules/fastcgi_stream.c
@@ -519,7 +519,10 @@ static void fastcgi_decode(liFastCGIBackendContext *ctx) {
 					fastcgi_reset(ctx);
 					return;
 				}
-				if (in->length < 8) return; /* wait for more */
+				if (in->length < 8) {
+					if (in->is_closed) fastcgi_reset(ctx); /* unexpected eof */
+					return; /* wait for more */
+				}
 
 				{
 					unsigned char endreq[8];
@@ -628,6 +631,7 @@ static void fastcgi_decode(liFastCGIBackendContext *ctx) {
 		} else {
 			ctx->stdin_closed = ctx->stdout_closed = ctx->stderr_closed = ctx->request_done = TRUE;
 			ctx->fcgi_in.out->is_closed = TRUE;
+			li_stream_notify_later(&ctx->fcgi_in);
 			li_stream_simple_socket_close(ctx->iostream, FALSE);
 		}
 	}
-- 
2.43.0


From e9c25639f8b0020ee7591739842bda098bf904a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:59 +0000
Subject: [PATCH 14/35] fix: li_parse_ipv6 didn't store addresses without '::'

---
 src/common/ip_parsers.rl | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/common/ip_parsers.rl b/src/common/ip_parsers.rl
index aef15e6..a43ae2a 100644
--- a/src/common/ip_parsers.rl
+++ b/src/common/ip_parsers.rl
@@ -134,10 +134,13 @@ gboolean li_parse_ipv6(const char *str, guint8 *ip, guint *network, guint16 *por
 	%% write exec noend;
 
 	if (!res || cs < ipv6_parser_first_final) return FALSE;
-	if (!compressed) return (prec == 8);
-	if (prec + postc > 7) return FALSE;
-	for ( ; prec < 8-postc; prec++) predata[prec] = 0;
-	for (postc = 0 ; prec < 8; prec++, postc++ ) predata[prec] = postdata[postc];
+	if (compressed) {
+		if (prec + postc > 7) return FALSE;
+		for ( ; prec < 8-postc; prec++) predata[prec] = 0;
+		for (postc = 0 ; prec < 8; prec++, postc++ ) predata[prec] = postdata[postc];
+	} else if (prec != 8) {
+		return FALSE;
+	}
 	memcpy(ip, predata, 16);
 
 	return TRUE;
-- 
2.43.0


From 7000d077c4f84fa664937e806e8731bf0980a8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:51 +0000
Subject: [PATCH 15/35] fix: re-read the action stack element after a balancer
 fallback

A fallback may enter further actions, which can reallocate the stack the
element lives in; marking the old element as finished then wrote to freed
memory and lost the mark.
---
 src/main/actions.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/actions.c b/src/main/actions.c
index cb326ab..7101adb 100644
--- a/src/main/actions.c
+++ b/src/main/actions.c
@@ -313,7 +313,9 @@ liHandlerResult li_action_execute(liVRequest *vr) {
 			
 			ase->finished = FALSE;
 			a = ase->act;
+			ase_ndx = as->stack->len - 1; /* the fallback may push actions - reread "ase" after that */
 			res = a->data.balancer.fallback(vr, ase->backlog_provided, a->data.balancer.param, &ase->data.context, as->backend_error);
+			ase = &g_array_index(as->stack, action_stack_element, ase_ndx);
 			switch (res) {
 			case LI_HANDLER_GO_ON:
 				ase->finished = TRUE;
-- 
2.43.0


From 1fcc67d7741e5fc1b151e1029848f99abc2ce7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:00 +0000
Subject: [PATCH 16/35] fix: lua chunkqueue:add_file used the start offset as
 length and leaked the file on errors

---
 src/main/chunk_lua.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/main/chunk_lua.c b/src/main/chunk_lua.c
index e9b6379..a7d80cc 100644
--- a/src/main/chunk_lua.c
+++ b/src/main/chunk_lua.c
@@ -165,36 +165,36 @@ static int _lua_chunkqueue_add_file(lua_State *L, gboolean tempfile) {
 	}
 
 	start = 0;
-	length = st.st_size;
 
 	if (lua_gettop(L) >= 3) {
 		if (!lua_isnumber(L, 3)) {
+			close(fd);
 			lua_pushliteral(L, "chunkqueue:add expects number (or nothing) as second parameter");
 			lua_error(L);
 
-			close(fd);
 			return -1;
 		}
 
 		start = lua_tonumber(L, 3);
 	}
+	length = st.st_size - start;
 	if (lua_gettop(L) >= 4) {
 		if (!lua_isnumber(L, 4)) {
+			close(fd);
 			lua_pushliteral(L, "chunkqueue:add expects number (or nothing) as third parameter");
 			lua_error(L);
 
-			close(fd);
 			return -1;
 		}
 
-		length = lua_tonumber(L, 3);
+		length = lua_tonumber(L, 4);
 	}
 
-	if (start < 0 || start >= st.st_size || length < 0 || start + length > st.st_size) {
+	if (start < 0 || start > st.st_size || length < 0 || length > st.st_size - start) {
+		close(fd);
 		lua_pushliteral(L, "chunkqueue:add: Invalid start/length values");
 		lua_error(L);
 
-		close(fd);
 		return -1;
 	}
 
-- 
2.43.0


From 40caa9ca9882a890fe3a46627e6dd708e4c88242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:27 +0000
Subject: [PATCH 17/35] fix: opening a FIFO below the document root blocked the
 worker

---
 src/main/stat_cache.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/stat_cache.c b/src/main/stat_cache.c
index 4089804..0aa00c6 100644
--- a/src/main/stat_cache.c
+++ b/src/main/stat_cache.c
@@ -316,7 +316,7 @@ static liHandlerResult stat_cache_get(liVRequest *vr, GString *path, struct stat
 
 	if (fd) {
 		/* open + fstat */
-		while (-1 == (*fd = open(path->str, O_RDONLY))) {
+		while (-1 == (*fd = open(path->str, O_RDONLY | O_NONBLOCK))) {
 			if (errno == EINTR)
 				continue;
 
-- 
2.43.0


From c6d99b673ad78fb84ecd252f47652f717c77df22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:59 +0000
Subject: [PATCH 18/35] fix: dirlist: the requested path was put into the page
 without html encoding

---
 src/modules/mod_dirlist.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/modules/mod_dirlist.c b/src/modules/mod_dirlist.c
index 2a99e6b..36d59a4 100644
--- a/src/modules/mod_dirlist.c
+++ b/src/modules/mod_dirlist.c
@@ -431,7 +431,8 @@ static liHandlerResult dirlist(liVRequest *vr, gpointer param, gpointer *context
 		}
 
 		listing = g_string_sized_new(4*1024-1);
-		g_string_append_printf(listing, html_header_start, vr->request.uri.path->str);
+		li_string_encode(vr->request.uri.path->str, encoded, LI_ENCODING_HTML);
+		g_string_append_printf(listing, html_header_start, encoded->str);
 
 		if (dd->css) {
 			/* custom css */
@@ -446,7 +447,8 @@ static liHandlerResult dirlist(liVRequest *vr, gpointer param, gpointer *context
 
 		try_append_file(vr, &listing, "HEADER.txt", dd->encode_header);
 
-		g_string_append_printf(listing, html_table_start, vr->request.uri.path->str);
+		li_string_encode(vr->request.uri.path->str, encoded, LI_ENCODING_HTML);
+		g_string_append_printf(listing, html_table_start, encoded->str);
 
 		if (0 != strcmp("/", vr->request.uri.path->str)) {
 			g_string_append_printf(listing, html_table_row, '0', "../",
-- 
2.43.0


From 1c0bec4b53dd2737d14c7688e02ccbec7fdd1813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:59 +0000
Subject: [PATCH 19/35] fix: status.info, debug.show_connections: host, path
 and query of connections were put into the page without html encoding

---
 src/modules/mod_debug.c  | 18 +++++++++---------
 src/modules/mod_status.c | 17 ++++++++++++++---
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/modules/mod_debug.c b/src/modules/mod_debug.c
index 04ea045..167aa24 100644
--- a/src/modules/mod_debug.c
+++ b/src/modules/mod_debug.c
@@ -13,6 +13,7 @@
  */
 
 #include <lighttpd/base.h>
+#include <lighttpd/encoding.h>
 
 #include <lighttpd/lighttpd-glue.h>
 
@@ -151,16 +152,15 @@ static gpointer debug_collect_func(liWorker *wrk, gpointer fdata) {
 					"	mainvr = {\n"
 					"		request = {\n"
 					"			method = \"%s\"\n"
-					"			host = \"%s\"\n"
-					"			path = \"%s\"\n"
-					"			query = \"%s\"\n"
-					"		}\n"
-					"	}\n",
-					li_http_method_string(cd->method, &len),
-					cd->host->str,
-					cd->path->str,
-					cd->query->str
+					"			host = \"",
+					li_http_method_string(cd->method, &len)
 				);
+				li_string_encode_append(cd->host->str, cd->detailed, LI_ENCODING_HTML);
+				li_g_string_append_len(cd->detailed, CONST_STR_LEN("\"\n			path = \""));
+				li_string_encode_append(cd->path->str, cd->detailed, LI_ENCODING_HTML);
+				li_g_string_append_len(cd->detailed, CONST_STR_LEN("\"\n			query = \""));
+				li_string_encode_append(cd->query->str, cd->detailed, LI_ENCODING_HTML);
+				li_g_string_append_len(cd->detailed, CONST_STR_LEN("\"\n		}\n	}\n"));
 				li_g_string_append_len(cd->detailed, CONST_STR_LEN("}</pre>"));
 			}
 		}
diff --git a/src/modules/mod_status.c b/src/modules/mod_status.c
index a30fddb..f9906a7 100644
--- a/src/modules/mod_status.c
+++ b/src/modules/mod_status.c
@@ -733,6 +733,7 @@ static GString *status_info_full(liVRequest *vr, liPlugin *p, gboolean short_inf
 	if (!short_info) {
 		GString *ts_started, *ts_timeout, *bytes_in, *bytes_out, *bytes_in_5s, *bytes_out_5s;
 		GString *req_len, *resp_len;
+		GString *host, *path, *query;
 
 		ts_started = g_string_sized_new(15);
 		ts_timeout = g_string_sized_new(15);
@@ -742,6 +743,9 @@ static GString *status_info_full(liVRequest *vr, liPlugin *p, gboolean short_inf
 		bytes_out_5s = g_string_sized_new(10);
 		req_len = g_string_sized_new(10);
 		resp_len = g_string_sized_new(10);
+		host = g_string_sized_new(63);
+		path = g_string_sized_new(127);
+		query = g_string_sized_new(127);
 
 		li_g_string_append_len(html, CONST_STR_LEN("<div class=\"title\"><strong>Active connections</strong></div>\n"));
 		li_g_string_append_len(html, CONST_STR_LEN(html_connections_th));
@@ -760,13 +764,17 @@ static GString *status_info_full(liVRequest *vr, liPlugin *p, gboolean short_inf
 				li_counter_format(cd->request_size, COUNTER_BYTES, req_len);
 				li_counter_format(cd->response_size, COUNTER_BYTES, resp_len);
 
+				li_string_encode(cd->host->str, host, LI_ENCODING_HTML);
+				li_string_encode(cd->path->str, path, LI_ENCODING_HTML);
+				li_string_encode(cd->query->str, query, LI_ENCODING_HTML);
+
 				g_string_append_printf(html, html_connections_row,
 					cd->remote_addr_str->str,
 					li_connection_state_str(cd->state),
-					cd->host->str,
-					cd->path->str,
+					host->str,
+					path->str,
 					cd->query->len ? "?":"",
-					cd->query->len ? cd->query->str : "",
+					cd->query->len ? query->str : "",
 					cd->ts_started, ts_started->str,
 					cd->ts_timeout, cd->ts_timeout < 0 ? "" : ts_timeout->str,
 					cd->bytes_in, bytes_in->str,
@@ -790,6 +798,9 @@ static GString *status_info_full(liVRequest *vr, liPlugin *p, gboolean short_inf
 		g_string_free(bytes_out_5s, TRUE);
 		g_string_free(req_len, TRUE);
 		g_string_free(resp_len, TRUE);
+		g_string_free(host, TRUE);
+		g_string_free(path, TRUE);
+		g_string_free(query, TRUE);
 	}
 
 	li_g_string_append_len(html, CONST_STR_LEN(
-- 
2.43.0


From 6591092cb87b8bc40b2a661de12c4c83133ef154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:59 +0000
Subject: [PATCH 20/35] fix: html encoding left quotes unencoded, although it
 is used within attribute values (status.info refresh)

---
 src/common/encoding.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/encoding.c b/src/common/encoding.c
index 899a483..b9cba5a 100644
--- a/src/common/encoding.c
+++ b/src/common/encoding.c
@@ -33,7 +33,7 @@ static const gchar encode_map_html[] = {
 	*/
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, /* 00 - 0F control chars */
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, /* 10 - 1F */
-	0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, /* 20 - 2F & */
+	0, 0, 1, 0, 0, 0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, /* 20 - 2F " & ' */
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 1, 0, /* 30 - 3F < > */
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, /* 40 - 40 */
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, /* 50 - 50 */
-- 
2.43.0


From 2bcd57330b75bd4485494f1294371f58f03c2042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:59 +0000
Subject: [PATCH 21/35] fix: accesslog: %f, %U and %u were written without
 escaping

---
 src/modules/mod_accesslog.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/modules/mod_accesslog.c b/src/modules/mod_accesslog.c
index 8b34e33..7fb6779 100644
--- a/src/modules/mod_accesslog.c
+++ b/src/modules/mod_accesslog.c
@@ -251,7 +251,7 @@ static GString *al_format_log(liVRequest *vr, al_data *ald, GArray *format) {
 				break;
 			case AL_FORMAT_FILENAME:
 				if (phys->path->len)
-					li_g_string_append_len(str, GSTR_LEN(phys->path));
+					al_append_escaped(str, phys->path);
 				else
 					g_string_append_c(str, '-');
 				break;
@@ -309,12 +309,12 @@ static GString *al_format_log(liVRequest *vr, al_data *ald, GArray *format) {
 			case AL_FORMAT_AUTHED_USER:
 				tmp_gstr2 = li_environment_get(&vr->env, CONST_STR_LEN("REMOTE_USER"));
 				if (tmp_gstr2)
-					li_g_string_append_len(str, GSTR_LEN(tmp_gstr2));
+					al_append_escaped(str, tmp_gstr2);
 				else
 					g_string_append_c(str, '-');
 				break;
 			case AL_FORMAT_PATH:
-				li_g_string_append_len(str, GSTR_LEN(req->uri.path));
+				al_append_escaped(str, req->uri.path);
 				break;
 			case AL_FORMAT_SERVER_NAME:
 				if (CORE_OPTIONPTR(LI_CORE_OPTION_SERVER_NAME).string)
-- 
2.43.0


From cac88e83312f23f0464ab7f30c98b8ad0e1b4596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:57 +0000
Subject: [PATCH 22/35] fix: dirlist: include-header, include-readme,
 hide-header and hide-readme had no effect

---
 src/modules/mod_dirlist.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/modules/mod_dirlist.c b/src/modules/mod_dirlist.c
index 36d59a4..522c153 100644
--- a/src/modules/mod_dirlist.c
+++ b/src/modules/mod_dirlist.c
@@ -421,9 +421,9 @@ static liHandlerResult dirlist(liVRequest *vr, gpointer param, gpointer *context
 				if (dd->hide_directories) continue;
 				g_array_append_val(directories, i);
 			} else {
-				if ((dd->include_header || dd->hide_header) && g_str_equal(sced->path, "HEADER.txt")) {
+				if ((dd->include_header || dd->hide_header) && g_str_equal(sced->path->str, "HEADER.txt")) {
 					if (dd->hide_header) continue;
-				} else if ((dd->include_readme || dd->hide_readme) && g_str_equal(sced->path, "README.txt")) {
+				} else if ((dd->include_readme || dd->hide_readme) && g_str_equal(sced->path->str, "README.txt")) {
 					if (dd->hide_readme) continue;
 				}
 				g_array_append_val(files, i);
@@ -445,7 +445,7 @@ static liHandlerResult dirlist(liVRequest *vr, gpointer param, gpointer *context
 		}
 		li_g_string_append_len(listing, CONST_STR_LEN(html_header_end));
 
-		try_append_file(vr, &listing, "HEADER.txt", dd->encode_header);
+		if (dd->include_header) try_append_file(vr, &listing, "HEADER.txt", dd->encode_header);
 
 		li_string_encode(vr->request.uri.path->str, encoded, LI_ENCODING_HTML);
 		g_string_append_printf(listing, html_table_start, encoded->str);
@@ -528,7 +528,7 @@ static liHandlerResult dirlist(liVRequest *vr, gpointer param, gpointer *context
 
 		li_g_string_append_len(listing, CONST_STR_LEN(html_table_end));
 
-		try_append_file(vr, &listing, "README.txt", dd->encode_readme);
+		if (dd->include_readme) try_append_file(vr, &listing, "README.txt", dd->encode_readme);
 
 		if (dd->include_sort) {
 			li_g_string_append_len(listing, CONST_STR_LEN(javascript_sort));
-- 
2.43.0


From 351b745ddb105748fafba98f83aa70e4eeea098b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:26 +0000
Subject: [PATCH 23/35] fix: accesslog: bytes above 0x7f were escaped to
 arbitrary characters, including quotes

---
 src/modules/mod_accesslog.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/mod_accesslog.c b/src/modules/mod_accesslog.c
index 7fb6779..58e4ec3 100644
--- a/src/modules/mod_accesslog.c
+++ b/src/modules/mod_accesslog.c
@@ -124,9 +124,9 @@ static void al_append_escaped(GString *log, GString *str) {
 			} else {
 				/* non printable char => \xHH */
 				gchar hh[5] = {'\\','x',0,0,0};
-				gchar h = str->str[i] / 16;
+				gchar h = (guchar) str->str[i] / 16;
 				hh[2] = (h > 9) ? (h - 10 + 'A') : (h + '0');
-				h = str->str[i] % 16;
+				h = (guchar) str->str[i] % 16;
 				hh[3] = (h > 9) ? (h - 10 + 'A') : (h + '0');
 				li_g_string_append_len(log, &hh[0], 4);
 			}
-- 
2.43.0


From 8eb3211877f3dd333b21370d189301f962113a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:48 +0000
Subject: [PATCH 24/35] fix: config_lua: release the Lua lock and restore the
 environment when a script cannot be loaded

---
 src/main/config_lua.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/main/config_lua.c b/src/main/config_lua.c
index bf34252..e13b207 100644
--- a/src/main/config_lua.c
+++ b/src/main/config_lua.c
@@ -166,6 +166,13 @@ gboolean li_config_lua_load(liLuaState *LL, liServer *srv, liWorker *wrk, const
 
 	if (0 != luaL_loadfile(L, filename)) {
 		_ERROR(srv, wrk, NULL, "Loading script '%s' failed: %s", filename, lua_tostring(L, -1));
+		lua_pop(L, 1);
+
+		li_lua_environment_restore(LL); /* -1 */
+		li_lua_environment_restore_globals(L); /* -1 */
+
+		li_lua_unlock(LL);
+
 		return FALSE;
 	}
 
-- 
2.43.0


From 59f6feb5ff5fbaed455a7475bbbde23ac3c50a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:48 +0000
Subject: [PATCH 25/35] fix: config_lua: clean up the Lua stack after a failed
 script before restoring the environment

---
 src/main/config_lua.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/config_lua.c b/src/main/config_lua.c
index e13b207..f8dd4dc 100644
--- a/src/main/config_lua.c
+++ b/src/main/config_lua.c
@@ -195,7 +195,7 @@ gboolean li_config_lua_load(liLuaState *LL, liServer *srv, liWorker *wrk, const
 		_ERROR(srv, wrk, NULL, "lua_pcall(): %s", lua_tostring(L, -1));
 
 		/* cleanup stack */
-		if (lua_stack_top > lua_gettop(L)) {
+		if (lua_gettop(L) > lua_stack_top) {
 			lua_pop(L, lua_gettop(L) - lua_stack_top);
 		}
 
-- 
2.43.0


From 2f00e738b9a7b317f3a7e8c20df21031c54cf526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:48 +0000
Subject: [PATCH 26/35] fix: mod_limit: create the mutex for limit.req contexts

---
 src/modules/mod_limit.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modules/mod_limit.c b/src/modules/mod_limit.c
index 76eaef9..7cb9732 100644
--- a/src/modules/mod_limit.c
+++ b/src/modules/mod_limit.c
@@ -73,6 +73,7 @@ static mod_limit_context* mod_limit_context_new(mod_limit_context_type type, gin
 	case ML_TYPE_REQ:
 		ctx->pool.req.num = 0;
 		ctx->pool.req.ts = 0;
+		ctx->mutex = g_mutex_new();
 		break;
 	case ML_TYPE_REQ_IP:
 		ctx->pool.req_ip = li_radixtree_new();
-- 
2.43.0


From 88b75d1486ae9c41c6915abf1d83ad33604533cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:48 +0000
Subject: [PATCH 27/35] fix: mod_limit: limit.con N allows N, not N+1
 concurrent connections

---
 src/modules/mod_limit.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/mod_limit.c b/src/modules/mod_limit.c
index 7cb9732..522293e 100644
--- a/src/modules/mod_limit.c
+++ b/src/modules/mod_limit.c
@@ -236,13 +236,13 @@ static liHandlerResult mod_limit_action_handle(liVRequest *vr, gpointer param, g
 #ifdef GLIB_VERSION_2_30
 		/* since 2.30 g_atomic_int_add does the same as g_atomic_int_exchange_and_add,
 		 * before it didn't return the old value. this fixes the deprecation warning. */
-		if (g_atomic_int_add(&ctx->pool.con, 1) > ctx->limit) {
+		if (g_atomic_int_add(&ctx->pool.con, 1) >= ctx->limit) {
 			g_atomic_int_add(&ctx->pool.con, -1);
 			limit_reached = TRUE;
 			VR_DEBUG(vr, "limit.con: limit reached (%d active connections)", ctx->limit);
 		}
 #else
-		if (g_atomic_int_exchange_and_add(&ctx->pool.con, 1) > ctx->limit) {
+		if (g_atomic_int_exchange_and_add(&ctx->pool.con, 1) >= ctx->limit) {
 			g_atomic_int_add(&ctx->pool.con, -1);
 			limit_reached = TRUE;
 			VR_DEBUG(vr, "limit.con: limit reached (%d active connections)", ctx->limit);
-- 
2.43.0


From 44c148c9723a578237697d6ceeb87c8334c92da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:48 +0000
Subject: [PATCH 28/35] fix: backends: look at a wait's failed flag only under
 the pool lock

---
 src/main/backends.c | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/src/main/backends.c b/src/main/backends.c
index 4aa0932..a012488 100644
--- a/src/main/backends.c
+++ b/src/main/backends.c
@@ -1021,15 +1021,6 @@ void li_backend_wait_stop(liVRequest *vr, liBackendPool *bpool, liBackendWait **
 
 	LI_FORCE_ASSERT(vr == bwait->vr);
 
-	if (bwait->failed) {
-		bwait->vr = NULL;
-		li_job_ref_release(bwait->vr_ref);
-		bwait->vr_ref = NULL;
-		bwait->failed = FALSE;
-		g_slice_free(liBackendWait, bwait);
-		return;
-	}
-
 	g_mutex_lock(pool->lock);
 
 	if (!bwait->failed) {
-- 
2.43.0


From c477167956147dd8291d3f3352036640faa1030f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:48 +0000
Subject: [PATCH 29/35] fix: backends: close the socket of a backend connect
 that timed out

---
 src/main/backends.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/backends.c b/src/main/backends.c
index a012488..0b318f1 100644
--- a/src/main/backends.c
+++ b/src/main/backends.c
@@ -294,8 +294,9 @@ static void backend_pool_worker_connect_timeout(liWaitQueue *wq, gpointer data)
 
 	while (NULL != (elem = li_waitqueue_pop(wq))) {
 		liBackendConnection_p *con = LI_CONTAINER_OF(elem, liBackendConnection_p, timeout_elem);
+		int fd = li_event_io_fd(&con->public.watcher);
 		li_event_clear(&con->public.watcher);
-		close(li_event_io_fd(&con->public.watcher));
+		close(fd);
 		g_slice_free(liBackendConnection_p, con);
 
 		ERROR(srv, "Couldn't connect to '%s': timeout",
-- 
2.43.0


From 6ee525fdab4eb81be0302212e28ee804c8f77676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:09 +0000
Subject: [PATCH 30/35] fix: angel_connection: undo the registration of a call
 that could not be sent, under the lock

---
 src/common/angel_connection.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/common/angel_connection.c b/src/common/angel_connection.c
index 691a7b4..9f05a1f 100644
--- a/src/common/angel_connection.c
+++ b/src/common/angel_connection.c
@@ -676,11 +676,14 @@ gboolean li_angel_send_call(
 	return TRUE;
 
 error:
-	if (-1 != call->id) {
-		li_idlist_put(acon->call_id_list, call->id);
-		call->id = -1;
-		call->acon = NULL;
-	}
+	g_mutex_lock(acon->mutex);
+		if (-1 != call->id) {
+			g_ptr_array_index(acon->call_table, call->id) = NULL;
+			li_idlist_put(acon->call_id_list, call->id);
+			call->id = -1;
+			call->acon = NULL;
+		}
+	g_mutex_unlock(acon->mutex);
 error_before_new_id:
 	if (data) g_string_free(data, TRUE);
 	if (buf) g_string_free(buf, TRUE);
-- 
2.43.0


From d4fef51f6835421ab493ccedb3251595ac9ab8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:09 +0000
Subject: [PATCH 31/35] fix: angel: close both ends of the socketpair when the
 worker cannot be forked

---
 src/angel/angel_server.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/angel/angel_server.c b/src/angel/angel_server.c
index cd903cd..fe08000 100644
--- a/src/angel/angel_server.c
+++ b/src/angel/angel_server.c
@@ -181,7 +181,12 @@ static void instance_spawn(liInstance *i) {
 	i->proc = li_proc_new(i->srv, i->ic->cmd, i->ic->env, i->ic->uid, i->ic->gid,
 		i->ic->username != NULL ? i->ic->username->str : NULL, i->ic->rlim_core, i->ic->rlim_nofile, instance_spawn_setup, confd);
 
-	if (!i->proc) return;
+	if (!i->proc) {
+		close(confd[1]);
+		li_angel_connection_free(i->acon);
+		i->acon = NULL;
+		return;
+	}
 
 	i->pid = i->proc->child_pid;
 	close(confd[1]);
-- 
2.43.0


From 335408e6ea2166bef714bca1498398434e3f148a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:05 +0000
Subject: [PATCH 32/35] fix: filter_buffer_on_disk: don't forward data twice
 after a partial write

If pwrite() stored only a part of a chunk and then failed (disk full, file
size limit) the stored part was flushed from the temporary file, and then
the complete chunk was forwarded too.
---
 src/main/filter_buffer_on_disk.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/filter_buffer_on_disk.c b/src/main/filter_buffer_on_disk.c
index 34a61a7..0a33c6b 100644
--- a/src/main/filter_buffer_on_disk.c
+++ b/src/main/filter_buffer_on_disk.c
@@ -161,6 +161,8 @@ static void bod_handle_data(bod_state *state) {
 					}
 
 					VR_ERROR(state->vr, "pwrite failed: %s", g_strerror(errno));
+					/* the part we already wrote gets forwarded from the file */
+					li_chunkqueue_skip(in, length - data_len);
 					bod_stop(state); /* write failures are not critical */
 					return;
 				}
-- 
2.43.0


From b0290ec67396ea5a8957c17b7915d3b18d763434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:05 +0000
Subject: [PATCH 33/35] fix: chunk: li_chunkqueue_steal_chunk has to move the
 memory usage too

If both queues shared a limit (or had none) mem_usage stayed with the old
queue and freeing the chunk in the new one failed the mem_usage >= 0
assertion.
---
 src/main/chunk.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/main/chunk.c b/src/main/chunk.c
index 3308d9e..a0450a8 100644
--- a/src/main/chunk.c
+++ b/src/main/chunk.c
@@ -762,6 +762,13 @@ goffset li_chunkqueue_steal_chunk(liChunkQueue *out, liChunkQueue *in) {
 			cqlimit_update(out, c->data.buffer.length);
 			cqlimit_update(in, - (goffset)c->data.buffer.length);
 		}
+	} else {
+		goffset memusage = 0;
+		if (c->type == STRING_CHUNK) memusage = c->data.str->len;
+		else if (c->type == MEM_CHUNK) memusage = c->mem->len;
+		else if (c->type == BUFFER_CHUNK) memusage = c->data.buffer.length;
+		out->mem_usage += memusage;
+		in->mem_usage -= memusage;
 	}
 	return length;
 }
-- 
2.43.0


From d20755044a34de047a726c82f1b04fc75e7f5fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:05 +0000
Subject: [PATCH 34/35] fix: chunk: li_chunkqueue_extract_to_memory: the
 destination isn't a GByteArray

After a read error the memory was resized as if it was a GByteArray.
---
 src/main/chunk.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/main/chunk.c b/src/main/chunk.c
index a0450a8..c314e95 100644
--- a/src/main/chunk.c
+++ b/src/main/chunk.c
@@ -862,7 +862,7 @@ gboolean li_chunkqueue_extract_to_memory(liChunkQueue *cq, goffset len, void *de
 		while (coff < clen) {
 			gchar *buf;
 			off_t we_have;
-			if (LI_HANDLER_GO_ON != li_chunkiter_read(ci, coff, len, &buf, &we_have, err)) goto error;
+			if (LI_HANDLER_GO_ON != li_chunkiter_read(ci, coff, len, &buf, &we_have, err)) return FALSE;
 			memcpy(cdest, buf, we_have);
 			cdest += we_have;
 			coff += we_have;
@@ -873,10 +873,6 @@ gboolean li_chunkqueue_extract_to_memory(liChunkQueue *cq, goffset len, void *de
 	}
 
 	return TRUE;
-
-error:
-	g_byte_array_set_size(dest, 0);
-	return FALSE;
 }
 
 gboolean li_chunkqueue_extract_to_bytearr(liChunkQueue *cq, goffset len, GByteArray *dest, GError **err) {
-- 
2.43.0


From a8f8343c32efbc781c0ae5ba0d914a80ea66e69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:22 +0000
Subject: [PATCH 35/35] fix: network_sendfile: keep going after the write
 fallback, look at the file to see whether it shrank

After the fallback to write() r is 0, which was taken for the end of the
file: the connection was aborted although the data had been sent. fstat()
was called for the socket instead of the file, and a file truncated to
exactly the current offset was waited for for ever.
---
 src/main/network_sendfile.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/main/network_sendfile.c b/src/main/network_sendfile.c
index fa7b3b5..ad3f59b 100644
--- a/src/main/network_sendfile.c
+++ b/src/main/network_sendfile.c
@@ -188,7 +188,9 @@ static liNetworkStatus network_backend_sendfile(int fd, liChunkQueue *cq, goffse
 			return LI_NETWORK_STATUS_WAIT_FOR_EVENT;
 		case NSR_FALLBACK:
 			LI_NETWORK_FALLBACK(li_network_backend_write, write_max);
-			break;
+			did_write_something = TRUE;
+			if (0 == cq->length) return LI_NETWORK_STATUS_SUCCESS;
+			continue;
 		case NSR_CLOSE:
 			return LI_NETWORK_STATUS_CONNECTION_CLOSE;
 		case NSR_FATAL_ERROR:
@@ -197,12 +199,12 @@ static liNetworkStatus network_backend_sendfile(int fd, liChunkQueue *cq, goffse
 		if (0 == r) {
 			/* don't care about cached stat - file is open */
 			struct stat st;
-			if (-1 == fstat(fd, &st)) {
+			if (-1 == fstat(c->data.file.file->fd, &st)) {
 				g_set_error(err, LI_NETWORK_ERROR, 0, "network_backend_sendfile: Couldn't fstat file: %s", g_strerror(errno));
 				return LI_NETWORK_STATUS_FATAL_ERROR;
 			}
 
-			if (file_offset > st.st_size) {
+			if (file_offset >= st.st_size) {
 				/* file shrank, close the connection */
 				g_set_error(err, LI_NETWORK_ERROR, 0, "network_backend_sendfile: File shrank, aborting");
 				return LI_NETWORK_STATUS_FATAL_ERROR;
-- 
2.43.0

