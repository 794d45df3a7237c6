From 79a256601c74991c1405f6631a75dd2f2720b497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:04 +0000
Subject: [PATCH 01/31] fix: deliver every event_signal

The eventfd is a semaphore that is read once per callback, but it was
registered edge-triggered: signals raised before the loop got to run were
counted by the kernel and never delivered. Register it level-triggered so
that it is read until the count is zero.
---
 src/reactor/event.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactor/event.c b/src/reactor/event.c
index c66e6e1..f9785cb 100644
--- a/src/reactor/event.c
+++ b/src/reactor/event.c
@@ -33,7 +33,7 @@ void event_open(event *event)
 
   fd = eventfd(0, EFD_CLOEXEC | EFD_NONBLOCK | EFD_SEMAPHORE);
   assert(fd != -1);
-  descriptor_open(&event->descriptor, fd, DESCRIPTOR_READ);
+  descriptor_open(&event->descriptor, fd, DESCRIPTOR_READ | DESCRIPTOR_LEVEL);
 }
 
 int event_is_open(event *event)
-- 
2.43.0


From dd43dd80bd705da12bfa2761c0969aa0596f7468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:04 +0000
Subject: [PATCH 02/31] fix: tolerate a timer that is re-armed while its
 expiration is pending

A callback that runs earlier in the same batch may call timer_set() on a
timer whose expiration is already queued. Re-arming resets the expiration
count, so the read returns EAGAIN and the assertion aborted the process.
---
 src/reactor/timer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reactor/timer.c b/src/reactor/timer.c
index a141b88..c17ba20 100644
--- a/src/reactor/timer.c
+++ b/src/reactor/timer.c
@@ -28,7 +28,8 @@ static void timer_callback(reactor_event *event)
     assert(n == sizeof expirations);
     total += expirations;
   }
-  assert(total);
+  if (total == 0)
+    return;
   reactor_dispatch(&timer->handler, TIMER_EXPIRATION, total);
 }
 
-- 
2.43.0


From a5585f40352285e1c84c3f2308a43c45f8e85665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:04 +0000
Subject: [PATCH 03/31] fix: do not abort when a stream peer is gone

Writing to a connection the peer has closed or reset fails with EPIPE or
ECONNRESET, which asserted, so any client could take down the process.
Leave the output in place: the descriptor reports the close.
---
 src/reactor/stream.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/reactor/stream.c b/src/reactor/stream.c
index 48d24bc..e11e714 100644
--- a/src/reactor/stream.c
+++ b/src/reactor/stream.c
@@ -55,10 +55,7 @@ static void stream_socket_write(stream *stream)
   {
     n = write(descriptor_fd(&stream->descriptor), data + total, size - total);
     if (n == -1)
-    {
-      assert(errno == EAGAIN);
       break;
-    }
     total += n;
   }
   buffer_erase(&stream->output, 0, total);
-- 
2.43.0


From e7c3f30d910c97642e975fae584c18f72276af29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:04 +0000
Subject: [PATCH 04/31] fix: send STREAM_WRITE only when it was asked for and
 output is drained

On plain sockets a stream announced STREAM_WRITE whenever output drained,
asked for or not, and also while output was still queued once a notify was
pending. The server takes the unexpected event for a close and dropped the
connection after any response larger than the socket buffer. Use the same
condition as for TLS.
---
 src/reactor/stream.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactor/stream.c b/src/reactor/stream.c
index e11e714..1f3151e 100644
--- a/src/reactor/stream.c
+++ b/src/reactor/stream.c
@@ -75,7 +75,7 @@ static void stream_socket_callback(reactor_event *event)
     break;
   case DESCRIPTOR_WRITE:
     stream_socket_write(stream);
-    if (buffer_size(&stream->output) == 0 || stream->notify)
+    if (buffer_size(&stream->output) == 0 && stream->notify)
     {
       stream->notify = 0;
       stream_socket_update(stream);
-- 
2.43.0


From 344dfc00a3e43be1cf18905e8adc843e5f376b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:04 +0000
Subject: [PATCH 05/31] fix: flush TLS output until it would block

With partial writes enabled SSL_write() sends one record at a time, while
the descriptor is edge-triggered: a socket that stays writable gives no
further event, so TLS output over TCP stalled after two records.
---
 src/reactor/stream.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/reactor/stream.c b/src/reactor/stream.c
index 1f3151e..747d42b 100644
--- a/src/reactor/stream.c
+++ b/src/reactor/stream.c
@@ -135,9 +135,12 @@ static void stream_ssl_flush(stream *stream)
   ssize_t n;
 
   assert(stream_ssl_activated);
-  n = SSL_write(stream->ssl, buffer_data(&stream->output), buffer_size(&stream->output));
-  if (n > 0)
-    buffer_erase(&stream->output, 0, n);
+  do
+  {
+    n = SSL_write(stream->ssl, buffer_data(&stream->output), buffer_size(&stream->output));
+    if (n > 0)
+      buffer_erase(&stream->output, 0, n);
+  } while (n > 0 && buffer_size(&stream->output));
   stream->ssl_state = SSL_get_error(stream->ssl, n);
 }
 
-- 
2.43.0


From ba15d16a30e61e97de0609eb552792ef7bd09734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:04 +0000
Subject: [PATCH 06/31] fix: forget the TLS session when a stream is closed

The pointer was left dangling, so a stream reopened without TLS went on to
use the freed session.
---
 src/reactor/stream.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/reactor/stream.c b/src/reactor/stream.c
index 747d42b..0bab56f 100644
--- a/src/reactor/stream.c
+++ b/src/reactor/stream.c
@@ -245,6 +245,8 @@ void stream_close(stream *stream)
 
   if (stream_ssl_activated)
     SSL_free(stream->ssl);
+  stream->ssl = NULL;
+  stream->ssl_state = 0;
 
   stream->notify = 0;
   descriptor_close(&stream->descriptor);
-- 
2.43.0


From 359103ef6b98119f84fd5421b0b0fc5785f199ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:04 +0000
Subject: [PATCH 07/31] fix: make stream_flush on a closed stream a no-op

It tried to modify descriptor -1 and asserted. stream_notify and
stream_close already accept a closed stream.
---
 src/reactor/stream.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/reactor/stream.c b/src/reactor/stream.c
index 0bab56f..17513e0 100644
--- a/src/reactor/stream.c
+++ b/src/reactor/stream.c
@@ -279,6 +279,8 @@ void *stream_allocate(stream *stream, size_t size)
 
 void stream_flush(stream *stream)
 {
+  if (!descriptor_is_open(&stream->descriptor))
+    return;
   if (stream->ssl)
   {
     stream_ssl_flush(stream);
-- 
2.43.0


From dc14f2323b0b5473e54cb98d5e037b5675733d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:18 +0000
Subject: [PATCH 08/31] fix: keep the HTTP parser inside the buffer while
 skipping spaces

---
 src/picohttpparser/picohttpparser.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/picohttpparser/picohttpparser.c b/src/picohttpparser/picohttpparser.c
index 74ccc3e..77bd596 100644
--- a/src/picohttpparser/picohttpparser.c
+++ b/src/picohttpparser/picohttpparser.c
@@ -355,10 +355,12 @@ static const char *parse_request(const char *buf, const char *buf_end, const cha
     ADVANCE_TOKEN(*method, *method_len);
     do {
         ++buf;
+        CHECK_EOF();
     } while (*buf == ' ');
     ADVANCE_TOKEN(*path, *path_len);
     do {
         ++buf;
+        CHECK_EOF();
     } while (*buf == ' ');
     if (*method_len == 0 || *path_len == 0) {
         *ret = -1;
@@ -422,6 +424,7 @@ static const char *parse_response(const char *buf, const char *buf_end, int *min
     }
     do {
         ++buf;
+        CHECK_EOF();
     } while (*buf == ' ');
     /* parse status code, we want at least [:digit:][:digit:][:digit:]<other char> to try to parse */
     if (buf_end - buf < 4) {
-- 
2.43.0


From 13cef5edd78c83a4dca3af1e672801543003a34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:18 +0000
Subject: [PATCH 09/31] fix: size the HTTP response for the date that is
 written

---
 src/reactor/http.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactor/http.c b/src/reactor/http.c
index 1fb7124..7a8cab7 100644
--- a/src/reactor/http.c
+++ b/src/reactor/http.c
@@ -111,7 +111,7 @@ void http_write_response(stream *stream, data status, data date, data type, data
   utility_u32_sprint(data_size(body), storage + size);
   length = data_construct(storage, size);
 
-  p = stream_allocate(stream, 9 + data_size(status) + 2 + 17 + 37 +
+  p = stream_allocate(stream, 9 + data_size(status) + 2 + 17 + 8 + data_size(date) +
                       (data_empty(type) ? 0 : 16 + data_size(type)) +
                       (18 + data_size(length)) + 2 + data_size(body));
   pointer_push(&p, data_string("HTTP/1.1 "));
-- 
2.43.0


From 511824060363a03510548f384d07f822e098266f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:41 +0000
Subject: [PATCH 10/31] fix: do not abort when the inotify queue overflows

---
 src/reactor/notify.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/reactor/notify.c b/src/reactor/notify.c
index d33feff..7643695 100644
--- a/src/reactor/notify.c
+++ b/src/reactor/notify.c
@@ -42,10 +42,12 @@ static void notify_callback(reactor_event *event)
     {
       inotify_event = (struct inotify_event *) p;
       e = list_front(&notify->entries);
-      while (e->id != inotify_event->wd)
-      {
+      while (e != list_end(&notify->entries) && e->id != inotify_event->wd)
         e = list_next(e);
-        assert(e != list_end(&notify->entries));
+      if (e == list_end(&notify->entries))
+      {
+        notify->errors++;
+        continue;
       }
       notify_event = (struct notify_event) {.mask = inotify_event->mask, .id = e->id,
         .name = inotify_event->len ? inotify_event->name : "", .path = e->path};
-- 
2.43.0


From 1d3256099934d457dc15d0dab2052be64a991bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:41 +0000
Subject: [PATCH 11/31] fix: forget watches and stop delivery on notify_clear

---
 src/reactor/notify.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/reactor/notify.c b/src/reactor/notify.c
index 7643695..7dc2f56 100644
--- a/src/reactor/notify.c
+++ b/src/reactor/notify.c
@@ -71,6 +71,12 @@ void notify_construct(notify *notify, reactor_callback *callback, void *state)
 void notify_clear(notify *notify)
 {
   descriptor_close(&notify->descriptor);
+  list_clear(&notify->entries, notify_release_entry);
+  if (notify->cancel)
+  {
+    *(notify->cancel) = 1;
+    notify->cancel = NULL;
+  }
 }
 
 int notify_watch(notify *notify, char *path, uint32_t mask)
@@ -99,9 +105,4 @@ void notify_destruct(notify *notify)
 {
   notify_clear(notify);
   list_destruct(&notify->entries, notify_release_entry);
-  if (notify->cancel)
-  {
-    *(notify->cancel) = 1;
-    notify->cancel = NULL;
-  }
 }
-- 
2.43.0


From 9645cbbac9dcc9c9af250ca6d34826040c3c43fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:01 +0000
Subject: [PATCH 12/31] fix: continue string_write after a short write

---
 src/reactor/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactor/string.c b/src/reactor/string.c
index 4c09f92..b204333 100644
--- a/src/reactor/string.c
+++ b/src/reactor/string.c
@@ -220,7 +220,7 @@ void string_write(string s, int fd)
   {
     n = write(fd, s + offset, string_size(s) - offset);
     assert(n > 0);
-    offset -= n;
+    offset += n;
   }
 }
 
-- 
2.43.0


From 2ce0f6fc9419235f868fa58fe8eb723637b27ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:01 +0000
Subject: [PATCH 13/31] fix: truncate the file in string_save

---
 src/reactor/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactor/string.c b/src/reactor/string.c
index b204333..30472e3 100644
--- a/src/reactor/string.c
+++ b/src/reactor/string.c
@@ -228,7 +228,7 @@ int string_save(string s, const char *path)
 {
   int fd;
 
-  fd = open(path, O_WRONLY);
+  fd = open(path, O_WRONLY | O_TRUNC);
   if (fd == -1)
     return -1;
 
-- 
2.43.0


From 9c3bb3d45eae7991291882b7e1689a1ee1ae5f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:01 +0000
Subject: [PATCH 14/31] fix: release empty strings that are not the null string

---
 src/reactor/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactor/string.c b/src/reactor/string.c
index 30472e3..3a7b579 100644
--- a/src/reactor/string.c
+++ b/src/reactor/string.c
@@ -35,7 +35,7 @@ string string_null(void)
 
 void string_free(string s)
 {
-  if (!string_equal(s, string_null()))
+  if (s != string_null())
     free(string_header(s));
 }
 
-- 
2.43.0


From b972c14e605cdb13f4600fbd9848a01771c269c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:01 +0000
Subject: [PATCH 15/31] fix: do not write to the shared null string

---
 src/reactor/string.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/reactor/string.c b/src/reactor/string.c
index 3a7b579..d6c55f9 100644
--- a/src/reactor/string.c
+++ b/src/reactor/string.c
@@ -93,6 +93,8 @@ string string_allocate(string s, size_t capacity)
 string string_resize(string s, size_t size)
 {
   s = string_allocate(s, size);
+  if (s == string_null())
+    return s;
   string_header(s)->size = size;
   s[size] = 0;
   return s;
-- 
2.43.0


From 9be0cf5d0ab5b185c333cc9e44e6125cec5c9b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:01 +0000
Subject: [PATCH 16/31] fix: report a failed socket() from net_socket

---
 src/reactor/net.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/reactor/net.c b/src/reactor/net.c
index 4849c5d..363fde9 100644
--- a/src/reactor/net.c
+++ b/src/reactor/net.c
@@ -27,6 +27,11 @@ int net_socket(struct addrinfo *addrinfo)
   if (!addrinfo)
     return -1;
   fd = socket(addrinfo->ai_family, addrinfo->ai_socktype | SOCK_NONBLOCK, addrinfo->ai_protocol);
+  if (fd == -1)
+  {
+    freeaddrinfo(addrinfo);
+    return -1;
+  }
   if (addrinfo->ai_flags & AI_PASSIVE)
   {
     (void) setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, (int[]) {1}, sizeof(int));
-- 
2.43.0


From eeb0029206a678721cfc06ddd1db64bd2c3c8f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:15 +0000
Subject: [PATCH 17/31] fix: wait for the thread of an async call before its
 state is reused

---
 src/reactor/async.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/reactor/async.c b/src/reactor/async.c
index 0ee4cb7..37ca798 100644
--- a/src/reactor/async.c
+++ b/src/reactor/async.c
@@ -18,7 +18,6 @@ static void async_callback(reactor_event *event)
   async *async = event->state;
 
   assert(event->type == EVENT_SIGNAL);
-  async->thread = 0;
   async_cancel(async);
   reactor_dispatch(&async->handler, ASYNC_DONE, 0);
 }
@@ -39,12 +38,9 @@ void async_destruct(async *async)
 void async_call(async *async)
 {
   int e;
-  pthread_attr_t attr;
 
   event_open(&async->event);
-  pthread_attr_init(&attr);
-  pthread_attr_setdetachstate(&attr, PTHREAD_CREATE_DETACHED);
-  e = pthread_create(&async->thread, &attr, async_thread, async);
+  e = pthread_create(&async->thread, NULL, async_thread, async);
   assert(e == 0);
 }
 
@@ -52,11 +48,12 @@ void async_cancel(async *async)
 {
   if (event_is_open(&async->event))
   {
-    event_close(&async->event);
     if (async->thread)
     {
       (void) pthread_cancel(async->thread);
+      (void) pthread_join(async->thread, NULL);
       async->thread = 0;
     }
+    event_close(&async->event);
   }
 }
-- 
2.43.0


From dd56c37a3ff66bba4c6ab9ed6a7863ebed48006b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:27 +0000
Subject: [PATCH 18/31] fix: have a valid Date before the first timer
 expiration

---
 src/reactor/server.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/reactor/server.c b/src/reactor/server.c
index c185fd3..1bbed61 100644
--- a/src/reactor/server.c
+++ b/src/reactor/server.c
@@ -197,6 +197,7 @@ void server_construct(server *server, reactor_callback *callback, void *state)
   *server = (struct server) {0};
   reactor_handler_construct(&server->handler, callback, state);
   timer_construct(&server->timer, server_timer_callback, server);
+  server_date_update();
   list_construct(&server->requests);
 }
 
-- 
2.43.0


From 3fcd6b4f2a02a3f3267da8f9aabe4ea4abc50fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:27 +0000
Subject: [PATCH 19/31] fix: retry accepting connections after a transient
 failure

---
 src/reactor/server.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/reactor/server.c b/src/reactor/server.c
index 1bbed61..4b88053 100644
--- a/src/reactor/server.c
+++ b/src/reactor/server.c
@@ -151,7 +151,7 @@ static void server_socket_open(server *server, int fd)
 {
   timer_set(&server->timer, 0, 1000000000);
   descriptor_construct(&server->descriptor, server_socket_descriptor_callback, server);
-  descriptor_open(&server->descriptor, fd, DESCRIPTOR_READ);
+  descriptor_open(&server->descriptor, fd, DESCRIPTOR_READ | DESCRIPTOR_LEVEL);
 }
 
 /* ssl socket routines */
@@ -187,7 +187,7 @@ static void server_ssl_open(server *server, int fd, SSL_CTX *ssl_ctx)
   server->ssl_ctx = ssl_ctx;
   timer_set(&server->timer, 0, 1000000000);
   descriptor_construct(&server->descriptor, server_ssl_descriptor_callback, server);
-  descriptor_open(&server->descriptor, fd, DESCRIPTOR_READ);
+  descriptor_open(&server->descriptor, fd, DESCRIPTOR_READ | DESCRIPTOR_LEVEL);
 }
 
 /* public */
-- 
2.43.0


From 00676e35af615c21bb58db0779915f35d41955cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:27 +0000
Subject: [PATCH 20/31] fix: let a server shutdown drop its reference to a
 request only once

---
 src/reactor/server.c | 9 +++++++--
 src/reactor/server.h | 1 +
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/reactor/server.c b/src/reactor/server.c
index 4b88053..9ac2d86 100644
--- a/src/reactor/server.c
+++ b/src/reactor/server.c
@@ -224,7 +224,11 @@ void server_shutdown(server *server)
   while (request != list_end(&server->requests))
   {
     next = list_next(request);
-    server_release(request);
+    if (!request->shutdown)
+    {
+      request->shutdown = 1;
+      server_release(request);
+    }
     request = next;
   }
 
@@ -250,7 +254,8 @@ void server_close(server_request *request)
   {
     stream_close(&request->stream);
     request->state = SERVER_REQUEST_CLOSED;
-    server_release(request);
+    if (!request->shutdown)
+      server_release(request);
   }
 }
 
diff --git a/src/reactor/server.h b/src/reactor/server.h
index 68d11ed..f023a37 100644
--- a/src/reactor/server.h
+++ b/src/reactor/server.h
@@ -36,6 +36,7 @@ struct server_request
   size_t              ref;
   enum server_state   state;
   int                 event_triggered;
+  int                 shutdown;
   reactor_handler     handler;
   stream              stream;
   data                data;
-- 
2.43.0


From 8eaa51265f003d3e9aff091a68d7df1fb3b47149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:45 +0000
Subject: [PATCH 21/31] fix: report a failed listen() from net_socket

---
 src/reactor/net.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/reactor/net.c b/src/reactor/net.c
index 363fde9..3339903 100644
--- a/src/reactor/net.c
+++ b/src/reactor/net.c
@@ -37,17 +37,14 @@ int net_socket(struct addrinfo *addrinfo)
     (void) setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, (int[]) {1}, sizeof(int));
     (void) setsockopt(fd, SOL_SOCKET, SO_REUSEPORT, (int[]) {1}, sizeof(int));
     e = bind(fd, addrinfo->ai_addr, addrinfo->ai_addrlen);
+    if (e == 0)
+      e = listen(fd, INT_MAX);
     if (e == -1)
     {
       e = close(fd);
       assert(e == 0);
       fd = -1;
     }
-    else
-    {
-      e = listen(fd, INT_MAX);
-      assert(e == 0);
-    }
   }
   else
     (void) connect(fd, addrinfo->ai_addr, addrinfo->ai_addrlen);
-- 
2.43.0


From 791509fe680bd008ebe32601edd0a245e48f26f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:24 +0000
Subject: [PATCH 22/31] fix: keep the loop alive with short timer intervals

---
 src/reactor/timer.c | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/src/reactor/timer.c b/src/reactor/timer.c
index c17ba20..0c9cd08 100644
--- a/src/reactor/timer.c
+++ b/src/reactor/timer.c
@@ -13,24 +13,17 @@
 static void timer_callback(reactor_event *event)
 {
   timer *timer = event->state;
-  uint64_t expirations, total;
+  uint64_t expirations;
   ssize_t n;
 
-  total = 0;
-  while (1)
+  n = read(descriptor_fd(&timer->descriptor), &expirations, sizeof expirations);
+  if (n == -1)
   {
-    n = read(descriptor_fd(&timer->descriptor), &expirations, sizeof expirations);
-    if (n == -1)
-    {
-      assert(errno == EAGAIN);
-      break;
-    }
-    assert(n == sizeof expirations);
-    total += expirations;
-  }
-  if (total == 0)
+    assert(errno == EAGAIN);
     return;
-  reactor_dispatch(&timer->handler, TIMER_EXPIRATION, total);
+  }
+  assert(n == sizeof expirations);
+  reactor_dispatch(&timer->handler, TIMER_EXPIRATION, expirations);
 }
 
 void timer_construct(timer *timer, reactor_callback *callback, void *state)
-- 
2.43.0


From ce956ccce46a9df9d66b94b4c78fc7332551cede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:58 +0000
Subject: [PATCH 23/31] fix: resume an unfinished handshake when flushing a TLS
 stream

stream_ssl_flush() continued a handshake with SSL_write() of whatever output there was. When a handshake
message is still partly unsent (a server flight larger than the socket send buffer), OpenSSL fails that
call for good with 'bad length' if the output is shorter than the message, and the connection is lost.
---
 src/reactor/stream.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/reactor/stream.c b/src/reactor/stream.c
index 17513e0..fb7191d 100644
--- a/src/reactor/stream.c
+++ b/src/reactor/stream.c
@@ -135,12 +135,14 @@ static void stream_ssl_flush(stream *stream)
   ssize_t n;
 
   assert(stream_ssl_activated);
-  do
+  /* SSL_write() can not resume a handshake message that is longer than the data written */
+  n = SSL_do_handshake(stream->ssl);
+  while (n > 0 && buffer_size(&stream->output))
   {
     n = SSL_write(stream->ssl, buffer_data(&stream->output), buffer_size(&stream->output));
     if (n > 0)
       buffer_erase(&stream->output, 0, n);
-  } while (n > 0 && buffer_size(&stream->output));
+  }
   stream->ssl_state = SSL_get_error(stream->ssl, n);
 }
 
-- 
2.43.0


From 833270070d73312768d3689cd6f520288b40aa0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:24 +0000
Subject: [PATCH 24/31] fix: forget the TLS context when a server is reopened
 without TLS

server_accept() on such a server took the connections for TLS connections.
---
 src/reactor/server.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/reactor/server.c b/src/reactor/server.c
index 9ac2d86..594f6aa 100644
--- a/src/reactor/server.c
+++ b/src/reactor/server.c
@@ -149,6 +149,7 @@ static void server_socket_descriptor_callback(reactor_event *event)
 
 static void server_socket_open(server *server, int fd)
 {
+  server->ssl_ctx = NULL;
   timer_set(&server->timer, 0, 1000000000);
   descriptor_construct(&server->descriptor, server_socket_descriptor_callback, server);
   descriptor_open(&server->descriptor, fd, DESCRIPTOR_READ | DESCRIPTOR_LEVEL);
-- 
2.43.0


From a441ea5c1ecd134bc573e6d293a4388e32617c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:34 +0000
Subject: [PATCH 25/31] fix: honour the protocol of a resolver lookup

---
 src/reactor/resolver.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/reactor/resolver.c b/src/reactor/resolver.c
index 131b4cd..da595ef 100644
--- a/src/reactor/resolver.c
+++ b/src/reactor/resolver.c
@@ -6,11 +6,15 @@
 static void resolver_callback(reactor_event *event)
 {
   resolver *resolver = event->state;
+  struct addrinfo hints;
 
   switch (event->type)
   {
   case ASYNC_CALL:
-    resolver->addrinfo = net_resolve(resolver->host, resolver->service, resolver->family, resolver->type, resolver->flags);
+    hints = (struct addrinfo) {.ai_family = resolver->family, .ai_socktype = resolver->type,
+                               .ai_protocol = resolver->protocol, .ai_flags = resolver->flags};
+    if (getaddrinfo(resolver->host, resolver->service, &hints, &resolver->addrinfo) != 0)
+      resolver->addrinfo = NULL;
     break;
   default:
   case ASYNC_DONE:
-- 
2.43.0


From e0c061eac0bf93b50c94f85775540b2061f7aab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:43 +0000
Subject: [PATCH 26/31] fix: do not cancel a resolver lookup inside getaddrinfo

---
 src/reactor/resolver.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/reactor/resolver.c b/src/reactor/resolver.c
index da595ef..4c3df4f 100644
--- a/src/reactor/resolver.c
+++ b/src/reactor/resolver.c
@@ -1,5 +1,6 @@
 #include <string.h>
 #include <netdb.h>
+#include <pthread.h>
 
 #include "reactor.h"
 
@@ -7,14 +8,18 @@ static void resolver_callback(reactor_event *event)
 {
   resolver *resolver = event->state;
   struct addrinfo hints;
+  int state;
 
   switch (event->type)
   {
   case ASYNC_CALL:
     hints = (struct addrinfo) {.ai_family = resolver->family, .ai_socktype = resolver->type,
                                .ai_protocol = resolver->protocol, .ai_flags = resolver->flags};
+    /* getaddrinfo is not safe to cancel, it would leave descriptors, memory and locks behind */
+    (void) pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &state);
     if (getaddrinfo(resolver->host, resolver->service, &hints, &resolver->addrinfo) != 0)
       resolver->addrinfo = NULL;
+    (void) pthread_setcancelstate(state, NULL);
     break;
   default:
   case ASYNC_DONE:
-- 
2.43.0


From c5646d0eb2b709852894ff0ba73656f73d68a42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:20 +0000
Subject: [PATCH 27/31] fix: write the Content-Length of bodies of 4 GiB and
 more

---
 src/reactor/http.c | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/reactor/http.c b/src/reactor/http.c
index 7a8cab7..586a4ba 100644
--- a/src/reactor/http.c
+++ b/src/reactor/http.c
@@ -34,6 +34,22 @@ data http_field_lookup(http_field *fields, size_t fields_count, data name)
   return data_null();
 }
 
+/* http content length */
+
+static data http_length(size_t n, char *storage, size_t storage_size)
+{
+  size_t size;
+
+  if (n > UINT32_MAX)
+    size = snprintf(storage, storage_size, "%zu", n);
+  else
+  {
+    size = utility_u32_len(n);
+    utility_u32_sprint(n, storage + size);
+  }
+  return data_construct(storage, size);
+}
+
 /* http request */
 
 ssize_t http_read_request(stream *stream, data *method, data *target, http_field *fields, size_t *fields_count)
@@ -56,14 +72,11 @@ ssize_t http_read_request_data(data buffer, data *method, data *target, http_fie
 
 void http_write_request(stream *stream, data method, data target, data host, data type, data body)
 {
-  char storage[16];
-  size_t size;
+  char storage[24];
   data length;
   pointer p;
 
-  size = utility_u32_len(data_size(body));
-  utility_u32_sprint(data_size(body), storage + size);
-  length = data_construct(storage, size);
+  length = http_length(data_size(body), storage, sizeof storage);
 
   p = stream_allocate(stream,
                       data_size(method) + 1 + data_size(target) + 11 +
@@ -102,14 +115,11 @@ ssize_t http_read_response(stream *stream, int *status_code, data *status, http_
 
 void http_write_response(stream *stream, data status, data date, data type, data body)
 {
-  char storage[16];
-  size_t size;
+  char storage[24];
   data length;
   pointer p;
 
-  size = utility_u32_len(data_size(body));
-  utility_u32_sprint(data_size(body), storage + size);
-  length = data_construct(storage, size);
+  length = http_length(data_size(body), storage, sizeof storage);
 
   p = stream_allocate(stream, 9 + data_size(status) + 2 + 17 + 8 + data_size(date) +
                       (data_empty(type) ? 0 : 16 + data_size(type)) +
-- 
2.43.0


From 5e1b8865f0ed41925e3651ffa773ac3c2390e653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:42 +0000
Subject: [PATCH 28/31] fix: finish the handshake of a TLS stream that is not
 open for reading

---
 src/reactor/stream.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/reactor/stream.c b/src/reactor/stream.c
index fb7191d..2c4d29f 100644
--- a/src/reactor/stream.c
+++ b/src/reactor/stream.c
@@ -101,7 +101,7 @@ static void stream_socket_open(stream *stream, int fd)
 
 static int stream_ssl_mask(stream *stream)
 {
-  return (stream->mask & STREAM_READ) |
+  return (stream->mask & STREAM_READ) | (stream->ssl_state == SSL_ERROR_WANT_READ ? STREAM_READ : 0) |
     ((stream->ssl_state == SSL_ERROR_WANT_WRITE) | buffer_size(&stream->output) | stream->notify ? STREAM_WRITE : 0);
 }
 
@@ -154,6 +154,13 @@ static void stream_ssl_callback(reactor_event *event)
   switch (event->type)
   {
   case DESCRIPTOR_READ:
+    /* a stream that is not open for reading only has an answer of the peer to wait for */
+    if (!(stream->mask & STREAM_READ))
+    {
+      stream_ssl_flush(stream);
+      stream_ssl_update(stream);
+      break;
+    }
     n = stream_ssl_read(stream);
     stream_ssl_update(stream);
     if (n)
-- 
2.43.0


From 629e9b674f0398c57906ff8bc51c32d977594b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:22 +0000
Subject: [PATCH 29/31] fix: send more than 2 GiB queued on a TLS stream

---
 src/reactor/stream.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/reactor/stream.c b/src/reactor/stream.c
index 2c4d29f..7683017 100644
--- a/src/reactor/stream.c
+++ b/src/reactor/stream.c
@@ -1,6 +1,7 @@
 #include <stdio.h>
 #include <unistd.h>
 #include <errno.h>
+#include <limits.h>
 #include <assert.h>
 #include <sys/socket.h>
 #include <sys/stat.h>
@@ -132,18 +133,23 @@ static size_t stream_ssl_read(stream *stream)
 
 static void stream_ssl_flush(stream *stream)
 {
+  char *data = buffer_data(&stream->output);
+  size_t size = buffer_size(&stream->output);
   ssize_t n;
+  size_t total;
 
   assert(stream_ssl_activated);
+  total = 0;
   /* SSL_write() can not resume a handshake message that is longer than the data written */
   n = SSL_do_handshake(stream->ssl);
-  while (n > 0 && buffer_size(&stream->output))
+  while (n > 0 && size - total)
   {
-    n = SSL_write(stream->ssl, buffer_data(&stream->output), buffer_size(&stream->output));
+    n = SSL_write(stream->ssl, data + total, size - total > INT_MAX ? INT_MAX : size - total);
     if (n > 0)
-      buffer_erase(&stream->output, 0, n);
+      total += n;
   }
   stream->ssl_state = SSL_get_error(stream->ssl, n);
+  buffer_erase(&stream->output, 0, total);
 }
 
 static void stream_ssl_callback(reactor_event *event)
-- 
2.43.0


From b5a11b906c23e36f12195c593f7aadedceaaa0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:11 +0000
Subject: [PATCH 30/31] fix: refuse an HTTP head whose size does not fit the
 parser's result

---
 src/reactor/http.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/reactor/http.c b/src/reactor/http.c
index 586a4ba..91935ff 100644
--- a/src/reactor/http.c
+++ b/src/reactor/http.c
@@ -1,5 +1,6 @@
 #include <stdio.h>
 #include <string.h>
+#include <limits.h>
 
 #include "picohttpparser/picohttpparser.h"
 #include "reactor.h"
@@ -50,6 +51,18 @@ static data http_length(size_t n, char *storage, size_t storage_size)
   return data_construct(storage, size);
 }
 
+/* http parser limits, the parser gives the size of a head as an int */
+
+static size_t http_parse_size(size_t size)
+{
+  return size > INT_MAX ? INT_MAX : size;
+}
+
+static ssize_t http_parse_result(int n, size_t size)
+{
+  return n == -2 && size > INT_MAX ? -1 : n;
+}
+
 /* http request */
 
 ssize_t http_read_request(stream *stream, data *method, data *target, http_field *fields, size_t *fields_count)
@@ -61,13 +74,13 @@ ssize_t http_read_request_data(data buffer, data *method, data *target, http_fie
 {
   int n, minor_version;
 
-  n = phr_parse_request(data_base(buffer), data_size(buffer),
+  n = phr_parse_request(data_base(buffer), http_parse_size(data_size(buffer)),
                         (const char **) &method->base, &method->size,
                         (const char **) &target->base, &target->size,
                         &minor_version,
                         (struct phr_header *) fields, fields_count, 0);
   asm volatile("": : :"memory");
-  return n;
+  return http_parse_result(n, data_size(buffer));
 }
 
 void http_write_request(stream *stream, data method, data target, data host, data type, data body)
@@ -106,11 +119,11 @@ ssize_t http_read_response(stream *stream, int *status_code, data *status, http_
 {
   int n, minor_version;
 
-  n = phr_parse_response(stream->input.data, stream->input.size, &minor_version, status_code,
+  n = phr_parse_response(stream->input.data, http_parse_size(stream->input.size), &minor_version, status_code,
                          (const char **) &status->base, &status->size,
                          (struct phr_header *) fields, fields_count, 0);
   asm volatile("": : :"memory");
-  return n;
+  return http_parse_result(n, stream->input.size);
 }
 
 void http_write_response(stream *stream, data status, data date, data type, data body)
-- 
2.43.0


From 4b15d4e7f0d8af1b45c890c9ef3a8fda4917b2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:47 +0000
Subject: [PATCH 31/31] fix: have a current Date when a server is opened

---
 src/reactor/server.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/reactor/server.c b/src/reactor/server.c
index 594f6aa..5424e4b 100644
--- a/src/reactor/server.c
+++ b/src/reactor/server.c
@@ -210,6 +210,7 @@ void server_destruct(server *server)
 
 void server_open(server *server, int fd, SSL_CTX *ssl_ctx)
 {
+  server_date_update();
   if (ssl_ctx)
     server_ssl_open(server, fd, ssl_ctx);
   else
-- 
2.43.0

