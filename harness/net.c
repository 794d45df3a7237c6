/* Monitors for the network helpers (C19). */
#include "mon.h"
#include <sys/resource.h>
#include <openssl/pem.h>

static rng *R;
static uint64_t uid;

/* ---- sockets ---- */
static int fail_call, fail_errno;                 /* 1 socket 2 bind 3 listen 4 connect */
static int fail_with(int *ret) { *ret = -1; errno = fail_errno; return 1; }
static int socket_hook(int *ret) { return fail_call == 1 ? fail_with(ret) : 0; }
static int bind_hook(int *ret) { return fail_call == 2 ? fail_with(ret) : 0; }
static int listen_hook(int *ret) { return fail_call == 3 ? fail_with(ret) : 0; }
static int connect_hook(int *ret) { return fail_call == 4 ? fail_with(ret) : 0; }

typedef union { struct sockaddr sa; struct sockaddr_in in; struct sockaddr_in6 in6; struct sockaddr_un un; struct sockaddr_storage ss; } addr;
static socklen_t addr_len(const addr *a) { return a->sa.sa_family == AF_INET ? sizeof a->in : a->sa.sa_family == AF_INET6 ? sizeof a->in6 : offsetof(struct sockaddr_un, sun_path) + strlen(a->un.sun_path) + 1; }
static int same_addr(const addr *want, const addr *got, int any_port)
{
  if (want->sa.sa_family != got->sa.sa_family) return 0;
  switch (want->sa.sa_family)
  {
  case AF_INET: return want->in.sin_addr.s_addr == got->in.sin_addr.s_addr && (any_port ? got->in.sin_port != 0 : want->in.sin_port == got->in.sin_port);
  case AF_INET6: return !memcmp(&want->in6.sin6_addr, &got->in6.sin6_addr, 16) && (any_port ? got->in6.sin6_port != 0 : want->in6.sin6_port == got->in6.sin6_port);
  default: return !strcmp(want->un.sun_path, got->un.sun_path);
  }
}
/* a list element as getaddrinfo makes it, for the families it does not know */
static struct addrinfo *element(const addr *a, int type, int protocol, int flags)
{
  struct addrinfo *ai = malloc(sizeof *ai + addr_len(a));
  memset(ai, 0, sizeof *ai);
  ai->ai_family = a->sa.sa_family; ai->ai_socktype = type; ai->ai_protocol = protocol; ai->ai_flags = flags;
  ai->ai_addr = (struct sockaddr *) (ai + 1); ai->ai_addrlen = addr_len(a);
  memcpy(ai->ai_addr, a, addr_len(a));
  return ai;
}
static int rare(int protocol) { return protocol == IPPROTO_UDPLITE || protocol == IPPROTO_MPTCP; }
static struct addrinfo *list_of(const addr *a, int type, int protocol, int flags)
{
  char h[100], s[20];
  struct addrinfo hints = {.ai_family = a->sa.sa_family, .ai_socktype = type, .ai_protocol = protocol, .ai_flags = flags | AI_NUMERICHOST}, *ai = NULL;
  int passive = flags & AI_PASSIVE;
  if (a->sa.sa_family == AF_UNIX || rare(protocol) || rng_p(R, 30)) return element(a, type, protocol, flags);
  if (getnameinfo(&a->sa, addr_len(a), h, sizeof h, s, sizeof s, NI_NUMERICHOST | NI_NUMERICSERV)) mon_harness_error("getnameinfo");
  if (rng_p(R, 50))
  {
    ai = net_resolve(h, s, a->sa.sa_family, type, flags | AI_NUMERICHOST);
    MON_CHECK(ai != NULL, "net-resolve", "net_resolve of %s %s family %d type %d flags %x yields nothing", h, s, a->sa.sa_family, type, flags | AI_NUMERICHOST);
  }
  else if (getaddrinfo(h, s, &hints, &ai)) mon_harness_error("getaddrinfo %s %s", h, s);
  (void) passive;
  return ai;
}
static void make_addr(addr *a, int family, const char *path)
{
  memset(a, 0, sizeof *a);
  a->sa.sa_family = family;
  if (family == AF_INET) a->in.sin_addr.s_addr = mon_loopback();
  else if (family == AF_INET6) a->in6.sin6_addr = in6addr_loopback;
  else snprintf(a->un.sun_path, sizeof a->un.sun_path, "%s", path);
}
static void check_result(int fd, const addr *a, int type, int protocol, int passive)
{
  int v; socklen_t l; addr got; struct stat st;
  MON_CHECK(fstat(fd, &st) == 0 && S_ISSOCK(st.st_mode), "net-not-a-socket", "the result %d is not a socket", fd);
  v = fcntl(fd, F_GETFL);
  MON_CHECK(v & O_NONBLOCK, "net-blocking", "the socket is blocking");
  l = sizeof v; getsockopt(fd, SOL_SOCKET, SO_DOMAIN, &v, &l);
  MON_CHECK(v == a->sa.sa_family, "net-family", "the socket has family %d instead of %d", v, a->sa.sa_family);
  l = sizeof v; getsockopt(fd, SOL_SOCKET, SO_TYPE, &v, &l);
  MON_CHECK(v == type, "net-type", "the socket has type %d instead of %d", v, type);
  l = sizeof v;
  if (protocol && !getsockopt(fd, SOL_SOCKET, SO_PROTOCOL, &v, &l)) MON_CHECK(v == protocol, "net-protocol", "the socket has protocol %d instead of %d", v, protocol);
  l = sizeof v; getsockopt(fd, SOL_SOCKET, SO_ACCEPTCONN, &v, &l);
  if (passive && (type == SOCK_STREAM || type == SOCK_SEQPACKET)) MON_CHECK(v == 1, "net-not-listening", "a passive socket of type %d does not listen", type);
  if (!passive) MON_CHECK(v == 0, "net-listening", "an active socket listens");
  if (passive)
  {
    int any = a->sa.sa_family == AF_INET ? !a->in.sin_port : a->sa.sa_family == AF_INET6 ? !a->in6.sin6_port : 0;
    l = sizeof got; memset(&got, 0, sizeof got);
    MON_CHECK(getsockname(fd, &got.sa, &l) == 0 && same_addr(a, &got, any), "net-address", "the passive socket is not bound to the given address");
  }
}
/* does the system take it? */
static int takes(const addr *a, int type, int protocol, int passive, int path_used)
{
  int fd = __real_socket(a->sa.sa_family, type, protocol), ok = fd != -1, one = 1;
  if (!ok) return 0;
  if (passive)
  {
    setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one); setsockopt(fd, SOL_SOCKET, SO_REUSEPORT, &one, sizeof one);
    ok = __real_bind(fd, &a->sa, addr_len(a)) == 0;
    if (ok && a->sa.sa_family == AF_UNIX) { if (!path_used) unlink(a->un.sun_path); }
    if (ok && (type == SOCK_STREAM || type == SOCK_SEQPACKET)) ok = __real_listen(fd, 5) == 0;
  }
  __real_close(fd);
  return ok;
}
static int listener(addr *a, int type, int protocol, int exclusive)
{
  int fd = __real_socket(a->sa.sa_family, type | SOCK_CLOEXEC, protocol); socklen_t l = sizeof *a, one = 1;
  if (fd == -1) return -1;
  if (!exclusive) { setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one); setsockopt(fd, SOL_SOCKET, SO_REUSEPORT, &one, sizeof one); }
  if (__real_bind(fd, &a->sa, addr_len(a)) || (type != SOCK_DGRAM && __real_listen(fd, 20))) { __real_close(fd); return -1; }
  if (a->sa.sa_family != AF_UNIX) getsockname(fd, &a->sa, &l);
  mon_own(fd);
  return fd;
}
static int dual_stack(int type, int protocol)
{
  int fd = __real_socket(AF_INET6, type | SOCK_CLOEXEC, protocol), v = 1; socklen_t l = sizeof v;
  if (fd == -1) return 0;
  getsockopt(fd, IPPROTO_IPV6, IPV6_V6ONLY, &v, &l); __real_close(fd);
  return !v;
}
static int ready(int fd, int ev) { struct pollfd p = {.fd = fd, .events = ev}; return poll(&p, 1, 5000) == 1; }
static void exchange(int a, int b, const char *what)
{
  char x[64], y[64]; size_t n = 1 + rng_n(R, 60); ssize_t k;
  rng_bytes(R, x, n);
  MON_CHECK(ready(a, POLLOUT), "net-unusable", "%s: not writable", what);
  k = __real_send(a, x, n, MSG_NOSIGNAL);
  MON_CHECK(k == (ssize_t) n, "net-unusable", "%s: send yields %zd: %s", what, k, strerror(errno));
  MON_CHECK(ready(b, POLLIN), "net-unusable", "%s: nothing arrives", what);
  k = __real_recv(b, y, sizeof y, 0);
  MON_CHECK(k == (ssize_t) n && !memcmp(x, y, n), "net-unusable", "%s: other bytes arrive", what);
  mon_count("exchanges", 1); mon_count("eval", 1);
}
static void one_socket(const char *dir)
{
  static const int fams[] = {AF_INET, AF_INET, AF_INET6, AF_UNIX}, types[] = {SOCK_STREAM, SOCK_STREAM, SOCK_STREAM, SOCK_DGRAM, SOCK_SEQPACKET};
  addr a, peer; char path[200]; int family = fams[rng_n(R, 4)], type = types[rng_n(R, family == AF_UNIX ? 5 : 4)], protocol = 0, passive = rng_p(R, 55), k = rng_n(R, 100);
  int fd, fd2 = -1, other = -1, c = -1, d = -1, v6 = 1, may = -1, n0, open0; struct addrinfo *ai; struct rlimit lim, low; socklen_t l; size_t size = 0;
  const char *fault = "none";
  if (family == AF_INET6) { addr t; make_addr(&t, AF_INET6, NULL); v6 = takes(&t, SOCK_STREAM, 0, 1, 0); if (!v6) { family = AF_INET; mon_count("no_ipv6", 1); } }
  snprintf(path, sizeof path, "%s/s%llu", dir, (unsigned long long) ++uid);
  make_addr(&a, family, path);
  if (family != AF_UNIX && rng_p(R, 50)) protocol = type == SOCK_STREAM ? IPPROTO_TCP : IPPROTO_UDP;
  if (family != AF_UNIX && rng_p(R, 12))
  {
    /* a protocol that is not the usual one of its type */
    protocol = type == SOCK_STREAM ? IPPROTO_MPTCP : IPPROTO_UDPLITE;
    fd = __real_socket(family, type, protocol);
    if (fd == -1) protocol = 0; else { __real_close(fd); mon_count("rare_protocols", 1); }
  }
  fail_call = 0;
  open0 = mon_count_fds();
  getrlimit(RLIMIT_NOFILE, &lim);
  if (passive)
  {
    if (k < 12) { fail_call = 1; fail_errno = rng_p(R, 50) ? EMFILE : ENOBUFS; fault = "socket"; }
    else if (k < 24) { fail_call = 2; fail_errno = rng_p(R, 50) ? EADDRINUSE : EACCES; fault = "bind"; }
    else if (k < 36) { fail_call = 3; fail_errno = rng_p(R, 50) ? EADDRINUSE : EOPNOTSUPP; fault = "listen"; }
    else if (k < 44) { other = listener(&a, type, protocol, 1); fault = "address in use"; may = 0; }
    else if (k < 50 && family != AF_UNIX) { if (family == AF_INET) a.in.sin_addr.s_addr = inet_addr("192.0.2.1"); else inet_pton(AF_INET6, "2001:db8::1", &a.in6.sin6_addr); fault = "foreign address"; }
    else if (k < 56 && family == AF_UNIX) { snprintf(a.un.sun_path, sizeof a.un.sun_path, "%s/nosuch/dir", dir); fault = "no directory"; }
    else if (k < 62 && family == AF_INET) { a.in.sin_addr.s_addr = INADDR_ANY; fault = "any address"; }
    else if (k < 62 && family == AF_INET6) { a.in6.sin6_addr = in6addr_any; fault = "any address"; }
    else if (k < 68 && family != AF_UNIX) { other = listener(&a, type, protocol, 0); fault = "shared port"; }
  }
  else
  {
    if (k < 12) { fail_call = 1; fail_errno = rng_p(R, 50) ? EMFILE : EAFNOSUPPORT; fault = "socket"; }
    else if (k < 24) { fail_call = 4; fail_errno = rng_p(R, 50) ? EINPROGRESS : ENETUNREACH; fault = "connect"; }
    else if (k < 36) { other = listener(&a, type, protocol, 0); mon_close(other); other = -1; fault = "nobody listens"; }
    else other = listener(&a, type, protocol, 0);
  }
  if (may == -1) may = fail_call != 1 && takes(&a, type, protocol, passive, 0);
  if (k >= 90) { fault = "no descriptor left"; low = lim; low.rlim_cur = 0; may = 0; fail_call = 0; }
  ai = list_of(&a, type, protocol, passive ? AI_PASSIVE : 0);
  if (rng_p(R, 15) && ai && !ai->ai_next) { addr b; make_addr(&b, AF_INET, NULL); ai->ai_next = element(&b, SOCK_STREAM, 0, ai->ai_flags); mon_count("longer_lists", 1); }
  if (ai && ai->ai_protocol) protocol = ai->ai_protocol;
  mon_trace("family %d type %d protocol %d passive %d, %s", family, type, protocol, passive, fault);
  mon_count("sockets", 1); mon_count("eval", 1);
  mon_distinct(mon_mix(mon_mix(family * 100 + type * 10 + passive, protocol), mon_hash(3, fault, strlen(fault))));
  n0 = mon_count_fds();
  if (k >= 90) setrlimit(RLIMIT_NOFILE, &low);
  fd = net_socket(ai);
  if (k >= 90) setrlimit(RLIMIT_NOFILE, &lim);
  if (k >= 90) MON_CHECK(fd == -1, "net-half-state", "a socket out of nothing");
  MON_CHECK(fd >= -1, "net-result", "net_socket returns %d", fd);
  if (fail_call && fail_call < 4 && (fail_call != 3 || type != SOCK_DGRAM)) MON_CHECK(fd == -1, "net-half-state", "net_socket returns %d although %s fails", fd, fault);
  if (fd == -1)
  {
    int dgram = passive && type == SOCK_DGRAM;
    MON_CHECK(mon_count_fds() == n0, "net-leak", "net_socket fails and leaves %d descriptors", mon_count_fds() - n0);
    MON_CHECK(!may || fail_call || dgram, "net-refused", "net_socket fails for family %d type %d protocol %d passive %d (%s), the system takes it", family, type, protocol, passive, fault);
    mon_count("failures", 1);
  }
  else
  {
    MON_CHECK(mon_count_fds() == n0 + 1, "net-leak", "net_socket opens %d descriptors", mon_count_fds() - n0);
    MON_CHECK(may || fail_call || !passive, "net-half-state", "net_socket returns a socket for family %d type %d passive %d (%s), the system refuses it", family, type, passive, fault);
    mon_own(fd);
    check_result(fd, &a, type, protocol, passive);
    mon_count(passive ? "passive_sockets" : "active_sockets", 1);
    if (passive && type == SOCK_STREAM && other == -1)
    {
      peer = a; l = sizeof peer;
      if (family != AF_UNIX) { getsockname(fd, &peer.sa, &l); if (family == AF_INET && peer.in.sin_addr.s_addr == INADDR_ANY) peer.in.sin_addr.s_addr = htonl(INADDR_LOOPBACK); }
      if (family != AF_UNIX && rng_p(R, 40))
      {
        /* several may listen on one port */
        fd2 = net_socket(element(&peer, type, protocol, AI_PASSIVE));
        MON_CHECK(fd2 != -1, "net-not-shared", "a second socket can not listen on the same port");
        mon_own(fd2); check_result(fd2, &peer, type, protocol, 1); mon_count("shared_ports", 1);
        mon_close(fd2);
      }
      if (family == AF_INET6 && IN6_IS_ADDR_UNSPECIFIED(&peer.in6.sin6_addr))
      {
        addr four = peer; int port = peer.in6.sin6_port;
        peer.in6.sin6_addr = in6addr_loopback;
        /* what the system gives to the any address of IPv6: IPv4 as well, unless it is told otherwise */
        if (dual_stack(type, protocol))
        {
          make_addr(&four, AF_INET, NULL); four.in.sin_addr.s_addr = htonl(INADDR_LOOPBACK); four.in.sin_port = port;
          c = __real_socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
          MON_CHECK(__real_connect(c, &four.sa, addr_len(&four)) == 0 && ready(fd, POLLIN), "net-dual-stack", "the socket on the any address is not reached by IPv4: %s", strerror(errno));
          d = __real_accept4(fd, NULL, NULL, SOCK_CLOEXEC);
          MON_CHECK(d != -1, "net-unusable", "accepting fails: %s", strerror(errno));
          exchange(c, d, "accepted"); __real_close(c); __real_close(d); mon_count("dual_stack", 1);
        }
      }
      c = __real_socket(family, SOCK_STREAM | SOCK_CLOEXEC, 0);
      MON_CHECK(__real_connect(c, &peer.sa, addr_len(&peer)) == 0, "net-unusable", "connecting to the passive socket fails: %s", strerror(errno));
      MON_CHECK(ready(fd, POLLIN), "net-unusable", "no connection arrives");
      d = __real_accept4(fd, NULL, NULL, SOCK_CLOEXEC);
      MON_CHECK(d != -1, "net-unusable", "accepting fails: %s", strerror(errno));
      exchange(c, d, "accepted"); exchange(d, c, "accepted");
      if (rng_p(R, 30))
      {
        /* what is sent right before the end still arrives, then the end */
        char b[3000]; size_t at = 0; ssize_t y;
        rng_bytes(R, b, sizeof b);
        if (__real_send(d, b, sizeof b, MSG_NOSIGNAL) != sizeof b) mon_harness_error("send");
        __real_close(d); d = -1;
        for (;;)
        {
          char g[3000];
          MON_CHECK(ready(c, POLLIN), "net-unusable", "the end of a closed connection does not arrive");
          y = __real_recv(c, g, sizeof g, 0);
          MON_CHECK(y >= 0, "net-unusable", "an accepted connection that is closed after sending fails: %s", strerror(errno));
          if (!y) break;
          MON_CHECK(at + y <= sizeof b && !memcmp(b + at, g, y), "net-unusable", "other bytes arrive before the end");
          at += y;
        }
        MON_CHECK(at == sizeof b, "net-unusable", "%zu of %zu bytes arrive before the end", at, sizeof b);
        mon_count("last_words", 1);
      }
      if (rng_p(R, 30))
      {
        /* several connections may wait to be accepted */
        int w[24], m = 2 + rng_n(R, 23), j, e, x; socklen_t xl;
        for (j = 0; j < m; j++)
        {
          w[j] = __real_socket(family, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0);
          e = __real_connect(w[j], &peer.sa, addr_len(&peer));
          MON_CHECK(e == 0 || errno == EINPROGRESS, "net-backlog", "connection %d of %d fails while the others wait: %s", j + 1, m, strerror(errno));
        }
        for (j = 0; j < m; j++)
        {
          xl = sizeof x;
          MON_CHECK(ready(w[j], POLLOUT) && getsockopt(w[j], SOL_SOCKET, SO_ERROR, &x, &xl) == 0 && x == 0, "net-backlog", "connection %d of %d is not made while the others wait", j + 1, m);
        }
        for (j = 0; j < m; j++) { if (ready(fd, POLLIN)) x = __real_accept4(fd, NULL, NULL, SOCK_CLOEXEC); else x = -1; MON_CHECK(x != -1, "net-backlog", "%d of %d waiting connections are accepted", j, m); __real_close(x); __real_close(w[j]); }
        mon_count("waiting_connections", m);
      }
      size = 1;
    }
    else if (!passive && other != -1 && !fail_call)
    {
      int v; socklen_t vl = sizeof v;
      if (type == SOCK_STREAM || type == SOCK_SEQPACKET)
      {
        MON_CHECK(ready(other, POLLIN), "net-unusable", "the active socket does not connect to the given address");
        d = __real_accept4(other, NULL, NULL, SOCK_CLOEXEC);
        MON_CHECK(ready(fd, POLLOUT) && getsockopt(fd, SOL_SOCKET, SO_ERROR, &v, &vl) == 0 && v == 0, "net-unusable", "the active socket fails");
        exchange(fd, d, "connected"); exchange(d, fd, "connected");
      }
      else exchange(fd, other, "datagram");
      l = sizeof peer; memset(&peer, 0, sizeof peer);
      MON_CHECK(getpeername(fd, &peer.sa, &l) == 0 && same_addr(&a, &peer, 0), "net-address", "the active socket is connected to something else");
    }
    mon_close(fd);
  }
  (void) size;
  if (c != -1) __real_close(c);
  if (d != -1) __real_close(d);
  if (other != -1) mon_close(other);
  unlink(path);
  fail_call = 0;
  if (mon_count_fds() != open0) mon_harness_error("the harness leaks descriptors");
}
static void scn_socket(rng *r)
{
  int i, n = 3 + rng_n(r, 6);
  R = r;
  mon_socket_hook = socket_hook; mon_bind_hook = bind_hook; mon_listen_hook = listen_hook; mon_connect_hook = connect_hook;
  if (rng_p(r, 10)) { MON_CHECK(net_socket(NULL) == -1, "net-result", "net_socket of nothing is something"); mon_count("null_lists", 1); }
  for (i = 0; i < n; i++) one_socket(mon_dir);
  mon_socket_hook = mon_bind_hook = mon_listen_hook = mon_connect_hook = NULL;
}
/* ---- resolving ---- */
static void dump(char *b, size_t n, struct addrinfo *ai)
{
  size_t k = 0; int first = 1;
  b[0] = 0;
  for (; ai && k + 300 < n; ai = ai->ai_next, first = 0)
  {
    char h[80] = "?", s[20] = "?";
    getnameinfo(ai->ai_addr, ai->ai_addrlen, h, sizeof h, s, sizeof s, NI_NUMERICHOST | NI_NUMERICSERV | (ai->ai_socktype == SOCK_DGRAM ? NI_DGRAM : 0));
    k += snprintf(b + k, n - k, "%d/%d/%d/%x %s#%s %s;", ai->ai_family, ai->ai_socktype, ai->ai_protocol, ai->ai_flags, h, s, first && ai->ai_canonname ? ai->ai_canonname : "");
  }
}
static void scn_resolve(rng *r)
{
  static const char *hosts[] = {"127.0.0.1", "localhost", "::1", "vm", "10.1.2.3", "0.0.0.0", "::", "1.2.3", "0x7f.1", "300.1.1.1", "no such host", "nosuch.invalid", "", "ff02::1", "::ffff:1.2.3.4", "192.0.2.1"};
  static const char *servs[] = {"80", "http", "https", "0", "65535", "65536", "-1", "nosuchservice", "domain", "", "12345", "ftp", "ntp", "tftp"};
  static const int fams[] = {AF_UNSPEC, AF_INET, AF_INET6, AF_UNIX}, types[] = {0, SOCK_STREAM, SOCK_DGRAM, SOCK_RAW}, fl[] = {0, AI_PASSIVE, AI_NUMERICHOST, AI_NUMERICSERV, AI_PASSIVE | AI_NUMERICHOST, AI_CANONNAME, AI_ALL | AI_V4MAPPED, AI_PASSIVE | AI_NUMERICSERV, 0x40000000};
  int i, n = 5 + rng_n(r, 10);
  R = r;
  for (i = 0; i < n; i++)
  {
    char *h = rng_p(R, 15) ? NULL : (char *) hosts[rng_p(R, 50) ? rng_n(R, 5) : rng_n(R, 16)], *s = rng_p(R, 20) ? NULL : (char *) servs[rng_p(R, 50) ? rng_n(R, 3) : rng_n(R, 14)], a[3000], b[3000], key[200];
    int f = fams[rng_p(R, 90) ? rng_n(R, 3) : 3], t = types[rng_p(R, 95) ? rng_n(R, 3) : 3], g = fl[rng_p(R, 97) ? rng_n(R, 8) : 8];
    struct addrinfo hints = {.ai_family = f, .ai_socktype = t, .ai_flags = g}, *ref = NULL, *ai;
    snprintf(key, sizeof key, "host %s service %s family %d type %d flags %x", h ? h : "-", s ? s : "-", f, t, g);
    if (getaddrinfo(h, s, &hints, &ref)) snprintf(b, sizeof b, "nothing"); else { dump(b, sizeof b, ref); freeaddrinfo(ref); mon_count("resolved", 1); }
    ai = net_resolve(h, s, f, t, g);
    if (ai) { dump(a, sizeof a, ai); freeaddrinfo(ai); } else snprintf(a, sizeof a, "nothing");
    MON_CHECK(!strcmp(a, b), "net-resolve", "%s: got '%.300s' instead of '%.300s'", key, a, b);
    mon_count("resolves", 1); mon_count("eval", 1); mon_distinct(mon_hash(5, key, strlen(key)));
  }
}
/* ---- server contexts ---- */
static const char *certs;
static void init_ctx(void) { certs = getenv("VERIF_CERTS"); if (!certs) mon_harness_error("VERIF_CERTS"); ERR_clear_error(); }
static uint8_t *slurp(const char *p, size_t *n)
{
  FILE *f = fopen(p, "r"); uint8_t *b; if (!f) mon_harness_error("open %s", p);
  b = malloc(65536); *n = fread(b, 1, 65536, f); fclose(f); return b;
}
static void make_file(char *path, size_t pn, const char *src, int kind)
{
  size_t n, i; uint8_t *b = slurp(src, &n); FILE *f;
  snprintf(path, pn, "%s/pem%llu", mon_dir, (unsigned long long) ++uid);
  switch (kind)
  {
  case 0: break;
  case 1: n = rng_n(R, n); break;
  case 2: for (i = 1 + rng_n(R, 4); i; i--) b[rng_n(R, n)] = rng_next(R); break;
  case 3: n = 0; break;
  case 4: n = rng_n(R, 3000); rng_bytes(R, b, n); break;
  case 5: memmove(b + 20, b, n); memcpy(b, "# some text before\n\n", 20); n += 20; break;
  case 6: free(b); mkdir(path, 0700); return;
  case 7: free(b); return;
  }
  f = fopen(path, "w"); fwrite(b, 1, n, f); fclose(f); free(b);
}
static X509 *ref_cert(const char *p) { BIO *b = BIO_new_file(p, "r"); X509 *x = b ? PEM_read_bio_X509(b, NULL, NULL, NULL) : NULL; BIO_free(b); return x; }
static EVP_PKEY *ref_key(const char *p) { BIO *b = BIO_new_file(p, "r"); EVP_PKEY *x = b ? PEM_read_bio_PrivateKey(b, NULL, NULL, NULL) : NULL; BIO_free(b); return x; }
static void handshake(SSL_CTX *ctx, X509 *want)
{
  SSL_CTX *cc = SSL_CTX_new(TLS_client_method()); SSL *s, *c; int v = rng_n(R, 3);
  if (v) { SSL_CTX_set_min_proto_version(cc, v == 1 ? TLS1_2_VERSION : TLS1_3_VERSION); SSL_CTX_set_max_proto_version(cc, v == 1 ? TLS1_2_VERSION : TLS1_3_VERSION); }
  s = SSL_new(ctx); c = SSL_new(cc); BIO *a, *b; int i; X509 *got;
  if (!s || !c) mon_fail("net-context", "the context yields no connection");
  BIO_new_bio_pair(&a, 0, &b, 0);
  SSL_set_bio(s, a, a); SSL_set_bio(c, b, b); SSL_set_accept_state(s); SSL_set_connect_state(c);
  for (i = 0; i < 20; i++) { ERR_clear_error(); SSL_do_handshake(c); SSL_do_handshake(s); }
  MON_CHECK(SSL_is_init_finished(c) && SSL_is_init_finished(s), "net-context", "no handshake is possible with the context%s", v == 1 ? " by TLS 1.2" : v ? " by TLS 1.3" : "");
  mon_count(v == 1 ? "handshakes_tls12" : v ? "handshakes_tls13" : "handshakes_any", 1);
  got = SSL_get1_peer_certificate(c);
  MON_CHECK(got && X509_cmp(got, want) == 0, "net-context", "the server presents another certificate");
  X509_free(got); SSL_free(s); SSL_free(c); SSL_CTX_free(cc);
  mon_count("context_handshakes", 1);
}
static void scn_context(rng *r)
{
  int i, n = 2 + rng_n(r, 4);
  R = r;
  for (i = 0; i < n; i++)
  {
    char c[400], k[400], cs[400], ks[400]; int ec = rng_n(r, 2), ec2 = rng_p(r, 80) ? ec : !ec, ck = rng_p(r, 60) ? 0 : 1 + rng_n(r, 7), kk = rng_p(r, 60) ? 0 : 1 + rng_n(r, 7), swap = rng_p(r, 10), ok, n0; SSL_CTX *ctx; X509 *x; EVP_PKEY *p;
    snprintf(cs, sizeof cs, "%s/%s", certs, swap ? ec ? "ec-key.pem" : "key.pem" : ec ? "ec-cert.pem" : "cert.pem");
    snprintf(ks, sizeof ks, "%s/%s", certs, swap ? ec2 ? "ec-cert.pem" : "cert.pem" : ec2 ? "ec-key.pem" : "key.pem");
    make_file(c, sizeof c, cs, ck); make_file(k, sizeof k, ks, kk);
    if (rng_p(r, 5)) c[0] = 0;
    ERR_clear_error();
    x = ref_cert(c); p = ref_key(k); ok = x && p;
    ERR_clear_error();
    mon_trace("certificate %s kind %d, key %s kind %d", cs, ck, ks, kk);
    n0 = mon_count_fds();
    ctx = net_ssl_server_context(c, k);
    MON_CHECK(mon_count_fds() == n0, "net-leak", "%d descriptors are left open", mon_count_fds() - n0);
    MON_CHECK(ok || !ctx, "net-context", "a context comes out of certificate kind %d and key kind %d, %s unreadable", ck, kk, x ? "the key is" : "the certificate is");
    if (ok && X509_check_private_key(x, p) == 1)
    {
      MON_CHECK(ctx != NULL, "net-context", "certificate and key are fine, and there is no context");
      /* a damaged key may still carry the right public part */
      if (ck != 2 && kk != 2) handshake(ctx, x);
    }
    mon_count(ctx ? "contexts" : "context_failures", 1); mon_count("eval", 1);
    mon_distinct(mon_mix(mon_mix(ck * 8 + kk, ec * 4 + ec2 * 2 + swap), (x != NULL) * 2 + (p != NULL)));
    SSL_CTX_free(ctx); X509_free(x); EVP_PKEY_free(p);
    ERR_clear_error();
    unlink(c); unlink(k); rmdir(c); rmdir(k);
  }
}
const mon_scenario mon_scenarios[] = { {"socket", scn_socket, MON_FDS | MON_MEM, NULL}, {"resolve", scn_resolve, MON_FDS | MON_MEM, NULL}, {"context", scn_context, MON_FDS | MON_MEM, init_ctx}, {0} };
