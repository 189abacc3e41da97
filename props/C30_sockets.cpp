// @pbt quick=400000 thorough=3000000 maxlen=900 cov=0 maxsec=40 wrap=socket,ioctl,setsockopt,bind,listen,accept,accept4,connect,recv,recvfrom,recvmsg,read
#include "pbt.h"
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <time.h>
#include <unistd.h>
#include <sys/time.h>
#include <netinet/tcp.h>
#include <coda/socket.h>

const char *prop_id = "C30";
const char *prop_rule = "address texts: 1-12 per case, built from 0-6 octets (in range, just and far out of range, beyond 32 and 64 bits, empty, with leading zeros, signs, blanks, hex or other bytes) and separators, also plain bytes, at every length of an exact-size buffer or with more digits following, a few followed by gigabytes of zeros; oracle: a grammar read independently. Connections: listen, connect and accept on loopback addresses (client bound to a generated 127/8 address in half of the cases) in blocking and non-blocking mode, some in a process that holds up to 1030 other descriptors, sometimes listening again on the address of a server that has just closed, messages of 0-60000 bytes sent and received in generated pieces with 0-4 interruptions before each receive, the mode set to several values, socket options, closed peers, receive timeouts of 0 to 10^12 microseconds, and in a third of the cases one failing system call of a chosen kind. Oracle: bytes, address, mode flag, option value, -1 and no descriptor left for failures. Non-trivial: a text with a dot and a digit, or a connection.";

enum { K_SOCKET, K_IOCTL, K_SETSOCKOPT, K_BIND, K_LISTEN, K_ACCEPT, K_CONNECT, K_N };
static const char *kn[] = { "socket", "ioctl", "setsockopt", "bind", "listen", "accept", "connect" };
static bool hook; static int fk = -1, fe, intr, intrs; static bool hit;
static bool bad(int k) { if (!hook || k != fk) return false; fk = -1; hit = true; errno = fe; return true; }
static bool interrupted() { if (!hook || !intr) return false; --intr; ++intrs; errno = EINTR; return true; }
extern "C" {
int __real_socket(int, int, int); int __real_ioctl(int, unsigned long, void *); int __real_setsockopt(int, int, int, const void *, socklen_t); int __real_bind(int, const struct sockaddr *, socklen_t); int __real_listen(int, int);
int __real_accept(int, struct sockaddr *, socklen_t *); int __real_accept4(int, struct sockaddr *, socklen_t *, int); int __real_connect(int, const struct sockaddr *, socklen_t);
ssize_t __real_recv(int, void *, size_t, int); ssize_t __real_recvfrom(int, void *, size_t, int, struct sockaddr *, socklen_t *); ssize_t __real_recvmsg(int, struct msghdr *, int); ssize_t __real_read(int, void *, size_t);
int __wrap_socket(int a, int b, int c) { return bad(K_SOCKET) ? -1 : __real_socket(a, b, c); }
int __wrap_ioctl(int f, unsigned long r, ...) { va_list ap; va_start(ap, r); void *p = va_arg(ap, void *); va_end(ap); return bad(K_IOCTL) ? -1 : __real_ioctl(f, r, p); }
int __wrap_setsockopt(int f, int l, int o, const void *v, socklen_t n) { return bad(K_SETSOCKOPT) ? -1 : __real_setsockopt(f, l, o, v, n); }
int __wrap_bind(int f, const struct sockaddr *a, socklen_t n) { return bad(K_BIND) ? -1 : __real_bind(f, a, n); }
int __wrap_listen(int f, int n) { return bad(K_LISTEN) ? -1 : __real_listen(f, n); }
int __wrap_accept(int f, struct sockaddr *a, socklen_t *n) { return bad(K_ACCEPT) ? -1 : __real_accept(f, a, n); }
int __wrap_accept4(int f, struct sockaddr *a, socklen_t *n, int g) { return bad(K_ACCEPT) ? -1 : __real_accept4(f, a, n, g); }
int __wrap_connect(int f, const struct sockaddr *a, socklen_t n) { return bad(K_CONNECT) ? -1 : __real_connect(f, a, n); }
ssize_t __wrap_recv(int f, void *b, size_t n, int g) { return interrupted() ? -1 : __real_recv(f, b, n, g); }
ssize_t __wrap_recvfrom(int f, void *b, size_t n, int g, struct sockaddr *a, socklen_t *l) { return interrupted() ? -1 : __real_recvfrom(f, b, n, g, a, l); }
ssize_t __wrap_recvmsg(int f, struct msghdr *m, int g) { return interrupted() ? -1 : __real_recvmsg(f, m, g); }
ssize_t __wrap_read(int f, void *b, size_t n) { return interrupted() ? -1 : __real_read(f, b, n); }
}
struct Hook { Hook() { hook = true; hit = false; intrs = 0; } ~Hook() { hook = false; fk = -1; intr = 0; } };

// 0: not an address; 1: an address; 2: left open (leading zeros)
static int grammar(const std::string &t, uint32_t &host)
{
	size_t at = 0; host = 0; bool open = false;
	for (int i = 0; i < 4; ++i)
	{
		if (i) { if (at >= t.size() || t[at] != '.') return 0; ++at; }
		size_t b = at; while (at < t.size() && t[at] >= '0' && t[at] <= '9') ++at;
		if (b == at) return 0;
		size_t z = b; while (z + 1 < at && t[z] == '0') ++z;
		if (z != b) open = true;
		if (at - z > 3) return 0;
		int v = 0; for (size_t k = z; k < at; ++k) v = v * 10 + (t[k] - '0');
		if (v > 255) return 0;
		host = host << 8 | v;
	}
	if (at != t.size()) return 0;
	return open ? 2 : 1;
}
static std::string octet(Src &s)
{
	switch (s.weighted({ 12, 3, 2, 2, 1, 1, 1 }))
	{
		case 0: return fmt("%d", (int) s.oneof<int>({ (int) s.below(256), 0, 1, 9, 10, 99, 100, 127, 199, 200, 249, 250, 254, 255 }));
		case 1: return fmt("%d", (int) s.oneof<int>({ 256, 257, 260, 300, 511, 512, 999, 1000, 65535, 65536, 65792 }));
		case 2: { // beyond 8, 16, 32 and 64 bits, ending in a valid octet
			unsigned __int128 v = (unsigned __int128) (1 + s.below(3)) << s.oneof<int>({ 8, 16, 32, 63, 64, 64, 64, 65 }); v += s.below(256);
			std::string r; while (v) { r = (char) ('0' + (int) (v % 10)) + r; v /= 10; } return r; }
		case 3: return s.from("0123456789", s.below(25));
		case 4: return "";
		case 5: return std::string(1 + s.below(4), '0') + fmt("%d", (int) s.below(300));
		default: return s.oneof<const char *>({ "+1", "-1", " 1", "1 ", "0x10", "1e1", "a", "\t", "1,2", "\xb9" "1", "1/", "1:", "/", ":" });
	}
}
static void texts(Src &s, Ctx &c)
{
	if (s.below(2000) == 1999)
	{
		std::string t = fmt("%d.%d.%d.%d", (int) s.below(256), (int) s.below(256), (int) s.below(256), (int) s.below(256));
		size_t n = s.oneof<size_t>({ 1ull << 32, 1ull << 31, 1ull << 33 }) + s.oneof<size_t>({ t.size(), t.size() - 1, s.below(24) });
		Vast v(n); if (!v.data()) return; v.at(0, t);
		c.say("%zu bytes: %s and zeros", n, t.c_str()); c.label("text: huge"); c.nontrivial();
		in_addr_t got = coda_inet_addr(v.data(), n);
		CHECK(got == INADDR_NONE, "a text of %zu bytes, %s and zeros, is parsed as %08x", n, t.c_str(), (unsigned) ntohl(got));
		return;
	}
	int n = 1 + s.below(3) + (s.below(4) == 0 ? s.below(10) : 0);
	while (n-- > 0)
	{
		std::string t;
		if (s.below(10) == 0) t = s.below(2) ? s.bytes(s.len(20)) : s.from("0123456789.", s.len(24));
		else
		{
			int k = s.weighted({ 1, 1, 1, 2, 20, 2, 1 });
			for (int i = 0; i < k; ++i) { if (i) t += s.below(24) ? "." : s.oneof<const char *>({ "..", ",", "", ". ", ".\0x", "/", "\xae" }); t += s.below(3) ? fmt("%d", (int) s.below(256)) : octet(s); }
			switch (s.weighted({ 20, 1, 1, 1 })) { case 1: t += s.oneof<const char *>({ ".", " ", "\n", "0", "\xff", "x" }); break; case 2: t = s.oneof<const char *>({ ".", " ", "0", "\xff" }) + t; break; case 3: t += '\0'; break; }
		}
		std::string after = s.below(2) ? "" : s.oneof<const char *>({ "1", "9.9", ".1", " ", "x", "0" });
		size_t len = s.below(6) ? t.size() : s.below(t.size() + 1);
		std::string given = t.substr(0, len); if (len < t.size()) after = t.substr(len);
		uint32_t host; int want = grammar(given, host);
		Exact e(given + after);
		in_addr_t got = coda_inet_addr(e, len);
		c.say("%s -> %08x", show(given).c_str(), (unsigned) ntohl(got));
		if (want == 0) CHECK(got == INADDR_NONE, "%s is not an address, parsed as %08x", show(given).c_str(), (unsigned) ntohl(got));
		if (want == 1) CHECK(got == htonl(host), "%s parsed as %08x, expected %08x", show(given).c_str(), (unsigned) ntohl(got), host);
		if (want == 2) CHECK(got == htonl(host) || got == INADDR_NONE, "%s parsed as %08x, which is not %08x", show(given).c_str(), (unsigned) ntohl(got), host);
		c.label(want == 0 ? "text: not an address" : want == 1 ? "text: address" : "text: leading zeros");
		if (given.find('.') != std::string::npos && given.find_first_of("0123456789") != std::string::npos) c.nontrivial();
	}
}

static bool nb(int fd) { return fcntl(fd, F_GETFL) & O_NONBLOCK; }
static bool ready(int fd, short ev) { struct pollfd p = { fd, ev, 0 }; return poll(&p, 1, 3000) == 1; }
static void rst(int &fd) { if (fd < 0) return; struct linger l = { 1, 0 }; __real_setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); close(fd); fd = -1; }
struct Fds { int a, b, l; Fds() : a(-1), b(-1), l(-1) {} ~Fds() { rst(a); rst(b); if (l >= 0) close(l); } };

struct Hold { std::vector<int> v; void upto(int n) { int fd; while ((fd = dup(2)) >= 0) { v.push_back(fd); if (fd >= n) break; } } ~Hold() { for (int fd : v) close(fd); } };

static void connection(Src &s, Ctx &c)
{
	Hold many; if (s.chance(16)) { int n = s.oneof<int>({ 126, 254, 1030 }); many.upto(n); c.say("the process holds %d descriptors", n); c.label("many descriptors"); }
	int fds = pbt::count_fds();
	{
	Fds f; Hook h;
	std::string host = fmt("127.%d.%d.%d", (int) (getpid() & 255), (int) s.below(256), 1 + (int) s.below(254)), port = "0";
	auto mode = [&]() -> int { switch (s.weighted({ 4, 4, 1 })) { case 0: return 0; case 1: return 1; default: return s.oneof<int>({ 2, -1, 256, 65536, 1 << 24, INT_MIN, INT_MAX, 512 }); } };
	int nbl = mode(), nbc = mode(), nba = mode();
	int faulty = s.below(3) == 0 ? (int) s.below(K_N) : -1; fe = s.oneof<int>({ EMFILE, ENOBUFS, EACCES, EINVAL, ECONNREFUSED, EIO });
	int stage = faulty == K_ACCEPT ? 2 : faulty == K_CONNECT ? 1 : faulty == K_BIND || faulty == K_LISTEN || faulty == K_SETSOCKOPT ? 0 : (int) s.below(3);
	c.say("host %s, non-blocking %d %d %d%s", host.c_str(), nbl, nbc, nba, faulty >= 0 ? fmt(", %s fails in %s", kn[faulty], stage == 0 ? "listen" : stage == 1 ? "connect" : "accept").c_str() : "");
	auto failing = [&](int rc, const char *what) { if (!hit) return false; CHECK(rc == -1, "%s returned %d when %s failed", what, rc, kn[faulty]); int n = pbt::count_fds(); int mine = (f.a >= 0) + (f.b >= 0) + (f.l >= 0); CHECK(n == fds + mine, "%s left a descriptor open when %s failed: %s", what, kn[faulty], pbt::list_fds().c_str()); c.label(fmt("failing %s", kn[faulty])); return true; };
	if (faulty >= 0 && stage == 0) fk = faulty;
	int backlog = 1 + s.below(10); f.l = coda_listen(host.c_str(), port.c_str(), backlog, nbl); fk = -1;
	if (failing(f.l, "coda_listen")) { c.nontrivial(); return; }
	CHECK(f.l >= 0, "coda_listen on %s failed: %s", host.c_str(), strerror(errno));
	CHECK(nb(f.l) == !!nbl, "the listening socket is %sblocking", nb(f.l) ? "non-" : "");
	struct sockaddr_in a; socklen_t n = sizeof a; if (getsockname(f.l, (struct sockaddr *) &a, &n)) throw pbt::Discard();
	char ip[40]; inet_ntop(AF_INET, &a.sin_addr, ip, sizeof ip); CHECK(host == ip, "listening on %s instead of %s", ip, host.c_str());
	int p = ntohs(a.sin_port); port = fmt("%.*d", 1 + (int) (s.below(4) ? 0 : s.below(12)), p);
	if (s.below(6) == 0)
	{ // the same port again
		int l2 = coda_listen(host.c_str(), port.c_str(), 5, nbl); CHECK(l2 == -1, "two sockets listen on %s:%s", host.c_str(), port.c_str()); CHECK(pbt::count_fds() == fds + 1, "a failed coda_listen left a descriptor open"); c.say("listening twice fails");
	}
	if (faulty < 0 && s.below(24) == 23)
	{ // as many clients as were asked for may wait
		c.say("%d clients wait", backlog); c.label("waiting clients");
		std::vector<int> w; for (int i = 0; i < backlog; ++i) { int x = coda_connect(host.c_str(), port.c_str(), 1); CHECK(x >= 0, "coda_connect to %s:%s failed: %s", host.c_str(), port.c_str(), strerror(errno)); w.push_back(x); }
		int got = 0; while (got < backlog && ready(f.l, POLLIN)) { struct in_addr who; int x = coda_accept(f.l, &who, 1); if (x < 0) break; close(x); ++got; }
		for (int x : w) close(x);
		CHECK(got == backlog, "only %d of %d waiting clients are accepted", got, backlog);
	}
	struct in_addr from; inet_pton(AF_INET, "127.0.0.1", &from); bool bound = faulty < 0 && s.below(2);
	if (bound)
	{
		std::string src = fmt("127.%d.%d.%d", (int) s.below(256), (int) s.below(256), 1 + (int) s.below(254)); c.say("client at %s", src.c_str());
		struct sockaddr_in b; memset(&b, 0, sizeof b); b.sin_family = AF_INET; inet_pton(AF_INET, src.c_str(), &b.sin_addr); from = b.sin_addr;
		f.a = __real_socket(AF_INET, SOCK_STREAM, 0); if (__real_bind(f.a, (struct sockaddr *) &b, sizeof b)) throw pbt::Discard();
		a.sin_family = AF_INET; if (__real_connect(f.a, (struct sockaddr *) &a, sizeof a)) throw pbt::Discard();
		int one = 1; __real_ioctl(f.a, FIONBIO, &one); nbc = 1;
	}
	else
	{
		if (faulty >= 0 && stage == 1) { fk = faulty; if (faulty == K_IOCTL) nbc = 1; if (faulty == K_SETSOCKOPT) fk = -1; }
		f.a = coda_connect(host.c_str(), port.c_str(), nbc); fk = -1;
		if (failing(f.a, "coda_connect")) { c.nontrivial(); return; }
		CHECK(f.a >= 0, "coda_connect to %s:%s failed: %s", host.c_str(), port.c_str(), strerror(errno));
		CHECK(nb(f.a) == !!nbc, "the connected socket is %sblocking", nb(f.a) ? "non-" : "");
		struct sockaddr_in me; n = sizeof me; if (ready(f.a, POLLOUT) && !getsockname(f.a, (struct sockaddr *) &me, &n)) from = me.sin_addr;
		struct sockaddr_in peer; n = sizeof peer; CHECK(!getpeername(f.a, (struct sockaddr *) &peer, &n) && peer.sin_port == htons(p), "connected to another port");
	}
	if (!ready(f.l, POLLIN)) throw pbt::Discard();
	if (faulty >= 0 && stage == 2 && faulty != K_SOCKET && faulty != K_CONNECT && faulty != K_SETSOCKOPT) fk = faulty;
	struct in_addr who; memset(&who, 0xEE, sizeof who);
	f.b = coda_accept(f.l, &who, nba); fk = -1;
	if (failing(f.b, "coda_accept")) { c.nontrivial(); return; }
	CHECK(f.b >= 0, "coda_accept failed: %s", strerror(errno));
	CHECK(nb(f.b) == !!nba, "the accepted socket is %sblocking", nb(f.b) ? "non-" : "");
	{ char w[40], v[40]; inet_ntop(AF_INET, &who, w, sizeof w); inet_ntop(AF_INET, &from, v, sizeof v); CHECK(who.s_addr == from.s_addr, "the peer is %s, coda_accept reports %s", v, w); }
	c.nontrivial(); c.label("connection");
	{ int m = pbt::count_fds(); CHECK(m == fds + 3, "%d descriptors too many", m - fds - 3); }
	// the mode changed and an option set
	for (int q = s.below(3); q > 0; --q)
	{
		int y = s.below(2) ? f.a : f.b, z = s.below(3) ? mode() : -7;
		if (z != -7)
		{
			int rc = coda_set_nonblk(y, z); c.say("set non-blocking %d", z); CHECK(rc == 0, "coda_set_nonblk(%d) returns %d", z, rc);
			CHECK(nb(y) == !!z, "a socket set to %d is %sblocking", z, nb(y) ? "non-" : "");
			if (!z) __real_ioctl(y, FIONBIO, &(z = 1));
			continue;
		}
		static const struct { int level, key; bool exact; } opt[] = { { SOL_SOCKET, SO_KEEPALIVE, true }, { IPPROTO_TCP, TCP_NODELAY, true }, { IPPROTO_TCP, TCP_KEEPIDLE, true }, { SOL_SOCKET, SO_RCVBUF, false }, { SOL_SOCKET, SO_PRIORITY, true }, { IPPROTO_TCP, TCP_KEEPCNT, true }, { SOL_SOCKET, SO_RCVLOWAT, true }, { IPPROTO_IP, IP_TTL, true } };
		int o = s.below(8), v = opt[o].key == TCP_KEEPIDLE && o == 2 ? 1 + s.below(32767) : o == 3 ? 3000 + s.below(200000) : o == 4 ? s.below(7) : o == 5 ? 1 + s.below(127) : o == 6 ? 1 : o == 7 ? 1 + s.below(255) : s.below(2);
		int ref = __real_socket(AF_INET, SOCK_STREAM, 0), x = -1, w = -1; if (ref < 0) throw pbt::Discard();
		int r0 = __real_setsockopt(ref, opt[o].level, opt[o].key, &v, sizeof v); socklen_t m = sizeof x; getsockopt(ref, opt[o].level, opt[o].key, &x, &m); close(ref); if (r0) continue;
		int rc = coda_set_sckopt(y, opt[o].level, opt[o].key, v); m = sizeof w; getsockopt(y, opt[o].level, opt[o].key, &w, &m);
		c.say("option %d/%d = %d: %d", opt[o].level, opt[o].key, v, w);
		CHECK(rc == 0 && w == x, "option %d/%d set to %d (returned %d) is %d, on another socket %d", opt[o].level, opt[o].key, v, rc, w, x);
	}
	if (s.chance(8))
	{
		CHECK(coda_set_nonblk(-1, 1) == -1 && coda_set_sckopt(-1, SOL_SOCKET, SO_KEEPALIVE, 1) == -1 && coda_set_socket_timeout(-1, 1000) == -1, "setting something of no socket succeeds");
		CHECK(coda_set_sckopt(f.a, SOL_SOCKET, 0x7fff, 1) == -1, "setting an unknown option succeeds");
	}
	// bytes both ways
	int rounds = s.below(4);
	for (int r = 0; r < rounds; ++r)
	{
		int x = s.below(2) ? f.a : f.b, y = x == f.a ? f.b : f.a;
		std::string d = s.below(5) ? s.bytes(s.len(300)) : std::string(1 + s.below(60000), (char) s.byte()); if (d.size() > 300) for (size_t i = 0; i < d.size(); i += 97) d[i] = (char) (i >> 3);
		std::string got; size_t sent = 0; int idle = 0; size_t piece = 1 + s.below(s.below(3) ? 100 : 40000), take = 1 + s.below(s.below(3) ? 100 : 40000);
		if (d.size() > 5000) { piece = std::max<size_t>(piece, 2000); take = std::max<size_t>(take, 2000); }
		c.say("%zu bytes in pieces of %zu, received in pieces of %zu", d.size(), piece, take);
		while (got.size() < d.size())
		{
			if (sent < d.size() && sent - got.size() < 30000)
			{
				Exact e(d.substr(sent, piece)); int k = coda_unix_send(x, e, e.size());
				if (k < 0) CHECK(errno == EAGAIN || errno == EWOULDBLOCK, "sending failed: %s", strerror(errno)); else { CHECK((size_t) k <= e.size(), "sent %d of %zu", k, e.size()); sent += k; }
				CHECK(e.str() == d.substr(sent - (k > 0 ? k : 0), piece), "the data sent was changed");
			}
			if (got.size() == sent) { CHECK(++idle < 1000, "nothing can be sent"); continue; }
			if (!ready(y, POLLIN)) fail("%zu bytes sent do not arrive", sent - got.size());
			Exact e(take); intr = s.below(3) ? 0 : 1 + s.below(4); int was = intr; intrs = 0;
			int k = coda_unix_recv(y, e, take);
			CHECK(k > 0 && (size_t) k <= take, "receiving returned %d (%s) after %d interruptions", k, strerror(errno), intrs); (void) was; intr = 0;
			CHECK((size_t) k <= sent - got.size(), "%d bytes received, %zu under way", k, sent - got.size());
			for (size_t i = k; i < take; ++i) CHECK((uint8_t) e.data()[i] == 0xA5, "byte %zu beyond the %d received was written", i, k);
			CHECK(d.compare(got.size(), k, e.data(), k) == 0, "the bytes received at %zu are %s", got.size(), show(e.data(), std::min(k, 100)).c_str());
			got.append(e.data(), k);
		}
	}
	// an empty socket
	for (int q = s.below(3); q > 0; --q)
	{
		long us = s.below(2) ? (long) s.below(s.below(12) ? 8000 : 60000) : s.below(2) ? (long) s.below(5000000) : (long) (s.big() % 1000000000001ull);
		int rc = coda_set_socket_timeout(f.b, us); c.say("timeout %ld us", us);
		CHECK(rc == 0, "a timeout of %ld microseconds is refused: %s", us, strerror(errno));
		struct timeval tv = { -1, -1 }; n = sizeof tv; if (getsockopt(f.b, SOL_SOCKET, SO_RCVTIMEO, &tv, &n)) throw pbt::Discard();
		int64_t is = (int64_t) tv.tv_sec * 1000000 + tv.tv_usec;
		CHECK(is >= us && is <= us + 20000, "a timeout of %ld microseconds is set to %ld", us, (long) is);
		if (us >= 15000 && us <= 60000 && s.below(3) == 0)
		{
			int zero = 0; __real_ioctl(f.b, FIONBIO, &zero); char b; struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
			int k = coda_unix_recv(f.b, &b, 1); int e = errno; clock_gettime(CLOCK_MONOTONIC, &t1);
			int64_t took = (t1.tv_sec - t0.tv_sec) * 1000000ll + (t1.tv_nsec - t0.tv_nsec) / 1000;
			CHECK(k == -1 && (e == EAGAIN || e == EWOULDBLOCK), "receiving from a silent peer returned %d (%s)", k, strerror(e));
			CHECK(took >= us - 12000,    /* the kernel counts in ticks of up to 10 ms */
			 "the timeout of %ld us took effect after %ld us", us, (long) took); c.label("timeout elapsed");
		}
	}
	switch (s.below(24) == 23 ? 4 : s.below(4))
	{
		case 4:
		{	// the server closes first (its end stays behind in the kernel for a minute) and starts again
			c.say("the server closes and listens again"); c.label("listening again at once");
			char b; shutdown(f.b, SHUT_WR); if (!ready(f.a, POLLIN)) break;
			while (recv(f.a, &b, 1, MSG_DONTWAIT) > 0) {}
			close(f.a); f.a = -1; if (!ready(f.b, POLLIN)) break;
			while (recv(f.b, &b, 1, MSG_DONTWAIT) > 0) {}
			close(f.b); f.b = -1; close(f.l);
			f.l = coda_listen(host.c_str(), port.c_str(), 3, nbl);
			CHECK(f.l >= 0, "%s:%s cannot be listened on again after its server closed: %s", host.c_str(), port.c_str(), strerror(errno));
			break;
		}
		case 1: { c.say("the peer closes"); close(f.a); f.a = -1; char b; if (!ready(f.b, POLLIN)) break; int k = coda_unix_recv(f.b, &b, 1); CHECK(k == 0, "receiving from a closed peer returned %d", k); break; }
		case 2: { c.say("sending to a peer that is gone"); rst(f.a); if (!ready(f.b, POLLIN | POLLHUP)) break; char b = 'x'; int k = 0; for (int i = 0; i < 4; ++i) k = coda_unix_send(f.b, &b, 1); CHECK(k == -1, "sending to a peer that is gone returned %d", k); break; }
		case 3: { c.say("connecting where nobody listens"); close(f.l); f.l = -1; int before = pbt::count_fds(); f.l = coda_connect(host.c_str(), port.c_str(), 0); CHECK(f.l == -1, "connecting where nobody listens returned %d", f.l); CHECK(pbt::count_fds() == before, "a failed coda_connect left a descriptor open"); break; }
	}
	}
	CHECK(pbt::count_fds() == fds, "descriptors left: %s", pbt::list_fds().c_str());
}

void prop_init() { signal(SIGPIPE, SIG_DFL); }
void run_case(Src &s, Ctx &c) { if (s.weighted({ 8, 1 }) == 0) texts(s, c); else connection(s, c); }
