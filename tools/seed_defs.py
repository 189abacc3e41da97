# ---- codecs
seed("C01-decode-room", "C01", "coda/base58.c",
  [("unsigned b256len = inlen * 733 / 1000 + 1;", "unsigned b256len = inlen * 732 / 1000 + 1;")],
  "texts of some thousand digits: the estimate of the decoded size is too small only there",
  "decoding a valid long text is reported as an error",
r'''
#include <coda/base58.h>
int main() {
	std::string in(6000, '\xff'); char *t, *b;
	size_t n = coda_base58_encode_alloc(in.data(), in.size(), &t);
	ssize_t m = coda_base58_decode_alloc(t, n, &b);
	REQ(m == (ssize_t) in.size() && !memcmp(b, in.data(), m));
}
''')
seed("C01-alloc-zeroes", "C01", "coda/base58.c",
  [("size_t needlen = zeroes + b256len * 733 / 1000 + 1;", "size_t needlen = zeroes * 733 / 1000 + b256len * 733 / 1000 + 2;")],
  "texts with many leading '1': each stands for a whole byte",
  "the allocating decoder writes past the buffer it allocated",
r'''
#include <coda/base58.h>
#include <malloc.h>
int main() {
	std::string t(4000, '1'); char *b;
	ssize_t m = coda_base58_decode_alloc(t.data(), t.size(), &b);
	REQ(m == 4000); REQ(malloc_usable_size(b) >= 4000);
}
''')
seed("C02-overflow-check", "C02", "coda/base64.c",
  [("  if (inlen > outlen)\n", "  if (outlen == 0)\n")],
  "an input length near SIZE_MAX whose encoded length wraps around to something small but not zero",
  "an input too long to encode is not refused, the buffer is too small",
r'''
#include <coda/base64.h>
int main() {
	char in[64] = "abc", *out = 0;
	size_t n = 3 * (((size_t) 1 << 62) + 1) - 2;
	size_t r = coda_base64_encode_alloc(in, n, &out);
	REQ(r == 0 && !out);
}
''')
seed("C02-inner-padding", "C02", "coda/base64.c",
  [("""	  if (in[3] == '=')
	    {
	      if (inlen != 4)
		break;
	    }""", """	  if (in[3] == '=')
	    {
	      if (inlen < 4)
		break;
	    }""")],
  "a text in which a group with a single '=' is followed by further groups",
  "padding in the middle of a text is accepted",
r'''
#include <coda/base64.h>
int main() {
	char out[64]; size_t n = sizeof(out);
	REQ(!coda_base64_decode("QUI=QUJD", 8, out, &n));
}
''')
seed("C03-terminator", "C03", "coda/web64.c",
  [("	if (outlen) *out = '\\0';", "	*out = '\\0';")],
  "an output buffer exactly as long as the text (or shorter)",
  "the encoder writes one byte beyond the buffer",
r'''
#include <coda/web64.h>
int main() {
	char out[64]; memset(out, 'x', sizeof(out));
	web64_encode("abcdef", 6, out, 8);
	REQ(!memcmp(out, "YWJjZGVm", 8) && out[8] == 'x');
}
''')
seed("C03-inner-padding", "C03", "coda/web64.c",
  [("""			if (inlen != 4) break;
			if (in[3] != '.') break;""", """			if (in[3] != '.') break;""")],
  "a text cut after the first padding character (read past its end), or with '..' in the middle",
  "padding before the last group is accepted",
r'''
#include <coda/web64.h>
int main() {
	char out[64]; size_t n = sizeof(out);
	REQ(!web64_decode("QQ..QUJD", 8, out, &n));
}
''')
# ---- url encoding
seed("C04-cut-escape", "C04", "coda/url.cpp",
  [("""		if (*psrc == '%' && psrc < esrc - 2)
		{
			dst.push_back(table_urldec""", """		if (*psrc == '%' && psrc < esrc - 1)
		{
			dst.push_back(table_urldec""")],
  "a '%' followed by exactly one byte, in the string variant only",
  "a cut escape is decoded instead of copied, reading a byte beyond the text",
r'''
#include <coda/url.hpp>
int main() { REQ(coda_urldec(std::string("a%41b").substr(0, 3)) == "a%4"); }
''')
seed("C04-del", "C04", "coda/url.cpp",
  [("0xb8000001, /* 1011 1000", "0x38000001, /* 1011 1000")],
  "the byte 0x7F", "DEL is emitted as it is instead of as %7F",
r'''
#include <coda/url.hpp>
int main() { REQ(coda_urlenc(std::string("a\x7f" "b")) == "a%7Fb"); }
''')
seed("C05-u0800", "C05", "coda/url.cpp",
  [("if ((c < 0x0800) && (c > 0x7F))", "if ((c <= 0x0800) && (c > 0x7F))")],
  "the escape %u0800 exactly", "a code point that does not fit two bytes becomes invalid UTF-8",
r'''
#include <coda/url.hpp>
int main() { char d[64]; coda_url_unescape("a%u0800b", d, sizeof(d)); REQ(!strcmp(d, "ab")); }
''')
seed("C05-x80", "C05", "coda/url.cpp",
  [("""			xnum[0] = s[1];
			xnum[1] = s[2];
			xnum[2] = 0;
			uint8_t c = strtol(xnum, 0, 16);
			if (c & 0x80)""", """			xnum[0] = s[1];
			xnum[1] = s[2];
			xnum[2] = 0;
			uint8_t c = strtol(xnum, 0, 16);
			if (c > 0x80)""")],
  "the escape %80 in the pre-unescape function", "one escape of a byte above 0x7F is kept verbatim",
r'''
#include <coda/url.hpp>
int main() { char d[64]; coda_url_preunescape("x%D0%80y", d, sizeof(d)); REQ(!strcmp(d, "x\xd0\x80y")); }
''')
seed("C06-nul-value", "C06", "coda/url.cpp",
  [("params[key].assign(equ + 1, amp - equ - 1);", "params[key] = std::string(equ + 1, strnlen(equ + 1, amp - equ - 1));")],
  "a value that contains a zero byte", "the value is cut at the zero byte",
r'''
#include <coda/url.hpp>
int main() {
	coda_params_t p; coda_get_params_buf(p, "a=x\0y&b=1", 9);
	REQ(p["a"] == std::string("x\0y", 3) && p["b"] == "1");
}
''')
seed("C06-lone-cr", "C06", "coda/url.cpp",
  [('const char* crlf = coda_strnstr(s, "\\r\\n", e - s);', "const char* crlf = coda_strnchr(s, '\\r', e - s);")],
  "a header line containing a carriage return that is not followed by a line feed",
  "the value is cut at the lone carriage return",
r'''
#include <coda/url.hpp>
int main() {
	coda_header_t h; const char *s = "A:x\ryB:z\r\nC:1\r\n"; coda_get_header_buf(h, s, strlen(s));
	REQ(h.size() == 2 && h["A"] == "x\ryB:z" && h["C"] == "1");
}
''')
# ---- URL objects
seed("C07-two-up", "C07", "coda/url_parser.cpp",
  [("for (char *pp = p - 1; pp >= beg; --pp)", "for (char *pp = p - 1; pp > beg; --pp)")],
  "two '..' segments in a row that lead back to the root, after which the previous slash is remembered wrongly",
  "segments that should be gone stay in the path",
r'''
#include <coda/url_parser.hpp>
int main() {
	coda_url u; std::string s = "http://h.com/a/b/../../c/d";
	REQ(!u.create_absolute(s.data(), s.size(), 0)); REQ(std::string(u.get_url(), u.get_url_len()) == "http://h.com/c/d");
}
''')
seed("C07-up-at-end", "C07", "coda/url_parser.cpp",
  [('if (p <= eofp - 4 && coda_strnstr(p, "/../", 4) != 0)', 'if (p < eofp - 4 && coda_strnstr(p, "/../", 4) != 0)')],
  "a path that ends in exactly '/../'", "the '..' segment stays in the path",
r'''
#include <coda/url_parser.hpp>
int main() {
	coda_url u; std::string s = "http://h.com/a/b/../";
	REQ(!u.create_absolute(s.data(), s.size(), 0)); REQ(std::string(u.get_url(), u.get_url_len()) == "http://h.com/a");
}
''')
seed("C08-query-slash", "C08", "coda/url_parser.cpp",
  [("sz_pub = coda_strnchp(parent.val_str, '?', parent.val_len);", "sz_pub = parent.val_len;")],
  "a parent whose query contains a slash", "the directory of the parent ends inside its query",
r'''
#include <coda/url_parser.hpp>
int main() {
	coda_url p, u; std::string s = "http://h.com/a/b?x=/y/z";
	REQ(!p.create_absolute(s.data(), s.size(), 0)); REQ(!u.create_relative("c", 1, 0, p));
	REQ(std::string(u.get_url(), u.get_url_len()) == "http://h.com/a/c");
}
''')
seed("C08-domain-prefix", "C08", "coda/url_parser.cpp",
  [("0 != strcasecmp(dom_str, parent.dom_str))", "0 != strncasecmp(dom_str, parent.dom_str, parent.dom_len))")],
  "another domain that begins with the parent's domain", "a foreign domain is accepted as the parent's",
r'''
#include <coda/url_parser.hpp>
int main() {
	coda_url p, u; std::string s = "http://good.co/", r = "http://good.com/";
	REQ(!p.create_absolute(s.data(), s.size(), 0)); REQ(u.create_relative(r.data(), r.size(), CODA_URL_SUBDOMAIN, p)); REQ(u.empty());
}
''')
seed("C09-shared-domain", "C09", "coda/url_parser.cpp",
  [("""coda_url::coda_url(const coda_url &u)
{
	if (u.empty())
	{
		val_len = 0;
		dom_len = 0;

		val_str = NULL;
		dom_str = NULL;
	}
	else
	{
		val_len = u.val_len;
		dom_len = u.dom_len;

		val_str = copy_of(u.val_str, (size_t) val_len + dom_len + 2);

		dom_str = val_str + val_len + 1;
	}
""", """coda_url::coda_url(const coda_url &u)
{
	if (u.empty())
	{
		val_len = 0;
		dom_len = 0;

		val_str = NULL;
		dom_str = NULL;
	}
	else
	{
		val_len = u.val_len;
		dom_len = u.dom_len;

		val_str = copy_of(u.val_str, (size_t) val_len + dom_len + 2);

		dom_str = u.dom_str;
	}
""")],
  "a copy-constructed object that outlives (or survives a change of) the one it was made from",
  "the copy's domain lives in the other object's memory",
r'''
#include <coda/url_parser.hpp>
int main() {
	coda_url *a = new coda_url; std::string s = "http://www.example.com/path", t = "http://other.net/";
	REQ(!a->create_absolute(s.data(), s.size(), 0));
	coda_url b(*a); memset((char *) a->get_url(), 'x', a->get_url_len() + a->get_domain_len() + 1); delete a;
	REQ(std::string(b.get_domain(), b.get_domain_len()) == "example.com");
}
''')
seed("C09-keeps-value", "C09", "coda/url_parser.cpp",
  [("""		reset();
		return -1;
	}

	if (sz > MAX_LEN) return -1;
""", """		return -1;
	}

	if (sz > MAX_LEN) return -1;
""")],
  "parsing into an object that already holds a URL, and looking at it afterwards",
  "the failed parse leaves the old value",
r'''
#include <coda/url_parser.hpp>
int main() {
	coda_url a; std::string s = "http://a.com/";
	REQ(!a.create_absolute(s.data(), s.size(), 0)); REQ(a.create_absolute("b.com", 5, 0)); REQ(a.empty());
}
''')
# ---- cache
seed("C10-stale-prev", "C10", "coda/cache.tcc",
  [("""		if (begp != NULL)
		{
			begp->second.prev = NULL;
		}
		else""", """		if (begp == NULL)""")],
  "an eviction, then erasing (or setting) the element that became the oldest, then more evictions",
  "the list is linked through freed memory",
r'''
#include <coda/coda.h>
#include <coda/cache.hpp>
int main() {
	coda_cache<int, int> c(8, 0);
	c.set(1, 10, false); c.set(2, 20, false); c.set(3, 30, false); /* evicts 1 */
	REQ(!c.get(1)); c.set(2, 21, false); /* 3 is the oldest now */
	c.set(4, 40, false); /* evicts 3 */
	REQ(!c.get(3) && c.get(2) && *c.get(2) == 21 && c.get(4) && *c.get(4) == 40);
}
''', extra="#include <string>\n#include <coda/estimate_capacity.hpp>\n")
seed("C10-resize-middle", "C10", "coda/cache.tcc",
  [("""		endp = &*res.first;

		size_cur -= res.first->second.size;
		res.first->second.size = size;
		size_cur += res.first->second.size;
""", """		endp = &*res.first;

		res.first->second.size = size;
		size_cur += res.first->second.size;
		size_cur -= res.first->second.size;
""")],
  "setting a held key that is not the newest to a value of another size",
  "the reported total drifts from the sum of the held sizes",
r'''
#include <coda/coda.h>
#include <coda/cache.hpp>
int main() {
	coda_cache<int, std::string> c(100000, 0);
	c.set(1, "a", false); c.set(2, "b", false); c.set(1, std::string(5000, 'x'), false);
	std::string d; c.dbg(d, 0); const char *p = strstr(d.c_str(), "size_cur="); REQ(p); REQ(atoi(p + 9) > 5000);
}
''', extra="#include <string>\n#include <coda/estimate_capacity.hpp>\n")
seed("C11-renew", "C11", "coda/cache.tcc",
  [("""		size_cur += res.first->second.size;

		if (do_update_time)
		{
			res.first->second.time = time(NULL);
		}

		drop_last_unused();

		return;
	}

	res""", """		size_cur += res.first->second.size;

		res.first->second.time = time(NULL);

		drop_last_unused();

		return;
	}

	res""")],
  "a set without renewal of a key that is not the newest, then a lookup after its lifetime",
  "the element lives longer than its allotted time",
r'''
static time_t now = 1000;
extern "C" time_t time(time_t *p) { if (p) *p = now; return now; }
#include <coda/coda.h>
#include <coda/cache.hpp>
int main() {
	coda_cache<int, int> c(1000, 10);
	c.set(1, 1, false); c.set(2, 2, false); now += 8; c.set(1, 3, false); now += 8; REQ(!c.get(1));
}
''', extra="#include <string>\n#include <time.h>\n#include <coda/estimate_capacity.hpp>\n")
seed("C11-not-removed", "C11", "coda/cache.tcc",
  [("""			erase(it);
			return NULL;
""", """			return NULL;
""")],
  "looking up an outdated element", "the lookup misses but the element keeps its space",
r'''
static time_t now = 1000;
extern "C" time_t time(time_t *p) { if (p) *p = now; return now; }
#include <coda/coda.h>
#include <coda/cache.hpp>
int main() {
	coda_cache<int, int> c(1000, 5);
	c.set(1, 1, false); c.set(2, 2, false); now += 50; REQ(!c.get(1));
	std::string d; c.dbg(d, 0); const char *p = strstr(d.c_str(), "size_cur="); REQ(p); REQ(atoi(p + 9) == sizeof(int));
}
''', extra="#include <string>\n#include <time.h>\n#include <coda/estimate_capacity.hpp>\n")
# ---- threads
seed("C12-lost-wakeup", "C12", "coda/synque.hpp",
  [("""		d.push_front(e);
		pthread_cond_signal(&c);""", """		d.push_front(e);
		if (1 == d.size()) pthread_cond_signal(&c);""")],
  "two blocked consumers and two adds before the first of them runs",
  "the second consumer stays blocked although an item is available",
r'''
#include <pthread.h>
#include <coda/synque.hpp>
static coda::synque<int> q; static volatile int got, waiting;
static void *consumer(void *) { int e; __sync_fetch_and_add(&waiting, 1); if (!q.get(e, 1)) __sync_fetch_and_add(&got, 1); return 0; }
int main() {
	pthread_t t[2];
	for (int round = 0; round < 300; ++round)
	{
		got = waiting = 0;
		for (int i = 0; i < 2; ++i) pthread_create(t + i, 0, consumer, 0);
		while (waiting < 2) usleep(100);
		usleep(2000);
		q.add(1); q.add(2);
		for (int i = 0; i < 400 && got < 2; ++i) usleep(5000);
		REQ(got == 2);
		pthread_join(t[0], 0); pthread_join(t[1], 0);
	}
}
''')
seed("C12-batch-count", "C12", "coda/synque.hpp",
  [("""	int get(std::deque<_T>& out, ssize_t max_count, int canwait)
	{
		locker lock(m);
""", """	int get(std::deque<_T>& out, ssize_t max_count, int canwait)
	{
		locker lock(m);
		size_t quantity = d.size();
"""), ("""		size_t quantity = d.size();
		if ((max""", """		if ((max""")],
  "a batch get that has to wait until something is added",
  "it is woken, succeeds and takes nothing",
r'''
#include <pthread.h>
#include <coda/synque.hpp>
static coda::synque<int> q; static volatile int r = 5; static std::deque<int> out;
static void *getter(void *) { r = q.get(out, 0, 1); return 0; }
int main() {
	pthread_t t; pthread_create(&t, 0, getter, 0);
	while (r == 5) { q.signal(); usleep(1000); if (r == -1) { pthread_join(t, 0); r = 5; pthread_create(&t, 0, getter, 0); usleep(50000); q.add(7); while (r == 5) usleep(1000); break; } }
	pthread_join(t, 0);
	REQ(r == 0); REQ(out.size() == 1 && out[0] == 7);
}
''')
# ---- shared memory
SHM = r'''
#include <sys/types.h>
#include <sys/ipc.h>
#include <sys/sem.h>
#include <sys/shm.h>
#include <sys/wait.h>
#include <signal.h>
#include <fcntl.h>
static std::string keyfile() { char b[] = "keyXXXXXX"; int f = mkstemp(b); close(f); return b; }
struct cleanup { int sem, shm; pid_t me; cleanup() : sem(-1), shm(-1), me(getpid()) {} ~cleanup() { if (getpid() == me) rm(); } void rm() { if (sem >= 0) semctl(sem, 0, IPC_RMID); if (shm >= 0) shmctl(shm, IPC_RMID, 0); } } clean;
#undef REQ
#define REQ(x) do { if (!(x)) { fprintf(stderr, "FAIL line %d: %s\n", __LINE__, #x); clean.rm(); _exit(1); } } while (0)
'''
seed("C13-erase-hash", "C13", "coda/shm_hash_map.tcc",
  [("""unprotected_erase(uint64_t key)
{
	int hash_index = key % _HASH_SIZE;""", """unprotected_erase(uint64_t key)
{
	int hash_index = (uint32_t) key % _HASH_SIZE;""")],
  "erasing a key above 2^32 in a map whose hash size is no power of two",
  "erase looks into another chain than insert and read",
SHM + r'''
#include <coda/shm_hash_map.hpp>
int main() {
	shm::hash_map<int, 10, 7> m; std::string k = keyfile(); m.connect(k.c_str()); clean.sem = m.semid(); clean.shm = m.shmid();
	uint64_t key = (1ull << 40) + 5; int v;
	REQ(m.insert(key, 3)); REQ(m.erase(key)); REQ(!m.read(key, v)); REQ(m.size() == 0);
}
''')
seed("C13-batch-stops", "C13", "coda/shm_hash_map.tcc",
  [("		res += unprotected_insert(pairs[i].key, pairs[i].value) ? 1 : 0;", "		if (!unprotected_insert(pairs[i].key, pairs[i].value)) break;\n\t\t++res;")],
  "a batch into a full map in which a new key comes before keys already held",
  "the rest of the batch is not applied",
SHM + r'''
#include <coda/shm_hash_map.hpp>
int main() {
	typedef shm::hash_map<int, 2, 7> map; map m; std::string k = keyfile(); m.connect(k.c_str()); clean.sem = m.semid(); clean.shm = m.shmid();
	REQ(m.insert(1, 1) && m.insert(2, 2));
	map::pair p[2]; p[0].key = 3; p[0].value = 3; p[1].key = 1; p[1].value = 9; int v;
	REQ(!m.insert(p, 2)); REQ(m.read(1, v) && v == 9);
}
''')
seed("C14-batch-not-atomic", "C14", "coda/shm_hash_map.tcc",
  [("""	lock_write_rw();

	size_t res = 0;

	for (size_t i = 0; i < pairs_num; i++)
	{
		res += unprotected_insert(pairs[i].key, pairs[i].value) ? 1 : 0;
	}

	unlock_write_rw();
""", """	size_t res = 0;

	for (size_t i = 0; i < pairs_num; i++)
	{
		res += insert(pairs[i].key, pairs[i].value) ? 1 : 0;
	}
""")],
  "another process looking at the map in the middle of a batch insert",
  "a part of the batch is visible", 
SHM + r'''
#include <coda/shm_hash_map.hpp>
typedef shm::hash_map<int, 100, 7> map;
int main() {
	map m; std::string k = keyfile(); m.connect(k.c_str()); clean.sem = m.semid(); clean.shm = m.shmid();
	pid_t c = fork();
	if (!c)
	{
		map w; w.connect(k.c_str()); map::pair p[100]; alarm(60);
		for (int i = 0; i < 100; ++i) { p[i].key = i; p[i].value = i; }
		for (;;) { w.insert(p, 100); w.clear(); }
	}
	int seen = 0, torn = 0;
	for (int i = 0; i < 20000; ++i) { size_t n = m.size(); if (n == 100 || n == 0) ++seen; else ++torn; }
	kill(c, SIGKILL); waitpid(c, 0, 0);
	REQ(!torn);
}
''')
seed("C14-no-undo", "C14", "coda/shm_hash_map.tcc",
  [("	sem[2].sem_flg = SEM_UNDO;", "	sem[2].sem_flg = 0;")],
  "a process that dies between taking and releasing the write lock",
  "the lock stays held: every other process is blocked for ever",
SHM + r'''
static bool die;
struct val { int v; val(int v = 0) : v(v) {} val &operator=(const val &o) { if (die) _exit(0); v = o.v; return *this; } };
#include <coda/shm_hash_map.hpp>
typedef shm::hash_map<val, 10, 7> map;
static void late(int) { clean.rm(); _exit(1); }
int main() {
	map m; std::string k = keyfile(); m.connect(k.c_str()); clean.sem = m.semid(); clean.shm = m.shmid();
	m.insert(1, val(1));
	pid_t c = fork();
	if (!c) { map w; w.connect(k.c_str()); die = true; w.insert(2, val(2)); _exit(0); }
	waitpid(c, 0, 0); signal(SIGALRM, late); alarm(5);
	val x; REQ(m.read(1, x) && x.v == 1); REQ(m.insert(3, val(3)));
}
''')
seed("C15-hash-size", "C15", "coda/shm_hash_map.tcc",
  [("else if (_OBJECTS_NUM != *objects_num || sizeof(_Type) != *item_size || _HASH_SIZE != *hash_size)", "else if (_OBJECTS_NUM != *objects_num || sizeof(_Type) != *item_size)")],
  "connecting a map that differs in the (smaller) hash size only", "the mismatch is not noticed",
SHM + r'''
#include <coda/shm_hash_map.hpp>
int main() {
	shm::hash_map<int, 10, 64> m; std::string k = keyfile(); m.connect(k.c_str()); clean.sem = m.semid(); clean.shm = m.shmid();
	shm::hash_map<int, 10, 32> n; bool thrown = false;
	try { n.connect(k.c_str()); } catch (const std::exception &) { thrown = true; }
	REQ(thrown);
}
''')
seed("C15-ring-size", "C15", "coda/shm_queue.tcc",
  [("if ((BOX_SIZE != info->box_size) || (MAX_BOXES_IN_QUEUE != info->size))", "if ((BOX_SIZE != info->box_size) && (MAX_BOXES_IN_QUEUE != info->size))")],
  "connecting a queue that differs in the number of boxes only", "the mismatch is not noticed",
SHM + r'''
#include <coda/shm_queue.hpp>
struct item : shm_queue::serializable { int v; bool serialize(void *p) const { memcpy(p, &v, 4); return true; } bool deserialize(const void *p) { memcpy(&v, p, 4); return true; } size_t size() const { return 4; } };
int main() {
	shm_queue::queue<item> a, b; std::string k = keyfile(); a.connect(k.c_str(), 64, 10); clean.sem = a.semid(); clean.shm = a.shmid();
	bool thrown = false;
	try { b.connect(k.c_str(), 64, 5); } catch (const std::exception &) { thrown = true; }
	REQ(thrown);
}
''')
QITEM = SHM + r'''
#include <coda/shm_queue.hpp>
struct item : shm_queue::serializable { int v; item(int v = 0) : v(v) {} bool serialize(void *p) const { memcpy(p, &v, 4); return true; } bool deserialize(const void *p) { memcpy(&v, p, 4); return v != 0; } size_t size() const { return 4; } };
typedef shm_queue::queue<item> queue;
'''
seed("C16-exact-fit", "C16", "coda/shm_queue.tcc",
  [("return (pos + h.size() <= size);", "return (pos + h.size() < size);")],
  "items that fill a box to its last byte", "the last item of a box goes into the next one, an item as large as a box is refused",
QITEM + r'''
int main() {
	queue w, r; std::string k = keyfile(); w.connect(k.c_str(), 8, 10); clean.sem = w.semid(); clean.shm = w.shmid(); r.connect(k.c_str(), 8, 10);
	w.put(1); w.put(2); w.flush(); REQ(w.boxes_in_queue() == 1);
	item a, b; REQ(r.unflush()); REQ(r.get(a) && r.get(b)); REQ(a.v == 1 && b.v == 2);
}
''')
seed("C16-register-12", "C16", "coda/shm_queue.tcc",
  [("""void shm_queue::queue<_T>::set_register(uint8_t offset, uint32_t var)
{
	if (offset < queue_info::registers_number)""", """void shm_queue::queue<_T>::set_register(uint8_t offset, uint32_t var)
{
	if (offset <= queue_info::registers_number)""")],
  "storing register 12 while the first box of the ring is waiting", "the first item of that box is overwritten",
QITEM + r'''
int main() {
	queue w, r; std::string k = keyfile(); w.connect(k.c_str(), 64, 10); clean.sem = w.semid(); clean.shm = w.shmid(); r.connect(k.c_str(), 64, 10);
	w.put(1); w.put(2); w.flush(); w.set_register(12, 77);
	item a, b; REQ(r.unflush()); REQ(r.get(a) && r.get(b)); REQ(a.v == 1 && b.v == 2);
}
''')
seed("C17-unlocked-copy", "C17", "coda/shm_queue.tcc",
  [("""		current_box.copy_from(ptr);
		memset(ptr, 0, info->box_size);

		info->start = (info->start + 1) % info->size;

		unlock_queue();
""", """		unlock_queue();

		current_box.copy_from(ptr);

		lock_queue();
		memset(ptr, 0, info->box_size);
		info->start = (info->start + 1) % info->size;
		unlock_queue();
""")],
  "two readers taking boxes at the same time", "both receive the same box and one box is cleared unread",
QITEM + r'''
#include <map>
int main() {
	queue w; std::string k = keyfile(); w.connect(k.c_str(), 64, 1000); clean.sem = w.semid(); clean.shm = w.shmid();
	for (int round = 0; round < 40; ++round)
	{
		for (int i = 1; i < 1000; ++i) { w.put(i); w.flush(); }
		int p[2]; REQ(!pipe(p)); pid_t c[4];
		for (int j = 0; j < 4; ++j) if (!(c[j] = fork())) { queue r; r.connect(k.c_str(), 64, 1000); alarm(60); while (r.unflush(IPC_NOWAIT)) { item a; if (!r.get(a)) a.v = -1; if (4 != write(p[1], &a.v, 4)) _exit(1); } _exit(0); }
		for (int j = 0; j < 4; ++j) waitpid(c[j], 0, 0);
		close(p[1]); std::map<int, int> n; int v; while (4 == read(p[0], &v, 4)) n[v]++; close(p[0]);
		for (int i = 1; i < 1000; ++i) REQ(n[i] == 1);
	}
}
''')
seed("C17-no-undo", "C17", "coda/shm_queue.tcc",
  [("""	sem.sem_num = SEM_ID_0;
	sem.sem_op = -1;
	sem.sem_flg = SEM_UNDO;""", """	sem.sem_num = SEM_ID_0;
	sem.sem_op = -1;
	sem.sem_flg = 0;"""), ("""	sem.sem_op = 1;
	sem.sem_flg = SEM_UNDO;""", """	sem.sem_op = 1;
	sem.sem_flg = 0;""")],
  "a process that dies while it holds the queue's lock", "the lock stays taken and every other process waits for ever",
QITEM + r'''
#include <sys/syscall.h>
static bool die;
extern "C" int semop(int id, struct sembuf *s, size_t n) { int r = syscall(SYS_semtimedop, id, s, n, (void *) 0); if (!r && die && s->sem_num == 0 && s->sem_op == -1) _exit(0); return r; }
static void late(int) { clean.rm(); _exit(1); }
int main() {
	queue w; std::string k = keyfile(); w.connect(k.c_str(), 64, 10); clean.sem = w.semid(); clean.shm = w.shmid();
	pid_t c = fork(); if (!c) { queue d; d.connect(k.c_str(), 64, 10); die = true; d.set_register(1, 1); _exit(0); }
	waitpid(c, 0, 0); signal(SIGALRM, late); alarm(5); w.put(1); w.flush(); REQ(w.boxes_in_queue() == 1);
}
''')
# ---- string storage
seed("C18-dirty-slot", "C18", "coda/stringstorage.c",
  [("char *newcurrent = (char*)calloc(1, STORAGE_BLOCK_SIZE);", "char *newcurrent = (char*)malloc(STORAGE_BLOCK_SIZE);")],
  "memory that was used for something else before", "a fresh data slot is not zero",
r'''
#include <coda/stringstorage.h>
int main() {
	void *p[64]; for (int i = 0; i < 64; ++i) { p[i] = malloc(4096); memset(p[i], 0xAA, 4096); } for (int i = 0; i < 63; ++i) free(p[i]);
	string_storage ss; string_storage_init(&ss, 8);
	char *d = (char *) string_storage_add(&ss, "hello"), z[8] = {0}; REQ(d && !memcmp(d, z, 8));
}
''')
seed("C18-array-growth", "C18", "coda/stringstorage.c",
  [("	else if ((cnt & 0x0F) == 0)\n", "	else if ((cnt & 0x0F) == 0 && cnt != 0x100)\n")],
  "more than 256 strings without common prefixes", "the array of strings is written past its end",
r'''
#include <coda/stringstorage.h>
#include <malloc.h>
int main() {
	string_storage ss; string_storage_init(&ss, 4); char b[16];
	for (int i = 0; i < 272; ++i) { sprintf(b, "%03d", i); REQ(string_storage_add(&ss, b)); }
	REQ(malloc_usable_size(ss.root.children) >= 272 * sizeof(struct string_struct));
}
''')
# ---- XML
XML = r'''
#include <coda/txml.hpp>
using namespace coda;
'''
seed("C19-uint64", "C19", "coda/txml.cpp",
  [("var = strtoull  (current_value.c_str(), NULL, 10);", "var = strtoll   (current_value.c_str(), NULL, 10);")],
  "an unsigned number above 2^63-1", "large unsigned values are clipped",
XML + r'''
struct in { uint64_t v; void determine(txml_parser *p) { txml_member(p, v); } };
struct doc : txml_determination_object { in r; void determine(txml_parser *p) { txml_member(p, r); } };
int main() { doc d; d.load_from_string("<r><v>18446744073709551615</v></r>"); REQ(d.r.v == 18446744073709551615ull); }
''')
seed("C19-chunks", "C19", "coda/txml.cpp",
  [("	current_value.append(szChars, iLength);", "	current_value.assign(szChars, iLength);")],
  "text that the XML library hands over in several pieces (entities, line ends, CDATA)", "only the last piece is kept",
XML + r'''
struct in { std::string v; void determine(txml_parser *p) { txml_member(p, v); } };
struct doc : txml_determination_object { in r; void determine(txml_parser *p) { txml_member(p, r); } };
int main() { doc d; d.load_from_string("<r><v>a&amp;b</v></r>"); REQ(d.r.v == "a&b"); }
''')
seed("C20-empty-tail", "C20", "coda/txml.cpp",
  [("			p.parse(buf, sz, feof(fp) ? true : false);", "			if (sz) p.parse(buf, sz, feof(fp) ? true : false);")],
  "a truncated document whose file size is a multiple of the read buffer (or an empty file)", "the truncation is not noticed",
XML + r'''
struct in { std::string v; void determine(txml_parser *p) { txml_member(p, v); } };
struct doc : txml_determination_object { in r; void determine(txml_parser *p) { txml_member(p, r); } };
int main() {
	std::string s = "<r><v>"; s.append(4096 - s.size(), 'x'); FILE *f = fopen("d.xml", "w"); fwrite(s.data(), 1, s.size(), f); fclose(f);
	doc d; bool thrown = false; try { d.load_from_file("d.xml"); } catch (const std::exception &) { thrown = true; } REQ(thrown);
}
''')
seed("C20-leak", "C20", "coda/txml.cpp",
  [("""	catch (...)
	{
		fclose(fp);
		throw;
	}
""", """	catch (...)
	{
		throw;
	}
""")],
  "a file that is not well-formed, and counting descriptors", "each failed load leaves its file open",
XML + r'''
struct doc : txml_determination_object { std::string r; void determine(txml_parser *p) { txml_member(p, r); } };
int main() {
	FILE *f = fopen("d.xml", "w"); fputs("<r>", f); fclose(f); int a = dup(0); close(a);
	doc d; try { d.load_from_file("d.xml"); } catch (const std::exception &) { }
	int b = dup(0); REQ(a == b);
}
''')
# ---- text
seed("C21-straddle", "C21", "coda/string.c",
  [("""		if (*s == *n)
		{
			for (w = s, x = n; w < es && x < en; ++w, ++x)""", """		if (*s == *n)
		{
			for (w = s, x = n; x < en; ++w, ++x)""")],
  "a needle that begins inside the length and continues beyond it", "a match outside the given length is reported",
r'''
#include <coda/string.h>
int main() { REQ(!coda_strnstr("xxabc", "abc", 4)); REQ(coda_strnstr("xxabc", "abc", 5)); }
''')
seed("C21-first-byte", "C21", "coda/string.c",
  [("for (s = b + len, c = tolower(c); s > b; --s)", "for (s = b + len, c = tolower(c); s > b + 1; --s)")],
  "the character occurs in the first byte only", "the backward search ignoring case misses it",
r'''
#include <coda/string.h>
int main() { const char *s = "Xbcd"; REQ(coda_revxchr(s, 'x', 4) == s); }
''')
seed("C22-max", "C22", "coda/string.h",
  [("""		result *= 10;
		result += *p - '0';
""", """		if (result >= UINT64_MAX / 10) return UINT64_MAX;

		result *= 10;
		result += *p - '0';
""")],
  "numbers of twenty digits that still fit (18446744073709551610 and above)", "the largest representable numbers are all read as the maximum",
r'''
#include <coda/string.h>
int main() { REQ(coda_atou("18446744073709551612", 20) == 18446744073709551612ull); }
''', extra="#include <stdint.h>\n")
seed("C22-minus", "C22", "coda/string.h",
  [("	if (size > 0 && data[0] == '-')", "	if (data[0] == '-')")],
  "an empty text in front of a '-' (size zero)", "a byte outside the text is read and the length wraps around",
r'''
#include <coda/string.h>
#include <sys/mman.h>
int main() {
	char *m = (char *) mmap(0, 8192, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANON, -1, 0); munmap(m + 4096, 4096);
	char *volatile p = m + 4096; volatile size_t n = 0;
	REQ(coda_atoi(p, n) == 0);
}
''')
seed("C23-exact-buffer", "C23", "coda/string.cpp",
  [("""int coda_strappend(std::string& out, const char* fmt, ...)
{
	va_list ap;

	char *BUF = (char *) alloca(BUFSZ);
	va_start(ap, fmt);
	int bytes = vsnprintf(BUF, BUFSZ, fmt, ap);
	va_end(ap);

	if (BUFSZ <= bytes)""", """int coda_strappend(std::string& out, const char* fmt, ...)
{
	va_list ap;

	char *BUF = (char *) alloca(BUFSZ);
	va_start(ap, fmt);
	int bytes = vsnprintf(BUF, BUFSZ, fmt, ap);
	va_end(ap);

	if (BUFSZ < bytes)""")],
  "an output of exactly 32768 characters", "its last character is replaced by a zero byte",
r'''
#include <coda/string.hpp>
int main() { std::string o, x(32768, 'x'); REQ(coda_strappend(o, "%s", x.c_str()) == 32768); REQ(o == x); }
''')
seed("C23-insert-end", "C23", "coda/string.cpp",
  [("	if (out.size() < pos) return -1;", "	if (out.size() <= pos && pos) return -1;")],
  "inserting exactly at the end of a text that is not empty", "the insertion is refused",
r'''
#include <coda/string.hpp>
int main() { std::string o = "abc"; REQ(coda_strnprintf(o, 3, 10, "%d", 12) == 2); REQ(o == "abc12"); }
''')
seed("C24-nul", "C24", "coda/string.cpp",
  [("	for (; p < e; ++p)\n", "	for (; p < e && (*p || p[1]); ++p)\n")],
  "a length-delimited text with two zero bytes in a row (or one at its end)", "the text behind them is lost",
r'''
#include <coda/string.hpp>
int main() {
	std::vector<std::string> v = coda_split_string("a\0\0b,c", 6, ",", false); REQ(v.size() == 2 && v[0] == std::string("a\0\0b", 4) && v[1] == "c");
}
''')
seed("C24-cr", "C24", "coda/easy_parsing.cpp",
  [('en = strpbrk(be, " \\t\\n\\r");', 'en = strpbrk(be, " \\t\\n");')],
  "words separated by carriage returns only", "two words are returned as one",
r'''
#include <coda/easy_parsing.hpp>
int main() { const char *b = "one\rtwo", *e; REQ(get_next_word(b, e)); REQ(std::string(b, e - b) == "one"); }
''')
seed("C25-letter", "C25", "coda/vietnam.cpp",
  [(" case 0x1EF6: case 0x1EF8: //", " case 0x1EF6: //")],
  "the letter U+1EF8", "one precomposed vowel keeps its tone",
r'''
#include <coda/vietnam.hpp>
int main() { REQ(coda_remove_tones_utf8("\xE1\xBB\xB8", 3) == "Y"); }
''')
seed("C25-cut", "C25", "coda/vietnam.cpp",
  [("			if (p + 3 < e)", "			if (p + 3 <= e)")],
  "a text cut after the third byte of a four-byte character", "a byte beyond the text is read and copied",
r'''
#include <coda/vietnam.hpp>
int main() { REQ(coda_remove_tones_utf8("a\xF0\x9F\x98\x80", 4) == "a\xF0\x9F\x98"); }
''')
# ---- processes, files, time
seed("C26-millis", "C26", "coda/logger.h",
  [('"%04u-%02u-%02u %02u:%02u:%02u.%03u "', '"%04u-%02u-%02u %02u:%02u:%02u.%.2u "')],
  "a message written in the first tenth of a second", "the milliseconds are printed with two digits",
r'''
#include <sys/time.h>
extern "C" int gettimeofday(struct timeval *t, void *) throw () { t->tv_sec = 1000000000; t->tv_usec = 7000; return 0; }
#include <coda/logger.h>
int main() {
	char b[256] = ""; FILE *f = fopen("log", "w+"); dup2(fileno(f), 2); log_thread_name_set("t"); log_info("hello");
	rewind(f); fgets(b, sizeof(b), f); REQ(strstr(b, ".007 info t hello\n"));
}
''')
seed("C26-level-name", "C26", "coda/logger.c",
  [("		case 'm': case 'M': return LOG_emerg;", "		case 'm': return LOG_emerg;")],
  "the level name EMERG in upper case", "it is not recognised and means info",
r'''
#include <coda/logger.h>
int main() { REQ(log_levels("EMERG") == LOG_emerg && log_levels("emerg") == LOG_emerg); }
''')
SIGT = r'''
#include <signal.h>
#include <sys/time.h>
#include <coda/daemon.h>
#include <coda/logger.h>
'''
seed("C27-stale-restart", "C27", "coda/daemon.c",
  [("    sa.sa_flags &= ~SA_RESTART;                           \\\n", "")],
  "the plain initialisation followed by the no-restart one", "blocking calls are restarted, not interrupted",
SIGT + r'''
static void *poke(void *) { usleep(200000); kill(getpid(), SIGUSR1); usleep(300000); _exit(1); }
int main() {
	log_level = 0; int p[2]; pipe(p); pthread_t t; REQ(!coda_signal_init()); REQ(!coda_signal_init_norestart());
	sigset_t s; sigemptyset(&s); sigaddset(&s, SIGUSR1); pthread_sigmask(SIG_BLOCK, &s, 0); pthread_create(&t, 0, poke, 0); pthread_sigmask(SIG_UNBLOCK, &s, 0);
	char c; REQ(-1 == read(p[0], &c, 1) && errno == EINTR); REQ(coda_rotatelog); _exit(0);
}
''')
seed("C27-ttin", "C27", "coda/daemon.c",
  [("    _(XCPU   , ignoremsg, ##__VA_ARGS__)    \\\n", "")],
  "the signal XCPU", "the process is terminated by a signal it should ignore",
SIGT + r'''
int main() { log_level = 0; REQ(!coda_signal_init()); raise(SIGXCPU); }
''')
seed("C28-early-unlock", "C28", "coda/system.c",
  [("""	if (0 > write(fd, buf, nb))
	{
		flock(fd, LOCK_UN);
		close(fd);
		return -1;
	}

	if (0 > flock(fd, LOCK_UN))
	{
		close(fd);
		return -1;
	}
""", """	if (0 > flock(fd, LOCK_UN))
	{
		close(fd);
		return -1;
	}

	if (0 > write(fd, buf, nb))
	{
		close(fd);
		return -1;
	}
""")],
  "two processes creating the file, the second between the first one's unlock and its write", "both own the pid file",
r'''
#include <sys/syscall.h>
#include <sys/wait.h>
#include <coda/system.h>
#include <coda/logger.h>
extern "C" ssize_t write(int fd, const void *b, size_t n) { if (n && *(char *) b >= '0' && *(char *) b <= '9') usleep(400000); return syscall(SYS_write, fd, b, n); }
int main() {
	log_level = -1; pid_t c[2]; int ok = 0;
	for (int i = 0; i < 2; ++i) { if (!(c[i] = fork())) _exit(coda_mkpidf("pid") ? 1 : 0); usleep(150000); }
	for (int i = 0; i < 2; ++i) { int s; waitpid(c[i], &s, 0); ok += s == 0; }
	REQ(ok == 1);
}
''')
seed("C28-leak", "C28", "coda/system.c",
  [("""		log_emerg("pid-file %s exists", path);
		flock(fd, LOCK_UN);
		close(fd);
""", """		log_emerg("pid-file %s exists", path);
		flock(fd, LOCK_UN);
""")],
  "a pid file that is already owned", "the failed attempt leaves a descriptor open",
r'''
#include <coda/system.h>
#include <coda/logger.h>
int main() { log_level = -1; REQ(!coda_mkpidf("pid")); int a = dup(0); close(a); REQ(coda_mkpidf("pid")); int b = dup(0); REQ(a == b); }
''')
seed("C29-2106", "C29", "coda/gmtime.h",
  [("	uintptr_t n, sec, min, hour, mday, mon, year, wday, days, leap;", "	uintptr_t n;\n\tunsigned sec, min, hour, mday, mon, year, wday, days, leap;")],
  "times beyond the year 29000, where days * 400 no longer fits 32 bits", "the date is wrong",
r'''
#include <coda/gmtime.h>
int main() { struct tm a, b; time_t t = 1000000000000ll; memset(&a, 0, sizeof(a)); coda_gmtime(t, &a); gmtime_r(&t, &b);
	REQ(a.tm_year == b.tm_year + 1900 && a.tm_mon == b.tm_mon + 1 && a.tm_mday == b.tm_mday && a.tm_wday == b.tm_wday); }
''', extra="#include <stdint.h>\n")
seed("C29-leap-400", "C29", "coda/gmtime.h",
  [("leap = (year % 4 == 0) && (year % 100 || (year % 400 == 0));", "leap = (year % 4 == 0) && (year % 100 != 0);")],
  "the last days before March of a year divisible by 400", "the day of the month is off by one there",
r'''
#include <coda/gmtime.h>
int main() {
	for (time_t t = 0; t < 20000000000ll; t += 43200) { struct tm a, b; coda_gmtime(t, &a); gmtime_r(&t, &b);
	REQ(a.tm_year == b.tm_year + 1900 && a.tm_mon == b.tm_mon + 1 && a.tm_mday == b.tm_mday && a.tm_wday == b.tm_wday); } }
''', extra="#include <stdint.h>\n")
SOCK = r'''
#include <unistd.h>
#include <signal.h>
#include <sys/time.h>
#include <coda/socket.h>
'''
seed("C30-sigpipe", "C30", "coda/socket.h",
  [("	return send(fd, data, size, MSG_NOSIGNAL);", "	return send(fd, data, size, 0);")],
  "sending to a peer that has closed its end", "the process is killed by SIGPIPE",
SOCK + r'''
int main() { int p[2]; socketpair(AF_UNIX, SOCK_STREAM, 0, p); close(p[1]); char c = 1; REQ(-1 == coda_unix_send(p[0], &c, 1)); }
''')
seed("C30-nonblock", "C30", "coda/socket.h",
  [("&& EINPROGRESS != errno)", "&& !nonblock)")],
  "a non-blocking connect that fails at once (nobody can be reached at that address)", "the failure is not reported",
SOCK + r'''
int main() { errno = 0; int s = coda_connect("255.255.255.255", "9", 1); REQ(s == -1); }
''')
seed("C31-exhausted", "C31", "coda/shm_pool.tcc",
  [("return (*current >= _OBJECTS_NUM) ? -1 : (*current)++;", "return (*current > _OBJECTS_NUM) ? -1 : (*current)++;")],
  "allocating until the pool is exhausted", "one slot more than declared is handed out, beyond the memory",
r'''
#include <coda/error.hpp>
#include <coda/shm_pool.hpp>
int main() { uint8_t h[4096] = {0}, s[4096] = {0}, d[4096]; shm::pool<int, 5> p; p.attach(h, s, d); for (int i = 0; i < 5; ++i) REQ(p.allocate() != (uint32_t) -1); REQ(p.allocate() == (uint32_t) -1); }
''')
seed("C31-stack-full", "C31", "coda/shm_stack.tcc",
  [("	if (used() >= _OBJECTS_NUM)", "	if (used() + 1 >= _OBJECTS_NUM)")],
  "filling a stack to its declared size", "the last push is refused although there is room",
r'''
#include <coda/error.hpp>
#include <coda/shm_stack.hpp>
int main() { uint8_t h[4096] = {0}, d[4096]; shm::stack<int, 3> s; s.attach(h, d); REQ(s.push(1)); REQ(s.push(2)); REQ(s.push(3)); REQ(!s.push(4)); REQ(s.pop() == 3); }
''')
seed("C32-path-cut", "C32", "coda/system.c",
  [("""		rc = mkdir(path, 0755);
		*p = '/';

		if (0 > rc && EEXIST != errno)
		{
			return -1;
		}
""", """		rc = mkdir(path, 0755);

		if (0 > rc && EEXIST != errno)
		{
			return -1;
		}

		*p = '/';
""")],
  "a parent that cannot be created", "the caller's path is left cut at that parent",
r'''
#include <coda/system.h>
int main() { FILE *f = fopen("file", "w"); fclose(f); char p[] = "file/sub/x"; REQ(coda_mkpath(p) == -1); REQ(!strcmp(p, "file/sub/x")); }
''')
seed("C32-no-shrink", "C32", "coda/system.c",
  [("""	if (0 != area->size)
	{
		if (0 > ftruncate(fd, area->size))""", """	if (0 != area->size)
	{
		if (lseek(fd, 0, SEEK_END) < (off_t) area->size && 0 > ftruncate(fd, area->size))""")],
  "mapping a file with a size smaller than it has", "the file is not resized to the requested size",
r'''
#include <sys/mman.h>
#include <sys/stat.h>
#include <coda/system.h>
int main() {
	FILE *f = fopen("file", "w"); fputs("0123456789", f); fclose(f); coda_strt a; a.data = 0; a.size = 4;
	REQ(!coda_mmap(&a, PROT_READ|PROT_WRITE, MAP_SHARED, "file")); struct stat s; stat("file", &s); REQ(s.st_size == 4);
}
''')
seed("C33-stale-options", "C33", "coda/daemon.c",
  [("	coda_clrptr(opt); /* TODO coda_clrptr */\n", "	opt->daemon = 0;\n")],
  "a configuration that held values before and options that do not name them", "old values remain",
r'''
#include <coda/daemon.h>
int main() { coda_getopt_t o; o.config = (char *) "old"; o.pid = (char *) "old"; o.daemon = 1; char *v[] = {(char *) "x", 0}; REQ(!coda_getopt_parse(1, v, &o)); REQ(!o.config && !o.pid && !o.daemon); }
''')
seed("C33-closed-stdin", "C33", "coda/daemon.c",
  [("    if (fd > STDERR_FILENO && 0 > close(fd))", "    if (0 > close(fd))")],
  "starting with standard input closed, so that /dev/null itself becomes descriptor 0", "the daemon has no standard input",
r'''
#include <sys/wait.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <coda/daemon.h>
int main() {
	int p[2]; pipe(p); pid_t c = fork();
	if (!c)
	{
		close(0);
		if (coda_daemon_fork()) _exit(1);
		struct stat s, n; char r = !fstat(0, &s) && !stat("/dev/null", &n) && s.st_rdev == n.st_rdev; write(p[1], &r, 1); _exit(0);
	}
	close(p[1]); char r = 0; read(p[0], &r, 1); waitpid(c, 0, 0); REQ(r == 1);
}
''')
seed("C34-uneven", "C34", "coda/string.cpp",
  [("unsigned idx = coda_random() % alphabet_size;", "unsigned idx = (coda_random() & 0x3ff) % alphabet_size;")],
  "alphabets of several hundred characters", "some characters are much likelier than others, those beyond 1024 never occur",
r'''
#include <coda/string.hpp>
int main() { std::string a; for (int i = 0; i < 700; ++i) a += (char) (i < 350 ? 'a' : 'b'); std::string r = coda_random_string(200000, a.data(), a.size()); size_t n = 0; for (size_t i = 0; i < r.size(); ++i) n += r[i] == 'a'; REQ(n > 95000 && n < 105000); }
''')
seed("C34-reseed", "C34", "coda/random.c",
  [("	srandom(rnd_from_device);\n	coda_random_inited = 1;", "	srandom(rnd_from_device);\n	coda_random_inited = 0 != rnd_from_device % 2;")],
  "a seed that happens to be even (every second process)", "the generator is seeded again by every call",
r'''
#include <fcntl.h>
static int n;
extern "C" int open(const char *p, int f, ...) { ++n; errno = 0; return openat(AT_FDCWD, p, f); }
extern "C" int open64(const char *p, int f, ...) { ++n; return openat(AT_FDCWD, p, f); }
extern "C" ssize_t read(int fd, void *b, size_t k) { memset(b, 2, k); return k; }
#include <coda/random.h>
int main() { coda_random_init(); coda_random_init(); coda_random_init(); REQ(n == 1); }
''')
seed("C35-wide-value", "C35", "coda/log_array.hpp",
  [("_T &log_array<_T, MaxLog>::get_by_value(size_t i)\n{", "_T &log_array<_T, MaxLog>::get_by_value(size_t v)\n{\n\tunsigned i = v;")],
  "values of 2^32 and more", "they select the slot of their low 32 bits",
r'''
#include <coda/log_array.hpp>
int main() { coda::log_array<int, 40> a; a.get_by_value((size_t) 1 << 36 | 1) = 5; REQ(a.get_at(36) == 5); }
''')
seed("C35-vector-size", "C35", "coda/estimate_capacity.hpp",
  [("size_t estimate_capacity(const std::vector<T> &v)\n{\n	return sizeof(v) + v.capacity() * sizeof(T);", "size_t estimate_capacity(const std::vector<T> &v)\n{\n	return sizeof(v) + v.size() * sizeof(T);")],
  "vectors with spare capacity", "the storage of the spare capacity is not counted",
r'''
#include <coda/estimate_capacity.hpp>
int main() { std::vector<int> v; v.reserve(100); REQ(estimate_capacity(v) == sizeof(v) + v.capacity() * sizeof(int)); }
''')
seed("C36-beyond", "C36", "coda/error.hpp",
  [("		vsnprintf(msg, CODA_ERROR_BUFSZ, fmt, ap);\n", "		vsnprintf(msg, sizeof(*this) - (msg - (char *) this) + 1, fmt, ap);\n")],
  "a message of 4096 characters and more", "its end is written beyond the object",
r'''
#include <new>
#include <coda/error.hpp>
int main() { static char m[sizeof(coda_error) + 16] __attribute__((aligned(16))); memset(m, 0x55, sizeof m); std::string s(9000, 'x'); coda_error *e = new (m) coda_error("%s", s.c_str()); REQ(m[sizeof(coda_error)] == 0x55); REQ(strnlen(e->what(), 5000) == 4095); }
''')
seed("C36-shared-text", "C36", "coda/error.h",
  [("    return strerror_r(err, data, size);", "    return data && size ? strerror(err) : strerror_r(err, data, size);")],
  "the texts of two unknown numbers in one call", "both show the number asked for last",
r'''
#include <coda/error.h>
int main() { char b[200]; snprintf(b, sizeof b, "%s|%s", coda_strerror(1001), coda_strerror(2002)); REQ(!strcmp(b, "Unknown error 1001|Unknown error 2002")); }
''')
# ---- sleeps, memory helpers, exceptions and missing memory
seed("C37-starts-again", "C37", "coda/gmtime.h",
  [("	return nanosleep(&ts, NULL);\n", "	while (0 > nanosleep(&ts, NULL))\n	{\n		if (4 /* EINTR */ != *__errno_location()) return -1;\n	}\n\n	return 0;\n"), ("#include <stdint.h>\n", "#include <stdint.h>\n#include <errno.h>\n")],
  "a signal that arrives during the sleep", "the sleep starts again from the beginning and lasts much longer",
r'''
#include <signal.h>
#include <sys/time.h>
#include <time.h>
#include <coda/gmtime.h>
static void on(int) {}
int main() {
	struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = on; sigaction(SIGALRM, &a, 0);
	itimerval t = { { 0, 0 }, { 0, 900000 } }; setitimer(ITIMER_REAL, &t, 0);
	timespec b, e; clock_gettime(CLOCK_MONOTONIC, &b); coda_msleep(1000); clock_gettime(CLOCK_MONOTONIC, &e);
	REQ((e.tv_sec - b.tv_sec) + (e.tv_nsec - b.tv_nsec) / 1e9 < 1.6);
}
''')
seed("C37-last-second", "C37", "coda/gmtime.h",
  [("	return nanosleep(&ts, NULL);\n", "	while (0 > nanosleep(&ts, &ts))\n	{\n		if (0 == ts.tv_sec) break;\n	}\n\n	return 0;\n")],
  "a signal in the last second of the sleep", "the sleep ends early and says that it has lasted the whole time",
r'''
#include <signal.h>
#include <sys/time.h>
#include <time.h>
#include <coda/gmtime.h>
static void on(int) {}
int main() {
	struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = on; sigaction(SIGALRM, &a, 0);
	itimerval t = { { 0, 0 }, { 0, 600000 } }; setitimer(ITIMER_REAL, &t, 0);
	timespec b, e; clock_gettime(CLOCK_MONOTONIC, &b); int r = coda_msleep(1400); clock_gettime(CLOCK_MONOTONIC, &e);
	REQ(r == -1 || (e.tv_sec - b.tv_sec) + (e.tv_nsec - b.tv_nsec) / 1e9 >= 1.4);
}
''')
seed("C38-sum", "C38", "coda/coda.h",
  [("#define coda_clrvec(p,n) memset((p),0,sizeof(*(p))*(n))", "#define coda_clrvec(p,n) memset((p),0,sizeof(*(p))*n)")],
  "a number of objects given as a sum", "only a part of the array is cleared",
r'''
#include <coda/coda.h>
int main() { int v[10]; memset(v, 1, sizeof v); int n = 4; coda_clrvec(v, n + 6); for (int i = 0; i < 10; ++i) REQ(v[i] == 0); }
''')
seed("C38-narrow", "C38", "coda/string.h",
  [("#define coda_cpymsz(d,s,n) ((memcpy(d,s,n),(n)))", "#define coda_cpymsz(d,s,n) ((unsigned) (n) ? (memcpy(d,s,n),(n)) : 0)")],
  "a number of bytes that is a multiple of 4 GB", "nothing is copied and 0 is given",
r'''
#include <sys/mman.h>
#include <coda/string.h>
int main() {
	size_t n = (size_t) 1 << 32; char *p = (char *) mmap(0, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	// one page seen many times stands for the destination
	FILE *f = tmpfile(); REQ(f); size_t M = 64 << 20; REQ(!ftruncate(fileno(f), M));
	char *d = (char *) mmap(0, n, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); REQ(p != MAP_FAILED && d != MAP_FAILED);
	for (size_t i = 0; i < n; i += M) REQ(mmap(d + i, M, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fileno(f), 0) == d + i);
	d[5] = 'x'; REQ(coda_cpymsz(d, p, n) == n); REQ(d[5] == 0);
}
''')
FAILING = r'''
#include <dlfcn.h>
#include <malloc.h>
static volatile long fail_in = -1; static bool none() { return fail_in >= 0 && fail_in-- == 0; }
extern "C" { void *__libc_malloc(size_t); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t);
void *malloc(size_t n) { return none() ? 0 : __libc_malloc(n); }
void *calloc(size_t n, size_t k) { return none() ? 0 : __libc_calloc(n, k); }
void *realloc(void *p, size_t n) { return none() ? 0 : __libc_realloc(p, n); } }
'''
seed("C39-lost-array", "C39", "coda/stringstorage.c",
  [("		a = (void*)realloc(a, 0x10 * bsz);\n", "		void *b = calloc(0x10, bsz);\n		if (b) memcpy(b, a, cnt * bsz);\n		free(a);\n		a = b;\n")],
  "memory that runs out when the third string of a level is added", "the strings added before are gone and their memory is used after it was freed",
FAILING + r'''
#include <coda/stringstorage.h>
extern "C" void *string_storage_find(string_storage *, const char *);
int main() {
	for (long k = 0; k < 3; ++k)
	{
		string_storage ss; string_storage_init(&ss, 8); REQ(string_storage_add(&ss, "a")); REQ(string_storage_add(&ss, "b"));
		fail_in = k; void *r = string_storage_add(&ss, "c"); bool hit = fail_in < 0; fail_in = -1;
		char *junk[50]; for (int i = 0; i < 50; ++i) junk[i] = (char *) memset(malloc(16 + i * 8), 0x33, 16 + i * 8);
		if (hit && !r) { REQ(string_storage_find(&ss, "a")); REQ(string_storage_find(&ss, "b")); REQ(!string_storage_find(&ss, "c")); REQ(string_storage_add(&ss, "c")); }
		for (int i = 0; i < 50; ++i) free(junk[i]);
	}
}
''')
seed("C39-encode-size", "C39", "coda/base58.c",
  [("    if (!*out)\n        return outlen;\n\n    if (!base58_encode", "    if (!*out)\n        return 0;\n\n    if (!base58_encode")],
  "an allocation that fails", "0 is given, which means a text of no characters, not the size that was needed",
FAILING + r'''
#include <coda/base58.h>
int main() { char *out = (char *) 1; fail_in = 0; size_t n = coda_base58_encode_alloc("hello", 5, &out); fail_in = -1; REQ(!out); REQ(n > 5); }
''')
seed("C20-foreign-exception", "C20", "coda/txml.cpp",
  [("	catch (...)\n	{\n		fclose(fp);\n		throw;\n	}\n", "	catch (coda_error &)\n	{\n		fclose(fp);\n		throw;\n	}\n")],
  "an object whose determine() throws something of its own while it is loaded from a file", "the file stays open",
r'''
#include <coda/txml.hpp>
#include <fcntl.h>
struct bad {}; struct doc : coda::txml_determination_object { void determine(coda::txml_parser *) { throw bad(); } };
int main() {
	FILE *f = fopen("d.xml", "w"); fputs("<a>1</a>", f); fclose(f);
	int before = open("/dev/null", O_RDONLY); close(before);
	doc d; bool caught = false; try { d.load_from_file("d.xml"); } catch (bad &) { caught = true; }
	int after = open("/dev/null", O_RDONLY); REQ(caught); REQ(before == after);
}
''')
seed("C32-fd-zero", "C32", "coda/system.c",
  [("	if (0 > nd || fd == nd)\n", "	if (0 >= nd || fd == nd)\n")],
  "opening a file as descriptor 0", "the file is opened as another descriptor and standard input stays what it was",
r'''
#include <coda/system.h>
int main() { FILE *f = fopen("in", "w"); fputs("text", f); fclose(f); char b[4]; REQ(coda_fdopen(0, "in", O_RDONLY) == 0); REQ(read(0, b, 4) == 4 && !memcmp(b, "text", 4)); }
''')
seed("C28-waits", "C28", "coda/system.c",
  [("	if (0 > flock(fd, LOCK_EX|LOCK_NB))\n", "	if (0 > flock(fd, LOCK_EX))\n")],
  "a process that holds the lock of the pid file while another starts", "the second process waits instead of being refused",
r'''
#include <sys/file.h>
#include <coda/system.h>
#include <coda/logger.h>
int main() { log_level = -1; int fd = open("pid", O_CREAT|O_RDWR, 0644); REQ(!flock(fd, LOCK_EX)); alarm(5); REQ(coda_mkpidf("pid") == -1); }
''')
seed("C33-umask", "C33", "coda/daemon.c",
  [("    umask(0);\n", "    umask(umask(0) & 022);\n")],
  "a daemon that is started under a mask other than 0", "the files it creates lack the permissions it asks for",
r'''
#include <sys/wait.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <coda/daemon.h>
int main() {
	int p[2]; pipe(p); pid_t c = fork();
	if (!c) { umask(022); if (coda_daemon_fork()) _exit(1); mode_t m = umask(0); write(p[1], &m, sizeof m); _exit(0); }
	close(p[1]); mode_t m = 1; read(p[0], &m, sizeof m); waitpid(c, 0, 0); REQ(m == 0);
}
''')
seed("C10-signed", "C10", "coda/cache.tcc",
  [("	while (size_cur > size_max)\n", "	while ((ssize_t) size_cur > (ssize_t) size_max)\n")],
  "a cache without a limit, made with the largest size", "it drops everything and then reads past its end, or keeps nothing",
r'''
#include <coda/coda.h>
#include <coda/cache.hpp>
int main() { coda_cache<int, int> c(SIZE_MAX, 0); for (int i = 0; i < 4; ++i) c.set(i, i * 2, false); for (int i = 0; i < 4; ++i) REQ(c.get(i) && *c.get(i) == i * 2); }
''', extra="#include <string>\n#include <coda/estimate_capacity.hpp>\n")
seed("C34-index", "C34", "coda/string.cpp",
  [("		unsigned idx = coda_random() % alphabet_size;\n", "		unsigned short idx = coda_random() % alphabet_size;\n")],
  "an alphabet of more than 65536 characters", "the later ones never occur",
r'''
#include <coda/string.hpp>
int main() { std::string a = std::string(65536, 'a') + std::string(1000000, 'b'); REQ(coda_random_string(1000, a.data(), a.size()).find('b') != std::string::npos); }
''')
seed("C30-backlog", "C30", "coda/socket.h",
  [("	if (0 > (rc = listen(sd, backlog)))\n", "	if (0 > (rc = listen(sd, nonblock ? backlog : 1)))\n")],
  "several clients that connect to a blocking server before it accepts", "the later ones are not let in",
r'''
#include <fcntl.h>
#include <poll.h>
#include <coda/socket.h>
int main() {
	int l = coda_listen("127.0.0.1", "0", 8, 0); REQ(l >= 0); struct sockaddr_in a; socklen_t n = sizeof a; REQ(!getsockname(l, (struct sockaddr *) &a, &n));
	char port[20]; sprintf(port, "%d", ntohs(a.sin_port)); for (int i = 0; i < 8; ++i) { int fd = coda_connect("127.0.0.1", port, 1); REQ(fd >= 0); struct pollfd p = { fd, POLLOUT, 0 }; REQ(poll(&p, 1, 3000) == 1); }
}
''')
seed("C30-port", "C30", "coda/socket.h",
  [("""	if (0 > (rc = connect(""", """	addr.sin_port = htons(strtoul(port, NULL, 0));

	if (0 > (rc = connect(""")],
  "a port spelled with a leading zero", "another port is connected to",
r'''
#include <coda/socket.h>
int main() {
	int l = coda_listen("127.0.0.1", "0", 8, 0); REQ(l >= 0); struct sockaddr_in a; socklen_t n = sizeof a; REQ(!getsockname(l, (struct sockaddr *) &a, &n));
	char port[20]; sprintf(port, "%06d", ntohs(a.sin_port)); REQ(coda_connect("127.0.0.1", port, 0) >= 0);
}
''')
seed("C26-silence", "C26", "coda/logger.c",
  [("	log_level = level;\n", "	if (level >= LOG_access) log_level = level;\n")],
  "a threshold below every level", "messages are still written",
r'''
#include <sys/stat.h>
#include <coda/logger.h>
#include <coda/error.h>
int main() { REQ(log_create("log", -1) == 2); log_access("a"); log_info("b"); struct stat s; REQ(!stat("log", &s) && s.st_size == 0); }
''')
seed("C01-long-text", "C01", "coda/base58.c",
  [("        int i;\n        for (i = b256len - 1; i >= 0; i--)\n        {\n            carry += 58 *", "        short i;\n        for (i = b256len - 1; i >= 0; i--)\n        {\n            carry += 58 *")],
  "a text of more than 45000 characters", "it is refused although it is valid, or decoded to other bytes",
r'''
#include <coda/base58.h>
int main() { std::string t = "2" + std::string(45000, '1'); char *out = 0; ssize_t n = coda_base58_decode_alloc(t.data(), t.size(), &out); REQ(n > 32768); REQ(out[0] || out[1]); }
''')
PARTS = [("""	lock_write_rw();

	if (is_connected())
	{
		unlock_write_rw();
		throw""", """	if (is_connected())
	{
		throw"""), ("""		unlock_write_rw();
		throw coda_error("error creating key from file %s: %s", key_fname, coda_strerror(errno));""", """		throw coda_error("error creating key from file %s: %s", key_fname, coda_strerror(errno));"""),
 ("""			unlock_write_rw();
			throw coda_error("error creating queue shm: %s", coda_strerror(errno));""", """			throw coda_error("error creating queue shm: %s", coda_strerror(errno));"""),
 ("""		unlock_write_rw();
		throw coda_error("error attaching queue shmem: %s", coda_strerror(errno));""", """		throw coda_error("error attaching queue shmem: %s", coda_strerror(errno));"""),
 ("""	shmem_p = ptr;

	unlock_write_rw();
""", """	shmem_p = ptr;
""")]
seed("C40-create-unlocked", "C40", "coda/shm_hash_map.tcc", PARTS,
  "a second process that connects and stores something while the first is between creating the memory and clearing its header",
  "what the second stored is forgotten and its entries are given out again",
SHM + r'''
static void *slow_shmat(int id, const void *p, int f);
#include <coda/coda.h>
#define shmat slow_shmat
#include <coda/shm_hash_map.hpp>
#undef shmat
static bool slow;
static void *slow_shmat(int id, const void *p, int f) { void *r = shmat(id, p, f); if (slow) usleep(700000); return r; }
typedef shm::hash_map<int, 100, 7> map;
int main() {
	std::string k = keyfile(); alarm(60);
	pid_t c = fork();
	if (!c) { usleep(300000); map w; w.connect(k.c_str()); for (int i = 0; i < 5; ++i) w.insert(i, i); _exit(0); }
	map m; slow = true; m.connect(k.c_str()); clean.sem = m.semid(); clean.shm = m.shmid(); waitpid(c, 0, 0);
	REQ(m.size() == 5); for (int i = 10; i < 15; ++i) m.insert(i, i); int v; for (int i = 0; i < 5; ++i) REQ(m.read(i, v) && v == i);
}
''')
seed("C40-attach-unlocked", "C40", "coda/shm_hash_map.tcc",
  [("		attach(shmem_p);\n		unlock_write_rw();\n", "		unlock_write_rw();\n		attach(shmem_p);\n")],
  "two processes that connect to a new map at the same time", "the second clears the hash after the first has stored something, which is lost",
SHM + r'''
#include <coda/shm_hash_map.hpp>
#include <sched.h>
enum { H = 30000000 };
typedef shm::hash_map<int, 100, H> map;
int main() {
	for (int t = 0; t < 3; ++t)
	{
		std::string k = keyfile(); alarm(100); int p[2], q[2]; REQ(!pipe(p) && !pipe(q)); char b = 'x';
		pid_t c[3]; bool ok = true;
		{
			map first; // creates nothing yet
			for (int i = 0; i < 3; ++i) if (!(c[i] = fork()))
			{
				map w; usleep(i * 30000); w.connect(k.c_str()); bool r = w.insert(H - 1 - i, i); usleep(600000); int v = -1; r = r && w.read(H - 1 - i, v) && v == i; clean.sem = clean.shm = -1; _exit(!r);
			}
			for (int i = 0; i < 3; ++i) { int st; waitpid(c[i], &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) ok = false; }
			first.connect(k.c_str()); clean.sem = first.semid(); clean.shm = first.shmid();
			REQ(first.size() == 3); int v; for (int i = 0; i < 3; ++i) REQ(first.read(H - 1 - i, v) && v == i);
		}
		clean.rm(); REQ(ok);
	}
}
''')
