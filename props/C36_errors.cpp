// @pbt quick=12000 thorough=400000 fuzz=6 tfuzz=120 maxlen=200 libs=-lpthread with=xsi_error.c
#include "pbt.h"
#include <errno.h>
#include <pthread.h>
#include <exception>
#include <memory>
#include <new>
#include <typeinfo>
#include <coda/error.hpp>

const char *prop_id = "C36";
const char *prop_rule = "histories of 1-12 steps over up to six error objects, each placed in memory whose every neighbour is watched: made from formats of one to four conversions with generated arguments (outputs of 0 to 100000 bytes, concentrated on 4090-4100, zero bytes among them) with or without an error number (known ones, unknown ones, negative and extreme ones); copied, assigned, destroyed; thrown and caught as coda_error, as std::exception, by value, rethrown, passed to another thread; the arguments changed after each. Known numbers also by a program that asks for POSIX only. Texts of up to four numbers used in one call, 1-6000 uses in one function, 2-4 threads at once. Oracle: vsnprintf and strerror_r with buffers of the size needed. Non-trivial: a message of 4000 bytes or more, a throw or thread, or at least a thousand uses.";

void prop_init() {}

static std::string num_text(int e) { char b[512]; return std::string(strerror_r(e, b, sizeof b)); }
extern "C" const char *xsi_strerror(int);
static int number(Src &s)
{
	switch (s.weighted({ 5, 3, 1, 1 }))
	{
		case 0: return (int) s.below(134);
		case 1: return (int) s.range(134, 100000);
		case 2: return -(int) s.below(1000);
		default: return s.oneof<int>({ INT32_MAX, INT32_MIN, -1, 0, 4096 });
	}
}
struct Args { std::string a, b; int i, e, form; unsigned long long u; char ch; };

static Args args(Src &s)
{
	Args x; size_t n;
	x.form = s.below(10);
	switch (s.weighted({ 5, 4, 1, 1 })) { case 0: n = s.len(100); break; case 1: n = 4080 + s.below(24); break; case 2: n = s.below(5000); break; default: n = s.below(100000); break; }
	x.a = std::string(n, 'a' + s.below(26)); if (n > 3) { x.a[0] = 'A'; x.a[n / 2] = 'M'; x.a[n - 1] = 'Z'; }
	if (s.chance(20)) x.a = "%s%n%d" + x.a;
	x.b = std::string(s.len(30), 'b'); x.i = (int) s.big() * (s.below(2) ? -1 : 1); x.u = s.big(); x.ch = s.chance(30) ? '\0' : (char) ('!' + s.below(90)); x.e = number(s);
	return x;
}
#define FORMS(x, FN, FE) switch ((x).form) { \
	case 0: FN("%s", (x).a.c_str()); break; \
	case 1: FN("fixed text, 100%%"); break; \
	case 2: FN("%s: %d", (x).a.c_str(), (x).i); break; \
	case 3: FN("%d|%llu|%c%s|%x", (x).i, (x).u, (x).ch, (x).a.c_str(), (unsigned) (x).i); break; \
	case 4: FN("%*d%-5s", (int) (x).a.size(), (x).i, (x).b.c_str()); break; \
	case 5: FE((x).e, "%s", (x).a.c_str()); break; \
	case 6: FE((x).e, "fixed text, 100%%"); break; \
	case 7: FE((x).e, "%s: %d", (x).a.c_str(), (x).i); break; \
	case 8: FE((x).e, "%*d%s", (int) (x).a.size(), (x).i, (x).b.c_str()); break; \
	default: FE((x).e, ""); break; }

// the complete message; what() is it up to 4095 bytes, or up to a zero byte
static std::string message(const Args &x)
{
	std::string r;
#define M0(...) do { int n = snprintf(0, 0, __VA_ARGS__); std::vector<char> v(n + 1); snprintf(v.data(), n + 1, __VA_ARGS__); r.assign(v.data(), n); } while (0)
#define M1(e, ...) do { M0(__VA_ARGS__); r += " (" + std::to_string(e) + ": " + num_text(e) + ")"; } while (0)
	FORMS(x, M0, M1)
	if (r.size() > 4095) r.resize(4095);
	return r.c_str();
}
static coda_error *make(void *p, const Args &x)
{
	coda_error *r = 0;
#define N0(...) r = new (p) coda_error(__VA_ARGS__)
#define N1(e, ...) r = new (p) coda_errno(e, __VA_ARGS__)
	FORMS(x, N0, N1)
	return r;
}
[[noreturn]] static void raise_it(const Args &x)
{
#define T0(...) throw coda_error(__VA_ARGS__)
#define T1(e, ...) throw coda_errno(e, __VA_ARGS__)
	FORMS(x, T0, T1)
	abort();
}
static void scribble(Args &x) { for (char &c : x.a) c = '#'; for (char &c : x.b) c = '#'; x.i = 77; x.e = 5; x.u = 1; }
static void same(const char *got, const std::string &want, const char *how)
{
	size_t n = strnlen(got, 4096);
	CHECK(n == want.size() && !memcmp(got, want.data(), n), "%s: what() is %zu bytes %s...%s, expected %zu bytes %s...%s", how, n, show(got, std::min<size_t>(n, 60)).c_str(),
		show(got + (n > 60 ? n - 60 : 0), std::min<size_t>(n, 60)).c_str(), want.size(), show(want.substr(0, 60)).c_str(), show(want.size() > 60 ? want.substr(want.size() - 60) : want).c_str());
}
struct Held
{
	pbt::Exact mem; coda_error *e; std::string want;
	Held() : mem(std::string(sizeof(coda_error), (char) 0xa5)), e(0) {}
	~Held() { if (e) e->~coda_error(); }
};
struct Job { std::vector<int> nums; unsigned uses; std::exception_ptr ep; std::string want, bad; int kind; };
static void check_uses(const std::vector<int> &nums, unsigned uses, std::string &bad)
{
	std::vector<std::string> t; for (int e : nums) t.push_back(num_text(e));
	unsigned k = nums.size();
	char b[1200], w[1200];
	for (unsigned i = 0; i < k; ++i) if (nums[i] >= 0 && strerrordesc_np(nums[i]))
	{
		const char *x = xsi_strerror(nums[i]);
		if (t[i] != x) { bad = fmt("for a POSIX program the text of %d is %s, expected %s", nums[i], show(x, strlen(x)).c_str(), show(t[i]).c_str()); return; }
	}
	for (unsigned i = 0; i < uses && bad.empty(); ++i)
	{
		int a0 = nums[i % k], a1 = nums[(i + 1) % k], a2 = nums[(i + 2) % k], a3 = nums[(i + 3) % k];
		snprintf(w, sizeof w, "%s|%s|%s|%s", t[i % k].c_str(), t[(i + 1) % k].c_str(), t[(i + 2) % k].c_str(), t[(i + 3) % k].c_str());
		snprintf(b, sizeof b, "%s|%s|%s|%s", coda_strerror(a0), coda_strerror(a1), coda_strerror(a2), coda_strerror(a3));
		if (strcmp(b, w)) { bad = fmt("use %u: the texts of %d, %d, %d, %d are %s, expected %s", i, a0, a1, a2, a3, show(b, strlen(b)).c_str(), show(w, strlen(w)).c_str()); break; }
		if (i % 8 == 0)
		{
			const char *held = coda_strerror(a0);
			try { throw coda_errno(a1, "%u", i); }
			catch (const std::exception &x)
			{
				std::string want = fmt("%u (%d: %s)", i, a1, t[(i + 1) % k].c_str());
				if (want != x.what()) bad = fmt("use %u: what() is %s, expected %s", i, show(x.what(), strlen(x.what())).c_str(), show(want).c_str());
			}
			if (t[i % k] != held) bad = fmt("use %u: the text of %d became %s while another was made", i, a0, show(held, strlen(held)).c_str());
		}
	}
}
static void *job(void *p)
{
	Job &j = *(Job *) p;
	if (j.kind) check_uses(j.nums, j.uses, j.bad);
	else
	{
		try { std::rethrow_exception(j.ep); }
		catch (const coda_error &e) { if (j.want != e.what()) j.bad = "the message of an error caught in another thread differs"; }
		catch (...) { j.bad = "an error caught in another thread has another type"; }
		j.ep = std::exception_ptr();
	}
	return 0;
}

void run_case(Src &s, Ctx &c)
{
	std::vector<std::unique_ptr<Held>> v;
	unsigned steps = 1 + s.below(12);
	auto all = [&](const char *after) { for (auto &h : v) same(h->e->what(), h->want, after); };
	while (steps--)
	{
		int op = s.weighted({ 6, 2, 2, 1, 5, 1, 1 });
		if ((op == 1 || op == 2 || op == 3) && v.empty()) op = 0;
		if (op == 0)
		{
			Args x = args(s); std::string w = message(x);
			if (v.size() >= 6) v.erase(v.begin());
			std::unique_ptr<Held> h(new Held); h->want = w; h->e = make((void *) h->mem.data(), x);
			c.say("new error, form %d, message of %zu bytes%s", x.form, w.size(), x.form > 4 ? fmt(", number %d", x.e).c_str() : "");
			c.label(x.form > 4 ? "with an error number" : "without an error number"); if (w.size() == 4095) c.label("message cut at 4095"); c.nontrivial(w.size() >= 4000);
			scribble(x); v.push_back(std::move(h)); all("after making one");
		}
		else if (op == 1)
		{
			Held &from = *v[s.below(v.size())];
			std::unique_ptr<Held> h(new Held); h->want = from.want; h->e = new ((void *) h->mem.data()) coda_error(*from.e);
			c.say("copy"); if (v.size() >= 6) v.erase(v.begin()); v.push_back(std::move(h)); all("after a copy");
		}
		else if (op == 2)
		{
			Held &to = *v[s.below(v.size())], &from = *v[s.below(v.size())];
			c.say("assign"); *to.e = *from.e; to.want = from.want; all("after an assignment");
		}
		else if (op == 3) { c.say("destroy"); v.erase(v.begin() + s.below(v.size())); all("after destroying one"); }
		else if (op == 4)
		{
			Args x = args(s); std::string w = message(x); int how = s.below(5);
			static const char *hn[] = { "caught as coda_error", "caught as std::exception", "caught by value", "caught, rethrown and caught", "caught in another thread" };
			c.say("throw, form %d, message of %zu bytes, %s", x.form, w.size(), hn[how]); c.label(hn[how]); c.nontrivial();
			bool caught = false;
			try
			{
				switch (how)
				{
					case 0: try { raise_it(x); } catch (const coda_error &e) { scribble(x); caught = true; same(e.what(), w, hn[how]); } break;
					case 1: try { raise_it(x); } catch (const std::exception &e) { scribble(x); caught = true; same(e.what(), w, hn[how]); CHECK(typeid(e) == typeid(coda_error), "the type is lost"); } break;
					case 2: try { raise_it(x); } catch (coda_error e) { scribble(x); caught = true; same(e.what(), w, hn[how]); } break;
					case 3: try { try { raise_it(x); } catch (const std::exception &e) { scribble(x); same(e.what(), w, hn[how]); throw; } } catch (const coda_error &e) { caught = true; same(e.what(), w, hn[how]); } break;
					default:
					{
						Job j; j.kind = 0; j.want = w;
						try { raise_it(x); } catch (...) { j.ep = std::current_exception(); }
						scribble(x); pthread_t t;
						if (pthread_create(&t, 0, job, &j)) throw pbt::Discard();
						pthread_join(t, 0); caught = true; CHECK(j.bad.empty(), "%s", j.bad.c_str());
					}
				}
			}
			catch (const coda_error &) { fail("an error passed its handler (%s)", hn[how]); }
			CHECK(caught, "not %s", hn[how]); all(hn[how]);
		}
		else
		{
			unsigned nt = op == 6 ? 2 + s.below(3) : 0, k = 1 + s.below(6), uses = s.weighted({ 4, 1 }) ? 1000 + s.below(5000) : 1 + s.below(60);
			if (pbt::guided && uses > 1000) uses = 1000;
			std::vector<Job> js(nt ? nt : 1);
			for (auto &j : js) { j.kind = 1; j.uses = nt ? uses / 4 + 1 : uses; for (unsigned i = 0; i < k; ++i) j.nums.push_back(number(s)); }
			c.say("%u uses of the texts of %u numbers%s", js[0].uses, k, nt ? fmt(" in each of %u threads", nt).c_str() : ""); c.label(nt ? "several threads" : uses >= 1000 ? "a thousand uses and more in one function" : "several uses in one function"); c.nontrivial(nt || uses >= 1000);
			if (nt)
			{
				std::vector<pthread_t> t(nt); unsigned i = 0;
				for (; i < nt; ++i) if (pthread_create(&t[i], 0, job, &js[i])) break;
				for (unsigned q = 0; q < i; ++q) pthread_join(t[q], 0);
			}
			else check_uses(js[0].nums, js[0].uses, js[0].bad);
			for (auto &j : js) CHECK(j.bad.empty(), "%s", j.bad.c_str());
			all("after uses of the texts");
		}
	}
}
