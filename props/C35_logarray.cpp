// @pbt quick=150000 thorough=6000000 fuzz=8 tfuzz=120 maxlen=600
#include "pbt.h"
#include <new>
#include <coda/log_array.hpp>
#include <coda/estimate_capacity.hpp>

const char *prop_id = "C35";
const char *prop_rule = "log arrays of 14 element types and 1, 3, 8, 20 and 64 slots built on dirty memory, 1-60 writes and reads by value (around powers of two, beyond the last slot, full width) and by slot, copies and swaps (with another array and with itself); size estimates of every supported number type, strings and vectors of generated size and reserved capacity, pointers, objects. Oracle: vector of slots; sizeof and capacity arithmetic. Non-trivial: a value beyond the last slot and a swap, or a container whose capacity exceeds its size.";

template <class A> struct G_ { A *p; G_(A *a) : p(a) {} ~G_() { p->~A(); } };
template <class T> static T val(Src &s) { return (T) (1 + s.below(100)); }
template <> std::string val<std::string>(Src &s) { return s.bytes(s.below(40)); }
template <class T, unsigned N> static void arr(Src &s, Ctx &c)
{
	typedef coda::log_array<T, N> A;
	Exact m1(sizeof(A), 0xA5), m2(sizeof(A), 0x3C);
	A &a = *new (m1.data()) A, &b = *new (m2.data()) A;
	struct Cell { T x; Cell() : x() {} }; std::vector<Cell> va(N), vb(N); G_<A> ga(&a), gb(&b);
	bool beyond = false, swapped = false;
	int steps = 0;
	auto same = [&](const char *when) {
		for (unsigned i = 0; i < N; ++i)
		{
			CHECK(a.get_at(i) == va[i].x && b.get_at(i) == vb[i].x, "%s: slot %u of %u holds another value than expected", when, i, N);
			CHECK(((const A &) a).get_at(i) == va[i].x, "%s: const access to slot %u differs", when, i);
		}
	};
	same("new array");
	while ((steps < 2 || s.more(8)) && steps < 60)
	{
		++steps;
		switch (s.weighted({ 6, 2, 2, 1 }))
		{
			case 0:
			{
				uint64_t v = s.big(); if (!v) v = 1;
				unsigned j = 63 - __builtin_clzll(v); if (j >= N) { j = N - 1; beyond = true; }
				bool second = s.below(2); T x = val<T>(s);
				c.say("by_value(%llu) = slot %u", (unsigned long long) v, j);
				T &r = (second ? b : a).get_by_value((size_t) v);
				CHECK(&r == &(second ? b : a).get_at(j), "value %llu selects another slot than %u of %u", (unsigned long long) v, j, N);
				r = x; (second ? vb : va)[j].x = x;
				break;
			}
			case 1: { unsigned j = s.below(N); T x = val<T>(s); c.say("slot %u", j); a.get_at(j) = x; va[j].x = x; break; }
			case 2: c.say("swap"); a.swap(b); va.swap(vb); swapped = true; break;
			default: c.say("swap with itself"); a.swap(a); break;
		}
		same("after a step");
	}
	c.nontrivial(beyond && swapped);
}

struct Obj { size_t n; size_t estimate_capacity() const { return n; } };
template <class T> static void number(Src &s, const char *name) { T v = (T) s.big(); size_t r = estimate_capacity(v); CHECK(r == sizeof(T), "estimate of a number of type %s is %zu, its size is %zu", name, r, sizeof(T)); const T w = v; CHECK(estimate_capacity(w) == sizeof(T), "estimate of a const %s", name); CHECK(estimate_capacity(&v) == sizeof(&v), "estimate of a pointer to %s is %zu", name, estimate_capacity(&v)); }
template <class T> static void vec(Src &s, Ctx &c)
{
	std::vector<T> v; if (s.below(2)) v.reserve(s.len(5000));
	v.resize(s.len(3000)); if (s.below(3) == 0 && v.size()) v.resize(v.size() / 2);
	c.say("vector of %zu, capacity %zu, elements of %zu", v.size(), v.capacity(), sizeof(T));
	c.nontrivial(v.capacity() > v.size());
	CHECK(estimate_capacity(v) == sizeof(v) + v.capacity() * sizeof(T), "estimate of a vector with capacity %zu is %zu", v.capacity(), estimate_capacity(v));
}
template <class C> static void str(Src &s, Ctx &c)
{
	std::basic_string<C> v; if (s.below(2)) v.reserve(s.len(5000));
	v.resize(s.len(3000)); if (s.below(3) == 0) v.resize(v.size() / 2);
	c.say("string of %zu, capacity %zu, elements of %zu", v.size(), v.capacity(), sizeof(C));
	c.nontrivial(v.capacity() > v.size());
	CHECK(estimate_capacity(v) == sizeof(v) + v.capacity() * sizeof(C), "estimate of a string with capacity %zu is %zu", v.capacity(), estimate_capacity(v));
}

void prop_init() {}
void run_case(Src &s, Ctx &c)
{
	switch (s.below(22))
	{
		case 16: arr<unsigned short, 5>(s, c); break;
		case 17: arr<unsigned, 8>(s, c); break;
		case 18: arr<long, 12>(s, c); break;
		case 19: arr<std::string, 6>(s, c); break;
		case 20: arr<signed char, 8>(s, c); break;
		case 21: arr<bool, 4>(s, c); break;
		case 0: arr<int, 8>(s, c); break;
		case 1: arr<unsigned char, 3>(s, c); break;
		case 2: arr<double, 20>(s, c); break;
		case 3: arr<uint64_t, 64>(s, c); break;
		case 4: arr<short, 1>(s, c); break;
		case 5: arr<long long, 8>(s, c); break;
		case 6: arr<float, 20>(s, c); break;
		case 7: arr<char, 8>(s, c); break;
		case 8: case 9: case 10:
			number<char>(s, "char"); number<unsigned char>(s, "unsigned char"); number<short>(s, "short"); number<unsigned short>(s, "unsigned short");
			number<int>(s, "int"); number<unsigned>(s, "unsigned"); number<long>(s, "long"); number<unsigned long>(s, "unsigned long");
			number<long long>(s, "long long"); number<unsigned long long>(s, "unsigned long long"); number<float>(s, "float"); number<double>(s, "double"); number<long double>(s, "long double");
			{ Obj o; o.n = s.big(); CHECK(estimate_capacity(o) == o.n, "estimate of an object reporting %zu is %zu", o.n, estimate_capacity(o)); CHECK(estimate_capacity(&o) == sizeof(void *), "estimate of a pointer to an object"); }
			{ const char *p = "text"; std::vector<int> v; CHECK(estimate_capacity(p) == sizeof p && estimate_capacity(&v) == sizeof p, "estimate of a pointer"); }
			break;
		case 11: vec<char>(s, c); break;
		case 12: vec<uint64_t>(s, c); break;
		case 13: vec<std::string>(s, c); break;
		case 14: str<char>(s, c); break;
		default: str<wchar_t>(s, c); break;
	}
}
