#pragma once
#include <stdint.h>
#include <sys/types.h>
#include <memory>
#include "pbt.h"
#include "simipc.h"
#include "fiber.h"
#include <coda/coda.h>
#include <coda/shm_hash_map.hpp>
#include <coda/shm_queue.hpp>

// a value whose every word tells which write it came from
template <int W> struct Words
{
	uint64_t w[W];
	static Words of(uint64_t t) { Words r; for (int i = 0; i < W; ++i) r.w[i] = t * 1000003 + i; return r; }
	// the tag, or -1 if torn
	int64_t tag() const { uint64_t t = w[0] / 1000003; for (int i = 0; i < W; ++i) if (w[i] != t * 1000003 + i) return -1; return t; }
};
template <int N> struct Bytes_
{
	char b[N];
	static Bytes_ of(uint64_t t) { Bytes_ r; for (int i = 0; i < N; ++i) r.b[i] = (char) (t * 7 + i); return r; }
	bool operator==(const Bytes_ &o) const { return !memcmp(b, o.b, N); }
};
