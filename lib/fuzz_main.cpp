// libFuzzer entry: same run_case as the random driver.
#include "pbt.h"
#include <unistd.h>
#include <unordered_set>

static std::unordered_set<uint64_t> *g_seen;
static uint64_t g_runs;

static void dump()
{
	const char *f = getenv("PBT_FUZZ_STATS");
	if (!f) return;
	FILE *o = fopen((std::string(f) + "." + std::to_string(getpid())).c_str(), "w");
	if (!o) return;
	fprintf(o, "%llu\n", (unsigned long long) g_runs);
	for (uint64_t h : *g_seen) fprintf(o, "%llx\n", (unsigned long long) h);
	fclose(o);
}

extern "C" int LLVMFuzzerInitialize(int *, char ***)
{
	g_seen = new std::unordered_set<uint64_t>;
	pbt::guided = true;
	prop_init();
	atexit(dump);
	return 0;
}

extern "C" int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n)
{
	Src s(d, n);
	Ctx c;
	++g_runs;
	try { run_case(s, c); }
	catch (const pbt::Discard &) {}
	catch (const pbt::Failure &f)
	{
		fprintf(stderr, "PROPERTY %s: %s\n", prop_id, f.msg.c_str());
		dump();
		abort();
	}
	if (c.nontriv && g_seen->size() < 400000) g_seen->insert(s.hash());
	return 0;
}
