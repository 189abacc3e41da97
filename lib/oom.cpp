#include "oom.h"
#include "fiber.h"
#include <expat.h>
#include <stdlib.h>
#include <string.h>
namespace oom { long seen; bool hit; static bool on, sticky; static long at; static thread_local int deep; }
using namespace oom;
oom::Arm::Arm(long nth, bool all_later) { seen = 0; hit = false; at = nth; sticky = all_later; on = true; }
oom::Arm::~Arm() { on = false; }
oom::Rest::Rest() : was(on) { on = false; }
oom::Rest::~Rest() { on = was; }
bool oom::point()
{
	if (!on || fib::hushed) return false;
	long k = seen++;
	if (at < 0 || (sticky ? k < at : k != at)) return false;
	return hit = true;
}
extern "C" {
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); char *__real_strdup(const char *);
void *__wrap_malloc(size_t n) { return point() ? 0 : __real_malloc(n); }
void *__wrap_calloc(size_t n, size_t k) { return point() ? 0 : __real_calloc(n, k); }
void *__wrap_realloc(void *p, size_t n) { return point() ? 0 : __real_realloc(p, n); }
char *__wrap_strdup(const char *s) { return point() ? 0 : __real_strdup(s); }
XML_Parser __wrap_XML_ParserCreate(const XML_Char *enc)
{
	static const XML_Memory_Handling_Suite m = { __wrap_malloc, __wrap_realloc, free };
	return XML_ParserCreate_MM(enc, &m, NULL);
}
}
void *operator new(size_t n) { void *p = point() ? 0 : __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return point() ? 0 : __real_malloc(n ? n : 1); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return point() ? 0 : __real_malloc(n ? n : 1); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
