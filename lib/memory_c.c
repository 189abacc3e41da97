/* the memory helpers as C sees them (C38) */
#include <coda/coda.h>
#include <coda/string.h>

char *c_chain(char *p, const char **v, const size_t *n, int k)
{
	int i; for (i = 0; i < k; ++i) p = coda_cpymem(p, v[i], n[i]);
	return p;
}
void c_clear(void *p, int how, size_t n)
{
	struct three { char c[3]; } *t = p; struct three *e = t;
	switch (how)
	{
		case 0: coda_clrmem(p, n); break;
		case 1: coda_clrmem((long *) p, n | 0); break;
		case 2: coda_clrvec((char *) p, n); break;
		default: coda_clrvec(t, n / 3); e += n / 3; coda_clrmem(e, n % 3); break;
	}
}
size_t c_copy(char *d, const char *s, size_t n, int how)
{
	size_t r = 0;
	switch (how)
	{
		case 0: return coda_cpymsz(d, s, n);
		case 1: return coda_cpymem(d, s, n) - d;
		case 2: r = n ? 1 : 0; return r + coda_cpymsz(d + 0, s + 0, r) * 0 + (coda_cpymem(d + r, s + r, n - r) - (d + r));
		default: coda_memcpy(d, s, n); return n;
	}
}
