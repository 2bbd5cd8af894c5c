/*
 * Allocations of the code under test: they are counted, and one of them (or
 * all from there on) can be made to fail.  Link with -Wl,--wrap=malloc etc.
 */
#ifndef ALLOC_H
#define ALLOC_H
#include <stdlib.h>
#include <string.h>

void *__real_malloc(size_t n);
void *__real_calloc(size_t n, size_t m);
void *__real_realloc(void *p, size_t n);
void __real_free(void *p);
char *__real_strdup(const char *s);

static int in_lib;		/* inside of a call to the code under test */
static long fail_at;		/* > 0: the allocation that fails */
static int fail_on;		/* all later ones fail as well */
static int failed;		/* how many did fail */
static long live;		/* blocks not freed yet */
static long allocs;		/* allocations during this operation */

/* pointers handed out; freeing others is not counted */
static void **blocks;
static size_t nblocks, ablocks;

static void *track(void *p)
{
	size_t i;

	if (!p)
		return p;
	if (nblocks * 2 >= ablocks) {
		size_t n = ablocks ? ablocks * 2 : 1024;
		void **b = __real_calloc(n, sizeof(*b));

		for (i = 0; i < ablocks; ++i)
			if (blocks[i]) {
				size_t j = ((size_t)blocks[i] >> 4) * 2654435761u % n;

				while (b[j])
					j = (j + 1) % n;
				b[j] = blocks[i];
			}
		__real_free(blocks);
		blocks = b;
		ablocks = n;
	}
	for (i = ((size_t)p >> 4) * 2654435761u % ablocks; blocks[i];
	     i = (i + 1) % ablocks)
		;
	blocks[i] = p;
	nblocks++;
	live++;
	return p;
}

static void untrack(void *p)
{
	size_t i, j, k;

	if (!p || !ablocks)
		return;
	for (i = ((size_t)p >> 4) * 2654435761u % ablocks; blocks[i] != p;
	     i = (i + 1) % ablocks)
		if (!blocks[i])
			return;
	blocks[i] = NULL;
	nblocks--;
	live--;
	/* close the gap */
	for (j = (i + 1) % ablocks; blocks[j]; j = (j + 1) % ablocks) {
		void *q = blocks[j];

		blocks[j] = NULL;
		for (k = ((size_t)q >> 4) * 2654435761u % ablocks; blocks[k];
		     k = (k + 1) % ablocks)
			;
		blocks[k] = q;
	}
}

static int fails(size_t n)
{
	if (!in_lib)
		return 0;
	allocs++;
	if (n > (1ul << 31))
		return 1;
	if (fail_at > 0 && --fail_at == 0) {
		failed++;
		if (fail_on)
			fail_at = 1;
		return 1;
	}
	return 0;
}

void *__wrap_malloc(size_t n)
{
	if (fails(n))
		return NULL;
	return in_lib ? track(__real_malloc(n)) : __real_malloc(n);
}

void *__wrap_calloc(size_t n, size_t m)
{
	if (fails(n * m))
		return NULL;
	return in_lib ? track(__real_calloc(n, m)) : __real_calloc(n, m);
}

void *__wrap_realloc(void *p, size_t n)
{
	void *q;

	if (fails(n))
		return NULL;
	if (in_lib)
		untrack(p);
	q = __real_realloc(p, n);
	return in_lib ? track(q) : q;
}

char *__wrap_strdup(const char *s)
{
	size_t n = strlen(s) + 1;
	char *r = __wrap_malloc(n);

	return r ? memcpy(r, s, n) : NULL;
}

void __wrap_free(void *p)
{
	untrack(p);
	__real_free(p);
}

#define LIB(_x) ({ typeof(_x) __r; in_lib++; __r = (_x); in_lib--; __r; })
#define LIBV(_x) do { in_lib++; _x; in_lib--; } while (0)
#endif
