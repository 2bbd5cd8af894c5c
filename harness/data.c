/*
 * Drives the ring buffer, the hash table and the symbol table and records
 * what can be observed.  Scripts and traces are like those of term.c; the
 * operations:
 *
 *  ring:   push V N, hugepush K, pull N, copy N, flush, clear
 *  htable: elem I PTR KEY HASH (define), ins I, rem KEY HASH, find KEY HASH,
 *          visit, hclear
 *  symbol: snew, sfree, app SYM CH, get SYM, width SYM, make CH
 *          enc CH, encall CH...
 *  kind K: elements of the hash table are 1: numbers, 2: strings
 *  array:  anew ELEMENTSIZE SIZE, afree, apush V, apushnull, apop,
 *          aresize N, ahuge K
 *  fail K [1]: the K-th allocation of the next operation fails (1: and all
 *          after it)
 */
#include <errno.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <sys/uio.h>
#include "libtsm.h"
#include "libtsm-int.h"
#include "shl-array.h"
#include "shl-htable.h"
#include "shl-ring.h"
#include "alloc.h"

#define MOD 251
#define NELEM 4096

static struct shl_ring ring;
static struct shl_htable tab;
static struct tsm_symbol_table *syms;

struct elem {
	uintptr_t ptr;
	long key;
	size_t hash;
};
static struct elem elems[NELEM];
static int nelems;

struct query {
	long key;
};

static int find_elem(const void *p)
{
	int i;

	for (i = 0; i < nelems; ++i)
		if (elems[i].ptr == (uintptr_t)p)
			return i;
	return -1;
}

static int wild;
static long results[4096];
static int nresults;

/* tables of numbers and strings */
static int kind;
static unsigned long numbers[NELEM];
static char *strings[NELEM];

static const char *string(long k)
{
	static char b[64];
	unsigned long v = k;
	char *p = b;

	if (k % 3 == 0) {
		/* all of these have the same hash if they are as long */
		for (v = k / 3; v; v >>= 1) {
			memcpy(p, v & 1 ? "bC" : "ad", 2);
			p += 2;
		}
		*p = 0;
	} else {
		sprintf(b, "%s%lx", k % 3 == 1 ? "\xff\xc3\xa4" : "", v);
	}
	return b;
}

/* the hash of a string is kept by its owner, or not */
static size_t *known(size_t *h, long k)
{
	*h = 0;
	if (k % 2)
		return NULL;
	if (k % 4)
		return h;
	shl_htable_hash_str(&tab, string(k), h);
	return h;
}

static struct shl_array *arr;

static void fill(uint8_t *p, size_t n, long v)
{
	size_t i;

	for (i = 0; i < n; ++i)
		p[i] = v ? (v + 7 * i) & 255 : 0;
}

static void show_array(void)
{
	size_t n = shl_array_get_length(arr), es = shl_array_get_element_size(arr);
	uint8_t *d = shl_array_get_array(arr), *e = __real_malloc(es + 1);
	size_t i, k = 0;
	long v, last = -3;
	const char *sep = "";

	if (!arr && d)
		exit(5);
	printf(",\"l\":%zu,\"b\":%zu,\"e\":%zu,\"m\":%ld,\"c\":[", n,
	       shl_array_get_bsize(arr), es, live);
	/* runs of equal elements */
	for (i = 0; i < n; ++i) {
		v = d[i * es];
		if (!i || v != last)
			fill(e, es, v);
		if (memcmp(e, d + i * es, es))
			v = -1;
		if (es == 4 &&
		    (uint8_t*)SHL_ARRAY_AT(arr, uint32_t, i) != d + 4 * i)
			v = -2;
		if (i && v != last) {
			printf("%s[%ld,%zu]", sep, last, k);
			sep = ",";
			k = 0;
		}
		last = v;
		k++;
	}
	if (n)
		printf("%s[%ld,%zu]", sep, last, k);
	printf("]");
	__real_free(e);
}

static bool compare(const void *a, const void *b)
{
	const struct query *q = a;
	int i = find_elem(b);

	if (i < 0) {
		wild = 1;
		return false;
	}
	return elems[i].key == q->key;
}

static size_t rehash(const void *e, void *priv)
{
	int i = find_elem(e);

	if (i < 0 || priv != &tab) {
		wild = 1;
		return 0;
	}
	return elems[i].hash;
}

static int *seen, nseen, aseen;

static void visit_cb(void *e, void *ctx)
{
	if (ctx != &seen)
		wild = 1;
	if (nseen == aseen) {
		aseen = aseen ? aseen * 2 : 64;
		seen = __real_realloc(seen, aseen * sizeof(*seen));
	}
	seen[nseen++] = find_elem(e);
}

/* symbols are printed as characters or, negative, as numbers from -1 on */
static long show(uint32_t s)
{
	return s <= TSM_UCS4_MAX ? (long)s : -(long)(s - TSM_UCS4_MAX);
}

static uint32_t symbol(long v)
{
	return v >= 0 ? (uint32_t)v : TSM_UCS4_MAX + (uint32_t)-v;
}

static void runs(const struct iovec *v, size_t n)
{
	long start = -1, len = 0;
	bool first = true;
	size_t i, j;

	printf("[");
	for (i = 0; i < n; ++i)
		for (j = 0; j < v[i].iov_len; ++j) {
			int b = ((uint8_t*)v[i].iov_base)[j];

			if (len && b == (start + len) % MOD && b < MOD) {
				len++;
				continue;
			}
			if (len)
				printf("%s[%ld,%ld]", first ? "" : ",", start,
				       len);
			if (len)
				first = false;
			start = b;
			len = 1;
		}
	if (len)
		printf("%s[%ld,%ld]", first ? "" : ",", start, len);
	printf("]");
}

static void step(char *line)
{
	static long a[4096];
	char *op, *p, *buf;
	int n = 0, i;
	long r = 0;
	void *out = NULL;
	struct query q;
	struct iovec v[2];
	size_t hash;

	op = strtok(line, " \n");
	while (n < 4096 && (p = strtok(NULL, " \n"))) {
		/* the result of an earlier operation */
		if (*p == '@') {
			i = atoi(p + 1);
			a[n++] = i < nresults ? results[i] : 97;
		} else {
			a[n++] = (long)strtoull(p, NULL, 0);
		}
	}
	for (i = n; i < 8; ++i)
		a[i] = 0;
	if (!strcmp(op, "fail")) {
		fail_at = a[0];
		fail_on = a[1];
		printf("{\"o\":[\"fail\"]}");
		return;
	}
	if (!strcmp(op, "kind")) {
		kind = a[0];
		if (kind == 1)
			shl_htable_init_ulong(&tab);
		else if (kind == 2)
			shl_htable_init_str(&tab);
		printf("{\"o\":[\"kind\"]}");
		return;
	}
	failed = 0;
	allocs = 0;
	wild = 0;
	nseen = 0;
	if (!strcmp(op, "elem")) {
		if (nelems >= NELEM)
			exit(4);
		if (kind == 1) {
			numbers[nelems] = a[1];
			a[0] = (long)&numbers[nelems];
		} else if (kind == 2) {
			strings[nelems] = strdup(string(a[1]));
			a[0] = (long)&strings[nelems];
		}
		/* wherever the element is, that is all there is to it */
		elems[nelems++] = (struct elem){ a[0], a[1], a[2] };
		printf("{\"o\":[\"elem\"]}");
		return;
	}
	printf("{\"o\":[\"%s\"", op);
	for (i = 0; i < n; ++i)
		printf(",%ld", a[i] > 2147483647L ? 2147483647L : a[i]);
	printf("]");

	if (!strcmp(op, "push")) {
		/* exact size, so that overreads are found */
		buf = __real_malloc(a[1] ? a[1] : 1);
		for (i = 0; i < a[1]; ++i)
			buf[i] = (a[0] + i) % MOD;
		r = LIB(shl_ring_push(&ring, buf, a[1]));
		__real_free(buf);
	} else if (!strcmp(op, "hugepush")) {
		char c = 1;

		r = LIB(shl_ring_push(&ring, &c, SIZE_MAX - a[0]));
	} else if (!strcmp(op, "pull")) {
		LIBV(shl_ring_pull(&ring, a[0]));
	} else if (!strcmp(op, "copy")) {
		buf = __real_malloc(a[0] ? a[0] : 1);
		r = LIB(shl_ring_copy(&ring, buf, a[0]));
		if (r > a[0])
			exit(5);
		v[0].iov_base = buf;
		v[0].iov_len = r;
		printf(",\"b\":");
		runs(v, 1);
		__real_free(buf);
	} else if (!strcmp(op, "flush")) {
		LIBV(shl_ring_flush(&ring));
	} else if (!strcmp(op, "clear")) {
		LIBV(shl_ring_clear(&ring));
	} else if (!strcmp(op, "ins")) {
		/* scripts that are being minimised */
		if (a[0] < 0 || a[0] >= nelems)
			r = -1, failed = 1;
		else if (kind == 1)
			r = LIB(shl_htable_insert_ulong(&tab,
					(unsigned long*)elems[a[0]].ptr));
		else if (kind == 2)
			r = LIB(shl_htable_insert_str(&tab,
					(char**)elems[a[0]].ptr,
					known(&hash, elems[a[0]].key)));
		else
			r = LIB(shl_htable_insert(&tab, (void*)elems[a[0]].ptr,
						  elems[a[0]].hash));
	} else if (!strcmp(op, "rem") || !strcmp(op, "find")) {
		q.key = a[0];
		if (kind == 1)
			r = op[0] == 'r' ?
			    LIB(shl_htable_remove_ulong(&tab, a[0],
						(unsigned long**)&out)) :
			    LIB(shl_htable_lookup_ulong(&tab, a[0],
						(unsigned long**)&out));
		else if (kind == 2)
			r = op[0] == 'r' ?
			    LIB(shl_htable_remove_str(&tab, string(a[0]),
					known(&hash, a[0]), (char***)&out)) :
			    LIB(shl_htable_lookup_str(&tab, string(a[0]),
					known(&hash, a[0]), (char***)&out));
		else if (op[0] == 'r')
			r = LIB(shl_htable_remove(&tab, &q, a[1], &out));
		else
			r = LIB(shl_htable_lookup(&tab, &q, a[1], &out));
		if (r)
			r = find_elem(out) + 1;
	} else if (!strcmp(op, "visit")) {
		if (kind == 1)
			LIBV(shl_htable_visit_ulong(&tab, (void*)visit_cb,
						    &seen));
		else if (kind == 2)
			LIBV(shl_htable_visit_str(&tab, (void*)visit_cb,
						  &seen));
		else
			LIBV(shl_htable_visit(&tab, visit_cb, &seen));
	} else if (!strcmp(op, "hclear")) {
		if (kind == 1)
			LIBV(shl_htable_clear_ulong(&tab, (void*)visit_cb,
						    &seen));
		else if (kind == 2)
			LIBV(shl_htable_clear_str(&tab, (void*)visit_cb,
						  &seen));
		else
			LIBV(shl_htable_clear(&tab, visit_cb, &seen));
	} else if (!strcmp(op, "anew")) {
		LIBV(shl_array_free(arr));
		arr = NULL;
		r = LIB(shl_array_new(&arr, a[0], a[1]));
		if (r)
			arr = NULL;
	} else if (!strcmp(op, "afree")) {
		LIBV(shl_array_free(arr));
		arr = NULL;
	} else if (!strcmp(op, "apush")) {
		size_t es = shl_array_get_element_size(arr);

		buf = __real_malloc(es + !es);
		fill(buf, es, a[0]);
		r = LIB(shl_array_push(arr, buf));
		__real_free(buf);
	} else if (!strcmp(op, "apushnull")) {
		r = LIB(shl_array_push(arr, NULL));
	} else if (!strcmp(op, "apop")) {
		LIBV(shl_array_pop(arr));
	} else if (!strcmp(op, "aresize")) {
		r = LIB(shl_array_zresize(arr, a[0]));
	} else if (!strcmp(op, "ahuge")) {
		struct shl_array *x = NULL;

		/* more than there can be */
		if (a[0] < 4)
			r = LIB(shl_array_zresize(arr, a[0] == 0 ? SIZE_MAX :
						  a[0] == 1 ? SIZE_MAX / 2 + 2 :
						  a[0] == 2 ? SIZE_MAX / 2 :
						  SIZE_MAX / 4 + 1));
		else
			r = LIB(shl_array_new(&x, 16, a[0] == 4 ? SIZE_MAX / 16 + 2 :
					      SIZE_MAX));
		LIBV(shl_array_free(x));
	} else if (!strcmp(op, "snew")) {
		tsm_symbol_table_unref(syms);
		syms = NULL;
		r = LIB(tsm_symbol_table_new(&syms));
		if (r)
			syms = NULL;
	} else if (!strcmp(op, "sfree")) {
		LIBV(tsm_symbol_table_unref(syms));
		syms = NULL;
	} else if (!strcmp(op, "app")) {
		r = show(LIB(tsm_symbol_append(syms, symbol(a[0]),
					       symbol(a[1]))));
		if (nresults < 4096)
			results[nresults++] = r;
	} else if (!strcmp(op, "get")) {
		tsm_symbol_t s = symbol(a[0]);
		size_t len = 0;
		const uint32_t *c = &s;

		if (syms || a[0] >= 0)
			c = LIB(tsm_symbol_get(syms, &s, &len));

		if (len > 100)
			exit(5);
		printf(",\"q\":[");
		for (i = 0; i < (int)len; ++i)
			printf(i ? ",%ld" : "%ld", show(c[i]));
		printf("]");
	} else if (!strcmp(op, "width")) {
		r = LIB(tsm_symbol_get_width(syms, symbol(a[0])));
	} else if (!strcmp(op, "make")) {
		r = show(LIB(tsm_symbol_make(symbol(a[0]))));
	} else if (!strcmp(op, "enc")) {
		char b[4];
		size_t l = LIB(tsm_ucs4_to_utf8(symbol(a[0]), b));

		printf(",\"q\":[");
		for (i = 0; i < (int)l; ++i)
			printf(i ? ",%d" : "%d", b[i] & 0xff);
		printf("]");
	} else if (!strcmp(op, "encall")) {
		uint32_t *u = __real_malloc(n * sizeof(*u) + 1);
		size_t l = 0;
		char *b;

		for (i = 0; i < n; ++i)
			u[i] = symbol(a[i]);
		b = LIB(tsm_ucs4_to_utf8_alloc(u, n, &l));
		r = b ? 1 : 0;
		printf(",\"q\":[");
		for (i = 0; b && i < (int)l; ++i)
			printf(i ? ",%d" : "%d", b[i] & 0xff);
		printf("]");
		free(b);
		__real_free(u);
	} else {
		fprintf(stderr, "unknown operation %s\n", op);
		exit(4);
	}
	printf(",\"r\":%ld,\"f\":%d", r < -2147483647L ? -2147483647L : r,
	       failed);
	if (!strcmp(op, "visit") || !strcmp(op, "hclear")) {
		printf(",\"n\":[");
		for (i = 0; i < nseen; ++i)
			printf(i ? ",%d" : "%d", seen[i]);
		printf("]");
	}
	if (op[0] == 'a' && strcmp(op, "app"))
		show_array();
	if (strstr("push hugepush pull copy flush clear", op)) {
		size_t k = shl_ring_peek(&ring, v);

		if (k > 2 || (k == 2 && (!v[0].iov_len || !v[1].iov_len)))
			exit(5);
		printf(",\"s\":%zu,\"p\":", shl_ring_get_size(&ring));
		runs(v, k);
		printf(",\"m\":%ld", live);
	}
	if (wild)
		printf(",\"wild\":1");
	printf("}");
	fail_at = 0;
}

int main(void)
{
	static char line[1 << 20];
	char id[256];
	bool open = false, sep = false;

	shl_htable_init(&tab, compare, rehash, &tab);
	while (fgets(line, sizeof(line), stdin)) {
		if (line[0] == 'T' && line[1] == ' ') {
			sscanf(line + 2, "%255s", id);
			printf("{\"id\":\"%s\",\"steps\":[", id);
			open = true;
			sep = false;
			nelems = 0;
			nresults = 0;
			continue;
		}
		if (line[0] == 'E' && (line[1] == '\n' || !line[1])) {
			printf("],\"elems\":[");
			for (int i = 0; i < nelems; ++i)
				printf("%s[%ld,%ld]", i ? "," : "",
				       elems[i].key, (long)(elems[i].hash %
							    1000000007));
			shl_ring_clear(&ring);
			shl_htable_clear(&tab, NULL, NULL);
			shl_htable_init(&tab, compare, rehash, &tab);
			kind = 0;
			for (int i = 0; i < nelems; ++i) {
				free(strings[i]);
				strings[i] = NULL;
			}
			LIBV(shl_array_free(arr));
			arr = NULL;
			tsm_symbol_table_unref(syms);
			syms = NULL;
			printf("],\"left\":%ld}\n", live);
			fflush(stdout);
			open = false;
			continue;
		}
		if (!open)
			exit(4);
		if (sep)
			printf(",");
		sep = true;
		step(line);
	}
	__real_free(seen);
	return 0;
}
