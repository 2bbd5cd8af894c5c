/*
 * Replays scripts of operations on the real screen and terminal emulator and
 * records what can be observed through the public interface.
 *
 * Input (stdin), one trace after another:
 *   T <id> [a|f]    start of a trace; "a": draw only on request, with ages;
 *                   "f": everything is drawn twice, and drawing fails
 *         with "m", the line "S <k>" continues with the k-th session; the
 *         traces of the sessions are in "parts"
 *   <op> <args...>  one operation per line, see run_op()
 *   E               end of the trace
 * Output (stdout): one JSON object per trace and line:
 *   {"id":..., "cells":[[char,width,[attr],len],...], "ids":[...],
 *    "steps":[...]}
 * A step is {"o":[op,args...],"r":result,"c":[...],"v":[...],"e":[events],
 * "k":[[row,[cell,...]],...]} where cells are 1-based indices into the table
 * of cells and only rows that differ from the previous step are listed.
 * "ids" tells which cells were drawn with the same identifier.
 */
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "libtsm.h"
#ifdef FAULTS
#include "alloc.h"
#define OUTSIDE int _lib = in_lib; in_lib = 0
#define INSIDE in_lib = _lib
#else
#define OUTSIDE
#define INSIDE
#endif

#define MAXW 512
#define MAXH 512

struct ocell {
	uint32_t ch;
	int width;
	int attr[14];
	int len;
	uint64_t id;
};

static struct tsm_screen *scr;
static struct tsm_vte *vte;
static bool manual, failing;

static FILE *out;
static struct ocell *cells;
static unsigned int ncells, acells;
static unsigned int *chash, nhash;

static unsigned int *view, *pview, *again;	/* cell indices */
static unsigned long *ages;
static int vw, vh, pw, ph;
static int dupes, missing, badlen;

/* the sessions of a trace with several ones */
#define SLOTS 4
struct slot {
	struct tsm_screen *scr;
	struct tsm_vte *vte;
	struct ocell *cells;
	unsigned int ncells, acells, *chash, nhash, *pview;
	int pw, ph;
	bool open;
	FILE *out;
	char *text;
	size_t size;
};
static struct slot slots[SLOTS];
static int cur, opno;
static bool multi;

/* events of the current operation */
static char *ev;
static size_t evlen, evsize;
static bool evopen;

static void *xrealloc(void *p, size_t n)
{
	p = realloc(p, n);
	if (!p)
		abort();
	return p;
}

static void ev_printf(const char *fmt, unsigned int a, unsigned int b)
{
	if (evlen + 64 > evsize) {
		evsize = evsize ? evsize * 2 : 1024;
		ev = xrealloc(ev, evsize);
	}
	evlen += sprintf(ev + evlen, fmt, a, b);
}

static void ev_close(void)
{
	if (evopen)
		ev_printf("]]", 0, 0);
	evopen = false;
}

static void ev_bytes(const char *u8, size_t len)
{
	size_t i;

	for (i = 0; i < len; ++i)
		ev_printf(ev[evlen - 1] == '[' ? "%u" : ",%u",
			  (unsigned char)u8[i], 0);
}

/* messages are formatted, but what they say is not specified */
static void log_cb(void *data, const char *file, int line, const char *func,
		   const char *subs, unsigned int sev, const char *format,
		   va_list args)
{
	char buf[2000];

	OUTSIDE;
	if (data != (void*)&ev || sev > 7)
		abort();
	vsnprintf(buf, sizeof(buf), format, args);
	INSIDE;
}

/* what the next callback of a kind (data, strings, mouse) does: operations
 * are called from inside of it */
static char reactions[3][4096];
static long skip[3];
static void react(int kind);

static void write_cb(struct tsm_vte *v, const char *u8, size_t len, void *data)
{
	if (data != (void*)&scr || (v != vte && vte))
		abort();
	if (!len)
		return;
	OUTSIDE;
	if (!evopen) {
		ev_printf(evlen ? ",[\"w\",[" : "[\"w\",[", 0, 0);
		evopen = true;
	}
	ev_bytes(u8, len);
	INSIDE;
	react(0);
}

static void osc_cb(struct tsm_vte *v, const char *u8, size_t len, void *data)
{
	OUTSIDE;

	if (data != (void*)&vte || v != vte)
		abort();
	ev_close();
	ev_printf(evlen ? ",[\"o\",[" : "[\"o\",[", 0, 0);
	ev_bytes(u8, len);
	/* the string is terminated */
	if (u8[len])
		ev_printf(len ? ",999" : "999", 0, 0);
	ev_printf("]]", 0, 0);
	INSIDE;
	react(1);
}

static void mouse_cb(struct tsm_vte *v, enum tsm_mouse_track_mode mode,
		     bool pixels, void *data)
{
	OUTSIDE;

	if (data != (void*)&view || v != vte)
		abort();
	ev_close();
	ev_printf(evlen ? ",[\"m\",%u,%u]" : "[\"m\",%u,%u]", mode, pixels);
	INSIDE;
	react(2);
}

static unsigned int cell_index(const struct ocell *c)
{
	const unsigned char *p = (const void*)c;
	unsigned int h = 5381, i;

	for (i = 0; i < sizeof(*c); ++i)
		h = h * 33 + p[i];
	if (!nhash || ncells * 2 >= nhash) {
		unsigned int n = nhash ? nhash * 2 : 1024, j, k;

		free(chash);
		chash = calloc(n, sizeof(*chash));
		nhash = n;
		for (j = 0; j < ncells; ++j) {
			const unsigned char *q = (const void*)&cells[j];
			unsigned int g = 5381;

			for (i = 0; i < sizeof(*c); ++i)
				g = g * 33 + q[i];
			for (k = g % n; chash[k]; k = (k + 1) % n)
				;
			chash[k] = j + 1;
		}
	}
	for (i = h % nhash; chash[i]; i = (i + 1) % nhash)
		if (!memcmp(&cells[chash[i] - 1], c, sizeof(*c)))
			return chash[i];
	if (ncells == acells) {
		acells = acells ? acells * 2 : 256;
		cells = xrealloc(cells, acells * sizeof(*cells));
	}
	cells[ncells++] = *c;
	chash[i] = ncells;
	return ncells;
}

static int draw_cb(struct tsm_screen *con, uint64_t id, const uint32_t *ch,
		   size_t len, unsigned int width, unsigned int posx,
		   unsigned int posy, const struct tsm_screen_attr *a,
		   tsm_age_t age, void *data)
{
	struct ocell c;
	unsigned int pos;

	if (data != (void*)&ages || con != scr || (int)posx >= vw ||
	    (int)posy >= vh) {
		missing = 1;
		return 0;
	}
	memset(&c, 0, sizeof(c));
	c.id = id;
	c.ch = len ? ch[0] : 0;
	c.len = len;
	c.width = width;
	c.attr[0] = a->fccode;
	c.attr[1] = a->bccode;
	c.attr[2] = a->fr;
	c.attr[3] = a->fg;
	c.attr[4] = a->fb;
	c.attr[5] = a->br;
	c.attr[6] = a->bg;
	c.attr[7] = a->bb;
	c.attr[8] = a->bold;
	c.attr[9] = a->italic;
	c.attr[10] = a->underline;
	c.attr[11] = a->inverse;
	c.attr[12] = a->protect;
	c.attr[13] = a->blink;
	pos = posy * vw + posx;
	if (view[pos])
		dupes = 1;
	view[pos] = cell_index(&c);
	ages[pos] = age;
	return failing ? -5 : 0;
}

static unsigned long draw(void)
{
	unsigned long age;
	int i;

	vw = tsm_screen_get_width(scr);
	vh = tsm_screen_get_height(scr);
	if (vw > MAXW || vh > MAXH || vw < 1 || vh < 1) {
		fprintf(stderr, "bad screen size %dx%d\n", vw, vh);
		exit(3);
	}
	if (failing) {
		/* drawing changes nothing */
		memset(view, 0, sizeof(*view) * vw * vh);
		tsm_screen_draw(scr, draw_cb, &ages);
		memcpy(again, view, sizeof(*view) * vw * vh);
		if (tsm_screen_draw(scr, NULL, &ages))
			missing = 1;
	}
	memset(view, 0, sizeof(*view) * vw * vh);
	age = tsm_screen_draw(scr, draw_cb, &ages);
	if (failing && memcmp(again, view, sizeof(*view) * vw * vh))
		missing = 1;
	for (i = 0; i < vw * vh; ++i)
		if (!view[i])
			missing = 1;
	return age;
}

static void print_view(void)
{
	bool all = vw != pw || vh != ph, first = true;
	int x, y;

	fprintf(out, ",\"k\":[");
	for (y = 0; y < vh; ++y) {
		if (!all && !manual &&
		    !memcmp(&view[y * vw], &pview[y * vw], sizeof(*view) * vw))
			continue;
		fprintf(out, "%s[%d,[", first ? "" : ",", y + 1);
		first = false;
		for (x = 0; x < vw; ++x)
			fprintf(out, x ? ",%u" : "%u", view[y * vw + x]);
		fprintf(out, "]]");
	}
	fprintf(out, "]");
	if (manual) {
		fprintf(out, ",\"g\":[");
		for (y = 0; y < vh; ++y) {
			fprintf(out, y ? ",[" : "[");
			for (x = 0; x < vw; ++x)
				fprintf(out, x ? ",%lu" : "%lu",
					ages[y * vw + x] % 1000000000UL);
			fprintf(out, "]");
		}
		fprintf(out, "]");
	}
	memcpy(pview, view, sizeof(*view) * vw * vh);
	pw = vw;
	ph = vh;
}

static void drop(void)
{
	tsm_vte_unref(vte);
	vte = NULL;
	tsm_screen_unref(scr);
	scr = NULL;
}

static struct tsm_screen_attr attr_of(const long *a)
{
	struct tsm_screen_attr r;

	memset(&r, 0, sizeof(r));
	r.fccode = a[0];
	r.bccode = a[1];
	r.fr = a[2];
	r.fg = a[3];
	r.fb = a[4];
	r.br = a[5];
	r.bg = a[6];
	r.bb = a[7];
	r.bold = a[8];
	r.italic = a[9];
	r.underline = a[10];
	r.inverse = a[11];
	r.protect = a[12];
	r.blink = a[13];
	return r;
}

#define S0(_n, _f) if (!strcmp(op, _n)) { _f(scr); return 0; }
#define S1(_n, _f) if (!strcmp(op, _n)) { _f(scr, a[0]); return 0; }
#define S2(_n, _f) if (!strcmp(op, _n)) { _f(scr, a[0], a[1]); return 0; }

static char *copied;
static bool has_copied;

static int run_op(const char *op, long *a, int n, const char *str,
		  unsigned char *bytes, int nbytes)
{
	struct tsm_screen_attr attr;
	tsm_log_t log;
	int r;

	if (!strcmp(op, "new")) {	/* w h vte osc mouse */
		drop();
		memset(reactions, 0, sizeof(reactions));
		/* with messages or without */
		log = (a[0] + a[1]) % 2 ? log_cb : NULL;
		r = tsm_screen_new(&scr, log, &ev);
		if (r)
			scr = NULL;
		if (!r)
			r = tsm_screen_resize(scr, a[0], a[1]);
		if (!r && a[2]) {
			r = tsm_vte_new(&vte, scr, write_cb, &scr, log, &ev);
			if (r)
				vte = NULL;
			if (a[3])
				tsm_vte_set_osc_cb(vte, osc_cb, &vte);
			if (a[4])
				tsm_vte_set_mouse_cb(vte, mouse_cb, &view);
		}
		return r;
	}
	if (!scr)
		exit(4);

	if (!strcmp(op, "resize"))
		return tsm_screen_resize(scr, a[0], a[1]);
	if (!strcmp(op, "margins"))
		return tsm_screen_set_margins(scr, a[0], a[1]);
	S1("maxsb", tsm_screen_set_max_sb)
	S0("clearsb", tsm_screen_clear_sb)
	S1("sbup", tsm_screen_sb_up)
	S1("sbdown", tsm_screen_sb_down)
	S1("sbpgup", tsm_screen_sb_page_up)
	S1("sbpgdown", tsm_screen_sb_page_down)
	S0("sbreset", tsm_screen_sb_reset)
	if (!strcmp(op, "defattr")) {
		attr = attr_of(a);
		tsm_screen_set_def_attr(scr, &attr);
		return 0;
	}
	S0("reset", tsm_screen_reset)
	S1("setflags", tsm_screen_set_flags)
	S1("resetflags", tsm_screen_reset_flags)
	S0("settab", tsm_screen_set_tabstop)
	S0("rsttab", tsm_screen_reset_tabstop)
	S0("rstall", tsm_screen_reset_all_tabstops)
	if (!strcmp(op, "write")) {
		attr = attr_of(a + 1);
		tsm_screen_write(scr, a[0], &attr);
		return 0;
	}
	if (!strcmp(op, "homes")) {
		while (a[0]-- > 0)
			tsm_screen_move_line_home(scr);
		return 0;
	}
	S0("newline", tsm_screen_newline)
	S1("scrollup", tsm_screen_scroll_up)
	S1("scrolldown", tsm_screen_scroll_down)
	S2("moveto", tsm_screen_move_to)
	S2("moveup", tsm_screen_move_up)
	S2("movedown", tsm_screen_move_down)
	S1("moveleft", tsm_screen_move_left)
	S1("moveright", tsm_screen_move_right)
	S0("lineend", tsm_screen_move_line_end)
	S0("linehome", tsm_screen_move_line_home)
	S1("tabr", tsm_screen_tab_right)
	S1("tabl", tsm_screen_tab_left)
	S1("inslines", tsm_screen_insert_lines)
	S1("dellines", tsm_screen_delete_lines)
	S1("inschars", tsm_screen_insert_chars)
	S1("delchars", tsm_screen_delete_chars)
	S0("erasecur", tsm_screen_erase_cursor)
	S1("erasechars", tsm_screen_erase_chars)
	S1("ecte", tsm_screen_erase_cursor_to_end)
	S1("ehtc", tsm_screen_erase_home_to_cursor)
	S1("eline", tsm_screen_erase_current_line)
	S1("estc", tsm_screen_erase_screen_to_cursor)
	S1("ects", tsm_screen_erase_cursor_to_screen)
	S1("escr", tsm_screen_erase_screen)
	S0("selreset", tsm_screen_selection_reset)
	S2("selstart", tsm_screen_selection_start)
	S2("seltarget", tsm_screen_selection_target)
	if (!strcmp(op, "selcopy")) {
		free(copied);
		copied = NULL;
		r = tsm_screen_selection_copy(scr, &copied);
		has_copied = r >= 0 && copied;
		return r;
	}
	if (!strcmp(op, "draw"))
		return 0;

	if (!vte)
		exit(4);
	if (!strcmp(op, "in")) {
		/* exact size, so that overreads are found */
		char *b;
		OUTSIDE;

		b = malloc(nbytes ? nbytes : 1);
		memcpy(b, bytes, nbytes);
		INSIDE;
		tsm_vte_input(vte, b, nbytes);
		free(b);
		return 0;
	}
	if (!strcmp(op, "key"))
		return tsm_vte_handle_keyboard(vte, a[0], a[1], a[2],
				a[3] < 0 ? TSM_VTE_INVALID : a[3]);
	if (!strcmp(op, "mouse"))
		return tsm_vte_handle_mouse(vte, a[0], a[1], a[2], a[3], a[4],
					    a[5], a[6]);
	if (!strcmp(op, "vreset")) {
		tsm_vte_reset(vte);
		return 0;
	}
	if (!strcmp(op, "vhard")) {
		tsm_vte_hard_reset(vte);
		return 0;
	}
	if (!strcmp(op, "pal"))
		return tsm_vte_set_palette(vte, *str ? str : NULL);
	if (!strcmp(op, "cpal")) {
		uint8_t pal[TSM_COLOR_NUM][3];
		int i;

		for (i = 0; i < n && i < TSM_COLOR_NUM * 3; ++i)
			pal[i / 3][i % 3] = a[i];
		return tsm_vte_set_custom_palette(vte, n ? pal : NULL);
	}
	if (!strcmp(op, "bs")) {
		tsm_vte_set_backspace_sends_delete(vte, a[0]);
		return 0;
	}
	if (!strcmp(op, "setosc")) {
		tsm_vte_set_osc_cb(vte, a[0] ? osc_cb : NULL, &vte);
		return 0;
	}
	if (!strcmp(op, "setmcb")) {
		tsm_vte_set_mouse_cb(vte, a[0] ? mouse_cb : NULL, &view);
		return 0;
	}
	fprintf(stderr, "unknown operation %s\n", op);
	exit(4);
}

static void react(int kind)
{
	unsigned char bytes[2048];
	char text[4096], *op, *p, *save;
	int n = 0, nbytes = 0;
	long a[64] = { 0 };

	if (!reactions[kind][0] || skip[kind]-- > 0)
		return;
	strcpy(text, reactions[kind]);
	reactions[kind][0] = 0;
	op = strtok_r(text, " ", &save);
	if (!strcmp(op, "in") || !strcmp(op, "pal")) {
		p = strtok_r(NULL, " ", &save);
		if (*op == 'i')
			for (; p && p[0] && p[1]; p += 2) {
				char h[3] = { p[0], p[1], 0 };

				bytes[nbytes++] = strtol(h, NULL, 16);
			}
		run_op(op, a, 0, p ? p : "", bytes, nbytes);
		return;
	}
	while (n < 56 && (p = strtok_r(NULL, " ", &save)))
		a[n++] = strtol(p, NULL, 10);
	run_op(op, a, n, "", bytes, 0);
}

static void swap_slot(int k)
{
	struct slot *o = &slots[cur], *n = &slots[k];

	o->scr = scr, o->vte = vte, o->cells = cells, o->ncells = ncells;
	o->acells = acells, o->chash = chash, o->nhash = nhash;
	o->pview = pview, o->pw = pw, o->ph = ph, o->out = out;
	if (!n->pview)
		n->pview = calloc(MAXW * MAXH, sizeof(*pview));
	scr = n->scr, vte = n->vte, cells = n->cells, ncells = n->ncells;
	acells = n->acells, chash = n->chash, nhash = n->nhash;
	pview = n->pview, pw = n->pw, ph = n->ph, out = n->out;
	cur = k;
}

static bool needs_vte(const char *op)
{
	return strstr(" in key mouse vreset vhard pal cpal bs setosc setmcb ",
		      op) != NULL;
}

static void print_attr(const struct tsm_screen_attr *a)
{
	fprintf(out, "[%d,%d,%d,%d,%d,%d,%d,%d,%d,%d,%d,%d,%d,%d]",
		a->fccode, a->bccode, a->fr, a->fg, a->fb, a->br, a->bg, a->bb,
		a->bold, a->italic, a->underline, a->inverse, a->protect,
		a->blink);
}

static bool step(char *line, bool first)
{
	static unsigned char bytes[1 << 20];
	static long a[256];
	char *op, *p, *str = "", *e;
	int n = 0, nbytes = 0, r, i;
	unsigned long age = 0;
	bool drawn;
#ifdef FAULTS
	long k;
#endif

	op = strtok(line, " \n");
	p = strtok(NULL, " \n");
	if (!strcmp(op, "in")) {
		for (; p && p[0] && p[1]; p += 2) {
			char h[3] = { p[0], p[1], 0 };

			bytes[nbytes++] = strtol(h, NULL, 16);
		}
	} else if (!strcmp(op, "react")) {	/* kind skip operation */
		e = strtok(NULL, " \n");
		a[0] = p ? strtol(p, NULL, 10) : 0;
		p = strtok(NULL, "\n");
		if (e && p && strlen(p) < sizeof(reactions[0]) && a[0] >= 0 &&
		    a[0] < 3) {
			skip[a[0]] = strtol(e, NULL, 10);
			strcpy(reactions[a[0]], p);
		}
		fprintf(out, "%s{\"o\":[\"react\"]}", first ? "" : ",");
		return true;
	} else if (!strcmp(op, "pal")) {
		if (p)
			str = p;
	} else {
		for (; p && n < 256; p = strtok(NULL, " \n"))
			a[n++] = strtol(p, &e, 10);
		for (i = n; i < 16; ++i)
			a[i] = 0;
	}

	/* scripts that are being minimised */
	if (multi && ((!scr && strcmp(op, "new")) || (!vte && needs_vte(op))))
		return false;

	evlen = 0;
	evopen = false;
	if (ev)
		ev[0] = 0;
	has_copied = false;
#ifdef FAULTS
	/* nothing can be done without a screen */
	if (!strcmp(op, "fail") || (!scr && strcmp(op, "new"))) {
		fail_at = a[0];
		fail_on = a[1];
		fprintf(out, "%s{\"o\":[\"fail\"]}", first ? "" : ",");
		return true;
	}
	failed = 0;
	k = fail_at;
	in_lib = 1;
	r = run_op(op, a, n, str, bytes, nbytes);
	in_lib = 0;
	fail_at = 0;
	if (r && !strcmp(op, "new")) {
		drop();
		fprintf(out, "%s{\"o\":[\"none\"],\"r\":%d,\"f\":%d,\"m\":%ld}",
			first ? "" : ",", r, failed, live);
		return true;
	}
#else
	r = run_op(op, a, n, str, bytes, nbytes);
#endif
	ev_close();

	fprintf(out, "%s{\"o\":[\"%s\"", first ? "" : ",", op);
	if (!strcmp(op, "in")) {
		fprintf(out, ",[");
		for (i = 0; i < nbytes; ++i)
			fprintf(out, i ? ",%u" : "%u", bytes[i]);
		fprintf(out, "]");
	} else if (!strcmp(op, "pal")) {
		fprintf(out, ",\"%s\"", str);
	} else if (!strcmp(op, "cpal") || !strcmp(op, "defattr")) {
		fprintf(out, ",[");
		for (i = 0; i < n; ++i)
			fprintf(out, i ? ",%ld" : "%ld", a[i]);
		fprintf(out, "]");
	} else if (!strcmp(op, "write")) {
		fprintf(out, ",%ld,[", a[0]);
		for (i = 1; i < n; ++i)
			fprintf(out, i > 1 ? ",%ld" : "%ld", a[i]);
		fprintf(out, "]");
	} else {
		/* the specification has 32 bit numbers and saturates anyway */
		for (i = 0; i < n; ++i)
			fprintf(out, ",%ld", a[i] > 1000000000 ? 1000000000 :
				a[i]);
	}
	fprintf(out, "],\"r\":%d", r);
#ifdef FAULTS
	fprintf(out, ",\"f\":[%d,%ld,%d]", failed, k, fail_on);
#endif

	drawn = !manual || !strcmp(op, "draw");
	if (drawn)
		age = draw();

	fprintf(out, ",\"c\":[%u,%u,%u,%u,%u,%u,%u]",
		tsm_screen_get_cursor_x(scr), tsm_screen_get_cursor_y(scr),
		tsm_screen_get_width(scr), tsm_screen_get_height(scr),
		tsm_screen_get_flags(scr), tsm_screen_sb_get_line_count(scr),
		tsm_screen_sb_get_line_pos(scr));
	if (vte)
		fprintf(out, ",\"v\":[%u,%u,%u]", tsm_vte_get_flags(vte),
			tsm_vte_get_mouse_mode(vte),
			tsm_vte_get_mouse_event(vte));
	else
		fprintf(out, ",\"v\":[]");
	if (vte && (!strcmp(op, "pal") || !strcmp(op, "cpal") ||
		    !strcmp(op, "new"))) {
		struct tsm_screen_attr da;

		memset(&da, 0, sizeof(da));
		tsm_vte_get_def_attr(vte, &da);
		fprintf(out, ",\"d\":");
		print_attr(&da);
	}
	fprintf(out, ",\"e\":[");
	fwrite(ev ? ev : "", 1, evlen, out);
	fprintf(out, "]");
	if (has_copied) {
		fprintf(out, ",\"t\":[");
		for (p = copied; *p; ++p)
			fprintf(out, p == copied ? "%u" : ",%u",
				(unsigned char)*p);
		fprintf(out, "]");
		free(copied);
		copied = NULL;
	}
	if (drawn) {
		if (manual)
			fprintf(out, ",\"a\":%lu", age % 1000000000UL);
		print_view();
	}
	if (dupes || missing || badlen)
		fprintf(out, ",\"bad\":1");
	if (multi)
		fprintf(out, ",\"n\":%d", opno);
	dupes = missing = badlen = 0;
	fprintf(out, "}");
	return true;
}

static void begin(const char *id)
{
	fprintf(out, "{\"id\":\"%s\",\"steps\":[", id);
	ncells = 0;
	if (chash)
		memset(chash, 0, nhash * sizeof(*chash));
	pw = ph = 0;
}

static void end(void)
{
	unsigned int i, j;

	drop();
	fprintf(out, "],\"cells\":[");
	for (i = 0; i < ncells; ++i) {
		fprintf(out, i ? ",[%u,%d,[" : "[%u,%d,[", cells[i].ch,
			cells[i].width);
		for (j = 0; j < 14; ++j)
			fprintf(out, j ? ",%d" : "%d", cells[i].attr[j]);
		fprintf(out, "],%d]", cells[i].len);
	}
	fprintf(out, "],\"ids\":[");
	for (i = 0; i < ncells; ++i) {
		for (j = 0; cells[j].id != cells[i].id; ++j)
			;
		fprintf(out, i ? ",%u" : "%u", j);
	}
	fprintf(out, "]");
}

int main(int argc, char **argv)
{
	static char line[1 << 21];
	char id[256], sid[300];
	bool first = true;
	int i, k;

	out = stdout;
	view = calloc(MAXW * MAXH, sizeof(*view));
	pview = calloc(MAXW * MAXH, sizeof(*pview));
	again = calloc(MAXW * MAXH, sizeof(*again));
	ages = calloc(MAXW * MAXH, sizeof(*ages));
	while (fgets(line, sizeof(line), stdin)) {
		if (line[0] == 'T') {
			char m = 0;

			sscanf(line, "T %255s %c", id, &m);
			manual = m == 'a';
			failing = m == 'f';
			multi = m == 'm';
			opno = -1;
			fprintf(stderr, "begin %s\n", id);
			for (i = multi ? SLOTS - 1 : 0; i >= 0; --i) {
				swap_slot(i);
				sprintf(sid, multi ? "%s.%d" : "%s", id, i);
				if (multi) {
					slots[i].text = NULL;
					out = open_memstream(&slots[i].text,
							     &slots[i].size);
				}
				slots[i].open = false;
				begin(sid);
			}
			first = true;
		} else if (line[0] == 'E') {
			if (multi)
				printf("{\"id\":\"%s\",\"parts\":[", id);
			for (i = 0, k = 0; i < (multi ? SLOTS : 1); ++i) {
				swap_slot(i);
				end();
				if (!multi)
					break;
				fprintf(out, "}");
				fclose(out);
				if (slots[i].open)
					printf(k++ ? ",%s" : "%s",
					       slots[i].text);
				free(slots[i].text);
				out = stdout;
			}
			swap_slot(0);
			out = stdout;
#ifdef FAULTS
			fprintf(out, ",\"left\":%ld}\n", live);
			live = 0;
#else
			fprintf(out, multi ? "]}\n" : "}\n");
#endif
			fflush(out);
		} else if (multi && line[0] == 'S') {
			k = atoi(line + 1);
			opno++;
			if (k >= 0 && k < SLOTS)
				swap_slot(k);
		} else if (line[0] > ' ') {
			opno++;
			if (!multi) {
				step(line, first);
				first = false;
			} else if (step(line, !slots[cur].open)) {
				slots[cur].open = true;
			}
		}
	}
	for (i = 0; i < SLOTS; ++i) {
		swap_slot(i);
		free(pview);
		free(cells);
		free(chash);
	}
	free(view);
	free(again);
	free(ages);
	free(ev);
	return 0;
}
