/*
 * Creates, references, uses and drops objects in any order and records
 * whether they can be used and how much memory there is.
 *
 *  null 0 N         call N without an object
 *  snew K W H       screen K (in 0..3)
 *  vnew K S [V]     terminal K (in 4..7) on screen S, or, with V, on the
 *                   screen of terminal V
 *  tnew K           symbol table K (in 8..9)
 *  pnew K           PTY K (in 10..11)
 *  ref K, unref K
 *  put K C          writes character C at the top left corner; for a symbol
 *                   table: makes a symbol of it; for a PTY: queues it
 *  see K            what is there; for a PTY: whether it is open
 *  busy K SEED      something that needs memory
 *  close K          closes a PTY
 *  null 0 K         call number K of the interface, without an object or
 *                   without another argument that it needs
 *  fail K [1]       see alloc.h
 * Objects that are not there are left alone, the steps have "n": 1 then.
 */
#include <errno.h>
#include <pthread.h>
#include <fcntl.h>
#include <stdbool.h>
#include <string.h>
#include <stdio.h>
#include <sys/wait.h>
#include <unistd.h>
#include "libtsm.h"
#include "libtsm-int.h"
#include "shl-array.h"
#include "shl-pty.h"
#include "alloc.h"

#define N 12
#define SYM(_k) ((_k) == 8 || (_k) == 9)
#define PTY(_k) ((_k) >= 10)
#define VTE(_k) ((_k) >= 4 && (_k) < 8)

struct obj {
	void *p;
	struct tsm_screen *scr;		/* the screen of a terminal */
	int fd;
	tsm_symbol_t sym;
	long app, held;			/* references */
	int s;				/* number of the screen */
	bool shut;			/* a PTY that was closed */
};
static struct obj objs[N];

static void write_cb(struct tsm_vte *v, const char *u8, size_t len, void *d)
{
}

static void input_cb(struct shl_pty *p, void *data, char *u8, size_t len)
{
}

static long seen;

static int draw_cb(struct tsm_screen *con, uint64_t id, const uint32_t *ch,
		   size_t len, unsigned int width, unsigned int x,
		   unsigned int y, const struct tsm_screen_attr *a,
		   tsm_age_t age, void *data)
{
	if (!x && !y)
		seen = len ? ch[0] : 0;
	return 0;
}

/* is the object there?  Only what the application did counts. */
static bool there(int k)
{
	return objs[k].app > 0 || objs[k].held > 0;
}

static void gone(int k)
{
	objs[k].p = NULL;
}

static void busy(struct obj *o, int k, unsigned long seed)
{
	struct tsm_screen *s = o->scr;
	struct tsm_screen_attr a;
	char *t = NULL, buf[64];
	uint8_t pal[TSM_COLOR_NUM][3];
	tsm_symbol_t y;
	int i, n;

#define R(_n) ((seed = seed * 6364136223846793005ul + 1442695040888963407ul) \
	       >> 33) % (_n)
	if (SYM(k)) {
		y = 'a' + R(3);
		for (i = R(12); i > 0; --i)
			y = tsm_symbol_append(o->p, y, 0x300 + R(3));
		tsm_symbol_get_width(o->p, y);
		return;
	}
	if (PTY(k)) {
		memset(buf, 'x', sizeof(buf));
		for (i = R(200); i > 0; --i)
			shl_pty_write(o->p, buf, sizeof(buf));
		shl_pty_dispatch(o->p);
		return;
	}
	memset(&a, 0, sizeof(a));
	for (n = 1 + R(4); n > 0; --n) {
		switch (R(VTE(k) ? 14 : 9)) {
		case 0:
			tsm_screen_resize(s, 1 + R(30), 1 + R(20));
			break;
		case 1:
			tsm_screen_set_max_sb(s, R(20));
			break;
		case 2:
			for (i = R(60); i > 0; --i)
				tsm_screen_newline(s);
			break;
		case 3:
			tsm_screen_set_flags(s, TSM_SCREEN_ALTERNATE);
			break;
		case 4:
			tsm_screen_reset_flags(s, TSM_SCREEN_ALTERNATE);
			break;
		case 5:
			tsm_screen_selection_start(s, 0, 0);
			tsm_screen_selection_target(s, 1, 1);
			free(t);
			t = NULL;
			tsm_screen_selection_copy(s, &t);
			break;
		case 6:
			tsm_screen_sb_up(s, R(10));
			break;
		case 7:
			tsm_screen_clear_sb(s);
			break;
		case 8:
			for (i = R(60); i > 0; --i)
				tsm_screen_write(s, 'A' + i, &a);
			break;
		case 9:
			tsm_vte_set_palette(o->p, R(3) ? R(2) ? "solarized" :
					    "base16-dark" : NULL);
			break;
		case 10:
			memset(pal, R(256), sizeof(pal));
			tsm_vte_set_custom_palette(o->p, R(4) ? pal : NULL);
			break;
		case 11:
			tsm_vte_reset(o->p);
			break;
		case 12:
			tsm_vte_hard_reset(o->p);
			break;
		case 13:
			tsm_vte_input(o->p, "\x1b[?1049h\x1b]0;t\x07x\n\n\n\n\n\n\n\n\n", 24);
			break;
		}
	}
	free(t);
}

/*
 * Calls without what they are about.  U() is a call without result, R() one
 * with a result.  Objects that are needed for it are made for the call.
 */
#define U(_c) case __COUNTER__ - NULLS: name = #_c; _c; return 0
#define G(_c) case __COUNTER__ - NULLS: name = #_c; return (long)(_c)
static const char *name;
enum { NULLS = __COUNTER__ + 1 };

/*
 * Screens with many lines or columns must not need much stack: this runs in
 * a thread with a small one.
 */
static void *tall(void *arg)
{
	struct tsm_screen *s = NULL;
	struct tsm_screen_attr at;
	unsigned n = 40000, k;
	long *r = arg;
	char *out = NULL;

	memset(&at, 0, sizeof(at));
	*r = -1;
	for (k = 0; k < 2; ++k) {
		if (tsm_screen_new(&s, NULL, NULL))
			return NULL;
		tsm_screen_set_max_sb(s, n / 2);
		if (tsm_screen_resize(s, k ? n : 1, k ? 1 : n)) {
			tsm_screen_unref(s);
			return NULL;
		}
		tsm_screen_selection_start(s, 0, 0);
		tsm_screen_selection_target(s, n, n);
		tsm_screen_write(s, 'a', &at);
		tsm_screen_scroll_up(s, n);
		tsm_screen_scroll_down(s, n);
		tsm_screen_move_to(s, 0, 0);
		tsm_screen_insert_lines(s, n);
		tsm_screen_delete_lines(s, n);
		tsm_screen_insert_lines(s, n - 1);
		tsm_screen_delete_lines(s, n - 1);
		tsm_screen_insert_chars(s, n);
		tsm_screen_delete_chars(s, n);
		tsm_screen_move_down(s, n + n, true);
		tsm_screen_move_up(s, n + n, true);
		tsm_screen_tab_right(s, n);
		tsm_screen_tab_left(s, n);
		tsm_screen_erase_screen(s, true);
		tsm_screen_sb_up(s, n);
		if (tsm_screen_selection_copy(s, &out) >= 0)
			free(out);
		tsm_screen_set_flags(s, TSM_SCREEN_ALTERNATE);
		tsm_screen_scroll_up(s, n);
		tsm_screen_resize(s, 3, 3);
		tsm_screen_clear_sb(s);
		tsm_screen_unref(s);
	}
	*r = 0;
	return NULL;
}

static long many(void)
{
	pthread_attr_t a;
	pthread_t t;
	long r = -1;

	pthread_attr_init(&a);
	pthread_attr_setstacksize(&a, 256 * 1024);
	if (!pthread_create(&t, &a, tall, &r))
		pthread_join(t, NULL);
	pthread_attr_destroy(&a);
	return r;
}

/*
 * Copies a narrow scrollback on a screen that is so wide that lines times
 * columns overflows 32 bits.
 */
static long wide(void)
{
	struct tsm_screen *s = NULL;
	struct tsm_screen_attr at;
	char *out = NULL;
	unsigned k, n = 1023;
	long r = -1;

	memset(&at, 0, sizeof(at));
	if (tsm_screen_new(&s, NULL, NULL))
		return -1;
	tsm_screen_set_max_sb(s, n);
	tsm_screen_resize(s, 1, 1);
	for (k = 0; k <= n; ++k) {
		tsm_screen_write(s, 'a' + k % 26, &at);
		tsm_screen_newline(s);
	}
	if (!tsm_screen_resize(s, 1 << 20, 1)) {
		tsm_screen_sb_up(s, n);
		tsm_screen_selection_start(s, 0, 0);
		tsm_screen_sb_reset(s);
		tsm_screen_selection_target(s, 0, 0);
		if (tsm_screen_selection_copy(s, &out) == 2 * n) {
			for (k = 0; k < n && out[2 * k] == 'a' + (k + 1) % 26 &&
			     out[2 * k + 1] == '\n'; ++k)
				;
			r = k < n;
		}
		free(out);
	}
	tsm_screen_unref(s);
	return r;
}

static long nulls(long k)
{
	struct tsm_screen *none = NULL, *scr = NULL, *s2;
	struct tsm_vte *v0 = NULL, *vte = NULL;
	struct tsm_symbol_table *t0 = NULL;
	struct tsm_utf8_mach *m0 = NULL;
	struct shl_array *a0 = NULL, *arr;
	struct shl_pty *p0 = NULL, *p;
	struct tsm_screen_attr at;
	struct shl_pty *pp = NULL;
	tsm_symbol_t sym = 'a';
	size_t n = 0;
	uint8_t pal[TSM_COLOR_NUM][3];
	char *out = NULL, text[8] = "x";
	int x = 0;

	memset(&at, 0, sizeof(at));
	memset(pal, 0, sizeof(pal));
	switch (k) {
	G(tsm_screen_new(NULL, NULL, NULL));
	U(tsm_screen_ref(none));
	U(tsm_screen_unref(none));
	G(tsm_screen_get_width(none));
	G(tsm_screen_get_height(none));
	G(tsm_screen_resize(none, 5, 5));
	G(tsm_screen_set_margins(none, 1, 3));
	U(tsm_screen_set_max_sb(none, 5));
	U(tsm_screen_clear_sb(none));
	U(tsm_screen_sb_up(none, 1));
	U(tsm_screen_sb_down(none, 1));
	U(tsm_screen_sb_page_up(none, 1));
	U(tsm_screen_sb_page_down(none, 1));
	U(tsm_screen_sb_reset(none));
	G(tsm_screen_sb_get_line_count(none));
	G(tsm_screen_sb_get_line_pos(none));
	U(tsm_screen_set_def_attr(none, &at));
	U(tsm_screen_set_def_attr(none, NULL));
	U(tsm_screen_reset(none));
	U(tsm_screen_set_flags(none, TSM_SCREEN_ALTERNATE));
	U(tsm_screen_reset_flags(none, TSM_SCREEN_ALTERNATE));
	G(tsm_screen_get_flags(none));
	G(tsm_screen_get_cursor_x(none));
	G(tsm_screen_get_cursor_y(none));
	U(tsm_screen_set_tabstop(none));
	U(tsm_screen_reset_tabstop(none));
	U(tsm_screen_reset_all_tabstops(none));
	U(tsm_screen_write(none, 'a', &at));
	U(tsm_screen_newline(none));
	U(tsm_screen_scroll_up(none, 1));
	U(tsm_screen_scroll_down(none, 1));
	U(tsm_screen_move_to(none, 1, 1));
	U(tsm_screen_move_up(none, 1, true));
	U(tsm_screen_move_down(none, 1, true));
	U(tsm_screen_move_left(none, 1));
	U(tsm_screen_move_right(none, 1));
	U(tsm_screen_move_line_end(none));
	U(tsm_screen_move_line_home(none));
	U(tsm_screen_tab_right(none, 1));
	U(tsm_screen_tab_left(none, 1));
	U(tsm_screen_insert_lines(none, 1));
	U(tsm_screen_delete_lines(none, 1));
	U(tsm_screen_insert_chars(none, 1));
	U(tsm_screen_delete_chars(none, 1));
	U(tsm_screen_erase_cursor(none));
	U(tsm_screen_erase_chars(none, 1));
	U(tsm_screen_erase_cursor_to_end(none, false));
	U(tsm_screen_erase_home_to_cursor(none, false));
	U(tsm_screen_erase_current_line(none, true));
	U(tsm_screen_erase_screen_to_cursor(none, false));
	U(tsm_screen_erase_cursor_to_screen(none, true));
	U(tsm_screen_erase_screen(none, false));
	U(tsm_screen_selection_reset(none));
	U(tsm_screen_selection_start(none, 0, 0));
	U(tsm_screen_selection_target(none, 1, 1));
	G(tsm_screen_selection_copy(none, &out));
	G(tsm_screen_draw(none, draw_cb, NULL));
	U(tsm_screen_set_opts(none, 1));
	U(tsm_screen_reset_opts(none, 1));
	G(tsm_screen_get_opts(none));
	G(tsm_vte_new(&vte, none, write_cb, NULL, NULL, NULL));
	U(tsm_vte_ref(v0));
	U(tsm_vte_unref(v0));
	U(tsm_vte_set_osc_cb(v0, NULL, NULL));
	U(tsm_vte_set_mouse_cb(v0, NULL, NULL));
	G(tsm_vte_set_palette(v0, "solarized"));
	G(tsm_vte_set_palette(v0, NULL));
	G(tsm_vte_set_custom_palette(v0, pal));
	G(tsm_vte_set_custom_palette(v0, NULL));
	U(tsm_vte_get_def_attr(v0, &at));
	U(tsm_vte_get_def_attr(v0, NULL));
	G(tsm_vte_get_flags(v0));
	G(tsm_vte_get_mouse_mode(v0));
	G(tsm_vte_get_mouse_event(v0));
	U(tsm_vte_reset(v0));
	U(tsm_vte_hard_reset(v0));
	U(tsm_vte_input(v0, "x", 1));
	U(tsm_vte_set_backspace_sends_delete(v0, true));
	G(tsm_vte_handle_keyboard(v0, 'a', 'a', TSM_ALT_MASK, 'a'));
	G(tsm_vte_handle_mouse(v0, 1, 1, 1, 1, TSM_MOUSE_BUTTON_LEFT,
			       TSM_MOUSE_EVENT_PRESSED, 0));
	G(tsm_symbol_table_new(NULL));
	U(tsm_symbol_table_ref(t0));
	U(tsm_symbol_table_unref(t0));
	G(tsm_symbol_append(t0, 'a', 0x301) == 'a');
	G(*tsm_symbol_get(t0, &sym, &n) == 'a' && n == 1);
	G(*tsm_symbol_get(t0, &sym, NULL) == 'a');
	G(tsm_symbol_get_width(t0, 'a'));
	G(tsm_utf8_mach_new(NULL));
	U(tsm_utf8_mach_free(m0));
	G(tsm_utf8_mach_feed(m0, 'a') == TSM_UTF8_START);
	G(tsm_utf8_mach_get(m0));
	U(tsm_utf8_mach_reset(m0));
	G(shl_array_new(NULL, 4, 4));
	G(shl_array_new(&a0, 0, 4));
	U(shl_array_free(a0));
	G(shl_array_zresize(a0, 5));
	G(shl_array_push(a0, &x));
	U(shl_array_pop(a0));
	G(shl_array_get_array(a0));
	G(shl_array_get_length(a0));
	G(shl_array_get_bsize(a0));
	G(shl_array_get_element_size(a0));
	G(shl_pty_open(NULL, input_cb, NULL, 80, 24));
	U(shl_pty_ref(p0));
	U(shl_pty_unref(p0));
	U(shl_pty_close(p0));
	G(shl_pty_is_open(p0));
	G(shl_pty_get_fd(p0));
	G(shl_pty_get_child(p0));
	G(shl_pty_dispatch(p0));
	G(shl_pty_write(p0, "x", 1));
	G(shl_pty_signal(p0, 9));
	G(shl_pty_resize(p0, 80, 24));
	U(shl_pty_bridge_free(-1));
	G(shl_pty_bridge_dispatch(-1, 0));
	G(shl_pty_bridge_dispatch_pty(-1, p0));
	G(shl_pty_bridge_dispatch_pty(0, p0));
	G(shl_pty_bridge_add(-1, p0));
	G(shl_pty_bridge_add(0, p0));
	U(shl_pty_bridge_remove(-1, p0));
	U(shl_pty_bridge_remove(0, p0));
	default:
		break;
	}
	/* with an object, but without something else */
	if (tsm_screen_new(&scr, NULL, NULL))
		return -1000;
	if (tsm_vte_new(&vte, scr, write_cb, NULL, NULL, NULL)) {
		tsm_screen_unref(scr);
		return -1000;
	}
	tsm_vte_get_def_attr(vte, &at);
	switch (k - __COUNTER__ + NULLS) {
	case 0:
		name = "tsm_vte_new without a callback";
		k = tsm_vte_new(&v0, scr, NULL, NULL, NULL, NULL);
		k = v0 ? -1001 : k;
		break;
	case 1:
		name = "tsm_vte_new without result";
		k = tsm_vte_new(NULL, scr, write_cb, NULL, NULL, NULL);
		break;
	case 2:
		name = "tsm_screen_selection_copy without result";
		tsm_screen_selection_start(scr, 0, 0);
		k = tsm_screen_selection_copy(scr, NULL);
		break;
	case 3:
		name = "tsm_screen_draw without a callback";
		k = tsm_screen_draw(scr, NULL, NULL);
		break;
	case 4:
		name = "tsm_vte_get_def_attr without result";
		tsm_vte_get_def_attr(vte, NULL);
		k = 0;
		break;
	case 5:
		name = "tsm_screen_set_def_attr without attributes";
		tsm_screen_set_def_attr(scr, NULL);
		k = 0;
		break;
	case 6:
		name = "tsm_vte_input of nothing";
		tsm_vte_input(vte, NULL, 0);
		k = 0;
		break;
	case 7:
		name = "without any callback";
		tsm_vte_set_osc_cb(vte, NULL, NULL);
		tsm_vte_set_mouse_cb(vte, NULL, NULL);
		tsm_vte_input(vte, "\e]0;a\a\e[?9;1000;1003;1006;1016h", 31);
		k = 0;
		break;
	case 8:
		name = "shl_array_push of nothing";
		if (shl_array_new(&arr, 4, 4)) {
			k = -1000;
			break;
		}
		k = shl_array_push(arr, NULL);
		shl_array_free(arr);
		break;
	case 9:
		name = "many lines with little stack";
		k = many();
		break;
	case 10:
		name = "copying narrow lines on a very wide screen";
		k = wide();
		break;
	default:
		k = 1000;
	}
	tsm_vte_unref(vte);
	tsm_screen_unref(scr);
	return k;
}

static void step(char *line)
{
	char op[16];
	long k = 0, a = 0, b = 0, r = 0, before;
	struct tsm_screen *s;
	struct tsm_screen_attr at;
	struct obj *o;
	bool none = false;
	char c;
	pid_t pid;

	if (sscanf(line, "%15s %ld %ld %ld", op, &k, &a, &b) < 1)
		exit(4);
	if (!strcmp(op, "fail")) {
		fail_at = k;
		fail_on = a;
		printf("{\"o\":[\"fail\"]}");
		return;
	}
	if (k < 0 || k >= N)
		exit(4);
	o = &objs[k];
	failed = 0;
	allocs = 0;
	before = live;
	name = "";
	if (!strcmp(op, "null")) {
		fail_at = 0;
		r = LIB(nulls(a));
	} else if (strstr(op, "new")) {
		none = there(k);
		if (none)
			;
		else if (*op == 's') {
			s = NULL;
			r = LIB(tsm_screen_new(&s, NULL, NULL));
			o->scr = o->p = s;
			if (!r && a) {
				/* this may fail as well, but nothing is lost */
				LIB(tsm_screen_resize(s, a, b));
			}
		} else if (*op == 'v') {
			int n = VTE(a) ? objs[a].s : a;

			if (a < 0 || a >= 8 || !there(a)) {
				none = true;
			} else {
				s = objs[a].scr;
				o->p = NULL;
				r = LIB(tsm_vte_new((struct tsm_vte**)&o->p, s,
						    write_cb, o, NULL, NULL));
				if (!r) {
					o->scr = s;
					o->s = n;
					objs[n].held++;
				}
			}
		} else if (*op == 't') {
			struct tsm_symbol_table *t = NULL;

			r = LIB(tsm_symbol_table_new(&t));
			o->p = t;
		} else {
			struct shl_pty *p = NULL;

			fflush(stdout);
			pid = LIB(shl_pty_open(&p, input_cb, o, 80, 24));
			if (!pid)
				_exit(0);
			r = pid < 0 ? pid : 0;
			if (!r) {
				waitpid(pid, NULL, 0);
				o->p = p;
				o->fd = shl_pty_get_fd(p);
				o->shut = false;
			}
		}
		if (!none && !r)
			o->app = 1;
		else if (!none)
			o->p = NULL;
	} else if (!strcmp(op, "ref") || !strcmp(op, "unref")) {
		/* the application has no reference that it could drop */
		none = o->app == 0;
		if (none)
			;
		else if (*op == 'r') {
			o->app++;
			if (SYM(k))
				LIBV(tsm_symbol_table_ref(o->p));
			else if (PTY(k))
				LIBV(shl_pty_ref(o->p));
			else if (VTE(k))
				LIBV(tsm_vte_ref(o->p));
			else
				LIBV(tsm_screen_ref(o->p));
		} else {
			o->app--;
			if (SYM(k))
				LIBV(tsm_symbol_table_unref(o->p));
			else if (PTY(k))
				LIBV(shl_pty_unref(o->p));
			else if (VTE(k))
				LIBV(tsm_vte_unref(o->p));
			else
				LIBV(tsm_screen_unref(o->p));
			if (VTE(k) && !o->app && --objs[o->s].held == 0 &&
			    !objs[o->s].app)
				gone(o->s);
			if (!o->app && PTY(k) && !o->shut &&
			    fcntl(o->fd, F_GETFD) >= 0) {
				close(o->fd);
				r = 1;	/* still open */
			}
			if (!there(k))
				gone(k);
		}
	} else if (!there(k)) {
		none = true;
	} else if (!strcmp(op, "close")) {
		none = !PTY(k);
		if (PTY(k)) {
			LIBV(shl_pty_close(o->p));
			r = !o->shut && fcntl(o->fd, F_GETFD) >= 0;
			o->shut = true;
		}
	} else if (!strcmp(op, "busy")) {
		LIBV(busy(o, k, a));
	} else if (!strcmp(op, "put")) {
		memset(&at, 0, sizeof(at));
		c = a;
		if (SYM(k)) {
			o->sym = LIB(tsm_symbol_append(o->p, a, 0x301));
		} else if (PTY(k)) {
			r = LIB(shl_pty_write(o->p, &c, 1));
		} else {
			/* so that it can be seen */
			LIBV(tsm_screen_sb_reset(o->scr));
			LIBV(tsm_screen_reset_flags(o->scr,
						    TSM_SCREEN_INSERT_MODE |
						    TSM_SCREEN_REL_ORIGIN));
			if (VTE(k)) {
				char in[] = { '\x18', '\x0f', '\x1b', '[', 'H',
					      c };

				LIBV(tsm_vte_input(o->p, in, sizeof(in)));
			} else {
				LIBV(tsm_screen_move_to(o->scr, 0, 0));
				LIBV(tsm_screen_write(o->scr, a, &at));
			}
		}
	} else if (!strcmp(op, "see")) {
		seen = -1;
		if (SYM(k)) {
			size_t n = 0;
			const uint32_t *u = LIB(tsm_symbol_get(o->p, &o->sym,
							       &n));

			seen = n == 2 && u[1] == 0x301 ? u[0] : n == 1 ? u[0] :
				-2;
		} else if (PTY(k)) {
			bool is = LIB(shl_pty_is_open(o->p));

			k = LIB(shl_pty_get_fd(o->p));
			seen = o->shut ? (is || k >= 0 ? 2 : 0) :
				is && k == o->fd && fcntl(o->fd, F_GETFD) >= 0;
			k = o - objs;
		} else {
			LIB(tsm_screen_draw(o->scr, draw_cb, NULL));
		}
		r = seen;
	} else {
		exit(4);
	}
	printf("{\"o\":[\"%s\",%ld,%ld,%ld],\"n\":%d,\"r\":%ld,\"f\":%d,"
	       "\"b\":%ld,\"m\":%ld", op, k, a, b, none, r, failed, before,
	       live);
	if (*name) {
		printf(",\"w\":\"");
		for (; *name; name++)
			if (*name != '"')
				putchar(*name);
		printf("\"");
	}
	printf("}");
	fail_at = 0;
}

int main(void)
{
	static char line[4096];
	char id[256];
	bool open = false, sep = false;
	int i, fd;

	fd = posix_openpt(O_RDWR | O_NOCTTY | O_CLOEXEC);
	if (fd < 0) {
		fprintf(stderr, "no terminals here\n");
		return 4;
	}
	close(fd);
	while (fgets(line, sizeof(line), stdin)) {
		if (line[0] == 'T' && line[1] == ' ') {
			sscanf(line + 2, "%255s", id);
			printf("{\"id\":\"%s\",\"steps\":[", id);
			open = true;
			sep = false;
			memset(objs, 0, sizeof(objs));
			continue;
		}
		if (line[0] == 'E' && (line[1] == '\n' || !line[1])) {
			/* terminals first, then what they hold */
			for (i = 0; i < N; ++i) {
				int k = (i + 4) % N;

				while (objs[k].app > 0) {
					objs[k].app--;
					if (VTE(k))
						tsm_vte_unref(objs[k].p);
					else if (SYM(k))
						tsm_symbol_table_unref(objs[k].p);
					else if (PTY(k))
						shl_pty_unref(objs[k].p);
					else
						tsm_screen_unref(objs[k].p);
				}
			}
			fd = dup(0);
			printf("],\"left\":%ld,\"fds\":%d}\n", live, fd);
			close(fd);
			fflush(stdout);
			/* the next trace starts from nothing */
			live = 0;
			open = false;
			continue;
		}
		if (!open)
			exit(4);
		if (sep)
			printf(",");
		sep = true;
		step(line);
	}
	return 0;
}
