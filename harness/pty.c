/*
 * Drives the PTY objects and the bridge and records what can be observed.
 * The terminal itself is simulated: reads, writes and polls of the master
 * are answered as the script says, in the least helpful way the kernel is
 * allowed to (an event only when something becomes possible that was not).
 * Bytes of a stream are numbered modulo 251.
 *
 *  open P, close P, ref P, unref P, add P, remove P, bridge, free
 *  write P N      the application queues N bytes
 *  disp           shl_pty_bridge_dispatch
 *  call P         shl_pty_bridge_dispatch_pty
 *  direct P       shl_pty_dispatch
 *  echo P N       the next call of the input callback queues N bytes
 *  fail K [1]     see alloc.h
 *  sysfail K      the K-th call that makes a terminal fails
 *  cw P N         the client writes N bytes
 *  cr P N         the client reads: there is room for N more bytes
 *  hup P, reopen P
 *  at K ACTION    do one of these before the K-th system call of the next
 *                 operation; also: limit P N (the next transfer has at most
 *                 N bytes), intr (that call is interrupted), flood P N
 *                 (client writes N bytes before every system call)
 */
#include <errno.h>
#include <fcntl.h>
#include <stdbool.h>
#include <stdio.h>
#include <sys/epoll.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>
#include "shl-pty.h"
#include "alloc.h"

#define MOD 251
#define NPTY 4
#define MAXCALLS 2000

ssize_t __real_read(int fd, void *buf, size_t n);
ssize_t __real_write(int fd, const void *buf, size_t n);
ssize_t __real_readv(int fd, const struct iovec *v, int n);
ssize_t __real_writev(int fd, const struct iovec *v, int n);
int __real_posix_openpt(int fl);
int __real_pipe2(int *p, int fl);
pid_t __real_fork(void);
int __real_close(int fd);
int __real_epoll_ctl(int ep, int op, int fd, struct epoll_event *ev);
int __real_epoll_wait(int ep, struct epoll_event *ev, int n, int t);

struct sim {
	struct shl_pty *pty;
	long refs;
	int fd;			/* -1: closed */
	long inq, sent;		/* bytes to read, number of the last one */
	long room;
	bool hup;
	long limit, flood;
	long queued;		/* by the application */
	long echo;
	/* epoll */
	bool reg, ready;
	int stamp;		/* order of becoming ready */
	uint32_t mask;
	epoll_data_t data;
};
static struct sim sims[NPTY];
static int bridge = -1, stamps;
static bool simulating, first_event;
static long calls, maxcalls;
static bool intr, callback;

struct action {
	long at;
	char what[16];
	long p, n;
};
static struct action acts[256];
static int nacts;

static void ev_start(void)
{
	printf(first_event ? "[" : ",[");
	first_event = false;
}

static struct sim *sim_fd(int fd)
{
	int i;

	if (!simulating || fd < 0)
		return NULL;
	for (i = 0; i < NPTY; ++i)
		if (sims[i].fd == fd)
			return &sims[i];
	return NULL;
}
#define NUM(_s) ((int)((_s) - sims))

static uint32_t polled(struct sim *s)
{
	uint32_t r = 0;

	if (s->inq > 0 || s->hup)
		r |= EPOLLIN;
	if (s->room > 0 || s->hup)
		r |= EPOLLOUT;
	if (s->hup)
		r |= EPOLLHUP;
	return r & (s->mask | EPOLLHUP | EPOLLERR);
}

static void become_ready(struct sim *s)
{
	if (!s->ready)
		s->stamp = ++stamps;
	s->ready = true;
}

static void edge(struct sim *s, uint32_t bits)
{
	if (s->reg && (bits & (s->mask | EPOLLHUP | EPOLLERR)))
		become_ready(s);
}

/* what the rest of the world does */
static bool act(const char *what, long p, long n)
{
	struct sim *s = &sims[p];

	if (!strcmp(what, "intr")) {
		intr = true;
		return true;
	}
	if (p < 0 || p >= NPTY)
		exit(4);
	if (!strcmp(what, "limit")) {
		s->limit = n;
		return true;
	}
	if (!strcmp(what, "flood")) {
		s->flood = n;
		return true;
	}
	if (s->fd < 0)
		return true;
	if (!strcmp(what, "cw")) {
		if (s->hup || n <= 0)
			return true;
		ev_start();
		printf("\"cw\",%ld,%ld]", p, n);
		s->inq += n;
		s->sent += n;
		if (s->inq == n)
			edge(s, EPOLLIN);
	} else if (!strcmp(what, "cr")) {
		if (s->hup || n <= 0)
			return true;
		ev_start();
		printf("\"cr\",%ld,%ld]", p, n);
		s->room += n;
		if (s->room == n)
			edge(s, EPOLLOUT);
	} else if (!strcmp(what, "hup")) {
		if (s->hup)
			return true;
		ev_start();
		printf("\"hup\",%ld]", p);
		s->hup = true;
		edge(s, EPOLLHUP | EPOLLIN | EPOLLOUT);
	} else if (!strcmp(what, "reopen")) {
		if (!s->hup)
			return true;
		ev_start();
		printf("\"reopen\",%ld]", p);
		s->hup = false;
		edge(s, (s->inq ? EPOLLIN : 0) | (s->room ? EPOLLOUT : 0));
	} else {
		return false;
	}
	return true;
}

/* returns true if the call is interrupted */
static bool enter(void)
{
	int i;

	++calls;
	if (calls > maxcalls)
		maxcalls = calls;
	if (calls > MAXCALLS) {
		for (i = 0; i < NPTY; ++i)
			sims[i].flood = 0;
		intr = false;
		return false;
	}
	for (i = 0; i < nacts; ++i)
		if (acts[i].at == calls)
			act(acts[i].what, acts[i].p, acts[i].n);
	for (i = 0; i < NPTY; ++i)
		if (sims[i].flood)
			act("cw", i, sims[i].flood);
	if (intr) {
		intr = false;
		errno = EINTR;
		return true;
	}
	return false;
}

static void print_err(ssize_t r)
{
	printf("%ld,\"%s\"]", (long)r, r >= 0 ? "" : errno == EAGAIN ? "again" :
	       errno == EINTR ? "intr" : errno == EIO ? "io" :
	       errno == ENOENT ? "noent" : errno == EEXIST ? "exist" :
	       errno == EBADF ? "badf" : "other");
}

static size_t total(const struct iovec *v, int n)
{
	size_t r = 0;

	while (n-- > 0)
		r += v[n].iov_len;
	return r;
}

static ssize_t sim_readv(struct sim *s, const struct iovec *v, int n)
{
	ssize_t r;
	long k, i, j, max = total(v, n);
	int e = 0;

	if (enter()) {
		r = -1;
		e = EINTR;
	} else if (s->inq == 0) {
		r = -1;
		e = s->hup ? EIO : EAGAIN;
	} else {
		k = s->inq;
		if (k > max)
			k = max;
		if (s->limit > 0 && k > s->limit)
			k = s->limit;
		s->limit = 0;
		for (i = 0, j = 0; i < k; ++i) {
			while (v->iov_len <= (size_t)j)
				++v, j = 0;
			((uint8_t*)v->iov_base)[j++] =
				(s->sent - s->inq + i) % MOD;
		}
		s->inq -= k;
		r = k;
	}
	errno = e;
	ev_start();
	printf("\"read\",%d,%ld,", NUM(s), max);
	print_err(r);
	errno = e;
	return r;
}

static void runs(const struct iovec *v, size_t n, long max)
{
	long start = -1, len = 0;
	bool first = true;
	size_t i, j;

	printf("[");
	for (i = 0; i < n; ++i)
		for (j = 0; j < v[i].iov_len && max-- > 0; ++j) {
			int b = ((uint8_t*)v[i].iov_base)[j];

			if (len && b == (start + len) % MOD && b < MOD) {
				len++;
				continue;
			}
			if (len)
				printf("%s[%ld,%ld]", first ? "" : ",", start,
				       len);
			if (len)
				first = false;
			start = b;
			len = 1;
		}
	if (len)
		printf("%s[%ld,%ld]", first ? "" : ",", start, len);
	printf("]");
}

static ssize_t sim_writev(struct sim *s, const struct iovec *v, int n)
{
	ssize_t r;
	long k, max = total(v, n);
	int e = 0;

	if (enter()) {
		r = -1;
		e = EINTR;
	} else if (s->hup) {
		r = -1;
		e = EIO;
	} else if (s->room == 0 && max > 0) {
		r = -1;
		e = EAGAIN;
	} else {
		k = max;
		if (k > s->room)
			k = s->room;
		if (s->limit > 0 && k > s->limit)
			k = s->limit;
		s->limit = 0;
		s->room -= k;
		r = k;
	}
	ev_start();
	printf("\"write\",%d,%ld,", NUM(s), max);
	runs(v, n, r > 0 ? r : 0);
	printf(",");
	errno = e;
	print_err(r);
	errno = e;
	return r;
}

/* the K-th of the calls that make a terminal fails */
static long sysfail;

static bool refuse(void)
{
	if (sysfail <= 0 || --sysfail)
		return false;
	failed++;
	errno = EMFILE;
	return true;
}

int __wrap_posix_openpt(int fl)
{
	return refuse() ? -1 : __real_posix_openpt(fl);
}

int __wrap_pipe2(int *p, int fl)
{
	return refuse() ? -1 : __real_pipe2(p, fl);
}

pid_t __wrap_fork(void)
{
	return refuse() ? -1 : __real_fork();
}

ssize_t __wrap_read(int fd, void *buf, size_t n)
{
	struct sim *s = sim_fd(fd);
	struct iovec v = { buf, n };

	return s ? sim_readv(s, &v, 1) : __real_read(fd, buf, n);
}

ssize_t __wrap_readv(int fd, const struct iovec *v, int n)
{
	struct sim *s = sim_fd(fd);

	return s ? sim_readv(s, v, n) : __real_readv(fd, v, n);
}

ssize_t __wrap_write(int fd, const void *buf, size_t n)
{
	struct sim *s = sim_fd(fd);
	struct iovec v = { (void*)buf, n };

	return s ? sim_writev(s, &v, 1) : __real_write(fd, buf, n);
}

ssize_t __wrap_writev(int fd, const struct iovec *v, int n)
{
	struct sim *s = sim_fd(fd);

	return s ? sim_writev(s, v, n) : __real_writev(fd, v, n);
}

int __wrap_close(int fd)
{
	struct sim *s = sim_fd(fd);

	if (s) {
		ev_start();
		printf("\"close\",%d]", NUM(s));
		s->fd = -1;
		s->reg = s->ready = false;
	}
	return __real_close(fd);
}

int __wrap_epoll_ctl(int ep, int op, int fd, struct epoll_event *ev)
{
	struct sim *s = sim_fd(fd);
	int r = 0, e = 0;

	if (!simulating)
		return __real_epoll_ctl(ep, op, fd, ev);
	if (ep != bridge || !s) {
		ev_start();
		printf("\"badctl\"]");
		errno = EBADF;
		return -1;
	}
	enter();
	if (op == EPOLL_CTL_ADD ? s->reg : !s->reg) {
		r = -1;
		e = s->reg ? EEXIST : ENOENT;
	} else if (op == EPOLL_CTL_DEL) {
		s->reg = s->ready = false;
	} else {
		s->reg = true;
		s->mask = ev->events;
		s->data = ev->data;
		if (polled(s))
			become_ready(s);
		else
			s->ready = false;
	}
	errno = e;
	ev_start();
	printf("\"ctl\",%d,\"%s\",%d,%d,%d,", NUM(s),
	       op == EPOLL_CTL_ADD ? "add" : op == EPOLL_CTL_DEL ? "del" :
	       "mod", op != EPOLL_CTL_DEL && (ev->events & EPOLLIN) != 0,
	       op != EPOLL_CTL_DEL && (ev->events & EPOLLOUT) != 0,
	       op != EPOLL_CTL_DEL && (ev->events & EPOLLET) != 0);
	print_err(r);
	errno = e;
	return r;
}

int __wrap_epoll_wait(int ep, struct epoll_event *ev, int max, int t)
{
	struct sim *s, *b;
	int i, n = 0;

	if (!simulating)
		return __real_epoll_wait(ep, ev, max, t);
	if (ep != bridge) {
		ev_start();
		printf("\"badwait\"]");
		errno = EBADF;
		return -1;
	}
	if (enter()) {
		ev_start();
		printf("\"wait\",[],-1,\"intr\"]");
		errno = EINTR;
		return -1;
	}
	if (max > NPTY)
		max = NPTY;
	ev_start();
	printf("\"wait\",[");
	while (n < max) {
		for (b = NULL, i = 0; i < NPTY; ++i) {
			s = &sims[i];
			if (s->reg && !(s->mask & EPOLLET) && polled(s))
				become_ready(s);
			if (s->reg && s->ready && (!b || s->stamp < b->stamp))
				b = s;
		}
		if (!b)
			break;
		b->ready = false;
		if (!polled(b))
			continue;
		ev[n].events = polled(b);
		ev[n].data = b->data;
		printf(n ? ",%d" : "%d", NUM(b));
		n++;
	}
	printf("],%d,\"\"]", n);
	return n;
}

int __wrap_epoll_pwait(int ep, struct epoll_event *ev, int max, int t,
		       const sigset_t *ss)
{
	return __wrap_epoll_wait(ep, ev, max, t);
}

static int lib_write(struct sim *s, long n)
{
	char *buf = __real_malloc(n ? n : 1);
	long i;
	int r;

	for (i = 0; i < n; ++i)
		buf[i] = (s->queued + i) % MOD;
	r = LIB(shl_pty_write(s->pty, buf, n));
	__real_free(buf);
	ev_start();
	printf("\"queue\",%d,%ld,%d]", NUM(s), n, r);
	if (!r)
		s->queued += n;
	return r;
}

static void input(struct shl_pty *pty, void *data, char *u8, size_t len)
{
	struct sim *s = data;
	struct iovec v = { u8, len };
	int lib = in_lib;
	long n;

	in_lib = 0;
	ev_start();
	printf("\"in\",%d,%d,", NUM(s), s->pty == pty);
	runs(&v, 1, len);
	printf("]");
	if (s->echo) {
		n = s->echo;
		s->echo = 0;
		lib_write(s, n);
	}
	in_lib = lib;
}

/* a terminal whose client is not there any more, but simulated from here */
static long do_open(struct sim *s)
{
	pid_t pid;
	struct shl_pty *p = NULL;

	simulating = false;
	fflush(stdout);
	pid = LIB(shl_pty_open(&p, input, s, 80, 24));
	if (!pid)
		_exit(0);
	simulating = true;
	if (pid < 0)
		return pid;
	waitpid(pid, NULL, 0);
	memset(s, 0, sizeof(*s));
	s->pty = p;
	s->refs = 1;
	s->fd = LIB(shl_pty_get_fd(p));
	return 0;
}

static void drop(struct sim *s)
{
	LIBV(shl_pty_unref(s->pty));
	if (--s->refs == 0) {
		s->pty = NULL;
		if (s->fd >= 0) {
			ev_start();
			printf("\"leakfd\",%d]", NUM(s));
			__real_close(s->fd);
			s->fd = -1;
		}
	}
}

static void step(char *line)
{
	char op[16], what[16];
	long a = 0, b = 0, c = 0, r = 0;
	struct sim *s;
	int n;

	n = sscanf(line, "%15s", op);
	if (n != 1)
		exit(4);
	if (!strcmp(op, "at")) {
		if (sscanf(line, "%*s %ld %15s %ld %ld", &a, what, &b, &c) < 2)
			exit(4);
		if (nacts < 256) {
			acts[nacts].at = a;
			strcpy(acts[nacts].what, what);
			acts[nacts].p = b;
			acts[nacts++].n = c;
		}
		printf("{\"o\":[\"at\"]}");
		return;
	}
	sscanf(line, "%*s %ld %ld", &a, &b);
	if (!strcmp(op, "sysfail")) {
		sysfail = a;
		printf("{\"o\":[\"fail\"]}");
		return;
	}
	if (!strcmp(op, "fail")) {
		fail_at = a;
		fail_on = b;
		printf("{\"o\":[\"fail\"]}");
		return;
	}
	if (a < 0 || a >= NPTY)
		exit(4);
	s = &sims[a];
	if (!strcmp(op, "echo")) {
		s->echo = b;
		printf("{\"o\":[\"echo\"]}");
		return;
	}
	failed = 0;
	allocs = 0;
	calls = 0;
	intr = false;
	printf("{\"o\":[\"%s\",%ld,%ld],\"v\":[", op, a, b);
	first_event = true;
	if (!strcmp(op, "open")) {
		if (!s->pty) {
			r = do_open(s);
			if (!r) {
				ev_start();
				printf("\"open\",%ld,%d]", a,
				       LIB(shl_pty_is_open(s->pty)));
			}
		}
	} else if (!strcmp(op, "bridge")) {
		if (bridge < 0) {
			bridge = LIB(shl_pty_bridge_new());
			r = bridge < 0 ? bridge : 0;
		}
	} else if (!strcmp(op, "disp")) {
		if (bridge >= 0)
			r = LIB(shl_pty_bridge_dispatch(bridge, 0));
	} else if (!strcmp(op, "add")) {
		if (s->pty && bridge >= 0)
			r = LIB(shl_pty_bridge_add(bridge, s->pty));
	} else if (!strcmp(op, "remove")) {
		if (s->pty && bridge >= 0)
			LIBV(shl_pty_bridge_remove(bridge, s->pty));
	} else if (!strcmp(op, "call")) {
		if (s->pty && bridge >= 0)
			r = LIB(shl_pty_bridge_dispatch_pty(bridge, s->pty));
	} else if (!strcmp(op, "direct")) {
		if (s->pty)
			r = LIB(shl_pty_dispatch(s->pty));
	} else if (!strcmp(op, "write")) {
		if (s->pty)
			r = lib_write(s, b);
	} else if (!strcmp(op, "close")) {
		if (s->pty)
			LIBV(shl_pty_close(s->pty));
	} else if (!strcmp(op, "ref")) {
		if (s->pty) {
			LIBV(shl_pty_ref(s->pty));
			s->refs++;
		}
	} else if (!strcmp(op, "unref")) {
		if (s->pty)
			drop(s);
	} else if (act(op, a, b)) {
		;
	} else {
		fprintf(stderr, "unknown operation %s\n", op);
		exit(4);
	}
	/* what comes later than the last of the calls */
	for (n = 0; n < nacts; ++n)
		if (acts[n].at > calls && strcmp(acts[n].what, "intr"))
			act(acts[n].what, acts[n].p, acts[n].n);
	printf("],\"r\":%ld,\"e\":\"%s\",\"f\":%d,\"c\":%ld,\"s\":[", r,
	       r >= 0 ? "" : r == -EAGAIN ? "again" : r == -ENODEV ? "nodev" :
	       r == -ENOMEM ? "nomem" : r == -EIO ? "io" : r == -EPIPE ?
	       "pipe" : r == -EINVAL ? "inval" : r == -EEXIST ? "exist" :
	       "other", failed, calls);
	/* what the kernel has, and what the object says */
	for (n = 0; n < NPTY; ++n) {
		s = &sims[n];
		printf("%s[%ld,%ld,%d,%d,%d,%d]", n ? "," : "", s->inq,
		       s->room, s->reg, s->ready,
		       s->pty ? LIB(shl_pty_is_open(s->pty)) : -1,
		       s->pty ? LIB(shl_pty_get_fd(s->pty)) == s->fd ||
		       (s->fd < 0 && LIB(shl_pty_get_fd(s->pty)) == -EPIPE) :
		       -1);
	}
	printf("]}");
	nacts = 0;
	intr = false;
	for (n = 0; n < NPTY; ++n)
		sims[n].flood = sims[n].limit = sims[n].echo = 0;
	fail_at = 0;
	sysfail = 0;
}

int main(void)
{
	static char line[1 << 16];
	char id[256];
	bool open = false, sep = false;
	int i, fd;

	fd = posix_openpt(O_RDWR | O_NOCTTY | O_CLOEXEC);
	if (fd < 0) {
		fprintf(stderr, "no terminals here\n");
		return 4;
	}
	__real_close(fd);
	for (i = 0; i < NPTY; ++i)
		sims[i].fd = -1;
	simulating = true;
	while (fgets(line, sizeof(line), stdin)) {
		if (line[0] == 'T' && line[1] == ' ') {
			sscanf(line + 2, "%255s", id);
			fd = dup(0);
			__real_close(fd);
			printf("{\"id\":\"%s\",\"fds0\":%d,\"steps\":[", id,
			       fd);
			open = true;
			sep = false;
			continue;
		}
		if (line[0] == 'E' && (line[1] == '\n' || !line[1])) {
			printf("],\"end\":[");
			first_event = true;
			for (i = 0; i < NPTY; ++i)
				while (sims[i].pty)
					drop(&sims[i]);
			if (bridge >= 0)
				LIBV(shl_pty_bridge_free(bridge));
			bridge = -1;
			fd = dup(0);
			printf("],\"left\":%ld,\"fds\":%d}\n", live, fd);
			__real_close(fd);
			fflush(stdout);
			open = false;
			continue;
		}
		if (!open)
			exit(4);
		if (sep)
			printf(",");
		sep = true;
		step(line);
	}
	return 0;
}
