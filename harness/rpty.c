/*
 * Runs children on real terminals made by shl_pty_open() and records what
 * they and the application see.
 *
 *  ignore S, block S, handle S   signals of the application
 *  std N          the application has no file descriptors below N
 *  fault NAME K [E]  the K-th call of NAME while opening fails; with E it is
 *                 interrupted instead
 *  open P W H, resize P W H, sig P S, close P, ref P, unref P
 *  q P            ask the child; info P; say P N V; hear P N V; exit P
 *  idle P         shl_pty_dispatch
 */
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdbool.h>
#include <stdio.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <termios.h>
#include <time.h>
#include <unistd.h>
#include <stdarg.h>
#include "shl-pty.h"
#include "alloc.h"

#define NPTY 3
#define MOD 251

void __sanitizer_set_report_fd(void *fd);

static struct slot {
	struct shl_pty *pty;
	pid_t pid;		/* 0: none, or gone */
	int cmd, rep;
	long refs;
	long bytes, start, wrong;
} slots[NPTY];

static struct shared {
	int fired, stray, extra;
} *shared;

static char fault[32];
static long fault_at;
static int fault_intr, opening, bridge = -1;
static char child_path[4096];

static bool hit(const char *name)
{
	if (!opening || !fault_at || strcmp(fault, name) || --fault_at)
		return false;
	shared->fired++;
	errno = fault_intr ? EINTR : EIO;
	return true;
}

#define WRAP0(_r, _n, _fail) \
	_r __real_##_n(void); \
	_r __wrap_##_n(void) { return hit(#_n) ? _fail : __real_##_n(); }
#define WRAP1(_r, _n, _a, _fail) \
	_r __real_##_n(_a a); \
	_r __wrap_##_n(_a a) { return hit(#_n) ? _fail : __real_##_n(a); }
#define WRAP2(_r, _n, _a, _b, _fail) \
	_r __real_##_n(_a a, _b b); \
	_r __wrap_##_n(_a a, _b b) \
	{ return hit(#_n) ? _fail : __real_##_n(a, b); }
#define WRAP3(_r, _n, _a, _b, _c, _fail) \
	_r __real_##_n(_a a, _b b, _c c); \
	_r __wrap_##_n(_a a, _b b, _c c) \
	{ return hit(#_n) ? _fail : __real_##_n(a, b, c); }
WRAP1(int, posix_openpt, int, -1)
WRAP2(int, pipe2, int*, int, -1)
WRAP3(int, sigprocmask, int, const sigset_t*, sigset_t*, -1)
WRAP1(int, grantpt, int, -1)
WRAP1(int, unlockpt, int, -1)
WRAP1(char*, ptsname, int, NULL)
WRAP0(pid_t, setsid, -1)
WRAP2(int, tcgetattr, int, struct termios*, -1)
WRAP3(int, tcsetattr, int, int, const struct termios*, -1)
WRAP2(int, dup2, int, int, -1)
WRAP3(ssize_t, read, int, void*, size_t, -1)
WRAP3(ssize_t, write, int, const void*, size_t, -1)
static pid_t forked;
pid_t __real_fork(void);
pid_t __wrap_fork(void)
{
	pid_t p = hit("fork") ? -1 : __real_fork();

	if (opening && p > 0)
		forked = p;
	return p;
}
int __real_ioctl(int fd, unsigned long r, void *p);
int __wrap_ioctl(int fd, unsigned long r, void *p)
{
	return hit("ioctl") ? -1 : __real_ioctl(fd, r, p);
}
int __real_open(const char *n, int fl, int m);
int __wrap_open(const char *n, int fl, ...)
{
	va_list a;
	int m = 0;

	if (hit("open"))
		return -1;
	if (fl & O_CREAT) {
		va_start(a, fl);
		m = va_arg(a, int);
		va_end(a);
	}
	return __real_open(n, fl, m);
}

static int count_fds(int from)
{
	DIR *d = opendir("/proc/self/fd");
	struct dirent *e;
	int n = 0;

	while (d && (e = readdir(d)))
		n += e->d_name[0] != '.' && atoi(e->d_name) >= from &&
			atoi(e->d_name) != dirfd(d);
	closedir(d);
	return n;
}
/* not counting what the harness fills in */
static int others(void);

/* a line from the child */
static bool hear(struct slot *s, char *b, int n)
{
	struct pollfd pf = { .fd = s->rep, .events = POLLIN };
	int k = 0;

	while (k < n - 1) {
		if (poll(&pf, 1, 10000) <= 0 ||
		    __real_read(s->rep, b + k, 1) != 1)
			return false;
		if (b[k] == '\n')
			break;
		k++;
	}
	b[k] = 0;
	return true;
}

static void input(struct shl_pty *pty, void *data, char *u8, size_t len)
{
	struct slot *s = data;
	size_t i;

	if (pty != s->pty)
		s->wrong++;
	for (i = 0; i < len; ++i, ++s->bytes)
		if ((unsigned char)u8[i] != (s->start + s->bytes) % MOD)
			s->wrong++;
}

static void gone(struct slot *s)
{
	if (s->pid > 0) {
		kill(s->pid, SIGKILL);
		waitpid(s->pid, NULL, 0);
		__real_write(-1, "", 0);
	}
	if (s->cmd > 0)
		close(s->cmd);
	if (s->rep > 0)
		close(s->rep);
	s->pid = 0;
	s->cmd = s->rep = 0;
}

static void noop(int s)
{
}

/* what the application has set up */
static int ignored[65], stds;

/* 0, 1 and 2 are not used by the harness, but filled */
static bool filled[3];

static void refill(void)
{
	int i, fd;

	for (i = 0; i < 3; ++i)
		if (fcntl(i, F_GETFD) < 0) {
			fd = __real_open("/dev/null", O_RDWR | O_CLOEXEC, 0);
			if (fd != i)
				exit(6);
			filled[i] = true;
		}
}

static int others(void)
{
	return count_fds(0) - filled[0] - filled[1] - filled[2];
}

static int move_fd(int fd)
{
	int r = fcntl(fd, F_DUPFD_CLOEXEC, 100);

	close(fd);
	return r;
}

static void do_open(struct slot *s, int p, int w, int h)
{
	int c[2], r[2], high, before, after, i, status = -1;
	long mem;
	char line[2000] = "", a[16], b[16], ready[16];
	pid_t me = getpid(), pid, x;
	sigset_t old, set;
	FILE *f, *tmp;
	struct stat_ { long n; } st;

	gone(s);
	if (s->refs) {
		while (s->refs--)
			LIBV(shl_pty_unref(s->pty));
		s->refs = 0;
	}
	/* its terminal may have been one of the first ones */
	refill();
	pipe(c);
	pipe(r);
	for (i = 0; i < 2; ++i) {
		c[i] = move_fd(c[i]);
		r[i] = move_fd(r[i]);
	}
	tmp = tmpfile();
	f = fdopen(fcntl(fileno(tmp), F_DUPFD_CLOEXEC, 100), "w+");
	fclose(tmp);
	fputs("x", f);
	fflush(stdout);
	before = others();
	high = count_fds(3);
	mem = live;
	shared->fired = shared->stray = 0;
	sigprocmask(SIG_SETMASK, NULL, &old);
	sigemptyset(&set);
	for (i = 1; i < 65; ++i) {
		if (ignored[i] == 1)
			signal(i, SIG_IGN);
		else if (ignored[i] == 2)
			sigaddset(&set, i);
		else if (ignored[i] == 3)
			signal(i, noop);
	}
	for (i = 0; i < stds; ++i)
		if (filled[i]) {
			close(i);
			filled[i] = false;
		}
	sigprocmask(SIG_SETMASK, &set, NULL);
	s->pty = NULL;
	s->bytes = s->start = s->wrong = 0;
	failed = 0;
	forked = 0;
	opening = 1;
	pid = LIB(shl_pty_open(&s->pty, input, s, w, h));
	opening = 0;
	if (getpid() != me) {
		if (pid || s->pty) {
			shared->stray = 1;
			_exit(3);
		}
		/* only its terminal is new */
		shared->extra = count_fds(3) - high;
		/* keeps stdin etc. as they are */
		fcntl(c[0], F_SETFD, 0);
		fcntl(r[1], F_SETFD, 0);
		sprintf(a, "%d", c[0]);
		sprintf(b, "%d", r[1]);
		execl(child_path, child_path, a, b, NULL);
		_exit(4);
	}
	refill();
	sigprocmask(SIG_SETMASK, &old, NULL);
	for (i = 1; i < 65; ++i) {
		if (ignored[i] && ignored[i] != 2)
			signal(i, SIG_DFL);
		ignored[i] = 0;
	}
	stds = 0;
	fault_at = 0;
	fault_intr = 0;
	close(c[0]);
	close(r[1]);
	s->cmd = c[1];
	s->rep = r[0];
	after = others() + 2;
	ftell(f);
	st.n = lseek(fileno(f), 0, SEEK_END);
	printf("\"r\":%d,\"f\":%d,\"fds\":%d,\"stray\":%d,\"flushed\":%d,"
	       "\"a\":%d", pid > 0 ? 1 : pid, shared->fired + failed,
	       after - before, shared->stray, st.n > 0, failed);
	if (pid > 0) {
		int fd = shl_pty_get_fd(s->pty);

		s->pid = pid;
		s->refs = 1;
		if (!hear(s, line, sizeof(line)) ||
		    !hear(s, ready, sizeof(ready)))
			line[0] = 0;
		x = __real_open("/dev/tty", O_RDWR | O_NOCTTY, 0);
		printf(",\"child\":[%s],\"fl\":[%d,%d],\"ctl\":%d,\"more\":%d", line,
		       !!(fcntl(fd, F_GETFD) & FD_CLOEXEC),
		       !!(fcntl(fd, F_GETFL) & O_NONBLOCK), x >= 0, shared->extra);
		if (x >= 0)
			close(x);
		LIB(shl_pty_bridge_add(bridge, s->pty));
	} else {
		s->pty = NULL;
		/* a child that could not be set up ends by itself */
		x = -1;
		for (i = 0; i < 3000 && forked > 0; ++i) {
			x = waitpid(forked, &status, WNOHANG);
			if (x)
				break;
			usleep(1000);
		}
		printf(",\"m\":%ld,\"x\":%d", live - mem,
		       x < 0 ? -1 : x > 0 && WIFEXITED(status) ?
		       WEXITSTATUS(status) : x > 0 ? 1000 : 1001);
		gone(s);
	}
	fclose(f);
}

static long now(void)
{
	struct timespec t;

	clock_gettime(CLOCK_MONOTONIC, &t);
	return t.tv_sec * 1000 + t.tv_nsec / 1000000;
}

static void step(char *line)
{
	char *op, *w, buf[2000], *d;
	long a[4] = { 0 }, t, i;
	int n = 0, status;
	struct slot *s;
	struct pollfd pf;

	op = strtok(line, " \n");
	w = strcmp(op, "fault") ? NULL : strtok(NULL, " \n");
	while (n < 4 && (d = strtok(NULL, " \n")))
		a[n++] = strtol(d, NULL, 0);
	printf("{\"o\":[\"%s\"", op);
	if (w)
		printf(",\"%s\"", w);
	for (i = 0; i < n; ++i)
		printf(",%ld", a[i]);
	printf("]");
	if (!strcmp(op, "ignore") || !strcmp(op, "block") ||
	    !strcmp(op, "handle")) {
		if (a[0] > 0 && a[0] < 65 && a[0] != 9 && a[0] != 19)
			ignored[a[0]] = op[0] == 'i' ? 1 : op[0] == 'b' ? 2 : 3;
		printf("}");
		return;
	}
	if (!strcmp(op, "std")) {
		stds = a[0] > 3 ? 3 : a[0];
		printf("}");
		return;
	}
	if (w) {
		strcpy(fault, w);
		fault_at = a[0];
		fault_intr = a[1];
		printf("}");
		return;
	}
	if (!strcmp(op, "fail")) {
		fail_at = a[0];
		fail_on = a[1];
		printf("}");
		return;
	}
	if (a[0] < 0 || a[0] >= NPTY)
		exit(4);
	refill();
	s = &slots[a[0]];
	printf(",");
	if (!strcmp(op, "open")) {
		do_open(s, a[0], a[1], a[2]);
		fail_at = 0;
		printf("}");
		return;
	}
	if (!s->refs && !(s->pid > 0 && (op[0] == 'q' || op[0] == 'e'))) {
		printf("\"n\":1}");
		return;
	}
	if (!strcmp(op, "resize")) {
		printf("\"r\":%d", LIB(shl_pty_resize(s->pty, a[1], a[2])));
	} else if (!strcmp(op, "sig")) {
		printf("\"r\":%d", LIB(shl_pty_signal(s->pty, a[1])));
	} else if (!strcmp(op, "close")) {
		LIBV(shl_pty_close(s->pty));
		printf("\"r\":0");
	} else if (!strcmp(op, "ref")) {
		LIBV(shl_pty_ref(s->pty));
		s->refs++;
		printf("\"r\":0");
	} else if (!strcmp(op, "unref")) {
		LIBV(shl_pty_unref(s->pty));
		s->refs--;
		printf("\"r\":0,\"m\":%ld", live);
	} else if (!strcmp(op, "idle")) {
		printf("\"r\":%d", LIB(shl_pty_dispatch(s->pty)));
	} else if (!strcmp(op, "info")) {
		int fd = shl_pty_get_fd(s->pty);
		pid_t pid = shl_pty_get_child(s->pty);

		printf("\"r\":[%d,%d,%d]", shl_pty_is_open(s->pty),
		       fd >= 0 ? (fcntl(fd, F_GETFD) >= 0) : fd,
		       pid > 0 ? pid == s->pid || !s->pid : pid);
	} else if (!strcmp(op, "q")) {
		if (s->pid <= 0) {
			printf("\"n\":1}");
			return;
		}
		dprintf(s->cmd, "q\n");
		if (!hear(s, buf, sizeof(buf)))
			strcpy(buf, "{\"ws\":[-1,-1],\"got\":[]}");
		printf("\"c\":%s", buf);
	} else if (!strcmp(op, "exit")) {
		if (s->pid <= 0) {
			printf("\"n\":1}");
			return;
		}
		dprintf(s->cmd, "exit\n");
		waitpid(s->pid, &status, 0);
		s->pid = 0;
		printf("\"r\":%d", WIFEXITED(status) ? WEXITSTATUS(status) :
		       1000 + WTERMSIG(status));
	} else if (!strcmp(op, "say") || !strcmp(op, "hear")) {
		bool out = op[0] == 's';

		if (s->pid <= 0 || !shl_pty_is_open(s->pty)) {
			printf("\"n\":1}");
			return;
		}
		a[1] %= 200000;
		dprintf(s->cmd, "%s %ld %ld\n", op, a[1], a[2]);
		s->bytes = s->wrong = 0;
		s->start = a[2];
		if (!out) {
			/* not while the terminal would change the bytes */
			hear(s, buf, sizeof(buf));
			d = __real_malloc(a[1] + 1);
			for (i = 0; i < a[1]; ++i)
				d[i] = (a[2] + i) % MOD;
			if (LIB(shl_pty_write(s->pty, d, a[1])))
				s->wrong++;
			__real_free(d);
			LIB(shl_pty_bridge_dispatch_pty(bridge, s->pty));
		}
		/* other terminals may have something to say as well */
		pf = (struct pollfd){ .fd = s->rep, .events = POLLIN };
		t = now();
		while (now() - t < 10000) {
			if (out ? s->bytes >= a[1] : poll(&pf, 1, 0) > 0)
				break;
			LIB(shl_pty_bridge_dispatch(bridge, 20));
		}
		if (!hear(s, buf, sizeof(buf)))
			strcpy(buf, "-2");
		printf("\"r\":[%ld,%ld,%s]", out ? s->bytes : 0, s->wrong, buf);
	} else {
		fprintf(stderr, "unknown operation %s\n", op);
		exit(4);
	}
	printf("}");
}

int main(void)
{
	static char line[1 << 16];
	char id[256];
	bool open = false, sep = false;
	int i, k;

	k = readlink("/proc/self/exe", child_path, sizeof(child_path) - 20);
	child_path[k] = 0;
	strcpy(strrchr(child_path, '/') + 1, "ptychild");
	shared = mmap(NULL, 4096, PROT_READ | PROT_WRITE,
		      MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	for (i = 3; i < 1024; ++i)
		if (fcntl(i, F_GETFD) >= 0)
			fcntl(i, F_SETFD, FD_CLOEXEC);
	stdin = fdopen(move_fd(0), "r");
	stdout = fdopen(move_fd(1), "w");
	stderr = fdopen(move_fd(2), "w");
	setvbuf(stderr, NULL, _IONBF, 0);
	__sanitizer_set_report_fd((void*)(long)fileno(stderr));
	refill();
	/* no controlling terminal, and out of the way of signals for others */
	setsid();
	signal(SIGPIPE, SIG_IGN);
	while (fgets(line, sizeof(line), stdin)) {
		if (line[0] == 'T' && line[1] == ' ') {
			sscanf(line + 2, "%255s", id);
			printf("{\"id\":\"%s\",\"steps\":[", id);
			open = true;
			sep = false;
			/* 3 and the next ones stay free */
			bridge = LIB(shl_pty_bridge_new());
			if (bridge >= 0)
				bridge = move_fd(bridge);
			continue;
		}
		if (line[0] == 'E' && (line[1] == '\n' || !line[1])) {
			for (i = 0; i < NPTY; ++i) {
				gone(&slots[i]);
				for (; slots[i].refs > 0; slots[i].refs--)
					LIBV(shl_pty_unref(slots[i].pty));
			}
			LIBV(shl_pty_bridge_free(bridge));
			memset(ignored, 0, sizeof(ignored));
			stds = fault_at = fail_at = 0;
			printf("],\"left\":%ld}\n", live);
			fflush(stdout);
			open = false;
			continue;
		}
		if (!open)
			exit(4);
		if (sep)
			printf(",");
		sep = true;
		step(line);
	}
	return 0;
}
