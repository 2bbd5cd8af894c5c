/*
 * The program that runs on a terminal made by shl_pty_open(): it tells what
 * it finds, and then what happens to it.  ptychild COMMANDS REPORTS
 *
 *  q           size of the terminal, signals received since the last time
 *  say N V     write N bytes
 *  hear N V    read N bytes and compare them
 *  exit
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <termios.h>
#include <unistd.h>

static volatile sig_atomic_t got[65];
static int rep;

static void handler(int s)
{
	got[s] = 1;
}

static const int watched[] = { SIGHUP, SIGINT, SIGQUIT, SIGTERM, SIGTSTP,
			       SIGWINCH };
#define NW 6

static void facts(int cmd)
{
	struct termios t;
	struct winsize ws;
	struct stat st, st2;
	struct sigaction sa;
	sigset_t set;
	int i, n = 0, extra = 0, fd;
	DIR *d;
	struct dirent *e;

	memset(&t, 0, sizeof(t));
	memset(&ws, 0, sizeof(ws));
	memset(&st, 0, sizeof(st));
	tcgetattr(0, &t);
	ioctl(0, TIOCGWINSZ, &ws);
	for (i = 0; i < 3; ++i)
		if (isatty(i) && !fstat(i, &st2)) {
			if (!i)
				st = st2;
			n += st2.st_rdev == st.st_rdev &&
			     (fcntl(i, F_GETFL) & O_ACCMODE) == O_RDWR;
		}
	d = opendir("/proc/self/fd");
	while (d && (e = readdir(d))) {
		fd = atoi(e->d_name);
		if (e->d_name[0] != '.' && fd != dirfd(d) && fd > 2 &&
		    fd != cmd && fd != rep)
			extra++;
	}
	closedir(d);
	fd = open("/dev/tty", O_RDWR | O_CLOEXEC);
	dprintf(rep, "{\"sid\":%d,\"fg\":%d,\"tty\":%d,\"ctl\":%d,"
		"\"ws\":[%d,%d],\"erase\":%d,\"utf8\":%d,\"extra\":%d",
		getsid(0) == getpid(), tcgetpgrp(0) == getpid(), n,
		fd >= 0 && tcgetsid(0) == getpid(), ws.ws_col, ws.ws_row,
		t.c_cc[VERASE], !!(t.c_iflag & IUTF8), extra);
	if (fd >= 0)
		close(fd);
	sigprocmask(SIG_SETMASK, NULL, &set);
	dprintf(rep, ",\"sig\":[");
	for (i = 1, n = 0; i < 65; ++i) {
		if (sigaction(i, NULL, &sa) < 0)
			continue;
		if (sa.sa_handler == SIG_IGN || sigismember(&set, i) == 1)
			dprintf(rep, n++ ? ",%d" : "%d", i);
	}
	dprintf(rep, "]}\n");
}

static void raw(void)
{
	struct termios t;

	if (!tcgetattr(0, &t)) {
		cfmakeraw(&t);
		tcsetattr(0, TCSANOW, &t);
	}
}

int main(int argc, char **argv)
{
	int cmd = atoi(argv[1]), i, k;
	char line[256], buf[1000];
	long n, v, done, r;
	struct sigaction sa;
	struct winsize ws;
	struct pollfd pf = { .fd = 0, .events = POLLIN };
	FILE *f;

	rep = atoi(argv[2]);
	facts(cmd);
	memset(&sa, 0, sizeof(sa));
	sa.sa_handler = handler;
	sa.sa_flags = SA_RESTART;
	for (i = 0; i < NW; ++i)
		sigaction(watched[i], &sa, NULL);
	dprintf(rep, "ready\n");
	f = fdopen(cmd, "r");
	while (fgets(line, sizeof(line), f)) {
		if (line[0] == 'q') {
			memset(&ws, 0, sizeof(ws));
			ioctl(0, TIOCGWINSZ, &ws);
			dprintf(rep, "{\"ws\":[%d,%d],\"got\":[", ws.ws_col,
				ws.ws_row);
			for (i = k = 0; i < NW; ++i)
				if (got[watched[i]]) {
					got[watched[i]] = 0;
					dprintf(rep, k++ ? ",%d" : "%d",
						watched[i]);
				}
			dprintf(rep, "]}\n");
		} else if (sscanf(line, "say %ld %ld", &n, &v) == 2) {
			raw();
			for (done = 0; done < n; done += r) {
				for (i = 0; i < 1000 && done + i < n; ++i)
					buf[i] = (v + done + i) % 251;
				r = write(1, buf, i);
				if (r <= 0)
					break;
			}
			dprintf(rep, "%ld\n", done);
		} else if (sscanf(line, "hear %ld %ld", &n, &v) == 2) {
			raw();
			dprintf(rep, "raw\n");
			for (done = 0; done < n; done += r) {
				if (poll(&pf, 1, 8000) <= 0)
					break;
				r = read(0, buf, n - done < 1000 ? n - done :
					 1000);
				if (r <= 0)
					break;
				for (i = 0; i < r; ++i)
					if ((unsigned char)buf[i] !=
					    (v + done + i) % 251)
						n = -1;
			}
			dprintf(rep, "%ld\n", n < 0 ? -1 : done);
		} else {
			break;
		}
	}
	return 7;
}
