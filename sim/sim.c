/*
 * Simulated kernel for keyd: evdev nodes, uinput, hotplug, a virtual monotonic clock and
 * recorded exec, linked under the unmodified daemon with ld --wrap. Runs as a fork server: each
 * scenario read from stdin runs keyd's real main() in a fresh child and is answered
 * with the event log recorded at the daemon's system call boundary.
 */
#define _GNU_SOURCE
#include <assert.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <grp.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/inotify.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <linux/input.h>
#include <linux/uinput.h>

int keyd_main(int argc, char **argv);

#define REAL(ret, name, ...) extern ret __real_##name(__VA_ARGS__)
REAL(int, open, const char *, int, ...);
REAL(int, openat, int, const char *, int, ...);
REAL(ssize_t, read, int, void *, size_t);
REAL(ssize_t, write, int, const void *, size_t);
REAL(int, close, int);
REAL(int, ioctl, int, unsigned long, ...);
REAL(int, poll, struct pollfd *, nfds_t, int);
REAL(DIR *, opendir, const char *);
REAL(int, scandir, const char *, struct dirent ***, int (*)(const struct dirent *), int (*)(const struct dirent **, const struct dirent **));
REAL(int, access, const char *, int);
REAL(int, inotify_add_watch, int, const char *, uint32_t);
REAL(int, inotify_init1, int);
REAL(int, accept, int, struct sockaddr *, socklen_t *);
REAL(int, accept4, int, struct sockaddr *, socklen_t *, int);
REAL(pid_t, fork, void);
REAL(pid_t, wait, int *);
REAL(pid_t, waitpid, pid_t, int *, int);
REAL(int, nice, int);
REAL(struct group *, getgrnam, const char *);
REAL(int, setgid, gid_t);
REAL(int, clock_gettime, clockid_t, struct timespec *);
REAL(int, usleep, useconds_t);
REAL(ssize_t, recv, int, void *, size_t, int);
REAL(ssize_t, send, int, const void *, size_t, int);
REAL(int, chmod, const char *, mode_t);
REAL(int, listen, int, int);

/* ------------------------------------------------------------------ log */
#define LOGSZ (48 << 20)
struct shared {
	_Atomic long pos;
	_Atomic int execd[256];
	_Atomic int nexecd;
	_Atomic int release;
	char buf[LOGSZ];
};
static struct shared *sh;
static int64_t now_us, start_us; /* now: relative to scenario start */
static pid_t daemon_pid;

static void hexout(char *d, const unsigned char *s, size_t n)
{
	static const char h[] = "0123456789abcdef";
	while (n--) { *d++ = h[*s >> 4]; *d++ = h[*s & 15]; s++; }
	*d = 0;
}

static void put(const char *s, size_t n)
{
	long p = atomic_fetch_add(&sh->pos, (long)n);
	if (p + (long)n >= LOGSZ) return;
	memcpy(sh->buf + p, s, n);
}

static void lg(const char *fmt, ...)
{
	char b[1024];
	va_list ap;
	va_start(ap, fmt);
	int n = vsnprintf(b, sizeof b - 1, fmt, ap);
	va_end(ap);
	if (n > (int)sizeof b - 2) n = sizeof b - 2;
	b[n++] = '\n';
	put(b, n);
}

static void lghex(const char *pfx, const void *data, size_t n)
{
	size_t l = strlen(pfx);
	char *b = malloc(l + 2 * n + 3);
	memcpy(b, pfx, l);
	hexout(b + l, data, n);
	strcat(b + l, "\n");
	put(b, l + 2 * n + 1);
	free(b);
}

static void finish(int code, const char *why)
{
	lg("STOP %s", why);
	_exit(code);
}

/* ------------------------------------------------------------------ state */
#define MAXFD 1024
#define SIMFD 600 /* the simulation's own descriptors live at or above this number */
enum { K_NONE, K_DEV, K_UINPUT, K_CON, K_HIDG, K_LISTEN, K_INOTIFY };
static struct { int kind, idx; } fdt[MAXFD];

#define BITS(n) (((n) + 7) / 8)
struct sdev {
	int used, present, fail, quiet;
	int grabfd;
	char node[64];
	char name[512];
	size_t namelen;
	struct input_id id;
	uint8_t key[BITS(KEY_MAX + 1)], rel[BITS(REL_MAX + 1)], abs[BITS(ABS_MAX + 1)], led[BITS(LED_MAX + 1)];
	struct input_absinfo absinfo[ABS_MAX + 1];
	uint8_t state[BITS(KEY_MAX + 1)];
	int virt; /* created through uinput */
	uint8_t ev[8];
};
#define MAXSDEV 160
static struct sdev devs[MAXSDEV];
enum { F_OPEN = 1, F_NAME = 2, F_ID = 4, F_BITS = 8, F_ABS = 16, F_GRAB = 32, F_GKEY = 64, F_LEDW = 128, F_ABSY = 256 };

struct client { int used, dev; struct input_event *q; uint8_t *g; /* was the device captured then? */ size_t head, n, cap; };
#define MAXCLI 512
static struct client clis[MAXCLI];

struct uin { int used, created, dev; uint8_t key[BITS(KEY_MAX + 1)], rel[BITS(REL_MAX + 1)], abs[BITS(ABS_MAX + 1)], led[BITS(LED_MAX + 1)], ev[8]; struct input_id id; char name[80]; int absval[ABS_MAX + 1], absmin[ABS_MAX + 1], absmax[ABS_MAX + 1]; };
static struct uin uins[8];
static int nuin;
static int nextvirt = 0;

struct ipcc { int used, fd, reading, eof, conn; };
#define MAXIPC 400
static struct ipcc ipcs[MAXIPC];
static int acceptq[4096], aq_head, aq_tail;
static int accfail_n, accfail_errno;

struct item { int64_t t; char *line; };
static struct item *items;
static size_t nitems, curitem;
static int opt_echo = 1, opt_group = 0, opt_cmdhold = 0;
static int64_t late_us;
static long steps;
static int ended;
static pthread_mutex_t mtx = PTHREAD_RECURSIVE_MUTEX_INITIALIZER_NP;
#ifdef SIM_NOLOCK
/* a lock the race detector cannot see: it must not order the daemon's own accesses */
static _Atomic pid_t lk_owner;
static int lk_depth;
static int opt_jitter;
pid_t gettid(void);
static void LOCK(void)
{
	static _Thread_local pid_t me;
	static _Thread_local unsigned rs;
	if (!me || me != gettid()) me = gettid();
	if (atomic_load_explicit(&lk_owner, memory_order_relaxed) == me) { lk_depth++; return; }
	if (opt_jitter) {
		if (!rs) rs = opt_jitter * 2654435761u ^ me * 40503u;
		rs = rs * 1664525u + 1013904223u;
		if ((rs >> 16) % 4 == 0) { extern int __real_usleep(useconds_t); __real_usleep((rs >> 18) % 60); }
	}
	for (;;) {
		pid_t z = 0;
		if (atomic_compare_exchange_weak(&lk_owner, &z, me)) break;
		sched_yield();
	}
	lk_depth = 1;
}
static void UNLOCK(void)
{
	if (!--lk_depth) atomic_store(&lk_owner, 0);
}
#else
#define LOCK() pthread_mutex_lock(&mtx)
#define UNLOCK() pthread_mutex_unlock(&mtx)
#endif

static int simfd(int fd)
{
	int n = fcntl(fd, F_DUPFD_CLOEXEC, SIMFD);
	__real_close(fd);
	return n;
}

static void step(void)
{
	if (++steps > 400000)
		finish(97, "LIVELOCK");
}

static void advance(int64_t t)
{
	if (t > now_us) { now_us = t; steps = 0; }
}

static int tst(const uint8_t *b, int i) { return (b[i / 8] >> (i % 8)) & 1; }
static void set(uint8_t *b, int i, int v) { if (v) b[i / 8] |= 1 << (i % 8); else b[i / 8] &= ~(1 << (i % 8)); }

static void cli_push(struct client *c, uint16_t type, uint16_t code, int32_t val)
{
	if (c->n == c->cap) {
		size_t nc = c->cap ? c->cap * 2 : 64, i;
		struct input_event *q = malloc(nc * sizeof *q);
		uint8_t *g = malloc(nc);
		for (i = 0; i < c->n; i++) { q[i] = c->q[(c->head + i) % c->cap]; g[i] = c->g[(c->head + i) % c->cap]; }
		free(c->q); free(c->g);
		c->q = q; c->g = g; c->cap = nc; c->head = 0;
	}
	c->g[(c->head + c->n) % c->cap] = devs[c->dev].grabfd >= 0;
	struct input_event *e = &c->q[(c->head + c->n++) % c->cap];
	memset(e, 0, sizeof *e);
	e->time.tv_sec = (start_us + now_us) / 1000000;
	e->time.tv_usec = (start_us + now_us) % 1000000;
	e->type = type; e->code = code; e->value = val;
}

/* An event occurs on a device: delivered to whoever has it open (or only to the grabber). */
static void dev_event(int d, uint16_t type, uint16_t code, int32_t val)
{
	int i;
	struct sdev *s = &devs[d];
	if (!s->present) return;
	if (type == EV_ABS && !s->virt && !(code <= ABS_MAX && tst(s->abs, code))) return; /* an axis it does not have */
	if (type == EV_KEY && code <= KEY_MAX && val != 2) set(s->state, code, val);
	if (s->virt && type == EV_LED && !(tst(s->ev, EV_LED) && code <= LED_MAX && tst(s->led, code))) {
		lg("NOLED %lld %d %d", (long long)now_us, d, code); /* a light the device did not declare */
		return;
	}
	lg("H %lld %d %d %d %d %d", (long long)now_us, d, type, code, val, s->grabfd >= 0);
	for (i = 0; i < MAXCLI; i++)
		if (clis[i].used && clis[i].dev == d) {
			if (s->grabfd >= 0 && !(fdt[s->grabfd].kind == K_DEV && fdt[s->grabfd].idx == i)) continue;
			cli_push(&clis[i], type, code, val);
		}
}

static void drop_privs_node(int d)
{
	char p[128];
	snprintf(p, sizeof p, "dev/input/%s", devs[d].node);
	unlink(p);
}

static void ino_event(const char *name, uint32_t mask);
/* simulated inotify on the input directory */
#define MAXINO 8
static struct { int used; uint32_t mask; unsigned char *q; size_t n, cap; } inos[MAXINO];

static void ino_event(const char *name, uint32_t mask)
{
	int i;
	for (i = 0; i < MAXINO; i++) {
		if (!inos[i].used || !(inos[i].mask & mask)) continue;
		size_t nl = (strlen(name) + 16) / 16 * 16;
		struct inotify_event e = { 1, mask, 0, nl };
		if (inos[i].n + sizeof e + nl > inos[i].cap) inos[i].q = realloc(inos[i].q, inos[i].cap = (inos[i].n + sizeof e + nl) * 2);
		memcpy(inos[i].q + inos[i].n, &e, sizeof e);
		memset(inos[i].q + inos[i].n + sizeof e, 0, nl);
		strcpy((char *)inos[i].q + inos[i].n + sizeof e, name);
		inos[i].n += sizeof e + nl;
	}
}

static ssize_t ino_read(int i, void *buf, size_t n)
{
	size_t o = 0;
	while (o < inos[i].n) {
		struct inotify_event e;
		memcpy(&e, inos[i].q + o, sizeof e);
		if (o + sizeof e + e.len > n) break;
		o += sizeof e + e.len;
	}
	if (!o) { errno = inos[i].n ? EINVAL : EAGAIN; return -1; }
	memcpy(buf, inos[i].q, o);
	memmove(inos[i].q, inos[i].q + o, inos[i].n - o);
	inos[i].n -= o;
	return o;
}

static void mknode(int d)
{
	char p[128];
	int fd;
	snprintf(p, sizeof p, "dev/input/%s", devs[d].node);
	fd = __real_open(p, O_CREAT | O_WRONLY | O_CLOEXEC, 0600);
	if (fd >= 0) __real_close(fd);
	ino_event(devs[d].node, IN_CREATE);
	ino_event(devs[d].node, IN_ATTRIB);
}

static int unhexc(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }

/* payload: comma separated hex strings, ~N for a run of N zero bytes */
static unsigned char *unpayload(const char *s, size_t *n)
{
	size_t cap = strlen(s) + 16, l = 0;
	unsigned char *b;
	const char *c;
	for (c = s; (c = strchr(c, '~')); c++) cap += strtoul(c + 1, NULL, 10);
	b = malloc(cap);
	while (*s && *s != '\n' && *s != ' ') {
		if (*s == ',') s++;
		else if (*s == '~') { size_t k = strtoul(s + 1, (char **)&s, 10); memset(b + l, 0, k); l += k; }
		else if (*s == '-') s++;
		else { b[l++] = unhexc(s[0]) << 4 | unhexc(s[1]); s += 2; }
	}
	*n = l;
	return b;
}

static void mkparents(const char *path)
{
	char b[1024], *p;
	snprintf(b, sizeof b, "%s", path);
	for (p = b; (p = strchr(p, '/')); p++) { *p = 0; mkdir(b, 0755); *p = '/'; }
}

static void ipc_drain(void)
{
	int i;
	for (i = 0; i < MAXIPC; i++) {
		struct ipcc *c = &ipcs[i];
		if (!c->used || !c->reading || c->eof) continue;
		for (;;) {
			char b[8192], pfx[64];
			ssize_t n = __real_recv(c->fd, b, sizeof b, MSG_DONTWAIT);
			if (n > 0) {
				snprintf(pfx, sizeof pfx, "CR %lld %d ", (long long)now_us, i);
				lghex(pfx, b, n);
			} else if (n == 0 || (errno != EAGAIN && errno != EINTR)) {
				c->eof = 1;
				lg("CE %lld %d %s", (long long)now_us, i, n == 0 ? "eof" : "reset");
				break;
			} else break;
		}
	}
}

static const char *lnk(int fd, char *b, size_t n)
{
	char p[64];
	ssize_t l;
	snprintf(p, sizeof p, "/proc/self/fd/%d", fd);
	l = readlink(p, b, n - 1);
	if (l < 0) l = 0;
	b[l] = 0;
	return b;
}

static void log_fds(const char *tag)
{
	int fd;
	char b[400], line[16000];
	size_t n = snprintf(line, sizeof line, "%s %lld", tag, (long long)now_us);
	for (fd = 3; fd < SIMFD; fd++) {
		int fl = fcntl(fd, F_GETFD);
		if (fl < 0) continue;
		switch (fdt[fd].kind) {
		case K_DEV: n += snprintf(line + n, sizeof line - n, " dev:%d", clis[fdt[fd].idx].dev); break;
		case K_UINPUT: n += snprintf(line + n, sizeof line - n, " uinput:%d", fdt[fd].idx); break;
		case K_INOTIFY: n += snprintf(line + n, sizeof line - n, " inotify"); break;
		case K_CON: n += snprintf(line + n, sizeof line - n, " con:%d", fdt[fd].idx); break;
		default:
			lnk(fd, b, sizeof b);
			if (!strncmp(b, "socket:", 7)) strcpy(b, "socket");
			else if (strstr(b, "inotify")) strcpy(b, "inotify");
			else if (strrchr(b, '/')) memmove(b, strrchr(b, '/') + 1, strlen(strrchr(b, '/')));
			n += snprintf(line + n, sizeof line - n, " %s", b);
		}
		if (n > sizeof line - 300) break;
	}
	line[n++] = '\n';
	put(line, n);
}

static void do_item(char *l)
{
	char w[32];
	int n = 0, a, b, c, d;
	char path[1024];
	size_t sz;
	unsigned char *pl;

	sscanf(l, "%31s %n", w, &n);
	l += n;
	if (!strcmp(w, "key")) {
		sscanf(l, "%d %d %d", &a, &b, &c);
		dev_event(a, EV_KEY, b, c);
		dev_event(a, EV_SYN, 0, 0);
	} else if (!strcmp(w, "ev")) {
		sscanf(l, "%d %d %d %d", &a, &b, &c, &d);
		dev_event(a, b, c, d);
	} else if (!strcmp(w, "add")) {
		a = atoi(l);
		devs[a].present = 1;
		lg("ADD %lld %d", (long long)now_us, a);
		mknode(a);
	} else if (!strcmp(w, "mkfile")) { /* a node keyd should ignore */
		sscanf(l, "%1000s", path);
		mkparents(path);
		a = __real_open(path, O_CREAT | O_WRONLY | O_CLOEXEC, 0600);
		if (a >= 0) __real_close(a);
		if (!strncmp(path, "dev/input/", 10)) { ino_event(path + 10, IN_CREATE); ino_event(path + 10, IN_ATTRIB); }
	} else if (!strcmp(w, "rm")) { /* rm dev releases_delivered(0/1) */
		int i;
		b = 0;
		sscanf(l, "%d %d", &a, &b);
		if (!devs[a].present) return;
		for (i = 0; i <= KEY_MAX; i++)
			if (tst(devs[a].state, i)) {
				if (b) { dev_event(a, EV_KEY, i, 0); dev_event(a, EV_SYN, 0, 0); }
				else set(devs[a].state, i, 0);
			}
		lg("RM %lld %d", (long long)now_us, a);
		if (!b) {
			devs[a].present = 0; /* queued events are lost, as in evdev */
			for (i = 0; i < MAXCLI; i++)
				if (clis[i].used && clis[i].dev == a) clis[i].n = 0;
		} else
			devs[a].present = 2; /* removed once the queues are drained */
		if (b) {
			int pend = 0;
			for (i = 0; i < MAXCLI; i++)
				if (clis[i].used && clis[i].dev == a && clis[i].n) pend = 1;
			if (!pend) devs[a].present = 0;
		}
		drop_privs_node(a);
		ino_event(devs[a].node, IN_DELETE);
	} else if (!strcmp(w, "setfail")) {
		sscanf(l, "%d %d", &a, &b);
		devs[a].fail = b;
	} else if (!strcmp(w, "conn")) {
		struct sockaddr_un ad = { .sun_family = AF_UNIX };
		int s = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0);
		a = atoi(l);
		strcpy(ad.sun_path, "run/keyd.socket");
		ipcs[a].used = 1;
		ipcs[a].reading = 1;
		if (connect(s, (struct sockaddr *)&ad, sizeof ad) < 0) {
			lg("CF %lld %d %d", (long long)now_us, a, errno);
			__real_close(s);
			ipcs[a].used = 0;
		} else {
			ipcs[a].fd = simfd(s);
			acceptq[aq_tail++ % 4096] = a;
			lg("CC %lld %d", (long long)now_us, a);
		}
	} else if (!strcmp(w, "send")) {
		sscanf(l, "%d %n", &a, &n);
		pl = unpayload(l + n, &sz);
		if (ipcs[a].used && ipcs[a].fd >= 0) {
			ssize_t r = __real_send(ipcs[a].fd, pl, sz, MSG_NOSIGNAL | MSG_DONTWAIT);
			lg("CS %lld %d %zd", (long long)now_us, a, r);
		}
		free(pl);
	} else if (!strcmp(w, "close") || !strcmp(w, "shut")) {
		a = atoi(l);
		if (ipcs[a].used && ipcs[a].fd >= 0) {
			if (w[0] == 'c') {
				if (ipcs[a].reading) ipc_drain();
				__real_close(ipcs[a].fd);
				ipcs[a].used = 0;
			} else
				shutdown(ipcs[a].fd, SHUT_WR);
			lg("CX %lld %d %s", (long long)now_us, a, w);
		}
	} else if (!strcmp(w, "noread")) {
		ipcs[atoi(l)].reading = 0;
	} else if (!strcmp(w, "doread")) {
		ipcs[atoi(l)].reading = 1;
		ipc_drain();
	} else if (!strcmp(w, "write")) {
		sscanf(l, "%1000s %n", path, &n);
		pl = unpayload(l + n, &sz);
		mkparents(path);
		a = __real_open(path, O_CREAT | O_TRUNC | O_WRONLY | O_CLOEXEC, 0644);
		if (a >= 0) { size_t o = 0; while (o < sz) { ssize_t r = __real_write(a, pl + o, sz - o); if (r <= 0) break; o += r; } __real_close(a); }
		free(pl);
	} else if (!strcmp(w, "unlink")) {
		sscanf(l, "%1000s", path);
		unlink(path);
	} else if (!strcmp(w, "accfail")) {
		sscanf(l, "%d %d", &accfail_n, &accfail_errno);
	} else if (!strcmp(w, "late")) {
		late_us = atoll(l);
	} else if (!strcmp(w, "fds")) {
		log_fds("FDS");
	} else if (!strcmp(w, "mark")) {
		lg("MARK %lld %s", (long long)now_us, l);
	} else if (!strcmp(w, "stat")) {
		struct stat st;
		if (!stat("run/keyd.socket", &st))
			lg("STAT %lld %o %d %d", (long long)now_us, st.st_mode & 07777, (int)st.st_uid, (int)st.st_gid);
		else
			lg("STAT %lld none", (long long)now_us);
	} else if (!strcmp(w, "touch")) { /* signal another process */
		sscanf(l, "%1000s", path);
		a = __real_open(path, O_CREAT | O_WRONLY | O_CLOEXEC, 0644);
		if (a >= 0) __real_close(a);
	} else if (!strcmp(w, "await")) { /* wait (real time) for a file made by another process */
		int k;
		sscanf(l, "%1000s", path);
		for (k = 0; k < 20000; k++) {
			struct stat st;
			if (!stat(path, &st)) break;
			__real_usleep(500);
		}
		lg("AWAIT %lld %s %s", (long long)now_us, path, k < 20000 ? "ok" : "timeout");
	} else if (!strcmp(w, "kill")) {
		lg("KILLED %lld", (long long)now_us);
		kill(getpid(), SIGKILL);
	} else if (!strcmp(w, "waitexec")) { /* give launched commands (real) time to reach exec */
		int want = atoi(l), k;
		for (k = 0; k < 10000 && atomic_load(&sh->nexecd) < want; k++) __real_usleep(200);
	} else if (!strcmp(w, "end")) {
		ended = 1;
	}
}

static void run_items(void)
{
	while (curitem < nitems && items[curitem].t <= now_us && !ended)
		do_item(items[curitem++].line);
}

static void the_end(void)
{
	int st, z = 0;
	ipc_drain();
	log_fds("ENDFDS");
	while (__real_waitpid(-1, &st, WNOHANG) > 0) z++;
	lg("END %lld zombies=%d", (long long)now_us, z);
	atomic_store(&sh->release, 1);
	raise(SIGTERM);
	/* the handler should not return; tolerate daemons that only set a flag */
	ended = 2;
}

/* ------------------------------------------------------------------ wrapped calls */
static int is_input(const char *p, const char **node)
{
	if (!strncmp(p, "/dev/input/", 11) && p[11]) { *node = p + 11; return 1; }
	return 0;
}

static int is_uinput(const char *p)
{
	return !strcmp(p, "/dev/uinput") || !strcmp(p, "/dev/input/uinput") || !strcmp(p, "/dev/misc/uinput");
}

static int fakefd(int flags, int kind, int idx)
{
	/* a file which tells itself apart from anything the daemon opens */
	int fd = memfd_create("simdev", flags & O_CLOEXEC ? MFD_CLOEXEC : 0);
	if (fd < 0 || fd >= SIMFD) finish(96, "TOOMANYFDS");
	fdt[fd].kind = kind;
	fdt[fd].idx = idx;
	return fd;
}

static int sim_open(const char *path, int flags)
{
	const char *node;
	int i, j, fd;
	if (is_uinput(path)) {
		if (nuin >= 8) { errno = EMFILE; return -1; }
		memset(&uins[nuin], 0, sizeof uins[0]);
		uins[nuin].used = 1;
		uins[nuin].dev = -1;
		return fakefd(flags, K_UINPUT, nuin++);
	}
	if (!strcmp(path, "/dev/hidg0"))
		return fakefd(flags, K_HIDG, 0);
	if (is_input(path, &node)) {
		for (i = 0; i < MAXSDEV; i++)
			if (devs[i].used && devs[i].present == 1 && !strcmp(devs[i].node, node)) {
				if (devs[i].fail & F_OPEN) { errno = EACCES; return -1; }
				for (j = 0; j < MAXCLI; j++) if (!clis[j].used) break;
				if (j == MAXCLI) { errno = EMFILE; return -1; }
				memset(&clis[j], 0, sizeof clis[j]);
				clis[j].used = 1;
				clis[j].dev = i;
				fd = fakefd(flags, K_DEV, j);
				lg("OPEN %lld %d", (long long)now_us, i);
				return fd;
			}
		errno = ENOENT;
		return -1;
	}
	return -2;
}

int __wrap_open(const char *path, int flags, ...)
{
	int mode = 0, r;
	va_list ap;
	va_start(ap, flags); mode = va_arg(ap, int); va_end(ap);
	LOCK(); step();
	r = sim_open(path, flags);
	UNLOCK();
	return r == -2 ? __real_open(path, flags, mode) : r;
}
int __wrap_open64(const char *path, int flags, ...)
{
	int mode = 0;
	va_list ap;
	va_start(ap, flags); mode = va_arg(ap, int); va_end(ap);
	return __wrap_open(path, flags, mode);
}
int __wrap_openat(int dfd, const char *path, int flags, ...)
{
	int mode = 0;
	va_list ap;
	va_start(ap, flags); mode = va_arg(ap, int); va_end(ap);
	if (path[0] == '/' || dfd == AT_FDCWD) return __wrap_open(path, flags, mode);
	return __real_openat(dfd, path, flags, mode);
}

DIR *__wrap_opendir(const char *p)
{
	if (!strncmp(p, "/dev/input", 10) && (!p[10] || !strcmp(p + 10, "/"))) return __real_opendir("dev/input");
	return __real_opendir(p);
}
int __wrap_scandir(const char *p, struct dirent ***l, int (*f)(const struct dirent *), int (*c)(const struct dirent **, const struct dirent **))
{
	if (!strncmp(p, "/dev/input", 10)) p = "dev/input";
	return __real_scandir(p, l, f, c);
}
int __wrap_access(const char *p, int m)
{
	char b[512];
	if (!strncmp(p, "/dev/input", 10)) { snprintf(b, sizeof b, "dev/input%s", p + 10); p = b; return __real_access(b, m); }
	return __real_access(p, m);
}
int __wrap_inotify_init1(int f)
{
	int i;
	for (i = 0; i < MAXINO; i++) if (!inos[i].used) break;
	if (i == MAXINO) { errno = EMFILE; return -1; }
	inos[i].used = 1;
	return fakefd(f & IN_CLOEXEC ? O_CLOEXEC : 0, K_INOTIFY, i);
}
int __wrap_inotify_init(void) { return __wrap_inotify_init1(0); }
int __wrap_inotify_add_watch(int fd, const char *p, uint32_t m)
{
	if (fd < 0 || fd >= MAXFD || fdt[fd].kind != K_INOTIFY) { errno = EBADF; return -1; }
	if (!strncmp(p, "/dev/input", 10)) inos[fdt[fd].idx].mask |= m;
	return 1;
}

int __wrap_close(int fd)
{
	int r;
	LOCK(); step();
	if (getpid() == daemon_pid && fd >= 0 && fd < MAXFD) {
		switch (fdt[fd].kind) {
		case K_DEV: {
			struct client *c = &clis[fdt[fd].idx];
			if (devs[c->dev].grabfd == fd) { devs[c->dev].grabfd = -1; lg("G %lld %d 0 close", (long long)now_us, c->dev); }
			lg("CLOSE %lld %d", (long long)now_us, c->dev);
			free(c->q); free(c->g); c->q = NULL; c->g = NULL; c->used = 0;
			break;
		}
		case K_UINPUT:
			lg("UCLOSE %lld %d", (long long)now_us, fdt[fd].idx);
			break;
		case K_INOTIFY:
			inos[fdt[fd].idx].used = 0; inos[fdt[fd].idx].n = 0; inos[fdt[fd].idx].mask = 0;
			break;
		case K_CON:
			lg("CZ %lld %d", (long long)now_us, fdt[fd].idx);
			break;
		}
		fdt[fd].kind = K_NONE;
	}
	r = __real_close(fd);
	if (r < 0 && errno == EBADF && getpid() == daemon_pid) { lg("BADF close %d", fd); errno = EBADF; }
	UNLOCK();
	return r;
}

static ssize_t dev_read(int fd, void *buf, size_t n)
{
	struct client *c = &clis[fdt[fd].idx];
	struct sdev *s = &devs[c->dev];
	struct input_event *e = buf;
	size_t k = 0;
	if (s->present == 2 && !c->n) s->present = 0;
	if (!s->present) { lg("GONE %lld %d", (long long)now_us, c->dev); errno = ENODEV; return -1; }
	if (n < sizeof *e) { errno = EINVAL; return -1; }
	if (!c->n) {
		lg("R %lld %d none", (long long)now_us, c->dev);
		errno = EAGAIN;
		return -1;
	}
	while (c->n && (k + 1) * sizeof *e <= n) {
		int g = c->g[c->head];
		e[k] = c->q[c->head];
		c->head = (c->head + 1) % c->cap;
		c->n--;
		lg("I %lld %d %d %d %d %d", (long long)now_us, c->dev, e[k].type, e[k].code, e[k].value, g);
		k++;
	}
	return k * sizeof *e;
}

/* Would a real read/write on this descriptor block for ever? Runs the timeline meanwhile. */
static int await_fd(int fd, short ev, int opt)
{
	struct pollfd p = { fd, ev, 0 };
	struct timeval tv = {0};
	socklen_t l = sizeof tv;
	int64_t limit = -1;
	int fl = fcntl(fd, F_GETFL);
	if (fl < 0) return 0;
	run_items();
	if (__real_poll(&p, 1, 0) > 0) return 0;
	if (fl & O_NONBLOCK) return 0;
	if (!getsockopt(fd, SOL_SOCKET, opt, &tv, &l) && (tv.tv_sec || tv.tv_usec))
		limit = now_us + tv.tv_sec * 1000000LL + tv.tv_usec;
	for (;;) {
		ipc_drain();
		if (__real_poll(&p, 1, 0) > 0) return 0;
		if (curitem < nitems && (limit < 0 || items[curitem].t <= limit)) {
			advance(items[curitem].t);
			run_items();
			if (ended) { lg("BLOCKED %lld fd %d", (long long)now_us, fd); finish(98, "BLOCKED"); }
			continue;
		}
		if (limit >= 0) { advance(limit); lg("TMO %lld", (long long)now_us); errno = EAGAIN; return -1; }
		lg("BLOCKED %lld fd %d", (long long)now_us, fd);
		finish(98, "BLOCKED");
	}
}

static int is_sock(int fd)
{
	struct stat st;
	return !fstat(fd, &st) && S_ISSOCK(st.st_mode);
}

static int eof_fd = -1, eof_n;
ssize_t __wrap_read(int fd, void *buf, size_t n)
{
	ssize_t r;
	LOCK(); step();
	if (getpid() == daemon_pid && fd >= 0 && fd < MAXFD && fdt[fd].kind == K_DEV) {
		r = dev_read(fd, buf, n);
	} else if (getpid() == daemon_pid && fd >= 0 && fd < MAXFD && fdt[fd].kind == K_INOTIFY) {
		r = ino_read(fdt[fd].idx, buf, n);
	} else if (getpid() == daemon_pid && is_sock(fd)) {
		if (await_fd(fd, POLLIN, SO_RCVTIMEO)) r = -1;
		else {
			r = __real_read(fd, buf, n);
			if (r == 0 && n) {
				if (fd == eof_fd && ++eof_n > 5000) { lg("BLOCKED %lld eof-loop fd %d", (long long)now_us, fd); finish(98, "EOFLOOP"); }
				if (fd != eof_fd) { eof_fd = fd; eof_n = 0; }
			} else eof_fd = -1;
		}
	} else
		r = __real_read(fd, buf, n);
	if (r < 0 && errno == EBADF && getpid() == daemon_pid) { lg("BADF read %d", fd); errno = EBADF; }
	UNLOCK();
	return r;
}
ssize_t __wrap_readv(int fd, const struct iovec *v, int n)
{
	if (n < 1) return 0;
	return __wrap_read(fd, v[0].iov_base, v[0].iov_len);
}
ssize_t __wrap_recv(int fd, void *buf, size_t n, int fl)
{
	if (fl == 0) return __wrap_read(fd, buf, n);
	if (fl & MSG_WAITALL) {
		size_t got = 0;
		while (got < n) { ssize_t r = __wrap_read(fd, (char *)buf + got, n - got); if (r <= 0) return got ? (ssize_t)got : r; got += r; }
		return got;
	}
	return __real_recv(fd, buf, n, fl);
}

static void uin_create(struct uin *u)
{
	int i;
	for (i = MAXSDEV - 1; i >= 0; i--) if (!devs[i].used) break;
	struct sdev *s = &devs[i];
	memset(s, 0, sizeof *s);
	s->used = 1; s->present = 1; s->virt = 1; s->grabfd = -1;
	s->id = u->id;
	snprintf(s->name, sizeof s->name, "%s", u->name);
	s->namelen = strlen(s->name);
	snprintf(s->node, sizeof s->node, "event%d", 900 + nextvirt++);
	memcpy(s->key, u->key, sizeof s->key);
	memcpy(s->rel, u->rel, sizeof s->rel);
	memcpy(s->abs, u->abs, sizeof s->abs);
	memcpy(s->led, u->led, sizeof s->led);
	memcpy(s->ev, u->ev, sizeof s->ev);
	u->dev = i;
	u->created = 1;
	lg("UCREATE %lld %d %d %04x:%04x %s", (long long)now_us, (int)(u - uins), i, u->id.vendor, u->id.product, u->name);
	mknode(i);
}

static ssize_t uin_write(int fd, const void *buf, size_t n)
{
	struct uin *u = &uins[fdt[fd].idx];
	int ui = fdt[fd].idx;
	if (!u->created) {
		if (n == sizeof(struct uinput_user_dev)) {
			const struct uinput_user_dev *ud = buf;
			u->id = ud->id;
			snprintf(u->name, sizeof u->name, "%.79s", ud->name);
			memcpy(u->absmin, ud->absmin, sizeof u->absmin);
			memcpy(u->absmax, ud->absmax, sizeof u->absmax);
			return n;
		}
		errno = EINVAL;
		return -1;
	}
	const struct input_event *e = buf;
	size_t k, m = n / sizeof *e;
	if (!m || n % sizeof *e) { errno = EINVAL; return -1; }
	for (k = 0; k < m; k++, e++) {
		int ok = 1, val = e->value;
		struct sdev *s = &devs[u->dev];
		switch (e->type) {
		case EV_SYN: break;
		case EV_KEY: ok = e->code <= KEY_MAX && tst(u->key, e->code); break;
		case EV_REL: ok = e->code <= REL_MAX && tst(u->rel, e->code); break;
		case EV_ABS: ok = e->code <= ABS_MAX && tst(u->abs, e->code); break;
		default: ok = 0;
		}
		/* the kernel drops every event whose type the device did not declare */
		if (e->type && e->type <= EV_MAX && !tst(u->ev, e->type)) ok = 0;
		if (e->type == EV_ABS && ok) {
			/* what the position means: its place in the range the device declared, in 1024ths */
			int lo = u->absmin[e->code], hi = u->absmax[e->code];
			if (hi <= lo) ok = 0;
			else if (lo != 0 || hi != 1024) val = (int)(((int64_t)e->value - lo) * 1024 / (hi - lo));
		}
		lg("O %lld %d %d %d %d %d", (long long)now_us, ui, e->type, e->code, val, ok);
		if (!ok) continue;
		if (e->type == EV_KEY) {
			if (e->value != 2 && tst(s->state, e->code) == !!e->value) continue;
			if (e->value != 2) set(s->state, e->code, !!e->value);
		}
		if (e->type == EV_REL && !e->value) continue;
		if (e->type == EV_ABS) { if (u->absval[e->code] == e->value) continue; u->absval[e->code] = e->value; }
		if (opt_echo) {
			int i;
			for (i = 0; i < MAXCLI; i++)
				if (clis[i].used && clis[i].dev == u->dev) cli_push(&clis[i], e->type, e->code, e->value);
		}
	}
	return n;
}

static ssize_t sim_write(int fd, const void *buf, size_t n)
{
	ssize_t r;
	LOCK(); step();
	int mine = getpid() == daemon_pid;
	if (mine && fd >= 0 && fd < MAXFD && fdt[fd].kind == K_UINPUT)
		r = uin_write(fd, buf, n);
	else if (mine && fd >= 0 && fd < MAXFD && fdt[fd].kind == K_HIDG) {
		char pfx[64];
		snprintf(pfx, sizeof pfx, "HID %lld ", (long long)now_us);
		lghex(pfx, buf, n);
		r = n;
	} else if (mine && fd >= 0 && fd < MAXFD && fdt[fd].kind == K_DEV) {
		const struct input_event *e = buf;
		size_t k;
		int d = clis[fdt[fd].idx].dev;
		if (devs[d].present != 1) { errno = ENODEV; r = -1; }
		else if (devs[d].fail & F_LEDW) { errno = EIO; r = -1; }
		else {
			for (k = 0; k + 1 <= n / sizeof *e; k++)
				lg("L %lld %d %d %d %d", (long long)now_us, d, e[k].type, e[k].code, e[k].value);
			r = n;
		}
	} else if (mine && is_sock(fd)) {
		if (await_fd(fd, POLLOUT, SO_SNDTIMEO)) r = -1;
		else r = __real_write(fd, buf, n);
	} else
		r = __real_write(fd, buf, n);
	if (r < 0 && errno == EBADF && mine) { lg("BADF write %d", fd); errno = EBADF; }
	UNLOCK();
	return r;
}
ssize_t __wrap_write(int fd, const void *buf, size_t n) { return sim_write(fd, buf, n); }
ssize_t __wrap_writev(int fd, const struct iovec *v, int n)
{
	ssize_t t = 0;
	int i;
	for (i = 0; i < n; i++) { ssize_t r = sim_write(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; }
	return t;
}
ssize_t __wrap_send(int fd, const void *buf, size_t n, int fl)
{
	if (fl & MSG_DONTWAIT) return __real_send(fd, buf, n, fl);
	LOCK();
	ssize_t r;
	if (await_fd(fd, POLLOUT, SO_SNDTIMEO)) r = -1;
	else r = __real_send(fd, buf, n, fl);
	UNLOCK();
	return r;
}
int __wrap_vdprintf(int fd, const char *fmt, va_list ap)
{
	char *s = NULL;
	int n = vasprintf(&s, fmt, ap), o = 0;
	if (n < 0) return n;
	while (o < n) { ssize_t r = sim_write(fd, s + o, n - o); if (r < 0) { free(s); return -1; } o += r; }
	free(s);
	return n;
}
int __wrap_dprintf(int fd, const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	int r = __wrap_vdprintf(fd, fmt, ap);
	va_end(ap);
	return r;
}

/* through a pointer, so that the race detector's memcpy sees what the kernel would write */
static void *(*volatile kcopy)(void *, const void *, size_t) = memcpy;

static int cpy(void *dst, size_t n, const void *src, size_t m)
{
	if (m > n) m = n;
	kcopy(dst, src, m);
	return m;
}

static int dev_ioctl(int fd, unsigned long req, void *arg)
{
	struct client *c = &clis[fdt[fd].idx];
	struct sdev *s = &devs[c->dev];
	unsigned nr = _IOC_NR(req), sz = _IOC_SIZE(req);
	if (s->present != 1) { errno = ENODEV; return -1; }
	if (req == EVIOCGRAB) {
		if (arg) {
			if (s->fail & F_GRAB) { errno = EBUSY; lg("GF %lld %d", (long long)now_us, c->dev); return -1; }
			if (s->grabfd >= 0) { errno = EBUSY; return -1; }
			s->grabfd = fd;
			lg("G %lld %d 1", (long long)now_us, c->dev);
		} else {
			if (s->grabfd != fd) { errno = EINVAL; return -1; }
			s->grabfd = -1;
			lg("G %lld %d 0", (long long)now_us, c->dev);
		}
		return 0;
	}
	if (req == EVIOCGID) {
		if (s->fail & F_ID) { errno = EIO; return -1; }
		kcopy(arg, &s->id, sizeof s->id);
		return 0;
	}
	if (_IOC_TYPE(req) != 'E') { errno = EINVAL; return -1; }
	if (_IOC_DIR(req) == _IOC_READ) {
		if (nr == _IOC_NR(EVIOCGNAME(0))) {
			/* like the kernel: truncated without a terminator if too long */
			if (s->fail & F_NAME) { errno = EIO; return -1; }
			return cpy(arg, sz, s->name, s->namelen + 1);
		}
		if (nr == _IOC_NR(EVIOCGKEY(0))) {
			int i, held = 0, r;
			if (s->fail & F_GKEY) { errno = EIO; return -1; }
			r = cpy(arg, sz, s->state, BITS(KEY_MAX + 1));
			for (i = 0; i <= KEY_MAX; i++) held |= tst(s->state, i);
			if (held) { /* busy waiting takes time */
				advance(now_us + 500);
				run_items();
				if (ended) { lg("BLOCKED %lld waiting for neutral keys", (long long)now_us); finish(95, "NEUTRALWAIT"); }
				if (curitem >= nitems) finish(95, "NEUTRALWAIT");
			}
			return r;
		}
		if (nr >= 0x20 && nr < 0x40) {
			if (s->fail & F_BITS) { errno = EIO; return -1; }
			switch (nr - 0x20) {
			case EV_KEY: return cpy(arg, sz, s->key, sizeof s->key);
			case EV_REL: return cpy(arg, sz, s->rel, sizeof s->rel);
			case EV_ABS: return cpy(arg, sz, s->abs, sizeof s->abs);
			case EV_LED: return cpy(arg, sz, s->led, sizeof s->led);
			case 0: { uint8_t e[4] = {0}; set(e, EV_SYN, 1); set(e, EV_KEY, 1); for (size_t i = 0; i < sizeof s->rel; i++) if (s->rel[i]) set(e, EV_REL, 1); for (size_t i = 0; i < sizeof s->abs; i++) if (s->abs[i]) set(e, EV_ABS, 1); return cpy(arg, sz, e, 4); }
			default: { uint8_t z[64] = {0}; return cpy(arg, sz, z, sizeof z); }
			}
		}
		if (nr >= 0x40 && nr < 0x80) {
			if (s->fail & F_ABS) { errno = EINVAL; return -1; }
			if ((s->fail & F_ABSY) && (req & 0xff) == 0x41) { errno = EINVAL; return -1; }
			kcopy(arg, &s->absinfo[nr - 0x40], sz < sizeof(struct input_absinfo) ? sz : sizeof(struct input_absinfo));
			return 0;
		}
		if (nr == _IOC_NR(EVIOCGLED(0))) { uint8_t z[16] = {0}; return cpy(arg, sz, z, sizeof z); }
		if (nr == _IOC_NR(EVIOCGPHYS(0)) || nr == _IOC_NR(EVIOCGUNIQ(0))) { errno = ENOENT; return -1; }
	}
	errno = EINVAL;
	return -1;
}

static int uin_ioctl(int fd, unsigned long req, void *arg)
{
	struct uin *u = &uins[fdt[fd].idx];
	int v = (int)(intptr_t)arg;
	switch (req) {
	case UI_SET_EVBIT: if (v < 0 || v > EV_MAX) { errno = EINVAL; return -1; } set(u->ev, v, 1); return 0;
	case UI_SET_KEYBIT: if (v < 0 || v > KEY_MAX) { errno = EINVAL; return -1; } set(u->key, v, 1); return 0;
	case UI_SET_RELBIT: set(u->rel, v, 1); return 0;
	case UI_SET_ABSBIT: set(u->abs, v, 1); return 0;
	case UI_SET_LEDBIT: set(u->led, v, 1); return 0;
	case UI_DEV_SETUP: { struct uinput_setup *us = arg; u->id = us->id; snprintf(u->name, sizeof u->name, "%.79s", us->name); return 0; }
	case UI_ABS_SETUP: set(u->abs, ((struct uinput_abs_setup *)arg)->code, 1); u->absmin[((struct uinput_abs_setup *)arg)->code] = ((struct uinput_abs_setup *)arg)->absinfo.minimum; u->absmax[((struct uinput_abs_setup *)arg)->code] = ((struct uinput_abs_setup *)arg)->absinfo.maximum; return 0;
	case UI_DEV_CREATE: uin_create(u); return 0;
	case UI_DEV_DESTROY: lg("UDESTROY %lld", (long long)now_us); return 0;
	}
	return 0;
}

int __wrap_ioctl(int fd, unsigned long req, ...)
{
	va_list ap;
	void *arg;
	int r;
	va_start(ap, req); arg = va_arg(ap, void *); va_end(ap);
	LOCK(); step();
	if (fd >= 0 && fd < MAXFD && fdt[fd].kind == K_DEV) r = dev_ioctl(fd, req, arg);
	else if (fd >= 0 && fd < MAXFD && fdt[fd].kind == K_UINPUT) r = uin_ioctl(fd, req, arg);
	else r = __real_ioctl(fd, req, arg);
	if (r < 0 && errno == EBADF) { lg("BADF ioctl %d", fd); errno = EBADF; }
	UNLOCK();
	return r;
}

static int check_ready(struct pollfd *p, nfds_t n)
{
	nfds_t i;
	int ready = 0;
	for (i = 0; i < n; i++) {
		int fd = p[i].fd;
		p[i].revents = 0;
		if (fd < 0) continue;
		if (fd < MAXFD && fdt[fd].kind == K_DEV) {
			struct client *c = &clis[fdt[fd].idx];
			struct sdev *s = &devs[c->dev];
			if (s->present == 2 && !c->n) s->present = 0;
			if (c->n && s->present) p[i].revents |= POLLIN & p[i].events;
			if (!s->present) p[i].revents |= POLLHUP | POLLERR;
		} else if (fd < MAXFD && fdt[fd].kind == K_INOTIFY) {
			if (inos[fdt[fd].idx].n) p[i].revents |= POLLIN & p[i].events;
		} else if (fd < MAXFD && (fdt[fd].kind == K_UINPUT || fdt[fd].kind == K_HIDG)) {
			p[i].revents |= p[i].events & POLLOUT;
		} else {
			struct pollfd q = { fd, p[i].events, 0 };
			if (__real_poll(&q, 1, 0) > 0) p[i].revents = q.revents;
			if (q.revents & POLLNVAL) lg("BADF poll %d", fd);
		}
		if (p[i].revents) ready++;
	}
	return ready;
}

/* the main loop's last poll: is there input on a captured (or its own) device nobody will ever look at? */
static void unpolled(struct pollfd *p, nfds_t n)
{
	nfds_t i;
	int j, main = 0;
	uint8_t seen[MAXCLI] = {0};
	for (i = 0; i < n; i++) {
		if (p[i].fd < 0 || p[i].fd >= MAXFD) continue;
		if (fdt[p[i].fd].kind == K_INOTIFY) main = 1;
		if (fdt[p[i].fd].kind == K_DEV && p[i].events & POLLIN) seen[fdt[p[i].fd].idx] = 1;
	}
	if (!main) return;
	for (j = 0; j < MAXCLI; j++)
		if (clis[j].used && clis[j].n && !seen[j] && devs[clis[j].dev].present == 1 && (devs[clis[j].dev].grabfd >= 0 || devs[clis[j].dev].virt))
			lg("UNPOLLED %d %d", clis[j].dev, (int)clis[j].n);
}

/* a poll for a single client's message, rather than the one of the main loop */
static int clients_only(struct pollfd *p, nfds_t n)
{
	nfds_t i;
	for (i = 0; i < n; i++)
		if (p[i].fd >= 0 && (p[i].fd >= MAXFD || fdt[p[i].fd].kind != K_CON)) return 0;
	return n > 0;
}

static int sim_poll(struct pollfd *p, nfds_t n, int64_t tmo_us)
{
	int64_t t0 = now_us, limit = tmo_us < 0 ? -1 : now_us + tmo_us;
	int r = 0;
	LOCK();
	for (;;) {
		step();
		ipc_drain();
		run_items();
		if (ended) {
			if (ended > 1) finish(94, "NOEXIT");
			unpolled(p, n);
			the_end();
			errno = EINTR;
			r = -1;
			break;
		}
		if ((r = check_ready(p, n))) break;
		if (limit >= 0 && now_us >= limit) { r = 0; break; }
		if (curitem < nitems && (limit < 0 || items[curitem].t <= limit)) {
			advance(items[curitem].t);
			continue;
		}
		if (limit < 0) { ended = 1; continue; }
		advance(limit + late_us);
		if (late_us) { lg("LATE %lld %lld", (long long)now_us, (long long)late_us); limit = now_us; }
		late_us = 0;
	}
	lg("%s %lld %lld %lld %d", clients_only(p, n) ? "PC" : "P", (long long)t0, (long long)tmo_us, (long long)now_us, r);
	UNLOCK();
	return r;
}

int __wrap_poll(struct pollfd *p, nfds_t n, int tmo)
{
	if (getpid() != daemon_pid) return __real_poll(p, n, tmo);
	return sim_poll(p, n, tmo < 0 ? -1 : tmo * 1000LL);
}
int __wrap_ppoll(struct pollfd *p, nfds_t n, const struct timespec *ts, const sigset_t *ss)
{
	return sim_poll(p, n, ts ? ts->tv_sec * 1000000LL + ts->tv_nsec / 1000 : -1);
}

static void sim_sleep(int64_t us)
{
	LOCK(); step();
	if (getpid() == daemon_pid) { advance(now_us + us); run_items(); lg("SL %lld %lld", (long long)now_us, (long long)us); }
	UNLOCK();
}
int __wrap_usleep(useconds_t us) { sim_sleep(us); return 0; }
unsigned __wrap_sleep(unsigned s) { sim_sleep(s * 1000000LL); return 0; }
int __wrap_nanosleep(const struct timespec *a, struct timespec *b) { sim_sleep(a->tv_sec * 1000000LL + a->tv_nsec / 1000); return 0; }
int __wrap_clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b)
{
	int64_t t = a->tv_sec * 1000000LL + a->tv_nsec / 1000;
	sim_sleep(f ? t - (start_us + now_us) : t);
	return 0;
}
int __wrap_clock_gettime(clockid_t c, struct timespec *ts)
{
	int64_t t = start_us + now_us + (c == CLOCK_REALTIME ? 1700000000000000LL : 0);
	ts->tv_sec = t / 1000000;
	ts->tv_nsec = t % 1000000 * 1000;
	return 0;
}
time_t __wrap_time(time_t *p)
{
	time_t t = (start_us + now_us) / 1000000 + 1700000000;
	if (p) *p = t;
	return t;
}
int __wrap_gettimeofday(struct timeval *tv, void *tz)
{
	int64_t t = start_us + now_us + 1700000000000000LL;
	tv->tv_sec = t / 1000000;
	tv->tv_usec = t % 1000000;
	return 0;
}

int __wrap_listen(int fd, int b)
{
	int r = __real_listen(fd, b);
	struct stat st;
	struct sockaddr_un ad;
	socklen_t al = sizeof ad;
	memset(&ad, 0, sizeof ad);
	if (!getsockname(fd, (struct sockaddr *)&ad, &al) && ad.sun_path[0] && !stat(ad.sun_path, &st))
		lg("LISTEN %lld %o %d %d", (long long)now_us, st.st_mode & 07777, (int)st.st_uid, (int)st.st_gid);
	if (fd >= 0 && fd < MAXFD) fdt[fd].kind = K_LISTEN;
	return r;
}

/* accept() fails on its own account; on ECONNABORTED the connection is gone */
static int accfail(int fd)
{
	if (!accfail_n) return 0;
	accfail_n--;
	lg("AF %lld %d", (long long)now_us, accfail_errno);
	if (accfail_errno == ECONNABORTED) {
		int r = __real_accept(fd, NULL, NULL);
		if (aq_head < aq_tail) aq_head++;
		if (r >= 0) __real_close(r);
	}
	errno = accfail_errno;
	return 1;
}
static int acc(int fd, int r)
{
	if (r >= 0 && r < MAXFD) {
		int cid = aq_head < aq_tail ? acceptq[aq_head++ % 4096] : -1;
		fdt[r].kind = K_CON;
		fdt[r].idx = cid;
		lg("CA %lld %d", (long long)now_us, cid);
	}
	return r;
}
int __wrap_accept(int fd, struct sockaddr *a, socklen_t *l)
{
	LOCK(); step();
	if (await_fd(fd, POLLIN, SO_RCVTIMEO) || accfail(fd)) { UNLOCK(); return -1; }
	int r = acc(fd, __real_accept(fd, a, l));
	UNLOCK();
	return r;
}
int __wrap_accept4(int fd, struct sockaddr *a, socklen_t *l, int f)
{
	LOCK(); step();
	if (await_fd(fd, POLLIN, SO_RCVTIMEO) || accfail(fd)) { UNLOCK(); return -1; }
	int r = acc(fd, __real_accept4(fd, a, l, f));
	UNLOCK();
	return r;
}

int __wrap_nice(int i) { return 0; }
int __wrap_setpriority(int a, int b, int c) { return 0; }
struct group *__wrap_getgrnam(const char *n)
{
	static struct group g;
	if (!opt_group) return NULL;
	g.gr_name = (char *)n;
	g.gr_gid = getgid();
	return &g;
}
int __wrap_setgid(gid_t g) { lg("SETGID %d", (int)g); return 0; }

pid_t __wrap_fork(void)
{
	pid_t p = __real_fork();
	return p;
}
pid_t __wrap_vfork(void) { return __wrap_fork(); }

static int exec_pending_is_child(pid_t want)
{
	int i, n = atomic_load(&sh->nexecd);
	for (i = 0; i < n && i < 256; i++) {
		pid_t p = atomic_load(&sh->execd[i]);
		siginfo_t si;
		if (want > 0 && p != want) continue;
		si.si_pid = 0;
		if (!waitid(P_PID, p, &si, WEXITED | WNOHANG | WNOWAIT) && si.si_pid == 0) return 1;
	}
	return 0;
}

pid_t __wrap_waitpid(pid_t pid, int *st, int opt)
{
	if (getpid() != daemon_pid || (opt & WNOHANG)) return __real_waitpid(pid, st, opt);
	int k;
	for (k = 0;; k++) {
		pid_t r = __real_waitpid(pid, st, opt | WNOHANG);
		if (r) return r;
		if (k > 20 && exec_pending_is_child(pid)) {
			lg("BLOCKWAIT %lld", (long long)now_us);
			atomic_store(&sh->release, 1);
			return __real_waitpid(pid, st, opt);
		}
		__real_usleep(100);
	}
}
pid_t __wrap_wait(int *st) { return __wrap_waitpid(-1, st, 0); }

static void do_exec(const char *path, char *const argv[])
{
	char *b = malloc(200000), tmp[300];
	size_t n, i;
	int fd;
	n = sprintf(b, "EX %lld %d ", (long long)now_us, getpid() == daemon_pid);
	hexout(b + n, (const unsigned char *)path, strlen(path));
	n += 2 * strlen(path);
	for (i = 0; argv[i]; i++) {
		b[n++] = ',';
		size_t l = strlen(argv[i]);
		if (l > 20000) l = 20000;
		hexout(b + n, (const unsigned char *)argv[i], l);
		n += 2 * l;
	}
	b[n++] = ' ';
	for (fd = 0; fd < SIMFD; fd++) {
		int fl = fcntl(fd, F_GETFD);
		if (fl < 0 || (fl & FD_CLOEXEC)) continue;
		int acc = fcntl(fd, F_GETFL) & O_ACCMODE;
		n += sprintf(b + n, "%d=%s:%s;", fd, lnk(fd, tmp, sizeof tmp), acc == O_RDWR ? "rw" : acc == O_WRONLY ? "w" : "r");
	}
	b[n++] = '\n';
	put(b, n);
	i = atomic_fetch_add(&sh->nexecd, 1);
	if (i < 256) atomic_store(&sh->execd[i], getpid());
	if (opt_cmdhold) {
		/* a long running command; keeps what a real exec would keep open */
		int k;
		for (fd = 3; fd < MAXFD; fd++) { int fl = fcntl(fd, F_GETFD); if (fl >= 0 && (fl & FD_CLOEXEC)) __real_close(fd); }
		for (k = 0; k < 40000 && (opt_cmdhold == 2 ? __real_access("cmd.release", F_OK) != 0 : !atomic_load(&sh->release)); k++) __real_usleep(200);
	}
	_exit(0);
}
int __wrap_execv(const char *p, char *const a[]) { do_exec(p, a); return -1; }
int __wrap_execvp(const char *p, char *const a[]) { do_exec(p, a); return -1; }
int __wrap_execve(const char *p, char *const a[], char *const e[]) { do_exec(p, a); return -1; }
#define VARGS char *a[64]; int n = 0; va_list ap; a[n++] = (char *)arg; va_start(ap, arg); while (n < 63 && a[n - 1]) a[n++] = va_arg(ap, char *); a[63] = NULL; va_end(ap);
int __wrap_execl(const char *p, const char *arg, ...) { VARGS do_exec(p, a); return -1; }
int __wrap_execlp(const char *p, const char *arg, ...) { VARGS do_exec(p, a); return -1; }
int __wrap_execle(const char *p, const char *arg, ...) { VARGS do_exec(p, a); return -1; }
int __wrap_system(const char *c)
{
	pid_t p = __real_fork();
	int st;
	if (!p) { char *a[] = {"sh", "-c", (char *)c, NULL}; do_exec("/bin/sh", a); }
	__wrap_waitpid(p, &st, 0);
	return st;
}
int __wrap_posix_spawn(pid_t *pid, const char *path, const void *fa, const void *at, char *const argv[], char *const envp[])
{
	pid_t p = __real_fork();
	if (!p) do_exec(path, argv);
	if (pid) *pid = p;
	return 0;
}
int __wrap_posix_spawnp(pid_t *pid, const char *path, const void *fa, const void *at, char *const argv[], char *const envp[])
{
	return __wrap_posix_spawn(pid, path, fa, at, argv, envp);
}

/* ------------------------------------------------------------------ scenarios */
static void set_ranges(uint8_t *b, const char *s, int max)
{
	while (*s && *s != ' ' && *s != '\n') {
		long a = strtol(s, (char **)&s, 10), z = a;
		if (*s == '-') z = strtol(s + 1, (char **)&s, 10);
		for (; a <= z; a++) if (a >= 0 && a <= max) set(b, a, 1);
		if (*s == ',') s++;
		else break;
	}
}

static char *xargv[64];
static int xargc;

/* DEV i node vendor product namehex present fail key= rel= abs= [ax=min,max,min,max] */
static void parse_dev(char *l)
{
	int i, present, fail, n = 0;
	unsigned v, p;
	char node[64], *k;
	char *name = malloc(strlen(l) + 1);
	size_t sz;
	sscanf(l, "%d %63s %x %x %s %d %d %n", &i, node, &v, &p, name, &present, &fail, &n);
	struct sdev *s = &devs[i];
	memset(s, 0, sizeof *s);
	s->used = 1; s->present = present; s->fail = fail; s->grabfd = -1;
	strcpy(s->node, node);
	s->id.bustype = 3; s->id.vendor = v; s->id.product = p;
	unsigned char *nm = unpayload(name, &sz);
	if (sz > sizeof s->name - 1) sz = sizeof s->name - 1;
	memcpy(s->name, nm, sz);
	s->namelen = sz;
	free(nm); free(name);
	if ((k = strstr(l + n, "key="))) set_ranges(s->key, k + 4, KEY_MAX);
	if ((k = strstr(l + n, "rel="))) set_ranges(s->rel, k + 4, REL_MAX);
	if ((k = strstr(l + n, "abs="))) set_ranges(s->abs, k + 4, ABS_MAX);
	if ((k = strstr(l + n, "ax="))) sscanf(k + 3, "%d,%d,%d,%d", &s->absinfo[0].minimum, &s->absinfo[0].maximum, &s->absinfo[1].minimum, &s->absinfo[1].maximum);
	if ((k = strstr(l + n, "held="))) set_ranges(s->state, k + 5, KEY_MAX);
	if (present) mknode(i);
}

static int run_scenario(char *s)
{
	char *save, *l;
	char dir[600] = "";
	int wall = 60, dbgfd;
	size_t cap = 0;
	int cpu = 20;

	signal(SIGPIPE, SIG_DFL);
	xargc = 0;
	xargv[xargc++] = "keyd";
	for (l = strtok_r(s, "\n", &save); l; l = strtok_r(NULL, "\n", &save)) {
		if (!strncmp(l, "DIR ", 4)) {
			if (chdir(l + 4)) finish(93, "NODIR");
			mkdir("dev", 0755); mkdir("dev/input", 0755); mkdir("run", 0755);
			mkdir("etc", 0755); mkdir("etc/keyd", 0755); mkdir("share", 0755); mkdir("share/keyd", 0755);
		} else if (!strncmp(l, "FILE ", 5)) {
			char b[1200];
			int n = 0;
			size_t sz, o = 0;
			sscanf(l + 5, "%1100s %n", b, &n);
			unsigned char *pl = unpayload(l + 5 + n, &sz);
			mkparents(b);
			int fd = __real_open(b, O_CREAT | O_TRUNC | O_WRONLY | O_CLOEXEC, 0644);
			while (fd >= 0 && o < sz) { ssize_t r = __real_write(fd, pl + o, sz - o); if (r <= 0) break; o += r; }
			if (fd >= 0) __real_close(fd);
			free(pl);
		} else if (!strncmp(l, "DEV ", 4)) parse_dev(l + 4);
		else if (!strncmp(l, "ARG ", 4)) { size_t sz; unsigned char *a = unpayload(l + 4, &sz); a[sz] = 0; xargv[xargc++] = (char *)a; }
		else if (!strncmp(l, "ENV ", 4)) putenv(l + 4);
		else if (!strncmp(l, "OPT echo ", 9)) opt_echo = atoi(l + 9);
		else if (!strncmp(l, "OPT group ", 10)) opt_group = atoi(l + 10);
		else if (!strncmp(l, "OPT cmdhold ", 12)) opt_cmdhold = atoi(l + 12);
#ifdef SIM_NOLOCK
		else if (!strncmp(l, "OPT jitter ", 11)) opt_jitter = atoi(l + 11);
#endif
		else if (!strncmp(l, "OPT start ", 10)) start_us = atoll(l + 10);
		else if (!strncmp(l, "OPT cpu ", 8)) cpu = atoi(l + 8);
		else if (!strncmp(l, "OPT umask ", 10)) umask(strtol(l + 10, NULL, 8));
		else if (!strncmp(l, "MKSOCK ", 7)) { /* a stale socket file */
			struct sockaddr_un ad = { .sun_family = AF_UNIX };
			int sd = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
			strncpy(ad.sun_path, l + 7, sizeof ad.sun_path - 1);
			bind(sd, (struct sockaddr *)&ad, sizeof ad);
			__real_close(sd);
		} else if (l[0] == '@') {
			char *e;
			if (nitems == cap) { cap = cap ? cap * 2 : 256; items = realloc(items, cap * sizeof *items); }
			items[nitems].t = strtoll(l + 1, &e, 10);
			items[nitems++].line = e + 1;
		}
	}
	xargv[xargc] = NULL;
	struct rlimit rl = { cpu, cpu + 2 };
	setrlimit(RLIMIT_CPU, &rl);
	struct rlimit fl = { MAXFD - 1, MAXFD - 1 };
	setrlimit(RLIMIT_NOFILE, &fl);
	rl.rlim_cur = rl.rlim_max = 0;
	setrlimit(RLIMIT_CORE, &rl);
	int fd = __real_open("/dev/null", O_RDONLY);
	dup2(fd, 0); __real_close(fd);
	fd = __real_open("stdout.txt", O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644);
	dup2(fd, 1); __real_close(fd);
	fd = __real_open("stderr.txt", O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644);
	dup2(fd, 2); __real_close(fd);
	daemon_pid = getpid();
	return keyd_main(xargc, xargv);
}

static int rdall(int fd, void *b, size_t n)
{
	size_t o = 0;
	while (o < n) { ssize_t r = __real_read(fd, (char *)b + o, n - o); if (r <= 0) return -1; o += r; }
	return 0;
}

int main(int argc, char **argv)
{
	int i, in, out;
	if (argc > 1 && !strcmp(argv[1], "--direct"))
		return keyd_main(argc - 1, argv + 1);
	in = fcntl(0, F_DUPFD_CLOEXEC, SIMFD);
	out = fcntl(1, F_DUPFD_CLOEXEC, SIMFD);
	signal(SIGPIPE, SIG_IGN);
	prctl(PR_SET_CHILD_SUBREAPER, 1);
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	sh = mmap(NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	for (i = 0; i < MAXSDEV; i++) devs[i].grabfd = -1;
	for (;;) {
		uint32_t len;
		char *s, hdr[128];
		int st = 0, wall = 0;
		pid_t p;
		if (rdall(in, &len, 4)) return 0;
		s = malloc(len + 1);
		if (rdall(in, s, len)) return 0;
		s[len] = 0;
		atomic_store(&sh->pos, 0);
		atomic_store(&sh->nexecd, 0);
		atomic_store(&sh->release, 0);
		p = __real_fork();
		if (!p) { setpgid(0, 0); exit(run_scenario(s)); }
		int hold2 = strstr(s, "OPT cmdhold 2") != NULL;
		free(s);
		setpgid(p, p);
		/* wall clock watchdog: inconclusive, never a verdict */
		for (i = 0;; i++) {
			pid_t r = __real_waitpid(p, &st, WNOHANG);
			if (r == p) break;
			if (i > 600000) { wall = 1; kill(p, SIGKILL); __real_waitpid(p, &st, 0); break; }
			if (i < 200) { struct timespec ts = {0, 20000}; __real_usleep(20); (void)ts; }
			else __real_usleep(200);
		}
		/* let orphaned command launches reach exec */
		for (i = 0; i < 20000 && !hold2; i++) {
			int s2;
			pid_t r = __real_waitpid(-1, &s2, WNOHANG);
			if (r < 0) break;
			if (r == 0) { atomic_store(&sh->release, 1); __real_usleep(100); }
		}
		long n = atomic_load(&sh->pos);
		int ovf = n >= LOGSZ - 1;
		if (ovf) n = LOGSZ - 1;
		int h = snprintf(hdr, sizeof hdr, "STATUS %d %d %d %d\n", WIFEXITED(st) ? WEXITSTATUS(st) : -1, WIFSIGNALED(st) ? WTERMSIG(st) : 0, wall, ovf);
		len = h + n;
		if (__real_write(out, &len, 4) != 4) return 0;
		if (__real_write(out, hdr, h) != h) return 0;
		long o = 0;
		while (o < n) { ssize_t r = __real_write(out, sh->buf + o, n - o); if (r <= 0) return 0; o += r; }
		memset(sh->buf, 0, n);
		if (!hold2) kill(-p, SIGKILL);
	}
}
