// Native implementation of the harness interface: replays one assignment of inputs, and one
// schedule, against the real code compiled normally. Descriptors 0-2, ioctl, isatty, the clock and
// thread scheduling are stood in for: threads are real, but run one at a time and change over only
// where the executor changes over (blocking calls, and the recorded choices at visible operations).
#define _GNU_SOURCE
#include <errno.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <pthread.h>
#include <semaphore.h>
#include <fcntl.h>
#include <dlfcn.h>

extern int se_main_index(const char *name);
extern void se_run(int i);

static unsigned long long in[4096];
static int nin, pin, par[64], npar;
static unsigned char *out[3];
static size_t outn[3], outc[3];
static unsigned char *sin_;
static size_t sinn, sinp;
static size_t *chunk;
static int nchunk, serr;
static int wfail[3], forced;
static int ws_on, ws_w, ws_h;
static int clk_on;
static long clk_s, clk_n;

static long raw(long n, long a, long b, long c, long d, long e, long f) {
	long r;
	register long r10 __asm__("r10") = d;
	register long r8 __asm__("r8") = e;
	register long r9 __asm__("r9") = f;
	__asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
	return r;
}
static long sys(long n, long a, long b, long c, long d, long e, long f) {
	long r = raw(n, a, b, c, d, e, f);
	if (r < 0 && r > -4096) { errno = -r; return -1; }
	return r;
}
static void quit_(int c) { raw(SYS_exit_group, c, 0, 0, 0, 0, 0); for (;;) {} }
static void say(const char *p, size_t n) { raw(SYS_write, 1, (long)p, n, 0, 0, 0); }
static void sayf(const char *f, ...) {
	char b[2000];
	va_list a;
	va_start(a, f);
	int n = vsnprintf(b, sizeof b, f, a);
	va_end(a);
	say(b, n > (int)sizeof b ? (int)sizeof b : n);
}
static unsigned long long next_(void) {
	forced = 0;
	if (pin >= nin) { sayf("SE-NOINPUT\n"); quit_(78); }
	return in[pin++];
}
uint8_t se_u8(void) { return next_(); }
uint8_t se_ascii(void) { return next_(); }
uint16_t se_u16(void) { return next_(); }
uint32_t se_u32(void) { return next_(); }
uint64_t se_u64(void) { return next_(); }
uint32_t se_below(uint32_t n) { uint32_t v = next_(); if (v >= n) { sayf("SE-RANGE\n"); quit_(78); } return v; }
uint64_t se_fix(uint64_t v) { return v; }
void se_assume(_Bool c) { if (!c) { sayf("SE-ASSUME\n"); quit_(77); } }
void se_assert(_Bool c, const char *p, size_t n) {
	forced = 0;
	if (!c) {
		sayf("SE-ASSERT %.*s\n", (int)n, p);
		for (int f = 1; f < 3; f++) if (outn[f]) { sayf("SE-FD%d ", f); for (size_t i = 0; i < outn[f] && i < 4000; i++) { unsigned char c = out[f][i]; if (c >= 32 && c < 127 && c != '\\') say((char *)&c, 1); else sayf("\\x%02x", c); } say("\n", 1); }
		quit_(3);
	}
}
void se_reach(uint32_t n) { forced = 0; sayf("SE-REACH %u\n", n); }
uint64_t se_param(uint32_t n) { forced = 0; return n < (uint32_t)npar ? par[n] : 0; }
void se_observe(const unsigned char *p, size_t n) {
	char *b = malloc(n * 2 + 16);
	int k = sprintf(b, "SE-OBS ");
	for (size_t i = 0; i < n; i++) k += sprintf(b + k, "%02x", p[i]);
	b[k++] = '\n';
	say(b, k);
	free(b);
}
void se_show(const unsigned char *p, size_t n) { se_observe(p, n); }
void se_stdin(const unsigned char *p, size_t n) {
	sin_ = realloc(sin_, sinn + n + 1);
	memcpy(sin_ + sinn, p, n);
	sinn += n;
	chunk = realloc(chunk, (nchunk + 1) * sizeof *chunk);
	chunk[nchunk++] = sinn;
}
size_t se_stdin_left(void) { return sinn - sinp; }
void se_stdin_err(uint32_t n) { serr = n; }
size_t se_out_len(uint32_t fd) { forced = 0; size_t n = outn[fd]; return n; }
void se_out(uint32_t fd, unsigned char *p, size_t off, size_t n) { memcpy(p, out[fd] + off, n); }
void se_out_clear(uint32_t fd) { outn[fd] = 0; }
void se_wfail(uint32_t fd, uint32_t n) { wfail[fd] = n; }
void se_winsize(uint16_t w, uint16_t h, _Bool on) { forced = 0; ws_w = w; ws_h = h; ws_on = on; }
// ---- threads
#define MAXT 6
enum { RUN, WAIT, JOIN, DONE };
static struct thr {
	int st, has_dl, join, timed, ndt, real_on;
	unsigned long long addr, dl;
	sem_t sem;
	pthread_t real;
	void *(*f)(void *);
	void *arg;
	struct { void (*f)(void *); void *o; } dt[256];
	void *keys[64];
} th[MAXT];
static int nthr = 1, cur, sched_on, preempt, ticks, waits;
static void (*keyd[64])(void *);
static int nkeys = 1;
static unsigned long long now_ = 1000000000000ULL;
static int sch[4096], nsch, spos;
static __thread int self_, gone;

void se_advance(uint64_t ns) { forced = 0; now_ += ns; }
void se_clock(uint64_t s, uint64_t n) { forced = 0; clk_on = 1; clk_s = s; clk_n = n; }
void se_sched(uint32_t a, uint32_t b) { sched_on = a != 255; preempt = a == 255 ? 0 : a; ticks = b; }
uint32_t se_threads(void) { forced = 0; int n = 0; for (int i = 0; i < nthr; i++) n += th[i].st != DONE; return n; }

static void go(int to) {
	// let thread `to` run; returns when this thread is chosen again
	if (th[to].st == WAIT && th[to].has_dl) {
		if (th[to].dl > now_) now_ = th[to].dl;
		now_++;
		th[to].st = RUN;
		th[to].timed = 1;
	}
	int me = self_;
	cur = to;
	if (to == me) return;
	sem_post(&th[to].sem);
	if (gone) return;
	while (sem_wait(&th[me].sem)) {}
}
static int choice(int n) {
	// the recorded choice; without a record the first option
	if (spos >= nsch) return 0;
	int v = sch[spos++];
	if (v > n) { sayf("SE-SCHED choice %d of %d at %d\n", v, n, spos - 1); quit_(79); }
	return v;
}
static struct { void *f; int fl; } sigs_[65];
static int sig_no, sig_left;
static __thread int in_sig;
static void (*exit_cb)(int);
static void deliver(int sig) {
	siginfo_t si;
	memset(&si, 0, sizeof si);
	si.si_signo = sig;
	if (!sigs_[sig].f) { sayf("SE-SIG none\n"); quit_(79); }
	in_sig++;
	((void (*)(int, siginfo_t *, void *))sigs_[sig].f)(sig, &si, 0);
	in_sig--;
}
int sigaction(int sig, const struct sigaction *a, struct sigaction *old) {
	if (old) { memset(old, 0, sizeof *old); old->sa_sigaction = (void *)sigs_[sig].f; old->sa_flags = sigs_[sig].fl; }
	if (a) { sigs_[sig].f = (void *)a->sa_sigaction; sigs_[sig].fl = a->sa_flags; }
	return 0;
}
void se_raise(uint32_t s) { forced = 0; deliver(s); }
void se_signals(uint32_t s, uint32_t n) { forced = 0; sig_no = s; sig_left = n; }
uint32_t se_signals_left(void) { forced = 0; return sig_left; }
void se_on_exit(void (*f)(int)) { forced = 0; exit_cb = f; }
void _exit(int c) {
	if (!exit_cb) { sayf("SE-PANIC process exit with code %d\n", c); quit_(4); }
	void (*f)(int) = exit_cb;
	exit_cb = 0;
	sched_on = 0;
	sig_left = 0;
	f(c & 255);
	sayf("SE-OK\n");
	quit_(0);
	for (;;) {}
}
static void point(void) {
	if (gone || (nthr == 1 && !sig_left)) return;
	int sig = sig_left > 0 && sigs_[sig_no].f && !in_sig;
	if (!sched_on && !sig) return;
	int o[2 * MAXT], n = 0;
	if (sched_on && preempt > 0) {
	for (int i = 0; i < nthr; i++) if (i != cur && th[i].st == RUN) o[n++] = i;
	if (ticks > 0) for (int i = 0; i < nthr; i++) if (i != cur && th[i].st == WAIT && th[i].has_dl) o[n++] = i;
	}
	if (!n && !sig) return;
	int v = choice(n + sig);
	if (v == 0) return;
	if (v == n + 1) { sig_left--; deliver(sig_no); point(); return; }
	preempt--;
	if (th[o[v - 1]].st != RUN) ticks--;
	go(o[v - 1]);
}
void se_yield(void) { point(); }
void se_spin(void) {
	if (gone) return;
	for (int d = 1; d < nthr; d++) { int o = (cur + d) % nthr; if (th[o].st == RUN) { go(o); return; } }
}
static void block(void) {
	int o[2 * MAXT], n = 0;
	for (int i = 0; i < nthr; i++) if (i != cur && th[i].st == RUN) o[n++] = i;
	if (!n) {
		int b = -1;
		for (int i = 0; i < nthr; i++) if (th[i].st == WAIT && th[i].has_dl && (b < 0 || th[i].dl < th[b].dl)) b = i;
		if (b < 0) { sayf("SE-ASSERT deadlock: every thread is blocked\n"); quit_(3); }
		if (++forced > 40) { sayf("SE-ASSERT no progress: only timeouts keep firing\n"); quit_(3); }
		go(b);
		return;
	}
	if (ticks > 0 && sched_on) for (int i = 0; i < nthr; i++) if (th[i].st == WAIT && th[i].has_dl) o[n++] = i;
	int v = 0;
	if (n > 1 && sched_on) {
		v = choice(n - 1);
		if (th[o[v]].st != RUN) ticks--;
	}
	go(o[v]);
}
static int wait_on(unsigned long long addr, int has, unsigned long long dl) {
	struct thr *t = &th[self_];
	t->st = WAIT; t->addr = addr; t->has_dl = has; t->dl = dl; t->timed = 0;
	block();
	return t->timed;
}
void se_settle(void) {
	forced = 0;
	for (int i = 0; i < nthr; i++) if (i != cur && th[i].st == RUN) { wait_on(0, 1, now_); return; }
}
uint64_t se_sig(uint32_t n) { return (uint64_t)sigs_[n].f; }
static void *tramp(void *p) {
	self_ = (int)(long)p;
	struct thr *t = &th[self_];
	while (sem_wait(&t->sem)) {}
	void *r = t->f(t->arg);
	while (t->ndt) { t->ndt--; t->dt[t->ndt].f(t->dt[t->ndt].o); }
	for (int i = 1; i < nkeys; i++) if (t->keys[i] && keyd[i]) { void *v = t->keys[i]; t->keys[i] = 0; keyd[i](v); }
	t->st = DONE;
	for (int i = 0; i < nthr; i++) if (th[i].st == JOIN && th[i].join == self_) th[i].st = RUN;
	gone = 1;
	block();
	return r;
}
int pthread_create(pthread_t *p, const pthread_attr_t *a, void *(*f)(void *), void *arg) {
	static int (*real)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
	(void)a;
	if (!real) real = dlsym(RTLD_NEXT, "pthread_create");
	if (nthr >= MAXT) { sayf("SE-THREADS\n"); quit_(79); }
	int i = nthr++;
	th[i].f = f; th[i].arg = arg; th[i].st = RUN;
	sem_init(&th[i].sem, 0, 0);
	int r = real(&th[i].real, 0, tramp, (void *)(long)i);
	*p = i + 1;
	return r;
}
int pthread_join(pthread_t p, void **r) {
	int i = (int)p - 1;
	if (th[i].st != DONE) { th[self_].st = JOIN; th[self_].join = i; block(); }
	if (r) *r = 0;
	return 0;
}
int pthread_detach(pthread_t p) { (void)p; return 0; }
pthread_t pthread_self(void) { return self_ + 1; }
int pthread_setname_np(pthread_t p, const char *n) { (void)p; (void)n; return 0; }
int __cxa_thread_atexit_impl(void (*f)(void *), void *o, void *d) {
	(void)d;
	struct thr *t = &th[self_];
	if (!gone && t->ndt < 256) { t->dt[t->ndt].f = f; t->dt[t->ndt].o = o; t->ndt++; }
	return 0;
}
int pthread_key_create(pthread_key_t *k, void (*d)(void *)) { *k = nkeys; keyd[nkeys++] = d; return 0; }
int pthread_key_delete(pthread_key_t k) { (void)k; return 0; }
int pthread_setspecific(pthread_key_t k, const void *v) { th[self_].keys[k] = (void *)v; return 0; }
void *pthread_getspecific(pthread_key_t k) { return th[self_].keys[k]; }
int sched_yield(void) { se_spin(); return 0; }
int nanosleep(const struct timespec *t, struct timespec *r) {
	(void)r;
	wait_on(0, 1, now_ + t->tv_sec * 1000000000ULL + t->tv_nsec);
	return 0;
}
int clock_nanosleep(clockid_t id, int fl, const struct timespec *t, struct timespec *r) { (void)id;
	if (!(fl & 1)) return nanosleep(t, r);
	wait_on(0, 1, t->tv_sec * 1000000000ULL + t->tv_nsec);
	return 0;
}
ssize_t getrandom(void *p, size_t n, unsigned f) { (void)f; memset(p, 7, n); return n; }
long syscall(long nr, ...) {
	va_list v;
	va_start(v, nr);
	long a[6];
	for (int i = 0; i < 6; i++) a[i] = va_arg(v, long);
	va_end(v);
	if (nr == SYS_getrandom) return getrandom((void *)a[0], a[1], 0);
	if (nr == SYS_gettid) return 1000 + self_;
	if (nr != SYS_futex) return sys(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
	int op = a[1] & 0x7f;
	point();
	if (op == 9 || op == 0) {
		if (*(volatile uint32_t *)a[0] != (uint32_t)a[2]) { errno = EAGAIN; return -1; }
		struct timespec *t = (void *)a[3];
		waits++;
		if (wait_on(a[0], t != 0, t ? t->tv_sec * 1000000000ULL + t->tv_nsec : 0)) { errno = ETIMEDOUT; return -1; }
		return 0;
	}
	if (op == 1 || op == 10) {
		unsigned n = 0;
		for (int i = 0; i < nthr && n < (unsigned)a[2]; i++) if (th[i].st == WAIT && th[i].addr == (unsigned long long)a[0] && a[0]) { th[i].st = RUN; n++; }
		return n;
	}
	errno = ENOSYS;
	return -1;
}
static void cap(int fd, const void *p, size_t n) {
	if (outn[fd] + n > outc[fd]) { outc[fd] = (outn[fd] + n) * 2; out[fd] = realloc(out[fd], outc[fd]); }
	memcpy(out[fd] + outn[fd], p, n);
	outn[fd] += n;
}
// Run the real program (SE_FYI) with the given arguments.
__attribute__((weak)) int se_target_main(int argc, char **argv) { (void)argc; (void)argv; return 0; }
int se_call_main(int (*f)(int, char **), int argc, char **argv) {
	(void)argc; (void)f;
	int pi[2], po[2], pe[2];
	if (pipe(pi) || pipe(po) || pipe(pe)) quit_(70);
	pid_t pid = fork();
	if (!pid) {
		dup2(pi[0], 0); dup2(po[1], 1); dup2(pe[1], 2);
		for (int i = 3; i < 64; i++) close(i);
		argv[0] = getenv("SE_FYI");
		alarm(10);
		execv(argv[0], argv);
		quit_(71);
	}
	close(pi[0]); close(po[1]); close(pe[1]);
	struct { void *f; unsigned long fl; void *r; unsigned long m; } ign = {(void *)SIG_IGN, 0, 0, 0};
	raw(SYS_rt_sigaction, SIGPIPE, (long)&ign, 0, 8, 0, 0);
	raw(SYS_write, pi[1], (long)(sin_ + sinp), sinn - sinp, 0, 0, 0);
	sinp = sinn;
	close(pi[1]);
	char b[4096];
	struct pollfd pf[2] = {{po[0], POLLIN, 0}, {pe[0], POLLIN, 0}};
	int open_ = 2;
	while (open_) {
		poll(pf, 2, -1);
		for (int i = 0; i < 2; i++) if (pf[i].fd >= 0 && pf[i].revents) {
			long n = raw(SYS_read, pf[i].fd, (long)b, sizeof b, 0, 0, 0);
			if (n <= 0) { close(pf[i].fd); pf[i].fd = -1; open_--; }
			else {
				cap(i + 1, b, n);
				// a reader that leaves
				if (wfail[i + 1]) { close(pf[i].fd); pf[i].fd = -1; open_--; }
			}
		}
	}
	int s;
	waitpid(pid, &s, 0);
	if (WIFSIGNALED(s)) { sayf("SE-SIGNAL %d\n", WTERMSIG(s)); for (int f = 2; f < 3; f++) { sayf("SE-FD%d %.*s\n", f, (int)outn[f], out[f]); } quit_(3); }
	return WEXITSTATUS(s);
}

// The n-th next write fails, is interrupted, or takes only some bytes. -1: it failed.
static size_t most(int fd) {
	if ((wfail[fd] & 0xffff) > 0 && (--wfail[fd] & 0xffff) == 0) {
		int m = wfail[fd] >> 16;
		if (m < 2) { errno = m ? EINTR : EIO; return -1; }
		return m - 1;
	}
	return -2;
}
ssize_t write(int fd, const void *p, size_t n) {
	if (fd != 1 && fd != 2) return sys(SYS_write, fd, (long)p, n, 0, 0, 0);
	point();
	size_t m = most(fd);
	if (m == (size_t)-1) return -1;
	if (n > m) n = m;
	cap(fd, p, n);
	return n;
}
ssize_t writev(int fd, const struct iovec *v, int c) {
	if (fd != 1 && fd != 2) return sys(SYS_writev, fd, (long)v, c, 0, 0, 0);
	point();
	size_t n = 0, m = most(fd);
	if (m == (size_t)-1) return -1;
	for (int i = 0; i < c; i++) {
		size_t l = v[i].iov_len < m - n ? v[i].iov_len : m - n;
		cap(fd, v[i].iov_base, l);
		n += l;
	}
	return n;
}
ssize_t read(int fd, void *p, size_t n) {
	if (fd != 0) return sys(SYS_read, fd, (long)p, n, 0, 0, 0);
	if (sinp == sinn) {
		if (serr > 0) { serr--; errno = EIO; return -1; }
		static int eofs;
		if (++eofs > 12) { sayf("SE-ASSERT no progress: reading past the end of input forever\n"); quit_(3); }
		return 0;
	}
	size_t lim = sinn - sinp;
	for (int i = 0; i < nchunk; i++) if (chunk[i] > sinp) { lim = chunk[i] - sinp; break; }
	if (n > lim) n = lim;
	memcpy(p, sin_ + sinp, n);
	sinp += n;
	return n;
}
int ioctl(int fd, unsigned long rq, ...) {
	va_list a;
	va_start(a, rq);
	void *p = va_arg(a, void *);
	va_end(a);
	if (rq == TIOCGWINSZ) {
		if (!ws_on) { errno = ENOTTY; return -1; }
		struct winsize *w = p;
		memset(w, 0, sizeof *w);
		w->ws_col = ws_w;
		w->ws_row = ws_h;
		return 0;
	}
	return sys(SYS_ioctl, fd, rq, (long)p, 0, 0, 0);
}
int isatty(int fd) { return fd > 0 && ws_on; }
int clock_gettime(clockid_t id, struct timespec *t) {
	(void)id;
	if (clk_on) { t->tv_sec = clk_s; t->tv_nsec = clk_n; return 0; }
	t->tv_sec = now_ / 1000000000;
	t->tv_nsec = now_ % 1000000000;
	return 0;
}
static void onabrt(int s) {
	sayf("SE-PANIC signal %d: %.*s\n", s, outn[2] > 1500 ? 1500 : (int)outn[2], out[2] ? (char *)out[2] : "");
	quit_(4);
}
int main(int argc, char **argv) {
	// argv: entry, inputs, params, schedule (comma separated)
	if (argc < 4) return 64;
	for (char *p = argv[2]; *p;) { in[nin++] = strtoull(p, &p, 0); if (*p == ',') p++; }
	for (char *p = argv[3]; *p;) { par[npar++] = strtoull(p, &p, 0); if (*p == ',') p++; }
	if (argc > 4) for (char *p = argv[4]; *p && *p != '-';) { sch[nsch++] = strtoull(p, &p, 0); if (*p == ',') p++; }
	sem_init(&th[0].sem, 0, 0);
	static const int bad[] = {SIGABRT, SIGILL, SIGSEGV, SIGTRAP};
	for (int i = 0; i < 4; i++) {
		struct { void *f; unsigned long fl; void *r; unsigned long m; } k = {(void *)onabrt, 0x04000000, (void *)onabrt, 0};
		raw(SYS_rt_sigaction, bad[i], (long)&k, 0, 8, 0, 0);
	}
	int i = se_main_index(argv[1]);
	if (i < 0) return 65;
	se_run(i);
	sayf("SE-OK\n");
	quit_(0);
}
