// Native replay runtime: runs a harness on the real compiled code with the inputs of a counterexample or sample path.
// Exit codes: 0 finished, 101 assertion failed, 103 assumption false (diverged), 104 inputs diverged.
#include "sym.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <semaphore.h>
#include <dlfcn.h>
#include <pthread.h>

namespace {
struct Ent { const char *name; unsigned w; uint64_t v; };
Ent *g_in; int g_nin, g_pos;
bool g_loaded;
struct NameCount { char name[64]; int n; };
NameCount g_nc[512]; int g_nnc;
void out(const char *s) { long r = syscall(SYS_write, 1, s, strlen(s)); (void)r; }
[[noreturn]] void die(int rc, const char *a, const char *b) {
	char buf[600];
	snprintf(buf, sizeof buf, "\n%s %s\n", a, b);
	out(buf);
	syscall(SYS_exit_group, rc);
	__builtin_trap();
}
char *g_buf;
void load() {
	if (g_loaded) return;
	g_loaded = true;
	const char *fn = getenv("SYM_REPLAY");
	if (!fn) die(105, "REPLAY-ERROR", "SYM_REPLAY not set");
	int fd = syscall(SYS_open, fn, O_RDONLY);
	if (fd < 0) die(105, "REPLAY-ERROR", "cannot open replay file");
	size_t cap = 1 << 20, n = 0;
	g_buf = (char *)malloc(cap + 1);
	while (true) {
		long r = syscall(SYS_read, fd, g_buf + n, cap - n);
		if (r <= 0) break;
		n += r;
		if (n == cap) { cap *= 2; g_buf = (char *)realloc(g_buf, cap + 1); }
	}
	g_buf[n] = 0;
	syscall(SYS_close, fd);
	int cnt = 0;
	for (char *p = g_buf; *p; p++) if (*p == '\n') cnt++;
	g_in = (Ent *)calloc(cnt + 1, sizeof(Ent));
	char *p = g_buf;
	while (*p) {
		char *e = strchr(p, '\n');
		if (e) *e = 0;
		if (!strncmp(p, "in ", 3)) {
			char *nm = p + 3, *sp = strchr(nm, ' ');
			*sp = 0;
			Ent &x = g_in[g_nin++];
			x.name = nm;
			char *q;
			x.w = strtoul(sp + 1, &q, 10);
			x.v = strtoull(q, nullptr, 10);
		}
		if (!e) break;
		p = e + 1;
	}
}
uint64_t take(const char *name) {
	load();
	int i;
	for (i = 0; i < g_nnc; i++) if (!strcmp(g_nc[i].name, name)) break;
	if (i == g_nnc) { if (g_nnc < 511) g_nnc++; snprintf(g_nc[i].name, 64, "%s", name); g_nc[i].n = 0; }
	char u[128];
	int k = g_nc[i].n++;
	if (k) snprintf(u, sizeof u, "%s#%d", name, k); else snprintf(u, sizeof u, "%s", name);
	if (g_pos >= g_nin) die(104, "REPLAY-DIVERGED out of inputs at", u);
	Ent &e = g_in[g_pos++];
	if (strcmp(e.name, u)) { char b[300]; snprintf(b, sizeof b, "expected %s, asked %s", e.name, u); die(104, "REPLAY-DIVERGED", b); }
	return e.v;
}
}
extern "C" {
uint64_t sym_bits(const char *name, int bits) { uint64_t v = take(name); return bits < 64 ? v & ((1ull << bits) - 1) : v; }
uint64_t sym_range(const char *name, uint64_t lo, uint64_t hi) { uint64_t v = take(name); if (v < lo || v > hi) die(103, "REPLAY-DIVERGED", "range"); return v; }
uint64_t sym_pick(const char *name, uint64_t n) { return take(name); }
void sym_mem(void *p, size_t n, const char *name) { for (size_t i = 0; i < n; i++) ((unsigned char *)p)[i] = (unsigned char)take(name); }
void sym_assume(int c) { if (!c) die(103, "REPLAY-DIVERGED", "assumption false"); }
void sym_assert(int c, const char *m) { if (!c) die(101, "REPLAY-VIOLATION", m); }
void sym_fail(const char *m) { die(101, "REPLAY-VIOLATION", m); }
void sym_reach(const char *) {}
void sym_observe(const char *name, uint64_t v) { char b[200]; snprintf(b, sizeof b, "\nobs %s %llu\n", name, (unsigned long long)v); out(b); }
uint64_t sym_concrete(uint64_t v) { return v; }
int sym_is_symbolic(void) { return 0; }
uint64_t sym_param(const char *name, uint64_t def) {
	const char *e = getenv("SYM_PARAMS");
	size_t l = strlen(name);
	while (e && *e) {
		if (!strncmp(e, name, l) && e[l] == '=') return strtoull(e + l + 1, nullptr, 0);
		e = strchr(e, ',');
		if (e) e++;
	}
	return def;
}
void sym_stop(void) { die(0, "REPLAY-OK", "stop"); }
void sym_trace(const char *m) { out("\ntrace "); out(m); out("\n"); }
void sym_print(const char *name, uint64_t v) { char b[200]; snprintf(b, sizeof b, "\nprint %s %llu\n", name, (unsigned long long)v); out(b); }
void sym_unsupported(const char *m) { die(106, "REPLAY-UNSUPPORTED", m); }
uint64_t sym_ite(int c, uint64_t a, uint64_t b) { return c ? a : b; }

// baton-passing threads
static sem_t g_sem[16];
static int g_tids = 1;
static __thread int t_id;
struct Start { void (*fn)(void *); void *arg; int id; };
static void *start(void *p) {
	Start s = *(Start *)p;
	t_id = s.id;
	sem_wait(&g_sem[s.id]);
	s.fn(s.arg);
	return nullptr;
}
int be_thread_new(void (*fn)(void *), void *arg) {
	static auto real = (int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *))dlsym(RTLD_NEXT, "pthread_create");
	Start *s = new Start{fn, arg, g_tids++};
	pthread_t t;
	if (real(&t, nullptr, start, s)) die(105, "REPLAY-ERROR", "pthread_create");
	return s->id;
}
void be_thread_switch(int tid) {
	sem_post(&g_sem[tid]);
	while (sem_wait(&g_sem[t_id])) ;
}
int be_thread_self(void) { return t_id; }
void be_thread_park(void) { while (true) sem_wait(&g_sem[t_id]); }
__attribute__((weak)) void __asan_dummy(void) {}
}
struct AtEnd { ~AtEnd() { die(0, "REPLAY-OK", "end"); } };
extern "C" { __attribute__((weak)) const char *BEES_VERSION = "sym"; __attribute__((weak)) const char *BEES_USAGE = "%s"; }
