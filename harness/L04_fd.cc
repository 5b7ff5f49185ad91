// NATIVE: sched
// MODS: lib/fd.cc lib/error.cc lib/string.cc lib/bytevector.cc
// JOB: seq4 steps=4 nh=2
// JOB: two mode=1 pre=3
// THOROUGH: seq5 steps=5 nh=2
// THOROUGH: seq43 steps=4 nh=3
// THOROUGH: two5 mode=1 pre=5
// REACH: closed shared negative assigned race
// BOUND: every sequence of 4 (5) creations, copies, assignments and destructions of two (three) handles over two symbolic descriptor numbers and a negative one, with failing close calls; two threads holding, dropping and reopening one descriptor with every interleaving of at most 3 (5) preemptions
#include "sym.h"
#include "crucible/fd.h"
#include <thread>
#include <vector>
#include <errno.h>
using namespace crucible;
extern "C" pid_t gettid() throw() { return 7; }
static int F[2];
static bool isopen[2];
static int closes[2];
static bool g_fail, g_thr;
extern "C" int close(int fd) {
	sym_assert(fd >= 0, "a negative descriptor was closed");
	int i = fd == F[0] ? 0 : 1;
	sym_assert(fd == F[i], "a descriptor nobody opened was closed");
	sym_assert(isopen[i], "a descriptor was closed twice");
	isopen[i] = false; closes[i]++;
	if (g_thr) sym_yield();
	if (g_fail) { errno = EIO; return -1; }
	return 0;
}
static void seq() {
	int steps = sym_param("steps", 5), nh = sym_param("nh", 2);
	g_fail = sym_pick("closefails", 2);
	Fd *h[3] = { 0, 0, 0 };
	int own[3] = { -1, -1, -1 };
	for (int s = 0; s < steps; s++) {
		int op = sym_pick("op", 4), a = sym_pick("a", nh), arg = op == 3 ? 0 : sym_pick("arg", op == 2 ? nh : 3);
		// a descriptor number enters the daemon by being opened: it is open and nobody else owns it,
		// or it is taken from a live handle
		if (op == 1 && !h[a]) continue;
		int d = arg < 2 ? arg : -1;
		int neg = -1;
		if (op < 2 && d >= 0 && !isopen[d]) isopen[d] = true;
		if (op < 2 && d < 0) { neg = (int)(sym_bits("neg", 32) | 0x80000000u); sym_reach("negative"); }
		if (op == 0) {            // construct from a number
			if (h[a]) { delete h[a]; }
			own[a] = -1;
			if (d >= 0) isopen[d] = true;
			h[a] = new Fd(d >= 0 ? F[d] : neg); own[a] = d;
		} else if (op == 1) {     // assign a number
			*h[a] = d >= 0 ? F[d] : neg; own[a] = d;
			sym_reach("assigned");
		} else if (op == 2) {     // copy from another handle
			if (!h[arg]) continue;
			Fd *n = new Fd(*h[arg]);
			if (h[a] && a != arg) { *h[a] = *n; delete n; } else { delete h[a]; h[a] = n; }
			own[a] = own[arg];
			sym_reach("shared");
		} else {
			delete h[a]; h[a] = 0; own[a] = -1;
		}
		for (int i = 0; i < 2; i++) {
			bool used = false;
			for (int j = 0; j < 3; j++) if (h[j] && own[j] == i) used = true;
			sym_assert(isopen[i] == used, used ? "a descriptor was closed while a handle exists" : "a descriptor was not closed with its last handle");
			if (closes[i]) sym_reach("closed");
		}
		for (int j = 0; j < 3; j++) if (h[j]) {
			sym_assert((int)*h[j] == (own[j] < 0 ? -1 : F[own[j]]), "a handle reports another descriptor");
			sym_assert(!*h[j] == (own[j] < 0), "a handle misreports whether it is open");
		}
	}
}
static void threads() {
	g_thr = true;
	sym_sched(sym_param("pre", 3));
	isopen[0] = true;
	Fd x(F[0]);
	std::thread o([&]() {
		Fd c(x);
		sym_yield();
		sym_assert(isopen[0], "a descriptor was closed while a handle exists");
		Fd d((int)c);
		sym_yield();
		sym_assert(isopen[0], "a descriptor was closed while a handle exists");
	});
	{ Fd e(x); sym_yield(); Fd f((int)x); }
	sym_assert(isopen[0] && closes[0] == 0, "a descriptor was closed while a handle exists");
	o.join();
	x = Fd();
	sym_assert(!isopen[0] && closes[0] == 1, "a descriptor was not closed exactly once");
	sym_reach("race");
}
int main() {
	F[0] = sym_bits("fd", 31); F[1] = sym_bits("fd", 31);
	sym_assume(F[0] != F[1]);
	if (sym_param("mode", 0)) threads(); else seq();
}
