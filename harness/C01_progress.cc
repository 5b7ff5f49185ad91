// NATIVE: sched
// MODS: lib/error.cc lib/string.cc
// JOB: mono4 n=4 mono=1
// JOB: any3 n=3 mono=0
// THOROUGH: mono5 n=5 mono=1
// THOROUGH: any4 n=4 mono=0
// JOB: threads n=2 thr=1 pre=2
// THOROUGH: threads3 n=3 thr=1 pre=3
// REACH: allfinished outoforder equal
// BOUND: every sequence of up to 4 starts and finishes (5 thorough) at symbolic 64-bit positions handed out in ascending order, and of 3 (4 thorough) in any order; 2 (3 thorough) threads starting and finishing while another reads, every interleaving with 2 (3) preemptions
#include "sym.h"
#include "crucible/progress.h"
#include <thread>
#include <vector>
using namespace crucible;
typedef ProgressTracker<uint64_t> PT;
static const int MAXN = 5;
static int N;
static uint64_t g_init, V[MAXN];
static PT::ProgressHolder H[MAXN];
static bool live[MAXN], started[MAXN];
static uint64_t g_top, g_last;
static bool g_mono;
static void look(PT &t) {
	uint64_t b = t.begin(), e = t.end();
	bool any = false;
	for (int i = 0; i < N; i++) if (live[i]) { any = true; sym_assert(b <= V[i], "the recorded position is past work that is still running"); }
	sym_assert(e == g_top, "the end is not the highest position handed out");
	if (!any) sym_assert(b == g_top, "all work finished but the recorded position did not catch up");
	sym_assert(b <= e, "the recorded position is past the end");
	if (g_mono) sym_assert(b >= g_last, "the recorded position moved backwards");
	g_last = b;
}
static void seq() {
	PT t(g_init);
	look(t);
	int next = 0, running = 0;
	while (next < N || running) {
		// start the next one, or finish any running one
		int c = sym_pick("op", running + (next < N));
		if (next < N && c == running) {
			V[next] = sym_bits("v", 64);
			if (g_mono) sym_assume(V[next] >= g_top);
			H[next] = t.hold(V[next]);
			sym_assert(H[next]->get() == V[next], "a holder reports another position");
			live[next] = true; running++;
			if (V[next] > g_top) g_top = V[next]; else if (next && V[next] == V[next - 1]) sym_reach("equal");
			next++;
		} else {
			int k = -1;
			for (int i = 0; i < N; i++) if (live[i] && c-- == 0) { k = i; break; }
			for (int i = 0; i < k; i++) if (live[i]) sym_reach("outoforder");
			live[k] = false; running--;
			// another copy of the holder keeps the work alive
			if (k == 0) { auto copy = H[k]; H[k].reset(); live[k] = true; look(t); live[k] = false; }
			else H[k].reset();
		}
		look(t);
	}
	sym_reach("allfinished");
}
static void threads() {
	PT t(g_init);
	for (int i = 0; i < N; i++) { V[i] = sym_bits("v", 64); sym_assume(V[i] > (i ? V[i - 1] : g_init)); }
	std::vector<std::thread> th;
	sym_sched(sym_param("pre", 2));
	for (int i = 0; i < N; i++) th.emplace_back([&, i]() {
		auto h = t.hold(V[i]);
		live[i] = true;
		sym_yield();
		live[i] = false;
		h.reset();
	});
	for (int k = 0; k < 3; k++) {
		uint64_t b = t.begin();
		for (int i = 0; i < N; i++) if (live[i]) sym_assert(b <= V[i], "the recorded position is past work that is still running");
		sym_yield();
	}
	for (auto &x : th) x.join();
	sym_assert(t.begin() == V[N - 1] && t.end() == V[N - 1], "all work finished but the recorded position did not catch up");
	sym_reach("allfinished");
}
int main() {
	N = sym_param("n", 3);
	g_mono = sym_param("mono", 0);
	g_init = g_top = g_last = sym_bits("init", 64);
	if (sym_param("thr", 0)) threads(); else seq();
}
