// NATIVE: sched
// MODS: src/bees.cc lib/fs.cc
// STUB: keep std::ostream::operator<<(unsigned long)
// STUB: keep std::ostream::operator<<(long)
// STUB: keep std::ostream::operator<<(std::ios_base&*
// STUB: keep std::basic_ostream<char*::operator<<(unsigned long)
// STUB: keep std::basic_ostream<char*::operator<<(long)
// STUB: keep std::basic_ostream<char*::operator<<(std::ios_base&*
// STUB: keep *std::operator<<*std::char_traits<char>*char const*
// STUB: keep *std::operator<<*std::allocator<char>*string*
// STUB: keep *std::operator<<*<std::char_traits<char>>*, char)
// STUB: keep std::__cxx11::basic_ostringstream<char*>::str() const
// STUB: keep crucible::to_hex*
// JOB: state n=3
// JOB: text n=1 text=1
// JOB: old old=1
// JOB: missing missing=1 shards=8 depth=6
// THOROUGH: state4 n=4
// THOROUGH: text2 n=2 text=1 few=1 shards=8 depth=4
// REACH: saved loaded inprogress skipped legacy reset text missing newroot removed extenttier nothing
// BOUND: up to 3 (4) subvolumes with every 64-bit root, object id, offset, transaction range and start time, with or without work in progress at an earlier position, through the file and back; numbers as real decimal text for the boundary values; files with the legacy field names; start-up with any of three subvolumes known, unknown or deleted and read-only or not with transaction numbers below 65536, and the extent tiers
// ASSUME: a symbolic number is represented in the file by a token that parses back to it (decimal text is exercised with boundary values); the file system calls succeed (C03 covers failures)
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <sstream>
#include <string>
#include <string.h>
#include <stdlib.h>
#include <time.h>
#include <errno.h>
#include "sym.h"
// ---- text in and out: one buffer per stream, numbers become tokens or decimal text
static struct { const void *os; bool hex; std::string *s; } g_str[16];
static int g_nstr;
static uint64_t g_tok[64]; static bool g_tokhex[64]; static int g_ntok;
static bool g_text;
static std::string &buf_of(const void *os, bool **hex = nullptr) {
	int i = 0;
	while (i < g_nstr && g_str[i].os != os) i++;
	if (i == g_nstr) { sym_assert(i < 16, "harness: too many streams"); g_str[i].os = os; g_str[i].hex = false; g_str[i].s = new std::string; g_nstr++; }
	if (hex) *hex = &g_str[i].hex;
	return *g_str[i].s;
}
static void number(std::string &s, uint64_t v, bool hex) {
	if (!g_text) {
		sym_assert(g_ntok < 64, "harness: too many numbers");
		g_tok[g_ntok] = v; g_tokhex[g_ntok] = hex;
		s += '#'; s += (char)('A' + g_ntok / 16); s += (char)('A' + g_ntok % 16);
		g_ntok++;
		return;
	}
	char d[24]; int n = 0;
	do { d[n++] = "0123456789abcdef"[v % (hex ? 16 : 10)]; v /= hex ? 16 : 10; } while (v);
	while (n) s += d[--n];
}
namespace std {
template<> ostream &operator<<(ostream &os, const char *s) { buf_of(&os) += s; return os; }
template<> ostream &operator<<(ostream &os, const string &s) { buf_of(&os) += s; return os; }
template<> ostream &operator<<(ostream &os, char c) { buf_of(&os) += c; return os; }
template<> ostream &ostream::operator<<(unsigned long v) { bool *h; auto &b = buf_of(this, &h); number(b, v, *h); return *this; }
template<> ostream &ostream::operator<<(long v) { bool *h; auto &b = buf_of(this, &h); number(b, v, *h); return *this; }
template<> ostream &ostream::operator<<(ios_base &(*pf)(ios_base &)) { bool *h; buf_of(this, &h); *h = pf == (ios_base &(*)(ios_base &))std::hex; return *this; }
template<> string basic_ostringstream<char>::str() const { return buf_of((const ostream *)this); }
}
static unsigned long long parse(const char *s, char **end, int base) {
	if (s[0] == '0' && s[1] == 'x' && s[2] == '#') s += 2;
	if (s[0] == '#') {
		int k = (s[1] - 'A') * 16 + (s[2] - 'A');
		sym_assert(k >= 0 && k < g_ntok, "a damaged number is loaded");
		if (end) *end = (char *)s + 3;
		if (g_tokhex[k] && base != 16) sym_assert(g_tok[k] < 10, "a number is written in another base than it is read in");
		return g_tok[k];
	}
	while (*s == ' ') s++;
	bool neg = *s == '-';
	if (neg) s++;
	if ((base == 0 || base == 16) && s[0] == '0' && s[1] == 'x') { s += 2; base = 16; }
	else if (base == 0) base = s[0] == '0' ? 8 : 10;
	uint64_t v = 0; int n = 0;
	for (;; s++, n++) {
		int d = *s >= '0' && *s <= '9' ? *s - '0' : *s >= 'a' && *s <= 'f' ? *s - 'a' + 10 : 99;
		if (d >= base) break;
		if (v > (UINT64_MAX - d) / base) { errno = ERANGE; v = UINT64_MAX; break; }
		v = v * base + d;
	}
	if (end) *end = (char *)s;
	return neg ? -v : v;
}
extern "C" {
unsigned long long strtoull(const char *s, char **end, int base) throw() { return parse(s, end, base); }
struct tm *localtime(const time_t *) throw() { static struct tm t; return &t; }
size_t strftime(char *buf, size_t, const char *, const struct tm *) throw() { strcpy(buf, "2026-01-02-03-04-05"); return 19; }
}
#define HOME_FS_IOCTL
#include "home_fs.h"
#include "fake_tree.h"
#include <vector>
#include "bees-roots.cc"
namespace crucible { string to_hex(uint64_t i) { string s = "0x"; if (g_text) number(s, i, true); else number(s, i, false); return s; } }
extern "C" int ioctl(int fd, unsigned long req, ...) {
	va_list ap; va_start(ap, req); void *arg = va_arg(ap, void *); va_end(ap);
	if (fd != 5) { errno = ENOTTY; return -1; }
	if (req == BTRFS_IOC_FS_INFO) {
		auto p = (btrfs_ioctl_fs_info_args_v3 *)arg;
		memset(p, 0, sizeof *p);
		p->sectorsize = p->nodesize = p->clone_alignment = 4096; p->csum_size = 4;
		return 0;
	}
	sym_assert(req == BTRFS_IOC_TREE_SEARCH_V2, "unexpected ioctl");
	return tree_search(arg);
}
static uint64_t g_roroot[4]; static int g_nro;
bool BeesContext::is_root_ro(uint64_t root) { for (int i = 0; i < g_nro; i++) if (g_roroot[i] == root) return true; return false; }
static std::shared_ptr<BeesContext> context() {
	auto ctx = std::make_shared<BeesContext>();
	ctx->m_root_fd = Fd(5);
	ctx->m_home_fd = Fd(HOME);
	return ctx;
}
static void same(const BeesCrawlState &a, const BeesCrawlState &w) {
	sym_assert(a.m_root == w.m_root, "a subvolume's position is loaded for another subvolume");
	sym_assert(a.m_objectid == w.m_objectid, "the loaded object id is another");
	sym_assert(a.m_offset == w.m_offset, "the loaded offset is another");
	sym_assert(a.m_min_transid == w.m_min_transid, "the loaded transaction range begins elsewhere");
	sym_assert(a.m_max_transid == w.m_max_transid, "the loaded transaction range ends elsewhere");
	sym_assert(a.m_started == w.m_started, "the loaded start time is another");
}
static void put(const std::string &s) {
	Ino &i = I_[g_nino];
	i.isnew = false; i.len = i.stable = s.size();
	sym_assert(s.size() <= sizeof i.data, "harness: file too long");
	memcpy(i.data, s.data(), s.size());
	g_name[0] = g_nino++;
}
static uint64_t value(const char *n) {
	if (!g_text) return sym_bits(n, 64);
	static const uint64_t V[] = { 0, 0xfffffffffffffffe, 10, 7, 4096, 0x7fffffffffffffff, 0x8000000000000000 };
	return V[sym_pick(n, sym_param("few", 0) ? 3 : 7)];
}
static int save_load() {
	int n = sym_param("n", 2);
	auto ctx = context();
	auto roots = ctx->roots();
	BeesCrawlState w[4]; bool saved[4];
	ProgressTracker<BeesCrawlState>::ProgressHolder hold[4];
	for (int i = 0; i < n; i++) {
		BeesCrawlState &s = w[i];
		s.m_root = g_text ? (i ? 300 : 5) : sym_bits("root", 64);
		for (int j = 0; j < i; j++) sym_assume(w[j].m_root != s.m_root);
		s.m_objectid = value("objectid"); s.m_offset = value("offset");
		s.m_min_transid = value("min"); s.m_max_transid = value("max"); s.m_started = g_text ? 1700000000 : value("started");
		sym_assume(s.m_min_transid != UINT64_MAX); sym_assume(s.m_max_transid != UINT64_MAX);
		auto c = roots->insert_root(s);
		saved[i] = sym_concrete(s.m_max_transid != 0);
		if (!saved[i]) sym_reach("skipped");
		if (!g_text && i == 0 && sym_pick("inprogress", 2)) {
			// more work was handed out; the work at the first position is still running
			hold[i] = c->hold_state(s);
			auto later = s;
			later.m_objectid = value("later");
			sym_assume(later.m_objectid > s.m_objectid);
			c->set_state(later);
			sym_reach("inprogress");
		}
	}
	g_nstr = 0;
	roots->state_save();
	int any = 0;
	for (int i = 0; i < n; i++) any += saved[i];
	if (!any) { sym_assert(g_name[0] < 0, "an empty state file is written"); sym_reach("nothing"); return 0; }
	sym_assert(g_name[0] >= 0, "the state was not saved");
	sym_reach("saved");
	if (g_text) sym_reach("text");
	auto ctx2 = context();
	auto r2 = ctx2->roots();
	r2->state_load();
	sym_assert(r2->m_root_crawl_map.size() == (size_t)any, "the number of subvolumes loaded is another than was saved");
	for (int i = 0; i < n; i++) {
		if (!saved[i]) continue;
		auto f = r2->m_root_crawl_map.find(w[i].m_root);
		sym_assert(f != r2->m_root_crawl_map.end(), "a saved subvolume is not loaded");
		same(f->second->get_state_begin(), w[i]);
		same(f->second->get_state_end(), w[i]);
		sym_assert(!f->second->deferred() && !f->second->finished(), "a loaded scan does not continue");
	}
	sym_reach("loaded");
	return 0;
}
static int old_files() {
	BeesCrawlState w;
	w.m_root = value("root"); w.m_objectid = value("objectid"); w.m_offset = value("offset"); w.m_min_transid = value("min"); w.m_max_transid = value("max"); w.m_started = value("started");
	std::string s;
	bool oldmin = sym_pick("oldmin", 2), oldmax = sym_pick("oldmax", 2), started = sym_pick("started", 2);
	int order = sym_pick("order", 2);
	auto f = [&](const char *k, uint64_t v) { std::string x = k; x += ' '; number(x, v, false); if (order) s = s.empty() ? x : x + " " + s; else { if (!s.empty()) s += " "; s += x; } };
	f("root", w.m_root); f("objectid", w.m_objectid); f("offset", w.m_offset);
	f(oldmin ? "gen_current" : "min_transid", w.m_min_transid); f(oldmax ? "gen_next" : "max_transid", w.m_max_transid);
	if (started) f("started", w.m_started);
	if (sym_pick("nl", 2)) s += "\n";
	put(s);
	auto ctx = context();
	auto roots = ctx->roots();
	roots->state_load();
	sym_assert(roots->m_root_crawl_map.size() == 1, "the number of subvolumes loaded is not one");
	if (sym_concrete(w.m_min_transid == UINT64_MAX)) { w.m_min_transid = 0; sym_reach("reset"); }
	if (sym_concrete(w.m_max_transid == UINT64_MAX)) { w.m_max_transid = w.m_min_transid; sym_reach("reset"); }
	auto st = roots->m_root_crawl_map.begin()->second->get_state_begin();
	if (!started) w.m_started = st.m_started;
	same(st, w);
	if (oldmin && oldmax) sym_reach("legacy");
	return 0;
}
static std::vector<uint8_t> g_ref(sizeof(btrfs_root_ref) + 4);
static int missing() {
	auto ctx = context();
	auto roots = ctx->roots();
	// root 5 always exists; 300 and 400 may be in the file, exist, and be read-only; 500 may be in the file only
	static const uint64_t ROOT[] = { 5, 300, 400, 500 };
	bool known[4], exists[4], ro[4], extent = sym_pick("extent", 2);
	BeesCrawlState st[4];
	uint64_t transid = sym_range("transid", 1, 65535);
	roots->m_transid_re.m_last_count = transid;
	uint64_t expect = UINT64_MAX;
	int nknown = 0;
	if (extent) { st[3].m_root = 249; known[3] = sym_pick("known", 2); }
	for (int i = 0; i < 4; i++) {
		known[i] = sym_pick("known", 2);
		exists[i] = i == 0 || (i < 3 && sym_pick("exists", 2));
		ro[i] = i && i < 3 && sym_pick("ro", 2);
		if (exists[i] && i) T[NT++] = TItem { BTRFS_ROOT_TREE_OBJECTID, ROOT[i], BTRFS_ROOT_BACKREF_KEY, 5, 7, g_ref.data(), g_ref.size() };
		if (ro[i]) g_roroot[g_nro++] = ROOT[i];
		if (!known[i]) continue;
		nknown++;
		st[i].m_root = ROOT[i];
		st[i].m_min_transid = sym_range("min", 0, 65535); st[i].m_max_transid = sym_range("max", 0, 65535);
		st[i].m_objectid = sym_range("objectid", 0, 65535);
		sym_assume(st[i].m_min_transid <= st[i].m_max_transid); sym_assume(st[i].m_max_transid <= transid);
		roots->insert_root(st[i]);
		if (!ro[i] && st[i].m_min_transid < expect) expect = st[i].m_min_transid;
	}
	bool writable = false;
	for (int i = 0; i < 4; i++) writable |= known[i] && !ro[i];
	if (nknown && !writable) return 0;      // refused: no starting point to be had
	if (!nknown) expect = 0;
	if (extent) {
		auto m = std::make_shared<BeesScanModeExtent>(roots, ctx);
		m->init_tasks();
		for (auto &i : BeesScanModeExtent::s_magic_crawl_map) {
			auto f = roots->m_root_crawl_map.find(i.first);
			sym_assert(f != roots->m_root_crawl_map.end(), "a size tier is not scanned");
			auto s = f->second->get_state_begin();
			sym_assert((s.m_objectid == 0) & (s.m_offset == 0), "a new scan does not begin at the first object");
			sym_assert(s.m_min_transid <= expect, "a new scan leaves out transactions that others still have to scan");
		}
		sym_reach("extenttier");
		return 0;
	}
	auto map = roots->insert_new_crawl();
	for (int i = 0; i < 4; i++) {
		auto f = map.find(ROOT[i]);
		if (!exists[i]) {
			if (f != map.end()) { sym_assert(known[i], "a subvolume that does not exist is scanned"); }
			else if (known[i]) sym_reach("removed");
			continue;
		}
		sym_assert(f != map.end(), "a subvolume is not scanned");
		auto s = f->second->get_state_begin();
		if (known[i]) { same(s, st[i]); continue; }
		sym_reach("newroot");
		sym_assert(s.m_root == ROOT[i], "a position is for another subvolume");
		sym_assert((s.m_objectid == 0) & (s.m_offset == 0), "a new subvolume is not scanned from its first object");
		sym_assert(s.m_min_transid <= expect, "a new subvolume's scan leaves out transactions that others still have to scan");
		sym_assert(s.m_max_transid == transid, "a new subvolume's scan does not end at the newest transaction");
		for (int k = 0; k < 4; k++) if (k != i && !known[k] && exists[k]) sym_reach("missing");
	}
	return 0;
}
int main() {
	g_text = sym_param("text", 0);
	if (sym_param("old", 0)) return old_files();
	if (sym_param("missing", 0)) return missing();
	return save_load();
}
