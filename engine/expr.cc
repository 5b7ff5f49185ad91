#include "expr.h"
#include <functional>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <algorithm>
#include <set>

Z3_context Z;
std::vector<VarInfo> g_vars;
static uint32_t s_next_id = 0;

struct Key { Op op; uint16_t w; Expr *k[3]; u128 c; };
struct KeyHash {
	size_t operator()(Expr *e) const {
		uint64_t h = e->op * 0x9E3779B97F4A7C15ull + e->w;
		for (int i = 0; i < 3; i++) { h ^= e->k[i] ? e->k[i]->id + 1 : 0; h *= 0xff51afd7ed558ccdull; h ^= h >> 31; }
		h ^= (uint64_t)e->c; h *= 0xc4ceb9fe1a85ec53ull; h ^= (uint64_t)(e->c >> 64); h ^= h >> 29;
		return h;
	}
};
struct KeyEq {
	bool operator()(Expr *a, Expr *b) const {
		return a->op == b->op && a->w == b->w && a->c == b->c && a->k[0] == b->k[0] && a->k[1] == b->k[1] && a->k[2] == b->k[2];
	}
};
static std::unordered_set<Expr *, KeyHash, KeyEq> s_table;
static std::set<VarSet> s_varsets;
static const VarSet *s_empty;

static const VarSet *internSet(VarSet v) { return &*s_varsets.insert(std::move(v)).first; }
static const VarSet *unionSet(const VarSet *a, const VarSet *b) {
	if (a == b || b->empty()) return a;
	if (a->empty()) return b;
	static std::map<std::pair<const VarSet *, const VarSet *>, const VarSet *> memo;
	auto key = std::make_pair(a, b);
	auto it = memo.find(key);
	if (it != memo.end()) return it->second;
	VarSet r;
	std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r));
	return memo[key] = internSet(std::move(r));
}

static void zerr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); }

void expr_init() {
	Z3_config cfg = Z3_mk_config();
	Z3_set_param_value(cfg, "model", "true");
	Z = Z3_mk_context_rc(cfg);
	Z3_set_error_handler(Z, zerr);
	s_empty = internSet(VarSet());
}

static Expr *intern(Op op, unsigned w, Expr *a, Expr *b, Expr *d, u128 c) {
	Expr t; t.op = op; t.w = w; t.k[0] = a; t.k[1] = b; t.k[2] = d; t.c = c;
	auto it = s_table.find(&t);
	if (it != s_table.end()) return *it;
	Expr *e = new Expr(t);
	e->id = s_next_id++;
	e->z = nullptr;
	const VarSet *vs = s_empty;
	if (op == O_VAR) vs = internSet(VarSet{(uint32_t)c});
	for (int i = 0; i < 3; i++) if (e->k[i]) vs = unionSet(vs, e->k[i]->vars);
	e->vars = vs;
	s_table.insert(e);
	return e;
}

Expr *mkC(u128 v, unsigned w) { return intern(O_CONST, w, 0, 0, 0, v & maskw(w)); }
Expr *mkVar(const std::string &name, unsigned w) {
	uint32_t idx = g_vars.size();
	Expr *e = intern(O_VAR, w, 0, 0, 0, idx);
	g_vars.push_back({name, w, e});
	return e;
}

static double asD(u128 v) { uint64_t x = v; double d; memcpy(&d, &x, 8); return d; }
static u128 fromD(double d) { uint64_t x; memcpy(&x, &d, 8); return x; }
static float asF(u128 v) { uint32_t x = v; float d; memcpy(&d, &x, 4); return d; }
static u128 fromF(float d) { uint32_t x; memcpy(&x, &d, 4); return x; }

u128 foldBin(Op op, u128 a, u128 b, unsigned w) {
	u128 m = maskw(w);
	a &= m; b &= m;
	switch (op) {
	case O_ADD: return (a + b) & m;
	case O_SUB: return (a - b) & m;
	case O_MUL: return (a * b) & m;
	case O_UDIV: return b ? a / b : m;
	case O_UREM: return b ? a % b : a;
	case O_SDIV: { s128 x = sextw(a, w), y = sextw(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (u128)(-(u128)x) & m; return (u128)(x / y) & m; }
	case O_SREM: { s128 x = sextw(a, w), y = sextw(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
	case O_AND: return a & b;
	case O_OR: return a | b;
	case O_XOR: return a ^ b;
	case O_SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
	case O_LSHR: return b >= w ? 0 : a >> (unsigned)b;
	case O_ASHR: { s128 x = sextw(a, w); return (u128)(x >> (b >= w ? w - 1 : (unsigned)b)) & m; }
	case O_EQ: return a == b;
	case O_ULT: return a < b;
	case O_ULE: return a <= b;
	case O_SLT: return sextw(a, w) < sextw(b, w);
	case O_SLE: return sextw(a, w) <= sextw(b, w);
	case O_FADD: return w == 64 ? fromD(asD(a) + asD(b)) : fromF(asF(a) + asF(b));
	case O_FSUB: return w == 64 ? fromD(asD(a) - asD(b)) : fromF(asF(a) - asF(b));
	case O_FMUL: return w == 64 ? fromD(asD(a) * asD(b)) : fromF(asF(a) * asF(b));
	case O_FDIV: return w == 64 ? fromD(asD(a) / asD(b)) : fromF(asF(a) / asF(b));
	case O_FOEQ: return w == 64 ? asD(a) == asD(b) : asF(a) == asF(b);
	case O_FOLT: return w == 64 ? asD(a) < asD(b) : asF(a) < asF(b);
	case O_FOLE: return w == 64 ? asD(a) <= asD(b) : asF(a) <= asF(b);
	case O_FUNO: return w == 64 ? (asD(a) != asD(a) || asD(b) != asD(b)) : (asF(a) != asF(a) || asF(b) != asF(b));
	default: abort();
	}
}

u128 foldUn(Op op, u128 a, unsigned aw, unsigned w) {
	u128 m = maskw(w);
	switch (op) {
	case O_FPTOSI: { double d = aw == 64 ? asD(a) : asF(a); long double r = truncl(d); if (!(r >= -9.3e18L && r <= 9.3e18L)) return (u128)1 << (w - 1); return (u128)(s128)r & m; }
	case O_FPTOUI: { double d = aw == 64 ? asD(a) : asF(a); long double r = truncl(d); if (!(r > -1.0L && r < 18446744073709551616.0L)) return (u128)1 << (w - 1); return (u128)(unsigned long long)r & m; }
	case O_SITOFP: return w == 64 ? fromD((double)(long long)sextw(a, aw)) : fromF((float)(long long)sextw(a, aw));
	case O_UITOFP: return w == 64 ? fromD((double)(unsigned long long)(a & maskw(aw))) : fromF((float)(unsigned long long)(a & maskw(aw)));
	case O_FPCAST: if (aw == w) return a; return w == 64 ? fromD(asF(a)) : fromF(asD(a));
	case O_FFLOOR: return w == 64 ? fromD(floor(asD(a))) : fromF(floorf(asF(a)));
	case O_FCEIL: return w == 64 ? fromD(ceil(asD(a))) : fromF(ceilf(asF(a)));
	case O_FTRUNC: return w == 64 ? fromD(trunc(asD(a))) : fromF(truncf(asF(a)));
	case O_FROUND: return w == 64 ? fromD(round(asD(a))) : fromF(roundf(asF(a)));
	default: abort();
	}
}

static bool isPred(Op op) { return (op >= O_EQ && op <= O_SLE) || (op >= O_FOEQ && op <= O_FUNO); }
static bool isFP(Op op) { return op >= O_FADD; }

Expr *mkNot(Expr *a) {
	if (a->isC()) return mkC(!a->c, 1);
	if (a->op == O_XOR && a->k[1]->isC() && a->w == 1) return a->k[0];
	switch (a->op) {
	case O_ULT: return mkBin(O_ULE, a->k[1], a->k[0]);
	case O_ULE: return mkBin(O_ULT, a->k[1], a->k[0]);
	case O_SLT: return mkBin(O_SLE, a->k[1], a->k[0]);
	case O_SLE: return mkBin(O_SLT, a->k[1], a->k[0]);
	default: break;
	}
	return intern(O_XOR, 1, a, mkC(1, 1), 0, 0);
}

static bool iteConst(Expr *e) { return e->op == O_ITE && e->k[1]->isC() && e->k[2]->isC(); }
// nested ite with constant leaves, limited depth
static bool iteTree(Expr *e, int d) {
	if (e->isC()) return true;
	if (e->op != O_ITE || d == 0) return false;
	return iteTree(e->k[1], d - 1) && iteTree(e->k[2], d - 1);
}



static Expr *mapIte(Expr *e, const std::function<Expr *(Expr *)> &f) {
	if (e->op == O_ITE) return mkIte(e->k[0], mapIte(e->k[1], f), mapIte(e->k[2], f));
	return f(e);
}

// number of known-zero high bits
static unsigned hiZeros(Expr *e) {
	if (e->op == O_ZEXT) return e->w - e->k[0]->w;
	if (e->isC()) { unsigned n = 0; while (n < e->w && !((e->c >> (e->w - 1 - n)) & 1)) n++; return n; }
	if (e->op == O_CONCAT && e->k[0]->isC()) { unsigned n = hiZeros(e->k[0]); return n; }
	if (e->op == O_AND) return std::max(hiZeros(e->k[0]), hiZeros(e->k[1]));
	if (e->op == O_ITE) return std::min(hiZeros(e->k[1]), hiZeros(e->k[2]));
	return 0;
}
static unsigned loZeros(Expr *e) {
	if (e->isC()) { unsigned n = 0; while (n < e->w && !((e->c >> n) & 1)) n++; return n; }
	if (e->op == O_CONCAT) { unsigned n = loZeros(e->k[1]); return n == e->k[1]->w ? n + loZeros(e->k[0]) : n; }
	if (e->op == O_ZEXT) { unsigned n = loZeros(e->k[0]); return n == e->k[0]->w ? e->w : n; }
	return 0;
}

static Expr *mkConcat(Expr *a, Expr *b);

Expr *mkBin(Op op, Expr *a, Expr *b) {
	unsigned w = a->w;
	if (op == O_CONCAT) return mkConcat(a, b);
	if (a->w != b->w) { fprintf(stderr, "width mismatch op %d: %u %u\n", op, a->w, b->w); abort(); }
	unsigned rw = isPred(op) ? 1 : w;
	if (a->isC() && b->isC()) return mkC(foldBin(op, a->c, b->c, w), rw);
	if (isFP(op)) return intern(op, rw, a, b, 0, 0);
	// canonical order for commutative
	if (op == O_ADD || op == O_MUL || op == O_AND || op == O_OR || op == O_XOR || op == O_EQ) {
		if (a->isC() || (!b->isC() && a->id > b->id)) std::swap(a, b);
	}
	u128 m = maskw(w);
	// distribute over small constant ite trees
	if (op != O_CONCAT) {
		if (b->isC() && a->op == O_ITE && iteTree(a, 4)) return mapIte(a, [&](Expr *x) { return mkBin(op, x, b); });
		if (a->isC() && b->op == O_ITE && iteTree(b, 4)) return mapIte(b, [&](Expr *x) { return mkBin(op, a, x); });
	}
	switch (op) {
	case O_ADD:
		if (b->isC()) {
			if (!b->c) return a;
			if (a->op == O_ADD && a->k[1]->isC()) return mkBin(O_ADD, a->k[0], mkC(a->k[1]->c + b->c, w));
			if (a->op == O_SUB && a->k[0]->isC()) return mkBin(O_SUB, mkC(a->k[0]->c + b->c, w), a->k[1]);
		}
		if (a->op == O_SUB && a->k[1] == b) return a->k[0];
		if (b->op == O_SUB && b->k[1] == a) return b->k[0];
		if (a->op == O_ADD && a->k[1]->isC() && !b->isC()) return mkBin(O_ADD, mkBin(O_ADD, a->k[0], b), a->k[1]);
		if (b->op == O_ADD && b->k[1]->isC()) return mkBin(O_ADD, mkBin(O_ADD, a, b->k[0]), b->k[1]);
		break;
	case O_SUB:
		if (b->isC()) return mkBin(O_ADD, a, mkC(-b->c, w));
		if (a == b) return mkC(0, w);
		if (a->op == O_ADD) { if (a->k[0] == b) return a->k[1]; if (a->k[1] == b) return a->k[0]; }
		if (a->op == O_ADD && a->k[1]->isC()) return mkBin(O_ADD, mkBin(O_SUB, a->k[0], b), a->k[1]);
		if (b->op == O_ADD && b->k[1]->isC()) return mkBin(O_ADD, mkBin(O_SUB, a, b->k[0]), mkC(-b->k[1]->c, w));
		break;
	case O_MUL:
		if (b->isC()) {
			if (!b->c) return b;
			if (b->c == 1) return a;
			// power of two -> shift
			if ((b->c & (b->c - 1)) == 0) { unsigned n = 0; while (!((b->c >> n) & 1)) n++; return mkBin(O_SHL, a, mkC(n, w)); }
		}
		break;
	case O_UDIV:
		if (b->isC() && b->c && (b->c & (b->c - 1)) == 0) { unsigned n = 0; while (!((b->c >> n) & 1)) n++; return mkBin(O_LSHR, a, mkC(n, w)); }
		break;
	case O_UREM:
		if (b->isC() && b->c && (b->c & (b->c - 1)) == 0) return mkBin(O_AND, a, mkC(b->c - 1, w));
		break;
	case O_AND:
		if (a == b) return a;
		if (b->isC()) {
			if (!b->c) return b;
			if (b->c == m) return a;
			if (a->op == O_AND && a->k[1]->isC()) return mkBin(O_AND, a->k[0], mkC(a->k[1]->c & b->c, w));
			// contiguous mask -> extract
			unsigned lo = 0; while (!((b->c >> lo) & 1)) lo++;
			unsigned hi = lo; while (hi < w && ((b->c >> hi) & 1)) hi++;
			if ((b->c & ~(maskw(hi) & ~maskw(lo))) == 0) {
				Expr *x = mkExtract(a, lo, hi - lo);
				if (lo) x = mkConcat(x, mkC(0, lo));
				return mkZExt(x, w);
			}
		}
		if (w == 1 && b->op == O_XOR && b->k[1]->isC() && b->k[0] == a) return mkC(0, 1);
		if (w == 1 && a->op == O_XOR && a->k[1]->isC() && a->k[0] == b) return mkC(0, 1);
		break;
	case O_OR:
		if (a == b) return a;
		if (b->isC()) {
			if (!b->c) return a;
			if (b->c == m) return b;
			if (a->op == O_OR && a->k[1]->isC()) return mkBin(O_OR, a->k[0], mkC(a->k[1]->c | b->c, w));
		}
		// disjoint halves -> concat
		if (w > 1) {
			unsigned za = loZeros(a), hb = hiZeros(b);
			if (za && za < w && za + hb >= w) return mkConcat(mkExtract(a, za, w - za), mkExtract(b, 0, za));
			unsigned zb = loZeros(b), ha = hiZeros(a);
			if (zb && zb < w && zb + ha >= w) return mkConcat(mkExtract(b, zb, w - zb), mkExtract(a, 0, zb));
		}
		if (w == 1 && b->op == O_XOR && b->k[1]->isC() && b->k[0] == a) return mkC(1, 1);
		if (w == 1 && a->op == O_XOR && a->k[1]->isC() && a->k[0] == b) return mkC(1, 1);
		break;
	case O_XOR:
		if (a == b) return mkC(0, w);
		if (b->isC()) {
			if (!b->c) return a;
			if (w == 1) return mkNot(a);
			if (a->op == O_XOR && a->k[1]->isC()) return mkBin(O_XOR, a->k[0], mkC(a->k[1]->c ^ b->c, w));
		}
		break;
	case O_SHL:
		if (b->isC()) {
			if (b->c >= w) return mkC(0, w);
			unsigned n = b->c;
			if (!n) return a;
			return mkConcat(mkExtract(a, 0, w - n), mkC(0, n));
		}
		break;
	case O_LSHR:
		if (b->isC()) {
			if (b->c >= w) return mkC(0, w);
			unsigned n = b->c;
			if (!n) return a;
			return mkZExt(mkExtract(a, n, w - n), w);
		}
		break;
	case O_ASHR:
		if (b->isC()) {
			unsigned n = b->c >= w ? w - 1 : (unsigned)b->c;
			if (!n) return a;
			return mkSExt(mkExtract(a, n, w - n), w);
		}
		break;
	case O_EQ:
		if (a == b) return mkC(1, 1);
		if (b->isC()) {
			if (w == 1) return b->c ? a : mkNot(a);
			switch (a->op) {
			case O_ZEXT: if (b->c >> a->k[0]->w) return mkC(0, 1); return mkBin(O_EQ, a->k[0], mkC(b->c, a->k[0]->w));
			case O_SEXT: { unsigned iw = a->k[0]->w; if ((u128)(sextw(b->c, iw)) % ((u128)1) == 0 && ((u128)sextw(b->c & maskw(iw), iw) & m) != b->c) return mkC(0, 1); return mkBin(O_EQ, a->k[0], mkC(b->c, iw)); }
			case O_CONCAT: { unsigned lw = a->k[1]->w; return mkBin(O_AND, mkBin(O_EQ, a->k[0], mkC(b->c >> lw, w - lw)), mkBin(O_EQ, a->k[1], mkC(b->c, lw))); }
			case O_ADD: if (a->k[1]->isC()) return mkBin(O_EQ, a->k[0], mkC(b->c - a->k[1]->c, w)); break;
			case O_XOR: if (a->k[1]->isC()) return mkBin(O_EQ, a->k[0], mkC(b->c ^ a->k[1]->c, w)); break;
			case O_ITE:
				if (a->k[1]->isC()) { if (a->k[1]->c != b->c) return mkBin(O_AND, mkNot(a->k[0]), mkBin(O_EQ, a->k[2], b)); return mkBin(O_OR, a->k[0], mkBin(O_EQ, a->k[2], b)); }
				if (a->k[2]->isC()) { if (a->k[2]->c != b->c) return mkBin(O_AND, a->k[0], mkBin(O_EQ, a->k[1], b)); return mkBin(O_OR, mkNot(a->k[0]), mkBin(O_EQ, a->k[1], b)); }
				break;
			default: break;
			}
		}
		if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w) return mkBin(O_EQ, a->k[0], b->k[0]);
		if (a->op == O_ADD && b->op == O_ADD && a->k[1] == b->k[1]) return mkBin(O_EQ, a->k[0], b->k[0]);
		if (a->op == O_ADD && a->k[0] == b) return mkBin(O_EQ, a->k[1], mkC(0, w));
		if (a->op == O_ADD && a->k[1] == b) return mkBin(O_EQ, a->k[0], mkC(0, w));
		if (b->op == O_ADD && b->k[0] == a) return mkBin(O_EQ, b->k[1], mkC(0, w));
		if (b->op == O_ADD && b->k[1] == a) return mkBin(O_EQ, b->k[0], mkC(0, w));
		break;
	case O_ULT:
		if (a == b) return mkC(0, 1);
		if (b->isC() && b->c == 0) return mkC(0, 1);
		if (b->isC() && b->c == 1) return mkBin(O_EQ, a, mkC(0, w));
		if (a->isC() && a->c == m) return mkC(0, 1);
		if (a->isC() && a->c == 0) return mkNot(mkBin(O_EQ, b, mkC(0, w)));
		if (a->op == O_ZEXT && b->isC()) { unsigned iw = a->k[0]->w; if (b->c > maskw(iw)) return mkC(1, 1); return mkBin(O_ULT, a->k[0], mkC(b->c, iw)); }
		if (b->op == O_ZEXT && a->isC()) { unsigned iw = b->k[0]->w; if (a->c >= maskw(iw)) return mkC(0, 1); return mkBin(O_ULT, mkC(a->c, iw), b->k[0]); }
		if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w) return mkBin(O_ULT, a->k[0], b->k[0]);
		break;
	case O_ULE:
		if (a == b) return mkC(1, 1);
		if (a->isC() && a->c == 0) return mkC(1, 1);
		if (b->isC() && b->c == m) return mkC(1, 1);
		if (b->isC() && b->c == 0) return mkBin(O_EQ, a, b);
		if (a->op == O_ZEXT && b->isC()) { unsigned iw = a->k[0]->w; if (b->c >= maskw(iw)) return mkC(1, 1); return mkBin(O_ULE, a->k[0], mkC(b->c, iw)); }
		if (b->op == O_ZEXT && a->isC()) { unsigned iw = b->k[0]->w; if (a->c > maskw(iw)) return mkC(0, 1); return mkBin(O_ULE, mkC(a->c, iw), b->k[0]); }
		if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w) return mkBin(O_ULE, a->k[0], b->k[0]);
		break;
	case O_SLT: if (a == b) return mkC(0, 1);
		// both non-negative by construction
		if (hiZeros(a) && hiZeros(b)) return mkBin(O_ULT, a, b);
		break;
	case O_SLE: if (a == b) return mkC(1, 1);
		if (hiZeros(a) && hiZeros(b)) return mkBin(O_ULE, a, b);
		break;
	default: break;
	}
	return intern(op, rw, a, b, 0, 0);
}

static Expr *mkConcat(Expr *a, Expr *b) {
	unsigned w = a->w + b->w;
	if (w > 128) {
		fprintf(stderr, "concat too wide\n"); abort();
	}
	if (a->isC() && b->isC()) return mkC((a->c << b->w) | b->c, w);
	if (a->isC() && a->c == 0) return mkZExt(b, w);
	if (a->op == O_EXTRACT && b->op == O_EXTRACT && a->k[0] == b->k[0] && (unsigned)a->c == (unsigned)b->c + b->w)
		return mkExtract(a->k[0], (unsigned)b->c, w);
	// extract that reaches down to bit 0 of x, followed by x-adjacent (x itself narrower) cases
	if (a->op == O_ZEXT) {
		// (zext x) ++ b = zext (x ++ b)
		return mkZExt(mkConcat(a->k[0], b), w);
	}
	if (b->op == O_CONCAT) {
		// right-nested normal form: try merging a with b's head
		Expr *h = b->k[0];
		if (a->isC() && h->isC()) return mkConcat(mkC((a->c << h->w) | h->c, a->w + h->w), b->k[1]);
		if (a->op == O_EXTRACT && h->op == O_EXTRACT && a->k[0] == h->k[0] && (unsigned)a->c == (unsigned)h->c + h->w)
			return mkConcat(mkExtract(a->k[0], (unsigned)h->c, a->w + h->w), b->k[1]);
	}
	if (a->op == O_CONCAT) return mkConcat(a->k[0], mkConcat(a->k[1], b));
	return intern(O_CONCAT, w, a, b, 0, 0);
}

Expr *mkExtract(Expr *a, unsigned off, unsigned w) {
	if (off == 0 && w == a->w) return a;
	if (off + w > a->w) { fprintf(stderr, "bad extract\n"); abort(); }
	switch (a->op) {
	case O_CONST: return mkC(a->c >> off, w);
	case O_EXTRACT: return mkExtract(a->k[0], (unsigned)a->c + off, w);
	case O_ZEXT: {
		unsigned iw = a->k[0]->w;
		if (off >= iw) return mkC(0, w);
		if (off + w <= iw) return mkExtract(a->k[0], off, w);
		return mkZExt(mkExtract(a->k[0], off, iw - off), w);
	}
	case O_SEXT: {
		unsigned iw = a->k[0]->w;
		if (off + w <= iw) return mkExtract(a->k[0], off, w);
		if (off < iw) return mkSExt(mkExtract(a->k[0], off, iw - off), w);
		return mkSExt(mkExtract(a->k[0], iw - 1, 1), w);
	}
	case O_CONCAT: {
		unsigned lw = a->k[1]->w;
		if (off + w <= lw) return mkExtract(a->k[1], off, w);
		if (off >= lw) return mkExtract(a->k[0], off - lw, w);
		return mkConcat(mkExtract(a->k[0], 0, off + w - lw), mkExtract(a->k[1], off, lw - off));
	}
	case O_ITE:
		if (iteTree(a, 4) || (a->k[1]->isC() || a->k[2]->isC())) return mkIte(a->k[0], mkExtract(a->k[1], off, w), mkExtract(a->k[2], off, w));
		break;
	case O_AND: case O_OR: case O_XOR:
		return mkBin(a->op, mkExtract(a->k[0], off, w), mkExtract(a->k[1], off, w));
	case O_ADD: case O_SUB: case O_MUL:
		if (off == 0 && w > 8) return mkBin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));   // memory bytes stay whole so that they merge again when reloaded
		break;
	default: break;
	}
	return intern(O_EXTRACT, w, a, 0, 0, off);
}
Expr *mkZExt(Expr *a, unsigned w) {
	if (a->w == w) return a;
	if (a->w > w) { fprintf(stderr, "bad zext\n"); abort(); }
	if (a->isC()) return mkC(a->c, w);
	if (a->op == O_ZEXT) return mkZExt(a->k[0], w);
	if (iteTree(a, 4)) return mapIte(a, [&](Expr *x) { return mkC(x->c, w); });
	return intern(O_ZEXT, w, a, 0, 0, 0);
}
Expr *mkSExt(Expr *a, unsigned w) {
	if (a->w == w) return a;
	if (a->isC()) return mkC((u128)sextw(a->c, a->w), w);
	if (a->op == O_ZEXT) return mkZExt(a->k[0], w);
	if (a->op == O_SEXT) return mkSExt(a->k[0], w);
	if (iteTree(a, 4)) return mapIte(a, [&](Expr *x) { return mkC((u128)sextw(x->c, a->w), w); });
	return intern(O_SEXT, w, a, 0, 0, 0);
}
Expr *mkIte(Expr *c, Expr *a, Expr *b) {
	if (c->isC()) return c->c ? a : b;
	if (a == b) return a;
	if (a->w != b->w) { fprintf(stderr, "ite width\n"); abort(); }
	if (c->op == O_XOR && c->w == 1 && c->k[1]->isC()) return mkIte(c->k[0], b, a);
	if (a->w == 1) {
		if (a->isC()) return a->c ? mkBin(O_OR, c, b) : mkBin(O_AND, mkNot(c), b);
		if (b->isC()) return b->c ? mkBin(O_OR, mkNot(c), a) : mkBin(O_AND, c, a);
	}
	if (a->op == O_ITE && a->k[0] == c) return mkIte(c, a->k[1], b);
	if (b->op == O_ITE && b->k[0] == c) return mkIte(c, a, b->k[2]);
	return intern(O_ITE, a->w, c, a, b, 0);
}
Expr *mkUn(Op op, Expr *a, unsigned w) {
	if (a->isC()) return mkC(foldUn(op, a->c, a->w, w), w);
	return intern(op, w, a, 0, 0, 0);
}

// ------------------------------------------------------------------ evaluation
static std::vector<u128> s_val;
static std::vector<uint32_t> s_epoch;
static uint32_t s_cur = 0;
static const Model *s_m;
static u128 ev(Expr *e) {
	if (e->op == O_CONST) return e->c;
	if (e->op == O_VAR) { auto it = s_m->find((uint32_t)e->c); return it == s_m->end() ? 0 : it->second; }
	if (s_epoch[e->id] == s_cur) return s_val[e->id];
	u128 r;
	switch (e->op) {
	case O_ITE: r = ev(e->k[0]) ? ev(e->k[1]) : ev(e->k[2]); break;
	case O_CONCAT: r = (ev(e->k[0]) << e->k[1]->w) | ev(e->k[1]); break;
	case O_EXTRACT: r = (ev(e->k[0]) >> (unsigned)e->c) & maskw(e->w); break;
	case O_ZEXT: r = ev(e->k[0]); break;
	case O_SEXT: r = (u128)sextw(ev(e->k[0]), e->k[0]->w) & maskw(e->w); break;
	default:
		if (e->op >= O_FPTOSI) r = foldUn(e->op, ev(e->k[0]), e->k[0]->w, e->w);
		else r = foldBin(e->op, ev(e->k[0]), ev(e->k[1]), e->k[0]->w);
	}
	s_val[e->id] = r;
	s_epoch[e->id] = s_cur;
	return r;
}
u128 evalE(Expr *e, const Model &m) {
	if (e->isC()) return e->c;
	if (s_val.size() < s_next_id) { s_val.resize(s_next_id * 2 + 1024); s_epoch.resize(s_next_id * 2 + 1024, 0); }
	if (++s_cur == 0) { std::fill(s_epoch.begin(), s_epoch.end(), 0); s_cur = 1; }
	s_m = &m;
	return ev(e);
}

// ------------------------------------------------------------------ z3
// The context is reference counted and keeps only its latest unreferenced result alive: intermediate terms are pinned.
static Z3_ast P(Z3_ast a) { Z3_inc_ref(Z, a); return a; }
static Z3_sort fps(unsigned w) { static Z3_sort c[2]; Z3_sort &r = c[w == 64]; if (!r) { r = w == 64 ? Z3_mk_fpa_sort_double(Z) : Z3_mk_fpa_sort_single(Z); P(Z3_sort_to_ast(Z, r)); } return r; }
static Z3_ast tofp(Z3_ast a, unsigned w) { return P(Z3_mk_fpa_to_fp_bv(Z, a, fps(w))); }
static Z3_ast b2bv(Z3_ast b) {
	static Z3_ast one, zero;
	if (!one) { one = P(Z3_mk_unsigned_int64(Z, 1, Z3_mk_bv_sort(Z, 1))); zero = P(Z3_mk_unsigned_int64(Z, 0, Z3_mk_bv_sort(Z, 1))); }
	return Z3_mk_ite(Z, b, one, zero);
}
static Z3_ast num(u128 v, unsigned w) {
	if (w <= 64) return Z3_mk_unsigned_int64(Z, (uint64_t)v, Z3_mk_bv_sort(Z, w));
	Z3_ast hi = P(Z3_mk_unsigned_int64(Z, (uint64_t)(v >> 64), Z3_mk_bv_sort(Z, w - 64)));
	Z3_ast lo = P(Z3_mk_unsigned_int64(Z, (uint64_t)v, Z3_mk_bv_sort(Z, 64)));
	return Z3_mk_concat(Z, hi, lo);
}
Z3_ast toBool(Expr *e);
Z3_ast toZ3(Expr *e) {
	if (e->z) return e->z;
	Z3_ast r = nullptr;
	Z3_ast rne = nullptr;
	auto K = [&](int i) { return toZ3(e->k[i]); };
	auto RM = [&]() { if (!rne) rne = P(Z3_mk_fpa_rne(Z)); return rne; };
	unsigned kw = e->k[0] ? e->k[0]->w : 0;
	switch (e->op) {
	case O_CONST: r = num(e->c, e->w); break;
	case O_VAR: {
		char nm[32]; snprintf(nm, sizeof nm, "v%u", (unsigned)e->c);
		r = Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm), Z3_mk_bv_sort(Z, e->w));
		break;
	}
	case O_ADD: r = Z3_mk_bvadd(Z, K(0), K(1)); break;
	case O_SUB: r = Z3_mk_bvsub(Z, K(0), K(1)); break;
	case O_MUL: r = Z3_mk_bvmul(Z, K(0), K(1)); break;
	case O_UDIV: r = Z3_mk_bvudiv(Z, K(0), K(1)); break;
	case O_SDIV: r = Z3_mk_bvsdiv(Z, K(0), K(1)); break;
	case O_UREM: r = Z3_mk_bvurem(Z, K(0), K(1)); break;
	case O_SREM: r = Z3_mk_bvsrem(Z, K(0), K(1)); break;
	case O_AND: r = e->w == 1 ? b2bv(toBool(e)) : Z3_mk_bvand(Z, K(0), K(1)); break;
	case O_OR: r = e->w == 1 ? b2bv(toBool(e)) : Z3_mk_bvor(Z, K(0), K(1)); break;
	case O_XOR: r = Z3_mk_bvxor(Z, K(0), K(1)); break;
	case O_SHL: r = Z3_mk_bvshl(Z, K(0), K(1)); break;
	case O_LSHR: r = Z3_mk_bvlshr(Z, K(0), K(1)); break;
	case O_ASHR: r = Z3_mk_bvashr(Z, K(0), K(1)); break;
	case O_EQ: case O_ULT: case O_ULE: case O_SLT: case O_SLE:
	case O_FOEQ: case O_FOLT: case O_FOLE: case O_FUNO: r = b2bv(toBool(e)); break;
	case O_CONCAT: r = Z3_mk_concat(Z, K(0), K(1)); break;
	case O_EXTRACT: r = Z3_mk_extract(Z, (unsigned)e->c + e->w - 1, (unsigned)e->c, K(0)); break;
	case O_ZEXT: r = Z3_mk_zero_ext(Z, e->w - kw, K(0)); break;
	case O_SEXT: r = Z3_mk_sign_ext(Z, e->w - kw, K(0)); break;
	case O_ITE: r = Z3_mk_ite(Z, toBool(e->k[0]), K(1), K(2)); break;
	case O_FADD: r = Z3_mk_fpa_to_ieee_bv(Z, Z3_mk_fpa_add(Z, RM(), tofp(K(0), kw), tofp(K(1), kw))); break;
	case O_FSUB: r = Z3_mk_fpa_to_ieee_bv(Z, Z3_mk_fpa_sub(Z, RM(), tofp(K(0), kw), tofp(K(1), kw))); break;
	case O_FMUL: r = Z3_mk_fpa_to_ieee_bv(Z, Z3_mk_fpa_mul(Z, RM(), tofp(K(0), kw), tofp(K(1), kw))); break;
	case O_FDIV: r = Z3_mk_fpa_to_ieee_bv(Z, Z3_mk_fpa_div(Z, RM(), tofp(K(0), kw), tofp(K(1), kw))); break;
	case O_FPTOSI: r = Z3_mk_fpa_to_sbv(Z, P(Z3_mk_fpa_rtz(Z)), tofp(K(0), kw), e->w); break;
	case O_FPTOUI: r = Z3_mk_fpa_to_ubv(Z, P(Z3_mk_fpa_rtz(Z)), tofp(K(0), kw), e->w); break;
	case O_SITOFP: r = Z3_mk_fpa_to_ieee_bv(Z, Z3_mk_fpa_to_fp_signed(Z, RM(), K(0), fps(e->w))); break;
	case O_UITOFP: r = Z3_mk_fpa_to_ieee_bv(Z, Z3_mk_fpa_to_fp_unsigned(Z, RM(), K(0), fps(e->w))); break;
	case O_FPCAST: r = Z3_mk_fpa_to_ieee_bv(Z, Z3_mk_fpa_to_fp_float(Z, RM(), tofp(K(0), kw), fps(e->w))); break;
	case O_FFLOOR: r = Z3_mk_fpa_to_ieee_bv(Z, Z3_mk_fpa_round_to_integral(Z, P(Z3_mk_fpa_rtn(Z)), tofp(K(0), kw))); break;
	case O_FCEIL: r = Z3_mk_fpa_to_ieee_bv(Z, Z3_mk_fpa_round_to_integral(Z, P(Z3_mk_fpa_rtp(Z)), tofp(K(0), kw))); break;
	case O_FTRUNC: r = Z3_mk_fpa_to_ieee_bv(Z, Z3_mk_fpa_round_to_integral(Z, P(Z3_mk_fpa_rtz(Z)), tofp(K(0), kw))); break;
	case O_FROUND: r = Z3_mk_fpa_to_ieee_bv(Z, Z3_mk_fpa_round_to_integral(Z, P(Z3_mk_fpa_rna(Z)), tofp(K(0), kw))); break;
	}
	Z3_inc_ref(Z, r);
	e->z = r;
	return r;
}
static std::unordered_map<Expr *, Z3_ast> s_bools;
Z3_ast toBool(Expr *e) {
	auto it = s_bools.find(e);
	if (it != s_bools.end()) return it->second;
	Z3_ast r;
	auto K = [&](int i) { return toZ3(e->k[i]); };
	unsigned kw = e->k[0] ? e->k[0]->w : 0;
	switch (e->op) {
	case O_CONST: r = e->c ? Z3_mk_true(Z) : Z3_mk_false(Z); break;
	case O_EQ: r = Z3_mk_eq(Z, K(0), K(1)); break;
	case O_ULT: r = Z3_mk_bvult(Z, K(0), K(1)); break;
	case O_ULE: r = Z3_mk_bvule(Z, K(0), K(1)); break;
	case O_SLT: r = Z3_mk_bvslt(Z, K(0), K(1)); break;
	case O_SLE: r = Z3_mk_bvsle(Z, K(0), K(1)); break;
	case O_FOEQ: r = Z3_mk_fpa_eq(Z, tofp(K(0), kw), tofp(K(1), kw)); break;
	case O_FOLT: r = Z3_mk_fpa_lt(Z, tofp(K(0), kw), tofp(K(1), kw)); break;
	case O_FOLE: r = Z3_mk_fpa_leq(Z, tofp(K(0), kw), tofp(K(1), kw)); break;
	case O_FUNO: { Z3_ast x[2] = {P(Z3_mk_fpa_is_nan(Z, tofp(K(0), kw))), P(Z3_mk_fpa_is_nan(Z, tofp(K(1), kw)))}; r = Z3_mk_or(Z, 2, x); break; }
	case O_AND: { Z3_ast x[2] = {toBool(e->k[0]), toBool(e->k[1])}; r = Z3_mk_and(Z, 2, x); break; }
	case O_OR: { Z3_ast x[2] = {toBool(e->k[0]), toBool(e->k[1])}; r = Z3_mk_or(Z, 2, x); break; }
	case O_XOR: if (e->k[1]->isC()) r = Z3_mk_not(Z, toBool(e->k[0])); else r = Z3_mk_xor(Z, toBool(e->k[0]), toBool(e->k[1])); break;
	case O_ITE: r = Z3_mk_ite(Z, toBool(e->k[0]), toBool(e->k[1]), toBool(e->k[2])); break;
	default: { Z3_ast a = toZ3(e); r = Z3_mk_eq(Z, a, P(num(1, 1))); } break;
	}
	Z3_inc_ref(Z, r);
	s_bools[e] = r;
	return r;
}

std::string exprStr(Expr *e, int d) {
	static const char *n[] = {"const", "var", "+", "-", "*", "udiv", "sdiv", "urem", "srem", "&", "|", "^", "<<", ">>u", ">>s", "==", "<u", "<=u", "<s", "<=s",
		"concat", "extract", "zext", "sext", "ite", "fadd", "fsub", "fmul", "fdiv", "foeq", "folt", "fole", "funo", "fptosi", "fptoui", "sitofp", "uitofp", "fpcast", "floor", "ceil", "trunc", "round"};
	char b[64];
	if (e->op == O_CONST) { snprintf(b, sizeof b, "0x%llx:%u", (unsigned long long)e->c, e->w); return b; }
	if (e->op == O_VAR) return g_vars[(uint32_t)e->c].name;
	if (d == 0) return "...";
	std::string s = std::string("(") + n[e->op];
	if (e->op == O_EXTRACT) { snprintf(b, sizeof b, "[%u+:%u]", (unsigned)e->c, e->w); s += b; }
	for (int i = 0; i < 3; i++) if (e->k[i]) s += " " + exprStr(e->k[i], d - 1);
	return s + ")";
}
