// MODS: src/bees.cc src/bees-types.cc lib/extentwalker.cc
// JOB: dst op=0 refs=2 shards=8 depth=7
// JOB: src op=1 refs=2 shards=8 depth=7
// JOB: comp op=0 refs=1 comp=1 shards=8 depth=6
// JOB: compsrc op=1 refs=1 comp=1 shards=8 depth=6
// THOROUGH: comp2 op=0 refs=2 comp=1 shards=32 depth=9
// THOROUGH: compsrc2 op=1 refs=2 comp=1 shards=32 depth=9
// REACH: found none collision wronghash moved gone magic eof eofmiss blacklisted sameplace self low high compressed deduped refused short
// BOUND: up to 2 references to the address found in the hash table, in the same file or in other files, deleted, blacklisted, of a hole, rewritten elsewhere, or in place; whole blocks and partial blocks at the end of a file, files ending on or inside the block; every content of the first and last byte of the blocks compared, including equal hashes of different data; compressed extents of 4 blocks referenced from an offset of 0 to 2 blocks for a length of 1 to 3
// ASSUME: references and addresses are reported as the file system has them (F05, F06, T01); growing a match is D03
#include "fake_tree.h"
#include "bees.h"
#include <sys/stat.h>
#include <vector>
using namespace crucible;
static const off_t B = 4096;
static const int NEEDLE = 31;                   // file with the block to be matched, inode 301
static int g_op;
struct File { int fd; off_t size; uint8_t a, z; uint64_t phys; bool comp, hole, gone, black; off_t ebegin, eoff, elen; off_t at; };
static File F[3];                               // references: fds 41, 42, 43
static int g_nf;
static off_t g_nb, g_nlen; static uint8_t g_na, g_nz; static uint64_t g_nphys;
static uint64_t g_addr; static off_t g_coff; static bool g_comp;
static File *file(int fd) { for (int i = 0; i < g_nf; i++) if (F[i].fd == fd) return &F[i]; return nullptr; }
extern "C" {
pid_t gettid() throw() { return 7; }
int close(int) { return 0; }
int fstat64(int fd, struct stat64 *st) throw() {
	memset(st, 0, sizeof *st);
	File *f = file(fd);
	sym_assert(f || fd == NEEDLE, "an unknown descriptor is used");
	st->st_ino = 270 + fd; st->st_mode = S_IFREG;
	st->st_size = f ? f->size : g_nb + g_nlen;
	return 0;
}
ssize_t pread64(int fd, void *buf, size_t n, off64_t off) {
	memset(buf, 0, n);
	uint8_t *p = (uint8_t *)buf;
	File *f = file(fd);
	sym_assert(n > 0 && off >= 0 && off % B == 0 && n <= (size_t)B, "a read across blocks");
	if (!f) { sym_assert(fd == NEEDLE && off == g_nb && (off_t)n == g_nlen, "something other than the block is read"); p[0] = g_na; p[n - 1] = g_nz; return n; }
	sym_assert(!f->gone, "a deleted file is read");
	sym_assert(off + (off_t)n <= f->size, "a read past the end");
	if (off == f->at) { p[0] = f->a; p[n - 1] = f->z; }
	else { p[0] = g_na; p[n - 1] = g_nz; }      // other blocks hold the same data as the needle: a match there would be at another address
	return n;
}
int ioctl(int fd, unsigned long req, ...) throw() {
	va_list ap; va_start(ap, req); void *arg = va_arg(ap, void *); va_end(ap);
	sym_assert(req == BTRFS_IOC_TREE_SEARCH_V2 && fd == 5, "unexpected ioctl");
	return tree_search(arg);
}
}
namespace crucible { uint64_t btrfs_get_root_id(int) { return 300; } }
static BeesAddress addr_at(int fd, off_t off) {
	File *f = file(fd);
	if (!f) { sym_assert(fd == NEEDLE && off == g_nb, "the address of something other than the block"); return BeesAddress(g_nphys); }
	if (f->hole) return BeesAddress(BeesAddress::HOLE);
	if (f->comp) return BeesAddress(f->phys | BeesAddress::c_compressed_mask | (((off - f->ebegin + f->eoff) / B + 1)));
	return BeesAddress(f->phys + (off - f->at));
}
BeesAddress::BeesAddress(int fd, off_t off) : m_addr(addr_at(fd, off)) {}
BeesAddress::BeesAddress(int fd, off_t off, shared_ptr<BeesContext>) : m_addr(addr_at(fd, off)) {}
BeesHash::BeesHash(const uint8_t *p, size_t) : m_hash(0x1000 + p[0]) {}
static std::vector<BtrfsInodeOffsetRoot> g_refs;
BeesResolveAddrResult BeesContext::resolve_addr(BeesAddress a) {
	sym_assert(uint64_t(a) == g_addr, "another address is resolved");
	BeesResolveAddrResult r;
	r.m_biors = g_refs; r.m_is_toxic = false;
	return r;
}
bool BeesContext::is_blacklisted(const BeesFileId &fid) const {
	for (int i = 0; i < g_nf; i++) if (fid.ino() == 270u + F[i].fd) return F[i].black;
	return false;
}
Fd BeesRoots::open_root_ino(uint64_t root, uint64_t ino) {
	sym_assert(root == 300, "a file of another subvolume is opened");
	if (ino == 270 + NEEDLE) return Fd(NEEDLE);
	for (int i = 0; i < g_nf; i++) if (ino == 270u + F[i].fd) { if (F[i].gone) { sym_reach("gone"); return Fd(); } return Fd(F[i].fd); }
	sym_fail("a file that was not named is opened");
}
// is the block at off of this reference the very data the hash table entry names, and equal to the block?
static void good(const BeesFileRange &r) {
	File *f = file(r.fd());
	sym_assert(f != nullptr, "a match in a file that is not referenced");
	sym_assert(!f->gone && !f->black && !f->hole, "a match in a deleted, excluded or empty place");
	sym_assert(r.begin() == f->at && r.size() == g_nlen, "a match at another place than the one the hash table names");
	sym_assert(r.end() <= f->size, "a match past the end of its file");
	BeesAddress a = addr_at(f->fd, f->at);
	sym_assert(a.get_physical_or_zero() == BeesAddress(g_addr).get_physical_or_zero(), "a match stored at another address than the one the hash table names");
	if (g_comp) { sym_assert(a.is_compressed() && a.get_compressed_offset() == (uint64_t)g_coff, "a match in another part of the compressed extent"); sym_reach("compressed"); }
	sym_assert((f->a == g_na) & (f->z == g_nz), "a match of different data");
}
static int g_pairs, g_seen[3];
bool BeesRangePair::grow(shared_ptr<BeesContext>, bool) {
	const BeesFileRange &m = g_op ? second : first, &o = g_op ? first : second;
	good(m);
	sym_assert((int)o.fd() == NEEDLE && o.begin() == g_nb && o.size() == g_nlen, "the match is paired with something other than the block");
	g_pairs++;
	return sym_pick("grows", 2);
}
bool BeesContext::dedup(const BeesRangePair &p) {
	sym_assert(g_op == 1, "looking for a match sends a request");
	good(p.second);
	sym_assert((int)p.first.fd() == NEEDLE, "the source is not the new copy");
	g_seen[file(p.second.fd()) - F]++;
	sym_reach("deduped");
	bool ok = sym_pick("works", 2);
	if (!ok) sym_reach("refused");
	return ok;
}
static btrfs_file_extent_item X[6];
int main() {
	g_op = sym_param("op", 0);
	g_comp = sym_param("comp", 0);
	int refs = sym_param("refs", 2);
	g_nb = 8 * B; g_nlen = B;
	bool eof = !g_comp && sym_pick("partial", 2);
	if (eof) { g_nlen = 96; sym_reach("eof"); }
	g_na = sym_bits("needlefirst", 8); g_nz = sym_bits("needlelast", 8);
	g_nphys = 0x5000000;
	const uint64_t PH = 0x7000000;
	if (g_comp) { g_coff = sym_pick("coff", 4) * B; g_addr = PH | BeesAddress::c_compressed_mask | (g_coff / B + 1); }
	else g_addr = PH | (eof ? BeesAddress::c_eof_mask : 0);
	for (int i = 0; i < refs; i++) {
		File &f = F[g_nf++];
		f = File();
		f.fd = 41 + i; f.a = sym_bits("first", 8); f.z = sym_bits("last", 8);
		f.phys = PH; f.at = 4 * B; f.size = 20 * B;
		if (eof) f.size = f.at + (sym_pick("othereof", 2) ? 97 : 96);
		else if (!g_comp && sym_pick("short", 2)) { f.size = f.at + 1000; f.z = 0; sym_reach("short"); }
		off_t named = f.at;                  // the place the kernel names for the reference
		if (g_comp) {
			f.comp = true; f.ebegin = 3 * B; f.eoff = sym_pick("eoff", 3) * B; f.elen = (1 + sym_pick("elen", 3)) * B;
			f.at = f.ebegin + g_coff - f.eoff;
			if (g_coff < f.eoff) { f.at = 0; sym_reach("low"); } else if (f.at >= f.ebegin + f.elen) { f.at = 0; sym_reach("high"); }
			named = f.ebegin;
			int base = i * 4;
			(void)base;
			X[i].type = BTRFS_FILE_EXTENT_REG; X[i].compression = 1; X[i].disk_bytenr = PH; X[i].offset = f.eoff; X[i].num_bytes = f.elen; X[i].ram_bytes = 4 * B; X[i].disk_num_bytes = B;
			T[NT++] = TItem { 300, 270u + f.fd, BTRFS_EXTENT_DATA_KEY, (uint64_t)f.ebegin, 9, (const uint8_t *)&X[i], sizeof X[i] };
			f.size = 20 * B;
			if (g_coff < f.eoff || g_coff >= f.eoff + f.elen) f.black = false;
		}
		switch (sym_pick("state", g_comp ? 4 : 6)) {
			case 1: f.gone = true; break;
			case 2: f.black = true; sym_reach("blacklisted"); break;
			case 3: f.phys = 0x9000000; sym_reach("moved"); break;
			case 4: f.hole = true; sym_reach("magic"); break;
			case 5: f.fd = NEEDLE; break;          // the block itself
		}
		if (f.fd == NEEDLE) { g_nf--; g_refs.push_back(BtrfsInodeOffsetRoot()); g_refs.back().m_inum = 270 + NEEDLE; g_refs.back().m_offset = g_nb; g_refs.back().m_root = 300; g_nphys = PH; f.fd = 0; sym_reach("self"); continue; }
		BtrfsInodeOffsetRoot r; r.m_inum = 270 + f.fd; r.m_offset = named; r.m_root = 300;
		g_refs.push_back(r);
	}
	if (sym_pick("sameplace", 2)) g_nphys = PH;
	auto ctx = std::make_shared<BeesContext>();
	ctx->m_root_fd = Fd(5); ctx->m_home_fd = Fd(6);
	auto roots = ctx->roots();
	BeesResolver br(ctx, BeesAddress(g_addr));
	sym_assert(br.count() == g_refs.size(), "the number of references is wrong");
	BeesFileRange n(Fd(NEEDLE), g_nb, g_nb + g_nlen);
	bool threw = false;
	BeesRangePair rv = { BeesFileRange(), BeesFileRange() };
	try { if (g_op) br.replace_src(n); else rv = br.replace_dst(n); } catch (const std::exception &) { threw = true; }
	bool any = false, hash = false;
	for (int i = 0; i < g_nf; i++) {
		File &f = F[i];
		bool there = f.at && !f.gone && !f.black && !f.hole && f.phys == PH && f.at + g_nlen <= f.size && (!eof || f.size % B == g_nlen);
		if (!there) { sym_assert(!g_seen[i], "a reference that does not match is replaced"); continue; }
		bool same = sym_concrete((f.a == g_na) & (f.z == g_nz));
		any |= same;
		hash |= sym_concrete(f.a == g_na);
		if (!same && sym_concrete(f.a == g_na)) sym_reach("collision"); else if (!same) sym_reach(eof ? "eofmiss" : "wronghash");
		if (g_op == 1 && !threw) sym_assert(g_seen[i] == same, same ? "a reference to the replaced data is left" : "a reference to other data is replaced");
	}
	if (g_op == 0) {
		if (g_nphys == PH) { sym_assert(!g_pairs, "a block is matched with itself"); if (threw) sym_reach("sameplace"); return 0; }
		sym_assert(!threw, "a search for a match fails");
		sym_assert(br.found_dup() == any, any ? "an equal block is not found" : "a match is reported where there is none");
		if (any) { good(rv.first); sym_reach("found"); sym_assert(br.found_hash(), "a match without the hash being found"); }
		else { sym_assert(!rv.first && !rv.second, "a match is returned where there is none"); sym_assert(br.found_hash() == hash, hash ? "an entry that still holds is reported stale" : "a stale entry is reported to hold"); sym_reach("none"); }
	} else sym_assert(!threw || g_nphys == PH, "replacing references fails");
	return 0;
}
