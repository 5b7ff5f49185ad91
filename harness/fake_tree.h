// Fake kernel: BTRFS_IOC_TREE_SEARCH_V2 over a small sorted set of items (semantics of fs/btrfs/ioctl.c copy_to_sk).
#pragma once
#include "sym.h"
#include "crucible/btrfs.h"
#include "crucible/fs.h"
#include <errno.h>
#include <stdarg.h>
#include <string.h>
struct TItem { uint64_t tree, obj; uint32_t type; uint64_t off, transid; const uint8_t *data; size_t len; };
static TItem T[32];
static int NT = 0;
static int g_searches = 0;
static int (*g_search_errno)() = nullptr;   // returns an errno to fail with, or 0
static int g_batch = 0;                     // kernel may return fewer items than asked (0: no limit)
static bool key_lt(uint64_t o1, uint32_t t1, uint64_t f1, uint64_t o2, uint32_t t2, uint64_t f2) {
	return (o1 < o2) | ((o1 == o2) & ((t1 < t2) | ((t1 == t2) & (f1 < f2))));
}
static bool t_match(const TItem &i, const struct btrfs_ioctl_search_key &k) {
	return (i.tree == k.tree_id) & !key_lt(i.obj, i.type, i.off, k.min_objectid, (uint8_t)k.min_type, k.min_offset)
		& !key_lt(k.max_objectid, (uint8_t)k.max_type, k.max_offset, i.obj, i.type, i.off)
		& (i.transid >= k.min_transid) & (i.transid <= k.max_transid);
}
static int tree_search(struct crucible_search_args *ap);
struct crucible_search_args { struct btrfs_ioctl_search_key key; uint64_t buf_size; uint8_t buf[1]; };
static int tree_search(void *arg) {
	crucible_search_args *a = (crucible_search_args *)arg;
	g_searches++;
	if (g_search_errno) { int e = g_search_errno(); if (e) { errno = e; return -1; } }
	size_t pos = 0;
	uint32_t n = 0;
	for (int i = 0; i < NT && n < a->key.nr_items; i++) {
		if (g_batch && n >= (uint32_t)g_batch) break;
		if (!t_match(T[i], a->key)) continue;
		struct btrfs_ioctl_search_header h = {};
		size_t need = sizeof(h) + T[i].len;
		if (need > a->buf_size - pos) {
			if (n == 0) { errno = EOVERFLOW; a->buf_size = need; return -1; }   // the key is not copied back then
			break;
		}
		h.transid = T[i].transid; h.objectid = T[i].obj; h.offset = T[i].off; h.type = T[i].type; h.len = T[i].len;
		memcpy(a->buf + pos, &h, sizeof h);
		memcpy(a->buf + pos + sizeof h, T[i].data, T[i].len);
		pos += need;
		n++;
	}
	a->key.nr_items = n;
	return 0;
}
