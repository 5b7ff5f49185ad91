From f998427bfaf52c4eee29acdec58a5b3a503a2ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:19 +0000
Subject: [PATCH 01/14] fix: read_partial_or_die: advance the buffer after a
 partial read

When read() returned fewer bytes than requested, the next read() stored
its data at the start of the buffer again, overwriting the bytes already
read and leaving the tail unset.
---
 lib/fd.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/fd.cc b/lib/fd.cc
index dbbfb48..cb2458a 100644
--- a/lib/fd.cc
+++ b/lib/fd.cc
@@ -391,6 +391,7 @@ namespace crucible {
 			if (rv == 0) break;
 			size_read += rv;
 			size -= rv;
+			buf = static_cast<uint8_t *>(buf) + rv;
 			// CHATTER("read " << rv << " bytes from fd " << fd);
 		}
 	}
-- 
2.43.0


From 251a0e655ccabb40515a86fb7e456ffd0feec17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:07 +0000
Subject: [PATCH 02/14] fix: ByteVector: refuse slices that extend past the end
 of the buffer

The length check compared start + length with m_size + length, which is
the same test as start <= m_size, so any length was accepted.
---
 lib/bytevector.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bytevector.cc b/lib/bytevector.cc
index df2b430..25cc3ed 100644
--- a/lib/bytevector.cc
+++ b/lib/bytevector.cc
@@ -76,7 +76,7 @@ namespace crucible {
 	{
 		THROW_CHECK0(out_of_range, that.m_ptr);
 		THROW_CHECK2(out_of_range, start, that.m_size, start <= that.m_size);
-		THROW_CHECK2(out_of_range, start + length, that.m_size + length, start + length <= that.m_size + length);
+		THROW_CHECK3(out_of_range, start, length, that.m_size, length <= that.m_size - start);
 		m_ptr = Pointer(that.m_ptr, that.m_ptr.get() + start);
 		m_size = length;
 	}
-- 
2.43.0


From 289e81c0bccebf6287077742cd4f1f6dd8cc7c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:10 +0000
Subject: [PATCH 03/14] fix: hash table: do not lose updates made while an
 extent is being written

---
 src/bees-hash.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/bees-hash.cc b/src/bees-hash.cc
index 7581fe1..455d4fc 100644
--- a/src/bees-hash.cc
+++ b/src/bees-hash.cc
@@ -119,6 +119,10 @@ BeesHashTable::flush_dirty_extent(uint64_t extent_index)
 		// Copy the extent because we might be stuck writing for a while
 		ByteVector extent_copy(dirty_extent, dirty_extent_end);
 
+		// Mark extent clean before releasing the lock, so that a change
+		// made while we are writing the copy marks the extent dirty again
+		m_extent_metadata.at(extent_index).m_dirty = false;
+
 		// Release the lock
 		lock.unlock();
 
@@ -130,13 +134,17 @@ BeesHashTable::flush_dirty_extent(uint64_t extent_index)
 		// const size_t dirty_extent_size   = dirty_extent_end - dirty_extent;
 		// bees_unreadahead(m_fd, dirty_extent_offset, dirty_extent_size);
 
-		// Mark extent clean if write was successful
-		lock.lock();
-		m_extent_metadata.at(extent_index).m_dirty = false;
-
 		wrote_extent = true;
 	});
 
+	// If the write failed, the extent is still dirty
+	if (!wrote_extent) {
+		if (!lock.owns_lock()) {
+			lock.lock();
+		}
+		m_extent_metadata.at(extent_index).m_dirty = true;
+	}
+
 	return wrote_extent;
 }
 
-- 
2.43.0


From cd3c20b6b3f58599a7c525303c49f406aba16998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:19 +0000
Subject: [PATCH 04/14] fix: BeesFileRange::shrink_end must not invert the
 range

shrink_end only checked that the result is not negative, so shrinking by
more than the range's size silently produced a range that ends before it
begins. Refuse it, as shrink_begin does.
---
 src/bees-types.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bees-types.cc b/src/bees-types.cc
index 665f20d..455e159 100644
--- a/src/bees-types.cc
+++ b/src/bees-types.cc
@@ -196,7 +196,7 @@ off_t
 BeesFileRange::shrink_end(off_t delta)
 {
 	THROW_CHECK1(invalid_argument, delta, delta > 0);
-	THROW_CHECK2(invalid_argument, delta, m_end, m_end >= delta);
+	THROW_CHECK3(invalid_argument, delta, m_begin, m_end, m_end - delta > m_begin);
 	m_end -= delta;
 	return m_end;
 }
-- 
2.43.0


From 57f3a22a93a103de91cbf0fc5a57955ed2b609c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:30 +0000
Subject: [PATCH 05/14] fix: tree search must try a 64K buffer before giving up
 on an item

When an item did not fit in a 16K buffer, the retry loop ended without
trying 64K. The kernel returns no items and does not update the key in
that case, so the stale item count made us parse uninitialized memory as
search results. Try 64K, and report the error if even that is too small.
---
 lib/fs.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/fs.cc b/lib/fs.cc
index 356d803..f36ed12 100644
--- a/lib/fs.cc
+++ b/lib/fs.cc
@@ -771,6 +771,7 @@ namespace crucible {
 		size_t buf_size = max(m_buf_size, sizeof(btrfs_ioctl_search_args_v2) + sizeof(btrfs_ioctl_search_header));
 		ByteVector ioctl_arg;
 		btrfs_ioctl_search_args_v2 *ioctl_ptr;
+		bool overflow;
 		do {
 			// ioctl buffer size does not include search key header or buffer size
 			ioctl_arg = ByteVector(buf_size + sizeof(btrfs_ioctl_search_args_v2));
@@ -791,6 +792,11 @@ namespace crucible {
 			if (rv != 0 && errno != EOVERFLOW) {
 				return false;
 			}
+			overflow = (rv != 0);
+			if (overflow && buf_size >= 65536) {
+				// The next item doesn't fit in the largest buffer, and the kernel didn't return any items
+				return false;
+			}
 			if (rv == 0 && nr_items <= ioctl_ptr->key.nr_items) {
 				// got all the items we wanted, thanks
 				m_buf_size = max(m_buf_size, buf_size);
@@ -813,7 +819,8 @@ namespace crucible {
 			if (ioctl_ptr->key.nr_items == 0) {
 				++s_loops_empty;
 			}
-		} while (buf_size < 65536);
+			// but do use 64K if the kernel said the next item doesn't fit in anything smaller
+		} while (buf_size < 65536 || (overflow && buf_size == 65536));
 
 		// ioctl changes nr_items, this has to be copied back
 		static_cast<btrfs_ioctl_search_key&>(*this) = ioctl_ptr->key;
-- 
2.43.0


From 4906e89ddf1eb0a57f03f96470655c4329626244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:22 +0000
Subject: [PATCH 06/14] fix: BtrfsIoctlSearchKey::next_min must wrap 8-bit item
 types and refuse to wrap the object id

The type field of the ioctl is 32 bits wide but item types are 8 bits, so
incrementing type 255 produced a type that the kernel truncates to 0,
restarting the search in the same object. The end-of-key-space check
tested the type instead of the object id.
---
 lib/fs.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lib/fs.cc b/lib/fs.cc
index f36ed12..9491543 100644
--- a/lib/fs.cc
+++ b/lib/fs.cc
@@ -850,14 +850,15 @@ namespace crucible {
 		min_offset = ref.offset + 1;
 		if (min_offset < ref.offset) {
 			// We wrapped, try the next type
-			++min_type;
 			assert(min_offset == 0);
-			if (min_type < ref.type) {
-				assert(min_type == 0);
-				// We wrapped, try the next objectid
+			if (ref.type < numeric_limits<uint8_t>::max()) {
+				++min_type;
+			} else {
+				// Types are 8 bits wide, so we wrapped, try the next objectid
+				min_type = 0;
 				++min_objectid;
 				// no advancement possible at end
-				THROW_CHECK1(runtime_error, min_type, min_type == 0);
+				THROW_CHECK2(out_of_range, min_objectid, ref.objectid, min_objectid > ref.objectid);
 			}
 		}
 	}
-- 
2.43.0


From 042e512ec25d359ae0235b2533dd514006e3cf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:13 +0000
Subject: [PATCH 07/14] fix: task workers: replace workers when more than
 necessary exit at once

---
 lib/task.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/task.cc b/lib/task.cc
index 2507285..4d821a6 100644
--- a/lib/task.cc
+++ b/lib/task.cc
@@ -938,6 +938,9 @@ namespace crucible {
 
 		// Fun fact:  shared_from_this() isn't usable until the constructor returns...
 		master_copy->m_threads.erase(shared_from_this());
+		// More threads than necessary may have decided to exit while
+		// we were still in the set, so start replacements if needed
+		master_copy->start_threads_nolock();
 		master_copy->m_condvar.notify_all();
 	}
 
-- 
2.43.0


From 3da181fc84f0e7b181dc6f36510feee0e1a03e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:58 +0000
Subject: [PATCH 08/14] fix: sort extent references with a strict weak ordering

---
 src/bees-roots.cc | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/bees-roots.cc b/src/bees-roots.cc
index b3025d0..b4912ec 100644
--- a/src/bees-roots.cc
+++ b/src/bees-roots.cc
@@ -862,15 +862,9 @@ BeesScanModeExtent::SizeTier::create_extent_map(const uint64_t bytenr, const Pro
 	// Sort list in sane read/search order
 	refs_list->sort([](const ExtentRef &a, const ExtentRef &b) {
 		// Sort by inode first to avoid thrashing inode locks
-		if (a.m_inum < b.m_inum) return -1;
-		if (a.m_inum > b.m_inum) return 1;
 		// Do all the reflinks on one subvol at a time so that we don't have a lot of open trees
-		if (a.m_root < b.m_root) return -1;
-		if (a.m_root > b.m_root) return 1;
 		// Logically sequential read order because that's what both scan_one_extent and btrfs are optimized for
-		if (a.m_offset < b.m_offset) return -1;
-		if (a.m_offset > b.m_offset) return 1;
-		return 0;
+		return tie(a.m_inum, a.m_root, a.m_offset) < tie(b.m_inum, b.m_root, b.m_offset);
 	});
 
 	// Create task to scan all refs to this extent
-- 
2.43.0


From 58706723e7fa0999f7b5f864e33e43906bffb8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:56 +0000
Subject: [PATCH 09/14] fix: THROW_ERRNO must report the errno from before
 formatting the message

The message often contains name_fd(), whose readlink may fail and change
errno before the exception is constructed.  Callers such as
BeesContext::dedup, which looks for EAGAIN, then see some other error.
---
 include/crucible/error.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/crucible/error.h b/include/crucible/error.h
index 6952dce..c331ab1 100644
--- a/include/crucible/error.h
+++ b/include/crucible/error.h
@@ -87,9 +87,11 @@ namespace crucible {
 
 // macro for throwing a system_error with errno
 #define THROW_ERRNO(expr) do { \
+	/* evaluating expr may change errno */ \
+	const int _te_errno = errno; \
 	std::ostringstream _te_oss; \
 	_te_oss << expr << " at " << __FILE__ << ":" << __LINE__; \
-	throw std::system_error(std::error_code(errno, std::system_category()), _te_oss.str()); \
+	throw std::system_error(std::error_code(_te_errno, std::system_category()), _te_oss.str()); \
 } while (0)
 
 // macro for throwing a system_error with some other variable
-- 
2.43.0


From 29b66e84d86a8ecad0389c9bc392bce4fe99df7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:03 +0000
Subject: [PATCH 10/14] fix: don't read outside the reply buffer of LOGICAL_INO
 and INO_PATHS

---
 lib/fs.cc | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/lib/fs.cc b/lib/fs.cc
index 9491543..9d179d2 100644
--- a/lib/fs.cc
+++ b/lib/fs.cc
@@ -12,6 +12,7 @@
 
 #include <cassert>
 #include <cstddef>
+#include <cstring>
 #include <iostream>
 #include <exception>
 
@@ -381,6 +382,9 @@ namespace crucible {
 
 		// elem_cnt counts uint64_t, but BtrfsInodeOffsetRoot is 3x uint64_t
 		THROW_CHECK1(runtime_error, bdc->elem_cnt, bdc->elem_cnt % 3 == 0);
+		// Don't follow an inconsistent reply out of the buffer
+		const size_t max_elem_cnt = (m_container_size - offsetof(btrfs_data_container, val)) / sizeof(uint64_t);
+		THROW_CHECK2(out_of_range, bdc->elem_cnt, max_elem_cnt, bdc->elem_cnt <= max_elem_cnt);
 		m_iors.m_begin = ior_iter;
 		m_iors.m_end = ior_iter + bdc->elem_cnt / 3;
 		return true;
@@ -427,17 +431,26 @@ namespace crucible {
 		}
 
 		btrfs_data_container *const bdc = reinterpret_cast<btrfs_data_container *>(p->fspath);
+		// Offsets are relative to val, and there can't be more of them than there is room for
+		const size_t val_size = container.get_size() - offsetof(btrfs_data_container, val);
+		THROW_CHECK2(out_of_range, bdc->elem_cnt, val_size, bdc->elem_cnt <= val_size / sizeof(uint64_t));
+
 		m_paths.reserve(bdc->elem_cnt);
 
 		const uint64_t *up = reinterpret_cast<const uint64_t *>(bdc->val);
 		const char *const cp = reinterpret_cast<const char *>(bdc->val);
 
 		for (auto count = bdc->elem_cnt; count > 0; --count) {
-			const char *const path = cp + *up++;
-			if (static_cast<size_t>(path - cp) > container.get_size()) {
-				THROW_ERROR(out_of_range, "offset " << (path - cp) << " > size " << container.get_size() << " in " << __PRETTY_FUNCTION__);
+			const uint64_t offset = *up++;
+			if (offset >= val_size) {
+				THROW_ERROR(out_of_range, "offset " << offset << " >= size " << val_size << " in " << __PRETTY_FUNCTION__);
+			}
+			const size_t max_len = val_size - offset;
+			const size_t len = strnlen(cp + offset, max_len);
+			if (len >= max_len) {
+				THROW_ERROR(out_of_range, "unterminated path at offset " << offset << " size " << val_size << " in " << __PRETTY_FUNCTION__);
 			}
-			m_paths.push_back(string(path));
+			m_paths.push_back(string(cp + offset, len));
 		}
 
 		return true;
-- 
2.43.0


From 491ef85ed8544570d1be81df90153f48f06903cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:23 +0000
Subject: [PATCH 11/14] fix: don't save a crawl position past an inode that is
 not scanned yet

fetch_extents moved the subvol crawl state past the inode as soon as it was
looked at by peek_front, and crawl_one_inode held that state while scanning
the inode, so a restart would skip the inode.
---
 src/bees-roots.cc | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/bees-roots.cc b/src/bees-roots.cc
index b4912ec..a809183 100644
--- a/src/bees-roots.cc
+++ b/src/bees-roots.cc
@@ -174,9 +174,13 @@ BeesScanModeSubvol::get_crawl_map()
 bool
 BeesScanModeSubvol::crawl_one_inode(const shared_ptr<BeesCrawl>& this_crawl)
 {
+	// Fetch the next item first, as that might start a new crawl with a new state
+	this_crawl->peek_front();
 	const auto this_state = this_crawl->get_state_end();
 	BEESNOTE("Crawling inode " << this_state);
 	BEESTRACE("Crawling inode " << this_state);
+	// Hold the state before it moves past the inode, so the saved state never does while the inode is not scanned
+	const auto this_hold = this_crawl->hold_state(this_state);
 	const auto this_range = this_crawl->pop_front();
 	if (!this_range) {
 		return false;
@@ -200,8 +204,8 @@ BeesScanModeSubvol::crawl_one_inode(const shared_ptr<BeesCrawl>& this_crawl)
 		ostringstream oss;
 		oss << "crawl_" << subvol << "_" << inode;
 		const auto task_title = oss.str();
-		// this_state.m_objectid was advanced to inode+1 by peek_front()->fetch_extents().
-		// Fix: use the actual inode from this_range so BtrfsExtentDataFetcher finds
+		// this_state.m_objectid is where the search for this inode started.
+		// Use the actual inode from this_range so BtrfsExtentDataFetcher finds
 		// the correct inode (exact-match search).
 		auto bfc_state = this_state;
 		bfc_state.m_objectid = inode;
@@ -209,7 +213,7 @@ BeesScanModeSubvol::crawl_one_inode(const shared_ptr<BeesCrawl>& this_crawl)
 			.m_ctx = m_ctx,
 			.m_crawl = this_crawl,
 			.m_roots = m_roots,
-			.m_hold = this_crawl->hold_state(this_state),
+			.m_hold = this_hold,
 			.m_state = bfc_state,
 			.m_offset = this_range.begin(),
 		});
@@ -2466,10 +2470,7 @@ BeesCrawl::fetch_extents()
 		// Try to restart immediately if more transids are available.
 		return restart_crawl_unlocked();
 	}
-	auto new_state = old_state;
-	new_state.m_objectid = max(m_next_extent_data.objectid() + m_btof.scale_size(), m_next_extent_data.objectid());
-	new_state.m_offset = 0;
-	set_state(new_state);
+	// pop_front advances the state.  Until then this item is not processed.
 	return true;
 }
 
@@ -2516,6 +2517,12 @@ BeesCrawl::pop_front()
 	fetch_extents_harder();
 	BtrfsTreeItem rv;
 	swap(rv, m_next_extent_data);
+	if (!!rv) {
+		auto new_state = get_state_end();
+		new_state.m_objectid = max(rv.objectid() + m_btof.scale_size(), rv.objectid());
+		new_state.m_offset = 0;
+		set_state(new_state);
+	}
 	return bti_to_bfr(rv);
 }
 
-- 
2.43.0


From cdd843afcb6cda88eff9a4c0ecb4db8817718dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:23 +0000
Subject: [PATCH 12/14] fix: scan an extent again if its scan was deferred by a
 lock in subvol scan modes

scan_one_ref had already advanced its offset, so the extent was skipped.
---
 src/bees-roots.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bees-roots.cc b/src/bees-roots.cc
index a809183..4aa55e8 100644
--- a/src/bees-roots.cc
+++ b/src/bees-roots.cc
@@ -1732,6 +1732,8 @@ BeesFileCrawl::scan_one_ref()
 					if (!scan_again) {
 						m_hold = new_holder;
 					} else {
+						// Come back to this extent when it is unlocked
+						m_offset = bti.offset();
 						BEESCOUNT(crawl_again);
 					}
 				}
-- 
2.43.0


From e422ced09b03d6ec86db2174688216f173fc3ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:13 +0000
Subject: [PATCH 13/14] fix: read the extents of the last file of a subvolume
 if it ends with a hole

The end of a file's extents was only recognized when an item of the next
inode followed. For the last inode of a subvolume there is no such item,
so run_fiemap threw an exception if such a file ended with a hole and had
fewer than 4 extents, and the file was never scanned.
---
 lib/extentwalker.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/extentwalker.cc b/lib/extentwalker.cc
index e1d47bc..ffe7d50 100644
--- a/lib/extentwalker.cc
+++ b/lib/extentwalker.cc
@@ -628,6 +628,12 @@ namespace crucible {
 			}
 		}
 
+		// If the search found fewer items than it was allowed to, there
+		// are no more items after pos in this file or any other.
+		if (sk.m_result.size() < sc_extent_fetch_max) {
+			past_eof = true;
+		}
+
 		// Plug a hole at EOF
 		if (past_eof && !rv.empty()) {
 			rv.rbegin()->m_flags |= FIEMAP_EXTENT_LAST;
-- 
2.43.0


From dfe39e5d06aca511a0eb08c0685e7bbfb6e423ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:47 +0000
Subject: [PATCH 14/14] fix: check the added block for zeros when growing a
 match forward

The zero-block check compared the compression and magic state of the
first block of the range, not of the block being added.
---
 src/bees-types.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bees-types.cc b/src/bees-types.cc
index 455e159..f4db397 100644
--- a/src/bees-types.cc
+++ b/src/bees-types.cc
@@ -523,7 +523,7 @@ BeesRangePair::grow(shared_ptr<BeesContext> ctx, bool constrained)
 		}
 
 		// Source block cannot be zero in a non-compressed non-magic extent
-		BeesAddress first_addr(first.fd(), new_first.begin());
+		BeesAddress first_addr(first.fd(), first.end());
 		if (first_bbd.is_data_zero() && !first_addr.is_magic() && !first_addr.is_compressed()) {
 			BEESCOUNT(pairforward_zero);
 			break;
-- 
2.43.0

