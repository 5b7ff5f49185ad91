# ---------------------------------------------------------------- dedupe / data
p("D01", "A dedupe request covers its range exactly once, and success means all of it",
  "When a byte range is deduplicated against another range of the same length, the kernel requests issued for it are contiguous, in order, never repeat or skip a byte and never leave the two ranges, whatever partial progress the kernel reports. Success is reported only if every byte of the range was accepted as identical; a difference reported by the kernel is returned as a refusal, and an error or a stalled request is raised as an error that carries the error number the kernel gave.",
  ["inputs", "fault_sequences"], "every source/destination offset and length, and every sequence of per-request kernel answers (errno, per-destination status, bytes completed)",
  "No test issues a dedupe request (it needs a btrfs mount); partial completion depends on kernel answers a test cannot choose.",
  ["lib/fs.cc", "include/crucible/fs.h"], [("loop over partial dedupe results", "lib/fs.cc btrfs_extent_same / BtrfsExtentSame")])
p("D02", "Dedupe never overlaps, mismatches lengths, or touches a protected subvolume",
  "Replacing one file range by another either sends the kernel requests whose source and destination have equal, non-zero length and do not overlap, or sends nothing at all. With the send workaround enabled nothing is sent when the destination is in a read-only subvolume, and the source and destination roles are never exchanged. A destination the kernel reports as busy is tried again in a later transaction instead of being given up.",
  ["inputs", "configurations"], "every pair of file ranges, file identities, subvolume read-only state and workaround setting",
  "src/ has no unit test; the tests never build a range pair or a context.",
  ["src/bees-context.cc", "src/bees-types.cc", "src/bees-roots.cc"], [("dedupe entry point", "src/bees-context.cc BeesContext::dedup"), ("range pair constraints", "src/bees-types.cc BeesRangePair"), ("read-only root check", "src/bees-roots.cc is_root_ro")])
p("D03", "A growing match only swallows blocks that were read and found equal",
  "When a one-block match between two files is extended in either direction, every block added to it was compared equal, lies inside both files, and is not a block that is stored at the same physical place, has a hash known to be toxic, or is all zero in an uncompressed source. The two ranges always keep equal length and alignment and never start to overlap; a constrained match stays in its extent, and growth ends only at such a block, at the edge of a file or extent, or at a hole.",
  ["inputs"], "every starting match, file size, extent address of neighbouring blocks and block contents, within a bounded number of blocks",
  "No test covers range growth; the outcome depends on both files' data and layout.",
  ["src/bees-types.cc"], [("growth loop", "src/bees-types.cc BeesRangePair::grow")])
p("D04", "Scanning an extent remembers it or replaces it, and never writes user data",
  "Scanning one data extent ends in exactly one of these ways: it is left alone (it is a hole, known already, or matches a toxic extent); every non-zero block is recorded in the hash table under its true address and hash; or the whole extent is replaced: every block is either part of exactly one dedupe request, a part of a match that was found and lies inside the extent, or of exactly one copy, never both, never for more copied than freed, and never a mere copy of an extent without matches or zeros. Preallocated extents are replaced by a hole of the same length. Failed requests end the scan before anything is copied.",
  ["inputs", "histories"], "block contents, zero blocks, prior hash table contents and extent flags, within a bounded number of blocks per extent",
  "The scanner has no unit test and its branches depend on data contents, hash table history and filesystem layout together.",
  ["src/bees-context.cc", "src/bees.cc"], [("scan of one extent", "src/bees-context.cc BeesContext::scan_one_extent"), ("temporary copies", "src/bees.cc BeesTempFile")])
p("D05", "A temporary copy holds exactly the source bytes at a block-aligned place",
  "Copying a file range into the temporary file returns a range of the same length that begins on a block boundary inside the file, does not overlap any range handed out before without an intervening reset, and whose contents equal the source bytes, with zero blocks left as holes. Requested holes likewise have exactly the requested length and stay unwritten.",
  ["inputs", "histories"], "every bounded sequence of copy and hole requests with symbolic sizes and contents",
  "No test creates the temporary file.",
  ["src/bees.cc"], [("temporary file growth", "src/bees.cc BeesTempFile::make_copy, make_hole, realign, resize")])
p("D06", "Only an equal block at the recorded address becomes a dedupe partner",
  "A hash table entry leads to a dedupe pair only if a reference to its address exists in a file that is not excluded, the block there is stored at that very address (and offset in a compressed extent), lies inside the file, has the same length and was compared byte by byte equal; never the scanned block itself. When data was copied, every such reference to the old copy is replaced. An entry is reported stale exactly when no block found at its address has its hash.",
  ["inputs", "histories"], "every state of up to two references, every address form and every content of the compared blocks",
  "No test covers the resolver; the outcome depends on stale hash table entries, hash collisions and files that changed or vanished.",
  ["src/bees-resolve.cc"], [("reference chasing", "src/bees-resolve.cc BeesResolver::chase_extent_ref, adjust_offset"), ("pairing", "src/bees-resolve.cc BeesResolver::replace_dst, replace_src")])
p("D07", "Copied blocks are remembered where they are now",
  "When part of an extent is copied to free it, exactly that part (up to the end of the file) is copied, only then are the references to its old place moved to the copy, and afterwards every block of the part that holds data - and no zero block and no hole - is entered in the hash table once, under the hash of its content and with the address at which it is stored after the move, whether or not its reference moved. If the copy or the move fails, the failure is passed on and nothing is entered.",
  ["inputs", "fault_sequences"], "every content and every outcome of the move, block by block",
  "No test covers rewriting; a wrong address is only seen as missed or useless dedupe later.",
  ["src/bees-context.cc"], [("rewriting a range", "src/bees-context.cc BeesContext::rewrite_file_range, dup_extent")])
# ---------------------------------------------------------------- hash table
p("H01", "Hash table lookups and updates change exactly the entry they name",
  "Looking up a hash returns exactly the entries stored under it; inserting or promoting an entry makes it present once, most recent in its bucket, and otherwise preserves the order and contents of all other entries except that a full bucket drops its least recent one. Erasing removes exactly the named entry, and no operation touches another bucket.",
  ["inputs", "histories"], "arbitrary bucket contents, hashes and addresses",
  "No test covers the hash table; errors only show for particular fill levels and positions in a bucket.",
  ["src/bees-hash.cc"], [("bucket operations", "src/bees-hash.cc find_cell, push_front_hash_addr, push_random_hash_addr, erase_hash_addr")])
p("H02", "Every hash table change reaches the table file despite concurrent updates",
  "If a hash table entry is changed at any time, including while the region holding it is being written out, then once write-back has run to completion without a write error the table file holds the changed entry. A region whose write failed is not forgotten: it stays scheduled for a later write.",
  ["schedules", "fault_sequences"], "every interleaving of one writer of table entries with the write-back, and every write failure point",
  "The race window is a few instructions around an unlocked write; no test runs the hash table.",
  ["src/bees-hash.cc"], [("dirty tracking around the unlocked write", "src/bees-hash.cc flush_dirty_extent, set_extent_dirty")])
p("H03", "Loading a table region clears toxic marks and changes nothing else",
  "When a region of the hash table is read from disk, an entry that is not marked toxic keeps its place and value. A marked entry stays in place with the mark removed, unless the region already holds the same entry unmarked, in which case the marked one is emptied. Each region is read from exactly its own place in the file, exactly once even when several threads ask for it, nothing is written, and a failed read leaves the region empty rather than filled with other data.",
  ["inputs", "schedules"], "arbitrary on-disk region contents (bounded number of symbolic entries), region index, read failure and interleaving of two lookups",
  "No test loads a hash table; the behaviour depends on the contents of old table files.",
  ["src/bees-hash.cc"], [("fetch with clean-up", "src/bees-hash.cc fetch_missing_extent_by_index")])
p("H04", "The hash table geometry matches its file, and bad sizes are refused",
  "Opening a hash table file whose size is not a positive whole number of table regions is refused; otherwise bucket, cell and region counts and the per-bucket location are consistent with the file size, so that every hash maps to a bucket inside the file. A missing table file is created under a temporary name and only given its real name once complete.",
  ["inputs", "crash_points"], "every file size and every failing system call during creation",
  "No test opens a hash table; creation failures and odd sizes never occur in tests.",
  ["src/bees-hash.cc"], [("open and size checks", "src/bees-hash.cc open_file, BeesHashTable::BeesHashTable")])
# ---------------------------------------------------------------- addresses / ranges
p("T01", "Physical addresses encode and decode losslessly and compare consistently",
  "The address computed for a block of an extent identifies the block's physical position exactly: it decodes back to the same physical byte position, offset within a compressed extent, and end-of-file and toxic markers. Holes, delayed allocation and unusable extents map to special values that never equal the address of real data, and equality and ordering of addresses are consistent with each other.",
  ["inputs"], "every extent position, length, flag combination and offset within the extent",
  "No test covers address encoding; the flags interact in 64-bit arithmetic.",
  ["src/bees-types.cc", "src/bees.h"], [("address encoding", "src/bees-types.cc BeesAddress")])
p("T02", "File range arithmetic is exact, symmetric and never wraps",
  "Two non-empty file ranges overlap exactly when they are in the same file and share a byte, independent of argument order; shrinking a range, or growing one that lies inside its file, moves only the stated end by the stated amount, and a range is never allowed to become negative or inverted. Range ordering is a strict weak order consistent with equality.",
  ["inputs"], "every pair of ranges and every delta below 2^61",
  "No test covers range arithmetic.",
  ["src/bees-types.cc"], [("range algebra", "src/bees-types.cc BeesFileRange")])
# ---------------------------------------------------------------- crawl / checkpoint
p("C01", "The persisted scan position never passes unfinished work",
  "At every moment, the position recorded as completed is not beyond the position at which any still-running piece of work started, and once all work is finished it catches up with the highest position handed out. This holds for every order and interleaving in which work is started and finished, in every scan mode, and the recorded position never moves backwards while positions are handed out in ascending order. A program restarted from the recorded position therefore still comes across every piece of data that was wanted and not scanned yet.",
  ["schedules", "histories"], "every bounded sequence of starts, completions and reads, in every completion order, with symbolic positions",
  "The unit test completes a handful of fixed sequences; the property quantifies over all orders.",
  ["include/crucible/progress.h", "src/bees-roots.cc"], [("progress tracking", "include/crucible/progress.h ProgressTracker"), ("positions handed out by the scanners", "src/bees-roots.cc crawl_one_inode, BeesCrawl::fetch_extents, BeesFileCrawl::scan_one_ref, SizeTier::find_next_extent")])
p("C02", "Crawl state survives a save and reload unchanged",
  "Saving the scan positions of all subvolumes and loading the file into a new process restores every subvolume's transaction range, object id and offset exactly, including legacy spellings of the fields. A subvolume missing from the file is scanned from its first object, over a transaction range that begins no later than that of any other writable subvolume being scanned.",
  ["inputs"], "every value of every saved field for a bounded number of subvolumes, including files written by older versions",
  "No test saves or loads crawl state.",
  ["src/bees-roots.cc"], [("state text format", "src/bees-roots.cc state_to_stream, state_load")])
p("C03", "State files are replaced atomically under any crash or I/O error",
  "At every instant while a state file is being rewritten, and after any failing or interrupted system call, the file under its real name holds either the complete previous contents or the complete new contents. A failed or short write, sync or rename is reported as an error and never publishes the incomplete file.",
  ["crash_points", "fault_sequences"], "every crash point between system calls and every failing or short system call, for arbitrary contents",
  "Tests cannot crash between system calls or make fsync fail.",
  ["src/bees.cc", "lib/fd.cc"], [("write to temporary then rename", "src/bees.cc BeesStringFile::write")])
p("C04", "Consecutive scans of a subvolume leave no gap in transactions",
  "When a subvolume scan finishes and the next one begins, the new transaction range starts exactly where the previous one ended, its end is the newest known transaction, and the position is reset to the start. A scan that has not finished keeps its range, and a range never runs backwards.",
  ["histories", "inputs"], "every crawl state and every observed filesystem transaction number, over bounded cycles",
  "No test runs a crawler.",
  ["src/bees-roots.cc"], [("cycle restart", "src/bees-roots.cc BeesCrawl::restart_crawl")])
p("C05", "The extent size tiers cover every extent size exactly once",
  "Every possible extent length belongs to exactly one of the size-tier scanners, tiers do not overlap, and larger extents belong to tiers that are scanned earlier. A scan of a tier visits every data extent of the tier's sizes and of the wanted generations exactly once, in ascending order, and nothing else.",
  ["inputs"], "every 64-bit extent length",
  "No test covers tier selection; a gap only shows for particular sizes.",
  ["src/bees-roots.cc"], [("tier table", "src/bees-roots.cc s_magic_crawl_map / BeesScanModeExtent")])
p("C06", "References to an extent are tried in a consistent total order",
  "The references to a scanned extent are processed in ascending order of inode, subvolume and offset, whatever order the kernel returned them in, and every reference that still exists is processed exactly once (one whose scan asks to be retried is retried before the next). The extent is not recorded as done before its last reference is. An extent with too many references or with checksums disabled is left alone entirely.",
  ["inputs"], "every bounded set of references in every order",
  "No test builds a reference list; a bad comparison only shows for some input orders.",
  ["src/bees-roots.cc"], [("reference ordering", "src/bees-roots.cc create_extent_map")])
p("C07", "Opening a file by inode yields only the verified file asked for",
  "A file opened for a subvolume and inode number is returned only if the opened descriptor is on the same filesystem and in that subvolume, has that inode number, and does not have a copy-on-write disabling attribute that makes it ineligible; in every other case nothing is returned. No path is followed out of the subvolume.",
  ["inputs", "fault_sequences"], "every answer of the kernel for path lookup, open, stat and flag queries",
  "Needs a btrfs filesystem with renames racing the lookup; no test does this.",
  ["src/bees-roots.cc"], [("verification after open", "src/bees-roots.cc open_root_ino_nocache, open_root_nocache")])
p("C08", "Every change of the scan positions reaches the state file",
  "A change of the recorded scan state - a subvolume's position set, a subvolume appearing or removed - is marked for saving and written to the state file by the write-back thread: a change made while a save is in progress is written by a later save, a save that failed is tried again, the last save happens after the stop request, and an unchanged state is not written again. No two saves run at once.",
  ["schedules", "fault_sequences"], "every interleaving of changes, periodic saves, failures and the stop request",
  "A change lost between two saves shows only after a crash at the wrong moment; no test runs the write-back thread.",
  ["src/bees-roots.cc"], [("save and write-back", "src/bees-roots.cc BeesRoots::state_save, writeback_thread, crawl_state_set_dirty, crawl_state_erase, insert_root"), ("position update", "src/bees-roots.cc BeesCrawl::set_state")])
p("C09", "Each new transaction starts a scan; a stop request ends the threads at once",
  "While the daemon runs, every poll that finds the filesystem at a newer transaction drops the cached descriptors and the resolve cache and then starts one scan that sees the new transaction; an unchanged transaction starts none, a failing poll ends nothing, and the saved state is loaded before the first scan even when the first readings fail. A stop request at any moment ends the polling and write-back threads without waiting for their next timeout.",
  ["schedules", "fault_sequences"], "every sequence of poll results and every interleaving of polls, scans and the stop request",
  "A lost new transaction or a slept-through stop depends on the moment; no test runs the polling thread.",
  ["src/bees-roots.cc"], [("polling", "src/bees-roots.cc BeesRoots::crawl_thread, transid_max_nocache, clear_caches, start"), ("stop", "src/bees-roots.cc BeesRoots::stop_request, stop_wait, writeback_thread")])
# ---------------------------------------------------------------- filesystem interfaces
p("F01", "Search results are parsed in bounds, completely, for any buffer size",
  "Parsing the kernel's tree search reply yields exactly the items the kernel returned, with their headers and bytes intact, never reads outside the reply buffer even when item lengths are inconsistent, and retries with a larger buffer when the kernel says an item did not fit.",
  ["inputs", "fault_sequences"], "every bounded reply buffer, including malformed lengths, and every overflow answer",
  "No test calls the search ioctl.",
  ["lib/fs.cc"], [("search reply parser", "lib/fs.cc BtrfsIoctlSearchKey::do_ioctl")])
p("F02", "Resuming a tree search continues with exactly the next possible key",
  "After processing an item, the next search starts at the smallest key greater than that item's, so repeated searches visit every key in the requested range exactly once in order, and the end of the key space is reported rather than wrapped.",
  ["inputs"], "every key triple, including the extreme values of each field",
  "No test covers pagination.",
  ["lib/fs.cc"], [("successor key", "lib/fs.cc BtrfsIoctlSearchKey::next_min")])
p("F03", "Backward seeking finds the nearest preceding item",
  "Looking backwards for the last item at or before a position in a forward-only index returns exactly that item, or reports that none exists, whatever the spacing and number of items and for every size of initial guess. (Items lie below the highest representable position, which the search reserves to mean the end.)",
  ["inputs"], "every bounded sorted set of positions and every target and step size",
  "The unit test tries a few fixed sets.",
  ["include/crucible/seeker.h"], [("backward seek", "include/crucible/seeker.h seek_backward")])
p("F04", "Tree item lookups agree with the tree's contents",
  "Exact, lower-bound, previous, next and reverse lookups of items in a metadata tree return exactly the item a sorted scan of the tree would give, or a null item when there is none, independent of item spacing and of how the kernel batches replies.",
  ["inputs"], "every bounded set of item keys, every lookup key, and every batching of replies",
  "No test has a metadata tree to read.",
  ["lib/btrfs-tree.cc", "lib/fs.cc"], [("fetchers", "lib/btrfs-tree.cc BtrfsTreeObjectFetcher, BtrfsTreeOffsetFetcher")])
p("F05", "The extent map of a file tiles the file without gaps or overlaps",
  "Walking the extents of a file visits ranges of which the first contains the requested position; they are contiguous and non-overlapping, cover the whole file to its end, and report as holes exactly the parts with no extent item; physical addresses and flags come from the item covering the range.",
  ["inputs"], "every bounded list of extent items and file size and every seek position",
  "No test walks extents of a real btrfs file.",
  ["lib/extentwalker.cc"], [("extent map", "lib/extentwalker.cc ExtentWalker, BtrfsExtentWalker::get_extent_map")])
p("F06", "Address-to-reference replies are decoded in bounds and never truncated silently",
  "The list of references the kernel returns for a physical address is decoded to exactly the references in the reply, never more than fit in the buffer; a reply that is not a whole number of references is refused, a failed call leaves an empty list, and a list filled to its limit is treated as too many rather than used as if complete. Path lists likewise never produce a string outside the reply.",
  ["inputs"], "every reply header and contents, including inconsistent counts and offsets, for a bounded buffer",
  "No test calls these ioctls.",
  ["lib/fs.cc"], [("reply decoding", "lib/fs.cc BtrfsIoctlLogicalInoArgs, BtrfsIoctlInoPathArgs")])
# ---------------------------------------------------------------- concurrency and caches
p("K01", "A scheduled task runs after the request, and never twice at once",
  "Every request to run a task is followed by at least one execution that starts after the request, several requests before a run may be merged into one, and a task's function is never executed by two workers at the same time. No request is lost whatever the interleaving with the task's own execution.",
  ["schedules"], "every interleaving, with bounded preemptions, of workers and requesters at synchronisation points",
  "Unit tests sample a few schedules.",
  ["lib/task.cc"], [("task state machine", "lib/task.cc TaskState::run, idle, exec")])
p("K02", "A task exclusion has one holder and wakes every waiter",
  "At most one holder owns an exclusion at any time, and every task that was refused the exclusion is run again after the owning task is done with it, whatever the interleaving of refusal and release.",
  ["schedules"], "every interleaving, with bounded preemptions, of holders and waiters",
  "Unit tests sample a few schedules.",
  ["lib/task.cc"], [("exclusion", "lib/task.cc Exclusion::try_lock")])
p("K03", "A barrier releases its tasks exactly when the last holder lets go",
  "A task attached to a barrier is not run through it while any copy of the barrier's handle exists, and is run once after the last copy is released, for every interleaving of attaching and releasing.",
  ["schedules"], "every bounded sequence and interleaving of attach and release",
  "Unit tests sample a few schedules.",
  ["lib/task.cc"], [("barrier", "lib/task.cc Barrier")])
p("K04", "Operations of different lock groups never run at the same time",
  "While an operation of one named group is in progress no operation of another group is; operations of the same group may overlap, every waiter is eventually admitted when the other group's operations end, and a disabled lock admits everything.",
  ["schedules"], "every interleaving, with bounded preemptions, of operations of two groups",
  "No test covers the group lock.",
  ["lib/multilock.cc"], [("group lock", "lib/multilock.cc MultiLocker")])
p("K05", "The cache calls its loader once per key and keeps only recent entries",
  "A cached lookup returns the value the loader produced for exactly that key; concurrent lookups of the same key produce one load; a value is reused until it is expired, cleared or displaced, the least recently used entry is displaced first, and the cache never holds more than its limit.",
  ["schedules", "histories"], "every bounded sequence and interleaving of lookups, inserts, expiries and loader failures",
  "No test covers the cache.",
  ["include/crucible/cache.h", "include/crucible/lockset.h"], [("LRU cache", "include/crucible/cache.h LRUCache")])
p("K06", "A named resource has at most one live instance per name",
  "All live handles with the same name refer to the same object, concurrent requests for one name create it once, and an object that died is replaced by a new one rather than resurrected or leaked.",
  ["schedules", "histories"], "every bounded sequence and interleaving of creation, copy, release and insertion",
  "The unit test uses one thread and fixed sequences.",
  ["include/crucible/namedptr.h"], [("named pointer table", "include/crucible/namedptr.h NamedPtr")])
p("K07", "A keyed lock is held by one owner and the set respects its size limit",
  "No two owners hold the same key of a lock set at the same time, the number of held keys never exceeds the configured limit, a blocked owner proceeds once the key is free, and releasing returns exactly the key that was held.",
  ["schedules"], "every interleaving, with bounded preemptions, of lockers on symbolic keys",
  "No test covers the lock set.",
  ["include/crucible/lockset.h"], [("lock set", "include/crucible/lockset.h LockSet")])
p("K08", "A pooled object is never given to two users at once",
  "An object checked out of a pool belongs to one user until it is returned, returned objects are reused before new ones are made, and the hooks for check-out and check-in run exactly once per use.",
  ["schedules", "histories"], "every bounded sequence and interleaving of check-outs and returns",
  "No test covers the pool.",
  ["include/crucible/pool.h"], [("pool", "include/crucible/pool.h Pool")])
# ---------------------------------------------------------------- library arithmetic
p("L01", "Checked integer conversion is exact or refused",
  "Converting an integer to another integer type returns the same mathematical value, or raises an error if the target type cannot represent it.",
  ["inputs"], "every value of every combination of 8- to 64-bit signed and unsigned types",
  "The unit test samples a few values per type.",
  ["include/crucible/limits.h"], [("range-checked cast", "include/crucible/limits.h ranged_cast")])
p("L02", "Byte buffers never give access outside their storage",
  "A slice of a byte buffer lies inside the buffer it was cut from or is refused, indexed access is in range or refused, copies share contents, and removing bytes from either end leaves exactly the remaining bytes.",
  ["inputs", "histories"], "every offset and length, including values that overflow, on bounded buffers",
  "No test covers byte buffers.",
  ["lib/bytevector.cc"], [("slices", "lib/bytevector.cc ByteVector")])
p("L03", "File reads and writes deliver every byte in place or raise an error",
  "A read or write helper returns normally only if the kernel transferred exactly the bytes requested (or, for helpers that allow a short result, exactly the prefix it reports), each byte at its own position in the buffer; interrupted and partial transfers never shift, duplicate or drop bytes.",
  ["inputs", "fault_sequences"], "every sequence of partial, interrupted and failing transfers for bounded sizes",
  "Tests use real files, which never return partial transfers.",
  ["lib/fd.cc"], [("read and write helpers", "lib/fd.cc read_partial_or_die, pread_or_die, write_or_die, pwrite_or_die")])
p("L04", "A descriptor is closed exactly once, after its last user",
  "An open file descriptor owned by the daemon is closed exactly once, when the last copy of its handle goes away, and never while a copy exists; negative descriptors are never closed.",
  ["histories", "schedules"], "every bounded sequence of handle creation, copy, assignment and destruction",
  "The unit test checks fixed sequences on real descriptors.",
  ["lib/fd.cc", "include/crucible/fd.h"], [("descriptor handle", "lib/fd.cc Fd, IOHandle")])
p("L05", "The block checksum and hash functions match their definitions for all data",
  "The 64-bit CRC of any byte string equals the CRC computed bit by bit from its polynomial, independent of alignment and length.",
  ["inputs"], "every byte string up to a bounded length and alignment",
  "The unit test compares a few fixed vectors.",
  ["lib/crc64.cc"], [("table-driven CRC", "lib/crc64.cc")])
