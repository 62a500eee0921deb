#!/usr/bin/env python3
# Generates /verif/properties.jsonl.  Edit here, run, commit both.
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

NOSRC = "The 66 existing tests exercise libcrucible helpers only; no test runs any code in src/ or any ioctl. "

p("B01", "User data is never altered",
  "At every instant, every user file reads back exactly the bytes its own users last wrote and keeps its size, whatever the daemon is doing to it or to files sharing its data. This holds for any file layout (holes, preallocated, compressed, inline, unaligned tails, shared and partially overwritten extents), for files being modified or deleted concurrently, and when the daemon is killed or system calls fail.",
  ["schedules","crash_points","inputs","fault_sequences"], "all file layouts, all interleavings with other writers, all crash points, all syscall failures",
  NOSRC + "Integrity must hold for every layout/interleaving/crash point, none of which is sampled.",
  ["src/bees-context.cc","src/bees-types.cc","src/bees-resolve.cc","src/bees.cc","lib/fs.cc","lib/extentwalker.cc"],
  [("dedupe only through compare-and-share ioctl","BeesContext::dedup / btrfs_extent_same"),("copies go to private temporary files","BeesTempFile::make_copy")],
  ["system call boundary","file contents compared with a shadow copy"], "tunable timing constants")

p("B02", "User files are only ever touched by the kernel's verified dedupe call",
  "The daemon never opens a user file for writing and never writes, truncates, punches, renames, unlinks, clones into, defragments or changes the attributes or flags of one. The only modifying request it issues on a user file is the kernel's content-verifying dedupe request; everything else it writes is confined to its own state directory, status file and anonymous temporary files.",
  ["inputs","histories","configurations","fault_sequences"], "all filesystem contents, options, and syscall failures",
  NOSRC + "It is a statement about every system call ever issued.",
  ["src/bees-context.cc","src/bees.cc","src/bees-roots.cc","lib/fs.cc","lib/fd.cc"],
  [("read-only open flags","src/bees.h FLAGS_OPEN_FILE"),("BeesTempFile on O_TMPFILE","BeesTempFile::BeesTempFile")],
  ["system call boundary"])

p("B03", "Duplicate data ends up stored once",
  "When the filesystem stops changing and the hash table is large enough, the daemon reaches a state where identical data blocks of eligible files that it is able to match share the same physical storage, including duplicates at different file offsets, partially duplicated extents, unaligned file tails, compressed extents and all-zero blocks (which become holes). It reaches this state in every scan mode and with any number of workers; only copies that appear at the same moment may escape each other when several workers scan them simultaneously, and compressed extents that are referenced several times or matched only in fragments may stay as they are.",
  ["inputs","schedules","configurations"], "all arrangements of duplicated data, scan modes, worker counts",
  NOSRC + "Effectiveness depends on the whole pipeline (scan, hash, resolve, rewrite, dedupe).",
  ["src/bees-context.cc","src/bees-resolve.cc","src/bees-hash.cc","src/bees-types.cc","src/bees-roots.cc"],
  [("scan_one_extent","src/bees-context.cc"),("BeesResolver","src/bees-resolve.cc"),("BeesHashTable","src/bees-hash.cc")],
  ["extent maps at quiescence"], "tunable timing constants")

p("B04", "Deduplication never costs space",
  "When the daemon is idle after processing any filesystem state that others no longer modify, the space referenced by files is no larger than it was before, and none of the daemon's temporary copies remain referenced only by the daemon beyond a bounded number of blocks. Data that had no duplicates anywhere is not rewritten.",
  ["inputs","schedules","fault_sequences"], "all data layouts and schedules",
  NOSRC + "It is a conservation law over complete runs.",
  ["src/bees-context.cc","src/bees.cc","include/crucible/pool.h"],
  [("copy cost / gain filter","BeesContext::scan_one_extent"),("BeesTempFile::reset and Pool check-in","src/bees.cc, include/crucible/pool.h")],
  ["physical extent accounting at quiescence"])

p("B05", "Every eligible extent is eventually scanned",
  "Every data extent reachable from a regular file, in every subvolume and snapshot, that exists when the daemon is started or is written, cloned or snapshotted later, is read by the daemon within a bounded number of polling cycles, in every scan mode. Writing to the filesystem while a scan is in progress, creating or deleting subvolumes, and extents of every size class do not cause any extent to be missed. (An extent that was found to match known data when it was shared in pieces counts as handled once any of it was read.)",
  ["histories","schedules","configurations"], "all filesystem histories, scan modes and worker counts",
  NOSRC + "Omissions depend on the history of transactions relative to scan positions.",
  ["src/bees-roots.cc","lib/btrfs-tree.cc","include/crucible/progress.h","lib/task.cc"],
  [("transaction-window crawl","BeesCrawl / BeesScanModeExtent"),("tree search iteration","lib/btrfs-tree.cc")],
  ["reads observed per extent"], "tunable poll interval")

p("B06", "A crash or restart never loses unscanned work",
  "If the daemon is killed at any instant and started again on the state files it left behind, every eligible extent is still eventually read, without exception for work that was queued, in progress or failed when the daemon died. Restarting resumes from the saved position instead of starting from the beginning.",
  ["crash_points","histories","schedules"], "all kill instants over all histories",
  NOSRC + "No test kills or restarts the daemon.",
  ["src/bees-roots.cc","include/crucible/progress.h","src/bees.cc"],
  [("saved position trails completed work","ProgressTracker begin/end, BeesCrawl::get_state_begin"),("state file save/load","BeesRoots::state_save/state_load")],
  ["state file contents, reads before and after the kill"], "tunable write-back interval")

p("B07", "State files are replaced atomically",
  "At every instant, including after a crash at any system call and after any failed system call, each state file in the state directory is either absent (if never created) or holds one complete version written by the daemon; a new version becomes visible only after its entire content was successfully written and, where the filesystem requires it, flushed to stable storage. A failed save leaves the previous version in place and is retried later.",
  ["crash_points","fault_sequences"], "all crash points and failures during a save",
  NOSRC + "No test interrupts or fails a save.",
  ["src/bees.cc","src/bees-roots.cc","src/bees-hash.cc"],
  [("write temp, fsync, rename","BeesStringFile::write, bees_fsync"),("hash table creation","BeesHashTable::try_mmap_flags/open_file")],
  ["system call boundary","contents of the state directory"])

p("B08", "Termination signals stop the daemon promptly, cleanly and losslessly",
  "On SIGTERM or SIGINT at any time, the daemon stops starting new work, finishes or abandons the rest in bounded time, saves scan progress and every pending hash table change, and exits with status 0. A daemon stopped this way resumes with the same progress and the same hash table contents it had.",
  ["schedules","histories"], "all signal arrival times and workloads",
  NOSRC + "No test signals the daemon.",
  ["src/bees-context.cc","src/bees.cc","src/bees-hash.cc","src/bees-roots.cc","lib/task.cc"],
  [("orderly stop","BeesContext::stop, wait_for_signals"),("final flush","BeesHashTable::writeback_loop, BeesRoots::writeback_thread")],
  ["exit status, state files, system calls after the signal"], "tunable intervals")

p("B09", "The hash table file faithfully persists what was learned",
  "Every hash-to-address entry accepted by the hash table remains findable until it is erased or displaced by later insertions into the same full bucket (one entry per insertion), concurrent operations never lose, duplicate or mix up entries, and every change reaches the table's file in bounded time and is found again by a new instance opening that file. The file keeps its configured size, a write that fails is repeated with the next change or at exit, and a file with arbitrary garbage in it never makes lookups crash or return an entry that is not in the file.",
  ["schedules","histories","inputs","crash_points"], "all operation histories, interleavings with write-back, file contents",
  NOSRC + "Lost updates need a particular interleaving with the write-back thread.",
  ["src/bees-hash.cc","src/bees.h"],
  [("bucket lists and extent locks","BeesHashTable::find_cell/erase_hash_addr/push_*"),("write-back","BeesHashTable::flush_dirty_extent")],
  ["public hash table operations","contents of the table file"], "tunable flush rate")

p("B10", "Excluded files and snapshots are left alone",
  "Files whose data has no checksums or is no-copy-on-write, the daemon's own hash table and temporary files, and (when the option to work around send is given) read-only subvolumes are never the target of a dedupe request. No-copy-on-write files are never a dedupe source either, and the temporary file of one worker is never read or used as a source by another. Read-only subvolumes become eligible again once they are made writable: all their data in the subvolume scan modes, data written from then on in the extent scan mode.",
  ["inputs","configurations","histories"], "all attribute combinations and changes",
  NOSRC,
  ["src/bees-roots.cc","src/bees-context.cc"],
  [("FS_NOCOW_FL / NODATASUM checks","BeesRoots::open_root_ino_nocache, SizeTier::create_extent_map"),("blacklist","BeesContext::is_blacklisted"),("read-only root check","BeesContext::is_root_ro")],
  ["dedupe requests at the system call boundary"])

p("B11", "All references to a duplicate extent are replaced, in all snapshots",
  "When an extent duplicates data stored elsewhere, all references to it from all files, offsets, reflinked copies and writable snapshots are redirected, so that the extent's storage is actually freed once the filesystem is quiescent. Partial and overlapping references to one extent are all covered (compressed extents that are referenced in pieces are exempt).",
  ["inputs","histories","configurations"], "all reference topologies",
  NOSRC,
  ["src/bees-roots.cc","src/bees-resolve.cc","src/bees-context.cc","lib/fs.cc"],
  [("reference enumeration","SizeTier::create_extent_map, BeesResolver::for_each_extent_ref")],
  ["extent reference counts at quiescence"])

p("B12", "Changing paths never redirects the daemon to the wrong object",
  "Whatever renames, replacements, symlink substitutions, deletions or subvolume changes happen concurrently under the filesystem root, the daemon never reads or dedupes a file other than the exact inode in the exact subvolume it looked up, never follows a symlink, and never opens anything outside the filesystem it manages. Objects that vanish or change during the lookup may be skipped, without stopping the scan of others.",
  ["schedules","histories"], "all concurrent namespace modifications",
  NOSRC + "Races between path lookup and open need a particular interleaving.",
  ["src/bees-roots.cc","lib/openat2.cc","lib/fs.cc"],
  [("openat2 resolve flags and identity checks","bees_openat, BeesRoots::open_root_ino_nocache")],
  ["open, read and dedupe events at the system call boundary"])

p("B13", "Heavily referenced and slow-to-resolve extents are avoided",
  "The daemon never adds a reference to an extent that already has at least the configured maximum number of references, and never uses as a dedupe source an extent whose reference lookup exceeded the configured kernel CPU time after that was observed. The number of references counts at the time the address was looked up, so concurrent workers may each add one. Slow extents are looked up at most a bounded number of times; an extent containing a block that matches a slow one is left alone, and the scan proceeds past it.",
  ["inputs","histories"], "all reference counts and lookup costs",
  NOSRC,
  ["src/bees-context.cc","src/bees-roots.cc","src/bees-hash.cc","src/bees-types.cc"],
  [("reference limit","BeesContext::resolve_addr_uncached"),("toxic flag","BeesAddress::set_toxic")],
  ["LOGICAL_INO and dedupe requests at the system call boundary"], "tunable limits")

p("B14", "Conflicting kernel operations never overlap",
  "A reference lookup is never in flight in the kernel at the same time as a dedupe request, and no two dedupe requests that replace duplicates found in the same inode are in flight at the same time (requests that put back data moved through a temporary file are issued for every reference to the old extent and are not covered by this). This holds for any number of workers.",
  ["schedules"], "all interleavings of workers",
  NOSRC + "Overlap needs concurrent workers inside system calls.",
  ["src/bees-context.cc","src/bees-roots.cc","lib/multilock.cc","include/crucible/multilock.h","lib/task.cc"],
  [("MultiLocker dedupe/logical_ino","BeesContext::dedup, resolve_addr_uncached"),("per-inode exclusion","BeesRoots / BeesContext inode and extent Exclusions")],
  ["begin and end of ioctls at the system call boundary"])

p("B15", "Dedupe work is well formed and terminates",
  "Every dedupe request names two non-overlapping equal-length ranges, with block-aligned starts and lengths that are block-aligned or end at end of file in both files, and which do not already share their storage; no range is replaced a second time without having been looked at again. When nobody else modifies the filesystem the daemon issues a bounded number of requests and then becomes idle, and a restart or another pass over already deduplicated data issues none.",
  ["inputs","histories","configurations"], "all data layouts, repeated passes",
  NOSRC,
  ["src/bees-context.cc","src/bees-resolve.cc","src/bees-types.cc"],
  [("range checks","BeesContext::dedup, BeesRangePair"),("already-shared detection","scan_one_extent, BeesResolver")],
  ["dedupe requests at the system call boundary"])

p("B16", "Failing system calls are contained",
  "Any sequence of failures of individual system calls (open, read, ioctl, write, truncate, sync, rename) neither terminates the daemon, nor stalls it, nor prevents it from processing everything not affected by the failure. Once failures stop, the daemon reaches the same end state it would have reached without them, apart from items whose own processing failed.",
  ["fault_sequences","schedules"], "all failure sequences",
  NOSRC + "No fault is ever injected.",
  ["src/bees-context.cc","src/bees-roots.cc","src/bees-resolve.cc","src/bees-hash.cc","src/bees.cc","lib/fs.cc","lib/fd.cc","lib/error.cc"],
  [("catch_all at task boundaries","lib/error.cc, src/*.cc")],
  ["process liveness, extent maps at quiescence"])

p("B17", "Damaged or foreign state files are tolerated",
  "With arbitrary contents in its state files (truncated, corrupt, from other versions, or with wrong sizes), the daemon starts, does not crash, and still scans and dedupes everything it would otherwise; a missing file is created anew, and if a file is well formed but incomplete the daemon uses what it can: everything not recorded as already scanned is read. A hash table size that is not a positive multiple of its granularity is refused with an error. No user data is affected. (Saved positions later than the filesystem's own state are not judged.)",
  ["inputs"], "all byte contents of the state files",
  NOSRC,
  ["src/bees-roots.cc","src/bees-hash.cc","src/bees.cc"],
  [("state_load parsing","BeesRoots::state_load"),("hash table open/resize","BeesHashTable constructor")],
  ["process liveness, coverage"])

p("B18", "Pause, resume and worker limits are obeyed",
  "After a pause signal the daemon stops issuing dedupe requests and reads of file data within a bounded time and stays silent until resumed, and after a resume signal it completes all the work it would have done. The number of concurrently active workers never exceeds the configured count, and work proceeds whatever the configured count, load target or throttle is.",
  ["schedules","configurations"], "all signal sequences and thread settings",
  NOSRC + "Signals are never delivered by a test.",
  ["src/bees.cc","src/bees-context.cc","lib/task.cc"],
  [("TaskMaster::pause/set_thread_count","lib/task.cc"),("signal loop","src/bees.cc wait_for_signals")],
  ["system call activity by thread"])

p("B19", "No memory errors or undefined behaviour",
  "No execution of the daemon or of the library, on any filesystem contents, kernel reply, state file content or argument, performs an out-of-bounds or use-after-free access, leaks without bound, overflows signed arithmetic, or otherwise has undefined behaviour.",
  ["inputs","schedules","fault_sequences"], "all inputs, schedules, faults",
  "Tests run without sanitizers and do not run src/ at all.",
  ["src/bees-context.cc","src/bees-roots.cc","src/bees-hash.cc","lib/fs.cc","lib/bytevector.cc","lib/btrfs-tree.cc","include/crucible/endian.h"],
  [("bounds-checked buffers","lib/bytevector.cc")], ["AddressSanitizer and UndefinedBehaviorSanitizer reports"])

p("B20", "No data races",
  "No two threads of the daemon, or of a program using the library's documented thread-safe facilities, access the same non-atomic memory concurrently with at least one write. (The text of the per-thread status notes is a recorded known finding.)",
  ["schedules","histories"], "all thread interleavings",
  "Tests run without a race detector and are nearly single-threaded.",
  ["src/bees-context.cc","src/bees-roots.cc","src/bees-hash.cc","lib/task.cc","include/crucible/cache.h","include/crucible/namedptr.h","lib/multilock.cc"],
  [("mutexes and atomics","throughout")], ["ThreadSanitizer reports"])

p("B21", "Reported statistics and progress agree with what happened",
  "The counters and progress tables the daemon publishes agree with the operations it performed: successful and failed dedupe operations, bytes deduplicated, bytes copied and blocks hashed equal the corresponding totals observed at the kernel interface. Published progress never goes backwards within a scan cycle and when the daemon is idle it reports completion only if all extents of that class have been read. The published hash table occupancy equals the contents of the table's file at that time.",
  ["histories","schedules"], "all histories",
  NOSRC,
  ["src/bees-types.cc","src/bees.cc","src/bees-context.cc","src/bees-roots.cc"],
  [("BEESCOUNT/BEESCOUNTADD","src/bees.h"),("progress table","BeesScanModeExtent::next_transid/show")],
  ["statistics file, status file vs system call totals"])

p("L01", "Tasks run every requested time, never concurrently with themselves",
  "A task requested to run at any moment executes at least once beginning after that request, never runs in two threads at once, and several requests made before it starts are merged into one execution; a task requested only for idle moments waits until other queued tasks have begun. Work appended to a task that is going to run runs after it, in the order appended unless the tasks ask for another order, and destroying handles, changing the worker count, pausing or resuming loses nothing.",
  ["schedules","programs"], "all programs over the task API and all interleavings",
  "The existing task tests run a handful of fixed single scenarios.",
  ["lib/task.cc","include/crucible/task.h"],
  [("run/append/insert/idle queues","TaskState, TaskMasterState")], ["begin and end of task bodies"])

p("L02", "Exclusive locks between tasks exclude, wake every waiter, and barriers fire once",
  "At most one task holds a given exclusion at a time; a task refused the lock is run again after the holder releases it, so no waiter is lost. A barrier runs each of its waiting tasks exactly once, and only after every holder has released it.",
  ["schedules","programs"], "all programs over exclusions and barriers, all interleavings",
  "The existing tests run a few fixed scenarios and cannot establish absence of lost wake-ups.",
  ["lib/task.cc","include/crucible/task.h"],
  [("Exclusion/ExclusionLock","lib/task.cc"),("Barrier/BarrierLock","lib/task.cc")], ["lock acquisition and task execution events"])

p("L03", "Reported progress covers exactly the completed prefix",
  "The begin position of a progress tracker never exceeds the smallest position still held, becomes the largest position ever recorded once all holds are released, and never moves backwards if positions are recorded in order; the end position is the largest position recorded. This holds for any concurrent order of holds and releases, including duplicate positions.",
  ["schedules","histories"], "all histories of hold and release",
  "The existing test checks one fixed sequence.",
  ["include/crucible/progress.h"], [("ProgressTracker","include/crucible/progress.h")], ["public begin()/end()"])

p("L04", "Named and multi-class locks really exclude",
  "At most one thread holds a given key of a lock set, at most the configured number of keys are held at once, and in the multi-class lock two holders with different class names never overlap while holders of one class may. Every blocked acquirer eventually proceeds after the conflicting holders release, and releasing always makes the lock available.",
  ["schedules","programs"], "all interleavings of acquire/release",
  "No existing test covers these locks.",
  ["include/crucible/lockset.h","lib/multilock.cc","include/crucible/multilock.h"],
  [("LockSet","include/crucible/lockset.h"),("MultiLocker","lib/multilock.cc")], ["critical section entry and exit"])

p("L05", "The function cache returns only values its function produced, once per key",
  "A cache lookup returns the value computed for exactly that key, computes it at most once concurrently per key, recomputes it after the entry was expired, cleared or replaced, and never holds more than the configured number of entries beyond a bounded transient. An exception from the function reaches the callers and leaves the cache usable. Inserting a value under a key that is already present keeps the old value; invalidating a key while its value is being computed may or may not affect that computation.",
  ["schedules","histories"], "all histories and interleavings of lookups, insertions and invalidations",
  "No existing test covers the cache.",
  ["include/crucible/cache.h","include/crucible/lockset.h"], [("LRUCache","include/crucible/cache.h")], ["function invocations and returned values"])

p("L06", "One live object per name; file handles closed exactly once",
  "Among objects in use through handles there is never more than one per key, an object lives as long as any handle to it, and a new lookup after the last handle is dropped creates a fresh one. Every file descriptor owned by a handle is closed exactly once, when its last handle goes away or it is explicitly closed, and never while another handle still uses it.",
  ["schedules","programs"], "all interleavings of lookup, copy and drop",
  "The existing tests are single-threaded fixed scenarios.",
  ["include/crucible/namedptr.h","include/crucible/resource.h","include/crucible/fd.h","lib/fd.cc"],
  [("NamedPtr weak map","include/crucible/namedptr.h"),("IOHandle","lib/fd.cc")], ["object construction/destruction, close calls"])

p("L07", "Pooled objects are lent to one user at a time and reset before reuse",
  "An object borrowed from a pool is held by at most one user at a time, is checked in exactly once when that user drops it, and is handed out again only after check-in; clearing or destroying the pool frees idle objects and never one still lent.",
  ["schedules","programs"], "all interleavings",
  "No existing test covers the pool.",
  ["include/crucible/pool.h"], [("Pool","include/crucible/pool.h")], ["checkout/checkin callbacks, object lifetimes"])

p("L08", "Rate limits and rate estimates are sound",
  "Over any window the amount admitted by a rate limiter is at most rate times time plus burst plus one request, and a caller never waits longer than needed to honour that; borrowing is repaid. A rate estimator's count is the last value given, its rate stays within the range of observed rates, its time forecasts follow from that rate and the time since the last update, and a waiter for a count is woken once that count is reached, not before, or when the count goes backwards.",
  ["histories","schedules"], "all histories of requests and updates",
  "No existing test covers them.",
  ["lib/time.cc","include/crucible/time.h"], [("RateLimiter, RateEstimator","lib/time.cc")], ["public operations with monotonic timestamps"])

p("L09", "Tree searches return exactly the matching items",
  "For any tree contents, item sizes, batch boundaries and key positions, iterating a filesystem tree forwards or backwards, seeking to a position, or looking up the item at or around a key returns exactly the items a full scan of the tree would select, in order, each once. Where several items share one position, lookups return the first. Items smaller than the largest size the kernel interface can return are never dropped.",
  ["inputs"], "all tree contents and queries",
  "The existing seeker test uses a synthetic vector with a few hundred values; the ioctl-based searches are untested.",
  ["lib/btrfs-tree.cc","lib/fs.cc","include/crucible/seeker.h","include/crucible/btrfs-tree.h"],
  [("seek_backward","include/crucible/seeker.h"),("BtrfsTreeFetcher family","lib/btrfs-tree.cc"),("BtrfsIoctlSearchKey","lib/fs.cc")], ["results compared with a model tree"])

p("L10", "Extent iteration reports the file's real layout",
  "Walking the extents of a non-empty file forwards or backwards from any block-aligned position within it yields consecutive, non-overlapping ranges covering the whole file exactly, with the correct physical location, hole, preallocation, compression and end-of-file attributes of each, for any layout including sparse, inline, unaligned and fragmented files.",
  ["inputs"], "all file layouts and positions",
  "No existing test walks extents.",
  ["lib/extentwalker.cc","include/crucible/extentwalker.h","lib/btrfs-tree.cc"], [("ExtentWalker/BtrfsExtentWalker","lib/extentwalker.cc")], ["results compared with a model file layout"])

p("L11", "Kernel interface wrappers convey requests and replies exactly",
  "Each wrapper passes the kernel exactly the request it was given and returns exactly the kernel's reply: a dedupe of any length covers the full range once in pieces the kernel accepts and reports success only if every byte was deduplicated, reference lookups and path lookups return all complete records and none past the end, and buffers grow as needed. Differing data is reported as a failed dedupe; kernel errors are reported as errors, never as empty success.",
  ["inputs","fault_sequences"], "all lengths, replies and errors",
  "No existing test issues these ioctls.",
  ["lib/fs.cc","include/crucible/fs.h"], [("btrfs_extent_same, BtrfsExtentSame, BtrfsIoctlLogicalInoArgs, BtrfsIoctlInoPathArgs, Fiemap","lib/fs.cc")], ["ioctl requests and results vs a scripted kernel"])

p("L12", "Block addresses and file ranges obey their algebra",
  "A block address encodes and decodes its location and flags without loss and orders and compares consistently; for file ranges, size, overlap, containment, copying and comparison behave as for intervals of bytes. Growing a matched pair of ranges yields a larger pair that still has equal length, identical content throughout, and lies within both files and the given limits.",
  ["inputs"], "all addresses, ranges and contents",
  NOSRC,
  ["src/bees-types.cc","src/bees.h"], [("BeesAddress, BeesFileRange, BeesRangePair::grow","src/bees-types.cc")], ["results compared with a reference model"])

p("L13", "Block fingerprints depend only on block content",
  "The fingerprint and zero test of a block are a fixed function of its bytes: equal blocks give equal fingerprints in every file, at every offset and buffer alignment, from every thread and across restarts, and the function is the documented 64-bit checksum. A block is treated as zero exactly when every byte in it is zero.",
  ["inputs","schedules"], "all contents, alignments and threads",
  "The existing checksum test checks five fixed strings.",
  ["lib/crc64.cc","src/bees-types.cc"], [("Digest::CRC::crc64","lib/crc64.cc"),("BeesBlockData","src/bees-types.cc")], ["results compared with a bit-by-bit reference"])

p("L14", "I/O helpers and value conversions never lose or invent data",
  "Reads and writes through the I/O helpers transfer exactly the requested bytes in order, or report an error (interrupted and partial reads are continued), whatever split, interruption or error the kernel delivers. Byte buffers stay within bounds, numeric conversions either preserve the value or fail, and values formatted by the library parse back to themselves.",
  ["inputs","fault_sequences","schedules"], "all splits of I/O, values, buffer slices",
  "The existing tests cover fixed values and uninterrupted I/O.",
  ["lib/fd.cc","lib/bytevector.cc","include/crucible/limits.h","lib/string.cc","lib/ntoa.cc","lib/path.cc","include/crucible/endian.h"],
  [("read_or_die family","lib/fd.cc"),("ByteVector","lib/bytevector.cc"),("ranged_cast","include/crucible/limits.h")], ["results compared with a reference model under injected short I/O"])

p("L15", "The number of workers follows the load target within its limits",
  "With a load target, the number of workers stays between the configured minimum and maximum, never rises while the load is above the target or falls while it is below, reaches the maximum when the load stays low and the minimum when it stays high, and work that was requested is never lost while workers come and go. Without a target the number of workers is the configured one.",
  ["histories","schedules","configurations"], "all histories of the load average and of configuration changes",
  "No existing test covers load tracking.",
  ["lib/task.cc","src/bees.cc","docs/options.md"], [("TaskMasterState::calculate_thread_count_nolock, adjust_thread_count","lib/task.cc"),("bees_main option handling","src/bees.cc")], ["load average, clock and sleeps under the monitor's control; number of workers; tasks that ran"])

p("L16", "Throttling delays operations to their average pace and no further",
  "With a throttle factor, an operation that took less than the factor times the average run time of its kind is delayed by exactly the difference, once enough run time was observed, and never by more than 60 seconds; the average belongs to one kind of operation and follows lasting changes; a delayed operation does not hold up others. Without a factor nothing is delayed.",
  ["histories","schedules","configurations"], "all histories of run times",
  "No existing test covers throttling.",
  ["src/bees.cc","docs/options.md"], [("bees_throttle","src/bees.cc")], ["requested sleep per operation on a clock the monitor controls"])

p("B22", "beesd runs the daemon on the configured filesystem and state, or refuses",
  "For a valid configuration the start-up script mounts the top-level subvolume of the configured filesystem, and no other, privately and without devices or executables, before it touches any state; creates the state directory as a subvolume only if it is missing; leaves a hash table file of the configured size that only root can read; removes the scan progress exactly when the table size changed; and starts the daemon once, on that mount, with every option given on the command line and in the configuration. An invalid configuration is refused with an error, without starting the daemon or altering an existing hash table or scan progress. Nothing else on the filesystem is changed.",
  ["configurations"], "all configurations and filesystems",
  "No test runs the script.",
  ["scripts/beesd.in"], [("beesd","scripts/beesd.in")], ["commands run by the script"])

p("B23", "Command line options do what the manual says, in any spelling and order",
  "Each documented option, short or long, with its value joined or separate, before or after the path, has its documented effect, and the last of contradicting options counts: no message less severe than the chosen verbosity is logged and messages within it are (8 logs all, 0 nothing); every log line carries its level, and the present time and process number exactly when timestamps are on; paths are absolute or have the prefix stripped as asked; the number of worker threads is the thread count if given, else the CPU count times the thread factor rounded up and at least one. The status file is written exactly when BEESSTATUS is set. A command line without exactly one path, with a path that is not the root of the filesystem, or with an invalid scan mode, verbosity, count or factor ends with a failure status, and help and version requests print and succeed; none of these changes any file.",
  ["inputs","configurations"], "all command lines",
  NOSRC,
  ["src/bees.cc","src/bees-usage.txt","lib/chatter.cc","src/bees-context.cc","src/bees-roots.cc"],
  [("option parsing","src/bees.cc bees_main"),("log line format","lib/chatter.cc Chatter::~Chatter"),("root check","BeesContext::set_root_fd")],
  ["log lines, threads of the process, exit status, files"])

p("B24", "Data is scanned in the order documented for each scan mode",
  "With one worker, on data without duplicates: the subvolume scan modes begin the inodes of each subvolume in ascending number and read each from low to high offset. Lockstep begins inodes of all subvolumes in ascending inode number; independent gives every subvolume with work left its turn; sequential finishes a subvolume before the next, in numerical order; recent scans new data in subvolumes that were scanned completely before the rest of a subvolume still in its first scan. The extent scan mode reads the extents of each size class in the order of their address.",
  ["inputs","histories","configurations"], "all filesystem contents and all scan modes",
  NOSRC,
  ["src/bees-roots.cc","src/bees-context.cc","lib/btrfs-tree.cc","lib/task.cc"],
  [("subvolume scan order","BeesScanMode*::scan/next_transid"),("extent scan order","BeesScanModeExtent::SizeTier::find_next_extent")],
  ["reads of file data with their order"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
P.sort(key=lambda x: x["id"])
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
