From 10fef6a2b356b79f8bebce56c2afa089ee2c6c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:59 +0000
Subject: [PATCH 01/30] hooks: tunable intervals and limits for verification
 builds (BEES_VERIF)

---
 src/bees.h | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/bees.h b/src/bees.h
index 7c0cfca..c377757 100644
--- a/src/bees.h
+++ b/src/bees.h
@@ -116,6 +116,29 @@ const double BEES_TRANSID_POLL_INTERVAL = 30.0;
 // Workaround for silly dedupe / ineffective readahead behavior
 const size_t BEES_READAHEAD_SIZE = 1024 * 1024;
 
+#ifdef BEES_VERIF
+// Verification builds only:  allow the intervals and limits above to be overridden from
+// the environment, so that a monitored run can reach them in seconds instead of hours.
+// A macro is not expanded inside its own expansion, so the default is the constant above.
+#define BEES_VERIF_TUNABLE(name) \
+	([]() -> decltype(name + 0) { \
+		static const auto rv = []() -> decltype(name + 0) { \
+			const auto env = getenv("BEES_VERIF_" #name); \
+			return env ? static_cast<decltype(name + 0)>(strtod(env, nullptr)) : name; \
+		}(); \
+		return rv; \
+	}())
+#define BEES_FLUSH_RATE BEES_VERIF_TUNABLE(BEES_FLUSH_RATE)
+#define BEES_WRITEBACK_INTERVAL BEES_VERIF_TUNABLE(BEES_WRITEBACK_INTERVAL)
+#define BEES_PROGRESS_INTERVAL BEES_VERIF_TUNABLE(BEES_PROGRESS_INTERVAL)
+#define BEES_STATUS_INTERVAL BEES_VERIF_TUNABLE(BEES_STATUS_INTERVAL)
+#define BEES_TOXIC_SYS_DURATION BEES_VERIF_TUNABLE(BEES_TOXIC_SYS_DURATION)
+#define BEES_MAX_EXTENT_REF_COUNT BEES_VERIF_TUNABLE(BEES_MAX_EXTENT_REF_COUNT)
+#define BEES_MAX_EXTENT_TASK_COUNT BEES_VERIF_TUNABLE(BEES_MAX_EXTENT_TASK_COUNT)
+#define BEES_HASH_TABLE_ANALYZE_INTERVAL BEES_VERIF_TUNABLE(BEES_HASH_TABLE_ANALYZE_INTERVAL)
+#define BEES_TRANSID_POLL_INTERVAL BEES_VERIF_TUNABLE(BEES_TRANSID_POLL_INTERVAL)
+#endif
+
 // Flags
 const int FLAGS_OPEN_COMMON   = O_NOFOLLOW | O_NONBLOCK | O_CLOEXEC | O_NOATIME | O_LARGEFILE | O_NOCTTY;
 const int FLAGS_OPEN_DIR      = FLAGS_OPEN_COMMON | O_RDONLY | O_DIRECTORY;  ///< Open a directory read-only.
-- 
2.43.0


From 40eaf4404b18ea2a9fe9ba281ee1474fa7269922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:46 +0000
Subject: [PATCH 02/30] fix: extentwalker: map the last file of a subvol when
 it ends with a hole

BtrfsExtentWalker detects the end of a file's extents by finding an item of
a following inode.  The highest numbered inode in a subvol has none, so if
that file ends with a hole (which has no item on a no-holes filesystem) the
walker threw an exception and the file's extents were never scanned.
---
 lib/extentwalker.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/extentwalker.cc b/lib/extentwalker.cc
index e1d47bc..dd4e56f 100644
--- a/lib/extentwalker.cc
+++ b/lib/extentwalker.cc
@@ -628,6 +628,12 @@ namespace crucible {
 			}
 		}
 
+		// If we found fewer items than we asked for, then the search reached the end
+		// of the tree, so there are no more extents in this file.
+		if (sk.m_result.size() < sc_extent_fetch_max) {
+			past_eof = true;
+		}
+
 		// Plug a hole at EOF
 		if (past_eof && !rv.empty()) {
 			rv.rbegin()->m_flags |= FIEMAP_EXTENT_LAST;
-- 
2.43.0


From 1919c8c782db26ed9c69134e44f73b911664f08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:55 +0000
Subject: [PATCH 03/30] fix: roots: rescan a ref that was deferred by an extent
 lock

scan_one_ref moved m_offset past the extent before scanning it, so when
scan_forward asked for another try because a different task had the extent
locked, the next run of the task continued with the following extent and
the ref was never scanned.
---
 src/bees-roots.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bees-roots.cc b/src/bees-roots.cc
index b3025d0..8ffbba4 100644
--- a/src/bees-roots.cc
+++ b/src/bees-roots.cc
@@ -1734,6 +1734,9 @@ BeesFileCrawl::scan_one_ref()
 					if (!scan_again) {
 						m_hold = new_holder;
 					} else {
+						// Someone else has this extent locked, so we haven't scanned it yet.
+						// Come back to the same ref when our Task runs again.
+						m_offset = bti.offset();
 						BEESCOUNT(crawl_again);
 					}
 				}
-- 
2.43.0


From 4e6624051db138bc8bccb0670a2b0f0d314d38d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:26 +0000
Subject: [PATCH 04/30] fix: roots: don't save crawl state past inodes that
 have not been scanned

In the subvol scan modes, fetch_extents moved the crawl's end state past
each inode as soon as the inode was fetched, and crawl_one_inode took its
hold on the next inode.  The saved state could skip any inode still waiting
to be popped or scanned, so a restart lost it.

crawl_one_inode also read the state before pop_front, and pop_front can
start a new transid range.  The inode was then scanned with the old range,
which rejected its new extents as too new, while the crawl advanced past
them.

Attach the state and the hold to the inode when it is fetched.
---
 src/bees-roots.cc | 31 +++++++++++++++++++------------
 src/bees.h        |  4 +++-
 2 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/bees-roots.cc b/src/bees-roots.cc
index 8ffbba4..3c42011 100644
--- a/src/bees-roots.cc
+++ b/src/bees-roots.cc
@@ -174,13 +174,17 @@ BeesScanModeSubvol::get_crawl_map()
 bool
 BeesScanModeSubvol::crawl_one_inode(const shared_ptr<BeesCrawl>& this_crawl)
 {
-	const auto this_state = this_crawl->get_state_end();
-	BEESNOTE("Crawling inode " << this_state);
-	BEESTRACE("Crawling inode " << this_state);
-	const auto this_range = this_crawl->pop_front();
+	BEESNOTE("Crawling inode " << this_crawl->get_state_end());
+	BEESTRACE("Crawling inode " << this_crawl->get_state_end());
+	// The hold comes with the inode: it has the transid range that was searched to find
+	// the inode, and it stops the saved state from moving past the inode too early.
+	// The crawl's end state can already be in another transid range.
+	ProgressTracker<BeesCrawlState>::ProgressHolder this_hold;
+	const auto this_range = this_crawl->pop_front(this_hold);
 	if (!this_range) {
 		return false;
 	}
+	const auto this_state = this_hold->get();
 	const auto subvol = this_range.fid().root();
 	const auto inode = this_range.fid().ino();
 	bool run_the_task = false;
@@ -200,17 +204,12 @@ BeesScanModeSubvol::crawl_one_inode(const shared_ptr<BeesCrawl>& this_crawl)
 		ostringstream oss;
 		oss << "crawl_" << subvol << "_" << inode;
 		const auto task_title = oss.str();
-		// this_state.m_objectid was advanced to inode+1 by peek_front()->fetch_extents().
-		// Fix: use the actual inode from this_range so BtrfsExtentDataFetcher finds
-		// the correct inode (exact-match search).
-		auto bfc_state = this_state;
-		bfc_state.m_objectid = inode;
 		const auto bfc = make_shared<BeesFileCrawl>((BeesFileCrawl) {
 			.m_ctx = m_ctx,
 			.m_crawl = this_crawl,
 			.m_roots = m_roots,
-			.m_hold = this_crawl->hold_state(this_state),
-			.m_state = bfc_state,
+			.m_hold = this_hold,
+			.m_state = this_state,
 			.m_offset = this_range.begin(),
 		});
 		BEESNOTE("Starting task " << this_range);
@@ -2475,6 +2474,12 @@ BeesCrawl::fetch_extents()
 		// Try to restart immediately if more transids are available.
 		return restart_crawl_unlocked();
 	}
+	// The end state moves past this inode, but the saved state must not
+	// until someone has popped and scanned it.
+	auto this_state = old_state;
+	this_state.m_objectid = m_next_extent_data.objectid();
+	this_state.m_offset = 0;
+	m_next_hold = hold_state(this_state);
 	auto new_state = old_state;
 	new_state.m_objectid = max(m_next_extent_data.objectid() + m_btof.scale_size(), m_next_extent_data.objectid());
 	new_state.m_offset = 0;
@@ -2519,12 +2524,14 @@ BeesCrawl::peek_front()
 }
 
 BeesFileRange
-BeesCrawl::pop_front()
+BeesCrawl::pop_front(ProgressTracker<BeesCrawlState>::ProgressHolder &hold)
 {
 	unique_lock<mutex> lock(m_mutex);
 	fetch_extents_harder();
 	BtrfsTreeItem rv;
 	swap(rv, m_next_extent_data);
+	hold.reset();
+	swap(hold, m_next_hold);
 	return bti_to_bfr(rv);
 }
 
diff --git a/src/bees.h b/src/bees.h
index c377757..1cbaa67 100644
--- a/src/bees.h
+++ b/src/bees.h
@@ -552,6 +552,8 @@ class BeesCrawl {
 
 	mutex					m_state_mutex;
 	ProgressTracker<BeesCrawlState>		m_state;
+	/// State of the inode in m_next_extent_data, held until popped
+	ProgressTracker<BeesCrawlState>::ProgressHolder	m_next_hold;
 
 	BtrfsTreeObjectFetcher			m_btof;
 
@@ -563,7 +565,7 @@ class BeesCrawl {
 public:
 	BeesCrawl(shared_ptr<BeesContext> ctx, BeesCrawlState initial_state);
 	BeesFileRange peek_front();
-	BeesFileRange pop_front();
+	BeesFileRange pop_front(ProgressTracker<BeesCrawlState>::ProgressHolder &hold);
 	ProgressTracker<BeesCrawlState>::ProgressHolder hold_state(const BeesCrawlState &bcs);
 	BeesCrawlState get_state_begin();
 	BeesCrawlState get_state_end() const;
-- 
2.43.0


From 6e9a6a70f24a899cbda35c894785d7a0aaea8613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:51 +0000
Subject: [PATCH 05/30] fix: roots: don't restart a crawl forever when its
 saved transid range is reversed

A damaged beescrawl.dat can have max_transid before min_transid.  The next
cycle would start at max_transid, but the progress tracker never moves
backwards, so fetch_extents restarted the crawl in a tight loop and nothing
in that crawl was ever scanned.
---
 src/bees-roots.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/bees-roots.cc b/src/bees-roots.cc
index 3c42011..ebb66cd 100644
--- a/src/bees-roots.cc
+++ b/src/bees-roots.cc
@@ -1951,6 +1951,13 @@ BeesRoots::state_load()
 			loaded_state.m_max_transid = loaded_state.m_min_transid;
 			BEESCOUNT(bug_bad_max_transid);
 		}
+		if (loaded_state.m_max_transid < loaded_state.m_min_transid) {
+			// The next cycle would start before this one, but crawl state can't move backwards,
+			// so we would restart this crawl forever.
+			BEESLOGWARN("WARNING: root " << loaded_state.m_root << ": max_transid " << loaded_state.m_max_transid << " is before min_transid, resetting to " << loaded_state.m_min_transid);
+			loaded_state.m_max_transid = loaded_state.m_min_transid;
+			BEESCOUNT(bug_bad_max_transid);
+		}
 		insert_root(loaded_state);
 	}
 }
-- 
2.43.0


From b1d17bd6be18f13fd7c14aa3dd0f1282e09e7605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:00 +0000
Subject: [PATCH 06/30] fix: hash: don't lose changes made to a hash table
 extent while it is being written

flush_dirty_extent writes a copy of the extent with the extent unlocked, and
marked the extent clean after the write.  Changes that were made during the
write were not in the copy, and were never written unless something else
happened to change the same extent again.

Mark the extent clean when the copy is made, and dirty again if the write
fails.
---
 src/bees-hash.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/bees-hash.cc b/src/bees-hash.cc
index 7581fe1..8888a07 100644
--- a/src/bees-hash.cc
+++ b/src/bees-hash.cc
@@ -119,6 +119,10 @@ BeesHashTable::flush_dirty_extent(uint64_t extent_index)
 		// Copy the extent because we might be stuck writing for a while
 		ByteVector extent_copy(dirty_extent, dirty_extent_end);
 
+		// Mark extent clean before releasing the lock, so any change
+		// that is not in the copy will make the extent dirty again
+		m_extent_metadata.at(extent_index).m_dirty = false;
+
 		// Release the lock
 		lock.unlock();
 
@@ -130,13 +134,17 @@ BeesHashTable::flush_dirty_extent(uint64_t extent_index)
 		// const size_t dirty_extent_size   = dirty_extent_end - dirty_extent;
 		// bees_unreadahead(m_fd, dirty_extent_offset, dirty_extent_size);
 
-		// Mark extent clean if write was successful
-		lock.lock();
-		m_extent_metadata.at(extent_index).m_dirty = false;
-
 		wrote_extent = true;
 	});
 
+	if (!wrote_extent) {
+		// Extent is still dirty if write was not successful
+		if (!lock.owns_lock()) {
+			lock.lock();
+		}
+		m_extent_metadata.at(extent_index).m_dirty = true;
+	}
+
 	return wrote_extent;
 }
 
-- 
2.43.0


From 838dad16fd62261fc80b15c55c2fec022337e137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:29 +0000
Subject: [PATCH 07/30] hooks: fractional writeback interval in verification
 builds

---
 src/bees.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/bees.h b/src/bees.h
index 1cbaa67..18f5555 100644
--- a/src/bees.h
+++ b/src/bees.h
@@ -120,16 +120,17 @@ const size_t BEES_READAHEAD_SIZE = 1024 * 1024;
 // Verification builds only:  allow the intervals and limits above to be overridden from
 // the environment, so that a monitored run can reach them in seconds instead of hours.
 // A macro is not expanded inside its own expansion, so the default is the constant above.
-#define BEES_VERIF_TUNABLE(name) \
-	([]() -> decltype(name + 0) { \
-		static const auto rv = []() -> decltype(name + 0) { \
+#define BEES_VERIF_TUNABLE_AS(type, name) \
+	([]() -> type { \
+		static const auto rv = []() -> type { \
 			const auto env = getenv("BEES_VERIF_" #name); \
-			return env ? static_cast<decltype(name + 0)>(strtod(env, nullptr)) : name; \
+			return env ? static_cast<type>(strtod(env, nullptr)) : name; \
 		}(); \
 		return rv; \
 	}())
+#define BEES_VERIF_TUNABLE(name) BEES_VERIF_TUNABLE_AS(decltype(name + 0), name)
 #define BEES_FLUSH_RATE BEES_VERIF_TUNABLE(BEES_FLUSH_RATE)
-#define BEES_WRITEBACK_INTERVAL BEES_VERIF_TUNABLE(BEES_WRITEBACK_INTERVAL)
+#define BEES_WRITEBACK_INTERVAL BEES_VERIF_TUNABLE_AS(double, BEES_WRITEBACK_INTERVAL)
 #define BEES_PROGRESS_INTERVAL BEES_VERIF_TUNABLE(BEES_PROGRESS_INTERVAL)
 #define BEES_STATUS_INTERVAL BEES_VERIF_TUNABLE(BEES_STATUS_INTERVAL)
 #define BEES_TOXIC_SYS_DURATION BEES_VERIF_TUNABLE(BEES_TOXIC_SYS_DURATION)
-- 
2.43.0


From 02f687bac844450d2f11c00811d6a691b5522fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:27 +0000
Subject: [PATCH 08/30] fix: roots: use localtime_r to format crawl start times

format_time is called from several threads at once, and localtime returns
a pointer to a buffer shared by all of them.
---
 src/bees-roots.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bees-roots.cc b/src/bees-roots.cc
index ebb66cd..0f9d5f9 100644
--- a/src/bees-roots.cc
+++ b/src/bees-roots.cc
@@ -57,7 +57,8 @@ pretty_seconds(uint64_t t)
 string
 format_time(time_t t)
 {
-	const struct tm *const tmp = localtime(&t);
+	struct tm tm_buf;
+	const struct tm *const tmp = localtime_r(&t, &tm_buf);
 	char buf[1024];
 	strftime(buf, sizeof(buf), "%Y-%m-%d-%H-%M-%S", tmp);
 	return buf;
-- 
2.43.0


From 685b790eabc1ddfaf7b358782deed764d43c8a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:52 +0000
Subject: [PATCH 09/30] fix: make flags shared between threads atomic

These were read by some threads (status, progress, crawl, hash table
threads, workers) while written by others, without a common lock.
---
 src/bees-context.cc |  2 +-
 src/bees-roots.cc   |  6 +++---
 src/bees.cc         |  4 ++--
 src/bees.h          | 19 ++++++++++---------
 4 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/bees-context.cc b/src/bees-context.cc
index e351ed0..56f8830 100644
--- a/src/bees-context.cc
+++ b/src/bees-context.cc
@@ -1057,7 +1057,7 @@ BeesContext::resolve_addr_uncached(BeesAddress addr)
 	// Count how many times this happens so we can figure out how
 	// important this case is
 	static const size_t max_logical_ino_v1_refs = 2730; // (65536 - header_len) / (sizeof(uint64_t) * 3)
-	static size_t most_refs_ever = max_logical_ino_v1_refs;
+	static atomic<size_t> most_refs_ever{max_logical_ino_v1_refs};
 	if (rv_count > most_refs_ever) {
 		BEESLOGINFO("addr " << addr << " refs " << rv_count << " beats previous record " << most_refs_ever);
 		most_refs_ever = rv_count;
diff --git a/src/bees-roots.cc b/src/bees-roots.cc
index 0f9d5f9..a641835 100644
--- a/src/bees-roots.cc
+++ b/src/bees-roots.cc
@@ -698,7 +698,7 @@ static
 bool
 should_throttle()
 {
-	static bool s_throttled = false;
+	static atomic<bool> s_throttled{false};
 	// If there's too many entries in the queue, stop adding new ones until workers catch up
 	// If there's not too many entries in the queue, restart the scan task
 	const auto instance_count = Task::instance_count();
@@ -1523,7 +1523,7 @@ BeesRoots::state_save()
 	}
 
 	state_to_stream(ofs);
-	const auto crawl_saved = m_crawl_dirty;
+	const uint64_t crawl_saved = m_crawl_dirty;
 
 	if (ofs.str().empty()) {
 		BEESLOGWARN("Crawl state empty!");
@@ -2026,7 +2026,7 @@ bees_openat(int const parent_fd, const char *const pathname, uint64_t const flag
 	THROW_CHECK1(invalid_argument, flags, (flags & O_CREAT) == 0);
 
 	// Try openat2 if the kernel has it
-	static bool can_openat2 = true;
+	static atomic<bool> can_openat2{true};
 	if (can_openat2) {
 		open_how how {
 			.flags = flags,
diff --git a/src/bees.cc b/src/bees.cc
index 39f57ea..2035769 100644
--- a/src/bees.cc
+++ b/src/bees.cc
@@ -441,8 +441,8 @@ bees_fsync(int const fd)
 		return;
 	}
 
-	static bool did_uname = false;
-	static bool do_fsync = false;
+	static atomic<bool> did_uname{false};
+	static atomic<bool> do_fsync{false};
 
 	if (!did_uname) {
 		Uname uname;
diff --git a/src/bees.h b/src/bees.h
index 18f5555..bf3717b 100644
--- a/src/bees.h
+++ b/src/bees.h
@@ -15,6 +15,7 @@
 #include "crucible/time.h"
 #include "crucible/task.h"
 
+#include <atomic>
 #include <functional>
 #include <list>
 #include <mutex>
@@ -488,7 +489,7 @@ private:
 	BeesStringFile		m_stats_file;
 
 	// Prefetch readahead hint
-	bool			m_prefetch_running = false;
+	atomic<bool>		m_prefetch_running{false};
 
 	// Mutex/condvar for the writeback thread
 	mutex			m_dirty_mutex;
@@ -498,7 +499,7 @@ private:
 	// Mutex/condvar to stop
 	mutex			m_stop_mutex;
 	condition_variable	m_stop_condvar;
-	bool			m_stop_requested = false;
+	atomic<bool>		m_stop_requested{false};
 
 	// Per-extent structures
 	struct ExtentMetaData {
@@ -548,8 +549,8 @@ class BeesCrawl {
 
 	mutex					m_mutex;
 	BtrfsTreeItem				m_next_extent_data;
-	bool					m_deferred = false;
-	bool					m_finished = false;
+	atomic<bool>				m_deferred{false};
+	atomic<bool>				m_finished{false};
 
 	mutex					m_state_mutex;
 	ProgressTracker<BeesCrawlState>		m_state;
@@ -586,8 +587,8 @@ class BeesRoots : public enable_shared_from_this<BeesRoots> {
 	using CrawlMap = map<uint64_t, shared_ptr<BeesCrawl>>;
 	CrawlMap				m_root_crawl_map;
 	mutex					m_mutex;
-	uint64_t				m_crawl_dirty = 0;
-	uint64_t				m_crawl_clean = 0;
+	atomic<uint64_t>			m_crawl_dirty{0};
+	atomic<uint64_t>			m_crawl_clean{0};
 	Timer					m_crawl_timer;
 	BeesThread				m_crawl_thread;
 	BeesThread				m_writeback_thread;
@@ -601,7 +602,7 @@ class BeesRoots : public enable_shared_from_this<BeesRoots> {
 
 	mutex					m_stop_mutex;
 	condition_variable			m_stop_condvar;
-	bool					m_stop_requested = false;
+	atomic<bool>				m_stop_requested{false};
 
 	CrawlMap insert_new_crawl();
 	Fd open_root_nocache(uint64_t root);
@@ -786,8 +787,8 @@ class BeesContext : public enable_shared_from_this<BeesContext> {
 
 	mutable mutex					m_stop_mutex;
 	condition_variable				m_stop_condvar;
-	bool						m_stop_requested = false;
-	bool						m_stop_status = false;
+	atomic<bool>					m_stop_requested{false};
+	atomic<bool>					m_stop_status{false};
 
 	shared_ptr<BeesThread>				m_progress_thread;
 	shared_ptr<BeesThread>				m_status_thread;
-- 
2.43.0


From 629a15ede9d069e10332a28c8513fdca1df511a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:18 +0000
Subject: [PATCH 10/30] fix: lib: don't race on lazily initialised and shared
 flags

The CRC table could be seen half built by a second thread, and the
LOGICAL_INO version, multilock enable and task cancel flags were accessed
by several threads without a lock.
---
 include/crucible/multilock.h | 3 ++-
 lib/crc64.cc                 | 9 +++++----
 lib/fs.cc                    | 3 ++-
 lib/task.cc                  | 2 +-
 4 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/crucible/multilock.h b/include/crucible/multilock.h
index 4d55558..d8c82c8 100644
--- a/include/crucible/multilock.h
+++ b/include/crucible/multilock.h
@@ -1,6 +1,7 @@
 #ifndef CRUCIBLE_MULTILOCK_H
 #define CRUCIBLE_MULTILOCK_H
 
+#include <atomic>
 #include <condition_variable>
 #include <map>
 #include <memory>
@@ -14,7 +15,7 @@ namespace crucible {
 		mutex m_mutex;
 		condition_variable m_cv;
 		map<string, size_t> m_counters;
-		bool m_do_locking = true;
+		atomic<bool> m_do_locking{true};
 
 		class LockHandle {
 			const string m_type;
diff --git a/lib/crc64.cc b/lib/crc64.cc
index 7eb5445..47f44b2 100644
--- a/lib/crc64.cc
+++ b/lib/crc64.cc
@@ -28,16 +28,18 @@
 
 #include "crucible/crc64.h"
 
+#include <mutex>
+
 #define POLY64REV 0xd800000000000000ULL
 
 namespace crucible {
 
-	static bool init = false;
 	static uint64_t CRCTable[8][256];
 
 	static void init_crc64_table()
 	{
-		if (!init) {
+		static std::once_flag init;
+		std::call_once(init, []() {
 			uint64_t crc;
 
 			// Generate CRCs for all single byte sequences
@@ -61,8 +63,7 @@ namespace crucible {
 					CRCTable[k][n] = crc;
 				}
 			}
-			init = true;
-		}
+		});
 	}
 
 	uint64_t
diff --git a/lib/fs.cc b/lib/fs.cc
index 356d803..de54417 100644
--- a/lib/fs.cc
+++ b/lib/fs.cc
@@ -10,6 +10,7 @@
 // FS_IOC_FIEMAP
 #include <linux/fs.h>
 
+#include <atomic>
 #include <cassert>
 #include <cstddef>
 #include <iostream>
@@ -343,7 +344,7 @@ namespace crucible {
 
 		m_iors.clear();
 
-		static unsigned long bili_version = 0;
+		static atomic<unsigned long> bili_version{0};
 
 		if (get_flags() == 0) {
 			// Could use either V1 or V2
diff --git a/lib/task.cc b/lib/task.cc
index 2507285..f01a881 100644
--- a/lib/task.cc
+++ b/lib/task.cc
@@ -177,7 +177,7 @@ namespace crucible {
 		double					m_prev_loadavg;
 		size_t					m_configured_thread_max;
 		double					m_thread_target;
-		bool					m_cancelled = false;
+		atomic<bool>				m_cancelled{false};
 		bool					m_paused = false;
 		TaskMaster::LoadStats			m_load_stats;
 
-- 
2.43.0


From 28287ec8f18b08028558266fd1213e001cf27549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:48 +0000
Subject: [PATCH 11/30] fix: log BEESLOGONCE messages from a single thread

The flag was a plain static bool read and written by every thread that
reaches the message.
---
 src/bees.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/bees.h b/src/bees.h
index bf3717b..21814c5 100644
--- a/src/bees.h
+++ b/src/bees.h
@@ -165,9 +165,8 @@ extern int bees_trace_level;
 #define BEESLOGDEBUG(x)  BEESLOG(LOG_DEBUG, x)
 
 #define BEESLOGONCE(__x) do { \
-        static bool already_logged = false; \
-        if (!already_logged) { \
-                already_logged = true; \
+        static atomic<bool> already_logged(false); \
+        if (!already_logged.exchange(true)) { \
                 BEESLOGNOTICE(__x); \
         } \
 } while (false)
-- 
2.43.0


From 486ad1c951b0bc6557884b7d7505f6336bbdb776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:37 +0000
Subject: [PATCH 12/30] fix: do not mistake a new extent for one already
 scanned at the same address

The list of recently scanned extents was keyed by address, offset and
length only.  When an extent was freed and its space was reused by an
extent of the same length, the new data was never read or deduplicated.
Add the generation of the extent to the key.
---
 include/crucible/extentwalker.h | 4 ++++
 lib/extentwalker.cc             | 1 +
 src/bees-context.cc             | 7 +++++--
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/crucible/extentwalker.h b/include/crucible/extentwalker.h
index ed4c906..798424e 100644
--- a/include/crucible/extentwalker.h
+++ b/include/crucible/extentwalker.h
@@ -18,6 +18,9 @@ namespace crucible {
 		off_t		m_logical_len = 0;
 		off_t		m_offset = 0;
 
+		// Transaction that created the extent, 0 if unknown (FIEMAP)
+		uint64_t	m_generation = 0;
+
 		// fiemap flags are uint32_t, so bits 32..63 are OK for us
 
 		// no extent here
@@ -38,6 +41,7 @@ namespace crucible {
 		off_t physical_len() const { return m_physical_len; }
 		off_t logical_len() const { return m_logical_len; }
 		off_t offset() const { return m_offset; }
+		uint64_t generation() const { return m_generation; }
 		bool compressed() const;
 		uint64_t bytenr() const;
 		bool operator==(const Extent &that) const;
diff --git a/lib/extentwalker.cc b/lib/extentwalker.cc
index dd4e56f..0cead6b 100644
--- a/lib/extentwalker.cc
+++ b/lib/extentwalker.cc
@@ -607,6 +607,7 @@ namespace crucible {
 					e.m_physical_len = ram;
 					e.m_logical_len = len;
 					e.m_offset = offset;
+					e.m_generation = btrfs_get_member(&btrfs_file_extent_item::generation, i.m_data);
 
 					// To maintain compatibility with FIEMAP we ignore the offset for compressed extents.
 					// At some point we'll grow out of this.
diff --git a/src/bees-context.cc b/src/bees-context.cc
index 56f8830..00be8fa 100644
--- a/src/bees-context.cc
+++ b/src/bees-context.cc
@@ -331,6 +331,8 @@ BeesContext::rewrite_file_range(const BeesFileRange &bfr)
 
 struct BeesSeenRange {
 	uint64_t bytenr;
+	// bytenr can be reused by a different extent after the first one is freed
+	uint64_t generation;
 	off_t offset;
 	off_t length;
 };
@@ -339,7 +341,7 @@ static
 bool
 operator<(const BeesSeenRange &bsr1, const BeesSeenRange &bsr2)
 {
-	return tie(bsr1.bytenr, bsr1.offset, bsr1.length) < tie(bsr2.bytenr, bsr2.offset, bsr2.length);
+	return tie(bsr1.bytenr, bsr1.generation, bsr1.offset, bsr1.length) < tie(bsr2.bytenr, bsr2.generation, bsr2.offset, bsr2.length);
 }
 
 static
@@ -347,7 +349,7 @@ __attribute__((unused))
 ostream&
 operator<<(ostream &os, const BeesSeenRange &tup)
 {
-	return os << "BeesSeenRange { " << to_hex(tup.bytenr) << ", " << to_hex(tup.offset) << "+" << pretty(tup.length) << " }";
+	return os << "BeesSeenRange { " << to_hex(tup.bytenr) << ", gen " << tup.generation << ", " << to_hex(tup.offset) << "+" << pretty(tup.length) << " }";
 }
 
 void
@@ -411,6 +413,7 @@ BeesContext::scan_one_extent(const BeesFileRange &bfr, const Extent &e)
 	unique_lock<mutex> lock_seen(s_seen_mutex);
 	const BeesSeenRange tup = {
 		.bytenr = e.bytenr(),
+		.generation = e.generation(),
 		.offset = e.offset(),
 		.length = e.size(),
 	};
-- 
2.43.0


From a8f5840907cbd3c6567af54681e1e265d8e43c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:38 +0000
Subject: [PATCH 13/30] fix: task: replace a worker that exits after the thread
 count was raised again

A TaskConsumer that decided to exit because there were too many threads, or
because the TaskMaster was paused, is counted in m_threads until it removes
itself.  If the limit was raised or the pause lifted in between, no
replacement was started and the queue stopped moving.
---
 lib/task.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/task.cc b/lib/task.cc
index f01a881..9a5562c 100644
--- a/lib/task.cc
+++ b/lib/task.cc
@@ -939,6 +939,11 @@ namespace crucible {
 		// Fun fact:  shared_from_this() isn't usable until the constructor returns...
 		master_copy->m_threads.erase(shared_from_this());
 		master_copy->m_condvar.notify_all();
+
+		// We were counted as a running thread until now.  If the thread
+		// count was raised or the pause was lifted after we decided to
+		// exit, nobody started a replacement.
+		master_copy->start_threads_nolock();
 	}
 
 	TaskConsumer::TaskConsumer(const shared_ptr<TaskMasterState> &tms) :
-- 
2.43.0


From 7a6769b50d82e14f37071125246a20e5c6ee5c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:38 +0000
Subject: [PATCH 14/30] fix: task: don't deadlock when a task is queued after
 cancel

push_back ran task->clear() with the task's own mutex already held by its
caller; push_front destroyed tasks with the TaskMaster mutex held.
---
 lib/task.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/task.cc b/lib/task.cc
index 9a5562c..1d88d68 100644
--- a/lib/task.cc
+++ b/lib/task.cc
@@ -481,7 +481,8 @@ namespace crucible {
 		THROW_CHECK0(runtime_error, task);
 		unique_lock<mutex> lock(s_tms->m_mutex);
 		if (s_tms->m_cancelled) {
-			task->clear();
+			// Caller holds a lock on task, and we hold a lock that any
+			// Task destructor might need.  Just drop our reference.
 			return;
 		}
 		s_tms->m_queue.push_back(task);
@@ -495,7 +496,8 @@ namespace crucible {
 		THROW_CHECK0(runtime_error, task);
 		unique_lock<mutex> lock(s_tms->m_mutex);
 		if (s_tms->m_cancelled) {
-			task->clear();
+			// Caller holds a lock on task, and we hold a lock that any
+			// Task destructor might need.  Just drop our reference.
 			return;
 		}
 		s_tms->m_idle_queue.push_back(task);
@@ -511,6 +513,8 @@ namespace crucible {
 		}
 		unique_lock<mutex> lock(s_tms->m_mutex);
 		if (s_tms->m_cancelled) {
+			// Task destructors might need this lock
+			lock.unlock();
 			TaskState::clear_queue(queue);
 			return;
 		}
-- 
2.43.0


From 374e356d0077be658ad0a4e03d69f4ad95ce5071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:53 +0000
Subject: [PATCH 15/30] fix: task: don't lose a waiter when an Exclusion is
 released concurrently

The owner of an Exclusion was found through a weak_ptr, so a Task refused by
try_lock could be inserted after the owner had released the lock and
finished its execution.  Such a Task waits for the next execution of the
owner, which may never happen.  Release the ownership under the Exclusion's
mutex.
---
 include/crucible/task.h |  9 ++++++---
 lib/task.cc             | 34 +++++++++++++++++++++++++++++++---
 2 files changed, 37 insertions(+), 6 deletions(-)

diff --git a/include/crucible/task.h b/include/crucible/task.h
index caabada..03a9365 100644
--- a/include/crucible/task.h
+++ b/include/crucible/task.h
@@ -145,9 +145,11 @@ namespace crucible {
 		void release();
 	};
 
+	class ExclusionState;
+
 	class ExclusionLock {
-		shared_ptr<Task> m_owner;
-		ExclusionLock(shared_ptr<Task> owner);
+		shared_ptr<ExclusionState> m_owner;
+		ExclusionLock(shared_ptr<ExclusionState> owner);
 	friend class Exclusion;
 	public:
 		/// Explicit default constructor because we have other kinds
@@ -161,7 +163,8 @@ namespace crucible {
 	};
 
 	class Exclusion {
-		mutex m_mutex;
+		/// Shared with the locks so that they can be released at any time
+		shared_ptr<mutex> m_mutex = make_shared<mutex>();
 		weak_ptr<Task> m_owner;
 
 	public:
diff --git a/lib/task.cc b/lib/task.cc
index 1d88d68..1c7f11f 100644
--- a/lib/task.cc
+++ b/lib/task.cc
@@ -1007,7 +1007,35 @@ namespace crucible {
 		m_barrier_state.reset();
 	}
 
-	ExclusionLock::ExclusionLock(shared_ptr<Task> owner) :
+	/// Ownership of an Exclusion.  The owner Task is released with the
+	/// Exclusion locked, so that a Task which is refused the lock is always
+	/// inserted before the owner can release it and finish.  Otherwise it
+	/// would wait for the next execution of the owner, which may never come.
+	class ExclusionState {
+		const shared_ptr<mutex>	m_mutex;
+		shared_ptr<Task>	m_owner;
+		ExclusionState(const ExclusionState &) = delete;
+		ExclusionState &operator=(const ExclusionState &) = delete;
+	public:
+		ExclusionState(const shared_ptr<mutex> &mutex_ptr, const shared_ptr<Task> &owner);
+		~ExclusionState();
+	};
+
+	ExclusionState::ExclusionState(const shared_ptr<mutex> &mutex_ptr, const shared_ptr<Task> &owner) :
+		m_mutex(mutex_ptr),
+		m_owner(owner)
+	{
+	}
+
+	ExclusionState::~ExclusionState()
+	{
+		// Don't destroy the Task with the Exclusion locked
+		const Task hold_task(*m_owner);
+		unique_lock<mutex> lock(*m_mutex);
+		m_owner.reset();
+	}
+
+	ExclusionLock::ExclusionLock(shared_ptr<ExclusionState> owner) :
 		m_owner(owner)
 	{
 	}
@@ -1021,7 +1049,7 @@ namespace crucible {
 	ExclusionLock
 	Exclusion::try_lock(const Task &task)
 	{
-		unique_lock<mutex> lock(m_mutex);
+		unique_lock<mutex> lock(*m_mutex);
 		const auto sp = m_owner.lock();
 		if (sp) {
 			if (task) {
@@ -1031,7 +1059,7 @@ namespace crucible {
 		} else {
 			const auto rv = make_shared<Task>(task);
 			m_owner = rv;
-			return ExclusionLock(rv);
+			return ExclusionLock(make_shared<ExclusionState>(m_mutex, rv));
 		}
 	}
 
-- 
2.43.0


From d2c4b448cd999c0167a1bca974009aeea6acf284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:53 +0000
Subject: [PATCH 16/30] fix: time: don't take tokens from a RateLimiter when
 the clock is set back

---
 lib/time.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/time.cc b/lib/time.cc
index 4f991e5..6ab7442 100644
--- a/lib/time.cc
+++ b/lib/time.cc
@@ -113,7 +113,8 @@ namespace crucible {
 	void
 	RateLimiter::update_tokens()
 	{
-		double delta = m_timer.lap();
+		// The clock may be set back, but that takes no tokens away
+		double delta = max(0.0, m_timer.lap());
 		m_tokens += delta * m_rate;
 		if (m_tokens > m_burst) {
 			m_tokens = m_burst;
-- 
2.43.0


From 0dc2d5a561247922698e5c21c35274d1d4a624db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:53 +0000
Subject: [PATCH 17/30] fix: time: wake RateEstimator waiters whenever the
 count changes

Waiters were not notified if the clock did not advance since the last
update.
---
 lib/time.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/time.cc b/lib/time.cc
index 6ab7442..cc9d64c 100644
--- a/lib/time.cc
+++ b/lib/time.cc
@@ -198,9 +198,10 @@ namespace crucible {
 		auto delta = max(0.0, m_last_update.lap());
 		m_num += increment;
 		m_den += delta;
+		const bool count_changed = m_last_count != new_count;
 		m_last_count = new_count;
-		// If count increased, wake up any waiters
-		if (delta > 0) {
+		// If count changed, wake up any waiters, even if the clock did not move
+		if (count_changed) {
 			m_condvar.notify_all();
 		}
 	}
-- 
2.43.0


From 9a315807bdfc02d0eab8d36084a6aedf1da607d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:53 +0000
Subject: [PATCH 18/30] fix: fs: tree search for items that need the full 64K
 buffer

The buffer size loop ended before trying 64K, and left the header of the
item that did not fit to be parsed as if it were an item.
---
 lib/fs.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/fs.cc b/lib/fs.cc
index de54417..dc97d3d 100644
--- a/lib/fs.cc
+++ b/lib/fs.cc
@@ -814,7 +814,11 @@ namespace crucible {
 			if (ioctl_ptr->key.nr_items == 0) {
 				++s_loops_empty;
 			}
-		} while (buf_size < 65536);
+			if (rv != 0 && buf_size > 65536) {
+				// There is no item in the buffer, only the key of the item that did not fit
+				return false;
+			}
+		} while (buf_size <= 65536);
 
 		// ioctl changes nr_items, this has to be copied back
 		static_cast<btrfs_ioctl_search_key&>(*this) = ioctl_ptr->key;
-- 
2.43.0


From 4e91804b27611df4b196a6a9061904525b9e2463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:53 +0000
Subject: [PATCH 19/30] fix: extentwalker: prev() when the cached extents begin
 in the middle of one

The first cached extent may begin in the middle of an extent, so seeking to
its beginning could find a range that does not end where the current one
begins, and prev() threw an exception.
---
 lib/extentwalker.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/extentwalker.cc b/lib/extentwalker.cc
index 0cead6b..3c74615 100644
--- a/lib/extentwalker.cc
+++ b/lib/extentwalker.cc
@@ -454,9 +454,11 @@ namespace crucible {
 		}
 		THROW_CHECK1(invalid_argument, (prev_iter != m_extents.begin()), prev_iter != m_extents.begin());
 		--prev_iter;
-		EWTRACE("prev seeking to " << *prev_iter << "->m_begin");
+		EWTRACE("prev seeking to last block of " << *prev_iter);
 		auto prev_end = current().m_begin;
-		seek(prev_iter->m_begin);
+		// The first Extent in the cache might begin in the middle of another extent,
+		// so m_begin is not necessarily located in the extent before this one.
+		seek((prev_end - 1) & ~(FIEMAP_BLOCK_SIZE - 1));
 		THROW_CHECK1(runtime_error, (m_current != m_extents.end()), m_current != m_extents.end());
 		THROW_CHECK2(runtime_error, current().m_end, prev_end, current().m_end == prev_end);
 		return true;
-- 
2.43.0


From ea3789b9a0c14df03b567e61057fbb6bfb755d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:53 +0000
Subject: [PATCH 20/30] fix: btrfs-tree: get_sums when there is no csum item
 before the range

---
 lib/btrfs-tree.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/btrfs-tree.cc b/lib/btrfs-tree.cc
index 2e19a0d..d581dcc 100644
--- a/lib/btrfs-tree.cc
+++ b/lib/btrfs-tree.cc
@@ -599,6 +599,10 @@ namespace crucible {
 	#endif
 		const uint64_t logical_end = logical + count * block_size();
 		BtrfsTreeItem bti = rlower_bound(logical);
+		if (!bti) {
+			// nothing at or below logical, but there may be something in range above it
+			bti = lower_bound(logical);
+		}
 		size_t __attribute__((unused)) loops = 0;
 		BCTFGS_DEBUG("get_sums " << to_hex(logical) << ".." << to_hex(logical_end) << endl);
 		while (!!bti) {
-- 
2.43.0


From ae9be7b6a570bd4703b79c7edaab724a154d014c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:53 +0000
Subject: [PATCH 21/30] fix: bytevector: check the length of a slice

The check did not depend on the value of start + length.
---
 lib/bytevector.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bytevector.cc b/lib/bytevector.cc
index df2b430..25cc3ed 100644
--- a/lib/bytevector.cc
+++ b/lib/bytevector.cc
@@ -76,7 +76,7 @@ namespace crucible {
 	{
 		THROW_CHECK0(out_of_range, that.m_ptr);
 		THROW_CHECK2(out_of_range, start, that.m_size, start <= that.m_size);
-		THROW_CHECK2(out_of_range, start + length, that.m_size + length, start + length <= that.m_size + length);
+		THROW_CHECK3(out_of_range, start, length, that.m_size, length <= that.m_size - start);
 		m_ptr = Pointer(that.m_ptr, that.m_ptr.get() + start);
 		m_size = length;
 	}
-- 
2.43.0


From 2538aa764d0fbcba228e018d1a5f80b4c07ac012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:53 +0000
Subject: [PATCH 22/30] fix: fd: read_partial_or_die overwrote data after a
 short read

---
 lib/fd.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/fd.cc b/lib/fd.cc
index dbbfb48..5b91d18 100644
--- a/lib/fd.cc
+++ b/lib/fd.cc
@@ -391,6 +391,7 @@ namespace crucible {
 			if (rv == 0) break;
 			size_read += rv;
 			size -= rv;
+			buf = static_cast<char *>(buf) + rv;
 			// CHATTER("read " << rv << " bytes from fd " << fd);
 		}
 	}
-- 
2.43.0


From c44b90336e0dc9a32483c6e63ed54738b28ce9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:03 +0000
Subject: [PATCH 23/30] fix: bytevector: comparing a vector with itself locked
 its mutex twice

---
 lib/bytevector.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/bytevector.cc b/lib/bytevector.cc
index 25cc3ed..85fb67b 100644
--- a/lib/bytevector.cc
+++ b/lib/bytevector.cc
@@ -129,6 +129,10 @@ namespace crucible {
 	bool
 	ByteVector::operator==(const ByteVector &that) const
 	{
+		// A ByteVector is equal to itself, and we can't lock the same mutex twice.
+		if (&m_mutex == &that.m_mutex) {
+			return true;
+		}
 		unique_lock<mutex> lock_this(m_mutex, defer_lock);
 		unique_lock<mutex> lock_that(that.m_mutex, defer_lock);
 		lock(lock_this, lock_that);
-- 
2.43.0


From 2ea1922377488d667f2f90f18387f169ec2c3c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:03 +0000
Subject: [PATCH 24/30] fix: bytevector: lock the source while taking a slice
 of it

---
 lib/bytevector.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/bytevector.cc b/lib/bytevector.cc
index 85fb67b..573ae7c 100644
--- a/lib/bytevector.cc
+++ b/lib/bytevector.cc
@@ -74,6 +74,7 @@ namespace crucible {
 
 	ByteVector::ByteVector(const ByteVector &that, size_t start, size_t length)
 	{
+		unique_lock<mutex> lock(that.m_mutex);
 		THROW_CHECK0(out_of_range, that.m_ptr);
 		THROW_CHECK2(out_of_range, start, that.m_size, start <= that.m_size);
 		THROW_CHECK3(out_of_range, start, length, that.m_size, length <= that.m_size - start);
-- 
2.43.0


From 88032427128705edab9066ca72449e015433edc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:03 +0000
Subject: [PATCH 25/30] fix: bytevector: erase error message read beyond the
 end of the buffer

---
 lib/bytevector.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bytevector.cc b/lib/bytevector.cc
index 573ae7c..b66eebc 100644
--- a/lib/bytevector.cc
+++ b/lib/bytevector.cc
@@ -161,7 +161,7 @@ namespace crucible {
 		THROW_CHECK0(out_of_range, m_ptr);
 		const iterator my_begin = m_ptr.get();
 		const iterator my_end = my_begin + m_size;
-		THROW_CHECK4(out_of_range, my_begin, begin, my_end, end, my_begin == begin || my_end == end);
+		THROW_CHECK3(out_of_range, begin - my_begin, end - my_begin, m_size, my_begin == begin || my_end == end);
 		if (begin == my_begin) {
 			if (end == my_end) {
 				m_size = 0;
-- 
2.43.0


From 7adcca684b48bce99e8fa8f8bef47462b1c6a445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:03 +0000
Subject: [PATCH 26/30] fix: hash: division by zero when stopped before the
 first extent was analyzed

---
 src/bees-hash.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bees-hash.cc b/src/bees-hash.cc
index 8888a07..58eb122 100644
--- a/src/bees-hash.cc
+++ b/src/bees-hash.cc
@@ -347,7 +347,7 @@ BeesHashTable::prefetch_loop()
 		graph_blob << "Kernel:  " << uname.sysname << " " << uname.release << " " << uname.machine << " " << uname.version << "\n";
 
 		graph_blob
-			<< "\nHash table page occupancy histogram (" << occupied_count << "/" << total_count << " cells occupied, " << (occupied_count * 100 / total_count) << "%)\n"
+			<< "\nHash table page occupancy histogram (" << occupied_count << "/" << total_count << " cells occupied, " << percent(occupied_count, total_count) << ")\n"
 			<< out.str() << "0%      |      25%      |      50%      |      75%      |   100% page fill\n"
 			<< "compressed " << compressed_count << " (" << percent(compressed_count, occupied_count) << ")\n"
 			<< "uncompressed " << uncompressed_count << " (" << percent(uncompressed_count, occupied_count) << ")"
-- 
2.43.0


From 6a6d6718b67b9dbb6b24b0ea6dedef7ad7c25c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:52 +0000
Subject: [PATCH 27/30] fix: beesd: option values given as separate arguments
 were dropped

---
 scripts/beesd.in | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/scripts/beesd.in b/scripts/beesd.in
index f4751aa..145a83b 100755
--- a/scripts/beesd.in
+++ b/scripts/beesd.in
@@ -47,11 +47,18 @@ IFS=" " read -r -a SUPPORTED_ARGS <<< $TMP_ARGS
 NOT_SUPPORTED_ARGS=()
 ARGUMENTS=()
 
+value_ok=false
 for arg in "${@}"; do
     supp=false
+    # An option's value may be a separate argument
+    if $value_ok && [[ "$arg" != -* ]] && ! uuid_valid "$arg"; then
+        supp=true
+    fi
+    value_ok=false
     for supp_arg in "${SUPPORTED_ARGS[@]}"; do
         if [[ "$arg" == ${supp_arg}* ]]; then
             supp=true
+            [[ "$arg" == "$supp_arg" ]] && value_ok=true
             break
         fi
     done
-- 
2.43.0


From d7c8c1f88aaf41479ac1b50d2a13df19b1f3d3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:02 +0000
Subject: [PATCH 28/30] fix: resolve: a reference that cannot be examined ended
 the scan of the extent

When the file or subvol of a candidate reference goes away while it is being
examined (its FD is still open), chase_extent_ref, or the comparison of the
found range with the new data, throws.  The exception left the scan of the
new extent, which was then forgotten:  data that nobody had touched was
never scanned.

Skip such a candidate, as find_matches does, and try the next one.
---
 src/bees-resolve.cc | 114 +++++++++++++++++++++++++-------------------
 1 file changed, 66 insertions(+), 48 deletions(-)

diff --git a/src/bees-resolve.cc b/src/bees-resolve.cc
index 46446fd..821bf8b 100644
--- a/src/bees-resolve.cc
+++ b/src/bees-resolve.cc
@@ -358,24 +358,28 @@ BeesResolver::for_each_extent_ref(BeesBlockData bbd, function<bool(const BeesFil
 			continue;
 		}
 
-		// Look at the old data
-		// FIXME:  propagate exceptions for now.  Proper fix requires a rewrite.
-		// catch_all([&]() {
+		// Look at the old data.  A reference that cannot be examined (e.g. its file or
+		// subvol was deleted or truncated in the meantime) is skipped like one that does
+		// not match:  it must not end the scan of an extent that belongs to another file.
+		BeesFileRange new_range;
+		catch_all([&]() {
 			BEESTRACE("chase_extent_ref ino " << ino_off_root << " bbd " << bbd);
-			auto new_range = chase_extent_ref(ino_off_root, bbd);
-			// XXX: should we catch visitor's exceptions here?
-			if (new_range) {
-				stop_now = visitor(new_range);
-			} else {
-				// We have reliable block addresses now, so we guarantee we can hit the desired block.
-				// Failure in chase_extent_ref means we are done, and don't need to look up all the
-				// other references.
-				// Or...not?  If we have a compressed extent, some refs will not match
-				// if there is are two references to the same extent with a reference
-				// to a different extent between them.
-				// stop_now = true;
-			}
-		// });
+			new_range = chase_extent_ref(ino_off_root, bbd);
+		});
+
+		// FIXME:  propagate the visitor's exceptions for now.  Proper fix requires a rewrite.
+		// XXX: should we catch visitor's exceptions here?
+		if (new_range) {
+			stop_now = visitor(new_range);
+		} else {
+			// We have reliable block addresses now, so we guarantee we can hit the desired block.
+			// Failure in chase_extent_ref means we are done, and don't need to look up all the
+			// other references.
+			// Or...not?  If we have a compressed extent, some refs will not match
+			// if there is are two references to the same extent with a reference
+			// to a different extent between them.
+			// stop_now = true;
+		}
 
 		if (stop_now) {
 			break;
@@ -403,43 +407,57 @@ BeesResolver::replace_dst(const BeesFileRange &dst_bfr_in)
 	BeesRangePair rv = { BeesFileRange(), BeesFileRange() };
 
 	for_each_extent_ref(bbd, [&](const BeesFileRange &src_bfr_in) -> bool {
-		// Open src
-		BEESNOTE("Opening src bfr " << src_bfr_in);
-		BEESTRACE("Opening src bfr " << src_bfr_in);
-		auto src_bfr = src_bfr_in;
-		src_bfr.fd(m_ctx);
-
-		if (dst_bfr.overlaps(src_bfr)) {
-			BEESCOUNT(replacedst_overlaps);
-			return false; // i.e. continue
-		}
+		bool already_same = false;
+		bool found_brp = false;
 
-		// If dst is already occupying src, skip.
-		// FIXME: BeesContext::scan_one_extent should be weeding these out, but does not.
-		BeesBlockData src_bbd(src_bfr.fd(), src_bfr.begin(), min(BLOCK_SIZE_SUMS, src_bfr.size()));
-		if (bbd.addr().get_physical_or_zero() == src_bbd.addr().get_physical_or_zero()) {
-			BEESCOUNT(replacedst_same);
+		// If src cannot be examined (e.g. it was deleted or truncated in the meantime)
+		// then try the next one.
+		catch_all([&]() {
+			// Open src
+			BEESNOTE("Opening src bfr " << src_bfr_in);
+			BEESTRACE("Opening src bfr " << src_bfr_in);
+			auto src_bfr = src_bfr_in;
+			src_bfr.fd(m_ctx);
+
+			if (dst_bfr.overlaps(src_bfr)) {
+				BEESCOUNT(replacedst_overlaps);
+				return; // i.e. continue
+			}
+
+			// If dst is already occupying src, skip.
+			// FIXME: BeesContext::scan_one_extent should be weeding these out, but does not.
+			BeesBlockData src_bbd(src_bfr.fd(), src_bfr.begin(), min(BLOCK_SIZE_SUMS, src_bfr.size()));
+			if (bbd.addr().get_physical_or_zero() == src_bbd.addr().get_physical_or_zero()) {
+				BEESCOUNT(replacedst_same);
+				already_same = true;
+				return;
+			}
+
+			// Make pair(src, dst)
+			BEESTRACE("creating brp (" << src_bfr << ", " << dst_bfr << ")");
+			BeesRangePair brp(src_bfr, dst_bfr);
+			BEESTRACE("Found matching range: " << brp);
+
+			// Extend range at beginning
+			BEESNOTE("Extending matching range: " << brp);
+			// 'false' Has nasty loops, and may not be faster.
+			// 'true' At best, keeps fragmentation constant...but can also make it worse
+			if (brp.grow(m_ctx, true)) {
+				BEESCOUNT(replacedst_grown);
+			}
+
+			rv = brp;
+			m_found_dup = true;
+			found_brp = true;
+		});
+
+		if (already_same) {
 			// stop looping here, all the other srcs will probably fail this test too
 			BeesTracer::set_silent();
 			throw runtime_error("FIXME: too many duplicate candidates, bailing out here");
 		}
 
-		// Make pair(src, dst)
-		BEESTRACE("creating brp (" << src_bfr << ", " << dst_bfr << ")");
-		BeesRangePair brp(src_bfr, dst_bfr);
-		BEESTRACE("Found matching range: " << brp);
-
-		// Extend range at beginning
-		BEESNOTE("Extending matching range: " << brp);
-		// 'false' Has nasty loops, and may not be faster.
-		// 'true' At best, keeps fragmentation constant...but can also make it worse
-		if (brp.grow(m_ctx, true)) {
-			BEESCOUNT(replacedst_grown);
-		}
-
-		rv = brp;
-		m_found_dup = true;
-		return true;
+		return found_brp;
 	});
 	// BEESLOG("overlap_bfr after " << overlap_bfr);
 	return rv;
-- 
2.43.0


From 2cdf772888ddf12e888bdc3b3052f77a357409b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:02 +0000
Subject: [PATCH 29/30] fix: error: errno was taken after formatting the
 message, which may change it

---
 include/crucible/error.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/crucible/error.h b/include/crucible/error.h
index 6952dce..8acd7c7 100644
--- a/include/crucible/error.h
+++ b/include/crucible/error.h
@@ -86,10 +86,12 @@ namespace crucible {
 } while (0)
 
 // macro for throwing a system_error with errno
+// (saved first, because evaluating expr may change it)
 #define THROW_ERRNO(expr) do { \
+	const int _te_errno = errno; \
 	std::ostringstream _te_oss; \
 	_te_oss << expr << " at " << __FILE__ << ":" << __LINE__; \
-	throw std::system_error(std::error_code(errno, std::system_category()), _te_oss.str()); \
+	throw std::system_error(std::error_code(_te_errno, std::system_category()), _te_oss.str()); \
 } while (0)
 
 // macro for throwing a system_error with some other variable
-- 
2.43.0


From 57e489c4511d1280e7a8d6c4378f3d531d8de0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:02 +0000
Subject: [PATCH 30/30] fix: bees: scan modes above UINT_MAX/2 passed the range
 check

---
 src/bees.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/bees.cc b/src/bees.cc
index 2035769..f5dbdca 100644
--- a/src/bees.cc
+++ b/src/bees.cc
@@ -871,7 +871,12 @@ bees_main(int argc, char *argv[])
 				load_target = stod(optarg);
 				break;
 			case 'm':
-				root_scan_mode = static_cast<BeesRoots::ScanMode>(stoul(optarg));
+				{
+					// Check before the cast, which does not keep every value
+					const unsigned long new_scan_mode = stoul(optarg);
+					THROW_CHECK1(out_of_range, new_scan_mode, new_scan_mode < BeesRoots::SCAN_MODE_COUNT);
+					root_scan_mode = static_cast<BeesRoots::ScanMode>(new_scan_mode);
+				}
 				break;
 			case 'p':
 				use_relative_paths = false;
-- 
2.43.0

