From 0057ff50b7142b9df3a13c61301b34f6e77fb518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:29 +0000
Subject: [PATCH 01/39] fix: do not overwrite committed DRAM chunks within the
 flush that supersedes them

Chunk locations released while flushing index pages were reused by the following
pages of the same flush. A crash before the changelog was written then lost the
last committed version of such pages.
---
 src/dbzero/core/storage/DRAM_IOStream.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/dbzero/core/storage/DRAM_IOStream.cpp b/src/dbzero/core/storage/DRAM_IOStream.cpp
index 48e7065..fbc28cb 100644
--- a/src/dbzero/core/storage/DRAM_IOStream.cpp
+++ b/src/dbzero/core/storage/DRAM_IOStream.cpp
@@ -211,6 +211,9 @@ namespace db0
             return std::nullopt;
         };
 
+        // NOTE: page locations released by this flush hold the last committed versions, they must not be overwritten
+        // until the update is complete (otherwise a crash before writing the changelog would lose these pages)
+        std::vector<std::uint64_t> released_chunks;
         auto update_page_location = [&, this](std::uint64_t page_num, std::uint64_t address) {
             // remove address from reusable
             {
@@ -222,8 +225,8 @@ namespace db0
             auto dram_page = m_page_map.find(page_num);
             if (dram_page != m_page_map.end()) {
                 assert(dram_page->second.m_address != address);
-                // add the old page location to reusable addresses
-                m_reusable_chunks.insert(dram_page->second.m_address);
+                // the old page location may be reused by subsequent updates
+                released_chunks.push_back(dram_page->second.m_address);
             }
             // update to most recent location (and state number)
             m_page_map[page_num] = { state_num, address };
@@ -267,6 +270,8 @@ namespace db0
 #endif
         });
         
+        // add the old page locations to reusable addresses
+        m_reusable_chunks.insert(released_chunks.begin(), released_chunks.end());
         // flush all DRAM data updates before changelog updates
         BlockIOStream::flush();
         // output changelog, no RLE encoding, no duplicates
-- 
2.43.0


From 7702341dd4fa533946b1d50b3cc81ca24ea40ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:29 +0000
Subject: [PATCH 02/39] fix: DiffRangeView::sizeOf applied the view offset
 twice

---
 src/dbzero/core/memory/diff_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbzero/core/memory/diff_utils.cpp b/src/dbzero/core/memory/diff_utils.cpp
index 27aa9d6..353bae7 100644
--- a/src/dbzero/core/memory/diff_utils.cpp
+++ b/src/dbzero/core/memory/diff_utils.cpp
@@ -161,7 +161,7 @@ namespace db0
     {
         if (m_diff_ranges) {
             assert(index < m_size);
-            return (*this)[m_offset + index].second - (*this)[m_offset + index].first;
+            return (*this)[index].second - (*this)[index].first;
         }
         return 0;
     }
-- 
2.43.0


From 7034289c07b713d0b1f521cc6d171a38074a2010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:17 +0000
Subject: [PATCH 03/39] fix: register all pages of a wide range with the same
 mutation on a diff flush

---
 src/dbzero/core/memory/WideLock.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/dbzero/core/memory/WideLock.cpp b/src/dbzero/core/memory/WideLock.cpp
index ee7537a..cdda09a 100644
--- a/src/dbzero/core/memory/WideLock.cpp
+++ b/src/dbzero/core/memory/WideLock.cpp
@@ -122,6 +122,9 @@ namespace db0
                     std::size_t unwritten_size = 0;
                     auto page_ptr = m_data.data(), end_ptr = m_data.data() + dp_size;
                     bool first_write = true;
+                    // pages without diffs
+                    std::vector<std::byte*> unchanged_pages;
+                    bool has_changes = false;
                     for (;page_ptr != end_ptr; page_ptr += page_size) {
                         // NOTE that cow_ptr gets adjusted to the next page after this call
                         if (this->getDiffs(cow_ptr, page_ptr, page_size, diffs)) {
@@ -129,9 +132,12 @@ namespace db0
                             if (unwritten_size > 0) {
                                 storage.write(m_address, m_state_num, unwritten_size, m_data.data());
                                 unwritten_size = 0;
+                                has_changes = true;
                             }
-                            // NOTE: DP needs not to be flushed if there are no diffs
-                            if (!diffs.empty()) {
+                            if (diffs.empty()) {
+                                unchanged_pages.push_back(page_ptr);
+                            } else {
+                                has_changes = true;
                                 if (!storage.tryWriteDiffs(
                                     m_address + (page_ptr - m_data.data()), m_state_num, page_size, page_ptr, diffs)) 
                                 {
@@ -148,6 +154,7 @@ namespace db0
                                 assert(unwritten_size == 0);
                                 // write as a full-DP
                                 storage.write(m_address + (page_ptr - m_data.data()), m_state_num, page_size, page_ptr);
+                                has_changes = true;
                                 first_write = false;
                             }
                         }
@@ -158,6 +165,17 @@ namespace db0
                         // unable to write using the diff method
                         return false;                        
                     }
+                    // NOTE: all pages of a wide range must share the same mutation (see findUniqueMutation)
+                    // therefore, unless there're no changes at all, the unchanged pages are registered with an empty diff
+                    if (has_changes) {
+                        diffs.clear();
+                        for (auto page_ptr: unchanged_pages) {
+                            auto address = m_address + (page_ptr - m_data.data());
+                            if (!storage.tryWriteDiffs(address, m_state_num, page_size, page_ptr, diffs)) {
+                                storage.write(address, m_state_num, page_size, page_ptr);
+                            }
+                        }
+                    }
                 }
                 
                 // and the residual part into the res_lock (which may be flushed independently)
-- 
2.43.0


From 799f754db3769b84fa4e3779c6ac8cede52eb6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:50 +0000
Subject: [PATCH 04/39] fix: do not diff against the CoW version after a full
 flush within the same transaction

---
 src/dbzero/core/memory/DP_Lock.cpp      | 1 +
 src/dbzero/core/memory/ResourceLock.cpp | 7 +++++++
 src/dbzero/core/memory/ResourceLock.hpp | 3 +++
 src/dbzero/core/memory/WideLock.cpp     | 1 +
 4 files changed, 12 insertions(+)

diff --git a/src/dbzero/core/memory/DP_Lock.cpp b/src/dbzero/core/memory/DP_Lock.cpp
index 8443861..6a40534 100644
--- a/src/dbzero/core/memory/DP_Lock.cpp
+++ b/src/dbzero/core/memory/DP_Lock.cpp
@@ -67,6 +67,7 @@ namespace db0
                 auto &storage = m_context.m_storage_ref.get();
                 if (flush_method == FlushMethod::full) {
                     storage.write(m_address, m_state_num, this->size(), m_data.data());
+                    resetCoW();
                 } else {
                     assert(flush_method == FlushMethod::diff);
                     auto cow_ptr = getCowPtr();                    
diff --git a/src/dbzero/core/memory/ResourceLock.cpp b/src/dbzero/core/memory/ResourceLock.cpp
index d9c9d0f..145e801 100644
--- a/src/dbzero/core/memory/ResourceLock.cpp
+++ b/src/dbzero/core/memory/ResourceLock.cpp
@@ -199,6 +199,13 @@ namespace db0
         return m_cow_lock || !m_cow_data.empty() || m_access_mode[AccessOptions::create];
     }
     
+    void ResourceLock::resetCoW()
+    {
+        m_cow_lock = nullptr;
+        m_cow_data.clear();
+        m_access_mode.set(AccessOptions::create, false);
+    }
+
     std::size_t ResourceLock::usedMem() const
     {
         std::size_t result = m_data.size() + sizeof(*this);
diff --git a/src/dbzero/core/memory/ResourceLock.hpp b/src/dbzero/core/memory/ResourceLock.hpp
index 5b2ee45..15342de 100644
--- a/src/dbzero/core/memory/ResourceLock.hpp
+++ b/src/dbzero/core/memory/ResourceLock.hpp
@@ -214,6 +214,9 @@ namespace db0
         bool addrPageAligned(BaseStorage &) const;
         
         const std::byte *getCowPtr() const;
+        // Drop CoW data after a full flush. Since the flushed contents supersede the CoW version in the storage,
+        // further changes from the same transaction must not be diffed against it
+        void resetCoW();
         bool getDiffs(const void *buf, std::vector<std::uint16_t> &result) const;
                 
 #ifndef NDEBUG
diff --git a/src/dbzero/core/memory/WideLock.cpp b/src/dbzero/core/memory/WideLock.cpp
index cdda09a..dc450fb 100644
--- a/src/dbzero/core/memory/WideLock.cpp
+++ b/src/dbzero/core/memory/WideLock.cpp
@@ -108,6 +108,7 @@ namespace db0
                 if (flush_method == FlushMethod::full) {
                     // write the first part of the data from the local buffer
                     storage.write(m_address, m_state_num, dp_size, m_data.data());
+                    resetCoW();
                 } else {
                     assert(flush_method == FlushMethod::diff);
                     auto cow_ptr = getCowPtr();
-- 
2.43.0


From a65a2af4c9dbcad1a517421e5791c2639e5e56e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:06 +0000
Subject: [PATCH 05/39] fix: allow reading expired wide ranges of past states
 from an atomic operation

---
 src/dbzero/core/memory/PrefixCache.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dbzero/core/memory/PrefixCache.cpp b/src/dbzero/core/memory/PrefixCache.cpp
index f856613..278630f 100644
--- a/src/dbzero/core/memory/PrefixCache.cpp
+++ b/src/dbzero/core/memory/PrefixCache.cpp
@@ -176,8 +176,8 @@ namespace db0
         auto wide_lock = weak_ref->lock();
         // must restore cache-expired lock        
         if (!wide_lock) {
-            // volatile locks must not expire
-            assert(!access_mode[AccessOptions::no_flush]);
+            // volatile locks must not expire (but locks from past states may, even if accessed from an atomic operation)
+            assert(!access_mode[AccessOptions::no_flush] || read_state_num != state_num);
             // NOTE: residual lock not required if the wide lock is page-aligned
             if (!res_lock && !isPageAligned(size)) {
                 // operation needs to be repeated with the residual lock
-- 
2.43.0


From 6adbd0f40d20f780f0dc8afbdc4c51c437aa11bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:33 +0000
Subject: [PATCH 06/39] fix: page-aligned wide ranges have no residual lock

---
 src/dbzero/core/memory/PrefixCache.cpp | 6 +++---
 src/dbzero/core/memory/PrefixImpl.cpp  | 2 ++
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/dbzero/core/memory/PrefixCache.cpp b/src/dbzero/core/memory/PrefixCache.cpp
index 278630f..bd3620c 100644
--- a/src/dbzero/core/memory/PrefixCache.cpp
+++ b/src/dbzero/core/memory/PrefixCache.cpp
@@ -227,11 +227,11 @@ namespace db0
             // note that dirty locks cannot be upgraded (otherwise data would be lost)
             // note that, on upgrade, the residual lock must be refreshed as well
             if (wide_lock->allowReuse() && wide_lock.use_count() == (wide_lock->isRecycled() ? 1 : 0) + 1) {
-                // have the operation repeated with the res_lock
-                if (!res_lock) {
+                // have the operation repeated with the res_lock (unless the wide lock is page-aligned)
+                if (!res_lock && !isPageAligned(size)) {
                     return { true, nullptr };
                 }
-                assert(res_lock);
+                assert(res_lock || isPageAligned(size));
                 assert(read_state_num == wide_lock->getStateNum());
                 m_wide_map.erase(read_state_num, wide_lock);
                 // note that this operation may also assign the no_flush flag if it was requested
diff --git a/src/dbzero/core/memory/PrefixImpl.cpp b/src/dbzero/core/memory/PrefixImpl.cpp
index 60eb9de..1fc9cc2 100644
--- a/src/dbzero/core/memory/PrefixImpl.cpp
+++ b/src/dbzero/core/memory/PrefixImpl.cpp
@@ -266,6 +266,8 @@ namespace db0
                 if (has_res) {
                     db0::tryFindUniqueMutation(*m_storage_ptr, first_page, end_page - 1, state_num, mutation_id);
                     res_dp = mapPage(end_page - 1, state_num, access_mode | AccessOptions::read);
+                } else {
+                    db0::tryFindUniqueMutation(*m_storage_ptr, first_page, end_page, state_num, mutation_id);
                 }
                 
                 // unable to read if mutation does not exist
-- 
2.43.0


From 37482acc907c21f47489f5925d062212aba599b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:31 +0000
Subject: [PATCH 07/39] fix: keep the version marker of a reused page lock when
 older versions are cached

A lock reused for a new transaction was removed from the page map, so that a lookup of its former state
(snapshot, or head after a cancelled atomic operation) found an older cached version of the page instead.
---
 src/dbzero/core/memory/PageMap.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/dbzero/core/memory/PageMap.hpp b/src/dbzero/core/memory/PageMap.hpp
index 9cedec4..a67ac10 100644
--- a/src/dbzero/core/memory/PageMap.hpp
+++ b/src/dbzero/core/memory/PageMap.hpp
@@ -213,7 +213,13 @@ namespace db0
             THROWF(db0::InternalException) << "Attempt to erase non-existing lock from PageMap";
         }
         assert(it->second.lock() == res_lock);
-        m_cache.erase(it);
+        // NOTE: if older versions of the page exist, then the entry must be retained as expired (i.e. to be restored
+        // from storage), otherwise an older version would be found in place of the erased one
+        if (it != m_cache.begin() && std::prev(it)->first.first == page_num) {
+            it->second.reset();
+        } else {
+            m_cache.erase(it);
+        }
     }
     
     template <typename ResourceLockT> void PageMap<ResourceLockT>::clear() 
-- 
2.43.0


From ae00aa03dfc03269f48456b08f2cb4327b55f2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:31 +0000
Subject: [PATCH 08/39] fix: unregister boundary locks of an atomic operation
 when it is merged

The stale map entry made the next transaction take a boundary range as already writable, its changes were
then applied to the pages of the previous, already committed state.
---
 src/dbzero/core/memory/PrefixCache.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dbzero/core/memory/PrefixCache.cpp b/src/dbzero/core/memory/PrefixCache.cpp
index bd3620c..cae60b4 100644
--- a/src/dbzero/core/memory/PrefixCache.cpp
+++ b/src/dbzero/core/memory/PrefixCache.cpp
@@ -609,6 +609,10 @@ namespace db0
         // into the underlying parent DP-locks
         // This is fine because in the head transaction we've released all boundary locks
         // so they need not to be merged
+        // NOTE: must also be removed from the map, otherwise the range would be taken as existing in the next transaction
+        for (auto &lock: m_volatile_boundary_locks) {
+            eraseBoundaryRange(lock->getAddress(), lock->size(), from_state_num);
+        }
         m_volatile_boundary_locks.clear();
         
         // first collect residual parts from dirty wide locks
-- 
2.43.0


From d2c705630fd78aa0386bfea654ba978f968b167f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:54 +0000
Subject: [PATCH 09/39] fix: UniqueAddress::operator>= excluded equal addresses

---
 src/dbzero/core/memory/Address.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbzero/core/memory/Address.hpp b/src/dbzero/core/memory/Address.hpp
index b80ce09..022459f 100644
--- a/src/dbzero/core/memory/Address.hpp
+++ b/src/dbzero/core/memory/Address.hpp
@@ -161,7 +161,7 @@ DB0_PACKED_BEGIN
         }
 
         inline bool operator>=(const UniqueAddress& other) const {
-            return m_value > other.m_value;
+            return m_value >= other.m_value;
         }
         
         // operator<<
-- 
2.43.0


From b450e89288f7d6f43dad024f1e336ffd803eb834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:59 +0000
Subject: [PATCH 10/39] fix: LimitedVector::reserve stored every reserved block
 under the same index

---
 src/dbzero/core/collections/vector/LimitedVector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dbzero/core/collections/vector/LimitedVector.hpp b/src/dbzero/core/collections/vector/LimitedVector.hpp
index 08dcf62..5646db4 100644
--- a/src/dbzero/core/collections/vector/LimitedVector.hpp
+++ b/src/dbzero/core/collections/vector/LimitedVector.hpp
@@ -206,9 +206,9 @@ namespace db0
         // create missing blocks from the range
         // blocks are not added to cache
         for (std::size_t i = 0; i <= block_num; ++i) {
-            if (!m_root->get(block_num + 1)) {
+            if (!m_root->get(i + 1)) {
                 auto new_block = db0::v_object<o_unbound_array<ValueT> >(m_memspace, getBlockSize(), ValueT());
-                m_root.modify()[block_num] = new_block.getAddress();
+                m_root.modify()[i + 1] = new_block.getAddress();
                 ++m_root.modify()[0];
             }
         }
-- 
2.43.0


From f26fdb4d5a7a6f0b2d2c8940e374049c274cf600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:29 +0000
Subject: [PATCH 11/39] fix: removing an empty slab forgot its instance ids, so
 unique addresses were assigned again

---
 .../core/collections/vector/LimitedVector.hpp | 22 +++++++++++++++++++
 src/dbzero/core/memory/SlabAllocator.cpp      |  4 ++++
 src/dbzero/core/memory/SlabAllocator.hpp      |  3 +++
 src/dbzero/core/memory/SlabManager.cpp        |  6 +++--
 4 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/dbzero/core/collections/vector/LimitedVector.hpp b/src/dbzero/core/collections/vector/LimitedVector.hpp
index 5646db4..5b9e96f 100644
--- a/src/dbzero/core/collections/vector/LimitedVector.hpp
+++ b/src/dbzero/core/collections/vector/LimitedVector.hpp
@@ -43,6 +43,9 @@ namespace db0
         // reserve space for a given number of elements
         void reserve(std::size_t size);
 
+        // check if there exists any element different from the default value
+        bool any() const;
+
         // Get total storage space occupied by the structure
         std::size_t getDataSize() const;
         
@@ -214,6 +217,25 @@ namespace db0
         }
     }
     
+    template <typename ValueT> bool LimitedVector<ValueT>::any() const
+    {
+        auto block_size = getBlockSize();
+        auto max_block_count = getMaxBlockCount();
+        for (std::size_t block_num = 0; block_num + 1 < max_block_count; ++block_num) {
+            if (!m_root->get(block_num + 1)) {
+                // block not allocated
+                continue;
+            }
+            auto &values = *getExistingBlock(block_num).getData();
+            for (std::size_t i = 0; i < block_size; ++i) {
+                if (values.get(i) != ValueT()) {
+                    return true;
+                }
+            }
+        }
+        return false;
+    }
+
     template <typename ValueT> std::size_t LimitedVector<ValueT>::getDataSize() const {
         // root block + data blocks
         return ((*m_root.getData())[0] + 1) * m_page_size;
diff --git a/src/dbzero/core/memory/SlabAllocator.cpp b/src/dbzero/core/memory/SlabAllocator.cpp
index 99b7102..040594c 100644
--- a/src/dbzero/core/memory/SlabAllocator.cpp
+++ b/src/dbzero/core/memory/SlabAllocator.cpp
@@ -212,6 +212,10 @@ namespace db0
         return m_allocs.empty();
     }
 
+    bool SlabAllocator::hasInstanceIds() const {
+        return m_alloc_counter.any();
+    }
+
     Address SlabAllocator::getAddress() const {
         return m_begin_addr;
     }
diff --git a/src/dbzero/core/memory/SlabAllocator.hpp b/src/dbzero/core/memory/SlabAllocator.hpp
index 0c9e26a..a0dab23 100644
--- a/src/dbzero/core/memory/SlabAllocator.hpp
+++ b/src/dbzero/core/memory/SlabAllocator.hpp
@@ -124,6 +124,9 @@ DB0_PACKED_END
         
         bool empty() const;
 
+        // Check if any instance ID has ever been issued by this slab
+        bool hasInstanceIds() const;
+
         /**
          * Get the slab's address
         */
diff --git a/src/dbzero/core/memory/SlabManager.cpp b/src/dbzero/core/memory/SlabManager.cpp
index 652cd74..415a29d 100644
--- a/src/dbzero/core/memory/SlabManager.cpp
+++ b/src/dbzero/core/memory/SlabManager.cpp
@@ -515,7 +515,7 @@ namespace db0
         if (cleanup) {
             while (!empty()) {
                 auto slab = openSlab(m_slab_address_func(nextSlabId() - NUM_REALMS));
-                if (!((*slab)->empty())) {
+                if (!((*slab)->empty()) || (*slab)->hasInstanceIds()) {
                     break;
                 }
                 erase(slab, false);
@@ -622,7 +622,9 @@ namespace db0
         auto slab = find(slab_id);
         assert(slab);
         (*slab)->free(address);
-        if ((*slab)->empty()) {
+        // NOTE: a slab which issued instance IDs must be retained (even if empty), otherwise its counters would be lost
+        // and after re-creating the slab the same unique addresses could be assigned again
+        if ((*slab)->empty() && !(*slab)->hasInstanceIds()) {
             // erase or mark as erased
             erase(slab);
         } else {
-- 
2.43.0


From 9f266378e747109f6a4811672fb2f51d48363040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:58 +0000
Subject: [PATCH 12/39] fix: cancelling an atomic operation kept slab
 capacities of the cancelled allocations

---
 src/dbzero/core/memory/SlabManager.cpp | 29 +++++++++++++++++++-------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/dbzero/core/memory/SlabManager.cpp b/src/dbzero/core/memory/SlabManager.cpp
index 415a29d..e7dcaec 100644
--- a/src/dbzero/core/memory/SlabManager.cpp
+++ b/src/dbzero/core/memory/SlabManager.cpp
@@ -2,6 +2,7 @@
 // Copyright (c) 2025 DBZero Software sp. z o.o.
 
 #include "SlabManager.hpp"
+#include <algorithm>
 
 namespace db0
 
@@ -369,17 +370,29 @@ namespace db0
         // rollback atomic deferred free operations
         m_atomic_deferred_free_ops.clear();
 
-        // revert all volatile slabs from cache
-        for (auto slab_addr : m_volatile_slabs) {
-            auto it = m_slabs.find(slab_addr);
-            if (it != m_slabs.end()) {
-                auto slab_item = it->second.lock();
-                if (slab_item) {
-                    slab_item->m_is_dirty = false;
+        // revert all slabs from cache
+        // NOTE: apart from the volatile slabs, the existing ones may also hold capacities
+        // resulting from the reverted operations, they need to be re-opened from the backend
+        for (auto it = m_slabs.begin(); it != m_slabs.end();) {
+            auto slab_item = it->second.lock();
+            if (slab_item) {
+                slab_item->m_is_dirty = false;
+                auto is_reserved = std::find(m_reserved_slabs.begin(), m_reserved_slabs.end(), slab_item->m_slab)
+                    != m_reserved_slabs.end();
+                if (is_reserved) {
+                    // NOTE: reserved slabs have fixed capacity and stay open
+                    ++it;
+                    continue;
+                }
+                if (m_recycler_ptr) {
+                    m_recycler_ptr->closeOne([&slab_item](const SlabItem &item) {
+                        return slab_item.get() == &item;
+                    });
                 }
-                m_slabs.erase(it);
             }
+            it = m_slabs.erase(it);
         }
+        m_dirty_slabs.clear();
         m_active_slab = {};
         m_volatile_slabs.clear();
         m_atomic = false;
-- 
2.43.0


From d3aaa6eaee0b62b311eed0b15a1a17cd43ba8e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:26 +0000
Subject: [PATCH 13/39] fix: SGB_Tree::upper_equal_bound missed items when the
 bound lies between nodes or above all node keys

---
 .../core/collections/SGB_Tree/SGB_Tree.hpp    | 22 ++++++++++---------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/dbzero/core/collections/SGB_Tree/SGB_Tree.hpp b/src/dbzero/core/collections/SGB_Tree/SGB_Tree.hpp
index 04bd5a0..9d7aed1 100644
--- a/src/dbzero/core/collections/SGB_Tree/SGB_Tree.hpp
+++ b/src/dbzero/core/collections/SGB_Tree/SGB_Tree.hpp
@@ -425,16 +425,18 @@ namespace db0
                 return { nullptr, sg_tree_const_iterator() };
             }
             auto node = super_t::upper_equal_bound(key);
-            if (node == super_t::end()) {
-                node = super_t::begin();
-            } else {
-                if (node->keyEqual(key, m_heap_comp) || node == super_t::begin()) {
-                    return { node->begin(), node };
-                }
-                // find value in the preceeding node                
-                --node;                
-            }
-            return { node->upper_equal_bound(key, m_heap_comp), node };
+            if (node != super_t::end() && (node->keyEqual(key, m_heap_comp) || node == super_t::begin())) {
+                return { node->begin(), node };
+            }
+            // find value in the preceeding node (i.e. the last one if all nodes are below the key)
+            auto prev = node;
+            --prev;
+            auto item_ptr = prev->upper_equal_bound(key, m_heap_comp);
+            if (item_ptr || node == super_t::end()) {
+                return { item_ptr, prev };
+            }
+            // all items from the preceeding node are below the key
+            return { node->begin(), node };
         }
 
         /**
-- 
2.43.0


From 31b72124a4ac776a37befe130aacdddfe052da56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:26 +0000
Subject: [PATCH 14/39] fix: SGB_CompressedLookupTree::upper_equal_bound looked
 in the last node for a key below all items

---
 .../core/collections/SGB_Tree/SGB_CompressedLookupTree.hpp   | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dbzero/core/collections/SGB_Tree/SGB_CompressedLookupTree.hpp b/src/dbzero/core/collections/SGB_Tree/SGB_CompressedLookupTree.hpp
index 8819a17..2c6444a 100644
--- a/src/dbzero/core/collections/SGB_Tree/SGB_CompressedLookupTree.hpp
+++ b/src/dbzero/core/collections/SGB_Tree/SGB_CompressedLookupTree.hpp
@@ -352,8 +352,9 @@ DB0_PACKED_END
 
             auto node = base_t::lower_equal_bound(key);
             if (node == base_t::end()) {
-                // take the last node
-                --node;                
+                // key is below all items, take the first one
+                node = base_t::begin();
+                return node->header().uncompress(*node->find_min());
             }
             
             // node will be sorted if needed (only if opened as READ/WRITE)
-- 
2.43.0


From 6521897b4d0b735d123b964005bf591ca0e1ec94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:26 +0000
Subject: [PATCH 15/39] fix: dheap::sort into another range dropped a single
 item

---
 src/dbzero/core/utils/dary_heap.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dbzero/core/utils/dary_heap.hpp b/src/dbzero/core/utils/dary_heap.hpp
index 8e5aa41..9eb2445 100644
--- a/src/dbzero/core/utils/dary_heap.hpp
+++ b/src/dbzero/core/utils/dary_heap.hpp
@@ -133,6 +133,10 @@ namespace db0::dheap
     template <int D, typename random_iterator, typename CompT, typename op = Operators<random_iterator> >
     void sort(random_iterator begin, random_iterator end, random_iterator out, CompT less) {
         if (op::sub(end, begin) < 2) {
+            if (out != end && begin != end) {
+                // a single item only needs to be moved
+                *op::add(out, -1) = *begin;
+            }
             return;
         }
         if (out == end) {
-- 
2.43.0


From 1ea4743d6243e1f905a8435d94f48fb20978c469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:30 +0000
Subject: [PATCH 16/39] fix: limiting an iterator over a sorted array or vector
 always ended it

---
 src/dbzero/core/collections/vector/joinable_const_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbzero/core/collections/vector/joinable_const_iterator.hpp b/src/dbzero/core/collections/vector/joinable_const_iterator.hpp
index 61dbd3e..5bb1965 100644
--- a/src/dbzero/core/collections/vector/joinable_const_iterator.hpp
+++ b/src/dbzero/core/collections/vector/joinable_const_iterator.hpp
@@ -248,7 +248,7 @@ namespace db0
 		template <typename T> bool limitBy(const T &key)
 		{
 			m_bound_check.limitBy(key);
-			if (isValid() && !is_end() && !m_bound_check(key)) {
+			if (isValid() && !m_bound_check(*m_current)) {
 				// render iterator as end
 				set_end();
 				return false;
-- 
2.43.0


From cebcf8a2f2fd8ce49b2f0cdbf347c10c080dd4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:13 +0000
Subject: [PATCH 17/39] fix: bulk erase emptying an index reported items which
 it did not contain as erased

---
 src/dbzero/core/collections/b_index/mb_index.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dbzero/core/collections/b_index/mb_index.hpp b/src/dbzero/core/collections/b_index/mb_index.hpp
index fe323d4..3e6c9ee 100644
--- a/src/dbzero/core/collections/b_index/mb_index.hpp
+++ b/src/dbzero/core/collections/b_index/mb_index.hpp
@@ -303,9 +303,12 @@ namespace db0
                     bindex::type type_after_erase = getIndexTypeAfterErase(key_count);
                     if (type_after_erase == bindex::type::empty) {
                         // morph to empty_index (this will erase all elements)
+						// all of the contained items get erased (NOTE: range may include other, not contained items)
+						item_t data[4];
+						const item_t *data_end = data + m_interface.copyAll(data);
                         morphToEmpty();
 						if (callback_ptr) {
-							for (auto it = begin; it != end; ++it) {
+							for (const item_t *it = data; it != data_end; ++it) {
 								(*callback_ptr)(*it);
 							}
 						}
-- 
2.43.0


From 5d52c87fb1bcca132bd2ce86a44723938c8a91fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:22 +0000
Subject: [PATCH 18/39] fix: v_sorted_vector::findOne and updateExisting
 dereferenced null when the item was missing

---
 src/dbzero/core/collections/vector/v_sorted_vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dbzero/core/collections/vector/v_sorted_vector.hpp b/src/dbzero/core/collections/vector/v_sorted_vector.hpp
index 9515d0e..ea03baf 100644
--- a/src/dbzero/core/collections/vector/v_sorted_vector.hpp
+++ b/src/dbzero/core/collections/vector/v_sorted_vector.hpp
@@ -871,7 +871,7 @@ DB0_PACKED_END
         */
         bool updateExisting(const data_t &data, data_t *old_data = nullptr)
         {
-            auto it = (*this)->find(data);
+            auto it = this->find(data);
             if (it == (*this)->end()) {
                 return false;
             }
@@ -887,7 +887,7 @@ DB0_PACKED_END
 
         bool findOne(data_t &data) const
         {
-            auto it = (*this)->find(data);
+            auto it = this->find(data);
             if (it == (*this)->end()) {
                 return false;
             }
-- 
2.43.0


From bd423edfe097eba4b6d2ce5e1b1c39ef4ca774d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:59 +0000
Subject: [PATCH 19/39] fix: iterating a block index from a key outside of the
 current block never advanced

---
 .../collections/b_index/v_bindex_joinable_const_iterator.hpp     | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dbzero/core/collections/b_index/v_bindex_joinable_const_iterator.hpp b/src/dbzero/core/collections/b_index/v_bindex_joinable_const_iterator.hpp
index 07f7ce1..61efa58 100644
--- a/src/dbzero/core/collections/b_index/v_bindex_joinable_const_iterator.hpp
+++ b/src/dbzero/core/collections/b_index/v_bindex_joinable_const_iterator.hpp
@@ -259,6 +259,7 @@ namespace db0
                     // open ping bucket / bucket iterator
                     peek_buf.reset(new data_vector(m_index_ptr->myPtr((**peek_stack)->m_data.ptr_b_data)));
                     peek_data = std::make_unique<typename data_vector::joinable_const_iterator>((*peek_buf)->beginJoin(-1));
+                    peek_data_ptr = peek_data.get();
                 } else {
                     // limit check
                     if (peek_res.second && m_bound_check.hasBound() && !m_bound_check(peek_res.first)) {
-- 
2.43.0


From a7b187dd2d3f6d46a1072bde5babbeecf88a577f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:16 +0000
Subject: [PATCH 20/39] fix: v_bvector::swapAndPop erased elements already
 moved into erased positions

---
 src/dbzero/core/collections/vector/v_bvector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dbzero/core/collections/vector/v_bvector.hpp b/src/dbzero/core/collections/vector/v_bvector.hpp
index 9d3aaaa..e6f3c43 100644
--- a/src/dbzero/core/collections/vector/v_bvector.hpp
+++ b/src/dbzero/core/collections/vector/v_bvector.hpp
@@ -351,6 +351,8 @@ DB0_PACKED_END
                         // take element from end and place it position of the one to be deleted
                         auto element = this->pop_back();
                         this->setItem(item_num, element);
+                        // the position now holds an element to be kept
+                        values.erase(item_num);
                     }
                 }
             }
-- 
2.43.0


From b9c6971ffec0fbf5b2cb5d287a2b83e494fcb9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:29 +0000
Subject: [PATCH 21/39] fix: forward join of an and-not iterator always failed

---
 src/dbzero/core/collections/full_text/FT_ANDNOTIterator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbzero/core/collections/full_text/FT_ANDNOTIterator.cpp b/src/dbzero/core/collections/full_text/FT_ANDNOTIterator.cpp
index d865aa0..8eb3a9a 100644
--- a/src/dbzero/core/collections/full_text/FT_ANDNOTIterator.cpp
+++ b/src/dbzero/core/collections/full_text/FT_ANDNOTIterator.cpp
@@ -208,7 +208,7 @@ namespace db0
     {
         if (m_direction > 0) {
             auto &it = getBaseIterator();
-            if (!it.join(join_key), 1) {
+            if (!it.join(join_key, 1)) {
                 return false;
             }
             if(!inResult(it.getKey(), 1) && !next(1)) {
-- 
2.43.0


From dc178be775e1daab7f18d64fa3684c08e438cb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:40 +0000
Subject: [PATCH 22/39] fix: peek of a conjunction asserted when the leading
 iterator itself moved

---
 src/dbzero/core/collections/full_text/FT_ANDIterator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dbzero/core/collections/full_text/FT_ANDIterator.cpp b/src/dbzero/core/collections/full_text/FT_ANDIterator.cpp
index c7ebde0..f4ccec7 100644
--- a/src/dbzero/core/collections/full_text/FT_ANDIterator.cpp
+++ b/src/dbzero/core/collections/full_text/FT_ANDIterator.cpp
@@ -160,7 +160,9 @@ namespace db0
 			if (peek_result.first < lead_key) {
 				lead_key = peek_result.first;
                 // move to front and start over
-				it = m_joinable.swapFront(it);
+                if (it != m_joinable.begin()) {
+				    it = m_joinable.swapFront(it);
+                }
 			}
 		}
 		return std::make_pair(lead_key, true);
-- 
2.43.0


From 487ffddf848cb717ad69e1d89edf8db637c747c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:53 +0000
Subject: [PATCH 23/39] fix: peek of a disjunction dereferenced null when a
 sub-iterator had ended

---
 src/dbzero/core/collections/full_text/FT_ORXIterator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dbzero/core/collections/full_text/FT_ORXIterator.cpp b/src/dbzero/core/collections/full_text/FT_ORXIterator.cpp
index 92bce2f..e76706a 100644
--- a/src/dbzero/core/collections/full_text/FT_ORXIterator.cpp
+++ b/src/dbzero/core/collections/full_text/FT_ORXIterator.cpp
@@ -240,6 +240,10 @@ namespace db0
 		std::pair<key_t,bool> ping_res;
 		ping_res.second = false;
 		for(auto it = m_joinable.begin(),itend = m_joinable.end(); it!=itend; ++it) {
+			// do not include "end" iterators
+			if ((**it).isEnd()) {
+				continue;
+			}
 			std::pair<key_t, bool> res = (**it).peek(key);
 			if (res.second) {
 				if (!ping_res.second || (res.first > ping_res.first)) {
-- 
2.43.0


From a3a3afe9e077defe30a0db69920d2c1a390b5d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:03 +0000
Subject: [PATCH 24/39] fix: backward peek of a fixed key iterator missed the
 current key

---
 src/dbzero/core/collections/full_text/FT_FixedKeyIterator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dbzero/core/collections/full_text/FT_FixedKeyIterator.cpp b/src/dbzero/core/collections/full_text/FT_FixedKeyIterator.cpp
index 1a126e3..e7cd758 100644
--- a/src/dbzero/core/collections/full_text/FT_FixedKeyIterator.cpp
+++ b/src/dbzero/core/collections/full_text/FT_FixedKeyIterator.cpp
@@ -123,7 +123,9 @@ namespace db0
     template <typename KeyT> std::pair<KeyT, bool>
     FT_FixedKeyIterator<KeyT>::peek(KeyT join_key) const
     {
-        auto result = m_keys.join(m_current, join_key, m_direction);
+        assert(!isEnd());
+        // NOTE: the upper bound is exclusive (the current key must be included)
+        auto result = m_keys.join((m_direction > 0 ? m_current : m_current + 1), join_key, m_direction);
         if (result == m_keys.end()) {
             return std::make_pair(KeyT(), false);
         } else {
-- 
2.43.0


From 6c8b0a87d16bfb843486be89e084e05fa7698500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:09 +0000
Subject: [PATCH 25/39] fix: erasing a missing item from a sorted vector index
 corrupted the vector

---
 src/dbzero/core/collections/b_index/bindex_interface.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbzero/core/collections/b_index/bindex_interface.hpp b/src/dbzero/core/collections/b_index/bindex_interface.hpp
index d40d937..24bd5c8 100644
--- a/src/dbzero/core/collections/b_index/bindex_interface.hpp
+++ b/src/dbzero/core/collections/b_index/bindex_interface.hpp
@@ -512,7 +512,7 @@ namespace db0::bindex::interface
             auto &index = *reinterpret_cast<db0::v_sorted_vector<item_t, T...>*>(this_ptr);
             auto it = index.find(item);
             // erase item if exists
-            if (it) {
+            if (it != index.end()) {
                 index.eraseItem(it);
             }
         }
-- 
2.43.0


From 2f870f669436f5c6401a65315758962aa5fe4cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:34 +0000
Subject: [PATCH 26/39] fix: merging index blocks after a conditional erase
 left full blocks which accept no insert

---
 src/dbzero/core/collections/b_index/v_bindex.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dbzero/core/collections/b_index/v_bindex.hpp b/src/dbzero/core/collections/b_index/v_bindex.hpp
index be1c2a7..7f97224 100644
--- a/src/dbzero/core/collections/b_index/v_bindex.hpp
+++ b/src/dbzero/core/collections/b_index/v_bindex.hpp
@@ -918,8 +918,10 @@ namespace db0
             data_vector data_buf(this->myPtr(it->m_data.ptr_b_data), m_item_destroy_func);
             for (auto end = m_index.end(); it_next != end;) {
                 data_vector next_buf(this->myPtr(it_next->m_data.ptr_b_data), m_item_destroy_func);
-                // merge next buf
-                if ((data_buf->m_capacity - data_buf->m_size) >= next_buf->m_size) {
+                // merge next buf (unless the merged block would be full, i.e. no longer accept inserts)
+                if ((data_buf->m_capacity - data_buf->m_size) >= next_buf->m_size
+                    && (data_buf->m_size + next_buf->m_size) < this->m_max_size) 
+                {
                     data_buf.moveSorted(std::move(next_buf));
                     m_index.erase(it_next);
                     it_next = it;
-- 
2.43.0


From 19b4928711ec72091d563843866106f10407897d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:23 +0000
Subject: [PATCH 27/39] fix: erasing items below the first range of a range
 tree accessed memory past the request

---
 src/dbzero/core/collections/range_tree/RangeTree.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/dbzero/core/collections/range_tree/RangeTree.hpp b/src/dbzero/core/collections/range_tree/RangeTree.hpp
index 67cc433..3d617c7 100644
--- a/src/dbzero/core/collections/range_tree/RangeTree.hpp
+++ b/src/dbzero/core/collections/range_tree/RangeTree.hpp
@@ -190,10 +190,10 @@ DB0_PACKED_END
                 while (begin != end && range.inUpperBound(*begin)) {
                     std::pop_heap(begin, end, CompT());
                     --end;
-                    if (!range.inLowerBound(*begin)) {
-                        // ignore the element out of bounds
-                        *(end + 1) = *_end;
-                        --_end;
+                    if (!range.inLowerBound(*end)) {
+                        // ignore the element out of bounds (such elements come first)
+                        assert(end + 1 == _end);
+                        _end = end;
                     }
                 }
                 
@@ -749,8 +749,9 @@ DB0_PACKED_END
         {
             assert(!m_index.empty());
             auto it = m_index.findLowerEqualBound(RT_Item { item });
+            // less than all other stored items
             if (it == m_index.end()) {
-                it = --m_index.end();
+                it = m_index.begin();
             }
 
             // retrieve existing range
-- 
2.43.0


From c4f7cd51b5b1a85b4c17b5d335051c33d2a96427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:02 +0000
Subject: [PATCH 28/39] fix: adding an existing null key item to a range tree
 increased its size

---
 src/dbzero/core/collections/range_tree/RangeTree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbzero/core/collections/range_tree/RangeTree.hpp b/src/dbzero/core/collections/range_tree/RangeTree.hpp
index 3d617c7..0014690 100644
--- a/src/dbzero/core/collections/range_tree/RangeTree.hpp
+++ b/src/dbzero/core/collections/range_tree/RangeTree.hpp
@@ -228,7 +228,7 @@ DB0_PACKED_END
             assert(null_block_ptr);
 
             // insert values into the null block directly
-            auto diff = null_block_ptr->bulkInsertUnique(begin, end, add_callback_ptr).first;
+            auto diff = null_block_ptr->bulkInsertUnique(begin, end, add_callback_ptr).second;
             if (diff > 0) {
                 this->modify().m_size += diff;
             }
-- 
2.43.0


From ce8790b3b28435ce93959c2a909fc91df067fc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:45 +0000
Subject: [PATCH 29/39] fix: full ranges of a range tree were split or appended
 so that ranges overlapped

---
 .../core/collections/range_tree/RangeTree.hpp | 46 +++++++++++++------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/src/dbzero/core/collections/range_tree/RangeTree.hpp b/src/dbzero/core/collections/range_tree/RangeTree.hpp
index 0014690..2bff9f0 100644
--- a/src/dbzero/core/collections/range_tree/RangeTree.hpp
+++ b/src/dbzero/core/collections/range_tree/RangeTree.hpp
@@ -163,7 +163,12 @@ DB0_PACKED_END
                         break;
                     }
                     // in case of unbound ranges (i.e. the last range) append a new one and continue
-                    range = insertRange(*begin);
+                    if (range.isBelow(*begin)) {
+                        range = insertRange(*begin);
+                    } else {
+                        // the full range must be split if the item lies inside of it
+                        range = splitRange(std::move(range));
+                    }
                 }
             }
         }
@@ -305,6 +310,17 @@ DB0_PACKED_END
                 return (m_is_first || !m_bounds.first || !(*m_bounds.first).gtByKey(item)) && (!m_bounds.second || (*m_bounds.second).gtByKey(item));
             }
             
+            // check if all existing items are less (by-key) than the given one
+            bool isBelow(ItemT item)
+            {
+                for (auto it = (*this)->begin(), end = (*this)->end(); it != end; ++it) {
+                    if (!(*it).ltByKey(item)) {
+                        return false;
+                    }
+                }
+                return true;
+            }
+            
             std::pair<std::optional<KeyT>, std::optional<KeyT> > getKeyRange() const 
             {
                 return {
@@ -371,32 +387,31 @@ DB0_PACKED_END
                 return m_bounds;
             }
 
-            // split current block
-            BlockT split()
+            // split current block, the items starting from the split point are moved to a new block
+            // @return the new block and its first item (by-key)
+            std::pair<BlockT, ItemT> split()
             {
                 // collect block items into memory
                 std::vector<ItemT> items;
                 for (auto it = m_block->begin(), end = m_block->end(); it != end; ++it) {
                     items.push_back(*it);
                 }
-                if (items.empty()) {
-                    return {};
-                }
+                assert(items.size() > 1);
 
                 // make heap by-key
                 typename ItemT::HeapCompT comp;
                 std::make_heap(items.begin(), items.end(), comp);
                 // select middle element as the split point
                 auto split_pt = *(items.begin() + items.size() / 2);
-                // erase items < split_pt from the original block
+                // erase items >= split_pt from the original block
                 std::function<bool(ItemT)> selector = [comp, split_pt](ItemT item) {
-                    return comp(split_pt, item);
+                    return !comp(split_pt, item);
                 };
 
                 (*this)->bulkErase(selector);
                 auto it = items.begin(), end = items.end();
                 while (it != end) {
-                    if (!comp(split_pt, *it)) {
+                    if (comp(split_pt, *it)) {
                         --end;
                         std::swap(*it, *end);
                     } else {
@@ -407,7 +422,7 @@ DB0_PACKED_END
                 // create new block & populate with remaining items
                 BlockT new_block(m_index_ptr->getMemspace());
                 new_block.bulkInsert(items.begin(), end);
-                return new_block;
+                return { new_block, split_pt };
             }
 
             /**
@@ -431,6 +446,7 @@ DB0_PACKED_END
                     // update the 1st item
                     if (first_item != (*m_it).m_first_item) {
                         m_it.modifyItem().m_first_item = first_item;
+                        m_bounds.first = first_item;
                     }
                 }
                 
@@ -737,8 +753,9 @@ DB0_PACKED_END
             }
 
             auto it = m_index.findLowerEqualBound(RT_Item { item });
+            // less than all other stored items
             if (it == m_index.end()) {
-                it = --m_index.end();
+                it = m_index.begin();
             }
 
             // retrieve existing range
@@ -768,10 +785,9 @@ DB0_PACKED_END
 
         RangeIterator splitRange(RangeIterator &&range)
         {
-            auto new_block = range.split();
-            m_index.insert({ new_block.front(), new_block });
-            auto it = m_index.find(RT_Item { *range.getBounds().first });
-            return { m_index, it, m_index.begin(), m_index.end(), it == m_index.begin(), true };
+            auto [new_block, first_item] = range.split();
+            m_index.insert({ first_item, new_block });
+            return getExistingRange(*range.getBounds().first);
         }
     };
 
-- 
2.43.0


From eb821447e52e5a89c4a8b9eddd468fcc9208896d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:12 +0000
Subject: [PATCH 30/39] fix: range selection ignored exclusive bounds equal to
 a range border

---
 src/dbzero/core/collections/range_tree/RT_FTIterator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dbzero/core/collections/range_tree/RT_FTIterator.hpp b/src/dbzero/core/collections/range_tree/RT_FTIterator.hpp
index fc846ac..90c4e45 100644
--- a/src/dbzero/core/collections/range_tree/RT_FTIterator.hpp
+++ b/src/dbzero/core/collections/range_tree/RT_FTIterator.hpp
@@ -53,10 +53,10 @@ namespace db0
         std::optional<KeyT> min, bool min_inclusive, std::optional<KeyT> max, bool max_inclusive, bool null_first) const
     {
         auto fullInclusion = [&](KeyT r_min, KeyT r_max) -> bool {
-            if (min && (r_min < *min)) {
+            if (min && (r_min < *min || (!min_inclusive && r_min == *min))) {
                 return false;
             }
-            if (max && r_max > *max) {
+            if (max && (r_max > *max || (!max_inclusive && r_max == *max))) {
                 return false;
             }
             return true;
-- 
2.43.0


From 9cc569ce4ac3f861e014b77437846aa6c9ed2cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:03 +0000
Subject: [PATCH 31/39] fix: sorting by two indexes dropped all items after
 leading null keys

---
 .../collections/range_tree/RT_SortIterator.hpp    | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/dbzero/core/collections/range_tree/RT_SortIterator.hpp b/src/dbzero/core/collections/range_tree/RT_SortIterator.hpp
index 7c39ddb..d245068 100644
--- a/src/dbzero/core/collections/range_tree/RT_SortIterator.hpp
+++ b/src/dbzero/core/collections/range_tree/RT_SortIterator.hpp
@@ -100,8 +100,6 @@ namespace db0
         // the optional inner-sort iterator
         std::unique_ptr<SortedIterator<ValueT> > m_inner_it;
         std::unique_ptr<SortedIterator<ValueT> > m_sorted_it;
-        // a flag indicating that m_sorted_it was created over the null block
-        bool m_sorted_null_block = false;
         
         // Create AND-joined with FT-iterator
         RT_SortIterator(const IndexBase &index, std::uint64_t uid, SharedPtrWrapper<RT_TreeT> tree_ptr, bool has_query,
@@ -258,10 +256,6 @@ namespace db0
                     if (m_sorted_it->isEnd()) {
                         m_sorted_it = nullptr;
                         m_sort_buffer.clear();
-                        if (m_sorted_null_block) {
-                            // end the iterator after completing the null block
-                            m_is_end = true;
-                        }
                     }
                     return;
                 }
@@ -273,16 +267,14 @@ namespace db0
                 }
                 
                 if (next_key_null_1) {
-                    // since the null area was reached, finish with combining the
-                    // null block and the inner sorted iterator
+                    // since the null area was reached, combine the null block and the inner sorted iterator
+                    // NOTE: other items may follow if the null items come first
+                    m_null_it = nullptr;
                     m_sorted_it = m_inner_it->beginSorted(beginNullBlockQuery());
                     if (m_sorted_it->isEnd()) {
                         // edge case when null items cannot be joined with the inner iterator
                         m_sorted_it = nullptr;
-                        m_is_end = true;
-                        return;
                     }
-                    m_sorted_null_block = true;
                     // continue with the sorted iterator
                     continue;
                 }
@@ -320,7 +312,6 @@ namespace db0
                     
                     // sort the buffer with the inner iterator
                     m_sorted_it = m_inner_it->beginSorted(std::move(inner_query));
-                    m_sorted_null_block = false;
                     // it might happen that values are not present in the inner iterator (need to be ignored)
                     if (m_sorted_it->isEnd()) {
                         m_sorted_it = nullptr;
-- 
2.43.0


From f8c25c6332f9a9116a19f754876f9001d5ab404c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:35 +0000
Subject: [PATCH 32/39] fix: a crash while appending a chunk across blocks of a
 stream made the file unusable

---
 src/dbzero/core/storage/BlockIOStream.cpp | 99 +++++++++++++++++++----
 src/dbzero/core/storage/BlockIOStream.hpp | 10 +++
 2 files changed, 93 insertions(+), 16 deletions(-)

diff --git a/src/dbzero/core/storage/BlockIOStream.cpp b/src/dbzero/core/storage/BlockIOStream.cpp
index 37a2624..f502ee0 100644
--- a/src/dbzero/core/storage/BlockIOStream.cpp
+++ b/src/dbzero/core/storage/BlockIOStream.cpp
@@ -83,6 +83,8 @@ namespace db0
         , m_temp_block_end(m_temp_buf.data() + m_temp_buf.size() - o_block_io_cs_block_header::sizeOf())
         , m_temp_block_header(o_block_io_cs_block_header::__ref(m_temp_block_end))
         , m_checksums_enabled(other.m_checksums_enabled)
+        , m_pending_block(std::move(other.m_pending_block))
+        , m_pending_address(other.m_pending_address)
     {
         other.m_closed = true;
     }
@@ -95,16 +97,23 @@ namespace db0
     {
         assert(!m_modified || write);
         // take next block from end of file
-        bool create_next_block = false;
         if (write && !m_block_header.hasNext()) {
             m_block_header.setNext(nextAddress());
-            create_next_block = true;
             assert(m_access_type == AccessType::READ_WRITE);
             m_modified = true;
         }
 
-        // flush modified block to disk
-        flushModified();
+        if (write && m_pending_block.empty()) {
+            // NOTE: this is the last block reachable from disk. The update (i.e. linking of the next block) gets
+            // postponed until flush, so that a crash never leaves an incomplete chunk or a missing block behind
+            assignChecksum();
+            m_pending_block = m_buffer;
+            m_pending_address = m_address;
+            m_modified = false;
+        } else if (m_modified) {
+            // flush modified block to disk
+            writeBlock();
+        }
 
         // try accessing the next block
         if (!m_block_header.hasNext()) {
@@ -118,7 +127,8 @@ namespace db0
             return false;
         }
 
-        if (create_next_block || !block_in_range) {
+        if (write) {
+            // NOTE: an already linked block lies past the end of the stream (e.g. not completed because of a crash)
             m_address = next_block_address;
             m_block_pos = m_block_begin;
 
@@ -129,7 +139,7 @@ namespace db0
             m_eos = true;
         } else {
             // read full block only
-            // note that block gets rejected if checksum is not correct        
+            // note that block gets rejected if checksum is not correct
             if (!readBlock(next_block_address, m_block_begin)) {
                 return false;
             }
@@ -141,20 +151,40 @@ namespace db0
         return true;
     }
     
-    bool BlockIOStream::flushModified()
+    void BlockIOStream::assignChecksum()
     {
-        if (!m_modified) {
-            return false;
-        }
-        
-        assert(m_access_type == AccessType::READ_WRITE);
         // calculate combined checksum (data + header)
         assert(m_block_header.m_next_block_address == m_cs_block_header.m_next_block_address);
         if (m_checksums_enabled) {
             m_cs_block_header.m_block_checksum = checksum(m_block_begin, m_block_end) ^ m_cs_block_header.calculateHeaderChecksum();
         }
+    }
+
+    void BlockIOStream::writeBlock()
+    {
+        assert(m_access_type == AccessType::READ_WRITE);
+        assignChecksum();
         m_file.write(m_address, m_buffer.size(), m_block_begin);
         m_modified = false;
+    }
+
+    bool BlockIOStream::flushModified()
+    {
+        if (!m_modified) {
+            assert(m_pending_block.empty());
+            return false;
+        }
+        
+        writeBlock();
+        if (!m_pending_block.empty()) {
+            if (m_checksums_enabled) {
+                // the linked blocks must be persisted first
+                m_file.flush();
+                m_file.fsync();
+            }
+            m_file.write(m_pending_address, m_pending_block.size(), m_pending_block.data());
+            m_pending_block.clear();
+        }
         return true;
     }
 
@@ -224,6 +254,8 @@ namespace db0
             // end-of-stream reached, need to call refresh to be able data appended in meantime
             return 0;
         }
+        // the chunk's position
+        auto chunk_pos = getStreamPos();
         o_block_io_chunk_header chunk_header;
         if (!peek(&chunk_header, o_block_io_chunk_header::sizeOf(), address)) {
             // end of stream (maybe process crashed when flushing?)
@@ -243,13 +275,30 @@ namespace db0
         if (buffer.size() < chunk_header.m_chunk_size) {
             buffer.resize(chunk_header.m_chunk_size);
         }
-        if (!read(buffer.data(), chunk_header.m_chunk_size)) {
+        if (m_eos || !read(buffer.data(), chunk_header.m_chunk_size)) {
+            // incomplete chunk, position before it
+            revertTo(chunk_pos);
             m_eos = true;
             return 0;
         }
         return chunk_header.m_chunk_size;
     }
     
+    void BlockIOStream::revertTo(const std::pair<std::uint64_t, std::uint64_t> &stream_pos)
+    {
+        assert(!m_modified);
+        if (m_address != stream_pos.first && !readBlock(stream_pos.first, m_block_begin)) {
+            memset(m_block_begin, 0, m_buffer.size());
+        }
+        m_address = stream_pos.first;
+        m_block_num = stream_pos.second / m_block_size;
+        m_block_pos = m_block_begin + (stream_pos.second % m_block_size);
+        if (m_access_type == AccessType::READ_WRITE) {
+            // clear the incomplete data, to be overwritten on append
+            memset(m_block_pos, 0, m_block_end - m_block_pos);
+        }
+    }
+
     bool BlockIOStream::peek(void *buffer, std::size_t size, std::uint64_t *address)
     {
         // switch to next block if at end of the current one
@@ -270,10 +319,14 @@ namespace db0
                 if (!m_block_header.hasNext()) {
                     return false;
                 }
-                if (m_file.size() < m_block_header.m_next_block_address + size) {
+                if (m_file.size() < m_block_header.m_next_block_address + m_block_size) {
+                    return false;
+                }
+                std::vector<char> next_block(m_block_size);
+                if (!readBlock(m_block_header.m_next_block_address, next_block.data())) {
                     return false;
                 }
-                m_file.read(m_block_header.m_next_block_address, size, out);
+                memcpy(out, next_block.data(), size);
                 return true;
             }
             auto len = std::min(m_block_end - pos, static_cast<std::ptrdiff_t>(size));
@@ -370,6 +423,13 @@ namespace db0
                     }
                 }            
             }
+            // the chunk or its next block might've been incomplete when last accessed, try again
+            auto stream_pos = getStreamPos();
+            m_eos = false;
+            bool has_chunk = BlockIOStream::readChunk(buffer) > 0;
+            revertTo(stream_pos);
+            m_eos = !has_chunk;
+            return has_chunk;
         }
 
         // no change, no new contents to read
@@ -424,7 +484,8 @@ namespace db0
             assert(false);
             THROWF(db0::InternalException) << "BlockIOStream::tail: Failed (must be EOS)";
         }
-        return m_address + m_block_size;
+        // NOTE: next block may already be linked (but not completed), it must not be assigned to other streams
+        return std::max(m_address, m_block_header.m_next_block_address) + m_block_size;
     }
     
     char *BlockIOStream::prepareChunk(std::size_t size, std::vector<char> &buffer) const
@@ -447,6 +508,8 @@ namespace db0
             assert(size == static_cast<std::size_t>(m_block_end - m_block_begin));
             std::memcpy(m_block_begin, buffer, size);
             m_modified = true;
+        } else if (!m_pending_block.empty() && address == m_pending_address) {
+            std::memcpy(m_pending_block.data(), buffer, size);
         } else {
             // overwrite existing block, except the next block address
             m_file.write(address, size, buffer);
@@ -458,6 +521,10 @@ namespace db0
         if (size > (m_block_size - o_block_io_block_header::sizeOf())) {
             THROWF(db0::InternalException) << "BlockIOStream::readChunk: invalid chunk size";
         }
+        if (!m_pending_block.empty() && address == m_pending_address) {
+            std::memcpy(buffer, m_pending_block.data(), size);
+            return;
+        }
         m_file.read(address, size, buffer);
     }
     
diff --git a/src/dbzero/core/storage/BlockIOStream.hpp b/src/dbzero/core/storage/BlockIOStream.hpp
index ce2a275..6445999 100644
--- a/src/dbzero/core/storage/BlockIOStream.hpp
+++ b/src/dbzero/core/storage/BlockIOStream.hpp
@@ -264,7 +264,17 @@ DB0_PACKED_END
         // temp block header only valid when m_checksums_enabled == true
         o_block_io_cs_block_header &m_temp_block_header;
         const bool m_checksums_enabled;
+        // a completed block, already linked with its (not flushed) successor, to be written last
+        std::vector<char> m_pending_block;
+        std::uint64_t m_pending_address = 0;
         
+        void assignChecksum();
+        // write the current block to disk
+        void writeBlock();
+        
+        // Move back to a position collected by getStreamPos (reading only)
+        void revertTo(const std::pair<std::uint64_t, std::uint64_t> &stream_pos);
+
         /**
          * Flush modified block to disk
          * @return true if any modifications were flushed
-- 
2.43.0


From 71eddaf73db0438d41a0f273f4a174d6122a5845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:34 +0000
Subject: [PATCH 33/39] fix: incompletely written meta log made the file
 unusable

---
 src/dbzero/core/storage/BlockIOStream.hpp |  5 ++++
 src/dbzero/core/storage/MetaIOStream.cpp  | 29 +++++++++++++++++++----
 src/dbzero/core/storage/MetaIOStream.hpp  |  1 +
 3 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/dbzero/core/storage/BlockIOStream.hpp b/src/dbzero/core/storage/BlockIOStream.hpp
index 6445999..3807910 100644
--- a/src/dbzero/core/storage/BlockIOStream.hpp
+++ b/src/dbzero/core/storage/BlockIOStream.hpp
@@ -141,6 +141,11 @@ DB0_PACKED_END
         
         void close();
         
+        // Get the stream's starting address
+        std::uint64_t head() const {
+            return m_head;
+        }
+
         /**
          * Get tail of the stream - i.e. the first address after stream's owned data
          */
diff --git a/src/dbzero/core/storage/MetaIOStream.cpp b/src/dbzero/core/storage/MetaIOStream.cpp
index 0ccbcae..d2610d3 100644
--- a/src/dbzero/core/storage/MetaIOStream.cpp
+++ b/src/dbzero/core/storage/MetaIOStream.cpp
@@ -81,14 +81,33 @@ namespace db0
         }
     }
     
+    bool MetaIOStream::isComplete(const o_meta_log &meta_log) const
+    {
+        auto &items = meta_log.getMetaItems();
+        if (items.size() != m_managed_streams.size()) {
+            return false;
+        }
+        auto it = items.begin();
+        for (auto stream_ptr: m_managed_streams) {
+            if (it->m_address < stream_ptr->head()) {
+                return false;
+            }
+            ++it;
+        }
+        return true;
+    }
+    
     const o_meta_log *MetaIOStream::readMetaLog()
     {
-        if (BlockIOStream::readChunk(m_buffer)) {
-            m_last_meta_log = &o_meta_log::__const_ref(m_buffer.data());
-            return m_last_meta_log;
-        } else {
-            return nullptr;
+        while (BlockIOStream::readChunk(m_buffer)) {
+            auto &meta_log = o_meta_log::__const_ref(m_buffer.data());
+            // NOTE: incomplete logs are ignored (no checksums here, the process might've crashed when flushing)
+            if (isComplete(meta_log)) {
+                m_last_meta_log = &meta_log;
+                return m_last_meta_log;
+            }
         }
+        return nullptr;
     }
     
     const o_meta_log *MetaIOStream::tailMetaLog()
diff --git a/src/dbzero/core/storage/MetaIOStream.hpp b/src/dbzero/core/storage/MetaIOStream.hpp
index aadc19a..29fbffd 100644
--- a/src/dbzero/core/storage/MetaIOStream.hpp
+++ b/src/dbzero/core/storage/MetaIOStream.hpp
@@ -101,6 +101,7 @@ DB0_PACKED_END
         
         // check if more than m_step_max_size bytes were appended to the managed streams
         bool checkAppend() const;
+        bool isComplete(const o_meta_log &) const;
         void appendMetaLog(StateNumType state_num, const std::vector<o_meta_item> &meta_items);
     };
     
-- 
2.43.0


From 5bbc18b66c17f59219693f235facc5740eafd671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:29 +0000
Subject: [PATCH 34/39] fix: a refreshed reader could miss changed pages or get
 stuck when the writer commits meanwhile

BDevStorage::completeRefresh consumed the DP changelog chunk following the loaded state (and so lost its page
notifications), the constructor left the stream past the loaded state or failed the consistency check when a commit
happened while opening, and chunks overwritten by a transaction in progress left the reader half-updated.
---
 src/dbzero/core/storage/BDevStorage.cpp | 92 ++++++++++++++++---------
 1 file changed, 59 insertions(+), 33 deletions(-)

diff --git a/src/dbzero/core/storage/BDevStorage.cpp b/src/dbzero/core/storage/BDevStorage.cpp
index 6fc8835..4cd9821 100644
--- a/src/dbzero/core/storage/BDevStorage.cpp
+++ b/src/dbzero/core/storage/BDevStorage.cpp
@@ -80,6 +80,24 @@ namespace db0
         // since other process might be actively modifying the underlying file
         if (m_access_type == AccessType::READ_ONLY && !m_flags.test(StorageOptions::NO_LOAD)) {
             refresh();
+            // Position the DP changelog right after the loaded state. It might be either incomplete (updated while loading)
+            // or include a more recent state, which is to be reported by one of the next refresh calls
+            auto max_state_num = m_sparse_pair.getMaxStateNum();
+            auto last_chunk_ptr = m_dp_changelog_io.getLastChangeLogChunk();
+            if (last_chunk_ptr ? last_chunk_ptr->m_state_num != max_state_num : max_state_num > 0) {
+                m_dp_changelog_io.setStreamPosHead();
+                for (;;) {
+                    auto stream_pos = m_dp_changelog_io.getStreamPos();
+                    auto chunk_ptr = m_dp_changelog_io.readChangeLogChunk();
+                    if (!chunk_ptr) {
+                        break;
+                    }
+                    if (chunk_ptr->m_state_num > max_state_num) {
+                        m_dp_changelog_io.setStreamPos(stream_pos);
+                        break;
+                    }
+                }
+            }
         }
         
         // Validate state consistency
@@ -673,7 +691,6 @@ namespace db0
         // to grab the consistent snapshot of the DRAM prefix, in such case the operation
         // needs to be retried until successful
         // WARNING: if the reader is much slower that the writer (~100x slower) then this loop might not terminate
-        bool is_consistent = true;
         // continue refreshing until all updates are retrieved to guarantee a consistent state
         do {
             // safe stream positions for rollback on file read failure
@@ -698,6 +715,7 @@ namespace db0
                 auto dram_state_num = m_dram_io.beginApplyChanges(m_dram_changelog_io);
                 if (!dram_state_num) {
                     // no updates to process
+                    m_refresh_pending = false;
                     break;
                 }
                 dram_changelog_io_pos = m_dram_changelog_io.getStreamPos();
@@ -712,16 +730,30 @@ namespace db0
                 }
                 
                 assert(dram_state_num);
-                is_consistent = m_dram_io.completeApplyChanges(*dram_state_num);
+                bool is_consistent = m_dram_io.completeApplyChanges(*dram_state_num);
                 if (!!m_ext_space && ext_dram_state_num) {
-                    is_consistent &= m_ext_dram_io->completeApplyChanges(*ext_dram_state_num);
+                    bool is_ext_consistent = m_ext_dram_io->completeApplyChanges(*ext_dram_state_num);
+                    while (!is_ext_consistent && m_ext_dram_changelog_io->refresh()) {
+                        ext_dram_state_num = m_ext_dram_io->beginApplyChanges(*m_ext_dram_changelog_io);
+                        if (!ext_dram_state_num) {
+                            break;
+                        }
+                        ext_dram_changelog_io_pos = m_ext_dram_changelog_io->getStreamPos();
+                        is_ext_consistent = m_ext_dram_io->completeApplyChanges(*ext_dram_state_num);
+                    }
                     m_ext_space.refresh();
                 }
                 
-                if (!is_consistent) {
-                    // must continue with the refresh until getting a consistent state
-                    m_dram_changelog_io.refresh();
-                    continue;
+                // NOTE: the chunks which could not be applied have been (or are being) overwritten by a more recent transaction.
+                // If it has been followed by other commits then must apply these as well, otherwise the chunks were already obsolete
+                while (!is_consistent && m_dram_changelog_io.refresh()) {
+                    auto next_state_num = m_dram_io.beginApplyChanges(m_dram_changelog_io);
+                    if (!next_state_num) {
+                        break;
+                    }
+                    dram_state_num = next_state_num;
+                    dram_changelog_io_pos = m_dram_changelog_io.getStreamPos();
+                    is_consistent = m_dram_io.completeApplyChanges(*dram_state_num);
                 }
                 
                 // refresh underlying sparse index / diff index after DRAM update
@@ -737,39 +769,33 @@ namespace db0
                 
                 // send all page-update notifications to the provided handler
                 if (on_page_updated) {
-                    StateNumType updated_state_num = 0;
                     m_dp_changelog_io.refresh();
-                    // NOTE: readers allow reading the same contents multiple times
-                    auto reader = m_dp_changelog_io.getStreamReader();
-                    // feed the reader with all available chunks, in case of IOException the stream is getting reverted
+                    // collect all available updates first, in case of IOException the stream is getting reverted
                     // this is to make the operation atomic
-                    while (auto chunk_ptr = reader.readChangeLogChunk()) {
-                        if (chunk_ptr->m_state_num == max_state_num) {
-                            // stop at the max known state number
+                    std::vector<std::pair<std::uint64_t, StateNumType> > updates;
+                    for (;;) {
+                        auto stream_pos = m_dp_changelog_io.getStreamPos();
+                        auto dp_change_log_ptr = m_dp_changelog_io.readChangeLogChunk();
+                        if (!dp_change_log_ptr) {
+                            // end of the stream reached, unless appended after its last block had been read
+                            if (m_dp_changelog_io.refresh()) {
+                                continue;
+                            }
                             break;
                         }
-                        if (chunk_ptr->m_state_num > max_state_num) {
-                            // NOTE: this critical and irrecoverable error indicates corruption of the DP changelog stream
-                            THROWF(db0::InternalException) << "Inconsistent state: DP changelog state number "
-                                << chunk_ptr->m_state_num << " exceeds max known state number " << max_state_num;   
-                        }
-                    }
-                    
-                    // reset to read all updates again
-                    reader.reset();
-                    for (;;) {
-                        auto dp_change_log_ptr = reader.readChangeLogChunk();
-                        if (!dp_change_log_ptr || dp_change_log_ptr->m_state_num > max_state_num) {
-                            // end of the stream or the max known state number reached
+                        if (dp_change_log_ptr->m_state_num > max_state_num) {
+                            // too fresh, to be retrieved by the next refresh
+                            m_dp_changelog_io.setStreamPos(stream_pos);
                             break;
                         }
-                        
-                        assert(dp_change_log_ptr->m_state_num != updated_state_num);
-                        updated_state_num = dp_change_log_ptr->m_state_num;
                         // Elements are logical page numbers (mutated in that transaction)
                         for (auto page_num: *dp_change_log_ptr) {
-                            on_page_updated(page_num, updated_state_num);                            
-                        }                        
+                            updates.emplace_back(page_num, dp_change_log_ptr->m_state_num);
+                        }
+                    }
+                    
+                    for (auto [page_num, state_num]: updates) {
+                        on_page_updated(page_num, state_num);
                     }
                 }
                 
@@ -787,7 +813,7 @@ namespace db0
             // refresh cycle complete
             m_refresh_pending = false;
         }
-        while (beginRefresh() || !is_consistent);
+        while (beginRefresh());
         return result;
     }
     
-- 
2.43.0


From 030f2ebbee9ae4bd2928d5a18b57249e6b5f4dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:29 +0000
Subject: [PATCH 35/39] fix: opening for read while the writer commits could
 load a mix of states

Index pages of the state taken from the changelog may be overwritten while they are being loaded, if further
transactions commit. DRAM_IOStream::load now starts over from the most recent state in such case.
---
 src/dbzero/core/storage/DRAM_IOStream.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/dbzero/core/storage/DRAM_IOStream.cpp b/src/dbzero/core/storage/DRAM_IOStream.cpp
index fbc28cb..38de02c 100644
--- a/src/dbzero/core/storage/DRAM_IOStream.cpp
+++ b/src/dbzero/core/storage/DRAM_IOStream.cpp
@@ -132,13 +132,26 @@ namespace db0
         if (!max_state_num) {
             max_state_num = last_chunk_ptr->m_state_num;
         }
+        if (m_access_type == AccessType::READ_ONLY) {
+            // the file might've been extended (by other process) with the chunks of the last known state
+            m_file.refresh();
+        }
         std::unordered_set<std::size_t> allocs;
         for (;;) {
             auto block_id = tellBlock();
             std::uint64_t chunk_addr;
             if (!readChunk(buffer, m_chunk_size, &chunk_addr)) {
                 // end of stream reached
-                break;
+                // NOTE: if further transactions were committed in the meantime (by other process), the pages from
+                // the last known state might've been overwritten - need to load again
+                if (m_access_type != AccessType::READ_ONLY || !changelog_io.refresh() || !changelog_io.readChangeLogChunk()) {
+                    break;
+                }
+                while (changelog_io.readChangeLogChunk());
+                max_state_num = changelog_io.getLastChangeLogChunk()->m_state_num;
+                m_file.refresh();
+                BlockIOStream::setStreamPosHead();
+                continue;
             }
 
             // make sure chunks are aligned with blocks (and one chunk per block)
-- 
2.43.0


From a18ba42854ab20670d55397eafb4ebe55da58fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:18 +0000
Subject: [PATCH 36/39] fix: tag added and removed (or removed and added)
 before a flush kept the stored state instead of the last change

---
 .../core/collections/full_text/FT_BaseIndex.hpp    | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/dbzero/core/collections/full_text/FT_BaseIndex.hpp b/src/dbzero/core/collections/full_text/FT_BaseIndex.hpp
index 4faa82d..78fefe3 100644
--- a/src/dbzero/core/collections/full_text/FT_BaseIndex.hpp
+++ b/src/dbzero/core/collections/full_text/FT_BaseIndex.hpp
@@ -238,17 +238,15 @@ namespace db0
         private:
             void _addTag(ActiveValueT value, IndexKeyT tag)
             {
-                // try un-removing the tag first
-                if (!m_remove_set.remove(tag, value)) {
-                    m_add_set.append(tag, value);
-                }
+                // NOTE: must be added even if un-removed (the value might not have the tag yet)
+                m_remove_set.remove(tag, value);
+                m_add_set.append(tag, value);
             }
 
             void _removeTag(ActiveValueT value, IndexKeyT tag) {
-                // try un-adding the tag first
-                if (!m_add_set.remove(tag, value)) {
-                    m_remove_set.append(tag, value);
-                }
+                // NOTE: must be removed even if un-added (the value might already have the tag)
+                m_add_set.remove(tag, value);
+                m_remove_set.append(tag, value);
             }         
         };
 
-- 
2.43.0


From ac06a628298492eb4739c0df6d72753caa2dd914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:06 +0000
Subject: [PATCH 37/39] fix: tag lists holding one object shared the cache key
 with the list stored at the address equal to that object's identity

---
 src/dbzero/core/collections/full_text/InvertedIndex.hpp | 5 +++++
 src/dbzero/core/memory/VObjectCache.hpp                 | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/src/dbzero/core/collections/full_text/InvertedIndex.hpp b/src/dbzero/core/collections/full_text/InvertedIndex.hpp
index 4f982dc..7c3f868 100644
--- a/src/dbzero/core/collections/full_text/InvertedIndex.hpp
+++ b/src/dbzero/core/collections/full_text/InvertedIndex.hpp
@@ -29,6 +29,11 @@ namespace db0
         // use high 4-bits for index type
         auto index_type = static_cast<db0::bindex::type>(address.getOffset() >> 60);
         auto mb_addr = Address::fromOffset(address & 0x0FFFFFFFFFFFFFFF);
+        if (index_type == db0::bindex::type::itty) {
+            // NOTE: itty holds its only element in place of the address, which must not be used as the cache key
+            // (might be equal to the address of another, memory-backed list)
+            return std::make_shared<db0::MorphingBIndex<KeyT> >(cache.getMemspace(), mb_addr, index_type);
+        }
         // NOTE: first address is for cache, the latter for MorphingBIndex
         // NOTE: MorphingBIndex does not provide detach functionality
         return cache.findOrCreate<db0::MorphingBIndex<KeyT> >(mb_addr, false, mb_addr, index_type);
diff --git a/src/dbzero/core/memory/VObjectCache.hpp b/src/dbzero/core/memory/VObjectCache.hpp
index 1da2804..d2ef3ec 100644
--- a/src/dbzero/core/memory/VObjectCache.hpp
+++ b/src/dbzero/core/memory/VObjectCache.hpp
@@ -94,6 +94,10 @@ namespace db0
         
         FixedObjectList &getSharedObjectList() const;
 
+        Memspace &getMemspace() const {
+            return m_memspace;
+        }
+
         void beginAtomic();
         void endAtomic();
         void cancelAtomic();
-- 
2.43.0


From 71931404ee97055b762746befdd13f76137bece8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:28 +0000
Subject: [PATCH 38/39] fix: names released when an atomic operation was
 cancelled were released again by the next cancellation

---
 src/dbzero/object_model/tags/TagIndex.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dbzero/object_model/tags/TagIndex.cpp b/src/dbzero/object_model/tags/TagIndex.cpp
index 8aa67cf..725b3c1 100644
--- a/src/dbzero/object_model/tags/TagIndex.cpp
+++ b/src/dbzero/object_model/tags/TagIndex.cpp
@@ -318,6 +318,7 @@ namespace db0::object_model
         for (auto tag_addr: m_inc_refed_tags) {
             m_string_pool.unRefByAddr(tag_addr);
         }
+        m_inc_refed_tags.clear();
         // NOTE: also need to clear buffers which may contain incomplete objects
         m_object_cache.clear();
         m_active_cache.clear();
-- 
2.43.0


From 9a51e4d3247d3907442817e2ee6efd055b992885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:28 +0000
Subject: [PATCH 39/39] fix: cancelling an atomic operation which added a new
 tag left a pending free of an address that is not allocated

---
 src/dbzero/workspace/Fixture.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dbzero/workspace/Fixture.cpp b/src/dbzero/workspace/Fixture.cpp
index 0f41ff3..fea9670 100644
--- a/src/dbzero/workspace/Fixture.cpp
+++ b/src/dbzero/workspace/Fixture.cpp
@@ -505,10 +505,11 @@ namespace db0
     {
         assert(m_atomic_context_ptr);
         m_atomic_context_ptr = nullptr;
-        m_meta_allocator.cancelAtomic();
-        getGC0().cancelAtomic();
         // rollback any uncommited changes
+        // NOTE: must be done before cancelling the allocator since it may release memory allocated by the atomic operation
         rollback();
+        m_meta_allocator.cancelAtomic();
+        getGC0().cancelAtomic();
         // detach owned resources
         for (auto &detach: m_detach_handlers) {
             detach();
-- 
2.43.0

