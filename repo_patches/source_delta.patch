From df8c37546d5869276cf881298c4ca5e3286497c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:38 +0000
Subject: [PATCH 01/57] fix: reject characters which aren't hex digits when
 decoding hex

---
 src/maidsafe/common/encode.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/maidsafe/common/encode.cc b/src/maidsafe/common/encode.cc
index 9667dc5..e511ece 100644
--- a/src/maidsafe/common/encode.cc
+++ b/src/maidsafe/common/encode.cc
@@ -39,6 +39,12 @@ namespace hex {
 
 namespace {
 
+unsigned char DigitValue(char digit) {
+  if ((digit < '0' || digit > '9') && (digit < 'a' || digit > 'f'))
+    BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_conversion));
+  return detail::lookup[static_cast<int>(digit)];
+}
+
 template <typename T>
 T Decode(const std::string& hex_input) {
   auto size(hex_input.size());
@@ -47,8 +53,8 @@ T Decode(const std::string& hex_input) {
 
   T non_hex_output(size / 2, 0);
   for (size_t i(0), j(0); i != size / 2; ++i) {
-    non_hex_output[i] = (detail::lookup[static_cast<int>(hex_input[j++])] << 4);
-    non_hex_output[i] |= detail::lookup[static_cast<int>(hex_input[j++])];
+    non_hex_output[i] = (DigitValue(hex_input[j++]) << 4);
+    non_hex_output[i] |= DigitValue(hex_input[j++]);
   }
   return non_hex_output;
 }
-- 
2.43.0


From aa51527d72e3b19a1503e1cd1736551b0cfae21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:02 +0000
Subject: [PATCH 02/57] fix: reject base64 text with a character after its
 padding

---
 src/maidsafe/common/encode.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/maidsafe/common/encode.cc b/src/maidsafe/common/encode.cc
index e511ece..0246d28 100644
--- a/src/maidsafe/common/encode.cc
+++ b/src/maidsafe/common/encode.cc
@@ -114,6 +114,8 @@ T Decode(const std::string& base64_input) {
             decoded_bytes.push_back((temp >> 8) & 0x000000FF);
             return decoded_bytes;
           case 2:  // Two pad characters
+            if (*(cursor + 1) != detail::pad_character)
+              BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_conversion));
             decoded_bytes.push_back((temp >> 10) & 0x000000FF);
             return decoded_bytes;
           default:
-- 
2.43.0


From 97e273b79f7e2f0fd489ad806559886e9a8b8f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:02 +0000
Subject: [PATCH 03/57] fix: use the input's length modulo 256 in SipHash's
 last block

---
 src/maidsafe/common/hash/algorithms/siphash.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maidsafe/common/hash/algorithms/siphash.cc b/src/maidsafe/common/hash/algorithms/siphash.cc
index 9bba844..e139092 100644
--- a/src/maidsafe/common/hash/algorithms/siphash.cc
+++ b/src/maidsafe/common/hash/algorithms/siphash.cc
@@ -104,7 +104,7 @@ std::uint64_t FinalizeInternal(std::uint64_t v0, std::uint64_t v1, std::uint64_t
   //
   // Compress remainder bytes
   //
-  std::uint64_t b = (static_cast<std::uint64_t>(b_in + inlen)) << 56;
+  std::uint64_t b = (static_cast<std::uint64_t>(b_in)) << 56;
 
   switch (inlen & 7) {
     case 7:
-- 
2.43.0


From ca105ecb449581cdb7ab89cf510e20fc4dc982bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:01 +0000
Subject: [PATCH 04/57] fix: refuse a worker's request to stop its own service
 even while it is being stopped

---
 include/maidsafe/common/asio_service.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/maidsafe/common/asio_service.h b/include/maidsafe/common/asio_service.h
index e99028d..ada9b53 100644
--- a/include/maidsafe/common/asio_service.h
+++ b/include/maidsafe/common/asio_service.h
@@ -46,6 +46,12 @@ class IoService {
   size_t ThreadCount() const { return thread_count_; }
 
  private:
+  // The service, if any, for which the calling thread is a worker.
+  static const IoService*& WorkerOf() {
+    static thread_local const IoService* service(nullptr);
+    return service;
+  }
+
   std::atomic<size_t> thread_count_;
   IoServiceType service_;
   std::unique_ptr<typename IoServiceType::work> work_;
@@ -69,6 +75,7 @@ IoService<IoServiceType>::IoService(size_t thread_count)
     BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
   for (size_t i(0); i != thread_count; ++i)
     threads_.emplace_back([&] {
+      WorkerOf() = this;
       try {
         service_.run();
       } catch (...) {
@@ -84,13 +91,12 @@ IoService<IoServiceType>::IoService(size_t thread_count)
 template <typename IoServiceType>
 void IoService<IoServiceType>::Stop() {
   thread_count_ = 0U;
+  // Must not wait for 'mutex_' here if this is a worker, since its holder could be joining it.
+  if (WorkerOf() == this)
+    BOOST_THROW_EXCEPTION(MakeError(CommonErrors::cannot_invoke_from_this_thread));
   std::lock_guard<std::mutex> lock{mutex_};
   if (!work_)
     return;
-  for (const auto& asio_thread : threads_) {
-    if (std::this_thread::get_id() == asio_thread.get_id())
-      BOOST_THROW_EXCEPTION(MakeError(CommonErrors::cannot_invoke_from_this_thread));
-  }
 
   work_.reset();
 
-- 
2.43.0


From ebb1c2a464cc5af827cd6c739a55b4bd3604d028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:58 +0000
Subject: [PATCH 05/57] fix: refuse text which isn't exactly 512 binary digits
 as a binary identity

---
 src/maidsafe/common/identity.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/maidsafe/common/identity.cc b/src/maidsafe/common/identity.cc
index 5c3d81c..4b7833e 100644
--- a/src/maidsafe/common/identity.cc
+++ b/src/maidsafe/common/identity.cc
@@ -96,6 +96,8 @@ std::string Encode(const Identity& id) { return Encode(id.string()); }
 
 Identity MakeIdentity(const binary::String& id) {
   try {
+    if (id->size() != 8 * identity_size)
+      BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
     std::vector<byte> raw_id(identity_size, 0);
     for (size_t i = 0; i < identity_size; ++i) {
       std::bitset<8> temp(id->substr(i * 8, 8));
-- 
2.43.0


From 77ab41e4de6dba3a3c490963643ad61347750203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:00 +0000
Subject: [PATCH 06/57] fix: don't evict from an empty LRU cache when its
 capacity is zero

---
 include/maidsafe/common/containers/lru_cache.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/maidsafe/common/containers/lru_cache.h b/include/maidsafe/common/containers/lru_cache.h
index 92fed95..8d166d7 100644
--- a/include/maidsafe/common/containers/lru_cache.h
+++ b/include/maidsafe/common/containers/lru_cache.h
@@ -98,7 +98,7 @@ class LruCacheBase {
   using Storage = typename StorageType<KeyType, T>::type;
 
   typename KeyOrder<KeyType>::iterator PrepareToAdd(const KeyType& key) {
-    if (storage_.find(key) != storage_.end())
+    if (capacity_ == 0 || storage_.find(key) != storage_.end())
       return std::end(key_order_);
     // Check if we should evict any entries because of size
     if (storage_.size() == capacity_)
-- 
2.43.0


From 54f12c49d6aac34ac6772e62c227e9673f138378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:48 +0000
Subject: [PATCH 07/57] fix: reset orphans' parents when swapping structured
 data versions

---
 src/maidsafe/common/data_types/structured_data_versions.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/maidsafe/common/data_types/structured_data_versions.cc b/src/maidsafe/common/data_types/structured_data_versions.cc
index 4b3c0a2..86e3d3b 100644
--- a/src/maidsafe/common/data_types/structured_data_versions.cc
+++ b/src/maidsafe/common/data_types/structured_data_versions.cc
@@ -757,11 +757,11 @@ void swap(StructuredDataVersions& lhs, StructuredDataVersions& rhs) MAIDSAFE_NOE
   swap(lhs.orphans_, rhs.orphans_);
   for (const auto& lhs_orphans : lhs.orphans_) {
     for (auto lhs_orphan : lhs_orphans.second)
-      lhs_orphan->second->parent == std::end(lhs.versions_);
+      lhs_orphan->second->parent = std::end(lhs.versions_);
   }
   for (const auto& rhs_orphans : rhs.orphans_) {
     for (auto rhs_orphan : rhs_orphans.second)
-      rhs_orphan->second->parent == std::end(rhs.versions_);
+      rhs_orphan->second->parent = std::end(rhs.versions_);
   }
 }
 
-- 
2.43.0


From f80c319e3f72f3e89ecf229216ae173c48558d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:48 +0000
Subject: [PATCH 08/57] fix: refuse every version which would make a circle,
 including its own parent

---
 src/maidsafe/common/data_types/structured_data_versions.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/maidsafe/common/data_types/structured_data_versions.cc b/src/maidsafe/common/data_types/structured_data_versions.cc
index 86e3d3b..7089840 100644
--- a/src/maidsafe/common/data_types/structured_data_versions.cc
+++ b/src/maidsafe/common/data_types/structured_data_versions.cc
@@ -308,7 +308,7 @@ void StructuredDataVersions::ApplyBranch(VersionName parent, VersionsItr itr,
 
 boost::optional<StructuredDataVersions::VersionName> StructuredDataVersions::Put(
     const VersionName& old_version, const VersionName& new_version) {
-  if (!new_version.id.IsInitialised())
+  if (!new_version.id.IsInitialised() || old_version == new_version)
     BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
 
   if (NewVersionPreExists(old_version, new_version))
@@ -427,11 +427,11 @@ std::future<void> StructuredDataVersions::CheckVersionNotInBranch(
   return std::async([this, itr, &version]() {
     VersionsItr versions_itr(itr);
     while (versions_itr != std::end(versions_)) {
+      if (versions_itr->first == version)
+        BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
       auto child_itr(std::begin(versions_itr->second->children));
       if (child_itr == std::end(versions_itr->second->children))
         return;
-      if ((*child_itr)->first == version)
-        BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
       std::vector<std::future<void>> check_futures;
       while (++child_itr != std::end(versions_itr->second->children))
         check_futures.emplace_back(CheckVersionNotInBranch(*child_itr, version));
-- 
2.43.0


From a81d52f9e4669ad95ca3687871c6ae243b8ec0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:48 +0000
Subject: [PATCH 09/57] fix: refuse serialised versions which have an empty
 branch

---
 src/maidsafe/common/data_types/structured_data_versions.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/maidsafe/common/data_types/structured_data_versions.cc b/src/maidsafe/common/data_types/structured_data_versions.cc
index 7089840..c9ece9b 100644
--- a/src/maidsafe/common/data_types/structured_data_versions.cc
+++ b/src/maidsafe/common/data_types/structured_data_versions.cc
@@ -180,6 +180,8 @@ void StructuredDataVersions::BranchFromCereal(
 
   // Handle first version in branch
   auto& serialised_branch(serialised_versions.branches[serialised_branch_index]);
+  if (serialised_branch.names.empty())
+    BOOST_THROW_EXCEPTION(MakeError(CommonErrors::parsing_error));
   auto forking_child_count(serialised_branch.names.front().forking_child_count);
   auto itr(HandleFirstVersionInBranchFromCereal(parent_itr, serialised_branch));
 
-- 
2.43.0


From f15b19df0d2729db31890262a1ecd16014f864b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:48 +0000
Subject: [PATCH 10/57] fix: allow serialised versions to be applied while
 there are none

---
 src/maidsafe/common/data_types/structured_data_versions.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/maidsafe/common/data_types/structured_data_versions.cc b/src/maidsafe/common/data_types/structured_data_versions.cc
index c9ece9b..65a1a78 100644
--- a/src/maidsafe/common/data_types/structured_data_versions.cc
+++ b/src/maidsafe/common/data_types/structured_data_versions.cc
@@ -283,7 +283,8 @@ void StructuredDataVersions::BranchToCereal(
 
 void StructuredDataVersions::ApplySerialised(const serialised_type& serialised_data_versions) {
   StructuredDataVersions new_info(serialised_data_versions);
-  ApplyBranch(root_.first, root_.second, new_info);
+  if (root_.second != std::end(versions_))
+    ApplyBranch(root_.first, root_.second, new_info);
   for (const auto& orphan_set : orphans_) {
     for (const auto& orphan : orphan_set.second)
       ApplyBranch(orphan_set.first, orphan, new_info);
-- 
2.43.0


From 0944b660ee0a0cd6dcaae3da79278cc2fdc70f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:15 +0000
Subject: [PATCH 11/57] fix: count branches rightly when a version becomes or
 joins the root at the limit

---
 .../common/data_types/structured_data_versions.h      |  3 +--
 .../common/data_types/structured_data_versions.cc     | 11 ++++++++---
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/maidsafe/common/data_types/structured_data_versions.h b/include/maidsafe/common/data_types/structured_data_versions.h
index 6458091..0ef790a 100644
--- a/include/maidsafe/common/data_types/structured_data_versions.h
+++ b/include/maidsafe/common/data_types/structured_data_versions.h
@@ -244,8 +244,7 @@ class StructuredDataVersions {
   void CheckForUnorphaning(Version& version, bool& unorphans_existing_root,
                            size_t& unorphan_count) const;
   std::future<void> CheckVersionNotInBranch(VersionsItr itr, const VersionName& version) const;
-  void CheckBranchCount(const Version& version, bool is_orphan, size_t unorphaned_count,
-                        bool& erase_existing_root) const;
+  void CheckBranchCount(const Version& version, bool is_orphan, bool& erase_existing_root) const;
   boost::optional<VersionName> Insert(const Version& version, bool is_root, bool is_orphan,
                                       const VersionName& old_version, bool unorphans_existing_root,
                                       size_t unorphan_count, bool erase_existing_root);
diff --git a/src/maidsafe/common/data_types/structured_data_versions.cc b/src/maidsafe/common/data_types/structured_data_versions.cc
index 65a1a78..f3927a4 100644
--- a/src/maidsafe/common/data_types/structured_data_versions.cc
+++ b/src/maidsafe/common/data_types/structured_data_versions.cc
@@ -349,7 +349,12 @@ boost::optional<StructuredDataVersions::VersionName> StructuredDataVersions::Put
   }
 
   // Handle case where we're about to exceed 'max_branches_'.
-  CheckBranchCount(version, is_orphan, unorphan_count, erase_existing_root);
+  if (is_root && AtBranchesLimit() && version.second->children.empty()) {
+    // This new version would become 'root_' and a new branch, only to be immediately erased to bring
+    // branch count back down to 'max_branches_'.
+    return boost::make_optional(new_version);
+  }
+  CheckBranchCount(version, is_orphan, erase_existing_root);
 
   // Finally, safe to now add details
   return Insert(version, is_root, is_orphan, old_version, unorphans_existing_root, unorphan_count,
@@ -446,9 +451,9 @@ std::future<void> StructuredDataVersions::CheckVersionNotInBranch(
 }
 
 void StructuredDataVersions::CheckBranchCount(const Version& version, bool is_orphan,
-                                              size_t unorphaned_count,
                                               bool& erase_existing_root) const {
-  if (AtBranchesLimit() && unorphaned_count == 0) {
+  // If 'version' already has children (un-orphaned versions or root), it doesn't add a branch.
+  if (AtBranchesLimit() && version.second->children.empty()) {
     if (is_orphan || !version.second->parent->second->children.empty()) {
       // We're going to exceed limit - see if deleting 'root_' helps
       bool root_is_tip_of_tree(root_.second != std::end(versions_) &&
-- 
2.43.0


From cf1736920c7aee09e5d7b27771944272aa33916a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:16 +0000
Subject: [PATCH 12/57] fix: choose the lowest of all orphans as the new root

---
 src/maidsafe/common/data_types/structured_data_versions.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/maidsafe/common/data_types/structured_data_versions.cc b/src/maidsafe/common/data_types/structured_data_versions.cc
index f3927a4..5a951b7 100644
--- a/src/maidsafe/common/data_types/structured_data_versions.cc
+++ b/src/maidsafe/common/data_types/structured_data_versions.cc
@@ -566,8 +566,14 @@ void StructuredDataVersions::ReplaceRoot() {
 
 void StructuredDataVersions::ReplaceRootFromOrphans() {
   assert(!orphans_.empty());
+  // Choose the lowest of all the orphans.  Each set of orphans is ordered, so only the first needs
+  // compared.
   OrphanItr orphan_itr(
       std::make_pair(std::begin(orphans_), std::begin(std::begin(orphans_)->second)));
+  for (auto itr(std::begin(orphans_)); itr != std::end(orphans_); ++itr) {
+    if ((*std::begin(itr->second))->first < (*orphan_itr.second)->first)
+      orphan_itr = std::make_pair(itr, std::begin(itr->second));
+  }
   versions_.erase(root_.second);
   root_.first = orphan_itr.first->first;
   root_.second = *orphan_itr.second;
-- 
2.43.0


From b7c26a7aef026691f76dee4da895e81819ec9038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:50 +0000
Subject: [PATCH 13/57] fix: don't keep the fork counts of a serialised form in
 restored versions

---
 src/maidsafe/common/data_types/structured_data_versions.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/maidsafe/common/data_types/structured_data_versions.cc b/src/maidsafe/common/data_types/structured_data_versions.cc
index 5a951b7..d88c509 100644
--- a/src/maidsafe/common/data_types/structured_data_versions.cc
+++ b/src/maidsafe/common/data_types/structured_data_versions.cc
@@ -237,6 +237,7 @@ StructuredDataVersions::VersionsItr StructuredDataVersions::HandleFirstVersionIn
 }
 
 StructuredDataVersions::VersionsItr StructuredDataVersions::CheckedInsert(VersionName&& version) {
+  version.forking_child_count = boost::none;  // Only used during serialisation/parsing.
   auto result(versions_.insert(std::make_pair(std::move(version), std::make_shared<Details>())));
   if (!result.second)
     BOOST_THROW_EXCEPTION(MakeError(CommonErrors::parsing_error));
-- 
2.43.0


From 4caa3685239dab717cc46f9f866c72b103b3e6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:34 +0000
Subject: [PATCH 14/57] fix: remove the files and free the space of data
 deleted by predicate from a data buffer

---
 src/maidsafe/common/data_buffer.cc | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/maidsafe/common/data_buffer.cc b/src/maidsafe/common/data_buffer.cc
index 5d1ccd1..6d8ea8a 100644
--- a/src/maidsafe/common/data_buffer.cc
+++ b/src/maidsafe/common/data_buffer.cc
@@ -293,12 +293,22 @@ void DataBuffer::Delete(std::function<bool(const KeyType&)> predicate) {
       memory_store_.cond_var.notify_all();
   }
   std::lock_guard<std::mutex> disk_store_lock(disk_store_.mutex);
-  auto before_size(disk_store_.index.size());
-  disk_store_.index.erase(
-      std::remove_if(std::begin(disk_store_.index), std::end(disk_store_.index),
-                     [&](const DiskElement& item) { return predicate(item.key); }),
-      std::end(disk_store_.index));
-  if (disk_store_.index.size() != before_size)
+  bool changed(false);
+  for (auto itr(std::begin(disk_store_.index)); itr != std::end(disk_store_.index);) {
+    if (!predicate((*itr).key)) {
+      ++itr;
+      continue;
+    }
+    changed = true;
+    if ((*itr).state == StoringState::kCompleted) {
+      RemoveFile((*itr).key, nullptr);
+      itr = disk_store_.index.erase(itr);
+    } else {
+      (*itr).state = StoringState::kCancelled;
+      ++itr;
+    }
+  }
+  if (changed)
     disk_store_.cond_var.notify_all();
 }
 
-- 
2.43.0


From d5d9ebb54beee3e069e09ee5c22436ecf9817dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:16 +0000
Subject: [PATCH 15/57] fix: don't take a replaced value for stored once the
 old one has been stored to disk

---
 src/maidsafe/common/data_buffer.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/maidsafe/common/data_buffer.cc b/src/maidsafe/common/data_buffer.cc
index 6d8ea8a..5803888 100644
--- a/src/maidsafe/common/data_buffer.cc
+++ b/src/maidsafe/common/data_buffer.cc
@@ -396,8 +396,9 @@ void DataBuffer::CopyQueueToDisk() {
       memory_store_lock.unlock();
       StoreOnDisk(key, value, std::move(disk_store_lock));
       memory_store_lock.lock();
+      // If the value was meanwhile replaced, the new one has still to be stored to disk.
       itr = Find(memory_store_, key);
-      if (itr != memory_store_.index.end())
+      if (itr != memory_store_.index.end() && (*itr).also_on_disk == StoringState::kStarted)
         (*itr).also_on_disk = StoringState::kCompleted;
     }
     memory_store_.cond_var.notify_all();
-- 
2.43.0


From 99b857a6a6af1d7c68e782638b4c78e465d3d8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:18 +0000
Subject: [PATCH 16/57] fix: cancel storing to a data buffer's disk only and
 always for the value which was deleted

---
 include/maidsafe/common/data_buffer.h | 17 +++++---
 src/maidsafe/common/data_buffer.cc    | 62 ++++++++++-----------------
 2 files changed, 33 insertions(+), 46 deletions(-)

diff --git a/include/maidsafe/common/data_buffer.h b/include/maidsafe/common/data_buffer.h
index bcac0bc..632e9b2 100644
--- a/include/maidsafe/common/data_buffer.h
+++ b/include/maidsafe/common/data_buffer.h
@@ -25,7 +25,7 @@
 #include <deque>
 #include <functional>
 #include <future>
-#include <map>
+#include <list>
 #include <mutex>
 #include <string>
 
@@ -118,11 +118,15 @@ class DataBuffer {
   using MemoryIndex = std::deque<MemoryElement>;
 
   struct DiskElement {
-    explicit DiskElement(KeyType key_in) : key(std::move(key_in)), state(StoringState::kStarted) {}
+    explicit DiskElement(KeyType key_in)
+        : key(std::move(key_in)), state(StoringState::kStarted), value_being_moved(nullptr) {}
     KeyType key;
     StoringState state;
+    // Set while waiting for space on disk.
+    const NonEmptyString* value_being_moved;
   };
-  using DiskIndex = std::deque<DiskElement>;
+  // More than one element can have the same key, but only one which isn't cancelled.
+  using DiskIndex = std::list<DiskElement>;
 
   void Init();
 
@@ -131,8 +135,8 @@ class DataBuffer {
                             std::unique_lock<std::mutex>& memory_store_lock);
   void StoreOnDisk(const KeyType& key, const NonEmptyString& value,
                    std::unique_lock<std::mutex>&& disk_store_lock);
-  void WaitForSpaceOnDisk(const KeyType& key, const NonEmptyString* const value,
-                          std::unique_lock<std::mutex>& disk_store_lock, bool& cancelled);
+  void WaitForSpaceOnDisk(DiskIndex::iterator element, const NonEmptyString& value,
+                          std::unique_lock<std::mutex>& disk_store_lock);
   void DeleteFromMemory(const KeyType& key, StoringState& also_on_disk);
   void DeleteFromDisk(const KeyType& key);
   void RemoveFile(const KeyType& key, NonEmptyString* value);
@@ -152,7 +156,7 @@ class DataBuffer {
   MemoryIndex::iterator FindMemoryRemovalCandidate(
       uint64_t required_space, std::unique_lock<std::mutex>& memory_store_lock);
 
-  DiskIndex::iterator FindStartedToStoreOnDisk(const KeyType& key);
+  DiskIndex::iterator FindNotCancelledOnDisk(const KeyType& key);
   DiskIndex::iterator FindOldestOnDisk();
 
   DiskIndex::iterator FindAndThrowIfCancelled(const KeyType& key);
@@ -164,7 +168,6 @@ class DataBuffer {
   const PopFunctor kPopFunctor_;
   const boost::filesystem::path kDiskBuffer_;
   const bool kShouldRemoveRoot_;
-  std::map<KeyType, const NonEmptyString*> elements_being_moved_to_disk_{};
   std::atomic<bool> running_{true};
   std::mutex worker_mutex_{};
   std::future<void> worker_{};
diff --git a/src/maidsafe/common/data_buffer.cc b/src/maidsafe/common/data_buffer.cc
index 5803888..0f43a28 100644
--- a/src/maidsafe/common/data_buffer.cc
+++ b/src/maidsafe/common/data_buffer.cc
@@ -174,47 +174,32 @@ void DataBuffer::StoreOnDisk(const KeyType& key, const NonEmptyString& value,
     StopRunning();
     BOOST_THROW_EXCEPTION(MakeError(CommonErrors::cannot_exceed_limit));
   }
-  disk_store_.index.emplace_back(key);
-
-  bool cancelled(false);
-  WaitForSpaceOnDisk(key, &value, disk_store_lock, cancelled);
+  auto element(disk_store_.index.emplace(std::end(disk_store_.index), key));
+  WaitForSpaceOnDisk(element, value, disk_store_lock);
   if (!running_)
     return;
 
-  if (!cancelled) {
+  if ((*element).state == StoringState::kCancelled) {
+    disk_store_.index.erase(element);
+  } else {
     if (!WriteFile(GetFilename(key), value.string())) {
       LOG(kError) << "Failed to move " << DebugKeyName(key) << " to disk.";
       StopRunning();
       BOOST_THROW_EXCEPTION(MakeError(CommonErrors::filesystem_io_error));
     }
-    auto itr(FindStartedToStoreOnDisk(key));
-    if (itr != disk_store_.index.end())
-      (*itr).state = StoringState::kCompleted;
-
+    (*element).state = StoringState::kCompleted;
     disk_store_.current.data += value.string().size();
   }
   disk_store_lock.unlock();
   disk_store_.cond_var.notify_all();
 }
 
-void DataBuffer::WaitForSpaceOnDisk(const KeyType& key, const NonEmptyString* const value,
-                                    std::unique_lock<std::mutex>& disk_store_lock,
-                                    bool& cancelled) {
-  while (!HasSpace(disk_store_, value->string().size()) && running_) {
-    auto itr(Find(disk_store_, key));
-    if (itr == disk_store_.index.end()) {
-      cancelled = true;
-      return;
-    }
-
-    if ((*itr).state == StoringState::kCancelled) {
-      disk_store_.index.erase(itr);
-      cancelled = true;
-      return;
-    }
-
+void DataBuffer::WaitForSpaceOnDisk(DiskIndex::iterator element, const NonEmptyString& value,
+                                    std::unique_lock<std::mutex>& disk_store_lock) {
+  while ((*element).state != StoringState::kCancelled &&
+         !HasSpace(disk_store_, value.string().size()) && running_) {
     if (kPopFunctor_) {
-      itr = FindOldestOnDisk();
+      auto itr(FindOldestOnDisk());
       assert((*itr).state != StoringState::kStarted);
       if ((*itr).state == StoringState::kCompleted) {
         KeyType oldest_key(itr->key);
@@ -225,12 +210,12 @@ void DataBuffer::WaitForSpaceOnDisk(const KeyType& key, const NonEmptyString* co
       }
     } else {
       // Rely on client of this class to call Delete until enough space becomes available.  Make the
-      // current value available for 'Get' (avoid 'Get' permanent blocking) by adding to
-      // 'elements_being_moved_to_disk_'.
+      // current value available for 'Get' (avoid 'Get' permanent blocking) by setting
+      // 'value_being_moved'.
       if (running_) {
-        elements_being_moved_to_disk_[key] = value;
+        (*element).value_being_moved = &value;
         disk_store_.cond_var.wait(disk_store_lock);
-        elements_being_moved_to_disk_.erase(key);
+        (*element).value_being_moved = nullptr;
       }
     }
   }
@@ -247,11 +232,10 @@ NonEmptyString DataBuffer::Get(const KeyType& key) {
   std::unique_lock<std::mutex> disk_store_lock(disk_store_.mutex);
   auto itr(FindAndThrowIfCancelled(key));
   if ((*itr).state == StoringState::kStarted) {
-    auto temp_itr(elements_being_moved_to_disk_.find(key));
-    if (temp_itr != std::end(elements_being_moved_to_disk_))
-      return *temp_itr->second;
+    if ((*itr).value_being_moved)
+      return *(*itr).value_being_moved;
     disk_store_.cond_var.wait(disk_store_lock, [this, &key]() -> bool {
-      auto itr(Find(disk_store_, key));
+      auto itr(FindNotCancelledOnDisk(key));
       return (itr == disk_store_.index.end() || (*itr).state != StoringState::kStarted);
     });
     itr = FindAndThrowIfCancelled(key);
@@ -334,7 +318,7 @@ void DataBuffer::DeleteFromMemory(const KeyType& key, StoringState& also_on_disk
 void DataBuffer::DeleteFromDisk(const KeyType& key) {
   {
     std::lock_guard<std::mutex> disk_store_lock(disk_store_.mutex);
-    auto itr(Find(disk_store_, key));
+    auto itr(FindNotCancelledOnDisk(key));
     if (itr == disk_store_.index.end()) {
       LOG(kWarning) << DebugKeyName(key) << " is not in the disk index.";
       BOOST_THROW_EXCEPTION(MakeError(CommonErrors::no_such_element));
@@ -488,18 +472,18 @@ DataBuffer::MemoryIndex::iterator DataBuffer::FindMemoryRemovalCandidate(
   return itr;
 }
 
-DataBuffer::DiskIndex::iterator DataBuffer::FindStartedToStoreOnDisk(const KeyType& key) {
+DataBuffer::DiskIndex::iterator DataBuffer::FindNotCancelledOnDisk(const KeyType& key) {
   return std::find_if(disk_store_.index.begin(), disk_store_.index.end(),
                       [&key](const DiskElement& entry) {
-    return entry.state == StoringState::kStarted && entry.key == key;
+    return entry.state != StoringState::kCancelled && entry.key == key;
   });
 }
 
 DataBuffer::DiskIndex::iterator DataBuffer::FindOldestOnDisk() { return disk_store_.index.begin(); }
 
 DataBuffer::DiskIndex::iterator DataBuffer::FindAndThrowIfCancelled(const KeyType& key) {
-  auto itr(Find(disk_store_, key));
-  if (itr == disk_store_.index.end() || (*itr).state == StoringState::kCancelled) {
+  auto itr(FindNotCancelledOnDisk(key));
+  if (itr == disk_store_.index.end()) {
     LOG(kWarning) << DebugKeyName(key) << " is not in the disk index or is cancelled.";
     BOOST_THROW_EXCEPTION(MakeError(CommonErrors::no_such_element));
   }
-- 
2.43.0


From 4dcf8b96f11d47a43d340c637ca6e290bd74c5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:58 +0000
Subject: [PATCH 17/57] fix: keep to a data buffer's disk limit when it's
 reduced to less than a waiting value's size

---
 src/maidsafe/common/data_buffer.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/maidsafe/common/data_buffer.cc b/src/maidsafe/common/data_buffer.cc
index 0f43a28..0c1b3f3 100644
--- a/src/maidsafe/common/data_buffer.cc
+++ b/src/maidsafe/common/data_buffer.cc
@@ -196,8 +196,10 @@ void DataBuffer::StoreOnDisk(const KeyType& key, const NonEmptyString& value,
 
 void DataBuffer::WaitForSpaceOnDisk(DiskIndex::iterator element, const NonEmptyString& value,
                                     std::unique_lock<std::mutex>& disk_store_lock) {
-  while ((*element).state != StoringState::kCancelled &&
-         !HasSpace(disk_store_, value.string().size()) && running_) {
+  // The limit may have been reduced to less than the size of 'value' while waiting.
+  while ((*element).state != StoringState::kCancelled && running_ &&
+         (value.string().size() > disk_store_.max ||
+          !HasSpace(disk_store_, value.string().size()))) {
     if (kPopFunctor_) {
       auto itr(FindOldestOnDisk());
       assert((*itr).state != StoringState::kStarted);
-- 
2.43.0


From adfb97fee5e8761e17d48e5f6c902f644e433f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:34 +0000
Subject: [PATCH 18/57] fix: refuse no parts or parts without a number when
 recovering shared or dispersed data

---
 src/maidsafe/common/crypto.cc | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/maidsafe/common/crypto.cc b/src/maidsafe/common/crypto.cc
index 62475c2..d2f42f3 100644
--- a/src/maidsafe/common/crypto.cc
+++ b/src/maidsafe/common/crypto.cc
@@ -53,6 +53,20 @@ void ValidateDispersalArgs(int32_t threshold, int32_t number_of_shares) {
   }
 }
 
+// Each part is prefixed with its 4-byte number.
+void ValidateParts(const DataParts& parts) {
+  if (parts.empty()) {
+    LOG(kError) << "There are no parts.";
+    BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
+  }
+  for (const auto& part : parts) {
+    if (part.size() < 4) {
+      LOG(kError) << "A part of " << part.size() << " bytes has no part number.";
+      BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
+    }
+  }
+}
+
 }  // unnamed namespace
 
 CryptoPP::RandomNumberGenerator& random_number_generator() {
@@ -192,6 +206,7 @@ DataParts SecretShareData(int32_t threshold, int32_t number_of_shares, const Pla
 }
 
 PlainText SecretRecoverData(const DataParts& parts) {
+  ValidateParts(parts);
   size_t num_to_check = parts.size();
   // Safe to subtract 4 since each piece is prefixed with a byte piece number
   auto data_size(num_to_check * parts.front().size());
@@ -248,6 +263,7 @@ DataParts InfoDisperse(int32_t threshold, int32_t number_of_shares, const PlainT
 }
 
 PlainText InfoRetrieve(const DataParts& parts) {
+  ValidateParts(parts);
   size_t num_to_check = parts.size();
   // Safe to subtract 4 since each piece is prefixed with a byte piece number
   auto data_size(num_to_check * (parts.front().size() - 4));
-- 
2.43.0


From 65d4f888ffdff0fb0f075dc527f752b026fe3281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:47 +0000
Subject: [PATCH 19/57] fix: don't read past a signature when checking a file
 with a public key of another size

---
 src/maidsafe/common/rsa.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/maidsafe/common/rsa.cc b/src/maidsafe/common/rsa.cc
index a414648..fa50fed 100644
--- a/src/maidsafe/common/rsa.cc
+++ b/src/maidsafe/common/rsa.cc
@@ -198,6 +198,10 @@ bool CheckFileSignature(const boost::filesystem::path& filename, const Signature
   }
 
   CryptoPP::RSASS<CryptoPP::PSS, CryptoPP::SHA512>::Verifier verifier(public_key);
+  if (signature.size() != verifier.SignatureLength()) {
+    LOG(kError) << "CheckFileSignature signature isn't of the public_key's size";
+    return false;
+  }
   try {
     auto verifier_filter = new CryptoPP::VerifierFilter(verifier);
     verifier_filter->Put(signature.data(), verifier.SignatureLength());
-- 
2.43.0


From 840a7e137e39be1bcc2d788861c6c30fbb71ad6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:53 +0000
Subject: [PATCH 20/57] fix: recover shared or dispersed data which ends like
 its padding

---
 src/maidsafe/common/crypto.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/maidsafe/common/crypto.cc b/src/maidsafe/common/crypto.cc
index d2f42f3..7f71979 100644
--- a/src/maidsafe/common/crypto.cc
+++ b/src/maidsafe/common/crypto.cc
@@ -67,6 +67,14 @@ void ValidateParts(const DataParts& parts) {
   }
 }
 
+// Takes off the padding, a one and any number of zeros.  This isn't left to CryptoPP, which fails to
+// do so if the data itself ends in a one and any number of zeros.
+void RemovePadding(std::vector<byte>& data) {
+  auto last(std::find_if(data.rbegin(), data.rend(), [](byte b) { return b != 0; }));
+  if (last != data.rend() && *last == 1)
+    data.erase(last.base() - 1, data.end());
+}
+
 }  // unnamed namespace
 
 CryptoPP::RandomNumberGenerator& random_number_generator() {
@@ -213,7 +221,7 @@ PlainText SecretRecoverData(const DataParts& parts) {
   std::vector<byte> data(data_size);
 
   auto array_sink = new CryptoPP::ArraySink(data.data(), data_size);
-  CryptoPP::SecretRecovery recovery(static_cast<int>(num_to_check), array_sink);
+  CryptoPP::SecretRecovery recovery(static_cast<int>(num_to_check), array_sink, false);
   CryptoPP::vector_member_ptrs<CryptoPP::ArraySource> array_sources(num_to_check);
   CryptoPP::vector_member_ptrs<CryptoPP::StringSource> string_sources(num_to_check);
   CryptoPP::SecByteBlock channel(4);
@@ -230,6 +238,7 @@ PlainText SecretRecoverData(const DataParts& parts) {
     array_sources[i]->PumpAll();
 
   data.resize(array_sink->TotalPutLength());
+  RemovePadding(data);
   return PlainText(std::move(data));
 }
 
@@ -270,7 +279,7 @@ PlainText InfoRetrieve(const DataParts& parts) {
   std::vector<byte> data(data_size);
 
   auto array_sink = new CryptoPP::ArraySink(data.data(), data_size);
-  CryptoPP::InformationRecovery recovery(static_cast<int>(num_to_check), array_sink);
+  CryptoPP::InformationRecovery recovery(static_cast<int>(num_to_check), array_sink, false);
   CryptoPP::vector_member_ptrs<CryptoPP::ArraySource> array_sources(num_to_check);
   CryptoPP::SecByteBlock channel(4);
 
@@ -286,6 +295,7 @@ PlainText InfoRetrieve(const DataParts& parts) {
     array_sources[i]->PumpAll();
 
   data.resize(array_sink->TotalPutLength());
+  RemovePadding(data);
   return PlainText(std::move(data));
 }
 
-- 
2.43.0


From 15ca9f629ee2ca18ce04ad696bda71fb56273b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:24 +0000
Subject: [PATCH 21/57] fix: don't remove anything from a secure input string
 when asked to remove too much

---
 .../common/authentication/detail/secure_string.h         | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/maidsafe/common/authentication/detail/secure_string.h b/include/maidsafe/common/authentication/detail/secure_string.h
index 0283e19..771897e 100644
--- a/include/maidsafe/common/authentication/detail/secure_string.h
+++ b/include/maidsafe/common/authentication/detail/secure_string.h
@@ -19,6 +19,7 @@
 #ifndef MAIDSAFE_COMMON_AUTHENTICATION_DETAIL_SECURE_STRING_H_
 #define MAIDSAFE_COMMON_AUTHENTICATION_DETAIL_SECURE_STRING_H_
 
+#include <iterator>
 #include <string>
 #include <map>
 #include <functional>
@@ -186,11 +187,9 @@ void SecureInputString<Predicate, Size, Tag>::Remove(size_type position, size_ty
   auto it(encrypted_chars_.find(position));
   if (it == encrypted_chars_.end() || length == 0)
     BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
-  while (length != 0) {
-    it = encrypted_chars_.erase(it);
-    if ((length -= 1 != 0) && it == encrypted_chars_.end())
-      BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
-  }
+  if (length > static_cast<size_type>(std::distance(it, encrypted_chars_.end())))
+    BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
+  it = encrypted_chars_.erase(it, std::next(it, length));
   while (it != encrypted_chars_.end()) {
     auto encrypted_char = it->second;
     it = encrypted_chars_.erase(it);
-- 
2.43.0


From 3beac944aed20bf20be78f9e60f58cd7439a359f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:20 +0000
Subject: [PATCH 22/57] fix: refuse a flyweight serialised with the id of a
 null pointer

---
 include/maidsafe/common/serialisation/types/boost_flyweight.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/maidsafe/common/serialisation/types/boost_flyweight.h b/include/maidsafe/common/serialisation/types/boost_flyweight.h
index d611b71..5fddee6 100644
--- a/include/maidsafe/common/serialisation/types/boost_flyweight.h
+++ b/include/maidsafe/common/serialisation/types/boost_flyweight.h
@@ -19,7 +19,6 @@
 #ifndef MAIDSAFE_COMMON_SERIALISATION_TYPES_BOOST_FLYWEIGHT_H_
 #define MAIDSAFE_COMMON_SERIALISATION_TYPES_BOOST_FLYWEIGHT_H_
 
-#include <cassert>
 #include <memory>
 
 #ifdef _MSC_VER
@@ -69,7 +68,8 @@ void CEREAL_LOAD_FUNCTION_NAME(Archive& archive, boost::flyweight<Type, Params..
     ptr = std::static_pointer_cast<Helper>(archive.getSharedPointer(id));
   }
 
-  assert(ptr != nullptr);
+  if (!ptr)
+    throw Exception("Failed to read a flyweight with the id of a null pointer");
   flyweight = ptr->value;
 }
 
-- 
2.43.0


From 2737bb87f870f31803c33c23eb93734fe24c6ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:47 +0000
Subject: [PATCH 23/57] fix: bind an empty blob as an empty blob, not as NULL

---
 src/maidsafe/common/sqlite3_wrapper.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/maidsafe/common/sqlite3_wrapper.cc b/src/maidsafe/common/sqlite3_wrapper.cc
index 1e34bfd..6422ebf 100644
--- a/src/maidsafe/common/sqlite3_wrapper.cc
+++ b/src/maidsafe/common/sqlite3_wrapper.cc
@@ -168,7 +168,9 @@ void Statement::BindText(int row_index, const std::string& text) {
 
 void Statement::BindBlob(int row_index, const SerialisedData& blob) {
   assert(blob.size() < std::numeric_limits<int>::max());
-  auto return_value = sqlite3_bind_blob(statement, row_index, &blob[0],
+  // A null pointer would bind NULL rather than an empty blob.
+  auto return_value = sqlite3_bind_blob(statement, row_index, blob.empty() ? "" :
+                                        static_cast<const void*>(blob.data()),
                                         static_cast<int>(blob.size()),
                                         reinterpret_cast<sqlite3_destructor_type>(-1));
                                         // SQLITE_TRANSIENT macro replaced with C++ cast
-- 
2.43.0


From 8d8a3cccc7d08774bfff38f64e2050e367c9687e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:03 +0000
Subject: [PATCH 24/57] fix: initialise a transaction as not committed

---
 src/maidsafe/common/sqlite3_wrapper.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/maidsafe/common/sqlite3_wrapper.cc b/src/maidsafe/common/sqlite3_wrapper.cc
index 6422ebf..82cea67 100644
--- a/src/maidsafe/common/sqlite3_wrapper.cc
+++ b/src/maidsafe/common/sqlite3_wrapper.cc
@@ -61,7 +61,8 @@ void Database::CheckPoint() {
 }
 
 
-Transaction::Transaction(Database& database_in) : kAttempts(200), database(database_in) {
+Transaction::Transaction(Database& database_in)
+    : kAttempts(200), committed(false), database(database_in) {
   std::string query("BEGIN IMMEDIATE TRANSACTION");  // immediate or exclusive transaction
   for (int i(0); i != kAttempts; ++i) {
     try {
-- 
2.43.0


From 33d08c18600369be6069d25e5f08e9476318ea80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:19 +0000
Subject: [PATCH 25/57] fix: recognise hosts without IPv6, so that TCP falls
 back to IPv4

---
 src/maidsafe/common/tcp/connection.cc | 3 +--
 src/maidsafe/common/tcp/listener.cc   | 3 ++-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/maidsafe/common/tcp/connection.cc b/src/maidsafe/common/tcp/connection.cc
index 34f195e..c53c0cd 100644
--- a/src/maidsafe/common/tcp/connection.cc
+++ b/src/maidsafe/common/tcp/connection.cc
@@ -61,8 +61,7 @@ Connection::Connection(asio::io_service::strand& strand, Port remote_port)
   std::error_code connect_error;
   // Try IPv6 first.
   socket_.connect(ip::tcp::endpoint{ip::address_v6::loopback(), remote_port}, connect_error);
-  if (connect_error &&
-      connect_error == std::make_error_code(std::errc::address_family_not_supported)) {
+  if (connect_error == asio::error::address_family_not_supported) {
     // Try IPv4 now.
     socket_.connect(ip::tcp::endpoint{ip::address_v4::loopback(), remote_port}, connect_error);
   }
diff --git a/src/maidsafe/common/tcp/listener.cc b/src/maidsafe/common/tcp/listener.cc
index 4468c5f..8755884 100644
--- a/src/maidsafe/common/tcp/listener.cc
+++ b/src/maidsafe/common/tcp/listener.cc
@@ -21,6 +21,7 @@
 #include <condition_variable>
 #include <limits>
 
+#include "asio/error.hpp"
 #include "asio/post.hpp"
 #include "asio/wrap.hpp"
 
@@ -78,7 +79,7 @@ void Listener::DoStartListening(Port port) {
   try {
     acceptor_.open(endpoint.protocol());
   } catch (const std::system_error& error) {
-    if (error.code() == std::make_error_code(std::errc::address_family_not_supported)) {
+    if (error.code() == asio::error::address_family_not_supported) {
       // Try IPv4 now.
       endpoint = asio::ip::tcp::endpoint{asio::ip::address_v4::loopback(), port};
       acceptor_.open(endpoint.protocol());
-- 
2.43.0


From 52806dc58f0cefd69f359fc3f67d47d05b9f8838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:30 +0000
Subject: [PATCH 26/57] fix: read the size of a TCP message on the connection's
 strand

---
 src/maidsafe/common/tcp/connection.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/maidsafe/common/tcp/connection.cc b/src/maidsafe/common/tcp/connection.cc
index c53c0cd..2edc426 100644
--- a/src/maidsafe/common/tcp/connection.cc
+++ b/src/maidsafe/common/tcp/connection.cc
@@ -109,7 +109,7 @@ void Connection::DoClose() {
 void Connection::ReadSize() {
   ConnectionPtr this_ptr{shared_from_this()};
   asio::async_read(socket_, asio::buffer(receiving_message_.size_buffer),
-                   [this_ptr](const std::error_code& ec, size_t bytes_transferred) {
+                   strand_.wrap([this_ptr](const std::error_code& ec, size_t bytes_transferred) {
     if (ec) {
       LOG(kInfo) << ec.message();
       return this_ptr->DoClose();
@@ -133,7 +133,7 @@ void Connection::ReadSize() {
 
     this_ptr->receiving_message_.data_buffer.resize(data_size);
     this_ptr->ReadData();
-  });
+  }));
 }
 
 void Connection::ReadData() {
-- 
2.43.0


From f599f621c17f8334cfef86c06a0429c78395ec9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:30 +0000
Subject: [PATCH 27/57] fix: stop listening on the listener's strand, keeping
 the listener alive until then

---
 src/maidsafe/common/tcp/listener.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/maidsafe/common/tcp/listener.cc b/src/maidsafe/common/tcp/listener.cc
index 8755884..ab5f0a7 100644
--- a/src/maidsafe/common/tcp/listener.cc
+++ b/src/maidsafe/common/tcp/listener.cc
@@ -132,7 +132,8 @@ void Listener::HandleAccept(ConnectionPtr accepted_connection, const std::error_
 }
 
 void Listener::StopListening() {
-  asio::post(strand_.context().get_executor(), [this] { DoStopListening(); });
+  ListenerPtr this_ptr{shared_from_this()};
+  asio::post(strand_, [this_ptr] { this_ptr->DoStopListening(); });
 }
 
 void Listener::DoStopListening() {
-- 
2.43.0


From 992779046ce8f8b10c3ad8b7b0d6c72f01af156f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:55 +0000
Subject: [PATCH 28/57] fix: refuse to read more items from shared memory than
 there are

---
 src/maidsafe/common/ipc.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/maidsafe/common/ipc.cc b/src/maidsafe/common/ipc.cc
index 98a2922..f257ece 100644
--- a/src/maidsafe/common/ipc.cc
+++ b/src/maidsafe/common/ipc.cc
@@ -19,6 +19,7 @@
 #include "maidsafe/common/ipc.h"
 
 #include "maidsafe/common/encode.h"
+#include "maidsafe/common/error.h"
 #include "maidsafe/common/utils.h"
 
 namespace maidsafe {
@@ -53,6 +54,8 @@ std::vector<std::string> ReadSharedMemory(std::string name_in, int number) {
   std::vector<std::string> ret_vec;
   for (int i(0); i < number; ++i) {
     auto res = segment.find<bi_string>(std::to_string(i).c_str());
+    if (!res.first)
+      BOOST_THROW_EXCEPTION(MakeError(CommonErrors::no_such_element));
     ret_vec.push_back(hex::DecodeToString(std::string(res.first->c_str(), res.first->size())));
   }
   return ret_vec;
-- 
2.43.0


From 004804b3980a5af0170e6b05b315cd10b3649b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:29 +0000
Subject: [PATCH 29/57] fix: don't go to the parent of a top-level menu without
 items

---
 src/maidsafe/common/menu.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maidsafe/common/menu.cc b/src/maidsafe/common/menu.cc
index c531e8e..d4c37a3 100644
--- a/src/maidsafe/common/menu.cc
+++ b/src/maidsafe/common/menu.cc
@@ -46,7 +46,7 @@ int Menu::Run() {
       if (clear_cli) {
         cli_.Clear();
         clear_cli = false;
-        if (current_item_->HasNoChildren())
+        if (current_item_->HasNoChildren() && current_item_->kParent_)
           current_item_ = current_item_->kParent_;
         ShowOptions();
       }
-- 
2.43.0


From 4966072fa934a0a66a6b64b5ae1ea2df2edb40cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:29 +0000
Subject: [PATCH 30/57] fix: end a menu at the end of input instead of asking
 for ever

---
 src/maidsafe/common/menu.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/maidsafe/common/menu.cc b/src/maidsafe/common/menu.cc
index d4c37a3..d72aabe 100644
--- a/src/maidsafe/common/menu.cc
+++ b/src/maidsafe/common/menu.cc
@@ -60,6 +60,8 @@ int Menu::Run() {
           current_item_ = current_item_->Child(result - 1);
         }
       } catch (const std::exception&) {
+        if (!std::cin)  // end of input
+          throw;
         TLOG(kYellow) << "Invalid choice\n";
         continue;
       }
-- 
2.43.0


From 5809214498301dc01b58f06f9b7596c1981235aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:26 +0000
Subject: [PATCH 31/57] fix: report failing to write a file

---
 src/maidsafe/common/utils.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/maidsafe/common/utils.cc b/src/maidsafe/common/utils.cc
index dd98c7d..92889bf 100644
--- a/src/maidsafe/common/utils.cc
+++ b/src/maidsafe/common/utils.cc
@@ -338,6 +338,10 @@ bool WriteFile(const boost::filesystem::path& file_path, const std::vector<byte>
     }
     file_out.write(reinterpret_cast<const char*>(content.data()), content.size());
     file_out.close();
+    if (!file_out) {
+      LOG(kError) << "Failed to write file " << file_path;
+      return false;
+    }
   } catch (const std::exception& e) {
     LOG(kError) << "Failed to write file " << file_path << ": " << boost::diagnostic_information(e);
     return false;
-- 
2.43.0


From 9da4ad2de7a3b0f9f230bd62e7e64007e5ae58c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:26 +0000
Subject: [PATCH 32/57] fix: report failing to read a file fully

---
 src/maidsafe/common/utils.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/maidsafe/common/utils.cc b/src/maidsafe/common/utils.cc
index 92889bf..5071b23 100644
--- a/src/maidsafe/common/utils.cc
+++ b/src/maidsafe/common/utils.cc
@@ -315,6 +315,10 @@ boost::expected<std::vector<byte>, common_error> ReadFile(const fs::path& file_p
 
     std::ifstream file_in(file_path.c_str(), std::ios::in | std::ios::binary);
     file_in.read(reinterpret_cast<char*>(&file_content[0]), file_size);
+    if (!file_in) {
+      LOG(kError) << "Failed to read file " << file_path;
+      return boost::make_unexpected(MakeError(CommonErrors::filesystem_io_error));
+    }
     file_in.close();
     return file_content;
   }
-- 
2.43.0


From 703a7cba497bc4b3718597ad2ae87d3697df1873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:26 +0000
Subject: [PATCH 33/57] fix: refuse data file names without exactly a type's
 number

---
 src/maidsafe/common/utils.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/maidsafe/common/utils.cc b/src/maidsafe/common/utils.cc
index 5071b23..8f0e9e6 100644
--- a/src/maidsafe/common/utils.cc
+++ b/src/maidsafe/common/utils.cc
@@ -184,7 +184,14 @@ fs::path GetFileName(const Data::NameAndTypeId& name_and_type_id) {
 Data::NameAndTypeId GetDataNameAndTypeId(const boost::filesystem::path& file_name) {
   std::string file_name_str(file_name.string());
   size_t index(file_name_str.rfind('_'));
-  auto type_id(static_cast<DataTypeId>(std::stoul(file_name_str.substr(index + 1))));
+  if (index == std::string::npos ||
+      file_name_str.find_first_not_of("0123456789", index + 1) != std::string::npos) {
+    BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
+  }
+  auto type_id_value(std::stoull(file_name_str.substr(index + 1)));
+  if (type_id_value > std::numeric_limits<std::uint32_t>::max())
+    BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
+  DataTypeId type_id(static_cast<std::uint32_t>(type_id_value));
   Identity name(hex::DecodeToBytes(file_name_str.substr(0, index)));
   return Data::NameAndTypeId(std::move(name), type_id);
 }
-- 
2.43.0


From c32dbef50c25f55ab8d135f88b8cea361bf5abfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:10 +0000
Subject: [PATCH 34/57] fix: refuse versions with anything but three numbers
 and two dots

---
 src/maidsafe/common/utils.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/maidsafe/common/utils.cc b/src/maidsafe/common/utils.cc
index 8f0e9e6..d9fe43e 100644
--- a/src/maidsafe/common/utils.cc
+++ b/src/maidsafe/common/utils.cc
@@ -219,6 +219,12 @@ asio::ip::address GetLocalIp(asio::ip::udp::endpoint peer_endpoint) {
 }
 
 int VersionToInt(const std::string& version) {
+  if (version.find_first_not_of("0123456789.") != std::string::npos ||
+      std::count(version.begin(), version.end(), '.') != 2) {
+    LOG(kWarning) << "Invalid version " << version;
+    return kInvalidVersion;
+  }
+
   boost::tokenizer<boost::char_separator<char>> tokens(version, boost::char_separator<char>("."));
   if (std::distance(tokens.begin(), tokens.end()) != 3)
     return kInvalidVersion;
-- 
2.43.0


From 6676a9aa73ed00dfa5af5e4064661d200f357594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:29 +0000
Subject: [PATCH 35/57] fix: refuse major versions which are too large instead
 of cutting them

---
 src/maidsafe/common/utils.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/maidsafe/common/utils.cc b/src/maidsafe/common/utils.cc
index d9fe43e..a9b99fc 100644
--- a/src/maidsafe/common/utils.cc
+++ b/src/maidsafe/common/utils.cc
@@ -231,9 +231,14 @@ int VersionToInt(const std::string& version) {
 
   auto itr(tokens.begin());
 
-  int16_t major_version(0), minor_version(0), patch_level(0);
+  int major_version(0);
+  int16_t minor_version(0), patch_level(0);
   try {
-    major_version = static_cast<int16_t>(std::stoi(*(itr++)));
+    major_version = std::stoi(*(itr++));
+    if (major_version > std::numeric_limits<int16_t>::max()) {
+      LOG(kWarning) << "Invalid major version " << version;
+      return kInvalidVersion;
+    }
 
     minor_version = static_cast<int16_t>(std::stoi(*itr));
     if ((*itr++).size() != 1U) {
-- 
2.43.0


From 898cce80113e5f3b6ffcaa669adfd07f58f92bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:03 +0000
Subject: [PATCH 36/57] fix: accept profiled files whose path ends with
 'maidsafe'

---
 src/maidsafe/common/profiler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maidsafe/common/profiler.cc b/src/maidsafe/common/profiler.cc
index 1487146..53fd81c 100644
--- a/src/maidsafe/common/profiler.cc
+++ b/src/maidsafe/common/profiler.cc
@@ -37,7 +37,7 @@ std::string LocationToString(const ProfileEntry::Location& location) {
   auto result(location.file);
   boost::replace_all(result, "\\", "/");
   size_t position(result.rfind("maidsafe"));
-  if (position != std::string::npos && position != 0)
+  if (position != std::string::npos && position != 0 && position + 9 <= result.size())
     result = result.substr(position + 9);
   result += ":" + std::to_string(location.line) + "] " + location.function;
   return result;
-- 
2.43.0


From 7616656e34f9f5dcd95dc887f836553ec76e7c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:41 +0000
Subject: [PATCH 37/57] fix: make room for durations of 100 million seconds and
 more

---
 src/maidsafe/common/profiler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maidsafe/common/profiler.cc b/src/maidsafe/common/profiler.cc
index 53fd81c..1b0011e 100644
--- a/src/maidsafe/common/profiler.cc
+++ b/src/maidsafe/common/profiler.cc
@@ -46,7 +46,7 @@ std::string LocationToString(const ProfileEntry::Location& location) {
 std::string DurationToString(const std::chrono::high_resolution_clock::duration& duration) {
   long long nanos(  // NOLINT
       std::chrono::duration_cast<std::chrono::nanoseconds>(duration).count());
-  std::vector<char> buffer(21, 0);
+  std::vector<char> buffer(32, 0);
   std::sprintf(&buffer[0], "%8lli.%09lli s", nanos / 1000000000, nanos % 1000000000);  // NOLINT
   return std::string(&buffer[0]);
 }
-- 
2.43.0


From e6683c1540bab04c30bd3ec6bcf95067953f8596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:38 +0000
Subject: [PATCH 38/57] fix: keep the program in a command line if it is quoted
 already

---
 src/maidsafe/common/process.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/maidsafe/common/process.cc b/src/maidsafe/common/process.cc
index 5f234f4..30233d2 100644
--- a/src/maidsafe/common/process.cc
+++ b/src/maidsafe/common/process.cc
@@ -42,6 +42,8 @@ std::string ConcatenateArgs(const std::vector<std::string>& args) {
     // contains spaces.
     if (args[0].front() != '"')
       result = '"' + args[0] + "\" ";
+    else
+      result = args[0] + ' ';
 
     result += std::accumulate(std::begin(args) + 1, std::end(args), std::string(""),
                               [](const std::string& lhs, const std::string& rhs) {
-- 
2.43.0


From 7c8db3375ff112365de5b6a1584acbee23e5c587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:38 +0000
Subject: [PATCH 39/57] fix: deduce the home directory of users who are unknown
 or have no HOME set

---
 include/maidsafe/common/application_support_directories.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/maidsafe/common/application_support_directories.h b/include/maidsafe/common/application_support_directories.h
index cc6af9e..5136971 100644
--- a/include/maidsafe/common/application_support_directories.h
+++ b/include/maidsafe/common/application_support_directories.h
@@ -56,11 +56,11 @@ inline boost::filesystem::path GetHomeDir() {
     return boost::filesystem::path(env_home_drive + env_home2);
 #elif defined(MAIDSAFE_APPLE) || defined(MAIDSAFE_LINUX)
   struct passwd* p = getpwuid(getuid());  // NOLINT (dirvine)
-  std::string home(p->pw_dir);
+  std::string home(p && p->pw_dir ? p->pw_dir : "");
   if (!home.empty())
     return boost::filesystem::path(home);
-  std::string env_home(std::getenv("HOME"));
-  if (!env_home.empty())
+  const char* env_home(std::getenv("HOME"));
+  if (env_home && *env_home)
     return boost::filesystem::path(env_home);
 #endif
   LOG(kError) << "Cannot deduce home directory path";
-- 
2.43.0


From 13b50d780dfb4d61789c822e8c150e3ea064e98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:38 +0000
Subject: [PATCH 40/57] fix: fall back to argv[0] if the executable's path
 can't be read

---
 src/maidsafe/common/config.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/maidsafe/common/config.cc b/src/maidsafe/common/config.cc
index 640d45b..f1e14ee 100644
--- a/src/maidsafe/common/config.cc
+++ b/src/maidsafe/common/config.cc
@@ -72,8 +72,8 @@ void SetThisExecutablePath(const char* const argv[]) {
 #endif
 #ifdef __linux__
     char buffer[PATH_MAX];
-    size_t len = 0;
-    if ((len = readlink("/proc/self/exe", buffer, sizeof(buffer))) > 0) {
+    ssize_t len = 0;
+    if ((len = readlink("/proc/self/exe", buffer, sizeof(buffer) - 1)) > 0) {
       buffer[len] = 0;
       path = buffer;
     }
-- 
2.43.0


From d1baa85bbc85b29b7564c151a16854259ab58ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:40 +0000
Subject: [PATCH 41/57] fix: pad the nanoseconds of logged times, so that they
 read as a fraction of a second

---
 src/maidsafe/common/log.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/maidsafe/common/log.cc b/src/maidsafe/common/log.cc
index 4567ba9..63a4c3b 100644
--- a/src/maidsafe/common/log.cc
+++ b/src/maidsafe/common/log.cc
@@ -424,8 +424,9 @@ std::string GetTime() {
   std::time_t now_t(std::chrono::system_clock::to_time_t(
       std::chrono::system_clock::time_point(seconds_since_epoch)));
 
-  return Strftime<time_type>(&now_t) +
-         std::to_string((now.time_since_epoch() - seconds_since_epoch).count());
+  auto nanoseconds(std::to_string(std::chrono::duration_cast<std::chrono::nanoseconds>(
+                                      now.time_since_epoch() - seconds_since_epoch).count()));
+  return Strftime<time_type>(&now_t) + std::string(9 - nanoseconds.size(), '0') + nanoseconds;
 }
 
 }  // unnamed namespace
-- 
2.43.0


From 36ff453e552f5e0e1c39aa4db84f407d7691faa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:40 +0000
Subject: [PATCH 42/57] fix: send log messages inline if there is no background
 thread to send them to

---
 src/maidsafe/common/log.cc | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/maidsafe/common/log.cc b/src/maidsafe/common/log.cc
index 63a4c3b..92556d9 100644
--- a/src/maidsafe/common/log.cc
+++ b/src/maidsafe/common/log.cc
@@ -670,11 +670,7 @@ void Logging::SetStreams() {
 }
 
 void Logging::Send(std::function<void()> message_functor) {
-#if USE_LOGGING
-  background_->Send(message_functor);
-#else
-  message_functor();
-#endif
+  background_ ? background_->Send(message_functor) : message_functor();
 }
 
 void Logging::WriteToLogfile(const std::string& message, LogFile& log_file) {
-- 
2.43.0


From 04d677232181bf6ed3e717301f3d596dae3f27c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:40 +0000
Subject: [PATCH 43/57] fix: write to the visualiser server from one thread at
 a time

---
 include/maidsafe/common/log.h | 2 ++
 src/maidsafe/common/log.cc    | 1 +
 2 files changed, 3 insertions(+)

diff --git a/include/maidsafe/common/log.h b/include/maidsafe/common/log.h
index e26d2bd..f03b063 100644
--- a/include/maidsafe/common/log.h
+++ b/include/maidsafe/common/log.h
@@ -196,6 +196,7 @@ class Logging {
         : prefix("Vault ID uninitialised"),
           session_id(),
           logfile(),
+          server_mutex(),
           server_stream(),
           server_name(),
           server_dir(),
@@ -204,6 +205,7 @@ class Logging {
           initialised_once_flag() {}
     std::string prefix, session_id;
     LogFile logfile;
+    std::mutex server_mutex;
     asio::ip::tcp::iostream server_stream;
     std::string server_name, server_dir;
     uint16_t server_port;
diff --git a/src/maidsafe/common/log.cc b/src/maidsafe/common/log.cc
index 92556d9..b2263dc 100644
--- a/src/maidsafe/common/log.cc
+++ b/src/maidsafe/common/log.cc
@@ -690,6 +690,7 @@ void Logging::WriteToVisualiserLogfile(const std::string& message) {
 }
 
 void Logging::WriteToVisualiserServer(const std::string& message) {
+  std::lock_guard<std::mutex> lock(visualiser_.server_mutex);
   if (!visualiser_.server_stream) {
     visualiser_.server_stream.clear();
     visualiser_.server_stream.connect(
-- 
2.43.0


From 8c926215d0c008e110d45637b35e362eb51b4a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:40 +0000
Subject: [PATCH 44/57] fix: end the bootstrap file tool at the end of its
 input

---
 src/maidsafe/common/tools/bootstrap_file_tool.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/maidsafe/common/tools/bootstrap_file_tool.cc b/src/maidsafe/common/tools/bootstrap_file_tool.cc
index ba9fa47..be1cfbd 100644
--- a/src/maidsafe/common/tools/bootstrap_file_tool.cc
+++ b/src/maidsafe/common/tools/bootstrap_file_tool.cc
@@ -66,6 +66,8 @@ class Choice : private MessagePolicy, private InputPolicy, private HandlePolicy
       std::string error_info;
       if (InputPolicy::GetInput(input, error_info))
         break;
+      if (!std::cin)  // end of input
+        return;
       MessagePolicy::PrintErrorMessage(error_info);
     }
     HandlePolicy::HandleInput(input);
@@ -434,7 +436,8 @@ int GetChoice() {
   int choice(-1);
   for (;;) {
     TLOG(kDefaultColour) << ">> ";
-    std::getline(std::cin, input);
+    if (!std::getline(std::cin, input))  // end of input
+      return ExitChoice::index;
     try {
       choice = std::stoi(input);
     } catch (const std::exception&) {
@@ -483,7 +486,7 @@ void HandleChoice(int choice) {
 
 int main(int argc, char* argv[]) {
   maidsafe::log::Logging::Instance().Initialise(argc, argv);
-  while (g_running) {
+  while (g_running && std::cin) {
     PrintCommands();
     HandleChoice(GetChoice());
   }
-- 
2.43.0


From 195c3ef45d03c361ba6124509ad32e0aa71a6f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:40 +0000
Subject: [PATCH 45/57] fix: keep the endpoints when a bootstrap file can't be
 loaded

---
 src/maidsafe/common/tools/bootstrap_file_tool.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/maidsafe/common/tools/bootstrap_file_tool.cc b/src/maidsafe/common/tools/bootstrap_file_tool.cc
index be1cfbd..6283ca0 100644
--- a/src/maidsafe/common/tools/bootstrap_file_tool.cc
+++ b/src/maidsafe/common/tools/bootstrap_file_tool.cc
@@ -303,15 +303,17 @@ class HandlePolicyLoadBootstrapFile {
         TLOG(kRed) << '\n' << bootstrap_file << " doesn't contain any endpoints.\n\n";
         return;
       }
-      g_bootstrap_endpoints.clear();
+      std::vector<boost::asio::ip::udp::endpoint> endpoints;
       for (std::size_t i(0); i != parsed_endpoints.bootstrap_contacts_.size(); ++i) {
-        g_bootstrap_endpoints.push_back(boost::asio::ip::udp::endpoint(
+        endpoints.push_back(boost::asio::ip::udp::endpoint(
             boost::asio::ip::address_v4::from_string(parsed_endpoints.bootstrap_contacts_[i].ip_),
             static_cast<uint16_t>(parsed_endpoints.bootstrap_contacts_[i].port_)));
       }
+      g_bootstrap_endpoints.swap(endpoints);
       g_out_of_date = false;
     } catch (const std::exception& e) {
       TLOG(kRed) << "\nException while loading " << bootstrap_file << ": " << e.what() << "\n\n";
+      return;
     }
     TLOG(kGreen) << "\nLoaded " << bootstrap_file << "\n\n";
   }
-- 
2.43.0


From 307bbe98a2868143757bdf3d8cf624117635af73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:40 +0000
Subject: [PATCH 46/57] fix: refuse ports with trailing characters in the
 bootstrap file tool

---
 src/maidsafe/common/tools/bootstrap_file_tool.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/maidsafe/common/tools/bootstrap_file_tool.cc b/src/maidsafe/common/tools/bootstrap_file_tool.cc
index 6283ca0..0be9904 100644
--- a/src/maidsafe/common/tools/bootstrap_file_tool.cc
+++ b/src/maidsafe/common/tools/bootstrap_file_tool.cc
@@ -257,8 +257,10 @@ class InputPolicyGetEndpoint {
   bool GetPort(const std::string& entered_port,
                std::function<bool(const std::string&)> fail_functor, uint16_t& port) const {
     try {
-      int port_as_int = std::stoi(entered_port);
-      if (port_as_int < 1025 || port_as_int > std::numeric_limits<uint16_t>::max())
+      size_t parsed_size(0);
+      int port_as_int = std::stoi(entered_port, &parsed_size);
+      if (parsed_size != entered_port.size() || port_as_int < 1025 ||
+          port_as_int > std::numeric_limits<uint16_t>::max())
         return fail_functor("invalid port " + entered_port + ").");
       port = static_cast<uint16_t>(port_as_int);
     } catch (const std::exception&) {
-- 
2.43.0


From 588cc3f0a181a36f7e70a82d09d05b1439f8551f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:59 +0000
Subject: [PATCH 47/57] fix: end the signing tool at the end of its input

---
 src/maidsafe/common/tools/signing_tool.cc | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/maidsafe/common/tools/signing_tool.cc b/src/maidsafe/common/tools/signing_tool.cc
index c70d5e7..ffb5094 100644
--- a/src/maidsafe/common/tools/signing_tool.cc
+++ b/src/maidsafe/common/tools/signing_tool.cc
@@ -51,6 +51,8 @@ using Bytes = std::vector<unsigned char>;
 template <class T>
 T Get(std::string display_message, bool echo_input = true);
 
+void Exit() { exit(0); }
+
 void Echo(bool enable = true) {
 #ifdef WIN32
   HANDLE hStdin = GetStdHandle(STD_INPUT_HANDLE);
@@ -274,7 +276,8 @@ void CreateKeyGroup() {
   for (int i = 0; i < max; ++i) {
     std::string name;
     std::cout << "please Enter unique name \n";
-    std::getline(std::cin, name);
+    if (!std::getline(std::cin, name))
+      Exit();
     Bytes passwd = GetPasswd();
     if (i < (max - 1))
       std::cout << "Password Successfull next person please\n ==================================\n";
@@ -305,7 +308,8 @@ void CreateKeyGroup() {
 void GroupSignIn() {
   std::string quorum;
   std::cout << "please Enter number of people required to sign\n";
-  std::getline(std::cin, quorum);
+  if (!std::getline(std::cin, quorum))
+    Exit();
   int min = atoi(quorum.c_str());
   maidsafe::crypto::DataParts chunks;
   maidsafe::crypto::PlainText priv_key;
@@ -343,8 +347,6 @@ void GroupSignIn() {
   }
 }
 
-void Exit() { exit(0); }
-
 void Help() {
   std::cout << "\t\tMaidSafe Encryption Tool \n"
             << "_________________________________________________________________\n"
@@ -431,7 +433,9 @@ T Get(std::string display_message, bool echo_input) {
       std::cout << prompt << std::flush;
     }
   }
-  return command;
+  Echo(true);
+  Exit();  // end of input
+  return T();
 }
 #if defined MAIDSAFE_WIN32
 #pragma warning(pop)
-- 
2.43.0


From 4564e42eae3ea4e753f8358ebcd42263fda417c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:59 +0000
Subject: [PATCH 48/57] fix: report what fails in the signing tool instead of
 terminating it

---
 src/maidsafe/common/tools/signing_tool.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/maidsafe/common/tools/signing_tool.cc b/src/maidsafe/common/tools/signing_tool.cc
index ffb5094..d7ca7f1 100644
--- a/src/maidsafe/common/tools/signing_tool.cc
+++ b/src/maidsafe/common/tools/signing_tool.cc
@@ -446,7 +446,11 @@ int main() {
     Echo(true);
     std::cout << "_________________________________________________________________\n";
     Help();
-    Process(Get<int>("", true));
+    try {
+      Process(Get<int>("", true));
+    } catch (const std::exception& e) {
+      std::cout << "failed: " << e.what() << "\n";
+    }
     std::cout << "_________________________________________________________________\n";
   }
 }
-- 
2.43.0


From 5ae674747711671dce7ea16b2d16b149cecdc5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:59 +0000
Subject: [PATCH 49/57] fix: abort in the signing tool, as reported, without a
 valid key

---
 src/maidsafe/common/tools/signing_tool.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/maidsafe/common/tools/signing_tool.cc b/src/maidsafe/common/tools/signing_tool.cc
index d7ca7f1..42fcb10 100644
--- a/src/maidsafe/common/tools/signing_tool.cc
+++ b/src/maidsafe/common/tools/signing_tool.cc
@@ -172,6 +172,7 @@ void SignFile() {
   fs::path file(filename);
   if (!maidsafe::asymm::ValidateKey(Keys.private_key)) {
     std::cout << "private key invalid, aborting!!\n";
+    return;
   }
 
   maidsafe::asymm::Signature signature(maidsafe::asymm::SignFile(file, Keys.private_key));
@@ -196,6 +197,7 @@ void ValidateSignature() {
   }
   if (!maidsafe::asymm::ValidateKey(Keys.public_key)) {
     std::cout << "public key invalid, aborting!!\n";
+    return;
   }
 
   if (maidsafe::asymm::CheckFileSignature(file, maidsafe::asymm::Signature(*signature),
-- 
2.43.0


From 017c91c4767970e5a5999b7335e3d4260c703286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:59 +0000
Subject: [PATCH 50/57] fix: remember in the signing tool that a key has been
 loaded

---
 src/maidsafe/common/tools/signing_tool.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/maidsafe/common/tools/signing_tool.cc b/src/maidsafe/common/tools/signing_tool.cc
index 42fcb10..942447e 100644
--- a/src/maidsafe/common/tools/signing_tool.cc
+++ b/src/maidsafe/common/tools/signing_tool.cc
@@ -144,7 +144,8 @@ void LoadPrivateKey() {
   }
   Keys.private_key = maidsafe::asymm::DecodeKey(maidsafe::asymm::EncodedPrivateKey(*priv_key));
 
-  if (maidsafe::asymm::ValidateKey(Keys.private_key))
+  have_private_key = maidsafe::asymm::ValidateKey(Keys.private_key);
+  if (have_private_key)
     std::cout << "private key loaded and valid \n";
   else
     std::cout << "private key invalid !! \n";
@@ -161,7 +162,8 @@ void LoadPublicKey() {
   std::cout << maidsafe::hex::Encode(*pub_key) << "\n";
   Keys.public_key = maidsafe::asymm::DecodeKey(maidsafe::asymm::EncodedPublicKey(*pub_key));
 
-  if (maidsafe::asymm::ValidateKey(Keys.public_key))
+  have_public_key = maidsafe::asymm::ValidateKey(Keys.public_key);
+  if (have_public_key)
     std::cout << "public key loaded and valid \n";
   else
     std::cout << "public key invalid !! \n";
@@ -341,7 +343,8 @@ void GroupSignIn() {
   Keys.private_key =
       maidsafe::asymm::DecodeKey(maidsafe::asymm::EncodedPrivateKey(priv_key.string()));
 
-  if (maidsafe::asymm::ValidateKey(Keys.private_key)) {
+  have_private_key = maidsafe::asymm::ValidateKey(Keys.private_key);
+  if (have_private_key) {
     std::cout << "private key loaded and valid \n";
     group_signed_in = true;
   } else {
-- 
2.43.0


From 8c8215b14dc0f1a61ca9e68b45532640a536e445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:59 +0000
Subject: [PATCH 51/57] fix: accept the path of a config file in the address
 space tool

---
 src/maidsafe/common/tools/address_space_tool.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maidsafe/common/tools/address_space_tool.cc b/src/maidsafe/common/tools/address_space_tool.cc
index 44e23c8..67c7612 100644
--- a/src/maidsafe/common/tools/address_space_tool.cc
+++ b/src/maidsafe/common/tools/address_space_tool.cc
@@ -347,7 +347,7 @@ int main(int argc, char* argv[]) {
   // skip the first arg which is the path to this tool
   unused_options.erase(std::begin(unused_options));
 
-  if (unuseds.size() > 1 || maidsafe::tools::IsHelpOption(unused_options)) {
+  if (unused_options.size() > 1 || maidsafe::tools::IsHelpOption(unused_options)) {
     TLOG(kYellow) << "This tool should be invoked with logging arguments, and an optional path to "
                      "a config file.\nIf no config file path is provided, the tool will look for "
                      "one named " << maidsafe::tools::kDefaultConfigFilename
-- 
2.43.0


From 05e03c9d91f664f011a7ba70e8e4baf4641df2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:59 +0000
Subject: [PATCH 52/57] fix: don't look for a second node in a network of one

---
 src/maidsafe/common/tools/address_space_tool.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/maidsafe/common/tools/address_space_tool.cc b/src/maidsafe/common/tools/address_space_tool.cc
index 67c7612..f82dd5c 100644
--- a/src/maidsafe/common/tools/address_space_tool.cc
+++ b/src/maidsafe/common/tools/address_space_tool.cc
@@ -67,10 +67,10 @@ int Test::CommonLeadingBits(int highest, int lowest, int sum, int count) const {
 }
 
 int Test::GroupCommonLeadingBits(size_t group_size) const {
-  if (config_.algorithm == CommonLeadingBitsAlgorithm::kClosest)
-    return maidsafe::CommonLeadingBits(all_nodes_[0].id, all_nodes_[1].id);
   if (all_nodes_.size() == 1)
     return 0;
+  if (config_.algorithm == CommonLeadingBitsAlgorithm::kClosest)
+    return maidsafe::CommonLeadingBits(all_nodes_[0].id, all_nodes_[1].id);
 
   int sum{0}, count{0}, highest{0}, lowest{512};
   auto itr(std::begin(all_nodes_));
-- 
2.43.0


From d3044ca99026b0afc0184aaf152324d50c2a04de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:08 +0000
Subject: [PATCH 53/57] fix: hash a constant object of a type hashed by its
 versioned serialisation with its version

---
 include/maidsafe/common/hash/algorithms/hash_algorithm_base.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/maidsafe/common/hash/algorithms/hash_algorithm_base.h b/include/maidsafe/common/hash/algorithms/hash_algorithm_base.h
index 0b11a9a..a543fbd 100644
--- a/include/maidsafe/common/hash/algorithms/hash_algorithm_base.h
+++ b/include/maidsafe/common/hash/algorithms/hash_algorithm_base.h
@@ -53,7 +53,7 @@ class HashAlgorithmBase {
   Derived* self() { return static_cast<Derived*>(this); }
 
   template <typename Type>
-  using Normalize = typename std::remove_reference<typename std::remove_cv<Type>::type>::type;
+  using Normalize = typename std::remove_cv<typename std::remove_reference<Type>::type>::type;
 
   template <typename Type>
   using IsVersionIntegral =
@@ -222,7 +222,7 @@ class HashAlgorithmBase {
 
   template <typename Arg>
   void InvokeSerialize(Arg&& param, std::true_type) {
-    static_assert(UseSerializeForHashing<typename std::remove_reference<Arg>::type>::value,
+    static_assert(UseSerializeForHashing<Normalize<Arg>>::value,
                   "This type has a serialize/save method, but hash support has not been enabled");
     SerializeFunction{}(*self(), std::forward<Arg>(param));
   }
-- 
2.43.0


From f7722b20a4ec6dd775ffde14c7a482e8f8f0f547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:08 +0000
Subject: [PATCH 54/57] fix: keep the signing tool's key when an invalid one is
 loaded

---
 src/maidsafe/common/tools/signing_tool.cc | 42 ++++++++++++-----------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/src/maidsafe/common/tools/signing_tool.cc b/src/maidsafe/common/tools/signing_tool.cc
index 942447e..09b7993 100644
--- a/src/maidsafe/common/tools/signing_tool.cc
+++ b/src/maidsafe/common/tools/signing_tool.cc
@@ -142,13 +142,14 @@ void LoadPrivateKey() {
     std::cout << "error reading file\n";
     return;
   }
-  Keys.private_key = maidsafe::asymm::DecodeKey(maidsafe::asymm::EncodedPrivateKey(*priv_key));
-
-  have_private_key = maidsafe::asymm::ValidateKey(Keys.private_key);
-  if (have_private_key)
-    std::cout << "private key loaded and valid \n";
-  else
+  auto private_key(maidsafe::asymm::DecodeKey(maidsafe::asymm::EncodedPrivateKey(*priv_key)));
+  if (!maidsafe::asymm::ValidateKey(private_key)) {
     std::cout << "private key invalid !! \n";
+    return;
+  }
+  Keys.private_key = private_key;
+  have_private_key = true;
+  std::cout << "private key loaded and valid \n";
 }
 
 void LoadPublicKey() {
@@ -160,13 +161,14 @@ void LoadPublicKey() {
     return;
   }
   std::cout << maidsafe::hex::Encode(*pub_key) << "\n";
-  Keys.public_key = maidsafe::asymm::DecodeKey(maidsafe::asymm::EncodedPublicKey(*pub_key));
-
-  have_public_key = maidsafe::asymm::ValidateKey(Keys.public_key);
-  if (have_public_key)
-    std::cout << "public key loaded and valid \n";
-  else
+  auto public_key(maidsafe::asymm::DecodeKey(maidsafe::asymm::EncodedPublicKey(*pub_key)));
+  if (!maidsafe::asymm::ValidateKey(public_key)) {
     std::cout << "public key invalid !! \n";
+    return;
+  }
+  Keys.public_key = public_key;
+  have_public_key = true;
+  std::cout << "public key loaded and valid \n";
 }
 
 void SignFile() {
@@ -340,16 +342,16 @@ void GroupSignIn() {
     }
   }
   priv_key = maidsafe::crypto::SecretRecoverData(chunks);
-  Keys.private_key =
-      maidsafe::asymm::DecodeKey(maidsafe::asymm::EncodedPrivateKey(priv_key.string()));
-
-  have_private_key = maidsafe::asymm::ValidateKey(Keys.private_key);
-  if (have_private_key) {
-    std::cout << "private key loaded and valid \n";
-    group_signed_in = true;
-  } else {
+  auto private_key(
+      maidsafe::asymm::DecodeKey(maidsafe::asymm::EncodedPrivateKey(priv_key.string())));
+  if (!maidsafe::asymm::ValidateKey(private_key)) {
     std::cout << "private key invalid !! \n";
+    return;
   }
+  Keys.private_key = private_key;
+  have_private_key = true;
+  group_signed_in = true;
+  std::cout << "private key loaded and valid \n";
 }
 
 void Help() {
-- 
2.43.0


From 6c49923297f2c5963393d143e1638d34ed7ca4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:48 +0000
Subject: [PATCH 55/57] fix: refuse signatures which aren't of the public key's
 size in memory too

---
 src/maidsafe/common/rsa.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/maidsafe/common/rsa.cc b/src/maidsafe/common/rsa.cc
index fa50fed..12b03fb 100644
--- a/src/maidsafe/common/rsa.cc
+++ b/src/maidsafe/common/rsa.cc
@@ -178,6 +178,10 @@ bool CheckSignature(const PlainText& data, const Signature& signature,
   }
 
   CryptoPP::RSASS<CryptoPP::PSS, CryptoPP::SHA512>::Verifier verifier(public_key);
+  if (signature.size() != verifier.SignatureLength()) {
+    LOG(kError) << "CheckSignature signature isn't of the public_key's size";
+    return false;
+  }
   try {
     return verifier.VerifyMessage(data.data(), data.size(), signature.data(), signature.size());
   } catch (const CryptoPP::Exception& e) {
-- 
2.43.0


From d2f01f6ea53abfe3852a33a611cb62724b3d0bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:09 +0000
Subject: [PATCH 56/57] fix: don't let reads and stores wait for ever once the
 data buffer can't use its disk

---
 src/maidsafe/common/data_buffer.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/maidsafe/common/data_buffer.cc b/src/maidsafe/common/data_buffer.cc
index 0c1b3f3..721c1fa 100644
--- a/src/maidsafe/common/data_buffer.cc
+++ b/src/maidsafe/common/data_buffer.cc
@@ -175,7 +175,12 @@ void DataBuffer::StoreOnDisk(const KeyType& key, const NonEmptyString& value,
     BOOST_THROW_EXCEPTION(MakeError(CommonErrors::cannot_exceed_limit));
   }
   auto element(disk_store_.index.emplace(std::end(disk_store_.index), key));
-  WaitForSpaceOnDisk(element, value, disk_store_lock);
+  try {
+    WaitForSpaceOnDisk(element, value, disk_store_lock);
+  } catch (const std::exception&) {
+    StopRunning();
+    throw;
+  }
   if (!running_)
     return;
 
@@ -238,9 +243,11 @@ NonEmptyString DataBuffer::Get(const KeyType& key) {
       return *(*itr).value_being_moved;
     disk_store_.cond_var.wait(disk_store_lock, [this, &key]() -> bool {
       auto itr(FindNotCancelledOnDisk(key));
-      return (itr == disk_store_.index.end() || (*itr).state != StoringState::kStarted);
+      return (itr == disk_store_.index.end() || (*itr).state != StoringState::kStarted || !running_);
     });
     itr = FindAndThrowIfCancelled(key);
+    if ((*itr).state == StoringState::kStarted)  // It never will be stored.
+      BOOST_THROW_EXCEPTION(MakeError(CommonErrors::filesystem_io_error));
   }
   auto result(ReadFile(GetFilename(key)));
   if (result)
-- 
2.43.0


From 3e3e741cd9da22c4f7d38149ed61038758eb37f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:09 +0000
Subject: [PATCH 57/57] fix: refuse what is being stored in the data buffer
 when it stops, without deadlocking

---
 src/maidsafe/common/data_buffer.cc | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/maidsafe/common/data_buffer.cc b/src/maidsafe/common/data_buffer.cc
index 721c1fa..ac46a64 100644
--- a/src/maidsafe/common/data_buffer.cc
+++ b/src/maidsafe/common/data_buffer.cc
@@ -121,8 +121,10 @@ void DataBuffer::Store(const KeyType& key, const NonEmptyString& value) {
 
   CheckWorkerIsStillRunning();
   auto disk_store_lock(StoreInMemory(key, value));
-  if (disk_store_lock)
+  if (disk_store_lock) {
     StoreOnDisk(key, value, std::move(disk_store_lock));
+    CheckWorkerIsStillRunning();
+  }
 }
 
 std::unique_lock<std::mutex> DataBuffer::StoreInMemory(const KeyType& key,
@@ -136,12 +138,8 @@ std::unique_lock<std::mutex> DataBuffer::StoreInMemory(const KeyType& key,
     WaitForSpaceInMemory(required_space, memory_store_lock);
 
     if (!running_) {
-      {
-        std::lock_guard<std::mutex> worker_lock(worker_mutex_);
-        if (worker_.valid())
-          worker_.get();
-      }
-      return std::move(std::unique_lock<std::mutex>());
+      memory_store_lock.unlock();
+      CheckWorkerIsStillRunning();
     }
 
     memory_store_.current.data += required_space;
@@ -171,6 +169,7 @@ void DataBuffer::StoreOnDisk(const KeyType& key, const NonEmptyString& value,
   if (value.string().size() > disk_store_.max) {
     LOG(kError) << "Cannot store " << DebugKeyName(key) << " since its " << value.string().size()
                 << " bytes exceeds max of " << disk_store_.max << " bytes.";
+    disk_store_lock.unlock();
     StopRunning();
     BOOST_THROW_EXCEPTION(MakeError(CommonErrors::cannot_exceed_limit));
   }
@@ -178,6 +177,7 @@ void DataBuffer::StoreOnDisk(const KeyType& key, const NonEmptyString& value,
   try {
     WaitForSpaceOnDisk(element, value, disk_store_lock);
   } catch (const std::exception&) {
+    disk_store_lock.unlock();
     StopRunning();
     throw;
   }
@@ -189,6 +189,7 @@ void DataBuffer::StoreOnDisk(const KeyType& key, const NonEmptyString& value,
   } else {
     if (!WriteFile(GetFilename(key), value.string())) {
       LOG(kError) << "Failed to move " << DebugKeyName(key) << " to disk.";
+      disk_store_lock.unlock();
       StopRunning();
       BOOST_THROW_EXCEPTION(MakeError(CommonErrors::filesystem_io_error));
     }
@@ -413,6 +414,9 @@ void DataBuffer::CheckWorkerIsStillRunning() {
 
 void DataBuffer::StopRunning() {
   running_ = false;
+  // Ensures that no thread is between finding it's still running and waiting to be notified.
+  { std::lock_guard<std::mutex> memory_store_lock(memory_store_.mutex); }
+  { std::lock_guard<std::mutex> disk_store_lock(disk_store_.mutex); }
   memory_store_.cond_var.notify_all();
   disk_store_.cond_var.notify_all();
 }
-- 
2.43.0

