From 3ad87612bdd6d1585278b191c8202711c7df7695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:49 +0000
Subject: [PATCH 01/52] fix: size the deflate buffer for incompressible data

---
 mdflib/src/zlibutil.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mdflib/src/zlibutil.cpp b/mdflib/src/zlibutil.cpp
index 0f9e4b3..0a4c70b 100644
--- a/mdflib/src/zlibutil.cpp
+++ b/mdflib/src/zlibutil.cpp
@@ -122,6 +122,13 @@ bool Deflate(const ByteArray& buf_in, ByteArray& buf_out) {
     return false;
   }
 
+  // Incompressible data grows, so the output buffer must hold the worst case.
+  const auto max_size = static_cast<size_t>(
+      deflateBound(&s, static_cast<uLong>(buf_in.size())));
+  if (buf_out.size() < max_size) {
+    buf_out.resize(max_size, 0);
+  }
+
   s.avail_in = static_cast<uInt>(buf_in.size());
   s.next_in = const_cast<Bytef*>(buf_in.data());
 
-- 
2.43.0


From e7bb37df1621e6ff48f89b79d3c6329d04cf0e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:20 +0000
Subject: [PATCH 02/52] fix: store and read event scopes and hierarchy element
 references

---
 mdflib/src/ch4block.cpp | 35 ++++++++++++++++++++++-------------
 mdflib/src/ch4block.h   |  3 +++
 mdflib/src/ev4block.cpp | 38 ++++++++++++++++++++++++--------------
 mdflib/src/ev4block.h   |  5 ++++-
 mdflib/src/hd4block.cpp |  5 +++--
 5 files changed, 56 insertions(+), 30 deletions(-)

diff --git a/mdflib/src/ch4block.cpp b/mdflib/src/ch4block.cpp
index c44ee8e..8979316 100644
--- a/mdflib/src/ch4block.cpp
+++ b/mdflib/src/ch4block.cpp
@@ -67,8 +67,10 @@ uint64_t Ch4Block::Read(std::streambuf& buffer) {  // NOLINT
 uint64_t Ch4Block::Write(std::streambuf& buffer) {  // NOLINT
   const auto update = FilePosition() > 0;
   if (update) {
+    // The referenced blocks may have been written after this block.
+    UpdateReferences(buffer);
     WriteLink4List(buffer, ch_list_, kIndexCh,
-                   UpdateOption::DoNotUpdateWrittenBlock);
+                   UpdateOption::DoUpdateAllBlocks);
     return block_length_;
   }
   nof_elements_ = static_cast<uint32_t>(element_list_.size());
@@ -76,16 +78,7 @@ uint64_t Ch4Block::Write(std::streambuf& buffer) {  // NOLINT
   block_length_ = 24 + ((4 + (nof_elements_ * 3)) * 8) + 8 + 1 + 3;
   link_list_.resize(4 + (nof_elements_ * 3), 0);
 
-  for (size_t index_n = 0; index_n < nof_elements_; ++index_n) {
-    const auto index = 4 + (index_n * 3);
-    const auto &element = element_list_[index_n];
-    link_list_[index] =
-        element.data_group != nullptr ? element.data_group->Index() : 0;
-    link_list_[index + 1] =
-        element.channel_group != nullptr ? element.channel_group->Index() : 0;
-    link_list_[index + 2] =
-        element.channel != nullptr ? element.channel->Index() : 0;
-  }
+  UpdateReferences(buffer);
   WriteTx4(buffer, kIndexTx, name_);
   WriteMdComment(buffer, kIndexMd);
   WriteLink4List(buffer, ch_list_, kIndexCh,
@@ -100,6 +93,22 @@ uint64_t Ch4Block::Write(std::streambuf& buffer) {  // NOLINT
   return bytes;
 }
 
+void Ch4Block::UpdateReferences(std::streambuf& buffer) {
+  auto update_link = [&](size_t index, const IBlock *block) {
+    if (block != nullptr && block->Index() > 0 && index < link_list_.size()) {
+      UpdateLink(buffer, index, block->Index());
+    }
+  };
+  for (size_t index_n = 0;
+       index_n < nof_elements_ && index_n < element_list_.size(); ++index_n) {
+    const auto index = kIndexElement + (index_n * 3);
+    const auto &element = element_list_[index_n];
+    update_link(index, element.data_group);
+    update_link(index + 1, element.channel_group);
+    update_link(index + 2, element.channel);
+  }
+}
+
 MdfBlock *Ch4Block::Find(int64_t index) const {  // NOLINT
   for (auto &ch : ch_list_) {
     if (!ch) {
@@ -148,8 +157,8 @@ const std::vector<ElementLink> &Ch4Block::ElementLinks() const {
 void Ch4Block::FindReferencedBlocks(const Hd4Block &hd4) {  // NOLINT
   element_list_.clear();
   for (uint32_t index_n = 0; index_n < nof_elements_; ++index_n) {
-    const auto index = 5 + (index_n * 3);
-    if (index < link_list_.size()) {
+    const auto index = kIndexElement + (index_n * 3);
+    if (index + 2 < link_list_.size()) {
       const auto *block1 = hd4.Find(Link(index));
       const auto *block2 = hd4.Find(Link(index + 1));
       const auto *block3 = hd4.Find(Link(index + 2));
diff --git a/mdflib/src/ch4block.h b/mdflib/src/ch4block.h
index a9a3f58..48f6dc6 100644
--- a/mdflib/src/ch4block.h
+++ b/mdflib/src/ch4block.h
@@ -55,6 +55,9 @@ class Ch4Block : public MdfBlock, public IChannelHierarchy {
   uint8_t type_ = 0;
   std::string name_;
 
+  /** \brief Sets the links to the blocks the elements refer to. */
+  void UpdateReferences(std::streambuf& buffer);
+
   Ch4List ch_list_;
 
   std::vector<ElementLink> element_list_;
diff --git a/mdflib/src/ev4block.cpp b/mdflib/src/ev4block.cpp
index e8cd1a1..90b8baa 100644
--- a/mdflib/src/ev4block.cpp
+++ b/mdflib/src/ev4block.cpp
@@ -171,6 +171,8 @@ uint64_t Ev4Block::Write(std::streambuf& buffer) {
   const bool update =
       FilePosition() > 0;  // Write or update the values inside the block
   if (update) {
+    // The referenced blocks may have been written after this block.
+    UpdateReferences(buffer);
     return block_length_;
   }
   length_m_ = static_cast<uint32_t>(scope_list_.size());
@@ -187,19 +189,7 @@ uint64_t Ev4Block::Write(std::streambuf& buffer) {
     block_size_ += 8;
   }
   link_list_.resize(5 + length_m_ + length_n_ + (group ? 1 : 0), 0);
-  link_list_[kIndexParent] =
-      parent_event_ != nullptr ? parent_event_->Index() : 0;
-  link_list_[kIndexRange] = range_event_ != nullptr ? range_event_->Index() : 0;
-  for (size_t index_m = 0; index_m < length_m_; ++index_m) {
-    const auto index = 5 + index_m;
-    const auto *block = reinterpret_cast<const MdfBlock *>(scope_list_[index_m]);
-    link_list_[index] = block != nullptr ? block->FilePosition() : 0;
-  }
-  for (size_t index_n = 0; index_n < length_n_; ++index_n) {
-    const auto index = 5 + length_m_ + index_n;
-    const auto *block = attachment_list_[index_n];
-    link_list_[index] = block != nullptr ? block->Index() : 0;
-  }
+  UpdateReferences(buffer);
   WriteTx4(buffer, kIndexName, name_);
   if (group) {
     WriteTx4(buffer, link_list_.size() - 1, group_name_);
@@ -223,6 +213,26 @@ uint64_t Ev4Block::Write(std::streambuf& buffer) {
   return bytes;
 }
 
+void Ev4Block::UpdateReferences(std::streambuf& buffer) {
+  auto update_link = [&](size_t index, const IBlock *block) {
+    if (block != nullptr && block->Index() > 0 && index < link_list_.size()) {
+      UpdateLink(buffer, index, block->Index());
+    }
+  };
+  update_link(kIndexParent, parent_event_);
+  update_link(kIndexRange, range_event_);
+  for (size_t index_m = 0; index_m < length_m_ && index_m < scope_list_.size();
+       ++index_m) {
+    // The scope is a pointer to a channel group or channel interface.
+    update_link(kIndexScope + index_m,
+                static_cast<const IBlock *>(scope_list_[index_m]));
+  }
+  for (size_t index_n = 0;
+       index_n < length_n_ && index_n < attachment_list_.size(); ++index_n) {
+    update_link(kIndexScope + length_m_ + index_n, attachment_list_[index_n]);
+  }
+}
+
 int64_t Ev4Block::Index() const { return FilePosition(); }
 
 void Ev4Block::Name(const std::string &name) { name_ = name; }
@@ -316,7 +326,7 @@ void Ev4Block::FindReferencedBlocks(const Hd4Block &hd4) {
   for (size_t index_m = 0; index_m < length_m_; ++index_m) {
     const auto index = 5 + index_m;
     if (index < link_list_.size()) {
-      scope_list_.push_back(hd4.Find(Link(index)));
+      scope_list_.push_back(dynamic_cast<const IBlock *>(hd4.Find(Link(index))));
     }
   }
 
diff --git a/mdflib/src/ev4block.h b/mdflib/src/ev4block.h
index 6b5867b..d8082bb 100644
--- a/mdflib/src/ev4block.h
+++ b/mdflib/src/ev4block.h
@@ -78,9 +78,12 @@ class Ev4Block : public MdfBlock, public IEvent {
   int64_t sync_base_value_ = 0;
   double sync_factor_ = 1.0;
 
+  /** \brief Sets the links to the blocks this event refers to. */
+  void UpdateReferences(std::streambuf& buffer);
+
   const IEvent *parent_event_ = nullptr;
   const IEvent *range_event_ = nullptr;
-  std::vector<const void *> scope_list_;  ///< List of MdfBlock pointers
+  std::vector<const void *> scope_list_;  ///< List of IBlock pointers
   std::vector<const IAttachment *> attachment_list_;
 
   std::string name_;
diff --git a/mdflib/src/hd4block.cpp b/mdflib/src/hd4block.cpp
index d325fea..4b9327e 100644
--- a/mdflib/src/hd4block.cpp
+++ b/mdflib/src/hd4block.cpp
@@ -533,10 +533,11 @@ uint64_t Hd4Block::Write(std::streambuf& buffer) {
   WriteMdComment(buffer, kIndexMd);
   WriteLink4List(buffer, at_list_, kIndexAt,
                  UpdateOption::DoNotUpdateWrittenBlock);
+  // Update the references to blocks that are written after the CH/EV blocks.
   WriteLink4List(buffer, ch_list_, kIndexCh,
-                 UpdateOption::DoNotUpdateWrittenBlock);
+                 UpdateOption::DoUpdateAllBlocks);
   WriteLink4List(buffer, ev_list_, kIndexEv,
-                 UpdateOption::DoNotUpdateWrittenBlock);
+                 UpdateOption::DoUpdateAllBlocks);
 
   // Always write the list of DG last as it may contain a DT block that shall
   // be appended with data bytes. The DT block must be the last written block
-- 
2.43.0


From 6dafa06ed7873b493abe60fcd4ae5fd8a3718b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:23 +0000
Subject: [PATCH 03/52] fix: keep the invalid flag of variable length values

---
 mdflib/src/cn4block.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdflib/src/cn4block.cpp b/mdflib/src/cn4block.cpp
index c5d2345..fa08c8b 100644
--- a/mdflib/src/cn4block.cpp
+++ b/mdflib/src/cn4block.cpp
@@ -826,7 +826,7 @@ void Cn4Block::SetTextValue(const std::string &value, bool valid) {
     if (bit_count_ == 0) {
       SetValid(false,0);
     } else {
-      SetUnsignedValueLe(index, true,0);
+      SetUnsignedValueLe(index, valid, 0);
     }
   } else {
     // Fixed length handle by interface class
@@ -855,7 +855,7 @@ void Cn4Block::SetByteArray(const std::vector<uint8_t> &value, bool valid) {
     if (bit_count_ == 0) {
       SetValid(false,0);
     } else {
-      SetUnsignedValueLe(index, true,0);
+      SetUnsignedValueLe(index, valid, 0);
     }
   } else {
     // Fixed length handle by interface class
-- 
2.43.0


From 9925baf02742fea0216774b9fc1d59d24742736c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:33 +0000
Subject: [PATCH 04/52] fix: range check of big endian unsigned values

---
 mdflib/src/ichannel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdflib/src/ichannel.cpp b/mdflib/src/ichannel.cpp
index 5c055ce..d26911a 100644
--- a/mdflib/src/ichannel.cpp
+++ b/mdflib/src/ichannel.cpp
@@ -346,7 +346,7 @@ void IChannel::SetUnsignedValueBe(uint64_t value, bool valid, uint64_t array_ind
   }
   const auto bytes = static_cast<size_t>(DataBytes());
   const auto max_bytes = ByteOffset() +
-                         (bytes * array_index);
+                         (bytes * (array_index + 1));
   if (max_bytes > buffer.size()) {
     SetValid(false, array_index);
     return;
-- 
2.43.0


From 8724a8d28c56ed7e8c19d9dd8fa83cec0aa6ad96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:16 +0000
Subject: [PATCH 05/52] fix: read signal data by offset when it is stored in a
 list of compressed blocks

---
 mdflib/src/dg4block.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mdflib/src/dg4block.cpp b/mdflib/src/dg4block.cpp
index 68ade13..c5be261 100644
--- a/mdflib/src/dg4block.cpp
+++ b/mdflib/src/dg4block.cpp
@@ -483,6 +483,8 @@ void  Dg4Block::ReadVlsdData(std::streambuf& buffer,Cn4Block& channel,
         read_signal_data = true;
       } else if (block->BlockType() == "DL") {
         read_signal_data = true;
+      } else if (block->BlockType() == "HL") {
+        read_signal_data = true;
       }
       break;
 
-- 
2.43.0


From 573a56c3d5fc8f7f839a0c70917cda42cf5c36d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:44 +0000
Subject: [PATCH 06/52] fix: compress empty data

---
 mdflib/src/zlibutil.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/mdflib/src/zlibutil.cpp b/mdflib/src/zlibutil.cpp
index 0a4c70b..08a87b8 100644
--- a/mdflib/src/zlibutil.cpp
+++ b/mdflib/src/zlibutil.cpp
@@ -109,9 +109,6 @@ bool Deflate(const ByteArray& buf_in, ByteArray& buf_out) {
   if (buf_out.empty()) {
     buf_out.resize(buf_in.size() + 100);
   }
-  if (buf_in.empty()) {
-    return false;
-  }
   if (buf_out.size() < 100) {
     buf_out.resize(100, 0);
   }
-- 
2.43.0


From 988213045e214a52324a503865d51178ae859d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:28 +0000
Subject: [PATCH 07/52] fix: close the file after it has been embedded

---
 mdflib/src/at4block.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mdflib/src/at4block.cpp b/mdflib/src/at4block.cpp
index 756d228..d3a1f4c 100644
--- a/mdflib/src/at4block.cpp
+++ b/mdflib/src/at4block.cpp
@@ -75,6 +75,7 @@ bool FileToBuffer(const std::string& filename, mdf::ByteArray& dest) {
       Platform::fileopen(&file, filename.c_str(), "rb");
       if (file != nullptr) {
         const auto nof_bytes = fread(dest.data(), 1, static_cast<size_t>(size), file);
+        fclose(file);
         if (nof_bytes < size) {
           dest.resize(nof_bytes);
         }
-- 
2.43.0


From fbdba6f366a474c9462d4bd8653201f4751e95d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:38 +0000
Subject: [PATCH 08/52] fix: keep samples when the pre-trig time is longer than
 the start time

---
 mdflib/src/samplequeue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdflib/src/samplequeue.cpp b/mdflib/src/samplequeue.cpp
index 867db6f..e92830a 100644
--- a/mdflib/src/samplequeue.cpp
+++ b/mdflib/src/samplequeue.cpp
@@ -71,7 +71,7 @@ void SampleQueue::TrimQueue() {
     const auto last_time = queue_.back().timestamp;
     if (start_time > 0) {
       // Measurement started
-      if (next_time >= start_time - pre_trig_time) {
+      if (next_time + pre_trig_time >= start_time) {
         break;
       }
     } else {
-- 
2.43.0


From 8e3e7bb336d99fd81b044324a1ca045b317471d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:11 +0000
Subject: [PATCH 09/52] fix: use after free when a queued sample is discarded

---
 mdflib/src/samplequeue.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/mdflib/src/samplequeue.cpp b/mdflib/src/samplequeue.cpp
index e92830a..17df614 100644
--- a/mdflib/src/samplequeue.cpp
+++ b/mdflib/src/samplequeue.cpp
@@ -44,10 +44,8 @@ SampleRecord SampleQueue::GetSample() {
 }
 
 void SampleQueue::PopSample() {
-  const SampleRecord& record = queue_.front();
+  size_ -= queue_.front().SampleSize();
   queue_.pop_front();
-  size_ -= record.SampleSize();
-
 }
 void SampleQueue::Reset() {
   queue_.clear();
-- 
2.43.0


From 8250162b5562bca52562be0a125d15f20b230257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:31 +0000
Subject: [PATCH 10/52] fix: set start time and master times before the worker
 thread may save samples

---
 mdflib/src/mdfwriter.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/mdflib/src/mdfwriter.cpp b/mdflib/src/mdfwriter.cpp
index affbad4..1018dc2 100644
--- a/mdflib/src/mdfwriter.cpp
+++ b/mdflib/src/mdfwriter.cpp
@@ -277,7 +277,6 @@ bool MdfWriter::InitMeasurement() {
 }
 
 void MdfWriter::StartMeasurement(uint64_t start_time) {
-  write_state_ = WriteState::StartMeas;
   start_time_ = start_time;
   stop_time_ = 0;  // Zero indicate not stopped
 
@@ -285,8 +284,6 @@ void MdfWriter::StartMeasurement(uint64_t start_time) {
   // times to relative times by using the start_time_.
   RecalculateTimeMaster();
 
-  NotifySample();
-
   // Set the time in the header if this is the first DG block in the file.
   // This gives a better start time than when the file was created.
   if ( auto* header = Header();
@@ -294,20 +291,20 @@ void MdfWriter::StartMeasurement(uint64_t start_time) {
     header->StartTime(start_time);
   }
 
+  // The worker thread may save samples from here, so the start time and the
+  // master times must be set before the state is changed.
+  write_state_ = WriteState::StartMeas;
   NotifySample();
 }
 
 void MdfWriter::StartMeasurement(ITimestamp &start_time) {
-  write_state_ = WriteState::StartMeas;
   start_time_ = start_time.GetUtcTimeNs();
   stop_time_ = 0;  // Zero indicate not stopped
-                   
+
   // The sample queue actual have absolute time. We have to recalculate the
   // times to relative times by using the start_time_.
   RecalculateTimeMaster();
 
-  NotifySample();
-
   // Set the time in the header if this is the first DG block in the file.
   // This gives a better start time than when the file was created.
   if ( auto* header = Header();
@@ -315,6 +312,9 @@ void MdfWriter::StartMeasurement(ITimestamp &start_time) {
     header->StartTime(start_time);
   }
 
+  // The worker thread may save samples from here, so the start time and the
+  // master times must be set before the state is changed.
+  write_state_ = WriteState::StartMeas;
   NotifySample();
 }
 
-- 
2.43.0


From 11a7cbb7c0f7b1b6e5b15f977d3527c83d32afc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:37 +0000
Subject: [PATCH 11/52] fix: keep queued samples when their times are out of
 order

---
 mdflib/src/samplequeue.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mdflib/src/samplequeue.cpp b/mdflib/src/samplequeue.cpp
index 17df614..7310831 100644
--- a/mdflib/src/samplequeue.cpp
+++ b/mdflib/src/samplequeue.cpp
@@ -74,8 +74,7 @@ void SampleQueue::TrimQueue() {
       }
     } else {
       // Measurement not started. The queue shall be at least the pre-trig time
-      const auto buffer_time = last_time - next_time;
-      if (buffer_time <= pre_trig_time) {
+      if (last_time <= next_time + pre_trig_time) {
         break;
       }
     }
-- 
2.43.0


From aea2421d579382d21351829c5b840e9f956d3414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:46 +0000
Subject: [PATCH 12/52] fix: read past empty data blocks in a data list

---
 mdflib/src/readcache.cpp | 54 ++++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 27 deletions(-)

diff --git a/mdflib/src/readcache.cpp b/mdflib/src/readcache.cpp
index 27ed376..76c526e 100644
--- a/mdflib/src/readcache.cpp
+++ b/mdflib/src/readcache.cpp
@@ -365,36 +365,36 @@ bool ReadCache::GetNextByte(uint8_t &input) {
     return true;
   }
 
-  if (block_index_ >= block_list_.size()) {
-    return false;
-  }
+  // Step to the next block that holds any data
+  do {
+    if (block_index_ >= block_list_.size()) {
+      return false;
+    }
 
-  auto* current_block = block_list_[block_index_];
-  ++block_index_;
-  if (current_block == nullptr) {
-    return false;
-  }
-  file_index_ = 0;
-  data_size_ = current_block->DataSize();
-  if (current_block->BlockType() == "DZ") {
-    // Need a temp buffer in between
-    try {
-      file_buffer_.resize(static_cast<size_t>(data_size_) );
-    } catch (const std::exception&) {
-       return false;
+    auto* current_block = block_list_[block_index_];
+    ++block_index_;
+    if (current_block == nullptr) {
+      return false;
     }
+    file_index_ = 0;
+    data_size_ = current_block->DataSize();
+    if (current_block->BlockType() == "DZ") {
+      // Need a temp buffer in between
+      try {
+        file_buffer_.resize(static_cast<size_t>(data_size_) );
+      } catch (const std::exception&) {
+         return false;
+      }
+
+      uint64_t temp_index = 0;
+      current_block->CopyDataToBuffer(buffer_,file_buffer_, temp_index);
+    } else {
+      // Read from the file directly
+      SetFilePosition(buffer_, current_block->DataPosition());
+      file_buffer_.clear(); // Indicate that we read from the file directly
+    }
+  } while (file_index_ >= data_size_);
 
-    uint64_t temp_index = 0;
-    current_block->CopyDataToBuffer(buffer_,file_buffer_, temp_index);
-  } else {
-    // Read from the file directly
-    SetFilePosition(buffer_, current_block->DataPosition());
-    file_buffer_.clear(); // Indicate that we read from the file directly
-  }
-    // Read in the data form file to
-  if (file_index_ >= data_size_) {
-    return false;
-  }
   if (file_buffer_.empty()) {
     input = buffer_.sbumpc();
   } else {
-- 
2.43.0


From 86f83418f22240cc847d600734e142f17432ff63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:33 +0000
Subject: [PATCH 13/52] fix: link the compressed data blocks after they are
 written

---
 mdflib/src/writer4samplequeue.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mdflib/src/writer4samplequeue.cpp b/mdflib/src/writer4samplequeue.cpp
index 2f62f54..f7e8e2a 100644
--- a/mdflib/src/writer4samplequeue.cpp
+++ b/mdflib/src/writer4samplequeue.cpp
@@ -342,9 +342,8 @@ void Writer4SampleQueue::SetLastPosition(std::streambuf& buffer) {
     return;
   }
 
-  dg4->SetLastFilePosition(buffer);
-  auto position = GetFilePosition(buffer);
-  dg4->UpdateLink(buffer, 2, position);
+  // Note that the link to the data block is set after the block is written,
+  // otherwise the file isn't readable until then.
   dg4->SetLastFilePosition(buffer);
 }
 
-- 
2.43.0


From 039189eb91b365019073d35882e7f73f79918931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:38 +0000
Subject: [PATCH 14/52] fix: do not touch the data block when there is nothing
 to save

---
 mdflib/src/convertersamplequeue.cpp | 6 ++++++
 mdflib/src/writer4samplequeue.cpp   | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/mdflib/src/convertersamplequeue.cpp b/mdflib/src/convertersamplequeue.cpp
index 66a3aa9..14e0721 100644
--- a/mdflib/src/convertersamplequeue.cpp
+++ b/mdflib/src/convertersamplequeue.cpp
@@ -33,6 +33,12 @@ void ConverterSampleQueue::SaveQueue(std::unique_lock<std::mutex>& lock) {
     SaveQueueCompressed(lock);
     return;
   }
+  if (IsEmpty()) {
+    // Nothing to save. Note that the data group may belong to an earlier
+    // measurement, so its DT block must not be touched.
+    return;
+  }
+
   auto* dg4 = dynamic_cast<Dg4Block*>(&data_group_);
   if (dg4 == nullptr) {
     return;
diff --git a/mdflib/src/writer4samplequeue.cpp b/mdflib/src/writer4samplequeue.cpp
index f7e8e2a..033f95c 100644
--- a/mdflib/src/writer4samplequeue.cpp
+++ b/mdflib/src/writer4samplequeue.cpp
@@ -39,6 +39,12 @@ void Writer4SampleQueue::SaveQueue(std::unique_lock<std::mutex>& lock) {
     return;
   }
 
+  if (IsEmpty()) {
+    // Nothing to save. Note that the data group may belong to an earlier
+    // measurement, so its DT block must not be touched.
+    return;
+  }
+
   // Save uncompressed data in last DG/DT block
   auto* dg4 = dynamic_cast<Dg4Block*>(&data_group_);
   if (dg4 == nullptr) {
-- 
2.43.0


From 8c99b7ab01c6cc0a749180beb093edc881a17ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:38 +0000
Subject: [PATCH 15/52] fix: create a new data group for bus logging when
 appending

---
 mdflib/src/mdfwriter.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mdflib/src/mdfwriter.cpp b/mdflib/src/mdfwriter.cpp
index 1018dc2..e4aacef 100644
--- a/mdflib/src/mdfwriter.cpp
+++ b/mdflib/src/mdfwriter.cpp
@@ -382,9 +382,10 @@ bool MdfWriter::CreateBusLogConfiguration() {
     return false;
   }
 
-  // 1. Create new DG block if not already exists
+  // 1. Create new DG block if not already exists. A DG block that already is
+  // stored in the file (append) cannot be extended with new CG blocks.
   auto* last_dg = header->LastDataGroup();
-  if (last_dg == nullptr || !last_dg->IsEmpty()) {
+  if (last_dg == nullptr || !last_dg->IsEmpty() || last_dg->Index() > 0) {
     last_dg = header->CreateDataGroup();
   }
   if (last_dg == nullptr) {
-- 
2.43.0


From b9f9ad3c3a9f86b893764c1b835d979459efd19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:38 +0000
Subject: [PATCH 16/52] fix: update the sample counters of channel groups read
 from file

---
 mdflib/src/cg4block.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mdflib/src/cg4block.cpp b/mdflib/src/cg4block.cpp
index d492ff1..9d4817a 100644
--- a/mdflib/src/cg4block.cpp
+++ b/mdflib/src/cg4block.cpp
@@ -165,11 +165,17 @@ void Cg4Block::GetBlockProperty(BlockPropertyList &dest) const {
 uint64_t Cg4Block::Read(std::streambuf& buffer) {
   uint64_t bytes = ReadHeader4(buffer);
   bytes += ReadNumber(buffer, record_id_);
+  // The counters are updated if samples are appended to the group.
+  nof_samples_position_ = GetFilePosition(buffer);
   bytes += ReadNumber(buffer, nof_samples_);
   bytes += ReadNumber(buffer, flags_);
   bytes += ReadNumber(buffer, path_separator_);
   std::vector<uint8_t> reserved;
   bytes += ReadByte(buffer, reserved, 4);
+  if ((flags_ & CgFlag::VlsdChannel) != 0) {
+    nof_data_position_ = GetFilePosition(buffer);
+    nof_invalid_position_ = nof_data_position_ + 4;
+  }
   bytes += ReadNumber(buffer, nof_data_bytes_);
   bytes += ReadNumber(buffer, nof_invalid_bytes_);
 
-- 
2.43.0


From cea5d1e5aea509a82c7450e0272d02d1c8098df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:14 +0000
Subject: [PATCH 17/52] fix: keep the byte and bit offset of MDF 3 channels
 independent

---
 mdflib/src/cg3block.cpp | 1 +
 mdflib/src/cn3block.cpp | 8 +++++---
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/mdflib/src/cg3block.cpp b/mdflib/src/cg3block.cpp
index 90dcaac..976a05a 100644
--- a/mdflib/src/cg3block.cpp
+++ b/mdflib/src/cg3block.cpp
@@ -235,6 +235,7 @@ bool Cg3Block::PrepareForWriting() {
     uint64_t record_size = 0;
     size_of_data_record_ = 0;
     for (auto &cn3 : cn_list_) {
+      cn3->BitOffset(0);
       cn3->ByteOffset(static_cast<uint32_t>(record_size));
       record_size += cn3->DataBytes();
       size_of_data_record_ = static_cast<uint16_t>(record_size);
diff --git a/mdflib/src/cn3block.cpp b/mdflib/src/cn3block.cpp
index 4cd8d0d..df08440 100644
--- a/mdflib/src/cn3block.cpp
+++ b/mdflib/src/cn3block.cpp
@@ -330,7 +330,8 @@ uint32_t Cn3Block::BitCount() const { return nof_bits_; }
 
 
 void Cn3Block::BitOffset(uint16_t bits ) {
-  start_offset_ = bits; // Should be 0..7
+  // The start offset holds both the byte and the bit offset. Should be 0..7
+  start_offset_ = static_cast<uint16_t>((start_offset_ / 8) * 8 + bits);
 
 }
 
@@ -342,13 +343,14 @@ uint32_t Cn3Block::ByteOffset() const {
 }
 
 void Cn3Block::ByteOffset(uint32_t byte_offset) {
+  const uint16_t bit_offset = BitOffset();
   if (byte_offset < kBitOffset) {
     //
-    start_offset_ = static_cast<uint16_t>(byte_offset * 8);
+    start_offset_ = static_cast<uint16_t>(byte_offset * 8 + bit_offset);
     byte_offset_ = 0;
   } else {
     byte_offset_ = (byte_offset / kBitOffset) * kBitOffset;
-    start_offset_ = static_cast<uint16_t>((byte_offset % kBitOffset) * 8);
+    start_offset_ = static_cast<uint16_t>((byte_offset % kBitOffset) * 8 + bit_offset);
   }
 }
 
-- 
2.43.0


From 855c3d5aafcdb96a1faa5447d669bfd9bf1490ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:37 +0000
Subject: [PATCH 18/52] fix: store the parameters of an MDF 3 conversion as
 plain values

---
 mdflib/src/cc3block.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mdflib/src/cc3block.cpp b/mdflib/src/cc3block.cpp
index a538954..acd1baa 100644
--- a/mdflib/src/cc3block.cpp
+++ b/mdflib/src/cc3block.cpp
@@ -313,8 +313,8 @@ uint64_t Cc3Block::Write(std::streambuf& buffer) {
     case 9:  // Rational
       nof_values_ = static_cast<uint16_t>(value_list_.size());
       bytes += WriteNumber(buffer, nof_values_);
-      for (auto par : value_list_) {
-        bytes += WriteNumber(buffer, par);
+      for (uint16_t par = 0; par < value_list_.size(); ++par) {
+        bytes += WriteNumber(buffer, Parameter(par));
       }
       break;
 
@@ -322,8 +322,8 @@ uint64_t Cc3Block::Write(std::streambuf& buffer) {
     case 2:  // Tabular
       nof_values_ = static_cast<uint16_t>(value_list_.size() / 2);
       bytes += WriteNumber(buffer, nof_values_);
-      for (auto par : value_list_) {
-        bytes += WriteNumber(buffer, par);
+      for (uint16_t par = 0; par < value_list_.size(); ++par) {
+        bytes += WriteNumber(buffer, Parameter(par));
       }
       break;
 
-- 
2.43.0


From 3d576621156d0c562085ba9b9059f39b3035a455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:07 +0000
Subject: [PATCH 19/52] fix: apply text conversions and keep whole text results

---
 include/mdf/ichannelobserver.h | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/include/mdf/ichannelobserver.h b/include/mdf/ichannelobserver.h
index 18c3844..72f7a7a 100644
--- a/include/mdf/ichannelobserver.h
+++ b/include/mdf/ichannelobserver.h
@@ -8,7 +8,9 @@
  * channel.
  */
 #pragma once
+#include <sstream>
 #include <string>
+#include <type_traits>
 #include <vector>
 
 #include "mdf/ichannel.h"
@@ -361,9 +363,24 @@ bool IChannelObserver::GetEngValue(uint64_t sample, V& value, uint64_t array_ind
       std::string v;
       valid = GetSampleText(sample,  v, array_index);
       std::string temp;
-      conversion->Convert(v, temp);
-      std::istringstream temp1(temp);
-      temp1 >> value;
+      if (conversion->Type() == ConversionType::TextToValue) {
+        double number = 0.0;
+        valid = valid && conversion->Convert(v, number);
+        if constexpr (std::is_arithmetic_v<V>) {
+          value = static_cast<V>(number);
+          break;
+        }
+        temp = MdfHelper::FormatDouble(number,
+            conversion->IsDecimalUsed() ? conversion->Decimals() : 6);
+      } else {
+        conversion->Convert(v, temp);
+      }
+      if constexpr (std::is_same_v<V, std::string>) {
+        value = temp;
+      } else {
+        std::istringstream temp1(temp);
+        temp1 >> value;
+      }
       break;
     }
 
-- 
2.43.0


From 63315e92a4e45239222142b9f7b5db795103356a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:21 +0000
Subject: [PATCH 20/52] fix: store texts that start with '<' as text blocks

---
 mdflib/src/md4block.h   | 5 +++++
 mdflib/src/tx4block.cpp | 2 +-
 mdflib/src/tx4block.h   | 3 +++
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/mdflib/src/md4block.h b/mdflib/src/md4block.h
index 5e71084..a0073ce 100644
--- a/mdflib/src/md4block.h
+++ b/mdflib/src/md4block.h
@@ -27,5 +27,10 @@ class Md4Block : public Tx4Block, public IMetaData {
 
   void XmlSnippet(const std::string& text) override;
   [[nodiscard]] const std::string& XmlSnippet() const override;
+
+ protected:
+  [[nodiscard]] bool IsXmlBlock() const override {
+    return !text_.empty() && text_[0] == '<';
+  }
 };
 }  // namespace mdf::detail
diff --git a/mdflib/src/tx4block.cpp b/mdflib/src/tx4block.cpp
index c1b1a8d..e53a34f 100644
--- a/mdflib/src/tx4block.cpp
+++ b/mdflib/src/tx4block.cpp
@@ -85,7 +85,7 @@ uint64_t Tx4Block::Write(std::streambuf& buffer) {
   if (update) {
     return block_size_;
   }
-  const bool is_xml = !text_.empty() && text_[0] == '<';
+  const bool is_xml = IsXmlBlock();
   block_type_ = is_xml ? "##MD" : "##TX";
   block_size_ = static_cast<uint16_t>(24 + text_.size() + 1);
   link_list_.clear();
diff --git a/mdflib/src/tx4block.h b/mdflib/src/tx4block.h
index 921f8d8..b97ac73 100644
--- a/mdflib/src/tx4block.h
+++ b/mdflib/src/tx4block.h
@@ -27,6 +27,9 @@ class Tx4Block : public MdfBlock {
 
  protected:
   std::string text_;
+
+  /** \brief Only metadata (MD) blocks may be stored as XML. */
+  [[nodiscard]] virtual bool IsXmlBlock() const { return false; }
 };
 
 }  // namespace mdf::detail
-- 
2.43.0


From c5c2b04f577e9d56caf5fcd3e6cdcc48fcbcff9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:30 +0000
Subject: [PATCH 21/52] fix: tell an MDF 3 conversion its channel data type

---
 mdflib/src/cn3block.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mdflib/src/cn3block.cpp b/mdflib/src/cn3block.cpp
index df08440..82dda52 100644
--- a/mdflib/src/cn3block.cpp
+++ b/mdflib/src/cn3block.cpp
@@ -230,6 +230,7 @@ uint64_t Cn3Block::Read(std::streambuf& buffer) {
     cc_block_ = std::make_unique<Cc3Block>();
     cc_block_->Init(*this);
     cc_block_->Read(buffer);
+    cc_block_->ChannelDataType(static_cast<uint8_t>(DataType()));
   }
 
   if (Link(kIndexCe) > 0) {
-- 
2.43.0


From dae31b260446b466b78d176fe89ea5c59eba2abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:02 +0000
Subject: [PATCH 22/52] fix: reject array elements outside the array

---
 include/mdf/ichannel.h       |  3 +++
 mdflib/src/channelobserver.h | 16 ++++++++++++++++
 mdflib/src/ichannel.cpp      | 31 +++++++++++++++++++++++++++++++
 3 files changed, 50 insertions(+)

diff --git a/include/mdf/ichannel.h b/include/mdf/ichannel.h
index 86b10d7..32897d9 100644
--- a/include/mdf/ichannel.h
+++ b/include/mdf/ichannel.h
@@ -604,6 +604,9 @@ class IChannel : public IBlock  {
   virtual bool GetValid(const std::vector<uint8_t> &record_buffer,
                         uint64_t array_index) const;
 
+  /** \brief Support function that returns true if the array index exists. */
+  [[nodiscard]] bool IsArrayIndexValid(uint64_t array_index) const;
+
   /** \brief Support function that sets unsigned little endian values */
   void SetUnsignedValueLe(uint64_t value, bool valid, uint64_t array_index);
   /** \brief Support function that sets unsigned big endian values */
diff --git a/mdflib/src/channelobserver.h b/mdflib/src/channelobserver.h
index a84ae7c..749a7fb 100644
--- a/mdflib/src/channelobserver.h
+++ b/mdflib/src/channelobserver.h
@@ -174,6 +174,10 @@ bool ChannelObserver<T>::GetSampleUnsigned(uint64_t sample,
                                            uint64_t& value,
                                            uint64_t array_index) const {
   const auto array_size = channel_.ArraySize();
+  if (array_index >= array_size) {
+    value = 0;
+    return false;
+  }
   const auto sample_index = static_cast<size_t>((sample * array_size) + array_index);
   value = sample_index < value_list_.size() ?
       static_cast<uint64_t>(value_list_[sample_index]) : static_cast<uint64_t>(T{});
@@ -196,6 +200,10 @@ bool ChannelObserver<T>::GetSampleSigned(uint64_t sample,
                                          int64_t& value,
                                          uint64_t array_index) const {
   const auto array_size = channel_.ArraySize();
+  if (array_index >= array_size) {
+    value = 0;
+    return false;
+  }
   const auto sample_index = static_cast<size_t>((sample * array_size) + array_index);
   value = sample_index < value_list_.size() ? static_cast<int64_t>(value_list_[sample_index]) : 0;
   return sample_index < valid_list_.size() && valid_list_[sample_index];
@@ -214,6 +222,10 @@ template <class T>
 bool ChannelObserver<T>::GetSampleFloat(uint64_t sample, double& value,
                                         uint64_t array_index) const {
   const auto array_size = channel_.ArraySize();
+  if (array_index >= array_size) {
+    value = 0.0;
+    return false;
+  }
   const auto sample_index = static_cast<size_t>( (sample * array_size) + array_index);
   value = sample_index < value_list_.size() ? static_cast<double>(value_list_[sample_index]) : 0;
   return sample_index < valid_list_.size() && valid_list_[sample_index];
@@ -234,6 +246,10 @@ bool ChannelObserver<T>::GetSampleText(uint64_t sample,
                                        std::string& value,
                                        uint64_t array_index) const {
   const auto array_size = channel_.ArraySize();
+  if (array_index >= array_size) {
+    value = {};
+    return false;
+  }
   const auto sample_index = static_cast<size_t>( (sample * array_size) + array_index );
   try {
     std::ostringstream temp;
diff --git a/mdflib/src/ichannel.cpp b/mdflib/src/ichannel.cpp
index d26911a..a987040 100644
--- a/mdflib/src/ichannel.cpp
+++ b/mdflib/src/ichannel.cpp
@@ -18,6 +18,9 @@ namespace mdf {
 bool IChannel::GetUnsignedValue(const std::vector<uint8_t> &record_buffer,
                                 uint64_t &dest,
                                 uint64_t array_index) const {
+  if (!IsArrayIndexValid(array_index)) {
+    return false;
+  }
 
   const size_t bit_offset = (ByteOffset() * 8 + BitOffset())
     + static_cast<size_t>( (array_index * BitCount()) );
@@ -72,6 +75,9 @@ bool IChannel::GetUnsignedValue(const std::vector<uint8_t> &record_buffer,
 bool IChannel::GetSignedValue(const std::vector<uint8_t> &record_buffer,
                               int64_t &dest,
                               uint64_t array_index) const {
+  if (!IsArrayIndexValid(array_index)) {
+    return false;
+  }
   // Copy to a temp data buffer, so we can get rid of the bit offset nonsense
   // std::vector<uint8_t> data_buffer;
   // CopyToDataBuffer(record_buffer, data_buffer, array_index);
@@ -100,6 +106,9 @@ bool IChannel::GetSignedValue(const std::vector<uint8_t> &record_buffer,
 bool IChannel::GetFloatValue(const std::vector<uint8_t> &record_buffer,
                              double &dest,
                              uint64_t array_index ) const {
+  if (!IsArrayIndexValid(array_index)) {
+    return false;
+  }
   const size_t bit_offset = (ByteOffset() * 8 + BitOffset())
         + static_cast<size_t>( (array_index * BitCount()) );
 
@@ -291,6 +300,9 @@ bool IChannel::GetValid(const std::vector<uint8_t> &, uint64_t index) const {
 
 void IChannel::SetUnsignedValueLe(uint64_t value, bool valid,
                                   uint64_t array_index) {
+  if (!IsArrayIndexValid(array_index)) {
+    return;
+  }
   auto &buffer = SampleBuffer();
   if (buffer.empty()) {
     MDF_ERROR() << "Sample buffer not sized. Invalid use of function.";
@@ -339,6 +351,9 @@ void IChannel::SetUnsignedValueLe(uint64_t value, bool valid,
 }
 
 void IChannel::SetUnsignedValueBe(uint64_t value, bool valid, uint64_t array_index) {
+  if (!IsArrayIndexValid(array_index)) {
+    return;
+  }
   auto &buffer = SampleBuffer();
   if (buffer.empty()) {
     MDF_ERROR() << "Sample buffer not sized. Invalid use of function.";
@@ -386,6 +401,9 @@ void IChannel::SetUnsignedValueBe(uint64_t value, bool valid, uint64_t array_ind
 
 void IChannel::SetSignedValueLe(int64_t value, bool valid,
                                 uint64_t array_index) {
+  if (!IsArrayIndexValid(array_index)) {
+    return;
+  }
   auto &buffer = SampleBuffer();
   if (buffer.empty()) {
     MDF_ERROR() << "Sample buffer not sized. Invalid use of function.";
@@ -434,6 +452,9 @@ void IChannel::SetSignedValueLe(int64_t value, bool valid,
 
 void IChannel::SetSignedValueBe(int64_t value, bool valid,
                                 uint64_t array_index) {
+  if (!IsArrayIndexValid(array_index)) {
+    return;
+  }
   auto &buffer = SampleBuffer();
   if (buffer.empty()) {
     MDF_ERROR() << "Sample buffer not sized. Invalid use of function.";
@@ -480,6 +501,9 @@ void IChannel::SetSignedValueBe(int64_t value, bool valid,
 }
 
 void IChannel::SetFloatValueLe(double value, bool valid, uint64_t array_index) {
+  if (!IsArrayIndexValid(array_index)) {
+    return;
+  }
   auto &buffer = SampleBuffer();
   if (buffer.empty()) {
     MDF_ERROR() << "Sample buffer not sized. Invalid use of function.";
@@ -515,6 +539,9 @@ void IChannel::SetFloatValueLe(double value, bool valid, uint64_t array_index) {
 }
 
 void IChannel::SetFloatValueBe(double value, bool valid, uint64_t array_index) {
+  if (!IsArrayIndexValid(array_index)) {
+    return;
+  }
   auto &buffer = SampleBuffer();
   if (buffer.empty()) {
     MDF_ERROR() << "Sample buffer not sized. Invalid use of function.";
@@ -1102,6 +1129,10 @@ std::vector<const IAttachment *> IChannel::AttachmentList() const {
   return {};
 }
 
+bool IChannel::IsArrayIndexValid(uint64_t array_index) const {
+  return array_index == 0 || array_index < ArraySize();
+}
+
 uint64_t IChannel::ArraySize() const {
   const auto array_list = ChannelArrays();
   if (array_list.empty()) {
-- 
2.43.0


From 0e75e1ba44437bfb6b621f1254a5aea5b1a1d522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:12 +0000
Subject: [PATCH 23/52] fix: reserve the data links of a DG template array

---
 mdflib/src/ca4block.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdflib/src/ca4block.cpp b/mdflib/src/ca4block.cpp
index fe6234c..485a883 100644
--- a/mdflib/src/ca4block.cpp
+++ b/mdflib/src/ca4block.cpp
@@ -393,7 +393,7 @@ uint64_t Ca4Block::Write(std::streambuf& buffer) {
   block_length_ = static_cast<uint64_t>(24 + 8); // Next CA/CN block required
   size_t nof_links = 1;
   if (Storage() == ArrayStorage::DgTemplate) {
-    const size_t nof_data_links =  data_links_.size();
+    const auto nof_data_links = static_cast<size_t>(ProductOfArray());
     nof_links += nof_data_links;
     block_length_ += static_cast<uint64_t>(nof_data_links) * 8;
   }
-- 
2.43.0


From 053ee09c5854119e17df7f5637f6c9d7cda4700a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:23 +0000
Subject: [PATCH 24/52] fix: CAN bus observer decodes R0, BitPosition,
 ErrorType, DLC and the message type

---
 mdflib/src/canbusobserver.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/mdflib/src/canbusobserver.cpp b/mdflib/src/canbusobserver.cpp
index f33b6ce..fb8332e 100644
--- a/mdflib/src/canbusobserver.cpp
+++ b/mdflib/src/canbusobserver.cpp
@@ -80,12 +80,13 @@ CanBusObserver::CanBusObserver(const IDataGroup& data_group,
   edl_channel_ = GetChannel("EDL");
   brs_channel_ = GetChannel("BRS");
   esi_channel_ = GetChannel("ESI");
-  r0_channel_ = GetChannel("RO");
+  r0_channel_ = GetChannel("R0");
   r1_channel_ = GetChannel("R1");
   wake_up_channel_ = GetChannel("WakeUp");
   single_wire_channel_ = GetChannel("SingleWire");
   frame_duration_channel_ = GetChannel("FrameDuration");
   bit_position_channel_ = GetChannel("BitPosition");
+  error_type_channel_ = GetChannel("ErrorType");
 }
 
 std::string CanBusObserver::Name() const {
@@ -249,6 +250,7 @@ bool CanBusObserver::FireCallback() {
   }
   const uint64_t sample = last_sample_.sample;
   CanMessage msg;
+  msg.TypeOfMessage(message_type_);
   ParseCanMessage(msg);
 
   return OnCanMessage(sample, msg);
@@ -298,12 +300,6 @@ void CanBusObserver::ParseCanMessage(CanMessage& msg) const {
     msg.ExtendedId(extended);
   }
 
-  if (dlc_channel_ != nullptr) {
-    uint8_t dlc = 0;
-    GetChannelValue(*dlc_channel_, current_sample_index_, record, dlc);
-    msg.Dlc(dlc);
-  }
-
   if (length_channel_ != nullptr) {
     double length = 0.0;
     GetEngValue(*length_channel_, current_sample_index_, record, length);
@@ -340,6 +336,13 @@ void CanBusObserver::ParseCanMessage(CanMessage& msg) const {
     }
   }
 
+  // The DLC is set last, as setting the payload also sets the DLC.
+  if (dlc_channel_ != nullptr) {
+    uint8_t dlc = 0;
+    GetChannelValue(*dlc_channel_, current_sample_index_, record, dlc);
+    msg.Dlc(dlc);
+  }
+
   if (dir_channel_ != nullptr) {
     // Note that eng value is a enumerate string
     bool direction = false;
@@ -411,7 +414,7 @@ void CanBusObserver::ParseCanMessage(CanMessage& msg) const {
   if (bit_position_channel_ != nullptr) {
     double position = 0.0;
     GetEngValue(*bit_position_channel_, current_sample_index_, record, position);
-    msg.FrameDuration(static_cast<uint16_t>(position));
+    msg.BitPosition(static_cast<uint16_t>(position));
    }
 
    if (error_type_channel_ != nullptr) {
-- 
2.43.0


From 54dd84f5d56625de809197391c588d91c63eae3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:30 +0000
Subject: [PATCH 25/52] fix: LIN channel names, SOF width and ReceiveError
 checksum model position

---
 mdflib/src/linconfigadapter.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mdflib/src/linconfigadapter.cpp b/mdflib/src/linconfigadapter.cpp
index e93ba1c..44ca3b0 100644
--- a/mdflib/src/linconfigadapter.cpp
+++ b/mdflib/src/linconfigadapter.cpp
@@ -222,7 +222,7 @@ const bool mandatory_only = MandatoryMembersOnly();
   }
 
   if (IChannel* frame_bytes =
-          cn_frame->CreateChannelComposition("LIN_ChecksumError..DataBytes");
+          cn_frame->CreateChannelComposition("LIN_ChecksumError.DataBytes");
       frame_bytes != nullptr) {
     frame_bytes->Type(ChannelType::MaxLength);
     frame_bytes->BitCount(64);
@@ -239,7 +239,7 @@ const bool mandatory_only = MandatoryMembersOnly();
       crc_model != nullptr) {
     crc_model->DataType(ChannelDataType::SignedIntegerLe);
   }
-  if ( IChannel* sof = CreateBitsChannel(*cn_frame, "LIN_ChecksumError..SOF", 21, 0, 64);
+  if ( IChannel* sof = CreateBitsChannel(*cn_frame, "LIN_ChecksumError.SOF", 21, 0, 64);
       sof != nullptr) {
      sof->Unit("ns");
   }
@@ -315,7 +315,7 @@ void LinConfigAdapter::CreateReceiveErrorChannels(IChannelGroup& group) const {
     frame_bytes->BitOffset(0);
   }
 
-  if (IChannel* crc_model = CreateBitsChannel(*cn_frame, "LIN_ReceiveError.ChecksumModel",9, 6, 2);
+  if (IChannel* crc_model = CreateBitsChannel(*cn_frame, "LIN_ReceiveError.ChecksumModel", 11, 4, 2);
       crc_model != nullptr) {
     crc_model->DataType(ChannelDataType::SignedIntegerLe);
   }
@@ -408,7 +408,7 @@ void LinConfigAdapter::CreateWakeUpChannels(IChannelGroup& group) const {
     baudrate->Unit("bits/s");
   }
 
-  if (IChannel* sof = CreateBitsChannel(*cn_frame, "LIN_WakeUp.SOF", 13, 0, 8);
+  if (IChannel* sof = CreateBitsChannel(*cn_frame, "LIN_WakeUp.SOF", 13, 0, 64);
       sof != nullptr) {
     sof->Unit("ns");
   }
@@ -431,7 +431,7 @@ void LinConfigAdapter::CreateTransmissionErrorChannels(IChannelGroup& group) con
     CreateSourceInformation(*cn_frame);
   }
   CreateBusChannel(*cn_frame);
-  CreateBitsChannel(*cn_frame,"LIN_Transmission.ID", 9, 0, 6);
+  CreateBitsChannel(*cn_frame,"LIN_TransmissionError.ID", 9, 0, 6);
 
   if (mandatory) {
     return;
@@ -491,7 +491,7 @@ void LinConfigAdapter::CreateSpikeChannels(IChannelGroup& group) const {
     baudrate->Unit("bits/s");
       }
 
-  if (IChannel* sof = CreateBitsChannel(*cn_frame, "LIN_Spike.SOF", 13, 0, 8);
+  if (IChannel* sof = CreateBitsChannel(*cn_frame, "LIN_Spike.SOF", 13, 0, 64);
       sof != nullptr) {
     sof->Unit("ns");
       }
-- 
2.43.0


From 47e514c615a695e3b026994ed3ea8ed429ea32c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:37 +0000
Subject: [PATCH 26/52] fix: LIN direction is stored in the bit its channel
 reads

---
 mdflib/src/linmessage.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdflib/src/linmessage.cpp b/mdflib/src/linmessage.cpp
index 1f2ac0b..1e05e72 100644
--- a/mdflib/src/linmessage.cpp
+++ b/mdflib/src/linmessage.cpp
@@ -166,7 +166,7 @@ void LinMessage::MakeDataFrame(SampleRecord& sample) const {
   // First 8 bytes are time in seconds (double)
   record[8] = BusChannel();
   record[9] = LinId() & kLinIdMask;
-  record[9] |= (Dir() ? 0x01 : 0x00) << 6;
+  record[9] |= (Dir() ? 0x01 : 0x00) << 7;
   record[10] = ReceivedDataByteCount();
   record[10] |= (DataLength() & 0x0F) << 4;
   FillDataBytes(record, 11, data_bytes_);// The MLSD storage is fixed in LIN.
@@ -225,10 +225,10 @@ void LinMessage::MakeChecksumError(SampleRecord& sample) const {
   // First 8 bytes are time in seconds (double)
   record[8] = BusChannel();
   record[9] = LinId() & kLinIdMask;
+  record[9] |= (Dir() ? 0x01 : 0x00) << 7;
   if (mandatory) {
     return;
   }
-  record[9] |= (Dir() ? 0x01 : 0x00) << 6;
   record[10] = ReceivedDataByteCount();
   record[10] |= (DataLength() & 0x0F) << 4;
   FillDataBytes(record, 11, data_bytes_);// The MLSD storage is fixed in LIN.
-- 
2.43.0


From db0d19e820ce325efc319829471bc85385ae82a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:44 +0000
Subject: [PATCH 27/52] fix: FlexRay records store the channel and end with the
 data index

---
 mdflib/src/flexrayconfigadapter.cpp | 12 ++++++------
 mdflib/src/flexraymessage.cpp       | 22 +++++++++++-----------
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/mdflib/src/flexrayconfigadapter.cpp b/mdflib/src/flexrayconfigadapter.cpp
index cf6cbf8..367edb2 100644
--- a/mdflib/src/flexrayconfigadapter.cpp
+++ b/mdflib/src/flexrayconfigadapter.cpp
@@ -192,9 +192,9 @@ void FlexRayConfigAdapter::CreateFrameChannel(IChannelGroup& channel_group) cons
   parent_frame->Type(ChannelType::FixedLength);
   parent_frame->Sync(ChannelSyncType::None);
   if (mandatory_members_only) {
-    parent_frame->DataBytes(24-8);
+    parent_frame->DataBytes(22-8);
   } else {
-    parent_frame->DataBytes(34-8);
+    parent_frame->DataBytes(32-8);
   }
   parent_frame->Flags(CnFlag::BusEvent);
   parent_frame->DataType(ChannelDataType::ByteArray);
@@ -245,7 +245,7 @@ void FlexRayConfigAdapter::CreatePduChannel(IChannelGroup& channel_group) const
   parent_frame->Type(ChannelType::FixedLength);
   parent_frame->Sync(ChannelSyncType::None);
   if (mandatory_members_only) {
-    parent_frame->DataBytes(24-8);
+    parent_frame->DataBytes(22-8);
   } else {
     parent_frame->DataBytes(28-8);
   }
@@ -294,7 +294,7 @@ void FlexRayConfigAdapter::CreateFrameHeaderChannel(IChannelGroup& channel_group
   if (mandatory_members_only) {
     parent_frame->DataBytes(13-8);
   } else {
-    parent_frame->DataBytes(34-8);
+    parent_frame->DataBytes(32-8);
   }
   parent_frame->Flags(CnFlag::BusEvent);
   parent_frame->DataType(ChannelDataType::ByteArray);
@@ -347,7 +347,7 @@ void FlexRayConfigAdapter::CreateNullFrameChannel(IChannelGroup& channel_group)
   if (mandatory_members_only) {
     parent_frame->DataBytes(12-8);
   } else {
-    parent_frame->DataBytes(34-8);
+    parent_frame->DataBytes(32-8);
   }
   parent_frame->Flags(CnFlag::BusEvent);
   parent_frame->DataType(ChannelDataType::ByteArray);
@@ -399,7 +399,7 @@ void FlexRayConfigAdapter::CreateErrorFrameChannel(IChannelGroup& channel_group)
   if (mandatory_members_only) {
     parent_frame->DataBytes(12-8);
   } else {
-    parent_frame->DataBytes(35-8);
+    parent_frame->DataBytes(33-8);
   }
   parent_frame->Flags(CnFlag::BusEvent);
   parent_frame->DataType(ChannelDataType::ByteArray);
diff --git a/mdflib/src/flexraymessage.cpp b/mdflib/src/flexraymessage.cpp
index 29e5b42..fe638f5 100644
--- a/mdflib/src/flexraymessage.cpp
+++ b/mdflib/src/flexraymessage.cpp
@@ -43,7 +43,7 @@ const std::vector<uint8_t>& FlexRayFrame::DataBytes() const {
 void FlexRayFrame::ToRaw(SampleRecord& sample) const {
   const bool mandatory_members_only = data_group_ != nullptr ?
                      data_group_->MandatoryMembersOnly() : false;
-  const size_t record_size = mandatory_members_only ? 24 : 34;
+  const size_t record_size = mandatory_members_only ? 22 : 32;
 
   // Get a reference to the fixed size record buffer and size it
   auto& record = sample.record_buffer;
@@ -52,7 +52,7 @@ void FlexRayFrame::ToRaw(SampleRecord& sample) const {
   record[8] = BusChannel();
   MdfHelper::UnsignedToRaw(true, 0, 11, FrameId(), record.data() + 9);
   record[11] = static_cast<uint8_t>(CycleCount()) & 0x3F;
-  record[11] |= (static_cast<uint8_t>(FlexRayChannel()) & 0x01) << 6;
+  record[11] |= (static_cast<uint8_t>(Channel()) & 0x01) << 6;
   record[11] |= (static_cast<uint8_t>(Direction()) & 0x01) << 7;
   record[12] = PayloadLength();
   record[13] = static_cast<uint8_t>(DataBytes().size());
@@ -95,7 +95,7 @@ const std::vector<uint8_t>& FlexRayPdu::DataBytes() const {
 void FlexRayPdu::ToRaw(SampleRecord& sample) const {
   const bool mandatory_members_only = data_group_ != nullptr ?
                    data_group_->MandatoryMembersOnly() : false;
-  const size_t record_size = mandatory_members_only ? 24 : 28;
+  const size_t record_size = mandatory_members_only ? 22 : 28;
 
   // Get a reference to the fixed size record buffer and size it
   auto& record = sample.record_buffer;
@@ -104,7 +104,7 @@ void FlexRayPdu::ToRaw(SampleRecord& sample) const {
   record[8] = BusChannel();
   MdfHelper::UnsignedToRaw(true, 0, 11, FrameId(), record.data() + 9);
   record[11] = static_cast<uint8_t>(CycleCount() & 0x3F);
-  record[11] |= (static_cast<uint8_t>(FlexRayChannel()) & 0x01) << 6;
+  record[11] |= (static_cast<uint8_t>(Channel()) & 0x01) << 6;
   record[12] = Length();
   record[13] = static_cast<uint8_t>(DataBytes().size());
 
@@ -144,7 +144,7 @@ const std::vector<uint8_t>& FlexRayFrameHeader::FillDataBytes() const {
 void FlexRayFrameHeader::ToRaw(SampleRecord& sample) const {
   const bool mandatory_members_only = data_group_ != nullptr ?
                       data_group_->MandatoryMembersOnly() : false;
-  const size_t record_size = mandatory_members_only ? 13 : 34;
+  const size_t record_size = mandatory_members_only ? 13 : 32;
 
   // Get a reference to the fixed size record buffer and size it
   auto& record = sample.record_buffer;
@@ -153,7 +153,7 @@ void FlexRayFrameHeader::ToRaw(SampleRecord& sample) const {
   record[8] = BusChannel();
   MdfHelper::UnsignedToRaw(true, 0, 11, FrameId(), record.data() + 9);
   record[11] = static_cast<uint8_t>(CycleCount()) & 0x3F;
-  record[11] |= (static_cast<uint8_t>(FlexRayChannel()) & 0x01) << 6;
+  record[11] |= (static_cast<uint8_t>(Channel()) & 0x01) << 6;
   record[11] |= (static_cast<uint8_t>(Direction()) & 0x01) << 7;
   record[12] = PayloadLength();
 
@@ -191,7 +191,7 @@ FlexRayNullFrame::FlexRayNullFrame()
 void FlexRayNullFrame::ToRaw(SampleRecord& sample) const {
   const bool mandatory_members_only = data_group_ != nullptr ?
                                                              data_group_->MandatoryMembersOnly() : false;
-  const size_t record_size = mandatory_members_only ? 12 : 34;
+  const size_t record_size = mandatory_members_only ? 12 : 32;
 
   // Get a reference to the fixed size record buffer and size it
   auto& record = sample.record_buffer;
@@ -200,7 +200,7 @@ void FlexRayNullFrame::ToRaw(SampleRecord& sample) const {
   record[8] = BusChannel();
   MdfHelper::UnsignedToRaw(true, 0, 11, FrameId(), record.data() + 9);
   record[11] = static_cast<uint8_t>(CycleCount()) & 0x3F;
-  record[11] |= (static_cast<uint8_t>(FlexRayChannel()) & 0x01) << 6;
+  record[11] |= (static_cast<uint8_t>(Channel()) & 0x01) << 6;
   record[11] |= (static_cast<uint8_t>(Direction()) & 0x01) << 7;
   if (mandatory_members_only) {
     sample.vlsd_data = false;
@@ -238,7 +238,7 @@ FlexRayErrorFrame::FlexRayErrorFrame()
 void FlexRayErrorFrame::ToRaw(SampleRecord& sample) const {
   const bool mandatory_members_only = data_group_ != nullptr ?
                                                              data_group_->MandatoryMembersOnly() : false;
-  const size_t record_size = mandatory_members_only ? 12 : 35;
+  const size_t record_size = mandatory_members_only ? 12 : 33;
 
   // Get a reference to the fixed size record buffer and size it
   auto& record = sample.record_buffer;
@@ -247,7 +247,7 @@ void FlexRayErrorFrame::ToRaw(SampleRecord& sample) const {
   record[8] = BusChannel();
   MdfHelper::UnsignedToRaw(true, 0, 11, FrameId(), record.data() + 9);
   record[11] = static_cast<uint8_t>(CycleCount()) & 0x3F;
-  record[11] |= (static_cast<uint8_t>(FlexRayChannel()) & 0x01) << 6;
+  record[11] |= (static_cast<uint8_t>(Channel()) & 0x01) << 6;
   record[11] |= (static_cast<uint8_t>(Direction()) & 0x01) << 7;
   if (mandatory_members_only) {
     sample.vlsd_data = false;
@@ -302,7 +302,7 @@ void FlexRaySymbol::ToRaw(SampleRecord& sample) const {
   // The time allocate the first 8 bytes (double)
   record[8] = BusChannel();
   record[9] = static_cast<uint8_t>(CycleCount()) & 0x3F;
-  record[9] |= (static_cast<uint8_t>(FlexRayChannelMask()) & 0x03) << 6;
+  record[9] |= (static_cast<uint8_t>(ChannelMask()) & 0x03) << 6;
   if (mandatory_members_only) {
     return;
   }
-- 
2.43.0


From 5e754e418d76c6640f8a6b6eb6a00e76e6425ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:51 +0000
Subject: [PATCH 28/52] fix: UTF-8 decoding stops at the end of malformed text,
 surrogate pairs are combined

---
 mdflib/src/cutf.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/mdflib/src/cutf.cpp b/mdflib/src/cutf.cpp
index b915711..ec3626e 100644
--- a/mdflib/src/cutf.cpp
+++ b/mdflib/src/cutf.cpp
@@ -243,6 +243,16 @@ uint32_t cutf_next(uint8_t** it, size_t* remain)
     uint32_t cp = CUTF_MASK8(**it);
     size_t length = cutf_sequence_length(*it);
 
+    // A malformed sequence ends at the first octet that isn't a trail octet,
+    // e.g. the terminating zero.
+    size_t nof_trail = 0;
+    while (nof_trail + 1 < length && CUTF_IS_TRAIL((*it)[nof_trail + 1])) {
+        ++nof_trail;
+    }
+    if (length > nof_trail + 1) {
+        length = 1;
+    }
+
     if(remain)
         *remain -= length;
 
@@ -341,7 +351,13 @@ size_t cutf_32to8(uint32_t* start, uint32_t* end, uint8_t* out, size_t outsize)
     uint8_t* it = out;
     for(; start != end; ++start)
     {
-        it = cutf_append(*start, it, &outsize);
+        uint32_t cp = *start;
+        // UTF-16 text may hold surrogate pairs
+        if(CUTF_IS_LEAD_SURROGATE(cp) && start + 1 != end && CUTF_IS_TRAIL_SURROGATE(start[1])) {
+            ++start;
+            cp = (cp << 10) + *start + CUTF_SURROGATE_OFFSET;
+        }
+        it = cutf_append(cp, it, &outsize);
     }
     
     if( outsize != 0)
-- 
2.43.0


From 0bbedd775fa7740a0255d6598653a917aaa78bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:13 +0000
Subject: [PATCH 29/52] fix: BigBuffer::value() read a temporary after its
 scope

---
 mdflib/src/bigbuffer.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mdflib/src/bigbuffer.h b/mdflib/src/bigbuffer.h
index 4b1fdef..19ce0cf 100644
--- a/mdflib/src/bigbuffer.h
+++ b/mdflib/src/bigbuffer.h
@@ -67,15 +67,17 @@ size_t BigBuffer<T>::size() const {
 
 template <typename T>
 T BigBuffer<T>::value() const {
-  const T* val = reinterpret_cast<const T*>(buffer_.data());
+  T val;
   if (IsLittleEndian()) { // Computer uses little endian
     std::array<uint8_t, sizeof(T)> temp = {0};
     for (size_t index = sizeof(T); index > 0; --index) {
       temp[sizeof(T) - index] = buffer_[index - 1];
     }
-    val = reinterpret_cast<const T*>(temp.data());
+    memcpy(&val, temp.data(), sizeof(T));
+  } else {
+    memcpy(&val, buffer_.data(), sizeof(T));
   }
-  return *val;
+  return val;
 }
 
 }  // namespace mdf
-- 
2.43.0


From 8969c7bc527ebab6aac54bfd081b7640be952832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:00 +0000
Subject: [PATCH 30/52] fix: time stamps read from ISO texts lost fractions and
 zone minutes, negative zone offsets were divided as unsigned

---
 mdflib/src/mdf3timestamp.cpp |  6 +++---
 mdflib/src/timestamp.cpp     | 29 ++++++++++++++++-------------
 2 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/mdflib/src/mdf3timestamp.cpp b/mdflib/src/mdf3timestamp.cpp
index 494821f..0be6e15 100644
--- a/mdflib/src/mdf3timestamp.cpp
+++ b/mdflib/src/mdf3timestamp.cpp
@@ -2,9 +2,9 @@
 
 #include "mdf/mdfhelper.h"
 namespace {
-constexpr uint64_t kNanosecondsPerSecond = 1'000'000'000;
-constexpr uint64_t kNanosecondsPerMinute = 60 * kNanosecondsPerSecond;
-constexpr uint64_t kNanosecondsPerHour = 60 * kNanosecondsPerMinute;
+constexpr int64_t kNanosecondsPerSecond = 1'000'000'000;
+constexpr int64_t kNanosecondsPerMinute = 60 * kNanosecondsPerSecond;
+constexpr int64_t kNanosecondsPerHour = 60 * kNanosecondsPerMinute;
 constexpr uint32_t kSecondsPerMinute = 60;
 constexpr uint32_t kSecondsPerHour = 60 * kSecondsPerMinute;
 }  // namespace
diff --git a/mdflib/src/timestamp.cpp b/mdflib/src/timestamp.cpp
index f2b8624..b2cb0a9 100644
--- a/mdflib/src/timestamp.cpp
+++ b/mdflib/src/timestamp.cpp
@@ -12,9 +12,9 @@
 using namespace std::chrono;
 
 namespace {
-constexpr uint64_t kNanosecondsPerSecond = 1'000'000'000;
-constexpr uint64_t kNanosecondsPerMinute = 60 * kNanosecondsPerSecond;
-constexpr uint64_t kNanosecondsPerHour = 60 * kNanosecondsPerMinute;
+constexpr int64_t kNanosecondsPerSecond = 1'000'000'000;
+constexpr int64_t kNanosecondsPerMinute = 60 * kNanosecondsPerSecond;
+constexpr int64_t kNanosecondsPerHour = 60 * kNanosecondsPerMinute;
 constexpr uint32_t kSecondsPerMinute = 60;
 constexpr uint32_t kSecondsPerHour = 60 * kSecondsPerMinute;
 }  // namespace
@@ -220,7 +220,7 @@ void UtcTimestamp::FromIsoDateTime(const std::string &date_time) {
         case DateState::MilliSecond:
           if (input == '.') {
             state = DateState::MilliSecond;
-          } else if (std::isdigit(input) && minute.str().size() < 9) {
+          } else if (std::isdigit(input) && millisecond.str().size() < 9) {
             millisecond << input;
           } else if (input == 'Z') {
             utc = true;
@@ -233,8 +233,11 @@ void UtcTimestamp::FromIsoDateTime(const std::string &date_time) {
         case DateState::TzHour:
           if (input == ':') {
             state = DateState::TzMinute;
-          } else if (std::isdigit(input) ) {
-            tz_hour << input;
+          } else if (std::isdigit(input) && tz_hour.str().size() < 3) {
+            tz_hour << input;  // Sign and 2 digits
+          } else if (std::isdigit(input)) {
+            tz_minute << input;
+            state = DateState::TzMinute;
           }
           break;
 
@@ -296,7 +299,9 @@ void UtcTimestamp::FromIsoDateTime(const std::string &date_time) {
     tz_offset = tz_hour.str().empty() ? 0 : std::stoi(tz_hour.str());
     // MDF_TRACE() << tz_hour.str() << "/" << tz_offset << std::endl;
     tz_offset *= 60;  // Now minutes
-    tz_offset += tz_minute.str().empty() ? 0 : std::stoi(tz_minute.str());
+    // The sign belongs to both the hours and the minutes
+    const int tz_min = tz_minute.str().empty() ? 0 : std::stoi(tz_minute.str());
+    tz_offset += tz_hour.str().find('-') != std::string::npos ? -tz_min : tz_min;
     tz_offset *= 60;  // Now in seconds
 
     // 0..59 as normal
@@ -326,13 +331,11 @@ void UtcTimestamp::FromIsoDateTime(const std::string &date_time) {
     utc_timestamp_ *= 1'000'000'000;  // Now ns
     if (millisecond.str().empty()) {
       return;
-    } else if (millisecond.str().size() <= 3) {
-      utc_timestamp_ += std::stoull(millisecond.str()) * 1'000'000;
-    } else if (millisecond.str().size() <= 6) {
-      utc_timestamp_ += std::stoull(millisecond.str()) * 1'000;
-    } else {
-      utc_timestamp_ += std::stoull(millisecond.str());
     }
+    // The digits are a fraction of a second
+    std::string fraction = millisecond.str();
+    fraction.resize(9, '0');
+    utc_timestamp_ += std::stoull(fraction);
   } catch (const std::exception& err) {
     MDF_ERROR() << "Invalid cast: " << err.what();
   }
-- 
2.43.0


From de4bd9a3e6c0350760fcd97546c1f5f20df3bc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:35 +0000
Subject: [PATCH 31/52] fix: copying a conversion dropped its texts and nested
 conversions

---
 mdflib/src/cc4block.cpp | 46 +++++++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/mdflib/src/cc4block.cpp b/mdflib/src/cc4block.cpp
index 99f43bf..4c87d50 100644
--- a/mdflib/src/cc4block.cpp
+++ b/mdflib/src/cc4block.cpp
@@ -560,31 +560,33 @@ void Cc4Block::CopyFrom(const IChannelConversion& source) {
     cc4->GetCcComment(comment);
     SetCcComment(comment);
 
-    CcUnit unit;
-    cc4->GetCcUnit(unit);
-    SetCcUnit(unit);
+    if (cc4->unit_) {
+      CcUnit unit;
+      cc4->GetCcUnit(unit);
+      SetCcUnit(unit);
+    }
 
+    // The position in the list is significant, so also empty references
+    // needs to be copied.
+    ref_list_.clear();
     for (const auto& source_ref : cc4->ref_list_) {
-      if (!source_ref) {
-        continue;
-      }
-      if (source_ref->BlockType() != "TX") {
-        const auto* source_tx4 = dynamic_cast<const Tx4Block*>(source_ref.get());
-        if (auto tx4_block = std::make_unique<Tx4Block>();
-            tx4_block && source_tx4 != nullptr) {
-          tx4_block->Init(*this);
-          tx4_block->Text(source_tx4->Text());
-          ref_list_.emplace_back(std::move(tx4_block));
-        }
-      } else if (source_ref->BlockType() == "CC") {
-        const auto* source_cc4 = dynamic_cast<const Cc4Block*>(source_ref.get());
-        if (auto cc4_block = std::make_unique<Cc4Block>();
-            cc4_block && source_cc4 != nullptr) {
-          cc4_block->Init(*this);
-          cc4_block->CopyFrom(*source_cc4);
-          ref_list_.emplace_back(std::move(cc4_block));
-        }
+      std::unique_ptr<MdfBlock> dest_ref;
+      if (const auto* source_tx4 =
+              dynamic_cast<const Tx4Block*>(source_ref.get());
+          source_tx4 != nullptr) {
+        auto tx4_block = std::make_unique<Tx4Block>();
+        tx4_block->Init(*this);
+        tx4_block->Text(source_tx4->Text());
+        dest_ref = std::move(tx4_block);
+      } else if (const auto* source_cc4 =
+                     dynamic_cast<const Cc4Block*>(source_ref.get());
+                 source_cc4 != nullptr) {
+        auto cc4_block = std::make_unique<Cc4Block>();
+        cc4_block->Init(*this);
+        cc4_block->CopyFrom(*source_cc4);
+        dest_ref = std::move(cc4_block);
       }
+      ref_list_.emplace_back(std::move(dest_ref));
     }
   }
 }
-- 
2.43.0


From 97e664a574919893ce2b4802aa57bdc1ac24ea15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:44 +0000
Subject: [PATCH 32/52] fix: sorting recalculated the master channel of copied
 records

---
 mdflib/src/mdftask.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mdflib/src/mdftask.cpp b/mdflib/src/mdftask.cpp
index 5c4c12b..01c96cc 100644
--- a/mdflib/src/mdftask.cpp
+++ b/mdflib/src/mdftask.cpp
@@ -282,6 +282,8 @@ IChannelGroup* MdfTask::CopyChannelConfig(const IChannelGroup& source_cg,
       throw std::logic_error("Failed to create the destination channel.");
     }
     dest_cn->CopyConfigFrom(*source_cn);
+    // The records are copied as is, so keep the master values unchanged.
+    dest_cn->CalculateMasterTime(false);
   }
   return dest_cg;
 }
-- 
2.43.0


From e920e7c605601670158be3521c5b470a670f7bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:00 +0000
Subject: [PATCH 33/52] fix: sorting lost or mispaired variable length data

---
 mdflib/src/cn4block.h             |  5 +++
 mdflib/src/copysampleobserver.cpp | 65 ++++++++++++++++++++++++++++++-
 mdflib/src/copysampleobserver.h   |  6 +++
 3 files changed, 74 insertions(+), 2 deletions(-)

diff --git a/mdflib/src/cn4block.h b/mdflib/src/cn4block.h
index 559b660..11838b4 100644
--- a/mdflib/src/cn4block.h
+++ b/mdflib/src/cn4block.h
@@ -139,6 +139,11 @@ class Cn4Block : public DataListBlock, public IChannel {
   }
 
   uint64_t WriteSdSample(const std::vector<uint8_t>& buffer) const;
+
+  /** \brief Copies the signal data (SD) in memory from another channel. */
+  void CopySignalData(const Cn4Block& source) const {
+    data_list_ = source.data_list_;
+  }
   [[nodiscard]] IChannelArray *ChannelArray(size_t index) const override;
   [[nodiscard]] std::vector<IChannelArray*> ChannelArrays() const override;
   [[nodiscard]] IChannelArray *CreateChannelArray() override;
diff --git a/mdflib/src/copysampleobserver.cpp b/mdflib/src/copysampleobserver.cpp
index 3317182..7665309 100644
--- a/mdflib/src/copysampleobserver.cpp
+++ b/mdflib/src/copysampleobserver.cpp
@@ -5,7 +5,8 @@
 
 #include "copysampleobserver.h"
 
-#include <iostream>
+#include "cn4block.h"
+
 namespace mdf {
 CopySampleObserver::CopySampleObserver(const IDataGroup& data_group,
                                        const IChannelGroup& channel_group,
@@ -20,6 +21,33 @@ CopySampleObserver::CopySampleObserver(const IDataGroup& data_group,
 
 }
 
+bool CopySampleObserver::OnSample(uint64_t sample, uint64_t record_id,
+                                  const std::vector<uint8_t>& record) {
+  // The records hold an offset into the variable length data. This offset is
+  // the same if the data is stored in a VLSD CG or in an SD block. So both the
+  // records and the variable length data can be copied as is, in any order.
+  if (!signal_data_copied_) {
+    CopySignalData();
+    signal_data_copied_ = true;
+  }
+  if (record_id != GetChannelGroup().RecordId()) {
+    CopyVlsdRecord(record_id, record);
+    return true;
+  }
+  SampleRecord dest_record;
+  dest_record.record_id = dest_channel_group_.RecordId();
+  dest_record.record_buffer = record;
+  uint64_t sample_time = GetBaseTime();
+  if (const auto* time_channel = GetChannelGroup().GetMasterTimeChannel();
+      time_channel != nullptr) {
+    const double rel_time = time_channel->GetTimestamp(sample, record);
+    sample_time += static_cast<int64_t>(rel_time * 1'000'000'000);
+  }
+  writer_.AddSample(dest_data_group_, dest_channel_group_, sample_time,
+                    std::move(dest_record));
+  return true;
+}
+
 void CopySampleObserver::OnSampleRecord() {
    SampleRecord record;
    GetSampleRecord(record);
@@ -29,4 +57,37 @@ void CopySampleObserver::OnSampleRecord() {
                                    std::move(record));
 }
 
-} // mdf
\ No newline at end of file
+void CopySampleObserver::CopySignalData() const {
+  // The source signal data (SD) is in memory while reading data.
+  const auto source_list = GetChannelGroup().Channels();
+  const auto dest_list = dest_channel_group_.Channels();
+  for (size_t index = 0;
+       index < source_list.size() && index < dest_list.size(); ++index) {
+    const auto* source =
+        dynamic_cast<const detail::Cn4Block*>(source_list[index]);
+    const auto* dest = dynamic_cast<const detail::Cn4Block*>(dest_list[index]);
+    if (source != nullptr && dest != nullptr &&
+        source->Type() == ChannelType::VariableLength &&
+        source->VlsdRecordId() == 0) {
+      dest->CopySignalData(*source);
+    }
+  }
+}
+
+void CopySampleObserver::CopyVlsdRecord(
+    uint64_t record_id, const std::vector<uint8_t>& record) const {
+  const auto source_list = GetChannelGroup().Channels();
+  const auto dest_list = dest_channel_group_.Channels();
+  for (size_t index = 0;
+       index < source_list.size() && index < dest_list.size(); ++index) {
+    const auto* source = source_list[index];
+    const auto* dest = dynamic_cast<const detail::Cn4Block*>(dest_list[index]);
+    if (source != nullptr && dest != nullptr &&
+        source->Type() == ChannelType::VariableLength &&
+        source->VlsdRecordId() == record_id) {
+      dest->WriteSdSample(record);
+    }
+  }
+}
+
+} // mdf
diff --git a/mdflib/src/copysampleobserver.h b/mdflib/src/copysampleobserver.h
index 9058d86..8c80828 100644
--- a/mdflib/src/copysampleobserver.h
+++ b/mdflib/src/copysampleobserver.h
@@ -19,12 +19,18 @@ public:
                      const IDataGroup& dest_data_group,
                      const IChannelGroup& dest_channel_group);
 
+  bool OnSample(uint64_t sample, uint64_t record_id,
+                const std::vector<uint8_t>& record) override;
   void OnSampleRecord() override;
 private:
   MdfWriter& writer_;
   const IDataGroup& dest_data_group_;
   const IChannelGroup& dest_channel_group_;
+  bool signal_data_copied_ = false;
 
+  void CopySignalData() const;
+  void CopyVlsdRecord(uint64_t record_id,
+                      const std::vector<uint8_t>& record) const;
 };
 
 }  // namespace mdf
-- 
2.43.0


From eba6bef6269a1b3575b89ef826681f7267bbd072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:14 +0000
Subject: [PATCH 34/52] fix: invalidation bit of variable length channels was
 ignored

---
 mdflib/src/channelobserver.h | 7 +++----
 mdflib/src/ichannel.cpp      | 2 +-
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/mdflib/src/channelobserver.h b/mdflib/src/channelobserver.h
index 749a7fb..4a3eb34 100644
--- a/mdflib/src/channelobserver.h
+++ b/mdflib/src/channelobserver.h
@@ -133,13 +133,12 @@ class ChannelObserver : public IChannelObserver {
           // Add the VLSD offset data to this channel
           for (uint64_t array_index = 0; array_index < array_size; ++array_index) {
             const auto sample_index = static_cast<size_t>((sample * array_size) + array_index);
-            valid = channel_.GetChannelValue(record, value, array_index);
+            // A VLSD record have no invalidation bits. The channel group record
+            // defines if the sample is valid.
+            channel_.GetChannelValue(record, value, array_index);
             if (sample_index < value_list_.size()) {
               value_list_[sample_index] = value;
             }
-            if (sample_index < valid_list_.size()) {
-              valid_list_[sample_index] = valid;
-            }
           }
         }
         break;
diff --git a/mdflib/src/ichannel.cpp b/mdflib/src/ichannel.cpp
index a987040..66c10c1 100644
--- a/mdflib/src/ichannel.cpp
+++ b/mdflib/src/ichannel.cpp
@@ -40,7 +40,7 @@ bool IChannel::GetUnsignedValue(const std::vector<uint8_t> &record_buffer,
                                             bit_offset,
                                             BitCount(),
                                             record_buffer.data());
-    return true;
+    return GetValid(record_buffer, array_index);
   }
 
   switch (DataType()) {
-- 
2.43.0


From 6aa3a3afad7623aaee243a8eaa25d46cfe9c5618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:20 +0000
Subject: [PATCH 35/52] fix: sorting dropped channel arrays without references

---
 mdflib/src/ichannelarray.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/mdflib/src/ichannelarray.cpp b/mdflib/src/ichannelarray.cpp
index 1be5ce4..9d910ac 100644
--- a/mdflib/src/ichannelarray.cpp
+++ b/mdflib/src/ichannelarray.cpp
@@ -4,6 +4,7 @@
  */
 
 #include "mdf/ichannelarray.h"
+#include <algorithm>
 #include <sstream>
 namespace mdf {
 
@@ -63,13 +64,23 @@ std::vector<CaTripleReference>& IChannelArray::AxisList() {
 }
 
 bool IChannelArray::HasReferenceToOtherBlock() const {
-   return !data_links_.empty() ||
-      !dynamic_size_list_.empty() ||
-      !input_quantity_list_.empty() ||
+  // Note that the lists may be sized but without any references.
+  const auto triple_used = [] (const CaTripleReference& reference) {
+    return !reference.IsEmpty();
+  };
+  return std::any_of(data_links_.cbegin(), data_links_.cend(),
+                     [] (int64_t link) { return link != 0; }) ||
+      std::any_of(dynamic_size_list_.cbegin(), dynamic_size_list_.cend(),
+                  triple_used) ||
+      std::any_of(input_quantity_list_.cbegin(), input_quantity_list_.cend(),
+                  triple_used) ||
       !output_quantity_.IsEmpty() ||
       !comparison_quantity_.IsEmpty() ||
-      !axis_conversion_list_.empty() ||
-      !axis_list_.empty();
+      std::any_of(axis_conversion_list_.cbegin(), axis_conversion_list_.cend(),
+                  [] (const auto* conversion) {
+                    return conversion != nullptr;
+                  }) ||
+      std::any_of(axis_list_.cbegin(), axis_list_.cend(), triple_used);
 }
 
 void IChannelArray::CopyFrom(const IChannelArray& source) {
-- 
2.43.0


From 0d6d6bc1fc7b911b368582385b8f985f3059558d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:44 +0000
Subject: [PATCH 36/52] fix: escape carriage returns and attribute line breaks
 in XML, match attribute values exactly

---
 mdflib/src/ixmlnode.cpp | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/mdflib/src/ixmlnode.cpp b/mdflib/src/ixmlnode.cpp
index d7a39ba..19d697b 100644
--- a/mdflib/src/ixmlnode.cpp
+++ b/mdflib/src/ixmlnode.cpp
@@ -35,6 +35,11 @@ std::string XmlString(const std::string &text) {
         xml_string << "&apos;";
         break;
 
+      case '\r':
+        // A parser would otherwise convert it to a line feed
+        xml_string << "&#13;";
+        break;
+
       default:
         xml_string << in_char;
         break;
@@ -43,6 +48,27 @@ std::string XmlString(const std::string &text) {
   return xml_string.str();
 }
 
+/** An XML parser replaces any white space in an attribute with a space. */
+std::string XmlAttribute(const std::string &text) {
+  std::string xml_string;
+  for (const char in_char : XmlString(text)) {
+    switch (in_char) {
+      case '\n':
+        xml_string += "&#10;";
+        break;
+
+      case '\t':
+        xml_string += "&#9;";
+        break;
+
+      default:
+        xml_string += in_char;
+        break;
+    }
+  }
+  return xml_string;
+}
+
 }  // namespace
 namespace mdf {
 
@@ -135,7 +161,7 @@ bool IXmlNode::IsAttribute(const std::string &key,
   return std::any_of(attribute_list_.cbegin(), attribute_list_.cend(),
                      [&](const auto &itr) {
     return Platform::stricmp(itr.first.c_str(), key.c_str()) == 0 &&
-           Platform::stricmp(itr.second.c_str(), value.c_str()) == 0;
+           itr.second == value;
   });
 }
 
@@ -146,7 +172,7 @@ void IXmlNode::Write(std::ostream &dest, size_t level) {  // NOLINT
   }
   dest << "<" << TagName();
   for (const auto &attr : attribute_list_) {
-    dest << " " << attr.first << "='" << XmlString(attr.second) << "'";
+    dest << " " << attr.first << "='" << XmlAttribute(attr.second) << "'";
   }
   if (node_list_.empty() && value_.empty()) {
     dest << "/>" << std::endl;
-- 
2.43.0


From f39ca656d7b05432bff2d609759fe60c7f051433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:19 +0000
Subject: [PATCH 37/52] fix: replace an existing e-tag in the comment instead
 of merging with its old attributes

---
 mdflib/src/imetadata.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mdflib/src/imetadata.cpp b/mdflib/src/imetadata.cpp
index b1a0706..457bee3 100644
--- a/mdflib/src/imetadata.cpp
+++ b/mdflib/src/imetadata.cpp
@@ -29,6 +29,8 @@ void InsertETag(const mdf::ETag& e_tag, mdf::IXmlNode& root) {  // NOLINT
       InsertETag(tag, tree);
     }
   } else {
+    // Replace any existing property, so no old attributes are left
+    root.DeleteNode(root.GetNode("e", "name", e_tag.Name()));
     auto& tag = root.AddUniqueNode("e", "name", e_tag.Name());
     if (!e_tag.Description().empty()) {
       tag.SetAttribute("desc", e_tag.Description());
-- 
2.43.0


From eb3e6712758e7123268a614c6788782978b243ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:52 +0000
Subject: [PATCH 38/52] fix: write and parse the array indexes of formula
 variables

---
 mdflib/src/mdvariable.cpp | 25 ++++++++-----------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/mdflib/src/mdvariable.cpp b/mdflib/src/mdvariable.cpp
index 7494731..ff4f29b 100644
--- a/mdflib/src/mdvariable.cpp
+++ b/mdflib/src/mdvariable.cpp
@@ -119,7 +119,7 @@ void MdVariable::ToXml(IXmlNode& root_node, const std::string& tag_name) const {
       }
       idx << index;
     }
-    node.SetAttribute("idx_list_pattern", idx.str());
+    node.SetAttribute("idx", idx.str());
   }
 
   if (raw_) {
@@ -133,28 +133,19 @@ void MdVariable::ToXml(IXmlNode& root_node, const std::string& tag_name) const {
 
 void MdVariable::FromXml(const IXmlNode& var_node) {
   MdString::FromXml(var_node);
+  for (const char* key : {"cn", "cs", "cp", "gn", "gs", "gp", "idx", "raw"}) {
+    custom_attribute_list_.erase(key);
+  }
   cn_ = var_node.Attribute<std::string>("cn", "");
   cs_ = var_node.Attribute<std::string>("cs", "");
   cp_ = var_node.Attribute<std::string>("cp", "");
   gn_ = var_node.Attribute<std::string>("gn", "");
   gs_ = var_node.Attribute<std::string>("gs", "");
   gp_ = var_node.Attribute<std::string>("gp", "");
-  const std::string idx_list = var_node.Attribute<std::string>("idx", "");
-  try {
-    std::ostringstream temp;
-    for (const char input : idx_list) {
-      if (iswspace(input)) {
-        const uint64_t idx = std::stoull(temp.str());
-        AddArrayIndex(idx);
-        temp.clear();
-        temp.str("");
-      }
-    }
-    if (!temp.str().empty()) {
-      const uint64_t idx = std::stoull(temp.str());
-      AddArrayIndex(idx);
-    }
-  } catch (const std::exception& ) {}
+  std::istringstream idx_list(var_node.Attribute<std::string>("idx", ""));
+  for (uint64_t idx = 0; idx_list >> idx; /* No ++idx here */) {
+    AddArrayIndex(idx);
+  }
   raw_ = var_node.Attribute<bool>("raw", false);
 }
 
-- 
2.43.0


From 47be9e0e1458337c6b96130a17b963d2073b7db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:25 +0000
Subject: [PATCH 39/52] fix: read unit, dimension and compu method names and
 use the right exponent tags

---
 mdflib/src/hocompumethod.cpp       | 2 ++
 mdflib/src/hophysicaldimension.cpp | 6 ++++--
 mdflib/src/hounit.cpp              | 2 ++
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/mdflib/src/hocompumethod.cpp b/mdflib/src/hocompumethod.cpp
index a5e7f65..a6ff35c 100644
--- a/mdflib/src/hocompumethod.cpp
+++ b/mdflib/src/hocompumethod.cpp
@@ -140,6 +140,8 @@ void HoCompuMethod::ToXml(IXmlNode& root_node) const {
 }
 
 void HoCompuMethod::FromXml(const IXmlNode& root_node) {
+  // The names are stored directly in the node
+  HoNameDetails::FromXml(root_node);
   IXmlNode::ChildList node_list;
   root_node.GetChildList(node_list);
   for (const IXmlNode* node : node_list) {
diff --git a/mdflib/src/hophysicaldimension.cpp b/mdflib/src/hophysicaldimension.cpp
index 3b80fb5..85a1eeb 100644
--- a/mdflib/src/hophysicaldimension.cpp
+++ b/mdflib/src/hophysicaldimension.cpp
@@ -104,6 +104,8 @@ void HoPhysicalDimension::ToXml(IXmlNode& root_node) const {
 }
 
 void HoPhysicalDimension::FromXml(const IXmlNode& dim_node) {
+  // The names are stored directly in the node
+  HoNameDetails::FromXml(dim_node);
   IXmlNode::ChildList node_list;
   dim_node.GetChildList(node_list);
   identity_ = dim_node.Attribute<std::string>("ID", "");
@@ -123,9 +125,9 @@ void HoPhysicalDimension::FromXml(const IXmlNode& dim_node) {
       current_exp_ = node->Value<double>();
     } else if (node->IsTagName("TEMPERATURE-EXP")) {
       temp_exp_ = node->Value<double>();
-    } else if (node->IsTagName("MOLAR-EXP")) {
+    } else if (node->IsTagName("MOLAR-AMOUNT-EXP")) {
       molar_exp_ = node->Value<double>();
-    } else if (node->IsTagName("LUMINOUS-EXP")) {
+    } else if (node->IsTagName("LUMINOUS-INTENSITY-EXP")) {
       luminous_exp_ = node->Value<double>();
     }
   }
diff --git a/mdflib/src/hounit.cpp b/mdflib/src/hounit.cpp
index bd39cd7..e0883eb 100644
--- a/mdflib/src/hounit.cpp
+++ b/mdflib/src/hounit.cpp
@@ -73,6 +73,8 @@ void HoUnit::ToXml(IXmlNode& units_node) const {
 
 }
 void HoUnit::FromXml(const IXmlNode& unit_node) {
+  // The names are stored directly in the node
+  HoNameDetails::FromXml(unit_node);
   identity_ = unit_node.Attribute<std::string>("ID", "");
 
   IXmlNode::ChildList node_list;
-- 
2.43.0


From 2b384b1b8fe01dff399a2f588e510faefe34fbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:53 +0000
Subject: [PATCH 40/52] fix: parse the ci attribute as 64 bits and ignore
 invalid values

---
 mdflib/src/mdstandardattribute.cpp | 4 ++--
 mdflib/src/mdstring.cpp            | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mdflib/src/mdstandardattribute.cpp b/mdflib/src/mdstandardattribute.cpp
index 57735ea..36213a8 100644
--- a/mdflib/src/mdstandardattribute.cpp
+++ b/mdflib/src/mdstandardattribute.cpp
@@ -90,8 +90,8 @@ void MdStandardAttribute::FromXml(const IXmlNode& node) {
   for (const auto& [key, value] : attr_list) {
     if (key == "ci" && !value.empty()) {
       try {
-        ci_ = std::stoll(value);
-      } catch (const std::exception_ptr&) {
+        ci_ = std::stoull(value);
+      } catch (const std::exception&) {
         ci_ = 0;
       }
     } else if (key == "xml:lang") {
diff --git a/mdflib/src/mdstring.cpp b/mdflib/src/mdstring.cpp
index 43b61c1..d40ddbe 100644
--- a/mdflib/src/mdstring.cpp
+++ b/mdflib/src/mdstring.cpp
@@ -96,7 +96,7 @@ void MdString::FromXml(const IXmlNode& node) {
   for (const auto& [key, value] : attr_list) {
     if (key == "ci" && !value.empty()) {
       try {
-        ci_ = std::stoll(value);
+        ci_ = std::stoull(value);
       } catch (const std::exception&) {
         ci_ = 0;
       }
-- 
2.43.0


From 3aef29ad373f397517c2fba7f9bc26c48c599d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:22 +0000
Subject: [PATCH 41/52] fix: report an incomplete XML file as not parsed

---
 mdflib/src/expatxml.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mdflib/src/expatxml.cpp b/mdflib/src/expatxml.cpp
index b6c6227..d0696d0 100644
--- a/mdflib/src/expatxml.cpp
+++ b/mdflib/src/expatxml.cpp
@@ -121,9 +121,12 @@ bool ExpatXml::ParseFile() {
   ExpatParser p(this);
   std::array<char, 1024> buffer{};
   bool ok = true;
-  for (size_t reads = fread(buffer.data(), 1, buffer.size(), file); reads > 0;
-       reads = fread(buffer.data(), 1, buffer.size(), file)) {
-    const auto ret = p.Parse(buffer.data(), reads, reads == 0);
+  // The parser needs a final call to detect an incomplete document.
+  bool final = false;
+  while (!final) {
+    const size_t reads = fread(buffer.data(), 1, buffer.size(), file);
+    final = reads == 0;
+    const auto ret = p.Parse(buffer.data(), reads, final);
     if (ret != XML_STATUS_OK) {
       const auto line = XML_GetCurrentLineNumber(p.parser_);
       const auto column = XML_GetCurrentColumnNumber(p.parser_);
-- 
2.43.0


From 39d98ab3f8cc9460f97e1643bbc4b1bd6cc43831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:00 +0000
Subject: [PATCH 42/52] fix: read back hex properties and keep known attributes
 out of the custom attributes

---
 mdflib/src/ccunit.cpp            | 1 +
 mdflib/src/hdcomment.cpp         | 1 +
 mdflib/src/mdalternativename.cpp | 1 +
 mdflib/src/mdproperty.cpp        | 4 ++++
 mdflib/src/mdsyntax.cpp          | 3 +++
 5 files changed, 10 insertions(+)

diff --git a/mdflib/src/ccunit.cpp b/mdflib/src/ccunit.cpp
index b5f067b..075af56 100644
--- a/mdflib/src/ccunit.cpp
+++ b/mdflib/src/ccunit.cpp
@@ -94,6 +94,7 @@ void CcUnit::FromXml(const std::string& xml_snippet) {
       }
       if (node->IsTagName("ho_unit")) {
         unit_ref_.MdStandardAttribute::FromXml(*node);
+        unit_ref_.CustomAttributes().erase("unit_ref");
         if (unit_ref_.Text(node->Attribute<std::string>("unit_ref", ""));
             unit_ref_.Text().empty() ) {
           unit_ref_.Text(node->Value<std::string>());
diff --git a/mdflib/src/hdcomment.cpp b/mdflib/src/hdcomment.cpp
index 135c385..8efb960 100644
--- a/mdflib/src/hdcomment.cpp
+++ b/mdflib/src/hdcomment.cpp
@@ -224,6 +224,7 @@ void HdComment::FromXml(const std::string& xml_snippet) {
           std::string name = const_node->Attribute<std::string>("name", "");
           MdString temp;
           temp.FromXml(*const_node);
+          temp.CustomAttributes().erase("name");
           temp.Text(name);
           AddConstant(temp, expression);
         }
diff --git a/mdflib/src/mdalternativename.cpp b/mdflib/src/mdalternativename.cpp
index a46bcec..d3c5648 100644
--- a/mdflib/src/mdalternativename.cpp
+++ b/mdflib/src/mdalternativename.cpp
@@ -119,6 +119,7 @@ void MdAlternativeName::ToXml(IXmlNode& names_node) const {
 
 void MdAlternativeName::FromXml(const IXmlNode& names_node) {
   MdStandardAttribute::FromXml(names_node);
+  custom_attribute_list_.erase("name");
   default_name_ = names_node.Attribute<std::string>("name", "");
 
   IXmlNode::ChildList node_list;
diff --git a/mdflib/src/mdproperty.cpp b/mdflib/src/mdproperty.cpp
index 60dcc30..d895a45 100644
--- a/mdflib/src/mdproperty.cpp
+++ b/mdflib/src/mdproperty.cpp
@@ -141,6 +141,9 @@ void MdProperty::Name(std::string name) {
 
   void MdProperty::FromXml(const IXmlNode& prop_node) {
     MdStandardAttribute::FromXml(prop_node);
+    for (const char* key : {"name", "desc", "type", "ro", "unit", "unit_ref"}) {
+      custom_attribute_list_.erase(key);
+    }
     name_ = prop_node.Attribute<std::string>("name", "");
     desc_ = prop_node.Attribute<std::string>("desc", "");
     const std::string type = prop_node.Attribute<std::string>("type", "");
@@ -212,6 +215,7 @@ void MdProperty::Name(std::string name) {
   uint64_t MdProperty::Value() const {
     try {
       switch (DataType()) {
+        case MdDataType::MdHex:
         case MdDataType::MdInteger:
           if (value_.size() > 2 && value_.substr(0,2) == "0x" ) {
             // HEX decode
diff --git a/mdflib/src/mdsyntax.cpp b/mdflib/src/mdsyntax.cpp
index dfb6f57..aaf2b3e 100644
--- a/mdflib/src/mdsyntax.cpp
+++ b/mdflib/src/mdsyntax.cpp
@@ -53,6 +53,9 @@ void MdSyntax::ToXml(IXmlNode& root_node, const std::string& tag_name) const {
 
 void MdSyntax::FromXml(const IXmlNode& syntax_node) {
   MdString::FromXml(syntax_node);
+  for (const char* key : {"version", "source"}) {
+    custom_attribute_list_.erase(key);
+  }
   version_ = syntax_node.Attribute<std::string>("version", "");
   source_ = syntax_node.Attribute<std::string>("source", "");
 
-- 
2.43.0


From 711b2e3da9b51edff34f389c4c97ad803188d39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:39 +0000
Subject: [PATCH 43/52] fix: look up properties and enumerations below the
 named tree or list

---
 mdflib/src/mdlist.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/mdflib/src/mdlist.cpp b/mdflib/src/mdlist.cpp
index ec479ca..1cce1b2 100644
--- a/mdflib/src/mdlist.cpp
+++ b/mdflib/src/mdlist.cpp
@@ -159,16 +159,20 @@ const MdProperty* MdList::GetProperty(const std::string& name) const {
       }
     }
   } else {
+    // The first part of the path is the name of a tree or a list
+    const auto path = name.substr(0, separator);
     const auto prop_name = name.substr(separator + 1);
     for (const auto& [tree_name, tree] : tree_list_) {
-      if (const MdProperty* temp = tree.GetProperty(prop_name);
+      if (const MdProperty* temp =
+              tree.GetProperty(tree_name == path ? prop_name : name);
           temp != nullptr) {
         return temp;
       }
     }
 
     for (const auto& [list_name, list] : list_list_) {
-      if (const MdProperty* temp = list.GetProperty(prop_name);
+      if (const MdProperty* temp =
+              list.GetProperty(list_name == path ? prop_name : name);
           temp != nullptr) {
         return temp;
       }
@@ -201,16 +205,20 @@ const MdEnumerate* MdList::GetEnumerate(const std::string& name) const {
       }
     }
   } else {
+    // The first part of the path is the name of a tree or a list
+    const auto path = name.substr(0, separator);
     const auto enum_name = name.substr(separator + 1);
     for (const auto& [tree_name, tree] : tree_list_) {
-      if (const MdEnumerate* temp = tree.GetEnumerate(enum_name);
+      if (const MdEnumerate* temp =
+              tree.GetEnumerate(tree_name == path ? enum_name : name);
           temp != nullptr) {
         return temp;
       }
     }
 
     for (const auto& [list_name, list] : list_list_) {
-      if (const MdEnumerate* temp = list.GetEnumerate(enum_name);
+      if (const MdEnumerate* temp =
+              list.GetEnumerate(list_name == path ? enum_name : name);
           temp != nullptr) {
         return temp;
       }
@@ -266,6 +274,9 @@ void MdList::FromXml(const IXmlNode& root_node) {
   const std::string tag_name = root_node.TagName();
   if (tag_name != "common_properties" && tag_name != "li") {
     MdStandardAttribute::FromXml(root_node);
+    for (const char* key : {"name", "desc"}) {
+      custom_attribute_list_.erase(key);
+    }
     name_ = root_node.Attribute<std::string>("name", "");
     desc_ = root_node.Attribute<std::string>("desc", "");
   }
@@ -286,6 +297,9 @@ void MdList::FromXml(const IXmlNode& root_node) {
     } else if (node->IsTagName("list")) {
       MdList list;
       list.MdStandardAttribute::FromXml(*node);
+      for (const char* key : {"name", "desc"}) {
+        list.CustomAttributes().erase(key);
+      }
       list.Name(node->Attribute<std::string>("name", "") );
       list.Description( node->Attribute<std::string>("desc", ""));
 
-- 
2.43.0


From a834182ec4fbaa975be70afc97e179f8aa80b775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:50 +0000
Subject: [PATCH 44/52] fix: write floating point meta data with full precision

---
 include/mdf/etag.h       |  8 ++++++++
 include/mdf/mdfhelper.h  |  8 ++++++++
 include/mdf/mdnumber.h   |  7 ++++++-
 include/mdf/mdproperty.h |  8 +++++++-
 mdflib/src/ixmlnode.h    | 10 +++++++++-
 mdflib/src/mdfhelper.cpp | 18 ++++++++++++++++++
 mdflib/src/mdnumber.cpp  |  7 ++++---
 7 files changed, 60 insertions(+), 6 deletions(-)

diff --git a/include/mdf/etag.h b/include/mdf/etag.h
index 349742a..7de01be 100644
--- a/include/mdf/etag.h
+++ b/include/mdf/etag.h
@@ -15,8 +15,12 @@
 
 #include <cstdint>
 #include <sstream>
+#include <type_traits>
 #include <string>
 #include <vector>
+
+#include "mdf/mdfhelper.h"
+
 namespace mdf {
 
 /** \brief The e-tag may optional have a data type below. The value in the
@@ -205,6 +209,10 @@ class ETag {
 
 template <typename T>
 void ETag::Value(const T& value) {
+  if constexpr (std::is_floating_point_v<T>) {
+    value_ = MdfHelper::DoubleToString(value);
+    return;
+  }
   std::ostringstream temp;
   temp << value;
   value_ = temp.str();
diff --git a/include/mdf/mdfhelper.h b/include/mdf/mdfhelper.h
index 5046a4a..55e5e59 100644
--- a/include/mdf/mdfhelper.h
+++ b/include/mdf/mdfhelper.h
@@ -15,6 +15,14 @@ namespace mdf {
 /** \brief Support class for the MDF library. */
 class MdfHelper {
  public:
+  /** \brief Converts a floating point value to the shortest text that is read
+   * back as the same value.
+   *
+   * @param [in] value Floating point value
+   * @return Text with up to 17 significant digits.
+   */
+  static std::string DoubleToString(double value);
+
   /** \brief Adds the time zone offset to the time stamp.
    *
    * Adds the time zone offset and dst to the UTC nanoseconds since 1970.
diff --git a/include/mdf/mdnumber.h b/include/mdf/mdnumber.h
index f09c298..fd5a18b 100644
--- a/include/mdf/mdnumber.h
+++ b/include/mdf/mdnumber.h
@@ -8,6 +8,7 @@
 #include <cstdint>
 #include <string>
 #include <sstream>
+#include <type_traits>
 #include <optional>
 
 #include "mdf/mdstandardattribute.h"
@@ -95,7 +96,11 @@ class MdNumber : public MdStandardAttribute {
 template <typename T>
 void MdNumber::Number(T value) {
   try {
-    number_ = std::to_string(value);
+    if constexpr (std::is_floating_point_v<T>) {
+      number_ = MdfHelper::DoubleToString(value);
+    } else {
+      number_ = std::to_string(value);
+    }
   } catch (const std::exception&) {
     number_.clear();
     number_.shrink_to_fit();
diff --git a/include/mdf/mdproperty.h b/include/mdf/mdproperty.h
index c58d95d..794e4ac 100644
--- a/include/mdf/mdproperty.h
+++ b/include/mdf/mdproperty.h
@@ -9,7 +9,9 @@
 #include <string>
 #include <map>
 #include <sstream>
+#include <type_traits>
 
+#include "mdf/mdfhelper.h"
 #include "mdf/mdstandardattribute.h"
 
 namespace mdf {
@@ -80,7 +82,11 @@ class MdProperty : public MdStandardAttribute {
 
 template <typename T>
 void MdProperty::Value(T value) {
-  value_ = std::to_string(value);
+  if constexpr (std::is_floating_point_v<T>) {
+    value_ = MdfHelper::DoubleToString(value);
+  } else {
+    value_ = std::to_string(value);
+  }
 }
 
 template <>
diff --git a/mdflib/src/ixmlnode.h b/mdflib/src/ixmlnode.h
index 93fcb3c..fa6b0d8 100644
--- a/mdflib/src/ixmlnode.h
+++ b/mdflib/src/ixmlnode.h
@@ -9,6 +9,7 @@
 
 #include <memory>
 #include <sstream>
+#include <type_traits>
 #include <string>
 #include <unordered_map>
 #include <vector>
@@ -204,7 +205,10 @@ class IXmlNode {
 
 template <typename T>
 void IXmlNode::Value(const T &value) {
-  //  value_ = std::to_string(value);
+  if constexpr (std::is_floating_point_v<T>) {
+    value_ = MdfHelper::DoubleToString(value);
+    return;
+  }
   std::ostringstream temp;
   temp << value;
   value_ = temp.str();
@@ -269,6 +273,10 @@ inline std::string IXmlNode::Attribute(const std::string& key,
 }
 template <typename T>
 void IXmlNode::SetAttribute(const std::string &key, const T &value) {
+  if constexpr (std::is_floating_point_v<T>) {
+    attribute_list_.insert({key, MdfHelper::DoubleToString(value)});
+    return;
+  }
   std::ostringstream temp;
   temp << value;
   attribute_list_.insert({key, temp.str()});
diff --git a/mdflib/src/mdfhelper.cpp b/mdflib/src/mdfhelper.cpp
index 963cf89..0ff3ba0 100644
--- a/mdflib/src/mdfhelper.cpp
+++ b/mdflib/src/mdfhelper.cpp
@@ -38,6 +38,24 @@ void RTrim(std::string &s) {
 
 namespace mdf {
 
+std::string MdfHelper::DoubleToString(double value) {
+  std::string text;
+  for (int digits = 6; digits <= 17; ++digits) {
+    std::ostringstream output;
+    output.precision(digits);
+    output << value;
+    text = output.str();
+
+    std::istringstream input(text);
+    double temp = 0.0;
+    input >> temp;
+    if (!input.fail() && temp == value) {
+      break;
+    }
+  }
+  return text;
+}
+
 uint64_t MdfHelper::NanoSecToLocal(uint64_t ns_since_1970) {
   const auto utc_offset = TimeZoneOffset();
   return ns_since_1970 + (utc_offset * 1'000'000'000);
diff --git a/mdflib/src/mdnumber.cpp b/mdflib/src/mdnumber.cpp
index bbb59f1..8f3b1e2 100644
--- a/mdflib/src/mdnumber.cpp
+++ b/mdflib/src/mdnumber.cpp
@@ -6,6 +6,7 @@
 #include <limits>
 
 #include "mdf/mdnumber.h"
+#include "mdf/mdfhelper.h"
 
 #include "ixmlnode.h"
 
@@ -13,7 +14,7 @@ namespace mdf {
 
 MdNumber::MdNumber(double number)
 : MdStandardAttribute(),
-  number_(std::to_string(number)),
+  number_(MdfHelper::DoubleToString(number)),
   data_type_(MdDataType::MdFloat) {
 }
 
@@ -194,8 +195,8 @@ void MdNumber::FromXml(const IXmlNode& number_node) {
   for (const auto& [key, value] : attr_list) {
     if (key == "ci" && !value.empty()) {
       try {
-        ci_ = std::stoll(value);
-      } catch (const std::exception_ptr&) {
+        ci_ = std::stoull(value);
+      } catch (const std::exception&) {
         ci_ = 0;
       }
     } else if (key == "xml:lang") {
-- 
2.43.0


From 85ebe01a01c5008e0b10870b7fe4bef7313bc2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:57 +0000
Subject: [PATCH 45/52] fix: references between events were lost when the
 referenced event is written later

---
 mdflib/src/hd4block.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mdflib/src/hd4block.cpp b/mdflib/src/hd4block.cpp
index 4b9327e..61b05f9 100644
--- a/mdflib/src/hd4block.cpp
+++ b/mdflib/src/hd4block.cpp
@@ -538,6 +538,13 @@ uint64_t Hd4Block::Write(std::streambuf& buffer) {
                  UpdateOption::DoUpdateAllBlocks);
   WriteLink4List(buffer, ev_list_, kIndexEv,
                  UpdateOption::DoUpdateAllBlocks);
+  // An event may refer to an event further down in the list. All events have
+  // a position now, so update the references.
+  for (auto& ev4 : ev_list_) {
+    if (ev4) {
+      ev4->Write(buffer);
+    }
+  }
 
   // Always write the list of DG last as it may contain a DT block that shall
   // be appended with data bytes. The DT block must be the last written block
-- 
2.43.0


From e56cac21d1a0114c827f4af76a0b421c883dd2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:06 +0000
Subject: [PATCH 46/52] fix: Description() of channel groups and hierarchies
 replaced the comment by raw text, losing texts with markup

---
 mdflib/src/cg4block.cpp | 5 ++++-
 mdflib/src/ch4block.cpp | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/mdflib/src/cg4block.cpp b/mdflib/src/cg4block.cpp
index 9d4817a..1923bfb 100644
--- a/mdflib/src/cg4block.cpp
+++ b/mdflib/src/cg4block.cpp
@@ -67,7 +67,10 @@ void Cg4Block::Name(const std::string &name) { acquisition_name_ = name; }
 std::string Cg4Block::Name() const { return acquisition_name_; }
 
 void Cg4Block::Description(const std::string &description) {
-  md_comment_ = std::make_unique<Md4Block>(description);
+  // Keep any other properties in the comment
+  if (auto *metadata = CreateMetaData(); metadata != nullptr) {
+    metadata->StringProperty("TX", description);
+  }
 }
 
 std::string Cg4Block::Description() const { return MdText(); }
diff --git a/mdflib/src/ch4block.cpp b/mdflib/src/ch4block.cpp
index 8979316..3708d04 100644
--- a/mdflib/src/ch4block.cpp
+++ b/mdflib/src/ch4block.cpp
@@ -133,7 +133,10 @@ void Ch4Block::Type(ChType type) { type_ = static_cast<uint8_t>(type); }
 ChType Ch4Block::Type() const { return static_cast<ChType>(type_); }
 
 void Ch4Block::Description(const std::string &description) {
-  md_comment_ = std::make_unique<Md4Block>(description);
+  // Keep any other properties in the comment
+  if (auto *metadata = CreateMetaData(); metadata != nullptr) {
+    metadata->StringProperty("TX", description);
+  }
 }
 
 std::string Ch4Block::Description() const { return MdText(); }
-- 
2.43.0


From 75e2f24bb6cfe82cc0ad69839105d7aab08c7827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:19 +0000
Subject: [PATCH 47/52] fix: opening a file shorter than its ID block threw an
 exception

---
 mdflib/src/mdfreader.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mdflib/src/mdfreader.cpp b/mdflib/src/mdfreader.cpp
index 0a6cd1c..dcf8943 100644
--- a/mdflib/src/mdfreader.cpp
+++ b/mdflib/src/mdfreader.cpp
@@ -302,7 +302,14 @@ void MdfReader::VerifyMdfFile() {
   }
 
   auto id_block = std::make_unique<detail::IdBlock>();
-  id_block->Read(*file_);
+  try {
+    id_block->Read(*file_);
+  } catch (const std::exception& error) {
+    MDF_ERROR() << "Failed to read the ID block. File: " << Filename()
+      << ", Error: " << error.what();
+    Close();
+    return;
+  }
 
   if (Platform::strnicmp(id_block->FileId().c_str(), "MDF", 3) == 0 ||
       Platform::strnicmp(id_block->FileId().c_str(), "UnFinMF", 7) == 0) {
-- 
2.43.0


From f2451a47f9dcc7512179e66b5675c6272ed15bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:31 +0000
Subject: [PATCH 48/52] fix: data behind the end of a truncated MDF 4 file was
 delivered as 0xFF or zero bytes

---
 mdflib/src/cn4block.cpp  | 21 ++++++++++++++-------
 mdflib/src/datablock.cpp |  4 ++++
 mdflib/src/dz4block.cpp  | 15 +++++++++++----
 mdflib/src/readcache.cpp | 32 +++++++++++++++++---------------
 mdflib/src/sr4block.cpp  | 19 ++++++++++++-------
 5 files changed, 58 insertions(+), 33 deletions(-)

diff --git a/mdflib/src/cn4block.cpp b/mdflib/src/cn4block.cpp
index fa08c8b..6a1a794 100644
--- a/mdflib/src/cn4block.cpp
+++ b/mdflib/src/cn4block.cpp
@@ -15,6 +15,7 @@
 #include "dz4block.h"
 #include "hl4block.h"
 #include "littlebuffer.h"
+#include "mdf/mdflogstream.h"
 #include "sd4block.h"
 
 namespace {
@@ -603,14 +604,20 @@ void Cn4Block::ReadSignalData(std::streambuf& buffer) const {
   data_list_.resize(static_cast<size_t>(count), 0);
   // The block list should only contain one block.
   // A SD block is uncompressed data block
-  for (const auto &block : block_list_) {
-    const auto *data_list = dynamic_cast<const DataListBlock *>(block.get());
-    const auto *data_block = dynamic_cast<const DataBlock *>(block.get());
-    if (data_list != nullptr) {
-      data_list->CopyDataToBuffer(buffer, data_list_, index);
-    } else if (data_block != nullptr) {
-      data_block->CopyDataToBuffer(buffer, data_list_, index);
+  try {
+    for (const auto &block : block_list_) {
+      const auto *data_list = dynamic_cast<const DataListBlock *>(block.get());
+      const auto *data_block = dynamic_cast<const DataBlock *>(block.get());
+      if (data_list != nullptr) {
+        data_list->CopyDataToBuffer(buffer, data_list_, index);
+      } else if (data_block != nullptr) {
+        data_block->CopyDataToBuffer(buffer, data_list_, index);
+      }
     }
+  } catch (const std::exception& err) {
+    // Only keep the data that exist in the file
+    MDF_ERROR() << "Failed to read the signal data. Error: " << err.what();
+    data_list_.resize(static_cast<size_t>(index));
   }
 }
 
diff --git a/mdflib/src/datablock.cpp b/mdflib/src/datablock.cpp
index 63c4131..1b7560c 100644
--- a/mdflib/src/datablock.cpp
+++ b/mdflib/src/datablock.cpp
@@ -5,6 +5,7 @@
 #include "datablock.h"
 
 #include <array>
+#include <stdexcept>
 namespace mdf::detail {
 
 uint64_t DataBlock::CopyDataToFile(std::streambuf& from_file,
@@ -52,6 +53,9 @@ uint64_t DataBlock::CopyDataToBuffer(std::streambuf& buffer,
       reinterpret_cast<char*>(dest.data()) + buffer_index,
       static_cast<std::streamsize>(data_size));
   buffer_index += reads;
+  if (reads != data_size) {
+    throw std::runtime_error("Incomplete data block.");
+  }
   return reads;
 }
 
diff --git a/mdflib/src/dz4block.cpp b/mdflib/src/dz4block.cpp
index 19a87af..3abf876 100644
--- a/mdflib/src/dz4block.cpp
+++ b/mdflib/src/dz4block.cpp
@@ -4,6 +4,7 @@
  */
 
 #include <cstdio>
+#include <stdexcept>
 #include <string>
 #include <utility>
 
@@ -125,10 +126,13 @@ uint64_t Dz4Block::CopyDataToBuffer(std::streambuf& from_file,
   switch (static_cast<Dz4ZipType>(type_)) {
     case Dz4ZipType::Deflate: {
       ByteArray temp(static_cast<size_t>(data_length_), 0);
-      from_file.sgetn( reinterpret_cast<char*>(temp.data()),
+      const auto reads = from_file.sgetn( reinterpret_cast<char*>(temp.data()),
                               static_cast<std::streamsize>(temp.size()) );
       ByteArray out(static_cast<size_t>(orig_data_length_), 0);
-      Inflate(temp, out);
+      if (reads != static_cast<std::streamsize>(temp.size()) ||
+          !Inflate(temp, out) || out.size() != orig_data_length_) {
+        throw std::runtime_error("Incomplete compressed data.");
+      }
       count = orig_data_length_;
       memcpy(dest.data() + buffer_index, out.data(), static_cast<size_t>(count) );
       buffer_index += count;
@@ -137,10 +141,13 @@ uint64_t Dz4Block::CopyDataToBuffer(std::streambuf& from_file,
 
     case Dz4ZipType::TransposeAndDeflate: {
       ByteArray temp(static_cast<size_t>(data_length_), 0);
-      from_file.sgetn(reinterpret_cast<char*>(temp.data()),
+      const auto reads = from_file.sgetn(reinterpret_cast<char*>(temp.data()),
                       static_cast<std::streamsize>(temp.size()) );
       ByteArray out(static_cast<size_t>( orig_data_length_ ), 0);
-      Inflate(temp, out);
+      if (reads != static_cast<std::streamsize>(temp.size()) ||
+          !Inflate(temp, out) || out.size() != orig_data_length_) {
+        throw std::runtime_error("Incomplete compressed data.");
+      }
       InvTranspose(out, parameter_);
 
       count = orig_data_length_;
diff --git a/mdflib/src/readcache.cpp b/mdflib/src/readcache.cpp
index 76c526e..3c165d6 100644
--- a/mdflib/src/readcache.cpp
+++ b/mdflib/src/readcache.cpp
@@ -261,13 +261,11 @@ bool ReadCache::ParseSignalDataOffset(uint64_t offset) {
     return false;
   }
 
-  if (uint64_t bytes_to_skip = offset - offset_; bytes_to_skip > 0 ) {
-    SkipBytes(bytes_to_skip);
-    offset_ += bytes_to_skip;
-  }
-
-
   try {
+    if (uint64_t bytes_to_skip = offset - offset_; bytes_to_skip > 0 ) {
+      SkipBytes(bytes_to_skip);
+      offset_ += bytes_to_skip;
+    }
     if (data_count_ + 4 > max_data_count_ ) {
       return false;
     }
@@ -355,7 +353,11 @@ bool ReadCache::GetNextByte(uint8_t &input) {
   if ( file_index_ < data_size_) {
     if (file_buffer_.empty()) {
       // Read direct from the file
-     input = buffer_.sbumpc();
+      const auto next = buffer_.sbumpc();
+      if (next == std::streambuf::traits_type::eof()) {
+        return false;
+      }
+      input = static_cast<uint8_t>(next);
     } else {
       // Read from buffer in case of DZ block
       input = file_buffer_[file_index_];
@@ -396,7 +398,11 @@ bool ReadCache::GetNextByte(uint8_t &input) {
   } while (file_index_ >= data_size_);
 
   if (file_buffer_.empty()) {
-    input = buffer_.sbumpc();
+    const auto next = buffer_.sbumpc();
+    if (next == std::streambuf::traits_type::eof()) {
+      return false;
+    }
+    input = static_cast<uint8_t>(next);
   } else {
     input = file_buffer_[file_index_];
   }
@@ -509,13 +515,9 @@ void ReadCache::SkipBytes(size_t nof_skip) {
     }
     // In right block. Set up the file buffer.
     if (current_block->BlockType() == "DZ") {
-      try {
-        file_buffer_.resize(static_cast<size_t>(data_size_) );
-        uint64_t temp_index = 0;
-        current_block->CopyDataToBuffer(buffer_,file_buffer_, temp_index);
-      } catch (const std::exception&) {
-        break;;
-      }
+      file_buffer_.resize(static_cast<size_t>(data_size_) );
+      uint64_t temp_index = 0;
+      current_block->CopyDataToBuffer(buffer_,file_buffer_, temp_index);
     } else {
       file_buffer_.clear();
       SetFilePosition(buffer_, current_block->DataPosition());
diff --git a/mdflib/src/sr4block.cpp b/mdflib/src/sr4block.cpp
index d808327..47281cf 100644
--- a/mdflib/src/sr4block.cpp
+++ b/mdflib/src/sr4block.cpp
@@ -136,14 +136,19 @@ void Sr4Block::ReadData(std::streambuf& buffer) const {
     // The block list should only contain one block.
     // A SD block is uncompressed data block
   uint64_t index = 0;
-  for (const auto &block : block_list_) {
-    const auto *list = dynamic_cast<const DataListBlock *>(block.get());
-    const auto *data = dynamic_cast<const DataBlock *>(block.get());
-    if (list != nullptr) {
-      list->CopyDataToBuffer( buffer, data_list_, index);
-    } else if (block != nullptr) {
-      data->CopyDataToBuffer(buffer, data_list_, index);
+  try {
+    for (const auto &block : block_list_) {
+      const auto *list = dynamic_cast<const DataListBlock *>(block.get());
+      const auto *data = dynamic_cast<const DataBlock *>(block.get());
+      if (list != nullptr) {
+        list->CopyDataToBuffer( buffer, data_list_, index);
+      } else if (data != nullptr) {
+        data->CopyDataToBuffer(buffer, data_list_, index);
+      }
     }
+  } catch (const std::exception&) {
+    // Only keep the data that exist in the file
+    data_list_.resize(static_cast<size_t>(index));
   }
 }
 
-- 
2.43.0


From f0bfcb5b6dda5fbd9afdac984785ed9ca579af50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:39 +0000
Subject: [PATCH 49/52] fix: incomplete records of a truncated MDF 3 file were
 delivered as samples

---
 mdflib/src/cg3block.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mdflib/src/cg3block.cpp b/mdflib/src/cg3block.cpp
index 976a05a..ed263d0 100644
--- a/mdflib/src/cg3block.cpp
+++ b/mdflib/src/cg3block.cpp
@@ -260,6 +260,9 @@ uint64_t Cg3Block::ReadDataRecord(std::streambuf& buffer,
   std::vector<uint8_t> record(record_size, 0);
   uint64_t count =
       buffer.sgetn(reinterpret_cast<char *>(record.data()), record.size());
+  if (count != record_size) {
+    return 0; // The file ends before the record
+  }
   uint64_t sample = Sample();
   if (sample < NofSamples()) {
     const bool continue_reading = notifier.NotifySampleObservers(sample, RecordId(), record);
@@ -302,6 +305,9 @@ uint64_t Cg3Block::ReadRangeDataRecord(std::streambuf& buffer,
 
     count = buffer.sgetn(
         reinterpret_cast<char*>(record.data()), record.size());
+    if (count != record_size) {
+      return 0; // The file ends before the record
+    }
 
     if (sample < NofSamples()) {
       const bool continue_reading =
-- 
2.43.0


From 1c4d6ed16ba630ec5a243e0efddf7f1567614e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:35 +0000
Subject: [PATCH 50/52] fix: finalizing a measurement stops the worker thread
 first

---
 mdflib/src/mdfwriter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mdflib/src/mdfwriter.cpp b/mdflib/src/mdfwriter.cpp
index e4aacef..3ee2f15 100644
--- a/mdflib/src/mdfwriter.cpp
+++ b/mdflib/src/mdfwriter.cpp
@@ -337,6 +337,9 @@ bool MdfWriter::FinalizeMeasurement() {
     MDF_ERROR() << "The MDF file is not created. Invalid use of the function.";
     return false;
   }
+  // The worker thread must have saved its samples before the last blocks are
+  // written. It is already stopped if the measurement was stopped.
+  ExitWriteCache();
 
   Open(std::ios_base::in | std::ios_base::out | std::ios_base::binary);
   if (!IsOpen()) {
-- 
2.43.0


From 326aafbfb7ee74b6ef5b1e281efc3750aa8a3dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:45 +0000
Subject: [PATCH 51/52] fix: MDF 3 float channel kept the double signal type
 when its size was set to 4 bytes

---
 mdflib/src/cn3block.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mdflib/src/cn3block.cpp b/mdflib/src/cn3block.cpp
index 82dda52..e8c4e48 100644
--- a/mdflib/src/cn3block.cpp
+++ b/mdflib/src/cn3block.cpp
@@ -486,6 +486,9 @@ void Cn3Block::DataBytes(uint64_t nof_bytes) {
   if (nof_bytes == 8 &&
       (signal_type_ == 2 || signal_type_ == 11 || signal_type_ == 15)) {
     ++signal_type_;  // Making it a double type instead.
+  } else if (nof_bytes == 4 &&
+      (signal_type_ == 3 || signal_type_ == 12 || signal_type_ == 16)) {
+    --signal_type_;  // Making it a float type instead.
   }
 }
 
-- 
2.43.0


From adeb2e7851399ec3486634c087e8c5cfdbc04755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:55 +0000
Subject: [PATCH 52/52] fix: MDF 3 block size of a formula conversion did not
 include the formula

---
 mdflib/src/cc3block.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdflib/src/cc3block.cpp b/mdflib/src/cc3block.cpp
index acd1baa..8d23433 100644
--- a/mdflib/src/cc3block.cpp
+++ b/mdflib/src/cc3block.cpp
@@ -330,7 +330,7 @@ uint64_t Cc3Block::Write(std::streambuf& buffer) {
     case 10:  // Text formula
       nof_values_ = static_cast<uint16_t>(formula_.size());
       bytes += WriteNumber(buffer, nof_values_);
-      WriteStr(buffer, formula_, formula_.size());
+      bytes += WriteStr(buffer, formula_, formula_.size());
       break;
 
     case 11:  // Text Table
-- 
2.43.0

