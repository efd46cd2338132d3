From 8eb7fc35c82a2d87fc7df8b2828b04e3ffdea3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:29 +0000
Subject: [PATCH 01/70] fix: keep only minimal intervals when a posting is
 built from annotations

Two annotations of one feature with the same start (or exact duplicates) in one
transaction both survived, leaving a list that is not a generalized concordance
list; queries over it could loop forever.
---
 src/simple_posting.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simple_posting.cc b/src/simple_posting.cc
index f3e21c8..b233f2f 100644
--- a/src/simple_posting.cc
+++ b/src/simple_posting.cc
@@ -56,8 +56,8 @@ std::shared_ptr<SimplePosting> SimplePostingFactory::posting_from_annotations(
       if (stop->v != 0.0)
         clear_fostings = false;
       if (posting->postings_.size() == 0 ||
-          (stop->p >= posting->postings_.back() &&
-           stop->q >= posting->qostings_.back())) {
+          (stop->p > posting->postings_.back() &&
+           stop->q > posting->qostings_.back())) {
         posting->postings_.push_back(stop->p);
         posting->qostings_.push_back(stop->q);
         posting->fostings_.push_back(stop->v);
-- 
2.43.0


From bbe3f7c1a90b6ae725563679358f30a70017a42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:29 +0000
Subject: [PATCH 02/70] fix: Merge::uat returned the containing interval when
 starts tie

---
 gcl/gcl.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcl/gcl.cc b/gcl/gcl.cc
index 2223462..2ec306e 100644
--- a/gcl/gcl.cc
+++ b/gcl/gcl.cc
@@ -322,7 +322,7 @@ void Merge::uat_(addr k, addr *p, addr *q, fval *v) {
     *p = pr;
     *q = qr;
     *v = vr;
-  } else if (ql < qr) {
+  } else if (ql > qr) {
     *p = pr;
     *q = qr;
     *v = vr;
-- 
2.43.0


From 3e1d12288ffb7740d574e124262ac2480028f7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:36 +0000
Subject: [PATCH 03/70] fix: commit a fiver outside assert() so NDEBUG builds
 keep committed data

---
 src/fiver.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fiver.cc b/src/fiver.cc
index 15f1b06..ed0ccca 100644
--- a/src/fiver.cc
+++ b/src/fiver.cc
@@ -716,8 +716,10 @@ void Fiver::commit_() {
       std::string ready_name = working()->make_name(name() + "." + recipe());
       name_ = "fiver";
       std::string final_name = working()->make_name(name() + "." + recipe());
-      assert(link(ready_name.c_str(), final_name.c_str()) == 0);
-      std::remove(ready_name.c_str());
+      int linked = link(ready_name.c_str(), final_name.c_str());
+      assert(linked == 0);
+      if (linked == 0)
+        std::remove(ready_name.c_str());
     } else {
       name_ = "fiver";
     }
-- 
2.43.0


From b86f5e3bb8c1e91109363c9070a51dee76129391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:36 +0000
Subject: [PATCH 04/70] fix: truncate SimpleTxt contents outside assert() when
 restoring after an abort

---
 src/simple_txt_io.cc | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/simple_txt_io.cc b/src/simple_txt_io.cc
index 2eefaa1..84c0da7 100644
--- a/src/simple_txt_io.cc
+++ b/src/simple_txt_io.cc
@@ -51,12 +51,15 @@ void restore(const std::string &nameof_contents,
   if (last_chunk == nullptr)
     return;
   if (chunk_map_limit == 0) {
-    assert(truncate(nameof_contents.c_str(), 0) == 0);
-    assert(truncate(nameof_chunk_map.c_str(), 0) == 0);
+    int contents_truncated = truncate(nameof_contents.c_str(), 0);
+    assert(contents_truncated == 0);
+    int chunk_map_truncated = truncate(nameof_chunk_map.c_str(), 0);
+    assert(chunk_map_truncated == 0);
     return;
   }
-  assert(truncate(nameof_chunk_map.c_str(),
-                  chunk_map_limit * sizeof(std::streamoff)) == 0);
+  int truncated = truncate(nameof_chunk_map.c_str(),
+                           chunk_map_limit * sizeof(std::streamoff));
+  assert(truncated == 0);
   std::fstream mapf(nameof_chunk_map,
                     std::ios::binary | std::ios::in | std::ios::out);
   assert(!mapf.fail());
@@ -73,7 +76,8 @@ void restore(const std::string &nameof_contents,
       std::unique_ptr<char[]>(new char[buffer_size]);
   std::streamsize amount = compressor->crush(last_chunk.get(), last_chunk_end,
                                              buffer.get(), buffer_size);
-  assert(truncate(nameof_contents.c_str(), where + amount) == 0);
+  truncated = truncate(nameof_contents.c_str(), where + amount);
+  assert(truncated == 0);
   std::fstream contents(nameof_contents,
                         std::ios::binary | std::ios::in | std::ios::out);
   assert(!contents.fail());
-- 
2.43.0


From f04391afc409ebc1ff936e22657f1cfb8b388d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:58 +0000
Subject: [PATCH 05/70] fix: pickle transactions without annotations so that
 they can be committed

---
 src/fiver.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/fiver.cc b/src/fiver.cc
index ed0ccca..7c62f20 100644
--- a/src/fiver.cc
+++ b/src/fiver.cc
@@ -671,8 +671,6 @@ bool Fiver::ready_(std::string *error) {
   }
   if (!appender_->ready(error) || !annotator_->ready(error))
     return false;
-  if (annotations_->size() == 0)
-    return true;
   index_->clear();
   addr relocate = staging - where_;
   for (auto &annotation : (*annotations_))
-- 
2.43.0


From e8ddafc89c110bd7818c4e026f6490204d4ad604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:19 +0000
Subject: [PATCH 06/70] fix: relocate both ends of an annotation when a
 transaction becomes ready

---
 src/fiver.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fiver.cc b/src/fiver.cc
index 7c62f20..db9bbf4 100644
--- a/src/fiver.cc
+++ b/src/fiver.cc
@@ -673,11 +673,12 @@ bool Fiver::ready_(std::string *error) {
     return false;
   index_->clear();
   addr relocate = staging - where_;
-  for (auto &annotation : (*annotations_))
-    if (annotation.p >= staging) {
+  for (auto &annotation : (*annotations_)) {
+    if (annotation.p >= staging)
       annotation.p -= relocate;
+    if (annotation.q >= staging && annotation.q < maxfinity)
       annotation.q -= relocate;
-    }
+  }
   std::sort(annotations_->begin(), annotations_->end(),
             [](const Annotation &a, const Annotation &b) {
               return a.feature < b.feature ||
-- 
2.43.0


From ccb0f809836e42af7ea7667dc5a758fef47bfd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:52 +0000
Subject: [PATCH 07/70] fix: initialise Fiver state so aborting before ready is
 well defined

---
 src/fiver.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fiver.h b/src/fiver.h
index 0c099dc..680180b 100644
--- a/src/fiver.h
+++ b/src/fiver.h
@@ -95,10 +95,10 @@ private:
   bool ready_(std::string *error) final;
   void commit_() final;
   void abort_() final;
-  bool built_;
-  addr where_;
-  addr storage_estimate_;
-  addr sequence_start_, sequence_end_;
+  bool built_ = false;
+  addr where_ = 0;
+  addr storage_estimate_ = 0;
+  addr sequence_start_ = -1, sequence_end_ = -1; // no number until ready
   std::shared_ptr<Compressor> posting_compressor_;
   std::shared_ptr<Compressor> fvalue_compressor_;
   std::shared_ptr<Compressor> text_compressor_;
-- 
2.43.0


From 8e9f1db4292e81e6d05b8c01444f7ab768ebb654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:21 +0000
Subject: [PATCH 08/70] fix: translate a range ending in an address gap or at
 maxfinity correctly

---
 src/fiver.cc | 13 +++++++++++--
 src/hazel.cc | 16 ++++++++++++----
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/fiver.cc b/src/fiver.cc
index db9bbf4..173ca43 100644
--- a/src/fiver.cc
+++ b/src/fiver.cc
@@ -279,18 +279,27 @@ private:
   std::string translate_(addr p, addr q) final {
     if (p < 0)
       p = 0;
+    if (q == maxfinity)
+      q = maxfinity - 1;
     if (p == maxfinity || q < p)
       return "";
     addr p0, q0, i;
     addr p1, q1, j;
+    size_t n = text_->length();
+    addr after = n;
     {
       std::lock_guard<std::mutex> lock(mutex_);
       hopper_->rho(p, &p0, &q0, &i);
       if (p0 == maxfinity || p0 > q)
         return "";
       hopper_->ohr(q, &p1, &q1, &j);
+      if (q > q1) {
+        addr p2, q2, k;
+        hopper_->tau(q + 1, &p2, &q2, &k);
+        if (p2 < maxfinity)
+          after = k;
+      }
     }
-    size_t n = text_->length();
     const char *t = text_->c_str();
     const char *s = t + i;
     if (p0 < p)
@@ -299,7 +308,7 @@ private:
       p = p0;
     const char *e;
     if (q > q1)
-      e = t + n;
+      e = t + after;
     else if (q0 == q1)
       e = tokenizer_->skip(s, n - (s - t), q - p + 1);
     else
diff --git a/src/hazel.cc b/src/hazel.cc
index a0283b6..3292b5b 100644
--- a/src/hazel.cc
+++ b/src/hazel.cc
@@ -987,28 +987,36 @@ private:
 
     addr p0, q0, left_anchor_byte;
     addr p1, q1, right_anchor_byte;
+    addr after_byte = raw_text_length_;
     {
       std::lock_guard<std::mutex> lock(hopper_lock_);
       hopper_->rho(p, &p0, &q0, &left_anchor_byte);
       if (p0 == maxfinity || p0 > q)
         return "";
       hopper_->ohr(q, &p1, &q1, &right_anchor_byte);
+      if (q > q1) {
+        addr p2, q2, next_anchor_byte;
+        hopper_->tau(q + 1, &p2, &q2, &next_anchor_byte);
+        if (p2 < maxfinity)
+          after_byte = next_anchor_byte;
+      }
     }
     if (p1 == minfinity || p1 == maxfinity)
       return "";
     if (left_anchor_byte < 0 || left_anchor_byte > raw_text_length_ ||
-        right_anchor_byte < 0 || right_anchor_byte > raw_text_length_)
+        right_anchor_byte < 0 || right_anchor_byte > raw_text_length_ ||
+        after_byte < left_anchor_byte || after_byte > raw_text_length_)
       return "";
 
     addr cover_byte_start = left_anchor_byte;
-    addr cover_byte_end = q > q1 ? raw_text_length_ : right_anchor_byte;
+    addr cover_byte_end = q > q1 ? after_byte : right_anchor_byte;
     if (cover_byte_start > cover_byte_end || map_.empty())
       return "";
 
     size_t first_chunk = chunk_containing(left_anchor_byte);
     size_t last_chunk;
     if (q > q1)
-      last_chunk = map_.size() - 1;
+      last_chunk = chunk_containing(after_byte);
     else
       last_chunk = chunk_containing(right_anchor_byte);
     if (first_chunk >= map_.size() || last_chunk >= map_.size() ||
@@ -1034,7 +1042,7 @@ private:
 
     const char *end;
     if (q > q1) {
-      end = limit;
+      end = base + (after_byte - window_byte_start);
     } else if (q0 == q1) {
       end = tokenizer_->skip(start, limit - start, q - p + 1);
     } else {
-- 
2.43.0


From 70977abc5e7233c2b057708e3d15fc34b5f62baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:21 +0000
Subject: [PATCH 09/70] fix: HazelTxt counted addresses of aborted transactions
 as tokens

---
 src/hazel.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/hazel.cc b/src/hazel.cc
index 3292b5b..26aec00 100644
--- a/src/hazel.cc
+++ b/src/hazel.cc
@@ -1060,7 +1060,15 @@ private:
   addr tokens_() final {
     if (token_start_ == maxfinity)
       return 0;
-    return token_end_ - token_start_ + 1;
+    std::lock_guard<std::mutex> lock(hopper_lock_);
+    if (token_count_ >= 0)
+      return token_count_;
+    token_count_ = 0;
+    addr p, q;
+    for (hopper_->tau(minfinity + 1, &p, &q); p < maxfinity;
+         hopper_->tau(p + 1, &p, &q))
+      token_count_ += q - p + 1;
+    return token_count_;
   };
   bool range_(addr *p, addr *q) final {
     if (token_start_ == maxfinity) {
@@ -1257,6 +1265,7 @@ private:
   std::mutex cache_write_lock_;
   addr token_start_ = maxfinity;
   addr token_end_ = maxfinity;
+  addr token_count_ = -1;
 };
 
 bool HazelTxt::merge(const std::vector<std::shared_ptr<HazelTxt>> &txts,
-- 
2.43.0


From a34f7316003fe287afe8f7dc957856642e0f6f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:21 +0000
Subject: [PATCH 10/70] fix: data race on the cached token range of a fiver

---
 src/fiver.cc | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/fiver.cc b/src/fiver.cc
index 173ca43..0f8f893 100644
--- a/src/fiver.cc
+++ b/src/fiver.cc
@@ -326,16 +326,14 @@ private:
     return count_;
   }
   bool range_(addr *p, addr *q) {
+    std::lock_guard<std::mutex> lock(mutex_);
     if (!range_valid_) {
-      std::lock_guard<std::mutex> lock(mutex_);
-      if (!range_valid_) {
-        range_valid_ = true;
-        hopper_->tau(minfinity + 1, &range_p_, &range_q_);
-        if (range_p_ < maxfinity) {
-          addr ignore;
-          hopper_->uat(maxfinity - 1, &ignore, &range_q_);
-        }
+      hopper_->tau(minfinity + 1, &range_p_, &range_q_);
+      if (range_p_ < maxfinity) {
+        addr ignore;
+        hopper_->uat(maxfinity - 1, &ignore, &range_q_);
       }
+      range_valid_ = true;
     }
     *p = range_p_;
     *q = range_q_;
-- 
2.43.0


From af8c0100aee23b81a4a36ed3edf033bc5a63a2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:21 +0000
Subject: [PATCH 11/70] fix: keep text before the first chunk when writing a
 Hazel text blob

---
 src/fiver.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/fiver.cc b/src/fiver.cc
index 0f8f893..e03956b 100644
--- a/src/fiver.cc
+++ b/src/fiver.cc
@@ -1125,7 +1125,6 @@ bool hazel_write_txt_blob(std::fstream *out, std::shared_ptr<Idx> idx,
       return false;
     }
     if (!have_chunk) {
-      group_start = raw_start;
       have_chunk = true;
     } else if (raw_start - group_start >= target_chunk_size) {
       if (!hazel_write_text_chunk(out, chunk_space_start, text, group_start,
-- 
2.43.0


From a24ed9852513f7c66e5c0612afe120451fd8d102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:47 +0000
Subject: [PATCH 12/70] fix: a nested erasure no longer cancels the erasure
 around it

---
 src/simple_posting.cc | 43 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/src/simple_posting.cc b/src/simple_posting.cc
index b233f2f..193edd3 100644
--- a/src/simple_posting.cc
+++ b/src/simple_posting.cc
@@ -7,6 +7,7 @@
 #include <memory>
 #include <queue>
 #include <string>
+#include <utility>
 #include <vector>
 
 #include "hopper.h"
@@ -37,6 +38,24 @@ std::shared_ptr<SimplePosting> SimplePostingFactory::posting_from_tokens(
   return posting;
 }
 
+namespace {
+// Erasures filter by containment, so unlike other features their outermost
+// intervals matter. The result is in address order with no nesting.
+std::vector<std::pair<addr, addr>>
+outermost(std::vector<std::pair<addr, addr>> erasures) {
+  std::sort(erasures.begin(), erasures.end(),
+            [](const auto &a, const auto &b) -> bool {
+              return a.first < b.first ||
+                     (a.first == b.first && a.second > b.second);
+            });
+  std::vector<std::pair<addr, addr>> kept;
+  for (auto &erasure : erasures)
+    if (kept.empty() || erasure.second > kept.back().second)
+      kept.push_back(erasure);
+  return kept;
+}
+} // namespace
+
 std::shared_ptr<SimplePosting> SimplePostingFactory::posting_from_annotations(
     std::vector<Annotation>::iterator *start,
     const std::vector<Annotation>::iterator &end) {
@@ -46,6 +65,16 @@ std::shared_ptr<SimplePosting> SimplePostingFactory::posting_from_annotations(
       new SimplePosting(posting_compressor_, fvalue_compressor_));
   posting->feature_ = (*start)->feature;
   std::vector<Annotation>::iterator stop;
+  if (posting->feature_ == null_feature) {
+    std::vector<std::pair<addr, addr>> erasures;
+    for (stop = (*start); stop < end && stop->feature == null_feature; stop++)
+      if (stop->p <= stop->q)
+        erasures.emplace_back(stop->p, stop->q);
+    for (auto &erasure : outermost(erasures))
+      posting->push(erasure.first, erasure.second, 0.0);
+    (*start) = stop;
+    return posting;
+  }
   bool clear_qostings = true;
   bool clear_fostings = true;
   for (stop = (*start); stop < end && stop->feature == posting->feature_;
@@ -399,6 +428,20 @@ std::shared_ptr<SimplePosting> SimplePostingFactory::posting_from_merge(
   if (postings.size() == 1)
     return postings[0];
   addr feature = postings[0]->feature();
+  if (feature == null_feature) {
+    std::vector<std::pair<addr, addr>> erasures;
+    for (auto &posting : postings)
+      for (size_t i = 0; i < posting->size(); i++) {
+        addr p, q;
+        fval v;
+        posting->get(i, &p, &q, &v);
+        erasures.emplace_back(p, q);
+      }
+    std::shared_ptr<SimplePosting> merged = posting_from_feature(feature);
+    for (auto &erasure : outermost(erasures))
+      merged->push(erasure.first, erasure.second, 0.0);
+    return merged;
+  }
   bool can_append = true;
   for (size_t i = 1; can_append && i < postings.size(); i++) {
     assert(postings[i]->feature() == feature);
-- 
2.43.0


From c11a387cbf8145c8d1164dfa6cc0419c0a44ddf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:47 +0000
Subject: [PATCH 13/70] fix: do not index a feature whose annotations are all
 empty intervals

---
 src/fiver.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fiver.cc b/src/fiver.cc
index e03956b..12a3404 100644
--- a/src/fiver.cc
+++ b/src/fiver.cc
@@ -698,7 +698,8 @@ bool Fiver::ready_(std::string *error) {
   while (it < annotations_->end()) {
     std::shared_ptr<SimplePosting> posting =
         posting_factory->posting_from_annotations(&it, annotations_->end());
-    (*index_)[posting->feature()] = posting;
+    if (posting->size() > 0)
+      (*index_)[posting->feature()] = posting;
   }
   if (pickle(error))
     return true;
-- 
2.43.0


From 45e7936fe9e1e200369f290877e50786a1b61c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:51 +0000
Subject: [PATCH 14/70] fix: data race on the merge switch of a dynamic store

---
 src/fluffle.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fluffle.h b/src/fluffle.h
index a9b2d62..63b81c1 100644
--- a/src/fluffle.h
+++ b/src/fluffle.h
@@ -1,6 +1,7 @@
 #ifndef COTTONTAIL_SRC_FLUFFLE_H_
 #define COTTONTAIL_SRC_FLUFFLE_H_
 
+#include <atomic>
 #include <map>
 #include <memory>
 #include <mutex>
@@ -25,7 +26,7 @@ struct Fluffle {
     return fluffle;
   };
   std::mutex lock;
-  bool merge = true;
+  std::atomic<bool> merge = true;
   size_t workers = 0;
   size_t max_workers;
   addr address = 0;
-- 
2.43.0


From d548e0453e76c4958edfcc5c4c4a1ac6298fab4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:37 +0000
Subject: [PATCH 15/70] fix: a shard that could not be written completely was
 used anyway

---
 src/bigwig.cc           |  4 +---
 src/fiver.cc            | 13 ++++++++++++-
 src/simple_annotator.cc |  3 +++
 src/simple_builder.cc   |  4 ++++
 src/simple_posting.cc   |  4 ----
 5 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/bigwig.cc b/src/bigwig.cc
index 2ec1ca1..bd8f34e 100644
--- a/src/bigwig.cc
+++ b/src/bigwig.cc
@@ -1281,10 +1281,8 @@ void merge_worker(std::shared_ptr<Fluffle> fluffle) {
     std::shared_ptr<Owsla> output;
     if (action == MergeAction::fiver_merge) {
       std::shared_ptr<Fiver> merged = Fiver::merge(fivers);
-      if (merged != nullptr) {
-        merged->pickle();
+      if (merged != nullptr && merged->pickle())
         output = merged;
-      }
     } else if (action == MergeAction::hazel_merge) {
       std::string error;
       output = Hazel::merge(hazels, hazel_merge_destination, hazel_parameters,
diff --git a/src/fiver.cc b/src/fiver.cc
index 12a3404..d5491c1 100644
--- a/src/fiver.cc
+++ b/src/fiver.cc
@@ -758,11 +758,14 @@ bool Fiver::discard(std::string *error) {
 bool Fiver::pickle(std::string *error) {
   if (working() != nullptr) {
     std::string tempname = working()->make_temp();
-    if (!pickle(tempname, error))
+    if (!pickle(tempname, error)) {
+      std::remove(tempname.c_str());
       return false;
+    }
     std::string jarname = working()->make_name(name() + "." + recipe());
     if (link(tempname.c_str(), jarname.c_str()) != 0) {
       safe_error(error) = "Fiver can't link pickle jar";
+      std::remove(tempname.c_str());
       return false;
     }
     std::remove(tempname.c_str());
@@ -819,6 +822,10 @@ bool Fiver::pickle(const std::string &filename, std::string *error) {
   for (auto &posting : *index_)
     posting.second->write(&jar);
   jar.close();
+  if (jar.fail()) {
+    safe_error(error) = "Fiver failed to pickle into: " + filename;
+    return false;
+  }
   return true;
 }
 
@@ -1267,6 +1274,10 @@ bool Fiver::hazel(const std::string &filename, std::string *error,
     return false;
   }
   out.close();
+  if (out.fail()) {
+    safe_error(error) = "Fiver failed to write Hazel shard: " + filename;
+    return false;
+  }
   return true;
 }
 
diff --git a/src/simple_annotator.cc b/src/simple_annotator.cc
index 95b4cdb..260c526 100644
--- a/src/simple_annotator.cc
+++ b/src/simple_annotator.cc
@@ -177,6 +177,7 @@ bool merge_updates(const std::vector<std::string> &posting_filenames,
     assert(posting_with_feature.size() > 0);
     if (posting_with_feature.size() == 1) {
       posting_with_feature[0]->write(&pst);
+      assert(!pst.fail());
     } else {
       std::shared_ptr<SimplePosting> merged_posting =
           posting_factory->posting_from_merge(posting_with_feature);
@@ -186,6 +187,7 @@ bool merge_updates(const std::vector<std::string> &posting_filenames,
         return false;
       }
       merged_posting->write(&pst);
+      assert(!pst.fail());
     }
     for (size_t i = 0; i < posting_nexts.size(); i++)
       if (posting_nexts[i] != nullptr && posting_nexts[i]->feature() == feature)
@@ -225,6 +227,7 @@ void SimpleAnnotator::maybe_flush_additions(bool force) {
         std::shared_ptr<cottontail::SimplePosting> posting =
             posting_factory->posting_from_annotations(&it, added->end());
         posting->write(&addf);
+        assert(!addf.fail());
       }
     };
     std::string add_filename = working_->make_temp("ann");
diff --git a/src/simple_builder.cc b/src/simple_builder.cc
index 9b4cfdd..208bed6 100644
--- a/src/simple_builder.cc
+++ b/src/simple_builder.cc
@@ -440,6 +440,7 @@ bool SimpleBuilder::maybe_flush_tokens(bool force, std::string *error) {
               std::shared_ptr<cottontail::SimplePosting> posting =
                   posting_factory->posting_from_tokens(&it, tokens->end());
               posting->write(&tok);
+              assert(!tok.fail());
             }
           };
       if (verbose())
@@ -467,6 +468,7 @@ bool SimpleBuilder::maybe_flush_tokens(bool force, std::string *error) {
         std::shared_ptr<cottontail::SimplePosting> posting =
             posting_factory_->posting_from_tokens(&it, tokens_->end());
         posting->write(&tok);
+        assert(!tok.fail());
       }
       tokq_.push(tok_filename);
       tokens_->clear();
@@ -545,6 +547,7 @@ bool SimpleBuilder::build_index(std::string *error) {
     //   2) your tokens/annotations nest (but it's okay if they overlap).
     assert(merged_posting->invariants());
     merged_posting->write(&pst);
+    assert(!pst.fail());
     IdxRecord idxr(feature, pst.tellp());
     idx.write(reinterpret_cast<char *>(&idxr), sizeof(idxr));
     if (idx.fail()) {
@@ -632,6 +635,7 @@ bool SimpleBuilder::maybe_flush_annotations(bool force, std::string *error) {
                 posting_factory->posting_from_annotations(&it,
                                                           annotations->end());
             posting->write(&ann);
+            assert(!ann.fail());
           }
         };
     std::string ann_filename = working_->make_temp();
diff --git a/src/simple_posting.cc b/src/simple_posting.cc
index 193edd3..c36a5aa 100644
--- a/src/simple_posting.cc
+++ b/src/simple_posting.cc
@@ -601,16 +601,12 @@ void SimplePosting::write(std::ostream *f) {
   PstRecord idx(feature_, n, postings_compressed, qostings_compressed,
                 fostings_compressed);
   f->write(reinterpret_cast<char *>(&idx), sizeof(PstRecord));
-  assert(!f->fail());
   f->write(postings_buffer.get(), postings_compressed);
-  assert(!f->fail());
   if (qostings_compressed > 0) {
     f->write(qostings_buffer.get(), qostings_compressed);
-    assert(!f->fail());
   }
   if (fostings_compressed > 0) {
     f->write(fostings_buffer.get(), fostings_compressed);
-    assert(!f->fail());
   }
 }
 
-- 
2.43.0


From e516ddd279c3d51f817528f18cd145622fbe81ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:37 +0000
Subject: [PATCH 16/70] fix: keep the old configuration when the new one cannot
 be written

---
 src/dna.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dna.cc b/src/dna.cc
index cf3e888..58bbc83 100644
--- a/src/dna.cc
+++ b/src/dna.cc
@@ -46,7 +46,12 @@ bool write_dna(std::shared_ptr<Working> working, const std::string &dna,
   out << HEADER << "\n";
   out << dna;
   out.close();
-  std::rename(temp_filename.c_str(), dna_filename.c_str());
+  if (out.fail() ||
+      std::rename(temp_filename.c_str(), dna_filename.c_str()) != 0) {
+    safe_error(error) = "Can't write configuration to: " + dna_filename;
+    std::remove(temp_filename.c_str());
+    return false;
+  }
   return true;
 }
 
-- 
2.43.0


From ba2c84aa0c82a904a0968f8a46a5a902534a6da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:36 +0000
Subject: [PATCH 17/70] fix: failing merges were retried forever

---
 src/bigwig.cc | 8 ++++++--
 src/fluffle.h | 1 +
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/bigwig.cc b/src/bigwig.cc
index bd8f34e..10520f9 100644
--- a/src/bigwig.cc
+++ b/src/bigwig.cc
@@ -877,7 +877,8 @@ bool find_smallest_pair(const std::vector<addr> &a, size_t *start,
 
 bool eligible(std::shared_ptr<Fluffle> fluffle, std::shared_ptr<Owsla> warren) {
   return warren != nullptr &&
-         fluffle->merging.find(warren) == fluffle->merging.end();
+         fluffle->merging.find(warren) == fluffle->merging.end() &&
+         fluffle->failed.find(warren) == fluffle->failed.end();
 }
 
 bool hazel_merge_okay(std::shared_ptr<Fluffle> fluffle) {
@@ -1295,8 +1296,10 @@ void merge_worker(std::shared_ptr<Fluffle> fluffle) {
     {
       std::lock_guard<std::mutex> _(fluffle->lock);
       if (output == nullptr) {
-        for (auto &warren : selected)
+        for (auto &warren : selected) {
           fluffle->merging.erase(warren);
+          fluffle->failed.insert(warren);
+        }
         retire();
         return;
       }
@@ -1338,6 +1341,7 @@ void merge_worker(std::shared_ptr<Fluffle> fluffle) {
 void Bigwig::try_merge() {
   if (fluffle_->merge) {
     fluffle_->lock.lock();
+    fluffle_->failed.clear();
     if (fluffle_->workers < fluffle_->max_workers) {
       fluffle_->workers++;
       std::thread t(merge_worker, fluffle_);
diff --git a/src/fluffle.h b/src/fluffle.h
index 63b81c1..b1d73f1 100644
--- a/src/fluffle.h
+++ b/src/fluffle.h
@@ -32,6 +32,7 @@ struct Fluffle {
   addr address = 0;
   addr sequence = 0;
   std::set<std::shared_ptr<Owsla>> merging;
+  std::set<std::shared_ptr<Owsla>> failed; // not tried again until next commit
   std::vector<std::shared_ptr<Owsla>> warrens;
   std::vector<HazelMergeRecovery> hazel_merges;
   std::shared_ptr<std::map<std::string, std::string>> parameters;
-- 
2.43.0


From 6462e236a943bcf73d7db8a5de443205e25d0496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:36 +0000
Subject: [PATCH 18/70] fix: writing to a stream that has already failed
 aborted the process

---
 src/simple_posting.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/simple_posting.cc b/src/simple_posting.cc
index c36a5aa..6a935ec 100644
--- a/src/simple_posting.cc
+++ b/src/simple_posting.cc
@@ -559,7 +559,6 @@ void SimplePosting::push(addr p, addr q, fval v) {
 }
 
 void SimplePosting::write(std::ostream *f) {
-  assert(!f->fail());
   addr n = postings_.size();
   if (n == 0) {
     PstRecord idx(feature_, 0, 0, 0, 0);
-- 
2.43.0


From a7b7a70703cc1e9459ee19c9b81f1f424b68bb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:20 +0000
Subject: [PATCH 19/70] fix: static annotations kept the outer of two nested
 intervals

The sort order left posting_from_annotations keeping the enclosing
interval; the dynamic index orders by end, then by decreasing start.
---
 src/simple_annotator.cc | 4 +++-
 src/simple_builder.cc   | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/simple_annotator.cc b/src/simple_annotator.cc
index 260c526..0077e8e 100644
--- a/src/simple_annotator.cc
+++ b/src/simple_annotator.cc
@@ -204,7 +204,9 @@ bool merge_updates(const std::vector<std::string> &posting_filenames,
 }
 
 bool annotation_cmp(const Annotation &a, const Annotation &b) {
-  return a.feature < b.feature || (a.feature == b.feature && a.p < b.p);
+  return a.feature < b.feature ||
+         (a.feature == b.feature &&
+          (a.q < b.q || (a.q == b.q && a.p > b.p)));
 }
 } // namespace
 
diff --git a/src/simple_builder.cc b/src/simple_builder.cc
index 208bed6..5d0d38d 100644
--- a/src/simple_builder.cc
+++ b/src/simple_builder.cc
@@ -42,7 +42,9 @@ bool tok_cmp(const TokRecord &a, const TokRecord &b) {
 }
 
 bool annotation_cmp(const Annotation &a, const Annotation &b) {
-  return a.feature < b.feature || (a.feature == b.feature && a.p < b.p);
+  return a.feature < b.feature ||
+         (a.feature == b.feature &&
+          (a.q < b.q || (a.q == b.q && a.p > b.p)));
 }
 
 template <typename T, bool CMP(const T &, const T &)>
-- 
2.43.0


From 49c31f81cc5c438f30a531b3e7635c80efdd66b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:20 +0000
Subject: [PATCH 20/70] fix: appended word with two features at a block start
 wrote two map records

---
 src/simple_appender.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/simple_appender.cc b/src/simple_appender.cc
index 54fe8f0..6441a77 100644
--- a/src/simple_appender.cc
+++ b/src/simple_appender.cc
@@ -163,6 +163,7 @@ bool SimpleAppender::append_(const std::string &text, addr *p, addr *q,
         lock_.unlock();
         return false;
       }
+      last_pq = token.address;
     }
   }
   *p = address_;
-- 
2.43.0


From 54f09d06aae984cfa58cc149945b4843b0ff85ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:20 +0000
Subject: [PATCH 21/70] fix: ready static append left its token map unwritten

---
 src/simple_appender.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/simple_appender.cc b/src/simple_appender.cc
index 6441a77..06c7b26 100644
--- a/src/simple_appender.cc
+++ b/src/simple_appender.cc
@@ -312,6 +312,15 @@ bool SimpleAppender::transaction_(std::string *error) {
 bool SimpleAppender::ready_(std::string *error) {
   lock_.lock();
   bool result = !failed_ && adding_ && io_->ready(error);
+  if (result) {
+    // The update has to be complete before recovery may be asked to commit it
+    txt_.flush();
+    if (txt_.fail()) {
+      safe_error(error) = "SimpleAppender can't write :" + txt_filename_ + ".new";
+      lock_.unlock();
+      return false;
+    }
+  }
   if (!result && !failed_ && !adding_)
     safe_error(error) = "SimpleAppender not in transaction";
   else if (!result && failed_)
-- 
2.43.0


From 08923e1bc575f9d5c22fd79be996fd2a884ac70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:40 +0000
Subject: [PATCH 22/70] fix: transaction on an empty static collection read an
 uninitialised length

---
 src/simple_txt_io.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simple_txt_io.h b/src/simple_txt_io.h
index f0e76b8..a31c590 100644
--- a/src/simple_txt_io.h
+++ b/src/simple_txt_io.h
@@ -69,9 +69,9 @@ private:
   bool chunk_valid_ = false;
   bool last_chunk_synced_ = true;
   bool flushed_ = true;
-  size_t chunk_index_;
+  size_t chunk_index_ = 0;
   std::unique_ptr<char[]> chunk_;
-  std::streamsize chunk_end_;
+  std::streamsize chunk_end_ = 0;
   addr buffer_size_;
   std::unique_ptr<char[]> buffer_;
   bool read_only_ = false;
-- 
2.43.0


From 444f634dbd5b96cf955493cd439586450617573c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:48 +0000
Subject: [PATCH 23/70] fix: a NUL byte in the text ended address recovery and
 UTF-8 splitting early

---
 src/simple_appender.cc | 2 +-
 src/utf8_tokenizer.cc  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simple_appender.cc b/src/simple_appender.cc
index 06c7b26..496aa30 100644
--- a/src/simple_appender.cc
+++ b/src/simple_appender.cc
@@ -289,7 +289,7 @@ bool SimpleAppender::transaction_(std::string *error) {
       lock_.unlock();
       return false;
     }
-    std::string tail_string = tail.get();
+    std::string tail_string(tail.get(), actual);
     std::vector<std::string> tail_tokens = tokenizer_->split(tail_string);
     if (tail_tokens.size() == 0) {
       safe_error(error) =
diff --git a/src/utf8_tokenizer.cc b/src/utf8_tokenizer.cc
index 59ba36f..a6592d0 100644
--- a/src/utf8_tokenizer.cc
+++ b/src/utf8_tokenizer.cc
@@ -577,7 +577,7 @@ std::vector<std::string> Utf8Tokenizer::split_(const std::string &text) {
   const uint8_t *s = (const uint8_t *)text.c_str();
   const uint8_t *e = s + text.length();
   std::string token;
-  while (*s) {
+  while (s < e) {
     uint32_t codepoint;
     const uint8_t *t = unicode(s, e, &codepoint);
     uint8_t *action = actions_[codepoint];
-- 
2.43.0


From dc766dd7615b8888f728922b2bcf1b42479e232e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:01 +0000
Subject: [PATCH 24/70] fix: vbyte coding of a negative address ran past its
 buffer

---
 src/post_compressor.cc | 20 +++++++++++---------
 src/post_compressor.h  |  2 +-
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/post_compressor.cc b/src/post_compressor.cc
index b93c115..63640da 100644
--- a/src/post_compressor.cc
+++ b/src/post_compressor.cc
@@ -8,7 +8,9 @@ namespace cottontail {
 
 namespace {
 
-inline char *encode_1(addr delta, char *out) {
+// Deltas are unsigned, so that lists starting at a negative address (or holding
+// values that aren't sorted) are coded too, in at most ten bytes each.
+inline char *encode_1(uint64_t delta, char *out) {
   do {
     char seven = delta & 0x7F;
     delta >>= 7;
@@ -22,21 +24,21 @@ inline char *encode_1(addr delta, char *out) {
 size_t encode_all(addr *list, addr n, char *out) {
   addr *last_addr = list + n;
   char *next_byte = out;
-  addr previous_addr = 0;
+  uint64_t previous_addr = 0;
   for (; list != last_addr; list++) {
-    addr current_addr = *list;
-    addr current_delta = current_addr - previous_addr;
+    uint64_t current_addr = *list;
+    uint64_t current_delta = current_addr - previous_addr;
     next_byte = encode_1(current_delta, next_byte);
     previous_addr = current_addr;
   }
   return next_byte - out;
 }
 
-inline char *decode_1(char *in, addr *delta) {
-  addr working = 0;
+inline char *decode_1(char *in, uint64_t *delta) {
+  uint64_t working = 0;
   int shift = 0;
   for (;;) {
-    addr current = *in++;
+    uint64_t current = *in++;
     working |= ((current & 0x7F) << shift);
     if ((current & 0x80) == 0)
       break;
@@ -50,10 +52,10 @@ size_t decode_all(char *in, size_t length, addr *list, size_t n) {
   addr *current_addr;
   addr *last_addr = list + n;
   char *last_byte = in + length;
-  addr value = 0;
+  uint64_t value = 0;
   for (current_addr = list; in < last_byte && current_addr < last_addr;
        current_addr++) {
-    addr delta;
+    uint64_t delta;
     in = decode_1(in, &delta);
     value += delta;
     *current_addr = value;
diff --git a/src/post_compressor.h b/src/post_compressor.h
index 719a947..fbdbaa2 100644
--- a/src/post_compressor.h
+++ b/src/post_compressor.h
@@ -39,7 +39,7 @@ private:
   size_t crush_(char *in, size_t length, char *out, size_t available) final;
   size_t tang_(char *in, size_t length, char *out, size_t available) final;
   bool destructive_() final { return false; };
-  addr extra_(addr n) final { return n / sizeof(addr) + 2; };
+  addr extra_(addr n) final { return 2 * (n / sizeof(addr)) + 2; };
 };
 
 } // namespace cottontail
-- 
2.43.0


From 559eaa15b1e925433c121377e562ed24c1a51b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:48 +0000
Subject: [PATCH 25/70] fix: merging posting lists skipped the order check
 across an empty list

---
 src/simple_posting.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/simple_posting.cc b/src/simple_posting.cc
index 6a935ec..19a48d8 100644
--- a/src/simple_posting.cc
+++ b/src/simple_posting.cc
@@ -443,17 +443,19 @@ std::shared_ptr<SimplePosting> SimplePostingFactory::posting_from_merge(
     return merged;
   }
   bool can_append = true;
-  for (size_t i = 1; can_append && i < postings.size(); i++) {
+  std::shared_ptr<SimplePosting> last = nullptr;
+  for (size_t i = 0; can_append && i < postings.size(); i++) {
     assert(postings[i]->feature() == feature);
-    size_t size0 = postings[i - 1]->size();
-    size_t size1 = postings[i]->size();
-    if (size0 > 0 && size1 > 0) {
+    if (postings[i]->size() == 0)
+      continue;
+    if (last != nullptr) {
       addr p0, p1, q0, q1;
       fval v0, v1;
-      postings[i - 1]->get(size0 - 1, &p0, &q0, &v0);
+      last->get(last->size() - 1, &p0, &q0, &v0);
       postings[i]->get(0, &p1, &q1, &v1);
       can_append = (p0 < p1 && q0 < q1);
     }
+    last = postings[i];
   }
   std::shared_ptr<SimplePosting> merged_posting = posting_from_feature(feature);
   if (can_append) {
-- 
2.43.0


From 12bfd1b40013049f6828dcdb7bb84a8928e207df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:55 +0000
Subject: [PATCH 26/70] fix: an append ending inside a tag could be spliced
 with the next append

---
 src/core.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/core.h b/src/core.h
index 39d9e92..0029577 100644
--- a/src/core.h
+++ b/src/core.h
@@ -104,9 +104,10 @@ struct Annotation {
   fval v;
 };
 
-// If an append doesn't end in one of these character we add a newline.
-// Otherwise, we may get a token splice.
-inline bool separator(char c) { return c == ' ' || c == '\t' || c == '\n'; }
+// If an append doesn't end in a separator we add a newline. Otherwise, we may
+// get a token splice. Spaces and tabs are not separators, because they don't end
+// an XML tag or entity.
+inline bool separator(char c) { return c == '\n'; }
 
 } // namespace cottontail
 
-- 
2.43.0


From 74d4257701fcd53c9a61bd033713c4a6940c3661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:55 +0000
Subject: [PATCH 27/70] fix: making a tokenizer from a bad recipe dereferenced
 null

---
 src/tokenizer.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tokenizer.cc b/src/tokenizer.cc
index c0e9b66..b28e220 100644
--- a/src/tokenizer.cc
+++ b/src/tokenizer.cc
@@ -16,10 +16,12 @@ std::shared_ptr<Tokenizer> Tokenizer::make(const std::string &name,
   std::shared_ptr<Tokenizer> tokenizer = nullptr;
   if (name == "" || name == "ascii") {
     tokenizer = AsciiTokenizer::make(recipe, error);
-    tokenizer->name_ = "ascii";
+    if (tokenizer != nullptr)
+      tokenizer->name_ = "ascii";
   } else if (name == "utf8") {
     tokenizer = Utf8Tokenizer::make(recipe, error);
-    tokenizer->name_ = "utf8";
+    if (tokenizer != nullptr)
+      tokenizer->name_ = "utf8";
   } else {
     safe_error(error) = "No Tokenizer named: " + name;
   }
-- 
2.43.0


From f008dbff92a5d40631f79739912c0e9da292309b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:09 +0000
Subject: [PATCH 28/70] fix: a UTF-8 lead byte swallowed following bytes that
 do not continue it

---
 src/utf8_tokenizer.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/utf8_tokenizer.cc b/src/utf8_tokenizer.cc
index a6592d0..9c09398 100644
--- a/src/utf8_tokenizer.cc
+++ b/src/utf8_tokenizer.cc
@@ -189,6 +189,16 @@ bool set_fold_actions(const std::map<uint32_t, uint32_t> &foldings,
   return true;
 }
 
+// True if there are n UTF-8 continuation bytes at s.
+inline bool continued(const uint8_t *s, const uint8_t *e, size_t n) {
+  if ((size_t)(e - s) < n)
+    return false;
+  for (size_t i = 0; i < n; i++)
+    if ((s[i] & 0xC0) != 0x80)
+      return false;
+  return true;
+}
+
 inline const uint8_t *unicode(const uint8_t *s, const uint8_t *e,
                               uint32_t *codepoint) {
   if ((s[0] & 0x80) == 0x00) {
@@ -197,7 +207,7 @@ inline const uint8_t *unicode(const uint8_t *s, const uint8_t *e,
   }
   if ((s[0] & 0xE0) == 0xC0) {
     const uint8_t *t = s + 2;
-    if (t > e) {
+    if (!continued(s + 1, e, 1)) {
       *codepoint = 0x20;
       return s + 1;
     }
@@ -206,7 +216,7 @@ inline const uint8_t *unicode(const uint8_t *s, const uint8_t *e,
   }
   if ((s[0] & 0xF0) == 0XE0) {
     const uint8_t *t = s + 3;
-    if (t > e) {
+    if (!continued(s + 1, e, 2)) {
       *codepoint = 0x20;
       return s + 1;
     }
@@ -216,7 +226,7 @@ inline const uint8_t *unicode(const uint8_t *s, const uint8_t *e,
   }
   if ((*s & 0xF8) == 0XF0) {
     const uint8_t *t = s + 4;
-    if (t > e) {
+    if (!continued(s + 1, e, 3)) {
       *codepoint = 0x20;
       return s + 1;
     }
-- 
2.43.0


From 51ec936f51dd1dadc75a68091ee65d0313c0951d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:32 +0000
Subject: [PATCH 29/70] fix: a clone of a static collection accepted a
 transaction it could not make

---
 src/simple_warren.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/simple_warren.cc b/src/simple_warren.cc
index c34cf8a..c9d552d 100644
--- a/src/simple_warren.cc
+++ b/src/simple_warren.cc
@@ -151,6 +151,10 @@ bool SimpleWarren::get_parameter_(const std::string &key, std::string *value,
 }
 
 bool SimpleWarren::transaction_(std::string *error) {
+  if (appender_->name() == "null") {
+    safe_error(error) = "Clones of a SimpleWarren can't be changed";
+    return false;
+  }
   if (!appender_->transaction(error))
     return false;
   if (!annotator()->transaction(error)) {
-- 
2.43.0


From 05fa801462bb77bf289d6b931e41d6fa16fc22ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:18 +0000
Subject: [PATCH 30/70] fix: a parameter holding a quote, backslash or newline
 made a store impossible to open

Strings in a recipe were written without escapes and read without keeping them
for the next level, and line ends in values became spaces. What can't be
represented at all (keys that aren't identifiers, NUL bytes) is refused.
---
 src/dna.cc    |  9 ++++++++-
 src/recipe.cc | 14 +++++++++++---
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/dna.cc b/src/dna.cc
index 58bbc83..1eac72c 100644
--- a/src/dna.cc
+++ b/src/dna.cc
@@ -30,7 +30,7 @@ bool read_dna(std::shared_ptr<Working> working, std::string *dna,
   }
   *dna = "";
   while (std::getline(in, line))
-    *dna += (line + " ");
+    *dna += (line + "\n");
   return true;
 }
 
@@ -98,6 +98,13 @@ bool set_parameter_in_dna(std::shared_ptr<Working> working,
   parameters[key] = value;
   dna_parameters["parameters"] = freeze(parameters);
   dna = freeze(dna_parameters);
+  std::map<std::string, std::string> check_parameters;
+  if (!cook(dna, &dna_parameters) ||
+      !cook(dna_parameters["parameters"], &check_parameters) ||
+      check_parameters.find(key) == check_parameters.end()) {
+    safe_error(error) = "Can't represent parameter: " + key;
+    return false;
+  }
   if (!write_dna(working, dna, error))
     return false;
   return true;
diff --git a/src/recipe.cc b/src/recipe.cc
index 7373b6f..3ecbdb6 100644
--- a/src/recipe.cc
+++ b/src/recipe.cc
@@ -46,7 +46,8 @@ const char *munch_map(const char *s, std::string *return_value) {
       working_value += quote;
       for (; *s != quote && *s != '\0'; s++) {
         if (*s == '\\') {
-          s++;
+          // the map is cooked again later, so its strings stay escaped
+          working_value += *s++;
           if (*s != '\\' && *s != quote)
             return s;
         }
@@ -134,8 +135,15 @@ void dump(std::ostream *out, std::string value, size_t depth) {
   std::map<std::string, std::string> parameters;
   if (cook(value, &parameters))
     dump(out, parameters, depth);
-  else
-    *out << '"' << value << '"';
+  else {
+    *out << '"';
+    for (auto &c : value) {
+      if (c == '"' || c == '\\')
+        *out << '\\';
+      *out << c;
+    }
+    *out << '"';
+  }
   *out << ',';
 }
 
-- 
2.43.0


From 28c5ecf6b3b91e2bd0679d01656518d436cbdf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:18 +0000
Subject: [PATCH 31/70] fix: malformed options were used after being reported

---
 src/recipe.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/recipe.cc b/src/recipe.cc
index 3ecbdb6..4840626 100644
--- a/src/recipe.cc
+++ b/src/recipe.cc
@@ -249,6 +249,7 @@ bool interpret_option(std::string *recipe, const std::string &option,
       std::sregex_token_iterator(option.begin(), option.end(), sep, -1), {}};
   if (pieces.size() < 2 || pieces.size() > 3) {
     safe_error(error) = "Malformed option: " + option;
+    return false;
   }
   std::map<std::string, std::string>::iterator item =
       parameters.find(pieces[0]);
@@ -269,7 +270,7 @@ bool interpret_option(std::string *recipe, const std::string &option,
   } else {
     std::map<std::string, std::string>::iterator item_recipe =
         item_parameters.find("recipe");
-    if (item_recipe == parameters.end()) {
+    if (item_recipe == item_parameters.end()) {
       safe_error(error) = "Option parameters not found for: " + pieces[0];
       return false;
     }
@@ -309,6 +310,7 @@ bool extract_option(const std::string &recipe, const std::string &option,
       std::sregex_token_iterator(option.begin(), option.end(), sep, -1), {}};
   if (pieces.size() < 1 || pieces.size() > 3) {
     safe_error(error) = "Malformed option: " + option;
+    return false;
   }
   std::map<std::string, std::string>::iterator item =
       parameters.find(pieces[0]);
@@ -323,13 +325,13 @@ bool extract_option(const std::string &recipe, const std::string &option,
   }
   std::map<std::string, std::string>::iterator item_name =
       item_parameters.find("name");
-  if (item_name == parameters.end()) {
+  if (item_name == item_parameters.end()) {
     safe_error(error) = "Option setting not found for: " + pieces[0];
     return false;
   }
   std::map<std::string, std::string>::iterator item_recipe =
       item_parameters.find("recipe");
-  if (item_recipe == parameters.end()) {
+  if (item_recipe == item_parameters.end()) {
     safe_error(error) = "Option parameters not found for: " + pieces[0];
     return false;
   }
@@ -345,6 +347,10 @@ bool extract_option(const std::string &recipe, const std::string &option,
     }
     std::map<std::string, std::string>::iterator item_recipe_item =
         item_recipe_parameters.find(pieces[1]);
+    if (item_recipe_item == item_recipe_parameters.end()) {
+      safe_error(error) = "No option: " + pieces[0] + ":" + pieces[1];
+      return false;
+    }
     *value = item_recipe_item->second;
   }
   return true;
-- 
2.43.0


From 217221e8f2883d1ded8e178314b36006c91a4b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:19 +0000
Subject: [PATCH 32/70] fix: some features translated to names that featurize
 to something else

Names with an embedded NUL were cut short and names like #12 read as literals.
---
 src/hashing_featurizer.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hashing_featurizer.cc b/src/hashing_featurizer.cc
index 75732c6..fdb2130 100644
--- a/src/hashing_featurizer.cc
+++ b/src/hashing_featurizer.cc
@@ -147,7 +147,8 @@ std::string HashingFeaturizer::translate_(addr feature) {
     addr a;
   } u;
   u.a = feature;
-  if (u.s[sizeof(addr) - 1] != '\0')
+  // features with embedded NULs, or that look like a literal, aren't spelled out
+  if (u.s[sizeof(addr) - 1] != '\0' || featurize(u.s) != feature)
     return "#" + std::to_string(u.a);
   else
     return std::string(u.s);
-- 
2.43.0


From eb948886fcff3cf70aa349e54e5329d6d3be99e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:35 +0000
Subject: [PATCH 33/70] fix: a parameter with an empty line in it made large
 shards impossible to open

---
 src/recipe.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/recipe.cc b/src/recipe.cc
index 4840626..d0e6787 100644
--- a/src/recipe.cc
+++ b/src/recipe.cc
@@ -20,6 +20,10 @@ const char *munch_string(const char *s, char quote, std::string *return_value) {
   for (; *s != quote && *s != '\0'; s++) {
     if (*s == '\\') {
       s++;
+      if (*s == 'n') {
+        working_value += '\n';
+        continue;
+      }
       if (*s != '\\' && *s != quote)
         return s;
     }
@@ -48,7 +52,7 @@ const char *munch_map(const char *s, std::string *return_value) {
         if (*s == '\\') {
           // the map is cooked again later, so its strings stay escaped
           working_value += *s++;
-          if (*s != '\\' && *s != quote)
+          if (*s != '\\' && *s != quote && *s != 'n')
             return s;
         }
         working_value += *s;
@@ -140,7 +144,10 @@ void dump(std::ostream *out, std::string value, size_t depth) {
     for (auto &c : value) {
       if (c == '"' || c == '\\')
         *out << '\\';
-      *out << c;
+      if (c == '\n')
+        *out << "\\n"; // recipes are stored by lines, some ended by an empty one
+      else
+        *out << c;
     }
     *out << '"';
   }
-- 
2.43.0


From 5f8105fcbfcfb094cf1f96eced64bd73ede0eb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:51 +0000
Subject: [PATCH 34/70] fix: the recipe of a dynamic store without parameters
 dereferenced null

---
 src/bigwig.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bigwig.cc b/src/bigwig.cc
index 10520f9..3aeaee9 100644
--- a/src/bigwig.cc
+++ b/src/bigwig.cc
@@ -1469,7 +1469,9 @@ std::string Bigwig::recipe_() {
     warren_parameters["idx"] = freeze(idx_parameters);
   }
   fluffle_->lock.lock();
-  std::map<std::string, std::string> extra_parameters = *(fluffle_->parameters);
+  std::map<std::string, std::string> extra_parameters;
+  if (fluffle_->parameters != nullptr)
+    extra_parameters = *(fluffle_->parameters);
   fluffle_->lock.unlock();
   warren_parameters["parameters"] = freeze(extra_parameters);
   return freeze(warren_parameters);
-- 
2.43.0


From e8ea57fd10c8521c9f9007dc0a818e7d93cad2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:16 +0000
Subject: [PATCH 35/70] fix: letters next to Unicode's noncharacters were lost
 from JSON

U+FDF0 to U+FDFF were taken for the tokens that mark JSON structure: replaced
when reading and never indexed.
---
 src/json.cc | 4 ++--
 src/json.h  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/json.cc b/src/json.cc
index 63242b5..667568e 100644
--- a/src/json.cc
+++ b/src/json.cc
@@ -137,7 +137,7 @@ bool contains_utf8_noncharacters(const std::string &s) {
         state = 2;
       else
         state = 0;
-    } else if (*c >= '\x90' || *c <= '\xAF') {
+    } else if (*c >= '\x90' && *c <= '\xAF') {
       return true;
     } else {
       state = 0;
@@ -147,7 +147,7 @@ bool contains_utf8_noncharacters(const std::string &s) {
 
 inline bool noncharacter_next(const char *c) {
   return c[0] && c[0] == '\xEF' && c[1] && c[1] == '\xB7' && c[2] &&
-         (c[2] >= '\x90' || c[2] >= '\xAF');
+         c[2] >= '\x90' && c[2] <= '\xAF';
 }
 
 std::string sanitize(const std::string &s) {
diff --git a/src/json.h b/src/json.h
index c9ad2f0..d52a5dd 100644
--- a/src/json.h
+++ b/src/json.h
@@ -21,7 +21,7 @@ const std::string open_number_token = "\xEF\xB7\x98";
 const std::string close_number_token = "\xEF\xB7\x99";
 inline bool json_internal_token(const char *token, addr length) {
   return length == 3 && token[0] == '\xEF' && token[1] == '\xB7' &&
-         (token[2] >= '\x90' || token[2] >= '\x99');
+         token[2] >= '\x90' && token[2] <= '\x99';
 }
 
 bool json_scribe(const std::string &s, std::shared_ptr<Scribe> scribe,
-- 
2.43.0


From f695ae05e83ff66936997e07b02102b582108c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:32 +0000
Subject: [PATCH 36/70] fix: an escaped noncharacter in JSON was stored as a
 token that marks structure

---
 src/json.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/json.cc b/src/json.cc
index 667568e..3d63268 100644
--- a/src/json.cc
+++ b/src/json.cc
@@ -15,6 +15,7 @@ namespace cottontail {
 namespace {
 bool do_json(json &j, std::shared_ptr<Scribe> scribe, const std::string &path,
              addr *p, addr *q, std::string *error);
+std::string sanitize(const std::string &s);
 
 bool do_null(json &j, std::shared_ptr<Scribe> scribe, const std::string &path,
              addr *p, addr *q, std::string *error) {
@@ -52,7 +53,7 @@ bool do_number(json &j, std::shared_ptr<Scribe> scribe, const std::string &path,
 
 bool do_string(json &j, std::shared_ptr<Scribe> scribe, const std::string &path,
                addr *p, addr *q, std::string *error) {
-  std::string s = open_string_token + (std::string)j + close_string_token;
+  std::string s = open_string_token + sanitize(j) + close_string_token;
   if (!scribe->appender()->append(s, p, q, error))
     return false;
   return scribe->annotator()->annotate(scribe->featurizer()->featurize(path),
@@ -91,14 +92,15 @@ bool do_object(json &j, std::shared_ptr<Scribe> scribe, const std::string &path,
       if (!scribe->appender()->append(comma_token, &p0, &q0, error))
         return false;
     }
+    std::string name = sanitize(it.key());
     std::string key =
-        open_string_token + it.key() + close_string_token + colon_token;
+        open_string_token + name + close_string_token + colon_token;
     if (!scribe->appender()->append(key, &p0, &q0, error))
       return false;
-    if (!do_json(it.value(), scribe, path + it.key() + ":", &p0, &q0, error))
+    if (!do_json(it.value(), scribe, path + name + ":", &p0, &q0, error))
       return false;
     if (!scribe->annotator()->annotate(
-            scribe->featurizer()->featurize(it.key() + ":"), p0, q0, 0.0,
+            scribe->featurizer()->featurize(name + ":"), p0, q0, 0.0,
             error))
       return false;
   }
@@ -152,7 +154,8 @@ inline bool noncharacter_next(const char *c) {
 
 std::string sanitize(const std::string &s) {
   std::string t;
-  for (const char *c = s.c_str(); *c; c++)
+  const char *end = s.c_str() + s.size();
+  for (const char *c = s.c_str(); c < end; c++)
     if (noncharacter_next(c)) {
       t += '\xEF'; // Unicode replacement character
       t += '\xBF';
-- 
2.43.0


From c32a0c380f2257046ab4094b672d3188c251ff08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:04 +0000
Subject: [PATCH 37/70] fix: control characters in strings made translated JSON
 invalid, and NUL ended it

---
 src/json.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/json.cc b/src/json.cc
index 3d63268..9628e8a 100644
--- a/src/json.cc
+++ b/src/json.cc
@@ -208,7 +208,8 @@ std::string json_translate(const std::string &s) {
   bool inside = false;
   bool pending_space = false;
   std::string t;
-  for (const char *c = s.c_str(); *c; c++) {
+  const char *end = s.c_str() + s.size();
+  for (const char *c = s.c_str(); c < end; c++) {
     if (*c != ' ' && *c != '\n' && pending_space) {
       pending_space = false;
       t += ' ';
@@ -249,6 +250,9 @@ std::string json_translate(const std::string &s) {
         t += "\\\"";
       else if (*c == '\\')
         t += "\\\\";
+      else if (*c >= '\0' && *c < ' ')
+        t += std::string("\\u00") + (*c < 16 ? '0' : '1') +
+             "0123456789abcdef"[*c % 16];
       else
         t += *c;
     } else {
-- 
2.43.0


From 5b6cbd8e38cf33d0153b41724e616fea91cf8cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:19 +0000
Subject: [PATCH 38/70] fix: a number too large for JSON ended the process
 instead of being refused

---
 src/json.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/json.cc b/src/json.cc
index 9628e8a..1ebfa72 100644
--- a/src/json.cc
+++ b/src/json.cc
@@ -177,7 +177,7 @@ bool json_scribe(const std::string &s, std::shared_ptr<Scribe> scribe, addr *p,
       j = json::parse(sanitize(s));
     else
       j = json::parse(s);
-  } catch (json::parse_error &e) {
+  } catch (json::exception &e) {
     safe_error(error) = "Cannot parse json: " + std::string(e.what());
     return false;
   }
-- 
2.43.0


From b914e62c2d094065d8d05aa8fba55c7a52029b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:19 +0000
Subject: [PATCH 39/70] fix: the last line of a JSON lines file was lost if not
 ended, and files that can't be read left a transaction open

---
 src/scribe.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/scribe.cc b/src/scribe.cc
index ae8ebf6..e7a0bb0 100644
--- a/src/scribe.cc
+++ b/src/scribe.cc
@@ -292,6 +292,9 @@ bool scribe_files(const std::vector<std::string> &filenames,
         return false;
       }
       scribe->commit();
+    } else {
+      scribe->abort();
+      return false;
     }
   }
   if (verbose)
@@ -313,6 +316,7 @@ bool scribe_jsonl(const std::vector<std::string> &filenames,
                   bool verbose) {
   if (scribe == nullptr) {
     safe_error(error) = "Function scribe_jsonl passed null scribe";
+    return false;
   }
   for (auto &filename : filenames) {
     if (verbose)
@@ -330,13 +334,15 @@ bool scribe_jsonl(const std::vector<std::string> &filenames,
     std::string::size_type pos;
     std::string::size_type prev;
     std::string newline = "\n";
-    for (prev = 0; (pos = everything->find(newline, prev)) != std::string::npos;
-         prev = pos + 1) {
+    for (prev = 0; prev < everything->size(); prev = pos + 1) {
       addr p0, q0;
+      if ((pos = everything->find(newline, prev)) == std::string::npos)
+        pos = everything->size(); // the last line may not be ended
       if (!json_scribe(everything->substr(prev, pos - prev), scribe, &p0,
                        &q0)) {
         safe_error(error) = "Cannot scribe json line: " + filename + ":" +
                             std::to_string(number);
+        scribe->abort();
         return false;
       }
       p = std::min(p, p0);
-- 
2.43.0


From 11abed3d632b5b180fd0c954a583b07414b36259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:37 +0000
Subject: [PATCH 40/70] fix: building from a file that can't be read
 dereferenced null

---
 src/builder.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/builder.cc b/src/builder.cc
index 859cc16..7c30f1e 100644
--- a/src/builder.cc
+++ b/src/builder.cc
@@ -158,6 +158,8 @@ bool build_trec(const std::vector<std::string> &text,
     if (builder->verbose())
       std::cout << "Builder inhaling: " << filename << "\n";
     std::shared_ptr<std::string> contents = inhale(filename, error);
+    if (contents == nullptr)
+      return false;
     addr p, q;
     if (!builder->add_text(*contents, &p, &q, error))
       return false;
-- 
2.43.0


From c4ad58362b8cbc72c81ff6ee4f699071be514414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:37 +0000
Subject: [PATCH 41/70] fix: annotations were lost from a static store whose
 text has no indexed tokens

---
 src/simple_builder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simple_builder.cc b/src/simple_builder.cc
index 5d0d38d..0b12dc6 100644
--- a/src/simple_builder.cc
+++ b/src/simple_builder.cc
@@ -490,7 +490,7 @@ bool SimpleBuilder::build_index(std::string *error) {
     safe_error(error) = "SimpleBuilder can't open: " + pst_filename_;
     return false;
   }
-  if (tokq_.empty())
+  if (tokq_.empty() && annq_.empty())
     return true; // empty index
   std::vector<std::fstream> posting_fstreams;
   std::vector<std::shared_ptr<SimplePosting>> posting_nexts;
-- 
2.43.0


From 67e17325f2916ce932837dc6514cd3d6c653528b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:19 +0000
Subject: [PATCH 42/70] fix: give each thread its own place for unwanted errors

---
 src/core.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core.h b/src/core.h
index 0029577..0188048 100644
--- a/src/core.h
+++ b/src/core.h
@@ -37,7 +37,7 @@ inline fval addr2fval(addr a) {
 }
 
 template <typename T> T &safe_set(T *thing) {
-  static T never_used;
+  static thread_local T never_used;
   if (thing == nullptr)
     return never_used;
   else
-- 
2.43.0


From 70986883f379b4af014a42cef1a17dcf9fea04c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:19 +0000
Subject: [PATCH 43/70] fix: do not divide judgements by a largest grade of
 zero

---
 src/eval.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eval.cc b/src/eval.cc
index 4cf7770..fcce94a 100644
--- a/src/eval.cc
+++ b/src/eval.cc
@@ -129,7 +129,7 @@ bool load_trec_qrels(std::shared_ptr<Warren> warren,
       if (microsoft_interpretation_of_grades)
         (*qrels)[topic.first][docno.first] =
             (std::pow(2.0, docno.second) - 1.0) / std::pow(2.0, max_level);
-      else
+      else if (max_level > 0.0)
         (*qrels)[topic.first][docno.first] /= max_level;
   return true;
 }
-- 
2.43.0


From e94c56f22c5f84d0f83ba86fb18a8b2894a62418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:19 +0000
Subject: [PATCH 44/70] fix: report the reciprocal rank, not average precision,
 as rr

---
 src/eval.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eval.cc b/src/eval.cc
index fcce94a..c97e3d6 100644
--- a/src/eval.cc
+++ b/src/eval.cc
@@ -179,7 +179,7 @@ void trec_eval(const std::map<addr, fval> &qrels,
     ap /= rels_possible;
   }
   (*metrics)["ap"] = ap;
-  (*metrics)["rr"] = ap;
+  (*metrics)["rr"] = rr;
   (*metrics)["p05"] = p05;
   (*metrics)["p10"] = p10;
   (*metrics)["p20"] = p20;
-- 
2.43.0


From 53c2365525bedd35c4be2857885867e744a36cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:19 +0000
Subject: [PATCH 45/70] fix: do not erase metrics while walking over them

---
 src/eval.cc | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/eval.cc b/src/eval.cc
index c97e3d6..10b8409 100644
--- a/src/eval.cc
+++ b/src/eval.cc
@@ -392,34 +392,40 @@ void med(const std::vector<RankingResult> &one,
                            med_fake_ideal_dcg(std::max(one.size(), two.size()));
 }
 
+namespace {
+// Only metrics that every run has can have a mean.
+void drop_missing(const std::map<std::string, fval> &metrics,
+                  std::map<std::string, fval> *mean_metrics) {
+  for (auto metric = mean_metrics->begin(); metric != mean_metrics->end();)
+    if (metric->first != "n" && metrics.find(metric->first) == metrics.end())
+      metric = mean_metrics->erase(metric);
+    else
+      ++metric;
+}
+} // namespace
+
 void mean(const std::map<std::string, fval> &metrics,
           std::map<std::string, fval> *mean_metrics) {
   if ((*mean_metrics).size() == 0) {
     (*mean_metrics) = metrics;
     (*mean_metrics)["n"] = 1.0;
   } else if ((*mean_metrics).find("n") == (*mean_metrics).end()) {
+    drop_missing(metrics, mean_metrics);
     for (auto &&metric : (*mean_metrics))
       if (metric.first != "n") {
-        if (metrics.find(metric.first) == metrics.end()) {
-          (*mean_metrics).erase(metric.first);
-        } else {
-          (*mean_metrics)[metric.first] += metrics.at(metric.first);
-          (*mean_metrics)[metric.first] /= 2.0;
-        }
+        metric.second += metrics.at(metric.first);
+        metric.second /= 2.0;
       }
     (*mean_metrics)["n"] = 2.0;
   } else {
     fval n = (*mean_metrics)["n"];
     assert(n > 0.0);
+    drop_missing(metrics, mean_metrics);
     for (auto &&metric : (*mean_metrics))
       if (metric.first != "n") {
-        if (metrics.find(metric.first) == metrics.end()) {
-          (*mean_metrics).erase(metric.first);
-        } else {
-          (*mean_metrics)[metric.first] *= n;
-          (*mean_metrics)[metric.first] += metrics.at(metric.first);
-          (*mean_metrics)[metric.first] /= (n + 1.0);
-        }
+        metric.second *= n;
+        metric.second += metrics.at(metric.first);
+        metric.second /= (n + 1.0);
       }
     (*mean_metrics)["n"]++;
   }
-- 
2.43.0


From 5095c3e9dacf1b26c35ac908f97b6da5b96b6396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:19 +0000
Subject: [PATCH 46/70] fix: field statistics without weights fall back on df,
 and odd weights are refused

---
 src/field_stats.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/field_stats.cc b/src/field_stats.cc
index fb8fbf0..fe5743a 100644
--- a/src/field_stats.cc
+++ b/src/field_stats.cc
@@ -43,7 +43,7 @@ std::shared_ptr<Stats> FieldStats::make(const std::string &recipe,
       std::sregex_token_iterator(weights_parameter.begin(),
                                  weights_parameter.end(), tab, -1),
       {}};
-  if (weight_strings.size() == 0)
+  if (weights_parameter == "")
     return Stats::make("df", recipe, warren, error);
   if (weight_strings.size() != field_queries.size()) {
     safe_error(error) = "Warren fields and weights have inconsistent lengths";
@@ -64,7 +64,7 @@ std::shared_ptr<Stats> FieldStats::make(const std::string &recipe,
         stats->weights_.push_back(w);
         stats->tf_featurizers_.push_back(featurizer);
       }
-    } catch (const std::invalid_argument &e) {
+    } catch (const std::logic_error &e) {
       safe_error(error) = "Non-numberic field weight";
       return nullptr;
     }
-- 
2.43.0


From 4ea34ef1324b206a4595c49a0349c730f9726af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:19 +0000
Subject: [PATCH 47/70] fix: idf statistics believe the recorded parameters

---
 src/idf_stats.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/idf_stats.cc b/src/idf_stats.cc
index dad3e32..a5f749f 100644
--- a/src/idf_stats.cc
+++ b/src/idf_stats.cc
@@ -47,13 +47,13 @@ std::shared_ptr<Stats> IdfStats::make(const std::string &recipe,
     return nullptr;
   std::string value;
   std::string unstemmed = "unstemmed";
-  if (!warren->get_parameter(unstemmed, &value, error))
+  if (warren->get_parameter(unstemmed, &value) && value != "")
     stats->have_unstemmed_ = okay(value);
   std::string idf = "idf";
-  if (!warren->get_parameter(idf, &value, error))
+  if (warren->get_parameter(idf, &value) && value != "")
     stats->have_idf_ = okay(value);
   std::string rsj = "rsj";
-  if (!warren->get_parameter(rsj, &value, error))
+  if (warren->get_parameter(rsj, &value) && value != "")
     stats->have_rsj_ = okay(value);
   return stats;
 }
-- 
2.43.0


From 99d28540313b1d2952c55747ef5575c9ab2de985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:19 +0000
Subject: [PATCH 48/70] fix: default depth for rankings by products of
 statistics

---
 src/parameters.h | 2 +-
 src/ranking.cc   | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/parameters.h b/src/parameters.h
index eeb1fed..5c29e87 100644
--- a/src/parameters.h
+++ b/src/parameters.h
@@ -105,12 +105,12 @@ public:
 
   static std::shared_ptr<Parameters>
   from_ranker_name(const std::string &ranker_name);
+  static fval default_depth();
 
 protected:
   Parameters() = default;
 
 private:
-  fval default_depth();
   virtual std::map<std::string, fval> random_() = 0;
   virtual std::map<std::string, fval> defaults_() = 0;
 };
diff --git a/src/ranking.cc b/src/ranking.cc
index 4f49cb1..87134c9 100644
--- a/src/ranking.cc
+++ b/src/ranking.cc
@@ -34,8 +34,12 @@ fval ranking_parameter(std::string ranker_name, std::string parameter_name,
     return parameters.at(full_parameter_name);
   if (parameters.find(parameter_name) != parameters.end())
     return parameters.at(parameter_name);
-  std::map<std::string, fval> defaults =
-      Parameters::from_ranker_name(ranker_name)->defaults();
+  std::shared_ptr<Parameters> known = Parameters::from_ranker_name(ranker_name);
+  std::map<std::string, fval> defaults;
+  if (known != nullptr)
+    defaults = known->defaults();
+  else
+    defaults["depth"] = Parameters::default_depth();
   if (defaults.find(full_parameter_name) != defaults.end())
     return defaults[full_parameter_name];
   assert(defaults.find(parameter_name) != defaults.end());
-- 
2.43.0


From 647150f2ef5e3ecfff6bb11f0f19aad36ca391fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:19 +0000
Subject: [PATCH 49/70] fix: statistics find their tokenizer without assertions
 too

---
 src/stats.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stats.cc b/src/stats.cc
index de821a1..5f1cb21 100644
--- a/src/stats.cc
+++ b/src/stats.cc
@@ -78,7 +78,8 @@ std::shared_ptr<Stats> Stats::make(const std::string &name,
       ((stats->stemmer_ = Stemmer::make("", "", error)) == nullptr))
     return nullptr;
   if (stats->tokenizer_ == nullptr)
-    assert((stats->tokenizer_ = warren->tokenizer()) != nullptr);
+    stats->tokenizer_ = warren->tokenizer();
+  assert(stats->tokenizer_ != nullptr);
   stats->name_ = name;
   return stats;
 }
-- 
2.43.0


From e6b03e72073a3274f9357cc438f7d8a10cd8461d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:19 +0000
Subject: [PATCH 50/70] fix: term frequencies of every item, over gaps in the
 address space

---
 src/ranking.cc | 64 ++++++++++++++++++++++++--------------------------
 1 file changed, 31 insertions(+), 33 deletions(-)

diff --git a/src/ranking.cc b/src/ranking.cc
index 87134c9..ca21c0e 100644
--- a/src/ranking.cc
+++ b/src/ranking.cc
@@ -761,19 +761,23 @@ std::vector<std::string> kld_prf(std::shared_ptr<Warren> warren,
   return expansion_terms;
 }
 
+namespace {
+// Tokens of one item out of those in a range of items. When the range has gaps
+// in its address space, positions in the range don't correspond to addresses.
+std::vector<std::string> item_tokens(std::shared_ptr<Warren> warren, addr p,
+                                     addr q, addr start, addr end,
+                                     const std::vector<std::string> &tokens) {
+  if (tokens.size() == static_cast<size_t>(end - start + 1))
+    return std::vector<std::string>(tokens.begin() + (p - start),
+                                    tokens.begin() + (q - start + 1));
+  return warren->tokenizer()->split(warren->txt()->translate(p, q));
+}
+} // namespace
+
 // Generate term frequency annotations over a range.
 bool tf_annotations(std::shared_ptr<Warren> warren, std::string *error,
                     addr start, addr end) {
-  std::string content_key = "container";
-  std::string content_query = "";
-  if (!warren->get_parameter(content_key, &content_query, error))
-    content_query = warren->default_container();
-  if (content_query == "") {
-    safe_error(error) =
-        "tf_annotations can't find a definition for item content";
-  }
-  std::unique_ptr<cottontail::Hopper> hopper =
-      warren->hopper_from_gcl(content_query, error);
+  std::unique_ptr<cottontail::Hopper> hopper = content_hopper(warren, error);
   if (hopper == nullptr)
     return false;
   std::shared_ptr<Featurizer> tf_featurizer =
@@ -790,25 +794,28 @@ bool tf_annotations(std::shared_ptr<Warren> warren, std::string *error,
   addr HUGE = 1014 * 1024;
   std::vector<addr> ps, qs;
   addr p = start, q, total_items = 0, total_length = 0;
-  if (p == minfinity)
-    p += 1;
-  for (hopper->tau(p, &p, &q); q <= end && q < maxfinity;
-       hopper->tau(p + 1, &p, &q)) {
-    if (q <= end && q < maxfinity) {
+  if (p > minfinity)
+    p -= 1;
+  for (bool more = true; more;) {
+    hopper->tau(p + 1, &p, &q);
+    more = (q <= end && q < maxfinity);
+    if (more) {
+      if (start == minfinity)
+        start = p;
       total_items++;
       total_length += q - p + 1;
       ps.push_back(p);
       qs.push_back(q);
     }
-    if (ps.size() > 0 &&
-        (q == maxfinity || q >= end || qs.back() - ps.front() > HUGE)) {
+    if (ps.size() > 0 && (!more || qs.back() - ps.front() > HUGE)) {
       std::string text = warren->txt()->translate(ps.front(), qs.back());
       std::vector<std::string> tokens = warren->tokenizer()->split(text);
       for (size_t i = 0; i < ps.size(); i++) {
         std::map<addr, addr> tf;
-        for (addr j = ps[i]; j <= qs[i]; j++) {
-          addr feature = tf_featurizer->featurize(
-              warren->stemmer()->stem(tokens[j - ps[0]]));
+        for (auto &&token :
+             item_tokens(warren, ps[i], qs[i], ps.front(), qs.back(), tokens)) {
+          addr feature =
+              tf_featurizer->featurize(warren->stemmer()->stem(token));
           auto it = tf.find(feature);
           if (it == tf.end())
             tf[feature] = 1;
@@ -857,17 +864,7 @@ bool tf_annotations(std::shared_ptr<Warren> warren, std::string *error,
 // Generate term frequency and document frequency annotations.
 // Should be an improvement over tf_idf_annotations
 bool tf_df_annotations(std::shared_ptr<Warren> warren, std::string *error) {
-  std::string content_key = "container";
-  std::string content_query = "";
-  if (!warren->get_parameter(content_key, &content_query, error))
-    content_query = warren->default_container();
-  if (content_query == "") {
-    safe_error(error) =
-        "tf_df_annotations can't find a definition for item content";
-    return false;
-  }
-  std::unique_ptr<cottontail::Hopper> hopper =
-      warren->hopper_from_gcl(content_query, error);
+  std::unique_ptr<cottontail::Hopper> hopper = content_hopper(warren, error);
   if (hopper == nullptr)
     return false;
   std::shared_ptr<Featurizer> df_featurizer =
@@ -901,8 +898,9 @@ bool tf_df_annotations(std::shared_ptr<Warren> warren, std::string *error) {
       std::vector<std::string> tokens = warren->tokenizer()->split(text);
       for (size_t i = 0; i < ps.size(); i++) {
         std::map<std::string, addr> tf;
-        for (addr j = ps[i]; j <= qs[i]; j++) {
-          std::string stem = warren->stemmer()->stem(tokens[j - ps[0]]);
+        for (auto &&token :
+             item_tokens(warren, ps[i], qs[i], ps.front(), qs.back(), tokens)) {
+          std::string stem = warren->stemmer()->stem(token);
           auto it = tf.find(stem);
           if (it == tf.end())
             tf[stem] = 1;
-- 
2.43.0


From 0b385cf3f0db7c3eed5ce25f5572e99b696d597a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:19 +0000
Subject: [PATCH 51/70] fix: idf statistics of a store without a working
 directory

---
 src/ranking.cc | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/ranking.cc b/src/ranking.cc
index ca21c0e..d67a6a1 100644
--- a/src/ranking.cc
+++ b/src/ranking.cc
@@ -968,8 +968,20 @@ bool tf_idf_annotations(std::shared_ptr<Warren> warren, std::string *error,
     return true; // weird, but whatever
   if (!warren->transaction(error))
     return false;
-  std::string working_filename = warren->working()->make_temp("idf");
-  std::ofstream anf(working_filename, std::ios::binary);
+  std::string working_filename;
+  std::ofstream anf;
+  if (warren->working() != nullptr) {
+    working_filename = warren->working()->make_temp("idf");
+    anf.open(working_filename, std::ios::binary);
+  }
+  bool wrote = true;
+  auto write = [&](const Annotation &a) {
+    if (warren->working() != nullptr)
+      anf.write(reinterpret_cast<const char *>(&a), sizeof(a));
+    else
+      wrote = wrote && warren->annotator()->annotate(a.feature, a.p, a.q, a.v,
+                                                     error);
+  };
   if (anf.fail()) {
     warren->abort();
     safe_error(error) =
@@ -1032,7 +1044,7 @@ bool tf_idf_annotations(std::shared_ptr<Warren> warren, std::string *error,
       a.p = p;
       a.q = q;
       a.v = 1.0 * token.second;
-      anf.write(reinterpret_cast<char *>(&a), sizeof(a));
+      write(a);
     }
   }
   std::shared_ptr<Featurizer> idf_featurizer =
@@ -1057,14 +1069,14 @@ bool tf_idf_annotations(std::shared_ptr<Warren> warren, std::string *error,
   a.p = a.q = 0; // arbitrarily location for global statistics
   a.feature = avgl_featurizer->featurize("avgl");
   a.v = 1.0 * total_length / N;
-  anf.write(reinterpret_cast<char *>(&a), sizeof(a));
+  write(a);
   for (auto &token : df) {
     if (include_idf) {
       // inverse document frequency
       fval idf_weight = std::log((1.0 * N) / token.second);
       a.feature = idf_featurizer->featurize(token.first);
       a.v = idf_weight;
-      anf.write(reinterpret_cast<char *>(&a), sizeof(a));
+      write(a);
     }
     if (include_rsj) {
       // Robertson Sp{\"a}rck Jones weight
@@ -1073,16 +1085,19 @@ bool tf_idf_annotations(std::shared_ptr<Warren> warren, std::string *error,
       if (rsj_weight > 0.0) {
         a.feature = rsj_featurizer->featurize(token.first);
         a.v = rsj_weight;
-        anf.write(reinterpret_cast<char *>(&a), sizeof(a));
+        write(a);
       }
     }
   }
-  anf.close();
-  if (!warren->annotator()->annotate(working_filename, error)) {
+  if (warren->working() != nullptr) {
+    anf.close();
+    wrote = warren->annotator()->annotate(working_filename, error);
+    std::remove(working_filename.c_str());
+  }
+  if (!wrote) {
     warren->abort();
     return false;
   }
-  std::remove(working_filename.c_str());
   if (!warren->ready()) {
     warren->abort();
     safe_error(error) = "tf_idf_annotations can't commit changes";
-- 
2.43.0


From 7ac6b68b75887e6c95e4c6316111221e4794ea13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:19 +0000
Subject: [PATCH 52/70] fix: abort when a field length cannot be annotated

---
 src/ranking.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ranking.cc b/src/ranking.cc
index d67a6a1..dadee5d 100644
--- a/src/ranking.cc
+++ b/src/ranking.cc
@@ -1753,8 +1753,10 @@ bool tf_field_annotations(std::shared_ptr<Warren> warren, std::string *error) {
       else
         it->second++;
     }
-    if (!warren->annotator()->annotate(length_feature, p, p, length, error))
+    if (!warren->annotator()->annotate(length_feature, p, p, length, error)) {
+      warren->abort();
       return false;
+    }
     total_length += length;
   }
   if (total_items == 0) {
-- 
2.43.0


From b4b5d922ed18c2382a126ce578dbde6445cd32aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:32 +0000
Subject: [PATCH 53/70] fix: opening a meadow that is not there dereferenced
 null

---
 meadowlark/meadowlark.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/meadowlark/meadowlark.cc b/meadowlark/meadowlark.cc
index 01e60fa..c2a87b4 100644
--- a/meadowlark/meadowlark.cc
+++ b/meadowlark/meadowlark.cc
@@ -52,6 +52,8 @@ std::shared_ptr<Warren> create_meadow(std::string *error) {
 std::shared_ptr<Warren> open_meadow(const std::string &meadow,
                                     std::string *error) {
   std::shared_ptr<Warren> warren = Warren::make(meadow, error);
+  if (warren == nullptr)
+    return nullptr;
   warren->start();
   if (is_meadow(warren, error)) {
     warren->end();
-- 
2.43.0


From 016aa3fe3d244fe195c8742ca5fc96b0be40ab28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:32 +0000
Subject: [PATCH 54/70] fix: a file whose name starts with the name of another
 and a space counted as loaded

---
 meadowlark/meadowlark.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/meadowlark/meadowlark.cc b/meadowlark/meadowlark.cc
index c2a87b4..d8a60a9 100644
--- a/meadowlark/meadowlark.cc
+++ b/meadowlark/meadowlark.cc
@@ -90,7 +90,8 @@ std::string gcl_string(const std::string &s) {
 bool path_match(const std::string &text, const std::string &path) {
   size_t start = 0;
   while (start < text.size() &&
-         std::isspace(static_cast<unsigned char>(text[start])))
+         std::isspace(static_cast<unsigned char>(text[start])) &&
+         text.compare(start, path.size(), path) != 0)
     start++;
   if (text.compare(start, path.size(), path) != 0)
     return false;
@@ -166,10 +167,11 @@ bool already_appended(std::shared_ptr<Warren> warren,
       warren->hopper_from_gcl("(>> / " + gcl_string(path) + ")", error);
   if (hopper == nullptr)
     return false;
-  addr p, q;
+  addr p, q, n = warren->tokenizer()->split(path).size();
   for (hopper->tau(minfinity + 1, &p, &q); p < maxfinity;
        hopper->tau(p + 1, &p, &q)) {
-    if (path_match(warren->txt()->translate(p, q), path)) {
+    if (q - p + 1 == n &&
+        path_match(warren->txt()->translate(p, q), path)) {
       *appended = true;
       return true;
     }
-- 
2.43.0


From 57af43a6943719c0f3844229c1aa88ff9ac95bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:32 +0000
Subject: [PATCH 55/70] fix: a file of records is recorded as loaded only
 together with its records

---
 meadowlark/meadowlark.cc | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/meadowlark/meadowlark.cc b/meadowlark/meadowlark.cc
index d8a60a9..b79850b 100644
--- a/meadowlark/meadowlark.cc
+++ b/meadowlark/meadowlark.cc
@@ -314,9 +314,10 @@ bool append_tsv(std::shared_ptr<Warren> warren, const std::string &filename,
   addr path_feature;
   if (!append_path_warren(warren, filename, &path_feature, error))
     return false;
-  warren->commit();
-  if (lines.size() == 0)
+  if (lines.size() == 0) {
+    warren->commit();
     return true;
+  }
   threads = thread_count(threads, lines.size());
   std::string wsep = separator;
   if (wsep == "")
@@ -329,6 +330,7 @@ bool append_tsv(std::shared_ptr<Warren> warren, const std::string &filename,
         c->abort();
         c->end();
       }
+      warren->abort();
       return false;
     }
     clone->start();
@@ -338,6 +340,7 @@ bool append_tsv(std::shared_ptr<Warren> warren, const std::string &filename,
         c->abort();
         c->end();
       }
+      warren->abort();
       return false;
     }
     clones.push_back(clone);
@@ -413,12 +416,14 @@ bool append_tsv(std::shared_ptr<Warren> warren, const std::string &filename,
       c->abort();
       c->end();
     }
+    warren->abort();
     return false;
   }
-  for (auto &c : clones) {
-    c->commit();
+  std::vector<std::shared_ptr<cottontail::Warren>> all = clones;
+  all.push_back(warren);
+  Warren::commit_all(all);
+  for (auto &c : clones)
     c->end();
-  }
   return true;
 }
 
-- 
2.43.0


From 05569975e777bbed7eb7c419ee7391fcb653e320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:32 +0000
Subject: [PATCH 56/70] fix: a record without words in its last field swallowed
 the next word

---
 meadowlark/meadowlark.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/meadowlark/meadowlark.cc b/meadowlark/meadowlark.cc
index b79850b..a73b91c 100644
--- a/meadowlark/meadowlark.cc
+++ b/meadowlark/meadowlark.cc
@@ -383,8 +383,10 @@ bool append_tsv(std::shared_ptr<Warren> warren, const std::string &filename,
           }
           return;
         }
-        p0 = std::min(p0, p1);
-        q0 = std::max(q0, q1);
+        if (p1 <= q1) {
+          p0 = std::min(p0, p1);
+          q0 = std::max(q0, q1);
+        }
       }
       if (p0 <= q0 &&
           !twarren->annotator()->annotate(record_feature, p0, q0, &terror)) {
-- 
2.43.0


From 01570a47ce91ff9e8965a8411a582feb4e6c8b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:32 +0000
Subject: [PATCH 57/70] fix: a forager that cannot be made is refused, with its
 reason

---
 meadowlark/meadowlark.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/meadowlark/meadowlark.cc b/meadowlark/meadowlark.cc
index a73b91c..08aa0b8 100644
--- a/meadowlark/meadowlark.cc
+++ b/meadowlark/meadowlark.cc
@@ -453,7 +453,7 @@ bool forage(std::shared_ptr<Warren> warren,
       std::lock_guard<std::mutex> _(sync);
       if (failed)
         return;
-      twarren = warren->clone(error);
+      twarren = warren->clone(&terror);
       if (twarren == nullptr) {
         failed = true;
         safe_error(error) = terror;
@@ -463,7 +463,7 @@ bool forage(std::shared_ptr<Warren> warren,
     twarren->start();
     std::shared_ptr<Forager> forager =
         Forager::make(twarren, name, tag, params, &terror);
-    if (!forager->transaction(&terror)) {
+    if (forager == nullptr || !forager->transaction(&terror)) {
       std::lock_guard<std::mutex> _(sync);
       twarren->end();
       if (!failed) {
@@ -473,7 +473,7 @@ bool forage(std::shared_ptr<Warren> warren,
       return;
     }
     if ((start == 0 && !forager->label(&terror)) ||
-        !forager->forage(intervals, start, n, &terror) || !forager->ready()) {
+        !forager->forage(intervals, start, n, &terror) || !forager->ready(&terror)) {
       std::lock_guard<std::mutex> _(sync);
       forager->abort();
       twarren->end();
-- 
2.43.0


From 0f5074b815f17e72e1a326bdf6282c1857f7bf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:32 +0000
Subject: [PATCH 58/70] fix: a forager that found nothing did not get ready

---
 meadowlark/tf-idf_forager.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meadowlark/tf-idf_forager.cc b/meadowlark/tf-idf_forager.cc
index 2d64a2f..3661d69 100644
--- a/meadowlark/tf-idf_forager.cc
+++ b/meadowlark/tf-idf_forager.cc
@@ -99,7 +99,7 @@ bool TfIdfForager::forage_(addr p, addr q, std::string *error) {
 
 bool TfIdfForager::ready_(std::string *error) {
   if (p_min_ == maxfinity)
-    return true;
+    return warren_->ready(error);
   for (auto &feature : df_)
     if (!warren_->annotator()->annotate(feature.first, p_min_, p_min_,
                                         feature.second, error))
-- 
2.43.0


From c2ff9c8f59f3f3589482b982f0a89861194e46cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:32 +0000
Subject: [PATCH 59/70] fix: statistics could not be read once text starting
 with a separator followed them

---
 meadowlark/tf-idf_stats.cc | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/meadowlark/tf-idf_stats.cc b/meadowlark/tf-idf_stats.cc
index dcac6d5..3a2d51f 100644
--- a/meadowlark/tf-idf_stats.cc
+++ b/meadowlark/tf-idf_stats.cc
@@ -15,6 +15,30 @@
 namespace cottontail {
 namespace meadowlark {
 
+namespace {
+// Translated text extends to the next token. Anything after the label itself
+// belongs to whatever was appended next.
+std::string trim_label(const std::string &text) {
+  size_t depth = 0;
+  bool quoted = false;
+  for (size_t i = 0; i < text.size(); i++) {
+    if (quoted) {
+      if (text[i] == '\\')
+        i++;
+      else if (text[i] == '"')
+        quoted = false;
+    } else if (text[i] == '"') {
+      quoted = true;
+    } else if (text[i] == '{') {
+      depth++;
+    } else if (text[i] == '}' && depth > 0 && --depth == 0) {
+      return text.substr(0, i + 1);
+    }
+  }
+  return text;
+}
+} // namespace
+
 std::shared_ptr<Stats> TfIdfStats::make(const std::string &recipe,
                                         std::shared_ptr<Warren> warren,
                                         std::string *error) {
@@ -39,8 +63,8 @@ std::shared_ptr<Stats> TfIdfStats::make(const std::string &recipe,
   }
   std::string name, tag;
   std::map<std::string, std::string> parameters;
-  if (!json2forager(warren->txt()->translate(p, q), &name, &tag, &parameters,
-                    error))
+  if (!json2forager(trim_label(warren->txt()->translate(p, q)), &name, &tag,
+                    &parameters, error))
     return nullptr;
   if (name != "tf-idf" || tag != recipe ||
       parameters.find("gcl") == parameters.end()) {
-- 
2.43.0


From e8c6ef203b0c7e02657b869410f9ee540e39fd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:31 +0000
Subject: [PATCH 60/70] fix: keep identifiers holding NUL bytes whole in the
 identifier file

---
 src/fastid_txt.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastid_txt.cc b/src/fastid_txt.cc
index 81fbdad..bb1b057 100644
--- a/src/fastid_txt.cc
+++ b/src/fastid_txt.cc
@@ -194,7 +194,7 @@ bool fastid(std::shared_ptr<Warren> warren, std::string *error) {
   addr *ob = offset_buffer.get();
   char *tb = text_buffer.get();
   for (auto &id : ids) {
-    strcpy(tb, id.text.c_str());
+    memcpy(tb, id.text.data(), id.text.size());
     tb += id.text.size();
     *pb++ = id.p;
     *qb++ = id.q;
-- 
2.43.0


From b4084376741864b84f9cb4c2272b32062a2bbdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:31 +0000
Subject: [PATCH 61/70] fix: read the cached token count of a static text under
 its lock

---
 src/simple_txt.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/simple_txt.cc b/src/simple_txt.cc
index 5edb33f..cf15191 100644
--- a/src/simple_txt.cc
+++ b/src/simple_txt.cc
@@ -211,8 +211,11 @@ std::string SimpleTxt::translate_(addr p, addr q) {
 }
 
 addr SimpleTxt::tokens_() {
-  if (computed_tokens_valid_)
-    return computed_tokens_;
+  {
+    const std::lock_guard<std::mutex> lock(mutex_);
+    if (computed_tokens_valid_)
+      return computed_tokens_;
+  }
   addr full_blocks;
   if (map_size_ < 3)
     full_blocks = 0;
-- 
2.43.0


From 4a14b271603405f2c9b7a1b3f07ef39e6ebb7b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:31 +0000
Subject: [PATCH 62/70] fix: report an input file that cannot be read or
 decompressed to its end

---
 src/builder.cc | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/builder.cc b/src/builder.cc
index 7c30f1e..bd8c230 100644
--- a/src/builder.cc
+++ b/src/builder.cc
@@ -12,6 +12,8 @@
 #include <string>
 #include <vector>
 
+#include <sys/wait.h>
+
 #include "src/core.h"
 
 namespace cottontail {
@@ -71,21 +73,28 @@ protected:
     if (file_ == nullptr)
       return traits_type::eof();
     size_t count = fread(buffer_.data(), 1, buffer_.size(), file_);
-    if (count == 0)
+    if (count == 0) {
+      // a read error, or a failing zcat, isn't the end of the file
+      bool failed = ferror(file_);
+      if (!close() || failed)
+        throw std::ios_base::failure("read error");
       return traits_type::eof();
+    }
     setg(buffer_.data(), buffer_.data(), buffer_.data() + count);
     return traits_type::to_int_type(*gptr());
   }
 
 private:
-  void close() {
+  bool close() {
     if (file_ == nullptr)
-      return;
-    if (pipe_)
-      pclose(file_);
-    else
-      fclose(file_);
+      return true;
+    int status = pipe_ ? pclose(file_) : fclose(file_);
     file_ = nullptr;
+    // for zcat an exit status of 2 is only a warning
+    if (pipe_)
+      return WIFEXITED(status) &&
+             (WEXITSTATUS(status) == 0 || WEXITSTATUS(status) == 2);
+    return status == 0;
   }
 
   FILE *file_;
-- 
2.43.0


From b0d0c103a612c4b2fd7f8c17abc7bdf61ae8b11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:31 +0000
Subject: [PATCH 63/70] fix: the search server survives clients that disconnect
 early

---
 apps/ssr-server.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/ssr-server.cc b/apps/ssr-server.cc
index 784107f..e4ea42e 100644
--- a/apps/ssr-server.cc
+++ b/apps/ssr-server.cc
@@ -268,7 +268,7 @@ ssize_t write_all(int fd, const std::string &text) {
   const char *p = text.data();
   size_t n = text.size();
   while (n > 0) {
-    ssize_t wrote = send(fd, p, n, 0);
+    ssize_t wrote = send(fd, p, n, MSG_NOSIGNAL);
     if (wrote <= 0)
       return wrote;
     p += wrote;
-- 
2.43.0


From 57ed9a0cde642d426bfe328ffa2aa71bfa1134e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:31 +0000
Subject: [PATCH 64/70] fix: the search server answers with text that isn't
 valid UTF-8

---
 apps/ssr-server.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apps/ssr-server.cc b/apps/ssr-server.cc
index e4ea42e..635071d 100644
--- a/apps/ssr-server.cc
+++ b/apps/ssr-server.cc
@@ -283,7 +283,9 @@ bool send_record(int fd, const json &request, const json &response,
   record["query"] = request;
   record["response"] = response;
   record["time"] = time;
-  std::string line = record.dump() + "\n";
+  // text isn't always UTF-8
+  std::string line =
+      record.dump(-1, ' ', false, json::error_handler_t::replace) + "\n";
   std::cout << line << std::flush;
   return write_all(fd, line) > 0;
 }
-- 
2.43.0


From f38b1880c88ac954e4e83fcfad40bebce8993d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:31 +0000
Subject: [PATCH 65/70] fix: the search server answers requests of the wrong
 type with an error

---
 apps/ssr-server.cc | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/apps/ssr-server.cc b/apps/ssr-server.cc
index 635071d..bd6c17e 100644
--- a/apps/ssr-server.cc
+++ b/apps/ssr-server.cc
@@ -356,15 +356,20 @@ public:
         send_record(fd, request, response, cottontail::now() - start);
         continue;
       }
-      std::string op = request.value("op", "");
-      if (op == "query")
-        response = query(request);
-      else if (op == "next")
-        response = next(request);
-      else if (op == "document")
-        response = document(request);
-      else
-        response = error_response(op, "Unknown op");
+      std::string op;
+      try {
+        op = request.value("op", "");
+        if (op == "query")
+          response = query(request);
+        else if (op == "next")
+          response = next(request);
+        else if (op == "document")
+          response = document(request);
+        else
+          response = error_response(op, "Unknown op");
+      } catch (json::type_error &e) {
+        response = error_response(op, e.what());
+      }
       if (!send_record(fd, request, response, cottontail::now() - start))
         return;
     }
-- 
2.43.0


From d22bceac009d699df90cd5852e2c54ee86074f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:31 +0000
Subject: [PATCH 66/70] fix: the search server refuses requests nested too
 deeply

---
 apps/ssr-server.cc | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/apps/ssr-server.cc b/apps/ssr-server.cc
index bd6c17e..6e83fd0 100644
--- a/apps/ssr-server.cc
+++ b/apps/ssr-server.cc
@@ -22,6 +22,7 @@ namespace {
 
 constexpr cottontail::addr WINDOW_TOKENS = 200;
 constexpr size_t DEPTH = 1000;
+constexpr int MAX_NESTING = 100;
 
 struct Collection {
   std::string burrow;
@@ -348,7 +349,21 @@ public:
       json request;
       json response;
       try {
-        request = json::parse(line);
+        // deeper requests would exhaust the stack when echoed
+        bool too_deep = false;
+        request = json::parse(
+            line, [&](int depth, json::parse_event_t event, json &parsed) {
+              too_deep = too_deep || depth > MAX_NESTING;
+              return !too_deep;
+            });
+        if (too_deep) {
+          request = json::object();
+          request["op"] = "parse";
+          response = error_response("parse", "Request nested too deeply");
+          if (!send_record(fd, request, response, cottontail::now() - start))
+            return;
+          continue;
+        }
       } catch (json::parse_error &e) {
         request = json::object();
         request["op"] = "parse";
-- 
2.43.0


From 8d10e3d12d1eb20585757168ccb09152cc38c3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:19 +0000
Subject: [PATCH 67/70] fix: text that can't be written fails the transaction,
 and abort restores the text

---
 src/simple_txt_io.cc | 24 ++++++++++++++++++++++--
 src/simple_txt_io.h  |  3 +++
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/simple_txt_io.cc b/src/simple_txt_io.cc
index 84c0da7..5abeb30 100644
--- a/src/simple_txt_io.cc
+++ b/src/simple_txt_io.cc
@@ -272,6 +272,8 @@ void SimpleTxtIO::sync_last_chunk() {
   assert(!mapf.fail());
   mapf.write(reinterpret_cast<char *>(&where), sizeof(where));
   assert(!mapf.fail());
+  mapf.close();
+  failed_ = failed_ || mapf.fail() || contents_.fail();
   last_chunk_synced_ = true;
 }
 
@@ -294,6 +296,8 @@ void SimpleTxtIO::append_full_chunk(char *text) {
   assert(!mapf.fail());
   mapf.write(reinterpret_cast<char *>(&where), sizeof(where));
   assert(!mapf.fail());
+  mapf.close();
+  failed_ = failed_ || mapf.fail() || contents_.fail();
 }
 
 void SimpleTxtIO::start_new_chunk(char *text, addr length) {
@@ -320,12 +324,16 @@ void SimpleTxtIO::start_new_chunk(char *text, addr length) {
   assert(!mapf.fail());
   mapf.write(reinterpret_cast<char *>(&where), sizeof(where));
   assert(!mapf.fail());
+  mapf.close();
+  failed_ = failed_ || mapf.fail() || contents_.fail();
   last_chunk_synced_ = true;
 }
 
 void SimpleTxtIO::append(char *text, addr length) {
-  if (read_only_)
+  if (read_only_) {
+    failed_ = true;
     return;
+  }
   if (length <= 0)
     return;
   flushed_ = false;
@@ -460,6 +468,12 @@ bool SimpleTxtIO::transaction_(std::string *error) {
     return false;
   }
   temp.close();
+  if (temp.fail()) {
+    std::remove(nameof_temp.c_str());
+    std::remove(nameof_lock.c_str());
+    safe_error(error) = "SimpleTxtIO can't record transaction info";
+    return false;
+  }
   std::string nameof_limits = nameof_contents_ + ".limits";
   if (std::rename(nameof_temp.c_str(), nameof_limits.c_str()) != 0) {
     std::remove(nameof_temp.c_str());
@@ -473,17 +487,23 @@ bool SimpleTxtIO::transaction_(std::string *error) {
 
 bool SimpleTxtIO::ready_(std::string *error) {
   flush();
+  if (failed_) {
+    safe_error(error) = "SimpleTxtIO can't write to: " + nameof_contents_;
+    return false;
+  }
   return true;
 }
 
 void SimpleTxtIO::commit_() { unlock(nameof_contents_); }
 
 void SimpleTxtIO::abort_() {
+  // whatever is still buffered goes before restoring, not after it
+  contents_.close();
   restore(nameof_contents_, nameof_chunk_map_, chunk_size_, compressor_);
   chunk_valid_ = false;
   last_chunk_synced_ = true;
   flushed_ = true;
-  contents_.close();
+  failed_ = false;
   contents_.open(nameof_contents_,
                  std::ios::binary | std::ios::out | std::ios::in);
   assert(!contents_.fail());
diff --git a/src/simple_txt_io.h b/src/simple_txt_io.h
index a31c590..f880a4d 100644
--- a/src/simple_txt_io.h
+++ b/src/simple_txt_io.h
@@ -30,11 +30,13 @@ public:
     if (!flushed_) {
       sync_last_chunk();
       contents_.flush();
+      failed_ = failed_ || contents_.fail();
       flushed_ = true;
     }
   }
   std::unique_ptr<char[]> read(addr start, addr desired, addr *actual);
   addr size() { return size_; }
+  bool failed() { return failed_; } // not everything could be written
   void dump(std::ostream &output = std::cout);
 
   virtual ~SimpleTxtIO() { flush(); }
@@ -69,6 +71,7 @@ private:
   bool chunk_valid_ = false;
   bool last_chunk_synced_ = true;
   bool flushed_ = true;
+  bool failed_ = false;
   size_t chunk_index_ = 0;
   std::unique_ptr<char[]> chunk_;
   std::streamsize chunk_end_ = 0;
-- 
2.43.0


From 0da33ce94523fbba2b0bd0c84720907547ac272f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:19 +0000
Subject: [PATCH 68/70] fix: an index that can't be written completely isn't
 reported as ready

---
 src/simple_annotator.cc | 13 +++++++++++--
 src/simple_annotator.h  |  3 ++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/simple_annotator.cc b/src/simple_annotator.cc
index 0077e8e..4192e99 100644
--- a/src/simple_annotator.cc
+++ b/src/simple_annotator.cc
@@ -64,7 +64,7 @@ SimpleAnnotator::make(const std::string &recipe,
     return nullptr;
   ann->idx_filename_ = working->make_name(IDX_NAME);
   ann->pst_filename_ = working->make_name(PST_NAME);
-  ann->cannot_create_temp_files_ = std::make_shared<bool>(new bool());
+  ann->cannot_create_temp_files_ = std::make_shared<std::atomic<bool>>(false);
   *ann->cannot_create_temp_files_ = false;
   if (add_file_size > 0)
     ann->add_file_size_ = add_file_size;
@@ -200,6 +200,12 @@ bool merge_updates(const std::vector<std::string> &posting_filenames,
       return false;
     }
   }
+  pst.close();
+  idx.close();
+  if (pst.fail() || idx.fail()) {
+    safe_error(error) = "SimpleAnnotator can't write to: " + pst_filename;
+    return false;
+  }
   return true;
 }
 
@@ -217,7 +223,7 @@ void SimpleAnnotator::maybe_flush_additions(bool force) {
     auto sorter = [](std::string add_filename,
                      std::unique_ptr<std::vector<Annotation>> added,
                      std::shared_ptr<SimplePostingFactory> posting_factory,
-                     std::shared_ptr<bool> cannot_create_temp_files) {
+                     std::shared_ptr<std::atomic<bool>> cannot_create_temp_files) {
       std::sort(added->begin(), added->end(), annotation_cmp);
       std::fstream addf(add_filename, std::ios::binary | std::ios::out);
       if (addf.fail()) {
@@ -231,6 +237,9 @@ void SimpleAnnotator::maybe_flush_additions(bool force) {
         posting->write(&addf);
         assert(!addf.fail());
       }
+      addf.close();
+      if (addf.fail())
+        (*cannot_create_temp_files) = true;
     };
     std::string add_filename = working_->make_temp("ann");
     added_files_.push_back(add_filename);
diff --git a/src/simple_annotator.h b/src/simple_annotator.h
index aaf4b5b..dad19a0 100644
--- a/src/simple_annotator.h
+++ b/src/simple_annotator.h
@@ -1,6 +1,7 @@
 #ifndef COTTONTAIL_SRC_SIMPLE_ANNOTATOR_H_
 #define COTTONTAIL_SRC_SIMPLE_ANNOTATOR_H_
 
+#include <atomic>
 #include <fstream>
 #include <map>
 #include <memory>
@@ -61,7 +62,7 @@ private:
   std::string idx_filename_;
   std::string pst_filename_;
   std::mutex lock_;
-  std::shared_ptr<bool> cannot_create_temp_files_;
+  std::shared_ptr<std::atomic<bool>> cannot_create_temp_files_;
   static const size_t ADD_FILE_SIZE = 256 * 1024 * 1024;
   size_t add_file_size_ = ADD_FILE_SIZE;
   std::shared_ptr<SimplePostingFactory> posting_factory_;
-- 
2.43.0


From d30bc1c45e60b8547ef1069cf1363c2a972481ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:19 +0000
Subject: [PATCH 69/70] fix: a build that can't write everything fails

---
 src/simple_builder.cc | 39 ++++++++++++++++++++++++++++++++++-----
 src/simple_builder.h  |  2 ++
 2 files changed, 36 insertions(+), 5 deletions(-)

diff --git a/src/simple_builder.cc b/src/simple_builder.cc
index 0b12dc6..9921578 100644
--- a/src/simple_builder.cc
+++ b/src/simple_builder.cc
@@ -355,6 +355,8 @@ SimpleBuilder::make(std::shared_ptr<Working> working, const std::string &recipe,
       DEFAULT_ANN_FILE_SIZE, posting_compressor_name, posting_compressor_recipe,
       fvalue_compressor_name, fvalue_compressor_recipe, text_compressor_name,
       text_compressor_recipe);
+  if (builder == nullptr)
+    return nullptr;
   builder->write_dna_ = false;
   return builder;
 }
@@ -433,7 +435,8 @@ bool SimpleBuilder::maybe_flush_tokens(bool force, std::string *error) {
       auto token_sorter =
           [](std::string tok_filename,
              std::unique_ptr<std::vector<TokRecord>> tokens,
-             std::shared_ptr<SimplePostingFactory> posting_factory) {
+             std::shared_ptr<SimplePostingFactory> posting_factory,
+             std::atomic<bool> *failed) {
             std::sort(tokens->begin(), tokens->end(), tok_cmp);
             std::fstream tok(tok_filename, std::ios::binary | std::ios::out);
             assert(!tok.fail());
@@ -444,13 +447,17 @@ bool SimpleBuilder::maybe_flush_tokens(bool force, std::string *error) {
               posting->write(&tok);
               assert(!tok.fail());
             }
+            tok.close();
+            if (tok.fail())
+              *failed = true;
           };
       if (verbose())
         std::cout << "SimpleBuilder starting thread to sort token buffer\n";
       std::string tok_filename = working_->make_temp();
       tokq_.push(tok_filename);
       workers_.emplace_back(std::thread(token_sorter, tok_filename,
-                                        std::move(tokens_), posting_factory_));
+                                        std::move(tokens_), posting_factory_,
+                                        &failed_));
       tokens_ = std::make_unique<std::vector<TokRecord>>();
     } else {
       if (verbose())
@@ -472,6 +479,9 @@ bool SimpleBuilder::maybe_flush_tokens(bool force, std::string *error) {
         posting->write(&tok);
         assert(!tok.fail());
       }
+      tok.close();
+      if (tok.fail())
+        failed_ = true;
       tokq_.push(tok_filename);
       tokens_->clear();
     }
@@ -557,6 +567,12 @@ bool SimpleBuilder::build_index(std::string *error) {
       return false;
     }
   }
+  pst.close();
+  idx.close();
+  if (pst.fail() || idx.fail()) {
+    safe_error(error) = "SimpleBuilder can't write to: " + pst_filename_;
+    return false;
+  }
   while (!tokq_.empty()) {
     std::string remove_me = tokq_.front();
     std::remove(remove_me.c_str());
@@ -627,7 +643,8 @@ bool SimpleBuilder::maybe_flush_annotations(bool force, std::string *error) {
     auto annotation_sorter =
         [](std::string ann_filename,
            std::unique_ptr<std::vector<Annotation>> annotations,
-           std::shared_ptr<SimplePostingFactory> posting_factory) {
+           std::shared_ptr<SimplePostingFactory> posting_factory,
+           std::atomic<bool> *failed) {
           std::sort(annotations->begin(), annotations->end(), annotation_cmp);
           std::fstream ann(ann_filename, std::ios::binary | std::ios::out);
           assert(!ann.fail());
@@ -639,6 +656,9 @@ bool SimpleBuilder::maybe_flush_annotations(bool force, std::string *error) {
             posting->write(&ann);
             assert(!ann.fail());
           }
+          ann.close();
+          if (ann.fail())
+            *failed = true;
         };
     std::string ann_filename = working_->make_temp();
     annq_.push(ann_filename);
@@ -647,12 +667,12 @@ bool SimpleBuilder::maybe_flush_annotations(bool force, std::string *error) {
         std::cout << "SimpleBuilder starting thread to sort annotations\n";
       workers_.emplace_back(std::thread(annotation_sorter, ann_filename,
                                         std::move(annotations_),
-                                        posting_factory_));
+                                        posting_factory_, &failed_));
     } else {
       if (verbose())
         std::cout << "SimpleBuilder sorting annotations\n";
       annotation_sorter(ann_filename, std::move(annotations_),
-                        posting_factory_);
+                        posting_factory_, &failed_);
     }
     annotations_ = std::make_unique<std::vector<Annotation>>();
     assert(annotations_ != nullptr);
@@ -690,6 +710,15 @@ bool SimpleBuilder::finalize_(std::string *error) {
       std::cout << "SimpleBuilder gathering threads\n";
     for (auto &worker : workers_)
       worker.join();
+    workers_.clear();
+  }
+  if (txt_.fail() || io_->failed()) {
+    safe_error(error) = "SimpleBuilder can't write to: " + txt_filename_;
+    return false;
+  }
+  if (failed_) {
+    safe_error(error) = "SimpleBuilder can't write temporary files";
+    return false;
   }
   if (verbose())
     std::cout << "SimpleBuilder building inverted index\n";
diff --git a/src/simple_builder.h b/src/simple_builder.h
index c71851d..d5f1531 100644
--- a/src/simple_builder.h
+++ b/src/simple_builder.h
@@ -1,6 +1,7 @@
 #ifndef COTTONTAIL_SRC_SIMPLE_BUILDER_H_
 #define COTTONTAIL_SRC_SIMPLE_BUILDER_H_
 
+#include <atomic>
 #include <fstream>
 #include <iostream>
 #include <memory>
@@ -87,6 +88,7 @@ private:
   std::shared_ptr<SimplePostingFactory> posting_factory_;
   bool write_dna_ = true;
   bool multithreaded_ = true;
+  std::atomic<bool> failed_{false}; // set by workers
   std::vector<std::thread> workers_;
 };
 
-- 
2.43.0


From 358da998e7e195e18f5e41b3da97b548fe68b39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:19 +0000
Subject: [PATCH 70/70] fix: aborting a failed append removes its files and its
 lock

---
 src/simple_appender.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simple_appender.cc b/src/simple_appender.cc
index 496aa30..a5c5361 100644
--- a/src/simple_appender.cc
+++ b/src/simple_appender.cc
@@ -348,7 +348,7 @@ void SimpleAppender::abort_() {
   lock_.lock();
   if (io_ != nullptr)
     io_->abort();
-  if (!failed_ && adding_) {
+  if (adding_) {
     txt_.close();
     std::string new_filename = txt_filename_ + ".new";
     std::remove(new_filename.c_str());
-- 
2.43.0

