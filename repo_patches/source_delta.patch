From 425d613f1e9d34c390726cd1fb7ec1c8cd844acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:51 +0000
Subject: [PATCH 01/56] fix: gcl Merge::uat returned the outer of two intervals
 with the same start

When both operands had an interval starting at the same address, uat (and ohr,
which uses it) answered with the longer one, although tau and rho give the
innermost; walking backward listed intervals that are not in the merged list.
---
 gcl/gcl.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcl/gcl.cc b/gcl/gcl.cc
index 2223462..2ec306e 100644
--- a/gcl/gcl.cc
+++ b/gcl/gcl.cc
@@ -322,7 +322,7 @@ void Merge::uat_(addr k, addr *p, addr *q, fval *v) {
     *p = pr;
     *q = qr;
     *v = vr;
-  } else if (ql < qr) {
+  } else if (ql > qr) {
     *p = pr;
     *q = qr;
     *v = vr;
-- 
2.43.0


From 4eae9ba7b4f657f73a9e18fb63b377bb0fe21fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:27 +0000
Subject: [PATCH 02/56] fix: a query followed by more text was accepted as the
 query before it

SExpression::from_string ignored everything after the first complete
expression, so '(+ a b) junk', 'a b' or '(^ a b))' were taken for '(+ a b)',
'a' and '(^ a b)'.
---
 gcl/parse.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/gcl/parse.cc b/gcl/parse.cc
index 5b6a79b..c8950be 100644
--- a/gcl/parse.cc
+++ b/gcl/parse.cc
@@ -180,8 +180,15 @@ std::shared_ptr<SExpression> SExpression::from_string(std::string s,
   std::shared_ptr<SExpression> expr = std::make_shared<SExpression>();
   bool okay;
   const char *where = parse_expr(s.c_str(), expr, &okay);
-  if (okay)
-    return expr;
+  if (okay) {
+    // Nothing but whitespace may follow the expression.
+    if (expr->kind_ != Operator::TERM)
+      where++; // the closing parenthesis
+    while (is_whitespace(*where) || *where == '\n' || *where == '\r')
+      where++;
+    if (where == s.c_str() + s.size())
+      return expr;
+  }
   safe_error(error) =
       "parse error at offset " + std::to_string(where - s.c_str()) + ":" + s;
   return nullptr;
-- 
2.43.0


From 33bcc286e5f4e75ea65dd46a546fe61256f98cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:06 +0000
Subject: [PATCH 03/56] fix: a list built from one transaction's annotations
 kept outer and duplicate intervals

---
 src/fiver.cc            |  2 +-
 src/simple_annotator.cc |  2 +-
 src/simple_posting.cc   | 26 ++++++++++++++++++--------
 3 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/fiver.cc b/src/fiver.cc
index 15f1b06..a0cfbc1 100644
--- a/src/fiver.cc
+++ b/src/fiver.cc
@@ -680,7 +680,7 @@ bool Fiver::ready_(std::string *error) {
       annotation.p -= relocate;
       annotation.q -= relocate;
     }
-  std::sort(annotations_->begin(), annotations_->end(),
+  std::stable_sort(annotations_->begin(), annotations_->end(),
             [](const Annotation &a, const Annotation &b) {
               return a.feature < b.feature ||
                      (a.feature == b.feature &&
diff --git a/src/simple_annotator.cc b/src/simple_annotator.cc
index 95b4cdb..e327078 100644
--- a/src/simple_annotator.cc
+++ b/src/simple_annotator.cc
@@ -214,7 +214,7 @@ void SimpleAnnotator::maybe_flush_additions(bool force) {
                      std::unique_ptr<std::vector<Annotation>> added,
                      std::shared_ptr<SimplePostingFactory> posting_factory,
                      std::shared_ptr<bool> cannot_create_temp_files) {
-      std::sort(added->begin(), added->end(), annotation_cmp);
+      std::stable_sort(added->begin(), added->end(), annotation_cmp);
       std::fstream addf(add_filename, std::ios::binary | std::ios::out);
       if (addf.fail()) {
         (*cannot_create_temp_files) = true;
diff --git a/src/simple_posting.cc b/src/simple_posting.cc
index f3e21c8..ca0846a 100644
--- a/src/simple_posting.cc
+++ b/src/simple_posting.cc
@@ -46,23 +46,33 @@ std::shared_ptr<SimplePosting> SimplePostingFactory::posting_from_annotations(
       new SimplePosting(posting_compressor_, fvalue_compressor_));
   posting->feature_ = (*start)->feature;
   std::vector<Annotation>::iterator stop;
-  bool clear_qostings = true;
-  bool clear_fostings = true;
   for (stop = (*start); stop < end && stop->feature == posting->feature_;
        stop++)
     if (stop->p <= stop->q) {
-      if (stop->p < stop->q)
-        clear_qostings = false;
-      if (stop->v != 0.0)
-        clear_fostings = false;
+      // Only innermost annotations are kept, each with its latest value.
+      while (posting->postings_.size() > 0 &&
+             stop->p >= posting->postings_.back() &&
+             stop->q <= posting->qostings_.back()) {
+        posting->postings_.pop_back();
+        posting->qostings_.pop_back();
+        posting->fostings_.pop_back();
+      }
       if (posting->postings_.size() == 0 ||
-          (stop->p >= posting->postings_.back() &&
-           stop->q >= posting->qostings_.back())) {
+          (stop->p > posting->postings_.back() &&
+           stop->q > posting->qostings_.back())) {
         posting->postings_.push_back(stop->p);
         posting->qostings_.push_back(stop->q);
         posting->fostings_.push_back(stop->v);
       }
     }
+  bool clear_qostings = true;
+  bool clear_fostings = true;
+  for (size_t i = 0; i < posting->postings_.size(); i++) {
+    if (posting->postings_[i] < posting->qostings_[i])
+      clear_qostings = false;
+    if (posting->fostings_[i] != 0.0)
+      clear_fostings = false;
+  }
   if (clear_qostings)
     posting->qostings_.clear();
   if (clear_fostings)
-- 
2.43.0


From 9a335830e6f4efcd91ce9cd5b172e7fc21f54e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:06 +0000
Subject: [PATCH 04/56] fix: merging lists around an empty one could leave the
 result unsorted

---
 src/simple_posting.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/simple_posting.cc b/src/simple_posting.cc
index ca0846a..a65123f 100644
--- a/src/simple_posting.cc
+++ b/src/simple_posting.cc
@@ -410,17 +410,20 @@ std::shared_ptr<SimplePosting> SimplePostingFactory::posting_from_merge(
     return postings[0];
   addr feature = postings[0]->feature();
   bool can_append = true;
+  size_t last = 0; // the latest posting with something in it
   for (size_t i = 1; can_append && i < postings.size(); i++) {
     assert(postings[i]->feature() == feature);
-    size_t size0 = postings[i - 1]->size();
+    size_t size0 = postings[last]->size();
     size_t size1 = postings[i]->size();
     if (size0 > 0 && size1 > 0) {
       addr p0, p1, q0, q1;
       fval v0, v1;
-      postings[i - 1]->get(size0 - 1, &p0, &q0, &v0);
+      postings[last]->get(size0 - 1, &p0, &q0, &v0);
       postings[i]->get(0, &p1, &q1, &v1);
       can_append = (p0 < p1 && q0 < q1);
     }
+    if (size1 > 0)
+      last = i;
   }
   std::shared_ptr<SimplePosting> merged_posting = posting_from_feature(feature);
   if (can_append) {
-- 
2.43.0


From fe2051bc825f8e284ee4e760e45a6908df72bf1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:07 +0000
Subject: [PATCH 05/56] fix: committing a transaction without annotations
 aborted the process on disk

---
 src/fiver.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/fiver.cc b/src/fiver.cc
index a0cfbc1..165234f 100644
--- a/src/fiver.cc
+++ b/src/fiver.cc
@@ -671,8 +671,6 @@ bool Fiver::ready_(std::string *error) {
   }
   if (!appender_->ready(error) || !annotator_->ready(error))
     return false;
-  if (annotations_->size() == 0)
-    return true;
   index_->clear();
   addr relocate = staging - where_;
   for (auto &annotation : (*annotations_))
-- 
2.43.0


From 33ab384a05009dfe7cc607e1767aad2e2da6c550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:07 +0000
Subject: [PATCH 06/56] fix: with assertions disabled a commit removed its data
 instead of publishing it

---
 src/fiver.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fiver.cc b/src/fiver.cc
index 165234f..6079989 100644
--- a/src/fiver.cc
+++ b/src/fiver.cc
@@ -714,7 +714,9 @@ void Fiver::commit_() {
       std::string ready_name = working()->make_name(name() + "." + recipe());
       name_ = "fiver";
       std::string final_name = working()->make_name(name() + "." + recipe());
-      assert(link(ready_name.c_str(), final_name.c_str()) == 0);
+      int linked = link(ready_name.c_str(), final_name.c_str());
+      assert(linked == 0);
+      (void)linked;
       std::remove(ready_name.c_str());
     } else {
       name_ = "fiver";
-- 
2.43.0


From 360e4b9f0da04cdd321d151e223c76c84bc3c8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:22 +0000
Subject: [PATCH 07/56] fix: a range ending in an address gap or at a
 transaction's end translated to text outside it

Addresses between two transactions that nothing occupies (an aborted
transaction leaves such a gap) made translate() return the rest of the shard's
text once the transactions were merged; and the separators leading the next
transaction's text were returned with the last token of the one before.
---
 src/fiver.cc | 11 ++++++++---
 src/hazel.cc | 20 +++++++++++---------
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/fiver.cc b/src/fiver.cc
index 6079989..8a5eb6d 100644
--- a/src/fiver.cc
+++ b/src/fiver.cc
@@ -283,24 +283,29 @@ private:
       return "";
     addr p0, q0, i;
     addr p1, q1, j;
+    addr p2, q2, k;
     {
       std::lock_guard<std::mutex> lock(mutex_);
       hopper_->rho(p, &p0, &q0, &i);
       if (p0 == maxfinity || p0 > q)
         return "";
       hopper_->ohr(q, &p1, &q1, &j);
+      hopper_->tau(p1 + 1, &p2, &q2, &k);
     }
+    // Nothing past the start of the chunk that follows belongs to [p, q].
     size_t n = text_->length();
+    if (p2 < maxfinity && k >= j && k < (addr)n)
+      n = k;
     const char *t = text_->c_str();
     const char *s = t + i;
     if (p0 < p)
       s = tokenizer_->skip(s, n - i, p - p0);
     else
       p = p0;
-    const char *e;
     if (q > q1)
-      e = t + n;
-    else if (q0 == q1)
+      q = q1;
+    const char *e;
+    if (q0 == q1)
       e = tokenizer_->skip(s, n - (s - t), q - p + 1);
     else
       e = tokenizer_->skip(t + j, n - j, q - p1 + 1);
diff --git a/src/hazel.cc b/src/hazel.cc
index a0283b6..a397398 100644
--- a/src/hazel.cc
+++ b/src/hazel.cc
@@ -987,12 +987,14 @@ private:
 
     addr p0, q0, left_anchor_byte;
     addr p1, q1, right_anchor_byte;
+    addr p2, q2, next_anchor_byte;
     {
       std::lock_guard<std::mutex> lock(hopper_lock_);
       hopper_->rho(p, &p0, &q0, &left_anchor_byte);
       if (p0 == maxfinity || p0 > q)
         return "";
       hopper_->ohr(q, &p1, &q1, &right_anchor_byte);
+      hopper_->tau(p1 + 1, &p2, &q2, &next_anchor_byte);
     }
     if (p1 == minfinity || p1 == maxfinity)
       return "";
@@ -1001,16 +1003,14 @@ private:
       return "";
 
     addr cover_byte_start = left_anchor_byte;
-    addr cover_byte_end = q > q1 ? raw_text_length_ : right_anchor_byte;
+    if (q > q1)
+      q = q1;
+    addr cover_byte_end = right_anchor_byte;
     if (cover_byte_start > cover_byte_end || map_.empty())
       return "";
 
     size_t first_chunk = chunk_containing(left_anchor_byte);
-    size_t last_chunk;
-    if (q > q1)
-      last_chunk = map_.size() - 1;
-    else
-      last_chunk = chunk_containing(right_anchor_byte);
+    size_t last_chunk = chunk_containing(right_anchor_byte);
     if (first_chunk >= map_.size() || last_chunk >= map_.size() ||
         first_chunk > last_chunk)
       return "";
@@ -1026,6 +1026,10 @@ private:
 
     const char *base = cover.data();
     const char *limit = base + cover.size();
+    // Nothing past the start of the chunk that follows belongs to [p, q].
+    if (p2 < maxfinity && next_anchor_byte >= right_anchor_byte &&
+        next_anchor_byte < window_byte_end)
+      limit = base + (next_anchor_byte - window_byte_start);
     const char *start = base + (left_anchor_byte - window_byte_start);
     if (p0 < p)
       start = tokenizer_->skip(start, limit - start, p - p0);
@@ -1033,9 +1037,7 @@ private:
       p = p0;
 
     const char *end;
-    if (q > q1) {
-      end = limit;
-    } else if (q0 == q1) {
+    if (q0 == q1) {
       end = tokenizer_->skip(start, limit - start, q - p + 1);
     } else {
       addr offset = right_anchor_byte - window_byte_start;
-- 
2.43.0


From 6fc61eac926f68c74d24e17e9c03057b6cb8e951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:36 +0000
Subject: [PATCH 08/56] fix: an erasure was lost when another erasure lay
 inside it

The list of erased ranges kept its innermost intervals, as lists of annotations
do, so erasing [0,6] and [2,2] hid only what was inside [2,2].
---
 src/simple_posting.cc | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/simple_posting.cc b/src/simple_posting.cc
index a65123f..0da9abe 100644
--- a/src/simple_posting.cc
+++ b/src/simple_posting.cc
@@ -48,7 +48,20 @@ std::shared_ptr<SimplePosting> SimplePostingFactory::posting_from_annotations(
   std::vector<Annotation>::iterator stop;
   for (stop = (*start); stop < end && stop->feature == posting->feature_;
        stop++)
-    if (stop->p <= stop->q) {
+    if (posting->feature_ == null_feature) {
+      // Erasures: everything inside any of them goes, so the outermost count.
+      if (stop->p <= stop->q) {
+        while (posting->postings_.size() > 0 &&
+               posting->postings_.back() >= stop->p) {
+          posting->postings_.pop_back();
+          posting->qostings_.pop_back();
+          posting->fostings_.pop_back();
+        }
+        posting->postings_.push_back(stop->p);
+        posting->qostings_.push_back(stop->q);
+        posting->fostings_.push_back(stop->v);
+      }
+    } else if (stop->p <= stop->q) {
       // Only innermost annotations are kept, each with its latest value.
       while (posting->postings_.size() > 0 &&
              stop->p >= posting->postings_.back() &&
@@ -441,6 +454,22 @@ std::shared_ptr<SimplePosting> SimplePostingFactory::posting_from_merge(
     for (size_t i = 0; i < postings.size(); i++)
       if (postings[i]->size() > 0)
         queue.emplace(postings[i], i);
+    if (feature == null_feature) {
+      // Erasures: everything inside any of them goes, so the outermost count.
+      std::vector<std::pair<addr, addr>> outermost;
+      while (queue.size() > 0) {
+        Element e = queue.top();
+        queue.pop();
+        while (outermost.size() > 0 && outermost.back().first >= e.p())
+          outermost.pop_back();
+        outermost.emplace_back(e.p(), e.q());
+        if (e.next())
+          queue.push(e);
+      }
+      for (auto &erased : outermost)
+        merged_posting->push(erased.first, erased.second, 0.0);
+      return merged_posting;
+    }
     addr k = minfinity;
     while (queue.size() > 0) {
       Element e = queue.top();
-- 
2.43.0


From ac6e1022e16df4c6c85c12e1f3e9b14a5e63f2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:36 +0000
Subject: [PATCH 09/56] fix: appending could make a static burrow impossible to
 open

A mixed-case token has two features at its address; when that address began a
block of text the block was recorded twice, and the next open failed with
"blocking error".
---
 src/simple_appender.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/simple_appender.cc b/src/simple_appender.cc
index 54fe8f0..6441a77 100644
--- a/src/simple_appender.cc
+++ b/src/simple_appender.cc
@@ -163,6 +163,7 @@ bool SimpleAppender::append_(const std::string &text, addr *p, addr *q,
         lock_.unlock();
         return false;
       }
+      last_pq = token.address;
     }
   }
   *p = address_;
-- 
2.43.0


From d625b1321ce59eb6f665c85808bbfe8a28e2940d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:36 +0000
Subject: [PATCH 10/56] fix: with assertions disabled aborting on a static
 burrow did not restore its text

---
 src/simple_txt_io.cc | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/simple_txt_io.cc b/src/simple_txt_io.cc
index 2eefaa1..f9ff721 100644
--- a/src/simple_txt_io.cc
+++ b/src/simple_txt_io.cc
@@ -41,6 +41,13 @@ void unlock(const std::string &nameof_contents) {
   std::remove(nameof_lock.c_str());
 }
 
+// Not inside assert(): it has to happen with assertions disabled too.
+void shorten(const std::string &filename, off_t length) {
+  int truncated = truncate(filename.c_str(), length);
+  assert(truncated == 0);
+  (void)truncated;
+}
+
 void restore(const std::string &nameof_contents,
              const std::string &nameof_chunk_map, addr chunk_size,
              std::shared_ptr<Compressor> compressor) {
@@ -51,12 +58,11 @@ void restore(const std::string &nameof_contents,
   if (last_chunk == nullptr)
     return;
   if (chunk_map_limit == 0) {
-    assert(truncate(nameof_contents.c_str(), 0) == 0);
-    assert(truncate(nameof_chunk_map.c_str(), 0) == 0);
+    shorten(nameof_contents, 0);
+    shorten(nameof_chunk_map, 0);
     return;
   }
-  assert(truncate(nameof_chunk_map.c_str(),
-                  chunk_map_limit * sizeof(std::streamoff)) == 0);
+  shorten(nameof_chunk_map, chunk_map_limit * sizeof(std::streamoff));
   std::fstream mapf(nameof_chunk_map,
                     std::ios::binary | std::ios::in | std::ios::out);
   assert(!mapf.fail());
@@ -73,7 +79,7 @@ void restore(const std::string &nameof_contents,
       std::unique_ptr<char[]>(new char[buffer_size]);
   std::streamsize amount = compressor->crush(last_chunk.get(), last_chunk_end,
                                              buffer.get(), buffer_size);
-  assert(truncate(nameof_contents.c_str(), where + amount) == 0);
+  shorten(nameof_contents, where + amount);
   std::fstream contents(nameof_contents,
                         std::ios::binary | std::ios::in | std::ios::out);
   assert(!contents.fail());
-- 
2.43.0


From 7e88882c5789fabc94bcef07b00986299d6f9eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:36 +0000
Subject: [PATCH 11/56] fix: concurrent readers of a shard could be given an
 unset text range

---
 src/fiver.cc | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/fiver.cc b/src/fiver.cc
index 8a5eb6d..fe97a08 100644
--- a/src/fiver.cc
+++ b/src/fiver.cc
@@ -322,16 +322,14 @@ private:
     return count_;
   }
   bool range_(addr *p, addr *q) {
+    std::lock_guard<std::mutex> lock(mutex_);
     if (!range_valid_) {
-      std::lock_guard<std::mutex> lock(mutex_);
-      if (!range_valid_) {
-        range_valid_ = true;
-        hopper_->tau(minfinity + 1, &range_p_, &range_q_);
-        if (range_p_ < maxfinity) {
-          addr ignore;
-          hopper_->uat(maxfinity - 1, &ignore, &range_q_);
-        }
+      hopper_->tau(minfinity + 1, &range_p_, &range_q_);
+      if (range_p_ < maxfinity) {
+        addr ignore;
+        hopper_->uat(maxfinity - 1, &ignore, &range_q_);
       }
+      range_valid_ = true;
     }
     *p = range_p_;
     *q = range_q_;
-- 
2.43.0


From dfd2b991373bf3b3e13576de45176aac35b87596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:36 +0000
Subject: [PATCH 12/56] fix: converting shards to an archive changed the number
 of tokens

Addresses left unoccupied by an aborted transaction were counted.
---
 src/hazel.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/hazel.cc b/src/hazel.cc
index a397398..557acf9 100644
--- a/src/hazel.cc
+++ b/src/hazel.cc
@@ -1054,7 +1054,7 @@ private:
   addr tokens_() final {
     if (token_start_ == maxfinity)
       return 0;
-    return token_end_ - token_start_ + 1;
+    return token_count_;
   };
   bool range_(addr *p, addr *q) final {
     if (token_start_ == maxfinity) {
@@ -1152,10 +1152,14 @@ private:
     addr p, q, value;
     {
       std::lock_guard<std::mutex> lock(hopper_lock_);
+      token_count_ = 0;
       hopper_->tau(minfinity + 1, &p, &q, &value);
       if (p == maxfinity)
         return;
       token_start_ = p;
+      // Addresses between transactions may be unoccupied.
+      for (; p < maxfinity; hopper_->tau(p + 1, &p, &q, &value))
+        token_count_ += q - p + 1;
       hopper_->uat(maxfinity - 1, &p, &q, &value);
       token_end_ = q;
     }
@@ -1251,6 +1255,7 @@ private:
   std::mutex cache_write_lock_;
   addr token_start_ = maxfinity;
   addr token_end_ = maxfinity;
+  addr token_count_ = 0;
 };
 
 bool HazelTxt::merge(const std::vector<std::shared_ptr<HazelTxt>> &txts,
-- 
2.43.0


From 56f3b99de2f018a20ea1694587c0c5101c7cdb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:36 +0000
Subject: [PATCH 13/56] fix: merging moved text without tokens into another
 transaction's text

---
 src/fiver.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fiver.cc b/src/fiver.cc
index fe97a08..cad6e7c 100644
--- a/src/fiver.cc
+++ b/src/fiver.cc
@@ -161,6 +161,10 @@ private:
     return true;
   };
   bool ready_(std::string *error) {
+    // Text without a token has no address. Kept, it would become part of
+    // another transaction's text once the two are merged.
+    if (address_ == first_address_)
+      text_->clear();
     if (text_->length() > 0 && text_->back() != '\n')
       *text_ += "\n";
     if (address_ > first_address_)
-- 
2.43.0


From c43b493cf7e53a6689acb1ae48160e21ce6c98b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:36 +0000
Subject: [PATCH 14/56] fix: a truncated UTF-8 sequence swallowed the
 characters after it

At the end of an appended text it swallowed the newline that completes the
text, so that the addresses of everything after it no longer matched.
---
 src/utf8_tokenizer.cc | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/utf8_tokenizer.cc b/src/utf8_tokenizer.cc
index 59ba36f..f09335d 100644
--- a/src/utf8_tokenizer.cc
+++ b/src/utf8_tokenizer.cc
@@ -189,6 +189,13 @@ bool set_fold_actions(const std::map<uint32_t, uint32_t> &foldings,
   return true;
 }
 
+inline bool continued(const uint8_t *s, const uint8_t *t) {
+  for (; s < t; s++)
+    if ((*s & 0xC0) != 0x80)
+      return false;
+  return true;
+}
+
 inline const uint8_t *unicode(const uint8_t *s, const uint8_t *e,
                               uint32_t *codepoint) {
   if ((s[0] & 0x80) == 0x00) {
@@ -201,6 +208,10 @@ inline const uint8_t *unicode(const uint8_t *s, const uint8_t *e,
       *codepoint = 0x20;
       return s + 1;
     }
+    if (!continued(s + 1, t)) {
+      *codepoint = 0x20;
+      return s + 1;
+    }
     *codepoint = (((uint32_t)(s[0] & 0x1F)) << 6) | ((uint32_t)(s[1] & 0x3F));
     return t;
   }
@@ -210,6 +221,10 @@ inline const uint8_t *unicode(const uint8_t *s, const uint8_t *e,
       *codepoint = 0x20;
       return s + 1;
     }
+    if (!continued(s + 1, t)) {
+      *codepoint = 0x20;
+      return s + 1;
+    }
     *codepoint = (((uint32_t)(s[0] & 0x0F)) << 12) |
                  (((uint32_t)(s[1] & 0x3F)) << 6) | ((uint32_t)(s[2] & 0x3F));
     return t;
@@ -220,6 +235,10 @@ inline const uint8_t *unicode(const uint8_t *s, const uint8_t *e,
       *codepoint = 0x20;
       return s + 1;
     }
+    if (!continued(s + 1, t)) {
+      *codepoint = 0x20;
+      return s + 1;
+    }
     *codepoint = (((uint32_t)(s[0] & 0x07)) << 18) |
                  (((uint32_t)(s[1] & 0x3F)) << 12) |
                  (((uint32_t)(s[2] & 0x3F)) << 6) | ((uint32_t)(s[3] & 0x3F));
-- 
2.43.0


From 5e8b39d98ebdc4e4f8f056ec6a8b60510b5d49fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:36 +0000
Subject: [PATCH 15/56] fix: splitting stopped at a NUL that tokenizing skips

---
 src/utf8_tokenizer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utf8_tokenizer.cc b/src/utf8_tokenizer.cc
index f09335d..7db3ac7 100644
--- a/src/utf8_tokenizer.cc
+++ b/src/utf8_tokenizer.cc
@@ -596,7 +596,7 @@ std::vector<std::string> Utf8Tokenizer::split_(const std::string &text) {
   const uint8_t *s = (const uint8_t *)text.c_str();
   const uint8_t *e = s + text.length();
   std::string token;
-  while (*s) {
+  while (s < e) {
     uint32_t codepoint;
     const uint8_t *t = unicode(s, e, &codepoint);
     uint8_t *action = actions_[codepoint];
-- 
2.43.0


From eaddbafd73cd36818fe3133e98ef6728c81ad679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:11 +0000
Subject: [PATCH 16/56] fix: of a transaction's equal annotations the latest
 value counts

The list factory keeps the first of equal intervals, so it is given the latest
first.
---
 src/fiver.cc            | 2 ++
 src/simple_annotator.cc | 2 ++
 src/simple_posting.cc   | 6 ++++--
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/fiver.cc b/src/fiver.cc
index cad6e7c..ffa3514 100644
--- a/src/fiver.cc
+++ b/src/fiver.cc
@@ -685,6 +685,8 @@ bool Fiver::ready_(std::string *error) {
       annotation.p -= relocate;
       annotation.q -= relocate;
     }
+  // Latest first, since the first of equal intervals counts.
+  std::reverse(annotations_->begin(), annotations_->end());
   std::stable_sort(annotations_->begin(), annotations_->end(),
             [](const Annotation &a, const Annotation &b) {
               return a.feature < b.feature ||
diff --git a/src/simple_annotator.cc b/src/simple_annotator.cc
index e327078..c895c2e 100644
--- a/src/simple_annotator.cc
+++ b/src/simple_annotator.cc
@@ -214,6 +214,8 @@ void SimpleAnnotator::maybe_flush_additions(bool force) {
                      std::unique_ptr<std::vector<Annotation>> added,
                      std::shared_ptr<SimplePostingFactory> posting_factory,
                      std::shared_ptr<bool> cannot_create_temp_files) {
+      // Latest first, since the first of equal intervals counts.
+      std::reverse(added->begin(), added->end());
       std::stable_sort(added->begin(), added->end(), annotation_cmp);
       std::fstream addf(add_filename, std::ios::binary | std::ios::out);
       if (addf.fail()) {
diff --git a/src/simple_posting.cc b/src/simple_posting.cc
index 0da9abe..7b75b4e 100644
--- a/src/simple_posting.cc
+++ b/src/simple_posting.cc
@@ -62,10 +62,12 @@ std::shared_ptr<SimplePosting> SimplePostingFactory::posting_from_annotations(
         posting->fostings_.push_back(stop->v);
       }
     } else if (stop->p <= stop->q) {
-      // Only innermost annotations are kept, each with its latest value.
+      // Only innermost annotations are kept; of equal ones the first counts.
       while (posting->postings_.size() > 0 &&
              stop->p >= posting->postings_.back() &&
-             stop->q <= posting->qostings_.back()) {
+             stop->q <= posting->qostings_.back() &&
+             (stop->p != posting->postings_.back() ||
+              stop->q != posting->qostings_.back())) {
         posting->postings_.pop_back();
         posting->qostings_.pop_back();
         posting->fostings_.pop_back();
-- 
2.43.0


From 79afda788c5938b24f76cc56985a4aeee6ae91b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:53 +0000
Subject: [PATCH 17/56] fix: aborting before ready removed another
 transaction's prepared shard

---
 src/fiver.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fiver.cc b/src/fiver.cc
index ffa3514..b61afc3 100644
--- a/src/fiver.cc
+++ b/src/fiver.cc
@@ -387,6 +387,7 @@ Fiver::make(std::shared_ptr<Working> working,
   if (fiver == nullptr)
     return nullptr;
   fiver->built_ = false;
+  fiver->sequence_start_ = fiver->sequence_end_ = -1;
   fiver->where_ = 0;
   std::shared_ptr<Compressor> null_compressor = nullptr;
   if (posting_compressor == nullptr || fvalue_compressor == nullptr ||
@@ -742,7 +743,8 @@ void Fiver::abort_() {
     index_->clear();
     where_ = 0;
     built_ = true;
-    discard();
+    if (sequence_start_ >= 0)
+      discard();
     name_ = "remove";
   }
 };
-- 
2.43.0


From 055f4b8a3c4b99fe2c0b200e6264e1258cbc8f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:20 +0000
Subject: [PATCH 18/56] fix: an annotation from earlier text into the
 transaction's own kept a staging address

---
 src/fiver.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fiver.cc b/src/fiver.cc
index b61afc3..f6fe39b 100644
--- a/src/fiver.cc
+++ b/src/fiver.cc
@@ -681,11 +681,12 @@ bool Fiver::ready_(std::string *error) {
     return false;
   index_->clear();
   addr relocate = staging - where_;
-  for (auto &annotation : (*annotations_))
-    if (annotation.p >= staging) {
+  for (auto &annotation : (*annotations_)) {
+    if (annotation.p >= staging)
       annotation.p -= relocate;
+    if (annotation.q >= staging)
       annotation.q -= relocate;
-    }
+  }
   // Latest first, since the first of equal intervals counts.
   std::reverse(annotations_->begin(), annotations_->end());
   std::stable_sort(annotations_->begin(), annotations_->end(),
-- 
2.43.0


From 80cb109d91b60ccfe543eddd8d12ed394cd62247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:47 +0000
Subject: [PATCH 19/56] fix: a static reader opened before or during a
 transaction could lose the last text chunk

---
 src/simple_txt.cc    |  1 +
 src/simple_txt_io.cc | 22 ++++++++++++++++++++--
 src/simple_txt_io.h  |  5 ++++-
 3 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/simple_txt.cc b/src/simple_txt.cc
index 5edb33f..2e632c1 100644
--- a/src/simple_txt.cc
+++ b/src/simple_txt.cc
@@ -117,6 +117,7 @@ std::shared_ptr<Txt> SimpleTxt::make(const std::string &recipe,
                         text_compressor, error);
   if (txt->io_ == nullptr)
     return nullptr;
+  txt->io_->hold_last_chunk();
   std::string txt_filename = working->make_name(TXT_NAME);
   if (!txt->load_map(txt_filename, error))
     return nullptr;
diff --git a/src/simple_txt_io.cc b/src/simple_txt_io.cc
index f9ff721..5a7c211 100644
--- a/src/simple_txt_io.cc
+++ b/src/simple_txt_io.cc
@@ -203,8 +203,14 @@ std::shared_ptr<SimpleTxtIO> SimpleTxtIO::clone(std::string *error) {
     return nullptr;
   }
   io->read_only_ = true;
-  io->last_chunk_ = read_limits(nameof_contents_, &(io->chunk_map_limit_),
-                                &(io->last_chunk_end_));
+  if (limited_) {
+    io->last_chunk_ = last_chunk_;
+    io->last_chunk_end_ = last_chunk_end_;
+    io->chunk_map_limit_ = chunk_map_limit_;
+  } else {
+    io->last_chunk_ = read_limits(nameof_contents_, &(io->chunk_map_limit_),
+                                  &(io->last_chunk_end_));
+  }
   io->limited_ = (io->last_chunk_ != nullptr);
   io->chunk_map_ = chunk_map_;
   io->size_ = size_;
@@ -240,6 +246,18 @@ void SimpleTxtIO::fetch_chunk(size_t chunk_index) {
 
 void SimpleTxtIO::fetch_last_chunk() { fetch_chunk(chunk_map_->size() - 1); }
 
+void SimpleTxtIO::hold_last_chunk() {
+  if (limited_ || transacting() || chunk_map_->size() == 0)
+    return;
+  fetch_last_chunk();
+  last_chunk_ = std::shared_ptr<char[]>(new char[chunk_end_ + 1]);
+  memcpy(last_chunk_.get(), chunk_.get(), chunk_end_);
+  last_chunk_end_ = chunk_end_;
+  chunk_map_limit_ = chunk_map_->size();
+  limited_ = true;
+  read_only_ = true;
+}
+
 void SimpleTxtIO::append_last_chunk(char *text, addr length) {
   assert(!limited_ && chunk_map_->size() > 0 && chunk_valid_ &&
          chunk_index_ == chunk_map_->size() - 1 &&
diff --git a/src/simple_txt_io.h b/src/simple_txt_io.h
index f0e76b8..91558e7 100644
--- a/src/simple_txt_io.h
+++ b/src/simple_txt_io.h
@@ -35,6 +35,9 @@ public:
   }
   std::unique_ptr<char[]> read(addr start, addr desired, addr *actual);
   addr size() { return size_; }
+  // The last chunk is rewritten in place by a transaction. A reader holding it
+  // keeps seeing the content as it was.
+  void hold_last_chunk();
   void dump(std::ostream &output = std::cout);
 
   virtual ~SimpleTxtIO() { flush(); }
@@ -78,7 +81,7 @@ private:
   bool limited_;
   addr chunk_map_limit_;
   addr last_chunk_end_;
-  std::unique_ptr<char[]> last_chunk_;
+  std::shared_ptr<char[]> last_chunk_;
 };
 } // namespace cottontail
 
-- 
2.43.0


From 433b4bbb30ce19cca6bceb8f1607c601419ed2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:47 +0000
Subject: [PATCH 20/56] fix: a static transaction was ready before its text
 index was written

---
 src/simple_appender.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/simple_appender.cc b/src/simple_appender.cc
index 6441a77..82bd074 100644
--- a/src/simple_appender.cc
+++ b/src/simple_appender.cc
@@ -312,6 +312,14 @@ bool SimpleAppender::transaction_(std::string *error) {
 bool SimpleAppender::ready_(std::string *error) {
   lock_.lock();
   bool result = !failed_ && adding_ && io_->ready(error);
+  if (result) {
+    // Recovery may have to publish it without us.
+    txt_.flush();
+    if (txt_.fail()) {
+      safe_error(error) = "SimpleAppender can't write to: " + txt_filename_;
+      result = false;
+    }
+  }
   if (!result && !failed_ && !adding_)
     safe_error(error) = "SimpleAppender not in transaction";
   else if (!result && failed_)
-- 
2.43.0


From de1bac57eb1f726bbe121c4a8bdbe46debbb7935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:47 +0000
Subject: [PATCH 21/56] fix: with a NUL in the text a static transaction reused
 committed addresses

---
 src/simple_appender.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simple_appender.cc b/src/simple_appender.cc
index 82bd074..35a469b 100644
--- a/src/simple_appender.cc
+++ b/src/simple_appender.cc
@@ -289,7 +289,7 @@ bool SimpleAppender::transaction_(std::string *error) {
       lock_.unlock();
       return false;
     }
-    std::string tail_string = tail.get();
+    std::string tail_string(tail.get(), actual);
     std::vector<std::string> tail_tokens = tokenizer_->split(tail_string);
     if (tail_tokens.size() == 0) {
       safe_error(error) =
-- 
2.43.0


From f69fa347d600d4379b6b531dcfe1f1751159db01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:53 +0000
Subject: [PATCH 22/56] fix: a feature with nothing left in a shard has an
 empty list when the shard is used on its own

---
 src/fiver.cc | 2 +-
 src/hazel.cc | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fiver.cc b/src/fiver.cc
index f6fe39b..7a786de 100644
--- a/src/fiver.cc
+++ b/src/fiver.cc
@@ -222,7 +222,7 @@ private:
   std::string recipe_() final { return ""; };
   std::unique_ptr<Hopper> hopper_(addr feature) final {
     auto posting = index_->find(feature);
-    if (posting == index_->end())
+    if (posting == index_->end() || posting->second->size() == 0)
       return std::make_unique<EmptyHopper>();
     else if (posting->second->size() == 1) {
       addr p, q;
diff --git a/src/hazel.cc b/src/hazel.cc
index 557acf9..fa3e839 100644
--- a/src/hazel.cc
+++ b/src/hazel.cc
@@ -298,6 +298,8 @@ private:
       assert(false);
       return std::make_unique<EmptyHopper>();
     }
+    if (directory_[index].count_or_p == 0)
+      return std::make_unique<EmptyHopper>();
     bool created;
     std::shared_ptr<SimplePosting> entry =
         cache_.get(directory_[index].feature, posting_factory_, &created);
-- 
2.43.0


From 4c6b8f38af99d967912f9dfa3073aa8b51268306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:47 +0000
Subject: [PATCH 23/56] fix: an archive opened on its own showed annotations
 its own transaction had erased

---
 src/fiver.cc | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/fiver.cc b/src/fiver.cc
index 7a786de..20440aa 100644
--- a/src/fiver.cc
+++ b/src/fiver.cc
@@ -1234,6 +1234,27 @@ bool Fiver::hazel(const std::string &filename, std::string *error,
                 fvalue_compressor_, text_compressor_, sequence_start_,
                 sequence_end_, text_chunk_size, parameters);
 
+  // On its own, an archive answers from its lists alone.
+  std::shared_ptr<std::map<addr, std::shared_ptr<SimplePosting>>> index =
+      index_;
+  auto erased = index_->find(null_feature);
+  if (erased != index_->end() && erased->second->size() > 0) {
+    addr chunk_feature = featurizer_->featurize(text_chunk_tag);
+    std::shared_ptr<SimplePostingFactory> posting_factory =
+        SimplePostingFactory::make(posting_compressor_, fvalue_compressor_);
+    index = std::make_shared<std::map<addr, std::shared_ptr<SimplePosting>>>();
+    for (auto &i : *index_) {
+      if (i.first == null_feature || i.first == chunk_feature) {
+        (*index)[i.first] = i.second;
+        continue;
+      }
+      std::shared_ptr<SimplePosting> posting =
+          posting_factory->posting_from_merge({i.second}, erased->second);
+      if (posting != nullptr)
+        (*index)[i.first] = posting;
+    }
+  }
+
   std::vector<HazelBlob> blobs = {{"idx", 0, 0}, {"txt", 0, 0}};
   const std::string file_header = cottontail_file_magic;
   std::string dictionary = hazel_blob_dictionary(blobs);
@@ -1249,7 +1270,7 @@ bool Fiver::hazel(const std::string &filename, std::string *error,
   out.put('\n');
   addr dictionary_offset = hazel_tellp(&out);
   out.write(dictionary.data(), dictionary.size());
-  if (!hazel_write_idx_blob(&out, *index_, &blobs[0].offset, &blobs[0].length,
+  if (!hazel_write_idx_blob(&out, *index, &blobs[0].offset, &blobs[0].length,
                             error)) {
     out.close();
     return false;
-- 
2.43.0


From b85720af08260b5fae3e6c4592e39326bb1a03e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:21 +0000
Subject: [PATCH 24/56] fix: a number out of range in a JSON document ended the
 process

---
 src/json.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/json.cc b/src/json.cc
index 63242b5..20cb983 100644
--- a/src/json.cc
+++ b/src/json.cc
@@ -174,7 +174,7 @@ bool json_scribe(const std::string &s, std::shared_ptr<Scribe> scribe, addr *p,
       j = json::parse(sanitize(s));
     else
       j = json::parse(s);
-  } catch (json::parse_error &e) {
+  } catch (json::exception &e) { // a number can be out of range
     safe_error(error) = "Cannot parse json: " + std::string(e.what());
     return false;
   }
-- 
2.43.0


From 9e7b3beb98aec549c8742fa23e729a5ae4d1d7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:43 +0000
Subject: [PATCH 25/56] fix: noncharacters given as escapes in a JSON document
 were taken for its structure, and U+FDF0 to U+FDFF were lost

---
 src/json.cc | 71 +++++++++++++++++++----------------------------------
 1 file changed, 25 insertions(+), 46 deletions(-)

diff --git a/src/json.cc b/src/json.cc
index 20cb983..3bb4a07 100644
--- a/src/json.cc
+++ b/src/json.cc
@@ -13,6 +13,25 @@
 namespace cottontail {
 
 namespace {
+inline bool noncharacter_next(const std::string &s, size_t i) {
+  return i + 2 < s.size() && s[i] == '\xEF' && s[i + 1] == '\xB7' &&
+         s[i + 2] >= '\x90' && s[i + 2] <= '\xAF';
+}
+
+std::string sanitize(const std::string &s) {
+  std::string t;
+  for (size_t i = 0; i < s.size(); i++)
+    if (noncharacter_next(s, i)) {
+      t += '\xEF'; // Unicode replacement character
+      t += '\xBF';
+      t += '\xBD';
+      i += 2;
+    } else {
+      t += s[i];
+    }
+  return t;
+}
+
 bool do_json(json &j, std::shared_ptr<Scribe> scribe, const std::string &path,
              addr *p, addr *q, std::string *error);
 
@@ -52,7 +71,7 @@ bool do_number(json &j, std::shared_ptr<Scribe> scribe, const std::string &path,
 
 bool do_string(json &j, std::shared_ptr<Scribe> scribe, const std::string &path,
                addr *p, addr *q, std::string *error) {
-  std::string s = open_string_token + (std::string)j + close_string_token;
+  std::string s = open_string_token + sanitize(j) + close_string_token;
   if (!scribe->appender()->append(s, p, q, error))
     return false;
   return scribe->annotator()->annotate(scribe->featurizer()->featurize(path),
@@ -91,14 +110,15 @@ bool do_object(json &j, std::shared_ptr<Scribe> scribe, const std::string &path,
       if (!scribe->appender()->append(comma_token, &p0, &q0, error))
         return false;
     }
+    std::string name = sanitize(it.key());
     std::string key =
-        open_string_token + it.key() + close_string_token + colon_token;
+        open_string_token + name + close_string_token + colon_token;
     if (!scribe->appender()->append(key, &p0, &q0, error))
       return false;
-    if (!do_json(it.value(), scribe, path + it.key() + ":", &p0, &q0, error))
+    if (!do_json(it.value(), scribe, path + name + ":", &p0, &q0, error))
       return false;
     if (!scribe->annotator()->annotate(
-            scribe->featurizer()->featurize(it.key() + ":"), p0, q0, 0.0,
+            scribe->featurizer()->featurize(name + ":"), p0, q0, 0.0,
             error))
       return false;
   }
@@ -125,44 +145,6 @@ bool do_json(json &j, std::shared_ptr<Scribe> scribe, const std::string &path,
   safe_error(error) = "Unknown JSON data type.";
   return false;
 }
-
-bool contains_utf8_noncharacters(const std::string &s) {
-  int state = 0;
-  for (const char *c = s.c_str(); *c; c++)
-    if (state == 0) {
-      if (*c == '\xEF')
-        state = 1;
-    } else if (state == 1) {
-      if (*c == '\xB7')
-        state = 2;
-      else
-        state = 0;
-    } else if (*c >= '\x90' || *c <= '\xAF') {
-      return true;
-    } else {
-      state = 0;
-    }
-  return false;
-}
-
-inline bool noncharacter_next(const char *c) {
-  return c[0] && c[0] == '\xEF' && c[1] && c[1] == '\xB7' && c[2] &&
-         (c[2] >= '\x90' || c[2] >= '\xAF');
-}
-
-std::string sanitize(const std::string &s) {
-  std::string t;
-  for (const char *c = s.c_str(); *c; c++)
-    if (noncharacter_next(c)) {
-      t += '\xEF'; // Unicode replacement character
-      t += '\xBF';
-      t += '\xBD';
-      c += 2;
-    } else {
-      t += *c;
-    }
-  return t;
-}
 } // namespace
 
 bool json_scribe(const std::string &s, std::shared_ptr<Scribe> scribe, addr *p,
@@ -170,10 +152,7 @@ bool json_scribe(const std::string &s, std::shared_ptr<Scribe> scribe, addr *p,
   assert(scribe != nullptr);
   json j;
   try {
-    if (contains_utf8_noncharacters(s))
-      j = json::parse(sanitize(s));
-    else
-      j = json::parse(s);
+    j = json::parse(s);
   } catch (json::exception &e) { // a number can be out of range
     safe_error(error) = "Cannot parse json: " + std::string(e.what());
     return false;
-- 
2.43.0


From 4e8379f3e2b1fbd4b5cfdb55eb23f173724dd630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:43 +0000
Subject: [PATCH 26/56] fix: words such as U+FDFA could not be searched for in
 JSON strings

---
 src/json.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/json.h b/src/json.h
index c9ad2f0..9f992a9 100644
--- a/src/json.h
+++ b/src/json.h
@@ -21,7 +21,7 @@ const std::string open_number_token = "\xEF\xB7\x98";
 const std::string close_number_token = "\xEF\xB7\x99";
 inline bool json_internal_token(const char *token, addr length) {
   return length == 3 && token[0] == '\xEF' && token[1] == '\xB7' &&
-         (token[2] >= '\x90' || token[2] >= '\x99');
+         (token[2] >= '\x90' && token[2] <= '\x99');
 }
 
 bool json_scribe(const std::string &s, std::shared_ptr<Scribe> scribe,
-- 
2.43.0


From db196a7eaa1132d447c7290bce74911e6afdbd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:43 +0000
Subject: [PATCH 27/56] fix: small and large numbers in JSON documents were
 stored inexactly

---
 src/json.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/json.cc b/src/json.cc
index 3bb4a07..786aefa 100644
--- a/src/json.cc
+++ b/src/json.cc
@@ -1,6 +1,7 @@
 #include "src/json.h"
 
 #include <cassert>
+#include <cmath>
 #include <iomanip>
 #include <memory>
 #include <sstream>
@@ -62,7 +63,11 @@ bool do_boolean(json &j, std::shared_ptr<Scribe> scribe,
 bool do_number(json &j, std::shared_ptr<Scribe> scribe, const std::string &path,
                addr *p, addr *q, std::string *error) {
   fval v = j;
-  std::string s = open_number_token + std::to_string(v) + close_number_token;
+  std::string number = std::to_string(v);
+  if (json::parse(number).get<fval>() != v ||
+      (j.is_number_integer() && std::abs(v) >= 9007199254740992.0))
+    number = j.dump(); // exactly
+  std::string s = open_number_token + number + close_number_token;
   if (!scribe->appender()->append(s, p, q, error))
     return false;
   return scribe->annotator()->annotate(scribe->featurizer()->featurize(path),
-- 
2.43.0


From a56d7c9cb4d32cf91f929a7401a0d7551d15c619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:04 +0000
Subject: [PATCH 28/56] fix: JSON strings with control characters were not
 translated back to JSON

---
 src/json.cc | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/json.cc b/src/json.cc
index 786aefa..17ff615 100644
--- a/src/json.cc
+++ b/src/json.cc
@@ -179,6 +179,27 @@ inline bool is_next(const char *c, const std::string token) {
   return c[0] && c[0] == t[0] && c[1] && c[1] == t[1] && c[2] && c[2] == t[2];
 }
 
+std::string escaped(unsigned char c) {
+  switch (c) {
+  case '"':
+    return "\\\"";
+  case '\\':
+    return "\\\\";
+  case '\n':
+    return "\\n";
+  case '\r':
+    return "\\r";
+  case '\t':
+    return "\\t";
+  }
+  if (c >= 0x20)
+    return std::string(1, c);
+  std::ostringstream o;
+  o << "\\u" << std::hex << std::setw(4) << std::setfill('0')
+    << static_cast<int>(c);
+  return o.str();
+}
+
 inline const char *skip(const char *c) {
   return c + (noncharacter_token_length - 1);
 }
@@ -189,7 +210,7 @@ std::string json_translate(const std::string &s) {
   bool inside = false;
   bool pending_space = false;
   std::string t;
-  for (const char *c = s.c_str(); *c; c++) {
+  for (const char *c = s.c_str(); c < s.c_str() + s.size(); c++) {
     if (*c != ' ' && *c != '\n' && pending_space) {
       pending_space = false;
       t += ' ';
@@ -223,15 +244,10 @@ std::string json_translate(const std::string &s) {
     } else if (is_next(c, open_number_token) ||
                is_next(c, close_number_token)) {
       c = skip(c);
+    } else if (inside) {
+      t += escaped(*c);
     } else if (*c == '\n') {
       pending_space = true;
-    } else if (inside) {
-      if (*c == '"')
-        t += "\\\"";
-      else if (*c == '\\')
-        t += "\\\\";
-      else
-        t += *c;
     } else {
       t += *c;
     }
-- 
2.43.0


From 7bfc1ec94ef40b407fca805df84d8d9f39d294f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:18 +0000
Subject: [PATCH 29/56] fix: a key that is empty, or starts with a colon, hid
 whole JSON documents

---
 src/json.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/json.cc b/src/json.cc
index 17ff615..a495c9f 100644
--- a/src/json.cc
+++ b/src/json.cc
@@ -122,6 +122,9 @@ bool do_object(json &j, std::shared_ptr<Scribe> scribe, const std::string &path,
       return false;
     if (!do_json(it.value(), scribe, path + name + ":", &p0, &q0, error))
       return false;
+    // these would be mistaken for (or hide) the path of some other value
+    if (name == "" || name[0] == ':')
+      continue;
     if (!scribe->annotator()->annotate(
             scribe->featurizer()->featurize(name + ":"), p0, q0, 0.0,
             error))
-- 
2.43.0


From 8d95dea639d9737340a88c8d4efe081fcd26fe8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:18 +0000
Subject: [PATCH 30/56] fix: clones of a dynamic burrow that translates JSON
 did not translate it

---
 src/bigwig.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bigwig.cc b/src/bigwig.cc
index 2ec1ca1..d92b340 100644
--- a/src/bigwig.cc
+++ b/src/bigwig.cc
@@ -677,6 +677,7 @@ std::shared_ptr<Warren> Bigwig::clone_(std::string *error) {
   bigwig->posting_factory_ = posting_factory_;
   bigwig->text_compressor_ = text_compressor_;
   bigwig->default_container_ = default_container_;
+  bigwig->txt_recipe_ = txt_recipe_;
   if (stemmer_ != nullptr) {
     std::shared_ptr<cottontail::Stemmer> the_stemmer =
         cottontail::Stemmer::make(stemmer_->name(), stemmer_->recipe(), error);
-- 
2.43.0


From 087906711f717c6ed089c328079447a83d1a97e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:14 +0000
Subject: [PATCH 31/56] fix: what followed a NUL in a JSON document was dropped
 without an error

---
 src/json.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/json.cc b/src/json.cc
index a495c9f..8172147 100644
--- a/src/json.cc
+++ b/src/json.cc
@@ -158,6 +158,10 @@ bool do_json(json &j, std::shared_ptr<Scribe> scribe, const std::string &path,
 bool json_scribe(const std::string &s, std::shared_ptr<Scribe> scribe, addr *p,
                  addr *q, std::string *error) {
   assert(scribe != nullptr);
+  if (s.find('\0') != std::string::npos) { // the parser would stop there
+    safe_error(error) = "Cannot parse json: it contains a NUL";
+    return false;
+  }
   json j;
   try {
     j = json::parse(s);
-- 
2.43.0


From dd14835a40a6660bebf50af783017e9efdfd2353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:02 +0000
Subject: [PATCH 32/56] fix: a file was reported as appended when only one
 whose path goes on after a blank was

---
 meadowlark/meadowlark.cc | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/meadowlark/meadowlark.cc b/meadowlark/meadowlark.cc
index 01e60fa..897d454 100644
--- a/meadowlark/meadowlark.cc
+++ b/meadowlark/meadowlark.cc
@@ -2,7 +2,6 @@
 
 #include <atomic>
 #include <cassert>
-#include <cctype>
 #include <iostream>
 #include <map>
 #include <memory>
@@ -85,21 +84,10 @@ std::string gcl_string(const std::string &s) {
   return quoted;
 }
 
+// What append_path stored, which was completed by a newline if need be.
 bool path_match(const std::string &text, const std::string &path) {
-  size_t start = 0;
-  while (start < text.size() &&
-         std::isspace(static_cast<unsigned char>(text[start])))
-    start++;
-  if (text.compare(start, path.size(), path) != 0)
-    return false;
-  size_t end = start + path.size();
-  if (end < text.size() &&
-      !std::isspace(static_cast<unsigned char>(text[end])))
-    return false;
-  while (end < text.size() &&
-         std::isspace(static_cast<unsigned char>(text[end])))
-    end++;
-  return true;
+  return text == path ||
+         (path != "" && !separator(path.back()) && text == path + "\n");
 }
 
 bool append_path(std::shared_ptr<Appender> appender,
-- 
2.43.0


From 2fdcc4145a530c55523ae9060207131892456b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:32 +0000
Subject: [PATCH 33/56] fix: an input file that could not be read to its end
 was taken as complete

---
 src/builder.cc | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/builder.cc b/src/builder.cc
index 859cc16..0adc295 100644
--- a/src/builder.cc
+++ b/src/builder.cc
@@ -4,6 +4,7 @@
 #include <cassert>
 #include <cstdio>
 #include <exception>
+#include <ios>
 #include <iostream>
 #include <istream>
 #include <memory>
@@ -12,6 +13,8 @@
 #include <string>
 #include <vector>
 
+#include <sys/wait.h>
+
 #include "src/core.h"
 
 namespace cottontail {
@@ -71,21 +74,25 @@ protected:
     if (file_ == nullptr)
       return traits_type::eof();
     size_t count = fread(buffer_.data(), 1, buffer_.size(), file_);
-    if (count == 0)
+    if (count == 0) {
+      if (ferror(file_) || !close())
+        throw std::ios_base::failure("incomplete input"); // sets badbit
       return traits_type::eof();
+    }
     setg(buffer_.data(), buffer_.data(), buffer_.data() + count);
     return traits_type::to_int_type(*gptr());
   }
 
 private:
-  void close() {
+  bool close() {
     if (file_ == nullptr)
-      return;
-    if (pipe_)
-      pclose(file_);
-    else
-      fclose(file_);
+      return true;
+    int status = pipe_ ? pclose(file_) : fclose(file_);
     file_ = nullptr;
+    // zcat exits with 2 when it only has a warning to give
+    return !pipe_ || status == -1 ||
+           (WIFEXITED(status) &&
+            (WEXITSTATUS(status) == 0 || WEXITSTATUS(status) == 2));
   }
 
   FILE *file_;
-- 
2.43.0


From aaf8103a5a45de8073054f6fd5c37664d830274a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:32 +0000
Subject: [PATCH 34/56] fix: scribe_jsonl dropped a last line without a newline

---
 src/scribe.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/scribe.cc b/src/scribe.cc
index ae8ebf6..b04887f 100644
--- a/src/scribe.cc
+++ b/src/scribe.cc
@@ -1,5 +1,6 @@
 #include "src/scribe.h"
 
+#include <algorithm>
 #include <iostream>
 #include <memory>
 #include <string>
@@ -330,8 +331,8 @@ bool scribe_jsonl(const std::vector<std::string> &filenames,
     std::string::size_type pos;
     std::string::size_type prev;
     std::string newline = "\n";
-    for (prev = 0; (pos = everything->find(newline, prev)) != std::string::npos;
-         prev = pos + 1) {
+    for (prev = 0; prev < everything->size(); prev = pos + 1) {
+      pos = std::min(everything->find(newline, prev), everything->size());
       addr p0, q0;
       if (!json_scribe(everything->substr(prev, pos - prev), scribe, &p0,
                        &q0)) {
-- 
2.43.0


From e93237ba7f52e2e3a291e8068af0985c9c5f6b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:32 +0000
Subject: [PATCH 35/56] fix: a file given twice to the meadowlark program was
 appended twice

---
 apps/meadowlark.cc | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/apps/meadowlark.cc b/apps/meadowlark.cc
index ab2e2a0..38e11a3 100644
--- a/apps/meadowlark.cc
+++ b/apps/meadowlark.cc
@@ -99,19 +99,15 @@ int main(int argc, char **argv) {
     usage(program_name);
     return 1;
   }
-  if (!inputs.empty()) {
+  for (auto &input : inputs) {
     warren->start();
-    for (auto &input : inputs) {
-      if (!cottontail::meadowlark::already_appended(
-              warren, input.filename, &input.already_appended, &error)) {
-        warren->end();
-        std::cerr << program_name << ": " << error << "\n";
-        return 1;
-      }
-    }
+    bool checked = cottontail::meadowlark::already_appended(
+        warren, input.filename, &input.already_appended, &error);
     warren->end();
-  }
-  for (auto &input : inputs) {
+    if (!checked) {
+      std::cerr << program_name << ": " << error << "\n";
+      return 1;
+    }
     if (input.already_appended) {
       std::cerr << "Skipping existing file " << input.filename << "\n"
                 << std::flush;
-- 
2.43.0


From 2abb3c281228112d25ec53adf1a40a567984a4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:32 +0000
Subject: [PATCH 36/56] fix: opening a meadow that cannot be opened
 dereferenced a null pointer

---
 meadowlark/meadowlark.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/meadowlark/meadowlark.cc b/meadowlark/meadowlark.cc
index 897d454..6889bb2 100644
--- a/meadowlark/meadowlark.cc
+++ b/meadowlark/meadowlark.cc
@@ -51,6 +51,8 @@ std::shared_ptr<Warren> create_meadow(std::string *error) {
 std::shared_ptr<Warren> open_meadow(const std::string &meadow,
                                     std::string *error) {
   std::shared_ptr<Warren> warren = Warren::make(meadow, error);
+  if (warren == nullptr)
+    return nullptr;
   warren->start();
   if (is_meadow(warren, error)) {
     warren->end();
-- 
2.43.0


From 878966d9b32a1bbe262a5b6ad895a1e697dced74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:32 +0000
Subject: [PATCH 37/56] fix: the path of a TSV file was committed apart from
 its records

---
 meadowlark/meadowlark.cc | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/meadowlark/meadowlark.cc b/meadowlark/meadowlark.cc
index 6889bb2..3af75a3 100644
--- a/meadowlark/meadowlark.cc
+++ b/meadowlark/meadowlark.cc
@@ -300,9 +300,10 @@ bool append_tsv(std::shared_ptr<Warren> warren, const std::string &filename,
   addr path_feature;
   if (!append_path_warren(warren, filename, &path_feature, error))
     return false;
-  warren->commit();
-  if (lines.size() == 0)
+  if (lines.size() == 0) {
+    warren->commit();
     return true;
+  }
   threads = thread_count(threads, lines.size());
   std::string wsep = separator;
   if (wsep == "")
@@ -315,6 +316,7 @@ bool append_tsv(std::shared_ptr<Warren> warren, const std::string &filename,
         c->abort();
         c->end();
       }
+      warren->abort();
       return false;
     }
     clone->start();
@@ -324,6 +326,7 @@ bool append_tsv(std::shared_ptr<Warren> warren, const std::string &filename,
         c->abort();
         c->end();
       }
+      warren->abort();
       return false;
     }
     clones.push_back(clone);
@@ -399,12 +402,14 @@ bool append_tsv(std::shared_ptr<Warren> warren, const std::string &filename,
       c->abort();
       c->end();
     }
+    warren->abort();
     return false;
   }
-  for (auto &c : clones) {
-    c->commit();
+  std::vector<std::shared_ptr<cottontail::Warren>> warrens = clones;
+  warrens.push_back(warren);
+  Warren::commit_all(warrens);
+  for (auto &c : clones)
     c->end();
-  }
   return true;
 }
 
-- 
2.43.0


From f0d5f1b3281554df75656d218ba75c1027763d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:27 +0000
Subject: [PATCH 38/56] fix: a TSV record ending in fields without tokens took
 in the next record's first token

---
 meadowlark/meadowlark.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/meadowlark/meadowlark.cc b/meadowlark/meadowlark.cc
index 3af75a3..f3a1a1b 100644
--- a/meadowlark/meadowlark.cc
+++ b/meadowlark/meadowlark.cc
@@ -369,8 +369,10 @@ bool append_tsv(std::shared_ptr<Warren> warren, const std::string &filename,
           }
           return;
         }
-        p0 = std::min(p0, p1);
-        q0 = std::max(q0, q1);
+        if (p1 <= q1) { // a field may be without tokens
+          p0 = std::min(p0, p1);
+          q0 = std::max(q0, q1);
+        }
       }
       if (p0 <= q0 &&
           !twarren->annotator()->annotate(record_feature, p0, q0, &terror)) {
-- 
2.43.0


From 16809db9dc915c366bd41555f1171e615e648a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:13 +0000
Subject: [PATCH 39/56] fix: a file whose name ends in a blank was not reported
 as appended (since dd14835)

---
 meadowlark/meadowlark.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/meadowlark/meadowlark.cc b/meadowlark/meadowlark.cc
index f3a1a1b..d86fc6f 100644
--- a/meadowlark/meadowlark.cc
+++ b/meadowlark/meadowlark.cc
@@ -86,10 +86,9 @@ std::string gcl_string(const std::string &s) {
   return quoted;
 }
 
-// What append_path stored, which was completed by a newline if need be.
+// What append_path stored: the text of a transaction ends in a newline.
 bool path_match(const std::string &text, const std::string &path) {
-  return text == path ||
-         (path != "" && !separator(path.back()) && text == path + "\n");
+  return text == path || text == path + "\n";
 }
 
 bool append_path(std::shared_ptr<Appender> appender,
-- 
2.43.0


From 609694c1996512ea39a353a17f0e8e2209ae4b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:03 +0000
Subject: [PATCH 40/56] fix: foraging with a stemmer or tokenizer that does not
 exist dereferenced a null pointer

---
 meadowlark/meadowlark.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meadowlark/meadowlark.cc b/meadowlark/meadowlark.cc
index d86fc6f..77a61e1 100644
--- a/meadowlark/meadowlark.cc
+++ b/meadowlark/meadowlark.cc
@@ -448,7 +448,7 @@ bool forage(std::shared_ptr<Warren> warren,
     twarren->start();
     std::shared_ptr<Forager> forager =
         Forager::make(twarren, name, tag, params, &terror);
-    if (!forager->transaction(&terror)) {
+    if (forager == nullptr || !forager->transaction(&terror)) {
       std::lock_guard<std::mutex> _(sync);
       twarren->end();
       if (!failed) {
-- 
2.43.0


From d18036400be2585d643e7d9e94bd27ebeb3cc7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:04 +0000
Subject: [PATCH 41/56] fix: statistics foraged without naming the forager
 could not be found

---
 meadowlark/forager.cc | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/meadowlark/forager.cc b/meadowlark/forager.cc
index 371af00..07e7030 100644
--- a/meadowlark/forager.cc
+++ b/meadowlark/forager.cc
@@ -16,14 +16,17 @@
 namespace cottontail {
 namespace meadowlark {
 
+namespace {
+// The forager meant where none is named.
+std::string forager_name(const std::string &name) {
+  return name == "" ? "tf-idf" : name;
+}
+} // namespace
+
 std::string forager_label(const std::string &name, const std::string &tag) {
-  std::string combined_tag;
-  if (name != "")
-    combined_tag = name + ":";
+  std::string combined_tag = forager_name(name) + ":";
   if (tag != "")
     combined_tag += tag + ":";
-  if (combined_tag == "")
-    combined_tag = "tf-idf:";
   return combined_tag;
 }
 
@@ -41,7 +44,7 @@ Forager::make(std::shared_ptr<Warren> warren, const std::string &name,
   else
     safe_error(error) = "No Forager named: " + name;
   if (forager != nullptr) {
-    forager->name_ = name;
+    forager->name_ = forager_name(name);
     forager->tag_ = tag;
     forager->parameters_ = parameters;
     forager->warren_ = warren;
-- 
2.43.0


From 9f388fa2ee349469d920f2ce10a48eb07c1eff63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:48 +0000
Subject: [PATCH 42/56] fix: a forager used for a second transaction counted
 the first one's items again, and an empty one could not be committed

---
 meadowlark/forager.h         | 5 ++++-
 meadowlark/tf-idf_forager.cc | 9 ++++++++-
 meadowlark/tf-idf_forager.h  | 1 +
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/meadowlark/forager.h b/meadowlark/forager.h
index 035650b..bea2ee5 100644
--- a/meadowlark/forager.h
+++ b/meadowlark/forager.h
@@ -78,9 +78,12 @@ protected:
   std::string name_, tag_;
   std::map<std::string, std::string> parameters_;
   std::shared_ptr<Warren> warren_;
+  bool transaction_(std::string *error) override {
+    return warren_->transaction(error);
+  };
+
 private:
   virtual bool forage_(addr p, addr q, std::string *error) = 0;
-  bool transaction_(std::string *error) { return warren_->transaction(error); };
   bool ready_(std::string *error) { return warren_->ready(error); };
   void commit_() { return warren_->commit(); }
   void abort_() { return warren_->abort(); }
diff --git a/meadowlark/tf-idf_forager.cc b/meadowlark/tf-idf_forager.cc
index 2d64a2f..517cafd 100644
--- a/meadowlark/tf-idf_forager.cc
+++ b/meadowlark/tf-idf_forager.cc
@@ -97,9 +97,16 @@ bool TfIdfForager::forage_(addr p, addr q, std::string *error) {
   return true;
 }
 
+bool TfIdfForager::transaction_(std::string *error) {
+  p_min_ = maxfinity;
+  total_items_ = total_length_ = 0;
+  df_.clear();
+  return Forager::transaction_(error);
+}
+
 bool TfIdfForager::ready_(std::string *error) {
   if (p_min_ == maxfinity)
-    return true;
+    return warren_->ready(error);
   for (auto &feature : df_)
     if (!warren_->annotator()->annotate(feature.first, p_min_, p_min_,
                                         feature.second, error))
diff --git a/meadowlark/tf-idf_forager.h b/meadowlark/tf-idf_forager.h
index 14a11a7..ed7ea7c 100644
--- a/meadowlark/tf-idf_forager.h
+++ b/meadowlark/tf-idf_forager.h
@@ -33,6 +33,7 @@ public:
 private:
   TfIdfForager(){};
   bool forage_(addr p, addr q, std::string *error) final;
+  bool transaction_(std::string *error) final;
   bool ready_(std::string *error) final;
   std::string tag_;
   addr p_min_ = maxfinity;
-- 
2.43.0


From a7f14684c88d6d53424c1f5f92704d1a6be90874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:59 +0000
Subject: [PATCH 43/56] fix: a parameter with a quotation mark, a backslash or
 a line end could not be read back, and its burrow not be opened again

---
 src/recipe.cc | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/recipe.cc b/src/recipe.cc
index 7373b6f..076b7d2 100644
--- a/src/recipe.cc
+++ b/src/recipe.cc
@@ -20,6 +20,10 @@ const char *munch_string(const char *s, char quote, std::string *return_value) {
   for (; *s != quote && *s != '\0'; s++) {
     if (*s == '\\') {
       s++;
+      if (*s == 'n') {
+        working_value += '\n';
+        continue;
+      }
       if (*s != '\\' && *s != quote)
         return s;
     }
@@ -46,8 +50,8 @@ const char *munch_map(const char *s, std::string *return_value) {
       working_value += quote;
       for (; *s != quote && *s != '\0'; s++) {
         if (*s == '\\') {
-          s++;
-          if (*s != '\\' && *s != quote)
+          working_value += *s++;
+          if (*s != '\\' && *s != quote && *s != 'n')
             return s;
         }
         working_value += *s;
@@ -127,6 +131,20 @@ const char *parse(const char *s,
   return (char *)0;
 }
 
+void dump_string(std::ostream *out, const std::string &value) {
+  *out << '"';
+  for (char c : value) {
+    if (c == '\n') {
+      *out << "\\n";
+    } else {
+      if (c == '\\' || c == '"')
+        *out << '\\';
+      *out << c;
+    }
+  }
+  *out << '"';
+}
+
 void dump(std::ostream *out,
           const std::map<std::string, std::string> &parameters, size_t depth);
 
@@ -135,7 +153,7 @@ void dump(std::ostream *out, std::string value, size_t depth) {
   if (cook(value, &parameters))
     dump(out, parameters, depth);
   else
-    *out << '"' << value << '"';
+    dump_string(out, value);
   *out << ',';
 }
 
-- 
2.43.0


From d0293958a2b11595ee2a1cb31ec9af74f59acc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:59 +0000
Subject: [PATCH 44/56] fix: a parameter whose name cannot be expressed in a
 recipe left a burrow that could not be opened

---
 src/dna.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/dna.cc b/src/dna.cc
index cf3e888..886265d 100644
--- a/src/dna.cc
+++ b/src/dna.cc
@@ -91,7 +91,13 @@ bool set_parameter_in_dna(std::shared_ptr<Working> working,
   if (it != dna_parameters.end() && !cook(it->second, &parameters, error))
     return false;
   parameters[key] = value;
-  dna_parameters["parameters"] = freeze(parameters);
+  std::string recipe = freeze(parameters);
+  std::map<std::string, std::string> thawed;
+  if (!cook(recipe, &thawed) || freeze(thawed) != recipe) {
+    safe_error(error) = "Can't express parameter: " + key;
+    return false;
+  }
+  dna_parameters["parameters"] = recipe;
   dna = freeze(dna_parameters);
   if (!write_dna(working, dna, error))
     return false;
-- 
2.43.0


From 6f9c5d6c9b6073dcdc42cbdf5c642338ae5521c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:59 +0000
Subject: [PATCH 45/56] fix: malformed and unknown options were read out of
 bounds instead of being refused

---
 src/recipe.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/recipe.cc b/src/recipe.cc
index 076b7d2..00ae002 100644
--- a/src/recipe.cc
+++ b/src/recipe.cc
@@ -259,6 +259,7 @@ bool interpret_option(std::string *recipe, const std::string &option,
       std::sregex_token_iterator(option.begin(), option.end(), sep, -1), {}};
   if (pieces.size() < 2 || pieces.size() > 3) {
     safe_error(error) = "Malformed option: " + option;
+    return false;
   }
   std::map<std::string, std::string>::iterator item =
       parameters.find(pieces[0]);
@@ -279,7 +280,7 @@ bool interpret_option(std::string *recipe, const std::string &option,
   } else {
     std::map<std::string, std::string>::iterator item_recipe =
         item_parameters.find("recipe");
-    if (item_recipe == parameters.end()) {
+    if (item_recipe == item_parameters.end()) {
       safe_error(error) = "Option parameters not found for: " + pieces[0];
       return false;
     }
@@ -319,6 +320,7 @@ bool extract_option(const std::string &recipe, const std::string &option,
       std::sregex_token_iterator(option.begin(), option.end(), sep, -1), {}};
   if (pieces.size() < 1 || pieces.size() > 3) {
     safe_error(error) = "Malformed option: " + option;
+    return false;
   }
   std::map<std::string, std::string>::iterator item =
       parameters.find(pieces[0]);
@@ -333,13 +335,13 @@ bool extract_option(const std::string &recipe, const std::string &option,
   }
   std::map<std::string, std::string>::iterator item_name =
       item_parameters.find("name");
-  if (item_name == parameters.end()) {
+  if (item_name == item_parameters.end()) {
     safe_error(error) = "Option setting not found for: " + pieces[0];
     return false;
   }
   std::map<std::string, std::string>::iterator item_recipe =
       item_parameters.find("recipe");
-  if (item_recipe == parameters.end()) {
+  if (item_recipe == item_parameters.end()) {
     safe_error(error) = "Option parameters not found for: " + pieces[0];
     return false;
   }
@@ -355,6 +357,10 @@ bool extract_option(const std::string &recipe, const std::string &option,
     }
     std::map<std::string, std::string>::iterator item_recipe_item =
         item_recipe_parameters.find(pieces[1]);
+    if (item_recipe_item == item_recipe_parameters.end()) {
+      safe_error(error) = "No option: " + pieces[0] + ":" + pieces[1];
+      return false;
+    }
     *value = item_recipe_item->second;
   }
   return true;
-- 
2.43.0


From 7f92889ff6e2d7686986e790d874657aaf09e361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:13 +0000
Subject: [PATCH 46/56] fix: two threads setting parameters of a static burrow
 could lose one of them

---
 src/dna.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dna.cc b/src/dna.cc
index 886265d..034096d 100644
--- a/src/dna.cc
+++ b/src/dna.cc
@@ -2,6 +2,7 @@
 
 #include <fstream>
 #include <memory>
+#include <mutex>
 #include <string>
 #include <unistd.h>
 
@@ -79,6 +80,8 @@ bool get_parameter_from_dna(std::shared_ptr<Working> working,
 bool set_parameter_in_dna(std::shared_ptr<Working> working,
                           const std::string &key, const std::string &value,
                           std::string *error) {
+  static std::mutex updating;
+  std::lock_guard<std::mutex> _(updating);
   std::string dna;
   if (!read_dna(working, &dna, error))
     return false;
-- 
2.43.0


From 73d205a3aa6f5cbec6dcbb717bb999956bd103b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:29 +0000
Subject: [PATCH 47/56] fix: infix text that is refused no longer changes a
 definition

---
 gcl/mt.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/gcl/mt.cc b/gcl/mt.cc
index fd1db95..9ef108b 100644
--- a/gcl/mt.cc
+++ b/gcl/mt.cc
@@ -565,6 +565,12 @@ gcl_q parseQTerm(gcl_env *env, int topCall) {
           free(name);
           free(e);
           return GCL_SYNTAX_ERROR;
+        } else if (!look("")) {
+          gcl_freeQ(q);
+          free(name);
+          free(e);
+          gcl_syntaxError = std::string("Extra characters at the end.");
+          return GCL_SYNTAX_ERROR;
         } else {
           e->q = q;
           e->next = *env;
@@ -581,6 +587,11 @@ gcl_q parseQTerm(gcl_env *env, int topCall) {
         scan();
         if ((q = parseQ(env, 0)) == GCL_SYNTAX_ERROR)
           return GCL_SYNTAX_ERROR;
+        if (!look("")) {
+          gcl_freeQ(q);
+          gcl_syntaxError = std::string("Extra characters at the end.");
+          return GCL_SYNTAX_ERROR;
+        }
         gcl_freeQ(e->q);
         e->q = q;
         return GCL_NULL_Q;
-- 
2.43.0


From 19b1ec018e24bab9eeda1e2e463ca27548c9e3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:53 +0000
Subject: [PATCH 48/56] fix: tf_idf_annotations on a burrow without a working
 directory crashed instead of failing

---
 src/ranking.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ranking.cc b/src/ranking.cc
index 4f49cb1..2b46a1c 100644
--- a/src/ranking.cc
+++ b/src/ranking.cc
@@ -964,6 +964,10 @@ bool tf_idf_annotations(std::shared_ptr<Warren> warren, std::string *error,
                         bool include_rsj) {
   if (!(include_idf || include_rsj))
     return true; // weird, but whatever
+  if (warren->working() == nullptr) {
+    safe_error(error) = "tf_idf_annotations needs a working directory";
+    return false;
+  }
   if (!warren->transaction(error))
     return false;
   std::string working_filename = warren->working()->make_temp("idf");
-- 
2.43.0


From 392b7fb6d79b778ae8211b4068bc4e43a0c033f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:53 +0000
Subject: [PATCH 49/56] fix: a term that became common kept the RSJ weight of
 an earlier tf_idf_annotations

---
 src/ranking.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/ranking.cc b/src/ranking.cc
index 2b46a1c..2e024ea 100644
--- a/src/ranking.cc
+++ b/src/ranking.cc
@@ -1070,13 +1070,12 @@ bool tf_idf_annotations(std::shared_ptr<Warren> warren, std::string *error,
     }
     if (include_rsj) {
       // Robertson Sp{\"a}rck Jones weight
+      // Zero is written too, to replace any weight from an earlier run.
       fval rsj_weight =
           std::log((N - token.second + 0.5) / (token.second + 0.5));
-      if (rsj_weight > 0.0) {
-        a.feature = rsj_featurizer->featurize(token.first);
-        a.v = rsj_weight;
-        anf.write(reinterpret_cast<char *>(&a), sizeof(a));
-      }
+      a.feature = rsj_featurizer->featurize(token.first);
+      a.v = std::max(rsj_weight, static_cast<fval>(0.0));
+      anf.write(reinterpret_cast<char *>(&a), sizeof(a));
     }
   }
   anf.close();
-- 
2.43.0


From 780f99d697bfbe77e578d3a30ea5104f378598cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:53 +0000
Subject: [PATCH 50/56] fix: IdfStats claimed to have statistics that were not
 asked for

---
 src/idf_stats.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/idf_stats.cc b/src/idf_stats.cc
index dad3e32..dd84f26 100644
--- a/src/idf_stats.cc
+++ b/src/idf_stats.cc
@@ -47,13 +47,13 @@ std::shared_ptr<Stats> IdfStats::make(const std::string &recipe,
     return nullptr;
   std::string value;
   std::string unstemmed = "unstemmed";
-  if (!warren->get_parameter(unstemmed, &value, error))
+  if (warren->get_parameter(unstemmed, &value, error) && value != "")
     stats->have_unstemmed_ = okay(value);
   std::string idf = "idf";
-  if (!warren->get_parameter(idf, &value, error))
+  if (warren->get_parameter(idf, &value, error) && value != "")
     stats->have_idf_ = okay(value);
   std::string rsj = "rsj";
-  if (!warren->get_parameter(rsj, &value, error))
+  if (warren->get_parameter(rsj, &value, error) && value != "")
     stats->have_rsj_ = okay(value);
   return stats;
 }
-- 
2.43.0


From f5120c5a2ec0869c12570a9111326323b984db7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:53 +0000
Subject: [PATCH 51/56] fix: field statistics without weights were refused, and
 an enormous weight was not caught

---
 src/field_stats.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/field_stats.cc b/src/field_stats.cc
index fb8fbf0..426c2af 100644
--- a/src/field_stats.cc
+++ b/src/field_stats.cc
@@ -43,7 +43,7 @@ std::shared_ptr<Stats> FieldStats::make(const std::string &recipe,
       std::sregex_token_iterator(weights_parameter.begin(),
                                  weights_parameter.end(), tab, -1),
       {}};
-  if (weight_strings.size() == 0)
+  if (weights_parameter == "")
     return Stats::make("df", recipe, warren, error);
   if (weight_strings.size() != field_queries.size()) {
     safe_error(error) = "Warren fields and weights have inconsistent lengths";
@@ -67,6 +67,9 @@ std::shared_ptr<Stats> FieldStats::make(const std::string &recipe,
     } catch (const std::invalid_argument &e) {
       safe_error(error) = "Non-numberic field weight";
       return nullptr;
+    } catch (const std::out_of_range &e) {
+      safe_error(error) = "Field weight out of range";
+      return nullptr;
     }
   if (stats->weights_.size() == 0) {
     safe_error(error) = "No positive field weights";
-- 
2.43.0


From bbd960bce93430134be42c592fe7372c1cb2dbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:36 +0000
Subject: [PATCH 52/56] fix: field statistics walked backwards gave the wrong
 items

---
 src/field_stats.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/field_stats.cc b/src/field_stats.cc
index 426c2af..c824782 100644
--- a/src/field_stats.cc
+++ b/src/field_stats.cc
@@ -217,11 +217,16 @@ private:
     tau(p0, p, q, v);
   };
   void uat_(addr k, addr *p, addr *q, fval *v) final {
+    addr p0, q0;
+    content_hopper_->uat(k, &p0, &q0);
+    ohr(p0, p, q, v);
+  };
+  void ohr_(addr k, addr *p, addr *q, fval *v) final {
     std::vector<addr> ps, tfs;
     addr max_p = minfinity;
     for (size_t i = 0; i < tf_hoppers_.size(); i++) {
       addr p0, q0, tf0;
-      tf_hoppers_[i]->uat(k, &p0, &q0, &tf0);
+      tf_hoppers_[i]->ohr(k, &p0, &q0, &tf0);
       ps.push_back(p0);
       tfs.push_back(tf0);
       max_p = std::max(max_p, p0);
@@ -230,14 +235,9 @@ private:
     for (size_t i = 0; i < tfs.size(); i++)
       if (ps[i] == max_p)
         tf += weights_[i] * tfs[i];
-    content_hopper_->uat(max_p, p, q);
+    content_hopper_->ohr(max_p, p, q);
     *v = tf;
   };
-  void ohr_(addr k, addr *p, addr *q, fval *v) final {
-    addr p0, q0;
-    content_hopper_->ohr(k, &p0, &q0);
-    uat(q0, p, q, v);
-  };
   std::vector<fval> weights_;
   std::vector<std::unique_ptr<Hopper>> tf_hoppers_;
   std::unique_ptr<Hopper> content_hopper_;
-- 
2.43.0


From bfca9c598d4197c0439d59d69f178516bd33d984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:36 +0000
Subject: [PATCH 53/56] fix: tf_df_annotations ignored the content its
 statistics are read with

---
 src/ranking.cc | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/src/ranking.cc b/src/ranking.cc
index 2e024ea..086f2c1 100644
--- a/src/ranking.cc
+++ b/src/ranking.cc
@@ -853,17 +853,7 @@ bool tf_annotations(std::shared_ptr<Warren> warren, std::string *error,
 // Generate term frequency and document frequency annotations.
 // Should be an improvement over tf_idf_annotations
 bool tf_df_annotations(std::shared_ptr<Warren> warren, std::string *error) {
-  std::string content_key = "container";
-  std::string content_query = "";
-  if (!warren->get_parameter(content_key, &content_query, error))
-    content_query = warren->default_container();
-  if (content_query == "") {
-    safe_error(error) =
-        "tf_df_annotations can't find a definition for item content";
-    return false;
-  }
-  std::unique_ptr<cottontail::Hopper> hopper =
-      warren->hopper_from_gcl(content_query, error);
+  std::unique_ptr<cottontail::Hopper> hopper = content_hopper(warren, error);
   if (hopper == nullptr)
     return false;
   std::shared_ptr<Featurizer> df_featurizer =
-- 
2.43.0


From fc8f40e5b2476360dfc0884c967af432a0032afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:36 +0000
Subject: [PATCH 54/56] fix: tf_df_annotations read past its tokens where
 addresses have none, as after an abort

---
 src/ranking.cc | 58 ++++++++++++++++----------------------------------
 1 file changed, 18 insertions(+), 40 deletions(-)

diff --git a/src/ranking.cc b/src/ranking.cc
index 086f2c1..70e2772 100644
--- a/src/ranking.cc
+++ b/src/ranking.cc
@@ -871,47 +871,25 @@ bool tf_df_annotations(std::shared_ptr<Warren> warren, std::string *error) {
   if (!warren->transaction(error))
     return false;
   std::map<addr, addr> df;
-  addr HUGE = 1014 * 1024;
-  std::vector<addr> ps, qs;
-  addr p = minfinity, q, total_items = 0, total_length = 0;
-  while (p < maxfinity) {
-    hopper->tau(p + 1, &p, &q);
-    if (p < maxfinity) {
-      total_items++;
-      total_length += q - p + 1;
-      ps.push_back(p);
-      qs.push_back(q);
-    }
-    if (ps.size() > 0 && (p == maxfinity || qs.back() - ps.front() > HUGE)) {
-      std::string text = warren->txt()->translate(ps.front(), qs.back());
-      std::vector<std::string> tokens = warren->tokenizer()->split(text);
-      for (size_t i = 0; i < ps.size(); i++) {
-        std::map<std::string, addr> tf;
-        for (addr j = ps[i]; j <= qs[i]; j++) {
-          std::string stem = warren->stemmer()->stem(tokens[j - ps[0]]);
-          auto it = tf.find(stem);
-          if (it == tf.end())
-            tf[stem] = 1;
-          else
-            it->second++;
-        }
-        for (auto &token : tf) {
-          addr tf_feature = tf_featurizer->featurize(token.first);
-          if (!warren->annotator()->annotate(tf_feature, ps[i], ps[i],
-                                             token.second, error)) {
-            warren->abort();
-            return false;
-          }
-          addr df_feature = df_featurizer->featurize(token.first);
-          auto it = df.find(df_feature);
-          if (it == df.end())
-            df[df_feature] = 1;
-          else
-            it->second++;
-        }
+  addr p, q, total_items = 0, total_length = 0;
+  for (hopper->tau(minfinity + 1, &p, &q); p < maxfinity;
+       hopper->tau(p + 1, &p, &q)) {
+    total_items++;
+    total_length += q - p + 1;
+    // Not every address need have a token, so item by item.
+    std::vector<std::string> tokens =
+        warren->tokenizer()->split(warren->txt()->translate(p, q));
+    std::map<std::string, addr> tf;
+    for (auto &token : tokens)
+      tf[warren->stemmer()->stem(token)]++;
+    for (auto &token : tf) {
+      addr tf_feature = tf_featurizer->featurize(token.first);
+      if (!warren->annotator()->annotate(tf_feature, p, p, token.second,
+                                         error)) {
+        warren->abort();
+        return false;
       }
-      ps.clear();
-      qs.clear();
+      df[df_featurizer->featurize(token.first)]++;
     }
   }
   if (total_items == 0) {
-- 
2.43.0


From 52ef91ede451b7cf7057c2c4f8df14e1f8f93b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:36 +0000
Subject: [PATCH 55/56] fix: tf_annotations left out the frequencies of the
 last items, and everything by default

---
 src/ranking.cc | 58 +++++++++++++++++---------------------------------
 1 file changed, 20 insertions(+), 38 deletions(-)

diff --git a/src/ranking.cc b/src/ranking.cc
index 70e2772..8b061c2 100644
--- a/src/ranking.cc
+++ b/src/ranking.cc
@@ -767,6 +767,7 @@ bool tf_annotations(std::shared_ptr<Warren> warren, std::string *error,
   if (content_query == "") {
     safe_error(error) =
         "tf_annotations can't find a definition for item content";
+    return false;
   }
   std::unique_ptr<cottontail::Hopper> hopper =
       warren->hopper_from_gcl(content_query, error);
@@ -782,45 +783,26 @@ bool tf_annotations(std::shared_ptr<Warren> warren, std::string *error,
     return false;
   if (!warren->transaction(error))
     return false;
-  std::map<addr, addr> df;
-  addr HUGE = 1014 * 1024;
-  std::vector<addr> ps, qs;
-  addr p = start, q, total_items = 0, total_length = 0;
-  if (p == minfinity)
-    p += 1;
-  for (hopper->tau(p, &p, &q); q <= end && q < maxfinity;
-       hopper->tau(p + 1, &p, &q)) {
-    if (q <= end && q < maxfinity) {
-      total_items++;
-      total_length += q - p + 1;
-      ps.push_back(p);
-      qs.push_back(q);
-    }
-    if (ps.size() > 0 &&
-        (q == maxfinity || q >= end || qs.back() - ps.front() > HUGE)) {
-      std::string text = warren->txt()->translate(ps.front(), qs.back());
-      std::vector<std::string> tokens = warren->tokenizer()->split(text);
-      for (size_t i = 0; i < ps.size(); i++) {
-        std::map<addr, addr> tf;
-        for (addr j = ps[i]; j <= qs[i]; j++) {
-          addr feature = tf_featurizer->featurize(
-              warren->stemmer()->stem(tokens[j - ps[0]]));
-          auto it = tf.find(feature);
-          if (it == tf.end())
-            tf[feature] = 1;
-          else
-            it->second++;
-        }
-        for (auto &feature : tf)
-          if (!warren->annotator()->annotate(feature.first, ps[i], ps[i],
-                                             feature.second, error)) {
-            warren->abort();
-            return false;
-          }
+  addr p, q, total_items = 0, total_length = 0;
+  if (start == minfinity)
+    start += 1;
+  hopper->tau(start, &p, &q);
+  start = p; // the totals go where the first item is
+  for (; q <= end && q < maxfinity; hopper->tau(p + 1, &p, &q)) {
+    total_items++;
+    total_length += q - p + 1;
+    // Not every address need have a token, so item by item.
+    std::vector<std::string> tokens =
+        warren->tokenizer()->split(warren->txt()->translate(p, q));
+    std::map<addr, addr> tf;
+    for (auto &token : tokens)
+      tf[tf_featurizer->featurize(warren->stemmer()->stem(token))]++;
+    for (auto &feature : tf)
+      if (!warren->annotator()->annotate(feature.first, p, p, feature.second,
+                                         error)) {
+        warren->abort();
+        return false;
       }
-      ps.clear();
-      qs.clear();
-    }
   }
   if (total_items == 0) {
     safe_error(error) = "tf_annotations can't find any items for ranking";
-- 
2.43.0


From d366ac5ba515ed9e4de5cc2b2199585f85032c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:51 +0000
Subject: [PATCH 56/56] fix: document frequencies were counted again for each
 run of tf_df_annotations

---
 src/df_stats.cc | 23 +++++++++++++++++++----
 src/df_stats.h  |  1 +
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/df_stats.cc b/src/df_stats.cc
index 467d9a6..637a819 100644
--- a/src/df_stats.cc
+++ b/src/df_stats.cc
@@ -59,6 +59,10 @@ std::shared_ptr<Stats> DfStats::make(const std::string &recipe,
       TaggingFeaturizer::make(warren->featurizer(), "tf", error);
   if (stats->tf_featurizer_ == nullptr)
     return nullptr;
+  stats->df_featurizer_ =
+      TaggingFeaturizer::make(warren->featurizer(), "df", error);
+  if (stats->df_featurizer_ == nullptr)
+    return nullptr;
   return stats;
 }
 
@@ -86,15 +90,26 @@ bool DfStats::have_(const std::string &name) {
 fval DfStats::avgl_() { return average_length_; }
 
 namespace {
+// Use document frequencies if there are any. Frequencies that have been
+// annotated more than once can be counted more than once.
 inline addr load_df(std::shared_ptr<Warren> warren,
-                    std::shared_ptr<Featurizer> featurizer,
+                    std::shared_ptr<Featurizer> df_featurizer,
+                    std::shared_ptr<Featurizer> tf_featurizer,
                     const std::string &term) {
-  return warren->idx()->count(featurizer->featurize(term));
+  std::unique_ptr<Hopper> hopper =
+      warren->idx()->hopper(df_featurizer->featurize(term));
+  if (hopper != nullptr) {
+    addr p, q, n;
+    hopper->tau(0, &p, &q, &n);
+    if (p < maxfinity)
+      return n;
+  }
+  return warren->idx()->count(tf_featurizer->featurize(term));
 }
 } // namespace
 
 fval DfStats::idf_(const std::string &term) {
-  fval df = (fval)load_df(warren_, tf_featurizer_, term);
+  fval df = (fval)load_df(warren_, df_featurizer_, tf_featurizer_, term);
   if (df == 0.0)
     return 0.0;
   fval idf = std::log(items_ / df);
@@ -104,7 +119,7 @@ fval DfStats::idf_(const std::string &term) {
 }
 
 fval DfStats::rsj_(const std::string &term) {
-  fval df = (fval)load_df(warren_, tf_featurizer_, term);
+  fval df = (fval)load_df(warren_, df_featurizer_, tf_featurizer_, term);
   if (df == 0.0)
     return 0.0;
   fval rsj = std::log((items_ - df + 0.5) / (df + 0.5));
diff --git a/src/df_stats.h b/src/df_stats.h
index 86179a4..4d1f628 100644
--- a/src/df_stats.h
+++ b/src/df_stats.h
@@ -37,6 +37,7 @@ private:
   fval items_;
   fval average_length_;
   std::shared_ptr<Featurizer> tf_featurizer_;
+  std::shared_ptr<Featurizer> df_featurizer_;
 };
 
 } // namespace cottontail
-- 
2.43.0

