From 8d8eed54f9361ab15c1778937d1482c1a92543fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:12 +0000
Subject: [PATCH 01/22] fix: printing an empty sequence no longer reads out of
 bounds

---
 core/src/main/cpp/algorithm/int_dict.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/main/cpp/algorithm/int_dict.cc b/core/src/main/cpp/algorithm/int_dict.cc
index edfe12c..4049769 100644
--- a/core/src/main/cpp/algorithm/int_dict.cc
+++ b/core/src/main/cpp/algorithm/int_dict.cc
@@ -8,7 +8,7 @@
 std::ostream& operator<< (std::ostream &out, const IntSeq& seq)
 {
     out << "(";
-    for (int i = 0; i < seq.size() - 1; i++) {
+    for (int i = 0; i + 1 < seq.size(); i++) {
         out << seq[i] << " ";
     }
     if (!seq.empty()) {
@@ -20,7 +20,7 @@ std::ostream& operator<< (std::ostream &out, const IntSeq& seq)
 
 std::string to_string(const IntSeq& seq) {
     std::string res = "(";
-    for (int i = 0; i < seq.size() - 1; i++) {
+    for (int i = 0; i + 1 < seq.size(); i++) {
         res += std::to_string(seq[i]) + " ";
     }
     if (!seq.empty()) {
-- 
2.43.0


From 264e32c858487854406d6efd7051f2512cb8bece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:12 +0000
Subject: [PATCH 02/22] fix: Encoder emits the code of a symbol it has just
 registered

---
 core/src/main/cpp/algorithm/list_dict.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/main/cpp/algorithm/list_dict.h b/core/src/main/cpp/algorithm/list_dict.h
index 069610b..a9f0e08 100644
--- a/core/src/main/cpp/algorithm/list_dict.h
+++ b/core/src/main/cpp/algorithm/list_dict.h
@@ -18,7 +18,7 @@ public:
     for (const T& next: input) {
       auto code_ptr = mapping.find(next);
       if (code_ptr == mapping.end()) {
-        mapping[next] = next_id++;
+        code_ptr = mapping.emplace(next, next_id++).first;
       }
       output->push_back(code_ptr->second);
     }
-- 
2.43.0


From d96707bccdcde668373cfa86fa31cb66ec2f204a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:47 +0000
Subject: [PATCH 03/22] fix: IntDict finds the symbols it has registered
 instead of adding them again

---
 core/src/main/cpp/algorithm/int_dict_p.cc | 13 +++++++++++--
 core/src/main/cpp/algorithm/int_dict_p.h  |  2 ++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/core/src/main/cpp/algorithm/int_dict_p.cc b/core/src/main/cpp/algorithm/int_dict_p.cc
index 62b4c44..0f82cba 100644
--- a/core/src/main/cpp/algorithm/int_dict_p.cc
+++ b/core/src/main/cpp/algorithm/int_dict_p.cc
@@ -29,6 +29,8 @@ IntDictImpl::IntDictImpl(const IntSeq& seqs) {
 IntDictImpl::IntDictImpl(const IntDictImpl& dict) {
     seqs_ = dict.seqs_; // Sanitizer: indirect leak
     parents_ = dict.parents_; // Sanitizer: indirect leak
+    sorted_size_ = dict.sorted_size_;
+    added_symbols_ = dict.added_symbols_;
 }
 
 void IntDictImpl::init(const std::vector<IntSeq>& seqs) {
@@ -36,6 +38,7 @@ void IntDictImpl::init(const std::vector<IntSeq>& seqs) {
     parents_ = IntSeq(seqs_.size(), -1); // Sanitizer: indirect leak
     std::vector<std::pair<IntSeq, int>> parents_stack;
     std::sort(seqs_.begin(), seqs_.end());
+    sorted_size_ = size();
 
     for (int i = 0; i < seqs_.size(); ++i) {
         IntSeq current = seqs_[i];
@@ -101,8 +104,9 @@ double IntDictImpl::weightedParse(const IntSeq& seq, const IntSeq& freqs, double
 }
 
 int IntDictImpl::search(const IntSeq& seq, std::unordered_set<int>* excludes) {
-    int index = static_cast<int>(std::lower_bound(seqs_.begin(), seqs_.end(), seq) - seqs_.begin());
-    if (index >= 0 && index < size() && seqs_[index] == seq) {
+    auto sorted_end = seqs_.begin() + sorted_size_;
+    int index = static_cast<int>(std::lower_bound(seqs_.begin(), sorted_end, seq) - seqs_.begin());
+    if (index >= 0 && index < sorted_size_ && seqs_[index] == seq) {
         if (excludes == nullptr || excludes->count(index) == 0) {
             return index;
         }
@@ -116,8 +120,13 @@ int IntDictImpl::search(const IntSeq& seq, std::unordered_set<int>* excludes) {
         }
         index = parents_[index];
     }
+    auto added = added_symbols_.find(seq[0]);
+    if (added != added_symbols_.end() && (excludes == nullptr || excludes->count(added->second) == 0)) {
+        return added->second;
+    }
     if (excludes == nullptr) {
         int ind = size();
+        added_symbols_[seq[0]] = ind;
         seqs_.emplace_back(1, seq[0]);
         parents_.push_back(-1);
         return ind;
diff --git a/core/src/main/cpp/algorithm/int_dict_p.h b/core/src/main/cpp/algorithm/int_dict_p.h
index 6895615..3a30886 100644
--- a/core/src/main/cpp/algorithm/int_dict_p.h
+++ b/core/src/main/cpp/algorithm/int_dict_p.h
@@ -29,6 +29,8 @@ public:
 private:
     std::vector<IntSeq> seqs_;
     IntSeq parents_;
+    int sorted_size_ = 0; // seqs_[0, sorted_size_) is sorted, the symbols registered by search() come after it
+    std::unordered_map<int, int> added_symbols_;
 
     void init(const std::vector<IntSeq>& seqs);
     int linearParse(const IntSeq& seq, IntSeq* builder, std::unordered_set<int>* excludes);
-- 
2.43.0


From 64b6b143bf66a20a82e7830237030ebb7f085251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:10 +0000
Subject: [PATCH 04/22] fix: StatDict attaches the initial frequencies to the
 sequences they were given for

---
 core/src/main/cpp/algorithm/stat_dict_p.cc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/core/src/main/cpp/algorithm/stat_dict_p.cc b/core/src/main/cpp/algorithm/stat_dict_p.cc
index 6cdb6ef..605b280 100644
--- a/core/src/main/cpp/algorithm/stat_dict_p.cc
+++ b/core/src/main/cpp/algorithm/stat_dict_p.cc
@@ -21,13 +21,12 @@ StatDictImpl::StatDictImpl(double min_probability) {
 StatDictImpl::StatDictImpl(const std::vector<IntSeq>& seqs, double min_prob_result, IntSeq* init_freqs) {
     dict_ = std::make_shared<IntDictImpl>(seqs); // Sanitizer: indirect leak // replace int_dict to seqs
     symbol_freqs_ = IntSeq(static_cast<size_t>(seqs.size()));
-    if (init_freqs == nullptr) {
-        parse_freqs_ = IntSeq(static_cast<size_t>(dict_->size())); // Sanitizer: indirect leak
-    } else {
-        parse_freqs_ = IntSeq(*init_freqs);
+    parse_freqs_ = IntSeq(static_cast<size_t>(dict_->size())); // Sanitizer: indirect leak
+    if (init_freqs != nullptr) {
+        // init_freqs are in the order of seqs, while dict_ keeps the sequences sorted
+        for (size_t i = 0; i < seqs.size() && i < init_freqs->size(); i++)
+            parse_freqs_[dict_->search(seqs[i], nullptr)] += (*init_freqs)[i];
         parse_freqs_init_power_ = std::accumulate(parse_freqs_.begin(), parse_freqs_.end(), 0.0);
-        for (auto i = parse_freqs_.size(); i < dict_->size(); i++)
-            parse_freqs_.push_back(0);
     }
     pairs_freqs_ = std::unordered_map<std::int64_t , int>(kAggPower); // Sanitizer: indirect leak
     min_probability_ = min_prob_result;
-- 
2.43.0


From de03da56b0460cb50674a00729debc9e626d467f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:36 +0000
Subject: [PATCH 05/22] fix: the dictionary capacity counts the single symbols
 it really has

Symbols that came late overfilled the dictionary, a restored dictionary had no
room for sequences at all and collapsed to single symbols, and a size smaller
than the number of symbols dropped some of them.
---
 .../main/cpp/algorithm/int_vgram_builder_p.cc | 25 ++++++++-----------
 .../main/cpp/algorithm/int_vgram_builder_p.h  |  1 -
 .../vgram_builders/int_stream_vgram.cc        |  2 +-
 3 files changed, 11 insertions(+), 17 deletions(-)

diff --git a/core/src/main/cpp/algorithm/int_vgram_builder_p.cc b/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
index ae1c33f..b20a633 100644
--- a/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
+++ b/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
@@ -2,6 +2,7 @@
 // Created by akhvorov on 14.08.18.
 //
 
+#include <algorithm>
 #include <numeric>
 #include <iostream>
 #import "int_vgram_builder_p.h"
@@ -9,7 +10,6 @@
 
 IntVGramBuilderImpl::IntVGramBuilderImpl(int size, int verbose) {
     size_ = size;
-    symb_alphabet_ = std::vector<IntSeq>();
     current_ = std::make_shared<StatDictImpl>();
     result_ = nullptr;
     verbose_ = verbose;
@@ -31,7 +31,6 @@ IntVGramBuilderImpl::IntVGramBuilderImpl(const IntDict &dict, const IntSeq &freq
     IntSeq freqs_copy(freqs.begin(), freqs.end());
     std::shared_ptr<StatDictImpl> result = std::make_shared<StatDictImpl>(dict.alphabet(), min_probability,
                                                                           &freqs_copy);
-    symb_alphabet_ = alphabet;
     current_ = result;
     result_ = result;
 }
@@ -39,7 +38,6 @@ IntVGramBuilderImpl::IntVGramBuilderImpl(const IntDict &dict, const IntSeq &freq
 void IntVGramBuilderImpl::init(const IntDict &alphabet, int size, int verbose) {
     verbose_ = verbose;
     size_ = size;
-    symb_alphabet_ = alphabet.alphabet();
     current_ = std::make_shared<StatDictImpl>(alphabet.alphabet());
     result_ = nullptr;
 }
@@ -86,7 +84,13 @@ void IntVGramBuilderImpl::update() {
     std::shared_ptr<StatDictImpl> result;
     std::vector<IntSeq> new_dict;
     IntSeq freqs;
-    int alphabet_size = static_cast<int>(symb_alphabet_.size());
+    // single symbols always stay in the dictionary, the rest of size_ is for the longer sequences
+    int alphabet_size = 0;
+    for (int i = 0; i < current_->size(); i++) {
+        if (current_->parent(i) < 0)
+            alphabet_size++;
+    }
+    int free_slots = std::max(0, size_ - alphabet_size);
     if (populate_) {
         if (verbose_ > 0) {
             std::cout << "Size: " << current_->size() << " rate: " << compression_rate <<
@@ -94,26 +98,17 @@ void IntVGramBuilderImpl::update() {
         }
         int slots;
         if (current_->size() * kExtensionFactor < 10)
-            slots = size_ - alphabet_size;
+            slots = free_slots;
         else
             slots = static_cast<int>(current_->size() * kExtensionFactor);
         double min_prob_result = current_->expand(slots, &new_dict, &freqs);
         result = std::make_shared<StatDictImpl>(new_dict, min_prob_result, &freqs);
     } else {
-        double min_prob_result = current_->reduce(size_ - alphabet_size, &new_dict, &freqs);
+        double min_prob_result = current_->reduce(free_slots, &new_dict, &freqs);
         result = std::make_shared<StatDictImpl>(new_dict, min_prob_result, &freqs);
         result_ = result;
     }
     current_ = result;
-    int alpha_accum_num = 0;
-    for (int i = 0; i < current_->size(); i++) {
-        if (current_->parent(i) < 0) {
-            if (alpha_accum_num > alphabet_size) {
-                symb_alphabet_.push_back(current_->get(i));
-            }
-            alpha_accum_num++;
-        }
-    }
     populate_ = !populate_;
 }
 
diff --git a/core/src/main/cpp/algorithm/int_vgram_builder_p.h b/core/src/main/cpp/algorithm/int_vgram_builder_p.h
index af8e9fd..e4d1d60 100644
--- a/core/src/main/cpp/algorithm/int_vgram_builder_p.h
+++ b/core/src/main/cpp/algorithm/int_vgram_builder_p.h
@@ -36,7 +36,6 @@ public:
 
 private:
     int size_;
-    std::vector<IntSeq> symb_alphabet_;
     std::shared_ptr<StatDictImpl> current_;
     std::shared_ptr<StatDictImpl> result_;
     bool populate_ = true;
diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
index 4ed43ab..1e319c8 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
@@ -16,7 +16,7 @@ IntStreamVGram::IntStreamVGram(int size)
         : IntStreamVGram(size, 1) {}
 
 IntStreamVGram::IntStreamVGram(int size, int verbose = 1) {
-    builder_ = std::shared_ptr<IntVGramBuilder>(new IntVGramBuilderImpl(size - 1, verbose));
+    builder_ = std::shared_ptr<IntVGramBuilder>(new IntVGramBuilderImpl(size, verbose));
     size_ = size;
     dict_ = nullptr;
     coder_ = std::make_shared<SeqCoder>();
-- 
2.43.0


From 47c10ee531b77ecdcf41ce6ca3e75bf40309f4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:40 +0000
Subject: [PATCH 06/22] fix: the builder reports minimal probability and code
 length before the first reduction

A model saved before it had -1 as minimal probability, so after loading it
rebuilt its dictionary on every sequence; code_length() dereferenced null.
---
 core/src/main/cpp/algorithm/int_vgram_builder_p.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/main/cpp/algorithm/int_vgram_builder_p.cc b/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
index b20a633..715e2f5 100644
--- a/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
+++ b/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
@@ -132,9 +132,9 @@ int IntVGramBuilderImpl::result_freqs(IntSeq *freqs) {
 }
 
 double IntVGramBuilderImpl::code_length() const {
-    return result_->code_length_per_char();
+    return result_ != nullptr ? result_->code_length_per_char() : current_->code_length_per_char();
 }
 
 double IntVGramBuilderImpl::get_min_probability() const {
-    return result_ != nullptr ? result_->min_probability_ : -1.0;
+    return result_ != nullptr ? result_->min_probability_ : current_->min_probability_;
 }
-- 
2.43.0


From e6d8cc27a97881d305867c53b5b951a6d62cdba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:47 +0000
Subject: [PATCH 07/22] fix: a restored model keeps the size it was created
 with

---
 core/src/main/cpp/algorithm/int_vgram_builder_p.cc           | 5 +++--
 core/src/main/cpp/algorithm/int_vgram_builder_p.h            | 2 +-
 .../main/cpp/interfaces/vgram_builders/int_stream_vgram.cc   | 2 +-
 core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc     | 2 +-
 4 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/core/src/main/cpp/algorithm/int_vgram_builder_p.cc b/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
index 715e2f5..6d49118 100644
--- a/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
+++ b/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
@@ -25,9 +25,10 @@ IntVGramBuilderImpl::IntVGramBuilderImpl(const IntSeq &alphabet, int size, int v
 }
 
 IntVGramBuilderImpl::IntVGramBuilderImpl(const IntDict &dict, const IntSeq &freqs,
-                                         const std::vector<IntSeq> &alphabet, double min_probability, int verbose) {
+                                         const std::vector<IntSeq> &alphabet, double min_probability, int verbose,
+                                         int size) {
     verbose_ = verbose;
-    size_ = dict.size();
+    size_ = size < 0 ? dict.size() : size;
     IntSeq freqs_copy(freqs.begin(), freqs.end());
     std::shared_ptr<StatDictImpl> result = std::make_shared<StatDictImpl>(dict.alphabet(), min_probability,
                                                                           &freqs_copy);
diff --git a/core/src/main/cpp/algorithm/int_vgram_builder_p.h b/core/src/main/cpp/algorithm/int_vgram_builder_p.h
index e4d1d60..e9014e6 100644
--- a/core/src/main/cpp/algorithm/int_vgram_builder_p.h
+++ b/core/src/main/cpp/algorithm/int_vgram_builder_p.h
@@ -20,7 +20,7 @@ public:
     IntVGramBuilderImpl(const IntSeq &alphabet, int size, int verbose = 1);
 
     IntVGramBuilderImpl(const IntDict &dict, const IntSeq &freqs, const std::vector<IntSeq> &alphabet,
-                        double min_probability, int verbose = 1);
+                        double min_probability, int verbose = 1, int size = -1);
 
     std::shared_ptr<IntDict> result() const override;
 
diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
index 1e319c8..0a310e4 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
@@ -92,6 +92,6 @@ IntStreamVGram::IntStreamVGram(const std::shared_ptr<SeqCoder> coder, const IntS
     dict_ = std::make_shared<IntDictImpl>(alphabet);
 //    std::cout << "dict_ inited" << std::endl;
 //    std::cout << "Size " << dict_->size() << "!" << std::endl;
-    builder_ = std::make_shared<IntVGramBuilderImpl>(*dict_, freqs, alphabet, min_probability, 1);
+    builder_ = std::make_shared<IntVGramBuilderImpl>(*dict_, freqs, alphabet, min_probability, 1, size);
 //    std::cout << "out ctor" << std::endl;
 }
diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
index 2ec120c..26ae0cc 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
@@ -126,7 +126,7 @@ IntVGram::IntVGram(std::shared_ptr<SeqCoder> coder, const IntSeq &freqs,
     total_freqs_ = std::accumulate(freqs.begin(), freqs.end(), 0);
     coder_ = coder; //TODO: check it
     dict_ = std::make_shared<IntDictImpl>(alphabet);
-    builder_ = std::make_shared<IntVGramBuilderImpl>(*dict_, freqs, alphabet, min_probability, 1);
+    builder_ = std::make_shared<IntVGramBuilderImpl>(*dict_, freqs, alphabet, min_probability, 1, size);
     fitted_ = fitted;
     freqs_computed_ = freqs_computed;
     iter_num_ = 0;
-- 
2.43.0


From 4a0a9fa1d8db75749ef839b2b563f78643d22c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:00 +0000
Subject: [PATCH 08/22] fix: IntStreamVGram publishes a consistent snapshot of
 the dictionary

Before the first update_dict() there was no dictionary at all (parse, alphabet
and save crashed). After it dict_ was the dictionary the builder goes on
changing, and parse() registered symbols in it, while freqs_ were appended to
the old ones or left stale.
---
 .../vgram_builders/int_stream_vgram.cc        | 49 +++++++++++++------
 .../vgram_builders/int_stream_vgram.h         |  3 ++
 2 files changed, 38 insertions(+), 14 deletions(-)

diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
index 0a310e4..93f4ed1 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
@@ -4,6 +4,8 @@
 
 #include <algorithm>
 #include <iomanip>
+#include <numeric>
+#include <set>
 #include <utility>
 #include "../../algorithm/int_dict_p.h"
 #include "../../algorithm/int_vgram_builder_p.h"
@@ -18,11 +20,9 @@ IntStreamVGram::IntStreamVGram(int size)
 IntStreamVGram::IntStreamVGram(int size, int verbose = 1) {
     builder_ = std::shared_ptr<IntVGramBuilder>(new IntVGramBuilderImpl(size, verbose));
     size_ = size;
-    dict_ = nullptr;
     coder_ = std::make_shared<SeqCoder>();
-    freqs_ = IntSeq();
-    total_freqs_ = 0;
     verbose_ = verbose;
+    update_dict();
 }
 
 void IntStreamVGram::accept(const IntSeq &seq) {
@@ -36,24 +36,45 @@ IntSeq IntStreamVGram::parse(const IntSeq &seq) const {
 //        std::cout << "dict is true" << std::endl;
 //    }
 //    std::cout << "after if" << std::endl;
-    coder_->encode_immutable(seq);
-//    std::cout << "before coder call" << std::endl;
-    builder_->alpha();
-//    std::cout << "before builder call" << std::endl;
-//    std::cout << "Size " << dict_->size() << "!" << std::endl;
+    // symbols accepted after the last update_dict() are not in dict_ yet: like any unknown symbol they are skipped,
+    // otherwise dict_->parse() would register them in dict_
+    IntSeq codes;
+    std::unordered_set<int> no_excludes;
+    for (int code : coder_->encode_immutable(seq)) {
+        if (dict_->search(IntSeq(1, code), &no_excludes) >= 0) {
+            codes.push_back(code);
+        }
+    }
 //    std::cout << "before parse" << std::endl;
-    dict_->parse(coder_->encode_immutable(seq), freqs_, total_freqs_, &result);
+    dict_->parse(codes, freqs_, total_freqs_, &result);
 //    std::cout << "out parse" << std::endl;
     return result;
 }
 
 void IntStreamVGram::update_dict() {
-    if (dict_ != builder_->result()) {
-        dict_ = builder_->result();
-        builder_->result_freqs(&freqs_);
-        total_freqs_ = std::accumulate(freqs_.begin(), freqs_.end(), 0);
-        min_probability_ = builder_->get_min_probability();
+    std::vector<IntSeq> alphabet = builder_->result()->alphabet();
+    IntSeq freqs;
+    builder_->result_freqs(&freqs);
+    // the result may be older than some of the accepted symbols
+    std::set<IntSeq> known(alphabet.begin(), alphabet.end());
+    int codes_num = static_cast<int>(coder_->code_map().size());
+    for (int code = 0; code < codes_num; code++) {
+        if (known.count(IntSeq(1, code)) == 0) {
+            alphabet.push_back(IntSeq(1, code));
+            freqs.push_back(0);
+        }
+    }
+    set_dict(alphabet, freqs);
+    min_probability_ = builder_->get_min_probability();
+}
+
+void IntStreamVGram::set_dict(const std::vector<IntSeq> &alphabet, const IntSeq &freqs) {
+    dict_ = std::make_shared<IntDictImpl>(alphabet);
+    freqs_ = IntSeq(dict_->size(), 0);
+    for (int i = 0; i < freqs.size(); i++) {
+        freqs_[dict_->search(alphabet[i], nullptr)] += freqs[i];
     }
+    total_freqs_ = std::accumulate(freqs_.begin(), freqs_.end(), 0);
 }
 
 std::vector<IntSeq> IntStreamVGram::alphabet() const {
diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.h b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.h
index 2e79dac..9149d81 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.h
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.h
@@ -53,6 +53,9 @@ namespace vgram_core {
         int total_freqs_;
         double min_probability_;
         int verbose_;
+
+        // dict_ is a sorted copy, which neither accept() nor parse() changes; freqs_ are aligned with it
+        void set_dict(const std::vector<IntSeq> &alphabet, const IntSeq &freqs);
     };
 }
 
-- 
2.43.0


From 96f5ed2fb712d7d4552c376413545ec3039cff71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:36 +0000
Subject: [PATCH 09/22] fix: a restored model keeps its frequencies aligned and
 does not lose them on update_dict()

---
 .../interfaces/vgram_builders/int_stream_vgram.cc | 15 +++++++++++----
 .../interfaces/vgram_builders/int_stream_vgram.h  |  2 ++
 .../cpp/interfaces/vgram_builders/int_vgram.cc    |  9 +--------
 3 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
index 93f4ed1..a80ba05 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
@@ -55,6 +55,12 @@ void IntStreamVGram::update_dict() {
     std::vector<IntSeq> alphabet = builder_->result()->alphabet();
     IntSeq freqs;
     builder_->result_freqs(&freqs);
+    if (builder_->result() == restored_dict_) {
+        // the builder counts from the restoration
+        for (int i = 0; i < restored_freqs_.size(); i++) {
+            freqs[i] += restored_freqs_[i];
+        }
+    }
     // the result may be older than some of the accepted symbols
     std::set<IntSeq> known(alphabet.begin(), alphabet.end());
     int codes_num = static_cast<int>(coder_->code_map().size());
@@ -107,12 +113,13 @@ IntStreamVGram::IntStreamVGram(const std::shared_ptr<SeqCoder> coder, const IntS
 //    std::cout << "in ctor" << std::endl;
     size_ = size;
     min_probability_ = min_probability;
-    freqs_ = freqs;
-    total_freqs_ = std::accumulate(freqs.begin(), freqs.end(), 0);
     coder_ = coder;
-    dict_ = std::make_shared<IntDictImpl>(alphabet);
+    verbose_ = 1;
+    set_dict(alphabet, freqs);
 //    std::cout << "dict_ inited" << std::endl;
 //    std::cout << "Size " << dict_->size() << "!" << std::endl;
-    builder_ = std::make_shared<IntVGramBuilderImpl>(*dict_, freqs, alphabet, min_probability, 1, size);
+    builder_ = std::make_shared<IntVGramBuilderImpl>(*dict_, freqs_, alphabet, min_probability, 1, size);
+    restored_dict_ = builder_->result();
+    restored_freqs_ = freqs_;
 //    std::cout << "out ctor" << std::endl;
 }
diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.h b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.h
index 9149d81..9f9c672 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.h
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.h
@@ -53,6 +53,8 @@ namespace vgram_core {
         int total_freqs_;
         double min_probability_;
         int verbose_;
+        std::shared_ptr<IntDict> restored_dict_;
+        IntSeq restored_freqs_;
 
         // dict_ is a sorted copy, which neither accept() nor parse() changes; freqs_ are aligned with it
         void set_dict(const std::vector<IntSeq> &alphabet, const IntSeq &freqs);
diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
index 26ae0cc..6002bbc 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
@@ -119,14 +119,7 @@ bool IntVGram::isTerminated() const {
 IntVGram::IntVGram(std::shared_ptr<SeqCoder> coder, const IntSeq &freqs,
                    const std::vector<IntSeq> &alphabet, int size, double min_probability,
                    bool fitted, bool freqs_computed)
-        : IntStreamVGram(size) {
-    size_ = size;
-    min_probability_ = min_probability;
-    freqs_ = freqs;
-    total_freqs_ = std::accumulate(freqs.begin(), freqs.end(), 0);
-    coder_ = coder; //TODO: check it
-    dict_ = std::make_shared<IntDictImpl>(alphabet);
-    builder_ = std::make_shared<IntVGramBuilderImpl>(*dict_, freqs, alphabet, min_probability, 1, size);
+        : IntStreamVGram(coder, freqs, alphabet, size, min_probability) {
     fitted_ = fitted;
     freqs_computed_ = freqs_computed;
     iter_num_ = 0;
-- 
2.43.0


From fdb4e8ed0ae230ce2b208dabe97804cc0c929077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:45 +0000
Subject: [PATCH 10/22] fix: IntVGram counts frequencies for all entries of the
 dictionary

Symbols of the texts that fit() had not sampled were counted past the end of
freqs_, and an interrupted count was recorded as complete.
---
 .../interfaces/vgram_builders/int_vgram.cc    | 34 +++++++++----------
 .../cpp/interfaces/vgram_builders/int_vgram.h |  2 +-
 2 files changed, 17 insertions(+), 19 deletions(-)

diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
index 6002bbc..6461da4 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
@@ -30,9 +30,8 @@ IntVGram *IntVGram::fit(const std::vector<IntSeq> &seqs/*, const std::string &fi
         if (freqs_computed_) {
             return this;
         }
-        recompute_freqs(seqs);
-        freqs_computed_ = true;
-        return this;
+        freqs_computed_ = recompute_freqs(seqs);
+        return freqs_computed_ ? this : nullptr;
     }
     for (int i = 0; i < iter_num_; i++) {
         if (verbose_ > 0) {
@@ -51,32 +50,31 @@ IntVGram *IntVGram::fit(const std::vector<IntSeq> &seqs/*, const std::string &fi
 //        }
     }
     fitted_ = true;
-    recompute_freqs(seqs);
-    freqs_computed_ = true;
-    return this;
+    freqs_computed_ = recompute_freqs(seqs);
+    return freqs_computed_ ? this : nullptr;
 }
 
-void IntVGram::recompute_freqs(const std::vector<IntSeq> &seqs) {
+bool IntVGram::recompute_freqs(const std::vector<IntSeq> &seqs) {
     if (verbose_ > 0) {
         std::cout << "recompute freqs" << std::endl;
     }
-    IntSeq freqs;
-    builder_->result_freqs(&freqs);
-    freqs_ = IntSeq(freqs.size(), 0);
-    int total_freqs = std::accumulate(freqs.begin(), freqs.end(), 0);
+    // the sequences may have symbols that were not accepted, make them known to the dictionary
     for (const IntSeq &seq : seqs) {
-        IntSeq result;
-        dict_->parse(coder_->encode(seq), freqs, total_freqs, &result);
-        for (int symb : result) {
-            if (symb >= 0) {
-                freqs_[symb]++;
-            }
+        coder_->encode(seq);
+    }
+    update_dict();
+    IntSeq freqs(freqs_.size(), 0);
+    for (const IntSeq &seq : seqs) {
+        for (int symb : parse(seq)) {
+            freqs[symb]++;
         }
         if (isTerminated()) {
-            return;
+            return false;
         }
     }
+    freqs_ = freqs;
     total_freqs_ = std::accumulate(freqs_.begin(), freqs_.end(), 0);
+    return true;
 }
 
 std::vector<std::string> IntVGram::transform_to_string(const std::vector<IntSeq> &seqs) const {
diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.h b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.h
index d60794d..133b6df 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.h
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.h
@@ -37,7 +37,7 @@ namespace vgram_core {
         bool fitted_ = false;
         bool freqs_computed_ = false;
 
-        void recompute_freqs(const std::vector<IntSeq> &seqs);
+        bool recompute_freqs(const std::vector<IntSeq> &seqs);
 
         virtual bool isTerminated() const;
     };
-- 
2.43.0


From 46d6f4afe15359c15fa26bf0bf8a5a448755afa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:24 +0000
Subject: [PATCH 11/22] fix: a saved IntVGram can be loaded

save() was the one of IntStreamVGram, which does not write what load_int_vgram
requires. saver.h can be included now: word_splitter.h, which is not in the
repository, is not needed by anything.
---
 .../main/cpp/interfaces/vgram_builders/int_stream_vgram.h    | 4 +++-
 core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc     | 5 +++++
 core/src/main/cpp/interfaces/vgram_builders/int_vgram.h      | 2 ++
 .../main/cpp/interfaces/vgram_builders/string_stream_vgram.h | 1 -
 4 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.h b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.h
index 9f9c672..43d3b71 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.h
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.h
@@ -32,7 +32,9 @@ namespace vgram_core {
 
         IntSeq parse(const IntSeq &seq) const;
 
-        void save(const std::string &filename, std::shared_ptr<BaseTokenizer> tokenizer = nullptr) const;
+        virtual ~IntStreamVGram() = default;
+
+        virtual void save(const std::string &filename, std::shared_ptr<BaseTokenizer> tokenizer = nullptr) const;
 
         std::vector<IntSeq> alphabet() const;
 
diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
index 6461da4..69b45d1 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
@@ -14,6 +14,7 @@
 #include <int_vgram_builder_p.h>
 #include <int_dict_p.h>
 #include "int_vgram.h"
+#include "../saver.h"
 
 using namespace vgram_core;
 
@@ -110,6 +111,10 @@ std::vector<IntSeq> IntVGram::transform(const std::vector<IntSeq> &seqs) const {
     return res;
 }
 
+void IntVGram::save(const std::string &filename, std::shared_ptr<BaseTokenizer> tokenizer) const {
+    Saver::save(this, filename);
+}
+
 bool IntVGram::isTerminated() const {
     return false;
 }
diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.h b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.h
index 133b6df..656f317 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.h
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.h
@@ -32,6 +32,8 @@ namespace vgram_core {
 
         std::vector<IntSeq> transform(const std::vector<IntSeq> &seqs) const;
 
+        void save(const std::string &filename, std::shared_ptr<BaseTokenizer> tokenizer = nullptr) const override;
+
     protected:
         int iter_num_;
         bool fitted_ = false;
diff --git a/core/src/main/cpp/interfaces/vgram_builders/string_stream_vgram.h b/core/src/main/cpp/interfaces/vgram_builders/string_stream_vgram.h
index f5bfc0e..afe42ef 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/string_stream_vgram.h
+++ b/core/src/main/cpp/interfaces/vgram_builders/string_stream_vgram.h
@@ -7,7 +7,6 @@
 
 #include "../tokenizers/char_tokenizer.h"
 #include "../tokenizers/word_tokenizer.h"
-#include "../word_splitter/word_splitter.h"
 #include "int_stream_vgram.h"
 
 using json = nlohmann::json;
-- 
2.43.0


From 80cc0a59008e329904b0b73d513ff64b7c433835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:26 +0000
Subject: [PATCH 12/22] fix: a loaded StringStreamVGram splits text to tokens
 as the saved one did

---
 core/src/main/cpp/interfaces/loader.h | 13 +++++++++----
 core/src/main/cpp/interfaces/saver.h  |  1 +
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/core/src/main/cpp/interfaces/loader.h b/core/src/main/cpp/interfaces/loader.h
index 091127d..4019a46 100644
--- a/core/src/main/cpp/interfaces/loader.h
+++ b/core/src/main/cpp/interfaces/loader.h
@@ -35,8 +35,10 @@ namespace vgram_core {
 
         static std::shared_ptr<StringStreamVGram> load_string_stream_vgram(const std::string &filename) {
             std::shared_ptr<IntStreamVGram> stream_builder = load_int_stream_vgram(filename);
-            std::shared_ptr<BaseTokenizer> tokenizer = load_tokenizer(filename, stream_builder->get_coder());
-            return std::make_shared<StringStreamVGram>(stream_builder, tokenizer);
+            bool words_are_tokens = read_dict_json(filename).value("words_are_tokens", false);
+            std::shared_ptr<BaseTokenizer> tokenizer = load_tokenizer(filename, stream_builder->get_coder(),
+                                                                      words_are_tokens);
+            return std::make_shared<StringStreamVGram>(stream_builder, tokenizer, false, words_are_tokens);
         }
 
         static StringVGram *load_string_vgram(const std::string &filename) {
@@ -92,7 +94,8 @@ namespace vgram_core {
         }
 
         static std::shared_ptr<BaseTokenizer> load_tokenizer(const std::string &filename,
-                                                             const std::shared_ptr<SeqCoder> &coder) {
+                                                             const std::shared_ptr<SeqCoder> &coder,
+                                                             bool words_are_tokens = false) {
             json dict = read_dict_json(filename);
             std::unordered_map<std::string, int> forward_map;
             for (const auto &word_obj : dict["alphabet"]) {
@@ -102,7 +105,9 @@ namespace vgram_core {
                     forward_map[key] = vec[0];
                 }
             }
-            //TODO chose tokenizer
+            if (words_are_tokens) {
+                return std::make_shared<WordTokenizer>(forward_map);
+            }
             return std::make_shared<CharTokenizer>(forward_map);
         }
     };
diff --git a/core/src/main/cpp/interfaces/saver.h b/core/src/main/cpp/interfaces/saver.h
index 6e8ef9d..56fea79 100644
--- a/core/src/main/cpp/interfaces/saver.h
+++ b/core/src/main/cpp/interfaces/saver.h
@@ -28,6 +28,7 @@ namespace vgram_core {
         static void save(const vgram_core::StringStreamVGram *string_stream_vgram, const std::string &filename) {
             json dict;
             add_base_info(dict, string_stream_vgram->stream_builder_.get(), string_stream_vgram->tokenizer_);
+            dict["words_are_tokens"] = string_stream_vgram->words_are_tokens;
             write_to_file(dict, filename);
         }
 
-- 
2.43.0


From 268037d7ee2d363ebdaddb51c259c7b80df72168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:26 +0000
Subject: [PATCH 13/22] fix: a tokenizer never gives a new token the id of
 another one

---
 .../src/main/cpp/interfaces/tokenizers/base_tokenizer.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/src/main/cpp/interfaces/tokenizers/base_tokenizer.cc b/core/src/main/cpp/interfaces/tokenizers/base_tokenizer.cc
index 258f705..6214888 100644
--- a/core/src/main/cpp/interfaces/tokenizers/base_tokenizer.cc
+++ b/core/src/main/cpp/interfaces/tokenizers/base_tokenizer.cc
@@ -33,8 +33,13 @@ vector<int> BaseTokenizer::transform(const string &seq) {
     coded_seq.reserve(tokens.size());
     for (const std::string &symb : tokens) {
         if (forward_coder_.count(symb) == 0) {
-            forward_coder_[symb] = static_cast<int>(forward_coder_.size());
-            backward_coder_[backward_coder_.size()] = symb;
+            // ids of a given forward_map may be not successive
+            int id = static_cast<int>(forward_coder_.size());
+            while (backward_coder_.count(id) > 0) {
+                id++;
+            }
+            forward_coder_[symb] = id;
+            backward_coder_[id] = symb;
         }
         coded_seq.push_back(forward_coder_.at(symb));
     }
-- 
2.43.0


From b0718792d24eb8ab138abe10334b5abee560f4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:26 +0000
Subject: [PATCH 14/22] fix: repeated spaces do not become a part of a word

---
 core/src/main/cpp/interfaces/tokenizers/word_tokenizer.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/core/src/main/cpp/interfaces/tokenizers/word_tokenizer.cc b/core/src/main/cpp/interfaces/tokenizers/word_tokenizer.cc
index a70f5b1..6fffb27 100644
--- a/core/src/main/cpp/interfaces/tokenizers/word_tokenizer.cc
+++ b/core/src/main/cpp/interfaces/tokenizers/word_tokenizer.cc
@@ -19,9 +19,11 @@ vector<string> WordTokenizer::tokenize(const string &str) const {
     vector<string> tokens;
     string current;
     for (char i : str) {
-        if (i == ' ' && current != "") {
-            tokens.push_back(current);
-            current = "";
+        if (i == ' ') {
+            if (current != "") {
+                tokens.push_back(current);
+                current = "";
+            }
         } else {
             current += i;
         }
-- 
2.43.0


From c9ae0fafa6ef60c3b3b83d487f929e06434e6589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:28 +0000
Subject: [PATCH 15/22] fix: save reports that the file could not be written

---
 core/src/main/cpp/interfaces/saver.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/src/main/cpp/interfaces/saver.h b/core/src/main/cpp/interfaces/saver.h
index 56fea79..ddcd79c 100644
--- a/core/src/main/cpp/interfaces/saver.h
+++ b/core/src/main/cpp/interfaces/saver.h
@@ -7,6 +7,7 @@
 
 #include <fstream>
 #include <iomanip>
+#include <stdexcept>
 #include "vgram_builders/string_vgram.h"
 
 namespace vgram_core {
@@ -44,7 +45,9 @@ namespace vgram_core {
             std::ofstream file(filename);
             file << std::setw(2) << dict << std::endl;
             file.close();
-
+            if (!file) {
+                throw std::runtime_error("Can't save to " + filename);
+            }
         }
 
         static void add_base_info(json &dict, const vgram_core::IntStreamVGram *int_stream_vgram,
-- 
2.43.0


From 3c0b962b4105f63bef311aaf10fd48db1a757f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:52 +0000
Subject: [PATCH 16/22] fix: a saved text model keeps the texts of the tokens
 accepted after the last update_dict()

---
 core/src/main/cpp/interfaces/loader.h |  4 ++++
 core/src/main/cpp/interfaces/saver.h  | 14 ++++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/core/src/main/cpp/interfaces/loader.h b/core/src/main/cpp/interfaces/loader.h
index 4019a46..0442ef9 100644
--- a/core/src/main/cpp/interfaces/loader.h
+++ b/core/src/main/cpp/interfaces/loader.h
@@ -105,6 +105,10 @@ namespace vgram_core {
                     forward_map[key] = vec[0];
                 }
             }
+            int code = 0;
+            for (const auto &token : dict["tokens"]) {
+                forward_map[token.get<std::string>()] = coder->decode(IntSeq(1, code++))[0];
+            }
             if (words_are_tokens) {
                 return std::make_shared<WordTokenizer>(forward_map);
             }
diff --git a/core/src/main/cpp/interfaces/saver.h b/core/src/main/cpp/interfaces/saver.h
index ddcd79c..a39e39c 100644
--- a/core/src/main/cpp/interfaces/saver.h
+++ b/core/src/main/cpp/interfaces/saver.h
@@ -29,6 +29,8 @@ namespace vgram_core {
         static void save(const vgram_core::StringStreamVGram *string_stream_vgram, const std::string &filename) {
             json dict;
             add_base_info(dict, string_stream_vgram->stream_builder_.get(), string_stream_vgram->tokenizer_);
+            dict["tokens"] = tokens_to_json(string_stream_vgram->stream_builder_->get_coder(),
+                                            string_stream_vgram->tokenizer_);
             dict["words_are_tokens"] = string_stream_vgram->words_are_tokens;
             write_to_file(dict, filename);
         }
@@ -36,6 +38,7 @@ namespace vgram_core {
         static void save(const vgram_core::StringVGram *string_vgram, const std::string &filename) {
             json dict;
             add_base_info(dict, string_vgram->int_builder_.get(), string_vgram->tokenizer_);
+            dict["tokens"] = tokens_to_json(string_vgram->int_builder_->get_coder(), string_vgram->tokenizer_);
             add_fitted_info(dict, string_vgram->int_builder_.get());
             write_to_file(dict, filename);
         }
@@ -74,6 +77,17 @@ namespace vgram_core {
             return coder_obj;
         }
 
+        // texts of all accepted tokens in the order of their codes, the alphabet may not have all of them yet
+        static json tokens_to_json(const std::shared_ptr<vgram_core::SeqCoder> &coder,
+                                   const std::shared_ptr<vgram_core::BaseTokenizer> &tokenizer) {
+            json tokens = json::array();
+            int size = static_cast<int>(coder->code_map().size());
+            for (int code = 0; code < size; code++) {
+                tokens.push_back(tokenizer->decode(coder->decode(IntSeq(1, code))));
+            }
+            return tokens;
+        }
+
         static json alphabet_to_json(const vgram_core::IntStreamVGram *int_stream_vgram,
                                      const std::shared_ptr<vgram_core::BaseTokenizer> &tokenizer) {
             json alpha;
-- 
2.43.0


From e3323254ec67e663066bc9c8a286f69736bc656c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:03 +0000
Subject: [PATCH 17/22] fix: symbols registered in the published dictionary
 survive a reduction

Pruning looked only at the symbols that already had a counter, so a symbol
registered through result() was dropped unless result_freqs() had been called.
---
 core/src/main/cpp/algorithm/stat_dict_p.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/main/cpp/algorithm/stat_dict_p.cc b/core/src/main/cpp/algorithm/stat_dict_p.cc
index 605b280..e085254 100644
--- a/core/src/main/cpp/algorithm/stat_dict_p.cc
+++ b/core/src/main/cpp/algorithm/stat_dict_p.cc
@@ -193,7 +193,7 @@ double StatDictImpl::reduce(int slots, std::vector<IntSeq>* new_dict, IntSeq* fr
 }
 
 int StatDictImpl::filter_stat_items(int slots, std::vector<StatItem>* items) const {
-    for (int s = 0; s < symbol_freqs_.size(); s++)
+    for (int s = 0; s < size(); s++)
         if (parent(s) < 0)
             slots += 1;
     std::unordered_set<int> excludes;
@@ -208,7 +208,7 @@ int StatDictImpl::filter_stat_items(int slots, std::vector<StatItem>* items) con
 
 int StatDictImpl::stat_items(std::vector<StatItem>* items, std::unordered_set<int>* excludes) const {
     double code_length = code_length_per_char() * total_chars_;
-    for (int id = 0; id < symbol_freqs_.size(); id++) {
+    for (int id = 0; id < size(); id++) {
         if (excludes->count(id) == 0) {
             int count = freq(id);
             const IntSeq& seq = get(id);
-- 
2.43.0


From 3627d5389ebe029dea855e27cd32e51242aa5bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:23 +0000
Subject: [PATCH 18/22] fix: a statistics dictionary counts only the symbols of
 the current parse

parse() appends to its output but counted everything the output held, so what
was there before the call was counted once more.
---
 core/src/main/cpp/algorithm/stat_dict_p.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/src/main/cpp/algorithm/stat_dict_p.cc b/core/src/main/cpp/algorithm/stat_dict_p.cc
index e085254..cc04502 100644
--- a/core/src/main/cpp/algorithm/stat_dict_p.cc
+++ b/core/src/main/cpp/algorithm/stat_dict_p.cc
@@ -87,10 +87,12 @@ bool StatDictImpl::enough(double prob_found) const {
 }
 
 int StatDictImpl::parse(const IntSeq& seq, IntSeq* parse_result) {
+    size_t old_size = parse_result->size();
     dict_->parse(seq, parse_freqs_, power_ + parse_freqs_init_power_, parse_result);
     total_chars_ += seq.size();
     int prev = -1;
-    for (int symbol : *parse_result) {
+    for (size_t i = old_size; i < parse_result->size(); i++) {
+        int symbol = (*parse_result)[i];
         update_symbol(symbol, 1);
         if (prev >= 0)
             pairs_freqs_[(((std::int64_t) prev) << 32) | symbol] += 1; // Sanitizer: indirect leak
-- 
2.43.0


From 4e2ba5e389c6de24b7f5cc51e865f78519b34b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:27 +0000
Subject: [PATCH 19/22] fix: the sum of a dictionary's frequencies does not
 overflow an int

---
 core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc | 2 +-
 core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.h  | 2 +-
 core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc        | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
index a80ba05..7ed32bc 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.cc
@@ -80,7 +80,7 @@ void IntStreamVGram::set_dict(const std::vector<IntSeq> &alphabet, const IntSeq
     for (int i = 0; i < freqs.size(); i++) {
         freqs_[dict_->search(alphabet[i], nullptr)] += freqs[i];
     }
-    total_freqs_ = std::accumulate(freqs_.begin(), freqs_.end(), 0);
+    total_freqs_ = std::accumulate(freqs_.begin(), freqs_.end(), 0.0);
 }
 
 std::vector<IntSeq> IntStreamVGram::alphabet() const {
diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.h b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.h
index 43d3b71..d0beaa9 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.h
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_stream_vgram.h
@@ -52,7 +52,7 @@ namespace vgram_core {
         std::shared_ptr<IntDict> dict_;
         std::shared_ptr<SeqCoder> coder_;
         IntSeq freqs_;
-        int total_freqs_;
+        double total_freqs_;
         double min_probability_;
         int verbose_;
         std::shared_ptr<IntDict> restored_dict_;
diff --git a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
index 69b45d1..00b2cc7 100644
--- a/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
+++ b/core/src/main/cpp/interfaces/vgram_builders/int_vgram.cc
@@ -74,7 +74,7 @@ bool IntVGram::recompute_freqs(const std::vector<IntSeq> &seqs) {
         }
     }
     freqs_ = freqs;
-    total_freqs_ = std::accumulate(freqs_.begin(), freqs_.end(), 0);
+    total_freqs_ = std::accumulate(freqs_.begin(), freqs_.end(), 0.0);
     return true;
 }
 
-- 
2.43.0


From 18cf653f7d24514f4987721b0762a45272ce0c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:27 +0000
Subject: [PATCH 20/22] fix: a symbol of the largest frequency an int holds is
 scored, not overflowed

---
 core/src/main/cpp/algorithm/int_dict_p.cc  | 2 +-
 core/src/main/cpp/algorithm/stat_dict_p.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/main/cpp/algorithm/int_dict_p.cc b/core/src/main/cpp/algorithm/int_dict_p.cc
index 0f82cba..97686e9 100644
--- a/core/src/main/cpp/algorithm/int_dict_p.cc
+++ b/core/src/main/cpp/algorithm/int_dict_p.cc
@@ -83,7 +83,7 @@ double IntDictImpl::weightedParse(const IntSeq& seq, const IntSeq& freqs, double
             continue;
         do {
             auto sym_len = get(sym).size();
-            double sym_log_prob = (freqs.size() > sym ? log(freqs[sym] + 1) : 0) - log(total_freq + size());
+            double sym_log_prob = (freqs.size() > sym ? log(freqs[sym] + 1.0) : 0) - log(total_freq + size());
             if (score[sym_len + pos] < score[pos] + sym_log_prob) {
                 score[sym_len + pos] = score[pos] + sym_log_prob;
                 symbols[sym_len + pos] = sym;
diff --git a/core/src/main/cpp/algorithm/stat_dict_p.cc b/core/src/main/cpp/algorithm/stat_dict_p.cc
index cc04502..5704916 100644
--- a/core/src/main/cpp/algorithm/stat_dict_p.cc
+++ b/core/src/main/cpp/algorithm/stat_dict_p.cc
@@ -253,7 +253,7 @@ double StatDictImpl::weightedParse(const IntSeq& seq, const IntSeq& freqs, doubl
         int sym = search(suffix, excludes);
         do {
             auto sym_len = get(sym).size();
-            double sym_log_prob = (freqs.size() > sym ? log(freqs[sym] + 1) : 0) - log(total_freq + size());
+            double sym_log_prob = (freqs.size() > sym ? log(freqs[sym] + 1.0) : 0) - log(total_freq + size());
             if (score[sym_len + pos] < score[pos] + sym_log_prob)
             {
                 score[sym_len + pos] = score[pos] + sym_log_prob;
-- 
2.43.0


From 81641fed437ff8546e2056f5880bb8b5757435d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:19 +0000
Subject: [PATCH 21/22] fix: count symbols that were registered by a search of
 the published dictionary

result_freqs adds zeros for them to the counted frequencies only; the
parse frequencies stayed shorter and were written past their end when
such a symbol was accepted.
---
 core/src/main/cpp/algorithm/stat_dict_p.cc | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/core/src/main/cpp/algorithm/stat_dict_p.cc b/core/src/main/cpp/algorithm/stat_dict_p.cc
index 5704916..1a8feab 100644
--- a/core/src/main/cpp/algorithm/stat_dict_p.cc
+++ b/core/src/main/cpp/algorithm/stat_dict_p.cc
@@ -33,12 +33,10 @@ StatDictImpl::StatDictImpl(const std::vector<IntSeq>& seqs, double min_prob_resu
 }
 
 void StatDictImpl::update_symbol(int index, int freq) {
-    if (index >= symbol_freqs_.size()) {
-        for (auto i = symbol_freqs_.size(); i < index + 1; i++)
-            symbol_freqs_.push_back(0); // Sanitizer: indirect leak
-        for (auto i = parse_freqs_.size(); i < index + 1; i++)
-            parse_freqs_.push_back(0); // Sanitizer: indirect leak
-    }
+    for (auto i = symbol_freqs_.size(); i < index + 1; i++)
+        symbol_freqs_.push_back(0); // Sanitizer: indirect leak
+    for (auto i = parse_freqs_.size(); i < index + 1; i++)
+        parse_freqs_.push_back(0); // Sanitizer: indirect leak
     symbol_freqs_[index] += freq;
     parse_freqs_[index] += freq;
     power_ += freq;
-- 
2.43.0


From 3441cd744dbbc8bc7d46e17816cd66d77fb92cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:19 +0000
Subject: [PATCH 22/22] fix: give a builder the symbols of its initial longer
 sequences

The first reduction compares each longer sequence with its parse
without it and read outside the dictionary when a symbol of it was no
entry itself.
---
 core/src/main/cpp/algorithm/int_vgram_builder_p.cc | 11 +++++++++++
 core/src/main/cpp/algorithm/int_vgram_builder_p.h  |  1 +
 2 files changed, 12 insertions(+)

diff --git a/core/src/main/cpp/algorithm/int_vgram_builder_p.cc b/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
index 6d49118..5b0ba1f 100644
--- a/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
+++ b/core/src/main/cpp/algorithm/int_vgram_builder_p.cc
@@ -34,6 +34,7 @@ IntVGramBuilderImpl::IntVGramBuilderImpl(const IntDict &dict, const IntSeq &freq
                                                                           &freqs_copy);
     current_ = result;
     result_ = result;
+    add_symbols();
 }
 
 void IntVGramBuilderImpl::init(const IntDict &alphabet, int size, int verbose) {
@@ -41,6 +42,16 @@ void IntVGramBuilderImpl::init(const IntDict &alphabet, int size, int verbose) {
     size_ = size;
     current_ = std::make_shared<StatDictImpl>(alphabet.alphabet());
     result_ = nullptr;
+    add_symbols();
+}
+
+// a sequence is weighed against its parse without it, so its symbols have to be in the dictionary as well
+void IntVGramBuilderImpl::add_symbols() {
+    const std::vector<IntSeq> seqs = current_->alphabet();
+    for (const IntSeq &seq : seqs) {
+        for (int symbol : seq)
+            current_->search(IntSeq(1, symbol));
+    }
 }
 
 std::shared_ptr<IntDict> IntVGramBuilderImpl::result() const {
diff --git a/core/src/main/cpp/algorithm/int_vgram_builder_p.h b/core/src/main/cpp/algorithm/int_vgram_builder_p.h
index e9014e6..50128ed 100644
--- a/core/src/main/cpp/algorithm/int_vgram_builder_p.h
+++ b/core/src/main/cpp/algorithm/int_vgram_builder_p.h
@@ -46,6 +46,7 @@ private:
     int verbose_ = 0;
 
     void init(const IntDict &alphabet, int size, int verbose);
+    void add_symbols();
 
     void update();
 
-- 
2.43.0

