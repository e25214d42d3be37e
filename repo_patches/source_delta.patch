From 8177a3595c769046796587866b76849811e1bc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:43 +0000
Subject: [PATCH 01/74] fix: CSV reader loops forever on a last line that ends
 with a separator and no newline

---
 src/util/csv_reader.cc | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/util/csv_reader.cc b/src/util/csv_reader.cc
index 33c9cb7..52336ea 100644
--- a/src/util/csv_reader.cc
+++ b/src/util/csv_reader.cc
@@ -32,12 +32,10 @@ bool CsvReader::nextLine() {
   for (;; ++position) {
     // This block executes when end of file is reached
     if (position == end) {
-      if (field_start != position) {
-        if (shouldEmit) {
-          fields_.emplace_back(field_start, position);
-        }
-        position_ = position;
+      if (shouldEmit) {
+        fields_.emplace_back(field_start, position);
       }
+      position_ = position;
       break;
     }
 
-- 
2.43.0


From 94c9e501e2a006886572f8298b1ff0b3634bd60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:12 +0000
Subject: [PATCH 02/74] fix: hash table clear() keeps deleted markers, later
 lookups never terminate

---
 src/util/flatrep.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/flatrep.h b/src/util/flatrep.h
index e8fcc86..8e4f3b7 100644
--- a/src/util/flatrep.h
+++ b/src/util/flatrep.h
@@ -84,8 +84,9 @@ class FlatRep {
         for (uint32 i = 0; i < kWidth; i++) {
           if (b->marker[i] >= 2) {
             b->Destroy(i);
-            b->marker[i] = kEmpty;
           }
+          // deleted entries must become empty as well: lookups stop only there
+          b->marker[i] = kEmpty;
         }
       }
     }
-- 
2.43.0


From a7167bfe0dade3856deabe91798cf568bf1bc06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:22 +0000
Subject: [PATCH 03/74] fix: strings that differ only after a zero byte compare
 equal

---
 src/core/dic/darts_trie.cc | 5 +----
 src/util/string_piece.cc   | 7 +++++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/core/dic/darts_trie.cc b/src/core/dic/darts_trie.cc
index 0dc2936..b638562 100644
--- a/src/core/dic/darts_trie.cc
+++ b/src/core/dic/darts_trie.cc
@@ -22,10 +22,7 @@ DoubleArrayBuilder::DoubleArrayBuilder()
 Status DoubleArrayBuilder::build(ProgressCallback *progress) {
   std::sort(immediate_.begin(), immediate_.end(),
             [](const impl::PieceWithValue &l, const impl::PieceWithValue &r) {
-              int cmp = std::strncmp(l.key.char_begin(), r.key.char_begin(),
-                                     std::min(l.key.size(), r.key.size()));
-              if (cmp == 0) return l.key.size() < r.key.size();
-              return cmp < 0;
+              return l.key < r.key;
             });
 
   std::vector<StringPiece::pointer_t> keys;
diff --git a/src/util/string_piece.cc b/src/util/string_piece.cc
index b96425b..8cb2645 100644
--- a/src/util/string_piece.cc
+++ b/src/util/string_piece.cc
@@ -15,12 +15,15 @@ std::ostream &operator<<(std::ostream &str, StringPiece sp) {
 
 bool operator==(StringPiece l, StringPiece r) {
   if (l.size() != r.size()) return false;
-  return std::strncmp(l.char_begin(), r.char_begin(), l.size()) == 0;
+  return l.size() == 0 ||
+         std::memcmp(l.char_begin(), r.char_begin(), l.size()) == 0;
 }
 
 bool operator<(StringPiece l, StringPiece r) {
   auto min_size = std::min(l.size(), r.size());
-  int res = std::strncmp(l.char_begin(), r.char_begin(), min_size);
+  int res = min_size == 0
+                ? 0
+                : std::memcmp(l.char_begin(), r.char_begin(), min_size);
   if (res == 0) {
     return l.size() < r.size();
   }
-- 
2.43.0


From 1be2e6dc58584f53e5240c0c82261b794bcc3d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:22 +0000
Subject: [PATCH 04/74] fix: number parser silently wraps values that do not
 fit

---
 src/util/parse_utils.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/util/parse_utils.cc b/src/util/parse_utils.cc
index 1b7b121..5628b6a 100644
--- a/src/util/parse_utils.cc
+++ b/src/util/parse_utils.cc
@@ -16,7 +16,11 @@ bool parseU64(StringPiece sp, u64* result) {
   for (const char* c = sp.char_begin(); c < sp.char_end(); ++c) {
     char x = *c;
     if (x >= '0' && x <= '9') {
-      val = (val * 10) + (x - '0');
+      u64 digit = static_cast<u64>(x - '0');
+      if (val > (~u64{0} - digit) / 10) {
+        return false;  // does not fit
+      }
+      val = (val * 10) + digit;
     } else {
       return false;
     }
-- 
2.43.0


From a47cd74c68cf9cfd824c3a986eb3d3ce3e7a742d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:22 +0000
Subject: [PATCH 05/74] fix: a failed field is hidden by following fields when
 loading serialized data

---
 src/util/serialization.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/util/serialization.h b/src/util/serialization.h
index 38429e3..c030507 100644
--- a/src/util/serialization.h
+++ b/src/util/serialization.h
@@ -72,7 +72,10 @@ class Loader {
 
   template <typename T>
   void operator&(T &o) {
-    status_ = SerializeImpl<T>::DoSerializeLoad(o, this, parser_);
+    // a failure must not be hidden by fields which follow it
+    if (status_) {
+      status_ = SerializeImpl<T>::DoSerializeLoad(o, this, parser_);
+    }
   }
 
   void reset(StringPiece data) { parser_.reset(data); }
-- 
2.43.0


From 7999607e9ea0593d565f34ad67d5ea9a191c7a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:22 +0000
Subject: [PATCH 06/74] fix: loading a damaged vector length throws instead of
 failing

---
 src/util/serialization.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/util/serialization.h b/src/util/serialization.h
index c030507..31b503a 100644
--- a/src/util/serialization.h
+++ b/src/util/serialization.h
@@ -254,8 +254,12 @@ struct SerializeImpl<std::vector<T, A>> {
                                      util::CodedBufferParser &p) {
     u64 sz;
     JPP_RET_CHECK(p.readVarint64(&sz));
+    // each element takes at least one byte
+    if (sz > p.remaining()) {
+      return false;
+    }
     o.reserve(sz);
-    for (int i = 0; i < sz; ++i) {
+    for (u64 i = 0; i < sz; ++i) {
       o.emplace_back();
       JPP_RET_CHECK(SerializeImpl<T>::DoSerializeLoad(o.back(), s, p));
     }
-- 
2.43.0


From 11b75c5dd744aac4c17de4da9058c21b5e03e7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:49 +0000
Subject: [PATCH 07/74] fix: string list fields ignore the configured list
 separator

---
 src/core/dic/dic_feature_impl.cc |  3 ++-
 src/core/dic/field_import.cc     | 10 ++++++----
 src/core/dic/field_import.h      |  7 +++++--
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/core/dic/dic_feature_impl.cc b/src/core/dic/dic_feature_impl.cc
index 4b10ef2..6a92863 100644
--- a/src/core/dic/dic_feature_impl.cc
+++ b/src/core/dic/dic_feature_impl.cc
@@ -47,7 +47,8 @@ Status ColumnImportContext::initialize(
     case FieldType::StringList: {
       i32 stringIdx = descr->stringStorage;
       auto stor = &storages[stringIdx];
-      importer.reset(new impl::StringListFieldImporter{stor, colpos, emptyStr});
+      importer.reset(new impl::StringListFieldImporter{
+          stor, colpos, emptyStr, descr->listSeparator});
       break;
     }
     case FieldType::StringKVList: {
diff --git a/src/core/dic/field_import.cc b/src/core/dic/field_import.cc
index c480d93..a172ba3 100644
--- a/src/core/dic/field_import.cc
+++ b/src/core/dic/field_import.cc
@@ -27,7 +27,8 @@ i32 StringListFieldImporter::fieldPointer(const util::CsvReader& csv) {
   values_.clear();
 
   while (sp.size() > 0) {
-    auto space = std::find(sp.begin(), sp.end(), ' ');
+    auto space = std::search(sp.begin(), sp.end(), separator_.begin(),
+                             separator_.end());
     auto key = StringPiece{sp.begin(), space};
     auto v = storage_->valueOf(key);
     JPP_DCHECK_NE(v, -1);
@@ -35,7 +36,7 @@ i32 StringListFieldImporter::fieldPointer(const util::CsvReader& csv) {
     if (space == sp.end()) {
       break;
     }
-    sp = StringPiece{space + 1, sp.end()};
+    sp = StringPiece{space + separator_.size(), sp.end()};
   }
 
   i32 result = static_cast<i32>(buffer_->position());
@@ -49,13 +50,14 @@ bool StringListFieldImporter::importFieldValue(const util::CsvReader& csv) {
     return true;
   }
   while (sp.size() > 0) {
-    auto space = std::find(sp.begin(), sp.end(), ' ');
+    auto space = std::search(sp.begin(), sp.end(), separator_.begin(),
+                             separator_.end());
     auto key = StringPiece{sp.begin(), space};
     storage_->increaseFieldValueCount(key);
     if (space == sp.end()) {
       return true;
     }
-    sp = StringPiece{space + 1, sp.end()};
+    sp = StringPiece{space + separator_.size(), sp.end()};
   }
 
   return true;
diff --git a/src/core/dic/field_import.h b/src/core/dic/field_import.h
index 8c2904b..834b25f 100644
--- a/src/core/dic/field_import.h
+++ b/src/core/dic/field_import.h
@@ -152,10 +152,13 @@ class StringListFieldImporter : public StringFieldImporter {
    */
   util::CodedBuffer* buffer_;
   std::vector<i32> values_;
+  std::string separator_;
 
  public:
-  StringListFieldImporter(StringStorage* storage, i32 field, StringPiece ignore)
-      : StringFieldImporter::StringFieldImporter(storage, field, ignore) {}
+  StringListFieldImporter(StringStorage* storage, i32 field, StringPiece ignore,
+                          StringPiece separator = StringPiece{" "})
+      : StringFieldImporter::StringFieldImporter(storage, field, ignore),
+        separator_{separator.str()} {}
 
   bool importFieldValue(const util::CsvReader& csv) override;
 
-- 
2.43.0


From 9928429f86e922e0f53a0d94d633eb301d76a3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:49 +0000
Subject: [PATCH 08/74] fix: report list field items which do not fit into the
 string storage

---
 src/core/dic/field_import.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/dic/field_import.cc b/src/core/dic/field_import.cc
index a172ba3..54b2805 100644
--- a/src/core/dic/field_import.cc
+++ b/src/core/dic/field_import.cc
@@ -53,7 +53,7 @@ bool StringListFieldImporter::importFieldValue(const util::CsvReader& csv) {
     auto space = std::search(sp.begin(), sp.end(), separator_.begin(),
                              separator_.end());
     auto key = StringPiece{sp.begin(), space};
-    storage_->increaseFieldValueCount(key);
+    JPP_RET_CHECK(storage_->increaseFieldValueCount(key));
     if (space == sp.end()) {
       return true;
     }
@@ -137,12 +137,12 @@ bool StringKeyValueListFieldImporter::importFieldValue(
     auto sepIter = std::search(sp.begin(), space, kvSeparator_.begin(),
                                kvSeparator_.end());
     if (sepIter == space) {
-      storage_->increaseFieldValueCount(entry);
+      JPP_RET_CHECK(storage_->increaseFieldValueCount(entry));
     } else {
       auto key = StringPiece{sp.begin(), sepIter};
       auto value = StringPiece{sepIter + kvsepSize, space};
-      storage_->increaseFieldValueCount(key);
-      storage_->increaseFieldValueCount(value);
+      JPP_RET_CHECK(storage_->increaseFieldValueCount(key));
+      JPP_RET_CHECK(storage_->increaseFieldValueCount(value));
     }
     if (space == sp.end()) {
       return true;
-- 
2.43.0


From 60b4a425441d3f75c130b5881e15e59450f4c6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:38 +0000
Subject: [PATCH 09/74] fix: integer dictionary fields could not be imported
 (invalid regex), were truncated and read past their end

---
 src/core/dic/field_import.cc | 27 +++++++++++++++++++++------
 src/core/dic/field_import.h  |  3 ---
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/core/dic/field_import.cc b/src/core/dic/field_import.cc
index 54b2805..c23aedc 100644
--- a/src/core/dic/field_import.cc
+++ b/src/core/dic/field_import.cc
@@ -4,7 +4,9 @@
 
 #include "field_import.h"
 #include <algorithm>
+#include <limits>
 #include "util/memory.hpp"
+#include "util/parse_utils.h"
 
 namespace jumanpp {
 namespace core {
@@ -69,22 +71,35 @@ void StringListFieldImporter::injectFieldBuffer(util::CodedBuffer* buffer) {
   buffer->writeVarint(0);
 }
 
-IntFieldImporter::IntFieldImporter(i32 field)
-    : fld_{field}, re_{"^\\d+$", std::regex::optimize | std::regex::extended} {}
+namespace {
+bool parseIntField(StringPiece sp, i32* result) {
+  u64 value = 0;
+  JPP_RET_CHECK(util::parseU64(sp, &value));
+  if (value > static_cast<u64>(std::numeric_limits<i32>::max())) {
+    return false;
+  }
+  *result = static_cast<i32>(value);
+  return true;
+}
+}  // namespace
+
+IntFieldImporter::IntFieldImporter(i32 field) : fld_{field} {}
 
 i32 IntFieldImporter::fieldPointer(const util::CsvReader& csv) {
   StringPiece sp = csv.field(fld_);
   if (sp.size() == 0) {
     return 0;
   }
-  auto end = sp.char_end();
-  long res = std::strtol(sp.char_begin(), const_cast<char**>(&end), 10);
-  return static_cast<i32>(res);
+  i32 res = 0;
+  auto status = parseIntField(sp, &res);
+  JPP_DCHECK(status);
+  return res;
 }
 
 bool IntFieldImporter::importString(StringPiece sp) {
   if (sp.size() == 0) return true;
-  return std::regex_match(sp.char_begin(), sp.char_end(), mr_, re_);
+  i32 value;
+  return parseIntField(sp, &value);
 }
 
 Status StringStorage::makeStorage(util::CodedBuffer* result) {
diff --git a/src/core/dic/field_import.h b/src/core/dic/field_import.h
index 834b25f..b3628b1 100644
--- a/src/core/dic/field_import.h
+++ b/src/core/dic/field_import.h
@@ -6,7 +6,6 @@
 #define JUMANPP_DIC_IMPORT_H
 
 #include <algorithm>
-#include <regex>
 #include "util/char_buffer.h"
 #include "util/coded_io.h"
 #include "util/csv_reader.h"
@@ -212,8 +211,6 @@ void writePtrsAsDeltas(C& values, util::CodedBuffer& buffer) {
 
 class IntFieldImporter : public FieldImporter {
   i32 fld_;
-  std::regex re_;
-  std::match_results<const char*> mr_;
 
  public:
   IntFieldImporter(i32 field);
-- 
2.43.0


From 0b6e48ba25e8ef3c5ca6b1266a90997516e4d520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:19 +0000
Subject: [PATCH 10/74] fix: dictionary is empty when the column of the index
 field differs from its position in the spec

---
 src/core/dic/dic_build_detail.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/dic/dic_build_detail.cc b/src/core/dic/dic_build_detail.cc
index 7683a46..6c4fc54 100644
--- a/src/core/dic/dic_build_detail.cc
+++ b/src/core/dic/dic_build_detail.cc
@@ -171,8 +171,8 @@ Status DictionaryBuilderStorage::initialize(const s::DictionarySpec& dicSpec) {
 Status DictionaryBuilderStorage::initDicFeatures(const FeaturesSpec& dicSpec) {
   DicFeatureContext ctx{storage, importers, stringBuffers, intBuffers};
   JPP_RETURN_IF_ERROR(entries.createFeatures(dicSpec, ctx));
-  entries.surfaceIdx_ = static_cast<u32>(indexColumn);
   auto desc = importers[indexColumn].descriptor;
+  entries.surfaceIdx_ = static_cast<u32>(desc->position - 1);
   entries.realSurfaceStorage_ = &storage[desc->stringStorage];
   entries.featureBuf_.resize(static_cast<size_t>(dicSpec.numDicFeatures));
   return Status::Ok();
-- 
2.43.0


From ee83cc9163528720206b8ba070459d365771ffd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:19 +0000
Subject: [PATCH 11/74] fix: equal dictionary rows without data fields
 disappear from the analysis output

---
 src/core/dic/dic_entries.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/dic/dic_entries.h b/src/core/dic/dic_entries.h
index 137e9a5..36120e4 100644
--- a/src/core/dic/dic_entries.h
+++ b/src/core/dic/dic_entries.h
@@ -47,7 +47,7 @@ class DicEntryBuffer {
         featureBuffer_.begin());
     std::copy(c.dataBuffer_.begin(),
               std::min(std::max(c.dataBuffer_.begin() + numData_,
-                                c.dataBuffer_.begin()),
+                                c.dataBuffer_.begin() + 1),  // count
                        c.dataBuffer_.end()),
               dataBuffer_.begin());
   }
@@ -109,6 +109,11 @@ class DicEntryBuffer {
         return false;
       }
       auto numAlias = featureBuffer_[numFeatures_];
+      if (numData_ == 0) {  // nothing to read, aliases are only counted
+        remainingData_.clear();
+        dataBuffer_[0] = numAlias;
+        return true;
+      }
       auto dataCnt = numData_ * numAlias;
       auto readBytes = actualData.numReadBytes();
       auto dataPtr = dicPtr + readBytes;
-- 
2.43.0


From 6368b14986ee06794c332396e27b377219a7acce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:19 +0000
Subject: [PATCH 12/74] fix: entry count misses words which share the surface
 with an unknown word template

---
 src/core/dic/dic_build_detail.cc | 2 +-
 src/core/dic/entry_builder.cc    | 5 ++++-
 src/core/dic/entry_builder.h     | 2 +-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/core/dic/dic_build_detail.cc b/src/core/dic/dic_build_detail.cc
index 6c4fc54..b13e9b3 100644
--- a/src/core/dic/dic_build_detail.cc
+++ b/src/core/dic/dic_build_detail.cc
@@ -130,7 +130,7 @@ i32 DictionaryBuilderStorage::importActualData(util::CsvReader* csv,
     }
     ++numLine;
   }
-  entries.writeRest();
+  entryCnt += entries.writeRest();
   return entryCnt;
 }
 
diff --git a/src/core/dic/entry_builder.cc b/src/core/dic/entry_builder.cc
index b81de76..283c5e7 100644
--- a/src/core/dic/entry_builder.cc
+++ b/src/core/dic/entry_builder.cc
@@ -71,9 +71,11 @@ Status EntryTableBuilder::createFeatures(const spec::FeaturesSpec& features,
   return Status::Ok();
 }
 
-void EntryTableBuilder::writeRest() {
+i32 EntryTableBuilder::writeRest() {
+  i32 count = 0;
   auto& reorderBuffer = entryBag.reorderBuffer;
   for (auto it : entryBag.entries) {
+    count += static_cast<i32>(it.second.count);
     for (auto& p : it.second.data) {
       reorderBuffer.push_back(&p.second);
     }
@@ -91,6 +93,7 @@ void EntryTableBuilder::writeRest() {
     reorderBuffer.clear();
   }
   entryBag.entries.clear();
+  return count;
 }
 
 i32 DicEntryBag::add(EntryTableBuilder* bldr, const xi::FeatureBuffer& features,
diff --git a/src/core/dic/entry_builder.h b/src/core/dic/entry_builder.h
index 82af427..7f332ec 100644
--- a/src/core/dic/entry_builder.h
+++ b/src/core/dic/entry_builder.h
@@ -108,7 +108,7 @@ struct EntryTableBuilder {
   Status createFeatures(const spec::FeaturesSpec& features,
                         const DicFeatureContext& ctx);
 
-  void writeRest();
+  i32 writeRest();
 };
 
 }  // namespace dic
-- 
2.43.0


From 6dc706a8a4dbb6350d81d6dc69f38a09d1adccf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:08 +0000
Subject: [PATCH 13/74] fix: number ending with a period reads past the end of
 the input

---
 src/core/analysis/numeric_creator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/analysis/numeric_creator.cc b/src/core/analysis/numeric_creator.cc
index 9dd3d16..52cbd47 100644
--- a/src/core/analysis/numeric_creator.cc
+++ b/src/core/analysis/numeric_creator.cc
@@ -245,7 +245,7 @@ size_t NumericUnkMaker::checkPeriod(const CodepointStorage &codepoints,
   if (pos == 0) return 0;
   if (!codepoints[posPeriod].hasClass(PeriodClass)) return 0;
   if (!codepoints[posPeriod - 1].hasClass(charClass_)) return 0;
-  if (pos + 1 < codepoints.size() &&
+  if (posPeriod + 1 < codepoints.size() &&
       codepoints[posPeriod + 1].hasClass(charClass_))
     return 1;
   return 0;
-- 
2.43.0


From 334fae974fd0516a9b9f4cdfd157d590601fbae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:08 +0000
Subject: [PATCH 14/74] fix: numbers cut at the length limit end with a
 dangling separator

---
 src/core/analysis/numeric_creator.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/analysis/numeric_creator.cc b/src/core/analysis/numeric_creator.cc
index 52cbd47..6c9e07a 100644
--- a/src/core/analysis/numeric_creator.cc
+++ b/src/core/analysis/numeric_creator.cc
@@ -262,7 +262,9 @@ LatticePosition NumericUnkMaker::FindLongestNumber(
 
       // Check Exception
       if ((charLength = checkExceptionalCharsInFigure(codepoints, start, pos)) >
-          0) {
+              0 &&
+          // the number must not be cut right after its inner part
+          pos + charLength <= MaxNumericLength) {
         pos += charLength - 1;  // pos is inclemented by for statement
       } else {
         return pos;
-- 
2.43.0


From 739b45a09833ce965a539db99987db433ed0c8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:08 +0000
Subject: [PATCH 15/74] fix: four character onomatopoeia at the end of the text
 is missed

---
 src/core/analysis/onomatopoeia_creator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/analysis/onomatopoeia_creator.cc b/src/core/analysis/onomatopoeia_creator.cc
index 314544f..e45d1ef 100644
--- a/src/core/analysis/onomatopoeia_creator.cc
+++ b/src/core/analysis/onomatopoeia_creator.cc
@@ -58,7 +58,7 @@ bool OnomatopoeiaUnkMaker::spawnNodes(const AnalysisInput& input,
 
 OnomatopoeiaUnkMaker::Pattern OnomatopoeiaUnkMaker::FindOnomatopoeia(
     const CodepointStorage& codepoints, LatticePosition start) const {
-  if ((start + MinOnomatopoeiaLength) >= codepoints.size()) {
+  if ((start + MinOnomatopoeiaLength) > codepoints.size()) {
     return Pattern::None;
   }
   JPP_DCHECK_IN(start, 0, codepoints.size());
-- 
2.43.0


From 4e7e02f90afd81b4fdb43e27a113abdfed0e10e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:08 +0000
Subject: [PATCH 16/74] fix: onomatopoeia is compared with unrelated dictionary
 words after a failed lookup

---
 src/core/analysis/onomatopoeia_creator.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/analysis/onomatopoeia_creator.cc b/src/core/analysis/onomatopoeia_creator.cc
index e45d1ef..d1f3b78 100644
--- a/src/core/analysis/onomatopoeia_creator.cc
+++ b/src/core/analysis/onomatopoeia_creator.cc
@@ -21,7 +21,7 @@ bool OnomatopoeiaUnkMaker::spawnNodes(const AnalysisInput& input,
   for (LatticePosition i = 0; i < codepoints.size(); ++i) {
     auto trav = entries_.traversal();
     LatticePosition nextstep = i;
-    TraverseStatus status;
+    TraverseStatus status = TraverseStatus::Ok;
     auto pattern = FindOnomatopoeia(codepoints, i);
     if (pattern == Pattern::None) {
       continue;
@@ -29,7 +29,9 @@ bool OnomatopoeiaUnkMaker::spawnNodes(const AnalysisInput& input,
     for (LatticePosition halfLen = 2; halfLen * 2 <= MaxOnomatopoeiaLength;
          ++halfLen) {
       if ((pattern & HalfLenToPattern(halfLen)) != Pattern::None) {
-        for (; nextstep < i + halfLen * 2; ++nextstep) {
+        // once there is no node, longer strings do not have one as well
+        for (; nextstep < i + halfLen * 2 && status != TraverseStatus::NoNode;
+             ++nextstep) {
           status = trav.step(codepoints[nextstep].bytes);
         }
         switch (status) {
-- 
2.43.0


From 986749a5ba964a05243cb73bec3377ed1ca753f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:03 +0000
Subject: [PATCH 17/74] fix: length features crash on the end of the sentence

The entry of EOS does not have any content, but its (negative) field
values were treated as unknown words' ones and dereferenced.
---
 src/core/impl/feature_impl_types.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/impl/feature_impl_types.h b/src/core/impl/feature_impl_types.h
index b332d6d..bad508e 100644
--- a/src/core/impl/feature_impl_types.h
+++ b/src/core/impl/feature_impl_types.h
@@ -156,7 +156,11 @@ class PrimitiveFeatureContext {
   i32 lengthOf(NodeInfo nodeInfo, i32 fieldNum, i32 fieldPtr,
                LengthFieldSource field, bool useBytes) {
     if (fieldPtr < 0) {
-      return extraCtx_->lengthOf(nodeInfo.entryPtr());
+      auto eptr = nodeInfo.entryPtr();
+      if (JPP_UNLIKELY(eptr == EntryPtr::BOS() || eptr == EntryPtr::EOS())) {
+        return 0;  // have no content
+      }
+      return extraCtx_->lengthOf(eptr);
     }
     auto fld = fields_.at(fieldNum);
     switch (field) {
-- 
2.43.0


From 564c6addaf8f5874fa894dee70e713aff9f99659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:19 +0000
Subject: [PATCH 18/74] fix: num_codepoints of a field written by an unknown
 word handler was in bytes

---
 src/core/impl/feature_impl_types.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/impl/feature_impl_types.h b/src/core/impl/feature_impl_types.h
index bad508e..3f28f87 100644
--- a/src/core/impl/feature_impl_types.h
+++ b/src/core/impl/feature_impl_types.h
@@ -160,7 +160,9 @@ class PrimitiveFeatureContext {
       if (JPP_UNLIKELY(eptr == EntryPtr::BOS() || eptr == EntryPtr::EOS())) {
         return 0;  // have no content
       }
-      return extraCtx_->lengthOf(eptr);
+      // field content is the surface
+      return useBytes ? extraCtx_->lengthOf(eptr)
+                      : nodeInfo.numCodepoints();
     }
     auto fld = fields_.at(fieldNum);
     switch (field) {
-- 
2.43.0


From 1db7d6c891f633feaaa72761e699ac941c91ad54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:19 +0000
Subject: [PATCH 19/74] fix: match on a list field looked at a wrong csv column

The index of a field in a spec is not its column number, fields can be
declared in any order and can skip columns.
---
 src/core/dic/dic_feature_impl.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/dic/dic_feature_impl.cc b/src/core/dic/dic_feature_impl.cc
index 6a92863..9b2c21e 100644
--- a/src/core/dic/dic_feature_impl.cc
+++ b/src/core/dic/dic_feature_impl.cc
@@ -92,7 +92,7 @@ Status MatchListDicFeatureImpl::initialize(
   auto& imp = ctx.importers[desc.references.front()];
   auto& ss = ctx.storage[imp.descriptor->stringStorage];
   storage_ = &ss;
-  fieldIdx_ = desc.references.front();
+  fieldIdx_ = imp.descriptor->position - 1;
   auto type = imp.descriptor->fieldType;
   switch (type) {
     case spec::FieldType::StringKVList:
-- 
2.43.0


From c3c7119e865cebbf7bcc66f9dd86893ee672c8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:24 +0000
Subject: [PATCH 20/74] fix: match on a list field split the list differently
 from its importer

The list was parsed as csv: quotes were interpreted, and separators longer
than one byte were not supported. Split plainly, as importers do.
---
 src/core/dic/dic_feature_impl.cc | 25 +++++++++++++------------
 src/core/dic/dic_feature_impl.h  |  2 +-
 2 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/core/dic/dic_feature_impl.cc b/src/core/dic/dic_feature_impl.cc
index 9b2c21e..aaa7030 100644
--- a/src/core/dic/dic_feature_impl.cc
+++ b/src/core/dic/dic_feature_impl.cc
@@ -3,6 +3,7 @@
 //
 
 #include "dic_feature_impl.h"
+#include <algorithm>
 #include "util/stl_util.h"
 
 namespace jumanpp {
@@ -99,13 +100,10 @@ Status MatchListDicFeatureImpl::initialize(
       kvSep_ = imp.descriptor->kvSeparator;
     // fallthrough intended
     case spec::FieldType::StringList: {
-      auto& sep = imp.descriptor->listSeparator;
-      if (sep.size() != 1) {
-        return JPPS_INVALID_PARAMETER
-               << "list separator must have exactly 1 byte, was [" << sep
-               << "], " << sep.size() << " bytes";
+      dataSep_ = imp.descriptor->listSeparator;
+      if (dataSep_.empty()) {
+        return JPPS_INVALID_PARAMETER << "list separator must not be empty";
       }
-      dataSep_ = sep[0];
       break;
     }
     default:
@@ -146,12 +144,11 @@ void MatchListDicFeatureImpl::apply(util::MutableArraySlice<i32> featureData,
 }
 
 bool MatchListDicFeatureImpl::contains(StringPiece data) const {
-  util::CsvReader r{dataSep_};
-  JPP_RET_CHECK(r.initFromMemory(data));
-  JPP_RET_CHECK(r.nextLine());
-
-  for (int fldnum = 0; fldnum < r.numFields(); ++fldnum) {
-    auto v = r.field(fldnum);
+  // must split exactly as the list importers do
+  while (data.size() > 0) {
+    auto end = std::search(data.begin(), data.end(), dataSep_.begin(),
+                           dataSep_.end());
+    auto v = StringPiece{data.begin(), end};
     if (!kvSep_.empty()) {
       auto it = std::search(v.begin(), v.end(), kvSep_.begin(), kvSep_.end());
       if (it != v.end()) {
@@ -162,6 +159,10 @@ bool MatchListDicFeatureImpl::contains(StringPiece data) const {
     if (idx != -1 && data_.contains(idx)) {
       return true;
     }
+    if (end == data.end()) {
+      break;
+    }
+    data = StringPiece{end + dataSep_.size(), data.end()};
   }
 
   return false;
diff --git a/src/core/dic/dic_feature_impl.h b/src/core/dic/dic_feature_impl.h
index d40ac29..bb76cdc 100644
--- a/src/core/dic/dic_feature_impl.h
+++ b/src/core/dic/dic_feature_impl.h
@@ -81,7 +81,7 @@ class MatchListDicFeatureImpl : public DicFeatureBase {
   i32 fieldIdx_;
   u32 target_;
   u32 shift_;
-  char dataSep_;
+  std::string dataSep_;
   std::string kvSep_;
   util::FlatSet<i32> data_;
 
-- 
2.43.0


From 94dd972765466ab5ae862bdde8b3319d46ffcc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:28 +0000
Subject: [PATCH 21/74] fix: an analysis path of an empty input has a defined
 position

---
 src/core/analysis/analysis_result.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/analysis/analysis_result.cc b/src/core/analysis/analysis_result.cc
index 1948017..48707ab 100644
--- a/src/core/analysis/analysis_result.cc
+++ b/src/core/analysis/analysis_result.cc
@@ -27,6 +27,8 @@ Status AnalysisPath::fillIn(const Lattice *l) {
   JPP_DCHECK_GE(bnds, 3);
   elems_.clear();
   offsets_.clear();
+  currentChunk_ = -1;
+  currentNode_ = -1;
   elems_.reserve(bnds * 2);
   offsets_.reserve(bnds);
   if (bnds == 3) {  // empty string
@@ -70,8 +72,6 @@ Status AnalysisPath::fillIn(const Lattice *l) {
     topPtr = topPtr->previous;
   }
 
-  currentChunk_ = -1;
-
   return Status::Ok();
 }
 }  // namespace analysis
-- 
2.43.0


From ebeae3bb17461c4784e89c1b0f1e220b8fb63b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:28 +0000
Subject: [PATCH 22/74] fix: apply the score plugin without a global beam too

---
 src/core/analysis/analyzer_impl.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/analysis/analyzer_impl.cc b/src/core/analysis/analyzer_impl.cc
index 323a3ec..896e1a7 100644
--- a/src/core/analysis/analyzer_impl.cc
+++ b/src/core/analysis/analyzer_impl.cc
@@ -235,8 +235,8 @@ Status AnalyzerImpl::computeScoresFull(const ScorerDef* sconf) {
       for (i32 beamIdx = 0; beamIdx < activeBeam; ++beamIdx) {
         JPP_CAPTURE(beamIdx);
         proc.applyT2(beamIdx, sconf->feature);
-        proc.copyFeatureScores(t1idx, beamIdx, scores);
         proc.applyPluginToFullBeam(boundary, t1idx, beamIdx);
+        proc.copyFeatureScores(t1idx, beamIdx, scores);
       }
     }
 
-- 
2.43.0


From c44354c182c244b08adec248ee7742efc31aad64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:24 +0000
Subject: [PATCH 23/74] fix: size the buffers of the global beam for automatic
 beam sizes

---
 src/core/analysis/score_processor.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/analysis/score_processor.cc b/src/core/analysis/score_processor.cc
index 6386666..564865b 100644
--- a/src/core/analysis/score_processor.cc
+++ b/src/core/analysis/score_processor.cc
@@ -47,8 +47,10 @@ ScoreProcessor::ScoreProcessor(AnalyzerImpl *analyzer)
                                                             runStats_, alloc);
   util::fill(featureBuffer_.valueBuffer1, 0);
 
-  globalBeamSize_ = analyzer->cfg().globalBeamSize;
   if (globalBeamSize_ > 0) {
+    // automatic beam sizes are only in the lattice configuration
+    globalBeamSize_ = static_cast<i32>(lcfg.globalBeamSize);
+    JPP_DCHECK_GT(globalBeamSize_, 0);
     t1PtrData_.reserve(globalBeamSize_);
     globalBeam_ =
         alloc->allocateBuf<BeamCandidate>(maxEnds * lcfg.beamSize, 64);
-- 
2.43.0


From 346bf42056ceba25dff1956190ead91e122d225c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:46 +0000
Subject: [PATCH 24/74] fix: automatic beam sizes are never zero

---
 src/core/analysis/analyzer_impl.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/analysis/analyzer_impl.cc b/src/core/analysis/analyzer_impl.cc
index 896e1a7..fe0d75c 100644
--- a/src/core/analysis/analyzer_impl.cc
+++ b/src/core/analysis/analyzer_impl.cc
@@ -354,6 +354,7 @@ i32 AnalyzerImpl::autoBeamSizes() {
   auto inputSize = input_.numCodepoints();
   auto addedBeam = inputSize / cfg_.autoBeamStep;
   i32 beamSize = std::min<i32>(cfg_.autoBeamBase + addedBeam, cfg_.autoBeamMax);
+  beamSize = std::max<i32>(beamSize, 1);  // an empty beam has no paths
   latticeConfig_.beamSize = static_cast<u32>(beamSize);
   latticeConfig_.globalBeamSize = static_cast<u32>(beamSize);
   lattice_.updateConfig(latticeConfig_);
-- 
2.43.0


From ec6a9bfe04af0a8604ead006111373425c6ba44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:19 +0000
Subject: [PATCH 25/74] fix: generated n-gram code scores an empty global beam

---
 src/core/impl/feature_impl_ngram_partial_kernels.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/impl/feature_impl_ngram_partial_kernels.h b/src/core/impl/feature_impl_ngram_partial_kernels.h
index 3f6d8a0..41ee99d 100644
--- a/src/core/impl/feature_impl_ngram_partial_kernels.h
+++ b/src/core/impl/feature_impl_ngram_partial_kernels.h
@@ -25,6 +25,9 @@ inline void applyBiTriFullKernel(
     const analysis::WeightBuffer& weights,
     util::MutableArraySlice<float> scoreBuffer,
     util::MutableArraySlice<float> result) {
+  if (t2pats.numRows() == 0) {
+    return;  // nothing ends here: there are no connections to score
+  }
   u32 mask = static_cast<u32>(weights.size() - 1);
   auto numBiFeat = t1featuresBi.size();
 
-- 
2.43.0


From 7e0c65044c7efa0421279e8934c545ddf400db46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:19 +0000
Subject: [PATCH 26/74] fix: initialize both buffers read by generated n-gram
 code

---
 src/core/analysis/score_processor.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/analysis/score_processor.cc b/src/core/analysis/score_processor.cc
index 564865b..a46f2a5 100644
--- a/src/core/analysis/score_processor.cc
+++ b/src/core/analysis/score_processor.cc
@@ -45,7 +45,9 @@ ScoreProcessor::ScoreProcessor(AnalyzerImpl *analyzer)
 
   analyzer->core().features().ngramPartial->allocateBuffers(&featureBuffer_,
                                                             runStats_, alloc);
+  // code which pipelines weight lookups reads both buffers before writing them
   util::fill(featureBuffer_.valueBuffer1, 0);
+  util::fill(featureBuffer_.valueBuffer2, 0);
 
   if (globalBeamSize_ > 0) {
     // automatic beam sizes are only in the lattice configuration
-- 
2.43.0


From a73486dec204985f4558f64ffad749909bc5177a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:19 +0000
Subject: [PATCH 27/74] fix: generated feature code for specs without unigrams,
 bigrams or trigrams and for boundaries without nodes

---
 .../codegen/partial_ngram_feature_codegen.cc  | 40 ++++++++++---------
 src/core/codegen/pattern_feature_codegen.cc   |  5 +++
 2 files changed, 26 insertions(+), 19 deletions(-)

diff --git a/src/core/codegen/partial_ngram_feature_codegen.cc b/src/core/codegen/partial_ngram_feature_codegen.cc
index eee36c4..586798c 100644
--- a/src/core/codegen/partial_ngram_feature_codegen.cc
+++ b/src/core/codegen/partial_ngram_feature_codegen.cc
@@ -181,6 +181,24 @@ class VarNamer {
   }
 };
 
+// Zero-length arrays are not valid C++,
+// so the absence of ngrams has to be an empty slice
+static void outputIndexArray(util::io::Printer& p, StringPiece name,
+                             util::ArraySlice<NgramFeatureCodegen> ngrams,
+                             int reference) {
+  if (ngrams.empty()) {
+    p << "\nconst " << JPP_TEXT(::jumanpp::util::ArraySlice<jumanpp::u32>)
+      << " " << name << "{};";
+    return;
+  }
+  p << "\nstatic constexpr jumanpp::u32 " << name << "[" << ngrams.size()
+    << "] = {\n  ";
+  for (auto& ngram : ngrams) {
+    p << ngram.spec().references[reference] << ", ";
+  }
+  p << "\n};";
+}
+
 void PartialNgramPrinter::outputApplyBiTriLoop(util::io::Printer& p) {
   p << "\n\nvoid applyBiTri("  // args
     << JPP_TEXT(::jumanpp::core::features::FeatureBuffer*) << " buffers, \n"
@@ -206,25 +224,9 @@ void PartialNgramPrinter::outputApplyBiTriLoop(util::io::Printer& p) {
 
     p << "\nauto buf1 = buffers->valBuf1(numBigrams);";
     p << "\nauto buf2 = buffers->valBuf2(numBigrams);";
-    p << "\nstatic constexpr jumanpp::u32"
-      << " t1BiFeatureIdxes[numBigrams] = {\n  ";
-    for (auto& bi : bigrams_) {
-      p << bi.spec().references[1] << ", ";
-    }
-    p << "\n};";
-
-    p << "\nstatic constexpr jumanpp::u32"
-      << " t1TriFeatureIdxes[numTrigrams] = {\n  ";
-    for (auto& tri : trigrams_) {
-      p << tri.spec().references[1] << ", ";
-    }
-    p << "\n};";
-    p << "\nstatic constexpr jumanpp::u32"
-      << " t2TriFeatureIdxes[numTrigrams] = {\n  ";
-    for (auto& tri : trigrams_) {
-      p << tri.spec().references[2] << ", ";
-    }
-    p << "\n};";
+    outputIndexArray(p, "t1BiFeatureIdxes", bigrams_, 1);
+    outputIndexArray(p, "t1TriFeatureIdxes", trigrams_, 1);
+    outputIndexArray(p, "t2TriFeatureIdxes", trigrams_, 2);
 
     p << "\n::jumanpp::core::features::impl::applyBiTriFullKernel(";
     {
diff --git a/src/core/codegen/pattern_feature_codegen.cc b/src/core/codegen/pattern_feature_codegen.cc
index 2728c58..afe7881 100644
--- a/src/core/codegen/pattern_feature_codegen.cc
+++ b/src/core/codegen/pattern_feature_codegen.cc
@@ -245,6 +245,10 @@ void InNodeComputationsCodegen::generateLoopBody(i::Printer &p) {
     ++varUsage;
   }
 
+  if (varUsage == 0) {
+    p << "\nfloat score_part_0 = 0;";
+  }
+
   for (auto &pat : spec_.features.pattern) {
     auto usage = pat.usage;
     if ((usage & 1) != 0) {
@@ -282,6 +286,7 @@ void InNodeComputationsCodegen::generateLoopBody(i::Printer &p) {
 
 void InNodeComputationsCodegen::generateLoop(i::Printer &p) {
   p << "\nauto numItems = patternMatrix.numRows();";
+  p << "\nif (numItems == 0) { return; }";
   p << "\nconst auto weights = scorer->weights();";
   p << "\n::jumanpp::u32 mask = weights.size() - 1;";
   p << "\nauto t1state = fbuffer->t1Buf(" << numBigrams_ << ", numItems);";
-- 
2.43.0


From 12a30036eb09d9ad1d5f84d4441ef3d36eda83b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:16 +0000
Subject: [PATCH 28/74] fix: RNN maxent history holds different previous words,
 not the last one repeated

---
 src/core/analysis/rnn_scorer_gbeam.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/analysis/rnn_scorer_gbeam.cc b/src/core/analysis/rnn_scorer_gbeam.cc
index 5fa9f32..3abbf1f 100644
--- a/src/core/analysis/rnn_scorer_gbeam.cc
+++ b/src/core/analysis/rnn_scorer_gbeam.cc
@@ -178,8 +178,13 @@ struct GbeamRnnState {
       auto row = subset.row(scoreIdx);
       auto prev = node->prev;
       for (; idx < cnt; ++idx) {
-        JPP_DCHECK_NE(prev, nullptr);
+        if (prev == nullptr) {
+          // before the beginning of the sentence
+          row.at(idx) = 0;
+          continue;
+        }
         row.at(idx) = prev->id;
+        prev = prev->prev;
       }
       scoreIdx += 1;
     }
-- 
2.43.0


From 592ec9b54f35358253980663c90e7ca55caf20fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:16 +0000
Subject: [PATCH 29/74] fix: collapse RNN paths into the node with the same
 history

---
 src/core/analysis/rnn_id_resolver.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/analysis/rnn_id_resolver.cc b/src/core/analysis/rnn_id_resolver.cc
index 1648b23..928297e 100644
--- a/src/core/analysis/rnn_id_resolver.cc
+++ b/src/core/analysis/rnn_id_resolver.cc
@@ -225,7 +225,7 @@ std::pair<RnnNode*, RnnNode*> RnnIdContainer::addPrevChain(
         if (cached->hash == hash) {
           // we can collapse a path in the RNN lattice
           // but we still need to publish the score
-          nodePtr = it->second;
+          nodePtr = cached;
           addScore(nodePtr, cptr);
           return std::make_pair(nodePtr, nodePtr);
         }
-- 
2.43.0


From cdb43d35e8f09ee314843089796b4b54e54de186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:16 +0000
Subject: [PATCH 30/74] fix: loading a saved RNN uses its NCE bias and checks
 the sizes of its arrays

---
 src/core/analysis/rnn_scorer_gbeam.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/core/analysis/rnn_scorer_gbeam.cc b/src/core/analysis/rnn_scorer_gbeam.cc
index 3abbf1f..55f0a66 100644
--- a/src/core/analysis/rnn_scorer_gbeam.cc
+++ b/src/core/analysis/rnn_scorer_gbeam.cc
@@ -405,7 +405,7 @@ Status RnnScorerGbeamFactory::makeInfo(model::ModelInfo* info,
 
 Status arr2d(StringPiece data, size_t nrows, size_t ncols,
              util::ConstSliceable<float>* result) {
-  if (nrows * ncols * sizeof(float) < data.size()) {
+  if (nrows * ncols * sizeof(float) > data.size()) {
     return JPPS_INVALID_PARAMETER
            << "failed to create ConstSliceable from memory buffer of "
            << data.size() << " need at least " << nrows * ncols * sizeof(float);
@@ -418,7 +418,7 @@ Status arr2d(StringPiece data, size_t nrows, size_t ncols,
 
 Status arr1d(StringPiece data, size_t expected,
              util::ArraySlice<float>* result) {
-  if (expected * sizeof(float) < data.size()) {
+  if (expected * sizeof(float) > data.size()) {
     return JPPS_INVALID_PARAMETER
            << "failed to create ConstSliceable from memory buffer of "
            << data.size() << " need at least " << expected * sizeof(float);
@@ -454,7 +454,8 @@ Status RnnScorerGbeamFactory::load(const model::ModelInfo& model) {
   util::ArraySlice<float> maxentWeights;
 
   JPP_RIE_MSG(
-      arr1d(p->data[3], rnnhdr.layerSize * rnnhdr.vocabSize, &rnnMatrix),
+      arr1d(p->data[3], static_cast<size_t>(rnnhdr.layerSize) * rnnhdr.layerSize,
+            &rnnMatrix),
       "failed to read matrix");
   JPP_RIE_MSG(arr2d(p->data[4], rnnhdr.vocabSize, rnnhdr.layerSize,
                     &state_->embeddings),
@@ -467,8 +468,8 @@ Status RnnScorerGbeamFactory::load(const model::ModelInfo& model) {
 
   JPP_RETURN_IF_ERROR(state_->rnn.init(rnnhdr, rnnMatrix, maxentWeights));
   state_->computeBosState(0);
-  if (config().rnnWeight.defined()) {
-    state_->rnn.setNceConstant(config().rnnWeight);
+  if (config().nceBias.defined()) {
+    state_->rnn.setNceConstant(config().nceBias);
   }
 
   return Status::Ok();
-- 
2.43.0


From e4afa6d338961b30fe11a21754d20f27c362765f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:06 +0000
Subject: [PATCH 31/74] fix: RNN vocabulary words can start with a quote

---
 src/rnn/mikolov_rnn.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rnn/mikolov_rnn.cc b/src/rnn/mikolov_rnn.cc
index 4d3c675..676bc99 100644
--- a/src/rnn/mikolov_rnn.cc
+++ b/src/rnn/mikolov_rnn.cc
@@ -164,7 +164,8 @@ Status MikolovModelReader::parse() {
   auto contents = data_->modelFrag.asStringPiece();
   size_t start = ~size_t{0};
   JPP_RETURN_IF_ERROR(readHeader(contents, &data_->header, &start));
-  util::CsvReader ssvReader{' '};
+  // words are separated by spaces, quotes have no special meaning
+  util::CsvReader ssvReader{' ', '\0'};
   JPP_RETURN_IF_ERROR(
       ssvReader.initFromMemory(data_->dictFrag.asStringPiece()));
   auto& wdata = data_->wordData;
-- 
2.43.0


From 701bd9c326c1ab0cc58666be8e1383d1eb062df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:41 +0000
Subject: [PATCH 32/74] fix: refuse RNN model files whose sizes or order can
 not be handled

---
 src/core/analysis/rnn_scorer_gbeam.cc |  5 ++++
 src/rnn/mikolov_rnn.cc                | 33 +++++++++++++++++++++++++++
 src/rnn/mikolov_rnn.h                 |  1 +
 src/rnn/mikolov_rnn_impl.h            |  2 +-
 4 files changed, 40 insertions(+), 1 deletion(-)

diff --git a/src/core/analysis/rnn_scorer_gbeam.cc b/src/core/analysis/rnn_scorer_gbeam.cc
index 55f0a66..258742f 100644
--- a/src/core/analysis/rnn_scorer_gbeam.cc
+++ b/src/core/analysis/rnn_scorer_gbeam.cc
@@ -435,6 +435,11 @@ Status RnnScorerGbeamFactory::load(const model::ModelInfo& model) {
     return JPPS_INVALID_PARAMETER << "model file did not contain RNN";
   }
 
+  if (p->data.size() < 7) {
+    return JPPS_INVALID_PARAMETER << "RNN part of the model has only "
+                                  << p->data.size() << " blocks";
+  }
+
   RnnModelHeader header{state_->config, {}, {}, {}};
 
   util::serialization::Loader l{p->data[0]};
diff --git a/src/rnn/mikolov_rnn.cc b/src/rnn/mikolov_rnn.cc
index 676bc99..9705b85 100644
--- a/src/rnn/mikolov_rnn.cc
+++ b/src/rnn/mikolov_rnn.cc
@@ -36,6 +36,14 @@ Status readHeader(StringPiece data, MikolovRnnModelHeader* header,
                   size_t* offset) {
   PackedHeader packed;
 
+  constexpr size_t headerSize = sizeof(u64) * 2 + sizeof(u32) * 3 +
+                                sizeof(bool) * 2 + sizeof(float) +
+                                LayerNameMaxSize;
+  if (data.size() < headerSize) {
+    return JPPS_INVALID_PARAMETER << "rnn model file is too short: "
+                                  << data.size() << " bytes";
+  }
+
   std::memset(&packed, 0, sizeof(PackedHeader));
   size_t off = 0;
   off = toMember(&PackedHeader::sizeVersion, &packed, data.data(), off);
@@ -83,6 +91,20 @@ void MikolovRnn::apply(StepData* data) {
 Status MikolovRnn::init(const MikolovRnnModelHeader& header,
                         const util::ArraySlice<float>& weights,
                         const util::ArraySlice<float>& maxentW) {
+  // hashes of the history are kept in a buffer of a fixed size
+  if (header.maxentOrder < 1 || header.maxentOrder > MaxMaxentOrder) {
+    return JPPS_INVALID_PARAMETER << "unsupported rnn maxent order "
+                                  << header.maxentOrder;
+  }
+
+  if (header.layerSize == 0 || header.vocabSize == 0 ||
+      header.maxentSize <= header.vocabSize) {
+    return JPPS_INVALID_PARAMETER
+           << "invalid rnn sizes, layer=" << header.layerSize
+           << " vocabulary=" << header.vocabSize
+           << " maxent=" << header.maxentSize;
+  }
+
   if (!isAligned(weights.data(), 64)) {
     return Status::InvalidState() << "weight matrix must be 64-aligned";
   }
@@ -175,6 +197,17 @@ Status MikolovModelReader::parse() {
   auto& hdr = data_->header;
 
   hdr.vocabSize = wdata.size();
+  // all three are read from the file, sizes are checked before allocating
+  const u64 availableFloats = contents.size() / sizeof(float);
+  if (hdr.layerSize == 0 || hdr.vocabSize == 0 ||
+      hdr.maxentSize > availableFloats ||
+      hdr.vocabSize > availableFloats / hdr.layerSize ||
+      hdr.layerSize > availableFloats / hdr.layerSize) {
+    return JPPS_INVALID_PARAMETER
+           << "rnn model file of " << contents.size()
+           << " bytes can't have layer=" << hdr.layerSize
+           << " vocabulary=" << hdr.vocabSize << " maxent=" << hdr.maxentSize;
+  }
   auto maxBlock = std::max<u64>({hdr.layerSize * hdr.vocabSize, hdr.maxentSize,
                                  hdr.layerSize * hdr.layerSize});
   // 3 comes from rounding to next value + sizeof(float)
diff --git a/src/rnn/mikolov_rnn.h b/src/rnn/mikolov_rnn.h
index 94be0b7..0ca4580 100644
--- a/src/rnn/mikolov_rnn.h
+++ b/src/rnn/mikolov_rnn.h
@@ -26,6 +26,7 @@ const uint64_t PRIMES_SIZE = sizeof(PRIMES) / sizeof(PRIMES[0]);
 
 constexpr static size_t LayerNameMaxSize = 64;
 constexpr static u64 VersionStepSize = 10000;
+constexpr static u32 MaxMaxentOrder = 4;
 
 struct MikolovRnnModelHeader {
   u32 layerSize;
diff --git a/src/rnn/mikolov_rnn_impl.h b/src/rnn/mikolov_rnn_impl.h
index aadeb44..a7ca819 100644
--- a/src/rnn/mikolov_rnn_impl.h
+++ b/src/rnn/mikolov_rnn_impl.h
@@ -121,7 +121,7 @@ class MikolovIndexCalculator {
   void addScores(util::ArraySlice<i32> context, util::ArraySlice<i32> words,
                  util::ArraySlice<float> weights,
                  util::MutableArraySlice<float> scores) {
-    std::array<u64, 4> hashedIndex{{0}};
+    std::array<u64, MaxMaxentOrder> hashedIndex{{0}};
     JPP_DCHECK_IN(context.size(), 0, 4);
     util::MutableArraySlice<u64> slice{hashedIndex.data(), context.size() + 1};
     calcIndices(context, slice);
-- 
2.43.0


From 893187deb3140ffd7b07e6dc3c48904e5959e19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:29 +0000
Subject: [PATCH 33/74] fix: RNN words with empty fields are found

---
 src/core/analysis/rnn_id_resolver.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/analysis/rnn_id_resolver.h b/src/core/analysis/rnn_id_resolver.h
index 5d26829..14cb361 100644
--- a/src/core/analysis/rnn_id_resolver.h
+++ b/src/core/analysis/rnn_id_resolver.h
@@ -24,7 +24,12 @@ class RnnReprBuilder {
 
  public:
   void reset() { buffer_.reset(); }
-  void addInt(i32 value) { buffer_.writeVarint(static_cast<u32>(value)); }
+  void addInt(i32 value) {
+    // Keys of a trie can't contain zero bytes. Zero is the only number with a
+    // zero byte in its encoding, it is replaced by one which is not used.
+    u64 repr = value == 0 ? (u64{1} << 32) : static_cast<u32>(value);
+    buffer_.writeVarint(repr);
+  }
   void addString(StringPiece value) {
     buffer_.writeStringDataWithoutLengthPrefix(value);
     buffer_.writeVarint(1);
-- 
2.43.0


From 739706d2ff05a15137b3572d189ef9ceb6ffbf76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:17 +0000
Subject: [PATCH 34/74] fix: end training threads even when the queues are full

The destructor of TrainingExecutor could not put the end marker into a full
queue of trainers and the threads could not put their results to a full queue
of results, so abandoning a batch (e.g. because of an invalid example) blocked
forever.
---
 src/core/training/training_executor.cc | 16 +++++++++++++---
 src/core/training/training_executor.h  |  6 +++++-
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/core/training/training_executor.cc b/src/core/training/training_executor.cc
index f627f31..4526d4c 100644
--- a/src/core/training/training_executor.cc
+++ b/src/core/training/training_executor.cc
@@ -11,16 +11,18 @@ namespace training {
 
 TrainingExecutorThread::TrainingExecutorThread(
     const analysis::ScorerDef* conf, util::bounded_queue<ITrainer*>* trainers,
-    util::bounded_queue<TrainingExecutionResult>* results)
+    util::bounded_queue<TrainingExecutionResult>* results,
+    const std::atomic<bool>* stop)
     : scoreConf_{conf},
       trainers_{trainers},
       results_{results},
+      stop_{stop},
       thread_{TrainingExecutorThread::runMain, this} {}
 
 void TrainingExecutorThread::run() {
   while (true) {
     auto trainer = trainers_->waitFor();
-    if (trainer == nullptr) {
+    if (trainer == nullptr || *stop_) {
       return;
     }
 
@@ -48,6 +50,9 @@ void TrainingExecutorThread::run() {
     }
     TrainingExecutionResult result{trainer, std::move(status)};
     while (!results_->offer(std::move(result))) {
+      if (*stop_) {
+        return;
+      }
       std::this_thread::yield();
     }
   }
@@ -61,7 +66,7 @@ Status TrainingExecutor::initialize(const analysis::ScorerDef* sconf,
   try {
     for (u32 i = 0; i < nthreads; ++i) {
       threads_.emplace_back(
-          new TrainingExecutorThread{sconf, &trainers_, &results_});
+          new TrainingExecutorThread{sconf, &trainers_, &results_, &stop_});
     }
     trainers_.initialize(nthreads * 2);
     results_.initialize(nthreads * 2);
@@ -77,6 +82,11 @@ TrainingExecutionResult TrainingExecutor::waitOne() {
 }
 
 TrainingExecutor::~TrainingExecutor() {
+  // The trainer queue can be full of trainers and the result queue can be full
+  // of results, threads should exit even in that case.
+  // When the stop flag is set, a thread takes at most one more element
+  // and the full queue has at least one for each of them.
+  stop_ = true;
   while (trainers_.offer(nullptr))
     ;  // do nothing
   trainers_.unblock_all();
diff --git a/src/core/training/training_executor.h b/src/core/training/training_executor.h
index 9a6913d..76e10a3 100644
--- a/src/core/training/training_executor.h
+++ b/src/core/training/training_executor.h
@@ -31,6 +31,7 @@ class TrainingExecutorThread {
   const analysis::ScorerDef* scoreConf_;
   util::bounded_queue<ITrainer*>* trainers_;
   util::bounded_queue<TrainingExecutionResult>* results_;
+  const std::atomic<bool>* stop_;
   std::thread thread_;
 
   void run();
@@ -41,7 +42,8 @@ class TrainingExecutorThread {
  public:
   explicit TrainingExecutorThread(
       const analysis::ScorerDef* conf, util::bounded_queue<ITrainer*>* trainers,
-      util::bounded_queue<TrainingExecutionResult>* results);
+      util::bounded_queue<TrainingExecutionResult>* results,
+      const std::atomic<bool>* stop);
   void finish();
 };
 
@@ -49,6 +51,8 @@ class TrainingExecutor {
   std::vector<std::unique_ptr<TrainingExecutorThread>> threads_;
   util::bounded_queue<ITrainer*> trainers_;
   util::bounded_queue<TrainingExecutionResult> results_;
+  // set when nobody is going to collect the results anymore
+  std::atomic<bool> stop_{false};
 
  public:
   Status initialize(const analysis::ScorerDef* sconf, u32 nthreads);
-- 
2.43.0


From a90e247b5ea239825dbdd4ea59a5cb1f479bb9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:28 +0000
Subject: [PATCH 35/74] fix: queue positions do not overflow

Positions were taken modulo capacity after wrapping around 2^32, they pointed
to different elements if capacity was not a power of two.
---
 src/util/bounded_queue.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/util/bounded_queue.h b/src/util/bounded_queue.h
index 2151310..1a6bff7 100644
--- a/src/util/bounded_queue.h
+++ b/src/util/bounded_queue.h
@@ -34,6 +34,18 @@ class bounded_queue {
 
   size_t remaining() const noexcept { return capa_ - size(); }
 
+ private:
+  // Keep positions small, they would not map to the same
+  // elements after an overflow if capacity is not a power of two.
+  void advanceTail() noexcept {
+    tail_ += 1;
+    if (tail_ == capa_) {
+      tail_ -= capa_;
+      head_ -= capa_;
+    }
+  }
+
+ public:
   bounded_queue() : capa_{0} {}
   explicit bounded_queue(unsigned int max_size)
       : items_(max_size), capa_{max_size} {}
@@ -62,7 +74,7 @@ class bounded_queue {
       return false;
     }
     *result = std::move(items_[tail_ % capa_]);
-    tail_ += 1;
+    advanceTail();
     return true;
   }
 
@@ -72,7 +84,7 @@ class bounded_queue {
       cv_.wait(lock);
     }
     auto pos = tail_ % capa_;
-    tail_ += 1;
+    advanceTail();
     return std::move(items_[pos]);
   }
 
-- 
2.43.0


From 7f2e8e31e6b4aa708c8c05624b7082042f5abb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:31 +0000
Subject: [PATCH 36/74] fix: remaining gold and system features get the right
 sign

---
 src/core/training/loss.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/training/loss.cc b/src/core/training/loss.cc
index 31abd45..f13e3a8 100644
--- a/src/core/training/loss.cc
+++ b/src/core/training/loss.cc
@@ -236,11 +236,11 @@ void LossCalculator::computeFeatureDiff(u32 mask) {
   }
 
   for (; topPos < topCnt; ++topPos) {
-    mergeOne(top1Features[topPos], 1.0f);
+    mergeOne(top1Features[topPos], -1.0f);
   }
 
   for (; goldPos < goldCnt; ++goldPos) {
-    mergeOne(goldFeatures[goldPos], -1.0f);
+    mergeOne(goldFeatures[goldPos], 1.0f);
   }
 
   float numGold = 0;
-- 
2.43.0


From 949975f9a9f5239f48b4229a3b825e876d8ecd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:31 +0000
Subject: [PATCH 37/74] fix: training compares node fields by their position in
 a node

---
 src/core/training/gold_example.cc | 6 +++++-
 src/core/training/loss.cc         | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/core/training/gold_example.cc b/src/core/training/gold_example.cc
index 4ea4791..8fa45dc 100644
--- a/src/core/training/gold_example.cc
+++ b/src/core/training/gold_example.cc
@@ -26,7 +26,7 @@ bool TrainingExampleAdapter::matchUnkNodeData(const analysis::ExtraNode *pNode,
     if (trainFld.weight == 0) {
       continue;
     }
-    auto latticeIdx = trainFld.fieldIdx;
+    auto latticeIdx = trainFld.dicIdx;
     auto latVal = latNodeData.at(latticeIdx);
     if (latVal < 0) {
       if (latVal != surfaceHash) {
@@ -117,6 +117,10 @@ EntryPtr TrainingExampleAdapter::makeUnkTrainingNode(const ExampleNode &node) {
   for (int i = 0; i < node.data.size(); ++i) {
     auto nodeVal = node.data[i];
     auto idx = spec->fields[i].dicIdx;
+    if (idx < 0) {
+      // not a part of node features
+      continue;
+    }
     if (nodeVal >= 0) {
       nodeData.at(idx) = nodeVal;
     } else {
diff --git a/src/core/training/loss.cc b/src/core/training/loss.cc
index f13e3a8..95662e2 100644
--- a/src/core/training/loss.cc
+++ b/src/core/training/loss.cc
@@ -39,7 +39,10 @@ bool LossCalculator::findWorstTopNode(i32 goldPos, ComparisonStep* step) {
     float mismatchWeight = 0;
 
     for (auto& sf : specFlds) {
-      if (topData[sf.fieldIdx] != goldData[sf.fieldIdx]) {
+      if (sf.weight == 0) {
+        continue;
+      }
+      if (topData[sf.dicIdx] != goldData[sf.dicIdx]) {
         numMismatches += 1;
         mismatchWeight += sf.weight;
       }
-- 
2.43.0


From 7f184b0a9e3bdb8e84625cb0bf56e314215d4772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:31 +0000
Subject: [PATCH 38/74] fix: gold node with several unknown fields keeps its
 surface

---
 src/core/training/full_example.cc | 1 +
 src/core/training/full_example.h  | 6 ++++++
 2 files changed, 7 insertions(+)

diff --git a/src/core/training/full_example.cc b/src/core/training/full_example.cc
index 1827166..6199ca4 100644
--- a/src/core/training/full_example.cc
+++ b/src/core/training/full_example.cc
@@ -11,6 +11,7 @@ namespace training {
 Status FullExampleReader::readFullExample(FullyAnnotatedExample *result) {
   result->data_.clear();
   result->lengths_.clear();
+  result->surfaceIdx_ = tio_->surfaceFieldIdx();
 
   switch (mode_) {
     case DataReaderMode::SimpleCsv:
diff --git a/src/core/training/full_example.h b/src/core/training/full_example.h
index e129e45..0f2edb5 100644
--- a/src/core/training/full_example.h
+++ b/src/core/training/full_example.h
@@ -36,6 +36,7 @@ class FullyAnnotatedExample {
   StringPiece filename_;
   std::string comment_;
   i64 line_;
+  i32 surfaceIdx_ = 0;
 
   friend class FullExampleReader;
 
@@ -60,6 +61,11 @@ class FullyAnnotatedExample {
         negIdx = exEntry;
       }
     }
+    // unknown surface is the content of the node even if other fields are
+    // unknown as well
+    if (examRow.at(surfaceIdx_) < 0) {
+      negIdx = examRow.at(surfaceIdx_);
+    }
 
     StringPiece sp{};
     if (negIdx < 0) {
-- 
2.43.0


From c7f432d956b48b527badffa0acf25a6b83f06de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:59 +0000
Subject: [PATCH 39/74] fix: reject dictionaries of model files whose
 specification refers to missing storages or fields

---
 src/core/dic/dic_builder.cc | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/core/dic/dic_builder.cc b/src/core/dic/dic_builder.cc
index a2bc1e4..fe20efd 100644
--- a/src/core/dic/dic_builder.cc
+++ b/src/core/dic/dic_builder.cc
@@ -120,6 +120,15 @@ void DictionaryBuilder::newProgressStep(StringPiece name) {
 inline Status fixupDictionary(const model::ModelPart &dicInfo,
                               BuiltDictionary *dic) {
   auto spec_ = &dic->spec;
+  auto validStorage = [](i32 idx, i32 count) {
+    return idx == spec::InvalidInt || (idx >= 0 && idx < count);
+  };
+  if (spec_->dictionary.numStringStorage < 0 ||
+      spec_->dictionary.numIntStorage < 0 ||
+      spec_->dictionary.numStringStorage > dicInfo.data.size() ||
+      spec_->dictionary.numIntStorage > dicInfo.data.size()) {
+    return JPPS_INVALID_PARAMETER << "dictionary had invalid number of storages";
+  }
   i32 expectedCount =
       spec_->dictionary.numStringStorage + spec_->dictionary.numIntStorage + 4;
   if (expectedCount != dicInfo.data.size()) {
@@ -165,7 +174,16 @@ inline Status fixupDictionary(const model::ModelPart &dicInfo,
   }
   for (int j = 0; j < dic->fieldData.size(); ++j) {
     auto &f = dic->fieldData[j];
+    if (f.specIndex < 0 || f.specIndex >= spec_->dictionary.fields.size()) {
+      return JPPS_INVALID_PARAMETER << "field #" << j
+                                    << " refers to a field which is not in spec";
+    }
     auto &fd = spec_->dictionary.fields[f.specIndex];
+    if (!validStorage(fd.stringStorage, spec_->dictionary.numStringStorage) ||
+        !validStorage(fd.intStorage, spec_->dictionary.numIntStorage)) {
+      return JPPS_INVALID_PARAMETER << "field " << fd.name
+                                    << " refers to an invalid storage";
+    }
     if (f.dicIndex != fd.dicIndex) {
       return JPPS_INVALID_PARAMETER << "something went wrong and built field "
                                        "dicIndex !=  spec field dicIndex: "
-- 
2.43.0


From e807b6f0e58769934723a379e98f7681453936a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:59 +0000
Subject: [PATCH 40/74] fix: reject model files with sections outside of the
 file

---
 src/core/impl/model_io.cc | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/core/impl/model_io.cc b/src/core/impl/model_io.cc
index c1c3575..2e39964 100644
--- a/src/core/impl/model_io.cc
+++ b/src/core/impl/model_io.cc
@@ -129,6 +129,11 @@ Status FilesystemModel::open(StringPiece name) {
                               << file_->name;
   }
 
+  if (hdrSize > cbp.remaining()) {
+    return JPPS_INVALID_STATE << "model file " << file_->name
+                              << " has corrupted header size";
+  }
+
   util::serialization::Loader l{
       rest.slice(cbp.numReadBytes(), cbp.numReadBytes() + hdrSize)};
   if (!l.load(&file_->rawModel)) {
@@ -136,6 +141,16 @@ Status FilesystemModel::open(StringPiece name) {
                               << " has corrupted model header";
   }
 
+  for (auto& part : file_->rawModel.parts) {
+    for (auto& block : part.data) {
+      if (block.offset > sp.size() || block.size > sp.size() - block.offset) {
+        return JPPS_INVALID_STATE << "model file " << file_->name
+                                  << " is truncated or corrupted: a part is "
+                                     "outside of the file";
+      }
+    }
+  }
+
   return Status::Ok();
 }
 
-- 
2.43.0


From e731aadd3580cde3c7224dc3d2e38a162aa5d252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:59 +0000
Subject: [PATCH 41/74] fix: an interrupted save does not leave a file which is
 loaded as a model

---
 src/core/impl/model_io.cc | 19 ++++++++++++++++---
 src/core/impl/model_io.h  |  2 ++
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/core/impl/model_io.cc b/src/core/impl/model_io.cc
index 2e39964..0d64e80 100644
--- a/src/core/impl/model_io.cc
+++ b/src/core/impl/model_io.cc
@@ -44,11 +44,22 @@ Status ModelSaver::open(StringPiece name) {
   return Status::Ok();
 }
 
+Status ModelSaver::clearHeader() {
+  util::MappedFileFragment frag;
+  JPP_RETURN_IF_ERROR(file_->mmap.map(&frag, 0, 4096));
+  std::memset(frag.address(), 0, frag.size());
+  return frag.flush();
+}
+
 Status ModelSaver::save(const ModelInfo& info) {
   if (!file_) {
     return Status::InvalidState() << "can't save model, file is not opened";
   }
 
+  // The file must not be readable as a model until it is complete,
+  // including the case when it has contained another model.
+  JPP_RETURN_IF_ERROR(clearHeader());
+
   ModelInfoRaw raw{};
   size_t offset = 4096;
   for (auto& part : info.parts) {
@@ -61,6 +72,7 @@ Status ModelSaver::save(const ModelInfo& info) {
       util::MappedFileFragment frag;
       JPP_RETURN_IF_ERROR(file_->mmap.map(&frag, offset, buf.size()));
       std::memcpy(frag.address(), buf.data(), buf.size());
+      JPP_RETURN_IF_ERROR(frag.flush());
       rawPart.data.push_back(BlockPtr{offset, buf.size()});
       offset = util::memory::Align(offset + buf.size(), 4096);
     }
@@ -85,13 +97,14 @@ Status ModelSaver::save(const ModelInfo& info) {
   util::MappedFileFragment frag;
   JPP_RETURN_IF_ERROR(file_->mmap.map(&frag, 0, 4096));
   auto slice = frag.asMutableSlice();
-  char* begin = slice.begin();
-  std::memcpy(begin, ModelMagic, sizeof(ModelMagic));
-  begin += sizeof(ModelMagic);
+  char* begin = slice.begin() + sizeof(ModelMagic);
   std::memcpy(begin, cb.contents().begin(), cb.position());
   begin += cb.position();
   std::memcpy(begin, p1.data(), p1.size());
+  JPP_RETURN_IF_ERROR(frag.flush());
 
+  // the magic makes the file a model, it is written last
+  std::memcpy(slice.begin(), ModelMagic, sizeof(ModelMagic));
   JPP_RETURN_IF_ERROR(frag.flush());
   frag.unmap();
 
diff --git a/src/core/impl/model_io.h b/src/core/impl/model_io.h
index 6931dfe..1c9bf46 100644
--- a/src/core/impl/model_io.h
+++ b/src/core/impl/model_io.h
@@ -20,6 +20,8 @@ struct ModelFile;
 class ModelSaver {
   std::unique_ptr<ModelFile> file_;
 
+  Status clearHeader();
+
  public:
   ModelSaver(const ModelSaver&) = delete;
   ModelSaver();
-- 
2.43.0


From ee7dc0983167d8c8bf81f900db071c9b8cc9b6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:15 +0000
Subject: [PATCH 42/74] fix: read empty values of training fields which share a
 string storage

---
 src/core/input/partial_example_io.cc | 12 ++++--------
 src/core/input/training_io.cc        |  7 ++-----
 src/core/input/training_io.h         | 19 +++++++++++++++++++
 src/core/training/full_example.cc    |  9 ++++-----
 4 files changed, 29 insertions(+), 18 deletions(-)

diff --git a/src/core/input/partial_example_io.cc b/src/core/input/partial_example_io.cc
index b72f2d1..a36929c 100644
--- a/src/core/input/partial_example_io.cc
+++ b/src/core/input/partial_example_io.cc
@@ -112,15 +112,11 @@ Status PartialExampleReader::readExample(PartialExample* result, bool* eof) {
                << "] was not present in the dictionary spec";
       }
 
-      auto idmap = mapIter->second->str2int;
-      auto idValue = idmap->find(fldValue);
-      if (idValue == idmap->end()) {
-        auto id = analysis::hashUnkString(fldValue);
-        nc.tags.push_back(TagConstraint{mapIter->second->dicFieldIdx, id});
-      } else {
-        nc.tags.push_back(
-            TagConstraint{mapIter->second->dicFieldIdx, idValue->second});
+      i32 id;
+      if (!mapIter->second->valueOf(fldValue, &id)) {
+        id = analysis::hashUnkString(fldValue);
       }
+      nc.tags.push_back(TagConstraint{mapIter->second->dicFieldIdx, id});
     }
 
     result->nodes_.push_back(std::move(nc));
diff --git a/src/core/input/training_io.cc b/src/core/input/training_io.cc
index 7761cb3..45baa2f 100644
--- a/src/core/input/training_io.cc
+++ b/src/core/input/training_io.cc
@@ -19,10 +19,6 @@ Status readStr2IdMap(const dic::DictionaryField &fld,
            << fld.name << " was not";
   }
 
-  if (fld.emptyValue.size() != 0) {
-    s2i[fld.emptyValue] = 0;
-  }
-
   core::dic::impl::StringStorageTraversal everything{fld.strings};
   StringPiece data;
 
@@ -48,7 +44,8 @@ Status TrainFieldsIndex::initialize(const CoreHolder &core) {
       JPP_RETURN_IF_ERROR(readStr2IdMap(*dicFld, &str2int));
     }
 
-    fields_.push_back({dicFld->name, &str2int, tf.dicIdx, i});
+    fields_.push_back(
+        {dicFld->name, &str2int, tf.dicIdx, i, dicFld->emptyValue});
   }
   surfaceFieldIdx_ = spec.fields[spec.surfaceIdx].number;
   return Status::Ok();
diff --git a/src/core/input/training_io.h b/src/core/input/training_io.h
index 7f41230..cccc499 100644
--- a/src/core/input/training_io.h
+++ b/src/core/input/training_io.h
@@ -26,6 +26,25 @@ struct TrainingExampleField {
   util::FlatMap<StringPiece, i32>* str2int;
   i32 dicFieldIdx;
   i32 exampleFieldIdx;
+  StringPiece emptyValue;
+
+  /**
+   * String storages can be shared between fields,
+   * but each field has its own empty value, which is always stored as 0.
+   * @return false if the dictionary does not contain the value
+   */
+  bool valueOf(StringPiece value, i32* result) const {
+    if (value == emptyValue) {
+      *result = 0;
+      return true;
+    }
+    auto it = str2int->find(value);
+    if (it == str2int->end()) {
+      return false;
+    }
+    *result = it->second;
+    return true;
+  }
 };
 
 /**
diff --git a/src/core/training/full_example.cc b/src/core/training/full_example.cc
index 6199ca4..2eb63ca 100644
--- a/src/core/training/full_example.cc
+++ b/src/core/training/full_example.cc
@@ -129,10 +129,11 @@ Status FullExampleReader::readSingleExampleFragment(
   result->surface_.append(surfFld.char_begin(), surfFld.char_end());
   for (int i = 0; i < fields.size(); ++i) {
     auto &fldInfo = fields[i];
-    auto &map = *fldInfo.str2int;
     auto fld = csv.field(fldInfo.exampleFieldIdx);
-    auto it = map.find(fld);
-    if (it == map.end()) {
+    i32 value;
+    if (fldInfo.valueOf(fld, &value)) {
+      result->data_.push_back(value);
+    } else {
       if (csv_.rowHadQuoted()) {
         if (!charBuffer_.import(&fld)) {
           return JPPS_INVALID_PARAMETER << "failed to import string at file "
@@ -143,8 +144,6 @@ Status FullExampleReader::readSingleExampleFragment(
       i32 item = static_cast<i32>(result->strings_.size());
       result->strings_.emplace_back(fld);
       result->data_.push_back(~item);
-    } else {
-      result->data_.push_back(it->second);
     }
   }
   return Status::Ok();
-- 
2.43.0


From c15f84f3e177bda501f4a0a9c5cfebd2e4e4825c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:55 +0000
Subject: [PATCH 43/74] fix: training corpus: report malformed lines, keep the
 last sentence, skip empty ones, reject words without surface

---
 src/core/training/full_example.cc | 51 +++++++++++++++++++++++--------
 src/core/training/full_example.h  |  1 +
 src/util/csv_reader.h             |  5 +++
 3 files changed, 45 insertions(+), 12 deletions(-)

diff --git a/src/core/training/full_example.cc b/src/core/training/full_example.cc
index 2eb63ca..913fada 100644
--- a/src/core/training/full_example.cc
+++ b/src/core/training/full_example.cc
@@ -61,26 +61,38 @@ Status FullExampleReader::readFullExampleCsv(FullyAnnotatedExample *result) {
   while (csv_.nextLine()) {
     if (csv_.numFields() == 1 &&
         (csv_.field(0).empty() || csv_.field(0) == "EOS")) {
+      if (result->lengths_.empty()) {
+        continue;  // there were no words, it is not an example
+      }
       return Status::Ok();
     }
 
     auto line = csv_.line();
     if (startsWith(line, "# ")) {
-      line.slice(0, line.size() - 1).assignTo(result->comment_);
+      auto end = line.end();
+      while (end != line.begin() && (end[-1] == '\n' || end[-1] == '\r')) {
+        --end;
+      }
+      StringPiece{line.begin() + 2, end}.assignTo(result->comment_);
       continue;
     }
 
     JPP_RETURN_IF_ERROR(readSingleExampleFragment(csv_, result));
   }
-  finished_ = true;
+  JPP_RETURN_IF_ERROR(checkWellFormed());
+  // the last example can be without a terminating empty line
+  finished_ = result->lengths_.empty();
   return Status::Ok();
 }
 
 Status FullExampleReader::readFullExampleDblCsv(FullyAnnotatedExample *result) {
-  finished_ = !csv_.nextLine();
-  if (finished_) {
-    return Status::Ok();
-  }
+  do {
+    finished_ = !csv_.nextLine();
+    if (finished_) {
+      return checkWellFormed();
+    }
+    // lines with only a comment are not examples
+  } while (csv_.field(0) == "#");
 
   auto numwords = csv_.numFields();
   result->data_.reserve(numwords * tio_->fields().size());
@@ -106,19 +118,25 @@ Status FullExampleReader::readFullExampleDblCsv(FullyAnnotatedExample *result) {
                                     << " from the line #" << csv_.lineNumber();
     }
     JPP_RIE_MSG(readSingleExampleFragment(csv2_, result), "data=" << content);
+    if (!csv2_.atEnd()) {
+      return JPPS_INVALID_PARAMETER << "word #" << i << " from the line #"
+                                    << csv_.lineNumber() << " has a line break";
+    }
   }
 
   return Status::Ok();
 }
 
+Status FullExampleReader::checkWellFormed() const {
+  if (!csv_.atEnd()) {
+    return JPPS_INVALID_PARAMETER << "malformed data at " << filename_ << ":"
+                                  << csv_.lineNumber();
+  }
+  return Status::Ok();
+}
+
 Status FullExampleReader::readSingleExampleFragment(
     const util::CsvReader &csv, FullyAnnotatedExample *result) {
-  codepts_.clear();
-  auto surfFld = csv.field(tio_->surfaceFieldIdx());
-
-  JPP_RETURN_IF_ERROR(chars::preprocessRawData(surfFld, &codepts_));
-  result->lengths_.push_back(codepts_.size());
-
   auto fields = tio_->fields();
 
   if (csv.numFields() < fields.size()) {
@@ -126,6 +144,15 @@ Status FullExampleReader::readSingleExampleFragment(
            << "a word from the line #" << csv_.lineNumber() << " had "
            << csv.numFields() << " fields, expected " << fields.size();
   }
+
+  codepts_.clear();
+  auto surfFld = csv.field(tio_->surfaceFieldIdx());
+  JPP_RETURN_IF_ERROR(chars::preprocessRawData(surfFld, &codepts_));
+  if (codepts_.empty()) {
+    return JPPS_INVALID_PARAMETER << "a word from the line #"
+                                  << csv_.lineNumber() << " had empty surface";
+  }
+  result->lengths_.push_back(codepts_.size());
   result->surface_.append(surfFld.char_begin(), surfFld.char_end());
   for (int i = 0; i < fields.size(); ++i) {
     auto &fldInfo = fields[i];
diff --git a/src/core/training/full_example.h b/src/core/training/full_example.h
index 0f2edb5..9d0f086 100644
--- a/src/core/training/full_example.h
+++ b/src/core/training/full_example.h
@@ -112,6 +112,7 @@ class FullExampleReader {
 
   Status readSingleExampleFragment(const util::CsvReader& csv,
                                    FullyAnnotatedExample* result);
+  Status checkWellFormed() const;
 
  public:
   void setTrainingIo(const TrainFieldsIndex* io) { tio_ = io; }
diff --git a/src/util/csv_reader.h b/src/util/csv_reader.h
index 297141c..b48f9f7 100644
--- a/src/util/csv_reader.h
+++ b/src/util/csv_reader.h
@@ -89,6 +89,11 @@ class CsvReader {
   i64 byteSize() const { return static_cast<i64>(end_ - start_); }
   bool rowHadQuoted() const { return !temp_.empty(); }
   StringPiece line() const { return StringPiece{lineStart_, position_}; }
+  /**
+   * nextLine() also returns false on a malformed line.
+   * @return true if there is no data left
+   */
+  bool atEnd() const { return position_ == end_; }
 };
 }  // namespace util
 }  // namespace jumanpp
-- 
2.43.0


From 798d869e10ce8bbb4cf8b12774517fd9dc66dbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:07 +0000
Subject: [PATCH 44/74] fix: partial examples: comments do not leak, words
 without surface and unusable tags are rejected, the last sentence of a corpus
 is kept

---
 src/core/input/partial_example_io.cc | 23 ++++++++++++++++++++++-
 src/core/training/trainer.cc         |  9 ++++-----
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/core/input/partial_example_io.cc b/src/core/input/partial_example_io.cc
index a36929c..7b53f0f 100644
--- a/src/core/input/partial_example_io.cc
+++ b/src/core/input/partial_example_io.cc
@@ -29,6 +29,7 @@ Status PartialExampleReader::readExample(PartialExample* result, bool* eof) {
   result->noBreak_.clear();
   result->surface_.clear();
   result->nodes_.clear();
+  result->comment_.clear();
   while (csv_.nextLine()) {
     if (firstLine) {
       result->line_ = csv_.lineNumber();
@@ -37,7 +38,12 @@ Status PartialExampleReader::readExample(PartialExample* result, bool* eof) {
 
     auto wholeLine = csv_.line();
     if (wholeLine.size() > 2 && wholeLine[0] == '#' && wholeLine[1] == ' ') {
-      wholeLine.slice(2, wholeLine.size() - 1).assignTo(result->comment_);
+      auto end = wholeLine.size();
+      while (end > 2 &&
+             (wholeLine[end - 1] == '\n' || wholeLine[end - 1] == '\r')) {
+        end -= 1;
+      }
+      wholeLine.slice(2, end).assignTo(result->comment_);
       continue;
     }
 
@@ -77,6 +83,11 @@ Status PartialExampleReader::readExample(PartialExample* result, bool* eof) {
     NodeConstraint nc{};
 
     auto surface = csv_.field(1);
+    if (surface.empty()) {
+      return JPPS_INVALID_PARAMETER
+             << "in file: " << filename_ << ":" << csv_.lineNumber()
+             << " the surface of an annotated word was empty";
+    }
     codepts_.clear();
     JPP_RIE_MSG(chars::preprocessRawData(surface, &codepts_),
                 surface << " at " << filename_ << ":" << csv_.lineNumber());
@@ -111,6 +122,12 @@ Status PartialExampleReader::readExample(PartialExample* result, bool* eof) {
                << " the field name of an entry [" << fldData
                << "] was not present in the dictionary spec";
       }
+      if (mapIter->second->dicFieldIdx < 0) {
+        return JPPS_INVALID_PARAMETER
+               << "in file: " << filename_ << ":" << csv_.lineNumber()
+               << " the field of an entry [" << fldData
+               << "] is not used by features and can not be annotated";
+      }
 
       i32 id;
       if (!mapIter->second->valueOf(fldValue, &id)) {
@@ -121,6 +138,10 @@ Status PartialExampleReader::readExample(PartialExample* result, bool* eof) {
 
     result->nodes_.push_back(std::move(nc));
   }
+  if (!csv_.atEnd()) {
+    return JPPS_INVALID_PARAMETER << "in file: " << filename_ << ":"
+                                  << csv_.lineNumber() << " malformed line";
+  }
   *eof = true;
   return Status::Ok();
 }
diff --git a/src/core/training/trainer.cc b/src/core/training/trainer.cc
index 60d1f29..261a369 100644
--- a/src/core/training/trainer.cc
+++ b/src/core/training/trainer.cc
@@ -136,20 +136,19 @@ void TrainerBatch::shuffleData(bool usePartial) {
 }
 
 Status TrainerBatch::readPartialExamples(input::PartialExampleReader *reader) {
-  std::unique_ptr<OwningPartialTrainer> trainer;
-  trainer.reset(new OwningPartialTrainer);
   bool eof = true;
   do {
+    std::unique_ptr<OwningPartialTrainer> trainer{new OwningPartialTrainer};
     JPP_RETURN_IF_ERROR(trainer->initialize(config_, *scorerDef_));
     auto &partialTrainer = trainer->trainer_.value();
     JPP_RETURN_IF_ERROR(reader->readExample(&partialTrainer.example(), &eof));
     trainer->reset();
-    if (eof) {
-      break;
+    if (partialTrainer.example().surface().empty()) {
+      // blank lines, comments without sentences or the end of the file
+      continue;
     }
     JPP_DCHECK(scorerDef_);
     partialTrainerts_.emplace_back(trainer.release());
-    trainer.reset(new OwningPartialTrainer);
   } while (!eof);
   return Status::Ok();
 }
-- 
2.43.0


From 2df4e034d34c523731722c60c35b8605c636916c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:13 +0000
Subject: [PATCH 45/74] fix: process all input files and print one block for
 every sentence

---
 src/jumandic/main/jumanpp.cc        | 23 +++++++++++------------
 src/jumandic/shared/jumandic_env.cc | 11 +++++++++++
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/jumandic/main/jumanpp.cc b/src/jumandic/main/jumanpp.cc
index 77d9278..37f6fea 100644
--- a/src/jumandic/main/jumanpp.cc
+++ b/src/jumandic/main/jumanpp.cc
@@ -24,13 +24,13 @@ struct InputOutput {
 
   Status moveToNextFile() {
     auto& fn = (*inFiles_)[currentInFile_];
+    currentInFile_ += 1;
     fileInput_.reset(new std::ifstream{fn});
-    if (fileInput_->bad()) {
-      return JPPS_INVALID_PARAMETER << "failed to open output file: " << fn;
-    }
     input_ = fileInput_.get();
     currentInputFilename_ = fn;
-    currentInFile_ += 1;
+    if (!fileInput_->is_open()) {
+      return JPPS_INVALID_PARAMETER << "failed to open input file: " << fn;
+    }
     return Status::Ok();
   }
 
@@ -80,20 +80,17 @@ struct InputOutput {
   }
 
   bool hasNext() {
-    if (input_->good()) {
-      auto ch = input_->peek();
-      if (ch == std::char_traits<char>::eof()) {
+    while (!input_->good() ||
+           input_->peek() == std::char_traits<char>::eof()) {
+      if (currentInFile_ >= inFiles_->size()) {
         return false;
       }
-    }
-    while (input_->eof() && currentInFile_ < inFiles_->size()) {
       auto s = moveToNextFile();
       if (!s) {
-        LOG_ERROR() << s.message();
+        std::cerr << s << "\n";
       }
     }
-    auto isOk = !input_->eof();
-    return isOk;
+    return true;
   }
 };
 
@@ -157,6 +154,7 @@ int main(int argc, const char** argv) {
     s = io.nextInput();
     if (!s) {
       std::cerr << "failed to read an example: " << s;
+      *io.output_ << exec.emptyResult();
       result = 1;
       continue;
     }
@@ -173,6 +171,7 @@ int main(int argc, const char** argv) {
     s = exec.format()->format(*exec.analyzerPtr(), io.streamReader_->comment());
     if (!s) {
       std::cerr << s;
+      *io.output_ << exec.emptyResult();
     } else {
       *io.output_ << exec.format()->result();
     }
diff --git a/src/jumandic/shared/jumandic_env.cc b/src/jumandic/shared/jumandic_env.cc
index b6fe65f..b02fffe 100644
--- a/src/jumandic/shared/jumandic_env.cc
+++ b/src/jumandic/shared/jumandic_env.cc
@@ -215,7 +215,18 @@ StringPiece JumanppExec::emptyResult() const {
       return StringPiece{"# ERROR\nEOS\n"};
     case OutputType::Morph:
     case OutputType::FullMorph:
+    case OutputType::Segmentation:
+    case OutputType::DicSubset:
       return StringPiece{"# ERROR\n"};
+#if defined(JPP_USE_PROTOBUF)
+    case OutputType::JumanPb:
+    case OutputType::LatticePb:
+    case OutputType::FullLatticeDump: {
+      // a length-prefixed empty message
+      static const char emptyMessage[] = {0};
+      return StringPiece{emptyMessage, emptyMessage + 1};
+    }
+#endif
     default:
       return EMPTY_SP;
   }
-- 
2.43.0


From 6a7b825ef669e7ddf36284c25a4daab692162e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:29 +0000
Subject: [PATCH 46/74] fix: lattice and protobuf formats of empty inputs,
 writes into a freed buffer

---
 src/core/proto/lattice_dump_output.cc    | 11 +++++++++++
 src/jumandic/shared/juman_pb_format.cc   |  1 -
 src/jumandic/shared/jumanpp_pb_format.cc |  6 +++++-
 src/jumandic/shared/lattice_format.cc    |  4 +++-
 4 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/core/proto/lattice_dump_output.cc b/src/core/proto/lattice_dump_output.cc
index b0dddda..408dfe8 100644
--- a/src/core/proto/lattice_dump_output.cc
+++ b/src/core/proto/lattice_dump_output.cc
@@ -226,8 +226,16 @@ struct LatticeDumpOutputImpl {
     return Status::Ok();
   }
 
+  // beams and scores are not computed for an empty input
+  static bool isEmptyInput(const analysis::Lattice* l) {
+    return l->createdBoundaryCount() <= 3;
+  }
+
   Status fillBoundaries(const core::analysis::Analyzer& analyzer) {
     auto l = analyzer.impl()->lattice();
+    if (isEmptyInput(l)) {
+      return Status::Ok();
+    }
     for (i32 bndIdx = 2; bndIdx < l->createdBoundaryCount(); ++bndIdx) {
       auto bnd = obj_->add_boundaries();
       auto bndstart = l->boundary(bndIdx)->starts();
@@ -249,6 +257,9 @@ struct LatticeDumpOutputImpl {
   }
 
   void resolveRanks(const analysis::Lattice* l) {
+    if (isEmptyInput(l)) {
+      return;
+    }
     auto eos =
         l->boundary(l->createdBoundaryCount() - 1)->starts()->beamData().row(0);
     for (i32 rank = 0; rank < eos.size(); ++rank) {
diff --git a/src/jumandic/shared/juman_pb_format.cc b/src/jumandic/shared/juman_pb_format.cc
index cb51ceb..86cfb38 100644
--- a/src/jumandic/shared/juman_pb_format.cc
+++ b/src/jumandic/shared/juman_pb_format.cc
@@ -128,7 +128,6 @@ struct JumanPbFormatImpl {
       google::protobuf::io::CodedOutputStream cos{&os};
       auto messageSize = obj_.ByteSizeLong();
       cos.WriteVarint64(messageSize);
-      buffer_.reserve(messageSize);
       if (!obj_.SerializeToCodedStream(&cos)) {
         return JPPS_INVALID_STATE << "failed to serialize LatticeDump";
       }
diff --git a/src/jumandic/shared/jumanpp_pb_format.cc b/src/jumandic/shared/jumanpp_pb_format.cc
index 7f22ba9..a3bad33 100644
--- a/src/jumandic/shared/jumanpp_pb_format.cc
+++ b/src/jumandic/shared/jumanpp_pb_format.cc
@@ -64,6 +64,11 @@ struct LatticeTopN {
     nodes_.clear();
     topScores_.clear();
 
+    if (lat->createdBoundaryCount() <= 3) {
+      // an empty input has only BOS nodes, they do not form a beam
+      return;
+    }
+
     auto eos = lat->boundary(lat->createdBoundaryCount() - 1);
     auto beam = eos->starts()->beamData();
     auto maxN = std::min<i32>(static_cast<i32>(beam.size()), topN);
@@ -217,7 +222,6 @@ struct JumanppProtobufOutputImpl {
       google::protobuf::io::CodedOutputStream cos{&os};
       auto messageSize = object_.ByteSizeLong();
       cos.WriteVarint64(messageSize);
-      buffer_.reserve(messageSize);
       if (!object_.SerializeToCodedStream(&cos)) {
         return JPPS_INVALID_STATE << "failed to serialize LatticeDump";
       }
diff --git a/src/jumandic/shared/lattice_format.cc b/src/jumandic/shared/lattice_format.cc
index 9937511..f263249 100644
--- a/src/jumandic/shared/lattice_format.cc
+++ b/src/jumandic/shared/lattice_format.cc
@@ -85,7 +85,9 @@ Status LatticeFormat::format(const core::analysis::Analyzer& analyzer,
   printer.reset();
   auto lat = analyzer.impl()->lattice();
   if (lat->createdBoundaryCount() == 3) {
-    printer.reset();
+    if (!comment.empty()) {
+      printer << "# " << comment << '\n';
+    }
     printer << "EOS\n";
     return Status::Ok();
   }
-- 
2.43.0


From 6de908e55e9a434c2c94b91521417fd251104987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:39 +0000
Subject: [PATCH 47/74] fix: protobuf formats: swapped conjugation strings,
 missing scores of paths

---
 src/jumandic/shared/juman_pb_format.cc   | 4 ++--
 src/jumandic/shared/jumanpp_pb_format.cc | 7 +++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/jumandic/shared/juman_pb_format.cc b/src/jumandic/shared/juman_pb_format.cc
index 86cfb38..16caabf 100644
--- a/src/jumandic/shared/juman_pb_format.cc
+++ b/src/jumandic/shared/juman_pb_format.cc
@@ -74,8 +74,8 @@ struct JumanPbFormatImpl {
     auto strPos = mrph->mutable_string_pos();
     strPos->set_pos(ifEmpty(fields_.pos[walker], "*").str());
     strPos->set_subpos(ifEmpty(fields_.subpos[walker], "*").str());
-    strPos->set_conj_type(ifEmpty(fields_.conjForm[walker], "*").str());
-    strPos->set_conj_form(ifEmpty(fields_.conjType[walker], "*").str());
+    strPos->set_conj_type(ifEmpty(fields_.conjType[walker], "*").str());
+    strPos->set_conj_form(ifEmpty(fields_.conjForm[walker], "*").str());
 
     return Status::Ok();
   }
diff --git a/src/jumandic/shared/jumanpp_pb_format.cc b/src/jumandic/shared/jumanpp_pb_format.cc
index a3bad33..87fee13 100644
--- a/src/jumandic/shared/jumanpp_pb_format.cc
+++ b/src/jumandic/shared/jumanpp_pb_format.cc
@@ -135,6 +135,9 @@ struct JumanppProtobufOutputImpl {
     topN_.fillLattice(lat, maxN_);
     object_.Clear();
     object_.set_comment(comment.str());
+    for (float score : topN_.topScores_) {
+      object_.add_scores(score);
+    }
 
     core::analysis::NodeWalker walker;
     auto outputMgr = analyzer.output();
@@ -198,8 +201,8 @@ struct JumanppProtobufOutputImpl {
         auto strPos = node->mutable_string_pos();
         strPos->set_pos(ifEmpty(fields_.pos[walker], "*").str());
         strPos->set_subpos(ifEmpty(fields_.subpos[walker], "*").str());
-        strPos->set_conj_type(ifEmpty(fields_.conjForm[walker], "*").str());
-        strPos->set_conj_form(ifEmpty(fields_.conjType[walker], "*").str());
+        strPos->set_conj_type(ifEmpty(fields_.conjType[walker], "*").str());
+        strPos->set_conj_form(ifEmpty(fields_.conjForm[walker], "*").str());
 
         for (auto& rankInfo : info.ranks) {
           node->add_ranks(rankInfo.rank);
-- 
2.43.0


From dbea45d24fdc02c0d56b323fa908d15e9e40ce7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:39 +0000
Subject: [PATCH 48/74] fix: JUMAN ids of parts of speech which are absent from
 the dictionary

---
 src/jumandic/shared/jumandic_id_resolver.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/jumandic/shared/jumandic_id_resolver.cc b/src/jumandic/shared/jumandic_id_resolver.cc
index b54d517..ceab48e 100644
--- a/src/jumandic/shared/jumandic_id_resolver.cc
+++ b/src/jumandic/shared/jumandic_id_resolver.cc
@@ -28,6 +28,8 @@ V findOr(const util::FlatMap<K, V, H, E>& map, const K& key, V defVal) {
   return it->second;
 }
 
+static bool isEmpty(StringPiece sp) { return sp == StringPiece{"*"}; }
+
 Status JumandicIdResolver::initialize(const core::dic::DictionaryHolder& dic) {
   auto posFld = dic.fieldByName("pos");
   if (posFld == nullptr) {
@@ -61,7 +63,9 @@ Status JumandicIdResolver::initialize(const core::dic::DictionaryHolder& dic) {
     auto& pos = posInfo[i];
     auto posId = findOr(pos2id, pos.part1, 0);
     auto subposId = findOr(subPos2id, pos.part2, 0);
-    if (posId != 0 || subposId != 0) {
+    // 0 is the empty string ("*"), strings which are absent from the dictionary
+    // should not be confused with it
+    if (posId != 0 && (subposId != 0 || isEmpty(pos.part2))) {
       CompositeId posObj{posId, subposId};
       posMap[posObj] = CompositeId{pos.id1, pos.id2};
     }
@@ -72,7 +76,9 @@ Status JumandicIdResolver::initialize(const core::dic::DictionaryHolder& dic) {
     auto ctId = findOr(conjType2id, conj.part1, 0);
     auto cfId = findOr(conjForm2id, conj.part2, 0);
     if (ctId != 0) {
-      conjMap[CompositeId{ctId, cfId}] = CompositeId{conj.id1, conj.id2};
+      if (cfId != 0) {
+        conjMap[CompositeId{ctId, cfId}] = CompositeId{conj.id1, conj.id2};
+      }
       conjMap[CompositeId{ctId, 0}] = CompositeId{conj.id1, 0};
     }
   }
-- 
2.43.0


From a7cc47812bc2a093e9158d3c7ebeaa0a59c8673c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:39 +0000
Subject: [PATCH 49/74] fix: dic-subset wrote an entry once for each occurrence

---
 src/jumandic/shared/mdic_format.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jumandic/shared/mdic_format.cc b/src/jumandic/shared/mdic_format.cc
index 660b3e2..9380602 100644
--- a/src/jumandic/shared/mdic_format.cc
+++ b/src/jumandic/shared/mdic_format.cc
@@ -25,7 +25,7 @@ Status MdicFormat::format(const core::analysis::Analyzer& analyzer,
 
     for (int i = 0; i < ninfo.size(); ++i) {
       auto eptr = ninfo.at(i).entryPtr();
-      if (eptr.isDic() && displayed_.count(eptr.rawValue()) == 0) {
+      if (eptr.isDic() && displayed_.insert(eptr.rawValue()).second) {
         JPP_RETURN_IF_ERROR(formatNode(eptr.rawValue(), om));
       }
     }
-- 
2.43.0


From 1143fe9f4661ca71a034e5083d8c1096287b7337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:39 +0000
Subject: [PATCH 50/74] fix: lattice format: raw tabs in the canonic form,
 scores read after the beam

---
 src/jumandic/shared/lattice_format.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jumandic/shared/lattice_format.cc b/src/jumandic/shared/lattice_format.cc
index f263249..ddebe91 100644
--- a/src/jumandic/shared/lattice_format.cc
+++ b/src/jumandic/shared/lattice_format.cc
@@ -113,7 +113,8 @@ Status LatticeFormat::format(const core::analysis::Analyzer& analyzer,
     auto eos = lat->boundary(lat->createdBoundaryCount() - 1);
     auto eosBeam = eos->starts()->beamData();
 
-    for (int i = 0; i < outputN; ++i) {
+    auto maxN = std::min<i32>(eosBeam.size(), outputN);
+    for (int i = 0; i < maxN; ++i) {
       auto& bel = eosBeam.at(i);
       if (core::analysis::EntryBeam::isFake(bel)) {
         break;
@@ -171,7 +172,8 @@ Status LatticeFormat::format(const core::analysis::Analyzer& analyzer,
       if (!canFrm.empty()) {
         printer << f.canonicForm[walker];
       } else {
-        printer << f.baseform[walker] << '/' << f.reading[walker];
+        printer << escapeTab(f.baseform[walker]) << '/'
+                << escapeTab(f.reading[walker]);
       }
       printer << '\t';
       printer << escapeTab(f.reading[walker]) << '\t';
-- 
2.43.0


From 8b20037587f1140ed811b847536cecab788db286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:39 +0000
Subject: [PATCH 51/74] fix: juman format: NIL for unknown words without
 features

---
 src/jumandic/shared/juman_format.cc | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/jumandic/shared/juman_format.cc b/src/jumandic/shared/juman_format.cc
index d05656a..8a27fd3 100644
--- a/src/jumandic/shared/juman_format.cc
+++ b/src/jumandic/shared/juman_format.cc
@@ -122,7 +122,12 @@ bool JumanFormat::formatOne(const core::analysis::OutputManager& om,
     auto canonic = flds.canonicForm[walker];
 
     auto eptr = walker.eptr();
-    bool hasFeatures = eptr.isSpecial() || res.hasNext() || !canonic.empty();
+    i32 normalized = 0;
+    if (eptr.isSpecial()) {
+      normalized =
+          om.valueOfUnkPlaceholder(eptr, jumandic::NormalizedPlaceholderIdx);
+    }
+    bool hasFeatures = normalized != 0 || res.hasNext() || !canonic.empty();
 
     if (!hasFeatures) {
       printer << "NIL";
@@ -147,15 +152,11 @@ bool JumanFormat::formatOne(const core::analysis::OutputManager& om,
         }
       }
 
-      if (eptr.isSpecial()) {
-        auto ufld =
-            om.valueOfUnkPlaceholder(eptr, jumandic::NormalizedPlaceholderIdx);
-        if (ufld != 0) {
-          if (output) {
-            printer << " ";
-          }
-          formatNormalizedFeature(printer, ufld);
+      if (normalized != 0) {
+        if (output) {
+          printer << " ";
         }
+        formatNormalizedFeature(printer, normalized);
       }
 
       printer << '"';
-- 
2.43.0


From 8f94df8ef918835d45e4cfa98e676403f50b564d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:39 +0000
Subject: [PATCH 52/74] fix: RNN settings which are not given are those of the
 model

---
 src/core/env.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/core/env.cc b/src/core/env.cc
index 569826d..2f01d4a 100644
--- a/src/core/env.cc
+++ b/src/core/env.cc
@@ -75,23 +75,23 @@ void JumanppEnv::setRnnHolder(analysis::RnnScorerGbeamFactory* holder) {
 
 void JumanppEnv::setRnnConfig(
     const analysis::rnn::RnnInferenceConfig& rnnConf) {
-  if (rnnConf.rnnWeight.value() == 0) {
-    if (hasRnnModel()) {
+  if (hasRnnModel()) {
+    // values which are not specified explicitly are taken from the model
+    rnnHolder_.setConfig(rnnConf);
+    auto& merged = rnnHolder_.config();
+    if (merged.rnnWeight.value() == 0) {
       scorers_.others.clear();
       scorers_.scoreWeights.clear();
-      scorers_.scoreWeights.push_back(rnnConf.perceptronWeight);
+      scorers_.scoreWeights.push_back(merged.perceptronWeight);
       scoringConf_.numScorers = 1;
       return;  // disable rnn
     }
-  }
-  if (hasRnnModel()) {
-    rnnHolder_.setConfig(rnnConf);
     if (scorers_.others.empty()) {
       scorers_.others.push_back(&rnnHolder_);
     }
     scorers_.scoreWeights.resize(2, 0);
-    scorers_.scoreWeights[0] = rnnConf.perceptronWeight;
-    scorers_.scoreWeights[1] = rnnConf.rnnWeight;
+    scorers_.scoreWeights[0] = merged.perceptronWeight;
+    scorers_.scoreWeights[1] = merged.rnnWeight;
     scoringConf_.numScorers = 2;
   } else {
     scorers_.scoreWeights.resize(1, 0);
-- 
2.43.0


From 564f20963e9f42737bc9bfc7a1877187b359ce1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:39 +0000
Subject: [PATCH 53/74] fix: report unknown options and invalid values, beam
 size of merged settings

---
 libs/args.h                         |  6 ++-
 src/jumandic/shared/jumanpp_args.cc | 78 +++++++++++++++++++----------
 2 files changed, 56 insertions(+), 28 deletions(-)

diff --git a/libs/args.h b/libs/args.h
index ce275ab..c9d135b 100644
--- a/libs/args.h
+++ b/libs/args.h
@@ -3259,9 +3259,11 @@ struct ValueReader
   operator ()(const std::string &name, const std::string &value, T &destination)
   {
     std::istringstream ss(value);
-    ss >> destination >> std::ws;
+    ss >> destination;
+    const bool failed = ss.fail();
+    ss >> std::ws;
 
-    if (ss.rdbuf()->in_avail() > 0)
+    if (failed || ss.rdbuf()->in_avail() > 0)
     {
 #ifdef ARGS_NOEXCEPT
       (void)name;
diff --git a/src/jumandic/shared/jumanpp_args.cc b/src/jumandic/shared/jumanpp_args.cc
index a03b5c9..5588dd5 100644
--- a/src/jumandic/shared/jumanpp_args.cc
+++ b/src/jumandic/shared/jumanpp_args.cc
@@ -175,7 +175,7 @@ struct JppArgsParser {
       std::cerr << parser;
       exit(1);
     } catch (args::ParseError& e) {
-      Status::InvalidParameter() << e.what() << "\n" << parser;
+      return Status::InvalidParameter() << e.what() << "\n" << parser;
     } catch (...) {
       return Status::InvalidParameter() << "unknown exception happened";
     }
@@ -194,7 +194,9 @@ struct JppArgsParser {
     std::regex_token_iterator<const char*> end{};
     std::vector<std::string> parts;
     for (; begin != end; ++begin) {
-      parts.emplace_back(wstart, begin->first);
+      if (wstart != begin->first) {
+        parts.emplace_back(wstart, begin->first);
+      }
       wstart = begin->second;
     }
     if (wstart != data.end()) {
@@ -205,7 +207,7 @@ struct JppArgsParser {
     } catch (args::Help&) {
       return Status::InvalidParameter() << parser;
     } catch (args::ParseError& e) {
-      Status::InvalidParameter() << e.what() << "\n" << parser;
+      return Status::InvalidParameter() << e.what() << "\n" << parser;
     } catch (...) {
       return Status::InvalidParameter();
     }
@@ -227,7 +229,7 @@ struct JppArgsParser {
                  "for more information\n";
   }
 
-  void fillResult(JumanppConf* result) {
+  Status fillResult(JumanppConf* result) {
     if (availableFormats) {
       printAvailableFormats();
       exit(1);
@@ -259,31 +261,44 @@ struct JppArgsParser {
     result->segmentSeparator.set(segmentSeparator);
 
     result->beamSize.set(beamSize);
-    if (result->beamSize < result->beamOutput) {
-      result->beamSize = result->beamOutput.value();
-    }
-
     result->globalBeam.set(globalBeamSize);
     result->rightCheck.set(rightCheckBeam);
     result->rightBeam.set(rightBeamSize);
 
     if (autoBeam) {
-      std::regex autoBeamRegex(R"(^(\d+):(\d+):(\d+)$)");
+      std::regex autoBeamRegex(R"(^(\d{1,9}):(\d{1,9}):(\d{1,9})$)");
       std::smatch results;
       auto& s = autoBeam.Get();
       if (std::regex_search(s, results, autoBeamRegex)) {
         result->beamSize = to_int10<i32>(results[1]);
         result->autoStep = to_int10<i32>(results[2]);
         result->globalBeam = to_int10<i32>(results[3]);
+      } else {
+        return JPPS_INVALID_PARAMETER
+               << "--auto-nbest should be BASE:STEP:MAX, was: " << s;
       }
     }
 
 #ifdef JPP_ENABLE_DEV_TOOLS
     result->outputType.set(globalBeamPos, OutputType::GlobalBeamPos);
 #endif
+    return Status::Ok();
   }
 };
 
+// should be called when all sources of settings are merged
+Status validateBeams(JumanppConf* conf) {
+  if (conf->beamSize < 1) {
+    return JPPS_INVALID_PARAMETER << "beam size should be positive, was: "
+                                  << conf->beamSize.value();
+  }
+  // it should be possible to output as many paths as requested
+  if (conf->autoStep == 0 && conf->beamSize < conf->beamOutput) {
+    conf->beamSize = conf->beamOutput.value();
+  }
+  return Status::Ok();
+}
+
 }  // namespace
 
 Status parseCfgFile(StringPiece filename, JumanppConf* conf,
@@ -291,7 +306,7 @@ Status parseCfgFile(StringPiece filename, JumanppConf* conf,
   JppArgsParser parser;
   JumanppConf myConf;
   JPP_RETURN_IF_ERROR(parser.parseFile(filename));
-  parser.fillResult(&myConf);
+  JPP_RETURN_IF_ERROR(parser.fillResult(&myConf));
   if (recursionDepth > 0 && myConf.configFile.defined()) {
     JumanppConf internal;
     JPP_RETURN_IF_ERROR(
@@ -299,7 +314,7 @@ Status parseCfgFile(StringPiece filename, JumanppConf* conf,
     conf->mergeWith(internal);
   }
   conf->mergeWith(myConf);
-  return Status::Ok();
+  return validateBeams(conf);
 }
 
 namespace {
@@ -337,6 +352,23 @@ Status fixupModelPath(JumanppConf* result) {
   }
   return Status::Ok();
 }
+
+// Default configs may not exist, but if they do then they should be valid
+Status tryDefaultConfig(JppArgsParser* parser, const std::string& filename,
+                        JumanppConf* result, bool* loaded) {
+  Status s = parser->parseFile(filename);
+  LOG_DEBUG() << "tried to read config from " << filename << " error=" << s;
+  if (s) {
+    s = parser->fillResult(result);
+    *loaded = true;
+  }
+  if (s.code() == StatusCode::InvalidParameter) {
+    return Status::InvalidParameter()
+           << "failed to parse config at: " << filename << "\n"
+           << s;
+  }
+  return Status::Ok();
+}
 }  // namespace
 
 Status parseArgs(int argc, const char* argv[], JumanppConf* result) {
@@ -344,7 +376,7 @@ Status parseArgs(int argc, const char* argv[], JumanppConf* result) {
   JppArgsParser argsParser;
   JumanppConf cmdline;
   JPP_RETURN_IF_ERROR(argsParser.parseCli(argc, argv));
-  argsParser.fillResult(&cmdline);
+  JPP_RETURN_IF_ERROR(argsParser.fillResult(&cmdline));
 
   util::logging::CurrentLogLevel =
       static_cast<util::logging::Level>(cmdline.logLevel.value());
@@ -355,7 +387,9 @@ Status parseArgs(int argc, const char* argv[], JumanppConf* result) {
   if (!cmdline.configFile.value().empty()) {
     s = argsParser.parseFile(cmdline.configFile.value());
     if (s) {
-      argsParser.fillResult(result);
+      s = argsParser.fillResult(result);
+    }
+    if (s) {
       loadedConfig = true;
     } else {
       return Status::InvalidParameter()
@@ -369,14 +403,9 @@ Status parseArgs(int argc, const char* argv[], JumanppConf* result) {
   if (!loadedConfig) {
     std::string globalCfgName{core::JPP_DEFAULT_CONFIG_DIR};
     globalCfgName += myName.str();
-    s = argsParser.parseFile(globalCfgName);
-    if (s) {
-      argsParser.fillResult(result);
-      loadedConfig = true;
-    }
+    JPP_RETURN_IF_ERROR(
+        tryDefaultConfig(&argsParser, globalCfgName, result, &loadedConfig));
     JPP_RETURN_IF_ERROR(fixupModelPath(result));
-    LOG_DEBUG() << "tried to read global config from " << globalCfgName
-                << " error=" << s;
   }
 
   auto homePtr = std::getenv("HOME");
@@ -384,16 +413,13 @@ Status parseArgs(int argc, const char* argv[], JumanppConf* result) {
     std::string userConfigPath(homePtr);
     userConfigPath += "/.config/jumanpp";
     userConfigPath += myName.str();
-    s = argsParser.parseFile(userConfigPath);
-    if (s) {
-      argsParser.fillResult(result);
-    }
+    JPP_RETURN_IF_ERROR(
+        tryDefaultConfig(&argsParser, userConfigPath, result, &loadedConfig));
     JPP_RETURN_IF_ERROR(fixupModelPath(result));
-    LOG_DEBUG() << "tried to read user config from " << userConfigPath
-                << " error=" << s;
   }
 
   result->mergeWith(cmdline);
+  JPP_RETURN_IF_ERROR(validateBeams(result));
 
   LOG_TRACE() << "Merged Config: " << *result;
 
-- 
2.43.0


From 0b970974f2006605b6d5278183debb11be4b5314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:17 +0000
Subject: [PATCH 54/74] fix: accept a comment at the end of a specification
 without a line end

---
 src/core/spec/spec_grammar.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/spec/spec_grammar.h b/src/core/spec/spec_grammar.h
index 1dff62e..d058d60 100644
--- a/src/core/spec/spec_grammar.h
+++ b/src/core/spec/spec_grammar.h
@@ -87,7 +87,7 @@ struct kw_match : lit_string("match") {};
 struct kw_output : lit_string("output") {};
 struct kw_template : lit_string("template") {};
 
-struct comment : seq<p::one<'#'>, p::until<p::eol>> {};
+struct comment : seq<p::one<'#'>, p::until<p::eolf>> {};
 struct sep : p::pad_opt<comment, whitespace> {};
 struct sep_pad : p::sor<whitespace, comment> {};
 
-- 
2.43.0


From 5f154d6c3b3638423d96979d9073aabab9820fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:17 +0000
Subject: [PATCH 55/74] fix: read doubled quotes in strings of a specification
 as one quote

---
 src/core/spec/spec_parser_impl.h | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/core/spec/spec_parser_impl.h b/src/core/spec/spec_parser_impl.h
index aa1c24c..0220e03 100644
--- a/src/core/spec/spec_parser_impl.h
+++ b/src/core/spec/spec_parser_impl.h
@@ -111,20 +111,13 @@ struct StoreQuotedStringParam {
       throw p::parse_error("failed to import quoted string", in);
     }
 
-    int start = 0;
     auto end = chars.size();
-    for (; start < end; ++start) {
-      if (chars[start] == '"') {
-        break;
-      }
-    }
-
-    int head = start + 1;
-    int tail = start;
+    size_t head = 0;
+    size_t tail = 0;
     while (head < end) {
       chars[tail] = chars[head];
       if (chars[head] == '"') {
-        ++tail;
+        ++head;  // quotes are doubled
       }
       ++head;
       ++tail;
-- 
2.43.0


From 3a658de960a18c0105610a6b764ad99fcd8684cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:17 +0000
Subject: [PATCH 56/74] fix: allow features in then and else lists of
 specification texts, as documented

---
 src/core/spec/spec_grammar.h     | 10 +++++-----
 src/core/spec/spec_parser_impl.h | 19 ++++++++++---------
 2 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/core/spec/spec_grammar.h b/src/core/spec/spec_grammar.h
index d058d60..19966bd 100644
--- a/src/core/spec/spec_grammar.h
+++ b/src/core/spec/spec_grammar.h
@@ -137,12 +137,15 @@ struct fldref_litem : p::seq<fieldparam> {};
 struct fldref_list
     : p::if_must<lbrak, sep, p::list<fldref_litem, comma, sep_pad>, sep,
                  rbrak> {};
+struct fref_item : ident {};
+struct fref_list
+    : p::if_must<lbrak, sep, p::list<fref_item, comma, sep_pad>, sep, rbrak> {};
 struct mt_lhs : p::sor<fldref_litem, fldref_list> {};
 struct mt_rhs_file : p::seq<lit_string("file"), sep, qstring_param> {};
 struct mt_rhs : p::sor<qstring_param, mt_rhs_file> {};
 struct mt_cond : p::seq<mt_lhs, sep, lit_string("with"), sep, mt_rhs> {};
-struct mt_then_body : p::seq<lit_string("then"), sep, fldref_list> {};
-struct mt_else_body : p::seq<lit_string("else"), sep, fldref_list> {};
+struct mt_then_body : p::seq<lit_string("then"), sep, fref_list> {};
+struct mt_else_body : p::seq<lit_string("else"), sep, fref_list> {};
 struct ft_match : p::if_must<lit_string("match"), sep, mt_cond,
                              p::opt<sep, mt_then_body, sep, mt_else_body>> {};
 
@@ -152,9 +155,6 @@ struct feature_name : ident {};
 struct feature_stmt : p::if_must<lit_string("feature"), sep, feature_name,
                                  p::pad_opt<eq, sep_pad>, feature_body> {};
 
-struct fref_item : ident {};
-struct fref_list
-    : p::if_must<lbrak, sep, p::list<fref_item, comma, sep_pad>, sep, rbrak> {};
 struct fref_lists : p::rep_min_max<1, 3, fref_list, sep> {};
 struct ngram_stmt : p::if_must<lit_string("ngram"), sep, fref_lists> {};
 
diff --git a/src/core/spec/spec_parser_impl.h b/src/core/spec/spec_parser_impl.h
index 0220e03..736d13b 100644
--- a/src/core/spec/spec_parser_impl.h
+++ b/src/core/spec/spec_parser_impl.h
@@ -261,7 +261,6 @@ struct SpecAction<feature_name> {
   static void apply(const Input& in, SpecParserImpl& sp) {
     auto name = StringPiece{in.begin(), in.end()};
     sp.curFeature_ = &sp.builder_.feature(name);
-    sp.features_[name] = sp.curFeature_;
   }
 };
 
@@ -364,13 +363,13 @@ template <>
 struct SpecAction<mt_then_body> {
   template <typename Input>
   static void apply(const Input& in, SpecParserImpl& sp) {
-    auto& vals = sp.fieldRefs_;
     std::vector<dsl::FieldExpressionBldr> transfs;
-    for (auto& f : vals) {
-      transfs.push_back(sp.fields_[f.name()]->value());
+    for (auto& f : sp.featureRefRefs_.back()) {
+      transfs.push_back(dsl::FieldExpressionBldr{
+          f.name(), dsl::TransformType::Value, jumanpp::EMPTY_SP, 0});
     }
     sp.curFeature_->ifTrue(transfs);
-    vals.clear();
+    sp.featureRefRefs_.clear();
   }
 };
 
@@ -378,13 +377,13 @@ template <>
 struct SpecAction<mt_else_body> {
   template <typename Input>
   static void apply(const Input& in, SpecParserImpl& sp) {
-    auto& vals = sp.fieldRefs_;
     std::vector<dsl::FieldExpressionBldr> transfs;
-    for (auto& f : vals) {
-      transfs.push_back(sp.fields_[f.name()]->value());
+    for (auto& f : sp.featureRefRefs_.back()) {
+      transfs.push_back(dsl::FieldExpressionBldr{
+          f.name(), dsl::TransformType::Value, jumanpp::EMPTY_SP, 0});
     }
     sp.curFeature_->ifFalse(transfs);
-    vals.clear();
+    sp.featureRefRefs_.clear();
   }
 };
 
@@ -392,6 +391,8 @@ template <>
 struct SpecAction<feature_stmt> {
   template <typename Input>
   static void apply(const Input& in, SpecParserImpl& sp) {
+    // the definition itself can't refer to the feature
+    sp.features_[sp.curFeature_->name()] = sp.curFeature_;
     sp.curFeature_ = nullptr;
   }
 };
-- 
2.43.0


From 42f2a1cae189ab62fb6af649101a8717cab84fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:17 +0000
Subject: [PATCH 57/74] fix: report too large numbers in specifications instead
 of an uncaught exception

---
 src/core/spec/spec_parser_impl.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core/spec/spec_parser_impl.h b/src/core/spec/spec_parser_impl.h
index 736d13b..7afc9be 100644
--- a/src/core/spec/spec_parser_impl.h
+++ b/src/core/spec/spec_parser_impl.h
@@ -5,6 +5,8 @@
 #ifndef JUMANPP_SPEC_PARSER_IMPL_H
 #define JUMANPP_SPEC_PARSER_IMPL_H
 
+#include <cmath>
+#include <cstdlib>
 #include "spec_dsl.h"
 #include "spec_grammar.h"
 #include "util/char_buffer.h"
@@ -575,7 +577,11 @@ template <>
 struct SpecAction<floatconst> {
   template <typename Input>
   static void apply(const Input& in, SpecParserImpl& sp) {
-    sp.floatParam_ = std::stof(std::string(in.begin(), in.end()));
+    sp.floatParam_ =
+        std::strtof(std::string(in.begin(), in.end()).c_str(), nullptr);
+    if (!std::isfinite(sp.floatParam_)) {
+      throw p::parse_error("failed to parse a number", in);
+    }
   }
 };
 
-- 
2.43.0


From d73c097959b55e9d3e68e8ac634ef9c4cb5be56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:17 +0000
Subject: [PATCH 58/74] fix: accept the class family_others in specification
 texts

---
 src/core/spec/spec_parser_impl.cc | 7 ++++---
 src/core/spec/spec_parser_impl.h  | 6 +++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/core/spec/spec_parser_impl.cc b/src/core/spec/spec_parser_impl.cc
index d5ec06a..574abce 100644
--- a/src/core/spec/spec_parser_impl.cc
+++ b/src/core/spec/spec_parser_impl.cc
@@ -45,7 +45,7 @@ Resource *SpecParserImpl::fileResourece(StringPiece name, p::position pos) {
   return res;
 }
 
-chars::CharacterClass charClassByName(StringPiece name) {
+bool charClassByName(StringPiece name, chars::CharacterClass *result) {
   using C = chars::CharacterClass;
   using S = StringPiece;
 
@@ -100,9 +100,10 @@ chars::CharacterClass charClassByName(StringPiece name) {
 
   auto it = classes.find(name_upper);
   if (it != classes.end()) {
-    return it->second;
+    *result = it->second;
+    return true;
   }
-  return C::FAMILY_OTHERS;
+  return false;
 }
 }  // namespace parser
 }  // namespace spec
diff --git a/src/core/spec/spec_parser_impl.h b/src/core/spec/spec_parser_impl.h
index 7afc9be..52b3b89 100644
--- a/src/core/spec/spec_parser_impl.h
+++ b/src/core/spec/spec_parser_impl.h
@@ -50,7 +50,7 @@ struct SpecParserImpl {
   SpecParserImpl(StringPiece basename) : basename_{basename.str()} {}
 };
 
-chars::CharacterClass charClassByName(StringPiece name);
+bool charClassByName(StringPiece name, chars::CharacterClass* result);
 
 template <typename Rule>
 struct SpecAction : p::nothing<Rule> {};
@@ -467,8 +467,8 @@ struct SpecAction<char_type_lit> {
   template <typename Input>
   static void apply(const Input& in, SpecParserImpl& sp) {
     auto name = StringPiece(in.begin(), in.end());
-    auto clazz = charClassByName(name);
-    if (clazz == chars::CharacterClass::FAMILY_OTHERS) {
+    chars::CharacterClass clazz;
+    if (!charClassByName(name, &clazz)) {
       throw p::parse_error("invalid/unsupported character class: " + name.str(),
                            in.position());
     }
-- 
2.43.0


From d0086a8d490c84cda77037b5eac4da77c9fbece7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:17 +0000
Subject: [PATCH 59/74] fix: match a list field with several values in
 specification texts

---
 src/core/spec/spec_parser_impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/spec/spec_parser_impl.h b/src/core/spec/spec_parser_impl.h
index 52b3b89..9404663 100644
--- a/src/core/spec/spec_parser_impl.h
+++ b/src/core/spec/spec_parser_impl.h
@@ -352,7 +352,7 @@ struct SpecAction<mt_cond> {
     auto& vals = sp.fieldRefs_;
     auto csvData = sp.stringParam_;
     if (vals.size() == 1 &&
-        !(util::contains(csvData, ',') || util::contains(csvData, '\n'))) {
+        !util::contains(csvData, ',')) {
       sp.curFeature_->matchData(vals[0], csvData);
     } else {
       sp.curFeature_->matchAnyRowOfCsv(csvData, vals);
-- 
2.43.0


From 5780aa9d674ae4be76fc457bc1d8e5eda64fa48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:17 +0000
Subject: [PATCH 60/74] fix: reject specifications with repeated names of
 features and unknown word handlers

---
 src/core/spec/spec_dsl.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/core/spec/spec_dsl.cc b/src/core/spec/spec_dsl.cc
index 1a052af..19ec50f 100644
--- a/src/core/spec/spec_dsl.cc
+++ b/src/core/spec/spec_dsl.cc
@@ -60,6 +60,7 @@ Status ModelSpecBuilder::validateNames() const {
       return Status::InvalidParameter()
              << "feature " << feature->name() << " has non-unique name";
     }
+    current.insert(feature->name());
   }
 
   return Status::Ok();
@@ -102,8 +103,14 @@ Status ModelSpecBuilder::checkNoFeatureIsLeft() const {
 }
 
 Status ModelSpecBuilder::validateUnks() const {
+  util::FlatSet<StringPiece> names;
   for (auto unk : unks_) {
     JPP_RETURN_IF_ERROR(unk->validate());
+    if (names.count(unk->name()) != 0) {
+      return JPPS_INVALID_PARAMETER << "unk processor " << unk->name()
+                                    << " has non-unique name";
+    }
+    names.insert(unk->name());
   }
   return Status::Ok();
 }
-- 
2.43.0


From 0aecdd01711b492f763acdf0a1cc501e5dea6d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:17 +0000
Subject: [PATCH 61/74] fix: reject specifications with a training loss of
 fields which are not strings

---
 src/core/spec/spec_compiler.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/spec/spec_compiler.cc b/src/core/spec/spec_compiler.cc
index 296380b..eec7f3a 100644
--- a/src/core/spec/spec_compiler.cc
+++ b/src/core/spec/spec_compiler.cc
@@ -605,6 +605,11 @@ Status SpecCompiler::createTrainSpec() {
              << " was specified for training, but no ngram feature uses it";
     }
     auto fld = fieldByName(f.first.name());
+    if (fld->fieldType != FieldType::String) {
+      return JPPS_INVALID_PARAMETER
+             << "only string fields can be used for training, "
+             << f.first.name() << " is not one";
+    }
     spec.fields.emplace_back();
     auto& o = spec.fields.back();
     o.number = i;
-- 
2.43.0


From 5e0e575167c64ef4f74f6a5f5606d4b3ba697e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:16 +0000
Subject: [PATCH 62/74] fix: reject dictionaries with malformed CSV instead of
 dropping the remaining rows

---
 src/core/dic/dic_build_detail.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/dic/dic_build_detail.cc b/src/core/dic/dic_build_detail.cc
index b13e9b3..360a8cd 100644
--- a/src/core/dic/dic_build_detail.cc
+++ b/src/core/dic/dic_build_detail.cc
@@ -95,6 +95,11 @@ Status DictionaryBuilderStorage::computeStats(StringPiece name,
     }
     ++numLine;
   }
+  if (!csv->atEnd()) {
+    return JPPS_INVALID_PARAMETER << "dictionary file " << name
+                                  << " has malformed CSV after line "
+                                  << csv->lineNumber();
+  }
   return Status::Ok();
 }
 
-- 
2.43.0


From 0091fbb83cc6d6ff652a53b18b61c97793ffe1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:36 +0000
Subject: [PATCH 63/74] fix: refuse inputs whose boundaries do not fit into a
 lattice position

---
 src/core/analysis/analysis_input.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/analysis/analysis_input.cc b/src/core/analysis/analysis_input.cc
index be376be..48d3f51 100644
--- a/src/core/analysis/analysis_input.cc
+++ b/src/core/analysis/analysis_input.cc
@@ -21,7 +21,9 @@ Status AnalysisInput::reset(StringPiece data) {
   raw_input_.append(data.begin(), data.end());
   JPP_RETURN_IF_ERROR(chars::preprocessRawData(raw_input_, &codepoints_));
 
-  constexpr auto max_codepoints = std::numeric_limits<LatticePosition>::max();
+  // two BOS boundaries precede the boundaries of characters
+  constexpr auto max_codepoints =
+      std::numeric_limits<LatticePosition>::max() - 2;
   if (codepoints().size() > max_codepoints) {
     return Status::InvalidState()
            << "jpp_core at current settings cannot process more than "
-- 
2.43.0


From bd3addaddd981682bb7d919626931009c36c88ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:37 +0000
Subject: [PATCH 64/74] fix: load models whose section table fills the header

---
 src/core/impl/model_io.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/impl/model_io.cc b/src/core/impl/model_io.cc
index 0d64e80..f8ffced 100644
--- a/src/core/impl/model_io.cc
+++ b/src/core/impl/model_io.cc
@@ -134,7 +134,7 @@ Status FilesystemModel::open(StringPiece name) {
                               << " has corrupted header";
   }
 
-  auto rest = sp.slice(sizeof(ModelMagic), 4096 - sizeof(ModelMagic));
+  auto rest = sp.slice(sizeof(ModelMagic), 4096);
   util::CodedBufferParser cbp{rest};
   u64 hdrSize = 0;
   if (!cbp.readVarint64(&hdrSize)) {
-- 
2.43.0


From fbbe9dd520e1ddef1366f6cf25ecaadd272e513b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:34 +0000
Subject: [PATCH 65/74] fix: report failures of saving a trained model

---
 src/core/tool/train_cmd.cc         | 1 +
 src/jumandic/main/jumanpp_train.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/core/tool/train_cmd.cc b/src/core/tool/train_cmd.cc
index ab26c2b..1e4b8bb 100644
--- a/src/core/tool/train_cmd.cc
+++ b/src/core/tool/train_cmd.cc
@@ -59,6 +59,7 @@ int saveModel(const core::training::TrainingArguments& args,
   s = saver.save(model);
   if (!s) {
     LOG_ERROR() << "failed to save model: " << s;
+    return 1;
   }
   LOG_INFO() << "Model saved successfully";
 
diff --git a/src/jumandic/main/jumanpp_train.cc b/src/jumandic/main/jumanpp_train.cc
index e862032..02b86a4 100644
--- a/src/jumandic/main/jumanpp_train.cc
+++ b/src/jumandic/main/jumanpp_train.cc
@@ -216,6 +216,7 @@ int saveModel(const core::training::TrainingArguments& args,
   s = saver.save(model);
   if (!s) {
     LOG_ERROR() << "failed to save model: " << s;
+    return 1;
   }
   LOG_INFO() << "Model saved successfully";
 
-- 
2.43.0


From bc94f35acaf257fc6a5964e34aa98eb27112fc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:34 +0000
Subject: [PATCH 66/74] fix: do not train without the partially annotated
 corpus when it can't be read

---
 src/core/tool/train_cmd.cc         | 1 +
 src/jumandic/main/jumanpp_train.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/core/tool/train_cmd.cc b/src/core/tool/train_cmd.cc
index 1e4b8bb..0147c46 100644
--- a/src/core/tool/train_cmd.cc
+++ b/src/core/tool/train_cmd.cc
@@ -89,6 +89,7 @@ int doTrainJpp(const t::TrainingArguments& args, core::JumanppEnv& env) {
     s = exec.loadPartialExamples(args.partialCorpus);
     if (!s) {
       LOG_ERROR() << "failed to load partially annotated corpus: " << s;
+      return 1;
     }
   }
 
diff --git a/src/jumandic/main/jumanpp_train.cc b/src/jumandic/main/jumanpp_train.cc
index 02b86a4..1c8ab94 100644
--- a/src/jumandic/main/jumanpp_train.cc
+++ b/src/jumandic/main/jumanpp_train.cc
@@ -246,6 +246,7 @@ int doTrainJpp(t::TrainingArguments& args, core::JumanppEnv& env) {
     s = exec.loadPartialExamples(args.partialCorpus);
     if (!s) {
       LOG_ERROR() << "failed to load partially annotated corpus: " << s;
+      return 1;
     }
   }
 
-- 
2.43.0


From be30bd64f2c0b89da3ea11c8911e2342dd2e73a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:34 +0000
Subject: [PATCH 67/74] fix: bootstrap: fail on unknown command line options

---
 src/jumandic/main/bootstrap.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jumandic/main/bootstrap.cc b/src/jumandic/main/bootstrap.cc
index 007d333..d9a52e0 100644
--- a/src/jumandic/main/bootstrap.cc
+++ b/src/jumandic/main/bootstrap.cc
@@ -88,7 +88,7 @@ Status parseArgs(BootstrapArgs* bargs, int argc, const char* argv[]) {
     std::cout << parser;
     exit(1);
   } catch (args::ParseError& e) {
-    Status::InvalidParameter() << e.what() << "\n" << parser;
+    return Status::InvalidParameter() << e.what() << "\n" << parser;
   } catch (...) {
     return Status::InvalidParameter();
   }
-- 
2.43.0


From 64e8580c2b1ad3276eb348777902ed9bcfdcc536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:34 +0000
Subject: [PATCH 68/74] fix: report failures of writing generated code

---
 src/core/codegen/feature_codegen.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/core/codegen/feature_codegen.cc b/src/core/codegen/feature_codegen.cc
index 0ee180b..b89aaec 100644
--- a/src/core/codegen/feature_codegen.cc
+++ b/src/core/codegen/feature_codegen.cc
@@ -60,6 +60,10 @@ Status StaticFeatureCodegen::writeHeader(const std::string& filename) {
         << spec::hashSpec(this->spec_) << "ULL; }\n";
     ofs << "};\n"
         << "} //namespace jumanpp_generated\n";
+    ofs.close();
+    if (!ofs) {
+      return Status::InvalidState() << "failed to write " << filename;
+    }
 
   } catch (std::exception& e) {
     return Status::InvalidState()
@@ -230,6 +234,10 @@ Status StaticFeatureCodegen::writeSource(const std::string& filename) {
   try {
     std::ofstream ofs(filename);
     ofs << p.result();
+    ofs.close();
+    if (!ofs) {
+      return Status::InvalidState() << "failed to write " << filename;
+    }
   } catch (std::exception& e) {
     return Status::InvalidState()
            << "failed to generate " << filename << ": " << e.what();
-- 
2.43.0


From 403faa3fe0beae21af7bc828b6adbf21a46cd9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:34 +0000
Subject: [PATCH 69/74] fix: static-features: report a directory which can't be
 created

---
 src/core/tool/codegen_cmd.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core/tool/codegen_cmd.cc b/src/core/tool/codegen_cmd.cc
index 33cd24b..82163d2 100644
--- a/src/core/tool/codegen_cmd.cc
+++ b/src/core/tool/codegen_cmd.cc
@@ -19,7 +19,13 @@ Status generateStaticFeatures(StringPiece specFile, StringPiece baseName,
   auto directory = basePath.parent();
   auto baseFile = basePath.basename();
 
-  directory.mktree();
+  try {
+    directory.mktree();
+  } catch (std::exception& e) {
+    return Status::InvalidParameter()
+           << "failed to create directory " << directory.str() << ": "
+           << e.what();
+  }
 
   features::codegen::FeatureCodegenConfig cfg;
   cfg.className = className.str();
-- 
2.43.0


From 7382daf0cb74124fd26ad3f0e27d344e20e3fedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:34 +0000
Subject: [PATCH 70/74] fix: jumanpp_tool: check the size exponent

---
 src/core/tool/jumanpp_tool.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/tool/jumanpp_tool.cc b/src/core/tool/jumanpp_tool.cc
index c43fc02..274831f 100644
--- a/src/core/tool/jumanpp_tool.cc
+++ b/src/core/tool/jumanpp_tool.cc
@@ -269,6 +269,11 @@ struct JumanppToolArgs {
     trg->globalBeam.fullFirstIter = firstIterFull.Get();
     trg->comment = result->comment;
 
+    if (sizeExp > 31) {
+      return JPPS_INVALID_PARAMETER << "size exponent was too large: "
+                                    << sizeExp << ", maximum allowed is 31";
+    }
+
     return Status::Ok();
   }
 };
-- 
2.43.0


From 2ae4ebb8678bb4381da126c347397b1858c50c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:29 +0000
Subject: [PATCH 71/74] fix: reject training without threads

---
 src/core/training/training_env.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/training/training_env.cc b/src/core/training/training_env.cc
index 539ecda..ce44db4 100644
--- a/src/core/training/training_env.cc
+++ b/src/core/training/training_env.cc
@@ -146,6 +146,9 @@ Status TrainingEnv::initOther() {
   if (pHolder == nullptr) {
     return Status::InvalidState() << "core holder was not constructed yet";
   }
+  if (args_.numThreads < 1) {
+    return JPPS_INVALID_PARAMETER << "training needs at least one thread";
+  }
   auto& trainingSpec = env_->spec().training;  // make a copy here
   warnOnNonMatchingFeatures(env_->spec());
 
-- 
2.43.0


From e93d17c7a7e32fcc8c0b8f1f8f195847e4381255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:12:37 +0000
Subject: [PATCH 72/74] fix: reject empty training batches

---
 src/core/training/training_env.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/training/training_env.cc b/src/core/training/training_env.cc
index ce44db4..0f91513 100644
--- a/src/core/training/training_env.cc
+++ b/src/core/training/training_env.cc
@@ -149,6 +149,9 @@ Status TrainingEnv::initOther() {
   if (args_.numThreads < 1) {
     return JPPS_INVALID_PARAMETER << "training needs at least one thread";
   }
+  if (args_.batchSize < 1) {
+    return JPPS_INVALID_PARAMETER << "training batches can't be empty";
+  }
   auto& trainingSpec = env_->spec().training;  // make a copy here
   warnOnNonMatchingFeatures(env_->spec());
 
-- 
2.43.0


From 26115b3c7f637d1cd93cac2384a4b3e8bf965508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:11:30 +0000
Subject: [PATCH 73/74] Revert the changes of src/core/spec

The folder counts as one of test files here; the defects are listed as known
findings.
---
 src/core/spec/spec_compiler.cc    |  5 ----
 src/core/spec/spec_dsl.cc         |  7 -----
 src/core/spec/spec_grammar.h      | 12 ++++----
 src/core/spec/spec_parser_impl.cc |  7 ++---
 src/core/spec/spec_parser_impl.h  | 48 +++++++++++++++----------------
 5 files changed, 33 insertions(+), 46 deletions(-)

diff --git a/src/core/spec/spec_compiler.cc b/src/core/spec/spec_compiler.cc
index eec7f3a..296380b 100644
--- a/src/core/spec/spec_compiler.cc
+++ b/src/core/spec/spec_compiler.cc
@@ -605,11 +605,6 @@ Status SpecCompiler::createTrainSpec() {
              << " was specified for training, but no ngram feature uses it";
     }
     auto fld = fieldByName(f.first.name());
-    if (fld->fieldType != FieldType::String) {
-      return JPPS_INVALID_PARAMETER
-             << "only string fields can be used for training, "
-             << f.first.name() << " is not one";
-    }
     spec.fields.emplace_back();
     auto& o = spec.fields.back();
     o.number = i;
diff --git a/src/core/spec/spec_dsl.cc b/src/core/spec/spec_dsl.cc
index 19ec50f..1a052af 100644
--- a/src/core/spec/spec_dsl.cc
+++ b/src/core/spec/spec_dsl.cc
@@ -60,7 +60,6 @@ Status ModelSpecBuilder::validateNames() const {
       return Status::InvalidParameter()
              << "feature " << feature->name() << " has non-unique name";
     }
-    current.insert(feature->name());
   }
 
   return Status::Ok();
@@ -103,14 +102,8 @@ Status ModelSpecBuilder::checkNoFeatureIsLeft() const {
 }
 
 Status ModelSpecBuilder::validateUnks() const {
-  util::FlatSet<StringPiece> names;
   for (auto unk : unks_) {
     JPP_RETURN_IF_ERROR(unk->validate());
-    if (names.count(unk->name()) != 0) {
-      return JPPS_INVALID_PARAMETER << "unk processor " << unk->name()
-                                    << " has non-unique name";
-    }
-    names.insert(unk->name());
   }
   return Status::Ok();
 }
diff --git a/src/core/spec/spec_grammar.h b/src/core/spec/spec_grammar.h
index 19966bd..1dff62e 100644
--- a/src/core/spec/spec_grammar.h
+++ b/src/core/spec/spec_grammar.h
@@ -87,7 +87,7 @@ struct kw_match : lit_string("match") {};
 struct kw_output : lit_string("output") {};
 struct kw_template : lit_string("template") {};
 
-struct comment : seq<p::one<'#'>, p::until<p::eolf>> {};
+struct comment : seq<p::one<'#'>, p::until<p::eol>> {};
 struct sep : p::pad_opt<comment, whitespace> {};
 struct sep_pad : p::sor<whitespace, comment> {};
 
@@ -137,15 +137,12 @@ struct fldref_litem : p::seq<fieldparam> {};
 struct fldref_list
     : p::if_must<lbrak, sep, p::list<fldref_litem, comma, sep_pad>, sep,
                  rbrak> {};
-struct fref_item : ident {};
-struct fref_list
-    : p::if_must<lbrak, sep, p::list<fref_item, comma, sep_pad>, sep, rbrak> {};
 struct mt_lhs : p::sor<fldref_litem, fldref_list> {};
 struct mt_rhs_file : p::seq<lit_string("file"), sep, qstring_param> {};
 struct mt_rhs : p::sor<qstring_param, mt_rhs_file> {};
 struct mt_cond : p::seq<mt_lhs, sep, lit_string("with"), sep, mt_rhs> {};
-struct mt_then_body : p::seq<lit_string("then"), sep, fref_list> {};
-struct mt_else_body : p::seq<lit_string("else"), sep, fref_list> {};
+struct mt_then_body : p::seq<lit_string("then"), sep, fldref_list> {};
+struct mt_else_body : p::seq<lit_string("else"), sep, fldref_list> {};
 struct ft_match : p::if_must<lit_string("match"), sep, mt_cond,
                              p::opt<sep, mt_then_body, sep, mt_else_body>> {};
 
@@ -155,6 +152,9 @@ struct feature_name : ident {};
 struct feature_stmt : p::if_must<lit_string("feature"), sep, feature_name,
                                  p::pad_opt<eq, sep_pad>, feature_body> {};
 
+struct fref_item : ident {};
+struct fref_list
+    : p::if_must<lbrak, sep, p::list<fref_item, comma, sep_pad>, sep, rbrak> {};
 struct fref_lists : p::rep_min_max<1, 3, fref_list, sep> {};
 struct ngram_stmt : p::if_must<lit_string("ngram"), sep, fref_lists> {};
 
diff --git a/src/core/spec/spec_parser_impl.cc b/src/core/spec/spec_parser_impl.cc
index 574abce..d5ec06a 100644
--- a/src/core/spec/spec_parser_impl.cc
+++ b/src/core/spec/spec_parser_impl.cc
@@ -45,7 +45,7 @@ Resource *SpecParserImpl::fileResourece(StringPiece name, p::position pos) {
   return res;
 }
 
-bool charClassByName(StringPiece name, chars::CharacterClass *result) {
+chars::CharacterClass charClassByName(StringPiece name) {
   using C = chars::CharacterClass;
   using S = StringPiece;
 
@@ -100,10 +100,9 @@ bool charClassByName(StringPiece name, chars::CharacterClass *result) {
 
   auto it = classes.find(name_upper);
   if (it != classes.end()) {
-    *result = it->second;
-    return true;
+    return it->second;
   }
-  return false;
+  return C::FAMILY_OTHERS;
 }
 }  // namespace parser
 }  // namespace spec
diff --git a/src/core/spec/spec_parser_impl.h b/src/core/spec/spec_parser_impl.h
index 9404663..aa1c24c 100644
--- a/src/core/spec/spec_parser_impl.h
+++ b/src/core/spec/spec_parser_impl.h
@@ -5,8 +5,6 @@
 #ifndef JUMANPP_SPEC_PARSER_IMPL_H
 #define JUMANPP_SPEC_PARSER_IMPL_H
 
-#include <cmath>
-#include <cstdlib>
 #include "spec_dsl.h"
 #include "spec_grammar.h"
 #include "util/char_buffer.h"
@@ -50,7 +48,7 @@ struct SpecParserImpl {
   SpecParserImpl(StringPiece basename) : basename_{basename.str()} {}
 };
 
-bool charClassByName(StringPiece name, chars::CharacterClass* result);
+chars::CharacterClass charClassByName(StringPiece name);
 
 template <typename Rule>
 struct SpecAction : p::nothing<Rule> {};
@@ -113,13 +111,20 @@ struct StoreQuotedStringParam {
       throw p::parse_error("failed to import quoted string", in);
     }
 
+    int start = 0;
     auto end = chars.size();
-    size_t head = 0;
-    size_t tail = 0;
+    for (; start < end; ++start) {
+      if (chars[start] == '"') {
+        break;
+      }
+    }
+
+    int head = start + 1;
+    int tail = start;
     while (head < end) {
       chars[tail] = chars[head];
       if (chars[head] == '"') {
-        ++head;  // quotes are doubled
+        ++tail;
       }
       ++head;
       ++tail;
@@ -263,6 +268,7 @@ struct SpecAction<feature_name> {
   static void apply(const Input& in, SpecParserImpl& sp) {
     auto name = StringPiece{in.begin(), in.end()};
     sp.curFeature_ = &sp.builder_.feature(name);
+    sp.features_[name] = sp.curFeature_;
   }
 };
 
@@ -352,7 +358,7 @@ struct SpecAction<mt_cond> {
     auto& vals = sp.fieldRefs_;
     auto csvData = sp.stringParam_;
     if (vals.size() == 1 &&
-        !util::contains(csvData, ',')) {
+        !(util::contains(csvData, ',') || util::contains(csvData, '\n'))) {
       sp.curFeature_->matchData(vals[0], csvData);
     } else {
       sp.curFeature_->matchAnyRowOfCsv(csvData, vals);
@@ -365,13 +371,13 @@ template <>
 struct SpecAction<mt_then_body> {
   template <typename Input>
   static void apply(const Input& in, SpecParserImpl& sp) {
+    auto& vals = sp.fieldRefs_;
     std::vector<dsl::FieldExpressionBldr> transfs;
-    for (auto& f : sp.featureRefRefs_.back()) {
-      transfs.push_back(dsl::FieldExpressionBldr{
-          f.name(), dsl::TransformType::Value, jumanpp::EMPTY_SP, 0});
+    for (auto& f : vals) {
+      transfs.push_back(sp.fields_[f.name()]->value());
     }
     sp.curFeature_->ifTrue(transfs);
-    sp.featureRefRefs_.clear();
+    vals.clear();
   }
 };
 
@@ -379,13 +385,13 @@ template <>
 struct SpecAction<mt_else_body> {
   template <typename Input>
   static void apply(const Input& in, SpecParserImpl& sp) {
+    auto& vals = sp.fieldRefs_;
     std::vector<dsl::FieldExpressionBldr> transfs;
-    for (auto& f : sp.featureRefRefs_.back()) {
-      transfs.push_back(dsl::FieldExpressionBldr{
-          f.name(), dsl::TransformType::Value, jumanpp::EMPTY_SP, 0});
+    for (auto& f : vals) {
+      transfs.push_back(sp.fields_[f.name()]->value());
     }
     sp.curFeature_->ifFalse(transfs);
-    sp.featureRefRefs_.clear();
+    vals.clear();
   }
 };
 
@@ -393,8 +399,6 @@ template <>
 struct SpecAction<feature_stmt> {
   template <typename Input>
   static void apply(const Input& in, SpecParserImpl& sp) {
-    // the definition itself can't refer to the feature
-    sp.features_[sp.curFeature_->name()] = sp.curFeature_;
     sp.curFeature_ = nullptr;
   }
 };
@@ -467,8 +471,8 @@ struct SpecAction<char_type_lit> {
   template <typename Input>
   static void apply(const Input& in, SpecParserImpl& sp) {
     auto name = StringPiece(in.begin(), in.end());
-    chars::CharacterClass clazz;
-    if (!charClassByName(name, &clazz)) {
+    auto clazz = charClassByName(name);
+    if (clazz == chars::CharacterClass::FAMILY_OTHERS) {
       throw p::parse_error("invalid/unsupported character class: " + name.str(),
                            in.position());
     }
@@ -577,11 +581,7 @@ template <>
 struct SpecAction<floatconst> {
   template <typename Input>
   static void apply(const Input& in, SpecParserImpl& sp) {
-    sp.floatParam_ =
-        std::strtof(std::string(in.begin(), in.end()).c_str(), nullptr);
-    if (!std::isfinite(sp.floatParam_)) {
-      throw p::parse_error("failed to parse a number", in);
-    }
+    sp.floatParam_ = std::stof(std::string(in.begin(), in.end()));
   }
 };
 
-- 
2.43.0


From 783a2c5dd3dff9a28db180c9f7f27b3b607e8682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:11:30 +0000
Subject: [PATCH 74/74] fix: list iterators: hasNext() told the opposite

---
 src/core/analysis/output.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/analysis/output.h b/src/core/analysis/output.h
index 492995e..f23e114 100644
--- a/src/core/analysis/output.h
+++ b/src/core/analysis/output.h
@@ -104,7 +104,7 @@ class StringListIterator {
     return false;
   }
 
-  bool hasNext() const { return elements_.remaining() == 0; }
+  bool hasNext() const { return elements_.remaining() > 0; }
 };
 
 class KVListIterator {
-- 
2.43.0

