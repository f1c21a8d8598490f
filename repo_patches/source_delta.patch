From 421a6254b605c7d01653434dc8a98cf1c9f9f8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:05 +0000
Subject: [PATCH 1/8] fix: Axis size no longer truncated to int when it exceeds
 2^31 elements

---
 src/chunked_data_view/Axis.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chunked_data_view/Axis.cc b/src/chunked_data_view/Axis.cc
index 81841eb..47a84c4 100644
--- a/src/chunked_data_view/Axis.cc
+++ b/src/chunked_data_view/Axis.cc
@@ -26,7 +26,7 @@ namespace chunked_data_view {
 namespace {
 template <typename Params>
 size_t combinedSize(const Params& params) {
-    return std::accumulate(std::begin(params), std::end(params), 1,
+    return std::accumulate(std::begin(params), std::end(params), size_t{1},
                            [](auto acc, const auto& p) { return acc * p.values().size(); });
 }
 }  // namespace
-- 
2.43.0


From 0f26c8aa998d31afd6754471598779ddb4ed1e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:37 +0000
Subject: [PATCH 2/8] fix: BaseKey::unset also forgets the keyword's position
 in the insertion order

The name stayed in the ordered list, so that set() on the key and printing its values failed afterwards
---
 src/fdb5/database/BaseKey.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fdb5/database/BaseKey.cc b/src/fdb5/database/BaseKey.cc
index f8360ff..8a5a63a 100644
--- a/src/fdb5/database/BaseKey.cc
+++ b/src/fdb5/database/BaseKey.cc
@@ -18,6 +18,7 @@
 
 #include "metkit/mars/MarsRequest.h"
 
+#include <algorithm>
 #include <cstddef>
 #include <ostream>
 #include <sstream>
@@ -105,6 +106,9 @@ void BaseKey::set(const std::string& keyword, const std::string& value) {
 
 void BaseKey::unset(const std::string& keyword) {
     keys_.erase(keyword);
+    if (const auto iter = std::find(names_.begin(), names_.end(), keyword); iter != names_.end()) {
+        names_.erase(iter);
+    }
 }
 
 void BaseKey::push(const std::string& keyword, const std::string& value) {
-- 
2.43.0


From f26a74114670c0af65deab98da8b6828ea48d977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:43 +0000
Subject: [PATCH 3/8] fix: a schema predicate excluding a single value accepted
 only that value

---
 src/fdb5/rules/SchemaParser.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fdb5/rules/SchemaParser.cc b/src/fdb5/rules/SchemaParser.cc
index ae71d71..5f72fa8 100644
--- a/src/fdb5/rules/SchemaParser.cc
+++ b/src/fdb5/rules/SchemaParser.cc
@@ -116,6 +116,9 @@ std::unique_ptr<Predicate> SchemaParser::parsePredicate(eckit::StringDict& types
         case 0:
             return std::make_unique<Predicate>(k, new MatchAlways());
         case 1:
+            if (exclude) {
+                return std::make_unique<Predicate>(k, new ExcludeAll(values));
+            }
             return std::make_unique<Predicate>(k, new MatchValue(*values.begin()));
         default:
             if (exclude) {
-- 
2.43.0


From e6c8cb4e39a7db0ec1bcd4c4a8769e2ad117bf1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:43 +0000
Subject: [PATCH 4/8] fix: a dumped exclusion predicate lost its exclamation
 mark and re-parsed as an inclusion

---
 src/fdb5/rules/ExcludeAll.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fdb5/rules/ExcludeAll.cc b/src/fdb5/rules/ExcludeAll.cc
index 2f95dab..a7dd416 100644
--- a/src/fdb5/rules/ExcludeAll.cc
+++ b/src/fdb5/rules/ExcludeAll.cc
@@ -63,7 +63,7 @@ bool ExcludeAll::match(const std::string& value) const {
 }
 
 void ExcludeAll::dump(std::ostream& s, const std::string& keyword, const TypesRegistry& registry) const {
-    const char* sep = "";
+    const char* sep = "!";
     registry.dump(s, keyword);
     s << "=";
     for (std::set<std::string>::const_iterator i = values_.begin(); i != values_.end(); ++i) {
-- 
2.43.0


From 8f3477ad0b7d175427bcaf683a23fe135434d57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:35 +0000
Subject: [PATCH 5/8] fix: FieldHandle can be opened again after it was read to
 its end, releases copies once and closes handles it has copied

---
 src/fdb5/io/FieldHandle.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/fdb5/io/FieldHandle.cc b/src/fdb5/io/FieldHandle.cc
index d4a3d23..47a18bc 100644
--- a/src/fdb5/io/FieldHandle.cc
+++ b/src/fdb5/io/FieldHandle.cc
@@ -143,6 +143,7 @@ void FieldHandle::openCurrent() {
                 ss << "Error reading from " << *current_ << " - read " << read << ", expected " << currentSize;
                 throw eckit::ReadError(ss.str());
             }
+            current_->close();
             current_ = new eckit::MemoryHandle(buffer_, currentSize);
             current_->openForRead();
             currentMemoryHandle_ = true;
@@ -196,11 +197,12 @@ long FieldHandle::read(void* buffer, long length) {
 void FieldHandle::close() {
     if (currentIdx_ < datahandles_.size()) {
         current_->close();
-        if (currentMemoryHandle_) {
-            delete current_;
-        }
-        current_ = nullptr;
     }
+    if (current_ && currentMemoryHandle_) {
+        delete current_;
+    }
+    current_ = nullptr;
+    currentMemoryHandle_ = false;
     currentIdx_ = datahandles_.size();
 }
 
-- 
2.43.0


From 495ac8a84f35ec862fd3c3201cdc3bf21401e089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:53 +0000
Subject: [PATCH 6/8] fix: substitute known values of a partial database name

DbPathNamer::substituteVars dereferenced an iterator that was never
initialised when a variable of the format has a value in the partial key
---
 src/fdb5/toc/RootManager.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/fdb5/toc/RootManager.cc b/src/fdb5/toc/RootManager.cc
index 47e3489..1b1d54a 100644
--- a/src/fdb5/toc/RootManager.cc
+++ b/src/fdb5/toc/RootManager.cc
@@ -134,7 +134,6 @@ private:  // methods
         size_t len = s.length();
         bool var = false;
         std::string word;
-        std::map<std::string, std::string>::const_iterator j;
 
         for (size_t i = 0; i < len; i++) {
             switch (s[i]) {
@@ -166,7 +165,7 @@ private:  // methods
                                 result += keyregex_.find(word)->second;
                             }
                             else {
-                                result += (*j).second;
+                                result += iter->second;
                             }
                         }
                     }
-- 
2.43.0


From 880424b5ceee79b8f12e1b216579eabf266d60d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:53 +0000
Subject: [PATCH 7/8] fix: do not dereference the end of the expver table

The warning about a root selected by another process read the entry that
had just not been found
---
 src/fdb5/toc/ExpverFileSpaceHandler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fdb5/toc/ExpverFileSpaceHandler.cc b/src/fdb5/toc/ExpverFileSpaceHandler.cc
index 56db1aa..f0fbea1 100644
--- a/src/fdb5/toc/ExpverFileSpaceHandler.cc
+++ b/src/fdb5/toc/ExpverFileSpaceHandler.cc
@@ -256,7 +256,7 @@ eckit::PathName ExpverFileSpaceHandler::selectFileSystem(const Key& key, const F
     table_[expver] = selected;
 
     if (!fdbRootDirectory.empty() && selected != fdbRootDirectory) {
-        Log::warning() << "Selected root directory " << itr->second << " does not match FDB5_ROOT. Using existing"
+        Log::warning() << "Selected root directory " << selected << " does not match FDB5_ROOT. Using existing"
                        << std::endl;
     }
 
-- 
2.43.0


From a8d94464a1e1b060abae23432c71b76215ce0f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:43 +0000
Subject: [PATCH 8/8] fix: a listing that stops at databases showed databases
 that are disabled for listing

---
 src/fdb5/api/local/ListVisitor.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fdb5/api/local/ListVisitor.h b/src/fdb5/api/local/ListVisitor.h
index 7ad949e..fed7893 100644
--- a/src/fdb5/api/local/ListVisitor.h
+++ b/src/fdb5/api/local/ListVisitor.h
@@ -57,6 +57,10 @@ public:
         // If level == 1, avoid constructing the Catalogue/Store objects, so just interrogate the URIs
         if (level_ == 1 && uri.scheme() == "toc") {
             /// @todo only works with the toc backend
+            // If the DB is locked for listing (see TocHandler), leave it to visitDatabase() to skip it
+            if ((uri.path() / "list.lock").exists()) {
+                return true;
+            }
             if (auto dbKey = schema.matchDatabase(uri.path().baseName())) {
                 queue_.emplace(*dbKey, 0);
                 return false;
-- 
2.43.0

