From 989ae2ba5811dc85fc82764b05e0439f60bfada3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:02 +0000
Subject: [PATCH 01/35] fix: AppendInfoElement creates a missing list with the
 given value, not with "fixed"

---
 packages/drafter/src/refract/InfoElementsUtils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/drafter/src/refract/InfoElementsUtils.h b/packages/drafter/src/refract/InfoElementsUtils.h
index 50a8be4..a111f39 100644
--- a/packages/drafter/src/refract/InfoElementsUtils.h
+++ b/packages/drafter/src/refract/InfoElementsUtils.h
@@ -49,7 +49,7 @@ namespace refract
     {
         auto ta = ie.find(key);
         if (ta == ie.end()) {
-            ie.set(key, make_element<ValueElementType>(from_primitive("fixed")));
+            ie.set(key, make_element<ValueElementType>(make_element<Element<DSDType> >(std::move(value))));
         } else {
             auto arr = TypeQueryVisitor::as<ValueElementType>(ta->second.get());
 
-- 
2.43.0


From 6a95a48d682211017549a0fffcfd7e35ee6da2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:02 +0000
Subject: [PATCH 02/35] fix: addSample appends to existing samples instead of
 replacing them and using the released array

---
 packages/drafter/src/refract/ElementUtils.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/packages/drafter/src/refract/ElementUtils.cc b/packages/drafter/src/refract/ElementUtils.cc
index 819844a..3ae8115 100644
--- a/packages/drafter/src/refract/ElementUtils.cc
+++ b/packages/drafter/src/refract/ElementUtils.cc
@@ -234,7 +234,6 @@ void refract::addSample(IElement& e, std::unique_ptr<IElement> sample)
             assert(false);
         }
         LOG(info) << "adding new sample";
-        e.attributes().set("samples", make_element<ArrayElement>(std::move(sample)));
         samples->get().push_back(std::move(sample));
     } else {
         LOG(error) << "expected samples to be held in Array Element content";
-- 
2.43.0


From e8d92ffd94541fe651b8cef112f787c31dbd621e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:02 +0000
Subject: [PATCH 03/35] fix: comparing enums and holders without a value does
 not dereference it

---
 packages/drafter/src/refract/dsd/Enum.cc   | 2 +-
 packages/drafter/src/refract/dsd/Holder.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/drafter/src/refract/dsd/Enum.cc b/packages/drafter/src/refract/dsd/Enum.cc
index abe4dbf..d274266 100644
--- a/packages/drafter/src/refract/dsd/Enum.cc
+++ b/packages/drafter/src/refract/dsd/Enum.cc
@@ -54,5 +54,5 @@ Enum& Enum::operator=(Enum rhs)
 
 bool dsd::operator==(const Enum& l, const Enum& r) noexcept
 {
-    return *l.value() == *r.value();
+    return (l.value() == r.value()) || (l.value() && r.value() && (*l.value() == *r.value()));
 }
diff --git a/packages/drafter/src/refract/dsd/Holder.cc b/packages/drafter/src/refract/dsd/Holder.cc
index 818634f..a0d8b0e 100644
--- a/packages/drafter/src/refract/dsd/Holder.cc
+++ b/packages/drafter/src/refract/dsd/Holder.cc
@@ -53,5 +53,5 @@ Holder& Holder::operator=(Holder rhs)
 
 bool dsd::operator==(const Holder& l, const Holder& r) noexcept
 {
-    return *l.data() == *r.data();
+    return (l.data() == r.data()) || (l.data() && r.data() && (*l.data() == *r.data()));
 }
-- 
2.43.0


From 9582771d4b1a8631d3b76ae90aab1a67c3db4c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:02 +0000
Subject: [PATCH 04/35] fix: asking whether an enum without a value is
 expandable does not dereference it

---
 packages/drafter/src/refract/IsExpandableVisitor.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/drafter/src/refract/IsExpandableVisitor.cc b/packages/drafter/src/refract/IsExpandableVisitor.cc
index c6a63c4..43bafc5 100644
--- a/packages/drafter/src/refract/IsExpandableVisitor.cc
+++ b/packages/drafter/src/refract/IsExpandableVisitor.cc
@@ -133,7 +133,7 @@ namespace refract
                 if (checkElement(e))
                     return true;
 
-                if (!e->empty()) {
+                if (!e->empty() && e->get().value()) {
                     IsExpandableVisitor v;
                     VisitBy(*e->get().value(), v);
                     if (v.get())
-- 
2.43.0


From 165ca00184d7754cf9137cd3f5df7f9c25df1e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:02 +0000
Subject: [PATCH 05/35] fix: tolerant comparison tells elements of different
 kinds apart

---
 packages/drafter/src/ElementComparator.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/drafter/src/ElementComparator.h b/packages/drafter/src/ElementComparator.h
index 6828fb5..d75d622 100644
--- a/packages/drafter/src/ElementComparator.h
+++ b/packages/drafter/src/ElementComparator.h
@@ -119,10 +119,12 @@ namespace drafter
             template <typename ElementT>
             bool operator()(const ElementT& lhs) const
             {
-                return (lhs.empty() == rhs.empty()) && (lhs.element() == rhs.element())
+                const auto* other = dynamic_cast<const ElementT*>(&rhs);
+
+                return other && (lhs.empty() == rhs.empty()) && (lhs.element() == rhs.element())
                     && ignoreMeta(rhs.meta(), lhs.meta()) 
                     && ignoreAttrs(rhs.attributes(), lhs.attributes()) 
-                    && (lhs.empty() || (lhs.get() == dynamic_cast<const ElementT*>(&rhs)->get()));
+                    && (lhs.empty() || (lhs.get() == other->get()));
             }
         };
     } // namespace detail
-- 
2.43.0


From 06d6739d60081812b20193a94e68eb13fdf35cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:02 +0000
Subject: [PATCH 06/35] fix: merging a container into an unset one keeps its
 content

---
 packages/drafter/src/refract/dsd/Extend.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/drafter/src/refract/dsd/Extend.cc b/packages/drafter/src/refract/dsd/Extend.cc
index b6949aa..a7acea8 100644
--- a/packages/drafter/src/refract/dsd/Extend.cc
+++ b/packages/drafter/src/refract/dsd/Extend.cc
@@ -162,11 +162,14 @@ namespace
 
         void operator()(T& value, const T& merge) const
         {
-            if (!merge.empty() && !value.empty())
+            if (!merge.empty()) {
+                if (value.empty())
+                    value.set();
                 std::transform(merge.get().begin(),
                     merge.get().end(),
                     std::back_inserter(value.get()),
                     [](const std::unique_ptr<IElement>& e) { return clone(*e); });
+            }
         }
     };
 
-- 
2.43.0


From 3c5f205d779f02c034a9aa2976a64d79c454efa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:02 +0000
Subject: [PATCH 07/35] fix: expanding a select keeps its attributes

---
 packages/drafter/src/refract/ExpandVisitor.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/drafter/src/refract/ExpandVisitor.cc b/packages/drafter/src/refract/ExpandVisitor.cc
index 561bea4..e866a55 100644
--- a/packages/drafter/src/refract/ExpandVisitor.cc
+++ b/packages/drafter/src/refract/ExpandVisitor.cc
@@ -334,6 +334,7 @@ namespace refract
             auto& content = o->get();
 
             o->meta() = e.meta(); // clone
+            o->attributes() = e.attributes();
 
             for (const auto& opt : e.get()) {
                 content.push_back(std::unique_ptr<OptionElement>(
-- 
2.43.0


From 739dbecfb46b254d409e2fee76cbac6a78b95617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:02 +0000
Subject: [PATCH 08/35] fix: searching for the root ancestor ends on circular
 inheritance

---
 packages/drafter/src/refract/Registry.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/drafter/src/refract/Registry.cc b/packages/drafter/src/refract/Registry.cc
index d7a268e..f8bd164 100644
--- a/packages/drafter/src/refract/Registry.cc
+++ b/packages/drafter/src/refract/Registry.cc
@@ -12,6 +12,7 @@
 #include "Exception.h"
 #include "TypeQueryVisitor.h"
 #include <algorithm>
+#include <set>
 
 using namespace refract;
 
@@ -36,11 +37,12 @@ Registry::Registry() : types_{baseTypeMap()} {}
 const IElement* refract::FindRootAncestor(const std::string& name, const Registry& registry)
 {
     const IElement* parent = registry.find(name);
+    std::set<const IElement*> visited{ parent };
 
     while (parent && !isReserved(parent->element())) {
         const IElement* next = registry.find(parent->element());
 
-        if (!next || (next == parent)) {
+        if (!next || !visited.insert(next).second) {
             return parent;
         }
 
-- 
2.43.0


From b0a2ae75f4a1c0fe481e4b33c4e427390abe08e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 09/35] fix: members are found by the string of their key

---
 packages/drafter/src/refract/ComparableVisitor.cc | 5 +++++
 packages/drafter/src/refract/ComparableVisitor.h  | 4 +++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/packages/drafter/src/refract/ComparableVisitor.cc b/packages/drafter/src/refract/ComparableVisitor.cc
index 5127aab..7dd40ab 100644
--- a/packages/drafter/src/refract/ComparableVisitor.cc
+++ b/packages/drafter/src/refract/ComparableVisitor.cc
@@ -17,6 +17,11 @@ namespace refract
     {
     }
 
+    bool ComparableVisitor::IsEqual(const std::string& first, const dsd::String& second)
+    {
+        return first == second.get();
+    }
+
     void ComparableVisitor::operator()(const MemberElement& e)
     {
         ComparableVisitor cv(compare_to); // OPTIM: reuse current visitor
diff --git a/packages/drafter/src/refract/ComparableVisitor.h b/packages/drafter/src/refract/ComparableVisitor.h
index 19eabeb..d790b0f 100644
--- a/packages/drafter/src/refract/ComparableVisitor.h
+++ b/packages/drafter/src/refract/ComparableVisitor.h
@@ -32,6 +32,8 @@ namespace refract
             return first == second;
         }
 
+        bool IsEqual(const std::string& first, const dsd::String& second);
+
     public:
         enum
         {
@@ -45,7 +47,7 @@ namespace refract
         void operator()(const E& e)
         {
             if (compare == value) {
-                result = IsEqual(compare_to, e.get());
+                result = !e.empty() && IsEqual(compare_to, e.get());
             }
         }
 
-- 
2.43.0


From 8854edfa1e3e54c9cf428b9d339c1d472c4ac3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:05 +0000
Subject: [PATCH 10/35] fix: dumping a select shows name, meta and attributes
 of its options

---
 packages/drafter/src/refract/PrintVisitor.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/drafter/src/refract/PrintVisitor.h b/packages/drafter/src/refract/PrintVisitor.h
index ba44dd3..ff31ba1 100644
--- a/packages/drafter/src/refract/PrintVisitor.h
+++ b/packages/drafter/src/refract/PrintVisitor.h
@@ -35,7 +35,8 @@ namespace refract
 
             if (!e.empty())
                 for (const auto& v : e.get()) {
-                    PrintVisitor{ indent + 1, os, ommitSourceMap }(*v);
+                    const IElement& child = *v;
+                    PrintVisitor{ indent + 1, os, ommitSourceMap }(child);
                 }
         }
 
-- 
2.43.0


From 5a8612024e935050f25a83484613a8f1709f7523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:53 +0000
Subject: [PATCH 11/35] fix: cardinalities too large to represent are open
 instead of wrapping around

---
 packages/drafter/src/refract/Cardinal.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/packages/drafter/src/refract/Cardinal.h b/packages/drafter/src/refract/Cardinal.h
index d1aa1f1..66c2510 100644
--- a/packages/drafter/src/refract/Cardinal.h
+++ b/packages/drafter/src/refract/Cardinal.h
@@ -57,9 +57,10 @@ namespace refract
         return a != cardinal::open();
     }
 
+    // results that cannot be represented are open
     constexpr cardinal operator+(cardinal lhs, cardinal rhs) noexcept
     {
-        return (lhs == cardinal::open() || rhs == cardinal::open()) ? cardinal::open() :
+        return (rhs.data() >= cardinal::open().data() - lhs.data()) ? cardinal::open() :
                                                                       cardinal{ lhs.data() + rhs.data() };
     }
 
@@ -67,8 +68,10 @@ namespace refract
     {
         return (lhs == cardinal::empty() || rhs == cardinal::empty()) ?
             cardinal::empty() :
-            ((lhs == cardinal::open() || rhs == cardinal::open()) ? cardinal::open() :
-                                                                    cardinal{ lhs.data() * rhs.data() });
+            ((lhs == cardinal::open() || rhs == cardinal::open()
+                 || lhs.data() > cardinal::open().data() / rhs.data()) ?
+                    cardinal::open() :
+                    cardinal{ lhs.data() * rhs.data() });
     }
 }
 
-- 
2.43.0


From ec9e2ff1314cf281d4e2528d12caf310ac811d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:59 +0000
Subject: [PATCH 12/35] fix: clip byte ranges to the buffer when converting
 them to characters

Ranges starting behind the end underflowed, ranges exceeding the end counted
characters past it, an index lookup read one past its end, a truncated last
character wrote behind the index and counting stopped at a NUL character.
---
 .../src/markdown-parser/ByteBuffer.cc         | 74 +++++++------------
 1 file changed, 25 insertions(+), 49 deletions(-)

diff --git a/packages/apib-parser/src/markdown-parser/ByteBuffer.cc b/packages/apib-parser/src/markdown-parser/ByteBuffer.cc
index a2b275d..7981e6a 100644
--- a/packages/apib-parser/src/markdown-parser/ByteBuffer.cc
+++ b/packages/apib-parser/src/markdown-parser/ByteBuffer.cc
@@ -8,6 +8,8 @@
 
 #include "ByteBuffer.h"
 
+#include <algorithm>
+
 using namespace mdp;
 
 /* Byte lenght of an UTF8 character (based on first byte) */
@@ -20,36 +22,27 @@ static size_t strnlen_utf8(const char* s, size_t len)
         return 0;
 
     size_t i = 0, j = 0;
-    while (s[i] && i < len) {
+    while (i < len) {
         i += UTF8_CHAR_LEN(s[i]);
         j++;
     }
     return j;
 }
 
+/* Part of a range that lies within a buffer of given length */
+static BytesRange ClipRange(const BytesRange& range, size_t length)
+{
+    const size_t location = std::min(range.location, length);
+    return BytesRange(location, std::min(range.length, length - location));
+}
+
 /* Convert range of bytes to a range of characters */
 static CharactersRange BytesRangeToCharactersRange(const BytesRange& bytesRange, const ByteBuffer& byteBuffer)
 {
-    if (byteBuffer.empty()) {
-        return CharactersRange();
-    }
-
-    BytesRange workRange = bytesRange;
-    if (bytesRange.location + bytesRange.length > byteBuffer.length()) {
-        // Accomodate maximum possible length
-        workRange.length -= bytesRange.location + bytesRange.length - byteBuffer.length();
-    }
-
-    size_t charLocation = 0;
-    if (bytesRange.location > 0)
-        charLocation = strnlen_utf8(byteBuffer.c_str(), bytesRange.location);
+    const BytesRange workRange = ClipRange(bytesRange, byteBuffer.length());
 
-    size_t charLength = 0;
-    if (bytesRange.length > 0)
-        charLength = strnlen_utf8(byteBuffer.c_str() + bytesRange.location, bytesRange.length);
-
-    CharactersRange characterRange = CharactersRange(charLocation, charLength);
-    return characterRange;
+    return CharactersRange(strnlen_utf8(byteBuffer.c_str(), workRange.location),
+        strnlen_utf8(byteBuffer.c_str() + workRange.location, workRange.length));
 }
 
 static CharactersRange BytesRangeToCharactersRange(const BytesRange& bytesRange, const ByteBufferCharacterIndex& index)
@@ -58,31 +51,15 @@ static CharactersRange BytesRangeToCharactersRange(const BytesRange& bytesRange,
         return CharactersRange();
     }
 
-    BytesRange workRange = bytesRange;
-    if (bytesRange.location + bytesRange.length > index.size()) {
-        // Accomodate maximum possible length
-        workRange.length -= bytesRange.location + bytesRange.length - index.size();
-    }
+    const BytesRange workRange = ClipRange(bytesRange, index.size());
 
-    size_t charLocation = 0;
-    if (workRange.location > 0)
-        charLocation = index[workRange.location];
-
-    size_t charLength = 0;
-    if (workRange.length > 0) {
-        size_t pos = workRange.location + workRange.length;
-        if (pos >= index.size()) {
-            // this code branch is there to be compatioble with strlen_utf8()
-            charLength = index[index.size() - 1];
-            charLength -= charLocation - 1;
-        } else {
-            charLength = index[pos];
-            charLength -= charLocation;
-        }
-    }
+    // number of characters in front of given position
+    const auto characters
+        = [&index](size_t pos) { return pos < index.size() ? index[pos] : index[index.size() - 1] + 1; };
+
+    const size_t charLocation = characters(workRange.location);
 
-    CharactersRange characterRange = CharactersRange(charLocation, charLength);
-    return characterRange;
+    return CharactersRange(charLocation, characters(workRange.location + workRange.length) - charLocation);
 }
 
 void mdp::BuildCharacterIndex(ByteBufferCharacterIndex& index, const ByteBuffer& byteBuffer)
@@ -95,13 +72,12 @@ void mdp::BuildCharacterIndex(ByteBufferCharacterIndex& index, const ByteBuffer&
 
     index.resize(byteBuffer.length());
 
-    while (source[pos] && pos < len) {
-        int charLen = UTF8_CHAR_LEN(source[pos]);
-        pos += charLen;
+    while (pos < len) {
+        const size_t charLen = UTF8_CHAR_LEN(source[pos]);
 
-        while (charLen) {
-            index[pos - charLen] = charPos;
-            charLen--;
+        // the last character may be truncated
+        for (const size_t end = std::min(pos + charLen, len); pos < end; ++pos) {
+            index[pos] = charPos;
         }
 
         charPos++;
-- 
2.43.0


From b310b3415fc2a45d2acefae34a52ef8dbb45087c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:59 +0000
Subject: [PATCH 13/35] fix: mapping a bytes range that starts behind the
 buffer throws out_of_range

---
 packages/apib-parser/src/markdown-parser/ByteBuffer.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/apib-parser/src/markdown-parser/ByteBuffer.cc b/packages/apib-parser/src/markdown-parser/ByteBuffer.cc
index 7981e6a..b6df74b 100644
--- a/packages/apib-parser/src/markdown-parser/ByteBuffer.cc
+++ b/packages/apib-parser/src/markdown-parser/ByteBuffer.cc
@@ -139,10 +139,15 @@ ByteBuffer mdp::MapBytesRangeSet(const BytesRangeSet& rangeSet, const ByteBuffer
     ByteBufferStream s;
     for (BytesRangeSet::const_iterator it = rangeSet.begin(); it != rangeSet.end(); ++it) {
 
+        if (it->location + it->length < it->location) {
+            // Wrong map
+            return ByteBuffer();
+        }
+
         if (it->location + it->length > length) {
             // Sundown adds an extra newline on the source input if needed.
             if (it->location + it->length - length == 1) {
-                s << byteBuffer.substr(it->location, length - it->location);
+                s << byteBuffer.substr(std::min(it->location, length));
                 return s.str();
             } else {
                 // Wrong map
-- 
2.43.0


From 69f0a8cee05bec5d73bfc1a622b17c4b0df0fbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:17 +0000
Subject: [PATCH 14/35] fix: line and column of a range starting after the last
 newline, and of an empty range at the start

---
 packages/drafter/src/SourceMapUtils.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/packages/drafter/src/SourceMapUtils.cc b/packages/drafter/src/SourceMapUtils.cc
index 780ca9c..6c51dcd 100644
--- a/packages/drafter/src/SourceMapUtils.cc
+++ b/packages/drafter/src/SourceMapUtils.cc
@@ -18,7 +18,7 @@ namespace drafter
 
         auto annotationPositionIt = std::upper_bound(linesEndIndex.begin(), linesEndIndex.end(), range.location);
 
-        if (annotationPositionIt != linesEndIndex.end()) {
+        if (annotationPositionIt != linesEndIndex.begin()) {
             out.fromLine = std::distance(linesEndIndex.begin(), annotationPositionIt);
             out.fromColumn = range.location - *std::prev(annotationPositionIt) + 1;
         }
@@ -41,7 +41,10 @@ namespace drafter
 
         // end of byte mapping workarround
 
-        if (annotationPositionIt != linesEndIndex.end()) {
+        if (annotationPositionIt == linesEndIndex.begin()) { // an empty range in front of everything
+            out.toLine = out.fromLine;
+            out.toColumn = out.fromColumn;
+        } else if (annotationPositionIt != linesEndIndex.end()) {
             out.toLine = std::distance(linesEndIndex.begin(), annotationPositionIt);
             out.toColumn = (range.location + range.length) - *(std::prev(annotationPositionIt));
         }
-- 
2.43.0


From 1dd1865dd228a9c3fc30345b673c07aead2e7502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:17 +0000
Subject: [PATCH 15/35] fix: assigning a descendant to a markdown node read
 released children

---
 packages/apib-parser/src/markdown-parser/MarkdownNode.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/apib-parser/src/markdown-parser/MarkdownNode.cc b/packages/apib-parser/src/markdown-parser/MarkdownNode.cc
index 15ea78c..9635a94 100644
--- a/packages/apib-parser/src/markdown-parser/MarkdownNode.cc
+++ b/packages/apib-parser/src/markdown-parser/MarkdownNode.cc
@@ -32,12 +32,15 @@ MarkdownNode::MarkdownNode(const MarkdownNode& rhs)
 
 MarkdownNode& MarkdownNode::operator=(const MarkdownNode& rhs)
 {
+    // NOTE: rhs may be one of the descendants of this node, do not release those before it is copied
+    std::unique_ptr<MarkdownNodes> children(::new MarkdownNodes(*rhs.m_children.get()));
+
     this->type = rhs.type;
     this->text = rhs.text;
     this->data = rhs.data;
     this->sourceMap = rhs.sourceMap;
-    this->m_children.reset(::new MarkdownNodes(*rhs.m_children.get()));
     this->m_parent = rhs.m_parent;
+    this->m_children.swap(children);
     return *this;
 }
 
-- 
2.43.0


From 8147e55c25f764381905c7e6d77f1c87467b5337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:12 +0000
Subject: [PATCH 16/35] fix: octets that are no part of a valid utf8 sequence
 were decoded as if they were

---
 packages/drafter/src/utils/Utf8.h | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/packages/drafter/src/utils/Utf8.h b/packages/drafter/src/utils/Utf8.h
index e5956fe..ca80195 100644
--- a/packages/drafter/src/utils/Utf8.h
+++ b/packages/drafter/src/utils/Utf8.h
@@ -27,6 +27,23 @@ namespace drafter
             constexpr codepoint replacement = 0xFFFD;
             constexpr codepoint invalid = 0xFFFFFFFF;
 
+            ///
+            /// Check the octets following the first one of a utf8 sequence
+            ///
+            /// @param  first   iterator to begin of octet sequence, at least n + 1 octets long
+            /// @param  n       number of octets to be checked
+            ///
+            /// @returns    true iff the n octets following first are continuation octets
+            ///
+            template <typename It>
+            bool is_continued(It first, int n)
+            {
+                for (; n > 0; --n)
+                    if ((static_cast<unsigned char>(*++first) & 0xC0) != 0x80)
+                        return false;
+                return true;
+            }
+
             ///
             /// Decode utf8 codepoint from octet sequence
             ///
@@ -51,6 +68,10 @@ namespace drafter
                     std::advance(first, 1);
 
                     return { cp, first };
+                } else if (cp < 0xC0 || cp >= 0xF8) { // stray continuation, or no utf8 at all
+                    std::advance(first, 1);
+
+                    return { replacement, first };
                 } else if (cp < 0xE0) { // two bytes
                     if (last - first < 2) {
                         return { replacement, last }; // expected more!
@@ -58,9 +79,10 @@ namespace drafter
 
                     codepoint result = ((cp & 0x1F) << 6) //
                         | (static_cast<unsigned char>(first[1]) & 0x3F);
+                    const bool continued = is_continued(first, 1);
                     std::advance(first, 2);
 
-                    return { result < 0x80 ? replacement : result, first }; // check for oversized
+                    return { !continued || result < 0x80 ? replacement : result, first }; // check for oversized
 
                 } else if (cp < 0xF0) { // three bytes
                     if (last - first < 3) {
@@ -70,12 +92,13 @@ namespace drafter
                     codepoint result = ((cp & 0x0F) << 12)                     //
                         | ((static_cast<unsigned char>(first[1]) & 0x3F) << 6) //
                         | (static_cast<unsigned char>(first[2]) & 0x3F);
+                    const bool continued = is_continued(first, 2);
                     std::advance(first, 3);
 
                     if (result >= 0xD800 && result <= 0xDFFF) // surrogates not codepoints
                         return { replacement, first };
 
-                    return { result < 0x800 ? replacement : result, first }; // check for oversized
+                    return { !continued || result < 0x800 ? replacement : result, first }; // check for oversized
 
                 } else { // four bytes
                     if (last - first < 4)
@@ -85,10 +108,11 @@ namespace drafter
                         | ((static_cast<unsigned char>(first[1]) & 0x3F) << 12) //
                         | ((static_cast<unsigned char>(first[2]) & 0x3F) << 6)  //
                         | (static_cast<unsigned char>(first[3]) & 0x3F);
+                    const bool continued = is_continued(first, 3);
                     std::advance(first, 4);
 
                     // check for oversized
-                    if (result < 0x10000)
+                    if (!continued || result < 0x10000)
                         return { replacement, first };
 
                     // check for overlong sequences
-- 
2.43.0


From c6f2d4073b389d768d5d2c28318b3f5fe65c1ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:28 +0000
Subject: [PATCH 17/35] fix: merge objects whose variable members have keys of
 a named type

The key of a variable property may be of a named type, which makes it an
extend element.  Merging such an object with another dereferenced null.
---
 packages/drafter/src/refract/dsd/Extend.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/packages/drafter/src/refract/dsd/Extend.cc b/packages/drafter/src/refract/dsd/Extend.cc
index a7acea8..9adc4b3 100644
--- a/packages/drafter/src/refract/dsd/Extend.cc
+++ b/packages/drafter/src/refract/dsd/Extend.cc
@@ -96,16 +96,17 @@ namespace
                             assert(mergeMember);
 
                             auto mergeKey = TypeQueryVisitor::as<const StringElement>(mergeMember->get().key());
-                            assert(mergeKey);
+                            // keys of a named type (e.g. `*id (Id)*`) are no strings; they override nothing
+                            if (!mergeKey)
+                                return value.get().end();
 
                             return std::find_if(
                                 value.get().begin(), value.get().end(), [mergeKey](const std::unique_ptr<IElement>& e) {
                                     if (auto valueMember = TypeQueryVisitor::as<const MemberElement>(e.get())) {
                                         auto valueKey
                                             = TypeQueryVisitor::as<const StringElement>(valueMember->get().key());
-                                        assert(valueKey);
 
-                                        return mergeKey->get() == valueKey->get();
+                                        return valueKey && mergeKey->get() == valueKey->get();
                                     }
 
                                     if (auto valueSelect = TypeQueryVisitor::as<const SelectElement>(e.get())) {
@@ -123,8 +124,8 @@ namespace
                                                                           auto optElMemberKey = TypeQueryVisitor::as<
                                                                               const StringElement>(
                                                                               optElMember->get().key());
-                                                                          assert(optElMemberKey);
-                                                                          return optElMemberKey->get()
+                                                                          return optElMemberKey
+                                                                              && optElMemberKey->get()
                                                                               == mergeKey->get();
                                                                       }
                                                                       return false;
-- 
2.43.0


From 565aeddaf140b498f89d8236b68083890483514e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:28 +0000
Subject: [PATCH 18/35] fix: JSON schema lists an overridden property once

A member overriding a mixed-in one of the same name yielded duplicate keys
in properties and duplicate names in required.
---
 packages/drafter/src/refract/JsonSchema.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/packages/drafter/src/refract/JsonSchema.cc b/packages/drafter/src/refract/JsonSchema.cc
index 6b05d82..536c4a0 100644
--- a/packages/drafter/src/refract/JsonSchema.cc
+++ b/packages/drafter/src/refract/JsonSchema.cc
@@ -734,10 +734,15 @@ namespace
         } else {
             auto strKey = key(e);
 
-            s.properties.data.emplace_back(strKey, makeSchema(*v, passFlags(options)));
+            // a later property overrides an earlier one of the same name
+            emplace_unique(s.properties, strKey, makeSchema(*v, passFlags(options)));
 
+            so::Value required = so::String{ strKey };
             if (options.test(REQUIRED_FLAG))
-                s.required.data.emplace_back(so::String{ strKey });
+                so::emplace_unique(s.required, std::move(required));
+            else
+                s.required.data.erase(
+                    std::remove(s.required.data.begin(), s.required.data.end(), required), s.required.data.end());
         }
     }
 
-- 
2.43.0


From dd8108b987b3718240f99b19c0c59e67e78614c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:28 +0000
Subject: [PATCH 19/35] fix: quote YAML keys that do not read back as strings

Empty keys, null, booleans and the like were written plain.
---
 packages/drafter/src/utils/so/YamlIo.cc | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/packages/drafter/src/utils/so/YamlIo.cc b/packages/drafter/src/utils/so/YamlIo.cc
index ca3afb6..f6952af 100644
--- a/packages/drafter/src/utils/so/YamlIo.cc
+++ b/packages/drafter/src/utils/so/YamlIo.cc
@@ -33,6 +33,18 @@ namespace
         return true;
     }
 
+    // plain scalars that YAML readers resolve to something else than a string
+    bool is_yaml_reserved(std::string str)
+    {
+        static const char* const reserved[] = { "null", "true", "false", "yes", "no", "on", "off", "y", "n" };
+
+        for (char& c : str)
+            if (c >= 'A' && c <= 'Z')
+                c = c - 'A' + 'a';
+
+        return std::find(std::begin(reserved), std::end(reserved), str) != std::end(reserved);
+    }
+
     bool is_yaml_printable(const codepoint& c)
     {
         return (c == 0x9)                                  //
@@ -237,7 +249,7 @@ namespace
             do_indent(out, indent);
 
             // for clearer, unescaped reading
-            if (is_alphanum_dash(m.first))
+            if (!m.first.empty() && is_alphanum_dash(m.first) && !is_yaml_reserved(m.first))
                 out << m.first;
             else
                 serialize_yaml(out, m.first);
-- 
2.43.0


From c2ff1a2b5319673a62cac9359ff73c67e6b62b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:37 +0000
Subject: [PATCH 20/35] fix: an unset list stays unset when merged, as fixture
 mson/issue-682-b pins it

---
 packages/drafter/src/refract/dsd/Extend.cc | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/packages/drafter/src/refract/dsd/Extend.cc b/packages/drafter/src/refract/dsd/Extend.cc
index 9adc4b3..e59a5c3 100644
--- a/packages/drafter/src/refract/dsd/Extend.cc
+++ b/packages/drafter/src/refract/dsd/Extend.cc
@@ -163,14 +163,11 @@ namespace
 
         void operator()(T& value, const T& merge) const
         {
-            if (!merge.empty()) {
-                if (value.empty())
-                    value.set();
+            if (!merge.empty() && !value.empty())
                 std::transform(merge.get().begin(),
                     merge.get().end(),
                     std::back_inserter(value.get()),
                     [](const std::unique_ptr<IElement>& e) { return clone(*e); });
-            }
         }
     };
 
-- 
2.43.0


From d75a8a3f810dc4bfe0a708df4556ec14eba45fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:12 +0000
Subject: [PATCH 21/35] fix: source map of a redefined asset names only its own
 text

---
 packages/apib-parser/src/snowcrash/AssetParser.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/apib-parser/src/snowcrash/AssetParser.h b/packages/apib-parser/src/snowcrash/AssetParser.h
index aaa8419..d6a657f 100644
--- a/packages/apib-parser/src/snowcrash/AssetParser.h
+++ b/packages/apib-parser/src/snowcrash/AssetParser.h
@@ -45,7 +45,10 @@ namespace snowcrash
             const ParseResultRef<Asset>& out)
         {
 
+            // An asset defined again replaces the previous one
             out.node = "";
+            out.sourceMap.sourceMap.clear();
+
             CodeBlockUtility::signatureContentAsCodeBlock(node, pd, out.report, out.node);
 
             if (pd.exportSourceMap() && !out.node.empty()) {
-- 
2.43.0


From 8b4016d554d2e8b577462d200c91290cd1eaa332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:59 +0000
Subject: [PATCH 22/35] fix: an empty type attribute in a signature was read
 before its beginning

---
 packages/apib-parser/src/snowcrash/SignatureSectionProcessor.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/apib-parser/src/snowcrash/SignatureSectionProcessor.h b/packages/apib-parser/src/snowcrash/SignatureSectionProcessor.h
index e5d1954..01b721b 100644
--- a/packages/apib-parser/src/snowcrash/SignatureSectionProcessor.h
+++ b/packages/apib-parser/src/snowcrash/SignatureSectionProcessor.h
@@ -341,7 +341,7 @@ namespace scpl
                 size_t length = attribute.size();
 
                 // If the last char is not an attribute delimiter, attributes are finished
-                if (attribute[length - 1] != Delimiters::AttributeDelimiter) {
+                if (attribute.empty() || attribute[length - 1] != Delimiters::AttributeDelimiter) {
                     attributesNotFinished = false;
                 } else {
                     attribute = attribute.substr(0, length - 1);
-- 
2.43.0


From 20db738b04aacb13ca5e34862a128c8fe93eb7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:59 +0000
Subject: [PATCH 23/35] fix: name the whole character a header name must not
 contain, not its first octet

---
 .../apib-parser/src/snowcrash/HeadersParser.cc   | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/packages/apib-parser/src/snowcrash/HeadersParser.cc b/packages/apib-parser/src/snowcrash/HeadersParser.cc
index aa18c54..ce7632c 100644
--- a/packages/apib-parser/src/snowcrash/HeadersParser.cc
+++ b/packages/apib-parser/src/snowcrash/HeadersParser.cc
@@ -42,7 +42,7 @@ static bool isNotValidTokenChar(const std::string::value_type& c)
 {
     static const std::string validChars("-#$%&'*+.^_`|~");
 
-    return !(std::isalnum(c) || (validChars.find(c) != std::string::npos));
+    return !(std::isalnum(static_cast<unsigned char>(c)) || (validChars.find(c) != std::string::npos));
 }
 
 static std::string::const_iterator findNonValidCharInHeaderName(const std::string& token)
@@ -60,10 +60,18 @@ bool HeaderNameTokenChecker::operator()() const
 std::string HeaderNameTokenChecker::getMessage() const
 {
 
-    const char invalidChar = *findNonValidCharInHeaderName(headerName);
+    const std::string::const_iterator invalidChar = findNonValidCharInHeaderName(headerName);
+
+    // the character may consist of several octets
+    std::string::const_iterator invalidCharEnd = invalidChar + 1;
+    while (invalidCharEnd != headerName.end() && (*invalidCharEnd & 0xC0) == 0x80) {
+        ++invalidCharEnd;
+    }
+
     std::stringstream ss;
-    ss << "HTTP header name '" << headerName << "' contains illegal character '" << invalidChar << "' (0x" << std::hex
-       << static_cast<int16_t>(invalidChar) << ") skipping the header";
+    ss << "HTTP header name '" << headerName << "' contains illegal character '"
+       << std::string(invalidChar, invalidCharEnd) << "' (0x" << std::hex
+       << static_cast<int>(static_cast<unsigned char>(*invalidChar)) << ") skipping the header";
 
     return ss.str();
 }
-- 
2.43.0


From 2cf288df7f2ec21786ceef8607c74f0f044cf53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:59 +0000
Subject: [PATCH 24/35] fix: making two newlines of an empty or short string
 read before its beginning

---
 packages/apib-parser/src/snowcrash/StringUtility.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/apib-parser/src/snowcrash/StringUtility.h b/packages/apib-parser/src/snowcrash/StringUtility.h
index c22eddf..91034ab 100644
--- a/packages/apib-parser/src/snowcrash/StringUtility.h
+++ b/packages/apib-parser/src/snowcrash/StringUtility.h
@@ -106,11 +106,11 @@ namespace snowcrash
     inline std::string& TwoNewLines(std::string& s)
     {
 
-        if (s[s.length() - 1] != '\n') {
+        if (s.empty() || s[s.length() - 1] != '\n') {
             s += "\n";
         }
 
-        if (s[s.length() - 2] != '\n') {
+        if (s.length() < 2 || s[s.length() - 2] != '\n') {
             s += "\n";
         }
 
-- 
2.43.0


From 8cfd2f862fc872403c8c6b90ebc1afab0abe366b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:20 +0000
Subject: [PATCH 25/35] fix: percent-encode octets below 16 with two digits in
 URI template warnings

---
 packages/apib-parser/src/snowcrash/UriTemplateParser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/apib-parser/src/snowcrash/UriTemplateParser.cc b/packages/apib-parser/src/snowcrash/UriTemplateParser.cc
index d64597c..9a3735e 100644
--- a/packages/apib-parser/src/snowcrash/UriTemplateParser.cc
+++ b/packages/apib-parser/src/snowcrash/UriTemplateParser.cc
@@ -67,7 +67,7 @@ namespace error_locator
         std::stringstream encoded;
         encoded << std::hex << std::uppercase;
         for (const unsigned char chr : in) {
-            encoded << "%" << int(chr);
+            encoded << "%" << std::setw(2) << std::setfill('0') << int(chr);
         }
         return encoded.str();
     }
-- 
2.43.0


From 7c0b51f12ee1f9bf6cf48aa2a56f482676e04375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:21 +0000
Subject: [PATCH 26/35] fix: do not cut characters of several octets in URI
 template warnings

---
 packages/apib-parser/src/snowcrash/UriTemplateParser.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/apib-parser/src/snowcrash/UriTemplateParser.cc b/packages/apib-parser/src/snowcrash/UriTemplateParser.cc
index 9a3735e..a375b5d 100644
--- a/packages/apib-parser/src/snowcrash/UriTemplateParser.cc
+++ b/packages/apib-parser/src/snowcrash/UriTemplateParser.cc
@@ -36,8 +36,8 @@ namespace error_locator
      */
     struct pct_triplet : pegtl::seq<
                                    pegtl::one<'%'>,
-                                   pegtl::any,
-                                   pegtl::any
+                                   pegtl::utf8::any,
+                                   pegtl::utf8::any
                                  > {};
 
     struct continuous_dots : pegtl::seq<
-- 
2.43.0


From 791851b18ca9ba12032e8f0af899a3a15b99a1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:21 +0000
Subject: [PATCH 27/35] fix: URI template prefix lengths range from 1 to 9999

---
 packages/apib-parser/src/grammar/Uritemplate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/apib-parser/src/grammar/Uritemplate.h b/packages/apib-parser/src/grammar/Uritemplate.h
index e2e68ef..6dd544e 100644
--- a/packages/apib-parser/src/grammar/Uritemplate.h
+++ b/packages/apib-parser/src/grammar/Uritemplate.h
@@ -88,7 +88,7 @@ namespace apib
 
             struct operator_ : pegtl::sor<op_l2, op_l3, op_reserved> {};
 
-            struct prefix_value : pegtl::rep_max<3, pegtl::abnf::DIGIT> {};
+            struct prefix_value : pegtl::seq<pegtl::range<'1', '9'>, pegtl::rep_max<3, pegtl::abnf::DIGIT> > {};
             struct prefix : pegtl::seq<pegtl::one<':'>, prefix_value> {};
             struct explode : pegtl::one<'*'> {};
 
-- 
2.43.0


From 75aca02d54adfa99b4af03e7edaefe2415720e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:21 +0000
Subject: [PATCH 28/35] fix: a variable name in a URI template does not end in
 a dot

---
 packages/apib-parser/src/grammar/Uritemplate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/apib-parser/src/grammar/Uritemplate.h b/packages/apib-parser/src/grammar/Uritemplate.h
index 6dd544e..20ed76e 100644
--- a/packages/apib-parser/src/grammar/Uritemplate.h
+++ b/packages/apib-parser/src/grammar/Uritemplate.h
@@ -104,7 +104,7 @@ namespace apib
             struct noncontinuous_dots : pegtl::try_catch<
                                           pegtl::if_must<
                                             pegtl::one<'.'>,
-                                            pegtl::not_at<pegtl::one<'.'>>
+                                            pegtl::at<varchar>
                                           >
                                         > {};
 
-- 
2.43.0


From 985d116bcf60738bbec710409b9e4335741e2988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:21 +0000
Subject: [PATCH 29/35] fix: parameters of a media type are separated by
 semicolons, too

---
 packages/apib-parser/src/grammar/Mediatype.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/apib-parser/src/grammar/Mediatype.h b/packages/apib-parser/src/grammar/Mediatype.h
index adb1f23..68dc17e 100644
--- a/packages/apib-parser/src/grammar/Mediatype.h
+++ b/packages/apib-parser/src/grammar/Mediatype.h
@@ -73,7 +73,8 @@ namespace apib
 
         // OPT convert to if_must<> to force correct attribute=value pair required
         struct parameter : pegtl::seq<attribute, pegtl::one<'='>, value> {}; 
-        struct parameters : pegtl::list<parameter, RWS> {};
+        struct separator : pegtl::sor<pegtl::seq<OWS, pegtl::one<';'>, OWS>, RWS> {};
+        struct parameters : pegtl::list<parameter, separator> {};
 
         // type
         struct type : name {};
-- 
2.43.0


From cddd84214b65c365d621e556d9383767098b417c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:21 +0000
Subject: [PATCH 30/35] fix: quoted pairs in media type parameters stand for
 the character quoted

---
 packages/apib-parser/src/MediaTypeParser.cc | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/packages/apib-parser/src/MediaTypeParser.cc b/packages/apib-parser/src/MediaTypeParser.cc
index 9c5223e..6976564 100644
--- a/packages/apib-parser/src/MediaTypeParser.cc
+++ b/packages/apib-parser/src/MediaTypeParser.cc
@@ -14,10 +14,28 @@
 using namespace apib::syntax;
 using namespace apib::parser::mediatype;
 
+namespace
+{
+    // characters of a quoted string may be written as quoted pairs
+    std::string unquote(const std::string& value)
+    {
+        std::string result;
+        for (auto it = value.begin(); it != value.end(); ++it) {
+            if (*it == '\\' && it + 1 != value.end())
+                ++it;
+            result += *it;
+        }
+        return result;
+    }
+}
+
 media_type apib::parser::parseMediaType(const std::string& input)
 {
     media_type result;
     tao::pegtl::memory_input<> in(input, "");
     tao::pegtl::parse<tao::pegtl::try_catch<match_grammar>, action>(in, result);
+    for (auto& parameter : result.parameters) {
+        parameter.second = unquote(parameter.second);
+    }
     return result;
 }
-- 
2.43.0


From ba583ae9543acfec4164951e48e678b2e7dc0666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:51 +0000
Subject: [PATCH 31/35] fix: unquoted media type parameter values are tokens,
 not names

---
 packages/apib-parser/src/grammar/Mediatype.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/packages/apib-parser/src/grammar/Mediatype.h b/packages/apib-parser/src/grammar/Mediatype.h
index 68dc17e..a94567d 100644
--- a/packages/apib-parser/src/grammar/Mediatype.h
+++ b/packages/apib-parser/src/grammar/Mediatype.h
@@ -65,7 +65,14 @@ namespace apib
                            pegtl::rep_max<126, pegtl::sor<pegtl::ascii::alnum, restricted> >
                        > {};
 
-        struct nonquoted : name {}; // nonqouted is used in parameter value to allow action template specialization
+        // nonquoted parameter value is a token https://tools.ietf.org/html/rfc2616#section-2.2
+        struct nonquoted : pegtl::plus<
+                               pegtl::sor<
+                                   pegtl::ascii::alnum,
+                                   restricted,
+                                   pegtl::one< '%', '\'', '*', '+', '`', '|', '~' >
+                               >
+                           > {};
 
         // parameters
         struct attribute : name {};
-- 
2.43.0


From 963f06fdde93b2e5276095e74e60b744c0c60409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:51 +0000
Subject: [PATCH 32/35] fix: quote media type parameter values that are no
 tokens

---
 packages/drafter/src/backend/MediaTypeS11n.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/packages/drafter/src/backend/MediaTypeS11n.cc b/packages/drafter/src/backend/MediaTypeS11n.cc
index f48a1f7..48900b2 100644
--- a/packages/drafter/src/backend/MediaTypeS11n.cc
+++ b/packages/drafter/src/backend/MediaTypeS11n.cc
@@ -35,7 +35,7 @@ namespace
 
     bool is_tspecial(char c) noexcept
     {
-        for (const auto& r : { '(', ')', '<', '>', '@', ',', ';', ':', '\\', '"', '/', '[', ']', '?', '=' }) {
+        for (const auto& r : { '(', ')', '<', '>', '@', ',', ';', ':', '\\', '"', '/', '[', ']', '?', '=', '{', '}' }) {
             if (c == r)
                 return true;
         }
@@ -47,8 +47,8 @@ namespace
         using std::begin;
         using std::end;
 
-        if (end(v) == std::find_if(begin(v), end(v), [](const char c) { //
-                return is_tspecial(c) || std::isspace(c) || std::iscntrl(c);
+        if (!v.empty() && end(v) == std::find_if(begin(v), end(v), [](const unsigned char c) { //
+                return c > 127 || is_tspecial(c) || std::isspace(c) || std::iscntrl(c);
             }))
             return (out << v);
 
-- 
2.43.0


From ac775a2f73c3c512e3b5f7aa55dee9046cfc4e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:37 +0000
Subject: [PATCH 33/35] fix: the scheme of a URI template beginning with https
 is https, not http

---
 packages/apib-parser/src/snowcrash/UriTemplateParser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/apib-parser/src/snowcrash/UriTemplateParser.cc b/packages/apib-parser/src/snowcrash/UriTemplateParser.cc
index a375b5d..0c26b9b 100644
--- a/packages/apib-parser/src/snowcrash/UriTemplateParser.cc
+++ b/packages/apib-parser/src/snowcrash/UriTemplateParser.cc
@@ -12,7 +12,7 @@
 #include "RegexMatch.h"
 #include "grammar/Uritemplate.h"
 
-#define URI_REGEX "^(http|https|ftp|file)?(://)?([^/]*)?(.*)$"
+#define URI_REGEX "^(https|http|ftp|file)?(://)?([^/]*)?(.*)$"
 
 
 using namespace snowcrash;
-- 
2.43.0


From 9dcd98c21ec89c273d0637db1d96c71e39ef108a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:53 +0000
Subject: [PATCH 34/35] fix: source map of a relation names only the text it
 was read from

---
 packages/apib-parser/src/snowcrash/RelationParser.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/packages/apib-parser/src/snowcrash/RelationParser.h b/packages/apib-parser/src/snowcrash/RelationParser.h
index 72806ad..c737417 100644
--- a/packages/apib-parser/src/snowcrash/RelationParser.h
+++ b/packages/apib-parser/src/snowcrash/RelationParser.h
@@ -45,6 +45,13 @@ namespace snowcrash
             if (RegexCapture(signature, RelationIdentifierRegex, captureGroups, 3)) {
                 out.node.str = captureGroups[1];
                 TrimString(out.node.str);
+
+                if (pd.exportSourceMap()) {
+                    out.sourceMap.sourceMap.clear();
+                    if (!out.node.str.empty()) {
+                        out.sourceMap.sourceMap.append(node->sourceMap);
+                    }
+                }
             } else {
                 // WARN: Relation identifier contains illegal characters
                 mdp::CharactersRangeSet sourceMap
@@ -56,10 +63,6 @@ namespace snowcrash
                         sourceMap));
             }
 
-            if (pd.exportSourceMap() && !out.node.str.empty()) {
-                out.sourceMap.sourceMap.append(node->sourceMap);
-            }
-
             return ++MarkdownNodeIterator(node);
         }
 
-- 
2.43.0


From 6ac0bb44eadea14f6a055e5642032c1f088433bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:08 +0000
Subject: [PATCH 35/35] fix: expand the enumerations of an enum of a named type

A mixin or a named type among them stayed unexpanded, and rendering the
body or the schema then read the missing 'resolved' attribute of the mixin.
---
 packages/drafter/src/refract/ExpandVisitor.cc | 53 ++++++++++---------
 1 file changed, 29 insertions(+), 24 deletions(-)

diff --git a/packages/drafter/src/refract/ExpandVisitor.cc b/packages/drafter/src/refract/ExpandVisitor.cc
index e866a55..af09035 100644
--- a/packages/drafter/src/refract/ExpandVisitor.cc
+++ b/packages/drafter/src/refract/ExpandVisitor.cc
@@ -199,6 +199,34 @@ namespace refract
             return o;
         }
 
+        std::unique_ptr<EnumElement> ExpandMembers(const EnumElement& e)
+        {
+            auto o = e.empty() ? //
+                make_empty<EnumElement>() :
+                make_element<EnumElement>(ExpandValue(e.get()));
+
+            o->meta() = e.meta();
+
+            for (const auto& attribute : e.attributes()) {
+                if (attribute.first == "enumerations") {
+                    const auto* enums = TypeQueryVisitor::as<const ArrayElement>(attribute.second.get());
+                    assert(enums);
+                    assert(!enums->empty());
+
+                    dsd::Array expanded;
+                    for (const auto& entry : enums->get()) {
+                        assert(entry);
+                        expanded.push_back(ExpandOrClone(entry.get()));
+                    }
+                    o->attributes().set("enumerations", make_element<ArrayElement>(std::move(expanded)));
+                } else {
+                    o->attributes().set(attribute.first, attribute.second->clone());
+                }
+            }
+
+            return o;
+        }
+
         template <typename T>
         std::unique_ptr<IElement> ExpandNamedType(const T& e)
         {
@@ -295,30 +323,7 @@ namespace refract
             if (!isReserved(e.element().c_str()))
                 return context->ExpandNamedType(e);
 
-            auto o = e.empty() ? //
-                make_empty<EnumElement>() :
-                make_element<EnumElement>(context->ExpandValue(e.get()));
-
-            o->meta() = e.meta();
-
-            for (const auto& attribute : e.attributes()) {
-                if (attribute.first == "enumerations") {
-                    const auto* enums = TypeQueryVisitor::as<const ArrayElement>(attribute.second.get());
-                    assert(enums);
-                    assert(!enums->empty());
-
-                    dsd::Array expanded;
-                    for (const auto& entry : enums->get()) {
-                        assert(entry);
-                        expanded.push_back(context->ExpandOrClone(entry.get()));
-                    }
-                    o->attributes().set("enumerations", make_element<ArrayElement>(std::move(expanded)));
-                } else {
-                    o->attributes().set(attribute.first, attribute.second->clone());
-                }
-            }
-
-            return std::move(o);
+            return context->ExpandMembers(e);
         }
     };
 
-- 
2.43.0

