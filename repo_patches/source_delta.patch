From 49bac56a3e27520fc728796bed6846ed95525616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:50 +0000
Subject: [PATCH 01/58] fix: exact min/max values of int fields with large
 serOffset

abs() of the minimal value and the limit arithmetic overflowed, the value range
of the field wrapped around when no value could be serialized.
---
 lib/src/parse/ParseIntFieldImpl.cpp | 81 ++++++++++++++++-------------
 1 file changed, 46 insertions(+), 35 deletions(-)

diff --git a/lib/src/parse/ParseIntFieldImpl.cpp b/lib/src/parse/ParseIntFieldImpl.cpp
index e73bad8..61ad1ba 100644
--- a/lib/src/parse/ParseIntFieldImpl.cpp
+++ b/lib/src/parse/ParseIntFieldImpl.cpp
@@ -688,6 +688,19 @@ bool ParseIntFieldImpl::parseUpdateMinMaxValues()
         return true;
     }
 
+    auto offAbs = static_cast<std::uintmax_t>(m_state.m_serOffset);
+    if (m_state.m_serOffset < 0) {
+        offAbs = 0U - offAbs;
+    }
+
+    auto reportInvalidOffsetFunc =
+        [this]()
+        {
+            parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
+                          "The serialisation offset value is too big or too small for selected type.";
+            return false;
+        };
+
     do {
         if ((parseIsBigUnsigned(m_state.m_type)) ||
             (m_state.m_typeAllowedMaxValue == std::numeric_limits<std::intmax_t>::max())) {
@@ -696,61 +709,59 @@ bool ParseIntFieldImpl::parseUpdateMinMaxValues()
 
         auto diff = (m_state.m_typeAllowedMaxValue - m_state.m_typeAllowedMinValue);
         assert(diff <= static_cast<decltype(diff)>(std::numeric_limits<std::uint32_t>::max()));
-        if (std::abs(m_state.m_serOffset) < diff) {
+        if (offAbs < static_cast<std::uintmax_t>(diff)) {
             break;
         }
 
-        parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
-                      "The serialisation offset value is too big or too small for selected type.";
-        return false;
+        return reportInvalidOffsetFunc();
     } while (false);
 
-    auto updateMinValueFunc =
-        [this](auto& val)
+    auto updateMinMaxValuesFunc =
+        [this, offAbs](auto& minVal, auto& maxVal)
         {
-            using ValType = std::decay_t<decltype(val)>;
+            using ValType = std::decay_t<decltype(minVal)>;
+            using Limits = std::numeric_limits<ValType>;
+
+            // The arithmetic is performed using unsigned types to avoid signed overflow.
+            auto minTmp = static_cast<std::uintmax_t>(minVal);
+            auto maxTmp = static_cast<std::uintmax_t>(maxVal);
             if (m_state.m_serOffset < 0) {
-                val -= m_state.m_serOffset;
-                return;
-            }
+                auto limit = static_cast<std::uintmax_t>(Limits::max());
+                if ((limit - minTmp) < offAbs) {
+                    return false;
+                }
 
-            assert(0 < m_state.m_serOffset);
-            auto limit = std::numeric_limits<ValType>::min() + m_state.m_serOffset;
-            if (static_cast<ValType>(limit) < val) {
-                val -= m_state.m_serOffset;
+                minVal = static_cast<ValType>(minTmp + offAbs);
+                maxVal = ((limit - maxTmp) < offAbs) ? Limits::max() : static_cast<ValType>(maxTmp + offAbs);
+                return true;
             }
-        };
 
-    auto updateMaxValueFunc =
-        [this](auto& val)
-        {
-            using ValType = std::decay_t<decltype(val)>;
-            if (m_state.m_serOffset < 0) {
-                auto limit = std::numeric_limits<ValType>::max() + m_state.m_serOffset;
-                if (val < static_cast<ValType>(limit)) {
-                    val -= m_state.m_serOffset;
-                }
-                return;
+            auto limit = static_cast<std::uintmax_t>(Limits::min());
+            if ((maxTmp - limit) < offAbs) {
+                return false;
             }
 
-            assert(0 < m_state.m_serOffset);
-            val -= m_state.m_serOffset;
+            minVal = ((minTmp - limit) < offAbs) ? Limits::min() : static_cast<ValType>(minTmp - offAbs);
+            maxVal = static_cast<ValType>(maxTmp - offAbs);
+            return true;
         };
 
     if (!parseIsTypeUnsigned(m_state.m_type)) {
-        updateMinValueFunc(m_state.m_minValue);
-        updateMaxValueFunc(m_state.m_maxValue);
+        if (!updateMinMaxValuesFunc(m_state.m_minValue, m_state.m_maxValue)) {
+            return reportInvalidOffsetFunc();
+        }
         return true;
     }
 
-    auto minValueTmp = static_cast<std::uint64_t>(m_state.m_minValue);
-    auto maxValueTmp = static_cast<std::uint64_t>(m_state.m_maxValue);
+    auto minValueTmp = static_cast<std::uintmax_t>(m_state.m_minValue);
+    auto maxValueTmp = static_cast<std::uintmax_t>(m_state.m_maxValue);
 
-    updateMinValueFunc(minValueTmp);
-    updateMaxValueFunc(maxValueTmp);
+    if (!updateMinMaxValuesFunc(minValueTmp, maxValueTmp)) {
+        return reportInvalidOffsetFunc();
+    }
 
-    m_state.m_minValue = static_cast<std::uint64_t>(minValueTmp);
-    m_state.m_maxValue = static_cast<std::uint64_t>(maxValueTmp);
+    m_state.m_minValue = static_cast<std::intmax_t>(minValueTmp);
+    m_state.m_maxValue = static_cast<std::intmax_t>(maxValueTmp);
 
     return true;
 }
-- 
2.43.0


From 6f992eb1bd3000a0efd34eac302b570e614f9b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:50 +0000
Subject: [PATCH 02/58] fix: reject zero bitLength of int, enum, and ref
 bitfield members

The value was accepted and caused failed assertion when calculating the range.
---
 lib/src/parse/ParseEnumFieldImpl.cpp | 2 +-
 lib/src/parse/ParseIntFieldImpl.cpp  | 2 +-
 lib/src/parse/ParseRefFieldImpl.cpp  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/src/parse/ParseEnumFieldImpl.cpp b/lib/src/parse/ParseEnumFieldImpl.cpp
index e708ca5..7908d9a 100644
--- a/lib/src/parse/ParseEnumFieldImpl.cpp
+++ b/lib/src/parse/ParseEnumFieldImpl.cpp
@@ -374,7 +374,7 @@ bool ParseEnumFieldImpl::parseUpdateBitLength()
 
     bool ok = false;
     m_state.m_bitLength = common::parseStrToUnsigned(valStr, &ok);
-    if (!ok) {
+    if ((!ok) || (m_state.m_bitLength == 0U)) {
         parseReportUnexpectedPropertyValue(common::parseBitLengthStr(), valStr);
         return false;
     }
diff --git a/lib/src/parse/ParseIntFieldImpl.cpp b/lib/src/parse/ParseIntFieldImpl.cpp
index 61ad1ba..f23a027 100644
--- a/lib/src/parse/ParseIntFieldImpl.cpp
+++ b/lib/src/parse/ParseIntFieldImpl.cpp
@@ -641,7 +641,7 @@ bool ParseIntFieldImpl::parseUpdateBitLength()
 
     bool ok = false;
     m_state.m_bitLength = common::parseStrToUnsigned(valStr, &ok);
-    if (!ok) {
+    if ((!ok) || (m_state.m_bitLength == 0U)) {
         parseReportUnexpectedPropertyValue(common::parseBitLengthStr(), valStr);
         return false;
     }
diff --git a/lib/src/parse/ParseRefFieldImpl.cpp b/lib/src/parse/ParseRefFieldImpl.cpp
index e3f47ed..959c50e 100644
--- a/lib/src/parse/ParseRefFieldImpl.cpp
+++ b/lib/src/parse/ParseRefFieldImpl.cpp
@@ -254,7 +254,7 @@ bool ParseRefFieldImpl::parseUpdateBitLength()
 
     bool ok = false;
     m_state.m_bitLength = common::parseStrToUnsigned(valStr, &ok);
-    if (!ok) {
+    if ((!ok) || (m_state.m_bitLength == 0U)) {
         parseReportUnexpectedPropertyValue(common::parseBitLengthStr(), valStr);
         return false;
     }
-- 
2.43.0


From b6e46b46d2038dc37ae391dff163172fa171c9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:27 +0000
Subject: [PATCH 03/58] fix: reject numeric property text that is not exactly
 representable

Values exceeding the range of unsigned were truncated, negative values of
unsigned properties wrapped around, and trailing garbage was ignored.
---
 lib/src/parse/parse_common.cpp | 65 +++++++++++++++++++++-------------
 1 file changed, 40 insertions(+), 25 deletions(-)

diff --git a/lib/src/parse/parse_common.cpp b/lib/src/parse/parse_common.cpp
index f473aba..74db73d 100644
--- a/lib/src/parse/parse_common.cpp
+++ b/lib/src/parse/parse_common.cpp
@@ -37,6 +37,12 @@ namespace
 
 const std::size_t MaxPossibleLength = std::numeric_limits<std::size_t>::max();
 
+bool parseIsNumTextComplete(const std::string& str, std::size_t pos)
+{
+    // Only trailing white spaces are allowed after the number
+    return str.find_first_not_of(" \t\r\n\f\v", pos) == std::string::npos;
+}
+
 }
 
 const std::string& parseEmptyString()
@@ -937,34 +943,38 @@ char parseInterfaceRefPrefix()
 
 unsigned parseStrToUnsigned(const std::string& str, bool* ok, int base)
 {
-    unsigned result = 0U;
-    try {
-        result = static_cast<decltype(result)>(std::stoul(str, 0, base));
-        if (ok != nullptr) {
-            *ok = true;
-        }
+    bool valid = false;
+    auto value = parseStrToUintMax(str, &valid, base);
+    valid = valid && (value <= std::numeric_limits<unsigned>::max());
 
-    } catch (...) {
-        if (ok != nullptr) {
-            *ok = false;
-        }
+    if (ok != nullptr) {
+        *ok = valid;
     }
-    return result;
+
+    if (!valid) {
+        return 0U;
+    }
+
+    return static_cast<unsigned>(value);
 }
 
 std::intmax_t parseStrToIntMax(const std::string& str, bool* ok, int base)
 {
     std::intmax_t result = 0;
+    bool valid = false;
     try {
-        result = std::stoll(str, 0, base);
-        if (ok != nullptr) {
-            *ok = true;
+        std::size_t pos = 0U;
+        auto value = std::stoll(str, &pos, base);
+        if (parseIsNumTextComplete(str, pos)) {
+            result = value;
+            valid = true;
         }
-
     } catch (...) {
-        if (ok != nullptr) {
-            *ok = false;
-        }
+        // Nothing to do, reported as invalid
+    }
+
+    if (ok != nullptr) {
+        *ok = valid;
     }
     return result;
 }
@@ -972,16 +982,21 @@ std::intmax_t parseStrToIntMax(const std::string& str, bool* ok, int base)
 std::uintmax_t parseStrToUintMax(const std::string& str, bool* ok, int base)
 {
     std::uintmax_t result = 0U;
+    bool valid = false;
     try {
-        result = std::stoull(str, 0, base);
-        if (ok != nullptr) {
-            *ok = true;
+        std::size_t pos = 0U;
+        auto value = std::stoull(str, &pos, base);
+        // std::stoull() accepts and wraps negative values
+        if (parseIsNumTextComplete(str, pos) && (str.find('-') == std::string::npos)) {
+            result = value;
+            valid = true;
         }
-
     } catch (...) {
-        if (ok != nullptr) {
-            *ok = false;
-        }
+        // Nothing to do, reported as invalid
+    }
+
+    if (ok != nullptr) {
+        *ok = valid;
     }
     return result;
 }
-- 
2.43.0


From 2aab4779c18011cd83c4cf5034add6759843b762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:21 +0000
Subject: [PATCH 04/58] fix: reusing a message with non-zero order must not
 abort

---
 lib/src/parse/ParseMessageImpl.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/src/parse/ParseMessageImpl.cpp b/lib/src/parse/ParseMessageImpl.cpp
index cf7cf0f..84e9e21 100644
--- a/lib/src/parse/ParseMessageImpl.cpp
+++ b/lib/src/parse/ParseMessageImpl.cpp
@@ -539,7 +539,6 @@ bool ParseMessageImpl::parseUpdateOrder()
 
     auto iter = m_props.find(common::parseOrderStr());
     if (iter == m_props.end()) {
-        assert(m_state.m_order == 0U);
         return true;
     }
 
-- 
2.43.0


From cad2507045e1312e4e2d82d9b032399801bf8b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:47 +0000
Subject: [PATCH 05/58] fix: validateMinLength values above the signed 32-bit
 range must not be ignored

---
 lib/src/parse/ParseFieldImpl.h   | 2 +-
 lib/src/parse/ParseMessageImpl.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/parse/ParseFieldImpl.h b/lib/src/parse/ParseFieldImpl.h
index b7d7764..4c58557 100644
--- a/lib/src/parse/ParseFieldImpl.h
+++ b/lib/src/parse/ParseFieldImpl.h
@@ -421,7 +421,7 @@ private:
         ParseOverrideType m_validOverride = ParseOverrideType_Any;
         ParseOverrideType m_nameOverride = ParseOverrideType_Any;
         std::string m_copyCodeFrom;
-        int m_validateMinLength = -1;
+        std::intmax_t m_validateMinLength = -1;
         bool m_pseudo = false;
         bool m_fixedValue = false;
         bool m_customizable = false;
diff --git a/lib/src/parse/ParseMessageImpl.h b/lib/src/parse/ParseMessageImpl.h
index 502efd4..ad2925a 100644
--- a/lib/src/parse/ParseMessageImpl.h
+++ b/lib/src/parse/ParseMessageImpl.h
@@ -183,7 +183,7 @@ private:
         std::string m_description;
         std::uintmax_t m_id = 0;
         unsigned m_order = 0;
-        int m_validateMinLength = -1;
+        std::intmax_t m_validateMinLength = -1;
         std::vector<ParseFieldImplPtr> m_fields;
         std::vector<ParseAliasImplPtr> m_aliases;
         ParsePlatformsList m_platforms;
-- 
2.43.0


From 557a9a45087df1027b6b81f408d20a2291f610ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:36 +0000
Subject: [PATCH 06/58] fix: reject set definitions without usable length or
 bitLength instead of aborting

---
 lib/src/parse/ParseSetFieldImpl.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/src/parse/ParseSetFieldImpl.cpp b/lib/src/parse/ParseSetFieldImpl.cpp
index e9a4515..57edff8 100644
--- a/lib/src/parse/ParseSetFieldImpl.cpp
+++ b/lib/src/parse/ParseSetFieldImpl.cpp
@@ -349,6 +349,11 @@ bool ParseSetFieldImpl::parseUpdateLength()
         m_state.m_length = newLen;
     } while (false);
 
+    if (mustHaveLength && (m_state.m_length == 0U)) {
+        parseReportUnexpectedPropertyValue(common::parseLengthStr(), lengthStr);
+        return false;
+    }
+
     bool mustHaveBitLength = (parseIsBitfieldMember() && m_state.m_bitLength == 0U && (m_state.m_length == 0U));
     if (!parseValidateSinglePropInstance(common::parseBitLengthStr(), mustHaveBitLength)) {
         return false;
@@ -358,7 +363,11 @@ bool ParseSetFieldImpl::parseUpdateLength()
     do {
         if (bitLengthStr.empty()) {
             if (m_state.m_bitLength == 0U) {
-                assert(m_state.m_length != 0U);
+                if (m_state.m_length == 0U) {
+                    parseReportUnexpectedPropertyValue(common::parseBitLengthStr(), bitLengthStr);
+                    return false;
+                }
+
                 m_state.m_bitLength = m_state.m_length * 8U;
             }
             break;
@@ -380,7 +389,8 @@ bool ParseSetFieldImpl::parseUpdateLength()
             return false;
         }
 
-        if ((m_state.m_length != 0) && ((m_state.m_length * 8U) < m_state.m_bitLength)) {
+        auto lengthLimit = (m_state.m_length != 0U) ? m_state.m_length : maxLength;
+        if ((lengthLimit * 8U) < m_state.m_bitLength) {
             parseReportUnexpectedPropertyValue(common::parseBitLengthStr(), bitLengthStr);
             return false;
         }
-- 
2.43.0


From a9bac6ff8ff2974e9142e95695bf0d8f1e2f47a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:42 +0000
Subject: [PATCH 07/58] fix: reusing a message with platforms must not abort or
 merge the lists

---
 lib/src/parse/ParseMessageImpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parse/ParseMessageImpl.cpp b/lib/src/parse/ParseMessageImpl.cpp
index 84e9e21..9e38b02 100644
--- a/lib/src/parse/ParseMessageImpl.cpp
+++ b/lib/src/parse/ParseMessageImpl.cpp
@@ -614,7 +614,6 @@ bool ParseMessageImpl::parseUpdatePlatforms()
 
     auto iter = m_props.find(common::parsePlatformsStr());
     if (iter == m_props.end()) {
-        assert(m_state.m_platforms.empty());
         return true;
     }
 
@@ -680,6 +679,7 @@ bool ParseMessageImpl::parseUpdatePlatforms()
 
     assert(op == Minus);
     assert(platList.size() <= allPlatforms.size());
+    m_state.m_platforms.clear(); // may contain values of the reused message
     m_state.m_platforms.reserve(allPlatforms.size() - platList.size());
     std::set_difference(
         allPlatforms.begin(), allPlatforms.end(),
-- 
2.43.0


From 4a20380b1559312f8a6618b835f5183b4ff22067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:28 +0000
Subject: [PATCH 08/58] fix: forced schema versions above the signed 32-bit
 range must not be ignored

---
 lib/src/gen/GenGenerator.cpp | 3 ++-
 lib/src/gen/GenSchema.cpp    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/src/gen/GenGenerator.cpp b/lib/src/gen/GenGenerator.cpp
index 9cf55fb..ed75c11 100644
--- a/lib/src/gen/GenGenerator.cpp
+++ b/lib/src/gen/GenGenerator.cpp
@@ -43,6 +43,7 @@
 #include "commsdsl/version.h"
 
 #include <cassert>
+#include <cstdint>
 #include <algorithm>
 #include <filesystem>
 #include <fstream>
@@ -673,7 +674,7 @@ private:
     const GenInterface* m_forcedInterface = nullptr;
     std::map<std::string, std::string> m_namespaceOverrides;
     std::string m_topNamespace;
-    int m_forcedSchemaVersion = -1;
+    std::int64_t m_forcedSchemaVersion = -1;
     unsigned m_minRemoteVersion = 0U;
     std::string m_codeVersion;
     std::string m_outputDir;
diff --git a/lib/src/gen/GenSchema.cpp b/lib/src/gen/GenSchema.cpp
index 2d2dd68..9beb990 100644
--- a/lib/src/gen/GenSchema.cpp
+++ b/lib/src/gen/GenSchema.cpp
@@ -25,6 +25,7 @@
 
 #include <algorithm>
 #include <cassert>
+#include <cstdint>
 #include <filesystem>
 #include <iterator>
 #include <system_error>
@@ -510,7 +511,7 @@ private:
     ParseSchema m_parseObj;
     GenElem* m_parent = nullptr;
     GenNamespacesList m_namespaces;
-    int m_forcedSchemaVersion = -1;
+    std::int64_t m_forcedSchemaVersion = -1;
     GenFieldsAccessList m_messageIdFields;
     std::string m_mainNamespace;
     std::string m_origNamespace;
-- 
2.43.0


From efc971045b32ef4421ceff870f4df64ecf7e9b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:41 +0000
Subject: [PATCH 09/58] fix: avoid signed overflow when writing the minimal
 64-bit number

---
 lib/src/gen/util.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/gen/util.cpp b/lib/src/gen/util.cpp
index 0ba8e7c..17ccda9 100644
--- a/lib/src/gen/util.cpp
+++ b/lib/src/gen/util.cpp
@@ -383,7 +383,7 @@ std::string genNumToString(std::intmax_t value)
     }
 
     std::stringstream stream;
-    stream << std::hex << "-0x" << -value << "LL";
+    stream << std::hex << "-0x" << (0U - static_cast<std::uintmax_t>(value)) << "LL";
     return stream.str();
 }
 
@@ -394,7 +394,7 @@ std::string genNumToStringWithHexComment(std::intmax_t value)
         stream << std::hex << "0x" << value;
     }
     else {
-        stream << std::hex << "-0x" << -value;
+        stream << std::hex << "-0x" << (0U - static_cast<std::uintmax_t>(value));
     }
 
     if ((std::numeric_limits<std::int32_t>::min() <= value) &&
-- 
2.43.0


From 2de90be8b1ff3185d3b3290c469c0a6d025ca604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:49 +0000
Subject: [PATCH 10/58] fix: reject a frame with two layers of the same name

---
 lib/src/parse/ParseFrameImpl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/parse/ParseFrameImpl.cpp b/lib/src/parse/ParseFrameImpl.cpp
index 26e4e86..dc9c540 100644
--- a/lib/src/parse/ParseFrameImpl.cpp
+++ b/lib/src/parse/ParseFrameImpl.cpp
@@ -303,6 +303,7 @@ bool ParseFrameImpl::parseUpdateLayers()
             parseLogError() << ParseXmlWrap::parseLogPrefix(lNode) <<
                 "Layer with name \"" << layer->parseName() << "\" has already been "
                 "defined within the same frame.";
+            return false;
         }
 
         if (layer->parseKind() == ParseLayerImpl::ParseKind::Payload) {
-- 
2.43.0


From ea9185d8179e0e7b0168437bbdd5d1b756fecd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:21 +0000
Subject: [PATCH 11/58] fix: message ids have to be unique in nested namespaces
 too

---
 lib/src/parse/ParseNamespaceImpl.cpp | 16 +++++++++++-----
 lib/src/parse/ParseNamespaceImpl.h   |  1 +
 lib/src/parse/ParseSchemaImpl.cpp    | 11 +----------
 3 files changed, 13 insertions(+), 15 deletions(-)

diff --git a/lib/src/parse/ParseNamespaceImpl.cpp b/lib/src/parse/ParseNamespaceImpl.cpp
index 43caaea..a6c62e8 100644
--- a/lib/src/parse/ParseNamespaceImpl.cpp
+++ b/lib/src/parse/ParseNamespaceImpl.cpp
@@ -219,6 +219,16 @@ ParseNamespaceImpl::ParseMessagesList ParseNamespaceImpl::parseMessagesList() co
     return result;
 }
 
+ParseNamespaceImpl::ParseMessagesList ParseNamespaceImpl::parseAllMessagesList() const
+{
+    ParseMessagesList result = parseMessagesList();
+    for (auto& ns : m_namespaces) {
+        auto nsMsgs = ns.second->parseAllMessagesList();
+        result.insert(result.end(), nsMsgs.begin(), nsMsgs.end());
+    }
+    return result;
+}
+
 ParseNamespaceImpl::ParseInterfacesList ParseNamespaceImpl::parseInterfacesList() const
 {
     ParseInterfacesList result;
@@ -451,11 +461,7 @@ ParseNamespaceImpl::ParseFieldRefInfosList ParseNamespaceImpl::parseProcessInter
 
 bool ParseNamespaceImpl::parseValidateAllMessages(bool allowNonUniquIds)
 {
-    ParseMessagesList allMsgs = parseMessagesList();
-    for (auto& ns : m_namespaces) {
-        auto nsMsgs = ns.second->parseMessagesList();
-        allMsgs.insert(allMsgs.end(), nsMsgs.begin(), nsMsgs.end());
-    }
+    ParseMessagesList allMsgs = parseAllMessagesList();
 
     std::sort(
         allMsgs.begin(), allMsgs.end(),
diff --git a/lib/src/parse/ParseNamespaceImpl.h b/lib/src/parse/ParseNamespaceImpl.h
index d737768..41a5e90 100644
--- a/lib/src/parse/ParseNamespaceImpl.h
+++ b/lib/src/parse/ParseNamespaceImpl.h
@@ -132,6 +132,7 @@ public:
     ParseNamespacesList parseNamespacesList() const;
     ParseFieldsList parseFieldsList() const;
     ParseMessagesList parseMessagesList() const;
+    ParseMessagesList parseAllMessagesList() const;
     ParseInterfacesList parseInterfacesList() const;
     ParseFramesList parseFramesList() const;
 
diff --git a/lib/src/parse/ParseSchemaImpl.cpp b/lib/src/parse/ParseSchemaImpl.cpp
index ea0be48..3220175 100644
--- a/lib/src/parse/ParseSchemaImpl.cpp
+++ b/lib/src/parse/ParseSchemaImpl.cpp
@@ -137,18 +137,9 @@ const ParseInterfaceImpl* ParseSchemaImpl::parseFindInterface(const std::string&
 
 ParseSchemaImpl::ParseMessagesList ParseSchemaImpl::parseAllMessages() const
 {
-    auto total =
-        std::accumulate(
-            m_namespaces.begin(), m_namespaces.end(), static_cast<std::size_t>(0U),
-            [](std::size_t soFar, auto& ns) -> std::size_t
-            {
-                return soFar + ns.second->parseMessages().size();
-            });
-
     ParseNamespaceImpl::ParseMessagesList messages;
-    messages.reserve(total);
     for (auto& ns : m_namespaces) {
-        auto nsMsgs = ns.second->parseMessagesList();
+        auto nsMsgs = ns.second->parseAllMessagesList();
         messages.insert(messages.end(), nsMsgs.begin(), nsMsgs.end());
     }
 
-- 
2.43.0


From 3d2d8ef474a1f1676413bd340ce4c7c355846021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:05 +0000
Subject: [PATCH 12/58] fix: keep a valid (empty) "from" of the sync layer when
 it is not supported by the dslVersion

---
 lib/src/parse/ParseSyncLayerImpl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/parse/ParseSyncLayerImpl.cpp b/lib/src/parse/ParseSyncLayerImpl.cpp
index d49a7d2..3ec342b 100644
--- a/lib/src/parse/ParseSyncLayerImpl.cpp
+++ b/lib/src/parse/ParseSyncLayerImpl.cpp
@@ -200,7 +200,7 @@ bool ParseSyncLayerImpl::parseUpdateVerifyBeforeReadInternal()
     if (!parseProtocol().parseIsSyncSuffixLayerSupported()) {
         parseLogWarning() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
             "Property \"" << prop << "\" of <sync> layer is not supported for selected dslVersion, ignoring...";
-        m_from = nullptr;
+        m_from = &common::parseEmptyString();
         return true;
     }
 
@@ -235,7 +235,7 @@ bool ParseSyncLayerImpl::parseUpdateFromInternal()
     if (!parseProtocol().parseIsSyncSuffixLayerSupported()) {
         parseLogWarning() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
             "Property \"" << prop << "\" of <sync> layer is not supported for selected dslVersion, ignoring...";
-        m_from = nullptr;
+        m_from = &common::parseEmptyString();
         return true;
     }
 
-- 
2.43.0


From d5496396c370f3df881316a454cddb8953d4fe6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:46 +0000
Subject: [PATCH 13/58] fix: an enum could inherit several names of one value
 and forbid non-unique values

---
 lib/src/parse/ParseEnumFieldImpl.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/lib/src/parse/ParseEnumFieldImpl.cpp b/lib/src/parse/ParseEnumFieldImpl.cpp
index 7908d9a..e730a02 100644
--- a/lib/src/parse/ParseEnumFieldImpl.cpp
+++ b/lib/src/parse/ParseEnumFieldImpl.cpp
@@ -388,7 +388,19 @@ bool ParseEnumFieldImpl::parseUpdateBitLength()
 
 bool ParseEnumFieldImpl::parseUpdateNonUniqueAllowed()
 {
-    return parseValidateAndUpdateBoolPropValue(common::parseNonUniqueAllowedStr(), m_state.m_nonUniqueAllowed);
+    bool wasUnique = parseIsUnique();
+    if (!parseValidateAndUpdateBoolPropValue(common::parseNonUniqueAllowedStr(), m_state.m_nonUniqueAllowed)) {
+        return false;
+    }
+
+    if ((!wasUnique) && (!m_state.m_nonUniqueAllowed)) {
+        parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
+            "Cannot clear \"" << common::parseNonUniqueAllowedStr() << "\" property value "
+            "while having multiple names for the same value(s).";
+        return false;
+    }
+
+    return true;
 }
 
 bool ParseEnumFieldImpl::parseUpdateValidCheckVersion()
-- 
2.43.0


From 529202af576916b1d7bbb808a6d77fb1ba510ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:46 +0000
Subject: [PATCH 14/58] fix: an empty field child of a layer or an optional
 field took the first element of an empty list

---
 lib/src/parse/ParseLayerImpl.cpp         | 7 +++++++
 lib/src/parse/ParseOptionalFieldImpl.cpp | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/lib/src/parse/ParseLayerImpl.cpp b/lib/src/parse/ParseLayerImpl.cpp
index a15c1e4..dc877cd 100644
--- a/lib/src/parse/ParseLayerImpl.cpp
+++ b/lib/src/parse/ParseLayerImpl.cpp
@@ -567,6 +567,13 @@ bool ParseLayerImpl::parseCheckFieldAsChild()
         }
 
         if (parseProps().find(common::parseFieldStr()) == parseProps().end()) {
+            if (fields.empty()) {
+                parseLogError() << ParseXmlWrap::parseLogPrefix(child) <<
+                    "The \"" << common::parseFieldStr() << "\" node "
+                    "is expected to define field as child element";
+                return false;
+            }
+
             fieldNode = fields.front();
             break;
         }
diff --git a/lib/src/parse/ParseOptionalFieldImpl.cpp b/lib/src/parse/ParseOptionalFieldImpl.cpp
index dafbcdc..6659dbc 100644
--- a/lib/src/parse/ParseOptionalFieldImpl.cpp
+++ b/lib/src/parse/ParseOptionalFieldImpl.cpp
@@ -490,6 +490,13 @@ bool ParseOptionalFieldImpl::parseCheckFieldAsChild()
         }
 
         if (parseProps().find(common::parseFieldStr()) == parseProps().end()) {
+            if (fields.empty()) {
+                parseLogError() << ParseXmlWrap::parseLogPrefix(child) <<
+                    "The \"" << common::parseFieldStr() << "\" node "
+                    "is expected to define field as child element";
+                return false;
+            }
+
             fieldNode = fields.front();
             break;
         }
-- 
2.43.0


From 0f243cc572a2d562930d5998374c85b394390e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:46 +0000
Subject: [PATCH 15/58] fix: an empty reference to a field, message or
 interface aborted on an assertion

---
 lib/src/parse/ParseProtocolImpl.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/lib/src/parse/ParseProtocolImpl.cpp b/lib/src/parse/ParseProtocolImpl.cpp
index 05259e6..ede4e26 100644
--- a/lib/src/parse/ParseProtocolImpl.cpp
+++ b/lib/src/parse/ParseProtocolImpl.cpp
@@ -126,7 +126,10 @@ const ParseSchemaImpl& ParseProtocolImpl::parseCurrSchema() const
 
 const ParseFieldImpl* ParseProtocolImpl::parseFindField(const std::string& ref, bool checkRef) const
 {
-    assert(!ref.empty());
+    if (ref.empty()) {
+        return nullptr;
+    }
+
     auto parsedRef = parseExternalRef(ref);
     if ((parsedRef.first == nullptr) || (parsedRef.second.empty())) {
         return nullptr;
@@ -141,7 +144,10 @@ const ParseFieldImpl* ParseProtocolImpl::parseFindField(const std::string& ref,
 
 const ParseMessageImpl* ParseProtocolImpl::parseFindMessage(const std::string& ref, bool checkRef) const
 {
-    assert(!ref.empty());
+    if (ref.empty()) {
+        return nullptr;
+    }
+
     auto parsedRef = parseExternalRef(ref);
     if ((parsedRef.first == nullptr) || (parsedRef.second.empty())) {
         return nullptr;
@@ -156,7 +162,10 @@ const ParseMessageImpl* ParseProtocolImpl::parseFindMessage(const std::string& r
 
 const ParseInterfaceImpl* ParseProtocolImpl::parseFindInterface(const std::string& ref, bool checkRef) const
 {
-    assert(!ref.empty());
+    if (ref.empty()) {
+        return nullptr;
+    }
+
     auto parsedRef = parseExternalRef(ref);
     if ((parsedRef.first == nullptr) || (parsedRef.second.empty())) {
         return nullptr;
-- 
2.43.0


From 0a4910a82cbe3c6bc71aad82f8414d2a8e30fdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:46 +0000
Subject: [PATCH 16/58] fix: replacing no members of a reused field aborted on
 an assertion

---
 lib/src/parse/ParseFieldImpl.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/src/parse/ParseFieldImpl.cpp b/lib/src/parse/ParseFieldImpl.cpp
index f9e36ad..c439df7 100644
--- a/lib/src/parse/ParseFieldImpl.cpp
+++ b/lib/src/parse/ParseFieldImpl.cpp
@@ -1147,7 +1147,10 @@ bool ParseFieldImpl::parseCheckReplace()
         replMembers.push_back(std::move(field));
     }
 
-    assert(!replMembers.empty());
+    if (replMembers.empty()) {
+        return true;
+    }
+
     return parseReplaceMembersImpl(replMembers);
 }
 
-- 
2.43.0


From d5b49273f620c226b97945dd80a584b026a71692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:46 +0000
Subject: [PATCH 17/58] fix: replacing more than one field of a reused message
 was rejected

---
 lib/src/parse/ParseMessageImpl.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/parse/ParseMessageImpl.cpp b/lib/src/parse/ParseMessageImpl.cpp
index 9e38b02..c13a366 100644
--- a/lib/src/parse/ParseMessageImpl.cpp
+++ b/lib/src/parse/ParseMessageImpl.cpp
@@ -857,7 +857,8 @@ bool ParseMessageImpl::parseReplaceFields()
     }
 
     auto fieldsTypes = ParseXmlWrap::parseGetChildren(replaceNodes.front(), parseMessageSupportedTypes());
-    if (fieldsTypes.size() != replaceNodes.size()) {
+    auto allTypes = ParseXmlWrap::parseGetChildren(replaceNodes.front());
+    if (fieldsTypes.size() != allTypes.size()) {
         parseLogError() << ParseXmlWrap::parseLogPrefix(replaceNodes.front()) <<
             "The \"" << common::parseReplaceStr() << "\" child node of \"" <<
             common::parseMessageStr() << "\" element must contain only supported field types.";
-- 
2.43.0


From 99ef3b139274990812a080ee8584cce882c1c91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:32 +0000
Subject: [PATCH 18/58] fix: a reused set could keep bits beyond a smaller bit
 length of the bitfield member

---
 lib/src/parse/ParseSetFieldImpl.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/src/parse/ParseSetFieldImpl.cpp b/lib/src/parse/ParseSetFieldImpl.cpp
index 57edff8..9fa3a1b 100644
--- a/lib/src/parse/ParseSetFieldImpl.cpp
+++ b/lib/src/parse/ParseSetFieldImpl.cpp
@@ -397,6 +397,15 @@ bool ParseSetFieldImpl::parseUpdateLength()
 
     } while (false);
 
+    for (auto& b : m_state.m_revBits) {
+        if (m_state.m_bitLength <= b.first) {
+            parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
+                          "Number of available bits (" << m_state.m_bitLength << ") does not cover "
+                          "the reused bit \"" << b.second << "\".";
+            return false;
+        }
+    }
+
     if ((m_state.m_length == 0U) && (m_state.m_bitLength != 0U)) {
         m_state.m_length = ((m_state.m_bitLength - 1U) / 8U) + 1U;
     }
-- 
2.43.0


From 4e0e583eb686f636ee9b56c0c8009084678eb8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:22 +0000
Subject: [PATCH 19/58] fix: a set accepted its defaultValue and reservedValue
 given twice

---
 lib/src/parse/ParseSetFieldImpl.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/src/parse/ParseSetFieldImpl.cpp b/lib/src/parse/ParseSetFieldImpl.cpp
index 9fa3a1b..5030520 100644
--- a/lib/src/parse/ParseSetFieldImpl.cpp
+++ b/lib/src/parse/ParseSetFieldImpl.cpp
@@ -468,6 +468,10 @@ bool ParseSetFieldImpl::parseUpdateValidCheckVersion()
 bool ParseSetFieldImpl::parseUpdateDefaultValue()
 {
     auto& propName = common::parseDefaultValueStr();
+    if (!parseValidateSinglePropInstance(propName)) {
+        return false;
+    }
+
     auto iter = parseProps().find(propName);
     if (iter == parseProps().end()) {
         return true;
@@ -484,6 +488,10 @@ bool ParseSetFieldImpl::parseUpdateDefaultValue()
 bool ParseSetFieldImpl::parseUpdateReservedValue()
 {
     auto& propName = common::parseReservedValueStr();
+    if (!parseValidateSinglePropInstance(propName)) {
+        return false;
+    }
+
     auto iter = parseProps().find(propName);
     if (iter == parseProps().end()) {
         return true;
-- 
2.43.0


From 12115eb01e48c78a0d8a56d5a3996e8e75ee9b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:22 +0000
Subject: [PATCH 20/58] fix: properties of a schema and the name of a platform
 were accepted when given twice

---
 lib/src/parse/ParseProtocolImpl.cpp | 4 ++++
 lib/src/parse/ParseSchemaImpl.cpp   | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/lib/src/parse/ParseProtocolImpl.cpp b/lib/src/parse/ParseProtocolImpl.cpp
index ede4e26..b952597 100644
--- a/lib/src/parse/ParseProtocolImpl.cpp
+++ b/lib/src/parse/ParseProtocolImpl.cpp
@@ -710,6 +710,10 @@ bool ParseProtocolImpl::parseValidateSinglePlatform(::xmlNodePtr node)
         return false;
     }
 
+    if (!ParseXmlWrap::parseValidateSinglePropInstance(node, props, common::parseNameStr(), m_logger)) {
+        return false;
+    }
+
     auto iter = props.find(common::parseNameStr());
     if (iter == props.end()) {
         parseLogError() << ParseXmlWrap::parseLogPrefix(node) <<
diff --git a/lib/src/parse/ParseSchemaImpl.cpp b/lib/src/parse/ParseSchemaImpl.cpp
index 3220175..44124d4 100644
--- a/lib/src/parse/ParseSchemaImpl.cpp
+++ b/lib/src/parse/ParseSchemaImpl.cpp
@@ -72,6 +72,12 @@ bool ParseSchemaImpl::parseProcessNode()
         return false;
     }
 
+    for (auto& propName : PropNames) {
+        if (!ParseXmlWrap::parseValidateSinglePropInstance(m_node, m_props, propName, m_protocol.parseLogger())) {
+            return false;
+        }
+    }
+
     if ((!parseUpdateStringProperty(m_props, common::parseNameStr(), m_name)) ||
         (!parseUpdateStringProperty(m_props, common::parseDescriptionStr(), m_description)) ||
         (!parseUpdateUnsignedProperty(m_props, common::parseIdStr(), m_id)) ||
-- 
2.43.0


From 2740ae8e30cedd41f3dac9f45750352601c17292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:15 +0000
Subject: [PATCH 21/58] fix: valid ranges of unsigned 64-bit fields were merged
 as signed numbers

---
 lib/src/parse/ParseIntFieldImpl.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/lib/src/parse/ParseIntFieldImpl.cpp b/lib/src/parse/ParseIntFieldImpl.cpp
index f23a027..ac5e75b 100644
--- a/lib/src/parse/ParseIntFieldImpl.cpp
+++ b/lib/src/parse/ParseIntFieldImpl.cpp
@@ -943,6 +943,16 @@ bool ParseIntFieldImpl::parseUpdateValidRanges()
             return elem1.m_max < elem2.m_max;
         });
 
+    auto isLess =
+        [bigUnsigned](std::intmax_t first, std::intmax_t second)
+        {
+            if (bigUnsigned) {
+                return static_cast<std::uintmax_t>(first) < static_cast<std::uintmax_t>(second);
+            }
+
+            return first < second;
+        };
+
     // Merge
     for (auto iter = m_state.m_validRanges.begin(); iter != m_state.m_validRanges.end(); ++iter) {
         if (iter->m_deprecatedSince == 0U) {
@@ -956,13 +966,15 @@ bool ParseIntFieldImpl::parseUpdateValidRanges()
 
             if ((iter->m_sinceVersion != nextIter->m_sinceVersion) ||
                 (iter->m_deprecatedSince != nextIter->m_deprecatedSince) ||
-                ((iter->m_max + 1) < nextIter->m_min)) {
+                (isLess(iter->m_max, nextIter->m_min) && ((iter->m_max + 1) != nextIter->m_min))) {
                 break;
             }
 
-            assert(iter->m_min <= nextIter->m_min);
+            assert(!isLess(nextIter->m_min, iter->m_min));
             nextIter->m_deprecatedSince = 0U; // invalidate next range
-            iter->m_max = std::max(iter->m_max, nextIter->m_max);
+            if (isLess(iter->m_max, nextIter->m_max)) {
+                iter->m_max = nextIter->m_max;
+            }
         }
     }
 
-- 
2.43.0


From ce7cb15142f99261c0e5c4c2bb1f68bcc9a29f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:43 +0000
Subject: [PATCH 22/58] fix: validMin above (validMax below) the limits of an
 int field produced an inverted range

---
 lib/src/parse/ParseIntFieldImpl.cpp | 45 ++++++++++++++++++++++++-----
 lib/src/parse/ParseIntFieldImpl.h   |  1 +
 2 files changed, 38 insertions(+), 8 deletions(-)

diff --git a/lib/src/parse/ParseIntFieldImpl.cpp b/lib/src/parse/ParseIntFieldImpl.cpp
index ac5e75b..733fb1b 100644
--- a/lib/src/parse/ParseIntFieldImpl.cpp
+++ b/lib/src/parse/ParseIntFieldImpl.cpp
@@ -1412,6 +1412,10 @@ bool ParseIntFieldImpl::parseCheckValidMinAsAttr(const ParseFieldImpl::ParseProp
     }
 
     info.m_max = m_state.m_maxValue;
+    if (!parseValidateRangeLimits(info.m_min, info.m_max, common::parseValidMinStr(), iter->second)) {
+        return false;
+    }
+
     info.m_sinceVersion = parseGetSinceVersion();
     info.m_deprecatedSince = parseGetDeprecated();
 
@@ -1433,6 +1437,10 @@ bool ParseIntFieldImpl::parseCheckValidMinAsChild(::xmlNodePtr child)
     }
 
     info.m_max = m_state.m_maxValue;
+    if (!parseValidateRangeLimits(info.m_min, info.m_max, common::parseValidMinStr(), str)) {
+        return false;
+    }
+
     info.m_sinceVersion = parseGetSinceVersion();
     info.m_deprecatedSince = parseGetDeprecated();
 
@@ -1473,6 +1481,10 @@ bool ParseIntFieldImpl::parseCheckValidMaxAsAttr(const ParseFieldImpl::ParseProp
     }
 
     info.m_min = m_state.m_minValue;
+    if (!parseValidateRangeLimits(info.m_min, info.m_max, common::parseValidMaxStr(), iter->second)) {
+        return false;
+    }
+
     info.m_sinceVersion = parseGetSinceVersion();
     info.m_deprecatedSince = parseGetDeprecated();
 
@@ -1494,6 +1506,10 @@ bool ParseIntFieldImpl::parseCheckValidMaxAsChild(::xmlNodePtr child)
     }
 
     info.m_min = m_state.m_minValue;
+    if (!parseValidateRangeLimits(info.m_min, info.m_max, common::parseValidMaxStr(), str)) {
+        return false;
+    }
+
     info.m_sinceVersion = parseGetSinceVersion();
     info.m_deprecatedSince = parseGetDeprecated();
 
@@ -1544,14 +1560,7 @@ bool ParseIntFieldImpl::parseValidateValidRangeStr(const std::string& str, std::
         return false;
     }
 
-    bool validComparison = (minVal <= maxVal);
-    if (parseIsBigUnsigned(m_state.m_type)) {
-        validComparison = (static_cast<std::uintmax_t>(minVal) <= static_cast<std::uintmax_t>(maxVal));
-    }
-
-    if (!validComparison) {
-        parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
-                      "Min value must be less than max in valid range (" << str << ").";
+    if (!parseValidateRangeLimits(minVal, maxVal, common::parseValidRangeStr(), str)) {
         return false;
     }
 
@@ -1625,6 +1634,26 @@ bool ParseIntFieldImpl::parseValidateValidValueStr(
     return true;
 }
 
+bool ParseIntFieldImpl::parseValidateRangeLimits(
+    std::intmax_t minVal,
+    std::intmax_t maxVal,
+    const std::string& prop,
+    const std::string& str) const
+{
+    bool validComparison = (minVal <= maxVal);
+    if (parseIsBigUnsigned(m_state.m_type)) {
+        validComparison = (static_cast<std::uintmax_t>(minVal) <= static_cast<std::uintmax_t>(maxVal));
+    }
+
+    if (!validComparison) {
+        parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
+                      "Min value must be less than max in the valid range defined by \"" << prop << "\" (" << str << ").";
+        return false;
+    }
+
+    return true;
+}
+
 bool ParseIntFieldImpl::parseStrToValue(
     const std::string& str,
     std::intmax_t& val) const
diff --git a/lib/src/parse/ParseIntFieldImpl.h b/lib/src/parse/ParseIntFieldImpl.h
index a636661..e0aa18b 100644
--- a/lib/src/parse/ParseIntFieldImpl.h
+++ b/lib/src/parse/ParseIntFieldImpl.h
@@ -188,6 +188,7 @@ private:
     bool parseCheckValidMaxProps(const ParsePropsMap& xmlAttrs);
     bool parseValidateValidRangeStr(const std::string& str, std::intmax_t& minVal, std::intmax_t& maxVal);
     bool parseValidateValidValueStr(const std::string& str, const std::string& type, std::intmax_t& val);
+    bool parseValidateRangeLimits(std::intmax_t minVal, std::intmax_t maxVal, const std::string& prop, const std::string& str) const;
     bool parseStrToValue(const std::string& str, std::intmax_t& val) const;
     bool parseUpdateDefaultValueInternal(const std::string& valueStr);
 
-- 
2.43.0


From d72f192bdd42bde377c108840f2f2c808202a493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:52 +0000
Subject: [PATCH 23/58] fix: a special of a reused int field could repeat the
 value of an inherited one

---
 lib/src/parse/ParseIntFieldImpl.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/parse/ParseIntFieldImpl.cpp b/lib/src/parse/ParseIntFieldImpl.cpp
index 733fb1b..106d28f 100644
--- a/lib/src/parse/ParseIntFieldImpl.cpp
+++ b/lib/src/parse/ParseIntFieldImpl.cpp
@@ -1035,6 +1035,10 @@ bool ParseIntFieldImpl::parseUpdateSpecials()
 
     using RecSpecials = std::multimap<std::intmax_t, std::string>;
     RecSpecials recSpecials;
+    for (auto& s : m_state.m_specials) {
+        // The specials may be inherited when the field is reused
+        recSpecials.insert(std::make_pair(s.second.m_value, s.first));
+    }
 
     for (auto* s : specials) {
         static const ParseXmlWrap::ParseNamesList PropNames = {
-- 
2.43.0


From 89f948ee6a11a5bb181399835b24b14cce43cab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:59 +0000
Subject: [PATCH 24/58] fix: no signed overflow when merging valid ranges at
 the signed 64-bit limit

---
 lib/src/parse/ParseIntFieldImpl.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/parse/ParseIntFieldImpl.cpp b/lib/src/parse/ParseIntFieldImpl.cpp
index 106d28f..52e86a8 100644
--- a/lib/src/parse/ParseIntFieldImpl.cpp
+++ b/lib/src/parse/ParseIntFieldImpl.cpp
@@ -966,7 +966,8 @@ bool ParseIntFieldImpl::parseUpdateValidRanges()
 
             if ((iter->m_sinceVersion != nextIter->m_sinceVersion) ||
                 (iter->m_deprecatedSince != nextIter->m_deprecatedSince) ||
-                (isLess(iter->m_max, nextIter->m_min) && ((iter->m_max + 1) != nextIter->m_min))) {
+                (isLess(iter->m_max, nextIter->m_min) &&
+                    ((static_cast<std::uintmax_t>(iter->m_max) + 1U) != static_cast<std::uintmax_t>(nextIter->m_min)))) {
                 break;
             }
 
-- 
2.43.0


From 2bd9a0ffd8882edb99433efead4ed6609adfa5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:31 +0000
Subject: [PATCH 25/58] fix: a bitfield with an empty list of members was
 accepted

---
 lib/src/parse/ParseBitfieldFieldImpl.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/src/parse/ParseBitfieldFieldImpl.cpp b/lib/src/parse/ParseBitfieldFieldImpl.cpp
index c1c9750..446e81f 100644
--- a/lib/src/parse/ParseBitfieldFieldImpl.cpp
+++ b/lib/src/parse/ParseBitfieldFieldImpl.cpp
@@ -340,6 +340,12 @@ bool ParseBitfieldFieldImpl::parseUpdateMembers()
                 return false;
             }
 
+            if (memberFieldsTypes.empty()) {
+                parseLogError() << ParseXmlWrap::parseLogPrefix(membersNodes.front()) <<
+                              "The \"" << common::parseBitparseFieldStr() << "\" must contain member fields.";
+                return false;
+            }
+
             // memberFieldsTypes is updated with the list from <members>
         }
 
-- 
2.43.0


From 59631fc0d6bc85cc1fe53d45a1bac9ad29069f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:31 +0000
Subject: [PATCH 26/58] fix: bit length of a reused ref field was not updated

---
 lib/src/parse/ParseRefFieldImpl.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/lib/src/parse/ParseRefFieldImpl.cpp b/lib/src/parse/ParseRefFieldImpl.cpp
index 959c50e..4255670 100644
--- a/lib/src/parse/ParseRefFieldImpl.cpp
+++ b/lib/src/parse/ParseRefFieldImpl.cpp
@@ -83,7 +83,7 @@ bool ParseRefFieldImpl::parseImpl()
     if (propsIter == parseProps().end()) {
         assert(m_field != nullptr);
         assert(!parseName().empty());
-        return true;
+        return parseUpdateBitLength();
     }
 
     m_field = parseProtocol().parseFindField(propsIter->second);
@@ -236,12 +236,7 @@ bool ParseRefFieldImpl::parseUpdateBitLength()
     assert(0 < parseMaxLength());
     auto maxBitLength = parseMaxLength() * BitsInByte;
     if (valStr.empty()) {
-        if (m_state.m_bitLength == 0) {
-            m_state.m_bitLength = maxBitLength;
-            return true;
-        }
-
-        assert(m_state.m_bitLength <= maxBitLength);
+        m_state.m_bitLength = maxBitLength;
         return true;
     }
 
-- 
2.43.0


From 05c464b271fe9bc3e83ca5d3ca3a45e484bb51cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:31 +0000
Subject: [PATCH 27/58] fix: a bitfield accepted a ref to a field that cannot
 be its member

---
 lib/src/parse/ParseRefFieldImpl.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/src/parse/ParseRefFieldImpl.cpp b/lib/src/parse/ParseRefFieldImpl.cpp
index 4255670..8b53c66 100644
--- a/lib/src/parse/ParseRefFieldImpl.cpp
+++ b/lib/src/parse/ParseRefFieldImpl.cpp
@@ -237,7 +237,11 @@ bool ParseRefFieldImpl::parseUpdateBitLength()
     auto maxBitLength = parseMaxLength() * BitsInByte;
     if (valStr.empty()) {
         m_state.m_bitLength = maxBitLength;
-        return true;
+        if (!parseIsBitfieldMember()) {
+            return true;
+        }
+
+        return m_field->parseValidateBitLengthValue(parseGetNode(), m_state.m_bitLength);
     }
 
     if (!parseIsBitfieldMember()) {
-- 
2.43.0


From bd4af742d10c0c33f329d3ed2104538d34447049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:32 +0000
Subject: [PATCH 28/58] fix: count prefix of a list was treated as an int field
 when it is of another kind

---
 lib/src/parse/ParseListFieldImpl.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/src/parse/ParseListFieldImpl.cpp b/lib/src/parse/ParseListFieldImpl.cpp
index 66e1e0c..f52af6e 100644
--- a/lib/src/parse/ParseListFieldImpl.cpp
+++ b/lib/src/parse/ParseListFieldImpl.cpp
@@ -188,7 +188,10 @@ std::size_t ParseListFieldImpl::parseMaxLengthImpl() const
 
     if (parseHasCountPrefixField()) {
         auto* prefixField = parseGetCountPrefixField();
-        assert(prefixField->parseKind() == ParseField::ParseKind::Int);
+        if (prefixField->parseKind() != ParseField::ParseKind::Int) {
+            return common::parseMaxPossibleLength();
+        }
+
         auto& castedPrefix = static_cast<const ParseIntFieldImpl&>(*prefixField);
         std::size_t count = static_cast<std::size_t>(castedPrefix.parseMaxValue());
         auto result = common::parseMulLength(elemMaxLength, count);
-- 
2.43.0


From 664c116eb5dd61c9d3d9694ef6cfc310239e335f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:32 +0000
Subject: [PATCH 29/58] fix: division by zero for a list with a count prefix
 that can only be zero

---
 lib/src/parse/parse_common.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/parse/parse_common.cpp b/lib/src/parse/parse_common.cpp
index 74db73d..078d049 100644
--- a/lib/src/parse/parse_common.cpp
+++ b/lib/src/parse/parse_common.cpp
@@ -1559,6 +1559,10 @@ void parseAddToLength(std::size_t newLen, std::size_t& accLen)
 
 std::size_t parseMulLength(std::size_t len, std::size_t factor)
 {
+    if (factor == 0U) {
+        return 0U;
+    }
+
     if ((((MaxPossibleLength - 1) / factor) + 1) <= len) {
         return MaxPossibleLength;
     }
-- 
2.43.0


From 19660c1818a655a2a6a81c97117eeaf4c77da086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:51 +0000
Subject: [PATCH 30/58] fix: detached length prefix was accepted together with
 fixed length or zero suffix

---
 lib/src/parse/ParseDataFieldImpl.cpp   | 4 ++--
 lib/src/parse/ParseStringFieldImpl.cpp | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/src/parse/ParseDataFieldImpl.cpp b/lib/src/parse/ParseDataFieldImpl.cpp
index ffcd923..6fa4e4c 100644
--- a/lib/src/parse/ParseDataFieldImpl.cpp
+++ b/lib/src/parse/ParseDataFieldImpl.cpp
@@ -289,7 +289,7 @@ bool ParseDataFieldImpl::parseUpdateLength()
         return true;
     }
 
-    if (parseHasPrefixField()) {
+    if (parseHasPrefixField() || (!m_state.m_detachedPrefixField.empty())) {
         parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
             "Cannot force fixed length after reusing data sequence with length prefix.";
         return false;
@@ -306,7 +306,7 @@ bool ParseDataFieldImpl::parseUpdatePrefix()
         return false;
     }
 
-    if (!parseHasPrefixField()) {
+    if ((!parseHasPrefixField()) && (m_state.m_detachedPrefixField.empty())) {
         return true;
     }
 
diff --git a/lib/src/parse/ParseStringFieldImpl.cpp b/lib/src/parse/ParseStringFieldImpl.cpp
index bc28561..5d49f0d 100644
--- a/lib/src/parse/ParseStringFieldImpl.cpp
+++ b/lib/src/parse/ParseStringFieldImpl.cpp
@@ -335,7 +335,7 @@ bool ParseStringFieldImpl::parseUpdateLength()
         return true;
     }
 
-    if (parseHasPrefixField()) {
+    if (parseHasPrefixField() || (!m_state.m_detachedPrefixField.empty())) {
         parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
             "Cannot force fixed length after reusing string with length prefix.";
         return false;
@@ -358,7 +358,7 @@ bool ParseStringFieldImpl::parseUpdatePrefix()
         return false;
     }
 
-    if (!parseHasPrefixField()) {
+    if ((!parseHasPrefixField()) && (m_state.m_detachedPrefixField.empty())) {
         return true;
     }
 
@@ -410,7 +410,7 @@ bool ParseStringFieldImpl::parseUpdateZeroTerm()
         return false;
     }
 
-    if (parseHasPrefixField()) {
+    if (parseHasPrefixField() || (!m_state.m_detachedPrefixField.empty())) {
         parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
             "Cannot apply zero suffix to strings having length prefix.";
         return false;
-- 
2.43.0


From 6029bd90ef61bd73c520e6e222d56e994fbc2a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:51 +0000
Subject: [PATCH 31/58] fix: detached termination suffix of a list could name a
 field that does not exist

---
 lib/src/parse/ParseListFieldImpl.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/parse/ParseListFieldImpl.cpp b/lib/src/parse/ParseListFieldImpl.cpp
index f52af6e..b99f505 100644
--- a/lib/src/parse/ParseListFieldImpl.cpp
+++ b/lib/src/parse/ParseListFieldImpl.cpp
@@ -118,7 +118,8 @@ bool ParseListFieldImpl::parseVerifySiblingsImpl(const ParseFieldsList& fields)
     return
         parseVerifySiblingsForPrefix(fields, m_state.m_detachedCountPrefixField) &&
         parseVerifySiblingsForPrefix(fields, m_state.m_detachedLengthPrefixField) &&
-        parseVerifySiblingsForPrefix(fields, m_state.m_detachedElemLengthPrefixField);
+        parseVerifySiblingsForPrefix(fields, m_state.m_detachedElemLengthPrefixField) &&
+        parseVerifySiblingsForPrefix(fields, m_state.m_detachedTermSuffixField);
 }
 
 bool ParseListFieldImpl::parseImpl()
-- 
2.43.0


From 7c28a407541f3dbfe15fc068a851c9e3e58e8160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:51 +0000
Subject: [PATCH 32/58] fix: minimal lengths wrapped around instead of
 saturating

---
 lib/src/parse/ParseBundleFieldImpl.cpp | 3 ++-
 lib/src/parse/ParseListFieldImpl.cpp   | 5 +++--
 lib/src/parse/ParseMessageImpl.cpp     | 3 ++-
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/src/parse/ParseBundleFieldImpl.cpp b/lib/src/parse/ParseBundleFieldImpl.cpp
index 43898b3..cc1a0af 100644
--- a/lib/src/parse/ParseBundleFieldImpl.cpp
+++ b/lib/src/parse/ParseBundleFieldImpl.cpp
@@ -214,7 +214,8 @@ std::size_t ParseBundleFieldImpl::parseMinLengthImpl() const
             m_members.begin(), m_members.end(), static_cast<std::size_t>(0U),
             [](std::size_t soFar, auto& m) -> std::size_t
             {
-                return soFar + m->parseMinLength();
+                common::parseAddToLength(m->parseMinLength(), soFar);
+                return soFar;
             });
 }
 
diff --git a/lib/src/parse/ParseListFieldImpl.cpp b/lib/src/parse/ParseListFieldImpl.cpp
index b99f505..51c84bb 100644
--- a/lib/src/parse/ParseListFieldImpl.cpp
+++ b/lib/src/parse/ParseListFieldImpl.cpp
@@ -147,10 +147,11 @@ std::size_t ParseListFieldImpl::parseMinLengthImpl() const
         auto elemMinLength = parseElementField().parseMinLength();
 
         if (!m_state.m_elemFixedLength) {
-            extraLen *= m_state.m_count;
+            extraLen = common::parseMulLength(extraLen, m_state.m_count);
         }
 
-        return (m_state.m_count * elemMinLength) + extraLen;
+        common::parseAddToLength(common::parseMulLength(elemMinLength, m_state.m_count), extraLen);
+        return extraLen;
     }
 
     if (parseHasCountPrefixField()) {
diff --git a/lib/src/parse/ParseMessageImpl.cpp b/lib/src/parse/ParseMessageImpl.cpp
index c13a366..157a65c 100644
--- a/lib/src/parse/ParseMessageImpl.cpp
+++ b/lib/src/parse/ParseMessageImpl.cpp
@@ -163,7 +163,8 @@ std::size_t ParseMessageImpl::parseMinLength() const
                         return soFar;
                     }
 
-                    return soFar + elem->parseMinLength();
+                    common::parseAddToLength(elem->parseMinLength(), soFar);
+                    return soFar;
                 });
 }
 
-- 
2.43.0


From 8597b9ca2f802b7da324197e0833ee57707dbf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:06 +0000
Subject: [PATCH 33/58] fix: total bits of a bitfield with replaced members
 were not verified

---
 lib/src/parse/ParseBitfieldFieldImpl.cpp | 42 ++++++++++++------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/lib/src/parse/ParseBitfieldFieldImpl.cpp b/lib/src/parse/ParseBitfieldFieldImpl.cpp
index 446e81f..31fbd3b 100644
--- a/lib/src/parse/ParseBitfieldFieldImpl.cpp
+++ b/lib/src/parse/ParseBitfieldFieldImpl.cpp
@@ -380,30 +380,30 @@ bool ParseBitfieldFieldImpl::parseUpdateMembers()
         if (!parseValidateMembersNames(m_members)) {
             return false;
         }
+    } while (false);
 
-        auto totalBitLength =
-            std::accumulate(
-                m_members.begin(), m_members.end(), static_cast<std::size_t>(0U),
-                [](std::size_t soFar, auto& elem) -> std::size_t
-                {
-                    return soFar + elem->parseBitLength();
-                });
+    auto totalBitLength =
+        std::accumulate(
+            m_members.begin(), m_members.end(), static_cast<std::size_t>(0U),
+            [](std::size_t soFar, auto& elem) -> std::size_t
+            {
+                return soFar + elem->parseBitLength();
+            });
 
-        if ((totalBitLength % 8U) != 0) {
-            parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
-                          "The summary of member's bit lengths (" << totalBitLength <<
-                          ") is expected to be devisable by 8.";
-            return false;
-        }
+    if ((totalBitLength % 8U) != 0) {
+        parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
+                      "The summary of member's bit lengths (" << totalBitLength <<
+                      ") is expected to be devisable by 8.";
+        return false;
+    }
 
-        static const std::size_t MaxBits = std::numeric_limits<std::uint64_t>::digits;
-        if (MaxBits < totalBitLength) {
-            parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
-                          "The summary of member's bit lengths (" << totalBitLength <<
-                          ") cannot be greater than " << MaxBits << '.';
-            return false;
-        }
-    } while (false);
+    static const std::size_t MaxBits = std::numeric_limits<std::uint64_t>::digits;
+    if (MaxBits < totalBitLength) {
+        parseLogError() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
+                      "The summary of member's bit lengths (" << totalBitLength <<
+                      ") cannot be greater than " << MaxBits << '.';
+        return false;
+    }
 
     return true;
 }
-- 
2.43.0


From f1ef88f9191d61cafccdf4a5eb607f43cf8046e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:11 +0000
Subject: [PATCH 34/58] fix: variable length members of a bitfield were
 accepted when given without a bit length

---
 lib/src/parse/ParseEnumFieldImpl.cpp | 3 +--
 lib/src/parse/ParseIntFieldImpl.cpp  | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/lib/src/parse/ParseEnumFieldImpl.cpp b/lib/src/parse/ParseEnumFieldImpl.cpp
index e730a02..dcfe8cd 100644
--- a/lib/src/parse/ParseEnumFieldImpl.cpp
+++ b/lib/src/parse/ParseEnumFieldImpl.cpp
@@ -357,11 +357,10 @@ bool ParseEnumFieldImpl::parseUpdateBitLength()
         assert(0 < m_state.m_length);
         if (m_state.m_bitLength == 0) {
             m_state.m_bitLength = maxBitLength;
-            return true;
         }
 
         assert(m_state.m_bitLength <= maxBitLength);
-        return true;
+        return (!parseIsBitfieldMember()) || parseValidateBitLengthValue(m_state.m_bitLength);
     }
 
     if (!parseIsBitfieldMember()) {
diff --git a/lib/src/parse/ParseIntFieldImpl.cpp b/lib/src/parse/ParseIntFieldImpl.cpp
index 52e86a8..a3765c4 100644
--- a/lib/src/parse/ParseIntFieldImpl.cpp
+++ b/lib/src/parse/ParseIntFieldImpl.cpp
@@ -624,11 +624,10 @@ bool ParseIntFieldImpl::parseUpdateBitLength()
         assert(0 < m_state.m_length);
         if (m_state.m_bitLength == 0) {
             m_state.m_bitLength = maxBitLength;
-            return true;
         }
 
         assert(m_state.m_bitLength <= maxBitLength);
-        return true;
+        return (!parseIsBitfieldMember()) || parseValidateBitLengthValue(m_state.m_bitLength);
     }
 
     if (!parseIsBitfieldMember()) {
-- 
2.43.0


From 8d977d3481a2970a15f49c1873642ecaafc91b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:18 +0000
Subject: [PATCH 35/58] fix: list element given as a property silently
 discarded a field inside the element child

---
 lib/src/parse/ParseListFieldImpl.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/src/parse/ParseListFieldImpl.cpp b/lib/src/parse/ParseListFieldImpl.cpp
index 51c84bb..56c7e08 100644
--- a/lib/src/parse/ParseListFieldImpl.cpp
+++ b/lib/src/parse/ParseListFieldImpl.cpp
@@ -576,9 +576,9 @@ bool ParseListFieldImpl::parseCheckElementAsChild()
             return false;
         }
 
-        auto attrs = ParseXmlWrap::parseNodeProps(parseGetNode());
-        if (attrs.find(common::parseFieldsStr()) != attrs.end()) {
-            parseLogError() << "There must be only one occurance of \"" << common::parseElementStr() << "\" definition.";
+        if (!fields.empty()) {
+            parseLogError() << ParseXmlWrap::parseLogPrefix(child) <<
+                "There must be only one occurance of \"" << common::parseElementStr() << "\" definition.";
             return false;
         }
 
-- 
2.43.0


From ce83930a73c3d5eb2144f02a9f970ab160388720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:26 +0000
Subject: [PATCH 36/58] fix: properties of a namespace were accepted when given
 twice

---
 lib/src/parse/ParseNamespaceImpl.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/src/parse/ParseNamespaceImpl.cpp b/lib/src/parse/ParseNamespaceImpl.cpp
index a6c62e8..071358d 100644
--- a/lib/src/parse/ParseNamespaceImpl.cpp
+++ b/lib/src/parse/ParseNamespaceImpl.cpp
@@ -92,6 +92,12 @@ bool ParseNamespaceImpl::parseProps()
         return false;
     }
 
+    for (auto& propName : PropNames) {
+        if (!ParseXmlWrap::parseValidateSinglePropInstance(m_node, m_props, propName, m_protocol.parseLogger())) {
+            return false;
+        }
+    }
+
     if ((!parseUpdateStringProperty(m_props, common::parseNameStr(), m_name)) ||
         (!parseUpdateStringProperty(m_props, common::parseDescriptionStr(), m_description)) ||
         (!parseUpdateDisplayName()) ||
-- 
2.43.0


From 819aaee4bbe75e8fb7eed0b25c9d42ff968b11c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:26 +0000
Subject: [PATCH 37/58] fix: a property element with both a value and a text
 was accepted although an error was reported

---
 lib/src/parse/ParseXmlWrap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parse/ParseXmlWrap.cpp b/lib/src/parse/ParseXmlWrap.cpp
index abc904e..0ea1607 100644
--- a/lib/src/parse/ParseXmlWrap.cpp
+++ b/lib/src/parse/ParseXmlWrap.cpp
@@ -185,7 +185,7 @@ bool ParseXmlWrap::parseChildrenAsProps(
         }
 
         std::string value;
-        if ((!parseNodeValue(c, logger, value, mustHaveValue)) && (mustHaveValue)) {
+        if (!parseNodeValue(c, logger, value, mustHaveValue)) {
             return false;
         }
 
-- 
2.43.0


From ab632f6b07c157fb9675e3c8d0191a06623bcc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:39 +0000
Subject: [PATCH 38/58] fix: endian of a reused float field was replaced by the
 default of the schema

---
 lib/src/parse/ParseFloatFieldImpl.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/parse/ParseFloatFieldImpl.cpp b/lib/src/parse/ParseFloatFieldImpl.cpp
index 539e57a..e4af283 100644
--- a/lib/src/parse/ParseFloatFieldImpl.cpp
+++ b/lib/src/parse/ParseFloatFieldImpl.cpp
@@ -319,6 +319,10 @@ bool ParseFloatFieldImpl::parseUpdateEndian()
     }
 
     auto& endianStr = common::parseGetStringProp(parseProps(), common::parseEndianStr());
+    if ((endianStr.empty()) && (m_state.m_endian != ParseEndian_NumOfValues)) {
+        return true;
+    }
+
     m_state.m_endian = common::parseEndian(endianStr, parseProtocol().parseCurrSchema().parseEndian());
     if (m_state.m_endian == ParseEndian_NumOfValues) {
         parseReportUnexpectedPropertyValue(common::parseEndianStr(), endianStr);
-- 
2.43.0


From 1f862f1e7c094e0f772203ab0706706cbdc51eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:26 +0000
Subject: [PATCH 39/58] fix: comparison of a size with something not a number
 was accepted, or refused without a message

---
 lib/src/parse/ParseOptCondImpl.cpp | 20 +++++++++++---------
 lib/src/parse/ParseOptCondImpl.h   |  2 +-
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/lib/src/parse/ParseOptCondImpl.cpp b/lib/src/parse/ParseOptCondImpl.cpp
index 88e2d7a..9c26618 100644
--- a/lib/src/parse/ParseOptCondImpl.cpp
+++ b/lib/src/parse/ParseOptCondImpl.cpp
@@ -443,7 +443,7 @@ bool ParseOptCondExprImpl::parseVerifySiblingComparison(const ParseOptCondImpl::
             return false;
         }
 
-        return parseVerifyValidSizeValueComparison();
+        return parseVerifyValidSizeValueComparison(node, protocol);
     }
 
     if (leftInfo.m_refType != ParseFieldImpl::FieldRefType_Field) {
@@ -523,7 +523,7 @@ bool ParseOptCondExprImpl::parseVerifyInterfaceComparison(const ParseFieldsList&
             return false;
         }
 
-        return parseVerifyValidSizeValueComparison();
+        return parseVerifyValidSizeValueComparison(node, protocol);
     }
 
     parseDiscardNonFieldReferences(leftFields);
@@ -619,16 +619,18 @@ bool ParseOptCondExprImpl::parseVerifyInterfaceComparison(const ParseFieldsList&
     return true;
 }
 
-bool ParseOptCondExprImpl::parseVerifyValidSizeValueComparison() const
+bool ParseOptCondExprImpl::parseVerifyValidSizeValueComparison(::xmlNodePtr node, const ParseProtocolImpl& protocol) const
 {
-    try {
-        [[maybe_unused]] auto val = std::stoll(m_right);
-        return true;
-    } catch (...) {
-        // Do nothing
+    bool ok = false;
+    common::parseStrToIntMax(m_right, &ok);
+    if (!ok) {
+        parseLogError(protocol.parseLogger()) << ParseXmlWrap::parseLogPrefix(node) <<
+            "The size of the field dereferenced by \"" << m_left << "\" can be compared only to a numeric value, "
+            "\"" << m_right << "\" is not valid.";
+        return false;
     }
 
-    return false;
+    return true;
 }
 
 ParseOptCondListImpl::ParseOptCondListImpl(const ParseOptCondListImpl& other)
diff --git a/lib/src/parse/ParseOptCondImpl.h b/lib/src/parse/ParseOptCondImpl.h
index d9bc64c..1c11d26 100644
--- a/lib/src/parse/ParseOptCondImpl.h
+++ b/lib/src/parse/ParseOptCondImpl.h
@@ -129,7 +129,7 @@ private:
     bool parseVerifyComparison(const ParseFieldsList& fields, ::xmlNodePtr node, const ParseProtocolImpl& protocol) const;
     bool parseVerifySiblingComparison(const ParseFieldsList& fields, ::xmlNodePtr node, const ParseProtocolImpl& protocol) const;
     bool parseVerifyInterfaceComparison(const ParseFieldsList& fields, ::xmlNodePtr node, const ParseProtocolImpl& protocol) const;
-    bool parseVerifyValidSizeValueComparison() const;
+    bool parseVerifyValidSizeValueComparison(::xmlNodePtr node, const ParseProtocolImpl& protocol) const;
 
     std::string m_left;
     std::string m_op;
-- 
2.43.0


From e7d829f1aafe619364f186bb19a33cd9f9bfd2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:26 +0000
Subject: [PATCH 40/58] fix: conditions were not verified again after <replace>
 changed the fields they refer to

---
 lib/src/parse/ParseBitfieldFieldImpl.cpp | 13 ++++++++++++-
 lib/src/parse/ParseBitfieldFieldImpl.h   |  1 +
 lib/src/parse/ParseBundleFieldImpl.cpp   | 15 +++++++++++++--
 lib/src/parse/ParseBundleFieldImpl.h     |  1 +
 lib/src/parse/ParseFieldImpl.cpp         | 17 +++++++++++++++++
 lib/src/parse/ParseFieldImpl.h           |  2 ++
 lib/src/parse/ParseMessageImpl.cpp       | 17 ++++++++++++-----
 lib/src/parse/ParseMessageImpl.h         |  1 +
 8 files changed, 59 insertions(+), 8 deletions(-)

diff --git a/lib/src/parse/ParseBitfieldFieldImpl.cpp b/lib/src/parse/ParseBitfieldFieldImpl.cpp
index 31fbd3b..029c4f0 100644
--- a/lib/src/parse/ParseBitfieldFieldImpl.cpp
+++ b/lib/src/parse/ParseBitfieldFieldImpl.cpp
@@ -147,7 +147,8 @@ bool ParseBitfieldFieldImpl::parseImpl()
         parseUpdateMembers() &&
         parseCopyValidCond() &&
         parseUpdateSingleValidCond() &&
-        parseUpdateMultiValidCond();
+        parseUpdateMultiValidCond() &&
+        parseVerifyReusedValidCond();
 }
 
 bool ParseBitfieldFieldImpl::parseReplaceMembersImpl(ParseFieldsList& members)
@@ -471,6 +472,16 @@ bool ParseBitfieldFieldImpl::parseCopyValidCond()
     return true;
 }
 
+bool ParseBitfieldFieldImpl::parseVerifyReusedValidCond()
+{
+    if ((!m_validCond) ||
+        (ParseXmlWrap::parseGetChildren(parseGetNode(), common::parseReplaceStr()).empty())) {
+        return true;
+    }
+
+    return m_validCond->parseVerify(m_members, parseGetNode(), parseProtocol());
+}
+
 bool ParseBitfieldFieldImpl::parseUpdateSingleCondInternal(const std::string& prop, ParseOptCondImplPtr& cond)
 {
     if (!parseValidateSinglePropInstance(prop)) {
diff --git a/lib/src/parse/ParseBitfieldFieldImpl.h b/lib/src/parse/ParseBitfieldFieldImpl.h
index 0323087..901a3a4 100644
--- a/lib/src/parse/ParseBitfieldFieldImpl.h
+++ b/lib/src/parse/ParseBitfieldFieldImpl.h
@@ -74,6 +74,7 @@ private:
     bool parseUpdateMembers();
     bool parseUpdateSingleValidCond();
     bool parseUpdateMultiValidCond();
+    bool parseVerifyReusedValidCond();
     bool parseCopyValidCond();
 
     bool parseUpdateSingleCondInternal(const std::string& prop, ParseOptCondImplPtr& cond);
diff --git a/lib/src/parse/ParseBundleFieldImpl.cpp b/lib/src/parse/ParseBundleFieldImpl.cpp
index cc1a0af..8c2d735 100644
--- a/lib/src/parse/ParseBundleFieldImpl.cpp
+++ b/lib/src/parse/ParseBundleFieldImpl.cpp
@@ -179,7 +179,8 @@ bool ParseBundleFieldImpl::parseImpl()
         parseUpdateAliases() &&
         parseCopyValidCond() &&
         parseUpdateSingleValidCond() &&
-        parseUpdateMultiValidCond();
+        parseUpdateMultiValidCond() &&
+        parseVerifyReusedValidCond();
 }
 
 bool ParseBundleFieldImpl::parseReplaceMembersImpl(ParseFieldsList& members)
@@ -204,7 +205,7 @@ bool ParseBundleFieldImpl::parseReplaceMembersImpl(ParseFieldsList& members)
         (*iter) = std::move(mem);
     }
 
-    return true;
+    return parseVerifyAllSiblings(m_members);
 }
 
 std::size_t ParseBundleFieldImpl::parseMinLengthImpl() const
@@ -562,6 +563,16 @@ bool ParseBundleFieldImpl::parseCopyValidCond()
     return true;
 }
 
+bool ParseBundleFieldImpl::parseVerifyReusedValidCond()
+{
+    if ((!m_validCond) ||
+        (ParseXmlWrap::parseGetChildren(parseGetNode(), common::parseReplaceStr()).empty())) {
+        return true;
+    }
+
+    return m_validCond->parseVerify(m_members, parseGetNode(), parseProtocol());
+}
+
 bool ParseBundleFieldImpl::parseUpdateSingleCondInternal(const std::string& prop, ParseOptCondImplPtr& cond)
 {
     if (!parseValidateSinglePropInstance(prop)) {
diff --git a/lib/src/parse/ParseBundleFieldImpl.h b/lib/src/parse/ParseBundleFieldImpl.h
index bb1a417..ca6eb45 100644
--- a/lib/src/parse/ParseBundleFieldImpl.h
+++ b/lib/src/parse/ParseBundleFieldImpl.h
@@ -85,6 +85,7 @@ private:
     bool parseUpdateAliases();
     bool parseUpdateSingleValidCond();
     bool parseUpdateMultiValidCond();
+    bool parseVerifyReusedValidCond();
     bool parseCopyValidCond();
 
     bool parseUpdateSingleCondInternal(const std::string& prop, ParseOptCondImplPtr& cond);
diff --git a/lib/src/parse/ParseFieldImpl.cpp b/lib/src/parse/ParseFieldImpl.cpp
index c439df7..18c10e7 100644
--- a/lib/src/parse/ParseFieldImpl.cpp
+++ b/lib/src/parse/ParseFieldImpl.cpp
@@ -1097,6 +1097,23 @@ bool ParseFieldImpl::parseCheckReuse()
     return parseReuseImpl(*field);
 }
 
+bool ParseFieldImpl::parseVerifyAllSiblings(ParseFieldsList& fields)
+{
+    ParseFieldsList verified;
+    verified.reserve(fields.size());
+    for (auto& f : fields) {
+        assert(f);
+        if (!f->parseVerifySiblings(verified)) {
+            return false;
+        }
+
+        verified.push_back(std::move(f));
+    }
+
+    fields = std::move(verified);
+    return true;
+}
+
 bool ParseFieldImpl::parseCheckReplace()
 {
     auto replaceNodes = ParseXmlWrap::parseGetChildren(parseGetNode(), common::parseReplaceStr());
diff --git a/lib/src/parse/ParseFieldImpl.h b/lib/src/parse/ParseFieldImpl.h
index 4c58557..0ab92c7 100644
--- a/lib/src/parse/ParseFieldImpl.h
+++ b/lib/src/parse/ParseFieldImpl.h
@@ -83,6 +83,8 @@ public:
         return parseVerifySiblingsImpl(fields);
     }
 
+    static bool parseVerifyAllSiblings(ParseFieldsList& fields);
+
     const ParsePropsMap& parseProps() const
     {
         return m_props;
diff --git a/lib/src/parse/ParseMessageImpl.cpp b/lib/src/parse/ParseMessageImpl.cpp
index 157a65c..9f4c699 100644
--- a/lib/src/parse/ParseMessageImpl.cpp
+++ b/lib/src/parse/ParseMessageImpl.cpp
@@ -131,6 +131,7 @@ bool ParseMessageImpl::parse()
         parseUpdateMultiReadCond() &&
         parseUpdateSingleValidCond() &&
         parseUpdateMultiValidCond() &&
+        parseVerifyReusedValidCond() &&
         parseCopyConstructToReadCond() &&
         parseCopyConstructToValidCond() &&
         parseUpdateExtraAttrs() &&
@@ -884,10 +885,6 @@ bool ParseMessageImpl::parseReplaceFields()
             return false;
         }
 
-        if (!field->parseVerifySiblings(m_state.m_fields)) {
-            return false;
-        }
-
         replMembers.push_back(std::move(field));
     }
 
@@ -911,7 +908,7 @@ bool ParseMessageImpl::parseReplaceFields()
         (*iter) = std::move(field);
     }
 
-    return true;
+    return ParseFieldImpl::parseVerifyAllSiblings(m_state.m_fields);
 }
 
 bool ParseMessageImpl::parseCopyAliases()
@@ -1424,6 +1421,16 @@ bool ParseMessageImpl::parseUpdateMultiValidCond()
     return parseUpdateMultiCondInternal(common::parseValidCondStr(), m_state.m_validCond, true);
 }
 
+bool ParseMessageImpl::parseVerifyReusedValidCond()
+{
+    if ((!m_state.m_validCond) ||
+        (ParseXmlWrap::parseGetChildren(m_node, common::parseReplaceStr()).empty())) {
+        return true;
+    }
+
+    return m_state.m_validCond->parseVerify(m_state.m_fields, m_node, m_protocol);
+}
+
 bool ParseMessageImpl::parseCopyConstructToReadCond()
 {
     return
diff --git a/lib/src/parse/ParseMessageImpl.h b/lib/src/parse/ParseMessageImpl.h
index ad2925a..60dcf7e 100644
--- a/lib/src/parse/ParseMessageImpl.h
+++ b/lib/src/parse/ParseMessageImpl.h
@@ -322,6 +322,7 @@ private:
     bool parseUpdateMultiReadCond();
     bool parseUpdateSingleValidCond();
     bool parseUpdateMultiValidCond();
+    bool parseVerifyReusedValidCond();
     bool parseCopyConstructToReadCond();
     bool parseCopyConstructToValidCond();
     bool parseUpdateExtraAttrs();
-- 
2.43.0


From 8669271aa1ce106bdcb67fb51d69f77892cbba25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:20 +0000
Subject: [PATCH 41/58] fix: entities placed beside nested namespaces of the
 same name shared their scope and file

---
 lib/src/gen/comms.cpp | 59 +++++++++++++++++--------------------------
 1 file changed, 23 insertions(+), 36 deletions(-)

diff --git a/lib/src/gen/comms.cpp b/lib/src/gen/comms.cpp
index 4343d97..f0b308e 100644
--- a/lib/src/gen/comms.cpp
+++ b/lib/src/gen/comms.cpp
@@ -287,6 +287,20 @@ std::string genCommonScopeForInternal(
     return result;
 }
 
+std::vector<std::string> genNamespaceSubElems(
+    const GenNamespace& ns,
+    const GenGenerator& generator,
+    const std::string& sep)
+{
+    // The outer namespaces are part of the scope / path as well
+    std::vector<std::string> result;
+    auto scope = genScopeForInternal(ns, generator, false, true, sep);
+    if (!scope.empty()) {
+        result.push_back(std::move(scope));
+    }
+    return result;
+}
+
 } // namespace
 
 std::string genClassName(const std::string& name)
@@ -372,10 +386,7 @@ std::string genScopeForInput(
     bool addMainNamespace,
     bool addElement)
 {
-    std::vector<std::string> subElems;
-    if (!ns.genName().empty()) {
-        subElems.push_back(ns.genName());
-    }
+    auto subElems = genNamespaceSubElems(ns, generator, GenScopeSep);
     subElems.push_back(strings::genInputNamespaceStr());
 
     return genScopeForElement(name, generator, subElems, addMainNamespace, addElement);
@@ -388,10 +399,7 @@ std::string genScopeForFactory(
     bool addMainNamespace,
     bool addElement)
 {
-    std::vector<std::string> subElems;
-    if (!ns.genName().empty()) {
-        subElems.push_back(ns.genName());
-    }
+    auto subElems = genNamespaceSubElems(ns, generator, GenScopeSep);
     subElems.push_back(strings::genFactoryNamespaceStr());
 
     return genScopeForElement(name, generator, subElems, addMainNamespace, addElement);
@@ -404,10 +412,7 @@ std::string genScopeForDispatch(
     bool addMainNamespace,
     bool addElement)
 {
-    std::vector<std::string> subElems;
-    if (!ns.genName().empty()) {
-        subElems.push_back(ns.genName());
-    }
+    auto subElems = genNamespaceSubElems(ns, generator, GenScopeSep);
     subElems.push_back(strings::genCispatchNamespaceStr());
 
     return genScopeForElement(name, generator, subElems, addMainNamespace, addElement);
@@ -431,10 +436,7 @@ std::string genScopeForNamespaceMember(
     bool addMainNamespace,
     bool addElement)
 {
-    std::vector<std::string> subElems;
-    if (!ns.genName().empty()) {
-        subElems.push_back(ns.genName());
-    }
+    auto subElems = genNamespaceSubElems(ns, generator, GenScopeSep);
 
     return genScopeForElement(name, generator, subElems, addMainNamespace, addElement);
 }
@@ -511,10 +513,7 @@ std::string genRelHeaderForOptions(const std::string& name, const GenGenerator&
 
 std::string genRelHeaderForDispatch(const std::string& name, const GenGenerator& generator, const GenNamespace& ns)
 {
-    std::vector<std::string> subElems;
-    if (!ns.genName().empty()) {
-        subElems.push_back(ns.genName());
-    }
+    auto subElems = genNamespaceSubElems(ns, generator, GenPathSep);
 
     subElems.push_back(strings::genCispatchNamespaceStr());
     return genScopeForElement(name, generator, subElems, true, true, GenPathSep) + strings::genCppHeaderSuffixStr();
@@ -522,10 +521,7 @@ std::string genRelHeaderForDispatch(const std::string& name, const GenGenerator&
 
 std::string genRelHeaderForFactory(const std::string& name, const GenGenerator& generator, const GenNamespace& ns)
 {
-    std::vector<std::string> subElems;
-    if (!ns.genName().empty()) {
-        subElems.push_back(ns.genName());
-    }
+    auto subElems = genNamespaceSubElems(ns, generator, GenPathSep);
 
     subElems.push_back(strings::genFactoryNamespaceStr());
     return genScopeForElement(name, generator, subElems, true, true, GenPathSep) + strings::genCppHeaderSuffixStr();
@@ -539,20 +535,14 @@ std::string genRelHeaderForMsgId(const std::string& name, const GenGenerator& ge
 
 std::string genRelHeaderForNamespaceMember(const std::string& name, const GenGenerator& generator, const GenNamespace& ns, bool addMainNamespace)
 {
-    std::vector<std::string> subElems;
-    if (!ns.genName().empty()) {
-        subElems.push_back(ns.genName());
-    }
+    auto subElems = genNamespaceSubElems(ns, generator, GenPathSep);
 
     return genScopeForElement(name, generator, subElems, addMainNamespace, true, GenPathSep) + strings::genCppHeaderSuffixStr();
 }
 
 std::string genRelSourceForNamespaceMember(const std::string& name, const GenGenerator& generator, const GenNamespace& ns, bool addMainNamespace)
 {
-    std::vector<std::string> subElems;
-    if (!ns.genName().empty()) {
-        subElems.push_back(ns.genName());
-    }
+    auto subElems = genNamespaceSubElems(ns, generator, GenPathSep);
 
     return genScopeForElement(name, generator, subElems, addMainNamespace, true, GenPathSep) + strings::genCppSourceSuffixStr();
 }
@@ -579,10 +569,7 @@ std::string genRelHeaderForChecksum(const std::string& name, const GenGenerator&
 
 std::string genRelHeaderForInput(const std::string& name, const GenGenerator& generator, const GenNamespace& ns, bool addMainNamespace)
 {
-    std::vector<std::string> subElems;
-    if (!ns.genName().empty()) {
-        subElems.push_back(ns.genName());
-    }
+    auto subElems = genNamespaceSubElems(ns, generator, GenPathSep);
 
     subElems.push_back(strings::genInputNamespaceStr());
 
-- 
2.43.0


From f91d4c7c5a11c03313dd7f5e029c4298642f7724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:20 +0000
Subject: [PATCH 42/58] fix: code to inject into the message factory was looked
 for under the main namespace twice

---
 lib/include/commsdsl/gen/comms.h | 2 +-
 lib/src/gen/comms.cpp            | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/include/commsdsl/gen/comms.h b/lib/include/commsdsl/gen/comms.h
index b3629e4..2231434 100644
--- a/lib/include/commsdsl/gen/comms.h
+++ b/lib/include/commsdsl/gen/comms.h
@@ -120,7 +120,7 @@ std::string genRelCommonHeaderPathFor(const GenElem& elem, const GenGenerator& g
 std::string genRelHeaderPathForField(const std::string& name, const GenGenerator& generator);
 std::string genRelHeaderForOptions(const std::string& name, const GenGenerator& generator, bool addMainNamespace = true);
 std::string genRelHeaderForDispatch(const std::string& name, const GenGenerator& generator, const GenNamespace& ns);
-std::string genRelHeaderForFactory(const std::string& name, const GenGenerator& generator, const GenNamespace& ns);
+std::string genRelHeaderForFactory(const std::string& name, const GenGenerator& generator, const GenNamespace& ns, bool addMainNamespace = true);
 std::string genRelHeaderForMsgId(const std::string& name, const GenGenerator& generator, const GenNamespace& ns);
 std::string genRelHeaderForNamespaceMember(const std::string& name, const GenGenerator& generator, const GenNamespace& ns, bool addMainNamespace = true);
 std::string genRelSourceForNamespaceMember(const std::string& name, const GenGenerator& generator, const GenNamespace& ns, bool addMainNamespace = true);
diff --git a/lib/src/gen/comms.cpp b/lib/src/gen/comms.cpp
index f0b308e..b8c2bb2 100644
--- a/lib/src/gen/comms.cpp
+++ b/lib/src/gen/comms.cpp
@@ -519,12 +519,12 @@ std::string genRelHeaderForDispatch(const std::string& name, const GenGenerator&
     return genScopeForElement(name, generator, subElems, true, true, GenPathSep) + strings::genCppHeaderSuffixStr();
 }
 
-std::string genRelHeaderForFactory(const std::string& name, const GenGenerator& generator, const GenNamespace& ns)
+std::string genRelHeaderForFactory(const std::string& name, const GenGenerator& generator, const GenNamespace& ns, bool addMainNamespace)
 {
     auto subElems = genNamespaceSubElems(ns, generator, GenPathSep);
 
     subElems.push_back(strings::genFactoryNamespaceStr());
-    return genScopeForElement(name, generator, subElems, true, true, GenPathSep) + strings::genCppHeaderSuffixStr();
+    return genScopeForElement(name, generator, subElems, addMainNamespace, true, GenPathSep) + strings::genCppHeaderSuffixStr();
 }
 
 // TODO: remove
@@ -720,7 +720,7 @@ std::string genInputCodeRelPathForFactory(const std::string& name, const GenGene
     return
         strings::genIncludeDirStr() + '/' +
         generator.genCurrentSchema().genOrigNamespace() + '/' +
-        comms::genRelHeaderForFactory(name, generator, ns);
+        comms::genRelHeaderForFactory(name, generator, ns, false);
 }
 
 std::string genInputCodeAbsPathForFactory(const std::string& name, const GenGenerator& generator, const GenNamespace& ns)
-- 
2.43.0


From 8ed5752325cfbf20339b245176b72cc31ce8e0f1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 06:20:09 +0000
Subject: [PATCH 43/58] fix: unknown kind of a prefix or replacing field
 aborted on an assertion

---
 lib/src/parse/ParseDataFieldImpl.cpp   | 4 ++--
 lib/src/parse/ParseFieldImpl.cpp       | 6 ++----
 lib/src/parse/ParseListFieldImpl.cpp   | 4 ++--
 lib/src/parse/ParseStringFieldImpl.cpp | 4 ++--
 4 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/lib/src/parse/ParseDataFieldImpl.cpp b/lib/src/parse/ParseDataFieldImpl.cpp
index 6fa4e4c..4fe90a6 100644
--- a/lib/src/parse/ParseDataFieldImpl.cpp
+++ b/lib/src/parse/ParseDataFieldImpl.cpp
@@ -447,8 +447,8 @@ bool ParseDataFieldImpl::parseCheckPrefixAsChild()
 
     auto field = ParseFieldImpl::parseCreate(fieldKind, fieldNode, parseProtocol());
     if (!field) {
-        [[maybe_unused]] static constexpr bool Should_not_happen = false;
-        assert(Should_not_happen);
+        parseLogError() << ParseXmlWrap::parseLogPrefix(fieldNode) <<
+            "Unknown field type \"" << fieldKind << "\".";
         return false;
     }
 
diff --git a/lib/src/parse/ParseFieldImpl.cpp b/lib/src/parse/ParseFieldImpl.cpp
index 18c10e7..5c6e912 100644
--- a/lib/src/parse/ParseFieldImpl.cpp
+++ b/lib/src/parse/ParseFieldImpl.cpp
@@ -1149,10 +1149,8 @@ bool ParseFieldImpl::parseCheckReplace()
         std::string fieldKind(reinterpret_cast<const char*>(fieldNode->name));
         auto field = ParseFieldImpl::parseCreate(fieldKind, fieldNode, parseProtocol());
         if (!field) {
-            [[maybe_unused]] static constexpr bool Should_not_happen = false;
-            assert(Should_not_happen);
-            parseLogError() << ParseXmlWrap::parseLogPrefix(replaceNodes.front()) <<
-                "Internal error, failed to create objects for member fields to replace.";
+            parseLogError() << ParseXmlWrap::parseLogPrefix(fieldNode) <<
+                "Unknown field type \"" << fieldKind << "\".";
             return false;
         }
 
diff --git a/lib/src/parse/ParseListFieldImpl.cpp b/lib/src/parse/ParseListFieldImpl.cpp
index 56c7e08..c18d533 100644
--- a/lib/src/parse/ParseListFieldImpl.cpp
+++ b/lib/src/parse/ParseListFieldImpl.cpp
@@ -719,8 +719,8 @@ bool ParseListFieldImpl::parseCheckPrefixAsChild(
 
     auto field = ParseFieldImpl::parseCreate(fieldKind, fieldNode, parseProtocol());
     if (!field) {
-        [[maybe_unused]] static constexpr bool Should_not_happen = false;
-        assert(Should_not_happen);
+        parseLogError() << ParseXmlWrap::parseLogPrefix(fieldNode) <<
+            "Unknown field type \"" << fieldKind << "\".";
         return false;
     }
 
diff --git a/lib/src/parse/ParseStringFieldImpl.cpp b/lib/src/parse/ParseStringFieldImpl.cpp
index 5d49f0d..dbc4b5a 100644
--- a/lib/src/parse/ParseStringFieldImpl.cpp
+++ b/lib/src/parse/ParseStringFieldImpl.cpp
@@ -547,8 +547,8 @@ bool ParseStringFieldImpl::parseCheckPrefixAsChild()
 
     auto field = ParseFieldImpl::parseCreate(fieldKind, fieldNode, parseProtocol());
     if (!field) {
-        [[maybe_unused]] static constexpr bool Should_not_happen = false;
-        assert(Should_not_happen);
+        parseLogError() << ParseXmlWrap::parseLogPrefix(fieldNode) <<
+            "Unknown field type \"" << fieldKind << "\".";
         return false;
     }
 
-- 
2.43.0


From 567f002d45eb6e594dae64a6964f01b8022a1bb8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 06:20:09 +0000
Subject: [PATCH 44/58] fix: same valid range given twice to a float field
 aborted on an assertion

---
 lib/src/parse/ParseFloatFieldImpl.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/src/parse/ParseFloatFieldImpl.cpp b/lib/src/parse/ParseFloatFieldImpl.cpp
index e4af283..d3dc582 100644
--- a/lib/src/parse/ParseFloatFieldImpl.cpp
+++ b/lib/src/parse/ParseFloatFieldImpl.cpp
@@ -510,7 +510,6 @@ bool ParseFloatFieldImpl::parseUpdateValidRanges()
                 return elem1.m_sinceVersion < elem2.m_sinceVersion;
             }
 
-            assert(elem1.m_deprecatedSince != elem2.m_deprecatedSince);
             return elem1.m_deprecatedSince < elem2.m_deprecatedSince;
         });
 
-- 
2.43.0


From bf2cc30e83bcf607e489c1d6b07a18eac18cc0ac Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 06:20:09 +0000
Subject: [PATCH 45/58] fix: invalid platform name was rejected without any
 error

---
 lib/src/parse/ParseProtocolImpl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/parse/ParseProtocolImpl.cpp b/lib/src/parse/ParseProtocolImpl.cpp
index b952597..d212ed3 100644
--- a/lib/src/parse/ParseProtocolImpl.cpp
+++ b/lib/src/parse/ParseProtocolImpl.cpp
@@ -725,8 +725,8 @@ bool ParseProtocolImpl::parseValidateSinglePlatform(::xmlNodePtr node)
     static const std::string InvalidChars("+-,");
     auto pos = name.find_first_of(InvalidChars);
     if (pos != std::string::npos) {
-        parseLogWarning() << ParseXmlWrap::parseLogPrefix(node) <<
-            "Invalid platform name (" << name << ".";
+        parseLogError() << ParseXmlWrap::parseLogPrefix(node) <<
+            "Invalid platform name (" << name << ").";
         return false;
     }
 
-- 
2.43.0


From ba51c8f5959495fcfb2bf168149905e288f79bdc Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 06:20:09 +0000
Subject: [PATCH 46/58] fix: "removed" of a not deprecated field was kept,
 reusing it aborted on an assertion

---
 lib/src/parse/ParseFieldImpl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/parse/ParseFieldImpl.cpp b/lib/src/parse/ParseFieldImpl.cpp
index 5c6e912..99ccdce 100644
--- a/lib/src/parse/ParseFieldImpl.cpp
+++ b/lib/src/parse/ParseFieldImpl.cpp
@@ -1256,6 +1256,7 @@ bool ParseFieldImpl::parseUpdateVersions()
             parseLogWarning() << ParseXmlWrap::parseLogPrefix(parseGetNode()) <<
                 "Property \"" << common::parseRemovedStr() << "\" is not applicable to "
                 "non deprecated fields";
+            deprecatedRemoved = false;
         }
     } while (false);
 
-- 
2.43.0


From 8ced7b33855599252ba15c77c4e744f6eeb4b027 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 06:20:09 +0000
Subject: [PATCH 47/58] fix: malformed reference as default value of a data
 field aborted on an assertion

---
 lib/src/parse/ParseDataFieldImpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parse/ParseDataFieldImpl.cpp b/lib/src/parse/ParseDataFieldImpl.cpp
index 4fe90a6..2a9bece 100644
--- a/lib/src/parse/ParseDataFieldImpl.cpp
+++ b/lib/src/parse/ParseDataFieldImpl.cpp
@@ -544,7 +544,7 @@ const ParseFieldImpl* ParseDataFieldImpl::parseGetPrefixField() const
 bool ParseDataFieldImpl::parseStrToValue(const std::string& str, ParseValueType& val) const
 {
     if ((!str.empty()) && (str[0] == common::parseStringRefPrefix()) && parseProtocol().parseIsFieldValueReferenceSupported()) {
-        return parseProtocol().parseStrToData(std::string(str, 1), false, val);
+        return parseProtocol().parseStrToData(std::string(str, 1), true, val);
     }
 
     std::string adjStr = str;
-- 
2.43.0


From 9d1f79cc703c2b1f604cb51031912573203fa384 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 06:20:10 +0000
Subject: [PATCH 48/58] fix: reused reference field with an empty name aborted
 on an assertion

---
 lib/src/parse/ParseRefFieldImpl.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/src/parse/ParseRefFieldImpl.cpp b/lib/src/parse/ParseRefFieldImpl.cpp
index 8b53c66..3d37ff3 100644
--- a/lib/src/parse/ParseRefFieldImpl.cpp
+++ b/lib/src/parse/ParseRefFieldImpl.cpp
@@ -82,7 +82,10 @@ bool ParseRefFieldImpl::parseImpl()
     auto propsIter = parseProps().find(common::parseFieldStr());
     if (propsIter == parseProps().end()) {
         assert(m_field != nullptr);
-        assert(!parseName().empty());
+        if (parseName().empty()) {
+            parseSetName(m_field->parseName());
+        }
+
         return parseUpdateBitLength();
     }
 
-- 
2.43.0


From 9fdebc909ba7297f3631f93b756e00bee7decd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:02 +0000
Subject: [PATCH 49/58] fix: commsdsl2comms fails when an options file cannot
 be written

---
 app/commsdsl2comms/src/CommsDefaultOptions.cpp | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsDefaultOptions.cpp b/app/commsdsl2comms/src/CommsDefaultOptions.cpp
index 06f411c..a713a34 100644
--- a/app/commsdsl2comms/src/CommsDefaultOptions.cpp
+++ b/app/commsdsl2comms/src/CommsDefaultOptions.cpp
@@ -242,8 +242,7 @@ bool CommsDefaultOptions::commsWriteDefaultOptionsInternal() const
         repl["ORIG"] = strings::genOrigSuffixStr();
     }
 
-    commsWriteFileInternal(strings::genDefaultOptionsClassStr(), m_commsGenerator, util::genProcessTemplate(Templ, repl, true));
-    return true;
+    return commsWriteFileInternal(strings::genDefaultOptionsClassStr(), m_commsGenerator, util::genProcessTemplate(Templ, repl, true));
 }
 
 bool CommsDefaultOptions::commsWriteClientDefaultOptionsInternal() const
@@ -263,8 +262,7 @@ bool CommsDefaultOptions::commsWriteClientDefaultOptionsInternal() const
         repl["ORIG"] = strings::genOrigSuffixStr();
     }
 
-    commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsExtOptionsTempl(), repl, true));
-    return true;
+    return commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsExtOptionsTempl(), repl, true));
 }
 
 bool CommsDefaultOptions::commsWriteServerDefaultOptionsInternal() const
@@ -284,8 +282,7 @@ bool CommsDefaultOptions::commsWriteServerDefaultOptionsInternal() const
         repl["ORIG"] = strings::genOrigSuffixStr();
     }
 
-    commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsExtOptionsTempl(), repl, true));
-    return true;
+    return commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsExtOptionsTempl(), repl, true));
 }
 
 bool CommsDefaultOptions::commsWriteDataViewDefaultOptionsInternal() const
@@ -305,8 +302,7 @@ bool CommsDefaultOptions::commsWriteDataViewDefaultOptionsInternal() const
         repl["ORIG"] = strings::genOrigSuffixStr();
     }
 
-    commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsExtOptionsTempl(), repl, true));
-    return true;
+    return commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsExtOptionsTempl(), repl, true));
 }
 
 bool CommsDefaultOptions::commsWriteBareMetalDefaultOptionsInternal() const
@@ -334,8 +330,7 @@ bool CommsDefaultOptions::commsWriteBareMetalDefaultOptionsInternal() const
         repl["ORIG"] = strings::genOrigSuffixStr();
     }
 
-    commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsExtOptionsTempl(), repl, true));
-    return true;
+    return commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsExtOptionsTempl(), repl, true));
 }
 
 bool CommsDefaultOptions::commsWriteMsgFactoryDefaultOptionsInternal() const
@@ -518,8 +513,7 @@ bool CommsDefaultOptions::commsWriteSingleMsgFactoryDefaultOptionsInternal(
         repl["ORIG"] = strings::genOrigSuffixStr();
     }
 
-    commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsMsgFactoryOptionsTempl(), repl, true));
-    return true;
+    return commsWriteFileInternal(name, m_commsGenerator, util::genProcessTemplate(commsMsgFactoryOptionsTempl(), repl, true));
 }
 
 } // namespace commsdsl2comms
\ No newline at end of file
-- 
2.43.0


From 4a4f5cc918e8535e730572d3334f219f3541e4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:02 +0000
Subject: [PATCH 50/58] fix: copying of the extra sources fails when the
 updated file cannot be written

---
 lib/src/gen/GenGenerator.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/src/gen/GenGenerator.cpp b/lib/src/gen/GenGenerator.cpp
index ed75c11..b9e7202 100644
--- a/lib/src/gen/GenGenerator.cpp
+++ b/lib/src/gen/GenGenerator.cpp
@@ -1705,6 +1705,12 @@ bool GenGenerator::genCopyExtraSourceFiles(const std::vector<std::string>& reser
             }
 
             outStream << content;
+            outStream.flush();
+            if (!outStream.good()) {
+                genLogger().genError("Failed to modify " + destStr + ".");
+                return false;
+            }
+
             genLogger().genInfo("Updated " + destStr + " to have proper main namespace.");
         }
     }
-- 
2.43.0


From 0c17b74be17a3c2e869be27456c16423cec5361a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:11 +0000
Subject: [PATCH 51/58] fix: commsdsl2swig no longer asserts on its
 CMakeLists.txt without code injected at the end

---
 app/commsdsl2swig/src/SwigCmake.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/commsdsl2swig/src/SwigCmake.cpp b/app/commsdsl2swig/src/SwigCmake.cpp
index a8f515a..6fe8e17 100644
--- a/app/commsdsl2swig/src/SwigCmake.cpp
+++ b/app/commsdsl2swig/src/SwigCmake.cpp
@@ -117,7 +117,7 @@ bool SwigCmake::swigWriteInternal() const
         "        $<$<CXX_COMPILER_ID:Clang>:-ftemplate-depth=2048 -fconstexpr-depth=4096 -fbracket-depth=2048>\n"
         "    )\n"
         "endforeach()\n\n"
-        "#^#APPEND#$#"
+        "#^#APPEND#$#\n"
         ;
 
     util::GenReplacementMap repl = {
-- 
2.43.0


From f833d1b31b11d976ee84d1a1aafa910908742d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:19 +0000
Subject: [PATCH 52/58] fix: commsdsl2comms documentation of a protocol without
 frames

---
 app/commsdsl2comms/src/CommsDoxygen.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/app/commsdsl2comms/src/CommsDoxygen.cpp b/app/commsdsl2comms/src/CommsDoxygen.cpp
index cbfd133..c3b422a 100644
--- a/app/commsdsl2comms/src/CommsDoxygen.cpp
+++ b/app/commsdsl2comms/src/CommsDoxygen.cpp
@@ -545,6 +545,11 @@ std::string CommsDoxygen::commsInterfaceDocInternal() const
 
 std::string CommsDoxygen::commsFrameDocInternal() const
 {
+    auto frames = m_commsGenerator.genGetAllFrames();
+    if (frames.empty()) {
+        return strings::genEmptyString();
+    }
+
     const std::string Templ =
         "/// @section main_frames Frame Classes\n"
         "/// The available frame classes are:\n"
@@ -566,9 +571,6 @@ std::string CommsDoxygen::commsFrameDocInternal() const
         "#^#MESSAGES_LIST#$#\n"
         "///";
 
-    auto frames = m_commsGenerator.genGetAllFrames();
-    assert(!frames.empty());
-
     util::GenStringsList list;
     for (auto* f : frames) {
         list.push_back(
-- 
2.43.0


From 6e493c5c330ffcf64558f9264cacbf26d57b64eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:19 +0000
Subject: [PATCH 53/58] fix: commsdsl2c documentation of a protocol without
 frames

---
 app/commsdsl2c/src/CDoxygen.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/app/commsdsl2c/src/CDoxygen.cpp b/app/commsdsl2c/src/CDoxygen.cpp
index cbe5100..1dd4a23 100644
--- a/app/commsdsl2c/src/CDoxygen.cpp
+++ b/app/commsdsl2c/src/CDoxygen.cpp
@@ -375,6 +375,10 @@ bool CDoxygen::cWriteMainpageInternal() const
 
 std::string CDoxygen::cInputDocInternal() const
 {
+    if (m_frames.empty()) {
+        return strings::genEmptyString();
+    }
+
     util::GenStringsList frameItems;
     for (auto* f : m_frames) {
         static const std::string Templ =
-- 
2.43.0


From ffcef20333acb2ce59c234692ced691c484210b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:19 +0000
Subject: [PATCH 54/58] fix: commsdsl2test reports a protocol without frames

---
 app/commsdsl2test/src/TestCmake.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/app/commsdsl2test/src/TestCmake.cpp b/app/commsdsl2test/src/TestCmake.cpp
index aad8b21..91cd4f5 100644
--- a/app/commsdsl2test/src/TestCmake.cpp
+++ b/app/commsdsl2test/src/TestCmake.cpp
@@ -56,7 +56,11 @@ bool TestCmake::testWriteInternal() const
     auto interfaceScope = commsdsl::gen::comms::genScopeFor(*firstInterface, m_testGenerator);
 
     auto allFrames = m_testGenerator.genGetAllFrames();
-    assert(!allFrames.empty());
+    if (allFrames.empty()) {
+        m_testGenerator.genLogger().genError("The schema doesn't define any frame, there is nothing to test.");
+        return false;
+    }
+
     auto* firstFrame = allFrames.front();
     assert(!firstFrame->genName().empty());
 
-- 
2.43.0


From 1922d2274dcfa94cebebc75df2fa70c5c959257f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:19 +0000
Subject: [PATCH 55/58] fix: commsdsl2tools_qt reports a protocol without
 frames

---
 app/commsdsl2tools_qt/src/ToolsQtGenerator.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/app/commsdsl2tools_qt/src/ToolsQtGenerator.cpp b/app/commsdsl2tools_qt/src/ToolsQtGenerator.cpp
index 3758be8..861034d 100644
--- a/app/commsdsl2tools_qt/src/ToolsQtGenerator.cpp
+++ b/app/commsdsl2tools_qt/src/ToolsQtGenerator.cpp
@@ -221,7 +221,11 @@ bool ToolsQtGenerator::genPrepareImpl()
 
         if (info.m_frame.empty()) {
             auto allFrames = genGetAllFrames();
-            assert(!allFrames.empty());
+            if (allFrames.empty()) {
+                genLogger().genError("The schema doesn't define any frame for the plugin to use.");
+                return false;
+            }
+
             info.m_frame = allFrames.front()->genParseObj().parseExternalRef();
         }
 
-- 
2.43.0


From 4032548e1c61d2ad51793e8ea10bb1cdb48518a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:55 +0000
Subject: [PATCH 56/58] fix: commsdsl2emscripten asserted on a frame without
 messages to handle

---
 app/commsdsl2emscripten/src/EmscriptenFrame.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/app/commsdsl2emscripten/src/EmscriptenFrame.cpp b/app/commsdsl2emscripten/src/EmscriptenFrame.cpp
index 3f5207b..01c51cc 100644
--- a/app/commsdsl2emscripten/src/EmscriptenFrame.cpp
+++ b/app/commsdsl2emscripten/src/EmscriptenFrame.cpp
@@ -100,6 +100,7 @@ bool EmscriptenFrame::genPrepareImpl()
         m_emscriptenLayers.push_back(const_cast<EmscriptenLayer*>(emscriptenLayer));
     }
 
+    m_validFrame = false;
     auto* iFace = emscriptenInterfaceInternal();
     do {
         if (iFace == nullptr) {
@@ -107,6 +108,16 @@ bool EmscriptenFrame::genPrepareImpl()
             break;
         }
 
+        auto* inputNs = emscriptenFindInputNamespace();
+        if (inputNs == nullptr) {
+            inputNs = EmscriptenNamespace::emscriptenCast(static_cast<const commsdsl::gen::GenNamespace*>(iFace->genParentNamespace()));
+        }
+
+        if (!inputNs->emscriptenHasInput()) {
+            genGenerator().genLogger().genDebug("No input messages for frame " + genName());
+            break;
+        }
+
         m_validFrame =
             std::all_of(
                 m_emscriptenLayers.begin(), m_emscriptenLayers.end(),
-- 
2.43.0


From 3323e938242ed0c4a721e3fb27ccfd0da7c12a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:55 +0000
Subject: [PATCH 57/58] fix: commsdsl2swig asserted on a frame without messages
 to handle

---
 app/commsdsl2swig/src/SwigFrame.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/app/commsdsl2swig/src/SwigFrame.cpp b/app/commsdsl2swig/src/SwigFrame.cpp
index 7a36d92..0d9876d 100644
--- a/app/commsdsl2swig/src/SwigFrame.cpp
+++ b/app/commsdsl2swig/src/SwigFrame.cpp
@@ -113,6 +113,11 @@ bool SwigFrame::genPrepareImpl()
         return true;
     }
 
+    if (swigInputInternal() == nullptr) {
+        genGenerator().genLogger().genDebug("No input messages for frame " + genName());
+        m_validFrame = false;
+    }
+
     return true;
 }
 
-- 
2.43.0


From b8487e9b23de773ea97492551f90f1cf83a6fbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:11:06 +0000
Subject: [PATCH 58/58] fix: valid ranges of float fields ending in infinity or
 NaN were asserted on when merged

---
 lib/src/parse/ParseFloatFieldImpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parse/ParseFloatFieldImpl.cpp b/lib/src/parse/ParseFloatFieldImpl.cpp
index d3dc582..c5f2292 100644
--- a/lib/src/parse/ParseFloatFieldImpl.cpp
+++ b/lib/src/parse/ParseFloatFieldImpl.cpp
@@ -464,11 +464,11 @@ bool ParseFloatFieldImpl::parseUpdateValidRanges()
                 (iter->m_deprecatedSince != nextIter->m_deprecatedSince) ||
                 (isSpecial(iter->m_max)) ||
                 (isSpecial(nextIter->m_min)) ||
+                (isSpecial(nextIter->m_max)) ||
                 (parseCompareLess(iter->m_max, nextIter->m_min))) {
                 break;
             }
 
-            assert(!isSpecial(nextIter->m_max));
             nextIter->m_deprecatedSince = 0U; // invalidate next range
             iter->m_max = std::max(iter->m_max, nextIter->m_max);
         }
-- 
2.43.0

