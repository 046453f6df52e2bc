From 2d454b7f5ff8c9aff7b69dc44f51355267bbbb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:41 +0000
Subject: [PATCH 01/31] fix: hold the blackboard mutex on every access to the
 live settings

Byte/XML settings accessors, element dump, explicit sync, configuration
create/save/restore, element addition to a domain and the validation done
after a domains import read or wrote the main blackboard without taking the
mutex that the other accessors rely on.
---
 parameter/ParameterMgr.cpp | 35 ++++++++++++++++++++++++++++++++++-
 parameter/ParameterMgr.h   |  4 ++--
 2 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/parameter/ParameterMgr.cpp b/parameter/ParameterMgr.cpp
index debf81d..51e6941 100644
--- a/parameter/ParameterMgr.cpp
+++ b/parameter/ParameterMgr.cpp
@@ -794,6 +794,9 @@ void CParameterMgr::getSettingsAsBytes(const CConfigurableElement &element,
     CParameterAccessContext parameterAccessContext(error);
     parameterAccessContext.setParameterBlackboard(_pMainParameterBlackboard);
 
+    // Lock state
+    lock_guard<mutex> autoLock(getBlackboardMutex());
+
     // Get the settings
     element.getSettingsAsBytes(settings, parameterAccessContext);
 }
@@ -812,6 +815,9 @@ bool CParameterMgr::setSettingsAsBytes(const CConfigurableElement &element,
     parameterAccessContext.setParameterBlackboard(_pMainParameterBlackboard);
     parameterAccessContext.setAutoSync(autoSyncOn());
 
+    // Lock state
+    lock_guard<mutex> autoLock(getBlackboardMutex());
+
     // Set the settings
     return element.setSettingsAsBytes(settings, parameterAccessContext);
 }
@@ -1523,6 +1529,9 @@ CParameterMgr::CCommandHandler::CommandStatus CParameterMgr::setElementBytesComm
 bool CParameterMgr::getSettingsAsXML(const CConfigurableElement *configurableElement,
                                      string &result) const
 {
+    // Lock state
+    lock_guard<mutex> autoLock(getBlackboardMutex());
+
     string error;
     CConfigurationAccessContext configContext(error, _pMainParameterBlackboard, _bValueSpaceIsRaw,
                                               _bOutputRawFormatIsHex, true);
@@ -1548,6 +1557,9 @@ bool CParameterMgr::getSettingsAsXML(const CConfigurableElement *configurableEle
 bool CParameterMgr::setSettingsAsXML(CConfigurableElement *configurableElement,
                                      const string &settings, string &error)
 {
+    // Lock state
+    lock_guard<mutex> autoLock(getBlackboardMutex());
+
     CConfigurationAccessContext configContext(error, _pMainParameterBlackboard, _bValueSpaceIsRaw,
                                               _bOutputRawFormatIsHex, false);
 
@@ -1634,6 +1646,9 @@ CParameterMgr::CCommandHandler::CommandStatus CParameterMgr::dumpElementCommandP
     CParameterAccessContext parameterAccessContext(strError, _pMainParameterBlackboard,
                                                    _bValueSpaceIsRaw, _bOutputRawFormatIsHex);
 
+    // Lock state
+    lock_guard<mutex> autoLock(getBlackboardMutex());
+
     // Dump elements
     strResult = pLocatedElement->dumpContent(parameterAccessContext);
 
@@ -2208,6 +2223,9 @@ bool CParameterMgr::sync(string &strError)
     // ... from system class
     getConstSystemClass()->fillSyncerSet(syncerSet);
 
+    // Lock state
+    lock_guard<mutex> autoLock(getBlackboardMutex());
+
     // Sync
     core::Results error;
     if (!syncerSet.sync(*_pMainParameterBlackboard, false, &error)) {
@@ -2310,6 +2328,9 @@ bool CParameterMgr::createConfiguration(const string &strDomain, const string &s
         return false;
     }
 
+    // Lock state
+    lock_guard<mutex> autoLock(getBlackboardMutex());
+
     // Delegate to configurable domains
     return logResult(getConfigurableDomains()->createConfiguration(
                          strDomain, strConfiguration, _pMainParameterBlackboard, strError),
@@ -2359,6 +2380,9 @@ bool CParameterMgr::restoreConfiguration(const string &strDomain, const string &
         return false;
     }
 
+    // Lock state
+    lock_guard<mutex> autoLock(getBlackboardMutex());
+
     // Delegate to configurable domains
     return logResult(
         getConstConfigurableDomains()->restoreConfiguration(
@@ -2378,6 +2402,9 @@ bool CParameterMgr::saveConfiguration(const string &strDomain, const string &str
         return false;
     }
 
+    // Lock state
+    lock_guard<mutex> autoLock(getBlackboardMutex());
+
     // Delegate to configurable domains
     return logResult(getConfigurableDomains()->saveConfiguration(
                          strDomain, strConfiguration, _pMainParameterBlackboard, strError),
@@ -2412,6 +2439,9 @@ bool CParameterMgr::addConfigurableElementToDomain(const string &strDomain,
     CConfigurableElement *pConfigurableElement =
         static_cast<CConfigurableElement *>(pLocatedElement);
 
+    // Lock state
+    lock_guard<mutex> autoLock(getBlackboardMutex());
+
     // Delegate
     core::Results infos;
     bool isSuccess = getConfigurableDomains()->addConfigurableElementToDomain(
@@ -2555,6 +2585,9 @@ bool CParameterMgr::importDomainsXml(const string &xmlSource, bool withSettings,
 
     if (importSuccess) {
 
+        // Lock state
+        lock_guard<mutex> autoLock(getBlackboardMutex());
+
         // Validate domains after XML import
         pConfigurableDomains->validate(_pMainParameterBlackboard);
     }
@@ -2723,7 +2756,7 @@ bool CParameterMgr::checkTuningModeOn(string &strError) const
 }
 
 // Tuning mutex dynamic parameter handling
-std::mutex &CParameterMgr::getBlackboardMutex()
+std::mutex &CParameterMgr::getBlackboardMutex() const
 {
     return _blackboardMutex;
 }
diff --git a/parameter/ParameterMgr.h b/parameter/ParameterMgr.h
index bc0726d..5a6e2fe 100644
--- a/parameter/ParameterMgr.h
+++ b/parameter/ParameterMgr.h
@@ -630,7 +630,7 @@ private:
     bool checkTuningModeOn(std::string &strError) const;
 
     // Blackboard (dynamic parameter handling)
-    std::mutex &getBlackboardMutex();
+    std::mutex &getBlackboardMutex() const;
 
     // Blackboard reference (dynamic parameter handling)
     CParameterBlackboard *getParameterBlackboard();
@@ -878,7 +878,7 @@ private:
     size_t _maxCommandUsageLength{0};
 
     // Blackboard access mutex
-    std::mutex _blackboardMutex;
+    mutable std::mutex _blackboardMutex;
 
     /** Application main logger based on the one provided by the client */
     mutable core::log::Logger _logger;
-- 
2.43.0


From 81bf92fe9a60679902cd2f456f8f057bb49ef79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:39 +0000
Subject: [PATCH 02/31] fix: bound string reads to the blackboard storage

A string parameter whose bytes were set without a terminator (raw settings)
made readString run past the end of the storage.
---
 parameter/ParameterBlackboard.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parameter/ParameterBlackboard.cpp b/parameter/ParameterBlackboard.cpp
index eaa6b97..3c40b6f 100644
--- a/parameter/ParameterBlackboard.cpp
+++ b/parameter/ParameterBlackboard.cpp
@@ -80,9 +80,9 @@ void CParameterBlackboard::readString(std::string &output, size_t offset) const
     // the size that will be read is not known. (>= 1)
     assertValidAccess(offset, sizeof('\0'));
 
-    // Get the pointer to the null terminated string
-    const uint8_t *first = &mBlackboard[offset];
-    output = reinterpret_cast<const char *>(first);
+    // The terminator may be missing (raw settings are not checked): never read past the end
+    auto first = atOffset(offset);
+    output.assign(first, std::find(first, end(mBlackboard), '\0'));
 }
 
 void CParameterBlackboard::writeBuffer(const void *pvSrcData, size_t size, size_t offset)
-- 
2.43.0


From a3d17a2dde96a4caa45bc0b14c1bdaf3890e8161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:53 +0000
Subject: [PATCH 03/31] fix: append the bytes of setElementBytes to the vector

The bytes were written through the begin iterator of an empty vector.
---
 parameter/ParameterMgr.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parameter/ParameterMgr.cpp b/parameter/ParameterMgr.cpp
index 51e6941..2d5023e 100644
--- a/parameter/ParameterMgr.cpp
+++ b/parameter/ParameterMgr.cpp
@@ -73,6 +73,7 @@
 #include "SelectionCriterionRule.h"
 #include "SimulatedBackSynchronizer.h"
 #include "HardwareBackSynchronizer.h"
+#include <iterator>
 #include <cassert>
 #include "ParameterHandle.h"
 #include "LinearParameterAdaptation.h"
@@ -1502,7 +1503,7 @@ CParameterMgr::CCommandHandler::CommandStatus CParameterMgr::setElementBytesComm
     auto last = remoteCommand.getArguments().cend();
 
     try {
-        std::transform(first, last, begin(bytes), [](decltype(*first) input) {
+        std::transform(first, last, std::back_inserter(bytes), [](decltype(*first) input) {
             uint8_t byte;
 
             if (!convertTo(input, byte)) {
-- 
2.43.0


From 83a8b72ad7e0f5eb12ecba14894b04c8552161f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:53 +0000
Subject: [PATCH 04/31] fix: report a refused domain split

---
 parameter/ConfigurableDomains.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/parameter/ConfigurableDomains.cpp b/parameter/ConfigurableDomains.cpp
index 35674fd..faceb7c 100644
--- a/parameter/ConfigurableDomains.cpp
+++ b/parameter/ConfigurableDomains.cpp
@@ -310,9 +310,7 @@ bool CConfigurableDomains::split(const string &domainName, CConfigurableElement
         return false;
     }
     // Delegate
-    domain->split(element, infos);
-
-    return true;
+    return domain->split(element, infos);
 }
 
 void CConfigurableDomains::listAssociatedElements(string &strResult) const
-- 
2.43.0


From f6c1874de338a10e4476687ca3795952752263d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:53 +0000
Subject: [PATCH 05/31] fix: rebase reads of one array item

Reading an item of an array from the settings saved in a configuration used
the offset in the live settings.
---
 parameter/ArrayParameter.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parameter/ArrayParameter.cpp b/parameter/ArrayParameter.cpp
index 91ea448..582d5ab 100644
--- a/parameter/ArrayParameter.cpp
+++ b/parameter/ArrayParameter.cpp
@@ -109,8 +109,9 @@ bool CArrayParameter::accessValue(CPathNavigator &pathNavigator, string &strValu
 
         } else {
             // Scalar requested
-            CParameter::doGetValue(strValue, getOffset() + index * getSize(),
-                                   parameterAccessContext);
+            CParameter::doGetValue(
+                strValue, getOffset() - parameterAccessContext.getBaseOffset() + index * getSize(),
+                parameterAccessContext);
         }
     }
 
-- 
2.43.0


From 54b08a061fd885f82aa489ac9dc3560549c9c242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:50 +0000
Subject: [PATCH 06/31] fix: validate a domain imported alone

Configurations without settings in the imported file kept invalid areas, which
were later restored as zeros (or hit an assertion).
---
 parameter/ParameterMgr.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/parameter/ParameterMgr.cpp b/parameter/ParameterMgr.cpp
index 2d5023e..d34d184 100644
--- a/parameter/ParameterMgr.cpp
+++ b/parameter/ParameterMgr.cpp
@@ -2620,7 +2620,14 @@ bool CParameterMgr::importSingleDomainXml(const string &xmlSource, bool overwrit
     }
 
     // ownership has been transfered to the ConfigurableDomains object
-    standaloneDomain.release();
+    auto domain = standaloneDomain.release();
+
+    // Lock state
+    lock_guard<mutex> autoLock(getBlackboardMutex());
+
+    // Validate domain after XML import
+    domain->validate(_pMainParameterBlackboard);
+
     return true;
 }
 
-- 
2.43.0


From 95a9ff22d509dbc0e06532a634cf98b9b4b2b2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:50 +0000
Subject: [PATCH 07/31] fix: validate the domains after a failed import

The domains imported before the failure remain and may be applied.
---
 parameter/ParameterMgr.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/parameter/ParameterMgr.cpp b/parameter/ParameterMgr.cpp
index d34d184..d17bdf9 100644
--- a/parameter/ParameterMgr.cpp
+++ b/parameter/ParameterMgr.cpp
@@ -2584,14 +2584,11 @@ bool CParameterMgr::importDomainsXml(const string &xmlSource, bool withSettings,
     bool importSuccess = wrapLegacyXmlImport(xmlSource, fromFile, withSettings,
                                              *pConfigurableDomains, "SystemClassName", errorMsg);
 
-    if (importSuccess) {
-
-        // Lock state
-        lock_guard<mutex> autoLock(getBlackboardMutex());
+    // Lock state
+    lock_guard<mutex> autoLock(getBlackboardMutex());
 
-        // Validate domains after XML import
-        pConfigurableDomains->validate(_pMainParameterBlackboard);
-    }
+    // Validate domains after XML import (a failed one may have imported some of them)
+    pConfigurableDomains->validate(_pMainParameterBlackboard);
 
     return importSuccess;
 }
-- 
2.43.0


From 52009dada315ced595c4bbef90ffd30120b2a51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:41 +0000
Subject: [PATCH 08/31] fix: refuse text that is not a number for bit
 parameters

Any text without digits was accepted as 0, a negative number wrapped around.
---
 parameter/BitParameterType.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parameter/BitParameterType.cpp b/parameter/BitParameterType.cpp
index 14421f1..e0ce912 100644
--- a/parameter/BitParameterType.cpp
+++ b/parameter/BitParameterType.cpp
@@ -29,11 +29,11 @@
  */
 #include "BitParameterType.h"
 #include "BitParameter.h"
-#include <stdlib.h>
 #include <sstream>
 #include "ParameterAccessContext.h"
 #include "BitParameterBlockType.h"
 #include "Utility.h"
+#include "convert.hpp"
 
 #define base CTypeElement
 
@@ -123,9 +123,9 @@ bool CBitParameterType::toBlackboard(const string &strValue, uint64_t &uiValue,
                                      CParameterAccessContext &parameterAccessContext) const
 {
     // Get value
-    uint64_t uiConvertedValue = strtoull(strValue.c_str(), nullptr, 0);
+    uint64_t uiConvertedValue = 0;
 
-    if (uiConvertedValue > _uiMax) {
+    if (!convertTo(strValue, uiConvertedValue) || uiConvertedValue > _uiMax) {
 
         // Range exceeded
         std::ostringstream strStream;
-- 
2.43.0


From f695c7dbfcf39c24f6fc6b8717768e80de8fa485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:17 +0000
Subject: [PATCH 09/31] fix: read a configuration's own value when it is the
 last applied one

---
 parameter/ParameterMgr.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/parameter/ParameterMgr.cpp b/parameter/ParameterMgr.cpp
index d17bdf9..3312384 100644
--- a/parameter/ParameterMgr.cpp
+++ b/parameter/ParameterMgr.cpp
@@ -2083,16 +2083,13 @@ bool CParameterMgr::accessConfigurationValue(const string &strDomain,
 
     /// If the Configuration is the last one applied, update the Main Blackboard as well
 
-    if (bIsLastApplied) {
+    if (bSet && bIsLastApplied) {
 
         // Define Main context
         parameterAccessContext.setParameterBlackboard(_pMainParameterBlackboard);
 
         // Activate the auto synchronization with the hardware
-        if (bSet) {
-
-            parameterAccessContext.setAutoSync(_bAutoSyncOn);
-        }
+        parameterAccessContext.setAutoSync(_bAutoSyncOn);
 
         // Access Value in the Main Blackboard
         return accessValue(parameterAccessContext, strPath, strValue, bSet, strError);
-- 
2.43.0


From 06704482332c8fd2cafafd54939bc70f20c0992a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:48 +0000
Subject: [PATCH 10/31] fix: refuse an application rule with several roots
 instead of dropping one or aborting

---
 parameter/RuleParser.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/parameter/RuleParser.cpp b/parameter/RuleParser.cpp
index e069cd1..35beb04 100644
--- a/parameter/RuleParser.cpp
+++ b/parameter/RuleParser.cpp
@@ -69,6 +69,14 @@ bool CRuleParser::parse(CCompoundRule *pParentRule, string &strError)
         switch (_eStatus) {
         case EBeginCompoundRule: {
 
+            // Only one root rule allowed
+            if (!pParentRule && _pRootRule) {
+
+                strError = "Syntax error, more than one root rule found";
+
+                return false;
+            }
+
             // Create new compound rule
             auto pCompoundRule = new CCompoundRule;
 
@@ -86,7 +94,6 @@ bool CRuleParser::parse(CCompoundRule *pParentRule, string &strError)
                 pParentRule->addChild(pCompoundRule);
             } else {
                 // Root rule
-                delete _pRootRule;
                 _pRootRule = pCompoundRule;
             }
             // Parse
@@ -103,6 +110,14 @@ bool CRuleParser::parse(CCompoundRule *pParentRule, string &strError)
             // Seek for new rule
             break;
         case ECriterionRule: {
+
+            // Only a compound rule may contain criterion rules
+            if (!pParentRule) {
+
+                strError = "Syntax error, criterion rule found outside of a compound rule";
+
+                return false;
+            }
             // Create new criterion rule
             auto pCriterionRule = new CSelectionCriterionRule;
 
@@ -114,7 +129,6 @@ bool CRuleParser::parse(CCompoundRule *pParentRule, string &strError)
                 return false;
             }
 
-            ALWAYS_ASSERT(pParentRule != nullptr, "Invalid parent rule given to rule parser");
             // Chain
             pParentRule->addChild(pCriterionRule);
 
-- 
2.43.0


From 77a5d4a9cf852ab4713f155052a40c4ec8657586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:59 +0000
Subject: [PATCH 11/31] fix: keep rule values made of several inclusive states
 in rule dump and XML export

---
 parameter/SelectionCriterionRule.cpp | 20 ++++++++++++++++----
 parameter/SelectionCriterionRule.h   |  3 +++
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/parameter/SelectionCriterionRule.cpp b/parameter/SelectionCriterionRule.cpp
index 8c22045..b1fbe19 100644
--- a/parameter/SelectionCriterionRule.cpp
+++ b/parameter/SelectionCriterionRule.cpp
@@ -111,8 +111,7 @@ bool CSelectionCriterionRule::parse(CRuleParser &ruleParser, string &strError)
 string CSelectionCriterionRule::dump() const
 {
     // Value
-    string value;
-    _pSelectionCriterion->getCriterionType()->getLiteralValue(_iMatchValue, value);
+    string value = getMatchValue();
 
     // "<Name> <Verb> <Value>"
     return string(_pSelectionCriterion->getName()) + " " +
@@ -206,11 +205,24 @@ void CSelectionCriterionRule::toXml(CXmlElement &xmlElement, CXmlSerializingCont
     xmlElement.setAttribute("MatchesWhen", _astMatchesWhen[_eMatchesWhen].pcMatchesWhen);
 
     // Set Value
+    string strValue = getMatchValue();
+
+    xmlElement.setAttribute("Value", strValue);
+}
+
+// Match value, in the form accepted when parsing it
+string CSelectionCriterionRule::getMatchValue() const
+{
+    const ISelectionCriterionTypeInterface *pSelectionCriterionType =
+        _pSelectionCriterion->getCriterionType();
     string strValue;
 
-    _pSelectionCriterion->getCriterionType()->getLiteralValue(_iMatchValue, strValue);
+    if (!pSelectionCriterionType->getLiteralValue(_iMatchValue, strValue)) {
 
-    xmlElement.setAttribute("Value", strValue);
+        // Several values of an inclusive type
+        strValue = pSelectionCriterionType->getFormattedState(_iMatchValue);
+    }
+    return strValue;
 }
 
 // XML MatchesWhen attribute parsing
diff --git a/parameter/SelectionCriterionRule.h b/parameter/SelectionCriterionRule.h
index 7dac343..eb5b36c 100644
--- a/parameter/SelectionCriterionRule.h
+++ b/parameter/SelectionCriterionRule.h
@@ -82,6 +82,9 @@ private:
     // XML MatchesWhen attribute parsing
     bool setMatchesWhen(const std::string &strMatchesWhen, std::string &strError);
 
+    // Match value, in the form accepted when parsing it
+    std::string getMatchValue() const;
+
     // Selection criterion
     const CSelectionCriterion *_pSelectionCriterion{nullptr};
 
-- 
2.43.0


From 15baf22c16f05ed8a8b94d7b6d315f129b6485a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:59 +0000
Subject: [PATCH 12/31] fix: refuse an unknown compound rule type in XML
 instead of reading it as Any

---
 parameter/CompoundRule.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parameter/CompoundRule.cpp b/parameter/CompoundRule.cpp
index e69592b..a1b4a47 100644
--- a/parameter/CompoundRule.cpp
+++ b/parameter/CompoundRule.cpp
@@ -132,6 +132,14 @@ bool CCompoundRule::fromXml(const CXmlElement &xmlElement,
     // Get type
     string strType;
     xmlElement.getAttribute("Type", strType);
+
+    if (strType != _apcTypes[false] && strType != _apcTypes[true]) {
+
+        serializingContext.setError("Unknown compound rule type: " + strType + " in " + getKind() +
+                                    " " + xmlElement.getPath());
+
+        return false;
+    }
     _bTypeAll = strType == _apcTypes[true];
 
     // Base
-- 
2.43.0


From 3cbbaa66e84fdd0e38117f87a06463a6360beb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:00 +0000
Subject: [PATCH 13/31] fix: refuse a bit parameter without bits

A size of zero (or a position plus size that wraps around) passed the
range check, and the mask then covered the whole block.
---
 parameter/BitParameterType.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parameter/BitParameterType.cpp b/parameter/BitParameterType.cpp
index e0ce912..cf897c4 100644
--- a/parameter/BitParameterType.cpp
+++ b/parameter/BitParameterType.cpp
@@ -86,7 +86,8 @@ bool CBitParameterType::fromXml(const CXmlElement &xmlElement,
 
     size_t uiParentBlockBitSize = pBitParameterBlockType->getSize() * 8;
 
-    if (_bitPos + _uiBitSize > uiParentBlockBitSize) {
+    if (_uiBitSize == 0 || _uiBitSize > uiParentBlockBitSize ||
+        _bitPos > uiParentBlockBitSize - _uiBitSize) {
 
         // Range exceeded
         std::ostringstream strStream;
-- 
2.43.0


From d108ba2482c13b9cb6662d26e33a74c528cdbe78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:45 +0000
Subject: [PATCH 14/31] fix: every bit of a 32 bit parameter is encodable

Shifting an int by 32 is undefined: the raw hexadecimal value of a 32 bit
enumeration was masked with the outcome of that.
---
 parameter/ParameterType.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parameter/ParameterType.cpp b/parameter/ParameterType.cpp
index 5472f27..01ea949 100644
--- a/parameter/ParameterType.cpp
+++ b/parameter/ParameterType.cpp
@@ -201,9 +201,14 @@ bool CParameterType::doIsEncodable(type data, bool bIsSigned) const
 // Remove all bits set outside available range
 uint32_t CParameterType::makeEncodable(uint32_t uiData) const
 {
+    if (getSize() == sizeof(uiData)) {
+        // Prevent inappropriate shifts
+        return uiData;
+    }
+
     size_t sizeInBits = getSize() * 8;
 
-    uint32_t uiMask = (1 << sizeInBits) - 1;
+    uint32_t uiMask = (1U << sizeInBits) - 1;
 
     return uiData & uiMask;
 }
-- 
2.43.0


From 84a6c81158577013d0edb5e418f7faf008f5cc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:16 +0000
Subject: [PATCH 15/31] fix: read back the raw values of 32 bit enumerations

A negative enumerator of a 32 bit enum is exported, in raw value space, as
an unsigned number that does not fit in an int32_t: it was refused when
set back.
---
 parameter/EnumParameterType.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/parameter/EnumParameterType.cpp b/parameter/EnumParameterType.cpp
index 468b6c6..9b04c56 100644
--- a/parameter/EnumParameterType.cpp
+++ b/parameter/EnumParameterType.cpp
@@ -96,9 +96,15 @@ bool CEnumParameterType::toBlackboard(const string &strValue, uint32_t &uiValue,
                                       CParameterAccessContext &parameterAccessContext) const
 {
     int32_t iParsedUserValue = 0;
+    uint32_t uiRawValue = 0;
 
-    // Try to read the user-provided string as an integer
-    if (not convertTo(strValue, iParsedUserValue)) {
+    // Raw values are exported unsigned: those of a 32 bit enum may be beyond the signed range
+    if (parameterAccessContext.valueSpaceIsRaw() && convertTo(strValue, uiRawValue)) {
+
+        iParsedUserValue = static_cast<int32_t>(uiRawValue);
+
+        // Try to read the user-provided string as an integer
+    } else if (not convertTo(strValue, iParsedUserValue)) {
         // If it fails to parse as an integer, first try to convert it from
         // lexical to numerical space.
         int32_t iNumerical;
-- 
2.43.0


From 8fbc8f415529eaf774c8bd41c6838d0247cb5128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:13 +0000
Subject: [PATCH 16/31] fix: refuse raw values that do not fit in an
 enumeration

Sign extension dropped the bits beyond the size of the parameter: a raw
value such as 0x1FF was accepted by an 8 bit enum as 0xFF.
---
 parameter/EnumParameterType.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/parameter/EnumParameterType.cpp b/parameter/EnumParameterType.cpp
index 9b04c56..d54c26c 100644
--- a/parameter/EnumParameterType.cpp
+++ b/parameter/EnumParameterType.cpp
@@ -99,7 +99,8 @@ bool CEnumParameterType::toBlackboard(const string &strValue, uint32_t &uiValue,
     uint32_t uiRawValue = 0;
 
     // Raw values are exported unsigned: those of a 32 bit enum may be beyond the signed range
-    if (parameterAccessContext.valueSpaceIsRaw() && convertTo(strValue, uiRawValue)) {
+    if (parameterAccessContext.valueSpaceIsRaw() && convertTo(strValue, uiRawValue) &&
+        isEncodable(uiRawValue, false)) {
 
         iParsedUserValue = static_cast<int32_t>(uiRawValue);
 
@@ -174,6 +175,13 @@ bool CEnumParameterType::toBlackboard(int32_t userValue, uint32_t &value,
 {
     // Take care of format
     if (parameterAccessContext.valueSpaceIsRaw()) {
+
+        if (!isEncodable(static_cast<uint32_t>(userValue), userValue < 0)) {
+
+            parameterAccessContext.setError("Raw value " + std::to_string(userValue) +
+                                            " does not fit in the size of this " + getKind() + ".");
+            return false;
+        }
         signExtend(userValue);
     }
 
-- 
2.43.0


From 2f210bdfa10b5f8cb537a2bfd16e4b55dde39fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:32 +0000
Subject: [PATCH 17/31] fix: raw hexadecimal values of floating points can be
 set back

The base shown by the stream was padded together with the digits:
'000000x1' for the raw value 1, which no setter accepts.
---
 parameter/FloatingPointParameterType.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parameter/FloatingPointParameterType.cpp b/parameter/FloatingPointParameterType.cpp
index 44de9e2..ca15085 100644
--- a/parameter/FloatingPointParameterType.cpp
+++ b/parameter/FloatingPointParameterType.cpp
@@ -212,7 +212,8 @@ bool CFloatingPointParameterType::fromBlackboard(
 
         if (parameterAccessContext.outputRawFormatIsHex()) {
 
-            ostrStream << std::showbase << std::hex << std::setw(static_cast<int>(getSize() * 2))
+            // The base is not left to the stream: it would be padded along with the digits
+            ostrStream << "0x" << std::hex << std::setw(static_cast<int>(getSize() * 2))
                        << std::setfill('0');
         }
 
-- 
2.43.0


From 9a98a8e74445bc6373668a3c0b0eaa33d8659d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:24 +0000
Subject: [PATCH 18/31] fix: the text of a floating point parameter gives its
 value back

Six digits do not identify a float: reading a value and setting it back
(restoring an exported configuration for instance) changed it.
---
 parameter/FloatingPointParameterType.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/parameter/FloatingPointParameterType.cpp b/parameter/FloatingPointParameterType.cpp
index ca15085..8745605 100644
--- a/parameter/FloatingPointParameterType.cpp
+++ b/parameter/FloatingPointParameterType.cpp
@@ -224,6 +224,15 @@ bool CFloatingPointParameterType::fromBlackboard(
         auto fValue = utility::binaryCopy<float>(uiValue);
 
         ostrStream << fValue;
+
+        // Show all the digits if the value can't be set back without them
+        float fReadBack = 0.0f;
+
+        if (!convertTo(ostrStream.str(), fReadBack) || fReadBack != fValue) {
+
+            ostrStream.str("");
+            ostrStream << std::setprecision(std::numeric_limits<float>::max_digits10) << fValue;
+        }
     }
 
     strValue = ostrStream.str();
-- 
2.43.0


From 9560fe30b1039979c9b28ee89bf1c68056b4abac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:22 +0000
Subject: [PATCH 19/31] fix: read unsigned parameters back as signed integers
 without sign extension

A value above the half range, 200 in 8 bits say, was accepted by
setAsSignedInteger and read back negative by getAsSignedInteger.
---
 parameter/BaseIntegerParameterType.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/parameter/BaseIntegerParameterType.cpp b/parameter/BaseIntegerParameterType.cpp
index 16c60bf..0ce7901 100644
--- a/parameter/BaseIntegerParameterType.cpp
+++ b/parameter/BaseIntegerParameterType.cpp
@@ -58,13 +58,8 @@ bool CBaseIntegerParameterType::fromBlackboard(uint32_t &uiUserValue, uint32_t u
 bool CBaseIntegerParameterType::fromBlackboard(int32_t &iUserValue, uint32_t uiValue,
                                                CParameterAccessContext & /*ctx*/) const
 {
-    int32_t iValue = uiValue;
-
-    // Sign extend
-    signExtend(iValue);
-
-    // Do assign
-    iUserValue = iValue;
+    // Sign extend, if the parameter is signed
+    iUserValue = toPlainInteger(uiValue);
 
     return true;
 }
-- 
2.43.0


From 209aa72a6e501840617c65a570644529c5b20f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:45 +0000
Subject: [PATCH 20/31] fix: setSequenceAwareness needs its second argument

The command was registered as needing one argument only while its handler
reads two: 'setSequenceAwareness <domain>' read past the arguments of the
request.
---
 parameter/ParameterMgr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parameter/ParameterMgr.cpp b/parameter/ParameterMgr.cpp
index 3312384..8fd2ee1 100644
--- a/parameter/ParameterMgr.cpp
+++ b/parameter/ParameterMgr.cpp
@@ -195,7 +195,7 @@ const CParameterMgr::SRemoteCommandParserItem CParameterMgr::gastRemoteCommandPa
      "Delete all configurable domains"},
     {"renameDomain", &CParameterMgr::renameDomainCommandProcess, 2, "<domain> <new name>",
      "Rename configurable domain"},
-    {"setSequenceAwareness", &CParameterMgr::setSequenceAwarenessCommandProcess, 1,
+    {"setSequenceAwareness", &CParameterMgr::setSequenceAwarenessCommandProcess, 2,
      "<domain> true|false*", "Set configurable domain sequence awareness"},
     {"getSequenceAwareness", &CParameterMgr::getSequenceAwarenessCommandProcess, 1, "<domain>",
      "Get configurable domain sequence awareness"},
-- 
2.43.0


From caa3e41791b0386151e0c85f49dede486b26fe9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:07 +0000
Subject: [PATCH 21/31] fix: refuse malformed remote messages instead of
 trusting the sizes they contain

The size of a received message and the lengths of the strings in it come from
the peer, but were only checked by assertions: a client could make the server
throw, abort or read beyond its buffer. A string was also cut at its first null
character.
---
 remote-processor/AnswerMessage.cpp  |  7 +++--
 remote-processor/AnswerMessage.h    |  2 +-
 remote-processor/Message.cpp        | 42 ++++++++++++++++++++---------
 remote-processor/Message.h          | 12 ++++++---
 remote-processor/RequestMessage.cpp | 11 +++++---
 remote-processor/RequestMessage.h   |  2 +-
 6 files changed, 52 insertions(+), 24 deletions(-)

diff --git a/remote-processor/AnswerMessage.cpp b/remote-processor/AnswerMessage.cpp
index 7ae948f..5060671 100644
--- a/remote-processor/AnswerMessage.cpp
+++ b/remote-processor/AnswerMessage.cpp
@@ -79,12 +79,15 @@ void CAnswerMessage::fillDataToSend()
 }
 
 // Collect received data
-void CAnswerMessage::collectReceivedData()
+bool CAnswerMessage::collectReceivedData()
 {
     // Receive answer
     string strAnswer;
 
-    readString(strAnswer);
+    if (!readString(strAnswer)) {
+        return false;
+    }
 
     setAnswer(strAnswer);
+    return true;
 }
diff --git a/remote-processor/AnswerMessage.h b/remote-processor/AnswerMessage.h
index 2bc5147..f4433c4 100644
--- a/remote-processor/AnswerMessage.h
+++ b/remote-processor/AnswerMessage.h
@@ -49,7 +49,7 @@ private:
     // Fill data to send
     void fillDataToSend() override;
     // Collect received data
-    void collectReceivedData() override;
+    bool collectReceivedData() override;
 
     /** @return size of the answer message in bytes
     */
diff --git a/remote-processor/Message.cpp b/remote-processor/Message.cpp
index 66154ec..b763169 100644
--- a/remote-processor/Message.cpp
+++ b/remote-processor/Message.cpp
@@ -70,9 +70,12 @@ void CMessage::writeData(const void *pvData, size_t size)
     _uiIndex += size;
 }
 
-void CMessage::readData(void *pvData, size_t size)
+bool CMessage::readData(void *pvData, size_t size)
 {
-    assert(isValidAccess(_uiIndex, size));
+    // The content comes from the peer: it may be inconsistent
+    if (!isValidAccess(_uiIndex, size)) {
+        return false;
+    }
 
     auto first = begin(mData) + _uiIndex;
     auto last = first + size;
@@ -81,6 +84,7 @@ void CMessage::readData(void *pvData, size_t size)
     std::copy(first, last, destFirst);
 
     _uiIndex += size;
+    return true;
 }
 
 void CMessage::writeString(const string &strData)
@@ -94,24 +98,25 @@ void CMessage::writeString(const string &strData)
     writeData(strData.c_str(), size);
 }
 
-void CMessage::readString(string &strData)
+bool CMessage::readString(string &strData)
 {
     // Size
-    uint32_t uiSize;
-
-    readData(&uiSize, sizeof(uiSize));
+    uint32_t uiSize = 0;
 
-    // Data
-    std::vector<char> string(uiSize + 1);
+    if (!readData(&uiSize, sizeof(uiSize)) || uiSize > getRemainingDataSize()) {
+        return false;
+    }
 
     // Content
-    readData(string.data(), uiSize);
+    std::vector<char> content(uiSize);
 
-    // NULL-terminate string
-    string.back() = '\0';
+    if (!readData(content.data(), uiSize)) {
+        return false;
+    }
 
     // Output
-    strData = string.data();
+    strData.assign(begin(content), end(content));
+    return true;
 }
 
 size_t CMessage::getStringSize(const string &strData) const
@@ -214,6 +219,13 @@ CMessage::Result CMessage::serialize(Socket &&socket, bool bOut, string &strErro
             return error;
         }
 
+        // The message id is part of the size
+        if (uiSize < sizeof(_ucMsgId)) {
+
+            strError = "Size incorrect";
+            return error;
+        }
+
         // Msg Id
         if (!asio::read(asioSocket, asio::buffer(&_ucMsgId, sizeof(_ucMsgId)), ec)) {
             strError = string("Msg id read failed: ") + ec.message();
@@ -246,7 +258,11 @@ CMessage::Result CMessage::serialize(Socket &&socket, bool bOut, string &strErro
         }
 
         // Collect data in derived
-        collectReceivedData();
+        if (!collectReceivedData()) {
+
+            strError = "Message content incorrect";
+            return error;
+        }
     }
 
     return success;
diff --git a/remote-processor/Message.h b/remote-processor/Message.h
index 2a596f1..137e67e 100644
--- a/remote-processor/Message.h
+++ b/remote-processor/Message.h
@@ -88,8 +88,10 @@ protected:
     *
     * @param[out] pvData pointer to the data array
     * @param[in] uiSize array size in bytes
+    *
+    * @return false, without reading anything, if the message does not hold that much data
     */
-    void readData(void *pvData, size_t uiSize);
+    bool readData(void *pvData, size_t uiSize);
 
     /** Write string to the message
     *
@@ -100,8 +102,10 @@ protected:
     /** Write string to the message
     *
     * @param[out] strData the string to read to
+    *
+    * @return false if the message does not hold a complete string
     */
-    void readString(std::string &strData);
+    bool readString(std::string &strData);
 
     /** @return string length plus room to store its length
     *
@@ -124,8 +128,8 @@ private:
     void allocateData(size_t uiDataSize);
     // Fill data to send
     virtual void fillDataToSend() = 0;
-    // Collect received data
-    virtual void collectReceivedData() = 0;
+    // Collect received data, return false if it is malformed
+    virtual bool collectReceivedData() = 0;
 
     /** @return size of the transaction data in bytes
     */
diff --git a/remote-processor/RequestMessage.cpp b/remote-processor/RequestMessage.cpp
index 0c32438..fd04d74 100644
--- a/remote-processor/RequestMessage.cpp
+++ b/remote-processor/RequestMessage.cpp
@@ -104,12 +104,14 @@ void CRequestMessage::fillDataToSend()
 }
 
 // Collect received data
-void CRequestMessage::collectReceivedData()
+bool CRequestMessage::collectReceivedData()
 {
     // Receive command
     string strCommand;
 
-    readString(strCommand);
+    if (!readString(strCommand)) {
+        return false;
+    }
 
     setCommand(strCommand);
 
@@ -118,10 +120,13 @@ void CRequestMessage::collectReceivedData()
 
         string strArgument;
 
-        readString(strArgument);
+        if (!readString(strArgument)) {
+            return false;
+        }
 
         addArgument(strArgument);
     }
+    return true;
 }
 
 // Size
diff --git a/remote-processor/RequestMessage.h b/remote-processor/RequestMessage.h
index 57c0be0..524bb16 100644
--- a/remote-processor/RequestMessage.h
+++ b/remote-processor/RequestMessage.h
@@ -64,7 +64,7 @@ private:
     // Fill data to send
     void fillDataToSend() override;
     // Collect received data
-    void collectReceivedData() override;
+    bool collectReceivedData() override;
     // Size
     /**
      * @return size of the request message in bytes
-- 
2.43.0


From 3cedf7ab3dc8d139bc07f637406c2c38154a1f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:07 +0000
Subject: [PATCH 22/31] fix: refuse remote messages too big to be allocated

The exception ended the server thread.
---
 remote-processor/Message.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/remote-processor/Message.cpp b/remote-processor/Message.cpp
index b763169..9c6558d 100644
--- a/remote-processor/Message.cpp
+++ b/remote-processor/Message.cpp
@@ -34,6 +34,7 @@
 #include <vector>
 #include <numeric>
 #include <cassert>
+#include <exception>
 
 using std::string;
 
@@ -235,7 +236,12 @@ CMessage::Result CMessage::serialize(Socket &&socket, bool bOut, string &strErro
         // Data
 
         // Allocate
-        allocateData(uiSize - sizeof(_ucMsgId));
+        try {
+            allocateData(uiSize - sizeof(_ucMsgId));
+        } catch (const std::exception &) {
+            strError = "Message too big";
+            return error;
+        }
 
         // Data receive
         if (!asio::read(asioSocket, asio::buffer(mData), ec)) {
-- 
2.43.0


From 7335f1e29e7dd76a069790bf254c7411f13ce9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:07 +0000
Subject: [PATCH 23/31] fix: do not end the remote server when the peer is
 already gone

Setting an option of the accepted socket, or closing it, threw out of the server
thread.
---
 remote-processor/RemoteProcessorServer.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/remote-processor/RemoteProcessorServer.cpp b/remote-processor/RemoteProcessorServer.cpp
index d3fefdd..04fbfbd 100644
--- a/remote-processor/RemoteProcessorServer.cpp
+++ b/remote-processor/RemoteProcessorServer.cpp
@@ -88,10 +88,13 @@ void CRemoteProcessorServer::acceptRegister(IRemoteCommandHandler &commandHandle
             return;
         }
 
-        _socket.set_option(asio::ip::tcp::no_delay(true));
+        // The peer may already be gone: this must not end the server
+        asio::error_code ignored;
+
+        _socket.set_option(asio::ip::tcp::no_delay(true), ignored);
         handleNewConnection(commandHandler);
 
-        _socket.close();
+        _socket.close(ignored);
 
         acceptRegister(commandHandler);
     };
-- 
2.43.0


From 0146f3af609ac6c0c4c16509fea68b1dd50e5547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:07 +0000
Subject: [PATCH 24/31] fix: stop a background server that was not started

Its destructor waited for a thread that did not exist when the port could not be
listened on, which terminated the process.
---
 remote-processor/BackgroundRemoteProcessorServer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/remote-processor/BackgroundRemoteProcessorServer.cpp b/remote-processor/BackgroundRemoteProcessorServer.cpp
index 0820786..4be8e83 100644
--- a/remote-processor/BackgroundRemoteProcessorServer.cpp
+++ b/remote-processor/BackgroundRemoteProcessorServer.cpp
@@ -55,7 +55,9 @@ bool BackgroundRemoteProcessorServer::start(std::string &error)
 bool BackgroundRemoteProcessorServer::stop()
 {
     _server->stop();
-    return mServerSuccess.get();
+
+    // The server thread may not have been started or may already have been waited for
+    return mServerSuccess.valid() && mServerSuccess.get();
 }
 
 BackgroundRemoteProcessorServer::~BackgroundRemoteProcessorServer()
-- 
2.43.0


From d5a40c4535ff7425c4262429526ae3847d278fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:41 +0000
Subject: [PATCH 25/31] fix: refuse XML and byte writes through the handle of a
 non rogue element

---
 parameter/ElementHandle.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/parameter/ElementHandle.cpp b/parameter/ElementHandle.cpp
index ecf1bcf..103433b 100644
--- a/parameter/ElementHandle.cpp
+++ b/parameter/ElementHandle.cpp
@@ -174,6 +174,11 @@ bool ElementHandle::getAsXML(std::string &xmlValue, std::string &error) const
 
 bool ElementHandle::setAsXML(const std::string &xmlValue, std::string &error)
 {
+    if (not isRogue()) {
+        error = "Can not set element \"" + getPath() + "\" as it is not rogue.";
+        return false;
+    }
+
     return mParameterMgr.setSettingsAsXML(&mElement, xmlValue, error);
 }
 
@@ -190,6 +195,11 @@ bool ElementHandle::getAsBytes(std::vector<uint8_t> &bytesValue, std::string & /
 
 bool ElementHandle::setAsBytes(const std::vector<uint8_t> &bytesValue, std::string &error)
 {
+    if (not isRogue()) {
+        error = "Can not set element \"" + getPath() + "\" as it is not rogue.";
+        return false;
+    }
+
     return mParameterMgr.setSettingsAsBytes(mElement, bytesValue, error);
 }
 
-- 
2.43.0


From 8dd1bceec60fb996207fa768fa048a3cd8a963d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:41 +0000
Subject: [PATCH 26/31] fix: refuse empty arrays for scalar parameters

---
 parameter/ElementHandle.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parameter/ElementHandle.cpp b/parameter/ElementHandle.cpp
index 103433b..b341111 100644
--- a/parameter/ElementHandle.cpp
+++ b/parameter/ElementHandle.cpp
@@ -206,7 +206,9 @@ bool ElementHandle::setAsBytes(const std::vector<uint8_t> &bytesValue, std::stri
 template <class T>
 bool ElementHandle::setAs(const T value, string &error) const
 {
-    if (not checkSetValidity(getUserInputSize(value), error)) {
+    // An empty vector must not be taken for a scalar
+    if (not checkGetValidity(isVector<T>::value, error) or
+        not checkSetValidity(getUserInputSize(value), error)) {
         return false;
     }
     // Safe downcast thanks to isParameter check in checkSetValidity
-- 
2.43.0


From b7cb0882f7891a02ecb5e9fb0fec3a0b5c364d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:41 +0000
Subject: [PATCH 27/31] fix: say why an enum parameter without a size is
 refused

---
 parameter/EnumParameterType.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parameter/EnumParameterType.cpp b/parameter/EnumParameterType.cpp
index d54c26c..781e71c 100644
--- a/parameter/EnumParameterType.cpp
+++ b/parameter/EnumParameterType.cpp
@@ -81,6 +81,8 @@ bool CEnumParameterType::fromXml(const CXmlElement &xmlElement,
     // Size in bits
     size_t sizeInBits = 0;
     if (not xmlElement.getAttribute("Size", sizeInBits)) {
+        serializingContext.setError("Missing or invalid Size attribute on " +
+                                    xmlElement.getPath());
         return false;
     }
 
-- 
2.43.0


From 94450a3c11b57f0a9d889e5c77aa07c460d90b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:20 +0000
Subject: [PATCH 28/31] fix: leave a C handle not started when its start failed

---
 bindings/c/ParameterFramework.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bindings/c/ParameterFramework.cpp b/bindings/c/ParameterFramework.cpp
index 858994b..d426a67 100644
--- a/bindings/c/ParameterFramework.cpp
+++ b/bindings/c/ParameterFramework.cpp
@@ -235,11 +235,16 @@ bool pfwStart(PfwHandler *handle, const char *configPath, const PfwCriterion cri
 
     handle->setLogger(logger);
 
-    if (not handle->createCriteria(criteria, criterionNb)) {
+    if (not handle->createCriteria(criteria, criterionNb) or
+        not handle->pfw->start(status.msg())) {
+        // Not started: come back to the initial state
+        handle->criteria.clear();
+        delete handle->pfw;
+        handle->pfw = nullptr;
         return status.failure();
     }
 
-    return status.forward(handle->pfw->start(status.msg()));
+    return status.success();
 }
 
 const char *pfwGetLastError(const PfwHandler *handle)
-- 
2.43.0


From 929657584ebb48a95f0041650489eda7db302260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:49 +0000
Subject: [PATCH 29/31] fix: turn a malformed attribute of a root element into
 an error

---
 xmlserializer/XmlMemoryDocSink.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/xmlserializer/XmlMemoryDocSink.cpp b/xmlserializer/XmlMemoryDocSink.cpp
index 500ee3c..e4346e6 100644
--- a/xmlserializer/XmlMemoryDocSink.cpp
+++ b/xmlserializer/XmlMemoryDocSink.cpp
@@ -29,6 +29,7 @@
  */
 
 #include "XmlMemoryDocSink.h"
+#include "PfError.hpp"
 
 #define base CXmlDocSink
 
@@ -44,5 +45,10 @@ bool CXmlMemoryDocSink::doProcess(CXmlDocSource &xmlDocSource,
     xmlDocSource.getRootElement(docElement);
 
     // Load the structure from the XML Sink
-    return _pXmlSink->fromXml(docElement, serializingContext);
+    try {
+        return _pXmlSink->fromXml(docElement, serializingContext);
+    } catch (const PfError &e) {
+        serializingContext.appendLineToError(e.what());
+        return false;
+    }
 }
-- 
2.43.0


From 17b88f8c34580edb2b3c4864c525289e3eba7d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:23 +0000
Subject: [PATCH 30/31] fix: refuse a domain or subsystem description lacking a
 required element

---
 parameter/ConfigurableDomain.cpp | 16 ++++++++++++++--
 parameter/Subsystem.cpp          | 14 ++++++++++++--
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/parameter/ConfigurableDomain.cpp b/parameter/ConfigurableDomain.cpp
index 71bb3e8..89442b0 100644
--- a/parameter/ConfigurableDomain.cpp
+++ b/parameter/ConfigurableDomain.cpp
@@ -248,7 +248,13 @@ bool CConfigurableDomain::parseDomainConfigurations(const CXmlElement &xmlElemen
     // Get Configurations element
     CXmlElement xmlConfigurationsElement;
 
-    xmlElement.getChildElement("Configurations", xmlConfigurationsElement);
+    if (!xmlElement.getChildElement("Configurations", xmlConfigurationsElement)) {
+
+        serializingContext.setError("No Configurations element in ConfigurableDomain description " +
+                                    getName());
+
+        return false;
+    }
 
     // Parse it and create domain configuration objects
     return base::fromXml(xmlConfigurationsElement, serializingContext);
@@ -262,7 +268,13 @@ bool CConfigurableDomain::parseConfigurableElements(const CXmlElement &xmlElemen
 
     // Get ConfigurableElements element
     CXmlElement xmlConfigurableElementsElement;
-    xmlElement.getChildElement("ConfigurableElements", xmlConfigurableElementsElement);
+    if (!xmlElement.getChildElement("ConfigurableElements", xmlConfigurableElementsElement)) {
+
+        serializingContext.setError("No ConfigurableElements element in ConfigurableDomain description " +
+                                    getName());
+
+        return false;
+    }
 
     // Parse it and associate found configurable elements to it
     CXmlElement::CChildIterator it(xmlConfigurableElementsElement);
diff --git a/parameter/Subsystem.cpp b/parameter/Subsystem.cpp
index c422a88..cf1e5f6 100644
--- a/parameter/Subsystem.cpp
+++ b/parameter/Subsystem.cpp
@@ -125,7 +125,12 @@ bool CSubsystem::structureFromXml(const CXmlElement &xmlElement,
     }
 
     // XML populate ComponentLibrary
-    xmlElement.getChildElement("ComponentLibrary", childElement);
+    if (!xmlElement.getChildElement("ComponentLibrary", childElement)) {
+
+        serializingContext.setError("No ComponentLibrary in XML element '" + xmlElement.getPath() +
+                                    "'");
+        return false;
+    }
 
     if (!_pComponentLibrary->fromXml(childElement, serializingContext)) {
 
@@ -133,7 +138,12 @@ bool CSubsystem::structureFromXml(const CXmlElement &xmlElement,
     }
 
     // XML populate InstanceDefintion
-    xmlElement.getChildElement("InstanceDefintion", childElement);
+    if (!xmlElement.getChildElement("InstanceDefinition", childElement)) {
+
+        serializingContext.setError("No InstanceDefinition in XML element '" +
+                                    xmlElement.getPath() + "'");
+        return false;
+    }
     if (!_pInstanceDefinition->fromXml(childElement, serializingContext)) {
 
         return false;
-- 
2.43.0


From 65d641514125a2282278e9f84af6fd24ee1a201e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:46 +0000
Subject: [PATCH 31/31] fix: give the value of a mapping item looked up by its
 key, not the key

---
 parameter/MappingContext.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parameter/MappingContext.cpp b/parameter/MappingContext.cpp
index 3599296..2b9f14c 100644
--- a/parameter/MappingContext.cpp
+++ b/parameter/MappingContext.cpp
@@ -71,7 +71,7 @@ const string *CMappingContext::getItem(const string &strKey) const
     auto itemFound = find_if(begin(mItems), end(mItems), [&](const SItem &item) {
         return item.strKey != nullptr && strKey == *item.strKey;
     });
-    return (itemFound != end(mItems)) ? itemFound->strKey : nullptr;
+    return (itemFound != end(mItems)) ? itemFound->strItem : nullptr;
 }
 
 bool CMappingContext::iSet(size_t itemType) const
-- 
2.43.0

