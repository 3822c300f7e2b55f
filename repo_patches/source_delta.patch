From a1bd21306b59680bdd46e9efd4ab7062c8e18d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:46 +0000
Subject: [PATCH 01/55] fix: mod_p reads past the end of its operand

CONTEXT_P().mod() reduces a double width (128 limb) value but mod_p passed the
64 limb element directly, so the result depended on adjacent memory.
---
 src/electionguard/group.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index 4794df2..e702867 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -559,8 +559,12 @@ namespace electionguard
 
     std::unique_ptr<ElementModP> mod_p(const ElementModP &element)
     {
+        // the reduction operates on a double width value
+        uint64_t wide[MAX_P_LEN_DOUBLE] = {};
+        copy(element.get(), element.get() + MAX_P_LEN, begin(wide));
+
         uint64_t modResult[MAX_P_LEN] = {};
-        CONTEXT_P().mod(element.get(), static_cast<uint64_t *>(modResult));
+        CONTEXT_P().mod(static_cast<uint64_t *>(wide), static_cast<uint64_t *>(modResult));
         return make_unique<ElementModP>(modResult, true);
     }
 
-- 
2.43.0


From de99ce0786afff290db04ae27cdba5caf4343852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:46 +0000
Subject: [PATCH 02/55] fix: add_mod_p applies the offset of Q instead of P
 when the sum carries

---
 src/electionguard/group.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index e702867..755526e 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -547,7 +547,7 @@ namespace electionguard
 
             } else {
                 Bignum4096::add(static_cast<uint64_t *>(addResult),
-                                const_cast<uint64_t *>(Q_ARRAY_INVERSE_OFFSET),
+                                const_cast<uint64_t *>(P_ARRAY_INVERSE_OFFSET),
                                 static_cast<uint64_t *>(addResult));
             }
         }
-- 
2.43.0


From a4a08e0c8f37a3b84c4247c6ef7b1fdbd141df03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:04 +0000
Subject: [PATCH 03/55] fix: pow_mod_p ignores all but the low 512 bits of a
 mod P exponent

The exponent width is given to HACL in bits but the size in bytes was passed.
Exponents mod Q now use their own width rather than being widened.
---
 src/electionguard/group.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index 755526e..4c65498 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -606,7 +606,8 @@ namespace electionguard
         }
 
         uint64_t result[MAX_P_LEN] = {};
-        CONTEXT_P().modExp(base.get(), MAX_P_SIZE, exponent.get(), static_cast<uint64_t *>(result));
+        CONTEXT_P().modExp(base.get(), MAX_P_SIZE * 8U, exponent.get(),
+                           static_cast<uint64_t *>(result));
         return make_unique<ElementModP>(result, true);
     }
 
@@ -628,7 +629,10 @@ namespace electionguard
         }
 
         // if none exists, execute the modular exponentiation directly
-        return pow_mod_p(base, *exponent.toElementModP());
+        uint64_t result[MAX_P_LEN] = {};
+        CONTEXT_P().modExp(base.get(), MAX_Q_SIZE * 8U, exponent.get(),
+                           static_cast<uint64_t *>(result));
+        return make_unique<ElementModP>(result, true);
     }
 
     unique_ptr<ElementModP> g_pow_p(const ElementModP &exponent)
-- 
2.43.0


From 0481fd43ad0aa86b3af2fbd45b6857645137b2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:35 +0000
Subject: [PATCH 04/55] fix: fromHex accepts text that is not hexadecimal

stoi() stops at the first foreign character and accepts signs and white space,
so malformed strings decoded to unrelated elements instead of being refused.
---
 src/electionguard/convert.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/electionguard/convert.hpp b/src/electionguard/convert.hpp
index e4a0744..3249630 100644
--- a/src/electionguard/convert.hpp
+++ b/src/electionguard/convert.hpp
@@ -12,6 +12,7 @@
 #include <iostream>
 #include <karamel/LowStar_Endianness.h>
 #include <sstream>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -53,8 +54,16 @@ namespace electionguard
         return static_cast<uint32_t>(size);
     }
 
+    inline void throw_if_not_hex(const string &hexString)
+    {
+        if (hexString.find_first_not_of("0123456789abcdefABCDEF") != string::npos) {
+            throw std::invalid_argument("the string is not a hexadecimal number");
+        }
+    }
+
     inline void hex_to_bytes(const string &hex, uint8_t *bytesOut)
     {
+        throw_if_not_hex(hex);
         const size_t baseHex = 16;
         for (size_t i(0); i < hex.size(); i += 2) {
             string byteString = hex.substr(i, 2);
@@ -66,6 +75,7 @@ namespace electionguard
 
     inline vector<uint8_t> hex_to_bytes(const string &hexString)
     {
+        throw_if_not_hex(hexString);
         vector<uint8_t> bytes;
         const size_t baseHex = 16;
         for (size_t i = 0; i < hexString.size(); i += 2) {
-- 
2.43.0


From 99e4ace1105bd40e7aba860c5b3f7d06b423dd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:35 +0000
Subject: [PATCH 05/55] fix: fromHex refuses zero although toHex produces it

---
 src/electionguard/convert.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/electionguard/convert.hpp b/src/electionguard/convert.hpp
index 3249630..556778c 100644
--- a/src/electionguard/convert.hpp
+++ b/src/electionguard/convert.hpp
@@ -180,7 +180,12 @@ namespace electionguard
     inline string sanitize_hex_string(const string &hexString)
     {
         string sanitized;
-        string leftTrimmed = hexString.substr(hexString.find_first_not_of(LEADING_CHARS));
+        auto firstDigit = hexString.find_first_not_of(LEADING_CHARS);
+        if (firstDigit == string::npos && hexString.find('0') != string::npos) {
+            // nothing but zeroes
+            return "00";
+        }
+        string leftTrimmed = hexString.substr(firstDigit);
         bool isOdd = (leftTrimmed.size() % 2) != 0U;
         if (isOdd) {
             Log::trace("sanitize_hex_string: is odd");
-- 
2.43.0


From 4cd87bf52aa3f82408a28d69e2c969bd2a5c5a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:35 +0000
Subject: [PATCH 06/55] fix: constructing an element from an over-long vector
 overruns the stack

---
 src/electionguard/group.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index 4c65498..99267ed 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -114,6 +114,9 @@ namespace electionguard
 
         Impl(const vector<uint64_t> &elem, bool unchecked, bool fixedBase)
         {
+            if (elem.size() > MAX_P_LEN) {
+                throw out_of_range("Value for ElementModP is larger than allowed");
+            }
             uint64_t array[MAX_P_LEN] = {};
             copy(elem.begin(), elem.end(), static_cast<uint64_t *>(array));
             if (!unchecked && Bignum4096::lessThan(const_cast<uint64_t *>(P().get()),
@@ -275,6 +278,9 @@ namespace electionguard
 
         Impl(const vector<uint64_t> &elem, bool unchecked)
         {
+            if (elem.size() > MAX_Q_LEN) {
+                throw out_of_range("Value for ElementModQ is larger than allowed");
+            }
             uint64_t array[MAX_Q_LEN] = {};
             copy(elem.begin(), elem.end(), static_cast<uint64_t *>(array));
             if (!unchecked && Bignum256::lessThan(const_cast<uint64_t *>(Q().get()),
-- 
2.43.0


From 6a16f5e5d0a820d7f98b98e4a535b1782b80e5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:11 +0000
Subject: [PATCH 07/55] fix: rand_q clears five bits of every random element

The low limb was masked with the low limb of Q, so bits 2, 3, 4, 5 and 7 were
always zero; the value is reduced mod Q below anyway.
---
 src/electionguard/group.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index 99267ed..15e6b31 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -832,9 +832,6 @@ namespace electionguard
             throw bad_alloc();
         }
 
-        // first index of Q cannot cannod exceed 0xFFFFFFFFFFFFFF43
-        bigNum[0] = bigNum[0] & 0xFFFFFFFFFFFFFF43;
-
         uint64_t element[MAX_Q_LEN] = {0};
         memcpy(static_cast<uint64_t *>(element), bigNum, MAX_Q_SIZE);
         free(bigNum);
-- 
2.43.0


From d4b287252a62b78fcf77b25a04be820f4794e974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:19 +0000
Subject: [PATCH 08/55] fix: rand_p reads 512 bytes from a buffer of 256

---
 src/electionguard/group.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index 15e6b31..287a05f 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -808,7 +808,7 @@ namespace electionguard
 
     unique_ptr<ElementModP> rand_p()
     {
-        auto bytes = Random::getBytes();
+        auto bytes = Random::getBytes(ByteSize::SHA512);
 
         auto *bigNum = Bignum4096::fromBytes(MAX_P_SIZE, const_cast<uint8_t *>(bytes.data()));
         if (bigNum == nullptr) {
-- 
2.43.0


From 033e92b7e109a6fd100c94fa3d63b19ac11224ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:08 +0000
Subject: [PATCH 09/55] fix: the approval vote variation has no name and
 crashes hashing and serialization

---
 src/electionguard/manifest.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/electionguard/manifest.cpp b/src/electionguard/manifest.cpp
index e26e8fc..d202ab3 100644
--- a/src/electionguard/manifest.cpp
+++ b/src/electionguard/manifest.cpp
@@ -129,6 +129,7 @@ namespace electionguard
     const map<VoteVariationType, const string> _vote_variation_type<T>::_map = {
       {VoteVariationType::unknown, "unknown"},
       {VoteVariationType::one_of_m, "one_of_m"},
+      {VoteVariationType::approval, "approval"},
       {VoteVariationType::borda, "borda"},
       {VoteVariationType::cumulative, "cumulative"},
       {VoteVariationType::majority, "majority"},
-- 
2.43.0


From dfc279ccacc191cbe1f7c1b39fca81319074ae57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:08 +0000
Subject: [PATCH 10/55] fix: copying a contest description loses its votes
 allowed or dereferences an absent subtitle

---
 src/electionguard/manifest.cpp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/electionguard/manifest.cpp b/src/electionguard/manifest.cpp
index d202ab3..76c19c2 100644
--- a/src/electionguard/manifest.cpp
+++ b/src/electionguard/manifest.cpp
@@ -1094,17 +1094,16 @@ namespace electionguard
                 _selections.push_back(make_unique<SelectionDescription>(*element));
             }
 
-            // TODO: handle optional values
-            if (ballotTitle != nullptr) {
-                auto _ballotTitle = make_unique<InternationalizedText>(*ballotTitle);
-                auto _ballotSubtitle = make_unique<InternationalizedText>(*ballotSubtitle);
-                return make_unique<ContestDescription::Impl>(
-                  object_id, electoralDistrictId, sequenceOrder, voteVariation, numberElected,
-                  votesAllowed, name, move(_ballotTitle), move(_ballotSubtitle), move(_selections));
-            }
-            return make_unique<ContestDescription::Impl>(object_id, electoralDistrictId,
-                                                         sequenceOrder, voteVariation,
-                                                         numberElected, name, move(_selections));
+            auto _ballotTitle = ballotTitle != nullptr
+                                  ? make_unique<InternationalizedText>(*ballotTitle)
+                                  : nullptr;
+            auto _ballotSubtitle = ballotSubtitle != nullptr
+                                     ? make_unique<InternationalizedText>(*ballotSubtitle)
+                                     : nullptr;
+            return make_unique<ContestDescription::Impl>(
+              object_id, electoralDistrictId, sequenceOrder, voteVariation, numberElected,
+              votesAllowed, name, move(_ballotTitle), move(_ballotSubtitle), move(_selections),
+              primaryPartyIds);
         }
 
         [[nodiscard]] unique_ptr<ElementModQ> crypto_hash() const
-- 
2.43.0


From 53fa3060394dd17a25d3b9847706770532c7637d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:08 +0000
Subject: [PATCH 11/55] fix: hashing a contest description with only one of
 title and subtitle crashes or ignores it

---
 src/electionguard/manifest.cpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/electionguard/manifest.cpp b/src/electionguard/manifest.cpp
index 76c19c2..dccec4d 100644
--- a/src/electionguard/manifest.cpp
+++ b/src/electionguard/manifest.cpp
@@ -1114,19 +1114,18 @@ namespace electionguard
                 selectionRefs.push_back(ref<CryptoHashable>(*selection));
             }
 
-            // TODO: handle optional values
+            CryptoHashableType titleRef = nullptr;
             if (ballotTitle != nullptr) {
-                auto hash = hash_elems({object_id, sequenceOrder, electoralDistrictId,
-                                        getVoteVariationTypeString(voteVariation),
-                                        ref<CryptoHashable>(*ballotTitle),
-                                        ref<CryptoHashable>(*ballotSubtitle), name, numberElected,
-                                        votesAllowed, selectionRefs});
-                Log::trace("ContestDescription", hash.get());
-                return hash;
+                titleRef = ref<CryptoHashable>(*ballotTitle);
+            }
+            CryptoHashableType subtitleRef = nullptr;
+            if (ballotSubtitle != nullptr) {
+                subtitleRef = ref<CryptoHashable>(*ballotSubtitle);
             }
             auto hash = hash_elems({object_id, sequenceOrder, electoralDistrictId,
-                                    getVoteVariationTypeString(voteVariation), nullptr, nullptr,
-                                    name, numberElected, votesAllowed, selectionRefs});
+                                    getVoteVariationTypeString(voteVariation), titleRef,
+                                    subtitleRef, name, numberElected, votesAllowed,
+                                    selectionRefs});
             Log::trace("ContestDescription", hash.get());
             return hash;
         }
-- 
2.43.0


From 54a318e1f8f277e460c1abe0eb093e559b47998d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:08 +0000
Subject: [PATCH 12/55] fix: hashing a manifest with only one of name and
 contact information crashes or ignores it

---
 src/electionguard/manifest.cpp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/electionguard/manifest.cpp b/src/electionguard/manifest.cpp
index dccec4d..6baaba6 100644
--- a/src/electionguard/manifest.cpp
+++ b/src/electionguard/manifest.cpp
@@ -1522,21 +1522,20 @@ namespace electionguard
                 ballotStyleRefs.push_back(ref<CryptoHashable>(*element));
             }
 
-            // TODO: handle other optional cases
-            if (name == nullptr) {
-                auto hash = hash_elems(
-                  {electionScopeId, getElectionTypeString(type), timePointToIsoString(startDate),
-                   timePointToIsoString(endDate), nullptr, nullptr, geopoliticalUnitRefs, partyRefs,
-                   contestRefs, ballotStyleRefs});
-                Log::trace("Manifest:: NO NAME!", hash->toHex());
-                return hash;
+            CryptoHashableType nameRef = nullptr;
+            if (name != nullptr) {
+                nameRef = ref<CryptoHashable>(*name);
+            }
+            CryptoHashableType contactRef = nullptr;
+            if (contactInformation != nullptr) {
+                contactRef = ref<CryptoHashable>(*contactInformation);
             }
 
             auto hash =
               hash_elems({electionScopeId, getElectionTypeString(type),
-                          timePointToIsoString(startDate), timePointToIsoString(endDate),
-                          ref<CryptoHashable>(*name), ref<CryptoHashable>(*contactInformation),
-                          geopoliticalUnitRefs, partyRefs, contestRefs, ballotStyleRefs});
+                          timePointToIsoString(startDate), timePointToIsoString(endDate), nameRef,
+                          contactRef, geopoliticalUnitRefs, partyRefs, contestRefs,
+                          ballotStyleRefs});
 
             Log::trace("Manifest", hash->toHex());
             return hash;
-- 
2.43.0


From abce8f72c5a3b849e6970a563f3c6a908762d23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:08 +0000
Subject: [PATCH 13/55] fix: placeholder sequence orders are truncated to 32
 bits and collide with selections

---
 src/electionguard/manifest.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/electionguard/manifest.cpp b/src/electionguard/manifest.cpp
index 6baaba6..f6b3cf7 100644
--- a/src/electionguard/manifest.cpp
+++ b/src/electionguard/manifest.cpp
@@ -1995,7 +1995,7 @@ namespace electionguard
 
             vector<unique_ptr<SelectionDescription>> placeholders;
             placeholders.reserve(contest.get().getNumberElected());
-            uint32_t maxSequenceOrder = 0;
+            uint64_t maxSequenceOrder = 0;
             for (const auto &selection : contest.get().getSelections()) {
                 auto sequenceOrder = selection.get().getSequenceOrder();
                 if (sequenceOrder > maxSequenceOrder) {
-- 
2.43.0


From 022b0953cef27a7f4e1244539761691e69dda716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:08 +0000
Subject: [PATCH 14/55] fix: getContestsFor repeats a contest when a style
 lists its district twice

---
 src/electionguard/manifest.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/electionguard/manifest.cpp b/src/electionguard/manifest.cpp
index f6b3cf7..c35e940 100644
--- a/src/electionguard/manifest.cpp
+++ b/src/electionguard/manifest.cpp
@@ -1943,6 +1943,7 @@ namespace electionguard
             for (const auto &gpUnitId : style->getGeopoliticalUnitIds()) {
                 if (reference->getElectoralDistrictId() == gpUnitId) {
                     contests.push_back(ref(*reference));
+                    break;
                 }
             }
         }
-- 
2.43.0


From ac3d01c7f52716284ca67d0c187ee0184826b946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:08 +0000
Subject: [PATCH 15/55] fix: copying a party without a name gives the copy an
 empty name

---
 src/electionguard/manifest.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/electionguard/manifest.cpp b/src/electionguard/manifest.cpp
index c35e940..3c3be34 100644
--- a/src/electionguard/manifest.cpp
+++ b/src/electionguard/manifest.cpp
@@ -732,12 +732,8 @@ namespace electionguard
 
         [[nodiscard]] unique_ptr<Party::Impl> clone() const
         {
-            if (name != nullptr) {
-                auto _name = make_unique<InternationalizedText>(*name);
-                return make_unique<Party::Impl>(object_id, move(_name), abbreviation, color,
-                                                logoUri);
-            }
-            return make_unique<Party::Impl>(object_id, abbreviation, color, logoUri);
+            auto _name = name != nullptr ? make_unique<InternationalizedText>(*name) : nullptr;
+            return make_unique<Party::Impl>(object_id, move(_name), abbreviation, color, logoUri);
         }
 
         [[nodiscard]] unique_ptr<ElementModQ> crypto_hash() const
-- 
2.43.0


From 2ef3148bf70d697ef4c5f4cc4c61645d97247a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:08 +0000
Subject: [PATCH 16/55] fix: assigning a contest with placeholders leaves the
 contest itself unchanged

---
 src/electionguard/manifest.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/electionguard/manifest.cpp b/src/electionguard/manifest.cpp
index 3c3be34..89ad619 100644
--- a/src/electionguard/manifest.cpp
+++ b/src/electionguard/manifest.cpp
@@ -1387,8 +1387,7 @@ namespace electionguard
     ContestDescriptionWithPlaceholders &
     ContestDescriptionWithPlaceholders::operator=(ContestDescriptionWithPlaceholders other)
     {
-        // TODO: swap the base as well via cast?
-        //(ContestDescription) this = (ContestDescription)other;
+        ContestDescription::operator=(static_cast<const ContestDescription &>(other));
         swap(pimpl, other.pimpl);
         return *this;
     }
-- 
2.43.0


From 38311a5d824a6a504cf20480bcf60e6f42d5440a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:18 +0000
Subject: [PATCH 17/55] fix: contact information without a name is constructed
 from a null pointer

---
 include/electionguard/manifest.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/electionguard/manifest.hpp b/include/electionguard/manifest.hpp
index 733b693..d24c686 100644
--- a/include/electionguard/manifest.hpp
+++ b/include/electionguard/manifest.hpp
@@ -252,14 +252,14 @@ namespace electionguard
         ContactInformation(ContactInformation &&other);
         explicit ContactInformation(std::string name);
         explicit ContactInformation(std::vector<std::string> addressLine,
-                                    std::string name = nullptr);
+                                    std::string name = "");
         explicit ContactInformation(std::vector<std::string> addressLine,
                                     std::vector<std::unique_ptr<AnnotatedString>> phone,
-                                    std::string name = nullptr);
+                                    std::string name = "");
         explicit ContactInformation(std::vector<std::string> addressLine,
                                     std::vector<std::unique_ptr<AnnotatedString>> email,
                                     std::vector<std::unique_ptr<AnnotatedString>> phone,
-                                    std::string name = nullptr);
+                                    std::string name = "");
         ~ContactInformation();
 
         ContactInformation &operator=(ContactInformation other);
-- 
2.43.0


From f04bcf4e6928945f308e625020b295ee98d22ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:08 +0000
Subject: [PATCH 18/55] fix: parsing a manifest with a missing field aborts the
 process

---
 src/electionguard/serialize.hpp | 45 +++++++++++++++++----------------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index 3f96141..e809157 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -40,8 +40,8 @@ namespace electionguard
 
     static unique_ptr<AnnotatedString> annotatedStringFromJson(const json &j)
     {
-        auto value = j["value"].get<string>();
-        auto annotation = j["annotation"].get<string>();
+        auto value = j.at("value").get<string>();
+        auto annotation = j.at("annotation").get<string>();
         return make_unique<AnnotatedString>(annotation, value);
     }
 
@@ -52,8 +52,8 @@ namespace electionguard
 
     static unique_ptr<Language> languageFromJson(const json &j)
     {
-        auto value = j["value"].get<string>();
-        auto language = j["language"].get<string>();
+        auto value = j.at("value").get<string>();
+        auto language = j.at("language").get<string>();
         return make_unique<Language>(value, language);
     }
 
@@ -160,12 +160,13 @@ namespace electionguard
     {
         if (j.contains("contact_information") && !j["contact_information"].is_null()) {
             return make_unique<GeopoliticalUnit>(
-              j["object_id"].get<string>(), j["name"].get<string>(),
-              getReportingUnitType(j["type"].get<string>()),
+              j.at("object_id").get<string>(), j.at("name").get<string>(),
+              getReportingUnitType(j.at("type").get<string>()),
               contactInformationFromJson(j["contact_information"]));
         }
-        return make_unique<GeopoliticalUnit>(j["object_id"].get<string>(), j["name"].get<string>(),
-                                             getReportingUnitType(j["type"].get<string>()));
+        return make_unique<GeopoliticalUnit>(j.at("object_id").get<string>(),
+                                             j.at("name").get<string>(),
+                                             getReportingUnitType(j.at("type").get<string>()));
     }
 
     static json
@@ -230,7 +231,7 @@ namespace electionguard
                       ? internationalizedTextFromJson(j["name"])
                       : internationalizedTextFromJson(json("{}"));
 
-        return make_unique<Party>(j["object_id"].get<string>(), move(name), abbreviation, color,
+        return make_unique<Party>(j.at("object_id").get<string>(), move(name), abbreviation, color,
                                   logo_uri);
     }
 
@@ -279,7 +280,7 @@ namespace electionguard
 
     static unique_ptr<Candidate> candidateFromJson(const json &j)
     {
-        auto objectId = j["object_id"].get<string>();
+        auto objectId = j.at("object_id").get<string>();
         auto name = j.contains("name") && !j["name"].is_null()
                       ? internationalizedTextFromJson(j["name"])
                       : internationalizedTextFromJson("{}");
@@ -343,7 +344,7 @@ namespace electionguard
     static unique_ptr<BallotStyle> ballotStyleFromJson(const json &j)
     {
         vector<string> gpUnitIds;
-        for (const auto &element : j["geopolitical_unit_ids"]) {
+        for (const auto &element : j.at("geopolitical_unit_ids")) {
             gpUnitIds.push_back(element);
         }
 
@@ -356,7 +357,7 @@ namespace electionguard
 
         auto imageUri =
           j.contains("image_uri") && !j["image_uri"].is_null() ? j["image_uri"].get<string>() : "";
-        return make_unique<BallotStyle>(j["object_id"].get<string>(), gpUnitIds, partyIds,
+        return make_unique<BallotStyle>(j.at("object_id").get<string>(), gpUnitIds, partyIds,
                                         imageUri);
     }
 
@@ -389,9 +390,9 @@ namespace electionguard
 
     static unique_ptr<SelectionDescription> selectionDescriptionFromJson(const json &j)
     {
-        return make_unique<SelectionDescription>(j["object_id"].get<string>(),
-                                                 j["candidate_id"].get<string>(),
-                                                 j["sequence_order"].get<uint64_t>());
+        return make_unique<SelectionDescription>(j.at("object_id").get<string>(),
+                                                 j.at("candidate_id").get<string>(),
+                                                 j.at("sequence_order").get<uint64_t>());
     }
 
     static json
@@ -445,18 +446,18 @@ namespace electionguard
 
     static unique_ptr<ContestDescription> contestDescriptionFromJson(const json &j)
     {
-        auto objectId = j["object_id"].get<string>();
-        auto electoralDistrictId = j["electoral_district_id"].get<string>();
-        auto sequenceOrder = j["sequence_order"].get<uint64_t>();
-        auto variation = getVoteVariationType(j["vote_variation"].get<string>());
-        auto elected = j["number_elected"].get<uint64_t>();
+        auto objectId = j.at("object_id").get<string>();
+        auto electoralDistrictId = j.at("electoral_district_id").get<string>();
+        auto sequenceOrder = j.at("sequence_order").get<uint64_t>();
+        auto variation = getVoteVariationType(j.at("vote_variation").get<string>());
+        auto elected = j.at("number_elected").get<uint64_t>();
         auto allowed =
           j.contains("votes_allowed") && !j["votes_allowed"].is_null()
             ? j["votes_allowed"].get<uint64_t>()
           : variation == VoteVariationType::n_of_m || variation == VoteVariationType::one_of_m
             ? elected
             : 0;
-        auto name = j["name"].get<string>();
+        auto name = j.at("name").get<string>();
         auto title = j.contains("ballot_title") && !j["ballot_title"].is_null()
                        ? internationalizedTextFromJson(j["ballot_title"])
                        : nullptr;
@@ -464,7 +465,7 @@ namespace electionguard
                           ? internationalizedTextFromJson(j["ballot_subtitle"])
                           : nullptr;
 
-        auto selections = selectionDescriptionsFromJson(j["ballot_selections"]);
+        auto selections = selectionDescriptionsFromJson(j.at("ballot_selections"));
 
         return make_unique<ContestDescription>(
           objectId, electoralDistrictId, sequenceOrder, variation, elected, allowed, name,
-- 
2.43.0


From 07d95841e1c0400b08717272270dfba2e7033bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:08 +0000
Subject: [PATCH 19/55] fix: a manifest's contact information is dropped or
 invented by serialization

---
 src/electionguard/serialize.hpp | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index e809157..b19dc32 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -79,7 +79,7 @@ namespace electionguard
 
     static json contactInformationToJson(const ContactInformation &serializable)
     {
-        json serialized = {};
+        json serialized = json::object();
 
         if (!serializable.getName().empty()) {
             serialized["name"] = serializable.getName();
@@ -551,22 +551,19 @@ namespace electionguard
                 auto contests = contestDescriptionsFromJson(j["contests"]);
                 auto ballotStyles = ballotStylesFromJson(j["ballot_styles"]);
 
-                // TODO: just a stub for now.
-                // we need to handle all of the otpional serilization cases.
-                if (j.contains("name") && !j["name"].is_null()) {
-                    auto name = internationalizedTextFromJson(j["name"]);
-                    auto contactInformation = contactInformationFromJson(j["contact_information"]);
-
-                    return make_unique<electionguard::Manifest>(
-                      electionScopeId, getElectionType(type), timePointFromIsoString(startDate),
-                      timePointFromIsoString(endDate), move(geopoliticalUnits), move(parties),
-                      move(candidates), move(contests), move(ballotStyles), move(name),
-                      move(contactInformation));
-                }
+                auto name = j.contains("name") && !j["name"].is_null()
+                              ? internationalizedTextFromJson(j["name"])
+                              : nullptr;
+                auto contactInformation =
+                  j.contains("contact_information") && !j["contact_information"].is_null()
+                    ? contactInformationFromJson(j["contact_information"])
+                    : nullptr;
+
                 return make_unique<electionguard::Manifest>(
                   electionScopeId, getElectionType(type), timePointFromIsoString(startDate),
                   timePointFromIsoString(endDate), move(geopoliticalUnits), move(parties),
-                  move(candidates), move(contests), move(ballotStyles));
+                  move(candidates), move(contests), move(ballotStyles), move(name),
+                  move(contactInformation));
             }
 
           public:
-- 
2.43.0


From ec93836a9fb2098f62493b7a63bcaf8edbd00f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:08 +0000
Subject: [PATCH 20/55] fix: parties and candidates without a name get one by
 serialization

---
 src/electionguard/serialize.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index b19dc32..0e2d06a 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -229,7 +229,7 @@ namespace electionguard
         }
         auto name = j.contains("name") && !j["name"].is_null()
                       ? internationalizedTextFromJson(j["name"])
-                      : internationalizedTextFromJson(json("{}"));
+                      : nullptr;
 
         return make_unique<Party>(j.at("object_id").get<string>(), move(name), abbreviation, color,
                                   logo_uri);
@@ -283,7 +283,7 @@ namespace electionguard
         auto objectId = j.at("object_id").get<string>();
         auto name = j.contains("name") && !j["name"].is_null()
                       ? internationalizedTextFromJson(j["name"])
-                      : internationalizedTextFromJson("{}");
+                      : nullptr;
         bool isWriteIn = j.contains("is_write_in") && !j["is_write_in"].is_null()
                            ? j["is_write_in"].get<bool>()
                            : false;
-- 
2.43.0


From 5bdbd353261d3badf4b57cb944356e77c97e5148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:08 +0000
Subject: [PATCH 21/55] fix: an unlimited votes allowed of a contest changes
 when serialized

---
 src/electionguard/serialize.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index 0e2d06a..be0fa8c 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -423,10 +423,7 @@ namespace electionguard
         serialized["vote_variation"] = getVoteVariationTypeString(serializable.getVoteVariation());
         serialized["number_elected"] = serializable.getNumberElected();
 
-        if (serializable.getVotesAllowed() > 0) {
-            serialized["votes_allowed"] = serializable.getVotesAllowed();
-        }
-
+        serialized["votes_allowed"] = serializable.getVotesAllowed();
         serialized["name"] = serializable.getName();
 
         if (serializable.getBallotTitle() != nullptr) {
-- 
2.43.0


From 74e6c5e94f5027b163ea5e301744edc22c3a3206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:08 +0000
Subject: [PATCH 22/55] fix: a serialized internal manifest with ballot titles
 cannot be read back

---
 src/electionguard/serialize.hpp | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index be0fa8c..f5b65d0 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -624,14 +624,13 @@ namespace electionguard
                       {"ballot_placeholders", placeholders}};
 
                     if (contest.get().getBallotTitle() != nullptr) {
-                        contest_json["ballot_title"] = {
-                          {"text", internationalizedTextToJson(*contest.get().getBallotTitle())}};
+                        contest_json["ballot_title"] =
+                          internationalizedTextToJson(*contest.get().getBallotTitle());
                     }
 
                     if (contest.get().getBallotSubtitle() != nullptr) {
-                        contest_json["ballot_subtitle"] = {
-                          {"text",
-                           internationalizedTextToJson(*contest.get().getBallotSubtitle())}};
+                        contest_json["ballot_subtitle"] =
+                          internationalizedTextToJson(*contest.get().getBallotSubtitle());
                     }
 
                     contests.push_back(contest_json);
@@ -671,13 +670,17 @@ namespace electionguard
                     auto placeholders =
                       selectionDescriptionsFromJson(contest["ballot_placeholders"]);
 
-                    // TODO: ust a stub for now.
-                    // we need to handle all of the otpional serilization cases.
-                    if (contest.contains("ballot_title") && !contest["ballot_title"].is_null()) {
+                    if (contest.contains("votes_allowed") && !contest["votes_allowed"].is_null()) {
                         auto votes_allowed = contest["votes_allowed"].get<uint64_t>();
-                        auto ballotTitle = internationalizedTextFromJson(contest["ballot_title"]);
-                        auto ballotSubtitle =
-                          internationalizedTextFromJson(contest["ballot_subtitle"]);
+                        auto ballotTitle =
+                          contest.contains("ballot_title") && !contest["ballot_title"].is_null()
+                            ? internationalizedTextFromJson(contest["ballot_title"])
+                            : nullptr;
+                        auto ballotSubtitle = contest.contains("ballot_subtitle") &&
+                                                  !contest["ballot_subtitle"].is_null()
+                                                ? internationalizedTextFromJson(
+                                                    contest["ballot_subtitle"])
+                                                : nullptr;
 
                         contestDescriptions.push_back(
                           make_unique<ContestDescriptionWithPlaceholders>(
-- 
2.43.0


From 9b04f04f21f5229fc9be1e012028fe4692d6def1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:08 +0000
Subject: [PATCH 23/55] fix: write-ins of a compact ballot gain quotes and
 escapes when read back

---
 src/electionguard/serialize.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index f5b65d0..391c77a 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -1016,7 +1016,7 @@ namespace electionguard
 
                 vector<string> writeins;
                 for (auto &writein_json : in_writeins) {
-                    writeins.push_back(writein_json.dump());
+                    writeins.push_back(writein_json.get<string>());
                 }
 
                 return make_unique<electionguard::CompactPlaintextBallot>(
-- 
2.43.0


From ec526ecee0b07c7c554bb9ffd98d46794078077d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:08 +0000
Subject: [PATCH 24/55] fix: a compact ballot without selections cannot be read
 back

---
 src/electionguard/serialize.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index 391c77a..44144b9 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -1020,7 +1020,7 @@ namespace electionguard
                 }
 
                 return make_unique<electionguard::CompactPlaintextBallot>(
-                  object_id, style_id, move(selections), move(writeins));
+                  object_id, style_id, move(votes), move(writeins));
             }
 
           public:
-- 
2.43.0


From 6fbc9ec7181ce2af6ffeedfdfcbdf31785ee4e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:09 +0000
Subject: [PATCH 25/55] fix: extended data starting with a zero byte is
 shortened by serialization

---
 src/electionguard/convert.hpp   | 11 +++++++++++
 src/electionguard/serialize.hpp | 11 ++++-------
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/electionguard/convert.hpp b/src/electionguard/convert.hpp
index 556778c..d787278 100644
--- a/src/electionguard/convert.hpp
+++ b/src/electionguard/convert.hpp
@@ -214,6 +214,17 @@ namespace electionguard
         return detectedFirstNonZeroBytes ? (stream.str()) : "00";
     }
 
+    /// Convert to hex keeping every byte, including the leading zero bytes
+    inline string all_bytes_to_hex(const vector<uint8_t> &bytes)
+    {
+        stringstream stream;
+        stream << hex << uppercase;
+        for (auto byte : bytes) {
+            stream << setw(2) << setfill('0') << static_cast<uint16_t>(byte);
+        }
+        return stream.str();
+    }
+
     template <typename T, size_t S> string bytes_to_hex(T (&data)[S])
     {
         vector<T> vec(begin(data), end(data));
diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index 44144b9..09b6ea8 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -1108,8 +1108,8 @@ namespace electionguard
                     auto e = contest.get().getHashedElGamalCiphertext();
                     json extended_data = {
                       {"pad", e->getPad()->toHex()},
-                      {"data", bytes_to_hex(e->getData())},
-                      {"mac", bytes_to_hex(e->getMac())},
+                      {"data", all_bytes_to_hex(e->getData())},
+                      {"mac", all_bytes_to_hex(e->getMac())},
                     };
                     json contest_props = {
                       {"object_id", contest.get().getObjectId()},
@@ -1178,14 +1178,11 @@ namespace electionguard
                     auto hashed_el_gamal_data = hashed_el_gamal["data"].get<string>();
                     auto hashed_el_gamal_mac = hashed_el_gamal["mac"].get<string>();
 
-                    auto hashed_el_gamal_data_sanitized = sanitize_hex_string(hashed_el_gamal_data);
-                    auto hashed_el_gamal_mac_sanitized = sanitize_hex_string(hashed_el_gamal_mac);
-
                     auto deserializedHashedElGamal =
                       make_unique<electionguard::HashedElGamalCiphertext>(
                         ElementModP::fromHex(hashed_el_gamal_pad),
-                        hex_to_bytes(hashed_el_gamal_data_sanitized),
-                        hex_to_bytes(hashed_el_gamal_mac_sanitized));
+                        hex_to_bytes(hashed_el_gamal_data),
+                        hex_to_bytes(hashed_el_gamal_mac));
 
                     auto proof = contest["proof"];
                     auto contest_proof_pad = proof["pad"].get<string>();
-- 
2.43.0


From 8427e2826d0ebaca784828a71c95261d9de720cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:41 +0000
Subject: [PATCH 26/55] fix: cloning a disjunctive proof replaces its one-data
 by its one-pad

---
 src/electionguard/chaum_pedersen.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/electionguard/chaum_pedersen.cpp b/src/electionguard/chaum_pedersen.cpp
index 6d665a3..61e4997 100644
--- a/src/electionguard/chaum_pedersen.cpp
+++ b/src/electionguard/chaum_pedersen.cpp
@@ -295,7 +295,7 @@ namespace electionguard
     {
         return make_unique<DisjunctiveChaumPedersenProof>(
           pimpl->proof_zero_pad->clone(), pimpl->proof_zero_data->clone(),
-          pimpl->proof_one_pad->clone(), pimpl->proof_one_pad->clone(),
+          pimpl->proof_one_pad->clone(), pimpl->proof_one_data->clone(),
           pimpl->proof_zero_challenge->clone(), pimpl->proof_one_challenge->clone(),
           pimpl->challenge->clone(), pimpl->proof_zero_response->clone(),
           pimpl->proof_one_response->clone());
-- 
2.43.0


From 310dbb3fd78fdb210f5db85c105ea62a985f4741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:41 +0000
Subject: [PATCH 27/55] fix: copying a key pair empties the original

---
 src/electionguard/elgamal.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/electionguard/elgamal.cpp b/src/electionguard/elgamal.cpp
index eb2e1c6..af38252 100644
--- a/src/electionguard/elgamal.cpp
+++ b/src/electionguard/elgamal.cpp
@@ -39,7 +39,7 @@ namespace electionguard
     // Lifecycle Methods
 
     ElGamalKeyPair::ElGamalKeyPair(const ElGamalKeyPair &other)
-        : pimpl(new Impl(move(*other.pimpl)))
+        : pimpl(new Impl(other.pimpl->secretKey->clone(), other.pimpl->publicKey->clone()))
     {
     }
 
-- 
2.43.0


From b8d3f0675a3538c027dd9c8a493c0208b5d39491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:41 +0000
Subject: [PATCH 28/55] fix: copying an encrypted ballot without nonces, proofs
 or extended data crashes

---
 src/electionguard/ballot.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/electionguard/ballot.cpp b/src/electionguard/ballot.cpp
index 234a6ec..99bd156 100644
--- a/src/electionguard/ballot.cpp
+++ b/src/electionguard/ballot.cpp
@@ -173,9 +173,10 @@ namespace electionguard
         {
             auto _descriptionHash = make_unique<ElementModQ>(*descriptionHash);
             auto _ciphertext = make_unique<ElGamalCiphertext>(*ciphertext);
-            auto _nonce = make_unique<ElementModQ>(*nonce);
+            auto _nonce = nonce != nullptr ? make_unique<ElementModQ>(*nonce) : nullptr;
             auto _cryptoHash = make_unique<ElementModQ>(*cryptoHash);
-            auto _proof = make_unique<DisjunctiveChaumPedersenProof>(*proof);
+            auto _proof =
+              proof != nullptr ? make_unique<DisjunctiveChaumPedersenProof>(*proof) : nullptr;
             auto _extendedData =
               extendedData != nullptr ? make_unique<ElGamalCiphertext>(*extendedData) : nullptr;
 
@@ -550,11 +551,14 @@ namespace electionguard
             }
 
             auto _descriptionHash = make_unique<ElementModQ>(*descriptionHash);
-            auto _nonce = make_unique<ElementModQ>(*nonce);
+            auto _nonce = nonce != nullptr ? make_unique<ElementModQ>(*nonce) : nullptr;
             auto _accumulation = make_unique<ElGamalCiphertext>(*ciphertextAccumulation);
             auto _cryptoHash = make_unique<ElementModQ>(*cryptoHash);
-            auto _proof = make_unique<ConstantChaumPedersenProof>(*proof);
-            auto _hashedElGamal = make_unique<HashedElGamalCiphertext>(*hashedElGamal);
+            auto _proof =
+              proof != nullptr ? make_unique<ConstantChaumPedersenProof>(*proof) : nullptr;
+            auto _hashedElGamal = hashedElGamal != nullptr
+                                    ? make_unique<HashedElGamalCiphertext>(*hashedElGamal)
+                                    : nullptr;
 
             return make_unique<CiphertextBallotContest::Impl>(
               object_id, sequenceOrder, move(_descriptionHash), move(_selections), move(_nonce),
@@ -632,7 +636,7 @@ namespace electionguard
 
     unique_ptr<HashedElGamalCiphertext> CiphertextBallotContest::getHashedElGamalCiphertext() const
     {
-        return pimpl->hashedElGamal.get()->clone();
+        return pimpl->hashedElGamal != nullptr ? pimpl->hashedElGamal->clone() : nullptr;
     }
 
     // Interface Overrides
@@ -930,7 +934,7 @@ namespace electionguard
             auto _manifestHash = make_unique<ElementModQ>(*manifestHash);
             auto _ballotCodeSeed = make_unique<ElementModQ>(*ballotCodeSeed);
             auto _ballotCode = make_unique<ElementModQ>(*ballotCode);
-            auto _nonce = make_unique<ElementModQ>(*nonce);
+            auto _nonce = nonce != nullptr ? make_unique<ElementModQ>(*nonce) : nullptr;
             auto _cryptoHash = make_unique<ElementModQ>(*cryptoHash);
             return make_unique<CiphertextBallot::Impl>(
               object_id, styleId, move(_manifestHash), move(_ballotCodeSeed), move(_contests),
-- 
2.43.0


From b9774ecbd247511c9c5023650c0e3821ed259174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:41 +0000
Subject: [PATCH 29/55] fix: verifying a contest without a proof crashes
 instead of failing

---
 src/electionguard/ballot.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/electionguard/ballot.cpp b/src/electionguard/ballot.cpp
index 99bd156..ea57646 100644
--- a/src/electionguard/ballot.cpp
+++ b/src/electionguard/ballot.cpp
@@ -744,6 +744,7 @@ namespace electionguard
         }
 
         bool valid_proof =
+          proof_exists &&
           pimpl->proof->isValid(*computedAccumulation, elgamalPublicKey, cryptoExtendedBaseHash);
 
         bool success = consistent_encryption_seed && consistent_crypto_hash && proof_exists &&
-- 
2.43.0


From a22398188189e12a4cb8119d231783d4d4de5b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:41 +0000
Subject: [PATCH 30/55] fix: an invalid proof is overlooked when a later
 element has the same identifier

---
 src/electionguard/ballot.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/electionguard/ballot.cpp b/src/electionguard/ballot.cpp
index ea57646..7a5df72 100644
--- a/src/electionguard/ballot.cpp
+++ b/src/electionguard/ballot.cpp
@@ -1081,12 +1081,15 @@ namespace electionguard
         for (const auto &contest : this->getContests()) {
             for (const auto &selection : contest.get().getSelections()) {
                 string key = contest.get().getObjectId() + '-' + selection.get().getObjectId();
-                validProofs[key] = selection.get().isValidEncryption(
+                bool valid = selection.get().isValidEncryption(
                   *selection.get().getDescriptionHash(), elgamalPublicKey, cryptoExtendedBaseHash);
+                // identifiers are not necessarily unique, so never overwrite a failure
+                validProofs[key] = validProofs.emplace(key, true).first->second && valid;
             }
             string key = contest.get().getObjectId();
-            validProofs[key] = contest.get().isValidEncryption(
+            bool valid = contest.get().isValidEncryption(
               *contest.get().getDescriptionHash(), elgamalPublicKey, cryptoExtendedBaseHash);
+            validProofs[key] = validProofs.emplace(key, true).first->second && valid;
         }
 
         bool isValid = true;
-- 
2.43.0


From 5977df77cb7d15933cee3a670d04ee201db1b807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:41 +0000
Subject: [PATCH 31/55] fix: a ballot made from contests out of sequence order
 does not verify

---
 src/electionguard/ballot.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/electionguard/ballot.cpp b/src/electionguard/ballot.cpp
index 7a5df72..e1d34ed 100644
--- a/src/electionguard/ballot.cpp
+++ b/src/electionguard/ballot.cpp
@@ -1029,6 +1029,12 @@ namespace electionguard
             contestsRefs.push_back(ref(*contest));
         }
 
+        sort(contestsRefs.begin(), contestsRefs.end(),
+             [](const reference_wrapper<CiphertextBallotContest> left,
+                const reference_wrapper<CiphertextBallotContest> right) {
+                 return left.get().getSequenceOrder() < right.get().getSequenceOrder();
+             });
+
         auto cryptoHash = makeCryptoHash(objectId, contestsRefs, manifestHash);
         auto ballotTimestamp = timestamp == 0 ? getSystemTimestamp() : timestamp;
         if (!ballotCodeSeed) {
-- 
2.43.0


From 15713a36d0e28a1283ba006540a1c5f069f3a1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:22 +0000
Subject: [PATCH 32/55] fix: serializing an encrypted ballot without extended
 data or nonces crashes

---
 src/electionguard/serialize.hpp | 41 ++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index 09b6ea8..eac2187 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -1087,7 +1087,7 @@ namespace electionguard
                           {"crypto_hash", selection.get().getCryptoHash()->toHex()},
                           {"proof", selection_proof}};
 
-                        if (withNonces) {
+                        if (withNonces && selection.get().getNonce() != nullptr) {
                             selection_props["nonce"] = selection.get().getNonce()->toHex();
                         }
                         selections.push_back(selection_props);
@@ -1105,12 +1105,14 @@ namespace electionguard
                       {"response", p->getResponse()->toHex()},
                       {"constant", p->getConstant()},
                     };
-                    auto e = contest.get().getHashedElGamalCiphertext();
-                    json extended_data = {
-                      {"pad", e->getPad()->toHex()},
-                      {"data", all_bytes_to_hex(e->getData())},
-                      {"mac", all_bytes_to_hex(e->getMac())},
-                    };
+                    json extended_data;
+                    if (auto e = contest.get().getHashedElGamalCiphertext()) {
+                        extended_data = {
+                          {"pad", e->getPad()->toHex()},
+                          {"data", all_bytes_to_hex(e->getData())},
+                          {"mac", all_bytes_to_hex(e->getMac())},
+                        };
+                    }
                     json contest_props = {
                       {"object_id", contest.get().getObjectId()},
                       {"sequence_order", contest.get().getSequenceOrder()},
@@ -1121,7 +1123,7 @@ namespace electionguard
                       {"proof", contest_proof},
                       {"extended_data", extended_data},
                     };
-                    if (withNonces) {
+                    if (withNonces && contest.get().getNonce() != nullptr) {
                         contest_props["nonce"] = contest.get().getNonce()->toHex();
                     }
 
@@ -1137,7 +1139,7 @@ namespace electionguard
                   {"timestamp", serializable.getTimestamp()},
                   {"crypto_hash", serializable.getCryptoHash()->toHex()},
                 };
-                if (withNonces) {
+                if (withNonces && serializable.getNonce() != nullptr) {
                     result["nonce"] = serializable.getNonce()->toHex();
                 }
                 return result;
@@ -1174,15 +1176,18 @@ namespace electionguard
                     auto contest_crypto_hash = contest["crypto_hash"].get<string>();
 
                     auto hashed_el_gamal = contest["extended_data"];
-                    auto hashed_el_gamal_pad = hashed_el_gamal["pad"].get<string>();
-                    auto hashed_el_gamal_data = hashed_el_gamal["data"].get<string>();
-                    auto hashed_el_gamal_mac = hashed_el_gamal["mac"].get<string>();
-
-                    auto deserializedHashedElGamal =
-                      make_unique<electionguard::HashedElGamalCiphertext>(
-                        ElementModP::fromHex(hashed_el_gamal_pad),
-                        hex_to_bytes(hashed_el_gamal_data),
-                        hex_to_bytes(hashed_el_gamal_mac));
+                    unique_ptr<electionguard::HashedElGamalCiphertext> deserializedHashedElGamal;
+                    if (!hashed_el_gamal.is_null()) {
+                        auto hashed_el_gamal_pad = hashed_el_gamal["pad"].get<string>();
+                        auto hashed_el_gamal_data = hashed_el_gamal["data"].get<string>();
+                        auto hashed_el_gamal_mac = hashed_el_gamal["mac"].get<string>();
+
+                        deserializedHashedElGamal =
+                          make_unique<electionguard::HashedElGamalCiphertext>(
+                            ElementModP::fromHex(hashed_el_gamal_pad),
+                            hex_to_bytes(hashed_el_gamal_data),
+                            hex_to_bytes(hashed_el_gamal_mac));
+                    }
 
                     auto proof = contest["proof"];
                     auto contest_proof_pad = proof["pad"].get<string>();
-- 
2.43.0


From 33fbdbc165f7987df567b8d0e5ea9f0f7cd880a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:50 +0000
Subject: [PATCH 33/55] fix: encrypting a compact ballot of an unknown style
 dereferences a null pointer

---
 src/electionguard/encrypt.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/electionguard/encrypt.cpp b/src/electionguard/encrypt.cpp
index e6aa92a..0daf445 100644
--- a/src/electionguard/encrypt.cpp
+++ b/src/electionguard/encrypt.cpp
@@ -233,6 +233,9 @@ namespace electionguard
                                                      const InternalManifest &manifest)
     {
         auto *style = manifest.getBallotStyle(ballot.getStyleId());
+        if (style == nullptr) {
+            throw invalid_argument("could not find a ballot style: " + ballot.getStyleId());
+        }
 
         vector<unique_ptr<PlaintextBallotContest>> contests;
         // loop through the contests for the ballot style
-- 
2.43.0


From 13d16ddfa84a8ff4d3d4350e4378a16c30bec45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:20 +0000
Subject: [PATCH 34/55] fix: a compact ballot encrypted or expanded with
 precomputed values cannot be reproduced

---
 include/electionguard/elgamal.hpp    |  3 ++-
 include/electionguard/encrypt.hpp    | 10 ++++++----
 src/electionguard/ballot_compact.cpp |  3 ++-
 src/electionguard/elgamal.cpp        |  8 ++++++--
 src/electionguard/encrypt.cpp        | 30 ++++++++++++++++++----------
 5 files changed, 35 insertions(+), 19 deletions(-)

diff --git a/include/electionguard/elgamal.hpp b/include/electionguard/elgamal.hpp
index 251e81c..26fd7be 100644
--- a/include/electionguard/elgamal.hpp
+++ b/include/electionguard/elgamal.hpp
@@ -269,7 +269,8 @@ namespace electionguard
     EG_API std::unique_ptr<HashedElGamalCiphertext>
     hashedElgamalEncrypt(std::vector<uint8_t> plaintext, const ElementModQ &nonce,
                          const ElementModP &publicKey, const ElementModQ &descriptionHash,
-                         padded_data_size_t max_len, bool allow_truncation);
+                         padded_data_size_t max_len, bool allow_truncation,
+                         bool usePrecomputedValues = true);
 
 } // namespace electionguard
 
diff --git a/include/electionguard/encrypt.hpp b/include/electionguard/encrypt.hpp
index ee072f4..9009a48 100644
--- a/include/electionguard/encrypt.hpp
+++ b/include/electionguard/encrypt.hpp
@@ -129,7 +129,8 @@ namespace electionguard
     encryptSelection(const PlaintextBallotSelection &selection,
                      const SelectionDescription &description, const ElementModP &elgamalPublicKey,
                      const ElementModQ &cryptoExtendedBaseHash, const ElementModQ &nonceSeed,
-                     bool isPlaceholder = false, bool shouldVerifyProofs = true);
+                     bool isPlaceholder = false, bool shouldVerifyProofs = true,
+                     bool usePrecomputedValues = true);
 
     /// <summary>
     /// Gets overvote and write in information from the selections in a contest
@@ -169,7 +170,8 @@ namespace electionguard
     encryptContest(const PlaintextBallotContest &contest, const InternalManifest &internalManifest,
                    const ContestDescriptionWithPlaceholders &description,
                    const ElementModP &elgamalPublicKey, const ElementModQ &cryptoExtendedBaseHash,
-                   const ElementModQ &nonceSeed, bool shouldVerifyProofs = true);
+                   const ElementModQ &nonceSeed, bool shouldVerifyProofs = true,
+                   bool usePrecomputedValues = true);
 
     /// <summary>
     /// Encrypt the contests of a specific `Ballot` in the context of a specific `CiphertextElectionContext`
@@ -192,7 +194,7 @@ namespace electionguard
     EG_API std::vector<std::unique_ptr<CiphertextBallotContest>>
     encryptContests(const PlaintextBallot &ballot, const InternalManifest &internalManifest,
                     const CiphertextElectionContext &context, const ElementModQ &nonceSeed,
-                    bool shouldVerifyProofs = true);
+                    bool shouldVerifyProofs = true, bool usePrecomputedValues = true);
 
     /// <summary>
     /// Encrypt a specific `Ballot` in the context of a specific `CiphertextElectionContext`
@@ -218,7 +220,7 @@ namespace electionguard
     encryptBallot(const PlaintextBallot &ballot, const InternalManifest &internalManifest,
                   const CiphertextElectionContext &context, const ElementModQ &ballotCodeSeed,
                   std::unique_ptr<ElementModQ> nonce = nullptr, uint64_t timestamp = 0,
-                  bool shouldVerifyProofs = true);
+                  bool shouldVerifyProofs = true, bool usePrecomputedValues = true);
 
     /// <summary>
     /// Encrypt a specific `Ballot` in the context of a specific `CiphertextElectionContext`
diff --git a/src/electionguard/ballot_compact.cpp b/src/electionguard/ballot_compact.cpp
index 44c6a5c..ba3df52 100644
--- a/src/electionguard/ballot_compact.cpp
+++ b/src/electionguard/ballot_compact.cpp
@@ -327,7 +327,8 @@ namespace electionguard
         auto plaintext = expandCompactPlaintextBallot(*compactCiphertext.getPlaintext(), manifest);
         auto ciphertext =
           encryptBallot(*plaintext, manifest, context, *compactCiphertext.getBallotCodeSeed(),
-                        compactCiphertext.getNonce()->clone(), compactCiphertext.getTimestamp());
+                        compactCiphertext.getNonce()->clone(), compactCiphertext.getTimestamp(),
+                        true, false);
 
         if (*ciphertext->getBallotCode() != *compactCiphertext.getBallotCode()) {
             throw runtime_error("The regenerated ballot code does not match");
diff --git a/src/electionguard/elgamal.cpp b/src/electionguard/elgamal.cpp
index af38252..5c872e9 100644
--- a/src/electionguard/elgamal.cpp
+++ b/src/electionguard/elgamal.cpp
@@ -446,7 +446,8 @@ namespace electionguard
     unique_ptr<HashedElGamalCiphertext>
     hashedElgamalEncrypt(std::vector<uint8_t> message, const ElementModQ &nonce,
                          const ElementModP &publicKey, const ElementModQ &encryption_seed,
-                         padded_data_size_t max_len, bool allow_truncation)
+                         padded_data_size_t max_len, bool allow_truncation,
+                         bool usePrecomputedValues /* = true */)
     {
         vector<uint8_t> ciphertext;
         vector<uint8_t> plaintext_on_boundary;
@@ -507,7 +508,10 @@ namespace electionguard
         unique_ptr<ElementModP> g_to_r = nullptr;
         unique_ptr<ElementModP> publicKey_to_r = nullptr;
         // check if the are precompute values rather than doing the exponentiations here
-        unique_ptr<Triple> triple = PrecomputeBufferContext::getTriple();
+        unique_ptr<Triple> triple = nullptr;
+        if (usePrecomputedValues) {
+            triple = PrecomputeBufferContext::getTriple();
+        }
         if (triple != nullptr) {
             g_to_r = triple->get_g_to_exp();
             publicKey_to_r = triple->get_pubkey_to_exp();
diff --git a/src/electionguard/encrypt.cpp b/src/electionguard/encrypt.cpp
index 0daf445..d455dd8 100644
--- a/src/electionguard/encrypt.cpp
+++ b/src/electionguard/encrypt.cpp
@@ -264,7 +264,8 @@ namespace electionguard
     encryptSelection(const PlaintextBallotSelection &selection,
                      const SelectionDescription &description, const ElementModP &elgamalPublicKey,
                      const ElementModQ &cryptoExtendedBaseHash, const ElementModQ &nonceSeed,
-                     bool isPlaceholder /* = false */, bool shouldVerifyProofs /* = true */)
+                     bool isPlaceholder /* = false */, bool shouldVerifyProofs /* = true */,
+                     bool usePrecomputedValues /* = true */)
     {
         unique_ptr<CiphertextBallotSelection> encrypted = NULL;
         unique_ptr<ElGamalCiphertext> ciphertext;
@@ -287,7 +288,9 @@ namespace electionguard
 
         // this method runs off to look in the precomputed values buffer and if
         // it finds what it needs then the returned class will contain those values
-        precomputedTwoTriplesAndAQuad = PrecomputeBufferContext::getTwoTriplesAndAQuadruple();
+        if (usePrecomputedValues) {
+            precomputedTwoTriplesAndAQuad = PrecomputeBufferContext::getTwoTriplesAndAQuadruple();
+        }
 
         // check if we found the precomputed values needed
         if (precomputedTwoTriplesAndAQuad != nullptr) {
@@ -411,7 +414,8 @@ namespace electionguard
     encryptContest(const PlaintextBallotContest &contest, const InternalManifest &internalManifest,
                    const ContestDescriptionWithPlaceholders &description,
                    const ElementModP &elgamalPublicKey, const ElementModQ &cryptoExtendedBaseHash,
-                   const ElementModQ &nonceSeed, bool shouldVerifyProofs /* = true */)
+                   const ElementModQ &nonceSeed, bool shouldVerifyProofs /* = true */,
+                   bool usePrecomputedValues /* = true */)
 
     {
         // Validate Input
@@ -477,7 +481,8 @@ namespace electionguard
 
                 encryptedSelections.push_back(encryptSelection(
                   *selection_ptr, selectionDescription.get(), *elgamalPublicKey_ptr,
-                  *cryptoExtendedBaseHash_ptr, *sharedNonce.get(), false, shouldVerifyProofs));
+                  *cryptoExtendedBaseHash_ptr, *sharedNonce.get(), false, shouldVerifyProofs,
+                  usePrecomputedValues));
             } else {
                 // Should never happen since the contest is normalized by emplaceMissingValues
                 throw runtime_error("encryptedContest:: Error constructing encrypted selection");
@@ -505,7 +510,8 @@ namespace electionguard
             auto placeholderSelection = selectionFrom(placeholder, true, selectPlaceholder);
             encryptedSelections.push_back(encryptSelection(
               *placeholderSelection, placeholder, *elgamalPublicKey_ptr,
-              *cryptoExtendedBaseHash_ptr, *sharedNonce.get(), true, shouldVerifyProofs));
+              *cryptoExtendedBaseHash_ptr, *sharedNonce.get(), true, shouldVerifyProofs,
+              usePrecomputedValues));
         }
 
         // Derive the extendedDataNonce from the selection nonce and a constant
@@ -518,7 +524,7 @@ namespace electionguard
         // Perform HashedElGamalCiphertext calculation
         unique_ptr<HashedElGamalCiphertext> hashedElGamal =
           hashedElgamalEncrypt(extendedData_plaintext, *extendedDataNonce, elgamalPublicKey,
-                               cryptoExtendedBaseHash, BYTES_512, true);
+                               cryptoExtendedBaseHash, BYTES_512, true, usePrecomputedValues);
 
         // TODO: ISSUE #33: support other cases such as cumulative voting
         // (individual selections being an encryption of > 1)
@@ -555,7 +561,7 @@ namespace electionguard
     vector<unique_ptr<CiphertextBallotContest>>
     encryptContests(const PlaintextBallot &ballot, const InternalManifest &internalManifest,
                     const CiphertextElectionContext &context, const ElementModQ &nonceSeed,
-                    bool shouldVerifyProofs /* = true */)
+                    bool shouldVerifyProofs /* = true */, bool usePrecomputedValues /* = true */)
     {
         auto *style = internalManifest.getBallotStyle(ballot.getStyleId());
         vector<unique_ptr<CiphertextBallotContest>> encryptedContests;
@@ -570,7 +576,7 @@ namespace electionguard
                     auto encrypted = encryptContest(
                       contest.get(), internalManifest, description.get(),
                       *context.getElGamalPublicKey(), *context.getCryptoExtendedBaseHash(),
-                      nonceSeed, shouldVerifyProofs);
+                      nonceSeed, shouldVerifyProofs, usePrecomputedValues);
 
                     encryptedContests.push_back(move(encrypted));
                     break;
@@ -589,7 +595,7 @@ namespace electionguard
     encryptBallot(const PlaintextBallot &ballot, const InternalManifest &manifest,
                   const CiphertextElectionContext &context, const ElementModQ &encryptionSeed,
                   unique_ptr<ElementModQ> nonce /* = nullptr */, uint64_t timestamp /* = 0 */,
-                  bool shouldVerifyProofs /* = true */)
+                  bool shouldVerifyProofs /* = true */, bool usePrecomputedValues /* = true */)
     {
         Log::trace("encryptBallot:: encrypting");
         auto *style = manifest.getBallotStyle(ballot.getStyleId());
@@ -615,7 +621,8 @@ namespace electionguard
 
         // encrypt contests
         auto encryptedContests =
-          encryptContests(ballot, manifest, context, *nonceSeed, shouldVerifyProofs);
+          encryptContests(ballot, manifest, context, *nonceSeed, shouldVerifyProofs,
+                          usePrecomputedValues);
 
         // Get the system time
         if (timestamp == 0) {
@@ -656,8 +663,9 @@ namespace electionguard
                          uint64_t timestamp /* = 0 */, bool shouldVerifyProofs /* = true*/)
     {
         auto normalized = emplaceMissingValues(ballot, manifest);
+        // a compact ballot keeps only the ballot nonce, so every other nonce must derive from it
         auto ciphertext = encryptBallot(*normalized, manifest, context, ballotCodeSeed,
-                                        move(nonceSeed), timestamp, shouldVerifyProofs);
+                                        move(nonceSeed), timestamp, shouldVerifyProofs, false);
         return CompactCiphertextBallot::make(*normalized, *ciphertext);
     }
 
-- 
2.43.0


From acf9e9edbc5bb4ff24ed7cffd8f2476423361bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:09 +0000
Subject: [PATCH 35/55] fix: a manifest stored out of sequence order changes
 its hash when serialized

The hashes of a manifest and its contests are computed in the order the
contests and selections were provided, but the documents listed them in
sequence order, so reading the document back gave another hash.
---
 include/electionguard/manifest.hpp | 13 +++++++++++++
 src/electionguard/manifest.cpp     | 21 +++++++++++++++++++++
 src/electionguard/serialize.hpp    |  8 +++++---
 3 files changed, 39 insertions(+), 3 deletions(-)

diff --git a/include/electionguard/manifest.hpp b/include/electionguard/manifest.hpp
index d24c686..8982773 100644
--- a/include/electionguard/manifest.hpp
+++ b/include/electionguard/manifest.hpp
@@ -725,6 +725,13 @@ namespace electionguard
         /// </Summary>
         std::vector<std::reference_wrapper<SelectionDescription>> getSelections() const;
 
+        /// <Summary>
+        /// The collection of selections in this contest in the order they were provided,
+        /// which is the order the crypto hash is computed in.
+        /// </Summary>
+        std::vector<std::reference_wrapper<SelectionDescription>>
+        getSelectionsInStoredOrder() const;
+
         /// <Summary>
         /// A hash representation of the object
         /// </Summary>
@@ -897,6 +904,12 @@ namespace electionguard
         /// </Summary>
         std::vector<std::reference_wrapper<ContestDescription>> getContests() const;
 
+        /// <Summary>
+        /// Collection of contests for this election in the order they were provided,
+        /// which is the order the crypto hash is computed in.
+        /// </Summary>
+        std::vector<std::reference_wrapper<ContestDescription>> getContestsInStoredOrder() const;
+
         /// <Summary>
         /// Collection of ballot styles for this election.
         /// </Summary>
diff --git a/src/electionguard/manifest.cpp b/src/electionguard/manifest.cpp
index 89ad619..21e2f49 100644
--- a/src/electionguard/manifest.cpp
+++ b/src/electionguard/manifest.cpp
@@ -1228,6 +1228,17 @@ namespace electionguard
         return selections;
     }
 
+    vector<reference_wrapper<SelectionDescription>>
+    ContestDescription::getSelectionsInStoredOrder() const
+    {
+        vector<reference_wrapper<SelectionDescription>> selections;
+        selections.reserve(pimpl->selections.size());
+        for (const auto &selection : pimpl->selections) {
+            selections.push_back(ref(*selection));
+        }
+        return selections;
+    }
+
     // Interface Overrides
 
     unique_ptr<ElementModQ> ContestDescription::crypto_hash() { return pimpl->crypto_hash(); }
@@ -1628,6 +1639,16 @@ namespace electionguard
         return references;
     }
 
+    vector<reference_wrapper<ContestDescription>> Manifest::getContestsInStoredOrder() const
+    {
+        vector<reference_wrapper<ContestDescription>> references;
+        references.reserve(pimpl->contests.size());
+        for (auto &reference : pimpl->contests) {
+            references.push_back(ref(*reference));
+        }
+        return references;
+    }
+
     vector<reference_wrapper<BallotStyle>> Manifest::getBallotStyles() const
     {
         vector<reference_wrapper<BallotStyle>> references;
diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index eac2187..8b57bea 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -436,7 +436,8 @@ namespace electionguard
               internationalizedTextToJson(*serializable.getBallotSubtitle());
         }
 
-        serialized["ballot_selections"] = selectionDescriptionsToJson(serializable.getSelections());
+        serialized["ballot_selections"] =
+          selectionDescriptionsToJson(serializable.getSelectionsInStoredOrder());
 
         return serialized;
     }
@@ -513,7 +514,7 @@ namespace electionguard
                 json candidates = candidatesToJson(serializable.getCandidates());
                 serialized.push_back({"candidates", candidates});
 
-                json contests = contestDescriptionsToJson(serializable.getContests());
+                json contests = contestDescriptionsToJson(serializable.getContestsInStoredOrder());
                 serialized.push_back({"contests", contests});
 
                 json ballotStyles = ballotStylesToJson(serializable.getBallotStyles());
@@ -607,7 +608,8 @@ namespace electionguard
                 // Contests
                 json contests;
                 for (const auto &contest : serializable.getContests()) {
-                    auto selections = selectionDescriptionsToJson(contest.get().getSelections());
+                    auto selections =
+                      selectionDescriptionsToJson(contest.get().getSelectionsInStoredOrder());
                     auto placeholders =
                       selectionDescriptionsToJson(contest.get().getPlaceholders());
 
-- 
2.43.0


From 5b4b289758a2ec959d13f6e464250e1354496eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:19 +0000
Subject: [PATCH 36/55] fix: filling a full precompute buffer exceeds its limit

---
 src/electionguard/precompute_buffers.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/electionguard/precompute_buffers.cpp b/src/electionguard/precompute_buffers.cpp
index c342092..6debb9e 100644
--- a/src/electionguard/precompute_buffers.cpp
+++ b/src/electionguard/precompute_buffers.cpp
@@ -212,7 +212,9 @@ namespace electionguard
             // generating two triples and a quadruple?
             // If not we can get more elaborate with the populate_OK checking
             std::lock_guard<std::mutex> lock(queue_lock);
-            if (getInstance().populate_OK) {
+            // the queue may already be full
+            if (getInstance().populate_OK &&
+                getInstance().twoTriplesAndAQuadruple_queue.size() < getInstance().max) {
                 // generate two triples and a quadruple
                 //
                 // these constuctors will generate the precomputed values
-- 
2.43.0


From 980314c32a19bdd6a0b3f7e8b96e007d190a4a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:51 +0000
Subject: [PATCH 37/55] fix: concurrent use of an ElementModP races on its
 cached hexadecimal text

---
 src/electionguard/group.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index 287a05f..7a9c8a8 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -15,6 +15,7 @@
 #include <cstdint>
 #include <iomanip>
 #include <iostream>
+#include <mutex>
 #include <random>
 #include <sstream>
 #include <stdexcept>
@@ -111,6 +112,7 @@ namespace electionguard
         bool isFixedBase = false;
         uint64_t data[MAX_P_LEN] = {};
         string hexRepresentation;
+        std::mutex hexRepresentationLock;
 
         Impl(const vector<uint64_t> &elem, bool unchecked, bool fixedBase)
         {
@@ -158,9 +160,8 @@ namespace electionguard
 
         bool operator<(const Impl &other)
         {
-            auto other_ = other;
             return Bignum4096::lessThan(static_cast<uint64_t *>(data),
-                                        static_cast<uint64_t *>(other_.data)) > 0;
+                                        const_cast<uint64_t *>(other.data)) > 0;
         }
     };
 
@@ -228,6 +229,7 @@ namespace electionguard
 
     string ElementModP::toHex() const
     {
+        std::lock_guard<std::mutex> lock(pimpl->hexRepresentationLock);
         if (!pimpl->hexRepresentation.empty()) {
             return pimpl->hexRepresentation;
         }
-- 
2.43.0


From fd23360858b14dc5479e7ce3f1590a32712549bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:51 +0000
Subject: [PATCH 38/55] fix: concurrent fixed base exponentiations race on the
 lookup table map

The semaphore was released again before the map was used.
---
 src/electionguard/lookup_table.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/electionguard/lookup_table.hpp b/src/electionguard/lookup_table.hpp
index 00237a0..c2f68c4 100644
--- a/src/electionguard/lookup_table.hpp
+++ b/src/electionguard/lookup_table.hpp
@@ -12,7 +12,9 @@
 #include <electionguard/export.h>
 #include <iomanip>
 #include <iostream>
+#include <map>
 #include <memory>
+#include <mutex>
 
 using hacl::Bignum256;
 using hacl::Bignum4096;
@@ -166,14 +168,14 @@ namespace electionguard
         {
             LookupTableType *public_key_table = NULL;
             {
-                getInstance().task_lock.wait();
+                std::lock_guard<std::mutex> lock(getInstance().table_lock);
                 public_key_table = getInstance().getBaseLookupTable(key, base);
             }
             return public_key_table->pow_mod_p(exponent);
         }
 
       private:
-        AsyncSemaphore task_lock;
+        std::mutex table_lock;
         std::map<string, std::unique_ptr<LookupTableType>> key_map;
 
         LookupTableType *getBaseLookupTable(const string key, uint64_t (&base)[MAX_P_LEN])
-- 
2.43.0


From 36ae8464c3ae5fc1a5e6337aa4abd88283ccd818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:51 +0000
Subject: [PATCH 39/55] fix: watching or stopping the precompute buffers races
 with filling them

---
 include/electionguard/precompute_buffers.hpp | 7 +++++--
 src/electionguard/precompute_buffers.cpp     | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/electionguard/precompute_buffers.hpp b/include/electionguard/precompute_buffers.hpp
index 10b6c4c..b6aaa97 100644
--- a/include/electionguard/precompute_buffers.hpp
+++ b/include/electionguard/precompute_buffers.hpp
@@ -4,6 +4,7 @@
 #include "electionguard/group.hpp"
 
 #include <array>
+#include <atomic>
 #include <cstdint>
 #include <electionguard/constants.h>
 #include <electionguard/export.h>
@@ -237,9 +238,11 @@ namespace electionguard
         static void empty_queues();
 
       private:
-        uint32_t max = DEFAULT_PRECOMPUTE_SIZE;
+        std::atomic<uint32_t> max = DEFAULT_PRECOMPUTE_SIZE;
         static std::mutex queue_lock;
-        bool populate_OK = false;
+        std::atomic<bool> populate_OK = false;
+        // the size of twoTriplesAndAQuadruple_queue, readable without the lock
+        std::atomic<uint32_t> current = 0;
         std::queue<std::unique_ptr<Triple>> triple_queue;
         std::queue<std::unique_ptr<TwoTriplesAndAQuadruple>> twoTriplesAndAQuadruple_queue;
     };
diff --git a/src/electionguard/precompute_buffers.cpp b/src/electionguard/precompute_buffers.cpp
index 6debb9e..56dcbab 100644
--- a/src/electionguard/precompute_buffers.cpp
+++ b/src/electionguard/precompute_buffers.cpp
@@ -226,6 +226,7 @@ namespace electionguard
                   make_unique<TwoTriplesAndAQuadruple>(move(triple1), move(triple2), move(quad));
 
                 getInstance().twoTriplesAndAQuadruple_queue.push(move(twoTriplesAndAQuadruple));
+                getInstance().current = getInstance().twoTriplesAndAQuadruple_queue.size();
 
                 // This is very rudimentary. We can add a more complex algorithm in
                 // the future, that would look at the queues and increase production if one
@@ -246,7 +247,7 @@ namespace electionguard
             } else {
                 return;
             }
-        } while (getInstance().twoTriplesAndAQuadruple_queue.size() < getInstance().max);
+        } while (getInstance().current < getInstance().max);
     }
 
     void PrecomputeBufferContext::stop_populate() { getInstance().populate_OK = false; }
@@ -255,7 +256,7 @@ namespace electionguard
 
     uint32_t PrecomputeBufferContext::get_current_queue_size()
     {
-        return getInstance().twoTriplesAndAQuadruple_queue.size();
+        return getInstance().current;
     }
 
     std::unique_ptr<TwoTriplesAndAQuadruple> PrecomputeBufferContext::getTwoTriplesAndAQuadruple()
@@ -269,6 +270,7 @@ namespace electionguard
         if (!getInstance().twoTriplesAndAQuadruple_queue.empty()) {
             result = std::move(getInstance().twoTriplesAndAQuadruple_queue.front());
             getInstance().twoTriplesAndAQuadruple_queue.pop();
+            getInstance().current = getInstance().twoTriplesAndAQuadruple_queue.size();
         }
 
         return result;
@@ -301,6 +303,7 @@ namespace electionguard
         for (int i = 0; i < (int)twoTriplesAndAQuadruple_size; i++) {
             getInstance().twoTriplesAndAQuadruple_queue.pop();
         }
+        getInstance().current = 0;
     }
 
     std::mutex PrecomputeBufferContext::queue_lock;
-- 
2.43.0


From 4bcbe23f3c98e1580099c18f0abed81c188cc511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:23 +0000
Subject: [PATCH 40/55] fix: the first log messages of concurrent threads race
 to create the logger

---
 src/electionguard/log.cpp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/electionguard/log.cpp b/src/electionguard/log.cpp
index c2ad724..ffc11bd 100644
--- a/src/electionguard/log.cpp
+++ b/src/electionguard/log.cpp
@@ -80,17 +80,8 @@ namespace electionguard
     class Log::Impl
     {
       private:
-        Impl() {}
-
-      public:
-        shared_ptr<spdlog::logger> logger;
-
-        static Impl &instance()
+        Impl()
         {
-            static Impl _instance;
-            if (_instance.logger != nullptr)
-                return _instance;
-
             auto console = spdlog::stdout_logger_mt("console");
 #if LOG_DEBUG
             console->set_level(spdlog::level::debug);
@@ -101,7 +92,15 @@ namespace electionguard
 #endif
             spdlog::set_default_logger(console);
             spdlog::set_pattern("[%H:%M:%S:%e %z] [p: %P] [t: %t] [%l] :: %v");
-            _instance.logger = console;
+            logger = console;
+        }
+
+      public:
+        shared_ptr<spdlog::logger> logger;
+
+        static Impl &instance()
+        {
+            static Impl _instance;
             return _instance;
         }
     };
-- 
2.43.0


From 9bb6f8606444136fa23cf20ca8d2893c520321a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:34 +0000
Subject: [PATCH 41/55] fix: a deeply nested document exhausts the stack when
 it is parsed

---
 src/electionguard/serialize.hpp | 109 ++++++++++++++++++++++++--------
 1 file changed, 84 insertions(+), 25 deletions(-)

diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index 8b57bea..95687c7 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -33,6 +33,65 @@ namespace electionguard
 {
     // TODO: input sanitization and safety
 
+    /// The levels of nesting a document may have, well above what any serialized type needs
+    const size_t MAX_DOCUMENT_DEPTH = 64;
+
+    /// Refuses documents that are nested so deeply that reading, copying or destroying them
+    /// recursively could exhaust the stack. Any other error is left for the parser to report.
+    class DocumentDepthCheck : public nlohmann::json_sax<json>
+    {
+      public:
+        bool null() override { return true; }
+        bool boolean(bool) override { return true; }
+        bool number_integer(number_integer_t) override { return true; }
+        bool number_unsigned(number_unsigned_t) override { return true; }
+        bool number_float(number_float_t, const string_t &) override { return true; }
+        bool string(string_t &) override { return true; }
+        bool binary(binary_t &) override { return true; }
+        bool start_object(std::size_t) override { return enter(); }
+        bool key(string_t &) override { return true; }
+        bool end_object() override { return leave(); }
+        bool start_array(std::size_t) override { return enter(); }
+        bool end_array() override { return leave(); }
+        bool parse_error(std::size_t, const std::string &,
+                         const nlohmann::detail::exception &) override
+        {
+            return false;
+        }
+
+      private:
+        size_t depth = 0;
+
+        bool enter()
+        {
+            if (++depth > MAX_DOCUMENT_DEPTH) {
+                throw std::invalid_argument("the document is nested too deeply");
+            }
+            return true;
+        }
+
+        bool leave()
+        {
+            depth--;
+            return true;
+        }
+    };
+
+    template <typename T> json parseDocument(const T &data, json::input_format_t format)
+    {
+        DocumentDepthCheck check;
+        json::sax_parse(data, &check, format);
+
+        switch (format) {
+            case json::input_format_t::bson:
+                return json::from_bson(data);
+            case json::input_format_t::msgpack:
+                return json::from_msgpack(data);
+            default:
+                return json::parse(data);
+        }
+    }
+
     static json annotatedStringToJson(const AnnotatedString &serializable)
     {
         return {{"annotation", serializable.getAnnotation()}, {"value", serializable.getValue()}};
@@ -582,17 +641,17 @@ namespace electionguard
 
             static unique_ptr<electionguard::Manifest> fromBson(vector<uint8_t> data)
             {
-                return toObject(json::from_bson(data));
+                return toObject(parseDocument(data, json::input_format_t::bson));
             }
 
             static unique_ptr<electionguard::Manifest> fromMsgPack(vector<uint8_t> data)
             {
-                return toObject(json::from_msgpack(data));
+                return toObject(parseDocument(data, json::input_format_t::msgpack));
             }
 
             static unique_ptr<electionguard::Manifest> fromJson(string data)
             {
-                return toObject(json::parse(data));
+                return toObject(parseDocument(data, json::input_format_t::json));
             }
         };
         class InternalManifest
@@ -728,17 +787,17 @@ namespace electionguard
 
             static unique_ptr<electionguard::InternalManifest> fromBson(vector<uint8_t> data)
             {
-                return toObject(json::from_bson(data));
+                return toObject(parseDocument(data, json::input_format_t::bson));
             }
 
             static unique_ptr<electionguard::InternalManifest> fromMsgPack(vector<uint8_t> data)
             {
-                return toObject(json::from_msgpack(data));
+                return toObject(parseDocument(data, json::input_format_t::msgpack));
             }
 
             static unique_ptr<electionguard::InternalManifest> fromJson(string data)
             {
-                return toObject(json::parse(data));
+                return toObject(parseDocument(data, json::input_format_t::json));
             }
         };
 
@@ -829,11 +888,11 @@ namespace electionguard
             static unique_ptr<electionguard::CiphertextElectionContext>
             fromBson(vector<uint8_t> data)
             {
-                return toObject(json::from_bson(data));
+                return toObject(parseDocument(data, json::input_format_t::bson));
             }
             static unique_ptr<electionguard::CiphertextElectionContext> fromJson(string data)
             {
-                return toObject(json::parse(data));
+                return toObject(parseDocument(data, json::input_format_t::json));
             }
         };
 
@@ -923,15 +982,15 @@ namespace electionguard
             }
             static unique_ptr<electionguard::PlaintextBallot> fromBson(vector<uint8_t> data)
             {
-                return toObject(json::from_bson(data));
+                return toObject(parseDocument(data, json::input_format_t::bson));
             }
             static unique_ptr<electionguard::PlaintextBallot> fromJson(string data)
             {
-                return toObject(json::parse(data));
+                return toObject(parseDocument(data, json::input_format_t::json));
             }
             static unique_ptr<electionguard::PlaintextBallot> fromMsgPack(vector<uint8_t> data)
             {
-                return toObject(json::from_msgpack(data));
+                return toObject(parseDocument(data, json::input_format_t::msgpack));
             }
         };
         class EncryptionDevice
@@ -972,11 +1031,11 @@ namespace electionguard
             }
             static unique_ptr<electionguard::EncryptionDevice> fromBson(vector<uint8_t> data)
             {
-                return toObject(json::from_bson(data));
+                return toObject(parseDocument(data, json::input_format_t::bson));
             }
             static unique_ptr<electionguard::EncryptionDevice> fromJson(string data)
             {
-                return toObject(json::parse(data));
+                return toObject(parseDocument(data, json::input_format_t::json));
             }
         };
         class CompactPlaintextBallot
@@ -1041,16 +1100,16 @@ namespace electionguard
             }
             static unique_ptr<electionguard::CompactPlaintextBallot> fromBson(vector<uint8_t> data)
             {
-                return toObject(json::from_bson(data));
+                return toObject(parseDocument(data, json::input_format_t::bson));
             }
             static unique_ptr<electionguard::CompactPlaintextBallot> fromJson(string data)
             {
-                return toObject(json::parse(data));
+                return toObject(parseDocument(data, json::input_format_t::json));
             }
             static unique_ptr<electionguard::CompactPlaintextBallot>
             fromMsgPack(vector<uint8_t> data)
             {
-                return toObject(json::from_msgpack(data));
+                return toObject(parseDocument(data, json::input_format_t::msgpack));
             }
         };
 
@@ -1311,15 +1370,15 @@ namespace electionguard
             }
             static unique_ptr<electionguard::CiphertextBallot> fromBson(vector<uint8_t> data)
             {
-                return toObject(json::from_bson(data));
+                return toObject(parseDocument(data, json::input_format_t::bson));
             }
             static unique_ptr<electionguard::CiphertextBallot> fromJson(string data)
             {
-                return toObject(json::parse(data));
+                return toObject(parseDocument(data, json::input_format_t::json));
             }
             static unique_ptr<electionguard::CiphertextBallot> fromMsgPack(vector<uint8_t> data)
             {
-                return toObject(json::from_msgpack(data));
+                return toObject(parseDocument(data, json::input_format_t::msgpack));
             }
         };
 
@@ -1371,15 +1430,15 @@ namespace electionguard
             }
             static unique_ptr<electionguard::SubmittedBallot> fromBson(vector<uint8_t> data)
             {
-                return toObject(json::from_bson(data));
+                return toObject(parseDocument(data, json::input_format_t::bson));
             }
             static unique_ptr<electionguard::SubmittedBallot> fromJson(string data)
             {
-                return toObject(json::parse(data));
+                return toObject(parseDocument(data, json::input_format_t::json));
             }
             static unique_ptr<electionguard::SubmittedBallot> fromMsgPack(vector<uint8_t> data)
             {
-                return toObject(json::from_msgpack(data));
+                return toObject(parseDocument(data, json::input_format_t::msgpack));
             }
         };
 
@@ -1447,16 +1506,16 @@ namespace electionguard
             }
             static unique_ptr<electionguard::CompactCiphertextBallot> fromBson(vector<uint8_t> data)
             {
-                return toObject(json::from_bson(data));
+                return toObject(parseDocument(data, json::input_format_t::bson));
             }
             static unique_ptr<electionguard::CompactCiphertextBallot> fromJson(string data)
             {
-                return toObject(json::parse(data));
+                return toObject(parseDocument(data, json::input_format_t::json));
             }
             static unique_ptr<electionguard::CompactCiphertextBallot>
             fromMsgPack(vector<uint8_t> data)
             {
-                return toObject(json::from_msgpack(data));
+                return toObject(parseDocument(data, json::input_format_t::msgpack));
             }
         };
 
-- 
2.43.0


From 654d35e46758d06d5537ea7076862ae11bb20cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:33 +0000
Subject: [PATCH 42/55] fix: a manifest date that is not valid or out of range
 is read as an arbitrary date

---
 src/electionguard/convert.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/electionguard/convert.cpp b/src/electionguard/convert.cpp
index b5b93a8..f38b902 100644
--- a/src/electionguard/convert.cpp
+++ b/src/electionguard/convert.cpp
@@ -7,6 +7,7 @@
 #include <iostream>
 #include <karamel/LowStar_Endianness.h>
 #include <sstream>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -46,7 +47,7 @@ namespace electionguard
 
     time_point timePointFromIsoString(const string &time, const string &format)
     {
-        date::sys_time<std::chrono::seconds> tm;
+        date::sys_time<std::chrono::seconds> tm{};
         std::istringstream ss{time};
         ss >> date::parse(format, tm);
         if (ss.fail()) {
@@ -54,8 +55,14 @@ namespace electionguard
             ss.str(time);
             ss >> date::parse(secondaryFormat, tm);
         }
+        if (ss.fail()) {
+            throw std::invalid_argument("the date is not valid: " + time);
+        }
+        if (tm > std::chrono::time_point_cast<std::chrono::seconds>(time_point::max()) ||
+            tm < std::chrono::time_point_cast<std::chrono::seconds>(time_point::min())) {
+            throw std::out_of_range("the date is out of range: " + time);
+        }
 
-        auto testTime = timePointToIsoString(tm, format);
         return tm;
     }
 
-- 
2.43.0


From 3c288ffb2253cfe88944d6e1ae2f7c9a4109f066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:54 +0000
Subject: [PATCH 43/55] fix: appending to a linked list without memory for the
 strings reports success

---
 src/electionguard/facades/collections.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/electionguard/facades/collections.c b/src/electionguard/facades/collections.c
index 0df254c..1993d86 100644
--- a/src/electionguard/facades/collections.c
+++ b/src/electionguard/facades/collections.c
@@ -50,6 +50,12 @@ eg_electionguard_status_t eg_linked_list_append(eg_linked_list_t *handle, char *
     }
     node->key = strdup(in_key);
     node->value = strdup(in_value);
+    if (node->key == NULL || node->value == NULL) {
+        free(node->key);
+        free(node->value);
+        free(node);
+        return ELECTIONGUARD_STATUS_ERROR_BAD_ALLOC;
+    }
     node->previous = NULL;
     node->next = NULL;
 
-- 
2.43.0


From 39ba18ac5db72ee8665fba1d0dcc290939ed943d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:54 +0000
Subject: [PATCH 44/55] fix: the text of an unknown status reads beyond the
 table of texts

---
 include/electionguard/status.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/electionguard/status.h b/include/electionguard/status.h
index c7dd091..af5fde1 100644
--- a/include/electionguard/status.h
+++ b/include/electionguard/status.h
@@ -36,7 +36,7 @@ static const char *const eg_electionguard_status_codes[] = {
 static const char *eg_electionguard_get_status(eg_electionguard_status_t status)
 {
     if (status >= ELECTIONGUARD_STATUS_UNKNOWN) {
-        eg_electionguard_status_codes[ELECTIONGUARD_STATUS_UNKNOWN];
+        return eg_electionguard_status_codes[ELECTIONGUARD_STATUS_UNKNOWN];
     }
     return eg_electionguard_status_codes[status];
 }
-- 
2.43.0


From 083b0c27649a0b824fb12af5482ef9e24077bed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:56 +0000
Subject: [PATCH 45/55] fix: define the C functions the headers declare

Eleven functions declared in the C headers were defined with other
parameters or another name, so that they were exported as C++ functions and
no C program could link to them.
---
 include/electionguard/ballot.h       | 23 +++++++++++------------
 include/electionguard/encrypt.h      |  3 ++-
 include/electionguard/manifest.h     |  9 ++++++---
 src/electionguard/facades/ballot.cpp | 15 ++++++++-------
 4 files changed, 27 insertions(+), 23 deletions(-)

diff --git a/include/electionguard/ballot.h b/include/electionguard/ballot.h
index 99fae7c..f3a8a4d 100644
--- a/include/electionguard/ballot.h
+++ b/include/electionguard/ballot.h
@@ -85,10 +85,9 @@ EG_API eg_electionguard_status_t eg_plaintext_ballot_selection_new(
   const char *in_object_id, const uint64_t in_vote, bool in_is_placeholder_selection,
   eg_plaintext_ballot_selection_t **out_handle);
 
-EG_API eg_electionguard_status_t eg_plaintext_ballot_selection_new_with_extended_data(
+EG_API eg_electionguard_status_t eg_plaintext_ballot_selection_new_with_write_in(
   const char *in_object_id, const uint64_t in_vote, bool in_is_placeholder_selection,
-  const char *in_extended_data_value, uint64_t in_extended_data_length,
-  eg_plaintext_ballot_selection_t **out_handle);
+  const char *in_write_in, eg_plaintext_ballot_selection_t **out_handle);
 
 EG_API eg_electionguard_status_t
 eg_plaintext_ballot_selection_free(eg_plaintext_ballot_selection_t *handle);
@@ -117,14 +116,14 @@ EG_API bool
 eg_plaintext_ballot_selection_get_is_placeholder(eg_plaintext_ballot_selection_t *handle);
 
 /**
- * an optional field of arbitrary data, such as the value of a write-in candidate
+ * the value of a write-in candidate, or an empty string
  * 
  * @param[in] handle A poiner to the `eg_plaintext_ballot_selection_t` opaque instance
- * @param[out] out_extended_data_ref A pointer to the extended data.  
-                                     The value is a reference and is not owned by the caller
+ * @param[out] out_write_in A pointer to the output write-in value.
+                            The caller is responsible for freeing the string.
  */
-EG_API eg_electionguard_status_t eg_plaintext_ballot_selection_get_extended_data(
-  eg_plaintext_ballot_selection_t *handle, eg_extended_data_t **out_extended_data_ref);
+EG_API eg_electionguard_status_t eg_plaintext_ballot_selection_get_write_in(
+  eg_plaintext_ballot_selection_t *handle, char **out_write_in);
 
 /**
  * Given a PlaintextBallotSelection validates that the object matches an expected object
@@ -431,7 +430,7 @@ EG_API eg_electionguard_status_t eg_ciphertext_ballot_contest_get_crypto_hash(
  *                           The value is a reference and is not owned by the caller
  */
 EG_API eg_electionguard_status_t eg_ciphertext_ballot_contest_get_proof(
-  eg_ciphertext_ballot_contest_t *handle, eg_disjunctive_chaum_pedersen_proof_t **out_proof_ref);
+  eg_ciphertext_ballot_contest_t *handle, eg_constant_chaum_pedersen_proof_t **out_proof_ref);
 
 /**
  * Given an encrypted Ballotcontest, generates a hash, suitable for rolling up
@@ -446,7 +445,7 @@ EG_API eg_electionguard_status_t eg_ciphertext_ballot_contest_get_proof(
  *                             The caller is responsible for lifecycle.
  */
 EG_API eg_electionguard_status_t eg_ciphertext_ballot_contest_crypto_hash_with(
-  eg_ciphertext_ballot_selection_t *handle, eg_element_mod_q_t *in_encryption_seed,
+  eg_ciphertext_ballot_contest_t *handle, eg_element_mod_q_t *in_encryption_seed,
   eg_element_mod_q_t **out_crypto_hash);
 
 // TODO: eg_ciphertext_ballot_contest_make
@@ -461,7 +460,7 @@ EG_API eg_electionguard_status_t eg_ciphertext_ballot_contest_crypto_hash_with(
  *                           The caller is responsible for the object lifecycle.
  */
 EG_API eg_electionguard_status_t eg_ciphertext_ballot_contest_aggregate_nonce(
-  eg_ciphertext_ballot_selection_t *handle, eg_element_mod_q_t **out_aggregate_nonce);
+  eg_ciphertext_ballot_contest_t *handle, eg_element_mod_q_t **out_aggregate_nonce);
 
 /**
  * Add the individual ballot_selections `message` fields together, suitable for use
@@ -471,7 +470,7 @@ EG_API eg_electionguard_status_t eg_ciphertext_ballot_contest_aggregate_nonce(
  *                                         The caller is responsible for the object lifecycle.
  */
 EG_API eg_electionguard_status_t eg_ciphertext_ballot_contest_elgamal_accumulate(
-  eg_ciphertext_ballot_selection_t *handle, eg_elgamal_ciphertext_t **out_ciphertext_accumulation);
+  eg_ciphertext_ballot_contest_t *handle, eg_elgamal_ciphertext_t **out_ciphertext_accumulation);
 
 /**
  * Given an encrypted BallotContest, validates the encryption state against a specific seed hash and public key
diff --git a/include/electionguard/encrypt.h b/include/electionguard/encrypt.h
index eb953ab..1c9215e 100644
--- a/include/electionguard/encrypt.h
+++ b/include/electionguard/encrypt.h
@@ -151,6 +151,7 @@ EG_API eg_electionguard_status_t eg_encrypt_selection(
 * votes
 *
 * @param[in] in_plaintext: the contest in the valid input form
+* @param[in] in_manifest: the `InternalManifest` which names the candidates of the contest
 * @param[in] in_description the `ContestDescriptionWithPlaceholders`
 *        from the `ContestDescription` which defines this contest's structure
 * @param[in] in_public_key the public key (k) used to encrypt the ballot
@@ -161,7 +162,7 @@ EG_API eg_electionguard_status_t eg_encrypt_selection(
 * @param[out] out_handle a handle to an `eg_ciphertext_ballot_contest_t`. Caller is responsible for lifecycle.
 */
 EG_API eg_electionguard_status_t eg_encrypt_contest(
-  eg_plaintext_ballot_contest_t *in_plaintext,
+  eg_plaintext_ballot_contest_t *in_plaintext, eg_internal_manifest_t *in_manifest,
   eg_contest_description_with_placeholders_t *in_description, eg_element_mod_p_t *in_public_key,
   eg_element_mod_q_t *in_crypto_extended_base_hash, eg_element_mod_q_t *in_nonce_seed,
   bool in_should_verify_proofs, eg_ciphertext_ballot_contest_t **out_handle);
diff --git a/include/electionguard/manifest.h b/include/electionguard/manifest.h
index a600e62..03436ce 100644
--- a/include/electionguard/manifest.h
+++ b/include/electionguard/manifest.h
@@ -595,7 +595,8 @@ EG_API eg_electionguard_status_t eg_contest_description_new_with_parties(
 
 EG_API eg_electionguard_status_t eg_contest_description_new_with_title_and_parties(
   const char *in_object_id, char *in_electoral_district_id, uint64_t in_sequence_order,
-  eg_vote_variation_type_t in_vote_variation, uint64_t in_number_elected, char *in_name,
+  eg_vote_variation_type_t in_vote_variation, uint64_t in_number_elected,
+  uint64_t in_votes_allowed, char *in_name,
   eg_internationalized_text_t *in_ballot_title, eg_internationalized_text_t *in_ballot_subtitle,
   eg_selection_description_t *in_selections[], uint64_t in_selections_size,
   char *in_primary_party_ids[], uint64_t in_primary_party_ids_size,
@@ -694,7 +695,8 @@ EG_API eg_electionguard_status_t eg_contest_description_with_placeholders_new(
 
 EG_API eg_electionguard_status_t eg_contest_description_with_placeholders_new_with_title(
   const char *in_object_id, char *in_electoral_district_id, uint64_t in_sequence_order,
-  eg_vote_variation_type_t in_vote_variation, uint64_t in_number_elected, char *in_name,
+  eg_vote_variation_type_t in_vote_variation, uint64_t in_number_elected,
+  uint64_t in_votes_allowed, char *in_name,
   eg_internationalized_text_t *in_ballot_title, eg_internationalized_text_t *in_ballot_subtitle,
   eg_selection_description_t *in_selections[], uint64_t in_selections_size,
   eg_selection_description_t *in_placeholder_selections[], uint64_t in_placeholder_selections_size,
@@ -711,7 +713,8 @@ EG_API eg_electionguard_status_t eg_contest_description_with_placeholders_new_wi
 EG_API eg_electionguard_status_t
 eg_contest_description_with_placeholders_new_with_title_and_parties(
   const char *in_object_id, char *in_electoral_district_id, uint64_t in_sequence_order,
-  eg_vote_variation_type_t in_vote_variation, uint64_t in_number_elected, char *in_name,
+  eg_vote_variation_type_t in_vote_variation, uint64_t in_number_elected,
+  uint64_t in_votes_allowed, char *in_name,
   eg_internationalized_text_t *in_ballot_title, eg_internationalized_text_t *in_ballot_subtitle,
   eg_selection_description_t *in_selections[], uint64_t in_selections_size,
   char *in_primary_party_ids[], uint64_t in_primary_party_ids_size,
diff --git a/src/electionguard/facades/ballot.cpp b/src/electionguard/facades/ballot.cpp
index 58a8e32..2ce6aa7 100644
--- a/src/electionguard/facades/ballot.cpp
+++ b/src/electionguard/facades/ballot.cpp
@@ -555,12 +555,12 @@ eg_ciphertext_ballot_contest_get_crypto_hash(eg_ciphertext_ballot_contest_t *han
 }
 
 eg_electionguard_status_t
-eg_ciphertext_ballot_contest_get_proof(eg_ciphertext_ballot_selection_t *handle,
-                                       eg_disjunctive_chaum_pedersen_proof_t **out_proof_ref)
+eg_ciphertext_ballot_contest_get_proof(eg_ciphertext_ballot_contest_t *handle,
+                                       eg_constant_chaum_pedersen_proof_t **out_proof_ref)
 {
     try {
         auto *reference = AS_TYPE(CiphertextBallotContest, handle)->getProof();
-        *out_proof_ref = AS_TYPE(eg_disjunctive_chaum_pedersen_proof_t, reference);
+        *out_proof_ref = AS_TYPE(eg_constant_chaum_pedersen_proof_t, reference);
         return ELECTIONGUARD_STATUS_SUCCESS;
     } catch (const exception &e) {
         Log::error("eg_ciphertext_ballot_contest_get_proof", e);
@@ -929,14 +929,15 @@ eg_ciphertext_ballot_get_ballot_code(eg_ciphertext_ballot_t *handle,
     }
 }
 
-uint64_t eg_ciphertext_ballot_get_timestamp(eg_ciphertext_ballot_t *ciphertext)
+eg_electionguard_status_t eg_ciphertext_ballot_get_timestamp(eg_ciphertext_ballot_t *handle,
+                                                             uint64_t *out_timestamp)
 {
     try {
-        auto result = AS_TYPE(CiphertextBallot, ciphertext)->getTimestamp();
-        return result;
+        *out_timestamp = AS_TYPE(CiphertextBallot, handle)->getTimestamp();
+        return ELECTIONGUARD_STATUS_SUCCESS;
     } catch (const exception &e) {
         Log::error(":eg_ciphertext_ballot_get_timestamp", e);
-        return 0;
+        return ELECTIONGUARD_STATUS_ERROR_BAD_ALLOC;
     }
 }
 
-- 
2.43.0


From 78681635818ed12e6996e3b0541eca4d58e4f5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:56 +0000
Subject: [PATCH 46/55] fix: read a contact's name and hash through its own
 type

---
 src/electionguard/facades/manifest.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/electionguard/facades/manifest.cpp b/src/electionguard/facades/manifest.cpp
index 5d9ecc0..a0085de 100644
--- a/src/electionguard/facades/manifest.cpp
+++ b/src/electionguard/facades/manifest.cpp
@@ -396,7 +396,7 @@ eg_electionguard_status_t eg_contact_information_get_name(eg_contact_information
                                                           const char **out_name)
 {
     try {
-        auto result = AS_TYPE(GeopoliticalUnit, handle)->getName();
+        auto result = AS_TYPE(ContactInformation, handle)->getName();
         *out_name = dynamicCopy(result);
 
         return ELECTIONGUARD_STATUS_SUCCESS;
@@ -410,7 +410,7 @@ eg_electionguard_status_t eg_contact_information_crypto_hash(eg_contact_informat
                                                              eg_element_mod_q_t **out_crypto_hash)
 {
     try {
-        auto result = AS_TYPE(InternationalizedText, handle)->crypto_hash();
+        auto result = AS_TYPE(ContactInformation, handle)->crypto_hash();
         *out_crypto_hash = AS_TYPE(eg_element_mod_q_t, result.release());
         return ELECTIONGUARD_STATUS_SUCCESS;
     } catch (const exception &e) {
@@ -965,7 +965,7 @@ eg_electionguard_status_t eg_candidate_crypto_hash(eg_candidate_t *handle,
                                                    eg_element_mod_q_t **out_crypto_hash)
 {
     try {
-        auto result = AS_TYPE(Party, handle)->crypto_hash();
+        auto result = AS_TYPE(Candidate, handle)->crypto_hash();
         *out_crypto_hash = AS_TYPE(eg_element_mod_q_t, result.release());
         return ELECTIONGUARD_STATUS_SUCCESS;
     } catch (const exception &e) {
-- 
2.43.0


From a05bf33f8c50a328d9a42772f9b607bc7053e8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:56 +0000
Subject: [PATCH 47/55] fix: give the election dates back in milliseconds, as
 they are set

---
 src/electionguard/facades/manifest.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/electionguard/facades/manifest.cpp b/src/electionguard/facades/manifest.cpp
index a0085de..8b75058 100644
--- a/src/electionguard/facades/manifest.cpp
+++ b/src/electionguard/facades/manifest.cpp
@@ -40,7 +40,6 @@ using std::make_unique;
 using std::string;
 using std::unique_ptr;
 using std::vector;
-using std::chrono::system_clock;
 
 #pragma region AnnotatedString
 
@@ -1795,9 +1794,9 @@ eg_election_type_t eg_election_manifest_get_type(eg_election_manifest_t *handle)
 uint64_t eg_election_manifest_get_start_date(eg_election_manifest_t *handle)
 {
     try {
-        return AS_TYPE(Manifest, handle)->getStartDate().time_since_epoch().count() *
-               system_clock::period::num / system_clock::period::den;
-        return ELECTIONGUARD_STATUS_SUCCESS;
+        return (uint64_t)std::chrono::duration_cast<std::chrono::milliseconds>(
+                 AS_TYPE(Manifest, handle)->getStartDate().time_since_epoch())
+          .count();
     } catch (const exception &e) {
         Log::error(":eg_election_manifest_get_election_scope_id", e);
         return 0;
@@ -1807,9 +1806,9 @@ uint64_t eg_election_manifest_get_start_date(eg_election_manifest_t *handle)
 uint64_t eg_election_manifest_get_end_date(eg_election_manifest_t *handle)
 {
     try {
-        return AS_TYPE(Manifest, handle)->getEndDate().time_since_epoch().count() *
-               system_clock::period::num / system_clock::period::den;
-        return ELECTIONGUARD_STATUS_SUCCESS;
+        return (uint64_t)std::chrono::duration_cast<std::chrono::milliseconds>(
+                 AS_TYPE(Manifest, handle)->getEndDate().time_since_epoch())
+          .count();
     } catch (const exception &e) {
         Log::error(":eg_election_manifest_get_election_scope_id", e);
         return 0;
-- 
2.43.0


From b9121c93c315a52e1df93b43cb3cb52b6164d3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:56 +0000
Subject: [PATCH 48/55] fix: keep the extended data of a context made from hex

---
 src/electionguard/facades/election.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/electionguard/facades/election.cpp b/src/electionguard/facades/election.cpp
index e2aa39e..2b245ef 100644
--- a/src/electionguard/facades/election.cpp
+++ b/src/electionguard/facades/election.cpp
@@ -327,8 +327,9 @@ eg_electionguard_status_t eg_ciphertext_election_context_make_from_hex_with_exte
             extendedData[string(edKey)] = string(edValue);
         }
 
-        auto context = CiphertextElectionContext::make(
-          in_number_of_guardians, in_quorum, elGamalPublicKey, commitmentHash, manifestHash);
+        auto context = CiphertextElectionContext::make(in_number_of_guardians, in_quorum,
+                                                       elGamalPublicKey, commitmentHash,
+                                                       manifestHash, move(extendedData));
         *out_handle = AS_TYPE(eg_ciphertext_election_context_t, context.release());
 
         return ELECTIONGUARD_STATUS_SUCCESS;
-- 
2.43.0


From 19dc8aecc22b6e6e4222aa380169d3d1deac53a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:22 +0000
Subject: [PATCH 49/55] fix: declare contact lines and placeholders as the
 types they are

The C functions handed out annotated strings as internationalized texts and
selection descriptions as contest descriptions: using them as declared read
one type as another.
---
 include/electionguard/manifest.h       |  8 ++++----
 src/electionguard/facades/manifest.cpp | 15 ++++++++-------
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/include/electionguard/manifest.h b/include/electionguard/manifest.h
index 03436ce..bfcb958 100644
--- a/include/electionguard/manifest.h
+++ b/include/electionguard/manifest.h
@@ -201,7 +201,7 @@ EG_API eg_electionguard_status_t eg_internationalized_text_get_text_at_index(
  * A hash representation of the object. Caller is responsible for lifecycle.
  */
 EG_API eg_electionguard_status_t
-eg_intertnationalized_text_crypto_hash(eg_language_t *handle, eg_element_mod_q_t **out_crypto_hash);
+eg_intertnationalized_text_crypto_hash(eg_internationalized_text_t *handle, eg_element_mod_q_t **out_crypto_hash);
 
 #endif
 
@@ -269,7 +269,7 @@ EG_API uint64_t eg_contact_information_get_email_line_size(eg_contact_informatio
  */
 EG_API eg_electionguard_status_t
 eg_contact_information_get_email_line_at_index(eg_contact_information_t *handle, uint64_t in_index,
-                                               eg_internationalized_text_t **out_address_ref);
+                                               eg_annotated_string_t **out_address_ref);
 
 /**
  * Get the Size of the phone line collection
@@ -289,7 +289,7 @@ EG_API uint64_t eg_contact_information_get_phone_line_size(eg_contact_informatio
  *                          The value is a reference and is not owned by the caller
  */
 EG_API eg_electionguard_status_t eg_contact_information_get_phone_line_at_index(
-  eg_contact_information_t *handle, uint64_t in_index, eg_internationalized_text_t **out_phone_ref);
+  eg_contact_information_t *handle, uint64_t in_index, eg_annotated_string_t **out_phone_ref);
 
 EG_API eg_electionguard_status_t eg_contact_information_get_name(eg_contact_information_t *handle,
                                                                  const char **out_name);
@@ -729,7 +729,7 @@ EG_API uint64_t eg_contest_description_with_placeholders_get_placeholders_size(
 
 EG_API eg_electionguard_status_t eg_contest_description_with_placeholders_get_placeholder_at_index(
   eg_contest_description_with_placeholders_t *handle, uint64_t in_index,
-  eg_contest_description_with_placeholders_t **out_placeholder_ref);
+  eg_selection_description_t **out_placeholder_ref);
 
 EG_API bool eg_contest_description_with_placeholders_is_placeholder(
   eg_contest_description_with_placeholders_t *handle, eg_selection_description_t *in_selection);
diff --git a/src/electionguard/facades/manifest.cpp b/src/electionguard/facades/manifest.cpp
index 8b75058..8387526 100644
--- a/src/electionguard/facades/manifest.cpp
+++ b/src/electionguard/facades/manifest.cpp
@@ -243,7 +243,8 @@ eg_internationalized_text_get_text_at_index(eg_internationalized_text_t *handle,
 }
 
 eg_electionguard_status_t
-eg_intertnationalized_text_crypto_hash(eg_language_t *handle, eg_element_mod_q_t **out_crypto_hash)
+eg_intertnationalized_text_crypto_hash(eg_internationalized_text_t *handle,
+                                       eg_element_mod_q_t **out_crypto_hash)
 {
     try {
         auto result = AS_TYPE(InternationalizedText, handle)->crypto_hash();
@@ -354,13 +355,13 @@ uint64_t eg_contact_information_get_email_line_size(eg_contact_information_t *ha
 
 eg_electionguard_status_t
 eg_contact_information_get_email_line_at_index(eg_contact_information_t *handle, uint64_t in_index,
-                                               eg_internationalized_text_t **out_address_ref)
+                                               eg_annotated_string_t **out_address_ref)
 {
     try {
         auto collection = AS_TYPE(ContactInformation, handle)->getEmail();
         auto *reference = &collection.at(uint64_to_size(in_index)).get();
 
-        *out_address_ref = AS_TYPE(eg_internationalized_text_t, reference);
+        *out_address_ref = AS_TYPE(eg_annotated_string_t, reference);
 
         return ELECTIONGUARD_STATUS_SUCCESS;
     } catch (const exception &e) {
@@ -376,13 +377,13 @@ uint64_t eg_contact_information_get_phone_line_size(eg_contact_information_t *ha
 
 eg_electionguard_status_t
 eg_contact_information_get_phone_line_at_index(eg_contact_information_t *handle, uint64_t in_index,
-                                               eg_internationalized_text_t **out_phone_ref)
+                                               eg_annotated_string_t **out_phone_ref)
 {
     try {
         auto collection = AS_TYPE(ContactInformation, handle)->getPhone();
         auto *reference = &collection.at(uint64_to_size(in_index)).get();
 
-        *out_phone_ref = AS_TYPE(eg_internationalized_text_t, reference);
+        *out_phone_ref = AS_TYPE(eg_annotated_string_t, reference);
 
         return ELECTIONGUARD_STATUS_SUCCESS;
     } catch (const exception &e) {
@@ -1577,13 +1578,13 @@ uint64_t eg_contest_description_with_placeholders_get_placeholders_size(
 
 eg_electionguard_status_t eg_contest_description_with_placeholders_get_placeholder_at_index(
   eg_contest_description_with_placeholders_t *handle, uint64_t in_index,
-  eg_contest_description_with_placeholders_t **out_placeholder_ref)
+  eg_selection_description_t **out_placeholder_ref)
 {
     try {
         auto collection = AS_TYPE(ContestDescriptionWithPlaceholders, handle)->getPlaceholders();
         auto *reference = &collection.at(uint64_to_size(in_index)).get();
 
-        *out_placeholder_ref = AS_TYPE(eg_contest_description_with_placeholders_t, reference);
+        *out_placeholder_ref = AS_TYPE(eg_selection_description_t, reference);
 
         return ELECTIONGUARD_STATUS_SUCCESS;
     } catch (const exception &e) {
-- 
2.43.0


From 49adc49072b12b701d67e4f34eb121c48d0d8355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:46 +0000
Subject: [PATCH 50/55] fix: the C validity check of a plaintext contest
 answers the opposite

---
 src/electionguard/facades/ballot.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/electionguard/facades/ballot.cpp b/src/electionguard/facades/ballot.cpp
index 2ce6aa7..184e598 100644
--- a/src/electionguard/facades/ballot.cpp
+++ b/src/electionguard/facades/ballot.cpp
@@ -426,9 +426,10 @@ bool eg_plaintext_ballot_contest_is_valid(eg_plaintext_ballot_contest_t *handle,
 
 {
     try {
-        return AS_TYPE(PlaintextBallotContest, handle)
-          ->isValid(string(in_expected_object_id), in_expected_num_selections,
-                    in_expected_num_elected, in_votes_allowed);
+        auto result = AS_TYPE(PlaintextBallotContest, handle)
+                        ->isValid(string(in_expected_object_id), in_expected_num_selections,
+                                  in_expected_num_elected, in_votes_allowed);
+        return result == electionguard::SUCCESS;
     } catch (const exception &e) {
         Log::error("eg_plaintext_ballot_contest_is_valid", e);
         return false;
-- 
2.43.0


From 42cca777819b2e0d25de488fc4cd29ac796fff8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:11 +0000
Subject: [PATCH 51/55] fix: refusing the bytes of an element leaks a copy of
 them

---
 src/electionguard/group.cpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index 7a9c8a8..80403c2 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -462,12 +462,10 @@ namespace electionguard
     unique_ptr<electionguard::ElementModP> bytes_to_p(vector<uint8_t> bytes,
                                                       bool unchecked /* = false */)
     {
-        auto *array = new uint8_t[bytes.size()];
-        copy(bytes.begin(), bytes.end(), array);
+        auto array = make_unique<uint8_t[]>(bytes.size());
+        copy(bytes.begin(), bytes.end(), array.get());
 
-        auto element = bytes_to_p(array, bytes.size(), unchecked);
-        delete[] array;
-        return element;
+        return bytes_to_p(array.get(), bytes.size(), unchecked);
     }
 
     /// <summary>
@@ -500,12 +498,10 @@ namespace electionguard
     unique_ptr<electionguard::ElementModQ> bytes_to_q(vector<uint8_t> bytes,
                                                       bool unchecked /* = false */)
     {
-        auto *array = new uint8_t[bytes.size()];
-        copy(bytes.begin(), bytes.end(), array);
+        auto array = make_unique<uint8_t[]>(bytes.size());
+        copy(bytes.begin(), bytes.end(), array.get());
 
-        auto element = bytes_to_q(array, bytes.size(), unchecked);
-        delete[] array;
-        return element;
+        return bytes_to_q(array.get(), bytes.size(), unchecked);
     }
 
 #pragma endregion
-- 
2.43.0


From 83c5268181d7d602aaf2ae4483ff66fa2c76b137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:23 +0000
Subject: [PATCH 52/55] fix: a contest whose votes add up to 2^64 or more was
 classified by the wrapped sum

---
 src/electionguard/ballot.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/electionguard/ballot.cpp b/src/electionguard/ballot.cpp
index e1d34ed..0dc76d5 100644
--- a/src/electionguard/ballot.cpp
+++ b/src/electionguard/ballot.cpp
@@ -481,9 +481,11 @@ namespace electionguard
 
         uint64_t numberElected = 0;
         uint64_t votes = 0;
+        bool votesOverflow = false;
 
         for (const auto &selection : pimpl->selections) {
             votes += selection->getVote();
+            votesOverflow = votesOverflow || votes < selection->getVote();
             if (selection->getVote() >= 1) {
                 numberElected += 1;
             }
@@ -502,7 +504,7 @@ namespace electionguard
             votesAllowd = expectedNumberElected;
         }
 
-        if (votes > votesAllowd) {
+        if (votesOverflow || votes > votesAllowd) {
             Log::info(": too many votes");
             if (supportOvervotes) {
                 return OVERVOTE;
-- 
2.43.0


From cfce01bf4dc50af58a0d314b7156ad48fc7bc049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:14 +0000
Subject: [PATCH 53/55] fix: cloning an element mod Q that was made unchecked
 throws

---
 src/electionguard/group.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index 80403c2..144db50 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -421,7 +421,7 @@ namespace electionguard
 
     std::unique_ptr<ElementModQ> ElementModQ::clone() const
     {
-        return make_unique<ElementModQ>(pimpl->data);
+        return make_unique<ElementModQ>(pimpl->data, true);
     }
 
 #pragma endregion
-- 
2.43.0


From 3e655dbe62a6baad9d7c44ebff9fbde8c5b9b0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:38 +0000
Subject: [PATCH 54/55] fix: destroyed elements leave most of their value in
 the released memory

Only MAX_P_LEN and MAX_Q_LEN bytes were wiped, not that many words, and the
cached hex text of an element mod P and the key copied by get_hmac not at all.
---
 src/electionguard/group.cpp | 8 ++++++--
 src/electionguard/hmac.cpp  | 3 ++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index 144db50..ff64729 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -139,7 +139,11 @@ namespace electionguard
             copy(begin(elem), end(elem), begin(data));
         };
 
-        ~Impl() { Lib_Memzero0_memzero(static_cast<uint64_t *>(data), MAX_P_LEN); };
+        ~Impl()
+        {
+            Lib_Memzero0_memzero(static_cast<uint64_t *>(data), sizeof(data));
+            Lib_Memzero0_memzero(hexRepresentation.data(), hexRepresentation.size());
+        };
 
         [[nodiscard]] unique_ptr<ElementModP::Impl> clone() const
         {
@@ -301,7 +305,7 @@ namespace electionguard
             copy(begin(elem), end(elem), begin(data));
         };
 
-        ~Impl() { Lib_Memzero0_memzero(static_cast<uint64_t *>(data), MAX_Q_LEN); };
+        ~Impl() { Lib_Memzero0_memzero(static_cast<uint64_t *>(data), sizeof(data)); };
 
         [[nodiscard]] unique_ptr<ElementModQ::Impl> clone() const
         {
diff --git a/src/electionguard/hmac.cpp b/src/electionguard/hmac.cpp
index a16f231..7a335b8 100644
--- a/src/electionguard/hmac.cpp
+++ b/src/electionguard/hmac.cpp
@@ -35,10 +35,11 @@ namespace electionguard
             data_to_hmac = message;
         }
 
-        // calculate the hmac and then zeroize the buffer holding the data we hmaced
+        // calculate the hmac and then zeroize the buffers holding the data we hmaced and the key
         Hacl_HMAC_compute_sha2_256(&hmac.front(), &key.front(), key.size(), &data_to_hmac.front(),
                                    data_to_hmac.size());
         Lib_Memzero0_memzero(&data_to_hmac.front(), data_to_hmac.size());
+        Lib_Memzero0_memzero(&key.front(), key.size());
 
         return hmac;
     }
-- 
2.43.0


From a83443f3f88921ad1a6d7e901474a8819af2256c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:02 +0000
Subject: [PATCH 55/55] fix: parts with equal sequence orders change places
 when a large ballot or manifest is read back

---
 src/electionguard/ballot.cpp   | 40 +++++++++++++--------------
 src/electionguard/manifest.cpp | 50 +++++++++++++++++-----------------
 2 files changed, 45 insertions(+), 45 deletions(-)

diff --git a/src/electionguard/ballot.cpp b/src/electionguard/ballot.cpp
index 0dc76d5..237ad86 100644
--- a/src/electionguard/ballot.cpp
+++ b/src/electionguard/ballot.cpp
@@ -614,11 +614,11 @@ namespace electionguard
             references.push_back(ref(*selection));
         }
 
-        sort(references.begin(), references.end(),
-             [](const reference_wrapper<CiphertextBallotSelection> left,
-                const reference_wrapper<CiphertextBallotSelection> right) {
-                 return left.get().getSequenceOrder() < right.get().getSequenceOrder();
-             });
+        std::stable_sort(references.begin(), references.end(),
+                         [](const reference_wrapper<CiphertextBallotSelection> left,
+                            const reference_wrapper<CiphertextBallotSelection> right) {
+                             return left.get().getSequenceOrder() < right.get().getSequenceOrder();
+                         });
         return references;
     }
 
@@ -666,11 +666,11 @@ namespace electionguard
             selectionReferences.push_back(ref(*selection));
         }
 
-        sort(selectionReferences.begin(), selectionReferences.end(),
-             [](const reference_wrapper<CiphertextBallotSelection> left,
-                const reference_wrapper<CiphertextBallotSelection> right) {
-                 return left.get().getSequenceOrder() < right.get().getSequenceOrder();
-             });
+        std::stable_sort(selectionReferences.begin(), selectionReferences.end(),
+                         [](const reference_wrapper<CiphertextBallotSelection> left,
+                            const reference_wrapper<CiphertextBallotSelection> right) {
+                             return left.get().getSequenceOrder() < right.get().getSequenceOrder();
+                         });
 
         if (cryptoHash == nullptr) {
             auto crypto_hash = makeCryptoHash(objectId, selectionReferences, descriptionHash);
@@ -987,11 +987,11 @@ namespace electionguard
             references.push_back(ref(*contest));
         }
 
-        sort(references.begin(), references.end(),
-             [](const reference_wrapper<CiphertextBallotContest> left,
-                const reference_wrapper<CiphertextBallotContest> right) {
-                 return left.get().getSequenceOrder() < right.get().getSequenceOrder();
-             });
+        std::stable_sort(references.begin(), references.end(),
+                         [](const reference_wrapper<CiphertextBallotContest> left,
+                            const reference_wrapper<CiphertextBallotContest> right) {
+                             return left.get().getSequenceOrder() < right.get().getSequenceOrder();
+                         });
         return references;
     }
 
@@ -1031,11 +1031,11 @@ namespace electionguard
             contestsRefs.push_back(ref(*contest));
         }
 
-        sort(contestsRefs.begin(), contestsRefs.end(),
-             [](const reference_wrapper<CiphertextBallotContest> left,
-                const reference_wrapper<CiphertextBallotContest> right) {
-                 return left.get().getSequenceOrder() < right.get().getSequenceOrder();
-             });
+        std::stable_sort(contestsRefs.begin(), contestsRefs.end(),
+                         [](const reference_wrapper<CiphertextBallotContest> left,
+                            const reference_wrapper<CiphertextBallotContest> right) {
+                             return left.get().getSequenceOrder() < right.get().getSequenceOrder();
+                         });
 
         auto cryptoHash = makeCryptoHash(objectId, contestsRefs, manifestHash);
         auto ballotTimestamp = timestamp == 0 ? getSystemTimestamp() : timestamp;
diff --git a/src/electionguard/manifest.cpp b/src/electionguard/manifest.cpp
index 21e2f49..dbb2fe8 100644
--- a/src/electionguard/manifest.cpp
+++ b/src/electionguard/manifest.cpp
@@ -1219,11 +1219,11 @@ namespace electionguard
             selections.push_back(ref(*selection));
         }
 
-        sort(selections.begin(), selections.end(),
-             [](const reference_wrapper<SelectionDescription> left,
-                const reference_wrapper<SelectionDescription> right) {
-                 return left.get().getSequenceOrder() < right.get().getSequenceOrder();
-             });
+        std::stable_sort(selections.begin(), selections.end(),
+                         [](const reference_wrapper<SelectionDescription> left,
+                            const reference_wrapper<SelectionDescription> right) {
+                             return left.get().getSequenceOrder() < right.get().getSequenceOrder();
+                         });
 
         return selections;
     }
@@ -1414,11 +1414,11 @@ namespace electionguard
             placeholders.push_back(ref(*selection));
         }
 
-        sort(placeholders.begin(), placeholders.end(),
-             [](const reference_wrapper<SelectionDescription> left,
-                const reference_wrapper<SelectionDescription> right) {
-                 return left.get().getSequenceOrder() < right.get().getSequenceOrder();
-             });
+        std::stable_sort(placeholders.begin(), placeholders.end(),
+                         [](const reference_wrapper<SelectionDescription> left,
+                            const reference_wrapper<SelectionDescription> right) {
+                             return left.get().getSequenceOrder() < right.get().getSequenceOrder();
+                         });
 
         return placeholders;
     }
@@ -1630,11 +1630,11 @@ namespace electionguard
             references.push_back(ref(*reference));
         }
 
-        sort(references.begin(), references.end(),
-             [](const reference_wrapper<ContestDescription> left,
-                const reference_wrapper<ContestDescription> right) {
-                 return left.get().getSequenceOrder() < right.get().getSequenceOrder();
-             });
+        std::stable_sort(references.begin(), references.end(),
+                         [](const reference_wrapper<ContestDescription> left,
+                            const reference_wrapper<ContestDescription> right) {
+                             return left.get().getSequenceOrder() < right.get().getSequenceOrder();
+                         });
 
         return references;
     }
@@ -1916,11 +1916,11 @@ namespace electionguard
         for (auto &reference : pimpl->contests) {
             references.push_back(ref(*reference));
         }
-        sort(references.begin(), references.end(),
-             [](const reference_wrapper<ContestDescriptionWithPlaceholders> left,
-                const reference_wrapper<ContestDescriptionWithPlaceholders> right) {
-                 return left.get().getSequenceOrder() < right.get().getSequenceOrder();
-             });
+        std::stable_sort(references.begin(), references.end(),
+                         [](const reference_wrapper<ContestDescriptionWithPlaceholders> left,
+                            const reference_wrapper<ContestDescriptionWithPlaceholders> right) {
+                             return left.get().getSequenceOrder() < right.get().getSequenceOrder();
+                         });
         return references;
     }
 
@@ -1964,11 +1964,11 @@ namespace electionguard
             }
         }
 
-        sort(contests.begin(), contests.end(),
-             [](const reference_wrapper<ContestDescriptionWithPlaceholders> left,
-                const reference_wrapper<ContestDescriptionWithPlaceholders> right) {
-                 return left.get().getSequenceOrder() < right.get().getSequenceOrder();
-             });
+        std::stable_sort(contests.begin(), contests.end(),
+                         [](const reference_wrapper<ContestDescriptionWithPlaceholders> left,
+                            const reference_wrapper<ContestDescriptionWithPlaceholders> right) {
+                             return left.get().getSequenceOrder() < right.get().getSequenceOrder();
+                         });
 
         return contests;
     }
-- 
2.43.0

