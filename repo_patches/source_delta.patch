From ee5c2d0b0c9c980e3e64022fe654008aa2fc95f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:29 +0000
Subject: [PATCH 01/20] fix: cuckoo client matches a longer query against a
 shorter stored key

A response shorter than the query string was treated as equal to the
query as long as it was a prefix of it, so a query for a key that is not
in the database could return the value of a stored key that is a prefix
of it.
---
 pir/cuckoo_hashing_sparse_dpf_pir_client.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pir/cuckoo_hashing_sparse_dpf_pir_client.cc b/pir/cuckoo_hashing_sparse_dpf_pir_client.cc
index 9ed0d3b..51aadc3 100644
--- a/pir/cuckoo_hashing_sparse_dpf_pir_client.cc
+++ b/pir/cuckoo_hashing_sparse_dpf_pir_client.cc
@@ -44,6 +44,7 @@ namespace {
 // zero bytes.
 bool IsPrefixPaddedWithZeros(absl::string_view input,
                              absl::string_view prefix) {
+  if (input.size() < prefix.size()) return false;
   for (int i = 0; i < input.size(); ++i) {
     if (i < prefix.size()) {
       if (input[i] != prefix[i]) return false;
-- 
2.43.0


From 18f78e3920809a2752887aa22f1ca7001dc8525a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:02 +0000
Subject: [PATCH 02/20] fix: simple-hashing client refuses a response that is
 not a valid bucket

---
 pir/simple_hashing_sparse_dpf_pir_client.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pir/simple_hashing_sparse_dpf_pir_client.cc b/pir/simple_hashing_sparse_dpf_pir_client.cc
index 33f571c..3295d62 100644
--- a/pir/simple_hashing_sparse_dpf_pir_client.cc
+++ b/pir/simple_hashing_sparse_dpf_pir_client.cc
@@ -197,7 +197,11 @@ SimpleHashingSparseDpfPirClient::HandleResponse(
     ::google::protobuf::io::CodedInputStream coded_stream(
         reinterpret_cast<const uint8_t*>(raw_responses[i].data()),
         raw_responses[i].size());
-    bucket.ParseFromCodedStream(&coded_stream);
+    if (!bucket.ParseFromCodedStream(&coded_stream) ||
+        bucket.keys_size() != bucket.values_size()) {
+      return absl::InvalidArgumentError(
+          "`pir_response` does not contain a valid HashedPirDatabaseBucket");
+    }
     absl::string_view query =
         request_client_state
             .simple_hashing_sparse_dpf_pir_request_client_state()
-- 
2.43.0


From 1c6373679ca17364f329d37b8dce08c4b70ddabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:57 +0000
Subject: [PATCH 03/20] fix: cuckoo-hashed database refuses records it cannot
 place

The hash table was created with an unlimited stash, which Build() never reads,
so records that ended up there were missing from a database that was built
successfully.
---
 pir/cuckoo_hashed_dpf_pir_database.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pir/cuckoo_hashed_dpf_pir_database.cc b/pir/cuckoo_hashed_dpf_pir_database.cc
index 8331377..6a515cf 100644
--- a/pir/cuckoo_hashed_dpf_pir_database.cc
+++ b/pir/cuckoo_hashed_dpf_pir_database.cc
@@ -136,12 +136,14 @@ CuckooHashedDpfPirDatabase::Builder::Build() {
     value_database_builder_ = std::make_unique<DenseDpfPirDatabase::Builder>();
   }
 
-  // Cuckoo hash all the keys.
+  // Cuckoo hash all the keys. There is no place for a stash in the database, so
+  // we fail if a key cannot be placed in the table.
   int64_t num_records = records_.size();
   DPF_ASSIGN_OR_RETURN(
       auto cuckoo_hasher,
       CuckooHashTable::Create(std::move(hash_family), params_.num_buckets(),
-                              params_.num_hash_functions(), num_records));
+                              params_.num_hash_functions(), num_records,
+                              /*max_stash_size=*/0));
   for (const auto& [key, _] : records_) {
     if (key.empty()) {
       return absl::InvalidArgumentError("Key cannot be empty");
-- 
2.43.0


From f4f08973637393beeb3a36d2dc98784dca79a079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:09 +0000
Subject: [PATCH 04/20] fix: simple hash table counts all copies of an element
 against the maximum

Several hash functions can map an element to the same bucket; each was checked
against the bucket size before any copy was inserted, so a bucket could exceed
max_bucket_size.
---
 pir/hashing/simple_hash_table.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pir/hashing/simple_hash_table.cc b/pir/hashing/simple_hash_table.cc
index b03c19e..384005e 100644
--- a/pir/hashing/simple_hash_table.cc
+++ b/pir/hashing/simple_hash_table.cc
@@ -14,6 +14,8 @@
 
 #include "pir/hashing/simple_hash_table.h"
 
+#include <algorithm>
+#include <cstdint>
 #include <memory>
 #include <string>
 #include <utility>
@@ -56,7 +58,11 @@ absl::Status SimpleHashTable::Insert(absl::string_view input) {
   std::vector<int> hashes(hash_functions_.size());
   for (int i = 0; i < hash_functions_.size(); i++) {
     hashes[i] = hash_functions_[i](input, num_buckets_);
-    if (max_bucket_size_ && table_[hashes[i]].size() >= *max_bucket_size_) {
+    // A bucket gets one copy for every hash function that maps to it.
+    const int64_t num_copies =
+        1 + std::count(hashes.begin(), hashes.begin() + i, hashes[i]);
+    if (max_bucket_size_ &&
+        table_[hashes[i]].size() + num_copies > *max_bucket_size_) {
       return absl::InternalError(
           "Cannot insert element: maximum bucket size reached");
     }
-- 
2.43.0


From 3aa19a95054693062e16fe2f281eee671e0dc5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:51 +0000
Subject: [PATCH 05/20] fix: bits needed for tuples that mix integers mod N
 with other types

---
 dpf/internal/value_type_helpers.cc | 48 +++++++++++++++++++++++++-----
 1 file changed, 40 insertions(+), 8 deletions(-)

diff --git a/dpf/internal/value_type_helpers.cc b/dpf/internal/value_type_helpers.cc
index 0704cce..238abae 100644
--- a/dpf/internal/value_type_helpers.cc
+++ b/dpf/internal/value_type_helpers.cc
@@ -16,6 +16,7 @@
 
 #include <stdint.h>
 
+#include <algorithm>
 #include <cmath>
 #include <string>
 
@@ -68,6 +69,28 @@ absl::StatusOr<bool> ValueTypesAreEqual(const ValueType& lhs,
   return false;
 }
 
+namespace {
+
+// Returns the sum of the bit sizes of all integers in `value_type`. Sets
+// `has_int_mod_n` to true if there is an integer mod N among them.
+int TotalBitsOfIntegers(const ValueType& value_type, bool& has_int_mod_n) {
+  if (value_type.type_case() == ValueType::kTuple) {
+    int result = 0;
+    for (const ValueType& el : value_type.tuple().elements()) {
+      result += TotalBitsOfIntegers(el, has_int_mod_n);
+    }
+    return result;
+  } else if (value_type.type_case() == ValueType::kIntModN) {
+    has_int_mod_n = true;
+    return value_type.int_mod_n().base_integer().bitsize();
+  } else if (value_type.type_case() == ValueType::kXorWrapper) {
+    return value_type.xor_wrapper().bitsize();
+  }
+  return value_type.integer().bitsize();
+}
+
+}  // namespace
+
 absl::StatusOr<int> BitsNeeded(const ValueType& value_type,
                                double security_parameter) {
   if (value_type.type_case() == ValueType::kInteger) {
@@ -102,15 +125,15 @@ absl::StatusOr<int> BitsNeeded(const ValueType& value_type,
         ++num_other;
       }
     }
-    if (num_other > 0) {
-      for (int i = 0; i < num_other; ++i) {
-        double per_element_security_parameter =
-            security_parameter + std::log2(static_cast<double>(num_other));
-        DPF_ASSIGN_OR_RETURN(int el_bitsize,
-                             BitsNeeded(value_type.tuple().elements(i),
-                                        per_element_security_parameter));
-        bitsize_other += el_bitsize;
+    for (const ValueType& el : value_type.tuple().elements()) {
+      if (el.type_case() == ValueType::kIntModN) {
+        continue;
       }
+      double per_element_security_parameter =
+          security_parameter + std::log2(static_cast<double>(num_other));
+      DPF_ASSIGN_OR_RETURN(int el_bitsize,
+                           BitsNeeded(el, per_element_security_parameter));
+      bitsize_other += el_bitsize;
     }
     if (num_ints_mod_n > 0) {
       DPF_ASSIGN_OR_RETURN(
@@ -123,6 +146,15 @@ absl::StatusOr<int> BitsNeeded(const ValueType& value_type,
               modulus, security_parameter));
       bitsize_ints_mod_n = bytes_needed_ints_mod_n * 8;
     }
+    if (num_other > 0) {
+      // If there is an integer mod N in this tuple, then all elements are
+      // sampled one after the other, starting with a 128-bit block.
+      bool has_int_mod_n = false;
+      int total_bits = TotalBitsOfIntegers(value_type, has_int_mod_n);
+      if (has_int_mod_n) {
+        return std::max(bitsize_ints_mod_n + bitsize_other, 128 + total_bits);
+      }
+    }
     return bitsize_ints_mod_n + bitsize_other;
   } else if (value_type.type_case() == ValueType::kIntModN) {
     DPF_ASSIGN_OR_RETURN(
-- 
2.43.0


From 0f1e000a9f79e75a122d3b1177b8a2af3e054a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:04 +0000
Subject: [PATCH 06/20] fix: refuse 128-bit integers that do not fit the type
 they are converted to

---
 dpf/internal/value_type_helpers.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dpf/internal/value_type_helpers.h b/dpf/internal/value_type_helpers.h
index 1e28348..b579a5e 100644
--- a/dpf/internal/value_type_helpers.h
+++ b/dpf/internal/value_type_helpers.h
@@ -169,8 +169,7 @@ template <typename T, typename = absl::enable_if_t<is_unsigned_integer_v<T>>>
 absl::StatusOr<T> Uint128To(absl::uint128 in) {
   // Check whether value is in range if it's smaller than 128 bits.
   if (!std::is_same<T, absl::uint128>::value &&
-      absl::Uint128Low64(in) >
-          static_cast<uint64_t>(std::numeric_limits<T>::max())) {
+      in > absl::uint128{std::numeric_limits<T>::max()}) {
     return absl::InvalidArgumentError(absl::StrCat(
         "Value (= ", absl::Uint128Low64(in),
         ") too large for the given type T (size ", sizeof(T), ")"));
-- 
2.43.0


From 90e1b8d69b2d74bed562fd88af9818d5cf63fe27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:04 +0000
Subject: [PATCH 07/20] fix: refuse 128-bit integer values without a number

---
 dpf/internal/proto_validator.cc | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/dpf/internal/proto_validator.cc b/dpf/internal/proto_validator.cc
index 678b3de..c41cbfe 100644
--- a/dpf/internal/proto_validator.cc
+++ b/dpf/internal/proto_validator.cc
@@ -88,13 +88,12 @@ absl::Status ValidateIntegerType(const ValueType::Integer& type) {
 
 absl::Status ValidateIntegerValue(const Value::Integer& value,
                                   const ValueType::Integer& type) {
-  if (type.bitsize() < 128) {
-    DPF_ASSIGN_OR_RETURN(absl::uint128 value_128, ValueIntegerToUint128(value));
-    if (value_128 >= absl::uint128{1} << type.bitsize()) {
-      return absl::InvalidArgumentError(absl::StrFormat(
-          "Value (= %d) too large for ValueType with bitsize = %d", value_128,
-          type.bitsize()));
-    }
+  DPF_ASSIGN_OR_RETURN(absl::uint128 value_128, ValueIntegerToUint128(value));
+  if (type.bitsize() < 128 &&
+      value_128 >= absl::uint128{1} << type.bitsize()) {
+    return absl::InvalidArgumentError(absl::StrFormat(
+        "Value (= %d) too large for ValueType with bitsize = %d", value_128,
+        type.bitsize()));
   }
   return absl::OkStatus();
 }
-- 
2.43.0


From 0a3d8cfed0a0d556b43fc51686cf78905997a01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:15 +0000
Subject: [PATCH 08/20] fix: refuse contexts with partial evaluations of an
 unknown level

---
 dpf/distributed_point_function.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dpf/distributed_point_function.cc b/dpf/distributed_point_function.cc
index a3c42d0..d63caba 100644
--- a/dpf/distributed_point_function.cc
+++ b/dpf/distributed_point_function.cc
@@ -380,6 +380,13 @@ DistributedPointFunction::ComputePartialEvaluations(
     bool update_ctx, EvaluationContext& ctx) const {
   int64_t num_prefixes = static_cast<int64_t>(prefixes.size());
 
+  if (ctx.partial_evaluations_level() < 0 ||
+      ctx.partial_evaluations_level() >= static_cast<int>(parameters_.size())) {
+    return absl::InvalidArgumentError(
+        "`ctx.partial_evaluations_level` must be non-negative and less than "
+        "parameters_.size()");
+  }
+
   DpfExpansion partial_evaluations;
   int start_level = hierarchy_to_tree_[ctx.partial_evaluations_level()];
   int stop_level = hierarchy_to_tree_[hierarchy_level];
-- 
2.43.0


From e5f5238c9dd36652050041ec4b57b1e2e623ade3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:32 +0000
Subject: [PATCH 09/20] fix: refuse expansions whose size does not fit in
 memory

---
 dpf/distributed_point_function.cc | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/dpf/distributed_point_function.cc b/dpf/distributed_point_function.cc
index d63caba..ea50c95 100644
--- a/dpf/distributed_point_function.cc
+++ b/dpf/distributed_point_function.cc
@@ -294,14 +294,23 @@ DistributedPointFunction::ExpandSeeds(
     absl::Span<const CorrectionWord* const> correction_words) const {
   int num_expansions = static_cast<int>(correction_words.size());
 
-  // Check that the output size fits in a size_t. This should already be checked
-  // by the caller, so using ABSL_DCHECK here is enough.
-  ABSL_DCHECK_LT(num_expansions, 63);
+  // Check that the output size fits in a size_t. If the previous hierarchy level
+  // packs more elements into a block than the current one, there are more tree
+  // levels to expand than the domain grows.
+  if (num_expansions >= 63) {
+    return absl::InvalidArgumentError(
+        "Output size would be too large. Please evaluate fewer hierarchy "
+        "levels at once, or insert intermediate hierarchy levels.");
+  }
   auto current_level_size =
       static_cast<int64_t>(partial_evaluations.control_bits.size());
   absl::uint128 output_size_128 = absl::uint128{current_level_size}
                                   << num_expansions;
-  ABSL_DCHECK_LE(output_size_128, std::numeric_limits<size_t>::max() / 2);
+  if (output_size_128 > std::numeric_limits<size_t>::max() / 2) {
+    return absl::InvalidArgumentError(
+        "Output size would be too large. Please evaluate fewer hierarchy "
+        "levels at once, or evaluate on fewer prefixes at once.");
+  }
   size_t output_size = static_cast<size_t>(output_size_128);
 
   // Allocate buffers with the correct size to avoid reallocations.
-- 
2.43.0


From 370811f304404154291f1625ad789ff6e9420141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:32 +0000
Subject: [PATCH 10/20] fix: evaluating no keys at all does not abort

---
 dpf/distributed_point_function.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dpf/distributed_point_function.h b/dpf/distributed_point_function.h
index 6cd1c56..47cd193 100644
--- a/dpf/distributed_point_function.h
+++ b/dpf/distributed_point_function.h
@@ -1093,6 +1093,9 @@ absl::Status DistributedPointFunction::EvaluateAndApply(
   }
 
   const int64_t num_keys = keys.size();
+  if (num_keys == 0) {
+    return absl::OkStatus();  // Nothing to do.
+  }
   const int num_hierarchy_levels = parameters_.size();
   DpfExpansion eval;
   eval.control_bits.resize(num_keys);
-- 
2.43.0


From 5413d58e25bbbe66de55a5595f0bdc16bd76bfd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:32 +0000
Subject: [PATCH 11/20] fix: EvaluateAndApply refuses points outside of the
 domain

---
 dpf/distributed_point_function.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dpf/distributed_point_function.h b/dpf/distributed_point_function.h
index 47cd193..2e01baf 100644
--- a/dpf/distributed_point_function.h
+++ b/dpf/distributed_point_function.h
@@ -1091,6 +1091,16 @@ absl::Status DistributedPointFunction::EvaluateAndApply(
     absl::Status status = proto_validator_->ValidateDpfKey(keys[i]);
     if (!status.ok()) return status;
   }
+  const int evaluation_point_bits =
+      parameters_.back().log_domain_size() + evaluation_points_rightshift;
+  if (evaluation_point_bits < 128) {
+    for (size_t i = 0; i < evaluation_points.size(); ++i) {
+      if (evaluation_points[i] >= absl::uint128{1} << evaluation_point_bits) {
+        return absl::InvalidArgumentError(absl::StrCat(
+            "`evaluation_points[", i, "]` larger than the domain size"));
+      }
+    }
+  }
 
   const int64_t num_keys = keys.size();
   if (num_keys == 0) {
-- 
2.43.0


From 9c128ea73a9bb4095c543b0d9bb25c63f7a39d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:32 +0000
Subject: [PATCH 12/20] fix: refuse keys of a party other than 0 and 1

---
 dpf/internal/proto_validator.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dpf/internal/proto_validator.cc b/dpf/internal/proto_validator.cc
index c41cbfe..676cb1f 100644
--- a/dpf/internal/proto_validator.cc
+++ b/dpf/internal/proto_validator.cc
@@ -206,6 +206,9 @@ absl::Status ProtoValidator::ValidateDpfKey(const DpfKey& key) const {
   if (!key.has_seed()) {
     return absl::InvalidArgumentError("key.seed must be present");
   }
+  if (key.party() != 0 && key.party() != 1) {
+    return absl::InvalidArgumentError("key.party must be 0 or 1");
+  }
   if (key.last_level_value_correction().empty()) {
     return absl::InvalidArgumentError(
         "key.last_level_value_correction must be present");
-- 
2.43.0


From e95ed870e1d040cf059e139e65a12a990bfc20af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:54 +0000
Subject: [PATCH 13/20] fix: refuse empty tuples as value types

---
 dpf/internal/proto_validator.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dpf/internal/proto_validator.cc b/dpf/internal/proto_validator.cc
index 676cb1f..1cd3316 100644
--- a/dpf/internal/proto_validator.cc
+++ b/dpf/internal/proto_validator.cc
@@ -272,6 +272,9 @@ absl::Status ProtoValidator::ValidateValueType(const ValueType& value_type) {
   if (value_type.type_case() == ValueType::kInteger) {
     return ValidateIntegerType(value_type.integer());
   } else if (value_type.type_case() == ValueType::kTuple) {
+    if (value_type.tuple().elements().empty()) {
+      return absl::InvalidArgumentError("Tuples must have at least one element");
+    }
     for (const ValueType& el : value_type.tuple().elements()) {
       DPF_RETURN_IF_ERROR(ValidateValueType(el));
     }
-- 
2.43.0


From 27dced56b6f7e8d46d28c91a864401ada64addda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:54 +0000
Subject: [PATCH 14/20] fix: comparison functions with XOR-wrapped values

---
 dcf/distributed_comparison_function.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dcf/distributed_comparison_function.cc b/dcf/distributed_comparison_function.cc
index 40f9c36..db0250b 100644
--- a/dcf/distributed_comparison_function.cc
+++ b/dcf/distributed_comparison_function.cc
@@ -34,6 +34,8 @@ void SetToZero(Value& value) {
     value.mutable_integer()->set_value_uint64(0);
   } else if (value.value_case() == Value::kIntModN) {
     value.mutable_int_mod_n()->set_value_uint64(0);
+  } else if (value.value_case() == Value::kXorWrapper) {
+    value.mutable_xor_wrapper()->set_value_uint64(0);
   } else if (value.value_case() == Value::kTuple) {
     for (int i = 0; i < value.tuple().elements_size(); ++i) {
       SetToZero(*(value.mutable_tuple()->mutable_elements(i)));
-- 
2.43.0


From ecfd6b858072b32f2d5268613ed5d711c3037f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:54 +0000
Subject: [PATCH 15/20] fix: comparison functions refuse domains of more than
 128 bits

---
 dcf/distributed_comparison_function.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dcf/distributed_comparison_function.cc b/dcf/distributed_comparison_function.cc
index db0250b..8cba11e 100644
--- a/dcf/distributed_comparison_function.cc
+++ b/dcf/distributed_comparison_function.cc
@@ -56,6 +56,11 @@ DistributedComparisonFunction::Create(const DcfParameters& parameters) {
     return absl::InvalidArgumentError("A DCF must have log_domain_size >= 1");
   }
 
+  // Check that the parameters are valid. This includes the upper bound on the
+  // domain size, which determines the number of DPF parameters below.
+  DPF_RETURN_IF_ERROR(dpf_internal::ProtoValidator::ValidateParameters(
+      absl::MakeConstSpan(&parameters.parameters(), 1)));
+
   // Create parameter vector for the incremental DPF.
   std::vector<DpfParameters> dpf_parameters(
       parameters.parameters().log_domain_size());
-- 
2.43.0


From b2020885b07519c60526f9d3cd6449c3fba096f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:54 +0000
Subject: [PATCH 16/20] fix: comparison functions use the given security
 parameter

---
 dcf/distributed_comparison_function.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dcf/distributed_comparison_function.cc b/dcf/distributed_comparison_function.cc
index 8cba11e..a0efe89 100644
--- a/dcf/distributed_comparison_function.cc
+++ b/dcf/distributed_comparison_function.cc
@@ -68,6 +68,8 @@ DistributedComparisonFunction::Create(const DcfParameters& parameters) {
     dpf_parameters[i].set_log_domain_size(i);
     *(dpf_parameters[i].mutable_value_type()) =
         parameters.parameters().value_type();
+    dpf_parameters[i].set_security_parameter(
+        parameters.parameters().security_parameter());
   }
 
   // Check that parameters are valid. We can use the DPF proto validator
-- 
2.43.0


From c0ab18918e1ec0a5c8e72e2076a85e400bbf0839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:54 +0000
Subject: [PATCH 17/20] fix: samples of 128-bit integers mod N are independent

---
 dpf/int_mod_n.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dpf/int_mod_n.h b/dpf/int_mod_n.h
index 0f61ed0..db8332b 100644
--- a/dpf/int_mod_n.h
+++ b/dpf/int_mod_n.h
@@ -172,9 +172,11 @@ class IntModNImpl : public IntModNBase {
     for (int i = 0; i < static_cast<int>(samples.size()); ++i) {
       samples[i] = IntModNImpl(static_cast<BaseInteger>(r % kModulus));
       if (i < static_cast<int>(randomness.size())) {
-        r /= kModulus;
         if (sizeof(BaseInteger) < sizeof(absl::uint128)) {
+          r /= kModulus;
           r <<= (sizeof(BaseInteger) * 8);
+        } else {
+          r = 0;
         }
         r |= randomness[i];
       }
-- 
2.43.0


From bb504732d4b1a497915d064ca42601f911ae6d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:54 +0000
Subject: [PATCH 18/20] fix: interval containment refuses keys with missing
 output masks

---
 dcf/fss_gates/multiple_interval_containment.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dcf/fss_gates/multiple_interval_containment.cc b/dcf/fss_gates/multiple_interval_containment.cc
index 174d546..32fa184 100644
--- a/dcf/fss_gates/multiple_interval_containment.cc
+++ b/dcf/fss_gates/multiple_interval_containment.cc
@@ -217,6 +217,15 @@ MultipleIntervalContainmentGate::BatchEval(
         "`keys` and `evaluations_points` must have the same size");
   }
 
+  // Checking whether all keys have an output mask share for each interval.
+  for (int i = 0; i < keys.size(); i++) {
+    if (keys[i].output_mask_share_size() != mic_parameters_.intervals_size()) {
+      return absl::InvalidArgumentError(
+          "Count of output mask shares in each key should be equal to the "
+          "number of intervals");
+    }
+  }
+
   // Setting N = 2 ^ log_group_size
   absl::uint128 N = absl::uint128(1) << mic_parameters_.log_group_size();
 
-- 
2.43.0


From 9069a29344d91e0efab4fcd64d2b74651b7df7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:54 +0000
Subject: [PATCH 19/20] fix: evaluating no interval containment keys does not
 abort

---
 dcf/fss_gates/multiple_interval_containment.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dcf/fss_gates/multiple_interval_containment.cc b/dcf/fss_gates/multiple_interval_containment.cc
index 32fa184..97620cf 100644
--- a/dcf/fss_gates/multiple_interval_containment.cc
+++ b/dcf/fss_gates/multiple_interval_containment.cc
@@ -238,6 +238,9 @@ MultipleIntervalContainmentGate::BatchEval(
   }
 
   int num_intervals = mic_parameters_.intervals_size();
+  if (keys.size() == 0 || num_intervals == 0) {
+    return std::vector<absl::uint128>{};  // Nothing to do.
+  }
   std::vector<absl::uint128> p(num_intervals), q(num_intervals),
       q_prime(num_intervals), s_p(keys.size() * num_intervals),
       s_q_prime(keys.size() * num_intervals);
-- 
2.43.0


From c5b5fe72d40d5e4b33cb6ceb4397c15f014736ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:09 +0000
Subject: [PATCH 20/20] fix: interval containment honours bounds given as
 64-bit integers

---
 .../multiple_interval_containment.cc          | 38 ++++++++++---------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/dcf/fss_gates/multiple_interval_containment.cc b/dcf/fss_gates/multiple_interval_containment.cc
index 97620cf..2aa3997 100644
--- a/dcf/fss_gates/multiple_interval_containment.cc
+++ b/dcf/fss_gates/multiple_interval_containment.cc
@@ -34,6 +34,20 @@
 namespace distributed_point_functions {
 namespace fss_gates {
 
+namespace {
+
+// Converts an interval bound, which may be stored in either of the two ways, to
+// an absl::uint128.
+absl::uint128 BoundToUint128(const Value::Integer& bound) {
+  if (bound.value_case() == Value::Integer::kValueUint64) {
+    return bound.value_uint64();
+  }
+  return absl::MakeUint128(bound.value_uint128().high(),
+                           bound.value_uint128().low());
+}
+
+}  // namespace
+
 absl::StatusOr<std::unique_ptr<MultipleIntervalContainmentGate>>
 MultipleIntervalContainmentGate::Create(const MicParameters& mic_parameters) {
   // Declaring the parameters for a Distributed Comparison Function (DCF).
@@ -56,13 +70,9 @@ MultipleIntervalContainmentGate::Create(const MicParameters& mic_parameters) {
       return absl::InvalidArgumentError("Intervals should be non-empty");
     }
 
-    absl::uint128 p = absl::MakeUint128(
-        mic_parameters.intervals(i).lower_bound().value_uint128().high(),
-        mic_parameters.intervals(i).lower_bound().value_uint128().low());
+    absl::uint128 p = BoundToUint128(mic_parameters.intervals(i).lower_bound());
 
-    absl::uint128 q = absl::MakeUint128(
-        mic_parameters.intervals(i).upper_bound().value_uint128().high(),
-        mic_parameters.intervals(i).upper_bound().value_uint128().low());
+    absl::uint128 q = BoundToUint128(mic_parameters.intervals(i).upper_bound());
 
     // Return error if the intervals are not valid group elements.
     if (p < 0 || p >= N) {
@@ -154,13 +164,9 @@ absl::StatusOr<std::pair<MicKey, MicKey>> MultipleIntervalContainmentGate::Gen(
 
   // Line 3
   for (int i = 0; i < mic_parameters_.intervals_size(); i++) {
-    absl::uint128 p = absl::MakeUint128(
-        mic_parameters_.intervals(i).lower_bound().value_uint128().high(),
-        mic_parameters_.intervals(i).lower_bound().value_uint128().low());
+    absl::uint128 p = BoundToUint128(mic_parameters_.intervals(i).lower_bound());
 
-    absl::uint128 q = absl::MakeUint128(
-        mic_parameters_.intervals(i).upper_bound().value_uint128().high(),
-        mic_parameters_.intervals(i).upper_bound().value_uint128().low());
+    absl::uint128 q = BoundToUint128(mic_parameters_.intervals(i).upper_bound());
 
     // Line 4
     absl::uint128 q_prime = (q + 1) % N;
@@ -255,13 +261,9 @@ MultipleIntervalContainmentGate::BatchEval(
   // https://eprint.iacr.org/2020/1392 Fig. 14 Eval procedure.
   for (int i = 0; i < num_intervals; ++i) {
     // Line 2
-    p[i] = absl::MakeUint128(
-        mic_parameters_.intervals(i).lower_bound().value_uint128().high(),
-        mic_parameters_.intervals(i).lower_bound().value_uint128().low());
+    p[i] = BoundToUint128(mic_parameters_.intervals(i).lower_bound());
 
-    q[i] = absl::MakeUint128(
-        mic_parameters_.intervals(i).upper_bound().value_uint128().high(),
-        mic_parameters_.intervals(i).upper_bound().value_uint128().low());
+    q[i] = BoundToUint128(mic_parameters_.intervals(i).upper_bound());
 
     // Line 3
     q_prime[i] = (q[i] + 1) % N;
-- 
2.43.0

