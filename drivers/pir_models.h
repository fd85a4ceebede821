// Stand-ins shared by the PIR scenarios.
#ifndef VERIF_DRIVERS_PIR_MODELS_H_
#define VERIF_DRIVERS_PIR_MODELS_H_
#include "pir/hashing/hash_family_config.h"
#include "pir/hashing/sha256_hash_family.h"
#include "pir/dense_dpf_pir_client.h"
#include "verif.h"
namespace verif_scn {
using namespace distributed_point_functions;
using Selection = std::vector<XorWrapper<absl::uint128>>;

inline DpfKey KeyOf(int party, absl::uint128 alpha, absl::uint128 beta) {
  return verif::Fn<DpfKey>("key", party, alpha, beta);
}
inline absl::StatusOr<std::pair<DpfKey, DpfKey>> ModelGenerateKeys(
    const DistributedPointFunction* dpf, absl::uint128 alpha,
    const XorWrapper<absl::uint128>& beta) {
  return std::make_pair(KeyOf(0, alpha, beta.value()), KeyOf(1, alpha, beta.value()));
}
inline absl::StatusOr<EvaluationContext> ModelCreateContext(const DistributedPointFunction* dpf, DpfKey key) {
  EvaluationContext c;
  c.set_previous_hierarchy_level(-1);
  *c.mutable_key() = key;
  return c;
}
inline absl::StatusOr<Selection> ModelEvaluateNext(
    const DistributedPointFunction* dpf, absl::Span<const absl::uint128> prefixes, EvaluationContext& ctx) {
  return verif::Fn<Selection>("evaluate", prefixes.size(), ctx.key());
}

// The bucket that hash function `which` of the configured family assigns.
inline int BucketOf(const HashFamilyConfig& config, std::string which, absl::string_view key, int buckets) {
  int r = verif::Fn<int>("bucket", config.seed(), static_cast<int>(config.hash_family()), which, std::string(key), buckets);
  verif::Assume(0 <= r && r < buckets);
  return r;
}
inline absl::StatusOr<HashFamily> ModelHashFamily(const HashFamilyConfig& config) {
  if (config.seed().empty()) return absl::InvalidArgumentError("");
  const HashFamilyConfig copy = config;
  return HashFamily([copy](absl::string_view seed) -> HashFunction {
    std::string s = std::string(seed);
    return HashFunction([copy, s](absl::string_view key, int buckets) -> int {
      return BucketOf(copy, s, key, buckets);
    });
  });
}
inline int ModelSha256(const SHA256HashFunction* f, absl::string_view input, int upper_bound) {
  return verif::Fn<int>("sha256", *f, std::string(input), upper_bound);
}
// The seed fingerprint on which client and servers have to agree.
inline int Fingerprint(absl::string_view seed) {
  return verif::Fn<int>("sha256", SHA256HashFunction(""), std::string(seed), std::numeric_limits<int>::max());
}

inline const CuckooHashingParams& CuckooParams(const PirServerPublicParams& p) {
  return p.cuckoo_hashing_sparse_dpf_pir_server_params();
}


// The client's unmasking of an answer (decided by property P01).
inline absl::StatusOr<std::vector<std::string>> ModelDenseResponse(
    const DenseDpfPirClient* c, const PirResponse& r, const PirRequestClientState& s) {
  if (verif::Fn<bool>("unmask ok", r, s)) return absl::InvalidArgumentError("");
  std::vector<std::string> out(r.dpf_pir_response().masked_response_size());
  for (int i = 0; i < out.size(); ++i) {
    out[i] = verif::Fn<std::string>("unmasked", i, r.dpf_pir_response().masked_response(i),
                                    s.dense_dpf_pir_request_client_state().one_time_pad_seed());
  }
  return out;
}
}  // namespace verif_scn
#endif
