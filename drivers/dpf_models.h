// Stand-ins and helpers shared by the DPF scenarios.
#ifndef VERIF_DRIVERS_DPF_MODELS_H_
#define VERIF_DRIVERS_DPF_MODELS_H_
#include "dpf/distributed_point_function.h"
#include "dpf/internal/evaluate_prg_hwy.h"
#include "verif.h"
namespace verif_scn {
using namespace distributed_point_functions;
using absl::uint128;
using Dpf = DistributedPointFunction;

// The fixed-key hash (decided by its own property): a function of key and block.
inline uint128 Hash(uint128 key, uint128 block) { return verif::Fn<uint128>("H", key, block); }
inline absl::Status ModelHash(const Aes128FixedKeyHash* h, absl::Span<const uint128> in, absl::Span<uint128> out) {
  if (in.size() != out.size()) return absl::InvalidArgumentError("");
  std::vector<uint128> r(in.size());
  for (int64_t i = 0; i < in.size(); ++i) r[i] = Hash(h->key(), in[i]);
  for (int64_t i = 0; i < in.size(); ++i) out[i] = r[i];
  return absl::OkStatus();
}
// A function with the given parameters; the three fixed-key hashes are arbitrary.
template <typename T>
DpfParameters Parameters(int log_domain) {
  DpfParameters p;
  p.set_log_domain_size(log_domain);
  p.set_security_parameter(40 + log_domain);
  *p.mutable_value_type() = dpf_internal::ValueTypeHelper<T>::ToValueType();
  return p;
}
inline std::unique_ptr<Dpf> Make(std::vector<DpfParameters> parameters, std::vector<int> tree, std::vector<int> blocks) {
  absl::flat_hash_map<int, int> inverse;
  for (int i = 0; i < static_cast<int>(tree.size()); ++i) inverse[tree[i]] = i;
  int needed = tree.back() + 1;
  auto validator = absl::WrapUnique(new dpf_internal::ProtoValidator(std::move(parameters), needed, std::move(inverse), std::move(tree)));
  return absl::WrapUnique(new Dpf(std::move(validator), std::move(blocks),
      Aes128FixedKeyHash(nullptr, verif::Fresh<uint128>("left")), Aes128FixedKeyHash(nullptr, verif::Fresh<uint128>("right")),
      Aes128FixedKeyHash(nullptr, verif::Fresh<uint128>("value")), {}));
}
inline uint128 ToBlock(const Block& b) { return absl::MakeUint128(b.high(), b.low()); }
}  // namespace verif_scn
#endif
