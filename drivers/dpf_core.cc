// Key generation and evaluation of distributed point functions.
#include "dpf_models.h"
using verif::Any; using verif::AnyRef; using verif::Require; using verif::Assume;
namespace verif_scn {

// One level of key generation against one level of expansion, for any state in
// which the parties are on the path to alpha.
void StepKeepsInvariant() {
  const Dpf& dpf = AnyRef<Dpf>("dpf");
  int level = Any<int>("level");
  uint128 alpha = Any<uint128>("alpha");
  std::vector<Value> beta = Any<std::vector<Value>>("beta");
  const uint128 s0 = Any<uint128>("s0"), s1 = Any<uint128>("s1");
  const bool t0 = Any<bool>("t0"), t1 = Any<bool>("t1");
  Assume(t0 != t1);
  std::array<uint128, 2> seeds{s0, s1};
  std::array<bool, 2> bits{t0, t1};
  std::array<DpfKey, 2> keys;
  absl::Status status = dpf.GenerateNext(level, alpha, beta, absl::MakeSpan(seeds), absl::MakeSpan(bits), absl::MakeSpan(keys));
  if (!status.ok()) return;
  Require(keys[0].correction_words_size() == 1 && keys[1].correction_words_size() == 1, "one correction word per level");
  Dpf::DpfExpansion e[2];
  for (int p = 0; p < 2; ++p) {
    Dpf::DpfExpansion start;
    start.seeds = hwy::AllocateAligned<uint128>(1);
    if (start.seeds == nullptr) return;
    start.seeds[0] = p == 0 ? s0 : s1;
    start.control_bits = {p == 0 ? t0 : t1};
    absl::StatusOr<Dpf::DpfExpansion> r = dpf.ExpandSeeds(start, absl::MakeConstSpan(keys[p].correction_words()));
    if (!r.ok()) return;
    e[p] = std::move(*r);
  }
  Require(e[0].control_bits.size() == 2 && e[1].control_bits.size() == 2, "expanding doubles the number of seeds");
  bool b = false;
  int shift = dpf.parameters_.back().log_domain_size() - level;
  if (shift < 128) b = (alpha & (uint128{1} << shift)) != 0;
  Require(e[0].seeds[b] == seeds[0] && e[1].seeds[b] == seeds[1], "the parties follow the path to alpha");
  Require(e[0].control_bits[b] == bits[0] && e[1].control_bits[b] == bits[1], "the control bits follow the path to alpha");
  Require(bits[0] != bits[1], "on the path to alpha exactly one control bit is set");
  Require(e[0].seeds[!b] == e[1].seeds[!b], "off the path the seeds are equal");
  Require(e[0].control_bits[!b] == e[1].control_bits[!b], "off the path the control bits are equal");
}
}  // namespace verif_scn
namespace verif_scn {
// One step down the tree, as the protocol defines it.
struct Node { uint128 seed; bool control; };
inline Node Child(const Dpf& dpf, Node n, bool right, const CorrectionWord& cw) {
  uint128 s = Hash(right ? dpf.prg_right_.key() : dpf.prg_left_.key(), n.seed);
  if (n.control) s ^= ToBlock(cw.seed());
  Node r;
  r.control = (s & 1) != 0;
  r.seed = s & ~uint128{1};
  if (n.control) r.control ^= right ? cw.control_right() : cw.control_left();
  return r;
}
inline bool Bit(uint128 path, int i) { return (path & (uint128{1} << i)) != 0; }

template <int kSeeds, int kLevels, int kFirst = 0>
void WalksThePath() {
  const Dpf& dpf = AnyRef<Dpf>("dpf");
  std::vector<uint128> seeds, paths;
  Dpf::BitVector bits;
  std::vector<CorrectionWord> cws;
  for (int i = 0; i < kSeeds; ++i) {
    seeds.push_back(verif::Fresh<uint128>("seed"));
    paths.push_back(verif::Fresh<uint128>("path"));
    bits.push_back(verif::Fresh<bool>("bit"));
  }
  for (int i = 0; i < kLevels; ++i) cws.push_back(verif::Fresh<CorrectionWord>("cw"));
  std::vector<const CorrectionWord*> words;
  for (int i = 0; i < kLevels; ++i) words.push_back(&cws[i]);
  std::vector<uint128> out(kSeeds);
  Dpf::BitVector bits_out(kSeeds);
  absl::Status status = dpf.EvaluateSeeds(seeds, bits, paths, words, absl::MakeSpan(out), absl::MakeSpan(bits_out));
  if (!status.ok()) return;
  for (int i = kFirst; i < kSeeds; ++i) {
    Node n{seeds[i], bits[i]};
    for (int l = 0; l < kLevels; ++l) n = Child(dpf, n, Bit(paths[i], kLevels - 1 - l), cws[l]);
    Require(out[i] == n.seed, "each seed follows its path");
    Require(bits_out[i] == n.control, "each control bit follows its path");
  }
}
void WalkOneLevel() { WalksThePath<2, 1>(); }
void WalkManySeeds() { WalksThePath<66, 1, 65>(); }
void WalkTwoLevels() { WalksThePath<1, 2>(); }
void WalkThreeLevels() { WalksThePath<1, 3>(); }

// Full expansion: block j below a seed is reached by the bits of j.
template <int kSeeds, int kLevels, int kFirst = 0>
void ExpandsTheTree() {
  const Dpf& dpf = AnyRef<Dpf>("dpf");
  Dpf::DpfExpansion start;
  start.seeds = hwy::AllocateAligned<uint128>(kSeeds);
  if (start.seeds == nullptr) return;
  for (int i = 0; i < kSeeds; ++i) {
    start.seeds[i] = verif::Fresh<uint128>("seed");
    start.control_bits.push_back(verif::Fresh<bool>("bit"));
  }
  std::vector<CorrectionWord> cws;
  for (int i = 0; i < kLevels; ++i) cws.push_back(verif::Fresh<CorrectionWord>("cw"));
  std::vector<const CorrectionWord*> words;
  for (int i = 0; i < kLevels; ++i) words.push_back(&cws[i]);
  absl::StatusOr<Dpf::DpfExpansion> r = dpf.ExpandSeeds(start, words);
  if (!r.ok()) return;
  Require(r->control_bits.size() == (kSeeds << kLevels), "every level doubles the number of blocks");
  for (int i = kFirst; i < kSeeds; ++i) {
    for (int j = 0; j < (1 << kLevels); ++j) {
      Node n{start.seeds[i], start.control_bits[i]};
      for (int l = 0; l < kLevels; ++l) n = Child(dpf, n, (j >> (kLevels - 1 - l)) & 1, cws[l]);
      Require(r->seeds[(i << kLevels) + j] == n.seed, "block j below a seed is reached by the bits of j");
      Require(r->control_bits[(i << kLevels) + j] == n.control, "its control bit is the one of that path");
    }
  }
}
void ExpandOneLevel() { ExpandsTheTree<2, 1>(); }
void ExpandManySeeds() { ExpandsTheTree<66, 1, 65>(); }
void ExpandTwoLevels() { ExpandsTheTree<1, 2>(); }
void ExpandThreeLevels() { ExpandsTheTree<1, 3>(); }
}  // namespace verif_scn
