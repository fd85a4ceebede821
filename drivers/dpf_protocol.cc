// The whole protocol on small trees: keys generated for any alpha and beta,
// evaluated by both parties at any point.
#include "dpf_models.h"
using verif::Any; using verif::AnyRef; using verif::Require; using verif::Assume;
namespace verif_scn {
namespace di = distributed_point_functions::dpf_internal;

// A function with the given parameters; the three fixed-key hashes are arbitrary.
struct Level { int log_domain; int tree; int blocks; };
using CorrectionFunction = absl::StatusOr<Dpf::ValueCorrectionFunction>;
CorrectionFunction ModelUint128(const Dpf*, const DpfParameters&) { return di::ComputeValueCorrectionFor<uint128>; }
CorrectionFunction ModelUint64(const Dpf*, const DpfParameters&) { return di::ComputeValueCorrectionFor<uint64_t>; }
using Triple = Tuple<uint128, uint64_t, uint128>;
CorrectionFunction ModelTriple(const Dpf*, const DpfParameters&) { return di::ComputeValueCorrectionFor<Triple>; }
CorrectionFunction ModelUint32(const Dpf*, const DpfParameters&) { return di::ComputeValueCorrectionFor<uint32_t>; }


inline uint128 Number(const Value& v) {
  if (v.integer().value_case() == Value::Integer::kValueUint64) return v.integer().value_uint64();
  return ToBlock(v.integer().value_uint128());
}
inline bool Valid(const Value& v, int bits) {
  if (v.value_case() != Value::kInteger) return false;
  if (bits == 128) return v.integer().value_case() == Value::Integer::kValueUint64 || v.integer().value_case() == Value::Integer::kValueUint128;
  return (v.integer().value_case() == Value::Integer::kValueUint64 || v.integer().value_case() == Value::Integer::kValueUint128) && Number(v) < (uint128{1} << bits);
}
inline int BlockBits(int bits) { return bits == 128 ? 0 : bits == 64 ? 1 : bits == 32 ? 2 : bits == 16 ? 3 : 4; }

// One hierarchy level: generate and evaluate anywhere.
template <typename T, int kLogDomain>
void SingleLevel() {
  constexpr int bits = 8 * sizeof(T);
  std::unique_ptr<Dpf> dpf = Make({Parameters<T>(kLogDomain)}, {kLogDomain - BlockBits(bits)}, {1});
  uint128 alpha = Any<uint128>("alpha"), x = Any<uint128>("x");
  std::vector<Value> beta = {verif::Fresh<Value>("beta")};
  auto keys = dpf->GenerateKeysIncremental(alpha, beta);
  Require(keys.ok() == (alpha < (uint128{1} << kLogDomain) && Valid(beta[0], bits)), "keys exist exactly for points and values of the function");
  if (!keys.ok()) return;
  auto a = dpf->EvaluateAt<T>(keys->first, 0, {x});
  auto b = dpf->EvaluateAt<T>(keys->second, 0, {x});
  const bool inside = x < (uint128{1} << kLogDomain);
  Require(a.ok() == inside && b.ok() == inside, "points of the domain are evaluated, and nothing else is");
  if (!a.ok() || !b.ok()) return;
  Require(a->size() == 1 && b->size() == 1, "one share for every point");
  T sum = (*a)[0] + (*b)[0];
  Require(sum == (x == alpha ? static_cast<T>(Number(beta[0])) : T{0}), "the shares add up to the point function");
}
void ProtocolDepthOne() { SingleLevel<uint128, 1>(); }
void ProtocolDepthTwo() { SingleLevel<uint128, 2>(); }
void ProtocolPacked() { SingleLevel<uint64_t, 2>(); }
void ProtocolPackedFour() { SingleLevel<uint32_t, 3>(); }
void ProtocolNoTree() { SingleLevel<uint32_t, 2>(); }

// Values that are drawn from three blocks.
template <int kLogDomain>
void ThreeBlocks() {
  std::unique_ptr<Dpf> dpf = Make({Parameters<Triple>(kLogDomain)}, {kLogDomain}, {3});
  uint128 alpha = Any<uint128>("alpha"), x = Any<uint128>("x");
  Assume(alpha < (uint128{1} << kLogDomain) && x < (uint128{1} << kLogDomain));
  uint128 first = verif::Fresh<uint128>("beta"), last = verif::Fresh<uint128>("beta");
  uint64_t middle = verif::Fresh<uint64_t>("beta");
  auto keys = dpf->GenerateKeysIncremental(alpha, {di::ValueTypeHelper<Triple>::ToValue(Triple(first, middle, last))});
  Require(keys.ok(), "keys exist for values of three blocks");
  if (!keys.ok()) return;
  auto a = dpf->EvaluateAt<Triple>(keys->first, 0, {x});
  auto b = dpf->EvaluateAt<Triple>(keys->second, 0, {x});
  Require(a.ok() && b.ok() && a->size() == 1 && b->size() == 1, "one share of three blocks for every point");
  if (!a.ok() || !b.ok() || a->size() != 1 || b->size() != 1) return;
  Triple sum = (*a)[0] + (*b)[0];
  Require(std::get<0>(sum.value()) == (x == alpha ? first : uint128{0}), "shares of the first of three blocks");
  Require(std::get<1>(sum.value()) == (x == alpha ? middle : uint64_t{0}), "shares of the second of three blocks");
  Require(std::get<2>(sum.value()) == (x == alpha ? last : uint128{0}), "shares of the last of three blocks");
}
void ProtocolThreeBlocks() { ThreeBlocks<0>(); }
void ProtocolThreeBlocksDeep() { ThreeBlocks<1>(); }

// Two hierarchy levels; the second is evaluated directly or through a context.
template <typename T, int kFirst, int kSecond, typename F>
void TwoLevels(F f) {
  constexpr int bits = 8 * sizeof(T);
  constexpr int b = bits == 128 ? 0 : 1;
  std::unique_ptr<Dpf> dpf = Make({Parameters<T>(kFirst), Parameters<T>(kSecond)}, {kFirst - b, kSecond - b}, {1, 1});
  uint128 alpha = Any<uint128>("alpha");
  Assume(alpha < (uint128{1} << kSecond));
  std::vector<T> beta = {verif::Fresh<T>("beta"), verif::Fresh<T>("beta")};
  std::vector<Value> values;
  for (int i = 0; i < 2; ++i) values.push_back(di::ValueTypeHelper<T>::ToValue(beta[i]));
  auto keys = dpf->GenerateKeysIncremental(alpha, values);
  Require(keys.ok(), "keys exist for every point and all values");
  if (!keys.ok()) return;
  f(*dpf, *keys, alpha, beta);
}
template <typename T, int kFirst, int kSecond>
struct Direct {
  void operator()(const Dpf& dpf, const std::pair<DpfKey, DpfKey>& keys, uint128 alpha, const std::vector<T>& beta) const {
    uint128 x = Any<uint128>("x"), y = Any<uint128>("y");
    Assume(x < (uint128{1} << kFirst) && y < (uint128{1} << kSecond));
    auto a = dpf.EvaluateAt<T>(keys.first, 0, {x});
    auto b = dpf.EvaluateAt<T>(keys.second, 0, {x});
    Require(a.ok() && b.ok(), "the first level is evaluated");
    if (!a.ok() || !b.ok()) return;
    T sum = (*a)[0] + (*b)[0];
    Require(sum == (x == (alpha >> (kSecond - kFirst)) ? beta[0] : T{0}), "first level: shares of beta_0 at the prefix of alpha");
    auto c = dpf.EvaluateAt<T>(keys.first, 1, {y});
    auto d = dpf.EvaluateAt<T>(keys.second, 1, {y});
    Require(c.ok() && d.ok(), "the second level is evaluated");
    if (!c.ok() || !d.ok()) return;
    T sum2 = (*c)[0] + (*d)[0];
    Require(sum2 == (y == alpha ? beta[1] : T{0}), "second level: shares of beta_1 at alpha");
  }
};
void ProtocolTwoLevels() { TwoLevels<uint128, 1, 2>(Direct<uint128, 1, 2>()); }
void ProtocolTwoLevelsPacked() { TwoLevels<uint64_t, 1, 2>(Direct<uint64_t, 1, 2>()); }

// Full evaluation of the first level, then of the second below one or two prefixes.
template <typename T, int kFirst, int kSecond, int kPrefixes>
struct Incremental {
  void operator()(const Dpf& dpf, const std::pair<DpfKey, DpfKey>& keys, uint128 alpha, const std::vector<T>& beta) const {
    auto ca = dpf.CreateEvaluationContext(keys.first), cb = dpf.CreateEvaluationContext(keys.second);
    Require(ca.ok() && cb.ok(), "a context exists for every key");
    if (!ca.ok() || !cb.ok()) return;
    auto a = dpf.EvaluateNext<T>({}, *ca);
    auto b = dpf.EvaluateNext<T>({}, *cb);
    Require(a.ok() && b.ok(), "the first level is evaluated");
    if (!a.ok() || !b.ok()) return;
    Require(a->size() == (1 << kFirst) && b->size() == (1 << kFirst), "one share for every element of the domain");
    if (a->size() != (1 << kFirst) || b->size() != (1 << kFirst)) return;
    for (int i = 0; i < (1 << kFirst); ++i) {
      T sum = (*a)[i] + (*b)[i];
      Require(sum == (uint128{i} == (alpha >> (kSecond - kFirst)) ? beta[0] : T{0}), "full evaluation: shares of beta_0 at the prefix of alpha");
    }
    std::vector<uint128> prefixes;
    for (int i = 0; i < kPrefixes; ++i) {
      prefixes.push_back(verif::Fresh<uint128>("prefix"));
      Assume(prefixes[i] < (uint128{1} << kFirst));
    }
    auto c = dpf.EvaluateNext<T>(prefixes, *ca);
    auto d = dpf.EvaluateNext<T>(prefixes, *cb);
    Require(c.ok() && d.ok(), "the second level is evaluated");
    if (!c.ok() || !d.ok()) return;
    constexpr int per = 1 << (kSecond - kFirst);
    Require(c->size() == kPrefixes * per && d->size() == kPrefixes * per, "one share for every element below the prefixes");
    if (c->size() != kPrefixes * per || d->size() != kPrefixes * per) return;
    for (int i = 0; i < kPrefixes; ++i) {
      for (int j = 0; j < per; ++j) {
        T sum = (*c)[i * per + j] + (*d)[i * per + j];
        Require(sum == (prefixes[i] * per + j == alpha ? beta[1] : T{0}), "incremental evaluation: shares of beta_1 at alpha");
      }
    }
  }
};
void ProtocolIncremental() { TwoLevels<uint128, 1, 2>(Incremental<uint128, 1, 2, 1>()); }
void ProtocolIncrementalPacked() { TwoLevels<uint64_t, 1, 2>(Incremental<uint64_t, 1, 2, 1>()); }

// ------------------------------------------------- levels that are far apart
// Key generation one level at a time: which corrections are computed, from what,
// and where in the key they end up.
inline std::vector<Value> Correction(int level, uint128 s0, uint128 s1, uint128 alpha, const Value& beta, bool invert) {
  std::vector<Value> r(2);
  r[0].mutable_integer()->set_value_uint64(verif::Fn<uint64_t>("first", static_cast<uint64_t>(level), s0, s1, alpha, Number(beta), invert));
  r[1].mutable_integer()->set_value_uint64(verif::Fn<uint64_t>("second", static_cast<uint64_t>(level), s0, s1, alpha, Number(beta), invert));
  return r;
}
inline absl::StatusOr<std::vector<Value>> ModelCorrection(const Dpf*, int level, absl::Span<const uint128> seeds, uint128 alpha, const Value& beta, bool invert) {
  return Correction(level, seeds[0], seeds[1], alpha, beta, invert);
}
template <typename Field>
bool Holds(const Field& field, const std::vector<Value>& r) {
  return field.size() == 2 && field[0].integer().value_uint64() == r[0].integer().value_uint64() && field[1].integer().value_uint64() == r[1].integer().value_uint64();
}
inline uint128 Prefix(uint128 alpha, int n) { return n < 128 ? alpha >> n : 0; }
inline std::unique_ptr<Dpf> FarApart(const std::vector<int>& logs, const std::vector<int>& tree) {
  std::vector<DpfParameters> p;
  std::vector<int> blocks;
  for (int log : logs) {
    p.push_back(Parameters<uint8_t>(log));
    blocks.push_back(1);
  }
  return Make(std::move(p), tree, blocks);
}
inline std::vector<Value> Betas(int n) {
  std::vector<Value> r(n);
  for (int i = 0; i < n; ++i) r[i].mutable_integer()->set_value_uint64(verif::Fresh<uint64_t>("beta"));
  return r;
}
inline void CorrectionAt(const std::vector<int>& logs, const std::vector<int>& tree, int tree_level, int level) {
  std::unique_ptr<Dpf> dpf = FarApart(logs, tree);
  uint128 alpha = verif::Fresh<uint128>("alpha"), s0 = verif::Fresh<uint128>("s0"), s1 = verif::Fresh<uint128>("s1");
  bool t0 = verif::Fresh<bool>("t0"), t1 = verif::Fresh<bool>("t1");
  std::vector<Value> beta = Betas(logs.size());
  std::array<uint128, 2> seeds{s0, s1};
  std::array<bool, 2> bits{t0, t1};
  std::array<DpfKey, 2> keys;
  absl::Status s = dpf->GenerateNext(tree_level, alpha, beta, absl::MakeSpan(seeds), absl::MakeSpan(bits), absl::MakeSpan(keys));
  Require(s.ok() && keys[0].correction_words_size() == 1 && keys[1].correction_words_size() == 1, "every level adds a correction word to both keys");
  if (!s.ok() || keys[0].correction_words_size() != 1 || keys[1].correction_words_size() != 1) return;
  for (int k = 0; k < 2; ++k) {
    const CorrectionWord& w = keys[k].correction_words(0);
    if (level < 0) {
      Require(w.value_correction_size() == 0, "levels without values have no value correction");
    } else {
      Require(Holds(w.value_correction(), Correction(level, s0, s1, Prefix(alpha, logs.back() - logs[level]), beta[level], t1)), "a level's correction is computed for its own prefix of alpha and its own beta");
    }
  }
}
void CorrectionsFarApart() {
  const std::vector<int> logs = {3, 64, 65, 128}, tree = {0, 60, 61, 124};
  CorrectionAt(logs, tree, 1, 0);
  CorrectionAt(logs, tree, 61, 1);
  CorrectionAt(logs, tree, 62, 2);
  CorrectionAt(logs, tree, 2, -1);
  CorrectionAt(logs, tree, 63, -1);
  CorrectionAt(logs, tree, 124, -1);
}
void CorrectionsFarthest() {
  const std::vector<int> logs = {0, 1, 5, 128}, tree = {0, 1, 2, 124};
  CorrectionAt(logs, tree, 1, 0);
  CorrectionAt(logs, tree, 2, 1);
  CorrectionAt(logs, tree, 3, 2);
  CorrectionAt(logs, tree, 4, -1);
}
// The state below a tree level, as a function of the state above.
inline uint128 Below(int i, int tree_level, uint128 alpha, uint128 s0, uint128 s1, bool t1) { return verif::Fn<uint128>("below", static_cast<uint64_t>(i), static_cast<uint64_t>(tree_level), alpha, s0, s1, t1); }
inline bool BitBelow(int tree_level, uint128 s0, bool t1) { return verif::Fn<bool>("bit below", static_cast<uint64_t>(tree_level), s0, t1); }
inline absl::Status ModelNext(const Dpf*, int tree_level, uint128 alpha, absl::Span<const Value> beta, absl::Span<uint128> seeds, absl::Span<bool> bits, absl::Span<DpfKey> keys) {
  for (int k = 0; k < 2; ++k) keys[k].add_correction_words()->mutable_seed()->set_low(tree_level);
  uint128 s0 = seeds[0], s1 = seeds[1];
  bool t1 = bits[1];
  seeds[0] = Below(0, tree_level, alpha, s0, s1, t1);
  seeds[1] = Below(1, tree_level, alpha, s0, s1, t1);
  bits[1] = BitBelow(tree_level, s0, t1);
  bits[0] = !bits[1];
  return absl::OkStatus();
}
inline void KeysOf(const std::vector<int>& logs, const std::vector<int>& tree) {
  std::unique_ptr<Dpf> dpf = FarApart(logs, tree);
  uint128 alpha = verif::Fresh<uint128>("alpha");
  std::vector<Value> beta = Betas(logs.size());
  bool fits = logs.back() == 128 || alpha < (uint128{1} << logs.back());
  for (int i = 0; i < static_cast<int>(logs.size()); ++i) fits = fits && beta[i].integer().value_uint64() < 256;
  auto keys = dpf->GenerateKeysIncremental(alpha, beta);
  Require(keys.ok() == fits, "keys exist exactly for points of the wide domain and values of every level");
  if (!keys.ok()) return;
  const DpfKey& a = keys->first;
  const DpfKey& b = keys->second;
  const int n = tree.back();
  Require(a.party() == 0 && b.party() == 1, "the keys are those of the two parties");
  Require(a.correction_words_size() == n && b.correction_words_size() == n, "one correction word for every level of a wide domain");
  if (a.correction_words_size() != n || b.correction_words_size() != n) return;
  uint128 s0 = ToBlock(a.seed()), s1 = ToBlock(b.seed());
  bool t1 = true;
  for (int i = 1; i <= n; ++i) {
    Require(a.correction_words(i - 1).seed().low() == i && b.correction_words(i - 1).seed().low() == i, "the correction words of a wide domain are in order");
    uint128 n0 = Below(0, i, alpha, s0, s1, t1), n1 = Below(1, i, alpha, s0, s1, t1);
    t1 = BitBelow(i, s0, t1);
    s0 = n0;
    s1 = n1;
  }
  std::vector<Value> last = Correction(logs.size() - 1, s0, s1, alpha, beta.back(), t1);
  Require(Holds(a.last_level_value_correction(), last) && Holds(b.last_level_value_correction(), last), "both keys hold the correction of the last level");
}
void KeysWide() { KeysOf({3, 64, 65, 128}, {0, 60, 61, 124}); }
void KeysNarrow() { KeysOf({2, 5, 127}, {0, 1, 123}); }
void KeysOneLevel() { KeysOf({100}, {96}); }

// Where an element of a wide domain is: in which block, and where in it.
inline void ElementOf(const std::vector<int>& logs, const std::vector<int>& tree) {
  std::unique_ptr<Dpf> dpf = FarApart(logs, tree);
  for (int i = 0; i < static_cast<int>(logs.size()); ++i) {
    uint128 x = verif::Fresh<uint128>("x");
    const int b = logs[i] - tree[i];
    if (logs[i] < 128) Assume(x < (uint128{1} << logs[i]));
    uint128 block = dpf->DomainToTreeIndex(x, i);
    int at = dpf->DomainToBlockIndex(x, i);
    Require(at >= 0 && at < (1 << b), "an element's place in its block is one of the block's");
    Require(block == x >> b && static_cast<uint128>(at) == (x & ((uint128{1} << b) - 1)), "elements of a wide domain are in the right place of the right block");
  }
}
void ElementsOfBlocks() {
  ElementOf({3, 64, 65, 128}, {0, 60, 61, 124});
  ElementOf({7, 10, 128}, {0, 3, 121});
  ElementOf({1, 127, 128}, {1, 127, 128});
}

}  // namespace verif_scn
