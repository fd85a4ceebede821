// One key, evaluated in every way there is; and which arguments are refused.
#include "dpf_models.h"
#include "dpf/internal/proto_validator.h"
using verif::Any; using verif::AnyRef; using verif::Require; using verif::Assume;
namespace verif_scn {
namespace di = distributed_point_functions::dpf_internal;
using Pair = Tuple<uint64_t, uint64_t>;

template <typename T>
void SetCorrection(google::protobuf::RepeatedPtrField<Value>* field) {
  for (int i = 0; i < di::ElementsPerBlock<T>(); ++i) *field->Add() = di::ValueTypeHelper<T>::ToValue(verif::Fresh<T>("correction"));
}
// An arbitrary key for the function with the given tree levels.
template <typename T>
DpfKey Key(std::vector<int> tree, int party) {
  DpfKey key;
  *key.mutable_seed() = verif::Fresh<Block>("seed");
  key.set_party(party);
  int next = 0;
  for (int i = 0; i < tree.back(); ++i) {
    CorrectionWord* w = key.add_correction_words();
    *w->mutable_seed() = verif::Fresh<Block>("seed");
    w->set_control_left(verif::Fresh<bool>("left"));
    w->set_control_right(verif::Fresh<bool>("right"));
    if (tree[next] == i) {
      SetCorrection<T>(w->mutable_value_correction());
      ++next;
    }
  }
  SetCorrection<T>(key.mutable_last_level_value_correction());
  return key;
}
// The value of the key at one point.
template <typename T>
T At(const Dpf& dpf, const DpfKey& key, int level, uint128 x) {
  absl::StatusOr<std::vector<T>> r = dpf.EvaluateAt<T>(key, level, {x});
  return (*r)[0];
}
inline uint128 Point(int log) {
  uint128 x = verif::Fresh<uint128>("x");
  Assume(x < (uint128{1} << log));
  return x;
}

// --------------------------------------------------------------- several points
template <typename T, int kLog, int kTree>
void AtManyPoints() {
  std::unique_ptr<Dpf> dpf = Make({Parameters<T>(kLog)}, {kTree}, {1});
  DpfKey key = Key<T>({kTree}, Any<bool>("party") ? 1 : 0);
  uint128 x = Point(kLog), y = Point(kLog), z = Point(kLog);
  absl::StatusOr<std::vector<T>> r = dpf->EvaluateAt<T>(key, 0, {x, y, z});
  Require(r.ok() && r->size() == 3, "one value for every point");
  if (!r.ok() || r->size() != 3) return;
  Require((*r)[0] == At<T>(*dpf, key, 0, x) && (*r)[1] == At<T>(*dpf, key, 0, y) && (*r)[2] == At<T>(*dpf, key, 0, z), "points are evaluated independently, in order");
}
void ManyPoints() { AtManyPoints<uint128, 2, 2>(); }
void ManyPointsPacked() { AtManyPoints<uint64_t, 2, 1>(); }

// -------------------------------------------------------------- full evaluation
template <typename T, int kLog, int kTree, int kBlocks = 1>
void Full() {
  std::unique_ptr<Dpf> dpf = Make({Parameters<T>(kLog)}, {kTree}, {kBlocks});
  DpfKey key = Key<T>({kTree}, Any<bool>("party") ? 1 : 0);
  absl::StatusOr<EvaluationContext> ctx = dpf->CreateEvaluationContext(key);
  Require(ctx.ok(), "there is a context for every key");
  if (!ctx.ok()) return;
  absl::StatusOr<std::vector<T>> r = dpf->EvaluateNext<T>({}, *ctx);
  Require(r.ok() && r->size() == (1 << kLog), "one value for every element of the domain");
  if (!r.ok() || r->size() != (1 << kLog)) return;
  for (int i = 0; i < (1 << kLog); ++i) Require((*r)[i] == At<T>(*dpf, key, 0, i), "the value of every element, in order");
}
void FullWide() { Full<uint128, 2, 2>(); }
void FullPacked() { Full<uint64_t, 2, 1>(); }
void FullPackedFour() { Full<uint32_t, 3, 1>(); }
void FullTooWide() { Full<uint32_t, 1, 0>(); }

// ------------------------------------------------------------ level after level
// Evaluates hierarchy level `to` below prefixes of the last level evaluated, and
// compares every value with the one at that point.
template <typename T>
void Below(const Dpf& dpf, const DpfKey& key, std::vector<int> logs, int from, int to, const std::vector<uint128>& prefixes, EvaluationContext& ctx) {
  absl::StatusOr<std::vector<T>> r = dpf.EvaluateUntil<T>(to, prefixes, ctx);
  const int n = static_cast<int>(prefixes.size()), per = 1 << (logs[to] - logs[from]);
  Require(r.ok() && r->size() == n * per, "one value for every element below the prefixes");
  Require(ctx.previous_hierarchy_level() == to, "the context remembers the level");
  if (!r.ok() || r->size() != n * per) return;
  for (int i = 0; i < n; ++i) {
    for (int j = 0; j < per; ++j) Require((*r)[i * per + j] == At<T>(dpf, key, to, prefixes[i] * per + j), "the value of every element below the prefixes, in order");
  }
}
template <typename T>
void Levels(std::vector<int> logs, std::vector<std::vector<uint128>> prefixes, std::vector<int> to) {
  constexpr int b = sizeof(T) == 16 ? 0 : sizeof(T) == 8 ? 1 : 2;
  std::vector<int> tree, blocks;
  std::vector<DpfParameters> p;
  for (int log : logs) {
    tree.push_back(log - b);
    blocks.push_back(1);
    p.push_back(Parameters<T>(log));
  }
  std::unique_ptr<Dpf> dpf = Make(std::move(p), tree, blocks);
  DpfKey key = Key<T>(tree, Any<bool>("party") ? 1 : 0);
  absl::StatusOr<EvaluationContext> ctx = dpf->CreateEvaluationContext(key);
  if (!ctx.ok()) return;
  absl::StatusOr<std::vector<T>> first = dpf->EvaluateNext<T>({}, *ctx);
  Require(first.ok() && first->size() == (1 << logs[0]), "one value for every element of the first domain");
  int from = 0;
  for (int i = 0; i < static_cast<int>(prefixes.size()); ++i) {
    Below<T>(*dpf, key, logs, from, to[i], prefixes[i], *ctx);
    from = to[i];
  }
}
void LevelsWide() {
  Levels<uint128>({1, 2}, {{1, 0}}, {1});
  Levels<uint128>({1, 2}, {{1, 1, 0}}, {1});
}
void LevelsPackedSame() { Levels<uint64_t>({2, 3}, {{1, 0}}, {1}); }
void LevelsPackedApart() { Levels<uint64_t>({2, 3}, {{3, 0, 2}}, {1}); }
void LevelsWideThree() { Levels<uint128>({1, 2, 3}, {{1, 0}, {3, 0, 1}}, {1, 2}); }
void LevelsPackedThree() { Levels<uint64_t>({1, 2, 3}, {{1}, {3, 2}}, {1, 2}); }
void LevelsSkipped() { Levels<uint128>({1, 2, 3}, {{1, 0}}, {2}); }
void LevelsSkippedFirst() {
  std::unique_ptr<Dpf> dpf = Make({Parameters<uint128>(1), Parameters<uint128>(2), Parameters<uint128>(3)}, {1, 2, 3}, {1, 1, 1});
  DpfKey key = Key<uint128>({1, 2, 3}, Any<bool>("party") ? 1 : 0);
  absl::StatusOr<EvaluationContext> ctx = dpf->CreateEvaluationContext(key);
  if (!ctx.ok()) return;
  absl::StatusOr<std::vector<uint128>> r = dpf->EvaluateUntil<uint128>(1, {}, *ctx);
  Require(r.ok() && r->size() == 4, "one value for every element of the second domain");
  if (!r.ok() || r->size() != 4) return;
  for (int i = 0; i < 4; ++i) Require((*r)[i] == At<uint128>(*dpf, key, 1, i), "the value of every element of the second domain, in order");
  Below<uint128>(*dpf, key, {1, 2, 3}, 1, 2, {3, 0}, *ctx);
}

// ------------------------------------------------------- points through a context
template <typename T>
void AtThroughContext(std::vector<int> logs, std::vector<std::vector<uint128>> points, std::vector<int> to) {
  constexpr int b = sizeof(T) == 16 ? 0 : sizeof(T) == 8 ? 1 : 2;
  std::vector<int> tree, blocks;
  std::vector<DpfParameters> p;
  for (int log : logs) {
    tree.push_back(log - b);
    blocks.push_back(1);
    p.push_back(Parameters<T>(log));
  }
  std::unique_ptr<Dpf> dpf = Make(std::move(p), tree, blocks);
  DpfKey key = Key<T>(tree, Any<bool>("party") ? 1 : 0);
  absl::StatusOr<EvaluationContext> ctx = dpf->CreateEvaluationContext(key);
  if (!ctx.ok()) return;
  for (int i = 0; i < static_cast<int>(points.size()); ++i) {
    absl::StatusOr<std::vector<T>> r = dpf->EvaluateAt<T>(to[i], points[i], *ctx);
    Require(r.ok() && r->size() == points[i].size(), "one value for every point, through a context");
    Require(ctx->previous_hierarchy_level() == to[i], "the context remembers the level of the points");
    if (!r.ok() || r->size() != points[i].size()) return;
    for (int j = 0; j < static_cast<int>(points[i].size()); ++j) Require((*r)[j] == At<T>(*dpf, key, to[i], points[i][j]), "the value of every point, through a context");
  }
}
void AtContextWide() { AtThroughContext<uint128>({1, 2, 3}, {{1, 0}, {2, 3, 1}, {6, 5}}, {0, 1, 2}); }
void AtContextPacked() { AtThroughContext<uint64_t>({2, 3, 4}, {{3, 2, 0}, {5, 1}, {11, 10}}, {0, 1, 2}); }
void AtContextSkips() { AtThroughContext<uint128>({1, 2, 3}, {{1, 0}, {6, 1}}, {0, 2}); }

// ------------------------------------------------------------ one point per key
template <typename T>
void Apply(std::vector<int> logs, int shift, bool stop) {
  constexpr int b = sizeof(T) == 16 ? 0 : sizeof(T) == 8 ? 1 : 2;
  std::vector<int> tree, blocks;
  std::vector<DpfParameters> p;
  for (int log : logs) {
    tree.push_back(log - b);
    blocks.push_back(1);
    p.push_back(Parameters<T>(log));
  }
  std::unique_ptr<Dpf> dpf = Make(std::move(p), tree, blocks);
  std::vector<DpfKey> keys;
  std::vector<uint128> points;
  for (int i = 0; i < 2; ++i) {
    keys.push_back(Key<T>(tree, Any<bool>("party") ? 1 : 0));
    points.push_back(Point(logs.back() + shift));
  }
  std::vector<std::vector<T>> seen;
  absl::Status s = dpf->EvaluateAndApply<T>(keys, points, [&seen, stop](absl::Span<const T> values) {
    seen.push_back(std::vector<T>(values.begin(), values.end()));
    return !stop;
  }, shift);
  Require(s.ok(), "keys are evaluated");
  if (!s.ok()) return;
  Require(seen.size() == (stop ? 1 : logs.size()), "one call for every level until the callback stops");
  for (int level = 0; level < static_cast<int>(seen.size()); ++level) {
    Require(seen[level].size() == 2, "one value for every key");
    for (int i = 0; i < 2; ++i) Require(seen[level][i] == At<T>(*dpf, keys[i], level, points[i] >> (shift + logs.back() - logs[level])), "the value of every key at its own point");
  }
}
void ApplyWide() { Apply<uint128>({1, 2}, 0, false); }
void ApplyPacked() { Apply<uint64_t>({1, 3}, 0, false); }
void ApplyShifted() { Apply<uint64_t>({2, 3}, 5, false); }
void ApplyStops() { Apply<uint128>({1, 2}, 0, true); }
void ApplyNothing() {
  std::unique_ptr<Dpf> dpf = Make({Parameters<uint128>(2)}, {2}, {1});
  std::vector<DpfKey> keys;
  std::vector<uint128> points;
  Require(dpf->EvaluateAndApply<uint128>(keys, points, [](absl::Span<const uint128>) { return true; }).ok(), "there may be no keys at all");
}

// ------------------------------------------------- levels that are far apart
// The tree as a function of key, depth and path; a walk that starts anywhere
// else than at the node above its path ends up at none of its nodes.
inline uint128 Right(uint128 x, int n) { return n < 128 ? x >> n : 0; }
inline uint128 Node(uint64_t key, int depth, uint128 path) { return verif::Fn<uint128>("node", key, static_cast<uint64_t>(depth), path); }
inline bool NodeBit(uint64_t key, int depth, uint128 path) { return verif::Fn<bool>("node bit", key, static_cast<uint64_t>(depth), path); }
inline absl::Status ModelWalk(int64_t num_seeds, int num_levels, int num_correction_words, const uint128* seeds_in, const bool* control_bits_in,
                              const uint128* paths, int shift, const uint128* correction_seeds, const bool*, const bool*,
                              const Aes128FixedKeyHash&, const Aes128FixedKeyHash&, uint128* seeds_out, bool* control_bits_out) {
  for (int64_t i = 0; i < num_seeds; ++i) {
    uint128 seed = seeds_in[i];
    bool bit = control_bits_in[i];
    if (num_levels > 0) {
      uint128 correction = correction_seeds[num_correction_words == num_levels ? 0 : i];
      uint64_t key = absl::Uint128High64(correction);
      int start = static_cast<int>(absl::Uint128Low64(correction));
      uint128 from = Right(paths[i], shift + num_levels), to = Right(paths[i], shift);
      bool follows = start == 0 ? seed == Node(key, 0, 0) : seed == Node(key, start, from) && bit == NodeBit(key, start, from);
      seeds_out[i] = follows ? Node(key, start + num_levels, to) : verif::Fn<uint128>("nowhere", seed, from);
      control_bits_out[i] = NodeBit(key, start + num_levels, to);
    } else {
      seeds_out[i] = seed;
      control_bits_out[i] = bit;
    }
  }
  return absl::OkStatus();
}
template <typename T = uint128>
DpfKey KeyOfNodes(uint64_t id, std::vector<int> tree, int party) {
  DpfKey key = Key<T>(tree, party);
  key.mutable_seed()->set_high(absl::Uint128High64(Node(id, 0, 0)));
  key.mutable_seed()->set_low(absl::Uint128Low64(Node(id, 0, 0)));
  for (int i = 0; i < key.correction_words_size(); ++i) {
    key.mutable_correction_words(i)->mutable_seed()->set_high(id);
    key.mutable_correction_words(i)->mutable_seed()->set_low(i);
  }
  return key;
}
inline std::unique_ptr<Dpf> FarApart(std::vector<int> logs) {
  std::vector<int> blocks;
  std::vector<DpfParameters> p;
  for (int log : logs) {
    blocks.push_back(1);
    p.push_back(Parameters<uint128>(log));
  }
  return Make(std::move(p), logs, blocks);
}
inline uint128 Far(int bit, int low) { return (uint128{1} << bit) + low; }
inline void ContextFar(std::vector<int> logs, std::vector<std::vector<uint128>> points) {
  std::unique_ptr<Dpf> dpf = FarApart(logs);
  DpfKey key = KeyOfNodes(1, logs, Any<bool>("party") ? 1 : 0);
  absl::StatusOr<EvaluationContext> ctx = dpf->CreateEvaluationContext(key);
  if (!ctx.ok()) return;
  for (int i = 0; i < static_cast<int>(points.size()); ++i) {
    absl::StatusOr<std::vector<uint128>> r = dpf->EvaluateAt<uint128>(i, points[i], *ctx);
    Require(r.ok() && r->size() == points[i].size(), "one value for every point of a far level");
    if (!r.ok() || r->size() != points[i].size()) return;
    for (int j = 0; j < static_cast<int>(points[i].size()); ++j) Require((*r)[j] == At<uint128>(*dpf, key, i, points[i][j]), "the value of every point of a far level, through a context");
  }
}
void ContextFarApart() { ContextFar({2, 90, 128}, {{1, 2, 3}, {Far(88, 5), Far(89, 1), Far(88, 6)}, {Far(126, 7) + (uint128{5} << 38), Far(127, 9) + (uint128{1} << 38)}}); }
void ContextFarthest() { ContextFar({0, 127, 128}, {{0}, {Far(126, 5), 3}, {6, Far(127, 11)}}); }
// Any number of points through a context.
inline absl::Status ModelSeeds(const Dpf*, absl::Span<const uint128> seeds, absl::Span<const bool> bits, absl::Span<const uint128> paths,
                               absl::Span<const CorrectionWord* const> words, absl::Span<uint128> seeds_out, absl::Span<bool> bits_out) {
  std::vector<uint128> s(seeds.size());
  absl::InlinedVector<bool, 8> b(seeds.size());
  for (int64_t i = 0; i < seeds.size(); ++i) {
    s[i] = verif::Fn<uint128>("reached", seeds[i], bits[i], paths[i], static_cast<uint64_t>(words.size()));
    b[i] = verif::Fn<bool>("bit reached", seeds[i], bits[i], paths[i], static_cast<uint64_t>(words.size()));
  }
  for (int64_t i = 0; i < seeds.size(); ++i) {
    seeds_out[i] = s[i];
    bits_out[i] = b[i];
  }
  return absl::OkStatus();
}
template <int kLevel>
void KeepsEveryPrefix() {
  std::unique_ptr<Dpf> dpf = FarApart({20, 40, 60});
  EvaluationContext ctx;
  *ctx.mutable_key() = Any<DpfKey>("key");
  const bool party = Any<bool>("party");
  ctx.mutable_key()->set_party(party ? 1 : 0);
  Assume(ctx.key().correction_words_size() == 60);
  ctx.set_previous_hierarchy_level(kLevel);
  const std::vector<uint128> prefixes = Any<std::vector<uint128>>("prefixes");
  absl::StatusOr<Dpf::DpfExpansion> r = dpf->ComputePartialEvaluations(prefixes, kLevel, true, ctx);
  if (!r.ok()) return;
  const uint128 seed = ToBlock(ctx.key().seed());
  const uint64_t depth = 20 * (kLevel + 1);
  Require(ctx.partial_evaluations_size() == prefixes.size() && ctx.partial_evaluations_level() == kLevel, "the context holds every prefix of the level");
  Require(r->control_bits.size() == prefixes.size(), "one evaluation for every prefix");
  const int64_t i = Any<int64_t>("i");
  Assume(i >= 0 && i < prefixes.size());
  const uint128 s = verif::Fn<uint128>("reached", seed, party, prefixes[i], depth);
  const bool b = verif::Fn<bool>("bit reached", seed, party, prefixes[i], depth);
  Require(r->seeds[i] == s && r->control_bits[i] == b, "every prefix is evaluated from the seed of the key");
  const PartialEvaluation& p = ctx.partial_evaluations(i);
  Require(absl::MakeUint128(p.prefix().high(), p.prefix().low()) == prefixes[i], "the context holds every prefix, in order");
  Require(ToBlock(p.seed()) == s && p.control_bit() == b, "the context holds the seed and control bit of every prefix");
}
void ContextKeepsPrefixes() { KeepsEveryPrefix<0>(); }
void ContextKeepsPrefixesBelow() { KeepsEveryPrefix<1>(); }

// Any number of points, and any number of keys.
template <typename T, int kTree>
void AnyPoints() {
  std::unique_ptr<Dpf> dpf = Make({Parameters<T>(20)}, {kTree}, {1});
  DpfKey key = Key<T>({kTree}, Any<bool>("party") ? 1 : 0);
  const std::vector<uint128> points = Any<std::vector<uint128>>("points");
  absl::StatusOr<std::vector<T>> r = dpf->EvaluateAt<T>(key, 0, points);
  if (!r.ok()) return;
  Require(r->size() == points.size(), "one value for every point, however many there are");
  const int64_t i = Any<int64_t>("i");
  Assume(i >= 0 && i < points.size());
  absl::StatusOr<std::vector<T>> q = dpf->EvaluateAt<T>(key, 0, {points[i]});
  Require(q.ok(), "each of many points is in the domain");
  if (!q.ok()) return;
  Require((*r)[i] == (*q)[0], "many points are evaluated independently, in order");
}
void AnyPointsWide() { AnyPoints<uint128, 20>(); }
void AnyPointsPacked() { AnyPoints<uint64_t, 19>(); }

// A walk whose every step depends on everything the step may use.
inline absl::Status ModelSteps(int64_t num_seeds, int num_levels, int num_correction_words, const uint128* seeds_in, const bool* control_bits_in,
                               const uint128* paths, int shift, const uint128* correction_seeds, const bool* left, const bool* right,
                               const Aes128FixedKeyHash&, const Aes128FixedKeyHash&, uint128* seeds_out, bool* control_bits_out) {
  for (int64_t i = 0; i < num_seeds; ++i) {
    uint128 seed = seeds_in[i];
    bool bit = control_bits_in[i];
    for (int l = 0; l < num_levels; ++l) {
      const int64_t c = num_correction_words == num_levels * num_seeds ? l * num_seeds + i : l;
      const uint128 path = Right(paths[i], shift + num_levels - 1 - l);
      const uint128 old = seed;
      const bool old_bit = bit;
      seed = verif::Fn<uint128>("stepped", old, old_bit, path, correction_seeds[c], left[c], right[c]);
      bit = verif::Fn<bool>("bit stepped", old, old_bit, path, correction_seeds[c], left[c], right[c]);
    }
    seeds_out[i] = seed;
    control_bits_out[i] = bit;
  }
  return absl::OkStatus();
}
template <typename T>
void AnyKeys(std::vector<int> logs, int shift) {
  constexpr int b = sizeof(T) == 16 ? 0 : sizeof(T) == 8 ? 1 : 2;
  std::vector<int> tree, blocks;
  std::vector<DpfParameters> p;
  for (int log : logs) {
    tree.push_back(log - b);
    blocks.push_back(1);
    p.push_back(Parameters<T>(log));
  }
  std::unique_ptr<Dpf> dpf = Make(std::move(p), tree, blocks);
  const std::vector<DpfKey> keys = Any<std::vector<DpfKey>>("keys");
  const std::vector<uint128> points = Any<std::vector<uint128>>("points");
  Assume(!keys.empty());
  std::vector<std::vector<T>> seen;
  absl::Status s = dpf->EvaluateAndApply<T>(keys, points, [&seen](absl::Span<const T> values) {
    seen.push_back(std::vector<T>(values.begin(), values.end()));
    return true;
  }, shift);
  if (!s.ok()) return;
  Require(seen.size() == logs.size(), "one call for every level, however many keys there are");
  if (seen.size() != logs.size()) return;
  const int64_t i = Any<int64_t>("i");
  Assume(i >= 0 && i < keys.size());
  for (int level = 0; level < static_cast<int>(logs.size()); ++level) {
    Require(seen[level].size() == keys.size(), "one value for each of any number of keys");
    absl::StatusOr<std::vector<T>> q = dpf->EvaluateAt<T>(keys[i], level, {points[i] >> (shift + logs.back() - logs[level])});
    Require(q.ok(), "each of many keys can be evaluated alone");
    if (!q.ok()) return;
    Require(seen[level][i] == (*q)[0], "each of many keys has the value at its own point");
  }
}
void AnyKeysOneLevel() { AnyKeys<uint128>({1}, 3); }
void AnyKeysTwoLevels() { AnyKeys<uint128>({1, 2}, 1); }
void AnyKeysPacked() { AnyKeys<uint64_t>({2, 3}, 0); }

// Below prefixes of a far level: the last steps are taken by the hash itself.
inline void StepDown(const Dpf& dpf, const CorrectionWord& w, bool right, uint128& seed, bool& bit) {
  uint128 s = Hash(right ? dpf.prg_right_.key() : dpf.prg_left_.key(), seed);
  if (bit) s ^= ToBlock(w.seed());
  bool b = (s & 1) != 0;
  if (bit) b ^= right ? w.control_right() : w.control_left();
  seed = s & ~uint128{1};
  bit = b;
}
template <typename T>
T OfBlock(const Dpf& dpf, const DpfKey& key, uint128 seed, bool bit, int at) {
  std::array<uint128, 1> h{Hash(dpf.prg_value_.key(), seed)};
  T v = di::FromBytes<T>(absl::string_view(reinterpret_cast<const char*>(h.data()), 16).substr(at * sizeof(T), sizeof(T)));
  if (bit) v = v + *di::ValueTypeHelper<T>::FromValue(key.last_level_value_correction(at));
  return key.party() == 1 ? -v : v;
}
template <typename T>
void UntilFar(std::vector<int> logs, std::vector<uint128> first, std::vector<uint128> prefixes) {
  constexpr int b = sizeof(T) == 16 ? 0 : 1;
  std::vector<int> tree, blocks;
  std::vector<DpfParameters> p;
  for (int log : logs) {
    tree.push_back(log - b);
    blocks.push_back(1);
    p.push_back(Parameters<T>(log));
  }
  std::unique_ptr<Dpf> dpf = Make(std::move(p), tree, blocks);
  DpfKey key = KeyOfNodes<T>(1, tree, Any<bool>("party") ? 1 : 0);
  absl::StatusOr<EvaluationContext> ctx = dpf->CreateEvaluationContext(key);
  if (!ctx.ok()) return;
  absl::StatusOr<std::vector<T>> r = dpf->EvaluateAt<T>(0, first, *ctx);
  if (!r.ok()) return;
  absl::StatusOr<std::vector<T>> m = dpf->EvaluateAt<T>(1, prefixes, *ctx);
  if (!m.ok()) return;
  absl::StatusOr<std::vector<T>> q = dpf->EvaluateUntil<T>(2, prefixes, *ctx);
  const int steps = logs[2] - logs[1], n = static_cast<int>(prefixes.size()), per = 1 << steps;
  Require(q.ok() && q->size() == n * per, "one value for every element below far prefixes");
  if (!q.ok() || q->size() != n * per) return;
  for (int i = 0; i < n; ++i) {
    for (int j = 0; j < per; ++j) {
      const uint128 x = prefixes[i] * per + j, path = x >> b;
      uint128 seed = Node(1, tree[1], path >> steps);
      bool bit = NodeBit(1, tree[1], path >> steps);
      for (int d = 0; d < steps; ++d) StepDown(*dpf, key.correction_words(tree[1] + d), ((path >> (steps - 1 - d)) & 1) != 0, seed, bit);
      Require((*q)[i * per + j] == OfBlock<T>(*dpf, key, seed, bit, static_cast<int>(x & ((1 << b) - 1))), "the value of every element below far prefixes, in order");
    }
  }
}
void UntilFarWide() { UntilFar<uint128>({2, 90, 91}, {1, 2, 3}, {Far(88, 5), Far(89, 1), Far(88, 6)}); }
void UntilFarthest() { UntilFar<uint128>({1, 126, 128}, {0, 1}, {Far(125, 9), 11}); }
void UntilFarPacked() { UntilFar<uint64_t>({2, 70, 71}, {1, 2}, {Far(68, 5), Far(68, 4), Far(69, 1)}); }
void UntilFarHigh() { UntilFar<uint64_t>({64, 126, 127}, {1, Far(63, 2)}, {Far(125, 3) + Far(63, 0), 7 + Far(62, 0)}); }
// Many keys, each at an arbitrary point of a wide domain.
inline void ApplyWideDomain(std::vector<int> logs, int shift) {
  std::unique_ptr<Dpf> dpf = FarApart(logs);
  std::vector<DpfKey> keys;
  std::vector<uint128> points;
  for (int i = 0; i < 2; ++i) {
    keys.push_back(KeyOfNodes(i + 1, logs, Any<bool>("party") ? 1 : 0));
    points.push_back(verif::Fresh<uint128>("x"));
    if (logs.back() + shift < 128) Assume(points[i] < (uint128{1} << (logs.back() + shift)));
  }
  std::vector<std::vector<uint128>> seen;
  absl::Status s = dpf->EvaluateAndApply<uint128>(keys, points, [&seen](absl::Span<const uint128> values) {
    seen.push_back(std::vector<uint128>(values.begin(), values.end()));
    return true;
  }, shift);
  Require(s.ok() && seen.size() == logs.size(), "keys are evaluated in a wide domain");
  if (!s.ok() || seen.size() != logs.size()) return;
  for (int level = 0; level < static_cast<int>(logs.size()); ++level) {
    for (int i = 0; i < 2; ++i) Require(seen[level][i] == At<uint128>(*dpf, keys[i], level, Right(points[i], shift + logs.back() - logs[level])), "the value of every key at its own point of a wide domain");
  }
}
void ApplyFarApart() { ApplyWideDomain({1, 64, 65, 128}, 0); }
void ApplyFarShifted() { ApplyWideDomain({0, 63, 127}, 1); }

// -------------------------------------------------------- arguments refused
inline bool InvalidArgument(const absl::Status& s) { return s.code() == absl::StatusCode::kInvalidArgument; }
void AtRefuses() {
  std::unique_ptr<Dpf> dpf = Make({Parameters<uint128>(1), Parameters<uint128>(3)}, {1, 3}, {1, 1});
  DpfKey key = Key<uint128>({1, 3}, 0);
  int level = verif::Fresh<int>("level");
  uint128 x = verif::Fresh<uint128>("x"), y = verif::Fresh<uint128>("y");
  absl::StatusOr<std::vector<uint128>> r = dpf->EvaluateAt<uint128>(key, level, {x, y});
  bool inside = (level == 0 && x < 2 && y < 2) || (level == 1 && x < 8 && y < 8);
  if (!inside) Require(InvalidArgument(r.status()), "only points of a level's domain are evaluated");
  DpfKey other = Any<DpfKey>("other");
  absl::StatusOr<std::vector<uint128>> q = dpf->EvaluateAt<uint128>(other, 1, {});
  if (!dpf->proto_validator_->ValidateDpfKey(other).ok()) Require(!q.ok(), "only keys of the function are evaluated");
}
void ApplyRefuses() {
  std::unique_ptr<Dpf> dpf = Make({Parameters<uint128>(3)}, {3}, {1});
  std::vector<DpfKey> keys = {Key<uint128>({3}, 0), Key<uint128>({3}, 1)};
  std::vector<uint128> points = {verif::Fresh<uint128>("x"), verif::Fresh<uint128>("y")};
  if (Any<bool>("fewer")) points.pop_back();
  bool called = false;
  absl::Status s = dpf->EvaluateAndApply<uint128>(keys, points, [&called](absl::Span<const uint128>) { called = true; return true; });
  if (points.size() != 2 || points[0] >= 8 || points[1] >= 8) Require(InvalidArgument(s) && !called, "one point of the domain for every key");
}
// A key that the function does not accept, at any place of a batch.
template <int kBad>
void ApplyRefusesKey() {
  std::unique_ptr<Dpf> dpf = Make({Parameters<uint128>(3)}, {3}, {1});
  std::vector<DpfKey> keys = {Key<uint128>({3}, 0), Key<uint128>({3}, 1), Key<uint128>({3}, 0)};
  keys[kBad] = Any<DpfKey>("bad");
  Assume(!dpf->proto_validator_->ValidateDpfKey(keys[kBad]).ok());
  bool called = false;
  absl::Status s = dpf->EvaluateAndApply<uint128>(keys, std::vector<uint128>{5, 6, 7}, [&called](absl::Span<const uint128>) { called = true; return true; });
  Require(!s.ok() && !called, "only keys of the function are evaluated");
}
void ApplyRefusesFirst() { ApplyRefusesKey<0>(); }
void ApplyRefusesSecond() { ApplyRefusesKey<1>(); }
void ApplyRefusesThird() { ApplyRefusesKey<2>(); }
inline EvaluationContext At(const Dpf& dpf, int previous) {
  EvaluationContext ctx;
  *ctx.mutable_key() = Key<uint128>({1, 2, 3}, 0);
  for (const DpfParameters& p : dpf.parameters()) *ctx.add_parameters() = p;
  ctx.set_previous_hierarchy_level(previous);
  return ctx;
}
void UntilRefuses() {
  std::unique_ptr<Dpf> dpf = Make({Parameters<uint128>(1), Parameters<uint128>(2), Parameters<uint128>(3)}, {1, 2, 3}, {1, 1, 1});
  for (int previous = -1; previous < 2; ++previous) {
    {
      EvaluationContext ctx = At(*dpf, previous);
      int level = verif::Fresh<int>("level");
      Assume(level <= previous || level > 2);
      std::vector<uint128> prefixes;
      if (previous >= 0) prefixes.push_back(0);
      Require(InvalidArgument(dpf->EvaluateUntil<uint128>(level, prefixes, ctx).status()), "only later levels are evaluated");
    }
    {
      EvaluationContext ctx = At(*dpf, previous);
      std::vector<uint128> prefixes;
      if (previous < 0) prefixes.push_back(0);
      Require(InvalidArgument(dpf->EvaluateUntil<uint128>(2, prefixes, ctx).status()), "prefixes are given exactly for later levels");
    }
    if (previous >= 0) {
      EvaluationContext ctx = At(*dpf, previous);
      uint128 p = verif::Fresh<uint128>("p");
      Assume(p >= (uint128{1} << (previous + 1)));
      Require(InvalidArgument(dpf->EvaluateUntil<uint128>(2, {0, p}, ctx).status()), "prefixes lie in the domain of the last level");
    }
    EvaluationContext ctx = At(*dpf, -1);
    Require(InvalidArgument(dpf->EvaluateUntil<uint64_t>(previous + 1, {}, ctx).status()), "only values of the level's type are produced");
  }
}
// Prefixes that were not among those of the call before.
void UntilRefusesStrangers() {
  std::unique_ptr<Dpf> dpf = Make({Parameters<uint128>(1), Parameters<uint128>(2), Parameters<uint128>(3)}, {1, 2, 3}, {1, 1, 1});
  EvaluationContext ctx = At(*dpf, -1);
  absl::StatusOr<std::vector<uint128>> r = dpf->EvaluateUntil<uint128>(0, {}, ctx);
  Require(r.ok(), "the first level is evaluated");
  if (!r.ok()) return;
  absl::StatusOr<std::vector<uint128>> q = dpf->EvaluateUntil<uint128>(1, {1}, ctx);
  Require(q.ok(), "the second level is evaluated");
  if (!q.ok()) return;
  Require(InvalidArgument(dpf->EvaluateUntil<uint128>(2, {1}, ctx).status()), "prefixes extend those of the call before");
}
}  // namespace verif_scn
