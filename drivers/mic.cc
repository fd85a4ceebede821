// The gate for multiple interval containment.
#include "dpf_models.h"
#include "dcf/fss_gates/multiple_interval_containment.h"
#include "dcf/fss_gates/prng/basic_rng.h"
using verif::Any; using verif::AnyRef; using verif::Require; using verif::Assume;
namespace verif_scn {
using Dcf = DistributedComparisonFunction;
using namespace fss_gates;
using Mic = MultipleIntervalContainmentGate;

inline absl::StatusOr<std::unique_ptr<Dcf>> ModelCreateDcf(const DcfParameters& p) {
  if (Any<bool>("creation fails") || p.parameters().log_domain_size() < 1) return absl::InvalidArgumentError("");
  DcfParameters q = p;
  return absl::WrapUnique(new Dcf(std::move(q), nullptr));
}
inline absl::StatusOr<std::unique_ptr<Dcf>> ModelCreateAnyDcf(const DcfParameters& p) {
  DcfParameters q = p;
  return absl::WrapUnique(new Dcf(std::move(q), nullptr));
}
// Comparison keys and shares: any shares that add up to beta below alpha.
inline absl::StatusOr<std::pair<DcfKey, DcfKey>> ModelDcfKeys(Dcf*, uint128 alpha, const uint128& beta) {
  if (Any<bool>("generation fails")) return absl::InternalError("");
  DcfKey a;
  a.mutable_key()->mutable_seed()->set_high(absl::Uint128High64(alpha));
  a.mutable_key()->mutable_seed()->set_low(absl::Uint128Low64(alpha));
  a.mutable_key()->mutable_last_level_value_correction()->Add()->mutable_integer()->set_value_uint64(absl::Uint128Low64(beta));
  DcfKey b = a;
  b.mutable_key()->set_party(1);
  return std::make_pair(a, b);
}
inline uint128 Share(const DcfKey& key, uint128 x) {
  uint128 alpha = ToBlock(key.key().seed());
  uint128 r = verif::Fn<uint128>("share", alpha, x);
  if (key.key().party() == 0) return r;
  uint128 beta = key.key().last_level_value_correction(0).integer().value_uint64();
  return (x < alpha ? beta : uint128{0}) - r;
}
inline absl::Status ModelDcfEvaluate(Dcf*, dpf_internal::MaybeDerefSpan<const DcfKey> keys, absl::Span<const uint128> points, absl::Span<uint128> out) {
  if (Any<bool>("evaluation fails") || keys.size() != points.size() || out.size() != keys.size()) return absl::InvalidArgumentError("");
  for (int64_t i = 0; i < static_cast<int64_t>(keys.size()); ++i) out[i] = Share(keys[i], points[i]);
  return absl::OkStatus();
}

inline bool Invalid(const absl::Status& s) { return s.code() == absl::StatusCode::kInvalidArgument; }
inline uint128 Bound(const Value::Integer& b) {
  if (b.value_case() == Value::Integer::kValueUint64) return b.value_uint64();
  return ToBlock(b.value_uint128());
}
inline void SetBound(Value::Integer* b, uint128 v, bool wide) {
  if (wide) {
    b->mutable_value_uint128()->set_high(absl::Uint128High64(v));
    b->mutable_value_uint128()->set_low(absl::Uint128Low64(v));
  } else {
    b->set_value_uint64(absl::Uint128Low64(v));
  }
}

// ------------------------------------------------------------------- creation
template <int kLog>
void CreateWith() {
  MicParameters p;
  p.set_log_group_size(kLog);
  const uint128 n = uint128{1} << kLog;
  bool good = true;
  for (int i = 0; i < 2; ++i) {
    Interval* e = p.add_intervals();
    if (Any<bool>("lower")) *e->mutable_lower_bound() = verif::Fresh<Value::Integer>("lower");
    if (Any<bool>("upper")) *e->mutable_upper_bound() = verif::Fresh<Value::Integer>("upper");
    // An alternative that is not chosen has its default value.
    if (e->lower_bound().value_case() == Value::Integer::VALUE_NOT_SET) Assume(ToBlock(e->lower_bound().value_uint128()) == 0);
    if (e->upper_bound().value_case() == Value::Integer::VALUE_NOT_SET) Assume(ToBlock(e->upper_bound().value_uint128()) == 0);
    good = good && e->has_lower_bound() && e->has_upper_bound() && Bound(e->lower_bound()) < n && Bound(e->upper_bound()) < n && Bound(e->lower_bound()) <= Bound(e->upper_bound());
  }
  absl::StatusOr<std::unique_ptr<Mic>> r = Mic::Create(p);
  if (!good) Require(r.status().code() == absl::StatusCode::kInvalidArgument, "gates need intervals of the group with the lower bound first");
  if (!r.ok()) return;
  const Dcf& dcf = *(*r)->dcf_;
  Require(dcf.parameters_.parameters().log_domain_size() == kLog, "the comparison is over the whole group");
  Require(dcf.parameters_.parameters().value_type().type_case() == ValueType::kInteger && dcf.parameters_.parameters().value_type().integer().bitsize() == 128, "the shares are 128-bit integers");
  Require((*r)->mic_parameters_.log_group_size() == kLog && (*r)->mic_parameters_.intervals_size() == 2, "the gate knows its parameters");
}
void MicCreateSmall() { CreateWith<2>(); }
void MicCreateMiddle() { CreateWith<64>(); }
void MicCreateLarge() { CreateWith<127>(); }
void MicCreateRefused() {
  MicParameters p = Any<MicParameters>("parameters");
  Assume(p.log_group_size() < 1 || p.log_group_size() > 127);
  Require(!Mic::Create(p).ok(), "groups have between 1 and 127 bits");
}
inline MicParameters Whole(int log, int intervals) {
  MicParameters p;
  p.set_log_group_size(log);
  for (int i = 0; i < intervals; ++i) {
    Interval* e = p.add_intervals();
    SetBound(e->mutable_lower_bound(), i, Any<bool>("wide"));
    SetBound(e->mutable_upper_bound(), (uint128{1} << log) - 1, log > 64 || Any<bool>("wide"));
  }
  return p;
}
void MicCreateAccepts() {
  Require(Mic::Create(Whole(1, 1)).ok(), "a gate over one bit");
  Require(Mic::Create(Whole(127, 2)).ok(), "a gate over 127 bits");
  Require(Mic::Create(Whole(64, 2)).ok(), "a gate over 64 bits");
}

// ------------------------------------------------------ keys and their shares
inline std::unique_ptr<Mic> MakeMic(MicParameters p) {
  DcfParameters q;
  q.mutable_parameters()->set_log_domain_size(p.log_group_size());
  return absl::WrapUnique(new Mic(std::move(p), absl::WrapUnique(new Dcf(std::move(q), nullptr))));
}
inline uint128 Element(int log) {
  uint128 x = verif::Fresh<uint128>("element");
  Assume(x < (uint128{1} << log));
  return x;
}
template <int kLog>
void Contains() {
  const uint128 n = uint128{1} << kLog;
  MicParameters p;
  p.set_log_group_size(kLog);
  uint128 lower = Element(kLog), upper = Element(kLog);
  Assume(lower <= upper);
  Interval* e = p.add_intervals();
  SetBound(e->mutable_lower_bound(), lower, true);
  SetBound(e->mutable_upper_bound(), upper, true);
  std::unique_ptr<Mic> gate = MakeMic(p);
  uint128 r_in = Element(kLog), r_out = Element(kLog), x = Element(kLog);
  absl::StatusOr<std::pair<MicKey, MicKey>> keys = gate->Gen(r_in, {r_out});
  if (!keys.ok()) return;
  // The masked input.
  absl::StatusOr<std::vector<uint128>> a = gate->Eval(keys->first, (x + r_in) % n), b = gate->Eval(keys->second, (x + r_in) % n);
  if (!a.ok() || !b.ok()) return;
  Require(a->size() == 1 && b->size() == 1, "one share for every interval");
  uint128 sum = ((*a)[0] + (*b)[0]) % n;
  Require(sum == (r_out + (lower <= x && x <= upper ? 1 : 0)) % n, "the shares add up to the masked containment of the input");
}
void MicContainsTwoBits() { Contains<2>(); }
void MicContainsSmall() { Contains<3>(); }
void MicContainsMiddle() { Contains<64>(); }
void MicContainsLarge() { Contains<127>(); }

// Several intervals, whose bounds are given in either way.
template <int kLog>
MicParameters Intervals(bool wide) {
  MicParameters p;
  p.set_log_group_size(kLog);
  for (int i = 0; i < 2; ++i) {
    uint64_t lower = verif::Fresh<uint64_t>("lower"), upper = verif::Fresh<uint64_t>("upper");
    Assume(lower <= upper && upper < (uint64_t{1} << kLog));
    Interval* e = p.add_intervals();
    SetBound(e->mutable_lower_bound(), lower, wide == (i == 0));
    SetBound(e->mutable_upper_bound(), upper, wide);
  }
  return p;
}
template <int kLog>
void Several(bool wide) {
  const uint128 n = uint128{1} << kLog;
  MicParameters p = Intervals<kLog>(wide);
  std::unique_ptr<Mic> gate = MakeMic(p);
  uint128 r_in = Element(kLog), x = Element(kLog);
  std::vector<uint128> r_out = {Element(kLog), Element(kLog)};
  absl::StatusOr<std::pair<MicKey, MicKey>> keys = gate->Gen(r_in, r_out);
  if (!keys.ok()) return;
  absl::StatusOr<std::vector<uint128>> a = gate->Eval(keys->first, (x + r_in) % n), b = gate->Eval(keys->second, (x + r_in) % n);
  if (!a.ok() || !b.ok()) return;
  Require(a->size() == 2 && b->size() == 2, "one share for every interval, of several");
  for (int i = 0; i < 2; ++i) {
    uint128 lower = Bound(p.intervals(i).lower_bound()), upper = Bound(p.intervals(i).upper_bound());
    Require(((*a)[i] + (*b)[i]) % n == (r_out[i] + (lower <= x && x <= upper ? 1 : 0)) % n, "the shares of every interval add up to its masked containment, in order");
  }
}
void MicSeveral() { Several<3>(true); }
void MicSeveralNarrow() { Several<3>(false); }

// ------------------------------------------------------------- batches of keys
inline MicKey KeyFor(int log) {
  MicKey k;
  k.mutable_dcfkey()->mutable_key()->set_party(Any<bool>("party") ? 1 : 0);
  *k.mutable_dcfkey()->mutable_key()->mutable_seed() = verif::Fresh<Block>("seed");
  k.mutable_dcfkey()->mutable_key()->mutable_last_level_value_correction()->Add()->mutable_integer()->set_value_uint64(1);
  for (int i = 0; i < 2; ++i) SetBound(k.add_output_mask_share(), Element(log), true);
  return k;
}
void MicBatch() {
  std::unique_ptr<Mic> gate = MakeMic(Intervals<20>(true));
  std::vector<MicKey> keys = {KeyFor(20), KeyFor(20)};
  std::vector<uint128> points = {Element(20), Element(20)};
  absl::StatusOr<std::vector<uint128>> r = gate->BatchEval(keys, points);
  if (!r.ok()) return;
  Require(r->size() == 4, "one share for every key and interval");
  if (r->size() != 4) return;
  for (int i = 0; i < 2; ++i) {
    absl::StatusOr<std::vector<uint128>> one = gate->Eval(keys[i], points[i]);
    if (!one.ok()) return;
    for (int j = 0; j < 2; ++j) Require((*r)[2 * i + j] == (*one)[j], "every key is evaluated at its own point");
  }
}
void MicNothing() {
  std::unique_ptr<Mic> gate = MakeMic(Intervals<4>(true));
  std::vector<MicKey> keys;
  std::vector<uint128> points;
  absl::StatusOr<std::vector<uint128>> r = gate->BatchEval(keys, points);
  Require(r.ok() && r->empty(), "there may be no keys at all");
  MicParameters none;
  none.set_log_group_size(4);
  std::unique_ptr<Mic> empty = MakeMic(none);
  absl::StatusOr<std::vector<uint128>> q = empty->Eval(MicKey(), 3);
  Require(q.ok() && q->empty(), "there may be no intervals at all");
}

// Any number of keys, and any number of intervals.
inline bool Fits(const Interval& e, uint128 n) {
  return e.has_lower_bound() && e.has_upper_bound() && Bound(e.lower_bound()) < n && Bound(e.upper_bound()) < n && Bound(e.lower_bound()) <= Bound(e.upper_bound());
}
void MicCreateMany() {
  MicParameters p = Any<MicParameters>("parameters");
  p.set_log_group_size(20);
  const int i = Any<int>("i");
  Assume(i >= 0 && i < p.intervals_size());
  if (p.intervals(i).lower_bound().value_case() == Value::Integer::VALUE_NOT_SET) Assume(ToBlock(p.intervals(i).lower_bound().value_uint128()) == 0);
  if (p.intervals(i).upper_bound().value_case() == Value::Integer::VALUE_NOT_SET) Assume(ToBlock(p.intervals(i).upper_bound().value_uint128()) == 0);
  absl::StatusOr<std::unique_ptr<Mic>> r = Mic::Create(p);
  if (!Fits(p.intervals(i), uint128{1} << 20)) Require(r.status().code() == absl::StatusCode::kInvalidArgument, "every one of many intervals has to fit");
}
void MicGenMany() {
  MicParameters p = Any<MicParameters>("parameters");
  p.set_log_group_size(20);
  const int intervals = p.intervals_size();
  std::unique_ptr<Mic> gate = MakeMic(std::move(p));
  std::vector<uint128> r_out = Any<std::vector<uint128>>("r_out");
  const uint128 r_in = Element(20);
  const int i = Any<int>("i");
  Assume(i >= 0 && i < r_out.size());
  absl::StatusOr<std::pair<MicKey, MicKey>> r = gate->Gen(r_in, r_out);
  if (r_out.size() != intervals || r_out[i] >= (1 << 20)) Require(Invalid(r.status()), "an output mask of the group for every one of many intervals");
  if (!r.ok()) return;
  Require(r->first.output_mask_share_size() == intervals && r->second.output_mask_share_size() == intervals, "a mask share for every one of many intervals");
}
void MicBatchMany() {
  std::unique_ptr<Mic> gate = MakeMic(Intervals<20>(true));
  std::vector<MicKey> keys = Any<std::vector<MicKey>>("keys");
  std::vector<uint128> points = Any<std::vector<uint128>>("points");
  const int64_t i = Any<int64_t>("i");
  Assume(i >= 0 && i < keys.size());
  absl::StatusOr<std::vector<uint128>> r = gate->BatchEval(keys, points);
  if (points.size() != keys.size() || keys[i].output_mask_share_size() != 2 || points[i] >= (1 << 20)) Require(Invalid(r.status()), "each of many keys has its own element and masks");
  if (!r.ok()) return;
  Require(r->size() == 2 * keys.size(), "one share for each of many keys and interval");
  if (r->size() != 2 * keys.size()) return;
  absl::StatusOr<std::vector<uint128>> one = gate->Eval(keys[i], points[i]);
  if (!one.ok()) return;
  for (int j = 0; j < 2; ++j) Require((*r)[2 * i + j] == (*one)[j], "each of many keys is evaluated at its own point");
}
void MicEvalMany() {
  MicParameters p = Any<MicParameters>("parameters");
  p.set_log_group_size(20);
  MicParameters only;
  only.set_log_group_size(20);
  const int i = Any<int>("i");
  Assume(i >= 0 && i < p.intervals_size());
  *only.add_intervals() = p.intervals(i);
  std::unique_ptr<Mic> gate = MakeMic(std::move(p)), simple = MakeMic(std::move(only));
  MicKey key = Any<MicKey>("key"), part = key;
  const uint128 x = Element(20);
  absl::StatusOr<std::vector<uint128>> r = gate->Eval(key, x);
  if (!r.ok()) return;
  part.clear_output_mask_share();
  *part.add_output_mask_share() = key.output_mask_share(i);
  absl::StatusOr<std::vector<uint128>> one = simple->Eval(part, x);
  if (!one.ok()) return;
  Require((*r)[i] == (*one)[0], "each of many intervals is evaluated with its own mask");
}

// ------------------------------------------------------------ arguments refused
void MicGenRefuses() {
  std::unique_ptr<Mic> gate = MakeMic(Intervals<4>(true));
  uint128 r_in = verif::Fresh<uint128>("r_in");
  std::vector<uint128> r_out = {verif::Fresh<uint128>("r_out"), verif::Fresh<uint128>("r_out")};
  int n = Any<bool>("fewer") ? 1 : Any<bool>("more") ? 3 : 2;
  if (n == 1) r_out.pop_back();
  if (n == 3) r_out.push_back(verif::Fresh<uint128>("r_out"));
  absl::StatusOr<std::pair<MicKey, MicKey>> r = gate->Gen(r_in, r_out);
  if (n != 2) Require(Invalid(r.status()), "one output mask for every interval");
  if (r_in >= 16) Require(Invalid(r.status()), "the input mask is an element of the group");
  if (n == 2 && (r_out[0] >= 16 || r_out[1] >= 16)) Require(Invalid(r.status()), "the output masks are elements of the group");
}
void MicEvalRefuses() {
  std::unique_ptr<Mic> gate = MakeMic(Intervals<4>(true));
  std::vector<MicKey> keys = {KeyFor(4), KeyFor(4)};
  std::vector<uint128> points = {verif::Fresh<uint128>("x"), verif::Fresh<uint128>("x")};
  if (Any<bool>("fewer points")) points.pop_back();
  if (Any<bool>("fewer masks")) keys[1].mutable_output_mask_share()->RemoveLast();
  if (points.size() == 2 && keys[1].output_mask_share_size() == 2) Assume(points[0] >= 16 || points[1] >= 16);
  absl::StatusOr<std::vector<uint128>> r = gate->BatchEval(keys, points);
  Require(Invalid(r.status()), "one element of the group and all mask shares for every key");
}

// ---------------------------------------------------------------- key contents
void MicKeys() {
  std::unique_ptr<Mic> gate = MakeMic(Intervals<20>(true));
  uint128 r_in = Element(20);
  std::vector<uint128> r_out = {Element(20), Element(20)};
  absl::StatusOr<std::pair<MicKey, MicKey>> keys = gate->Gen(r_in, r_out);
  if (!keys.ok()) return;
  Require(keys->first.dcfkey().key().party() == 0 && keys->second.dcfkey().key().party() == 1, "the keys are those of the two parties, in order");
  Require(keys->first.output_mask_share_size() == 2 && keys->second.output_mask_share_size() == 2, "one mask share for every interval");
  if (keys->first.output_mask_share_size() != 2 || keys->second.output_mask_share_size() != 2) return;
  for (int i = 0; i < 2; ++i) {
    const auto& a = keys->first.output_mask_share(i).value_uint128();
    Require(a.high() == 0, "mask shares are elements of the group");
    Require(a.low() < (1 << 20), "mask shares lie in the group");
    Require(!verif::Mentions(a, r_in) && !verif::Mentions(a, r_out), "the first party's mask shares are independent of the masks");
  }
}
}  // namespace verif_scn
