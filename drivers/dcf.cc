// Distributed comparison functions.
#include "dpf_models.h"
#include "dcf/distributed_comparison_function.h"
#include "dpf/internal/proto_validator.h"
using verif::Any; using verif::AnyRef; using verif::Require; using verif::Assume;
namespace verif_scn {
namespace di = distributed_point_functions::dpf_internal;
using Dcf = DistributedComparisonFunction;

// ------------------------------------------------------------------- creation
// Remembers the parameters.
inline absl::StatusOr<std::unique_ptr<Dpf>> ModelCreateIncremental(absl::Span<const DpfParameters> parameters) {
  return Make(std::vector<DpfParameters>(parameters.begin(), parameters.end()), {0}, {1});
}
inline bool Good(const DpfParameters& p) { return di::ProtoValidator::ValidateParameters(absl::MakeConstSpan(&p, 1)).ok(); }
template <int kLog>
void CreateWith(const DpfParameters& from) {
  DcfParameters q;
  *q.mutable_parameters() = from;
  q.mutable_parameters()->set_log_domain_size(kLog);
  const DpfParameters& p = q.parameters();
  absl::StatusOr<std::unique_ptr<Dcf>> r = Dcf::Create(q);
  Require(r.ok() == (kLog >= 1 && Good(p)), "functions exist exactly for valid parameters");
  if constexpr (kLog >= 1) {
    if (!r.ok()) return;
    absl::Span<const DpfParameters> levels = (*r)->dpf_->parameters();
    Require(levels.size() == kLog, "one level for every bit");
    if (levels.size() != kLog) return;
    for (int i = 0; i < kLog; ++i) {
      Require(levels[i].log_domain_size() == i, "level i compares prefixes of i bits");
      Require(levels[i].value_type().type_case() == p.value_type().type_case() && levels[i].value_type().integer().bitsize() == p.value_type().integer().bitsize(), "every level has the value type");
      Require(verif::Same(levels[i].security_parameter(), p.security_parameter()), "every level has the security parameter");
    }
    Require((*r)->parameters_.parameters().log_domain_size() == kLog, "the function knows its domain");
  }
}
inline DpfParameters Arbitrary() {
  DpfParameters p = verif::Fresh<DpfParameters>("parameters");
  if (Any<bool>("typed")) p.mutable_value_type()->mutable_integer()->set_bitsize(Any<bool>("good") ? 64 : 0);
  else p.clear_value_type();
  return p;
}
void DcfCreateOne() { CreateWith<1>(Arbitrary()); }
void DcfCreateTwo() { CreateWith<2>(Arbitrary()); }
void DcfCreateFour() { CreateWith<4>(Arbitrary()); }
void DcfCreateRefused() {
  CreateWith<0>(Arbitrary());
  CreateWith<-1>(Arbitrary());
  DcfParameters q;
  *q.mutable_parameters() = Arbitrary();
  Assume(q.parameters().log_domain_size() < 1 || q.parameters().log_domain_size() > 128);
  Require(!Dcf::Create(q).ok(), "domains have between 1 and 128 bits");
}

// ------------------------------------------------------------- key generation
inline std::unique_ptr<Dcf> MakeDcf(DpfParameters p, std::unique_ptr<Dpf> dpf) {
  DcfParameters q;
  *q.mutable_parameters() = std::move(p);
  return absl::WrapUnique(new Dcf(std::move(q), std::move(dpf)));
}
// Puts what it is called with into the keys.
inline absl::StatusOr<std::pair<DpfKey, DpfKey>> ModelGenerate(const Dpf*, uint128 alpha, absl::Span<const Value> beta) {
  if (Any<bool>("generation fails")) return absl::InternalError("");
  DpfKey a;
  a.mutable_seed()->set_high(absl::Uint128High64(alpha));
  a.mutable_seed()->set_low(absl::Uint128Low64(alpha));
  for (int64_t i = 0; i < beta.size(); ++i) *a.add_last_level_value_correction() = beta[i];
  DpfKey b = a;
  b.set_party(1);
  return std::make_pair(a, b);
}
inline bool Equals(const Value::Integer& a, const Value::Integer& b) {
  return a.value_case() == b.value_case() && a.value_uint64() == b.value_uint64() && a.value_uint128().high() == b.value_uint128().high() && a.value_uint128().low() == b.value_uint128().low();
}
inline bool IsZero(const Value::Integer& a) {
  return (a.value_case() == Value::Integer::kValueUint64 && a.value_uint64() == 0) ||
         (a.value_case() == Value::Integer::kValueUint128 && a.value_uint128().high() == 0 && a.value_uint128().low() == 0);
}
inline const Value::Integer& NumberOf(const Value& v) {
  if (v.value_case() == Value::kInteger) return v.integer();
  if (v.value_case() == Value::kIntModN) return v.int_mod_n();
  return v.xor_wrapper();
}
inline bool Equals(const Value& a, const Value& b) { return a.value_case() == b.value_case() && Equals(NumberOf(a), NumberOf(b)); }
inline bool IsZero(const Value& a, const Value& b) { return a.value_case() == b.value_case() && IsZero(NumberOf(a)); }
inline Value Leaf(int kind) {
  Value v;
  if (kind == 0) *v.mutable_integer() = verif::Fresh<Value::Integer>("number");
  if (kind == 1) *v.mutable_int_mod_n() = verif::Fresh<Value::Integer>("number");
  if (kind == 2) *v.mutable_xor_wrapper() = verif::Fresh<Value::Integer>("number");
  return v;
}
template <int kLog, int kind>
void Keys() {
  std::unique_ptr<Dcf> dcf = MakeDcf(Parameters<uint128>(kLog), Make({Parameters<uint128>(1)}, {1}, {1}));
  uint128 alpha = verif::Fresh<uint128>("alpha");
  Value beta = Leaf(kind);
  if (kind == 3) {
    for (int i = 0; i < 3; ++i) *beta.mutable_tuple()->add_elements() = Leaf(i);
  }
  absl::StatusOr<std::pair<DcfKey, DcfKey>> r = dcf->GenerateKeys(alpha, beta);
  if (!r.ok()) return;
  const DpfKey& a = r->first.key();
  const DpfKey& b = r->second.key();
  Require(a.party() == 0 && b.party() == 1, "the keys are those of the two parties, in order");
  Require(ToBlock(a.seed()) == alpha >> 1 && ToBlock(b.seed()) == alpha >> 1, "the path leads to the prefix of alpha without its last bit");
  Require(a.last_level_value_correction_size() == kLog, "one value for every level");
  if (a.last_level_value_correction_size() != kLog) return;
  for (int i = 0; i < kLog; ++i) {
    const Value& v = a.last_level_value_correction(i);
    const bool set = ((alpha >> (kLog - 1 - i)) & 1) == 1;
    if constexpr (kind < 3) {
      Require(set ? Equals(v, beta) : IsZero(v, beta), "the value of a level is beta if the bit of alpha is set and zero otherwise");
    } else {
      Require(v.value_case() == Value::kTuple && v.tuple().elements_size() == 3, "values keep their shape");
      for (int j = 0; j < 3; ++j) {
        const Value& e = v.tuple().elements(j);
        Require(set ? Equals(e, beta.tuple().elements(j)) : IsZero(e, beta.tuple().elements(j)), "the elements of a level's value are those of beta if the bit of alpha is set and zero otherwise");
      }
    }
  }
}
void DcfKeysInteger() { Keys<3, 0>(); }
void DcfKeysModular() { Keys<3, 1>(); }
void DcfKeysXor() { Keys<3, 2>(); }
void DcfKeysTuple() { Keys<2, 3>(); }
void DcfKeysLarge() { Keys<66, 0>(); }

// ----------------------------------------------------------------- evaluation
template <typename T>
void SetCorrection(google::protobuf::RepeatedPtrField<Value>* field) {
  for (int i = 0; i < di::ElementsPerBlock<T>(); ++i) *field->Add() = di::ValueTypeHelper<T>::ToValue(verif::Fresh<T>("correction"));
}
template <typename T>
std::unique_ptr<Dcf> Comparison(int log) {
  constexpr int b = sizeof(T) == 16 ? 0 : sizeof(T) == 8 ? 1 : 2;
  std::vector<int> tree, blocks;
  std::vector<DpfParameters> p;
  for (int i = 0; i < log; ++i) {
    int t = i - b;
    if (i > 0 && t <= tree.back()) t = tree.back() + 1;
    if (t < 0) t = 0;
    tree.push_back(t);
    blocks.push_back(1);
    p.push_back(Parameters<T>(i));
  }
  return MakeDcf(Parameters<T>(log), Make(std::move(p), tree, blocks));
}
template <typename T>
DcfKey KeyFor(const Dpf& dpf, int party) {
  DcfKey r;
  DpfKey& key = *r.mutable_key();
  *key.mutable_seed() = verif::Fresh<Block>("seed");
  key.set_party(party);
  int next = 0;
  for (int i = 0; i < dpf.hierarchy_to_tree_.back(); ++i) {
    CorrectionWord* w = key.add_correction_words();
    *w->mutable_seed() = verif::Fresh<Block>("seed");
    w->set_control_left(verif::Fresh<bool>("left"));
    w->set_control_right(verif::Fresh<bool>("right"));
    if (dpf.hierarchy_to_tree_[next] == i) {
      SetCorrection<T>(w->mutable_value_correction());
      ++next;
    }
  }
  SetCorrection<T>(key.mutable_last_level_value_correction());
  return r;
}
// The value is the sum of the levels at which the bit of x is not set.
template <typename T, int kLog>
void Accumulates() {
  std::unique_ptr<Dcf> dcf = Comparison<T>(kLog);
  const Dpf& dpf = *dcf->dpf_;
  std::vector<DcfKey> keys;
  std::vector<uint128> points;
  for (int i = 0; i < 2; ++i) {
    keys.push_back(KeyFor<T>(dpf, Any<bool>("party") ? 1 : 0));
    points.push_back(verif::Fresh<uint128>("x"));
    Assume(points[i] < (uint128{1} << kLog));
  }
  std::vector<T> out = {verif::Fresh<T>("old"), verif::Fresh<T>("old")};
  absl::Status s = dcf->BatchEvaluate<T>(keys, points, absl::MakeSpan(out));
  Require(s.ok(), "keys are evaluated at all points of the domain");
  if (!s.ok()) return;
  for (int i = 0; i < 2; ++i) {
    T sum{};
    for (int level = 0; level < kLog; ++level) {
      if (((points[i] >> (kLog - 1 - level)) & 1) == 0) {
        absl::StatusOr<std::vector<T>> v = dpf.EvaluateAt<T>(keys[i].key(), level, {points[i] >> (kLog - level)});
        sum += (*v)[0];
      }
    }
    Require(out[i] == sum, "the value is the sum over the levels whose bit of x is not set");
  }
}
void DcfAccumulates() { Accumulates<uint128, 2>(); }
void DcfAccumulatesPacked() { Accumulates<uint64_t, 3>(); }
// The lowest and highest levels of a wide domain; the levels of the point
// function in between are left out, and its tree is as deep as it has levels.
template <int kLog, int kLevels>
void AccumulatesFar() {
  std::vector<DpfParameters> p;
  std::vector<int> tree, blocks;
  for (int i = 0; i < kLevels; ++i) {
    p.push_back(Parameters<uint128>(kLog - kLevels + i));
    tree.push_back(i);
    blocks.push_back(1);
  }
  std::unique_ptr<Dcf> dcf = MakeDcf(Parameters<uint128>(kLog), Make(std::move(p), tree, blocks));
  DcfKey key = KeyFor<uint128>(*dcf->dpf_, Any<bool>("party") ? 1 : 0);
  uint128 x = verif::Fresh<uint128>("x");
  if (kLog < 128) Assume(x < (uint128{1} << (kLog % 128)));
  absl::StatusOr<uint128> r = dcf->Evaluate<uint128>(key, x);
  Require(r.ok(), "keys are evaluated at all points of a wide domain");
  if (!r.ok()) return;
  uint128 sum = 0;
  for (int level = 0; level < kLevels; ++level) {
    if (((x >> (kLog - 1 - level)) & 1) == 0) sum += (*dcf->dpf_->EvaluateAt<uint128>(key.key(), level, {x >> (kLog - level)}))[0];
  }
  Require(*r == sum, "the value is the sum over the levels whose bit of x is not set, also in a wide domain");
}
void DcfAccumulatesFar() { AccumulatesFar<100, 2>(); }
void DcfAccumulatesFarthest() { AccumulatesFar<128, 2>(); }
void DcfRefuses() {
  std::unique_ptr<Dcf> dcf = Comparison<uint128>(2);
  std::vector<DcfKey> keys = {KeyFor<uint128>(*dcf->dpf_, 0), KeyFor<uint128>(*dcf->dpf_, 1)};
  std::vector<uint128> points = {verif::Fresh<uint128>("x"), verif::Fresh<uint128>("y")};
  if (Any<bool>("fewer")) points.pop_back();
  std::vector<uint128> out(Any<bool>("shorter") ? 1 : 2);
  if (points.size() == 2 && out.size() == 2) Assume(points[0] > 3 || points[1] > 3);
  absl::Status s = dcf->BatchEvaluate<uint128>(keys, points, absl::MakeSpan(out));
  Require(s.code() == absl::StatusCode::kInvalidArgument, "one point of the domain and one output for every key");
  DcfKey bad = Any<DcfKey>("bad");
  Assume(!dcf->dpf_->proto_validator_->ValidateDpfKey(bad.key()).ok());
  Require(!dcf->Evaluate<uint128>(bad, 0).ok(), "only keys of the function are evaluated");
}

// ------------------------------------------------------------- whole protocol
using CorrectionFunction = absl::StatusOr<Dpf::ValueCorrectionFunction>;
CorrectionFunction ModelUint128(const Dpf*, const DpfParameters&) { return di::ComputeValueCorrectionFor<uint128>; }
CorrectionFunction ModelUint64(const Dpf*, const DpfParameters&) { return di::ComputeValueCorrectionFor<uint64_t>; }
template <typename T, int kLog>
void Compares() {
  std::unique_ptr<Dcf> dcf = Comparison<T>(kLog);
  uint128 alpha = verif::Fresh<uint128>("alpha"), x = verif::Fresh<uint128>("x");
  Assume(alpha < (uint128{1} << kLog) && x < (uint128{1} << kLog));
  T beta = verif::Fresh<T>("beta");
  absl::StatusOr<std::pair<DcfKey, DcfKey>> keys = dcf->GenerateKeys(alpha, di::ValueTypeHelper<T>::ToValue(beta));
  Require(keys.ok(), "keys exist for every alpha and beta");
  if (!keys.ok()) return;
  absl::StatusOr<T> a = dcf->Evaluate<T>(keys->first, x), b = dcf->Evaluate<T>(keys->second, x);
  Require(a.ok() && b.ok(), "keys are evaluated at every point");
  if (!a.ok() || !b.ok()) return;
  T sum = *a + *b;
  Require(sum == (x < alpha ? beta : T{0}), "the shares add up to beta below alpha and to zero elsewhere");
}
void DcfCompareOne() { Compares<uint128, 1>(); }
void DcfCompareTwo() { Compares<uint128, 2>(); }
void DcfComparePacked() { Compares<uint64_t, 2>(); }
void DcfCompareThree() { Compares<uint128, 3>(); }
void DcfComparePackedThree() { Compares<uint64_t, 3>(); }
}  // namespace verif_scn
