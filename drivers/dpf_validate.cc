// Validation of parameters, values, keys and contexts.
#include <cmath>
#include "dpf_models.h"
#include "dpf/internal/proto_validator.h"
#include "dpf/internal/value_type_helpers.h"
using verif::Any; using verif::AnyRef; using verif::Require; using verif::Assume;
namespace verif_scn {
namespace di = distributed_point_functions::dpf_internal;
using di::ProtoValidator;

inline bool HasNumber(const Value::Integer& v) {
  return v.value_case() == Value::Integer::kValueUint64 || v.value_case() == Value::Integer::kValueUint128;
}
inline uint128 Number(const Value::Integer& v) {
  if (v.value_case() == Value::Integer::kValueUint64) return v.value_uint64();
  return ToBlock(v.value_uint128());
}
inline bool Fits(const Value::Integer& v, int bits) {
  return HasNumber(v) && (bits >= 128 || Number(v) < (uint128{1} << bits));
}
inline bool PowerOfTwo(int b) { return b == 1 || b == 2 || b == 4 || b == 8 || b == 16 || b == 32 || b == 64 || b == 128; }
inline bool Invalid(const absl::Status& s) { return s.code() == absl::StatusCode::kInvalidArgument; }

// ---------------------------------------------------------------- value types
void IntegerTypesAccepted() {
  for (int b = -1; b <= 130; ++b) {
    ValueType t;
    if (Any<bool>("xor")) t.mutable_xor_wrapper()->set_bitsize(b);
    else t.mutable_integer()->set_bitsize(b);
    absl::Status s = ProtoValidator::ValidateValueType(t);
    Require(s.ok() == PowerOfTwo(b), "integer types have a power of two up to 128 bits");
    Require(s.ok() || Invalid(s), "other integer types are invalid arguments");
  }
  ValueType t;
  int b = Any<int>("bits");
  Assume(b < 1 || b > 128);
  if (Any<bool>("xor")) t.mutable_xor_wrapper()->set_bitsize(b);
  else t.mutable_integer()->set_bitsize(b);
  Require(!ProtoValidator::ValidateValueType(t).ok(), "integer types have between 1 and 128 bits");
}
void ModularTypesAccepted() {
  for (int b = 0; b <= 130; ++b) {
    ValueType t;
    t.mutable_int_mod_n()->mutable_base_integer()->set_bitsize(b);
    *t.mutable_int_mod_n()->mutable_modulus() = Any<Value::Integer>("modulus");
    absl::Status s = ProtoValidator::ValidateValueType(t);
    Require(s.ok() == (PowerOfTwo(b) && Fits(t.int_mod_n().modulus(), b)), "moduli fit the base type");
  }
}
void UnsetTypesRefused() {
  ValueType t;
  Require(Invalid(ProtoValidator::ValidateValueType(t)), "a type has to be set");
}
// A tuple is valid if and only if all of its elements are.
void TupleTypesAccepted() {
  ValueType t, a, b;
  t.mutable_tuple();
  for (int i = 0; i < 2; ++i) {
    ValueType* e = t.mutable_tuple()->add_elements();
    if (Any<bool>("modular")) {
      e->mutable_int_mod_n()->mutable_base_integer()->set_bitsize(Any<bool>("good") ? 64 : 63);
      *e->mutable_int_mod_n()->mutable_modulus() = verif::Fresh<Value::Integer>("modulus");
    } else if (Any<bool>("unset")) {
      e->mutable_integer()->set_bitsize(Any<bool>("good") ? 32 : 0);
    }
  }
  bool all = ProtoValidator::ValidateValueType(t.tuple().elements(0)).ok() && ProtoValidator::ValidateValueType(t.tuple().elements(1)).ok();
  Require(ProtoValidator::ValidateValueType(t).ok() == all, "a tuple is valid exactly if all of its elements are");
  ValueType empty;
  empty.mutable_tuple();
  Require(!ProtoValidator::ValidateValueType(empty).ok(), "a tuple has elements");
  ValueType nested;
  nested.mutable_tuple()->add_elements()->mutable_integer()->set_bitsize(8);
  *nested.mutable_tuple()->add_elements() = t;
  Require(ProtoValidator::ValidateValueType(nested).ok() == all, "nested tuples are validated as well");
}

// --------------------------------------------------------------------- values
void IntegerValuesAccepted() {
  for (int k = 0; k <= 7; ++k) {
    const int b = 1 << k;
    ValueType t;
    t.mutable_integer()->set_bitsize(b);
    Value v = Any<Value>("value");
    absl::Status s = ProtoValidator::ValidateValue(v, t);
    Require(s.ok() == (v.value_case() == Value::kInteger && Fits(v.integer(), b)), "integers of the type are its values");
    Require(s.ok() || Invalid(s), "anything else is an invalid argument");
  }
}
void XorValuesAccepted() {
  for (int k = 0; k <= 7; ++k) {
    const int b = 1 << k;
    ValueType t;
    t.mutable_xor_wrapper()->set_bitsize(b);
    Value v = Any<Value>("value");
    Require(ProtoValidator::ValidateValue(v, t).ok() == (v.value_case() == Value::kXorWrapper && Fits(v.xor_wrapper(), b)), "wrapped integers of the type are its values");
  }
}
void ModularValuesAccepted() {
  for (int k = 3; k <= 7; ++k) {
    const int b = 1 << k;
    ValueType t;
    t.mutable_int_mod_n()->mutable_base_integer()->set_bitsize(b);
    Value::Integer n = Any<Value::Integer>("modulus");
    Assume(Fits(n, b));
    *t.mutable_int_mod_n()->mutable_modulus() = n;
    Value v = Any<Value>("value");
    // An alternative that is not chosen has its default value.
    Assume(v.value_case() == Value::kIntModN || v.int_mod_n().value_case() == Value::Integer::VALUE_NOT_SET);
    Require(ProtoValidator::ValidateValue(v, t).ok() == (v.value_case() == Value::kIntModN && Fits(v.int_mod_n(), b) && Number(v.int_mod_n()) < Number(n)), "residues are the values of a modular type");
  }
}
void TupleValuesAccepted() {
  ValueType t;
  t.mutable_tuple()->add_elements()->mutable_integer()->set_bitsize(32);
  t.mutable_tuple()->add_elements()->mutable_xor_wrapper()->set_bitsize(64);
  const Value& u = AnyRef<Value>("value");
  if (u.value_case() != Value::kTuple || u.tuple().elements_size() != 2) {
    Require(!ProtoValidator::ValidateValue(u, t).ok(), "only tuples of the right size are values of a tuple type");
  }
  Value v;
  v.mutable_tuple();
  *v.mutable_tuple()->add_elements() = verif::Fresh<Value>("first");
  *v.mutable_tuple()->add_elements() = verif::Fresh<Value>("second");
  const Value& a = v.tuple().elements(0);
  const Value& b = v.tuple().elements(1);
  Require(ProtoValidator::ValidateValue(v, t).ok() == (a.value_case() == Value::kInteger && Fits(a.integer(), 32) && b.value_case() == Value::kXorWrapper && Fits(b.xor_wrapper(), 64)), "every element has to be a value of its type");
}

// ----------------------------------------------------------------- parameters
inline bool Good(const DpfParameters& p) {
  return p.log_domain_size() >= 0 && p.log_domain_size() <= 128 && p.has_value_type() && ProtoValidator::ValidateValueType(p.value_type()).ok() &&
         !std::isnan(p.security_parameter()) && !(p.security_parameter() < 0) && !(p.security_parameter() > 128);
}
void ParametersAccepted() {
  Require(!ProtoValidator::ValidateParameters({}).ok(), "there is at least one level");
  std::vector<DpfParameters> p;
  for (int i = 0; i < 3; ++i) {
    p.push_back(verif::Fresh<DpfParameters>("parameters"));
    if (Any<bool>("typed")) p[i].mutable_value_type()->mutable_integer()->set_bitsize(Any<bool>("good") ? 64 : 0);
    else p[i].clear_value_type();
  }
  Require(ProtoValidator::ValidateParameters(absl::MakeConstSpan(p).subspan(0, 1)).ok() == Good(p[0]), "a single level is accepted exactly if it is valid");
  absl::Status s = ProtoValidator::ValidateParameters(p);
  Require(s.ok() == (Good(p[0]) && Good(p[1]) && Good(p[2]) && p[0].log_domain_size() < p[1].log_domain_size() && p[1].log_domain_size() < p[2].log_domain_size()), "levels are valid and of ascending size");
  Require(s.ok() || Invalid(s), "other parameters are invalid arguments");
}
}  // namespace verif_scn
namespace verif_scn {
// A validator for the given tree levels; the parameters are arbitrary.
inline std::unique_ptr<ProtoValidator> Validator(std::vector<int> tree) {
  std::vector<DpfParameters> p;
  absl::flat_hash_map<int, int> inverse;
  for (int i = 0; i < static_cast<int>(tree.size()); ++i) {
    DpfParameters q;
    q.set_log_domain_size(tree[i]);
    q.set_security_parameter(40 + tree[i]);
    q.mutable_value_type()->mutable_integer()->set_bitsize(128);
    p.push_back(q);
    inverse[tree[i]] = i;
  }
  int needed = tree.back() + 1;
  return absl::WrapUnique(new ProtoValidator(std::move(p), needed, std::move(inverse), std::move(tree)));
}
inline bool KeyGood(const DpfKey& key, std::vector<int> tree) {
  bool ok = key.has_seed() && (key.party() == 0 || key.party() == 1) && !key.last_level_value_correction().empty() && key.correction_words_size() == tree.back();
  for (int i = 0; i + 1 < static_cast<int>(tree.size()); ++i) ok = ok && !key.correction_words(tree[i]).value_correction().empty();
  return ok;
}
void KeysAccepted() {
  const DpfKey& key = AnyRef<DpfKey>("key");
  absl::Status s = Validator({4})->ValidateDpfKey(key);
  Require(s.ok() == KeyGood(key, {4}), "keys of one level are accepted exactly if complete");
  Require(s.ok() || Invalid(s), "incomplete keys are invalid arguments");
  Require(Validator({0})->ValidateDpfKey(key).ok() == KeyGood(key, {0}), "keys without a tree are accepted exactly if complete");
  Require(Validator({0, 3})->ValidateDpfKey(key).ok() == KeyGood(key, {0, 3}), "keys of two levels are accepted exactly if complete");
  Require(Validator({1, 2, 7})->ValidateDpfKey(key).ok() == KeyGood(key, {1, 2, 7}), "keys of three levels are accepted exactly if complete");
}
inline bool SameParameters(const DpfParameters& p, int log) {
  return p.log_domain_size() == log && p.value_type().type_case() == ValueType::kInteger && p.value_type().integer().bitsize() == 128;
}
void ContextsAccepted() {
  EvaluationContext& ctx = AnyRef<EvaluationContext>("ctx");
  auto v = Validator({1, 3});
  absl::Status s = v->ValidateEvaluationContext(ctx);
  if (!s.ok()) return;
  Require(ctx.parameters_size() == 2 && SameParameters(ctx.parameters(0), 1) && SameParameters(ctx.parameters(1), 3), "an accepted context has the parameters of the function");
  Require(ctx.has_key() && v->ValidateDpfKey(ctx.key()).ok(), "an accepted context has a valid key");
  Require(ctx.previous_hierarchy_level() < 1, "an accepted context has levels left to evaluate");
  Require(ctx.partial_evaluations().empty() || ctx.partial_evaluations_level() <= ctx.previous_hierarchy_level(), "partial evaluations belong to a level already evaluated");
}
void ContextsFreshAccepted() {
  auto v = Validator({1, 3});
  EvaluationContext ctx;
  ctx.add_parameters()->set_log_domain_size(1);
  ctx.add_parameters()->set_log_domain_size(3);
  for (int i = 0; i < 2; ++i) ctx.mutable_parameters(i)->mutable_value_type()->mutable_integer()->set_bitsize(128);
  if (Any<bool>("default")) for (int i = 0; i < 2; ++i) ctx.mutable_parameters(i)->set_security_parameter(40 + 1 + 2 * i);
  DpfKey key = Any<DpfKey>("key");
  *ctx.mutable_key() = key;
  ctx.set_previous_hierarchy_level(Any<bool>("first") ? -1 : 0);
  if (Any<bool>("partial")) ctx.add_partial_evaluations();
  if (ctx.previous_hierarchy_level() == -1 && ctx.partial_evaluations_size() > 0) return;
  Require(v->ValidateEvaluationContext(ctx).ok() == v->ValidateDpfKey(key).ok(), "contexts of the function with a valid key are accepted");
}

// -------------------------------------------------------- tree and block index
void IndicesSplit() {
  for (int d = 0; d <= 7; ++d) {
    std::unique_ptr<Dpf> dpf = Make({Parameters<uint128>(3), Parameters<uint8_t>(40)}, {3, 40 - d}, {1, 1});
    uint128 x = verif::Fresh<uint128>("x");
    uint128 tree = dpf->DomainToTreeIndex(x, 1);
    int block = dpf->DomainToBlockIndex(x, 1);
    Require(block >= 0 && block < (1 << d), "the block index is within the block");
    Require(tree == x / (uint128{1} << d) && uint128{block} == x % (uint128{1} << d), "the low bits of an element choose its place in the block");
  }
}

// ----------------------------------------------------------------- tree levels
template <typename... T>
std::vector<DpfParameters> Levels() {
  std::vector<DpfParameters> p;
  std::vector<ValueType> types = {di::ValueTypeHelper<T>::ToValueType()...};
  for (const ValueType& t : types) {
    DpfParameters q;
    q.set_log_domain_size(verif::Fresh<int>("log"));
    *q.mutable_value_type() = t;
    p.push_back(q);
  }
  return p;
}
template <typename... T>
void MapsLevels() {
  std::vector<DpfParameters> p = Levels<T...>();
  std::vector<int> packed = {(di::ElementsPerBlock<T>() >= 16 ? 4 : di::ElementsPerBlock<T>() >= 8 ? 3 : di::ElementsPerBlock<T>() >= 4 ? 2 : di::ElementsPerBlock<T>() >= 2 ? 1 : 0)...};
  constexpr int n = sizeof...(T);
  absl::StatusOr<std::unique_ptr<ProtoValidator>> r = ProtoValidator::Create(p);
  if (!r.ok()) return;
  const ProtoValidator& v = **r;
  Require(v.hierarchy_to_tree().size() == n && v.parameters().size() == n && v.tree_to_hierarchy().size() == n, "every hierarchy level has a tree level of its own");
  int previous = -1;
  for (int i = 0; i < n; ++i) {
    int t = v.hierarchy_to_tree()[i], log = p[i].log_domain_size();
    Require(t > previous, "tree levels ascend");
    Require(t <= log && log - t <= packed[i], "a block has a slot for every element below it");
    Require(t == std::max(previous + 1, log - packed[i]), "the tree is as high as it needs to be");
    Require(v.tree_to_hierarchy().at(t) == i, "tree levels are mapped back to their hierarchy levels");
    Require(v.parameters()[i].log_domain_size() == log && v.parameters()[i].security_parameter() == 40 + log, "the security parameter defaults to 40 plus the size of the domain");
    previous = t;
  }
  Require(v.tree_levels_needed() == previous + 1, "the tree ends with the last hierarchy level");
}
void LevelsOneWide() { MapsLevels<uint128>(); }
void LevelsOneNarrow() { MapsLevels<uint8_t>(); }
void LevelsTwo() { MapsLevels<uint32_t, uint64_t>(); }
void LevelsThree() { MapsLevels<uint16_t, Tuple<uint32_t, uint32_t>, XorWrapper<uint128>>(); }
void LevelsTuple() { MapsLevels<Tuple<uint8_t, uint16_t>, Tuple<uint128, uint64_t>>(); }
}  // namespace verif_scn
