// Conversions between values, value types and C++ types; sizes of leaf blocks.
#include "dpf_models.h"
#include "dpf/internal/proto_validator.h"
#include "dpf/internal/value_type_helpers.h"
using verif::Any; using verif::AnyRef; using verif::Require; using verif::Assume;
namespace verif_scn {
namespace di = distributed_point_functions::dpf_internal;
using di::ProtoValidator;
using Mod32 = IntModN<uint32_t, 4294967291u>;
using Mod64 = IntModN<uint64_t, 18446744073709551557ull>;
#ifdef ABSL_HAVE_INTRINSIC_INT128
constexpr unsigned __int128 kMod128 = (unsigned __int128)(absl::MakeUint128(65535u, 18446744073709551551ull));
using Mod128 = IntModN<uint128, kMod128>;
#endif
inline bool HasNumber(const Value::Integer& v) {
  return v.value_case() == Value::Integer::kValueUint64 || v.value_case() == Value::Integer::kValueUint128;
}
inline uint128 Number(const Value::Integer& v) {
  if (v.value_case() == Value::Integer::kValueUint64) return v.value_uint64();
  return ToBlock(v.value_uint128());
}

// ------------------------------------------------------------------ conversion
// x has the message v, of the type of T, and v converts back to x.
template <typename T>
bool Converts(const T& x) {
  Value v = di::ValueTypeHelper<T>::ToValue(x);
  absl::StatusOr<T> back = di::ValueTypeHelper<T>::FromValue(v);
  return back.ok() && *back == x;
}
template <typename T>
void ConvertsInteger() {
  T x = Any<T>("x");
  Value v = di::ValueTypeHelper<T>::ToValue(x);
  Require(v.value_case() == Value::kInteger && HasNumber(v.integer()) && Number(v.integer()) == uint128{x}, "the message of an integer has its number");
  Require(Converts<T>(x), "an integer is the same after conversion and back");
  Value u = Any<Value>("u");
  absl::StatusOr<T> r = di::ValueTypeHelper<T>::FromValue(u);
  bool fits = u.value_case() == Value::kInteger && HasNumber(u.integer()) && (sizeof(T) == 16 || Number(u.integer()) <= uint128{std::numeric_limits<T>::max()});
  Require(r.ok() == fits, "exactly the integers that fit are converted");
  Require(r.ok() || r.status().code() == absl::StatusCode::kInvalidArgument, "others are invalid arguments");
  if (r.ok()) Require(uint128{*r} == Number(u.integer()), "integers are converted to their number");
}
void Convert8() { ConvertsInteger<uint8_t>(); }
void Convert16() { ConvertsInteger<uint16_t>(); }
void Convert32() { ConvertsInteger<uint32_t>(); }
void Convert64() { ConvertsInteger<uint64_t>(); }
void Convert128() { ConvertsInteger<uint128>(); }
template <typename T>
void ConvertsXor() {
  XorWrapper<T> x(Any<T>("x"));
  Value v = di::ValueTypeHelper<XorWrapper<T>>::ToValue(x);
  Require(v.value_case() == Value::kXorWrapper && HasNumber(v.xor_wrapper()) && Number(v.xor_wrapper()) == uint128{x.value()}, "the message of a wrapped integer has its number");
  Require(Converts<XorWrapper<T>>(x), "a wrapped integer is the same after conversion and back");
  Value u;
  *u.mutable_xor_wrapper() = Any<Value::Integer>("u");
  absl::StatusOr<XorWrapper<T>> r = di::ValueTypeHelper<XorWrapper<T>>::FromValue(u);
  bool fits = HasNumber(u.xor_wrapper()) && (sizeof(T) == 16 || Number(u.xor_wrapper()) <= uint128{std::numeric_limits<T>::max()});
  Require(r.ok() == fits, "exactly the wrapped integers that fit are converted");
  if (r.ok()) Require(uint128{r->value()} == Number(u.xor_wrapper()), "wrapped integers are converted to their number");
}
void ConvertXor8() { ConvertsXor<uint8_t>(); }
void ConvertXor32() { ConvertsXor<uint32_t>(); }
void ConvertXor64() { ConvertsXor<uint64_t>(); }
void ConvertXor128() { ConvertsXor<uint128>(); }
template <typename T, typename B>
void ConvertsMod(uint128 n) {
  T x(Any<B>("x"));
  Value v = di::ValueTypeHelper<T>::ToValue(x);
  Require(v.value_case() == Value::kIntModN && HasNumber(v.int_mod_n()) && Number(v.int_mod_n()) == uint128{x.value()}, "the message of a residue has its number");
  Value u = Any<Value>("u");
  absl::StatusOr<T> r = di::ValueTypeHelper<T>::FromValue(u);
  bool fits = u.value_case() == Value::kIntModN && HasNumber(u.int_mod_n()) && Number(u.int_mod_n()) < n;
  Require(r.ok() == fits, "exactly the residues are converted");
  if (r.ok()) Require(uint128{r->value()} == Number(u.int_mod_n()), "residues are converted to their number");
}
void ConvertMod32() { ConvertsMod<Mod32, uint32_t>(4294967291u); }
void ConvertMod64() { ConvertsMod<Mod64, uint64_t>(18446744073709551557ull); }
#ifdef ABSL_HAVE_INTRINSIC_INT128
void ConvertMod128() { ConvertsMod<Mod128, uint128>(kMod128); }
#endif
void ConvertTuple() {
  using T = Tuple<uint32_t, Tuple<uint8_t, XorWrapper<uint64_t>>>;
  uint32_t a = Any<uint32_t>("a");
  uint8_t b = Any<uint8_t>("b");
  uint64_t c = Any<uint64_t>("c");
  Value v = di::ValueTypeHelper<T>::ToValue(T(a, Tuple<uint8_t, XorWrapper<uint64_t>>(b, XorWrapper<uint64_t>(c))));
  Require(v.value_case() == Value::kTuple && v.tuple().elements_size() == 2, "the message of a tuple has its elements");
  Require(v.tuple().elements(0).integer().value_uint64() == a, "elements are in order");
  Require(v.tuple().elements(1).tuple().elements_size() == 2, "nested tuples have their elements");
  Require(v.tuple().elements(1).tuple().elements(0).integer().value_uint64() == b && v.tuple().elements(1).tuple().elements(1).xor_wrapper().value_uint64() == c, "nested elements are in order");
  Value u;
  u.mutable_tuple();
  *u.mutable_tuple()->add_elements() = verif::Fresh<Value>("first");
  *u.mutable_tuple()->add_elements() = verif::Fresh<Value>("second");
  using P = Tuple<uint16_t, uint64_t>;
  absl::StatusOr<uint16_t> first = di::ValueTypeHelper<uint16_t>::FromValue(u.tuple().elements(0));
  absl::StatusOr<uint64_t> second = di::ValueTypeHelper<uint64_t>::FromValue(u.tuple().elements(1));
  absl::StatusOr<P> r = di::ValueTypeHelper<P>::FromValue(u);
  Require(r.ok() == (first.ok() && second.ok()), "a tuple is converted exactly if its elements are");
  if (r.ok()) Require(std::get<0>(r->value()) == *first && std::get<1>(r->value()) == *second, "elements are converted in order");
  const Value& w = AnyRef<Value>("other");
  if (w.value_case() != Value::kTuple || w.tuple().elements_size() != 2) Require(!di::ValueTypeHelper<P>::FromValue(w).ok(), "other values are no tuples of this size");
}

// ----------------------------------------------------------------- equal types
template <typename T, typename U>
void Compare(bool same) {
  absl::StatusOr<bool> r = di::ValueTypesAreEqual(di::ValueTypeHelper<T>::ToValueType(), di::ValueTypeHelper<U>::ToValueType());
  Require(r.ok() && *r == same, "value types are equal exactly if they are the types of the same type");
}
template <typename T>
void CompareWith(int i) {
  Compare<T, uint8_t>(i == 0);
  Compare<T, uint64_t>(i == 1);
  Compare<T, XorWrapper<uint64_t>>(i == 2);
  Compare<T, Mod32>(i == 3);
  Compare<T, IntModN<uint32_t, 4294967279u>>(i == 4);
  Compare<T, IntModN<uint64_t, 4294967291u>>(i == 5);
  Compare<T, Tuple<uint8_t>>(i == 6);
  Compare<T, Tuple<uint8_t, uint64_t>>(i == 7);
  Compare<T, Tuple<uint64_t, uint8_t>>(i == 8);
  Compare<T, Tuple<uint8_t, Tuple<uint64_t>>>(i == 9);
  Compare<T, XorWrapper<uint128>>(i == 10);
}
void TypesCompared() {
  CompareWith<uint8_t>(0);
  CompareWith<uint64_t>(1);
  CompareWith<XorWrapper<uint64_t>>(2);
  CompareWith<Mod32>(3);
  CompareWith<IntModN<uint32_t, 4294967279u>>(4);
  CompareWith<IntModN<uint64_t, 4294967291u>>(5);
  CompareWith<Tuple<uint8_t>>(6);
  CompareWith<Tuple<uint8_t, uint64_t>>(7);
  CompareWith<Tuple<uint64_t, uint8_t>>(8);
  CompareWith<Tuple<uint8_t, Tuple<uint64_t>>>(9);
  CompareWith<XorWrapper<uint128>>(10);
}
void TypesComparedUnset() {
  ValueType a = Any<ValueType>("a"), b = Any<ValueType>("b");
  Assume(a.type_case() != ValueType::kTuple && b.type_case() != ValueType::kTuple);
  absl::StatusOr<bool> r = di::ValueTypesAreEqual(a, b);
  if (a.type_case() == ValueType::TYPE_NOT_SET || b.type_case() == ValueType::TYPE_NOT_SET) {
    Require(!r.ok() && r.status().code() == absl::StatusCode::kInvalidArgument, "unset types are not compared");
    return;
  }
  if (a.type_case() != b.type_case()) {
    Require(r.ok() && !*r, "types of different kinds differ");
    return;
  }
  if (a.type_case() == ValueType::kInteger) Require(r.ok() && *r == (a.integer().bitsize() == b.integer().bitsize()), "integers are compared by size");
  if (a.type_case() == ValueType::kXorWrapper) Require(r.ok() && *r == (a.xor_wrapper().bitsize() == b.xor_wrapper().bitsize()), "wrapped integers are compared by size");
  if (a.type_case() == ValueType::kIntModN && r.ok()) {
    bool same = a.int_mod_n().base_integer().bitsize() == b.int_mod_n().base_integer().bitsize() && Number(a.int_mod_n().modulus()) == Number(b.int_mod_n().modulus());
    Require(*r == same, "modular types are compared by size and modulus");
  }
}

// ------------------------------------------------------------- size of a block
// Sampling a T takes no more than the bytes set aside for it.
template <typename T>
void Suffices(int security) {
  absl::StatusOr<int> bits = di::BitsNeeded(di::ValueTypeHelper<T>::ToValueType(), security);
  Require(bits.ok(), "the size of a value is known");
  if (!bits.ok()) return;
  int blocks = (*bits + 127) / 128;
  if constexpr (di::ValueTypeHelper<T>::CanBeConvertedDirectly()) {
    Require(di::TotalBitSize<T>() * di::ElementsPerBlock<T>() <= 128 * blocks, "there is a bit for every bit of the type");
  } else {
    uint8_t bytes[256];
    for (int i = 0; i < 256; ++i) bytes[i] = verif::Fresh<uint8_t>("byte");
    absl::string_view rest(reinterpret_cast<const char*>(bytes), 256);
    uint128 block = verif::Fresh<uint128>("block");
    T x = di::ValueTypeHelper<T>::SampleAndUpdateBytes(false, block, rest);
    Require(16 + 256 - static_cast<int>(rest.size()) <= 16 * blocks, "sampling takes no more than the bytes of the blocks");
  }
}
void BytesOfTuples() {
  Suffices<Tuple<uint8_t>>(40);
  Suffices<Tuple<uint8_t, uint16_t>>(40);
  Suffices<Tuple<uint64_t, uint64_t, uint64_t>>(40);
  Suffices<Tuple<uint128, uint8_t>>(48);
  Suffices<Tuple<XorWrapper<uint128>, Tuple<uint128, uint32_t>>>(48);
  Suffices<XorWrapper<uint64_t>>(40);
  Suffices<uint128>(40);
}
void BytesOfMods() {
  Suffices<Mod32>(40);
  Suffices<Mod64>(40);
  Suffices<Tuple<Mod32, Mod32>>(40);
  Suffices<Tuple<Mod32, Mod32, Mod32, Mod32, Mod32>>(48);
  Suffices<Tuple<Mod64, Mod64, Mod64>>(45);
}
void BytesOfMixed() {
  Suffices<Tuple<Mod32, uint32_t>>(40);
  Suffices<Tuple<uint32_t, Mod32>>(40);
  Suffices<Tuple<Mod32, Tuple<uint128, uint128, uint128>>>(40);
  Suffices<Tuple<Tuple<Mod32, Mod32>, uint64_t>>(40);
  Suffices<Tuple<XorWrapper<uint8_t>, Mod64, uint8_t, Mod64>>(40);
}
#ifdef ABSL_HAVE_INTRINSIC_INT128
void BytesOfWideMods() {
  Suffices<Mod128>(40);
  Suffices<Tuple<Mod128, Mod128>>(40);
  Suffices<Tuple<uint8_t, Mod128, uint8_t>>(40);
  Suffices<Tuple<Tuple<Mod128>, uint8_t, uint8_t>>(40);
}
#endif
}  // namespace verif_scn
