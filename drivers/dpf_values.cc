// Value types: sharing, conversion, and sampling.
#include "dpf_models.h"
#include "dpf/internal/value_type_helpers.h"
using verif::Any; using verif::AnyRef; using verif::Require; using verif::Assume;
namespace verif_scn {
namespace di = distributed_point_functions::dpf_internal;

// The blocks of the two parties at a leaf, the control bits there (which differ),
// and what the evaluation computes from them.
template <typename T, int kBlocks, typename Eq>
void Shares(Eq eq, int at = -1) {
  std::vector<uint128> a, b;
  for (int i = 0; i < kBlocks; ++i) { a.push_back(verif::Fresh<uint128>("a")); b.push_back(verif::Fresh<uint128>("b")); }
  absl::string_view sa(reinterpret_cast<const char*>(a.data()), kBlocks * sizeof(uint128));
  absl::string_view sb(reinterpret_cast<const char*>(b.data()), kBlocks * sizeof(uint128));
  constexpr int n = di::ElementsPerBlock<T>();
  int index = at;
  if (at < 0) {
    index = Any<int>("index");
    Assume(index >= 0 && index < n);
  }
  Value beta = Any<Value>("beta");
  bool t1 = Any<bool>("t1"), t0 = !t1;
  absl::StatusOr<std::vector<Value>> r = di::ComputeValueCorrectionFor<T>(sa, sb, index, beta, t1);
  absl::StatusOr<T> want = di::ValueTypeHelper<T>::FromValue(beta);
  Require(r.ok() == want.ok(), "every beta of the type has a correction, and nothing else has");
  if (!r.ok()) return;
  google::protobuf::RepeatedPtrField<Value> field;
  for (const Value& v : *r) *field.Add() = v;
  absl::StatusOr<std::array<T, n>> cw = di::ValuesToArray<T>(field);
  Require(cw.ok(), "the correction is accepted by the evaluation");
  if (!cw.ok()) return;
  std::array<T, n> x = di::ConvertBytesToArrayOf<T>(sa), y = di::ConvertBytesToArrayOf<T>(sb);
  for (int i = 0; i < n; ++i) {
    T s0 = x[i], s1 = y[i];
    if (t0) s0 += (*cw)[i];
    if (t1) s1 += (*cw)[i];
    s1 = -s1;
    T sum = s0 + s1;
    if (i == index) Require(eq(sum, *want), "at alpha the shares add up to beta");
    if constexpr (n > 1) {
      if (i != index) Require(eq(sum, T{}), "next to alpha the shares add up to zero");
    }
  }
}
template <typename T>
bool Equal(const T& a, const T& b) { return a == b; }
template <typename T>
bool XorEqual(const T& a, const T& b) { return a.value() == b.value(); }
void SharesUint8() { Shares<uint8_t, 1>(Equal<uint8_t>, 13); }
void SharesUint16() { Shares<uint16_t, 1>(Equal<uint16_t>, 5); }
void SharesUint32() { Shares<uint32_t, 1>(Equal<uint32_t>); }
void SharesUint64() { Shares<uint64_t, 1>(Equal<uint64_t>); }
void SharesUint128() { Shares<uint128, 1>(Equal<uint128>); }
void SharesXor64() { Shares<XorWrapper<uint64_t>, 1>(XorEqual<XorWrapper<uint64_t>>); }
void SharesXor128() { Shares<XorWrapper<uint128>, 1>(XorEqual<XorWrapper<uint128>>); }
}  // namespace verif_scn
namespace verif_scn {
using Pair64 = Tuple<uint64_t, uint64_t>;
using Mixed = Tuple<uint32_t, XorWrapper<uint32_t>>;
using Wide = Tuple<uint128, uint64_t>;
using Mod32 = IntModN<uint32_t, 4294967291u>;
using Mod64 = IntModN<uint64_t, 18446744073709551557ull>;
#ifdef ABSL_HAVE_INTRINSIC_INT128
using Mod128 = IntModN<uint128, (unsigned __int128)(absl::MakeUint128(65535u, 18446744073709551551ull))>;
#else
using Mod128 = IntModN<uint128, absl::MakeUint128(65535u, 18446744073709551551ull)>;
#endif
inline bool MixedEqual2(const Tuple<Mod64, Mod64>& x, const Tuple<Mod64, Mod64>& y) { return std::get<0>(x.value()).value() == std::get<0>(y.value()).value() && std::get<1>(x.value()).value() == std::get<1>(y.value()).value(); }
// Addition and subtraction modulo N (decided by AddsModulo32 and the like).
Mod32& ModelAdd32(Mod32* a, const Mod32& b) { a->value_ = verif::SumMod<uint32_t>(Mod32::modulus(), a->value_, b.value_); return *a; }
Mod32& ModelSub32(Mod32* a, const Mod32& b) { a->value_ = verif::DifferenceMod<uint32_t>(Mod32::modulus(), a->value_, b.value_); return *a; }
Mod64& ModelAdd64(Mod64* a, const Mod64& b) { a->value_ = verif::SumMod<uint64_t>(Mod64::modulus(), a->value_, b.value_); return *a; }
Mod64& ModelSub64(Mod64* a, const Mod64& b) { a->value_ = verif::DifferenceMod<uint64_t>(Mod64::modulus(), a->value_, b.value_); return *a; }
Mod128& ModelAdd128(Mod128* a, const Mod128& b) { a->value_ = verif::SumMod<uint128>(Mod128::modulus(), a->value_, b.value_); return *a; }
Mod128& ModelSub128(Mod128* a, const Mod128& b) { a->value_ = verif::DifferenceMod<uint128>(Mod128::modulus(), a->value_, b.value_); return *a; }
void SharesMod128() { Shares<Mod128, 1>(XorEqual<Mod128>); }
using Mods = Tuple<Mod64, Mod64>;
void SharesMods() { Shares<Mods, 2>(MixedEqual2); }

// The result is the one residue of the sum or difference.
template <typename M, typename W>
void Arithmetic() {
  typename M::Base x = Any<typename M::Base>("x"), y = Any<typename M::Base>("y");
  const W n = W{M::modulus()};
  M a(x), b(y);
  Require(a.value() < n, "an element is below the modulus");
  Require(W{a.value()} == W{x} % n, "an element is made by reduction");
  M s = a + b;
  const W sum = W{a.value()} + W{b.value()};
  Require(W{s.value()} == (sum < n ? sum : sum - n), "addition is modulo N");
  M d = a - b;
  const W difference = W{a.value()} + n - W{b.value()};
  Require(W{d.value()} == (difference < n ? difference : difference - n), "subtraction is modulo N");
  M m = -a;
  Require(W{m.value()} == (a.value() == 0 ? W{0} : n - W{a.value()}), "negation is modulo N");
}
void AddsModulo8() { Arithmetic<IntModN<uint8_t, 251>, uint64_t>(); }
void AddsModulo32() { Arithmetic<Mod32, uint64_t>(); }
void AddsModulo64() { Arithmetic<Mod64, uint128>(); }

template <typename A, typename B>
bool TupleEqual(const Tuple<A, B>& x, const Tuple<A, B>& y) { return std::get<0>(x.value()) == std::get<0>(y.value()) && std::get<1>(x.value()) == std::get<1>(y.value()); }
template <typename A, typename B>
bool MixedEqual(const Tuple<A, B>& x, const Tuple<A, B>& y) { return std::get<0>(x.value()) == std::get<0>(y.value()) && std::get<1>(x.value()).value() == std::get<1>(y.value()).value(); }
void SharesPair() { Shares<Pair64, 1>(TupleEqual<uint64_t, uint64_t>); }
void SharesMixed() { Shares<Mixed, 1>(MixedEqual<uint32_t, XorWrapper<uint32_t>>); }
void SharesWide() { Shares<Wide, 2>(TupleEqual<uint128, uint64_t>); }
void SharesMod32() { Shares<Mod32, 1>(XorEqual<Mod32>); }
void SharesMod64() { Shares<Mod64, 1>(XorEqual<Mod64>); }
}
