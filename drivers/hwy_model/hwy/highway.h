// What the Highway operations used in the repository do, on vectors of
// HWY_MODEL_BLOCKS blocks of 128 bits (little-endian), in a target named
// HWY_MODEL_NAMESPACE.  With HWY_MODEL_BYTES,
// vectors are sequences of bytes of any power of two, otherwise sequences of
// whole blocks.
#ifndef VERIF_HWY_MODEL_HIGHWAY_H_
#define VERIF_HWY_MODEL_HIGHWAY_H_
#include <cstddef>
#include <cstdint>
#include <type_traits>
#include "absl/numeric/int128.h"
#include "hwy/base.h"
#include "verif.h"
#undef HWY_TARGET
#undef HWY_SCALAR
#undef HWY_NAMESPACE
#undef HWY_ONCE
#undef HWY_ALIGN
#undef HWY_MAX_BYTES
#undef HWY_MIN_POW2
#undef HWY_BEFORE_NAMESPACE
#undef HWY_AFTER_NAMESPACE
#undef HWY_EXPORT
#undef HWY_DYNAMIC_DISPATCH
#undef HWY_RESTRICT
#define HWY_SCALAR 1
#define HWY_TARGET 2
#define HWY_NAMESPACE HWY_MODEL_NAMESPACE
#define HWY_ONCE 1
#define HWY_ALIGN alignas(16 * HWY_MODEL_BLOCKS)
#define HWY_MAX_BYTES 64
#define HWY_MIN_POW2 -8
#define HWY_BEFORE_NAMESPACE() static_assert(true, "")
#define HWY_AFTER_NAMESPACE() static_assert(true, "")
#define HWY_EXPORT(f) static_assert(true, "")
#define HWY_DYNAMIC_DISPATCH(f) HWY_NAMESPACE::f
#define HWY_RESTRICT
namespace hwy {
namespace HWY_NAMESPACE {
using absl::uint128;
constexpr int kBlocks = HWY_MODEL_BLOCKS;

// The AES round functions, as unspecified functions of state and round key.
inline uint128 Round(uint128 x, uint128 k) { return verif::Fn<uint128>("aes_round", x, k); }
inline uint128 LastRound(uint128 x, uint128 k) { return verif::Fn<uint128>("aes_last_round", x, k); }

template <typename L, size_t N>
struct Simd {
  using T = L;
  static constexpr size_t kLanes = N;
  static constexpr size_t kBytes = N * sizeof(L);
};
constexpr size_t Scaled(size_t n, int pow2) {
  return pow2 >= 0 ? n << pow2 : (n >> -pow2) == 0 ? 1 : n >> -pow2;
}
template <typename L, int kPow2 = 0>
using ScalableTag = Simd<L, Scaled(16 * kBlocks / sizeof(L), kPow2)>;
template <typename L, typename D>
using Repartition = Simd<L, D::kBytes / sizeof(L)>;
template <typename D>
using TFromD = typename D::T;
template <typename L, size_t N>
constexpr size_t Lanes(Simd<L, N>) { return N; }
// Aligned accesses are at multiples of the size of the vector.
template <typename D>
inline void CheckAligned(D, const typename D::T* p) {
  verif::Require(reinterpret_cast<uintptr_t>(p) % D::kBytes == 0, "aligned loads and stores are at multiples of the vector size");
}

#ifdef HWY_MODEL_BYTES

template <typename L, size_t N>
struct V { uint8_t v[N]; };
template <typename D>
using Vec = V<typename D::T, D::kLanes>;
template <typename L, size_t N>
inline V<L, N> LoadU(Simd<L, N>, const uint8_t* p) {
  V<L, N> r;
  for (size_t i = 0; i < N; ++i) r.v[i] = p[i];
  return r;
}
template <typename L, size_t N>
inline V<L, N> Load(Simd<L, N> d, const uint8_t* p) {
  CheckAligned(d, p);
  return LoadU(d, p);
}
template <typename L, size_t N>
inline void StoreU(const V<L, N>& x, Simd<L, N>, uint8_t* p) {
  for (size_t i = 0; i < N; ++i) p[i] = x.v[i];
}
template <typename L, size_t N>
inline void Store(const V<L, N>& x, Simd<L, N> d, uint8_t* p) {
  CheckAligned(d, p);
  StoreU(x, d, p);
}
template <typename L, size_t N>
inline V<L, N> Xor(const V<L, N>& a, const V<L, N>& b) {
  V<L, N> r;
  for (size_t i = 0; i < N; ++i) r.v[i] = a.v[i] ^ b.v[i];
  return r;
}
template <typename L, size_t N>
inline V<L, N> And(const V<L, N>& a, const V<L, N>& b) {
  V<L, N> r;
  for (size_t i = 0; i < N; ++i) r.v[i] = a.v[i] & b.v[i];
  return r;
}
template <typename L, size_t N>
inline V<L, N> Or(const V<L, N>& a, const V<L, N>& b) {
  V<L, N> r;
  for (size_t i = 0; i < N; ++i) r.v[i] = a.v[i] | b.v[i];
  return r;
}
template <typename L, size_t N>
inline V<L, N> Zero(Simd<L, N>) {
  V<L, N> r;
  for (size_t i = 0; i < N; ++i) r.v[i] = 0;
  return r;
}

#else

template <typename L, size_t N>
struct V { uint128 b[kBlocks]; };
template <typename L, size_t N>
struct M { bool m[N]; };
template <typename D>
using Vec = V<typename D::T, D::kLanes>;
template <typename D>
using Mask = M<typename D::T, D::kLanes>;
inline uint128 Half(uint128 x, int i) { return i == 0 ? uint128{absl::Uint128Low64(x)} : uint128{absl::Uint128High64(x)}; }

template <typename L, size_t N>
inline V<L, N> LoadU(Simd<L, N>, const L* p) {
  const uint128* q = reinterpret_cast<const uint128*>(p);
  V<L, N> r;
  for (int i = 0; i < kBlocks; ++i) r.b[i] = q[i];
  return r;
}
template <typename L, size_t N>
inline V<L, N> Load(Simd<L, N> d, const L* p) {
  CheckAligned(d, p);
  return LoadU(d, p);
}
template <typename L, size_t N>
inline V<L, N> LoadDup128(Simd<L, N>, const L* p) {
  const uint128* q = reinterpret_cast<const uint128*>(p);
  V<L, N> r;
  for (int i = 0; i < kBlocks; ++i) r.b[i] = *q;
  return r;
}
// Masked-off lanes are zero; here the lanes of a block are all on or all off.
template <typename L, size_t N>
inline V<L, N> MaskedLoad(const M<L, N>& m, Simd<L, N> d, const L* p) {
  CheckAligned(d, p);
  const uint128* q = reinterpret_cast<const uint128*>(p);
  constexpr int k = N / kBlocks;
  V<L, N> r;
  for (int i = 0; i < kBlocks; ++i) {
    for (int j = 1; j < k; ++j) verif::Require(m.m[k * i + j] == m.m[k * i], "whole blocks are loaded");
    r.b[i] = m.m[k * i] ? q[i] : uint128{0};
  }
  return r;
}
template <typename L, size_t N>
inline void StoreU(const V<L, N>& x, Simd<L, N>, L* p) {
  uint128* q = reinterpret_cast<uint128*>(p);
  for (int i = 0; i < kBlocks; ++i) q[i] = x.b[i];
}
template <typename L, size_t N>
inline void Store(const V<L, N>& x, Simd<L, N> d, L* p) {
  CheckAligned(d, p);
  StoreU(x, d, p);
}
template <typename L, size_t N, typename L0, size_t N0>
inline V<L, N> BitCast(Simd<L, N>, const V<L0, N0>& x) {
  V<L, N> r;
  for (int i = 0; i < kBlocks; ++i) r.b[i] = x.b[i];
  return r;
}
template <typename L, size_t N>
inline V<L, N> Zero(Simd<L, N>) {
  V<L, N> r;
  for (int i = 0; i < kBlocks; ++i) r.b[i] = 0;
  return r;
}
template <typename L, size_t N>
inline V<L, N> Xor(const V<L, N>& a, const V<L, N>& b) {
  V<L, N> r;
  for (int i = 0; i < kBlocks; ++i) r.b[i] = a.b[i] ^ b.b[i];
  return r;
}
template <typename L, size_t N>
inline V<L, N> And(const V<L, N>& a, const V<L, N>& b) {
  V<L, N> r;
  for (int i = 0; i < kBlocks; ++i) r.b[i] = a.b[i] & b.b[i];
  return r;
}
template <typename L, size_t N>
inline V<L, N> Or(const V<L, N>& a, const V<L, N>& b) {
  V<L, N> r;
  for (int i = 0; i < kBlocks; ++i) r.b[i] = a.b[i] | b.b[i];
  return r;
}
template <typename L, size_t N>
inline V<L, N> Not(const V<L, N>& a) {
  V<L, N> r;
  for (int i = 0; i < kBlocks; ++i) r.b[i] = ~a.b[i];
  return r;
}
template <typename L, size_t N>
inline V<L, N> AndNot(const V<L, N>& a, const V<L, N>& b) {
  V<L, N> r;
  for (int i = 0; i < kBlocks; ++i) r.b[i] = ~a.b[i] & b.b[i];
  return r;
}
template <typename L, size_t N>
inline M<L, N> Xor(const M<L, N>& a, const M<L, N>& b) {
  M<L, N> r;
  for (size_t i = 0; i < N; ++i) r.m[i] = a.m[i] ^ b.m[i];
  return r;
}
template <typename L, size_t N>
inline M<L, N> And(const M<L, N>& a, const M<L, N>& b) {
  M<L, N> r;
  for (size_t i = 0; i < N; ++i) r.m[i] = a.m[i] && b.m[i];
  return r;
}
template <typename L, size_t N>
inline M<L, N> AndNot(const M<L, N>& a, const M<L, N>& b) {
  M<L, N> r;
  for (size_t i = 0; i < N; ++i) r.m[i] = !a.m[i] && b.m[i];
  return r;
}
template <typename L, size_t N>
inline M<L, N> Or(const M<L, N>& a, const M<L, N>& b) {
  M<L, N> r;
  for (size_t i = 0; i < N; ++i) r.m[i] = a.m[i] || b.m[i];
  return r;
}
template <typename L, size_t N>
inline M<L, N> Not(const M<L, N>& a) {
  M<L, N> r;
  for (size_t i = 0; i < N; ++i) r.m[i] = !a.m[i];
  return r;
}
// The lanes below n.
template <typename L, size_t N>
inline M<L, N> FirstN(Simd<L, N>, size_t n) {
  M<L, N> r;
  for (size_t i = 0; i < N; ++i) r.m[i] = i < n;
  return r;
}
template <typename L, size_t N>
inline M<L, N> LoadMaskBits(Simd<L, N>, const uint8_t* bits) {
  M<L, N> r;
  for (size_t i = 0; i < N; ++i) r.m[i] = (bits[i / 8] & (1 << (i % 8))) != 0;
  return r;
}
template <typename L, size_t N>
inline size_t StoreMaskBits(Simd<L, N>, const M<L, N>& m, uint8_t* bits) {
  for (size_t i = 0; i < (N + 7) / 8; ++i) bits[i] = 0;
  for (size_t i = 0; i < N; ++i) {
    if (m.m[i]) bits[i / 8] |= 1 << (i % 8);
  }
  return (N + 7) / 8;
}
// Operations on lanes of 64 bits.
template <size_t N>
inline V<uint64_t, N> Shuffle01(const V<uint64_t, N>& x) {
  V<uint64_t, N> r;
  for (int i = 0; i < kBlocks; ++i) r.b[i] = absl::MakeUint128(absl::Uint128Low64(x.b[i]), absl::Uint128High64(x.b[i]));
  return r;
}
template <size_t N>
inline M<uint64_t, N> Ne(const V<uint64_t, N>& a, const V<uint64_t, N>& b) {
  M<uint64_t, N> r;
  for (int i = 0; i < kBlocks; ++i) {
    r.m[2 * i] = Half(a.b[i], 0) != Half(b.b[i], 0);
    r.m[2 * i + 1] = Half(a.b[i], 1) != Half(b.b[i], 1);
  }
  return r;
}
template <size_t N>
inline M<uint64_t, N> Eq(const V<uint64_t, N>& a, const V<uint64_t, N>& b) { return Not(Ne(a, b)); }
template <size_t N>
inline V<uint64_t, N> IfThenElse(const M<uint64_t, N>& m, const V<uint64_t, N>& a, const V<uint64_t, N>& b) {
  V<uint64_t, N> r;
  for (int i = 0; i < kBlocks; ++i) {
    if (m.m[2 * i] == m.m[2 * i + 1]) {
      r.b[i] = m.m[2 * i] ? a.b[i] : b.b[i];
    } else {
      r.b[i] = absl::MakeUint128(absl::Uint128High64(m.m[2 * i + 1] ? a.b[i] : b.b[i]), absl::Uint128Low64(m.m[2 * i] ? a.b[i] : b.b[i]));
    }
  }
  return r;
}
template <size_t N>
inline V<uint64_t, N> IfThenElseZero(const M<uint64_t, N>& m, const V<uint64_t, N>& a) {
  return IfThenElse(m, a, Zero(Simd<uint64_t, N>()));
}
template <size_t N>
inline V<uint64_t, N> IfThenZeroElse(const M<uint64_t, N>& m, const V<uint64_t, N>& a) {
  return IfThenElse(m, Zero(Simd<uint64_t, N>()), a);
}
// One round of AES on every block.
template <size_t N>
inline V<uint8_t, N> AESRound(const V<uint8_t, N>& x, const V<uint8_t, N>& k) {
  V<uint8_t, N> r;
  for (int i = 0; i < kBlocks; ++i) r.b[i] = Round(x.b[i], k.b[i]);
  return r;
}
template <size_t N>
inline V<uint8_t, N> AESLastRound(const V<uint8_t, N>& x, const V<uint8_t, N>& k) {
  V<uint8_t, N> r;
  for (int i = 0; i < kBlocks; ++i) r.b[i] = LastRound(x.b[i], k.b[i]);
  return r;
}

#endif
}  // namespace HWY_NAMESPACE
}  // namespace hwy
#endif
