// The vectorised evaluation of seeds and the vectorised fixed-key hash.  The
// including file chooses the number of blocks in a vector.
#include "dpf/internal/evaluate_prg_hwy.cc"
#include "verif.h"
using verif::Any; using verif::AnyRef; using verif::Require; using verif::Assume;
namespace verif_scn {
namespace HWY_NAMESPACE {
using namespace distributed_point_functions;
using absl::uint128;
namespace kernel = distributed_point_functions::dpf_internal::HWY_NAMESPACE;
namespace hn = hwy::HWY_NAMESPACE;
using D8 = hn::ScalableTag<uint8_t>;
using V8 = hn::Vec<D8>;
using M64 = hn::Mask<hn::Repartition<uint64_t, D8>>;
constexpr int B = hn::kBlocks;

// The fixed-key hash (decided by its own properties): a function of key and block.
inline uint128 Hash(uint128 key, uint128 block) { return verif::Fn<uint128>("H", key, block); }
inline void ModelHashOne(D8, V8 in, M64 mask, const uint8_t* k0, const uint8_t* k1, V8& out) {
  const uint128 left = *reinterpret_cast<const uint128*>(k0), right = *reinterpret_cast<const uint128*>(k1);
  V8 r;
  for (int i = 0; i < B; ++i) {
    Require(mask.m[2 * i] == mask.m[2 * i + 1], "the halves of a block use the same key");
    r.b[i] = Hash(mask.m[2 * i] ? right : left, in.b[i]);
  }
  out = r;
}
inline void ModelHashFour(D8 d, V8 in0, V8 in1, V8 in2, V8 in3, M64 m0, M64 m1, M64 m2, M64 m3,
                          const uint8_t* k0, const uint8_t* k1, V8& out0, V8& out1, V8& out2, V8& out3) {
  ModelHashOne(d, in0, m0, k0, k1, out0);
  ModelHashOne(d, in1, m1, k0, k1, out1);
  ModelHashOne(d, in2, m2, k0, k1, out2);
  ModelHashOne(d, in3, m3, k0, k1, out3);
}

struct Node { uint128 seed; bool control; };
inline Node Child(Node n, uint128 key, uint128 word, bool control) {
  uint128 s = Hash(key, n.seed);
  s ^= n.control ? word : uint128{0};
  Node r;
  r.control = (s & 1) != 0;
  r.seed = s & ~uint128{1};
  r.control ^= n.control && control;
  return r;
}
inline bool Bit(uint128 path, int i) { return i < 128 && (path & (uint128{1} << i)) != 0; }
inline bool Aligned(const uint128* p) { return reinterpret_cast<uintptr_t>(p) % (16 * B) == 0; }

template <int kSeeds, int kLevels, int kShift, bool kPerSeed, bool kInPlace = false, bool kPortable = false, int kFirst = 0>
void Walks() {
  constexpr int kWords = kPerSeed ? kSeeds * kLevels : kLevels;
  uint128 s[kSeeds], path[kSeeds], other[kSeeds], c[kWords];
  bool b[kSeeds], other_b[kSeeds], l[kWords], r[kWords];
  uint128 start[kSeeds];
  bool start_b[kSeeds];
  for (int i = 0; i < kSeeds; ++i) {
    start[i] = s[i] = verif::Fresh<uint128>("seed");
    path[i] = verif::Fresh<uint128>("path");
    start_b[i] = b[i] = verif::Fresh<bool>("bit");
  }
  for (int i = 0; i < kWords; ++i) {
    c[i] = verif::Fresh<uint128>("word");
    l[i] = verif::Fresh<bool>("left");
    r[i] = verif::Fresh<bool>("right");
  }
  uint128* out = kInPlace ? s : other;
  bool* out_b = kInPlace ? b : other_b;
  Assume(Aligned(s) && Aligned(path) && Aligned(c) && Aligned(out));
  Aes128FixedKeyHash h0(nullptr, Any<uint128>("k0")), h1(nullptr, Any<uint128>("k1"));
  absl::Status status = kPortable ? dpf_internal::EvaluateSeedsNoHwy(kSeeds, kLevels, kWords, s, b, path, kShift, c, l, r, h0, h1, out, out_b)
                                  : kernel::EvaluateSeedsHwy(kSeeds, kLevels, kWords, s, b, path, kShift, c, l, r, h0, h1, out, out_b);
  if (!status.ok()) return;
  for (int i = kFirst; i < kSeeds; ++i) {
    Node n{start[i], start_b[i]};
    for (int j = 0; j < kLevels; ++j) {
      const bool bit = Bit(path[i], kLevels - 1 - j + kShift);
      const int k = kPerSeed ? j * kSeeds + i : j;
      n = Child(n, bit ? h1.key() : h0.key(), c[k], bit ? r[k] : l[k]);
    }
    Require(out[i] == n.seed, "each seed follows its path");
    Require(out_b[i] == n.control, "each control bit follows its path");
  }
}

// The fixed-key hash: AES of sigma(x), xored with sigma(x), under the key each
// block asks for.
inline uint128 Aes(const uint128* k, uint128 x) {
  x = x ^ k[0];
  for (int r = 1; r < 10; ++r) x = hn::Round(x, k[r]);
  return hn::LastRound(x, k[10]);
}
inline uint128 Expected(const uint128* k, uint128 x) {
  // (high ^ low, high)
  const uint128 sigma = absl::MakeUint128(absl::Uint128Low64(x), absl::Uint128High64(x)) ^ (x & absl::MakeUint128(~uint64_t{0}, 0));
  return Aes(k, sigma) ^ sigma;
}
struct Input {
  V8 in;
  bool right[B];
  M64 mask;
};
inline Input Blocks() {
  Input x;
  for (int i = 0; i < B; ++i) {
    x.in.b[i] = verif::Fresh<uint128>("block");
    x.right[i] = x.mask.m[2 * i] = x.mask.m[2 * i + 1] = verif::Fresh<bool>("right");
  }
  return x;
}
inline void Check(const Input& x, const V8& out, const uint128* k0, const uint128* k1) {
  for (int i = 0; i < B; ++i) {
    const uint128 a = Expected(k0, x.in.b[i]), b = Expected(k1, x.in.b[i]);
    Require(out.b[i] == (x.right[i] ? b : a), "every block is hashed under the key it asks for");
  }
}
inline void Hashes() {
  HWY_ALIGN uint128 k0[11], k1[11];
  for (int i = 0; i < 11; ++i) {
    k0[i] = verif::Fresh<uint128>("k0");
    k1[i] = verif::Fresh<uint128>("k1");
  }
  const uint8_t *p0 = reinterpret_cast<const uint8_t*>(k0), *p1 = reinterpret_cast<const uint8_t*>(k1);
  Input x[4];
  V8 out[4];
  for (int i = 0; i < 4; ++i) {
    x[i] = Blocks();
    out[i] = x[i].in;
  }
  kernel::HashOneWithKeyMask(D8(), out[0], x[0].mask, p0, p1, out[0]);
  Check(x[0], out[0], k0, k1);
  out[0] = x[0].in;
  kernel::HashFourWithKeyMask(D8(), out[0], out[1], out[2], out[3], x[0].mask, x[1].mask, x[2].mask, x[3].mask, p0, p1, out[0], out[1], out[2], out[3]);
  for (int i = 0; i < 4; ++i) Check(x[i], out[i], k0, k1);
}
inline absl::Status ModelHash(const Aes128FixedKeyHash* h, absl::Span<const uint128> in, absl::Span<uint128> out) {
  if (in.size() != out.size()) return absl::InvalidArgumentError("");
  std::vector<uint128> r(in.size());
  for (int64_t i = 0; i < in.size(); ++i) r[i] = Hash(h->key(), in[i]);
  for (int64_t i = 0; i < in.size(); ++i) out[i] = r[i];
  return absl::OkStatus();
}

// Which implementation runs, on one seed.
constexpr int kVector = 0, kPortable = 1;
inline uint128 Seen(int who, int64_t n, int levels, int words, uint128 s, bool b, uint128 path, int shift, uint128 c, bool l, bool r, uint128 k0, uint128 k1) {
  return verif::Fn<uint128>("evaluated", who, n, levels, words, s, b, path, shift, c, l, r, k0, k1);
}
inline absl::Status ModelHwy(int64_t n, int levels, int words, const uint128* s, const bool* b, const uint128* path, int shift, const uint128* c,
                             const bool* l, const bool* r, const Aes128FixedKeyHash& h0, const Aes128FixedKeyHash& h1, uint128* out, bool* out_b) {
  *out = Seen(kVector, n, levels, words, *s, *b, *path, shift, *c, *l, *r, h0.key(), h1.key());
  *out_b = (*out & 1) != 0;
  return absl::OkStatus();
}
inline absl::Status ModelNoHwy(int64_t n, int levels, int words, const uint128* s, const bool* b, const uint128* path, int shift, const uint128* c,
                               const bool* l, const bool* r, const Aes128FixedKeyHash& h0, const Aes128FixedKeyHash& h1, uint128* out, bool* out_b) {
  *out = Seen(kPortable, n, levels, words, *s, *b, *path, shift, *c, *l, *r, h0.key(), h1.key());
  *out_b = (*out & 1) != 0;
  return absl::OkStatus();
}
template <bool kDispatch>
void Chooses() {
  const uint128 seed = Any<uint128>("seed"), path = Any<uint128>("path"), word = Any<uint128>("word");
  const bool bit = Any<bool>("bit"), left = Any<bool>("left"), right = Any<bool>("right");
  uint128 s[1] = {seed}, p[1] = {path}, c[1] = {word}, out[1] = {Any<uint128>("before")};
  bool b[1] = {bit}, l[1] = {left}, r[1] = {right}, out_b[1] = {Any<bool>("before_b")};
  const uint128 before = out[0];
  const bool before_b = out_b[0];
  const int64_t n = Any<int64_t>("n");
  const int levels = Any<int>("levels"), words = Any<int>("words"), shift = Any<int>("shift");
  Assume(n >= 0 && levels >= 0 && words >= 0 && n < (int64_t{1} << 32));
  Aes128FixedKeyHash h0(nullptr, Any<uint128>("k0")), h1(nullptr, Any<uint128>("k1"));
  if constexpr (kDispatch) {
    absl::Status status = dpf_internal::EvaluateSeeds(n, levels, words, s, b, p, shift, c, l, r, h0, h1, out, out_b);
    if (words == levels || words == levels * n) {
      const uint128 want = Seen(kVector, n, levels, words, seed, bit, path, shift, word, left, right, h0.key(), h1.key());
      Require(status.ok() && out[0] == want && out_b[0] == ((want & 1) != 0), "the vectorised evaluation gets all of the input");
    } else {
      Require(status.code() == absl::StatusCode::kInvalidArgument, "other numbers of correction words are refused");
      Require(out[0] == before && out_b[0] == before_b, "nothing is evaluated with other numbers of correction words");
    }
  } else {
    Assume(!Aligned(s) || !Aligned(p) || !Aligned(c) || !Aligned(out));
    absl::Status status = kernel::EvaluateSeedsHwy(n, levels, words, s, b, p, shift, c, l, r, h0, h1, out, out_b);
    if (n == 0 || levels == 0) {
      Require(status.ok() && out[0] == before && out_b[0] == before_b, "without seeds or levels there is nothing to do");
    } else {
      const uint128 want = Seen(kPortable, n, levels, words, seed, bit, path, shift, word, left, right, h0.key(), h1.key());
      Require(status.ok() && out[0] == want && out_b[0] == ((want & 1) != 0), "unaligned data is evaluated by the portable implementation");
    }
  }
}
constexpr int kMany = B == 1 ? 9 : 10 * B - 1;
constexpr int kFew = B == 1 ? 5 : B == 2 ? 3 : 7;
}  // namespace HWY_NAMESPACE
}  // namespace verif_scn
