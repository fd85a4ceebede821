// The fixed-key hash, creation of functions, randomness of keys, and samples.
#include "dpf_models.h"
#include "dpf/aes_128_fixed_key_hash.h"
#include "dpf/internal/proto_validator.h"
#include "dpf/internal/value_type_helpers.h"
#include "openssl/evp.h"
using verif::Any; using verif::AnyRef; using verif::Require; using verif::Assume;
namespace verif_scn {
namespace di = distributed_point_functions::dpf_internal;
inline bool Invalid(const absl::Status& s) { return s.code() == absl::StatusCode::kInvalidArgument; }

// ------------------------------------------------------------- fixed-key hash
inline uint128 Aes(uint128 block) { return verif::Fn<uint128>("AES", block); }
inline int ModelCipher(EVP_CIPHER_CTX*, uint8_t* out, const uint8_t* in, unsigned n) {
  if (Any<bool>("encryption fails")) return 0;
  const uint128* i = reinterpret_cast<const uint128*>(in);
  uint128* o = reinterpret_cast<uint128*>(out);
  for (unsigned k = 0; k < n / 16; ++k) o[k] = Aes(i[k]);
  return 1;
}
inline uint128 Sigma(uint128 x) { return absl::MakeUint128(absl::Uint128High64(x) ^ absl::Uint128Low64(x), absl::Uint128High64(x)); }
template <int kBlocks, int kFirst>
void HashesBlocks(bool in_place) {
  Aes128FixedKeyHash h(nullptr, verif::Fresh<uint128>("key"));
  std::vector<uint128> in, out(kBlocks);
  for (int i = 0; i < kBlocks; ++i) in.push_back(verif::Fresh<uint128>("block"));
  std::vector<uint128> before = in;
  absl::Status s = h.Evaluate(in, absl::MakeSpan(in_place ? in : out));
  Require(s.ok() == !Any<bool>("encryption fails"), "hashing succeeds exactly if encryption does");
  if (!s.ok()) return;
  const std::vector<uint128>& r = in_place ? in : out;
  for (int i = kFirst; i < kBlocks; ++i) Require(r[i] == (Aes(Sigma(before[i])) ^ Sigma(before[i])), "a block x is hashed to AES(sigma(x)) xor sigma(x)");
}
void HashBlocks() { HashesBlocks<3, 0>(false); }
void HashInPlace() { HashesBlocks<2, 0>(true); }
void HashManyBlocks() { HashesBlocks<66, 62>(false); }
void HashManyInPlace() { HashesBlocks<66, 62>(true); }
void HashSizes() {
  Aes128FixedKeyHash h(nullptr, verif::Fresh<uint128>("key"));
  absl::Span<const uint128> in = Any<absl::Span<const uint128>>("in");
  absl::Span<uint128> out = Any<absl::Span<uint128>>("out");
  Assume(in.size() != out.size());
  Require(Invalid(h.Evaluate(in, out)), "as many blocks go out as come in");
  std::vector<uint128> none;
  Require(h.Evaluate(none, absl::MakeSpan(none)).ok(), "there may be no blocks");
}
inline int ModelInit(EVP_CIPHER_CTX*, const EVP_CIPHER* cipher, ENGINE*, const uint8_t* key, const uint8_t* iv) {
  Require(*reinterpret_cast<const uint128*>(key) == Any<uint128>("key"), "the cipher has the key of the hash");
  Require(cipher == EVP_aes_128_ecb() && iv == nullptr, "the cipher is AES-128 on single blocks");
  return Any<bool>("setup fails") ? 0 : 1;
}
void HashCreate() {
  absl::StatusOr<Aes128FixedKeyHash> h = Aes128FixedKeyHash::Create(Any<uint128>("key"));
  if (Any<bool>("setup fails")) Require(!h.ok(), "a hash is not made from a failed cipher");
  if (h.ok()) Require(h->key() == Any<uint128>("key"), "the hash knows its key");
}

// ------------------------------------------------------------------- creation
inline absl::StatusOr<std::unique_ptr<di::ProtoValidator>> ModelValidator(absl::Span<const DpfParameters> p) {
  if (Any<bool>("parameters are refused")) return absl::InvalidArgumentError("");
  absl::flat_hash_map<int, int> inverse;
  inverse[3] = 0;
  inverse[7] = 1;
  return absl::WrapUnique(new di::ProtoValidator(std::vector<DpfParameters>(p.begin(), p.end()), 8, std::move(inverse), {3, 7}));
}
inline absl::StatusOr<int> ModelBits(const ValueType& t, double security) {
  if (Any<bool>("the type is refused")) return absl::InvalidArgumentError("");
  int bits = verif::Fn<int>("bits", t, security);
  Assume(bits > 0 && bits < 1000000);
  return bits;
}
inline absl::StatusOr<Aes128FixedKeyHash> ModelCreateHash(uint128 key) {
  if (Any<bool>("no hash")) return absl::InternalError("");
  return Aes128FixedKeyHash(nullptr, key);
}
// A string that determines the type: its alternative and size.
inline absl::StatusOr<std::string> ModelSerialize(const ValueType& t) {
  std::string s;
  s.push_back(static_cast<char>('a' + t.type_case()));
  if (t.type_case() == ValueType::kInteger) s.push_back(static_cast<char>(t.integer().bitsize()));
  if (t.type_case() == ValueType::kXorWrapper) s.push_back(static_cast<char>(t.xor_wrapper().bitsize()));
  return s;
}
template <typename T>
void Registered(const Dpf& dpf) {
  absl::StatusOr<Dpf::ValueCorrectionFunction> f = dpf.GetValueCorrectionFunction(Parameters<T>(2));
  Require(f.ok() && *f == di::ComputeValueCorrectionFor<T>, "integers of every size are corrected by their own function");
}
void CreatesFunction() {
  std::vector<DpfParameters> p = {Parameters<uint64_t>(4), Parameters<XorWrapper<uint32_t>>(9)};
  absl::StatusOr<std::unique_ptr<Dpf>> r = Dpf::CreateIncremental(p);
  bool bad = Any<bool>("parameters are refused") || Any<bool>("the type is refused") || Any<bool>("no hash");
  Require(r.ok() == !bad, "a function exists exactly if its parts do");
  if (!r.ok()) return;
  Dpf& dpf = **r;
  Require(dpf.parameters_.size() == 2 && dpf.parameters_[0].log_domain_size() == 4 && dpf.parameters_[1].log_domain_size() == 9, "the function has its parameters, in order");
  Require(dpf.tree_levels_needed_ == 8 && dpf.hierarchy_to_tree_.size() == 2 && dpf.hierarchy_to_tree_[0] == 3 && dpf.hierarchy_to_tree_[1] == 7, "its tree is the one laid out");
  Require(dpf.tree_to_hierarchy_.contains(3) && dpf.tree_to_hierarchy_.at(3) == 0 && dpf.tree_to_hierarchy_.at(7) == 1, "levels of the tree are mapped back");
  for (int i = 0; i < 2; ++i) {
    int bits = verif::Fn<int>("bits", p[i].value_type(), p[i].security_parameter());
    Require(dpf.blocks_needed_[i] * 128 >= bits && (dpf.blocks_needed_[i] - 1) * 128 < bits, "every level hashes as many blocks as its values need");
  }
  Require(dpf.prg_left_.key() == absl::MakeUint128(0x5be037ccf6a03de5ull, 0x935f08d0a5b6a2fdull), "the left hash has its fixed key");
  Require(dpf.prg_right_.key() == absl::MakeUint128(0xef94b6aedebb026cull, 0xe2ea1fe0f66f4d0bull), "the right hash has its fixed key");
  Require(dpf.prg_value_.key() == absl::MakeUint128(0x05a5d1588c5423e3ull, 0x46a31101b21d1c98ull), "the hash of values has its fixed key");
  Registered<uint8_t>(dpf);
  Registered<uint16_t>(dpf);
  Registered<uint32_t>(dpf);
  Registered<uint64_t>(dpf);
  Registered<uint128>(dpf);
  Require(dpf.GetValueCorrectionFunction(p[1]).status().code() == absl::StatusCode::kFailedPrecondition, "other types are unknown until they are registered");
  if (!dpf.RegisterValueType<XorWrapper<uint32_t>>().ok()) return;
  absl::StatusOr<Dpf::ValueCorrectionFunction> f = dpf.GetValueCorrectionFunction(p[1]);
  Require(f.ok() && *f == di::ComputeValueCorrectionFor<XorWrapper<uint32_t>>, "registered types are corrected by their own function");
  Registered<uint32_t>(dpf);
}
void CreatesOneLevel() {
  DpfParameters p = Parameters<uint64_t>(4);
  absl::StatusOr<std::unique_ptr<Dpf>> r = Dpf::Create(p);
  if (!r.ok()) return;
  Require((*r)->parameters_.size() == 1 && (*r)->parameters_[0].log_domain_size() == 4, "a function of one level has its parameters");
}

// ---------------------------------------------------------- randomness of keys
absl::StatusOr<Dpf::ValueCorrectionFunction> ModelUint128(const Dpf*, const DpfParameters&) { return di::ComputeValueCorrectionFor<uint128>; }
void KeysAreRandom() {
  std::unique_ptr<Dpf> dpf = Make({Parameters<uint128>(1), Parameters<uint128>(2)}, {1, 2}, {1, 1});
  uint128 alpha = Any<uint128>("alpha");
  std::vector<uint128> beta = {verif::Fresh<uint128>("beta"), verif::Fresh<uint128>("beta")};
  std::vector<Value> values;
  for (int i = 0; i < 2; ++i) values.push_back(di::ValueTypeHelper<uint128>::ToValue(beta[i]));
  absl::StatusOr<std::pair<DpfKey, DpfKey>> r = dpf->GenerateKeysIncremental(alpha, values);
  if (!r.ok()) return;
  const DpfKey& a = r->first;
  const DpfKey& b = r->second;
  Require(a.party() == 0 && b.party() == 1, "the keys are those of party 0 and 1, in order");
  Require(verif::Random(ToBlock(a.seed())) && verif::Random(ToBlock(b.seed())), "both seeds come from the generator");
  Require(!verif::Mentions(a.seed(), ToBlock(b.seed())) && !verif::Mentions(b.seed(), ToBlock(a.seed())), "the seeds are drawn independently");
  Require(!verif::Mentions(a.seed(), alpha) && !verif::Mentions(b.seed(), alpha), "the seeds say nothing about alpha");
  Require(!verif::Mentions(a.seed(), beta[0]) && !verif::Mentions(b.seed(), beta[1]), "the seeds say nothing about beta");
  Require(a.correction_words_size() == 2 && b.correction_words_size() == 2, "there is one correction word below the root for every level of the tree");
  if (a.correction_words_size() != 2 || b.correction_words_size() != 2) return;
  for (int i = 0; i < 2; ++i) {
    const CorrectionWord& c = a.correction_words(i);
    const CorrectionWord& d = b.correction_words(i);
    Require(ToBlock(c.seed()) == ToBlock(d.seed()) && c.control_left() == d.control_left() && c.control_right() == d.control_right(), "both keys have the same corrections of seeds");
    Require(verif::Mentions(c.seed(), ToBlock(a.seed())) && verif::Mentions(c.seed(), ToBlock(b.seed())), "corrections of seeds hide alpha behind both seeds");
    Require(c.value_correction_size() == d.value_correction_size(), "both keys have value corrections at the same levels");
    for (int j = 0; j < c.value_correction_size(); ++j) Require(ToBlock(c.value_correction(j).integer().value_uint128()) == ToBlock(d.value_correction(j).integer().value_uint128()), "both keys have the same corrections of values");
  }
  Require(a.last_level_value_correction_size() == 1 && b.last_level_value_correction_size() == 1, "the last level has its correction");
  if (a.last_level_value_correction_size() != 1 || b.last_level_value_correction_size() != 1) return;
  uint128 last = ToBlock(a.last_level_value_correction(0).integer().value_uint128());
  Require(last == ToBlock(b.last_level_value_correction(0).integer().value_uint128()), "both keys have the same last correction");
  Require(verif::Mentions(last, ToBlock(a.seed())) && verif::Mentions(last, ToBlock(b.seed())), "the last correction hides beta behind both seeds");
}

// --------------------------------------------------------------------- samples
template <typename M, typename T, int kSamples>
void SamplesLike() {
  using B = typename M::Base;
  constexpr int kBytes = 16 + (kSamples - 1) * sizeof(B);
  std::string bytes;
  for (int i = 0; i < kBytes; ++i) bytes.push_back(verif::Fresh<char>("byte"));
  std::vector<M> samples(kSamples);
  M::template UnsafeSampleFromBytes<kSamples>(bytes, 40, absl::MakeSpan(samples));
  T converted = di::FromBytes<T>(bytes);
  uint128 first = di::FromBytes<uint128>(absl::string_view(bytes).substr(0, 16));
  Require(uint128{samples[0].value()} == first % uint128{M::modulus()}, "the first sample is the residue of the first block");
  Require(samples[0].value() == std::get<0>(converted.value()).value(), "the first element of a tuple is the first sample");
  Require(samples[1].value() == std::get<1>(converted.value()).value(), "the second element of a tuple is the second sample");
}
using Mod32 = IntModN<uint32_t, 4294967291u>;
using Mod64 = IntModN<uint64_t, 18446744073709551557ull>;
constexpr unsigned __int128 kMod128 = (unsigned __int128)(absl::MakeUint128(65535u, 18446744073709551551ull));
using Mod128 = IntModN<uint128, kMod128>;
void SamplesMod32() { SamplesLike<Mod32, Tuple<Mod32, Mod32>, 2>(); }
void SamplesMod64() { SamplesLike<Mod64, Tuple<Mod64, Mod64>, 2>(); }
void SamplesMod128() { SamplesLike<Mod128, Tuple<Mod128, Mod128>, 2>(); }
void SamplesApart() {
  std::string bytes;
  for (int i = 0; i < 32; ++i) bytes.push_back(verif::Fresh<char>("byte"));
  std::vector<Mod128> samples(2);
  Mod128::UnsafeSampleFromBytes<2>(bytes, 40, absl::MakeSpan(samples));
  uint128 second = di::FromBytes<uint128>(absl::string_view(bytes).substr(16, 16));
  Require(uint128{samples[1].value()} == second % uint128{Mod128::modulus()}, "samples of 128 bits are drawn from blocks of their own");
}
template <typename M>
void SamplesRefused() {
  std::string bytes = Any<std::string>("bytes");
  double security = Any<double>("security");
  std::vector<M> samples(Any<bool>("two") ? 2 : 1);
  absl::StatusOr<int> needed = M::GetNumBytesRequired(samples.size(), security);
  absl::Status s = M::SampleFromBytes(bytes, security, absl::MakeSpan(samples));
  Require(s.ok() == (needed.ok() && bytes.size() >= *needed), "samples are drawn exactly from enough bytes");
  if (needed.ok()) Require(*needed >= 16 + (static_cast<int>(samples.size()) - 1) * static_cast<int>(sizeof(typename M::Base)), "the bytes required are enough for the samples");
  std::vector<M> none;
  Require(!M::SampleFromBytes(bytes, security, absl::MakeSpan(none)).ok(), "there is at least one sample");
}
void SamplesRefused32() { SamplesRefused<Mod32>(); }
void SamplesRefused64() { SamplesRefused<Mod64>(); }

// --------------------------------------------------------------- sizes refused
void SeedsRefused() {
  const Dpf& dpf = AnyRef<Dpf>("dpf");
  const absl::Span<const uint128> seeds = Any<absl::Span<const uint128>>("seeds"), paths = Any<absl::Span<const uint128>>("paths");
  const absl::Span<const bool> bits = Any<absl::Span<const bool>>("bits");
  const absl::Span<uint128> out = Any<absl::Span<uint128>>("out");
  const absl::Span<bool> bits_out = Any<absl::Span<bool>>("bits out");
  const absl::Span<const CorrectionWord* const> words = Any<absl::Span<const CorrectionWord* const>>("words");
  Assume(seeds.size() != bits.size() || seeds.size() != paths.size() || seeds.size() != out.size() || seeds.size() != bits_out.size());
  Require(Invalid(dpf.EvaluateSeeds(seeds, bits, paths, words, out, bits_out)), "as many seeds, bits and paths go in as come out");
}
void ExpansionsRefused() {
  const Dpf& dpf = AnyRef<Dpf>("dpf");
  const Dpf::DpfExpansion& start = AnyRef<Dpf::DpfExpansion>("start");
  const absl::Span<const CorrectionWord* const> words = Any<absl::Span<const CorrectionWord* const>>("words");
  Assume(words.size() >= 63 && words.size() < (1 << 30));
  Require(Invalid(dpf.ExpandSeeds(start, words).status()), "expansions that do not fit into memory are refused");
}
}  // namespace verif_scn
