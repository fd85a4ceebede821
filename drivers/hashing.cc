// Hash families and hash functions of the keyword PIR protocols.
#include "pir/hashing/farm_hash_family.h"
#include "pir/hashing/hash_family.h"
#include "pir/hashing/hash_family_config.h"
#include "pir/hashing/sha256_hash_family.h"
#include "verif.h"
using namespace distributed_point_functions;
using verif::Any; using verif::AnyRef; using verif::Require;
namespace verif_scn {

// SHA-256 family: a value below the bound that is a function of seed || input.
void Sha256InRange() {
  SHA256HashFunction f(Any<absl::string_view>("seed"));
  int bound = Any<int>("bound");
  verif::Assume(bound > 0);
  int r = f(Any<absl::string_view>("input"), bound);
  Require(0 <= r && r < bound, "the hash is at least 0 and below the bound");
}
void Sha256Concatenates() {
  std::string seed = Any<std::string>("seed");
  std::string input = Any<std::string>("input");
  int bound = Any<int>("bound");
  verif::Assume(bound > 0);
  SHA256HashFunction f(seed);
  SHA256HashFunction g("");
  int r = f(input, bound);
  Require(r == g(seed + input, bound), "the hash is the hash of seed followed by input");
  Require(r == f(input, bound), "hashing does not change the hash function");
  Require(verif::Mentions(r, input) && verif::Mentions(r, seed), "the hash depends on seed and input");
}
// The whole digest counts: it is a 256-bit little-endian number (arithmetic is
// unbounded in this scenario).
void Sha256Reduces() {
  std::string seed = Any<std::string>("seed"), input = Any<std::string>("input");
  int bound = Any<int>("bound");
  verif::Assume(bound > 0);
  SHA256HashFunction f(seed);
  int r = f(input, bound);
  SHA256_CTX ctx;
  SHA256_Init(&ctx);
  std::string all = seed + input;
  SHA256_Update(&ctx, all.data(), all.size());
  char digest[SHA256_DIGEST_LENGTH];
  SHA256_Final(reinterpret_cast<unsigned char*>(digest), &ctx);
  absl::uint128 high, low;
  std::copy(reinterpret_cast<unsigned char*>(&digest[16]), reinterpret_cast<unsigned char*>(&digest[16]) + 16, reinterpret_cast<unsigned char*>(&high));
  std::copy(reinterpret_cast<unsigned char*>(&digest[0]), reinterpret_cast<unsigned char*>(&digest[0]) + 16, reinterpret_cast<unsigned char*>(&low));
  const absl::uint128 two64 = absl::MakeUint128(1, 0);
  Require(r == static_cast<int>((high * two64 * two64 + low) % bound), "the hash is the whole digest, reduced by the bound");
}
void FarmInRange() {
  std::string seed = Any<std::string>("seed");
  std::string input = Any<std::string>("input");
  FarmHashFunction f(seed);
  int bound = Any<int>("bound");
  verif::Assume(bound > 0);
  int r = f(input, bound);
  Require(0 <= r && r < bound, "the hash is at least 0 and below the bound");
  Require(verif::Mentions(r, input) && verif::Mentions(r, seed), "the hash depends on seed and input");
  FarmHashFunction g(seed);
  Require(r == g(input, bound), "equal seeds give equal hash functions");
}

HashFamily Base() {
  return HashFamily([](absl::string_view seed) -> HashFunction {
    std::string s = std::string(seed);
    return HashFunction([s](absl::string_view key, int buckets) -> int {
      return verif::Fn<int>("base", s, std::string(key), buckets);
    });
  });
}
void FamilyWithSeedPrepends() {
  std::string a = Any<std::string>("a"), b = Any<std::string>("b"), x = Any<std::string>("x");
  int bound = Any<int>("bound");
  WrapWithSeed w(Base(), a);
  Require(w(b)(x, bound) == Base()(a + b)(x, bound), "the family seed is prepended to the function seed");
}
void FunctionsAreNumbered() {
  int n = Any<int>("n");
  auto fs = CreateHashFunctions(Base(), n);
  Require(fs.ok() == (n >= 0), "refused exactly for a negative number of functions");
  if (!fs.ok()) return;
  Require(fs->size() == n, "the requested number of functions");
  int i = Any<int>("i");
  if (i < 0 || i >= n) return;
  std::string x = Any<std::string>("x");
  int bound = Any<int>("bound");
  Require((*fs)[i](x, bound) == Base()(absl::StrCat(i))(x, bound), "function i has seed i");
}
void ConfigChoosesFamily() {
  const HashFamilyConfig& config = AnyRef<HashFamilyConfig>("config");
  auto f = CreateHashFamilyFromConfig(config);
  Require(f.ok() == (!config.seed().empty() && config.hash_family() == HashFamilyConfig::HASH_FAMILY_SHA256),
          "accepted exactly with a seed and a known family");
  if (!f.ok()) return;
  std::string s = Any<std::string>("s"), x = Any<std::string>("x");
  int bound = Any<int>("bound");
  verif::Assume(bound > 0);
  SHA256HashFunction g(config.seed() + s);
  Require((*f)(s)(x, bound) == g(x, bound), "SHA-256 under the seed of the configuration");
}
}  // namespace verif_scn
