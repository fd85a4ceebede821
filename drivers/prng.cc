// Seeded and unseeded random generators.
#include "dcf/fss_gates/prng/basic_rng.h"
#include "pir/prng/aes_128_ctr_seeded_prng.h"
#include "verif.h"
using namespace distributed_point_functions;
using verif::Any; using verif::AnyRef; using verif::Require;
namespace verif_scn {
void PrngSeedSize() {
  std::string seed = Any<std::string>("seed"), nonce = Any<std::string>("nonce");
  auto p = Aes128CtrSeededPrng::Create(seed);
  Require(!p.ok() || seed.size() == 16, "only 16-byte seeds are accepted");
  auto q = Aes128CtrSeededPrng::CreateWithNonce(seed, nonce);
  Require(!q.ok() || (seed.size() == 16 && nonce.size() == 16), "only 16-byte nonces are accepted");
  auto s = Aes128CtrSeededPrng::GenerateSeed();
  Require(s.ok() && s->size() == 16, "generated seeds are accepted");
  Require(verif::Random(*s), "generated seeds are random");
}
void PrngStream() {
  std::string seed = Any<std::string>("seed"), nonce = Any<std::string>("nonce");
  auto p = Aes128CtrSeededPrng::CreateWithNonce(seed, nonce);
  auto q = Aes128CtrSeededPrng::CreateWithNonce(seed, nonce);
  if (!p.ok() || !q.ok()) return;
  size_t m = Any<size_t>("m"), n = Any<size_t>("n");
  std::string a = (*p)->GetRandomBytes(m);
  std::string b = (*p)->GetRandomBytes(n);
  std::string c = (*q)->GetRandomBytes(m + n);
  Require(a.size() == m && b.size() == n, "the requested number of bytes");
  Require(verif::Same(c, a + b), "the stream does not depend on how it is read");
  Require(verif::Mentions(a, seed) && verif::Mentions(a, nonce), "the stream depends on seed and nonce");
}
void PrngDefaultNonce() {
  std::string seed = Any<std::string>("seed");
  auto p = Aes128CtrSeededPrng::Create(seed);
  auto q = Aes128CtrSeededPrng::CreateWithNonce(seed, std::string(16, '\0'));
  if (!p.ok() || !q.ok()) return;
  size_t m = Any<size_t>("m");
  Require(verif::Same((*p)->GetRandomBytes(m), (*q)->GetRandomBytes(m)), "the default nonce is zero");
}
void BasicRngFresh() {
  auto r = BasicRng::Create("");
  if (!r.ok()) return;
  auto a = (*r)->Rand8();
  auto b = (*r)->Rand64();
  auto c = (*r)->Rand128();
  auto d = (*r)->Rand128();
  if (!a.ok() || !b.ok() || !c.ok() || !d.ok()) return;
  Require(verif::Random(*a), "8 random bits");
  Require(verif::Random(*b), "64 random bits");
  Require(verif::Random(*c), "128 random bits");
  Require(!verif::Mentions(*d, *c), "every call draws anew");
}
}  // namespace verif_scn
