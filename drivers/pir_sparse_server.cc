// Servers of the keyword (sparse) PIR protocols.
#include "pir/dense_dpf_pir_client.h"
#include "pir/cuckoo_hashing_sparse_dpf_pir_client.h"
#include "pir/cuckoo_hashing_sparse_dpf_pir_server.h"
#include "pir/simple_hashing_sparse_dpf_pir_client.h"
#include "pir/simple_hashing_sparse_dpf_pir_server.h"
#include "pir/dense_dpf_pir_server.h"
#include "pir_models.h"
using namespace distributed_point_functions;
using verif::Any; using verif::AnyRef; using verif::Require;
namespace verif_scn {
using Cuckoo = CuckooHashingSparseDpfPirServer;
using Simple = SimpleHashingSparseDpfPirServer;

struct CuckooTraits {
  using Server = Cuckoo;
  using Params = CuckooHashingParams;
  using Record = std::pair<std::string, std::string>;
  static bool Usable(const Params& p) { return p.num_hash_functions() > 0; }
  static const Params& Of(const PirServerPublicParams& p) { return p.cuckoo_hashing_sparse_dpf_pir_server_params(); }
};
struct SimpleTraits {
  using Server = Simple;
  using Params = SimpleHashingParams;
  using Record = std::string;
  static bool Usable(const Params& p) { return true; }
  static const Params& Of(const PirServerPublicParams& p) { return p.simple_hashing_sparse_dpf_pir_server_params(); }
};

template <typename T>
void ServerCreate() {
  using S = typename T::Server;
  using Db = typename S::Database;
  const typename T::Params& params = AnyRef<typename T::Params>("params");
  auto db = Any<std::unique_ptr<Db>>("db");
  bool null_db = db == nullptr;
  size_t bits = null_db ? 0 : db->num_selection_bits();
  int which = Any<int>("which");
  auto sender = Any<typename S::ForwardHelperRequestFn>("sender");
  auto decrypter = Any<typename S::DecryptHelperRequestFn>("decrypter");
  bool null_sender = sender == nullptr;
  bool null_decrypter = decrypter == nullptr;
  absl::StatusOr<std::unique_ptr<S>> server;
  if (which == 0) {
    server = S::CreatePlain(params, std::move(db));
  } else if (which == 1) {
    server = S::CreateLeader(params, std::move(db), std::move(sender));
  } else {
    server = S::CreateHelper(params, std::move(db), std::move(decrypter));
  }
  if (!server.ok()) return;
  Require(params.num_buckets() > 0, "positive number of buckets");
  Require(T::Usable(params), "positive number of hash functions");
  Require(params.hash_family_config().hash_family() != HashFamilyConfig::HASH_FAMILY_UNSPECIFIED, "a hash family is configured");
  Require(!null_db, "a database is given");
  Require(bits == params.num_buckets(), "the database has one selection bit per bucket");
  if (which == 0) {
    Require((*server)->role() == DpfPirServer::Role::kPlain, "plain role");
  } else if (which == 1) {
    Require(!null_sender, "a leader needs a sender");
    Require((*server)->role() == DpfPirServer::Role::kLeader, "leader role");
  } else {
    Require(!null_decrypter, "a helper needs a decrypter");
    Require((*server)->role() == DpfPirServer::Role::kHelper, "helper role");
  }
  const typename T::Params& pub = T::Of((*server)->GetPublicParams());
  Require(verif::Same(pub, params), "the server publishes its parameters");
}
void CuckooServerCreate() { ServerCreate<CuckooTraits>(); }
void SimpleServerCreate() { ServerCreate<SimpleTraits>(); }

template <typename T>
void ServerAccepts() {
  using S = typename T::Server;
  const typename T::Params& params = AnyRef<typename T::Params>("params");
  auto db = Any<std::unique_ptr<typename S::Database>>("db");
  verif::Assume(db != nullptr && params.num_buckets() > 0 && T::Usable(params));
  verif::Assume(params.hash_family_config().hash_family() == HashFamilyConfig::HASH_FAMILY_SHA256);
  verif::Assume(db->num_selection_bits() == params.num_buckets());
  int which = Any<int>("which");
  auto sender = Any<typename S::ForwardHelperRequestFn>("sender");
  auto decrypter = Any<typename S::DecryptHelperRequestFn>("decrypter");
  verif::Assume(sender != nullptr && decrypter != nullptr);
  absl::StatusOr<std::unique_ptr<S>> server;
  if (which == 0) {
    server = S::CreatePlain(params, std::move(db));
  } else if (which == 1) {
    server = S::CreateLeader(params, std::move(db), std::move(sender));
  } else {
    server = S::CreateHelper(params, std::move(db), std::move(decrypter));
  }
  Require(server.ok(), "matching parameters and database are accepted");
}
void CuckooServerAccepts() { ServerAccepts<CuckooTraits>(); }
void SimpleServerAccepts() { ServerAccepts<SimpleTraits>(); }

template <typename T>
class Capturing : public T::Server::Database {
 public:
  size_t size() const override { return Any<size_t>("dbsize"); }
  size_t num_selection_bits() const override { return Any<size_t>("dbbits"); }
  absl::StatusOr<std::vector<typename T::Record>> InnerProductWith(
      absl::Span<const std::vector<XorWrapper<absl::uint128>>> s) const override {
    selections->assign(s.begin(), s.end());
    return Any<absl::StatusOr<std::vector<typename T::Record>>>("products");
  }
  std::vector<std::vector<XorWrapper<absl::uint128>>>* selections;
};

void CheckAnswers(const DpfPirResponse& out, const std::vector<std::pair<std::string, std::string>>& products) {
  Require(out.masked_response_size() == 2 * products.size(), "a key and a value per inner product");
  int k = Any<int>("k");
  if (k < 0 || k >= products.size()) return;
  Require(verif::Same(out.masked_response(2 * k), products[k].first), "answer 2k is key k");
  Require(verif::Same(out.masked_response(2 * k + 1), products[k].second), "answer 2k+1 is value k");
}
void CheckAnswers(const DpfPirResponse& out, const std::vector<std::string>& products) {
  Require(out.masked_response_size() == products.size(), "one answer per inner product");
  int k = Any<int>("k");
  if (k < 0 || k >= products.size()) return;
  Require(verif::Same(out.masked_response(k), products[k]), "answer k is inner product k");
}

template <typename T>
void SparsePlainEvaluates() {
  using S = typename T::Server;
  std::vector<Selection> selections;
  auto db = std::make_unique<Capturing<T>>();
  db->selections = &selections;
  const typename T::Params& params = AnyRef<typename T::Params>("params");
  auto server = S::CreatePlain(params, std::move(db));
  if (!server.ok()) return;
  const PirRequest& req = AnyRef<PirRequest>("request");
  auto out = (*server)->HandleRequest(req);
  const auto& keys = req.dpf_pir_request().plain_request();
  int fp = Fingerprint(params.hash_family_config().seed());
  auto products = Any<absl::StatusOr<std::vector<typename T::Record>>>("products");
  if (!out.ok()) {
    Require(req.wrapped_pir_request_case() != PirRequest::kDpfPirRequest ||
            req.dpf_pir_request().wrapped_request_case() != DpfPirRequest::kPlainRequest ||
            keys.dpf_key_size() == 0 || !products.ok() ||
            (keys.seed_fingerprint() != 0 && keys.seed_fingerprint() != fp),
            "a plain request with a matching or no fingerprint is answered");
    return;
  }
  Require(req.wrapped_pir_request_case() == PirRequest::kDpfPirRequest &&
          req.dpf_pir_request().wrapped_request_case() == DpfPirRequest::kPlainRequest, "only plain requests are served");
  Require(keys.dpf_key_size() > 0, "an empty request is rejected");
  Require(keys.seed_fingerprint() == 0 || keys.seed_fingerprint() == fp, "a request made for another seed is refused");
  Require(selections.size() == keys.dpf_key_size(), "one selection vector per key");
  int i = Any<int>("i");
  if (i < 0 || i >= keys.dpf_key_size()) return;
  Require(verif::Same(selections[i], verif::Fn<Selection>("evaluate", size_t{0}, keys.dpf_key(i))),
          "selection vector i is the full evaluation of key i");
  Require(products.ok(), "an error of the database is returned");
  Require(out->wrapped_pir_response_case() == PirResponse::kDpfPirResponse, "kind of the response");
  CheckAnswers(out->dpf_pir_response(), *products);
}
void CuckooPlainEvaluates() { SparsePlainEvaluates<CuckooTraits>(); }
void SimplePlainEvaluates() { SparsePlainEvaluates<SimpleTraits>(); }

// Client and helper use the same encryption context, one per protocol.
template <typename T>
void HelperContext(absl::string_view client_context) {
  using S = typename T::Server;
  std::string given, given_info;
  bool called = false;
  auto decrypted = Any<absl::StatusOr<std::string>>("decrypted");
  auto helper = S::CreateHelper(AnyRef<typename T::Params>("params"), Any<std::unique_ptr<typename S::Database>>("db"),
    [&](absl::string_view enc, absl::string_view info) -> absl::StatusOr<std::string> {
      given = std::string(enc);
      given_info = std::string(info);
      called = true;
      return decrypted;
    });
  if (!helper.ok()) return;
  const PirRequest& req = AnyRef<PirRequest>("request");
  auto out = (*helper)->HandleRequest(req);
  if (!out.ok()) return;
  Require(called && decrypted.ok(), "the request is decrypted");
  DpfPirRequest::HelperRequest inner;
  Require(inner.ParseFromString(*decrypted), "plaintexts that are not helper requests are rejected");
  Require(inner.one_time_pad_seed().size() == 16, "the seed has the right size");
  Require(verif::Same(given, req.dpf_pir_request().encrypted_helper_request().encrypted_request()), "the ciphertext of the request is decrypted");
  Require(given_info == std::string(S::kEncryptionContextInfo), "with the context of the protocol");
}
void CuckooHelperDecrypts() { HelperContext<CuckooTraits>(""); }
void SimpleHelperDecrypts() { HelperContext<SimpleTraits>(""); }

void ContextsDiffer() {
  std::string d = std::string(DenseDpfPirServer::kEncryptionContextInfo);
  std::string c = std::string(Cuckoo::kEncryptionContextInfo);
  std::string s = std::string(Simple::kEncryptionContextInfo);
  Require(d != c && d != s && c != s, "the protocols have different encryption contexts");
  Require(!d.empty() && !c.empty() && !s.empty(), "no encryption context is empty");
}

void CuckooParamsGenerated() {
  const PirConfig& config = AnyRef<PirConfig>("config");
  auto p = Cuckoo::GenerateParams(config);
  const auto& cc = config.cuckoo_hashing_sparse_dpf_pir_config();
  bool usable = config.wrapped_pir_config_case() == PirConfig::kCuckooHashingSparseDpfPirConfig &&
      cc.num_elements() > 0 && cc.hash_family() != HashFamilyConfig::HASH_FAMILY_UNSPECIFIED;
  Require(p.ok() == usable, "parameters are generated exactly for usable configurations");
  if (!p.ok()) return;
  Require(p->hash_family_config().hash_family() == cc.hash_family(), "hash family of the configuration");
  Require(p->hash_family_config().seed().size() == 16, "a 16-byte seed");
  Require(p->num_hash_functions() >= 2, "at least two candidate buckets per key");
  auto q = Cuckoo::GenerateParams(config);
  Require(q->num_buckets() == p->num_buckets(), "the number of buckets is determined by the configuration");
  Require(verif::Random(p->hash_family_config().seed()), "the seed is random");
  Require(!verif::Mentions(q->hash_family_config().seed(), p->hash_family_config().seed()), "every call draws a new seed");
}
void SimpleParamsGenerated() {
  const PirConfig& config = AnyRef<PirConfig>("config");
  auto p = Simple::GenerateParams(config);
  const auto& cc = config.simple_hashing_sparse_dpf_pir_config();
  bool usable = config.wrapped_pir_config_case() == PirConfig::kSimpleHashingSparseDpfPirConfig &&
      cc.num_buckets() > 0 && cc.hash_family() != HashFamilyConfig::HASH_FAMILY_UNSPECIFIED;
  Require(p.ok() == usable, "parameters are generated exactly for usable configurations");
  if (!p.ok()) return;
  Require(p->hash_family_config().hash_family() == cc.hash_family(), "hash family of the configuration");
  Require(p->hash_family_config().seed().size() == 16, "a 16-byte seed");
  Require(p->num_buckets() == cc.num_buckets(), "number of buckets of the configuration");
  auto q = Simple::GenerateParams(config);
  Require(verif::Random(p->hash_family_config().seed()), "the seed is random");
  Require(!verif::Mentions(q->hash_family_config().seed(), p->hash_family_config().seed()), "every call draws a new seed");
}

// Client and servers of one protocol use distributed point functions with the
// same parameters.
void DenseParametersAgree() {
  const PirConfig& config = AnyRef<PirConfig>("config");
  auto server = DenseDpfPirServer::CreatePlain(config, Any<std::unique_ptr<DenseDpfPirServer::Database>>("db"));
  auto client = DenseDpfPirClient::Create(config, Any<DenseDpfPirClient::EncryptHelperRequestFn>("encrypter"), Any<absl::string_view>("info"));
  if (!server.ok() || !client.ok()) return;
  Require(verif::Same(*(*server)->dpf_, *(*client)->dpf_), "same DPF parameters");
}
template <typename T, typename C>
void SparseParametersAgree() {
  auto server = T::Server::CreatePlain(AnyRef<typename T::Params>("params"), Any<std::unique_ptr<typename T::Server::Database>>("db"));
  if (!server.ok()) return;
  auto client = C::Create((*server)->GetPublicParams(), Any<typename C::EncryptHelperRequestFn>("encrypter"), Any<absl::string_view>("info"));
  if (!client.ok()) return;
  Require(verif::Same(*(*server)->dpf_, *(*client)->wrapped_client_->dpf_), "same DPF parameters");
  Require((*server)->seed_fingerprint_ == (*client)->seed_fingerprint_, "same seed fingerprint");
}
void CuckooParametersAgree() { SparseParametersAgree<CuckooTraits, CuckooHashingSparseDpfPirClient>(); }
void SimpleParametersAgree() { SparseParametersAgree<SimpleTraits, SimpleHashingSparseDpfPirClient>(); }
}  // namespace verif_scn
