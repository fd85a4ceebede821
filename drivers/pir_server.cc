// Leader, helper and plain roles of the dense PIR server.
#include "pir/dense_dpf_pir_client.h"
#include "pir/dense_dpf_pir_server.h"
#include "pir/dense_dpf_pir_database.h"
#include "verif.h"
using namespace distributed_point_functions;
using verif::Any; using verif::AnyRef; using verif::Require;
namespace verif_scn {

using Db = DenseDpfPirServer::Database;

absl::StatusOr<std::unique_ptr<DenseDpfPirServer>> Leader(
    DenseDpfPirServer::ForwardHelperRequestFn fn) {
  return DenseDpfPirServer::CreateLeader(AnyRef<PirConfig>("config"), Any<std::unique_ptr<Db>>("db"), std::move(fn));
}

// The leader's answer is the bytewise XOR of both answers.
void LeaderCombines() {
  const PirResponse& other = AnyRef<PirResponse>("helper_response");
  auto leader = Leader([&](const PirRequest& r, absl::AnyInvocable<void()> w) -> absl::StatusOr<PirResponse> {
    w();
    return other;
  });
  if (!leader.ok()) return;
  auto plain = DenseDpfPirServer::CreatePlain(AnyRef<PirConfig>("config"), Any<std::unique_ptr<Db>>("db"));
  if (!plain.ok()) return;
  const PirRequest& req = AnyRef<PirRequest>("request");
  PirRequest preq;
  *preq.mutable_dpf_pir_request()->mutable_plain_request() = req.dpf_pir_request().leader_request().plain_request();
  auto mine = (*plain)->HandleRequest(preq);
  auto out = (*leader)->HandleRequest(req);
  if (!out.ok()) return;
  Require(mine.ok(), "the leader's own answer succeeded");
  const DpfPirResponse& a = mine->dpf_pir_response();
  const DpfPirResponse& b = other.dpf_pir_response();
  const DpfPirResponse& c = out->dpf_pir_response();
  Require(a.masked_response_size() == b.masked_response_size(), "both servers answered the same number of queries");
  Require(c.masked_response_size() == a.masked_response_size(), "one combined answer per query");
  int i = Any<int>("i");
  if (i < 0 || i >= c.masked_response_size()) return;
  Require(a.masked_response(i).size() == b.masked_response(i).size(), "both answers have the same length");
  Require(c.masked_response(i).size() == a.masked_response(i).size(), "length of the combined answer");
  int j = Any<int>("j");
  if (j < 0 || j >= c.masked_response(i).size()) return;
  Require(c.masked_response(i)[j] == static_cast<char>(a.masked_response(i)[j] ^ b.masked_response(i)[j]), "the combined answer is the XOR");
}

void LeaderRequiresOwnEvaluation() {
  auto leader = Leader([&](const PirRequest& r, absl::AnyInvocable<void()> w) -> absl::StatusOr<PirResponse> {
    return AnyRef<PirResponse>("helper_response");
  });
  if (!leader.ok()) return;
  auto out = (*leader)->HandleRequest(AnyRef<PirRequest>("request"));
  Require(!out.ok(), "a sender that does not run the callback makes the request fail");
}

void LeaderPropagatesSenderError() {
  absl::Status error = Any<absl::Status>("error");
  verif::Assume(!error.ok());
  bool called = false;
  auto leader = Leader([&](const PirRequest& r, absl::AnyInvocable<void()> w) -> absl::StatusOr<PirResponse> {
    w();
    called = true;
    return error;
  });
  if (!leader.ok()) return;
  auto out = (*leader)->HandleRequest(AnyRef<PirRequest>("request"));
  Require(!out.ok(), "a sender error makes the request fail");
  if (called) Require(verif::Same(out.status(), error), "the sender's error is returned");
}

// What the leader sends to the helper.
void LeaderForwards() {
  const PirRequest& req = AnyRef<PirRequest>("request");
  PirRequest sent;
  bool called = false;
  auto leader = Leader([&](const PirRequest& r, absl::AnyInvocable<void()> w) -> absl::StatusOr<PirResponse> {
    sent = r;
    called = true;
    w();
    return AnyRef<PirResponse>("helper_response");
  });
  if (!leader.ok()) return;
  auto out = (*leader)->HandleRequest(req);
  if (!out.ok()) return;
  Require(called, "the helper is asked");
  Require(req.dpf_pir_request().wrapped_request_case() == DpfPirRequest::kLeaderRequest &&
          req.dpf_pir_request().leader_request().has_plain_request() &&
          req.dpf_pir_request().leader_request().has_encrypted_helper_request(), "only complete leader requests are served");
  Require(sent.dpf_pir_request().wrapped_request_case() == DpfPirRequest::kEncryptedHelperRequest, "the helper gets a helper request");
  Require(verif::Same(sent.dpf_pir_request().encrypted_helper_request(), req.dpf_pir_request().leader_request().encrypted_helper_request()),
          "the ciphertext is forwarded unchanged");
  Require(!verif::Mentions(sent, req.dpf_pir_request().leader_request().plain_request()), "the leader's request is not forwarded");
}

// Captures the selection vectors that a server evaluates.
class CapturingDatabase : public Db {
 public:
  size_t size() const override { return Any<size_t>("dbsize"); }
  size_t num_selection_bits() const override { return Any<size_t>("dbbits"); }
  absl::StatusOr<std::vector<std::string>> InnerProductWith(
      absl::Span<const std::vector<XorWrapper<absl::uint128>>> s) const override {
    selections->assign(s.begin(), s.end());
    return Any<absl::StatusOr<std::vector<std::string>>>("products");
  }
  std::vector<std::vector<XorWrapper<absl::uint128>>>* selections;
};

absl::StatusOr<EvaluationContext> ModelCreateContext(const DistributedPointFunction* dpf, DpfKey key) {
  EvaluationContext c;
  c.set_previous_hierarchy_level(-1);
  *c.mutable_key() = key;
  return c;
}

absl::StatusOr<std::vector<XorWrapper<absl::uint128>>> ModelEvaluateNext(
    const DistributedPointFunction* dpf, absl::Span<const absl::uint128> prefixes, EvaluationContext& ctx) {
  return verif::Fn<std::vector<XorWrapper<absl::uint128>>>("evaluate", prefixes.size(), ctx.key());
}

// The plain answer is the inner product of the database with the evaluation
// of every key, in the order of the request.
void PlainEvaluates() {
  std::vector<std::vector<XorWrapper<absl::uint128>>> selections;
  auto db = std::make_unique<CapturingDatabase>();
  db->selections = &selections;
  const PirConfig& config = AnyRef<PirConfig>("config");
  auto server = DenseDpfPirServer::CreatePlain(config, std::move(db));
  if (!server.ok()) return;
  const PirRequest& req = AnyRef<PirRequest>("request");
  auto out = (*server)->HandleRequest(req);
  if (!out.ok()) return;
  Require(req.wrapped_pir_request_case() == PirRequest::kDpfPirRequest &&
          req.dpf_pir_request().wrapped_request_case() == DpfPirRequest::kPlainRequest, "only plain requests are served");
  const auto& keys = req.dpf_pir_request().plain_request();
  Require(keys.dpf_key_size() > 0, "an empty request is rejected");
  Require(selections.size() == keys.dpf_key_size(), "one selection vector per key");
  int i = Any<int>("i");
  if (i < 0 || i >= keys.dpf_key_size()) return;
  Require(verif::Same(selections[i], verif::Fn<std::vector<XorWrapper<absl::uint128>>>("evaluate", size_t{0}, keys.dpf_key(i))),
          "selection vector i is the full evaluation of key i");
  auto products = Any<absl::StatusOr<std::vector<std::string>>>("products");
  Require(products.ok(), "an error of the database is returned");
  Require(out->dpf_pir_response().masked_response_size() == products->size(), "one answer per inner product");
  int k = Any<int>("k");
  if (k < 0 || k >= products->size()) return;
  Require(out->wrapped_pir_response_case() == PirResponse::kDpfPirResponse, "kind of the response");
  Require(verif::Same(out->dpf_pir_response().masked_response(k), (*products)[k]), "answer k is inner product k");
}

// Configuration checks and roles.
void DenseServerCreate() {
  const PirConfig& config = AnyRef<PirConfig>("config");
  auto db = Any<std::unique_ptr<Db>>("db");
  bool null_db = db == nullptr;
  size_t db_size = null_db ? 0 : db->size();
  int which = Any<int>("which");
  DenseDpfPirServer::ForwardHelperRequestFn sender = Any<DenseDpfPirServer::ForwardHelperRequestFn>("sender");
  DenseDpfPirServer::DecryptHelperRequestFn decrypter = Any<DenseDpfPirServer::DecryptHelperRequestFn>("decrypter");
  bool null_sender = sender == nullptr;
  bool null_decrypter = decrypter == nullptr;
  absl::StatusOr<std::unique_ptr<DenseDpfPirServer>> server;
  if (which == 0) {
    server = DenseDpfPirServer::CreatePlain(config, std::move(db));
  } else if (which == 1) {
    server = DenseDpfPirServer::CreateLeader(config, std::move(db), std::move(sender));
  } else {
    server = DenseDpfPirServer::CreateHelper(config, std::move(db), std::move(decrypter));
  }
  if (!server.ok()) return;
  Require(config.wrapped_pir_config_case() == PirConfig::kDenseDpfPirConfig, "kind of the configuration");
  Require(config.dense_dpf_pir_config().num_elements() > 0, "positive number of elements");
  Require(!null_db, "a database is given");
  Require(db_size == config.dense_dpf_pir_config().num_elements(), "the database has the configured size");
  if (which == 0) {
    Require((*server)->role() == DpfPirServer::Role::kPlain, "plain role");
  } else if (which == 1) {
    Require(!null_sender, "a leader needs a sender");
    Require((*server)->role() == DpfPirServer::Role::kLeader, "leader role");
  } else {
    Require(!null_decrypter, "a helper needs a decrypter");
    Require((*server)->role() == DpfPirServer::Role::kHelper, "helper role");
  }
}

// The helper decrypts exactly the given ciphertext, and answers nothing else.
void HelperDecrypts() {
  std::string given;
  std::string given_info;
  bool called = false;
  absl::StatusOr<std::string> decrypted = Any<absl::StatusOr<std::string>>("decrypted");
  auto helper = DenseDpfPirServer::CreateHelper(AnyRef<PirConfig>("config"), Any<std::unique_ptr<Db>>("db"),
    [&](absl::string_view enc, absl::string_view info) -> absl::StatusOr<std::string> {
      given = std::string(enc);
      given_info = std::string(info);
      called = true;
      return decrypted;
    });
  if (!helper.ok()) return;
  const PirRequest& req = AnyRef<PirRequest>("request");
  auto out = (*helper)->HandleRequest(req);
  if (!out.ok()) return;
  Require(req.dpf_pir_request().wrapped_request_case() == DpfPirRequest::kEncryptedHelperRequest, "only encrypted helper requests are served");
  Require(called, "the request is decrypted");
  Require(decrypted.ok(), "a decryption error is returned");
  DpfPirRequest::HelperRequest inner;
  Require(inner.ParseFromString(*decrypted), "plaintexts that are not helper requests are rejected");
  Require(inner.one_time_pad_seed().size() == 16, "the seed has the right size");
  Require(verif::Same(given, req.dpf_pir_request().encrypted_helper_request().encrypted_request()), "the ciphertext of the request is decrypted");
  Require(verif::Same(given_info, std::string(DenseDpfPirServer::kEncryptionContextInfo)), "with the context of dense PIR");
}

}  // namespace verif_scn
