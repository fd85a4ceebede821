#include "pir/dense_dpf_pir_client.h"
#include "pir/dense_dpf_pir_server.h"
#include "pir/dense_dpf_pir_database.h"
#include "verif.h"
using namespace distributed_point_functions;
using verif::Any; using verif::AnyRef; using verif::Require;
namespace verif_scn {
// The helper's masked answer, unmasked by the client, is the plain answer.
void DenseMaskCancels() {
  const PirConfig& config = AnyRef<PirConfig>("config");
  const DpfPirRequest::HelperRequest& hreq = AnyRef<DpfPirRequest::HelperRequest>("hreq");
  auto client = DenseDpfPirClient::Create(config,
    Any<DenseDpfPirClient::EncryptHelperRequestFn>("encrypter"), Any<absl::string_view>("info"));
  if (!client.ok()) return;
  auto plain = DenseDpfPirServer::CreatePlain(config, Any<std::unique_ptr<DenseDpfPirServer::Database>>("db"));
  if (!plain.ok()) return;
  auto helper = DenseDpfPirServer::CreateHelper(config, Any<std::unique_ptr<DenseDpfPirServer::Database>>("db"),
    [&](absl::string_view enc, absl::string_view info) -> absl::StatusOr<std::string> { return hreq.SerializeAsString();});
  if (!helper.ok()) return;
  PirRequest preq;
  *preq.mutable_dpf_pir_request()->mutable_plain_request() = hreq.plain_request();
  auto presp = (*plain)->HandleRequest(preq);
  if (!presp.ok()) return;
  PirRequest req;
  req.mutable_dpf_pir_request()->mutable_encrypted_helper_request()->set_encrypted_request(Any<std::string>("ct"));
  auto hresp = (*helper)->HandleRequest(req);
  if (!hresp.ok()) return;
  PirRequestClientState state;
  state.mutable_dense_dpf_pir_request_client_state()->set_one_time_pad_seed(hreq.one_time_pad_seed());
  auto out = (*client)->HandleResponse(*hresp, state);
  if (!out.ok()) return;
  Require(hresp->dpf_pir_response().masked_response_size() == presp->dpf_pir_response().masked_response_size(), "same number");
  Require(out->size() == presp->dpf_pir_response().masked_response_size(), "count");
  int i = Any<int>("i");
  if (i < 0 || i >= out->size()) return;
  Require((*out)[i].size() == presp->dpf_pir_response().masked_response(i).size(), "size");
  int j = Any<int>("j");
  if (j < 0 || j >= (*out)[i].size()) return;
  Require((*out)[i][j] == presp->dpf_pir_response().masked_response(i)[j], "value");
}
}
namespace verif_scn {

DpfKey KeyOf(int party, absl::uint128 alpha, absl::uint128 beta) {
  return verif::Fn<DpfKey>("key", party, alpha, beta);
}

// Stand-in for key generation: an unspecified pair of keys for (alpha, beta).
absl::StatusOr<std::pair<DpfKey, DpfKey>> ModelGenerateKeys(
    const DistributedPointFunction* dpf, absl::uint128 alpha,
    const XorWrapper<absl::uint128>& beta) {
  return std::make_pair(KeyOf(0, alpha, beta.value()), KeyOf(1, alpha, beta.value()));
}

void DenseClientIndex() {
  const PirConfig& config = AnyRef<PirConfig>("config");
  auto client = DenseDpfPirClient::Create(config,
    Any<DenseDpfPirClient::EncryptHelperRequestFn>("encrypter"), Any<absl::string_view>("info"));
  if (!client.ok()) return;
  Require(config.wrapped_pir_config_case() == PirConfig::kDenseDpfPirConfig, "config kind");
  Require(config.dense_dpf_pir_config().num_elements() > 0, "positive number of elements");
  absl::Span<const int> q = Any<absl::Span<const int>>("q");
  auto r = (*client)->CreateRequest(q);
  if (!r.ok()) return;
  int i = Any<int>("i");
  if (i < 0 || i >= q.size()) return;
  Require(q[i] >= 0, "negative indices are rejected");
  Require(q[i] < config.dense_dpf_pir_config().num_elements(), "indices past the end are rejected");
}

// Every valid request is served.
void DenseClientAccepts() {
  const PirConfig& config = AnyRef<PirConfig>("config");
  int n = Any<int>("n");
  verif::Assume(config.wrapped_pir_config_case() == PirConfig::kDenseDpfPirConfig);
  verif::Assume(config.dense_dpf_pir_config().num_elements() == n);
  verif::Assume(n > 0);
  auto client = DenseDpfPirClient::Create(config,
    [](absl::string_view plain, absl::string_view info) -> absl::StatusOr<std::string> {
      return std::string("ciphertext");
    }, Any<absl::string_view>("info"));
  Require(client.ok(), "client is created");
  absl::Span<const int> q = Any<absl::Span<const int>>("q");
  for (int i = 0; i < q.size(); ++i) {
    verif::Assume(q[i] >= 0 && q[i] < n);
  }
  auto r = (*client)->CreateRequest(q);
  Require(r.ok(), "indices in range are accepted");
}

// What is sent to whom.
void DenseClientRequest() {
  const PirConfig& config = AnyRef<PirConfig>("config");
  std::string plaintext;
  absl::string_view info = Any<absl::string_view>("info");
  bool same_info = false;
  auto client = DenseDpfPirClient::Create(config,
    [&](absl::string_view plain, absl::string_view given) -> absl::StatusOr<std::string> {
      plaintext = std::string(plain);
      same_info = verif::Same(std::string(given), std::string(info));
      return Any<std::string>("ciphertext");
    }, info);
  if (!client.ok()) return;
  absl::Span<const int> q = Any<absl::Span<const int>>("q");
  auto r = (*client)->CreateRequest(q);
  if (!r.ok()) return;
  DpfPirRequest::HelperRequest helper;
  if (!helper.ParseFromString(plaintext)) return;
  const DpfPirRequest::LeaderRequest& leader = r->first.dpf_pir_request().leader_request();
  Require(r->first.wrapped_pir_request_case() == PirRequest::kDpfPirRequest &&
          r->first.dpf_pir_request().wrapped_request_case() == DpfPirRequest::kLeaderRequest &&
          leader.has_plain_request() && leader.has_encrypted_helper_request(),
          "the request is a leader request");
  Require(same_info, "context info is passed to the encrypter");
  Require(verif::Same(leader.encrypted_helper_request().encrypted_request(), Any<std::string>("ciphertext")),
          "the ciphertext is forwarded");
  const std::string& seed = r->second.dense_dpf_pir_request_client_state().one_time_pad_seed();
  Require(r->second.wrapped_pir_request_client_state_case() ==
          PirRequestClientState::kDenseDpfPirRequestClientState, "state kind");
  Require(verif::Same(helper.one_time_pad_seed(), seed), "the client keeps the helper's seed");
  Require(seed.size() == 16, "seed size");
  Require(!verif::Mentions(r->first, seed), "the leader's request does not depend on the seed");
  Require(leader.plain_request().dpf_key_size() == q.size(), "one leader key per query");
  Require(helper.plain_request().dpf_key_size() == q.size(), "one helper key per query");
  int i = Any<int>("i");
  if (i < 0 || i >= q.size()) return;
  Require(!verif::Mentions(r->first, helper.plain_request().dpf_key(i)), "the leader's request does not contain helper keys");
  Require(!verif::Mentions(helper, leader.plain_request().dpf_key(i)), "the helper's request does not contain leader keys");
}

// Query i asks for bit q[i] % 128 of block q[i] / 128, from both servers.
void DenseClientQuery() {
  const PirConfig& config = AnyRef<PirConfig>("config");
  std::string plaintext;
  auto client = DenseDpfPirClient::Create(config,
    [&](absl::string_view plain, absl::string_view given) -> absl::StatusOr<std::string> {
      plaintext = std::string(plain);
      return Any<std::string>("ciphertext");
    }, Any<absl::string_view>("info"));
  if (!client.ok()) return;
  absl::Span<const int> q = Any<absl::Span<const int>>("q");
  auto r = (*client)->CreateRequest(q);
  if (!r.ok()) return;
  DpfPirRequest::HelperRequest helper;
  if (!helper.ParseFromString(plaintext)) return;
  int i = Any<int>("i");
  if (i < 0 || i >= q.size()) return;
  const DpfKey& a = r->first.dpf_pir_request().leader_request().plain_request().dpf_key(i);
  const DpfKey& b = helper.plain_request().dpf_key(i);
  DpfKey k0 = KeyOf(0, q[i] / 128, absl::uint128{1} << (q[i] % 128));
  DpfKey k1 = KeyOf(1, q[i] / 128, absl::uint128{1} << (q[i] % 128));
  Require((verif::Same(a, k0) && verif::Same(b, k1)) || (verif::Same(a, k1) && verif::Same(b, k0)),
          "the two servers get the two keys of the queried block and bit");
}
}  // namespace verif_scn
