// Keyword (sparse) PIR over cuckoo hashing and simple hashing.
#include "pir/cuckoo_hashing_sparse_dpf_pir_client.h"
#include "pir/cuckoo_hashing_sparse_dpf_pir_server.h"
#include "pir/cuckoo_hashed_dpf_pir_database.h"
#include "pir/simple_hashing_sparse_dpf_pir_client.h"
#include "pir/simple_hashing_sparse_dpf_pir_server.h"
#include "pir/simple_hashed_dpf_pir_database.h"
#include "pir/hashing/hash_family_config.h"
#include "pir/hashing/sha256_hash_family.h"
#include "google/protobuf/io/coded_stream.h"
#include "pir_models.h"
using namespace distributed_point_functions;
using verif::Any; using verif::AnyRef; using verif::Require;
namespace verif_scn {

void CuckooClientCreate() {
  const PirServerPublicParams& params = AnyRef<PirServerPublicParams>("params");
  auto encrypter = Any<CuckooHashingSparseDpfPirClient::EncryptHelperRequestFn>("encrypter");
  bool null_encrypter = encrypter == nullptr;
  auto client = CuckooHashingSparseDpfPirClient::Create(params, std::move(encrypter), Any<absl::string_view>("info"));
  if (!client.ok()) return;
  Require(!null_encrypter, "an encrypter is given");
  Require(params.wrapped_pir_server_public_params_case() ==
          PirServerPublicParams::kCuckooHashingSparseDpfPirServerParams, "kind of the parameters");
  Require(CuckooParams(params).num_buckets() > 0, "positive number of buckets");
  Require(CuckooParams(params).num_hash_functions() > 0, "positive number of hash functions");
  Require(!CuckooParams(params).hash_family_config().seed().empty(), "the hash family is seeded");
}

void CuckooClientQuery() {
  const PirServerPublicParams& params = AnyRef<PirServerPublicParams>("params");
  std::string plaintext;
  bool same_info = false;
  absl::string_view info = Any<absl::string_view>("info");
  auto client = CuckooHashingSparseDpfPirClient::Create(params,
    [&](absl::string_view plain, absl::string_view given) -> absl::StatusOr<std::string> {
      plaintext = std::string(plain);
      same_info = verif::Same(std::string(given), std::string(info));
      return Any<std::string>("ciphertext");
    }, info);
  if (!client.ok()) return;
  absl::Span<const std::string> q = Any<absl::Span<const std::string>>("q");
  auto r = (*client)->CreateRequest(q);
  if (!r.ok()) return;
  DpfPirRequest::HelperRequest helper;
  if (!helper.ParseFromString(plaintext)) return;
  const DpfPirRequest::LeaderRequest& leader = r->first.dpf_pir_request().leader_request();
  Require(r->first.wrapped_pir_request_case() == PirRequest::kDpfPirRequest &&
          r->first.dpf_pir_request().wrapped_request_case() == DpfPirRequest::kLeaderRequest &&
          leader.has_plain_request() && leader.has_encrypted_helper_request(),
          "the request is a leader request");
  Require(same_info, "context info is passed to the encrypter");
  Require(verif::Same(leader.encrypted_helper_request().encrypted_request(), Any<std::string>("ciphertext")),
          "the ciphertext is forwarded");
  int fp = Fingerprint(CuckooParams(params).hash_family_config().seed());
  Require(leader.plain_request().seed_fingerprint() == fp, "fingerprint in the leader's request");
  Require(helper.plain_request().seed_fingerprint() == fp, "fingerprint in the helper's request");
  Require(r->second.wrapped_pir_request_client_state_case() ==
          PirRequestClientState::kCuckooHashingSparseDpfPirRequestClientState, "state kind");
  const auto& state = r->second.cuckoo_hashing_sparse_dpf_pir_request_client_state();
  const std::string& seed = state.one_time_pad_seed();
  Require(verif::Same(helper.one_time_pad_seed(), seed), "the client keeps the helper's seed");
  Require(seed.size() == 16, "seed size");
  Require(!verif::Mentions(r->first, seed), "the leader's request does not depend on the seed");
  Require(state.query_strings_size() == q.size(), "the client remembers every query");
  int h = CuckooParams(params).num_hash_functions();
  Require(leader.plain_request().dpf_key_size() == q.size() * h, "one leader key per query and hash function");
  Require(helper.plain_request().dpf_key_size() == q.size() * h, "one helper key per query and hash function");
  int i = Any<int>("i");
  if (i < 0 || i >= q.size()) return;
  Require(verif::Same(state.query_strings(i), q[i]), "the client remembers the query string");
  int j = Any<int>("j");
  if (j < 0 || j >= h) return;
  int bucket = BucketOf(CuckooParams(params).hash_family_config(), absl::StrCat(j), q[i], CuckooParams(params).num_buckets());
  const DpfKey& a = leader.plain_request().dpf_key(i * h + j);
  const DpfKey& b = helper.plain_request().dpf_key(i * h + j);
  Require(!verif::Mentions(r->first, b), "the leader's request does not contain helper keys");
  Require(!verif::Mentions(helper, a), "the helper's request does not contain leader keys");
  DpfKey k0 = KeyOf(0, bucket / 128, absl::uint128{1} << (bucket % 128));
  DpfKey k1 = KeyOf(1, bucket / 128, absl::uint128{1} << (bucket % 128));
  Require((verif::Same(a, k0) && verif::Same(b, k1)) || (verif::Same(a, k1) && verif::Same(b, k0)),
          "the two servers get the two keys of the bucket of hash function j");
}

// Reference: `key` padded with zero bytes to the length of `raw`.
bool IsPadded(const std::string& raw, const std::string& key) {
  if (raw.size() < key.size()) return false;
  for (int k = 0; k < raw.size(); ++k) {
    char expected = k < key.size() ? key[k] : '\0';
    if (raw[k] != expected) return false;
  }
  return true;
}

void CuckooClientResponse() {
  PirServerPublicParams params = AnyRef<PirServerPublicParams>("params");
  if (params.wrapped_pir_server_public_params_case() !=
      PirServerPublicParams::kCuckooHashingSparseDpfPirServerParams) return;
  params.mutable_cuckoo_hashing_sparse_dpf_pir_server_params()->set_num_hash_functions(3);
  auto client = CuckooHashingSparseDpfPirClient::Create(params,
    Any<CuckooHashingSparseDpfPirClient::EncryptHelperRequestFn>("encrypter"), Any<absl::string_view>("info"));
  if (!client.ok()) return;
  const PirResponse& response = AnyRef<PirResponse>("response");
  const PirRequestClientState& state = AnyRef<PirRequestClientState>("state");
  auto out = (*client)->HandleResponse(response, state);
  if (!out.ok()) return;
  Require(response.wrapped_pir_response_case() == PirResponse::kDpfPirResponse, "kind of the response");
  Require(state.wrapped_pir_request_client_state_case() ==
          PirRequestClientState::kCuckooHashingSparseDpfPirRequestClientState, "kind of the state");
  const auto& cs = state.cuckoo_hashing_sparse_dpf_pir_request_client_state();
  const auto& dr = response.dpf_pir_response();
  Require(dr.masked_response_size() == 6 * cs.query_strings_size(), "the number of responses matches the queries");
  Require(out->size() == cs.query_strings_size(), "one result per query");
  int i = Any<int>("i");
  if (i < 0 || i >= out->size()) return;
  std::string raw[6];
  for (int j = 0; j < 6; ++j) {
    raw[j] = verif::Fn<std::string>("unmasked", 6 * i + j, dr.masked_response(6 * i + j), cs.one_time_pad_seed());
  }
  bool m0 = IsPadded(raw[0], cs.query_strings(i));
  bool m1 = IsPadded(raw[2], cs.query_strings(i));
  bool m2 = IsPadded(raw[4], cs.query_strings(i));
  Require((*out)[i].has_value() == (m0 || m1 || m2), "a value is returned exactly when one bucket holds the key");
  if (m0) {
    Require(verif::Same(*(*out)[i], raw[1]), "the value of the first matching bucket (0)");
  } else if (m1) {
    Require(verif::Same(*(*out)[i], raw[3]), "the value of the first matching bucket (1)");
  } else if (m2) {
    Require(verif::Same(*(*out)[i], raw[5]), "the value of the first matching bucket (2)");
  }
}

// ------------------------------------------------------- simple hashing
const SimpleHashingParams& SimpleParams(const PirServerPublicParams& p) {
  return p.simple_hashing_sparse_dpf_pir_server_params();
}

void SimpleClientCreate() {
  const PirServerPublicParams& params = AnyRef<PirServerPublicParams>("params");
  auto encrypter = Any<SimpleHashingSparseDpfPirClient::EncryptHelperRequestFn>("encrypter");
  bool null_encrypter = encrypter == nullptr;
  auto client = SimpleHashingSparseDpfPirClient::Create(params, std::move(encrypter), Any<absl::string_view>("info"));
  if (!client.ok()) return;
  Require(!null_encrypter, "an encrypter is given");
  Require(params.wrapped_pir_server_public_params_case() ==
          PirServerPublicParams::kSimpleHashingSparseDpfPirServerParams, "kind of the parameters");
  Require(SimpleParams(params).num_buckets() > 0, "positive number of buckets");
  Require(!SimpleParams(params).hash_family_config().seed().empty(), "the hash family is seeded");
}

void SimpleClientQuery() {
  const PirServerPublicParams& params = AnyRef<PirServerPublicParams>("params");
  std::string plaintext;
  bool same_info = false;
  absl::string_view info = Any<absl::string_view>("info");
  auto client = SimpleHashingSparseDpfPirClient::Create(params,
    [&](absl::string_view plain, absl::string_view given) -> absl::StatusOr<std::string> {
      plaintext = std::string(plain);
      same_info = verif::Same(std::string(given), std::string(info));
      return Any<std::string>("ciphertext");
    }, info);
  if (!client.ok()) return;
  absl::Span<const std::string> q = Any<absl::Span<const std::string>>("q");
  auto r = (*client)->CreateRequest(q);
  if (!r.ok()) return;
  DpfPirRequest::HelperRequest helper;
  if (!helper.ParseFromString(plaintext)) return;
  const DpfPirRequest::LeaderRequest& leader = r->first.dpf_pir_request().leader_request();
  Require(r->first.wrapped_pir_request_case() == PirRequest::kDpfPirRequest &&
          r->first.dpf_pir_request().wrapped_request_case() == DpfPirRequest::kLeaderRequest &&
          leader.has_plain_request() && leader.has_encrypted_helper_request(),
          "the request is a leader request");
  Require(same_info, "context info is passed to the encrypter");
  Require(verif::Same(leader.encrypted_helper_request().encrypted_request(), Any<std::string>("ciphertext")),
          "the ciphertext is forwarded");
  int fp = Fingerprint(SimpleParams(params).hash_family_config().seed());
  Require(leader.plain_request().seed_fingerprint() == fp, "fingerprint in the leader's request");
  Require(helper.plain_request().seed_fingerprint() == fp, "fingerprint in the helper's request");
  Require(r->second.wrapped_pir_request_client_state_case() ==
          PirRequestClientState::kSimpleHashingSparseDpfPirRequestClientState, "state kind");
  const auto& state = r->second.simple_hashing_sparse_dpf_pir_request_client_state();
  const std::string& seed = state.one_time_pad_seed();
  Require(verif::Same(helper.one_time_pad_seed(), seed), "the client keeps the helper's seed");
  Require(seed.size() == 16, "seed size");
  Require(!verif::Mentions(r->first, seed), "the leader's request does not depend on the seed");
  Require(state.query_strings_size() == q.size(), "the client remembers every query");
  Require(leader.plain_request().dpf_key_size() == q.size(), "one leader key per query");
  Require(helper.plain_request().dpf_key_size() == q.size(), "one helper key per query");
  int i = Any<int>("i");
  if (i < 0 || i >= q.size()) return;
  Require(verif::Same(state.query_strings(i), q[i]), "the client remembers the query string");
  int bucket = BucketOf(SimpleParams(params).hash_family_config(), absl::StrCat(0), q[i], SimpleParams(params).num_buckets());
  const DpfKey& a = leader.plain_request().dpf_key(i);
  const DpfKey& b = helper.plain_request().dpf_key(i);
  Require(!verif::Mentions(r->first, b), "the leader's request does not contain helper keys");
  Require(!verif::Mentions(helper, a), "the helper's request does not contain leader keys");
  DpfKey k0 = KeyOf(0, bucket / 128, absl::uint128{1} << (bucket % 128));
  DpfKey k1 = KeyOf(1, bucket / 128, absl::uint128{1} << (bucket % 128));
  Require((verif::Same(a, k0) && verif::Same(b, k1)) || (verif::Same(a, k1) && verif::Same(b, k0)),
          "the two servers get the two keys of the query's bucket");
}

void SimpleClientResponse() {
  const PirServerPublicParams& params = AnyRef<PirServerPublicParams>("params");
  auto client = SimpleHashingSparseDpfPirClient::Create(params,
    Any<SimpleHashingSparseDpfPirClient::EncryptHelperRequestFn>("encrypter"), Any<absl::string_view>("info"));
  if (!client.ok()) return;
  const PirResponse& response = AnyRef<PirResponse>("response");
  const PirRequestClientState& state = AnyRef<PirRequestClientState>("state");
  auto out = (*client)->HandleResponse(response, state);
  if (!out.ok()) return;
  Require(response.wrapped_pir_response_case() == PirResponse::kDpfPirResponse, "kind of the response");
  Require(state.wrapped_pir_request_client_state_case() ==
          PirRequestClientState::kSimpleHashingSparseDpfPirRequestClientState, "kind of the state");
  const auto& cs = state.simple_hashing_sparse_dpf_pir_request_client_state();
  const auto& dr = response.dpf_pir_response();
  Require(dr.masked_response_size() == cs.query_strings_size(), "the number of responses matches the queries");
  Require(out->size() == cs.query_strings_size(), "one result per query");
  int i = Any<int>("i");
  if (i < 0 || i >= out->size()) return;
  std::string raw = verif::Fn<std::string>("unmasked", i, dr.masked_response(i), cs.one_time_pad_seed());
  HashedPirDatabaseBucket bucket;
  ::google::protobuf::io::CodedInputStream coded_stream(
      reinterpret_cast<const uint8_t*>(raw.data()), raw.size());
  Require(bucket.ParseFromCodedStream(&coded_stream), "an answer that is not a bucket is refused");
  Require(bucket.keys_size() <= bucket.values_size(), "a bucket with more keys than values is refused");
  absl::optional<std::string> expected;
  for (int j = 0; j < bucket.keys_size(); ++j) {
    if (bucket.keys(j) == cs.query_strings(i)) {
      expected = bucket.values(j);
      break;
    }
  }
  Require((*out)[i].has_value() == expected.has_value(), "a value is returned exactly when the bucket holds the key");
  if (expected.has_value()) Require(verif::Same(*(*out)[i], *expected), "the value stored with the key is returned");
}
}  // namespace verif_scn
