// Databases of the PIR servers and their builders.
#include "pir/dense_dpf_pir_database.h"
#include "pir/cuckoo_hashed_dpf_pir_database.h"
#include "pir/simple_hashed_dpf_pir_database.h"
#include "pir/hashing/cuckoo_hash_table.h"
#include "pir_models.h"
using verif::Any; using verif::AnyRef; using verif::Require; using verif::Assume;
namespace verif_scn {
using Block = XorWrapper<absl::uint128>;
using Dense = DenseDpfPirDatabase;

// Three records, each of which may be empty.
void DenseKeepsRecords() {
  const std::string a = AnyRef<std::string>("a"), b = AnyRef<std::string>("b"), c = AnyRef<std::string>("c");
  Assume(a.size() < (size_t{1} << 31) && b.size() < (size_t{1} << 31) && c.size() < (size_t{1} << 31));
  Dense::Builder builder;
  builder.Insert(a).Insert(b);
  builder.Insert(c);
  auto built = builder.Build();
  Require(built.ok(), "every list of records makes a database");
  const Dense& db = static_cast<const Dense&>(**built);
  Require(db.size() == 3 && db.num_selection_bits() == 3 && db.content().size() == 3, "the database has all the records");
  Require(db.content()[0] == a && db.content()[1] == b && db.content()[2] == c, "records are kept in order, unchanged");
  size_t max = a.size();
  if (b.size() > max) max = b.size();
  if (c.size() > max) max = c.size();
  Require(db.max_value_size_in_bytes() == max, "the largest size is known");
}
// The contents of the buffer when all records are there.
void DenseKeepsBytes() {
  const int sizes[] = {5, 16, 0, 33, 1};
  std::vector<std::string> records;
  Dense::Builder builder;
  for (int i = 0; i < 5; ++i) {
    std::string s(sizes[i], '\0');
    for (int j = 0; j < sizes[i]; ++j) s[j] = verif::Fresh<char>("byte");
    records.push_back(s);
    builder.Insert(s);
  }
  auto built = builder.Build();
  Require(built.ok(), "every list of records makes a database");
  const Dense& db = static_cast<const Dense&>(**built);
  Require(db.value_offsets_.size() == 5, "there is an offset for each record");
  for (int i = 0; i < 5; ++i) {
    Require(db.value_offsets_[i].second == sizes[i], "the size of each record is kept");
    if (sizes[i] == 0) continue;
    const size_t first = db.value_offsets_[i].first;
    const std::string s(reinterpret_cast<const char*>(&db.buffer_[first]), sizes[i]);
    Require(s == records[i], "records do not overwrite each other");
    Require(db.content()[i] == records[i], "records are kept in order, unchanged");
  }
}
void DenseEmpty() {
  Dense::Builder builder;
  auto built = builder.Build();
  Require(built.ok(), "a database may be empty");
  const Dense& db = static_cast<const Dense&>(**built);
  Require(db.size() == 0 && db.content().empty() && db.max_value_size_in_bytes() == 0, "an empty database has no records");
}
// A builder is used once, unless cleared, and clones are independent.
void DenseBuildsOnce() {
  const std::string a = AnyRef<std::string>("a");
  Assume(a.size() < (size_t{1} << 31));
  Dense::Builder builder;
  builder.Insert(a);
  auto built = builder.Build();
  auto again = builder.Build();
  Require(again.status().code() == absl::StatusCode::kFailedPrecondition, "a builder makes one database");
  auto clone = builder.Clone();
  Require(clone->Build().status().code() == absl::StatusCode::kFailedPrecondition, "the clone of a used builder is used");
  builder.Clear();
  Require(builder.total_database_bytes() == 0, "a cleared builder has no records");
  builder.Insert("x");
  auto second = builder.Build();
  Require(second.ok() && (*second)->size() == 1 && static_cast<const Dense&>(**second).content()[0] == "x", "a cleared builder starts over");
}
void DenseClones() {
  const std::string a = AnyRef<std::string>("a"), b = AnyRef<std::string>("b"), c = AnyRef<std::string>("c");
  Assume(a.size() < (size_t{1} << 31) && b.size() < (size_t{1} << 31) && c.size() < (size_t{1} << 31));
  Dense::Builder builder;
  builder.Insert(a);
  auto clone = builder.Clone();
  builder.Insert(b);
  clone->Insert(c);
  auto one = builder.Build();
  auto two = clone->Build();
  Require(one.ok() && two.ok(), "both can be built");
  const Dense& x = static_cast<const Dense&>(**one);
  const Dense& y = static_cast<const Dense&>(**two);
  Require(x.size() == 2 && x.content()[0] == a && x.content()[1] == b, "the original has its own records");
  Require(y.size() == 2 && y.content()[0] == a && y.content()[1] == c, "the clone has the records so far and its own");
}
std::vector<std::string> Products(absl::Span<const absl::string_view> values, absl::Span<const std::vector<Block>> selections, int64_t max) {
  return verif::Fn<std::vector<std::string>>("products", values, selections, max);
}
absl::StatusOr<std::vector<std::string>> ModelInnerProduct(absl::Span<const absl::string_view> values,
                                                           absl::Span<const std::vector<Block>> selections, int64_t max) {
  if (verif::Fn<bool>("refused", values, selections, max)) return absl::InvalidArgumentError("");
  return Products(values, selections, max);
}
void DenseMultiplies() {
  const Dense& db = AnyRef<Dense>("db");
  const std::vector<std::vector<Block>>& s = AnyRef<std::vector<std::vector<Block>>>("s");
  absl::StatusOr<std::vector<std::string>> r = db.InnerProductWith(s);
  if (verif::Fn<bool>("refused", db.content(), absl::MakeConstSpan(s), int64_t(db.max_value_size_in_bytes()))) {
    Require(r.status().code() == absl::StatusCode::kInvalidArgument, "the inner product's errors are returned");
  } else {
    Require(r.ok() && verif::Same(*r, Products(db.content(), s, db.max_value_size_in_bytes())), "all records are multiplied, at the largest size");
  }
}

// The cuckoo table that the keys end up in (decided by property P37): every key in
// one slot, in any order.
using Cuckoo = CuckooHashedDpfPirDatabase;
absl::StatusOr<std::unique_ptr<CuckooHashTable>> ModelTable(HashFamily family, int num_buckets, int num_hash_functions, int max_relocations,
                                                            absl::optional<int> max_stash_size) {
  if (verif::Any<bool>("no table")) return absl::InvalidArgumentError("");
  auto table = Any<std::unique_ptr<CuckooHashTable>>("table");
  Require(num_buckets == static_cast<int>(AnyRef<CuckooHashingParams>("params").num_buckets()), "the table has the configured size");
  Require(num_hash_functions == AnyRef<CuckooHashingParams>("params").num_hash_functions(), "the table has the configured hash functions");
  Require(max_stash_size.has_value() && *max_stash_size == 0, "no key is kept outside of the table");
  Require(max_relocations >= 1, "every key may be moved");
  return table;
}
absl::Status ModelInsert(CuckooHashTable* table, absl::string_view key) {
  if (verif::Fn<bool>("full", std::string(key))) return absl::InternalError("");
  std::vector<std::string>& in = AnyRef<std::vector<std::string>>("inserted");
  in.push_back(std::string(key));
  return absl::OkStatus();
}
const std::vector<absl::optional<std::string>>& ModelGetTable(const CuckooHashTable* table) {
  std::vector<absl::optional<std::string>>& slots = AnyRef<std::vector<absl::optional<std::string>>>("slots");
  return slots;
}
void CuckooKeepsRecords() {
  const CuckooHashingParams& params = AnyRef<CuckooHashingParams>("params");
  const std::string v1 = AnyRef<std::string>("v1"), v2 = AnyRef<std::string>("v2");
  Assume(v1.size() < (size_t{1} << 31) && v2.size() < (size_t{1} << 31));
  std::vector<absl::optional<std::string>>& slots = AnyRef<std::vector<absl::optional<std::string>>>("slots");
  std::vector<std::string>& in = AnyRef<std::vector<std::string>>("inserted");
  in = {};
  absl::optional<std::string> none, first = std::string("k1"), second = std::string("k2");
  slots = {second, none, first};
  Cuckoo::Builder builder;
  builder.SetParams(params);
  builder.Insert({"k2", v2});
  builder.Insert({"k1", v1});
  auto built = builder.Build();
  if (!built.ok()) {
    Require(params.num_buckets() != 3 || params.num_hash_functions() <= 0 || params.hash_family_config().seed().empty() ||
                Any<bool>("no table") || verif::Fn<bool>("full", std::string("k1")) || verif::Fn<bool>("full", std::string("k2")),
            "usable parameters are accepted");
    return;
  }
  Require(params.num_buckets() == 3 && params.num_hash_functions() > 0 && !params.hash_family_config().seed().empty(), "other parameters are refused");
  Require(in.size() == 2 && in[0] == "k1" && in[1] == "k2", "every key is hashed once");
  const Cuckoo& db = static_cast<const Cuckoo&>(**built);
  Require(db.size() == 2, "the number of records is known");
  Require(db.num_selection_bits() == 3, "there is a selection bit for every slot");
  const Dense& keys = static_cast<const Dense&>(*db.key_database_);
  const Dense& values = static_cast<const Dense&>(*db.value_database_);
  Require(keys.size() == 3 && values.size() == 3, "both databases have all slots");
  Require(keys.content()[0] == "k2" && keys.content()[1].empty() && keys.content()[2] == "k1", "keys are where the table has them");
  Require(values.content()[0] == v2 && values.content()[1].empty() && values.content()[2] == v1, "values are where their keys are");
}
void CuckooRefusesEmptyKeys() {
  std::vector<absl::optional<std::string>>& slots = AnyRef<std::vector<absl::optional<std::string>>>("slots");
  absl::optional<std::string> empty = std::string(""), full = std::string("k");
  slots = {empty, full};
  AnyRef<std::vector<std::string>>("inserted") = {};
  Cuckoo::Builder builder;
  builder.SetParams(AnyRef<CuckooHashingParams>("params"));
  builder.Insert({"k", AnyRef<std::string>("v")});
  builder.Insert({"", AnyRef<std::string>("w")});
  Require(!builder.Build().ok(), "empty keys are refused");
  Require(builder.Build().status().code() == absl::StatusCode::kFailedPrecondition, "a builder is used once");
  Require(builder.Clone()->Build().status().code() == absl::StatusCode::kFailedPrecondition, "the clone of a used builder is used");
}
// Of several values for one key, the first one is kept.
// Builders of the wrapped databases may have been used before.
inline std::unique_ptr<Dense::Builder> Used() {
  auto builder = std::make_unique<Dense::Builder>();
  builder->Insert("left over");
  return builder;
}
void CuckooBuildsAgain() {
  CuckooHashingParams& params = AnyRef<CuckooHashingParams>("params");
  Assume(params.num_hash_functions() > 0 && !params.hash_family_config().seed().empty() && !Any<bool>("no table"));
  Assume(!verif::Fn<bool>("full", std::string("k1")) && !verif::Fn<bool>("full", std::string("k2")));
  const std::string v1 = AnyRef<std::string>("v1"), v2 = AnyRef<std::string>("v2"), v3 = AnyRef<std::string>("v3");
  Assume(v1.size() < (size_t{1} << 31) && v2.size() < (size_t{1} << 31) && v3.size() < (size_t{1} << 31));
  std::vector<absl::optional<std::string>>& slots = AnyRef<std::vector<absl::optional<std::string>>>("slots");
  AnyRef<std::vector<std::string>>("inserted") = {};
  absl::optional<std::string> none, first = std::string("k1"), second = std::string("k2");
  params.set_num_buckets(3);
  Cuckoo::Builder builder;
  builder.SetParams(params);
  builder.SetKeyDatabaseBuilder(Used()).SetValueDatabaseBuilder(Used());
  builder.Insert({"k1", v1});
  auto clone = builder.Clone();
  clone->Insert({"k2", v2});
  slots = {none, none, first};
  auto one = builder.Build();
  slots = {none, second, first};
  auto two = clone->Build();
  Require(one.ok() && two.ok(), "the original and the clone are built");
  {
    const Cuckoo& db = static_cast<const Cuckoo&>(**one);
    Require(db.size() == 1 && db.num_selection_bits() == 3, "the original has its own records");
    const Dense& keys = static_cast<const Dense&>(*db.key_database_);
    const Dense& values = static_cast<const Dense&>(*db.value_database_);
    Require(keys.size() == 3 && keys.content()[0].empty() && keys.content()[1].empty() && keys.content()[2] == "k1", "the original has its own records");
    Require(values.size() == 3 && values.content()[0].empty() && values.content()[1].empty() && values.content()[2] == v1, "the original has its own records");
  }
  {
    const Cuckoo& db = static_cast<const Cuckoo&>(**two);
    Require(db.size() == 2 && db.num_selection_bits() == 3, "the clone has the records so far and its own");
    const Dense& keys = static_cast<const Dense&>(*db.key_database_);
    const Dense& values = static_cast<const Dense&>(*db.value_database_);
    Require(keys.size() == 3 && keys.content()[0].empty() && keys.content()[1] == "k2" && keys.content()[2] == "k1", "the clone has the records so far and its own");
    Require(values.size() == 3 && values.content()[0].empty() && values.content()[1] == v2 && values.content()[2] == v1, "the clone has the records so far and its own");
  }
  builder.Clear();
  builder.Insert({"k2", v3});
  slots = {none, second, none};
  auto three = builder.Build();
  Require(three.ok(), "a cleared builder builds again");
  const Cuckoo& db = static_cast<const Cuckoo&>(**three);
  Require(db.size() == 1, "a cleared builder starts over");
  const Dense& keys = static_cast<const Dense&>(*db.key_database_);
  const Dense& values = static_cast<const Dense&>(*db.value_database_);
  Require(keys.size() == 3 && keys.content()[1] == "k2", "a cleared builder starts over");
  Require(values.size() == 3 && values.content()[1] == v3, "a cleared builder starts over");
}
// A pair of databases is multiplied with the same selections, pairwise.
class Half : public Cuckoo::DenseDatabase {
 public:
  size_t size() const override { return 1; }
  size_t num_selection_bits() const override { return 1; }
  absl::StatusOr<std::vector<std::string>> InnerProductWith(absl::Span<const std::vector<Block>> s) const override {
    if (verif::Fn<bool>("refused", which, s)) return absl::InvalidArgumentError("");
    return verif::Fn<std::vector<std::string>>("products", which, s);
  }
  int which;
};
void CuckooMultiplies() {
  auto k = std::make_unique<Half>(), v = std::make_unique<Half>();
  k->which = 0;
  v->which = 1;
  const Cuckoo db(std::move(k), std::move(v), 1, 1);
  const std::vector<std::vector<Block>>& s = AnyRef<std::vector<std::vector<Block>>>("s");
  const bool k_refused = verif::Fn<bool>("refused", 0, absl::MakeConstSpan(s)), v_refused = verif::Fn<bool>("refused", 1, absl::MakeConstSpan(s));
  const std::vector<std::string> ks = verif::Fn<std::vector<std::string>>("products", 0, absl::MakeConstSpan(s));
  const std::vector<std::string> vs = verif::Fn<std::vector<std::string>>("products", 1, absl::MakeConstSpan(s));
  auto r = db.InnerProductWith(s);
  if (k_refused || v_refused || ks.size() != s.size() || vs.size() != s.size()) {
    Require(!r.ok(), "errors and missing products are not answered");
    return;
  }
  Require(r.ok() && r->size() == s.size(), "there is an answer for each selection");
  const int i = Any<int>("i");
  if (i < 0 || i >= s.size()) return;
  Require((*r)[i].first == ks[i] && (*r)[i].second == vs[i], "keys are paired with the values of the same selection");
}

using Simple = SimpleHashedDpfPirDatabase;
// The bucket of a key under the only hash function.
int SimpleBucket(const SimpleHashingParams& p, const std::string& key, int buckets) {
  return BucketOf(p.hash_family_config(), absl::StrCat(0), key, buckets);
}
template <int... kBuckets>
void SimpleKeeps() {
  constexpr int n = sizeof...(kBuckets);
  constexpr int buckets[] = {kBuckets...};
  SimpleHashingParams params;
  params.set_num_buckets(3);
  *params.mutable_hash_family_config() = AnyRef<HashFamilyConfig>("family");
  Simple::Builder builder;
  builder.SetParams(params);
  std::vector<std::pair<std::string, std::string>> records;
  for (int i = 0; i < n; ++i) {
    std::pair<std::string, std::string> r(verif::Fresh<std::string>("key"), verif::Fresh<std::string>("value"));
    Assume(!r.first.empty());
    records.push_back(r);
    builder.Insert(r);
    Assume(SimpleBucket(params, r.first, params.num_buckets()) == buckets[i]);
  }
  Assume(!params.hash_family_config().seed().empty());
  auto built = builder.Build();
  Require(built.ok(), "usable parameters are accepted");
  const Simple& db = static_cast<const Simple&>(**built);
  Require(db.size() == n && db.num_selection_bits() == 3, "the number of records and buckets is known");
  const Dense& dense = static_cast<const Dense&>(*db.dense_database_);
  Require(dense.size() == 3, "there is one string for each bucket");
  for (int b = 0; b < 3; ++b) {
    HashedPirDatabaseBucket bucket;
    for (int i = 0; i < n; ++i) {
      if (buckets[i] == b) {
        *bucket.add_keys() = records[i].first;
        *bucket.add_values() = records[i].second;
      }
    }
    Require(dense.content()[b] == bucket.SerializeAsString(), "a bucket has the records whose keys hash to it, in order");
  }
}
void SimpleKeepsApart() { SimpleKeeps<2, 0, 1>(); }
void SimpleKeepsTogether() { SimpleKeeps<1, 1, 1>(); }
void SimpleKeepsOrder() { SimpleKeeps<2, 0, 2, 0>(); }
void SimpleKeepsNone() { SimpleKeeps<>(); }
void SimpleRefuses() {
  const SimpleHashingParams& params = AnyRef<SimpleHashingParams>("params");
  Assume(params.num_buckets() < (int64_t{1} << 31) && params.num_buckets() > -(int64_t{1} << 31));
  const std::string key = AnyRef<std::string>("key");
  Simple::Builder builder;
  builder.SetParams(params);
  builder.Insert({key, AnyRef<std::string>("value")});
  auto built = builder.Build();
  if (params.num_buckets() <= 0 || params.hash_family_config().seed().empty() || key.empty()) {
    Require(!built.ok(), "empty keys and unusable parameters are refused");
  }
  Require(builder.Build().status().code() == absl::StatusCode::kFailedPrecondition, "a builder is used once");
  Require(builder.Clone()->Build().status().code() == absl::StatusCode::kFailedPrecondition, "the clone of a used builder is used");
}
template <typename DB>
std::string Bucket(const DB& db, int b) {
  return std::string(static_cast<const Dense&>(*db.dense_database_).content()[b]);
}
void SimpleBuildsAgain() {
  SimpleHashingParams params;
  params.set_num_buckets(1);
  *params.mutable_hash_family_config() = AnyRef<HashFamilyConfig>("family");
  Assume(!params.hash_family_config().seed().empty());
  const std::string a = AnyRef<std::string>("a"), b = AnyRef<std::string>("b"), c = AnyRef<std::string>("c");
  const std::string v = AnyRef<std::string>("v"), w = AnyRef<std::string>("w"), x = AnyRef<std::string>("x");
  Assume(!a.empty() && !b.empty() && !c.empty());
  for (const std::string& key : {a, b, c}) Assume(SimpleBucket(params, key, params.num_buckets()) == 0);
  Simple::Builder builder;
  builder.SetParams(params);
  builder.SetDenseDatabaseBuilder(Used());
  builder.Insert({a, v});
  auto clone = builder.Clone();
  clone->Insert({b, w});
  auto one = builder.Build(), two = clone->Build();
  Require(one.ok() && two.ok(), "both can be built");
  const Simple& x1 = static_cast<const Simple&>(**one);
  const Simple& x2 = static_cast<const Simple&>(**two);
  HashedPirDatabaseBucket b1, b2, b3;
  b1.add_keys(a);
  b1.add_values(v);
  b2 = b1;
  b2.add_keys(b);
  b2.add_values(w);
  b3.add_keys(c);
  b3.add_values(x);
  Require(x1.size() == 1 && Bucket(x1, 0) == b1.SerializeAsString(), "the original has its own records");
  Require(x2.size() == 2 && Bucket(x2, 0) == b2.SerializeAsString(), "the clone has the records so far and its own");
  builder.Clear();
  builder.Insert({c, x});
  auto three = builder.Build();
  Require(three.ok() && (*three)->size() == 1, "a cleared builder starts over");
  Require(Bucket(static_cast<const Simple&>(**three), 0) == b3.SerializeAsString(), "a cleared builder starts over");
  Require(static_cast<const Dense&>(*static_cast<const Simple&>(**three).dense_database_).size() == 1, "a cleared builder starts over");
}
void SimpleMultiplies() {
  auto d = std::make_unique<Half>();
  d->which = 0;
  const Simple db(std::move(d), 1, 1);
  const std::vector<std::vector<Block>>& s = AnyRef<std::vector<std::vector<Block>>>("s");
  auto r = db.InnerProductWith(s);
  if (verif::Fn<bool>("refused", 0, absl::MakeConstSpan(s))) {
    Require(!r.ok(), "errors are returned");
  } else {
    Require(r.ok() && verif::Same(*r, verif::Fn<std::vector<std::string>>("products", 0, absl::MakeConstSpan(s))), "the products are those of the buckets");
  }
}
}  // namespace verif_scn
