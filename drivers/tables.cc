// Hash tables of the keyword PIR protocols.
#include "pir/hashing/cuckoo_hash_table.h"
#include "pir/hashing/multiple_choice_hash_table.h"
#include "pir/hashing/simple_hash_table.h"
#include "verif.h"
using namespace distributed_point_functions;
using verif::Any; using verif::AnyRef; using verif::Require;
namespace verif_scn {

int Bucket(int i, absl::string_view key, int buckets) {
  int r = verif::Fn<int>("bucket", i, std::string(key), buckets);
  verif::Assume(0 <= r && r < buckets);
  return r;
}
// k hash functions; function i may only be chosen for 0 <= i < k.
std::vector<HashFunction> Functions(int k) {
  std::vector<HashFunction> fs;
  for (int i = 0; i < k; ++i) {
    fs.push_back(HashFunction([i, k](absl::string_view key, int buckets) -> int {
      Require(0 <= i && i < k, "only configured hash functions are used");
      return Bucket(i, key, buckets);
    }));
  }
  return fs;
}

void SimpleTableCreate() {
  int k = Any<int>("k"), buckets = Any<int>("buckets");
  verif::Assume(k >= 0);
  absl::optional<int> max = Any<absl::optional<int>>("max");
  auto t = SimpleHashTable::Create(Functions(k), buckets, max);
  Require(t.ok() == (buckets > 0 && k > 0 && (!max.has_value() || *max > 0)), "created exactly for valid parameters");
  if (!t.ok()) return;
  Require((*t)->GetTable().size() == buckets, "one entry per bucket");
  int b = Any<int>("b");
  if (0 <= b && b < buckets) Require((*t)->GetTable()[b].empty(), "buckets start empty");
  Require((*t)->GetHashFunctions().size() == k, "all hash functions are used");
}
void SimpleTableFromFamily() {
  int k = Any<int>("k"), buckets = Any<int>("buckets");
  absl::optional<int> max = Any<absl::optional<int>>("max");
  HashFamily family = [](absl::string_view seed) -> HashFunction {
    std::string s = std::string(seed);
    return HashFunction([s](absl::string_view key, int b) -> int { return verif::Fn<int>("base", s, std::string(key), b); });
  };
  auto t = SimpleHashTable::Create(std::move(family), buckets, k, max);
  Require(t.ok() == (buckets > 0 && k > 0 && (!max.has_value() || *max > 0)), "created exactly for valid parameters");
  if (t.ok()) Require((*t)->GetHashFunctions().size() == k, "all hash functions are used");
}
template <int K>
void SimpleInsert() {
  int buckets = Any<int>("buckets");
  absl::optional<int> max = Any<absl::optional<int>>("max");
  auto t = SimpleHashTable::Create(Functions(K), buckets, max);
  if (!t.ok()) return;
  (*t)->table_ = Any<std::vector<std::vector<std::string>>>("table");
  verif::Assume((*t)->table_.size() == buckets);
  const std::vector<std::vector<std::string>> before = (*t)->table_;
  std::string x = Any<std::string>("x");
  absl::Status status = (*t)->Insert(x);
  const std::vector<std::vector<std::string>>& after = (*t)->GetTable();
  int b = Any<int>("b");
  verif::Assume(0 <= b && b < buckets);
  int copies = 0;
  for (int i = 0; i < K; ++i) copies += Bucket(i, x, buckets) == b ? 1 : 0;
  if (!status.ok()) {
    Require(verif::Same(before[b], after[b]), "an element that is refused leaves every bucket as it was");
    Require(max.has_value(), "nothing is refused without a maximum size");
    return;
  }
  Require(after.size() == buckets, "the number of buckets stays");
  Require(after[b].size() == before[b].size() + copies, "the element is in the bucket of every hash function");
  int j = Any<int>("j");
  verif::Assume(0 <= j && j < after[b].size());
  if (j < before[b].size()) Require(after[b][j] == before[b][j], "earlier elements stay");
  else Require(after[b][j] == x, "the element is appended");
  if (max.has_value() && before[b].size() <= *max) Require(after[b].size() <= *max, "no bucket exceeds the maximum size");
}
template <int K>
void SimpleRefuses() {
  int buckets = Any<int>("buckets");
  absl::optional<int> max = Any<absl::optional<int>>("max");
  auto t = SimpleHashTable::Create(Functions(K), buckets, max);
  if (!t.ok()) return;
  (*t)->table_ = Any<std::vector<std::vector<std::string>>>("table");
  verif::Assume((*t)->table_.size() == buckets);
  const std::vector<std::vector<std::string>> before = (*t)->table_;
  std::string x = Any<std::string>("x");
  if (max.has_value()) {
    for (int i = 0; i < K; ++i) verif::Assume(before[Bucket(i, x, buckets)].size() + K <= *max);
  }
  Require((*t)->Insert(x).ok(), "an element for which all its buckets have room is accepted");
}
void SimpleInsertOne() { SimpleInsert<1>(); }
void SimpleInsertTwo() { SimpleInsert<2>(); }
void SimpleInsertThree() { SimpleInsert<3>(); }
void SimpleAccepts() { SimpleRefuses<1>(); SimpleRefuses<2>(); SimpleRefuses<3>(); }

void ChoiceTableCreate() {
  int k = Any<int>("k"), buckets = Any<int>("buckets");
  verif::Assume(k >= 0);
  absl::optional<int> max = Any<absl::optional<int>>("max");
  auto t = MultipleChoiceHashTable::Create(Functions(k), buckets, max);
  Require(t.ok() == (buckets > 0 && k > 1 && (!max.has_value() || *max > 0)), "created exactly for valid parameters");
  if (!t.ok()) return;
  Require((*t)->GetTable().size() == buckets, "one entry per bucket");
  int b = Any<int>("b");
  if (0 <= b && b < buckets) Require((*t)->GetTable()[b].empty(), "buckets start empty");
}
template <int K>
void ChoiceInsert() {
  int buckets = Any<int>("buckets");
  absl::optional<int> max = Any<absl::optional<int>>("max");
  auto t = MultipleChoiceHashTable::Create(Functions(K), buckets, max);
  if (!t.ok()) return;
  (*t)->table_ = Any<std::vector<std::vector<std::string>>>("table");
  verif::Assume((*t)->table_.size() == buckets);
  const std::vector<std::vector<std::string>> before = (*t)->table_;
  std::string x = Any<std::string>("x");
  bool room = false;
  for (int i = 0; i < K; ++i)
    if (!max.has_value() || before[Bucket(i, x, buckets)].size() < *max) room = true;
  absl::Status status = (*t)->Insert(x);
  Require(status.ok() == room, "accepted exactly if one of the element's buckets has room");
  const std::vector<std::vector<std::string>>& after = (*t)->GetTable();
  int b = Any<int>("b");
  verif::Assume(0 <= b && b < buckets);
  if (!status.ok()) {
    Require(verif::Same(before[b], after[b]), "an element that is refused leaves every bucket as it was");
    return;
  }
  Require(after.size() == buckets, "the number of buckets stays");
  bool mine = false, least = true;
  for (int i = 0; i < K; ++i) {
    int h = Bucket(i, x, buckets);
    if (h == b) mine = true;
    if (before[h].size() < before[b].size()) least = false;
  }
  if (!mine || !least) Require(verif::Same(before[b], after[b]), "only a least loaded bucket of the element changes");
  int total = 0;
  bool seen = false;
  for (int i = 0; i < K; ++i) {
    int h = Bucket(i, x, buckets);
    if (after[h].size() == before[h].size() + 1 && after[h].back() == x) seen = true;
  }
  Require(seen, "the element is in one of its buckets");
  int j = Any<int>("j");
  if (0 <= j && j < before[b].size()) Require(after[b][j] == before[b][j], "earlier elements stay");
  if (max.has_value() && before[b].size() <= *max) Require(after[b].size() <= *max, "no bucket exceeds the maximum size");
}
void ChoiceInsertTwo() { ChoiceInsert<2>(); }
void ChoiceInsertThree() { ChoiceInsert<3>(); }

// --- cuckoo hashing, for a table in any state
void CuckooTableCreate() {
  int k = Any<int>("k"), buckets = Any<int>("buckets"), reloc = Any<int>("reloc");
  verif::Assume(k >= 0);
  absl::optional<int> max = Any<absl::optional<int>>("max");
  auto t = CuckooHashTable::Create(Functions(k), buckets, reloc, max);
  Require(t.ok() == (buckets > 0 && k > 1 && reloc >= 0 && (!max.has_value() || *max >= 0)), "created exactly for valid parameters");
  if (!t.ok()) return;
  Require((*t)->GetTable().size() == buckets, "one entry per bucket");
  int b = Any<int>("b");
  if (0 <= b && b < buckets) Require(!(*t)->GetTable()[b].has_value(), "buckets start empty");
  Require((*t)->GetStash().empty(), "the stash starts empty");
}
// The hash functions used so far.
std::vector<int>& Chosen() { return AnyRef<std::vector<int>>("chosen"); }
std::vector<HashFunction> Choices(int k) {
  std::vector<HashFunction> fs;
  for (int i = 0; i < k; ++i) {
    fs.push_back(HashFunction([i, k](absl::string_view key, int buckets) -> int {
      Require(0 <= i && i < k, "only configured hash functions are used");
      Chosen().push_back(i);
      return Bucket(i, key, buckets);
    }));
  }
  return fs;
}
bool Holds(const std::vector<absl::optional<std::string>>& table, int b, const std::string& x) {
  return table[b].has_value() && *table[b] == x;
}
// A lookup finds x: in one of its buckets or on the stash.
template <int R>
bool Found(const CuckooHashTable& t, bool stashed, const std::string& x, int buckets) {
  bool r = stashed && t.GetStash().back() == x;
  for (int c = 0; c < R; ++c)
    if (c < Chosen().size() && Holds(t.GetTable(), Bucket(Chosen()[c], x, buckets), x)) r = true;
  return r;
}
template <int R>
void CuckooInsert() {
  int k = Any<int>("k"), buckets = Any<int>("buckets");
  verif::Assume(k >= 0);
  absl::optional<int> max = Any<absl::optional<int>>("max");
  auto t = CuckooHashTable::Create(Choices(k), buckets, R, max);
  Chosen().clear();
  if (!t.ok()) return;
  (*t)->table_ = Any<std::vector<absl::optional<std::string>>>("table");
  (*t)->stash_ = Any<std::vector<std::string>>("stash");
  verif::Assume((*t)->table_.size() == buckets);
  if (max.has_value()) verif::Assume((*t)->stash_.size() <= *max);
  const std::vector<absl::optional<std::string>> before = (*t)->table_;
  const std::vector<std::string> stash = (*t)->stash_;
  std::string x = Any<std::string>("x");
  absl::Status status = (*t)->Insert(x);
  const std::vector<absl::optional<std::string>>& after = (*t)->GetTable();
  Require(after.size() == buckets, "the number of buckets stays");
  if (max.has_value()) Require((*t)->GetStash().size() <= *max, "the stash does not exceed its maximum size");
  int j = Any<int>("j");
  if (0 <= j && j < stash.size()) Require((*t)->GetStash()[j] == stash[j], "the elements on the stash stay");
  if (!status.ok()) {
    Require(max.has_value() && stash.size() == *max, "refused only when the stash is full");
    return;
  }
  bool stashed = (*t)->GetStash().size() > stash.size();
  Require(Found<R>(**t, stashed, x, buckets), "a lookup finds the new element");
  int b = Any<int>("b");
  if (0 <= b && b < buckets && before[b].has_value())
    Require(Holds(after, b, *before[b]) || Found<R>(**t, stashed, *before[b], buckets), "a lookup finds every earlier element");
  Require((*t)->GetStash().size() <= stash.size() + 1, "at most one element goes to the stash");
}
void CuckooInsertNone() {
  CuckooInsert<0>();
}
void CuckooInsertOne() { CuckooInsert<1>(); }
void CuckooInsertTwo() { CuckooInsert<2>(); }
}  // namespace verif_scn
