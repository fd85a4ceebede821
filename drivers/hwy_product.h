// The vectorised inner product.  The including file chooses the number of
// blocks in a vector.
#include "pir/internal/inner_product_hwy.cc"
#include "verif.h"
using verif::Any; using verif::AnyRef; using verif::Require; using verif::Assume;
namespace verif_scn {
namespace HWY_NAMESPACE {
using namespace distributed_point_functions;
using absl::uint128;
namespace kernel = distributed_point_functions::pir_internal::HWY_NAMESPACE;
using Selection = XorWrapper<uint128>;
constexpr int B = hwy::HWY_NAMESPACE::kBlocks;
inline bool AlignedTo(const char* p, int n) { return reinterpret_cast<uintptr_t>(p) % n == 0; }

// Values of the given sizes and alignment, against one arbitrary
// selection, or two that treat the values in all four ways.
template <bool kVector, int kAlign, int kSelections, int... kSizes>
void Sums() {
  constexpr int kValues = sizeof...(kSizes);
  constexpr int sizes[] = {kSizes...};
  int max = 0;
  for (int i = 0; i < kValues; ++i) max = sizes[i] > max ? sizes[i] : max;
  std::vector<std::string> strings;
  for (int i = 0; i < kValues; ++i) {
    std::string s(sizes[i], '\0');
    for (int j = 0; j < sizes[i]; ++j) s[j] = verif::Fresh<char>("byte");
    strings.push_back(s);
  }
  std::vector<absl::string_view> values;
  for (int i = 0; i < kValues; ++i) {
    values.push_back(strings[i]);
    for (int n = 2; n <= 16 * B; n *= 2) {
      if (n >= 16) Assume(AlignedTo(values[i].data(), n) == (n <= kAlign));
      else if (n <= kAlign) Assume(AlignedTo(values[i].data(), n));
    }
  }
  std::vector<std::vector<Selection>> selections;
  const uint128 patterns[] = {absl::MakeUint128(0xcccccccccccccccc, 0xcccccccccccccccc), absl::MakeUint128(0xaaaaaaaaaaaaaaaa, 0xaaaaaaaaaaaaaaaa)};
  for (int k = 0; k < kSelections; ++k) {
    std::vector<Selection> s;
    for (int i = 0; i < (kValues + 127) / 128; ++i) {
      if constexpr (kSelections == 1) {
        s.push_back(Selection(verif::Fresh<uint128>("selection")));
      } else {
        s.push_back(Selection(patterns[k]));
      }
    }
    selections.push_back(s);
  }
  absl::StatusOr<std::vector<std::string>> result = kVector ? kernel::InnerProductHwy(values, selections, max + 3)
                                                            : pir_internal::InnerProductNoHwy(values, selections, max + 3);
  if (!result.ok()) return;
  Require(result->size() == kSelections, "one result for each selection");
  for (int k = 0; k < kSelections; ++k) {
    Require((*result)[k].size() == max + 3, "every result has the size asked for");
    for (int j = 0; j < max + 3; ++j) {
      char want = 0;
      for (int i = 0; i < kValues; ++i) {
        const bool selected = (selections[k][i / 128].value() & (uint128{1} << (i % 128))) != 0;
        if (j < sizes[i]) want ^= selected ? strings[i][j] : '\0';
      }
      Require((*result)[k][j] == want, "every byte is the sum of that byte of the selected values");
    }
  }
}

// More values than one selection block covers.
template <bool kVector, int kAlign>
void SumsOfMany() {
  constexpr int kValues = 131;
  std::vector<std::string> strings;
  std::vector<absl::string_view> values;
  for (int i = 0; i < kValues; ++i) {
    std::string s(1, '\0');
    s[0] = verif::Fresh<char>("byte");
    strings.push_back(s);
  }
  for (int i = 0; i < kValues; ++i) {
    values.push_back(strings[i]);
    for (int n = 2; n <= 16 * B; n *= 2) {
      if (n >= 16) Assume(AlignedTo(values[i].data(), n) == (n <= kAlign));
      else if (n <= kAlign) Assume(AlignedTo(values[i].data(), n));
    }
  }
  const uint128 second = verif::Fresh<uint128>("selection");
  const std::vector<Selection> selection = {Selection(absl::MakeUint128(uint64_t{1} << 63, 1)), Selection(second)};
  const std::vector<std::vector<Selection>> selections = {selection};
  absl::StatusOr<std::vector<std::string>> result = kVector ? kernel::InnerProductHwy(values, selections, 1)
                                                            : pir_internal::InnerProductNoHwy(values, selections, 1);
  if (!result.ok()) return;
  char want = strings[0][0] ^ strings[127][0];
  for (int i = 128; i < kValues; ++i) want ^= (second & (uint128{1} << (i - 128))) != 0 ? strings[i][0] : '\0';
  Require(result->size() == 1 && (*result)[0].size() == 1 && (*result)[0][0] == want, "values beyond the first block are selected by the next one");
}

// Which inputs the inner product refuses, and what it passes on.
inline std::string Product(const absl::string_view& value, const std::vector<Selection>& s, int64_t max, size_t n, size_t k) {
  return verif::Fn<std::string>("product", value, s, max, n, k);
}
inline absl::StatusOr<std::vector<std::string>> ModelProduct(absl::Span<const absl::string_view> values,
                                                             absl::Span<const std::vector<Selection>> selections, int64_t max) {
  std::vector<std::string> r;
  r.push_back(Product(values.empty() ? absl::string_view() : values[0], selections[0], max, values.size(), selections.size()));
  return r;
}
template <int kSelections>
void Refuses() {
  const std::vector<absl::string_view>& values = AnyRef<std::vector<absl::string_view>>("values");
  const int64_t max = Any<int64_t>("max");
  std::vector<std::vector<Selection>> selections;
  if (kSelections > 0) selections.push_back(AnyRef<std::vector<Selection>>("selection"));
  if (kSelections > 1) selections.push_back(AnyRef<std::vector<Selection>>("another selection"));
  for (const std::vector<Selection>& s : selections) Assume(s.size() < (size_t{1} << 31));
  Assume(values.size() < (size_t{1} << 31));
  absl::StatusOr<std::vector<std::string>> result = pir_internal::InnerProduct(values, selections, max);
  if constexpr (kSelections == 0) {
    Require(result.ok() && result->empty(), "no selections give no results");
  } else {
    bool good = max > 0;
    for (int k = 0; k < kSelections; ++k) {
      good = good && selections[k].size() * 128 >= values.size() && selections[k].size() == selections[0].size();
    }
    bool small = true;
    for (size_t i = 0; i < values.size(); ++i) {
      if (values[i].size() > static_cast<uint64_t>(max)) { small = false; break; }
    }
    if (good && small) {
      Require(result.ok() && result->size() == 1 &&
                  (*result)[0] == Product(values.empty() ? absl::string_view() : values[0], selections[0], max, values.size(), kSelections),
              "good inputs are multiplied as they are");
    } else {
      Require(result.status().code() == absl::StatusCode::kInvalidArgument,
              "too few or unequal numbers of selection bits, no size, or too large values are refused");
    }
  }
}

// Adding one string to another in place, in blocks or bytes.
template <int kSize, bool kAligned>
void Adds() {
  std::string value(kSize, '\0'), result(kSize + 20, '\0');
  for (int j = 0; j < kSize; ++j) value[j] = verif::Fresh<char>("byte");
  for (int j = 0; j < kSize + 20; ++j) result[j] = verif::Fresh<char>("old");
  const std::string old = result;
  const absl::string_view source = value;
  if (kAligned) {
    Assume(AlignedTo(source.data(), 16) && AlignedTo(&result[0], 16));
  } else {
    Assume(!AlignedTo(source.data(), 16) || !AlignedTo(&result[0], 16));
  }
  pir_internal::XorStringInPlaceNoHwy(source, &result[0]);
  for (int j = 0; j < kSize + 20; ++j) {
    char want = old[j];
    if (j < kSize) want ^= value[j];
    Require(result[j] == want, "the bytes of the value are added, and no others");
  }
}
}  // namespace HWY_NAMESPACE
}  // namespace verif_scn
