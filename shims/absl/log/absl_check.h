// Stand-in for Abseil's absl/log/absl_check.h (the installed Abseil predates
// it), so that the parts of the library that need it can be parsed.
#ifndef VERIF_SHIM_ABSL_CHECK_H_
#define VERIF_SHIM_ABSL_CHECK_H_
#include <cstdio>
#include <cstdlib>
#include <iostream>
namespace verif_shim {
struct NullStream {
  template <typename T>
  NullStream& operator<<(const T&) { return *this; }
};
struct CheckFail {
  explicit CheckFail(const char* what) { std::fprintf(stderr, "CHECK failed: %s\n", what); }
  [[noreturn]] ~CheckFail() { std::abort(); }
  template <typename T>
  CheckFail& operator<<(const T&) { return *this; }
};
}  // namespace verif_shim
#define ABSL_CHECK(c) \
  while (!(c)) ::verif_shim::CheckFail(#c)
#define ABSL_QCHECK(c) ABSL_CHECK(c)
#define ABSL_CHECK_EQ(a, b) ABSL_CHECK((a) == (b))
#define ABSL_CHECK_NE(a, b) ABSL_CHECK((a) != (b))
#define ABSL_CHECK_LT(a, b) ABSL_CHECK((a) < (b))
#define ABSL_CHECK_LE(a, b) ABSL_CHECK((a) <= (b))
#define ABSL_CHECK_GT(a, b) ABSL_CHECK((a) > (b))
#define ABSL_CHECK_GE(a, b) ABSL_CHECK((a) >= (b))
#define ABSL_CHECK_OK(s) ABSL_CHECK((s).ok())
#define ABSL_DCHECK(c) \
  while (false && !(c)) ::verif_shim::NullStream()
#define ABSL_DCHECK_EQ(a, b) ABSL_DCHECK((a) == (b))
#define ABSL_DCHECK_NE(a, b) ABSL_DCHECK((a) != (b))
#define ABSL_DCHECK_LT(a, b) ABSL_DCHECK((a) < (b))
#define ABSL_DCHECK_LE(a, b) ABSL_DCHECK((a) <= (b))
#define ABSL_DCHECK_GT(a, b) ABSL_DCHECK((a) > (b))
#define ABSL_DCHECK_GE(a, b) ABSL_DCHECK((a) >= (b))
#define ABSL_DCHECK_OK(s) ABSL_DCHECK((s).ok())
#endif
