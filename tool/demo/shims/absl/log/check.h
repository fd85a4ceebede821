#include "absl/log/absl_check.h"
#ifndef CHECK
#define CHECK(c) ABSL_CHECK(c)
#define DCHECK(c) ABSL_DCHECK(c)
#endif
