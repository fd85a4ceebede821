#include "absl/log/absl_log.h"
#ifndef CHECK
#define CHECK(c) ABSL_CHECK(c)
#define DCHECK(c) ABSL_DCHECK(c)
#endif
