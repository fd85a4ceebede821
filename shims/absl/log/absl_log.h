#ifndef VERIF_SHIM_ABSL_LOG_H_
#define VERIF_SHIM_ABSL_LOG_H_
#include "absl/log/absl_check.h"
#define ABSL_LOG(sev) ::verif_shim::NullStream()
#define ABSL_LOG_FIRST_N(sev, n) ::verif_shim::NullStream()
#define ABSL_LOG_IF(sev, c) while (false && (c)) ::verif_shim::NullStream()
#define ABSL_DLOG(sev) ::verif_shim::NullStream()
#define ABSL_VLOG(sev) ::verif_shim::NullStream()
#endif
