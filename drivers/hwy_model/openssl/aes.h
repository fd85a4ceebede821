// The AES key schedule: an unspecified function of the key, whose first round
// key is the key itself.
#ifndef VERIF_HWY_MODEL_AES_H_
#define VERIF_HWY_MODEL_AES_H_
#include <cstdint>
#include "absl/numeric/int128.h"
#include "verif.h"
struct AES_KEY {
  absl::uint128 rd_key[15];
  int rounds;
};
inline int AES_set_encrypt_key(const uint8_t* key, unsigned bits, AES_KEY* out) {
  if (bits != 128) return -1;
  const absl::uint128 k = *reinterpret_cast<const absl::uint128*>(key);
  out->rd_key[0] = k;
  for (int r = 1; r < 15; ++r) out->rd_key[r] = verif::Fn<absl::uint128>("round_key", k, r);
  out->rounds = 10;
  return 0;
}
#endif
