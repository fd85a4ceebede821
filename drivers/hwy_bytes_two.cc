// Vectors of 32 bytes.
#define HWY_MODEL_BYTES
#define HWY_MODEL_BLOCKS 2
#define HWY_MODEL_NAMESPACE N_TWO
#include "hwy_product.h"
namespace verif_scn {
using namespace N_TWO;
void TwoProducts() { Sums<true, 32, 2, 71, 0, 32, 23>(); }
void TwoProduct() { Sums<true, 32, 1, 63, 1>(); }
void TwoProductUnaligned() { Sums<true, 1, 1, 35, 31>(); }
void TwoProductHalfAligned() { Sums<true, 16, 1, 53, 31>(); }
}  // namespace verif_scn
