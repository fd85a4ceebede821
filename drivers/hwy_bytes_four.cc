// Vectors of 64 bytes.
#define HWY_MODEL_BYTES
#define HWY_MODEL_BLOCKS 4
#define HWY_MODEL_NAMESPACE N_FOUR
#include "hwy_product.h"
namespace verif_scn {
using namespace N_FOUR;
void FourProducts() { Sums<true, 64, 2, 70, 0, 64, 61>(); }
void FourProduct() { Sums<true, 64, 1, 127>(); }
}  // namespace verif_scn
