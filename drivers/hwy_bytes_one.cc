// Vectors of 16 bytes.
#define HWY_MODEL_BYTES
#define HWY_MODEL_BLOCKS 1
#define HWY_MODEL_NAMESPACE N_ONE
#include "hwy_product.h"
namespace verif_scn {
using namespace N_ONE;
void OneProducts() { Sums<true, 16, 2, 37, 0, 16, 7>(); }
void OneProduct() { Sums<true, 16, 1, 19, 31>(); }
void OneProductsUnaligned() { Sums<true, 1, 2, 17, 0, 16, 7>(); }
void OneProductUnaligned() { Sums<true, 1, 1, 19, 31>(); }
void PortableProducts() { Sums<false, 1, 2, 17, 0, 16, 7>(); }
void PortableProductsAligned() { Sums<false, 16, 2, 37, 0, 16, 7>(); }
void PortableProduct() { Sums<false, 1, 1, 19, 31>(); }
void AddsBlocks() { Adds<37, true>(); }
void AddsWholeBlocks() { Adds<32, true>(); }
void ManyProducts() { SumsOfMany<true, 16>(); }
void ManyProductsUnaligned() { SumsOfMany<true, 1>(); }
void PortableManyProducts() { SumsOfMany<false, 1>(); }
void RefusesNone() { Refuses<0>(); }
void RefusesOne() { Refuses<1>(); }
void RefusesTwo() { Refuses<2>(); }
void AddsBytes() { Adds<17, false>(); }
}  // namespace verif_scn
