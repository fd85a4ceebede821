// Vectors of two blocks.
#define HWY_MODEL_BLOCKS 2
#define HWY_MODEL_NAMESPACE N_TWO
#include "hwy_eval.h"
namespace verif_scn {
using namespace N_TWO;
void TwoOneLevel() { Walks<kMany, 1, 0, false>(); }
void TwoTwoLevels() { Walks<kFew, 2, 0, false>(); }
void TwoShifted() { Walks<kMany, 1, 70, false>(); }
void TwoTop() { Walks<kFew, 2, 127, false>(); }
void TwoWordPerSeed() { Walks<kMany, 1, 0, true>(); }
void TwoWordsOfLevels() { Walks<kFew, 2, 3, true>(); }
void TwoInPlace() { Walks<kMany, 1, 0, false, true>(); }
void TwoHash() { Hashes(); }
void Dispatches() { Chooses<true>(); }
void FallsBack() { Chooses<false>(); }
void PortableWordPerSeed() { Walks<66, 1, 0, true, false, true, 65>(); }
void PortableWordsOfLevels() { Walks<3, 2, 126, true, false, true>(); }
void PortableInPlace() { Walks<2, 2, 127, false, true, true>(); }
}  // namespace verif_scn
