// Vectors of four blocks.
#define HWY_MODEL_BLOCKS 4
#define HWY_MODEL_NAMESPACE N_FOUR
#include "hwy_eval.h"
namespace verif_scn {
using namespace N_FOUR;
void FourOneLevel() { Walks<kMany, 1, 0, false>(); }
void FourTwoLevels() { Walks<kFew, 2, 0, false>(); }
void FourShifted() { Walks<kMany, 1, 70, false>(); }
void FourTop() { Walks<kFew, 2, 127, false>(); }
void FourWordPerSeed() { Walks<kMany, 1, 0, true>(); }
void FourWordsOfLevels() { Walks<kFew, 2, 3, true>(); }
void FourInPlace() { Walks<kMany, 1, 0, false, true>(); }
void FourHash() { Hashes(); }
}  // namespace verif_scn
