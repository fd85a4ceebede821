// Vectors of one block.
#define HWY_MODEL_BLOCKS 1
#define HWY_MODEL_NAMESPACE N_ONE
#include "hwy_eval.h"
namespace verif_scn {
using namespace N_ONE;
void OneOneLevel() { Walks<kMany, 1, 0, false>(); }
void OneTwoLevels() { Walks<kFew, 2, 0, false>(); }
void OneShifted() { Walks<kMany, 1, 70, false>(); }
void OneTop() { Walks<kFew, 2, 127, false>(); }
void OneWordPerSeed() { Walks<kMany, 1, 0, true>(); }
void OneWordsOfLevels() { Walks<kFew, 2, 3, true>(); }
void OneInPlace() { Walks<kMany, 1, 0, false, true>(); }
void OneHash() { Hashes(); }
}  // namespace verif_scn
