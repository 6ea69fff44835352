#ifndef VERIF_BdaGroupPredict_H
#define VERIF_BdaGroupPredict_H
#include "steps/absent.h"
namespace dp3 { namespace steps { class BdaGroupPredict : public AbsentStep { public: using AbsentStep::AbsentStep; }; }}
#endif
