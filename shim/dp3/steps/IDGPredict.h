#ifndef VERIF_IDGPredict_H
#define VERIF_IDGPredict_H
#include "steps/absent.h"
namespace dp3 { namespace steps { class IDGPredict : public AbsentStep { public: using AbsentStep::AbsentStep; }; }}
#endif
