#ifndef VERIF_WGridderPredict_H
#define VERIF_WGridderPredict_H
#include "steps/absent.h"
namespace dp3 { namespace steps { class WGridderPredict : public AbsentStep { public: using AbsentStep::AbsentStep; }; }}
#endif
