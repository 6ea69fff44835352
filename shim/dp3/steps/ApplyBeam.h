#ifndef VERIF_ApplyBeam_H
#define VERIF_ApplyBeam_H
#include "steps/absent.h"
namespace dp3 { namespace steps { class ApplyBeam : public AbsentStep { public: using AbsentStep::AbsentStep; }; }}
#endif
