#ifndef VERIF_GainCal_H
#define VERIF_GainCal_H
#include "steps/absent.h"
namespace dp3 { namespace steps { class GainCal : public AbsentStep { public: using AbsentStep::AbsentStep; }; }}
#endif
