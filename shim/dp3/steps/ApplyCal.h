#ifndef VERIF_ApplyCal_H
#define VERIF_ApplyCal_H
#include "steps/absent.h"
namespace dp3 { namespace steps { class ApplyCal : public AbsentStep { public: using AbsentStep::AbsentStep; }; }}
#endif
