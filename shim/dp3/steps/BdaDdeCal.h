#ifndef VERIF_BdaDdeCal_H
#define VERIF_BdaDdeCal_H
#include "steps/absent.h"
namespace dp3 { namespace steps { class BdaDdeCal : public AbsentStep { public: using AbsentStep::AbsentStep; }; }}
#endif
