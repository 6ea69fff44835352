#ifndef VERIF_DDECal_H
#define VERIF_DDECal_H
#include "steps/absent.h"
namespace dp3 { namespace steps { class DDECal : public AbsentStep { public: using AbsentStep::AbsentStep; }; }}
#endif
