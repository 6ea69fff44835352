#ifndef VERIF_AntennaFlagger_H
#define VERIF_AntennaFlagger_H
#include "steps/absent.h"
namespace dp3 { namespace steps { class AntennaFlagger : public AbsentStep { public: using AbsentStep::AbsentStep; }; }}
#endif
