#ifndef VERIF_AOFlaggerStep_H
#define VERIF_AOFlaggerStep_H
#include "steps/absent.h"
namespace dp3 { namespace steps { class AOFlaggerStep : public AbsentStep { public: using AbsentStep::AbsentStep; }; }}
#endif
