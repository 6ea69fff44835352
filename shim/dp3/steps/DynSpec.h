#ifndef VERIF_DynSpec_H
#define VERIF_DynSpec_H
#include "steps/absent.h"
namespace dp3 { namespace steps { class DynSpec : public AbsentStep { public: using AbsentStep::AbsentStep; }; }}
#endif
