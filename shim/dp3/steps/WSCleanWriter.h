#ifndef VERIF_WSCleanWriter_H
#define VERIF_WSCleanWriter_H
#include "steps/absent.h"
namespace dp3 { namespace steps { class WSCleanWriter : public AbsentStep { public: using AbsentStep::AbsentStep; }; }}
#endif
