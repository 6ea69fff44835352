#ifndef VERIF_AartfaacReader_H
#define VERIF_AartfaacReader_H
#include "steps/absent.h"
namespace dp3 { namespace steps { class AartfaacReader : public AbsentInput { public: using AbsentInput::AbsentInput; }; }}
#endif
