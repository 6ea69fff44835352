#ifndef VERIF_SVPInput_H
#define VERIF_SVPInput_H
#include "steps/absent.h"
namespace dp3 { namespace steps { class SVPInput : public AbsentInput { public: using AbsentInput::AbsentInput; }; }}
#endif
