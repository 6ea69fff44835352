#ifndef VERIF_Clipper_H
#define VERIF_Clipper_H
#include "steps/absent.h"
namespace dp3 { namespace steps { class Clipper : public AbsentStep { public: using AbsentStep::AbsentStep; }; }}
#endif
