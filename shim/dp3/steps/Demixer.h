#ifndef VERIF_Demixer_H
#define VERIF_Demixer_H
#include "steps/absent.h"
namespace dp3 { namespace steps { class Demixer : public AbsentStep { public: using AbsentStep::AbsentStep; }; }}
#endif
