#ifndef VERIF_IDGImager_H
#define VERIF_IDGImager_H
#include "steps/absent.h"
namespace dp3 { namespace steps { class IDGImager : public AbsentStep { public: using AbsentStep::AbsentStep; }; }}
#endif
