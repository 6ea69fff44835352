#ifndef VERIF_Predict_H
#define VERIF_Predict_H
#include "steps/absent.h"
namespace dp3 { namespace steps { class Predict : public AbsentStep { public: using AbsentStep::AbsentStep; }; }}
#endif
