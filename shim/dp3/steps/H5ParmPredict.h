#ifndef VERIF_H5ParmPredict_H
#define VERIF_H5ParmPredict_H
#include "steps/absent.h"
namespace dp3 { namespace steps { class H5ParmPredict : public AbsentStep { public: using AbsentStep::AbsentStep; }; }}
#endif
