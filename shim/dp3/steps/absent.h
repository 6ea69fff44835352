// Stand-in for steps that need libraries that are not installed here: they
// can be named in a pipeline, but not be created.
#ifndef VERIF_ABSENT_H
#define VERIF_ABSENT_H
#include <stdexcept>
#include <string>
#include "steps/InputStep.h"
#include "steps/Step.h"
#include "common/ParameterSet.h"
namespace dp3 { namespace steps {
class AbsentStep : public Step {
 public:
  template <class... A> explicit AbsentStep(A&&...) { throw std::runtime_error("step needs a library that is absent"); }
  common::Fields getRequiredFields() const override { return {}; }
  common::Fields getProvidedFields() const override { return {}; }
  void show(std::ostream&) const override {}
  void finish() override {}
};
class AbsentInput : public InputStep {
 public:
  template <class... A> explicit AbsentInput(A&&...) { throw std::runtime_error("reader needs a library that is absent"); }
  void show(std::ostream&) const override {}
  void finish() override {}
  std::string msName() const override { return {}; }
  const casacore::Table& table() const override { throw std::runtime_error("absent"); }
};
}}
#endif
