#include "steps/absent.h"
namespace dp3 { namespace pythondp3 {
struct PyStep { static std::shared_ptr<steps::Step> create_instance(const common::ParameterSet&, const std::string&) { throw std::runtime_error("python is absent"); } };
}}
