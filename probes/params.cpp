#include <string>
#include "option/parameter_object.h"
void probe_params(const OptionPricer::ParameterObject& p, const std::string& n) {
    (void) p.getParameter<int>(n);
    (void) p.getParameter<double>(n);
    (void) p.getParameter<std::string>(n);
    (void) p.getParameter<OptionPricer::BarrierDirection>(n);
}
