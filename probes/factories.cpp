#include "option/single_path/factory_european_option.h"
#include "option/single_path/factory_digital_option.h"
#include "option/single_path/factory_double_digital_option.h"
#include "option/path_dependent/factory_american_option.h"
#include "option/path_dependent/factory_asian_option.h"
#include "option/path_dependent/factory_barrier_option.h"
#include "option/path_dependent/factory_lookback_option.h"
using namespace OptionPricer;
template <class F> void probe_factory(const ParameterObject& p) {
    F f;
    (void) f.createCallOption(p);
    (void) f.createPutOption(p);
}
void probe_factories(const ParameterObject& p) {
    probe_factory<EuropeanOptionFactory>(p);
    probe_factory<DigitalOptionFactory>(p);
    probe_factory<DoubleDigitalOptionFactory>(p);
    probe_factory<AmericanOptionFactory>(p);
    probe_factory<ArithmeticAsianOptionFactory>(p);
    probe_factory<GeometricAsianOptionFactory>(p);
    probe_factory<KnockInBarrierOptionFactory>(p);
    probe_factory<KnockOutBarrierOptionFactory>(p);
    probe_factory<FloatingStrikeLookbackOptionFactory>(p);
    probe_factory<FixedStrikeLookbackOptionFactory>(p);
}
