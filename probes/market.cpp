// instantiates the header-only parts of the public interface a client uses
#include <optional>
#include <string>
#include "market_data/market_data.h"
void probe_market(const std::string& t, double S, double v, double q, std::optional<double> c) {
    OptionPricer::MarketData::getInstance()->addStock(t, S, v);
    OptionPricer::MarketData::getInstance()->addStock(t, S, v, q);
    OptionPricer::MarketData::getInstance()->addStock(t, S, v, c);
}
