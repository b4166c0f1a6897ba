// Prints one line per finding: what the library under test does on the failing input, and "ok" or "WRONG".
#include <cstdio>
#include <cmath>
#include <memory>
#include <deque>
#include <stdexcept>
#include <vector>
#include <market_data/market_data.h>
#include <random/number_generator/pseudo_random_generator.h>
#include <random/number_generator/sobol_quasi_random_generator.h>
#include <random/distribution/continuous_uniform_distrib.h>
#include <random/distribution/standard_normal_distribution.h>
#include <numerical_analysis/basis_function/laguerre.h>
#include <model/kou_model.h>
#include <model/merton_jump_diffusion_model.h>
using namespace OptionPricer;
static int bad = 0;
static void line(const char* id, const char* what, bool ok) { std::printf("%-5s %-88s %s\n", id, what, ok ? "ok" : "WRONG"); if (!ok) ++bad; }
template <class F> static bool refuses(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
int main() {
    auto md = MarketData::getInstance();
    md->setR(0.05);
    md->addStock("A", 100, 0.2, 0.01);
    { bool r = refuses([&] { md->updateStockSigma("A", -0.3); });
      line("C01", "a refused volatility -0.3 leaves the volatility at 0.2", r && md->getStockData("A")->getSigma() == 0.2); }
    { md->addStock("D", 100, 0.2); auto h = md->getStockData("D"); md->addStock("D", 90, 0.2);
      line("C01", "a handle on a stock added again shows the new price", h->getPrice() == 90); }
    { PseudoRandomNumberGenerator a(1u, 7u), b(1u, 8u); StandardNormalDistribution d, e;
      line("C16", "seeds 7 and 8 give different numbers", a(d) != b(e)); }
    { ContinuousUniformDistribution u(5.0, 6.0); PseudoRandomNumberGenerator g(1u, 7u); const double x = g(u);
      line("C17", "a uniform draw on [5, 6] lies in [5, 6]", x >= 5 && x <= 6); }
    line("C18", "a generator of dimension 0 is refused", refuses([] { PseudoRandomNumberGenerator g(0u); }));
    { Eigen::VectorXd x(1); x << 3.0; line("C29", "the first Laguerre polynomial at 3 is -2", LaguerreBasisFunction(2).generate(x)(0, 1) == -2.0); }
    auto g = [] { return std::make_shared<PseudoRandomNumberGenerator>(1u, 7u); };
    line("C14", "a Kou model with eta1 = 0.5 (infinite mean jump) is refused", refuses([&] { KouModel m("A", md, g(), 1.0, 0.5, 0.5, 3.0); }));
    { md->addStock("B", 100, 0.0);
      MertonJumpDiffusionModel m("B", md, g(), 1.0, 0.3, 0.1);
      double s = 0; const int n = 200000;
      for (int i = 0; i < n; ++i) s += m.simulatePriceAtMaturity(1.0);
      const double fwd = 100 * std::exp(0.05);
      std::printf("      Merton mean %.3f, forward %.3f\n", s / n, fwd);
      line("C12", "a Merton model's mean price is the forward (1%)", std::fabs(s / n / fwd - 1) < 0.01); }
    std::printf("%d wrong\n", bad);
    return bad != 0;
}
