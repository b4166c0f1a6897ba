From 65bef5909770cb7552c8ca1225642ce9928796cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:49 +0000
Subject: [PATCH 01/21] fix: reject an invalid stock update before it is stored

---
 include/market_data/stock_data.h |  2 +-
 src/market_data/stock_data.cpp   | 16 ++++++++--------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/market_data/stock_data.h b/include/market_data/stock_data.h
index 4796a6a..9bea2e9 100644
--- a/include/market_data/stock_data.h
+++ b/include/market_data/stock_data.h
@@ -23,7 +23,7 @@ namespace OptionPricer {
         void setPrice(const double& S);
         void setSigma(const double& sigma);
         void setCoupon(const std::optional<double>& c);
-        void validate() const;
+        static void validate(const double& S, const double& sigma, const std::optional<double>& c);
 
         double S_; // Stock Price
         double sigma_; // Volatility
diff --git a/src/market_data/stock_data.cpp b/src/market_data/stock_data.cpp
index a7775de..9789822 100644
--- a/src/market_data/stock_data.cpp
+++ b/src/market_data/stock_data.cpp
@@ -5,7 +5,7 @@ namespace OptionPricer {
 
     StockData::StockData(const double& S, const double& sigma, const std::optional<double>& c)
     : S_(S), sigma_(sigma), c_(c) {
-        validate();
+        validate(S_, sigma_, c_);
     }
 
     [[nodiscard]] double StockData::getPrice() const {
@@ -38,29 +38,29 @@ namespace OptionPricer {
     }
 
     void StockData::setPrice(const double& S) {
+        validate(S, sigma_, c_);
         S_ = S;
-        validate();
     }
 
     void StockData::setSigma(const double& sigma) {
+        validate(S_, sigma, c_);
         sigma_ = sigma;
-        validate();
     }
 
     void StockData::setCoupon(const std::optional<double>& c) {
+        validate(S_, sigma_, c);
         c_ = c;
-        validate();
     }
 
-    void StockData::validate() const {
-        if (S_ <= 0) {
+    void StockData::validate(const double& S, const double& sigma, const std::optional<double>& c) {
+        if (S <= 0) {
             throw std::invalid_argument("Price must be positive.");
         }
-        if (sigma_ < 0) {
+        if (sigma < 0) {
             throw std::invalid_argument("Sigma cannot be negative.");
         }
         // Check if the optional dividend was specified before accessing
-        if (c_.has_value() && (c_.value() < 0 || c_.value() > 1)) {
+        if (c.has_value() && (c.value() < 0 || c.value() > 1)) {
             throw std::invalid_argument("Coupon rate must be between 0 and 1.");
         }
     }
-- 
2.43.0


From a54db482edb011ca2d5faf15be34d4143275d09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:49 +0000
Subject: [PATCH 02/21] fix: keep the variance scheme passed to HestonModel

---
 src/model/heston_model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model/heston_model.cpp b/src/model/heston_model.cpp
index 4f1e276..6ec13df 100644
--- a/src/model/heston_model.cpp
+++ b/src/model/heston_model.cpp
@@ -27,7 +27,7 @@ namespace OptionPricer {
         */
 
         // Apply default discretization if nullptr is passed
-        if (!varDiscretization) {
+        if (!varDiscretization_) {
             varDiscretization_ = std::make_shared<CIRExplicitEulerDiscretization>();
         }
     }
-- 
2.43.0


From 6387b61012dd7cc9421d91d9f7c281faee2f6bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:49 +0000
Subject: [PATCH 03/21] fix: seed the pseudo random generator with the
 requested seed

---
 include/random/number_generator/pseudo_random_generator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/random/number_generator/pseudo_random_generator.h b/include/random/number_generator/pseudo_random_generator.h
index 3ffc680..08d4844 100644
--- a/include/random/number_generator/pseudo_random_generator.h
+++ b/include/random/number_generator/pseudo_random_generator.h
@@ -13,7 +13,7 @@ namespace OptionPricer {
         double operator()(Distribution& dist) const override;
 
     private:
-        mutable std::mt19937 generator_; // Mersenne Twister PRNG
+        mutable std::mt19937 generator_{seed_}; // Mersenne Twister PRNG
     };
 
 }
-- 
2.43.0


From 0312b211314bf21d7379bebff7d26ce4da9b843a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:49 +0000
Subject: [PATCH 04/21] fix: draw continuous uniforms on the requested interval

---
 src/random/distribution/continuous_uniform_distrib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/random/distribution/continuous_uniform_distrib.cpp b/src/random/distribution/continuous_uniform_distrib.cpp
index ebe5c43..0558a0a 100644
--- a/src/random/distribution/continuous_uniform_distrib.cpp
+++ b/src/random/distribution/continuous_uniform_distrib.cpp
@@ -2,7 +2,7 @@
 
 namespace OptionPricer {
     ContinuousUniformDistribution::ContinuousUniformDistribution(const double &a, const double &b)
-    : a_(a), b_(b) {
+    : a_(a), b_(b), uniform_dist_(a_, b_) {
         if (a_ >= b_)
             throw std::invalid_argument("a must lower than b");
     }
-- 
2.43.0


From 86c5fe346e0837ff8452b4d53993fceeb30db4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:19 +0000
Subject: [PATCH 05/21] fix: draw either an upward or a downward Kou jump and
 require eta1 > 1, eta2 > 0

---
 src/model/kou_model.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/model/kou_model.cpp b/src/model/kou_model.cpp
index f936c74..06697e3 100644
--- a/src/model/kou_model.cpp
+++ b/src/model/kou_model.cpp
@@ -15,9 +15,9 @@ namespace OptionPricer {
               lambda_(lambda), p_(p), eta1_(eta1), eta2_(eta2) {
         if (p_ < 0 || p_ > 1)
             throw std::invalid_argument("p must be between [0,1].");
-        if (eta1_ < 1)
+        if (eta1_ <= 1)
             throw std::invalid_argument("eta1 must be between larger than 1.");
-        if (eta2_ < 0)
+        if (eta2_ <= 0)
             throw std::invalid_argument("eta2 must be between larger than 0.");
         muJ_ = p_ * (eta1_ / (eta1_-1)) + (1-p_) * (eta2_ / (eta2_+1));
     }
@@ -59,9 +59,10 @@ namespace OptionPricer {
                 if (U < p_) {
                     const double upsideJump = (*generator_)(exponentialDistUp);
                     jumpSize += upsideJump;
+                } else {
+                    const double downsideJump = -(*generator_)(exponentialDistDown);
+                    jumpSize += downsideJump;
                 }
-                const double downsideJump = -(*generator_)(exponentialDistDown);
-                jumpSize += downsideJump;
             }
 
             // Update stock price
-- 
2.43.0


From fac1ce4c377f19c1c776563fc5b64ae76b4129ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:19 +0000
Subject: [PATCH 06/21] fix: give the variance gamma subordinator mean dt and
 variance nu*dt

---
 src/model/variance_gamma_model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model/variance_gamma_model.cpp b/src/model/variance_gamma_model.cpp
index a386bd3..a53b8d9 100644
--- a/src/model/variance_gamma_model.cpp
+++ b/src/model/variance_gamma_model.cpp
@@ -37,7 +37,7 @@ namespace OptionPricer {
         const double dt = T / static_cast<double>(steps);
 
         StandardNormalDistribution snDist;
-        GammaDistribution gammaDist(dt / nu_, nu_);
+        GammaDistribution gammaDist(dt / nu_, 1.0 / nu_); // shape and rate
 
         std::vector<double> prices(steps);
         for (int t = 0; t < steps; ++t) {
-- 
2.43.0


From 4643b49f95a6b949a8db9657fa577f2ff311c1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:19 +0000
Subject: [PATCH 07/21] fix: recompute the variance gamma drift correction from
 the current volatility

---
 include/model/variance_gamma_model.h |  3 ++-
 src/model/variance_gamma_model.cpp   | 17 +++++++++++++----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/include/model/variance_gamma_model.h b/include/model/variance_gamma_model.h
index 5c50ce6..99aa377 100644
--- a/include/model/variance_gamma_model.h
+++ b/include/model/variance_gamma_model.h
@@ -18,9 +18,10 @@ namespace OptionPricer {
         [[nodiscard]] std::vector<double> simulatePrices(const double& T) const override;
 
     private:
+        [[nodiscard]] double driftCorrection() const; // Martingale correction for the current volatility
+
         double nu_;    // Variance rate of the Gamma process
         double theta_; // Drift of the Brownian motion
-        double omega_; // Drift correction term
     };
 
 }
diff --git a/src/model/variance_gamma_model.cpp b/src/model/variance_gamma_model.cpp
index a53b8d9..d0e059f 100644
--- a/src/model/variance_gamma_model.cpp
+++ b/src/model/variance_gamma_model.cpp
@@ -17,13 +17,21 @@ namespace OptionPricer {
             throw std::invalid_argument("nu must be positive");
         }
 
-        // Calculate the omega correction term that makes the actualized stock price a martingale
-        const double sigma = stockData_->getSigma();
-        omega_ = (1.0 / nu_) * std::log(1.0 - theta_*nu_ - 0.5 * sigma*sigma * nu_);
+        driftCorrection(); // Reject parameters for which no martingale correction exists
     }
 
     VarianceGammaModel::~VarianceGammaModel() = default;
 
+    double VarianceGammaModel::driftCorrection() const {
+        // The omega correction term makes the actualized stock price a martingale
+        const double sigma = stockData_->getSigma();
+        const double arg = 1.0 - theta_*nu_ - 0.5 * sigma*sigma * nu_;
+        if (arg <= 0.0) {
+            throw std::invalid_argument("theta*nu + 0.5*sigma*sigma*nu must be lower than 1");
+        }
+        return (1.0 / nu_) * std::log(arg);
+    }
+
     double VarianceGammaModel::simulatePriceAtMaturity(const double &T) const {
         return simulatePrices(T).back();
     }
@@ -35,6 +43,7 @@ namespace OptionPricer {
         const double c = stockData_->getCoupon().value_or(0.0);
         const auto steps = getSteps();
         const double dt = T / static_cast<double>(steps);
+        const double omega = driftCorrection();
 
         StandardNormalDistribution snDist;
         GammaDistribution gammaDist(dt / nu_, 1.0 / nu_); // shape and rate
@@ -44,7 +53,7 @@ namespace OptionPricer {
             const double g = (*generator_)(gammaDist); // Gamma subordinator
             const double z = (*generator_)(snDist);  // Normal distributed increment
 
-            const double drift = (r - c + omega_) * dt;
+            const double drift = (r - c + omega) * dt;
             const double VG = theta_ * g + sigma * std::sqrt(g) * z;
 
             S *= std::exp(drift + VG);
-- 
2.43.0


From a86f398d37c9d94234a8ec178b0d1cacfb8e4679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:19 +0000
Subject: [PATCH 08/21] fix: compensate the jumps in the Merton and Bates
 drifts

---
 src/model/bates_model.cpp                 | 5 ++++-
 src/model/merton_jump_diffusion_model.cpp | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/model/bates_model.cpp b/src/model/bates_model.cpp
index 6c41cfd..375acc0 100644
--- a/src/model/bates_model.cpp
+++ b/src/model/bates_model.cpp
@@ -44,6 +44,9 @@ namespace OptionPricer {
         PoissonDistribution poissonDist(lambda_ * dt);
         NormalDistribution jumpDist(muJ_, sigmaJ_);
 
+        // Compensator that keeps the discounted stock price a martingale
+        const double compensator = lambda_ * (exp(muJ_ + 0.5 * sigmaJ_*sigmaJ_) - 1.0);
+
         std::vector<double> prices(steps);
         for (int t = 0; t < steps; ++t) {
 
@@ -55,7 +58,7 @@ namespace OptionPricer {
 
             // Update stock price S(t+1) using variance v(t)
             const double VMax = std::max(V, 0.0);
-            const double drift = (r - c - 0.5 * VMax) * dt;
+            const double drift = (r - c - 0.5 * VMax - compensator) * dt;
             const double diffusion = sqrt(VMax * dt) * zS;
             S *= exp(drift + diffusion);
 
diff --git a/src/model/merton_jump_diffusion_model.cpp b/src/model/merton_jump_diffusion_model.cpp
index 2007e55..8788464 100644
--- a/src/model/merton_jump_diffusion_model.cpp
+++ b/src/model/merton_jump_diffusion_model.cpp
@@ -35,10 +35,13 @@ namespace OptionPricer {
         PoissonDistribution poissonDist(lambda_ * dt);
         NormalDistribution jumpDist(muJ_, sigmaJ_);
 
+        // Compensator that keeps the discounted stock price a martingale
+        const double compensator = lambda_ * (exp(muJ_ + 0.5 * sigmaJ_*sigmaJ_) - 1.0);
+
         std::vector<double> prices(steps);
         for (int t = 0; t < steps; ++t) {
             // Drift Part
-            const double drift = (r - c - 0.5 * sigma*sigma) * dt;
+            const double drift = (r - c - 0.5 * sigma*sigma - compensator) * dt;
 
             // Diffusion part: Standard Brownian Motion
             const double z = (*generator_)(snDist);
-- 
2.43.0


From 8158768bad7464d2ead551609d5a27ad63cfe493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:19 +0000
Subject: [PATCH 09/21] fix: discount American cash flows on steps where no
 path is in the money

---
 src/solver/monte_carlo/mc_american.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/solver/monte_carlo/mc_american.cpp b/src/solver/monte_carlo/mc_american.cpp
index ca479d4..b24d6cf 100644
--- a/src/solver/monte_carlo/mc_american.cpp
+++ b/src/solver/monte_carlo/mc_american.cpp
@@ -87,6 +87,8 @@ namespace OptionPricer {
                         americanPrices(i) *= discountFactor;
                     }
                 }
+            } else {
+                americanPrices *= discountFactor;
             }
         }
 
@@ -163,6 +165,8 @@ namespace OptionPricer {
                         americanPrices(i) *= discountFactor;
                     }
                 }
+            } else {
+                americanPrices *= discountFactor;
             }
         }
 
-- 
2.43.0


From f43c85a95df63ae47c094670768dfc711ca8b1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:19 +0000
Subject: [PATCH 10/21] fix: use 1 - x as the first Laguerre polynomial

---
 src/numerical_analysis/basis_function/laguerre.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/numerical_analysis/basis_function/laguerre.cpp b/src/numerical_analysis/basis_function/laguerre.cpp
index 4ae3af8..32283f2 100644
--- a/src/numerical_analysis/basis_function/laguerre.cpp
+++ b/src/numerical_analysis/basis_function/laguerre.cpp
@@ -9,7 +9,7 @@ namespace OptionPricer {
         basis.col(0).setOnes(); // P0(x) = 1
 
         if (numberBasis_ > 1)
-            basis.col(1) = x; // P1(x) = x
+            basis.col(1) = 1 - x.array(); // P1(x) = 1 - x
 
         for (int n = 2; n < numberBasis_; ++n) {
             basis.col(n) = ((2 * (n-1) + 1 - x.array()) * basis.col(n-1).array()
-- 
2.43.0


From 01372dbc8ae135980d3c77695b35d17e875ace61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:43 +0000
Subject: [PATCH 11/21] fix: discount the Black-Scholes boundary values over
 the time to expiry

---
 .../pde/one_factor/black_scholes_pde.cpp                   | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/solver/finite_difference_method/pde/one_factor/black_scholes_pde.cpp b/src/solver/finite_difference_method/pde/one_factor/black_scholes_pde.cpp
index 8f29f66..7141f16 100644
--- a/src/solver/finite_difference_method/pde/one_factor/black_scholes_pde.cpp
+++ b/src/solver/finite_difference_method/pde/one_factor/black_scholes_pde.cpp
@@ -38,7 +38,8 @@ namespace OptionPricer::PDE::OneFactor {
             return 0.0;
         }
 
-        return payoff->getK();
+        // t is the time to expiry: it is 0 where the initial condition (the payoff) holds
+        return payoff->getK() * std::exp(-marketData_->getR() * t);
     }
 
     double BlackScholesPDE::boundaryRight(const double &t, const double &x) const {
@@ -50,8 +51,8 @@ namespace OptionPricer::PDE::OneFactor {
         if (option_->getPayoff().getPayoffType() == PayoffType::Call) {
             const double K = payoff->getK();
             const double r = marketData_->getR();
-            const double T = option_->getT();
-            return x - K * std::exp(-r * (T - t));
+            const double c = marketData_->getStockData(option_->getID())->getCoupon().value_or(0.0);
+            return x * std::exp(-c * t) - K * std::exp(-r * t);
         }
 
         return 0.0;
-- 
2.43.0


From 736acdcabcc9f01660adee23831f70ba32de2ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:43 +0000
Subject: [PATCH 12/21] fix: set the explicit scheme's boundary values at the
 new time level

---
 .../solver/one_factor/euler_explicit_fdm_solver.cpp           | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/finite_difference_method/solver/one_factor/euler_explicit_fdm_solver.cpp b/src/solver/finite_difference_method/solver/one_factor/euler_explicit_fdm_solver.cpp
index f2a87f5..0fa73f3 100644
--- a/src/solver/finite_difference_method/solver/one_factor/euler_explicit_fdm_solver.cpp
+++ b/src/solver/finite_difference_method/solver/one_factor/euler_explicit_fdm_solver.cpp
@@ -13,8 +13,8 @@ namespace OptionPricer::FDM::OneFactor {
     EulerExplicitFDM::~EulerExplicitFDM() = default;
 
     void EulerExplicitFDM::calculateBoundaryConditions() {
-        newPrices.front() = pde_->boundaryLeft(tPrev, xValues.front());
-        newPrices.back() = pde_->boundaryRight(tPrev, xValues.back());
+        newPrices.front() = pde_->boundaryLeft(tCurr, xValues.front());
+        newPrices.back() = pde_->boundaryRight(tCurr, xValues.back());
     }
 
     void EulerExplicitFDM::calculateInnerDomain() {
-- 
2.43.0


From 4ec0716bf8662ed36be59a99f15622a46704c223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:43 +0000
Subject: [PATCH 13/21] fix: solve the Crank-Nicolson system once it is fully
 assembled, with both boundary terms

---
 .../one_factor/crank_nicolson_fdm_solver.cpp  | 24 +++++++------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/src/solver/finite_difference_method/solver/one_factor/crank_nicolson_fdm_solver.cpp b/src/solver/finite_difference_method/solver/one_factor/crank_nicolson_fdm_solver.cpp
index d2ffaa4..2b9f305 100644
--- a/src/solver/finite_difference_method/solver/one_factor/crank_nicolson_fdm_solver.cpp
+++ b/src/solver/finite_difference_method/solver/one_factor/crank_nicolson_fdm_solver.cpp
@@ -82,24 +82,18 @@ namespace OptionPricer::FDM::OneFactor {
             gamma = -0.5 * (dtSig + dtSig2);  // RHS (explicit) upper diagonal
 
             // Add the explicit part
-            b[j-1] += beta * oldPrices[j];
-            if (j > 1) {
-                b[j-1] += alpha * oldPrices[j-1];
-            }
-            if (j < J_-2) {
-                b[j-1] += gamma * oldPrices[j+1];
-            }
+            b[j-1] += alpha * oldPrices[j-1] + beta * oldPrices[j] + gamma * oldPrices[j+1];
+        }
 
-            // Convert triplets to sparse matrices
-            A.setFromTriplets(tripletListA.begin(), tripletListA.end());
+        // Convert triplets to sparse matrices
+        A.setFromTriplets(tripletListA.begin(), tripletListA.end());
 
-            // Solve for the matrix system A * newPrices = b
-            Eigen::VectorXd solution = matrixSolver_->solve(A, b);
+        // Solve for the matrix system A * newPrices = b
+        Eigen::VectorXd solution = matrixSolver_->solve(A, b);
 
-            // Copy the solution to the internal prices
-            for (unsigned long j = 1; j < (J_-1); ++j) {
-                newPrices[j] = solution[j-1];
-            }
+        // Copy the solution to the internal prices
+        for (unsigned long j = 1; j < (J_-1); ++j) {
+            newPrices[j] = solution[j-1];
         }
     }
 
-- 
2.43.0


From 6a75e594273f12324ac4f7b42113814f598cac43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:43 +0000
Subject: [PATCH 14/21] fix: march the finite difference grid exactly N-1 steps
 and validate its size

---
 .../solver/one_factor/base_fdm_solver.cpp                | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp b/src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp
index 99b40c9..f2bec2c 100644
--- a/src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp
+++ b/src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp
@@ -13,6 +13,10 @@ namespace OptionPricer::FDM::OneFactor {
     : xDom_(xDom), J_(J), tDom_(tDom), N_(N),
     pde_(std::move(pde)), option_(std::move(option)), marketData_(std::move(marketData)),
       tPrev(0.0), tCurr(0.0), solved(false){
+        if (xDom_ <= 0 || tDom_ < 0)
+            throw std::invalid_argument("The spatial domain must be positive and the temporal domain non-negative.");
+        if (J_ < 3 || N_ < 2)
+            throw std::invalid_argument("The grid needs at least 3 spatial and 2 temporal points.");
         calculateStepSizes();
         calculateInitialConditions();
 
@@ -46,8 +50,9 @@ namespace OptionPricer::FDM::OneFactor {
     }
 
     std::vector<double> FDMSolver::solve() {
-        while(tCurr < tDom_) {
-            tCurr = tPrev + dt;
+        if (solved) return newPrices;
+        for (unsigned long n = 1; n < N_; ++n) {
+            tCurr = static_cast<double>(n) * dt;
             calculateBoundaryConditions();
             calculateInnerDomain(); // To be overiden in concrete classes
             oldPrices = newPrices;
-- 
2.43.0


From 43b4fc42b7685a253dc56460ed60c14dece7f1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:43 +0000
Subject: [PATCH 15/21] fix: do not keep the default model when a builder is
 reused

---
 .../monte_carlo/builder/mc_builder_american.cpp    |  7 ++++---
 .../monte_carlo/builder/mc_builder_asian.cpp       | 14 ++++++++------
 .../monte_carlo/builder/mc_builder_barrier.cpp     | 14 ++++++++------
 .../monte_carlo/builder/mc_builder_single_path.cpp |  7 ++++---
 .../monte_carlo/builder/mc_lookback_builder.cpp    | 14 ++++++++------
 5 files changed, 32 insertions(+), 24 deletions(-)

diff --git a/src/solver/monte_carlo/builder/mc_builder_american.cpp b/src/solver/monte_carlo/builder/mc_builder_american.cpp
index c3dd555..0d40a86 100644
--- a/src/solver/monte_carlo/builder/mc_builder_american.cpp
+++ b/src/solver/monte_carlo/builder/mc_builder_american.cpp
@@ -28,12 +28,13 @@ namespace OptionPricer {
 
     std::unique_ptr<MCPricer> AmericanMCBuilder::build() {
         if (!option_) throw std::logic_error("Option is not set for AmericanMCBuilder.");
-        if (!stockModel_) {
-            stockModel_ = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
+        auto stockModel = stockModel_;
+        if (!stockModel) {
+            stockModel = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
                                                                          marketData_,
                                                                          std::make_shared<PseudoRandomNumberGenerator>(52));
         }
-        return std::make_unique<AmericanMCPricer>(option_, marketData_, stockModel_,
+        return std::make_unique<AmericanMCPricer>(option_, marketData_, stockModel,
                                                   basisFunctionStrategy_, regressionStrategy_);
     }
 
diff --git a/src/solver/monte_carlo/builder/mc_builder_asian.cpp b/src/solver/monte_carlo/builder/mc_builder_asian.cpp
index 4087ed6..d274e3e 100644
--- a/src/solver/monte_carlo/builder/mc_builder_asian.cpp
+++ b/src/solver/monte_carlo/builder/mc_builder_asian.cpp
@@ -13,12 +13,13 @@ namespace OptionPricer {
 
     std::unique_ptr<MCPricer> ArithmeticAsianMCBuilder::build() {
         if (!option_) throw std::logic_error("Option is not set for ArithmeticAsianMCPricerBuilder.");
-        if (!stockModel_) {
-            stockModel_ = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
+        auto stockModel = stockModel_;
+        if (!stockModel) {
+            stockModel = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
                                                                          marketData_,
                                                                          std::make_shared<PseudoRandomNumberGenerator>(52));
         }
-        return std::make_unique<ArithmeticAsianMCPricer>(option_, marketData_, stockModel_);
+        return std::make_unique<ArithmeticAsianMCPricer>(option_, marketData_, stockModel);
     }
 
     // Geometric Asian
@@ -32,12 +33,13 @@ namespace OptionPricer {
 
     std::unique_ptr<MCPricer> GeometricAsianMCBuilder::build() {
         if (!option_) throw std::logic_error("Option is not set for GeometricAsianMCPricerBuilder.");
-        if (!stockModel_) {
-            stockModel_ = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
+        auto stockModel = stockModel_;
+        if (!stockModel) {
+            stockModel = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
                                                                          marketData_,
                                                                          std::make_shared<PseudoRandomNumberGenerator>(52));
         }
-        return std::make_unique<GeometricAsianMCPricer>(option_, marketData_, stockModel_);
+        return std::make_unique<GeometricAsianMCPricer>(option_, marketData_, stockModel);
     }
 
 }
diff --git a/src/solver/monte_carlo/builder/mc_builder_barrier.cpp b/src/solver/monte_carlo/builder/mc_builder_barrier.cpp
index a0cd91a..7887526 100644
--- a/src/solver/monte_carlo/builder/mc_builder_barrier.cpp
+++ b/src/solver/monte_carlo/builder/mc_builder_barrier.cpp
@@ -14,12 +14,13 @@ namespace OptionPricer {
 
     std::unique_ptr<MCPricer> KnockInBarrierMCBuilder::build() {
         if (!option_) throw std::logic_error("Option is not set for KnockInBarrierMCPricerBuilder.");
-        if (!stockModel_) {
-            stockModel_ = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
+        auto stockModel = stockModel_;
+        if (!stockModel) {
+            stockModel = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
                                                                          marketData_,
                                                                          std::make_shared<PseudoRandomNumberGenerator>(52));
         }
-        return std::make_unique<KnockInBarrierMCPricer>(option_, marketData_, stockModel_);
+        return std::make_unique<KnockInBarrierMCPricer>(option_, marketData_, stockModel);
     }
 
     // Knock-Out
@@ -33,12 +34,13 @@ namespace OptionPricer {
 
     std::unique_ptr<MCPricer> KnockOutBarrierMCBuilder::build() {
         if (!option_) throw std::logic_error("Option is not set for KnockOutBarrierMCPricerBuilder.");
-        if (!stockModel_) {
-            stockModel_ = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
+        auto stockModel = stockModel_;
+        if (!stockModel) {
+            stockModel = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
                                                                          marketData_,
                                                                          std::make_shared<PseudoRandomNumberGenerator>(52));
         }
-        return std::make_unique<KnockOutBarrierMCPricer>(option_, marketData_, stockModel_);
+        return std::make_unique<KnockOutBarrierMCPricer>(option_, marketData_, stockModel);
     }
 
 }
diff --git a/src/solver/monte_carlo/builder/mc_builder_single_path.cpp b/src/solver/monte_carlo/builder/mc_builder_single_path.cpp
index 7c1cb76..1dad58e 100644
--- a/src/solver/monte_carlo/builder/mc_builder_single_path.cpp
+++ b/src/solver/monte_carlo/builder/mc_builder_single_path.cpp
@@ -14,12 +14,13 @@ namespace OptionPricer {
 
     std::unique_ptr<MCPricer> MCSinglePathBuilder::build() {
         if (!option_) throw std::logic_error("Option is not set for AmericanMCPricerBuilder.");
-        if (!stockModel_) {
-            stockModel_ = std::make_unique<GeometricBrownianMotionModel>(option_->getID(),
+        auto stockModel = stockModel_;
+        if (!stockModel) {
+            stockModel = std::make_unique<GeometricBrownianMotionModel>(option_->getID(),
                                                                          marketData_,
                                                                          std::make_shared<PseudoRandomNumberGenerator>(52));
         }
-        return std::make_unique<SinglePathMCPricer>(option_, marketData_, stockModel_);
+        return std::make_unique<SinglePathMCPricer>(option_, marketData_, stockModel);
     }
 
 }
diff --git a/src/solver/monte_carlo/builder/mc_lookback_builder.cpp b/src/solver/monte_carlo/builder/mc_lookback_builder.cpp
index f38412b..519d1d9 100644
--- a/src/solver/monte_carlo/builder/mc_lookback_builder.cpp
+++ b/src/solver/monte_carlo/builder/mc_lookback_builder.cpp
@@ -15,12 +15,13 @@ namespace OptionPricer {
 
     std::unique_ptr<MCPricer> FloatingStrikeLookbackMCBuilder::build() {
         if (!option_) throw std::logic_error("Option is not set for FloatingStrikeLookbackMCBuilder.");
-        if (!stockModel_) {
-            stockModel_ = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
+        auto stockModel = stockModel_;
+        if (!stockModel) {
+            stockModel = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
                                                                          marketData_,
                                                                          std::make_shared<PseudoRandomNumberGenerator>(52));
         }
-        return std::make_unique<FloatingStrikeLookbackMCPricer>(option_, marketData_, stockModel_);
+        return std::make_unique<FloatingStrikeLookbackMCPricer>(option_, marketData_, stockModel);
     }
 
     // Fixed Strike
@@ -36,12 +37,13 @@ namespace OptionPricer {
 
     std::unique_ptr<MCPricer> FixedStrikeLookbackMCBuilder::build() {
         if (!option_) throw std::logic_error("Option is not set for FixedStrikeLookbackMCBuilder.");
-        if (!stockModel_) {
-            stockModel_ = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
+        auto stockModel = stockModel_;
+        if (!stockModel) {
+            stockModel = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
                                                                          marketData_,
                                                                          std::make_shared<PseudoRandomNumberGenerator>(52));
         }
-        return std::make_unique<FixedStrikeLookbackMCPricer>(option_, marketData_, stockModel_);
+        return std::make_unique<FixedStrikeLookbackMCPricer>(option_, marketData_, stockModel);
     }
 
 }
\ No newline at end of file
-- 
2.43.0


From 3074b7ffc2a9c872c4b783443f0d7a334060dbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:03 +0000
Subject: [PATCH 16/21] fix: reject number generators of dimension zero

---
 src/random/number_generator/base_generator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/random/number_generator/base_generator.cpp b/src/random/number_generator/base_generator.cpp
index 163f81b..6068834 100644
--- a/src/random/number_generator/base_generator.cpp
+++ b/src/random/number_generator/base_generator.cpp
@@ -4,12 +4,14 @@ namespace OptionPricer {
 
     NumberGenerator::NumberGenerator(const unsigned int &dim)
     : dim_(dim) {
+        validateDim();
         std::random_device rd;
         seed_ = rd();
     }
 
     NumberGenerator::NumberGenerator(const unsigned int &dim, const unsigned int& seed)
     : dim_(dim), seed_(seed) {
+        validateDim();
         if (seed_ < 0) {
             throw std::invalid_argument("seed parameter must be a positive integer");
         }
@@ -22,7 +24,7 @@ namespace OptionPricer {
     }
 
     void NumberGenerator::validateDim() const {
-        if (dim_ < 0) {
+        if (dim_ == 0) {
             throw std::invalid_argument("dim must be a positive integer");
         }
     }
-- 
2.43.0


From f808dd83ddb70425c18feedd7fe50b60ba50972e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:03 +0000
Subject: [PATCH 17/21] fix: notify a snapshot of the observers so that an
 update may add or drop observers

---
 src/market_data/market_data.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/market_data/market_data.cpp b/src/market_data/market_data.cpp
index e299158..c201baf 100644
--- a/src/market_data/market_data.cpp
+++ b/src/market_data/market_data.cpp
@@ -33,7 +33,8 @@ namespace OptionPricer {
     }
 
     void MarketData::notifyObserver(const std::string& id) const {
-        for (const auto& observer : observers_) {
+        const auto observers = observers_; // update() may add or remove observers
+        for (const auto& observer : observers) {
             if (auto obs = observer.lock()) {
                 if (obs->getID() == id) {
                     obs->update();
@@ -44,7 +45,8 @@ namespace OptionPricer {
 
     // Overloaded method that notify all observers
     void MarketData::notifyObservers() const {
-        for (const auto& observer : observers_) {
+        const auto observers = observers_; // update() may add or remove observers
+        for (const auto& observer : observers) {
             if (auto obs = observer.lock()) {
                 obs->update();
             }
-- 
2.43.0


From 96d2d9586d65f6da7139e4dab799df7b66f697e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:03 +0000
Subject: [PATCH 18/21] fix: name FaureGenerator's parameters in the order they
 are used

---
 include/random/number_generator/faure_quasi_random_generator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/random/number_generator/faure_quasi_random_generator.h b/include/random/number_generator/faure_quasi_random_generator.h
index 6700ebf..5bee64a 100644
--- a/include/random/number_generator/faure_quasi_random_generator.h
+++ b/include/random/number_generator/faure_quasi_random_generator.h
@@ -9,7 +9,7 @@ namespace OptionPricer {
     class FaureGenerator final: public QuasiRandomNumberGenerator {
     public:
         explicit FaureGenerator(const unsigned int& dim);
-        FaureGenerator(const unsigned int& seed, const unsigned int& dim);
+        FaureGenerator(const unsigned int& dim, const unsigned int& seed);
 
         ~FaureGenerator() override;
 
-- 
2.43.0


From ffad210ee2d54266b2edf27edb0f94f8d011523a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:03 +0000
Subject: [PATCH 19/21] fix: count Monte Carlo paths with the type of the path
 count

---
 src/solver/monte_carlo/mc_american.cpp    | 12 ++++++------
 src/solver/monte_carlo/mc_barrier.cpp     |  2 +-
 src/solver/monte_carlo/mc_lookback.cpp    |  2 +-
 src/solver/monte_carlo/mc_single_path.cpp |  2 +-
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/solver/monte_carlo/mc_american.cpp b/src/solver/monte_carlo/mc_american.cpp
index b24d6cf..4d311f5 100644
--- a/src/solver/monte_carlo/mc_american.cpp
+++ b/src/solver/monte_carlo/mc_american.cpp
@@ -33,7 +33,7 @@ namespace OptionPricer {
 
         // Step 1: Simulate paths
         Eigen::MatrixXd paths(N, steps);
-        for (int i = 0; i < N; ++i) {
+        for (unsigned long i = 0; i < N; ++i) {
             std::vector<double> prices = stockModel_->simulatePrices(option_->getT());
             paths.row(i) = Eigen::Map<Eigen::VectorXd>(prices.data(), prices.size());
         }
@@ -48,7 +48,7 @@ namespace OptionPricer {
             std::vector<double> inTheMoneyPaths, discountedCashFlows;
             std::vector<bool> isInTheMoney;
 
-            for (int i = 0; i < N; ++i) {
+            for (unsigned long i = 0; i < N; ++i) {
                 const double exerciseValue = option_->payoff(paths(i, j));
 
                 // Collect In-The-Money paths
@@ -73,7 +73,7 @@ namespace OptionPricer {
 
                 // Step 5: Determine whether to exercise or continue
                 int idxITM = 0;
-                for (int i = 0; i < N; ++i) {
+                for (unsigned long i = 0; i < N; ++i) {
                     if (isInTheMoney[i]) {
                         const double exerciseValue = option_->payoff(paths(i, j));
                         const double continuationValue = inTheMoneyBases.row(idxITM) * coeffs;
@@ -108,7 +108,7 @@ namespace OptionPricer {
 
         // Step 1: Simulate paths at maturity
         Eigen::VectorXd paths(N);
-        for (int i = 0; i < N; ++i) {
+        for (unsigned long i = 0; i < N; ++i) {
             paths(i) = stockModel_->simulatePriceAtMaturity(option_->getT());
         }
 
@@ -123,7 +123,7 @@ namespace OptionPricer {
             std::vector<bool> isInTheMoney;
 
             // Generate stock prices backward using Brownian Bridge
-            for (int i = 0; i < N; ++i) {
+            for (unsigned long i = 0; i < N; ++i) {
                 const double t_j = static_cast<double>(j) * dt;      // Time at current step
                 const double t_jp1 = static_cast<double>(j+1) * dt; // Time at the next step
                 paths(i) = stockModel_->simulatePriceBackward(paths(i), t_j, t_jp1);
@@ -151,7 +151,7 @@ namespace OptionPricer {
 
                 // Step 5: Determine whether to exercise or continue
                 int idxITM = 0;
-                for (int i = 0; i < N; ++i) {
+                for (unsigned long i = 0; i < N; ++i) {
                     if (isInTheMoney[i]) {
                         const double exerciseValue = option_->payoff(paths(i));
                         const double continuationValue = coeffs.dot(inTheMoneyBases.row(idxITM));
diff --git a/src/solver/monte_carlo/mc_barrier.cpp b/src/solver/monte_carlo/mc_barrier.cpp
index c3e96a3..9e75557 100644
--- a/src/solver/monte_carlo/mc_barrier.cpp
+++ b/src/solver/monte_carlo/mc_barrier.cpp
@@ -14,7 +14,7 @@ namespace OptionPricer {
         const unsigned int steps = stockModel_->getSteps();
         const double discountFactor = exp(-marketData_->getR()*option_->getT());
 
-        for (int i = 0; i < N; ++i) {
+        for (unsigned long i = 0; i < N; ++i) {
             std::vector<double> S = stockModel_->simulatePrices(option_->getT());
             bool hasCrossed = false;
 
diff --git a/src/solver/monte_carlo/mc_lookback.cpp b/src/solver/monte_carlo/mc_lookback.cpp
index 5dbf946..806ee8d 100644
--- a/src/solver/monte_carlo/mc_lookback.cpp
+++ b/src/solver/monte_carlo/mc_lookback.cpp
@@ -14,7 +14,7 @@ namespace OptionPricer {
         const unsigned int steps = stockModel_->getSteps();
         const double discountFactor = exp(-marketData_->getR()*option_->getT());
 
-        for (int i = 0; i < N; ++i) {
+        for (unsigned long i = 0; i < N; ++i) {
             std::vector<double> S = stockModel_->simulatePrices(option_->getT());
             double S_min = std::numeric_limits<double>::infinity();
             double S_max = -std::numeric_limits<double>::infinity();
diff --git a/src/solver/monte_carlo/mc_single_path.cpp b/src/solver/monte_carlo/mc_single_path.cpp
index 2cc6642..ac5eba1 100644
--- a/src/solver/monte_carlo/mc_single_path.cpp
+++ b/src/solver/monte_carlo/mc_single_path.cpp
@@ -13,7 +13,7 @@ namespace OptionPricer {
         double sumPayoff = 0.0;
         const double discountFactor = exp(-marketData_->getR() * option_->getT());
 
-        for (int i = 0; i < N; ++i) {
+        for (unsigned long i = 0; i < N; ++i) {
             double S_T = stockModel_->simulatePriceAtMaturity(option_->getT());
             sumPayoff += option_->payoff(S_T);
         }
-- 
2.43.0


From 146753dbb8269a8c1f1e89873047fa3c5eb840a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:03 +0000
Subject: [PATCH 20/21] fix: reject a Monte Carlo run without any path

---
 src/solver/monte_carlo/mc_solver.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/solver/monte_carlo/mc_solver.cpp b/src/solver/monte_carlo/mc_solver.cpp
index 0f07558..0216fbb 100644
--- a/src/solver/monte_carlo/mc_solver.cpp
+++ b/src/solver/monte_carlo/mc_solver.cpp
@@ -3,7 +3,9 @@
 namespace OptionPricer {
 
     MCSolver::MCSolver(const unsigned long& N)
-        : N_(N), pricer_(nullptr) {}
+        : N_(N), pricer_(nullptr) {
+        if (N_ == 0) throw std::invalid_argument("The number of simulations must be positive.");
+    }
 
     double MCSolver::solve() const {
         if (!pricer_) {
@@ -13,6 +15,7 @@ namespace OptionPricer {
     }
 
     void MCSolver::setN(const unsigned long& N) {
+        if (N == 0) throw std::invalid_argument("The number of simulations must be positive.");
         N_ = N;
     }
 
-- 
2.43.0


From 7d868cea5e508109a6415653438e41758b565cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:03 +0000
Subject: [PATCH 21/21] fix: update a stock in place when it is added again

---
 include/market_data/market_data.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/market_data/market_data.h b/include/market_data/market_data.h
index 0675bae..0a2a3b1 100644
--- a/include/market_data/market_data.h
+++ b/include/market_data/market_data.h
@@ -35,8 +35,14 @@ namespace OptionPricer {
         template<typename... Args>
         void addStock(const std::string& ticker, Args&&... args) {
             // Perfect forwarding C++17 to preserve rvalue/lvalue ness
-            stockDataMap_[ticker] = std::make_shared<StockData>(std::forward<Args>(args)...);
-        } // Potentially need to check if stockDataMap_[ticker] already exists
+            auto stockData = std::make_shared<StockData>(std::forward<Args>(args)...);
+            if (auto it = stockDataMap_.find(ticker); it != stockDataMap_.end()) {
+                *it->second = *stockData; // Handles on the stock stay valid and see the new values
+                notifyObserver(ticker);
+            } else {
+                stockDataMap_.emplace(ticker, std::move(stockData));
+            }
+        }
 
         // Update & access StockData through the MarketData singleton
         void updateStockPrice(const std::string& ticker, double S);
-- 
2.43.0

