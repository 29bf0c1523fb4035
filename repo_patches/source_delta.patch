From dbf1fc75f2df3a22ae39993918a566964a5b3dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:11 +0000
Subject: [PATCH 01/26] fix: a rejected stock update no longer leaves the
 invalid value behind

The setters assigned before validating, and NaN passed the validation.
---
 src/market_data/stock_data.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/market_data/stock_data.cpp b/src/market_data/stock_data.cpp
index a7775de..e24e9b9 100644
--- a/src/market_data/stock_data.cpp
+++ b/src/market_data/stock_data.cpp
@@ -38,29 +38,26 @@ namespace OptionPricer {
     }
 
     void StockData::setPrice(const double& S) {
-        S_ = S;
-        validate();
+        *this = StockData(S, sigma_, c_); // Validates before anything changes
     }
 
     void StockData::setSigma(const double& sigma) {
-        sigma_ = sigma;
-        validate();
+        *this = StockData(S_, sigma, c_);
     }
 
     void StockData::setCoupon(const std::optional<double>& c) {
-        c_ = c;
-        validate();
+        *this = StockData(S_, sigma_, c);
     }
 
     void StockData::validate() const {
-        if (S_ <= 0) {
+        if (!(S_ > 0)) {
             throw std::invalid_argument("Price must be positive.");
         }
-        if (sigma_ < 0) {
+        if (!(sigma_ >= 0)) {
             throw std::invalid_argument("Sigma cannot be negative.");
         }
         // Check if the optional dividend was specified before accessing
-        if (c_.has_value() && (c_.value() < 0 || c_.value() > 1)) {
+        if (c_.has_value() && !(c_.value() >= 0 && c_.value() <= 1)) {
             throw std::invalid_argument("Coupon rate must be between 0 and 1.");
         }
     }
-- 
2.43.0


From 59acb0e4e5904bd22774d25280b49982dc3d59e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:11 +0000
Subject: [PATCH 02/26] fix: notify a snapshot of the observers

A callback that adds an observer, or releases an option (whose destructor
purges the list), invalidated the iterators of the running loop.
---
 src/market_data/market_data.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/market_data/market_data.cpp b/src/market_data/market_data.cpp
index e299158..95480bd 100644
--- a/src/market_data/market_data.cpp
+++ b/src/market_data/market_data.cpp
@@ -33,7 +33,8 @@ namespace OptionPricer {
     }
 
     void MarketData::notifyObserver(const std::string& id) const {
-        for (const auto& observer : observers_) {
+        const auto observers = observers_; // Callbacks may add or remove observers
+        for (const auto& observer : observers) {
             if (auto obs = observer.lock()) {
                 if (obs->getID() == id) {
                     obs->update();
@@ -44,7 +45,8 @@ namespace OptionPricer {
 
     // Overloaded method that notify all observers
     void MarketData::notifyObservers() const {
-        for (const auto& observer : observers_) {
+        const auto observers = observers_; // Callbacks may add or remove observers
+        for (const auto& observer : observers) {
             if (auto obs = observer.lock()) {
                 obs->update();
             }
-- 
2.43.0


From bd0b1465a5a38fdfbbea5b2bf96810f82da3afc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:11 +0000
Subject: [PATCH 03/26] fix: listing a ticker again updates the data existing
 models hold

Replacing the shared StockData left every model created before with a
stale handle.
---
 include/market_data/market_data.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/market_data/market_data.h b/include/market_data/market_data.h
index 0675bae..73812cc 100644
--- a/include/market_data/market_data.h
+++ b/include/market_data/market_data.h
@@ -35,8 +35,13 @@ namespace OptionPricer {
         template<typename... Args>
         void addStock(const std::string& ticker, Args&&... args) {
             // Perfect forwarding C++17 to preserve rvalue/lvalue ness
-            stockDataMap_[ticker] = std::make_shared<StockData>(std::forward<Args>(args)...);
-        } // Potentially need to check if stockDataMap_[ticker] already exists
+            const StockData stockData(std::forward<Args>(args)...);
+            if (auto it = stockDataMap_.find(ticker); it != stockDataMap_.end()) {
+                *it->second = stockData; // Keep the handles already given out up to date
+            } else {
+                stockDataMap_[ticker] = std::make_shared<StockData>(stockData);
+            }
+        }
 
         // Update & access StockData through the MarketData singleton
         void updateStockPrice(const std::string& ticker, double S);
-- 
2.43.0


From 1cc3790fb824963bf4292555fccf64c766386183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:11 +0000
Subject: [PATCH 04/26] fix: seed the Mersenne Twister with the generator's
 seed

The engine was default constructed, so every generator produced the same stream.
---
 include/random/number_generator/pseudo_random_generator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/random/number_generator/pseudo_random_generator.h b/include/random/number_generator/pseudo_random_generator.h
index 3ffc680..08d4844 100644
--- a/include/random/number_generator/pseudo_random_generator.h
+++ b/include/random/number_generator/pseudo_random_generator.h
@@ -13,7 +13,7 @@ namespace OptionPricer {
         double operator()(Distribution& dist) const override;
 
     private:
-        mutable std::mt19937 generator_; // Mersenne Twister PRNG
+        mutable std::mt19937 generator_{seed_}; // Mersenne Twister PRNG
     };
 
 }
-- 
2.43.0


From 7b228ba6657ac0afbf8857a80e5a1d346715ee1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:11 +0000
Subject: [PATCH 05/26] fix: draw uniforms from [a,b) instead of [0,1)

---
 src/random/distribution/continuous_uniform_distrib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/random/distribution/continuous_uniform_distrib.cpp b/src/random/distribution/continuous_uniform_distrib.cpp
index ebe5c43..0558a0a 100644
--- a/src/random/distribution/continuous_uniform_distrib.cpp
+++ b/src/random/distribution/continuous_uniform_distrib.cpp
@@ -2,7 +2,7 @@
 
 namespace OptionPricer {
     ContinuousUniformDistribution::ContinuousUniformDistribution(const double &a, const double &b)
-    : a_(a), b_(b) {
+    : a_(a), b_(b), uniform_dist_(a_, b_) {
         if (a_ >= b_)
             throw std::invalid_argument("a must lower than b");
     }
-- 
2.43.0


From 0d083bf389b4d7c6a52b6f71bd1a0d041c060409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:11 +0000
Subject: [PATCH 06/26] fix: variance gamma time change has mean dt and
 variance nu*dt

GammaDistribution takes shape and rate; nu was passed as the rate.
---
 src/model/variance_gamma_model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model/variance_gamma_model.cpp b/src/model/variance_gamma_model.cpp
index a386bd3..2005d7b 100644
--- a/src/model/variance_gamma_model.cpp
+++ b/src/model/variance_gamma_model.cpp
@@ -37,7 +37,7 @@ namespace OptionPricer {
         const double dt = T / static_cast<double>(steps);
 
         StandardNormalDistribution snDist;
-        GammaDistribution gammaDist(dt / nu_, nu_);
+        GammaDistribution gammaDist(dt / nu_, 1.0 / nu_); // Shape and rate: mean dt, variance nu*dt
 
         std::vector<double> prices(steps);
         for (int t = 0; t < steps; ++t) {
-- 
2.43.0


From 146a52de08946a4e7038447e3fce7a82a6a8d30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:11 +0000
Subject: [PATCH 07/26] fix: variance gamma drift correction follows volatility
 updates

omega was computed once from the volatility at construction.
---
 include/model/variance_gamma_model.h | 1 -
 src/model/variance_gamma_model.cpp   | 9 ++++-----
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/model/variance_gamma_model.h b/include/model/variance_gamma_model.h
index 5c50ce6..9db0593 100644
--- a/include/model/variance_gamma_model.h
+++ b/include/model/variance_gamma_model.h
@@ -20,7 +20,6 @@ namespace OptionPricer {
     private:
         double nu_;    // Variance rate of the Gamma process
         double theta_; // Drift of the Brownian motion
-        double omega_; // Drift correction term
     };
 
 }
diff --git a/src/model/variance_gamma_model.cpp b/src/model/variance_gamma_model.cpp
index 2005d7b..aef30c6 100644
--- a/src/model/variance_gamma_model.cpp
+++ b/src/model/variance_gamma_model.cpp
@@ -16,10 +16,6 @@ namespace OptionPricer {
         if (nu_ <= 0.0) {
             throw std::invalid_argument("nu must be positive");
         }
-
-        // Calculate the omega correction term that makes the actualized stock price a martingale
-        const double sigma = stockData_->getSigma();
-        omega_ = (1.0 / nu_) * std::log(1.0 - theta_*nu_ - 0.5 * sigma*sigma * nu_);
     }
 
     VarianceGammaModel::~VarianceGammaModel() = default;
@@ -36,6 +32,9 @@ namespace OptionPricer {
         const auto steps = getSteps();
         const double dt = T / static_cast<double>(steps);
 
+        // Calculate the omega correction term that makes the actualized stock price a martingale
+        const double omega = (1.0 / nu_) * std::log(1.0 - theta_*nu_ - 0.5 * sigma*sigma * nu_);
+
         StandardNormalDistribution snDist;
         GammaDistribution gammaDist(dt / nu_, 1.0 / nu_); // Shape and rate: mean dt, variance nu*dt
 
@@ -44,7 +43,7 @@ namespace OptionPricer {
             const double g = (*generator_)(gammaDist); // Gamma subordinator
             const double z = (*generator_)(snDist);  // Normal distributed increment
 
-            const double drift = (r - c + omega_) * dt;
+            const double drift = (r - c + omega) * dt;
             const double VG = theta_ * g + sigma * std::sqrt(g) * z;
 
             S *= std::exp(drift + VG);
-- 
2.43.0


From 9cd06f127cbaf1efc463da81e9ec5e95a6ff1ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:11 +0000
Subject: [PATCH 08/26] fix: a Kou jump goes either up or down

Upward jumps were always followed by a downward one.
---
 src/model/kou_model.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/model/kou_model.cpp b/src/model/kou_model.cpp
index f936c74..e127218 100644
--- a/src/model/kou_model.cpp
+++ b/src/model/kou_model.cpp
@@ -59,9 +59,10 @@ namespace OptionPricer {
                 if (U < p_) {
                     const double upsideJump = (*generator_)(exponentialDistUp);
                     jumpSize += upsideJump;
+                } else {
+                    const double downsideJump = -(*generator_)(exponentialDistDown);
+                    jumpSize += downsideJump;
                 }
-                const double downsideJump = -(*generator_)(exponentialDistDown);
-                jumpSize += downsideJump;
             }
 
             // Update stock price
-- 
2.43.0


From 052000dbf9bc3823e9a4627d6ed47027ab69d4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:11 +0000
Subject: [PATCH 09/26] fix: compensate the jumps in the Merton drift

Without the compensator the discounted price is not a martingale.
---
 src/model/merton_jump_diffusion_model.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/model/merton_jump_diffusion_model.cpp b/src/model/merton_jump_diffusion_model.cpp
index 2007e55..93d5172 100644
--- a/src/model/merton_jump_diffusion_model.cpp
+++ b/src/model/merton_jump_diffusion_model.cpp
@@ -37,8 +37,8 @@ namespace OptionPricer {
 
         std::vector<double> prices(steps);
         for (int t = 0; t < steps; ++t) {
-            // Drift Part
-            const double drift = (r - c - 0.5 * sigma*sigma) * dt;
+            // Drift Part with risk neutral adjustment
+            const double drift = (r - c - 0.5 * sigma*sigma - lambda_ * (exp(muJ_ + 0.5 * sigmaJ_*sigmaJ_) - 1)) * dt;
 
             // Diffusion part: Standard Brownian Motion
             const double z = (*generator_)(snDist);
-- 
2.43.0


From e63aa222aba8da8e5e38a10bc85cd3f9cd014078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:11 +0000
Subject: [PATCH 10/26] fix: compensate the jumps in the Bates drift

---
 src/model/bates_model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model/bates_model.cpp b/src/model/bates_model.cpp
index 6c41cfd..7605bee 100644
--- a/src/model/bates_model.cpp
+++ b/src/model/bates_model.cpp
@@ -55,7 +55,7 @@ namespace OptionPricer {
 
             // Update stock price S(t+1) using variance v(t)
             const double VMax = std::max(V, 0.0);
-            const double drift = (r - c - 0.5 * VMax) * dt;
+            const double drift = (r - c - 0.5 * VMax - lambda_ * (exp(muJ_ + 0.5 * sigmaJ_*sigmaJ_) - 1)) * dt;
             const double diffusion = sqrt(VMax * dt) * zS;
             S *= exp(drift + diffusion);
 
-- 
2.43.0


From ea2a7cd440f5462420f07aab56f3dd1ebb805355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:11 +0000
Subject: [PATCH 11/26] fix: Heston keeps the variance scheme it is given

The null test looked at the moved-from parameter, so Euler was always used.
---
 src/model/heston_model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model/heston_model.cpp b/src/model/heston_model.cpp
index 4f1e276..6ec13df 100644
--- a/src/model/heston_model.cpp
+++ b/src/model/heston_model.cpp
@@ -27,7 +27,7 @@ namespace OptionPricer {
         */
 
         // Apply default discretization if nullptr is passed
-        if (!varDiscretization) {
+        if (!varDiscretization_) {
             varDiscretization_ = std::make_shared<CIRExplicitEulerDiscretization>();
         }
     }
-- 
2.43.0


From 471521ea2b13eba7dbb49cd512f10f7e5defedf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:11 +0000
Subject: [PATCH 12/26] fix: first Laguerre polynomial is 1 - x

---
 src/numerical_analysis/basis_function/laguerre.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/numerical_analysis/basis_function/laguerre.cpp b/src/numerical_analysis/basis_function/laguerre.cpp
index 4ae3af8..1bc83af 100644
--- a/src/numerical_analysis/basis_function/laguerre.cpp
+++ b/src/numerical_analysis/basis_function/laguerre.cpp
@@ -9,7 +9,7 @@ namespace OptionPricer {
         basis.col(0).setOnes(); // P0(x) = 1
 
         if (numberBasis_ > 1)
-            basis.col(1) = x; // P1(x) = x
+            basis.col(1) = 1 - x.array(); // L1(x) = 1 - x
 
         for (int n = 2; n < numberBasis_; ++n) {
             basis.col(n) = ((2 * (n-1) + 1 - x.array()) * basis.col(n-1).array()
-- 
2.43.0


From afd3ca8dbc19a5ec1b52a3c30b414e27d4adb8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:11 +0000
Subject: [PATCH 13/26] fix: discount American cash flows over dates with no
 in-the-money path

---
 src/solver/monte_carlo/mc_american.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/solver/monte_carlo/mc_american.cpp b/src/solver/monte_carlo/mc_american.cpp
index ca479d4..0e000e6 100644
--- a/src/solver/monte_carlo/mc_american.cpp
+++ b/src/solver/monte_carlo/mc_american.cpp
@@ -87,6 +87,8 @@ namespace OptionPricer {
                         americanPrices(i) *= discountFactor;
                     }
                 }
+            } else {
+                americanPrices *= discountFactor; // Nobody can exercise
             }
         }
 
@@ -163,6 +165,8 @@ namespace OptionPricer {
                         americanPrices(i) *= discountFactor;
                     }
                 }
+            } else {
+                americanPrices *= discountFactor; // Nobody can exercise
             }
         }
 
-- 
2.43.0


From 2b05c558c612dd2b2225179d39c76e4a379921a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:11 +0000
Subject: [PATCH 14/26] fix: builders do not keep the default model of a
 previous build

The default geometric Brownian motion was stored, so a reused builder priced
the next option on the previous option's ticker and market data.
---
 .../builder/mc_builder_american.cpp           | 11 +++++-----
 .../monte_carlo/builder/mc_builder_asian.cpp  | 22 ++++++++++---------
 .../builder/mc_builder_barrier.cpp            | 22 ++++++++++---------
 .../builder/mc_builder_single_path.cpp        | 11 +++++-----
 .../builder/mc_lookback_builder.cpp           | 22 ++++++++++---------
 5 files changed, 48 insertions(+), 40 deletions(-)

diff --git a/src/solver/monte_carlo/builder/mc_builder_american.cpp b/src/solver/monte_carlo/builder/mc_builder_american.cpp
index c3dd555..7116500 100644
--- a/src/solver/monte_carlo/builder/mc_builder_american.cpp
+++ b/src/solver/monte_carlo/builder/mc_builder_american.cpp
@@ -28,12 +28,13 @@ namespace OptionPricer {
 
     std::unique_ptr<MCPricer> AmericanMCBuilder::build() {
         if (!option_) throw std::logic_error("Option is not set for AmericanMCBuilder.");
-        if (!stockModel_) {
-            stockModel_ = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
-                                                                         marketData_,
-                                                                         std::make_shared<PseudoRandomNumberGenerator>(52));
+        auto stockModel = stockModel_;
+        if (!stockModel) {
+            stockModel = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
+                                                                        marketData_,
+                                                                        std::make_shared<PseudoRandomNumberGenerator>(52));
         }
-        return std::make_unique<AmericanMCPricer>(option_, marketData_, stockModel_,
+        return std::make_unique<AmericanMCPricer>(option_, marketData_, stockModel,
                                                   basisFunctionStrategy_, regressionStrategy_);
     }
 
diff --git a/src/solver/monte_carlo/builder/mc_builder_asian.cpp b/src/solver/monte_carlo/builder/mc_builder_asian.cpp
index 4087ed6..776b0e7 100644
--- a/src/solver/monte_carlo/builder/mc_builder_asian.cpp
+++ b/src/solver/monte_carlo/builder/mc_builder_asian.cpp
@@ -13,12 +13,13 @@ namespace OptionPricer {
 
     std::unique_ptr<MCPricer> ArithmeticAsianMCBuilder::build() {
         if (!option_) throw std::logic_error("Option is not set for ArithmeticAsianMCPricerBuilder.");
-        if (!stockModel_) {
-            stockModel_ = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
-                                                                         marketData_,
-                                                                         std::make_shared<PseudoRandomNumberGenerator>(52));
+        auto stockModel = stockModel_;
+        if (!stockModel) {
+            stockModel = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
+                                                                        marketData_,
+                                                                        std::make_shared<PseudoRandomNumberGenerator>(52));
         }
-        return std::make_unique<ArithmeticAsianMCPricer>(option_, marketData_, stockModel_);
+        return std::make_unique<ArithmeticAsianMCPricer>(option_, marketData_, stockModel);
     }
 
     // Geometric Asian
@@ -32,12 +33,13 @@ namespace OptionPricer {
 
     std::unique_ptr<MCPricer> GeometricAsianMCBuilder::build() {
         if (!option_) throw std::logic_error("Option is not set for GeometricAsianMCPricerBuilder.");
-        if (!stockModel_) {
-            stockModel_ = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
-                                                                         marketData_,
-                                                                         std::make_shared<PseudoRandomNumberGenerator>(52));
+        auto stockModel = stockModel_;
+        if (!stockModel) {
+            stockModel = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
+                                                                        marketData_,
+                                                                        std::make_shared<PseudoRandomNumberGenerator>(52));
         }
-        return std::make_unique<GeometricAsianMCPricer>(option_, marketData_, stockModel_);
+        return std::make_unique<GeometricAsianMCPricer>(option_, marketData_, stockModel);
     }
 
 }
diff --git a/src/solver/monte_carlo/builder/mc_builder_barrier.cpp b/src/solver/monte_carlo/builder/mc_builder_barrier.cpp
index a0cd91a..8a27d0c 100644
--- a/src/solver/monte_carlo/builder/mc_builder_barrier.cpp
+++ b/src/solver/monte_carlo/builder/mc_builder_barrier.cpp
@@ -14,12 +14,13 @@ namespace OptionPricer {
 
     std::unique_ptr<MCPricer> KnockInBarrierMCBuilder::build() {
         if (!option_) throw std::logic_error("Option is not set for KnockInBarrierMCPricerBuilder.");
-        if (!stockModel_) {
-            stockModel_ = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
-                                                                         marketData_,
-                                                                         std::make_shared<PseudoRandomNumberGenerator>(52));
+        auto stockModel = stockModel_;
+        if (!stockModel) {
+            stockModel = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
+                                                                        marketData_,
+                                                                        std::make_shared<PseudoRandomNumberGenerator>(52));
         }
-        return std::make_unique<KnockInBarrierMCPricer>(option_, marketData_, stockModel_);
+        return std::make_unique<KnockInBarrierMCPricer>(option_, marketData_, stockModel);
     }
 
     // Knock-Out
@@ -33,12 +34,13 @@ namespace OptionPricer {
 
     std::unique_ptr<MCPricer> KnockOutBarrierMCBuilder::build() {
         if (!option_) throw std::logic_error("Option is not set for KnockOutBarrierMCPricerBuilder.");
-        if (!stockModel_) {
-            stockModel_ = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
-                                                                         marketData_,
-                                                                         std::make_shared<PseudoRandomNumberGenerator>(52));
+        auto stockModel = stockModel_;
+        if (!stockModel) {
+            stockModel = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
+                                                                        marketData_,
+                                                                        std::make_shared<PseudoRandomNumberGenerator>(52));
         }
-        return std::make_unique<KnockOutBarrierMCPricer>(option_, marketData_, stockModel_);
+        return std::make_unique<KnockOutBarrierMCPricer>(option_, marketData_, stockModel);
     }
 
 }
diff --git a/src/solver/monte_carlo/builder/mc_builder_single_path.cpp b/src/solver/monte_carlo/builder/mc_builder_single_path.cpp
index 7c1cb76..abadbbc 100644
--- a/src/solver/monte_carlo/builder/mc_builder_single_path.cpp
+++ b/src/solver/monte_carlo/builder/mc_builder_single_path.cpp
@@ -14,12 +14,13 @@ namespace OptionPricer {
 
     std::unique_ptr<MCPricer> MCSinglePathBuilder::build() {
         if (!option_) throw std::logic_error("Option is not set for AmericanMCPricerBuilder.");
-        if (!stockModel_) {
-            stockModel_ = std::make_unique<GeometricBrownianMotionModel>(option_->getID(),
-                                                                         marketData_,
-                                                                         std::make_shared<PseudoRandomNumberGenerator>(52));
+        auto stockModel = stockModel_;
+        if (!stockModel) {
+            stockModel = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
+                                                                        marketData_,
+                                                                        std::make_shared<PseudoRandomNumberGenerator>(52));
         }
-        return std::make_unique<SinglePathMCPricer>(option_, marketData_, stockModel_);
+        return std::make_unique<SinglePathMCPricer>(option_, marketData_, stockModel);
     }
 
 }
diff --git a/src/solver/monte_carlo/builder/mc_lookback_builder.cpp b/src/solver/monte_carlo/builder/mc_lookback_builder.cpp
index f38412b..d8c1aca 100644
--- a/src/solver/monte_carlo/builder/mc_lookback_builder.cpp
+++ b/src/solver/monte_carlo/builder/mc_lookback_builder.cpp
@@ -15,12 +15,13 @@ namespace OptionPricer {
 
     std::unique_ptr<MCPricer> FloatingStrikeLookbackMCBuilder::build() {
         if (!option_) throw std::logic_error("Option is not set for FloatingStrikeLookbackMCBuilder.");
-        if (!stockModel_) {
-            stockModel_ = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
-                                                                         marketData_,
-                                                                         std::make_shared<PseudoRandomNumberGenerator>(52));
+        auto stockModel = stockModel_;
+        if (!stockModel) {
+            stockModel = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
+                                                                        marketData_,
+                                                                        std::make_shared<PseudoRandomNumberGenerator>(52));
         }
-        return std::make_unique<FloatingStrikeLookbackMCPricer>(option_, marketData_, stockModel_);
+        return std::make_unique<FloatingStrikeLookbackMCPricer>(option_, marketData_, stockModel);
     }
 
     // Fixed Strike
@@ -36,12 +37,13 @@ namespace OptionPricer {
 
     std::unique_ptr<MCPricer> FixedStrikeLookbackMCBuilder::build() {
         if (!option_) throw std::logic_error("Option is not set for FixedStrikeLookbackMCBuilder.");
-        if (!stockModel_) {
-            stockModel_ = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
-                                                                         marketData_,
-                                                                         std::make_shared<PseudoRandomNumberGenerator>(52));
+        auto stockModel = stockModel_;
+        if (!stockModel) {
+            stockModel = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
+                                                                        marketData_,
+                                                                        std::make_shared<PseudoRandomNumberGenerator>(52));
         }
-        return std::make_unique<FixedStrikeLookbackMCPricer>(option_, marketData_, stockModel_);
+        return std::make_unique<FixedStrikeLookbackMCPricer>(option_, marketData_, stockModel);
     }
 
 }
\ No newline at end of file
-- 
2.43.0


From cc9793303d53e8c371188df46c232695e071e368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:42 +0000
Subject: [PATCH 15/26] fix: Crank-Nicolson solves the assembled system and
 uses the old boundary values

The system was solved inside the assembly loop, with a partly filled singular
matrix (the default LU solver throws on it), and the explicit half dropped the
previous boundary values next to the boundaries.
---
 .../one_factor/crank_nicolson_fdm_solver.cpp  | 24 +++++++------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/src/solver/finite_difference_method/solver/one_factor/crank_nicolson_fdm_solver.cpp b/src/solver/finite_difference_method/solver/one_factor/crank_nicolson_fdm_solver.cpp
index d2ffaa4..2b9f305 100644
--- a/src/solver/finite_difference_method/solver/one_factor/crank_nicolson_fdm_solver.cpp
+++ b/src/solver/finite_difference_method/solver/one_factor/crank_nicolson_fdm_solver.cpp
@@ -82,24 +82,18 @@ namespace OptionPricer::FDM::OneFactor {
             gamma = -0.5 * (dtSig + dtSig2);  // RHS (explicit) upper diagonal
 
             // Add the explicit part
-            b[j-1] += beta * oldPrices[j];
-            if (j > 1) {
-                b[j-1] += alpha * oldPrices[j-1];
-            }
-            if (j < J_-2) {
-                b[j-1] += gamma * oldPrices[j+1];
-            }
+            b[j-1] += alpha * oldPrices[j-1] + beta * oldPrices[j] + gamma * oldPrices[j+1];
+        }
 
-            // Convert triplets to sparse matrices
-            A.setFromTriplets(tripletListA.begin(), tripletListA.end());
+        // Convert triplets to sparse matrices
+        A.setFromTriplets(tripletListA.begin(), tripletListA.end());
 
-            // Solve for the matrix system A * newPrices = b
-            Eigen::VectorXd solution = matrixSolver_->solve(A, b);
+        // Solve for the matrix system A * newPrices = b
+        Eigen::VectorXd solution = matrixSolver_->solve(A, b);
 
-            // Copy the solution to the internal prices
-            for (unsigned long j = 1; j < (J_-1); ++j) {
-                newPrices[j] = solution[j-1];
-            }
+        // Copy the solution to the internal prices
+        for (unsigned long j = 1; j < (J_-1); ++j) {
+            newPrices[j] = solution[j-1];
         }
     }
 
-- 
2.43.0


From 096242d0888a200821596b4f0d10799f1bc51a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:42 +0000
Subject: [PATCH 16/26] fix: finite-difference solvers take exactly N-1 time
 steps

Comparing the accumulated time with the horizon took an extra step for some
step counts, and none at all for an option at maturity (all prices zero).
---
 .../solver/one_factor/base_fdm_solver.cpp                    | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp b/src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp
index 99b40c9..f11f4b2 100644
--- a/src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp
+++ b/src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp
@@ -46,8 +46,9 @@ namespace OptionPricer::FDM::OneFactor {
     }
 
     std::vector<double> FDMSolver::solve() {
-        while(tCurr < tDom_) {
-            tCurr = tPrev + dt;
+        // Count the steps as summing dt up may stop short of, or go beyond, tDom
+        for (unsigned long n = 1; n < N_ && !solved; ++n) {
+            tCurr = static_cast<double>(n) * dt;
             calculateBoundaryConditions();
             calculateInnerDomain(); // To be overiden in concrete classes
             oldPrices = newPrices;
-- 
2.43.0


From 58d97c25fc59dda19570e7885c45195d9d107e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:18 +0000
Subject: [PATCH 17/26] fix: Black-Scholes boundary values are those at time to
 maturity t

The solvers march from the payoff, so t is the time to maturity: the call
boundary discounted the strike over T-t and ignored dividends, the put
boundary did not discount.
---
 .../pde/one_factor/black_scholes_pde.cpp                   | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/solver/finite_difference_method/pde/one_factor/black_scholes_pde.cpp b/src/solver/finite_difference_method/pde/one_factor/black_scholes_pde.cpp
index 8f29f66..60781ad 100644
--- a/src/solver/finite_difference_method/pde/one_factor/black_scholes_pde.cpp
+++ b/src/solver/finite_difference_method/pde/one_factor/black_scholes_pde.cpp
@@ -38,7 +38,8 @@ namespace OptionPricer::PDE::OneFactor {
             return 0.0;
         }
 
-        return payoff->getK();
+        const double r = marketData_->getR();
+        return payoff->getK() * std::exp(-r * t); // t is the time to maturity
     }
 
     double BlackScholesPDE::boundaryRight(const double &t, const double &x) const {
@@ -50,8 +51,8 @@ namespace OptionPricer::PDE::OneFactor {
         if (option_->getPayoff().getPayoffType() == PayoffType::Call) {
             const double K = payoff->getK();
             const double r = marketData_->getR();
-            const double T = option_->getT();
-            return x - K * std::exp(-r * (T - t));
+            const double c = marketData_->getStockData(option_->getID())->getCoupon().value_or(0.0);
+            return x * std::exp(-c * t) - K * std::exp(-r * t); // t is the time to maturity
         }
 
         return 0.0;
-- 
2.43.0


From f0a48458b70533e483e11f3eeb5a62ac9f398141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:18 +0000
Subject: [PATCH 18/26] fix: explicit scheme takes the new level's boundary
 values at the new time

---
 .../solver/one_factor/euler_explicit_fdm_solver.cpp           | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/finite_difference_method/solver/one_factor/euler_explicit_fdm_solver.cpp b/src/solver/finite_difference_method/solver/one_factor/euler_explicit_fdm_solver.cpp
index f2a87f5..0fa73f3 100644
--- a/src/solver/finite_difference_method/solver/one_factor/euler_explicit_fdm_solver.cpp
+++ b/src/solver/finite_difference_method/solver/one_factor/euler_explicit_fdm_solver.cpp
@@ -13,8 +13,8 @@ namespace OptionPricer::FDM::OneFactor {
     EulerExplicitFDM::~EulerExplicitFDM() = default;
 
     void EulerExplicitFDM::calculateBoundaryConditions() {
-        newPrices.front() = pde_->boundaryLeft(tPrev, xValues.front());
-        newPrices.back() = pde_->boundaryRight(tPrev, xValues.back());
+        newPrices.front() = pde_->boundaryLeft(tCurr, xValues.front());
+        newPrices.back() = pde_->boundaryRight(tCurr, xValues.back());
     }
 
     void EulerExplicitFDM::calculateInnerDomain() {
-- 
2.43.0


From bc03f5b9b456d271b2514af0d697c82e916df669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:18 +0000
Subject: [PATCH 19/26] fix: Kou model rejects eta1 = 1 and eta2 = 0

They gave an infinite drift and an error on every simulation.
---
 src/model/kou_model.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/model/kou_model.cpp b/src/model/kou_model.cpp
index e127218..06697e3 100644
--- a/src/model/kou_model.cpp
+++ b/src/model/kou_model.cpp
@@ -15,9 +15,9 @@ namespace OptionPricer {
               lambda_(lambda), p_(p), eta1_(eta1), eta2_(eta2) {
         if (p_ < 0 || p_ > 1)
             throw std::invalid_argument("p must be between [0,1].");
-        if (eta1_ < 1)
+        if (eta1_ <= 1)
             throw std::invalid_argument("eta1 must be between larger than 1.");
-        if (eta2_ < 0)
+        if (eta2_ <= 0)
             throw std::invalid_argument("eta2 must be between larger than 0.");
         muJ_ = p_ * (eta1_ / (eta1_-1)) + (1-p_) * (eta2_ / (eta2_+1));
     }
-- 
2.43.0


From 8c02b8bb92e9188639e0c568960290d4f4b46a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:18 +0000
Subject: [PATCH 20/26] fix: jump models reject a non-positive intensity on
 construction

They accepted it and then threw on every simulation.
---
 src/model/bates_model.cpp                 | 2 ++
 src/model/kou_model.cpp                   | 2 ++
 src/model/merton_jump_diffusion_model.cpp | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/src/model/bates_model.cpp b/src/model/bates_model.cpp
index 7605bee..a4c3476 100644
--- a/src/model/bates_model.cpp
+++ b/src/model/bates_model.cpp
@@ -19,6 +19,8 @@ namespace OptionPricer {
         if (v0_ <= 0.0 || kappa_ <= 0.0 || sigma_v_ <= 0.0 || sigmaJ_ <= 0.0) {
             throw std::invalid_argument("v0, kappa, sigma_v, and sigmaJ must be positive");
         }
+        if (lambda_ <= 0)
+            throw std::invalid_argument("lambda must be positive");
         if (rho_ < -1.0 || rho_ > 1.0) {
             throw std::invalid_argument("rho must be between -1 and 1");
         }
diff --git a/src/model/kou_model.cpp b/src/model/kou_model.cpp
index 06697e3..7f23258 100644
--- a/src/model/kou_model.cpp
+++ b/src/model/kou_model.cpp
@@ -13,6 +13,8 @@ namespace OptionPricer {
                        const double &eta1, const double &eta2)
     : StockModel(ticker, std::move(marketData), std::move(generator)),
               lambda_(lambda), p_(p), eta1_(eta1), eta2_(eta2) {
+        if (lambda_ <= 0)
+            throw std::invalid_argument("lambda must be positive");
         if (p_ < 0 || p_ > 1)
             throw std::invalid_argument("p must be between [0,1].");
         if (eta1_ <= 1)
diff --git a/src/model/merton_jump_diffusion_model.cpp b/src/model/merton_jump_diffusion_model.cpp
index 93d5172..a9281ff 100644
--- a/src/model/merton_jump_diffusion_model.cpp
+++ b/src/model/merton_jump_diffusion_model.cpp
@@ -13,6 +13,8 @@ namespace OptionPricer {
                                                        const double &lambda, const double &muJ, const double &sigmaJ)
         : StockModel(ticker, std::move(marketData), std::move(generator)),
         lambda_(lambda), muJ_(muJ), sigmaJ_(sigmaJ) {
+        if (lambda_ <= 0)
+            throw std::invalid_argument("lambda must be positive");
         if (sigmaJ_ <= 0)
             throw std::invalid_argument("sigmaJ must be positive");
     }
-- 
2.43.0


From 7934bec78fe682b3e4c25aee34e95f61a5a71786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:18 +0000
Subject: [PATCH 21/26] fix: generators reject a zero dimension

An unsigned value was tested for < 0 and pseudo-random generators were never
validated; models then read past an empty path.
---
 src/random/number_generator/base_generator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/random/number_generator/base_generator.cpp b/src/random/number_generator/base_generator.cpp
index 163f81b..6068834 100644
--- a/src/random/number_generator/base_generator.cpp
+++ b/src/random/number_generator/base_generator.cpp
@@ -4,12 +4,14 @@ namespace OptionPricer {
 
     NumberGenerator::NumberGenerator(const unsigned int &dim)
     : dim_(dim) {
+        validateDim();
         std::random_device rd;
         seed_ = rd();
     }
 
     NumberGenerator::NumberGenerator(const unsigned int &dim, const unsigned int& seed)
     : dim_(dim), seed_(seed) {
+        validateDim();
         if (seed_ < 0) {
             throw std::invalid_argument("seed parameter must be a positive integer");
         }
@@ -22,7 +24,7 @@ namespace OptionPricer {
     }
 
     void NumberGenerator::validateDim() const {
-        if (dim_ < 0) {
+        if (dim_ == 0) {
             throw std::invalid_argument("dim must be a positive integer");
         }
     }
-- 
2.43.0


From 89483322b3a9d6fffe327c9f7ec8b40ccd9df5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:08 +0000
Subject: [PATCH 22/26] fix: least squares detects the rank of tall
 rank-deficient designs

---
 src/numerical_analysis/regression/least_squares.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/numerical_analysis/regression/least_squares.cpp b/src/numerical_analysis/regression/least_squares.cpp
index 610fd1d..a842327 100644
--- a/src/numerical_analysis/regression/least_squares.cpp
+++ b/src/numerical_analysis/regression/least_squares.cpp
@@ -1,11 +1,19 @@
 #include "numerical_analysis/regression/least_squares.h"
 
+#include <algorithm>
+#include <limits>
+
 namespace OptionPricer {
 
     LeastSquaresRegression::~LeastSquaresRegression() = default;
 
     Eigen::VectorXd LeastSquaresRegression::solve(const Eigen::MatrixXd &A, const Eigen::VectorXd &vY) const {
-        return A.jacobiSvd(Eigen::ComputeThinU | Eigen::ComputeThinV).solve(vY);
+        Eigen::JacobiSVD<Eigen::MatrixXd> svd(A, Eigen::ComputeThinU | Eigen::ComputeThinV);
+        // The rounding error of the singular values grows with the number of rows: a tall rank-deficient
+        // design would otherwise keep its spurious singular values and get arbitrary coefficients
+        const double size = std::max<double>(static_cast<double>(A.cols()), static_cast<double>(A.rows()) / 10);
+        svd.setThreshold(size * std::numeric_limits<double>::epsilon());
+        return svd.solve(vY);
     }
 
 }
-- 
2.43.0


From c11e5af2ef61ef85cddb24c5f4bae773cf183651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:38 +0000
Subject: [PATCH 23/26] fix: the Faure generator skips the origin, which has no
 quantile

---
 src/random/number_generator/faure_quasi_random_generator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/random/number_generator/faure_quasi_random_generator.cpp b/src/random/number_generator/faure_quasi_random_generator.cpp
index 0f63a0f..0180958 100644
--- a/src/random/number_generator/faure_quasi_random_generator.cpp
+++ b/src/random/number_generator/faure_quasi_random_generator.cpp
@@ -4,14 +4,14 @@ namespace OptionPricer {
 
     FaureGenerator::FaureGenerator(const unsigned int &dim)
     : QuasiRandomNumberGenerator(dim), faureQrng_(dim_) {
-        faureQrng_.seed(seed_);
+        faureQrng_.seed(seed_ + 1ULL); // Point 0 is the origin, which has no quantile
         faureQrng_.generate(point_.begin(), point_.end()); // Initialize the point
     }
 
     FaureGenerator::FaureGenerator(const unsigned int &dim,
                                    const unsigned int &seed)
     : QuasiRandomNumberGenerator(dim, seed), faureQrng_(dim_) {
-        faureQrng_.seed(seed_);
+        faureQrng_.seed(seed_ + 1ULL); // Point 0 is the origin, which has no quantile
         faureQrng_.generate(point_.begin(), point_.end());
     }
 
-- 
2.43.0


From 6b550a9a8b149b0bf9c0b9ea25f9806ce5877880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:24 +0000
Subject: [PATCH 24/26] fix: count Monte Carlo paths with the type of the path
 count

A signed 32-bit counter overflows (undefined behaviour) when 2^31 or more
paths are requested.
---
 src/solver/monte_carlo/mc_barrier.cpp     | 2 +-
 src/solver/monte_carlo/mc_lookback.cpp    | 2 +-
 src/solver/monte_carlo/mc_single_path.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/solver/monte_carlo/mc_barrier.cpp b/src/solver/monte_carlo/mc_barrier.cpp
index c3e96a3..9e75557 100644
--- a/src/solver/monte_carlo/mc_barrier.cpp
+++ b/src/solver/monte_carlo/mc_barrier.cpp
@@ -14,7 +14,7 @@ namespace OptionPricer {
         const unsigned int steps = stockModel_->getSteps();
         const double discountFactor = exp(-marketData_->getR()*option_->getT());
 
-        for (int i = 0; i < N; ++i) {
+        for (unsigned long i = 0; i < N; ++i) {
             std::vector<double> S = stockModel_->simulatePrices(option_->getT());
             bool hasCrossed = false;
 
diff --git a/src/solver/monte_carlo/mc_lookback.cpp b/src/solver/monte_carlo/mc_lookback.cpp
index 5dbf946..806ee8d 100644
--- a/src/solver/monte_carlo/mc_lookback.cpp
+++ b/src/solver/monte_carlo/mc_lookback.cpp
@@ -14,7 +14,7 @@ namespace OptionPricer {
         const unsigned int steps = stockModel_->getSteps();
         const double discountFactor = exp(-marketData_->getR()*option_->getT());
 
-        for (int i = 0; i < N; ++i) {
+        for (unsigned long i = 0; i < N; ++i) {
             std::vector<double> S = stockModel_->simulatePrices(option_->getT());
             double S_min = std::numeric_limits<double>::infinity();
             double S_max = -std::numeric_limits<double>::infinity();
diff --git a/src/solver/monte_carlo/mc_single_path.cpp b/src/solver/monte_carlo/mc_single_path.cpp
index 2cc6642..ac5eba1 100644
--- a/src/solver/monte_carlo/mc_single_path.cpp
+++ b/src/solver/monte_carlo/mc_single_path.cpp
@@ -13,7 +13,7 @@ namespace OptionPricer {
         double sumPayoff = 0.0;
         const double discountFactor = exp(-marketData_->getR() * option_->getT());
 
-        for (int i = 0; i < N; ++i) {
+        for (unsigned long i = 0; i < N; ++i) {
             double S_T = stockModel_->simulatePriceAtMaturity(option_->getT());
             sumPayoff += option_->payoff(S_T);
         }
-- 
2.43.0


From f16518ba85d1137f12d6a729776f3c481debd4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:26 +0000
Subject: [PATCH 25/26] fix: restart a finite-difference solution that failed
 midway

solve() keeps the grid it is marching in the solver. When a coefficient, the matrix
solver or an allocation throws in the middle of the march, the next call started again
from the first time step but with the half-marched grid, and returned a wrong solution
without any error.
---
 .../solver/one_factor/base_fdm_solver.cpp                   | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp b/src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp
index f11f4b2..020f450 100644
--- a/src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp
+++ b/src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp
@@ -46,6 +46,12 @@ namespace OptionPricer::FDM::OneFactor {
     }
 
     std::vector<double> FDMSolver::solve() {
+        if (!solved) {
+            // Start from the initial condition as an earlier attempt may have failed midway
+            calculateInitialConditions();
+            tPrev = 0.0;
+        }
+
         // Count the steps as summing dt up may stop short of, or go beyond, tDom
         for (unsigned long n = 1; n < N_ && !solved; ++n) {
             tCurr = static_cast<double>(n) * dt;
-- 
2.43.0


From bc6359aed36fb768797c625a295f60f77fefb496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:03 +0000
Subject: [PATCH 26/26] fix: free the demangled type name when copying it fails

Option::getType leaked the name returned by __cxa_demangle if constructing the
returned string threw.
---
 src/option/base_option.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/option/base_option.cpp b/src/option/base_option.cpp
index 8be0461..09dc6e6 100644
--- a/src/option/base_option.cpp
+++ b/src/option/base_option.cpp
@@ -1,5 +1,7 @@
 #include <iostream>
 #include <stdexcept>
+#include <cstdlib>
+#include <memory>
 #include <typeinfo>
 #include <cxxabi.h>
 #include "option/base_option.h"
@@ -77,10 +79,10 @@ namespace OptionPricer {
         // Get the demangled name of the type
         int status;
         const char* mangledName = typeid(*this).name();
-        char* demangledName = abi::__cxa_demangle(mangledName, nullptr, nullptr, &status);
-        std::string typeName = (status == 0) ? demangledName : mangledName;
-        std::free(demangledName);
-        return typeName;
+        // Owned by a smart pointer as copying the name may throw
+        const std::unique_ptr<char, decltype(&std::free)> demangledName(
+            abi::__cxa_demangle(mangledName, nullptr, nullptr, &status), &std::free);
+        return (status == 0) ? demangledName.get() : mangledName;
     }
 
     const Payoff& Option::getPayoff() const {
-- 
2.43.0

