// Monte Carlo pricer helpers.
#pragma once
#include "op.hpp"
#include "solver/monte_carlo/mc_solver.h"
#include "solver/monte_carlo/builder/mc_builder_single_path.h"
#include "solver/monte_carlo/builder/mc_builder_asian.h"
#include "solver/monte_carlo/builder/mc_builder_barrier.h"
#include "solver/monte_carlo/builder/mc_builder_lookback.h"
#include "solver/monte_carlo/builder/mc_builder_american.h"
namespace op {
inline std::unique_ptr<MCBuilder> builderFor(int kind) {
    switch (kind) {
        case EUROPEAN: case DIGITAL: case DOUBLE_DIGITAL: return std::make_unique<MCSinglePathBuilder>();
        case ARITH_ASIAN: return std::make_unique<ArithmeticAsianMCBuilder>(); case GEOM_ASIAN: return std::make_unique<GeometricAsianMCBuilder>();
        case KNOCK_IN: return std::make_unique<KnockInBarrierMCBuilder>(); case KNOCK_OUT: return std::make_unique<KnockOutBarrierMCBuilder>();
        case FLOAT_LOOKBACK: return std::make_unique<FloatingStrikeLookbackMCBuilder>(); case FIXED_LOOKBACK: return std::make_unique<FixedStrikeLookbackMCBuilder>();
        default: return std::make_unique<AmericanMCBuilder>();
    }
}
inline std::unique_ptr<MCPricer> pricerFor(const Contract& c, std::shared_ptr<Option> o, std::shared_ptr<IMarketData> md, std::shared_ptr<StockModel> m) {
    auto b = builderFor(c.kind); b->setOption(o); b->setMarketData(md); b->setStockPriceModel(m); return b->build();
}
} // namespace op
