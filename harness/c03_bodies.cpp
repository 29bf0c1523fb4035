// The code the threads of C03 run. Compiled with memory accesses reported to the scheduler in c03.cpp.
#include <memory>
#include "market_data/market_data.h"
#include "solver/monte_carlo/builder/mc_builder_single_path.h"
#include "solver/monte_carlo/builder/mc_builder_asian.h"
#include "solver/monte_carlo/builder/mc_builder_american.h"
#include "solver/monte_carlo/builder/mc_builder_barrier.h"
#include "solver/monte_carlo/builder/mc_builder_lookback.h"
using namespace OptionPricer;
extern "C" {
// out: pointers obtained, and the rate read through the last one
void c03_get(void** out, double* r) { auto p = MarketData::getInstance(); out[0] = p.get(); *r = p->getR(); auto q = MarketData::getInstance(); out[1] = q.get(); }
void c03_builder(void** out, double* r) { MCSinglePathBuilder b; auto p = MarketData::getInstance(); out[0] = p.get(); *r = p->getR(); ArithmeticAsianMCBuilder c; auto q = MarketData::getInstance(); out[1] = q.get(); }
void c03_builder2(void** out, double* r) { AmericanMCBuilder b; KnockInBarrierMCBuilder k; auto p = MarketData::getInstance(); out[0] = p.get(); *r = p->getR(); FloatingStrikeLookbackMCBuilder c; out[1] = MarketData::getInstance().get(); }
void c03_short(void** out, double* r) { auto p = MarketData::getInstance(); out[0] = out[1] = p.get(); *r = p->getR(); }
void c03_read(void** out, double* r) { auto p = MarketData::getInstance(); out[0] = out[1] = p.get(); try { p->getStockData("none"); } catch (const std::invalid_argument&) {} p->removeObserver(); *r = p->getR(); }
// afterwards, alone
void c03_after(void** out, double* r) { auto p = MarketData::getInstance(); out[0] = out[1] = p.get(); p->addStock("X", 10.0, 0.2); p->setR(0.07); *r = p->getStockData("X")->getPrice() + MarketData::getInstance()->getR(); }
extern char _ZTVN12OptionPricer10MarketDataE[];
void* c03_vtable() { return _ZTVN12OptionPricer10MarketDataE + 16; }
}
