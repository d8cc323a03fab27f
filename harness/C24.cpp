// C24: context counters against the counts of their contexts.
#include "sp.hpp"
#include "sparta/statistics/ContextCounter.hpp"
#include "sparta/statistics/WeightedContextCounter.hpp"
#include "sparta/statistics/CycleCounter.hpp"
#include "sparta/statistics/StatisticInstance.hpp"
#include "sparta/statistics/StatisticSet.hpp"
#include "sparta/report/Report.hpp"
#include "sparta/events/UniqueEvent.hpp"
#include "rapidjson/document.h"
#include <cmath>
#include <memory>
using namespace sparta;

namespace {
bool near(double a, double b) { return (std::isnan(a) && std::isnan(b)) || a == b || std::fabs(a - b) <= 1e-9 * std::max(std::fabs(a), std::fabs(b)); }
struct Ctx { uint64_t val = 0, from = 0; bool counting = false; };
struct M { // one context counter
    std::string name, ctx; int kind = 0; CounterBase::CounterBehavior beh = CounterBase::COUNT_NORMAL; std::vector<Ctx> c; std::vector<double> w; int expr = 0; Clock* clk = nullptr;
    std::unique_ptr<ContextCounter<Counter>> cc; std::unique_ptr<ContextCounter<CycleCounter>> cy; std::unique_ptr<WeightedContextCounter<Counter>> wc;
    StatisticDef* def() const { return kind == 0 ? static_cast<StatisticDef*>(cc.get()) : kind == 1 ? static_cast<StatisticDef*>(cy.get()) : wc.get(); }
    ContextCounter<Counter>* plain() const { return kind == 0 ? cc.get() : static_cast<ContextCounter<Counter>*>(wc.get()); }
    uint64_t value(size_t i) const { return c[i].val + (c[i].counting && clk->elapsedCycles() > c[i].from ? clk->elapsedCycles() - c[i].from : 0); }
};
struct World {
    pbt::Case& c; Scheduler sched; ClockManager cm{&sched}; Clock::Handle root, clk; RootTreeNode rtn{"top", "top"}; TreeNode dev{&rtn, "dev", "dev"}; std::unique_ptr<EventSet> es; std::unique_ptr<StatisticSet> ss; std::vector<M> ms; std::vector<std::unique_ptr<StatisticDef>> defs;
    struct Win { std::unique_ptr<StatisticInstance> si; size_t m; int what; size_t i = 0; std::vector<uint64_t> base; bool ended = false; double result = 0; }; std::vector<Win> wins; // what 0 aggregate 1 context 2 weighted average 3 maximum
    std::unique_ptr<UniqueEvent<>> ev; size_t left = 0, ops = 0, incs = 0, reports = 0; sp::Teardown td{rtn};
    World(pbt::Case& cc) : c(cc) {
        root = cm.makeRoot(); clk = cm.makeClock("c", root, uint32_t(c.range(1, 3)), uint32_t(c.range(1, 2))); cm.normalize(); dev.setClock(clk.get()); es.reset(new EventSet(&dev)); ev.reset(new UniqueEvent<>(es.get(), "ev", CREATE_SPARTA_HANDLER(World, step))); ss.reset(new StatisticSet(&dev));
        const size_t n = c.range(1, 3);
        for (size_t k = 0; k < n; ++k) {
            M m; m.kind = int(c.weighted({3, 2, 3})); m.name = "cc" + std::string(1, char('a' + k)); m.ctx = m.kind == 2 ? "Testing" : c.pickl({"ctx", "thread", "t"}); const uint32_t num = uint32_t(c.small(1, c.chance(1, 8) ? 20 : 6)); m.c.resize(num); m.clk = clk.get();
            m.beh = m.kind == 1 ? CounterBase::COUNT_NORMAL : (const CounterBase::CounterBehavior[]){CounterBase::COUNT_NORMAL, CounterBase::COUNT_INTEGRAL, CounterBase::COUNT_LATEST}[c.range(0, 2)];
            std::string e; if (m.kind != 2 && c.chance(1, 3)) { m.expr = int(c.range(1, 3)); e = m.expr == 1 ? "(" : ""; if (m.expr == 1) { for (uint32_t i = 0; i < num; ++i) e += (i ? "+" : "") + m.ctx + std::to_string(i); e += ")/" + std::to_string(num); } else if (m.expr == 2) e = m.ctx + "0 - 2 * " + m.ctx + std::to_string(num - 1); else { e = m.ctx + "0"; for (uint32_t i = 1; i < num; ++i) e = "max(" + e + ", " + m.ctx + std::to_string(i) + ")"; } }
            LOG(c, m.name << " kind " << m.kind << " " << num << " x " << m.ctx << " behaviour " << int(m.beh) << " " << e); const auto vis = InstrumentationNode::VIS_NORMAL;
            if (m.kind == 0) { if (m.expr) m.cc.reset(new ContextCounter<Counter>(ss.get(), m.name, "desc " + m.name, num, StatisticDef::ExpressionArg(e), m.ctx, m.beh, vis)); else m.cc.reset(new ContextCounter<Counter>(ss.get(), m.name, "desc " + m.name, num, m.ctx, m.beh, vis)); }
            else if (m.kind == 1) { if (m.expr) m.cy.reset(new ContextCounter<CycleCounter>(ss.get(), m.name, "desc " + m.name, num, StatisticDef::ExpressionArg(e), m.ctx, m.beh, clk.get(), vis)); else m.cy.reset(new ContextCounter<CycleCounter>(ss.get(), m.name, "desc " + m.name, num, m.ctx, m.beh, clk.get(), vis)); }
            else { m.wc.reset(new WeightedContextCounter<Counter>(ss.get(), m.name, "desc " + m.name, num, m.beh, vis)); m.w.assign(num, 1); for (const char* f : {"weightedAvg_", "max_"}) defs.emplace_back(new StatisticDef(ss.get(), m.name + (f[0] == 'w' ? "_avg" : "_max"), "d", static_cast<TreeNode*>(&rtn), "dev.stats." + m.name + "." + f)); }
            ms.push_back(std::move(m));
        }
        for (auto& m : ms) {
            StatisticDef* d = m.def(); const auto& sub = d->getSubStatistics(); REQUIRE_EQ(sub.size(), m.c.size(), "sub-statistics of " + m.name); for (size_t i = 0; i < sub.size(); ++i) { REQUIRE_EQ(sub[i].getName(), m.name + "_" + m.ctx + std::to_string(i), "name of a sub-statistic"); REQUIRE(sub[i].getNode() == rtn.getChildAs<CounterBase>("dev.stats." + m.name + "." + m.ctx + std::to_string(i)), "node of sub-statistic " << i); }
            const size_t num = m.kind == 1 ? m.cy->numContexts() : m.plain()->numContexts(); REQUIRE_EQ(num, m.c.size(), "number of contexts");
        }
        rtn.enterConfiguring(); rtn.enterFinalized(); sched.finalize();
    }
    double aggregate(const M& m, const std::vector<uint64_t>& base) const {
        auto v = [&](size_t i) { return double(m.value(i)) - (m.beh == CounterBase::COUNT_LATEST ? 0.0 : double(base[i])); }; const size_t n = m.c.size(); double s = 0; for (size_t i = 0; i < n; ++i) s += v(i);
        switch (m.expr) { case 1: return s / double(n); case 2: return v(0) - 2 * v(n - 1); case 3: { double x = v(0); for (size_t i = 1; i < n; ++i) x = std::max(x, v(i)); return x; } default: return s; }
    }
    double average(const M& m) const { double s = 0; for (size_t i = 0; i < m.c.size(); ++i) s += double(m.value(i)) * m.w[i]; return s / double(m.c.size()); }
    double maximum(const M& m) const { uint64_t x = 0; for (size_t i = 0; i < m.c.size(); ++i) x = std::max(x, m.value(i)); return double(x); }
    double want(const Win& w) const { const M& m = ms[w.m]; switch (w.what) { case 0: return aggregate(m, w.base); case 1: return double(m.value(w.i)) - (m.beh == CounterBase::COUNT_LATEST ? 0.0 : double(w.base[w.i])); case 2: return average(m); default: return maximum(m); } }
    std::vector<uint64_t> base(const M& m) const { std::vector<uint64_t> b; for (size_t i = 0; i < m.c.size(); ++i) b.push_back(m.value(i)); return b; }
    void open() {
        Win w; w.m = c.range(0, ms.size() - 1); M& m = ms[w.m]; w.base = base(m);
        switch (c.range(0, m.kind == 2 ? 3 : 1)) {
        case 0: w.what = 0; w.si.reset(new StatisticInstance(m.def())); break;
        case 1: w.what = 1; w.i = c.range(0, m.c.size() - 1); w.si.reset(new StatisticInstance(m.def()->getSubStatistics()[w.i].getNode())); break;
        case 2: w.what = 2; w.si.reset(new StatisticInstance(rtn.getChildAs<StatisticDef>("dev.stats." + m.name + "_avg"))); break;
        default: w.what = 3; w.si.reset(new StatisticInstance(rtn.getChildAs<StatisticDef>("dev.stats." + m.name + "_max"))); }
        LOG(c, "window on " << m.name << " what " << w.what); wins.push_back(std::move(w));
    }
    void report() { // the grouped values that the JSON reports print, and the expansion into one statistic per context
        ++reports; M& m = ms[c.range(0, ms.size() - 1)]; LOG(c, "report on " << m.name); const auto b0 = std::vector<uint64_t>(m.c.size(), 0); (void)b0;
        Report r("r", &dev); r.enableContextCounterStatsAutoExpansion(); if (m.c.size() > 1) r.addSubStats(m.def(), "p"); else r.add(m.def(), "p"); const auto& st = r.getStatistics(); REQUIRE_EQ(st.size(), m.c.size(), "expanded statistics");
        const auto start = base(m); if (m.c.size() > 1) for (size_t i = 0; i < st.size(); ++i) { REQUIRE_EQ(st[i].first, "p." + m.name + "_" + m.ctx + std::to_string(i), "name of an expanded statistic"); const double v = st[i].second->getValue(), x = m.beh == CounterBase::COUNT_LATEST ? double(m.value(i)) : 0.0; REQUIRE(v == x, "expanded statistic " << i << " is " << v << " instead of " << x); }
        std::vector<std::unique_ptr<StatisticInstance>> si; std::vector<const StatisticInstance*> p; for (auto& s : m.def()->getSubStatistics()) { si.emplace_back(new StatisticInstance(s.getNode())); p.push_back(si.back().get()); }
        std::set<const void*> hide; rapidjson::Document doc; doc.SetObject(); rapidjson::Value g; const bool full = c.flip(); const bool ok = full ? m.def()->groupedPrinting(p, hide, &g, &doc) : m.def()->groupedPrintingReduced(p, hide, &g, &doc); REQUIRE(ok, "grouped printing"); REQUIRE_EQ(hide.size(), m.c.size(), "statistics printed in the group");
        double agg = 0; for (size_t i = 0; i < m.c.size(); ++i) { const std::string k = m.ctx + std::to_string(i); REQUIRE(g.HasMember(k.c_str()), "no value for " << k << " in the group"); const auto& v = full ? g[k.c_str()]["val"] : g[k.c_str()]; const double x = m.beh == CounterBase::COUNT_LATEST ? double(m.value(i)) : 0.0; agg += x; REQUIRE(v.IsNumber() && near(v.GetDouble(), x), "value of " << k << " in the group"); }
        const auto& a = full ? g["agg"]["val"] : g["agg"]; REQUIRE(a.IsNumber() && near(a.GetDouble(), agg), "aggregate in the group");
    }
    void check() {
        for (auto& m : ms) {
            for (size_t i = 0; i < m.c.size(); ++i) { const uint64_t g = m.kind == 1 ? uint64_t(m.cy->context(uint32_t(i)).get()) : uint64_t(m.plain()->context(uint32_t(i)).get()); REQUIRE_EQ(g, m.value(i), "context " + std::to_string(i) + " of " + m.name); }
            size_t k = 0; if (m.kind == 1) { for (auto& x : *m.cy) { REQUIRE_EQ(uint64_t(x.get()), m.value(k), "iteration over the contexts of " + m.name); ++k; } } else for (auto& x : *m.plain()) { REQUIRE_EQ(uint64_t(x.get()), m.value(k), "iteration over the contexts of " + m.name); ++k; }
            REQUIRE_EQ(k, m.c.size(), "contexts iterated"); if (m.kind == 2) { const double a = m.wc->calculateWeightedAverage(); REQUIRE(near(a, average(m)), "weighted average of " << m.name << " is " << a << " instead of " << average(m)); }
        }
        for (auto& w : wins) { const double g = w.si->getValue(), x = w.ended ? w.result : want(w); if (w.ended && w.what >= 2) continue; REQUIRE(near(g, x), "statistic " << w.what << " of " << ms[w.m].name << " is " << g << " instead of " << x); }
    }
    void step() {
        const size_t n = c.range(1, 6);
        for (size_t k = 0; k < n; ++k) { ++ops; M& m = ms[c.range(0, ms.size() - 1)]; const uint32_t i = uint32_t(c.range(0, m.c.size() - 1)); Ctx& x = m.c[i];
            switch (c.weighted({16, 4, 3, 2, 1, 1, 2})) {
            case 0: ++incs; if (m.kind == 1) { const uint64_t t = clk->elapsedCycles(); auto& y = m.cy->context(i); if (!x.counting) { const uint32_t d = c.flip() ? 0 : uint32_t(c.range(0, 3)); LOG(c, m.name << i << " start in " << d); y.startCounting(d); x.counting = true; x.from = t + d; } else if (t >= x.from) { LOG(c, m.name << i << " stop"); y.stopCounting(); x.counting = false; x.val += t - x.from; } }
                else { auto& y = m.plain()->context(i); if (m.beh == CounterBase::COUNT_LATEST && c.flip()) { x.val = c.bits(unsigned(c.range(1, 40))); LOG(c, m.name << i << " = " << x.val); y = x.val; } else { const uint64_t a = c.flip() ? 1 : c.bits(unsigned(c.range(1, 34))); LOG(c, m.name << i << " += " << a); x.val += a; if (a == 1) ++y; else y += a; } } break;
            case 1: if (wins.size() < 8) open(); break;
            case 2: { if (wins.empty()) break; Win& w = wins[c.range(0, wins.size() - 1)]; LOG(c, "end a window"); w.result = want(w); w.si->end(); w.ended = true; break; }
            case 3: { if (m.kind != 2) break; std::vector<double> v; const size_t len = c.pickl({size_t(0), size_t(1), m.c.size()}); for (size_t j = 0; j < len; ++j) v.push_back(double(c.range(0, 40)) / 4 - 2); LOG(c, m.name << " " << len << " weights"); m.wc->assignContextWeights(v); if (len == 1) m.w.assign(m.c.size(), v[0]); else if (len) m.w = v; break; }
            case 4: if (m.kind == 2 && c.flip()) { if (m.c.size() + 1 > 1) { REQUIRE_THROWS(m.wc->assignContextWeights(std::vector<double>(m.c.size() + c.range(1, 3), 9.0)), "too many weights"); } } break;
            case 5: if (c.flip()) { if (m.kind == 1) { REQUIRE_THROWS(m.cy->context(uint32_t(m.c.size() + c.range(0, 2))), "a context that does not exist"); } else { REQUIRE_THROWS(m.plain()->context(uint32_t(m.c.size() + c.range(0, 2))), "a context that does not exist"); } } break;
            default: report(); }
        }
        check(); if (left) { --left; ev->schedule(Clock::Cycle(c.small(1, 9))); }
    }
    void run() { if (c.flip()) open(); if (c.chance(1, 4)) check(); left = c.range(2, 12); ev->schedule(Clock::Cycle(c.range(0, 4))); sched.run(Scheduler::INDEFINITE, false, false); check(); }
};
}
PROPERTY(contexts, 14000, 280000) { World w(c); w.run(); size_t most = 0; for (auto& m : w.ms) most = std::max(most, m.c.size()); c.nontrivial(w.ops >= 8 && w.incs >= 4 && most >= 2 && !w.wins.empty()); }
