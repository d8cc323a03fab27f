// C21: counters against the history of what was done to them, and statistic instances against the values at the ends of their windows.
#include "sp.hpp"
#include "sparta/statistics/Counter.hpp"
#include "sparta/statistics/CycleCounter.hpp"
#include "sparta/statistics/ReadOnlyCounter.hpp"
#include "sparta/statistics/StatisticDef.hpp"
#include "sparta/statistics/StatisticInstance.hpp"
#include "sparta/statistics/StatisticSet.hpp"
#include "sparta/simulation/Parameter.hpp"
#include "sparta/simulation/ParameterSet.hpp"
#include "sparta/events/UniqueEvent.hpp"
#include <cmath>
#include <list>
#include <memory>
using namespace sparta;

namespace {
struct Params : ParameterSet { Params(TreeNode* n) : ParameterSet(n) {} PARAMETER(uint32_t, width, 7, "width") PARAMETER(double, ratio, 0.5, "ratio") };
struct Interval { uint64_t from, to; uint32_t mult; };
struct Model { // what the history says a counter holds
    std::string name; CounterBase::CounterBehavior beh = CounterBase::COUNT_NORMAL; int kind = 0; // 0 counter 1 cycle 2 read-only
    uint64_t val = 0; std::vector<Interval> past; bool counting = false; uint64_t from = 0; uint32_t mult = 1; Clock* clk = nullptr;
    Counter* ctr = nullptr; CycleCounter* cyc = nullptr; ReadOnlyCounter* ro = nullptr;
    uint64_t value() const {
        if (kind != 1) return val;
        uint64_t s = 0; for (auto& i : past) s += (i.to - i.from) * i.mult;
        const uint64_t now = clk->elapsedCycles(); if (counting && now > from) s += (now - from) * mult; return s;
    }
    CounterBase* node() const { return kind == 0 ? static_cast<CounterBase*>(ctr) : kind == 1 ? static_cast<CounterBase*>(cyc) : ro; }
};
struct Expr { // value of an expression when the leaves are given
    std::string text; std::function<double(const std::function<double(int)>&)> f;
};
struct World {
    pbt::Case& c; Scheduler sched; ClockManager cm{&sched}; Clock::Handle root, fast, slow; RootTreeNode rtn{"top", "stats"}; TreeNode dev{&rtn, "dev", "dev"}; TreeNode dev2{&rtn, "dev2", "dev2"}; std::unique_ptr<EventSet> es; std::unique_ptr<Params> params; StatisticSet ss{&dev}; StatisticSet ss2{&dev2};
    std::vector<Model> ms; std::vector<Counter> grown; std::unique_ptr<uint64_t[]> ref{new uint64_t[8]()}; std::vector<StatisticDef*> defs; std::vector<Expr> exprs; std::vector<std::unique_ptr<Counter>> held; std::vector<std::unique_ptr<CycleCounter>> heldc; std::vector<std::unique_ptr<ReadOnlyCounter>> heldr;
    struct Inst { std::unique_ptr<StatisticInstance> si; int ctr = -1, def = -1, par = -1, freeExpr = -1; std::vector<double> base; bool ended = false, cumulative = false; double result = 0; Scheduler::Tick from = 0, to = 0; size_t windows = 0; };
    std::list<Inst> insts; std::unique_ptr<UniqueEvent<>> ev; size_t left = 0, ops = 0, ended = 0, copies = 0, cycleOps = 0; sp::Teardown td{rtn};
    World(pbt::Case& cc) : c(cc) {
        root = cm.makeRoot(); fast = cm.makeClock("fast", root); slow = cm.makeClock("slow", root, uint32_t(c.range(1, 4)), uint32_t(c.range(1, 3))); cm.normalize();
        dev.setClock(fast.get()); dev2.setClock(slow.get()); params.reset(new Params(&dev)); es.reset(new EventSet(&dev));
        const CounterBase::CounterBehavior behs[] = {CounterBase::COUNT_NORMAL, CounterBase::COUNT_INTEGRAL, CounterBase::COUNT_LATEST};
        // counters in a growing vector: every growth moves them
        const size_t g = c.range(0, 5); const bool reserve = c.chance(1, 4); if (reserve) grown.reserve(8); std::vector<size_t> gi;
        for (size_t i = 0; i < g; ++i) {
            Model m; m.name = "ga" + std::string(1, char('a' + i)); m.beh = behs[c.range(0, 2)]; if (c.flip()) grown.emplace_back(&ss, m.name, "d", m.beh); else grown.emplace_back(&ss, m.name, "grp", TreeNode::group_idx_type(i), "d", m.beh);
            gi.push_back(ms.size()); ms.push_back(m); if (c.flip()) { const size_t k = c.range(0, grown.size() - 1); if (ms[gi[k]].beh == CounterBase::COUNT_LATEST) { ms[gi[k]].val = c.bits(20); grown[k].set(ms[gi[k]].val); } else { const uint64_t a = c.bits(20); ms[gi[k]].val += a; grown[k] += a; } }
        }
        if (g && c.chance(1, 4)) { std::vector<Counter> t(std::move(grown)); grown.swap(t); }
        const size_t extra = c.range(1, 5);
        for (size_t i = 0; i < extra; ++i) {
            Model m; m.name = "x" + std::string(1, char('a' + i)); m.kind = int(c.weighted({3, 3, 1})); m.beh = behs[m.kind == 1 ? c.range(0, 1) : c.range(0, 2)]; StatisticSet* p = c.chance(3, 4) ? &ss : &ss2; m.clk = c.flip() ? fast.get() : slow.get();
            if (m.kind == 0) { if (c.flip()) m.ctr = &p->createCounter<Counter>(m.name, "d", m.beh); else { held.emplace_back(new Counter(p, m.name, "d", m.beh)); m.ctr = held.back().get(); } }
            else if (m.kind == 1) { if (c.flip()) m.cyc = &p->createCounter<CycleCounter>(m.name, "d", m.beh, m.clk); else { heldc.emplace_back(new CycleCounter(p, m.name, "d", m.beh, m.clk)); m.cyc = heldc.back().get(); } }
            else { heldr.emplace_back(new ReadOnlyCounter(p, m.name, "d", m.beh, &ref[i])); m.ro = heldr.back().get(); }
            if (p == &ss2) m.name = "#" + m.name; ms.push_back(m);
        }
        for (size_t i = 0; i < gi.size(); ++i) ms[gi[i]].ctr = &grown[i];
        const auto& cs = ss.getCounters(); size_t in1 = 0; for (auto& m : ms) if (m.name[0] != '#') { ++in1; REQUIRE(std::find(cs.begin(), cs.end(), m.node()) != cs.end(), "counter " << m.name << " is missing from its set"); REQUIRE(ss.getCounter(m.name) == m.node(), "lookup of " << m.name); }
        REQUIRE_EQ(cs.size(), in1, "counters in the set"); REQUIRE_EQ(size_t(ss.getNumCounters()), in1, "number of counters");
        // statistics over them
        const size_t nd = c.weighted({1, 3, 2}); for (size_t i = 0; i < nd; ++i) addDef();
        REQUIRE_EQ(size_t(ss.getNumStatisticDefs()), defs.size(), "statistics in the set");
        ev.reset(new UniqueEvent<>(es.get(), "ev", CREATE_SPARTA_HANDLER(World, step)));
        rtn.enterConfiguring(); rtn.enterFinalized(); sched.finalize();
        REQUIRE_THROWS(ss.createCounter<Counter>("late", "d", CounterBase::COUNT_NORMAL), "a counter added after finalization");
    }
    std::string path(const Model& m) const { return m.name[0] == '#' ? "dev2.stats." + m.name.substr(1) : "dev.stats." + m.name; }
    Expr makeExpr() { // linear-ish templates; leaves >= 0 are counters, -1-k are earlier statistics
        const int a = int(c.range(0, ms.size() - 1)), b = int(c.range(0, ms.size() - 1)); const std::string A = path(ms[a]), B = path(ms[b]); Expr e; const double k = double(c.range(1, 9));
        switch (c.range(0, defs.empty() ? 4 : 6)) {
        case 0: e = {A, [a](auto& v) { return v(a); }}; break;
        case 1: e = {A + " + " + B, [a, b](auto& v) { return v(a) + v(b); }}; break;
        case 2: e = {A + " - " + std::to_string(int(k)) + " * " + B, [a, b, k](auto& v) { return v(a) - k * v(b); }}; break;
        case 3: e = {"(" + A + " + 1) / (" + B + " + " + std::to_string(int(k)) + ")", [a, b, k](auto& v) { return (v(a) + 1) / (v(b) + k); }}; break;
        case 4: e = {A + " * " + A + " + dev.params.width", [a](auto& v) { return v(a) * v(a) + 7; }}; break;
        case 5: e = {"dev.stats.sa + " + A, [this, a](auto& v) { return exprs[0].f(v) + v(a); }}; break;
        default: e = {"dev.stats.sa * 2 - dev.stats.sa", [this](auto& v) { return exprs[0].f(v) * 2 - exprs[0].f(v); }}; }
        return e;
    }
    void addDef() { Expr e = makeExpr(); const std::string n = "s" + std::string(1, char('a' + defs.size())); LOG(c, n << " = " << e.text); defs.push_back(&ss.createStatisticDef(n, "d", static_cast<TreeNode*>(&rtn), e.text, StatisticDef::VS_ABSOLUTE)); exprs.push_back(e); }
    std::vector<double> now() const { std::vector<double> v; for (auto& m : ms) v.push_back(double(m.value())); return v; }
    double eval(const Inst& i) const {
        const auto cur = now(); auto leaf = [&](int k) { return ms[k].beh == CounterBase::COUNT_LATEST ? cur[k] : cur[k] - i.base[k]; };
        if (i.ctr >= 0) return leaf(i.ctr); if (i.par == 0) return 7; if (i.par == 1) return 0.5; return exprs[i.def >= 0 ? i.def : i.freeExpr].f(leaf);
    }
    void check(Inst& i, const char* when) {
        const double want = i.ended ? i.result : eval(i), got = i.si->getValue(); REQUIRE(got == want, when << ": a statistic over [" << i.from << "," << (i.ended ? std::to_string(i.to) : "now") << "] is " << got << " instead of " << want << " (" << i.si->getExpressionString() << ")");
        REQUIRE_EQ(Scheduler::Tick(i.si->getStart()), i.from, "start of a window"); REQUIRE_EQ(Scheduler::Tick(i.si->getEnd()), i.ended ? i.to : Scheduler::INDEFINITE, "end of a window");
        if (i.ctr >= 0) { REQUIRE_EQ(i.si->getRawLatest(), double(ms[i.ctr].value()), "raw latest value"); REQUIRE_EQ(i.si->getInitial(), i.base[i.ctr], "initial value"); }
    }
    void checkAll() {
        for (auto& m : ms) { REQUIRE_EQ(uint64_t(m.node()->get()), m.value(), "counter " + m.name); REQUIRE(m.node()->getBehavior() == m.beh, "behaviour of " << m.name); if (m.kind == 0) { REQUIRE_EQ(uint64_t(*m.ctr), m.value(), "conversion of " + m.name); } if (m.kind == 1) REQUIRE(m.cyc->isCounting() == m.counting, "counting of " << m.name); }
        for (auto& i : insts) check(i, "check");
    }
    void create() {
        Inst i; i.base = now(); i.from = sched.getElapsedTicks(); std::vector<const TreeNode*> used;
        switch (c.weighted({4, defs.empty() ? 0u : 4u, 1, defs.empty() ? 0u : 1u})) {
        case 0: i.ctr = int(c.range(0, ms.size() - 1)); LOG(c, "instance of " << ms[i.ctr].name); i.si.reset(new StatisticInstance(ms[i.ctr].node())); break;
        case 1: i.def = int(c.range(0, defs.size() - 1)); LOG(c, "instance of " << defs[i.def]->getName()); i.si.reset(new StatisticInstance(defs[i.def])); break;
        case 2: { i.par = int(c.flip()); LOG(c, "instance of a parameter"); i.si.reset(new StatisticInstance(params->getChildAs<TreeNode>(i.par ? "ratio" : "width"))); break; }
        default: { i.freeExpr = int(c.range(0, defs.size() - 1)); LOG(c, "instance of the expression of " << defs[i.freeExpr]->getName()); statistics::expression::Expression e(exprs[i.freeExpr].text, &rtn); i.si.reset(new StatisticInstance(std::move(e))); i.si->setContext(&dev); i.si->start(); }
        }
        insts.push_back(std::move(i)); check(insts.back(), "new instance");
    }
    Inst& any() { auto it = insts.begin(); std::advance(it, c.range(0, insts.size() - 1)); return *it; }
    void act(Model& m) {
        if (m.kind == 0) {
            if (m.beh == CounterBase::COUNT_LATEST && c.flip()) { const uint64_t v = c.bits(c.range(1, 40)); LOG(c, m.name << " = " << v); m.val = v; if (c.flip()) { REQUIRE_EQ(uint64_t(m.ctr->set(v)), v, "set returns"); } else *m.ctr = v; return; }
            if (m.beh != CounterBase::COUNT_LATEST && c.chance(1, 25)) { LOG(c, m.name << " set refused"); REQUIRE_THROWS(m.ctr->set(3), "setting a counter that only counts"); return; }
            switch (c.range(0, 3)) { case 0: LOG(c, "++" << m.name); REQUIRE_EQ(uint64_t(++*m.ctr), m.val + 1, "pre-increment"); ++m.val; break; case 1: LOG(c, m.name << "++"); REQUIRE_EQ(uint64_t((*m.ctr)++), m.val, "post-increment"); ++m.val; break;
                default: { const uint64_t a = c.chance(1, 8) ? 0 : c.bits(c.range(1, 36)); LOG(c, m.name << " += " << a); m.val += a; if (c.flip()) { REQUIRE_EQ(uint64_t(*m.ctr += a), m.val, "+= returns"); } else REQUIRE_EQ(uint64_t(m.ctr->increment(a)), m.val, "increment returns"); } }
        } else if (m.kind == 2) { const size_t k = size_t(m.node()->getName()[1] - 'a'); const uint64_t v = m.beh == CounterBase::COUNT_LATEST ? c.bits(30) : m.val + c.bits(20); LOG(c, m.name << " reads " << v); ref[k] = m.val = v; }
        else {
            ++cycleOps; const uint64_t t = m.clk->elapsedCycles(); const uint32_t d = c.flip() ? 0 : uint32_t(c.range(0, 6));
            if (!m.counting) { if (c.flip()) { LOG(c, m.name << " starts counting in " << d); m.cyc->startCounting(d); m.mult = 1; m.from = t + d; } else if (c.flip()) { m.mult = uint32_t(c.range(0, 9)); LOG(c, m.name << " starts counting by " << m.mult << " in " << d); m.cyc->startCountingWithMultiplier(m.mult, d); m.from = t + d; } else if (c.chance(1, 4)) { LOG(c, m.name << " stop refused"); REQUIRE_THROWS(m.cyc->stopCounting(), "stopping a stopped counter"); return; } else { m.mult = uint32_t(c.range(0, 9)); LOG(c, m.name << " multiplier " << m.mult); m.cyc->updateCountingMultiplier(m.mult); m.from = t; } m.counting = true; }
            else switch (c.weighted({5, 4, 1})) {
                case 0: if (t + d < m.from) { LOG(c, m.name << " stop before its start refused"); REQUIRE_THROWS(m.cyc->stopCounting(d), "stopping before the start"); return; } LOG(c, m.name << " stops counting in " << d); m.cyc->stopCounting(d); m.past.push_back({m.from, t + d, m.mult}); m.counting = false; break;
                case 1: { if (t < m.from) return; const uint32_t k = c.chance(1, 5) ? m.mult : uint32_t(c.range(0, 9)); LOG(c, m.name << " multiplier " << k); m.cyc->updateCountingMultiplier(k); m.past.push_back({m.from, t, m.mult}); m.from = t; m.mult = k; REQUIRE_EQ(m.cyc->getCurrentMultiplier(), k, "multiplier"); break; }
                default: LOG(c, m.name << " start refused"); REQUIRE_THROWS(m.cyc->startCounting(), "starting a counting counter"); }
        }
    }
    void step() {
        const size_t n = c.range(1, 5);
        for (size_t k = 0; k < n; ++k) { ++ops;
            switch (c.weighted({20, 5, 5, 5, 2, 2, 1})) {
            case 0: act(ms[c.range(0, ms.size() - 1)]); break;
            case 1: if (insts.size() < 8) create(); break;
            case 2: { if (insts.empty()) break; Inst& i = any(); LOG(c, "start a window"); i.si->start(); i.from = sched.getElapsedTicks(); i.ended = false; if (!i.cumulative) i.base = now(); ++i.windows; check(i, "after start"); break; }
            case 3: { if (insts.empty()) break; Inst& i = any(); LOG(c, "end a window"); i.result = eval(i); i.si->end(); i.to = sched.getElapsedTicks(); i.ended = true; ++ended; check(i, "after end"); break; }
            case 4: { if (insts.empty() || insts.size() >= 8) break; Inst& s = any(); Inst n2; n2.ctr = s.ctr; n2.def = s.def; n2.par = s.par; n2.freeExpr = s.freeExpr; n2.base = s.base; n2.ended = s.ended; n2.cumulative = s.cumulative; n2.result = s.result; n2.from = s.from; n2.to = s.to; ++copies;
                switch (c.range(0, 2)) { case 0: LOG(c, "copy an instance"); n2.si.reset(new StatisticInstance(*s.si)); break; case 1: { LOG(c, "assign an instance"); Inst& o = any(); std::unique_ptr<StatisticInstance> x(new StatisticInstance(*o.si)); *x = *s.si; n2.si = std::move(x); break; } default: { LOG(c, "move an instance"); StatisticInstance t(*s.si); n2.si.reset(new StatisticInstance(std::move(t))); } }
                insts.push_back(std::move(n2)); check(insts.back(), "copied instance"); break; }
            case 5: { if (insts.empty()) break; Inst& i = any(); if (i.par >= 0) break; LOG(c, "accumulate"); i.si->accumulateStatistic(); i.cumulative = true; break; }
            default: if (insts.size() > 1) { auto it = insts.begin(); std::advance(it, c.range(0, insts.size() - 1)); LOG(c, "destroy an instance"); insts.erase(it); } }
        }
        checkAll(); if (left) { --left; const auto d = c.small(1, 12); LOG(c, "+" << d); ev->schedule(Clock::Cycle(d)); }
    }
    void run() {
        left = c.range(3, 14); ev->schedule(Clock::Cycle(c.range(0, 5))); sched.run(Scheduler::INDEFINITE, false, false); checkAll();
        if (!insts.empty() && sched.getElapsedTicks() > 4 && c.chance(1, 4)) { // time goes back: windows in the future cannot be read
            const auto t = c.range(0, sched.getElapsedTicks() - 1); LOG(c, "restart at " << t); sched.restartAt(t); const auto el = sched.getElapsedTicks();
            for (auto& i : insts) if (i.from > el || (i.ended && i.to > el)) REQUIRE_THROWS(i.si->getValue(), "reading a window in the future"); else if (i.ctr >= 0 && ms[i.ctr].kind != 1) check(i, "after restart");
        }
    }
};
}

PROPERTY(statistics, 30000, 600000) {
    World w(c); w.run(); c.nontrivial(w.ops >= 10 && w.ended >= 1 && w.insts.size() >= 2 && (w.cycleOps || w.copies));
}
