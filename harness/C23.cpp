// C23: histograms against a list of the samples (or of the intervals in which each value was held).
#include "sp.hpp"
#include "sparta/statistics/Histogram.hpp"
#include "sparta/statistics/BasicHistogram.hpp"
#include "sparta/statistics/EnumHistogram.hpp"
#include "sparta/statistics/StateHistogram.hpp"
#include "sparta/statistics/CycleHistogram.hpp"
#include "sparta/statistics/EnumCycleHistogram.hpp"
#include "sparta/statistics/StatisticInstance.hpp"
#include "sparta/statistics/StatisticSet.hpp"
#include "sparta/events/UniqueEvent.hpp"
#include <cmath>
#include <memory>
using namespace sparta;

enum class Plain : uint32_t { A = 0, __FIRST = A, B, C, D, __LAST };
enum class Shown : uint64_t { P = 0, __FIRST = P, Q, R, S, T, __LAST };
inline std::ostream& operator<<(std::ostream& o, const Shown& s) { return o << "shown_" << char('P' + int(s)); }
enum class Late : uint32_t { F = 2, __FIRST = F, G, H, I, __LAST };
inline std::ostream& operator<<(std::ostream& o, const Late& s) { return o << "late_" << int(s); }
enum class Named : uint16_t { X = 0, __FIRST = X, Y, Z, __LAST };
enum class Off : uint32_t { K = 1, __FIRST = K, L, M, N, __LAST };
template <> const std::unique_ptr<std::string[]> sparta::utils::Enum<Named>::names_(new std::string[size_t(Named::__LAST) + 1]);
template <> const std::unique_ptr<std::string[]> sparta::utils::Enum<Off>::names_(new std::string[size_t(Off::__LAST) + 1]);
sparta::utils::Enum<Named> named_names(Named::X, "n_x", Named::Y, "n_y", Named::Z, "n_z");
sparta::utils::Enum<Off> off_names(Off::K, "o_k", Off::L, "o_l", Off::M, "o_m", Off::N, "o_n");

namespace {
bool near(double a, double b) { return (std::isnan(a) && std::isnan(b)) || a == b || std::fabs(a - b) <= 1e-9 * std::max(std::fabs(a), std::fabs(b)); }
// the bins and their names
struct Shape {
    uint64_t lo = 0, hi = 0, width = 1; size_t n() const { return size_t((hi - lo) / width + 1); }
    uint64_t first(size_t i) const { return lo + i * width; } uint64_t last(size_t i) const { return std::min(hi, first(i) + (width - 1)); }
    int bin(uint64_t v) const { return v < lo ? -1 : v > hi ? int(n()) : int((v - lo) / width); } // -1 underflow, n overflow
};
struct Counts { std::vector<uint64_t> b; uint64_t uf = 0, of = 0; uint64_t& at(int i) { return i < 0 ? uf : i >= int(b.size()) ? of : b[size_t(i)]; } uint64_t sum() const { uint64_t s = uf + of; for (auto x : b) s += x; return s; } };
template <class H> void moments(const H& h, const Counts& m, const Shape& s) {
    const double n = double(s.n() + 2), mean = double(m.sum()) / n; double a = (double(m.uf) - mean) * (double(m.uf) - mean) + (double(m.of) - mean) * (double(m.of) - mean); for (auto x : m.b) a += (double(x) - mean) * (double(x) - mean);
    REQUIRE(near(h.getMeanBinCount(), mean), "mean of the bin counts is " << h.getMeanBinCount() << " instead of " << mean);
    REQUIRE(std::fabs(h.getStandardDeviation() - std::sqrt(a / (n - 1))) <= 1e-6 * (1 + mean + std::sqrt(a / (n - 1))), "standard deviation is " << h.getStandardDeviation() << " instead of " << std::sqrt(a / (n - 1)));
}
template <class H> void probabilities(const H& h, const Counts& m, double total) {
    REQUIRE(near(h.getUnderflowProbability(), double(m.uf) / total), "underflow probability is " << h.getUnderflowProbability() << " instead of " << double(m.uf) / total); REQUIRE(near(h.getOverflowProbability(), double(m.of) / total), "overflow probability is " << h.getOverflowProbability() << " instead of " << double(m.of) / total);
    const auto& p = h.recomputeRegularBinProbabilities(); REQUIRE_EQ(p.size(), m.b.size(), "number of probabilities"); for (size_t i = 0; i < p.size(); ++i) REQUIRE(near(p[i], double(m.b[i]) / total), "probability of bin " << i << " is " << p[i] << " instead of " << double(m.b[i]) / total);
}
std::string table(const std::string& name, const Counts& m, const Shape& s) {
    std::ostringstream o; uint64_t r = m.uf; o << "\t" << name << "[ UF ] = " << r << "\n"; for (size_t i = 0; i < s.n(); ++i) { r += m.b[i]; o << "\t" << name << "[ " << s.lo << "-" << s.last(i) << " ] = " << r << "\n"; } o << "\t" << name << "[ OF ] = " << r + m.of << "\n"; return o.str();
}
Shape makeShape(pbt::Case& c) {
    Shape s; s.width = uint64_t(1) << c.small(0, c.chance(1, 6) ? 31 : 6); s.lo = c.weighted({3, 3, 1}) == 0 ? 0 : c.flip() ? c.range(1, 40) : c.bits(unsigned(c.range(6, 62)));
    const uint64_t bins = c.small(1, 24); s.hi = s.lo + (bins - 1) * s.width + c.range(0, s.width - 1); if (s.hi == s.lo) ++s.hi; return s;
}
uint64_t makeValue(pbt::Case& c, const Shape& s) {
    switch (c.weighted({6, 4, 2, 2, 1})) { case 0: return c.range(s.lo, s.hi); case 1: { const uint64_t e = s.first(size_t(c.range(0, s.n() - 1))); const uint64_t d = c.range(0, 2); return d == 0 && e ? e - 1 : d == 1 ? e : e + 1; }
        case 2: return s.hi + c.small(0, 40); case 3: return s.lo - std::min<uint64_t>(s.lo, c.small(0, 40)); default: return c.chance(1, 3) ? ~uint64_t(0) : c.bits(64); }
}
}

PROPERTY(samples, 7000, 240000) { // HistogramTreeNode / HistogramStandalone
    Scheduler sched; ClockManager cm(&sched); Clock::Handle root = cm.makeRoot(); cm.normalize(); RootTreeNode rtn("top", "top"); TreeNode dev(&rtn, "dev", "dev"); rtn.setClock(root.get()); StatisticSet ss(&dev);
    std::unique_ptr<HistogramTreeNode> tn; std::unique_ptr<HistogramStandalone> sa; sp::Teardown td{rtn};
    if (c.chance(1, 30)) { if (c.flip()) { REQUIRE_THROWS(HistogramStandalone(&ss, "x", 5, 5 - c.range(0, 1), 1, 0), "a histogram whose upper value is not above its lower value"); } else REQUIRE_THROWS(HistogramStandalone(&ss, "x", 0, 50, uint32_t(c.pickl({3, 5, 6, 7, 12})), 0), "a bin width that is not a power of two"); return; }
    const Shape s = makeShape(c); const uint32_t k = uint32_t(c.weighted({2, 3}) ? c.small(1, 6) : 0); const bool node = c.flip(); std::string prefix = node ? "" : c.pickl({"h_", "a.b_", "x"}); if (prefix == "a.b_") prefix = "ab_";
    LOG(c, (node ? "node" : "standalone") << " [" << s.lo << "," << s.hi << "] by " << s.width << ", " << k << " largest");
    if (node) { if (k || c.flip()) tn.reset(new HistogramTreeNode(&dev, "hist", "d", s.lo, s.hi, uint32_t(s.width), k, InstrumentationNode::VIS_NORMAL, InstrumentationNode::VIS_NORMAL)); else tn.reset(new HistogramTreeNode(&dev, "hist", "d", s.lo, s.hi, uint32_t(s.width))); }
    else sa.reset(new HistogramStandalone(&ss, prefix, s.lo, s.hi, uint32_t(s.width), k));
    HistogramBase& h = node ? static_cast<HistogramBase&>(*tn) : *sa; const std::string at = (node ? std::string("dev.hist.stats.") : std::string("dev.stats.")) + prefix;
    rtn.enterConfiguring(); rtn.enterFinalized(); sched.finalize();
    REQUIRE_EQ(size_t(h.getNumBins()), s.n(), "number of bins"); REQUIRE_EQ(h.getHistogramUpperValue(), s.hi, "upper value"); REQUIRE_EQ(h.getHistogramLowerValue(), s.lo, "lower value"); REQUIRE_EQ(uint64_t(h.getNumValuesPerBin()), s.width, "bin width"); REQUIRE_EQ(h.getRegularBin().size(), s.n(), "bins");
    Counts m; m.b.resize(s.n()); uint64_t sum = 0; std::vector<uint64_t> all; struct Win { std::unique_ptr<StatisticInstance> avg; Counts base; uint64_t sum; std::vector<std::unique_ptr<StatisticInstance>> p; }; std::vector<Win> wins;
    auto open = [&] { Win w; w.base = m; w.sum = sum; w.avg.reset(new StatisticInstance(rtn.getChildAs<StatisticDef>(at + "average"))); w.p.emplace_back(new StatisticInstance(rtn.getChildAs<StatisticDef>(at + "UF_probability"))); for (size_t i = 0; i < s.n(); ++i) w.p.emplace_back(new StatisticInstance(rtn.getChildAs<StatisticDef>(at + "bin_" + std::to_string(s.first(i)) + "_" + std::to_string(s.last(i)) + "_probability"))); w.p.emplace_back(new StatisticInstance(rtn.getChildAs<StatisticDef>(at + "OF_probability"))); wins.push_back(std::move(w)); };
    const bool big = c.chance(1, 4) || s.hi > (uint64_t(1) << 44); if (!big && c.flip()) open();
    auto check = [&] {
        for (size_t i = 0; i < s.n(); ++i) REQUIRE_EQ(uint64_t(h.getRegularBin()[i].get()), m.b[i], "bin " + std::to_string(i)); REQUIRE_EQ(uint64_t(h.getUnderflowBin().get()), m.uf, "underflow bin"); REQUIRE_EQ(uint64_t(h.getOverflowBin().get()), m.of, "overflow bin"); REQUIRE_EQ(uint64_t(h.getAggValues().get()), all.size(), "total"); REQUIRE_EQ(uint64_t(rtn.getChildAs<Counter>(at + "sum")->get()), sum, "sum");
        std::vector<uint64_t> top(all); top.insert(top.end(), k, 0); std::sort(top.rbegin(), top.rend()); for (uint32_t i = 0; i < k; ++i) REQUIRE_EQ(uint64_t(rtn.getChildAs<Counter>(at + "maxval" + std::to_string(i))->get()), top[k - 1 - i], "largest value " + std::to_string(i));
        moments(h, m, s); if (!all.empty()) probabilities(h, m, double(all.size())); if (node) REQUIRE_EQ(tn->getDisplayStringCumulative(), table("hist", m, s), "printed table");
        for (auto& w : wins) { const double t = double(m.sum() - w.base.sum()); const double av = w.avg->getValue(); REQUIRE(near(av, double(sum - w.sum) / t), "average is " << av << " instead of " << double(sum - w.sum) / t); for (size_t i = 0; i < w.p.size(); ++i) { const int b = int(i) - 1; const double want = double(m.at(b) - w.base.at(b)) / t, got = w.p[i]->getValue(); REQUIRE(near(got, want), "probability statistic of bin " << b << " is " << got << " instead of " << want); } }
    };
    const size_t n = c.range(1, 40); size_t oob = 0;
    for (size_t i = 0; i < n; ++i) { const uint64_t v = all.empty() || c.chance(4, 5) ? makeValue(c, s) : all[c.range(0, all.size() - 1)]; if (!big && v > (uint64_t(1) << 45)) continue; LOG(c, "add " << v); h.addValue(v); ++m.at(s.bin(v)); sum += v; all.push_back(v); if (s.bin(v) < 0 || s.bin(v) >= int(s.n())) ++oob; if (c.chance(1, 12) && wins.size() < 3) { if (!big) open(); } if (c.chance(1, 6)) check(); }
    check(); c.nontrivial(n >= 4 && oob && s.n() >= 2);
}

PROPERTY(buckets, 6000, 120000) { // BasicHistogram: the last bucket whose bound is not above the value
    Scheduler sched; ClockManager cm(&sched); Clock::Handle root = cm.makeRoot(); cm.normalize(); RootTreeNode rtn("top", "top"); TreeNode dev(&rtn, "dev", "dev"); rtn.setClock(root.get()); StatisticSet ss(&dev);
    std::vector<int64_t> b; const size_t n = c.range(1, 8); while (b.size() < n) { const int64_t v = int64_t(c.bits(unsigned(c.range(1, 12)))) * (c.chance(1, 3) ? -1 : 1); if (std::find(b.begin(), b.end(), v) == b.end()) b.push_back(v); } std::sort(b.begin(), b.end());
    std::unique_ptr<BasicHistogram<int64_t>> lax; std::unique_ptr<BasicHistogram<int64_t, true>> strict; sp::Teardown td{rtn};
    if (n > 1 && c.chance(1, 20)) { auto u = b; std::swap(u.front(), u.back()); REQUIRE_THROWS(BasicHistogram<int64_t>(ss, "u", "d", u), "buckets out of order"); return; }
    const bool st = c.chance(1, 3); if (st) strict.reset(new BasicHistogram<int64_t, true>(ss, "bh", "d", b)); else lax.reset(new BasicHistogram<int64_t>(ss, "bh", "d", b)); rtn.enterConfiguring(); rtn.enterFinalized(); sched.finalize();
    std::vector<uint64_t> m(n); const size_t ops = c.range(1, 30); size_t low = 0; bool thrown = false;
    for (size_t i = 0; i < ops; ++i) {
        const int64_t v = c.flip() ? b[c.range(0, n - 1)] + int64_t(c.range(0, 2)) - 1 : int64_t(c.bits(13)) - 4096; size_t at = 0; for (size_t j = 0; j < n; ++j) if (b[j] <= v) at = j; LOG(c, "add " << v);
        if (v < b[0]) { ++low; if (st) { if (!thrown) { thrown = true; REQUIRE_THROWS(strict->addValue(v), "a value below the first bucket"); } continue; } } ++m[at]; if (st) strict->addValue(v); else lax->addValue(v);
    }
    for (size_t j = 0; j < n; ++j) { const std::string name = "bh_" + (b[j] < 0 ? "n" + std::to_string(-b[j]) : std::to_string(b[j])); REQUIRE_EQ(uint64_t(ss.getCounter(name)->get()), m[j], "bucket " + name); }
    c.nontrivial(n >= 2 && ops >= 4 && low);
}

namespace {
template <class E> void enumHist(pbt::Case& c) {
    Scheduler sched; ClockManager cm(&sched); Clock::Handle root = cm.makeRoot(); cm.normalize(); RootTreeNode rtn("top", "top"); TreeNode dev(&rtn, "dev", "dev"); rtn.setClock(root.get()); std::unique_ptr<EnumHistogram<E>> h; sp::Teardown td{rtn};
    h.reset(new EnumHistogram<E>(&dev, "eh", "d")); rtn.enterConfiguring(); rtn.enterFinalized(); sched.finalize(); Shape s; s.lo = uint64_t(E::__FIRST); s.hi = uint64_t(E::__LAST) - 1; Counts m; m.b.resize(s.n()); const std::string at = "dev.eh.stats.";
    auto nm = [&](size_t i) { return std::string(typename sparta::utils::Enum<E>::Value(static_cast<E>(s.lo + i))); };
    REQUIRE_EQ(size_t(h->getNumBins()), s.n(), "number of bins"); StatisticInstance uf(rtn.getChildAs<StatisticDef>(at + "UF_probability")), of(rtn.getChildAs<StatisticDef>(at + "OF_probability")); std::vector<std::unique_ptr<StatisticInstance>> p; for (size_t i = 0; i < s.n(); ++i) p.emplace_back(new StatisticInstance(rtn.getChildAs<StatisticDef>(at + "bin_" + nm(i) + "_" + std::to_string(s.lo + i) + "_probability")));
    const size_t n = c.range(1, 30); for (size_t i = 0; i < n; ++i) { const uint64_t v = c.range(0, s.hi + 2); LOG(c, "add " << v); h->addValue(static_cast<E>(v)); ++m.at(s.bin(v)); }
    for (size_t i = 0; i < s.n(); ++i) { REQUIRE_EQ(uint64_t(rtn.getChildAs<Counter>(at + "bin_" + nm(i) + "_" + std::to_string(s.lo + i))->get()), m.b[i], "bin " + nm(i)); REQUIRE(near(p[i]->getValue(), double(m.b[i]) / double(n)), "probability of " << nm(i)); }
    REQUIRE_EQ(uint64_t(rtn.getChildAs<Counter>(at + "UF")->get()), m.uf, "underflow"); REQUIRE_EQ(uint64_t(rtn.getChildAs<Counter>(at + "OF")->get()), m.of, "overflow"); REQUIRE_EQ(uint64_t(rtn.getChildAs<Counter>(at + "total")->get()), uint64_t(n), "total"); REQUIRE(near(uf.getValue(), double(m.uf) / double(n)) && near(of.getValue(), double(m.of) / double(n)), "under- and overflow probabilities");
    std::ostringstream o; uint64_t r = m.uf; o << "\teh[ UF ] = " << r << "\n"; for (size_t i = 0; i < s.n(); ++i) { r += m.b[i]; o << "\teh[ " << nm(0) << "-" << nm(i) << " ] = " << r << "\n"; } o << "\teh[ OF ] = " << r + m.of << "\n"; REQUIRE_EQ(h->getDisplayStringCumulative(), o.str(), "printed table"); c.nontrivial(n >= 4 && m.of);
}
}
PROPERTY(enums, 4000, 80000) { if (c.flip()) enumHist<Named>(c); else enumHist<Off>(c); }

namespace {
// a value held over time: intervals [from,to) attributed to a value; to may lie one cycle ahead
struct Held {
    const Clock* clk = nullptr; Shape s; struct I { uint64_t v, from, to; }; std::vector<I> past; uint64_t cur = 0, from = 0, max = 0, t0 = 0;
    uint64_t now() const { return clk->elapsedCycles(); }
    void hold(uint64_t v, uint64_t end, uint64_t start) { past.push_back({cur, from, end}); cur = v; from = start; }
    Counts counts() const { Counts m; m.b.resize(s.n()); for (auto& i : past) m.at(s.bin(i.v)) += i.to - i.from; if (now() > from) m.at(s.bin(cur)) += now() - from; return m; }
};
struct Cyc {
    pbt::Case& c; Scheduler sched; ClockManager cm{&sched}; Clock::Handle root, clk; RootTreeNode rtn{"top", "top"}; TreeNode drv{&rtn, "drv", "driver"}; TreeNode dev{&rtn, "dev", "dev"}; std::unique_ptr<EventSet> es; StatisticSet ss{&dev};
    std::unique_ptr<CycleHistogramStandalone> sa; std::unique_ptr<CycleHistogramTreeNode> tn; std::unique_ptr<EnumCycleHistogram<Plain>> ep; std::unique_ptr<EnumCycleHistogram<Shown>> eh; std::unique_ptr<EnumCycleHistogram<Late>> el; std::unique_ptr<EnumCycleHistogram<sparta::utils::Enum<Named>>> en; std::unique_ptr<StateHistogram<Named>> sn; std::unique_ptr<StateHistogram<Off>> so;
    int kind; Held m; uint64_t idle = 0; std::vector<std::string> names; std::string at, total, maxv; bool blocked = false; uint64_t blockCycle = 0; size_t ops = 0, held = 0, left = 0; std::unique_ptr<UniqueEvent<>> ev;
    struct Win { Counts base; uint64_t t; std::map<std::string, std::unique_ptr<StatisticInstance>> si; }; std::vector<Win> wins; sp::Teardown td{rtn};
    Cyc(pbt::Case& cc) : c(cc) {
        root = cm.makeRoot(); clk = cm.makeClock("c", root, uint32_t(c.range(1, 3)), uint32_t(c.range(1, 2))); cm.normalize(); drv.setClock(clk.get()); dev.setClock(clk.get()); es.reset(new EventSet(&drv)); ev.reset(new UniqueEvent<>(es.get(), "ev", CREATE_SPARTA_HANDLER(Cyc, step))); m.clk = clk.get();
        kind = int(c.weighted({4, 4, 1, 1, 1, 1, 1, 1})); Shape& s = m.s;
        if (kind <= 1) {
            s.width = c.flip() ? 1 : uint64_t(1) << c.range(0, 4); s.lo = c.flip() ? 0 : c.range(1, 9); s.hi = s.lo + c.range(1, c.chance(1, 4) ? 40 : 8); idle = c.flip() ? 0 : c.range(0, s.hi + 1);
            if (kind == 0) { sa.reset(new CycleHistogramStandalone(&ss, clk.get(), "ch", "d", s.lo, s.hi, s.width, idle)); at = "dev.stats.ch_"; } else { tn.reset(new CycleHistogramTreeNode(&dev, "cn", "d", s.lo, s.hi, s.width, idle)); at = "dev.cn.stats."; }
            for (size_t i = 0; i < s.n(); ++i) names.push_back(s.first(i) == s.last(i) ? (kind ? "cycle_count" : "count") + std::to_string(s.first(i)) : "bin_" + std::to_string(s.first(i)) + "_" + std::to_string(s.last(i))); maxv = kind ? "max_value" : "max";
        } else { auto lohi = [&](auto f, auto l) { s.lo = uint64_t(f); s.hi = uint64_t(l) - 1; idle = c.range(s.lo, s.hi); }; at = "dev.x.stats."; maxv = kind <= 5 ? "max_value" : "";
            if (kind == 2) { lohi(Plain::__FIRST, Plain::__LAST); ep.reset(new EnumCycleHistogram<Plain>(&dev, "x", "d", Plain(idle))); for (int i = 0; i < 4; ++i) names.push_back("cycle_count" + std::to_string(i)); }
            else if (kind == 3) { lohi(Shown::__FIRST, Shown::__LAST); eh.reset(new EnumCycleHistogram<Shown>(&dev, "x", "d", Shown(idle))); for (int i = 0; i < 5; ++i) { std::ostringstream o; o << Shown(i); names.push_back("cycle_count" + o.str()); } }
            else if (kind == 4) { lohi(Late::__FIRST, Late::__LAST); el.reset(new EnumCycleHistogram<Late>(&dev, "x", "d", Late(idle))); for (int i = 2; i < 6; ++i) { std::ostringstream o; o << Late(i); names.push_back("cycle_count" + o.str()); } }
            else if (kind == 5) { lohi(Named::__FIRST, Named::__LAST); en.reset(new EnumCycleHistogram<sparta::utils::Enum<Named>>(&dev, "x", "d", Named(idle))); names = {"cycle_countn_x", "cycle_countn_y", "cycle_countn_z"}; }
            else if (kind == 6) { lohi(Named::__FIRST, Named::__LAST); sn.reset(new StateHistogram<Named>(&dev, "x", "d", Named(idle))); names = {"bin_n_x", "bin_n_y", "bin_n_z"}; }
            else { lohi(Off::__FIRST, Off::__LAST); so.reset(new StateHistogram<Off>(&dev, "x", "d", Off(idle))); names = {"bin_o_k", "bin_o_l", "bin_o_m", "bin_o_n"}; } }
        m.cur = idle; m.max = idle; LOG(c, "kind " << kind << " [" << s.lo << "," << s.hi << "] by " << s.width << " idle " << idle);
        rtn.enterConfiguring(); rtn.enterFinalized(); sched.finalize();
    }
    double agg() const { return double(m.now() - m.t0); }
    void open() {
        Win w; w.base = m.counts(); w.t = m.now(); auto add = [&](const std::string& n) { w.si[n].reset(new StatisticInstance(rtn.getChildAs<StatisticDef>(at + n))); };
        for (auto& n : names) add(n + "_probability"); if (kind <= 5) { add("UF_probability"); add("OF_probability"); add("full"); add("full_probability"); if (m.s.width == 1) { add("weighted_avg"); add("weighted_nonzero_avg"); } } else { w.si["total"].reset(new StatisticInstance(rtn.getChildAs<StatisticDef>(at + "total"))); }
        wins.push_back(std::move(w));
    }
    void check() {
        Counts k = m.counts(); const Shape& s = m.s;
        for (size_t i = 0; i < s.n(); ++i) { CounterBase* b = rtn.getChildAs<CounterBase>(at + names[i]); REQUIRE_EQ(uint64_t(b->get()), k.b[i], "cycles of " + names[i]); }
        if (kind <= 5) { REQUIRE_EQ(uint64_t(rtn.getChildAs<CounterBase>(at + "UF")->get()), k.uf, "cycles of the underflow bin"); REQUIRE_EQ(uint64_t(rtn.getChildAs<CounterBase>(at + "OF")->get()), k.of, "cycles of the overflow bin"); REQUIRE_EQ(uint64_t(rtn.getChildAs<CounterBase>(at + "total")->get()), m.now() - m.t0, "total cycles"); REQUIRE_EQ(uint64_t(rtn.getChildAs<Counter>(at + maxv)->get()), m.max, "largest value"); }
        const CycleHistogramBase* h = kind == 0 ? static_cast<CycleHistogramBase*>(sa.get()) : tn.get();
        if (kind <= 1) { REQUIRE_EQ(size_t(h->getNumBins()), s.n(), "number of bins"); moments(*h, k, s); if (agg() > 0) probabilities(*h, k, agg()); for (size_t i = 0; i < s.n(); ++i) REQUIRE_EQ(uint64_t(h->getRegularBin()[i].get()), k.b[i], "regular bin " + std::to_string(i)); REQUIRE_EQ(kind == 0 ? sa->getDisplayStringCumulative() : tn->getDisplayStringCumulative(), table(kind == 0 ? "ch" : "cn", k, s), "printed table"); }
        if (kind == 6) { REQUIRE_EQ(uint64_t(sn->getState()), m.cur, "state"); } if (kind == 7) { REQUIRE_EQ(uint64_t(so->getState()), m.cur, "state"); }
        for (auto& w : wins) { // statistics over a window
            auto d = [&](int i) { return double(k.at(i)) - double(w.base.at(i)); }; const int n = int(s.n()); double t = double(m.now() - w.t); if (kind >= 6) { t = 0; for (int i = 0; i < n; ++i) t += d(i); }
            auto want = [&](const std::string& name, double v) { const double g = w.si.at(name)->getValue(); REQUIRE(near(g, v) || (t == 0 && !std::isfinite(v)), name << " is " << g << " instead of " << v); };
            for (int i = 0; i < n; ++i) want(names[size_t(i)] + "_probability", d(i) / t);
            if (kind >= 6) { want("total", t); continue; }
            want("UF_probability", d(-1) / t); want("OF_probability", d(n) / t); want("full", d(n - 1) + d(n)); want("full_probability", (d(n - 1) + d(n)) / t);
            if (s.width == 1) { double x = double(s.lo) * d(-1) + double(s.hi) * d(n); for (int i = 0; i < n; ++i) x += double(s.lo + uint64_t(i)) * d(i); want("weighted_avg", x / t); if (s.lo) want("weighted_nonzero_avg", x / t); else if (t - d(0) != 0) want("weighted_nonzero_avg", x / (t - d(0))); }
        }
    }
    template <class T, class E> void enumOp(T& h, uint64_t v, E) {
        const uint64_t t = m.now();
        if (m.cur != idle && c.flip()) { LOG(c, "@" << t << " stop " << m.cur); h.stopCounting(E(m.cur)); m.hold(idle, t, t); return; }
        const uint64_t d = c.chance(3, 4) ? 0 : c.range(1, 4); LOG(c, "@" << t << " start " << v << " in " << d); h.startCounting(E(v), d); m.hold(v, t, t + d); m.max = std::max(m.max, v);
    }
    void step() {
        const size_t n = c.range(1, 3);
        for (size_t i = 0; i < n; ++i) { ++ops; const uint64_t t = m.now(); if (t < m.from) break; // counting of the current value starts in a later cycle
            if (kind <= 1) {
                CycleHistogramBase& h = kind == 0 ? static_cast<CycleHistogramBase&>(*sa) : *tn; const uint64_t v = c.chance(1, 5) ? m.cur : c.range(m.s.lo > 2 ? m.s.lo - 2 : 0, m.s.hi + 2);
                if (c.flip()) { LOG(c, "@" << t << " set " << v); h.setValue(v); if (v != m.cur) { m.hold(v, t, t); m.max = std::max(m.max, v); ++held; } }
                else { LOG(c, "@" << t << " add " << v); h.addValue(v); m.hold(v, t, t); m.hold(idle, t + 1, t + 1); m.max = std::max(m.max, v); ++held; }
            } else { const uint64_t v = c.range(m.s.lo, m.s.hi); ++held;
                if (kind == 2) enumOp(*ep, v, Plain()); else if (kind == 3) enumOp(*eh, v, Shown()); else if (kind == 4) enumOp(*el, v, Late()); else if (kind == 5) enumOp(*en, v, Named());
                else { const bool next = c.chance(1, 3); LOG(c, "@" << t << (next ? " next " : " state ") << v); if (kind == 6) { if (next) sn->setNextState(Named(v)); else sn->setState(Named(v)); } else { if (next) so->setNextState(Off(v)); else so->setState(Off(v)); } if (v != m.cur) m.hold(v, t + next, t + next); } }
            if (c.flip()) check();
        }
        if (wins.size() < 3 && c.chance(1, 5)) open();
        check(); if (left) { --left; ev->schedule(Clock::Cycle(c.small(1, 9))); }
    }
    void run() { if (c.flip()) open(); left = c.range(3, 16); ev->schedule(Clock::Cycle(c.range(0, 4))); sched.run(Scheduler::INDEFINITE, false, false); check(); }
};
}
PROPERTY(cycles, 9000, 280000) {
    if (c.chance(1, 40)) { Scheduler sched; ClockManager cm(&sched); Clock::Handle root = cm.makeRoot(); cm.normalize(); RootTreeNode rtn("top", "top"); rtn.setClock(root.get()); StatisticSet ss(&rtn); sp::Teardown td{rtn}; if (c.flip()) { REQUIRE_THROWS(CycleHistogramStandalone(&ss, root.get(), "x", "d", 4, 4 - c.range(0, 1), 1), "an upper value not above the lower value"); } else REQUIRE_THROWS(CycleHistogramStandalone(&ss, root.get(), "x", "d", 0, 9, c.pickl({3, 5, 6}), 0), "a bin width that is not a power of two"); return; }
    Cyc w(c); w.run(); c.nontrivial(w.ops >= 6 && w.held >= 4 && !w.wins.empty());
}
