// C04: rational arithmetic against 128-bit fractions; clock trees against exact ratios.
#include "sp.hpp"
#include "sparta/utils/Rational.hpp"
#include "sparta/utils/MathUtils.hpp"
#include "sparta/events/UniqueEvent.hpp"
using namespace sparta;
typedef unsigned __int128 u128;

namespace {
u128 gcd128(u128 a, u128 b) { while (b) { u128 t = a % b; a = b; b = t; } return a; }
struct F { u128 n, d; void norm() { if (!n) { d = 1; return; } u128 g = gcd128(n, d); n /= g; d /= g; } };
template <class T> std::string show(const utils::Rational<T>& r) { return std::string(r); }
template <class T> bool fits(u128 x) { return x <= (u128)std::numeric_limits<T>::max(); }

template <class T> void rationals(pbt::Case& c) {
    typedef utils::Rational<T> R; unsigned bits = sizeof(T) * 8;
    auto num = [&]() -> T { switch (c.draw(3)) { case 0: return (T)c.draw(12); case 1: return (T)c.bits(bits / 2); case 2: return (T)c.bits(bits); default: return (T)(c.draw(50) * c.bits(bits / 3)); } };
    auto ref = [](T n, T d) { F f{n, d}; f.norm(); return f; };
    auto same = [&](const R& r, const F& f, const char* what) {
        REQUIRE((u128)r.getNumerator() == f.n && (u128)r.getDenominator() == f.d, what << ": got " << r.getNumerator() << "/" << r.getDenominator() << ", exact " << (uint64_t)f.n << "/" << (uint64_t)f.d);
        R m = r; REQUIRE(m == R((T)f.n, (T)f.d), what << ": not equal to the same fraction");
        std::string s = f.n == 0 ? "0" : f.d == 1 ? std::to_string((uint64_t)f.n) : std::to_string((uint64_t)f.n) + "/" + std::to_string((uint64_t)f.d); REQUIRE_EQ(std::string(r), s, what);
        std::ostringstream o; o << r; REQUIRE_EQ(o.str(), s, what << " printed");
        double dd = double(r), e = double((uint64_t)f.n) / double((uint64_t)f.d); REQUIRE(std::fabs(dd - e) <= 1e-12 * std::fabs(e), what << " as double " << dd << " vs " << e);
        if (f.d == 1) REQUIRE_EQ((T)r, (T)f.n, what << " as integer");
    };
    unsigned ops = 0; T n0 = num(), d0 = num(); if (!d0) d0 = 1;
    R acc(n0, d0); F fa = ref(n0, d0); LOG(c, "start " << n0 << "/" << d0); same(acc, fa, "constructed");
    for (unsigned k = 1 + (unsigned)c.draw(5); k--;) {
        T n = num(), d = num(); if (!d) d = 1; R b(n, d); F fb = ref(n, d); same(b, fb, "operand");
        if (c.chance(1, 6)) { b = acc; fb = fa; }
        bool self = c.chance(1, 10); if (self) { b = acc; fb = fa; }
        unsigned op = (unsigned)c.draw(4); bool inplace = c.flip(); F f; R r;
        switch (op) {
        case 0: case 1: { u128 m = fa.d / gcd128(fa.d, fb.d) * fb.d; if (!fits<T>(m)) continue; u128 x = fa.n * (m / fa.d), y = fb.n * (m / fb.d); if (!fits<T>(x) || !fits<T>(y) || (op == 0 && !fits<T>(x + y))) continue;
            f = op == 0 ? F{x + y, m} : F{x > y ? x - y : y - x, m}; f.norm(); R& rb = self ? acc : b;
            R keep = b; if (!inplace) { r = op == 0 ? acc + rb : acc - rb; } else { if (op == 0) acc += rb; else acc -= rb; r = acc; } if (!self) same(b, fb, "operand after use"); break; }
        case 2: { f = F{fa.n * fb.n, fa.d * fb.d}; f.norm(); if (!fits<T>(f.n) || !fits<T>(f.d)) continue; R& rb = self ? acc : b; if (inplace) { acc *= rb; r = acc; } else r = acc * rb; break; }
        case 3: { if (!fb.n) continue; f = F{fa.n * fb.d, fa.d * fb.n}; f.norm(); if (!fits<T>(f.n) || !fits<T>(f.d)) continue; R& rb = self ? acc : b; if (inplace) { acc /= rb; r = acc; } else r = acc / rb; break; }
        default: { if (!fa.n) continue; f = F{fa.d, fa.n}; r = acc.inv(); inplace = false; break; }
        }
        const char* nm[] = {"sum", "difference", "product", "quotient", "inverse"};
        LOG(c, nm[op] << (inplace ? " in place" : "") << " with " << show(b) << " = " << show(r)); ++ops; c.label(nm[op]);
        same(r, f, nm[op]); if (!inplace) same(acc, fa, "left operand after use");
        R ac2 = acc, bb = b; REQUIRE_EQ((ac2 == bb), (inplace ? f.n == fb.n && f.d == fb.d : fa.n == fb.n && fa.d == fb.d), "equality");
        acc = r; fa = f;
    }
    T u = num(), v = num(); REQUIRE((u128)utils::gcd<T>(u, v) == gcd128(u, v), "gcd(" << u << "," << v << ") = " << utils::gcd<T>(u, v));
    if (u && v && fits<T>((u128)u / gcd128(u, v) * v)) REQUIRE((u128)utils::lcm<T>(u, v) == (u128)u / gcd128(u, v) * v, "lcm(" << u << "," << v << ")");
    c.nontrivial(ops >= 2);
}
}
PROPERTY(rational_arithmetic, 300000, 10000000) { if (c.flip()) rationals<uint64_t>(c); else rationals<uint32_t>(c); }

namespace {
struct Tk { std::function<void()> f; void go() { f(); } };
}
PROPERTY(clock_trees, 25000, 800000) {
    Scheduler sched("s"); ClockManager cm(&sched); RootTreeNode rtn("top"); std::vector<Clock::Handle> k; std::vector<F> rel; std::vector<int> par; std::vector<double> freq;
    std::vector<std::unique_ptr<TreeNode>> nodes; std::vector<std::unique_ptr<EventSet>> es; std::vector<std::unique_ptr<Tk>> tk; std::vector<std::unique_ptr<UniqueEvent<>>> ev;
    sp::Teardown td{rtn};
    k.push_back(cm.makeRoot(&rtn, "root")); rel.push_back({1, 1}); par.push_back(-1); freq.push_back(0);
    bool byfreq = c.chance(1, 3); unsigned n = (unsigned)c.small(0, 6); u128 norm = 1; std::vector<std::pair<uint32_t, uint32_t>> rat(1, {1, 1});
    for (unsigned i = 0; i < n; ++i) {
        unsigned p = (unsigned)c.draw(k.size() - 1); std::string nm = "c" + std::to_string(i);
        if (byfreq) {
            double f; switch (c.draw(3)) { case 0: { static const int divs[] = {1000, 500, 250, 2000, 100, 125, 200, 400, 1, 2, 10, 625, 800, 1250, 2500, 4000, 5000, 10000}; f = divs[c.draw(17)]; break; } case 1: f = 1 + (double)c.draw(5000); break; case 2: f = 1e6 / (1 + (double)c.draw(20000)); break; default: f = (1 + (double)c.draw(400000)) / 64; break; }
            k.push_back(cm.makeClock(nm, k[p], f)); freq.push_back(f); rel.push_back({1, 1}); LOG(c, nm << ": " << f << " MHz");
        } else {
            uint32_t a, b; if (c.flip()) { a = (uint32_t)c.range(1, 6); b = (uint32_t)c.range(1, 6); } else { a = (uint32_t)c.range(1, 120); b = (uint32_t)c.range(1, 120); }
            F f{rel[p].n * b, rel[p].d * a}; f.norm(); u128 nn = norm / gcd128(norm, f.d) * f.d; 
            bool over = nn * f.n / f.d > 200000000 || f.n * f.d > 1000000000; for (auto& r : rel) if (nn * r.n / r.d > 200000000) over = true;
            if (over) { a = b = 1; f = rel[p]; nn = norm; }
            norm = nn; k.push_back(a == 1 && b == 1 && c.flip() ? cm.makeClock(nm, k[p]) : cm.makeClock(nm, k[p], a, b)); rel.push_back(f); freq.push_back(0); LOG(c, nm << ": ratio " << a << ":" << b << " to " << (p ? "c" + std::to_string(p - 1) : "root")); rat.resize(k.size()); rat.back() = {a, b};
        }
        par.push_back((int)p);
    }
    uint32_t nm = cm.normalize();
    for (size_t i = 0; i < k.size(); ++i) {
        u128 P = k[i]->getPeriod(); REQUIRE(P > 0, "period 0");
        if (byfreq && n) { if (!i) continue; double q = 1e6 / freq[i]; REQUIRE(std::fabs((double)(uint64_t)P - q) < 1 + 1e-9 * q, "clock of " << freq[i] << " MHz has period " << (uint64_t)P << ", expected " << q); if (freq[i] == (double)(uint32_t)freq[i] && 1000000 % (uint32_t)freq[i] == 0) REQUIRE((uint64_t)P == 1000000 / (uint32_t)freq[i], "clock of " << freq[i] << " MHz has period " << (uint64_t)P); REQUIRE_EQ(k[i]->getFrequencyMhz(), freq[i], "frequency"); }
        else {
            REQUIRE(P * rel[i].d == (u128)k[0]->getPeriod() * rel[i].n, "clock " << i << " has period " << (uint64_t)P << ", the root " << k[0]->getPeriod() << ", exact ratio " << (uint64_t)rel[i].n << "/" << (uint64_t)rel[i].d);
            if (i) { auto r = k[i]->getRatio(); uint32_t a = rat[i].first, b = rat[i].second; F f{a, b}; f.norm(); REQUIRE(r.getNumerator() == f.n && r.getDenominator() == f.d, "ratio of clock " << i); }
            REQUIRE_EQ(nm, k[0]->getPeriod(), "normalize() and the root's period");
        }
    }
    REQUIRE(cm.getRoot() == k[0], "root clock");
    uint32_t mx = 1; for (auto& x : k) mx = std::max(mx, x->getPeriod());
    // conversions, at drawn cycles and ticks
    for (auto& x : k) { uint64_t P = x->getPeriod(), cy = c.bits(30), t = c.bits(50); REQUIRE_EQ(x->getTick(cy), cy * P, "getTick"); REQUIRE_EQ(x->getCycle(cy * P), cy, "getCycle(getTick)"); REQUIRE_EQ(x->getCycle(t), t / P, "getCycle"); REQUIRE_EQ(x->getAbsoluteTick(cy + 1), cy * P, "getAbsoluteTick"); cy &= 0xfffff; REQUIRE_EQ(x->getTick(double(cy)), cy * P, "getTick(double)"); REQUIRE_EQ(x->getTick(double(cy) + 0.5), cy * P + P / 2, "getTick(double)"); }
    rtn.setClock(k[0].get());
    for (size_t i = 0; i < k.size(); ++i) { nodes.emplace_back(new TreeNode(&rtn, "n" + std::to_string(i), "n")); nodes.back()->setClock(k[i].get()); es.emplace_back(new EventSet(nodes.back().get())); tk.emplace_back(new Tk); ev.emplace_back(new UniqueEvent<>(es.back().get(), "e" + std::to_string(i), SpartaHandler::from_member<Tk, &Tk::go>(tk.back().get(), "go"))); }
    rtn.enterConfiguring(); rtn.enterFinalized(); sched.finalize();
    auto at = [&](uint64_t t, bool inside) {
        REQUIRE_EQ(sched.getCurrentTick(), t, "current tick");
        for (auto& x : k) {
            uint64_t P = x->getPeriod(); REQUIRE_EQ(x->currentTick(), t, "currentTick"); REQUIRE_EQ(x->currentCycle(), t / P, "currentCycle of period " << P << " at tick " << t); REQUIRE_EQ(x->isPosedge(), t % P == 0, "isPosedge of period " << P << " at " << t);
            REQUIRE_EQ(x->getCyclesROCounter().get(), t / P, "cycles counter"); if (inside) REQUIRE_EQ(x->elapsedCycles(), t / P, "elapsedCycles of period " << P << " at tick " << t);
        }
        // clock crossing: from the edge it is at, the first edge of the other clock not before the delays have passed
        for (int r = 0; r < 3; ++r) {
            Clock* a = k[c.draw(k.size() - 1)].get(); Clock* b = k[c.draw(k.size() - 1)].get(); uint64_t sd = c.draw(4) * a->getPeriod(), dd = c.draw(4) * b->getPeriod(); if (c.chance(1, 5)) sd += c.draw(5);
            if (t % a->getPeriod()) continue;
            uint64_t d = calculateClockCrossingDelay(sd, a, dd, b), Q = b->getPeriod();
            REQUIRE((t + d) % Q == 0 && d >= sd + dd && d - sd - dd < Q, "crossing delay " << d << " from tick " << t << " with delays " << sd << "+" << dd << " to a clock of period " << Q);
            // and back: the latest edge of the sender from which the item is there at t + d
            uint64_t arr = t + d, back = calculateReverseClockCrossingDelay(arr, sd, a, dd, b); REQUIRE(back <= arr && (arr - back) % a->getPeriod() == 0 && back >= sd + dd && back - sd - dd < a->getPeriod(), "reverse crossing delay " << back << " from arrival " << arr);
            c.label("crossings");
        }
    };
    unsigned fuel = (unsigned)c.urange(2, 25), fired = 0; std::vector<std::set<uint64_t>> due(k.size());
    for (size_t i = 0; i < k.size(); ++i) tk[i]->f = [&, i] { uint64_t t = sched.getCurrentTick(); REQUIRE(due[i].erase(t), "event of clock " << i << " fired at " << t << " where it was not due"); ++fired; at(t, true); if (fuel) { --fuel; uint64_t cy = 1 + c.small(0, 9); ev[i]->schedule(cy); due[i].insert(t + cy * k[i]->getPeriod()); } };
    uint64_t now = 0;
    for (unsigned s = 1 + (unsigned)c.draw(3); s--;) {
        unsigned i = (unsigned)c.draw(k.size() - 1); uint64_t cy = c.small(0, 9); if (!due[i].count(now + cy * k[i]->getPeriod())) { ev[i]->schedule(cy); due[i].insert(now + cy * k[i]->getPeriod()); }
        uint64_t len = 1 + c.small(0, 12ull * mx); LOG(c, "run " << len); sched.run(len, true, false); now += len; at(now, false);
        for (auto& d : due) REQUIRE(d.empty() || *d.begin() >= now, "an event due at " << *d.begin() << " did not fire by " << now);
    }
    c.label("fired", fired); c.nontrivial(k.size() >= 2 && fired >= 2);
}
