// C01: the scheduler against a reference event queue.
#include "sp.hpp"
#include "sparta/events/StartupEvent.hpp"
#include "sparta/events/AsyncEvent.hpp"
#include "sparta/events/SchedulingPhases.hpp"
using namespace sparta;

namespace {
constexpr unsigned NPHASE = 7;

struct World;
struct Ev {                                   // a harness event: forwards to the world
    World* w = nullptr; unsigned id = 0; std::string name;
    unsigned phase = 0, clk = 0; uint64_t delay = 0; bool continuing = true, async = false;
    std::unique_ptr<TreeNode> node; Scheduleable* s = nullptr;
    void fire();
};
template <SchedulingPhase P> void mk(Ev& e, EventSet* es) {
    auto h = SpartaHandler::from_member<Ev, &Ev::fire>(&e, e.name.c_str());
    if (e.async) { auto* p = new AsyncEvent<P>(es, e.name, h, e.delay); e.node.reset(p); e.s = p; }
    else { auto* p = new Event<P>(es, e.name, h, e.delay); e.node.reset(p); e.s = p; }
}
void make(Ev& e, EventSet* es) {
    switch (e.phase) {
    case 0: mk<SchedulingPhase::Trigger>(e, es); break;
    case 1: mk<SchedulingPhase::Update>(e, es); break;
    case 2: mk<SchedulingPhase::PortUpdate>(e, es); break;
    case 3: mk<SchedulingPhase::Flush>(e, es); break;
    case 4: mk<SchedulingPhase::Collection>(e, es); break;
    case 5: mk<SchedulingPhase::Tick>(e, es); break;
    default: mk<SchedulingPhase::PostTick>(e, es); break;
    }
}
struct Pend { uint64_t tick; uint64_t gid; uint64_t seq; unsigned id; bool operator<(const Pend& o) const { return std::tie(tick, gid, seq) < std::tie(o.tick, o.gid, o.seq); } };

struct World {
    pbt::Case& c;
    Scheduler sched; ClockManager cm; RootTreeNode rtn;
    std::vector<Clock::Handle> clks; std::vector<uint64_t> period;
    std::vector<std::unique_ptr<TreeNode>> nodes; std::vector<std::unique_ptr<EventSet>> sets;
    std::vector<std::unique_ptr<Ev>> evs;
    std::vector<std::vector<bool>> before;          // declared precedence, transitively closed
    // model
    std::set<Pend> pend; uint64_t seq = 0; std::set<uint64_t> quanta; uint64_t latest = 0;
    struct Async { unsigned id; uint64_t rel; }; std::vector<Async> async;
    uint64_t now = 0; bool in_run = false; uint64_t cur_gid = 0; unsigned cur_ev = 0; bool firing = false;
    uint64_t limit_tick = ~0ull;                    // no firing may happen beyond it
    std::set<std::pair<unsigned, uint64_t>> fired_now; // (id) fired in the current tick and group
    uint64_t last_tick = 0, last_gid = 0; unsigned fuel; uint64_t fired = 0, cancelled = 0, refused = 0, same_tick = 0;
    struct Hist { uint64_t tick; unsigned id; uint64_t sched_at_tick; }; 
    std::vector<unsigned> fired_this_tick;

    World(pbt::Case& cc) : c(cc), sched("sched"), cm(&sched), rtn("top"), fuel(0) {}

    uint64_t gid(unsigned id) { uint64_t g = evs[id]->s->getGroupID(); return g ? g : ~0ull; }
    bool pending_anywhere(unsigned id) { for (auto& p : pend) if (p.id == id) return true; return false; }
    bool pending_at(unsigned id, uint64_t t) { for (auto& p : pend) if (p.id == id && p.tick == t) return true; return false; }

    void schedule(unsigned id) {
        Ev& e = *evs[id]; unsigned how = (unsigned)c.weighted({5, 1, 2, 2});
        uint64_t rel = 0; unsigned ck = e.clk; uint64_t d = c.weighted({2, 2, 3}) == 0 ? c.draw(1) : c.small(0, 12);
        std::function<void()> f;
        switch (how) {
        case 0: rel = d * period[e.clk]; f = [&e, d] { e.s->schedule(d); }; break;
        case 1: rel = e.delay * period[e.clk]; f = [&e] { e.s->schedule(); }; d = e.delay; break;
        case 2: ck = (unsigned)c.draw(clks.size() - 1); rel = d * period[ck]; f = [this, &e, d, ck] { e.s->schedule(d, clks[ck].get()); }; break;
        default: rel = c.small(0, 40); f = [this, &e, rel] { e.s->scheduleRelativeTick(rel, &sched); }; break;
        }
        if (e.async) {
            if (rel == 0) return;                   // see DESIGN.md: only a positive delay is claimed
            f(); async.push_back({id, rel}); LOG(c, "  async schedule e" << id << " +" << rel); c.label("async"); return;
        }
        bool refuse = rel == 0 && firing && gid(id) < cur_gid;
        std::string what; bool thrown = sp::throws(f, what);
        LOG(c, "  schedule e" << id << " +" << rel << (refuse ? " (refused)" : ""));
        REQUIRE(thrown == refuse, "scheduling e" << id << " at tick " << now + rel << " from group " << cur_gid << " to group " << gid(id) << ": " << (thrown ? "threw " + what : "did not throw"));
        if (refuse) { ++refused; return; }
        if (rel == 0 && firing) ++same_tick;
        pend.insert({now + rel, gid(id), seq++, id}); quanta.insert(now + rel);
        if (e.continuing) latest = std::max(latest, now + rel);
    }
    void cancel(unsigned id) {
        LOG(c, "  cancel e" << id);
        Ev& e = *evs[id];
        if (e.async) { if (auto* a = dynamic_cast<AsyncEvent<SchedulingPhase::Tick>*>(e.s)) a->cancel(); else return;
            async.erase(std::remove_if(async.begin(), async.end(), [&](auto& x) { return x.id == id; }), async.end()); }
        else e.s->cancel();
        for (auto i = pend.begin(); i != pend.end();) if (i->id == id) { i = pend.erase(i); ++cancelled; } else ++i;
    }
    void cancel_at(unsigned id, uint64_t d) {
        Ev& e = *evs[id]; uint64_t t = now + d * period[e.clk]; LOG(c, "  cancel e" << id << " at " << t);
        e.s->cancel(d);
        for (auto i = pend.begin(); i != pend.end();) if (i->id == id && i->tick == t) { i = pend.erase(i); ++cancelled; } else ++i;
    }
    void query(unsigned id) {
        Ev& e = *evs[id];
        bool maybe = firing && fired_now.count({id, now});
        bool m = pending_anywhere(id);
        if (m || !maybe) REQUIRE_EQ(e.s->isScheduled(), m, "e" << id << " isScheduled at tick " << now);
        uint64_t d = c.small(0, 6), t = now + d * period[e.clk]; m = pending_at(id, t);
        if (m || !(maybe && t == now)) REQUIRE_EQ(e.s->isScheduled(d), m, "e" << id << " isScheduled(" << d << ") at tick " << now);
    }
    void act() {
        unsigned id = (unsigned)c.draw(evs.size() - 1);
        switch (c.weighted({10, 2, 2, 2})) {
        case 0: schedule(id); if (c.chance(1, 3)) schedule((unsigned)c.draw(evs.size() - 1)); break;
        case 1: cancel(id); break;
        case 2: cancel_at(id, c.small(0, 6)); break;
        default: query(id); break;
        }
    }
    void drain_async(uint64_t t) {                  // what the scheduler takes over when it reaches a tick
        for (auto& a : async) { pend.insert({t + a.rel, gid(a.id), seq++, a.id}); quanta.insert(t + a.rel); if (evs[a.id]->continuing) latest = std::max(latest, t + a.rel); }
        async.clear();
    }
    // the model moves to the tick that is about to be processed
    uint64_t processed = ~0ull, firstq = 0; bool run_exact = false;
    // a non-exact run goes no further than continuing events ask for
    void guard(uint64_t t) { REQUIRE(run_exact || t <= firstq || latest >= t, "tick " << t << " was processed although no continuing event is queued (last " << latest << ")"); }
    void reach(uint64_t t) {
        // the ticks skipped over must hold nothing (cancelled ones only)
        while (!quanta.empty() && *quanta.begin() < t) {
            uint64_t q = *quanta.begin(); quanta.erase(quanta.begin()); now = q; if (q != processed) { guard(q); drain_async(q); }
            REQUIRE(pend.empty() || pend.begin()->tick > q, "time reached " << t << " although e" << pend.begin()->id << " was due at " << pend.begin()->tick);
        }
        now = t; if (quanta.count(t) && processed != t) { guard(t); drain_async(t); processed = t; } fired_this_tick.clear();
    }
    void on_fire(unsigned id) {
        ++fired; uint64_t t = sched.getCurrentTick();
        REQUIRE(in_run, "e" << id << " fired outside of run");
        LOG(c, "tick " << t << ": e" << id << " fires");
        REQUIRE(t >= last_tick, "simulated time went back from " << last_tick << " to " << t);
        REQUIRE(t <= limit_tick, "e" << id << " fired at " << t << ", past the end of the run window " << limit_tick);
        if (t != last_tick || !entered) { reach(t); entered = true; }
        last_tick = t;
        REQUIRE(!pend.empty(), "e" << id << " fired at " << t << " but nothing is due");
        Pend p = *pend.begin();
        REQUIRE(p.id == id && p.tick == t, "e" << id << " fired at " << t << " but the next due is e" << p.id << " at " << p.tick);
        pend.erase(pend.begin());
        // independent of group numbers: phases and declared precedence
        for (unsigned o : fired_this_tick) {
            REQUIRE(evs[o]->phase <= evs[id]->phase, "e" << id << " (phase " << evs[id]->phase << ") fired after e" << o << " (phase " << evs[o]->phase << ")");
            REQUIRE(!before[id][o], "e" << id << " precedes e" << o << " but fired after it at tick " << t);
        }
        fired_this_tick.push_back(id);
        if (p.gid != cur_gid) fired_now.clear();
        cur_gid = p.gid; cur_ev = id; fired_now.insert({id, t}); firing = true;
        REQUIRE_EQ(sched.getElapsedTicks(), t, "elapsed ticks while firing");
        REQUIRE_EQ((unsigned)sched.getCurrentSchedulingPhase(), evs[id]->phase, "current phase while e" << id << " fires");
        REQUIRE(sched.getCurrentFiringEvent() == evs[id]->s, "current firing event is not e" << id);
        REQUIRE(sched.isRunning(), "not running while firing");
        for (size_t k = 0; k < clks.size(); ++k) { REQUIRE_EQ(clks[k]->currentCycle(), t / period[k], "clock " << k << " current cycle at tick " << t); REQUIRE_EQ(clks[k]->elapsedCycles(), t / period[k], "clock " << k << " elapsed cycles at tick " << t); }
        unsigned n = (unsigned)c.weighted({3, 5, 4, 2});
        while (n-- && fuel) { --fuel; act(); }
        firing = false;
    }
    bool entered = false; sp::Teardown td{rtn};
    // expected effect of run(n, exacting) after it returned
    void after_run(uint64_t start, uint64_t n, bool exacting, bool any_quantum_before, uint64_t first_q) {
        in_run = false; cur_gid = 0; fired_now.clear();
        uint64_t ct = sched.getCurrentTick(); uint64_t end = start + n;
        REQUIRE(!sched.isRunning(), "running after run");
        if (exacting) {
            REQUIRE_EQ(ct, end, "current tick after an exact run of " << n << " ticks from " << start);
            reach(end - 1);
            REQUIRE(pend.empty() || pend.begin()->tick >= end, "e" << pend.begin()->id << " was due at " << pend.begin()->tick << " and did not fire in the window [" << start << "," << end << ")");
            now = ct; while (!quanta.empty() && *quanta.begin() < ct) quanta.erase(quanta.begin());
            REQUIRE_EQ(sched.getElapsedTicks(), ct - 1, "elapsed ticks after an exact run");
            return;
        }
        if (!any_quantum_before || (n != Scheduler::INDEFINITE && end < first_q)) {   // documented: no advance
            REQUIRE_EQ(ct, start + ((n == Scheduler::INDEFINITE) ? 1 : 0), "tick after a run with nothing due");
            now = ct; return;
        }
        REQUIRE(n == Scheduler::INDEFINITE || ct <= end, "current tick " << ct << " after a run to " << end);
        // everything before the current tick has fired
        if (ct > start) reach(ct - 1);
        REQUIRE(pend.empty() || pend.begin()->tick >= ct, "e" << pend.begin()->id << " due at " << pend.begin()->tick << " was skipped; current tick " << ct);
        now = ct; while (!quanta.empty() && *quanta.begin() < ct) quanta.erase(quanta.begin());
        // it may stop early only when no continuing event is left in the window
        if (n == Scheduler::INDEFINITE || ct < end) for (auto& p : pend) REQUIRE(!(evs[p.id]->continuing && (n == Scheduler::INDEFINITE || p.tick < end)), "the run stopped at " << ct << " although continuing e" << p.id << " is due at " << p.tick << " within its window");
    }
    uint64_t run_start = 0, run_n = 0, fq = 0; bool anyq = false, started = false;
    void begin_run() {        // the window is set up after the start-up handlers ran; the internal end-of-window event makes its tick a processed one
        anyq = !quanta.empty(); fq = anyq ? *quanta.begin() : 0;
        if (run_n != Scheduler::INDEFINITE && anyq && run_start + run_n >= fq) { quanta.insert(run_start + run_n - 1); if (run_exact) latest = std::max(latest, run_start + run_n - 1); }
        firstq = quanta.empty() ? 0 : *quanta.begin();
    }
    void run(uint64_t n, bool exacting) {
        uint64_t start = sched.getCurrentTick();
        REQUIRE_EQ(start, now, "current tick before run");
        LOG(c, "run " << (int64_t)n << (exacting ? " exact" : "") << " from " << start);
        in_run = true; entered = false; limit_tick = n == Scheduler::INDEFINITE ? ~0ull : start + n - 1;
        run_start = start; run_n = n; run_exact = exacting;
        if (started) begin_run();
        sched.run(n, exacting, c.flip());
        REQUIRE(started, "the start-up handlers did not run");
        after_run(start, n, exacting, anyq, fq);
    }
};
void Ev::fire() { w->on_fire(id); }

struct Boot { World* w; unsigned k; std::vector<unsigned>* order; bool last = false; void go() { order->push_back(k); if (last) { w->started = true; w->begin_run(); } else w->act(); } };
}

PROPERTY(event_queue_model, 60000, 1500000) {
    World w(c);
    // clocks
    auto root = w.cm.makeRoot(&w.rtn, "root"); w.clks.push_back(root);
    unsigned nclk = (unsigned)c.draw(2);
    for (unsigned i = 0; i < nclk; ++i) w.clks.push_back(w.cm.makeClock("clk" + std::to_string(i), c.pick(w.clks), (uint32_t)c.range(1, 4), (uint32_t)c.range(1, 4)));
    w.cm.normalize(); w.rtn.setClock(root.get());
    for (auto& k : w.clks) w.period.push_back(k->getPeriod());
    for (size_t i = 0; i < w.clks.size(); ++i) {
        w.nodes.emplace_back(new TreeNode(&w.rtn, "n" + std::to_string(i), "node")); w.nodes.back()->setClock(w.clks[i].get());
        w.sets.emplace_back(new EventSet(w.nodes.back().get()));
    }
    unsigned nev = (unsigned)c.small(1, 10);
    unsigned base_phase = (unsigned)c.draw(NPHASE - 1); bool one_phase = c.chance(1, 3);
    for (unsigned i = 0; i < nev; ++i) {
        auto e = std::make_unique<Ev>(); e->w = &w; e->id = i; e->name = "e" + std::to_string(i);
        e->phase = one_phase ? base_phase : (unsigned)c.draw(NPHASE - 1); e->clk = (unsigned)c.draw(w.clks.size() - 1);
        e->delay = c.small(0, 5); e->continuing = !c.chance(1, 5); e->async = c.chance(1, 10);
        if (e->async) e->phase = 5;
        make(*e, w.sets[e->clk].get()); e->s->setContinuing(e->continuing);
        LOG(c, "e" << i << ": phase " << e->phase << " clk " << e->clk << " period " << w.period[e->clk] << " delay " << e->delay << (e->continuing ? "" : " non-continuing") << (e->async ? " async" : ""));
        w.evs.push_back(std::move(e));
    }
    // acyclic precedence inside a phase: edges follow a drawn ranking
    std::vector<uint64_t> rank(nev); for (auto& r : rank) r = c.draw(1000);
    w.before.assign(nev, std::vector<bool>(nev));
    unsigned ne = (unsigned)c.small(0, 12);
    if (nev > 1) for (unsigned k = 0; k < ne; ++k) {
        unsigned a = (unsigned)c.draw(nev - 1), b = (unsigned)c.draw(nev - 1); if (a == b || w.evs[a]->phase != w.evs[b]->phase) continue;
        if (std::tie(rank[a], a) > std::tie(rank[b], b)) std::swap(a, b);
        if (c.flip()) w.evs[a]->s->precedes(*w.evs[b]->s); else *w.evs[a]->s >> *w.evs[b]->s;
        w.before[a][b] = true; LOG(c, "e" << a << " precedes e" << b);
    }
    for (unsigned k = 0; k < nev; ++k) for (unsigned i = 0; i < nev; ++i) if (w.before[i][k]) for (unsigned j = 0; j < nev; ++j) if (w.before[k][j]) w.before[i][j] = true;
    std::vector<std::unique_ptr<Boot>> boots; std::vector<unsigned> boot_order; unsigned nb = 1 + (unsigned)c.draw(2);
    for (unsigned i = 0; i < nb; ++i) { boots.emplace_back(new Boot{&w, i, &boot_order, i + 1 == nb}); StartupEvent(&w.rtn, SpartaHandler::from_member<Boot, &Boot::go>(boots.back().get(), "boot")); }
    w.fuel = (unsigned)c.urange(10, 80);
    REQUIRE_THROWS(w.sched.run(1, true, false), "running before finalization");
    w.sched.finalize();
    REQUIRE_EQ(w.sched.getCurrentTick(), 0u, "tick after finalize");
    bool early = c.flip();
    for (unsigned a = 0, n = (unsigned)c.draw(2); early && a < n; ++a) w.act();
    unsigned steps = (unsigned)c.urange(2, 12); bool ranany = false;
    for (unsigned s = 0; s < steps; ++s) {
        switch (c.weighted({6, 6, 3, 1, 1})) {
        case 0: for (unsigned k = 1 + (unsigned)c.draw(6); k--;) w.act(); break;
        case 1: {
            uint64_t n = c.flip() ? c.urange(1, 8) : c.small(1, 80);
            w.run(n, true); ranany = true; break; }
        case 2: w.run(c.small(1, 80), false); ranany = true; break;
        case 3: w.run(Scheduler::INDEFINITE, false); ranany = true; break;
        default:
            LOG(c, "clearEvents"); w.sched.clearEvents(); w.pend.clear(); w.quanta.clear(); w.latest = 0; c.label("clearEvents"); break;
        }
        if (ranany) { REQUIRE_EQ(boot_order.size(), nb, "start-up handlers run so far"); for (unsigned i = 0; i < nb; ++i) REQUIRE_EQ(boot_order[i], i, "start-up handlers run in order"); }
        for (unsigned i = 0; i < nev; ++i) REQUIRE_EQ(w.evs[i]->s->isScheduled(), w.pending_anywhere(i), "e" << i << " between runs");
    }
    // flush: everything pending fires in one exact window
    w.fuel = 0;
    if (!ranany) w.run(1, true);
    for (unsigned k = 0; k < 6 && !(w.pend.empty() && w.async.empty()); ++k) {
        if (w.pend.empty()) {                       // asynchronous requests are taken over when a tick is processed
            unsigned i = 0; while (i < nev && w.evs[i]->async) ++i;
            if (i == nev) break;
            w.evs[i]->s->scheduleRelativeTick(1, &w.sched); w.pend.insert({w.now + 1, w.gid(i), w.seq++, i}); w.quanta.insert(w.now + 1);
        }
        w.run(w.pend.rbegin()->tick - w.now + 1, true);
    }
    REQUIRE(w.pend.empty(), "events left after the closing window");
    c.label("fired", w.fired); c.label("cancelled", w.cancelled); c.label("refused", w.refused); c.label("same_tick_schedules", w.same_tick);
    c.nontrivial(w.fired >= 4 && (w.cancelled || w.refused || w.same_tick || nclk));
}
