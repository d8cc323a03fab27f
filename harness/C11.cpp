// C11: Pipeline against a stalling shift register that knows which handlers are due.
#include "sp.hpp"
#include <optional>
#include "sparta/resources/Pipeline.hpp"
#include "sparta/events/UniqueEvent.hpp"
using namespace sparta;

namespace {
struct V { uint64_t id = 0; std::string s; V() = default; explicit V(uint64_t i) : id(i), s("v" + std::to_string(i)) {} bool ok() const { return s == "v" + std::to_string(id); } };
std::ostream& operator<<(std::ostream& o, const V& v) { return o << v.id; }

template <class EV> struct World {
    typedef Pipeline<V, EV> PL; static constexpr bool PAYLOAD = std::is_same<EV, PhasedPayloadEvent<V>>::value;
    struct Hnd { World* w; uint32_t st, ix; void fire() { w->fired(st, ix, nullptr); } void firep(const V& v) { w->fired(st, ix, &v); } };
    pbt::Case& c; PL* p = nullptr; Clock* clk = nullptr; uint32_t n; std::vector<std::optional<uint64_t>> st; std::optional<uint64_t> app; std::vector<uint32_t> nh; std::vector<bool> active; std::vector<bool> frozen; std::vector<bool> suppressed;
    uint32_t stall_left = 0; int stall_at = -1; bool own = false, upd = false; unsigned order = 0; std::set<std::pair<uint32_t, uint32_t>> before; int xprod = -1, xcons = -1; uint64_t xcyc = ~0ull;
    struct Due { uint32_t st, ix; uint64_t val; }; std::vector<Due> due; uint64_t id = 0, fires = 0, stalls = 0, flushes = 0, crushes = 0, k = 0, idle = 0; bool in_handler_ops = false;
    explicit World(pbt::Case& cc) : c(cc) {}
    bool stalled() const { return stall_at >= 0; }
    size_t cnt() const { size_t r = 0; for (auto& x : st) r += !!x; return r; }
    void unstall() { stall_at = -1; stall_left = 0; frozen.assign(n, false); suppressed.assign(n, false); }
    void model_update() {
        REQUIRE(due.empty(), "the handler of stage " << due[0].st << " has not been called although its stage held valid data");
        if (!stalled()) { for (uint32_t i = n - 1; i > 0; --i) st[i] = st[i - 1]; st[0] = app; app.reset(); }
        else { uint32_t s = (uint32_t)stall_at; for (uint32_t i = n - 1; i > s; --i) st[i] = i == s + 1 ? std::nullopt : st[i - 1];
            for (uint32_t i = s; i > 0; --i) if (!st[i] && st[i - 1] && !frozen[i - 1]) { st[i] = st[i - 1]; st[i - 1].reset(); ++crushes; }
            if (app && !st[0]) { st[0] = app; app.reset(); } }
        for (uint32_t i = 0; i < n; ++i) if (st[i] && active[i] && !suppressed[i]) for (uint32_t h = 0; h < nh[i]; ++h) due.push_back({i, h, *st[i]});
        if (order == 2) std::stable_sort(due.begin(), due.end(), [](const Due& a, const Due& b) { return a.st > b.st; });
        if (stalled() && --stall_left == 0) unstall();
        upd = cnt() > 0 || app;
    }
    void check() { const PL& cp = *p; ++k; REQUIRE_EQ(cp.numValid(), cnt(), "numValid"); REQUIRE_EQ(cp.size(), cnt(), "size"); REQUIRE_EQ(cp.empty(), cnt() == 0, "empty"); REQUIRE_EQ(cp.capacity(), n, "capacity"); REQUIRE_EQ(cp.isAppended(), !!app, "isAppended"); REQUIRE_EQ(cp.isAnyValid(), cnt() > 0 || app, "isAnyValid"); REQUIRE_EQ(cp.isLastValid(), !!st.back(), "isLastValid"); if (app) REQUIRE_EQ(cp.readAppendedData().id, *app, "appended data");
        for (uint32_t i = 0; i < n; ++i) { REQUIRE_EQ(cp.isValid(i), !!st[i], "isValid(" << i << ")"); if (st[i]) { REQUIRE_EQ(cp[i].id, *st[i], "content of stage " << i); REQUIRE(p->at(i).ok(), "damaged data"); } else if (k % 16 == 0) REQUIRE_THROWS(cp.at(i), "read the empty stage " << i); REQUIRE_EQ(cp.isStalledOrStallingAtStage(i), stalled() && (int)i <= stall_at, "stalled at " << i); }
        REQUIRE_EQ(cp.isStalledOrStalling(), stalled(), "isStalledOrStalling");
        uint32_t i = 0; for (auto it = cp.begin(); it != cp.end(); ++it, ++i) { REQUIRE(i < n, "iteration does not end"); REQUIRE_EQ(it.isValid(), !!st[i], "iterator validity"); if (st[i]) REQUIRE_EQ(it->id, *st[i], "iterated stage " << i); } REQUIRE_EQ(i, n, "iteration stops early"); }
    void flush(uint32_t i) { LOG(c, "flush stage " << i); if (c.flip()) p->flushStage(i); else { auto it = p->begin(); for (uint32_t j = 0; j < i; ++j) ++it; p->flushStage(it); } flushed(i); }
    void flushed(uint32_t i) { ++flushes; if (st[i]) due.erase(std::remove_if(due.begin(), due.end(), [&](const Due& d) { return d.st == i; }), due.end()); if (stall_at == (int)i) unstall(); st[i].reset(); }
    void stall(uint32_t s) { uint32_t cy = (uint32_t)c.draw(4); bool crush = c.flip(), sup = c.chance(3, 4); bool bad = !st[s] || stalled(); if (bad && !c.chance(1, 10)) return; LOG(c, "stall at stage " << s << " for " << cy << (crush ? " crushing bubbles" : "") << (sup ? " suppressing events" : "") << (bad ? " (refused)" : "")); bool th = sp::throws([&] { p->stall(s, cy, crush, sup); }); REQUIRE_EQ(th, bad, "stall"); if (bad || !cy) return; ++stalls; stall_left = cy; stall_at = (int)s; for (int i = (int)s; i >= 0; --i) { if (crush && !st[i]) break; frozen[i] = true; suppressed[i] = sup; } }
    void op(bool late) { uint32_t i = (uint32_t)c.draw(n - 1);
        switch (c.weighted({8, 2, late ? 2u : 0u, 3, 3, 1, 1, 1, late ? 1u : 0u})) {
        case 0: { uint64_t v = ++id; bool bad = !!app; LOG(c, "append " << v << (bad ? " (refused)" : "")); V x(v); bool th = sp::throws([&] { if (c.flip()) p->append((const V&)x); else p->append(std::move(x)); }); REQUIRE_EQ(th, bad, "append"); if (!th) { app = v; upd = true; } break; }
        case 1: { if (!late) break; uint64_t v = ++id; LOG(c, "write " << v << " to stage " << i); V x(v); if (c.flip()) p->writeStage(i, (const V&)x); else p->writeStage(i, std::move(x)); st[i] = v; upd = true; break; }
        case 2: if (!st[i] || stall_at == (int)i) break; LOG(c, "invalidate stage " << i); p->invalidateStage(i); st[i].reset(); upd = true; break;
        case 3: flush(i); break;
        case 4: stall(i); break;
        case 5: { bool bad = !stalled(); if (bad && !c.chance(1, 8)) break; LOG(c, "clear stall" << (bad ? " (refused)" : "")); REQUIRE_EQ(sp::throws([&] { p->clearStall(); }), bad, "clearStall"); if (!bad) unstall(); break; }
        case 6: LOG(c, "flush the appended data"); p->flushAppend(); app.reset(); break;
        case 7: if (c.chance(1, 3)) { LOG(c, "flush all stages"); p->flushAllStages(); for (uint32_t j = 0; j < n; ++j) flushed(j); } break;
        default: if (nh[i]) { bool a = !active[i]; LOG(c, (a ? "activate" : "deactivate") << " the handlers of stage " << i); if (a) p->activateEventAtStage(i); else p->deactivateEventAtStage(i); active[i] = a; } break;
        } check(); }
    void fired(uint32_t s, uint32_t ix, const V* v) {
        LOG(c, "handler " << ix << " of stage " << s << " called" << (v ? " with " + std::to_string(v->id) : "")); ++fires;
        auto it = std::find_if(due.begin(), due.end(), [&](const Due& d) { return d.st == s && d.ix == ix; }); REQUIRE(it != due.end(), "handler " << ix << " of stage " << s << " called although it is not due");
        if (order) REQUIRE(it == due.begin(), "handler of stage " << s << " called before the one of stage " << due[0].st); for (auto& d : due) { REQUIRE(!(d.st == s && d.ix < ix), "handlers of one stage called out of order"); REQUIRE(!before.count({d.st, s}), "handler of stage " << s << " called before stage " << d.st << " which precedes it"); }
        if (v) { REQUIRE(v->ok(), "damaged payload"); REQUIRE_EQ(v->id, it->val, "payload of stage " << s); } if ((int)s == xprod) REQUIRE_EQ(xcyc, clk->currentCycle(), "stage handler called before its producer event"); if ((int)s == xcons) REQUIRE(xcyc != clk->currentCycle(), "stage handler called after its consumer event");
        due.erase(it); check();
        if (in_handler_ops && order && c.chance(1, 5)) { switch (c.draw(2)) { case 0: stall(s); break; case 1: flush(c.flip() ? s : (uint32_t)c.draw(n - 1)); break; default: { uint64_t x = ++id; if (app) break; LOG(c, "append " << x << " from a handler"); p->append(V(x)); app = x; upd = true; break; } } check(); }
    }
    void u() { if (!own && c.chance(7, 8)) { LOG(c, "update"); model_update(); p->update(); check(); } }
    void e() { if (own && upd) model_update(); else if (own) { REQUIRE(due.empty(), "handler of stage " << due[0].st << " not called"); ++idle; } check(); if (c.chance(1, 5)) op(false); }
    void x() { xcyc = clk->currentCycle(); }
    void d() { if (due.size()) REQUIRE(false, "the handler of stage " << due[0].st << " has not been called although its stage held valid data"); check(); unsigned m = (unsigned)c.draw(3); while (m--) op(true); if (--left) { LOG(c, "next cycle"); eu->schedule(1); ee->schedule(1); if (ex) ex->schedule(1); ed->schedule(1); } }
    unsigned left = 0; UniqueEvent<SchedulingPhase::Update>* eu = nullptr; UniqueEvent<SchedulingPhase::PortUpdate>* ee = nullptr; UniqueEvent<SchedulingPhase::Tick>* ex = nullptr; UniqueEvent<SchedulingPhase::PostTick>* ed = nullptr;
};

template <class EV> void pipeline_case(pbt::Case& c) {
    typedef World<EV> W; typedef typename W::Hnd H; Scheduler sched("s"); ClockManager cm(&sched); RootTreeNode rtn("top"); auto root = cm.makeRoot(&rtn, "root"); auto k1 = cm.makeClock("k1", root, (uint32_t)c.urange(1, 3), (uint32_t)c.urange(1, 3)); cm.normalize(); rtn.setClock(root.get());
    TreeNode node(&rtn, "node", "node"); Clock* clk = c.chance(1, 3) ? k1.get() : root.get(); node.setClock(clk); EventSet es(&node);
    W w(c); w.n = (uint32_t)c.small(1, 8); w.clk = clk; w.st.resize(w.n); w.nh.resize(w.n); w.active.assign(w.n, false); w.unstall(); w.own = c.chance(2, 3); w.order = (unsigned)c.draw(2);
    std::list<H> hs; std::unique_ptr<typename W::PL> pl(c.flip() ? new typename W::PL("pl", w.n, clk) : new typename W::PL(&es, "pl", w.n, clk)); w.p = pl.get();
    for (uint32_t i = 0; i < w.n; ++i) { w.nh[i] = (uint32_t)c.weighted({2, 4, 2}); w.active[i] = w.nh[i]; for (uint32_t h = 0; h < w.nh[i]; ++h) { hs.push_back({&w, i, h}); auto* hp = &hs.back(); if constexpr (W::PAYLOAD) pl->registerHandlerAtStage(i, CREATE_SPARTA_HANDLER_WITH_DATA_WITH_OBJ(H, hp, firep, V)); else pl->registerHandlerAtStage(i, CREATE_SPARTA_HANDLER_WITH_OBJ(H, hp, fire)); } REQUIRE_EQ(pl->isEventRegisteredAtStage(i), w.nh[i] > 0, "isEventRegisteredAtStage"); }
    LOG(c, "pipeline of " << w.n << (W::PAYLOAD ? " with payload handlers" : "") << (w.own ? " updating itself" : "") << (w.order == 1 ? " forward" : w.order == 2 ? " backward" : "")); { std::string s; for (auto x : w.nh) s += " " + std::to_string(x); LOG(c, "handlers per stage:" << s); }
    if (w.order == 0) for (unsigned j = (unsigned)c.draw(3); j--;) { uint32_t a = (uint32_t)c.draw(w.n - 1), b = (uint32_t)c.draw(w.n - 1); if (a >= b || !w.nh[a] || !w.nh[b]) continue; LOG(c, "stage " << a << " precedes stage " << b); pl->setPrecedenceBetweenStage(a, b); w.before.insert({a, b}); }
    UniqueEvent<SchedulingPhase::Update> eu(&es, "u", CREATE_SPARTA_HANDLER_WITH_OBJ(W, &w, u)); UniqueEvent<SchedulingPhase::PortUpdate> ee(&es, "e", CREATE_SPARTA_HANDLER_WITH_OBJ(W, &w, e)); UniqueEvent<SchedulingPhase::Tick> ex(&es, "x", CREATE_SPARTA_HANDLER_WITH_OBJ(W, &w, x)); UniqueEvent<SchedulingPhase::PostTick> ed(&es, "d", CREATE_SPARTA_HANDLER_WITH_OBJ(W, &w, d)); w.eu = &eu; w.ee = &ee; w.ed = &ed; if (!c.chance(1, 3)) w.ex = &ex;
    if (w.ex) { uint32_t s = (uint32_t)c.draw(w.n - 1); if (w.nh[s]) { if (c.flip()) { LOG(c, "event x produces for stage " << s); pl->setProducerForStage(s, ex); w.xprod = (int)s; } else { LOG(c, "event x consumes stage " << s); pl->setConsumerForStage(s, ex); w.xcons = (int)s; } } }
    if (w.order) pl->setDefaultStagePrecedence(w.order == 1 ? W::PL::Precedence::FORWARD : W::PL::Precedence::BACKWARD);
    sp::Teardown td{rtn}; if (w.own) pl->performOwnUpdates(); w.in_handler_ops = c.flip(); rtn.enterConfiguring(); rtn.enterFinalized(); sched.finalize();
    w.left = (unsigned)c.urange(5, 40); eu.schedule(Clock::Cycle(0)); ee.schedule(Clock::Cycle(0)); if (w.ex) ex.schedule(Clock::Cycle(0)); ed.schedule(Clock::Cycle(0)); sched.run(Scheduler::INDEFINITE, false, false);
    c.label("handler_calls", w.fires); c.label("stalls", w.stalls); c.label("flushes", w.flushes); c.label("bubbles_crushed", w.crushes); c.label("idle_cycles", w.idle); c.nontrivial(w.fires >= 4 && w.stalls + w.flushes >= 1);
}
}
PROPERTY(pipeline_unique, 10000, 1500000) { pipeline_case<PhasedUniqueEvent>(c); }
PROPERTY(pipeline_payload, 8000, 1500000) { pipeline_case<PhasedPayloadEvent<V>>(c); }
