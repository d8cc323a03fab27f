// C10: Pipe against a shift register, SharedData against a two-state latch.
#include "sp.hpp"
#include <optional>
#include "sparta/resources/Pipe.hpp"
#include "sparta/resources/SharedData.hpp"
using namespace sparta;

namespace {
struct V { uint64_t id = 0; std::string s; V() = default; explicit V(uint64_t i) : id(i), s("v" + std::to_string(i)) {} bool operator==(const V& o) const { return id == o.id; } bool ok() const { return s == "v" + std::to_string(id); } };
std::ostream& operator<<(std::ostream& o, const V& v) { return o << v.id; }
typedef Pipe<V> P;

struct PipeCase {
    pbt::Case& c; P* p = nullptr; std::vector<std::optional<uint64_t>> st; std::optional<uint64_t> app; uint64_t id = 0, appends = 0, moved = 0, flushes = 0, left = 0; bool own = false; unsigned k = 0;
    void shift() { if (st.back()) ++left; for (size_t i = st.size() - 1; i > 0; --i) { st[i] = st[i - 1]; moved += !!st[i]; } st[0] = app; moved += !!app; app.reset(); }
    size_t n() const { size_t r = 0; for (auto& x : st) r += !!x; return r; }
    void check() { const P& cp = *p; ++k;
        REQUIRE_EQ(cp.numValid(), n(), "numValid"); REQUIRE_EQ(cp.size(), n(), "size"); REQUIRE_EQ(cp.empty(), n() == 0, "empty"); REQUIRE_EQ(cp.capacity(), st.size(), "capacity"); REQUIRE_EQ(cp.isAppended(), !!app, "isAppended"); REQUIRE_EQ(cp.isAnyValid(), n() > 0 || app, "isAnyValid"); REQUIRE_EQ(cp.isLastValid(), !!st.back(), "isLastValid");
        if (app) { REQUIRE_EQ(cp.readAppendedData().id, *app, "appended data"); REQUIRE(cp.readAppendedData().ok(), "damaged data"); } else if (k % 8 == 0) REQUIRE_THROWS(cp.readAppendedData(), "read appended data that is not there");
        bool bad = false; for (uint32_t i = 0; i < st.size(); ++i) { REQUIRE_EQ(cp.isValid(i), !!st[i], "isValid(" << i << ")"); if (st[i]) { REQUIRE_EQ(cp.read(i).id, *st[i], "content of stage " << i); REQUIRE(p->access(i).ok(), "damaged data"); } else if (!bad && k % 8 == 1) { bad = true; REQUIRE_THROWS(cp.read(i), "read the empty stage " << i); REQUIRE_THROWS(p->access(i), "accessed the empty stage"); } }
        if (st.back()) REQUIRE_EQ(cp.readLast().id, *st.back(), "readLast");
        uint32_t i = 0; for (auto it = cp.begin(); it != cp.end(); ++it, ++i) { REQUIRE(i < st.size(), "iteration does not end"); REQUIRE_EQ(it.isValid(), !!st[i], "iterator validity at " << i); if (st[i]) REQUIRE_EQ((*it).id, *st[i], "iterated stage " << i); } REQUIRE_EQ(i, st.size(), "iteration stops early"); i = 0; for (auto it = p->begin(); it != p->end(); it++, ++i) if (st[i]) REQUIRE_EQ((*it).id, *st[i], "iterated stage " << i);
    }
    void op() {
        uint32_t i = (uint32_t)c.draw(st.size() - 1); unsigned o = c.weighted({8, 3, 2, 2, 1, 1, 2, 1, 1, 1});
        switch (o) {
        case 0: { uint64_t v = ++id; bool bad = !!app; LOG(c, "append " << v << (bad ? " (refused)" : "")); V x(v); unsigned how = (unsigned)c.draw(3); bool th = sp::throws([&] { if (how == 0) p->append((const V&)x); else if (how == 1) p->append(std::move(x)); else if (how == 2) p->push_front((const V&)x); else p->push_front(std::move(x)); }); REQUIRE_EQ(th, bad, "append"); if (!th) { app = v; ++appends; } break; }
        case 1: { uint64_t v = ++id; LOG(c, "write " << v << " to stage " << i); V x(v); if (c.flip()) p->writePS(i, (const V&)x); else p->writePS(i, std::move(x)); st[i] = v; break; }
        case 2: { bool last = c.chance(1, 4); if (last) i = (uint32_t)st.size() - 1; bool bad = !st[i]; LOG(c, "invalidate stage " << i << (bad ? " (refused)" : "")); bool th = sp::throws([&] { if (last) p->invalidateLastPS(); else p->invalidatePS(i); }); REQUIRE_EQ(th, bad, "invalidatePS"); if (!th) st[i].reset(); break; }
        case 3: LOG(c, "flush stage " << i); p->flushPS(i); flushes += !!st[i]; st[i].reset(); break;
        case 4: LOG(c, "flush the appended data"); p->flushAppend(); app.reset(); break;
        case 5: LOG(c, "flush all"); if (c.flip()) { p->flushAll(); } else { p->clear(); } for (auto& x : st) x.reset(); app.reset(); ++flushes; break;
        case 6: { uint64_t m = c.urange(1, 4), r = c.draw(m); bool eq = c.chance(1, 3); uint64_t v = c.draw(id); LOG(c, "flush if " << (eq ? "equal to " + std::to_string(v) : std::to_string(r) + " mod " + std::to_string(m))); if (eq) p->flushIf(V(v)); else p->flushIf([=](const V& x) { return x.id % m == r; }); auto hit = [&](uint64_t x) { return eq ? x == v : x % m == r; }; for (auto& x : st) if (x && hit(*x)) { x.reset(); ++flushes; } if (app && hit(*app)) app.reset(); break; }
        case 7: { if (!st[i]) break; uint64_t v = ++id; LOG(c, "overwrite stage " << i << " with " << v); p->access(i) = V(v); st[i] = v; break; }
        case 8: { bool want = app && !st[0]; LOG(c, "shift the appended data"); REQUIRE_EQ(p->shiftAppend(), want, "shiftAppend"); if (want) { st[0] = app; app.reset(); } break; }
        default: if (!own) { LOG(c, "update"); p->update(); shift(); } else if (k % 8 == 2) REQUIRE_THROWS(p->update(), "manual update of a self-updating pipe"); break;
        }
    }
};
}

PROPERTY(pipe, 20000, 3000000) {
    Scheduler sched("s"); ClockManager cm(&sched); RootTreeNode rtn("top"); auto root = cm.makeRoot(&rtn, "root"); auto k1 = cm.makeClock("k1", root, (uint32_t)c.urange(1, 3), (uint32_t)c.urange(1, 3)); cm.normalize(); rtn.setClock(root.get());
    TreeNode node(&rtn, "node", "node"); PipeCase pc{c}; uint32_t n = (uint32_t)c.small(1, 12); bool dom = c.chance(1, 3); Clock* clk = dom ? k1.get() : root.get(); node.setClock(clk); EventSet es(&node);
    bool resized = c.chance(1, 8); P p("pipe", resized ? n % 3 + 1 : n, clk); if (resized) p.resize(n); pc.p = &p; pc.st.resize(n); bool own = c.chance(2, 3), early = c.flip(); unsigned late = own && !early ? (unsigned)c.urange(1, 4) : 0;
    LOG(c, "pipe of " << n << (own ? early ? " updating itself" : " updating itself from cycle " + std::to_string(late) : "")); if (own && early) { p.performOwnUpdates(); pc.own = true; }
    struct Drv { PipeCase* pc; Clock* clk; unsigned cyc = 0, late = 0; bool first = true; uint64_t prev = 0;
        void begin() { uint64_t now = clk->currentCycle(); if (pc->own && !first) for (uint64_t i = prev; i < now; ++i) pc->shift(); prev = now; first = false; pc->check(); }      // data must have moved exactly one stage per cycle, and before anything after Update sees it
        void act() { begin(); unsigned k = (unsigned)pc->c.draw(3); while (k--) { pc->op(); pc->check(); } if (late && ++cyc == late) { LOG(pc->c, "perform own updates from here"); pc->p->performOwnUpdates(); pc->own = true; } next(); }
        UniqueEvent<SchedulingPhase::PortUpdate>* e0 = nullptr; UniqueEvent<SchedulingPhase::Tick>* e1 = nullptr; unsigned left = 0;
        void next() { if (!--left) return; Clock::Cycle n = pc->c.chance(1, 6) ? pc->c.urange(1, 4) : 1; LOG(pc->c, "cycle +" << n); if (pc->c.chance(3, 4)) e0->schedule(n); e1->schedule(n); } } drv{&pc, clk};
    drv.late = late; drv.prev = 0;
    UniqueEvent<SchedulingPhase::PortUpdate> e0(&es, "look", CREATE_SPARTA_HANDLER_WITH_OBJ(Drv, &drv, begin)); UniqueEvent<SchedulingPhase::Tick> e1(&es, "act", CREATE_SPARTA_HANDLER_WITH_OBJ(Drv, &drv, act));
    sp::Teardown td{rtn}; rtn.enterConfiguring(); rtn.enterFinalized(); sched.finalize();
    if (own && early && c.flip()) pc.own = true;
    drv.left = (unsigned)c.urange(4, 40); drv.e0 = &e0; drv.e1 = &e1; e1.schedule(Clock::Cycle(0)); sched.run(Scheduler::INDEFINITE, false, false);
    c.label("appended", pc.appends); c.label("stage_moves", pc.moved); c.label("flushed", pc.flushes); c.label("left_the_end", pc.left); c.label("own_updates", own); c.nontrivial(pc.appends >= 3 && pc.moved >= 6);
}

namespace {
template <bool MANUAL> struct SD {
    typedef SharedData<V, MANUAL> S; pbt::Case& c; S* s; Clock* clk; std::optional<uint64_t> ps{0}, ns; bool pending = false; uint64_t pend_at = 0, id = 0, writes = 0, multi = 0, seen = 0;
    void flip() { ps = ns; ns.reset(); pending = false; seen += !!ps; }
    void check() { REQUIRE_EQ(s->isValid(), !!ps, "present validity"); REQUIRE_EQ(s->isValidNS(), !!ns, "next validity"); if (ps) { REQUIRE_EQ(((const S*)s)->read().id, *ps, "present value"); REQUIRE(s->access().ok() || *ps == 0, "damaged value"); } if (ns) { REQUIRE_EQ(s->readNS().id, *ns, "next value"); REQUIRE(s->readNS().ok(), "damaged next value"); } }
    void begin() { if (pending && clk->currentCycle() >= pend_at) flip(); check(); }
    void act() { begin(); unsigned k = (unsigned)c.draw(3); while (k--) {
        switch (c.weighted({6, 3, 2, 2, 1, 1, MANUAL ? 4u : 0u, 1})) {
        case 0: { uint64_t v = ++id; LOG(c, "write " << v); V x(v); if (c.flip()) s->write((const V&)x); else s->write(std::move(x)); if (pending) ++multi; ns = v; ++writes; if (!MANUAL && !pending) { pending = true; pend_at = clk->currentCycle() + 1; } break; }
        case 1: { uint64_t v = ++id; LOG(c, "write present " << v); V x(v); if (c.flip()) s->writePS((const V&)x); else s->writePS(std::move(x)); ps = v; break; }
        case 2: LOG(c, "clear present"); s->clearPS(); ps.reset(); break;
        case 3: if (MANUAL) { LOG(c, "clear next"); s->clearNS(); ns.reset(); } break;
        case 4: if (MANUAL || !pending) { LOG(c, "clear"); s->clear(); ps.reset(); ns.reset(); } break;
        case 5: { uint64_t v = ++id; if (ns) { LOG(c, "overwrite next with " << v); s->accessNS() = V(v); ns = v; } else if (ps) { LOG(c, "overwrite present with " << v); s->access() = V(v); ps = v; } else { REQUIRE_THROWS(s->read(), "read invalid"); REQUIRE_THROWS(s->readNS(), "read invalid next"); } break; }
        case 6: if constexpr (MANUAL) { LOG(c, "update"); s->update(); flip(); } break;
        default: { if (pending || keep->size() > 6) break; unsigned h = (unsigned)c.draw(3); LOG(c, "continue with a copy, how " << h); std::unique_ptr<S> n; if (h == 0) n.reset(new S(*s)); else if (h == 1) n.reset(new S(std::move(*s))); else { n.reset(new S("sdn", clk, V(99))); if (c.flip()) n->write(V(98)); if (h == 2) *n = *s; else *n = std::move(*s); } s = n.get(); keep->push_back(std::move(n)); break; }
        } check(); }
        if (!--left) return; Clock::Cycle n = c.chance(1, 5) ? c.urange(1, 4) : 1; LOG(c, "cycle +" << n); if (c.flip()) e0->schedule(n); e1->schedule(n); }
    UniqueEvent<SchedulingPhase::PortUpdate>* e0 = nullptr; UniqueEvent<SchedulingPhase::Tick>* e1 = nullptr; unsigned left = 0; std::vector<std::unique_ptr<S>>* keep = nullptr;
};
template <bool MANUAL> void shared_case(pbt::Case& c) {
    Scheduler sched("s"); ClockManager cm(&sched); RootTreeNode rtn("top"); auto root = cm.makeRoot(&rtn, "root"); auto k1 = cm.makeClock("k1", root, (uint32_t)c.urange(1, 3), (uint32_t)c.urange(1, 3)); cm.normalize(); rtn.setClock(root.get());
    TreeNode node(&rtn, "node", "node"); Clock* clk = c.chance(1, 3) ? k1.get() : root.get(); node.setClock(clk); EventSet es(&node); typedef SharedData<V, MANUAL> S;
    sp::Teardown td{rtn}; std::vector<std::unique_ptr<S>> keep; keep.emplace_back(new S("sd", clk, V(0))); unsigned mv = c.chance(1, 3) ? (unsigned)c.urange(1, 3) : 0; if (mv) { LOG(c, "constructed, then " << (mv == 1 ? "copied" : mv == 2 ? "moved" : "assigned")); if (mv == 1) keep.emplace_back(new S(*keep[0])); else if (mv == 2) keep.emplace_back(new S(std::move(*keep[0]))); else { keep.emplace_back(new S("sd2", clk, V(7))); *keep[1] = *keep[0]; } }
    SD<MANUAL> d{c, keep.back().get(), clk}; UniqueEvent<SchedulingPhase::PortUpdate> e0(&es, "look", CREATE_SPARTA_HANDLER_WITH_OBJ(SD<MANUAL>, &d, begin)); UniqueEvent<SchedulingPhase::Tick> e1(&es, "act", CREATE_SPARTA_HANDLER_WITH_OBJ(SD<MANUAL>, &d, act));
    rtn.enterConfiguring(); rtn.enterFinalized(); sched.finalize(); LOG(c, (MANUAL ? "manual" : "automatic") << " shared data");
    d.keep = &keep; d.left = (unsigned)c.urange(3, 30); d.e0 = &e0; d.e1 = &e1; e1.schedule(Clock::Cycle(0)); sched.run(Scheduler::INDEFINITE, false, false);
    c.label("writes", d.writes); c.label("several_writes_in_a_cycle", d.multi); c.label("updates_seen", d.seen); c.nontrivial(d.writes >= 3 && d.seen >= 2);
}
}
PROPERTY(shared_data, 10000, 1500000) { shared_case<false>(c); }
PROPERTY(shared_data_manual, 5000, 800000) { shared_case<true>(c); }
