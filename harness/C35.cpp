// C35: triggers against a plain model of when each condition is first met.
#include "pbt.hpp"
#include "sp.hpp"
#include "sparta/trigger/Trigger.hpp"
#include "sparta/trigger/SingleTrigger.hpp"
#include "sparta/trigger/ExpressionTrigger.hpp"
#include "sparta/trigger/Triggerable.hpp"
#include "sparta/report/SubContainer.hpp"
#include "sparta/statistics/StatisticSet.hpp"
#include "sparta/statistics/Counter.hpp"
#include "sparta/statistics/StatisticDef.hpp"
#include "sparta/log/NotificationSource.hpp"
#include <map>
using namespace pbt;
using namespace sparta;
static uint64_t below(Case& c, uint64_t n) { return n > 1 ? c.draw(n - 1) : 0; }

struct Rig {
    Scheduler sched{"s"}; ClockManager cm{&sched}; RootTreeNode root{"top", "top"}; Clock::Handle clk; std::unique_ptr<TreeNode> node; std::unique_ptr<StatisticSet> set; std::unique_ptr<EventSet> es; std::unique_ptr<Event<>> ev;
    std::function<void(uint64_t)> step; uint64_t cycles = 0, left = 0;
    explicit Rig(unsigned period = 1) {
        auto r = cm.makeRoot(); clk = period == 1 ? r : cm.makeClock("c", r, 1, period); cm.normalize(); root.setClock(clk.get());
        node = std::make_unique<TreeNode>(&root, "blk", "block"); set = std::make_unique<StatisticSet>(node.get()); es = std::make_unique<EventSet>(node.get());
        ev = std::make_unique<Event<>>(es.get(), "drive", CREATE_SPARTA_HANDLER(Rig, go));
    }
    void finalize() { root.enterConfiguring(); root.enterFinalized(); sched.finalize(); }
    void go() { step(clk->currentCycle()); if (--left) ev->schedule(1); }
    void run(uint64_t n) { left = n; ev->schedule(1); sched.run(Scheduler::INDEFINITE, false, false); }
};
// runs one history; the objects of a case are gone before the rig is
struct Down { Rig& r; std::function<void()> f; ~Down() { try { f(); } catch (...) {} try { r.root.enterTeardown(); } catch (...) {} r.ev.reset(); r.es.reset(); r.set.reset(); r.node.reset(); } };

struct CT {                                                     // a counter trigger and what its callback does
    std::unique_ptr<trigger::CounterTrigger> t; int ctr; uint64_t point; bool active; int act, other; unsigned fired = 0; std::function<void()> cb; bool gone = false;
    void hit() { cb(); }
};

PROPERTY_BATCH(counters, 3000, 60000, 100) {
    Rig rig; std::vector<std::unique_ptr<Counter>> ctr; for (int i = 0; i < 3; ++i) ctr.emplace_back(new Counter(rig.set.get(), "k" + std::string(1, char('a' + i)), "c", Counter::COUNT_NORMAL));
    std::vector<std::unique_ptr<CT>> ts; std::vector<int> order, gotFire, wantFire; std::vector<uint64_t> val(3, 0); unsigned fires = 0, inner = 0; bool inTick = false; std::vector<int> removed, added;
    Down down{rig, [&] { ts.clear(); }}; std::vector<char> alive;
    // the model: registration order, changes made during a check take effect after it
    auto mRemove = [&](int k) { if (inTick) { removed.push_back(k); added.erase(std::remove(added.begin(), added.end(), k), added.end()); } else order.erase(std::remove(order.begin(), order.end(), k), order.end()); };
    auto mAdd = [&](int k) { if (inTick) added.push_back(k); else order.push_back(k); };
    struct Op { int what, k; uint64_t arg; };
    std::vector<CT*> raw; std::vector<uint64_t> mp; std::vector<char> mact;
    std::function<void(const Op&, bool)> apply;
    auto create = [&](int ct, uint64_t pt, int act, int other, uint64_t arg, bool real) {
        const int k = (int)(real ? ts.size() : alive.size());
        if (real) { auto t = std::make_unique<CT>(); t->ctr = ct; t->act = act; t->other = other; CT* p = t.get(); p->cb = [&, p, k, act, other, arg] { gotFire.push_back(k); ++p->fired; apply(Op{act, other < 0 ? k : other, arg}, true); }; t->t.reset(new trigger::CounterTrigger("t", CREATE_SPARTA_HANDLER_WITH_OBJ(CT, p, hit), ctr[(size_t)ct].get(), pt)); ts.push_back(std::move(t)); }
        else { alive.push_back(1); mact.push_back(1); mp.push_back(pt); mAdd(k); }
    };
    struct Def { int ctr, act, other; uint64_t arg; }; std::vector<Def> defs;
    // operations: 0 nothing, 1 set again, 2 deactivate, 3 destroy, 4 move the trigger point, 5 set again and deactivate
    apply = [&](const Op& o, bool real) {
        if (o.what == 0 || o.k >= (int)defs.size()) return; const size_t k = (size_t)o.k;
        if (real) { if (k >= ts.size() || !ts[k]->t) return; auto* t = ts[k]->t.get();
            if (o.what == 1) { if (!t->isActive()) t->set(); } else if (o.what == 2) t->deactivate(); else if (o.what == 3) { ts[k]->t.reset(); } else if (o.what == 4) t->resetAbsolute(o.arg); else if (!t->isActive()) { t->set(); t->deactivate(); } }
        else { if (k >= alive.size() || !alive[k]) return;
            if (o.what == 1) { if (!mact[k]) { mact[k] = 1; mAdd((int)k); } } else if (o.what == 2) { mact[k] = 0; mRemove((int)k); } else if (o.what == 3) { mact[k] = 0; alive[k] = 0; mRemove((int)k); } else if (o.what == 4) { mRemove((int)k); mp[k] = o.arg; mact[k] = 1; mAdd((int)k); } else if (!mact[k]) { mAdd((int)k); mRemove((int)k); } }
    };
    const unsigned n = (unsigned)c.small(4, 30);
    rig.finalize();
    // the check of one cycle in the model
    auto check = [&]() {
        inTick = true; for (int k : std::vector<int>(order)) { if (std::count(removed.begin(), removed.end(), k)) continue;
            if (val[(size_t)defs[(size_t)k].ctr] >= mp[(size_t)k]) { wantFire.push_back(k); ++fires; mact[(size_t)k] = 0; mRemove(k); const Def& d = defs[(size_t)k]; inner += d.act != 0; apply(Op{d.act, d.other < 0 ? k : d.other, d.arg}, false); } }
        inTick = false; for (int k : removed) order.erase(std::remove(order.begin(), order.end(), k), order.end()); for (int k : added) order.push_back(k); removed.clear(); added.clear();
    };
    rig.step = [&](uint64_t cycle) {
        check(); LOG(c, "cycle " << cycle << " fired " << gotFire.size() << " in all");
        REQUIRE(gotFire == wantFire, "triggers fired up to cycle " << cycle << ": " << gotFire.size() << " instead of " << wantFire.size());
        for (unsigned ops = (unsigned)c.small(0, 3); ops-- > 0;) {
            const unsigned w = (unsigned)below(c, 8);
            if (w < 4) { const size_t k = below(c, 3); const uint64_t by = c.draw(3); *ctr[k] += (Counter::counter_type)by; val[k] += by; LOG(c, " counter " << k << " is " << val[k]); }
            else if (w < 6 && ts.size() < 12) { const int ct = (int)below(c, 3); const uint64_t pt = val[(size_t)ct] + c.draw(5); const int act = c.flip() ? 0 : (int)below(c, 6); const bool self = c.flip(); int other = self ? -1 : (int)below(c, ts.size() + 1); if (act == 3 && self) other = (int)below(c, ts.size() + 1) - 0; if (act == 3 && other == (int)ts.size()) { other = ts.empty() ? -2 : (int)below(c, ts.size()); }
                const int a2 = other == -2 ? 0 : act; if (a2 == 1 && other < 0 ) {} uint64_t arg = val[(size_t)ct] + 6 + c.draw(9); defs.push_back({ct, a2, other == -2 ? 0 : other, arg}); LOG(c, " trigger " << ts.size() << " counter " << ct << " at " << pt << " then " << a2 << " on " << other);
                create(ct, pt, a2, other == -2 ? 0 : other, arg, true); create(ct, pt, a2, 0, arg, false); }
            else if (!ts.empty()) { const Op o{(int)c.small(1, 5), (int)below(c, ts.size()), val[0] + c.draw(12)}; LOG(c, " operation " << o.what << " on " << o.k); apply(o, true); apply(o, false); }
        }
        for (size_t k = 0; k < ts.size(); ++k) { REQUIRE_EQ((bool)ts[k]->t, (bool)alive[k], "trigger exists"); if (ts[k]->t) { REQUIRE_EQ(ts[k]->t->isActive(), (bool)mact[k], "activity of trigger " + std::to_string(k)); REQUIRE_EQ(ts[k]->t->getTriggerPoint(), mp[k], "trigger point"); REQUIRE_EQ(ts[k]->t->hasFired(), ts[k]->fired > 0, "whether trigger " + std::to_string(k) + " has fired"); } }
    };
    rig.run(n);
    c.nontrivial(fires >= 2 && n >= 8 && ts.size() >= 2); (void)inner;
}

// triggers at cycles and at points of time
struct Hit { std::vector<uint64_t>* at; Clock* clk; std::function<void()> then; void hit() { at->push_back(clk->currentTick()); if (then) then(); } };
PROPERTY_BATCH(times, 4000, 60000, 100) {
    const unsigned period = (unsigned)c.small(1, 3); Rig rig(period); rig.finalize();
    struct T { std::unique_ptr<trigger::CycleTrigger> cyc; std::unique_ptr<trigger::TimeTrigger> tim; Hit h; std::vector<uint64_t> got, want; bool rel = false, align = false; uint64_t arg = 0; bool set = false; uint64_t due = 0; int again = 0; };
    std::vector<std::unique_ptr<T>> ts; unsigned fires = 0; Down down{rig, [&] { ts.clear(); }}; const unsigned n = (unsigned)c.small(4, 40);
    const uint64_t P = rig.clk->getPeriod();
    auto due = [&](T& t, uint64_t cyc) { return (!t.rel ? t.arg : t.align ? (cyc / t.arg + 1) * t.arg : cyc + t.arg) * P; };
    rig.step = [&](uint64_t cycle) {
        const uint64_t now = rig.sched.getCurrentTick();
        for (auto& tp : ts) { T& t = *tp; while (t.set && t.due <= now) { t.want.push_back(t.due); ++fires; t.set = false; if (t.again > 0) { --t.again; t.set = true; t.due = due(t, t.due / P); } }
            REQUIRE(t.got == t.want, "times at which trigger " << (&tp - &ts[0]) << " fired up to tick " << now << ": " << t.got.size() << " instead of " << t.want.size() << (t.got.empty() ? "" : ", last " + std::to_string(t.got.back())) << (t.want.empty() ? "" : " wanted last " + std::to_string(t.want.back())));
            REQUIRE_EQ((t.cyc ? t.cyc->isActive() : t.tim->isActive()), t.set, "active"); REQUIRE_EQ((t.cyc ? t.cyc->hasFired() : t.tim->hasFired()), !t.want.empty(), "has fired"); }
        for (unsigned ops = (unsigned)c.small(0, 2); ops-- > 0;) {
            const unsigned w = (unsigned)below(c, 5);
            if (w < 2 && ts.size() < 8) {
                auto t = std::make_unique<T>(); T* p = t.get(); t->h.at = &t->got; t->h.clk = rig.clk.get();
                if (c.chance(1, 4)) { t->arg = 1 + c.draw(40); t->set = true; t->due = now + t->arg; LOG(c, "time trigger after " << t->arg); t->tim.reset(new trigger::TimeTrigger("t", CREATE_SPARTA_HANDLER_WITH_OBJ(Hit, &p->h, hit), t->arg, rig.clk.get())); }
                else {
                    t->cyc.reset(new trigger::CycleTrigger("t", CREATE_SPARTA_HANDLER_WITH_OBJ(Hit, &p->h, hit), rig.clk.get())); t->rel = c.flip(); t->align = t->rel && c.flip(); if (t->align) t->cyc->alignRelative(true);
                    t->arg = (t->rel ? 0 : cycle) + 1 + c.draw(9); t->set = true; t->again = t->rel && c.flip() ? (int)c.small(1, 6) : 0; t->due = due(*t, cycle); LOG(c, "cycle trigger " << (t->rel ? t->align ? "every aligned " : "after " : "at ") << t->arg << " again " << t->again);
                    auto left = std::make_shared<int>(t->again); if (t->again) t->h.then = [p, left] { if (*left > 0) { --*left; p->cyc->set(); } };
                    const bool prep = c.flip(); if (prep) { if (t->rel) t->cyc->prepRelative(rig.clk.get(), t->arg); else t->cyc->prepAbsolute(rig.clk.get(), t->arg); t->cyc->set(); } else if (t->rel) t->cyc->setRelative(rig.clk.get(), t->arg); else t->cyc->setAbsolute(rig.clk.get(), t->arg);
                }
                ts.push_back(std::move(t));
            } else if (w == 2 && !ts.empty()) { T& t = *ts[below(c, ts.size())]; LOG(c, "deactivate"); if (t.cyc) t.cyc->deactivate(); else t.tim->deactivate(); t.set = false; }
            else if (w >= 3 && !ts.empty()) { T& t = *ts[below(c, ts.size())]; if (t.set) { if (c.chance(1, 6)) REQUIRE(sp::throws([&] { if (t.cyc) t.cyc->set(); else t.tim->set(); }), "setting a trigger that is set"); continue; } if (!t.rel && t.cyc && t.arg <= cycle) continue; if (t.due > now) continue; LOG(c, "set again"); if (t.cyc) { t.cyc->set(); t.due = due(t, cycle); } else { t.tim->set(); t.due = now + t.arg; } t.set = true; t.again = 0; t.h.then = nullptr; }
        }
    };
    rig.run(n); c.nontrivial(fires >= 3 && ts.size() >= 2);
}

struct Obj : public trigger::Triggerable { std::vector<uint64_t> goes, stops, reps; Clock* clk; void go() override { goes.push_back(clk->currentCycle()); } void stop() override { stops.push_back(clk->currentCycle()); } void repeat() override { reps.push_back(clk->currentCycle()); } };
PROPERTY_BATCH(startstop, 2500, 40000, 100) {
    Rig rig; Counter ctr(rig.set.get(), "k", "c", Counter::COUNT_NORMAL); std::unique_ptr<trigger::Trigger> t; Down down{rig, [&] { t.reset(); }};
    Clock* clk = rig.clk.get(); const bool before = c.flip(); std::vector<Obj> objs(1 + c.draw(1)); for (auto& o : objs) o.clk = clk; const unsigned n = (unsigned)c.small(6, 60);
    const bool byCtr = c.chance(1, 3), align = c.flip(); const uint64_t start = 2 + c.draw(10), per = 1 + c.draw(6); const int stopKind = (int)below(c, 3); const bool rec = c.chance(2, 3); const uint64_t stop = stopKind == 1 ? start + (byCtr ? 40 : 1) + c.draw(20) : 1 + c.draw(25);
    std::vector<unsigned> inc; uint64_t v = 0, startAt = 0; for (unsigned i = 0; i < n + 2; ++i) inc.push_back((unsigned)c.draw(2));
    auto make = [&] { t.reset(new trigger::Trigger("t", clk)); for (auto& o : objs) t->addTriggeredObject(&o); t->setPeriodAlignmentOptions(align);
        if (rec) t->setRecurring(clk, per); if (stopKind == 1) t->setTriggerStopAbsolute(clk, stop); else if (stopKind == 2) t->setTriggerStopRelativeToStart(clk, stop); if (byCtr) t->setTriggerStartAbsolute(&ctr, start); else t->setTriggerStartAbsolute(clk, start); };
    LOG(c, "start at " << (byCtr ? "count " : "cycle ") << start << " stop kind " << stopKind << " " << stop << " every " << (rec ? per : 0) << (align ? " aligned" : "") << (before ? " before" : " within") << " cycles " << n);

    if (before) { make(); rig.finalize(); } else rig.finalize();
    std::vector<uint64_t> cycles; std::map<uint64_t, uint64_t> seen;
    rig.step = [&](uint64_t cycle) { if (!before && cycle == 1) make(); seen[cycle] = v; ctr += (Counter::counter_type)inc[cycle % inc.size()]; v += inc[cycle % inc.size()]; cycles.push_back(cycle); };
    rig.run(n); t.reset();
    uint64_t last = cycles.back(); if (byCtr) { for (uint64_t cy : cycles) if (cy >= 2 && seen[cy] >= start) { startAt = cy; break; } } else if (start <= last) startAt = start;
    std::vector<uint64_t> goes, stops, reps; const bool aligned = align;
    if (startAt) { goes.push_back(startAt); const uint64_t s = stopKind == 0 ? ~0ull : stopKind == 1 ? stop : startAt + stop; if (s <= last && s > startAt) stops.push_back(s); if (rec) for (uint64_t r = aligned ? (startAt / per + 1) * per : startAt + per; r <= last && r <= s; r += per) reps.push_back(r);
        if (stopKind == 1 && s <= startAt) throw Discard();
        for (auto& o : objs) { REQUIRE(o.goes == goes, "turned on at " << (o.goes.empty() ? 0 : o.goes[0]) << " instead of " << startAt << ", times " << o.goes.size()); REQUIRE(o.stops == stops, "turned off " << o.stops.size() << " times, at " << (o.stops.empty() ? 0 : o.stops[0]) << " instead of " << s);
            auto a = o.reps, b = reps; if (!a.empty() && a.back() == s) a.pop_back(); if (!b.empty() && b.back() == s) b.pop_back(); REQUIRE(a == b, "repeated " << a.size() << " times instead of " << b.size()); } }
    else for (auto& o : objs) REQUIRE(o.goes.empty() && o.stops.empty() && o.reps.empty(), "a trigger whose start was not reached acted");
    c.nontrivial(startAt && (rec || stopKind));
}

// expressions over counters, notifications and statistics
struct Term { int kind; int src; std::string op; uint64_t v; bool met = false; std::string text; };
struct Ex { bool all = true; std::vector<Ex> kids; int term = -1; };
static bool cmp(uint64_t a, const std::string& op, uint64_t b) { return op == "==" ? a == b : op == "!=" ? a != b : op == ">=" ? a >= b : op == "<=" ? a <= b : op == ">" ? a > b : a < b; }
static bool holds(const Ex& e, const std::vector<Term>& t) { if (e.term >= 0) return t[(size_t)e.term].met; for (auto& k : e.kids) if (holds(k, t) != e.all) return !e.all; return e.all; }
static std::string show(const Ex& e, const std::vector<Term>& t, bool top) { if (e.term >= 0) return t[(size_t)e.term].text; std::string s; for (auto& k : e.kids) s += (s.empty() ? "" : e.all ? " && " : " || ") + show(k, t, false); return top ? s : "(" + s + ")"; }
struct ExHit { unsigned n = 0; uint64_t at = 0; Clock* clk; void hit() { ++n; at = clk->currentCycle(); } };
PROPERTY_BATCH(expressions, 5000, 80000, 100) {
    Rig rig; std::vector<std::unique_ptr<Counter>> ctr; std::vector<std::unique_ptr<NotificationSource<uint64_t>>> src; std::vector<std::unique_ptr<StatisticDef>> defs; std::vector<uint64_t> val(3, 0);
    for (int i = 0; i < 3; ++i) ctr.emplace_back(new Counter(rig.set.get(), "k" + std::string(1, char('a' + i)), "c", Counter::COUNT_NORMAL));
    for (int i = 0; i < 2; ++i) src.emplace_back(new NotificationSource<uint64_t>(rig.node.get(), "n" + std::string(1, char('a' + i)), "n", "chan_" + std::string(1, char('a' + i))));
    defs.emplace_back(new StatisticDef(rig.set.get(), "sab", "s", rig.set.get(), "ka + kb"));
    struct W { std::unique_ptr<trigger::ExpressionTrigger> t; std::vector<Term> terms; Ex e; ExHit h; bool fired = false; uint64_t at = 0, base = 0; std::string text; }; std::vector<std::unique_ptr<W>> ws; unsigned fires = 0, mixed = 0;
    Down down{rig, [&] { ws.clear(); defs.clear(); }}; rig.finalize(); static const char* OPS[] = {"==", "!=", ">=", "<=", ">", "<"};
    std::function<Ex(W&, int, int)> gen = [&](W& w, int depth, int parent) -> Ex {
        Ex e; if (depth == 0 || (parent >= 0 && !c.chance(1, 3))) {
            Term t; t.kind = (int)below(c, 5); if (t.kind < 2) { t.kind = 0; t.src = (int)below(c, 3); t.op = ">="; t.v = 1 + c.draw(12); t.text = "blk.stats.k" + std::string(1, char('a' + t.src)); }
            else if (t.kind < 4) { t.kind = 1; t.src = (int)below(c, 2); t.op = OPS[below(c, 6)]; t.v = c.draw(6); t.text = "notif.chan_" + std::string(1, char('a' + t.src)); }
            else { t.kind = 2; t.src = 0; t.op = OPS[below(c, 6)]; t.v = 1 + c.draw(14); t.text = "stat_def.blk.stats.sab"; }
            const char* sp_ = c.chance(1, 4) ? "" : " "; t.text += sp_ + t.op + sp_ + std::to_string(t.v); w.terms.push_back(t); e.term = (int)w.terms.size() - 1; return e; }
        e.all = parent < 0 ? c.flip() : !parent; for (unsigned n = (unsigned)c.small(2, 3); n-- > 0;) e.kids.push_back(gen(w, depth - 1, e.all)); return e; };
    auto grouped = [](const Ex& e) { for (auto& k : e.kids) if (k.term < 0) return true; return false; };
    auto settle = [&](uint64_t cycle) { for (auto& w : ws) if (!w->fired && holds(w->e, w->terms)) { w->fired = true; w->at = cycle; ++fires; mixed += grouped(w->e); } };
    const unsigned n = (unsigned)c.small(6, 30);
    rig.step = [&](uint64_t cycle) {
        for (auto& w : ws) for (auto& t : w->terms) if (!t.met) { if (t.kind == 0) t.met = cmp(val[(size_t)t.src], t.op, t.v); else if (t.kind == 2) t.met = cmp(val[0] + val[1] - w->base, t.op, t.v); }
        settle(cycle);
        auto verify = [&]() { for (auto& w : ws) { REQUIRE_EQ(w->h.n, (unsigned)w->fired, "times '" + w->text + "' fired by cycle " + std::to_string(cycle)); if (w->fired) REQUIRE_EQ(w->h.at, w->at, "cycle at which '" + w->text + "' fired"); REQUIRE_EQ(w->t->hasFired(), w->fired, "has fired: '" + w->text + "'"); } };
        verify();
        for (unsigned ops = (unsigned)c.small(0, 3); ops-- > 0;) {
            const unsigned o = (unsigned)below(c, 8);
            if (o < 3) { const size_t k = below(c, 3); const uint64_t by = c.draw(3); *ctr[k] += (Counter::counter_type)by; val[k] += by; LOG(c, cycle << ": counter " << k << " is " << val[k]); }
            else if (o < 6) { const size_t k = below(c, 2); const uint64_t v = c.draw(7); LOG(c, cycle << ": post " << v << " on " << k); src[k]->postNotification(v); for (auto& w : ws) for (auto& t : w->terms) if (t.kind == 1 && t.src == (int)k && cmp(v, t.op, t.v)) t.met = true; settle(cycle); verify(); }
            else if (ws.size() < 5) { auto w = std::make_unique<W>(); w->e = gen(*w, (int)c.small(1, 3), -1); if (c.chance(1, 4) ) { w->terms.clear(); w->e = gen(*w, 0, -1); } w->text = show(w->e, w->terms, true); w->h.clk = rig.clk.get(); LOG(c, cycle << ": trigger " << w->text); W* p = w.get(); p->base = val[0] + val[1]; w->t.reset(new trigger::ExpressionTrigger("e", CREATE_SPARTA_HANDLER_WITH_OBJ(ExHit, &p->h, hit), w->text, &rig.root, std::make_shared<SubContainer>())); ws.push_back(std::move(w)); }
        }
    };
    rig.run(n); c.nontrivial(fires >= 2); if (mixed) c.label("grouped");
}
