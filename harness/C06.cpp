// C06: sync ports against a reference of arrival times, slides and the ready/valid protocol.
#include "sp.hpp"
#include "sparta/ports/PortSet.hpp"
#include "sparta/ports/SyncPort.hpp"
#include "sparta/events/PhasedUniqueEvent.hpp"
using namespace sparta;

namespace {
struct World; struct Out;
struct In { World* w = nullptr; unsigned id = 0, clk = 0, phase = 0; uint64_t r = 0; bool rv = false; std::unique_ptr<SyncInPort<uint64_t>> p;
    std::map<uint64_t, uint64_t> pend;      // arrival tick -> value; one per receiver cycle
    bool any = false; uint64_t prev = 0; bool cur = true, old = true; uint64_t set = 0; unsigned in_delivery = 0; uint64_t retries = 0; std::vector<Out*> outs; uint64_t sent = 0, got = 0; bool has = false; uint64_t last = 0, last_tick = 0;
    bool latched(uint64_t t) const { return set == t ? old : cur; } void onData(const uint64_t& v); };
struct Out { World* w = nullptr; unsigned id = 0, clk = 0, phase = 0; std::unique_ptr<SyncOutPort<uint64_t>> p; std::unique_ptr<PhasedUniqueEvent> ev; In* in = nullptr; bool producer = false, any = false; uint64_t prev_cycle = 0; void fire(); };

struct World {
    pbt::Case& c; Scheduler sched; ClockManager cm; RootTreeNode rtn; std::vector<Clock::Handle> clks; std::vector<uint64_t> per;
    std::vector<std::unique_ptr<TreeNode>> nodes; std::vector<std::unique_ptr<PortSet>> ps; std::vector<std::unique_ptr<EventSet>> es; std::vector<std::unique_ptr<In>> ins; std::vector<std::unique_ptr<Out>> outs;
    uint64_t now = 0, val = 0, delivered = 0, retried = 0, slid = 0, refused = 0, crossings = 0; unsigned fuel = 0, phase = 0; bool in_run = false; uint64_t end_tick = 0; Out* cur_out = nullptr;
    sp::Teardown td{rtn};
    World(pbt::Case& cc) : c(cc), sched("sched"), cm(&sched), rtn("top") {}
    static uint64_t up(uint64_t t, uint64_t p) { return (t + p - 1) / p * p; }
    uint64_t arrival(const Out& o, uint64_t d) { return up(now + d * per[o.clk] + o.in->r, per[o.in->clk]); }
    uint64_t next_cycle(const Out& o, uint64_t d, unsigned beats) {
        bool any = o.in->any; uint64_t prev = o.in->prev, a = 0;
        for (unsigned b = 0; b <= beats; ++b) { a = arrival(o, d + b); if (any && a <= prev) a = prev + per[o.in->clk]; prev = a; any = true; }
        return (a - d * per[o.clk] - o.in->r) / per[o.clk] + d;
    }
    // moves what the receiver turned away to its next cycle, for every arrival before tick t
    void settle(In& i, uint64_t t, bool incl) {
        for (;;) {
            if (i.pend.empty()) return; auto f = i.pend.begin(); if (incl ? f->first > t : f->first >= t) return;
            uint64_t a = f->first, v = f->second;
            REQUIRE(!i.latched(a), "in" << i.id << " did not receive " << v << " due " << a << " (now " << t << ")");
            i.pend.erase(f); uint64_t n = a + per[i.clk]; i.pend[n] = v; i.prev = n; ++retried; ++i.retries; LOG(c, "tick " << a << ": in" << i.id << " turned " << v << " away");
        }
    }
    void settle_all() { for (auto& i : ins) settle(*i, now, phase > i->phase); }
    void send(Out& o) {
        In& i = *o.in; if (now % per[o.clk]) { REQUIRE_THROWS(o.p->send(1), "send off the sender's clock edge"); REQUIRE_THROWS(o.p->isReady(), "isReady off the sender's clock edge"); return; }
        settle(i, now, phase > i.phase);
        bool rdy = true; if (i.rv || i.set == 0) { uint64_t a = arrival(o, 0); rdy = !i.any || a > i.prev; if (!i.latched(now) && (!i.pend.empty() || i.r == 0)) rdy = false; REQUIRE_EQ(o.p->isReady(), rdy, "out" << o.id << " isReady at " << now << " (arrival " << a << ", previous " << (i.any ? i.prev : 0) << ", in flight " << i.pend.size() << ")"); if (i.r == 0) REQUIRE_EQ(o.p->isReadyPS(), i.cur, "out" << o.id << " isReadyPS"); }
        if (i.rv && !rdy) return;
        uint64_t d = i.rv ? 0 : c.weighted({6, 2, 1, 1}); bool slide = !i.rv && c.chance(1, 3); uint64_t a = arrival(o, d); bool sl = false;
        REQUIRE_EQ(o.p->isDriven(d), i.any && a <= i.prev, "out" << o.id << " isDriven(" << d << ") at " << now); REQUIRE_EQ(o.p->isDriven(), i.any && arrival(o, 0) <= i.prev, "out" << o.id << " isDriven at " << now);
        { unsigned beats = (unsigned)c.draw(3); REQUIRE_EQ(o.p->computeNextAvailableCycleForSend(d, beats), next_cycle(o, d, beats), "next available cycle of out" << o.id << " for delay " << d << ", " << beats << " beats at " << now); }
        if (i.any && a <= i.prev) { if (slide) { a = i.prev + per[i.clk]; sl = true; } else { LOG(c, "  out" << o.id << " send +" << d << " (refused)"); ++refused; REQUIRE_THROWS(o.p->send(++val, d), "a second arrival at " << a << " in one receiver cycle"); return; } }
        uint64_t sc = next_cycle(o, d, 0); if (o.any && sc <= o.prev_cycle) return;         // more than one send per sender cycle: fatal by design
        if (a == now && (i.phase < phase || (i.phase == phase && !(cur_out == &o && o.producer)))) return;
        ++val; slid += sl; uint64_t r; unsigned how = (unsigned)c.draw(1); LOG(c, "  out" << o.id << " sends " << val << " +" << d << (slide ? " sliding" : "") << ", arrives " << a);
        i.pend[a] = val; i.prev = a; i.any = true; ++i.sent; o.any = true; o.prev_cycle = sc; if (per[o.clk] != per[i.clk]) ++crossings;
        if (slide) r = how && !d ? o.p->sendAndAllowSlide(val) : o.p->sendAndAllowSlide(val, d); else r = how && !d ? o.p->send(val) : o.p->send(val, d);
        REQUIRE_EQ(r, a - now, "delay returned by send");
    }
    void ready() {
        In& i = *ins[c.draw(ins.size() - 1)]; if (!i.rv) return; settle(i, now, phase > i.phase); bool v = c.flip();
        if (now > i.set) { i.set = now; i.old = i.cur; i.cur = v; LOG(c, "  in" << i.id << " ready " << v); i.p->setReady(v); } else if (v == i.cur) i.p->setReady(v); else REQUIRE_THROWS(i.p->setReady(v), "ready set both ways in one tick");
        REQUIRE_EQ(i.p->getReady(), i.cur, "getReady");
    }
    void query() { In& i = *ins[c.draw(ins.size() - 1)]; settle(i, now, phase > i.phase); if (i.in_delivery || (phase == i.phase && i.pend.count(now))) return; uint64_t d = c.draw(4); REQUIRE_EQ(i.p->isDriven(), !i.pend.empty(), "in" << i.id << " isDriven at " << now); REQUIRE_EQ(i.p->isDriven(d), i.pend.count(now + d * per[i.clk]) > 0, "in" << i.id << " isDriven(" << d << ") at " << now); 
        REQUIRE_EQ(i.p->dataReceived(), i.has, "dataReceived"); if (i.has) { REQUIRE_EQ(i.p->peekData(), i.last, "data held"); REQUIRE_EQ(i.p->dataReceivedThisCycle(), i.last_tick == now, "dataReceivedThisCycle"); if (c.chance(1, 3)) { REQUIRE_EQ(i.p->pullData(), i.last, "pulled"); i.has = false; } } }
    void act(Out* own) { switch (c.weighted({6, 2, 2})) { case 0: send(own && !c.chance(1, 4) ? *own : *outs[c.draw(outs.size() - 1)]); break; case 1: ready(); break; default: query(); } }
};
void In::onData(const uint64_t& v) {
    uint64_t t = w->sched.getCurrentTick(); LOG(w->c, "tick " << t << ": in" << id << " receives " << v); ++w->delivered; ++got;
    REQUIRE(t >= w->now && t <= w->end_tick, "in" << id << " received at " << t); w->now = t; w->phase = phase; w->cur_out = nullptr;
    REQUIRE_EQ((unsigned)w->sched.getCurrentSchedulingPhase(), phase, "delivery phase"); REQUIRE(t % w->per[clk] == 0, "in" << id << " received at " << t << ", not an edge of its clock");
    w->settle(*this, t, false); REQUIRE(!pend.empty() && pend.begin()->first == t, "in" << id << " received " << v << " at " << t << (pend.empty() ? " with nothing in flight" : " but the next arrival is due " + std::to_string(pend.begin()->first)));
    REQUIRE(latched(t), "in" << id << " received " << v << " at " << t << " while not ready"); REQUIRE_EQ(v, pend.begin()->second, "in" << id << " received the wrong item"); pend.erase(pend.begin()); has = true; last = v; last_tick = t;
    ++in_delivery; for (auto& o : w->ins) w->settle(*o, t, w->phase > o->phase); unsigned n = (unsigned)w->c.weighted({3, 3, 1}); while (n-- && w->fuel) { --w->fuel; w->act(nullptr); } --in_delivery;
}
void Out::fire() {
    uint64_t t = w->sched.getCurrentTick(); w->now = t; w->phase = phase; w->cur_out = this; w->settle_all(); LOG(w->c, "tick " << t << ": out" << id << "'s driver");
    unsigned n = (unsigned)w->c.weighted({1, 4, 3}); while (n-- && w->fuel) { --w->fuel; w->act(this); }
    if (w->fuel) ev->schedule(1 + w->c.weighted({5, 2, 1, 1})); w->cur_out = nullptr;
}
}

PROPERTY(sync_port_model, 30000, 900000) {
    World w(c);
    auto root = w.cm.makeRoot(&w.rtn, "root"); w.clks.push_back(root);
    unsigned nc = (unsigned)c.draw(2); for (unsigned k = 0; k < nc; ++k) w.clks.push_back(w.cm.makeClock("clk" + std::to_string(k), root, (uint32_t)c.range(1, 5), (uint32_t)c.range(1, 5)));
    w.cm.normalize(); w.rtn.setClock(root.get()); for (auto& k : w.clks) w.per.push_back(k->getPeriod());
    for (size_t i = 0; i < w.clks.size(); ++i) { w.nodes.emplace_back(new TreeNode(&w.rtn, "n" + std::to_string(i), "node")); w.nodes.back()->setClock(w.clks[i].get()); w.ps.emplace_back(new PortSet(w.nodes.back().get())); w.es.emplace_back(new EventSet(w.nodes.back().get())); }
    unsigned ni = 1 + (unsigned)c.draw(2);
    for (unsigned k = 0; k < ni; ++k) {
        auto i = std::make_unique<In>(); i->w = &w; i->id = k; i->clk = (unsigned)c.draw(w.clks.size() - 1); i->rv = c.chance(1, 3); i->phase = c.flip() ? (unsigned)SchedulingPhase::PortUpdate : (unsigned)c.draw(5); auto* n = w.ps[i->clk].get(); std::string nm = "in" + std::to_string(k);
        if (i->phase == (unsigned)SchedulingPhase::PortUpdate) i->p.reset(new SyncInPort<uint64_t>(n, nm, w.clks[i->clk].get())); else i->p.reset(new SyncInPort<uint64_t>(n, nm, w.clks[i->clk].get(), (SchedulingPhase)i->phase));
        i->p->registerConsumerHandler(SpartaHandler::from_member_1<In, uint64_t, &In::onData>(i.get(), "onData"));
        uint64_t P = w.per[i->clk];
        if (i->rv) { uint64_t d = c.draw(1); i->r = d * P; if (d) i->p->setPortDelay((Clock::Cycle)1); if (c.chance(1, 4)) { i->cur = i->old = false; i->p->setInitialReadyState(false); } }
        else switch (c.draw(2)) { case 0: break; case 1: { uint64_t d = c.draw(3); i->r = d * P; i->p->setPortDelay((Clock::Cycle)d); REQUIRE_EQ(i->p->getPortDelay(), d, "port delay"); REQUIRE_THROWS(i->p->setPortDelay((Clock::Cycle)d), "port delay set twice"); break; } default: { double d = (double)c.draw(8) / 4; i->r = (uint64_t)(d * P); i->p->setPortDelay(d); REQUIRE_EQ(i->p->getPortDelay(), (i->r + P - 1) / P, "port delay in cycles"); } }
        unsigned no = i->rv ? 1 : 1 + (unsigned)c.draw(1);
        for (unsigned j = 0; j < no; ++j) {
            auto o = std::make_unique<Out>(); o->w = &w; o->id = (unsigned)w.outs.size(); o->in = i.get(); o->clk = i->rv ? i->clk : (unsigned)c.draw(w.clks.size() - 1); o->phase = (unsigned)c.draw(5); std::string on = "out" + std::to_string(o->id);
            o->p.reset(new SyncOutPort<uint64_t>(w.ps[o->clk].get(), on, w.clks[o->clk].get())); o->ev.reset(new PhasedUniqueEvent(w.es[o->clk].get(), "ev_" + on, (SchedulingPhase)o->phase, SpartaHandler::from_member<Out, &Out::fire>(o.get(), "fire")));
            REQUIRE_THROWS(o->p->send(1), "send on an unbound sync port");
            if (c.flip()) { o->producer = i->p->getPortDelay() == 0; o->p->registerProducingEvent(*o->ev); }
            if (c.flip()) sparta::bind(o->p.get(), i->p.get()); else sparta::bind(*i->p, *o->p);
            REQUIRE_THROWS(o->p->bind(*i->p), "sync out-port bound twice");
            LOG(c, on << " period " << w.per[o->clk] << " phase " << o->phase << (o->producer ? " producer" : "") << " -> " << nm << " period " << P << " phase " << i->phase << " delay " << i->r << " ticks" << (i->rv ? " ready/valid" : ""));
            i->outs.push_back(o.get()); w.outs.push_back(std::move(o));
        }
        w.ins.push_back(std::move(i));
    }
    w.rtn.enterConfiguring(); w.rtn.enterFinalized(); w.sched.finalize();
    w.fuel = (unsigned)c.urange(10, 80); for (auto& o : w.outs) o->ev->schedule(c.draw(3));
    w.in_run = true; bool sliced = c.flip(); uint64_t start = 0;
    for (unsigned k = 0; k < 400; ++k) {
        uint64_t n = sliced ? c.urange(1, 60) : 200; w.end_tick = start + n - 1; w.sched.run(n, true, false); start += n; w.now = start; w.phase = 0;
        for (auto& i : w.ins) w.settle(*i, start, false);
        if (!w.fuel) break;
        bool live = false; for (auto& o : w.outs) if (o->ev->isScheduled()) live = true; if (!live) break;
    }
    // a receiver that stays ready gets everything
    for (auto& i : w.ins) if (i->rv) { if (w.now > i->set) { i->set = w.now; i->old = i->cur; i->cur = true; i->p->setReady(true); } }
    w.fuel = 0; uint64_t h = 1; for (auto& i : w.ins) for (auto& q : i->pend) h = std::max(h, q.first - std::min(q.first, w.now) + 1); for (auto p : w.per) h += 3 * p; w.end_tick = w.now + h - 1; start = w.now; w.sched.run(h, true, false); w.now = start + h; for (auto& i : w.ins) w.settle(*i, w.now, false);
    for (auto& i : w.ins) { REQUIRE(i->pend.empty(), "in" << i->id << " never received " << i->pend.begin()->second); REQUIRE_EQ(i->sent, i->got, "items sent to and received by in" << i->id); }
    c.label("delivered", w.delivered); c.label("retries", w.retried); c.label("slides", w.slid); c.label("refused", w.refused); c.label("crossings", w.crossings);
    c.nontrivial(w.delivered >= 4 && (w.retried || w.slid || w.refused || w.crossings));
}
