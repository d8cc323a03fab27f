// C05: data, signal, exported ports and buses against per-in-port delivery queues.
#include "sp.hpp"
#include "sparta/ports/PortSet.hpp"
#include "sparta/ports/DataPort.hpp"
#include "sparta/ports/SignalPort.hpp"
#include "sparta/ports/ExportedPort.hpp"
#include "sparta/ports/Bus.hpp"
#include "sparta/events/PhasedUniqueEvent.hpp"
using namespace sparta;

namespace {
struct Msg { uint64_t uid = 0; int key = 0; bool operator==(const Msg& o) const { return key == o.key; } };
inline std::ostream& operator<<(std::ostream& o, const Msg& m) { return o << m.uid; }
struct Item { uint64_t tick, seq; Msg m; };
struct World;
struct In { World* w = nullptr; unsigned id = 0, unit = 0, phase = 0; uint64_t delay = 0; bool data = true, handled = true;
    std::unique_ptr<DataInPort<Msg>> d; std::unique_ptr<SignalInPort> s; Port* p() { return d ? (Port*)d.get() : (Port*)s.get(); } InPort* ip() { return d ? (InPort*)d.get() : (InPort*)s.get(); }
    std::vector<Item> pend; bool has = false, bound = false, cont = true; Msg last{}; uint64_t last_tick = 0; std::unique_ptr<ExportedPort> exp; std::vector<unsigned> consumers; unsigned in_delivery = 0;
    void onData(const Msg& m); void onSig(); };
struct Out { unsigned id = 0, unit = 0; bool data = true, presume = true, cont = true; std::unique_ptr<DataOutPort<Msg>> d; std::unique_ptr<SignalOutPort> s; std::vector<unsigned> to, producers, inproducers; std::unique_ptr<ExportedPort> exp; Port* p() { return d ? (Port*)d.get() : (Port*)s.get(); } OutPort* op() { return d ? (OutPort*)d.get() : (OutPort*)s.get(); } };
struct Ev { World* w = nullptr; unsigned id = 0, phase = 0; bool producer = true; std::unique_ptr<PhasedUniqueEvent> e; std::set<uint64_t> due; void fire(); };
struct Frame { std::vector<unsigned> to; std::vector<bool> sync; std::vector<uint64_t> at; size_t next = 0; Msg m; };

struct World {
    pbt::Case& c; Scheduler sched; ClockManager cm; RootTreeNode rtn;
    std::vector<Clock::Handle> clks; std::vector<uint64_t> period; std::vector<unsigned> uclk;
    std::vector<std::unique_ptr<TreeNode>> nodes; std::vector<std::unique_ptr<PortSet>> psets; std::vector<std::unique_ptr<EventSet>> esets;
    std::vector<std::unique_ptr<In>> ins; std::vector<std::unique_ptr<Out>> outs; std::vector<std::unique_ptr<Ev>> evs; std::vector<std::unique_ptr<ExportedPort>> exps;
    std::set<std::pair<unsigned, unsigned>> ev_before_in, in_before_in, ev_before_ev;   // deliveries/events ordered within a tick
    uint64_t seq = 0, uid = 0, now = 0, delivered = 0, zero = 0, cancels = 0, coalesced = 0, refused = 0, fanned = 0; unsigned fuel = 0; bool in_run = false, firing = false; unsigned phase = 0;
    uint64_t end_tick = 0; std::vector<Frame*> frames;
    sp::Teardown td{rtn};
    World(pbt::Case& cc) : c(cc), sched("sched"), cm(&sched), rtn("top") {}
    uint64_t per(unsigned u) { return period[uclk[u]]; }
    void enqueue(In& i, const Msg& m, uint64_t rel) {
        uint64_t t = now + rel;
        if (!i.data) for (auto& x : i.pend) if (x.tick == t) { ++coalesced; return; }
        i.pend.push_back({t, seq++, m}); std::stable_sort(i.pend.begin(), i.pend.end(), [](const Item& a, const Item& b) { return a.tick < b.tick; });
    }
    // commits the scheduled targets of the current send that come before index n
    void commit(Frame& f, size_t n) { while (f.next < n) { size_t k = f.next++; REQUIRE(!f.sync[k], "in" << f.to[k] << " did not get " << f.m.uid << " synchronously"); enqueue(*ins[f.to[k]], f.m, f.at[k]); } }
    void send(unsigned o) {
        Out& x = *outs[o]; Msg m{++uid, (int)c.draw(3)}; bool big = firing && x.data && c.chance(1, 25); bool dflt = !big && c.chance(1, 6); uint64_t d = big ? (1ull << 32) * c.urange(1, 3) + c.draw(2) : dflt ? 0 : c.small(0, 6);
        if (x.to.empty()) { REQUIRE_THROWS(x.data ? x.d->send(m, d) : x.s->send(d), "send on unbound out" << o); return; }
        Frame f; f.m = m; bool refuse = false; if (x.to.size() > 1) ++fanned;
        for (unsigned t : x.to) { In& i = *ins[t]; uint64_t tot = d + i.delay; if (!firing && !tot) return; if (!tot && i.phase < phase) { refuse = true; break; } f.to.push_back(t); f.sync.push_back(!tot && i.phase == phase); if (!tot) { ++zero; } f.at.push_back(tot * per(i.unit)); }
        LOG(c, "  out" << o << " sends " << m.uid << " +" << d << (refuse ? " (refused)" : "")); refused += refuse;
        frames.push_back(&f); std::string what; bool th = sp::throws([&] { if (x.data) { if (dflt) x.d->send(m); else x.d->send(m, d); } else { if (dflt) x.s->send(); else x.s->send(d); } }, what); commit(f, f.to.size()); frames.pop_back();
        REQUIRE(th == refuse, "out" << o << " send +" << d << ": " << (th ? what : "accepted"));
    }
    void received(In& i, const Msg* m) {
        uint64_t t = sched.getCurrentTick(); ++delivered; LOG(c, "tick " << t << ": in" << i.id << " receives " << (m ? std::to_string(m->uid) : "signal"));
        REQUIRE(in_run, "in" << i.id << " received outside a run");
        bool sync = false; Msg got = m ? *m : Msg{};
        if (!frames.empty() && firing) {   // inside a send: this must be its next synchronous delivery
            Frame& f = *frames.back(); size_t k = f.next; while (k < f.to.size() && !f.sync[k]) ++k;
            REQUIRE(k < f.to.size() && f.to[k] == i.id, "in" << i.id << " received " << got.uid << " inside the send of " << f.m.uid << " at " << t);
            commit(f, k); f.next = k + 1; got = f.m; sync = true;
        } else {
            REQUIRE(t >= now && t <= end_tick, "in" << i.id << " received at " << t << ", window " << now << ".." << end_tick);
            for (auto& q : ins) if (q->handled && !q->pend.empty()) REQUIRE(q->pend.front().tick >= t, "in" << q->id << " missed " << q->pend.front().m.uid << " due " << q->pend.front().tick << ", it is " << t);
            REQUIRE(!i.pend.empty() && i.pend.front().tick == t, "in" << i.id << " received " << got.uid << " at " << t << (i.pend.empty() ? " with nothing pending" : " but the next is due " + std::to_string(i.pend.front().tick)));
            Item q = i.pend.front(); i.pend.erase(i.pend.begin()); got = q.m; now = t; phase = i.phase; 
            REQUIRE_EQ((unsigned)sched.getCurrentSchedulingPhase(), i.phase, "delivery phase of in" << i.id);
            for (auto& b : in_before_in) if (b.second == i.id && ins[b.first]->handled && !ins[b.first]->pend.empty()) REQUIRE(ins[b.first]->pend.front().tick > t, "in" << i.id << " received at " << t << " before its predecessor in" << b.first);
            for (auto& b : ev_before_in) if (b.second == i.id) REQUIRE(!evs[b.first]->due.count(t), "in" << i.id << " received at " << t << " before its producer ev" << b.first << " fired");
        }
        REQUIRE_EQ(t, now, "tick"); if (m) REQUIRE(m->uid == got.uid && m->key == got.key, "in" << i.id << " received " << m->uid << " instead of " << got.uid);
        i.has = true; i.last = got; i.last_tick = t; bool of = firing; firing = true; std::vector<Frame*> saved; if (!sync) { saved.swap(frames); }
        if (!sync) ++i.in_delivery;
        check_container(i, true); unsigned n = (unsigned)c.weighted({4, 3, 1}); while (n-- && fuel) { --fuel; act(); }
        if (!sync) { --i.in_delivery; saved.swap(frames); }
        firing = of;
    }
    void check_container(In& i, bool) {
        auto chk = [&](auto& dc) {
            REQUIRE_EQ(dc.dataReceived(), i.has, "dataReceived of in" << i.id);
            REQUIRE_EQ(dc.dataReceivedThisCycle(), i.has && i.last_tick == sched.getCurrentTick(), "dataReceivedThisCycle of in" << i.id);
            if (i.has) REQUIRE_EQ(dc.getReceivedTimeStamp(), i.last_tick / per(i.unit), "time stamp of in" << i.id << " received at " << i.last_tick);
            else { REQUIRE_THROWS(dc.peekData(), "peek with no data"); REQUIRE_THROWS(dc.pullData(), "pull with no data"); REQUIRE_THROWS(dc.getReceivedTimeStamp(), "time stamp with no data"); }
        };
        if (i.data) { chk(*i.d); if (i.has) REQUIRE_EQ(i.d->peekData().uid, i.last.uid, "data held by in" << i.id); } else { chk(*i.s); if (i.has) REQUIRE(i.s->peekData() == true, "signal held"); }
    }
    void act() {
        switch (c.weighted({9, 3, 2, 2, 2, 2})) {
        case 0: send((unsigned)c.draw(outs.size() - 1)); break;
        case 1: { Ev& e = *evs[c.draw(evs.size() - 1)]; uint64_t d = c.small(1, 6), t = now + d * period[0]; LOG(c, "  schedule ev" << e.id << " at " << t); e.e->schedule(d); e.due.insert(t); break; }
        case 2: { In& i = *ins[c.draw(ins.size() - 1)]; if (!i.data) return; if (!i.handled && firing) return; cancel_op(nullptr, i); break; }
        case 3: { Out& o = *outs[c.draw(outs.size() - 1)]; if (!o.data || o.to.empty()) return; for (unsigned t : o.to) if (!ins[t]->handled && firing) return; cancel_op(&o, *ins[o.to[0]]); break; }
        case 4: { In& i = *ins[c.draw(ins.size() - 1)]; if (!i.handled && firing) return; check_container(i, false); unsigned how = (unsigned)c.draw(2); if (!i.has || how == 0) return;
            if (how == 1) { LOG(c, "  pull from in" << i.id); if (i.data) REQUIRE_EQ(i.d->pullData().uid, i.last.uid, "pulled from in" << i.id); else REQUIRE(i.s->pullData(), "pulled signal"); }
            else { LOG(c, "  clear in" << i.id); if (i.data) i.d->clearData(); else i.s->clearData(); }
            i.has = false; check_container(i, false); break; }
        default: { Out& o = *outs[c.draw(outs.size() - 1)]; if (!o.data) return; uint64_t d = c.small(0, 6); bool any = false, at = false, skip = false;
            for (unsigned t : o.to) { In& i = *ins[t]; if (!i.handled && firing) return; bool m1 = !i.pend.empty(), m2 = false; for (auto& q : i.pend) if (q.tick == now + d * per(i.unit)) m2 = true;
                if (!i.in_delivery) { REQUIRE_EQ(i.d->isDriven(), m1, "in" << t << " isDriven"); if (!i.in_delivery) REQUIRE_EQ(i.d->isDriven(d), m2, "in" << t << " isDriven(" << d << ") at " << now); } else skip = true;
                any |= m1; at |= m2; }
            if (!skip) { REQUIRE_EQ(o.d->isDriven(), any, "out" << o.id << " isDriven"); REQUIRE_EQ(o.d->isDriven(d), at, "out" << o.id << " isDriven(" << d << ")"); } break; }
        }
    }
    void cancel_op(Out* o, In& i0) {
        unsigned how = (unsigned)c.draw(2); int key = (int)c.draw(3); std::vector<unsigned> t = o ? o->to : std::vector<unsigned>{i0.id}; uint64_t lo = 0, hi = 0;
        LOG(c, "  cancel" << (how ? "If key " + std::to_string(key) : "") << " on " << (o ? "out" : "in") << (o ? o->id : i0.id));
        for (unsigned k : t) { In& i = *ins[k]; for (auto q = i.pend.begin(); q != i.pend.end();) if (!how || q->m.key == key) { ++lo; q = i.pend.erase(q); } else ++q; hi += i.in_delivery; }
        hi += lo; cancels += lo; uint32_t r; auto pred = [&](const Msg& m) { return m.key == key; };
        if (o) r = how == 0 ? o->d->cancel() : how == 1 ? o->d->cancelIf(Msg{0, key}) : o->d->cancelIf(pred); else r = how == 0 ? i0.d->cancel() : how == 1 ? i0.d->cancelIf(Msg{0, key}) : i0.d->cancelIf(pred);
        REQUIRE(r >= lo && r <= hi, "cancel reports " << r << ", " << lo << " were pending");
    }
    void run(uint64_t n) {
        LOG(c, "run " << n << " from " << now); in_run = true; end_tick = now + n - 1; uint64_t s = now; sched.run(n, true, false); in_run = false; now = s + n;
        for (auto& i : ins) {
            if (i->handled) { if (!i->pend.empty()) REQUIRE(i->pend.front().tick >= now, "in" << i->id << " did not receive " << i->pend.front().m.uid << " due " << i->pend.front().tick); }
            else while (!i->pend.empty() && i->pend.front().tick < now) { auto q = i->pend.front(); i->pend.erase(i->pend.begin()); i->has = true; i->last = q.m; i->last_tick = q.tick; ++delivered; }
            check_container(*i, false);
        }
        for (auto& e : evs) REQUIRE(e->due.empty() || *e->due.begin() >= now, "ev" << e->id << " did not fire");
    }
};
void In::onData(const Msg& m) { w->received(*this, &m); }
void In::onSig() { w->received(*this, nullptr); }
void Ev::fire() {
    uint64_t t = w->sched.getCurrentTick(); REQUIRE(due.count(t), "ev" << id << " fired at " << t); due.erase(t); w->now = t; w->phase = phase; w->firing = true; LOG(w->c, "tick " << t << ": ev" << id << " (phase " << phase << ")");
    for (auto& i : w->ins) for (unsigned k : i->consumers) if (k == id && i->handled && i->phase == phase && !i->pend.empty()) REQUIRE(i->pend.front().tick > t, "consumer ev" << id << " fired at " << t << " before the delivery to in" << i->id);
    for (auto& b : w->ev_before_ev) if (b.second == id) REQUIRE(!w->evs[b.first]->due.count(t), "consumer ev" << id << " fired at " << t << " before producer ev" << b.first);
    unsigned n = (unsigned)w->c.weighted({1, 4, 3, 1}); while (n-- && w->fuel) { --w->fuel; w->act(); }
    w->firing = false;
}
}

PROPERTY(port_delivery_model, 16000, 900000) {
    World w(c);
    auto root = w.cm.makeRoot(&w.rtn, "root"); w.clks.push_back(root);
    if (c.flip()) w.clks.push_back(w.cm.makeClock("clk", root, (uint32_t)c.range(1, 3), (uint32_t)c.range(1, 3)));
    w.cm.normalize(); w.rtn.setClock(root.get()); for (auto& k : w.clks) w.period.push_back(k->getPeriod());
    unsigned units = 1 + (unsigned)c.draw(2);
    for (unsigned u = 0; u < units; ++u) { w.uclk.push_back((unsigned)c.draw(w.clks.size() - 1)); w.nodes.emplace_back(new TreeNode(&w.rtn, "u" + std::to_string(u), "unit")); w.nodes.back()->setClock(w.clks[w.uclk[u]].get()); w.psets.emplace_back(new PortSet(w.nodes.back().get())); }
    w.nodes.emplace_back(new TreeNode(&w.rtn, "evs", "events")); w.nodes.back()->setClock(root.get()); w.esets.emplace_back(new EventSet(w.nodes.back().get()));
    unsigned ni = 1 + (unsigned)c.draw(4), no = 1 + (unsigned)c.draw(3), ne = 1 + (unsigned)c.draw(4); bool same = c.flip(); unsigned ph = (unsigned)c.draw(5);
    for (unsigned k = 0; k < ne; ++k) { auto e = std::make_unique<Ev>(); e->w = &w; e->id = k; e->phase = same ? ph : (unsigned)c.draw(5); e->producer = k % 2 == 0; e->e.reset(new PhasedUniqueEvent(w.esets[0].get(), "ev" + std::to_string(k), (SchedulingPhase)e->phase, SpartaHandler::from_member<Ev, &Ev::fire>(e.get(), "fire"))); LOG(c, "ev" << k << " phase " << e->phase); w.evs.push_back(std::move(e)); }
    for (unsigned k = 0; k < ni; ++k) {
        auto i = std::make_unique<In>(); i->w = &w; i->id = k; i->unit = (unsigned)c.draw(units - 1); i->delay = c.weighted({3, 2, 1, 1}); i->data = !c.chance(1, 4); i->handled = i->delay == 0 || !c.chance(1, 6); auto* ps = w.psets[i->unit].get(); std::string n = "in" + std::to_string(k);
        bool dph = c.chance(1, 3); i->phase = dph ? (i->delay ? (unsigned)SchedulingPhase::PortUpdate : (unsigned)SchedulingPhase::Tick) : same ? ph : (unsigned)c.draw(5);
        if (i->data) { if (dph) i->d.reset(new DataInPort<Msg>(ps, n, i->delay)); else i->d.reset(new DataInPort<Msg>(ps, n, (SchedulingPhase)i->phase, i->delay)); if (i->handled) i->d->registerConsumerHandler(SpartaHandler::from_member_1<In, Msg, &In::onData>(i.get(), "onData")); }
        else { if (dph) i->s.reset(new SignalInPort(ps, n, i->delay)); else i->s.reset(new SignalInPort(ps, n, (SchedulingPhase)i->phase, i->delay)); if (i->handled) i->s->registerConsumerHandler(SpartaHandler::from_member<In, &In::onSig>(i.get(), "onSig")); }
        if (i->handled && c.chance(1, 10)) REQUIRE_THROWS(i->ip()->registerConsumerHandler(SpartaHandler::from_member<In, &In::onSig>(i.get(), "onSig")), "second consumer handler");
        if (c.chance(1, 3) && ne > 1) { unsigned e = 1 + 2 * (unsigned)c.draw(ne / 2 - 1); i->consumers.push_back(e); i->ip()->registerConsumerEvent(*w.evs[e]->e); }
        if (c.chance(1, 4)) { i->exp.reset(c.flip() ? new ExportedPort(ps, "x" + n, i->p()) : new ExportedPort(ps, "x" + n, w.nodes[i->unit].get(), n)); }
        LOG(c, n << (i->data ? " data" : " signal") << " delay " << i->delay << " phase " << i->phase << " period " << w.per(i->unit) << (i->handled ? "" : " no handler"));
        w.ins.push_back(std::move(i));
    }
    for (unsigned k = 0; k < no; ++k) {
        auto o = std::make_unique<Out>(); o->id = k; o->unit = (unsigned)c.draw(units - 1); o->data = !c.chance(1, 4); o->presume = !c.chance(1, 4); auto* ps = w.psets[o->unit].get(); std::string n = "out" + std::to_string(k);
        if (o->data) o->d.reset(new DataOutPort<Msg>(ps, n, o->presume)); else o->s.reset(new SignalOutPort(ps, n, o->presume));
        if (c.chance(1, 5)) { o->cont = false; o->p()->setContinuing(false); }
        if (c.chance(1, 3)) { unsigned e = 2 * (unsigned)c.draw((ne - 1) / 2); o->producers.push_back(e); o->op()->registerProducingEvent(*w.evs[e]->e); }
        if (c.chance(1, 6)) { unsigned i = (unsigned)c.draw(ni - 1); o->inproducers.push_back(i); o->op()->registerProducingPort(*w.ins[i]->ip()); }
        if (c.chance(1, 4)) { o->exp.reset(c.flip() ? new ExportedPort(ps, "x" + n, o->p()) : new ExportedPort(ps, "x" + n, w.nodes[o->unit].get(), n)); }
        w.outs.push_back(std::move(o));
    }
    for (unsigned tries = 1 + (unsigned)c.draw(8); tries--;) {
        Out& o = *w.outs[c.draw(no - 1)]; In& i = *w.ins[c.draw(ni - 1)]; unsigned how = (unsigned)c.draw(3);
        bool dup = std::count(o.to.begin(), o.to.end(), i.id), mismatch = o.data != i.data; bool cyc = false; for (unsigned p : o.inproducers) if (p >= i.id) cyc = true; if (cyc) continue;
        auto f = [&] { if (how == 0) sparta::bind(o.p(), i.p()); else if (how == 1) sparta::bind(*i.p(), *o.p()); else if (how == 2) { if (o.exp) sparta::bind(o.exp.get(), i.exp ? (Port*)i.exp.get() : i.p()); else o.p()->bind(i.p()); } else { if (i.exp) i.exp->bind(o.exp ? (Port*)o.exp.get() : o.p()); else i.p()->bind(*o.p()); } };
        std::string what; bool th = sp::throws(f, what); LOG(c, "bind out" << o.id << " in" << i.id << " how " << how << (dup || mismatch ? " (refused)" : ""));
        REQUIRE(th == (dup || mismatch), "bind out" << o.id << " in" << i.id << ": " << (th ? what : "accepted") << (dup ? " twice" : mismatch ? " different types" : ""));
        if (th) continue;
        o.to.push_back(i.id); i.bound = true; i.cont = o.cont;
        if (!i.delay && o.presume) { for (unsigned p : o.producers) { if (w.evs[p]->phase == i.phase) w.ev_before_in.insert({p, i.id}); for (unsigned k : i.consumers) if (w.evs[p]->phase == w.evs[k]->phase) w.ev_before_ev.insert({p, k}); } for (unsigned p : o.inproducers) { if (w.ins[p]->phase == i.phase) w.in_before_in.insert({p, i.id}); } }
    }
    if (no > 1) { REQUIRE_THROWS(sparta::bind(w.outs[0]->p(), w.outs[1]->p()), "bound an out-port to an out-port"); } if (ni > 1) REQUIRE_THROWS(sparta::bind(w.ins[0]->p(), w.ins[1]->p()), "bound an in-port to an in-port");
    for (auto& i : w.ins) { REQUIRE_EQ(i->p()->isBound(), i->bound, "in" << i->id << " isBound"); if (i->exp && i->exp->getInternalPort()) { REQUIRE_EQ(i->exp->isBound(), i->bound, "exported isBound"); REQUIRE(i->exp->getInternalPort() == i->p(), "exported port found the wrong port"); } size_t n = 0; for (auto& o : w.outs) n += std::count(o->to.begin(), o->to.end(), i->id); REQUIRE_EQ(i->p()->getNumBoundPorts(), n, "bound ports of in" << i->id); if (i->bound) REQUIRE_THROWS(i->ip()->registerConsumerEvent(*w.evs[0]->e), "consumer registered after binding"); }
    for (auto& o : w.outs) { REQUIRE_EQ(o->p()->getNumBoundPorts(), o->to.size(), "bound ports of out" << o->id); for (unsigned t : o->to) REQUIRE(o->p()->isAlreadyBound(w.ins[t]->p()) && w.ins[t]->p()->isAlreadyBound(o->p()), "isAlreadyBound"); }
    for (unsigned k = (unsigned)c.draw(2); k--;) { In &a = *w.ins[c.draw(ni - 1)], &b = *w.ins[c.draw(ni - 1)]; if (a.id >= b.id) continue; if (a.phase != b.phase) REQUIRE_THROWS(a.ip()->precedes(*b.ip()), "precedence across phases"); else { a.ip()->precedes(*b.ip()); w.in_before_in.insert({a.id, b.id}); LOG(c, "in" << a.id << " precedes in" << b.id); } }
    w.rtn.enterConfiguring(); w.rtn.enterFinalized(); w.sched.finalize();
    w.fuel = (unsigned)c.urange(10, 70); unsigned steps = (unsigned)c.urange(2, 8);
    for (unsigned s = 0; s < steps; ++s) { for (unsigned k = 1 + (unsigned)c.draw(5); k--;) w.act(); if (c.chance(4, 5)) w.run(c.small(1, 14)); }
    w.fuel = 0;
    if (c.flip()) {   // an unbounded run delivers everything up to the last pending delivery or event that keeps the simulation going, and nothing after it
        bool any = false; uint64_t last = 0; for (auto& i : w.ins) if (i->cont) for (auto& q : i->pend) { any = true; last = std::max(last, q.tick); } for (auto& e : w.evs) for (uint64_t t : e->due) { any = true; last = std::max(last, t); }
        LOG(c, "unbounded run, last continuing " << (any ? std::to_string(last) : "none")); w.in_run = true; w.end_tick = ~0ull; w.sched.run(Scheduler::INDEFINITE, false, false); w.in_run = false;
        for (auto& i : w.ins) if (i->handled) for (auto& q : i->pend) REQUIRE(!any || q.tick > last, "in" << i->id << " did not receive " << q.m.uid << " due " << q.tick << " in an unbounded run; the last continuing one is due " << last);
        for (auto& e : w.evs) REQUIRE(e->due.empty(), "ev" << e->id << " did not fire in an unbounded run");
        if (any && !w.cancels) REQUIRE(w.now <= last, "something fired at " << w.now << " after the last continuing delivery at " << last);
        c.label("unbounded_runs");
    } else {
        uint64_t h = w.now; for (auto& i : w.ins) for (auto& q : i->pend) if (q.tick < w.now + 1000) h = std::max(h, q.tick + 1); if (h > w.now) w.run(h - w.now);
        for (auto& i : w.ins) for (auto& q : i->pend) REQUIRE(q.tick >= w.now, "undelivered");
    }
    c.label("delivered", w.delivered); c.label("zero_delay", w.zero); c.label("cancelled", w.cancels); c.label("signals_coalesced", w.coalesced); c.label("refused", w.refused); c.label("fan_out_sends", w.fanned); c.label("orderings", w.ev_before_in.size() + w.in_before_in.size() + w.ev_before_ev.size());
    c.nontrivial(w.delivered >= 4 && (w.zero || w.cancels || w.coalesced || w.fanned));
}

namespace {
// the name a bus matches ports by
std::string strip(std::string n, const std::string& dir) {
    if (n.rfind(dir + "_", 0) == 0) n = n.substr(dir.size() + 1);
    if (n.size() >= dir.size() + 1 && n.compare(n.size() - dir.size() - 1, std::string::npos, "_" + dir) == 0 && n.size() > dir.size() + 1) n = n.substr(0, n.size() - dir.size() - 1);
    n.erase(std::remove(n.begin(), n.end(), '_'), n.end()); return n;
}
struct BusRx { unsigned got = 0; uint64_t last = 0; void onData(const uint64_t& v) { ++got; last = v; } };
struct BusTx { std::function<void()> f; void fire() { f(); } };
}
PROPERTY(bus_binding, 6000, 300000) {
    Scheduler sched("s"); ClockManager cm(&sched); RootTreeNode rtn("top"); auto root = cm.makeRoot(&rtn, "root"); cm.normalize(); rtn.setClock(root.get());
    TreeNode a(&rtn, "a", "a"), b(&rtn, "b", "b"); BusSet sa(&a, "buses"), sb(&b, "buses"); Bus A(&sa, "bus", TreeNode::GROUP_NAME_NONE, TreeNode::GROUP_IDX_NONE, "bus"), B(&sb, "bus", TreeNode::GROUP_NAME_NONE, TreeNode::GROUP_IDX_NONE, "bus");
    std::vector<std::unique_ptr<Port>> keep; struct P { std::string name, key; bool in; unsigned side; DataInPort<uint64_t>* i = nullptr; DataOutPort<uint64_t>* o = nullptr; std::unique_ptr<BusRx> rx; }; std::vector<P> ps; TreeNode ev(&rtn, "ev", "ev"); EventSet es(&ev); BusTx tx; PhasedUniqueEvent te(&es, "tx", SchedulingPhase::Update, SpartaHandler::from_member<BusTx, &BusTx::fire>(&tx, "tx"));
    sp::Teardown td{rtn};
    static const std::vector<std::string> stems{"req", "ack", "data", "win", "about", "x_in_y", "out_z", "re_q", "credit_x", "inout"};
    auto name = [&](const std::string& stem, const std::string& dir) { switch (c.draw(3)) { case 0: return dir + "_" + stem; case 1: return stem + "_" + dir; case 2: return stem; default: return dir + "_" + stem + "_" + dir; } };
    auto add = [&](unsigned side, bool in, const std::string& n) { Bus& X = side ? B : A; for (auto& p : ps) if (p.side == side && p.name == n) return; P p; p.name = n; p.in = in; p.side = side; p.key = strip(n, in ? "in" : "out"); if (p.key.empty()) return;
        if (in) { auto* q = new DataInPort<uint64_t>(&X.getPortSet(), n, 1); keep.emplace_back(q); p.i = q; p.rx = std::make_unique<BusRx>(); q->registerConsumerHandler(SpartaHandler::from_member_1<BusRx, uint64_t, &BusRx::onData>(p.rx.get(), "rx")); } else { auto* q = new DataOutPort<uint64_t>(&X.getPortSet(), n); keep.emplace_back(q); p.o = q; }
        LOG(c, (side ? "B " : "A ") << (in ? "in " : "out ") << n); ps.push_back(std::move(p)); };
    for (unsigned k = 1 + (unsigned)c.draw(3); k--;) { std::string stem = c.pick(stems); bool d = c.flip(); add(0, d, name(stem, d ? "in" : "out")); add(1, !d, name(stem, d ? "out" : "in")); }
    if (c.chance(1, 4)) { bool d = c.flip(); add((unsigned)c.draw(1), d, name(c.pick(stems), d ? "in" : "out")); }
    std::map<std::string, P*> m[2][2]; bool ambiguous = false, unmatched = false;
    for (auto& p : ps) { auto& x = m[p.side][p.in]; if (x.count(p.key)) ambiguous = true; x[p.key] = &p; }
    for (auto& p : ps) if (!m[!p.side][!p.in].count(p.key)) unmatched = true;
    std::string what; bool th = sp::throws([&] { if (c.flip()) sparta::bind(A, B); else sparta::bind(&B, &A); }, what);
    REQUIRE(th == (ambiguous || unmatched), "bus bind " << (th ? "threw " + what : "accepted") << (ambiguous ? " ambiguous" : unmatched ? " unmatched" : ""));
    if (th) { for (auto& p : ps) { size_t n = p.in ? p.i->getNumBoundPorts() : p.o->getNumBoundPorts(); REQUIRE_EQ(n, 0u, "port " << p.name << " bound by a refused bus bind"); } c.label("refused"); rtn.enterConfiguring(); rtn.enterFinalized(); sched.finalize(); return; }
    rtn.enterConfiguring(); rtn.enterFinalized(); sched.finalize();
    for (auto& p : ps) { REQUIRE_EQ(p.in ? p.i->getNumBoundPorts() : p.o->getNumBoundPorts(), 1u, "bindings of " << p.name); }
    uint64_t v = 100; std::map<P*, uint64_t> want; tx.f = [&] { for (auto& p : ps) if (!p.in) { p.o->send(++v); want[m[!p.side][1][p.key]] = v; } }; te.schedule(Clock::Cycle(0)); sched.run(5, true, false);
    for (auto& p : ps) if (p.in) { REQUIRE_EQ(p.rx->got, 1u, "messages at " << p.name); REQUIRE_EQ(p.rx->last, want[&p], p.name << " is bound to the wrong out-port"); }
    c.label("bound"); c.nontrivial(ps.size() >= 2);
}
