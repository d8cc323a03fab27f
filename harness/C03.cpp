// C03: payload, unique, single-cycle-unique and global events against a reference queue of deliveries.
#include "sp.hpp"
#include "sparta/events/PayloadEvent.hpp"
#include "sparta/events/PhasedPayloadEvent.hpp"
#include "sparta/events/PhasedUniqueEvent.hpp"
#include "sparta/events/PhasedSingleCycleUniqueEvent.hpp"
#include "sparta/events/UniqueEvent.hpp"
#include "sparta/events/SingleCycleUniqueEvent.hpp"
#include "sparta/events/GlobalEvent.hpp"
using namespace sparta;

namespace {
// a payload whose copies are counted and that owns heap memory, so that a lost, doubled or early destruction shows
struct Pay {
    static long live; uint64_t uid; int key; std::unique_ptr<uint64_t> own;
    Pay(uint64_t u, int k) : uid(u), key(k), own(new uint64_t(u ^ 0x5aa5)) { ++live; }
    Pay(const Pay& o) : uid(o.uid), key(o.key), own(new uint64_t(*o.own)) { ++live; }
    Pay& operator=(const Pay&) = delete;
    ~Pay() { --live; uid = 0xdead; }
    bool operator==(const Pay& o) const { return key == o.key; }
};
long Pay::live = 0;

struct World;
enum Kind { PAYLOAD, UNIQUE, SINGLE, GLOBAL };
struct Ent { World* w = nullptr; unsigned id = 0; Kind kind = PAYLOAD; unsigned phase = 0, clk = 0; uint64_t delay = 0; std::string name;
    std::unique_ptr<PhasedPayloadEvent<Pay>> pe; std::unique_ptr<PhasedUniqueEvent> ue; std::unique_ptr<PhasedSingleCycleUniqueEvent> se; std::unique_ptr<GlobalEvent<>> ge;
    void onPay(const Pay& p); void onPlain();
    Scheduleable& s() { return kind == PAYLOAD ? pe->getScheduleable() : kind == UNIQUE ? ue->getScheduleable() : se->getScheduleable(); }
};
enum St { PREPARED, SCHEDULED, CANCELLED, FIRED };
struct MP { uint64_t uid; unsigned ent; int key; St st = PREPARED; uint64_t tick = 0; unsigned handles = 0; };
struct Pend { uint64_t tick, gid, seq; unsigned ent; uint64_t uid; bool operator<(const Pend& o) const { return std::tie(tick, gid, seq) < std::tie(o.tick, o.gid, o.seq); } };
struct Held { ScheduleableHandle h; uint64_t uid; };

struct World {
    pbt::Case& c; Scheduler sched; ClockManager cm; RootTreeNode rtn;
    std::vector<Clock::Handle> clks; std::vector<uint64_t> period; std::vector<std::unique_ptr<TreeNode>> nodes; std::vector<std::unique_ptr<EventSet>> sets;
    std::vector<std::unique_ptr<Ent>> ents;
    std::map<uint64_t, MP> pays; std::set<Pend> pend; uint64_t seq = 0, uids = 0; std::vector<Held> held;
    uint64_t now = 0, cur_gid = 0; bool firing = false, in_run = false; uint64_t cur_uid = 0; unsigned cur_ent = 0, fuel = 0; int cur_cancelled = 0;
    std::set<std::pair<unsigned, uint64_t>> fired_at; uint64_t global_gid = 0;
    std::set<unsigned> fired_group;     // entities that fired in the current tick and group
    uint64_t end_tick = 0; uint64_t delivered = 0, cancels = 0, handle_ops = 0, reused = 0, dup = 0;
    sp::Teardown td{rtn};
    World(pbt::Case& cc) : c(cc), sched("sched"), cm(&sched), rtn("top") {}

    uint64_t gid(unsigned e) { if (ents[e]->kind == GLOBAL) return global_gid; uint64_t g = ents[e]->s().getGroupID(); return g ? g : ~0ull; }
    bool inflight(const MP& p) { return p.st == SCHEDULED || p.handles > 0; }
    bool is_cur(const MP& p) { return firing && p.uid == cur_uid && ents[cur_ent]->kind == PAYLOAD; }
    void drop(uint64_t uid) { for (auto i = pend.begin(); i != pend.end();) if (i->uid == uid && ents[i->ent]->kind == PAYLOAD) i = pend.erase(i); else ++i; }
    void drop_ent(unsigned e) { for (auto i = pend.begin(); i != pend.end();) if (i->ent == e) i = pend.erase(i); else ++i; }
    void cancel_pay(MP& p) { if (p.st == SCHEDULED) { drop(p.uid); ++cancels; } p.st = CANCELLED; }
    // numbers of payloads an operation on those matching f may report: live ones at least, everything still held at most
    struct Cnt { uint64_t lo = 0, hi = 0; };
    template <class F> Cnt count(unsigned e, F f) { Cnt n; for (auto& kv : pays) { auto& p = kv.second; if (p.ent != e || !f(p)) continue; if (inflight(p)) { ++n.hi; if (p.st == SCHEDULED || p.st == PREPARED) ++n.lo; } else if (is_cur(p)) ++n.hi; } return n; }
    static std::string nm(uint64_t u) { return "p" + std::to_string(u); }

    void sched_pay(ScheduleableHandle& h, MP& p) {
        Ent& e = *ents[p.ent]; uint64_t d = c.small(0, 8), rel = 0; std::function<void()> f; unsigned how = (unsigned)c.weighted({5, 1, 2, 1});
        if (how == 0) { rel = d * period[e.clk]; f = [&] { h->schedule(d); }; }
        else if (how == 1) { rel = e.delay * period[e.clk]; f = [&] { h->schedule(); }; }
        else if (how == 2) { unsigned k = (unsigned)c.draw(clks.size() - 1); rel = d * period[k]; f = [&, k] { h->schedule(d, clks[k].get()); }; }
        else { rel = c.small(0, 20); f = [&] { h->scheduleRelativeTick(rel, &sched); }; }
        bool refuse = p.st == SCHEDULED || p.st == CANCELLED || (rel == 0 && firing && gid(p.ent) < cur_gid);
        std::string what; bool t = sp::throws(f, what);
        LOG(c, "  schedule " << nm(p.uid) << " +" << rel << (refuse ? " (refused)" : ""));
        REQUIRE(t == refuse, nm(p.uid) << " at +" << rel << ": " << (t ? "threw " + what : "accepted"));
        if (refuse) return;
        p.st = SCHEDULED; p.tick = now + rel; pend.insert({p.tick, gid(p.ent), seq++, p.ent, p.uid});
    }
    MP& prepare(unsigned e) { uint64_t u = ++uids; pays[u] = MP{u, e, (int)c.draw(3)}; return pays[u]; }
    void op_payload(unsigned e) {
        Ent& x = *ents[e]; auto all = [](const MP&) { return true; };
        switch (c.weighted({8, 3, 2, 2, 2, 2, 3, 1})) {
        case 0: { MP& p = prepare(e); LOG(c, "  prepare " << nm(p.uid) << " key " << p.key << " on ev" << e); auto h = x.pe->preparePayload(Pay(p.uid, p.key)); p.handles = 1; sched_pay(h, p); p.handles = 0; break; }
        case 1: { MP& p = prepare(e); LOG(c, "  prepare " << nm(p.uid) << " key " << p.key << " on ev" << e << " and hold it"); held.push_back({x.pe->preparePayload(Pay(p.uid, p.key)), p.uid}); p.handles = 1; ++handle_ops; break; }
        case 2: { LOG(c, "  cancel all of ev" << e); Cnt n = count(e, all); uint32_t r = x.pe->cancel(); for (auto& kv : pays) if (kv.second.ent == e && inflight(kv.second)) cancel_pay(kv.second); else if (kv.second.ent == e && is_cur(kv.second)) cancel_pay(kv.second);
            REQUIRE(r >= n.lo && r <= n.hi, "cancel() reports " << r << " cancelled, " << n.lo << " were pending (" << n.hi << " with held or firing ones)"); break; }
        case 3: { uint64_t d = c.small(0, 8), t = now + d * period[x.clk]; LOG(c, "  cancel ev" << e << " at +" << d); auto f = [&](const MP& p) { return p.st == SCHEDULED && p.tick == t; }; Cnt n = count(e, f); uint32_t r = x.pe->cancel(d); for (auto& kv : pays) if (kv.second.ent == e && f(kv.second)) cancel_pay(kv.second);
            REQUIRE(r >= n.lo && r <= n.lo + (firing && cur_ent == e && d == 0), "cancel(" << d << ") reports " << r << " cancelled, " << n.lo << " were due then"); break; }
        case 4: { int key = (int)c.draw(3); bool pred = c.flip(); LOG(c, "  cancelIf key " << key << " on ev" << e); auto f = [&](const MP& p) { return p.key == key; }; Cnt n = count(e, f);
            uint32_t r = pred ? x.pe->cancelIf([&](const Pay& q) { REQUIRE(*q.own == (q.uid ^ 0x5aa5), "payload damaged"); return q.key == key; }) : x.pe->cancelIf(Pay(0, key));
            for (auto& kv : pays) if (kv.second.ent == e && f(kv.second) && (inflight(kv.second) || is_cur(kv.second))) cancel_pay(kv.second);
            REQUIRE(r >= n.lo && r <= n.hi, "cancelIf reports " << r << " cancelled, " << n.lo << ".." << n.hi << " matched"); break; }
        case 5: { int key = (int)c.draw(3); bool pred = c.flip(); auto f = [&](const MP& p) { return p.key == key; }; Cnt n = count(e, f);
            auto v = pred ? x.pe->getHandleIf([&](const Pay& q) { return q.key == key; }) : x.pe->getHandleIf(Pay(0, key));
            bool r = pred ? x.pe->confirmIf([&](const Pay& q) { return q.key == key; }) : x.pe->confirmIf(Pay(0, key));
            REQUIRE(v.size() >= n.lo && v.size() <= n.hi, "getHandleIf returned " << v.size() << ", " << n.lo << ".." << n.hi << " match");
            REQUIRE(r == (v.size() > 0), "confirmIf says " << r << " with " << v.size() << " handles");
            std::set<Scheduleable*> sv(v.begin(), v.end()); REQUIRE_EQ(sv.size(), v.size(), "getHandleIf returned a handle twice");
            for (auto& hd : held) if (pays[hd.uid].ent == e && pays[hd.uid].key == key) REQUIRE(sv.count(hd.h.operator->()), "the held handle of " << nm(hd.uid) << " is missing from getHandleIf");
            break; }
        case 6: { Cnt n = count(e, all); uint32_t r = x.pe->getNumOutstandingEvents(); REQUIRE(r >= n.lo && r <= n.hi, "outstanding " << r << ", expected " << n.lo << ".." << n.hi);
            if (n.lo || !n.hi) REQUIRE_EQ(x.pe->isScheduled(), n.lo > 0, "isScheduled of ev" << e);
            uint64_t d = c.small(0, 8), t = now + d * period[x.clk]; bool m = false; for (auto& kv : pays) if (kv.second.ent == e && kv.second.st == SCHEDULED && kv.second.tick == t) m = true;
            if (m || !(firing && cur_ent == e && d == 0)) REQUIRE_EQ(x.pe->isScheduled(d), m, "ev" << e << " isScheduled(" << d << ") at " << now); break; }
        default: { unsigned k = (unsigned)c.small(5, 60); LOG(c, "  burst of " << k << " on ev" << e); for (unsigned i = 0; i < k; ++i) { MP& p = prepare(e); auto h = x.pe->preparePayload(Pay(p.uid, p.key)); uint64_t d = 1 + c.draw(3); h->schedule(d); p.st = SCHEDULED; p.tick = now + d * period[x.clk]; pend.insert({p.tick, gid(e), seq++, e, p.uid}); } break; }
        }
    }
    void op_handle() {
        if (held.empty()) return;
        size_t i = (size_t)c.draw(held.size() - 1); uint64_t u = held[i].uid; MP& p = pays[u]; ++handle_ops;
        switch (c.weighted({5, 2, 2, 2, 2, 2, 1, 1})) {
        case 0: sched_pay(held[i].h, p); break;
        case 1: LOG(c, "  copy handle of " << nm(u)); held.push_back({held[i].h, u}); p.handles++; break;
        case 2: { LOG(c, "  move handle of " << nm(u)); ScheduleableHandle m(std::move(held[i].h)); held[i].h = m; break; }
        case 3: LOG(c, "  drop handle of " << nm(u)); held.erase(held.begin() + i); p.handles--; break;
        case 4: { LOG(c, "  cancel by handle of " << nm(u)); held[i].h->cancel(); cancel_pay(p); break; }
        case 5: { size_t j = (size_t)c.draw(held.size() - 1); uint64_t o = held[j].uid; LOG(c, "  assign handle of " << nm(o) << " over one of " << nm(u)); held[i].h = held[j].h; pays[o].handles++; p.handles--; held[i].uid = o; break; }
        case 6: { uint64_t d = c.small(0, 8); LOG(c, "  cancel by handle of " << nm(u) << " at +" << d); held[i].h->cancel(d); if (p.st == SCHEDULED && p.tick == now + d * period[ents[p.ent]->clk]) cancel_pay(p); break; }
        default: { bool m = p.st == SCHEDULED; if (m || !(is_cur(p) || false)) REQUIRE_EQ(held[i].h->isScheduled(), m, "handle of " << nm(u) << " isScheduled"); break; }
        }
    }
    void op_unique(unsigned e) {
        Ent& x = *ents[e]; uint64_t d = c.small(0, 6);
        switch (c.weighted({7, 1, 2, 2})) {
        case 0: {
            uint64_t rel = d * period[x.clk], t = now + rel; bool again = fired_at.count({e, t}) > 0; bool refuse = again || (rel == 0 && firing && gid(e) < cur_gid);
            std::string what; bool th = sp::throws([&] { x.ue->schedule(d); }, what); LOG(c, "  schedule unique ev" << e << " +" << rel << (refuse ? " (refused)" : ""));
            REQUIRE(th == refuse, "unique ev" << e << " at +" << rel << " from " << now << ": " << (th ? "threw " + what : "accepted"));
            if (refuse) return;
            for (auto& p : pend) if (p.ent == e && p.tick == t) { ++dup; return; }
            pend.insert({t, gid(e), seq++, e, 0}); break; }
        case 1: LOG(c, "  cancel unique ev" << e); x.ue->cancel(); drop_ent(e); ++cancels; break;
        case 2: { LOG(c, "  cancel unique ev" << e << " at +" << d); x.ue->cancel(d); for (auto i = pend.begin(); i != pend.end();) if (i->ent == e && i->tick == now + d * period[x.clk]) { i = pend.erase(i); ++cancels; } else ++i; break; }
        default: { bool m = false; for (auto& p : pend) if (p.ent == e && p.tick == now + d * period[x.clk]) m = true; if (m || !(d == 0 && firing && cur_ent == e)) REQUIRE_EQ(x.ue->isScheduled(d), m, "unique ev" << e << " isScheduled(" << d << ")"); break; }
        }
    }
    void op_single(unsigned e) {
        Ent& x = *ents[e];
        switch (c.weighted({8, 2, 2, 1})) {
        case 0: {
            if (now % period[x.clk]) return;      // its cycles are those of its clock: only used on that clock's edges
            uint64_t d = c.draw(1), rel = d * period[x.clk], t = now + rel; bool again = fired_at.count({e, t}) > 0;
            bool have = again; for (auto& p : pend) if (p.ent == e && p.tick == t) have = true;
            bool refuse = !have && rel == 0 && firing && gid(e) < cur_gid;
            std::string what; bool th = sp::throws([&] { x.se->schedule(d); }, what); LOG(c, "  schedule single ev" << e << " +" << rel << (refuse ? " (refused)" : have ? " (already)" : ""));
            REQUIRE(th == refuse, "single-cycle ev" << e << " at +" << rel << " from " << now << ": " << (th ? "threw " + what : "accepted"));
            if (refuse) return;
            if (have) { ++dup; return; }
            pend.insert({t, gid(e), seq++, e, 0}); break; }
        case 1: LOG(c, "  cancel single ev" << e); x.se->cancel(); drop_ent(e); ++cancels; break;
        case 2: { bool m = false; for (auto& p : pend) if (p.ent == e) m = true; if (m || !(firing && cur_ent == e)) REQUIRE_EQ(x.se->isScheduled(), m, "single-cycle ev" << e << " isScheduled"); break; }
        default: REQUIRE_THROWS(x.se->schedule(2 + c.draw(3)), "single-cycle event scheduled beyond the next cycle"); break;
        }
    }
    void op_global(unsigned e) {
        Ent& x = *ents[e]; if (!x.ge) return;
        if (c.chance(1, 12)) { LOG(c, "  destroy global ev" << e); x.ge.reset(); drop_ent(e); return; }
        uint64_t d = c.small(0, 6); unsigned k = x.clk; std::function<void()> f;
        if (c.flip()) { k = (unsigned)c.draw(clks.size() - 1); f = [&, k] { x.ge->schedule(d, clks[k].get()); }; } else f = [&] { x.ge->schedule(d); };
        uint64_t rel = d * period[k]; if (rel == 0 && firing && global_gid < cur_gid) return;
        LOG(c, "  schedule global ev" << e << " +" << rel);
        f(); pend.insert({now + rel, global_gid, seq++, e, 0});
    }
    void act() {
        unsigned e = (unsigned)c.draw(ents.size() - 1);
        if (c.chance(1, 4)) { op_handle(); return; }
        switch (ents[e]->kind) { case PAYLOAD: op_payload(e); break; case UNIQUE: op_unique(e); break; case SINGLE: op_single(e); break; default: op_global(e); }
    }
    void fire(unsigned e, const Pay* p) {
        uint64_t t = sched.getCurrentTick(); ++delivered; LOG(c, "tick " << t << ": ev" << e << " fires " << (p ? nm(p->uid) : ""));
        REQUIRE(in_run && t <= end_tick && t >= now, "ev" << e << " fired at " << t << " (now " << now << ", window end " << end_tick << ")");
        REQUIRE(!pend.empty(), "ev" << e << (p ? " delivered " + nm(p->uid) : "") << " at " << t << " but nothing is due");
        Pend q = *pend.begin();
        REQUIRE(q.ent == e && q.tick == t, "ev" << e << " fired at " << t << " but next due is ev" << q.ent << " at " << q.tick);
        if (p) { REQUIRE_EQ(p->uid, q.uid, "ev" << e << " delivered the wrong payload"); REQUIRE(*p->own == (p->uid ^ 0x5aa5) && p->key == pays[p->uid].key, "payload " << nm(p->uid) << " damaged"); pays[p->uid].st = FIRED; cur_uid = p->uid; }
        if (t != now || q.gid != cur_gid) fired_group.clear();
        pend.erase(pend.begin()); now = t; cur_gid = q.gid; cur_ent = e; firing = true; fired_group.insert(e);
        if (ents[e]->kind == UNIQUE || ents[e]->kind == SINGLE) REQUIRE(fired_at.insert({e, t}).second, "unique ev" << e << " fired twice at " << t);
        unsigned n = (unsigned)c.weighted({3, 4, 3, 2}); while (n-- && fuel) { --fuel; act(); if (p) REQUIRE(p->uid == cur_uid && *p->own == (cur_uid ^ 0x5aa5), "payload " << nm(cur_uid) << " changed while its handler runs"); }
        firing = false;
    }
    void run(uint64_t n) {
        LOG(c, "run " << n << " from " << now); in_run = true; end_tick = now + n - 1; uint64_t s = now;
        sched.run(n, true, false); in_run = false; cur_gid = 0; fired_group.clear(); now = s + n;
        REQUIRE_EQ(sched.getCurrentTick(), now, "tick after run");
        REQUIRE(pend.empty() || pend.begin()->tick >= now, "ev" << pend.begin()->ent << " due at " << pend.begin()->tick << " did not fire");
    }
};
void Ent::onPay(const Pay& p) { w->fire(id, &p); }
void Ent::onPlain() { w->fire(id, nullptr); }
}

PROPERTY(event_kinds_model, 40000, 1200000) {
    long live0 = Pay::live; uint64_t delivered, cancels, hops, dup;
    {
        World w(c);
        auto root = w.cm.makeRoot(&w.rtn, "root"); w.clks.push_back(root);
        if (c.flip()) w.clks.push_back(w.cm.makeClock("clk", root, (uint32_t)c.range(1, 3), (uint32_t)c.range(1, 3)));
        w.cm.normalize(); w.rtn.setClock(root.get()); for (auto& k : w.clks) w.period.push_back(k->getPeriod());
        for (size_t i = 0; i < w.clks.size(); ++i) { w.nodes.emplace_back(new TreeNode(&w.rtn, "n" + std::to_string(i), "node")); w.nodes.back()->setClock(w.clks[i].get()); w.sets.emplace_back(new EventSet(w.nodes.back().get())); }
        unsigned n = 1 + (unsigned)c.draw(4), ph = (unsigned)c.draw(6); bool same = c.flip();
        for (unsigned i = 0; i < n; ++i) {
            auto e = std::make_unique<Ent>(); e->w = &w; e->id = i; e->kind = (Kind)c.weighted({6, 2, 2, 1}); e->phase = e->kind == GLOBAL ? 1 : same ? ph : (unsigned)c.draw(6); e->clk = (unsigned)c.draw(w.clks.size() - 1); e->delay = c.draw(3); e->name = "ev" + std::to_string(i);
            auto* es = w.sets[e->clk].get(); auto P = (SchedulingPhase)e->phase;
            LOG(c, "ev" << i << ": kind " << e->kind << " phase " << e->phase << " period " << w.period[e->clk]);
            if (e->kind == PAYLOAD) e->pe.reset(new PhasedPayloadEvent<Pay>(es, e->name, P, SpartaHandler::from_member_1<Ent, Pay, &Ent::onPay>(e.get(), "onPay"), e->delay));
            else if (e->kind == UNIQUE) e->ue.reset(new PhasedUniqueEvent(es, e->name, P, SpartaHandler::from_member<Ent, &Ent::onPlain>(e.get(), "onPlain"), e->delay));
            else if (e->kind == SINGLE) e->se.reset(new PhasedSingleCycleUniqueEvent(es, e->name, P, SpartaHandler::from_member<Ent, &Ent::onPlain>(e.get(), "onPlain")));
            w.ents.push_back(std::move(e));
        }
        w.rtn.enterConfiguring(); w.rtn.enterFinalized(); w.sched.finalize();
        for (auto& e : w.ents) if (e->kind == GLOBAL) { e->ge.reset(new GlobalEvent<>(w.clks[e->clk].get(), SpartaHandler::from_member<Ent, &Ent::onPlain>(e.get(), "onPlain"))); w.global_gid = w.sched.getGlobalPhasedPayloadEventPtr<SchedulingPhase::Update>()->getScheduleable().getGroupID(); }
        w.fuel = (unsigned)c.urange(10, 70); unsigned steps = (unsigned)c.urange(2, 10);
        for (unsigned s = 0; s < steps; ++s) {
            for (unsigned k = 1 + (unsigned)c.draw(5); k--;) w.act();
            if (c.chance(3, 4)) w.run(c.small(1, 14));
            if (c.chance(1, 20)) { LOG(c, "clearEvents"); w.sched.clearEvents(); w.pend.clear(); for (auto& kv : w.pays) if (kv.second.st == SCHEDULED) kv.second.st = CANCELLED; w.run(40); }
        }
        w.fuel = 0; if (!w.pend.empty()) w.run(w.pend.rbegin()->tick - w.now + 1);
        REQUIRE(w.pend.empty(), "undelivered at the end");
        w.held.clear(); for (auto& kv : w.pays) kv.second.handles = 0;
        for (auto& e : w.ents) if (e->pe) REQUIRE_EQ(e->pe->getNumOutstandingEvents(), 0u, "outstanding payloads of ev" << e->id << " at the end");
        REQUIRE_EQ(Pay::live, live0, "payload objects alive after all were delivered or cancelled");
        delivered = w.delivered; cancels = w.cancels; hops = w.handle_ops; dup = w.dup;
    }
    REQUIRE_EQ(Pay::live, live0, "payload objects leaked");
    c.label("delivered", delivered); c.label("cancelled", cancels); c.label("handle_ops", hops); c.label("duplicate_unique_schedules", dup);
    c.nontrivial(delivered >= 4 && (cancels || hops || dup));
}
