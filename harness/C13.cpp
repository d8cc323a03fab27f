// C13: a scoreboard and its views against a model that keeps, per view, the ready registers, the updates
// still travelling and the registered callbacks in order.
#include "sp.hpp"
#include "sparta/resources/Scoreboard.hpp"
#include "sparta/events/PayloadEvent.hpp"
#include "sparta/simulation/ResourceTreeNode.hpp"
#include "sparta/simulation/ResourceFactory.hpp"
#include <list>
#include <set>
#include <memory>
using namespace sparta;
using Mask = Scoreboard::RegisterBitMask;

namespace {
struct Script { int kind = 0; size_t view = 0; std::vector<int> regs; int inst = 0; int cbid = -1; };   // 1 setReady, 2 register, 3 clearCallbacks
struct CbSpec { std::vector<int> regs; int inst = 0; Script act; };
struct Rec { uint64_t cyc; size_t view; int cb; std::string bits;
    bool operator==(const Rec& o) const { return cyc == o.cyc && view == o.view && cb == o.cb && bits == o.bits; }
    std::string str() const { return "cycle " + std::to_string(cyc) + " view " + std::to_string(view) + " callback " + std::to_string(cb) + " bits " + bits; } };

Mask mk(const std::vector<int>& r) { Mask m; for (int x : r) m.set(x); return m; }
std::string show(const Mask& m) { std::string s; for (size_t i = 0; i < m.size(); ++i) if (m[i]) s += (s.empty() ? "" : " ") + std::to_string(i); return s; }

struct MView {
    size_t sb; uint32_t unit; Mask ready;
    struct Cb { int id; Mask need; int inst; bool firing = false; };
    std::list<Cb> cbs;
};
struct MUpd { uint64_t due; size_t view; Mask bits; };
struct MSb { std::vector<std::vector<int64_t>> lat; Mask global{0xffffffff}; std::vector<size_t> views; };

struct World {
    pbt::Case& c;
    Scheduler sched; ClockManager cm{&sched}; Clock::Handle root;
    RootTreeNode rtn;
    std::vector<std::unique_ptr<TreeNode>> nodes;
    std::unique_ptr<ResourceFactory<Scoreboard, Scoreboard::ScoreboardParameters>> fact;
    std::vector<std::unique_ptr<ResourceTreeNode>> sbn;
    std::vector<Scoreboard*> sbs;
    std::vector<MSb> msb;
    std::vector<std::unique_ptr<ScoreboardView>> views;
    std::vector<MView> mv;
    std::list<MUpd> inflight;
    std::vector<CbSpec> cbs;
    std::vector<Rec> rlog, mlog;
    std::vector<int> regs;
    uint64_t cyc = 0; uint64_t fires = 0, clears = 0, delayed = 0;
    std::unique_ptr<EventSet> es;
    std::unique_ptr<PayloadEvent<int, SchedulingPhase::Trigger>> early;
    std::unique_ptr<PayloadEvent<int, SchedulingPhase::Tick>> late;
    int left = 0; uint64_t next_late = 0;
    sp::Teardown td{rtn};

    World(pbt::Case& cc) : c(cc) {}

    std::vector<int> pickRegs(size_t lo = 1, size_t hi = 3) {
        std::vector<int> r; const size_t n = c.range(lo, hi);
        for (size_t i = 0; i < n; ++i) r.push_back(regs[c.range(0, regs.size() - 1)]);
        std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end());
        return r;
    }
    // ---- model
    void mReceive(size_t v, const Mask& bits) {
        auto& V = mv[v]; V.ready |= bits;
        for (auto it = V.cbs.begin(); it != V.cbs.end();) {
            if (!it->firing && (it->need & V.ready) == it->need) {
                it->firing = true;
                mlog.push_back({cyc, v, it->id, show(bits)});
                const Script a = cbs[it->id].act;
                if (a.kind == 1) mSetReady(a.view, mk(a.regs));
                else if (a.kind == 2) mv[a.view].cbs.push_back({a.cbid, mk(cbs[a.cbid].regs), cbs[a.cbid].inst});
                else if (a.kind == 3) mClearCb(a.view, a.inst);
                it = V.cbs.erase(it);
            } else ++it;
        }
    }
    void mClearCb(size_t v, int inst) {
        auto& l = mv[v].cbs;
        for (auto it = l.begin(); it != l.end();) if (it->inst == inst && !it->firing) it = l.erase(it); else ++it;
    }
    void mSetReady(size_t v, const Mask& bits) {
        if (bits.none()) return;
        mSetFrom(mv[v].sb, mv[v].unit, bits);
    }
    void mSetFrom(size_t s, uint32_t unit, const Mask& bits) {
        // views are served in the order they were created
        for (size_t w : msb[s].views) {
            const int64_t l = msb[s].lat[unit][mv[w].unit];
            if (l < 0) continue;
            if (l == 0) mReceive(w, bits); else { inflight.push_back({cyc + uint64_t(l), w, bits}); ++delayed; }
        }
        msb[s].global |= bits;
    }
    void mDeliver() {           // the Update phase of cycle cyc
        for (auto it = inflight.begin(); it != inflight.end();) {
            if (it->due == cyc) { const MUpd u = *it; it = inflight.erase(it); if (u.bits.any()) mReceive(u.view, u.bits); }
            else ++it;
        }
    }
    // ---- real
    void rRegister(size_t v, int id) {
        views[v]->registerReadyCallback(mk(cbs[id].regs), cbs[id].inst, [this, v, id](const Mask& bits) {
            rlog.push_back({sbs[0]->getClock()->currentCycle(), v, id, show(bits)});
            const Script a = cbs[id].act;
            if (a.kind == 1) views[a.view]->setReady(mk(a.regs));
            else if (a.kind == 2) rRegister(a.view, a.cbid);
            else if (a.kind == 3) views[a.view]->clearCallbacks(a.inst);
        });
    }
    // ---- checks
    void check(const char* at) {
        for (size_t i = 0; i < std::min(rlog.size(), mlog.size()); ++i)
            REQUIRE(rlog[i] == mlog[i], std::string(at) + ": callback " + std::to_string(i) + ": fired " + rlog[i].str() + ", expected " + mlog[i].str());
        REQUIRE(rlog.size() <= mlog.size(), std::string(at) + ": unexpected " + rlog.back().str());
        REQUIRE(rlog.size() >= mlog.size(), std::string(at) + ": never fired " + (rlog.size() < mlog.size() ? mlog[rlog.size()].str() : ""));
        for (size_t v = 0; v < views.size(); ++v)
            for (int r : regs)
                REQUIRE_EQ(views[v]->isSet(mk({r})), bool(mv[v].ready[r]), std::string(at) + ": view " + std::to_string(v) + " register " + std::to_string(r));
        for (size_t s = 0; s < sbs.size(); ++s)
            for (int r : regs) REQUIRE_EQ(sbs[s]->isSet(mk({r})), bool(msb[s].global[r]), std::string(at) + ": scoreboard register " + std::to_string(r));
        if (!views.empty()) {
            const auto rs = pickRegs(0, 4); const size_t v = c.range(0, views.size() - 1);
            REQUIRE_EQ(views[v]->isSet(mk(rs)), (mk(rs) & mv[v].ready) == mk(rs), "isSet of a set");
        }
    }
    void addView() {
        const size_t s = c.range(0, sbs.size() - 1); const uint32_t u = c.range(0, msb[s].lat.size() - 1);
        LOG(c, "view " << views.size() << " of unit " << u << " on scoreboard " << s);
        if (msb[s].global.none()) c.label("view of an empty scoreboard");
        views.emplace_back(new ScoreboardView("u" + std::to_string(u), "sb" + std::to_string(s), &rtn));
        REQUIRE_EQ(views.back()->getName(), "u" + std::to_string(u), "name"); REQUIRE_EQ(views.back()->getType(), "sb" + std::to_string(s), "type");
        mv.push_back({s, u, msb[s].global, {}}); msb[s].views.push_back(views.size() - 1);
    }
    int newCb(bool nested) {
        CbSpec k; k.regs = pickRegs(); k.inst = c.range(0, 3);
        k.act.kind = nested || views.empty() ? 0 : int(c.weighted({60, 15, 12, 13}));
        k.act.view = c.range(0, views.size() - 1);
        if (k.act.kind == 1) k.act.regs = pickRegs();
        if (k.act.kind == 3) k.act.inst = c.flip() ? k.inst : int(c.range(0, 3));
        if (k.act.kind == 2) k.act.cbid = newCb(true);
        if (k.act.kind) c.label("acting callback");
        cbs.push_back(k); return int(cbs.size() - 1);
    }
    void op() {
        const size_t k = c.weighted({24, 10, 14, 24, 8, 6, 4});
        if (views.empty() && (k == 0 || k == 3 || k == 4)) return;
        if (k == 0) { const size_t v = c.range(0, views.size() - 1); const auto r = pickRegs(0, 3); LOG(c, "cycle " << cyc << " view " << v << " setReady " << show(mk(r))); views[v]->setReady(mk(r)); mSetReady(v, mk(r)); }
        else if (k == 1) { const size_t s = c.range(0, sbs.size() - 1); const auto r = pickRegs(); LOG(c, "cycle " << cyc << " set " << show(mk(r)) << " on scoreboard " << s);
            sbs[s]->set(mk(r));
            for (uint32_t u = 0; u < msb[s].lat.size(); ++u) for (size_t w : msb[s].views) if (mv[w].unit == u) mReceive(w, mk(r));
            msb[s].global |= mk(r); }
        else if (k == 2) { const size_t s = c.range(0, sbs.size() - 1); auto r = pickRegs(); Mask m = mk(r); if (c.chance(1, 12)) m.set(); LOG(c, "cycle " << cyc << " clear " << (m.all() ? std::string("all") : show(m)) << " on scoreboard " << s);
            sbs[s]->clearBits(m); ++clears;
            msb[s].global &= ~m; for (size_t w : msb[s].views) mv[w].ready &= ~m;
            for (auto& u : inflight) if (mv[u.view].sb == s) { if ((u.bits & m).any()) c.label("register cleared while its update travels"); u.bits &= ~m; } }
        else if (k == 3) { const size_t v = c.range(0, views.size() - 1); const int id = newCb(false); LOG(c, "cycle " << cyc << " view " << v << " callback " << id << " on " << show(mk(cbs[id].regs)) << " inst " << cbs[id].inst << " action " << cbs[id].act.kind << " view " << cbs[id].act.view << " " << show(mk(cbs[id].act.regs)));
            rRegister(v, id); mv[v].cbs.push_back({id, mk(cbs[id].regs), cbs[id].inst}); }
        else if (k == 4) { const size_t v = c.range(0, views.size() - 1); const int inst = c.range(0, 3); LOG(c, "cycle " << cyc << " view " << v << " clearCallbacks " << inst); views[v]->clearCallbacks(inst); mClearCb(v, inst); }
        else if (k == 5) { const size_t s = c.range(0, sbs.size() - 1); const uint32_t u = c.range(0, msb[s].lat.size() - 1); const auto r = pickRegs(); LOG(c, "cycle " << cyc << " set " << show(mk(r)) << " from unit " << u); sbs[s]->set(mk(r), u); mSetFrom(s, u, mk(r)); }
        else addView();
    }
    void step(bool is_late) {
        if (is_late) mDeliver();
        check(is_late ? "after the updates" : "before the updates");
        const int n = c.small(0, 3);
        for (int i = 0; i < n; ++i) { op(); check("after an operation"); }
    }
    void onEarly(const int&) {
        const uint64_t now = es->getClock()->currentCycle();
        while (cyc < now) { ++cyc; if (cyc < now) mDeliver(); }
        step(false);
    }
    void onLate(const int&) {
        step(true);
        if (--left > 0) { early->preparePayload(0)->schedule(Clock::Cycle(1)); late->preparePayload(0)->schedule(Clock::Cycle(1)); }
    }
    void run() {
        root = cm.makeRoot(&rtn, "root_clk");
        const uint32_t ratio = c.range(1, 3);
        auto clk = cm.makeClock("sbclk", root, ratio, 1);
        cm.normalize(); rtn.setClock(clk.get());
        const size_t nr = c.range(2, 8);
        for (size_t i = 0; i < nr; ++i) regs.push_back(c.pickl({int(c.range(0, 31)), int(c.range(32, 511)), 31, 32, 511, 63, 64}));
        std::sort(regs.begin(), regs.end()); regs.erase(std::unique(regs.begin(), regs.end()), regs.end());
        fact.reset(new ResourceFactory<Scoreboard, Scoreboard::ScoreboardParameters>());
        const size_t ns = c.range(1, 2);
        for (size_t s = 0; s < ns; ++s) {
            TreeNode* parent = &rtn;
            for (int d = c.small(0, 2); d > 0; --d) { nodes.emplace_back(new TreeNode(parent, "core" + std::to_string(nodes.size()), "a node")); parent = nodes.back().get(); }
            sbn.emplace_back(new ResourceTreeNode(parent, "sb" + std::to_string(s), TreeNode::GROUP_NAME_NONE, TreeNode::GROUP_IDX_NONE, "scoreboard", fact.get()));
            auto* p = dynamic_cast<Scoreboard::ScoreboardParameters*>(sbn.back()->getParameterSet());
            MSb m; const size_t nu = c.range(1, 4);
            std::vector<std::vector<std::string>> tab; tab.push_back({""});
            for (size_t u = 0; u < nu; ++u) tab[0].push_back("u" + std::to_string(u));
            for (size_t u = 0; u < nu; ++u) {
                tab.push_back({"u" + std::to_string(u)}); m.lat.emplace_back();
                for (size_t w = 0; w < nu; ++w) {
                    const int64_t l = c.weighted({3, 6, 1}) == 2 ? -1 : int64_t(c.small(0, 6)); m.lat.back().push_back(l);
                    std::string t = std::to_string(l); if (l >= 0 && c.chance(1, 8)) { t = "0x" + t; c.label("hexadecimal latency"); }
                    tab.back().push_back(t);
                }
            }
            std::string s1; for (auto& r : tab) { for (auto& x : r) s1 += x + " "; s1 += "/ "; } LOG(c, "scoreboard " << s << ": " << s1);
            p->latency_matrix = tab; msb.push_back(m);
        }
        nodes.emplace_back(new TreeNode(&rtn, "driver", "a node"));
        es.reset(new EventSet(nodes.back().get()));
        early.reset(new PayloadEvent<int, SchedulingPhase::Trigger>(es.get(), "early", CREATE_SPARTA_HANDLER_WITH_DATA(World, onEarly, int)));
        late.reset(new PayloadEvent<int, SchedulingPhase::Tick>(es.get(), "late", CREATE_SPARTA_HANDLER_WITH_DATA(World, onLate, int)));
        rtn.enterConfiguring(); rtn.enterFinalized();
        for (auto& n : sbn) sbs.push_back(n->getResourceAs<Scoreboard*>());
        sched.finalize();
        const int nv = c.small(0, 4); for (int i = 0; i < nv; ++i) addView();
        left = c.range(3, 30);
        early->preparePayload(0)->schedule(Clock::Cycle(1)); late->preparePayload(0)->schedule(Clock::Cycle(1));
        sched.run(Scheduler::INDEFINITE, false, false);
        // whatever was still travelling has arrived now
        const uint64_t end = cyc + 100;
        std::vector<Rec> tail; while (!inflight.empty() && cyc < end) { ++cyc; mDeliver(); }
        check("at the end");
        fires = rlog.size();
        c.nontrivial(fires >= 2 && (clears || delayed) && views.size() >= 2);
    }
};

// printed masks read back as the same set
void print_bits(pbt::Case& c) {
    Mask m; const int n = c.small(0, 6);
    for (int i = 0; i < n; ++i) { const int a = c.pickl({int(c.range(0, 511)), 0, 511, 510, 63}); const int len = c.small(1, 6); for (int k = a; k < std::min(512, a + len); ++k) m.set(k); }
    if (c.chance(1, 30)) m.set();
    const std::string s = printBitSet(m); LOG(c, "set " << show(m) << " prints " << s);
    REQUIRE(s.size() >= 2 && s.front() == '[' && s.back() == ']', "brackets: " + s);
    Mask r; std::stringstream ss(s.substr(1, s.size() - 2)); std::string t;
    while (std::getline(ss, t, ',')) { const auto d = t.find('-'); const int a = std::stoi(t), b = d == std::string::npos ? a : std::stoi(t.substr(d + 1)); REQUIRE(a <= b && b < 512, "range " + t); for (int k = a; k <= b; ++k) { REQUIRE(!r[k], "printed twice"); r.set(k); } }
    REQUIRE(r == m, "printed " + s + " for " + show(m));
    c.nontrivial(m.count() >= 3);
}

// the latency table is accepted exactly when it is square, its names agree and its entries are integers
void table_check(pbt::Case& c) {
    Scheduler sched; ClockManager cm(&sched); RootTreeNode rtn; auto root = cm.makeRoot(&rtn, "root_clk"); cm.normalize(); rtn.setClock(root.get());
    ResourceFactory<Scoreboard, Scoreboard::ScoreboardParameters> fact;
    ResourceTreeNode n(&rtn, "sb", TreeNode::GROUP_NAME_NONE, TreeNode::GROUP_IDX_NONE, "scoreboard", &fact);
    sp::Teardown td{rtn};
    const size_t nu = c.range(1, 4);
    std::vector<std::vector<std::string>> tab(1 + nu, std::vector<std::string>(1 + nu));
    for (size_t u = 1; u <= nu; ++u) { tab[0][u] = tab[u][0] = "u" + std::to_string(u); for (size_t w = 1; w <= nu; ++w) tab[u][w] = std::to_string(int(c.range(0, 9)) - 1); }
    bool ok = true;
    const size_t br = c.weighted({4, 2, 2, 2, 1, 1, 1});
    if (br == 1) { tab[c.range(0, nu)].pop_back(); ok = false; }
    if (br == 2) { tab[c.range(1, nu)][c.range(1, nu)] = c.pickl<std::string>({"", "x", "lat", "-", "+"}); ok = false; }
    if (br == 3) { tab[0][c.range(1, nu)] = "other"; ok = false; }
    if (br == 4) { tab.clear(); ok = false; }
    if (br == 5) { tab.resize(1); ok = false; }
    if (br == 6) { tab[c.range(0, nu)].push_back("1"); ok = false; }
    std::string s1; for (auto& r : tab) { for (auto& x : r) s1 += x + " "; s1 += "/ "; } LOG(c, s1);
    auto* p = dynamic_cast<Scoreboard::ScoreboardParameters*>(n.getParameterSet());
    p->latency_matrix = tab; std::string errs;
    std::cerr.setstate(std::ios::failbit);
    const bool r = p->latency_matrix.validateDependencies(&n, errs);
    std::cerr.clear();
    REQUIRE_EQ(r, ok, "validation of " + s1);
    if (!ok) p->latency_matrix = std::vector<std::vector<std::string>>{{"", "a"}, {"a", "1"}};
    c.nontrivial(br != 0 || nu > 1);
}
}
PROPERTY(scoreboard, 9000, 300000) { World w(c); w.run(); }
PROPERTY(print_p, 6000, 100000) { print_bits(c); }
PROPERTY(table_p, 600, 10000) { table_check(c); }
