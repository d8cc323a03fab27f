// C19: fast checkpoints against full copies of the state and a model of the history tree.
#include "ckpt.hpp"
using namespace ck;
using namespace sparta::serialization::checkpoint;
using Id = FastCheckpointer::chkpt_id_t;
constexpr Id NONE = CheckpointBase::UNIDENTIFIED_CHECKPOINT;

namespace {
struct Node { Id id, parent; Scheduler::Tick tick; State st; bool dead = false; };
struct World {
    pbt::Case& c; Device d; FastCheckpointer fc; std::map<Id, Node> all; Id cur = NONE, head = NONE; bool hassched; size_t loads = 0, dels = 0, branches = 0, created = 0;
    World(pbt::Case& cc) : c(cc), d(cc, int(cc.range(0, 2)), int(cc.range(1, 2))), fc(d.rtn, cc.chance(7, 8) ? &d.sched : nullptr) { hassched = fc.getScheduler() != nullptr; }
    Scheduler::Tick now() { return hassched ? d.sched.getCurrentTick() : 0; }
    std::vector<Id> live() { std::vector<Id> v; for (auto& p : all) if (!p.second.dead) v.push_back(p.first); return v; }
    void checkTree() {
        const auto lv = live(); REQUIRE(fc.getCheckpoints() == lv, "live checkpoints: " << fc.getCheckpoints().size() << " instead of " << lv.size()); REQUIRE_EQ(fc.getNumCheckpoints(), lv.size(), "number of checkpoints");
        uint32_t snaps = 0;
        for (Id id : lv) {
            Node& n = all[id]; REQUIRE(fc.hasCheckpoint(id), "checkpoint " << id << " missing"); auto* p = fc.findCheckpoint(id); REQUIRE(p && p->getID() == id, "lookup of " << id); REQUIRE_EQ(p->getTick(), n.tick, "tick of " + std::to_string(id)); snaps += p->isSnapshot();
            std::vector<Id> want, got; for (Id a = id; a != NONE; a = all[a].parent) if (!all[a].dead) want.push_back(a);
            for (Id a : fc.getCheckpointChain(id)) if (a != NONE) got.push_back(a); if (got.size() > 1 && got.front() == head) std::reverse(got.begin(), got.end());
            REQUIRE(got == want, "chain of checkpoint " << id << " has " << got.size() << " live checkpoints instead of " << want.size());
            std::set<Id> nx; for (Id x : fc.getNextIDs(id)) { REQUIRE(nx.insert(x).second, "next " << x << " twice"); REQUIRE(all.count(x) && !all[x].dead, "next " << x << " of " << id << " is not live"); Id a = all[x].parent; while (a != id && a != NONE && all[a].dead) a = all[a].parent; REQUIRE_EQ(a, id, "next " + std::to_string(x) + " does not follow"); }
            for (Id x : lv) if (all[x].parent == id) REQUIRE(nx.count(x), "next " << x << " of " << id << " is missing");
            if (all[id].parent != NONE && !all[all[id].parent].dead) REQUIRE_EQ(p->getPrevID(), all[id].parent, "previous of " + std::to_string(id));
        }
        REQUIRE_EQ(fc.getNumSnapshots(), snaps, "snapshots"); REQUIRE_EQ(fc.getNumDeltas(), lv.size() - snaps, "deltas"); REQUIRE_EQ(fc.getTotalCheckpointsCreated(), created, "checkpoints created");
        if (head != NONE) { REQUIRE_EQ(fc.getHeadID(), head, "head"); if (!all[cur].dead) { REQUIRE_EQ(fc.getCurrentID(), cur, "current"); } REQUIRE_EQ(fc.getCurrentTick(), all[cur].tick, "tick of current"); }
        if (!lv.empty() && c.chance(1, 4)) { const auto t = all[c.pick(lv)].tick; std::vector<Id> w; for (Id id : lv) if (all[id].tick == t) w.push_back(id); REQUIRE(fc.getCheckpointsAt(t) == w, "checkpoints at tick " << t); REQUIRE(fc.getCheckpointsAt(987654321).empty(), "checkpoints at a tick without any"); }
        if (!lv.empty() && c.chance(1, 6)) { const Id from = c.pick(lv); bool clean = true; for (Id a = from; a != NONE; a = all[a].parent) clean &= !all[a].dead; if (clean) { const auto t = c.flip() ? all[from].tick : c.range(0, all[from].tick); Id a = from; while (a != NONE && all[a].tick > t) a = all[a].parent; auto* p = fc.findLatestCheckpointAtOrBefore(t, from); REQUIRE_EQ(p ? p->getID() : NONE, a, "latest checkpoint at or before " + std::to_string(t)); } }
    }
    void create() {
        const bool force = c.chance(1, 8);
        if (head != NONE && hassched && now() < all[cur].tick) { LOG(c, "create refused in the past"); REQUIRE_THROWS(fc.createCheckpoint(), "a checkpoint before the current one"); return; }
        if (head == NONE && c.flip()) { LOG(c, "create the head"); fc.createHead(); ++created; head = fc.getHeadID(); cur = head; all[head] = {head, NONE, now(), d.capture()}; return; }
        const bool first = head == NONE; const Id id = fc.createCheckpoint(force); ++created; LOG(c, "checkpoint " << id << (force ? " snapshot" : "") << " after " << (first ? 0 : cur));
        if (first) { head = fc.getHeadID(); REQUIRE(head != id, "the first checkpoint is the head"); ++created; all[head] = {head, NONE, now(), d.capture()}; cur = head; }
        REQUIRE(!all.count(id), "id " << id << " was used before"); REQUIRE(all.empty() || id > all.rbegin()->first, "ids do not increase");
        for (auto& p : all) if (p.second.parent == cur) { ++branches; break; }
        all[id] = {id, cur, now(), d.capture()}; cur = id;
        auto* p = fc.findCheckpoint(id); if (force || fc.getSnapshotThreshold() == 0) REQUIRE(p->isSnapshot(), "checkpoint " << id << " is not a snapshot");
    }
    void load(Id id, const char* why) {
        LOG(c, "load " << id << why); fc.loadCheckpoint(id); cur = id; ++loads; d.same(all[id].st, "after loading checkpoint " + std::to_string(id));
        if (hassched) REQUIRE_EQ(d.sched.getCurrentTick(), all[id].tick, "tick after loading " + std::to_string(id));
    }
    void run() {
        fc.setSnapshotThreshold(uint32_t(c.flip() ? c.range(0, 4) : c.range(2, 30)));
        if (c.chance(1, 40)) { LOG(c, "create before finalization refused"); REQUIRE_THROWS(fc.createHead(), "a checkpoint of an unfinalized tree"); }
        d.finalize(); if (c.chance(1, 2)) d.change(); if (c.flip()) d.advance();
        const size_t ops = c.range(5, 60);
        for (size_t o = 0; o < ops; ++o) {
            const auto lv = live();
            switch (c.weighted({40, 22, 22, 3, 3, 2})) {
            case 0: d.change(); if (c.flip()) d.advance(); create(); break;
            case 1: if (!lv.empty()) { if (c.flip()) d.change(); load(c.pick(lv), ""); } break;
            case 2: { if (lv.size() < 2) break; Id id = c.chance(1, 3) && !all[cur].dead && cur != head ? cur : lv[c.range(1, lv.size() - 1)]; if (id == head) break; LOG(c, "delete " << id << (id == cur ? " (current)" : "")); fc.deleteCheckpoint(id); all[id].dead = true; ++dels; break; }
            case 3: if (head == NONE) break; LOG(c, "forget the current checkpoint"); fc.forgetCurrent(); cur = head; d.change(); if (hassched) { const auto t = all[head].tick + c.small(0, 30); d.sched.restartAt(t); } break;
            case 4: { const uint32_t t = uint32_t(c.range(0, 6)); LOG(c, "threshold " << t); fc.setSnapshotThreshold(t); REQUIRE_EQ(fc.getSnapshotThreshold(), t, "threshold"); break; }
            default: { if (head == NONE || !c.chance(1, 3)) break; std::vector<Id> dead; for (auto& p : all) if (p.second.dead) dead.push_back(p.first); const State before = d.capture();
                const Id bad = !dead.empty() && c.chance(3, 4) ? c.pick(dead) : c.flip() ? NONE : all.rbegin()->first + 1 + c.small(0, 9); LOG(c, "operations on checkpoint " << bad << " and the head refused");
                REQUIRE(!fc.hasCheckpoint(bad), "checkpoint " << bad << " exists"); if (c.flip()) REQUIRE_THROWS(fc.loadCheckpoint(bad), "a checkpoint that does not exist was loaded"); else REQUIRE_THROWS(fc.deleteCheckpoint(bad), "a checkpoint that does not exist was deleted");
                if (c.flip()) REQUIRE_THROWS(fc.deleteCheckpoint(head), "the head was deleted"); else REQUIRE_THROWS(fc.createHead(), "a second head"); d.same(before, "after a refused operation"); }
            }
            checkTree();
            if (head != NONE && c.chance(1, 15)) { std::ostringstream s; fc.dumpTree(s); fc.dumpList(s); s << fc.stringize(); }
        }
        // every live checkpoint can still be restored, in any order
        auto lv = live(); for (size_t i = lv.size(); i > 1; --i) std::swap(lv[i - 1], lv[c.range(0, i - 1)]);
        for (Id id : lv) { load(id, " (at the end)"); checkTree(); }
        c.nontrivial(all.size() >= 4 && loads >= 2 && d.changes >= 3 && (dels || branches));
    }
};
}
PROPERTY(fast_checkpoints, 12000, 400000) { World w(c); w.run(); }
