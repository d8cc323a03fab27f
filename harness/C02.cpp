// C02: the precedence graph against a reference digraph (edge set, reachability).
#include "sp.hpp"
#include "sparta/kernel/DAG.hpp"
#include "sparta/kernel/Vertex.hpp"
#include "sparta/events/GlobalOrderingPoint.hpp"
#include "sparta/events/Precedence.hpp"
#include "sparta/events/UniqueEvent.hpp"
using namespace sparta;

namespace {
struct G {                                   // reference graph
    std::set<std::pair<unsigned, unsigned>> e; unsigned n = 0;
    bool cyclic() const {
        std::vector<unsigned> in(n, 0); for (auto& x : e) in[x.second]++;
        std::vector<unsigned> q; for (unsigned i = 0; i < n; ++i) if (!in[i]) q.push_back(i);
        size_t done = 0; while (!q.empty()) { unsigned v = q.back(); q.pop_back(); ++done; for (auto it = e.lower_bound({v, 0}); it != e.end() && it->first == v; ++it) if (!--in[it->second]) q.push_back(it->second); }
        return done != n;
    }
};
// every edge a report of a cycle names must be declared, and together they must contain a cycle
void check_report(pbt::Case& c, const DAG::CycleException& ex, const G& g, const std::map<std::string, unsigned>& id) {
    std::ostringstream t, d; ex.writeCycleAsText(t); ex.writeCycleAsDOT(d);
    for (int k = 0; k < 2; ++k) {
        std::istringstream is(k ? d.str() : t.str()); std::string line; G r; r.n = g.n;
        while (std::getline(is, line)) {
            auto p = line.find(" -> "); if (p == std::string::npos) continue;
            auto clean = [](std::string s) { std::string o; for (char ch : s) if (!strchr(" \t\";", ch)) o += ch; return o; };
            auto a = id.find(clean(line.substr(0, p))), b = id.find(clean(line.substr(p + 4)));
            REQUIRE(a != id.end() && b != id.end(), "cycle report names an unknown vertex: " << line);
            REQUIRE(g.e.count({a->second, b->second}), "cycle report names an edge that was not declared: " << line);
            r.e.insert({a->second, b->second});
        }
        REQUIRE(r.cyclic(), "the reported edges contain no cycle: " << (k ? d.str() : t.str()));
    }
}
}

PROPERTY(graph_operations, 40000, 1500000) {
    Scheduler sched("s"); bool early = c.flip(); DAG dag(&sched, early);
    G g; std::vector<Vertex*> v; std::map<std::string, unsigned> id; std::map<Vertex*, unsigned> of;
    auto add = [&](Vertex* x) { of[x] = g.n; id[x->getLabel()] = g.n++; v.push_back(x); };
    const char* ph[] = {"Trigger", "Update", "PortUpdate", "Flush", "Collection", "Tick", "PostTick"};
    for (auto p : ph) { REQUIRE(dag.findGOPVertex(p), "phase vertex " << p << " missing"); add(dag.findGOPVertex(p)); }
    for (unsigned i = 0; i < 6; ++i) g.e.insert({i, i + 1});
    unsigned extra = (unsigned)c.small(1, 14);
    std::vector<std::unique_ptr<Vertex>> own;
    for (unsigned i = 0; i < extra; ++i) switch (c.draw(2)) {
        case 0: add(dag.newFactoryVertex("v" + std::to_string(i), &sched)); break;
        case 1: { auto n = "gop" + std::to_string(i); REQUIRE(!dag.findGOPVertex(n), "GOP exists"); Vertex* x = dag.getGOPoint(n); REQUIRE(dag.getGOPoint(n) == x && dag.findGOPVertex(n) == x && x->isGOP(), "GOP " << n << " is not found again"); add(x); break; }
        default: own.emplace_back(new Vertex("w" + std::to_string(i), &sched)); add(own.back().get()); break;
    }
    std::set<unsigned> in_dag; for (unsigned i = 0; i < 7; ++i) in_dag.insert(i);
    unsigned steps = (unsigned)c.small(1, 60), cyc = 0, unl = 0, sorts = 0; bool acyc_bias = c.chance(2, 3);
    auto pickv = [&] { return c.chance(1, 5) ? (unsigned)c.draw(g.n - 1) : 7 + (unsigned)c.draw(extra - 1); };
    auto check_sorted = [&] {
        uint32_t top = 0;
        for (auto& x : g.e) REQUIRE(v[x.first]->getGroupID() < v[x.second]->getGroupID(), v[x.first]->getLabel() << " (group " << v[x.first]->getGroupID() << ") precedes " << v[x.second]->getLabel() << " (group " << v[x.second]->getGroupID() << ")");
        for (auto i : in_dag) { REQUIRE(v[i]->getGroupID() >= 1, "group 0"); top = std::max(top, v[i]->getGroupID()); }
        REQUIRE(dag.numGroups() >= top, "numGroups " << dag.numGroups() << " but a vertex has group " << top);
    };
    for (unsigned s = 0; s < steps; ++s) {
        switch (c.weighted({10, 3, 2, 2, 1, 1})) {
        case 0: {
            unsigned a = pickv(), b = pickv(); if (a == b) break;
            if (acyc_bias && a > b && b >= 7 && !c.chance(1, 10)) std::swap(a, b);
            bool fresh = g.e.insert({a, b}).second; bool bad = g.cyclic(); in_dag.insert(a); in_dag.insert(b);
            LOG(c, "link " << v[a]->getLabel() << " -> " << v[b]->getLabel() << (bad ? " (cyclic)" : ""));
            bool threw = false;
            try { dag.link(v[a], v[b], c.flip() ? "why" : ""); } catch (const DAG::CycleException& e) { threw = true; check_report(c, e, g, id); }
            REQUIRE(threw == (early && fresh && bad), "link " << (threw ? "rejected" : "accepted") << ", the graph is " << (bad ? "" : "not ") << "cyclic");
            if (bad) { ++cyc; if (early || c.flip()) { LOG(c, "unlink it"); REQUIRE(dag.unlink(v[a], v[b]), "the edge just linked cannot be unlinked"); g.e.erase({a, b}); } }
            break; }
        case 1: { unsigned a = pickv(), b = pickv(); if (!g.e.empty() && c.flip()) { auto it = g.e.begin(); std::advance(it, c.draw(g.e.size() - 1)); a = it->first; b = it->second; } if (a == b) break;
            bool had = g.e.erase({a, b}) > 0; LOG(c, "unlink " << v[a]->getLabel() << " -> " << v[b]->getLabel()); REQUIRE_EQ(dag.unlink(v[a], v[b]), had, "unlink"); unl += had; break; }
        case 2: REQUIRE_EQ(dag.detectCycle(), g.cyclic(), "detectCycle"); break;
        case 3: {
            bool bad = g.cyclic(), threw = false; LOG(c, "sort" << (bad ? " (cyclic)" : ""));
            try { bool r = dag.sort(); REQUIRE(r, "sort says false"); } catch (const DAG::CycleException& e) { threw = true; check_report(c, e, g, id); }
            REQUIRE(threw == bad, "sort " << (threw ? "rejected a graph without a cycle" : "accepted a cyclic graph")); if (!bad) { check_sorted(); ++sorts; } break; }
        case 4: { unsigned a = pickv(); unsigned in = 0, out = 0; for (auto& x : g.e) { in += x.second == a; out += x.first == a; }
            REQUIRE_EQ(v[a]->numInboundEdges(), in, "inbound edges of " << v[a]->getLabel()); REQUIRE_EQ(v[a]->numOutboundEdges(), out, "outbound edges"); REQUIRE_EQ(v[a]->isOrphan(), in + out == 0, "orphan");
            for (unsigned b = 0; b < g.n; ++b) REQUIRE_EQ(v[a]->getEdgeTo(v[b]) != nullptr, g.e.count({a, b}) > 0, "edge " << v[a]->getLabel() << " -> " << v[b]->getLabel()); break; }
        default: { std::ostringstream vs, es; dag.dumpToCSV(vs, es); std::istringstream is(es.str()); std::string line; std::getline(is, line); std::set<std::pair<unsigned, unsigned>> got; std::map<uint32_t, unsigned> byid; for (unsigned i = 0; i < g.n; ++i) byid[v[i]->getID()] = i;
            while (std::getline(is, line)) { unsigned a, b; REQUIRE(sscanf(line.c_str(), "%u,%u", &a, &b) == 2 && byid.count(a) && byid.count(b), "edge line " << line); REQUIRE(got.insert({byid[a], byid[b]}).second, "edge twice: " << line); }
            REQUIRE(got == g.e, "the dumped edges differ from the declared ones: " << got.size() << " vs " << g.e.size()); break; }
        }
    }
    bool bad = g.cyclic(), threw = false; LOG(c, "finalize" << (bad ? " (cyclic)" : ""));
    try { uint32_t n = dag.finalize(); check_sorted(); REQUIRE(n == dag.numGroups() && dag.isFinalized(), "finalize"); } catch (const DAG::CycleException& e) { threw = true; check_report(c, e, g, id); }
    REQUIRE(threw == bad, "finalize " << (threw ? "rejected a graph without a cycle" : "accepted a cyclic graph"));
    c.label("cyclic_links", cyc); c.label("unlinked", unl); c.label("edges", g.e.size());
    c.nontrivial(g.e.size() >= 9 && (cyc || unl || sorts));
}

namespace {
struct Any { virtual ~Any() {} virtual void sched() = 0; virtual Scheduleable& s() = 0; };
template <SchedulingPhase P> struct I : Any { Event<P> e; I(TreeNode* n, const std::string& nm, const SpartaHandler& h) : e(n, nm, h) {} void sched() override { e.schedule(Clock::Cycle(0)); } Scheduleable& s() override { return e; } };
struct Fired { std::vector<unsigned>* o; unsigned id; void go() { o->push_back(id); } };
}
PROPERTY(event_precedence, 30000, 1000000) {
    Scheduler sched("s"); ClockManager cm(&sched); RootTreeNode rtn("top");
    std::vector<unsigned> order; std::vector<std::unique_ptr<Fired>> f; std::vector<std::unique_ptr<TreeNode>> nodes; std::unique_ptr<EventSet> es;
    std::vector<std::unique_ptr<Any>> ev;
    sp::Teardown td{rtn};
    auto root = cm.makeRoot(&rtn, "root"); cm.normalize(); rtn.setClock(root.get());
    es.reset(new EventSet(&rtn));
    unsigned n = 2 + (unsigned)c.small(0, 9), ng = (unsigned)c.draw(2); bool one = c.flip(); unsigned ph = (unsigned)c.draw(6);
    G g; g.n = 7 + n + ng;      // 0-6: phase points, then events, then user GOPs
    for (unsigned i = 0; i < 6; ++i) g.e.insert({i, i + 1});
    std::map<std::string, unsigned> id; const char* pn[] = {"Trigger", "Update", "PortUpdate", "Flush", "Collection", "Tick", "PostTick"};
    for (unsigned i = 0; i < 7; ++i) id[pn[i]] = i;
    std::vector<unsigned> phase;
    for (unsigned i = 0; i < n; ++i) {
        unsigned p = one ? ph : (unsigned)c.draw(6); phase.push_back(p); f.emplace_back(new Fired{&order, i}); std::string nm = "e" + std::to_string(i);
        SpartaHandler h = SpartaHandler::from_member<Fired, &Fired::go>(f.back().get(), nm.c_str());
        switch (p) {
        case 0: ev.emplace_back(new I<SchedulingPhase::Trigger>(es.get(), nm, h)); break;
        case 1: ev.emplace_back(new I<SchedulingPhase::Update>(es.get(), nm, h)); break;
        case 2: ev.emplace_back(new I<SchedulingPhase::PortUpdate>(es.get(), nm, h)); break;
        case 3: ev.emplace_back(new I<SchedulingPhase::Flush>(es.get(), nm, h)); break;
        case 4: ev.emplace_back(new I<SchedulingPhase::Collection>(es.get(), nm, h)); break;
        case 5: ev.emplace_back(new I<SchedulingPhase::Tick>(es.get(), nm, h)); break;
        default: ev.emplace_back(new I<SchedulingPhase::PostTick>(es.get(), nm, h)); break;
        }
        ev.back()->s().setLabel(nm.c_str()); id[nm] = 7 + i; LOG(c, nm << ": phase " << pn[p]);
    }
    for (unsigned i = 0; i < n; ++i) { if (phase[i] > 0) g.e.insert({phase[i] - 1, 7 + i}); g.e.insert({7 + i, phase[i]}); }   // the phase each event belongs to
    std::vector<std::unique_ptr<GlobalOrderingPoint>> gops;
    for (unsigned i = 0; i < ng; ++i) { std::string nm = "g" + std::to_string(i); gops.emplace_back(new GlobalOrderingPoint(&rtn, nm)); id[nm] = 7 + n + i; }
    bool early = c.flip(); if (early) sched.getDAG()->enableEarlyCycleDetect();
    unsigned edges = (unsigned)c.small(0, 16), rej = 0, unl = 0; bool acyc = c.chance(3, 4);
    for (unsigned k = 0; k < edges; ++k) {
        if (c.chance(1, 8) && n > 1) {                     // remove one
            unsigned a = (unsigned)c.draw(n - 1), b = (unsigned)c.draw(n - 1); if (a == b) continue;
            bool had = g.e.erase({7 + a, 7 + b}) > 0; LOG(c, "unlink e" << a << " e" << b); REQUIRE_EQ(ev[a]->s().unlink(&ev[b]->s()), had, "unlink"); unl += had; continue;
        }
        unsigned a, b; bool bad, fresh; std::function<void()> go; unsigned how = (unsigned)c.weighted({6, 2, 2, 1});
        unsigned x = (unsigned)c.draw(n - 1), y = (unsigned)c.draw(n - 1);
        if (how == 0 || !ng) { if (x == y) continue; if (acyc && (phase[x] > phase[y] || (phase[x] == phase[y] && x > y))) std::swap(x, y); a = 7 + x; b = 7 + y; bool op = c.flip(); if (op && phase[x] != phase[y]) { REQUIRE(sp::throws([&] { ev[x]->s() >> ev[y]->s(); }), "operator>> between phases accepted"); op = false; } go = [&, x, y, op] { if (op) ev[x]->s() >> ev[y]->s(); else ev[x]->s().precedes(ev[y]->s()); }; }
        else { unsigned i = (unsigned)c.draw(ng - 1); if (how == 1) { a = 7 + x; b = 7 + n + i; go = [&, x, i] { ev[x]->s().precedes(*gops[i]->getGOPoint()); }; } else if (how == 2) { a = 7 + n + i; b = 7 + x; go = [&, x, i] { const_cast<Vertex*>(gops[i]->getGOPoint())->precedes(ev[x]->s()); }; } else { unsigned p = (unsigned)c.draw(6); a = 7 + x; b = p; go = [&, x, p] { ev[x]->s().precedes(*sched.getDAG()->getGOPoint(pn[p])); }; } }
        fresh = g.e.insert({a, b}).second; bad = g.cyclic();
        LOG(c, "edge " << a << " -> " << b << (bad ? " (cyclic)" : "")); bool threw = false;
        try { go(); } catch (const DAG::CycleException& e) { threw = true; check_report(c, e, g, id); }
        REQUIRE(threw == (early && fresh && bad), "precedence " << (threw ? "rejected" : "accepted") << ", the graph is " << (bad ? "" : "not ") << "cyclic");
        if (threw) { ++rej; g.e.erase({a, b}); auto vx = [&](unsigned i) -> Vertex* { return i < 7 ? sched.getDAG()->getGOPoint(pn[i]) : i < 7 + n ? ev[i - 7]->s().getVertex() : const_cast<Vertex*>(gops[i - 7 - n]->getGOPoint()); }; REQUIRE(sched.getDAG()->unlink(vx(a), vx(b)), "unlink of a rejected edge"); }
    }
    bool bad = g.cyclic(), threw = false;
    try { rtn.enterConfiguring(); rtn.enterFinalized(); sched.finalize(); } catch (const DAG::CycleException& e) { threw = true; check_report(c, e, g, id); }
    REQUIRE(threw == bad, "finalization " << (threw ? "rejected a graph without a cycle" : "accepted a cyclic graph"));
    c.label(bad ? "cyclic" : "acyclic"); c.label("rejected_edges", rej); c.label("unlinked", unl);
    c.nontrivial(g.e.size() > 6 + 2 * n - (unsigned)std::count(phase.begin(), phase.end(), 0u) && (bad || rej || n >= 4));
    if (bad) return;
    if (n > 1) REQUIRE_THROWS(ev[0]->s().precedes(ev[1]->s()), "precedence declared after finalization");
    // fire all of them in the same tick, scheduled in a drawn order
    std::vector<unsigned> perm(n); for (unsigned i = 0; i < n; ++i) perm[i] = i; for (unsigned i = n; i-- > 1;) std::swap(perm[i], perm[c.draw(i)]);
    for (auto i : perm) ev[i]->sched();
    sched.run(1, true, false);
    REQUIRE_EQ(order.size(), (size_t)n, "events fired");
    std::vector<unsigned> pos(n); for (unsigned i = 0; i < n; ++i) pos[order[i]] = i;
    std::vector<std::vector<bool>> r(g.n, std::vector<bool>(g.n)); for (auto& e : g.e) r[e.first][e.second] = true;
    for (unsigned k = 0; k < g.n; ++k) for (unsigned i = 0; i < g.n; ++i) if (r[i][k]) for (unsigned j = 0; j < g.n; ++j) if (r[k][j]) r[i][j] = true;
    for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) if (r[7 + i][7 + j]) REQUIRE(pos[i] < pos[j], "e" << i << " must precede e" << j << " but fired after it");
}
