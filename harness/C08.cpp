// C08: Queue and CircularBuffer against a deque of element ids.
#include "sp.hpp"
#include "sparta/resources/Queue.hpp"
#include "sparta/resources/CircularBuffer.hpp"
#include <deque>
using namespace sparta;

namespace {
struct El { static long live; uint64_t id; const El* self; std::string s;
    El() : El(0) {}
    explicit El(uint64_t i) : id(i), self(this), s("el" + std::to_string(i)) { ++live; }
    El(const El& o) : id(o.id), self(this), s(o.s) { o.check(); ++live; }
    El(El&& o) noexcept : id(o.id), self(this), s(std::move(o.s)) { ++live; o.s = "moved"; }
    El& operator=(const El& o) { o.check(); check(); id = o.id; s = o.s; return *this; }
    ~El() { if (self != this) abort(); self = nullptr; --live; }
    bool ok() const { return self == this && s == "el" + std::to_string(id); }
    void check() const { REQUIRE(ok(), "damaged element"); } };
long El::live = 0;
std::ostream& operator<<(std::ostream& o, const El& e) { return o << e.id; }

// occupancy statistics: cycles spent at each size, against the clock
struct Occ { StatisticSet* ss; const Clock* clk; std::string pre; uint64_t since = 0; size_t cur = 0; std::vector<uint64_t> cyc;
    void change(size_t n) { uint64_t e = clk->elapsedCycles(); if (cyc.size() <= std::max(n, cur)) cyc.resize(std::max(n, cur) + 1); cyc[cur] += e - since; since = e; cur = n; }
    void check(size_t cap) { change(cur); for (size_t i = 0; i <= cap; ++i) REQUIRE_EQ((uint64_t)ss->getChildAs<CycleCounter>(pre + std::to_string(i))->get(), i < cyc.size() ? cyc[i] : 0, "cycles spent at occupancy " << i); } };
}

PROPERTY(queue, 14000, 2000000) {
    typedef Queue<El> Q; struct It { Q::iterator it; Q::const_iterator ci; uint64_t id; bool alive; };
    long live0 = El::live; uint64_t pushed = 0, popped = 0, backs = 0, wraps = 0, stale = 0; {
    Scheduler sched("s"); ClockManager cm(&sched); RootTreeNode rtn("top"); auto root = cm.makeRoot(&rtn, "root"); cm.normalize(); rtn.setClock(root.get());
    TreeNode node(&rtn, "node", "node"); StatisticSet ss(&node); bool stats = c.chance(1, 16);
    uint32_t cap = (uint32_t)(c.chance(1, 12) ? 0 : c.small(1, 17)); Q q("q", cap, root.get(), stats ? &ss : nullptr); sp::Teardown td{rtn};
    rtn.enterConfiguring(); rtn.enterFinalized(); sched.finalize(); if (stats) sched.run(1, true, false);
    LOG(c, "queue of " << cap); std::deque<uint64_t> m; std::vector<It> its; uint64_t id = 0; Occ occ{&ss, root.get(), "q_utilization_count", 0, 0, {}}; occ.since = root->elapsedCycles(); if (stats && cap) occ.cyc.assign(1, 0), occ.since = 0;
    auto gone = [&](uint64_t d) { for (auto& x : its) if (x.alive && x.id == d) x.alive = false; };
    unsigned ops = (unsigned)c.urange(5, 60), bias = (unsigned)c.draw(2);
    for (unsigned k = 0; k < ops; ++k) {
        switch (c.weighted({bias == 0 ? 9u : 6u, bias == 1 ? 7u : 4u, 2, 2, 1, 1, stats ? 3u : 0u})) {
        case 0: { bool f = m.size() == cap; uint64_t n = ++id; bool rv = c.flip(); LOG(c, "push " << n << (f ? " (refused)" : "")); El e(n); Q::iterator it; bool th = sp::throws([&] { it = rv ? q.push(std::move(e)) : q.push((const El&)e); }); REQUIRE_EQ(th, f, "push onto " << m.size() << "/" << cap); if (th) break; REQUIRE_EQ(it->id, n, "iterator returned by push"); m.push_back(n); its.push_back({it, it, n, true}); if (++pushed > cap * 2) ++wraps; break; }
        case 1: { bool e = m.empty(); LOG(c, "pop" << (e ? " (refused)" : "")); REQUIRE_EQ(sp::throws([&] { q.pop(); }), e, "pop from " << m.size()); if (!e) { gone(m.front()); m.pop_front(); ++popped; } break; }
        case 2: { bool e = m.empty(); LOG(c, "pop_back" << (e ? " (refused)" : "")); REQUIRE_EQ(sp::throws([&] { q.pop_back(); }), e, "pop_back from " << m.size()); if (!e) { gone(m.back()); m.pop_back(); ++backs; } break; }
        case 3: { if (its.empty()) break; auto& x = its[c.draw(its.size() - 1)]; if (!x.alive) break; size_t i = std::find(m.begin(), m.end(), x.id) - m.begin(); LOG(c, "step the iterator of " << x.id); auto p = x.it; REQUIRE_EQ(p.getIndex(), (uint32_t)i, "index of " << x.id);
            if (c.flip()) { auto o = c.flip() ? p++ : (++p, x.it); REQUIRE(o == x.it, "post-increment"); if (i + 1 < m.size()) { REQUIRE_EQ(p->id, m[i + 1], "next of " << x.id); --p; REQUIRE(p == x.it, "there and back"); } else { REQUIRE(p == q.end(), "next of the last is not end"); REQUIRE(!p.isValid(), "end is valid"); REQUIRE_THROWS(++p, "incremented end"); --p; REQUIRE_EQ(p->id, m[i], "--end"); } }
            else if (i == 0) REQUIRE_THROWS(--p, "decremented begin"); else { auto o = c.flip() ? p-- : (--p, x.it); REQUIRE(o == x.it, "post-decrement"); REQUIRE_EQ(p->id, m[i - 1], "previous of " << x.id); } break; }
        case 4: { if (m.empty()) break; uint32_t i = (uint32_t)c.draw(m.size() - 1); uint64_t n = ++id, d = m[i]; LOG(c, "overwrite " << i << " with " << n); El e(n); unsigned how = (unsigned)c.draw(3); if (how == 0) q.access(i) = e; else if (how == 1 && i == 0) q.front() = e; else if (how == 2 && i + 1 == m.size()) q.back() = e; else { auto p = q.begin(); for (uint32_t j = 0; j < i; ++j) ++p; *p = e; } m[i] = n; for (auto& x : its) if (x.id == d) x.id = n; break; }
        case 5: LOG(c, "clear"); q.clear(); m.clear(); for (auto& x : its) x.alive = false; break;
        default: { uint64_t n = c.urange(1, 5); LOG(c, "run " << n); sched.run(n, true, false); break; }
        }
        if (stats && cap) occ.change(m.size());
        const Q& cq = q; REQUIRE_EQ(cq.size(), m.size(), "size"); REQUIRE_EQ(cq.empty(), m.empty(), "empty"); REQUIRE_EQ(cq.numFree(), cap - m.size(), "numFree"); REQUIRE_EQ(cq.capacity(), cap, "capacity"); REQUIRE_EQ(El::live - live0, (long)m.size(), "live elements");
        for (uint32_t i = 0; i < m.size(); ++i) { REQUIRE(cq.isValid(i), "isValid(" << i << ")"); REQUIRE(cq.read(i).ok(), "element " << i << " damaged"); REQUIRE_EQ(cq.read(i).id, m[i], "element at " << i); REQUIRE_EQ(q.access(i).id, m[i], "access " << i); }
        REQUIRE(!cq.isValid((uint32_t)m.size()), "valid past the end"); if (k % 8 == 7) { REQUIRE_THROWS(cq.read((uint32_t)m.size()), "read past the end"); REQUIRE_THROWS(q.access((uint32_t)m.size()), "access past the end"); }
        if (m.empty()) { if (k % 4 == 3) REQUIRE_THROWS(cq.front(), "front of empty"); if (k % 4 == 3) REQUIRE_THROWS(cq.back(), "back of empty"); } else { REQUIRE_EQ(cq.front().id, m.front(), "front"); REQUIRE_EQ(cq.back().id, m.back(), "back"); }
        std::vector<uint64_t> f, cf, r, want(m.begin(), m.end()); unsigned fuel = 200; for (auto& e : q) { REQUIRE(fuel--, "iteration does not end"); f.push_back(e.id); } for (auto i = cq.begin(); i != cq.end(); i++) { REQUIRE(fuel--, "const iteration does not end"); cf.push_back((*i).id); } REQUIRE(f == want && cf == want, "iteration visits other elements");
        if (!m.empty()) { auto i = q.end(); do { --i; r.push_back(i->id); REQUIRE(fuel--, "backward iteration does not end"); } while (i != q.begin()); std::reverse(r.begin(), r.end()); REQUIRE(r == want, "backward iteration visits other elements"); }
        for (auto& x : its) { REQUIRE_EQ(x.it.isValid(), x.alive, "validity of the iterator to " << x.id); REQUIRE_EQ(x.ci.isValid(), x.alive, "validity of the const iterator"); if (x.alive) { REQUIRE_EQ(x.it->id, x.id, "iterator now refers to another element"); REQUIRE_EQ((*x.ci).id, x.id, "const iterator refers to another element"); } else if (stale++ < 3) REQUIRE_THROWS(*x.it, "dereferenced a removed element"); }
        for (size_t i = 0; i + 1 < its.size() && i < 4; ++i) { auto &x = its[i], &y = its[i + 1]; if (!x.alive || !y.alive) continue; auto px = std::find(m.begin(), m.end(), x.id), py = std::find(m.begin(), m.end(), y.id); REQUIRE_EQ(x.it == y.it, px == py, "equality"); REQUIRE_EQ(x.it < y.it, px < py, "order"); REQUIRE_EQ(x.ci > y.ci, px > py, "order"); REQUIRE(x.it < q.end() && q.end() > x.it, "not before end"); }
        if (its.size() > 24) its.erase(its.begin(), its.begin() + 8);
        if (stats && cap) occ.check(cap);
    } }
    REQUIRE_EQ(El::live, live0, "elements alive after the queue is gone");
    c.label("pushed", pushed); c.label("popped", popped); c.label("popped_back", backs); c.label("wrapped_pushes", wraps); c.label("stale_checks", stale); c.nontrivial(pushed >= 4 && popped + backs >= 2);
}

PROPERTY(circular_buffer, 14000, 2000000) {
    typedef CircularBuffer<El> B; struct It { B::iterator it; B::const_iterator ci; uint64_t id; bool alive; };
    long live0 = El::live; uint64_t pushed = 0, dropped = 0, ins = 0, erased = 0, full_ins = 0, stale = 0; {
    Scheduler sched("s"); ClockManager cm(&sched); RootTreeNode rtn("top"); auto root = cm.makeRoot(&rtn, "root"); cm.normalize(); rtn.setClock(root.get());
    TreeNode node(&rtn, "node", "node"); StatisticSet ss(&node); bool stats = c.chance(1, 16);
    uint32_t cap = (uint32_t)c.small(1, 12); B b("cb", cap, root.get(), stats ? &ss : nullptr); sp::Teardown td{rtn};
    rtn.enterConfiguring(); rtn.enterFinalized(); sched.finalize(); if (stats) sched.run(1, true, false);
    LOG(c, "circular buffer of " << cap); std::vector<uint64_t> m; std::vector<It> its; uint64_t id = 0; Occ occ{&ss, root.get(), "cb_util_cnt", 0, 0, {}};
    auto kill = [&](uint64_t d) { for (auto& x : its) if (x.id == d) x.alive = false; }; auto killall = [&] { for (auto& x : its) x.alive = false; };
    auto drop = [&] { if (m.size() > cap) { kill(m.front()); m.erase(m.begin()); ++dropped; } };
    unsigned ops = (unsigned)c.urange(5, 50); uint64_t mx = 0;
    for (unsigned k = 0; k < ops; ++k) {
        switch (c.weighted({6, 4, 3, 2, 1, 1, stats ? 3u : 0u})) {
        case 0: { uint64_t n = ++id; LOG(c, "push " << n); El e(n); if (c.flip()) b.push_back(std::move(e)); else b.push_back((const El&)e); m.push_back(n); ++pushed; drop(); auto it = b.end(); --it; REQUIRE_EQ(it->id, n, "last element"); its.push_back({it, it, n, true}); break; }
        case 1: { uint32_t i = (uint32_t)c.draw(m.size()); uint64_t n = ++id; bool bad = !m.empty() && i == m.size(), full = m.size() == cap; El e(n); unsigned how = (unsigned)c.draw(3); LOG(c, "insert " << n << " before " << i << (bad ? " (refused)" : full ? " (full)" : ""));
            B::iterator p = b.begin(); for (uint32_t j = 0; j < i; ++j) ++p; B::iterator r; bool th = sp::throws([&] { r = how == 0 ? b.insert(p, (const El&)e) : how == 1 ? b.insert(p, std::move(e)) : how == 2 ? b.insert(B::const_iterator(p), (const El&)e) : b.insert(B::const_iterator(p), std::move(e)); }); REQUIRE_EQ(th, bad, "insert before " << i << " of " << m.size()); if (th) break;
            if (full) { m.erase(m.begin()); if (i) --i; ++full_ins; ++dropped; } bool was_empty = m.empty() && !full; m.insert(m.begin() + i, n); ++ins; if (!was_empty) killall(); REQUIRE(r.isValid() && r->id == n, "iterator returned by insert"); its.push_back({r, r, n, true}); break; }
        case 2: { if (m.empty()) { REQUIRE_THROWS(b.erase(b.end()), "erased end"); break; } uint32_t i = (uint32_t)c.draw(m.size() - 1); unsigned how = (unsigned)c.draw(2); LOG(c, "erase at " << i << " how " << how); B::iterator p = b.begin(); for (uint32_t j = 0; j < i; ++j) ++p;
            if (how == 0) b.erase(p); else if (how == 1) { auto rp = b.rbegin(); for (uint32_t j = (uint32_t)m.size() - 1; j > i; --j) ++rp; REQUIRE_EQ((*rp).id, m[i], "reverse iterator"); REQUIRE(rp.isValid(), "valid reverse iterator"); b.erase(rp); } else { const B& cb = b; auto rp = cb.rbegin(); for (uint32_t j = (uint32_t)m.size() - 1; j > i; --j) ++rp; b.erase(rp); }
            m.erase(m.begin() + i); ++erased; killall(); break; }
        case 3: { if (its.empty()) break; auto& x = its[c.draw(its.size() - 1)]; if (!x.alive) { REQUIRE_THROWS(b.erase(x.it), "erased through a stale iterator"); if (!m.empty()) REQUIRE_THROWS(b.insert(x.it, El(0)), "inserted through a stale iterator"); break; } size_t i = std::find(m.begin(), m.end(), x.id) - m.begin(); LOG(c, "step the iterator of " << x.id); auto p = x.it;
            if (c.flip()) { auto o = p++; REQUIRE(o == x.it, "post-increment"); if (i + 1 < m.size()) REQUIRE_EQ(p->id, m[i + 1], "next of " << x.id); else { REQUIRE(p == b.end() && !p.isValid(), "next of the last is not end"); REQUIRE_THROWS(++p, "incremented end"); --p; REQUIRE_EQ(p->id, m[i], "--end"); } }
            else if (i == 0) REQUIRE_THROWS(--p, "decremented begin"); else { auto o = p--; REQUIRE(o == x.it, "post-decrement"); REQUIRE_EQ(p->id, m[i - 1], "previous of " << x.id); } break; }
        case 4: { if (m.empty()) break; uint32_t i = (uint32_t)c.draw(m.size() - 1); uint64_t n = ++id, d = m[i]; LOG(c, "overwrite " << i << " with " << n); El e(n); auto p = b.begin(); for (uint32_t j = 0; j < i; ++j) ++p; *p = e; m[i] = n; for (auto& x : its) if (x.id == d) x.id = n; break; }
        case 5: LOG(c, "clear"); b.clear(); m.clear(); killall(); break;
        default: { uint64_t n = c.urange(1, 5); LOG(c, "run " << n); sched.run(n, true, false); break; }
        }
        if (stats) occ.change(m.size()); mx = std::max<uint64_t>(mx, m.size());
        const B& cb = b; REQUIRE_EQ(cb.size(), m.size(), "size"); REQUIRE_EQ(cb.numFree(), cap - m.size(), "numFree"); REQUIRE_EQ(cb.capacity(), cap, "capacity"); REQUIRE_EQ(El::live - live0, (long)m.size(), "live elements");
        for (uint32_t i = 0; i < m.size(); ++i) { REQUIRE(cb.isValid(i), "isValid(" << i << ")"); El e = b[i]; REQUIRE_EQ(e.id, m[i], "element at " << i); }
        REQUIRE(!cb.isValid((uint32_t)m.size()), "valid past the end"); if (k % 8 == 7) REQUIRE_THROWS(b[(uint32_t)m.size()], "indexed past the end");
        std::vector<uint64_t> f, cf, r; unsigned fuel = 400; for (auto& e : b) { REQUIRE(fuel--, "iteration does not end"); REQUIRE(e.ok(), "damaged"); f.push_back(e.id); } for (auto i = cb.begin(); i != cb.end(); ++i) { REQUIRE(fuel--, "does not end"); cf.push_back((*i).id); } for (auto i = b.rbegin(); i != b.rend(); ++i) { REQUIRE(fuel--, "does not end"); r.push_back((*i).id); } std::reverse(r.begin(), r.end()); REQUIRE(f == m && cf == m && r == m, "iteration visits other elements");
        for (auto& x : its) { REQUIRE_EQ(x.it.isValid(), x.alive, "validity of the iterator to " << x.id); REQUIRE_EQ(x.ci.isValid(), x.alive, "validity of the const iterator to " << x.id); if (x.alive) { REQUIRE_EQ(x.it->id, x.id, "iterator refers to another element"); REQUIRE_EQ((*x.ci).id, x.id, "const iterator refers to another element"); } else if (stale++ < 3) REQUIRE_THROWS(*x.it, "dereferenced a removed element"); }
        if (its.size() > 24) its.erase(its.begin(), its.begin() + 8);
        if (stats) { occ.check(cap); REQUIRE_EQ((uint64_t)ss.getChildAs<Counter>("cb_utilization_max")->get(), mx, "maximum occupancy"); }
    } }
    REQUIRE_EQ(El::live, live0, "elements alive after the buffer is gone");
    c.label("pushed", pushed); c.label("dropped", dropped); c.label("inserted", ins); c.label("inserted_full", full_ins); c.label("erased", erased); c.nontrivial(pushed + ins >= 4 && erased + dropped >= 1);
}
