// C09: Array / FrontArray against a slot map with an age list; PriorityQueue against a stably sorted vector.
#include "sp.hpp"
#include "sparta/resources/Array.hpp"
#include "sparta/resources/FrontArray.hpp"
#include "sparta/resources/PriorityQueue.hpp"
using namespace sparta;

namespace {
struct El { static long live; uint64_t id; const El* self; std::string s;
    explicit El(uint64_t i) : id(i), self(this), s("el" + std::to_string(i)) { ++live; }
    El(const El& o) : id(o.id), self(this), s(o.s) { o.check(); ++live; }
    El(El&& o) noexcept : id(o.id), self(this), s(std::move(o.s)) { ++live; o.s = "moved"; }
    El& operator=(const El& o) { o.check(); check(); id = o.id; s = o.s; return *this; }
    ~El() { if (self != this) abort(); self = nullptr; --live; }
    bool operator==(const El& o) const { return id == o.id; }
    bool ok() const { return self == this && s == "el" + std::to_string(id); }
    void check() const { REQUIRE(ok(), "damaged element"); } };
long El::live = 0;
std::ostream& operator<<(std::ostream& o, const El& e) { return o << e.id; }

template <class A, bool AGED> void array_case(pbt::Case& c, bool front) {
    long live0 = El::live; uint64_t writes = 0, over = 0, erases = 0, aged = 0; {
    Scheduler sched("s"); ClockManager cm(&sched); RootTreeNode rtn("top"); auto root = cm.makeRoot(&rtn, "root"); cm.normalize(); rtn.setClock(root.get());
    TreeNode node(&rtn, "node", "node"); StatisticSet ss(&node); bool stats = c.chance(1, 16);
    uint32_t cap = (uint32_t)c.small(1, 14); A a("arr", cap, root.get(), stats ? &ss : nullptr); sp::Teardown td{rtn};
    rtn.enterConfiguring(); rtn.enterFinalized(); sched.finalize(); if (stats) sched.run(1, true, false);
    LOG(c, (AGED ? "aged" : "plain") << (front ? " front" : "") << " array of " << cap);
    std::map<uint32_t, uint64_t> m; std::vector<uint32_t> age;   // age: slots, oldest first
    uint64_t id = 0, since = stats ? 0 : 0; std::vector<uint64_t> cyc(cap + 1); size_t cur = 0;
    auto occ = [&] { if (!stats) return; uint64_t e = root->elapsedCycles(); cyc[cur] += e - since; since = e; cur = m.size(); };
    auto wrote = [&](uint32_t i, uint64_t n) { if (m.count(i)) { ++over; age.erase(std::find(age.begin(), age.end(), i)); } m[i] = n; age.push_back(i); ++writes; };
    auto pick = [&] { auto it = m.begin(); std::advance(it, c.draw(m.size() - 1)); return it->first; };
    unsigned ops = (unsigned)c.urange(5, 50);
    for (unsigned k = 0; k < ops; ++k) {
        switch (c.weighted({5, front ? 4u : 0u, front ? 3u : 0u, 4, 1, 1, AGED ? 2u : 0u, 1, stats ? 3u : 0u})) {
        case 0: { uint32_t i = (uint32_t)c.draw(cap - 1); uint64_t n = ++id; unsigned how = (unsigned)c.draw(4); bool bad = c.chance(1, 24); if (bad) i = cap + (uint32_t)c.draw(3); LOG(c, "write " << n << " to slot " << i << " how " << how << (bad ? " (refused)" : "")); El e(n);
            if (how == 4 && m.size()) { n = m[pick()]; uint32_t src = 0; for (auto& kv : m) if (kv.second == n) src = kv.first; if (bad) REQUIRE_THROWS(a.write(i, a.read(src)), "written out of range"); else { a.write(i, a.read(src)); wrote(i, n); } break; }      // copies a slot, possibly onto itself
            auto it = a.begin(); if (!bad) for (uint32_t j = 0; j < i; ++j) ++it;
            bool th = sp::throws([&] { if (bad || how == 0) a.write(i, (const El&)e); else if (how == 1 || how == 4) a.write(i, std::move(e)); else if (how == 2) a.write(it, (const El&)e); else a.write(it, std::move(e)); }); REQUIRE_EQ(th, bad, "write to slot " << i << " of " << cap); if (!th) wrote(i, n); break; }
        case 1: case 2: { break; }
        case 3: { uint32_t i = (uint32_t)c.draw(cap); bool bad = !m.count(i); bool byit = !bad && c.flip(); if (bad && c.chance(3, 4) && m.size()) { i = pick(); bad = false; } LOG(c, "erase slot " << i << (bad ? " (refused)" : "")); bool th = sp::throws([&] { if (byit) { auto it = a.begin(); for (uint32_t j = 0; j < i; ++j) ++it; a.erase(it); } else a.erase(i); }); REQUIRE_EQ(th, bad, "erase slot " << i); if (!th) { m.erase(i); age.erase(std::find(age.begin(), age.end(), i)); ++erases; } break; }
        case 4: if (!c.chance(1, 3)) break; LOG(c, "clear"); a.clear(); m.clear(); age.clear(); break;
        case 5: { if (m.empty()) break; uint32_t i = pick(); uint64_t n = ++id; LOG(c, "overwrite the content of " << i << " with " << n); El e(n); a.access(i) = e; m[i] = n; break; }
        case 6: if constexpr (AGED) { if (age.size() < 2) break; size_t x = c.draw(age.size() - 1), y = c.draw(age.size() - 1); if (x == y) break; ++aged; REQUIRE_EQ(a.isOlder(age[x], age[y]), x < y, "isOlder(" << age[x] << "," << age[y] << ")"); REQUIRE_EQ(a.isYounger(age[x], age[y]), x > y, "isYounger");
            auto p = a.begin(), q = a.begin(); while (p.getIndex() != age[x]) ++p; while (q.getIndex() != age[y]) ++q; REQUIRE_EQ(p.isOlder(q), x < y, "iterator isOlder"); REQUIRE_EQ(p.isYounger(age[y]), x > y, "iterator isYounger"); } break;
        case 7: { uint32_t s = (uint32_t)c.draw(cap - 1); auto it = a.getCircularIterator(s); for (uint32_t j = 0; j < cap + 2; ++j, ++it) { uint32_t w = (s + j) % cap; REQUIRE_EQ(it.getIndex(), w, "circular iteration"); REQUIRE_EQ(it.isValid(), m.count(w) == 1, "validity in circular iteration"); if (m.count(w)) REQUIRE_EQ(it->id, m[w], "element in circular iteration"); } break; }
        default: { uint64_t n = c.urange(1, 5); LOG(c, "run " << n); sched.run(n, true, false); break; }
        }
        if constexpr (!std::is_same<A, Array<El, AGED ? ArrayType::AGED : ArrayType::NORMAL>>::value) {
            if (c.chance(1, 2)) { bool back = c.flip(), full = m.size() == cap; uint64_t n = ++id; El e(n); unsigned how = (unsigned)c.draw(3); uint32_t want = 0; if (back) { want = cap - 1; while (!full && m.count(want)) --want; } else while (!full && m.count(want)) ++want;
                LOG(c, "write " << n << " to the " << (back ? "back" : "front") << " how " << how << (full ? " (refused)" : "")); uint32_t r = 0; bool th = sp::throws([&] { r = back ? how == 0 ? a.writeBack((const El&)e) : how == 1 ? a.writeBack(std::move(e)) : how == 2 ? a.push_back((const El&)e) : a.push_back(std::move(e)) : how == 0 ? a.writeFront((const El&)e) : how == 1 ? a.writeFront(std::move(e)) : how == 2 ? a.push_front((const El&)e) : a.push_front(std::move(e)); });
                REQUIRE_EQ(th, full, "write into " << m.size() << "/" << cap); if (!th) { REQUIRE_EQ(r, want, "slot chosen"); wrote(r, n); } }
            uint32_t nth = 0; for (auto& kv : m) { REQUIRE_EQ(a.readValid(nth).id, kv.second, "readValid(" << nth << ")"); ++nth; } if (k % 8 == 7) REQUIRE_THROWS(a.readValid(nth), "readValid past the last valid entry");
        }
        occ();
        const A& ca = a; REQUIRE_EQ(ca.size(), m.size(), "size"); REQUIRE_EQ(ca.numValid(), m.size(), "numValid"); REQUIRE_EQ(ca.numFree(), cap - m.size(), "numFree"); REQUIRE_EQ(ca.capacity(), cap, "capacity"); REQUIRE_EQ(El::live - live0, (long)m.size(), "live elements");
        bool bad_read = false; for (uint32_t i = 0; i < cap + 2; ++i) { bool v = m.count(i); REQUIRE_EQ(ca.isValid(i), v, "isValid(" << i << ")"); if (v) { REQUIRE(ca.read(i).ok(), "damaged element in slot " << i); REQUIRE_EQ(ca.read(i).id, m[i], "content of slot " << i); REQUIRE_EQ(a.access(i).id, m[i], "access to slot " << i); } else if (!bad_read && k % 4 == 3) { bad_read = true; REQUIRE_THROWS(ca.read(i), "read the empty slot " << i); REQUIRE_THROWS(a.access(i), "accessed the empty slot"); } }
        uint32_t x = 0; for (auto it = a.begin(); it != a.end(); ++it, ++x) { REQUIRE(x < cap, "iteration does not end"); REQUIRE_EQ(it.getIndex(), x, "iteration index"); REQUIRE_EQ(it.isValid(), m.count(x) == 1, "iterator validity"); if (m.count(x)) REQUIRE_EQ((*it).id, m[x], "iterated element"); } REQUIRE_EQ(x, cap, "iteration stops early");
        if constexpr (AGED) {
            std::vector<uint32_t> w; unsigned fuel = 100; for (auto it = a.abegin(); it != a.aend(); ++it) { REQUIRE(fuel--, "aged iteration does not end"); w.push_back(it.getIndex()); REQUIRE_EQ(it->id, m[it.getIndex()], "aged element"); } REQUIRE(w == age, "aged iteration is not in insertion order");
            w.clear(); fuel = 100; for (auto it = ca.abegin(); it != ca.aend(); ++it) { REQUIRE(fuel--, "const aged iteration does not end"); w.push_back(it.getIndex()); } REQUIRE(w == age, "const aged iteration is not in insertion order");
            REQUIRE(std::vector<uint32_t>(ca.getAgedList().rbegin(), ca.getAgedList().rend()) == age, "aged list");
            for (uint32_t i = 0; i < age.size(); ++i) { REQUIRE_EQ(ca.getOldestIndex(i).getIndex(), age[i], i << "th oldest"); REQUIRE_EQ(ca.getYoungestIndex(i).getIndex(), age[age.size() - 1 - i], i << "th youngest"); REQUIRE_EQ(ca.getAge(age[i]), i, "relative age of " << age[i]); uint32_t nx = age[i]; bool has = ca.getNextOldestIndex(nx); REQUIRE_EQ(has, i + 1 < age.size(), "next oldest exists"); if (has) REQUIRE_EQ(nx, age[i + 1], "next oldest"); }
            if (k % 8 == 6) { REQUIRE_THROWS(ca.getOldestIndex((uint32_t)age.size()), "oldest past the end"); REQUIRE_THROWS(ca.getYoungestIndex((uint32_t)age.size()), "youngest past the end"); }
        }
        if (stats) { occ(); for (size_t i = 0; i <= cap; ++i) REQUIRE_EQ((uint64_t)ss.getChildAs<CycleCounter>("arr_utilization_count" + std::to_string(i))->get(), cyc[i], "cycles spent at occupancy " << i); }
    } }
    REQUIRE_EQ(El::live, live0, "elements alive after the array is gone");
    c.label("writes", writes); c.label("overwrites", over); c.label("erases", erases); c.label("age_queries", aged); c.nontrivial(writes >= 4 && erases >= 1);
}
}

PROPERTY(aged_array, 6000, 1000000) { array_case<Array<El>, true>(c, false); }
PROPERTY(plain_array, 3000, 500000) { array_case<Array<El, ArrayType::NORMAL>, false>(c, false); }
PROPERTY(front_array, 6000, 1000000) { if (c.flip()) array_case<FrontArray<El>, true>(c, true); else array_case<FrontArray<El, ArrayType::NORMAL>, false>(c, true); }

namespace {
struct Item { int prio; uint64_t id; bool operator<(const Item& o) const { return prio < o.prio; } bool operator==(const Item& o) const { return id == o.id; } };
struct Desc { int mod = 100; bool operator()(const Item& a, const Item& b) const { return a.prio % mod > b.prio % mod; } };
template <class Q, class Less> void pq_case(pbt::Case& c, Q& q, Less less, size_t bound) {
    std::vector<Item> m; uint64_t id = 0, ins = 0, pops = 0, ties = 0; unsigned ops = (unsigned)c.urange(5, 60); bool forced = false;
    for (unsigned k = 0; k < ops; ++k) {
        switch (c.weighted({8, 3, 2, 2, 1, 1})) {
        case 0: { Item x{(int)c.draw(c.flip() ? 4 : 20), ++id}; bool f = bound && m.size() == bound; LOG(c, "insert priority " << x.prio << " id " << x.id << (f ? " (refused)" : "")); bool th = sp::throws([&] { q.insert(x); }); REQUIRE_EQ(th, f, "insert into " << m.size()); if (th) break; ++ins;
            auto it = m.begin(); while (it != m.end() && !less(x, *it)) { ties += !less(*it, x); ++it; } m.insert(it, x); break; }
        case 1: { bool e = m.empty(); LOG(c, "pop"); REQUIRE_EQ(sp::throws([&] { q.pop(); }), e, "pop"); if (!e) { m.erase(m.begin()); ++pops; } break; }
        case 2: { if (m.empty()) break; size_t i = c.draw(m.size() - 1); LOG(c, "erase at " << i); auto it = q.begin(); for (size_t j = 0; j < i; ++j) ++it; q.erase(it); m.erase(m.begin() + i); break; }
        case 3: if constexpr (std::is_same<typename Q::iterator, typename std::list<Item>::iterator>::value) { if (m.empty()) break; size_t i = c.draw(m.size() - 1); Item x = m[i]; LOG(c, "remove id " << x.id); q.remove(x); m.erase(m.begin() + i); } break;
        case 4: { if (bound && m.size() == bound) break; Item x{(int)c.draw(20), ++id}; LOG(c, "force to the front priority " << x.prio << " id " << x.id); q.forceFront(x); m.insert(m.begin(), x); forced = true; break; }
        default: if (c.chance(1, 2)) { LOG(c, "clear"); q.clear(); m.clear(); } break;
        }
        const Q& cq = q; REQUIRE_EQ(cq.size(), m.size(), "size"); REQUIRE_EQ(cq.empty(), m.empty(), "empty"); if (m.empty()) { if (k % 4 == 0) { REQUIRE_THROWS(cq.top(), "top of empty"); } } else { REQUIRE_EQ(cq.top().id, m.front().id, "top"); if constexpr (std::is_same<typename Q::iterator, typename std::list<Item>::iterator>::value) REQUIRE_EQ(cq.back().id, m.back().id, "back"); }
        size_t i = 0; for (auto it = cq.begin(); !(it == cq.end()); ++it, ++i) { REQUIRE(i < m.size(), "iteration does not end"); REQUIRE_EQ((*it).id, m[i].id, "element " << i); REQUIRE_EQ((*it).prio, m[i].prio, "priority of element " << i); } REQUIRE_EQ(i, m.size(), "iteration stops early"); i = 0; for (auto& e : q) { REQUIRE_EQ(e.id, m[i].id, "element " << i); ++i; }
    }
    c.label("inserted", ins); c.label("popped", pops); c.label("ties", ties); c.label("forced", forced); c.nontrivial(ins >= 4 && pops >= 1);
}
}
PROPERTY(priority_queue, 20000, 2000000) {
    unsigned kind = (unsigned)c.draw(3); LOG(c, "queue kind " << kind);
    if (kind == 0) { PriorityQueue<Item> q; pq_case(c, q, std::less<Item>(), 0); }
    else if (kind == 1) { Desc d{(int)c.urange(2, 12)}; PriorityQueue<Item, Desc> q(d); pq_case(c, q, d, 0); }
    else if (kind == 2) { PriorityQueue<Item, std::less<Item>, 9> q; pq_case(c, q, std::less<Item>(), 9); }
    else { Desc d{(int)c.urange(2, 12)}; PriorityQueue<Item, Desc, 5> q(d); pq_case(c, q, d, 5); }
}
