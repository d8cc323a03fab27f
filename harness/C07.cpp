// C07: Buffer against a vector of element ids.
#include "sp.hpp"
#include "sparta/resources/Buffer.hpp"
#include "sparta/statistics/CycleHistogram.hpp"
using namespace sparta;

namespace {
// counted, self-checking element: notices being used after destruction, being destroyed twice, or being moved by memcpy
struct El { static long live; uint64_t id; const El* self; std::string s;
    explicit El(uint64_t i) : id(i), self(this), s("el" + std::to_string(i)) { ++live; }
    El(const El& o) : id(o.id), self(this), s(o.s) { o.check(); ++live; }
    El(El&& o) noexcept : id(o.id), self(this), s(std::move(o.s)) { ++live; o.s = "moved"; }
    El& operator=(const El& o) { o.check(); check(); id = o.id; s = o.s; return *this; }
    ~El() { if (self != this) abort(); self = nullptr; --live; }
    bool ok() const { return self == this && s == "el" + std::to_string(id); }
    void check() const { REQUIRE(ok(), "damaged element"); } };
long El::live = 0;
std::ostream& operator<<(std::ostream& o, const El& e) { return o << e.id; }
typedef Buffer<El> B;
struct It { B::iterator it; B::const_iterator ci; uint64_t id; bool alive; };
}

PROPERTY(buffer_model, 20000, 3000000) {
    long live0 = El::live; uint64_t inserted = 0, erased = 0, moved = 0, grown = 0, itc = 0;
    {
    Scheduler sched("s"); ClockManager cm(&sched); RootTreeNode rtn("top"); auto root = cm.makeRoot(&rtn, "root"); cm.normalize(); rtn.setClock(root.get());
    TreeNode node(&rtn, "node", "node"); StatisticSet ss(&node); bool stats = c.chance(1, 4);
    bool inf = c.chance(1, 4); uint32_t cap = (uint32_t)c.small(inf ? 0 : 1, 12); uint32_t delta = 1 + (uint32_t)c.draw(3);
    auto b = std::make_unique<B>("buf", cap, root.get(), stats ? &ss : nullptr); if (inf) b->makeInfinite(delta);
    sp::Teardown td{rtn};
    rtn.enterConfiguring(); rtn.enterFinalized(); sched.finalize();
    LOG(c, "capacity " << cap << (inf ? " infinite, grows by " + std::to_string(delta) : ""));
    std::vector<uint64_t> m; uint64_t id = 0; std::vector<It> its; std::vector<uint64_t> dead_since;   // ids
    auto full = [&] { return m.size() == cap; };
    auto grew = [&] { if (m.size() == cap && inf) { cap = b->capacity(); its.clear(); ++grown; } };       // growth reallocates: earlier iterators are not used again
    auto check = [&] {
        const B& cb = *b; REQUIRE_EQ(cb.size(), m.size(), "size"); REQUIRE_EQ(cb.empty(), m.empty(), "empty"); REQUIRE_EQ(cb.numFree(), cb.capacity() - m.size(), "numFree"); if (!inf) REQUIRE_EQ(cb.capacity(), cap, "capacity");
        REQUIRE_EQ(El::live - live0, (long)m.size(), "live elements");
        for (uint32_t i = 0; i < m.size(); ++i) { REQUIRE(cb.isValid(i), "isValid(" << i << ")"); REQUIRE(cb.read(i).ok(), "element " << i << " damaged"); REQUIRE_EQ(cb.read(i).id, m[i], "element at " << i); }
        REQUIRE(!cb.isValid((uint32_t)m.size()), "valid past the end"); REQUIRE_THROWS(cb.read((uint32_t)m.size()), "read past the end");
        std::vector<uint64_t> f, r; unsigned fuel = 200; for (auto i = cb.begin(); i != cb.end(); ++i) { REQUIRE(fuel--, "iteration does not end"); f.push_back((*i).id); } REQUIRE(f == m, "forward iteration visits other elements");
        fuel = 200; for (auto i = b->rbegin(); i != b->rend(); ++i) { REQUIRE(fuel--, "reverse iteration does not end"); r.push_back((*i).id); } std::reverse(r.begin(), r.end()); REQUIRE(r == m, "reverse iteration visits other elements");
        if (!m.empty()) REQUIRE_EQ(b->accessBack().id, m.back(), "accessBack");
        for (auto& x : its) { if (x.alive) { REQUIRE(x.it.isValid() && x.ci.isValid(), "iterator to " << x.id << " is no longer valid"); REQUIRE_EQ(x.it->id, x.id, "iterator now refers to another element"); REQUIRE_EQ((*x.ci).id, x.id, "const iterator now refers to another element"); REQUIRE_EQ(b->read(x.ci).id, x.id, "read(iterator)"); } }
        for (size_t i = 0; i + 1 < its.size() && i < 4; ++i) { auto &x = its[i], &y = its[i + 1]; if (!x.alive || !y.alive) continue; auto px = std::find(m.begin(), m.end(), x.id), py = std::find(m.begin(), m.end(), y.id); REQUIRE_EQ(x.it == y.it, px == py, "iterator equality"); REQUIRE_EQ(x.it < y.it, px < py, "iterator order"); REQUIRE_EQ(x.ci > y.ci, px > py, "iterator order"); REQUIRE(x.it < b->end() , "iterator not before end"); }
    };
    unsigned ops = (unsigned)c.urange(5, 50);
    for (unsigned k = 0; k < ops; ++k) {
        switch (c.weighted({6, 5, 3, 3, 2, 2, 1, 1})) {
        case 0: { bool f = full() && !inf; grew(); uint64_t n = ++id; bool rv = c.flip(); LOG(c, "push " << n << (f ? " (refused)" : "")); B::iterator it; El e(n);
            bool th = sp::throws([&] { it = rv ? b->push_back(std::move(e)) : b->push_back((const El&)e); }); REQUIRE_EQ(th, f, "push_back on a buffer of " << m.size() << "/" << cap); if (th) { LOG(c, ""); break; }
            if (inf && m.size() >= cap) cap = b->capacity(); m.push_back(n); its.push_back({it, it, n, true}); ++inserted; break; }
        case 1: { bool f = full() && !inf; uint32_t i = (uint32_t)c.draw(m.size() + (c.chance(1, 8) ? 1 : 0)); bool bad = i > m.size(); uint64_t n = ++id; unsigned how = i < m.size() && !m.empty() ? (unsigned)c.draw(3) : 0; LOG(c, "insert " << n << " before " << i << " how " << how << (f || bad ? " (refused)" : "")); B::iterator it; El e(n);
            grew();
            bool th = sp::throws([&] { if (how == 0) it = b->insert(i, e); else if (how == 1) it = b->insert(i, std::move(e)); else if (how == 2) { auto p = b->begin(); for (uint32_t j = 0; j < i; ++j) ++p; it = c.flip() ? b->insert(p, e) : b->insert(p, std::move(e)); } else { auto p = b->rbegin(); for (uint32_t j = (uint32_t)m.size(); j > i; --j) ++p; it = b->insert(B::const_reverse_iterator(B::const_iterator(p.base())), e); } });
            REQUIRE_EQ(th, f || bad, "insert at " << i << " of " << m.size() << "/" << cap); if (inf) cap = b->capacity(); if (th) break; m.insert(m.begin() + i, n); its.push_back({it, it, n, true}); ++inserted; break; }
        case 2: { uint32_t i = (uint32_t)c.draw(m.size()); bool bad = i >= m.size(); LOG(c, "erase index " << i << (bad ? " (refused)" : "")); bool th = sp::throws([&] { b->erase(i); }); REQUIRE_EQ(th, bad, "erase(" << i << ") of " << m.size()); if (th) break;
            uint64_t d = m[i]; m.erase(m.begin() + i); ++erased; for (auto& x : its) if (x.id == d && x.alive) { x.alive = false; REQUIRE(!x.it.isValid() && !x.ci.isValid(), "iterator to the erased " << d << " still valid"); REQUIRE_THROWS((void)*x.it, "dereferenced an erased element"); REQUIRE_THROWS(b->erase(x.ci), "erased through the iterator of an erased element"); }
            its.erase(std::remove_if(its.begin(), its.end(), [](const It& x) { return !x.alive; }), its.end()); break; }
        case 3: { if (m.empty()) { REQUIRE_THROWS(b->erase(b->end()), "erased end()"); break; } uint32_t i = (uint32_t)c.draw(m.size() - 1); unsigned how = (unsigned)c.draw(2); LOG(c, "erase iterator at " << i << " how " << how); uint64_t d = m[i];
            if (how == 2) { auto p = b->rbegin(); for (uint32_t j = (uint32_t)m.size() - 1; j > i; --j) ++p; auto r = b->erase(B::const_reverse_iterator(B::const_iterator(p.base()))); REQUIRE_EQ(r == b->rend(), i == 0, "reverse erase returned rend"); if (i > 0) REQUIRE_EQ((*r).id, m[i - 1], "reverse erase returned another element"); }
            else { B::const_iterator p = b->begin(); bool found = false; if (how == 1) for (auto& x : its) if (x.id == d) { p = x.ci; found = true; } if (!found) for (uint32_t j = 0; j < i; ++j) ++p; auto r = b->erase(p); REQUIRE_EQ(r == b->end(), i + 1 == m.size(), "erase returned end"); if (i + 1 < m.size()) REQUIRE_EQ((*r).id, m[i + 1], "erase returned another element"); }
            m.erase(m.begin() + i); ++erased; its.erase(std::remove_if(its.begin(), its.end(), [&](const It& x) { return x.id == d; }), its.end()); break; }
        case 4: { if (its.empty()) break; auto& x = its[c.draw(its.size() - 1)]; size_t i = std::find(m.begin(), m.end(), x.id) - m.begin(); LOG(c, "step the iterator of " << x.id); B::iterator p = x.it; ++itc;
            if (c.flip()) { auto q = c.flip() ? p++ : (++p, x.it); REQUIRE(q == x.it, "post-increment"); if (i + 1 < m.size()) REQUIRE_EQ(p->id, m[i + 1], "next of " << x.id); else { REQUIRE(p == b->end(), "next of the last"); REQUIRE_THROWS(++p, "incremented end"); --p; REQUIRE_EQ(p->id, m[i], "--end"); } }
            else if (i == 0) REQUIRE_THROWS(--p, "decremented begin"); else { auto q = c.flip() ? p-- : (--p, x.it); REQUIRE(q == x.it, "post-decrement"); REQUIRE_EQ(p->id, m[i - 1], "previous of " << x.id); } break; }
        case 5: { if (m.empty()) break; uint32_t i = (uint32_t)c.draw(m.size() - 1); uint64_t n = ++id, d = m[i]; LOG(c, "overwrite " << i << " with " << n); El e(n); if (c.flip()) b->access(i) = e; else { auto p = b->begin(); for (uint32_t j = 0; j < i; ++j) ++p; b->access(p) = e; } m[i] = n; for (auto& x : its) if (x.id == d) x.id = n; break; }
        case 6: LOG(c, "clear"); b->clear(); m.clear(); for (auto& x : its) REQUIRE(!x.it.isValid(), "iterator valid after clear"); its.clear(); break;
        default: { LOG(c, "move"); auto n = std::make_unique<B>(std::move(*b)); REQUIRE_EQ(b->size(), 0u, "size of a moved-from buffer"); b = std::move(n); its.clear(); ++moved; break; }
        }
        check();
    }
    b.reset(); REQUIRE_EQ(El::live, live0, "elements alive after the buffer is gone");
    }
    c.label("inserted", inserted); c.label("erased", erased); c.label("moved", moved); c.label("grown", grown); c.label("iterator_steps", itc);
    c.nontrivial(inserted >= 4 && erased >= 2);
}
