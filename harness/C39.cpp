// C39: histories of shared and weak pointers against explicit reference counts.
#include "pbt.hpp"
#include "sparta/sparta.hpp"
#include "sparta/utils/SpartaSharedPointer.hpp"
#include "sparta/utils/SpartaSharedPointerAllocator.hpp"
#include <map>
#include <set>
#include <memory>
using namespace pbt;
static uint64_t below(Case& c, uint64_t n) { return n > 1 ? c.draw(n - 1) : 0; }
using sparta::SpartaSharedPointer; using sparta::SpartaWeakPointer; using sparta::SpartaSharedPointerAllocator;

struct Tracker { std::map<int, int> born, died; std::set<const void*> live; std::string bad; int next = 1; };
static Tracker* T;
struct Base {
    int id; uint64_t guard = 0x600dc0de600dc0deull;
    explicit Base(int i) : id(i) { ++T->born[i]; if (!T->live.insert(this).second) T->bad = "an object was constructed in a block that holds a live one"; }
    Base(const Base&) = delete;
    virtual ~Base() { if (guard != 0x600dc0de600dc0deull) T->bad = "a destroyed object was destroyed again"; guard = 0; ++T->died[id]; if (!T->live.erase(this)) T->bad = "something that is not alive was destroyed"; }
};
struct Obj;
typedef SpartaSharedPointer<Obj> SP; typedef SpartaWeakPointer<Obj> WP; typedef SpartaSharedPointer<Base> BP;
typedef SpartaSharedPointerAllocator<Obj> Alloc;
struct Boom {};
struct Obj : Base {
    SP next; WP self;
    explicit Obj(int i) : Base(i) {}
    Obj(int i, bool) : Base(i) { throw Boom(); }
    Obj(int i, Alloc& a, int inner, bool boom) : Base(i) { next = sparta::allocate_sparta_shared_pointer<Obj>(a, inner); if (boom) throw Boom(); }
    ~Obj() override { if (!self.expired()) T->bad = "a weak pointer to an object has not expired in its destructor"; if (self.lock()) T->bad = "an object could be locked in its destructor"; }
};
struct Model {
    struct O { bool alive = true; int strong = 0, weak = 0, next = 0; bool pooled = false, selfWeak = false, deadDone = false; };
    std::map<int, O> o;
    void inc(int i) { if (i) ++o[i].strong; }
    void dec(int i) {
        if (!i) return;
        if (--o[i].strong == 0) { o[i].alive = false; const int n = o[i].next; o[i].next = 0; if (o[i].selfWeak) { --o[i].weak; } dec(n); }
    }
    unsigned blocks() const { unsigned n = 0; for (auto& x : o) n += x.second.pooled && (x.second.alive || x.second.weak); return n; }
};
template <class P> static int idOf(const P& p) { return p ? p->id : 0; }

PROPERTY_BATCH(pointers, 80000, 1500000, 500) {
    Tracker t; T = &t;
    const unsigned cap = (unsigned)c.range(1, 12), mark = c.flip() ? cap : (unsigned)c.range(0, cap);
    Model m; unsigned maxBlocks = 0, warned = 0, over = 0, reused = 0, fresh = 0;
    std::map<int, const void*> where; std::set<const void*> seen;
    {
        auto pool = std::make_unique<Alloc>(cap, mark);
        pool->registerCustomWaterMarkCallback([&](const Alloc&) { ++warned; });
        pool->registerCustomOverAllocationCallback([&](const Alloc&) { ++over; });
        std::vector<SP> s(4); std::vector<int> ms(4, 0); std::vector<WP> w(3); std::vector<int> mw(3, 0); std::vector<BP> b(2); std::vector<int> mb(2, 0);
        struct Break { std::vector<SP>& s; ~Break() { std::vector<Obj*> live; for (auto p : T->live) live.push_back(const_cast<Obj*>(static_cast<const Obj*>(static_cast<const Base*>(p)))); for (auto p : live) if (T->live.count(static_cast<Base*>(p))) { SP q; q = std::move(p->next); } } };
        Break br{s};
        auto setS = [&](unsigned i, int id) { int old = ms[i]; m.inc(id); ms[i] = id; m.dec(old); };
        auto setW = [&](unsigned i, int id) { if (mw[i]) --m.o[mw[i]].weak; mw[i] = id; if (id) ++m.o[id].weak; };
        auto check = [&](const std::string& when) {
            REQUIRE(t.bad.empty(), when << ": " << t.bad);
            for (unsigned i = 0; i < s.size(); ++i) {
                REQUIRE(idOf(s[i]) == ms[i] && (bool)s[i] == (ms[i] != 0) && !s[i] == (ms[i] == 0), when << ": pointer " << i << " refers to " << idOf(s[i]) << " instead of " << ms[i]);
                REQUIRE_EQ((int)s[i].use_count(), ms[i] ? m.o[ms[i]].strong : 0, when + ": use count of pointer " + std::to_string(i));
            }
            for (unsigned i = 0; i < b.size(); ++i) { REQUIRE(idOf(b[i]) == mb[i], when << ": base pointer " << i); REQUIRE_EQ((int)b[i].use_count(), mb[i] ? m.o[mb[i]].strong : 0, when + ": use count of a base pointer"); }
            for (unsigned i = 0; i < w.size(); ++i) {
                const bool live = mw[i] && m.o[mw[i]].alive;
                REQUIRE_EQ(w[i].expired(), !live, when + ": expiry of weak pointer " + std::to_string(i));
                REQUIRE_EQ((int)w[i].use_count(), live ? m.o[mw[i]].strong : 0, when + ": use count of a weak pointer");
            }
            for (auto& x : m.o) {
                const int born = t.born[x.first], died = t.died[x.first];
                REQUIRE(born == 1 && died == (x.second.alive ? 0 : 1), when << ": object " << x.first << (x.second.alive ? " is referenced" : " is not referenced") << " but was destroyed " << died << " times");
            }
            const unsigned blocks = m.blocks(); maxBlocks = std::max(maxBlocks, blocks);
            std::set<int> out, want; for (auto p : pool->getOutstandingAllocatedObjects()) { REQUIRE(t.live.count(static_cast<const Base*>(p)), when << ": a destroyed object is reported as outstanding"); out.insert(p->id); }
            for (auto& x : m.o) if (x.second.pooled && x.second.alive) want.insert(x.first);
            REQUIRE(out == want, when << ": " << out.size() << " outstanding objects instead of " << want.size());
            REQUIRE_EQ(pool->hasOutstandingObjects(), (blocks != 0), when + ": outstanding objects");
            REQUIRE(pool->getNumFree() + blocks <= pool->getNumAllocated() && pool->getNumAllocated() <= cap, when << ": " << pool->getNumFree() << " free and " << blocks << " used blocks of " << pool->getNumAllocated());
        };
        auto born = [&](int id, bool pooled, Obj* p) { auto& o = m.o[id]; o.pooled = pooled; where[id] = p; if (pooled) { (seen.insert(p).second ? fresh : reused)++; for (auto& x : m.o) if (x.first != id && x.second.pooled && (x.second.alive || x.second.weak)) REQUIRE(where[x.first] != p, "the block of object " << x.first << " which is still " << (x.second.alive ? "referenced" : "watched") << " was handed out again"); } };
        const unsigned ops = (unsigned)c.small(1, 40); unsigned made = 0;
        for (unsigned op = 0; op < ops; ++op) {
            const unsigned i = (unsigned)below(c, s.size()), j = (unsigned)below(c, s.size()), k = (unsigned)below(c, w.size()), l = (unsigned)below(c, w.size()), q = (unsigned)below(c, b.size());
            std::string what;
            switch (c.weighted({4, 7, 3, 3, 2, 3, 3, 2, 2, 3, 2, 2, 3, 2, 2, 1, 1, 2, 1})) {
            case 0: { int id = t.next++; what = "heap object " + std::to_string(id) + " in " + std::to_string(i); LOG(c, what); m.o[id]; if (c.flip()) s[i] = SP(new Obj(id)); else s[i].reset(new Obj(id)); setS(i, id); born(id, false, s[i].get()); ++made; break; }
            case 1: {
                const int how = (int)c.weighted({6, 1, 1, 1}); const int id = t.next++, inner = t.next++; what = "pooled object " + std::to_string(id) + " in " + std::to_string(i) + " how " + std::to_string(how); LOG(c, what);
                const unsigned used = m.blocks(); unsigned o0 = over; bool full = false, boom = false; SP made_;
                try {
                    if (how == 0) made_ = sparta::allocate_sparta_shared_pointer<Obj>(*pool, id);
                    else if (how == 1) made_ = sparta::allocate_sparta_shared_pointer<Obj>(*pool, id, true);
                    else made_ = sparta::allocate_sparta_shared_pointer<Obj>(*pool, id, *pool, inner, how == 3);
                } catch (const Boom&) { boom = true; } catch (const sparta::SpartaException&) { full = true; }
                REQUIRE(t.bad.empty(), what << ": " << t.bad);
                const bool nested = how >= 2; const unsigned need = nested ? 2 : 1;
                if (full) { REQUIRE(used + need > cap || how == 3 || pool->getNumAllocated() == cap, what << " was refused although only " << used << " of " << cap << " blocks are used"); if (!nested) REQUIRE(over == o0 + 1, what << " was refused without telling the over-allocation callback"); if (how < 3) REQUIRE(used + need > cap, what << " was refused although only " << used << " of " << cap << " blocks are used"); break; }
                if (how == 1 || how == 3) { REQUIRE(boom, what << " should have failed in its constructor"); break; }
                REQUIRE(!boom && made_ && made_->id == id, what << " gives something else"); REQUIRE(used + need <= cap, "more objects than blocks");
                m.o[id]; if (nested) { m.o[inner]; born(inner, true, made_->next.get()); m.o[id].next = inner; m.inc(inner); }
                Obj* raw = made_.get();
                if (c.flip()) s[i] = made_; else s[i] = std::move(made_);
                setS(i, id); born(id, true, raw); ++made; break; }
            case 2: if (i != j) { what = "copy " + std::to_string(j) + " to " + std::to_string(i); LOG(c, what); s[i] = s[j]; setS(i, ms[j]); } break;
            case 3: if (i != j) { what = "move " + std::to_string(j) + " to " + std::to_string(i); LOG(c, what); s[i] = std::move(s[j]); setS(i, ms[j]); setS(j, 0); } break;
            case 4: { what = "through a temporary " + std::to_string(i); LOG(c, what); SP x(s[i]); REQUIRE_EQ((int)x.use_count(), ms[i] ? m.o[ms[i]].strong + 1 : 0, "use count with a copy"); SP y(std::move(x)); REQUIRE(!x && x.use_count() == 0 && y == s[i], "after a move"); s[i] = y; break; }
            case 5: what = "reset " + std::to_string(i); LOG(c, what); if (c.flip()) s[i].reset(); else s[i] = nullptr; setS(i, 0); break;
            case 6: what = "watch " + std::to_string(i); LOG(c, what); w[k] = WP(s[i]); setW(k, ms[i]); break;
            case 7: if (k != l) { const bool mv = c.flip(); what = mv ? "move weak" : "copy weak"; LOG(c, what << " " << l << " to " << k); if (mv) { w[k] = std::move(w[l]); int id = mw[l]; setW(k, id); setW(l, 0); } else { w[k] = w[l]; setW(k, mw[l]); } } break;
            case 8: { what = "weak temporary"; LOG(c, what << " " << k); WP x(w[k]); WP y(std::move(x)); REQUIRE(x.expired() && y.expired() == w[k].expired(), "weak pointers after a copy and a move"); if (c.flip()) { w[k] = WP(); setW(k, 0); } break; }
            case 9: { what = "lock " + std::to_string(k) + " to " + std::to_string(i); LOG(c, what); const int id = mw[k] && m.o[mw[k]].alive ? mw[k] : 0; SP x = w[k].lock(); REQUIRE(idOf(x) == id, "locking a pointer to object " << mw[k] << (id ? "" : " which is gone") << " gives " << idOf(x)); if (c.flip()) { SP y = w[k].lock(); REQUIRE(x == y, "locked twice"); } s[i] = std::move(x); setS(i, id); break; }
            case 10: what = "base " + std::to_string(i); LOG(c, what); { BP x(s[i]); b[q] = x; } { int old = mb[q]; m.inc(ms[i]); mb[q] = ms[i]; m.dec(old); } break;
            case 11: { what = "drop base " + std::to_string(q); LOG(c, what); b[q].reset(); int old = mb[q]; mb[q] = 0; m.dec(old); break; }
            case 12: if (ms[i]) { what = "link " + std::to_string(i) + " to " + std::to_string(j); LOG(c, what); const int at = ms[i], old = m.o[at].next; SP hold = s[i]; hold->next = s[j]; m.inc(ms[j]); m.o[at].next = ms[j]; m.dec(old); } break;
            case 13: if (ms[i]) { what = "advance " + std::to_string(i); LOG(c, what); const int n = m.o[ms[i]].next; const bool mv = c.flip(); const int at = ms[i];
                if (mv) { m.o[at].next = 0; s[i] = std::move(s[i]->next); const int old = ms[i]; ms[i] = n; m.dec(old); } else { s[i] = s[i]->next; setS(i, n); } } break;
            case 14: if (ms[i] && !m.o[ms[i]].selfWeak) { what = "watch itself " + std::to_string(i); LOG(c, what); s[i]->self = WP(s[i]); m.o[ms[i]].selfWeak = true; ++m.o[ms[i]].weak; } break;
            case 15: if (ms[i]) { what = "unlink itself " + std::to_string(i); LOG(c, what); Obj* raw = s[i].get(); const int at = ms[i]; // an object whose only reference may be its own
                s[i].reset(); setS(i, 0); if (m.o[at].alive) { raw->next.reset(); const int old = m.o[at].next; m.o[at].next = 0; m.dec(old); } } break;
            case 16: { what = "grow"; LOG(c, what); s.emplace_back(); ms.push_back(0); if (s.size() > 8) { s.erase(s.begin() + 1); int old = ms[1]; ms.erase(ms.begin() + 1); m.dec(old); } break; }
            case 17: { REQUIRE_EQ((s[i] == s[j]), (ms[i] == ms[j]), "equality"); REQUIRE_EQ((s[i] != b[q]), (ms[i] != mb[q]), "inequality with a base pointer"); REQUIRE((s[i] == nullptr) == !ms[i] && (nullptr != s[i]) == (ms[i] != 0), "comparison with null"); if (ms[i]) REQUIRE_EQ((*s[i]).id, ms[i], "object referred to"); else if (c.chance(1, 10)) { bool threw = false; try { (void)*s[i]; } catch (const sparta::SpartaException&) { threw = true; } REQUIRE(threw, "a null pointer was dereferenced"); } break; }
            case 18: if (ms[i]) { what = "by value"; LOG(c, what); auto f = [&](SP x) { REQUIRE_EQ((int)x.use_count(), m.o[ms[i]].strong + 1, "use count of an argument"); return x; }; SP x = f(s[i]); REQUIRE_EQ((int)x.use_count(), m.o[ms[i]].strong + 1, "use count of a result"); } break;
            }
            check(what);
        }
        REQUIRE(warned <= 1, "the watermark was reported " << warned << " times");
        REQUIRE(!(warned && pool->getNumAllocated() <= mark && !over), "the watermark of " << mark << " was reported although only " << pool->getNumAllocated() << " blocks were ever used");
        REQUIRE(!(pool->getNumAllocated() > mark + 1 && !warned), "the watermark of " << mark << " was not reported although " << pool->getNumAllocated() << " blocks were used");
        // everything is released: clear links first so that cycles go as well
        c.nontrivial(made >= 4 && ops >= 10);
        for (unsigned i = 0; i < s.size(); ++i) { s[i].reset(); setS(i, 0); } for (unsigned i = 0; i < b.size(); ++i) { b[i].reset(); int old = mb[i]; mb[i] = 0; m.dec(old); } check("after dropping every pointer");
        for (unsigned i = 0; i < w.size(); ++i) { w[i] = WP(); setW(i, 0); } check("after dropping every weak pointer");
        (void)reused; (void)fresh; (void)maxBlocks;
    }
    REQUIRE(t.bad.empty() && t.live.empty(), "at the end: " << t.bad << " " << t.live.size() << " objects alive");
    for (auto& x : t.born) if (m.o.count(x.first)) REQUIRE_EQ(t.died[x.first], x.second, "destructions of object " + std::to_string(x.first));
}
