// C38: the cache models against a reference set-associative cache with explicit recency lists and trees.
#include "pbt.hpp"
#include "sparta/sparta.hpp"
#include "sparta/utils/SpartaAssert.hpp"
#include "cache/ReplacementIF.hpp"
#include "cache/BlockingMemoryIF.hpp"
#include "cache/AddrDecoderIF.hpp"
#include "cache/DefaultAddrDecoder.hpp"
#include "cache/LRUReplacement.hpp"
#include "cache/TreePLRUReplacement.hpp"
#include "cache/LineData.hpp"
#include "cache/Cache.hpp"
#include "cache/SimpleCache.hpp"
#include "cache/SimpleCache2.hpp"
#include "sparta/utils/ByteOrder.hpp"
#include <map>
#include <set>
#include <memory>
#include <sstream>
using namespace pbt;
using namespace sparta::cache;
static uint64_t below(Case& c, uint64_t n) { return n > 1 ? c.draw(n - 1) : 0; }

// ---- reference replacement ----
struct Policy {
    bool tree; unsigned n; std::vector<unsigned> order;              // order: least recent first
    std::map<std::pair<unsigned, unsigned>, bool> right;              // range -> the least recently used half is the right one
    Policy(bool t, unsigned ways) : tree(t), n(ways) { for (unsigned i = 0; i < ways; ++i) order.push_back(i); }
    void touch(unsigned w, bool mru) {
        if (!tree) { order.erase(std::find(order.begin(), order.end(), w)); order.insert(mru ? order.end() : order.begin(), w); return; }
        unsigned lo = 0, hi = n;
        while (hi - lo > 1) { unsigned mid = (lo + hi) / 2; bool in = w >= mid; right[{lo, hi}] = mru ? !in : in; (in ? lo : hi) = mid; }
    }
    unsigned pick(bool mru) const {
        if (!tree) return mru ? order.back() : order.front();
        unsigned lo = 0, hi = n;
        while (hi - lo > 1) { unsigned mid = (lo + hi) / 2; auto it = right.find({lo, hi}); bool r = it != right.end() && it->second; if (mru) r = !r; (r ? lo : hi) = mid; }
        return lo;
    }
    void reset() { right.clear(); }
};
static std::unique_ptr<ReplacementIF> makePolicy(bool tree, unsigned ways) {
    if (tree) return std::make_unique<TreePLRUReplacement>(ways);
    return std::make_unique<LRUReplacement>(ways);
}

PROPERTY_BATCH(policy, 20000, 200000, 200) {
    const bool tree = c.flip(); const unsigned ways = tree ? 1u << c.range(0, 7) : (unsigned)c.range(1, 20);
    auto proto = makePolicy(tree, ways); std::unique_ptr<ReplacementIF> rep(proto->clone());
    Policy m(tree, ways);
    LOG(c, (tree ? "tree " : "list ") << ways);
    REQUIRE_EQ(rep->getNumWays(), ways, "number of ways");
    const unsigned ops = (unsigned)c.small(1, 60);
    for (unsigned i = 0; i < ops; ++i) {
        unsigned w = (unsigned)below(c, ways);
        switch (c.weighted({6, 2, 1})) {
        case 0: LOG(c, "mru " << w); rep->touchMRU(w); m.touch(w, true); REQUIRE_EQ(rep->getMRUWay(), w, "most recent way after touching it"); break;
        case 1: LOG(c, "lru " << w); rep->touchLRU(w); m.touch(w, false); REQUIRE_EQ(rep->getLRUWay(), w, "victim after demoting it"); break;
        case 2: if (tree && c.chance(1, 4)) { LOG(c, "reset"); rep->reset(); m.reset(); } break;
        }
        REQUIRE_EQ((unsigned)rep->getLRUWay(), m.pick(false), "victim");
        REQUIRE_EQ((unsigned)rep->getMRUWay(), m.pick(true), "most recent way");
        if (tree && c.chance(1, 8)) {
            std::istringstream in(static_cast<TreePLRUReplacement*>(rep.get())->getDisplayString()); std::vector<unsigned> d; unsigned x; while (in >> x) d.push_back(x);
            REQUIRE_EQ(d.size(), (size_t)ways, "ways displayed"); REQUIRE(std::set<unsigned>(d.begin(), d.end()).size() == ways && d.front() == m.pick(true) && d.back() == m.pick(false), "display from most to least recent");
        }
    }
    c.nontrivial(ways >= 3 && ops >= 6);
}

PROPERTY_BATCH(decoder, 20000, 200000, 200) {
    const unsigned lb = (unsigned)c.range(0, 12), sb = (unsigned)c.range(0, 12); const unsigned ways = (unsigned)c.range(1, 16);
    const uint64_t line = 1ull << lb, sets = 1ull << sb; uint64_t sz = line * sets * ways; bool kb = sz % 1024 == 0 && c.flip();
    const unsigned xb = c.chance(1, 3) ? lb + (unsigned)c.range(0, 6) : lb; const uint64_t stride = 1ull << xb;
    DefaultAddrDecoder d(kb ? sz / 1024 : sz, line, stride, ways, kb);
    LOG(c, "line " << line << " sets " << sets << " ways " << ways << " stride " << stride);
    std::map<std::tuple<uint64_t, uint32_t, uint64_t>, uint64_t> seen;
    const uint64_t bank = xb > lb ? below(c, 1ull << (xb - lb)) : 0;
    for (int i = 0; i < 12; ++i) {
        uint64_t a = c.bits(64); if (xb > lb) a = (a & ~((stride - 1) & ~(line - 1))) | (bank << lb);   // one bank of interleaved lines
        const uint64_t tag = d.calcTag(a), off = d.calcBlockOffset(a); const uint32_t idx = d.calcIdx(a);
        REQUIRE(idx < sets && off < line, "address " << a << " decodes to index " << idx << " and offset " << off);
        REQUIRE_EQ(d.calcBlockAddr(a), a / line * line, "block address");
        REQUIRE_EQ(d.calcBlockAddr(a) + off, a, "block address plus offset");
        unsigned __int128 back = (unsigned __int128)tag * (sets * stride) + (unsigned __int128)idx * stride + (bank << lb) + off;
        REQUIRE(back == a, "tag, index and offset of " << a << " give another address");
        auto k = std::make_tuple(tag, idx, off); auto it = seen.find(k);
        REQUIRE(it == seen.end() || it->second == a, "two addresses decode alike"); seen[k] = a;
        const uint64_t b = a ^ (1ull << below(c, 64));
        if (xb == lb) REQUIRE(d.calcTag(b) != tag || d.calcIdx(b) != idx || d.calcBlockOffset(b) != off, "addresses " << a << " and " << b << " decode alike");
    }
    c.nontrivial(sets >= 2 && line >= 2);
}

// ---- reference cache ----
struct Line { bool valid = false, dirty = false, nt = false; uint64_t block = 0; std::vector<uint8_t> data; };
struct RefSet { std::vector<Line> ways; Policy p; unsigned lastNt = 0; RefSet(bool t, unsigned n) : ways(n), p(t, n) {} };
struct Geo { bool tree; unsigned ways; uint64_t line, sets, stride; };
struct Memory {
    std::map<uint64_t, uint8_t> m;
    uint8_t at(uint64_t a) const { auto i = m.find(a); return i == m.end() ? (uint8_t)(a * 37 + (a >> 8) * 11 + 5) : i->second; }
};
struct Ref {
    Geo g; std::vector<RefSet> sets; Memory mem;
    Ref(Geo g_) : g(g_) { for (uint64_t i = 0; i < g.sets; ++i) sets.emplace_back(g.tree, g.ways); }
    RefSet& set(uint64_t a) { return sets[a / g.stride % g.sets]; }
    int find(uint64_t a) { auto& s = set(a); for (unsigned w = 0; w < g.ways; ++w) if (s.ways[w].valid && s.ways[w].block == a / g.line * g.line) return (int)w; return -1; }
    void fill(Line& l, uint64_t a) { l.valid = true; l.dirty = false; l.block = a / g.line * g.line; l.data.resize(g.line); for (uint64_t i = 0; i < g.line; ++i) l.data[i] = mem.at(l.block + i); }
    void writeBack(const Line& l) { for (uint64_t i = 0; i < g.line; ++i) mem.m[l.block + i] = l.data[i]; }
};
static Geo genGeo(Case& c) {
    Geo g; g.tree = c.flip(); g.ways = g.tree ? 1u << c.range(0, 4) : (unsigned)c.range(1, 9);
    g.line = 1ull << c.range(0, 7); g.sets = 1ull << c.range(0, 4); g.stride = g.line; return g;
}
struct Pool { std::vector<uint64_t> blocks; uint64_t line; };
static Pool genPool(Case& c, const Geo& g) {
    Pool p; p.line = g.line; const uint64_t base = c.chance(1, 3) ? c.bits(63) / g.line * g.line : 0; const unsigned n = (unsigned)c.range(1, 3 * g.ways + 2);
    const uint64_t hot = below(c, g.sets);
    for (unsigned i = 0; i < n; ++i) { uint64_t set = c.chance(3, 4) ? hot : below(c, g.sets); p.blocks.push_back(base / (g.sets * g.line) * (g.sets * g.line) + (below(c, 2 * n) * g.sets + set) * g.line); }
    return p;
}
static uint64_t genAddr(Case& c, const Pool& p, uint32_t& size) { uint64_t off = below(c, p.line); size = (uint32_t)c.range(1, p.line - off); return p.blocks[below(c, p.blocks.size())] + off; }

struct Mine : SimpleCache<LineData> {
    Memory& mem; uint64_t castouts = 0, reloads = 0, throughs = 0; std::vector<uint64_t> out;
    Mine(Memory& m, uint64_t kb, uint64_t line, uint64_t stride, const ReplacementIF& r) : SimpleCache<LineData>(kb, line, stride, LineData(line), r), mem(m) {}
    void castout_(const LineData& l) override { ++castouts; out.push_back(l.getAddr()); for (uint64_t i = 0; i < l.getLineSize(); ++i) mem.m[l.getAddr() + i] = l.getDataPtr()[i]; SimpleCache<LineData>::castout_(l); }
    void reload_(uint64_t a, LineData& l) override { ++reloads; for (uint64_t i = 0; i < l.getLineSize(); ++i) l.getDataPtr()[i] = mem.at(a + i); SimpleCache<LineData>::reload_(a, l); }
    void writeNextLevel_(uint64_t a, uint32_t n, const uint8_t* b) override { ++throughs; for (uint32_t i = 0; i < n; ++i) mem.m[a + i] = b[i]; SimpleCache<LineData>::writeNextLevel_(a, n, b); }
    Cache<LineData>& raw() { return cache_; }
};
static void compareAll(Cache<LineData>& cache, Ref& r, const std::string& when) {
    unsigned si = 0;
    for (auto& s : cache) {
        unsigned w = 0;
        for (auto& l : s) {
            auto& e = r.sets[si].ways[w];
            REQUIRE(l.isValid() == e.valid && l.getWay() == w && l.getSetIndex() == si, when << ": set " << si << " way " << w << " is " << (l.isValid() ? "" : "not ") << "valid");
            if (e.valid) {
                REQUIRE(l.getAddr() == e.block && l.isModified() == e.dirty, when << ": set " << si << " way " << w << " holds " << l.getAddr() << (l.isModified() ? " modified" : "") << " instead of " << e.block << (e.dirty ? " modified" : ""));
                REQUIRE(std::equal(e.data.begin(), e.data.end(), l.getDataPtr()), when << ": data of set " << si << " way " << w);
            }
            ++w;
        }
        REQUIRE_EQ(w, r.g.ways, "ways in a set");
        REQUIRE_EQ((unsigned)s.getReplacementIF()->getLRUWay(), r.sets[si].p.pick(false), when + ": victim of set " + std::to_string(si));
        ++si;
    }
    REQUIRE_EQ((uint64_t)si, r.g.sets, "sets");
}
PROPERTY_BATCH(simplecache, 16000, 120000, 100) {
    Geo g = genGeo(c); while (g.line * g.sets * g.ways % 1024) { if (g.line < 128) g.line *= 2; else g.sets *= 2; } g.stride = g.line;
    auto rep = makePolicy(g.tree, g.ways);
    Ref r(g); Memory mem; Mine cache(mem, g.line * g.sets * g.ways / 1024, g.line, g.stride, *rep);
    bool wt = c.flip(), wa = c.flip(); cache.setWriteThroughMode(wt); cache.setWriteAllocateMode(wa);
    Pool pool = genPool(c, g);
    LOG(c, (g.tree ? "tree " : "list ") << g.ways << " ways, line " << g.line << ", sets " << g.sets << (wt ? ", write through" : "") << (wa ? ", write allocate" : ""));
    uint64_t nr = 0, nw = 0, nrm = 0, nwm = 0, nco = 0, nre = 0, nnx = 0, ngm = 0, evictions = 0;
    auto replace = [&](uint64_t a) -> int {
        auto& s = r.set(a); unsigned v = s.p.pick(false); Line& l = s.ways[v];
        if (l.valid) ++evictions;
        if (l.valid && l.dirty) { r.writeBack(l); ++nco; }
        r.fill(l, a); ++nre; return (int)v;
    };
    const unsigned ops = (unsigned)c.small(1, 60);
    for (unsigned o = 0; o < ops; ++o) {
        uint32_t n; uint64_t a = genAddr(c, pool, n);
        int w = r.find(a);
        switch (c.weighted({6, 6, 2, 1, 2, 1, 1})) {
        case 0: {
            LOG(c, "read " << a << " " << n); std::vector<uint8_t> buf(n);
            REQUIRE(cache.read(a, n, buf.data()), "read refused"); ++nr;
            if (w < 0) { ++nrm; w = replace(a); }
            auto& s = r.set(a); s.p.touch(w, true);
            REQUIRE(std::equal(buf.begin(), buf.end(), s.ways[w].data.begin() + a % g.line), "read of " << n << " bytes at " << a << " gives other data"); break; }
        case 1: {
            std::vector<uint8_t> buf(n); for (auto& b : buf) b = (uint8_t)c.bits(8);
            LOG(c, "write " << a << " " << n); REQUIRE(cache.write(a, n, buf.data()), "write refused"); ++nw;
            bool next = wt;
            if (w < 0) { ++nwm; if (wa) w = replace(a); else next = true; }
            if (w >= 0) { auto& s = r.set(a); s.p.touch(w, true); std::copy(buf.begin(), buf.end(), s.ways[w].data.begin() + a % g.line); s.ways[w].dirty = true; }
            if (next) { ++nnx; for (uint32_t i = 0; i < n; ++i) r.mem.m[a + i] = buf[i]; }
            break; }
        case 2: {
            LOG(c, "line " << a); LineData* l = cache.getLine(a);
            if (w < 0) { ++ngm; w = replace(a); }
            auto& s = r.set(a); s.p.touch(w, true);
            REQUIRE(l && l->getAddr() == s.ways[w].block && l->getWay() == (unsigned)w && l->getTag() == a / (g.sets * g.line), "line found for " << a); break; }
        case 3: {
            if (w < 0) { if (c.chance(1, 8)) { bool threw = false; try { cache.invalidateLine(a); } catch (const sparta::SpartaException&) { threw = true; } REQUIRE(threw, "a line that is not present was invalidated"); } break; }
            LOG(c, "invalidate " << a); cache.invalidateLine(a); auto& s = r.set(a); s.ways[w].valid = false; s.p.touch(w, false); break; }
        case 4: {
            bool need = true, dirty = false; uint64_t out = 0;
            const bool hit = cache.isHitWithCastout(a, need, out, dirty);
            auto& v = r.set(a).ways[r.set(a).p.pick(false)];
            REQUIRE(hit == (w >= 0) && cache.isHit(a) == hit && (cache.peekLine(a) != nullptr) == hit, "presence of " << a);
            REQUIRE_EQ(need, (!hit && v.valid), "a castout is needed");
            if (need) REQUIRE(dirty == v.dirty && out == v.block, "predicted castout " << out << " instead of " << v.block);
            break; }
        case 5: if (c.chance(1, 4)) { LOG(c, "invalidate all"); cache.invalidateAll(); for (auto& s : r.sets) { for (auto& l : s.ways) l.valid = false; s.p.reset(); } } break;
        case 6: if (c.chance(1, 3)) { cache.resetStats(); nr = nw = nrm = nwm = nco = nre = nnx = ngm = 0; } else if (c.chance(1, 3)) { wa = !wa; cache.setWriteAllocateMode(wa); } else { wt = !wt; cache.setWriteThroughMode(wt); } break;
        }
        REQUIRE(cache.getNumReads() == nr && cache.getNumWrites() == nw && cache.getNumReadMisses() == nrm && cache.getNumWriteMisses() == nwm && cache.getNumCastouts() == nco && cache.getNumReloads() == nre && cache.getNumWriteNextLevel() == nnx && cache.getNumGetLineMisses() == ngm, "statistics after operation " << o);
        if (c.chance(1, 6)) compareAll(cache.raw(), r, "after operation " + std::to_string(o));
    }
    compareAll(cache.raw(), r, "at the end");
    for (auto b : pool.blocks) for (uint64_t i = 0; i < g.line; ++i) REQUIRE_EQ((unsigned)mem.at(b + i), (unsigned)r.mem.at(b + i), "next level's byte at " + std::to_string(b + i));
    c.nontrivial(evictions >= 2 && ops >= 8);
}

typedef SimpleCache2<LineDataWithNT> C2;
PROPERTY_BATCH(simplecache2, 16000, 120000, 100) {
    Geo g = genGeo(c); if (g.ways < 2) g.ways = 2;
    const bool kb = g.line * g.sets * g.ways % 1024 == 0 && c.flip();
    auto rep = makePolicy(g.tree, g.ways); const uint64_t sz = g.line * g.sets * g.ways;
    C2 cache(kb ? sz / 1024 : sz, g.line, g.stride, LineDataWithNT((uint32_t)g.line), *rep, kb);
    Ref r(g); Pool pool = genPool(c, g);
    LOG(c, (g.tree ? "tree " : "list ") << g.ways << " ways, line " << g.line << ", sets " << g.sets);
    REQUIRE(cache.getNumWays() == g.ways && cache.getNumSets() == g.sets, "geometry");
    const unsigned ops = (unsigned)c.small(1, 60); unsigned evictions = 0, nts = 0;
    for (unsigned o = 0; o < ops; ++o) {
        uint32_t n; const uint64_t a = genAddr(c, pool, n); int w = r.find(a); auto& s = r.set(a);
        REQUIRE_EQ(cache.isHit(a), (w >= 0), "presence of " + std::to_string(a));
        LineDataWithNT* l = cache.getLine(a);
        REQUIRE(l == cache.peekLine(a) && (l != nullptr) == (w >= 0), "line of " << a);
        bool cold = true; (void)cold;
        unsigned open = 0; while (open < g.ways && s.ways[open].valid) ++open;
        REQUIRE_EQ(cache.hasOpenWay(a), (open < g.ways), "an open way");
        if (!l) {
            int v; const int how = (int)c.weighted({3, 3, 2}); bool nt = false; LineDataWithNT* p;
            if (how == 0) { p = c.flip() ? &cache.getLineForReplacement(a) : &cache.getLineForReplacement(a, false); v = (int)s.p.pick(false); }
            else if (how == 1) { p = &cache.getLineForReplacementWithInvalidCheck(a); v = open < g.ways ? (int)open : (int)s.p.pick(false); }
            else { nt = true; p = &cache.getLineForReplacement(a, true); v = !s.ways[0].nt ? 0 : !s.ways[1].nt ? 1 : s.lastNt == 0 ? 1 : 0; ++nts; }
            LOG(c, "miss " << a << " how " << how << " -> way " << v);
            REQUIRE_EQ(p->getWay(), (uint32_t)v, "way to replace for " + std::to_string(a));
            REQUIRE_EQ(p->getSetIndex(), (uint32_t)(a / g.line % g.sets), "set to replace in");
            if (s.ways[v].valid) ++evictions;
            cache.allocateWithMRUUpdate(*p, a, nt); s.ways[v].nt = nt; if (nt) s.lastNt = (unsigned)v;
            std::vector<uint8_t> init(g.line); for (uint64_t i = 0; i < g.line; ++i) init[i] = r.mem.at(a / g.line * g.line + i);
            p->write(0, (uint32_t)g.line, init.data());
            r.fill(s.ways[v], a); s.p.touch(v, true);
            REQUIRE(p->isValid() && !p->isModified() && p->isExclusive() && !p->isShared() && p->getAddr() == a / g.line * g.line && p->isNT() == s.ways[v].nt, "line after allocation");
            continue;
        }
        switch (c.weighted({4, 4, 1, 1, 1, 1, 1})) {
        case 0: { LOG(c, "read " << a); std::vector<uint8_t> b(n); cache.readWithMRUUpdate(*l, a, n, b.data()); s.p.touch(w, true); REQUIRE(std::equal(b.begin(), b.end(), s.ways[w].data.begin() + a % g.line), "data read at " << a); break; }
        case 1: { LOG(c, "write " << a); std::vector<uint8_t> b(n); for (auto& x : b) x = (uint8_t)c.bits(8); cache.writeWithMRUUpdate(*l, a, n, b.data()); s.p.touch(w, true); s.ways[w].dirty = true; std::copy(b.begin(), b.end(), s.ways[w].data.begin() + a % g.line); break; }
        case 2: LOG(c, "mru " << a); cache.touchMRU(*l); s.p.touch(w, true); break;
        case 3: LOG(c, "lru " << a); cache.touchLRU(*l); s.p.touch(w, false); break;
        case 4: LOG(c, "invalidate " << a); cache.invalidateLineWithLRUUpdate(*l); s.ways[w].valid = false; s.ways[w].nt = false; s.p.touch(w, false); break;
        case 5: if (c.chance(1, 3)) { LOG(c, "invalidate all"); cache.invalidateAll(); for (auto& x : r.sets) { for (auto& y : x.ways) y.valid = false; x.p.reset(); } } break;
        case 6: { // words of a line
            if (g.line < 8) break;
            const uint32_t idx = (uint32_t)below(c, g.line / 8); const uint64_t val = c.bits(64); s.ways[w].data.resize(g.line);
            const bool big = c.flip();
            if (big) l->write<uint64_t, sparta::ByteOrder::BE>(0, val, idx); else l->write<uint64_t, sparta::ByteOrder::LE>(0, val, idx);
            for (int i = 0; i < 8; ++i) s.ways[w].data[idx * 8 + (big ? 7 - i : i)] = (uint8_t)(val >> (8 * i));
            REQUIRE_EQ((big ? l->read<uint64_t, sparta::ByteOrder::BE>(0, idx) : l->read<uint64_t, sparta::ByteOrder::LE>(0, idx)), val, "word read back");
            REQUIRE_EQ((big ? l->read<uint16_t, sparta::ByteOrder::BE>(idx * 8 + 2) : l->read<uint16_t, sparta::ByteOrder::LE>(idx * 8 + 2)), (uint16_t)(big ? val >> 32 : val >> 16), "half word read back");
            break; }
        }
    }
    unsigned si = 0;
    for (auto& cs : cache) { unsigned w = 0; for (auto& l : cs) { auto& e = r.sets[si].ways[w]; REQUIRE_EQ(l.isValid(), e.valid, "valid way " + std::to_string(w)); if (e.valid) { REQUIRE(l.getAddr() == e.block && l.isModified() == e.dirty && l.isNT() == e.nt && std::equal(e.data.begin(), e.data.end(), l.getDataPtr()), "content of set " << si << " way " << w); } ++w; }
        REQUIRE_EQ((unsigned)cs.getReplacementIF()->getLRUWay(), r.sets[si].p.pick(false), "victim of a set"); ++si; }
    c.nontrivial(evictions >= 2 && ops >= 8);
}

// the underlying cache with a decoder of the user's own (a hashed index)
struct Hashed : AddrDecoderIF {
    uint64_t line, sets; Hashed(uint64_t l, uint64_t s) : line(l), sets(s) {}
    uint64_t calcTag(uint64_t a) const override { return a / line; }
    uint32_t calcIdx(uint64_t a) const override { uint64_t b = a / line; return (uint32_t)((b ^ (b / sets) ^ (b / sets / sets)) % sets); }
    uint64_t calcBlockAddr(uint64_t a) const override { return a / line * line; }
    uint64_t calcBlockOffset(uint64_t a) const override { return a % line; }
};
PROPERTY_BATCH(raw, 10000, 80000, 100) {
    Geo g = genGeo(c); auto rep = makePolicy(g.tree, g.ways);
    Cache<LineData> cache(g.line * g.sets * g.ways, g.line, g.stride, LineData(g.line), *rep, false);
    Hashed h(g.line, g.sets); const bool own = c.flip(); if (own) { cache.setAddrDecoder(&h); REQUIRE(cache.getAddrDecoder() == &h, "decoder"); }
    std::vector<std::vector<int64_t>> ways(g.sets, std::vector<int64_t>(g.ways, -1)); std::vector<Policy> pol(g.sets, Policy(g.tree, g.ways));
    Pool pool = genPool(c, g); const unsigned ops = (unsigned)c.small(1, 50); unsigned ev = 0;
    for (unsigned o = 0; o < ops; ++o) {
        uint32_t n; const uint64_t a = genAddr(c, pool, n) & ~(1ull << 63); const int64_t blk = (int64_t)(a / g.line * g.line);
        const uint32_t si = own ? h.calcIdx(a) : (uint32_t)(a / g.line % g.sets); auto& s = ways[si];
        int w = -1; unsigned open = g.ways; for (unsigned i = 0; i < g.ways; ++i) { if (s[i] == blk) w = (int)i; if (s[i] < 0 && open == g.ways) open = i; }
        bool cold = false; LineData* l = cache.getItem(a, cold);
        REQUIRE(l == cache.getItem(a) && l == cache.peekItem(a) && (l ? (int)l->getWay() : -1) == w, "item for " << a);
        if (w < 0) REQUIRE_EQ(cold, (open < g.ways), "a cold miss"); else REQUIRE(!cold, "a hit is not a miss");
        REQUIRE_EQ((unsigned)cache.findInvalidWay(a), open, "first invalid way");
        std::vector<uint32_t> order; for (unsigned i = 0; i < g.ways; ++i) if (c.flip()) order.push_back(i);
        if (!order.empty()) { if (c.flip()) std::reverse(order.begin(), order.end()); unsigned want = g.ways; for (auto i : order) if (s[i] < 0) { want = i; break; } REQUIRE_EQ((unsigned)cache.findInvalidWay(a, order), want, "first invalid way in an order"); }
        REQUIRE_EQ((unsigned)cache.getLRUItem(a).getWay(), pol[si].pick(false), "victim"); REQUIRE_EQ(&cache.peekLRUItem(a), (const LineData*)&cache.getLRUItem(a), "victim looked at");
        REQUIRE_EQ(&cache.getItemAtIndexWay(si, 0), &cache.getCacheSetAtIndex(si).getItemAtWay(0), "item at a place"); REQUIRE_EQ(cache.getCacheSet(a).getSetIndex(), si, "set of an address");
        if (w < 0) {
            const bool any = c.flip(); LineData& v = any ? cache.getCacheSet(a).getItemForReplacement() : cache.getLRUItem(a); const unsigned vw = any && open < g.ways ? open : pol[si].pick(false);
            REQUIRE_EQ((unsigned)v.getWay(), vw, "way chosen"); if (s[vw] >= 0) ++ev;
            v.reset(a); s[vw] = blk; cache.getReplacementIF(a)->touchMRU(vw); pol[si].touch(vw, true);
            REQUIRE(v.isValid() && v.getAddr() == (uint64_t)blk && (own ? v.getTag() == a / g.line : v.getTag() == a / (g.sets * g.line)), "allocated item");
        } else if (c.chance(1, 5)) { l->setValid(false); s[w] = -1; }
        else { cache.getReplacementIF(a)->touchMRU(w); pol[si].touch(w, true); }
    }
    c.nontrivial(ev >= 1 && ops >= 6);
}
