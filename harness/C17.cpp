// C17: memory objects, interfaces and maps against plain byte arrays.
#include "sp.hpp"
#include "sparta/memory/MemoryObject.hpp"
#include "sparta/memory/SimpleMemoryMapNode.hpp"
#include "sparta/memory/DMIBlockingMemoryIF.hpp"
#include <map>
#include <memory>
using namespace sparta;
using namespace sparta::memory;

namespace {
struct Seen { int target; bool write; addr_t addr, size; std::vector<uint8_t> data, prior; const void* in; void* out; const void* mem;
    bool operator==(const Seen& o) const { return target == o.target && write == o.write && addr == o.addr && size == o.size && data == o.data && prior == o.prior && in == o.in && out == o.out && mem == o.mem; } };
std::string str(const Seen& s) { std::ostringstream o; o << (s.write ? "write" : "read") << " seen at " << s.target << " [" << std::hex << s.addr << "+" << s.size << "] data"; for (auto x : s.data) o << ' ' << int(x); if (s.write) { o << " prior"; for (auto x : s.prior) o << ' ' << int(x); } o << " in " << s.in << " out " << s.out; return o.str(); }
std::string str(const std::vector<Seen>& v) { std::string r; for (auto& s : v) r += str(s) + "; "; return r.empty() ? "none" : r; }

struct Obs {
    int id; BlockingMemoryIFNode* n; std::vector<Seen>* log; bool r = false, w = false;
    void onRead(const BlockingMemoryIFNode::ReadAccess& a) { log->push_back({id, false, a.addr, a.size, {a.data, a.data + a.size}, {}, a.in_supplement, a.out_supplement, a.mem}); }
    void onWrite(const BlockingMemoryIFNode::PostWriteAccess& a) { log->push_back({id, true, a.addr, a.size, {a.tried, a.tried + a.size}, {a.prior, a.prior + a.size}, a.in_supplement, a.out_supplement, a.mem}); }
    void toggleRead() { if (r) { n->getReadNotificationSource().DEREGISTER_FOR_THIS(onRead); } else { n->getReadNotificationSource().REGISTER_FOR_THIS(onRead); } r = !r; }
    void toggleWrite() { if (w) { n->getPostWriteNotificationSource().DEREGISTER_FOR_THIS(onWrite); } else { n->getPostWriteNotificationSource().REGISTER_FOR_THIS(onWrite); } w = !w; }
};
struct Map { addr_t start, end; int obj; addr_t dest; };

struct World {
    pbt::Case& c; addr_t block; int bl;
    RootTreeNode rtn{"top", "memories"};
    std::vector<std::unique_ptr<MemoryObject>> objs; std::vector<std::unique_ptr<BlockingMemoryObjectIFNode>> ifs;
    std::vector<std::vector<uint8_t>> mem; std::unique_ptr<SimpleMemoryMapNode> map; addr_t total;
    std::vector<Map> maps; std::vector<Obs> obs; std::vector<Seen> log, want; std::vector<uint64_t> nr, nw;
    std::vector<std::map<addr_t, std::pair<DMIBlockingMemoryIF*, bool>>> dmi;
    std::vector<addr_t> bases; size_t good = 0, bad = 0, spans = 0, writes = 0, seen = 0;
    sp::Teardown td{rtn};
    World(pbt::Case& cc) : c(cc) {}
    int M() const { return int(objs.size()); }

    bool inWin(addr_t hi, addr_t a, addr_t n) const { return n <= hi && a <= hi - n; }
    addr_t hi(int t) const { return t == M() ? total : mem[t].size(); }
    // resolve one access inside one block: object and offset
    bool resolve(int t, addr_t a, int& o, addr_t& off) const {
        if (t < M()) { o = t; off = a; return a < mem[t].size(); }
        for (auto& m : maps) if (a >= m.start && a < m.end) { o = m.obj; off = m.dest + (a - m.start); return a < total; }
        return false;
    }
    addr_t pickAddr(int t) {
        addr_t base = t == M() ? c.pick(bases) : 0; addr_t lim = t == M() ? 48 * block : mem[t].size();
        if (t == M() && !maps.empty() && c.chance(3, 5)) { const auto& m = maps[c.range(0, maps.size() - 1)]; base = m.start; lim = m.end - m.start; }
        const int k = int(c.weighted({12, 3, 1}));
        if (k == 0) return base + c.range(0, lim - 1);
        if (k == 1) return (c.flip() ? base : base + lim) - c.range(0, 2 * block) + c.range(0, block);
        return c.flip() ? ~addr_t(0) - c.small(0, 3 * block) : c.bits(64);
    }
    addr_t pickSize(bool dbg) {
        const int k = int(c.weighted({6, 4, 2, dbg ? 10 : 2, 1}));
        if (k == 0) return 1ull << c.range(0, std::min(bl, 3));
        if (k == 1) return c.range(1, block);
        if (k == 2) return block;
        if (k == 3) return c.range(1, 4 * block);
        return 0;                                   // replaced by an enormous size
    }
    BlockingMemoryIFNode* node(int t) { return t == M() ? static_cast<BlockingMemoryIFNode*>(map.get()) : ifs[t].get(); }

    void access() {
        const int t = int(c.range(0, M())); const bool wr = c.flip(), thr = c.chance(1, 4);
        const addr_t a = [&] { addr_t x = pickAddr(t); return c.chance(1, 3) ? x & ~(block - 1) : x; }();
        addr_t n = pickSize(false); const bool huge = n == 0; if (huge) n = c.flip() ? addr_t(0) - a + c.range(0, 2 * block) : ~addr_t(0) - c.small(0, 100);
        if (n == 0) n = 1;
        const bool span = (a >> bl) != ((a + (n - 1)) >> bl) || n > block;
        int o = -1; addr_t off = 0; const bool pre = !span && inWin(hi(t), a, n), ok = pre && resolve(t, a, o, off);
        if (!ok && (thr || c.flip()) && !c.chance(1, 4)) return;               // keep the share of refused accesses down
        const void* in = c.flip() ? nullptr : &maps; void* out = c.flip() ? nullptr : &total;
        LOG(c, (thr ? "" : "try ") << (wr ? "write " : "read ") << (t == M() ? "map" : "object " + std::to_string(t)) << " [0x" << std::hex << a << " + 0x" << n << "]" << (ok ? "" : " (refused)"));
        std::vector<uint8_t> buf(n <= 8 * block ? n : block, 0xEE), before;
        if (wr) for (auto& b : buf) b = uint8_t(c.bits(8));
        if (ok) before.assign(mem[o].begin() + off, mem[o].begin() + off + n);
        want.clear(); log.clear();
        (wr ? nw : nr)[t]++; if (ok && t == M()) (wr ? nw : nr)[o]++;
        if (ok) {
            auto add = [&](int tt, addr_t aa) { if (wr ? obs[tt].w : obs[tt].r) want.push_back({tt, wr, aa, n, wr ? buf : before, wr ? before : std::vector<uint8_t>(), in, out, static_cast<const DebugMemoryIF*>(node(tt))}); };
            add(o, off); if (t == M()) add(t, a);
        }
        bool res = false, threw = false;
        auto doit = [&] {
            if (!thr) res = wr ? node(t)->tryWrite(a, n, buf.data(), in, out) : node(t)->tryRead(a, n, buf.data(), in, out);
            else { if (t == M()) { if (wr) map->write(a, n, buf.data(), in, out); else map->read(a, n, buf.data(), in, out); } else if (wr) ifs[t]->write(a, n, buf.data(), in, out); else ifs[t]->read(a, n, buf.data(), in, out); res = true; }
        };
        try { doit(); } catch (const MemoryAccessError&) { threw = true; }
        if (ok) {
            REQUIRE(res && !threw, "a legal access was refused"); ++good;
            if (wr) { std::copy(buf.begin(), buf.end(), mem[o].begin() + off); ++writes; } else REQUIRE(buf == before, "read of [0x" << std::hex << a << "+" << n << "] returned wrong bytes");
        } else { ++bad; if (thr) REQUIRE(threw, "an illegal access did not throw a memory access error"); else REQUIRE(!threw && !res, "an illegal access did not fail with false"); }
        REQUIRE(log == want, "observers saw " << str(log) << " instead of " << str(want)); seen += log.size();
    }
    void debug() {
        const int t = int(c.range(0, M())); const bool wr = c.flip(), thr = c.chance(1, 4);
        const addr_t a = pickAddr(t); addr_t n = pickSize(true); if (n == 0) n = c.flip() ? addr_t(0) - a + c.range(0, 2 * block) : ~addr_t(0) - c.small(0, 100);
        if (n == 0) n = 1;
        bool ok = inWin(hi(t), a, n); if (ok && n > 64 * block) return;
        std::vector<uint8_t> exp; std::vector<std::pair<int, addr_t>> where;
        for (addr_t i = 0; ok && i < n; ++i) { int o; addr_t off; if (!resolve(t, a + i, o, off)) ok = false; else { exp.push_back(mem[o][off]); where.push_back({o, off}); } }
        if (!ok && (thr || c.flip()) && !c.chance(1, 4)) return;
        LOG(c, (thr ? "" : "try ") << (wr ? "poke " : "peek ") << (t == M() ? "map" : "object " + std::to_string(t)) << " [0x" << std::hex << a << " + 0x" << n << "]" << (ok ? "" : " (refused)"));
        std::vector<uint8_t> buf(n <= 64 * block ? n : block, 0xEE); if (wr) for (auto& b : buf) b = uint8_t(c.bits(8));
        log.clear(); bool res = false, threw = false;
        try {
            if (wr) { if (thr) { node(t)->poke(a, n, buf.data()); res = true; } else res = node(t)->tryPoke(a, n, buf.data()); }
            else { if (thr) { node(t)->peek(a, n, buf.data()); res = true; } else res = node(t)->tryPeek(a, n, buf.data()); }
        } catch (const MemoryAccessError&) { threw = true; }
        if (ok) {
            REQUIRE(res && !threw, "a legal " << (wr ? "poke" : "peek") << " was refused"); ++good; if ((a >> bl) != ((a + n - 1) >> bl)) ++spans;
            if (wr) { for (addr_t i = 0; i < n; ++i) mem[where[i].first][where[i].second] = buf[i]; ++writes; } else REQUIRE(buf == exp, "peek of [0x" << std::hex << a << "+" << n << "] returned wrong bytes");
        } else { ++bad; if (thr) REQUIRE(threw, "an illegal peek or poke did not throw a memory access error"); else REQUIRE(!threw && !res, "an illegal peek or poke did not fail with false"); }
        REQUIRE(log.empty(), "a peek or poke notified observers: " << str(log));
    }
    void addMap() {
        const addr_t base = c.pick(bases); addr_t s = base + block * c.range(0, 46), e = s + block * c.range(1, c.flip() ? 2 : 8); int o = int(c.range(0, M() - 1));
        if (!maps.empty() && c.chance(1, 3)) { const auto& m = maps[c.range(0, maps.size() - 1)]; if (c.flip()) { e = e - s + m.end; s = m.end; } else { addr_t l = e - s; if (m.start < l) return; e = m.start; s = e - l; } }   // adjacent
        addr_t len = e - s; const addr_t sz = mem[o].size(); addr_t dest = sz >= len ? block * c.range(0, (sz - len) / block) : 0;
        bool ok = len <= sz && s < e;
        for (auto& m : maps) if (s < m.end && m.start < e) ok = false;
        const int k = int(c.weighted({40, 1, 1, 1, 1}));
        if (k == 1 && block > 1) { s += c.range(1, block - 1); ok = false; } else if (k == 2 && block > 1) { e += c.range(1, block - 1); ok = false; } else if (k == 3) { dest = sz - len + block; ok = false; } else if (k == 4) { e = s - block * c.range(0, 2); ok = false; }
        if (!ok && !c.chance(1, 8)) return;
        LOG(c, "map [0x" << std::hex << s << ", 0x" << e << ") to object " << o << " at 0x" << dest << (ok ? "" : " (refused)"));
        bool threw = sp::throws([&] { map->addMapping(s, e, ifs[o].get(), dest); });
        REQUIRE(threw != ok, (ok ? "a legal mapping was refused" : "an illegal mapping was accepted"));
        if (ok) maps.push_back({s, e, o, dest});
        checkMap(false);
    }
    void lookup(addr_t a) {
        int o = -1; addr_t off = 0; const Map* f = nullptr; for (auto& m : maps) if (a >= m.start && a < m.end) { f = &m; o = m.obj; off = m.dest + (a - m.start); }
        auto* m = map->findMapping(a); const auto* cm = static_cast<const SimpleMemoryMap*>(map.get())->findMapping(a); REQUIRE(m == cm, "the two lookups differ");
        REQUIRE((m != nullptr) == (f != nullptr), "lookup of 0x" << std::hex << a << (m ? " found a mapping that is not there" : " did not find its mapping"));
        auto p = map->mapAddress(a); REQUIRE_EQ(p.first, f ? static_cast<const BlockingMemoryIF*>(ifs[o].get()) : nullptr, "mapped interface"); REQUIRE_EQ(p.second, off, "mapped address");
        REQUIRE_EQ(map->findInterface(a), f ? static_cast<BlockingMemoryIF*>(ifs[o].get()) : nullptr, "interface found");
        if (f) { REQUIRE_EQ(addr_t(m->start), f->start, "mapping start"); REQUIRE_EQ(addr_t(m->end), f->end, "mapping end"); REQUIRE_EQ(addr_t(m->dest_off), f->dest, "mapping target"); }
    }
    void checkMap(bool full) {
        REQUIRE_EQ(map->getNumMappings(), maps.size(), "number of mappings"); REQUIRE_EQ(map->getMappings().size(), maps.size(), "list of mappings");
        for (size_t i = 0; i < maps.size(); ++i) { auto* m = map->getMappings()[i]; REQUIRE(m->start == maps[i].start && m->end == maps[i].end && m->dest_off == maps[i].dest, "mapping " << i << " in the list"); }
        for (auto& m : maps) { lookup(m.start); lookup(m.end - 1); lookup(m.end); if (m.start) lookup(m.start - 1); }
        if (full) { for (auto b : bases) for (int i = 0; i < 50; ++i) { lookup(b + i * block); lookup(b + i * block + block - 1); }
            if (!maps.empty()) { const auto& m = maps[c.range(0, maps.size() - 1)]; const addr_t a = m.start + c.range(0, m.end - m.start - 1); map->verifyHasMapping(a, c.range(1, m.end - a)); if (c.chance(1, 4)) REQUIRE_THROWS(map->verifyHasMapping(a, m.end - a + c.range(1, 3)), "access past its mapping verified"); }
            std::ostringstream s; map->dumpMappings(s); std::string txt = s.str(); REQUIRE_EQ(size_t(std::count(txt.begin(), txt.end(), '\n')), maps.size(), "lines of the mapping dump"); }
    }
    void directMem() {
        const int o = int(c.range(0, M() - 1)); const addr_t b = block * c.range(0, mem[o].size() / block - 1), off = c.range(0, block - 1), n = c.range(1, block - off); std::vector<uint8_t> buf(n, 0xEE);
        if (c.chance(1, 20)) { LOG(c, "object " << o << " out of range"); const addr_t a = mem[o].size() + c.small(0, 3 * block); if (c.flip()) REQUIRE_THROWS(objs[o]->read(a, 1, buf.data()), "read past the object"); else REQUIRE_THROWS(objs[o]->write(a, 1, buf.data()), "write past the object"); return; }
        const bool wr = c.flip(); LOG(c, "object " << o << (wr ? " write " : " read ") << b + off << "+" << n);
        if (wr) { for (auto& x : buf) x = uint8_t(c.bits(8)); objs[o]->write(b + off, n, buf.data()); std::copy(buf.begin(), buf.end(), mem[o].begin() + b + off); ++writes; }
        else { objs[o]->read(b + off, n, buf.data()); REQUIRE(std::equal(buf.begin(), buf.end(), mem[o].begin() + b + off), "object read returned wrong bytes"); }
    }
    void dmiOp() {
        if (c.chance(1, 12)) {
            const int t = int(c.range(0, M())); LOG(c, "invalidate the direct interfaces of " << (t == M() ? "the map" : "object " + std::to_string(t))); node(t)->invalidateAllDMI();
            std::vector<bool> hit(M(), false); if (t < M()) hit[t] = true; else for (auto& m : maps) hit[m.obj] = true;
            for (int i = 0; i < M(); ++i) if (hit[i]) for (auto& d : dmi[i]) d.second.second = false;
            for (int i = 0; i < M(); ++i) for (auto& d : dmi[i]) REQUIRE_EQ(d.second.first->isValid(), d.second.second, "validity of a direct interface of object " + std::to_string(i));
            return;
        }
        const int t = int(c.range(0, M())); const addr_t a = pickAddr(t); addr_t n = c.range(1, block); if (c.flip()) n = 1;
        const bool span = (a >> bl) != ((a + n - 1) >> bl); int o = -1; addr_t off = 0; const bool ok = !span && inWin(hi(t), a, n) && resolve(t, a, o, off);
        if (!ok) { if (inWin(hi(t), a, n) && (span || t == M())) { int o2; addr_t off2; if (t < M() || span || !resolve(t, a, o2, off2)) { LOG(c, "direct interface refused at 0x" << std::hex << a << "+" << n); REQUIRE(node(t)->getDMI(a, n) == nullptr, "a direct interface for a range that is not inside one block"); } } return; }
        auto* d = node(t)->getDMI(a, n); REQUIRE(d != nullptr, "no direct interface for [0x" << std::hex << a << "+" << n << "]");
        auto& slot = dmi[o][off >> bl]; if (slot.first) { REQUIRE_EQ(d, slot.first, "second direct interface of one block"); } else slot = {d, true};
        const addr_t lb = (off >> bl) << bl; LOG(c, "direct interface of object " << o << " block 0x" << std::hex << lb << (slot.second ? "" : " (invalid)"));
        if (d->isValid() != slot.second) { REQUIRE(d->isValid(), "direct interface invalid"); slot.second = true; }      // a fresh one after an invalidation would be fine
        const int k = int(c.range(0, 3)); addr_t x = lb + c.range(0, block - 1), m = c.range(1, lb + block - x); bool okd = slot.second; std::vector<uint8_t> buf(block, 0xEE);
        if (c.chance(1, 8)) { okd = false; if (c.flip()) x = lb + block + c.small(0, 64); else if (lb && c.flip()) x = lb - 1 - c.small(0, lb - 1); else m = c.flip() ? addr_t(0) - x : lb + block - x + c.range(1, 3); if (m == 0) m = ~addr_t(0); }
        if (k < 2) { const bool r = d->tryRead(x, m, buf.data()); REQUIRE_EQ(r, okd, "direct read of object " + std::to_string(o)); if (r) REQUIRE(std::equal(buf.begin(), buf.begin() + m, mem[o].begin() + x), "direct read returned wrong bytes"); }
        else if (k == 2) { for (auto& y : buf) y = uint8_t(c.bits(8)); const bool r = d->tryWrite(x, m, buf.data()); REQUIRE_EQ(r, okd, "direct write"); if (r) { std::copy(buf.begin(), buf.begin() + m, mem[o].begin() + x); ++writes; } }
        else if (slot.second) REQUIRE(std::equal(mem[o].begin() + lb, mem[o].begin() + lb + block, static_cast<uint8_t*>(d->getRawDataPtr())), "raw bytes of the direct interface");
    }
    void run() {
        bl = int(c.range(c.chance(1, 8) ? 0 : 2, 7)); block = 1ull << bl;
        const int n = int(c.range(1, 4));
        for (int i = 0; i < n; ++i) {
            const addr_t blocks = c.range(1, 12); const uint16_t fs = uint16_t(1u << c.range(0, std::min(bl, 3))); const uint64_t fill = fs == 8 ? c.bits(64) : c.bits(64) & ((1ull << (8 * fs)) - 1);
            LOG(c, "object " << i << ": " << blocks << " blocks of " << block << " fill 0x" << std::hex << fill << "/" << fs);
            objs.emplace_back(new MemoryObject(nullptr, block, blocks * block, fill, fs));
            ifs.emplace_back(new BlockingMemoryObjectIFNode(&rtn, "mem" + std::string(1, char('a' + i)), "memory", nullptr, *objs.back()));
            std::vector<uint8_t> b(blocks * block); for (addr_t k = 0; k < b.size(); ++k) b[k] = uint8_t(fill >> (8 * ((k % block) % fs))); mem.push_back(b);
            REQUIRE_EQ(objs[i]->getNumBlocks(), blocks, "blocks"); REQUIRE_EQ(objs[i]->getBlockSize(), block, "block size"); REQUIRE_EQ(ifs[i]->getRange(), blocks * block, "range");
        }
        bases = {0}; if (c.flip()) bases.push_back((1ull << 32) - 8 * block); if (c.flip()) bases.push_back((1ull << 63) - 24 * block); if (c.flip()) bases.push_back(addr_t(0) - 64 * block);
        total = bases.size() == 1 ? (c.flip() ? 48 * block : block * c.range(1, 60)) : addr_t(0) - block * c.range(1, 20);
        LOG(c, "map range 0x" << std::hex << total);
        map.reset(new SimpleMemoryMapNode(&rtn, "map", "memory map", block, total));
        for (int i = 0; i <= n; ++i) obs.push_back({i, node(i), &log}); nr.assign(n + 1, 0); nw.assign(n + 1, 0); dmi.resize(n);
        const size_t ops = c.range(10, 120);
        for (size_t i = 0, k = c.range(0, 6); i < k; ++i) addMap();
        for (size_t i = 0; i < ops; ++i) switch (c.weighted({40, 25, 10, 6, 8, 6})) {
            case 0: access(); break; case 1: debug(); break; case 2: addMap(); break; case 3: directMem(); break; case 4: dmiOp(); break;
            default: { const size_t t = c.range(0, n); const bool w = c.flip(); LOG(c, "toggle the " << (w ? "write" : "read") << " observer of " << t); if (w) obs[t].toggleWrite(); else obs[t].toggleRead(); }
        }
        checkMap(true);
        for (int i = 0; i < n; ++i) { std::vector<uint8_t> b(mem[i].size()); REQUIRE(ifs[i]->tryPeek(0, b.size(), b.data()), "peek of a whole object"); REQUIRE(b == mem[i], "final bytes of object " << i); }
        for (int i = 0; i <= n; ++i) { REQUIRE_EQ(uint64_t(node(i)->getStatisticSet().getCounter("num_reads")->get()), nr[i], "reads counted at " + std::to_string(i)); REQUIRE_EQ(uint64_t(node(i)->getStatisticSet().getCounter("num_writes")->get()), nw[i], "writes counted at " + std::to_string(i)); }
        for (auto& o : obs) { if (o.r) o.toggleRead(); if (o.w) o.toggleWrite(); }
        c.nontrivial(good >= 6 && writes >= 2 && (maps.size() >= 2 || spans || seen));
    }
};
}
PROPERTY(memories_and_maps, 24000, 600000) { World w(c); w.run(); }

// The mapping tree alone, with many mappings.
PROPERTY(mapping_tree, 12000, 400000) {
    RootTreeNode rtn("top", "maps"); const addr_t block = 1ull << c.range(0, 12);
    MemoryObject mo(nullptr, block, block * 64); BlockingMemoryObjectIFNode a(&rtn, "mema", "memory", nullptr, mo), b(&rtn, "memb", "memory", nullptr, mo); sp::Teardown td{rtn};
    SimpleMemoryMap map(block); std::vector<Map> ms; const int span = int(c.range(20, 300)); const int tries = int(c.range(1, 90)); const addr_t base = c.flip() ? 0 : block * c.bits(40);
    int refused = 0;
    for (int i = 0; i < tries; ++i) {
        addr_t s = c.range(0, span - 1), l = c.range(1, c.flip() ? 2 : 6); if (c.chance(1, 3) && !ms.empty()) { const auto& m = ms[c.range(0, ms.size() - 1)]; s = c.flip() ? (m.end - base) / block : (m.start - base) / block >= l ? (m.start - base) / block - l : s; }
        Map m{base + s * block, base + (s + l) * block, int(c.range(0, 1)), block * c.range(0, 64 - l)}; bool ok = true; for (auto& x : ms) if (m.start < x.end && x.start < m.end) ok = false;
        if (!ok) { if (refused++ > 3) continue; }
        LOG(c, "map [" << s << ", " << s + l << ")" << (ok ? "" : " (refused)"));
        const bool t = sp::throws([&] { map.addMapping(m.start, m.end, m.obj ? &b : &a, m.dest); });
        REQUIRE_EQ(t, !ok, ok ? "a legal mapping was refused" : "an overlapping mapping was accepted"); if (ok) ms.push_back(m);
    }
    REQUIRE_EQ(map.getNumMappings(), ms.size(), "number of mappings");
    std::map<addr_t, const Map*> at; for (auto& m : ms) for (addr_t x = m.start; x < m.end; x += block) at[x] = &m;
    for (int i = -1; i < span + 8; ++i) for (int e = 0; e < 2; ++e) {
        const addr_t blk = base + addr_t(i) * block, x = e ? blk + block - 1 : blk; if (i < 0 && base == 0) continue;
        auto it = at.find(blk); auto* f = map.findMapping(x); auto p = map.mapAddress(x);
        REQUIRE((f != nullptr) == (it != at.end()), "lookup of block " << i);
        if (f) { const Map& m = *it->second; REQUIRE(f->start == m.start && f->end == m.end, "lookup of block " << i << " found another mapping"); REQUIRE_EQ(p.second, m.dest + (x - m.start), "mapped address"); REQUIRE_EQ(p.first, static_cast<const BlockingMemoryIF*>(m.obj ? &b : &a), "mapped interface"); map.verifyHasMapping(x, 1); }
        else REQUIRE(p.first == nullptr, "mapped interface of an unmapped address");
    }
    c.nontrivial(ms.size() >= 4);
}
