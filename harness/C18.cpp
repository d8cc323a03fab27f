// C18: cached memories over a shared backing memory, as in a multicore store-commit buffer.
#include "sp.hpp"
#include "sparta/memory/MemoryObject.hpp"
#include "sparta/memory/CachedMemory.hpp"
#include <memory>
#include <set>
using namespace sparta;
using namespace sparta::memory;

namespace {
struct Store { uint64_t id; addr_t addr; std::vector<uint8_t> data; };
using CM = CachedMemory<>;
struct World {
    pbt::Case& c; addr_t block, size, back; int bl; uint32_t mark;
    RootTreeNode rtn{"top", "caches"};
    std::unique_ptr<MemoryObject> mo; std::unique_ptr<BlockingMemoryObjectIFNode> down;
    std::vector<std::unique_ptr<CM>> cm; std::vector<std::vector<Store>> out; std::vector<std::set<addr_t>> cached; std::vector<uint64_t> uid;
    std::vector<uint8_t> base; const void* lastin = nullptr; size_t writes = 0, commits = 0, drops = 0, merges = 0, overl = 0, seen = 0;
    sp::Teardown td{rtn};
    World(pbt::Case& cc) : c(cc) {}
    int N() const { return int(cm.size()); }
    void onWrite(const BlockingMemoryIFNode::PostWriteAccess& a) {          // what system memory does: tell every other cache
        ++seen; lastin = a.in_supplement;
        for (int i = 0; i < N(); ++i) if (a.in_supplement != static_cast<void*>(cm[i].get())) { cm[i]->mergeWrite(a.addr, a.size, a.tried); cached[i].insert(a.addr >> bl); ++merges; }
    }
    uint8_t view(int k, addr_t a, size_t upto = ~size_t(0)) const {
        uint8_t v = base[a]; for (size_t i = 0; i < out[k].size() && i < upto; ++i) { const auto& s = out[k][i]; if (a >= s.addr && a < s.addr + s.data.size()) v = s.data[a - s.addr]; } return v;
    }
    bool covered(int k, addr_t a) const { for (auto& s : out[k]) if (a >= s.addr && a < s.addr + s.data.size()) return true; return false; }
    void check(const char* when) {
        std::vector<uint8_t> b(back); REQUIRE(down->tryPeek(0, back, b.data()), "peek of the backing store");
        for (addr_t i = 0; i < back; ++i) REQUIRE_EQ(int(b[i]), int(base[i]), std::string(when) + ": backing byte " + std::to_string(i));
        for (int k = 0; k < N(); ++k) {
            REQUIRE(cm[k]->tryPeek(0, back, b.data()), "peek of cache " << k);
            for (addr_t i = 0; i < back; ++i) REQUIRE_EQ(int(b[i]), int(view(k, i)), std::string(when) + ": cache " + std::to_string(k) + " byte " + std::to_string(i));
            const auto& ow = cm[k]->getOutstandingWrites(); REQUIRE_EQ(ow.size(), out[k].size(), "outstanding writes of cache " + std::to_string(k)); REQUIRE_EQ(cm[k]->getNumOutstandingWrites(), out[k].size(), "number outstanding");
            size_t j = 0; for (auto& p : ow) {
                const auto& s = out[k][j]; REQUIRE(p.first == s.id && p.second.getWriteID() == s.id && p.second.getPAddr() == s.addr && p.second.getSize() == s.data.size(), "outstanding write " << j << " of cache " << k);
                REQUIRE(std::equal(s.data.begin(), s.data.end(), p.second.getStoreDataPtr()), "data of outstanding write " << j << " of cache " << k);
                for (size_t x = 0; x < s.data.size(); ++x) REQUIRE_EQ(int(p.second.getPrevDataPtr()[x]), int(view(k, s.addr + x, j)), "previous byte " + std::to_string(x) + " of outstanding write " + std::to_string(j) + " of cache " + std::to_string(k));
                ++j;
            }
            if (!out[k].empty()) REQUIRE_EQ(cm[k]->getLastOutstandingWrite().getWriteID(), out[k].back().id, "last outstanding write");
        }
    }
    addr_t pickA(int k) { if (k >= 0 && !out[k].empty() && c.chance(1, 2)) { const auto& s = c.pick(out[k]); return s.addr + c.range(0, s.data.size() - 1); } return c.range(0, back - 1); }
    void op() {
        const int k = int(c.range(0, N() - 1)); CM& m = *cm[k];
        switch (c.weighted({30, 20, 16, 8, 8, 5, 4, 3})) {
        case 0: {   // write
            addr_t a = pickA(k), n = c.range(1, std::min<addr_t>(block - (a & (block - 1)), c.chance(1, 6) ? block : 8)); std::vector<uint8_t> d(n); for (auto& x : d) x = uint8_t(c.bits(8));
            if (out[k].size() == mark) { if (!c.chance(1, 3)) return; LOG(c, "cache " << k << ": write refused at the watermark"); REQUIRE_THROWS(m.tryWrite(a, n, d.data()), "a write beyond the watermark"); check("after a refused write"); return; }
            if (c.chance(1, 20)) { const addr_t ill = c.flip() ? (a | (block - 1)) : size; LOG(c, "cache " << k << ": illegal write at " << ill); if (ill == size || block == 1) { REQUIRE(!m.tryWrite(size, 1, d.data()), "write past the window accepted"); } else { std::vector<uint8_t> e(2); REQUIRE(!m.tryWrite(ill, 2, e.data()), "spanning write accepted"); } check("after an illegal write"); return; }
            LOG(c, "cache " << k << ": write " << a << "+" << n);
            if (c.flip()) REQUIRE(m.tryWrite(a, n, d.data()), "write refused"); else m.write(a, n, d.data());
            const uint64_t id = m.getLastOutstandingWrite().getWriteID(); REQUIRE(id > uid[k], "write ids do not increase"); REQUIRE_EQ(id >> 56, m.getWriteID(), "cache id in the write id"); uid[k] = id;
            for (addr_t i = 0; i < n; ++i) if (covered(k, a + i)) { ++overl; break; }
            out[k].push_back({id, a, d}); cached[k].insert(a >> bl); ++writes; break; }
        case 1: {   // read
            const addr_t a = pickA(k), n = c.range(1, block - (a & (block - 1))); std::vector<uint8_t> d(n); LOG(c, "cache " << k << ": read " << a << "+" << n);
            if (c.flip()) REQUIRE(m.tryRead(a, n, d.data()), "read refused"); else m.read(a, n, d.data());
            for (addr_t i = 0; i < n; ++i) REQUIRE_EQ(int(d[i]), int(view(k, a + i)), "read byte " + std::to_string(a + i)); return; }
        case 2: {   // commit
            if (out[k].empty()) { if (c.chance(1, 8) && N() > 0) { LOG(c, "cache " << k << ": commit and drop refused, none outstanding"); uint8_t z = 0; StoreData s(5, 0, 1, &z, nullptr, nullptr); REQUIRE_THROWS(m.commitWrite(s), "commit without an outstanding write"); REQUIRE_THROWS(m.dropWrite(s), "drop without an outstanding write"); } return; }
            if (out[k].size() > 1 && c.chance(1, 10)) { LOG(c, "cache " << k << ": commit out of order refused"); auto s = m.getLastOutstandingWrite(); REQUIRE_THROWS(m.commitWrite(s), "a commit out of order"); check("after a refused commit"); return; }
            Store s = out[k].front(); LOG(c, "cache " << k << ": commit " << s.addr << "+" << s.data.size()); const size_t before = seen;
            if (c.flip()) { auto w = m.getOutstandingWrites().begin()->second; m.commitWrite(w); } else m.commitWrite(m.getOutstandingWrites().begin()->second);
            REQUIRE_EQ(seen, before + 1, "writes of the commit seen by system memory"); REQUIRE(lastin == static_cast<void*>(&m), "the committed write does not say which cache it comes from");
            std::copy(s.data.begin(), s.data.end(), base.begin() + s.addr); out[k].erase(out[k].begin()); ++commits; break; }
        case 3: {   // drop
            if (out[k].empty()) return;
            if (c.chance(1, 12)) { LOG(c, "cache " << k << ": drop of an unknown write refused"); uint8_t z = 0; StoreData s(uid[k] + 7, 0, 1, &z, nullptr, nullptr); REQUIRE_THROWS(m.dropWrite(s), "dropping an unknown write"); check("after a refused drop"); return; }
            const size_t i = c.flip() ? out[k].size() - 1 : c.range(0, out[k].size() - 1); LOG(c, "cache " << k << ": drop from write " << i << " of " << out[k].size());
            if (c.flip()) { auto w = m.getOutstandingWrites().at(out[k][i].id); m.dropWrite(w); } else m.dropWrite(m.getOutstandingWrites().at(out[k][i].id));
            out[k].resize(i); ++drops; break; }
        case 4: {   // another agent writes system memory, and every cache is told
            const addr_t a = pickA(k), n = c.range(1, block - (a & (block - 1))); std::vector<uint8_t> d(n); for (auto& x : d) x = uint8_t(c.bits(8)); LOG(c, "system write " << a << "+" << n);
            if (c.flip()) down->write(a, n, d.data(), this); else { for (int i = 0; i < N(); ++i) { cm[i]->mergeWrite(a, n, d.data()); cached[i].insert(a >> bl); ++merges; } down->poke(a, n, d.data()); }   // the caches may hear about it first
            std::copy(d.begin(), d.end(), base.begin() + a); break; }
        case 5: {   // poke through a cache: cache and backing store change; only bytes without an outstanding write
            const addr_t a = c.range(0, back - 1), n = c.range(1, std::min<addr_t>(back - a, 2 * block)); for (addr_t i = 0; i < n; ++i) if (covered(k, a + i)) return;
            std::vector<uint8_t> d(n); for (auto& x : d) x = uint8_t(c.bits(8)); LOG(c, "cache " << k << ": poke " << a << "+" << n); if (c.flip()) REQUIRE(m.tryPoke(a, n, d.data()), "poke refused"); else m.poke(a, n, d.data());
            for (addr_t i = 0; i < n; ++i) { base[a + i] = d[i]; cached[k].insert((a + i) >> bl); }
            for (int o = 0; o < N(); ++o) if (o != k) for (addr_t i = 0; i < n; ++i) { cm[o]->mergeWrite(a + i, 1, &d[i]); cached[o].insert((a + i) >> bl); }
            break; }
        case 6: {   // system memory changes silently under a block no cache has: it has to be seen
            const addr_t a = c.range(0, back - 1); for (int i = 0; i < N(); ++i) if (cached[i].count(a >> bl)) return;
            const addr_t n = c.range(1, block - (a & (block - 1))); std::vector<uint8_t> d(n); for (auto& x : d) x = uint8_t(c.bits(8)); LOG(c, "backing bytes " << a << "+" << n << " change, not cached"); down->poke(a, n, d.data()); std::copy(d.begin(), d.end(), base.begin() + a); break; }
        default: {  // outstanding writes of an address; accesses the backing store cannot serve
            if (back < size && out[k].size() < mark && c.chance(1, 3)) { const addr_t a = back + c.range(0, size - back - 1); LOG(c, "cache " << k << ": access at " << a << " has no backing"); uint8_t z[2] = {1, 2};
                auto refused = [&](const std::function<bool()>& f) { bool r = true; try { r = f(); } catch (const MemoryAccessError&) { r = false; } return !r; };
                const int w = int(c.range(0, 2)); if (w == 0) REQUIRE(refused([&] { return m.tryWrite(a, 1, z); }), "a write without backing was accepted"); else if (w == 1) REQUIRE(refused([&] { return m.tryPoke(a, 1, z); }), "a poke without backing was accepted");
                REQUIRE(refused([&] { return m.tryRead(a, 1, z); }), "a read without backing was accepted"); break; }
            const addr_t a = pickA(k); auto v = m.getOutstandingWritesForAddr(a); std::vector<uint64_t> e, g; for (auto& s : out[k]) if (a >= s.addr && a < s.addr + s.data.size()) e.push_back(s.id); for (auto& s : v) g.push_back(s.getWriteID());
            LOG(c, "cache " << k << ": writes for " << a); REQUIRE(e == g, "outstanding writes of address " << a << ": " << g.size() << " instead of " << e.size()); return; }
        }
        check("after the operation");
    }
    void run() {
        bl = int(c.range(c.chance(1, 10) ? 0 : 2, 6)); block = 1ull << bl; const addr_t nb = c.range(1, 6); back = nb * block; size = back + (c.chance(1, 3) ? block * c.range(1, 3) : 0); mark = uint32_t(c.range(1, c.flip() ? 4 : 24));
        LOG(c, nb << " blocks of " << block << ", caches of " << size / block << " blocks, watermark " << mark);
        mo.reset(new MemoryObject(nullptr, block, back, 0x5a, 1)); down.reset(new BlockingMemoryObjectIFNode(&rtn, "mem", "system memory", nullptr, *mo)); base.assign(back, 0x5a);
        if (c.flip()) { for (auto& b : base) b = uint8_t(c.bits(8)); down->poke(0, back, base.data()); }
        const int n = int(c.range(1, 3)); for (int i = 0; i < n; ++i) { const uint64_t id = i * 3 + 1; cm.emplace_back(new CM("cm" + std::to_string(i), id, mark, block, size, down.get())); REQUIRE_EQ(cm[i]->getWriteID(), id, "id"); }
        out.resize(n); cached.resize(n); uid.assign(n, 0);
        down->getPostWriteNotificationSource().REGISTER_FOR_THIS(onWrite);
        for (size_t i = 0, k = c.range(8, 90); i < k; ++i) op();
        check("at the end");
        down->getPostWriteNotificationSource().DEREGISTER_FOR_THIS(onWrite);
        c.nontrivial(writes >= 3 && commits && (drops || merges) && (overl || N() > 1));
    }
};
}
PROPERTY(cached_memories, 12000, 500000) { World w(c); w.run(); }
