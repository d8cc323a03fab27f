// C15: data views and lines of architectural data against a byte model.
#include "sp.hpp"
#include "sparta/functional/ArchData.hpp"
#include "sparta/functional/DataView.hpp"
#include <map>
#include <set>
#include <memory>
using namespace sparta;

namespace {
std::string hex(const std::vector<uint8_t>& b) { std::string s; char t[4]; for (auto x : b) { snprintf(t, 4, "%02x ", x); s += t; } return s; }

struct View { uint32_t id; uint64_t size; int parent; uint64_t off; std::vector<uint8_t> init; int root; uint64_t roff; };

template <class T> T assemble(const uint8_t* p, size_t n, ByteOrder bo) {      // n <= sizeof(T) bytes, zero extended
    uint64_t v = 0; for (size_t i = 0; i < n; ++i) v |= uint64_t(p[bo == LE ? i : n - 1 - i]) << (8 * i);
    return static_cast<T>(v);
}
void scatter(uint8_t* p, size_t n, uint64_t v, ByteOrder bo) { for (size_t i = 0; i < n; ++i) p[bo == LE ? i : n - 1 - i] = uint8_t(v >> (8 * i)); }

struct Bank {
    std::unique_ptr<ArchData> ad;
    std::vector<std::unique_ptr<DataView>> dv;
    std::vector<std::vector<uint8_t>> mem;          // by root view index
};

struct ViewsWorld {
    pbt::Case& c; uint64_t line, fill; uint16_t fs;
    std::vector<View> vs; std::vector<Bank> banks;
    size_t reads = 0, writes = 0, wide = 0, resets = 0;
    ViewsWorld(pbt::Case& cc) : c(cc) {}

    uint8_t* at(Bank& b, size_t v) { return b.mem[vs[v].root].data() + vs[v].roff; }
    void initial(Bank& b) {
        b.mem.assign(vs.size(), {});
        for (size_t v = 0; v < vs.size(); ++v) if (vs[v].root == int(v)) {
            b.mem[v].resize(vs[v].size);
            const uint64_t base = b.dv[v]->getOffset();   // within the line: the fill pattern restarts with every line
            for (uint64_t i = 0; i < vs[v].size; ++i) b.mem[v][i] = uint8_t(fill >> (8 * ((base + i) % fs)));
        }
        for (size_t v = 0; v < vs.size(); ++v) for (size_t i = 0; i < vs[v].init.size(); ++i) at(b, v)[i] = vs[v].init[i];
    }
    template <class T, ByteOrder BO> void access(Bank& b, size_t v) {
        const uint64_t n = vs[v].size / sizeof(T); DataView& d = *b.dv[v];
        const bool bad = n == 0 || c.chance(1, 60);
        const uint32_t idx = bad ? uint32_t(n + c.small(0, 2)) : uint32_t(c.range(0, n - 1));
        const bool wr = c.flip();
        LOG(c, (wr ? "write " : "read ") << sizeof(T) << "B " << (BO == LE ? "LE" : "BE") << " view " << v << " index " << idx << (bad ? " (refused)" : ""));
        if (bad) {
            if (!c.chance(1, 8)) return;
            if (wr) REQUIRE_THROWS((d.write<T, BO>(T(1), idx)), "write past the view"); else REQUIRE_THROWS((d.read<T, BO>(idx)), "read past the view");
            return;
        }
        uint8_t* p = at(b, v) + idx * sizeof(T);
        if (wr) { const T val = T(c.bits(64)); if (c.flip()) d.write<T, BO>(val, idx); else d.writeUnsafe<T, BO>(val, idx); scatter(p, sizeof(T), uint64_t(val), BO); ++writes; }
        else { const T exp = assemble<T>(p, sizeof(T), BO); if (c.flip()) REQUIRE_EQ(+(d.read<T, BO>(idx)), +exp, "read"); else REQUIRE_EQ(+(d.readUnsafe<T, BO>(idx)), +exp, "readUnsafe"); ++reads; }
        if (sizeof(T) > 1) ++wide;
    }
    template <class T, ByteOrder BO> void padded(Bank& b, size_t v) {
        DataView& d = *b.dv[v]; const uint64_t size = vs[v].size;
        const uint32_t idx = uint32_t(c.range(0, size / sizeof(T)));
        const uint64_t left = size - idx * sizeof(T);          // bytes from the index to the end of the view
        if (sizeof(T) <= left && sizeof(T) * idx >= size) return;
        const size_t n = std::min<uint64_t>(sizeof(T), left); uint8_t* p = at(b, v) + idx * sizeof(T);
        const bool wr = c.flip();
        LOG(c, (wr ? "writeTruncated " : "readPadded ") << sizeof(T) << "B " << (BO == LE ? "LE" : "BE") << " view " << v << " index " << idx);
        // an index that leaves a number of bytes which is no power of two is refused in the original; do not depend on it
        if ((left & (left - 1)) != 0) return;
        if (wr) { const T val = T(c.bits(64)); d.writeTruncated<T, BO>(val, idx); scatter(p, n, uint64_t(val), BO); ++writes; }
        else { REQUIRE_EQ(+(d.readPadded<T, BO>(idx)), +assemble<T>(p, n, BO), "readPadded"); ++reads; }
    }
    template <ByteOrder BO> void typed(Bank& b, size_t v) {
        switch (c.range(0, 10)) {
        case 0: access<uint8_t, BO>(b, v); break; case 1: access<uint16_t, BO>(b, v); break; case 2: access<uint32_t, BO>(b, v); break; case 3: access<uint64_t, BO>(b, v); break;
        case 4: access<int8_t, BO>(b, v); break; case 5: access<int16_t, BO>(b, v); break; case 6: access<int32_t, BO>(b, v); break; case 7: access<int64_t, BO>(b, v); break;
        case 8: padded<uint64_t, BO>(b, v); break; case 9: padded<uint32_t, BO>(b, v); break; default: padded<uint16_t, BO>(b, v); break;
        }
    }
    void checkAll(Bank& b, const char* at_) {
        for (size_t v = 0; v < vs.size(); ++v) for (uint64_t i = 0; i < vs[v].size; ++i)
            REQUIRE_EQ(int(b.dv[v]->read<uint8_t>(i)), int(at(b, v)[i]), std::string(at_) + ": view " + std::to_string(v) + " byte " + std::to_string(i));
    }
    void strings(Bank& b, size_t v) {
        std::vector<uint8_t> bytes(at(b, v), at(b, v) + vs[v].size);
        REQUIRE_EQ(b.dv[v]->getByteString(), hex(bytes), "byte string of view " + std::to_string(v));
        auto h = [](const std::vector<uint8_t>& x) { std::string s = "0x"; char t[4]; for (auto y : x) { snprintf(t, 4, "%02x", y); s += t; } return s; };
        REQUIRE_EQ(b.dv[v]->getValueAsString<BE>(), h(bytes), "big-endian value of view " + std::to_string(v));
        std::reverse(bytes.begin(), bytes.end());
        REQUIRE_EQ(b.dv[v]->getValueAsString<LE>(), h(bytes), "little-endian value of view " + std::to_string(v));
    }
    bool build(Bank& b) {
        b.ad.reset(new ArchData(nullptr, line, fill, fs, false));
        for (auto& v : vs) b.dv.emplace_back(new DataView(b.ad.get(), v.id, v.size, v.parent < 0 ? DataView::INVALID_ID : vs[v.parent].id, v.off, v.init.empty() ? nullptr : v.init.data()));
        REQUIRE_EQ(b.ad->getNumSegments(), vs.size(), "segments");
        b.ad->layout();
        REQUIRE(b.ad->isLaidOut(), "laid out");
        // placement: within a line, subsets inside their parent, everything else apart
        std::vector<std::pair<uint64_t, uint64_t>> ext;
        for (size_t v = 0; v < vs.size(); ++v) {
            auto& d = *b.dv[v];
            REQUIRE(d.isPlaced() && d.getLine(), "placed"); REQUIRE_EQ(d.getSize(), vs[v].size, "size"); REQUIRE_EQ(d.getID(), vs[v].id, "id");
            REQUIRE(d.getOffset() + d.getSize() <= d.getLine()->getLayoutSize(), "view " << v << " leaves its line");
            const uint64_t abs = d.getLine()->getOffset() + d.getOffset();
            REQUIRE(abs + d.getSize() <= b.ad->getSize(), "view " << v << " outside of the data");
            if (vs[v].parent >= 0) { auto& p = *b.dv[vs[v].parent]; REQUIRE_EQ(abs, p.getLine()->getOffset() + p.getOffset() + vs[v].off, "subset placement of view " + std::to_string(v)); }
            else { for (auto& e : ext) REQUIRE(abs + d.getSize() <= e.first || e.second <= abs, "view " << v << " overlaps another"); ext.push_back({abs, abs + d.getSize()}); }
        }
        if (c.chance(1, 10)) { std::ostringstream o; b.ad->dumpLayout(o); }
        initial(b); checkAll(b, "after layout");
        return true;
    }
    void run() {
        line = 1ull << c.range(c.chance(1, 8) ? 0 : 3, 9);
        fs = 1u << c.range(0, 3); fill = fs == 8 ? c.bits(64) : c.bits(64) & ((1ull << (8 * fs)) - 1);
        const size_t n = c.range(1, 14); const uint64_t maxlog = line ? __builtin_ctzll(line) : 6;
        for (size_t i = 0; i < n; ++i) {
            View v; v.id = uint32_t(i * 3 + 1); v.parent = -1; v.off = 0; v.root = int(i); v.roff = 0;
            if (i && c.chance(2, 5)) {
                v.parent = int(c.range(0, i - 1)); const auto& p = vs[v.parent];
                v.size = 1ull << c.range(0, __builtin_ctzll(p.size)); v.off = c.range(0, p.size - v.size); if (c.flip()) v.off -= v.off % v.size;
                v.root = p.root; v.roff = p.roff + v.off;
            } else v.size = 1ull << std::min<uint64_t>(maxlog, c.small(0, 6));
            if (c.chance(1, 3)) for (uint64_t k = 0; k < v.size; ++k) v.init.push_back(uint8_t(c.bits(8)));
            vs.push_back(v);
        }
        // the order of registration is free, but a subset may come before its parent
        LOG(c, "line " << line << " fill " << std::hex << fill << std::dec << "/" << fs);
        for (size_t i = 0; i < n; ++i) LOG(c, "view " << i << " size " << vs[i].size << (vs[i].parent >= 0 ? " subset of " + std::to_string(vs[i].parent) + " at " + std::to_string(vs[i].off) : std::string()) << (vs[i].init.empty() ? "" : " with initial bytes"));
        banks.resize(c.chance(1, 3) ? 2 : 1);
        for (auto& b : banks) if (!build(b)) return;
        const size_t ops = c.range(5, 80);
        for (size_t o = 0; o < ops; ++o) {
            const size_t bi = c.range(0, banks.size() - 1); Bank& b = banks[bi]; const size_t v = c.range(0, n - 1);
            const size_t k = c.weighted({60, 4, 3, 6, 3});
            if (k == 0) { if (c.flip()) typed<LE>(b, v); else typed<BE>(b, v); }
            else if (k == 1) { LOG(c, "reset bank " << bi); b.ad->reset(); initial(b); checkAll(b, "after reset"); ++resets; }
            else if (k == 2) strings(b, v);
            else if (k == 3) { const size_t w = c.range(0, n - 1); Bank& b2 = banks[c.range(0, banks.size() - 1)];
                if (vs[v].size == vs[w].size) {
                    if (&b == &b2 && vs[v].root == vs[w].root && vs[v].roff != vs[w].roff && (vs[v].roff < vs[w].roff + vs[w].size) && (vs[w].roff < vs[v].roff + vs[v].size)) continue;   // overlapping copy
                    LOG(c, "view " << v << " = view " << w); std::vector<uint8_t> t(at(b2, w), at(b2, w) + vs[w].size); *b.dv[v] = *b2.dv[w]; std::copy(t.begin(), t.end(), at(b, v)); ++writes; }
                else if (c.chance(1, 10)) REQUIRE_THROWS((*b.dv[v] = *b2.dv[w]), "copy between views of different size"); }
            else if (k == 4 && banks.size() == 2) { Bank& b2 = banks[1 - bi]; LOG(c, "bank " << bi << " updated from the other"); b.ad->updateFrom(*b2.ad); b.mem = b2.mem; ++resets; }
        }
        for (auto& b : banks) checkAll(b, "at the end");
        c.nontrivial(writes >= 3 && reads >= 2 && (n >= 3 || wide));
    }
};

// what a save writes, and a restore reads
struct Sink {
    std::vector<std::pair<uint64_t, std::vector<uint8_t>>> lines; bool ended = false; size_t at = 0;
    bool good() const { return true; }
    void beginLine(uint64_t i) { lines.emplace_back(i, std::vector<uint8_t>()); }
    void writeLineBytes(const char* d, size_t n) { lines.back().second.assign((const uint8_t*)d, (const uint8_t*)d + n); }
    void endArchData() { ended = true; }
    uint64_t getNextRestoreLine() { return at < lines.size() ? lines[at].first : ArchData::INVALID_LINE_IDX; }
    void copyLineBytes(char* d, size_t n) { REQUIRE_EQ(lines[at].second.size(), n, "bytes restored"); memcpy(d, lines[at].second.data(), n); ++at; }
};

// allocated lines the model does not have, as filled lines
std::map<uint64_t, std::vector<uint8_t>> ghosts(const ArchData& a, const std::map<uint64_t, std::vector<uint8_t>>& m, const std::vector<uint8_t>& p) {
    std::map<uint64_t, std::vector<uint8_t>> g; for (auto l : a.getLineMap()) if (!m.count(l->getIdx())) g.emplace(l->getIdx(), p); return g;
}

// sparse lines without segments
void ranged(pbt::Case& c) {
    const uint64_t line = 1ull << c.range(0, 9); const uint16_t fs = 1u << c.range(0, 3); const uint64_t fill = fs == 8 ? c.bits(64) : c.bits(64) & ((1ull << (8 * fs)) - 1);
    const bool free_lines = c.flip(); const uint64_t lines = c.pickl<uint64_t>({1, 2, 5, 64, 1000, 1ull << 20});
    const size_t nb = c.range(1, 2); std::vector<std::unique_ptr<ArchData>> ad; std::vector<std::map<uint64_t, std::vector<uint8_t>>> mem(nb), saved(nb); std::vector<std::set<uint64_t>> freed(nb);
    LOG(c, "lines of " << line << " total " << lines << " fill " << std::hex << fill << std::dec << "/" << fs << (free_lines ? " freed" : ""));
    for (size_t i = 0; i < nb; ++i) { ad.emplace_back(new ArchData(nullptr, line, fill, fs, free_lines)); ad.back()->layoutRange(lines * line); REQUIRE_EQ(ad.back()->getSize(), lines * line, "size"); }
    auto pat = [&] { std::vector<uint8_t> l(line); for (uint64_t i = 0; i < line; ++i) l[i] = uint8_t(fill >> (8 * (i % fs))); return l; };
    std::vector<uint64_t> hot; for (int i = 0; i < 4; ++i) hot.push_back(c.range(0, lines - 1));
    size_t wr = 0, rd = 0; const size_t ops = c.range(4, 60);
    for (size_t o = 0; o < ops; ++o) {
        const size_t b = c.range(0, nb - 1); ArchData& a = *ad[b]; auto& m = mem[b];
        const uint64_t ln = c.flip() ? hot[c.range(0, 3)] : c.range(0, lines - 1); const uint64_t off = c.range(0, line - 1), size = c.range(1, line - off); const uint64_t addr = ln * line + off;
        switch (c.weighted({20, 20, 6, 2, 2, 2, 3, 3, 2, 1})) {
        case 0: { std::vector<uint8_t> d(size); for (auto& x : d) x = uint8_t(c.bits(8)); LOG(c, "write " << size << " bytes at " << addr << ": " << hex(d)); auto& l = a.getLine(addr); REQUIRE_EQ(l.getOffset(), ln * line, "line offset"); REQUIRE_EQ(l.getIdx(), ln, "line index"); l.write(off, size, d.data()); auto it = m.emplace(ln, pat()).first; std::copy(d.begin(), d.end(), it->second.begin() + off); REQUIRE(l.isDirty(), "a written line is dirty"); ++wr; break; }
        case 1: { LOG(c, "read " << size << " bytes at " << addr); std::vector<uint8_t> d(size); auto& l = a.getLine(addr); l.read(off, size, d.data()); auto& e = m.emplace(ln, pat()).first->second; REQUIRE_EQ(hex(d), hex({e.begin() + off, e.begin() + off + size}), "bytes read"); REQUIRE_EQ(int(*l.getDataPointer(off)), int(e[off]), "data pointer"); ++rd; break; }
        case 2: { const auto* l = const_cast<const ArchData&>(a).tryGetLine(addr); REQUIRE_EQ(l != nullptr, m.count(ln) == 1, "line allocated"); if (l) { std::vector<uint8_t> d(line); l->read(0, line, d.data()); REQUIRE_EQ(hex(d), hex(m[ln]), "line"); } break; }
        case 3: LOG(c, "reset"); if (c.flip()) a.reset(); else a.clean(); if (free_lines) { for (auto& x : m) freed[b].insert(x.first); m.clear(); } else for (auto& x : m) x.second = pat(); break;
        case 4: if (nb == 2) { LOG(c, b << " updated from the other"); a.updateFrom(*ad[1 - b]); for (auto& x : mem[1 - b]) m[x.first] = x.second; } break;
        case 5: REQUIRE_EQ(a.getNumAllocatedLines(), m.size(), "allocated lines"); break;
        case 6: if (line >= 8 && off % 8 == 0) { const uint64_t v = c.bits(64); LOG(c, "write word at " << addr); auto& l = a.getLine(addr); auto& e = m.emplace(ln, pat()).first->second; if (c.flip()) { l.write<uint64_t, BE>(off & ~7ull, v, 0); scatter(&e[off], 8, v, BE); } else { l.write<uint32_t, LE>(off, uint32_t(v), 1); scatter(&e[off + 4], 4, v, LE); } REQUIRE_EQ((l.read<uint16_t, BE>(off, 2)), (assemble<uint16_t>(&e[off + 4], 2, BE)), "half word"); } break;
        case 7: { const uint64_t over = line - off + 1; REQUIRE_EQ(a.containsAddress(addr), true, "contains"); REQUIRE_EQ(a.containsAddress(lines * line + c.small(0, 9)), false, "contains"); REQUIRE(!sp::throws([&] { a.checkCanAccess(addr, size); }), "access inside a line"); if (c.chance(1, 6)) { REQUIRE_THROWS(a.checkCanAccess(addr, over), "access across lines"); REQUIRE_THROWS(a.getLine(lines * line), "line past the end"); uint8_t t[1024] = {}; REQUIRE_THROWS(a.getLine(addr).read(off, over, t), "read past the line"); REQUIRE_THROWS(a.getLine(addr).write(off, over, t), "write past the line"); m.emplace(ln, pat()); } break; }
        case 8: { const bool all = c.chance(1, 3); LOG(c, "save " << (all ? "all" : "changes")); Sink k; if (all) a.saveAll(k); else a.save(k); std::map<uint64_t, std::vector<uint8_t>> got; for (auto& x : k.lines) REQUIRE(got.emplace(x).second, "line " << x.first << " saved twice"); REQUIRE(k.ended, "end of the bank");
                  for (auto& x : got) REQUIRE(m.count(x.first) ? m[x.first] == x.second : (free_lines && x.second == pat()), "saved line " << x.first << ": " << hex(x.second));
                  for (auto& x : m) { auto it = saved[b].find(x.first); if (all || it == saved[b].end() || it->second != x.second) REQUIRE(got.count(x.first), "line " << x.first << " changed since the last save but is not saved"); }
                  // a line freed since the last save may be allocated again to be saved as filled
                  for (uint64_t i : freed[b]) if (!m.count(i) && const_cast<const ArchData&>(a).tryGetLine(i * line)) m.emplace(i, pat());
                  saved[b] = m; ++rd; break; }
        case 9: { LOG(c, "restore all"); Sink k; for (auto& x : saved[b]) k.lines.push_back(x); a.restoreAll(k); m = saved[b]; if (!a.canFreeLines()) { /* lines allocated since stay, filled */ for (auto& x : ghosts(a, m, pat())) m.insert(x); } break; }
        }
    }
    for (size_t b = 0; b < nb; ++b) for (auto& x : mem[b]) { std::vector<uint8_t> d(line); ad[b]->getLine(x.first * line).read(0, line, d.data()); REQUIRE_EQ(hex(d), hex(x.second), "line " + std::to_string(x.first) + " at the end"); }
    c.nontrivial(wr >= 2 && rd >= 1);
}

// fillValue writes the pattern from any phase
void fills(pbt::Case& c) {
    const uint16_t fs = 1u << c.range(0, 3); const uint32_t size = c.range(1, 70); const uint16_t po = c.range(0, fs - 1); const uint64_t fill = c.bits(64);
    std::vector<uint8_t> b(size + 16, 0x5a), e = b;
    LOG(c, "fill " << size << " bytes with " << std::hex << fill << std::dec << "/" << fs << " from " << po);
    ArchData::fillValue(b.data() + 8, size, fill, fs, po);
    for (uint32_t i = 0; i < size; ++i) e[8 + i] = uint8_t(fill >> (8 * ((po + i) % fs)));
    REQUIRE_EQ(hex(b), hex(e), "filled bytes");
    c.nontrivial(size > fs && fs > 1);
}

// layouts that must be refused
void refused(pbt::Case& c) {
    const uint64_t line = 1ull << c.range(3, 8);
    ArchData a(nullptr, line, 0, 1, false); std::vector<std::unique_ptr<DataView>> d;
    d.emplace_back(new DataView(&a, 1, 8));
    const size_t k = c.range(0, 7); LOG(c, "refusal " << k);
    switch (k) {
    case 0: REQUIRE_THROWS(DataView(&a, 1, 4), "duplicate id"); break;
    case 1: REQUIRE_THROWS(DataView(&a, 2, line * 2), "larger than a line"); break;
    case 2: REQUIRE_THROWS(DataView(&a, 2, c.pickl<uint64_t>({3, 5, 6, 7, 0})), "size"); break;
    case 3: d.emplace_back(new DataView(&a, 2, 4, 9, 0)); REQUIRE_THROWS(a.layout(), "subset of an unknown segment"); break;
    case 4: d.emplace_back(new DataView(&a, 2, 4, 1, c.range(5, 20))); REQUIRE_THROWS(a.layout(), "subset leaving its parent"); break;
    case 5: a.layout(); REQUIRE_THROWS(DataView(&a, 2, 4), "segment after layout"); REQUIRE_THROWS(a.layout(), "second layout"); break;
    case 6: REQUIRE_THROWS(d[0]->read<uint8_t>(0), "read before layout"); REQUIRE_THROWS(d[0]->write<uint8_t>(1, 0), "write before layout"); break;
    case 7: REQUIRE_THROWS(ArchData(nullptr, line + 1 + c.range(0, line - 3)), "line size"); REQUIRE_THROWS(ArchData(nullptr, line, 0x100, 1), "fill value"); REQUIRE_THROWS(ArchData(nullptr, line, 1, c.pickl<uint16_t>({0, 3, 5, 9, 16})), "fill size"); break;
    }
    c.nontrivial();
}
}
PROPERTY(views, 12000, 500000) { ViewsWorld w(c); w.run(); }
PROPERTY(ranged_p, 8000, 300000) { ranged(c); }
PROPERTY(fill_p, 8000, 200000) { fills(c); }
PROPERTY(refused_p, 300, 3000) { refused(c); }
