// C16: registers, fields, masks, banks, subsets, notifications against a byte model.
#include "pbt.hpp"
#include "sp.hpp"
#include "sparta/functional/RegisterSet.hpp"
#include <boost/algorithm/string.hpp>
using namespace sparta;
typedef Register::Definition RD;
typedef std::vector<uint8_t> Bytes;

namespace {
std::string hex(const Bytes& v) { std::ostringstream o; for (size_t i = v.size(); i-- > 0;) o << std::hex << std::setw(2) << std::setfill('0') << int(v[i]); return o.str(); }
uint64_t num(const uint8_t* p, size_t n) { uint64_t v = 0; for (size_t i = 0; i < n; ++i) v |= uint64_t(p[i]) << (8 * i); return v; }

struct Fld { std::string name; uint64_t lo, hi; bool ro; };
struct Reg {
    RegisterBase::ident_type id; std::string name, group; uint32_t gnum = Register::GROUP_NUM_NONE, gidx = Register::GROUP_IDX_NONE; size_t bytes;
    std::vector<Fld> f; std::vector<uint32_t> banks; std::vector<std::string> alias; std::vector<const char*> aliasp;
    int parent = -1; size_t poff = 0; bool hasinit = false; Bytes init;
    size_t root = 0, off = 0; Bytes mask; Register* r = nullptr; int wobs = 0, robs = 0;
};
struct Note { bool write; const RegisterBase* reg; Bytes prior, fin; };
struct Obs {
    std::vector<Note>* log;
    static Bytes get(const DataView* d) { Bytes b(d->getSize()); for (size_t i = 0; i < b.size(); ++i) b[i] = d->read<uint8_t>(i); return b; }
    void w(const TreeNode&, const TreeNode&, const Register::PostWriteAccess& a) { log->push_back({true, a.reg, get(a.prior), get(a.final)}); }
    void r(const TreeNode&, const TreeNode&, const Register::ReadAccess& a) { log->push_back({false, a.reg, {}, get(a.value)}); }
};

struct W {
    pbt::Case& c; std::vector<Reg> rs; std::vector<Bytes> mem;   // mem indexed by root register
    std::vector<Note> log; std::vector<std::unique_ptr<Obs>> obs; bool setobs = false; size_t writes = 0, reads = 0, fieldops = 0, notes = 0;
    uint8_t* at(Reg& r) { return &mem[r.root][r.off]; }
    Bytes val(Reg& r) { return Bytes(at(r), at(r) + r.bytes); }
    void check(const std::string& after) {
        for (auto& r : rs) { Bytes b(r.bytes); r.r->peek(b.data(), r.bytes, 0); REQUIRE_EQ(hex(b), hex(val(r)), after << ": " << r.name); }
        REQUIRE(log.empty(), after << ": " << log.size() << " unexpected notifications");
    }
    void expectw(Reg& r, const Bytes& prior) {
        const size_t n = r.wobs + setobs; REQUIRE_EQ(log.size(), n, "write notifications of " << r.name);
        for (auto& l : log) { REQUIRE(l.write && l.reg == r.r, "notification of " << l.reg->getName()); REQUIRE_EQ(hex(l.prior), hex(prior), "prior value"); REQUIRE_EQ(hex(l.fin), hex(val(r)), "final value"); }
        notes += n; log.clear();
    }
    void expectr(Reg& r) {
        REQUIRE_EQ(log.size(), size_t(r.robs), "read notifications of " << r.name);
        for (auto& l : log) { REQUIRE(!l.write && l.reg == r.r, "notification of " << l.reg->getName()); REQUIRE_EQ(hex(l.fin), hex(val(r)), "value read"); }
        notes += log.size(); log.clear();
    }
    void put(Reg& r, size_t off, const Bytes& d, bool masked) { uint8_t* p = at(r) + off; for (size_t i = 0; i < d.size(); ++i) { const uint8_t m = masked ? r.mask[off + i] : 0xff; p[i] = (p[i] & ~m) | (d[i] & m); } }
    template <class T> void typed(Reg& r) {
        const size_t idx = c.range(0, r.bytes / sizeof(T) - 1), off = idx * sizeof(T); const T v = T(c.bits(64)); Bytes d(sizeof v); memcpy(d.data(), &v, sizeof v);
        Register& g = *r.r; RegisterBase& gb = g; const Bytes before = val(r);
        const unsigned op = c.weighted({4, 3, 4, 3, 2, 2, 2, 2, 2, 1, 1}); LOG(c, r.name << " op " << op << " size " << sizeof(T) << " index " << idx << " value " << std::hex << uint64_t(v) << std::dec);
        switch (op) {
        case 0: { const T x = g.read<T>(idx); REQUIRE_EQ(uint64_t(x), num(at(r) + off, sizeof(T)), "read"); expectr(r); ++reads; break; }
        case 1: { const T x = g.peek<T>(idx); REQUIRE_EQ(uint64_t(x), num(at(r) + off, sizeof(T)), "peek"); ++reads; break; }
        case 2: g.write<T>(v, idx); put(r, off, d, true); expectw(r, before); ++writes; break;
        case 3: g.poke<T>(v, idx); put(r, off, d, true); ++writes; break;
        case 4: g.pokeUnmasked<T>(v, idx); put(r, off, d, false); ++writes; break;
        case 5: gb.writeUnmasked<T>(v, idx); put(r, off, d, false); expectw(r, before); ++writes; break;
        case 6: g.writeUnmasked<T>(v, idx); put(r, off, d, false); for (auto& l : log) REQUIRE(l.write && l.reg == &g, "notification"); log.clear(); ++writes; break;
        case 7: { const T x = c.flip() ? g.dmiRead<T>(idx) : gb.dmiRead<T>(idx); REQUIRE_EQ(uint64_t(x), num(at(r) + off, sizeof(T)), "direct read"); ++reads; break; }
        case 8: if (c.flip()) g.dmiWrite<T>(v, idx); else gb.dmiWrite<T>(v, idx); put(r, off, d, false); ++writes; break;
        case 9: REQUIRE_EQ(uint64_t(g.getWriteMask<T>(idx)), num(&r.mask[off], sizeof(T)), "write mask"); break;
        case 10: if (c.chance(1, 8)) { REQUIRE_THROWS(g.write<T>(v, r.bytes / sizeof(T)), "write past the end"); REQUIRE_THROWS(g.peek<T>(r.bytes / sizeof(T)), "peek past the end"); } break;
        }
    }
    void buffer(Reg& r) {
        const size_t off = c.range(0, r.bytes - 1), size = c.range(1, r.bytes - off); Bytes d(size); for (auto& x : d) x = uint8_t(c.bits(8));
        RegisterBase& g = *r.r; const Bytes before = val(r); const unsigned op = c.range(0, 5); LOG(c, r.name << " buffer op " << op << " offset " << off << " data " << hex(d));
        switch (op) {
        case 0: { Bytes b(size); g.read(b.data(), size, off); REQUIRE_EQ(hex(b), hex(Bytes(at(r) + off, at(r) + off + size)), "buffer read"); expectr(r); ++reads; break; }
        case 1: { Bytes b(size); g.peek(b.data(), size, off); REQUIRE_EQ(hex(b), hex(Bytes(at(r) + off, at(r) + off + size)), "buffer peek"); ++reads; break; }
        case 2: g.write(d.data(), size, off); put(r, off, d, true); expectw(r, before); ++writes; break;
        case 3: g.poke(d.data(), size, off); put(r, off, d, true); ++writes; break;
        case 4: g.writeUnmasked(d.data(), size, off); put(r, off, d, false); expectw(r, before); ++writes; break;
        case 5: g.pokeUnmasked(d.data(), size, off); put(r, off, d, false); ++writes; break;
        }
    }
    void field(Reg& r) {
        if (r.f.empty()) return;
        const Fld& f = c.pick(r.f); const uint64_t w = f.hi - f.lo + 1; const uint64_t ones = w == 64 ? ~0ull : (1ull << w) - 1; const uint64_t v = c.chance(1, 4) ? ones : c.bits(64) & ones;
        auto* fp = r.r->getField(f.name); const Bytes before = val(r); const unsigned op = c.weighted({3, 3, 4, 3, 2, 1}); LOG(c, r.name << "." << f.name << " op " << op << " value " << std::hex << v << std::dec); ++fieldops;
        uint64_t cur = 0; for (uint64_t b = 0; b < w; ++b) cur |= uint64_t((before[(f.lo + b) / 8] >> ((f.lo + b) % 8)) & 1) << b;
        Bytes nv = before; for (uint64_t b = 0; b < w; ++b) { const size_t q = f.lo + b; nv[q / 8] = (nv[q / 8] & ~(1u << (q % 8))) | uint8_t(((v >> b) & 1) << (q % 8)); }
        switch (op) {
        case 0: REQUIRE_EQ(fp->read(), cur, "field read"); expectr(r); break;
        case 1: REQUIRE_EQ(fp->peek(), cur, "field peek"); break;
        case 2: fp->write(v); put(r, 0, nv, true); expectw(r, before); break;
        case 3: fp->poke(v); put(r, 0, nv, true); break;
        case 4: fp->pokeUnmasked(v); put(r, 0, nv, false); break;
        case 5: if (w < 64 && c.chance(1, 6)) { const uint64_t big = c.flip() ? ones + 1 : (c.bits(64) | (ones + 1)); LOG(c, "too large " << std::hex << big << std::dec); REQUIRE_THROWS(fp->write(big), "value wider than the field"); } break;
        }
    }
};

void run(pbt::Case& c) {
    RootTreeNode rtn; W w{c, {}, {}, {}, {}}; std::unique_ptr<RegisterSet> set; std::map<uint32_t, uint32_t> curbank; sp::Teardown td{rtn};
    std::map<std::tuple<uint32_t, uint32_t, uint32_t>, size_t> look; std::set<std::pair<uint32_t, uint32_t>> unbanked, any;
    const size_t n = c.range(1, 12); uint32_t maxbank = 0, maxgroup = 0; std::vector<std::pair<uint32_t, size_t>> order;
    w.rs.resize(n);
    for (size_t i = 0; i < n; ++i) {
        Reg& r = w.rs[i]; r.id = 10 + i; r.name = "r" + std::to_string(i); r.bytes = 1ull << c.range(0, c.chance(1, 8) ? 9 : 6);
        if (i && c.chance(1, 3)) { r.parent = c.range(0, i - 1); Reg& p = w.rs[r.parent]; while (r.bytes > p.bytes) r.bytes /= 2; r.poff = c.range(0, p.bytes - r.bytes); }
        for (size_t k = c.small(0, 4); k-- > 0;) { Fld f; f.name = "f" + std::to_string(r.f.size()); const uint64_t bits = r.bytes * 8; f.lo = c.range(0, bits - 1); f.hi = std::min(bits - 1, f.lo + c.range(0, c.flip() ? 7 : 63)); f.ro = c.chance(1, 3); r.f.push_back(f); }
        if (c.chance(2, 3)) {
            const uint32_t g = c.range(0, 4), x = c.range(0, 4); std::vector<uint32_t> bk; if (c.chance(2, 3)) for (uint32_t b = 0; b < 6; ++b) if (c.chance(1, 3)) bk.push_back(b);
            bool ok = true; if (bk.empty()) ok = !any.count({g, x}); else { if (unbanked.count({g, x})) ok = false; for (auto b : bk) if (look.count({b, g, x})) ok = false; }
            if (ok) { r.gnum = g; r.gidx = x; r.group = std::string("grp_") + char(97 + g); r.banks = bk; any.insert({g, x}); if (bk.empty()) unbanked.insert({g, x}); for (auto b : bk) { look[{b, g, x}] = i; maxbank = std::max(maxbank, b); } maxgroup = std::max(maxgroup, g + 1); }
        }
        if (c.chance(1, 4)) r.alias.push_back("alias" + std::to_string(i)); if (c.chance(1, 8)) r.alias.push_back("also" + std::to_string(i));
        r.hasinit = c.chance(2, 3); if (r.hasinit) { r.init.resize(r.bytes); for (auto& x : r.init) x = uint8_t(c.bits(8)); }
        r.mask.assign(r.bytes, 0xff); for (auto& f : r.f) if (f.ro) for (uint64_t b = f.lo; b <= f.hi; ++b) r.mask[b / 8] &= ~(1u << (b % 8));
        if (r.parent >= 0) { r.root = w.rs[r.parent].root; r.off = w.rs[r.parent].off + r.poff; } else { r.root = i; r.off = 0; }
        for (auto& a : r.alias) r.aliasp.push_back(a.c_str()); r.aliasp.push_back(nullptr);
        LOG(c, r.name << " " << r.bytes << " bytes" << (r.parent >= 0 ? " subset of r" + std::to_string(r.parent) + " at " + std::to_string(r.poff) : "") << (r.gnum == Register::GROUP_NUM_NONE ? "" : " " + r.group + "[" + std::to_string(r.gidx) + "]"));
        for (auto b : r.banks) LOG(c, "  in bank " << b); for (auto& f : r.f) LOG(c, "  " << f.name << " " << f.lo << "-" << f.hi << (f.ro ? " read-only" : ""));
    }
    // registers are laid out and initialized in definition order; the definitions may come in any order
    std::vector<size_t> perm(n); for (size_t i = 0; i < n; ++i) perm[i] = i; if (c.flip()) for (size_t i = n; i-- > 1;) std::swap(perm[i], perm[c.range(0, i)]);
    std::vector<RD> defs; defs.reserve(n + 1);
    for (size_t i : perm) { Reg& r = w.rs[i]; std::vector<Register::Field::Definition> fd; for (auto& f : r.f) fd.emplace_back(f.name.c_str(), "field", f.lo, f.hi, f.ro);
        defs.push_back(RD{r.id, r.name.c_str(), r.gnum, r.group.c_str(), r.gidx, "reg", r.bytes, fd, r.banks, r.aliasp.data(), r.parent >= 0 ? w.rs[r.parent].id : Register::INVALID_ID, r.poff, r.hasinit ? r.init.data() : nullptr, 0, 0}); }
    defs.push_back(Register::DEFINITION_END);
    std::vector<RegisterProxyBase::Definition> pd; int pg = -1, px = -1; if (!any.empty() && c.flip()) { auto it = any.begin(); std::advance(it, c.range(0, any.size() - 1)); pg = it->first; px = it->second; }
    const std::string pgn = std::string("grp_") + char(97 + pg); if (pg >= 0) pd.push_back({1000, "proxy", uint32_t(pg), pgn.c_str(), uint32_t(px), "proxy"}); pd.push_back(RegisterProxyBase::DEFINITION_END);
    uint32_t cur = 0;
    set = RegisterSet::create(&rtn, defs.data(), pd.data(), [&](uint32_t, uint32_t, const std::string*) { return cur; });
    w.mem.resize(n); for (size_t i = 0; i < n; ++i) if (w.rs[i].root == i) w.mem[i].assign(w.rs[i].bytes, 0xcc);
    auto init = [&](Reg& r) { if (r.hasinit) std::copy(r.init.begin(), r.init.end(), w.at(r)); };
    for (size_t i : perm) init(w.rs[i]);
    for (auto& r : w.rs) { r.r = dynamic_cast<Register*>(set->getRegister(r.name)); REQUIRE(r.r, "register by name"); }
    uint32_t banks = 1 + maxbank; if (c.chance(1, 4)) { const uint32_t m = c.range(0, 8); set->setMinimumBankIndex(m); banks = std::max(banks, m + 1); }
    // observers
    auto mk = [&] { w.obs.emplace_back(new Obs{&w.log}); return w.obs.back().get(); };
    for (auto& r : w.rs) { for (r.wobs = c.weighted({3, 3, 1}); size_t(r.wobs) > 2;) r.wobs = 2; for (int k = 0; k < r.wobs; ++k) r.r->getPostWriteNotificationSource().registerForThis<Obs, &Obs::w>(mk()); r.robs = c.weighted({4, 2}); for (int k = 0; k < r.robs; ++k) r.r->getReadNotificationSource().registerForThis<Obs, &Obs::r>(mk()); }
    if (c.chance(1, 4)) { w.setobs = true; set->registerForNotification<Register::PostWriteAccess, Obs, &Obs::w>(mk(), "post_write"); }
    rtn.enterConfiguring(); rtn.enterFinalized(); rtn.bindTreeEarly(); rtn.bindTreeLate();
    w.check("at the start");
    // identity and lookups
    REQUIRE_EQ(set->getNumRegisters(), n, "registers"); REQUIRE_EQ(set->getNumBanks(), banks, "banks"); REQUIRE_EQ(set->getNumGroups(), maxgroup, "groups");
    for (size_t i = 0; i < n; ++i) {
        Reg& r = w.rs[i]; REQUIRE_EQ(r.r->getID(), r.id, "id"); REQUIRE_EQ(r.r->getNumBytes(), r.bytes, "bytes"); REQUIRE_EQ(r.r->getNumBits(), r.bytes * 8, "bits"); REQUIRE_EQ(r.r->getNumFields(), r.f.size(), "fields"); REQUIRE(set->getRegisters()[std::find(perm.begin(), perm.end(), i) - perm.begin()] == r.r, "register order");
        for (auto& a : r.alias) REQUIRE(set->getRegister(a) == r.r, "alias " << a); REQUIRE(set->getRegisterProxy(r.name).getCurrentRegister() == r.r, "proxy of a register");
        REQUIRE_EQ(r.r->isBanked(), !r.banks.empty(), "banked"); REQUIRE_EQ(r.r->getSubsetOf(), r.parent >= 0 ? w.rs[r.parent].id : Register::INVALID_ID, "subset");
        for (uint32_t b = 0; b < 7; ++b) REQUIRE_EQ(r.r->isInBank(b), r.banks.empty() || std::count(r.banks.begin(), r.banks.end(), b) > 0, "bank " << b);
        REQUIRE_EQ(boost::algorithm::to_lower_copy([&] { std::string s; for (char ch : r.r->getWriteMaskAsByteString()) if (isxdigit(ch)) s += ch; return s; }()).size(), r.bytes * 2, "mask string"); for (auto& f : r.f) { auto* fp = r.r->getField(f.name); REQUIRE(fp->getLowBit() == f.lo && fp->getHighBit() == f.hi && fp->isReadOnly() == f.ro && fp->getNumBits() == f.hi - f.lo + 1, "field " << f.name); }
    }
    auto expect = [&](uint32_t b, uint32_t g, uint32_t x) -> Register* { if (b >= banks) return nullptr; auto it = look.find({b, g, x}); if (it != look.end()) return w.rs[it->second].r; if (unbanked.count({g, x})) for (auto& r : w.rs) if (r.gnum == g && r.gidx == x) return r.r; return nullptr; };
    for (uint32_t b = 0; b <= banks; ++b) for (uint32_t g = 0; g < 6; ++g) {
        uint32_t sz = 0;
        for (uint32_t x = 0; x < 6; ++x) { Register* e = expect(b, g, x); sz += e != nullptr; REQUIRE_EQ(set->canLookupRegister(g, x, b), e != nullptr, "can look up " << g << "," << x << " in bank " << b); if (e) { REQUIRE(set->getRegister(g, x, b) == e && set->lookupRegister(g, x, b) == e, "lookup"); if (b == 0) REQUIRE(set->getRegister(g, x) == e && set->lookupRegister(g, x) == e && set->canLookupRegister(g, x), "lookup in the default bank"); } }
        if (b < banks) REQUIRE_EQ(set->getGroupSize(g, b), sz, "size of group " << g << " in bank " << b);
    }
    if (c.chance(1, 25)) { const uint32_t b = c.range(0, 8), g = c.range(0, 5), x = c.range(0, 5); if (!expect(b, g, x)) REQUIRE_THROWS(set->getRegister(g, x, b), "lookup of nothing"); }
    const size_t ops = c.range(5, 50);
    for (size_t o = 0; o < ops; ++o) {
        Reg& r = w.rs[c.range(0, n - 1)]; std::string what = "op";
        switch (c.weighted({12, 5, 10, 1, 1, 1, 1})) {
        case 0: { const unsigned k = c.range(0, std::min<uint64_t>(3, __builtin_ctzll(r.bytes))); k == 0 ? w.typed<uint8_t>(r) : k == 1 ? w.typed<uint16_t>(r) : k == 2 ? w.typed<uint32_t>(r) : w.typed<uint64_t>(r); break; }
        case 1: w.buffer(r); break;
        case 2: w.field(r); break;
        case 3: { const bool um = c.flip(); LOG(c, "reset " << r.name << (um ? "" : " masked")); r.r->reset(um); if (r.hasinit) w.put(r, 0, r.init, !um); break; }
        case 4: LOG(c, "reset all"); set->reset(); for (size_t i : perm) init(w.rs[i]); break;
        case 5: if (pg >= 0) { cur = c.range(0, banks); Register* e = expect(cur, pg, px); LOG(c, "proxy in bank " << cur); REQUIRE(set->getRegisterProxy("proxy").tryGetCurrentRegister() == e, "proxy"); if (e) REQUIRE(set->getRegisterProxy("proxy").getCurrentRegister() == e, "proxy"); } break;
        case 6: { const Bytes b4 = w.val(r);
            if (r.bytes == 4) { REQUIRE_EQ(uint64_t(r.r->readWithCheck().getValue()), num(w.at(r), 4), "checked read"); w.expectr(r); const uint32_t v = uint32_t(c.bits(32)); REQUIRE(r.r->writeWithCheck<uint32_t>(v), "checked write"); Bytes d(4); memcpy(d.data(), &v, 4); w.put(r, 0, d, true); w.expectw(r, b4); }
            if (r.bytes == 8) { REQUIRE_EQ(uint64_t(r.r->readWithCheck().getValue()), num(w.at(r), 8), "checked read"); w.expectr(r); const uint64_t v = c.bits(64); REQUIRE(r.r->writeWithCheck<uint64_t>(v), "checked write"); Bytes d(8); memcpy(d.data(), &v, 8); w.put(r, 0, d, true); w.expectw(r, b4); }
            std::string s; for (char ch : r.r->getValueAsByteString()) if (isxdigit(ch)) s += tolower(ch); const Bytes b5 = w.val(r); std::string e; char t[3]; for (auto x : b5) { snprintf(t, 3, "%02x", x); e += t; } REQUIRE(s == e || s == hex(b5), "value as bytes " << s << " of " << hex(b5)); break; }
        }
        w.check("after the operation");
    }
    c.nontrivial(w.writes + w.fieldops >= 3 && w.reads + w.fieldops >= 2 && (w.notes > 0 || n > 2));
}
PROPERTY(registers, 20000, 200000) { run(c); }

// bit vectors of register size
PROPERTY(bits, 20000, 200000) {
    const size_t n = 1ull << c.range(0, 6); Bytes a(n), b(n); for (auto& x : a) x = uint8_t(c.chance(1, 4) ? 0 : c.bits(8)); for (auto& x : b) x = uint8_t(c.bits(8)); if (c.chance(1, 6)) a.assign(n, uint8_t(c.bits(8)));
    const uint32_t sh = c.range(0, n * 8 - 1); LOG(c, n << " bytes " << hex(a) << " , " << hex(b) << " shift " << sh);
    const bool view = c.flip(); RegisterBits x = view ? RegisterBits(const_cast<const uint8_t*>(a.data()), n) : RegisterBits(n), y(const_cast<const uint8_t*>(b.data()), n); if (!view) memcpy(x.data(), a.data(), n);
    auto bit = [&](const Bytes& v, int64_t i) { return i >= 0 && i < int64_t(n * 8) ? (v[i / 8] >> (i % 8)) & 1 : 0; };
    auto got = [&](const RegisterBits& r) { return hex(Bytes(r.data(), r.data() + n)); };
    auto sft = [&](int64_t d) { Bytes v(n); for (size_t i = 0; i < n * 8; ++i) v[i / 8] |= bit(a, int64_t(i) - d) << (i % 8); return hex(v); };
    Bytes o(n), d(n), nt(n); for (size_t i = 0; i < n; ++i) { o[i] = a[i] | b[i]; d[i] = a[i] & b[i]; nt[i] = ~a[i]; }
    REQUIRE_EQ(got(x | y), hex(o), "or"); REQUIRE_EQ(got(x & y), hex(d), "and"); REQUIRE_EQ(got(~x), hex(nt), "not"); REQUIRE_EQ(got(x << sh), sft(sh), "shift left"); REQUIRE_EQ(got(x >> sh), sft(-int64_t(sh)), "shift right");
    bool zero = true; for (auto q : a) zero &= q == 0; REQUIRE_EQ(x.none(), zero, "none"); REQUIRE_EQ(x.any(), !zero, "any"); REQUIRE_EQ(x.getSize(), n, "size");
    { RegisterBits z(x); z <<= sh; REQUIRE_EQ(got(z), sft(sh), "shift left in place"); REQUIRE_EQ(got(x), hex(a), "the copied value"); } { RegisterBits z(x), q(std::move(z)); q |= y; REQUIRE_EQ(got(q), hex(o), "or in place"); REQUIRE(q == (x | y), "equal"); REQUIRE_EQ(q == x, o == a, "equal"); }
    if (n >= 8) REQUIRE_EQ(x.dataAs<uint64_t>(), num(a.data(), 8), "as a number"); else REQUIRE_EQ(x.dataAs<uint64_t>(), num(a.data(), n), "as a number");
    c.nontrivial(n >= 1 && sh > 0);
}
}
