// C12: utility containers, value wrappers, integer math and string helpers against simple references.
#include "sp.hpp"
#include <list>
#include <optional>
#include "sparta/utils/FastList.hpp"
#include "sparta/utils/BitArray.hpp"
#include "sparta/utils/TieredMap.hpp"
#include "sparta/utils/ValidValue.hpp"
#include "sparta/utils/LockedValue.hpp"
#include "sparta/utils/MathUtils.hpp"
#include "sparta/utils/Bits.hpp"
#include "sparta/utils/StringManager.hpp"
#include "sparta/utils/StringUtils.hpp"
#include "sparta/utils/Utils.hpp"
#include "sparta/utils/Tag.hpp"
#include "sparta/utils/Enum.hpp"
using namespace sparta;
typedef unsigned __int128 u128; typedef __int128 i128;

namespace {
struct El { static long live; uint64_t id; const El* self; std::string s;
    explicit El(uint64_t i) : id(i), self(this), s("element number " + std::to_string(i)) { ++live; }
    El(const El& o) : id(o.id), self(this), s(o.s) { if (!o.ok()) abort(); ++live; }
    El& operator=(const El& o) { id = o.id; s = o.s; return *this; }
    ~El() { if (self != this) abort(); self = nullptr; --live; }
    bool ok() const { return self == this && s == "element number " + std::to_string(id); } };
long El::live = 0;
std::ostream& operator<<(std::ostream& o, const El& e) { return o << e.id; }

void fast_list(pbt::Case& c) {
    long live0 = El::live; uint64_t ins = 0, er = 0; {
    size_t cap = c.small(1, 14); utils::FastList<El> l(cap); std::list<std::pair<uint64_t, const El*>> m; uint64_t id = 0; unsigned ops = (unsigned)c.urange(5, 70);
    LOG(c, "list of " << cap);
    for (unsigned k = 0; k < ops; ++k) {
        bool full = m.size() == cap; size_t at = 0;
        auto it_at = [&](size_t i) { auto it = l.begin(); while (i--) ++it; return it; };
        auto added = [&](std::list<std::pair<uint64_t, const El*>>::iterator mi, utils::FastList<El>::iterator it, uint64_t n) { REQUIRE(it.isValid(), "iterator to the inserted element invalid"); REQUIRE_EQ(it->id, n, "returned iterator"); m.insert(mi, {n, &*it}); ++ins; };
        switch (c.weighted({3, 3, 4, 4, 2, 2, 1, 1})) {
        case 0: case 1: case 2: { if (full && !c.chance(1, 8)) break; unsigned how = (unsigned)c.draw(4); at = c.draw(m.size()); uint64_t n = ++id; LOG(c, "insert " << n << " how " << how << " at " << at << (full ? " (refused)" : "")); utils::FastList<El>::iterator r;
            bool th = sp::throws([&] { if (how == 0) r = l.emplace_back(n); else if (how == 1) r = l.emplace_front(n); else if (how == 2) r = l.emplace(it_at(at), n); else if (how == 3) { El e(n); r = l.insert(it_at(at), e); } else { utils::FastList<El>::const_iterator ci = it_at(at); r = l.emplace(ci, n); } });
            REQUIRE_EQ(th, full, "insert into " << m.size() << "/" << cap); if (!th) added(how == 0 ? m.end() : how == 1 ? m.begin() : std::next(m.begin(), at), r, n); break; }
        case 3: { if (m.empty()) break; at = c.draw(m.size() - 1); LOG(c, "erase " << at); auto r = l.erase(it_at(at)); auto mi = m.erase(std::next(m.begin(), at)); REQUIRE_EQ(r == l.end(), mi == m.end(), "erase returned " << (r == l.end() ? "end" : "an element")); if (mi != m.end()) REQUIRE_EQ(r->id, mi->first, "element after the erased one"); ++er; break; }
        case 4: case 5: { bool back = c.flip(); if (m.empty()) { if (c.chance(1, 4)) REQUIRE_THROWS((back ? l.pop_back() : l.pop_front()), "pop from an empty list"); break; } LOG(c, "pop " << (back ? "back" : "front")); if (back) { l.pop_back(); m.pop_back(); } else { l.pop_front(); m.pop_front(); } ++er; break; }
        case 6: if (c.chance(1, 3)) { LOG(c, "clear"); l.clear(); m.clear(); } break;
        default: { if (m.empty()) break; at = c.draw(m.size() - 1); uint64_t n = ++id; *it_at(at) = El(n); std::next(m.begin(), at)->first = n; break; }
        }
        const auto& cl = l; REQUIRE_EQ(cl.size(), m.size(), "size"); REQUIRE_EQ(cl.empty(), m.empty(), "empty"); REQUIRE_EQ(cl.max_size(), cap, "max_size"); REQUIRE_EQ(El::live - live0, (long)m.size(), "live elements");
        auto it = cl.begin(); size_t i = 0; for (auto& x : m) { REQUIRE(it != cl.end(), "iteration ends after " << i << " of " << m.size()); REQUIRE(it->ok(), "damaged element"); REQUIRE_EQ((*it).id, x.first, "element " << i); REQUIRE(&*it == x.second, "element " << i << " has moved in memory"); ++it; ++i; } REQUIRE(it == cl.end(), "more elements than inserted");
        if (m.size()) { REQUIRE_EQ(l.front().id, m.front().first, "front"); if (k % 16 == 15) { std::ostringstream o; o << l; size_t lines = 0; for (char ch : o.str()) lines += ch == '\n'; REQUIRE_EQ(lines, m.size(), "printed lines"); } }
    } }
    REQUIRE_EQ(El::live, live0, "elements leaked or destroyed twice"); c.nontrivial(ins >= 4 && er >= 2);
}

void bit_array(pbt::Case& c) {
    using utils::BitArray; typedef std::vector<uint8_t> V;
    unsigned n = (unsigned)c.urange(1, 3), ops = (unsigned)c.urange(3, 24); std::vector<BitArray> a; std::vector<V> m; unsigned shifts = 0;
    a.reserve(8);
    auto fresh = [&] { unsigned how = (unsigned)c.draw(3); size_t sz = c.pickl<size_t>({1, 2, 4, 8, 15, 16, 17, 24, 33, 40}); V v;
        if (how == 0) { uint64_t x = c.bits(); v.assign((uint8_t*)&x, (uint8_t*)&x + 8); a.emplace_back(x); }
        else if (how == 1) { uint32_t x = (uint32_t)c.bits(32); v.assign((uint8_t*)&x, (uint8_t*)&x + 4); v.resize(sz); a.emplace_back(x, sz); }
        else if (how == 2) { v.resize(sz); for (auto& b : v) b = (uint8_t)c.draw(255); a.emplace_back(v.data(), sz); }
        else { size_t d = c.urange(1, 20); v.resize(d); for (auto& b : v) b = (uint8_t)c.draw(255); a.emplace_back(v.data(), d, sz); v.resize(sz); }
        m.push_back(v); LOG(c, "array " << m.size() - 1 << " of " << v.size() << " bytes, how " << how); };
    auto shl = [](const V& v, size_t s) { V r(v.size()); for (size_t b = 0; b < v.size() * 8; ++b) if (b >= s && (v[(b - s) / 8] >> ((b - s) % 8) & 1)) r[b / 8] |= 1 << (b % 8); return r; };
    auto shr = [](const V& v, size_t s) { V r(v.size()); for (size_t b = 0; b < v.size() * 8; ++b) if (s < v.size() * 8 && b + s < v.size() * 8 && (v[(b + s) / 8] >> ((b + s) % 8) & 1)) r[b / 8] |= 1 << (b % 8); return r; };
    for (unsigned i = 0; i < n; ++i) fresh();
    for (unsigned k = 0; k < ops; ++k) {
        size_t i = c.draw(a.size() - 1), j = c.draw(a.size() - 1); unsigned op = (unsigned)c.draw(12); size_t s = c.chance(1, 8) ? c.urange(0, m[i].size() * 16 + 40) : c.urange(0, m[i].size() * 8); LOG(c, "op " << op << " on " << i << "," << j << " amount " << s);
        switch (op) {
        case 0: a[i] <<= s; m[i] = shl(m[i], s); ++shifts; break; case 1: a[i] >>= s; m[i] = shr(m[i], s); ++shifts; break;
        case 2: { BitArray r = a[j] << s; a[i] = r; m[i] = shl(m[j], s); ++shifts; break; } case 3: a[i] = a[j] >> s; m[i] = shr(m[j], s); ++shifts; break;
        case 4: a[i] &= a[j]; for (size_t x = 0; x < std::min(m[i].size(), m[j].size()); ++x) m[i][x] &= m[j][x]; break;
        case 5: a[i] |= a[j]; for (size_t x = 0; x < std::min(m[i].size(), m[j].size()); ++x) m[i][x] |= m[j][x]; break;
        case 6: { V r = m[i]; for (size_t x = 0; x < std::min(r.size(), m[j].size()); ++x) r[x] &= m[j][x]; a[i] = a[i] & a[j]; m[i] = r; break; }
        case 7: { V r = m[i]; for (size_t x = 0; x < std::min(r.size(), m[j].size()); ++x) r[x] |= m[j][x]; a[i] = a[i] | a[j]; m[i] = r; break; }
        case 8: a[i] = ~a[j]; m[i] = m[j]; for (auto& b : m[i]) b = ~b; break;
        case 9: a[i] = a[j]; m[i] = m[j]; break;
        case 10: { BitArray t(std::move(a[j])); BitArray u(t); a[j] = t; a[i] = std::move(u); m[i] = m[j]; break; }
        case 11: { uint32_t x = (uint32_t)c.bits(32); unsigned w = (unsigned)c.draw(2); if (w == 0) a[i].fill((uint8_t)x); else if (w == 1) a[i].fill((uint16_t)x); else a[i].fill(x); unsigned sz = 1u << w; for (size_t y = 0; y < m[i].size(); ++y) m[i][y] = (uint8_t)(x >> 8 * (y % sz)); break; }
        default: if (a.size() < 6) fresh(); break;
        }
        for (size_t x = 0; x < a.size(); ++x) { REQUIRE_EQ(a[x].getSize(), m[x].size(), "size"); REQUIRE(!memcmp(a[x].getValue(), m[x].data(), m[x].size()), "array " << x << " is wrong after op " << op << " on " << i << "," << j << " by " << s); uint64_t v = 0; memcpy(&v, m[x].data(), std::min<size_t>(8, m[x].size())); REQUIRE_EQ(a[x].getValue<uint64_t>(), v, "value"); REQUIRE_EQ(a[x].getValue<uint16_t>(), (uint16_t)v, "narrow value"); REQUIRE_EQ(a[x] == a[i], m[x] == m[i], "equality"); REQUIRE_EQ(a[x] != a[i], m[x] != m[i], "inequality"); }
    }
    c.nontrivial(ops >= 6 && shifts);
}

void tiered_map(pbt::Case& c) {
    uint64_t ns = 1ull << c.pickl<unsigned>({1, 2, 3, 4, 6, 9}); TieredMap<uint64_t, uint64_t> t(ns); std::map<uint64_t, uint64_t> m; std::vector<uint64_t> order; std::map<uint64_t, const void*> where; unsigned ops = (unsigned)c.urange(5, 60); uint64_t big = 0; unsigned clears = 0;
    LOG(c, "node size " << ns); std::vector<uint64_t> pool; for (int i = 0; i < 6; ++i) pool.push_back(c.flip() ? c.bits() : c.bits(12));
    for (unsigned k = 0; k < ops; ++k) {
        uint64_t key = c.chance(1, 3) ? c.bits() : c.pick(pool) + c.draw(3);
        switch (c.weighted({5, 3, 1})) {
        case 0: { uint64_t v = c.bits(); LOG(c, "[" << key << "] = " << v); uint64_t& r = t[key]; REQUIRE_EQ(r, m.count(key) ? m[key] : 0, "value before the assignment"); r = v; if (!m.count(key)) { order.push_back(key); if (key > ns) ++big; } m[key] = v; break; }
        case 1: break;
        default: if (c.chance(1, 4)) { LOG(c, "clear"); t.clear(); m.clear(); order.clear(); where.clear(); ++clears; } break;
        }
        for (int i = 0; i < 3; ++i) { uint64_t q = i == 0 ? key : c.chance(1, 2) && m.size() ? std::next(m.begin(), c.draw(m.size() - 1))->first ^ (c.flip() ? 1ull << c.draw(63) : 0) : c.bits(); const auto& ct = t; auto p = ct.find(q); REQUIRE_EQ(p != nullptr, m.count(q) == 1, "find " << q); if (p) { REQUIRE_EQ(p->first, q, "key"); REQUIRE_EQ(p->second, m[q], "value"); if (where.count(q)) REQUIRE(where[q] == p, "element moved"); where[q] = p; } REQUIRE(t.find(q) == p && t.tryGet(q) == p && ct.tryGet(q) == p, "find and tryGet differ"); }
        REQUIRE_EQ(t.size(), m.size(), "size"); size_t i = 0; for (auto it = t.begin(); it != t.end(); ++it, ++i) { REQUIRE(i < order.size(), "too many elements"); REQUIRE_EQ(*it, m[order[i]], "iterated value " << i); } REQUIRE_EQ(i, order.size(), "iteration");
        const auto& ct = t; i = 0; for (auto v : ct) REQUIRE_EQ(v, m[order[i++]], "const iteration"); uint64_t tiers = t.getNumTiers(); uint64_t mx = m.size() ? m.rbegin()->first : 0; REQUIRE(tiers >= 64 || (u128)1 << (tiers * (uint64_t)floor(::log2((double)ns))) > mx || tiers * (uint64_t)floor(::log2((double)ns)) >= 64, "too few tiers");
    }
    c.nontrivial(m.size() + order.size() >= 4 && big >= 2);
}

void wrappers(pbt::Case& c) {
    using VV = utils::ValidValue<std::string>; std::vector<VV> v(3); std::vector<std::optional<std::string>> m(3); unsigned ops = (unsigned)c.urange(4, 30), refused = 0, sets = 0; uint64_t id = 0;
    utils::LockedValue<uint64_t> lv(7); uint64_t lm = 7; bool locked = false; if (c.flip()) { locked = c.flip(); }
    utils::LockedValue<uint64_t> lk(9, locked); uint64_t lkm = 9; bool lkl = locked; locked = false;
    for (unsigned k = 0; k < ops; ++k) {
        size_t i = c.draw(2), j = c.draw(2); std::string s = "value" + std::to_string(++id); unsigned op = (unsigned)c.draw(9); LOG(c, "op " << op << " on " << i << "," << j);
        switch (op) {
        case 0: v[i] = s; m[i] = s; ++sets; break; case 1: v[i] = std::move(std::string(s)); m[i] = s; ++sets; break;
        case 2: v[i] = VV(s); m[i] = s; ++sets; break; case 3: v[i] = v[j]; m[i] = m[j]; break;
        case 4: v[i].clearValid(); m[i].reset(); break; case 5: { VV t(std::move(v[j])); REQUIRE(!v[j].isValid(), "a moved-from value is valid"); REQUIRE_EQ(t.isValid(), m[j].has_value(), "moved validity"); if (m[j]) { REQUIRE_EQ(t.getValue(), *m[j], "moved value"); v[j] = t.getValue(); } break; }
        case 6: { bool bad = !m[i] || !m[j]; if (bad && !c.chance(1, 4)) break; bool r = false; bool th = sp::throws([&] { r = v[i] == v[j]; }); REQUIRE_EQ(th, bad, "comparison with an invalid value"); refused += th; if (!th) { REQUIRE_EQ(r, *m[i] == *m[j], "equality"); REQUIRE_EQ(v[i] != v[j], *m[i] != *m[j], "inequality"); REQUIRE(v[i] == *m[i], "comparison with the value"); REQUIRE(v[i] != std::string("x"), "comparison with another value"); } break; }
        case 7: { if (!m[i]) { if (c.chance(1, 4)) { REQUIRE_THROWS(v[i].getValue(), "read an invalid value"); REQUIRE_THROWS((void)(const std::string&)v[i], "converted an invalid value"); ++refused; } break; } v[i].getValue() += "x"; *m[i] += "x"; break; }
        case 8: { auto& L = c.flip() ? lv : lk; bool first = &L == &lv; bool& l = first ? locked : lkl; uint64_t& mm = first ? lm : lkm; unsigned how = (unsigned)c.draw(3); if (l && how != 2 && !c.chance(1, 4)) break; uint64_t n = c.bits(); bool th = sp::throws([&] { if (how == 0 || how == 3) L = n; else if (how == 1) L.setAndLock(n); else if (c.chance(1, 3)) { L.lock(); l = true; } }); if (how != 2) { REQUIRE_EQ(th, l, "writing a locked value"); refused += th; if (!th) { mm = n; if (how == 1) l = true; } } break; }
        default: { VV t(v[i]); REQUIRE_EQ(t.isValid(), m[i].has_value(), "copied validity"); if (m[i]) REQUIRE_EQ(t.getValue(), *m[i], "copied value"); break; }
        }
        for (size_t x = 0; x < 3; ++x) { REQUIRE_EQ(v[x].isValid(), m[x].has_value(), "validity"); std::ostringstream o; o << v[x]; if (m[x]) { const VV& cv = v[x]; REQUIRE_EQ(cv.getValue(), *m[x], "value"); REQUIRE_EQ((const std::string&)cv, *m[x], "conversion"); REQUIRE_EQ(o.str(), *m[x], "printed"); } }
        const auto& clv = lv; const auto& clk = lk; REQUIRE_EQ(clv.isLocked(), locked, "isLocked"); REQUIRE_EQ(clv.getValue(), lm, "locked value"); REQUIRE_EQ(clk.isLocked(), lkl, "isLocked"); REQUIRE_EQ((const uint64_t&)clk, lkm, "locked value"); REQUIRE(clv == lm, "locked compare"); REQUIRE(clk != lkm + 1, "locked compare");
    }
    c.nontrivial(sets >= 2 && ops >= 6);
}

template <class T, T lo, T hi, class A> void bint(pbt::Case& c) {
    A v = c.flip() ? (A)c.bits(sizeof(A) * 8) : (A)(lo + (T)c.range(-2, 12)); bool bad = (i128)v < (i128)lo || (i128)v > (i128)hi; if (bad && !c.chance(1, 3)) return; T got = 0; bool th = sp::throws([&] { bounded_int<T, lo, hi> b(v); got = b; }); REQUIRE_EQ(th, bad, "bounded_int from " << (int64_t)v << " in [" << (int64_t)lo << "," << (int64_t)hi << "]"); if (!th) REQUIRE((i128)got == (i128)v, "bounded_int value");
}
void bounded(pbt::Case& c) {
    for (int i = 0; i < 6; ++i) { bint<uint32_t, 0, 10, int32_t>(c); bint<int32_t, -5, 10, uint32_t>(c); bint<uint8_t, 0, 255, int64_t>(c); bint<int8_t, -128, 127, uint8_t>(c); bint<int64_t, -5, 1000, int32_t>(c); bint<uint32_t, 0, ~0u, int32_t>(c); bint<uint64_t, 3, 10, int64_t>(c); bint<int16_t, -100, 100, uint64_t>(c); }
    c.nontrivial();
}

void math(pbt::Case& c) {
    unsigned n = (unsigned)c.urange(4, 16);
    for (unsigned k = 0; k < n; ++k) {
        uint64_t x = c.bits(), y = c.bits(); uint32_t a = (uint32_t)c.bits(32), b = (uint32_t)c.bits(32); LOG(c, x << " " << y << " " << a << " " << b);
        auto fl = [](uint64_t v) { uint64_t r = 0; while (v >>= 1) ++r; return r; };
        REQUIRE_EQ(utils::floor_log2(x), fl(x), "floor_log2(" << x << ")"); REQUIRE_EQ(utils::floor_log2(a), fl(a), "floor_log2(" << a << ")"); REQUIRE_EQ(utils::floor_log2<uint16_t>((uint16_t)a), fl((uint16_t)a), "floor_log2 16"); REQUIRE_EQ(utils::floor_log2<int32_t>((int32_t)(a >> 1)), fl(a >> 1), "floor_log2 int"); if (uint64_t s = x >> 24) REQUIRE_EQ(utils::floor_log2((double)(s)), fl(s), "floor_log2 double " << s);
        if (x) { REQUIRE_EQ(utils::log2_lsb(x), (uint32_t)__builtin_ctzll(x), "log2_lsb(" << x << ")"); REQUIRE_EQ(utils::ceil_log2(x), fl(x) + ((x & (x - 1)) ? 1 : 0), "ceil_log2(" << x << ")"); } if (a) REQUIRE_EQ(utils::log2_lsb(a), (uint32_t)__builtin_ctz(a), "log2_lsb 32");
        REQUIRE_EQ(utils::is_power_of_2(x), __builtin_popcountll(x) == 1, "is_power_of_2(" << x << ")"); REQUIRE_EQ(isPowerOf2(x), __builtin_popcountll(x) <= 1, "isPowerOf2"); uint64_t e = c.draw(63); REQUIRE_EQ(utils::pow2(e), 1ull << e, "pow2"); REQUIRE_EQ(utils::ones(e), (1ull << e) - 1, "ones"); REQUIRE(utils::is_power_of_2(1ull << e), "power of 2");
        if (x <= 1ull << 63) { uint64_t p = 1; while (p < x) p <<= 1; REQUIRE_EQ(utils::next_power_of_2(x), p, "next_power_of_2(" << x << ")"); }
        { uint64_t sh = c.draw(50); uint64_t p = (x >> 8) & ((1ull << (63 - sh)) - 1), q = (y >> 8) & ((1ull << (sh + 1)) - 1); uint64_t f = c.urange(1, 500); if (c.flip()) { p = c.draw(4000) * f; q = c.draw(4000) * f; } uint64_t g = std::__gcd(p, q); REQUIRE_EQ(utils::gcd(p, q), g, "gcd(" << p << "," << q << ")"); if (g && (u128)(p / g) * q <= ~0ull) REQUIRE_EQ(utils::lcm(p, q), p / g * q, "lcm(" << p << "," << q << ")"); uint32_t p2 = (uint32_t)p, q2 = (uint32_t)q, g2 = std::__gcd(p2, q2); REQUIRE_EQ(utils::gcd(p2, q2), g2, "gcd 32"); if (g2 && (uint64_t)(p2 / g2) * q2 <= ~0u) REQUIRE_EQ(utils::lcm(p2, q2), p2 / g2 * q2, "lcm 32"); }
        REQUIRE_EQ(utils::count_1_bits(x), (uint32_t)__builtin_popcountll(x), "count_1_bits(" << x << ")"); REQUIRE_EQ(utils::count_1_bits(a), (uint32_t)__builtin_popcount(a), "count_1_bits 32"); if ((int32_t)a != INT32_MIN) REQUIRE_EQ(utils::abs((int32_t)a), (int32_t)std::labs((int32_t)a), "abs");
        { uint64_t base = c.flip() ? c.bits() : c.draw(20), ex = c.draw(c.flip() ? 4 : 70); bool ov = false; u128 r = 1; for (uint64_t i = 0; i < ex; ++i) { r *= base; if (r > ~0ull) { ov = true; break; } } if (!ov || c.chance(1, 8)) { uint64_t got = 0; bool th = sp::throws([&] { got = utils::safe_power(base, ex); }); REQUIRE_EQ(th, ov, "overflow of " << base << "^" << ex); if (!th) REQUIRE_EQ(got, (uint64_t)r, base << "^" << ex); } }
        { int32_t base = c.flip() ? (int32_t)c.bits(32) : (int32_t)c.range(-9, 9), ex = (int32_t)c.draw(c.flip() ? 4 : 35); bool ov = false; i128 r = 1; for (int i = 0; i < ex; ++i) { r *= base; if (r > INT32_MAX || r < INT32_MIN) { ov = true; break; } } if (!ov || c.chance(1, 8)) { int32_t got = 0; bool th = sp::throws([&] { got = utils::safe_power(base, ex); }); REQUIRE_EQ(th, ov, "overflow of " << base << "^" << ex); if (!th) REQUIRE_EQ(got, (int32_t)r, base << "^" << ex); } }
        { uint64_t s = c.chance(7, 8) ? 1ull << c.draw(63) : x | 3, lsb = 0, mask = 0; bool bad = __builtin_popcountll(s) != 1; if (s && !(bad && !c.chance(1, 4))) { bool th = sp::throws([&] { mask = computeMask<uint64_t>(s, lsb); }); REQUIRE_EQ(th, bad, "computeMask(" << s << ")"); if (!th) { REQUIRE_EQ(mask, ~(s - 1), "computeMask(" << s << ")"); REQUIRE_EQ(lsb, (uint64_t)__builtin_ctzll(s), "shift"); REQUIRE_EQ(computeMaskShift<uint64_t>(s), lsb, "shift"); uint32_t s2 = (uint32_t)s, l2 = 0; if (s2) { REQUIRE_EQ(computeMask<uint32_t>(s2, l2), ~(s2 - 1), "computeMask 32"); } } } }
        { double d = (double)(int64_t)x / 1000; REQUIRE(utils::approximatelyEqual(d, d), "approximatelyEqual"); REQUIRE(d == 0 || !utils::approximatelyEqual(d, d * 1.001, 1e-6), "approximatelyEqual"); REQUIRE(utils::approximatelyEqual(d, d * 1.0000001, 1e-3), "approximatelyEqual with tolerance"); }
    }
    c.nontrivial();
}

void strings(pbt::Case& c) {
    using namespace utils; std::string al = "ab ,;\t\nA.x"; auto S = [&] { return c.str(al, 0, 24); };
    std::string s = S(), t = S(); LOG(c, "s='" << s << "' t='" << t << "'"); std::string ws = " \t\n\r";
    auto strip = [&](const std::string& x) { size_t a = 0, b = x.size(); while (a < b && ws.find(x[a]) != std::string::npos) ++a; while (b > a && ws.find(x[b - 1]) != std::string::npos) --b; return x.substr(a, b - a); };
    auto split = [&](const std::string& x, const std::string& d) { std::vector<std::string> r(1); for (char ch : x) if (d.find(ch) != std::string::npos) r.emplace_back(); else r.back() += ch; return r; };
    REQUIRE_EQ(strip_whitespace(s), strip(s), "strip_whitespace"); { std::string e; for (char ch : s) if (!isspace((unsigned char)ch)) e += ch; REQUIRE_EQ(eliminate_whitespace(s), e, "eliminate_whitespace"); }
    std::string d = c.pickl<const char*>({" ", ",", ",;", " ,", ".x"}); std::vector<std::string> v, w = split(s, d); tokenize(s, v, d); REQUIRE(v == w, "tokenize"); v.clear(); tokenize(s.c_str(), v, d); REQUIRE(v == w, "tokenize of a C string"); v.clear(); for (auto& x : w) x = strip(x); tokenize_strip_whitespace(s, v, d); REQUIRE(v == w, "tokenize_strip_whitespace"); v.clear(); tokenize_strip_whitespace(s.c_str(), v, d); REQUIRE(v == w, "tokenize_strip_whitespace of a C string");
    { v.clear(); tokenize_on_whitespace(s, v); std::vector<std::string> q; for (auto& x : split(s, ws)) if (x.size()) q.push_back(x); REQUIRE(v == q, "tokenize_on_whitespace"); }
    { std::vector<std::vector<std::string>> got; std::istringstream is(s); split_lines_around_tokens(is, got, d); auto lines = split(s, "\n"); if (lines.back().empty()) lines.pop_back(); REQUIRE_EQ(got.size(), lines.size(), "lines"); for (size_t i = 0; i < lines.size(); ++i) REQUIRE(got[i] == split(lines[i], d), "line " << i); }
    { std::string p = c.flip() ? "\"" : c.str("ab", 1, 2); std::string body = c.str("xyz", 1, 6); bool f = c.flip(), b = c.flip(); REQUIRE_EQ(strip_string_pattern(p, (f ? p : "") + body + (b ? p : "")), body, "strip_string_pattern"); REQUIRE_EQ(strip_string_pattern(p, p), "", "pattern alone"); }
    { auto lev = [](const std::string& a, const std::string& b) { std::vector<size_t> r(b.size() + 1); for (size_t j = 0; j <= b.size(); ++j) r[j] = j; for (size_t i = 1; i <= a.size(); ++i) { size_t diag = r[0]; r[0] = i; for (size_t j = 1; j <= b.size(); ++j) { size_t up = r[j]; r[j] = std::min({r[j] + 1, r[j - 1] + 1, diag + (a[i - 1] != b[j - 1])}); diag = up; } } return (uint32_t)r[b.size()]; }; REQUIRE_EQ(LevenshteinDistance(s.c_str(), s.size(), t.c_str(), t.size()), lev(s, t), "LevenshteinDistance"); }
    { uint64_t x = c.bits(); char buf[80]; snprintf(buf, 80, "%08x_%08x", (uint32_t)(x >> 32), (uint32_t)x); REQUIRE_EQ(uint64_to_hexstr(x), buf, "uint64_to_hexstr"); snprintf(buf, 80, "%08x", (uint32_t)x); REQUIRE_EQ(uint32_to_hexstr((uint32_t)x), buf, "uint32_to_hexstr"); REQUIRE_EQ(uint64_to_str(x), std::to_string(x), "uint64_to_str"); REQUIRE_EQ(int64_to_str((int64_t)x), std::to_string((int64_t)x), "int64_to_str"); REQUIRE_EQ(uint32_to_str((uint32_t)x), std::to_string((uint32_t)x), "uint32_to_str"); REQUIRE_EQ(int32_to_str((int32_t)x), std::to_string((int32_t)x), "int32_to_str"); REQUIRE_EQ(bool_to_str(x & 1), (x & 1) ? "true" : "false", "bool_to_str");
      size_t n = c.urange(1, 8); std::string h, bs; for (size_t i = n; i-- > 0;) { uint8_t b = ((uint8_t*)&x)[i]; snprintf(buf, 80, "%02x", b); h += buf; for (int k = 7; k >= 0; --k) bs += (b >> k & 1) ? '1' : '0'; if (i) { h += d; bs += d; } } REQUIRE_EQ(bin_to_hexstr((uint8_t*)&x, n, d), h, "bin_to_hexstr"); REQUIRE_EQ(bin_to_bitstr((uint8_t*)&x, n, d), bs, "bin_to_bitstr"); }
    { std::string lo = s, up = s; for (auto& ch : lo) ch = (char)tolower(ch); for (auto& ch : up) ch = (char)toupper(ch); lowercase_string l(s); UPPERCASE_STRING u(s); REQUIRE_EQ(l.getString(), lo, "lowercase_string"); REQUIRE_EQ(u.getString(), up, "UPPERCASE_STRING"); l = t; lowercase_string l2(l); REQUIRE(l2 == l && l == toLower(t), "assignment"); REQUIRE_EQ(toLower(s), lo, "toLower"); lowercase_string l3(s); REQUIRE_EQ(l < l3, toLower(t) < lo, "ordering"); REQUIRE_EQ(l == l3, toLower(t) == lo, "equality"); }
    { const char* a = c.flip() ? s.c_str() : nullptr; const char* b = c.flip() ? t.c_str() : nullptr; REQUIRE_EQ(strcmp_with_null(a, b), (!a && !b) || (a && b && !strcmp(a, b)), "strcmp_with_null"); REQUIRE(strcmp_with_null(s.c_str(), std::string(s).c_str()), "strcmp_with_null"); }
    { std::string from = c.str("ab,", 1, 2), to = c.str("abz", 0, 3), r = s, want; uint32_t n = 0; for (size_t i = 0; i < s.size();) if (s.compare(i, from.size(), from) == 0) { want += to; i += from.size(); ++n; } else want += s[i++]; REQUIRE_EQ(replaceSubstring(r, from, to), n, "replacements"); REQUIRE_EQ(r, want, "replaceSubstring"); char f = al[c.draw(al.size() - 1)]; want.clear(); for (char ch : s) if (ch == f) want += to; else want += ch; REQUIRE_EQ(copyWithReplace(s, f, to), want, "copyWithReplace"); }
    { std::string x = c.str("a<>:()b", 0, 10), want; for (char ch : x) if (ch == '<' || ch == '>' || ch == ':') want += '_'; else if (ch != '(' && ch != ')') want += ch; REQUIRE_EQ(convertCPPStringToPython(x), want, "convertCPPStringToPython"); }
    { size_t len = c.chance(1, 8) ? c.urange(300, 700) : c.urange(1, 40); unsigned rep = (unsigned)c.draw(20); std::string id(len, 'q'), in = "1fI" + std::to_string(len) + id, out = "f<" + id; for (unsigned i = 0; i < rep; ++i) { in += "S0_"; out += ", " + id; } REQUIRE_EQ(demangle(in + "E"), out + ">", "demangle"); REQUIRE_EQ(demangle(" " + s), " " + s, "demangle of something else"); }
    // interned strings
    auto& sm = StringManager::getStringManager(); std::map<std::string, const std::string*> m; uint32_t n0 = sm.getNumStrings(); unsigned nn = (unsigned)c.urange(2, 12); uint32_t fresh = 0; static std::map<std::string, const std::string*> ever; for (unsigned i = 0; i < nn; ++i) { std::string x = c.chance(1, 4) ? S() : c.str("ab", 0, 3); bool had = sm.hasString(x); if (ever.count(x)) REQUIRE(had, "lost string"); const std::string* p = sm.internString(x); REQUIRE_EQ(*p, x, "content"); if (!had) ++fresh; if (ever.count(x)) REQUIRE(ever[x] == p, "interned twice at different places"); for (auto& y : m) if (y.first != x) REQUIRE(y.second != p, "two strings share one place"); m[x] = p; ever[x] = p; REQUIRE(sm.findString(x) == p && sm.hasString(x) && sm.isInterned(p), "not found"); std::string cp = x; REQUIRE(!sm.isInterned(&cp), "not interned"); } REQUIRE_EQ(sm.getNumStrings(), n0 + fresh, "number of strings"); for (auto& y : m) REQUIRE_EQ(*y.second, y.first, "changed content");
    c.nontrivial(w.size() >= 2);
}

void tags(pbt::Case& c) {
    Tag::resetGlobalSeqNum(); std::vector<std::unique_ptr<Tag>> t; std::vector<std::string> name; std::vector<uint32_t> kids; std::vector<int> par; uint32_t g = 1; unsigned n = (unsigned)c.urange(2, 20), nested = 0;
    for (unsigned i = 0; i < n; ++i) { if (t.empty() || c.chance(1, 4)) { t.push_back(c.flip() ? std::make_unique<Tag>() : std::make_unique<Tag>((Tag*)nullptr)); name.push_back(std::to_string(g++)); par.push_back(-1); } else { size_t p = c.draw(t.size() - 1); t.push_back(std::make_unique<Tag>(t[p].get())); name.push_back(name[p] + "." + std::to_string(++kids[p])); par.push_back((int)p); ++nested; } kids.push_back(0); LOG(c, name.back());
        std::ostringstream o, o2; o << *t.back(); o2 << t.back().get(); REQUIRE_EQ(o.str(), name.back(), "tag"); REQUIRE_EQ(o2.str(), name.back(), "tag through a pointer"); }
    for (size_t i = 0; i < t.size(); ++i) { Tag cp(*t[i]); REQUIRE(cp == *t[i], "copy"); for (size_t j = 0; j < t.size(); ++j) { REQUIRE_EQ(*t[i] == *t[j], i == j, name[i] << " == " << name[j]); REQUIRE_EQ(*t[i] != *t[j], i != j, "!="); REQUIRE_EQ(*t[i] == name[j], i == j, "== string"); } }
    AssignOnceObject<std::string> a, b("dflt", "name"); bool as = false; for (int i = 0; i < 4; ++i) { if (c.flip()) { std::string v = "v" + std::to_string(i); bool th = sp::throws([&] { b = v; }); REQUIRE_EQ(th, as, "assigned twice"); if (!th) { as = true; REQUIRE_EQ(b.get(), v, "value"); } } REQUIRE_EQ(b.assigned(), as, "assigned"); if (!as) REQUIRE_EQ(b.get(), "dflt", "default"); } if (c.chance(1, 8)) REQUIRE_THROWS(a.get(), "unset value");
    c.nontrivial(nested >= 2);
}
}
PROPERTY(fast_list_p, 30000, 400000) { fast_list(c); }
PROPERTY(bit_array_p, 30000, 400000) { bit_array(c); }
PROPERTY(tiered_map_p, 20000, 250000) { tiered_map(c); }
PROPERTY(wrappers_p, 15000, 250000) { wrappers(c); }
PROPERTY(bounded_p, 400, 20000) { bounded(c); }
PROPERTY(math_p, 30000, 300000) { math(c); }
PROPERTY(strings_p, 20000, 200000) { strings(c); }
PROPERTY(tags_p, 1500, 40000) { tags(c); }
