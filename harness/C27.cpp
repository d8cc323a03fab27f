// C27: parameters - text to value, value to text, refused assignments, reads/writes, defaults, validation.
#include "pbt.hpp"
#include "sp.hpp"
#include "sparta/simulation/Parameter.hpp"
#include "sparta/simulation/ParameterSet.hpp"
#include "sparta/utils/SmartLexicalCast.hpp"
#include <cmath>
#include <limits>
using namespace pbt;
static uint64_t below(Case& c, uint64_t n) { return n > 1 ? c.draw(n - 1) : 0; }
typedef unsigned __int128 u128;

// ---------------------------------------------------------------------------------------- numbers
struct Num { std::string text; u128 value = 0; bool exact = true; };

static std::string sprinkle(Case& c, const std::string& d, bool allow) {
    if (!allow || !c.chance(1, 3)) return d;
    std::string r;
    for (size_t i = 0; i < d.size(); ++i) {
        r += d[i];
        if (c.chance(1, 3)) r += " _,\t\n"[below(c, 5)];
    }
    return r;
}
static std::string dec(u128 v) {
    if (!v) return "0";
    std::string s;
    for (; v; v /= 10) s.insert(s.begin(), char('0' + int(v % 10)));
    return s;
}
static std::string radix(uint64_t v, unsigned r, bool upper) {
    if (!v) return "0";
    std::string s;
    const char* digits = upper ? "0123456789ABCDEF" : "0123456789abcdef";
    for (; v; v /= r) s.insert(s.begin(), digits[v % r]);
    return s;
}
struct Suf { const char* t; uint64_t m; unsigned two, ten; };
static const Suf SUF[] = {
    {"ki",1ull<<10,10,0},{"Ki",1ull<<10,10,0},{"kI",1ull<<10,10,0},{"KI",1ull<<10,10,0},
    {"mi",1ull<<20,20,0},{"MI",1ull<<20,20,0},{"gi",1ull<<30,30,0},{"Gi",1ull<<30,30,0},
    {"bi",1ull<<30,30,0},{"Bi",1ull<<30,30,0},{"ti",1ull<<40,40,0},{"TI",1ull<<40,40,0},
    {"pi",1ull<<50,50,0},{"Pi",1ull<<50,50,0},{"n",1,0,0},{"N",1,0,0},
    {"k",1000ull,0,3},{"K",1000ull,0,3},{"m",1000000ull,0,6},{"M",1000000ull,0,6},
    {"g",1000000000ull,0,9},{"G",1000000000ull,0,9},{"b",1000000000ull,0,9},{"B",1000000000ull,0,9},
    {"t",1000000000000ull,0,12},{"T",1000000000000ull,0,12},{"p",1000000000000000ull,0,15},{"P",1000000000000000ull,0,15}};

// A number in the documented notation together with the value it denotes
static Num genNum(Case& c) {
    Num n;
    const unsigned terms = 1 + unsigned(c.weighted({6, 3, 1, 1}));
    const bool huge = c.chance(1, 8);
    if (c.chance(1, 10)) n.text += " \t,"[below(c, 3)];
    for (unsigned i = 0; i < terms; ++i) {
        const bool last = i + 1 == terms;
        const bool ws = c.chance(1, 4);
        uint64_t v;
        switch (below(c, 4)) {
            case 0: v = below(c, 10); break;
            case 1: v = below(c, 70000); break;
            case 2: v = c.bits(64) >> below(c, 64); break;
            default: { const unsigned b = unsigned(below(c, 65)); v = b == 64 ? ~0ull : (1ull << b); v += c.range(-1, 1); if (b == 64) v = ~0ull; break; }
        }
        if (terms > 1 && !huge) v &= 0xffff;
        bool hex = false, frac_ok = true;
        if (i == 0 && c.chance(1, 3)) {
            frac_ok = false;
            std::string d;
            switch (below(c, 3)) {
                case 0: hex = true; d = radix(v, 16, c.flip()); n.text += c.flip() ? "0x" : "0X"; break;
                case 1: d = radix(v, 2, false); n.text += c.flip() ? "0b" : "0B"; break;
                default: d = radix(v, 8, false); n.text += "0"; break;
            }
            if (c.chance(1, 6)) d = "00" + d;
            n.text += sprinkle(c, d, ws);
        } else {
            std::string d = dec(v);
            if (i > 0 && c.chance(1, 4)) d = "0" + d;       // only the first value has a prefix
            n.text += sprinkle(c, d, ws && !(i == 0 && v == 0));
        }
        u128 val = v;
        if (last && c.chance(1, 2)) {                       // no suffix
            n.value += val;
            if (ws && c.flip()) n.text += ' ';
            break;
        }
        const Suf* s;
        do s = &SUF[below(c, sizeof(SUF) / sizeof(SUF[0]))]; while ((hex || (i == 0 && v == 0)) && (s->t[0] == 'b' || s->t[0] == 'B'));
        val *= s->m;
        if (frac_ok && (s->two || s->ten) && c.chance(1, 3)) {
            unsigned digits; u128 num;
            if (s->ten) { digits = 1 + unsigned(below(c, s->ten)); u128 lim = 1; for (unsigned k = 0; k < digits; ++k) lim *= 10; num = c.bits(64) % uint64_t(lim); }
            else {
                digits = 1 + unsigned(below(c, std::min(s->two, 16u)));
                u128 five = 1; for (unsigned k = 0; k < digits; ++k) five *= 5;
                num = five * (c.bits(64) % (1ull << digits));
            }
            u128 den = 1; for (unsigned k = 0; k < digits; ++k) den *= 10;
            u128 f = num * s->m;
            if (f % den) n.exact = false;
            val += f / den;
            std::string d = dec(num);
            while (d.size() < digits) d = "0" + d;
            if (c.chance(1, 5)) d += "0";
            n.text += "." + sprinkle(c, d, ws);
        }
        if (ws && c.flip()) n.text += ' ';
        n.text += s->t;
        if (c.chance(1, 6)) n.text += " ,"[below(c, 2)];
        n.value += val;
    }
    return n;
}

template <class T> static void checkOne(Case& c, const Num& n, bool neg, const std::string& text) {
    const bool sgn = std::is_signed<T>::value;
    if (neg && !sgn) { REQUIRE_THROWS(([&] { size_t e; (void)sparta::utils::smartLexicalCast<T>(text, e); }()), "a negative number was accepted for an unsigned type: " << text); return; }
    const u128 lim = sgn ? u128(std::numeric_limits<T>::max()) + (neg ? 1 : 0) : u128(std::numeric_limits<T>::max());
    bool thrown = false; T got = 0; size_t end = 0;
    try { got = sparta::utils::smartLexicalCast<T>(text, end); } catch (sparta::SpartaException&) { thrown = true; }
    if (n.value > lim) { REQUIRE(thrown, "'" << text << "' does not fit in " << sizeof(T) * 8 << (sgn ? " signed" : " unsigned") << " bits but was accepted as " << +got); }
    else {
        const T want = neg ? T(0 - uint64_t(n.value)) : T(uint64_t(n.value));
        REQUIRE(!thrown, "'" << text << "' (" << +want << ") was refused for " << sizeof(T) * 8 << (sgn ? " signed" : " unsigned") << " bits");
        REQUIRE(got == want, "'" << text << "' read as " << +got << " instead of " << +want);
    }
}
PROPERTY_BATCH(number_text, 10000, 200000, 20) {
    for (int k = 0; k < 20; ++k) {
        const Num n = genNum(c);
        const bool neg = c.chance(1, 4);
        const std::string text = neg ? "-" + n.text : n.text;
        LOG(c, "text '" << text << "' denotes " << (neg ? "-" : "") << dec(n.value));
        if (!n.exact) continue;
        switch (below(c, 8)) {
            case 0: checkOne<uint64_t>(c, n, neg, text); break;
            case 1: checkOne<uint32_t>(c, n, neg, text); break;
            case 2: checkOne<uint16_t>(c, n, neg, text); break;
            case 3: checkOne<uint8_t>(c, n, neg, text); break;
            case 4: checkOne<int64_t>(c, n, neg, text); break;
            case 5: checkOne<int32_t>(c, n, neg, text); break;
            case 6: checkOne<int16_t>(c, n, neg, text); break;
            default: checkOne<int8_t>(c, n, neg, text); break;
        }
        if (n.text.size() > 2) c.nontrivial(true);
        if (c.chance(1, 10)) {
            // A character which is in no notation makes the text malformed wherever it is
            std::string bad = text;
            bad.insert(bad.begin() + long(below(c, bad.size() + 1)), "qzjwy#$:+/'@"[below(c, 12)]);
            LOG(c, "malformed '" << bad << "'");
            REQUIRE_THROWS(([&] { size_t e; (void)sparta::utils::smartLexicalCast<int64_t>(bad, e); }()), "malformed text '" << bad << "' was accepted");
        }
    }
}

// ---------------------------------------------------------------------------------- typed parameters
template <class T> struct Gen;      // gen: a random value; text: the text of it; bad: malformed text
template <class T> struct IntGen {
    static T gen(Case& c) {
        switch (below(c, 4)) {
            case 0: return T(c.range(0, 20));
            case 1: return std::numeric_limits<T>::max();
            case 2: return std::numeric_limits<T>::min();
            default: return T(c.bits(64));
        }
    }
    static std::string text(Case& c, T v) {
        if (v >= 0 && c.chance(1, 4)) return "0x" + radix(uint64_t(v), 16, c.flip());
        return std::to_string(v);
    }
    static std::string bad(Case& c) {
        switch (below(c, 3)) {
            case 0: return "zebra";
            case 1: return "100000000000000000000";
            default: return std::is_signed<T>::value ? "-100000000000000000000" : "-1";
        }
    }
};
template <> struct Gen<uint8_t> : IntGen<uint8_t> {};
template <> struct Gen<uint16_t> : IntGen<uint16_t> {};
template <> struct Gen<uint32_t> : IntGen<uint32_t> {};
template <> struct Gen<uint64_t> : IntGen<uint64_t> {};
template <> struct Gen<int8_t> : IntGen<int8_t> {};
template <> struct Gen<int32_t> : IntGen<int32_t> {};
template <> struct Gen<int64_t> : IntGen<int64_t> {};
template <> struct Gen<bool> {
    static bool gen(Case& c) { return c.flip(); }
    static std::string text(Case& c, bool v) { static const char* T[] = {"true", "1", "yes", "on", "True", "y", "7"}, *F[] = {"false", "0", "no", "off", "False", "n", "0"}; const auto i = below(c, 7); return v ? T[i] : F[i]; }
    static std::string bad(Case& c) { return c.flip() ? "maybe" : ""; }
};
template <> struct Gen<double> {
    static double gen(Case& c) {
        switch (below(c, 4)) {
            case 0: return double(c.range(-5, 5));
            case 1: return double(c.range(-1000000, 1000000)) / 1000.0;
            case 2: return std::ldexp(double(c.bits(53)), int(c.range(-300, 200)));
            default: { double d; uint64_t b = c.bits(64); memcpy(&d, &b, 8); if (!std::isfinite(d) || std::fpclassify(d) == FP_SUBNORMAL) d = 0.1; return d; }
        }
    }
    static std::string text(Case&, double v) { char b[64]; snprintf(b, sizeof b, "%.17g", v); return b; }
    static std::string bad(Case& c) { return c.flip() ? "1.5x" : "abc"; }
};
template <> struct Gen<std::string> {
    static std::string gen(Case& c) { return c.str("ab cXY_.-0:,[]\"'", 0, 8); }
    static std::string text(Case&, const std::string& v) { return v; }
    static std::string bad(Case&) { return ""; }
};

struct RootDev { sparta::RootTreeNode root{"top"}; };

// One scalar parameter of each type: histories of assignments, reads and defaults
template <class T> static void scalarHistory(Case& c) {
    sparta::RootTreeNode root("top");
    sparta::TreeNode dev(&root, "dev", "d");
    sparta::ParameterSet ps(&dev);
    sp::Teardown td{root};
    const bool vol = c.flip();
    const int attr = int(below(c, 3));
    T val = Gen<T>::gen(c), def = val;
    typedef sparta::Parameter<T> P;
    typedef typename P::ParameterAttribute A;
    P p("par", val, "doc", attr == 0 ? A::DEFAULT : attr == 1 ? A::LOCKED : A::HIDDEN, &ps, vol);
    LOG(c, "parameter type " << p.getTypeName() << " volatile " << vol << " attribute " << attr << " value '" << p.getValueAsString() << "'");
    uint32_t reads = 0, writes = 0; bool locked = false, ignored = false, overridden = false;
    const bool isstr = std::is_same<T, std::string>::value;
    const int ops = 3 + int(below(c, 14));
    int did = 0;
    for (int i = 0; i < ops; ++i) {
        const bool frozen = locked && attr != 0;
        const bool canwrite = !frozen && (vol || reads == 0);
        switch (c.weighted({6, 3, 2, 2, 2, 2, 1, 1, 1, 2})) {
            case 0: {
                const T v = Gen<T>::gen(c); const std::string t = Gen<T>::text(c, v); const bool poke = c.chance(1, 4), item = c.chance(1, 4);
                LOG(c, "set '" << t << "' poke " << poke << " item " << item);
                const bool ok = !frozen && ((poke && !item) || vol || reads == 0);
                if (!ok && !c.chance(1, 2)) break;
                bool thrown = false;
                try { if (item) p.setItemValueFromString({}, t); else p.setValueFromString(t, poke); } catch (sparta::SpartaException&) { thrown = true; }
                REQUIRE_EQ(thrown, !ok, std::string("assignment from text refused"));
                if (ok) { val = v; if (!poke || item) { ++writes; reads = 0; } ++did; }
                break; }
            case 1: {
                const T v = Gen<T>::gen(c);
                LOG(c, "assign");
                if (!canwrite && !c.chance(1, 2)) break;
                bool thrown = false;
                try { p = v; } catch (sparta::SpartaException&) { thrown = true; }
                REQUIRE_EQ(thrown, !canwrite, std::string("assignment refused"));
                if (canwrite) { val = v; ++writes; reads = 0; ++did; }
                break; }
            case 2: {
                if (isstr || !c.chance(1, 3)) break;
                const std::string t = Gen<T>::bad(c);
                LOG(c, "set malformed '" << t << "'");
                if (t.empty() && !std::is_same<T, bool>::value) break;
                REQUIRE_THROWS(p.setValueFromString(t), "malformed text '" << t << "' was accepted");
                break; }
            case 3: LOG(c, "read"); { const T got = p.getValue(); REQUIRE(got == val, "the value read is not the last one assigned"); } ++reads; break;
            case 4: {
                const T v = Gen<T>::gen(c); const std::string t = Gen<T>::text(c, v);
                LOG(c, "override default '" << t << "'");
                const bool ok = !frozen && reads == 0;
                if (!ok && !c.chance(1, 2)) break;
                bool thrown = false;
                try { p.overrideDefaultFromString(t); } catch (sparta::SpartaException&) { thrown = true; }
                REQUIRE_EQ(thrown, !ok, std::string("overriding the default refused"));
                if (ok) { def = v; overridden = true; ++did; }
                break; }
            case 5: {
                LOG(c, "restore default");
                const bool ok = !frozen && reads == 0;
                if (!ok && !c.chance(1, 2)) break;
                bool thrown = false;
                try { p.restoreValueFromDefault(); } catch (sparta::SpartaException&) { thrown = true; }
                REQUIRE_EQ(thrown, !ok, std::string("restoring the default refused"));
                if (ok) { val = def; ++writes; ++did; }
                break; }
            case 6: LOG(c, "ignore"); p.ignore(); ignored = true; break;
            case 7: LOG(c, "unread"); p.unread(); reads = 0; ignored = false; break;
            case 8: if (c.chance(1, 3) && !locked) { LOG(c, "lock down"); root.lockdownParameters(); locked = true; } break;
            default: {
                LOG(c, "print and parse back");
                const std::string t = p.getValueAsString();
                size_t e;
                const T back = sparta::utils::smartLexicalCast<T>(t, e);
                REQUIRE(back == val, "printed '" << t << "' reads back as a different value");
                const T dback = sparta::utils::smartLexicalCast<T>(p.getDefaultAsString(), e);
                REQUIRE(dback == def, "printed default reads back as a different value");
                const std::string it = p.peekItemValueFromString({});
                REQUIRE_EQ(it, t, std::string("item text"));
                break; }
        }
        { const T pv = p.peekValue(); REQUIRE(pv == val, "value is not the last one assigned"); }
        { const T dv = p.getDefault(); REQUIRE(dv == def, "default is not the last one set"); }
        REQUIRE_EQ(uint32_t(p.getReadCount()), reads, std::string("read count"));
        REQUIRE_EQ(uint32_t(p.getWriteCount()), writes, std::string("write count"));
        REQUIRE_EQ(bool(p.isIgnored()), ignored, std::string("ignored"));
        REQUIRE_EQ(bool(p.isReadOrIgnored()), (reads > 0 || ignored), std::string("read or ignored"));
        REQUIRE_EQ(bool(p.isDefaultOverridden()), overridden, std::string("default overridden"));
        REQUIRE_EQ(bool(p.isDefault()), (val == def), std::string("isDefault"));
        REQUIRE_EQ(bool(p.isVisibilityAllowed()), !(attr == 2 && locked), std::string("visible"));
        if (c.chance(1, 8)) {
            bool thrown = false;
            try { ps.verifyAllRead(); } catch (sparta::SpartaException&) { thrown = true; }
            REQUIRE_EQ(thrown, !(reads > 0 || ignored), std::string("verifyAllRead reports an unread parameter"));
        }
    }
    c.nontrivial(did >= 2);
}
PROPERTY(scalar, 12000, 200000) {
    switch (below(c, 10)) {
        case 0: scalarHistory<uint8_t>(c); break;
        case 1: scalarHistory<uint16_t>(c); break;
        case 2: scalarHistory<uint32_t>(c); break;
        case 3: scalarHistory<uint64_t>(c); break;
        case 4: scalarHistory<int8_t>(c); break;
        case 5: scalarHistory<int32_t>(c); break;
        case 6: scalarHistory<int64_t>(c); break;
        case 7: scalarHistory<bool>(c); break;
        case 8: scalarHistory<double>(c); break;
        default: scalarHistory<std::string>(c); break;
    }
}

// Vectors: the whole value, items at any index, nested
template <class T> static std::string vtext(const std::vector<T>& v, bool quote);
template <class T> static std::string etext(const T& e, bool) { return sparta::utils::stringize_value(e); }
static std::string etext(const std::string& e, bool q) { return q ? "\"" + e + "\"" : e; }
template <class T> static std::string etext(const std::vector<T>& e, bool q) { return vtext(e, q); }
template <class T> static std::string vtext(const std::vector<T>& v, bool quote) {
    std::string s = "[";
    for (size_t i = 0; i < v.size(); ++i) { const T e = v[i]; s += (i ? ", " : "") + etext(e, quote); }
    return s + "]";
}
template <class T> static void vectorHistory(Case& c) {
    typedef std::vector<T> V;
    sparta::RootTreeNode root("top");
    sparta::TreeNode dev(&root, "dev", "d");
    sparta::ParameterSet ps(&dev);
    sp::Teardown td{root};
    const bool vol = c.flip();
    V val;
    for (auto n = below(c, 4); n--;) val.push_back(Gen<T>::gen(c));
    V def = val;
    sparta::Parameter<V> p("par", val, "doc", &ps, vol);
    LOG(c, "parameter type " << p.getTypeName() << " volatile " << vol << " value " << p.getValueAsString());
    uint32_t reads = 0, writes = 0;
    const bool isstr = std::is_same<T, std::string>::value;
    int did = 0;
    for (int i = 0, ops = 3 + int(below(c, 12)); i < ops; ++i) {
        const bool ok = vol || reads == 0;
        switch (c.weighted({4, 5, 2, 2, 2, 2, 1, 2})) {
            case 0: {
                V v; std::vector<std::string> t;
                for (auto n = below(c, 5); n--;) { v.push_back(Gen<T>::gen(c)); t.push_back(Gen<T>::text(c, v.back())); }
                const bool poke = c.chance(1, 4);
                LOG(c, "set " << vtext(v, true) << " poke " << poke);
                if (!ok && !poke && !c.chance(1, 2)) break;
                bool thrown = false;
                try { p.setValueFromStringVector(t, poke); } catch (sparta::SpartaException&) { thrown = true; }
                REQUIRE_EQ(thrown, !(ok || poke), std::string("assignment from texts refused"));
                if (ok || poke) { val = v; if (!poke) { ++writes; reads = 0; } ++did; }
                break; }
            case 1: {
                const uint32_t idx = uint32_t(below(c, val.size() + 3)); const T v = Gen<T>::gen(c);
                LOG(c, "set item " << idx);
                if (!ok && !c.chance(1, 2)) break;
                bool thrown = false;
                try { p.setItemValueFromString({idx}, Gen<T>::text(c, v)); } catch (sparta::SpartaException&) { thrown = true; }
                REQUIRE_EQ(thrown, !ok, std::string("assignment of an item refused"));
                if (ok) { if (idx >= val.size()) val.resize(idx + 1); val[idx] = v; ++writes; reads = 0; ++did; }
                break; }
            case 2: {
                if (isstr || !c.chance(1, 3)) break;
                const std::string t = Gen<T>::bad(c);
                if (t.empty() && !std::is_same<T, bool>::value) break;
                const uint32_t idx = uint32_t(below(c, val.size() + 3));
                LOG(c, "set malformed item " << idx << " or vector '" << t << "'");
                if (c.flip()) { REQUIRE_THROWS(p.setItemValueFromString({idx}, t), "malformed text was accepted for an item"); }
                else {
                    std::vector<std::string> ts; for (auto n = below(c, 3); n--;) ts.push_back(Gen<T>::text(c, Gen<T>::gen(c)));
                    ts.insert(ts.begin() + long(below(c, ts.size() + 1)), t);
                    REQUIRE_THROWS(p.setValueFromStringVector(ts), "malformed text was accepted in a vector");
                }
                break; }
            case 3: {
                LOG(c, "read");
                { const V got = p.getValue(); REQUIRE(got == val, "the value read is not the last one assigned"); } ++reads;
                const size_t n = p.peekNumValues();
                REQUIRE_EQ(n, val.size(), std::string("number of values"));
                for (uint32_t k = 0; k < val.size(); ++k) { const T e = val[k]; REQUIRE_EQ(p.peekItemValueFromString({k}), etext(e, false), std::string("text of an item")); REQUIRE_EQ(p.getValueAsStringAt(k, true), etext(e, false), std::string("text of an item")); }
                REQUIRE_EQ(uint32_t(p.peekVectorSizeAt({})), uint32_t(val.size()), std::string("size"));
                if (c.chance(1, 6)) { REQUIRE_THROWS((void)p.peekItemValueFromString({uint32_t(val.size())}), "an item past the end could be read"); }
                break; }
            case 4: {
                if (!ok && !c.chance(1, 2)) break;
                V v; for (auto n = below(c, 5); n--;) v.push_back(Gen<T>::gen(c));
                LOG(c, "assign " << vtext(v, true));
                bool thrown = false;
                try { p = v; } catch (sparta::SpartaException&) { thrown = true; }
                REQUIRE_EQ(thrown, !ok, std::string("assignment refused"));
                if (ok) { val = v; ++writes; reads = 0; ++did; }
                break; }
            case 5: {
                V v; std::vector<std::string> t;
                for (auto n = below(c, 5); n--;) { v.push_back(Gen<T>::gen(c)); t.push_back(Gen<T>::text(c, v.back())); }
                LOG(c, "override default " << vtext(v, true));
                const bool can = reads == 0;
                if (!can && !c.chance(1, 2)) break;
                bool thrown = false;
                try { p.overrideDefaultFromStringVector(t); } catch (sparta::SpartaException&) { thrown = true; }
                REQUIRE_EQ(thrown, !can, std::string("overriding the default refused"));
                if (can) def = v;
                break; }
            case 6: LOG(c, "unread"); p.unread(); reads = 0; break;
            default: {
                const bool can = reads == 0;
                LOG(c, "restore default");
                if (!can && !c.chance(1, 2)) break;
                bool thrown = false;
                try { p.restoreValueFromDefault(); } catch (sparta::SpartaException&) { thrown = true; }
                REQUIRE_EQ(thrown, !can, std::string("restoring the default refused"));
                if (can) { val = def; ++writes; ++did; }
                break; }
        }
        { const V pv = p.peekValue(); REQUIRE(pv == val, "value is " << vtext(pv, true) << " instead of " << vtext(val, true)); }
        { const V dv = p.getDefault(); REQUIRE(dv == def, "default is " << vtext(dv, true) << " instead of " << vtext(def, true)); }
        REQUIRE_EQ(p.getValueAsString(), vtext(val, true), std::string("text of the value"));
        REQUIRE_EQ(uint32_t(p.getReadCount()), reads, std::string("read count"));
        REQUIRE_EQ(uint32_t(p.getWriteCount()), writes, std::string("write count"));
        if (val == def) { REQUIRE(p.isDefault(), "a value equal to the default is reported not to be the default"); }
        else if (!isstr) { REQUIRE(!p.isDefault(), "a value different from the default is reported to be the default"); }
    }
    c.nontrivial(did >= 2);
}
// two dimensions: only items are set from text
static void nestedHistory(Case& c) {
    typedef std::vector<std::vector<int32_t>> V;
    sparta::RootTreeNode root("top");
    sparta::TreeNode dev(&root, "dev", "d");
    sparta::ParameterSet ps(&dev);
    sp::Teardown td{root};
    V val;
    for (auto n = below(c, 3); n--;) { val.emplace_back(); for (auto m = below(c, 3); m--;) val.back().push_back(int32_t(c.range(-9, 9))); }
    sparta::Parameter<V> p("par", val, "doc", &ps, false);
    uint32_t writes = 0; bool read = false;
    REQUIRE_EQ(uint32_t(p.getDimensionality()), 2u, std::string("dimensions"));
    for (int i = 0, ops = 3 + int(below(c, 12)); i < ops; ++i) {
        switch (c.weighted({6, 2, 1, 1, 1})) {
            case 0: {
                const uint32_t a = uint32_t(below(c, val.size() + 2)), b = uint32_t(below(c, 4)); const int32_t v = int32_t(c.range(-99, 99));
                LOG(c, "set item " << a << "," << b << " = " << v);
                if (read && !c.chance(1, 2)) break;
                bool thrown = false;
                try { p.setItemValueFromString({a, b}, std::to_string(v)); } catch (sparta::SpartaException&) { thrown = true; }
                REQUIRE_EQ(thrown, read, std::string("assignment of an item refused"));
                if (!read) { if (a >= val.size()) val.resize(a + 1); if (b >= val[a].size()) val[a].resize(b + 1); val[a][b] = v; ++writes; }
                break; }
            case 1: {
                if (!c.chance(1, 2)) break;
                const uint32_t a = uint32_t(below(c, val.size() + 2));
                LOG(c, "bad item at " << a);
                switch (below(c, 4)) {
                    case 0: REQUIRE_THROWS(p.setItemValueFromString({a}, "1"), "a number was assigned to a vector of numbers"); break;
                    case 1: REQUIRE_THROWS(p.setItemValueFromString({a, 1, 0}, "1"), "too many indices were accepted"); break;
                    case 2: REQUIRE_THROWS(p.setItemValueFromString({a, 4}, "x"), "malformed text was accepted"); break;
                    default: REQUIRE_THROWS(p.setValueFromString("1"), "text was accepted for a whole vector"); break;
                }
                break; }
            case 2: {
                LOG(c, "grow");
                const uint32_t a = uint32_t(below(c, val.size() + 2));
                p.resizeVectorsFromString({a});
                if (a >= val.size()) val.resize(a + 1);
                break; }
            case 3: LOG(c, "clear"); p.clearVectorValue(); val.clear(); break;
            default: LOG(c, "read"); if (c.chance(1, 2)) { const V got = p.getValue(); REQUIRE(got == val, "value read"); read = true; } break;
        }
        { const V pv = p.peekValue(); REQUIRE(pv == val, "value is " << vtext(pv, true) << " instead of " << vtext(val, true)); }
        REQUIRE_EQ(p.getValueAsString(), vtext(val, true), std::string("text of the value"));
        REQUIRE_EQ(uint32_t(p.getWriteCount()), writes, std::string("write count"));
        REQUIRE_EQ(uint32_t(p.peekVectorSizeAt({})), uint32_t(val.size()), std::string("size"));
        for (uint32_t a = 0; a < val.size(); ++a) REQUIRE_EQ(uint32_t(p.peekVectorSizeAt({a})), uint32_t(val[a].size()), std::string("inner size"));
    }
    c.nontrivial(writes >= 2);
}
PROPERTY(vector, 9000, 150000) {
    switch (below(c, 6)) {
        case 0: vectorHistory<uint32_t>(c); break;
        case 1: vectorHistory<bool>(c); break;
        case 2: vectorHistory<double>(c); break;
        case 3: vectorHistory<std::string>(c); break;
        case 4: vectorHistory<int64_t>(c); break;
        default: nestedHistory(c); break;
    }
}

// ---------------------------------------------------------- dependent validation and modification callbacks
struct Limits { int64_t lo = 0, hi = 0, forbidden = 0; const sparta::TreeNode* seen = nullptr; };
static Limits L;
static bool aboveLow(int64_t& v, const sparta::TreeNode* n) { L.seen = n; return v >= L.lo; }
static bool belowHigh(int64_t& v, const sparta::TreeNode* n) { L.seen = n; return v <= L.hi; }
struct Allowed { bool allowed(int64_t& v, const sparta::TreeNode*) { return v != L.forbidden; } };
PROPERTY(validation, 3000, 50000) {
    sparta::RootTreeNode root("top");
    sparta::TreeNode dev(&root, "dev", "d");
    sparta::ParameterSet ps(&dev);
    sp::Teardown td{root};
    L = Limits{c.range(-5, 5), c.range(-2, 10), c.range(-5, 8), nullptr};
    Allowed al;
    const unsigned n = 1 + unsigned(below(c, 4));
    std::vector<std::unique_ptr<sparta::Parameter<int64_t>>> ps_v;
    std::vector<std::vector<int>> rules(n);
    for (unsigned i = 0; i < n; ++i) {
        ps_v.emplace_back(new sparta::Parameter<int64_t>("p_" + std::string(1, char('a' + i)), c.range(-6, 11), "doc", &ps));
        for (int r = 0; r < 3; ++r) if (c.chance(1, 2)) {
            rules[i].push_back(r);
            if (r == 0) ps_v[i]->addDependentValidationCallback(&aboveLow, "above low");
            else if (r == 1) ps_v[i]->addDependentValidationCallback(&belowHigh, "below high");
            else ps_v[i]->addDependentValidationCallback<Allowed, &Allowed::allowed>(&al, "allowed");
        }
    }
    static const char* NM[] = {"above low", "below high", "allowed"};
    bool anyfail = false, anyrule = false;
    for (int round = 0; round < 4; ++round) {
        if (round) { auto& p = *ps_v[below(c, n)]; const int64_t v = c.range(-7, 12); LOG(c, p.getName() << " = " << v); p = v; }
        bool all = true;
        for (unsigned i = 0; i < n; ++i) {
            const int64_t v = ps_v[i]->peekValue();
            std::string want, got; bool ok = true;
            for (int r : rules[i]) {
                anyrule = true;
                const bool good = r == 0 ? v >= L.lo : r == 1 ? v <= L.hi : v != L.forbidden;
                if (!good) { ok = false; want += std::string(NM[r]) + ","; }
            }
            const bool res = ps_v[i]->validateDependencies(&dev, got);
            REQUIRE_EQ(res, ok, std::string("validation of ") + ps_v[i]->getName() + " = " + std::to_string(v));
            REQUIRE_EQ(got, want, std::string("names of the failed rules"));
            all = all && ok;
        }
        std::string err;
        REQUIRE_EQ(bool(ps.validateDependencies(&dev, err)), all, std::string("validation of the set"));
        REQUIRE_EQ(err.empty(), all, std::string("the error text is empty exactly without errors"));
        std::string e2;
        REQUIRE(ps.validateIndependently(e2), "independent validation failed without any rule");
        anyfail = anyfail || !all;
    }
    c.nontrivial(anyrule && anyfail);
}

// A parameter's callback may set parameters after it in the set; refused and failing ones change nothing
struct Chain {
    std::vector<sparta::Parameter<uint32_t>*> p;
    std::vector<int> target; std::vector<uint32_t> bad; std::vector<int> calls;
    template <int I> void cb() {
        ++calls[I];
        const uint32_t v = p[I]->peekValue();
        if (v == bad[I]) throw sparta::SpartaException("refused value");
        if (target[I] >= 0) *p[size_t(target[I])] = v + 1;
    }
};
PROPERTY(modifiers, 3000, 50000) {
    sparta::RootTreeNode root("top");
    sparta::TreeNode dev(&root, "dev", "d");
    sparta::ParameterSet ps(&dev);
    sp::Teardown td{root};
    const unsigned n = 2 + unsigned(below(c, 3));
    std::vector<std::unique_ptr<sparta::Parameter<uint32_t>>> own;
    Chain ch;
    for (unsigned i = 0; i < n; ++i) { own.emplace_back(new sparta::Parameter<uint32_t>("p_" + std::string(1, char('a' + i)), 0, "doc", &ps)); ch.p.push_back(own.back().get()); }
    ch.target.assign(n, -1); ch.bad.assign(n, 1000); ch.calls.assign(n, 0);
    std::vector<bool> hascb(n, false);
    for (unsigned i = 0; i + 1 < n; ++i) if (c.chance(3, 4)) {
        hascb[i] = true;
        // mostly a later parameter, sometimes an earlier one, which is refused
        ch.target[i] = c.chance(1, 6) && i ? int(below(c, i)) : int(i + 1 + below(c, n - i - 1));
        if (c.chance(1, 3)) ch.bad[i] = uint32_t(below(c, 5));
        std::vector<const sparta::ParameterBase*> assoc;
        if (ch.target[i] > int(i)) assoc.push_back(ch.p[size_t(ch.target[i])]);
        typedef Chain Ch;
        switch (i) {
            case 0: ch.p[i]->associateParametersForModification(assoc, sparta::SpartaHandler::from_member<Ch, &Ch::cb<0>>(&ch, "cb")); break;
            case 1: ch.p[i]->associateParametersForModification(assoc, sparta::SpartaHandler::from_member<Ch, &Ch::cb<1>>(&ch, "cb")); break;
            case 2: ch.p[i]->associateParametersForModification(assoc, sparta::SpartaHandler::from_member<Ch, &Ch::cb<2>>(&ch, "cb")); break;
            default: ch.p[i]->associateParametersForModification(assoc, sparta::SpartaHandler::from_member<Ch, &Ch::cb<3>>(&ch, "cb")); break;
        }
        LOG(c, "parameter " << i << " sets " << ch.target[i] << " and refuses " << ch.bad[i]);
    }
    std::vector<uint32_t> val(n, 0); std::vector<int> calls(n, 0);
    std::vector<int> stack;
    // returns whether the assignment is accepted
    std::function<bool(unsigned, uint32_t)> assign = [&](unsigned i, uint32_t v) -> bool {
        if (!stack.empty() && int(i) <= stack.back()) return false;
        const uint32_t old = val[i];
        val[i] = v;
        if (!hascb[i]) return true;
        stack.push_back(int(i));
        ++calls[i];
        const bool ok = v != ch.bad[i] && (ch.target[i] < 0 || assign(unsigned(ch.target[i]), v + 1));
        stack.pop_back();
        if (!ok) val[i] = old;
        return ok;
    };
    int good = 0, refused = 0;
    for (int k = 0, ops = 2 + int(below(c, 8)); k < ops; ++k) {
        const unsigned i = unsigned(below(c, n)); const uint32_t v = uint32_t(below(c, 5)); const bool text = c.flip();
        LOG(c, "set " << i << " = " << v << (text ? " from text" : ""));
        const bool want = assign(i, v);
        bool thrown = false;
        try { if (text) ch.p[i]->setValueFromString(std::to_string(v)); else *ch.p[i] = v; } catch (sparta::SpartaException&) { thrown = true; }
        REQUIRE_EQ(thrown, !want, std::string("assignment refused"));
        for (unsigned j = 0; j < n; ++j) { const uint32_t got = ch.p[j]->peekValue(); REQUIRE_EQ(got, val[j], std::string("value of parameter ") + std::to_string(j)); REQUIRE_EQ(int(ch.calls[j]), calls[j], std::string("callback calls of ") + std::to_string(j)); }
        REQUIRE(!ps.isLocked(), "the set stays locked after an assignment");
        want ? ++good : ++refused;
    }
    c.nontrivial(good > 1);
}
