// C34: tree filter expressions against an own evaluation of the expression tree they were printed from.
#include "pbt.hpp"
#include "sp.hpp"
#include "sparta/tree/filter/Parser.hpp"
#include "sparta/report/Report.hpp"
#include "sparta/statistics/StatisticSet.hpp"
#include "sparta/statistics/Counter.hpp"
#include "sparta/statistics/StatisticDef.hpp"
#include "sparta/simulation/Parameter.hpp"
#include "sparta/simulation/ParameterSet.hpp"
#include "sparta/simulation/ResourceTreeNode.hpp"
#include <set>
#include <map>
using namespace pbt;
typedef sparta::InstrumentationNode IN; typedef sparta::tree::filter::Expression Ex;
static uint64_t below(Case& c, uint64_t n) { return n > 1 ? c.draw(n - 1) : 0; }
template <size_t N> static const char* pick(Case& c, const char* const (&a)[N]) { return a[below(c, N)]; }

// ---- regular expressions: a small syntax tree, its text and an own matcher
struct Rx; typedef std::shared_ptr<Rx> RxP;
struct Rx { enum K { LIT, ANY, SET, NSET, CAT, REP } k; std::string s; std::vector<RxP> sub; char q = 0; };
static RxP rx(Rx::K k, std::string s = "") { auto r = std::make_shared<Rx>(); r->k = k; r->s = s; return r; }
static const char ALPHA[] = "abxyA_1";
static RxP genRx(Case& c, int depth) {
    auto cat = rx(Rx::CAT); const unsigned n = (unsigned)c.small(1, 4);
    for (unsigned i = 0; i < n; ++i) {
        RxP a;
        switch (c.weighted({6, 3, 2, 1, depth > 0 ? 2u : 0u})) {
        case 0: a = rx(Rx::LIT, std::string(1, ALPHA[below(c, 7)])); break;
        case 1: a = rx(Rx::ANY); break;
        case 2: { static const char* sets[] = {"ab", "a-c", "x-z", "0-9", "A-Z", "a-y"}; a = rx(Rx::SET, pick(c, sets)); break; }
        case 3: { static const char* sets[] = {"ab", "a-c", "0-9", "x"}; a = rx(Rx::NSET, pick(c, sets)); break; }
        default: a = genRx(c, depth - 1); break;
        }
        const unsigned q = (unsigned)c.weighted({6, 2, 2, 2});
        if (q) { auto r = rx(Rx::REP); r->q = "?*+"[q - 1]; r->sub = {a}; a = r; }
        cat->sub.push_back(a);
    }
    return cat;
}
static std::string textRx(const RxP& r, bool top = true) {
    switch (r->k) {
    case Rx::LIT: return r->s;
    case Rx::ANY: return ".";
    case Rx::SET: return "[" + r->s + "]";
    case Rx::NSET: return "[^" + r->s + "]";
    case Rx::CAT: { std::string t; for (auto& x : r->sub) t += textRx(x, false); return top ? t : "(" + t + ")"; }
    case Rx::REP: return textRx(r->sub[0], false) + r->q;
    }
    return "";
}
static bool inSet(const std::string& s, char ch) { for (size_t i = 0; i < s.size(); ++i) { if (i + 2 < s.size() && s[i + 1] == '-') { if (s[i] <= ch && ch <= s[i + 2]) return true; i += 2; } else if (s[i] == ch) return true; } return false; }
typedef std::set<size_t> Pos;
static Pos stepRx(const RxP& r, const std::string& t, const Pos& from) {
    Pos out;
    switch (r->k) {
    case Rx::LIT: for (auto p : from) if (p < t.size() && t[p] == r->s[0]) out.insert(p + 1); return out;
    case Rx::ANY: for (auto p : from) if (p < t.size()) out.insert(p + 1); return out;
    case Rx::SET: case Rx::NSET: for (auto p : from) if (p < t.size() && inSet(r->s, t[p]) == (r->k == Rx::SET)) out.insert(p + 1); return out;
    case Rx::CAT: { Pos p = from; for (auto& x : r->sub) p = stepRx(x, t, p); return p; }
    case Rx::REP: {
        if (r->q == '?') { out = stepRx(r->sub[0], t, from); out.insert(from.begin(), from.end()); return out; }
        Pos p = r->q == '+' ? stepRx(r->sub[0], t, from) : from; out = p;
        for (;;) { Pos n = stepRx(r->sub[0], t, p); Pos fresh; for (auto x : n) if (out.insert(x).second) fresh.insert(x); if (fresh.empty()) return out; p = fresh; } }
    }
    return out;
}
static bool matchRx(const RxP& r, const std::string& t) { return stepRx(r, t, Pos{0}).count(t.size()) != 0; }

// ---- expressions
struct N; typedef std::shared_ptr<N> NP;
struct N { enum K { T, F, VIS, TYPE, TAG, NAME, NOT, AND, OR, XOR } k; std::string op; uint64_t vis = 0; std::string visText; int type = 0; std::string typeText; std::string text; RxP re; NP a, b; };
struct MNode { sparta::TreeNode* n; bool instr; uint64_t vis; int type; std::vector<std::string> tags; std::string name; };
static const char* NAMES[] = {"a", "ab", "abc", "x_1", "A", "Ab", "b", "xy", "bx", "yyy"};
static const char* TAGS[] = {"a", "A", "ab", "axy", "b1", "bb", "x_y", "true", "regex"};

static bool eval(const NP& e, const MNode& m) {
    switch (e->k) {
    case N::T: return true;
    case N::F: return false;
    case N::NOT: return !eval(e->a, m);
    case N::AND: return eval(e->a, m) && eval(e->b, m);
    case N::OR: return eval(e->a, m) || eval(e->b, m);
    case N::XOR: return eval(e->a, m) != eval(e->b, m);
    case N::VIS: if (!m.instr) return false;
        if (e->op == "==" || e->op == "") return m.vis == e->vis;
        if (e->op == "!=") return m.vis != e->vis;
        if (e->op == "<") return m.vis < e->vis;
        if (e->op == "<=") return m.vis <= e->vis;
        if (e->op == ">") return m.vis > e->vis;
        return m.vis >= e->vis;
    case N::TYPE: return m.instr && ((m.type == e->type) == (e->op != "!="));
    case N::TAG: { bool any = false; for (auto& t : m.tags) if (e->re ? matchRx(e->re, t) : t == e->text) any = true; return any != (e->op == "!="); }
    case N::NAME: return (e->re ? matchRx(e->re, m.name) : m.name == e->text) != (e->op == "!=");
    }
    return false;
}
static uint64_t genVis(Case& c, std::string& text) {
    static const std::pair<const char*, uint64_t> named[] = {{"summary", 200000000}, {"normal", 100000000}, {"detail", 10000000}, {"support", 1000000}, {"hidden", 0}};
    static const uint64_t interesting[] = {0, 1, 5, 999999, 1000000, 1000001, 9999999, 10000000, 99999999, 100000000, 100000001, 200000000, 1000000000, 4294967294ull, 4294967295ull, 4294967296ull, 4394967296ull};
    switch (c.weighted({4, 3, 1})) {
    case 0: { auto& p = named[below(c, 5)]; text = p.first; return p.second; }
    case 1: { const uint64_t v = interesting[below(c, 17)]; text = std::to_string(v); return v; }
    default: { const unsigned s = (unsigned)below(c, 3); static const uint64_t mul[] = {1000, 1000000, 1000000000}; const uint64_t v = below(c, 120); text = std::to_string(v) + "kmg"[s]; return v * mul[s]; }
    }
}
static NP genEx(Case& c, int depth) {
    auto e = std::make_shared<N>();
    if (depth > 0 && c.chance(6, 10)) {
        switch (c.weighted({2, 3, 3, 2})) {
        case 0: e->k = N::NOT; e->a = genEx(c, depth - 1); return e;
        case 1: e->k = N::AND; break;
        case 2: e->k = N::OR; break;
        default: e->k = N::XOR; break;
        }
        e->a = genEx(c, depth - 1); e->b = genEx(c, depth - 1); return e;
    }
    static const char* VOPS[] = {"", "==", "!=", "<", "<=", ">", ">="};
    static const char* EOPS[] = {"", "==", "!="};
    switch (c.weighted({1, 1, 4, 3, 4, 4})) {
    case 0: e->k = N::T; break;
    case 1: e->k = N::F; break;
    case 2: e->k = N::VIS; e->op = pick(c, VOPS); e->vis = genVis(c, e->visText); break;
    case 3: { e->k = N::TYPE; e->op = pick(c, EOPS);
        static const std::pair<const char*, int> types[] = {{"statistic", IN::TYPE_STATISTICDEF}, {"statisticdef", IN::TYPE_STATISTICDEF}, {"stat", IN::TYPE_STATISTICDEF}, {"statdef", IN::TYPE_STATISTICDEF}, {"counter", IN::TYPE_COUNTER}, {"parameter", IN::TYPE_PARAMETER}, {"param", IN::TYPE_PARAMETER}, {"histogram", IN::TYPE_HISTOGRAM}};
        auto& t = types[below(c, 8)]; e->typeText = t.first; e->type = t.second; break; }
    default: { const bool tag = c.flip(); e->k = tag ? N::TAG : N::NAME;
        if (c.chance(4, 10)) { e->op = "regex"; e->re = genRx(c, 2); e->text = textRx(e->re); if (c.chance(1, 6)) e->text = "^" + e->text; if (c.chance(1, 6)) e->text += "$"; }
        else { e->op = pick(c, EOPS); e->text = tag ? pick(c, TAGS) : pick(c, NAMES); if (c.chance(1, 12)) { static const char* odd[] = {"c++", "a[", "(x", "*", "a.b", "a.*", "[0-9]", "?"}; e->text = pick(c, odd); } }
        break; }
    }
    return e;
}
static std::string anycase(Case& c, std::string s) { if (c.chance(1, 4)) for (auto& ch : s) if (c.flip()) ch = (char)toupper(ch); return s; }
static std::string sp_(Case& c) { static const char* a[] = {"", "", " ", "  ", "\t"}; return a[below(c, 5)]; }
static std::string blanks(Case& c) { static const char* a[] = {"", "", " ", "   "}; return a[below(c, 4)]; }
static int prec(const NP& e) { switch (e->k) { case N::XOR: return 1; case N::OR: return 2; case N::AND: return 3; case N::NOT: return 4; default: return 5; } }
// `min`: the weakest operator that can stand here without parentheses
static std::string print(Case& c, const NP& e, int min) {
    if (prec(e) < min || c.chance(1, 8)) return "(" + sp_(c) + print(c, e, 1) + " " + sp_(c) + ")";   // a blank ends a pattern before ')'
    auto value = [&](const std::string& v) {
        std::string q = "";
        switch (c.weighted({3, 1, 1})) { case 1: q = "\""; break; case 2: q = "'"; break; }
        return q.empty() ? v : q + v + q;
    };
    auto key = [&](const char* k) { static const char* w[] = {"", "", " ", "\t", "  "}; std::string r = anycase(c, k); r += w[below(c, 5)]; r += ":"; return r + w[below(c, 5)]; };
    const std::string op = e->op == "regex" ? anycase(c, "regex") + " " : e->op;
    auto chain = [&](const char* sym, int p) {
        // the operators are associative: a right operand of the same kind needs no parentheses for the meaning
        std::string l = print(c, e->a, p), r = print(c, e->b, c.chance(1, 3) ? p : p + 1);
        const bool nospace = c.chance(1, 4) && *sym != (char)94;   // a pattern may hold ^
        return l + (nospace ? "" : " " + sp_(c)) + sym + (nospace ? "" : sp_(c)) + r; };
    switch (e->k) {
    case N::T: return anycase(c, "true");
    case N::F: return anycase(c, "false");
    case N::VIS: return op + blanks(c) + key("vis") + (e->visText.find_first_of("0123456789") == 0 ? e->visText : anycase(c, e->visText));
    case N::TYPE: return op + blanks(c) + key("type") + anycase(c, e->typeText);
    case N::TAG: return op + blanks(c) + key("tag") + value(e->text);
    case N::NAME: return op + blanks(c) + key("name") + value(e->text);
    case N::NOT: { const std::string a = print(c, e->a, 5); return c.flip() ? "!" + sp_(c) + a : "not " + sp_(c) + a; }
    case N::AND: return chain("&&", 3);
    case N::OR: return chain("||", 2);
    case N::XOR: return chain("^^", 1);
    }
    return "";
}
static Ex build(Case& c, const NP& e) {
    switch (e->k) {
    case N::T: return Ex(true);
    case N::F: return Ex(false);
    case N::VIS: { auto o = e->op == "!=" ? Ex::VISCOMP_NE : e->op == "<" ? Ex::VISCOMP_LT : e->op == "<=" ? Ex::VISCOMP_LE : e->op == ">" ? Ex::VISCOMP_GT : e->op == ">=" ? Ex::VISCOMP_GE : Ex::VISCOMP_EQ; return Ex((uint64_t)e->vis, o); }
    case N::TYPE: return Ex((IN::Type)e->type, e->op == "!=" ? Ex::TYPECOMP_NE : Ex::TYPECOMP_EQ);
    case N::TAG: return Ex(e->text, e->re ? Ex::TAGCOMP_REM : e->op == "!=" ? Ex::TAGCOMP_NE : Ex::TAGCOMP_EQ);
    case N::NAME: return Ex(e->text, e->re ? Ex::NAMECOMP_REM : e->op == "!=" ? Ex::NAMECOMP_NE : Ex::NAMECOMP_EQ);
    case N::NOT: { Ex a = build(c, e->a); return Ex(!a); }
    default: break;
    }
    Ex a = build(c, e->a), b = build(c, e->b); const bool assign = c.flip();
    if (e->k == N::AND) { if (assign) a &= b; else a && b; } else if (e->k == N::OR) { if (assign) a |= b; else a || b; } else { if (assign) a ^= b; else a != b; }
    if (c.flip()) { Ex d; d = a; return d; }
    return a;
}

struct Tree {
    sparta::Scheduler sched{"s"}; sparta::ClockManager cm{&sched}; sparta::Clock::Handle clk; sparta::RootTreeNode root{"top", "root"};
    std::vector<std::unique_ptr<sparta::TreeNode>> owned; std::vector<MNode> nodes; std::vector<size_t> leaves;   // leaves: statistics and counters
    Tree() { clk = cm.makeRoot(); cm.normalize(); root.setClock(clk.get()); }
    ~Tree() { try { root.enterTeardown(); } catch (...) {} }
};
static void genTree(Case& c, Tree& t) {
    std::vector<sparta::TreeNode*> places{&t.root}; std::map<sparta::TreeNode*, std::set<std::string>> used; std::map<sparta::TreeNode*, sparta::StatisticSet*> sets;
    t.nodes.push_back({&t.root, false, 0, 0, {}, "top"});
    auto tags = [&](sparta::TreeNode* n) { std::vector<std::string> r; const unsigned k = (unsigned)c.small(0, 3); std::set<std::string> u; for (unsigned i = 0; i < k; ++i) { std::string x = pick(c, TAGS); if (u.insert(x).second) { n->addTag(x); r.push_back(x); } } return r; };
    const unsigned n = (unsigned)c.small(2, 9);
    static const uint64_t vis[] = {0, 1, 999999, 1000000, 10000000, 99999999, 100000000, 100000001, 200000000, 1000000000, 4294967294ull};
    for (unsigned i = 0; i < n; ++i) {
        sparta::TreeNode* at = places[below(c, places.size())]; const std::string name = pick(c, NAMES);
        const unsigned kind = (unsigned)c.weighted({2, 2, 4, 3});
        if (kind == 0) { if (!used[at].insert(name).second) continue; t.owned.emplace_back(new sparta::TreeNode(at, name, "a node")); auto x = t.owned.back().get(); places.push_back(x); t.nodes.push_back({x, false, 0, 0, tags(x), name}); continue; }
        if (kind == 1) { if (!used[at].insert(name).second) continue; const auto v = vis[below(c, 11)]; const int ty = (int)below(c, 4); t.owned.emplace_back(new IN(at, name, sparta::TreeNode::GROUP_NAME_NONE, sparta::TreeNode::GROUP_IDX_NONE, "an instrument", (IN::Type)ty, (IN::visibility_t)v)); auto x = t.owned.back().get(); t.nodes.push_back({x, true, v, ty, tags(x), name}); continue; }
        auto& ss = sets[at]; if (!ss) { t.owned.emplace_back(new sparta::StatisticSet(at)); ss = static_cast<sparta::StatisticSet*>(t.owned.back().get()); t.nodes.push_back({ss, false, 0, 0, {}, "stats"}); }
        if (!used[ss].insert(name).second) continue;
        const auto v = vis[below(c, 11)];
        if (kind == 2) { auto& x = ss->createCounter<sparta::Counter>(name, sparta::TreeNode::GROUP_NAME_NONE, (sparta::TreeNode::group_idx_type)sparta::TreeNode::GROUP_IDX_NONE, "a counter", sparta::CounterBase::COUNT_NORMAL, (IN::visibility_t)v); t.leaves.push_back(t.nodes.size()); t.nodes.push_back({&x, true, v, IN::TYPE_COUNTER, tags(&x), name}); }
        else { auto& x = ss->createStatisticDef(name, sparta::TreeNode::GROUP_NAME_NONE, (sparta::TreeNode::group_idx_type)sparta::TreeNode::GROUP_IDX_NONE, "a statistic", &t.root, "1+1", sparta::StatisticDef::VS_ABSOLUTE, (IN::visibility_t)v); t.leaves.push_back(t.nodes.size()); t.nodes.push_back({&x, true, v, IN::TYPE_STATISTICDEF, tags(&x), name}); }
    }
}
static sparta::tree::filter::Parser& parser() { static sparta::tree::filter::Parser p; return p; }

PROPERTY_BATCH(filters, 5000, 60000, 100) {
    Tree t; genTree(c, t); unsigned mixed = 0;
    for (unsigned i = 0, n = (unsigned)c.small(1, 5); i < n; ++i) {
        NP e = genEx(c, (int)c.range(0, 4)); const std::string text = sp_(c) + print(c, e, 1) + sp_(c); LOG(c, text);
        Ex p;
        try { p = parser().parse(text); } catch (const sparta::SpartaException& x) { REQUIRE(false, "the well-formed expression '" << text << "' is refused"); }
        Ex again(p); Ex built = build(c, e); unsigned yes = 0;
        for (auto& m : t.nodes) {
            const bool want = eval(e, m); yes += want;
            REQUIRE_EQ(p.valid(m.n), want, "'" + text + "' for " + m.n->getLocation());
            REQUIRE_EQ(built.valid(m.n), want, "the expression built for '" + text + "' for " + m.n->getLocation());
            REQUIRE_EQ(again.valid(m.n), want, "a copy of '" + text + "' for " + m.n->getLocation());
        }
        mixed += yes && yes < t.nodes.size();
    }
    c.nontrivial(mixed > 0 && t.nodes.size() >= 4);
}

// expressions that are not well-formed are refused and leave the parser usable
PROPERTY_BATCH(malformed, 900, 20000, 50) {
    Tree t; genTree(c, t);
    NP e = genEx(c, 2), f = genEx(c, 1); const std::string a = print(c, e, 1), b = print(c, f, 5); std::string bad;
    switch (below(c, 14)) {
    case 0: bad = ""; break;
    case 1: bad = "(" + a; break;
    case 2: bad = "(" + a + " ) )"; break;
    case 3: bad = a + " &&"; break;
    case 4: bad = "|| " + a; break;
    case 5: bad = a + " ^^ || " + b; break;
    case 6: bad = b + " & " + b; break;
    case 7: { static const char* ops[] = {"<", ">", "<=", ">=", "regex "}; bad = std::string(pick(c, ops)) + "type:counter"; break; }
    case 8: { static const char* ops[] = {"<", ">", "<=", ">="}; bad = std::string(pick(c, ops)) + (c.flip() ? "tag:a" : "name:a"); break; }
    case 9: { static const char* all[] = {"vis:", "type:", "tag:", "name:", "vis", "group:a", "type:foo", "name:\"a", "tag:'a", "name a", "regex", "not", "!", "()", "vis:normal:", "truefalse"}; bad = pick(c, all); break; }
    case 10: bad = "regex vis:normal"; break;
    case 11: bad = b + " ) " + b; break;
    case 12: bad = a + " && not"; break;
    default: bad = b + " true"; if (f->k == N::VIS && (f->visText[0] >= '0' && f->visText[0] <= '9')) bad = b + " false )"; break;
    }
    LOG(c, "'" << bad << "'");
    bool threw = false; try { (void)parser().parse(bad); } catch (const sparta::SpartaException&) { threw = true; }
    REQUIRE(threw, "the malformed expression '" << bad << "' is accepted");
    Ex p = parser().parse(a); unsigned yes = 0;
    for (auto& m : t.nodes) { const bool want = eval(e, m); yes += want; REQUIRE_EQ(p.valid(m.n), want, "'" + a + "' for " + m.n->getLocation() + " after a refused expression"); }
    c.nontrivial(!bad.empty() && t.nodes.size() >= 3);
}

static void gather(const sparta::Report& r, std::multiset<std::string>& out) { for (auto& s : r.getStatistics()) out.insert(s.second->getLocation()); for (auto& s : r.getSubreports()) gather(s, out); }
PROPERTY_BATCH(autopopulate, 900, 12000, 50) {
    Tree t; genTree(c, t); t.root.enterConfiguring(); t.root.enterFinalized();
    NP e = genEx(c, (int)c.range(0, 3)); const std::string text = print(c, e, 1); LOG(c, text);
    const bool all = c.chance(1, 8); sparta::Report r("r", &t.root, &t.sched); r.autoPopulate(&t.root, all ? "" : text, {}, -1, -1);
    std::multiset<std::string> got, want; gather(r, got);
    for (auto i : t.leaves) if (all || eval(e, t.nodes[i])) want.insert(t.nodes[i].n->getLocation());
    std::string g; for (auto& x : got) g += " " + x;
    REQUIRE(got == want, "a report populated by '" << (all ? "" : text) << "' holds" << g << " which is " << got.size() << " instead of " << want.size() << " statistics");
    c.nontrivial(t.leaves.size() >= 2 && !want.empty() && want.size() < t.leaves.size());
}
