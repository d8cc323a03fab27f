// C29: configuration files: emitter/parser round trip; application of YAML structurings against a list of
// assignments; the whole configuration pipeline (-p, -c, --arch) against layering of the same assignments.
#include "pbt.hpp"
#include "sp.hpp"
#include "sparta/parsers/ConfigParserYAML.hpp"
#include "sparta/parsers/ConfigEmitterYAML.hpp"
#include "sparta/simulation/ParameterSet.hpp"
#include "sparta/simulation/Parameter.hpp"
#include "sparta/app/ConfigApplicators.hpp"
#include "sparta/app/SimulationConfiguration.hpp"
#include "sparta/app/Simulation.hpp"
#include <fstream>
using namespace pbt;
static uint64_t below(Case& c, uint64_t n) { return n > 1 ? c.draw(n - 1) : 0; }
static bool glob(const char* p, const char* s) {
    if (!*p) return !*s;
    if (*p == '*') { for (;; ++s) { if (glob(p + 1, s)) return true; if (!*s) return false; } }
    if (*p == '+') { for (; *s; ++s) if (glob(p + 1, s + 1)) return true; return false; }
    if (*p == '?') return glob(p + 1, s) || (*s && glob(p + 1, s + 1));
    return *p == *s && glob(p + 1, s + 1);
}
typedef std::vector<std::string> Path;
static std::string join(const Path& p) { std::string s; for (auto& x : p) s += (s.empty() ? "" : ".") + x; return s; }

// ---- values ----
enum Base { BOOL, U32, I32, U64, DBL, STR };
struct Kind { Base base; unsigned dim; };
static const Kind KINDS[] = {{BOOL, 0}, {U32, 0}, {I32, 0}, {U64, 0}, {DBL, 0}, {STR, 0}, {U64, 1}, {STR, 1}, {BOOL, 1}, {DBL, 1}, {STR, 2}, {U32, 2}, {I32, 1}, {U32, 3}};
static const unsigned NKINDS = 14;
struct Val { bool leaf = true; std::string text; std::vector<Val> items; };   // text: canonical
static std::string show(const Val& v) {
    if (v.leaf) { std::string s = "'"; for (char ch : v.text) { if (ch < ' ' || ch > 126) { char b[8]; snprintf(b, 8, "\\x%02x", (unsigned char)ch); s += b; } else s += ch; } return s + "'"; }
    std::string s = "["; for (auto& i : v.items) s += (s.size() > 1 ? ", " : "") + show(i); return s + "]";
}
static const char* AWKWARD[] = {"", " ", "a b", "true", "no", "~", "null", "Null", "#x", "a #b", "a: b", "a:b", ":", "- a", "-", "?", "? x", "[", "]", "[a]", "[a, b]", "a,b", ",", "{", "{a: b}", "}", "*", "*x", "&x", "!x", "!!str", "|", ">", "'", "''", "it's", "\"", "\"q\"", "\\", "\\n", "%x", "@x", "`", "//", "//x", "include", "0x1f", "1.5", "1e5", "12", "-3", " lead", "trail ", "\t", "a\tb", "a\nb", "\n", "a\n", "---", "...", "--- x", "=", "<<", "a]b", "a\\", "\"\"", "a\"b", "caf\xc3\xa9", "\xe2\x82\xac", "# ", "x#", "'a', 'b'", "yes", "nan", ".inf", "2001-01-01", "\x7f", "\x01", "\r", "a\r\nb", "a\n\nb  c", "  a\n b"};
static std::string genStr(Case& c) {
    switch (c.weighted({3, 3, 1})) {
    case 0: return c.str("abcXYZ019_.", 1, 8);
    case 1: return AWKWARD[below(c, sizeof AWKWARD / sizeof *AWKWARD)];
    default: return c.str("ab ,[]{}:#'\"\\-?&*!|>%@`~\n\t=/", 0, 8);
    }
}
static std::string genLeaf(Case& c, Base b) {
    switch (b) {
    case BOOL: return c.flip() ? "true" : "false";
    case U32: return std::to_string((uint32_t)c.bits(32));
    case I32: return std::to_string((int32_t)(uint32_t)c.bits(32));
    case U64: return std::to_string(c.bits(64));
    case DBL: { char t[64]; double d; switch (below(c, 4)) { case 0: d = (double)c.range(0, 2000) / 8 - 100; break; case 1: d = (double)c.range(1, 1000000) / 3; break; case 2: d = std::ldexp((double)c.range(1, 1 << 20), (int)c.range(0, 120) - 60); break; default: d = 0.1 * (double)c.range(0, 99); }
        snprintf(t, 64, "%.17g", d); return t; }
    default: return genStr(c);
    }
}
static Val genVal(Case& c, Kind k) {
    Val v;
    if (!k.dim) { v.text = genLeaf(c, k.base); return v; }
    v.leaf = false;
    unsigned n = c.small(0, 4);
    for (unsigned i = 0; i < n; ++i) v.items.push_back(genVal(c, {k.base, k.dim - 1}));
    return v;
}
static bool sameLeaf(Base b, const std::string& got, const std::string& want) {
    if (b == DBL) return strtod(got.c_str(), nullptr) == strtod(want.c_str(), nullptr);
    return got == want;
}
static bool same(const sparta::ParameterBase* p, Base b, const Val& v, std::vector<uint32_t>& idx) {
    if (v.leaf) return idx.size() == p->getDimensionality() && sameLeaf(b, p->peekItemValueFromString(idx), v.text);
    if (idx.size() >= p->getDimensionality() || p->peekVectorSizeAt(idx) != v.items.size()) return false;
    for (uint32_t i = 0; i < v.items.size(); ++i) { idx.push_back(i); bool ok = same(p, b, v.items[i], idx); idx.pop_back(); if (!ok) return false; }
    return true;
}

// ---- the tree ----
struct PSpec { std::string name; Kind kind; Val def; };
struct NSpec { std::string name; std::vector<PSpec> params; std::vector<NSpec> kids; };
struct PRef { Path path; Kind kind; Val def; Val value; sparta::ParameterBase* p = nullptr; };
static NSpec genNode(Case& c, const std::string& name, unsigned depth) {
    NSpec n; n.name = name;
    static const char* PN[] = {"pa", "pb", "pab", "size", "list"};
    if (c.chance(3, 4)) for (auto s : PN) if (c.chance(1, 2)) { Kind k = KINDS[below(c, NKINDS)]; Val d = genVal(c, k); n.params.push_back({s, k, d}); }
    static const char* KN[] = {"cpu", "cpux", "l2", "m", "mm"};
    if (depth) for (auto s : KN) if (c.chance(2, 5)) n.kids.push_back(genNode(c, s, depth - 1));
    return n;
}
template <class T> T conv(const std::string& s);
template <> bool conv(const std::string& s) { return s == "true"; }
template <> uint32_t conv(const std::string& s) { return (uint32_t)strtoull(s.c_str(), 0, 10); }
template <> int32_t conv(const std::string& s) { return (int32_t)strtoll(s.c_str(), 0, 10); }
template <> uint64_t conv(const std::string& s) { return strtoull(s.c_str(), 0, 10); }
template <> double conv(const std::string& s) { return strtod(s.c_str(), 0); }
template <> std::string conv(const std::string& s) { return s; }
template <class T> void fill(T& out, const Val& v) { out = conv<T>(v.text); }
template <class T> void fill(std::vector<T>& out, const Val& v) { out.clear(); for (auto& i : v.items) { T t{}; fill(t, i); out.push_back(t); } }
template <class T> std::unique_ptr<sparta::ParameterBase> mkp(sparta::ParameterSet* ps, const PSpec& s) {
    T v{}; fill(v, s.def);
    return std::make_unique<sparta::Parameter<T>>(s.name, v, "doc of " + s.name, ps);
}
template <class T> void assignTo(sparta::ParameterBase* p, const Val& v) { T t{}; fill(t, v); *dynamic_cast<sparta::Parameter<T>*>(p) = t; }
#define BYKIND(k, F) \
    switch (k.dim * 10 + k.base) { \
    case 0: F(bool) case 1: F(uint32_t) case 2: F(int32_t) case 3: F(uint64_t) case 4: F(double) case 5: F(std::string) \
    case 13: F(std::vector<uint64_t>) case 15: F(std::vector<std::string>) case 10: F(std::vector<bool>) case 14: F(std::vector<double>) case 12: F(std::vector<int32_t>) \
    case 25: F(std::vector<std::vector<std::string>>) case 21: F(std::vector<std::vector<uint32_t>>) case 31: F(std::vector<std::vector<std::vector<uint32_t>>>) }
static std::unique_ptr<sparta::ParameterBase> makeParam(sparta::ParameterSet* ps, const PSpec& s) {
#define F(T) return mkp<T>(ps, s);
    BYKIND(s.kind, F)
#undef F
    return nullptr;
}
static void assign(PRef& r, const Val& v) {
#define F(...) assignTo<__VA_ARGS__>(r.p, v); break;
    BYKIND(r.kind, F)
#undef F
    r.value = v;
}
struct Built {
    std::vector<std::unique_ptr<sparta::TreeNode>> nodes; std::vector<std::unique_ptr<sparta::ParameterSet>> sets; std::vector<std::unique_ptr<sparta::ParameterBase>> ps;
    std::vector<PRef> refs;
    void build(sparta::TreeNode* at, const NSpec& s, Path path) {
        if (!s.params.empty()) {
            sets.push_back(std::make_unique<sparta::ParameterSet>(at)); auto* set = sets.back().get();
            for (auto& p : s.params) { ps.push_back(makeParam(set, p)); PRef r; r.path = path; r.path.push_back("params"); r.path.push_back(p.name); r.kind = p.kind; r.def = r.value = p.def; r.p = ps.back().get(); refs.push_back(r); }
        }
        for (auto& k : s.kids) {
            nodes.push_back(std::make_unique<sparta::TreeNode>(at, k.name, sparta::TreeNode::GROUP_NAME_NONE, sparta::TreeNode::GROUP_IDX_NONE, "doc")); auto* n = nodes.back().get();
            Path q = path; q.push_back(k.name); build(n, k, q);
        }
    }
    ~Built() { while (!ps.empty()) ps.pop_back(); while (!sets.empty()) sets.pop_back(); while (!nodes.empty()) nodes.pop_back(); }
};
static void verify(const std::vector<PRef>& refs, const std::string& when) {
    for (auto& r : refs) {
        std::vector<uint32_t> idx;
        REQUIRE(same(r.p, r.kind.base, r.value, idx), when << ": parameter " << join(r.path) << " is " << r.p->getValueAsString() << " instead of " << show(r.value));
    }
}
static std::string slurp(const std::string& f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
static void spit(const std::string& f, const std::string& t) { std::ofstream o(f); o << t; }
static unsigned fileno_ = 0;
static std::string fresh(const char* ext) { return "cfg" + std::to_string(++fileno_) + ext; }
struct Files { std::vector<std::string> f; std::string add(const std::string& t) { f.push_back(fresh(".yaml")); spit(f.back(), t); return f.back(); } ~Files() { for (auto& x : f) ::unlink(x.c_str()); } };

// ---- YAML writer ----
static std::string dq(const std::string& s) {
    std::string o = "\"";
    for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if (ch == '\n') o += "\\n"; else if (ch == '\t') o += "\\t"; else if (ch < 32 || ch == 127) { char b[8]; snprintf(b, 8, "\\x%02x", ch); o += b; } else o += ch; }
    return o + "\"";
}
static bool plainOk(const std::string& s) {
    if (s.empty()) return false;
    for (char ch : s) if (!isalnum((unsigned char)ch) && ch != '_' && ch != '.') return false;
    return s != "null" && s != "Null" && s != "NULL" && isalpha((unsigned char)s[0]);
}
static bool sqOk(const std::string& s) { for (unsigned char ch : s) if (ch < 32 || ch == 127) return false; return true; }
static std::string writeLeaf(Case& c, Base b, const std::string& t) {
    if (b == STR) {
        if (plainOk(t) && c.flip()) return t;
        if (sqOk(t) && c.flip()) { std::string o = "'"; for (char ch : t) { o += ch; if (ch == '\'') o += ch; } return o + "'"; }
        return dq(t);
    }
    if ((b == U32 || b == U64) && c.chance(1, 4)) { char x[32]; snprintf(x, 32, "0x%llx", strtoull(t.c_str(), 0, 10)); return c.chance(1, 4) ? dq(x) : std::string(x); }
    return c.chance(1, 6) ? dq(t) : t;
}
static std::string flow(Case& c, Base b, const Val& v) {
    if (v.leaf) return writeLeaf(c, b, v.text);
    std::string s = "["; const bool sp = c.flip();
    for (auto& i : v.items) s += (s.size() > 1 ? (sp ? ", " : ",") : "") + flow(c, b, i);
    return s + "]";
}
// appends "value" after a key at the given indentation (block lines)
static void writeVal(Case& c, Base b, const Val& v, unsigned ind, std::string& out) {
    if (v.leaf || v.items.empty() || c.flip()) { out += " " + flow(c, b, v) + (c.chance(1, 6) ? "   # note\n" : "\n"); return; }
    out += "\n";
    for (auto& i : v.items) out += std::string(ind + 2, ' ') + "- " + flow(c, b, i) + "\n";
}
struct Asg { Path path; Kind kind; Val v; bool seqForNothing = false; };
static const char* NOISE[] = {"//x: 5", "//skip: {a: 1, b: {c: 2}}", "//list: [1, 2, [3]]", "//deep: {a: [1, {}]}", "# comment", "//off: {include: nothere.yaml}", "// spaced: 1", "//include: nothere.yaml"};
static void writeAll(Case& c, std::vector<Asg> as, unsigned ind, std::string& out, Files& files) {
    for (size_t i = 0; i < as.size();) {
        if (c.chance(1, 10)) { size_t k = below(c, 8); if (k == 3) k = 0; out += std::string(ind, ' ') + NOISE[k] + "\n"; }
        Asg& a = as[i];
        // take a run of assignments with the same first 1..n components
        size_t n = 1; unsigned take = 1;
        size_t run = 1;
        while (i + run < as.size() && as[i + run].path.size() > 1 && a.path.size() > 1 && as[i + run].path[0] == a.path[0] && !c.chance(1, 6)) ++run;
        if (a.path.size() == 1) {
            out += std::string(ind, ' ') + (c.chance(1, 5) || a.path[0][0] == '*' || a.path[0][0] == '?' ? dq(a.path[0]) : a.path[0]) + ":";
            writeVal(c, a.kind.base, a.v, ind, out); ++i; continue;
        }
        if (c.chance(1, 12)) { // an included file
            std::string inner; std::vector<Asg> sub(as.begin() + i, as.begin() + i + run); writeAll(c, sub, 0, inner, files);
            out += std::string(ind, ' ') + (c.flip() ? "include" : "\"#include\"") + ": " + files.add(inner) + "\n"; i += run; continue;
        }
        std::vector<Asg> sub(as.begin() + i, as.begin() + i + run);
        while (take < 3) { bool ok = c.chance(1, 3); for (auto& s : sub) ok &= s.path.size() > take + 1 && s.path[take] == a.path[take]; if (!ok) break; ++take; }
        bool leafAll = run == 1 && c.chance(1, 4);
        if (leafAll) take = a.path.size();
        std::string key = a.path[0]; for (n = 1; n < take; ++n) key += "." + a.path[n];
        out += std::string(ind, ' ') + (c.chance(1, 5) || key[0] == '*' || key[0] == '?' ? dq(key) : key) + ":";
        if (leafAll) { writeVal(c, a.kind.base, a.v, ind, out); ++i; continue; }
        for (auto& s : sub) s.path.erase(s.path.begin(), s.path.begin() + take);
        out += "\n"; writeAll(c, sub, ind + 2, out, files);
        i += run;
    }
}
static bool matches(const Path& pat, const Path& p) {
    if (pat.size() != p.size()) return false;
    for (size_t i = 0; i < p.size(); ++i) if (!glob(pat[i].c_str(), p[i].c_str())) return false;
    return true;
}
static std::string wild(Case& c, const std::string& s) {
    switch (below(c, 6)) { case 0: return "*"; case 1: return "+"; case 2: return s.substr(0, 1) + "*"; case 3: return "*" + s.substr(s.size() - 1); case 4: return s.substr(0, s.size() - 1) + "?"; default: return s + "*"; }
}
// an assignment whose pattern matches parameters of one kind only
static bool genAsg(Case& c, const std::vector<PRef>& refs, Asg& a) {
    const PRef& t = refs[below(c, refs.size())];
    a.path = t.path; a.kind = t.kind;
    const bool w = c.chance(1, 3);
    if (w) for (auto& s : a.path) if (c.chance(1, 3)) s = wild(c, s);
    for (auto& r : refs) if (matches(a.path, r.path) && (r.kind.base != t.kind.base || r.kind.dim != t.kind.dim)) { a.path = t.path; break; }
    a.v = genVal(c, a.kind);
    return true;
}
static void applyModel(std::vector<PRef>& refs, const Asg& a) { for (auto& r : refs) if (matches(a.path, r.path)) r.value = a.v; }
static NSpec genTree(Case& c) { for (int t = 0; t < 4; ++t) { NSpec s = genNode(c, "top", 2); Built b; sparta::RootTreeNode r; b.build(&r, s, {}); if (!b.refs.empty()) return s; } NSpec s; s.params.push_back({"pa", KINDS[3], Val()}); s.params[0].def.text = "7"; return s; }

// the value found in a virtual tree must be usable to set an identical parameter
static void checkPtree(const sparta::ParameterTree& pt, const std::vector<PRef>& model, const NSpec& spec, const std::vector<Asg>& log) {
    sparta::RootTreeNode root; Built b; b.build(&root, spec, {});
    sp::Teardown td{root};
    for (size_t i = 0; i < model.size(); ++i) {
        bool any = false; for (auto& a : log) any |= matches(a.path, model[i].path);
        auto* n = pt.tryGet(join(model[i].path));
        if (!any) { REQUIRE(!n || !n->hasValue(), "the virtual tree holds '" << n->peekValue() << "' for " << join(model[i].path) << " which is not in the file"); continue; }
        REQUIRE(n && n->hasValue(), "the virtual tree has no value for " << join(model[i].path));
        const std::string text = n->peekValue();
        try { sparta::app::ParameterApplicator pa("", text); pa.apply(b.refs[i].p); }
        catch (const std::exception& e) { REQUIRE(false, "the virtual tree's text '" << text << "' for " << join(model[i].path) << " = " << show(model[i].value) << " is refused: " << std::string(e.what()).substr(0, 300)); }
        b.refs[i].value = model[i].value;
    }
    verify(b.refs, "applied from the virtual tree");
}

PROPERTY_BATCH(roundtrip, 2500, 60000, 50) {
    const NSpec spec = genTree(c);
    sparta::RootTreeNode root; Built b; b.build(&root, spec, {});
    sparta::RootTreeNode root2; Built b2; b2.build(&root2, spec, {});
    sp::Teardown td{root}, td2{root2};
    unsigned changed = 0;
    for (auto& r : b.refs) if (c.chance(2, 3)) { assign(r, genVal(c, r.kind)); ++changed; LOG(c, join(r.path) << " = " << show(r.value)); }
    const std::string f = fresh(".yaml");
    { sparta::ConfigEmitter::YAML e(f, c.flip()); e.addParameters(&root, nullptr); }
    const std::string text = slurp(f);
    LOG(c, "file:\n" << text);
    verify(b.refs, "after writing the file");
    for (size_t i = 0; i < b.refs.size(); ++i) if (c.chance(1, 3)) assign(b2.refs[i], genVal(c, b2.refs[i].kind));
    {
        struct Rm { std::string f; ~Rm() { ::unlink(f.c_str()); } } rm{f};
        sparta::ConfigParser::YAML p(f, {});
        try { p.consumeParameters(&root2, false); }
        catch (const std::exception& e) { REQUIRE(false, "the emitted file is refused: " << std::string(e.what()).substr(0, 300)); }
        for (size_t i = 0; i < b.refs.size(); ++i) b2.refs[i].value = b.refs[i].value;
        verify(b2.refs, "read back");
        std::vector<Asg> all; for (auto& r : b.refs) all.push_back({r.path, r.kind, r.value});
        checkPtree(p.getParameterTree(), b.refs, spec, all);
        // a second trip gives the same file
        const std::string f2 = fresh(".yaml");
        { sparta::ConfigEmitter::YAML e(f2, false); e.addParameters(&root2, nullptr); }
        sparta::RootTreeNode root3; Built b3; b3.build(&root3, spec, {}); sp::Teardown td3{root3};
        Rm rm2{f2};
        sparta::ConfigParser::YAML q(f2, {}); q.consumeParameters(&root3, false);
        for (size_t i = 0; i < b.refs.size(); ++i) b3.refs[i].value = b.refs[i].value;
        verify(b3.refs, "read back twice");
    }
    c.nontrivial(b.refs.size() >= 2 && changed >= 1);
}

PROPERTY_BATCH(apply, 4000, 90000, 50) {
    const NSpec spec = genTree(c);
    sparta::RootTreeNode root; Built b; b.build(&root, spec, {});
    sp::Teardown td{root};
    Files files;
    std::vector<Asg> as; unsigned n = 1 + c.small(0, 7), wilds = 0;
    for (unsigned i = 0; i < n; ++i) { Asg a; genAsg(c, b.refs, a); if (!as.empty() && c.chance(1, 3)) { /* share a prefix with the previous one */ } as.push_back(a); wilds += join(a.path).find_first_of("*+?") != std::string::npos; }
    // an assignment to something that does not exist, or with a value of the wrong type
    const int bad = c.chance(1, 6) ? 1 + (int)below(c, 3) : 0;
    const bool allow = bad != 2 && c.chance(1, 4);
    if (bad == 1) { Asg a; genAsg(c, b.refs, a); a.path[below(c, a.path.size())] = "nosuch"; as.insert(as.begin() + below(c, as.size() + 1), a); }
    if (bad == 2) { Asg a; genAsg(c, b.refs, a); a.path.pop_back(); if (a.path.size() > 1) a.path.pop_back(); as.insert(as.begin() + below(c, as.size() + 1), a); }     // not a parameter
    int wrong = -1;
    if (bad == 3) { for (size_t i = 0; i < as.size(); ++i) if (as[i].kind.base == U32 && !as[i].kind.dim) wrong = (int)i; if (wrong >= 0) { as[wrong].v.text = "hello"; as[wrong].kind.base = STR; } }
    std::string text; writeAll(c, as, 0, text, files);
    const std::string f = files.add(text);
    for (auto& x : files.f) LOG(c, x << ":\n" << slurp(x));
    for (auto& a : as) LOG(c, "  " << join(a.path) << " <- " << show(a.v));
    sparta::ConfigParser::YAML p(f, {"."});
    p.allowMissingNodes(allow);
    const bool filtered = c.chance(1, 5);
    Path only = filtered ? b.refs[below(c, b.refs.size())].path : Path();
    bool anyFiltered = false;
    if (filtered) { const std::string loc = join(only); p.setParameterApplyFilter([loc](const sparta::TreeNode* t) { return t->getLocation() != "top." + loc; }); for (auto& a : as) anyFiltered |= matches(a.path, only); }
    bool threw = false; std::string what;
    try { p.consumeParameters(&root, false); } catch (const std::exception& e) { threw = true; what = e.what(); }
    const bool mustThrow = wrong >= 0 ? !(filtered && matches(as[wrong].path, only)) : (bad == 1 || bad == 2) && !allow;
    if (wrong >= 0 && filtered) return;
    if (mustThrow) { REQUIRE(threw, "the file was accepted although it " << (wrong >= 0 ? "assigns a value of the wrong type" : "names a parameter that does not exist")); c.nontrivial(true); return; }
    if (filtered && anyFiltered && !allow) { if (threw) return; }          // a filtered parameter may count as missing
    REQUIRE(!threw, "the file was refused: " << what.substr(0, 300));
    std::vector<PRef> filteredModel = b.refs;
    for (auto& a : as) { applyModel(b.refs, a); }
    std::vector<PRef> full = b.refs;
    if (filtered) for (auto& r : b.refs) if (r.path == only) r.value = r.def;
    verify(b.refs, "after reading the file");
    if (!filtered) checkPtree(p.getParameterTree(), full, spec, as);
    c.nontrivial(as.size() >= 3 && (wilds || files.f.size() > 1));
}

// the whole way: -p, -c and --arch through a simulation
struct Sim : sparta::app::Simulation {
    const NSpec& spec; Built b;
    bool late;          // parameter sets filled before they are attached to the tree
    Sim(sparta::Scheduler* s, const NSpec& sp_) : sparta::app::Simulation("sim", s), spec(sp_), late(false) {}
    ~Sim() { getRoot()->enterTeardown(); }
    void buildTree_() override { for (auto& k : spec.kids) { b.nodes.push_back(std::make_unique<sparta::TreeNode>(getRoot(), k.name, sparta::TreeNode::GROUP_NAME_NONE, sparta::TreeNode::GROUP_IDX_NONE, "doc")); b.build(b.nodes.back().get(), k, {"top", k.name}); } }
    void configureTree_() override {}
    void bindTree_() override {}
};
struct Quiet { std::streambuf* o; std::ostringstream s; Quiet() { o = std::cout.rdbuf(s.rdbuf()); } ~Quiet() { std::cout.rdbuf(o); } };
PROPERTY_BATCH(pipeline, 1500, 30000, 25) {
    NSpec spec = genNode(c, "top", 2); spec.params.clear();
    std::vector<PRef> model;
    { sparta::RootTreeNode r("top"); Built b; b.build(&r, spec, {"top"}); sp::Teardown td{r}; for (auto& x : b.refs) { model.push_back(x); model.back().p = nullptr; } }
    if (model.empty()) return;
    Files files;
    sparta::app::SimulationConfiguration cfg; cfg.addConfigSearchPath("."); cfg.addArchSearchPath(".");
    unsigned ops = 1 + c.small(0, 5), layers = 0;
    Quiet q;
    bool arch = false;
    std::vector<Asg> archLog, log;
    for (unsigned o = 0; o < ops; ++o) {
        switch (c.weighted({3, 3, 1})) {
        case 0: { Asg a; genAsg(c, model, a); std::string text = a.kind.dim ? flow(c, a.kind.base, a.v) : a.v.text; LOG(c, "-p " << join(a.path) << " " << text);
            if (!a.kind.dim && (a.v.text.empty())) break;
            cfg.processParameter(join(a.path), text); log.push_back(a); ++layers; break; }
        case 1: case 2: { std::vector<Asg> as; unsigned n = 1 + c.small(0, 4); for (unsigned i = 0; i < n; ++i) { Asg a; genAsg(c, model, a); as.push_back(a); }
            bool isArch = c.chance(1, 3) && !arch;
            std::string text; writeAll(c, as, 0, text, files); std::string f = files.add(text); for (auto& x : files.f) LOG(c, x << ":\n" << slurp(x));
            LOG(c, (isArch ? "--arch " : "-c ") << f);
            if (isArch) { arch = true; cfg.processArch("", f); for (auto& a : as) archLog.push_back(a); } else { cfg.processConfigFile("", f); for (auto& a : as) log.push_back(a); }
            ++layers; break; }
        }
    }
    sparta::Scheduler sched; Sim sim(&sched, spec);
    std::string what; bool threw = false;
    try { sim.configure(0, nullptr, &cfg); sim.buildTree(); sim.configureTree(); } catch (const std::exception& e) { threw = true; what = e.what(); }
    REQUIRE(!threw, "the configuration was refused: " << what.substr(0, 400));
    for (size_t i = 0; i < model.size(); ++i) {
        PRef& r = sim.b.refs[i]; r.value = r.def; Val def = r.def;
        for (auto& a : archLog) if (matches(a.path, r.path)) r.value = def = a.v;
        for (auto& a : log) if (matches(a.path, r.path)) r.value = a.v;
    }
    verify(sim.b.refs, "after building the tree");
    c.nontrivial(layers >= 2 && model.size() >= 2);
}

// a file, a value or a default applied to the nodes matching a pattern
PROPERTY_BATCH(applicators, 1500, 30000, 50) {
    const NSpec spec = genTree(c);
    sparta::RootTreeNode root; Built b; b.build(&root, spec, {});
    sp::Teardown td{root};
    Files files; unsigned ops = 1 + c.small(0, 5), hits = 0;
    std::vector<Val> defs; for (auto& r : b.refs) defs.push_back(r.def);
    for (unsigned o = 0; o < ops; ++o) {
        Asg a; genAsg(c, b.refs, a);
        switch (below(c, 3)) {
        case 0: {
            const size_t cut = below(c, a.path.size());
            std::vector<Asg> as; Asg in = a; in.path.erase(in.path.begin(), in.path.begin() + cut); as.push_back(in);
            std::string text; writeAll(c, as, 0, text, files); const std::string f = files.add(text);
            Path node(a.path.begin(), a.path.begin() + cut);
            LOG(c, "file at '" << join(node) << "':\n" << text);
            const bool must = c.chance(1, 2) && join(a.path).find_first_of("*+?") == std::string::npos;
            sparta::app::NodeConfigFileApplicator ap(join(node), f, {"."});
            ap.tryApply(&root, must ? sparta::app::ConfigApplicator::ApplySuccessCondition::ASC_MUST_ASSIGN : sparta::app::ConfigApplicator::ApplySuccessCondition::ASC_IGNORE);
            applyModel(b.refs, a); break; }
        case 1: {
            const std::string text = a.kind.dim ? flow(c, a.kind.base, a.v) : a.v.text;
            LOG(c, join(a.path) << " <- " << text);
            if (c.chance(1, 8)) { Path q = a.path; q.back() = "nosuch"; REQUIRE(sp::throws([&] { sparta::app::ParameterApplicator ap(join(q), text); ap.apply(&root); }), "a required value for the missing " << join(q) << " was accepted"); sparta::app::ParameterApplicator ap(join(q), text, sparta::app::ConfigApplicator::ApplySuccessCondition::ASC_IGNORE); ap.apply(&root); break; }
            sparta::app::ParameterApplicator ap(join(a.path), text); ap.apply(&root); applyModel(b.refs, a); break; }
        case 2: {
            const std::string text = a.kind.dim ? flow(c, a.kind.base, a.v) : a.v.text;
            LOG(c, "default of " << join(a.path) << " <- " << text);
            sparta::app::ParameterDefaultApplicator ap(join(a.path), text); ap.apply(&root);
            for (size_t i = 0; i < b.refs.size(); ++i) if (matches(a.path, b.refs[i].path)) {
                if (c.flip()) { b.refs[i].p->restoreValueFromDefault(); b.refs[i].value = a.v; }
                else { Val now = b.refs[i].value; b.refs[i].p->restoreValueFromDefault(); b.refs[i].value = a.v; verify({b.refs[i]}, "restored from the new default"); assign(b.refs[i], now); }
                defs[i] = a.v;
            }
            break; }
        }
        for (auto& r : b.refs) hits += matches(a.path, r.path);
        verify(b.refs, "after operation " + std::to_string(o));
    }
    for (size_t i = 0; i < b.refs.size(); ++i) { b.refs[i].p->restoreValueFromDefault(); b.refs[i].value = defs[i]; }
    verify(b.refs, "all restored to their defaults");
    c.nontrivial(ops >= 2 && hits >= 3);
}
