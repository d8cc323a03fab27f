// C32: device trees against a plain model of parents, names, aliases, groups and tags.
#include "pbt.hpp"
#include "sp.hpp"
#include <map>
#include <set>
using namespace pbt;
using sparta::TreeNode; using sparta::RootTreeNode;
typedef std::vector<std::string> Strs;
static uint64_t below(Case& c, uint64_t n) { return n > 1 ? c.draw(n - 1) : 0; }
static std::string join(const Strs& p) { std::string s; for (size_t i = 0; i < p.size(); ++i) s += (i ? "." : "") + p[i]; return s; }

static const char* NAMES[] = {"a", "b", "ab", "abc", "bc", "x_y", "aXb", "A", "aa"};
static const char* GROUPS[] = {"g", "ga", "h_h"};
static const char* TAGS[] = {"t", "u", "tu"};

struct M {
    std::unique_ptr<TreeNode> own; TreeNode* n = nullptr; M* parent = nullptr; std::vector<M*> kids;
    std::string name, group; unsigned idx = 0; Strs aliases, tags;
    bool grouped() const { return !group.empty(); }
    Strs idents() const { Strs r; if (!name.empty()) r.push_back(name); for (auto& a : aliases) r.push_back(a); return r; }
    Strs keys() const { Strs r = idents(); if (grouped()) r.push_back(group + std::to_string(idx)); return r; }
    bool attached() const { const M* m = this; while (m->parent) m = m->parent; return dynamic_cast<RootTreeNode*>(m->n) != nullptr; }
    unsigned level() const { unsigned l = 0; for (const M* m = this; m->parent; m = m->parent) ++l; return l; }
    M* root() { M* m = this; while (m->parent) m = m->parent; return m; }
    bool under(const M* a, int depth) const { for (const M* m = this; m; m = m->parent, --depth) { if (m == a) return true; if (depth == 0) return false; } return false; }
    std::string path() const { return parent ? parent->path() + "." + name : name; }
};
// the identifiers a new child would bring that are already taken
static bool clash(const M* at, const Strs& ids) { for (auto k : at->kids) for (auto& s : k->keys()) for (auto& i : ids) if (s == i) return true; return false; }

// matches a pattern with * ? + against a name, wildcards taking as much as possible from the left
static bool glob(const char* p, const char* s, Strs& cap) {
    if (!*p) return !*s;
    if (*p == '*' || *p == '+' || *p == '?') {
        const size_t len = strlen(s), lo = *p == '+' ? 1 : 0, hi = *p == '?' ? std::min<size_t>(1, len) : len;
        for (size_t k = hi + 1; k-- > lo;) { Strs sub; if (glob(p + 1, s + k, sub)) { cap.push_back(std::string(s, k)); cap.insert(cap.end(), sub.begin(), sub.end()); return true; } }
        return false;
    }
    return *p == *s && glob(p + 1, s + 1, cap);
}
typedef std::vector<std::pair<M*, std::set<Strs>>> Found;    // node and the possible captures
static void search(M* at, const Strs& pat, size_t i, Found& out, const std::set<Strs>& sofar, bool names_only) {
    if (i == pat.size()) { out.push_back({at, sofar}); return; }
    if (pat[i].empty()) { if (at->parent) search(at->parent, pat, i + 1, out, sofar, names_only); return; }
    for (auto k : at->kids) {
        std::set<Strs> caps; for (auto& id : names_only ? k->idents() : k->keys()) { Strs cp; if (glob(pat[i].c_str(), id.c_str(), cp)) caps.insert(cp); }
        if (caps.empty()) continue;
        std::set<Strs> both; for (auto& a : sofar) for (auto& b : caps) { Strs x = a; x.insert(x.end(), b.begin(), b.end()); both.insert(x); }
        search(k, pat, i + 1, out, both, names_only);
    }
}
static M* walk(M* at, const Strs& p) { for (auto& s : p) { if (!at) return nullptr; if (s.empty()) { at = at->parent; continue; } M* f = nullptr; for (auto k : at->kids) for (auto& id : k->keys()) if (id == s) f = k; at = f; } return at; }

PROPERTY_BATCH(trees, 16000, 200000, 100) {
    sparta::Scheduler sched("s"); RootTreeNode root("top", "top");
    std::vector<std::unique_ptr<M>> ms; unsigned phase = 0, refused = 0, finds = 0, rich = 0;
    struct Down { RootTreeNode& r; std::vector<std::unique_ptr<M>>& m; ~Down() { try { r.enterTeardown(); } catch (...) {} while (!m.empty()) m.pop_back(); } } down{root, ms};
    auto add = [&](std::unique_ptr<M> m) { ms.push_back(std::move(m)); return ms.back().get(); };
    { auto m = std::make_unique<M>(); m->n = &root; m->name = "top"; add(std::move(m)); }
    M* top = ms[0].get();
    for (auto k : root.getChildren()) { auto m = std::make_unique<M>(); m->n = k; m->name = k->getName(); m->group = k->getGroup(); m->idx = k->getGroupIdx(); m->parent = top; m->tags = {}; for (auto& t : k->getTags()) m->tags.push_back(*t); top->kids.push_back(m.get()); add(std::move(m)); }
    auto any = [&]() { return ms[below(c, ms.size())].get(); };
    auto genPath = [&](M* from, int wild) {                     // mostly follows real children
        Strs p; M* at = from; const unsigned len = (unsigned)c.small(1, 4);
        for (unsigned i = 0; i < len; ++i) {
            if (c.chance(1, 10) && i + 1 < len) { p.push_back(""); at = at ? at->parent : nullptr; continue; }
            std::string s;
            if (at && !at->kids.empty() && !c.chance(1, 8)) { M* k = at->kids[below(c, at->kids.size())]; auto ks = k->keys(); s = ks[below(c, ks.size())]; at = k; }
            else { s = c.chance(1, 4) ? "g" + std::to_string(below(c, 3)) : NAMES[below(c, 9)]; M* f = nullptr; if (at) for (auto k : at->kids) for (auto& id : k->keys()) if (id == s) f = k; at = f; }
            if (wild && c.chance((unsigned)wild, 10)) {
                for (unsigned r = (unsigned)c.small(1, 3); r-- > 0;) { const char w = "*?+"[below(c, 3)]; const size_t pos = below(c, s.size() + 1); const size_t cut = below(c, s.size() - pos + 1); s = s.substr(0, pos) + w + s.substr(pos + cut); }
                if (c.chance(1, 4)) s = "*";
            }
            p.push_back(s);
        }
        return p;
    };
    auto checkSearch = [&](M* from) {
        Strs p = genPath(from, 6); const std::string text = join(p); ++finds;
        if (text.empty()) return;
        std::vector<TreeNode*> got; std::vector<Strs> reps; const bool caps = c.flip(); uint32_t n = 0;
        if (caps) n = from->n->findChildren(text, got, reps); else n = from->n->findChildren(text, got);
        Found want; search(from, p, 0, want, {Strs()}, false); rich += want.size() > 1;
        REQUIRE_EQ((size_t)n, got.size(), "number of matches reported by searching " + text + " from " + from->path());
        std::multiset<TreeNode*> a(got.begin(), got.end()), b; for (auto& w : want) b.insert(w.first->n);
        REQUIRE(a == b, "searching '" << text << "' from " << from->path() << " finds " << a.size() << " nodes instead of " << b.size());
        if (caps) { REQUIRE_EQ(reps.size(), got.size(), "captures of " + text); for (size_t i = 0; i < got.size(); ++i) { bool ok = false; for (auto& w : want) ok |= w.first->n == got[i] && w.second.count(reps[i]); REQUIRE(ok, "searching '" << text << "' from " << from->path() << " reports the matched parts (" << join(reps[i]) << ") for " << got[i]->getName()); } }
        // the reverse question
        bool up = false; for (auto& s : p) up |= s.empty();
        if (!up && from->attached()) { Found byName; search(from, p, 0, byName, {Strs()}, true); M* x = want.empty() || c.flip() ? any() : want[below(c, want.size())].first; bool in = false; for (auto& w : byName) in |= w.first == x; REQUIRE_EQ(x->n->locationMatchesPattern(text, from->n), in, x->path() + " matches " + text + " from " + from->path()); }
    };
    auto checkNode = [&](M* m) {
        TreeNode* n = m->n; const std::string at = m->path();
        if (m->attached()) REQUIRE_EQ(n->getLocation(), at, "location");
        REQUIRE_EQ(std::string(n->getName()), m->name, "name of " + at);
        REQUIRE(n->getParent() == (m->parent ? m->parent->n : nullptr), "the parent of " << at);
        REQUIRE(n->getRoot() == m->root()->n, "the root of " << at); REQUIRE_EQ((unsigned)n->getLevel(), m->level(), "level of " + at);
        std::vector<TreeNode*> kids; for (auto k : m->kids) kids.push_back(k->n);
        const auto got = n->getChildren(); REQUIRE(std::vector<TreeNode*>(got.begin(), got.end()) == kids, at << " has " << got.size() << " children instead of " << kids.size());
        REQUIRE_EQ((size_t)n->getNumChildren(), kids.size(), "children of " + at); for (size_t i = 0; i < kids.size(); ++i) REQUIRE(n->getChildAt((uint32_t)i) == kids[i] && n->hasImmediateChild(kids[i]), "child " << i << " of " << at);
        for (auto k : m->kids) for (auto& id : k->keys()) { REQUIRE(n->getChild(id, false) == k->n && n->hasChild(id), at << " does not find its child " << k->name << " by " << id); const TreeNode* cn = n; REQUIRE(cn->getChild(id) == k->n, "the constant lookup of " << id << " in " << at); }
        std::multiset<std::string> ids, wids; { Strs v; REQUIRE_EQ((size_t)n->getChildrenIdentifiers(v), v.size(), "number of identifiers"); ids.insert(v.begin(), v.end()); } for (auto k : m->kids) for (auto& id : k->keys()) wids.insert(id);
        REQUIRE(ids == wids, at << " knows " << ids.size() << " identifiers of children instead of " << wids.size());
        for (auto g : GROUPS) { unsigned cnt = 0; TreeNode::group_idx_type mx = TreeNode::GROUP_IDX_NONE; std::vector<TreeNode*> in, gi; for (auto k : m->kids) if (k->group == g) { ++cnt; in.push_back(k->n); mx = mx == TreeNode::GROUP_IDX_NONE ? k->idx : std::max<TreeNode::group_idx_type>(mx, k->idx); }
            REQUIRE_EQ((unsigned)n->getGroupSize(g), cnt, std::string("size of group ") + g + " in " + at); REQUIRE(n->getGroupIndexMax(g) == mx, "the largest index of group " << g << " in " << at); REQUIRE_EQ((unsigned)n->getGroup(g, gi), cnt, "group"); REQUIRE(gi == in, "the members of group " << g << " in " << at); }
        std::vector<const std::string*> idp = n->getIdentifiers(); Strs idn; for (auto s : idp) idn.push_back(*s); REQUIRE(idn == m->idents(), "the identifiers of " << at);
        for (auto t : TAGS) { const bool has = std::count(m->tags.begin(), m->tags.end(), t) != 0; REQUIRE_EQ(n->hasTag(t), has, std::string("tag ") + t + " of " + at); }
    };
    auto checkAll = [&]() {
        for (auto& m : ms) checkNode(m.get());
        for (auto& m : ms) if (m->attached() && m.get() != top && !m->name.empty()) { bool named = true; for (M* x = m.get(); x; x = x->parent) named &= !x->name.empty(); if (named) { const std::string rel = m->path().substr(4); REQUIRE(root.getChild(rel, false) == m->n && root.hasChild(rel), m->path() << " is not found from the root"); } }
        for (unsigned i = 0, k = (unsigned)c.small(1, 4); i < k; ++i) {
            M* from = any(); Strs p = genPath(from, 0); const std::string text = join(p); if (text.empty()) continue; M* w = walk(from, p);
            TreeNode* g = from->n->getChild(text, false); REQUIRE(g == (w ? w->n : nullptr), "looking up '" << text << "' from " << from->path() << " gives " << (g ? g->getLocation() : "nothing") << " instead of " << (w ? w->path() : "nothing")); REQUIRE_EQ(from->n->hasChild(text), (w != nullptr), "existence of " + text);
            if (!w && c.chance(1, 6)) REQUIRE(sp::throws([&] { from->n->getChild(text); }), "'" << text << "' from " << from->path() << " does not exist but no error is raised");
            M* x = any(), * y = any(); const int d = (int)c.range(0, 4) - 1; REQUIRE_EQ(x->n->isDescendantOf(y->n, d), x->under(y, d), x->path() + " is a descendant of " + y->path() + " within " + std::to_string(d));
        }
        for (unsigned i = 0, k = (unsigned)c.small(1, 5); i < k; ++i) checkSearch(c.chance(1, 3) ? any() : top);
        { M* from = any(); const std::string t = TAGS[below(c, 3)]; const int d = (int)c.range(0, 4) - 1; std::vector<TreeNode*> got; const uint32_t n = from->n->findChildrenByTag(t, got, d); std::multiset<TreeNode*> a(got.begin(), got.end()), b; for (auto& m : ms) if (std::count(m->tags.begin(), m->tags.end(), t) && m->under(from, d)) b.insert(m->n);
          REQUIRE(a == b && n == b.size(), "searching tag " << t << " from " << from->path() << " finds " << a.size() << " nodes instead of " << b.size()); }
    };
    auto refuse = [&](const std::string& what, const std::function<void()>& f) { ++refused; LOG(c, "refused: " << what); REQUIRE(sp::throws(f), what << " was accepted"); };
    const unsigned steps = (unsigned)c.small(3, 26);
    for (unsigned st = 0; st < steps; ++st) switch (c.weighted({12, 3, 2, 2, 2, 2})) {
    case 0: case 1: {                                              // a new node, attached at once or later
        auto m = std::make_unique<M>(); const unsigned kind = (unsigned)c.weighted({4, 3, 1});
        m->name = kind == 2 ? "" : NAMES[below(c, 9)]; if (kind) { m->group = GROUPS[below(c, 3)]; m->idx = (unsigned)below(c, 4); if (kind == 1 && c.chance(1, 3)) m->name = m->group + std::to_string(m->idx); }
        M* at = any(); const bool now = c.chance(7, 10) && !clash(at, m->keys());
        if (kind == 0) m->own.reset(now ? new TreeNode(at->n, m->name, "d") : new TreeNode(m->name, "d"));
        else m->own.reset(new TreeNode(now ? at->n : nullptr, m->name, m->group, m->idx, "d"));
        m->n = m->own.get(); LOG(c, "node " << m->name << " group " << m->group << m->idx << (now ? " at " + at->path() : " detached"));
        if (now) { m->parent = at; at->kids.push_back(m.get()); }
        else for (unsigned k = (unsigned)c.small(0, 2); k-- > 0;) { std::string a = NAMES[below(c, 9)]; if (a == m->name || std::count(m->aliases.begin(), m->aliases.end(), a)) continue; m->n->addAlias(a); m->aliases.push_back(a); LOG(c, "  alias " << a); }
        add(std::move(m)); break; }
    case 2: { M* m = any(), * at = any(); if (m->parent || m == top || at->under(m, -1) || clash(at, m->keys())) break; LOG(c, "attach " << m->path() << " to " << at->path()); if (c.flip()) at->n->addChild(m->n); else at->n->addChild(*m->n); m->parent = at; at->kids.push_back(m); break; }
    case 3: { M* m = any(); const std::string t = TAGS[below(c, 3)]; if (std::count(m->tags.begin(), m->tags.end(), t)) break; m->n->addTag(t); m->tags.push_back(t); LOG(c, "tag " << t << " " << m->path()); break; }
    case 4: {                                                      // a leaf of a tree that is not attached to the root yet goes away
        M* m = any(); if (!m->own || !m->kids.empty() || m->attached()) break; LOG(c, "destroy " << m->path());
        if (m->parent) { auto& k = m->parent->kids; k.erase(std::find(k.begin(), k.end(), m)); }
        for (size_t i = 0; i < ms.size(); ++i) if (ms[i].get() == m) { ms.erase(ms.begin() + (long)i); break; } break; }
    default: {
        if (refused > 2) break;
        M* at = any();
        switch (below(c, 12)) {
        case 0: if (!at->kids.empty()) { auto k = at->kids[below(c, at->kids.size())]; auto ks = k->keys(); if (ks[0].empty()) break; const std::string d = ks[below(c, ks.size())]; refuse("a second child " + d + " of " + at->path(), [&] { TreeNode x(at->n, d, "d"); }); } break;
        case 1: { static const char* bad[] = {"1a", "a-b", "a.b", "a b", "", "__a", "a*", "[0]"}; const std::string b = bad[below(c, 8)]; refuse("a node named '" + b + "'", [&] { TreeNode x(at->n, b, "d"); }); break; }
        case 2: { static const char* bad[] = {"g1", "1g", "a-b", "a__b", "g."}; const std::string b = bad[below(c, 5)]; refuse("a group named '" + b + "'", [&] { TreeNode x(at->n, "zz", b, 0, "d"); }); break; }
        case 3: refuse("a group index without group", [&] { TreeNode x(at->n, "zz", "", 3, "d"); }); break;
        case 4: refuse("a group without index", [&] { TreeNode x(at->n, "zz", "g", TreeNode::GROUP_IDX_NONE, "d"); }); break;
        case 5: refuse("an empty description", [&] { TreeNode x(at->n, "zz", ""); }); break;
        case 6: refuse("a node as its own child", [&] { at->n->addChild(at->n); }); break;
        case 7: if (at->parent) refuse("a cycle", [&] { at->n->addChild(at->root()->n); }); break;
        case 8: { M* m = any(); if (m->parent && m->parent != at && m != at && !at->under(m, -1) && !clash(at, m->keys())) refuse("a second parent " + at->path() + " of " + m->path(), [&] { at->n->addChild(m->n); }); break; }
        case 9: if (at->parent) refuse("an alias of a node with a parent", [&] { at->n->addAlias("zz"); }); break;
        case 10: if (!at->tags.empty()) refuse("the same tag again", [&] { at->n->addTag(at->tags[0]); }); break;
        case 11: { for (auto k : at->kids) if (k->grouped()) { refuse("a second member with index " + std::to_string(k->idx) + " of group " + k->group, [&] { TreeNode x(at->n, "zz", k->group, k->idx, "d"); }); break; } break; }
        }
        if (c.flip()) checkAll(); break; }
    }
    checkAll();
    const bool conf = c.flip(); if (conf) { root.enterConfiguring(); phase = 1; checkAll(); }
    if (conf && c.flip()) { root.enterFinalized(); phase = 2; LOG(c, "finalized");
        M* at = any(); for (int i = 0; i < 20 && !at->attached(); ++i) at = any(); if (!at->attached()) at = top;
        switch (below(c, 3)) { case 0: refuse("a node added to the finalized " + at->path(), [&] { TreeNode x(at->n, "zz", "d"); }); break; case 1: refuse("a tag for the finalized " + at->path(), [&] { at->n->addTag("zz"); }); break; default: if (at->parent) refuse("an alias for the finalized " + at->path(), [&] { at->n->addAlias("zz"); }); }
        checkAll(); }
    (void)phase; unsigned attached = 0; for (auto& m : ms) attached += m->attached();
    c.nontrivial(attached >= 5 && finds >= 2 && rich >= 1);
}

// glob-like patterns against names, and the pieces of paths
PROPERTY_BATCH(globs, 20000, 200000, 1000) {
    std::string s, p; for (unsigned n = (unsigned)c.small(0, 8); n-- > 0;) s += "abB_1"[below(c, 5)];
    if (c.flip()) { p = s; for (unsigned n = (unsigned)c.small(1, 3); n-- > 0;) { const size_t pos = below(c, p.size() + 1), cut = below(c, std::min<size_t>(4, p.size() - pos) + 1); p = p.substr(0, pos) + "*?+"[below(c, 3)] + p.substr(pos + cut); } }
    else for (unsigned n = (unsigned)c.small(0, 7); n-- > 0;) p += "abB_1*?+"[below(c, 8)];
    LOG(c, "'" << p << "' '" << s << "'"); Strs cap; const bool want = glob(p.c_str(), s.c_str(), cap);
    REQUIRE_EQ(TreeNode::matchesGlobLike(p, s), want, "'" + p + "' matches '" + s + "'");
    REQUIRE_EQ(TreeNode::hasWildcardCharacters(p), (p.find_first_of("*?+") != std::string::npos), "wildcards in '" + p + "'");
    Strs parts; for (unsigned n = (unsigned)c.small(1, 4); n-- > 0;) parts.push_back(c.chance(1, 5) ? "" : std::string(1, "abc"[below(c, 3)]) + (c.flip() ? "*" : "x")); const std::string path = join(parts);
    if (!path.empty() && path.back() != '.') { size_t pos = 0; for (size_t i = 0; i < parts.size(); ++i) { REQUIRE_EQ(TreeNode::getNextName(path, pos), parts[i], "element " + std::to_string(i) + " of " + path); REQUIRE_EQ((pos == std::string::npos), (i + 1 == parts.size()), "end of " + path); } }
    c.nontrivial(p.find_first_of("*?+") != std::string::npos && s.size() >= 2);
}
