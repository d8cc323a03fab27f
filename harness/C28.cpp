// C28: the parameter tree against the log of assignments: the last assignment whose pattern matches wins.
#include "pbt.hpp"
#include "sp.hpp"
#include "sparta/simulation/ParameterTree.hpp"
#include <functional>
#include <set>
using namespace pbt;
using sparta::ParameterTree;
typedef std::vector<std::string> Path;
static uint64_t below(Case& c, uint64_t n) { return n > 1 ? c.draw(n - 1) : 0; }

// own matcher of one name against a pattern with * (any), + (at least one) and ? (at most one character)
static bool glob(const char* p, const char* s) {
    if (!*p) return !*s;
    if (*p == '*') { for (;; ++s) { if (glob(p + 1, s)) return true; if (!*s) return false; } }
    if (*p == '+') { for (; *s; ++s) if (glob(p + 1, s + 1)) return true; return false; }
    if (*p == '?') return glob(p + 1, s) || (*s && glob(p + 1, s + 1));
    return *p == *s && glob(p + 1, s + 1);
}
static std::string join(const Path& p) { std::string s; for (auto& x : p) s += (s.empty() ? "" : ".") + x; return s; }
struct Entry { Path path; std::string value, origin; bool required; uint64_t at; };
struct Model {
    std::vector<Entry> log;
    std::vector<std::pair<Path, uint64_t>> lookups;          // looked up names and when
    bool matches(const Entry& e, const Path& p) const {
        if (e.path.size() != p.size()) return false;
        for (size_t i = 0; i < p.size(); ++i) if (!glob(e.path[i].c_str(), p[i].c_str())) return false;
        return true;
    }
    const Entry* find(const Path& p) const {
        for (auto it = log.rbegin(); it != log.rend(); ++it) if (matches(*it, p)) return &*it;
        return nullptr;
    }
};
static uint64_t clockNow;

static const char* EXACT[] = {"a", "ab", "abc", "b", "bc"};
static const char* WILD[] = {"*", "a*", "+", "a+", "?", "a?", "*c", "?b*", "b+", "a*c"};
static Path genPattern(Case& c, unsigned depth, unsigned wildness) {
    Path p;
    for (unsigned i = 0; i < depth; ++i) p.push_back(c.chance(wildness, 10) ? WILD[below(c, 10)] : EXACT[below(c, 5)]);
    return p;
}
static Path genPath(Case& c, unsigned depth) { return genPattern(c, depth, 0); }

static void checkLookup(Case&, ParameterTree& t, Model& m, const Path& p, int how) {
    const Entry* e = m.find(p);
    const std::string path = join(p);
    m.lookups.push_back({p, ++clockNow});
    if (how == 0) {
        const bool has = t.hasValue(path);
        REQUIRE_EQ(has, (e != nullptr), "a value for " + path);
        return;
    }
    const ParameterTree& ct = t;
    const ParameterTree::Node* n = how == 1 ? t.tryGet(path) : ct.tryGet(path);
    if (!e) { REQUIRE(!n || !n->hasValue(), path << " resolves to '" << (n ? n->peekValue() : "") << "' but no assignment matches it"); return; }
    REQUIRE(n && n->hasValue(), path << " has no value instead of '" << e->value << "' assigned to " << join(e->path));
    REQUIRE_EQ(std::string(n->peekValue()), e->value, "value of " + path);
    REQUIRE_EQ(std::string(n->getOrigin()), e->origin, "origin of " + path);
    REQUIRE_EQ(n->getPath(), join(e->path), "the assignment " + path + " resolves to");
    if (how == 3) { const std::string v = ct.get(path).getAs<std::string>(); REQUIRE_EQ(v, e->value, "value of " + path); }
    REQUIRE(t.isRead(path), path << " was read but is reported unread");
}
// which entries are certainly unread or certainly read
static void checkUnread(ParameterTree& t, const Model& m) {
    std::vector<const ParameterTree::Node*> nodes;
    const ParameterTree& ct = t;
    const uint32_t n = ct.getUnreadValueNodes(&nodes);
    REQUIRE_EQ(uint32_t(nodes.size()), n, std::string("number of unread entries"));
    std::set<std::string> unread;
    for (auto* x : nodes) { REQUIRE(x->hasValue(), "an entry without a value is listed as unread"); unread.insert(x->getPath()); }
    std::set<std::string> assigned;
    for (auto& e : m.log) {
        assigned.insert(join(e.path));
        bool ever = false; uint64_t lastset = 0; bool after = false;
        for (auto& f : m.log) if (f.path == e.path) lastset = std::max(lastset, f.at);
        for (auto& l : m.lookups) if (m.matches(e, l.first)) { ever = true; if (l.second > lastset) after = true; }
        if (!ever) { REQUIRE(unread.count(join(e.path)), join(e.path) << " was never read but is not listed as unread"); }
        if (after) { REQUIRE(!unread.count(join(e.path)), join(e.path) << " was read but is listed as unread"); }
    }
    for (auto& u : unread) REQUIRE(assigned.count(u), u << " is listed as unread but was never assigned");
    std::vector<ParameterTree::Node*> mut;
    REQUIRE_EQ(t.getUnreadValueNodes(&mut), n, std::string("number of unread entries"));
}
static void checkRequired(ParameterTree& t, const Model& m, const Path& p, const std::map<std::string, uint64_t>& unreq) {
    const Entry* e = m.find(p);
    const std::string path = join(p);
    if (!e) return;
    auto u = unreq.find(path);
    bool any = false; uint64_t last = 0;
    for (auto& f : m.log) if (m.matches(f, p)) { any = any || f.required; last = std::max(last, f.at); }
    uint64_t lastun = 0;
    for (auto& x : unreq) lastun = std::max(lastun, x.second);
    const bool got = t.isRequired(path);
    if (e->required && e->at > lastun) { REQUIRE(got, path << " is assigned as required by " << join(e->path) << " but is not required"); }
    if (!any) { REQUIRE(!got, path << " is required though no assignment to it is"); }
    if (u != unreq.end() && u->second > last) { REQUIRE(!got, path << " is still required after unrequire"); }
}

PROPERTY(tree, 22000, 400000) {
    clockNow = 0;
    const unsigned depth = 1 + unsigned(c.weighted({1, 3, 4, 2}));
    const unsigned wild = unsigned(below(c, 7));
    struct T { std::unique_ptr<ParameterTree> t; Model m; std::map<std::string, uint64_t> unreq; };
    std::vector<T> ts(1 + below(c, 3));
    for (auto& t : ts) t.t.reset(new ParameterTree);
    LOG(c, ts.size() << " trees of depth " << depth);
    int sets = 0, wilds = 0, merges = 0, hits = 0;
    const int ops = 6 + int(below(c, 24));
    std::vector<Path> used;
    auto path = [&]() -> Path { return (used.empty() || c.chance(1, 4)) ? genPath(c, depth) : used[below(c, used.size())]; };
    for (int i = 0; i < ops; ++i) {
        const size_t k = below(c, ts.size());
        T& t = ts[k];
        switch (c.weighted({10, 6, 2, 1, 2, 1, 1, 1, 1})) {
            case 0: {
                Path p = (c.chance(1, 4) && !t.m.log.empty()) ? t.m.log[below(c, t.m.log.size())].path : genPattern(c, depth, wild);
                const std::string v = "v" + std::to_string(i), o = c.flip() ? "o" + std::to_string(i) : ""; const bool req = c.flip();
                LOG(c, "tree " << k << ": " << join(p) << " = " << v << (req ? " required" : ""));
                bool isw = false; for (auto& x : p) isw = isw || x.find_first_of("*+?") != std::string::npos;
                switch (below(c, 3)) {
                    case 0: case 1: { const bool ok = t.t->set(join(p), v, req, o); REQUIRE(ok, "assignment refused"); break; }
                    default: {
                        if (depth > 1 && !t.m.log.empty()) {
                            // through a node obtained for the first names
                            Path q(p.begin(), p.end() - 1);
                            auto* n = t.t->create(join(q));
                            REQUIRE(n && n->getPath() == join(q), "creating " << join(q));
                            const bool ok = n->set(p.back(), v, req, o); REQUIRE(ok, "assignment refused");
                        } else { auto* n = t.t->create(join(p)); REQUIRE(n != nullptr, "creating a node failed"); n->setValue(v, req, o); }
                        break; }
                }
                t.m.log.push_back({p, v, o, req, ++clockNow});
                if (!isw) used.push_back(p); else ++wilds;
                ++sets;
                break; }
            case 1: { const Path p = path(); LOG(c, "tree " << k << ": read " << join(p)); checkLookup(c, *t.t, t.m, p, int(below(c, 4))); if (t.m.find(p)) ++hits; break; }
            case 2: LOG(c, "tree " << k << ": unread"); checkUnread(*t.t, t.m); break;
            case 3: {
                const size_t o = below(c, ts.size());
                if (o == k) break;
                LOG(c, "tree " << k << ": merge " << o);
                t.t->merge(*ts[o].t);
                // what was unrequired in the other tree is no longer an assertion about this one
                for (auto e : ts[o].m.log) { e.at = ++clockNow; t.m.log.push_back(e); }
                if (!ts[o].unreq.empty()) t.unreq["?"] = ++clockNow;
                if (!ts[o].m.log.empty()) ++merges;
                break; }
            case 4: { const Path p = path(); LOG(c, "tree " << k << ": required " << join(p)); checkRequired(*t.t, t.m, p, t.unreq); break; }
            case 5: { const Path p = path(); if (!t.m.find(p)) break; LOG(c, "tree " << k << ": unrequire " << join(p)); REQUIRE(t.t->unrequire(join(p)), "unrequire found no entry"); t.unreq[join(p)] = ++clockNow;
                t.m.lookups.push_back({p, ++clockNow}); checkRequired(*t.t, t.m, p, t.unreq); break; }
            case 6: {
                const size_t o = below(c, ts.size());
                if (o == k) break;
                LOG(c, "tree " << k << " is assigned tree " << o);
                if (c.flip()) *t.t = *ts[o].t; else t.t.reset(new ParameterTree(*ts[o].t));
                t.m = ts[o].m; t.m.lookups.clear(); t.unreq.clear();
                if (!ts[o].unreq.empty()) t.unreq["?"] = ++clockNow;
                break; }
            case 7: if (!c.chance(1, 4)) break; LOG(c, "tree " << k << ": clear"); t.t->clear(); t.m = Model(); t.unreq.clear(); break;
            default: {
                // malformed names; patterns are not names
                Path p = genPath(c, std::max(2u, depth));
                LOG(c, "tree " << k << ": malformed");
                if (depth > 1 && c.flip()) { const std::string s = p[0] + ".." + p[1]; const bool ok = ts[k].t->set(s, "x", true); REQUIRE(!ok, "assignment to " << s << " accepted"); REQUIRE_THROWS((void)ts[k].t->get(s), "name " << s << " accepted"); }
                else if (!t.m.log.empty()) { const std::string s = join(genPath(c, depth)); (void)s; Path w = genPath(c, depth); w[0] = "a*"; REQUIRE_THROWS((void)ts[k].t->get(join(w)), "a pattern was accepted as a name"); }
                break; }
        }
    }
    for (auto& t : ts) {
        for (int q = 0; q < 6; ++q) { const Path p = path(); checkLookup(c, *t.t, t.m, p, int(below(c, 4))); }
        checkUnread(*t.t, t.m);
        // every entry is visited, and leaves are what was assigned
        std::set<std::string> seen, want;
        size_t calls = 0;
        const size_t n = t.t->visitLeaves([&](const ParameterTree::Node* x) { ++calls; if (x->hasValue()) seen.insert(x->getPath()); return true; });
        REQUIRE_EQ(n, calls, std::string("number of leaves visited"));
        for (auto& e : t.m.log) want.insert(join(e.path));
        REQUIRE(seen == want, "the leaves with values are not the names assigned");
        size_t all = 0;
        const size_t v = t.t->visitNodes([&](const ParameterTree::Node*) { ++all; return true; });
        REQUIRE_EQ(v, all, std::string("number of nodes visited"));
        REQUIRE(v >= n, "fewer nodes than leaves");
    }
    c.nontrivial(sets >= 4 && wilds >= 1 && hits >= 1);
    (void)merges;
}
