// C33: notifications and log messages against a plain model of who observes what.
#include "pbt.hpp"
#include "sp.hpp"
#include "sparta/log/NotificationSource.hpp"
#include "sparta/log/MessageSource.hpp"
#include "sparta/log/Tap.hpp"
#include "sparta/log/Destination.hpp"
#include "sparta/simulation/Clock.hpp"
#include "sparta/simulation/ClockManager.hpp"
#include <map>
#include <set>
#include <array>
using namespace pbt;
using sparta::TreeNode; using sparta::RootTreeNode;
typedef std::vector<std::string> Strs;
static uint64_t below(Case& c, uint64_t n) { return n > 1 ? c.draw(n - 1) : 0; }

static bool glob(const char* p, const char* s) {
    if (!*p) return !*s;
    if (*p == '*' || *p == '+' || *p == '?') {
        const size_t len = strlen(s), lo = *p == '+' ? 1 : 0, hi = *p == '?' ? std::min<size_t>(1, len) : len;
        for (size_t k = lo; k <= hi; ++k) if (glob(p + 1, s + k)) return true;
        return false;
    }
    return *p == *s && glob(p + 1, s + 1);
}
static const char* NAMES[] = {"alpha", "beta", "alpha_two", "gamma", "info"};
// a text naming notifications, as a list of patterns and as written
struct Want { Strs pats; std::string text; bool list = false; bool hits(const std::string& n) const { for (auto& p : pats) if (p.empty() || glob(p.c_str(), n.c_str())) return true; return false; } };
static Want genWant(Case& c) {
    Want w; const unsigned n = c.chance(1, 3) ? (unsigned)c.small(2, 3) : 1;
    if (n == 1 && c.chance(1, 4)) { w.pats.push_back(""); w.text = c.flip() ? "" : c.flip() ? "*" : ""; if (w.text == "*") w.pats[0] = "*"; return w; }
    for (unsigned i = 0; i < n; ++i) {
        std::string s = NAMES[below(c, 5)];
        if (c.chance(1, 4)) { static const char* P[] = {"alpha*", "*a", "be?a", "alpha+", "*_*", "i+", "g?amma", "?"}; s = P[below(c, 8)]; }
        if (i) { if (c.chance(1, 4)) w.text += ' '; w.text += ','; if (c.chance(1, 3)) w.text += c.flip() ? " " : "\t"; }
        w.text += s; w.pats.push_back(s);
    }
    w.list = n > 1; return w;
}

struct A { uint64_t v; }; struct B { uint64_t v; };
struct Call { int obj, how; const TreeNode* origin; const TreeNode* at; int type; uint64_t v; bool operator<(const Call& o) const { return std::tie(obj, how, origin, at, type, v) < std::tie(o.obj, o.how, o.origin, o.at, o.type, o.v); } bool operator==(const Call& o) const { return !(*this < o) && !(o < *this); } };
static std::vector<Call> calls;
struct Obs {
    int id;
    void a3(const TreeNode& o, const TreeNode& p, const A& d) { calls.push_back({id, 0, &o, &p, 0, d.v}); }
    void a1(const A& d) { calls.push_back({id, 1, nullptr, nullptr, 0, d.v}); }
    void b3(const TreeNode& o, const TreeNode& p, const B& d) { calls.push_back({id, 0, &o, &p, 1, d.v}); }
    void b1(const B& d) { calls.push_back({id, 1, nullptr, nullptr, 1, d.v}); }
    void onA(TreeNode* n, int how, const std::string& s, bool ens) { if (how) n->registerForNotification<A, Obs, &Obs::a1>(this, s, ens); else n->registerForNotification<A, Obs, &Obs::a3>(this, s, ens); }
    void onB(TreeNode* n, int how, const std::string& s, bool ens) { if (how) n->registerForNotification<B, Obs, &Obs::b1>(this, s, ens); else n->registerForNotification<B, Obs, &Obs::b3>(this, s, ens); }
    void offA(TreeNode* n, int how, const std::string& s) { if (how) n->deregisterForNotification<A, Obs, &Obs::a1>(this, s); else n->deregisterForNotification<A, Obs, &Obs::a3>(this, s); }
    void offB(TreeNode* n, int how, const std::string& s) { if (how) n->deregisterForNotification<B, Obs, &Obs::b1>(this, s); else n->deregisterForNotification<B, Obs, &Obs::b3>(this, s); }
    void reg(TreeNode* n, int type, int how, const std::string& s, bool ens) { if (type) onB(n, how, s, ens); else onA(n, how, s, ens); }
    void dereg(TreeNode* n, int type, int how, const std::string& s) { if (type) offB(n, how, s); else offA(n, how, s); }
};
struct Node { std::unique_ptr<TreeNode> own; TreeNode* n; int parent; };       // parent -1: a root
struct Src {
    std::unique_ptr<sparta::NotificationSource<A>> a; std::unique_ptr<sparta::NotificationSource<B>> b; int node, type; std::string name; uint64_t posts = 0;
    sparta::NotificationSourceBase* base() const { return type ? (sparta::NotificationSourceBase*)b.get() : a.get(); }
    std::vector<std::unique_ptr<sparta::NotificationSourceBase::ObservationStateCallback>> cbs; std::vector<std::pair<int, uint32_t>> seen;
};
struct Watch { int obj, type, how; TreeNode* at; int node; Want w; };            // node -1: the global node, -2-k: source k itself

struct Forest {
    RootTreeNode root{"top", "top"}; std::vector<Node> nodes; unsigned serial = 0;
    Forest() { nodes.push_back({nullptr, &root, -1}); }
    int add(int parent) { const std::string nm = "n" + std::string(1, char('a' + serial % 26)) + (serial >= 26 ? "x" : ""); ++serial; std::unique_ptr<TreeNode> t = parent < 0 ? std::make_unique<TreeNode>(nm, "node") : std::make_unique<TreeNode>(nodes[(size_t)parent].n, nm, "node"); TreeNode* p = t.get(); nodes.push_back({std::move(t), p, parent}); return (int)nodes.size() - 1; }
    bool under(int n, int a) const { for (; n >= 0; n = nodes[(size_t)n].parent) if (n == a) return true; return false; }
    int rootOf(int n) const { while (nodes[(size_t)n].parent >= 0) n = nodes[(size_t)n].parent; return n; }
    ~Forest() { try { root.enterTeardown(); } catch (...) {} while (nodes.size() > 1) nodes.pop_back(); }
};

PROPERTY_BATCH(notifications, 16000, 200000, 200) {
    std::vector<Obs> obs; for (int i = 0; i < 4; ++i) obs.push_back(Obs{i});
    Forest f; std::vector<std::unique_ptr<Src>> srcs; std::vector<Watch> regs; calls.clear(); unsigned posts = 0, multi = 0;
    TreeNode* global = TreeNode::getVirtualGlobalNode();
    struct Undo { std::vector<Watch>& r; std::vector<Obs>& o; TreeNode* g; std::vector<std::unique_ptr<Src>>& s; ~Undo() { for (auto& x : r) if (x.at == g) try { o[(size_t)x.obj].dereg(x.at, x.type, x.how, x.w.text); } catch (...) {} } } undo{regs, obs, global, srcs};
    struct Clean { std::vector<std::unique_ptr<Src>>& s; Forest& f; ~Clean() { for (auto& x : s) x->cbs.clear(); try { f.root.enterTeardown(); } catch (...) {} s.clear(); } } clean{srcs, f};
    auto reaches = [&](const Watch& r, size_t si) { const Src& s = *srcs[si]; if (r.type != s.type || !r.w.hits(s.name)) return false; if (r.node == -1) return true; if (r.node <= -2) return (size_t)(-2 - r.node) == si; return f.under(s.node, r.node); };
    auto observers = [&](size_t si) { uint32_t n = 0; for (auto& r : regs) n += reaches(r, si); return n; };
    auto check = [&]() {
        for (size_t i = 0; i < srcs.size(); ++i) {
            auto* b = srcs[i]->base(); const uint32_t n = observers(i);
            REQUIRE_EQ(b->getNumObservers(), n, "number of observers of source " + std::to_string(i)); REQUIRE_EQ(b->observed(), (n > 0), "observed");
            REQUIRE_EQ(b->getNumPosts(), srcs[i]->posts, "posts of source " + std::to_string(i));
            std::multiset<const TreeNode*> pts, got; { std::set<const TreeNode*> u; for (auto& r : regs) if (reaches(r, i)) u.insert(r.at); pts.insert(u.begin(), u.end()); } for (auto p : b->getObservationPoints()) got.insert(p);
            REQUIRE(pts == got, "observation points of source " << i);
        }
    };
    auto post = [&](size_t si) {
        Src& s = *srcs[si]; calls.clear(); const uint64_t v = c.draw(1000); ++s.posts; ++posts;
        if (s.type) s.b->postNotification(B{v}); else s.a->postNotification(A{v});
        std::vector<Call> want; for (auto& r : regs) if (reaches(r, si)) want.push_back({r.obj, r.how, r.how ? nullptr : s.base(), r.how ? nullptr : r.at, s.type, v});
        std::sort(want.begin(), want.end()); std::sort(calls.begin(), calls.end()); multi += want.size() > 1;
        LOG(c, "post source " << si << " reaches " << want.size());
        REQUIRE_EQ(calls.size(), want.size(), "callbacks of a post from source " + std::to_string(si) + " (" + s.name + ")"); REQUIRE(calls == want, "observers, origins, observation points and data of a post from source " << si);
    };
    for (unsigned ops = (unsigned)c.small(10, 50); ops-- > 0;) {
        const unsigned op = (unsigned)below(c, 16);
        if (op < 2 && f.nodes.size() < 14) { const int p = c.chance(1, 4) ? -1 : (int)below(c, f.nodes.size()); const int k = f.add(p); LOG(c, "node " << k << " under " << p); }
        else if (op == 2) {                                       // attach a tree of its own somewhere else
            std::vector<int> free; for (size_t i = 1; i < f.nodes.size(); ++i) if (f.nodes[i].parent < 0) free.push_back((int)i);
            if (free.empty()) continue; const int k = free[below(c, free.size())], p = (int)below(c, f.nodes.size()); if (f.under(p, k)) continue;
            LOG(c, "attach " << k << " to " << p); for (auto& s : srcs) s->seen.clear(); f.nodes[(size_t)p].n->addChild(f.nodes[(size_t)k].n); f.nodes[(size_t)k].parent = p; for (auto& s : srcs) s->seen.clear();
        } else if (op < 6 && srcs.size() < 10) {
            auto s = std::make_unique<Src>(); s->node = (int)below(c, f.nodes.size()); s->type = (int)c.chance(1, 3); s->name = NAMES[below(c, 5)]; const std::string nm = "src" + std::string(1, char('a' + srcs.size()));
            LOG(c, "source " << srcs.size() << (s->type ? " B " : " A ") << s->name << " at " << s->node); TreeNode* p = f.nodes[(size_t)s->node].n;
            if (s->type) s->b.reset(new sparta::NotificationSource<B>(p, nm, "source", s->name)); else s->a.reset(new sparta::NotificationSource<A>(p, nm, "source", s->name));
            Src* sp_ = s.get(); typedef sparta::NotificationSourceBase NS;
            static const NS::ObservationStateChange K[] = {NS::ObservationStateChange::SOLE_OBSERVER_REGISTERING, NS::ObservationStateChange::SOLE_OBSERVER_DEREGISTERING, NS::ObservationStateChange::OBSERVER_REGISTERING, NS::ObservationStateChange::OBSERVER_DEREGISTERING};
            if (c.flip()) for (int k = 0; k < 4; ++k) s->cbs.emplace_back(new NS::ObservationStateCallback(*s->base(), K[k], [sp_, k](const NS&, uint32_t n) { sp_->seen.push_back({k, n}); }));
            srcs.push_back(std::move(s));
        } else if (op < 11) {
            Watch r; r.obj = (int)below(c, obs.size()); r.how = (int)c.draw(1); r.type = (int)c.chance(1, 3); r.w = genWant(c);
            r.node = c.chance(1, 8) ? -1 : (!srcs.empty() && c.chance(1, 8)) ? -2 - (int)below(c, srcs.size()) : (int)below(c, f.nodes.size());
            if (!regs.empty() && c.chance(1, 6)) { const Watch& o = regs[below(c, regs.size())]; r.node = o.node; r.obj = o.obj; r.type = o.type; r.how = o.how; if (c.flip()) r.w = o.w; }
            r.at = r.node == -1 ? global : r.node <= -2 ? (TreeNode*)srcs[(size_t)(-2 - r.node)]->base() : f.nodes[(size_t)r.node].n;
            const bool ens = r.node != -1 && c.chance(1, 4); bool possible = false, dup = false;
            for (size_t i = 0; i < srcs.size(); ++i) possible |= reaches(r, i);
            for (auto& o : regs) dup |= o.obj == r.obj && o.how == r.how && o.type == r.type && o.at == r.at && o.w.text == r.w.text;
            LOG(c, "register " << r.obj << (r.type ? " B" : " A") << " how " << r.how << " at " << r.node << " '" << r.w.text << "'" << (ens ? " if possible" : "") << (dup ? " again" : ""));
            std::vector<uint32_t> before; for (size_t i = 0; i < srcs.size(); ++i) { before.push_back(observers(i)); srcs[i]->seen.clear(); }
            if ((ens && !possible) || dup) { REQUIRE(sp::throws([&] { obs[(size_t)r.obj].reg(r.at, r.type, r.how, r.w.text, ens); }), (dup ? "registering twice" : "registering for something impossible") << " succeeds"); for (auto& s : srcs) REQUIRE(s->seen.empty(), "callbacks of a refused registration"); }
            else {
                obs[(size_t)r.obj].reg(r.at, r.type, r.how, r.w.text, ens); regs.push_back(r);
                for (size_t i = 0; i < srcs.size(); ++i) if (!srcs[i]->cbs.empty()) { std::vector<std::pair<int, uint32_t>> w; if (reaches(r, i)) { if (!before[i]) w.push_back({0, 1}); w.push_back({2, before[i] + 1}); } std::sort(w.begin(), w.end()); auto g = srcs[i]->seen; std::sort(g.begin(), g.end()); REQUIRE(g == w, "observation state callbacks of source " << i << " upon a registration"); }
            }
        } else if (op < 13 && !regs.empty()) {
            const size_t k = below(c, regs.size()); Watch r = regs[k]; LOG(c, "deregister " << r.obj << " at " << r.node << " '" << r.w.text << "'");
            if (c.chance(1, 12)) { bool other = false; const std::string t = r.w.text + "x"; for (auto& o : regs) other |= o.w.text == t; if (!other) REQUIRE(sp::throws([&] { obs[(size_t)r.obj].dereg(r.at, r.type, r.how, t); }), "removing an observer that is not registered"); continue; }
            for (auto& s : srcs) s->seen.clear();
            obs[(size_t)r.obj].dereg(r.at, r.type, r.how, r.w.text); std::vector<char> was; for (size_t i = 0; i < srcs.size(); ++i) was.push_back(reaches(r, i)); regs.erase(regs.begin() + (long)k);
            for (size_t i = 0; i < srcs.size(); ++i) if (!srcs[i]->cbs.empty()) { std::vector<std::pair<int, uint32_t>> w; if (was[i]) { const uint32_t n = observers(i); if (!n) w.push_back({1, 0}); w.push_back({3, n}); } auto g = srcs[i]->seen; std::sort(g.begin(), g.end()); std::sort(w.begin(), w.end()); REQUIRE(g == w, "observation state callbacks of source " << i << " upon a deregistration"); }
        } else if (!srcs.empty()) post(below(c, srcs.size()));
        check();
    }
    for (size_t i = 0; i < srcs.size(); ++i) post(i);
    // what subtrees can generate
    if (!srcs.empty()) for (int k = 0; k < 2; ++k) {
        Want w = genWant(c); const int n = (int)below(c, f.nodes.size()), type = (int)c.draw(1); bool any = false; for (size_t i = 0; i < srcs.size(); ++i) any |= srcs[i]->type == type && f.under(srcs[i]->node, n) && w.hits(srcs[i]->name);
        auto l = TreeNode::parseNotificationNameString(w.text); REQUIRE_EQ(l.size(), w.pats.size(), "names in '" + w.text + "'"); for (size_t i = 0; i < l.size(); ++i) REQUIRE_EQ(*l[i], w.pats[i], "a name in '" + w.text + "'");
        REQUIRE_EQ(f.nodes[(size_t)n].n->canSubtreeGenerateNotifications(type ? typeid(B) : typeid(A), l), any, "possible below node " + std::to_string(n) + ": '" + w.text + "'");
        std::multiset<const TreeNode*> want, got; for (auto& s : srcs) if (f.under(s->node, n) && s->base()->getParent() ) want.insert(s->base());
        std::vector<TreeNode::NotificationInfo> infos; f.nodes[(size_t)n].n->getPossibleSubtreeNotifications(infos); for (auto& i : infos) if (*i.tinfo == typeid(A) || *i.tinfo == typeid(B)) got.insert(i.origin);
        REQUIRE(want == got, "notifications possible below node " << n);
    }
    c.nontrivial(posts >= 2 && multi >= 1 && regs.size() >= 2);
}

// ---- logging
static std::ostringstream OUT[3]; static size_t off[3];
static const char* FILES[] = {"a.log.raw", "b.log.basic", "c.log", "d.log.verbose", "e.log.raw.log.basic", "log.basic.log.raw", "f.log.basic.txt"};
static const int FMT[] = {0, 1, 2, 3, 1, 0, 2};            // raw, basic, default, verbose
static std::map<std::string, size_t> foff;
struct Sent { std::string loc, cat, text; uint64_t tick, cycle; bool clk; };

PROPERTY_BATCH(logs, 9000, 100000, 100) {
    sparta::Scheduler sched("s"); sparta::ClockManager cm{&sched}; auto clk = cm.makeRoot(); cm.normalize();
    Forest f; struct MS { std::unique_ptr<sparta::log::MessageSource> m; int node; std::string cat; uint64_t sent = 0; };
    if (c.flip()) f.root.setClock(clk.get());
    struct TapM { std::unique_ptr<sparta::log::Tap> t; int node; Want w; int dest; uint64_t n = 0; bool on; };
    std::vector<MS> src; std::vector<TapM> taps; TreeNode* global = TreeNode::getVirtualGlobalNode(); unsigned sent = 0, several = 0;
    struct Clean { std::vector<MS>& s; std::vector<TapM>& t; Forest& f; ~Clean() { t.clear(); try { f.root.enterTeardown(); } catch (...) {} s.clear(); } } clean{src, taps, f};
    const bool hasClk = f.root.getClock() != nullptr;
    auto dests = [&](int d) -> const sparta::log::Destination* { for (auto& t : taps) if (t.dest == d) return t.t->getDestination(); return nullptr; };
    auto fresh = [&](int d) { std::string s; if (d < 3) { s = OUT[d].str().substr(off[d]); off[d] = OUT[d].str().size(); return s; } const std::string fn = FILES[d - 3]; std::ifstream i(fn); if (!i) return s; i.seekg((long)foff[fn]); s.assign((std::istreambuf_iterator<char>(i)), {}); foff[fn] += s.size(); return s; };
    auto open = [&](int d, TreeNode* n, const Want& w) { if (d < 3) { std::ostream& o = OUT[d]; return n ? new sparta::log::Tap(n, w.text, o) : new sparta::log::Tap(w.text, o); } const std::string fn = FILES[d - 3]; return n ? new sparta::log::Tap(n, w.text, fn) : new sparta::log::Tap(w.text, fn); };
    auto emit = [&](size_t k, bool flow) {
        MS& m = src[k]; std::set<int> to; std::map<int, unsigned> hits; for (auto& t : taps) if (t.on && t.w.hits(m.cat) && (t.node == -1 || f.under(m.node, t.node))) { to.insert(t.dest); ++hits[t.dest]; ++t.n; }
        std::map<int, std::array<uint64_t, 3>> cnt; for (auto& t : taps) if (auto* d = t.t->getDestination()) cnt[t.dest] = {d->getNumMessagesReceived(), d->getNumMessagesWritten(), d->getNumMessageDuplicates()};
        for (auto& t : taps) fresh(t.dest);
        for (int i = 0; i < 3; ++i) { OUT[i].flags(std::ios::dec | std::ios::skipws | std::ios::left); OUT[i].fill('*'); OUT[i].precision(9); }
        std::string text; for (unsigned n = (unsigned)c.small(0, 12); n-- > 0;) text += "ab 0{}:\n,"[below(c, 9)]; const uint64_t num = c.draw(999); ++m.sent; ++sent; several += to.size() > 1;
        LOG(c, "emit from source " << k << " to " << to.size());
        std::string full;
        if (flow) { const unsigned how = (unsigned)below(c, 4);
            if (how == 0) { *m.m << text << num; full = text + std::to_string(num); }
            else if (how == 1) { m.m->emit(text); full = text; }
            else if (how == 2) { *m.m << std::hex << num << text << std::endl << 'z'; std::ostringstream o; o << std::hex << num; full = o.str() + text + "\nz"; }
            else { { auto o = m.m->emit(text); auto p = std::move(o); p << num; } full = text + std::to_string(num); } }
        else { *m.m << text; full = text; }
        std::string flat; for (char ch : full) if (ch != '\n') flat += ch;
        const std::string loc = f.nodes[(size_t)m.node].n->getLocation();
        for (auto& pr : cnt) {
            const int d = pr.first; const std::string got = fresh(d); const int fmt = d < 3 ? 2 : FMT[d - 3]; std::string want;
            if (to.count(d)) { const bool clocked = f.nodes[(size_t)m.node].n->getClock() != nullptr;
                if (fmt == 0) want = flat + "\n"; else if (fmt == 1) want = loc + ": " + m.cat + ": " + flat + "\n";
                else if (fmt == 2) want = std::string("{0000000000 ") + (clocked ? "00000000 " : "-------- ") + loc + " " + m.cat + "} " + flat + "\n"; }
            const std::string name = d < 3 ? "stream " + std::to_string(d) : std::string(FILES[d - 3]);
            if (fmt == 3 && to.count(d)) { REQUIRE(std::count(got.begin(), got.end(), '\n') == 1 && got.size() > flat.size() && got.compare(got.size() - flat.size() - 1, flat.size(), flat) == 0 && got.find(loc) != std::string::npos && got.find(m.cat) != std::string::npos, "message in " << name << ": " << got); }
            else { std::string tail = got; if (to.count(d) || got.empty() || got[0] != '#') { if (!tail.empty() && tail[0] == '#') { size_t p = 0; while (p < tail.size() && tail[p] == '#') p = tail.find('\n', p) + 1; tail = tail.substr(p); } REQUIRE_EQ(tail, want, "written to " + name); } }
            const sparta::log::Destination* dp = dests(d); const uint64_t h = hits[d];
            REQUIRE_EQ(dp->getNumMessagesReceived(), pr.second[0] + h, "messages received by " + name); REQUIRE_EQ(dp->getNumMessagesWritten(), pr.second[1] + (h ? 1 : 0), "messages written by " + name); REQUIRE_EQ(dp->getNumMessageDuplicates(), pr.second[2] + (h ? h - 1 : 0), "duplicates refused by " + name);
        }
        for (int i = 0; i < 3; ++i) REQUIRE(OUT[i].flags() == (std::ios::dec | std::ios::skipws | std::ios::left) && OUT[i].fill() == '*' && OUT[i].precision() == 9, "formatting of stream " << i << " after logging");
    };
    for (unsigned ops = (unsigned)c.small(10, 44); ops-- > 0;) {
        const unsigned op = (unsigned)below(c, 14);
        if (op < 2 && f.nodes.size() < 10) { const int p = c.chance(1, 4) ? -1 : (int)below(c, f.nodes.size()); f.add(p); LOG(c, "node under " << p); }
        else if (op == 2) { std::vector<int> free; for (size_t i = 1; i < f.nodes.size(); ++i) if (f.nodes[i].parent < 0) free.push_back((int)i);
            if (free.empty()) continue; const int k = free[below(c, free.size())], p = (int)below(c, f.nodes.size()); if (f.under(p, k)) continue; f.nodes[(size_t)p].n->addChild(f.nodes[(size_t)k].n); f.nodes[(size_t)k].parent = p; LOG(c, "attach " << k << " to " << p);
        } else if (op < 5 && src.size() < 8) { MS m; m.node = (int)below(c, f.nodes.size()); m.cat = NAMES[below(c, 5)]; m.m.reset(new sparta::log::MessageSource(f.nodes[(size_t)m.node].n, m.cat, "messages")); LOG(c, "message source " << src.size() << " " << m.cat << " at " << m.node); src.push_back(std::move(m)); }
        else if (op < 8 && taps.size() < 8) { TapM t; t.node = c.chance(1, 8) ? -1 : (int)below(c, f.nodes.size()); t.w = genWant(c); t.dest = (int)below(c, c.chance(1, 3) ? 10 : 3); t.on = !c.chance(1, 8); TreeNode* n = t.node < 0 ? global : f.nodes[(size_t)t.node].n;
            t.t.reset(open(t.dest, t.on ? n : nullptr, t.w)); LOG(c, "tap at " << t.node << " '" << t.w.text << "' to " << t.dest << (t.on ? "" : " (not attached)")); fresh(t.dest); taps.push_back(std::move(t)); }
        else if (op == 8 && !taps.empty()) { auto& t = taps[below(c, taps.size())]; if (c.flip()) { t.t->detach(); t.on = false; LOG(c, "detach a tap"); } else { t.node = c.chance(1, 8) ? -1 : (int)below(c, f.nodes.size()); TreeNode* n = t.node < 0 ? global : f.nodes[(size_t)t.node].n; t.t->reset(n); t.on = true; LOG(c, "reset a tap to " << t.node); REQUIRE(t.t->getObservedNode() == n, "node observed by a tap that was moved"); } }
        else if (op == 9 && !taps.empty()) { const size_t k = below(c, taps.size()); taps.erase(taps.begin() + (long)k); LOG(c, "remove a tap"); }
        else if (!src.empty()) emit(below(c, src.size()), true);
        for (auto& s : src) { bool w = false; for (auto& t : taps) w |= t.on && t.w.hits(s.cat) && (t.node == -1 || f.under(s.node, t.node)); REQUIRE_EQ((bool)*s.m, w, "whether a message source is observed"); REQUIRE_EQ(s.m->getNumEmitted(), s.sent, "messages emitted"); }
        for (auto& t : taps) REQUIRE_EQ(t.t->getNumMessages(), t.n, "messages seen by a tap");
    }
    (void)hasClk; c.nontrivial(sent >= 2 && several >= 1);
}
