// C25: reports built by definition files and by calls against the statistics they name; every output format against the same values.
#include "sp.hpp"
#include "sparta/report/Report.hpp"
#include "sparta/report/format/Text.hpp"
#include "sparta/report/format/CSV.hpp"
#include "sparta/report/format/JSON.hpp"
#include "sparta/report/format/JSON_reduced.hpp"
#include "sparta/report/format/JSON_detail.hpp"
#include "sparta/report/format/PythonDict.hpp"
#include "sparta/report/format/BasicHTML.hpp"
#include "sparta/report/format/JavascriptObject.hpp"
#include "sparta/report/format/Gnuplot.hpp"
#include "sparta/report/format/BaseFormatter.hpp"
#include "sparta/statistics/Counter.hpp"
#include "sparta/statistics/StatisticDef.hpp"
#include "sparta/statistics/ContextCounter.hpp"
#include "sparta/statistics/StatisticSet.hpp"
#include "sparta/simulation/Parameter.hpp"
#include "sparta/simulation/ParameterSet.hpp"
#include "sparta/simulation/ResourceTreeNode.hpp"
#include <rapidjson/document.h>
#include <cmath>
#include <cstdio>
#include <fstream>
#include <list>
#include <map>
#include <memory>
#include <regex>
#include <unistd.h>
using namespace sparta;

namespace {
using Snap = std::vector<uint64_t>;
using Fn = std::function<double(const Snap& base, const Snap& now)>;
struct Leaf { std::string path; TreeNode* node; Fn f; std::string kind; }; // path relative to top
struct MS { std::string name, loc; Fn f; };
struct MR { std::string name; std::vector<MS> stats; std::list<MR> subs; bool autopop = false; std::map<std::string, std::string> style; };
struct Ctx { TreeNode* node; std::string path; std::vector<std::string> cap; MR* to; };
struct Params : ParameterSet { Params(TreeNode* n) : ParameterSet(n) {} PARAMETER(uint32_t, width, 7, "width") PARAMETER(double, ratio, 0.375, "ratio") };

// the number a report prints: exact integers, otherwise six significant digits
std::string num(double v) {
    char b[400];
    if (std::isnan(v)) return "nan";
    if (std::isinf(v)) return v < 0 ? "-inf" : "inf";
    if (v == std::floor(v) && std::fabs(v) < 9.0e18) { std::snprintf(b, sizeof b, "%lld", (long long)v); return b; }
    if (v == std::floor(v) && v > 0 && v < 18446744073709551616.0) { std::snprintf(b, sizeof b, "%llu", (unsigned long long)v); return b; }
    std::snprintf(b, sizeof b, "%.6g", v); return b;
}
std::string fixedNum(double v, int places) { char b[400]; if (std::isnan(v) || std::isinf(v) || (v == std::floor(v) && v >= -9.2e18 && v < 18446744073709551616.0)) return num(v); std::snprintf(b, sizeof b, "%.*f", places, v); return b; }
bool same(double a, double b) { return (std::isnan(a) && std::isnan(b)) || a == b; }
bool near(double a, double b) { return same(a, b) || std::fabs(a - b) <= 6e-6 * std::max(std::fabs(a), std::fabs(b)); }

struct World {
    pbt::Case& c; Scheduler sched; ClockManager cm{&sched}; Clock::Handle root; RootTreeNode rtn{"top", "top"}; TreeNode dev{&rtn, "dev", "dev"};
    std::vector<std::unique_ptr<TreeNode>> units, inner; std::vector<std::unique_ptr<StatisticSet>> sets; std::vector<std::unique_ptr<Params>> params; std::vector<std::unique_ptr<StatisticDef>> defs; std::vector<std::unique_ptr<ContextCounter<Counter>>> ctxc;
    std::vector<Counter*> ctrs; std::vector<bool> latest; std::vector<size_t> ctrOfSet; std::vector<Leaf> leaves; std::map<std::string, TreeNode*> nodes; size_t nextName = 0, wild = 0, nsub = 0, nexpr = 0, copied = 0; sp::Teardown td{rtn};

    Fn ctrFn(size_t i) { return [this, i](const Snap& b, const Snap& n) { return latest[i] ? double(n[i]) : double(n[i]) - double(b[i]); }; }
    void addSet(TreeNode* n, const std::string& path, size_t nc) {
        sets.emplace_back(new StatisticSet(n)); auto* ss = sets.back().get(); nodes[path + ".stats"] = ss; const size_t first = ctrs.size();
        for (size_t i = 0; i < nc; ++i) {
            const std::string nm = std::string("c") + char('a' + i); const bool lat = c.chance(1, 6); auto& k = ss->createCounter<Counter>(nm, "the \"" + nm + "\" counter", lat ? CounterBase::COUNT_LATEST : CounterBase::COUNT_NORMAL);
            ctrs.push_back(&k); latest.push_back(lat); leaves.push_back({path + ".stats." + nm, &k, ctrFn(ctrs.size() - 1), "counter"});
        }
        const size_t nd = c.weighted({1, 3, 2});
        for (size_t i = 0; i < nd; ++i) {
            const size_t a = first + c.range(0, nc - 1), b = first + c.range(0, nc - 1); const std::string A = std::string("c") + char('a' + (a - first)), B = std::string("c") + char('a' + (b - first)); const Fn fa = ctrFn(a), fb = ctrFn(b); std::string ex; Fn f;
            switch (c.range(0, 6)) {
            case 0: ex = A + " + " + B; f = [=](auto& p, auto& n) { return fa(p, n) + fb(p, n); }; break;
            case 1: ex = A + " / " + B; f = [=](auto& p, auto& n) { return fa(p, n) / fb(p, n); }; break;
            case 2: ex = "5 - " + A; f = [=](auto& p, auto& n) { return 5 - fa(p, n); }; break;
            case 3: ex = A + " * 4000000000 * 4000000000 * 4000000000"; f = [=](auto& p, auto& n) { return fa(p, n) * 4e9 * 4e9 * 4e9; }; break;
            case 4: ex = "(0 - " + A + " - 1) / (" + B + " - " + B + ")"; f = [=](auto& p, auto& n) { return (0 - fa(p, n) - 1) / (fb(p, n) - fb(p, n)); }; break;
            case 5: ex = "(0 - " + A + ") / 7"; f = [=](auto& p, auto& n) { return (0 - fa(p, n)) / 7; }; break;
            default: ex = A + " * 3000000000 * 6148914691"; f = [=](auto& p, auto& n) { return fa(p, n) * 3000000000.0 * 6148914691.0; } ; break;
            }
            const std::string nm = std::string("s") + char('a' + i); defs.emplace_back(new StatisticDef(ss, nm, "statistic " + nm, ss, ex)); leaves.push_back({path + ".stats." + nm, defs.back().get(), f, "stat"});
        }
    }
    World(pbt::Case& cc) : c(cc) {
        root = cm.makeRoot(); cm.normalize(); rtn.setClock(root.get()); nodes["dev"] = &dev;
        const size_t nu = c.range(1, 4);
        for (size_t i = 0; i < nu; ++i) {
            const std::string nm = "u" + std::to_string(c.flip() ? i : 10 + i); units.emplace_back(new TreeNode(&dev, nm, "unit")); nodes["dev." + nm] = units.back().get(); addSet(units.back().get(), "dev." + nm, c.range(1, 3));
            if (c.flip()) { params.emplace_back(new Params(units.back().get())); leaves.push_back({"dev." + nm + ".params.width", units.back()->getChild("params.width"), [](auto&, auto&) { return 7.0; }, "param"}); leaves.push_back({"dev." + nm + ".params.ratio", units.back()->getChild("params.ratio"), [](auto&, auto&) { return 0.375; }, "param"}); }
            const size_t ni = c.range(0, 2); for (size_t j = 0; j < ni; ++j) { const std::string in = std::string("v") + char('a' + j); inner.emplace_back(new TreeNode(units.back().get(), in, "inner")); nodes["dev." + nm + "." + in] = inner.back().get(); addSet(inner.back().get(), "dev." + nm + "." + in, c.range(1, 2)); }
        }
        rtn.enterConfiguring(); rtn.enterFinalized(); sched.finalize();
    }
    Snap snap() const { Snap s; for (auto* k : ctrs) s.push_back(k->get()); return s; }
    void count(size_t n) { for (size_t i = 0; i < n; ++i) { const size_t k = c.range(0, ctrs.size() - 1); const uint64_t v = c.bits(c.chance(1, 3) ? 40 : 8); LOG(c, leaves.size() << " counter " << k << " " << (latest[k] ? "= " : "+= ") << v); if (latest[k]) ctrs[k]->set(v); else *ctrs[k] += v; } }
    // nodes below a node matching a pattern of segments
    void match(TreeNode* from, const std::string& path, const std::vector<std::string>& pat, size_t i, std::vector<std::string> cap, std::vector<Ctx>& out, MR* to, size_t inherited) {
        if (i == pat.size()) { auto k = cap; std::reverse(k.begin() + inherited, k.end()); out.push_back({from, path, k, to}); return; } // the parts matched in one line count from its end
        const std::string& s = pat[i]; const size_t w = s.find_first_of("*+?");
        for (auto* ch : TreeNodePrivateAttorney::getAllChildren(from)) {
            const std::string& n = ch->getName(); auto cp = cap;
            if (w == std::string::npos) { if (n != s) continue; }
            else {
                const std::string pre = s.substr(0, w), suf = s.substr(w + 1); if (n.size() < pre.size() + suf.size() || n.compare(0, pre.size(), pre) || n.compare(n.size() - suf.size(), suf.size(), suf)) continue;
                const std::string m = n.substr(pre.size(), n.size() - pre.size() - suf.size()); if (s[w] == '+' && m.empty()) continue; if (s[w] == '?' && m.size() > 1) continue; cp.push_back(m);
            }
            match(ch, path.empty() ? n : path + "." + n, pat, i + 1, cp, out, to, inherited);
        }
    }
    static std::string join(const std::vector<std::string>& v) { std::string s; for (auto& x : v) s += (s.empty() ? "" : ".") + x; return s; }
    std::vector<std::string> pattern(const std::vector<Ctx>& cx, bool leaf) { // segments from the first context to some node below it, with some of them turned into wildcards
        std::vector<std::string> all; const std::string base = cx[c.range(0, cx.size() - 1)].path;
        if (leaf) { for (auto& l : leaves) if (base.empty() || l.path.compare(0, base.size() + 1, base + ".") == 0) all.push_back(l.path); } else for (auto& n : nodes) if (base.empty() ? true : n.first.compare(0, base.size() + 1, base + ".") == 0) all.push_back(n.first);
        if (all.empty()) return {}; std::string p = all[c.range(0, all.size() - 1)]; if (!base.empty()) p = p.substr(base.size() + 1);
        std::vector<std::string> segs; size_t b = 0; while (true) { const size_t e = p.find('.', b); segs.push_back(p.substr(b, e == std::string::npos ? e : e - b)); if (e == std::string::npos) break; b = e + 1; }
        for (auto& s : segs) if ((s[0] == 'u' || s[0] == 'v' || (s.size() == 2 && (s[0] == 'c' || s[0] == 's'))) && c.flip()) s = s.substr(0, 1) + "*+?"[c.range(0, 2)];
        for (auto& s : segs) if ((s == "dev" || s == "stats") && c.chance(1, 10)) s = s.substr(0, s.size() - 1) + "*";
        return segs;
    }
    std::string nameTemplate(size_t ncap, size_t& id) { // every wildcard part in some form, so that names are unique
        id = nextName++; std::string t = "n" + std::to_string(id); for (size_t k = 1; k <= ncap; ++k) t += c.flip() ? "_%" + std::to_string(k) : "_%-" + std::to_string(ncap + 1 - k); return t;
    }
    static std::string expand(size_t id, const std::vector<std::string>& cap) { std::string t = "n" + std::to_string(id); for (auto& s : cap) t += "_" + s; return t; }
    void content(std::ostream& y, const std::vector<Ctx>& cx, const std::string& ind, size_t depth) {
        const size_t n = c.range(1, 4); const size_t ncap = cx[0].cap.size(); bool any = false;
        auto leafItem = [&]() {
            const auto pat = pattern(cx, true); if (pat.empty()) return false; std::vector<Ctx> m; for (auto& x : cx) match(x.node, x.path, pat, 0, x.cap, m, x.to, x.cap.size()); if (m.empty()) return false; size_t id = 0; std::string t = nameTemplate(m[0].cap.size(), id); const size_t form = c.weighted({6, 1, 1, 1}); if (m[0].cap.size() > ncap) ++wild;
            std::map<std::pair<MR*, std::string>, int> seen; for (auto& x : m) ++seen[{x.to, expand(id, x.cap)}]; bool dup = false; for (auto& s : seen) dup = dup || s.second > 1; // the context that does not tell its parts apart: use the location
            if (form == 1) t = ""; else if (form == 2 || dup) t = "n" + std::to_string(id) + "@%l"; else if (form == 3) t = "n" + std::to_string(id) + "@%0";
            y << ind << "\"" << join(pat) << "\": \"" << t << "\"\n";
            for (auto& x : m) { for (auto& l : leaves) if (l.path == x.path) x.to->stats.push_back({form == 1 ? "" : form > 1 || dup ? "n" + std::to_string(id) + "@top." + x.path : expand(id, x.cap), "top." + x.path, l.f}); }
            return true;
        };
        for (size_t i = 0; i < n; ++i) switch (c.weighted({4, depth < 4 ? 3u : 0u, depth < 4 ? 3u : 0u, 2, 1})) {
        case 0: any |= leafItem(); break;
        case 1: {
            const auto pat = pattern(cx, false); if (pat.empty()) break; std::vector<Ctx> m; for (auto& x : cx) match(x.node, x.path, pat, 0, x.cap, m, x.to, x.cap.size()); bool ok = !m.empty(); for (auto& x : m) { bool has = false; for (auto& l : leaves) has = has || l.path.compare(0, x.path.size() + 1, x.path + ".") == 0; ok = ok && has; } if (!ok) break;
            y << ind << "\"" << join(pat) << "\":\n"; content(y, m, ind + "  ", depth + 1); any = true; break;
        }
        case 2: {
            std::vector<Ctx> m = cx; size_t id = 0; ++nsub; std::string t = nameTemplate(ncap, id); std::map<std::pair<MR*, std::string>, int> seen; for (auto& x : cx) ++seen[{x.to, expand(id, x.cap)}]; bool dup = false; for (auto& s : seen) dup = dup || s.second > 1;
            if (dup) t = "n" + std::to_string(id) + "@%l"; else if (c.chance(1, 8)) { t = "n" + std::to_string(id) + "@%0"; dup = true; }
            y << ind << "subreport:\n" << ind << "  name: \"" << t << "\"\n"; if (c.chance(1, 4)) y << ind << "  author: \"me\"\n"; std::map<std::string, std::string> st; if (c.chance(1, 4)) { st["decimal_places"] = std::to_string(c.range(0, 4)); y << ind << "  style:\n" << ind << "    decimal_places: " << st["decimal_places"] << "\n"; }
            for (auto& x : m) { x.to->subs.emplace_back(); x.to = &x.to->subs.back(); x.to->name = dup ? "n" + std::to_string(id) + "@top" + (x.path.empty() ? "" : "." + x.path) : expand(id, x.cap); x.to->style = st; }
            y << ind << "  content:\n";
            if (c.chance(1, 4)) {
                const int kind = int(c.range(0, 2)); if (kind == 2) { y << ind << "    autopopulate:\n" << ind << "      attributes: \"\"\n"; if (c.flip()) y << ind << "      max_recursion_depth: -1\n"; } else y << ind << "    autopopulate: \"" << (kind ? "name:ca" : "") << "\"\n";
                for (auto& x : m) { x.to->autopop = true; for (auto& l : leaves) if (l.kind != "param" && (x.path.empty() || l.path.compare(0, x.path.size() + 1, x.path + ".") == 0) && (kind != 1 || l.node->getName() == "ca")) x.to->stats.push_back({"", "top." + l.path, l.f}); }
            } else content(y, m, ind + "    ", depth + 1);
            any = true; break;
        }
        case 3: { // expression over nodes below every context, or over a statistic already in the report
            if (cx.size() != 1) break; std::vector<const Leaf*> in; for (auto& l : leaves) if (cx[0].path.empty() || l.path.compare(0, cx[0].path.size() + 1, cx[0].path + ".") == 0) in.push_back(&l); if (in.empty()) break;
            const Leaf* a = in[c.range(0, in.size() - 1)]; const Leaf* b = in[c.range(0, in.size() - 1)]; auto rel = [&](const Leaf* l) { return cx[0].path.empty() ? l->path : l->path.substr(cx[0].path.size() + 1); }; const Fn fa = a->f, fb = b->f; size_t id = 0; std::string t = nameTemplate(ncap, id); ++nexpr;
            y << ind << "\"" << rel(a) << " * 2 + " << rel(b) << "\": \"" << t << "\"\n"; cx[0].to->stats.push_back({expand(id, cx[0].cap), "", [fa, fb](auto& p, auto& n) { return fa(p, n) * 2 + fb(p, n); }}); any = true; break;
        }
        default: y << ind << "report_ignore:\n" << ind << "  anything: \"ignored\"\n"; break;
        }
        if (!any && !leafItem()) y << ind << "report_ignore:\n" << ind << "  nothing: \"ignored\"\n";
    }
    void gather(const Report& r, std::vector<std::pair<std::string, double>>& out) { for (auto& s : r.getStatistics()) out.emplace_back(s.second->getLocation(), s.second->getValue()); for (auto& q : r.getSubreports()) gather(q, out); }
    // the statistics of the report are those of the model; the model takes the order of the report
    void compare(const Report& r, MR& m, const Snap& base, const Snap& now) {
        REQUIRE_EQ(r.getName(), m.name, "name of the report");
        if (m.autopop) {
            std::vector<std::pair<std::string, double>> got, want; gather(r, got); for (auto& s : m.stats) want.emplace_back(s.loc, s.f(base, now)); std::sort(got.begin(), got.end(), [](auto& a, auto& b) { return a.first < b.first; }); std::sort(want.begin(), want.end(), [](auto& a, auto& b) { return a.first < b.first; });
            REQUIRE_EQ(got.size(), want.size(), "statistics of the populated report " << m.name); for (size_t i = 0; i < got.size(); ++i) { REQUIRE_EQ(got[i].first, want[i].first, "populated report " << m.name); REQUIRE(same(got[i].second, want[i].second), "value of " << got[i].first << " " << got[i].second << " for " << want[i].second); } return;
        }
        REQUIRE_EQ(r.getStatistics().size(), m.stats.size(), "statistics of report " << m.name); REQUIRE_EQ(r.getSubreports().size(), m.subs.size(), "subreports of " << m.name);
        size_t named = 0; std::vector<MS> ord; for (auto& s : r.getStatistics()) {
            auto it = std::find_if(m.stats.begin(), m.stats.end(), [&](const MS& x) { return x.name == s.first && (!x.name.empty() || x.loc == s.second->getLocation()); }); REQUIRE(it != m.stats.end(), "report " << m.name << " has a statistic \"" << s.first << "\" of " << s.second->getLocation() << " that was not asked for");
            if (!it->loc.empty()) REQUIRE_EQ(s.second->getLocation(), it->loc, "location of " << s.first);
            const double w = it->f(base, now), g = s.second->getValue(); REQUIRE(same(w, g), "value of \"" << s.first << "\" in " << m.name << ": " << g << " for " << w); if (!s.first.empty()) { ++named; REQUIRE(r.hasStatistic(s.first), "named statistic " << s.first << " is not found"); REQUIRE(&const_cast<Report&>(r).getStatistic(s.first) == s.second.get(), "lookup of " << s.first); }
            ord.push_back(*it); m.stats.erase(it);
        }
        m.stats = ord; REQUIRE_EQ(size_t(r.getNumNamedStatistics()), named, "named statistics of " << m.name); REQUIRE_EQ(size_t(r.getNumAnonymousStatistics()), ord.size() - named, "anonymous statistics");
        REQUIRE(!r.hasStatistic("no such"), "a statistic nobody added");
        auto i = m.subs.begin(); for (auto& q : r.getSubreports()) { auto at = std::find_if(i, m.subs.end(), [&](const MR& x) { return x.name == q.getName(); }); REQUIRE(at != m.subs.end(), "subreport " << q.getName() << " was not asked for"); if (at != i) { m.subs.splice(i, m.subs, at); i = at; } REQUIRE(q.getParent() == &r, "parent of subreport " << q.getName()); compare(q, *i, base, now); ++i; }
        for (auto& s : m.style) REQUIRE_EQ(r.getStyle(s.first), s.second, "style of " << m.name);
    }
    // formats: expected from the names and values in the report
    static std::string statName(const statistics::stat_pair_t& s) { return s.first.empty() ? s.second->getLocation() : s.first; }
    void text(const Report& r, size_t depth, std::string& o) { const std::string ind(depth * 2, ' '); o += ind + "R \"" + r.getName() + "\""; if (!depth) o += " [" + std::to_string(r.getStart()) + "," + std::to_string(r.isEnded() ? r.getEnd() : sched.getCurrentTick()) + "]"; o += "\n"; for (auto& s : r.getStatistics()) o += ind + "    " + statName(s) + " = " + num(s.second->getValue()) + "\n"; if (!r.getStatistics().empty()) o += "\n"; for (auto& q : r.getSubreports()) text(q, depth + 1, o); if (!r.getSubreports().empty()) o += "\n"; }
    void flat(const Report& r, const std::string& pre, std::vector<std::pair<std::string, double>>& out) { for (auto& s : r.getStatistics()) out.emplace_back(pre + statName(s), s.second->getValue()); for (auto& q : r.getSubreports()) flat(q, q.getName() + ".", out); }
    static double jnum(const rapidjson::Value& v) { if (v.IsString()) { const std::string s = v.GetString(); REQUIRE(s == "nan" || s == "inf" || s == "-inf", "text for a value: " << s); return s == "nan" ? NAN : s == "inf" ? INFINITY : -INFINITY; } REQUIRE(v.IsNumber(), "value is not a number"); return v.GetDouble(); }
    static std::string tail(const std::string& n) { const size_t p = n.rfind('.'); return p == std::string::npos ? n : n.substr(p + 1); }
    void json(const Report& r, const rapidjson::Value& v, bool full, bool omitZero) {
        REQUIRE(v.IsObject(), "report " << r.getName() << " is not an object"); auto i = v.MemberBegin(); std::vector<std::string> keys;
        for (auto& s : r.getStatistics()) {
            const double val = s.second->getValue(); if (omitZero && val == 0) continue; REQUIRE(i != v.MemberEnd(), "statistic " << statName(s) << " is missing from the JSON document"); REQUIRE_EQ(std::string(i->name.GetString()), statName(s), "statistic in the JSON document"); keys.push_back(statName(s)); const rapidjson::Value& x = full ? i->value["val"] : i->value; const double want = std::strtod(num(val).c_str(), nullptr), got = jnum(x); REQUIRE(same(got, want), "JSON value of " << statName(s) << ": " << got << " for " << want);
            if (full) REQUIRE_EQ(i->value["vis"].GetUint64(), uint64_t(s.second->getVisibility()), "visibility in the JSON document"); ++i;
        }
        if (full && !keys.empty()) { REQUIRE(i != v.MemberEnd() && std::string(i->name.GetString()) == "ordered_keys", "no key order in the JSON document"); REQUIRE_EQ(size_t(i->value.Size()), keys.size(), "keys"); for (size_t k = 0; k < keys.size(); ++k) REQUIRE_EQ(std::string(i->value[unsigned(k)].GetString()), keys[k], "key order"); ++i; }
        for (auto& q : r.getSubreports()) { REQUIRE(i != v.MemberEnd(), "subreport " << q.getName() << " is missing from the JSON document"); REQUIRE_EQ(std::string(i->name.GetString()), tail(q.getName()), "subreport in the JSON document"); json(q, i->value, full, omitZero); ++i; }
        REQUIRE(i == v.MemberEnd(), "extra member " << i->name.GetString() << " in the JSON document");
    }
    void py(const Report& r, std::string& o) { o += "\"" + tail(r.getName()) + "\": {"; bool first = true; for (auto& s : r.getStatistics()) if (!s.first.empty()) { const double v = s.second->getValue(); o += (first ? "\"" : ", \"") + s.first + "\": " + (std::isnan(v) ? "float('nan')" : std::isinf(v) ? v < 0 ? "float('-inf')" : "float('inf')" : num(v)); first = false; } for (auto& q : r.getSubreports()) { if (!first) o += ", "; py(q, o); first = false; } o += "}"; }
    void js(const Report& r, const rapidjson::Value& units, rapidjson::Value::ConstMemberIterator& i, std::vector<std::string>& names, int places) {
        if (r.getRecursiveNumStatistics() == 0) return;
        if (r.getNumStatistics() > 0) {
            REQUIRE(i != units.MemberEnd() && std::string(i->name.GetString()) == r.getName(), "unit " << r.getName() << " is missing from the js_json document"); names.push_back(r.getName()); auto k = i->value.MemberBegin(); size_t n = 0; const auto& ok = i->value["ordered_keys"];
            for (auto& s : r.getStatistics()) { REQUIRE_EQ(std::string(k->name.GetString()), statName(s), "statistic in the js_json document"); const double v = s.second->getValue(), want = std::strtod(fixedNum(v, places).c_str(), nullptr), got = jnum(k->value["val"]); REQUIRE(same(got, want), "js_json value of " << statName(s) << ": " << got << " for " << want); REQUIRE_EQ(std::string(ok[unsigned(n)].GetString()), statName(s), "key order in js_json"); ++k; ++n; }
            REQUIRE_EQ(size_t(ok.Size()), n, "keys in js_json"); ++k; REQUIRE(k == i->value.MemberEnd(), "extra statistic in js_json"); ++i;
        }
        for (auto& q : r.getSubreports()) js(q, units, i, names, places);
    }
    void html(const Report& r, std::vector<std::pair<std::string, std::string>>& out) { const int places = int(std::strtoul(r.getStyle("decimal_places", "6").c_str(), nullptr, 0)); for (auto& s : r.getStatistics()) out.emplace_back(statName(s), fixedNum(s.second->getValue(), places)); for (auto& q : r.getSubreports()) html(q, out); }
    void formats(const Report& r) {
        using namespace report::format;
        { Text f(&r); f.setShowSimInfo(false); f.setReportPrefix("R "); std::ostringstream o; o << f; std::string want; text(r, 0, want); REQUIRE_EQ(o.str(), want, "text report"); }
        std::vector<std::pair<std::string, double>> fl; flat(r, "", fl);
        { CSV f(&r); std::ostringstream o; o << f; std::string want = "# report=\"" + r.getName() + "\",start=" + std::to_string(r.getStart()) + ",end=" + (r.isEnded() ? std::to_string(r.getEnd()) : "SIMULATION_END") + "\n", row; for (size_t i = 0; i < fl.size(); ++i) { want += (i ? "," : "") + fl[i].first; row += (i ? "," : "") + num(fl[i].second); } REQUIRE_EQ(o.str(), want + "\n" + row + "\n", "CSV report"); f.updateToStream(o); REQUIRE_EQ(o.str(), want + "\n" + row + "\n" + row + "\n", "CSV row added"); }
        { Gnuplot f(&r); std::ostringstream o; o << f; std::istringstream in(o.str()); std::string line; size_t i = 0; while (std::getline(in, line) && line[0] == '#') ++i; REQUIRE_EQ(i, fl.size(), "columns described in the gnuplot file"); std::istringstream row(line); std::string w; i = 0; while (row >> w) { REQUIRE(i < fl.size() && near(std::strtod(w.c_str(), nullptr), fl[i].second), "gnuplot column " << i << " is " << w); ++i; } REQUIRE_EQ(i, fl.size(), "columns in the gnuplot file"); }
        { PythonDict f(&r); std::ostringstream o; o << f; std::string want = "report = {"; py(r, want); REQUIRE_EQ(o.str(), want + "}\n", "python report"); }
        const bool twice = c.chance(1, 3);
        for (int k = 0; k < 2; ++k) {
            std::unique_ptr<BaseOstreamFormatter> f; if (k) f.reset(new JSON_reduced(&r)); else f.reset(new JSON(&r)); f->setMetadataByNameAndStringValue("key", "val"); bool omit = false; if (k && c.chance(1, 3)) { omit = true; f->omitStatsWithValueZero(); } if (c.chance(1, 3)) f->disablePrettyPrint();
            for (int pass = 0; pass < (twice ? 3 : 1); ++pass) { std::ostringstream o; o << *f; rapidjson::Document d; d.Parse<rapidjson::kParseFullPrecisionFlag>(o.str().c_str()); REQUIRE(!d.HasParseError() && d.IsObject(), "JSON document is not well-formed: " << o.str()); REQUIRE(d["Statistics"].MemberCount() == 1, "one report at the top of the document"); REQUIRE_EQ(std::string(d["Statistics"].MemberBegin()->name.GetString()), tail(r.getName()), "name of the report in the document"); json(r, d["Statistics"].MemberBegin()->value, k == 0, omit); REQUIRE_EQ(std::string(d["report_metadata"]["key"].GetString()), "val", "metadata"); REQUIRE(d.HasMember("siminfo") && d.HasMember("vis"), "members of the document"); }
        }
        { JSON_detail f(&r); std::ostringstream o; o << f; rapidjson::Document d; d.Parse<rapidjson::kParseFullPrecisionFlag>(o.str().c_str()); REQUIRE(!d.HasParseError(), "JSON_detail document is not well-formed: " << o.str()); std::set<std::string> names; std::function<void(const Report&)> walk = [&](const Report& q) { for (auto& s : q.getStatistics()) if (!s.first.empty()) names.insert(s.first); for (auto& s : q.getSubreports()) walk(s); }; walk(r); std::set<std::string> got; for (auto m = d["stat_info"].MemberBegin(); m != d["stat_info"].MemberEnd(); ++m) got.insert(m->name.GetString()); REQUIRE(got == names, "statistics described in JSON_detail: " << got.size() << " for " << names.size()); }
        { JavascriptObject f(&r); std::ostringstream o; o << f; rapidjson::Document d; d.Parse<rapidjson::kParseFullPrecisionFlag>(o.str().c_str()); REQUIRE(!d.HasParseError(), "js_json document is not well-formed: " << o.str()); const rapidjson::Value& u = d["units"]; rapidjson::Value::ConstMemberIterator i = u.MemberBegin(); std::vector<std::string> names; js(r, u, i, names, int(std::strtoul(r.getStyle("decimal_places", "2").c_str(), nullptr, 0))); REQUIRE_EQ(std::string(i->name.GetString()), "ordered_keys", "units in js_json"); REQUIRE_EQ(size_t(i->value.Size()), names.size(), "units in js_json"); for (size_t k = 0; k < names.size(); ++k) REQUIRE_EQ(std::string(i->value[unsigned(k)].GetString()), names[k], "unit order"); }
        { BasicHTML f(&r); f.setShowSimInfo(false); std::ostringstream o; o << f; const std::string h = o.str(); std::vector<std::pair<std::string, std::string>> want, got; html(r, want); size_t p = 0; auto strip = [](std::string s) { std::string t; bool in = false; for (size_t i = 0; i < s.size(); ++i) { if (s[i] == '<') in = true; else if (s[i] == '>') in = false; else if (!in) t += s[i]; } size_t q; while ((q = t.find("&nbsp;")) != std::string::npos) t.erase(q, 6); while ((q = t.find("&lt;")) != std::string::npos) t.replace(q, 4, "<"); while ((q = t.find("&gt;")) != std::string::npos) t.replace(q, 4, ">"); return t; };
          auto cell = [&](const char* cls) { const size_t b = h.find(std::string("<td class='") + cls + "'", p); if (b == std::string::npos) return std::string("\1"); size_t q = b, quotes = 0; for (; q < h.size() && (h[q] != '>' || quotes % 2); ++q) if (h[q] == '\'') ++quotes; const size_t e = h.find("</td>", q); p = e; return strip(h.substr(q + 1, e - q - 1)); };
          while (true) { std::string n = cell("name"); if (n == "\1") break; std::string v = cell("value"); got.emplace_back(n, v); } REQUIRE_EQ(got.size(), want.size(), "cells of the HTML report"); for (size_t i = 0; i < got.size(); ++i) { REQUIRE_EQ(got[i].first, want[i].first, "name in the HTML report"); REQUIRE_EQ(got[i].second, want[i].second, "value of " << got[i].first << " in the HTML report"); } REQUIRE(h.find("</body></html>") != std::string::npos, "end of the HTML document"); }
    }
    void run() {
        MR m; m.name = "main"; std::ostringstream y; const bool yaml = c.chance(5, 6); Report r("main", c.flip() ? &rtn : nullptr); if (!r.getContext()) r.setContext(&rtn);
        if (yaml) { if (c.chance(1, 3)) { m.name = "renamed"; y << "name: \"renamed\"\n"; } y << "content:\n"; content(y, {{&rtn, "", {}, &m}}, "  ", 0); LOG(c, "definition:\n" << y.str()); count(c.range(0, 3)); r.addDefinitionString(y.str()); }
        // calls
        const size_t n = c.range(yaml ? 0 : 1, 4);
        for (size_t i = 0; i < n; ++i) {
            const Leaf& l = leaves[c.range(0, leaves.size() - 1)]; const std::string nm = c.chance(1, 6) ? "" : "api" + std::to_string(i); LOG(c, "add " << l.path << " as " << nm);
            switch (c.range(0, 5)) {
            case 0: r.add(l.node, nm); m.stats.push_back({nm, "top." + l.path, l.f}); break;
            case 1: if (auto* k = dynamic_cast<CounterBase*>(l.node)) r.add(k, nm); else if (auto* d = dynamic_cast<StatisticDef*>(l.node)) r.add(d, nm); else r.add(l.node, nm); m.stats.push_back({nm, "top." + l.path, l.f}); break;
            case 2: r.add(l.path, nm); m.stats.push_back({nm, "top." + l.path, l.f}); break;
            case 3: { if (nm.empty()) break; r.add("1 + " + l.path, nm); const Fn f = l.f; m.stats.push_back({nm, "", [f](auto& a, auto& b) { return 1 + f(a, b); }}); break; }
            case 4: { Report& s = r.addSubreport("sub" + std::to_string(i)); m.subs.emplace_back(); m.subs.back().name = "sub" + std::to_string(i); s.add(l.node, "x"); m.subs.back().stats.push_back({"x", "top." + l.path, l.f}); if (c.chance(1, 4)) { if (c.flip()) REQUIRE_EQ(size_t(r.removeSubreport("sub" + std::to_string(i))), size_t(1), "removed"); else REQUIRE_EQ(size_t(r.removeSubreport(s)), size_t(1), "removed"); REQUIRE(!r.hasSubreport("sub" + std::to_string(i)), "removed subreport is still there"); m.subs.pop_back(); } break; }
            default: if (!m.stats.empty() && !m.stats[0].name.empty()) { const std::string taken = m.stats[0].name; if (c.chance(1, 3)) REQUIRE_THROWS(r.add(l.node, taken), "a second statistic of the same name"); } break;
            }
        }
        if (c.chance(1, 8)) { REQUIRE_THROWS(r.addDefinitionString("content:\n  \"dev.nothing_here\": \"x\"\n"), "a definition of a node that does not exist"); }
        Snap base = snap(); // the window starts at construction; counters have not moved since the statistics were made
        count(c.range(0, 4)); compare(r, m, base, snap());
        // copies and moves keep everything
        std::list<Report> copies; auto pickCopy = [&](Report& from) -> Report& {
            ++copied; switch (c.range(0, 4)) {
            case 0: copies.emplace_back(from); break;
            case 1: copies.emplace_back(); copies.back() = from; break;
            case 2: { Report t(from); copies.emplace_back(std::move(t)); break; }
            case 3: { copies.emplace_back("main", &rtn); for (auto& s : from.getStatistics()) if (!s.first.empty()) { copies.back().add(leaves[0].node, s.first); break; } copies.back().addSubreport("old"); copies.back() = from; break; } // over an earlier content
            default: { copies.emplace_back(m.name, &rtn); copies.back().copyFromReport(from); copies.back().setStyle("s", "t"); m.style.clear(); break; }
            } return copies.back();
        };
        Report* cur = &r; if (c.chance(1, 3)) { cur = &pickCopy(r); LOG(c, "copied"); compare(*cur, m, base, snap()); }
        const size_t steps = c.range(1, 3);
        for (size_t s = 0; s < steps; ++s) {
            switch (c.range(0, 3)) {
            case 0: LOG(c, "start"); cur->start(); base = snap(); REQUIRE_EQ(cur->getStart(), sched.getElapsedTicks(), "start of the window"); break;
            default: break;
            }
            sched.run(c.range(1, 20), true, false); count(c.range(0, 6)); compare(*cur, m, base, snap()); if (s + 1 == steps || c.chance(1, 4)) formats(*cur);
        }
        if (c.flip()) { LOG(c, "end"); cur->end(); const Snap fin = snap(); const auto at = sched.getElapsedTicks(); REQUIRE_EQ(cur->getEnd(), at, "end of the window"); sched.run(5, true, false);
            // an ended window keeps its values; latest values and parameters too
            count(4); compare(*cur, m, base, fin); formats(*cur); }
        c.nontrivial(cur->getRecursiveNumStatistics() >= 3 && wild >= 1 && (nsub >= 1 || nexpr >= 1));
    }
};
PROPERTY(report, 2500, 40000) { World w(c); w.run(); }

// the format of a file is the one its extension or the given format names, otherwise text
PROPERTY(formatName, 2000, 20000) {
    using namespace report::format; static const std::map<std::string, int> ext = {{"txt", 0}, {"text", 0}, {"html", 1}, {"htm", 1}, {"csv", 2}, {"csv_cumulative", 2}, {"js_json", 3}, {"jsjson", 3}, {"python", 4}, {"py", 4}, {"json", 5}, {"JSON", 5}, {"json_reduced", 6}, {"JSON_reduced", 6}, {"json_detail", 7}, {"JSON_detail", 7}, {"gnuplot", 8}, {"gplt", 8}, {"stats_mapping", 9}};
    std::string f = c.str("abtxhjsonpycv._", 0, 12); int want = 0; const bool known = c.flip(); std::string e = "?"; if (known) { auto it = ext.begin(); std::advance(it, c.range(0, ext.size() - 1)); e = it->first; f += "." + e; }
    const size_t dot = f.rfind('.'); if (dot != std::string::npos) { auto it = ext.find(f.substr(dot + 1)); if (it != ext.end()) want = it->second; }
    const FormatterFactory* got = BaseFormatter::determineFactory(f, ""); REQUIRE(got == &BaseFormatter::FACTORIES[want], "format of file \"" << f << "\": " << got->desc << " for " << BaseFormatter::FACTORIES[want].desc);
    if (known) { REQUIRE(BaseFormatter::determineFactory("any.html", e) == &BaseFormatter::FACTORIES[ext.at(e)], "format " << e); REQUIRE(BaseFormatter::isValidFormatName(e), "format name " << e); } else if (!f.empty() && !ext.count(f) && f.find(',') == std::string::npos) REQUIRE(!BaseFormatter::isValidFormatName(f), "format name " << f);
    c.nontrivial(f.size() > 2);
}
} // namespace
