// C22: statistic expressions against an evaluator over their syntax tree.
#include "sp.hpp"
#include "sparta/statistics/Counter.hpp"
#include "sparta/statistics/StatisticDef.hpp"
#include "sparta/statistics/StatisticInstance.hpp"
#include "sparta/statistics/StatisticSet.hpp"
#include "sparta/statistics/Expression.hpp"
#include "sparta/simulation/Parameter.hpp"
#include "sparta/simulation/ParameterSet.hpp"
#include <boost/math/constants/constants.hpp>
#include <cmath>
#include <functional>
#include <memory>
using namespace sparta;
using Expression = statistics::expression::Expression;

namespace {
struct Params : ParameterSet { Params(TreeNode* n) : ParameterSet(n) {} PARAMETER(uint32_t, width, 7, "width") PARAMETER(double, nan_ratio, 0.25, "ratio") };
struct Ast { char op; std::string name; double num = 0; int var = -1; std::vector<std::unique_ptr<Ast>> kids; }; // op: n number, v variable, k named constant, u sign, + - * / ^, f function
using P = std::unique_ptr<Ast>;
namespace bc = boost::math::constants;
const std::vector<std::pair<std::string, double>>& consts() { static const std::vector<std::pair<std::string, double>> v = {{"c_pi", bc::pi<double>()}, {"c_root_pi", bc::root_pi<double>()}, {"c_root_half_pi", bc::root_half_pi<double>()}, {"c_root_two_pi", bc::root_two_pi<double>()}, {"c_root_ln_four", bc::root_ln_four<double>()}, {"c_e", bc::e<double>()}, {"c_half", 0.5}, {"c_euler", bc::euler<double>()}, {"c_root_two", bc::root_two<double>()}, {"c_ln_two", bc::ln_two<double>()}, {"c_ln_ln_two", bc::ln_ln_two<double>()}, {"c_third", bc::third<double>()}, {"c_twothirds", bc::twothirds<double>()}, {"c_pi_minus_three", bc::pi_minus_three<double>()}, {"c_four_minus_pi", bc::four_minus_pi<double>()}, {"c_nan", NAN}, {"c_inf", INFINITY}}; return v; }
struct F1 { const char* n; double (*f)(double); };
const F1 f1[] = {{"abs", [](double x) { return std::fabs(x); }}, {"fabs", [](double x) { return std::fabs(x); }}, {"acos", [](double x) { return std::acos(x); }}, {"asin", [](double x) { return std::asin(x); }}, {"atan", [](double x) { return std::atan(x); }}, {"ceil", [](double x) { return std::ceil(x); }}, {"trunc", [](double x) { return std::trunc(x); }}, {"round", [](double x) { return std::round(x); }}, {"cos", [](double x) { return std::cos(x); }}, {"cosh", [](double x) { return std::cosh(x); }}, {"exp", [](double x) { return std::exp(x); }}, {"exp2", [](double x) { return std::exp2(x); }}, {"floor", [](double x) { return std::floor(x); }}, {"ln", [](double x) { return std::log(x); }}, {"log2", [](double x) { return std::log2(x); }}, {"log10", [](double x) { return std::log10(x); }}, {"sin", [](double x) { return std::sin(x); }}, {"sinh", [](double x) { return std::sinh(x); }}, {"sqrt", [](double x) { return std::sqrt(x); }}, {"cbrt", [](double x) { return std::cbrt(x); }}, {"tan", [](double x) { return std::tan(x); }}, {"tanh", [](double x) { return std::tanh(x); }}, {"isnan", [](double x) { return double(std::isnan(x)); }}, {"isinf", [](double x) { return double(std::isinf(x)); }}, {"signbit", [](double x) { return double(std::signbit(x)); }}, {"logb", [](double x) { return std::logb(x); }}, {"erf", [](double x) { return std::erf(x); }}, {"erfc", [](double x) { return std::erfc(x); }}, {"lgamma", [](double x) { return std::lgamma(x); }}, {"tgamma", [](double x) { return std::tgamma(x); }}};
struct F2 { const char* n; double (*f)(double, double); };
const F2 f2[] = {{"pow", [](double a, double b) { return std::pow(a, b); }}, {"atan2", [](double a, double b) { return std::atan2(a, b); }}, {"min", [](double a, double b) { return b < a ? b : a; }}, {"max", [](double a, double b) { return a < b ? b : a; }}, {"ifnan", [](double a, double b) { return std::isfinite(a) ? a : b; }}, {"fmod", [](double a, double b) { return std::fmod(a, b); }}, {"remainder", [](double a, double b) { return std::remainder(a, b); }}, {"hypot", [](double a, double b) { return std::hypot(a, b); }}, {"is_greater", [](double a, double b) { return double(a > b); }}, {"is_lesser", [](double a, double b) { return double(a < b); }}, {"is_equal", [](double a, double b) { return double(a == b); }}, {"is_not_equal", [](double a, double b) { return double(a != b); }}, {"is_greater_equal", [](double a, double b) { return double(a >= b); }}, {"is_lesser_equal", [](double a, double b) { return double(a <= b); }}, {"logical_and", [](double a, double b) { return double(a && b); }}, {"logical_or", [](double a, double b) { return double(a || b); }}};
template<class T, size_t N> constexpr size_t len(const T (&)[N]) { return N; }
const char* const NAMES[] = {"xa", "ya", "xaya", "inflight", "nan_count", "infinity_x", "c_e_total", "c_pie", "cycles_busy", "freq_mhz_x", "g_ticksy", "abs", "min", "log2x", "cond", "e5", "Upper_Case", "INFO", "c_third_try", "maxed", "x_9"};

struct World {
    pbt::Case& c; Scheduler sched; ClockManager cm{&sched}; Clock::Handle root, fast, slow; RootTreeNode rtn{"top", "stats"}; TreeNode dev{&rtn, "dev", "dev"}; std::unique_ptr<Params> params; StatisticSet ss{&dev};
    struct Var { std::string name; Counter* ctr = nullptr; uint64_t v = 0; double fixed = 0; int time = 0; }; std::vector<Var> vars; size_t nodes = 0, evals = 0, refused = 0; bool odd = false; sp::Teardown td{rtn};
    World(pbt::Case& cc) : c(cc) {
        root = cm.makeRoot(); fast = cm.makeClock("fast", root, 1000.0); slow = cm.makeClock("slow", root, 250.0); cm.normalize(); rtn.setClock(fast.get()); dev.setClock(fast.get()); params.reset(new Params(&dev));
        const size_t n = c.range(2, 6); std::set<size_t> used; while (used.size() < n) { const size_t k = c.range(0, len(NAMES) - 1); size_t j = k; while (used.count(j)) j = (j + 1) % len(NAMES); used.insert(j); Var v; v.name = NAMES[j]; v.ctr = &ss.createCounter<Counter>(v.name, "d", c.chance(1, 3) ? CounterBase::COUNT_LATEST : CounterBase::COUNT_NORMAL); vars.push_back(v); }
        vars.push_back({"width", nullptr, 0, 7, 0}); vars.push_back({"nan_ratio", nullptr, 0, 0.25, 0});
        for (int t = 1; t <= 8; ++t) { static const char* const tn[] = {"", "g_ticks", "g_picoseconds", "g_nanoseconds", "g_microseconds", "g_milliseconds", "g_seconds", "cycles", "freq_mhz"}; vars.push_back({tn[t], nullptr, 0, 0, t}); }
        rtn.enterConfiguring(); rtn.enterFinalized(); sched.finalize();
    }
    TreeNode* ctx(int k) { return k == 0 ? static_cast<TreeNode*>(&rtn) : k == 1 ? &dev : static_cast<TreeNode*>(&ss); }
    std::string varName(const Var& v, int k) { if (v.time) return v.name; const std::string in = v.ctr ? "stats." : "params."; return k == 0 ? "dev." + in + v.name : k == 1 ? in + v.name : v.name; }
    double raw(const Var& v) const {
        if (v.ctr) return double(v.ctr->get()); const double ps = double(sched.getElapsedTicks());
        switch (v.time) { case 0: return v.fixed; case 1: return double(sched.getElapsedTicks()); case 2: return ps; case 3: return ps / 1e3; case 4: return ps / 1e6; case 5: return ps / 1e9; case 6: return ps / 1e12; case 7: return double(fast->getCyclesROCounter().get()); default: return fast->getFrequencyMhz(); }
    }
    std::vector<double> snap() const { std::vector<double> r; for (auto& v : vars) r.push_back(raw(v)); return r; }
    bool delta(const Var& v) const { return (v.ctr && v.ctr->getBehavior() != CounterBase::COUNT_LATEST) || (v.time >= 1 && v.time <= 7); }
    // generation
    P leaf(int k) {
        P a(new Ast); switch (c.weighted({4, 6, 2})) {
        case 0: { a->op = 'n'; static const char* const forms[] = {"0", "1", "2", "3", "10", "7.5", ".5", "5.", "1e3", "2.5e-2", "1E2", "123456789", "0.1", "1e300", "3e-5", "1.0e+2"}; a->name = c.pickl({0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}) ? forms[c.range(0, 15)] : std::to_string(c.range(0, 99)); a->num = std::strtod(a->name.c_str(), nullptr); break; }
        case 1: { a->op = 'v'; do a->var = int(c.range(0, vars.size() - 1)); while (k == 2 && !vars[a->var].ctr && !vars[a->var].time); a->name = varName(vars[a->var], k); if (vars[a->var].time) a->name = caseMix(a->name); if (vars[a->var].time == 7 && c.flip()) a->name += "(" + sp() + varName(vars[0], k) + (c.flip() ? " + 2" : "") + ")"; break; }
        default: { a->op = 'k'; auto& p = c.pick(consts()); a->name = caseMix(p.first); a->num = p.second; } }
        return a;
    }
    std::string caseMix(std::string s) { if (c.chance(1, 6)) for (auto& ch : s) if (c.flip()) ch = char(toupper(ch)); return s; }
    P gen(int depth, int k) {
        ++nodes; if (depth == 0 || c.chance(1, 5)) return leaf(k);
        P a(new Ast); switch (c.weighted({10, 3, 4, 3, 1})) {
        case 0: a->op = c.pickl({'+', '-', '*', '/', '^'}); a->kids.push_back(gen(depth - 1, k)); a->kids.push_back(gen(depth - 1, k)); break;
        case 1: a->op = 'u'; a->name = c.chance(3, 4) ? "-" : "+"; a->kids.push_back(gen(depth - 1, k)); break;
        case 2: { a->op = 'f'; a->var = int(c.range(0, len(f1) - 1)); a->name = caseMix(f1[a->var].n); a->kids.push_back(gen(depth - 1, k)); break; }
        case 3: { a->op = 'f'; a->var = int(c.range(0, len(f2) - 1)); a->name = caseMix(f2[a->var].n); a->kids.push_back(gen(depth - 1, k)); a->kids.push_back(gen(depth - 1, k)); break; }
        default: a->op = 'f'; a->name = caseMix("cond"); for (int i = 0; i < 3; ++i) a->kids.push_back(gen(depth - 1, k)); }
        return a;
    }
    std::string sp() { return c.chance(1, 4) ? std::string(c.range(1, 3), ' ') : std::string(); }
    std::string text(const Ast& a, int min) { // levels: 1 sum, 2 product, 3 power, 4 primary
        int level = 4; std::string s;
        switch (a.op) {
        case 'n': case 'v': case 'k': s = a.name; break;
        case 'u': s = a.name + sp() + text(*a.kids[0], 4); break;
        case 'f': s = a.name + sp() + "("; for (size_t i = 0; i < a.kids.size(); ++i) s += (i ? "," : "") + sp() + text(*a.kids[i], 1) + sp(); s += ")"; break;
        case '+': case '-': level = 1; s = text(*a.kids[0], 1) + sp() + a.op + sp() + text(*a.kids[1], 2); break;
        case '*': case '/': level = 2; s = text(*a.kids[0], 2) + sp() + a.op + sp() + text(*a.kids[1], 3); break;
        default: level = 3; s = text(*a.kids[0], 4) + sp() + "**" + sp() + text(*a.kids[1], 3); }
        if (level < min || c.chance(1, 12)) s = "(" + sp() + s + sp() + ")";
        return s;
    }
    // evaluation; odd is set when the result depends on the sign of a NaN
    double eval(const Ast& a, const std::vector<double>& base, const std::vector<double>& cur) {
        switch (a.op) {
        case 'n': case 'k': return a.num;
        case 'v': return delta(vars[a.var]) ? (vars[a.var].time >= 3 && vars[a.var].time <= 6 ? (cur[vars.size() - 7] - base[vars.size() - 7]) / (vars[a.var].time == 3 ? 1e3 : vars[a.var].time == 4 ? 1e6 : vars[a.var].time == 5 ? 1e9 : 1e12) : cur[a.var] - base[a.var]) : cur[a.var];
        case 'u': { const double x = eval(*a.kids[0], base, cur); return a.name == "-" ? -x : x; }
        case 'f': { double x[3] = {}; for (size_t i = 0; i < a.kids.size(); ++i) x[i] = eval(*a.kids[i], base, cur); if (a.kids.size() == 1) { if (std::string(f1[a.var].n) == "signbit" && std::isnan(x[0])) odd = true; return f1[a.var].f(x[0]); } if (a.kids.size() == 2) return f2[a.var].f(x[0], x[1]); return x[0] != 0 ? x[1] : x[2]; }
        default: { const double x = eval(*a.kids[0], base, cur), y = eval(*a.kids[1], base, cur); return a.op == '+' ? x + y : a.op == '-' ? x - y : a.op == '*' ? x * y : a.op == '/' ? x / y : std::pow(x, y); } }
    }
    // the same tree through the C++ interface
    Expression build(const Ast& a, int k) {
        switch (a.op) {
        case '+': case '-': case '*': case '/': { Expression x = build(*a.kids[0], k); const Expression y = build(*a.kids[1], k); if (c.flip()) { if (a.op == '+') x += y; else if (a.op == '-') x -= y; else if (a.op == '*') x *= y; else x /= y; return x; } return a.op == '+' ? x + y : a.op == '-' ? x - y : a.op == '*' ? x * y : x / y; }
        case 'u': { const Expression x = build(*a.kids[0], k); return a.name == "-" ? -x : +x; }
        case 'n': case 'k': if (c.flip()) { return Expression(a.num); } else { Expression e; e = a.num; return e; }
        case '^': { const Expression x = build(*a.kids[0], k), y = build(*a.kids[1], k); return c.flip() ? Expression("pow", static_cast<double (*)(double, double)>(&std::pow), x, y) : x.bfunc("pow", static_cast<double (*)(double, double)>(&std::pow), x, y); }
        default: return Expression(text(a, 1), ctx(k)); }
    }
    void same(double got, double want, const std::string& t, const char* how) { ++evals; if (odd) return; if (std::isnan(want) ? std::isnan(got) : got == want) return; if (std::isfinite(want) && std::fabs(got - want) <= 1e-12 * std::fabs(want) && t.find("g_") != std::string::npos) return; REQUIRE(false, how << ": " << t << " is " << got << " instead of " << want); }
    void change() { for (size_t n = c.range(0, 4); n; --n) { auto& v = vars[c.range(0, vars.size() - 11)]; if (!v.ctr) continue; const auto x = c.bits(c.range(1, 20)); LOG(c, v.name << (v.ctr->getBehavior() == CounterBase::COUNT_LATEST ? " = " : " += ") << x); if (v.ctr->getBehavior() == CounterBase::COUNT_LATEST) v.ctr->set(x); else *v.ctr += x; } if (c.flip()) { const auto n = c.small(1, 3000); LOG(c, "run " << n); sched.run(n, true, false); } }
    void good() {
        const int k = int(c.range(0, 2)); P a = gen(int(c.range(0, 4)), k); const std::string t = sp() + text(*a, 1) + sp(); LOG(c, "expression " << t); odd = false;
        auto base = snap(); Expression e = c.chance(1, 3) ? build(*a, k) : Expression(t, ctx(k)); REQUIRE(e.hasContent(), "empty expression");
        std::unique_ptr<Expression> copy; std::vector<double> copyBase;
        for (size_t n = c.range(1, 3); n; --n) {
            change(); if (c.chance(1, 5)) { LOG(c, "start"); e.start(); base = snap(); }
            if (c.chance(1, 6)) { if (c.flip()) copy.reset(new Expression(e)); else { copy.reset(new Expression("1+2", ctx(0))); *copy = e; } copyBase = base; }
            same(e.evaluate(), eval(*a, base, snap()), t, "expression"); if (copy) same(copy->evaluate(), eval(*a, copyBase, snap()), t, "copied expression");
        }
        if (c.chance(1, 4)) { e.end(); const double v = eval(*a, base, snap()); change(); bool frozen = true; std::function<void(const Ast&)> f = [&](const Ast& x) { for (auto& y : x.kids) f(*y); }; f(*a); if (frozen) same(e.evaluate(), v, t, "ended expression"); }
    }
    void bad() {
        const int k = int(c.range(0, 2)); P a = gen(int(c.range(0, 2)), k), b = gen(1, k); const std::string A = text(*a, 1), B = text(*b, 1), pA = text(*a, 4); std::string t;
        switch (c.range(0, 17)) { case 0: t = A + ")"; break; case 1: t = "(" + A; break; case 2: t = A + " " + c.pickl({'+', '-', '*', '/'}); break; case 3: t = std::string(1, c.pickl({'*', '/', ')', ','})) + A; break; case 4: t = "(" + A + ") (" + B + ")"; break; case 5: t = "(" + A + ") " + B; if (B[0] == '-' || B[0] == '+') t = "(" + A + ") (" + B + ")"; break; case 6: t = A + " // " + B; break; case 7: t = A + " $ " + B; break; case 8: t = "no_such_node + " + A; break; case 9: t = ""; break; case 10: t = "abs(" + A + "," + B + ")"; break; case 11: t = "min(" + A + ")"; break; case 12: t = "cond(" + A + "," + B + ")"; break; case 13: t = "no_such_function(" + A + ")"; break; case 14: t = A + " ** "; break; case 15: t = "()"; break; case 16: t = A + " % " + B; break;
        default: { // two names next to each other are not one name
            auto find = [&](const char* n) { for (auto& v : vars) if (v.name == n) return true; return false; }; if (!find("xa") || !find("xaya")) return; const std::string p = varName(vars[0], k); const std::string pre = k == 0 ? "dev.stats." : k == 1 ? "stats." : ""; t = pre + "xa ya"; } }
        LOG(c, "refused: " << t); ++refused; REQUIRE_THROWS(Expression(t, ctx(k)), "the malformed expression '" << t << "'");
    }
    void run() { const size_t n = c.range(2, 5); for (size_t i = 0; i < n; ++i) { if (c.chance(1, 12)) bad(); else good(); change(); } }
};
}

PROPERTY(expressions, 30000, 600000) { World w(c); w.run(); c.nontrivial(w.nodes >= 8 && w.evals >= 4); }
