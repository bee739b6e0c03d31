// P05..P07: numerical integration under histories, failing integrands, copies and nesting.
#include "sim.h"
#include "PROPOSAL/math/Integral.h"
#include "PROPOSAL/Constants.h"
#include "PROPOSAL/propagation_utility/PropagationUtilityIntegral.h"
#include <cmath>
#include <memory>
using namespace PROPOSAL;
using namespace sim;

namespace {
struct IntegrandFault : std::runtime_error { IntegrandFault() : std::runtime_error("injected failure of the integrand") {} };

// integrand with a known antiderivative on x > 0
struct Fn {
    int fam = 0; double a = 1, p = 1, s = 1;
    double f(double x) const
    {
        switch (fam) {
        case 0: return a * std::pow(x, p);
        case 1: return a / x;
        case 2: return a * std::exp(-x / s);
        default: return a * (std::pow(x, p) + s * std::pow(x, p + 1));
        }
    }
    double F(double x) const
    {
        auto P = [](double x, double p) { return p == -1 ? std::log(x) : std::pow(x, p + 1) / (p + 1); };
        switch (fam) {
        case 0: return a * P(x, p);
        case 1: return a * std::log(x);
        case 2: return -a * s * std::exp(-x / s);
        default: return a * (P(x, p) + s * P(x, p + 1));
        }
    }
};
Fn gen_fn(Sim& s, double lo, double hi)
{
    Fn g; g.fam = (int)s.pick(4);
    g.a = s.of(std::vector<double>{1, -1, 2.5, -1e-6, 1e5});
    g.p = s.of(std::vector<double>{1, 0, -2, -1.5, 2, 0.5, -1, -3});
    g.s = g.fam == 2 ? (hi + lo) * s.of(std::vector<double>{1, 0.3, 5}) : 1 / hi;
    return g;
}

// One integration request.  The integrand is called through counters so that a
// failure can be injected at an exact evaluation.
struct Req {
    bool ratio = false; int method = 4; double a = 1, b = 2, r = 0.5, pw = 1; Fn g; bool nested = false; long fail_at = -1; int refines = 0;
    bool bad = false;                    // limits the method cannot treat
    int nan_at = -1;
};
std::function<double(double)> fn_of(const Req& q, std::shared_ptr<long> calls, std::shared_ptr<long> fail_at)
{
    Fn g = q.g; bool nested = q.nested; int nan_at = q.nan_at;
    return [=](double x) {
        S.step();
        if ((*calls)++ == *fail_at) throw IntegrandFault();
        if (nan_at >= 0 && *calls - 1 == nan_at) return std::nan("");
        if (nested) {   // the integrand itself integrates (as dE/dx integrands do)
            Integral inner(IROMB, IMAXS, IPREC); Fn h = g;
            double v = inner.Integrate(1, 2, [h](double y) { return y; }, 2);
            return g.f(x) * (v / 1.5);
        }
        return g.f(x);
    };
}
struct Answer { bool threw = false, refused = false; double v = 0; };
// runs the request on an object; *fail_at counts evaluations of this request
Answer run(Integral& I, const Req& q)
{
    auto calls = std::make_shared<long>(0), fail = std::make_shared<long>(q.fail_at); Answer r;
    try {
        auto f = fn_of(q, calls, fail);
        r.v = q.ratio ? I.IntegrateWithRandomRatio(q.a, q.b, f, q.method, q.r, q.pw) : I.Integrate(q.a, q.b, f, q.method, q.pw);
    } catch (IntegrandFault&) { r.threw = true; }
    catch (std::invalid_argument&) { r.threw = r.refused = true; }
    *fail = -1;                          // later evaluations (GetUpperLimit) do not fail by themselves
    return r;
}
Req gen_req(Sim& s)
{
    Req q; q.ratio = s.chance(1, 2);
    q.method = q.ratio ? (s.chance(1, 3) ? 3 : 4) : (int)(5 - s.pick(5));
    q.a = s.of(std::vector<double>{1, 0.01, 20, 1.5, 1e3});
    if (q.method == 5) q.a = std::max(q.a, 1.5);
    double w = q.method == 4 ? s.of(std::vector<double>{3, 1.2, 50, 1e3}) : s.of(std::vector<double>{3, 1.2, 8});
    q.b = q.a * w; q.pw = s.of(std::vector<double>{1, 2, 0.5});
    q.g = gen_fn(s, q.a, q.b);
    if (q.method == 3 && q.pw < 1 && q.g.fam >= 2) q.pw = 1;
    if (q.method == 5 && q.g.fam != 1) { q.g.fam = 0; q.g.p = s.of(std::vector<double>{-2, -1, -1.5}); }
    if (s.chance(1, 3)) std::swap(q.a, q.b);
    if (q.ratio) q.r = s.of(std::vector<double>{0.5, 0.1, 0.9, 0.999, 1e-3, 0, 1, 0.25});
    if (q.ratio && s.chance(1, 4)) q.r = s.unit();
    q.nested = s.chance(1, 8);
    return q;
}
std::string str(const Req& q)
{
    char b[256]; snprintf(b, sizeof b, "method=%d limits=(%.6g,%.6g) fam=%d a=%.3g p=%.3g s=%.3g ratio=%s%.6g power=%.3g nested=%d fail_at=%ld",
        q.method, q.a, q.b, q.g.fam, q.g.a, q.g.p, q.g.s, q.ratio ? "" : "-", q.r, q.pw, q.nested, q.fail_at); return b;
}
struct Ctor { int kind; int maxsteps; std::unique_ptr<Integral> make() const
    { return std::unique_ptr<Integral>(kind == 0 ? new Integral() : kind == 1 ? new Integral(IROMB, IMAXS, IPREC2) : new Integral(5, maxsteps, 1e-6)); } };

// ------------------------------------------------------------------ P05
void p05(Sim& s)
{
    s.scenario("integrator-history");
    struct Obj { std::unique_ptr<Integral> I; Ctor c; bool has = false; Req last; };
    std::vector<Obj> v;
    auto add = [&] { Obj o; o.c = Ctor{(int)s.pick(3), s.of(std::vector<int>{20, 5, 1, 40})}; o.I = o.c.make(); v.push_back(std::move(o)); };
    add();
    int n = s.range(2, s.tier ? 24 : 12);
    for (int i = 0; i < n; ++i) {
        size_t k = s.pick(v.size()); Obj& o = v[k];
        switch (s.pick(10)) {
        default: {
            Req q = gen_req(s);
            if (s.chance(1, 4)) q.fail_at = (long)s.pick(s.chance(1, 2) ? 12 : 400);
            if (s.chance(1, 12)) { q.bad = true; q.a = s.of(std::vector<double>{-2, 0, 0.5}); q.b = s.of(std::vector<double>{-1, 0, 0.9}); if (!q.ratio) q.method = s.of(std::vector<int>{3, 5, 4}); }
            if (s.chance(1, 16)) q.nan_at = (int)s.pick(40);
            s.op("%s m%d%s%s", q.ratio ? "RATIO" : "INTEGRATE", q.method, q.bad ? " bad-limits" : "", q.nan_at >= 0 ? " nan" : "");
            s.log("%s", str(q).c_str());
            Answer got = run(*o.I, q); auto t = o.c.make(); Answer want = run(*t, q);
            S.val(got.v);
            if (got.threw && q.fail_at >= 0) s.fault("integrand.throws");
            if (got.threw != want.threw || !same(got.v, want.v))
                s.fail("integral-history-dependent", "%s gives %s%.17g on a used integrator and %s%.17g on a fresh one", str(q).c_str(), got.threw ? "exception " : "", got.v, want.threw ? "exception " : "", want.v);
            bool positive_only = q.method == 4 || q.method == 5;
            if (!got.refused && !(positive_only && (q.a <= 0 || q.b <= 0)) && (q.a != 0 || q.b != 0)) { o.has = true; o.last = q; o.last.refines = 0; }   // a refused request changes nothing
            if (i) s.nontrivial();
            break; }
        case 4: case 5: case 9: {
            if (!o.has) break;
            s.op("UPPERLIMIT"); double got = o.I->GetUpperLimit();
            auto t = o.c.make(); run(*t, o.last); double want = 0;
            for (int j = 0; j <= o.last.refines; ++j) want = t->GetUpperLimit();
            o.last.refines++; S.val(got);
            if (!same(got, want)) s.fail("upper-limit-history-dependent", "upper limit after %s is %.17g on a used integrator and %.17g on a fresh one", str(o.last).c_str(), got, want);
            s.nontrivial(); break; }
        case 6: { s.op("COPY"); Obj c; c.c = o.c; c.has = o.has; c.last = o.last; c.I.reset(new Integral(*o.I)); v.push_back(std::move(c)); break; }
        case 7: { size_t m = s.pick(v.size()); bool sw = s.chance(1, 3); s.op(sw ? "SWAP" : "ASSIGN");
            if (m == k) { *v[m].I = *v[k].I; break; }
            if (sw) { v[m].I->swap(*v[k].I); std::swap(v[m].c, v[k].c); std::swap(v[m].has, v[k].has); std::swap(v[m].last, v[k].last); }
            else { *v[m].I = *v[k].I; v[m].c = v[k].c; v[m].has = v[k].has; v[m].last = v[k].last; }
            break; }
        case 8: if (s.chance(1, 2) || v.size() < 2) { s.op("NEW"); add(); } else { s.op("DESTROY"); v.erase(v.begin() + k); } break;
        }
    }
}

// a failing integrand inside the search for the upper limit
void p05_fail_in_search(Sim& s)
{
    s.scenario("integrand-fails-in-search");
    Req q = gen_req(s); q.ratio = true; q.method = s.chance(1, 3) ? 3 : 4; if (q.r <= 0 || q.r >= 1) q.r = 0.37;
    s.log("%s", str(q).c_str());
    Ctor c{(int)s.pick(3), 20}; auto I = c.make(), T = c.make();
    auto calls = std::make_shared<long>(0), fail = std::make_shared<long>(-1), never = std::make_shared<long>(-1), cnt = std::make_shared<long>(0);
    I->IntegrateWithRandomRatio(q.a, q.b, fn_of(q, calls, fail), q.method, q.r, q.pw);
    T->IntegrateWithRandomRatio(q.a, q.b, fn_of(q, cnt, never), q.method, q.r, q.pw);
    double want = T->GetUpperLimit();
    for (int k = s.range(1, 4); k-- > 0;) {
        *fail = *calls + (long)s.pick(s.chance(1, 2) ? 30 : 300); s.op("SEARCH with fault");
        bool threw = false; double got = 0;
        try { got = I->GetUpperLimit(); } catch (IntegrandFault&) { threw = true; s.fault("integrand.throws_in_search"); s.nontrivial(); }
        *fail = -1;
        if (!threw) { if (!same(got, want)) s.fail("search-corrupted-by-failure", "upper limit is %.17g instead of %.17g after failed searches (%s)", got, want, str(q).c_str()); return; }
    }
    s.op("HEAL search");
    double got = I->GetUpperLimit(); S.val(got);
    if (!same(got, want)) s.fail("search-corrupted-by-failure", "upper limit is %.17g instead of %.17g after failed searches (%s)", got, want, str(q).c_str());
    Req z = gen_req(s); Answer x = run(*I, z), y = run(*c.make(), z);
    if (x.threw != y.threw || !same(x.v, y.v)) s.fail("search-corrupted-by-failure", "after a failed search, %s gives %.17g instead of %.17g", str(z).c_str(), x.v, y.v);
}

// ------------------------------------------------------------------ P06
double dxdt(const Req& q, double x) { return q.method == 4 ? x : q.pw * std::pow(x, 1 + 1 / q.pw); }
void p06(Sim& s)
{
    s.scenario("integral-and-upper-limit-values");
    Ctor c{(int)s.pick(3), s.of(std::vector<int>{20, 40})}; auto I = c.make();
    for (int k = s.range(1, s.tier ? 10 : 5); k-- > 0;) {
        Req q = gen_req(s);
        if (s.chance(1, 5)) { q.fail_at = (long)s.pick(60); s.op("INTEGRATE with fault"); if (run(*I, q).threw) s.fault("integrand.throws"); continue; }
        if (s.chance(1, 10)) q.b = q.a * (1 + s.of(std::vector<double>{0, 1e-9, 1e-6, -1e-9, 1e-3}));
        if (q.ratio && s.chance(1, 8)) { q.r = s.loguniform(1e-18, 1e-9); if (s.chance(1, 4)) q.r = 1 - q.r; }
        double lo = std::min(q.a, q.b), hi = std::max(q.a, q.b), T = q.g.F(q.b) - q.g.F(q.a), scale = std::fabs(T);
        bool absolute = q.ratio && s.chance(1, 3) && q.r > 0;
        double r = q.r;
        // an absolute target is meant in the direction in which the integral is positive
        if (absolute) { if (T == 0) continue; if (T < 0) q.g.a = -q.g.a; T = std::fabs(T); r = std::min(r, 0.98); q.r = -r * T; }
        s.op("%s m%d %s", q.ratio ? (absolute ? "TARGET" : "RATIO") : "INTEGRATE", q.method, q.a > q.b ? "reversed" : ""); s.log("%s", str(q).c_str());
        Answer g = run(*I, q); S.val(g.v);
        if (g.threw) s.fail("unexpected-exception", "%s threw", str(q).c_str());
        if (hi - lo > lo * 1e-8) {
            double cancel = 1e-13 * (std::fabs(q.g.F(q.a)) + std::fabs(q.g.F(q.b)));
            if (!(std::fabs(g.v - T) <= (q.method == 3 ? 6e-3 : 3e-3) * scale + cancel)) s.fail("integral-wrong", "%s gives %.17g, exact value %.17g", str(q).c_str(), g.v, T);
            s.nontrivial();
        }
        if (!q.ratio) continue;
        int reps = s.range(1, 3);
        for (int j = 0; j < reps; ++j) {
            double x = I->GetUpperLimit(); S.val(x); s.log("upper limit %.17g", x);
            if (!(x >= lo * (1 - 1e-6) && x <= hi * (1 + 1e-6))) s.fail("upper-limit-outside", "upper limit %.17g lies outside the interval: %s (call %d)", x, str(q).c_str(), j + 1);
            double part = q.g.F(x) - q.g.F(q.a), tol = (q.method == 3 ? 1.5e-2 : 4e-3) * scale + 1e-12 * (std::fabs(q.g.F(q.a)) + std::fabs(q.g.F(q.b))) + std::fabs(q.g.f(x) * dxdt(q, x)) * 1e-5;
            if (hi - lo > lo * 1e-8 && !(std::fabs(part - r * T) <= tol))
                s.fail("upper-limit-wrong", "the integral up to the returned limit %.17g is %.17g, requested %.17g: %s (call %d)", x, part, r * T, str(q).c_str(), j + 1);
            s.nontrivial();
        }
    }
}

// ------------------------------------------------------------------ P07
void p07(Sim& s)
{
    s.scenario("energy-integral-history");
    double low = s.of(std::vector<double>{110, 0.6, 1, 2000}); Fn g; g.fam = s.of(std::vector<int>{1, 0, 3}); g.a = -s.of(std::vector<double>{0.5, 1e-3, 40});
    g.p = s.of(std::vector<double>{-1, -0.5, 0, -2}); g.s = 1e-3 / low;
    auto calls = std::make_shared<long>(0), fail = std::make_shared<long>(-1);
    auto f = [=](double E) { S.step(); if ((*calls)++ == *fail) throw IntegrandFault(); return g.f(E); };
    UtilityIntegral u(f, low, 7);
    auto energy = [&] { double e = s.loguniform(low, low * s.of(std::vector<double>{1e3, 2, 1e6})); return s.chance(1, 12) ? low : e; };
    s.log("lower limit %.6g fam=%d a=%.3g p=%.3g", low, g.fam, g.a, g.p);
    int n = s.range(2, s.tier ? 16 : 8); double lastE = 0;
    for (int i = 0; i < n; ++i) {
        double E = (lastE > 0 && s.chance(1, 4)) ? lastE : energy(), E2 = energy(); if (E2 > E) std::swap(E, E2); lastE = E;
        long nth = s.chance(1, 4) ? (long)s.pick(s.chance(1, 2) ? 40 : 600) : -1;
        auto guarded = [&](std::function<double()> op, double& out) {
            if (nth >= 0) { *fail = *calls + nth; }
            bool ok = true; try { out = op(); } catch (IntegrandFault&) { ok = false; s.fault("energy_function.throws"); }
            *fail = -1; return ok; };
        double exact = g.F(E2) - g.F(E), scale = std::fabs(exact) + 1e-12 * (std::fabs(g.F(E)) + std::fabs(g.F(E2)));
        switch (s.pick(4)) {
        case 0: { s.op("CALCULATE"); double v = 0; if (!guarded([&] { return u.Calculate(E, E2); }, v)) break; S.val(v); s.log("%.17g -> %.17g: %.17g", E, E2, v);
            if (E - E2 > 1e-8 * E && !(std::fabs(v - exact) <= 1e-4 * scale)) s.fail("energy-integral-wrong", "integral from %.17g to %.17g is %.17g instead of %.17g", E, E2, v, exact);
            if (E > E2 && !(v >= 0)) s.fail("energy-integral-negative", "integral from %.17g to %.17g is %.17g", E, E2, v);
            UtilityIntegral fresh(f, low, 7); double w = fresh.Calculate(E, E2); if (!same(v, w)) s.fail("energy-integral-history", "%.17g on a used and %.17g on a fresh object", v, w);
            if (i) s.nontrivial(); break; }
        case 1: { s.op("ADDITIVE"); double m = s.loguniform(std::max(E2, low * (1 + 1e-12)), std::max(E, E2 * (1 + 1e-9))), x = 0, y = 0, z = 0;
            if (!(guarded([&] { return u.Calculate(E, m); }, x) && guarded([&] { return u.Calculate(m, E2); }, y) && guarded([&] { return u.Calculate(E, E2); }, z))) break;
            S.val(z); if (!(std::fabs(x + y - z) <= 2e-4 * (std::fabs(x) + std::fabs(y) + std::fabs(z)) + 1e-9 * scale)) s.fail("energy-integral-not-additive", "(%.17g,%.17g,%.17g): %.17g + %.17g != %.17g", E, m, E2, x, y, z);
            s.nontrivial(); break; }
        default: { // forward, then back
            double avail = g.F(low) - g.F(E), frac = s.chance(1, 6) ? s.of(std::vector<double>{0, 1, 1.0 + 1e-3, 2, 1e-9, 1 - 1e-9}) : s.unit(), want = frac * avail;
            s.op("INVERSE%s", frac > 1 ? " beyond" : ""); double e = 0; bool beyond = false, ok = false;
            try { ok = guarded([&] { return u.GetUpperLimit(E, want); }, e); } catch (std::logic_error&) { beyond = true; *fail = -1; }
            s.log("E=%.17g target=%.17g of %.17g -> %.17g%s", E, want, avail, e, beyond ? " refused" : ok ? "" : " failed");
            if (beyond) { if (frac < 0.999) s.fail("energy-inverse-refused", "a reachable target %.17g of %.17g from %.17g was refused", want, avail, E); s.nontrivial(); break; }
            if (!ok) break;
            S.val(e);
            if (frac > 1.0005 && avail > 0) s.fail("energy-inverse-beyond", "an unreachable target %.17g of %.17g from %.17g was answered with %.17g", want, avail, E, e);
            if (!(e >= low * (1 - 1e-6) && e <= E * (1 + 1e-6))) s.fail("energy-inverse-outside", "result %.17g lies outside [%.17g, %.17g]", e, low, E);
            double back = g.F(e) - g.F(E);
            if (E > low * (1 + 1e-8) && !(std::fabs(back - want) <= 3e-4 * std::fabs(avail) + std::fabs(g.f(e) * e) * 1e-6)) s.fail("energy-inverse-wrong", "from %.17g a target of %.17g (of %.17g) gives energy %.17g, which corresponds to %.17g", E, want, avail, e, back);
            UtilityIntegral fresh(f, low, 7); double w = fresh.GetUpperLimit(E, want); if (!same(e, w)) s.fail("energy-integral-history", "%.17g on a used and %.17g on a fresh object", e, w);
            s.nontrivial(); }
        }
    }
}
DST_SCENARIO_W("P05", p05, 3);
DST_SCENARIO("P05", p05_fail_in_search);
DST_SCENARIO("P06", p06);
DST_SCENARIO("P07", p07);
} // namespace
