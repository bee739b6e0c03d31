// P17 density distributions, P18 polynomials and splines (in memory and on disk)
#include "rng.h"
#include "PROPOSAL/density_distr/density_distr.h"
#include "PROPOSAL/density_distr/density_exponential.h"
#include "PROPOSAL/density_distr/density_homogeneous.h"
#include "PROPOSAL/density_distr/density_polynomial.h"
#include "PROPOSAL/density_distr/density_splines.h"
#include "PROPOSAL/math/Spline.h"
#include "PROPOSAL/medium/Medium.h"
#include <nlohmann/json.hpp>
#include <sstream>
using namespace PROPOSAL;
using namespace sim;
typedef long double ld;
namespace {
// ------------------------------------------------------------------ reference functions
struct RefSpline {                                            // piecewise polynomials in (x - knot)
    std::vector<ld> x; std::vector<std::array<ld, 4>> p;
    static RefSpline make(const std::vector<double>& X, const std::vector<double>& Y, bool cubic)
    {
        RefSpline r; size_t n = X.size() - 1; r.x.assign(X.begin(), X.end()); r.p.assign(n, {0, 0, 0, 0});
        std::vector<ld> M(n + 1, 0);                          // second derivatives, zero at the ends
        if (cubic && n > 1) {
            std::vector<ld> a(n + 1), b(n + 1), c(n + 1), d(n + 1);
            for (size_t i = 1; i < n; ++i) { ld h0 = r.x[i] - r.x[i - 1], h1 = r.x[i + 1] - r.x[i]; a[i] = h0; b[i] = 2 * (h0 + h1); c[i] = h1; d[i] = 6 * (((ld)Y[i + 1] - Y[i]) / h1 - ((ld)Y[i] - Y[i - 1]) / h0); }
            for (size_t i = 2; i < n; ++i) { ld m = a[i] / b[i - 1]; b[i] -= m * c[i - 1]; d[i] -= m * d[i - 1]; }
            for (size_t i = n - 1; i >= 1; --i) M[i] = (d[i] - c[i] * (i + 1 < n ? M[i + 1] : 0)) / b[i];
        }
        for (size_t i = 0; i < n; ++i) { ld h = r.x[i + 1] - r.x[i]; r.p[i] = {(ld)Y[i], ((ld)Y[i + 1] - Y[i]) / h - h * (2 * M[i] + M[i + 1]) / 6, M[i] / 2, (M[i + 1] - M[i]) / (6 * h)}; }
        return r;
    }
    size_t at(ld t) const { size_t i = 0; while (i + 1 < p.size() && t > x[i + 1]) ++i; return i; }
    ld eval(ld t) const { size_t i = at(t); ld u = t - x[i]; auto& q = p[i]; return q[0] + u * (q[1] + u * (q[2] + u * q[3])); }
    ld prim(size_t i, ld t) const { ld u = t - x[i]; auto& q = p[i]; return u * (q[0] + u * (q[1] / 2 + u * (q[2] / 3 + u * q[3] / 4))); }
    ld integral(ld a, ld b) const
    {
        if (a > b) return -integral(b, a);
        ld s = 0; size_t n = p.size();
        for (size_t i = 0; i < n; ++i) { ld lo = i == 0 ? a : std::max(a, x[i]), hi = i + 1 == n ? b : std::min(b, x[i + 1]); if (i == 0) lo = a; if (lo < hi) s += prim(i, hi) - prim(i, lo); }
        return s;
    }
};
struct Dens {                                                 // a density and its reference
    int kind = 0; bool radial = false; Cartesian3D fp{0, 0, 0}, ax{1, 0, 0}; double rho = 1, sigma = 1, d0 = 0; std::vector<double> coef, X, Y; bool cubic = false; RefSpline sp;
    ld f(ld d) const
    {
        switch (kind) {
        case 0: return rho;
        case 1: return rho * expl((d - d0) / sigma);
        case 2: { ld v = 0; for (size_t i = coef.size(); i-- > 0;) v = v * d + coef[i]; return rho * v; }
        default: return rho * sp.eval(d);
        }
    }
    ld F(ld a, ld b) const                                    // integral over the depth
    {
        switch (kind) {
        case 0: return rho * (b - a);
        case 1: return rho * sigma * expl((a - d0) / sigma) * expm1l((b - a) / sigma);
        case 2: { ld v = 0; for (size_t i = coef.size(); i-- > 0;) v += coef[i] / (ld)(i + 1) * (powl(b, i + 1) - powl(a, i + 1)); return rho * v; }
        default: return rho * sp.integral(a, b);
        }
    }
    ld depth(const ld* x) const { ld s = 0; if (radial) { for (int i = 0; i < 3; ++i) s += (x[i] - fp[i]) * (x[i] - fp[i]); return sqrtl(s); } for (int i = 0; i < 3; ++i) s += (ld)ax[i] * (x[i] - (ld)fp[i]); return s; }
    ld depth(const Cartesian3D& p) const { ld x[3] = {p[0], p[1], p[2]}; return depth(x); }
    ld slope(const Cartesian3D& p, const Cartesian3D& d) const { ld s = 0; if (radial) { ld r = depth(p); for (int i = 0; i < 3; ++i) s += ((ld)p[i] - fp[i]) / r * d[i]; return s; } for (int i = 0; i < 3; ++i) s += (ld)ax[i] * d[i]; return s; }
    // along the path, with the depth taken linear in the distance (exact except for a radial axis off the radius)
    ld path(const Cartesian3D& p, const Cartesian3D& d, ld l) const { if (kind == 0) return rho * l; ld a = depth(p), k = slope(p, d); if (fabsl(k * l) < 1e-14L * (fabsl(a) + 1e-300L) || k == 0) return f(a) * l; if (kind == 1) return f(a) * expm1l(k * l / sigma) * sigma / k; return F(a, a + k * l) / k; }
    ld scale(const Cartesian3D& p, const Cartesian3D& d, ld l) const { if (kind == 0) return rho; ld a = depth(p), k = slope(p, d), m = 0; for (int i = 0; i <= 16; ++i) { ld t = a + k * l * i / 16; ld v; if (kind == 2) { v = 0; for (size_t j = 0; j < coef.size(); ++j) v += fabsl(coef[j]) * powl(fabsl(t), j); v *= rho; } else if (kind == 3) { auto q = sp.at(t); v = 0; for (int j = 0; j < 4; ++j) v += fabsl(sp.p[q][j]) * powl(fabsl(t) + fabsl(sp.x[q]), j); v *= rho; } else v = fabsl(f(t)); m = std::max(m, v); } return m; }
    ld minimum(const Cartesian3D& p, const Cartesian3D& d, ld l) const { ld a = depth(p), k = kind ? slope(p, d) : 0, m = 1e300L; for (int i = 0; i <= 200; ++i) m = std::min(m, f(a + k * l * i / 200)); return m; }
};
std::string str(const Dens& g)
{
    std::ostringstream o; o.precision(17); const char* n[] = {"homogeneous", "exponential", "polynomial", "spline"}; o << n[g.kind] << " rho " << g.rho;
    if (g.kind) o << (g.radial ? " radial from (" : " cartesian from (") << g.fp[0] << "," << g.fp[1] << "," << g.fp[2] << ")"; if (g.kind && !g.radial) o << " axis (" << g.ax[0] << "," << g.ax[1] << "," << g.ax[2] << ")";
    if (g.kind == 1) o << " sigma " << g.sigma << " d0 " << g.d0;
    if (g.kind == 2) for (auto c : g.coef) o << " " << c;
    if (g.kind == 3) { o << (g.cubic ? " cubic" : " linear"); for (size_t i = 0; i < g.X.size(); ++i) o << " (" << g.X[i] << "," << g.Y[i] << ")"; }
    return o.str();
}
Cartesian3D unit_dir(Sim& s)
{
    if (s.chance(1, 3)) return s.of(std::vector<Cartesian3D>{Cartesian3D(0, 0, 1), Cartesian3D(0, 0, -1), Cartesian3D(1, 0, 0), Cartesian3D(0, -1, 0), Cartesian3D(-1, 0, 0), Cartesian3D(0, 1, 0)});
    double c = s.uniform(-1, 1), f = s.uniform(0, 6.283), q = std::sqrt(1 - c * c); return Cartesian3D(q * std::cos(f), q * std::sin(f), c);
}
Dens gen(Sim& s, double L)                                    // L: length scale
{
    Dens g; g.kind = s.pick(4); g.radial = s.chance(1, 2); g.rho = s.of(std::vector<double>{1, 0.917, 2.65, 1.2e-3});
    if (s.pick(2)) g.fp = Cartesian3D(L * s.uniform(-2, 2), L * s.uniform(-2, 2), L * s.uniform(-2, 2));
    g.ax = unit_dir(s); if (!g.radial && s.chance(1, 5)) g.ax = s.uniform(0.3, 2) * g.ax;
    g.sigma = L * s.loguniform(0.2, 20) * (s.pick(2) ? 1 : -1); g.d0 = s.pick(2) ? L * s.uniform(-2, 2) : 0;
    int n = s.range(1, 5); for (int i = 0; i < n; ++i) g.coef.push_back((i ? s.uniform(-0.3, 0.5) : s.uniform(0.5, 3)) / std::pow(L, i));
    int k = s.range(2, 7); double x = L * s.uniform(-4, 0); for (int i = 0; i < k; ++i) { g.X.push_back(x); g.Y.push_back(s.uniform(0.3, 3)); x += L * s.uniform(0.3, 2); }
    g.cubic = s.pick(2); g.sp = RefSpline::make(g.X, g.Y, g.cubic); return g;
}
std::unique_ptr<Axis> axis(const Dens& g) { if (g.radial) return std::make_unique<RadialAxis>(g.fp); return std::make_unique<CartesianAxis>(g.ax, g.fp); }
std::shared_ptr<Density_distr> build(const Dens& g)
{
    auto a = axis(g);
    switch (g.kind) {
    case 0: return std::make_shared<Density_homogeneous>(g.rho);
    case 1: return std::make_shared<Density_exponential>(*a, g.sigma, g.d0, g.rho);
    case 2: return std::make_shared<Density_polynomial>(*a, Polynom(g.coef), g.rho);
    default: if (g.cubic) return std::make_shared<Density_splines>(*a, Cubic_Spline(g.X, g.Y), g.rho); return std::make_shared<Density_splines>(*a, Linear_Spline(g.X, g.Y), g.rho);
    }
}
nlohmann::json to_json(const Dens& g)
{
    nlohmann::json j; const char* n[] = {"homogeneous", "exponential", "polynomial", "spline"}; j["type"] = n[g.kind]; j["mass_density"] = g.rho;
    if (g.kind) { j["axis_type"] = g.radial ? "radial" : "cartesian"; j["fp0"] = {g.fp[0], g.fp[1], g.fp[2]}; if (!g.radial) j["fAxis"] = {g.ax[0], g.ax[1], g.ax[2]}; }
    if (g.kind == 1) { j["sigma"] = g.sigma; j["d0"] = g.d0; }
    if (g.kind == 2) j["coefficients"] = g.coef;
    if (g.kind == 3) { j["spline_type"] = g.cubic ? "cubic" : "linear"; j["x"] = g.X; j["y"] = g.Y; }
    return j;
}
std::shared_ptr<Density_distr> dup(Sim& s, const Density_distr& d)
{
    if (s.pick(2)) return std::shared_ptr<Density_distr>(d.clone());
    if (auto p = dynamic_cast<const Density_homogeneous*>(&d)) return std::make_shared<Density_homogeneous>(*p);
    if (auto p = dynamic_cast<const Density_exponential*>(&d)) return std::make_shared<Density_exponential>(*p);
    if (auto p = dynamic_cast<const Density_polynomial*>(&d)) return std::make_shared<Density_polynomial>(*p);
    return std::make_shared<Density_splines>(dynamic_cast<const Density_splines&>(d));
}
void check(Sim& s, const Density_distr& o, const Dens& g, double L)
{
    Cartesian3D p(L * s.uniform(-2, 2), L * s.uniform(-2, 2), L * s.uniform(-2, 2)); Cartesian3D d = unit_dir(s); bool exact = !g.radial || g.kind == 0;
    if (g.kind && g.radial) {
        if (g.depth(p) < 0.2 * L) p = g.fp + L * unit_dir(s);
        if (s.chance(2, 3)) { Cartesian3D r = p - g.fp; r.normalize(); bool out = s.pick(2); d = out ? r : -r; exact = true; }   // along the radius
    } else if (g.kind && s.chance(1, 6)) { auto t = vector_product(g.ax, Cartesian3D(0.3, 0.5, 0.8)); if (t.magnitude() > 1e-3) { t.normalize(); d = t; } if (s.pick(2)) { double c[3] = {g.ax[0], g.ax[1], g.ax[2]}; int z = -1; for (int i = 0; i < 3; ++i) if (c[i] == 0) z = i; if (z >= 0) d = Cartesian3D(z == 0, z == 1, z == 2); } }   // across the axis
    double l = s.chance(1, 8) ? 0 : L * s.loguniform(1e-3, 3); if (g.kind && g.radial) l = std::min<double>(l, 0.9 * (double)g.depth(p));
    char at[500]; snprintf(at, sizeof at, "from (%.17g,%.17g,%.17g) along (%.17g,%.17g,%.17g) over %.17g", p[0], p[1], p[2], d[0], d[1], d[2], l); std::string w = str(g) + " " + at;
    s.log("%s", w.c_str()); s.step(); s.nontrivial();
    double e = o.Evaluate(p); ld we = g.f(g.kind ? g.depth(p) : 0), sc = g.scale(p, d, l); s.val(e);
    ld noise = g.kind == 1 ? 1 + (fabsl(g.depth(p)) + p.magnitude() + g.fp.magnitude() + fabs(g.d0)) / fabs(g.sigma) : 1 + (p.magnitude() + g.fp.magnitude()) / L * 10;
    if (!(fabsl(e - we) <= 1e-11L * sc * noise)) s.fail("evaluate", "%s: density %.17g instead of %.17g", w.c_str(), e, (double)we);
    double c = o.Calculate(p, d, l); s.val(c); ld wc = g.path(p, d, l), k = g.kind ? fabsl(g.slope(p, d)) : 1;
    if (g.kind && k > 0 && k < 1e-9L) { s.count("nearly_constant_depth"); if (g.kind > 1) return; }
    // the antiderivative is evaluated from depth 0: rounding of its value over the slope
    ld full = sc * (fabsl(g.kind ? g.depth(p) : 0) + k * l + (g.kind == 3 ? fabsl(g.sp.x[0]) + fabsl(g.sp.x.back()) : 0)); if (g.kind == 2 || g.kind == 3) { Cartesian3D o0 = p; full = std::max(full, g.scale(p, d, l) * fabsl(g.depth(o0))); }
    ld tol = 1e-10L * sc * l * noise + (g.kind == 2 || g.kind == 3 ? 1e-14L * full / std::max(k, 1e-30L) * 10 : 0);
    if (!(fabsl(c - wc) <= tol)) s.fail("path-integral", "%s: %.17g instead of %.17g (slope %.17g)", w.c_str(), c, (double)wc, (double)(g.kind ? g.slope(p, d) : 0));
    if (!exact) {                                              // a slanted track in radial depth: first order in the distance
        ld h = 1e-3L * g.depth(p), ref = 0; ld x[3]; static const ld gx[3] = {-0.774596669241483377L, 0, 0.774596669241483377L}, gw[3] = {5.0L / 9, 8.0L / 9, 5.0L / 9};
        for (int i = 0; i < 3; ++i) { ld t = h / 2 * (1 + gx[i]); for (int q = 0; q < 3; ++q) x[q] = (ld)p[q] + t * (ld)d[q]; ref += gw[i] * g.f(g.depth(x)); } ref *= h / 2;
        double c2 = o.Calculate(p, d, (double)h); ld dd = 1e-4L * g.depth(p), r0 = g.depth(p); ld fp = std::max(fabsl(g.f(r0 + dd) - g.f(r0)), fabsl(g.f(r0) - g.f(r0 - dd))) / dd;
        if (g.kind == 3) for (auto kx : g.sp.x) if (fabsl(kx - r0) < 3e-3L * r0) fp = 1e300L;
        if (!(fabsl(c2 - ref) <= 2 * fp * h * h * h / r0 + 2e-5L * fp * h * h + 1e-9L * sc * h * noise + 1e-13L * full / std::max(k, 1e-30L))) s.fail("path-first-order", "%s: %.17g over the short distance %.17g instead of %.17g", w.c_str(), c2, (double)h, (double)ref);
    }
    if (exact && (g.kind == 0 || !g.radial)) { double l1 = l * s.unit(), c1 = o.Calculate(p, d, l1), c3 = o.Calculate(p + l1 * d, d, l - l1); if (!(std::fabs(c1 + c3 - c) <= 4 * (double)tol + 1e-12 * (double)(sc * L))) s.fail("additive", "%s: %.17g and %.17g do not add up to %.17g", w.c_str(), c1, c3, c); }
    // inverse
    if (l <= 0 || g.minimum(p, d, l) < 1e-3L * sc || !(wc > 0)) return;
    ld fmin = g.minimum(p, d, l); double border = l * s.of(std::vector<double>{1, 1.5, 4}); if (g.kind > 1 && g.minimum(p, d, border) < 1e-3L * sc) border = l; if (border == l && g.kind > 1) { border = l * (1 + 1e-6); if (g.minimum(p, d, border) < 1e-4L * sc) return; }
    ld slack = 4 * tol / fmin + 2.5e-6L + 1e-9L * l; if (!exact) slack *= 1 + 2 * sc / fmin;   // Newton steps with the local density
    try {
        double got = o.Correct(p, d, (double)wc, border); s.val(got); s.step();
        if (!(fabsl(got - l) <= slack)) s.fail("inverse", "%s: a column of %.17g is reached after %.17g (border at %.17g)", w.c_str(), (double)wc, got, border);
        s.count("inverse.reached");
    } catch (DensityException& x) { if (fabsl(border - l) > slack) s.fail("inverse", "%s: a column of %.17g is reported as out of reach (border at %.17g)", w.c_str(), (double)wc, border); }
    if (g.kind == 2 || g.kind == 3) {                          // out of reach behind the border
        ld all = g.path(p, d, border); double ask = (double)(all * s.of(std::vector<double>{1.01, 2, 100})); bool threw = false; double got = 0;
        if (ask - all < 10 * (tol + 1e-10L * sc * border)) return;
        try { got = o.Correct(p, d, ask, border); } catch (DensityException&) { threw = true; }
        if (!threw) s.fail("inverse-reach", "%s: a column of %.17g, with %.17g up to the border at %.17g, is reached after %.17g", w.c_str(), ask, (double)all, border, got);
        s.count("inverse.out_of_reach");
    } else if (g.kind == 1) {
        ld kk = g.slope(p, d) / g.sigma; if (kk < 0) { ld all = -we / kk; double ask = (double)(all * s.of(std::vector<double>{1.01, 3})); bool threw = false; double got = 0;
            if (-kk * L > 1e-6L) { try { got = o.Correct(p, d, ask, border); } catch (DensityException&) { threw = true; } if (!threw) s.fail("inverse-reach", "%s: a column of %.17g of %.17g in total is reached after %.17g", w.c_str(), ask, (double)all, got); s.count("inverse.out_of_reach"); } }
    }
}
void p17_run(Sim& s)
{
    s.scenario("densities");
    double L = s.of(std::vector<double>{1, 1e3, 1e5}); struct E { std::shared_ptr<Density_distr> o; Dens g; bool cart; }; std::vector<E> v; int n = s.range(2, 25);
    for (int i = 0; i < n; ++i) {
        if (v.empty() || s.chance(1, 6)) {
            Dens g = gen(s, L); std::shared_ptr<Density_distr> o; bool js = s.chance(1, 2); long an = s.chance(1, 5) ? s.range(1, 40) : -1; bool threw = false; s.op(js ? "JSON" : "NEW"); auto j = to_json(g);
            if (!js && g.kind == 0 && s.chance(1, 3)) { auto med = Water(); double cf = s.uniform(0.5, 2); g.rho = med.GetMassDensity() * cf; o = std::make_shared<Density_homogeneous>(med, cf); }
            else { AllocScope a(an); try { o = js ? CreateDensityDistribution(j) : build(g); } catch (std::bad_alloc&) { threw = true; } catch (std::exception& e) { alloc_fault.armed = false; s.fail("config-refused", "%s refused: %s", j.dump().c_str(), e.what()); } alloc_fault.armed = false; if (a.fired()) s.fault("alloc"); }
            if (threw) continue;
            v.push_back({o, g, false}); continue;
        }
        size_t k = s.pick(v.size());
        switch (s.pick(6)) {
        case 0: { s.op("COPY"); E c = v[k]; bool threw = false; { AllocScope a(s.chance(1, 4) ? s.range(1, 12) : -1); try { c.o = dup(s, *v[k].o); } catch (std::bad_alloc&) { threw = true; } alloc_fault.armed = false; if (a.fired()) s.fault("alloc"); }
            if (threw) break; if (!(*c.o == *v[k].o) || *c.o != *v[k].o) s.fail("copy", "%s: a copy compares different", str(v[k].g).c_str()); v.push_back(c); break; }
        case 1: s.op("DROP"); v.erase(v.begin() + k); break;
        case 2: { s.op("COMPARE"); Dens a = v[k].g, b = a; switch (s.pick(7)) { case 0: b.rho *= 1.25; break; case 1: b.fp = b.fp + Cartesian3D(0, L, 0); break; case 2: b.radial = !b.radial; break; case 3: b.ax = -b.ax; break; case 4: b.sigma *= 2; b.coef[0] += 1; b.Y[1] += 1; break; case 5: b.d0 += L; b.coef.push_back(1); b.X.push_back(b.X.back() + L); b.Y.push_back(1); break; default: b.kind = (a.kind + 1 + s.pick(3)) % 4; }
            auto same_d = [&] { return a.kind == b.kind && a.rho == b.rho && (a.kind == 0 || (a.radial == b.radial && a.fp == b.fp && (a.radial || a.ax == b.ax) && (a.kind == 1 ? a.sigma == b.sigma && a.d0 == b.d0 : a.kind == 2 ? a.coef == b.coef : a.X == b.X && a.Y == b.Y && a.cubic == b.cubic))); };
            auto o = build(a), o2 = build(b); bool eq = same_d(); s.step();
            if (!(*o == *v[k].o) || *o != *v[k].o || (*o == *o2) != eq || (*o2 != *v[k].o) == eq) s.fail("compare", "%s and %s compare %s", str(a).c_str(), str(b).c_str(), eq ? "different" : "equal"); break; }
        case 3: { s.op("CONFIG"); Dens g = v[k].g; auto j = to_json(g); std::vector<std::string> keys; for (auto& kv : j.items()) keys.push_back(kv.key()); auto key = s.of(keys); bool valid = false;
            switch (s.pick(4)) { case 0: j.erase(key); valid = key == "sigma" || key == "d0"; break; case 1: j[key] = "unknown"; break; case 2: j[key] = nlohmann::json::array(); break; default: if (g.kind == 3) j["y"] = nlohmann::json::array({1., 2., 3., 4., 5., 6., 7., 8.}); else j[key] = {{"a", 1}}; }
            s.log("%s", j.dump().c_str()); if (!valid) s.fault("config.damaged"); bool threw = false; try { CreateDensityDistribution(j); } catch (std::exception&) { threw = true; }
            if (threw == valid) s.fail(valid ? "config-refused" : "config-accepted", "%s", j.dump().c_str()); break; }
        default: s.op("TRACK"); check(s, *v[k].o, v[k].g, L);
        }
    }
    for (auto& e : v) check(s, *e.o, e.g, L);
}
DST_SCENARIO_W("P17", p17_run, 1);

// ------------------------------------------------------------------ P18
ld peval(const std::vector<double>& c, ld x) { ld v = 0; for (size_t i = c.size(); i-- > 0;) v = v * x + c[i]; return v; }
ld pmag(const std::vector<double>& c, ld x) { ld v = 0; for (size_t i = c.size(); i-- > 0;) v = v * fabsl(x) + fabs(c[i]); return v; }
void p18_poly(Sim& s)
{
    s.scenario("polynomials");
    struct E { std::unique_ptr<Polynom> p; std::vector<double> c; ld eps; }; std::vector<E> v; int n = s.range(2, 25);
    auto ref_shift = [](const std::vector<double>& c, ld x) { std::vector<double> r(c.size()); size_t n = c.size(); for (size_t i = 0; i < n; ++i) { ld t = 0, bin = 1; for (size_t j = i; j < n; ++j) { t += c[j] * bin * powl(x, j - i); bin = bin * (j + 1) / (j + 1 - i); } r[i] = (double)t; } return r; };
    auto check_one = [&](E& e, const char* what) {
        double x = s.of(std::vector<double>{0, 1, -2, 0.3}) * (s.pick(2) ? 1 : s.uniform(0, 5)); double y = e.p->evaluate(x); s.step(); s.val(y); s.nontrivial();
        ld w = peval(e.c, x), t = (1e-13L + e.eps) * pmag(e.c, fabs(x) + 5) + 1e-300L; if (!(fabsl(y - w) <= t)) s.fail(what, "p(%.17g) = %.17g instead of %.17g (degree %zu)", x, y, (double)w, e.c.size() - 1);
        auto f = e.p->GetFunction(); if (f(x) != y) s.fail(what, "GetFunction differs from evaluate"); if (e.p->GetCoefficient().size() != e.c.size()) s.fail(what, "number of coefficients"); };
    for (int i = 0; i < n; ++i) {
        if (v.empty() || s.chance(1, 6)) { s.op("NEW"); E e; int k = s.range(1, 7); for (int j = 0; j < k; ++j) e.c.push_back(s.chance(1, 6) ? 0 : s.uniform(-3, 3)); e.eps = 0; if (s.pick(3) == 0) { nlohmann::json j; j["coefficients"] = e.c; e.p = std::make_unique<Polynom>(j); } else e.p = std::make_unique<Polynom>(e.c); v.push_back(std::move(e)); continue; }
        size_t k = s.pick(v.size()); auto& e = v[k];
        switch (s.pick(8)) {
        case 0: { s.op("COPY"); E c; c.c = e.c; c.eps = e.eps; bool threw = false; AllocScope a(s.chance(1, 4) ? s.range(1, 4) : -1); try { c.p.reset(s.pick(2) ? e.p->clone() : new Polynom(*e.p)); } catch (std::bad_alloc&) { threw = true; } alloc_fault.armed = false; if (a.fired()) s.fault("alloc"); if (!threw) { if (*c.p != *e.p) s.fail("poly-compare", "a copy compares different"); v.push_back(std::move(c)); } break; }
        case 1: { s.op("ASSIGN"); auto& d = v[s.pick(v.size())]; *d.p = *e.p; d.c = e.c; d.eps = e.eps; break; }
        case 2: { s.op("SHIFT"); double x = s.of(std::vector<double>{0, 1, -0.5, 3}) * (s.pick(2) ? 1 : s.uniform(0, 1)); if (x != 0 && std::fabs(x) < 1e-2) x = 0.5; if (e.eps > 1e-6) break; auto r = ref_shift(e.c, x); ld grow = pmag(e.c, fabs(x) + 5) / (pmag(r, 5) + 1e-300L); bool zero = e.c.back() == 0 && e.c.size() > 1; (void)zero; e.p->shift(x); e.c = r; if (x != 0) e.eps += (1e-13L + e.eps) * (1 + grow) * std::pow(8 / std::min(1., std::fabs(x)), e.c.size() - 1) / 100; s.log("shift %.17g", x); break; }
        case 3: { s.op("DERIVE"); E d; d.eps = e.eps * 10; for (size_t j = 1; j < e.c.size(); ++j) d.c.push_back(e.c[j] * j); if (d.c.empty()) d.c.push_back(0); d.p = std::make_unique<Polynom>(e.p->GetDerivative()); v.push_back(std::move(d)); break; }
        case 4: { s.op("ANTIDERIVE"); if (e.c.size() > 10) break; E d; d.eps = e.eps * 10; double c0 = s.uniform(-2, 2); d.c.push_back(c0); for (size_t j = 0; j < e.c.size(); ++j) d.c.push_back(e.c[j] / (j + 1)); d.p = std::make_unique<Polynom>(e.p->GetAntiderivative(c0)); v.push_back(std::move(d)); break; }
        case 5: { s.op("COMPARE"); auto& d = v[s.pick(v.size())]; bool eq = d.p->GetCoefficient() == e.p->GetCoefficient(); if ((*d.p == *e.p) != eq || (*d.p != *e.p) == eq) s.fail("poly-compare", "comparison of polynomials"); break; }
        case 6: s.op("DROP"); v.erase(v.begin() + k); break;
        default: s.op("EVALUATE"); check_one(e, "poly-value");
        }
    }
    for (auto& e : v) check_one(e, "poly-value");
}
DST_SCENARIO_W("P18", p18_poly, 1);

struct Spl { std::vector<double> X, Y; bool cubic; int level; double c0; RefSpline r; };   // level: -1 derivative, 0, +1 antiderivative
std::unique_ptr<Spline> mk(const std::vector<double>& X, const std::vector<double>& Y, bool cubic) { if (cubic) return std::make_unique<Cubic_Spline>(X, Y); return std::make_unique<Linear_Spline>(X, Y); }
ld rvalue(const Spl& g, ld t)
{
    if (g.level == 0) return g.r.eval(t);
    if (g.level > 0) return g.c0 + g.r.integral(g.r.x[0], t);
    size_t i = g.r.at(t); ld u = t - g.r.x[i]; auto& q = g.r.p[i]; return q[1] + u * (2 * q[2] + u * 3 * q[3]);
}
void spline_check(Sim& s, Spline& o, const Spl& g, const char* key)
{
    for (int i = 0; i < 5; ++i) {
        double lo = g.X.front(), hi = g.X.back(), x = s.chance(1, 4) ? s.of(g.X) : s.chance(1, 6) ? lo - (hi - lo) * s.uniform(0, 0.5) : s.chance(1, 6) ? hi + (hi - lo) * s.uniform(0, 0.5) : s.uniform(lo, hi);
        if (g.level < 0) { bool knot = false; for (auto k : g.X) if (std::fabs(x - k) < 1e-9 * (1 + std::fabs(k))) knot = true; if (knot && !g.cubic) continue; }
        double y = o.evaluate(x); ld w = rvalue(g, x); s.step(); s.val(y); s.nontrivial();
        ld m = 0; size_t q = g.r.at(x); for (int j = 0; j < 4; ++j) m += fabsl(g.r.p[q][j]) * powl(2 * fabsl(g.r.x[q]) + fabsl(x) + 1, j); m *= g.level > 0 ? 1 + fabsl(x) + fabsl(hi) + fabsl(lo) : g.level < 0 ? 10 : 1;
        if (!(fabsl(y - w) <= 1e-12L * m + 1e-12L)) s.fail(key, "%s spline of %zu points, order %+d: value at %.17g is %.17g instead of %.17g", g.cubic ? "cubic" : "linear", g.X.size(), g.level, x, y, (double)w);
    }
    auto d = o.GetDomain(); if (d.first != g.X.front() || d.second != g.X.back() || o.GetNumberIntervalls() != g.X.size() - 1) s.fail(key, "domain of the spline");
}
void p18_spline(Sim& s)
{
    s.scenario("splines");
    struct E { std::unique_ptr<Spline> o; Spl g; }; std::vector<E> v; int n = s.range(2, 20);
    auto path = [](int k) { return scratch + "spline" + std::to_string(k); }; auto ext = [](std::string p, bool b) { return p + (b ? ".bin" : ".txt"); };
    for (int i = 0; i < n; ++i) {
        if (v.empty() || s.chance(1, 6)) {
            s.op("NEW"); E e; int k = s.range(2, 9); double x = s.uniform(-3, 3), sc = s.of(std::vector<double>{1, 1e-2, 30}); for (int j = 0; j < k; ++j) { e.g.X.push_back(x); e.g.Y.push_back(s.uniform(-3, 3)); x += sc * s.uniform(0.3, 2); }
            e.g.cubic = s.pick(2); e.g.level = 0; e.g.c0 = 0; e.g.r = RefSpline::make(e.g.X, e.g.Y, e.g.cubic);
            if (s.chance(1, 3)) { nlohmann::json j; j["x"] = e.g.X; j["y"] = e.g.Y; if (e.g.cubic) e.o = std::make_unique<Cubic_Spline>(j); else e.o = std::make_unique<Linear_Spline>(j); } else e.o = mk(e.g.X, e.g.Y, e.g.cubic);
            v.push_back(std::move(e)); continue;
        }
        size_t k = s.pick(v.size()); auto& e = v[k];
        switch (s.pick(8)) {
        case 0: { s.op("COPY"); E c; c.g = e.g; bool threw = false; { AllocScope a(s.chance(1, 4) ? s.range(1, 15) : -1); try { c.o.reset(e.o->clone()); } catch (std::bad_alloc&) { threw = true; } alloc_fault.armed = false; if (a.fired()) s.fault("alloc"); } if (threw) break; if (*c.o != *e.o || !(*c.o == *e.o)) s.fail("spline-compare", "a copy compares different"); v.push_back(std::move(c)); break; }
        case 1: if (e.g.level == 0) { s.op("DERIVE"); e.o->Derivative(); e.g.level = -1; } break;
        case 2: if (e.g.level == 0) { s.op("ANTIDERIVE"); e.g.c0 = s.pick(2) ? 0 : s.uniform(-2, 2); e.o->Antiderivative(e.g.c0); e.g.level = 1; } break;
        case 3: { s.op("STREAM"); std::ostringstream os; os.precision(17); os << *e.o; std::string t = os.str(); for (int q = 0; q < 2; ++q) t = t.substr(t.find('\n') + 1); std::istringstream is(t); size_t m = s.pick(v.size()); if (v[m].g.cubic != e.g.cubic) m = k; is >> *v[m].o; if (is.fail()) s.fail("spline-stream", "a written spline can not be read"); v[m].g = e.g; break; }
        case 4: case 5: {
            bool bin = s.pick(2); s.op("SAVE %s", bin ? "binary" : "text"); std::string p = path(k), f = ext(p, bin); unlink_scratch(f);
            DiskPlan d; d.rng = 1 + s.pick(1000); bool faulty = false;
            switch (s.pick(8)) { case 0: d.write_budget = s.range(0, 400); d.write_err = s.pick(2) ? 28 : 5; faulty = true; break; case 1: d.short_writes = true; break; case 2: d.eintr_writes = true; break; case 3: d.close_fails = true; faulty = true; break; case 4: d.open_fail_at = 0; faulty = true; break; default: break; }
            bool ok; { DiskScope ds(d); ok = e.o->save(p, bin); } s.step();
            bool hit = disk.fired_write || disk.fired_close || disk.fired_open; if (disk.fired_write) s.fault(d.write_err == 28 ? "disk.full" : "disk.write_error"); if (disk.fired_close) s.fault("disk.close_fails"); if (disk.fired_open) s.fault("disk.open_fails"); if (disk.fired_short) s.fault("disk.short_write"); if (disk.fired_eintr) s.fault("disk.interrupted");
            s.log("saved %d", ok); if (ok && hit) s.fail("spline-save-silent", "a failed write is reported as success"); if (!ok && !hit) s.fail("spline-save-refused", "saving failed without a fault"); (void)faulty;
            if (!ok) { unlink_scratch(f); break; }
            std::string good = slurp(f); bool dmg = false; std::string what = "intact"; DiskPlan r; r.rng = d.rng;
            if (s.chance(1, 2)) switch (s.pick(5)) {
            case 0: { size_t q = good.find_last_not_of(" \n"); size_t st = good.find_last_of(" \n", q); size_t cut = s.pick(st + 1); spew(f, good.substr(0, cut)); dmg = true; what = "truncated"; break; }
            case 1: unlink_scratch(f); dmg = true; what = "missing"; break;
            case 2: r.read_budget = s.pick(good.size() > 3 ? good.size() - 3 : 1); { size_t q = good.find_last_not_of(" \n"), st = good.find_last_of(" \n", q); if ((size_t)r.read_budget > st) r.read_budget = st; } what = "read error"; dmg = true; break;
            case 3: r.short_reads = true; what = "short reads"; break;
            default: r.eintr_reads = true; what = "interrupted reads"; break;
            }
            std::unique_ptr<Spline> o; bool threw = false; { DiskScope ds(r); try { if (e.g.cubic) o = std::make_unique<Cubic_Spline>(p, bin); else o = std::make_unique<Linear_Spline>(p, bin); } catch (std::exception& x) { threw = true; } } s.step();
            if (what != "intact") s.fault(("disk." + what).c_str());
            s.log("load %s -> %s", what.c_str(), threw ? "refused" : "ok"); unlink_scratch(f);
            if (threw && !dmg) s.fail("spline-load-refused", "%s file of a spline of %zu points refused (%s)", bin ? "binary" : "text", e.g.X.size(), what.c_str());
            if (!threw && dmg) s.fail("spline-load-silent", "a damaged %s file (%s) is accepted", bin ? "binary" : "text", what.c_str());
            if (threw) break; spline_check(s, *o, e.g, "spline-file"); if (*o != *e.o) s.fail("spline-file", "a spline read back differs"); E c; c.g = e.g; c.o = std::move(o); v.push_back(std::move(c)); break; }
        case 6: s.op("DROP"); v.erase(v.begin() + k); break;
        default: s.op("EVALUATE"); spline_check(s, *e.o, e.g, "spline-value");
        }
    }
    for (auto& e : v) spline_check(s, *e.o, e.g, "spline-value");
}
DST_SCENARIO_W("P18", p18_spline, 2);
} // namespace
