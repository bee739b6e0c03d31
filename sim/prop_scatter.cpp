// P14 direction changes
#include "physics.h"
#include "fake.h"
#include "PROPOSAL/Constants.h"
#include "PROPOSAL/math/Cartesian3D.h"
#include "PROPOSAL/math/Spherical3D.h"
#include "PROPOSAL/propagation_utility/DisplacementBuilder.h"
#include "PROPOSAL/scattering/Scattering.h"
#include "PROPOSAL/scattering/ScatteringFactory.h"
#include "PROPOSAL/scattering/ScatteringMultiplier.h"
#include <nlohmann/json.hpp>
using namespace PROPOSAL;
using namespace sim;
using namespace phys;
namespace ms = PROPOSAL::multiple_scattering;
namespace sd = PROPOSAL::stochastic_deflection;

namespace {
bool fin(const Cartesian3D& d) { return std::isfinite(d.GetX()) && std::isfinite(d.GetY()) && std::isfinite(d.GetZ()); }
Cartesian3D gen_dir(Sim& s)
{
    switch (s.pick(5)) {
    case 0: return s.of(std::vector<Cartesian3D>{Cartesian3D(0, 0, 1), Cartesian3D(0, 0, -1), Cartesian3D(1, 0, 0), Cartesian3D(0, -1, 0), Cartesian3D(-1, 0, 0)});
    case 1: { double e = s.loguniform(1e-12, 1e-2), f = s.uniform(0, 6.283); double z = std::sqrt(1 - e * e); return Cartesian3D(e * std::cos(f), e * std::sin(f), s.pick(2) ? z : -z); }
    default: { double c = s.uniform(-1, 1), f = s.uniform(0, 6.283), q = std::sqrt(1 - c * c); return Cartesian3D(q * std::cos(f), q * std::sin(f), c); }
    }
}
// ------------------------------------------------------------------ rotations and coordinates
void p14_rotate(Sim& s)
{
    s.scenario("rotations");
    Cartesian3D d = gen_dir(s); int n = s.range(1, 40); long chain = 0;
    for (int i = 0; i < n; ++i) {
        switch (s.pick(7)) {
        case 0: case 1: case 2: {
            double c, th = s.chance(1, 6) ? s.of(std::vector<double>{0, PI / 2, PI, 2 * PI, 1e-9}) : s.uniform(0, 2 * PI);
            switch (s.pick(5)) { case 0: c = s.uniform(-1, 1); break; case 1: c = std::cos(s.loguniform(1e-9, 0.3)); break; case 2: c = -std::cos(s.loguniform(1e-9, 0.3)); break; case 3: c = s.uniform(-1e-6, 1e-6); break; default: c = s.of(std::vector<double>{1, -1, 0}); }
            s.op("DEFLECT"); s.log("direction (%.17g,%.17g,%.17g) cos %.17g azimuth %.17g", d.GetX(), d.GetY(), d.GetZ(), c, th);
            Cartesian3D e = d; e.deflect(c, th); ++chain; s.step(); s.nontrivial(); s.val(e[0]); s.val(e[1]); s.val(e[2]);
            if (!fin(e)) s.fail("deflect-finite", "deflecting by cos=%.17g azimuth=%.17g gives (%g,%g,%g)", c, th, e[0], e[1], e[2]);
            double dm = d.magnitude();
            if (std::fabs(e.magnitude() - dm) > 1e-7) s.fail("deflect-length", "deflecting changes the length of a direction from %.17g to %.17g", dm, e.magnitude());
            double sn = std::sqrt(std::max(0., 1 - c * c));
            if (std::fabs(d * e / dm / dm - c) > 1e-7 || std::fabs(vector_product(d, e).magnitude() / dm / dm - sn) > 1e-7) s.fail("deflect-angle", "direction (%.17g,%.17g,%.17g): deflecting by cos=%.17g turns it by cos=%.17g sin=%.17g", d[0], d[1], d[2], c, d * e, vector_product(d, e).magnitude());
            double da = s.uniform(0, 2 * PI); Cartesian3D f = d; f.deflect(c, th + da);       // the azimuth turns around the direction
            auto t1 = e + (-(d * e)) * d, t2 = f + (-(d * f)) * d;
            if (sn > 1e-5 && c != 1) { double cs = t1 * t2 / sn / sn, si = vector_product(t1, t2) * d / sn / sn;
                if (std::fabs(cs - std::cos(da)) > 1e-6 / sn || std::fabs(si - std::sin(da)) > 1e-6 / sn) s.fail("deflect-azimuth", "direction (%.17g,%.17g,%.17g) cos=%.17g: azimuths %.17g apart give directions apart by cos=%.17g sin=%.17g", d[0], d[1], d[2], c, da, cs, si); }
            d = e; break;
        }
        case 3: {
            s.op("CHAIN"); int m = s.range(10, s.tier ? 3000 : 400); Prng p(s.pick(1ull << 40)); double mx = s.of(std::vector<double>{1e-4, 0.05, 3.1});
            double l0 = d.magnitude(); for (int k = 0; k < m; ++k) d.deflect(std::cos(mx * p.unit()), 2 * PI * p.unit());
            chain += m; s.step(m); s.nontrivial(); s.val(d[0]);
            if (!fin(d) || std::fabs(d.magnitude() - l0) > 1e-9 * m + 1e-7) s.fail("deflect-drift", "after %d deflections the length of a direction went from %.17g to %.17g", m, l0, d.magnitude());
            break;
        }
        case 4: {
            s.op("SCATTER"); ms::ScatteringOffset o; double a = s.of(std::vector<double>{0, 1e-6, 0.1, 0.8, 3});
            double l0 = d.magnitude(); d.normalize(); if (l0 < 0.99 || l0 > 1.01) s.fail("deflect-drift", "direction of length %.17g", l0);
            o.sx = s.uniform(-a, a); o.sy = s.uniform(-a, a); o.tx = s.uniform(-a, a); o.ty = s.uniform(-a, a); if (s.chance(1, 5)) o.sx = o.tx = 0;
            s.log("direction (%.17g,%.17g,%.17g) offsets %.17g %.17g %.17g %.17g", d[0], d[1], d[2], o.sx, o.sy, o.tx, o.ty); s.step(); s.nontrivial();
            bool sph = s.chance(1, 3); auto r = sph ? ms::ScatterInitialDirection(Spherical3D(d), o) : ms::ScatterInitialDirection(d, o);
            auto side = [&](const Cartesian3D& e, double x, double y, const char* w) {
                if (!fin(e) || std::fabs(e.magnitude() - 1) > 1e-7) s.fail("scatter-length", "scattering by (%.17g,%.17g): the %s direction has length %.17g", x, y, w, e.magnitude());
                double t = std::sqrt(x * x + y * y), want = t < 1 ? std::sqrt(1 - t * t) : 0;
                if (std::fabs(e * d - want) > 2e-7) s.fail("scatter-angle", "scattering by (%.17g,%.17g): cosine to the initial direction %.17g instead of %.17g", x, y, e * d, want); };
            side(r.first, o.sx, o.sy, "mean"); side(r.second, o.tx, o.ty, "final");
            auto R = [&](double x, double y) { double t = std::sqrt(x * x + y * y), f = t > 1 ? 1 / t : 1; return std::array<double, 2>{x * f, y * f}; };
            auto a1 = R(o.sx, o.sy), a2 = R(o.tx, o.ty); double z1 = std::sqrt(std::max(0., 1 - a1[0] * a1[0] - a1[1] * a1[1])), z2 = std::sqrt(std::max(0., 1 - a2[0] * a2[0] - a2[1] * a2[1]));
            double want = a1[0] * a2[0] + a1[1] * a2[1] + z1 * z2;      // both offsets refer to the same axes
            if (std::fabs(r.first * r.second - want) > 3e-7) s.fail("scatter-axes", "scattering by (%.17g,%.17g | %.17g,%.17g): cosine between mean and final direction %.17g instead of %.17g", o.sx, o.sy, o.tx, o.ty, r.first * r.second, want);
            if (a == 0 && !((r.first - d).magnitude() <= 1e-7 && (r.second - d).magnitude() <= 1e-7)) s.fail("scatter-zero", "scattering by nothing changes the direction");
            d = r.second; break;
        }
        case 5: {
            s.op("COORDINATES"); double sc = s.of(std::vector<double>{1, 1e-3, 1e8}); Cartesian3D p = sc * d; if (s.chance(1, 10)) p = Cartesian3D(0, 0, 0);
            Spherical3D q(p); Cartesian3D b(q); double m = p.magnitude(); s.step();
            if (!same(q.magnitude(), m) || (b - p).magnitude() > 1e-7 * m) s.fail("coordinates", "(%.17g,%.17g,%.17g) becomes (%.17g,%.17g,%.17g) in spherical coordinates and back", p[0], p[1], p[2], b[0], b[1], b[2]);
            if (!(q.GetZenith() >= 0 && q.GetZenith() <= PI && std::fabs(q.GetAzimuth()) <= PI * (1 + 1e-15))) s.fail("coordinates", "spherical angles out of range");
            q.normalize(); if (m > 0) { p.normalize(); if ((Cartesian3D(q) - p).magnitude() > 1e-7 || std::fabs(p.magnitude() - 1) > 1e-12) s.fail("coordinates", "normalising differs between coordinate systems"); }
            break;
        }
        default: {
            s.op("ALGEBRA"); Cartesian3D a = gen_dir(s), b = gen_dir(s); double k = s.uniform(-3, 3); auto c = vector_product(a, b); s.step();
            auto bad = [&](double x, double y) { return std::fabs(x - y) > 1e-12; };
            if (bad(c * a, 0) || bad(c * b, 0) || bad(c * c + (a * b) * (a * b), (a * a) * (b * b)) || (c + vector_product(b, a)).magnitude() > 0) s.fail("algebra", "vector product");
            if (bad((a + b) * (a + b), a * a + 2 * (a * b) + b * b) || ((a + b) - b - a).magnitude() > 1e-15 || bad((k * a) * b, k * (a * b)) || (k * a - a * k).magnitude() > 0 || ((-a) + a).magnitude() > 0) s.fail("algebra", "vector sums and scaling");
            double h = (vector_product(a, b) * d), g = (vector_product(b, d) * a); if (bad(h, g)) s.fail("algebra", "triple product");
            auto e = a; e += b; if (!(e == a + b) || (e != a + b)) s.fail("algebra", "operator+=");
        }
        }
    }
    if (chain > 5) s.count("long_chains");
}
DST_SCENARIO_W("P14", p14_rotate, 1);

// ------------------------------------------------------------------ deflection in stochastic interactions
struct Kind { const char* name; InteractionType type; const char* process; bool electron; bool registered; };
const std::vector<Kind>& kinds()
{
    static std::vector<Kind> k{{"BremsTsaiApproximation", InteractionType::Brems, "BremsKelnerKokoulinPetrukhin", false, true}, {"IonizNaive", InteractionType::Ioniz, "IonizBetheBlochRossi", false, true},
        {"PhotoBorogPetrukhin", InteractionType::Photonuclear, "PhotoAbramowiczLevinLevyMaor97", false, true}, {"EpairGinneken", InteractionType::Epair, "EpairKelnerKokoulinPetrukhin", false, true},
        {"BremsGinneken", InteractionType::Brems, "BremsKelnerKokoulinPetrukhin", false, false}, {"PhotoGinneken", InteractionType::Photonuclear, "PhotoAbramowiczLevinLevyMaor97", false, false}};
    return k;
}
struct Loss { double ei = 0, ef = 0; std::vector<double> rnd; size_t comp = 0; double v = 0; };
std::map<std::string, Built>& cache() { static std::map<std::string, Built> c; return c; }
bool gen_loss(Sim& s, const Kind& k, const ParticleDef& p, int med, const Medium& m, size_t nrnd, Loss& out, const Loss* like = nullptr)
{
    const Process* pr = nullptr; for (auto& q : processes()) if (q.name == k.process) pr = &q;
    if (!pr) s.fail("harness", "no process %s", k.process);
    auto key = pr->name + std::to_string(p.particle_type) + medium_name(med);
    if (!cache().count(key)) cache()[key] = pr->build(p, m, std::make_shared<EnergyCutSettings>(500, 1, false), 0);
    Built& b = cache()[key]; auto& t = b.targets[s.pick(b.targets.size())]; auto cs = m.GetComponents(); auto& c = cs[s.pick(cs.size())];
    bool gin = strstr(k.name, "Ginneken");                    // meant for high-energy muons
    double lo = std::max(b.lower, pr->emin) * 1.001; if (gin) lo = std::max(lo, 1e3);
    double E = s.loguniform(lo, std::min(pr->emax, 1e11)); if (s.chance(1, 8)) E = lo * s.of(std::vector<double>{1, 1.01, 1.5});
    int keep = like && s.chance(1, 2) ? (int)s.range(1, 3) : 0; if (keep & 1) E = like->ei;          // as before, but for one thing
    auto l = t.limits(E); double a = std::max(l.v_min * 1.0000001, 1e-3 / E), z = std::min(l.v_max * (1 - 1e-6), 1 - (p.mass / E) * (1 + 1e-5));
    if (!(z > a)) return false;
    double x = s.unit(), v = s.chance(1, 2) ? a + (z - a) * x : std::exp(std::log(a) * (1 - x) + std::log(z) * x); if (s.chance(1, 10)) v = s.pick(2) ? a : z;
    if (keep & 2) v = like->v; v = std::min(std::max(v, a), z);
    if (!(t.dcs(E, v) > 0)) return false;
    out.v = v; out.ei = E; out.ef = E * (1 - v); out.comp = b.medium_wise ? c.GetHash() : t.hash; out.rnd.clear();
    Stream st = gen_stream(s); for (size_t i = 0; i < nrnd; ++i) { double r = st(); out.rnd.push_back(like && keep && s.chance(1, 2) ? like->rnd[i] : r); } if (st.fired_extreme) s.count("fault.rng.edge_values", st.fired_extreme);
    s.log("E_i=%.17g E_f=%.17g", out.ei, out.ef); for (double r : out.rnd) s.log("rnd %.17g", r);
    return true;
}
std::string low(std::string n) { for (auto& c : n) c = (char)tolower(c); return n; }
bool undefined(const Kind& k, const std::function<UnitSphericalVector()>& f, UnitSphericalVector& r)
{
    try { r = f(); return false; } catch (const std::invalid_argument&) { if (strcmp(k.name, "BremsGinneken")) throw; return true; }   // documented gap of that parametrization
}
// the mean square deflections of A. van Ginneken, Nucl. Instr. Meth. A251 (1986) 21; energies in GeV
double ginneken(const std::string& name, const ParticleDef& p, const Loss& l, double& tol)
{
    double E = l.ei / 1e3, F = l.ef / 1e3, nu = (E - F) / (E - p.mass / 1e3); tol = 1e-7 + 1e-15 * (E / (E - F) + E / F);
    if (name == "PhotoGinneken") return 0.39 / (E * (1 - nu)) * std::pow(std::sqrt(E) * nu * (1 - nu), 0.17) * (1 - 0.135 / (E * nu));
    if (name == "EpairGinneken") { double q = 1 - 2 * ME / 1e3 / (E * nu); return (2.3 + std::log(E)) / ((1 - nu) * E) * q * q * std::min(8.9e-4 * std::pow(nu, 0.25) * (1 + 1.5e-5 * E) + 0.032 * nu / (nu + 1), 0.1); }
    if (nu <= 0.5) return std::max(std::min(0.092 * std::cbrt(1 / E) * std::sqrt(nu), 0.052 / E * std::pow(Component::GetComponentForHash(l.comp).GetNucCharge(), -0.25)), 0.22 * std::pow(E, -0.92) * nu);
    double k4 = 0.26 * std::pow(E, -0.91), n = 0.81 * std::sqrt(E) / (std::sqrt(E) + 1.8), r = k4 * std::pow(nu, 1 + n) * std::pow(1 - nu, -n); if (r < 0.2) return r;
    double a = 0.5, b = 1; auto g = [&](double x) { return k4 * std::pow(x, 1 + n) * std::pow(1 - x, -n) - 0.2; };           // continued from where the width is 0.2
    if (g(a) < 0) for (int i = 0; i < 200; ++i) { double c = (a + b) / 2; (g(c) < 0 ? a : b) = c; }
    tol += 1e-6 + 3e-5 / (1 - a); return k4 * std::pow(a, 1 + n) * std::pow(1 - a, 0.5 - n) / std::sqrt(1 - nu);
}
void check_defl(const Kind& k, const ParticleDef& p, const sd::Parametrization& x, const Loss& l, const UnitSphericalVector& a)
{
    if (!std::isfinite(a.zenith) || !std::isfinite(a.azimuth) || a.zenith < 0) S.fail("deflection-finite", "%s: E_i=%.17g E_f=%.17g: deflection by %.17g (azimuth %.17g)", k.name, l.ei, l.ef, a.zenith, a.azimuth);
    S.val(a.zenith); S.val(a.azimuth);
    if (std::fabs(a.azimuth - 2 * PI * l.rnd.back()) > 1e-12) S.fail("deflection-azimuth", "%s: azimuth %.17g for the random number %.17g", k.name, a.azimuth, l.rnd.back());
    Cartesian3D d(0.6, 0, 0.8); d.deflect(std::cos(a.zenith), a.azimuth); if (!(std::fabs(d.magnitude() - 1) < 1e-7)) S.fail("deflection-unit", "%s: the deflected direction has length %.17g", k.name, d.magnitude());
    double m = p.mass, eps = l.ei - l.ef, pi = std::sqrt((l.ei - m) * (l.ei + m)), pf = std::sqrt((l.ef - m) * (l.ef + m)), c = std::cos(a.zenith); std::string n = k.name;
    if (n == "IonizNaive") {               // the electron, at rest before, is on its mass shell afterwards
        double ke2 = (pi - pf) * (pi - pf) + 4 * pi * pf * std::pow(std::sin(a.zenith / 2), 2), want = eps * (eps + 2 * ME);
        if (std::fabs(ke2 - want) > 1e-5 * want + 1e-14 * 4 * l.ei * l.ei) S.fail("deflection-kinematics", "%s: E_i=%.17g E_f=%.17g angle %.17g: squared momentum of the electron %.17g instead of %.17g", k.name, l.ei, l.ef, a.zenith, ke2, want);
    } else if (n == "BremsTsaiApproximation") {
        double top = std::min(1., eps / l.ef);
        if (a.zenith > top * (1 + 1e-9)) S.fail("deflection-kinematics", "%s: E_i=%.17g E_f=%.17g: deflection by %.17g above the largest angle %.17g", k.name, l.ei, l.ef, a.zenith, top);
        auto f = [&](double th) { double r = th * l.ef / eps * l.ei / m; return r * r / (1 + r * r); };   // cumulative distribution of the photon angle
        if (std::fabs(f(a.zenith) - l.rnd[0] * f(top)) > 1e-7) S.fail("deflection-distribution", "%s: E_i=%.17g E_f=%.17g rnd=%.17g: %.17g of the deflections are smaller", k.name, l.ei, l.ef, l.rnd[0], f(a.zenith) / f(top));
    } else if (n == "PhotoBorogPetrukhin") {
        double y = eps / l.ei, tmin = m * m * y * y / (1 - y), tmax = 2 * MP * eps, t = std::pow(std::sin(a.zenith / 2), 2) * (4 * (l.ei * l.ef - m * m) - 2 * tmin) + tmin;
        double t1 = std::min(eps * eps, 0.4e6);
        if (tmax > tmin * 1.01 && t > tmax * (1 + 1e-6)) S.fail("deflection-kinematics", "%s: E_i=%.17g E_f=%.17g: squared momentum transfer %.17g above its limit %.17g", k.name, l.ei, l.ef, t, tmax);
        if (tmax > tmin * 1.01 && a.zenith > 1e-6 && l.ei * l.ef - m * m > tmin && t < tmax * 0.999) {   // distribution ~ (1 - t/tmax) / (t (1 + t/t1)): inverse transform of the leading form
            auto G = [&](double q) { return std::log(q * (tmax + t1) / (tmax * (q + t1))); };
            double u = std::log((tmax + t1) * tmin / (tmax * (tmin + t1))), got = G(t) / u; 
            if (std::fabs(got - l.rnd[0]) > 1e-5 + 1e-13 * l.ei * l.ei / t) S.fail("deflection-distribution", "%s: E_i=%.17g E_f=%.17g rnd=%.17g: momentum transfer %.17g belongs to %.17g", k.name, l.ei, l.ef, l.rnd[0], t, got);
        }
    } else {                               // exponential in the squared angle: theta^2 / -ln(1-r) is the mean square
        Loss q = l; q.rnd[0] = 0.5; UnitSphericalVector b; undefined(k, [&] { return x.CalculateStochasticDeflection(q.ei, q.ef, q.rnd, q.comp); }, b);
        double want = b.zenith * std::sqrt(std::log1p(-l.rnd[0]) / std::log(0.5));
        if (std::fabs(a.zenith - want) > 1e-9 * want) S.fail("deflection-distribution", "%s: E_i=%.17g E_f=%.17g rnd=%.17g: deflection %.17g, median %.17g", k.name, l.ei, l.ef, l.rnd[0], a.zenith, b.zenith);
        double tol, rms = ginneken(n, p, l, tol), e = rms * std::sqrt(-std::log1p(-l.rnd[0])); S.count("ginneken");
        if (std::fabs(a.zenith - e) > tol * e) S.fail("deflection-width", "%s: E_i=%.17g E_f=%.17g rnd=%.17g: deflection %.17g instead of %.17g", k.name, l.ei, l.ef, l.rnd[0], a.zenith, e);
    }
    (void)c;
}
void p14_deflect(Sim& s)
{
    s.scenario("deflections");
    const Kind& k = s.of(kinds()); auto p = particle(s.of(std::vector<int>{13, -13, strstr(k.name, "Ginneken") ? 13 : 15})); int med = (int)s.pick(n_media()); auto m = medium(med);
    s.op("%s", k.name); std::unique_ptr<sd::Parametrization> x = k.registered && s.pick(2) ? make_default_stochastic_deflection(k.type, p, m) : make_stochastic_deflection(s.pick(2) ? low(k.name) : k.name, p, m);
    if (x->GetInteractionType() != k.type) s.fail("deflection-type", "%s reports another interaction type", k.name);
    int n = s.range(1, 8); std::vector<Loss> done;
    for (int i = 0; i < n; ++i) {
        Loss l; s.op("LOSS"); if (!gen_loss(s, k, p, med, m, x->RequiredRandomNumbers(), l, done.empty() ? nullptr : &s.of(done))) { s.count("no_phase_space"); continue; }
        UnitSphericalVector a, b; s.step(); Stream outside; outside.p = Prng(3);
        { RngScope r(outside); if (undefined(k, [&] { return x->CalculateStochasticDeflection(l.ei, l.ef, l.rnd, l.comp); }, a)) { s.count("undefined_by_parametrization"); continue; } }
        if (outside.n) s.fail("deflection-global-random", "%s consumed numbers of the global generator", k.name);
        s.nontrivial(); check_defl(k, p, *x, l, a); done.push_back(l);
        auto f = s.pick(2) ? x->clone() : make_stochastic_deflection(k.name, p, m); b = f->CalculateStochasticDeflection(l.ei, l.ef, l.rnd, l.comp);
        if (!same(a.zenith, b.zenith) || !same(a.azimuth, b.azimuth)) s.fail("deflection-history", "%s: the deflection differs from that of a fresh object", k.name);
    }
}
DST_SCENARIO_W("P14", p14_deflect, 2);

// ------------------------------------------------------------------ multiple scattering
double ppf(double p) { bool up = p > 0.5; double q = up ? 1 - p : p, a = -40, b = 0; for (int i = 0; i < 200; ++i) { double x = (a + b) / 2; (0.5 * std::erfc(-x / std::sqrt(2.)) < q ? a : b) = x; } return up ? -a : a; }
bool eq(const ms::ScatteringOffset& a, const ms::ScatteringOffset& b) { return same(a.sx, b.sx) && same(a.sy, b.sy) && same(a.tx, b.tx) && same(a.ty, b.ty); }
double LOSS_A = 2, LOSS_B = 3e-6;
std::vector<std::shared_ptr<CrossSectionBase>> crosses(const ParticleDef& p, int, const Medium&)
{
    auto c = std::make_shared<FakeCross>(); c->a = LOSS_A; c->b = LOSS_B; c->low = p.mass; return {c};
}
enum { HIGHLAND, MOLIERE, MOLIERE_I, HIGHLAND_INT };
std::unique_ptr<ms::Parametrization> mk(int kind, const ParticleDef& p, int med, const Medium& m)
{
    switch (kind) {
    case HIGHLAND: return make_multiple_scattering(MultipleScatteringType::Highland, p, m);
    case MOLIERE: return make_multiple_scattering(MultipleScatteringType::Moliere, p, m);
    case MOLIERE_I: return make_multiple_scattering(MultipleScatteringType::MoliereInterpol, p, m);
    default: return make_multiple_scattering(MultipleScatteringType::HighlandIntegral, p, m, crosses(p, med, m), false);
    }
}
struct Ms { double x, ei, ef; std::array<double, 4> r; };
Ms gen_ms(Sim& s, const ParticleDef& p, int kind, const Ms* like)
{
    Ms a; a.ei = s.loguniform(p.mass * (kind == HIGHLAND_INT ? 1.5 : 1.01), 1e11); double f = s.of(std::vector<double>{1, 0.999, 0.5, 0.1, 0.9}); a.ef = f == 1 ? a.ei : p.mass + (a.ei - p.mass) * f; if (kind == HIGHLAND_INT) a.ef = std::max(a.ef, p.mass * 1.2);
    a.x = s.chance(1, 8) ? 0 : s.loguniform(1e-6, 1e7); if (a.x == 0) a.ef = a.ei;
    Stream st = gen_stream(s); for (auto& r : a.r) r = st(); if (st.fired_extreme) s.count("fault.rng.edge_values", st.fired_extreme);
    if (like && s.chance(1, 2)) { Ms b = *like; switch (s.pick(4)) { case 0: b.x = a.x; break; case 1: b.ei = a.ei; break; case 2: b.ef = a.ef; break; default: b.r = a.r; } if (b.ef > b.ei || b.x == 0) b.ef = b.ei; if (kind == HIGHLAND_INT && b.ef < 0.05 * b.ei) b.ef = std::max(0.5 * b.ei, p.mass * 1.2); a = b; }   // one thing is different
    s.log("grammage %.17g E_i=%.17g E_f=%.17g rnd %.17g %.17g %.17g %.17g", a.x, a.ei, a.ef, a.r[0], a.r[1], a.r[2], a.r[3]);
    return a;
}
void p14_multiple(Sim& s)
{
    s.scenario("multiple");
    static const char* nm[] = {"Highland", "Moliere", "MoliereInterpol", "HighlandIntegral"};
    auto p = particle(s.of(std::vector<int>{13, 11, -13, 15})); int med = (int)s.pick(n_media()); auto m = medium(med); int kind = s.of(std::vector<int>{HIGHLAND, MOLIERE, HIGHLAND_INT, HIGHLAND, MOLIERE_I});
    s.op("%s", nm[kind]); auto x = mk(kind, p, med, m); int n = s.range(1, 8); std::vector<Ms> done;
    for (int i = 0; i < n; ++i) {
        switch (s.pick(6)) {
        case 0: { s.op("CLONE"); auto c = x->clone(); if (s.pick(2)) x = std::move(c); break; }
        case 1: { s.op("COMPARE"); auto y = mk(kind, p, med, m); if (kind != HIGHLAND_INT && !(*x == *y)) s.fail("scatter-compare", "%s: two equal scatterers compare unequal after use", nm[kind]);
            auto z = mk(kind == HIGHLAND ? MOLIERE : HIGHLAND, p, med, m); if (*z == *x || *x == *z) { if (kind != HIGHLAND_INT) s.fail("scatter-compare", "%s and another kind of scattering compare equal", nm[kind]); } break; }
        default: {
            s.op("ANGLE"); auto a = gen_ms(s, p, kind, done.empty() ? nullptr : &s.of(done)); done.push_back(a); auto o = x->CalculateRandomAngle(a.x, a.ei, a.ef, a.r); s.step(); s.nontrivial(); s.val(o.sx); s.val(o.tx); s.val(o.sy); s.val(o.ty);
            if (!std::isfinite(o.sx + o.sy + o.tx + o.ty)) s.fail("multiple-finite", "%s: grammage %.17g E_i=%.17g E_f=%.17g: offsets %g %g %g %g", nm[kind], a.x, a.ei, a.ef, o.sx, o.sy, o.tx, o.ty);
            if (!eq(o, mk(kind, p, med, m)->CalculateRandomAngle(a.x, a.ei, a.ef, a.r))) s.fail("multiple-history", "%s: the offsets differ from those of a fresh object", nm[kind]);
            if (a.x == 0 && (o.sx != 0 || o.sy != 0 || o.tx != 0 || o.ty != 0)) s.fail("multiple-zero", "%s scatters without a path", nm[kind]);
            auto dirs = ms::ScatterInitialDirection(gen_dir(s), o);
            for (auto& d : {dirs.first, dirs.second}) if (!fin(d) || std::fabs(d.magnitude() - 1) > 1e-7) s.fail("scatter-length", "%s: grammage %.17g E_i=%.17g: a scattered direction has length %.17g", nm[kind], a.x, a.ei, d.magnitude());
            auto A = [&](double r) { return x->CalculateScatteringAngle(a.x, a.ei, a.ef, r); };
            // the four offsets are two independent planes built from the scattering angle
            double tol = (kind == HIGHLAND || kind == HIGHLAND_INT) ? 1e-12 : 1e-9; auto same_ = [&](double u, double v) { return std::fabs(u - v) <= tol * (std::fabs(u) + std::fabs(v)) + 1e-300; };
            if (!same_(o.tx, A(a.r[1])) || !same_(o.ty, A(a.r[3])) || std::fabs(o.sx - 0.5 * (A(a.r[0]) / std::sqrt(3.) + o.tx)) > 1e-9 * (std::fabs(A(a.r[0])) + std::fabs(o.tx)) || std::fabs(o.sy - 0.5 * (A(a.r[2]) / std::sqrt(3.) + o.ty)) > 1e-9 * (std::fabs(A(a.r[2])) + std::fabs(o.ty)))
                s.fail("multiple-offsets", "%s: grammage %.17g E_i=%.17g: the offsets do not follow from the scattering angles", nm[kind], a.x, a.ei);
            double q = A(a.r[0]), w = A(1 - a.r[0]), big = std::fabs(A(0.999)); double d2 = x->CalculateScatteringAngle2D(a.x, a.ei, a.ef, a.r[0], a.r[1]);
            if (std::fabs(d2 - std::hypot(q, A(a.r[1]))) > 1e-9 * d2) s.fail("multiple-2d", "%s: the angle in space is %.17g, its projections %.17g and %.17g", nm[kind], d2, q, A(a.r[1]));
            if (kind == HIGHLAND || kind == HIGHLAND_INT) {
                if (a.r[0] > 1e-6 && a.r[0] < 1 - 1e-6 && std::fabs(q + w) > 1e-6 * std::fabs(q) + 1e-8 * big) s.fail("multiple-symmetric", "%s: angles %.17g and %.17g for %.17g and its complement", nm[kind], q, w, a.r[0]);
                double t = big / ppf(0.999), u = ppf(a.r[0]);
                if (std::fabs(q - t * u) > 1e-6 * std::fabs(q) + 1e-7 * t) s.fail("multiple-distribution", "%s: rnd=%.17g gives the angle %.17g, expected %.17g standard deviations of %.17g", nm[kind], a.r[0], q, u, t);
                if (kind == HIGHLAND_INT) { double X = a.x / m.GetRadiationLength(), want = 0; auto M = p.mass;
                    if (a.x > 0 && a.ef < a.ei) want = std::min(1., 13.6 * std::fabs(p.charge) * std::sqrt(quad([M](double E) { double q = E / ((E - M) * (E + M)); return q * q / (LOSS_A + LOSS_B * E); }, a.ef, a.ei, 400) / m.GetRadiationLength()) * std::max(0., 1 + 0.038 * std::log(X)));
                    if (std::fabs(t - want) > 2e-3 * want) s.fail("multiple-width", "HighlandIntegral: grammage %.17g E=%.17g..%.17g: width %.17g instead of %.17g", a.x, a.ei, a.ef, t, want); }
                if (kind == HIGHLAND) { double X = a.x / m.GetRadiationLength(), bp = (a.ei - p.mass) * (a.ei + p.mass) / a.ei, want = a.x > 0 ? 13.6 / bp * std::fabs(p.charge) * std::sqrt(X) * std::max(0., 1 + 0.088 * std::log10(X)) : 0;
                    if (std::fabs(t - want) > 1e-6 * want) s.fail("multiple-width", "Highland: grammage %.17g E=%.17g: width %.17g instead of %.17g", a.x, a.ei, t, want); }
            } else if (a.r[0] > 1e-3 && a.r[0] < 1 - 1e-3) {
                if (std::fabs(q + w) > 2e-3 * (std::fabs(q) + std::fabs(w)) + 1e-3 * big) s.fail("multiple-symmetric", "%s: grammage %.17g E=%.17g: angles %.17g and %.17g for %.17g and its complement", nm[kind], a.x, a.ei, q, w, a.r[0]);
            }
        }
        }
    }
}
DST_SCENARIO_W("P14", p14_multiple, 2);

// ------------------------------------------------------------------ the container used by the propagation
void p14_container(Sim& s)
{
    s.scenario("container");
    auto p = particle(13); int med = (int)s.pick(n_media()); auto m = medium(med);
    int mk_ = (int)s.pick(3) - 1; double mm = s.of(std::vector<double>{1, 1, 0, 0.5, 2}); std::map<InteractionType, const Kind*> model; std::map<InteractionType, double> mult;
    std::vector<const Kind*> ks; for (auto& k : kinds()) if (s.chance(1, 2)) ks.push_back(&k);
    for (auto t : {InteractionType::Brems, InteractionType::Ioniz, InteractionType::Epair, InteractionType::Photonuclear}) if (s.chance(1, 3)) mult[t] = s.of(std::vector<double>{0, 0.5, 1, 1.5});
    std::unique_ptr<Scattering> sc; bool json = s.chance(1, 2), plain = mm == 1 && mult.empty();
    for (auto k : ks) model[k->type] = k;
    s.op("BUILD %s %zu", json ? "config" : "direct", ks.size());
    if (json) {
        nlohmann::json c = nlohmann::json::object(); if (mk_ >= 0) c["multiple_scattering"] = std::string(mk_ == HIGHLAND ? (s.pick(2) ? "Highland" : "highland") : "Moliere"); if (mm != 1 || s.pick(2)) c["multiple_scattering_multiplier"] = mm;
        if (!ks.empty()) { c["stochastic_deflection"] = nlohmann::json::array(); for (auto k : ks) { bool d = k->registered && s.pick(2); static const std::map<InteractionType, const char*> tn{{InteractionType::Brems, "brems"}, {InteractionType::Ioniz, "Ioniz"}, {InteractionType::Epair, "epair"}, {InteractionType::Photonuclear, "photonuclear"}};
            c["stochastic_deflection"].push_back(d ? std::string("default") + tn.at(k->type) : std::string(k->name)); } }
        if (!mult.empty()) for (auto& q : mult) c["stochastic_deflection_multiplier"][Type_Interaction_Name_Map.at(q.first)] = q.second;
        s.log("%s", c.dump().c_str());
        if (s.chance(1, 6)) { auto b = c; if (s.pick(2)) b["stochastic_deflection"].push_back("nosuch"); else b["multiple_scattering"] = "nosuch"; bool threw = false; try { make_scattering(b, p, m, crosses(p, med, m), false); } catch (const std::out_of_range&) { threw = true; } if (!threw) s.fail("container-config", "an unknown scattering model was accepted: %s", b.dump().c_str()); }
        sc = make_scattering(c, p, m, crosses(p, med, m), false);
    } else {
        std::vector<std::unique_ptr<sd::Parametrization>> v; for (auto k : ks) v.push_back(make_stochastic_deflection(k->name, p, m));
        std::unique_ptr<ms::Parametrization> mp = mk_ >= 0 ? mk(mk_, p, med, m) : nullptr; std::vector<std::pair<InteractionType, double>> sm(mult.begin(), mult.end());
        if (plain) sc = std::make_unique<Scattering>(std::move(mp), std::move(v)); else sc = std::make_unique<ScatteringMultiplier>(std::move(mp), std::move(v), mm, sm);
    }
    if (sc->MultipleScatteringRandomNumbers() != (mk_ >= 0 ? 4u : 0u)) s.fail("container-random-numbers", "multiple scattering asks for %zu random numbers", sc->MultipleScatteringRandomNumbers());
    int n = s.range(1, 8);
    for (int i = 0; i < n; ++i) {
        if (s.pick(3) == 0) {
            s.op("MULTIPLE"); auto a = gen_ms(s, p, HIGHLAND, nullptr); auto o = sc->CalculateMultipleScattering(a.x, a.ei, a.ef, a.r); ms::ScatteringOffset w; s.step(); s.nontrivial();
            if (mk_ >= 0) { w = mk(mk_, p, med, m)->CalculateRandomAngle(a.x, a.ei, a.ef, a.r); w.sx *= mm; w.sy *= mm; w.tx *= mm; w.ty *= mm; }
            if (!eq(o, w)) s.fail("container-multiple", "multiplier %g: offsets %.17g %.17g %.17g %.17g instead of %.17g %.17g %.17g %.17g", mm, o.sx, o.sy, o.tx, o.ty, w.sx, w.sy, w.tx, w.ty);
            continue;
        }
        const Kind& k0 = s.of(kinds()); s.op("DEFLECT"); bool has = model.count(k0.type); const Kind& k = has ? *model[k0.type] : k0;
        auto f = make_stochastic_deflection(k.name, p, m); size_t need = has ? f->RequiredRandomNumbers() : 0;
        if (sc->StochasticDeflectionRandomNumbers(k.type) != need) s.fail("container-random-numbers", "%s asks for %zu random numbers instead of %zu", k.name, sc->StochasticDeflectionRandomNumbers(k.type), need);
        Loss l; if (!gen_loss(s, k, p, med, m, need, l)) continue;
        UnitSphericalVector a, b(0, 0); s.step(); s.nontrivial(); if (undefined(k, [&] { return sc->CalculateStochasticDeflection(k.type, l.ei, l.ef, l.rnd, l.comp); }, a)) continue;
        if (has) { b = f->CalculateStochasticDeflection(l.ei, l.ef, l.rnd, l.comp); if (mult.count(k.type)) b.zenith *= mult[k.type]; }
        if (!same(a.zenith, b.zenith) || !same(a.azimuth, b.azimuth)) s.fail("container-deflection", "%s: deflection %.17g (azimuth %.17g) instead of %.17g (%.17g)", has ? k.name : "none", a.zenith, a.azimuth, b.zenith, b.azimuth);
    }
}
DST_SCENARIO_W("P14", p14_container, 1);
} // namespace
