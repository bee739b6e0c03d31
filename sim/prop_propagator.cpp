// P19 whole propagations through sectors
#include "fake.h"
#include <map>
#include "geo.h"
#include "PROPOSAL/Constants.h"
#include "PROPOSAL/EnergyCutSettings.h"
#include "PROPOSAL/Propagator.h"
#include "PROPOSAL/Secondaries.h"
#include "PROPOSAL/decay/DecayTable.h"
#include "PROPOSAL/density_distr/density_exponential.h"
#include "PROPOSAL/density_distr/density_homogeneous.h"
#include "PROPOSAL/density_distr/density_polynomial.h"
#include "PROPOSAL/math/MathMethods.h"
#include "PROPOSAL/particle/Particle.h"
#include "PROPOSAL/particle/ParticleDef.h"
#include "PROPOSAL/propagation_utility/ContRandBuilder.h"
#include "PROPOSAL/propagation_utility/DecayBuilder.h"
#include "PROPOSAL/propagation_utility/DisplacementBuilder.h"
#include "PROPOSAL/propagation_utility/InteractionBuilder.h"
#include "PROPOSAL/propagation_utility/PropagationUtility.h"
#include "PROPOSAL/propagation_utility/TimeBuilder.h"
#include "PROPOSAL/scattering/Scattering.h"
#include "PROPOSAL/scattering/multiple_scattering/Parametrization.h"
#include "PROPOSAL/scattering/stochastic_deflection/Parametrization.h"
using namespace PROPOSAL;
using namespace sim;
using namespace geo;
namespace {
typedef InteractionType IT;
const double MU = 105.6583745, C0 = 2.99792458e10;
// what the seams saw: random numbers, scattering angles, sampled losses and deflections, in order
struct Event { int kind; size_t draws; double g, ei, ef; std::array<double, 4> rnd; multiple_scattering::ScatteringOffset out; size_t target; double v; UnitSphericalVector ang; };
struct Log { std::vector<double> u; std::vector<Event> ev; Stream st; bool on = true; long throw_at = -1; };
Log* rec = nullptr;
struct Kick : multiple_scattering::Parametrization {                 // multiple scattering by angles that grow with the grammage
    double t0, g0; Kick(double t, double g) : multiple_scattering::Parametrization(MU), t0(t), g0(g) {}
    std::unique_ptr<multiple_scattering::Parametrization> clone() const override { return std::make_unique<Kick>(*this); }
    bool compare(const multiple_scattering::Parametrization&) const override { return true; }
    void print(std::ostream&) const override {}
    multiple_scattering::ScatteringOffset CalculateRandomAngle(double g, double ei, double ef, const std::array<double, 4>& r) override
    {
        S.step(); double w = t0 * std::sqrt(std::min(1., std::max(g, 0.) / g0)); multiple_scattering::ScatteringOffset o; o.sx = w * (r[0] - 0.5); o.sy = w * (r[1] - 0.5); o.tx = w * (r[2] + r[0] - 1); o.ty = w * (r[3] + r[1] - 1);
        if (rec && rec->on) rec->ev.push_back({0, rec->u.size(), g, ei, ef, r, o, 0, 0, {}}); return o;
    }
    double CalculateScatteringAngle(double, double, double, double) override { return 0; }
    double CalculateScatteringAngle2D(double, double, double, double, double) override { return 0; }
};
struct Turn : stochastic_deflection::Parametrization {               // deflection in one kind of interaction
    IT t; size_t n; double w; Turn(IT t, size_t n, double w) : t(t), n(n), w(w) {}
    std::unique_ptr<stochastic_deflection::Parametrization> clone() const override { return std::make_unique<Turn>(*this); }
    size_t RequiredRandomNumbers() const noexcept override { return n; }
    IT GetInteractionType() const noexcept override { return t; }
    UnitSphericalVector CalculateStochasticDeflection(double ei, double ef, std::vector<double> const& r, size_t c) const override
    {
        S.step(); UnitSphericalVector a(w * r.at(0), r.size() > 1 ? 6.283185307179586 * r.at(1) : 1.); if (rec && rec->on) rec->ev.push_back({2, rec->u.size(), 0, ei, ef, {}, {}, c, (double)r.size(), a}); return a;
    }
};
struct LossCross : FakeCross {
    double CalculateStochasticLoss(size_t h, double E, double r) override { double v = FakeCross::CalculateStochasticLoss(h, E, r); if (rec && rec->on) rec->ev.push_back({1, rec->u.size(), r, E, 0, {}, {}, h, v, {}}); return v; }
};
struct Sect { Spec g; std::shared_ptr<Geometry> geom; std::vector<std::shared_ptr<LossCross>> x; double a = 0, b = 0, k = 0, rate = 0, low = 0, rho = 1; bool exact = false, cont = false, varies = false; std::shared_ptr<const Density_distr> density; };
struct World { std::vector<Sect> s; std::vector<int> order; std::shared_ptr<ParticleDef> p; bool decays = false, open = false; double kick = 0, kick_g = 1, turn = 0, scale = 1; size_t turn_n = 0; };
// the library's objects of the world, built afresh; `around` adds an empty sector outside of everything
std::vector<Sector> sectors(const World& w, bool around = false)
{
    std::vector<Sector> r;
    for (int i : w.order) { const Sect& q = w.s[i];
        PropagationUtility::Collection c; std::vector<std::shared_ptr<CrossSectionBase>> l(q.x.begin(), q.x.end()); auto disp = std::shared_ptr<Displacement>(make_displacement(l, false)); c.displacement_calc = disp; c.interaction_calc = make_interaction(disp, l, false, false);
        if (q.exact) c.time_calc = make_time(disp, *w.p, false); else c.time_calc = std::make_shared<ApproximateTimeBuilder>(); if (w.decays) c.decay_calc = make_decay(disp, *w.p, false); if (q.cont) c.cont_rand = make_contrand(disp, l, false);
        if (w.kick > 0 || w.turn > 0) { std::unique_ptr<multiple_scattering::Parametrization> m; if (w.kick > 0) m.reset(new Kick(w.kick, w.kick_g)); std::vector<std::unique_ptr<stochastic_deflection::Parametrization>> d; if (w.turn > 0) d.emplace_back(new Turn(IT::Brems, w.turn_n, w.turn)); c.scattering = std::make_shared<Scattering>(std::move(m), std::move(d)); }
        r.emplace_back(q.geom, PropagationUtility(c), q.density); }
    if (around) { auto o = std::make_shared<Sphere>(Cartesian3D(0, 0, 0), 1e12, 0.); o->SetHierarchy(0); auto t = r[0]; r.emplace_back(o, std::get<1>(t), std::make_shared<Density_homogeneous>(1.)); }
    return r;
}
World gen_world(Sim& s)
{
    World w; double sc = w.scale = s.of(std::vector<double>{1e3, 1e4, 1e2, 1e5}); double life = s.of(std::vector<double>{2.1969811e-6, 1e-8, 1e-10, std::numeric_limits<double>::infinity()}); w.decays = std::isfinite(life);
    static std::map<double, std::shared_ptr<ParticleDef>> defs; auto& def = defs[life]; if (!def) def = std::make_shared<ParticleDef>("particle" + std::to_string(defs.size()), MU, MU, life, -1., HardComponentTables::EmptyTable, DecayTable(), 990000 + (int)defs.size(), 0); w.p = def;
    switch (s.pick(4)) { case 1: w.kick = s.of(std::vector<double>{0.02, 0.3, 1e-3, 1}); w.kick_g = sc * s.of(std::vector<double>{1, 0.01, 100, 1e-4}); if (s.chance(1, 2)) w.turn = s.of(std::vector<double>{0.1, 2}); break; case 2: w.turn = s.of(std::vector<double>{0.1, 0.01, 3}); break; default:; }
    w.turn_n = s.range(1, 3); w.open = s.chance(1, 8); int n = s.range(1, 4); bool cont = s.chance(1, 3); bool density = s.chance(1, 4) && w.kick == 0, equal = s.chance(1, 3);
    for (int i = 0; i < n; ++i) {
        Sect q; if (i == 0) { q.g.kind = 0; q.g.a = w.open ? 3 * sc : 1e10; } else { q.g = gen_spec(s, sc); q.g.c = 0.3 * q.g.c; if (s.chance(1, 4)) q.g.c = Cartesian3D(0, 0, 0); }
        q.g.h = i == 0 ? 1 : 1 + s.range(1, 3); if (!equal) for (auto& o : w.s) if (o.g.h == q.g.h) q.g.h += 3; q.geom = build(q.g);
        q.low = MU * s.of(std::vector<double>{1.1, 2, 20}); int m = s.range(1, 2); q.rho = s.of(std::vector<double>{1, 0.917, 11.35, 1.2e-3});
        for (int j = 0; j < m; ++j) {
            auto c = std::make_shared<LossCross>(); c->a = s.of(std::vector<double>{2, 0.5, 4}); c->b = s.of(std::vector<double>{3e-6, 1e-5, 1e-7}); c->k = cont ? s.of(std::vector<double>{1e-6, 1e-9, 1e-4}) : 0; c->low = q.low * (j ? 2 : 1); c->id = 11 + 10 * i + j; c->type = j ? IT::Epair : IT::Brems;
            for (int t = s.range(1, 2); t > 0; --t) c->targets.push_back({100 * i + 10 * j + t, s.of(std::vector<double>{1e-4, 1e-3, 1e-5, 1e-6})}); c->vmin = s.of(std::vector<double>{1e-3, 1e-2}); c->vmax = s.of(std::vector<double>{0.5, 0.9, 0.999}); if (cont) c->cut = std::make_shared<EnergyCutSettings>(500., 0.05, true);
            q.a += c->a; q.b += c->b; q.k += c->k; q.rate += c->total(1e9); q.x.push_back(c); }
        q.exact = s.chance(1, 2); q.cont = cont; CartesianAxis ax(Cartesian3D(0, 0, 1), Cartesian3D(0, 0, -20 * sc));
        int dens = density && i ? s.pick(3) : 0; q.varies = dens > 0; switch (dens) { case 0: q.density = std::make_shared<Density_homogeneous>(q.rho); break; case 1: q.density = std::make_shared<Density_exponential>(ax, sc * s.of(std::vector<double>{5e3, 30, -30, 10}), 0, q.rho); break; default: q.density = std::make_shared<Density_polynomial>(ax, Polynom(std::vector<double>{1, s.of(std::vector<double>{1e-4, 0.03, -0.02}) / sc}), q.rho); }
        w.s.push_back(q); w.order.insert(w.order.begin() + s.pick(w.order.size() + 1), i);
    }
    return w;
}
// a point on the border of a volume, and the normal there
bool border_point(Sim& s, const Spec& g, const Geometry& o, Cartesian3D& p, Cartesian3D& n)
{
    Cartesian3D d = unit_dir(s); auto t = o.DistanceToBorder(p, d); if (!(t.first > 0)) return false; p = p + (t.second > 0 && s.chance(1, 2) ? t.second : t.first) * d; Cartesian3D r = p - g.c; double half[3] = {g.a / 2, g.b / 2, g.d / 2}; int k = 2;
    if (g.kind == 1) { for (int i = 0; i < 3; ++i) if (std::fabs(r[i]) / half[i] > std::fabs(r[k]) / half[k]) k = i; n = Cartesian3D(k == 0, k == 1, k == 2); } else if (g.kind == 2 && std::fabs(std::fabs(r[2]) - g.d / 2) < 1e-9 * g.d) n = Cartesian3D(0, 0, 1); else { n = g.kind == 2 ? Cartesian3D(r[0], r[1], 0) : r; n.normalize(); }
    return true;
}
struct Request { ParticleState p; double max, min; unsigned h; uint64_t seed; unsigned extreme; };
Request gen_request(Sim& s, const World& w)
{
    Request r; auto& q = s.of(w.s); Cartesian3D at = s.chance(1, 3) ? Cartesian3D(0, 0, 0) : gen_pos(s, q.g); if (&q == &w.s[0] || at.magnitude() > (w.open ? 3 : 100) * w.scale) at = w.scale * (w.open ? 1 : 3) * s.unit() * unit_dir(s); Cartesian3D d = gen_dir(s, q.g, at), n; if (w.kick > 0 && s.chance(1, 3) && &q != &w.s[0] && border_point(s, q.g, *q.geom, at, n)) { d = unit_dir(s); d = d - (d * n) * n + s.of(std::vector<double>{1e-3, -1e-3, 0.03, -0.03}) * n; if (d.magnitude() > 0.01) d.normalize(); else d = n; s.count("started_along_border"); } if (d[2] != 0 && std::fabs(d[2]) < 1e-4) { d = Cartesian3D(d[0], d[1], 0); d.normalize(); }
    r.p = ParticleState((ParticleType)w.p->particle_type, at, d, 0, 0, 0); double low = w.s[0].low; r.p.energy = s.chance(1, 10) ? low * s.of(std::vector<double>{1, 0.99, 1.5, 1 / 1.1}) : s.loguniform(2 * low, s.of(std::vector<double>{1e5, 1e6, 1e4})); if (s.chance(1, 3)) { r.p.time = 1e-5; r.p.propagated_distance = w.scale; }
    r.max = s.chance(1, 2) ? 1e20 : r.p.propagated_distance + w.scale * s.of(std::vector<double>{1, 0.1, 10, 3, 0.3, 0, -0.1}); r.min = s.chance(2, 3) ? 0 : s.of(std::vector<double>{3 * low, r.p.energy / 2, r.p.energy / 10, 1.5 * low, 2 * r.p.energy}); r.h = s.chance(2, 3) ? 0 : s.range(1, 4); r.seed = s.pick(1ull << 48); r.extreme = s.of(std::vector<unsigned>{0, 10, 0}); return r;
}
struct Step { ParticleState st; IT type; size_t target; };
struct Result { int kind = 0; std::vector<Step> r; std::vector<double> u; std::vector<Event> ev; std::string what; };   // 0 track, 1 outside of all sectors, 2 cross section, 3 memory, 4 random numbers, 5 other
Result propagate(Propagator& p, const Request& q, long rng_fault = -1, long alloc_fault_at = -1, bool* hit = nullptr)
{
    Log l; l.st.p = Prng(q.seed); l.st.extreme = q.extreme; l.throw_at = rng_fault; l.u.reserve(4096); l.ev.reserve(4096); rec = &l;
    std::function<double()> f = [&l] { if ((long)l.u.size() == l.throw_at) { l.throw_at = -2; throw RngFault(); } double x = l.st(); if (x == 0) x = 0.5; l.u.push_back(x); return x; };
    RandomGenerator::Get().SetRandomNumberGenerator(f); Result r; std::unique_ptr<Secondaries> t;
    try {
        if (alloc_fault_at >= 0) { AllocScope a(alloc_fault_at); struct Hit { bool* h; ~Hit() { if (h) *h = alloc_fault.fired; alloc_fault.armed = false; } } g{hit}; Secondaries o = p.Propagate(q.p, q.max, q.min, q.h); alloc_fault.armed = false; t = std::make_unique<Secondaries>(std::move(o)); }
        else t = std::make_unique<Secondaries>(p.Propagate(q.p, q.max, q.min, q.h));
    } catch (const FakeFault&) { r.kind = 2; } catch (const RngFault&) { r.kind = 4; } catch (const std::bad_alloc&) { r.kind = 3; } catch (const std::runtime_error& e) { r.kind = 1; r.what = e.what(); } catch (const std::exception& e) { r.kind = 5; r.what = e.what(); }
    rec = nullptr; RandomGenerator::Get().SetDefaultRandomNumberGenerator(); r.u.swap(l.u); r.ev.swap(l.ev); if (l.st.fired_extreme) S.count("fault.rng.edge_values", l.st.fired_extreme);
    if (t) { auto a = t->GetTrack(); auto b = t->GetTrackTypes(); auto c = t->GetTargetHashes(); for (size_t i = 0; i < a.size(); ++i) r.r.push_back({a[i], b[i], c[i]}); }
    return r;
}
// ------------------------------------------------------------------ the model
const Sect* sector_at(const World& w, const Cartesian3D& p, const Cartesian3D& d) { const Sect* r = nullptr; for (int i : w.order) { auto& q = w.s[i]; if (q.geom->IsInside(p, d) && (!r || q.g.h > r->g.h)) r = &q; } return r; }
double border(const World& w, const Sect& q, const Cartesian3D& p, const Cartesian3D& d) { double b = q.geom->DistanceToBorder(p, d).first; bool first = true; for (int i : w.order) { auto& o = w.s[i]; if (&o == &q) first = false; if (o.g.h > q.g.h || (first && o.g.h == q.g.h)) { double t = o.geom->DistanceToBorder(p, d).first; if (t >= 0) b = std::min(b, t); } } return b; }
ld grammage(const Sect& q, ld Ei, ld Ef) { return log1pl(q.b * (Ei - Ef) / (q.a + q.b * Ef)) / q.b; }
ld energy_after(const Sect& q, ld Ei, ld X) { return Ei + (Ei + (ld)q.a / q.b) * expm1l(-q.b * X); }
double weighted(const Sect& q, double Ei, double Ef, const std::function<double(double)>& f) { if (!(Ei > Ef)) return 0; return quad([&](double E) { return f(E) / (q.a + q.b * E); }, Ef, Ei, 24); }
double momentum(double E) { return std::sqrt((E - MU) * (E + MU)); }
std::string show(const ParticleState& p) { char t[300]; snprintf(t, sizeof t, "E=%.12g at (%.12g,%.12g,%.12g) along (%.9g,%.9g,%.9g) t=%.12g s=%.12g", p.energy, p.position[0], p.position[1], p.position[2], p.direction[0], p.direction[1], p.direction[2], p.time, p.propagated_distance); return t; }
void check(Sim& s, const World& w, const Request& q, const Result& r)
{
    size_t n = 0, e = 0, i = 0, N = r.r.size(); const auto& R = r.r; const double unit = w.kick > 0 || w.turn > 0 ? 2e-7 : 1e-9;      // angles of vertical directions are rounded to 1e-8
    if (!N || !(R[0].st == q.p) || R[0].type != IT::ContinuousEnergyLoss) s.fail("start", "the track does not start with the given state");
    for (size_t k = 1; k < N; ++k) { auto &a = R[k - 1].st, &b = R[k].st; char t[60]; snprintf(t, sizeof t, "state %d of %d", (int)k, (int)N - 1);      // invariants of any track
        if (!std::isfinite(b.energy) || !std::isfinite(b.time) || !std::isfinite(b.propagated_distance) || !std::isfinite(b.position.magnitude())) s.fail("finite", "%s: %s", t, show(b).c_str());
        if (b.energy > a.energy * (1 + 1e-9)) s.fail("energy-gained", "%s: %s after %s", t, show(b).c_str(), show(a).c_str()); if (b.energy < 0) s.fail("energy", "%s: %s", t, show(b).c_str()); if (b.time < a.time) s.fail("time", "%s: %s after %s", t, show(b).c_str(), show(a).c_str()); if (b.propagated_distance < a.propagated_distance) s.fail("backwards", "%s: %s after %s", t, show(b).c_str(), show(a).c_str());
        if (b.propagated_distance > q.max + 1e-3) s.fail("max-distance", "%s: %s is beyond %.17g", t, show(b).c_str(), q.max); if (std::fabs(b.direction.magnitude() - 1) > unit) s.fail("direction", "%s: %s", t, show(b).c_str());
        double len = b.propagated_distance - a.propagated_distance, move = (b.position - a.position).magnitude(); if (std::fabs(len - move) > unit * len + 1e-12 * (b.propagated_distance + b.position.magnitude() + a.position.magnitude())) s.fail("position", "%s: %s after %s", t, show(b).c_str(), show(a).c_str()); }
    const Sect* cur = sector_at(w, q.p.position, q.p.direction); std::string at, took; auto bad = [&](const char* key, const char* what) { for (size_t k = 0; k < N && k < 40; ++k) { auto* z = sector_at(w, R[k].st.position, R[k].st.direction); s.log("  %d: %s type %d, hierarchy %d", (int)k, show(R[k].st).c_str(), (int)R[k].type, z ? (int)z->g.h : -1); } s.fail(key, "step %d of %d, %s: %s after %s%s", (int)i, (int)N - 1, what, show(R[std::min(i, N - 1)].st).c_str(), show(R[i ? std::min(i, N) - 1 : 0].st).c_str(), at.c_str()); };
    for (;;) {
        S.step(); const ParticleState p = R[i].st; if (!cur) bad("sector", "outside of all sectors"); double low = std::max(q.min, cur->low); at.clear();
        if (p.energy < low || p.propagated_distance > q.max) { if (i + 1 != N) { ++i; bad("end", "propagated although below the limit"); } took += 'n'; s.count("end.nothing_to_do"); break; }
        if (++i == N) bad("end", "the track ends although the particle could go on");
        auto draw = [&] { if (n >= r.u.size()) bad("draws", "a random number is missing"); return r.u[n++]; };
        double ud = w.decays ? draw() : 0, ui = draw(); const ParticleState& o = R[i].st; if (R[i].type != IT::ContinuousEnergyLoss) bad("order", "no continuous step");
        Cartesian3D dir = p.direction, after = p.direction; const Sect* q2 = cur; double ef = -1;
        bool lost_way = false; size_t e0 = e; if (w.kick > 0) {
            if (e >= r.ev.size() || r.ev[e].kind || r.ev[e].draws != n + 4) bad("scattering", "not scattered, or with other random numbers"); std::array<double, 4> now; std::copy(r.u.begin() + n, r.u.begin() + n + 4, now.begin()); n += 4;
            for (bool first = true;; first = false) { auto& v = r.ev[e]; if (!first && v.draws == n + 4) { std::copy(r.u.begin() + n, r.u.begin() + n + 4, now.begin()); n += 4; took += 'r'; s.count("resampled"); } if (v.ei != p.energy || v.rnd != now) bad("scattering", "scattered with other values"); ++e; if (e >= r.ev.size() || r.ev[e].kind || r.ev[e].ei != p.energy || (r.ev[e].draws != n && r.ev[e].draws != n + 4)) break; }
            if (e - e0 > PropagationSettings::ADVANCE_PARTICLE_MAX_STEPS) { lost_way = true; took += 'g'; s.count("steps.gave_up"); } auto& v = r.ev[e - 1]; std::tie(dir, after) = multiple_scattering::ScatterInitialDirection(p.direction, v.out); ef = v.ef; s.count("steps.scattered");
        }
        q2 = sector_at(w, p.position, dir); if (!q2) bad("sector", "scattered out of all sectors"); if (q2 != cur) { took += 'o'; s.count("scattered_into_another_sector"); }
        const Sect& z = *q2; double E = p.energy, len = o.propagated_distance - p.propagated_distance, eps = 1.3e-5 * E + 1.5e-10 * E * std::log(E);
        // where the particle would decay, interact or be too slow
        double Ei = (double)energy_after(*cur, E, std::min<ld>(-logl(ui) / cur->rate, grammage(*cur, E, cur->low))); if (-logl(ui) / cur->rate >= grammage(*cur, E, cur->low)) Ei = cur->low; double Ed = 0;
        if (w.decays) { double want = -std::log(ud) * w.p->lifetime * cur->density->Evaluate(p.position) * C0 / MU; auto F = [&](double x) { return weighted(*cur, E, x, [](double t) { return 1 / momentum(t); }); }; if (F(cur->low) <= want) Ed = cur->low; else { double a = cur->low, b = E; for (int k = 0; k < 60 && b - a > 1e-9 * E; ++k) { double m = 0.5 * (a + b); (F(m) > want ? a : b) = m; } Ed = 0.5 * (a + b); } }
        double cand[3] = {w.decays ? Ed : 0, low, Ei}; int kind = 0; for (int k = 1; k < 3; ++k) if (cand[k] > cand[kind]) kind = k; double next = cand[kind]; if (q2 != cur && next < q2->low) { cand[1] = next = std::min(E, q2->low); kind = 1; s.count("limit_of_other_sector"); } bool sure = true; for (int k = 0; k < 3; ++k) if (k != kind && next - cand[k] < 2 * eps + 2e-3 * (E - next) && !(next == cand[k] && next == cur->low)) sure = false;
        double X = z.density->Calculate(p.position, p.direction, len), Xn = E > next ? (double)grammage(z, E, next) : 0, tolX = 2e-3 * Xn + 2 * eps / (z.a + z.b * next); if (z.varies && p.direction[2] != 0) tolX += 2e-12 * w.scale * z.rho / std::fabs(p.direction[2]); double B = border(w, z, p.position, dir), M = q.max - p.propagated_distance, scale = 1e-12 * (p.position.magnitude() + p.propagated_distance + len);
        { char t[400]; snprintf(t, sizeof t, " [decay %.12g limit %.12g interaction %.12g; grammage %.12g of %.12g; length %.12g, border %.12g, limit %.12g; hierarchy %u]", cand[0], cand[1], cand[2], X, Xn, len, B, M, z.g.h); at = t; }
        bool atI = std::fabs(X - Xn) <= tolX, atB = std::fabs(len - B) <= scale + 1e-9 * len, atM = std::fabs(len - M) <= scale; int got = -1; if (i + 1 < N && R[i + 1].type == IT::Decay) got = 0; else if (i + 1 < N && R[i + 1].type != IT::ContinuousEnergyLoss) got = 2;
        if (len > B + 1e-3 + scale) bad("across-border", "the step crosses the border"); if (X > Xn + tolX) bad("too-far", "the step is longer than the losses allow"); if (!atI && !atB && !atM) bad("stopped", "the step stops for no reason");
        if (got >= 0 && !atI) bad("interaction", "interaction or decay before its energy is reached"); if (got >= 0 && sure && got != kind) bad("interaction", "a later interaction or decay came first");
        if (got < 0 && !atB && !atM && sure && kind != 1) bad("interaction", "the interaction or decay did not happen"); if (got < 0 && !atB && !atM) got = 1; s.nontrivial();
        if (!(o.position == p.position + len * dir) && (o.position - (p.position + len * dir)).magnitude() > scale + 1e-9 * len) bad("position", "displaced otherwise"); if (!(o.direction == after)) bad("direction", "directed otherwise"); if (ef >= 0 && w.kick > 0 && !lost_way) { double g = r.ev[e - 1].g; if (std::fabs(g - X) > 1e-6 * X + 1e-3 * z.rho * 1.001 + scale * z.rho && !(atI && std::fabs(g - X) < tolX)) bad("scattering", "scattered by another grammage"); }
        // the energy, with its fluctuations
        double mean = std::max((double)energy_after(z, E, X), 0.), lost = E - mean, tolE = 2e-4 * lost + eps * (z.a + z.b * E) / (z.a + z.b * std::max(mean, 1.)); if (got >= 0 && std::fabs(mean - next) < tolE + eps + 3e-3 * lost) { mean = next; } tolE += 1e-3 * lost * (got >= 0) + 1e-3 * z.rho * (z.a + z.b * E) * (w.kick > 0 && atB);
        bool limit = got == 1 || (got < 0 && kind == 1 && atI);
        if (z.cont && got < 0 && kind == 1 && atI && (atB || atM)) { s.count("ambiguous"); return; }       // random numbers drawn or not
        if (!z.cont || limit) { if (std::fabs(o.energy - mean) > tolE) bad("energy", "not the energy after this grammage"); }
        else {
            double u = draw(), lo = std::max(low, z.low), sg = std::sqrt(weighted(z, E, mean, [&](double t) { return z.k * t * t; })); if (o.energy > E * (1 + 1e-12) || o.energy < lo * (1 - 1e-9)) bad("energy", "randomized out of its limits");
            if (lost > 4 * tolE && sg > 1e-3 * eps) { auto P = [&](double v) { return 0.5 * std::erfc(-(v - mean) / sg / std::sqrt(2)); }; double a = P(lo), b = P(E); if (b - a > 1e-6) { double q0 = (P(o.energy) - a) / (b - a), d = 0.02 + 3 * tolE / sg; if (std::fabs(q0 - u) > d) { char t[100]; snprintf(t, sizeof t, " quantile %.12g drawn %.12g", q0, u); at += t; bad("energy", "randomized by another number"); } s.count("steps.randomized"); } }
        }
        double rho = len > 0 && X > 0 ? X / len : z.density->Evaluate(p.position), dt = z.exact ? weighted(z, E, mean, [](double t) { return t / momentum(t) / C0; }) / rho : len / C0; double tolT = z.exact ? (5e-3 * len * rho + 2 * eps / (z.a + z.b * mean)) * std::max(1., E / momentum(std::max(mean, MU * 1.01))) / rho / C0 + 1e-12 * o.time + 2e-3 / C0 : (1e-9 * len + 1e-4 * (w.kick > 0 && atB) + 1e-12 * (p.propagated_distance + p.position.magnitude())) / C0 + 1e-14 * o.time; if (std::fabs(o.time - p.time - dt) > tolT) { char t[100]; snprintf(t, sizeof t, " %.12g instead of %.12g", o.time - p.time, dt); at += t; bad("time", "other time"); }
        if (got == 2 || got == 0) {
            const ParticleState& l = R[++i].st; if (!(l.position == o.position) || l.time != o.time || l.propagated_distance != o.propagated_distance) bad("interaction", "moved by an interaction");
            if (got == 0) { if (!(l == o)) bad("decay", "changed by the decay"); took += 'D'; s.count("end.decay"); if (i + 1 != N) { ++i; bad("end", "continues after the decay"); } break; }
            double u = draw(); if (e >= r.ev.size() || r.ev[e].kind != 1 || r.ev[e].draws != n) bad("loss", "no loss sampled"); auto& v = r.ev[e++]; double all = 0, sum = 0; for (auto& x : z.x) all += x->total(o.energy); bool ok = false;
            for (auto& x : z.x) for (auto& t : x->targets) { double a = sum / all, b = (sum + t.second) / all; sum += t.second; if (u < a - 1e-13 || u > b + 1e-13 || R[i].type != x->type || R[i].target != t.first || v.target != t.first) continue; double f = std::min(1., std::max(0., (sum - u * all) / t.second)), vv = x->vmin * std::pow(x->vmax / x->vmin, f); if (std::fabs(v.v - vv) < 1e-6 * vv + 1e-11 * all / t.second) ok = true; }
            if (!ok) bad("loss", "a loss that does not belong to its random number"); if (v.ei != o.energy || l.energy != o.energy * (1 - v.v)) bad("loss", "lost another energy"); Cartesian3D d = o.direction;
            if (w.turn > 0) { if (R[i].type == IT::Brems) { for (size_t k = 0; k < w.turn_n; ++k) draw(); if (e >= r.ev.size() || r.ev[e].kind != 2 || r.ev[e].draws != n || r.ev[e].ei != o.energy || r.ev[e].target != R[i].target || std::fabs(r.ev[e].ef - l.energy) > 1e-12 * l.energy) bad("deflection", "not deflected, or with other values"); d.deflect(std::cos(r.ev[e].ang.zenith), r.ev[e].ang.azimuth); ++e; s.count("deflected"); } else d.deflect(1, 0); }
            if ((l.direction - d).magnitude() > 1e-12) bad("deflection", "deflected otherwise"); took += 'l'; s.count("losses"); if (l.energy <= low) { took += 'L'; s.count("end.loss"); if (i + 1 != N) { ++i; bad("end", "continues below the limit"); } break; } cur = q2; continue;
        }
        if (got == 1) { took += 'E'; s.count("end.limit"); if (i + 1 != N) { ++i; bad("end", "continues at the limit"); } break; }
        if (atM && (!atB || i + 1 == N)) { took += 'M'; s.count("end.distance"); if (i + 1 != N) { ++i; bad("end", "continues at the maximal distance"); } break; }
        const Sect* nx = sector_at(w, o.position, o.direction); if (!nx) bad("sector", "left all sectors"); took += 'b'; s.count("border"); if (z.g.h > q.h && nx->g.h < q.h) { took += 'H'; s.count("end.hierarchy"); if (i + 1 != N) { ++i; bad("end", "continues after it left the volume"); } break; } cur = nx;
    }
    if (took.size() > 60) took.resize(60); s.op("took %s", took.c_str()); if (n != r.u.size() || e != r.ev.size()) { s.fail("draws", "%d random numbers used for %d", (int)r.u.size(), (int)n); }
}
bool equal(const Result& a, const Result& b)
{
    if (a.kind != b.kind || a.r.size() != b.r.size() || a.u.size() != b.u.size()) return false;
    for (size_t i = 0; i < a.r.size(); ++i) { auto &x = a.r[i], &y = b.r[i]; if (x.type != y.type || x.target != y.target || bits(x.st.energy) != bits(y.st.energy) || bits(x.st.time) != bits(y.st.time) || bits(x.st.propagated_distance) != bits(y.st.propagated_distance) || !(x.st.position == y.st.position) || !(x.st.direction == y.st.direction)) return false; } return true;
}
void propagation(Sim& s)
{
    s.scenario("propagation"); World w = gen_world(s); for (auto& q : w.s) s.log("sector %u %s: loss %g + %g E, rate %g, limit %g, density %g%s", q.g.h, str(q.g).c_str(), q.a, q.b, q.rate, q.low, q.rho, q.exact ? ", exact time" : "");
    s.log("lifetime %g scattering %g deflection %g randomized %d open %d", w.p->lifetime, w.kick, w.turn, w.s[0].cont, w.open);
    struct Steps { unsigned old = PropagationSettings::ADVANCE_PARTICLE_MAX_STEPS; ~Steps() { PropagationSettings::ADVANCE_PARTICLE_MAX_STEPS = old; } } steps; if (w.kick > 0) PropagationSettings::ADVANCE_PARTICLE_MAX_STEPS = s.of(std::vector<unsigned>{200, 3, 30, 1});
    Propagator p(*w.p, sectors(w)); std::vector<std::pair<Request, Result>> done;
    for (int k = s.range(1, 4); k > 0; --k) {
        Request q = gen_request(s, w); s.op("propagate"); s.log("%s to %.17g min %.17g hierarchy %u seed %llu", show(q.p).c_str(), q.max, q.min, q.h, (unsigned long long)q.seed);
        if (s.chance(1, 4)) {                                        // the same propagation fails first
            long at = s.chance(1, 2) ? s.range(0, 12) : s.range(0, 400); int kind = s.pick(3); Result r; bool hit = false; std::vector<long> f; for (auto& z : w.s) for (auto& x : z.x) f.push_back(x->fired);
            if (kind == 0) { auto& x = *s.of(s.of(w.s).x); x.throw_at = x.calls + at * 20; long before = x.fired; r = propagate(p, q); x.throw_at = -1; hit = x.fired > before; if (hit != (r.kind == 2)) s.fail("swallowed", "the failure of a cross section was swallowed"); if (hit) s.fault("cross.throws"); }
            else if (kind == 1) { r = propagate(p, q, at); hit = r.kind == 4; if (hit) s.fault("rng.throws"); }
            else { r = propagate(p, q, -1, at, &hit); if (hit && r.kind != 3) s.fail("swallowed", "a failing allocation was swallowed: %d %s", r.kind, r.what.c_str()); if (hit) s.fault("alloc.propagate"); }
        }
        Result r = propagate(p, q); if (r.kind == 5) s.fail("refused", "%s", r.what.c_str());
        if (w.open && q.h == 0) {                                    // does it leave the world?
            Propagator o(*w.p, sectors(w, true)); Request q2 = q; Result r2 = propagate(o, q2); bool left = false; for (auto& x : r2.r) if (!sector_at(w, x.st.position, x.st.direction)) left = true;
            if (r.kind == 1 && !left && r2.kind == 0 && w.kick == 0) s.fail("refused", "%s although it stays inside", r.what.c_str()); if (left && r.kind != 1 && w.kick == 0 && !sector_at(w, q.p.position, q.p.direction)) s.fail("outside", "a particle outside of all sectors was propagated"); s.count("worlds.open");
        } else if (r.kind == 1 && !w.open) s.fail("refused", "%s", r.what.c_str());
        if (r.kind == 0) check(s, w, q, r); for (auto& x : r.r) s.val(x.st.energy); s.count("tracks"); s.count("steps", r.r.size()); done.push_back({q, r});
        if (s.chance(1, 3)) { auto& d = s.of(done); Result a; if (s.chance(1, 2)) { s.op("again, elsewhere"); Propagator o(*w.p, sectors(w)); a = propagate(o, d.first); } else { s.op("again"); a = propagate(p, d.first); } if (!equal(a, d.second)) s.fail("history", "the same particle and random numbers give another track: %d and %d states", (int)a.r.size(), (int)d.second.r.size()); }
    }
}
DST_SCENARIO("P19", propagation);
} // namespace
