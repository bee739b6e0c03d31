// P20 what a recorded track reports
#include "fake.h"
#include "geo.h"
#include "PROPOSAL/Constants.h"
#include "PROPOSAL/Propagator.h"
#include "PROPOSAL/Secondaries.h"
#include "PROPOSAL/decay/DecayChannel.h"
#include "PROPOSAL/density_distr/density_exponential.h"
#include "PROPOSAL/density_distr/density_homogeneous.h"
#include "PROPOSAL/density_distr/density_polynomial.h"
#include "PROPOSAL/math/MathMethods.h"
#include "PROPOSAL/particle/Particle.h"
#include "PROPOSAL/particle/ParticleDef.h"
#include "PROPOSAL/propagation_utility/DisplacementBuilder.h"
#include "PROPOSAL/propagation_utility/InteractionBuilder.h"
#include "PROPOSAL/propagation_utility/PropagationUtility.h"
#include "PROPOSAL/propagation_utility/TimeBuilder.h"
using namespace PROPOSAL;
using namespace sim;
using namespace geo;
namespace {
typedef InteractionType IT;
const double MU = 105.6583745, C0 = 2.99792458e10;
struct Sect { Spec g; std::shared_ptr<Geometry> geom; std::shared_ptr<FakeCross> cross; std::shared_ptr<const Density_distr> density; bool exact_time; double rho; };
struct World { std::vector<Sect> s; std::vector<Sector> sectors; bool straight = false; };
ld grammage(const Sect& q, ld Ei, ld Ef) { ld a = q.cross->a, b = q.cross->b; return log1pl(b * (Ei - Ef) / (a + b * Ef)) / b; }
ld energy_after(const Sect& q, ld Ei, ld X) { ld a = q.cross->a, b = q.cross->b; return Ei + (Ei + a / b) * expm1l(-b * X); }
double elapsed(const Sect& q, double Ei, double Ef, double X, const Cartesian3D& at)
{
    double rho = q.density->Evaluate(at); if (!q.exact_time || Ei == Ef) return X / rho / C0;
    auto f = [&](double E) { return E / (std::sqrt((E - MU) * (E + MU)) * C0 * (q.cross->a + q.cross->b * E)); };
    return quad(f, Ef, Ei, 24) / rho;
}
const Sect* sector_at(const World& w, const Cartesian3D& p, const Cartesian3D& d)
{
    const Sect* r = nullptr; for (auto& q : w.s) if (q.geom->IsInside(p, d) && (!r || q.g.h > r->g.h)) r = &q; return r;
}
double border(const World& w, const Sect& q, const Cartesian3D& p, const Cartesian3D& d)
{
    double b = q.geom->DistanceToBorder(p, d).first; for (auto& o : w.s) if (o.g.h > q.g.h) { double t = o.geom->DistanceToBorder(p, d).first; if (t >= 0) b = std::min(b, t); } return b;
}
World gen_world(Sim& s, double sc)
{
    World w; int n = s.range(1, 3); w.straight = s.chance(1, 2);
    for (int i = 0; i < n; ++i) {
        Sect q; if (i == 0) { q.g.kind = 0; q.g.a = 1e4 * sc; q.g.c = Cartesian3D(0, 0, 0); } else { q.g = gen_spec(s, sc); q.g.in = 0; q.g.c = 0.3 * q.g.c; }
        q.g.h = i; q.geom = build(q.g); q.cross = std::make_shared<FakeCross>(); q.cross->a = s.of(std::vector<double>{2, 1.5, 4}); q.cross->b = s.of(std::vector<double>{3e-6, 1e-5, 1e-7}); q.cross->low = 106; q.cross->targets = {{7, 1e-4}}; q.cross->id = 11 + i;
        q.rho = s.of(std::vector<double>{1, 0.917, 11.35, 1.2e-3}); q.exact_time = s.chance(1, 2);
        CartesianAxis ax(Cartesian3D(0, 0, 1), Cartesian3D(0, 0, -1e3 * sc));
        switch (w.straight ? s.pick(3) : 0) {
        case 0: q.density = std::make_shared<Density_homogeneous>(q.rho); break;
        case 1: q.density = std::make_shared<Density_exponential>(ax, 5e3 * sc, 0, q.rho); break;
        default: q.density = std::make_shared<Density_polynomial>(ax, Polynom(std::vector<double>{1, 1e-4 / sc}), q.rho); }
        std::vector<std::shared_ptr<CrossSectionBase>> cl{q.cross}; PropagationUtility::Collection col; auto disp = std::shared_ptr<Displacement>(make_displacement(cl, false));
        col.displacement_calc = disp; col.interaction_calc = make_interaction(disp, cl, false, false);
        if (q.exact_time) col.time_calc = make_time(disp, ParticleDef::GetParticleDefForType(13), false); else col.time_calc = std::make_shared<ApproximateTimeBuilder>();
        w.s.push_back(q); w.sectors.insert(w.sectors.begin() + s.pick(w.sectors.size() + 1), Sector(q.geom, PropagationUtility(col), q.density));
    }
    return w;
}
Cartesian3D bend(Sim& s, const Cartesian3D& d, double angle)
{
    Cartesian3D r = d; r.deflect(std::cos(angle * s.unit()), s.uniform(0, 6.28)); r.normalize(); return r;
}
// the recorded track, as the model keeps it
struct Rec { ParticleState st; IT type; size_t target; const Sect* sect = nullptr; Cartesian3D disp; double len = 0; };   // sect, disp, len: of the continuous step that ends here
struct Model { std::vector<Rec> r; };
struct Piece { ld a, b; };                                               // stretches of the track inside a volume, by length along the track
struct Cut { bool sure = true; std::vector<Piece> in; bool starts_in = false, ends_in = false; ld total = 0; std::vector<ld> at; };
Cut cut_track(const Model& m, const Spec& g)
{
    Cut c; ld tol = 0; for (size_t i = 1; i < m.r.size(); ++i) {
        c.at.push_back(c.total); const Rec& e = m.r[i]; if (!(e.len > 0)) continue;
        const Cartesian3D& p = m.r[i - 1].st.position; Ray r = trace(g, p, e.disp); ld t = tolerance(g, p, e.disp); tol = std::max(tol, 20 * t);
        if (!robust(g, p, e.disp, r, t)) c.sure = false;
        for (auto& v : r.mat) { ld a = std::max<ld>(v.a, 0), b = std::min<ld>(v.b, e.len); if (b - a > 0) c.in.push_back({c.total + a, c.total + b});
            if (fabsl(b - a) < tol) c.sure = false; }
        c.total += e.len;
    }
    c.at.push_back(c.total);
    std::vector<Piece> j; for (auto& p : c.in) { if (!j.empty() && p.a - j.back().b < tol) { if (p.a - j.back().b > 1e-9L) { for (auto v : c.at) if (fabsl(v - p.a) < tol) goto joint; c.sure = false; } joint: j.back().b = p.b; } else j.push_back(p); } c.in = j;
    for (auto& p : c.in) if (p.b - p.a < 2 * tol) c.sure = false;
    if (!c.in.empty()) { c.starts_in = c.in.front().a <= 0; c.ends_in = c.in.back().b >= c.total;                     // starts or ends on a border: not judged
        if (!c.starts_in && c.in.front().a < tol) c.sure = false; if (!c.ends_in && c.total - c.in.back().b < tol) c.sure = false; }
    for (int e = 0; e < 2; ++e) {                                        // is an end of the track at a border, seen from the other side?
        size_t k = 0; if (e == 0) { for (k = 1; k < m.r.size() && !(m.r[k].len > 0); ++k); } else { for (k = m.r.size() - 1; k > 0 && !(m.r[k].len > 0); --k); }
        if (k == 0 || k >= m.r.size()) { c.sure = false; break; }
        const Cartesian3D& p = e ? m.r.back().st.position : m.r[0].st.position; for (auto d : {m.r[k].disp, e ? m.r.back().st.direction : m.r[0].st.direction}) for (auto x : trace(g, p, d).cross) if (fabsl(x) < tol) c.sure = false;
    }
    return c;
}
// the state after length x of the step that ends at record k
ParticleState interpolate(const Model& m, size_t k, ld x)
{
    const Rec& e = m.r[k]; const ParticleState& i = m.r[k - 1].st; ParticleState o = i; double X = e.sect->density->Calculate(i.position, i.direction, (double)x);
    o.type = 13; o.energy = (double)energy_after(*e.sect, i.energy, X); o.position = i.position + (double)x * e.disp; o.direction = e.disp; o.propagated_distance = i.propagated_distance + (double)x;
    o.time = i.time + elapsed(*e.sect, i.energy, o.energy, X, i.position); return o;
}
std::string show(const ParticleState& p) { char t[300]; snprintf(t, sizeof t, "type %d E=%.12g at (%.12g,%.12g,%.12g) along (%.9g,%.9g,%.9g) t=%.12g s=%.12g", p.type, p.energy, p.position[0], p.position[1], p.position[2], p.direction[0], p.direction[1], p.direction[2], p.time, p.propagated_distance); return t; }
// integrals over ln E take limits that agree to 1e-10 for the same: energies that agree to 1e-10 ln E
double resolution(const Rec& step, double start) { return 1.5e-10 * std::log(start) * start * step.len / std::max(start - step.st.energy, 1e-300); }
bool close(const ParticleState& a, const ParticleState& b, const Rec& step, double start, double ltol, bool any_dir = false)
{
    double lost = start - step.st.energy, de = 1e-4 * lost + 3e-9 * start + ltol * lost / std::max(step.len, 1e-300);
    double t = (2e-4 * step.len + resolution(step, start)) / C0 + 1e-13 * std::fabs(b.time) + 2 * ltol / C0;
    if (a.type != b.type || std::fabs(a.energy - b.energy) > de) return false;
    if ((a.position - b.position).magnitude() > ltol + 1e-12 * b.position.magnitude()) return false;
    if (!any_dir && (a.direction - b.direction).magnitude() > 1e-9) return false;
    if (std::fabs(a.propagated_distance - b.propagated_distance) > ltol + 1e-12 * std::fabs(b.propagated_distance)) return false;
    return std::fabs(a.time - b.time) <= t * (start / 106 < 20 ? 50 : 1);
}
void expect_state(Sim& s, const char* what, const Model& m, const ParticleState& got, const std::vector<std::pair<ParticleState, size_t>>& want, double ltol, bool any_dir = false)
{
    for (auto& w : want) { size_t k = w.second; if (got == w.first || close(got, w.first, m.r[k], m.r[k ? k - 1 : 0].st.energy, ltol, any_dir)) return; }
    s.fail(what, "reported %s instead of %s", show(got).c_str(), show(want[0].first).c_str());
}
bool is_loss(IT t) { return t != IT::ContinuousEnergyLoss && t != IT::Decay; }
// states of a track at length x along it
std::vector<std::pair<ParticleState, size_t>> states_at(const Model& m, const Cut& c, ld x)
{
    std::vector<std::pair<ParticleState, size_t>> v; for (size_t k = 1; k < m.r.size(); ++k) { if (!(m.r[k].len > 0)) continue; ld o = x - c.at[k - 1]; if (o >= -1e-3L * m.r[k].len && o <= m.r[k].len * 1.001L) { ld q = std::min<ld>(std::max<ld>(o, 0), m.r[k].len); v.push_back({interpolate(m, k, q), k}); v.push_back({m.r[k].st, k}); v.push_back({m.r[k - 1].st, k}); } }
    for (size_t k = 1; k < m.r.size(); ++k) if (fabsl(c.at[k] - x) < 1e-6L + 1e-9L * c.total) v.push_back({m.r[k].st, k});
    return v;
}
void losses(Sim& s, const char* what, const Model& m, const std::vector<StochasticLoss>& got, const std::function<bool(size_t)>& sel)
{
    size_t j = 0; for (size_t i = 1; i < m.r.size(); ++i) { if (!sel(i)) continue;
        if (j >= got.size()) s.fail("losses", "%s: %d losses reported, more recorded", what, (int)got.size()); auto& g = got[j++]; auto& e = m.r[i]; double pe = m.r[i - 1].st.energy;
        if (g.type != (int)e.type || g.energy != pe - e.st.energy || g.parent_particle_energy != pe || g.position != e.st.position || g.direction != e.st.direction || g.time != e.st.time || g.propagated_distance != e.st.propagated_distance || g.target_hash != e.target)
            s.fail("losses", "%s: loss %d is type %d energy %.17g of %.17g target %zu at %.17g instead of type %d energy %.17g of %.17g target %zu at %.17g", what, (int)j, g.type, g.energy, g.parent_particle_energy, g.target_hash, g.propagated_distance, (int)e.type, pe - e.st.energy, pe, e.target, e.st.propagated_distance); }
    if (j != got.size()) s.fail("losses", "%s: %d losses reported instead of %d", what, (int)got.size(), (int)j);
}
void cont(Sim& s, const char* what, const Model& m, const std::vector<ContinuousLoss>& got, const std::function<bool(size_t)>& sel)
{
    size_t j = 0; for (size_t i = 1; i < m.r.size(); ++i) { if (!sel(i)) continue;
        if (j >= got.size()) s.fail("losses", "%s: %d losses reported, more recorded", what, (int)got.size()); auto& g = got[j++]; auto &e = m.r[i].st, &b = m.r[i - 1].st;
        if (g.type != (int)IT::ContinuousEnergyLoss || g.energy != b.energy - e.energy || g.parent_particle_energy != b.energy || g.start_position != b.position || g.end_position != e.position || g.direction_initial != b.direction || g.direction_final != e.direction || g.time_initial != b.time || g.time_final != e.time)
            s.fail("losses", "%s: continuous loss %d of %.17g from %.17g differs from the record (%.17g from %.17g)", what, (int)j, g.energy, g.parent_particle_energy, b.energy - e.energy, b.energy); }
    if (j != got.size()) s.fail("losses", "%s: %d losses reported instead of %d", what, (int)got.size(), (int)j);
}
// inside for certain / outside for certain / not judged
int inside(const Spec& g, const Cartesian3D& p, const Cartesian3D& d)
{
    Ray r = trace(g, p, d); ld t = tolerance(g, p, d); if (!robust(g, p, d, r, t)) return -1; for (auto x : r.cross) if (fabsl(x) < 100 * t) return -1;
    for (auto& v : r.mat) if (v.a < 0 && v.b > 0) return 1; return 0;
}
void query(Sim& s, const World& w, const Model& m, const Secondaries& o, double sc)
{
    const auto& R = m.r; size_t n = R.size(); const ParticleState &first = R[0].st, &last = R[n - 1].st;
    switch (s.pick(9)) {
    case 0: {                                                        // the record itself
        s.op("track"); auto t = o.GetTrack(); auto ty = o.GetTrackTypes(); auto th = o.GetTargetHashes(); auto tp = o.GetTrackPositions(); auto td = o.GetTrackDirections(); auto te = o.GetTrackEnergies(), tt = o.GetTrackTimes(), ts = o.GetTrackPropagatedDistances();
        if (t.size() != n || ty.size() != n || th.size() != n || tp.size() != n || td.size() != n || te.size() != n || tt.size() != n || ts.size() != n) s.fail("track", "%d states recorded, %d reported", (int)n, (int)t.size());
        for (size_t i = 0; i < n; ++i) { auto& e = R[i]; if (!(t[i] == e.st) || ty[i] != e.type || th[i] != e.target || tp[i] != e.st.position || td[i] != e.st.direction || te[i] != e.st.energy || tt[i] != e.st.time || ts[i] != e.st.propagated_distance) s.fail("track", "state %d: %s (type %d) instead of %s (type %d)", (int)i, show(t[i]).c_str(), (int)ty[i], show(e.st).c_str(), (int)e.type); }
        if (!(o.GetInitialState() == first) || !(o.GetFinalState() == last)) s.fail("track", "initial or final state"); break;
    }
    case 1: {                                                        // losses
        s.op("losses"); auto a = o.GetStochasticLosses(); losses(s, "all", m, a, [&](size_t i) { return is_loss(R[i].type); }); auto c = o.GetContinuousLosses(); cont(s, "all", m, c, [&](size_t i) { return R[i].type == IT::ContinuousEnergyLoss; });
        ld sum = 0; for (auto& l : a) sum += l.energy; for (auto& l : c) sum += l.energy; if (fabsl(sum - ((ld)first.energy - last.energy)) > 1e-12L * first.energy * n) s.fail("losses-sum", "losses of %.17Lg for %.17g lost", sum, first.energy - last.energy);
        IT t = s.of(std::vector<IT>{IT::Brems, IT::Epair, IT::Ioniz, IT::Photonuclear}); losses(s, "by type", m, o.GetStochasticLosses(t), [&](size_t i) { return R[i].type == t; });
        std::string nm = Type_Interaction_Name_Map.at(t); losses(s, "by name", m, o.GetStochasticLosses(nm), [&](size_t i) { return R[i].type == t; });
        if (s.chance(1, 3)) { std::string bad = s.of(std::vector<std::string>{"", "brems", "Epai", "Unknown"}); s.op("unknown name"); bool threw = false; try { o.GetStochasticLosses(bad); } catch (const std::invalid_argument&) { threw = true; } if (!threw) s.fail("unknown-type", "losses of the unknown interaction '%s' were reported", bad.c_str()); }
        break;
    }
    case 2: {                                                        // at an energy
        double e; switch (s.pick(5)) { case 0: e = first.energy * s.of(std::vector<double>{1, 1.5}); break; case 1: e = last.energy * s.of(std::vector<double>{1, 0.9}); break; case 2: e = s.of(R).st.energy; break; default: e = n > 1 ? [&] { size_t k = 1 + s.pick(n - 1); return R[k].st.energy + s.unit() * (R[k - 1].st.energy - R[k].st.energy); }() : first.energy * 0.7; }
        s.op("state for energy"); s.log("E=%.17g", e); std::vector<std::pair<ParticleState, size_t>> want;
        if (e >= first.energy) want.push_back({first, 0}); else if (e <= last.energy) { want.push_back({last, n - 1}); for (size_t k = 1; k < n; ++k) if (R[k].st.energy == e) want.push_back({R[k].st, k}); }
        else for (size_t k = 1; k < n; ++k) if (R[k - 1].st.energy >= e && R[k].st.energy <= e) {
            if (R[k].type != IT::ContinuousEnergyLoss || R[k].st.energy == e) { want.push_back({R[k - 1].st.energy > e && R[k].st.energy == e ? R[k].st : R[k - 1].st, k}); if (R[k].st.energy == e) want.push_back({R[k].st, k}); }
            else { double X = (double)grammage(*R[k].sect, R[k - 1].st.energy, e), d = R[k].sect->density->Correct(R[k - 1].st.position, R[k - 1].st.direction, X, R[k].len * 1.01); auto p = interpolate(m, k, d); p.energy = e; want.push_back({p, k}); } }
        if (want.empty()) s.fail("harness", "no expectation");
        auto got = o.GetStateForEnergy(e); size_t k0 = want[0].second; double len = R[k0].len; if (len > 0) len += 6e3 * resolution(R[k0], R[k0 - 1].st.energy); expect_state(s, "state-for-energy", m, got, want, 2e-4 * len + 1e-9, R[want[0].second].len < 1e-6); s.val(got.energy); s.nontrivial(); break;
    }
    case 3: {                                                        // at a distance
        double d; switch (s.pick(4)) { case 0: d = first.propagated_distance - s.of(std::vector<double>{0, 1}); break; case 1: d = last.propagated_distance + s.of(std::vector<double>{0, 1}); break; case 2: d = s.of(R).st.propagated_distance; break; default: d = first.propagated_distance + s.unit() * (last.propagated_distance - first.propagated_distance); }
        s.op("state for distance"); s.log("s=%.17g", d); std::vector<std::pair<ParticleState, size_t>> want;
        if (d <= first.propagated_distance) want.push_back({first, 0}); else if (d >= last.propagated_distance) want.push_back({last, n - 1});
        for (size_t k = 1; k < n; ++k) { if (R[k].st.propagated_distance == d) want.push_back({R[k].st, k}); if (R[k - 1].st.propagated_distance <= d && R[k].st.propagated_distance >= d && R[k].len > 0) want.push_back({interpolate(m, k, (ld)d - R[k - 1].st.propagated_distance), k}); }
        if (want.empty()) s.fail("harness", "no expectation");
        auto got = o.GetStateForDistance(d); expect_state(s, "state-for-distance", m, got, want, 1e-9 + 1e-11 * std::fabs(d)); s.val(got.energy); s.nontrivial(); break;
    }
    case 4: case 5: case 6: {                                        // a volume
        Spec g; if (w.s.size() > 1 && s.chance(1, 3)) { g = s.of(w.s).g; } else { g = gen_spec(s, sc); g.c = g.c + R[s.pick(n)].st.position; if (s.chance(1, 3)) g.c = g.c - 0.7 * ext(g) * first.direction; }
        auto geom = build(g); s.op("volume"); s.log("%s", str(g).c_str());
        {   bool sure = true; std::vector<int> in; for (auto& e : R) { in.push_back(inside(g, e.st.position, e.st.direction)); if (in.back() < 0) sure = false; }
            if (sure) { auto t = o.GetTrack(*geom); size_t j = 0; for (size_t i = 0; i < n; ++i) if (in[i] == 1) { if (j >= t.size() || !(t[j] == R[i].st)) s.fail("track-in-volume", "state %d of %s is missing", (int)i, str(g).c_str()); ++j; } if (j != t.size()) s.fail("track-in-volume", "%d states instead of %d in %s", (int)t.size(), (int)j, str(g).c_str());
                losses(s, "in the volume", m, o.GetStochasticLosses(*geom), [&](size_t i) { return in[i] == 1 && is_loss(R[i].type); }); cont(s, "in the volume", m, o.GetContinuousLosses(*geom), [&](size_t i) { return in[i] == 1 && R[i].type == IT::ContinuousEnergyLoss; }); } }
        auto ca = o.GetClosestApproachPoint(*geom); if (!ca) s.fail("closest", "no point of closest approach");
        {   ld best = (first.position - g.c).magnitude(); for (size_t k = 1; k < n; ++k) if (R[k].len > 0) { const auto& p = R[k - 1].st.position; ld t = 0, q[3]; for (int i = 0; i < 3; ++i) t += ((ld)g.c[i] - p[i]) * R[k].disp[i]; t = std::min<ld>(std::max<ld>(t, 0), R[k].len); ld d2 = 0; for (int i = 0; i < 3; ++i) { q[i] = (ld)p[i] + t * R[k].disp[i] - g.c[i]; d2 += q[i] * q[i]; } best = std::min(best, sqrtl(d2)); }
            ld got = (ca->position - g.c).magnitude(); if (got - best > 1.001e-3L + 1e-9L * (g.c.magnitude() + first.position.magnitude() + last.propagated_distance)) s.fail("closest", "the point of closest approach to %s is %.12Lg away from its centre, the track comes to %.12Lg", str(g).c_str(), got, best); }
        if (n < 2) break;
        Cut c = cut_track(m, g); if (!c.sure) { s.count("degenerate_tracks"); break; }
        bool hit = o.HitGeometry(*geom); if (hit != !c.in.empty()) s.fail("hit", "%s is reported to be %s", str(g).c_str(), hit ? "hit" : "missed");
        auto en = o.GetEntryPoint(*geom), ex = o.GetExitPoint(*geom); double ltol = 1.001e-3 + 1e-9 * (first.position.magnitude() + last.propagated_distance + g.c.magnitude());
        bool wen = !c.in.empty() && !c.starts_in, wex = !c.in.empty() && !c.ends_in; s.val(en ? en->energy : -1); s.val(ex ? ex->energy : -1);
        if (!en != !wen) s.fail("entry", "%s: %s", str(g).c_str(), en ? "an entry point was invented" : "the entry point was lost"); if (!ex != !wex) s.fail("exit", "%s: %s", str(g).c_str(), ex ? "an exit point was invented" : "the exit point was lost");
        if (en) expect_state(s, "entry", m, *en, states_at(m, c, c.in.front().a), ltol, true);
        if (ex) expect_state(s, "exit", m, *ex, states_at(m, c, c.in.back().b), ltol, true);
        double want = c.in.empty() ? 0 : (en ? en->energy : first.energy) - (ex ? ex->energy : last.energy), got = o.GetELost(*geom); if (std::fabs(got - want) > 1e-9 * first.energy) s.fail("energy-in-volume", "%s: %.17g lost instead of %.17g", str(g).c_str(), got, want);
        s.nontrivial(); break;
    }
    case 7: {                                                        // products of decays
        s.op("decay products"); Stream st = gen_stream(s); if (s.chance(1, 4)) st.throw_at = s.pick(6); RngScope scope(st); int nd = 0; ld E = 0; for (size_t i = 0; i < n; ++i) if (R[i].type == IT::Decay) { ++nd; E += R[i].st.energy; }
        std::vector<ParticleState> p; try { p = o.GetDecayProducts(); } catch (const RngFault&) { s.fault("rng.throws"); break; }
        if ((int)p.size() != 3 * nd) s.fail("decay-products", "%d products of %d decays", (int)p.size(), nd); ld sum = 0; for (auto& q : p) sum += q.energy; if (fabsl(sum - E) > 1e-6L * E) s.fail("decay-products", "products with energy %.12Lg of decays with %.12Lg", sum, E); break;
    }
    default: {                                                       // out of memory
        s.op("query out of memory"); int k = s.pick(4); AllocScope a(s.range(0, 3)); bool threw = false;
        try { switch (k) { case 0: o.GetTrack(); break; case 1: o.GetStochasticLosses(); break; case 2: o.GetTrackEnergies(); break; default: o.GetContinuousLosses(); } } catch (const std::bad_alloc&) { threw = true; }
        alloc_fault.armed = false; if (threw != a.fired()) s.fail("alloc", "the failing allocation was swallowed"); if (threw) s.fault("alloc.track"); break;
    }
    }
}
void track(Sim& s)
{
    s.scenario("track"); double sc = s.loguniform(10, 1e5); World w = gen_world(s, sc); auto pd = std::make_shared<ParticleDef>(ParticleDef::GetParticleDefForType(13));
    Secondaries o(pd, w.sectors); Model m; if (s.chance(1, 3)) o.reserve(s.range(0, 20));
    auto record = [&](Rec e) {
        bool fault = s.chance(1, 10), emplace = s.chance(1, 4); size_t n = m.r.size();
        for (int k = 0; k < 2; ++k) {
            AllocScope a(fault && !k ? s.range(0, 3) : -1); if (!(fault && !k)) alloc_fault.armed = false; bool oom = false;
            try { if (emplace) o.emplace_back(static_cast<ParticleType>(e.st.type), e.st.position, e.st.direction, e.st.energy, e.st.time, e.st.propagated_distance, e.type, e.target); else o.push_back(e.st, e.type, e.target); } catch (const std::bad_alloc&) { oom = true; }
            alloc_fault.armed = false; if (oom != (fault && !k && a.fired())) s.fail("alloc", "the failing allocation was swallowed or invented"); if (!oom) { m.r.push_back(e); break; }
            s.fault("alloc.record"); if (o.GetTrack().size() != n || o.GetTrackTypes().size() != n || o.GetTargetHashes().size() != n) s.fail("record-torn", "a state that could not be recorded left %d states, %d types, %d targets of %d", (int)o.GetTrack().size(), (int)o.GetTrackTypes().size(), (int)o.GetTargetHashes().size(), (int)n);
        }
    };
    ParticleState p; p.type = 13; p.energy = s.loguniform(2e3, 1e9); p.position = s.chance(1, 3) ? Cartesian3D(0, 0, 0) : Cartesian3D(sc * s.uniform(-2, 2), sc * s.uniform(-2, 2), sc * s.uniform(-2, 2)); p.direction = unit_dir(s); p.time = s.of(std::vector<double>{0, 1e-3}); p.propagated_distance = s.chance(1, 2) ? 0 : 1000;
    record({p, IT::ContinuousEnergyLoss, 0}); bool done = false; int steps = s.range(0, 8); std::unique_ptr<Secondaries> copy; Model copied;
    for (int i = 0; i < steps && !done; ++i) {
        Cartesian3D d = w.straight ? p.direction : bend(s, p.direction, s.of(std::vector<double>{1e-3, 0.1, 2.5})); const Sect* q = sector_at(w, p.position, d); if (!q) break;
        double bd = border(w, *q, p.position, d), maxX = (double)grammage(*q, p.energy, 150), len = s.chance(1, 3) ? bd : sc * s.loguniform(0.01, 3); if (!(len > 0) || len > bd) len = bd; bool at_border = len == bd;
        if (len > 100 * sc) { len = 100 * sc; at_border = false; }
        double X = q->density->Calculate(p.position, p.direction, len); if (X > maxX) { X = maxX; len = q->density->Correct(p.position, p.direction, X, len); at_border = false; done = true; }
        if (!(len > 1e-6)) break;
        ParticleState b = p; Rec e; e.sect = q; e.disp = d; e.len = len; p.energy = (double)energy_after(*q, p.energy, X); p.position = p.position + len * d; p.direction = w.straight ? d : s.chance(1, 2) ? d : bend(s, d, 0.3); p.propagated_distance += len; p.time += elapsed(*q, b.energy, p.energy, X, b.position);
        e.st = p; e.type = IT::ContinuousEnergyLoss; e.target = 0; s.op("step"); s.log("%g cm in sector %d to %s, %g MeV", len, (int)q->g.h, at_border ? "border" : "interaction", p.energy); record(e);
        if (!at_border && !done && s.chance(2, 3)) { e.len = 0; e.sect = nullptr; e.type = s.of(std::vector<IT>{IT::Brems, IT::Epair, IT::Ioniz, IT::Photonuclear}); e.target = s.pick(3); p.energy = std::max(200., p.energy * (1 - s.loguniform(1e-3, 0.9))); if (p.energy > e.st.energy) p.energy = e.st.energy; if (!w.straight) p.direction = bend(s, p.direction, 0.2); e.st = p; s.op("loss"); s.log("%s to %g MeV", Type_Interaction_Name_Map.at(e.type).c_str(), p.energy); record(e); }
        if (s.chance(1, 12)) { e.len = 0; e.sect = nullptr; e.type = IT::Decay; e.target = 0; e.st = p; s.op("decay"); record(e); done = true; }
        if (s.chance(1, 3)) query(s, w, m, o, sc);
        if (!copy && s.chance(1, 8)) { s.op("copy"); copy = std::make_unique<Secondaries>(o); copied = m; }
    }
    for (int k = s.range(1, 6); k > 0; --k) {
        if (s.chance(1, 6)) {                                        // a cross section fails during a query
            auto& c = *s.of(w.s).cross; c.throw_at = c.calls + s.range(0, 60); long f = c.fired; s.op("query with failing cross section");
            try { query(s, w, m, o, sc); } catch (const FakeFault&) { s.fault("cross.throws"); } if (c.fired == f) c.throw_at = -1;
        }
        if (copy && s.chance(1, 3)) query(s, w, copied, *copy, sc); else query(s, w, m, o, sc);
    }
}
} // namespace
DST_SCENARIO("P20", track);
