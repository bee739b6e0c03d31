// P21 lengths, energies, times, interactions and decays of the continuous energy loss
#include "fake.h"
#include "PROPOSAL/Constants.h"
#include "PROPOSAL/EnergyCutSettings.h"
#include "PROPOSAL/math/Cartesian3D.h"
#include "PROPOSAL/particle/ParticleDef.h"
#include "PROPOSAL/propagation_utility/ContRandBuilder.h"
#include "PROPOSAL/propagation_utility/DecayBuilder.h"
#include "PROPOSAL/propagation_utility/DisplacementBuilder.h"
#include "PROPOSAL/propagation_utility/InteractionBuilder.h"
#include "PROPOSAL/propagation_utility/PropagationUtility.h"
#include "PROPOSAL/propagation_utility/TimeBuilder.h"
using namespace PROPOSAL;
using namespace sim;
namespace {
typedef long double ld;
typedef std::vector<std::shared_ptr<CrossSectionBase>> List;
const double C0 = 2.99792458e10;
struct Setup {
    std::vector<std::shared_ptr<FakeCross>> x; List l; const ParticleDef p; bool exact, cont, decays; double low; double a = 0, b = 0, k = 0; bool shared;
    double total(double E) const { double t = 0; for (auto& c : x) t += c->total(E); return t; }
};
struct Tools { PropagationUtility::Collection c; std::unique_ptr<PropagationUtility> u; };
Tools make(const Setup& w)
{
    Tools t; auto disp = std::shared_ptr<Displacement>(make_displacement(w.l, false)); t.c.displacement_calc = disp;
    t.c.interaction_calc = w.shared ? make_interaction(disp, w.l, false, false) : make_interaction(w.l, false, false);
    if (w.exact) t.c.time_calc = w.shared ? make_time(disp, w.p, false) : make_time(w.l, w.p, false); else t.c.time_calc = std::make_shared<ApproximateTimeBuilder>();
    if (w.decays) t.c.decay_calc = w.shared ? make_decay(disp, w.p, false) : make_decay(w.l, w.p, false);
    if (w.cont) t.c.cont_rand = w.shared ? make_contrand(disp, w.l, false) : make_contrand(w.l, false);
    t.u = std::make_unique<PropagationUtility>(t.c); return t;
}
Setup gen_setup(Sim& s)
{
    Setup w{{}, {}, ParticleDef::GetParticleDefForType(s.of(std::vector<int>{13, 15, 211, 11}))}; w.decays = std::isfinite(w.p.lifetime) && w.p.lifetime > 0 && s.chance(3, 4); w.exact = s.chance(1, 2); w.cont = s.chance(1, 2); w.shared = s.chance(1, 2);
    int n = s.range(1, 3); w.low = w.p.mass * s.of(std::vector<double>{1.0001, 1.5, 10}); bool quiet = s.chance(1, 10);
    for (int i = 0; i < n; ++i) {
        auto c = std::make_shared<FakeCross>(); c->a = s.of(std::vector<double>{2, 0.5, 20}); c->b = s.of(std::vector<double>{3e-6, 1e-7, 1e-4}); c->k = w.cont ? s.of(std::vector<double>{1e-6, 1e-9, 1e-3, 0}) : 0; c->low = w.low * (i ? s.of(std::vector<double>{1, 2}) : 1); c->id = 31 + i;
        c->type = std::vector<InteractionType>{InteractionType::Ioniz, InteractionType::Brems, InteractionType::Epair}[i]; int t = s.range(1, 3); for (int j = 0; j < t; ++j) c->targets.push_back({100 * i + j, quiet || s.chance(1, 6) ? 0 : s.of(std::vector<double>{1e-4, 1e-6, 1e-2})});
        c->vmin = s.of(std::vector<double>{1e-3, 1e-6}); c->vmax = s.of(std::vector<double>{0.5, 1}); if (w.cont) c->cut = std::make_shared<EnergyCutSettings>(500., 0.05, s.chance(1, 2) || i == 0);
        w.a += c->a; w.b += c->b; w.k += c->k; w.x.push_back(c); w.l.push_back(c);
    }
    return w;
}
ld length(const Setup& w, ld Ei, ld Ef) { return log1pl(w.b * (Ei - Ef) / (w.a + w.b * Ef)) / w.b; }
double weighted(const Setup& w, double Ei, double Ef, const std::function<double(double)>& f) { if (Ei == Ef) return 0; return quad([&](double E) { return f(E) / (w.a + w.b * E); }, Ef, Ei, 40); }
double pace(const Setup& w, double E) { return E / std::sqrt((E - w.p.mass) * (E + w.p.mass)) / C0; }        // time per length
double aging(const Setup& w, double E) { return w.p.mass / std::sqrt((E - w.p.mass) * (E + w.p.mass)) / C0; } // proper time per length
// one call with given arguments and random numbers
struct Call { int what; double e, f, x, rho; std::vector<double> rnd; };
struct Answer { int kind = 0; double v = 0; int type = 0; size_t target = 0; long draws = 0; };                // 0 value, 1 logic_error, 2 injected failure, 3 out of memory
Answer perform(const Tools& t, const Call& c, double density_min = 0)
{
    Answer r; size_t k = 0; auto rnd = [&]() { return c.rnd.at(k++); };
    try { switch (c.what) {
        case 0: r.v = t.u->LengthContinuous(c.e, c.f); break;
        case 1: r.v = t.u->EnergyDistance(c.e, c.x); break;
        case 2: r.v = t.u->TimeElapsed(c.e, c.f, c.x, c.rho); break;
        case 3: r.v = t.u->EnergyDecay(c.e, rnd, c.rho); break;
        case 4: r.v = t.u->EnergyInteraction(c.e, rnd); break;
        case 5: r.v = t.u->EnergyRandomize(c.e, c.f, rnd, c.x); break;
        case 6: { auto l = t.u->EnergyStochasticloss(c.e, c.rnd.at(0)); r.v = l.v_loss; r.type = (int)l.type; r.target = l.comp_hash; break; }
        case 7: r.v = t.c.interaction_calc->MeanFreePath(c.e); break;
        default: r.v = t.c.interaction_calc->EnergyIntegral(c.e, c.f); } }
    catch (const FakeFault&) { r.kind = 2; } catch (const std::bad_alloc&) { r.kind = 3; } catch (const std::logic_error&) { r.kind = 1; }
    r.draws = k; return r;
}
const char* name[] = {"length", "energy after length", "time", "decay", "interaction", "randomize", "loss", "mean free path", "interaction integral"};
std::string str(const Call& c) { char t[300]; snprintf(t, sizeof t, "%s E=%.17g to %.17g x=%.17g rho=%g rnd=%.17g", name[c.what], c.e, c.f, c.x, c.rho, c.rnd[0]); return t; }
Call gen_call(Sim& s, const Setup& w)
{
    Call c; c.what = s.pick(9); c.e = s.chance(1, 10) ? w.low * (1 + s.loguniform(1e-6, 1)) : s.loguniform(2 * w.low, 1e9); c.rho = s.of(std::vector<double>{1, 0.917, 11.35, 1.2e-3});
    double q = s.chance(1, 4) ? s.loguniform(1e-6, 1) : s.unit(); c.f = s.chance(1, 12) ? w.low : c.e - (c.e - w.low) * q; c.x = 0; Stream st = gen_stream(s); c.rnd = {st(), st()};
    if (c.what == 1) { double X = (double)length(w, c.e, w.low); c.x = s.chance(1, 8) ? X * s.of(std::vector<double>{1.001, 2, 1e3}) : s.chance(1, 12) ? 0 : X * (s.chance(1, 3) ? s.loguniform(1e-6, 0.99) : s.uniform(0, 0.999)); }
    if (c.what == 2) c.x = (double)length(w, c.e, c.f);
    if (s.chance(1, 10)) c.rnd[0] = s.of(std::vector<double>{0, 0x1p-53, 1 - 0x1p-53, 1 - 0x1p-52});
    if (c.what == 5) c.x = s.chance(1, 2) ? 0 : w.low + s.unit() * (c.f - w.low);
    return c;
}
void check(Sim& s, const Setup& w, const Call& c, const Answer& r)
{
    auto at = str(c); double eps = 1.25e-10 * std::max(1., std::fabs(std::log(c.e))); s.val(r.v);                                   // energies that agree to 1e-10 of their logarithm are one to the integrator
    auto near = [&](double want, double per_E) { return std::fabs(r.v - want) <= 1e-4 * std::fabs(want) + per_E * eps * c.e; };
    if (c.what == 1) {
        double X = (double)length(w, c.e, w.low), d = X * 1e-4 + eps * c.e / (w.a + w.b * c.e);
        if (r.kind == 1) { if (c.x < X - d) s.fail("unreachable", "%s: refused although %.17g can be covered", at.c_str(), X); s.count("unreachable_lengths"); return; }
        if (c.x > X + d) s.fail("unreachable", "%s: %.17g although only %.17g can be covered", at.c_str(), r.v, X);
    }
    if (r.kind) s.fail("refused", "%s: refused", at.c_str());
    if (!std::isfinite(r.v)) { if (c.what == 7 && w.total(c.e) == 0 && std::isinf(r.v) && r.v > 0) return; s.fail("finite", "%s gives %g", at.c_str(), r.v); }
    s.nontrivial(); double lost = c.e - c.f;
    switch (c.what) {
    case 0: if (!near((double)length(w, c.e, c.f), 1 / (w.a + w.b * c.e))) s.fail("length", "%s gives %.17g instead of %.17g", at.c_str(), r.v, (double)length(w, c.e, c.f)); break;
    case 1: { double X = (double)length(w, c.e, r.v); if (r.v > c.e * (1 + 1e-12) || r.v < w.low * (1 - 1e-9)) s.fail("energy-range", "%s gives %.17g outside of [%.17g, %.17g]", at.c_str(), r.v, w.low, c.e);
        if (std::fabs(X - c.x) > 2e-4 * c.x + 2 * eps * c.e / (w.a + w.b * c.e)) s.fail("energy", "%s gives %.17g, which takes %.17g", at.c_str(), r.v, X); break; }
    case 2: { double want = w.exact ? weighted(w, c.e, c.f, [&](double E) { return pace(w, E); }) / c.rho : c.x / c.rho / C0; double tol = w.exact ? 3e-3 * want * (c.f < 1.01 * w.p.mass ? 10 : 1) + pace(w, c.f) * eps * c.e / (w.a + w.b * c.e) / c.rho : 1e-14 * want;
        if (std::fabs(r.v - want) > tol) s.fail("time", "%s gives %.17g instead of %.17g", at.c_str(), r.v, want); if (r.v < c.x / c.rho / C0 * (1 - 1e-3) - tol) s.fail("time", "%s: faster than light", at.c_str()); break; }
    case 3: case 4: {
        if (c.what == 3 && !w.decays) { if (r.v != 0 || r.draws) s.fail("decay", "%s: a particle that cannot decay decays at %.17g", at.c_str(), r.v); break; }
        if (r.draws != 1) s.fail("draws", "%s: %d random numbers used", at.c_str(), (int)r.draws);
        if (r.v > c.e * (1 + 1e-12) || r.v < w.low * (1 - 1e-9)) s.fail("energy-range", "%s gives %.17g outside of [%.17g, %.17g]", at.c_str(), r.v, w.low, c.e);
        auto F = [&](double lo) { return c.what == 3 ? weighted(w, c.e, lo, [&](double E) { return aging(w, E); }) / w.p.lifetime / c.rho : w.total(c.e) * (double)length(w, c.e, lo); };
        double want = -std::log(c.rnd[0]), got = F(std::max(r.v, w.low)), all = F(w.low), dF = (c.what == 3 ? aging(w, std::max(r.v, w.low)) / w.p.lifetime / c.rho : w.total(c.e)) / (w.a + w.b * r.v), tol = 2e-3 * want + dF * (2 * eps + 1.2e-5) * c.e;
        if (c.what == 3 && w.low < 1.01 * w.p.mass) tol += 2e-2 * all;
        if (r.v == w.low ? all > want + tol + 1e-4 * all : std::fabs(got - want) > tol) s.fail(c.what == 3 ? "decay" : "interaction", "%s gives %.17g: %.17g passed instead of %.17g of %.17g", at.c_str(), r.v, got, want, all);
        s.count(r.v == w.low ? "until_the_limit" : "before_the_limit"); break; }
    case 5: {
        if (!w.cont) { if (r.v != c.f || r.draws) s.fail("randomize", "%s: %.17g without randomization", at.c_str(), r.v); break; }
        if (r.draws != 1) s.fail("draws", "%s: %d random numbers used", at.c_str(), (int)r.draws); double lo = std::max(w.low, c.x), sigma = std::sqrt(weighted(w, c.e, c.f, [&](double E) { return w.k * E * E; }));
        if (c.e - c.f < 2 * eps * c.e) { if (r.v > c.e * (1 + 1e-9) || r.v < lo * (1 - 1e-9)) s.fail("randomize-range", "%s: %.17g outside of [%.17g, %.17g]", at.c_str(), r.v, lo, c.e); break; } if (sigma < 1e-7 * c.e) { if (std::fabs(r.v - c.f) > 1e-6 * c.e) s.fail("randomize", "%s: %.17g with a width of %.17g", at.c_str(), r.v, sigma); break; }
        if (r.v > c.e * (1 + 1e-9) || r.v < lo * (1 - 1e-9) - 1e-8 * sigma) s.fail("randomize-range", "%s: %.17g outside of [%.17g, %.17g]", at.c_str(), r.v, lo, c.e);
        auto P = [&](double v) { return 0.5 * std::erfc(-(v - c.f) / sigma / std::sqrt(2)); }; double want = c.rnd[0], a = P(lo), b = P(c.e); if (b - a < 1e-6) break; double got = (P(r.v) - a) / (b - a);
        if (std::fabs(got - want) > 1e-3 + 2 * 1e-16 / (b - a)) s.fail("randomize", "%s: %.17g is the quantile %.12g (width %g)", at.c_str(), r.v, got, sigma); break; }
    case 6: {
        double all = w.total(c.e), left = c.rnd[0] * all; if (all == 0) { if (r.type != (int)InteractionType::Undefined || r.v != 0) s.fail("loss", "%s: a loss of %.17g although nothing can happen", at.c_str(), r.v); break; }
        double sum = 0; bool ok = false; for (auto& x : w.x) for (auto& q : x->targets) { double lo = sum / all, hi = (sum + q.second) / all; sum += q.second; double d = 1e-14 * w.x.size(); if (c.rnd[0] < lo - d || c.rnd[0] > hi + d || !q.second) continue;
            if (r.type != (int)x->type || r.target != q.first) continue; double f = std::min(1., std::max(0., (sum - left) / q.second)), v = x->vmin * std::pow(x->vmax / x->vmin, f); if (std::fabs(r.v - v) < 1e-6 * v + 1e-12 * all / q.second) ok = true; }
        if (!ok) s.fail("loss", "%s: loss of %.17g of type %d in target %zu", at.c_str(), r.v, r.type, r.target); break; }
    case 7: { double all = w.total(c.e); if (std::fabs(r.v * all - 1) > 1e-12) s.fail("mean-free-path", "%s gives %.17g for a rate of %.17g", at.c_str(), r.v, all); break; }
    default: { double want = w.total(c.e) * (double)length(w, c.e, c.f); if (!near(want, w.total(c.e) / (w.a + w.b * c.e))) s.fail("interaction-integral", "%s gives %.17g instead of %.17g", at.c_str(), r.v, want); } }
    (void)lost;
}
void utilities(Sim& s)
{
    s.scenario("utilities"); Setup w = gen_setup(s); s.log("particle %s limit %g decays %d exact time %d randomized %d, %d cross sections, loss %g + %g E, rate %g", w.p.name.c_str(), w.low, w.decays, w.exact, w.cont, (int)w.x.size(), w.a, w.b, w.total(1e6));
    if (s.chance(1, 10)) {                                           // incomplete sets of tools are refused
        s.op("incomplete"); bool threw = false; int k = s.pick(4); Tools t = make(w); auto c = t.c; List none;
        try { if (k == 0) c.interaction_calc.reset(); if (k == 1) c.displacement_calc.reset(); if (k == 2) c.time_calc.reset(); if (k == 3) make_displacement(none, false); PropagationUtility u(c); } catch (const std::invalid_argument&) { threw = true; }
        if (!threw) s.fail("incomplete", "a set of tools without %s was accepted", std::vector<const char*>{"interaction", "displacement", "time", "cross sections"}[k]);
        if (!w.cont) { threw = false; try { make_contrand(w.l, false); } catch (const std::invalid_argument&) { threw = true; } if (!threw) s.fail("incomplete", "continuous randomization without its integrals was accepted"); }
    }
    Tools t = make(w); std::vector<std::pair<Call, Answer>> done; std::unique_ptr<PropagationUtility> copy;
    for (int i = s.range(1, 25); i > 0; --i) {
        Call c = gen_call(s, w); s.op("%s", name[c.what]); s.log("%s", str(c).c_str());
        if (s.chance(1, 8)) {                                        // the same call fails first
            auto& x = *s.of(w.x); long f = x.fired; x.throw_at = x.calls + s.range(0, 80); auto r = perform(t, c); x.throw_at = -1; s.op("with a failing cross section");
            if ((r.kind == 2) != (x.fired > f)) s.fail("swallowed", "%s: the failure of a cross section was swallowed", str(c).c_str()); if (r.kind == 2) s.fault("cross.throws");
        } else if (s.chance(1, 8)) {
            bool hit; Answer r; { AllocScope a(s.range(0, 6)); r = perform(t, c); hit = a.fired(); alloc_fault.armed = false; } s.op("out of memory"); if (r.kind != 1 && (r.kind == 3) != hit) s.fail("swallowed", "%s: a failing allocation was swallowed", str(c).c_str()); if (hit) s.fault("alloc.utility");
        }
        Answer r = perform(t, c); check(s, w, c, r); done.push_back({c, r});
        if (s.chance(1, 4)) {                                        // any earlier call, here or with fresh tools
            auto& q = s.of(done); Answer again; if (s.chance(1, 3)) { s.op("again with fresh tools"); auto o = make(w); again = perform(o, q.first); } else { s.op("again"); again = perform(t, q.first); }
            if (again.kind != q.second.kind || !same(again.v, q.second.v) || again.type != q.second.type || again.target != q.second.target) s.fail("history", "%s: %.17g the first time, %.17g now", str(q.first).c_str(), q.second.v, again.v);
        }
        if (c.what == 0 && s.chance(1, 3)) { double m = c.f + s.unit() * (c.e - c.f); s.op("in two pieces"); double x = t.u->LengthContinuous(c.e, m) + t.u->LengthContinuous(m, c.f); if (std::fabs(x - r.v) > 3e-4 * r.v + 5e-9 * c.e / (w.a + w.b * c.e)) s.fail("additivity", "%s: %.17g in one piece, %.17g in two", str(c).c_str(), r.v, x); }
    }
}
DST_SCENARIO("P21", utilities);
} // namespace
