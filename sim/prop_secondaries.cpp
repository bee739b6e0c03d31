// P13 products of interactions
#include "physics.h"
#include "PROPOSAL/Constants.h"
#include "PROPOSAL/secondaries/SecondariesCalculator.h"
#include "PROPOSAL/secondaries/parametrization/annihilation/HeitlerAnnihilation.h"
#include "PROPOSAL/secondaries/parametrization/bremsstrahlung/BremsEGS4Approximation.h"
#include "PROPOSAL/secondaries/parametrization/bremsstrahlung/BremsKochMotz.h"
#include "PROPOSAL/secondaries/parametrization/bremsstrahlung/BremsNoDeflection.h"
#include "PROPOSAL/secondaries/parametrization/compton/NaivCompton.h"
#include "PROPOSAL/secondaries/parametrization/epairproduction/KelnerKokoulinPetrukhinEpairProduction.h"
#include "PROPOSAL/secondaries/parametrization/ionization/NaivIonization.h"
#include "PROPOSAL/secondaries/parametrization/mupairproduction/KelnerKokoulinPetrukhinMupairProduction.h"
#include "PROPOSAL/secondaries/parametrization/photoeffect/PhotoeffectNoDeflection.h"
#include "PROPOSAL/secondaries/parametrization/photomupairproduction/PhotoMuPairProductionBurkhardtKelnerKokoulin.h"
#include "PROPOSAL/secondaries/parametrization/photonuclear/Photonuclear.h"
#include "PROPOSAL/secondaries/parametrization/photopairproduction/PhotoPairProductionKochMotz.h"
#include "PROPOSAL/secondaries/parametrization/photopairproduction/PhotoPairProductionTsai.h"
#include "PROPOSAL/secondaries/parametrization/photoproduction/Photoproduction.h"
using namespace PROPOSAL;
using namespace sim;
using namespace phys;

namespace {
using Param = secondaries::Parametrization;
// the share of the first product comes from tables of another component; here it is a random number inside its limits
template <class B> struct Shared : B {
    double m; template <class... A> Shared(double mass, A... a) : B(a...), m(mass) {}
    double share(double E, double r) { double lo = m / E * (1 + 1e-9); return lo + (1 - 2 * lo) * r; }
};
template <class B> struct Pair : Shared<B> { Pair() : Shared<B>(ME) {} double CalculateRho(double E, double r, const Component&) override { return this->share(E, r); } };
struct MuPairs : Shared<secondaries::PhotoMuPairProductionBurkhardtKelnerKokoulin> { MuPairs() : Shared(MMU) {} double Calculatex(double E, double r, const Component&) override { return share(E, r); } };

enum Kin { TWO_BODY, ALONG, BREMS, PAIR };
struct Gen {
    const char* name; std::vector<int> particles; const char* process; Kin kin;
    std::function<std::unique_ptr<Param>(const ParticleDef&, const Medium&)> make;
    std::function<double(double E, const Component&)> extra;              // rest mass taken from / energy left in the medium
    std::function<std::vector<int>(int)> products; InteractionType type; double emin;
};
template <class T> std::unique_ptr<Param> mk(const ParticleDef& p, const Medium& m) { return std::unique_ptr<Param>(new T(p, m)); }
const std::vector<Gen>& gens()
{
    const std::vector<int> lep{13, 11, -11, -13, 15, -15}, heavy{13, -13, 15, -15}, el{11, -11}, gam{22};
    auto zero = [](double, const Component&) { return 0.; };
    auto me = [](double, const Component&) { return ME; };
    auto pe = [](int p) { return std::vector<int>{p, 11}; };
    auto pg = [](int p) { return std::vector<int>{p, 22}; };
    auto ee = [](int p) { return std::vector<int>{p, 11, -11}; };
    const int H = (int)ParticleType::Hadron;
    static std::vector<Gen> g{
        {"NaivIonization", heavy, "IonizBetheBlochRossi", TWO_BODY, mk<secondaries::NaivIonization>, me, pe, InteractionType::Ioniz, 1},
        {"NaivIonization", {11}, "IonizBergerSeltzerMoller", TWO_BODY, mk<secondaries::NaivIonization>, me, pe, InteractionType::Ioniz, 1},
        {"NaivIonization", {-11}, "IonizBergerSeltzerBhabha", TWO_BODY, mk<secondaries::NaivIonization>, me, pe, InteractionType::Ioniz, 1},
        {"BremsEGS4Approximation", lep, "BremsKelnerKokoulinPetrukhin", BREMS, mk<secondaries::BremsEGS4Approximation>, zero, pg, InteractionType::Brems, 1},
        {"BremsKochMotz", el, "BremsKelnerKokoulinPetrukhin", BREMS, mk<secondaries::BremsKochMotz>, zero, pg, InteractionType::Brems, 1},
        {"BremsNoDeflection", lep, "BremsKelnerKokoulinPetrukhin", ALONG, mk<secondaries::BremsNoDeflection>, zero, pg, InteractionType::Brems, 1},
        {"KelnerKokoulinPetrukhinEpairProduction", heavy, "EpairKelnerKokoulinPetrukhin", ALONG, mk<secondaries::KelnerKokoulinPetrukhinEpairProduction>, zero, ee, InteractionType::Epair, 1},
        {"ForElectronPositronEpairProduction", el, "EpairForElectronPositron", ALONG, mk<secondaries::ForElectronPositronEpairProduction>, zero, ee, InteractionType::Epair, 1},
        {"KelnerKokoulinPetrukhinMupairProduction", heavy, "MupairKelnerKokoulinPetrukhin", ALONG, mk<secondaries::KelnerKokoulinPetrukhinMupairProduction>, zero, [](int p) { return std::vector<int>{p, 13, -13}; }, InteractionType::MuPair, 1},
        {"Photonuclear", lep, "PhotoRhode", ALONG, mk<secondaries::Photonuclear>, zero, [H](int p) { return std::vector<int>{p, H}; }, InteractionType::Photonuclear, 1},
        {"NaivCompton", gam, "ComptonKleinNishina", TWO_BODY, mk<secondaries::NaivCompton>, me, [](int) { return std::vector<int>{22, 11}; }, InteractionType::Compton, 0.01},
        {"PhotoeffectNoDeflection", gam, nullptr, ALONG, mk<secondaries::PhotoeffectNoDeflection>, [](double, const Component& c) { double b = c.GetNucCharge() * ALPHA; return ME - b * b * ME / 2; }, [](int) { return std::vector<int>{11}; }, InteractionType::Photoeffect, 0.2},
        {"Photoproduction", gam, nullptr, ALONG, mk<secondaries::Photoproduction>, zero, [H](int) { return std::vector<int>{H}; }, InteractionType::Photoproduction, 200},
        {"PhotoPairTsai", gam, nullptr, PAIR, [](const ParticleDef&, const Medium&) { return std::unique_ptr<Param>(new Pair<secondaries::PhotoPairProductionTsai>()); }, zero, [](int) { return std::vector<int>{11, -11}; }, InteractionType::Photopair, 1.1},
        {"PhotoPairKochMotzSauter", gam, nullptr, PAIR, [](const ParticleDef&, const Medium&) { return std::unique_ptr<Param>(new Pair<secondaries::PhotoPairProductionKochMotzSauter>()); }, zero, [](int) { return std::vector<int>{11, -11}; }, InteractionType::Photopair, 1.1},
        {"PhotoPairTsaiSauter", gam, nullptr, PAIR, [](const ParticleDef&, const Medium&) { return std::unique_ptr<Param>(new Pair<secondaries::PhotoPairProductionTsaiSauter>()); }, zero, [](int) { return std::vector<int>{11, -11}; }, InteractionType::Photopair, 1.1},
        {"PhotoPairKochMotzForwardPeaked", gam, nullptr, PAIR, [](const ParticleDef&, const Medium&) { return std::unique_ptr<Param>(new Pair<secondaries::PhotoPairProductionKochMotzForwardPeaked>()); }, zero, [](int) { return std::vector<int>{11, -11}; }, InteractionType::Photopair, 1.1},
        {"PhotoMuPair", gam, nullptr, PAIR, [](const ParticleDef&, const Medium&) { return std::unique_ptr<Param>(new MuPairs()); }, zero, [](int) { return std::vector<int>{13, -13}; }, InteractionType::PhotoMuPair, 250},
        {"HeitlerAnnihilation", {-11}, nullptr, TWO_BODY, mk<secondaries::HeitlerAnnihilation>, me, [](int) { return std::vector<int>{22, 22}; }, InteractionType::Annihilation, 1},
    };
    return g;
}
Cartesian3D gen_dir(Sim& s)
{
    if (s.chance(1, 3)) return s.of(std::vector<Cartesian3D>{Cartesian3D(0, 0, 1), Cartesian3D(0, 0, -1), Cartesian3D(1, 0, 0), Cartesian3D(0, -1, 0)});
    double c = s.uniform(-1, 1), f = s.uniform(0, 6.283), q = std::sqrt(1 - c * c); return Cartesian3D(q * std::cos(f), q * std::sin(f), c);
}
double mass_of(int t) { return t == (int)ParticleType::Hadron ? 0 : particle(t).mass; }
struct Ctx { const Gen* g; ParticleDef p; int med; Medium m; Component c; };
struct Case { StochasticLoss loss; std::vector<double> rnd; };
// prev: an earlier interaction in the same material; the new one may share all but a part with it
bool gen_loss(Sim& s, const Ctx& u, size_t nrnd, Case& out, const Case* prev = nullptr)
{
    double E, v = 1; int keep = prev && s.chance(1, 2) ? 1 + (int)s.pick(3) : 0;      // 1: energy and loss, 2: energy, 3: loss
    if (keep == 1) { s.log("as before, but"); out.loss = prev->loss; out.rnd = prev->rnd; Stream st = gen_stream(s); bool one = s.chance(1, 2); size_t j = nrnd ? s.pick(nrnd) : 0;
        for (size_t i = 0; i < nrnd; ++i) if (!one || i == j) out.rnd[i] = st(); if (s.chance(1, 4)) { out.loss.direction = gen_dir(s); out.loss.position = Cartesian3D(1, 2, 3); out.loss.time += 1; } if (s.chance(1, 6)) out.rnd = prev->rnd;
        if (st.fired_extreme) s.count("fault.rng.edge_values", st.fired_extreme); s.log("E=%.17g loss=%.17g", out.loss.parent_particle_energy, out.loss.energy); for (double r : out.rnd) s.log("rnd %.17g", r); return true; }
    if (u.g->process) {
        const Process* pr = nullptr; for (auto& q : processes()) if (q.name == u.g->process) pr = &q;
        static std::map<std::string, Built> cache; auto key = pr->name + std::to_string(u.p.particle_type) + medium_name(u.med);
        if (!cache.count(key)) cache[key] = pr->build(u.p, u.m, std::make_shared<EnergyCutSettings>(500, 1, false), 0);
        Built& b = cache[key];
        double lo = std::max(b.lower, pr->emin) * 1.001; if (u.g->type == InteractionType::Photonuclear && std::abs(u.p.particle_type) == 15) lo *= 20;
        E = s.loguniform(lo, std::min(pr->emax, 1e11)); if (s.chance(1, 8)) E = lo * s.of(std::vector<double>{1, 1.01, 1.5});
        if (keep == 2) E = prev->loss.parent_particle_energy; if (keep == 3) E = prev->loss.parent_particle_energy * s.of(std::vector<double>{2, 1.0000001, 1.1});
        const TargetView* t = b.medium_wise ? &b.targets[0] : nullptr; for (auto& q : b.targets) if (!b.medium_wise && q.hash == u.c.GetHash()) t = &q;
        auto k = t->limits(E); double a = std::max(k.v_min * 1.0000001, 1e-3 / E), z = std::min(k.v_max * (1 - 1e-6), 1 - (u.p.mass / E) * (1 + 1e-5));
        if (!(z > a)) return false;
        double x = s.unit(); v = s.chance(1, 2) ? a + (z - a) * x : std::exp(std::log(a) * (1 - x) + std::log(z) * x); if (s.chance(1, 10)) v = s.pick(2) ? a : z;
        if (keep == 3) v = prev->loss.energy / E; v = std::min(std::max(v, a), z);
        if (!(t->dcs(E, v) > 0)) return false;                 // such a loss is never sampled
    } else {
        double lo = u.g->emin; if (u.p.mass > 0) lo = u.p.mass * 1.0001;
        E = s.loguniform(lo, 1e11); if (s.chance(1, 8)) E = lo * s.of(std::vector<double>{1, 1.01, 1.5}); if (keep) E = prev->loss.parent_particle_energy;
    }
    Cartesian3D d = gen_dir(s), pos(s.uniform(-1e5, 1e5), s.uniform(-10, 10), s.chance(1, 2) ? 0 : 1e8);
    out.loss = StochasticLoss((int)u.g->type, E * v, pos, d, s.of(std::vector<double>{0, 1e-3, 7.5}), s.chance(1, 2) ? 0 : 123.5, E, u.c.GetHash());
    out.rnd.clear(); Stream st = gen_stream(s); for (size_t i = 0; i < nrnd; ++i) out.rnd.push_back(st()); if (st.fired_extreme) s.count("fault.rng.edge_values", st.fired_extreme);
    s.log("E=%.17g loss=%.17g component %s direction (%.17g,%.17g,%.17g)", E, E * v, u.c.GetName().c_str(), d.GetX(), d.GetY(), d.GetZ());
    for (double r : out.rnd) s.log("rnd %.17g", r);
    return true;
}
bool equal(const std::vector<ParticleState>& a, const std::vector<ParticleState>& b)
{
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i) { if (a[i].type != b[i].type || !same(a[i].energy, b[i].energy)) return false; for (int k = 0; k < 3; ++k) if (!same(a[i].direction[k], b[i].direction[k])) return false; }
    return true;
}
void check(const Ctx& u, const Case& c, const std::vector<ParticleState>& v)
{
    const char* n = u.g->name; double E = c.loss.parent_particle_energy; int pt = u.p.particle_type;
    auto want = u.g->products(pt);
    if (v.size() != want.size()) S.fail("products", "%s: %zu products instead of %zu", n, v.size(), want.size());
    double tot = 0; Cartesian3D mom(0, 0, 0), P = std::sqrt(std::max((E - u.p.mass) * (E + u.p.mass), 0.)) * c.loss.direction; double slack = 0;
    for (size_t i = 0; i < v.size(); ++i) {
        auto& q = v[i]; double m = mass_of(want[i]);
        if (q.type != want[i]) S.fail("products", "%s: product %zu is a %d, expected %d", n, i, q.type, want[i]);
        if (!std::isfinite(q.energy) || !std::isfinite(q.direction.GetX() + q.direction.GetY() + q.direction.GetZ())) S.fail("product-not-finite", "%s: E=%.17g loss=%.17g: product %zu has energy %.17g and direction (%g,%g,%g)", n, E, c.loss.energy, i, q.energy, q.direction.GetX(), q.direction.GetY(), q.direction.GetZ());
        if (!(q.energy >= m * (1 - 1e-9) - 1e-12 * E)) S.fail("product-off-shell", "%s: E=%.17g loss=%.17g: product %zu (type %d) has energy %.17g below its mass", n, E, c.loss.energy, i, q.type, q.energy);
        if (std::fabs(q.direction.magnitude() - 1) > 1e-7) S.fail("product-direction", "%s: E=%.17g loss=%.17g: product %zu has a direction of length %.17g", n, E, c.loss.energy, i, q.direction.magnitude());
        if (!(q.position == c.loss.position) || q.time != c.loss.time) S.fail("product-vertex", "%s: product %zu does not start at the point and time of the interaction", n, i);
        tot += q.energy; double p = std::sqrt(std::max((q.energy - m) * (q.energy + m), 0.)); mom = mom + p * q.direction; slack += std::sqrt(2 * m * 4e-16 * (q.energy + E));
        S.val(q.energy); S.val(q.direction[0]); S.val(q.direction[2]);
    }
    double expect = E + u.g->extra(E, u.c);
    if (!(std::fabs(tot - expect) <= 1e-9 * expect)) S.fail("product-energy", "%s: E=%.17g loss=%.17g: the products carry %.17g MeV, expected %.17g", n, E, c.loss.energy, tot, expect);
    if (want.size() > 1 && want[0] == pt && pt != 22 && std::fabs(v[0].energy - (E - c.loss.energy)) > 1e-9 * E) S.fail("product-primary", "%s: E=%.17g: the particle keeps %.17g MeV after losing %.17g", n, E, v[0].energy, c.loss.energy);
    const Cartesian3D& d = c.loss.direction;
    switch (u.g->kin) {
    case TWO_BODY: { double dp = (mom - P).magnitude(); if (!(dp <= 2e-7 * (E + ME) + 3 * slack)) S.fail("product-momentum", "%s: E=%.17g loss=%.17g: momentum of the products is off by %.6g MeV", n, E, c.loss.energy, dp); break; }
    case ALONG: for (auto& q : v) if ((q.direction - d).magnitude() > 1e-9) S.fail("product-along", "%s: a product leaves the direction of the particle", n); break;
    case BREMS: { Cartesian3D k = P - v[1].energy * v[1].direction; double L = k.magnitude(); k.normalize();
        if ((k - v[0].direction).magnitude() > 1e-7 + 1e-9 * E / L) S.fail("product-momentum", "%s: E=%.17g loss=%.17g: the particle does not recoil against the photon", n, E, c.loss.energy); break; }
    case PAIR: { Cartesian3D a = v[0].direction, b = v[1].direction; a = a + (-(a * d)) * d; b = b + (-(b * d)) * d;   // transverse parts are back to back
        if (a.magnitude() > 1e-6 && b.magnitude() > 1e-6) { a.normalize(); b.normalize(); if ((a + b).magnitude() > 1e-2) S.fail("product-back-to-back", "%s: E=%.17g: the pair is not emitted back to back in azimuth", n, E); } break; }
    }
}
void pick_target(Sim& s, Ctx& u) { u.med = (int)s.pick(n_media()); u.m = medium(u.med); auto cs = u.m.GetComponents(); u.c = cs[s.pick(cs.size())]; }

void p13_params(Sim& s)
{
    s.scenario("products");
    const Gen* g0 = &gens()[s.pick(gens().size())];
    Ctx u{g0, particle(s.of(g0->particles)), 0, medium(0), medium(0).GetComponents()[0]}; pick_target(s, u);
    auto x = u.g->make(u.p, u.m);
    if (x->GetInteractionType() != u.g->type) s.fail("product-type", "%s reports another interaction type", u.g->name);
    int n = s.range(1, s.tier ? 12 : 6); Stream outside; outside.p = Prng(7);
    s.op("%s for %d", u.g->name, u.p.particle_type); std::vector<Case> done;
    for (int i = 0; i < n; ++i) {
        if (s.chance(1, 4)) { auto cs = u.m.GetComponents(); u.c = cs[s.pick(cs.size())]; done.clear(); }
        Case c{StochasticLoss(0, 0, Cartesian3D(), Cartesian3D(), 0, 0, 1), {}}; s.op("LOSS"); if (!gen_loss(s, u, x->RequiredRandomNumbers(), c, done.empty() ? nullptr : &done[s.pick(done.size())])) { s.count("no_phase_space"); continue; }
        long fail_at = s.chance(1, 5) ? (long)s.pick(14) : -1; std::vector<ParticleState> v; bool threw = false; auto rnd = c.rnd; s.step(); s.nontrivial();
        {
            RngScope r(outside);
            if (fail_at >= 0) { AllocScope a(fail_at); try { v = x->CalculateSecondaries(c.loss, u.c, rnd); } catch (const std::bad_alloc&) { threw = true; } if (a.fired()) s.fault("alloc"); else if (threw) s.fail("alloc-spurious", "bad_alloc without a failing allocation"); }
            if (fail_at < 0 || threw) v = x->CalculateSecondaries(c.loss, u.c, rnd);
        }
        if (outside.n) s.fail("products-global-random", "%s consumed numbers of the global random generator", u.g->name);
        if (rnd != c.rnd) s.fail("products-random-changed", "%s changed the random numbers it was given", u.g->name);
        check(u, c, v); done.push_back(c);
        auto f = u.g->make(u.p, u.m); auto w = f->CalculateSecondaries(c.loss, u.c, rnd);
        if (!equal(v, w)) s.fail("products-history", "%s: E=%.17g loss=%.17g: the products differ from those of a fresh object", u.g->name, c.loss.parent_particle_energy, c.loss.energy);
    }
}
DST_SCENARIO_W("P13", p13_params, 3);

void p13_calculator(Sim& s)
{
    s.scenario("calculator");
    int pt = s.of(std::vector<int>{13, 11, -11, 22, -13, 15});
    static const std::vector<std::pair<const char*, InteractionType>> def{{"NaivIonization", InteractionType::Ioniz}, {"BremsEGS4Approximation", InteractionType::Brems}, {"KelnerKokoulinPetrukhinEpairProduction", InteractionType::Epair},
        {"KelnerKokoulinPetrukhinMupairProduction", InteractionType::MuPair}, {"Photonuclear", InteractionType::Photonuclear}, {"NaivCompton", InteractionType::Compton}, {"PhotoeffectNoDeflection", InteractionType::Photoeffect}, {"Photoproduction", InteractionType::Photoproduction}, {"HeitlerAnnihilation", InteractionType::Annihilation}};
    auto gen_of = [&](InteractionType t) -> const Gen* { const char* n = nullptr; for (auto& d : def) if (d.second == t) n = d.first; for (auto& g : gens()) if (std::string(g.name) == n) for (int p : g.particles) if (p == pt) return &g; return nullptr; };
    std::vector<InteractionType> use; for (auto& d : def) if (gen_of(d.second) && s.chance(2, 3)) use.push_back(d.second);
    Ctx u{nullptr, particle(pt), 0, medium(0), medium(0).GetComponents()[0]}; pick_target(s, u);
    SecondariesCalculator calc(use, u.p, u.m); s.op("CALCULATOR %d types %zu", pt, use.size());
    std::map<InteractionType, const Gen*> model; for (auto t : use) model[t] = gen_of(t);
    int n = s.range(1, s.tier ? 16 : 8);
    for (int i = 0; i < n; ++i) {
        if (s.chance(1, 6)) {                              // replace or add a generator
            std::vector<const Gen*> v; for (auto& g : gens()) for (int p : g.particles) if (p == pt) v.push_back(&g);
            auto g = v[s.pick(v.size())]; s.op("ADD %s", g->name); calc.addInteraction(g->make(u.p, u.m)); model[g->type] = g; continue;
        }
        auto t = def[s.pick(def.size())].second;
        if (!model.count(t)) {
            s.op("MISSING"); bool threw = false; std::vector<double> r(4, 0.5);
            try { calc.CalculateSecondaries(StochasticLoss((int)t, 1, Cartesian3D(0, 0, 0), Cartesian3D(0, 0, 1), 0, 0, 10), u.c, r); } catch (const std::logic_error&) { threw = true; }
            if (!threw) s.fail("calculator-missing", "products were returned for an interaction type without a calculator"); continue;
        }
        u.g = model[t]; size_t need = calc.RequiredRandomNumbers(t);
        auto f = u.g->make(u.p, u.m); if (need != f->RequiredRandomNumbers()) s.fail("calculator-random-numbers", "%s: %zu random numbers required, its parametrization needs %zu", u.g->name, need, f->RequiredRandomNumbers());
        Case c{StochasticLoss(0, 0, Cartesian3D(), Cartesian3D(), 0, 0, 1), {}}; s.op("LOSS %s", u.g->name); if (!gen_loss(s, u, need, c)) continue;
        s.step(); s.nontrivial(); auto v = calc.CalculateSecondaries(c.loss, u.c, c.rnd); check(u, c, v);
        if (!equal(v, f->CalculateSecondaries(c.loss, u.c, c.rnd))) s.fail("products-history", "%s: the calculator's products differ from those of a fresh parametrization", u.g->name);
    }
}
DST_SCENARIO_W("P13", p13_calculator, 1);
} // namespace
