// P12 several users of the same physics objects do not disturb each other
#include "fake.h"
#include "physics.h"
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include "PROPOSAL/Constants.h"
#include "PROPOSAL/decay/DecayTable.h"
#include "PROPOSAL/decay/LeptonicDecayChannel.h"
#include "PROPOSAL/decay/ManyBodyPhaseSpace.h"
#include "PROPOSAL/decay/TwoBodyPhaseSpace.h"
#include "PROPOSAL/density_distr/density_exponential.h"
#include "PROPOSAL/density_distr/density_homogeneous.h"
#include "PROPOSAL/density_distr/density_polynomial.h"
#include "PROPOSAL/geometry/Box.h"
#include "PROPOSAL/geometry/Cylinder.h"
#include "PROPOSAL/geometry/Sphere.h"
#include "PROPOSAL/math/Integral.h"
#include "PROPOSAL/math/MathMethods.h"
#include "PROPOSAL/medium/MediumFactory.h"
#include "PROPOSAL/particle/Particle.h"
#include "PROPOSAL/propagation_utility/ContRandBuilder.h"
#include "PROPOSAL/propagation_utility/DecayBuilder.h"
#include "PROPOSAL/propagation_utility/DisplacementBuilder.h"
#include "PROPOSAL/propagation_utility/InteractionBuilder.h"
#include "PROPOSAL/propagation_utility/PropagationUtility.h"
#include "PROPOSAL/propagation_utility/TimeBuilder.h"
#include "PROPOSAL/scattering/Scattering.h"
#include "PROPOSAL/scattering/multiple_scattering/Highland.h"
#include "PROPOSAL/scattering/multiple_scattering/HighlandIntegral.h"
#include "PROPOSAL/scattering/multiple_scattering/Moliere.h"
#include "PROPOSAL/scattering/stochastic_deflection/ScatteringFactory.h"
#include "PROPOSAL/secondaries/parametrization/annihilation/HeitlerAnnihilation.h"
#include "PROPOSAL/secondaries/parametrization/bremsstrahlung/BremsEGS4Approximation.h"
#include "PROPOSAL/secondaries/parametrization/bremsstrahlung/BremsKochMotz.h"
#include "PROPOSAL/secondaries/parametrization/compton/NaivCompton.h"
#include "PROPOSAL/secondaries/parametrization/epairproduction/KelnerKokoulinPetrukhinEpairProduction.h"
#include "PROPOSAL/secondaries/parametrization/ionization/NaivIonization.h"
#include "PROPOSAL/secondaries/parametrization/mupairproduction/KelnerKokoulinPetrukhinMupairProduction.h"
#include "PROPOSAL/secondaries/parametrization/photonuclear/Photonuclear.h"
#include "PROPOSAL/secondaries/parametrization/photopairproduction/PhotoPairProductionKochMotz.h"
#include "PROPOSAL/secondaries/parametrization/photopairproduction/PhotoPairProductionTsai.h"
using namespace PROPOSAL;
using namespace sim;
namespace {
typedef InteractionType IT;
template <class B> struct Pair : B { double CalculateRho(double E, double r, const Component&) override { double lo = ME / E * (1 + 1e-9); return lo + (1 - 2 * lo) * r; } };
enum { CROSS, PRODUCTS, DECAY, SCATTER, DEFLECT, DENSITY, VOLUME, DEFINITION, UTILITY, INTEGRAL, NKINDS };
const char* names[] = {"cross", "products", "decay", "scatter", "deflect", "density", "volume", "definition", "utility", "integral"};
// what an operation does is fixed before anything runs: `which` chooses the object, `how` the call, x and n its arguments
struct Op { int kind, which, type, med, how; std::array<double, 6> x; uint64_t seed; unsigned extreme; };
struct Pool {                                                         // the objects, made when first needed
    std::map<std::string, std::shared_ptr<void>> m;
    template <class T, class F> T& get(const std::string& k, F make) { auto i = m.find(k); if (i == m.end()) i = m.emplace(k, std::static_pointer_cast<void>(std::shared_ptr<T>(make()))).first; return *static_cast<T*>(i->second.get()); }
};
struct CrossKey { const phys::Process* p; int type, med, cut, variant; };
struct World { std::vector<CrossKey> cross; };
phys::CutPtr cuts(int i) { static const double e[] = {500, INF, 50, 1e4}, v[] = {0.05, 0.3, 1, 0.01}; return std::make_shared<EnergyCutSettings>(e[i], v[i], i % 2); }
FakeCross* fake(int i) { auto c = new FakeCross; c->a = 2 + 0.5 * i; c->b = 3e-6 * (i + 1); c->k = 1e-6 * (i + 1); c->low = 200 + 50 * i; c->targets = {{1, 1e-4 * (i + 1)}, {2, 3e-5}}; c->id = 5 + i; c->type = i ? IT::Epair : IT::Brems; c->cut = std::make_shared<EnergyCutSettings>(500., 0.05, true); return c; }
typedef std::vector<double> Out;
void put(Out& o, const ParticleState& p) { o.insert(o.end(), {(double)p.type, p.energy, p.time, p.position[0], p.position[2], p.direction[0], p.direction[1], p.direction[2]}); }
std::shared_ptr<CrossSectionBase> shared_fake(Pool& P, int i) { return P.get<std::shared_ptr<CrossSectionBase>>("fake" + std::to_string(i), [&] { return std::make_shared<std::shared_ptr<CrossSectionBase>>(fake(i)); }); }
struct Tools { std::shared_ptr<Displacement> d; std::shared_ptr<Interaction> i; std::shared_ptr<Decay> c; std::shared_ptr<Time> t; std::shared_ptr<ContRand> r; };
const ParticleDef& def(Pool& P, int t) { return P.get<ParticleDef>("particle" + std::to_string(t), [&] { return std::make_shared<ParticleDef>(phys::particle(t)); }); }
const Medium& med(Pool& P, int m) { return P.get<Medium>("medium" + std::to_string(m), [&] { return std::make_shared<Medium>(phys::medium(m)); }); }
Tools& tools(Pool& P, int w, int type) { return P.get<Tools>("tools" + std::to_string(w) + "/" + std::to_string(type), [&] { auto t = std::make_shared<Tools>(); std::vector<std::shared_ptr<CrossSectionBase>> l; for (int i = 0; i <= w; ++i) l.push_back(shared_fake(P, i)); t->d = std::shared_ptr<Displacement>(make_displacement(l, false)); t->i = std::shared_ptr<Interaction>(make_interaction(t->d, l, false, false)); t->c = std::shared_ptr<Decay>(make_decay(t->d, phys::particle(13), false)); t->t = std::shared_ptr<Time>(make_time(t->d, phys::particle(13), false)); t->r = std::shared_ptr<ContRand>(make_contrand(t->d, l, false)); return t; }); }
double rnd() { return RandomGenerator::Get().RandomDouble(); }
void perform(const World& w, const Op& q, Pool& P, Out& o)
{
    char k[80]; const auto& x = q.x;
    switch (q.kind) {
    case CROSS: {
        const CrossKey& c = w.cross[q.which % w.cross.size()]; snprintf(k, sizeof k, "cross %s %d %d %d %d", c.p->name.c_str(), c.type, c.med, c.cut, c.variant);
        auto& b = P.get<phys::Built>(k, [&] { return std::make_shared<phys::Built>(c.p->build(def(P, c.type), med(P, c.med), c.p->only_stochastic ? nullptr : cuts(c.cut), c.variant)); });
        auto& s = *b.cross; double E = std::max(b.lower, c.p->emin) * (x[0] < 0.2 ? 1.01 : 20) * std::pow(c.p->emax / std::max(b.lower, c.p->emin) / 100, std::floor(x[0] * 4) / 4); auto& t = b.targets[(int)(x[1] * b.targets.size())];
        switch (q.how % 6) { case 0: o.push_back(s.CalculatedEdx(E)); break; case 1: o.push_back(s.CalculatedE2dx(E)); break; case 2: for (auto& r : s.CalculatedNdx_PerTarget(E)) o.push_back(r.second); break; case 3: { auto l = t.limits(E); o.push_back(l.v_min); o.push_back(l.v_max); o.push_back(t.dcs(E, l.v_min + (l.v_max - l.v_min) * x[2])); break; }
        default: { double n = s.CalculatedNdx(E, t.hash); o.push_back(n); if (n > 0) { double v = s.CalculateStochasticLoss(t.hash, E, n * rnd()); o.push_back(v); if (q.how % 6 == 5) o.push_back(s.CalculateCumulativeCrosssection(E, t.hash, v)); } } }
        break; }
    case PRODUCTS: {
        using Param = secondaries::Parametrization; int type = q.type, g = q.which % 10; static const int photon[] = {0, 0, 0, 0, 0, 0, 1, 1, 1, 0}; if (photon[g]) type = 22; if (g == 9) type = -11; if (g == 2) type = type > 0 ? 11 : -11; if (g == 3 || g == 4) type = 13; if (type == 22 && !photon[g]) type = 13;
        snprintf(k, sizeof k, "products %d %d %d", g, type, q.med); const ParticleDef& p = def(P, type); const Medium& m = med(P, q.med);
        auto& s = *P.get<std::shared_ptr<Param>>(k, [&] { Param* z; switch (g) { case 0: z = new secondaries::NaivIonization(p, m); break; case 1: z = new secondaries::BremsEGS4Approximation(p, m); break; case 2: z = new secondaries::BremsKochMotz(p, m); break; case 3: z = new secondaries::KelnerKokoulinPetrukhinEpairProduction(p, m); break; case 4: z = new secondaries::KelnerKokoulinPetrukhinMupairProduction(p, m); break; case 5: z = new secondaries::Photonuclear(p, m); break; case 6: z = new secondaries::NaivCompton(p, m); break; case 7: z = new Pair<secondaries::PhotoPairProductionTsai>(); break; case 8: z = new Pair<secondaries::PhotoPairProductionKochMotzForwardPeaked>(); break; default: z = new secondaries::HeitlerAnnihilation(p, m); } return std::make_shared<std::shared_ptr<Param>>(z); });
        auto cs = m.GetComponents(); const Component& c = cs[(int)(x[1] * cs.size())]; double E = (p.mass * 20 + 100) * std::pow(10, std::floor(x[0] * 4)), v = photon[g] && g > 6 ? 1 : g == 9 ? 1 : 0.01 * std::pow(50, std::floor(x[2] * 4) / 4); if (g == 4) { E *= 1e3; v = std::max(v, 0.01); } std::vector<double> r; for (size_t i = s.RequiredRandomNumbers(); i > 0; --i) r.push_back(rnd());
        static const IT types[] = {IT::Ioniz, IT::Brems, IT::Brems, IT::Epair, IT::MuPair, IT::Photonuclear, IT::Compton, IT::Photopair, IT::Photopair, IT::Annihilation}; StochasticLoss l((int)types[g], E * v, Cartesian3D(1, 2, 3), Cartesian3D(0, 0.6, 0.8), 1e-6, 5, E, c.GetHash());
        for (auto& z : s.CalculateSecondaries(l, c, r)) put(o, z); break; }
    case DECAY: {
        int g = q.which % 6, type = g < 2 ? 13 : 15; const ParticleDef& p = def(P, type); ParticleState z((ParticleType)type, Cartesian3D(1, 2, 3), Cartesian3D(0.6, 0, -0.8), p.mass * (1 + std::floor(x[0] * 3) * 10), 1e-6, 7); std::vector<ParticleState> r;
        if (g == 0 || g == 2) r = p.decay_table.SelectChannel(rnd()).Decay(p, z);
        else { auto& c = *P.get<std::shared_ptr<DecayChannel>>("channel" + std::to_string(g), [&]() -> std::shared_ptr<std::shared_ptr<DecayChannel>> { auto d = [](int t) { return phys::particle(t); }; DecayChannel* n; switch (g) { case 1: n = new LeptonicDecayChannel(d(11), d(14), d(-12)); break; case 3: n = new LeptonicDecayChannelApprox(d(13), d(16), d(-14)); break; case 4: n = new TwoBodyPhaseSpace(ParticleDef::GetParticleDefForType(-211), d(16)); break; default: { ManyBodyPhaseSpace::Builder b; for (int t : {-211, 211, -211, 16}) b.addDaughter(ParticleDef::GetParticleDefForType(t)); n = new ManyBodyPhaseSpace(b.build()); } } return std::make_shared<std::shared_ptr<DecayChannel>>(n); });
            if (q.how % 3 == 0) { std::unique_ptr<DecayChannel> copy(c.clone()); r = copy->Decay(p, z); } else r = c.Decay(p, z); }
        for (auto& y : r) put(o, y); break; }
    case SCATTER: {
        int g = q.which % 3, type = q.type == 22 ? 13 : q.type; snprintf(k, sizeof k, "scatter %d %d %d", g, type, q.med); using M = multiple_scattering::Parametrization;
        auto& s = *P.get<std::shared_ptr<M>>(k, [&] { const ParticleDef& p = def(P, type); const Medium& m = med(P, q.med); M* z; if (g == 0) z = new multiple_scattering::Highland(p, m); else if (g == 1) z = new multiple_scattering::Moliere(p, m); else z = new multiple_scattering::HighlandIntegral(p, m, std::const_pointer_cast<Displacement>(std::shared_ptr<Displacement>(tools(P, 1, type).d)), std::false_type()); return std::make_shared<std::shared_ptr<M>>(z); });
        double E = 1000 * std::pow(10, std::floor(x[0] * 4)), f = E * (1 - 0.5 * std::floor(x[1] * 3 + 1) / 4), gr = std::pow(10, std::floor(x[2] * 4)); if (g == 2) gr = tools(P, 1, type).d->SolveTrackIntegral(E, f); std::array<double, 4> r; for (auto& z : r) z = rnd();
        if (q.how % 3 == 0) o.push_back(s.CalculateScatteringAngle2D(gr, E, f, r[0], r[1])); else { auto z = s.CalculateRandomAngle(gr, E, f, r); o.insert(o.end(), {z.sx, z.sy, z.tx, z.ty}); } break; }
    case DEFLECT: {
        static const char* n[] = {"BremsTsaiApproximation", "BremsGinneken", "IonizNaive", "PhotoBorogPetrukhin", "PhotoGinneken", "EpairGinneken"}; int g = q.which % 6, type = g == 2 || g == 0 ? q.type : 13; if (type == 22) type = 13; snprintf(k, sizeof k, "deflect %d %d %d", g, type, q.med); using D = stochastic_deflection::Parametrization;
        auto& s = *P.get<std::shared_ptr<D>>(k, [&] { return std::make_shared<std::shared_ptr<D>>(std::shared_ptr<D>(make_stochastic_deflection(n[g], def(P, type), med(P, q.med)))); }); double E = 2e4 * std::pow(10, std::floor(x[0] * 4)), f = E * (1 - 0.01 * std::pow(30, std::floor(x[1] * 4) / 4)); auto cs = med(P, q.med).GetComponents(); size_t c = cs[(int)(x[2] * cs.size())].GetHash(); if (g == 2) c = med(P, q.med).GetHash(); std::vector<double> r; for (size_t i = s.RequiredRandomNumbers(); i > 0; --i) r.push_back(rnd());
        auto a = s.CalculateStochasticDeflection(E, f, r, c); o.push_back(a.zenith); o.push_back(a.azimuth); break; }
    case DENSITY: {
        int g = q.which % 4; auto& d = *P.get<std::shared_ptr<Density_distr>>("density" + std::to_string(g), [&] { CartesianAxis c(Cartesian3D(0, 0, 1), Cartesian3D(0, 0, -100)); RadialAxis r(Cartesian3D(10, 0, -50)); Density_distr* z; switch (g) { case 0: z = new Density_homogeneous(1.2); break; case 1: z = new Density_exponential(c, 500., 3., 2.); break; case 2: z = new Density_polynomial(c, Polynom(std::vector<double>{1, 1e-3, 1e-5}), 1.5); break; default: z = new Density_exponential(r, 300., 0., 1.); } return std::make_shared<std::shared_ptr<Density_distr>>(z); });
        Cartesian3D p(20 * std::floor(x[0] * 4), 0, 30 * x[1]), dir(0, 0.6, 0.8); double l = 10 * std::pow(3, std::floor(x[2] * 4)); switch (q.how % 3) { case 0: o.push_back(d.Evaluate(p)); break; case 1: o.push_back(d.Calculate(p, dir, l)); break; default: o.push_back(d.Correct(p, dir, l * 0.9, 1e6)); } break; }
    case VOLUME: {
        int g = q.which % 3; auto& v = *P.get<std::shared_ptr<Geometry>>("volume" + std::to_string(g), [&] { Geometry* z = g == 0 ? (Geometry*)new Sphere(Cartesian3D(1, 2, 3), 50., 10.) : g == 1 ? (Geometry*)new Box(Cartesian3D(0, 0, 0), 30., 40., 50.) : (Geometry*)new Cylinder(Cartesian3D(0, 5, 0), 60., 40., 20.); return std::make_shared<std::shared_ptr<Geometry>>(z); });
        Cartesian3D p(100 * (x[0] - 0.5), 20 * std::floor(x[1] * 3), 10), d(x[2] - 0.5, x[3] - 0.5, 0.3); d.normalize(); auto t = v.DistanceToBorder(p, d); o.insert(o.end(), {t.first, t.second, (double)v.IsInside(p, d), (double)v.IsEntering(p, d), v.DistanceToClosestApproach(p, d)}); break; }
    case DEFINITION: {
        if (q.how % 2) { auto m = CreateMedium(phys::medium_name(q.med == 8 ? 14 : q.med)); o.insert(o.end(), {m->GetMassDensity(), m->GetI(), m->GetMolDensity(), m->GetRadiationLength(), (double)(m->GetHash() >> 12)}); for (auto& c : m->GetComponents()) { auto z = Component::GetComponentForHash(c.GetHash()); o.insert(o.end(), {z.GetNucCharge(), z.GetAtomicNum(), z.GetLogConstant(), (double)(c.GetHash() >> 12)}); } }
        else { auto d = ParticleDef::GetParticleDefForType(q.type); o.insert(o.end(), {d.mass, d.lifetime, d.charge, (double)(d.GetHash() >> 12)}); } break; }
    case UTILITY: {
        Tools& t = tools(P, q.which % 2, 13); double E = 1000 * std::pow(10, std::floor(x[0] * 4)), f = std::max(E * (0.1 + 0.8 * x[1]), 300.); auto fn = [&](int n) { switch (n) { case 0: o.push_back(t.d->SolveTrackIntegral(E, f)); break; case 1: o.push_back(t.d->UpperLimitTrackIntegral(E, 10 * std::pow(3, std::floor(x[2] * 3)))); break; case 2: o.push_back(t.i->EnergyInteraction(E, rnd())); break; case 3: o.push_back(t.i->EnergyIntegral(E, f)); break; case 4: { auto r = t.i->Rates(E); auto l = t.i->SampleLoss(E, r, rnd()); o.insert(o.end(), {(double)(int)l.type, (double)l.comp_hash, l.v_loss, t.i->MeanFreePath(E)}); break; } case 5: o.push_back(t.c->EnergyDecay(E, rnd(), 1.)); break; case 6: o.push_back(t.t->TimeElapsed(E, f, 10., 1.)); break; default: o.push_back(t.r->EnergyRandomize(E, f, rnd(), 220.)); } }; fn(q.how % 8); break; }
    default: {
        int g = q.which % 2; auto& I = P.get<Integral>("integral" + std::to_string(g), [&] { return g ? std::make_shared<Integral>(5, 20, 1e-6) : std::make_shared<Integral>(); }); double a = 1 + std::floor(x[0] * 3), b = a * 10, y = 1 + std::floor(x[1] * 3); auto f = [y](double v) { S.step(); return std::exp(-v * y / 10) + y / v; }; switch (q.how % 5) { case 4: { double r = rnd(); o.push_back(I.IntegrateWithRandomRatio(a, b, f, 3, r)); o.push_back(I.GetUpperLimit()); break; } default: o.push_back(I.Integrate(a, b, f, 2 + q.how % 4, 2)); } }
    }
}
struct Actor { std::string state; bool engine; Stream st; std::vector<Op> ops; size_t next = 0; std::vector<Out> got; };
// one operation with the actor's own random numbers; an exception is a result as well
void step(const World& w, Actor& a, size_t i, Pool& P, Out& o)
{
    auto& R = RandomGenerator::Get(); std::function<double()> f = [&a] { return a.st(); };
    if (a.engine) { R.SetDefaultRandomNumberGenerator(); std::istringstream is(a.state); R.Deserialize(is); } else R.SetRandomNumberGenerator(f);
    try { perform(w, a.ops[i], P, o); } catch (const RngFault&) { throw; } catch (const std::bad_alloc&) { throw; } catch (const std::exception& e) { o.push_back(-7e77); o.push_back((double)std::string(e.what()).size()); }
    if (a.engine) { std::ostringstream os; R.Serialize(os); a.state = os.str(); } else o.push_back((double)a.st.n); R.SetDefaultRandomNumberGenerator();
}
Op gen_op(Sim& s, const World& w, const Op* like, int focus)
{
    Op q; q.kind = focus >= 0 && s.chance(3, 4) ? focus : (int)s.pick(NKINDS + 2) % NKINDS; q.which = s.pick(12); q.type = s.of(std::vector<int>{13, 11, -11, -13, 15, 22}); q.med = s.pick(4) ? s.pick(3) : s.pick(phys::n_media()); q.how = s.pick(12); Prng p(s.pick(1ull << 40)); for (auto& v : q.x) v = p.unit();
    if (like && s.chance(1, 2)) { Op n = *like; switch (s.pick(5)) { case 0: n.how = q.how; break; case 1: n.x[s.pick(4)] = q.x[0]; break; case 2: n.med = q.med; break; case 3: n.type = q.type; break; default: n.which = q.which; } q = n; }      // differs in one respect from what another user asks
    return q;
}
void isolation(Sim& s)
{
    s.scenario("isolation"); World w; std::vector<const phys::Process*> fast; for (auto& p : phys::processes()) if (!p.slow) fast.push_back(&p);
    int focus = s.chance(1, 2) ? (int)s.pick(NKINDS + 2) % NKINDS : -1; for (int n = s.range(1, 2); n > 0; --n) { CrossKey c; c.p = s.of(fast); c.type = s.of(c.p->particles); c.med = s.pick(phys::n_media()); c.cut = s.pick(4); c.variant = s.pick(4); w.cross.push_back(c); for (int m = s.range(0, focus == CROSS ? 4 : 2); m > 0; --m) { switch (s.pick(5)) { case 0: c.med = s.pick(phys::n_media()); break; case 4: case 1: c.type = s.of(c.p->particles); break; case 2: c.cut = s.pick(4); break; default: c.variant = s.pick(4); } w.cross.push_back(c); } }
    int n = s.range(2, 3); std::vector<Actor> a(n); std::vector<Op> all;
    for (auto& c : w.cross) s.log("process %s particle %d medium %s cut %d variant %d", c.p->name.c_str(), c.type, phys::medium_name(c.med), c.cut, c.variant);
    for (int i = 0; i < n; ++i) { a[i].engine = s.chance(1, 2); if (a[i].engine) { RandomGenerator::Get().SetSeed((int)s.pick(1000)); std::ostringstream os; RandomGenerator::Get().Serialize(os); a[i].state = os.str(); } else a[i].st = gen_stream(s); for (int m = s.range(2, s.tier ? 12 : 8); m > 0; --m) { Op q = gen_op(s, w, all.empty() ? nullptr : &all[s.pick(all.size())], focus); a[i].ops.push_back(q); all.push_back(q); } a[i].got.resize(a[i].ops.size()); }
    // each of them alone, in a process of its own
    const size_t CAP = 1 << 15; double* mem = (double*)mmap(nullptr, n * CAP * sizeof(double), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (mem == MAP_FAILED) throw std::bad_alloc();
    std::vector<std::vector<Out>> alone(n);
    for (int i = 0; i < n; ++i) {
        pid_t pid = fork(); if (pid < 0) throw std::runtime_error("fork");
        if (pid == 0) { alarm(120); Shared* h = (Shared*)malloc(sizeof(Shared)); memcpy(h, S.sh, sizeof(Shared)); S.sh = h; double* z = mem + i * CAP; size_t p = 1; Pool P; Actor b = a[i]; for (size_t k = 0; k < b.ops.size(); ++k) { Out o; step(w, b, k, P, o); if (p + o.size() + 1 >= CAP) break; z[p++] = o.size(); for (double v : o) z[p++] = v; z[0] = k + 1; } _exit(0); }
        int st = 0; waitpid(pid, &st, 0); if (!WIFEXITED(st)) s.fail("crash", "user %d alone ends with signal %d", i, WTERMSIG(st)); double* z = mem + i * CAP; size_t p = 1; for (size_t k = 0; k < (size_t)z[0]; ++k) { Out o(z + p + 1, z + p + 1 + (size_t)z[p]); p += 1 + (size_t)z[p]; alone[i].push_back(o); } if (alone[i].size() != a[i].ops.size()) s.fail("crash", "user %d alone ends early", i);
    }
    munmap(mem, n * CAP * sizeof(double));
    // all of them together, interleaved, with failures in between
    Pool P; size_t left = all.size(); uint64_t order = 0;
    while (left) {
        int i; do i = s.pick(n); while (a[i].next == a[i].ops.size()); Actor& b = a[i]; Op& q = b.ops[b.next];
        if (s.chance(1, 4)) {                                        // someone else's operation fails, or the same one fails before it is repeated
            Actor c; bool own = s.chance(1, 2); c.engine = false; c.ops = {own ? q : gen_op(s, w, &q, focus)}; c.st = b.engine ? Stream() : b.st; bool rng = s.chance(1, 2); Out o; s.op("disturb %s", names[c.ops[0].kind]);
            if (rng) { c.st.throw_at = c.st.n + (long)s.pick(6); try { step(w, c, 0, P, o); } catch (const RngFault&) { s.fault("rng.throws"); } }
            else { long at = s.pick(s.chance(1, 2) ? 12 : 300); bool hit = false; try { AllocScope x(at); struct Hit { bool& h; ~Hit() { h = alloc_fault.fired; alloc_fault.armed = false; } } g{hit}; step(w, c, 0, P, o); } catch (const std::bad_alloc&) {} if (hit) s.fault("alloc.operation"); }
            RandomGenerator::Get().SetDefaultRandomNumberGenerator();
        }
        if (s.chance(1, 12) && !P.m.empty()) { auto it = P.m.begin(); std::advance(it, s.pick(P.m.size())); if (it->first.compare(0, 4, "fake") && it->first.compare(0, 8, "particle") && it->first.compare(0, 6, "medium")) { s.op("rebuild"); P.m.erase(it); s.fault("object.rebuilt"); } }
        s.op("%d:%s", i, names[q.kind]); s.step(); order = mix(order, i); Out o; step(w, b, b.next, P, o); const Out& e = alone[i][b.next]; s.count(names[q.kind]); s.nontrivial();
        for (double v : o) s.val(v);
        bool ok = o.size() == e.size(); size_t k = 0; for (; ok && k < o.size(); ++k) if (!same(o[k], e[k])) { ok = false; break; }
        if (!ok) s.fail("disturbed", "user %d, operation %d (%s, object %d, type %d, medium %s, call %d): value %d is %.17g instead of %.17g, which it is without the others", i, (int)b.next, names[q.kind], q.which, q.type, phys::medium_name(q.med), q.how, (int)k, k < o.size() ? o[k] : -1, k < e.size() ? e[k] : -1);
        ++b.next; --left;
    }
}
DST_SCENARIO("P12", isolation);
} // namespace
