// P09 decay kinematics, P10 decay tables, P11 random-number checkpoints
#include "rng.h"
#include "PROPOSAL/decay/DecayTable.h"
#include "PROPOSAL/decay/LeptonicDecayChannel.h"
#include "PROPOSAL/decay/ManyBodyPhaseSpace.h"
#include "PROPOSAL/decay/StableChannel.h"
#include "PROPOSAL/decay/TwoBodyPhaseSpace.h"
#include "PROPOSAL/particle/Particle.h"
#include "PROPOSAL/particle/ParticleDef.h"
#include <array>
#include <map>
#include <memory>
#include <sstream>
using namespace PROPOSAL;
using namespace sim;

namespace {
const std::vector<int> all_types{11, -11, 12, -12, 13, -13, 14, -14, 15, -15, 16, -16, 22, 111, 211, -211, 311, 321, -321};
ParticleDef def(int t) { return ParticleDef::GetParticleDefForType(t); }

struct Chan { std::unique_ptr<DecayChannel> ch; std::shared_ptr<const DecayChannel> pristine; std::vector<double> masses; double parent_mass; std::vector<int> daughters; bool custom_me = false; int kind = 0; };
Chan gen_channel(Sim& s)
{
    Chan c; c.kind = (int)s.pick(4);
    double M = s.of(std::vector<double>{105.6583745, 1776.86, 139.57, 500, 2e4});
    auto pickd = [&](int n) { double sum = 0; std::vector<int> d;
        for (int i = 0; i < n; ++i) { int t = s.of(std::vector<int>{-211, 111, 16, 11, 22, 321, 13, -12, 211}); if (sum + def(t).mass >= M * 0.98) t = s.of(std::vector<int>{22, 16, 11}); sum += def(t).mass; d.push_back(t); }
        return d; };
    switch (c.kind) {
    case 0: c.daughters = pickd(2); c.ch.reset(new TwoBodyPhaseSpace(def(c.daughters[0]), def(c.daughters[1]))); break;
    case 1: case 2: { int l = M > 200 ? s.of(std::vector<int>{13, 11, -13}) : 11; c.daughters = {l, s.of(std::vector<int>{14, 16, -14}), s.of(std::vector<int>{-12, 12})};
        auto a = def(l), b = def(c.daughters[1]), d = def(c.daughters[2]);
        if (c.kind == 1) c.ch.reset(new LeptonicDecayChannelApprox(a, b, d)); else c.ch.reset(new LeptonicDecayChannel(a, b, d)); break; }
    default: { c.daughters = pickd(s.range(2, s.tier ? 6 : 5)); ManyBodyPhaseSpace::Builder b; for (int t : c.daughters) b.addDaughter(def(t));
        if (s.chance(1, 5)) { c.custom_me = true; b.setMatrixElement([](const ParticleState&, const std::vector<ParticleState>& p) { S.step(); return 1 + p[0].energy / (p[0].energy + p[1].energy); }); }
        c.ch.reset(new ManyBodyPhaseSpace(b.build())); if (s.chance(1, 4)) c.ch->SetUniformSampling(false); }
    }
    double sum = 0; for (int t : c.daughters) sum += def(t).mass;
    if (M <= sum) M = sum * 1.02 + 1e-3;
    if (s.chance(1, 8) && sum > 0 && c.kind != 1 && c.kind != 2) M = sum * (1 + s.of(std::vector<double>{1e-4, 1e-3, 1e-2}));   // near threshold
    c.parent_mass = M; c.masses = {M}; while (c.masses.size() < 3 && s.chance(1, 3)) c.masses.push_back(std::max(M * s.of(std::vector<double>{2, 1.1, 5}), sum * 1.01));
    c.pristine.reset(c.ch->clone());
    return c;
}
ParticleState gen_parent(Sim& s, double M, int type)
{
    ParticleState p; p.type = type;
    double g = s.of(std::vector<double>{1, 2, 1 + 1e-12, 1 + 1e-6, 1e3, 1e6, 1.05}); if (s.chance(1, 3)) g = s.loguniform(1, 1e5);
    p.energy = M * g; if (p.energy < M) p.energy = M;
    if (s.chance(1, 3)) p.direction = s.of(std::vector<Cartesian3D>{Cartesian3D(0, 0, 1), Cartesian3D(0, 0, -1), Cartesian3D(1, 0, 0), Cartesian3D(0, -1, 0)});
    else { double c = s.uniform(-1, 1), f = s.uniform(0, 6.283); double q = std::sqrt(1 - c * c); p.direction = Cartesian3D(q * std::cos(f), q * std::sin(f), c); }
    p.position = Cartesian3D(s.uniform(-1e5, 1e5), s.uniform(-10, 10), s.chance(1, 2) ? 0 : 1e8); p.time = s.of(std::vector<double>{0, 1e-3, 7.5}); p.propagated_distance = s.chance(1, 2) ? 0 : 123.5;
    return p;
}
void check_products(const std::vector<ParticleState>& v, double M, const ParticleState& p, const char* what)
{
    double E = 0, scale = p.energy; Cartesian3D mom(0, 0, 0);
    for (auto& q : v) {
        double m = def(q.type).mass;
        if (!std::isfinite(q.energy) || !std::isfinite(q.direction.GetX()) || !std::isfinite(q.direction.GetY()) || !std::isfinite(q.direction.GetZ()))
            S.fail("decay-not-finite", "%s: product of type %d has energy %g and direction (%g,%g,%g)", what, q.type, q.energy, q.direction.GetX(), q.direction.GetY(), q.direction.GetZ());
        if (!(q.energy >= m * (1 - 1e-9))) S.fail("decay-off-shell", "%s: product of type %d has energy %.17g below its mass %.17g", what, q.type, q.energy, m);
        if (std::fabs(q.direction.magnitude() - 1) > 1e-7) S.fail("decay-direction", "%s: product direction has length %.17g", what, q.direction.magnitude());
        if (!(q.position == p.position) || q.time != p.time) S.fail("decay-vertex", "%s: a product does not start at the decay point and time", what);
        E += q.energy; mom = mom + std::sqrt(std::max((q.energy - m) * (q.energy + m), 0.)) * q.direction;
        S.val(q.energy);
    }
    Cartesian3D want = std::sqrt(std::max((p.energy - M) * (p.energy + M), 0.)) * p.direction;
    if (!(std::fabs(E - p.energy) <= 1e-7 * scale)) S.fail("decay-energy", "%s: products carry %.17g, the parent had %.17g", what, E, p.energy);
    double dp = (mom - want).magnitude();
    // energy is stored, so the momentum of a slow heavy product is only known to sqrt(rounding)
    double slack = 0; for (auto& q : v) { double m = def(q.type).mass; slack += std::sqrt(2 * m * 4e-16 * q.energy); }
    if (!(dp <= 1e-7 * scale + 3 * slack)) S.fail("decay-momentum", "%s: momentum of the products differs from the parent's by %.6g MeV (energy %.6g)", what, dp, p.energy);
}
std::string types_of(const std::vector<ParticleState>& v) { std::string r; for (auto& q : v) r += std::to_string(q.type) + " "; return r; }
bool equal(const std::vector<ParticleState>& a, const std::vector<ParticleState>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!(a[i] == b[i])) return false; return true; }

// the share of leptonic decays (parent M, lepton m) in which the lepton has less than the fraction x of its largest energy
double lepton_share(double x, double M, double m, bool approx)
{
    double top = (M * M + m * m) / (2 * M); if (approx) { auto F = [](double y) { return y * y * y * (1 - y / 2); }; double lo = F(m / top); return (F(x) - lo) / (F(1) - lo); }
    auto I = [&](double E) { double T = std::acosh(std::max(E / m, 1.)), h = T / 400, r = 0; for (int i = 0; i <= 400; ++i) { double t = i * h, e = m * std::cosh(t), q = m * std::sinh(t); r += (i == 0 || i == 400 ? 1 : i % 2 ? 4 : 2) * q * q * (3 * (M * M + m * m) * e - 4 * M * e * e - 2 * M * m * m); } return r * h / 3; };
    return I(x * top) / I(top);
}
void check_lepton(double u, const ParticleState& l, double M, const ParticleState& p, bool approx)
{
    double m = def(l.type).mass, top = (M * M + m * m) / (2 * M), g = p.energy / M; if (g > 30 || u < 1e-6 || u > 1 - 1e-6) return;
    double pl = std::sqrt(std::max((l.energy - m) * (l.energy + m), 0.)), e = g * l.energy - std::sqrt((g - 1) * (g + 1)) * pl * (l.direction * p.direction), x = e / top, d = 1.2e-3;   // the root is searched to 1e-3
    double lo = std::max(x - d, m / top), hi = std::min(x + d, 1.); S.count("lepton_spectrum");
    if (!(lepton_share(lo, M, m, approx) <= u + 1e-5 && u - 1e-5 <= lepton_share(hi, M, m, approx))) S.fail("decay-spectrum", "decay of mass %.10g: the random number %.10g gives the lepton the fraction %.10g of its largest energy, below which are %.10g of the decays", M, u, x, lepton_share(x, M, m, approx));
}

// ------------------------------------------------------------------ P09
void p09_channels(Sim& s)
{
    s.scenario("decay-channels");
    std::vector<Chan> v; int nch = s.range(1, 3); for (int i = 0; i < nch; ++i) v.push_back(gen_channel(s));
    Stream st = gen_stream(s); int n = s.range(1, s.tier ? 16 : 8);
    for (int i = 0; i < n; ++i) {
        Chan& c = v[s.pick(v.size())]; double M = c.masses[s.pick(c.masses.size())];
        if (s.chance(1, 8) && v.size() < 6) { s.op("CLONE"); Chan d; d.ch.reset(c.ch->clone()); d.parent_mass = c.parent_mass; d.masses = c.masses; d.pristine = c.pristine; d.daughters = c.daughters; d.custom_me = c.custom_me; d.kind = c.kind; if (!(*d.ch == *c.ch)) s.fail("decay-clone", "a clone differs from its original"); v.push_back(std::move(d)); continue; }
        ParticleDef parent = ParticleDef::Builder().SetName("parent").SetMass(M).SetLow(M).SetLifetime(1e-6).SetParticleType(1000000 + (int)(mix(1, bits(M)) % 1000000000)).build();
        ParticleState p = gen_parent(s, M, parent.particle_type);
        if (s.chance(1, 5)) st.throw_at = st.n + (long)s.pick(c.custom_me ? 3000 : 12);
        s.op("DECAY %s%d%s", c.custom_me ? "me" : "k", c.kind, p.energy == M ? " at rest" : ""); s.log("parent mass %.10g energy %.10g daughters %zu", M, p.energy, c.daughters.size());
        Stream before = st; before.throw_at = -1; std::vector<ParticleState> out; bool threw = false;
        { RngScope r(st); try { out = c.ch->Decay(parent, p); } catch (RngFault&) { threw = true; s.fault("rng.throws"); } }
        st.throw_at = -1;
        if (threw) continue;
        std::vector<int> got; for (auto& q : out) got.push_back(q.type);
        if (got != c.daughters) s.fail("decay-products", "decay gave products %s", types_of(out).c_str());
        check_products(out, M, p, "channel decay"); s.nontrivial();
        if (c.kind == 1 || c.kind == 2) { Stream f = before; check_lepton(f(), out[0], M, p, c.kind == 1); }
        if (!c.custom_me) {   // the same random numbers give the same decay, whatever happened before
            std::unique_ptr<DecayChannel> fresh(s.chance(1, 4) ? c.ch->clone() : c.pristine->clone()); RngScope r(before); auto again = fresh->Decay(parent, p); before.fired_extreme = 0;
            if (!equal(out, again)) s.fail("decay-history", "the same decay with the same random numbers gave different products");
        }
    }
}
// many decays at rest: no direction is preferred, and phase-space decays into massless particles fill the phase space evenly
void p09_even(Sim& s)
{
    s.scenario("decay-distributions"); const int N = 250; int kind = s.pick(4); std::unique_ptr<DecayChannel> c; double M = s.of(std::vector<double>{105.6583745, 1776.86, 500}); int n = 2; bool massless = false; std::vector<int> d;
    if (kind == 0) c.reset(new TwoBodyPhaseSpace(def(s.of(std::vector<int>{11, 22, 16})), def(s.of(std::vector<int>{22, -11, 14}))));
    else if (kind == 1) c.reset(new LeptonicDecayChannelApprox(def(11), def(14), def(-12))), n = 3;
    else if (kind == 2) c.reset(new LeptonicDecayChannel(def(s.chance(1, 2) && M > 200 ? 13 : 11), def(14), def(-12))), n = 3;
    else { n = s.range(2, 5); massless = s.chance(2, 3); ManyBodyPhaseSpace::Builder b; for (int i = 0; i < n; ++i) { d.push_back(massless ? s.of(std::vector<int>{12, 14, 16, 22, -12, -16}) : s.of(std::vector<int>{11, 22, -11, 14})); b.addDaughter(def(d.back())); } c.reset(new ManyBodyPhaseSpace(b.build())); }
    s.op("DECAYS k%d n%d", kind, n); ParticleDef parent = ParticleDef::Builder().SetName("parent").SetMass(M).SetLow(M).SetLifetime(1e-6).SetParticleType(2000000 + (int)M).build();
    ParticleState p = gen_parent(s, M, parent.particle_type); p.energy = M; Stream st = gen_stream(s); st.extreme = 0; s.nontrivial();
    std::vector<std::array<double, 9>> sum(n); std::vector<double> x2(n); for (auto& z : sum) z.fill(0);
    { RngScope r(st); for (int k = 0; k < N; ++k) { auto o = c->Decay(parent, p); if ((int)o.size() != n) s.fail("decay-products", "decay gave products %s", types_of(o).c_str());
        for (int i = 0; i < n; ++i) { double q[3] = {o[i].direction.GetX(), o[i].direction.GetY(), o[i].direction.GetZ()}; for (int a = 0, j = 6; a < 3; ++a) { sum[i][a] += q[a]; sum[i][3 + a] += q[a] * q[a] - 1. / 3; for (int b = a + 1; b < 3; ++b) sum[i][j++] += q[a] * q[b]; } double x = 2 * o[i].energy / M; x2[i] += x * x; } } }
    static const double var[9] = {1. / 3, 1. / 3, 1. / 3, 4. / 45, 4. / 45, 4. / 45, 1. / 15, 1. / 15, 1. / 15};
    for (int i = 0; i < n; ++i) {
        for (int j = 0; j < 9; ++j) { double t = sum[i][j] / std::sqrt(N * var[j]); s.val(t); if (!(std::fabs(t) < 7)) s.fail("decay-isotropy", "product %d of %d decays at rest prefers a direction (moment %d is off by %.3g standard deviations)", i, N, j, t); }
        if (massless && n > 2) { double b = n - 2, m2 = 6 / ((b + 3) * (b + 2)), m4 = 120 / ((b + 5) * (b + 4) * (b + 3) * (b + 2)), t = (x2[i] - N * m2) / std::sqrt(N * (m4 - m2 * m2)); s.val(t);
            if (!(std::fabs(t) < 7)) s.fail("decay-phase-space", "product %d of %d: mean squared energy fraction %.5g instead of %.5g (%.3g standard deviations)", i, n, x2[i] / N, m2, t); }
    }
}
void p09_particles(Sim& s)
{
    s.scenario("particle-decays");
    Stream st = gen_stream(s); int n = s.range(1, s.tier ? 20 : 8);
    std::vector<ParticleDef> defs;
    for (int i = 0; i < n; ++i) {
        int t = s.of(std::vector<int>{13, 15, -13, -15, 15, -15}); ParticleDef d = def(t); ParticleState p = gen_parent(s, d.mass, t);
        double u = s.chance(1, 8) ? 1 - std::ldexp(1., -53) : s.unit();
        if (s.chance(1, 6)) { bool b = s.chance(1, 2); s.op("UNIFORM %d", b); d.decay_table.SetUniformSampling(b); }
        if (s.chance(1, 5)) st.throw_at = st.n + (long)s.pick(10);
        s.op("DECAY %d", t); s.log("u=%.17g E=%.10g", u, p.energy);
        std::vector<ParticleState> out; bool threw = false;
        { RngScope r(st); try { out = d.decay_table.SelectChannel(u).Decay(d, p); } catch (RngFault&) { threw = true; s.fault("rng.throws"); } }
        st.throw_at = -1; if (threw) continue;
        if (out.size() < 2) s.fail("decay-products", "particle %d decays into %zu products", t, out.size());
        check_products(out, d.mass, p, "particle decay"); s.nontrivial();
        double q = 0; int lep = 0; for (auto& x : out) { q += def(x.type).charge; int a = std::abs(x.type); if (a >= 11 && a <= 16) lep += x.type > 0 ? 1 : -1; }
        if (std::fabs(q - d.charge) > 1e-9) s.fail("decay-charge", "particle %d of charge %g decays to charge %g: %s", t, d.charge, q, types_of(out).c_str());
        if (lep != (t > 0 ? 1 : -1)) s.fail("decay-lepton-number", "particle %d decays to lepton number %d: %s", t, lep, types_of(out).c_str());
    }
}

// ------------------------------------------------------------------ P10
struct Proto { std::string name; std::unique_ptr<DecayChannel> ch; };
std::vector<Proto> protos()
{
    std::vector<Proto> v; auto add = [&](const char* n, DecayChannel* c) { Proto p; p.name = n; p.ch.reset(c); v.push_back(std::move(p)); };
    add("stable", new StableChannel());
    add("pi- nu", new TwoBodyPhaseSpace(def(-211), def(16)));
    add("pi+ nubar", new TwoBodyPhaseSpace(def(211), def(-16)));
    add("e nu nu", new LeptonicDecayChannelApprox(def(11), def(16), def(-12)));
    add("mu nu nu", new LeptonicDecayChannel(def(13), def(16), def(-14)));
    { ManyBodyPhaseSpace::Builder b; b.addDaughter(def(-211)).addDaughter(def(111)).addDaughter(def(16)); add("3 body", new ManyBodyPhaseSpace(b.build())); }
    { ManyBodyPhaseSpace::Builder b; b.addDaughter(def(-211)).addDaughter(def(111)).addDaughter(def(111)).addDaughter(def(16)); add("4 body", new ManyBodyPhaseSpace(b.build())); }
    return v;
}
void p10(Sim& s)
{
    s.scenario("decay-table-history");
    auto pr = protos();
    typedef std::multimap<double, int> Model;
    struct T { std::unique_ptr<DecayTable> t; Model m; bool uniform = true; };
    std::vector<T> v; auto add = [&] { T x; x.t.reset(new DecayTable()); v.push_back(std::move(x)); }; add();
    auto check = [&](T& x) {
        if (x.m.empty()) return;
        std::vector<double> w(pr.size(), 0), got(pr.size(), 0); double sum = 0; for (auto& e : x.m) { w[e.second] += e.first; sum += e.first; }
        const int N = 60; double off = s.unit();
        for (int i = 0; i < N; ++i) {
            double u = (i + off) / N; DecayChannel& c = x.t->SelectChannel(u); size_t k = 0;
            while (k < pr.size() && !(c == *pr[k].ch) && !(dynamic_cast<ManyBodyPhaseSpace*>(&c) && k >= 5 && [&] { pr[k].ch->SetUniformSampling(false); bool e = c == *pr[k].ch; pr[k].ch->SetUniformSampling(true); return e; }())) ++k;
            if (k == pr.size()) s.fail("decay-table-channel", "the table selects a channel that was never added");
            if (&c != &x.t->SelectChannel(u)) s.fail("decay-table-unstable", "the same random number selects different channels");
            got[k]++; S.step();
        }
        for (size_t k = 0; k < pr.size(); ++k) {
            long pieces = 0; for (auto& e : x.m) pieces += e.second == (int)k;
            if (std::fabs(got[k] - N * w[k] / sum) > 1.001 * std::max(pieces, 1L)) s.fail("decay-table-fractions", "channel '%s' has branching ratio %.6g of %.6g but is selected for %g of %d evenly spaced random numbers", pr[k].name.c_str(), w[k], sum, got[k], N);
        }
        for (double u : {0., 1 - std::ldexp(1., -53)}) { DecayChannel& c = x.t->SelectChannel(u); (void)c.GetName(); }
        s.nontrivial();
    };
    int n = s.range(2, s.tier ? 24 : 12);
    for (int i = 0; i < n; ++i) {
        size_t k = s.pick(v.size()); T& x = v[k]; bool f = s.chance(1, 4); long nth = f ? (long)s.pick(12) : -1;
        switch (s.pick(8)) {
        default: {
            double br = s.of(std::vector<double>{0.5, 0.1, 0.25, 0.3, 1.0, 1e-3}); if (s.chance(1, 3)) br = s.unit() + 1e-6; int p = (int)s.pick(pr.size());
            s.op("ADD %s", pr[p].name.c_str()); s.log("branching ratio %.10g", br); bool ok = true;
            { AllocScope a(nth); try { x.t->addChannel(br, *pr[p].ch); } catch (std::bad_alloc&) { ok = false; } }
            if (!ok) s.fault("alloc.add_channel"); else x.m.insert({br, p}); break; }
        case 2: { s.op("STABLE"); bool ok = true; { AllocScope a(nth); try { x.t->SetStable(); } catch (std::bad_alloc&) { ok = false; } }
            if (!ok) s.fault("alloc.set_stable"); else { x.m.clear(); x.m.insert({1.1, 0}); } break; }
        case 3: { s.op("COPY"); T c; bool ok = true; { AllocScope a(nth); try { c.t.reset(new DecayTable(*x.t)); } catch (std::bad_alloc&) { ok = false; } }
            if (!ok) { s.fault("alloc.copy"); break; } c.m = x.m; if (!(*c.t == *x.t)) s.fail("decay-table-copy", "a copy of the table differs from the original"); v.push_back(std::move(c)); break; }
        case 4: { size_t m = s.pick(v.size()); s.op("ASSIGN"); bool ok = true; { AllocScope a(nth); try { *v[m].t = *x.t; } catch (std::bad_alloc&) { ok = false; } }
            if (!ok) { s.fault("alloc.assign"); check(v[m]); } else { v[m].m = x.m; if (!(*v[m].t == *x.t) || *v[m].t != *x.t) s.fail("decay-table-copy", "an assigned table differs from the original"); } break; }
        case 5: { size_t m = s.pick(v.size()); s.op("SWAP"); swap(*v[m].t, *x.t); std::swap(v[m].m, x.m); break; }
        case 6: if (v.size() > 1 && s.chance(1, 2)) { s.op("DESTROY"); v.erase(v.begin() + k); } else { s.op("NEW"); add(); } break;
        case 7: { bool b = s.chance(1, 2); s.op("UNIFORM"); x.t->SetUniformSampling(b); break; }
        }
        for (auto& y : v) if (s.chance(1, 3)) check(y);
    }
    for (auto& y : v) check(y);
}

// ------------------------------------------------------------------ P11
void p11(Sim& s)
{
    s.scenario("rng-checkpoints");
    auto& R = RandomGenerator::Get(); R.SetDefaultRandomNumberGenerator();
    // model of the stream: (seed, position); the reference sequence is recorded from the generator itself
    std::map<int, std::vector<double>> ref;
    auto at = [&](int seed, long pos) -> double { auto& v = ref[seed]; return (long)v.size() > pos ? v[pos] : -1; };
    int seed = (int)s.pick(5); long pos = 0; R.SetSeed(seed);
    struct Ck { std::string data; int seed; long pos; }; std::vector<Ck> cks; bool custom = false; Stream st = gen_stream(s); Stream mirror = st;
    std::function<double()> fn = [&st] { return st(); };
    int n = s.range(3, s.tier ? 40 : 20);
    for (int i = 0; i < n; ++i) switch (s.pick(9)) {
        default: { long k = s.of(std::vector<int>{1, 5, 700, 40}); s.op("DRAW%s", custom ? " custom" : "");
            for (long j = 0; j < k; ++j) {
                S.step();
                if (custom) {
                    bool threw = false; double x = 0; if (s.chance(1, 50)) st.throw_at = st.n;
                    try { x = R.RandomDouble(); } catch (RngFault&) { threw = true; s.fault("rng.throws"); }
                    if (threw) continue;
                    double y = mirror(); if (!same(x, y)) s.fail("rng-custom", "a custom generator returned %.17g but %.17g was passed on", y, x);
                    continue; }
                double x = R.RandomDouble(); S.val(x);
                if (!(x >= 0 && x < 1)) s.fail("rng-range", "random number %.17g", x);
                double w = at(seed, pos); if (w < 0) ref[seed].push_back(x); else if (!same(x, w)) s.fail("rng-sequence", "draw %ld after seed %d is %.17g, earlier it was %.17g", pos, seed, x, w);
                ++pos; }
            s.nontrivial(); break; }
        case 2: { seed = (int)s.pick(5); pos = 0; s.op("SEED %d", seed); R.SetSeed(seed); break; }
        case 3: { s.op("CHECKPOINT"); std::stringstream ss; if (s.chance(1, 3)) { ss << std::hex; ss.fill('*'); ss << std::showbase; } R.Serialize(ss); cks.push_back({ss.str(), seed, pos}); break; }
        case 4: if (!cks.empty()) { auto& c = s.of(cks); s.op("RESTORE"); std::stringstream ss(c.data); if (s.chance(1, 3)) ss >> std::hex; R.Deserialize(ss); seed = c.seed; pos = c.pos;
            // the reference must have reached the checkpoint already, so later draws can be compared
            s.nontrivial(); } break;
        case 5: if (!cks.empty()) { auto c = s.of(cks); size_t last = c.data.rfind(' '); if (last == std::string::npos || last == 0) break;
            size_t cut = s.pick(last); s.op("RESTORE damaged"); s.fault("checkpoint.truncated"); std::stringstream ss(c.data.substr(0, cut)); bool refused = false;
            if (s.chance(1, 4)) ss.setstate(std::ios::failbit);
            try { R.Deserialize(ss); } catch (std::exception&) { refused = true; }
            if (!refused && ss.good()) s.fail("rng-damaged-checkpoint", "a checkpoint cut to %zu of %zu bytes is accepted", cut, c.data.size());
            s.nontrivial(); } break;
        case 6: if (!custom) { s.op("CUSTOM on"); R.SetRandomNumberGenerator(fn); custom = true; } break;
        case 7: if (custom) { s.op("CUSTOM off"); R.SetDefaultRandomNumberGenerator(); custom = false; } break;
        case 8: if (cks.size() > 0 && s.chance(1, 2)) { // crash: a new process continues from the checkpoint
            auto& c = s.of(cks); s.op("RESTART"); R.SetSeed(12345); R.SetDefaultRandomNumberGenerator(); custom = false; for (int j = 0; j < 3; ++j) R.RandomDouble();
            std::stringstream ss(c.data); R.Deserialize(ss); seed = c.seed; pos = c.pos; s.fault("restart"); } break;
        }
}
DST_SCENARIO_W("P09", p09_channels, 4);
DST_SCENARIO_W("P09", p09_particles, 2);
DST_SCENARIO("P09", p09_even);
DST_SCENARIO("P10", p10);
DST_SCENARIO("P11", p11);
} // namespace
