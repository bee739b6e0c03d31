// P15 registries of particles, components and media
#include "rng.h"
#include "PROPOSAL/Constants.h"
#include "PROPOSAL/decay/DecayTable.h"
#include "PROPOSAL/decay/StableChannel.h"
#include "PROPOSAL/decay/TwoBodyPhaseSpace.h"
#include "PROPOSAL/math/Cartesian3D.h"
#include "PROPOSAL/medium/Components.h"
#include "PROPOSAL/medium/Medium.h"
#include "PROPOSAL/medium/MediumFactory.h"
#include "PROPOSAL/particle/Particle.h"
#include "PROPOSAL/particle/ParticleDef.h"
#include <map>
#include <set>
using namespace PROPOSAL;
using namespace sim;
typedef long double ld;
namespace {
// ---------------------------------------------------------------- particles
struct Known { int type; const char* name; double mass, life, charge; int partner, anti; };      // masses and lifetimes of the PDG, to 1 %; 0: not compared
const Known known[] = {
    {11, "EMinus", 0.51099895, -1, -1, 12, -11}, {-11, "EPlus", 0.51099895, -1, 1, -12, 11}, {12, "NuE", 0, -1, 0, 11, -12}, {-12, "NuEBar", 0, -1, 0, -11, 12},
    {13, "MuMinus", 105.6583755, 2.1969811e-6, -1, 14, -13}, {-13, "MuPlus", 105.6583755, 2.1969811e-6, 1, -14, 13}, {14, "NuMu", 0, -1, 0, 13, -14}, {-14, "NuMuBar", 0, -1, 0, -13, 14},
    {15, "TauMinus", 1776.86, 290.3e-15, -1, 16, -15}, {-15, "TauPlus", 1776.86, 290.3e-15, 1, -16, 15}, {16, "NuTau", 0, -1, 0, 15, -16}, {-16, "NuTauBar", 0, -1, 0, -15, 16},
    {22, "Gamma", 0, -1, 0, 0, 22}, {111, "Pi0", 134.9768, 8.5e-17, 0, 0, 111}, {211, "PiPlus", 139.57039, 2.6033e-8, 1, 0, -211}, {-211, "PiMinus", 139.57039, 2.6033e-8, -1, 0, 211},
    {311, "K0", 497.6, -1, 0, 0, 0}, {321, "KPlus", 493.677, 1.238e-8, 1, 0, -321}, {-321, "KMinus", 493.677, 1.238e-8, -1, 0, 321},
    {1000015, "StauMinus", 0, -1, -1, 0, -1000015}, {-1000015, "StauPlus", 0, -1, 1, 0, 1000015}, {41, "Monopole", 0, -1, 0, 0, 0}, {9500, "SMPPlus", 0, -1, 1, 0, -9500}, {-9500, "SMPMinus", 0, -1, -1, 0, 9500}};
ParticleDef direct(int t)
{
    switch (t) {
    case 11: return EMinusDef(); case -11: return EPlusDef(); case 12: return NuEDef(); case -12: return NuEBarDef(); case 13: return MuMinusDef(); case -13: return MuPlusDef();
    case 14: return NuMuDef(); case -14: return NuMuBarDef(); case 15: return TauMinusDef(); case -15: return TauPlusDef(); case 16: return NuTauDef(); case -16: return NuTauBarDef();
    case 22: return GammaDef(); case 111: return Pi0Def(); case 211: return PiPlusDef(); case -211: return PiMinusDef(); case 311: return K0Def(); case 321: return KPlusDef(); case -321: return KMinusDef();
    case 1000015: return StauMinusDef(); case -1000015: return StauPlusDef(); case 41: return MonopoleDef(); case 9500: return SMPPlusDef(); default: return SMPMinusDef();
    }
}
bool near(double a, double b, double rel) { return std::fabs(a - b) <= rel * std::fabs(b); }
void check_known(Sim& s, const Known& k, const ParticleDef& p, const char* how)
{
    auto bad = [&](const char* what, double got, double want) { s.fail("built-in", "%s of type %d: %s is %.12g instead of %.12g", how, k.type, what, got, want); };
    if (p.particle_type != k.type) bad("type", p.particle_type, k.type);
    if (p.name != k.name) s.fail("built-in", "%s of type %d is called %s instead of %s", how, k.type, p.name.c_str(), k.name);
    bool exotic = std::abs(k.type) == 1000015 || k.type == 41 || std::abs(k.type) == 9500;
    if (!exotic && !near(p.mass, k.mass, 0.01)) bad("mass", p.mass, k.mass);
    if (exotic && !(p.mass > 1e3)) bad("mass", p.mass, 1e5);
    double low = k.type == 22 ? 2 * 0.51099895 : p.mass; if (!near(p.low, low, 1e-6)) bad("lowest energy", p.low, low);
    if (k.life < 0 ? !(std::isinf(p.lifetime) && p.lifetime > 0) : !near(p.lifetime, k.life, 0.02)) bad("lifetime", p.lifetime, k.life);
    if (k.type != 41 && p.charge != k.charge) bad("charge", p.charge, k.charge);
    if (p.weak_partner != k.partner) bad("weak partner", p.weak_partner, k.partner);
    const auto* tab = std::abs(k.type) == 13 ? &HardComponentTables::MuonTable : std::abs(k.type) == 15 ? &HardComponentTables::TauTable : &HardComponentTables::EmptyTable;
    if (&p.hard_component_table != tab && p.hard_component_table != *tab) s.fail("built-in", "%s of type %d has the wrong table of hard components", how, k.type);
}
struct Fields { std::string name; double mass, low, life, charge; int table, decay, type, partner; };
bool operator==(const Fields& a, const Fields& b) { return a.name == b.name && a.mass == b.mass && a.low == b.low && a.life == b.life && a.charge == b.charge && a.table == b.table && a.decay == b.decay && a.type == b.type && a.partner == b.partner; }
const HardComponentTables::VecType& table(int i) { return i == 0 ? HardComponentTables::EmptyTable : i == 1 ? HardComponentTables::MuonTable : HardComponentTables::TauTable; }
DecayTable decay(int i)
{
    DecayTable t; if (i == 1) { StableChannel c; t.addChannel(1.1, c); }
    if (i == 2) { TwoBodyPhaseSpace c(ParticleDef::GetParticleDefForType(11), ParticleDef::GetParticleDefForType(-12)); t.addChannel(1.0, c); }
    return t;
}
ParticleDef custom(const Fields& f)
{
    return ParticleDef::Builder().SetName(f.name).SetMass(f.mass).SetLow(f.low).SetLifetime(f.life).SetCharge(f.charge).SetHardComponentTable(table(f.table)).SetDecayTable(decay(f.decay)).SetParticleType(f.type).SetWeakPartner(static_cast<ParticleType>(f.partner)).build();
}
Fields effective(Fields f) { if (f.low < f.mass) f.low = f.mass; return f; }
void check_fields(Sim& s, const Fields& f, const ParticleDef& p, const char* how)
{
    if (p.name != f.name || p.mass != f.mass || p.low != f.low || p.lifetime != f.life || p.charge != f.charge || p.hard_component_table != table(f.table) || p.decay_table != decay(f.decay) || p.particle_type != f.type || p.weak_partner != f.partner)
        s.fail("particle-fields", "%s of type %d (%s) has mass %.17g low %.17g lifetime %.17g charge %.17g partner %d instead of (%s) %.17g %.17g %.17g %.17g %d, or other tables", how, f.type, p.name.c_str(), p.mass, p.low, p.lifetime, p.charge, p.weak_partner, f.name.c_str(), f.mass, f.low, f.life, f.charge, f.partner);
}
void particles(Sim& s)
{
    s.scenario("particles");
    std::map<int, Fields> reg;                                       // what has been registered under custom types
    std::vector<std::pair<Fields, std::shared_ptr<ParticleDef>>> made;
    std::set<int> unsure;                                            // registration interrupted by a failing allocation
    int n = s.range(2, 14);
    for (int i = 0; i < n; ++i) {
        switch (s.pick(7)) {
        case 0: case 1: {                                            // look a built-in particle up, perhaps as the very first use of the library and out of memory
            const Known& k = known[s.pick(sizeof known / sizeof *known)]; bool f = s.chance(1, 3), constructed = s.chance(1, 3);
            s.op(constructed ? "construct built-in" : "look up built-in"); s.log("type %d", k.type);
            if (f) {
                int at = s.chance(1, 2) ? s.range(0, 10) : s.range(0, 1500); AllocScope a(at); bool threw = false;
                try { auto p = constructed ? direct(k.type) : ParticleDef::GetParticleDefForType(k.type); alloc_fault.armed = false; check_known(s, k, p, "definition"); }
                catch (const std::bad_alloc&) { threw = true; }
                catch (const std::invalid_argument& e) { alloc_fault.armed = false; s.fail("built-in-lost", "type %d: %s", k.type, e.what()); }
                alloc_fault.armed = false; if (threw != a.fired()) s.fail("alloc", "the failing allocation was %s", a.fired() ? "swallowed" : "reported without being injected");
                if (a.fired()) s.fault("alloc.particle");
                break;
            }
            try { auto p = constructed ? direct(k.type) : ParticleDef::GetParticleDefForType(k.type); check_known(s, k, p, constructed ? "definition" : "lookup"); if (p != direct(k.type) || !(p == direct(k.type))) s.fail("built-in", "type %d differs from a fresh definition", k.type); s.val(p.mass); }
            catch (const std::invalid_argument& e) { s.fail("built-in-lost", "type %d: %s", k.type, e.what()); }
            s.nontrivial(); break;
        }
        case 2: {                                                    // all built-in particles
            s.op("sweep of built-ins");
            for (auto& k : known) {
                try { auto p = ParticleDef::GetParticleDefForType(k.type); check_known(s, k, p, "lookup");
                    if (k.anti) { auto q = ParticleDef::GetParticleDefForType(k.anti); if (q.mass != p.mass || q.lifetime != p.lifetime || q.charge != -p.charge || q.low != p.low) s.fail("built-in", "types %d and %d are no antiparticles", k.type, k.anti); }
                } catch (const std::invalid_argument& e) { s.fail("built-in-lost", "type %d: %s", k.type, e.what()); }
            }
            s.nontrivial(); break;
        }
        case 3: {                                                    // an unknown type
            int t = s.of(std::vector<int>{0, 1, 17, 99999, -22, 2147483647, 100020}); s.op("look up unknown");
            bool threw = false; try { ParticleDef::GetParticleDefForType(t); } catch (const std::invalid_argument&) { threw = true; }
            if (!threw && !reg.count(t)) s.fail("unknown-type", "type %d that nobody registered was found", t); break;
        }
        default: {                                                   // define a particle
            Fields f{s.of(std::vector<std::string>{"A", "B"}), s.of(std::vector<double>{0, 1, 250.5}), s.of(std::vector<double>{0, 1, 300}), s.of(std::vector<double>{-1, 1e-6}), s.of(std::vector<double>{-1, 0, 1}), (int)s.pick(3), (int)s.pick(3), 100000 + (int)s.pick(4), s.of(std::vector<int>{0, 14, -12})};
            bool builtin = s.chance(1, 8); if (builtin) f.type = s.of(std::vector<int>{13, 22, -11, 1000015});
            if (!builtin && reg.count(f.type) && s.chance(1, 2)) { f = reg[f.type]; s.log("as registered"); if (s.chance(1, 2)) switch (s.pick(8)) {      // one field differs
                    case 0: f.name += "x"; break; case 1: f.mass += 0.5; break; case 2: f.low += 1; break; case 3: f.life = f.life < 0 ? 2e-6 : -1; break;
                    case 4: f.charge += 1; break; case 5: f.table = (f.table + 1) % 3; break; case 6: f.decay = (f.decay + 1) % 3; break; default: f.partner = f.partner == 14 ? 13 : 14; } }
            Fields e = effective(f); bool fault = s.chance(1, 5), unknown = unsure.count(f.type); s.op("define"); s.log("type %d name %s mass %g low %g life %g charge %g table %d decay %d partner %d", f.type, f.name.c_str(), f.mass, f.low, f.life, f.charge, f.table, f.decay, f.partner);
            bool expect = !builtin && (!reg.count(f.type) || reg[f.type] == e); std::shared_ptr<ParticleDef> p; bool refused = false, oom = false;
            { AllocScope a(fault ? s.range(0, 30) : -1); if (!fault) alloc_fault.armed = false;
              try { p = std::make_shared<ParticleDef>(custom(f)); } catch (const std::bad_alloc&) { oom = true; } catch (const std::invalid_argument&) { refused = true; }
              alloc_fault.armed = false; if (oom != (fault && a.fired())) s.fail("alloc", "the failing allocation was swallowed or invented"); if (oom) s.fault("alloc.particle"); }
            if (oom) { if (!reg.count(f.type) && !builtin) unsure.insert(f.type); }
            else if (!unknown && (!refused) != expect) s.fail(expect ? "definition-refused" : "definition-conflict", "type %d %s", f.type, expect ? "was refused" : "was accepted although another particle is registered under it");
            if (p) { check_fields(s, e, *p, "definition"); if (!builtin) { reg[f.type] = e; unsure.erase(f.type); } made.push_back({e, p}); s.nontrivial(); }
            // whatever happened, the registered definition is the first one
            if (reg.count(f.type)) check_fields(s, reg[f.type], ParticleDef::GetParticleDefForType(f.type), "lookup");
            else if (!builtin && !unsure.count(f.type)) { bool threw = false; try { ParticleDef::GetParticleDefForType(f.type); } catch (const std::invalid_argument&) { threw = true; } if (!threw) s.fail("unknown-type", "type %d is registered although its definition failed", f.type); }
            if (builtin) { for (auto& k : known) if (k.type == f.type) check_known(s, k, ParticleDef::GetParticleDefForType(f.type), "lookup after a refused definition"); }
        }
        }
        if (made.size() > 1 && s.chance(1, 3)) {
            auto& a = made[s.pick(made.size())]; auto& b = made[s.pick(made.size())]; bool eq = a.first == b.first;
            if ((*a.second == *b.second) != eq || (*a.second != *b.second) == eq) s.fail("particle-equality", "definitions of types %d and %d compare %s", a.first.type, b.first.type, eq ? "different" : "equal");
            bool phys = a.first.mass == b.first.mass && a.first.low == b.first.low && a.first.life == b.first.life && a.first.charge == b.first.charge && a.first.partner == b.first.partner;
            if ((a.second->GetHash() == b.second->GetHash()) != phys) s.fail("particle-hash", "hashes of types %d and %d are %s", a.first.type, b.first.type, phys ? "different" : "equal");
        }
    }
    // states refer to their definition by type
    for (int i = s.range(0, 3); i > 0; --i) {
        bool c = !reg.empty() && s.chance(1, 2); int t = c ? std::next(reg.begin(), s.pick(reg.size()))->first : known[s.pick(sizeof known / sizeof *known)].type;
        double mass = c ? reg[t].mass : direct(t).mass; s.op("state"); s.log("type %d", t);
        ParticleState a(static_cast<ParticleType>(t), Cartesian3D(1, 2, 3), Cartesian3D(0, 0, 1), 0, 4, 5), b = a;
        double pm = s.loguniform(1e-3, 1e12); a.SetMomentum(pm); double want = (double)sqrtl((ld)pm * pm + (ld)mass * mass); s.val(a.energy);
        if (!near(a.energy, want, 1e-14)) s.fail("momentum", "type %d with momentum %.17g has energy %.17g instead of %.17g", t, pm, a.energy, want);
        ld e = a.energy; double back = (double)sqrtl((e - mass) * (e + mass)); if (std::fabs(a.GetMomentum() - back) > 1e-13 * back) s.fail("momentum", "type %d with energy %.17g has momentum %.17g instead of %.17g", t, a.energy, a.GetMomentum(), back);
        if (a.GetParticleDef().particle_type != t) s.fail("state-definition", "a state of type %d belongs to type %d", t, a.GetParticleDef().particle_type);
        b.energy = a.energy; bool eq = true; switch (s.pick(7)) { case 0: b.type += 1; eq = false; break; case 1: b.position = Cartesian3D(1, 2, 3.5); eq = false; break; case 2: b.direction = Cartesian3D(0, 1, 0); eq = false; break;
            case 3: b.energy *= 1.5; eq = false; break; case 4: b.time += 1; eq = false; break; case 5: b.propagated_distance += 1; eq = false; break; default:; }
        if ((a == b) != eq || (a != b) == eq) s.fail("state-equality", "states compare %s", eq ? "different" : "equal"); s.nontrivial();
    }
}
// ---------------------------------------------------------------- components and media
struct El { const char* sym; double Z, A; };
const El els[] = {{"H", 1, 1.008}, {"C", 6, 12.011}, {"N", 7, 14.007}, {"O", 8, 15.999}, {"Na", 11, 22.990}, {"Mg", 12, 24.305}, {"S", 16, 32.06}, {"Cl", 17, 35.45}, {"Ar", 18, 39.948}, {"K", 19, 39.098}, {"Ca", 20, 40.078}, {"Fe", 26, 55.845}, {"Cu", 29, 63.546}, {"Pb", 82, 207.2}, {"U", 92, 238.029}, {"StandardRock", 11, 22}, {"FrejusRock", 10.12, 20.34}};
Component element(int i, double n, bool dflt)
{
#define E(C) dflt ? Component(Components::C()) : Component(Components::C(n))
    switch (i) {
    case 0: return E(Hydrogen); case 1: return E(Carbon); case 2: return E(Nitrogen); case 3: return E(Oxygen); case 4: return E(Sodium); case 5: return E(Magnesium); case 6: return E(Sulfur); case 7: return E(Chlorine); case 8: return E(Argon);
    case 9: return E(Potassium); case 10: return E(Calcium); case 11: return E(Iron); case 12: return E(Copper); case 13: return E(Lead); case 14: return E(Uranium); case 15: return E(StandardRock); default: return E(FrejusRock);
    }
#undef E
}
struct CSpec { std::string name; double Z, A, n; };
bool same(const CSpec& a, const CSpec& b) { return a.Z == b.Z && a.A == b.A && a.n == b.n; }
double log_constant(double Z)
{
    static const std::map<int, double> t{{1, 202.4}, {2, 151.9}, {3, 159.9}, {4, 172.3}, {5, 177.9}, {6, 178.3}, {7, 176.6}, {8, 173.4}, {9, 170.0}, {10, 165.8}, {11, 165.8}, {12, 167.1}, {13, 169.1}, {14, 170.8}, {15, 172.2}, {16, 173.4}, {17, 174.3}, {18, 174.8}, {19, 175.1}, {20, 175.6}, {21, 176.2}, {22, 176.8}, {26, 175.8}, {29, 173.1}, {32, 173.0}, {35, 173.5}, {42, 175.9}, {50, 177.4}, {53, 178.6}, {74, 177.6}, {82, 178.0}, {92, 179.8}};
    auto i = t.find((int)std::lround(Z)); return i == t.end() ? 182.7 : i->second;
}
void check_component(Sim& s, const CSpec& c, const Component& o, const char* how, bool name = true)
{
    const ld mp = 938.272L, mn = 939.565L, a = 0.54L, pi = acosl(-1.L);
    auto bad = [&](const char* what, double got, double want) { s.fail("component", "%s %s (Z=%g A=%g n=%g): %s is %.12g instead of %.12g", how, c.name.c_str(), c.Z, c.A, c.n, what, got, want); };
    if (name && o.GetName() != c.name) s.fail("component", "%s is called %s instead of %s", how, o.GetName().c_str(), c.name.c_str());
    if (o.GetNucCharge() != c.Z) bad("charge", o.GetNucCharge(), c.Z);
    if (o.GetAtomicNum() != c.A) bad("mass", o.GetAtomicNum(), c.A);
    if (o.GetAtomInMolecule() != c.n) bad("number", o.GetAtomInMolecule(), c.n);
    if (o.GetLogConstant() != log_constant(c.Z)) bad("radiation logarithm", o.GetLogConstant(), log_constant(c.Z));
    if (o.GetBPrime() != (std::lround(c.Z) == 1 ? 446 : 1429)) bad("inelastic radiation logarithm", o.GetBPrime(), 0);
    ld w = (c.Z * mp + (c.A - c.Z) * mn) / c.A; if (!near(o.GetAverageNucleonWeight(), w, 1e-5)) bad("nucleon weight", o.GetAverageNucleonWeight(), w);
    if (c.Z != 1) { ld r = cbrtl(c.A); r = 1.12L * r - 0.86L / r; ld ws = 1 - 4 * pi * 0.17L * a * (r * r * logl(2) + a * r * pi * pi / 6 + 1.5L * a * a * 1.2020569L) / c.A; if (std::fabs(o.GetWoodSaxon() - (double)ws) > 1e-6) bad("Woods-Saxon factor", o.GetWoodSaxon(), ws); }
}
struct MSpec { std::string name; double v[8]; std::vector<CSpec> c; };
bool same(const MSpec& a, const MSpec& b, bool names) { if (names && a.name != b.name) return false; for (int i = 0; i < 8; ++i) if (a.v[i] != b.v[i]) return false; if (a.c.size() != b.c.size()) return false; for (size_t i = 0; i < a.c.size(); ++i) if (!same(a.c[i], b.c[i]) || (names && a.c[i].name != b.c[i].name)) return false; return true; }
ld x0inv(unsigned Z, ld M)
{
    const ld al = 1 / 137.035999L, re = 2.8179403e-13L, na = 6.0221e23L; ld q = al * al * Z * Z, f = q * (1 / (1 + q) + 0.20206L - 0.0369L * q + 0.0083L * q * q - 0.002L * q * q * q);
    static const ld l[5] = {0, 5.31L, 4.79L, 4.74L, 4.71L}, d[5] = {0, 6.144L, 5.621L, 5.805L, 5.924L};
    ld L = Z > 4 ? logl(184.15L / cbrtl(Z)) : l[Z], D = Z > 4 ? logl(1194 / (cbrtl(Z) * cbrtl(Z))) : d[Z];
    return 4 * al * re * re * na / M * ((ld)Z * Z * (L - f) + Z * D);
}
void check_medium(Sim& s, const MSpec& m, const Medium& o, const char* how, bool names = true)
{
    auto bad = [&](const char* what, double got, double want) { s.fail("medium", "%s %s: %s is %.12g instead of %.12g", how, m.name.c_str(), what, got, want); };
    if (names && o.GetName() != m.name) s.fail("medium", "%s is called %s instead of %s", how, o.GetName().c_str(), m.name.c_str());
    const double got[8] = {o.GetI(), o.GetC(), o.GetA(), o.GetM(), o.GetX0(), o.GetX1(), o.GetD0(), o.GetMassDensity()}; static const char* n[8] = {"I", "C", "a", "m", "X0", "X1", "d0", "density"};
    for (int i = 0; i < 8; ++i) if (got[i] != m.v[i]) bad(n[i], got[i], m.v[i]);
    auto c = o.GetComponents(); if (c.size() != m.c.size() || o.GetNumComponents() != (int)m.c.size()) bad("number of components", c.size(), m.c.size());
    ld z = 0, a = 0, w = 0, x = 0; for (size_t i = 0; i < c.size(); ++i) { check_component(s, m.c[i], c[i], how, names); z += (ld)m.c[i].n * m.c[i].Z; a += (ld)m.c[i].n * m.c[i].A; w += (ld)m.c[i].n * m.c[i].A * c[i].GetAverageNucleonWeight(); x += m.c[i].n * m.c[i].A * x0inv((unsigned)m.c[i].Z, m.c[i].A); }
    if (!near(o.GetSumCharge(), z, 1e-12)) bad("sum of charges", o.GetSumCharge(), z);
    if (!near(o.GetSumNucleons(), a, 1e-12)) bad("sum of nucleons", o.GetSumNucleons(), a);
    if (!near(o.GetZA(), z / a, 1e-12)) bad("Z/A", o.GetZA(), z / a);
    if (!near(calculate_proton_massnumber_fraction(c), z / a, 1e-12)) bad("fraction of protons", calculate_proton_massnumber_fraction(c), z / a);
    if (!near(o.GetMolDensity(), m.v[7] * 6.02214e23L / a, 1e-4)) bad("molecule density", o.GetMolDensity(), m.v[7] * 6.02214e23L / a);
    if (!near(o.GetMM(), w / a, 1e-12)) bad("average nucleon weight", o.GetMM(), w / a);
    if (!near(o.GetRadiationLength(), a / x, 1e-3)) bad("radiation length", o.GetRadiationLength(), a / x);
}
struct Std { const char* name; double density, I; std::vector<int> el; };       // tabulated properties of the named media
const Std stds[] = {{"water", 1, 79.7, {0, 3}}, {"waterpdg2001", 1, 75, {0, 3}}, {"waterpdg2020", 1, 79.7, {0, 3}}, {"ice", 0.918, 79.7, {0, 3}}, {"icepdg2001", 0.917, 75, {0, 3}}, {"icepdg2020", 0.918, 79.7, {0, 3}}, {"salt", 2.323, 175.3, {4, 7}}, {"standardrock", 2.65, 136.4, {15}}, {"frejusrock", 2.74, 149, {16}}, {"iron", 7.874, 286, {11}},
    {"hydrogen", 0.0708, 21.8, {0}}, {"lead", 11.35, 823, {13}}, {"copper", 8.96, 322, {12}}, {"uranium", 18.95, 890, {14}}, {"air", 1.205e-3, 85.7, {2, 3, 8}}, {"paraffin", 0.93, 55.9, {}}, {"antareswater", 1.03975, 75, {}}, {"cascadiabasinwater", 1.0400322, 75, {}}, {"liquidargon", 1.396, 188, {8}}};
Medium direct_medium(int i)
{
    switch (i) { case 0: return Water(); case 1: return PDG2001::Water(); case 2: return PDG2020::Water(); case 3: return Ice(); case 4: return PDG2001::Ice(); case 5: return PDG2020::Ice(); case 6: return Salt(); case 7: return StandardRock(); case 8: return FrejusRock(); case 9: return Iron();
    case 10: return PROPOSAL::Hydrogen(); case 11: return Lead(); case 12: return Copper(); case 13: return Uranium(); case 14: return Air(); case 15: return Paraffin(); case 16: return AntaresWater(); case 17: return CascadiaBasinWater(); default: return LiquidArgon(); }
}
CSpec gen_c(Sim& s) { int Z = s.chance(1, 3) ? s.of(std::vector<int>{1, 2, 3, 4, 5, 92, 30}) : s.range(1, 92); return {s.of(std::vector<std::string>{"x", "y"}), s.chance(1, 6) ? Z + 0.25 : (double)Z, Z == 1 ? 1.00794 : Z * s.of(std::vector<double>{2, 2.25, 2.5}), s.of(std::vector<double>{1, 2, 0.5, 3})}; }
void media(Sim& s)
{
    s.scenario("media");
    std::vector<std::pair<CSpec, Component>> cs; std::vector<std::pair<MSpec, Medium>> ms; std::vector<size_t> seen_c, seen_m;
    int n = s.range(2, 20);
    for (int i = 0; i < n; ++i) {
        bool fault = s.chance(1, 6);
        switch (s.pick(8)) {
        case 0: {                                                    // a component: new, of a named element, or again
            CSpec c; int e = -1; bool again = !cs.empty() && s.chance(1, 3), dflt = false; if (again) { c = s.of(cs).first; if (s.chance(1, 2)) switch (s.pick(4)) { case 0: c.name += "z"; break; case 1: c.n *= 2; break; case 2: c.A += 0.5; break; default: c.Z += c.Z == 1 ? 0 : 1; } }
            else if (s.chance(1, 2)) { e = s.pick(17); dflt = s.chance(1, 2); c = {els[e].sym, els[e].Z, els[e].A, dflt ? (e == 0 ? 2. : 1.) : s.of(std::vector<double>{1, 2, 0.25})}; } else c = gen_c(s);
            s.op("component"); s.log("%s Z=%g A=%g n=%g", c.name.c_str(), c.Z, c.A, c.n); bool oom = false; Component o;
            { AllocScope a(fault ? s.range(0, 4) : -1); if (!fault) alloc_fault.armed = false; try { o = e >= 0 ? element(e, c.n, dflt) : Component(c.name, c.Z, c.A, c.n); } catch (const std::bad_alloc&) { oom = true; } alloc_fault.armed = false; if (oom != (fault && a.fired())) s.fail("alloc", "the failing allocation was swallowed or invented"); if (oom) s.fault("alloc.component"); }
            if (oom) break;
            if (e >= 0) { if (!near(o.GetAtomicNum(), c.A, 0.002)) s.fail("component", "%s has the mass %.12g instead of %.12g", c.name.c_str(), o.GetAtomicNum(), c.A); c.A = o.GetAtomicNum(); }
            check_component(s, c, o, "new"); cs.push_back({c, o}); seen_c.push_back(o.GetHash()); s.val((uint64_t)o.GetHash()); s.nontrivial(); break;
        }
        case 1: case 2: {                                            // a medium
            MSpec m; bool again = !ms.empty() && s.chance(1, 2);
            if (again) { m = s.of(ms).first; s.log("as before"); if (s.chance(2, 3)) switch (s.pick(5)) { case 0: m.name += "z"; break; case 1: m.v[s.pick(8)] += 0.125; break; case 2: if (m.c.size()) m.c[s.pick(m.c.size())].n *= 2; break; case 3: if (m.c.size() > 1) std::swap(m.c[0], m.c[1]); break; default: m.c.push_back(gen_c(s)); } }
            else { m.name = s.of(std::vector<std::string>{"a", "b"}); for (auto& x : m.v) x = s.range(1, 64) / 8.; int k = s.range(1, 4); for (int j = 0; j < k; ++j) m.c.push_back(gen_c(s)); }
            s.op("medium"); s.log("%s density %g with %d components", m.name.c_str(), m.v[7], (int)m.c.size()); bool oom = false; std::unique_ptr<Medium> o;
            { AllocScope a(fault ? s.range(0, 20) : -1); if (!fault) alloc_fault.armed = false;
              try { std::vector<Component> c; for (auto& q : m.c) c.push_back(Component(q.name, q.Z, q.A, q.n)); o.reset(new Medium(m.name, m.v[0], m.v[1], m.v[2], m.v[3], m.v[4], m.v[5], m.v[6], m.v[7], c)); } catch (const std::bad_alloc&) { oom = true; }
              alloc_fault.armed = false; if (oom != (fault && a.fired())) s.fail("alloc", "the failing allocation was swallowed or invented"); if (oom) s.fault("alloc.medium"); }
            if (oom) break; check_medium(s, m, *o, "new"); ms.push_back({m, *o}); seen_m.push_back(o->GetHash()); s.val((uint64_t)o->GetHash()); s.nontrivial(); break;
        }
        case 3: {                                                    // by name or type
            int k = s.pick(19); std::string nm = stds[k].name; for (auto& ch : nm) if (s.chance(1, 3)) ch = toupper(ch); bool by_type = s.chance(1, 2); s.op(by_type ? "medium by type" : "medium by name"); s.log("%s", nm.c_str());
            std::shared_ptr<Medium> m; try { m = by_type ? CreateMedium(static_cast<Medium_Type>(k)) : CreateMedium(nm); } catch (const std::invalid_argument& e) { s.fail("medium-by-name", "%s: %s", nm.c_str(), e.what()); }
            Medium d = direct_medium(k); if (!m || !(*m == d) || *m != d || m->GetHash() != d.GetHash()) s.fail("medium-by-name", "%s by %s is another medium than the class", nm.c_str(), by_type ? "type" : "name");
            if (!near(m->GetMassDensity(), stds[k].density, 1e-3)) s.fail("medium-by-name", "%s has the density %.12g instead of %.12g", nm.c_str(), m->GetMassDensity(), stds[k].density);
            if (!near(m->GetI(), stds[k].I, 1e-3)) s.fail("medium-by-name", "%s has I = %.12g instead of %.12g", nm.c_str(), m->GetI(), stds[k].I);
            MSpec sp; sp.name = m->GetName(); double v[8] = {m->GetI(), m->GetC(), m->GetA(), m->GetM(), m->GetX0(), m->GetX1(), m->GetD0(), m->GetMassDensity()}; std::copy(v, v + 8, sp.v);
            for (auto& c : m->GetComponents()) sp.c.push_back({c.GetName(), c.GetNucCharge(), c.GetAtomicNum(), c.GetAtomInMolecule()});
            if (stds[k].el.size()) { if (stds[k].el.size() != sp.c.size()) s.fail("medium-by-name", "%s has %d components", nm.c_str(), (int)sp.c.size()); for (size_t j = 0; j < sp.c.size(); ++j) { auto& e = els[stds[k].el[j]]; if (sp.c[j].Z != e.Z || !near(sp.c[j].A, e.A, 0.002)) s.fail("medium-by-name", "component %d of %s has Z=%g", (int)j, nm.c_str(), sp.c[j].Z); } }
            check_medium(s, sp, *m, "named"); ms.push_back({sp, *m}); seen_m.push_back(m->GetHash()); s.nontrivial(); break;
        }
        case 4: {                                                    // unknown names, types and hashes
            s.op("look up unknown"); int k = s.pick(4); bool threw = false;
            try { switch (k) { case 0: CreateMedium(s.of(std::vector<std::string>{"", "wate", "water ", "vacuum", "waterr", "ice\n"})); break; case 1: CreateMedium(static_cast<Medium_Type>(s.of(std::vector<int>{19, -1, 1000}))); break;
                case 2: Medium::GetMediumForHash(s.of(std::vector<size_t>{0, 1, 0xdeadbeef})); break; default: Component::GetComponentForHash(s.of(std::vector<size_t>{0, 1, 0xdeadbeef})); } }
            catch (const std::invalid_argument&) { threw = true; }
            if (!threw) s.fail("unknown-lookup", "an unknown %s was found", k < 2 ? "medium" : k == 2 ? "medium hash" : "component hash"); break;
        }
        case 5: if (!ms.empty()) {                                   // by hash, also out of memory
            auto& m = s.of(ms); s.op("medium by hash"); size_t h = m.second.GetHash();
            if (fault) { AllocScope a(s.range(0, 6)); try { Medium::GetMediumForHash(h); } catch (const std::bad_alloc&) {} catch (const std::invalid_argument&) { alloc_fault.armed = false; s.fail("hash-lost", "medium %s", m.first.name.c_str()); } alloc_fault.armed = false; if (a.fired()) s.fault("alloc.lookup"); }
            try { auto o = Medium::GetMediumForHash(h); check_medium(s, m.first, o, "by hash", false); if (o.GetHash() != h) s.fail("hash-lost", "the medium for hash %zx has hash %zx", h, o.GetHash());
                for (auto& c : m.second.GetComponents()) { auto q = Component::GetComponentForHash(c.GetHash()); check_component(s, {c.GetName(), c.GetNucCharge(), c.GetAtomicNum(), c.GetAtomInMolecule()}, q, "by hash", false); } s.nontrivial(); }
            catch (const std::invalid_argument& e) { s.fail("hash-lost", "medium %s: %s", m.first.name.c_str(), e.what()); }
            break;
        } break;
        case 6: if (!cs.empty()) {
            auto& c = s.of(cs); s.op("component by hash");
            try { auto o = Component::GetComponentForHash(c.second.GetHash()); check_component(s, c.first, o, "by hash", false); if (o.GetHash() != c.second.GetHash()) s.fail("hash-lost", "another hash"); s.nontrivial(); } catch (const std::invalid_argument& e) { s.fail("hash-lost", "component %s: %s", c.first.name.c_str(), e.what()); }
            break;
        } break;
        default:                                                     // comparisons; copies keep everything
            s.op("compare");
            if (!cs.empty()) { auto &a = s.of(cs), &b = s.of(cs); bool eq = same(a.first, b.first) && a.first.name == b.first.name; Component c = a.second; check_component(s, a.first, c, "copy");
                if ((c == b.second) != eq || (c != b.second) == eq) s.fail("component-equality", "components %s and %s compare %s", a.first.name.c_str(), b.first.name.c_str(), eq ? "different" : "equal");
                if ((c.GetHash() == b.second.GetHash()) != same(a.first, b.first)) s.fail("component-hash", "hashes of %s (Z=%g A=%g n=%g) and %s (Z=%g A=%g n=%g)", a.first.name.c_str(), a.first.Z, a.first.A, a.first.n, b.first.name.c_str(), b.first.Z, b.first.A, b.first.n); }
            if (!ms.empty()) { auto &a = s.of(ms), &b = s.of(ms); bool eq = same(a.first, b.first, true); Medium m = a.second; check_medium(s, a.first, m, "copy");
                if ((m == b.second) != eq || (m != b.second) == eq) s.fail("medium-equality", "media %s and %s compare %s", a.first.name.c_str(), b.first.name.c_str(), eq ? "different" : "equal");
                if ((m.GetHash() == b.second.GetHash()) != same(a.first, b.first, false)) s.fail("medium-hash", "hashes of media %s and %s are %s", a.first.name.c_str(), b.first.name.c_str(), eq ? "different" : "equal"); }
            break;
        }
    }
}
} // namespace
DST_SCENARIO_W("P15", particles, 1);
DST_SCENARIO_W("P15", media, 1);
