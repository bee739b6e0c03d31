// P22 propagators from configurations: the same as built in code, or refused
#include "geo.h"
#include "physics.h"
#include "PROPOSAL/Propagator.h"
#include "PROPOSAL/Secondaries.h"
#include "PROPOSAL/crosssection/CrossSectionBuilder.h"
#include "PROPOSAL/crosssection/CrossSectionMultiplier.h"
#include "PROPOSAL/crosssection/Factories/AnnihilationFactory.h"
#include "PROPOSAL/crosssection/Factories/BremsstrahlungFactory.h"
#include "PROPOSAL/crosssection/Factories/ComptonFactory.h"
#include "PROPOSAL/crosssection/Factories/EpairProductionFactory.h"
#include "PROPOSAL/crosssection/Factories/IonizationFactory.h"
#include "PROPOSAL/crosssection/Factories/MupairProductionFactory.h"
#include "PROPOSAL/crosssection/Factories/PhotoMuPairProductionFactory.h"
#include "PROPOSAL/crosssection/Factories/PhotoPairProductionFactory.h"
#include "PROPOSAL/crosssection/Factories/PhotoeffectFactory.h"
#include "PROPOSAL/crosssection/Factories/PhotonuclearFactory.h"
#include "PROPOSAL/crosssection/Factories/PhotoproductionFactory.h"
#include "PROPOSAL/crosssection/Factories/WeakInteractionFactory.h"
#include "PROPOSAL/crosssection/ParticleDefaultCrossSectionList.h"
#include "PROPOSAL/crosssection/parametrization/Annihilation.h"
#include "PROPOSAL/crosssection/parametrization/Photoeffect.h"
#include "PROPOSAL/crosssection/parametrization/Photoproduction.h"
#include "PROPOSAL/density_distr/density_exponential.h"
#include "PROPOSAL/density_distr/density_homogeneous.h"
#include "PROPOSAL/density_distr/density_polynomial.h"
#include "PROPOSAL/math/MathMethods.h"
#include "PROPOSAL/particle/Particle.h"
#include "PROPOSAL/propagation_utility/ContRandBuilder.h"
#include "PROPOSAL/propagation_utility/DecayBuilder.h"
#include "PROPOSAL/propagation_utility/DisplacementBuilder.h"
#include "PROPOSAL/propagation_utility/InteractionBuilder.h"
#include "PROPOSAL/propagation_utility/TimeBuilder.h"
#include "PROPOSAL/scattering/ScatteringMultiplier.h"
#include "PROPOSAL/scattering/multiple_scattering/Highland.h"
#include "PROPOSAL/scattering/multiple_scattering/Moliere.h"
#include "PROPOSAL/scattering/stochastic_deflection/bremsstrahlung/BremsGinneken.h"
#include "PROPOSAL/scattering/stochastic_deflection/bremsstrahlung/BremsTsaiApproximation.h"
#include "PROPOSAL/scattering/stochastic_deflection/ionization/IonizNaive.h"
#include "PROPOSAL/scattering/stochastic_deflection/photonuclear/PhotoBorogPetrukhin.h"
#include "PROPOSAL/scattering/stochastic_deflection/photonuclear/PhotoGinneken.h"
#include <nlohmann/json.hpp>
using namespace PROPOSAL;
using namespace sim;
using namespace geo;
namespace {
typedef InteractionType IT; typedef nlohmann::json json; typedef std::shared_ptr<CrossSectionBase> Cross;
std::string spelled(Sim& s, std::string n) { switch (s.pick(3)) { case 1: for (auto& c : n) c = tolower(c); break; case 2: for (auto& c : n) c = toupper(c); break; } return n; }
const phys::Process& process(const std::string& n) { for (auto& p : phys::processes()) if (p.name == n) return p; throw std::logic_error("no process " + n); }
json origin(const Cartesian3D& c) { return json::array({c[0], c[1], c[2]}); }
int gen_medium(Sim& s) { int m = s.pick(phys::n_media()); return m == 8 ? 14 : m; }                  // one has no name
json describe(const Spec& g)
{
    json j = {{"shape", g.kind == 0 ? "sphere" : g.kind == 1 ? "box" : "cylinder"}, {"origin", origin(g.c)}};
    if (g.kind == 1) { j["length"] = g.a; j["width"] = g.b; j["height"] = g.d; } else { j["outer_radius"] = g.a; if (g.kind == 2) j["height"] = g.d; if (g.in > 0) j["inner_radius"] = g.in; }
    if (g.h) j["hierarchy"] = g.h; return j;
}
// ---- one interaction, as configured and as built in code
struct Inter { std::string key, process, shadow; int variant = 0; bool lpm = false, has_lpm = false, hard = true, real = false, q2 = false; double mult = 1; json j; };
std::string bare(const std::string& p, std::string& key)
{
    static const std::vector<std::pair<const char*, const char*>> t{{"Brems", "brems"}, {"Epair", "epair"}, {"Mupair", "mupair"}, {"Ioniz", "ioniz"}, {"Compton", "compton"}, {"PhotoPair", "photopair"}, {"PhotoMuPair", "photomupair"}, {"Weak", "weak"}, {"Photo", "photo"}};
    for (auto& x : t) if (p.compare(0, strlen(x.first), x.first) == 0) { key = x.second; return p.substr(strlen(x.first)); } throw std::logic_error(p);
}
Inter gen_inter(Sim& s, const std::string& p)
{
    Inter i; i.process = p; std::string n = bare(p, i.key); i.j = {{"parametrization", spelled(s, n)}};
    if (i.key == "brems" || i.key == "epair" || i.key == "photopair") { i.has_lpm = true; i.lpm = true; if (s.chance(2, 3)) { i.lpm = s.chance(1, 2); i.j["lpm"] = i.lpm; } }
    if (i.key == "photo") { i.real = n == "Zeus" || n == "BezrukovBugaev" || n == "Kokoulin" || n == "Rhode"; i.q2 = !i.real; if (i.real && s.chance(2, 3)) { i.hard = s.chance(1, 2); i.j["hard_component"] = i.hard; } i.shadow = "ButkevichMikheyev"; if (i.q2 && s.chance(2, 3)) { i.shadow = s.chance(1, 2) ? "ButkevichMikheyev" : "DuttaRenoSarcevicSeckel"; i.j["shadow"] = spelled(s, i.shadow); } }
    if (s.chance(1, 3)) { i.mult = s.of(std::vector<double>{2, 0.5, 1, 1.7}); i.j["multiplier"] = i.mult; }
    return i;
}
// `correction`: density relative to the medium's; phys knows the variants 1 and 0.5
Cross build(const Inter& i, const ParticleDef& p, const Medium& m, phys::CutPtr cut, double correction)
{
    int v = i.has_lpm ? !i.lpm ? 0 : correction == 1 ? 1 : 2 : i.real ? i.hard : i.q2 ? i.shadow == "ButkevichMikheyev" : 0; bool own = i.key == "compton"; (void)own;
    Cross c = process(i.process).build(p, m, process(i.process).only_stochastic ? nullptr : cut, v).cross; if (i.mult != 1) c = std::make_shared<CrossSectionMultiplier>(c, i.mult); return c;
}
// ---- a sector, as configured and as built in code
struct Scat { std::string ms; double mm = 1; std::vector<std::string> sd; std::vector<std::pair<IT, double>> sm; json j; bool none = true; };
struct Dens { int kind = -1; double rho = 0, sigma = 1, d0 = 0; bool radial = false; Cartesian3D axis, fp; std::vector<double> c; json j; };
struct Cuts { double e, v; bool cont; json j; };
struct SectorD { int medium; Cuts cuts; bool exact = true, std_cross = false; Scat scat; Dens dens; std::vector<Inter> inter; std::vector<Spec> geo; };
struct World { int particle; json j; std::vector<SectorD> s; double scale; };
Cuts gen_cuts(Sim& s)
{
    Cuts c; c.cont = s.chance(1, 3); c.v = s.of(std::vector<double>{0.05, 1, 0.01, 0.3}); c.e = s.of(std::vector<double>{500, INF, 10, 1e4}); if (std::isinf(c.e) && c.v == 1) c.v = 0.1;
    c.j = {{"v_cut", c.v}, {"cont_rand", c.cont}}; if (std::isinf(c.e)) c.j["e_cut"] = s.of(std::vector<std::string>{"inf", "Infinity", "INF"}); else c.j["e_cut"] = c.e; return c;
}
Scat gen_scat(Sim& s)
{
    Scat c; c.j = json::object(); if (s.chance(1, 4)) return c; c.none = false;
    static const std::vector<std::string> ms{"Highland", "NoScattering", "Moliere"}; if (s.chance(3, 4)) { c.ms = s.of(ms); c.j["multiple_scattering"] = spelled(s, c.ms); if (s.chance(1, 3)) { c.mm = s.of(std::vector<double>{2, 0.3, 1}); c.j["multiple_scattering_multiplier"] = c.mm; } }
    if (s.chance(1, 2) || c.j.empty()) { json a = json::array(); static const std::vector<std::vector<std::string>> k{{"BremsTsaiApproximation", "BremsGinneken"}, {"IonizNaive"}, {"PhotoBorogPetrukhin", "PhotoGinneken"}}; for (auto& v : k) if (s.chance(1, 2)) { c.sd.push_back(s.of(v)); auto& n = c.sd.back(); a.push_back(spelled(s, s.chance(1, 2) ? n : n == "IonizNaive" ? "DefaultIoniz" : n == "BremsTsaiApproximation" ? "DefaultBrems" : n == "PhotoBorogPetrukhin" ? "DefaultPhotonuclear" : n)); } c.j["stochastic_deflection"] = a;
        if (s.chance(1, 2)) { json m = json::object(); if (s.chance(2, 3)) { c.sm.push_back({IT::Brems, 0.5}); m[spelled(s, "Brems")] = 0.5; } if (s.chance(1, 2)) { c.sm.push_back({IT::Ioniz, 0.25}); m[spelled(s, "Ioniz")] = 0.25; } c.j["stochastic_deflection_multiplier"] = m; } }
    return c;
}
Dens gen_dens(Sim& s, double rho, double scale)
{
    Dens d; d.kind = s.pick(3); d.rho = rho * (s.chance(1, 2) ? 1 : 0.5); d.j = {{"type", d.kind == 0 ? "homogeneous" : d.kind == 1 ? "exponential" : "polynomial"}, {"mass_density", d.rho}};
    if (d.kind == 0) return d; d.radial = s.chance(1, 3); d.fp = Cartesian3D(scale, -scale, -20 * scale); d.axis = Cartesian3D(0, 0.6, 0.8); d.j["axis_type"] = d.radial ? "radial" : "cartesian"; d.j["fp0"] = origin(d.fp); if (!d.radial) d.j["fAxis"] = origin(d.axis);
    if (d.kind == 1) { d.sigma = scale * s.of(std::vector<double>{100, -100, 30}); d.j["sigma"] = d.sigma; if (s.chance(1, 2)) { d.d0 = 10 * scale; d.j["d0"] = d.d0; } } else { d.radial = false; d.j["axis_type"] = "cartesian"; d.j["fAxis"] = origin(d.axis); d.c = {1, s.of(std::vector<double>{0.01, 0.003}) / scale}; d.j["coefficients"] = d.c; }
    return d;
}
std::vector<Inter> gen_inters(Sim& s, int particle, json& j)
{
    std::vector<Inter> r; j = json::object(); auto add = [&](const std::string& p) { r.push_back(gen_inter(s, p)); j[r.back().key] = r.back().j; };
    bool el = std::abs(particle) == 11; if (s.chance(1, 5)) add(el ? s.chance(1, 2) ? "BremsElectronScreening" : "BremsCompleteScreening" : s.of(std::vector<std::string>{"BremsKelnerKokoulinPetrukhin", "BremsPetrukhinShestakov", "BremsAndreevBezrukovBugaev"}));
    add(particle == 11 ? "IonizBergerSeltzerMoller" : particle == -11 ? "IonizBergerSeltzerBhabha" : "IonizBetheBlochRossi");
    if (s.chance(1, 12)) add(s.of(std::vector<std::string>{"PhotoZeus", "PhotoBezrukovBugaev", "PhotoKokoulin", "PhotoRhode"})); return r;        // in the order of their keys
}
World gen_world(Sim& s)
{
    World w; w.particle = s.chance(1, 24) ? s.of(std::vector<int>{13, -13, 15}) : s.chance(1, 2) ? 11 : -11; w.scale = s.of(std::vector<double>{1e3, 100, 10}); json g = json::object(); int n = s.range(1, 3);
    // the settings of all sectors
    int medium = gen_medium(s); Cuts cuts = gen_cuts(s); bool exact = s.chance(1, 2); Scat scat = gen_scat(s); json cj; auto inter = gen_inters(s, w.particle, cj); bool g_medium = s.chance(1, 2), g_cuts = s.chance(1, 2), g_exact = s.chance(1, 2), g_scat = s.chance(1, 2), g_cross = s.chance(1, 2), g_interpol = s.chance(1, 2);
    if (g_medium) g["medium"] = spelled(s, phys::medium_name(medium)); if (g_cuts) g["cuts"] = cuts.j; if (g_exact) g["exact_time"] = exact; if (g_scat) g["scattering"] = scat.j; if (g_cross) g["CrossSections"] = cj; if (g_interpol) g["do_interpolation"] = false;
    json a = json::array();
    for (int i = 0; i < n; ++i) {
        SectorD d; json j = json::object(); auto own = [&](bool global) { return !global || s.chance(1, 3); };
        if (own(g_medium)) { d.medium = gen_medium(s); j["medium"] = spelled(s, phys::medium_name(d.medium)); } else d.medium = medium;
        if (own(g_cuts)) { d.cuts = gen_cuts(s); j["cuts"] = d.cuts.j; } else d.cuts = cuts;
        if (g_exact) d.exact = exact; if (s.chance(1, 2)) { d.exact = s.chance(1, 2); j["exact_time"] = d.exact; }
        if (g_scat) d.scat = scat; if (s.chance(1, 2)) { d.scat = gen_scat(s); j["scattering"] = d.scat.j; }
        if (own(g_cross)) { d.inter = gen_inters(s, w.particle, cj); j["CrossSections"] = cj; } else d.inter = inter;
        if (own(g_interpol)) j["do_interpolation"] = false;
        double rho = phys::medium(d.medium).GetMassDensity(); if (i && s.chance(1, 2)) { d.dens = gen_dens(s, rho, w.scale); j["density_distribution"] = d.dens.j; } else if (s.chance(1, 4)) { d.dens.kind = 0; d.dens.rho = rho * 0.5; j["density_distribution"] = {{"type", "homogeneous"}, {"mass_density", d.dens.rho}}; }
        json geos = json::array(); for (int k = i ? s.range(1, 2) : 1; k > 0; --k) { Spec q; if (i == 0) { q.kind = 0; q.a = 1e12; q.h = 0; } else { q = gen_spec(s, w.scale); q.c = 0.3 * q.c; q.h = 1 + i * 3 + k; } d.geo.push_back(q); geos.push_back(describe(q)); } j["geometries"] = geos;
        w.s.push_back(d); a.push_back(j);
    }
    w.j["sectors"] = a; if (!g.empty() || s.chance(1, 2)) w.j["global"] = g; return w;
}
std::vector<Sector> by_hand(const World& w, const ParticleDef& p)
{
    std::vector<Sector> r;
    for (auto& d : w.s) {
        Medium m = phys::medium(d.medium); auto cut = std::make_shared<EnergyCutSettings>(d.cuts.e, d.cuts.v, d.cuts.cont); double corr = d.dens.kind < 0 ? 1 : d.dens.rho / m.GetMassDensity(); std::vector<Cross> l; for (auto& i : d.inter) l.push_back(build(i, p, m, cut, corr));
        PropagationUtility::Collection c; auto disp = std::shared_ptr<Displacement>(make_displacement(l, false)); c.displacement_calc = disp; c.interaction_calc = make_interaction(disp, l, false, false);
        if (std::isfinite(p.lifetime)) c.decay_calc = make_decay(disp, p, false); if (d.cuts.cont) c.cont_rand = make_contrand(disp, l, false);
        if (d.exact) c.time_calc = make_time(disp, p, false); else c.time_calc = std::make_shared<ApproximateTimeBuilder>();
        if (!d.scat.none) {
            std::unique_ptr<multiple_scattering::Parametrization> ms; if (d.scat.ms == "Highland") ms.reset(new multiple_scattering::Highland(p, m)); if (d.scat.ms == "Moliere") ms.reset(new multiple_scattering::Moliere(p, m));
            std::vector<std::unique_ptr<stochastic_deflection::Parametrization>> sd; for (auto& n : d.scat.sd) { namespace st = stochastic_deflection; sd.emplace_back(n == "BremsTsaiApproximation" ? (st::Parametrization*)new st::BremsTsaiApproximation(p, m) : n == "BremsGinneken" ? (st::Parametrization*)new st::BremsGinneken(p, m) : n == "IonizNaive" ? (st::Parametrization*)new st::IonizNaive(p, m) : n == "PhotoGinneken" ? (st::Parametrization*)new st::PhotoGinneken(p, m) : (st::Parametrization*)new st::PhotoBorogPetrukhin(p, m)); }
            if (d.scat.mm != 1 || !d.scat.sm.empty()) c.scattering = std::make_shared<ScatteringMultiplier>(ms, sd, d.scat.mm, d.scat.sm); else c.scattering = std::make_shared<Scattering>(ms, sd); }
        for (auto& g : d.geo) {
            std::shared_ptr<const Density_distr> rho; std::unique_ptr<Axis> ax; if (d.dens.radial) ax.reset(new RadialAxis(d.dens.fp)); else ax.reset(new CartesianAxis(d.dens.axis, d.dens.fp));
            switch (d.dens.kind) { case -1: rho = std::make_shared<Density_homogeneous>(m.GetMassDensity()); break; case 0: rho = std::make_shared<Density_homogeneous>(d.dens.rho); break; case 1: rho = std::make_shared<Density_exponential>(*ax, d.dens.sigma, d.dens.d0, d.dens.rho); break; default: rho = std::make_shared<Density_polynomial>(*ax, Polynom(d.dens.c), d.dens.rho); }
            r.emplace_back(build(g), PropagationUtility(c), rho); }
    }
    return r;
}
struct Track { int kind = 0; std::string what; std::vector<ParticleState> st; std::vector<IT> ty; std::vector<size_t> target; std::vector<double> u; };
Track propagate(Propagator& p, const ParticleState& q, double max, double min, uint64_t seed)
{
    Track t; Stream st; st.p = Prng(seed); std::function<double()> f = [&] { S.step(); double x = st(); t.u.push_back(x); return x; }; RandomGenerator::Get().SetRandomNumberGenerator(f);
    try { auto o = p.Propagate(q, max, min); t.st = o.GetTrack(); t.ty = o.GetTrackTypes(); t.target = o.GetTargetHashes(); } catch (const std::exception& e) { t.kind = 1; t.what = e.what(); }
    RandomGenerator::Get().SetDefaultRandomNumberGenerator(); return t;
}
void compare(Sim& s, const Track& a, const Track& b, const char* when)
{
    if (a.kind != b.kind) s.fail("track", "%s: %s / %s", when, a.kind ? a.what.c_str() : "a track", b.kind ? b.what.c_str() : "a track"); size_t n = std::min(a.st.size(), b.st.size());
    for (size_t i = 0; i < n; ++i) { auto &x = a.st[i], &y = b.st[i]; auto off = [](double p, double q) { return std::fabs(p - q) > 1e-9 * (std::fabs(p) + std::fabs(q)) + 1e-12; }; bool far = (x.position - y.position).magnitude() > 1e-9 * (x.position.magnitude() + x.propagated_distance) + 1e-9;
        if (off(x.energy, y.energy) || off(x.time, y.time) || off(x.propagated_distance, y.propagated_distance) || far || (x.direction - y.direction).magnitude() > 1e-7 || a.ty[i] != b.ty[i] || a.target[i] != b.target[i])
            s.fail("track", "%s: state %d is type %d E=%.12g t=%.12g s=%.12g instead of type %d E=%.12g t=%.12g s=%.12g", when, (int)i, (int)a.ty[i], x.energy, x.time, x.propagated_distance, (int)b.ty[i], y.energy, y.time, y.propagated_distance); }
    if (a.st.size() != b.st.size() || a.u.size() != b.u.size()) s.fail("track", "%s: %d states with %d random numbers instead of %d with %d", when, (int)a.st.size(), (int)a.u.size(), (int)b.st.size(), (int)b.u.size());
}
// the path of a random node of the configuration
struct Node { json* parent; std::string key; size_t index; bool in_array; };
void nodes(json& j, std::vector<Node>& r) { if (j.is_object()) for (auto& kv : j.items()) { r.push_back({&j, kv.key(), 0, false}); nodes(j[kv.key()], r); } else if (j.is_array()) for (size_t i = 0; i < j.size(); ++i) { r.push_back({&j, "", i, true}); nodes(j[i], r); } }
// damages a configuration so that it has to be refused
std::string damage(Sim& s, const World& w, json& j)
{
    auto& sec = j["sectors"]; auto& q = sec[s.pick(sec.size())]; json* g = j.contains("global") ? &j["global"] : nullptr; auto& geo = q["geometries"][s.pick(q["geometries"].size())];
    json none = json::object(); auto where = [&](const char* k) -> json& { return q.contains(k) ? q[k] : (*g)[k]; };
    switch (s.pick(14)) {
    case 0: j.erase("sectors"); return "no sectors";
    case 1: q.erase("geometries"); return "no geometries";
    case 2: if (g) g->erase("medium"); q.erase("medium"); return "no medium";
    case 3: if (g) g->erase("cuts"); q.erase("cuts"); return "no cuts";
    case 4: { auto k = s.of(std::vector<const char*>{"e_cut", "v_cut", "cont_rand"}); where("cuts").erase(k); return std::string("no ") + k; }
    case 5: { auto k = s.of(std::vector<const char*>{"shape", "origin"}); geo.erase(k); return std::string("no ") + k; }
    case 6: { auto& c = where("CrossSections"); auto& i = c["ioniz"]; switch (s.pick(4)) { case 0: i.erase("parametrization"); return "no parametrization"; case 1: i["parametrization"] = "BetheBloch"; return "unknown parametrization"; case 2: i["multiplier"] = "two"; return "bad multiplier"; default: i = "BetheBlochRossi"; return "interaction without object"; } }
    case 7: where("medium") = s.of(std::vector<json>{"Unobtainium", 7, nullptr, "Wat", json::object()}); return "bad medium";
    case 8: geo["shape"] = s.of(std::vector<json>{"torus", 3, nullptr}); return "bad shape";
    case 9: { auto& c = where("cuts"); switch (s.pick(5)) { case 0: c["e_cut"] = s.of(std::vector<json>{"many", 0, -5}); break; case 1: c["v_cut"] = s.of(std::vector<json>{0, 1.5, -0.1, "0.05"}); break; case 2: c["cont_rand"] = s.of(std::vector<json>{"true", 1, nullptr}); break; case 3: c["v_cut"] = nullptr; break; default: c = s.of(std::vector<json>{500, "inf", json::array({500, 0.05, true})}); } return "bad cuts"; }
    case 10: q["scattering"] = s.of(std::vector<json>{{{"multiple_scattering", "Lowland"}}, {{"stochastic_deflection", {"Sideways"}}}, {{"stochastic_deflection_multiplier", {{"Sideways", 2}}}}, {{"multiple_scattering_multiplier", "x"}}, {{"multiple_scattering", 4}}, "Highland", {{"stochastic_deflection", {"DefaultSideways"}}}}); return "bad scattering";
    case 11: q["density_distribution"] = s.of(std::vector<json>{{{"type", "cubic"}, {"mass_density", 1.}}, {{"mass_density", 1.}}, {{"type", "exponential"}, {"mass_density", 1.}}, {{"type", "exponential"}, {"axis_type", "diagonal"}, {"mass_density", 1.}, {"fp0", {0, 0, 0}}}, {{"type", "polynomial"}, {"axis_type", "radial"}, {"fp0", {0, 0, 0}}, {"mass_density", 1.}}, {{"type", "exponential"}, {"axis_type", "cartesian"}, {"mass_density", 1.}, {"fp0", {0, 0, 0}}}, {{"type", "exponential"}, {"axis_type", "radial"}, {"mass_density", 1.}}, {{"type", "homogeneous"}, {"mass_density", "dense"}}, {{"type", "homogeneous"}}}); return "bad density";
    case 12: q["exact_time"] = s.of(std::vector<json>{"yes", nullptr, json::array()}); return "bad exact_time";
    default: q["do_interpolation"] = s.of(std::vector<json>{"no", nullptr, json::object()}); return "bad do_interpolation";
    }
}
void configured(Sim& s)
{
    s.scenario("configured"); World w = gen_world(s); ParticleDef p = phys::particle(w.particle); s.log("particle %d: %s", w.particle, w.j.dump().c_str()); std::string file = scratch + "config.json", text = w.j.dump(s.of(std::vector<int>{1, -1, 4}));
    std::unique_ptr<Propagator> a; std::string what; auto construct = [&](const json& j, bool by_file) -> std::unique_ptr<Propagator> { what.clear(); try { return by_file ? std::make_unique<Propagator>(p, file) : std::make_unique<Propagator>(p, j); } catch (const std::exception& e) { what = e.what(); if (what.empty()) what = "?"; return nullptr; } };
    for (int k = s.pick(3); k > 0; --k) {                            // what has to be refused comes first
        std::string how; s.step();
        switch (s.pick(3)) {
        case 0: { json j = w.j; how = damage(s, w, j); s.op("damaged"); s.log("%s: %s", how.c_str(), j.dump().c_str()); bool f = s.chance(1, 3); if (f) spew(file, j.dump()); if (construct(j, f)) s.fail("accepted", "a configuration is accepted: %s", how.c_str()); s.fault("config.damaged"); break; }
        case 1: { size_t n = s.pick(text.rfind('}')); s.op("torn"); s.log("%d of %d bytes", (int)n, (int)text.size()); spew(file, text.substr(0, n)); if (construct({}, true)) s.fail("accepted", "a configuration cut after %d of %d bytes is accepted", (int)n, (int)text.size()); s.fault("disk.torn_config"); break; }
        default: { DiskPlan d; bool miss = s.chance(1, 4); spew(file, text); if (miss) unlink_scratch(file); int kind = s.pick(2); if (kind == 0) d.read_budget = s.pick(text.rfind('}')); else d.open_fail_at = s.pick(2); s.op("unreadable"); { DiskScope z(d); if (construct({}, true)) s.fail("accepted", "an unreadable configuration is accepted (%s)", miss ? "missing" : kind ? "open fails" : "read fails"); } s.fault(miss ? "disk.missing" : kind ? "disk.open" : "disk.read_eio"); unlink_scratch(file); }
        }
    }
    bool by_file = s.chance(1, 2); DiskPlan d; if (by_file) { spew(file, text); d.short_reads = s.chance(1, 3); d.eintr_reads = s.chance(1, 4); d.rng = 1 + s.pick(1000); } s.op(by_file ? "file" : "object"); { DiskScope z(d); a = construct(w.j, by_file); } if (disk.fired_short) s.fault("disk.short_read"); if (disk.fired_eintr) s.fault("disk.eintr"); if (by_file) unlink_scratch(file);
    if (!a) s.fail("refused", "%s", what.c_str()); Propagator b(p, by_hand(w, p));
    bool heavy = std::abs(w.particle) != 11; for (auto& d : w.s) heavy |= d.inter.size() > 1;      // without tables this takes long
    for (int k = heavy ? 1 : 1 + s.chance(1, 4); k > 0; --k) {
        ParticleState q((ParticleType)w.particle, s.chance(1, 2) ? Cartesian3D(0, 0, 0) : w.scale * s.unit() * unit_dir(s), unit_dir(s), s.loguniform(3 * p.mass + 5, s.of(std::vector<double>{1e4, 1e6})), 0, 0); double max = s.of(std::vector<double>{1, 0.1, 5}) * w.scale, min = heavy ? q.energy * s.of(std::vector<double>{0.99, 0.9}) : s.chance(1, 8) ? 0 : q.energy * s.of(std::vector<double>{0.3, 0.8}); uint64_t seed = s.pick(1ull << 48);
        s.op("propagate"); s.log("E=%.12g max %g", q.energy, max); auto x = propagate(*a, q, max, min, seed), y = propagate(b, q, max, min, seed); compare(s, x, y, "configured and built"); s.nontrivial(); s.count("tracks"); s.count("states", x.st.size()); for (auto& z : x.st) s.val(z.energy);
    }
}
// ---- every kind of interaction
bool near(double a, double b, double tol) { return a == b || std::fabs(a - b) <= tol * (std::fabs(a) + std::fabs(b)); }
void same(Sim& s, CrossSectionBase& a, CrossSectionBase& b, double E, bool rates, const char* n)
{
    if (a.GetInteractionType() != b.GetInteractionType() || a.GetParametrizationName() != b.GetParametrizationName()) s.fail("interaction", "%s is %s of type %d instead of %s of type %d", n, a.GetParametrizationName().c_str(), (int)a.GetInteractionType(), b.GetParametrizationName().c_str(), (int)b.GetInteractionType());
    if (a.GetLowerEnergyLim() != b.GetLowerEnergyLim()) s.fail("interaction", "%s: lower limit %.17g instead of %.17g", n, a.GetLowerEnergyLim(), b.GetLowerEnergyLim()); auto ca = a.GetEnergyCutSettings(), cb = b.GetEnergyCutSettings(); if (!ca != !cb || (ca && !(*ca == *cb))) s.fail("interaction", "%s: other cuts", n);
    double x = a.CalculatedEdx(E), y = b.CalculatedEdx(E); if (!near(x, y, 1e-9)) s.fail("interaction", "%s at %g MeV: loss %.12g instead of %.12g", n, E, x, y); s.val(x);
    if (rates) { auto p = a.CalculatedNdx_PerTarget(E), q = b.CalculatedNdx_PerTarget(E); if (p.size() != q.size()) s.fail("interaction", "%s: %d targets instead of %d", n, (int)p.size(), (int)q.size()); for (auto& t : p) { double r = -1; for (auto& u : q) if (u.first == t.first) r = u.second; if (!near(r, t.second, 1e-9)) s.fail("interaction", "%s at %g MeV: rate %.12g instead of %.12g", n, E, t.second, r); s.val(t.second); } s.count("rates"); }
}
template <class T> Cross discrete(const ParticleDef& p, const Medium& m) { return make_crosssection(T(), p, m, nullptr, false); }
void interactions(Sim& s)
{
    s.scenario("interactions"); int n = s.range(1, 3); typedef Cross (*Make)(const ParticleDef&, const Medium&);
    static const std::vector<std::tuple<const char*, const char*, int, Make>> more{{"annihilation", "Heitler", -11, discrete<crosssection::AnnihilationHeitler>}, {"photoeffect", "Sauter", 22, discrete<crosssection::PhotoeffectSauter>}, {"photoproduction", "Zeus", 22, discrete<crosssection::PhotoproductionZeus>}, {"photoproduction", "BezrukovBugaev", 22, discrete<crosssection::PhotoproductionBezrukovBugaev>}, {"photoproduction", "Caldwell", 22, discrete<crosssection::PhotoproductionCaldwell>}, {"photoproduction", "Kokoulin", 22, discrete<crosssection::PhotoproductionKokoulin>}, {"photoproduction", "Rhode", 22, discrete<crosssection::PhotoproductionRhode>}, {"photoproduction", "Heck", 22, discrete<crosssection::PhotoproductionHeck>}, {"photoproduction", "HeckC7Shadowing", 22, discrete<crosssection::PhotoproductionHeckC7Shadowing>}};
    auto make = [&](const std::string& key, const ParticleDef& p, const Medium& m, phys::CutPtr cut, const json& j, double corr) -> Cross {
        if (key == "brems") return make_bremsstrahlung(p, m, cut, false, j, corr); if (key == "epair") return make_epairproduction(p, m, cut, false, j, corr); if (key == "photopair") return make_photopairproduction(p, m, false, j, corr); if (key == "compton") return make_compton(p, m, cut, false, j); if (key == "ioniz") return make_ionization(p, m, cut, false, j); if (key == "mupair") return make_mupairproduction(p, m, cut, false, j);
        if (key == "photomupair") return make_photomupairproduction(p, m, false, j); if (key == "weak") return make_weakinteraction(p, m, false, j); if (key == "annihilation") return make_annihilation(p, m, false, j); if (key == "photoeffect") return make_photoeffect(p, m, j); if (key == "photoproduction") return make_photoproduction(p, m, j);
        try { return make_photonuclearreal(p, m, cut, false, j); } catch (const std::invalid_argument&) { return make_photonuclearQ2(p, m, cut, false, j); } };
    for (int k = 0; k < n; ++k) {
        Medium m = phys::medium(s.pick(phys::n_media())); Cuts c = gen_cuts(s); auto cut = std::make_shared<EnergyCutSettings>(c.e, c.v, c.cont); s.step(); s.nontrivial(); std::string key; json j; int type = 13; double corr = s.chance(1, 2) ? 1 : 0.5, mult = 1, E = 0; std::function<Cross(const ParticleDef&)> f; bool slow = false;
        if (s.chance(1, 4)) { auto& t = s.of(more); key = std::get<0>(t); type = std::get<2>(t); j = {{"parametrization", spelled(s, std::get<1>(t))}}; if (s.chance(1, 3)) { mult = 1.5; j["multiplier"] = mult; } E = s.loguniform(1000, 1e6); s.op("%s %s", key.c_str(), std::get<1>(t)); f = [&m, &t, mult](const ParticleDef& p) { Cross b = std::get<3>(t)(p, m); if (mult != 1) b = std::make_shared<CrossSectionMultiplier>(b, mult); return b; }; }
        else { auto& q = s.of(phys::processes()); Inter i = gen_inter(s, q.name); key = i.key; j = i.j; type = s.of(q.particles); E = s.loguniform(std::max(1000., q.emin * 2), 1e7); s.op("%s", q.name.c_str()); f = [i, &m, cut, corr](const ParticleDef& p) { return build(i, p, m, cut, corr); }; slow = q.slow; }
        ParticleDef p = phys::particle(type); Cross b = f(p);
        s.log("%s for %s in %s at %g MeV: %s", key.c_str(), p.name.c_str(), m.GetName().c_str(), E, j.dump().c_str());
        if (s.chance(1, 3)) { json bad = j; switch (s.pick(4)) { case 0: bad.erase("parametrization"); break; case 1: bad["parametrization"] = s.of(std::vector<json>{"Unknown", "", 3, nullptr}); break; case 2: bad["multiplier"] = "2"; break; default: if (bad.contains("lpm")) bad["lpm"] = "true"; else if (bad.contains("shadow")) bad["shadow"] = "None"; else bad = "parametrization"; } bool threw = false; try { make(key, p, m, cut, bad, corr); } catch (const std::exception&) { threw = true; } if (!threw) s.fail("accepted", "%s is accepted for %s", bad.dump().c_str(), key.c_str()); s.fault("config.damaged"); }
        Cross a = make(key, p, m, cut, j, corr); same(s, *a, *b, E, !slow || s.chance(1, 8), key.c_str());
    }
    if (s.chance(1, 4)) {                                            // the default interactions of each particle
        static const std::vector<std::pair<int, std::vector<std::string>>> std_list{{11, {"BremsElectronScreening", "EpairForElectronPositron", "IonizBergerSeltzerMoller", "PhotoAbramowiczLevinLevyMaor97"}}, {-11, {"BremsElectronScreening", "EpairForElectronPositron", "IonizBergerSeltzerBhabha", "PhotoAbramowiczLevinLevyMaor97", "annihilation"}}, {13, {"BremsKelnerKokoulinPetrukhin", "EpairKelnerKokoulinPetrukhin", "IonizBetheBlochRossi", "PhotoAbramowiczLevinLevyMaor97"}}, {-13, {"BremsKelnerKokoulinPetrukhin", "EpairKelnerKokoulinPetrukhin", "IonizBetheBlochRossi", "PhotoAbramowiczLevinLevyMaor97"}}, {15, {"BremsKelnerKokoulinPetrukhin", "EpairKelnerKokoulinPetrukhin", "IonizBetheBlochRossi", "PhotoAbramowiczLevinLevyMaor97"}}, {-15, {"BremsKelnerKokoulinPetrukhin", "EpairKelnerKokoulinPetrukhin", "IonizBetheBlochRossi", "PhotoAbramowiczLevinLevyMaor97"}}, {22, {"PhotoPairKochMotz", "ComptonKleinNishina", "photoproduction", "photoeffect"}}};
        auto& t = s.of(std_list); ParticleDef p = phys::particle(t.first); Medium m = phys::medium(s.pick(phys::n_media())); Cuts c = gen_cuts(s); auto cut = std::make_shared<EnergyCutSettings>(c.e, c.v, c.cont); s.op("defaults %d", t.first); auto l = GetStdCrossSections(p, m, std::shared_ptr<const EnergyCutSettings>(cut), false); if (l.size() != t.second.size()) s.fail("defaults", "%d interactions instead of %d", (int)l.size(), (int)t.second.size());
        for (auto& n : t.second) { Cross b = n == "annihilation" ? discrete<crosssection::AnnihilationHeitler>(p, m) : n == "photoproduction" ? discrete<crosssection::PhotoproductionRhode>(p, m) : n == "photoeffect" ? discrete<crosssection::PhotoeffectSauter>(p, m) : process(n).build(p, m, process(n).only_stochastic ? nullptr : cut, n.compare(0, 5, "Photo") == 0 && n != "PhotoPairKochMotz" ? 1 : 0).cross; Cross a; for (auto& x : l) if (x->GetInteractionType() == b->GetInteractionType()) a = x; if (!a) s.fail("defaults", "no %s for %d", n.c_str(), t.first); same(s, *a, *b, 1e5, false, n.c_str()); }
    }
}
DST_SCENARIO_W("P22", configured, 2);
DST_SCENARIO_W("P22", interactions, 1);
} // namespace
