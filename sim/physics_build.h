#pragma once
#include "physics.h"
#include "PROPOSAL/crosssection/parametrization/PhotoQ2Integration.h"
using namespace PROPOSAL;
namespace cs = PROPOSAL::crosssection;
namespace phys {
namespace {
template <class Par, class T> TargetView view(std::shared_ptr<Par> q, const ParticleDef& p, T t, double fraction)
{
    TargetView v; v.hash = t.GetHash(); v.fraction = fraction;
    v.limits = [q, p, t](double E) { return q->GetKinematicLimits(p, t, E); };
    v.dcs = [q, p, t](double E, double x) { return q->DifferentialCrossSection(p, t, E, x); };
    v.fde = [q, p, t](double E, double x) { return q->FunctionToDEdxIntegral(p, t, E, x); };
    v.fde2 = [q, p, t](double E, double x) { return q->FunctionToDE2dxIntegral(p, t, E, x); };
    return v;
}
template <class Par> Built build(Par par, const ParticleDef& p, const Medium& m, CutPtr cut, std::true_type)
{
    Built b; auto q = std::make_shared<Par>(par);
    double sum = 0; for (auto& c : m.GetComponents()) sum += c.GetAtomInMolecule() * c.GetAtomicNum();
    for (auto& c : m.GetComponents()) b.targets.push_back(view<Par, Component>(q, p, c, c.GetAtomInMolecule() * c.GetAtomicNum() / sum));
    b.lower = par.GetLowerEnergyLim(p);
    b.cross = make_crosssection(par, p, m, cut, false);
    return b;
}
template <class Par> Built build(Par par, const ParticleDef& p, const Medium& m, CutPtr cut, std::false_type)
{
    Built b; auto q = std::make_shared<Par>(par); b.medium_wise = true;
    b.targets.push_back(view<Par, Medium>(q, p, m, 1));
    b.lower = par.GetLowerEnergyLim(p);
    b.cross = make_crosssection(par, p, m, cut, false);
    return b;
}
template <class Par> Built build(Par par, const ParticleDef& p, const Medium& m, CutPtr cut) { return build(par, p, m, cut, typename cs::is_component_wise<Par>::type {}); }
template <class Par> Built lpm(const ParticleDef& p, const Medium& m, CutPtr cut, int variant)
{
    if (variant % 3 == 0) return build(Par(false), p, m, cut);
    return build(Par(true, p, m, variant % 3 == 1 ? 1.0 : 0.5), p, m, cut);
}
std::shared_ptr<cs::ShadowEffect> shadow(int v) { if (v & 1) return std::make_shared<cs::ShadowButkevichMikheyev>(); return std::make_shared<cs::ShadowDuttaRenoSarcevicSeckel>(); }

} // namespace
using Adder = std::function<void(const char*, std::vector<int>, bool, bool, double, double, std::function<Built(const ParticleDef&, const Medium&, CutPtr, int)>)>;
const std::vector<int> el{11, -11}, heavy{13, -13, 15, -15}, lep{13, 11, -11, -13, 15, -15}, gam{22};
#define LPM(X, ps, slow, lo) add(#X, ps, false, slow, lo, 1e12, [](const ParticleDef& p, const Medium& m, CutPtr c, int v) { return lpm<cs::X>(p, m, c, v); })
#define LPMS(X, ps, slow, lo) add(#X, ps, true, slow, lo, 1e12, [](const ParticleDef& p, const Medium& m, CutPtr c, int v) { return lpm<cs::X>(p, m, c, v); })
#define REAL(X) add(#X, lep, false, false, 1, 1e12, [](const ParticleDef& p, const Medium& m, CutPtr c, int v) { return build(cs::X(v & 1), p, m, c); })
#define Q2(X) add(#X, lep, false, true, 1, 1e12, [](const ParticleDef& p, const Medium& m, CutPtr c, int v) { return build(cs::X(shadow(v)), p, m, c); })
} // namespace phys
