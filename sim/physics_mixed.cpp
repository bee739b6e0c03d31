#include "physics_build.h"
#include "PROPOSAL/crosssection/parametrization/Compton.h"
#include "PROPOSAL/crosssection/parametrization/Ionization.h"
#include "PROPOSAL/crosssection/parametrization/MupairProduction.h"
#include "PROPOSAL/crosssection/parametrization/PhotoMuPairProduction.h"
#include "PROPOSAL/crosssection/parametrization/PhotoPairProduction.h"
#include "PROPOSAL/crosssection/parametrization/WeakInteraction.h"
namespace phys {
void add_mixed(const Adder& add)
{
    add("MupairKelnerKokoulinPetrukhin", heavy, false, true, 1, 1e12, [](const ParticleDef& p, const Medium& m, CutPtr c, int) { return build(cs::MupairKelnerKokoulinPetrukhin(), p, m, c); });
    add("IonizBetheBlochRossi", heavy, false, false, 1, 1e12, [](const ParticleDef& p, const Medium& m, CutPtr c, int) {
        cs::IonizBetheBlochRossi q(c ? *c : EnergyCutSettings(INF, 1, false)); auto b = build(q, p, m, c); b.extra_dedx = [q, p, m](double E) { return q.IonizationLoss(p, m, E); }; return b; });
    add("IonizBergerSeltzerMoller", {11}, false, false, 1, 1e12, [](const ParticleDef& p, const Medium& m, CutPtr c, int) { auto b = build(cs::IonizBergerSeltzerMoller(c ? *c : EnergyCutSettings(INF, 1, false)), p, m, c); b.closed_dedx = true; return b; });
    add("IonizBergerSeltzerBhabha", {-11}, false, false, 1, 1e12, [](const ParticleDef& p, const Medium& m, CutPtr c, int) { auto b = build(cs::IonizBergerSeltzerBhabha(c ? *c : EnergyCutSettings(INF, 1, false)), p, m, c); b.closed_dedx = true; return b; });
    add("ComptonKleinNishina", gam, false, false, 0.01, 1e8, [](const ParticleDef& p, const Medium& m, CutPtr c, int) { return build(cs::ComptonKleinNishina(), p, m, c); });
    LPMS(PhotoPairTsai, gam, false, 1.1);
    LPMS(PhotoPairKochMotz, gam, false, 1.1);
    add("PhotoMuPairBurkhardtKelnerKokoulin", gam, true, false, 250, 1e12, [](const ParticleDef& p, const Medium& m, CutPtr c, int) { return build(cs::PhotoMuPairBurkhardtKelnerKokoulin(), p, m, c); });
    add("WeakCooperSarkarMertsch", lep, true, false, 1e6, 1e12, [](const ParticleDef& p, const Medium& m, CutPtr c, int) { return build(cs::WeakCooperSarkarMertsch(), p, m, c); });
}
} // namespace phys
