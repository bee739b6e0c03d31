#include "physics_build.h"
#include "PROPOSAL/crosssection/parametrization/Bremsstrahlung.h"
namespace phys {
void add_brems(const Adder& add)
{
    LPM(BremsKelnerKokoulinPetrukhin, lep, false, 1);
    LPM(BremsPetrukhinShestakov, lep, false, 1);
    LPM(BremsCompleteScreening, lep, false, 1);
    LPM(BremsAndreevBezrukovBugaev, lep, false, 1);
    LPM(BremsSandrockSoedingreksoRhode, heavy, false, 1);
    LPM(BremsElectronScreening, el, false, 1);
}
} // namespace phys
