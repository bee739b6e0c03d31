#include "physics_build.h"
#include "PROPOSAL/crosssection/parametrization/EpairProduction.h"
namespace phys {
void add_epair(const Adder& add)
{
    LPM(EpairKelnerKokoulinPetrukhin, heavy, true, 1);
    LPM(EpairSandrockSoedingreksoRhode, heavy, true, 1);
    LPM(EpairForElectronPositron, el, true, 1);
}
} // namespace phys
