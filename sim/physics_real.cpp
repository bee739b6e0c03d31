#include "physics_build.h"
#include "PROPOSAL/crosssection/parametrization/PhotoRealPhotonAssumption.h"
namespace phys {
void add_real(const Adder& add)
{
    REAL(PhotoZeus); REAL(PhotoBezrukovBugaev); REAL(PhotoKokoulin); REAL(PhotoRhode);
}
} // namespace phys
