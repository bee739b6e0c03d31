#include "physics_build.h"
#include "PROPOSAL/crosssection/parametrization/PhotoQ2Integration.h"
namespace phys {
void add_q2(const Adder& add)
{
    Q2(PhotoAbramowiczLevinLevyMaor91); Q2(PhotoAbramowiczLevinLevyMaor97); Q2(PhotoButkevichMikheyev);
    Q2(PhotoRenoSarcevicSu); Q2(PhotoAbtFT); Q2(PhotoBlockDurandHa);
}
} // namespace phys
