#include "physics.h"
namespace phys {
using Adder = std::function<void(const char*, std::vector<int>, bool, bool, double, double, std::function<Built(const ParticleDef&, const Medium&, CutPtr, int)>)>;
void add_brems(const Adder&); void add_epair(const Adder&); void add_mixed(const Adder&); void add_real(const Adder&); void add_q2(const Adder&);
static std::vector<Process> make()
{
    std::vector<Process> r;
    Adder add = [&](const char* n, std::vector<int> ps, bool only, bool slow, double lo, double hi, std::function<Built(const ParticleDef&, const Medium&, CutPtr, int)> f) { r.push_back({n, ps, only, slow, lo, hi, f}); };
    add_brems(add); add_epair(add); add_mixed(add); add_real(add); add_q2(add);
    return r;
}
const std::vector<Process>& processes() { static std::vector<Process> r = make(); return r; }
ParticleDef particle(int t) { return ParticleDef::GetParticleDefForType(t); }
static const char* names[] = {"Ice", "StandardRock", "Air", "Uranium", "Hydrogen", "Salt", "Paraffin", "Iron", "CalciumCarbonate", "AntaresWater", "LiquidArgon", "FrejusRock", "Lead", "Copper", "Water"};
int n_media() { return 15; }
const char* medium_name(int i) { return names[i]; }
Medium medium(int i)
{
    switch (i) {
    case 0: return Ice(); case 1: return StandardRock(); case 2: return Air(); case 3: return Uranium(); case 4: return Hydrogen();
    case 5: return Salt(); case 6: return Paraffin(); case 7: return Iron(); case 8: return CalciumCarbonate(); case 9: return AntaresWater();
    case 10: return LiquidArgon(); case 11: return FrejusRock(); case 12: return Lead(); case 13: return Copper(); default: return Water();
    }
}
} // namespace phys
