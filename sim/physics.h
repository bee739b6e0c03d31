// Registry of the interaction processes of the library, built through its public constructors.
#pragma once
#include "rng.h"
#include "PROPOSAL/EnergyCutSettings.h"
#include "PROPOSAL/crosssection/CrossSectionBuilder.h"
#include "PROPOSAL/medium/Components.h"
#include "PROPOSAL/medium/Medium.h"
#include "PROPOSAL/particle/ParticleDef.h"
#include <functional>
#include <memory>
#include <string>
#include <vector>
namespace phys {
using namespace PROPOSAL;
using CutPtr = std::shared_ptr<const EnergyCutSettings>;
// one target of a process (a component, or the whole medium), seen through the parametrization itself
struct TargetView {
    size_t hash; double fraction;                                   // share of the medium's mass
    std::function<crosssection::KinematicLimits(double)> limits;
    std::function<double(double, double)> dcs;                      // DifferentialCrossSection(E, v)
    std::function<double(double, double)> fde, fde2;                // integrands of dEdx and dE2dx
};
struct Built {
    std::shared_ptr<CrossSectionBase> cross;
    std::vector<TargetView> targets;
    double lower = 0;
    bool medium_wise = false;
    std::function<double(double)> extra_dedx;                       // added to the integral (Bethe-Bloch)
    bool closed_dedx = false;                                       // dEdx is a closed formula, not the integral
};
struct Process {
    std::string name; std::vector<int> particles; bool only_stochastic; bool slow;
    double emin, emax;                                              // energies the parametrization is meant for (MeV)
    std::function<Built(const ParticleDef&, const Medium&, CutPtr, int variant)> build;
};
const std::vector<Process>& processes();
ParticleDef particle(int type);
Medium medium(int i); int n_media(); const char* medium_name(int i);
} // namespace phys
