// A cross section in closed form behind the library's own CrossSectionBase interface.
#pragma once
#include "rng.h"
#include "PROPOSAL/crosssection/CrossSection.h"
#include <cmath>
namespace sim {
struct FakeFault : std::runtime_error { FakeFault() : std::runtime_error("injected failure of a cross section") {} };
// continuous loss a + b E; rate per target n_i (E above `thr`); losses log-distributed between vmin and vmax; E2dx = k E^2
struct FakeCross : PROPOSAL::CrossSectionBase {
    double a = 2, b = 3e-6, k = 0, thr = 0, low = 106, vmin = 1e-3, vmax = 0.5; std::vector<std::pair<size_t, double>> targets; PROPOSAL::InteractionType type = PROPOSAL::InteractionType::Brems; size_t id = 1;
    std::shared_ptr<const PROPOSAL::EnergyCutSettings> cut; long calls = 0, throw_at = -1, fired = 0;
    void tick() { S.step(); if (calls++ == throw_at) { throw_at = -1; ++fired; throw FakeFault(); } }
    double rate(double E, size_t i) const { return E > thr ? targets[i].second : 0; }
    double total(double E) const { double t = 0; for (size_t i = 0; i < targets.size(); ++i) t += rate(E, i); return t; }
    double CalculatedEdx(double E) override { tick(); return a + b * E; }
    double CalculatedE2dx(double E) override { tick(); return k * E * E; }
    double CalculatedNdx(double E) override { tick(); return total(E); }
    double CalculatedNdx(double E, size_t h) override { tick(); for (size_t i = 0; i < targets.size(); ++i) if (targets[i].first == h) return rate(E, i); return 0; }
    double CalculateCumulativeCrosssection(double E, size_t h, double v) override { return CalculatedNdx(E, h) * std::log(v / vmin) / std::log(vmax / vmin); }
    std::vector<std::pair<size_t, double>> CalculatedNdx_PerTarget(double E) override { tick(); auto v = targets; for (size_t i = 0; i < v.size(); ++i) v[i].second = rate(E, i); return v; }
    double CalculateStochasticLoss(size_t h, double E, double r) override { double n = CalculatedNdx(E, h); return vmin * std::pow(vmax / vmin, r / n); }
    double GetLowerEnergyLim() const override { return low; }
    size_t GetHash() const noexcept override { return id; }
    PROPOSAL::InteractionType GetInteractionType() const noexcept override { return type; }
    std::string GetParametrizationName() const noexcept override { return "closed form"; }
    std::shared_ptr<const PROPOSAL::EnergyCutSettings> GetEnergyCutSettings() const noexcept override { return cut; }
};
// composite Gauss-Legendre quadrature in log(x)
template <class F> double quad(F f, double lo, double hi, int panels = 64)
{
    static const double x[5] = {-0.9061798459386640, -0.5384693101056831, 0, 0.5384693101056831, 0.9061798459386640}, w[5] = {0.2369268850561891, 0.4786286704993665, 0.5688888888888889, 0.4786286704993665, 0.2369268850561891};
    double A = std::log(lo), B = std::log(hi), h = (B - A) / panels, sum = 0;
    for (int i = 0; i < panels; ++i) for (int j = 0; j < 5; ++j) { double e = std::exp(A + h * (i + 0.5 + 0.5 * x[j])); sum += w[j] * f(e) * e; }
    return sum * h / 2;
}
} // namespace sim
