#pragma once
#include "CubicSplines.h"
#include <string>
#include <utility>
namespace cubic_splines {
template <typename Spline> class Interpolant {
    typename Spline::Definition def; Spline spline;
public:
    Interpolant(typename Spline::Definition&& d, std::string = "", std::string = "") : def(std::move(d))
    {
        spline.build(def); def.f = nullptr;
    }
    template <typename X> auto evaluate(X x) const { return spline.evaluate(def, x); }
    const typename Spline::Definition& GetDefinition() const { return def; }
};
}
