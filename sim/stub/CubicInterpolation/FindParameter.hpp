#pragma once
#include "Interpolant.h"
#include <array>
#include <cmath>
#include <stdexcept>
namespace cubic_splines {
template <typename X> struct ParameterGuess { X x; double lower = NAN, upper = NAN; size_t n = 0; };
namespace detail {
    template <typename F> double bisect(F f, double a, double b)
    {
        double fa = f(a), fb = f(b);
        if (fa == 0) return a;
        if (fb == 0) return b;
        if (!(fa * fb < 0)) throw std::runtime_error("no root inside the interval");
        for (int i = 0; i < 200; ++i) {
            double m = a + (b - a) / 2; if (m == a || m == b) break;
            double fm = f(m); if (fm == 0) return m;
            if ((fm < 0) == (fa < 0)) { a = m; fa = fm; } else b = m;
        }
        return a + (b - a) / 2;
    }
}
template <typename I> double find_parameter(I const& inter, double val, ParameterGuess<double> g)
{
    auto const& ax = inter.GetDefinition().GetAxis();
    double lo = std::isnan(g.lower) ? ax.GetLow() : g.lower, hi = std::isnan(g.upper) ? ax.GetHigh() : g.upper;
    return detail::bisect([&](double x) { return inter.evaluate(x) - val; }, lo, hi);
}
template <typename I> double find_parameter(I const& inter, double val, ParameterGuess<std::array<double, 2>> g)
{
    auto const& ax = *inter.GetDefinition().GetAxis()[g.n];
    return detail::bisect([&](double x) { auto y = g.x; y[g.n] = x; return inter.evaluate(y) - val; }, ax.GetLow(), ax.GetHigh());
}
}
