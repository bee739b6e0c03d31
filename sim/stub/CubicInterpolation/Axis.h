// STAND-IN for the external CubicInterpolation library (not available offline).
// Same interface as PROPOSAL uses; no files are read or written; splines are
// monotone piecewise-cubic Hermite.  Labelled as a stub in every evidence file.
#pragma once
#include <cmath>
#include <cstddef>
namespace cubic_splines {
template <typename T> class Axis {
protected:
    T low, high, step; size_t nodes;
    Axis(T l, T h, T s, size_t n) : low(l), high(h), step(s), nodes(n) {}
public:
    virtual ~Axis() = default;
    virtual T transform(T x) const = 0;
    virtual T back_transform(T t) const = 0;
    T GetLow() const { return low; }
    T GetHigh() const { return high; }
    T GetStepsize() const { return step; }
    size_t required_nodes() const { return nodes; }
};
template <typename T> struct ExpAxis : Axis<T> {
    ExpAxis(T l, T h, T s = 1) : Axis<T>(l, h, s, 0) {}
    ExpAxis(T l, T h, size_t n) : Axis<T>(l, h, std::log(h / l) / (n - 1), n) {}
    ExpAxis(T l, T h, unsigned n) : ExpAxis(l, h, (size_t)n) {}
    T transform(T x) const override { return std::log(x / this->low) / this->step; }
    T back_transform(T t) const override { return this->low * std::exp(t * this->step); }
};
template <typename T> struct ExpM1Axis : Axis<T> {
    ExpM1Axis(T l, T h, T s = 1) : Axis<T>(l, h, s, 0) {}
    T transform(T x) const override { return std::log1p(x / this->low) / this->step; }
    T back_transform(T t) const override { return this->low * std::expm1(t * this->step); }
};
template <typename T> struct LinAxis : Axis<T> {
    LinAxis(T l, T h, size_t n) : Axis<T>(l, h, (h - l) / (n - 1), n) {}
    LinAxis(T l, T h, unsigned n) : LinAxis(l, h, (size_t)n) {}
    T transform(T x) const override { return (x - this->low) / this->step; }
    T back_transform(T t) const override { return this->low + t * this->step; }
};
}
