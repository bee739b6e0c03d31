#pragma once
#include "Axis.h"
#include <algorithm>
#include <functional>
#include <memory>
#include <vector>
namespace cubic_splines {
namespace detail {
    // monotone cubic Hermite through y[-1..2] around the cell [0,1]
    template <typename T> T slope(T d0, T d1) { return d0 * d1 <= 0 ? T(0) : 2 * d0 * d1 / (d0 + d1); }
    template <typename T> T cell(const T* y, int n, T t)
    {
        int i = std::min(std::max((int)std::floor(t), 0), n - 2); T u = t - i;
        T d = y[i + 1] - y[i];
        T m0 = i > 0 ? slope(y[i] - y[i - 1], d) : d, m1 = i + 2 < n ? slope(d, y[i + 2] - y[i + 1]) : d;
        T u2 = u * u, u3 = u2 * u;
        return (2 * u3 - 3 * u2 + 1) * y[i] + (u3 - 2 * u2 + u) * m0 + (-2 * u3 + 3 * u2) * y[i + 1] + (u3 - u2) * m1;
    }
}
template <typename T> class CubicSplines {
public:
    using type = T;
    struct Definition {
        std::function<T(T)> f;
        std::unique_ptr<Axis<T>> f_trafo, axis;
        const Axis<T>& GetAxis() const { return *axis; }
    };
    static constexpr size_t N = 1;
    std::vector<T> y;
    void build(const Definition& d)
    {
        for (size_t i = 0; i < d.axis->required_nodes(); ++i) {
            T v = d.f(d.axis->back_transform(T(i)));
            y.push_back(d.f_trafo ? d.f_trafo->transform(v) : v);
        }
    }
    T evaluate(const Definition& d, T x) const
    {
        T v = detail::cell(y.data(), (int)y.size(), d.axis->transform(x));
        return d.f_trafo ? d.f_trafo->back_transform(v) : v;
    }
};
}
