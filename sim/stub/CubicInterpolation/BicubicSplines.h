#pragma once
#include "CubicSplines.h"
#include <array>
namespace cubic_splines {
template <typename T> class BicubicSplines {
public:
    using type = T;
    struct Definition {
        std::function<T(T, T)> f;
        std::unique_ptr<Axis<T>> f_trafo;
        std::array<std::unique_ptr<Axis<T>>, 2> axis;
        bool approx_derivates = false;
        const std::array<std::unique_ptr<Axis<T>>, 2>& GetAxis() const { return axis; }
    };
    static constexpr size_t N = 2;
    std::vector<std::vector<T>> y;
    void build(const Definition& d)
    {
        for (size_t i = 0; i < d.axis[0]->required_nodes(); ++i) {
            y.emplace_back();
            for (size_t j = 0; j < d.axis[1]->required_nodes(); ++j) {
                T v = d.f(d.axis[0]->back_transform(T(i)), d.axis[1]->back_transform(T(j)));
                y.back().push_back(d.f_trafo ? d.f_trafo->transform(v) : v);
            }
        }
    }
    T evaluate(const Definition& d, std::array<T, 2> x) const
    {
        T a = d.axis[0]->transform(x[0]), b = d.axis[1]->transform(x[1]);
        int n = (int)y.size(), i = std::min(std::max((int)std::floor(a), 0), n - 2);
        int lo = std::max(i - 1, 0), hi = std::min(i + 2, n - 1); T row[4];
        for (int k = lo; k <= hi; ++k) row[k - lo] = detail::cell(y[k].data(), (int)y[k].size(), b);
        T v = detail::cell(row, hi - lo + 1, a - lo);
        return d.f_trafo ? d.f_trafo->back_transform(v) : v;
    }
};
}
