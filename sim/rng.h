// The random-number seam: the library's own SetRandomNumberGenerator() hook is given this stream.
#pragma once
#include "sim.h"
#include "PROPOSAL/math/RandomGenerator.h"
#include <cmath>
#include <vector>
namespace sim {
struct RngFault : std::runtime_error { RngFault() : std::runtime_error("injected failure of the random generator") {} };
struct Stream {
    Prng p{1}; long n = 0, throw_at = -1; unsigned extreme = 0;   // one in `extreme` draws is at the edge of [0, 1)
    std::vector<double> forced;                                     // the first draws, if given
    long fired_extreme = 0;
    double operator()()
    {
        S.step();
        if (n == throw_at) { throw_at = -1; throw RngFault(); }
        long k = n++;
        if (k < (long)forced.size()) return forced[k];
        uint64_t r = p.next();
        if (extreme && r % extreme == 0) {
            ++fired_extreme;
            switch ((r >> 32) % 6) {
            case 0: return 1e-8 * (1 + p.unit());
            case 1: return 1. - 1e-8 * (1 + p.unit());
            case 2: return 1e-6 * (1 + p.unit());
            case 3: return 1. - 1e-9 * (1 + p.unit());
            case 4: return 1e-9 * (1 + p.unit());
            default: return 0.5 + 1e-9 * p.unit();
            }
        }
        return p.unit();
    }
};
// installs the stream for the enclosed region
struct RngScope {
    Stream& st; std::function<double()> f;
    explicit RngScope(Stream& s) : st(s), f([&s] { return s(); }) { PROPOSAL::RandomGenerator::Get().SetRandomNumberGenerator(f); }
    ~RngScope() { PROPOSAL::RandomGenerator::Get().SetDefaultRandomNumberGenerator(); if (st.fired_extreme) { S.count("fault.rng.edge_values", st.fired_extreme); st.fired_extreme = 0; } }
};
inline Stream gen_stream(Sim& s) { Stream t; t.p = Prng(s.pick(1ull << 48)); t.extreme = s.of(std::vector<unsigned>{0, 20, 4, 0}); return t; }
} // namespace sim
