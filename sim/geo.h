// Volumes and an oracle for their borders: interval arithmetic along a line in long double.
#pragma once
#include "sim.h"
#include "PROPOSAL/geometry/Box.h"
#include "PROPOSAL/geometry/Cylinder.h"
#include "PROPOSAL/geometry/Sphere.h"
#include "PROPOSAL/math/Cartesian3D.h"
#include <cmath>
#include <memory>
namespace geo {
using namespace PROPOSAL;
using namespace sim;
typedef long double ld;
struct Spec { int kind = 0; Cartesian3D c{0, 0, 0}; double a = 1, b = 1, d = 1; double in = 0; unsigned h = 0; };   // sphere a; box a b d; cylinder radius a height d
inline std::string str(const Spec& g)
{
    char t[300];
    if (g.kind == 0) snprintf(t, sizeof t, "sphere r=%.17g inner=%.17g", g.a, g.in);
    else if (g.kind == 1) snprintf(t, sizeof t, "box %.17g x %.17g x %.17g", g.a, g.b, g.d);
    else snprintf(t, sizeof t, "cylinder r=%.17g inner=%.17g height=%.17g", g.a, g.in, g.d);
    std::string r = t; snprintf(t, sizeof t, " at (%.17g,%.17g,%.17g)", g.c[0], g.c[1], g.c[2]); return r + t;
}
struct Iv { ld a, b; bool empty() const { return !(a < b); } };
// interval of the line parameter with |x_k + t d_k| < half
struct Ray { std::vector<ld> cross; std::vector<Iv> mat; ld slack = 1e30L, mincos = 1; };   // crossings of the material along the whole line
inline void clip(Iv& v, ld x, ld d, ld half, Ray& r)
{
    if (d == 0) { r.slack = std::min(r.slack, fabsl(fabsl(x) - half)); if (fabsl(x) >= half) v.b = v.a - 1; return; }
    ld t1 = (-half - x) / d, t2 = (half - x) / d; if (t1 > t2) std::swap(t1, t2);
    r.mincos = std::min(r.mincos, fabsl(d)); v.a = std::max(v.a, t1); v.b = std::min(v.b, t2);
}
inline Iv round_iv(const ld* x, const ld* d, int n, ld r, Ray& y)
{
    ld A = -r * r, B = 0, C = 0; for (int i = 0; i < n; ++i) { A += x[i] * x[i]; B += x[i] * d[i]; C += d[i] * d[i]; }
    const ld inf = 1e30L;
    if (C < 1e-30L) { y.slack = std::min(y.slack, fabsl(sqrtl(A + r * r) - r)); return A < 0 ? Iv{-inf, inf} : Iv{0, -1}; }
    ld det = B * B / C / C - A / C;
    ld miss = sqrtl(std::max<ld>(0, A + r * r - B * B / C)); y.slack = std::min(y.slack, fabsl(miss - r));       // distance of the line from touching
    if (det <= 0) return {0, -1};
    ld q = sqrtl(det); y.mincos = std::min(y.mincos, C * q / r); return {-B / C - q, -B / C + q};
}
inline Ray trace(const Spec& g, const Cartesian3D& p, const Cartesian3D& dir)
{
    Ray r; ld x[3], d[3]; for (int i = 0; i < 3; ++i) { x[i] = (ld)p[i] - (ld)g.c[i]; d[i] = dir[i]; }
    const ld inf = 1e30L; Iv out{-inf, inf}, hole{0, -1};
    if (g.kind == 0) { out = round_iv(x, d, 3, g.a, r); if (g.in > 0) hole = round_iv(x, d, 3, g.in, r); }
    else if (g.kind == 1) { clip(out, x[0], d[0], g.a / 2, r); clip(out, x[1], d[1], g.b / 2, r); clip(out, x[2], d[2], g.d / 2, r); }
    else { out = round_iv(x, d, 2, g.a, r); if (g.in > 0) hole = round_iv(x, d, 2, g.in, r); if (!out.empty()) clip(out, x[2], d[2], (ld)g.d / 2, r); }
    if (out.empty()) { return r; }
    if (!hole.empty()) { r.slack = std::min(r.slack, std::min(fabsl(hole.a - out.a), fabsl(hole.b - out.b))); hole.a = std::max(hole.a, out.a); hole.b = std::min(hole.b, out.b); }
    if (hole.empty()) r.mat.push_back(out);
    else { if (hole.a > out.a) r.mat.push_back({out.a, hole.a}); if (hole.b < out.b) r.mat.push_back({hole.b, out.b}); }
    for (auto& m : r.mat) { r.cross.push_back(m.a); r.cross.push_back(m.b); }
    for (size_t i = 1; i < r.cross.size(); ++i) r.slack = std::min(r.slack, r.cross[i] - r.cross[i - 1]);
    return r;
}
// how far a line comes to a change of topology (edges of boxes, rims of cylinders): recompute with slightly shifted rays
inline bool robust(const Spec& g, const Cartesian3D& p, const Cartesian3D& dir, const Ray& r, double tol)
{
    if (r.slack < 10 * tol) return false;
    for (int s = -1; s <= 1; s += 2) {
        Spec q = g; double e = s * 10 * tol; q.a += e; q.b += e; q.d += e; if (q.in > 0) q.in = std::max(0., q.in - e); 
        auto t = trace(q, p, dir); if (t.cross.size() != r.cross.size()) return false;
        for (size_t i = 0; i < r.cross.size(); ++i) if (fabsl(t.cross[i] - r.cross[i]) > 1e4 * tol) return false;
        Spec w = g; w.a -= e; w.b += e; w.d += e; auto t2 = trace(w, p, dir); if (t2.cross.size() != r.cross.size()) return false;
    }
    return true;
}
inline std::shared_ptr<Geometry> build(const Spec& g)
{
    std::shared_ptr<Geometry> o;
    if (g.kind == 0) o = std::make_shared<Sphere>(g.c, g.a, g.in);
    else if (g.kind == 1) o = std::make_shared<Box>(g.c, g.a, g.b, g.d);
    else o = std::make_shared<Cylinder>(g.c, g.d, g.a, g.in);
    o->SetHierarchy(g.h); return o;
}
inline Spec gen_spec(Sim& s, double sc)
{
    Spec g; g.kind = s.pick(3); auto len = [&] { return s.chance(1, 3) ? sc * s.of(std::vector<double>{1, 2, 0.5, 10}) : sc * s.loguniform(0.01, 10); };
    g.a = len(); g.b = len(); g.d = len();
    if (g.kind != 1 && s.chance(2, 3)) g.in = g.a * (s.chance(1, 4) ? 0.5 : s.chance(1, 5) ? 1 - s.loguniform(1e-4, 0.1) : s.uniform(0.01, 0.99));
    switch (s.pick(3)) { case 0: break; case 1: g.c = Cartesian3D(sc, -2 * sc, 3 * sc); break; default: g.c = Cartesian3D(sc * s.uniform(-5, 5), sc * s.uniform(-5, 5), sc * s.uniform(-5, 5)); }
    g.h = s.pick(4); return g;
}
inline Cartesian3D unit_dir(Sim& s)
{
    switch (s.pick(4)) {
    case 0: return s.of(std::vector<Cartesian3D>{Cartesian3D(0, 0, 1), Cartesian3D(0, 0, -1), Cartesian3D(1, 0, 0), Cartesian3D(0, -1, 0), Cartesian3D(-1, 0, 0), Cartesian3D(0, 1, 0)});
    case 1: { double f = s.uniform(0, 6.283); switch (s.pick(3)) { case 0: return Cartesian3D(std::cos(f), std::sin(f), 0); case 1: return Cartesian3D(std::cos(f), 0, std::sin(f)); default: return Cartesian3D(0, std::cos(f), std::sin(f)); } }
    default: { double c = s.uniform(-1, 1), f = s.uniform(0, 6.283), q = std::sqrt(1 - c * c); return Cartesian3D(q * std::cos(f), q * std::sin(f), c); }
    }
}
inline double ext(const Spec& g) { return g.kind == 0 ? g.a : g.kind == 1 ? std::max(g.a, std::max(g.b, g.d)) : std::max(g.a, g.d); }
// a point on an edge of a box or a rim of a cylinder
inline Cartesian3D edge_point(Sim& s, const Spec& g)
{
    double sg[3]; for (auto& x : sg) x = s.chance(1, 2) ? 1 : -1;
    if (g.kind == 1) { int k = s.pick(4); if (k < 3) sg[k] = s.chance(1, 2) ? 0 : s.uniform(-1, 1); return g.c + Cartesian3D(sg[0] * g.a / 2, sg[1] * g.b / 2, sg[2] * g.d / 2); }
    double r = g.in > 0 && s.chance(1, 3) ? g.in : g.a, f = s.chance(1, 2) ? 1.5707963267948966 * s.pick(4) : s.uniform(0, 6.283);
    return g.c + Cartesian3D(r * std::cos(f), r * std::sin(f), sg[2] * g.d / 2);
}
inline Cartesian3D gen_pos(Sim& s, const Spec& g)
{
    double e = ext(g);
    if (g.kind && s.chance(1, 12)) return g.c + s.of(std::vector<double>{0.25, 0.5, 2, 3}) * (edge_point(s, g) - g.c);      // on a line from the centre through an edge
    switch (s.pick(4)) {
    case 0: { double z = g.kind ? g.d / 2 : g.a; double x = g.kind == 1 ? g.a / 2 : g.a, y = g.kind == 1 ? g.b / 2 : g.a; return g.c + Cartesian3D(x * s.uniform(-1, 1), y * s.uniform(-1, 1), z * s.uniform(-1, 1)); }      // inside its bounding box
    case 1: if (g.in > 0) { double r = g.in * s.uniform(0, 1), f = s.uniform(0, 6.283); double z = g.kind ? g.d * s.uniform(-1, 1) : 0; return g.c + Cartesian3D(r * std::cos(f), r * std::sin(f), z); } // the cavity
        return g.c;
    case 2: return g.c + Cartesian3D(e * s.uniform(-2, 2), e * s.uniform(-2, 2), e * s.uniform(-2, 2));
    default: return g.c + (e * s.loguniform(1, 100)) * unit_dir(s);
    }
}
// a direction that usually meets the volume
inline Cartesian3D gen_dir(Sim& s, const Spec& g, const Cartesian3D& p)
{
    if (g.kind && s.chance(1, 4)) { Cartesian3D d = edge_point(s, g) - p; if (d.magnitude() > 1e-6 * ext(g)) { s.count("rays.through_edge"); d.normalize(); return d; } }
    if (s.chance(1, 2)) { Cartesian3D q = gen_pos(s, g); if (s.chance(1, 2)) q = g.c + 0.5 * (q - g.c); Cartesian3D d = q - p; if (d.magnitude() > 1e-6 * ext(g)) { d.normalize(); return d; } }
    return unit_dir(s);
}
// rounding of the library's formulas along this line
inline double tolerance(const Spec& g, const Cartesian3D& p, const Cartesian3D& d)
{
    double D = (p - g.c).magnitude() + ext(g) + g.c.magnitude() + p.magnitude(), small = g.kind == 0 ? (g.in > 0 ? g.in : g.a) : g.kind == 1 ? std::min(g.a, std::min(g.b, g.d)) : std::min(g.d, g.in > 0 ? g.in : g.a);
    (void)d; return 2e-9 + 1e-13 * (D + D * D / small);
}
} // namespace geo
