// P16 volumes: distances to borders and locations along straight tracks
#include "geo.h"
#include "rng.h"
#include "PROPOSAL/geometry/GeometryFactory.h"
#include "PROPOSAL/math/Spherical3D.h"
#include <nlohmann/json.hpp>
#include <sstream>
using namespace PROPOSAL;
using namespace sim;
using namespace geo;
namespace {
void check_ray(Sim& s, const Geometry& o, const Spec& g, const Cartesian3D& p, const Cartesian3D& d, bool& hit)
{
    Ray r = trace(g, p, d); double tol = tolerance(g, p, d);
    auto got = o.DistanceToBorder(p, d); s.step(); s.val(got.first); s.val(got.second); hit = !r.cross.empty();
    std::string at; { char t[400]; snprintf(t, sizeof t, "%s from (%.17g,%.17g,%.17g) along (%.17g,%.17g,%.17g)", str(g).c_str(), p[0], p[1], p[2], d[0], d[1], d[2]); at = t; }
    s.log("%s -> %.17g / %.17g", at.c_str(), got.first, got.second);
    if (!(got.first == -1 || got.first > 0) || !(got.second == -1 || got.second > 0) || std::isnan(got.first) || std::isnan(got.second)) s.fail("distance-form", "%s: distances %g / %g", at.c_str(), got.first, got.second);
    if (!robust(g, p, d, r, tol)) { s.count("degenerate_rays"); return; }
    for (auto c : r.cross) if (fabsl(c) < 100 * tol) { s.count("border_rays"); return; }
    double w1 = -1, w2 = -1; bool inside = false; for (auto& m : r.mat) if (m.a < 0 && m.b > 0) inside = true;
    std::vector<ld> ahead; for (auto c : r.cross) if (c > 0) ahead.push_back(c);
    if (!ahead.empty()) { w1 = (double)ahead[0]; if (!inside) w2 = (double)ahead[1]; }
    auto bad = [&](double x, double y) { return y < 0 ? x != -1 : !(std::fabs(x - y) <= 100 * tol); };
    if (bad(got.first, w1) || bad(got.second, w2)) s.fail("distance-value", "%s: distances %.17g / %.17g instead of %.17g / %.17g", at.c_str(), got.first, got.second, w1, w2);
    bool infront = w1 > 0 && w2 > 0, behind = w1 < 0;
    if (o.IsInside(p, d) != inside || o.IsInfront(p, d) != infront || o.IsBehind(p, d) != behind) s.fail("location", "%s: inside %d infront %d behind %d instead of %d %d %d", at.c_str(), o.IsInside(p, d), o.IsInfront(p, d), o.IsBehind(p, d), inside, infront, behind);
    auto loc = o.GetLocation(p, d), wl = infront ? Geometry::ParticleLocation::InfrontGeometry : inside ? Geometry::ParticleLocation::InsideGeometry : Geometry::ParticleLocation::BehindGeometry;
    if (loc != wl) s.fail("location", "%s: location %d instead of %d", at.c_str(), (int)loc, (int)wl);
    if (o.IsEntering(p, d) || o.IsLeaving(p, d)) s.fail("entering", "%s: reported as being on the border", at.c_str());
    double ca = o.DistanceToClosestApproach(p, d); Cartesian3D rel = g.c - p; ld want = 0; for (int i = 0; i < 3; ++i) want += ((ld)g.c[i] - (ld)p[i]) * (ld)d[i];
    if (std::fabs(ca - (double)want) > 1e-13 * (rel.magnitude() + g.c.magnitude() + p.magnitude())) s.fail("closest-approach", "%s: closest approach after %.17g instead of %.17g", at.c_str(), ca, (double)want);
    if (!r.cross.empty()) s.nontrivial();
    s.count(inside ? "rays.inside" : infront ? (g.in > 0 && r.mat.size() && r.mat[0].a < 0 ? "rays.cavity_or_front_hollow" : "rays.front") : "rays.behind_or_missed");
}
// walk through the volume the way a propagation does, from border to border
void walk(Sim& s, const Geometry& o, const Spec& g, Cartesian3D p, const Cartesian3D& d)
{
    Ray r = trace(g, p, d); double tol = tolerance(g, p, d); if (r.slack < 4000 * tol || 1e-15L * (p.magnitude() + 2 * g.c.magnitude() + ext(g)) > 1e-10L * r.mincos || !robust(g, p, d, r, tol)) return;
    for (auto c : r.cross) if (fabsl(c) < 1000 * tol) return;
    std::vector<ld> ahead; for (auto c : r.cross) if (c > 0) ahead.push_back(c);
    double done = 0; size_t k = 0; Cartesian3D p0 = p; double last = 0;
    char t[400]; snprintf(t, sizeof t, "%s from (%.17g,%.17g,%.17g) along (%.17g,%.17g,%.17g)", str(g).c_str(), p[0], p[1], p[2], d[0], d[1], d[2]);
    for (int i = 0; i < 12; ++i) {
        auto q = o.DistanceToBorder(p, d); s.step(); double step = q.first; if (step < 0) break;
        done += step; p = p + step * d;
        if (step < 1000 * tol) continue;                  // the same border once more: rounding
        if (k >= ahead.size()) s.fail("walk", "%s: a border at %.17g behind the last one", t, done);
        if (std::fabs(done - (double)ahead[k]) > 1000 * tol) s.fail("walk", "%s: border %zu after %.17g instead of %.17g", t, k, done, (double)ahead[k]);
        ++k; last = done;
    }
    if (k != ahead.size()) s.fail("walk", "%s: %zu of %zu borders met", t, k, ahead.size());
    if (k) s.nontrivial();
    s.count("walks"); (void)last; (void)p0;
}
// entering and leaving through the outer surface, at a border point that is exact to rounding
void border(Sim& s, const Geometry& o, const Spec& g, double sc)
{
    if (sc > 1e4) return;
    Cartesian3D n, p; double f = s.uniform(0, 6.283), c = s.uniform(-1, 1), q = std::sqrt(1 - c * c);
    if (g.kind == 0) { n = Cartesian3D(q * std::cos(f), q * std::sin(f), c); p = g.c + g.a * n; }
    else if (g.kind == 1) { int ax = s.pick(3); double sg = s.pick(2) ? 1 : -1, L[3] = {g.a, g.b, g.d}; double x[3]; for (int i = 0; i < 3; ++i) x[i] = g.c[i] + (i == ax ? sg * 0.5 * L[i] : L[i] * s.uniform(-0.45, 0.45)); p = Cartesian3D(x[0], x[1], x[2]); n = Cartesian3D(ax == 0 ? sg : 0, ax == 1 ? sg : 0, ax == 2 ? sg : 0); }
    else if (s.pick(2)) { n = Cartesian3D(std::cos(f), std::sin(f), 0); p = g.c + g.a * n + Cartesian3D(0, 0, g.d * s.uniform(-0.45, 0.45)); }
    else { double sg = s.pick(2) ? 1 : -1, rr = g.in > 0 ? g.in + (g.a - g.in) * s.uniform(0.1, 0.9) : g.a * s.uniform(0, 0.9); n = Cartesian3D(0, 0, sg); p = g.c + Cartesian3D(rr * std::cos(f), rr * std::sin(f), sg * 0.5 * g.d); }
    Cartesian3D d = unit_dir(s); double cosn = d * n; if (std::fabs(cosn) < 0.05) { s.count("border_rays.grazing"); return; }
    double tol = 1e-14 * (p.magnitude() + g.c.magnitude() + ext(g)) * (1 + ext(g) / std::min(g.a, g.kind ? g.d : g.a)) / (cosn * cosn); if (tol > 2e-10 || ext(g) < 1e-3) { s.count("border_rays.imprecise"); return; }
    Ray r = trace(g, p, d); ld span = 0; for (auto& m : r.mat) if (fabsl(m.a) < 1e-7L && m.b > 1e-7L) span = m.b;
    if (r.slack < 1e-6 || (cosn < 0 && span < 1e-6)) return;
    char t[500]; snprintf(t, sizeof t, "%s at the border point (%.17g,%.17g,%.17g) along (%.17g,%.17g,%.17g)", str(g).c_str(), p[0], p[1], p[2], d[0], d[1], d[2]);
    auto got = o.DistanceToBorder(p, d); s.log("%s -> %.17g / %.17g", t, got.first, got.second); s.step(); s.nontrivial(); s.count("border_points");
    if (cosn > 0) {
        if (got.first != -1 || got.second != -1 || o.IsInside(p, d) || !o.IsLeaving(p, d) || o.IsEntering(p, d) || !o.IsBehind(p, d)) s.fail("border-leaving", "%s: distances %.17g / %.17g leaving %d entering %d", t, got.first, got.second, o.IsLeaving(p, d), o.IsEntering(p, d));
    } else {
        if (got.first < 0 || got.second != -1 || !o.IsInside(p, d) || o.IsLeaving(p, d) || !o.IsEntering(p, d)) s.fail("border-entering", "%s: distances %.17g / %.17g leaving %d entering %d", t, got.first, got.second, o.IsLeaving(p, d), o.IsEntering(p, d));
        if (std::fabs(got.first - (double)span) > 1e-6) s.fail("border-entering", "%s: other side after %.17g instead of %.17g", t, got.first, (double)span);
    }
}
nlohmann::json to_json(const Spec& g)
{
    nlohmann::json j; const char* n[] = {"sphere", "box", "cylinder"}; j["shape"] = n[g.kind]; j["origin"] = {g.c[0], g.c[1], g.c[2]}; j["hierarchy"] = g.h;
    if (g.kind == 0) { j["outer_radius"] = g.a; if (g.in > 0) j["inner_radius"] = g.in; }
    else if (g.kind == 1) { j["length"] = g.a; j["width"] = g.b; j["height"] = g.d; }
    else { j["outer_radius"] = g.a; j["height"] = g.d; if (g.in > 0) j["inner_radius"] = g.in; }
    return j;
}
void same_volume(Sim& s, const Geometry& a, const Geometry& b, const Spec& g, const char* key)
{
    if (a.GetHierarchy() != b.GetHierarchy() || Cartesian3D(a.GetPosition()) != Cartesian3D(b.GetPosition())) s.fail(key, "%s: hierarchy or position differ", str(g).c_str());
    for (int i = 0; i < 6; ++i) {
        Cartesian3D p = gen_pos(s, g), d = gen_dir(s, g, p); auto x = a.DistanceToBorder(p, d), y = b.DistanceToBorder(p, d); s.step();
        if (!same(x.first, y.first) || !same(x.second, y.second)) s.fail(key, "%s from (%.17g,%.17g,%.17g) along (%.17g,%.17g,%.17g): %.17g / %.17g and %.17g / %.17g", str(g).c_str(), p[0], p[1], p[2], d[0], d[1], d[2], x.first, x.second, y.first, y.second);
    }
}
void p16_rays(Sim& s)
{
    s.scenario("rays");
    double sc = s.of(std::vector<double>{1, 100, 1e4, 1e6, 6.4e8}); Spec g = gen_spec(s, sc); auto o = build(g); s.log("%s", str(g).c_str()); int n = s.range(1, 30);
    for (int i = 0; i < n; ++i) {
        bool hit; Cartesian3D p = gen_pos(s, g), d = gen_dir(s, g, p);
        if (s.chance(1, 5)) {                                        // next to a border, as close as it can be judged
            Ray r = trace(g, p, d); double e = ext(g), lo = 200 * tolerance(g, p, d); if (!r.cross.empty() && lo < 1e-2 * e) { p = p + (double)(s.of(r.cross) + (s.chance(1, 2) ? -1 : 1) * s.loguniform(lo, 1e-2 * e)) * d; s.count("rays.next_to_border"); } }
        switch (s.pick(6)) {
        case 0: s.op("WALK"); walk(s, *o, g, p, d); break;
        case 1: s.op("BORDER"); border(s, *o, g, sc); break;
        case 2: { s.op("SPHERICAL"); Spherical3D q(d); auto a = o->DistanceToBorder(p, q), b = o->DistanceToBorder(p, Cartesian3D(q)); if (std::fabs(a.first - b.first) > 1e-6 * (1 + sc) && robust(g, p, Cartesian3D(q), trace(g, p, Cartesian3D(q)), 1e-9 * sc * 100)) s.fail("coordinates", "%s: spherical direction gives %.17g instead of %.17g", str(g).c_str(), a.first, b.first); break; }
        default: s.op("RAY"); check_ray(s, *o, g, p, d, hit);
        }
    }
}
DST_SCENARIO_W("P16", p16_rays, 5);

// several volumes through a history of changes; each stays equal to a fresh one with its current data
void p16_history(Sim& s)
{
    s.scenario("history");
    struct E { std::shared_ptr<Geometry> o; Spec g; }; std::vector<E> v; int n = s.range(2, 25); bool hit;
    for (int i = 0; i < n; ++i) {
        if (v.empty() || s.chance(1, 5)) {
            Spec g = gen_spec(s, 1); std::shared_ptr<Geometry> o;
            if (s.chance(1, 2)) { s.op("JSON"); auto j = to_json(g); 
                AllocScope a(s.chance(1, 4) ? s.range(1, 30) : -1); bool threw = false; try { o = CreateGeometry(j); } catch (std::bad_alloc&) { threw = true; } if (a.fired()) s.fault("alloc"); alloc_fault.armed = false;
                if (threw) continue; same_volume(s, *o, *build(g), g, "json"); s.nontrivial();
            } else { s.op("NEW"); o = build(g); }
            v.push_back({o, g}); continue;
        }
        size_t k = s.pick(v.size()); auto& e = v[k];
        switch (s.pick(7)) {
        case 0: { s.op("MOVE"); Cartesian3D c(s.uniform(-3, 3), s.uniform(-3, 3), s.uniform(-3, 3)); e.g.c = c; if (s.pick(2)) e.o->SetPosition(c); else { Spherical3D q(c); e.g.c = Cartesian3D(q); e.o->SetPosition(q); } break; }
        case 1: s.op("HIERARCHY"); e.g.h = s.pick(9); e.o->SetHierarchy(e.g.h); break;
        case 2: { s.op("RESIZE"); double x = s.loguniform(0.1, 10);
            if (e.g.kind == 0) { auto& q = dynamic_cast<Sphere&>(*e.o); if (s.pick(2) && e.g.in < x) { q.SetRadius(x); e.g.a = x; } else if (x < e.g.a) { q.SetInnerRadius(x); e.g.in = x; } if (q.GetRadius() != e.g.a || q.GetInnerRadius() != e.g.in) s.fail("getters", "sphere getters"); }
            else if (e.g.kind == 1) { auto& q = dynamic_cast<Box&>(*e.o); switch (s.pick(3)) { case 0: q.SetX(x); e.g.a = x; break; case 1: q.SetY(x); e.g.b = x; break; default: q.SetZ(x); e.g.d = x; } if (q.GetX() != e.g.a || q.GetY() != e.g.b || q.GetZ() != e.g.d) s.fail("getters", "box getters"); }
            else { auto& q = dynamic_cast<Cylinder&>(*e.o); switch (s.pick(3)) { case 0: if (x > e.g.in) { q.SetRadius(x); e.g.a = x; } break; case 1: if (x < e.g.a) { q.SetInnerRadius(x); e.g.in = x; } break; default: q.SetZ(x); e.g.d = x; } if (q.GetRadius() != e.g.a || q.GetInnerRadius() != e.g.in || q.GetZ() != e.g.d) s.fail("getters", "cylinder getters"); }
            break; }
        case 3: { s.op("COPY"); std::shared_ptr<Geometry> c; if (e.g.kind == 0) c = std::make_shared<Sphere>(dynamic_cast<Sphere&>(*e.o)); else if (e.g.kind == 1) c = std::make_shared<Box>(dynamic_cast<Box&>(*e.o)); else c = std::make_shared<Cylinder>(dynamic_cast<Cylinder&>(*e.o));
            if (!(*c == *e.o) || *c != *e.o) s.fail("copy", "%s: a copy compares different", str(e.g).c_str()); v.push_back({c, e.g}); break; }
        case 4: { s.op("COMPARE"); size_t m = s.pick(v.size()); auto& f = v[m]; const Spec &a = e.g, &b = f.g;
            bool eq = a.kind == b.kind && a.c == b.c && a.h == b.h && e.o->GetName() == f.o->GetName() && (a.kind == 0 ? a.a == b.a && a.in == b.in : a.kind == 1 ? a.a == b.a && a.b == b.b && a.d == b.d : a.a == b.a && a.in == b.in && a.d == b.d);
            if ((*e.o == *f.o) != eq || (*e.o != *f.o) == eq || (*f.o == *e.o) != eq) s.fail("compare", "%s and %s compare %s", str(a).c_str(), str(b).c_str(), eq ? "different" : "equal");
            Spec q = a; switch (s.pick(6)) { case 0: q.a *= 1.5; break; case 1: if (q.kind == 1) q.b *= 1.5; else q.in = q.in > 0 ? q.in * 0.5 : q.a * 0.5; break; case 2: if (q.kind == 0) q.a *= 1.5; else q.d *= 1.5; break; case 3: q.c = q.c + Cartesian3D(0, 0, 1); break; case 4: q.c = q.c + Cartesian3D(0, 1, 0); break; default: q.h += 1; }
            auto o1 = build(a), o2 = build(q); if (!(*o1 != *o2) || *o1 == *o2) s.fail("compare", "%s and %s compare equal", str(a).c_str(), str(q).c_str()); break; }
        case 5: { s.op("RAY"); Cartesian3D p = gen_pos(s, e.g), d = gen_dir(s, e.g, p); check_ray(s, *e.o, e.g, p, d, hit); break; }
        default: { s.op("PRINT"); std::ostringstream os; os << *e.o; if (os.str().empty()) s.fail("print", "nothing printed"); }
        }
    }
    for (auto& e : v) same_volume(s, *e.o, *build(e.g), e.g, "history");
}
DST_SCENARIO_W("P16", p16_history, 3);

// damaged descriptions are refused, and never crash
void p16_config(Sim& s)
{
    s.scenario("config");
    int n = s.range(1, 8);
    for (int i = 0; i < n; ++i) {
        Spec g = gen_spec(s, 1); auto j = to_json(g); bool valid = true; std::string what;
        switch (s.pick(9)) {
        case 0: what = "lower case"; { std::string q = j["shape"]; q[0] = toupper(q[0]); j["shape"] = q; } break;
        case 1: { std::vector<std::string> keys; for (auto& kv : j.items()) keys.push_back(kv.key()); auto k = s.of(keys); what = "without " + k; j.erase(k); valid = k == "hierarchy" || k == "inner_radius"; if (k == "inner_radius") g.in = 0; if (k == "hierarchy") g.h = 0; break; }
        case 2: { std::vector<std::string> keys; for (auto& kv : j.items()) keys.push_back(kv.key()); auto k = s.of(keys); what = "bad type of " + k; valid = false; switch (s.pick(4)) { case 0: j[k] = "text"; break; case 1: j[k] = nullptr; break; case 2: j[k] = {{"a", 1}}; break; default: j[k] = nlohmann::json::array({1, 2}); } break; }
        case 3: what = "inner radius"; if (g.kind == 1) break; if (s.pick(2)) { j["inner_radius"] = -s.loguniform(0.01, 10); } else { j["inner_radius"] = g.a * s.uniform(1.01, 3); } valid = false; break;
        case 4: what = "negative size"; if (g.kind == 0) { j["outer_radius"] = -g.a; } else { auto k = s.of(g.kind == 1 ? std::vector<std::string>{"length", "width", "height"} : std::vector<std::string>{"outer_radius", "height"}); j[k] = -j[k].get<double>(); } valid = false; break;
        case 5: what = "unknown shape"; j["shape"] = "torus"; valid = false; break;
        case 6: what = "short origin"; j["origin"] = {1., 2.}; valid = false; break;
        case 7: what = "integers"; { g.in = g.in > 0 ? 2 : 0; g.a = 5; g.b = 3; g.d = 4; g.c = Cartesian3D(1, 2, 3); j = to_json(g); j["origin"] = {1, 2, 3}; for (auto k : {"outer_radius", "length", "width", "height", "inner_radius"}) if (j.contains(k)) j[k] = (int)j[k].get<double>(); } break;
        default: what = "unchanged";
        }
        s.op("CONFIG"); s.log("%s: %s", what.c_str(), j.dump().c_str()); s.step(); s.nontrivial(); if (!valid) s.fault("config.damaged");
        std::shared_ptr<Geometry> o; bool threw = false; std::string m;
        try { o = CreateGeometry(j); } catch (std::exception& e) { threw = true; m = e.what(); }
        if (valid && threw) s.fail("config-refused", "%s refused: %s", j.dump().c_str(), m.c_str());
        if (!valid && !threw) s.fail("config-accepted", "%s (%s) is accepted", j.dump().c_str(), what.c_str());
        if (valid) same_volume(s, *o, *build(g), g, "json");
    }
}
DST_SCENARIO_W("P16", p16_config, 2);
} // namespace
