// P08 stochastic and continuous losses partition the same spectrum
#include "physics.h"
#include "PROPOSAL/crosssection/CrossSectionMultiplier.h"
#include "PROPOSAL/Constants.h"
#include <cmath>
#include <map>
using namespace PROPOSAL;
using namespace sim;
using namespace phys;

namespace {
// ------------------------------------------------------------------ reference quadrature
const double gx[5] = {0.1488743389816312, 0.4333953941292472, 0.6794095682990244, 0.8650633666889845, 0.9739065285171717};
const double gw[5] = {0.2955242247147529, 0.2692667193099963, 0.2190863625159821, 0.1494513491505806, 0.0666713443086881};
double gauss(const std::function<double(double)>& f, double a, double b)
{
    double m = (a + b) / 2, h = (b - a) / 2, r = 0;
    for (int i = 0; i < 5; ++i) r += gw[i] * (f(m + h * gx[i]) + f(m - h * gx[i]));
    return r * h;
}
// composite Gauss rule, graded towards both ends of [a, b] in log(v) and log(1 - v)
double reference(const std::function<double(double)>& f, double a, double b, int per)
{
    if (!(b > a)) return 0;
    double mid = 0.5 * (a + b), r = 0;
    auto lowside = [&](double t) { double v = std::exp(t); return f(v) * v; };
    double la = std::log(std::max(a, mid * 1e-22)), lm = std::log(mid);
    int n = std::max(1, (int)((lm - la) / 2.3 + 1)) * per;
    for (int i = 0; i < n; ++i) r += gauss(lowside, la + (lm - la) * i / n, la + (lm - la) * (i + 1) / n);
    double end = b, w = (b - mid);                       // panels w/4 smaller each time
    std::vector<double> e{mid}; for (int k = 0; k < 16; ++k) { w /= 4; e.push_back(end - w); } e.push_back(end);
    for (size_t k = 0; k + 1 < e.size(); ++k) for (int i = 0; i < per; ++i) { double d = (e[k + 1] - e[k]) / per; r += gauss(f, e[k] + d * i, e[k] + d * (i + 1)); }
    return r;
}
struct Ref { double value, err; };
Ref refint(const std::function<double(double)>& f, double a, double b, bool slow)
{
    double c = reference(f, a, b, 1); if (slow) return {c, 0.003 * std::fabs(c)};
    double d = reference(f, a, b, 2);
    return {d, std::fabs(c - d)};
}

struct Setup { const Process* proc; int ptype, med, variant; CutPtr cut; Built b; };
Built rebuild(const Setup& u) { return u.proc->build(particle(u.ptype), medium(u.med), u.cut, u.variant); }
Setup gen_setup(Sim& s, bool allow_slow)
{
    Setup u; std::vector<const Process*> v; for (auto& p : processes()) if (allow_slow || !p.slow) v.push_back(&p);
    u.proc = v[s.pick(v.size())]; u.ptype = s.of(u.proc->particles); u.med = (int)s.pick(n_media()); u.variant = (int)s.pick(6);
    if (!u.proc->only_stochastic) {
        bool divergent = u.proc->name[0] == 'B' || u.proc->name.find("BergerSeltzer") != std::string::npos;   // infinite rate without a cut
        if (!divergent && s.chance(1, 10)) u.cut = nullptr;
        else {
            double e = s.of(std::vector<double>{500, INF, 1, 1e5, 50}), v = s.of(std::vector<double>{1, 0.05, 0.5, 1e-3, 1});
            if (s.chance(1, 4)) { e = s.loguniform(0.01, 1e8); v = s.loguniform(1e-4, 1); }
            u.cut = std::make_shared<EnergyCutSettings>(e, v, s.chance(1, 2));
        }
    }
    s.op("process %s particle %d medium %s variant %d", u.proc->name.c_str(), u.ptype, medium_name(u.med), u.variant);
    if (u.cut) s.log("ecut %.17g vcut %.17g cont_rand %d", u.cut->GetEcut(), u.cut->GetVcut(), (int)u.cut->GetContRand()); else s.log("no cut");
    u.b = rebuild(u);
    return u;
}
double gen_energy(Sim& s, const Setup& u)
{
    double lo = std::max(u.b.lower, u.proc->emin) * 1.0001, hi = u.proc->emax;
    // photonuclear limits of the tau ignore its rest mass (known finding, looked at separately): compare well above it
    if (abs(u.ptype) == 15 && u.proc->name.compare(0, 5, "Photo") == 0) lo *= s.chance(1, 16) ? 1 : 20;
    if (u.proc->name.compare(0, 6, "Mupair") == 0) lo *= 10;   // next to the threshold the parametrization's own inner integral is not accurate
    double E = s.loguniform(lo, hi);
    if (s.chance(1, 8)) E = lo * s.of(std::vector<double>{1, 1.001, 1.1, 2});
    return E;
}
struct Lim { double lo, hi; };
Lim limits(const Setup& u, const TargetView& t, double E)
{
    auto k = t.limits(E); Lim l{k.v_min, k.v_max};
    if (u.cut) { double c = std::min(u.cut->GetEcut() / E, u.cut->GetVcut()); l.lo = std::max(std::min(std::max(k.v_min, c), k.v_max), k.v_min); }
    return l;
}
bool real_photon(const Setup& u) { for (auto n : {"PhotoZeus", "PhotoBezrukovBugaev", "PhotoKokoulin", "PhotoRhode"}) if (u.proc->name == n) return true; return false; }
const char* where(const Setup& u, double E) { static char b[256]; snprintf(b, sizeof b, "%s, particle %d in %s, variant %d, E=%.17g, ecut=%g vcut=%g", u.proc->name.c_str(), u.ptype, medium_name(u.med), u.variant, E, u.cut ? u.cut->GetEcut() : -1, u.cut ? u.cut->GetVcut() : -1); return b; }
void close(const Setup& u, double E, const char* key, const char* what, double got, Ref r, double tol)
{
    if (r.err > 0.01 * std::fabs(r.value) ) { S.count("reference.unresolved"); return; }
    S.count(key);
    if (!(std::fabs(got - r.value) <= tol * std::fabs(r.value) + 2 * r.err + 1e-300)) S.fail(key, "%s: %s is %.12g, the integral of the differential cross section is %.12g", where(u, E), what, got, r.value);
}

void p08_history(Sim& s)
{
    s.scenario("partition");
    Setup u = gen_setup(s, true);
    bool has_dndx = !(u.cut && u.cut->GetEcut() == INF && u.cut->GetVcut() == 1);
    int ops = s.range(1, s.tier ? 8 : 4); if (u.proc->slow) ops = std::min(ops, 2);
    double mult = 1; std::shared_ptr<CrossSectionBase> c = u.b.cross;
    if (s.chance(1, 5)) { mult = s.of(std::vector<double>{2, 0.5, 1e-3}); c = make_crosssection_multiplier(c, mult); s.op("multiplier %g", mult); }
    for (int k = 0; k < ops; ++k) {
        double E = gen_energy(s, u); s.log("E=%.17g", E); s.nontrivial(); s.step();
        for (auto& t : u.b.targets) {
            auto l = t.limits(E);
            if (!(l.v_min >= 0 && l.v_min <= l.v_max && (l.v_max <= 1 || l.v_min == l.v_max))) S.fail("limits", "%s: kinematic limits [%.17g, %.17g]", where(u, E), l.v_min, l.v_max);
            if (!u.proc->only_stochastic && l.v_max > l.v_min && l.v_max > 1 - particle(u.ptype).mass / E + 1e-12) {
                bool tau = abs(u.ptype) == 15 && u.proc->name.compare(0, 5, "Photo") == 0;
                S.fail_known(tau ? "limits-rest-mass.photonuclear-tau" : "limits-rest-mass", "%s: a loss of up to v=%.17g may leave the particle below its rest mass (1-m/E=%.17g)", where(u, E), l.v_max, 1 - particle(u.ptype).mass / E);
                if (tau && E < 19 * particle(u.ptype).mass) return;
            }
        }
        for (auto& t : u.b.targets) {                          // spectrum is finite and not negative inside the limits
            auto l = limits(u, t, E); if (!(l.hi > l.lo)) continue;
            double x = s.unit(), v = s.chance(1, 2) ? l.lo + (l.hi - l.lo) * x : std::exp(std::log(std::max(l.lo, 1e-12)) * (1 - x) + std::log(l.hi) * x);
            if (!(v > l.lo && v < l.hi)) continue;
            double d = t.dcs(E, v); s.val(d); s.count("spectrum");
            if (!(d >= 0) || !std::isfinite(d)) {
                bool tau = abs(u.ptype) == 15 && real_photon(u);
                bool km = u.proc->name == "PhotoPairKochMotz" && std::isfinite(d);
                S.fail_known(tau ? "spectrum-negative.real-photon-tau" : km ? "spectrum-negative.photopair-kochmotz" : "spectrum-negative", "%s: differential cross section %.12g at v=%.17g inside the limits [%.17g, %.17g]", where(u, E), d, v, l.lo, l.hi);
            }
        }
        if (abs(u.ptype) == 15 && real_photon(u)) return;      // negative spectrum (known finding): its integrals mean nothing
        switch (s.pick(6)) {
        case 0: {                                             // total rate and its split over targets
            s.op("rate");
            double tot = c->CalculatedNdx(E); s.val(tot);
            auto per = c->CalculatedNdx_PerTarget(E);
            if (!has_dndx) { if (tot != 0 || !per.empty()) S.fail("rate-without-dndx", "%s: only-continuous settings, rate %g", where(u, E), tot); break; }
            if (per.size() != u.b.targets.size()) S.fail("rate-targets", "%s: %zu targets reported, the medium has %zu", where(u, E), per.size(), u.b.targets.size());
            double sum = 0; for (auto& p : per) { if (!(p.second >= 0) || !std::isfinite(p.second)) S.fail("rate-negative", "%s: rate %g", where(u, E), p.second); sum += p.second;
                if (!same(p.second, c->CalculatedNdx(E, p.first))) S.fail("rate-target-mismatch", "%s: rate per target and rate of that target differ", where(u, E)); }
            if (std::fabs(sum - tot) > 1e-12 * sum) S.fail("rate-sum", "%s: total %.17g, sum over targets %.17g", where(u, E), tot, sum);
            auto& t = s.of(u.b.targets); auto l = limits(u, t, E);
            double got = -1; for (auto& p : per) if (p.first == t.hash) got = p.second;
            if (got < 0) S.fail("rate-target-missing", "%s: a component of the medium has no rate", where(u, E));
            Ref r = refint([&](double v) { s.step(); return t.dcs(E, v) * t.fraction * mult; }, l.lo, l.hi, u.proc->slow);
            close(u, E, "rate", "rate", got, r, u.proc->slow ? 0.05 : 0.03);
            break; }
        case 1: {                                             // continuous loss
            s.op("dedx");
            double got = c->CalculatedEdx(E); s.val(got);
            if (!u.cut) { if (got != 0) S.fail("dedx-without-cut", "%s: continuous loss %g without energy cut", where(u, E), got); break; }
            if (!(got >= 0) || !std::isfinite(got)) S.fail("dedx-negative", "%s: continuous loss %.17g", where(u, E), got);
            if (u.b.closed_dedx) break;
            Ref r{0, 0};
            for (auto& t : u.b.targets) { auto k = t.limits(E); auto l = limits(u, t, E); Ref q = refint([&](double v) { s.step(); return t.fde(E, v) * t.fraction; }, k.v_min, l.lo, u.proc->slow); r.value += q.value * E; r.err += q.err * E; }
            if (u.b.extra_dedx) r.value += u.b.extra_dedx(E);
            r.value *= mult; r.err *= mult;
            close(u, E, "dedx", "continuous loss", got, r, u.proc->slow ? 0.05 : 0.03);
            break; }
        case 2: {
            s.op("de2dx");
            double got = c->CalculatedE2dx(E); s.val(got);
            if (!u.cut || !u.cut->GetContRand()) { if (got != 0) S.fail("de2dx-off", "%s: fluctuation %g with randomisation off", where(u, E), got); break; }
            if (!(got >= 0) || !std::isfinite(got)) S.fail("de2dx-negative", "%s: fluctuation %.17g", where(u, E), got);
            Ref r{0, 0};
            for (auto& t : u.b.targets) { auto k = t.limits(E); auto l = limits(u, t, E); Ref q = refint([&](double v) { s.step(); return t.fde2(E, v) * t.fraction; }, k.v_min, l.lo, u.proc->slow); r.value += q.value * E * E; r.err += q.err * E * E; }
            r.value *= mult; r.err *= mult;
            close(u, E, "de2dx", "fluctuation of the continuous loss", got, r, u.proc->slow ? 0.08 : 0.03);
            break; }
        case 3: case 4: {                                     // sampling inverts the cumulative rate
            double rnd = s.of(std::vector<double>{0.5, 0, 1, 1e-6, 1 - 1e-9, 0.999}); if (s.chance(1, 2)) rnd = s.unit();
            s.op("sample"); s.log("rnd=%.17g", rnd);
            auto& t = s.of(u.b.targets); auto l = limits(u, t, E);
            if (!has_dndx) { bool threw = false; try { c->CalculateStochasticLoss(t.hash, E, 1); } catch (const std::logic_error&) { threw = true; } if (!threw) S.fail("loss-without-dndx", "%s: a stochastic loss was returned", where(u, E)); break; }
            double tot = c->CalculatedNdx(E, t.hash); if (!(tot > 0)) { s.count("sample.zero_rate"); break; }
            double v = c->CalculateStochasticLoss(t.hash, E, rnd * tot); s.val(v);
            if (u.proc->only_stochastic) { if (v != 1) S.fail("loss-only-stochastic", "%s: loss %.17g of a process that takes all the energy", where(u, E), v); break; }
            if (!(v >= l.lo * (1 - 1e-9) - 4e-15 && v <= l.hi * (1 + 1e-9))) S.fail("loss-range", "%s: sampled loss v=%.17g outside [%.17g, %.17g]", where(u, E), v, l.lo, l.hi);
            double cum = c->CalculateCumulativeCrosssection(E, t.hash, v);
            s.val(cum); s.count("sample");
            Ref r = refint([&](double x) { s.step(); return t.dcs(E, x) * t.fraction * mult; }, l.lo, v, u.proc->slow);
            if (r.err < 0.01 * r.value && !(std::fabs(r.value - rnd * tot) <= (u.proc->slow ? 0.08 : 0.04) * tot + r.err)) S.fail("loss-inverse", "%s: the rate below the sampled loss v=%.17g is %.12g of the total, asked for %.12g", where(u, E), v, r.value / tot, rnd);
            if (!(std::fabs(cum - rnd * tot) <= (u.proc->slow ? 0.08 : 0.04) * tot)) S.fail("loss-cumulative", "%s: the cumulative rate at the sampled loss v=%.17g is %.12g of the total, asked for %.12g", where(u, E), v, cum / tot, rnd);
            break; }
        default: {                                            // cumulative rate is monotone from 0 to the total
            s.op("cumulative"); if (u.proc->name == "PhotoPairKochMotz") break;   // negative at the edges (known finding)
            auto& t = s.of(u.b.targets); auto l = limits(u, t, E);
            if (!has_dndx) { if (c->CalculateCumulativeCrosssection(E, t.hash, 0.5) != 0) S.fail("cumulative-without-dndx", "%s", where(u, E)); break; }
            double tot = c->CalculatedNdx(E, t.hash), last = 0;
            if (c->CalculateCumulativeCrosssection(E, t.hash, l.lo) != 0) S.fail("cumulative-start", "%s: rate below the lower limit", where(u, E));
            if (!same(c->CalculateCumulativeCrosssection(E, t.hash, l.hi), tot)) S.fail("cumulative-end", "%s: cumulative rate at the upper limit differs from the rate", where(u, E));
            int n = u.proc->slow ? 2 : 4;
            for (int i = 1; i <= n; ++i) { double v = l.lo + (l.hi - l.lo) * std::pow((double)i / (n + 1), 3); double x = c->CalculateCumulativeCrosssection(E, t.hash, v); s.val(x);
                if (!(x >= last - 0.01 * tot)) S.fail("cumulative-monotone", "%s: cumulative rate falls from %.12g to %.12g (total %.12g)", where(u, E), last, x, tot); last = x; }
            if (!(last <= tot * 1.01)) S.fail("cumulative-monotone", "%s: cumulative rate %.12g above the total %.12g", where(u, E), last, tot);
        } }
        if (s.chance(1, 3)) {                                 // same answers as a fresh twin
            Built f = rebuild(u); double E2 = s.chance(1, 2) ? E : gen_energy(s, u);
            s.op("twin"); double a[3] = {c->CalculatedNdx(E2), c->CalculatedEdx(E2), c->CalculatedE2dx(E2)}, b[3] = {f.cross->CalculatedNdx(E2) * mult, f.cross->CalculatedEdx(E2) * mult, f.cross->CalculatedE2dx(E2) * mult};
            for (int i = 0; i < 3; ++i) if (!same(a[i], b[i]) && std::fabs(a[i] - b[i]) > 1e-13 * std::fabs(a[i])) S.fail("history", "%s: quantity %d is %.17g, on a fresh object %.17g", where(u, E2), i, a[i], b[i]);
            if (mult == 1 && f.cross->GetHash() != c->GetHash()) S.fail("hash", "%s: equal cross sections have different hashes", where(u, E2));
        }
        if (s.chance(1, 8)) {                                 // an evaluation that runs out of memory leaves it usable
            double before = c->CalculatedNdx(E), b2 = c->CalculatedEdx(E); bool threw = false; double got = 0; bool fired;
            { AllocScope as((long)s.pick(12)); try { got = s.pick(2) ? c->CalculatedNdx(E) : (c->CalculatedEdx(E), before); } catch (const std::bad_alloc&) { threw = true; } fired = as.fired(); }
            if (fired) s.fault("alloc");
            if (!fired && threw) S.fail("alloc-spurious", "bad_alloc without a failing allocation");
            if (!threw && !same(got, before)) S.fail("alloc-value", "%s: value changed", where(u, E));
            if (!same(c->CalculatedNdx(E), before) || !same(c->CalculatedEdx(E), b2)) S.fail("alloc-after", "%s: answers changed after a failed allocation", where(u, E));
        }
    }
}
DST_SCENARIO("P08", p08_history);
} // namespace
