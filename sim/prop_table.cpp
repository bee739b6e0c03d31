// P01..P04: interpolation tables under disk faults, crashes, copies and query histories.
#include "sim.h"
#include "PROPOSAL/math/Interpolant.h"
#include <cmath>
#include <memory>
using namespace PROPOSAL;
using namespace sim;

namespace {
struct Spec {
    int kind;            // 0 1D function, 1 2D function, 2 1D samples, 3 2D samples, 4 2D samples, per-row abscissae
    int n1, n2, romberg, rombergY, romberg2;
    double lo, hi, lo2, hi2;
    bool rational, relative, isLog, isLog2, rationalY, relativeY, logSubst;
    int family; double a, b;
    bool is2d() const { return kind == 1 || kind >= 3; }
    double f(double x) const
    {
        switch (family) {
        case 0: return a * std::pow(x, b);
        case 1: return a * std::exp(-b * x / hi);
        case 2: return a + b * std::log(1 + x);
        case 3: return a * std::exp(b * x / hi);
        default: return a * (1.5 + std::sin(b * 4 * x / hi));
        }
    }
    bool monotone() const { return family != 4; }
    double f2(double x, double y) const { return f(x) * (1 + 0.7 * std::pow(y / hi2, 1.3)); }
    std::string str() const
    {
        char b_[256];
        snprintf(b_, sizeof b_, "kind=%d n=%dx%d romberg=%d/%d/%d range=[%.4g,%.4g] range2=[%.4g,%.4g] rational=%d relative=%d log=%d log2=%d logSubst=%d f=%d(%.3g,%.3g)",
            kind, n1, n2, romberg, rombergY, romberg2, lo, hi, lo2, hi2, rational, relative, isLog, isLog2, logSubst, family, a, b);
        return b_;
    }
};

Spec gen(Sim& s, bool small = false)
{
    Spec p;
    p.kind = (int)s.pick(5);
    p.n1 = s.range(small ? 3 : 4, small ? 10 : 40);
    p.n2 = p.is2d() ? s.range(3, small ? 6 : 16) : 0;
    p.romberg = s.range(1, 5); p.rombergY = s.range(1, 5); p.romberg2 = s.range(1, 4);
    p.lo = s.of(std::vector<double>{1, 0.5, 100, 1e-3, 20});
    p.hi = p.lo * s.of(std::vector<double>{10, 3, 100, 1e4});
    p.lo2 = s.of(std::vector<double>{1, 2, 50});
    p.hi2 = p.lo2 * s.of(std::vector<double>{10, 4, 1000});
    uint64_t fl = s.pick(128);
    p.isLog = fl & 1; p.isLog2 = fl & 2; p.logSubst = fl & 4; p.relative = fl & 8; p.relativeY = fl & 16;
    p.rational = (fl & 32) && (fl & 64); p.rationalY = p.rational && (fl & 1);
    p.family = (int)s.pick(5);
    p.a = s.of(std::vector<double>{1, 3.7, 0.02, 55.5}); p.b = s.of(std::vector<double>{1, 0.5, 2});
    if (p.kind >= 2) p.isLog = p.isLog2 = p.logSubst = false;
    return p;
}

std::unique_ptr<Interpolant> build(const Spec& p)
{
    auto xs = [&](double lo, double hi, int n, double skew) {
        std::vector<double> v; for (int i = 0; i < n; ++i) v.push_back(lo + (hi - lo) * std::pow(i / (n - 1.0), skew)); return v; };
    switch (p.kind) {
    case 0: return std::unique_ptr<Interpolant>(new Interpolant(p.n1, p.lo, p.hi, [p](double x) { return p.f(x); }, p.romberg, p.rational,
        p.relative, p.isLog, p.rombergY, p.rationalY, p.relativeY, p.logSubst));
    case 1: return std::unique_ptr<Interpolant>(new Interpolant(p.n1, p.lo, p.hi, p.n2, p.lo2, p.hi2, [p](double x, double y) { return p.f2(x, y); },
        p.romberg, p.rational, p.relative, p.isLog, p.romberg2, p.rational, p.relative, p.isLog2, p.rombergY, p.rationalY, p.relativeY, p.logSubst));
    case 2: { auto x = xs(p.lo, p.hi, p.n1, 1.4); std::vector<double> y; for (double v : x) y.push_back(p.f(v));
        return std::unique_ptr<Interpolant>(new Interpolant(x, y, p.romberg, p.rational, p.relative)); }
    case 3: { auto x1 = xs(p.lo2, p.hi2, p.n2, 1.3), x2 = xs(p.lo, p.hi, p.n1, 1.4); std::vector<std::vector<double>> y;
        for (double u : x1) { y.push_back({}); for (double v : x2) y.back().push_back(p.f2(v, u)); }
        return std::unique_ptr<Interpolant>(new Interpolant(x1, x2, y, p.romberg2, p.rational, p.relative, p.romberg, p.rational, p.relative)); }
    default: { auto x1 = xs(p.lo2, p.hi2, p.n2, 1.3); std::vector<std::vector<double>> x2, y;
        for (size_t i = 0; i < x1.size(); ++i) { x2.push_back(xs(p.lo, p.hi, p.n1, 1.2 + 0.05 * i)); y.push_back({});
            for (double v : x2.back()) y.back().push_back(p.f2(v, x1[i])); }
        return std::unique_ptr<Interpolant>(new Interpolant(x1, x2, y, p.romberg2, p.rational, p.relative, p.romberg, p.rational, p.relative)); }
    }
}

struct Query { int op; double x, y; };   // op 0 evaluate, 1 inverse search
Query gen_query(Sim& s, const Spec& p)
{
    Query q; q.op = (p.kind <= 1 && s.chance(1, 3)) ? 1 : 0;
    static const std::vector<double> special{0.5, 0, 1, 1e-9, 1 - 1e-9, 0.25, -0.02, 1.02};
    double u = s.chance(1, 4) ? s.of(special) : s.unit(), v = s.chance(1, 4) ? s.of(special) : s.unit();
    q.x = p.lo + (p.hi - p.lo) * u; q.y = p.is2d() ? p.lo2 + (p.hi2 - p.lo2) * v : 0;
    if (p.isLog && q.x <= 0) q.x = p.lo; if (p.isLog2 && q.y <= 0) q.y = p.lo2;
    if (p.isLog) q.x = p.lo * std::pow(p.hi / p.lo, u);
    if (q.op == 1) {                       // search for a function value of the table
        double xx = std::min(std::max(q.x, p.lo), p.hi), yy = std::min(std::max(q.y, p.lo2), p.hi2);
        if (p.is2d()) { q.x = xx; q.y = p.f2(xx, yy); } else { q.x = p.f(xx); }
    }
    return q;
}
double ask(Interpolant& t, const Spec& p, const Query& q)
{
    S.step();
    if (q.op == 1) return p.is2d() ? t.FindLimit(q.x, q.y) : t.FindLimit(q.x);
    switch (p.kind) {
    case 0: return t.Interpolate(q.x);
    case 1: return t.Interpolate(q.x, q.y);
    case 2: return t.InterpolateArray(q.x);
    default: return t.InterpolateArray(q.y, q.x);
    }
}
std::vector<Query> grid(const Spec& p, int n = 9)
{
    std::vector<Query> v;
    for (int i = 0; i <= n; ++i) {
        double u = (i + 0.37) / (n + 1.0);
        double x = p.isLog ? p.lo * std::pow(p.hi / p.lo, u) : p.lo + (p.hi - p.lo) * u;
        double w = std::fmod(u * 3.1, 1.0);
        double y = p.isLog2 ? p.lo2 * std::pow(p.hi2 / p.lo2, w) : p.lo2 + (p.hi2 - p.lo2) * w;
        v.push_back({0, x, p.is2d() ? y : 0});
        if (p.kind <= 1 && i % 3 == 1) v.push_back(p.is2d() ? Query{1, x, p.f2(x, y)} : Query{1, p.f(x), 0});
    }
    return v;
}
std::vector<double> answers(Interpolant& t, const Spec& p, const std::vector<Query>& q)
{
    std::vector<double> r; for (auto& x : q) { r.push_back(ask(t, p, x)); S.val(r.back()); } return r;
}
// exact: bit-for-bit.  Otherwise equal up to the rounding of a printed/logged table.
// Returns index of the first disagreement or -1.
int differ(const Spec& p, const std::vector<Query>& q, const std::vector<double>& a, const std::vector<double>& b, bool exact)
{
    for (size_t i = 0; i < q.size(); ++i) {
        if (same(a[i], b[i])) continue;
        if (exact) return (int)i;
        if (std::isnan(a[i]) != std::isnan(b[i])) return (int)i;
        if (p.rational) continue;                       // rational fits may amplify rounding near a pole
        double scale, tol;
        if (q[i].op == 0) {                             // extrapolated points may cancel: scale by the largest sample
            scale = 0; for (size_t k = 0; k < q.size(); ++k) if (q[k].op == 0) scale = std::max(scale, std::fabs(a[k]));
            tol = 1e-9;
        } else {
            if (!p.monotone()) continue;
            scale = p.is2d() ? p.hi2 : p.hi; tol = 1e-5;
        }
        if (std::fabs(a[i] - b[i]) > tol * std::max(scale, std::fabs(a[i]))) return (int)i;
    }
    return -1;
}
bool bitexact(const Spec& p, bool binary) { return binary && !p.isLog && !(p.isLog2); }

std::string path(int k = 0) { return scratch + "table" + std::to_string(k); }
std::string real_path(const std::string& p, bool binary) { return binary ? p : p + ".txt"; }

// ------------------------------------------------------------------ P01
void p01(Sim& s)
{
    s.scenario("save-under-disk-faults");
    Spec p = gen(s, true); bool bin = s.chance(1, 2);
    s.log("table %s %s", p.str().c_str(), bin ? "binary" : "text");
    auto t = build(p); auto g = grid(p); auto ref = answers(*t, p, g);
    if (!t->Save(path(9), bin)) s.fail("save-refused", "storing a table on a healthy disk reported failure");
    std::string good = slurp(real_path(path(9), bin));
    if (good.empty()) s.fail("save-empty", "storing on a healthy disk reported success but wrote nothing");
    s.val((uint64_t)good.size());

    for (int k = s.range(1, 3); k-- > 0;) {
        DiskPlan d; d.rng = 1 + s.pick(1000); long alloc_n = -1;
        int f = (int)s.pick(9);
        std::string target = path(k);
        switch (f) {
        case 0: break;
        case 1: d.write_budget = (long)s.pick(good.size() + 1); d.write_err = 28; break;
        case 2: d.write_budget = (long)s.pick(good.size() + 1); d.write_err = 5; break;
        case 3: d.short_writes = true; break;
        case 4: d.eintr_writes = true; break;
        case 5: d.close_fails = true; break;
        case 6: d.short_writes = true; d.write_budget = (long)s.pick(good.size() + 1); break;
        case 7: d.open_fail_at = 0; break;
        case 8: alloc_n = (long)s.pick(6); break;
        }
        static const char* nm[] = {"none", "enospc", "eio-write", "short-write", "eintr-write", "close-error", "short-write+enospc", "open-error", "alloc"};
        s.op("SAVE #%d disk=%s budget=%ld", k, nm[f], d.write_budget);
        bool rc = false, threw = false;
        {
            DiskScope ds(d);
            try {
                if (alloc_n >= 0) { AllocScope as(alloc_n); rc = t->Save(target, bin); threw = false; if (as.fired()) S.fault("alloc"); }
                else rc = t->Save(target, bin);
            } catch (std::exception& e) { threw = true; s.log("save threw %s", e.what()); }
        }
        if (threw && alloc_fault.fired) s.fault("alloc");
        bool hard = disk.fired_write || disk.fired_close || disk.fired_open || alloc_fault.fired;
        if (disk.fired_write) s.fault(d.write_err == 28 ? "disk.enospc" : "disk.eio_write");
        if (disk.fired_short) s.fault("disk.short_write");
        if (disk.fired_eintr) s.fault("disk.eintr");
        if (disk.fired_close) s.fault("disk.close_error");
        if (disk.fired_open) s.fault("disk.open_error");
        alloc_fault.fired = false;
        s.log("reported %s, %zu of %zu bytes on disk", threw ? "exception" : rc ? "success" : "failure", slurp(real_path(target, bin)).size(), good.size());
        if (f) s.nontrivial();
        if (rc && !threw) {
            if (disk.fired_close) s.fail("save-close-error-ignored", "closing the table file failed (%s table) but storing reported success", bin ? "binary" : "text");
            Interpolant back; bool ok = false;
            try { ok = back.Load(target, bin); } catch (std::exception&) {}
            if (!ok) s.fail("save-false-success", "storing reported success but the file cannot be loaded (%zu of %zu bytes)", slurp(real_path(target, bin)).size(), good.size());
            auto got = answers(back, p, g); int w = differ(p, g, ref, got, bitexact(p, bin));
            if (w >= 0) s.fail("save-wrong-content", "storing reported success but the stored table differs: query %d (%.6g,%.6g) %.17g vs %.17g", g[w].op, g[w].x, g[w].y, ref[w], got[w]);
            if (slurp(real_path(target, bin)) != good) s.fail("save-bytes-differ", "storing reported success but the file differs from the one stored on a healthy disk");
        } else if (!hard && !threw) {
            s.fail("save-false-failure", "storing reported failure although every write was eventually accepted");
        }
        auto after = answers(*t, p, g);
        if (differ(p, g, ref, after, true) >= 0) s.fail("save-modified-table", "storing changed the table in memory");
    }
    // once faults stop, storing works again
    s.op("HEAL save");
    if (!t->Save(path(5), bin) || slurp(real_path(path(5), bin)) != good) s.fail("save-not-recovered", "storing on a healthy disk after earlier failures did not produce the table");
}

// ------------------------------------------------------------------ P02
void p02(Sim& s)
{
    s.scenario("load-damaged-file");
    Spec p = gen(s, true); bool bin = s.chance(1, 2);
    s.log("table %s %s", p.str().c_str(), bin ? "binary" : "text");
    auto t = build(p); auto g = grid(p); auto ref = answers(*t, p, g);
    if (!t->Save(path(0), bin)) s.fail("save-refused", "storing a table on a healthy disk reported failure");
    std::string good = slurp(real_path(path(0), bin));
    std::unique_ptr<Interpolant> reader(new Interpolant());
    int prior = (int)s.pick(3);
    struct { bool has = false; Spec p; std::vector<Query> g; std::vector<double> ref; bool exact = true; } cur;   // what the reader holds
    if (prior) { cur.has = true; cur.p = gen(s, true); s.op("READER already holds a %s table", cur.p.is2d() ? "2D" : "1D"); reader = build(cur.p); cur.g = grid(cur.p);
        auto fresh = build(cur.p); cur.ref = answers(*fresh, cur.p, cur.g); if (prior == 2) answers(*reader, cur.p, cur.g); }
    for (int k = s.range(1, 4); k-- > 0;) {
        DiskPlan d; d.rng = 1 + s.pick(1000); long alloc_n = -1; size_t cut = good.size(); bool missing = false;
        int f = (int)s.pick(7);
        static const char* nm[] = {"none", "crash-truncation", "eio-read", "short-read", "eintr-read", "missing", "alloc"};
        switch (f) {
        case 1: { // any byte; half of the time close to the end or inside the header
            int where = (int)s.pick(4);
            if (where == 0) cut = s.pick(good.size()); else if (where == 1) cut = s.pick(std::min<size_t>(good.size(), 80));
            else cut = good.size() - 1 - s.pick(std::min<size_t>(good.size(), where == 2 ? 200 : 24)); break; }
        case 2: d.read_budget = (long)s.pick(good.size()); break;
        case 3: d.short_reads = true; break;
        case 4: d.eintr_reads = true; break;
        case 5: missing = true; break;
        case 6: alloc_n = (long)s.pick(30); break;
        }
        s.op("LOAD disk=%s", nm[f]); s.log("cut=%zu/%zu read_budget=%ld alloc=%ld", cut, good.size(), d.read_budget, alloc_n);
        std::string target = path(1); unlink_scratch(real_path(target, bin));
        if (!missing) spew(real_path(target, bin), good.substr(0, cut));
        bool rc = false, threw = false;
        {
            DiskScope ds(d);
            try { if (alloc_n >= 0) { AllocScope as(alloc_n); rc = reader->Load(target, bin); } else rc = reader->Load(target, bin); }
            catch (std::exception& e) { threw = true; }
        }
        bool hard = disk.fired_read || alloc_fault.fired || missing || cut < good.size();
        if (cut < good.size()) s.fault("crash.truncated_file");
        if (missing) s.fault("crash.file_lost");
        if (disk.fired_read) s.fault("disk.eio_read");
        if (disk.fired_short) s.fault("disk.short_read");
        if (disk.fired_eintr) s.fault("disk.eintr");
        if (alloc_fault.fired) s.fault("alloc");
        alloc_fault.fired = false;
        if (f) s.nontrivial();
        s.log("reported %s", threw ? "exception" : rc ? "success" : "failure");
        if (rc && !threw) {
            std::vector<double> got;
            try { got = answers(*reader, p, g); }
            catch (std::exception& e) { s.fail("load-false-success", "loading a damaged file reported success, then using the table threw: %s", e.what()); }
            int w = differ(p, g, ref, got, bitexact(p, bin));
            if (w >= 0) s.fail("load-false-success", "loading reported success (%zu of %zu bytes readable) but the table is wrong: query (%.6g,%.6g) gives %.17g instead of %.17g", cut, good.size(), g[w].x, g[w].y, got[w], ref[w]);
            cur.has = true; cur.p = p; cur.g = g; cur.ref = ref; cur.exact = bitexact(p, bin);
        } else if (!hard) s.fail("load-false-failure", "loading an intact file %s", threw ? "threw" : "reported failure");
        else if (cur.has) {
            std::vector<double> got; try { got = answers(*reader, cur.p, cur.g); }
            catch (std::exception& e) { s.fail("failed-load-damages-object", "after a load that reported failure, using the table held before threw: %s", e.what()); }
            int w = differ(cur.p, cur.g, cur.ref, got, cur.exact);
            if (w >= 0) s.fail("failed-load-damages-object", "after a load that reported failure, the table held before gives %.17g instead of %.17g", got[w], cur.ref[w]);
        }
        if (s.chance(1, 4)) { s.op("COPY reader after load"); Interpolant c(*reader); (void)c; if (s.chance(1, 2)) { *reader = c; } }
    }
    s.op("HEAL load");
    bool ok = reader->Load(path(0), bin);
    if (!ok) s.fail("load-not-recovered", "an object whose load failed cannot load an intact file any more");
    auto got = answers(*reader, p, g);
    if (differ(p, g, ref, got, bitexact(p, bin)) >= 0) s.fail("load-not-recovered", "an object whose load failed loads an intact file wrongly");
    // and what it loaded can be stored again
    if (!reader->Save(path(2), bin)) s.fail("load-not-recovered", "a reloaded table cannot be stored");
    Interpolant again; if (!again.Load(path(2), bin)) s.fail("load-not-recovered", "a re-stored table cannot be loaded");
    got = answers(again, p, g);
    int w = differ(p, g, ref, got, bitexact(p, bin));
    if (w >= 0) s.fail("load-not-recovered", "a table that was loaded and stored again is different");
}

// ------------------------------------------------------------------ P03
void p03(Sim& s)
{
    s.scenario("copy-save-load-chains");
    struct Obj { std::unique_ptr<Interpolant> t; Spec p; bool exact; std::vector<Query> g; std::vector<double> ref; };
    std::vector<Obj> v;
    auto add = [&] { Obj o; o.p = gen(s); o.t = build(o.p); o.exact = true; o.g = grid(o.p);
        auto fresh = build(o.p); o.ref = answers(*fresh, o.p, o.g); s.log("table %s", o.p.str().c_str()); v.push_back(std::move(o)); };
    auto verify = [&](Obj& o, const char* what) {
        std::vector<double> got;
        try { got = answers(*o.t, o.p, o.g); }
        catch (std::exception& e) { s.fail("chain-broken", "after %s, evaluating the table threw: %s (%s)", what, e.what(), o.p.str().c_str()); }
        int w = differ(o.p, o.g, o.ref, got, o.exact);
        if (w >= 0) s.fail("chain-different", "after %s the table gives %.17g instead of %.17g at (%.6g,%.6g) op %d (%s)", what, got[w], o.ref[w], o.g[w].x, o.g[w].y, o.g[w].op, o.p.str().c_str());
    };
    add();
    int n = s.range(2, s.tier ? 14 : 8);
    for (int i = 0; i < n; ++i) {
        size_t k = s.pick(v.size()); Obj& o = v[k];
        switch (s.pick(8)) {
        case 0: s.op("NEW"); add(); break;
        case 1: { s.op("COPY %zu", k); Obj c{std::unique_ptr<Interpolant>(new Interpolant(*o.t)), o.p, o.exact, o.g, o.ref}; v.push_back(std::move(c)); verify(v.back(), "copying"); s.nontrivial(); break; }
        case 2: { size_t m = s.pick(v.size()); s.op("ASSIGN %zu=%zu", m, k); *v[m].t = *v[k].t; v[m].p = v[k].p; v[m].exact = v[k].exact; v[m].g = v[k].g; v[m].ref = v[k].ref; verify(v[m], "assigning"); s.nontrivial(); break; }
        case 3: { size_t m = s.pick(v.size()); s.op("SWAP %zu %zu", m, k); if (m != k) { v[m].t->swap(*v[k].t); std::swap(v[m].p, v[k].p); std::swap(v[m].exact, v[k].exact); std::swap(v[m].g, v[k].g); std::swap(v[m].ref, v[k].ref); }
            verify(v[m], "swapping"); verify(v[k], "swapping"); s.nontrivial(); break; }
        case 4: case 5: {
            bool bin = s.chance(1, 2); bool stream = s.chance(1, 4); s.op("SAVE+LOAD %zu %s%s", k, bin ? "binary" : "text", stream ? " via stream" : "");
            std::string pt = path(1); bool ok;
            if (stream) { std::ofstream os(real_path(pt, bin), bin ? std::ios::binary : std::ios::out); ok = o.t->Save(os, bin); os.close(); ok = ok && os.good(); }
            else ok = o.t->Save(pt, bin);
            if (!ok) s.fail("chain-save-failed", "storing a healthy table failed");
            bool fresh = s.chance(1, 2); size_t m = fresh ? k : s.pick(v.size());
            if (fresh) o.t.reset(new Interpolant());
            Interpolant* dst = v[m].t.get();
            bool ex = v[k].exact && bitexact(v[k].p, bin);
            bool rc = false;
            if (stream) { std::ifstream is(real_path(pt, bin), bin ? std::ios::binary : std::ios::in); rc = dst->Load(is, bin); } else rc = dst->Load(pt, bin);
            if (!rc) s.fail("chain-load-failed", "a table stored without faults cannot be loaded (%s)", v[k].p.str().c_str());
            if (m != k) { v[m].p = v[k].p; v[m].g = v[k].g; v[m].ref = v[k].ref; }
            v[m].exact = ex; verify(v[m], "storing and loading"); s.nontrivial(); break; }
        case 6: if (v.size() > 1) { s.op("DESTROY %zu", k); v.erase(v.begin() + k); } break;
        case 7: { s.op("QUERY %zu", k); for (int j = 0; j < 3; ++j) { Query q = gen_query(s, o.p); S.val(ask(*o.t, o.p, q)); } break; }
        }
    }
    for (auto& o : v) verify(o, "the whole history");
}

// ------------------------------------------------------------------ P04
void p04(Sim& s)
{
    s.scenario("query-history");
    Spec p = gen(s); s.log("table %s", p.str().c_str());
    auto veteran = build(p);
    int n = s.range(2, s.tier ? 60 : 25);
    std::vector<Query> hist;
    for (int i = 0; i < n; ++i) {
        Query q = (!hist.empty() && s.chance(1, 5)) ? hist[s.pick(hist.size())] : gen_query(s, p);
        if (s.chance(1, 8)) {          // an operation that must fail must leave no trace
            int k = (int)s.pick(3); s.op("BADQUERY %d", k); s.fault("misuse.wrong_arity");
            try { if (p.is2d()) { if (p.kind == 1) S.val(veteran->Interpolate(std::nan(""), p.lo2)); else S.val(veteran->InterpolateArray(std::nan(""), p.lo)); }
                  else { if (k == 0) S.val(veteran->Interpolate(p.lo, p.lo2 * 1.5)); else if (k == 1) S.val(veteran->FindLimit(p.lo, 1.0)); else S.val(veteran->InterpolateArray(p.lo, p.lo2)); } }
            catch (std::exception& e) { s.log("threw"); }
        }
        s.op("Q%d%s", q.op, i && !hist.empty() && q.x == hist.back().x ? "r" : "");
        double got = ask(*veteran, p, q); hist.push_back(q);
        auto fresh = build(p); double want = ask(*fresh, p, q);
        S.val(got);
        if (!same(got, want)) s.fail("history-dependent", "query %d (op %d at %.17g,%.17g) gives %.17g on a used table and %.17g on a fresh one (%s)", i, q.op, q.x, q.y, got, want, p.str().c_str());
        if (i) s.nontrivial();
        // inverse search really inverts (well-resolved monotone 1D tables)
        if (q.op == 1 && p.kind == 0 && p.monotone() && !p.rational && !p.rationalY && p.n1 >= 20 && p.romberg >= 3 && p.rombergY >= 3 && p.hi / p.lo <= 10.5 && p.b <= 1) {
            double x = want, y = p.f(x);
            if (x > p.lo * 1.01 && x < p.hi * 0.99 && std::fabs(y - q.x) > 0.02 * std::fabs(q.x))
                s.fail("inverse-wrong", "inverse search for %.17g returned %.17g where the tabulated function is %.17g (%s)", q.x, x, y, p.str().c_str());
        }
        if (q.op == 0 && p.kind <= 1 && !p.rational && p.n1 >= 20 && p.romberg >= 3 && p.hi / p.lo <= 10.5 && p.b <= 1 && p.family != 4 && (p.kind == 0 || (p.n2 >= 10 && p.romberg2 >= 3 && p.hi2 / p.lo2 <= 10.5)) && q.x > p.lo * 1.01 && q.x < p.hi * 0.99 && (p.kind == 0 || (q.y > p.lo2 * 1.01 && q.y < p.hi2 * 0.99))) {
            double t = p.is2d() ? p.f2(q.x, q.y) : p.f(q.x);
            if (std::fabs(want - t) > 0.02 * std::fabs(t)) s.fail("evaluate-wrong", "table evaluates to %.17g where the tabulated function is %.17g at (%.6g,%.6g) (%s)", want, t, q.x, q.y, p.str().c_str());
        }
    }
}
DST_SCENARIO("P01", p01);
DST_SCENARIO("P02", p02);
DST_SCENARIO("P03", p03);
DST_SCENARIO("P04", p04);
} // namespace
