// Runner: each simulated run executes in its own forked child, so every run
// starts from the same fresh process state, and a crash or hang of the code
// under test is an outcome of that run.
#include "sim.h"
#include <algorithm>
#include <chrono>
#include <cstdlib>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <csignal>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include "PROPOSAL/Logging.h"

using namespace sim;

static std::map<std::string, std::vector<std::pair<ScenarioFn, int>>>& table()
{
    static std::map<std::string, std::vector<std::pair<ScenarioFn, int>>> t;
    return t;
}
Reg::Reg(const char* prop, ScenarioFn f, int w) { table()[prop].push_back({f, w}); }

static int cpu_limit = 60;
static std::string g_prop;

struct Outcome { int kind; /*1 ok 2 violation 3 crash 4 hang 5 harness*/ std::string key, msg, scenario; uint64_t hash, shape; };

static void child_body(uint64_t seed, const std::vector<uint64_t>* list)
{
    S.begin(seed, g_prop.c_str());
    S.replay = list != nullptr;
    if (list) { S.list = list->data(); S.nlist = (uint32_t)list->size(); }
    auto& v = table()[g_prop];
    int tot = 0; for (auto& p : v) tot += p.second;
    try {
        int k = (int)S.pick(tot); ScenarioFn f = v[0].first;
        for (auto& p : v) { if (k < p.second) { f = p.first; break; } k -= p.second; }
        f(S);
        S.sh->status = 1;
    } catch (Violation& e) {
        snprintf(S.sh->key, sizeof S.sh->key, "%s", e.key.c_str());
        snprintf(S.sh->msg, sizeof S.sh->msg, "%s", e.msg.c_str());
        S.sh->status = 2;
    } catch (std::exception& e) {
        snprintf(S.sh->key, sizeof S.sh->key, "unexpected-exception");
        snprintf(S.sh->msg, sizeof S.sh->msg, "an operation that must succeed threw: %s", e.what());
        S.sh->status = 2;
    } catch (...) {
        snprintf(S.sh->key, sizeof S.sh->key, "unexpected-exception");
        snprintf(S.sh->msg, sizeof S.sh->msg, "an operation that must succeed threw an unknown exception");
        S.sh->status = 2;
    }
    alloc_fault.armed = false; disk.active = false;
}

static void clean_scratch()              // the simulated disk starts empty
{
    DIR* d = opendir("."); if (!d) return;
    std::vector<std::string> v;
    while (struct dirent* e = readdir(d)) if (!strncmp(e->d_name, "dst_", 4)) v.push_back(e->d_name);
    closedir(d);
    for (auto& n : v) unlink(n.c_str());
}

static Outcome run_one(uint64_t seed, const std::vector<uint64_t>* list = nullptr)
{
    memset((void*)S.sh, 0, offsetof(Shared, log));
    S.sh->status = 0;
    fflush(stdout);
    clean_scratch();
    pid_t pid = fork();
    if (pid == 0) {
        if (!getenv("DST_STDERR")) {
            int fd = open("/dev/null", O_WRONLY), fe = open("stderr", O_WRONLY | O_CREAT | O_TRUNC, 0644);
            dup2(fe >= 0 ? fe : fd, 2); dup2(fd, 1);
        }
        struct itimerval it = {{0, 0}, {cpu_limit, 0}};
        setitimer(ITIMER_PROF, &it, nullptr);
        alarm(cpu_limit * 6);
        struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
        child_body(seed, list);
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    Outcome o;
    o.hash = S.sh->hash; o.shape = S.sh->shape; o.scenario = S.sh->scenario;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && S.sh->status == 1) { o.kind = 1; return o; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && S.sh->status == 2) { o.kind = 2; o.key = S.sh->key; o.msg = S.sh->msg; return o; }
    if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGPROF || WTERMSIG(st) == SIGALRM)) {
        o.kind = 4; o.key = std::string("hang:") + S.sh->scenario; o.msg = "no progress: the run used its whole CPU budget"; return o;
    }
    std::ostringstream m;
    if (WIFSIGNALED(st)) m << "the process died with signal " << WTERMSIG(st);
    else m << "the process aborted (memory error or failed runtime check), exit status " << WEXITSTATUS(st);
    std::string what = "", err = slurp("stderr");
    size_t p = err.find("ERROR: AddressSanitizer: ");
    if (p != std::string::npos) { what = err.substr(p + 25); what = what.substr(0, what.find_first_of(" \n(:")); }
    else if (err.find("Assertion") != std::string::npos) what = "assertion";
    else if (err.find("runtime error") != std::string::npos) what = "undefined-behaviour";
    if (!what.empty()) m << "; " << what;
    p = err.find("PROPOSAL");
    if (p != std::string::npos) { size_t b = err.rfind('\n', p), e = err.find('\n', p); m << "; " << err.substr(b + 1, std::min<size_t>(e - b - 1, 200)); }
    o.kind = 3; o.key = std::string("crash:") + S.sh->scenario + (what.empty() ? "" : ":" + what); o.msg = m.str();
    return o;
}

static std::string esc(const std::string& s)
{
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r;
}
static std::vector<uint64_t> choices_of() { return std::vector<uint64_t>(S.sh->choices, S.sh->choices + S.sh->nchoices); }

static bool same_failure(const Outcome& a, const Outcome& b) { return a.kind == b.kind && a.key == b.key; }

// Delta-debugging on the choice list: shorten, delete chunks, zero and shrink
// entries, keeping the same kind of failure with the same key.
static std::vector<uint64_t> minimise(uint64_t seed, std::vector<uint64_t> cur, const Outcome& ref, double budget_s)
{
    auto t0 = std::chrono::steady_clock::now();
    auto left = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < budget_s; };
    auto test = [&](const std::vector<uint64_t>& c) { Outcome o = run_one(seed, &c); return same_failure(o, ref); };
    bool progress = true;
    while (progress && left()) {
        progress = false;
        // drop the tail
        for (size_t keep = 0; keep < cur.size() && left(); keep = keep ? keep * 2 : 1) {
            std::vector<uint64_t> c(cur.begin(), cur.begin() + keep);
            if (test(c)) { cur = c; progress = true; break; }
        }
        for (size_t chunk = std::max<size_t>(1, cur.size() / 2); chunk >= 1 && left(); chunk /= 2) {
            for (size_t i = 0; i + chunk <= cur.size() && left();) {
                std::vector<uint64_t> c(cur); c.erase(c.begin() + i, c.begin() + i + chunk);
                if (test(c)) { cur = c; progress = true; continue; }
                bool allz = true; for (size_t j = i; j < i + chunk; ++j) allz &= cur[j] == 0;
                if (!allz) {
                    c = cur; for (size_t j = i; j < i + chunk; ++j) c[j] = 0;
                    if (test(c)) { cur = c; progress = true; }
                }
                i += chunk;
            }
            if (chunk == 1) break;
        }
        for (size_t i = 0; i < cur.size() && left(); ++i)
            while (cur[i] > 0 && left()) {
                std::vector<uint64_t> c(cur); c[i] /= 2;
                if (!test(c)) { if (cur[i] < 64 && cur[i] > 1) { c[i] = cur[i] - 1; if (test(c)) { cur = c; progress = true; continue; } } break; }
                cur = c; progress = true;
            }
    }
    while (!cur.empty() && cur.back() == 0) {
        std::vector<uint64_t> c(cur); c.pop_back();
        if (!test(c)) break; cur = c;
    }
    return cur;
}

static void write_replay(const std::string& path, uint64_t seed, const std::vector<uint64_t>& c, const Outcome& o, size_t before)
{
    std::ofstream f(path);
    f << "{\n \"property\": \"" << g_prop << "\",\n \"tier\": " << S.tier << ",\n \"seed\": " << seed << ",\n \"kind\": " << o.kind
      << ",\n \"scenario\": \"" << esc(o.scenario) << "\",\n \"key\": \"" << esc(o.key) << "\",\n \"message\": \"" << esc(o.msg)
      << "\",\n \"hash\": " << o.hash << ",\n \"choices_before_minimising\": " << before << ",\n \"choices\": [";
    for (size_t i = 0; i < c.size(); ++i) f << (i ? "," : "") << c[i];
    f << "],\n \"trace\": [\n";
    std::istringstream is(std::string(S.sh->log, S.sh->loglen)); std::string l; bool first = true;
    while (std::getline(is, l)) { f << (first ? "" : ",\n") << "  \"" << esc(l) << "\""; first = false; }
    f << "\n ]\n}\n";
}

static std::vector<uint64_t> read_choices(const std::string& path, uint64_t& seed, uint64_t& hash, int& kind, std::string& key)
{
    std::ifstream f(path); std::stringstream ss; ss << f.rdbuf(); std::string t = ss.str();
    auto num = [&](const char* k) { size_t p = t.find(std::string("\"") + k + "\":"); return p == std::string::npos ? 0ull : strtoull(t.c_str() + p + strlen(k) + 3, nullptr, 10); };
    seed = num("seed"); hash = num("hash"); kind = (int)num("kind"); S.tier = (int)num("tier");
    size_t p = t.find("\"key\": \""); if (p != std::string::npos) { p += 8; key = t.substr(p, t.find('"', p) - p); }
    std::vector<uint64_t> c; p = t.find("\"choices\": [");
    if (p != std::string::npos) {
        const char* q = t.c_str() + p + 12;
        while (*q && *q != ']') { char* e; c.push_back(strtoull(q, &e, 10)); if (e == q) break; q = e; while (*q == ',' || *q == ' ' || *q == '\n') ++q; }
    }
    return c;
}

int main(int argc, char** argv)
{
    int pers = personality(0xffffffff);
    if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("DST_REEXEC")) {
        if (personality(pers | ADDR_NO_RANDOMIZE) >= 0) { setenv("DST_REEXEC", "1", 1); execv("/proc/self/exe", argv); }
    }
    std::string replay, out, replay_out; uint64_t base = 1; long runs = 100, offset = 0, stride = 1; double max_s = 1e9, min_s = 0; bool dump = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i]; auto v = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--property") g_prop = v(); else if (a == "--seed") base = strtoull(v().c_str(), nullptr, 10);
        else if (a == "--runs") runs = atol(v().c_str()); else if (a == "--offset") offset = atol(v().c_str());
        else if (a == "--stride") stride = atol(v().c_str()); else if (a == "--max-seconds") max_s = atof(v().c_str());
        else if (a == "--min-seconds") min_s = atof(v().c_str());
        else if (a == "--replay") replay = v(); else if (a == "--out") out = v(); else if (a == "--replay-out") replay_out = v();
        else if (a == "--tier") S.tier = v() == "thorough"; else if (a == "--scratch") scratch = v();
        else if (a == "--suppress") S.suppressed.push_back(v()); else if (a == "--cpu") cpu_limit = atoi(v().c_str());
        else if (a == "--dump") dump = true; else if (a == "--list") { for (auto& p : table()) printf("%s\n", p.first.c_str()); return 0; }
    }
    if (!table().count(g_prop)) { fprintf(stderr, "no scenario for %s\n", g_prop.c_str()); return 3; }
    S.sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (scratch.empty()) { fprintf(stderr, "need --scratch\n"); return 3; }
    // absolute output paths, then work inside the scratch directory: the names the
    // code under test sees are the same in every process
    for (std::string* q : {&replay, &out, &replay_out}) if (!q->empty() && (*q)[0] != '/') { char b[4096]; if (getcwd(b, sizeof b)) *q = std::string(b) + "/" + *q; }
    if (chdir(scratch.c_str())) { perror("scratch"); return 3; }
    scratch = "./dst_";
    PROPOSAL::Logging::SetGlobalLoglevel(spdlog::level::off);

    if (!replay.empty()) {
        uint64_t seed, hash; int kind; std::string key;
        auto c = read_choices(replay, seed, hash, kind, key);
        Outcome o = run_one(seed, &c);
        bool same_hist = o.hash == hash, same_out = o.kind == kind && o.key == key;
        printf("replay: outcome kind=%d key=%s msg=%s history=%s\n", o.kind, o.key.c_str(), o.msg.c_str(), same_hist ? "identical" : "different");
        if (dump) fwrite(S.sh->log, 1, S.sh->loglen, stdout);
        return o.kind == 1 ? 0 : (same_hist && same_out ? 1 : 2);
    }

    std::map<std::string, uint64_t> cnt, scen, knownhits; std::set<uint64_t> shapes; std::set<uint64_t> nt_shapes;
    uint64_t done = 0, nontrivial = 0, steps = 0, detchk = 0, detbad = 0, choices = 0; double simtime = 0; std::string sample, vkey, vmsg;
    uint64_t vseed = 0; bool viol = false; std::string harness;
    auto t0 = std::chrono::steady_clock::now();
    auto el = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
    long i = offset;
    for (; (i < runs || el() < min_s) && el() < max_s; i += stride) {
        uint64_t seed = base * 1000003ull + (uint64_t)i;
        Outcome o = run_one(seed);
        ++done; steps += S.sh->steps; simtime += S.sh->simtime; choices += S.sh->nchoices; scen[o.scenario]++;
        for (uint32_t k = 0; k < S.sh->ncnt; ++k) cnt[S.sh->cnt[k].name] += S.sh->cnt[k].n;
        for (uint32_t k = 0; k < S.sh->nknown; ++k) knownhits[S.sh->known[k]]++;
        shapes.insert(o.shape);
        if (S.sh->nontrivial) { ++nontrivial; nt_shapes.insert(o.shape); }
        if (sample.empty() && S.sh->nontrivial) { sample = std::string(S.sh->log, std::min<size_t>(S.sh->loglen, 1500)); sample = "seed " + std::to_string(seed) + ":\n" + sample; }
        bool bad = o.kind != 1;
        if (!bad && (done % 16 == 1)) {               // determinism self-check
            uint64_t h = o.hash; Outcome o2 = run_one(seed); ++detchk;
            if (o2.hash != h || o2.kind != o.kind) {
                ++detbad; Outcome o3 = run_one(seed);
                o = o2; o.kind = 2; o.key = "nondeterminism"; bad = true; (void)o3;
                o.msg = "the same seed, schedule and faults produced two different histories";
                vkey = o.key; vmsg = o.msg; vseed = seed; viol = true;
                if (!replay_out.empty()) write_replay(replay_out, seed, choices_of(), o, S.sh->nchoices);
                break;
            }
        }
        if (!bad) continue;
        auto list = choices_of(); size_t before = list.size();
        Outcome r1 = run_one(seed), r2 = run_one(seed, &list);
        bool replayable = same_failure(r1, o) && same_failure(r2, o);
        std::vector<uint64_t> mn = list;
        if (replayable) {
            if (o.kind == 4) cpu_limit = std::max(5, cpu_limit / 4);
            mn = minimise(seed, list, o, o.kind == 4 ? 60 : 40);
            Outcome f = run_one(seed, &mn); if (same_failure(f, o)) o = f;
        } else { o.msg += " (not reproduced by an immediate re-run: r1=" + r1.key + " r2=" + r2.key + ")"; harness = "unreproducible"; }
        vkey = o.key; vmsg = o.msg; vseed = seed; viol = true;
        if (!replay_out.empty()) write_replay(replay_out, seed, mn, o, before);
        break;
    }
    std::ofstream f(out.empty() ? "/dev/stdout" : out);
    f << "{\"runs\":" << done << ",\"nontrivial\":" << nontrivial << ",\"shapes\":[";
    { bool first = true; for (auto s : nt_shapes) { f << (first ? "" : ",") << "\"" << std::hex << s << std::dec << "\""; first = false; } }
    f << "],\"all_shapes\":" << shapes.size() << ",\"steps\":" << steps << ",\"choices\":" << choices << ",\"simtime\":" << simtime
      << ",\"determinism_checks\":" << detchk << ",\"determinism_failures\":" << detbad << ",\"wall_s\":" << el() << ",\"counters\":{";
    { bool first = true; for (auto& p : cnt) { f << (first ? "" : ",") << "\"" << esc(p.first) << "\":" << p.second; first = false; } }
    f << "},\"scenarios\":{";
    { bool first = true; for (auto& p : scen) { f << (first ? "" : ",") << "\"" << esc(p.first) << "\":" << p.second; first = false; } }
    f << "},\"known\":{";
    { bool first = true; for (auto& p : knownhits) { f << (first ? "" : ",") << "\"" << esc(p.first) << "\":" << p.second; first = false; } }
    f << "},\"sample\":\"" << esc(sample) << "\",\"violation\":" << (viol ? "true" : "false") << ",\"key\":\"" << esc(vkey) << "\",\"msg\":\"" << esc(vmsg)
      << "\",\"vseed\":" << vseed << ",\"harness\":\"" << harness << "\"}\n";
    return viol ? 1 : 0;
}
