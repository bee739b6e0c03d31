#include "sim.h"
#include <cmath>
#include <cstdlib>
#include <cerrno>
#include <dlfcn.h>
#include <fcntl.h>
#include <new>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

namespace sim {
Sim S;
AllocFault alloc_fault;
DiskPlan disk;
std::string scratch;

void Sim::begin(uint64_t s, const char* prop)
{
    seed = s; pos = 0;
    uint64_t h = 1469598103934665603ull;
    for (const char* p = prop; *p; ++p) h = (h ^ (unsigned char)*p) * 1099511628211ull;
    Prng p(s * 2654435761ull + h);
    st[0] = p.next(); st[1] = p.next() | 1;
    memset((void*)sh, 0, offsetof(Shared, log));
    sh->hash = h; sh->shape = h;
}
uint64_t Sim::next()
{   // xorshift128+
    uint64_t a = st[0], b = st[1]; st[0] = b; a ^= a << 23;
    st[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
    return st[1] + b;
}
uint64_t Sim::pick(uint64_t n)
{
    if (n == 0) n = 1;
    uint64_t r;
    if (replay) r = pos < nlist ? list[pos] % n : 0;
    else r = next() % n;
    ++pos;
    if (sh->nchoices < MAXC) sh->choices[sh->nchoices++] = r;
    return r;
}
double Sim::loguniform(double a, double b) { return a * std::exp(std::log(b / a) * unit()); }

void Sim::vlog(bool shape, bool hash, const char* fmt, va_list ap)
{
    char buf[1024];
    int n = vsnprintf(buf, sizeof buf, fmt, ap);
    if (n < 0) return;
    if (n >= (int)sizeof buf) n = sizeof buf - 1;
    if (hash || shape) {
        uint64_t h = 1469598103934665603ull;
        for (int i = 0; i < n; ++i) h = (h ^ (unsigned char)buf[i]) * 1099511628211ull;
        if (hash) sh->hash = mix(sh->hash, h);
        if (shape) sh->shape = mix(sh->shape, h);
    }
    if (verbose && sh->loglen + n + 2 < MAXLOG) {
        memcpy(sh->log + sh->loglen, buf, n);
        sh->log[sh->loglen + n] = '\n';
        sh->loglen += n + 1;
    }
}
void Sim::op(const char* fmt, ...) { va_list ap; va_start(ap, fmt); vlog(true, true, fmt, ap); va_end(ap); ++sh->steps; }
void Sim::log(const char* fmt, ...) { va_list ap; va_start(ap, fmt); vlog(false, true, fmt, ap); va_end(ap); }
void Sim::note(const char* fmt, ...) { va_list ap; va_start(ap, fmt); vlog(false, false, fmt, ap); va_end(ap); }
void Sim::val(double x) { sh->hash = mix(sh->hash, x != x ? 0x7ff8ull : bits(x)); }
void Sim::val(uint64_t x) { sh->hash = mix(sh->hash, x); }
void Sim::count(const char* name, uint64_t n)
{
    for (uint32_t i = 0; i < sh->ncnt; ++i)
        if (!strncmp(sh->cnt[i].name, name, sizeof sh->cnt[i].name - 1)) { sh->cnt[i].n += n; return; }
    if (sh->ncnt < MAXCNT) {
        snprintf(sh->cnt[sh->ncnt].name, sizeof sh->cnt[0].name, "%s", name);
        sh->cnt[sh->ncnt++].n = n;
    }
}
void Sim::fault(const char* kind)
{
    char b[64]; snprintf(b, sizeof b, "fault.%s", kind);
    count(b); op("FAULT %s", kind);
}
void Sim::fail(const std::string& key, const char* fmt, ...)
{
    char b[1800]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    throw Violation{key, b};
}
void Sim::fail_known(const std::string& key, const char* fmt, ...)
{
    char b[1800]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    for (auto& k : suppressed)
        if (k == key) {
            for (uint32_t i = 0; i < sh->nknown; ++i) if (key == sh->known[i]) return;
            if (sh->nknown < 16) snprintf(sh->known[sh->nknown++], 128, "%s", key.c_str());
            log("known finding %s: %s", key.c_str(), b);
            return;
        }
    throw Violation{key, b};
}

std::string slurp(const std::string& path)
{
    std::string r; int fd = (int)syscall(SYS_openat, AT_FDCWD, path.c_str(), O_RDONLY);
    if (fd < 0) return r;
    char buf[65536]; long n;
    while ((n = syscall(SYS_read, fd, buf, sizeof buf)) > 0) r.append(buf, n);
    syscall(SYS_close, fd); return r;
}
void spew(const std::string& path, const std::string& data)
{
    int fd = (int)syscall(SYS_openat, AT_FDCWD, path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd < 0) return;
    size_t off = 0;
    while (off < data.size()) { long n = syscall(SYS_write, fd, data.data() + off, data.size() - off); if (n <= 0) break; off += n; }
    syscall(SYS_close, fd);
}
bool exists(const std::string& path) { struct stat s; return stat(path.c_str(), &s) == 0; }
void unlink_scratch(const std::string& path)
{
    if (!scratch.empty() && path.compare(0, scratch.size(), scratch) == 0) ::unlink(path.c_str());
}
} // namespace sim

// ------------------------------------------------------------------ seams
// The simulated disk and allocator replace the C library entry points that the
// C++ runtime uses (the library under test is not modified).  They are inert
// unless a plan is active, and only ever touch descriptors of scratch files.
using namespace sim;
static bool tracked[1024];
static bool in_scratch(const char* p) { return !scratch.empty() && p && !strncmp(p, scratch.c_str(), scratch.size()); }
template <class F> static F real(const char* name, F) { return (F)dlsym(RTLD_NEXT, name); }

static FILE* open_hook(const char* name, const char* path, const char* mode)
{
    static FILE* (*r64)(const char*, const char*) = real("fopen64", r64);
    static FILE* (*r)(const char*, const char*) = real("fopen", r);
    bool mine = disk.active && in_scratch(path);
    if (mine && disk.open_fail_at >= 0 && disk.opens++ == disk.open_fail_at) {
        disk.fired_open++; errno = EMFILE; return nullptr;
    }
    FILE* f = (name[5] ? r64 : r)(path, mode);
    if (f) { int fd = fileno(f); if (fd >= 0 && fd < 1024) tracked[fd] = mine; }
    return f;
}
extern "C" FILE* fopen64(const char* path, const char* mode) { return open_hook("fopen64", path, mode); }
extern "C" FILE* fopen(const char* path, const char* mode) { return open_hook("fopen", path, mode); }

static bool mine(int fd) { return disk.active && fd >= 0 && fd < 1024 && tracked[fd]; }
static long raw_write(int fd, const void* b, size_t n) { return syscall(SYS_write, fd, b, n); }

static ssize_t hook_write(int fd, const char* b, size_t n)
{
    S.step();
    if (disk.eintr_writes) { static bool t; t = !t; if (t) { disk.fired_eintr++; errno = EINTR; return -1; } }
    if (n == 0) return 0;
    size_t want = n;
    if (disk.write_budget >= 0) {
        long left = disk.write_budget - disk.wrote;
        if (left <= 0) { disk.fired_write++; errno = disk.write_err; return -1; }
        if ((size_t)left < want) want = left;
    }
    if (disk.short_writes && want > 1) {
        disk.rng = disk.rng * 6364136223846793005ull + 1442695040888963407ull;
        size_t m = 1 + (disk.rng >> 33) % want; if (m < want) { disk.fired_short++; want = m; }
    }
    long r = raw_write(fd, b, want);
    if (r > 0) disk.wrote += r;
    return r;
}
extern "C" ssize_t write(int fd, const void* b, size_t n)
{
    if (mine(fd)) return hook_write(fd, (const char*)b, n);
    return raw_write(fd, b, n);
}
extern "C" ssize_t writev(int fd, const struct iovec* v, int cnt)
{
    if (!mine(fd)) return syscall(SYS_writev, fd, v, cnt);
    std::string all;
    long saved_count = alloc_fault.armed; alloc_fault.armed = false;
    for (int i = 0; i < cnt; ++i) all.append((const char*)v[i].iov_base, v[i].iov_len);
    ssize_t r = hook_write(fd, all.data(), all.size());
    alloc_fault.armed = saved_count;
    return r;
}
extern "C" ssize_t read(int fd, void* b, size_t n)
{
    if (!mine(fd)) return syscall(SYS_read, fd, b, n);
    S.step();
    if (disk.eintr_reads) { static bool t; t = !t; if (t) { disk.fired_eintr++; errno = EINTR; return -1; } }
    size_t want = n;
    if (disk.read_budget >= 0) {
        long left = disk.read_budget - disk.nread;
        if (left <= 0) { disk.fired_read++; errno = EIO; return -1; }
        if ((size_t)left < want) want = left;
    }
    if (disk.short_reads && want > 1) {
        disk.rng = disk.rng * 6364136223846793005ull + 1442695040888963407ull;
        size_t m = 1 + (disk.rng >> 33) % want; if (m < want) { disk.fired_short++; want = m; }
    }
    long r = syscall(SYS_read, fd, b, want);
    if (r > 0) disk.nread += r;
    return r;
}
extern "C" int fclose(FILE* f)
{
    static int (*r)(FILE*) = real("fclose", r);
    int fd = f ? fileno(f) : -1;
    bool m = mine(fd);
    if (fd >= 0 && fd < 1024) tracked[fd] = false;
    int rc = r(f);
    if (m) { disk.closes++; if (disk.close_fails) { disk.fired_close++; errno = EIO; return EOF; } }
    return rc;
}

static void* alloc(size_t n)
{
    if (alloc_fault.armed) {
        alloc_fault.seen++;
        if (alloc_fault.countdown >= 0 && alloc_fault.countdown-- == 0) { alloc_fault.fired = true; throw std::bad_alloc(); }
    }
    void* p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new(size_t n) { return alloc(n); }
void* operator new[](size_t n) { return alloc(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
