#include "engine.hpp"

#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <new>
#include <set>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

// ---------------------------------------------------------------------------------------------
// sanitizer defaults

extern "C" __attribute__((used, visibility("default"), no_sanitize("address"))) const char*
__asan_default_options()
{
    return "detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1:"
           "quarantine_size_mb=16:detect_stack_use_after_return=0:handle_abort=1:"
           "print_summary=1:symbolize=1:fast_unwind_on_malloc=1:malloc_context_size=5:"
           "max_allocation_size_mb=2048";
}
extern "C" __attribute__((used, visibility("default"))) const char* __ubsan_default_options()
{
    return "print_stacktrace=1:halt_on_error=1";
}

// ---------------------------------------------------------------------------------------------
// coverage feedback (-fsanitize-coverage=trace-pc on the library's objects only)

namespace {
constexpr std::size_t map_size = 1u << 16;
alignas(64) unsigned char cov_map[map_size];
thread_local std::uintptr_t cov_prev;
bool cov_on = false;
} // namespace
namespace vp {
thread_local std::uint64_t steps = 0;
}

// Searching through std::string_view::find ends up in memchr, which executes no instrumented block.
extern "C" void* __real_memchr(const void*, int, std::size_t);
extern "C" void* __wrap_memchr(const void* p, int x, std::size_t n)
{
    void* const r = __real_memchr(p, x, n);
    vp::steps += r ? std::size_t(static_cast<const char*>(r) - static_cast<const char*>(p)) : n;
    return r;
}

extern "C" __attribute__((no_sanitize("address", "undefined"))) void __sanitizer_cov_trace_pc()
{
    ++vp::steps;
    if (!cov_on) {
        return;
    }
    const auto pc = reinterpret_cast<std::uintptr_t>(__builtin_return_address(0));
    const std::uintptr_t cur = (pc ^ (pc >> 13)) * 0x9E3779B1u;
    const std::size_t i = ((cur >> 8) ^ cov_prev) & (map_size - 1);
    if (cov_map[i] != 255) {
        ++cov_map[i];
    }
    cov_prev = (cur >> 9) & (map_size - 1);
}

// ---------------------------------------------------------------------------------------------
// allocation accounting and fault injection

namespace vp {
std::int64_t Alloc::live = 0;
std::uint64_t Alloc::count = 0;
std::int64_t Alloc::fail_after = -1;
bool Alloc::failed = false;
} // namespace vp

namespace {
void* do_alloc(std::size_t n, std::size_t align)
{
    using vp::Alloc;
    if (Alloc::fail_after >= 0) {
        if (Alloc::fail_after-- == 0) {
            Alloc::failed = true;
            Alloc::fail_after = -1;
            return nullptr;
        }
    }
    void* p;
    if (align <= alignof(std::max_align_t)) {
        p = std::malloc(n ? n : 1);
    }
    else if (::posix_memalign(&p, align, n ? n : 1) != 0) {
        p = nullptr;
    }
    if (p) {
        __atomic_add_fetch(&Alloc::live, 1, __ATOMIC_RELAXED);
        __atomic_add_fetch(&Alloc::count, 1, __ATOMIC_RELAXED);
    }
    return p;
}
void do_free(void* p)
{
    if (p) {
        __atomic_sub_fetch(&vp::Alloc::live, 1, __ATOMIC_RELAXED);
        std::free(p);
    }
}
void* throwing(void* p)
{
    if (!p) {
        throw std::bad_alloc {};
    }
    return p;
}
} // namespace

void* operator new(std::size_t n) { return throwing(do_alloc(n, 1)); }
void* operator new[](std::size_t n) { return throwing(do_alloc(n, 1)); }
void* operator new(std::size_t n, std::align_val_t a) { return throwing(do_alloc(n, std::size_t(a))); }
void* operator new[](std::size_t n, std::align_val_t a) { return throwing(do_alloc(n, std::size_t(a))); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return do_alloc(n, 1); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return do_alloc(n, 1); }
void* operator new(std::size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return do_alloc(n, std::size_t(a)); }
void* operator new[](std::size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return do_alloc(n, std::size_t(a)); }
void operator delete(void* p) noexcept { do_free(p); }
void operator delete[](void* p) noexcept { do_free(p); }
void operator delete(void* p, std::size_t) noexcept { do_free(p); }
void operator delete[](void* p, std::size_t) noexcept { do_free(p); }
void operator delete(void* p, std::align_val_t) noexcept { do_free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { do_free(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { do_free(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { do_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { do_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { do_free(p); }
void operator delete(void* p, std::align_val_t, const std::nothrow_t&) noexcept { do_free(p); }
void operator delete[](void* p, std::align_val_t, const std::nothrow_t&) noexcept { do_free(p); }

// ---------------------------------------------------------------------------------------------

namespace vp {

std::uint64_t mix(std::uint64_t a, std::uint64_t b)
{
    std::uint64_t z = a + 0x9E3779B97F4A7C15ull * (b + 1);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

std::uint64_t hash_bytes(std::string_view s, std::uint64_t seed)
{
    std::uint64_t h = 0xcbf29ce484222325ull ^ mix(seed, 7);
    for (unsigned char c : s) {
        h = (h ^ c) * 0x100000001b3ull;
    }
    return mix(h, s.size());
}

Rng::Rng(std::uint64_t seed)
{
    for (int i = 0; i < 4; ++i) {
        s[i] = mix(seed, std::uint64_t(i) + 11);
    }
}
std::uint64_t Rng::next()
{
    const auto rotl = [](std::uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
    const std::uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0];
    s[3] ^= s[1];
    s[1] ^= s[2];
    s[0] ^= s[3];
    s[2] ^= t;
    s[3] = rotl(s[3], 45);
    return r;
}

Src::Src(const std::vector<std::uint32_t>* prefix, Rng* rng, std::uint32_t* record, std::uint32_t* n)
    : m_prefix { prefix }, m_rng { rng }, m_record { record }, m_n { n }
{
    *m_n = 0;
}

std::uint32_t Src::below(std::uint64_t n)
{
    std::uint64_t v = 0;
    if (m_prefix && m_pos < m_prefix->size()) {
        v = (*m_prefix)[m_pos++];
        if (v >= n) {
            v %= n;
        }
    }
    else if (m_rng) {
        v = n <= 1 ? 0 : std::uint64_t((__uint128_t(m_rng->next()) * n) >> 64);
    }
    if (*m_n < max_choices) {
        m_record[(*m_n)++] = std::uint32_t(v);
    }
    else {
        v = 0; // a runaway generator falls back to the simplest choices
    }
    return std::uint32_t(v);
}

std::size_t Src::size(std::size_t max)
{
    // 0 -> tiny, 1 -> small, 2 -> medium, 3 -> anything
    static constexpr std::size_t caps[] { 3, 8, 24, std::size_t(-1) };
    const std::size_t cap = std::min(max, caps[below(4)]);
    return below(cap + 1);
}

std::size_t Src::weighted(std::initializer_list<unsigned> w)
{
    unsigned total = 0;
    for (unsigned x : w) {
        total += x;
    }
    unsigned v = below(total);
    std::size_t i = 0;
    for (unsigned x : w) {
        if (v < x) {
            return i;
        }
        v -= x;
        ++i;
    }
    return 0;
}

std::string quote(std::string_view s)
{
    std::string o = "\"";
    char buf[8];
    for (unsigned char c : s) {
        switch (c) {
        case '\n': o += "\\n"; break;
        case '\r': o += "\\r"; break;
        case '\t': o += "\\t"; break;
        case '"': o += "\\\""; break;
        case '\\': o += "\\\\"; break;
        default:
            if (c < 0x20 || c >= 0x7f) {
                std::snprintf(buf, sizeof buf, "\\x%02X", c);
                o += buf;
            }
            else {
                o += char(c);
            }
        }
    }
    return o + "\"";
}

void fail(std::string tag, std::string msg)
{
    throw Failure { std::move(tag), std::move(msg) };
}

const std::string& verif_dir()
{
    static const std::string d = [] {
        const char* e = std::getenv("VP_DIR");
        return std::string(e ? e : "/verif");
    }();
    return d;
}

struct Stats {
    std::uint64_t evals = 0;
    std::map<std::string, std::uint64_t, std::less<>> classes;
    std::map<std::string, std::uint64_t, std::less<>> known;
    std::map<std::string, std::string, std::less<>> known_sample;
    std::unordered_set<std::uint64_t> hashes;
    std::uint64_t nontrivial_overflow = 0;
    std::vector<std::string> samples;
    std::uint64_t corpus = 0;
};

void publish_desc(std::string_view);

void Ctx::cls(std::string_view name)
{
    if (!st) {
        return;
    }
    if (auto it = st->classes.find(name); it != st->classes.end()) {
        ++it->second;
    }
    else {
        st->classes.emplace(name, 1);
    }
}

void Ctx::describe(std::string s)
{
    desc = std::move(s);
    publish_desc(desc);
}

void Ctx::known(std::string_view f)
{
    if (!st) {
        return;
    }
    if (auto it = st->known.find(f); it != st->known.end()) {
        ++it->second;
    }
    else {
        st->known.emplace(f, 1);
        st->known_sample.emplace(f, desc.substr(0, 300));
    }
}

void Ctx::nontrivial(std::uint64_t h)
{
    is_nontrivial = true;
    if (!st) {
        return;
    }
    if (st->hashes.size() < 3'000'000) {
        st->hashes.insert(h);
    }
}

namespace {

std::vector<Prop>& props()
{
    static std::vector<Prop> v;
    return v;
}

struct Shared {
    volatile std::uint64_t case_index;
    volatile std::uint32_t is_enum;
    volatile std::uint64_t enum_index;
    std::uint32_t desc_len;
    char desc[4096];
    std::uint32_t n;
    std::uint32_t choices[max_choices];
};

Shared* desc_shared;

Shared* make_shared()
{
    void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) {
        std::perror("mmap");
        std::exit(2);
    }
    return static_cast<Shared*>(p);
}

} // namespace

/// Keeps the description where the parent finds it if the process dies.
void publish_desc(std::string_view d)
{
    if (desc_shared) {
        desc_shared->desc_len = 0;
        std::memcpy(desc_shared->desc, d.data(), std::min(d.size(), sizeof desc_shared->desc));
        desc_shared->desc_len = std::uint32_t(std::min(d.size(), sizeof desc_shared->desc));
    }
}

namespace {

// CPU-time watchdog: a case that burns more than `hang_ticks` seconds of CPU is a hang.
Shared* wd_shared;
std::uint64_t wd_last = ~0ull;
int wd_count;
int hang_ticks = 40;
void on_prof(int)
{
    if (wd_shared->case_index == wd_last) {
        if (++wd_count >= hang_ticks) {
            static const char m[] = "VP: HANG: one case used more CPU time than the watchdog allows\n";
            (void)!write(2, m, sizeof m - 1);
            _exit(77);
        }
    }
    else {
        wd_last = wd_shared->case_index;
        wd_count = 0;
    }
}
void start_watchdog(Shared* sh)
{
    wd_shared = sh;
    desc_shared = sh;
    wd_last = ~0ull;
    wd_count = 0;
    struct sigaction sa {};
    sa.sa_handler = on_prof;
    sa.sa_flags = SA_RESTART;
    sigaction(SIGPROF, &sa, nullptr);
    itimerval tv { { 1, 0 }, { 1, 0 } };
    setitimer(ITIMER_PROF, &tv, nullptr);
}

double cpu_s()
{
    timespec t;
    clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
    return double(t.tv_sec) + 1e-9 * double(t.tv_nsec);
}
double wall()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return double(t.tv_sec) + 1e-9 * double(t.tv_nsec);
}

struct Verdict {
    char kind = 'P'; // P pass, F failure, C crash/hang
    std::string tag, msg, desc;
    std::vector<std::uint32_t> used;
};

Verdict run_one(const Prop& p, Src& src, Ctx& ctx)
{
    Verdict v;
    Alloc::fail_after = -1;
    try {
        p.fn(src, ctx);
    } catch (Failure& f) {
        v.kind = 'F';
        v.tag = f.tag;
        v.msg = f.msg;
        v.desc = ctx.desc;
    } catch (std::exception& e) {
        v.kind = 'F';
        v.tag = "unexpected-exception";
        v.msg = e.what();
        v.desc = ctx.desc;
    } catch (...) {
        v.kind = 'F';
        v.tag = "unexpected-exception";
        v.msg = "an exception of a non-standard type escaped (an assertion of the library?)";
        v.desc = ctx.desc;
    }
    Alloc::fail_after = -1;
    return v;
}

void put_str(std::string& o, const std::string& s)
{
    std::uint32_t n = std::uint32_t(s.size());
    o.append(reinterpret_cast<char*>(&n), 4);
    o += s;
}
std::string get_str(const std::string& b, std::size_t& i)
{
    std::uint32_t n = 0;
    if (i + 4 > b.size()) {
        return {};
    }
    std::memcpy(&n, b.data() + i, 4);
    i += 4;
    std::string s = b.substr(std::min(i, b.size()), n);
    i += n;
    return s;
}
bool write_all(int fd, const void* p, std::size_t n)
{
    const char* c = static_cast<const char*>(p);
    while (n) {
        const ssize_t k = ::write(fd, c, n);
        if (k <= 0) {
            return false;
        }
        c += k;
        n -= std::size_t(k);
    }
    return true;
}
bool read_all(int fd, void* p, std::size_t n)
{
    char* c = static_cast<char*>(p);
    while (n) {
        const ssize_t k = ::read(fd, c, n);
        if (k <= 0) {
            return false;
        }
        c += k;
        n -= std::size_t(k);
    }
    return true;
}

std::string slurp(const std::string& path)
{
    std::ifstream f(path, std::ios::binary);
    std::stringstream ss;
    ss << f.rdbuf();
    return ss.str();
}

/// A child process that executes candidate choice sequences; survives the child's crashes.
class Executor {
public:
    Executor(const Prop& p, std::string tmp, bool is_enum = false) : p { p }, tmp { std::move(tmp) }, is_enum { is_enum }
    {
        sh = make_shared();
    }
    ~Executor()
    {
        stop();
        munmap(sh, sizeof(Shared));
    }
    Verdict run(const std::vector<std::uint32_t>& c)
    {
        if (pid <= 0) {
            start();
        }
        std::uint32_t n = std::uint32_t(c.size());
        if (!write_all(to, &n, 4) || !write_all(to, c.data(), n * 4)) {
            return died();
        }
        std::uint32_t len;
        if (!read_all(from, &len, 4)) {
            return died();
        }
        std::string b(len, 0);
        if (!read_all(from, b.data(), len)) {
            return died();
        }
        Verdict v;
        v.kind = b[0];
        std::size_t i = 1;
        v.tag = get_str(b, i);
        v.msg = get_str(b, i);
        v.desc = get_str(b, i);
        const std::string u = get_str(b, i);
        v.used.resize(u.size() / 4);
        if (!v.used.empty()) {
                std::memcpy(v.used.data(), u.data(), v.used.size() * 4);
            }
        return v;
    }
    void stop()
    {
        if (pid > 0) {
            close(to);
            close(from);
            kill(pid, SIGKILL);
            int st;
            waitpid(pid, &st, 0);
            pid = -1;
        }
    }

private:
    const Prop& p;
    std::string tmp;
    bool is_enum;
    Shared* sh;
    pid_t pid = -1;
    int to = -1, from = -1;

    void start()
    {
        int a[2], b[2];
        if (pipe(a) || pipe(b)) {
            std::perror("pipe");
            std::exit(2);
        }
        std::fflush(nullptr);
        pid = fork();
        if (pid == 0) {
            close(a[1]);
            close(b[0]);
            const int e = open((tmp + "/exec.err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
            dup2(e, 2);
            start_watchdog(sh);
            hang_ticks = 12;
            std::uint64_t k = 0;
            for (;;) {
                std::uint32_t n;
                if (!read_all(a[0], &n, 4)) {
                    _exit(0);
                }
                std::vector<std::uint32_t> c(n);
                if (!read_all(a[0], c.data(), n * 4)) {
                    _exit(0);
                }
                sh->case_index = ++k;
                Ctx ctx { nullptr };
                sh->n = 0;
                sh->desc_len = 0;
                Verdict v;
                if (is_enum) {
                    Alloc::fail_after = -1;
                    try {
                        p.enum_fn((std::uint64_t(c.at(0)) << 32) | c.at(1), ctx);
                    } catch (Failure& f) {
                        v.kind = 'F';
                        v.tag = f.tag;
                        v.msg = f.msg;
                        v.desc = ctx.desc;
                    } catch (...) {
                        v.kind = 'F';
                        v.tag = "unexpected-exception";
                        v.desc = ctx.desc;
                    }
                }
                else {
                    Src src { &c, nullptr, sh->choices, &sh->n };
                    v = run_one(p, src, ctx);
                }
                std::string o(1, v.kind);
                put_str(o, v.tag);
                put_str(o, v.msg);
                put_str(o, ctx.desc);
                put_str(o, std::string(reinterpret_cast<char*>(sh->choices), sh->n * 4));
                std::uint32_t len = std::uint32_t(o.size());
                if (!write_all(b[1], &len, 4) || !write_all(b[1], o.data(), len)) {
                    _exit(0);
                }
            }
        }
        close(a[0]);
        close(b[1]);
        to = a[1];
        from = b[0];
    }
    Verdict died()
    {
        int st = 0;
        close(to);
        close(from);
        waitpid(pid, &st, 0);
        pid = -1;
        Verdict v;
        v.kind = 'C';
        v.desc.assign(sh->desc, std::min<std::size_t>(sh->desc_len, sizeof sh->desc));
        std::string err = slurp(tmp + "/exec.err");
        v.tag = "crash";
        if (WIFEXITED(st) && WEXITSTATUS(st) == 77) {
            v.tag = "hang";
        }
        v.msg = cat(WIFSIGNALED(st) ? "signal " : "exit ", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st), "; ")
            + err.substr(0, 3000);
        v.used.assign(sh->choices, sh->choices + std::min<std::uint32_t>(sh->n, max_choices));
        return v;
    }
};

bool same(const Verdict& a, const Verdict& b) { return a.kind == b.kind && a.tag == b.tag; }

Verdict shrink(Executor& ex, Verdict best, unsigned budget, double wall_budget, unsigned& used)
{
    const double t0 = wall();
    used = 0;
    const auto attempt = [&](const std::vector<std::uint32_t>& c) {
        if (used >= budget || wall() - t0 > wall_budget) {
            return false;
        }
        ++used;
        Verdict v = ex.run(c);
        if (!same(v, best)) {
            return false;
        }
        // canonicalise: what was actually consumed
        if (v.used.empty() || v.used.size() > c.size()) {
            v.used = c;
        }
        while (!v.used.empty() && v.used.back() == 0) {
            v.used.pop_back();
        }
        const bool better = v.used.size() < best.used.size()
            || (v.used.size() == best.used.size() && v.used < best.used);
        if (better) {
            best = std::move(v);
        }
        return better;
    };
    bool progress = true;
    while (progress && used < budget && wall() - t0 <= wall_budget) {
        progress = false;
        for (std::size_t block = std::max<std::size_t>(best.used.size() / 2, 1); block >= 1; block /= 2) {
            for (std::size_t i = 0; i + block <= best.used.size();) {
                auto c = best.used;
                c.erase(c.begin() + std::ptrdiff_t(i), c.begin() + std::ptrdiff_t(i + block));
                if (attempt(c)) {
                    progress = true;
                }
                else {
                    i += block > 4 ? block / 2 : 1;
                }
                if (used >= budget) {
                    break;
                }
            }
            if (block == 1) {
                break;
            }
        }
        for (std::size_t i = 0; i < best.used.size(); ++i) {
            if (best.used[i] == 0) {
                continue;
            }
            auto c = best.used;
            c[i] = 0;
            if (attempt(c)) {
                progress = true;
                continue;
            }
            // delete one and decrement a previous (size-like) choice
            for (std::size_t back = 1; back <= 3 && back <= i; ++back) {
                if (i >= best.used.size() || best.used[i - back] == 0) {
                    continue;
                }
                c = best.used;
                c[i - back] -= 1;
                c.erase(c.begin() + std::ptrdiff_t(i));
                if (attempt(c)) {
                    progress = true;
                    break;
                }
            }
            if (i >= best.used.size()) {
                break;
            }
            std::uint32_t lo = 0, hi = best.used[i];
            while (lo + 1 < hi) {
                const std::uint32_t mid = lo + (hi - lo) / 2;
                c = best.used;
                if (i >= c.size()) {
                    break;
                }
                c[i] = mid;
                if (attempt(c)) {
                    progress = true;
                    hi = mid;
                    if (i >= best.used.size()) {
                        break;
                    }
                }
                else {
                    lo = mid;
                }
            }
        }
    }
    return best;
}

void mutate(std::vector<std::uint32_t>& c, const std::vector<std::vector<std::uint32_t>>& corpus, Rng& r)
{
    const auto below = [&](std::uint64_t n) { return std::size_t(n ? r.next() % n : 0); };
    std::size_t k = 1 + below(below(3) ? 3 : 10);
    while (k--) {
        const std::size_t n = c.size();
        switch (below(10)) {
        case 0:
        case 1:
            if (n) {
                c[below(n)] = std::uint32_t(r.next() >> (32 + below(32)));
            }
            break;
        case 2:
            if (n) {
                auto& v = c[below(n)];
                v = below(2) ? v + 1 : (v ? v - 1 : 0);
            }
            break;
        case 3: // delete a block
            if (n) {
                const std::size_t i = below(n), l = std::min<std::size_t>(1 + below(8), n - i);
                c.erase(c.begin() + std::ptrdiff_t(i), c.begin() + std::ptrdiff_t(i + l));
            }
            break;
        case 4: { // insert random values
            const std::size_t i = below(n + 1), l = 1 + below(6);
            std::vector<std::uint32_t> x(l);
            for (auto& v : x) {
                v = std::uint32_t(r.next() >> (32 + below(32)));
            }
            c.insert(c.begin() + std::ptrdiff_t(i), x.begin(), x.end());
            break;
        }
        case 5: // duplicate a block elsewhere
            if (n && n < 20000) {
                const std::size_t i = below(n), l = std::min<std::size_t>(1 + below(24), n - i);
                std::vector<std::uint32_t> x(c.begin() + std::ptrdiff_t(i), c.begin() + std::ptrdiff_t(i + l));
                const std::size_t j = below(n + 1);
                c.insert(c.begin() + std::ptrdiff_t(j), x.begin(), x.end());
            }
            break;
        case 6: // truncate: the rest becomes fresh
            c.resize(below(n + 1));
            break;
        case 7:
        case 8: { // splice with another
            if (corpus.empty()) {
                break;
            }
            const auto& o = corpus[below(corpus.size())];
            if (o.empty()) {
                break;
            }
            const std::size_t i = below(n + 1), j = below(o.size());
            if (below(2)) {
                c.resize(i);
                c.insert(c.end(), o.begin() + std::ptrdiff_t(j), o.end());
            }
            else {
                const std::size_t l = std::min<std::size_t>(1 + below(32), o.size() - j);
                c.insert(c.begin() + std::ptrdiff_t(i), o.begin() + std::ptrdiff_t(j), o.begin() + std::ptrdiff_t(j + l));
            }
            break;
        }
        case 9: // copy one value over another
            if (n) {
                c[below(n)] = c[below(n)];
            }
            break;
        }
    }
    if (c.size() > 60000) {
        c.resize(60000);
    }
}

unsigned char bucket(unsigned char x)
{
    return x == 0 ? 0 : x == 1 ? 1 : x == 2 ? 2 : x == 3 ? 4 : x < 8 ? 8 : x < 16 ? 16 : x < 32 ? 32 : x < 128 ? 64 : 128;
}

std::string json_str(std::string_view s)
{
    std::string o = "\"";
    char buf[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += char(c);
        }
        else if (c < 0x20 || c >= 0x7f) {
            std::snprintf(buf, sizeof buf, "\\u%04x", c);
            o += buf;
        }
        else {
            o += char(c);
        }
    }
    return o + "\"";
}

struct Options {
    std::string prop, tier = "quick", out, replay_dir, tmp, replay;
    std::uint64_t seed = 1;
    unsigned workers = 8;
    std::uint64_t cases = 0;
    double cpu_limit = 0;
    bool no_shrink = false;
    bool keep_going = false;
};

[[noreturn]] void worker_main(const Prop& p, const Options& o, unsigned w, Shared* sh, int fd)
{
    const int e = open(cat(o.tmp, "/w", w, ".err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2(e, 2);
    start_watchdog(sh);
    const bool thorough = o.tier == "thorough";
    const std::uint64_t cases = o.cases ? o.cases : thorough ? p.thorough_cases : p.quick_cases;
    Stats st;
    Rng mrng { mix(mix(o.seed, hash_bytes(p.id)), 1000 + w) };
    std::vector<std::vector<std::uint32_t>> corpus;
    std::vector<unsigned char> virgin(map_size, 0);
    Verdict bad;
    std::uint64_t n_run = 0;
    bool cut = false;

    const auto finish = [&](bool failed, bool enum_case) {
        std::ostringstream s;
        s << (failed ? (enum_case ? "E" : "F") : "P") << ' ' << n_run << ' ' << st.evals << ' ' << cut << ' ' << corpus.size() << '\n';
        std::string b = s.str();
        std::string body;
        put_str(body, bad.tag);
        put_str(body, bad.msg);
        put_str(body, bad.desc);
        put_str(body, failed ? std::string(reinterpret_cast<char*>(sh->choices), sh->n * 4) : std::string {});
        std::string cl;
        for (auto& [k, v] : st.classes) {
            put_str(cl, k);
            put_str(cl, std::to_string(v));
        }
        put_str(body, cl);
        std::string kn;
        for (auto& [k, v] : st.known) {
            put_str(kn, k);
            put_str(kn, std::to_string(v));
            put_str(kn, st.known_sample[k]);
        }
        put_str(body, kn);
        std::string sm;
        for (auto& x : st.samples) {
            put_str(sm, x);
        }
        put_str(body, sm);
        std::vector<std::uint64_t> hs(st.hashes.begin(), st.hashes.end());
        put_str(body, std::string(reinterpret_cast<char*>(hs.data()), hs.size() * 8));
        b += body;
        std::uint64_t len = b.size();
        write_all(fd, &len, 8);
        write_all(fd, b.data(), b.size());
        _exit(0);
    };

    std::uint64_t idx = 0;
    if (p.enum_fn) {
        const std::uint64_t n = p.enum_count(thorough);
        for (std::uint64_t i = w; i < n; i += o.workers) {
            sh->is_enum = 1;
            sh->enum_index = i;
            sh->case_index = ++idx;
            Ctx ctx { &st };
            Alloc::fail_after = -1;
            bool ok = true;
            try {
                p.enum_fn(i, ctx);
            } catch (Failure& f) {
                ok = false;
                bad.tag = f.tag;
                bad.msg = f.msg;
            } catch (...) {
                ok = false;
                bad.tag = "unexpected-exception";
            }
            ++n_run;
            st.evals += ctx.evals;
            if (!ok) {
                bad.desc = ctx.desc;
                sh->choices[0] = std::uint32_t(i >> 32);
                sh->choices[1] = std::uint32_t(i);
                sh->n = 2;
                finish(true, true);
            }
            if (ctx.is_nontrivial && st.samples.size() < 2 && !ctx.desc.empty()) {
                st.samples.push_back(ctx.desc.substr(0, 600));
            }
        }
        sh->is_enum = 0;
    }
    std::uint64_t next_sample = 1;
    for (std::uint64_t i = 0; i < cases; ++i) {
        if ((i & 255) == 0 && o.cpu_limit > 0 && cpu_s() > o.cpu_limit) {
            cut = true;
            break;
        }
        sh->case_index = ++idx;
        Rng rng { mix(mix(o.seed, hash_bytes(p.id)), (std::uint64_t(w) << 40) + i) };
        Ctx ctx { &st };
        std::vector<std::uint32_t> prefix;
        bool use_prefix = false;
        if (p.coverage && !corpus.empty() && (i & 1)) {
            prefix = corpus[mrng.next() % corpus.size()];
            mutate(prefix, corpus, mrng);
            use_prefix = true;
        }
        if (p.coverage) {
            std::memset(cov_map, 0, map_size);
            cov_prev = 0;
            cov_on = true;
        }
        Src src { use_prefix ? &prefix : nullptr, &rng, sh->choices, &sh->n };
        Verdict v = run_one(p, src, ctx);
        cov_on = false;
        ++n_run;
        st.evals += ctx.evals;
        if (v.kind == 'F') {
            bad = std::move(v);
            finish(true, false);
        }
        if (p.coverage) {
            bool fresh = false;
            for (std::size_t k = 0; k < map_size; k += 8) {
                std::uint64_t x;
                std::memcpy(&x, cov_map + k, 8);
                if (!x) {
                    continue;
                }
                for (std::size_t j = k; j < k + 8; ++j) {
                    const unsigned char b = bucket(cov_map[j]);
                    if (b & ~virgin[j]) {
                        virgin[j] |= b;
                        fresh = true;
                    }
                }
            }
            if (fresh && sh->n < 60000 && corpus.size() < 20000) {
                corpus.emplace_back(sh->choices, sh->choices + sh->n);
            }
        }
        if (ctx.is_nontrivial && !ctx.desc.empty() && i >= next_sample && st.samples.size() < 6) {
            st.samples.push_back(ctx.desc.substr(0, 600));
            next_sample = next_sample * 7 + 13;
        }
    }
    finish(false, false);
}

int replay_file(const Prop& p, const Options& o)
{
    // format: text; lines "choices: a b c ..." and "enum: n"
    std::ifstream f(o.replay);
    std::string line;
    std::vector<std::uint32_t> c;
    bool is_enum = false;
    bool have = false;
    while (std::getline(f, line)) {
        if (line.rfind("choices:", 0) == 0) {
            std::istringstream s(line.substr(8));
            std::uint32_t v;
            while (s >> v) {
                c.push_back(v);
            }
            have = true;
        }
        if (line.rfind("enum:", 0) == 0) {
            is_enum = true;
        }
    }
    if (!have) {
        std::fprintf(stderr, "no choices in %s\n", o.replay.c_str());
        return 2;
    }
    Executor ex { p, o.tmp, is_enum };
    Verdict v = ex.run(c);
    if (v.kind == 'P') {
        std::printf("replay: pass\n%s\n", v.desc.c_str());
        return 0;
    }
    std::printf("replay: %s [%s]\n%s\n%s\n", v.kind == 'C' ? "CRASH" : "FAIL", v.tag.c_str(), v.msg.c_str(), v.desc.c_str());
    return 1;
}

int run_prop(const Prop& p, const Options& o)
{
    const double t0 = wall();
    if (p.setup) {
        p.setup();
    }
    struct W {
        pid_t pid;
        int fd;
        Shared* sh;
        std::string buf;
        bool done = false;
    };
    std::vector<W> ws(o.workers);
    for (unsigned w = 0; w < o.workers; ++w) {
        int fds[2];
        if (pipe(fds)) {
            std::perror("pipe");
            return 2;
        }
        ws[w].sh = make_shared();
        std::fflush(nullptr);
        const pid_t pid = fork();
        if (pid == 0) {
            close(fds[0]);
            worker_main(p, o, w, ws[w].sh, fds[1]);
        }
        close(fds[1]);
        ws[w].pid = pid;
        ws[w].fd = fds[0];
    }
    // collect (sequentially; the pipes block writers only when they report)
    std::uint64_t cases = 0, evals = 0, corpus = 0;
    bool any_cut = false;
    std::map<std::string, std::uint64_t> classes, known;
    std::map<std::string, std::string> known_sample;
    std::unordered_set<std::uint64_t> hashes;
    std::vector<std::string> samples;
    struct Bad {
        Verdict v;
        bool is_enum;
        unsigned worker;
    };
    std::vector<Bad> bads;
    for (unsigned w = 0; w < o.workers; ++w) {
        std::uint64_t len = 0;
        bool ok = read_all(ws[w].fd, &len, 8);
        std::string b;
        if (ok) {
            b.resize(len);
            ok = read_all(ws[w].fd, b.data(), len);
        }
        int status;
        waitpid(ws[w].pid, &status, 0);
        close(ws[w].fd);
        if (!ok) {
            Bad bad;
            bad.worker = w;
            bad.v.kind = 'C';
            bad.v.tag = WIFEXITED(status) && WEXITSTATUS(status) == 77 ? "hang" : "crash";
            bad.v.msg = cat(WIFSIGNALED(status) ? "signal " : "exit ", WIFSIGNALED(status) ? WTERMSIG(status) : WEXITSTATUS(status), "; ")
                + slurp(cat(o.tmp, "/w", w, ".err")).substr(0, 3000);
            bad.is_enum = ws[w].sh->is_enum;
            if (bad.is_enum) {
                bad.v.used = { std::uint32_t(ws[w].sh->enum_index >> 32), std::uint32_t(ws[w].sh->enum_index) };
            }
            else {
                bad.v.used.assign(ws[w].sh->choices, ws[w].sh->choices + std::min<std::uint32_t>(ws[w].sh->n, max_choices));
            }
            bads.push_back(std::move(bad));
            cases += ws[w].sh->case_index;
            evals += ws[w].sh->case_index;
        }
        else {
            const std::size_t nl = b.find('\n');
            std::istringstream s(b.substr(0, nl));
            char k;
            std::uint64_t a, ev, co;
            int cu;
            s >> k >> a >> ev >> cu >> co;
            cases += a;
            evals += ev;
            corpus += co;
            any_cut |= cu != 0;
            std::size_t i = nl + 1;
            Verdict v;
            v.kind = 'F';
            v.tag = get_str(b, i);
            v.msg = get_str(b, i);
            v.desc = get_str(b, i);
            const std::string u = get_str(b, i);
            v.used.resize(u.size() / 4);
            if (!v.used.empty()) {
                std::memcpy(v.used.data(), u.data(), v.used.size() * 4);
            }
            const std::string cl = get_str(b, i);
            for (std::size_t j = 0; j < cl.size();) {
                const std::string kk = get_str(cl, j);
                classes[kk] += std::stoull(get_str(cl, j));
            }
            const std::string kn = get_str(b, i);
            for (std::size_t j = 0; j < kn.size();) {
                const std::string kk = get_str(kn, j);
                known[kk] += std::stoull(get_str(kn, j));
                known_sample.emplace(kk, get_str(kn, j));
            }
            const std::string sm = get_str(b, i);
            for (std::size_t j = 0; j < sm.size();) {
                samples.push_back(get_str(sm, j));
            }
            const std::string hs = get_str(b, i);
            for (std::size_t j = 0; j + 8 <= hs.size(); j += 8) {
                std::uint64_t h;
                std::memcpy(&h, hs.data() + j, 8);
                hashes.insert(h);
            }
            if (k != 'P') {
                bads.push_back({ std::move(v), k == 'E', w });
            }
        }
        munmap(ws[w].sh, sizeof(Shared));
    }
    // keep a spread of samples
    std::vector<std::string> kept;
    for (std::size_t i = 0; i < samples.size() && kept.size() < 8; i += std::max<std::size_t>(1, samples.size() / 8)) {
        kept.push_back(samples[i]);
    }

    int rc = 0;
    std::vector<std::string> violations;
    std::string unconfirmed;
    std::set<std::string> seen;
    for (auto& bad : bads) {
        const std::string key = bad.v.tag;
        if (!seen.insert(key).second) {
            continue;
        }
        Executor ex { p, o.tmp, bad.is_enum };
        Verdict v = ex.run(bad.v.used);
        unsigned used = 0;
        if (v.kind == 'P') {
            // not reproduced outside the worker: try again, then report as unconfirmed (state leak?)
            v = ex.run(bad.v.used);
        }
        if (v.kind == 'P') {
            unconfirmed += bad.v.tag + ": " + bad.v.msg + " [" + bad.v.desc + "]\n";
            std::fprintf(stderr, "UNCONFIRMED %s: [%s] %s\n%s\n", p.id, bad.v.tag.c_str(), bad.v.msg.c_str(), bad.v.desc.c_str());
            continue;
        }
        if (v.used.empty() || v.kind == 'C') {
            v.used = bad.v.used;
        }
        if (!bad.is_enum && !o.no_shrink) {
            v = shrink(ex, v, 6000, o.tier == "thorough" ? 120 : 45, used);
        }
        // replay three times before reporting
        bool stable = true;
        Verdict last = v;
        for (int k = 0; k < 3; ++k) {
            Verdict r = ex.run(v.used);
            stable = stable && r.kind != 'P';
            if (r.kind != 'P') {
                last = r;
            }
        }
        if (last.desc.empty()) {
            last.desc = v.desc;
        }
        const std::string path = cat(o.replay_dir, "/", p.id, "-", violations.size(), ".replay");
        {
            std::ofstream f(path);
            f << "property: " << p.id << "\nkind: " << (last.kind == 'C' ? "crash" : "failure") << "\ntag: " << last.tag
              << "\nstable: " << stable << "\nshrink-executions: " << used << "\n";
            if (bad.is_enum) {
                f << "enum: 1\n";
            }
            f << "choices:";
            for (auto c : v.used) {
                f << ' ' << c;
            }
            f << "\nmessage: " << last.msg << "\ninput: " << last.desc << "\n";
        }
        std::printf("FAILED %s [%s] %s\n  input: %s\n", p.id, last.tag.c_str(), last.msg.substr(0, 1500).c_str(), last.desc.substr(0, 2000).c_str());
        violations.push_back(path);
        rc = 1;
    }
    std::ofstream f(o.out);
    f << "{\n \"property\": " << json_str(p.id) << ",\n \"cases\": " << cases << ",\n \"evaluations\": " << evals
      << ",\n \"distinct_nontrivial\": " << hashes.size() << ",\n \"rule\": " << json_str(p.rule) << ",\n \"coverage_corpus\": " << corpus
      << ",\n \"cut_by_cpu_limit\": " << (any_cut ? "true" : "false") << ",\n \"wall_s\": " << wall() - t0 << ",\n \"classes\": {";
    bool first = true;
    for (auto& [k, v] : classes) {
        f << (first ? "" : ", ") << json_str(k) << ": " << v;
        first = false;
    }
    f << "},\n \"known\": {";
    first = true;
    for (auto& [k, v] : known) {
        f << (first ? "" : ", ") << json_str(k) << ": {\"count\": " << v << ", \"sample\": " << json_str(known_sample[k]) << "}";
        first = false;
    }
    f << "},\n \"samples\": [";
    first = true;
    for (auto& k : kept) {
        f << (first ? "" : ", ") << json_str(k);
        first = false;
    }
    f << "],\n \"unconfirmed\": " << json_str(unconfirmed) << ",\n \"violations\": [";
    first = true;
    for (auto& k : violations) {
        f << (first ? "" : ", ") << json_str(k);
        first = false;
    }
    f << "]\n}\n";
    return rc;
}

} // namespace

Register::Register(Prop p) { props().push_back(p); }

} // namespace vp

int main(int argc, char** argv)
{
    using namespace vp;
    Options o;
    for (int i = 1; i < argc; ++i) {
        const std::string a = argv[i];
        const auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--prop") {
            o.prop = val();
        }
        else if (a == "--tier") {
            o.tier = val();
        }
        else if (a == "--seed") {
            o.seed = std::stoull(val());
        }
        else if (a == "--out") {
            o.out = val();
        }
        else if (a == "--replay-dir") {
            o.replay_dir = val();
        }
        else if (a == "--tmp") {
            o.tmp = val();
            setenv("VP_TMP", o.tmp.c_str(), 1);
        }
        else if (a == "--workers") {
            o.workers = unsigned(std::stoul(val()));
        }
        else if (a == "--cases") {
            o.cases = std::stoull(val());
        }
        else if (a == "--cpu-limit") {
            o.cpu_limit = std::stod(val());
        }
        else if (a == "--replay") {
            o.replay = val();
        }
        else if (a == "--no-shrink") {
            o.no_shrink = true;
        }
        else if (a == "--list") {
            for (auto& p : props()) {
                std::printf("%s\n", p.id);
            }
            return 0;
        }
        else {
            std::fprintf(stderr, "unknown option %s\n", a.c_str());
            return 2;
        }
    }
    for (auto& p : props()) {
        if (o.prop == p.id) {
            if (!o.replay.empty()) {
                if (p.setup) {
                    p.setup();
                }
                return replay_file(p, o);
            }
            return run_prop(p, o);
        }
    }
    std::fprintf(stderr, "no property %s in this binary\n", o.prop.c_str());
    return 2;
}
