// Property-based testing / coverage-guided fuzzing engine.
//
// A property is a function of a Src (a source of bounded integer choices). Everything random in a
// case is drawn from Src, so a case *is* its choice sequence: it can be recorded, mutated under
// coverage feedback, shrunk generically, written to a replay file and re-executed.
#ifndef VP_ENGINE_HPP
#define VP_ENGINE_HPP

#include <cstddef>
#include <cstdint>
#include <cstring>
#include <initializer_list>
#include <string>
#include <string_view>
#include <vector>

namespace vp {

/// How many basic blocks of the library this thread has executed.
extern thread_local std::uint64_t steps;

/// Thrown by a property when its oracle is contradicted.
struct Failure {
    std::string tag; // short, stable identification of the oracle clause that failed
    std::string msg; // details
};

struct Rng {
    std::uint64_t s[4];
    explicit Rng(std::uint64_t seed);
    std::uint64_t next();
};

std::uint64_t mix(std::uint64_t a, std::uint64_t b);
std::uint64_t hash_bytes(std::string_view, std::uint64_t seed = 0);

constexpr std::size_t max_choices = 1u << 20;

class Src {
public:
    Src(const std::vector<std::uint32_t>* prefix, Rng* rng, std::uint32_t* record, std::uint32_t* n);
    /// Uniform (when fresh) integer in [0, n). n >= 1. Smaller is simpler.
    std::uint32_t below(std::uint64_t n);
    /// Inclusive range.
    std::int64_t range(std::int64_t lo, std::int64_t hi)
    {
        return lo + std::int64_t(below(std::uint64_t(hi - lo) + 1));
    }
    std::uint64_t u64() { return (std::uint64_t(below(1ull << 32)) << 32) | below(1ull << 32); }
    /// True with probability num/den; false is the simple choice.
    bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }
    /// Size with a geometric-ish skew to small values, in [0, max].
    std::size_t size(std::size_t max);
    template <class C>
    const auto& pick(const C& c)
    {
        return c[below(std::size(c))];
    }
    template <class T>
    T pick(std::initializer_list<T> l)
    {
        return *(l.begin() + below(l.size()));
    }
    /// Weighted index.
    std::size_t weighted(std::initializer_list<unsigned> w);

private:
    const std::vector<std::uint32_t>* m_prefix;
    std::size_t m_pos = 0;
    Rng* m_rng; // null: zeros after the prefix
    std::uint32_t* m_record;
    std::uint32_t* m_n;
};

struct Stats;

class Ctx {
public:
    explicit Ctx(Stats* st) : st { st } { }
    /// Counts a class of case.
    void cls(std::string_view name);
    /// Marks the case as non-trivial (by the property's rule); `h` identifies the case.
    void nontrivial(std::uint64_t h);
    void nontrivial(std::string_view s, std::uint64_t salt = 0) { nontrivial(hash_bytes(s, salt)); }
    /// Describes the case (for samples and for failure reports). Cheap to call; only kept if needed.
    void describe(std::string s);
    void known(std::string_view finding);
    std::string desc;
    Stats* st;
    bool is_nontrivial = false;
    std::uint64_t evals = 1;
};

using Prop_Fn = void (*)(Src&, Ctx&);

struct Prop {
    const char* id;
    Prop_Fn fn;
    std::uint64_t quick_cases; // per worker
    std::uint64_t thorough_cases; // per worker
    const char* rule;
    bool coverage; // mutate choice sequences under coverage feedback
    /// Runs once in the parent (may be null): exhaustive sweeps etc. are expressed as cases instead.
    void (*setup)() = nullptr;
    /// Exhaustively enumerated part: cases 0..n-1 of `enum_fn`, run by all workers in stripes.
    std::uint64_t (*enum_count)(bool thorough) = nullptr;
    void (*enum_fn)(std::uint64_t index, Ctx&) = nullptr;
};

struct Register {
    explicit Register(Prop);
};

std::string quote(std::string_view); // printable, C-like escapes
[[noreturn]] void fail(std::string tag, std::string msg);

#define VP_CHECK(cond, tag, ...)                                                                   \
    do {                                                                                           \
        if (!(cond)) {                                                                             \
            ::vp::fail(tag, ::vp::cat(__VA_ARGS__));                                               \
        }                                                                                          \
    } while (0)

inline void cat_to(std::string& o, std::string_view s) { o += s; }
inline void cat_to(std::string& o, const char* s) { o += s; }
inline void cat_to(std::string& o, const std::string& s) { o += s; }
inline void cat_to(std::string& o, char c) { o += c; }
inline void cat_to(std::string& o, bool b) { o += b ? "true" : "false"; }
template <class T>
    requires requires(T t) { std::to_string(t); }
void cat_to(std::string& o, T t)
{
    o += std::to_string(t);
}
template <class... A>
std::string cat(const A&... a)
{
    std::string o;
    (cat_to(o, a), ...);
    return o;
}

/// Live allocation accounting and fault injection (operator new is replaced in the harness).
struct Alloc {
    static std::int64_t live; // number of live operator-new blocks
    static std::uint64_t count; // number of allocations so far
    static std::int64_t fail_after; // <0: never; otherwise the n-th allocation from now fails
    static bool failed; // an injected failure happened
};

const std::string& verif_dir();

} // namespace vp

#endif
