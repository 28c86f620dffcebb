// The building blocks the library exposes in headers (buffers, function references, text diffs),
// file input, and the command-line program.
#include "hl.hpp"

#include <algorithm>
#include <cstdlib>
#include <fcntl.h>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <sstream>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include "ulight/const.hpp"
#include "ulight/function_ref.hpp"
#include "ulight/impl/algorithm/all_of.hpp"
#include "ulight/impl/algorithm/copy.hpp"
#include "ulight/impl/algorithm/min_max.hpp"
#include "ulight/impl/buffer.hpp"
#include "ulight/impl/io.hpp"
#include "ulight/impl/memory.hpp"
#include "ulight/impl/strings.hpp"
#include "ulight/impl/string_diff.hpp"

using namespace vp;
namespace ul = ulight;

namespace {

// ---------------------------------------------------------------- B01

/// An element that is not trivially copyable, and counts as moved-from.
struct Box {
    std::unique_ptr<int> p;
    Box() = default;
    Box(int x) : p { new int { x } } { }
    Box(int x, int y) : p { new int { x + y } } { }
    Box(std::initializer_list<int> x) : p { new int { -int(x.size()) } } { }
    Box(const Box& o) : p { o.p ? new int { *o.p } : nullptr } { }
    Box& operator=(const Box& o)
    {
        p.reset(o.p ? new int { *o.p } : nullptr);
        return *this;
    }
    Box(Box&&) = default;
    Box& operator=(Box&&) = default;
    operator int() const { return p ? *p : -1; }
};

template <class T>
struct Sink {
    std::vector<int> got;
    std::vector<std::size_t> sizes;
    const T* buffer = nullptr;
    std::string problem;

    void flush(T* p, std::size_t n)
    {
        if (p != buffer) {
            problem = "flush is given something other than the buffer";
        }
        if (n == 0) {
            problem = "flush of nothing";
        }
        for (std::size_t i = 0; i < n; ++i) {
            got.push_back(int(p[i]));
        }
        sizes.push_back(n);
    }
};

template <class T>
void buffer_history(Src& s, Ctx& c, const char* type)
{
    const std::size_t cap = 1 + s.size(s.chance(1, 4) ? 40 : 6);
    std::unique_ptr<T[]> memory { new T[cap]() };
    Sink<T> sink;
    sink.buffer = memory.get();
    std::optional<ul::Non_Owning_Buffer<T>> storage;
    auto on_flush = [&](T* p, std::size_t n) { sink.flush(p, n); };
    if (s.chance(1, 2)) {
        storage.emplace(std::span<T>(memory.get(), cap), ul::Function_Ref<void(T*, std::size_t)>(on_flush));
    }
    else {
        storage.emplace(memory.get(), cap, &sink, [](const void* d, T* p, std::size_t n) { const_cast<Sink<T>*>(static_cast<const Sink<T>*>(d))->flush(p, n); });
    }
    auto& b = *storage;

    // Reference: everything appended is flushed in order, except what a clear() discards, and a flush
    // happens only when an element would not fit, or on request.
    std::vector<int> flushed, held;
    std::vector<std::size_t> sizes;
    int next = 0;
    auto ref_flush = [&] {
        if (!held.empty()) {
            sizes.push_back(held.size());
            flushed.insert(flushed.end(), held.begin(), held.end());
            held.clear();
        }
    };
    auto ref_push = [&](int x) {
        if (held.size() == cap) {
            ref_flush();
        }
        held.push_back(x);
    };

    std::string log = cat(type, " capacity ", cap, ":");
    std::uint64_t h = hash_bytes(log);
    const std::size_t n = 1 + s.size(16);
    std::size_t many = 0;
    for (std::size_t op = 0; op < n; ++op) {
        const std::size_t kind = s.below(11);
        const std::size_t count = kind >= 4 && kind <= 7 ? s.size(s.chance(1, 3) ? 3 * cap + 2 : cap) : 1;
        std::vector<int> xs;
        for (std::size_t i = 0; i < count; ++i) {
            xs.push_back(next = (next + 1) % 100);
        }
        h = mix(h, kind * 1000 + count);
        many += count > cap - b.size();
        auto check_result = [&](const T& r) { VP_CHECK(int(r) == xs[0] && &r == memory.get() + (held.size() - 1), "result", "the reference returned does not refer to the appended element"); };
        switch (kind) {
        case 0: {
            log += " push_back(const&)";
            const T x(static_cast<T>(xs[0]));
            ref_push(xs[0]);
            check_result(b.push_back(x));
            VP_CHECK(int(x) == xs[0], "argument", "the argument of push_back was changed");
            break;
        }
        case 1:
            log += " push_back(&&)";
            ref_push(xs[0]);
            check_result(b.push_back(static_cast<T>(xs[0])));
            break;
        case 2:
            log += " emplace_back";
            if constexpr (std::is_same_v<T, Box>) {
                if (s.chance(1, 2)) {
                    log += " of two arguments";
                    ref_push(xs[0]);
                    check_result(b.emplace_back(xs[0] - 1, 1));
                    break;
                }
            }
            else if (s.chance(1, 6)) {
                log += " of no arguments";
                xs[0] = 0;
                ref_push(xs[0]);
                check_result(b.emplace_back());
                break;
            }
            ref_push(xs[0]);
            check_result(b.emplace_back(static_cast<T>(xs[0])));
            break;
        case 3:
            if (!b.empty()) {
                log += " push_back(back())";
                xs[0] = held.back();
                ref_push(xs[0]);
                const T& last = b.back();
                b.push_back(last);
            }
            break;
        case 4: {
            log += cat(" append(pointers, ", count, ")");
            std::vector<T> v(xs.begin(), xs.end());
            std::ranges::for_each(xs, ref_push);
            b.append(v.data(), v.data() + v.size());
            break;
        }
        case 5: {
            log += cat(" append(list, ", count, ")");
            std::list<T> v(xs.begin(), xs.end());
            std::ranges::for_each(xs, ref_push);
            b.append(v.begin(), v.end());
            break;
        }
        case 6: {
            log += cat(" append_range(vector, ", count, ")");
            const std::vector<T> v(xs.begin(), xs.end());
            std::ranges::for_each(xs, ref_push);
            b.append_range(v);
            break;
        }
        case 7: {
            log += cat(" append_range(converted, ", count, ")");
            std::ranges::for_each(xs, ref_push);
            b.append_range(xs);
            break;
        }
        case 8:
            log += " flush";
            ref_flush();
            b.flush();
            break;
        case 9:
            log += " clear";
            held.clear();
            b.clear();
            break;
        default:
            if (!b.empty()) {
                log += " back() = ";
                held.back() = 77;
                b.back() = T(77);
            }
        }
        c.describe(log);
        VP_CHECK(sink.problem.empty(), "flush", sink.problem);
        VP_CHECK(b.capacity() == cap && b.size() == held.size() && b.available() == cap - held.size() && b.full() == (held.size() == cap) && b.empty() == held.empty(), "sizes", "size ", b.size(), " of ", b.capacity(), ", but ", held.size(), " elements are held");
        VP_CHECK(sink.got == flushed, "flushed", "after this history, ", sink.got.size(), " elements were flushed, and not the expected ", flushed.size());
        VP_CHECK(sink.sizes == sizes, "flush-sizes", "flushes happened at other times than when an element did not fit");
        for (std::size_t i = 0; i < held.size(); ++i) {
            VP_CHECK(int(memory[i]) == held[i], "held", "element ", i, " is ", int(memory[i]), ", not ", held[i]);
        }
        VP_CHECK(held.empty() || int(std::as_const(b).back()) == held.back(), "back", "back() is not the last element");
    }
    if (many && n > 2) {
        c.nontrivial(h);
        c.cls("an append exceeds what is available");
    }
    c.cls(type);
}

void b01(Src& s, Ctx& c)
{
    switch (s.below(4)) {
    case 0: buffer_history<char>(s, c, "char"); break;
    case 1: buffer_history<int>(s, c, "int"); break;
    case 2: buffer_history<std::uint64_t>(s, c, "uint64_t"); break;
    default: buffer_history<Box>(s, c, "class with move semantics"); break;
    }
}
Register r_b01({ "B01", b01, 120000, 4000000, "histories of at least three operations, some of which exceeds the available space", true });

// ---------------------------------------------------------------- B02

int global_calls;
int twice(int x)
{
    ++global_calls;
    return 2 * x;
}
int thrice(int x) noexcept
{
    ++global_calls;
    return 3 * x;
}
long wide(long x)
{
    ++global_calls;
    return x + 1000000000000;
}

struct Counter {
    int calls = 0, factor = 1;
    int operator()(int x)
    {
        ++calls;
        return factor * x;
    }
    int operator()(int x) const { return -factor * x; }
};

/// An object whose address is not what operator& says.
struct Elusive {
    int term = 0;
    int operator()(int x) { return x + term++; }
    Elusive* operator&() const;
};
Elusive decoy { 1000000 };
Elusive* Elusive::operator&() const
{
    return std::addressof(decoy);
}

struct Padded { // large, to be passed by value
    std::string text;
    int numbers[16];
};

/// Every way of making a reference, with what a call has to do.
void b02(Src& s, Ctx& c)
{
    using Ref = ul::Function_Ref<int(int)>;
    constexpr std::size_t slots = 3;
    struct Slot {
        Ref ref;
        int target = -1; // -1: none
    };
    Slot slot[slots];
    Counter counters[3] { { 0, 5 }, { 0, 7 }, { 0, 11 } };
    int calls[3] {};
    int captured = 13;
    auto lambda = [&captured](int x) { return x + captured++; };
    const auto const_lambda = [&captured](int x) { return x - captured; };
    auto mutable_lambda = [n = 0](int x) mutable { return x + ++n; };
    int mutable_calls = 0;
    auto captureless = [](int x) { return x ^ 0x55; };
    auto other_signature = [](long x) -> short { return short(x + 2); };
    int (*pointer)(int) = &twice;
    int entity = 17;

    Elusive elusive { 21 };
    int elusive_term = 21;

    std::string log;
    std::uint64_t h = 1;
    const std::size_t n = 2 + s.size(14);
    int rebinds = 0, call_count = 0;
    for (std::size_t op = 0; op < n; ++op) {
        const std::size_t i = s.below(slots);
        Slot& x = slot[i];
        const std::size_t kind = s.below(21);
        h = mix(h, kind * 16 + i);
        log += cat(" ", kind, "@", i);
        c.describe(log);
        if (kind < 14 || kind == 20) {
            ++rebinds;
            x.target = int(kind);
            switch (kind) {
            case 0: x.ref = Ref(twice); break;
            case 1: x.ref = Ref(&thrice); break;
            case 2: x.ref = Ref(pointer); break;
            case 3:
            case 4:
            case 5: x.ref = Ref(counters[kind - 3]); break;
            case 6: x.ref = Ref(lambda); break;
            case 7: x.ref = Ref(const_lambda); break;
            case 8: x.ref = Ref(mutable_lambda); break;
            case 9: x.ref = Ref(captureless); break;
            case 10: x.ref = Ref(other_signature); break;
            case 11: x.ref = Ref(ul::Constant<&twice> {}); break;
            case 20: x.ref = Ref(elusive); break;
            case 12: x.ref = Ref(ul::Constant<[](int* e, int y) { return *e += y; }> {}, &entity); break;
            default: x.ref = Ref([](int y) { return y + 3; }); break; // a temporary
            }
        }
        else if (kind == 14) {
            const std::size_t k = s.below(slots);
            x = slot[k];
            ++rebinds;
        }
        else if (kind == 15) {
            x.ref = {};
            x.target = -1;
        }
        else if (kind == 16) {
            x.ref = Ref(x.ref.get_invoker(), x.ref.get_entity());
        }
        else {
            if (x.target < 0) {
                VP_CHECK(!x.ref && !x.ref.has_value() && x.ref.get_invoker() == nullptr, "empty", "an empty reference has a value");
                continue;
            }
            VP_CHECK(x.ref && x.ref.has_value(), "value", "a bound reference has no value");
            ++call_count;
            const int a = int(s.range(-1000, 1000));
            int want = 0;
            const int before = global_calls;
            int globals = 0;
            switch (x.target) {
            case 0:
            case 2:
            case 11: want = 2 * a, globals = 1; break;
            case 1: want = 3 * a, globals = 1; break;
            case 3:
            case 4:
            case 5: want = counters[x.target - 3].factor * a, ++calls[x.target - 3]; break;
            case 6: want = a + captured; break;
            case 7: want = a - captured; break;
            case 8: want = a + ++mutable_calls; break;
            case 9: want = a ^ 0x55; break;
            case 10: want = short(a + 2); break;
            case 20: want = a + elusive_term++; break;
            case 12: want = entity + a; break;
            default: want = a + 3; break;
            }
            const int captured_before = captured;
            const Ref& ref = x.ref;
            const int got = s.chance(1, 2) ? ref(a) : [](Ref by_value, int y) { return by_value(y); }(x.ref, a);
            VP_CHECK(got == want, cat("call-", x.target), "a call of target ", x.target, " gives ", got, ", not ", want);
            VP_CHECK(global_calls - before == globals, "times", "the function was called ", global_calls - before, " times");
            VP_CHECK(captured == captured_before + (x.target == 6), "capture", "the referenced closure was not the one called");
            for (int k = 0; k < 3; ++k) {
                VP_CHECK(counters[k].calls == calls[k], "object", "object ", k, " was called ", counters[k].calls, " times, not ", calls[k]);
            }
        }
    }
    // References to const: a const call operator is chosen.
    const ul::Function_Ref<int(int) const> cref = counters[0];
    VP_CHECK(cref(3) == -15, "const", "a reference to const calls the non-const operator");
    const ul::Function_Ref<int(int) const noexcept> nref = thrice;
    VP_CHECK(nref(3) == 9, "noexcept", "a noexcept reference calls something else");
    const ul::Function_Ref<int(int) noexcept> mref = thrice;
    VP_CHECK(mref(3) == 9, "noexcept", "a noexcept reference calls something else");
    VP_CHECK(noexcept(nref(3)) && noexcept(mref(3)) && !noexcept(cref(3)), "noexcept", "calls do not throw as the signature says");
    const ul::Function_Ref<long(long)> wref = wide;
    VP_CHECK(wref(5) == 1000000000005, "long", "a value is truncated");
    const ul::Function_Ref<long(int)> converted = twice;
    VP_CHECK(converted(-3) == -6, "converted", "a result is converted wrongly");
    // Arguments are passed on unchanged, moved rather than copied.
    std::string word = gen_word(s, 40);
    const std::string copy = word;
    auto take = [](Padded p, std::string& out, std::unique_ptr<int> u) {
        out = p.text;
        return *u + p.numbers[15];
    };
    const ul::Function_Ref<int(Padded, std::string&, std::unique_ptr<int>)> tref = take;
    Padded p { word, {} };
    p.numbers[15] = 4;
    std::string out;
    VP_CHECK(tref(p, out, std::make_unique<int>(3)) == 7 && out == copy && p.text == copy, "arguments", "arguments are not passed on unchanged");
    if (rebinds > 1 && call_count > 1) {
        c.nontrivial(h);
    }
}
Register r_b02({ "B02", b02, 20000, 500000, "histories with at least two bindings and two calls", true });

// ---------------------------------------------------------------- B03

/// Elements that compare equal without being the same.
struct Keyed {
    int key, id;
    friend bool operator<(const Keyed& x, const Keyed& y) { return x.key < y.key; }
};

template <typename T>
std::vector<T> gen_vector(Src& s, std::size_t n)
{
    std::vector<T> r(n);
    for (auto&& x : r) {
        if constexpr (std::is_same_v<T, bool>) {
            x = s.chance(1, 2);
        }
        else if constexpr (std::is_floating_point_v<T>) {
            x = T(s.range(-1000, 1000)) / 4;
        }
        else if constexpr (sizeof(T) < 4) {
            x = T(s.below(65536));
        }
        else {
            // Half of the values fit any type.
            x = s.chance(1, 2) ? T(s.below(128)) : T(s.u64());
        }
    }
    return r;
}

/// Copies between arrays of two types, of exact size, with canaries around the destination.
template <typename From, typename To>
void check_copy(Src& s, std::size_t n, const char* what)
{
    const std::vector<From> from = gen_vector<From>(s, n);
    std::unique_ptr<From[]> in { new From[n] };
    std::unique_ptr<To[]> out { new To[n + 2] };
    for (std::size_t i = 0; i < n; ++i) {
        in[i] = from[i];
    }
    const To left = To(1), right = To(0);
    out[0] = left;
    out[n + 1] = right;
    ul::copy(in.get(), in.get() + n, out.get() + 1);
    VP_CHECK(out[0] == left && out[n + 1] == right, "copy", "copy of ", n, " ", what, " writes outside of the destination");
    for (std::size_t i = 0; i < n; ++i) {
        VP_CHECK(in[i] == From(from[i]), "copy", "copy of ", n, " ", what, " changes element ", i, " of the source");
        VP_CHECK(out[i + 1] == static_cast<To>(From(from[i])), "copy", "copy of ", n, " ", what, " gets element ", i, " wrong");
    }
    // Iterators that are not contiguous.
    std::list<From> list(in.get(), in.get() + n);
    std::vector<To> grown;
    ul::copy(list.begin(), list.end(), std::back_inserter(grown));
    VP_CHECK(grown.size() == n, "copy", "copy of a list of ", n, " ", what, " appends ", grown.size());
    for (std::size_t i = 0; i < n; ++i) {
        VP_CHECK(grown[i] == static_cast<To>(From(from[i])), "copy", "copy of a list of ", n, " ", what, " gets element ", i, " wrong");
    }
}

template <typename... A>
void check_min_max(const A&... args)
{
    const Keyed* const all[] { &args... };
    const Keyed *lo = all[0], *hi = all[0];
    for (const Keyed* const k : all) {
        lo = *k < *lo ? k : lo;
        hi = *hi < *k ? k : hi;
    }
    VP_CHECK(&ul::min(args...) == lo, "min", "min of ", sizeof...(A), " arguments is not the first least of them");
    VP_CHECK(&ul::max(args...) == hi, "max", "max of ", sizeof...(A), " arguments is not the first greatest of them");
}

void b03(Src& s, Ctx& c)
{
    const std::size_t n = s.size(40);
    switch (s.below(5)) {
    case 0: {
        Keyed k[6];
        for (int i = 0; i < 6; ++i) {
            k[i] = { int(s.below(4)), i };
        }
        c.describe(cat("min/max of ", k[0].key, k[1].key, k[2].key, k[3].key, k[4].key, k[5].key));
        check_min_max(k[0]);
        check_min_max(k[0], k[1]);
        check_min_max(k[0], k[1], k[2]);
        check_min_max(k[0], k[1], k[2], k[3]);
        check_min_max(k[0], k[1], k[2], k[3], k[4]);
        check_min_max(k[0], k[1], k[2], k[3], k[4], k[5]);
        const unsigned long x = s.u64(), y = s.u64(), z = s.u64();
        VP_CHECK(ul::min(x, y, z) == std::min({ x, y, z }) && ul::max(x, y, z) == std::max({ x, y, z }), "min", x, " ", y, " ", z);
        c.nontrivial(mix(x, mix(y, z)));
        return;
    }
    case 1: {
        std::vector<int> v = gen_vector<int>(s, n);
        const int bound = s.chance(1, 3) ? 1 << 30 : int(s.below(200)) - 50;
        std::size_t calls = 0;
        bool expected = true;
        std::size_t expected_calls = 0;
        for (const int x : v) {
            ++expected_calls;
            if (!(x < bound)) {
                expected = false;
                break;
            }
        }
        c.describe(cat("all_of, ", n, " elements, bound ", bound));
        const auto less = [&](const int& x) { return ++calls, x < bound; };
        VP_CHECK(ul::all_of(v, less) == expected && calls == expected_calls, "all_of", "all_of of ", n, " elements: ", calls, " calls instead of ", expected_calls);
        VP_CHECK(ul::all_of(std::list<int>(v.begin(), v.end()), less) == expected, "all_of", "all_of of a list of ", n, " elements");
        if (n != 0) {
            c.nontrivial(mix(mix(n, std::uint64_t(bound)), expected_calls));
        }
        return;
    }
    case 2: {
        c.describe(cat("copy of ", n, " elements"));
        switch (s.below(10)) {
        case 0: check_copy<char8_t, char>(s, n, "char8_t to char"); break;
        case 1: check_copy<int, float>(s, n, "int to float"); break;
        case 2: check_copy<float, int>(s, n, "float to int"); break;
        case 3: check_copy<unsigned char, bool>(s, n, "unsigned char to bool"); break;
        case 4: check_copy<bool, char>(s, n, "bool to char"); break;
        case 5: check_copy<unsigned short, char32_t>(s, n, "unsigned short to char32_t"); break;
        case 6: check_copy<long, short>(s, n, "long to short"); break;
        case 7: check_copy<int, unsigned>(s, n, "int to unsigned"); break;
        case 8: check_copy<double, long>(s, n, "double to long"); break;
        default: {
            // Within one array, to an earlier or (as far as nothing overlaps) a later place.
            std::vector<char8_t> v = gen_vector<char8_t>(s, 3 * n), w = v;
            const std::size_t from = s.below(2 * n + 1), to = s.below(from + 1);
            for (std::size_t i = 0; i < n; ++i) {
                w[to + i] = v[from + i];
            }
            ul::copy(v.data() + from, v.data() + from + n, v.data() + to);
            VP_CHECK(v == w, "copy", "copy of ", n, " elements from ", from, " to ", to);
        }
        }
        if (n != 0) {
            c.nontrivial(mix(n, s.u64()));
        }
        return;
    }
    case 3: {
        // The named sets of characters are those of the predicates.
        std::u8string text;
        bool ascii = true;
        for (std::size_t i = 0; i < n; ++i) {
            text += char8_t(s.chance(1, 60) ? s.below(256) : s.below(128));
            ascii = ascii && text.back() < 0x80;
        }
        c.describe(cat("strings, ", n, " code units"));
        VP_CHECK(ul::is_all_ascii(text) == ascii, "is_all_ascii", "is_all_ascii of ", n, " code units");
        const char8_t x = char8_t(s.below(256));
        VP_CHECK(ul::contains(std::u8string_view { text }, x) == (std::count(text.begin(), text.end(), x) != 0), "contains", "contains of ", int(x));
        std::u32string wide(text.begin(), text.end());
        for (char32_t& w : wide) {
            w = s.chance(1, 4) ? char32_t(s.below(0x110000)) : w;
        }
        const char32_t y = !wide.empty() && s.chance(1, 2) ? s.pick(wide) : char32_t(s.below(0x110000));
        VP_CHECK(ul::contains(std::u32string_view { wide }, y) == (std::count(wide.begin(), wide.end(), y) != 0), "contains", "contains of ", std::uint32_t(y));
        const std::string_view bytes = ul::as_string_view(text);
        VP_CHECK(static_cast<const void*>(bytes.data()) == text.data() && bytes.size() == text.size(), "as_string_view", "not the same text");
        if (n != 0) {
            c.nontrivial(hash_bytes(bytes, y));
        }
        return;
    }
    default: {
        // Memory resources on top of the global allocation functions.
        ul::Global_Memory_Resource a, b;
        std::pmr::monotonic_buffer_resource other;
        c.describe("memory resource");
        VP_CHECK(a.is_equal(a) && a.is_equal(b) && b.is_equal(a) && !a.is_equal(other) && !a.is_equal(*std::pmr::get_default_resource()), "equal", "equality");
        struct Block {
            unsigned char* p;
            std::size_t size, alignment;
            unsigned char fill;
        };
        std::vector<Block> blocks;
        const std::size_t steps = 1 + s.below(12);
        std::uint64_t h = steps;
        const auto release = [&](std::size_t i) {
            const Block x = blocks[i];
            VP_CHECK(std::all_of(x.p, x.p + x.size, [&](unsigned char u) { return u == x.fill; }), "memory", "a block of ", x.size, " changed");
            (i % 2 ? a : b).deallocate(x.p, x.size, x.alignment);
            blocks.erase(blocks.begin() + std::ptrdiff_t(i));
        };
        for (std::size_t i = 0; i < steps; ++i) {
            if (!blocks.empty() && s.chance(1, 3)) {
                release(s.below(blocks.size()));
                continue;
            }
            const std::size_t size = s.size(2000), alignment = std::size_t(1) << s.below(13);
            void* const p = (s.chance(1, 2) ? a : b).allocate(size, alignment);
            VP_CHECK(p && reinterpret_cast<std::uintptr_t>(p) % alignment == 0, "memory", "allocate(", size, ", ", alignment, ")");
            blocks.push_back({ static_cast<unsigned char*>(p), size, alignment, static_cast<unsigned char>(i + 1) });
            std::memset(p, int(i + 1), size);
            h = mix(h, size * 8192 + alignment);
        }
        while (!blocks.empty()) {
            release(blocks.size() - 1);
        }
        std::pmr::vector<std::pmr::string> v { &a };
        for (std::size_t i = 0; i < n; ++i) {
            v.emplace_back(s.size(100), char('a' + i % 26));
        }
        for (std::size_t i = 0; i < n; ++i) {
            VP_CHECK(v[i].get_allocator().resource() == &a && (v[i].empty() || v[i].back() == char('a' + i % 26)), "memory", "container element ", i);
        }
        c.nontrivial(h);
    }
    }
}
Register r_b03({ "B03", b03, 60000, 2000000, "anything but empty ranges and texts", true });

// ---------------------------------------------------------------- S01

std::u8string_view u8(std::string_view s) { return { reinterpret_cast<const char8_t*>(s.data()), s.size() }; }

struct Lines {
    std::vector<std::string> from, to;
};
/// Two sequences of lines, where the second is often an edit of the first.
Lines gen_lines(Src& s, Ctx& c, std::size_t max, bool special)
{
    static constexpr std::initializer_list<const char*> words { "", "a", "b", "c", "x", " a", "a ", "-a", "+a", "@@ -1,2 +1,2 @@", "\\", "\xc3\xa9", "same", "---", "+++" };
    auto line = [&] {
        std::string l = s.pick(words);
        if (special && s.chance(1, 3)) {
            l += s.pick({ "\t", "\r", "\v", "\tx", "\r\r", "a\tb\v" });
        }
        return l;
    };
    Lines r;
    const std::size_t alphabet = 1 + s.below(4);
    std::vector<std::string> pool;
    for (std::size_t i = 0; i < alphabet; ++i) {
        pool.push_back(line());
    }
    auto any = [&] { return s.chance(1, 6) ? line() : pool[s.below(pool.size())]; };
    for (std::size_t i = 0, n = s.size(max); i < n; ++i) {
        r.from.push_back(any());
    }
    if (s.chance(1, 3)) {
        c.cls("unrelated");
        for (std::size_t i = 0, n = s.size(max); i < n; ++i) {
            r.to.push_back(any());
        }
        return r;
    }
    c.cls("edited");
    r.to = r.from;
    for (std::size_t i = 0, n = s.size(5); i < n; ++i) {
        const std::size_t at = s.below(r.to.size() + 1);
        switch (s.below(3)) {
        case 0: r.to.insert(r.to.begin() + std::ptrdiff_t(at), any()); break;
        case 1:
            if (at < r.to.size()) {
                r.to.erase(r.to.begin() + std::ptrdiff_t(at));
            }
            break;
        default:
            if (at < r.to.size()) {
                r.to[at] = any();
            }
        }
    }
    return r;
}
std::vector<std::u8string_view> views(const std::vector<std::string>& v)
{
    std::vector<std::u8string_view> r;
    for (const auto& x : v) {
        r.push_back(u8(x));
    }
    return r;
}
std::string show(const std::vector<std::string>& v)
{
    std::string r;
    for (const auto& x : v) {
        r += (r.empty() ? "" : "\n") + x;
    }
    return cat(v.size(), " lines ", quote(r));
}

/// The length of a longest common subsequence, by the textbook recurrence over prefixes.
std::size_t lcs(const std::vector<std::string>& a, const std::vector<std::string>& b)
{
    std::vector<std::size_t> row(b.size() + 1), previous;
    for (std::size_t i = 0; i < a.size(); ++i) {
        previous = row;
        for (std::size_t j = 0; j < b.size(); ++j) {
            row[j + 1] = a[i] == b[j] ? previous[j] + 1 : std::max(row[j], previous[j + 1]);
        }
    }
    return row.back();
}

void s01(Src& s, Ctx& c)
{
    const Lines l = gen_lines(s, c, 25, false);
    c.describe(cat("from ", show(l.from), " to ", show(l.to)));
    const auto from = views(l.from), to = views(l.to);
    const std::vector<ul::Edit_Type> script = ul::shortest_edit_script(from, to);
    std::vector<std::string> result;
    std::size_t i = 0, j = 0, changes = 0;
    bool inserting = false;
    for (ul::Edit_Type e : script) {
        switch (e) {
        case ul::Edit_Type::del:
            VP_CHECK(i < from.size(), "past-end", "the script deletes past the end");
            VP_CHECK(!inserting, "order", "within a block of changes, a deletion follows an insertion");
            ++i, ++changes;
            break;
        case ul::Edit_Type::ins:
            VP_CHECK(j < to.size(), "past-end", "the script inserts past the end");
            result.push_back(l.to[j++]);
            inserting = true;
            ++changes;
            break;
        case ul::Edit_Type::common:
            VP_CHECK(i < from.size() && j < to.size() && l.from[i] == l.to[j], "common", "lines ", i, " and ", j, " are kept as common, but differ");
            result.push_back(l.from[i++]);
            ++j;
            inserting = false;
            break;
        default: fail("type", "an edit is of no known type");
        }
    }
    VP_CHECK(i == from.size() && j == to.size() && result == l.to, "result", "applying the script gives ", show(result));
    const std::size_t best = l.from.size() + l.to.size() - 2 * lcs(l.from, l.to);
    VP_CHECK(changes == best, "shortest", "the script has ", changes, " insertions and deletions; ", best, " suffice");
    if (changes > 1 && changes < script.size()) {
        c.nontrivial(c.desc);
    }
}
Register r_s01({ "S01", s01, 30000, 1000000, "pairs with at least two changes and something in common", true });

// ---------------------------------------------------------------- S02

std::string escaped(std::string_view l)
{
    std::string r;
    for (char ch : l) {
        r += ch == '\t' ? std::string("\\t") : ch == '\r' ? std::string("\\r") : ch == '\v' ? std::string("\\v") : std::string(1, ch);
    }
    return r;
}
std::string without_colors(std::string_view t)
{
    std::string r;
    for (std::size_t i = 0; i < t.size(); ++i) {
        if (t[i] == '\x1b') {
            VP_CHECK(i + 1 < t.size() && t[i + 1] == '[', "escape-sequence", "a broken escape sequence in the output");
            i = t.find('m', i);
            VP_CHECK(i != t.npos, "escape-sequence", "a broken escape sequence in the output");
            continue;
        }
        r += t[i];
    }
    return r;
}

void s02(Src& s, Ctx& c)
{
    const Lines l = gen_lines(s, c, 25, true);
    const std::size_t context = s.below(5);
    const bool color = s.chance(1, 3), joined = s.chance(1, 3);
    c.describe(cat("context ", context, " from ", show(l.from), " to ", show(l.to)));
    std::vector<std::string> from = l.from, to = l.to;
    std::ostringstream out;
    if (joined) {
        auto join = [](const std::vector<std::string>& v) {
            std::string r;
            for (std::size_t i = 0; i < v.size(); ++i) {
                r += (i ? "\n" : "") + v[i];
            }
            return r;
        };
        // A text without lines is one empty line.
        from.resize(std::max<std::size_t>(from.size(), 1));
        to.resize(std::max<std::size_t>(to.size(), 1));
        const Exact a { join(from) }, b { join(to) };
        ul::print_lines_diff(out, u8({ a.data(), a.size() }), u8({ b.data(), b.size() }), context, color);
    }
    else {
        const auto a = views(from), b = views(to);
        ul::print_diff(out, a, b, context, color);
    }
    const std::string text = color ? without_colors(out.str()) : out.str();
    VP_CHECK(color || text.find('\x1b') == text.npos, "color", "escape sequences although no color is requested");
    if (from == to) {
        VP_CHECK(text.empty(), "equal", "a difference of equal texts: ", quote(text));
        return;
    }
    VP_CHECK(text.ends_with('\n'), "end", "the last line is not terminated");

    // Apply it to `from`, as `patch` would, strictly.
    std::vector<std::string> result;
    std::size_t at = 0; // lines of `from` consumed
    std::size_t hunks = 0, begin = 0, last_change_end = 0;
    bool any_change = false;
    auto next_line = [&](std::string& x) {
        if (begin >= text.size()) {
            return false;
        }
        const std::size_t e = text.find('\n', begin);
        x = text.substr(begin, e - begin);
        begin = e + 1;
        return true;
    };
    std::string x;
    std::size_t changes = 0;
    while (next_line(x)) {
        std::size_t fs, fc, ts, tc;
        int used = 0;
        VP_CHECK(std::sscanf(x.c_str(), "@@ -%zu,%zu +%zu,%zu @@%n", &fs, &fc, &ts, &tc, &used) == 4 && std::size_t(used) == x.size(), "header", "expected a hunk header, got ", quote(x));
        ++hunks;
        // (An empty range is located after the line it names.)
        const std::size_t f = fc ? fs - 1 : fs, t = tc ? ts - 1 : ts;
        VP_CHECK((fc == 0 || fs > 0) && f >= at && f + fc <= from.size(), "from-range", "hunk ", quote(x), " after line ", at, " of ", from.size());
        VP_CHECK(hunks == 1 || f > at, "adjacent-hunks", "hunk ", quote(x), " follows the previous one immediately");
        while (at < f) {
            result.push_back(from[at++]);
        }
        VP_CHECK((tc == 0 || ts > 0) && t == result.size(), "to-range", "hunk ", quote(x), " after ", result.size(), " lines of the result");
        std::size_t removed = 0, added = 0, leading = 0, trailing = 0;
        bool changed = false;
        while (removed < fc || added < tc) {
            VP_CHECK(next_line(x) && !x.empty(), "hunk-lines", "the hunk has fewer lines than its header says");
            const std::string body = x.substr(1);
            switch (x[0]) {
            case ' ':
            case '-':
                VP_CHECK(removed < fc && at < from.size() && body == escaped(from[at]), "old-line", "line ", at, " is ", quote(body));
                if (x[0] == ' ') {
                    result.push_back(from[at]);
                    ++added;
                    changed ? ++trailing : ++leading;
                }
                else {
                    changed = true, trailing = 0, ++changes;
                }
                ++at, ++removed;
                break;
            case '+':
                VP_CHECK(added < tc && result.size() < to.size() && body == escaped(to[result.size()]), "new-line", "line ", result.size(), " of the result is ", quote(body));
                result.push_back(to[result.size()]);
                ++added;
                changed = true, trailing = 0, ++changes;
                break;
            default: fail("line", cat("a line starts with neither space, - nor +: ", quote(x)));
            }
            VP_CHECK(added <= tc && removed <= fc, "hunk-lines", "the hunk has more lines than its header says");
        }
        VP_CHECK(changed, "empty-hunk", "a hunk without a change");
        VP_CHECK(leading == std::min(context, f + leading - (any_change ? last_change_end : 0)) || (leading == context), "leading-context", leading, " lines of leading context");
        VP_CHECK(leading == (f == 0 && leading < context ? leading : context), "leading-context", leading, " lines of leading context, although there are more");
        VP_CHECK(trailing == (at == from.size() && trailing < context ? trailing : context), "trailing-context", trailing, " lines of trailing context, although there are more");
        any_change = true;
        last_change_end = at - trailing;
    }
    while (at < from.size()) {
        result.push_back(from[at++]);
    }
    VP_CHECK(result == to, "result", "applying the printed difference gives ", show(result));
    const std::size_t best = from.size() + to.size() - 2 * lcs(from, to);
    VP_CHECK(changes == best, "shortest", changes, " changed lines are shown; ", best, " suffice");
    if (hunks > 1) {
        c.cls("several hunks");
    }
    if (color) {
        c.cls("color");
    }
    if (changes > 1) {
        c.nontrivial(c.desc, context);
    }
}
Register r_s02({ "S02", s02, 30000, 1000000, "pairs with at least two changes, under every context size and with and without color", true });

// ---------------------------------------------------------------- scratch files

struct Scratch {
    std::string dir;
    Scratch()
    {
        const char* t = std::getenv("VP_TMP");
        dir = cat(t ? t : "/tmp", "/s", int(getpid()));
        mkdir(dir.c_str(), 0700);
    }
    std::string file(std::string_view name, std::string_view content) const
    {
        const std::string p = cat(dir, "/", name);
        FILE* f = std::fopen(p.c_str(), "wb");
        std::fwrite(content.data(), 1, content.size(), f);
        std::fclose(f);
        return p;
    }
};
std::string slurp(const std::string& p)
{
    std::string r;
    FILE* f = std::fopen(p.c_str(), "rb");
    char b[4096];
    for (std::size_t n; f && (n = std::fread(b, 1, sizeof b, f)) > 0;) {
        r.append(b, n);
    }
    if (f) {
        std::fclose(f);
    }
    return r;
}
std::size_t open_files()
{
    std::size_t n = 0;
    for (int fd = 0; fd < 256; ++fd) {
        n += fcntl(fd, F_GETFD) != -1;
    }
    return n;
}

std::string gen_content(Src& s, Ctx& c)
{
    std::string r;
    const std::size_t sizes[] { 0, 1, BUFSIZ - 1, BUFSIZ, BUFSIZ + 1, 2 * BUFSIZ - 1, 2 * BUFSIZ, 2 * BUFSIZ + 1, 5 * BUFSIZ };
    const std::size_t n = s.chance(1, 3) ? sizes[s.below(9)] : s.size(300);
    if (n >= BUFSIZ) {
        c.cls("several blocks");
    }
    const char* unit = s.pick({ "a", "ab\n", "\xc3\xa9", "\xe4\xb8\xad", "\xf0\x9f\x98\x80x", "int x = 1; // \xe2\x82\xac\n" });
    while (r.size() < n) {
        r += unit;
    }
    if (s.chance(1, 2)) {
        r.resize(n); // possibly within a code point
    }
    if (s.chance(1, 4) && !r.empty()) {
        r[s.below(r.size())] = char(s.below(256));
    }
    if (s.chance(1, 8)) {
        r.insert(s.below(r.size() + 1), 1, '\0');
    }
    return r;
}

// ---------------------------------------------------------------- F01

const char* error_name(ul::IO_Error_Code e)
{
    switch (e) {
    case ul::IO_Error_Code::cannot_open: return "cannot_open";
    case ul::IO_Error_Code::read_error: return "read_error";
    case ul::IO_Error_Code::write_error: return "write_error";
    case ul::IO_Error_Code::corrupted: return "corrupted";
    }
    return "?";
}

void file_handles(Src& s, Ctx& c, const Scratch& dir)
{
    // A history over three handles; the reference tracks which stream each of them owns.
    const std::string path = dir.file("h", "handle");
    const std::size_t before = open_files();
    int released = 0;
    {
        ul::Unique_File files[3];
        FILE* owned[3] {};
        std::string log = "handles:";
        for (std::size_t op = 0, n = 2 + s.size(10); op < n; ++op) {
            const std::size_t i = s.below(3), k = s.below(3);
            switch (s.below(6)) {
            case 0:
                log += cat(" open@", i);
                files[i] = ul::fopen_unique(path.c_str(), "rb");
                owned[i] = files[i].get();
                VP_CHECK(owned[i], "open", "a file is not opened");
                break;
            case 1:
                log += cat(" close@", i);
                files[i].close();
                owned[i] = nullptr;
                break;
            case 2:
                if (i != k) {
                    log += cat(" move@", i, k);
                    files[i] = std::move(files[k]);
                    owned[i] = std::exchange(owned[k], nullptr);
                }
                break;
            case 3: {
                log += cat(" move out@", i);
                ul::Unique_File other { std::move(files[i]) };
                VP_CHECK(other.get() == owned[i] && bool(other) == (owned[i] != nullptr), "move", "a moved handle refers to something else");
                owned[i] = nullptr;
                break;
            }
            case 4:
                log += cat(" swap@", i, k);
                swap(files[i], files[k]);
                std::swap(owned[i], owned[k]);
                break;
            default: {
                log += cat(" release@", i);
                FILE* f = files[i].release();
                VP_CHECK(f == owned[i], "release", "the released stream is another one");
                if (f) {
                    ++released;
                    VP_CHECK(std::fgetc(f) == 'h', "release", "the released stream was closed");
                    std::fclose(f);
                }
                owned[i] = nullptr;
            }
            }
            c.describe(log);
            std::size_t open = 0;
            for (int m = 0; m < 3; ++m) {
                VP_CHECK(files[m].get() == owned[m] && bool(files[m]) == (owned[m] != nullptr), "owner", "handle ", m, " does not own the stream it should");
                open += owned[m] != nullptr;
            }
            VP_CHECK(open_files() == before + open, "leak", open_files() - before, " streams are open; ", open, " are owned");
        }
        c.nontrivial(log);
    }
    VP_CHECK(open_files() == before, "leak", "a stream stays open");
    c.cls("handle history");
}

void f01(Src& s, Ctx& c)
{
    const Scratch dir;
    if (s.chance(1, 4)) {
        file_handles(s, c, dir);
        return;
    }
    std::string path, content;
    std::optional<ul::IO_Error_Code> error;
    const std::size_t kind = s.below(8);
    if (kind == 0) {
        path = dir.dir + s.pick({ "/missing", "/missing/too", "" });
        error = path == dir.dir ? ul::IO_Error_Code::read_error : ul::IO_Error_Code::cannot_open;
        c.cls(path == dir.dir ? "directory" : "missing");
    }
    else {
        content = gen_content(s, c);
        path = dir.file("f", content);
        if (kind == 1) {
            // A path of exactly the length of a block, and around it: too long, or full of slashes.
            const std::size_t n = std::size_t(BUFSIZ) + s.below(3) - 1;
            path.insert(path.rfind('/'), n - path.size(), '/');
            error = ul::IO_Error_Code::cannot_open; // longer than PATH_MAX
            c.cls("very long path");
        }
        else if (kind == 2) {
            const std::size_t n = s.size(3000);
            path.insert(path.rfind('/'), n, '/');
            c.cls("long path");
        }
    }
    c.describe(cat(quote(path.size() > 100 ? path.substr(0, 50) + "..." : path), " (", path.size(), ") content of ", content.size(), ": ", quote(content.substr(0, 60))));
    c.nontrivial(content, path.size());
    const bool valid = valid_utf8(content);
    c.cls(valid ? "UTF-8" : "not UTF-8");
    const std::size_t before = open_files();
    const Exact p { path }; // The path need not be null-terminated.
    const std::string_view pv { p.data(), p.size() };

    auto check_error = [&](const char* what, std::optional<ul::IO_Error_Code> got, bool utf8) {
        const std::optional<ul::IO_Error_Code> want = error ? error : utf8 && !valid ? std::optional(ul::IO_Error_Code::corrupted) : std::nullopt;
        VP_CHECK(got == want, cat("status-", what), what, " gives ", got ? error_name(*got) : "success", ", not ", want ? error_name(*want) : "success");
        VP_CHECK(!got || !ul::to_prose(*got).empty(), "prose", "no description of the error");
    };
    auto code = [](const auto& r) -> std::optional<ul::IO_Error_Code> {
        if (r) {
            return std::nullopt;
        }
        return r.error();
    };
    auto equal = [&](const char* what, const auto& v, std::size_t skip = 0) { VP_CHECK(v.size() == skip + content.size() && (content.empty() || std::memcmp(v.data() + skip, content.data(), content.size()) == 0), cat("content-", what), what, " gives ", v.size() - std::min(skip, v.size()), " bytes, not the ", content.size(), " of the file"); };
    {
        const auto r = ul::load_utf8_file(pv);
        check_error("load_utf8_file", code(r), true);
        if (r) {
            equal("load_utf8_file", *r);
        }
    }
    {
        std::vector<char8_t> v { u8'p', u8'\x80' };
        const auto r = ul::load_utf8_file(v, pv);
        check_error("load_utf8_file(vector)", code(r), true);
        VP_CHECK(v.size() >= 2 && v[0] == u8'p' && v[1] == u8'\x80', "prefix", "what was in the vector has changed");
        if (r) {
            equal("load_utf8_file(vector)", v, 2);
        }
    }
    {
        std::vector<std::byte> v;
        const auto r = ul::file_to_bytes(v, pv);
        check_error("file_to_bytes", code(r), false);
        if (r) {
            equal("file_to_bytes", v);
        }
    }
    {
        std::string got;
        auto take = [&](std::span<const std::byte> chunk) { got.append(reinterpret_cast<const char*>(chunk.data()), chunk.size()); };
        const auto r = ul::file_to_bytes_chunked(take, pv);
        check_error("file_to_bytes_chunked", code(r), false);
        if (r) {
            equal("file_to_bytes_chunked", got);
        }
    }
    {
        const auto r = ul::load_utf32le_file(pv);
        if (error) {
            check_error("load_utf32le_file", code(r), false);
        }
        else if (content.size() % 4) {
            VP_CHECK(code(r) == ul::IO_Error_Code::corrupted, "status-load_utf32le_file", "a file of ", content.size(), " bytes is loaded as UTF-32");
        }
        else {
            VP_CHECK(r && r->size() == content.size() / 4, "content-load_utf32le_file", "not the code units of the file");
            for (std::size_t i = 0; i < r->size(); ++i) {
                auto b = [&](std::size_t k) { return char32_t(static_cast<unsigned char>(content[4 * i + k])); };
                VP_CHECK((*r)[i] == (b(0) | b(1) << 8 | b(2) << 16 | b(3) << 24), "content-load_utf32le_file", "code unit ", i, " differs");
            }
        }
    }
    VP_CHECK(open_files() == before, "leak", "a file stays open");
}
Register r_f01({ "F01", f01, 3000, 60000, "every file and path, and histories of file handles", true });

// ---------------------------------------------------------------- F02

int run_cli(const std::vector<std::string>& args, const std::string& out, const std::string& err)
{
    const char* cli = std::getenv("VP_CLI");
    VP_CHECK(cli, "setup", "VP_CLI is not set");
    std::vector<char*> argv { const_cast<char*>("ulight-cli") };
    for (const auto& a : args) {
        argv.push_back(const_cast<char*>(a.c_str()));
    }
    argv.push_back(nullptr);
    const pid_t pid = vfork();
    if (pid == 0) {
        const int o = open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), e = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        dup2(o, 1);
        dup2(e, 2);
        execv(cli, argv.data());
        _exit(125);
    }
    int status = 0;
    waitpid(pid, &status, 0);
    return WIFEXITED(status) ? WEXITSTATUS(status) : 1000 + WTERMSIG(status);
}

void f02(Src& s, Ctx& c)
{
    const Scratch dir;
    const ulight_lang lang = gen_lang(s);
    std::string source = gen_source(s, lang, s.chance(1, 4) ? 4000 : 300);
    if (s.chance(1, 6)) {
        // Output larger than the buffers of the program.
        const std::string once = source + "\n";
        while (source.size() < 40000 && !once.empty()) {
            source += once;
        }
        c.cls("more than one buffer of text");
    }
    if (s.chance(1, 8)) {
        corrupt_utf8(s, source);
    }
    // (JSONC and the like have names which differ from their file extensions; any name will do.)
    static const std::map<std::string, const char*> extensions { { "javascript", "js" }, { "typescript", "ts" }, { "python", "py" }, { "rust", "rs" }, { "kotlin", "kt" }, { "markdown", "md" }, { "plaintext", "txt" }, { "bash", "sh" }, { "nasm", "asm" }, { "llvm", "ll" }, { "cowel", "cow" } };
    std::string ext = lang_id(lang);
    if (auto it = extensions.find(ext); it != extensions.end()) {
        ext = it->second;
    }
    const bool unknown = s.chance(1, 12);
    const std::string name = unknown ? s.pick({ "x.unknown", "x", "x.", "xcpp" }) : "x." + ext;
    const std::string in = dir.file(name, source), out = dir.dir + "/out", sout = dir.dir + "/stdout", serr = dir.dir + "/stderr";
    unlink(out.c_str());
    const ulight_lang found = ulight_lang_from_path(in.c_str(), in.size());
    const std::size_t target = s.below(8);
    c.describe(cat(name, target < 4 ? " to stdout: " : target < 7 ? " to a file: " : " to nowhere: ", quote(source.substr(0, 300)), source.size() > 300 ? "..." : ""));
    c.nontrivial(source, std::uint64_t(lang) * 8 + target);
    std::vector<std::string> args { in };
    if (target >= 4) {
        args.push_back(target < 7 ? out : s.pick({ std::string("/dev/full"), dir.dir + "/none/out" }));
    }
    const int status = run_cli(args, sout, serr);
    const std::string got = target < 4 ? slurp(sout) : target < 7 ? slurp(out) : "", err = slurp(serr);
    VP_CHECK(status == 0 || status == 1, "exit", "exit status ", status, ": ", err.substr(0, 300));
    VP_CHECK(target < 4 || slurp(sout).empty(), "stdout", "output on the standard output, although a file is named");
    Run want;
    const bool readable = valid_utf8(source) && found != ULIGHT_LANG_NONE;
    if (readable) {
        want = html(source, found);
    }
    const bool ok = readable && want.status == ULIGHT_STATUS_OK && (target < 7 || (args[1] == "/dev/full" && want.html.empty()));
    c.cls(ok ? "succeeds" : !readable ? "unknown language or not UTF-8" : "cannot be written");
    VP_CHECK((status == 0) == ok, "status", "exit status ", status, ", although highlighting and writing ", ok ? "succeed" : "fail");
    VP_CHECK(err.empty() == ok, "message", ok ? "messages, although nothing is wrong: " : "no message says what is wrong", err.substr(0, 200));
    if (ok && target < 7) {
        if (got != want.html) {
            std::size_t i = 0;
            while (i < got.size() && i < want.html.size() && got[i] == want.html[i]) {
                ++i;
            }
            fail("output", cat("the output differs from the library's at ", i, ": ", quote(got.substr(i, 60)), " instead of ", quote(want.html.substr(i, 60))));
        }
    }
}
Register r_f02({ "F02", f02, 240, 6000, "every run of the program", false });

} // namespace
