// UTF-8, character classes, and the text-matching helpers all highlighters are built from.
#include "hl.hpp"

#include <algorithm>
#include <array>
#include <bitset>
#include <climits>
#include <compare>
#include <functional>
#include <list>
#include <sstream>

#include "ulight/impl/ascii_algorithm.hpp"
#include "ulight/impl/ascii_chars.hpp"
#include "ulight/impl/charset.hpp"
#include "ulight/impl/escapes.hpp"
#include "ulight/impl/lang/cpp.hpp"
#include "ulight/impl/numbers.hpp"
#include "ulight/impl/parse_utils.hpp"
#include "ulight/impl/unicode.hpp"
#include "ulight/impl/unicode_algorithm.hpp"
#include "ulight/impl/unicode_chars.hpp"

#include "xid.inc"

using namespace vp;
namespace ul = ulight;

namespace {

using u8v = std::u8string_view;

u8v as8(std::string_view s) { return { reinterpret_cast<const char8_t*>(s.data()), s.size() }; }
std::string narrow(u8v s) { return { reinterpret_cast<const char*>(s.data()), s.size() }; }

// ---------------------------------------------------------------- reference UTF-8 (Table 3-7)

struct Ref {
    bool ok; // a well-formed sequence of `len` bytes at the start
    int len; // of the sequence, or of the maximal subpart
    std::uint32_t cp;
    int error; // 0 none, 1 empty, 2 missing units, 3 illegal
};

struct Row37 {
    int lo, hi, n, lo2, hi2;
};
constexpr Row37 table37[] {
    { 0x00, 0x7F, 1, 0, 0 },       { 0xC2, 0xDF, 2, 0x80, 0xBF }, { 0xE0, 0xE0, 3, 0xA0, 0xBF },
    { 0xE1, 0xEC, 3, 0x80, 0xBF }, { 0xED, 0xED, 3, 0x80, 0x9F }, { 0xEE, 0xEF, 3, 0x80, 0xBF },
    { 0xF0, 0xF0, 4, 0x90, 0xBF }, { 0xF1, 0xF3, 4, 0x80, 0xBF }, { 0xF4, 0xF4, 4, 0x80, 0x8F },
};

Ref ref_decode(const unsigned char* s, std::size_t n)
{
    if (n == 0) {
        return { false, 0, 0xFFFD, 1 };
    }
    for (const Row37& r : table37) {
        if (s[0] < r.lo || s[0] > r.hi) {
            continue;
        }
        int have = 1;
        for (; have < r.n && std::size_t(have) < n; ++have) {
            const int lo = have == 1 ? r.lo2 : 0x80, hi = have == 1 ? r.hi2 : 0xBF;
            if (s[have] < lo || s[have] > hi) {
                break;
            }
        }
        if (have < r.n) {
            // With fewer units than the first one announces, the error is that units are missing.
            return { false, have, 0xFFFD, n < std::size_t(r.n) ? 2 : 3 };
        }
        static constexpr std::uint32_t offset[] { 0, 0, 0x3080, 0xE2080, 0x3C82080 };
        std::uint32_t cp = 0;
        for (int i = 0; i < r.n; ++i) {
            cp = (cp << 6) + s[i];
        }
        return { true, r.n, cp - offset[r.n], 0 };
    }
    return { false, 1, 0xFFFD, 3 };
}
Ref ref_decode(std::string_view s) { return ref_decode(reinterpret_cast<const unsigned char*>(s.data()), s.size()); }

int error_of(ul::utf8::Error_Code e)
{
    switch (e) {
    case ul::utf8::Error_Code::no_data: return 1;
    case ul::utf8::Error_Code::missing_units: return 2;
    case ul::utf8::Error_Code::illegal_bits: return 3;
    }
    return -1;
}

/// All decoders on the start of `s`, which must be the whole of an exact-size block.
void check_decoders(std::string_view s)
{
    const Ref r = ref_decode(s);
    const auto got = ul::utf8::decode_and_length(as8(s));
    VP_CHECK(got.has_value() == r.ok, "accept", quote(s), ": decode_and_length ", got.has_value() ? "accepts" : "rejects");
    if (got) {
        VP_CHECK(got->length == r.len && got->code_point == r.cp, "value", quote(s), ": got ", std::uint32_t(got->code_point), "/", got->length, ", expected ", r.cp, "/", r.len);
    }
    else {
        VP_CHECK(error_of(got.error()) == r.error, "error-code", quote(s), ": error ", error_of(got.error()), ", expected ", r.error);
    }
    const auto dec = ul::utf8::decode(as8(s));
    VP_CHECK(dec.has_value() == r.ok && (!r.ok || *dec == r.cp), "decode", quote(s), ": decode disagrees");
    const auto lossy = ul::utf8::decode_and_length_or_replacement(as8(s));
    VP_CHECK(lossy.length == r.len && lossy.code_point == r.cp, "replacement", quote(s), ": lossy decoding gives ", std::uint32_t(lossy.code_point), "/", lossy.length, ", expected ", r.cp, "/", r.len);
    VP_CHECK(ul::utf8::decode_or_replacement(as8(s)) == r.cp, "decode-or-replacement", quote(s));
    if (s.size() >= 4) {
        std::array<char8_t, 4> a;
        std::copy_n(as8(s).data(), 4, a.begin());
        const auto l = ul::utf8::decode_and_length_or_replacement(a);
        VP_CHECK(l.length == r.len && l.code_point == r.cp, "replacement-array", quote(s), ": array overload gives ", std::uint32_t(l.code_point), "/", l.length, ", expected ", r.cp, "/", r.len);
    }
    if (!s.empty()) {
        const int n = ul::utf8::sequence_length(char8_t(s[0]));
        int want = 0;
        for (const Row37& t : table37) {
            if ((unsigned char)s[0] >= t.lo && (unsigned char)s[0] <= t.hi) {
                want = t.n;
            }
        }
        VP_CHECK(n == want, "sequence-length", quote(s.substr(0, 1)), ": ", n, ", expected ", want);
        VP_CHECK(ul::utf8::sequence_length(char8_t(s[0]), 7) == (want ? want : 7), "sequence-length-fallback", quote(s.substr(0, 1)));
        if (n != 0 && s.size() >= std::size_t(n)) {
            std::array<char8_t, 4> a {};
            std::copy_n(as8(s).data(), std::min<std::size_t>(4, s.size()), a.begin());
            VP_CHECK(ul::utf8::is_valid(a, n) == r.ok, "is-valid-array", quote(s));
        }
    }
    if (r.ok) {
        VP_CHECK(ul::utf8::unchecked_sequence_length(char8_t(s[0])) == r.len, "unchecked-length", quote(s));
        VP_CHECK(ul::utf8::decode_unchecked(as8(s).data()) == r.cp, "unchecked-decode", quote(s));
    }
}

// ---------------------------------------------------------------- U01

std::string gen_bytes(Src& s, std::size_t max)
{
    std::string o;
    const std::size_t n = s.size(max);
    for (std::size_t i = 0; i < n; ++i) {
        switch (s.weighted({ 5, 2, 2, 1 })) {
        case 0: gen_code_point(s, o); break;
        case 1: o += char(s.below(256)); break;
        case 2: { // an interesting byte
            static constexpr unsigned char b[] { 0x00, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xF7, 0xF8, 0xFB, 0xFC, 0xFE, 0xFF };
            o += char(s.pick(b));
            break;
        }
        default: { // a truncated sequence
            std::string t;
            gen_code_point(s, t);
            o += t.substr(0, s.below(t.size() + 1));
            break;
        }
        }
    }
    return o;
}

std::uint64_t u01_count(bool) { return 65536; }
void u01_enum(std::uint64_t i, Ctx& c)
{
    const unsigned char a = (unsigned char)(i >> 8), b = (unsigned char)i;
    char buf[4] = { char(a), char(b), 0, 0 };
    const auto run = [&](std::size_t n) {
        const Exact e { { buf, n } };
        check_decoders({ e.data(), n });
    };
    c.evals = 0;
    if (b == 0) {
        run(0);
        run(1);
        c.evals += 2;
    }
    run(2);
    ++c.evals;
    static constexpr unsigned char few[] { 0x00, 0x41, 0x7F, 0x80, 0x9F, 0xA0, 0xBF, 0xC0, 0xE2, 0xFF };
    const bool second_cont = (b & 0xC0) == 0x80;
    const auto third = [&](unsigned char t) {
        buf[2] = char(t);
        // no heap block for the bulk of it
        check_decoders({ buf, 3 });
        for (const unsigned char d : { 0x00, 0x7F, 0x80, 0xBF, 0xC0, 0xFF }) {
            buf[3] = char(d);
            check_decoders({ buf, 4 });
        }
        c.evals += 7;
    };
    if (a >= 0xE0 && a <= 0xF8 && second_cont) {
        for (int t = 0; t < 256; ++t) {
            third((unsigned char)t);
        }
    }
    else {
        for (const unsigned char t : few) {
            third(t);
        }
    }
    c.cls(a < 0x80 ? "first unit 00-7F" : a < 0xC2 ? "first unit 80-C1" : a < 0xE0 ? "first unit C2-DF" : a < 0xF0 ? "first unit E0-EF" : a < 0xF5 ? "first unit F0-F4" : "first unit F5-FF");
    c.nontrivial(std::string_view { buf, 2 });
}

void u01(Src& s, Ctx& c)
{
    const std::string t = gen_bytes(s, 24);
    c.describe(quote(t));
    const Exact e { t };
    const std::string_view v { e.data(), e.size() };
    check_decoders(v);
    // The whole string.
    std::size_t i = 0;
    std::vector<std::uint32_t> want;
    std::vector<std::size_t> at;
    int err = 0;
    while (i < v.size()) {
        const Ref r = ref_decode(v.substr(i));
        if (!r.ok) {
            err = r.error;
            break;
        }
        want.push_back(r.cp);
        at.push_back(i);
        i += std::size_t(r.len);
    }
    const auto valid = ul::utf8::is_valid(as8(v));
    VP_CHECK(valid.has_value() == (err == 0), "is-valid", "is_valid says ", valid.has_value());
    VP_CHECK(err == 0 || error_of(valid.error()) == err, "is-valid-error", "is_valid: error ", error_of(valid.error()), ", expected ", err);
    VP_CHECK(valid_utf8(v) == (err == 0), "reference", "the two reference validators disagree");
    if (err == 0) {
        VP_CHECK(ul::utf8::code_points_unchecked(as8(v)) == want.size(), "count", "code_points_unchecked");
    }
    // Iteration gives exactly the code points up to the first error, and then throws.
    std::vector<std::uint32_t> got;
    bool threw = false;
    try {
        for (const char32_t cp : ul::utf8::Code_Point_View { as8(v) }) {
            got.push_back(cp);
            VP_CHECK(got.size() <= v.size(), "iterate-forever", "too many code points");
        }
    } catch (const ul::utf8::Unicode_Error& x) {
        threw = true;
        VP_CHECK(err != 0, "iterate-throws", "iteration of valid UTF-8 throws");
    }
    VP_CHECK(threw == (err != 0), "iterate-no-throw", "iteration of malformed UTF-8 does not throw");
    VP_CHECK(got == want, "iterate", "iteration gives ", got.size(), " code points, expected ", want.size());
    {
        // Advancing alone only looks at the first code unit, but never goes past the end, and always gets further.
        std::size_t pos = 0;
        bool stuck = false;
        ul::utf8::Code_Point_Iterator it { as8(v) };
        try {
            while (it != ul::utf8::Code_Point_Iterator_Sentinel {}) {
                const auto lead = (unsigned char)v[pos];
                const std::size_t len = lead < 0x80 ? 1 : lead < 0xC2 ? 0 : lead < 0xE0 ? 2 : lead < 0xF0 ? 3 : lead < 0xF5 ? 4 : 0;
                stuck = len == 0 || len > v.size() - pos;
                const auto old = it++;
                VP_CHECK(!stuck, "advance", "advancing over a malformed sequence at ", pos, " succeeds");
                VP_CHECK(old != it, "advance", "advancing has no effect");
                pos += len;
            }
            VP_CHECK(pos == v.size(), "advance", "ends at ", pos, " of ", v.size());
        } catch (const ul::utf8::Unicode_Error&) {
            VP_CHECK(stuck, "advance", "advancing over a well-formed sequence at ", pos, " throws");
        }
    }
    c.cls(err == 0 ? "valid" : err == 2 ? "missing units" : "illegal");
    c.cls(cat("code points ", Cls_Hist::bucket(want.size())));
    if (v.size() >= 2) {
        c.nontrivial(v);
    }
}
Register r01({ "U01", u01, 150000, 4000000, "first-two-bytes classes enumerated exhaustively (all third bytes for three- and four-byte leads); strings of at least two bytes", true, nullptr, u01_count, u01_enum });

// ---------------------------------------------------------------- U02

std::uint64_t u02_count(bool) { return 0x1100; }
void u02_enum(std::uint64_t i, Ctx& c)
{
    for (std::uint32_t cp = std::uint32_t(i) << 8; cp < (std::uint32_t(i) + 1) << 8; ++cp) {
        const auto e = ul::utf8::encode8_unchecked(char32_t(cp));
        const bool scalar = cp < 0xD800 || cp > 0xDFFF;
        VP_CHECK(e.length == (cp < 0x80 ? 1 : cp < 0x800 ? 2 : cp < 0x10000 ? 3 : 4), "length", "U+", cp, ": length ", e.length);
        const std::string got = narrow(e.as_string());
        if (scalar) {
            std::string want;
            put_utf8(want, cp);
            VP_CHECK(got == want, "encode", "code point ", cp, " encodes as ", quote(got), ", expected ", quote(want));
            VP_CHECK(std::string(e.begin(), e.end()) == want, "range", "code point ", cp);
            const auto d = ul::utf8::decode_and_length(e.as_string());
            VP_CHECK(d && d->code_point == cp && d->length == e.length, "round-trip", "code point ", cp);
        }
        else {
            VP_CHECK(!ul::utf8::is_valid(e.as_string()), "surrogate", "surrogate ", cp, " is encoded as valid UTF-8");
            VP_CHECK(ul::utf8::decode_unchecked(e.as_string().data()) == cp, "surrogate-round-trip", "surrogate ", cp);
        }
    }
    c.evals = 256;
    c.cls(i < 8 ? "BMP, up to U+07FF" : i < 0x100 ? "BMP, rest" : "supplementary");
    c.nontrivial(i);
}
void u02(Src& s, Ctx& c)
{
    // Sequences of scalar values survive encoding and decoding, in any surroundings.
    std::vector<std::uint32_t> cps;
    std::string enc, ref;
    const std::size_t n = 1 + s.size(20);
    for (std::size_t i = 0; i < n; ++i) {
        std::string one;
        gen_code_point(s, one);
        const Ref r = ref_decode(one);
        cps.push_back(r.cp);
        enc += narrow(ul::utf8::encode8_unchecked(r.cp).as_string());
        ref += one;
    }
    c.describe(quote(ref));
    VP_CHECK(enc == ref, "encode", "encoded as ", quote(enc));
    std::size_t i = 0;
    for (const char32_t x : ul::utf8::Code_Point_View { as8(enc) }) {
        VP_CHECK(i < cps.size() && x == cps[i], "decode", "code point ", i);
        ++i;
    }
    VP_CHECK(i == cps.size(), "count", "decoded ", i, " of ", cps.size());
    c.cls(cat("code points ", Cls_Hist::bucket(n)));
    c.nontrivial(ref);
}
Register r02({ "U02", u02, 30000, 500000, "all 1114112 code points (in blocks of 256), and sequences of them; every case is non-trivial", true, nullptr, u02_count, u02_enum });

// ---------------------------------------------------------------- U03 lossy searching

void u03(Src& s, Ctx& c)
{
    const std::string t = gen_bytes(s, 30);
    // The predicate: a set of code points, often ones that occur.
    std::vector<std::uint32_t> cps;
    std::vector<std::size_t> at;
    for (std::size_t i = 0; i < t.size();) {
        const Ref r = ref_decode(std::string_view(t).substr(i));
        cps.push_back(r.cp);
        at.push_back(i);
        i += std::size_t(r.len);
    }
    std::vector<std::uint32_t> set;
    const bool complement = s.chance(1, 3);
    const std::size_t k = s.below(5);
    for (std::size_t i = 0; i < k; ++i) {
        set.push_back(cps.empty() || s.chance(1, 5) ? 0xFFFD : s.pick(cps));
    }
    const std::uint32_t limit = s.chance(1, 3) ? s.pick({ 0x80u, 0x800u, 0xFFFDu, 0x10000u }) : 0;
    const auto p = [&](char32_t x) {
        const bool in = limit ? x < limit : std::find(set.begin(), set.end(), std::uint32_t(x)) != set.end();
        return in != complement;
    };
    c.describe(cat(quote(t), " with a set of ", k, limit ? " below a limit" : "", complement ? " complemented" : ""));
    std::size_t first = t.size(), first_not = t.size();
    for (std::size_t i = cps.size(); i-- > 0;) {
        (p(cps[i]) ? first : first_not) = at[i];
    }
    const bool any = std::any_of(cps.begin(), cps.end(), p), all = std::all_of(cps.begin(), cps.end(), p);
    const Exact e { t };
    const u8v v = as8({ e.data(), e.size() });
    const auto npos = u8v::npos;
    const auto or_npos = [&](bool found, std::size_t i) { return found ? i : npos; };
    VP_CHECK(ul::utf8::find_if(v, p) == or_npos(any, first), "find_if", "gives ", ul::utf8::find_if(v, p), ", expected ", or_npos(any, first));
    VP_CHECK(ul::utf8::find_if_not(v, p) == or_npos(!all, first_not), "find_if_not", "gives ", ul::utf8::find_if_not(v, p));
    VP_CHECK(ul::utf8::length_if(v, p) == first_not, "length_if", "gives ", ul::utf8::length_if(v, p), ", expected ", first_not);
    VP_CHECK(ul::utf8::length_if_not(v, p) == first, "length_if_not", "gives ", ul::utf8::length_if_not(v, p), ", expected ", first);
    VP_CHECK(ul::utf8::all_of(v, p) == all, "all_of", "expected ", all);
    VP_CHECK(ul::utf8::any_of(v, p) == any, "any_of", "expected ", any);
    VP_CHECK(ul::utf8::none_of(v, p) == !any, "none_of", "expected ", !any);
    VP_CHECK(ul::utf8::any_not_of(v, p) == !all, "any_not_of", "expected ", !all);
    // Lossy decoding consumes everything, each malformed part as maximal subparts.
    std::vector<std::uint32_t> got;
    u8v rest = v;
    while (!rest.empty()) {
        const auto [cp, len] = ul::utf8::decode_and_length_or_replacement(rest);
        VP_CHECK(len >= 1 && std::size_t(len) <= rest.size(), "advance", "lossy decoding advances by ", len, " of ", rest.size());
        got.push_back(cp);
        rest.remove_prefix(std::size_t(len));
    }
    VP_CHECK(got == cps, "lossy", "lossy decoding gives ", got.size(), " code points, expected ", cps.size());
    // Appending cannot change what was decoded of a valid string.
    c.cls(valid_utf8(t) ? "valid" : "malformed");
    c.cls(any && !all ? "mixed" : any ? "all" : "none");
    if (cps.size() >= 2) {
        c.nontrivial(t, k * 2 + complement + limit);
    }
}
Register r03({ "U03", u03, 200000, 5000000, "byte strings that decode to at least two (real or replacement) characters; distinct by (string, predicate)", true });

// ---------------------------------------------------------------- U04 character classes

const Xid_Row* xid_row(std::uint32_t cp)
{
    const auto* it = std::upper_bound(std::begin(xid_rows), std::end(xid_rows), cp, [](std::uint32_t c, const Xid_Row& r) { return c < r.first; });
    if (it == std::begin(xid_rows)) {
        return nullptr;
    }
    --it;
    return cp <= it->last ? it : nullptr;
}

template <class F>
void check_class(std::uint32_t cp, F f, bool want, const char* name)
{
    VP_CHECK(bool(f(char32_t(cp))) == want, name, name, "(", cp, ") as char32_t is ", !want);
    if (cp < 256) {
        VP_CHECK(bool(f(char8_t(cp))) == want, name, name, "(", cp, ") as char8_t is ", !want);
    }
}

std::uint64_t u04_count(bool) { return 0x1101; }
void u04_enum(std::uint64_t i, Ctx& c)
{
    c.evals = 256;
    for (std::uint32_t cp = std::uint32_t(i) << 8; cp < (std::uint32_t(i) + 1) << 8; ++cp) {
        const bool start = ul::is_xid_start(char32_t(cp)), cont = ul::is_xid_continue(char32_t(cp));
        VP_CHECK(!start || cont, "start-implies-continue", cp);
        if (const Xid_Row* r = xid_row(cp)) {
            VP_CHECK(start == r->start, "xid-start", "is_xid_start(", cp, ") is ", start);
            VP_CHECK(cont == r->cont, "xid-continue", "is_xid_continue(", cp, ") is ", cont);
        }
        else if (cp > 0x10FFFF) {
            VP_CHECK(!start && !cont, "beyond", cp);
        }
        const bool lo = cp >= 'a' && cp <= 'z', up = cp >= 'A' && cp <= 'Z', di = cp >= '0' && cp <= '9';
        check_class(cp, ul::is_ascii, cp < 128, "is_ascii");
        check_class(cp, ul::is_ascii_digit, di, "is_ascii_digit");
        check_class(cp, ul::is_ascii_digit_set, di, "is_ascii_digit_set");
        check_class(cp, ul::is_ascii_binary_digit, cp == '0' || cp == '1', "is_ascii_binary_digit");
        check_class(cp, ul::is_ascii_octal_digit, cp >= '0' && cp <= '7', "is_ascii_octal_digit");
        check_class(cp, ul::is_ascii_hex_digit, di || (cp >= 'a' && cp <= 'f') || (cp >= 'A' && cp <= 'F'), "is_ascii_hex_digit");
        check_class(cp, ul::is_ascii_upper_alpha, up, "is_ascii_upper_alpha");
        check_class(cp, ul::is_ascii_lower_alpha, lo, "is_ascii_lower_alpha");
        check_class(cp, ul::is_ascii_alpha, lo || up, "is_ascii_alpha");
        check_class(cp, ul::is_ascii_alphanumeric, lo || up || di, "is_ascii_alphanumeric");
        check_class(cp, ul::is_ascii_punctuation, cp > 32 && cp < 127 && !(lo || up || di), "is_ascii_punctuation");
        check_class(cp, ul::is_ascii_printing, cp >= 32 && cp < 127, "is_ascii_printing");
        VP_CHECK(ul::to_ascii_upper(char32_t(cp)) == (lo ? cp - 32 : cp), "to_upper", cp);
        VP_CHECK(ul::to_ascii_lower(char32_t(cp)) == (up ? cp + 32 : cp), "to_lower", cp);
        if (cp < 256) {
            VP_CHECK(ul::to_ascii_upper(char8_t(cp)) == (lo ? cp - 32 : cp), "to_upper8", cp);
            VP_CHECK(ul::to_ascii_lower(char8_t(cp)) == (up ? cp + 32 : cp), "to_lower8", cp);
            VP_CHECK(ul::is_ascii_xid_start(char8_t(cp)) == (cp < 128 && start), "ascii-xid-start", cp);
            VP_CHECK(ul::is_ascii_xid_continue(char8_t(cp)) == (cp < 128 && cont), "ascii-xid-continue", cp);
        }
        for (int base = 1; base <= 36; ++base) {
            if (cp >= 256 && base != 16) {
                continue;
            }
            const int v = di ? int(cp - '0') : lo ? int(cp - 'a') + 10 : up ? int(cp - 'A') + 10 : 99;
            VP_CHECK(ul::is_ascii_digit_base(char32_t(cp), base) == (v < base), "digit-base", cp, " in base ", base);
            if (cp < 256) {
                VP_CHECK(ul::is_ascii_digit_base(char8_t(cp), base) == (v < base), "digit-base8", cp, " in base ", base);
            }
        }
        const bool lead = cp >= 0xD800 && cp < 0xDC00, trail = cp >= 0xDC00 && cp < 0xE000;
        VP_CHECK(ul::is_code_point(char32_t(cp)) == (cp <= 0x10FFFF), "is_code_point", cp);
        VP_CHECK(ul::is_leading_surrogate(char32_t(cp)) == lead, "is_leading_surrogate", cp);
        VP_CHECK(ul::is_trailing_surrogate(char32_t(cp)) == trail, "is_trailing_surrogate", cp);
        VP_CHECK(ul::is_surrogate(char32_t(cp)) == (lead || trail), "is_surrogate", cp);
        VP_CHECK(ul::is_scalar_value(char32_t(cp)) == (cp <= 0x10FFFF && !lead && !trail), "is_scalar_value", cp);
        if (cp <= 0x10FFFF) {
            VP_CHECK(ul::is_noncharacter(char32_t(cp)) == ((cp & 0xFFFE) == 0xFFFE || (cp >= 0xFDD0 && cp <= 0xFDEF)), "is_noncharacter", cp);
        }
        VP_CHECK(ul::is_private_use_area_character(char32_t(cp)) == ((cp >= 0xE000 && cp <= 0xF8FF) || (cp >= 0xF0000 && cp <= 0x10FFFF)), "is_private_use", cp);
    }
    c.cls(i == 0 ? "U+0000-00FF" : i < 0x100 ? "rest of the BMP" : i < 0x1100 ? "supplementary" : "beyond Unicode");
    c.nontrivial(i);
}
void u04(Src& s, Ctx& c)
{
    // Identifier-shaped runs are found whole by the generic search.
    std::string t;
    std::size_t want = 0;
    const std::size_t n = 1 + s.size(12);
    bool open = true;
    for (std::size_t i = 0; i < n; ++i) {
        std::string one;
        gen_code_point(s, one);
        const Xid_Row* r = xid_row(ref_decode(one).cp);
        if (!r) {
            continue;
        }
        open &= t.empty() ? r->start : r->cont;
        t += one;
        if (open) {
            want = t.size();
        }
    }
    c.describe(quote(t));
    std::size_t got = 0;
    if (!t.empty()) {
        const auto [cp, len] = ul::utf8::decode_and_length_or_replacement(as8(t));
        if (xid_row(cp) && ul::is_xid_start(cp)) {
            got = std::size_t(len) + ul::utf8::length_if(as8(t).substr(std::size_t(len)), [](char32_t x) { return ul::is_xid_continue(x); });
        }
    }
    VP_CHECK(got == want || !xid_row(ref_decode(t).cp), "run", "identifier of ", got, " units, expected ", want);
    if (want > 1) {
        c.nontrivial(t);
    }
}
Register r04({ "U04", u04, 30000, 300000, "every code point 0..10FFFF and 256 values beyond (in blocks of 256) against Python's Unicode 15.0 database; identifier-shaped strings of two or more units", true, nullptr, u04_count, u04_enum });

// ---------------------------------------------------------------- U05 ASCII algorithms

char lower(char c) { return c >= 'A' && c <= 'Z' ? char(c + 32) : c; }
std::string lowered(std::string s)
{
    for (char& c : s) {
        c = lower(c);
    }
    return s;
}

std::string gen_ascii_ish(Src& s, std::size_t max)
{
    static constexpr char letters[] = "aAbBzZ09_-. \t\n\r@[`{\x7f\x80\xc3\xe0\xff";
    std::string o;
    const std::size_t n = s.size(max);
    for (std::size_t i = 0; i < n; ++i) {
        o += letters[s.below(sizeof letters - 1)];
    }
    return o;
}

void u05(Src& s, Ctx& c)
{
    const std::string t = gen_ascii_ish(s, 20);
    std::string u = s.chance(1, 2) ? gen_ascii_ish(s, 20) : t;
    if (s.chance(1, 2)) { // change the case of some letters, and perhaps something else
        for (char& x : u) {
            if (s.chance(1, 2) && ((x >= 'a' && x <= 'z') || (x >= 'A' && x <= 'Z'))) {
                x ^= 32;
            }
        }
        if (!u.empty() && s.chance(1, 3)) {
            u[s.below(u.size())] ^= char(1 << s.below(7));
        }
        if (s.chance(1, 3)) {
            const std::size_t a = s.below(u.size() + 1);
            u = u.substr(a, s.below(u.size() - a + 1));
        }
    }
    c.describe(cat(quote(t), " and ", quote(u)));
    const Exact e { t }, f { u };
    const u8v x = as8({ e.data(), e.size() }), y = as8({ f.data(), f.size() });
    const std::string lt = lowered(t), lu = lowered(u);
    VP_CHECK(ul::ascii::equals_ignore_case(x, y) == (lt == lu), "equals", "equals_ignore_case");
    VP_CHECK(ul::ascii::starts_with_ignore_case(x, y) == lt.starts_with(lu), "starts-with", "starts_with_ignore_case");
    VP_CHECK(ul::ascii::contains_ignore_case(x, y) == (lt.find(lu) != lt.npos), "contains", "contains_ignore_case");
    const std::strong_ordering o = ul::ascii::compare_to_lower(x, y);
    const int want = lt.compare(lu); // char_traits<char> compares as unsigned char
    VP_CHECK((o < 0) == (want < 0) && (o > 0) == (want > 0), "compare", "compare_to_lower");

    const unsigned char m = (unsigned char)s.below(256);
    const bool neg = s.chance(1, 2);
    const auto p = [&](char8_t ch) { return ((ch * 167u + m) % 3u == 0u) != neg; };
    const std::size_t start = s.below(t.size() + 1);
    std::size_t first = t.size(), first_not = t.size();
    for (std::size_t i = t.size(); i-- > start;) {
        (p(char8_t(t[i])) ? first : first_not) = i;
    }
    const auto npos_if_end = [&](std::size_t i) { return i == t.size() ? u8v::npos : i; };
    VP_CHECK(ul::ascii::find_if(x, p, start) == npos_if_end(first), "find_if", "from ", start);
    VP_CHECK(ul::ascii::find_if_not(x, p, start) == npos_if_end(first_not), "find_if_not", "from ", start);
    VP_CHECK(ul::ascii::length_if(x, p, start) == first_not, "length_if", "from ", start);
    VP_CHECK(ul::ascii::length_if_not(x, p, start) == first, "length_if_not", "from ", start);
    const auto head = [&](char8_t ch) { return ch % 2 == m % 2; };
    std::size_t ht = 0, hn = 0;
    if (!t.empty() && head(char8_t(t[0]))) {
        for (ht = 1; ht < t.size() && p(char8_t(t[ht]));) {
            ++ht;
        }
        for (hn = 1; hn < t.size() && !p(char8_t(t[hn]));) {
            ++hn;
        }
    }
    VP_CHECK(ul::ascii::length_if_head_tail(x, head, p) == ht, "head-tail", "expected ", ht);
    VP_CHECK(ul::ascii::length_if_not_head_tail(x, head, p) == hn, "not-head-tail", "expected ", hn);
    const char d = t.empty() || s.chance(1, 4) ? char(m) : t[s.below(t.size())];
    std::size_t at = t.size(), at_not = t.size();
    for (std::size_t i = t.size(); i-- > start;) {
        (t[i] == d ? at : at_not) = i;
    }
    const auto past = [&](std::size_t i) { return i == t.size() ? i : i + 1; };
    VP_CHECK(ul::ascii::length_before(x, char8_t(d), start) == at, "length_before", "");
    VP_CHECK(ul::ascii::length_before_not(x, char8_t(d), start) == at_not, "length_before_not", "");
    VP_CHECK(ul::ascii::length_until(x, char8_t(d), start) == past(at), "length_until", "");
    VP_CHECK(ul::ascii::length_until_not(x, char8_t(d), start) == past(at_not), "length_until_not", "");
    // Unless told otherwise, they begin at the start.
    VP_CHECK(ul::ascii::find_if(x, p) == ul::ascii::find_if(x, p, 0), "find_if", "without a start");
    VP_CHECK(ul::ascii::find_if_not(x, p) == ul::ascii::find_if_not(x, p, 0), "find_if_not", "without a start");
    VP_CHECK(ul::ascii::length_if(x, p) == ul::ascii::length_if(x, p, 0), "length_if", "without a start");
    VP_CHECK(ul::ascii::length_if_not(x, p) == ul::ascii::length_if_not(x, p, 0), "length_if_not", "without a start");
    VP_CHECK(ul::ascii::length_before(x, char8_t(d)) == ul::ascii::length_before(x, char8_t(d), 0), "length_before", "without a start");
    VP_CHECK(ul::ascii::length_before_not(x, char8_t(d)) == ul::ascii::length_before_not(x, char8_t(d), 0), "length_before_not", "without a start");
    VP_CHECK(ul::ascii::length_until(x, char8_t(d)) == ul::ascii::length_until(x, char8_t(d), 0), "length_until", "without a start");
    VP_CHECK(ul::ascii::length_until_not(x, char8_t(d)) == ul::ascii::length_until_not(x, char8_t(d), 0), "length_until_not", "without a start");

    // Lines.
    std::string lines;
    const std::size_t nl = s.size(8);
    for (std::size_t i = 0; i < nl; ++i) {
        lines += s.pick({ "a", " ", "\t", "\n", "\r", "\r\n", "\n\n", "bc", "\f", "\v", "\xc3\xa9" });
    }
    const Exact le { lines };
    const u8v lv = as8({ le.data(), le.size() });
    {
        std::string_view r = lines;
        const auto got = ul::match_crlf_line(lv);
        std::size_t n = 0, term = 0;
        while (n < r.size() && r[n] != '\n' && r[n] != '\r') {
            ++n;
        }
        if (n < r.size()) {
            term = r[n] == '\r' && n + 1 < r.size() && r[n + 1] == '\n' ? 2 : 1;
        }
        VP_CHECK(got.content_length == n && got.terminator_length == term, "line", quote(lines), ": line ", got.content_length, "+", got.terminator_length, ", expected ", n, "+", term);
    }
    {
        // The first maximal run of blank lines; only lines that end in a line feed count.
        std::size_t begin = 0, end = 0, i = 0;
        bool found = false;
        while (i < lines.size()) {
            const std::size_t nlp = lines.find('\n', i);
            if (nlp == lines.npos) {
                break;
            }
            bool blank = true;
            for (std::size_t k = i; k < nlp; ++k) {
                blank &= std::string_view(" \t\f\r").find(lines[k]) != std::string_view::npos;
            }
            if (blank) {
                if (!found) {
                    begin = i;
                }
                found = true;
                end = nlp + 1;
            }
            else if (found) {
                break;
            }
            i = nlp + 1;
        }
        const ul::Blank_Line got = ul::find_blank_line_sequence(lv);
        VP_CHECK(bool(got) == found, "blank-found", quote(lines), ": found ", bool(got));
        VP_CHECK(!found || (got.begin == begin && got.begin + got.length == end), "blank-range", quote(lines), ": ", got.begin, "+", got.length, ", expected ", begin, "+", end - begin);
        c.cls(found ? "blank lines" : "no blank lines");
    }
    {
        const std::string pre = s.pick({ "/*", "<!--", "\"", "a", "\n" }), suf = s.pick({ "*/", "-->", "\"", "a", "\n", "**" });
        std::string body = s.chance(3, 4) ? pre : "";
        for (std::size_t i = s.size(6); i > 0; --i) {
            body += s.chance(1, 3) ? suf.substr(0, 1 + s.below(suf.size())) : s.chance(1, 3) ? pre : std::string("x");
        }
        const Exact be { body };
        const u8v bv = as8({ be.data(), be.size() });
        std::size_t len = 0;
        bool term = false;
        if (body.starts_with(pre)) {
            for (len = pre.size(); len + suf.size() <= body.size() && !term;) {
                term = body.compare(len, suf.size(), suf) == 0;
                len += term ? suf.size() : 1;
            }
            if (!term) {
                len = body.size();
            }
        }
        const auto got = ul::match_enclosed(bv, as8(pre), as8(suf));
        VP_CHECK(bool(got) == (len != 0), "enclosed", quote(body), ": found ", bool(got));
        VP_CHECK(got.length == len && (len == 0 || got.is_terminated == term), "enclosed", quote(body), ": ", got.length, "/", got.is_terminated, ", expected ", len, "/", term);
        if (pre.size() == 1 && suf.size() == 1) {
            const auto g = ul::match_enclosed(bv, char8_t(pre[0]), char8_t(suf[0]));
            VP_CHECK(g.length == len && (len == 0 || g.is_terminated == term), "enclosed-char", quote(body));
        }
    }
    c.cls(lt == lu ? (t == u ? "equal" : "equal but for case") : "different");
    if (t.size() >= 2) {
        c.nontrivial(t, hash_bytes(u) + m + start);
    }
}
Register r05({ "U05", u05, 200000, 4000000, "pairs of strings (the second often a case-changed part of the first) of which the first has at least two units", true });

// ---------------------------------------------------------------- U06 Charset

struct Setup {
    std::bitset<256> m;
    ul::Charset256 s {};
};

void u06(Src& s, Ctx& c)
{
    std::vector<Setup> v(3);
    std::string log;
    const std::size_t n = 1 + s.size(25);
    std::size_t interesting = 0;
    const auto bound = [&] { return s.chance(1, 2) ? s.pick({ 0u, 1u, 31u, 32u, 63u, 64u, 65u, 127u, 128u, 129u, 191u, 192u, 193u, 254u, 255u }) : s.below(256); };
    for (std::size_t i = 0; i < n; ++i) {
        Setup& a = v[s.below(3)];
        Setup& b = v[s.below(3)];
        const unsigned x = bound();
        switch (const unsigned op = s.below(14)) {
        case 0: a.m.set(x); a.s.insert(char8_t(x)); log += cat("insert ", x, "; "); break;
        case 1: a.m.reset(x); a.s.remove(char8_t(x)); log += cat("remove ", x, "; "); break;
        case 2: a.m |= b.m; a.s |= b.s; log += "|=; "; break;
        case 3: a.m &= b.m; a.s &= b.s; log += "&=; "; ++interesting; break;
        case 4: a.m &= ~b.m; a.s -= b.s; log += "-=; "; ++interesting; break;
        case 5: a.m = ~b.m; a.s = ~b.s; log += "~; "; ++interesting; break;
        case 6: a.m.reset(); a.s.clear(); log += "clear; "; break;
        case 7:
        case 8: {
            unsigned y = bound();
            const unsigned lo = std::min(x, y), hi = std::max(x, y);
            a.m.reset();
            if (op == 7) {
                for (unsigned k = lo; k <= hi; ++k) {
                    a.m.set(k);
                }
                a.s = ul::Charset256::range_until(lo, hi);
                log += cat("[", lo, ",", hi, "]; ");
            }
            else {
                for (unsigned k = lo; k < hi; ++k) {
                    a.m.set(k);
                }
                a.s = ul::Charset256::range_before(lo, hi);
                log += cat("[", lo, ",", hi, "); ");
            }
            ++interesting;
            break;
        }
        case 9: {
            const std::string t = gen_bytes(s, 8);
            a.m.reset();
            for (const unsigned char k : t) {
                a.m.set(k);
            }
            a.s = ul::Charset256 { as8(t) };
            log += cat("of ", quote(t), "; ");
            break;
        }
        case 10: a.m = b.m | std::bitset<256> {}.set(x); a.s = b.s | char8_t(x); log += cat("| ", x, "; "); break;
        case 11: a.m = b.m & ~std::bitset<256> {}.set(x); a.s = b.s - char8_t(x); log += cat("- ", x, "; "); break;
        case 12: { const Setup& d = v[s.below(3)]; const auto m = s.chance(1, 2); auto bm = m ? (b.m & d.m) : (b.m | d.m); auto bs = m ? (b.s & d.s) : (b.s | d.s); a.m = bm; a.s = bs; log += "binary; "; break; }
        default: { const Setup& d = v[s.below(3)]; auto bm = b.m & ~d.m; auto bs = b.s - d.s; a.m = bm; a.s = bs; log += "difference; "; break; }
        }
        for (unsigned k = 0; k < 256; ++k) {
            if (a.s(char8_t(k)) != a.m[k] || a.s(char32_t(k)) != a.m[k]) {
                c.describe(log);
                fail("member", cat("after ", log, " member ", k, " is ", !a.m[k]));
            }
        }
        VP_CHECK(!a.s(char32_t(256 + x)) && !a.s(char32_t(0x10000 + x)), "wide", log, "a code point above 255 is a member");
        VP_CHECK((a.s == b.s) == (a.m == b.m), "equality", log);
    }
    // The 128-wide set.
    ul::Charset128 h {};
    std::bitset<128> hm;
    const unsigned lo = s.below(128), hi = lo + s.below(129 - lo);
    h = ul::Charset128::range_before(lo, hi);
    for (unsigned k = lo; k < hi; ++k) {
        hm.set(k);
    }
    h = ~h;
    hm = ~hm;
    for (unsigned k = 0; k < 128; ++k) {
        VP_CHECK(h(char8_t(k)) == hm[k], "narrow", "complement of [", lo, ",", hi, ") in the 128 set: ", k);
    }
    c.describe(log);
    c.cls(cat("operations ", Cls_Hist::bucket(n)));
    if (interesting >= 1) {
        c.nontrivial(log);
    }
}
Register r06({ "U06", u06, 25000, 500000, "histories over three sets that contain a range, a complement, a difference or an intersection", true });

// ---------------------------------------------------------------- U07 numbers and escapes

std::string gen_digits(Src& s, int base, char sep, std::size_t max, bool& bad, bool allow_bad)
{
    // A digit sequence of the base; with separators if `sep`, correctly placed unless bad is chosen.
    std::string o;
    const std::size_t n = 1 + s.below(max);
    for (std::size_t i = 0; i < n; ++i) {
        const unsigned d = s.below(unsigned(base));
        o += d < 10 ? char('0' + d) : char((s.chance(1, 2) ? 'a' : 'A') + d - 10);
        if (sep && i + 1 < n && s.chance(1, 4)) {
            o += sep;
        }
    }
    if (sep && allow_bad && s.chance(1, 5)) {
        bad = true;
        switch (s.below(3)) {
        case 0: o += sep; break;
        case 1: o.insert(o.begin(), sep); break;
        default: o.insert(1, 2, sep); break;
        }
    }
    return o;
}

void u07_number(Src& s, Ctx& c)
{
    // Choose a grammar, then write a number of known parts, then something that cannot continue it.
    static const ul::Number_Prefix prefixes[] { { u8"0b", 2 }, { u8"0o", 8 }, { u8"0x", 16, true }, { u8"0h", 16 }, { u8"$", 16 } };
    static const ul::Exponent_Separator exps[] { { u8"e+", 10 }, { u8"e-", 10 }, { u8"e", 10 }, { u8"p+", 16 }, { u8"p-", 16 }, { u8"p", 16 } };
    static const u8v suffixes[] { u8"L", u8"U", u8"UL", u8"f", u8"n", u8"LL" };
    ul::Common_Number_Options o;
    const bool with_pre = s.chance(2, 3), with_exp = s.chance(2, 3), with_suf = s.chance(1, 2);
    if (with_pre) {
        o.prefixes = prefixes;
    }
    if (with_exp) {
        o.exponent_separators = exps;
    }
    if (with_suf) {
        o.suffixes = suffixes;
    }
    const unsigned signs = s.below(4);
    o.signs = ul::Matched_Signs(signs);
    const char sep = s.chance(1, 2) ? '_' : 0;
    o.digit_separator = char8_t(sep);
    o.nonempty_integer = s.chance(1, 4);
    o.nonempty_fraction = s.chance(1, 4);
    bool bad = false;
    std::string sign, pre, integer, point, frac, esep, edig, suf;
    if (signs && s.chance(1, 2)) {
        sign = (signs & 1) && ((signs & 2) == 0 || s.chance(1, 2)) ? "-" : "+";
    }
    int base = 10;
    bool allow_float = true;
    if (with_pre && s.chance(1, 2)) {
        const auto& p = s.pick(prefixes);
        pre = narrow(p.str);
        base = p.base;
        allow_float = p.floating_point;
    }
    const bool fraction = allow_float && s.chance(1, 2);
    if (!fraction || !s.chance(1, 5)) {
        integer = gen_digits(s, base, sep, 6, bad, true);
        if (pre.empty() && with_pre && integer.size() == 1 && integer[0] == '0') {
            integer = "7"; // not to be taken for a prefix with what follows
        }
        if (pre.empty() && integer[0] == '0' && with_pre) {
            integer[0] = '1';
        }
    }
    if (fraction) {
        point = ".";
        if (integer.empty() || s.chance(3, 4)) {
            frac = gen_digits(s, base, sep, 5, bad, true);
            if (pre.empty() && integer.empty() && !(frac[0] >= '0' && frac[0] <= '9')) {
                frac.insert(0, "3");
                if (bad && frac[1] == sep && frac.find(std::string(2, sep)) == frac.npos && frac.back() != sep) {
                    bad = false; // the separator is no longer leading
                    if (frac.size() < 3) {
                        bad = true;
                    }
                }
            }
        }
    }
    if (with_exp && allow_float && s.chance(1, 2)) {
        if (base == 10) {
            esep = s.pick({ "e", "e+", "e-" });
        }
        else {
            esep = s.pick({ "p", "p+", "p-" });
        }
        if (s.chance(5, 6)) {
            edig = gen_digits(s, 10, sep, 3, bad, true);
        }
    }
    if (with_suf && s.chance(1, 2)) {
        suf = s.pick({ "L", "U", "UL", "n", "LL" });
    }
    const std::string text = sign + pre + integer + point + frac + esep + edig + suf;
    // What follows is neither digit, separator, point, letter, nor sign.
    const std::string after = s.pick({ "", " ", ";", ")", "\n", "*", ",x" });
    // Ambiguities the generator does not resolve: a fraction or exponent part without any digits.
    const std::string all = text + after;
    c.describe(cat("number ", quote(all)));
    const Exact e { all };
    const auto r = ul::match_common_number(as8({ e.data(), e.size() }), o);
    const auto parts = [](const auto&... x) { std::string t; ((t += std::to_string(x) + "/"), ...); return t; };
    if (pre.empty() && sep && integer.starts_with(sep)) {
        // Without a prefix, a leading separator makes it no number (but e.g. an identifier).
        VP_CHECK(r.length == 0, "leading-separator", "a number of ", r.length, " units starts with the separator");
        c.cls("leading separator");
        return;
    }
    const std::string got = parts(r.length, r.sign, r.prefix, r.integer, r.radix_point, r.fractional, r.exponent_sep, r.exponent_digits, r.suffix);
    const std::string want = parts(text.size(), sign.size(), pre.size(), integer.size(), point.size(), frac.size(), esep.size(), edig.size(), suf.size());
    VP_CHECK(got == want, "parts", "parts (length/sign/prefix/integer/point/fraction/exponent/digits/suffix) ", got, ", expected ", want);
    bad |= o.nonempty_integer && integer.empty();
    bad |= !point.empty() && o.nonempty_fraction && frac.empty();
    bad |= !esep.empty() && edig.empty();
    VP_CHECK(r.erroneous == bad, "erroneous", "erroneous is ", r.erroneous);
    c.cls(bad ? "number, erroneous" : "number");
    c.nontrivial(all, signs * 16 + with_pre * 8 + with_exp * 4 + with_suf * 2 + (sep != 0));
}

/// Numbers as documented in numbers.hpp, for any grammar and any text.
void u07_grammar(Src& s, Ctx& c)
{
    static const ul::Number_Prefix prefixes[] { { u8"0b", 2 }, { u8"0o", 8 }, { u8"0x", 16, true }, { u8"0h", 16 }, { u8"$", 16 }, { u8"0", 8, true } };
    static const ul::Exponent_Separator exps[] { { u8"e+", 10 }, { u8"e-", 10 }, { u8"e", 10 }, { u8"p+", 16 }, { u8"p-", 16 }, { u8"p", 16 } };
    static const u8v suffixes[] { u8"L", u8"LL", u8"U", u8"UL", u8"f", u8"n" };
    ul::Common_Number_Options o;
    const std::size_t prefix_count = s.chance(1, 4) ? 0 : s.below(std::size(prefixes) + 1);
    const std::size_t first_exp = s.below(std::size(exps) + 1);
    o.prefixes = std::span(prefixes).first(prefix_count);
    o.exponent_separators = std::span(exps).subspan(first_exp);
    const unsigned signs = s.below(4), suffix_kind = s.below(3);
    o.signs = ul::Matched_Signs(signs);
    const auto letters = [](u8v x) {
        std::size_t n = 0;
        while (n < x.size() && ((x[n] | 32) >= 'a' && (x[n] | 32) <= 'z')) {
            ++n;
        }
        return n;
    };
    if (suffix_kind == 1) {
        o.suffixes = suffixes;
    }
    else if (suffix_kind == 2) {
        o.match_suffix = letters;
    }
    o.default_base = s.pick({ 10, 10, 16, 8, 2 });
    o.default_leading_zero_base = s.pick({ 10, 8, 16, 2 });
    const char sep = s.pick({ '\0', '_', '\'' });
    o.digit_separator = char8_t(sep);
    o.separators_anywhere = s.chance(1, 3);
    o.separator_after_prefix = s.chance(1, 3);
    o.nonempty_integer = s.chance(1, 3);
    o.nonempty_fraction = s.chance(1, 3);

    static constexpr const char* bits[] { "0", "0", "1", "7", "8", "9", "00", "12", "a", "F", "_", "'", ".", "e", "e+", "e-", "p", "p-", "0b", "0x", "0h", "0o", "$", "L", "LL", "U", "f", "n", "z", "+", "-", " ", "E" };
    std::string t;
    if (signs && s.chance(1, 3)) {
        t += s.chance(1, 2) ? '+' : '-';
    }
    if (prefix_count && s.chance(1, 3)) {
        t += narrow(s.pick(prefixes).str);
    }
    for (std::size_t i = 0, n = s.size(8); i < n; ++i) {
        t += s.pick(bits);
    }
    c.describe(cat("text ", quote(t), ", signs ", signs, ", ", prefix_count, " prefixes, exponents from ", first_exp, ", suffixes ", suffix_kind, ", bases ", o.default_base, " and ", o.default_leading_zero_base, ", separator ", int(sep), ", anywhere ", o.separators_anywhere, ", after prefix ", o.separator_after_prefix, ", nonempty ", o.nonempty_integer, o.nonempty_fraction));

    // The expectation.
    std::size_t at = 0, sign = 0, prefix = 0, integer = 0, point = 0, fraction = 0, esep = 0, edigits = 0, suffix = 0;
    bool bad = false, none = t.empty();
    int base = 0;
    bool floating = true;
    const auto starts = [&](std::string_view x) { return std::string_view(t).substr(at).starts_with(x); };
    const auto digits = [&](int b) {
        std::size_t n = 0;
        bool separated = true; // a separator must not be next
        bool wrong = false;
        for (; at + n < t.size(); ++n) {
            const char ch = t[at + n];
            const int v = ch >= '0' && ch <= '9' ? ch - '0' : ch >= 'a' && ch <= 'z' ? ch - 'a' + 10 : ch >= 'A' && ch <= 'Z' ? ch - 'A' + 10 : 99;
            if (sep && ch == sep) {
                wrong |= separated;
                separated = true;
            }
            else if (v < b) {
                separated = false;
            }
            else {
                break;
            }
        }
        wrong |= n > 0 && separated;
        bad |= wrong && !o.separators_anywhere;
        at += n;
        return n;
    };
    for (const char sign_char : { '+', '-', ',', '\0' }) {
        const bool want = (sign_char == '+' && (signs & unsigned(ul::Matched_Signs::plus_only))) || (sign_char == '-' && (signs & unsigned(ul::Matched_Signs::minus_only)));
        VP_CHECK(ul::matched_signs_matches(ul::Matched_Signs(signs), char8_t(sign_char)) == want, "signs", "matched_signs_matches(", signs, ", ", int(sign_char), ")");
    }
    if (((signs & unsigned(ul::Matched_Signs::plus_only)) && starts("+")) || ((signs & unsigned(ul::Matched_Signs::minus_only)) && starts("-"))) {
        at += sign = 1;
    }
    for (const auto& p : o.prefixes) {
        if (starts(narrow(p.str))) {
            at += prefix = p.str.size();
            base = p.base;
            floating = p.floating_point;
            break;
        }
    }
    const std::string separator(sep ? 1 : 0, sep);
    if (!prefix) {
        base = starts("0") ? o.default_leading_zero_base : o.default_base;
        none |= sep && starts(separator);
    }
    if (o.separator_after_prefix && prefix && sep && starts(separator)) {
        ++at;
        const std::size_t n = digits(base);
        bad |= n == 0;
        integer = 1 + n;
    }
    else {
        integer = digits(base);
        bad |= o.nonempty_integer && !integer;
    }
    if (floating && starts(".")) {
        ++at;
        none |= !prefix && !integer && !(at < t.size() && t[at] >= '0' && t[at] <= '9');
        point = 1;
        fraction = digits(base);
        bad |= o.nonempty_fraction && !fraction;
    }
    none |= at == 0;
    if (floating) {
        for (const auto& e : o.exponent_separators) {
            if (starts(narrow(e.str))) {
                at += esep = e.str.size();
                edigits = digits(10);
                bad |= !edigits;
                break;
            }
        }
    }
    if (suffix_kind == 1) {
        for (const u8v x : suffixes) {
            if (starts(narrow(x))) {
                suffix = std::max(suffix, x.size());
            }
        }
    }
    else if (suffix_kind == 2) {
        suffix = letters(as8(std::string_view(t).substr(at)));
    }
    at += suffix;
    bad |= prefix && integer + fraction == 0;

    const Exact e { t };
    const auto r = ul::match_common_number(as8({ e.data(), e.size() }), o);
    if (none) {
        VP_CHECK(!r && r.length == 0, "grammar-none", "a number of ", r.length, " units, expected none");
        c.cls("no number");
        return;
    }
    const auto parts = [](const auto&... x) { std::string v; ((v += std::to_string(x) + "/"), ...); return v; };
    const std::string got = parts(r.length, r.sign, r.prefix, r.integer, r.radix_point, r.fractional, r.exponent_sep, r.exponent_digits, r.suffix, r.erroneous);
    const std::string want = parts(at, sign, prefix, integer, point, fraction, esep, edigits, suffix, bad);
    VP_CHECK(got == want, "grammar-parts", "parts (length/sign/prefix/integer/point/fraction/exponent/digits/suffix/erroneous) ", got, ", expected ", want);
    VP_CHECK(r.is_integer() == !(point || esep || edigits) && r.is_non_integer() != r.is_integer(), "is-integer", "is_integer() is ", r.is_integer());
    const u8v v = as8(t);
    VP_CHECK(
        r.extract_sign(v) == v.substr(0, sign) && r.extract_prefix(v) == v.substr(sign, prefix) && r.extract_integer(v) == v.substr(sign + prefix, integer)
            && r.extract_suffix(v) == v.substr(at - suffix, suffix),
        "extract", "the extracted parts are wrong"
    );
    c.cls(bad ? "number of any grammar, erroneous" : "number of any grammar");
    if (at > 1) {
        c.nontrivial(t, (signs * 8u + unsigned(prefix_count)) * 64 + unsigned(first_exp) * 8 + suffix_kind);
    }
}

/// Numbers whose base is given by a suffix.
void u07_base_suffix(Src& s, Ctx& c)
{
    static constexpr const char* bits[] { "0", "1", "7", "8", "9", "12", "a", "F", "_", "b", "h", "q", "0x", "z", "Z", "d", "h", "hh", " ", ".", "'", "\xc3\xa9" };
    std::string t;
    for (std::size_t i = 0, n = s.size(6); i < n; ++i) {
        t += s.pick(bits);
    }
    const char sep = s.pick({ '\0', '_', '\'' });
    c.describe(cat("text ", quote(t), ", separator ", int(sep)));
    std::size_t n = 0;
    while (n < t.size() && (std::isalnum((unsigned char)t[n]) || (sep && t[n] == sep))) {
        ++n;
    }
    const std::string number = t.substr(0, n);
    const auto determine = [](std::string_view x) -> ul::Base_Suffix {
        return x.ends_with("hh") ? ul::Base_Suffix { 2, 16 } : x.ends_with("h") ? ul::Base_Suffix { 1, 16 } : x.ends_with("b") ? ul::Base_Suffix { 1, 2 } : x.ends_with("q") ? ul::Base_Suffix { 1, 8 } : ul::Base_Suffix { 0, 0 };
    };
    std::string asked;
    const auto callback = [&](u8v x) -> ul::Base_Suffix {
        asked = narrow(x);
        return determine(asked);
    };
    const Exact e { t };
    const auto r = ul::match_suffix_number(as8({ e.data(), e.size() }), callback, char8_t(sep));
    const ul::Base_Suffix b = determine(number);
    if (n <= 1 || !b || b.length == n) {
        VP_CHECK(!r, "suffix-none", "a number of ", r.digits, " digits, expected none");
        c.cls("no number");
        return;
    }
    bool bad = false;
    for (std::size_t i = 0; i + b.length < n; ++i) {
        const char ch = number[i];
        if (sep && ch == sep) {
            bad |= i > 0 && number[i - 1] == sep;
            continue;
        }
        const int v = ch >= '0' && ch <= '9' ? ch - '0' : (ch | 32) - 'a' + 10;
        bad |= v >= b.base;
    }
    VP_CHECK(asked == number, "suffix-asked", "asked for the suffix of ", quote(asked), ", not of ", quote(number));
    if (bad && !(number[0] >= '0' && number[0] <= '9')) {
        VP_CHECK(!r, "suffix-none", "a number of ", r.digits, " digits, expected none");
        c.cls("no number");
        return;
    }
    VP_CHECK(
        r.digits == n - b.length && r.suffix == b.length && r.base == b.base && r.erroneous == bad, "suffix-parts", "digits/suffix/base/erroneous ", r.digits, "/", r.suffix, "/",
        r.base, "/", r.erroneous, ", expected ", n - b.length, "/", b.length, "/", b.base, "/", bad
    );
    c.cls(bad ? "suffix number, erroneous" : "suffix number");
    c.nontrivial(t, (unsigned char)sep);
}

void u07_digits(Src& s, Ctx& c)
{
    static constexpr char soup[] = "0123456789__''aAfFgGzZ.-+ x";
    std::string t;
    const std::size_t n = s.size(12);
    for (std::size_t i = 0; i < n; ++i) {
        t += soup[s.below(sizeof soup - 1)];
    }
    const int base = s.pick({ 2, 8, 10, 16, 3, 36 });
    const char sep = s.pick({ '_', '\'', '\0' });
    c.describe(cat("digits ", quote(t), " base ", base));
    const auto digit = [&](char ch) {
        const int v = ch >= '0' && ch <= '9' ? ch - '0' : ch >= 'a' && ch <= 'z' ? ch - 'a' + 10 : ch >= 'A' && ch <= 'Z' ? ch - 'A' + 10 : 99;
        return v < base;
    };
    std::size_t d = 0, m = 0;
    while (d < t.size() && digit(t[d])) {
        ++d;
    }
    while (m < t.size() && (digit(t[m]) || (sep && t[m] == sep))) {
        ++m;
    }
    bool bad = false;
    for (std::size_t i = 0; i < m && sep; ++i) {
        bad |= t[i] == sep && (i == 0 || i + 1 == m || t[i - 1] == sep);
    }
    const Exact e { t };
    const u8v v = as8({ e.data(), e.size() });
    VP_CHECK(ul::match_digits(v, base) == d, "digits", "match_digits: ", ul::match_digits(v, base), ", expected ", d);
    const auto r = ul::match_separated_digits(v, base, char8_t(sep));
    VP_CHECK(r.length == m, "separated", "match_separated_digits: ", r.length, ", expected ", m);
    VP_CHECK(bool(r) == (m != 0), "result", "the digits are ", bool(r) ? "found" : "not found", " although their length is ", m);
    VP_CHECK(r.erroneous == bad, "separators", "match_separated_digits: erroneous is ", r.erroneous);
    c.cls("digits");
    if (m) {
        c.nontrivial(t, unsigned(base) * 256u + (unsigned char)sep);
    }
}

void u07_literal(Src& s, Ctx& c)
{
    // Integers round-trip through their literals; nothing else is accepted.
    const unsigned long long v = s.chance(1, 3) ? s.pick({ 0ull, 1ull, 7ull, 8ull, ULLONG_MAX, 1ull << 63, (1ull << 63) - 1, (1ull << 63) + 1 }) : s.u64() >> s.below(64);
    const int base = s.pick({ 10, 2, 8, 16 });
    std::string d;
    for (unsigned long long x = v; x || d.empty(); x /= unsigned(base)) {
        const unsigned k = unsigned(x % unsigned(base));
        d.insert(d.begin(), k < 10 ? char('0' + k) : char((s.chance(1, 2) ? 'a' : 'A') + k - 10));
    }
    std::string t = (base == 2 ? "0b" : base == 8 ? "0" : base == 16 ? "0x" : "") + d;
    bool ok = true;
    if (s.chance(1, 4)) {
        const std::string junk = s.pick({ "g", " ", "9x", "_", "-", "." });
        const std::size_t at = s.chance(1, 2) ? t.size() : s.below(t.size() + 1);
        t.insert(at, junk);
        // an inserted unit that is no digit makes the literal invalid wherever it is
        ok = false;
    }
    else if (s.chance(1, 8)) {
        t += base == 16 ? "00000000000000000" : base == 10 ? "00000000000000000000" : base == 8 ? "0000000000000000000000" : std::string(64, '0');
        ok = v == 0; // too large otherwise
    }
    c.describe(cat("literal ", quote(t)));
    const bool negative = !t.empty() && t[0] == '-';
    if (!negative) {
        const Exact e { t };
        const auto r = ul::parse_uinteger_literal(as8({ e.data(), e.size() }));
        VP_CHECK(r.has_value() == ok, "accept", "parse_uinteger_literal: accepted is ", r.has_value());
        VP_CHECK(!ok || *r == v, "value", "parse_uinteger_literal: ", *r, ", expected ", v);
        const auto i = ul::parse_integer_literal(as8({ e.data(), e.size() }));
        const bool fits = ok && v <= (unsigned long long)LLONG_MAX;
        VP_CHECK(i.has_value() == fits, "accept-signed", "parse_integer_literal: accepted is ", i.has_value());
        VP_CHECK(!fits || (unsigned long long)*i == v, "value-signed", "parse_integer_literal");
        const std::string m = "-" + t;
        const auto j = ul::parse_integer_literal(as8(m));
        const bool mfits = ok && v <= (unsigned long long)LLONG_MAX + 1;
        VP_CHECK(j.has_value() == mfits, "accept-negative", "parse_integer_literal(", m, "): accepted is ", j.has_value());
        VP_CHECK(!mfits || (unsigned long long)*j == 0 - v, "value-negative", "parse_integer_literal(", m, ") is ", *j);
    }
    c.cls(ok ? "literal" : "no literal");
    c.nontrivial(t);
}

template <ul::Common_Escape E>
void one_escape(std::string_view t, std::size_t lo, std::size_t hi, bool hex, bool braced, const char* name)
{
    // Reference: a valid escape is as long as possible; braced ones are in braces and not empty.
    const auto digit = [&](char ch) {
        return hex ? bool(std::isxdigit((unsigned char)ch)) : ch >= '0' && ch <= '7';
    };
    std::size_t len = 0;
    bool ok;
    if (braced) {
        const std::size_t close = t.find('}');
        ok = t.starts_with("{") && close != t.npos && close > 1;
        for (std::size_t i = 1; ok && i < close; ++i) {
            ok = digit(t[i]);
        }
        len = ok ? close + 1 : 0;
    }
    else {
        while (len < t.size() && len < hi && digit(t[len])) {
            ++len;
        }
        ok = len >= lo;
    }
    const Exact e { t };
    const u8v v = as8({ e.data(), e.size() });
    const ul::Escape_Result r = ul::match_common_escape<E>(v);
    VP_CHECK(r.erroneous == !ok, name, quote(t), ": erroneous is ", r.erroneous);
    VP_CHECK(bool(r) == (r.length != 0), name, quote(t), ": as a condition ", bool(r));
    VP_CHECK(ul::escape_type_min_length(E) == lo, name, "the least length is ", ul::escape_type_min_length(E));
    VP_CHECK(ul::escape_type_max_length(E) == (hi == SIZE_MAX ? 0 : hi), name, "the greatest length is ", ul::escape_type_max_length(E));
    VP_CHECK(!ok || r.length == len, name, quote(t), ": length ", r.length, ", expected ", len);
    VP_CHECK(r.length <= t.size(), name, quote(t), ": length ", r.length, " exceeds the string");
    if (!ok && t.substr(0, r.length).find_first_of("\"'`\\\n\r") != t.npos) {
        fail("swallow", cat(name, ": ", quote(t), ": the erroneous escape of ", r.length, " units goes beyond a delimiter"));
    }
    const std::string pre = "\\x" + std::string(t);
    const ul::Escape_Result p = ul::match_common_escape<E>(as8(pre), 2);
    VP_CHECK(p.length == r.length + 2 && p.erroneous == r.erroneous, "prefix", name, " ", quote(t));
}

void u07_escape(Src& s, Ctx& c)
{
    static const char* const soup[] { "0", "1", "7", "8", "9", "a", "F", "g", "{", "}", "\"", "'", "\\", "\n", "\r", " ", "\xc3\xa9", "\xf0\x9f\x98\x80", "`" };
    std::string t;
    const bool braced = s.chance(1, 2);
    if (braced) {
        t += "{";
    }
    const std::size_t n = s.size(10);
    for (std::size_t i = 0; i < n; ++i) {
        t += s.chance(3, 4) ? soup[s.below(7)] : s.pick(soup);
    }
    if (braced && s.chance(2, 3)) {
        t += "}";
    }
    c.describe(cat("escape ", quote(t)));
    using enum ul::Common_Escape;
    one_escape<octal_1_to_2>(t, 1, 2, false, false, "octal_1_to_2");
    one_escape<octal_1_to_3>(t, 1, 3, false, false, "octal_1_to_3");
    one_escape<octal_3>(t, 3, 3, false, false, "octal_3");
    one_escape<hex_1_to_2>(t, 1, 2, true, false, "hex_1_to_2");
    one_escape<hex_1_to_inf>(t, 1, SIZE_MAX, true, false, "hex_1_to_inf");
    one_escape<hex_2>(t, 2, 2, true, false, "hex_2");
    one_escape<hex_4>(t, 4, 4, true, false, "hex_4");
    one_escape<hex_8>(t, 8, 8, true, false, "hex_8");
    one_escape<octal_braced>(t, 0, 0, false, true, "octal_braced");
    one_escape<hex_braced>(t, 0, 0, true, true, "hex_braced");
    const auto r = ul::match_common_escape<lf_cr_crlf>(as8(t));
    const std::size_t want = t.starts_with("\r\n") ? 2 : t.starts_with("\n") || t.starts_with("\r") ? 1 : 0;
    VP_CHECK(r.length == want && r.erroneous == (want == 0), "lf_cr_crlf", quote(t));
    VP_CHECK(ul::escape_type_min_length(lf_cr_crlf) == 1 && ul::escape_type_max_length(lf_cr_crlf) == 2, "lf_cr_crlf", "least and greatest length");
    VP_CHECK(ul::escape_type_min_length(nonempty_braced) == 0 && ul::escape_type_max_length(nonempty_braced) == 0, "nonempty_braced", "least and greatest length");
    {
        // Anything in braces but a delimiter; not closed, it is erroneous, and ends before the delimiter.
        const std::size_t limit = std::min(t.find_first_of("\"'`\\\r\n"), t.size());
        const std::size_t close = t.find('}');
        const bool open = t.starts_with("{"), ok = open && close < limit && close > 1;
        const Exact e { t };
        const auto named = ul::match_common_escape<nonempty_braced>(as8({ e.data(), e.size() }));
        VP_CHECK(named.erroneous == !ok, "nonempty_braced", quote(t), ": erroneous is ", named.erroneous);
        VP_CHECK(named.length == (!open ? 0 : close < limit ? close + 1 : limit), "nonempty_braced", quote(t), ": length ", named.length);
        const auto prefixed = ul::match_common_escape<nonempty_braced>(as8("\\N" + t), 2);
        VP_CHECK(prefixed.length == named.length + 2 && prefixed.erroneous == named.erroneous, "prefix", "nonempty_braced ", quote(t));

        // A backslash and the one character that follows.
        const std::string esc = "\\" + t;
        const std::size_t first = t.empty() ? 0 : (unsigned char)t[0] >= 0xf0 ? 4 : (unsigned char)t[0] >= 0xe0 ? 3 : (unsigned char)t[0] >= 0xc0 ? 2 : 1;
        VP_CHECK(ul::match_single_character_escape(as8(esc)) == 1 + first, "single", quote(esc), " has length ", ul::match_single_character_escape(as8(esc)));
        VP_CHECK(ul::match_single_character_escape({}) == 0, "single", "of nothing");
    }
    c.cls("escape");
    c.evals = 26;
    if (n) {
        c.nontrivial(t);
    }
}

/// C and C++ integer literals and preprocessing numbers.
void u07_cpp(Src& s, Ctx& c)
{
    namespace cpp = ul::cpp;
    static constexpr std::string_view hex = "0123456789abcdef";
    std::string t;
    for (std::size_t i = 0, n = s.size(8); i < n; ++i) {
        t += s.pick({ "0", "0", "1", "7", "8", "9", "a", "F", "g", "z", "Z", "_", "x", "X", "b", "B", "e", "E", "p", "P", "e+", "E-", "p-", "P+", "+", "-", ".", "'", "''", " ", "u" });
        if (i == 0 && s.chance(1, 2)) {
            t = s.pick({ "0x", "0X", "0b", "0B", "0", ".", "." });
        }
    }
    const auto digit = [](char x) { return x >= '0' && x <= '9'; };
    const auto at = [&](std::size_t i) { return i < t.size() ? t[i] : '\0'; };
    const auto word = [&](char x) { return digit(x) || (x >= 'a' && x <= 'z') || (x >= 'A' && x <= 'Z') || x == '_'; };

    const auto digits = [&](std::size_t from, std::size_t base) {
        std::size_t n = 0;
        while (from + n < t.size() && hex.substr(0, base).find(char(t[from + n] >= 'A' && t[from + n] <= 'Z' ? t[from + n] - 'A' + 'a' : t[from + n])) != hex.npos) {
            ++n;
        }
        return n;
    };
    using enum cpp::Literal_Match_Status;
    auto status = no_digits;
    auto type = cpp::Integer_Literal_Type {};
    std::size_t length = 0;
    if (digit(at(0))) {
        const char second = at(1);
        const bool is_hex = t[0] == '0' && (second == 'x' || second == 'X'), is_bin = t[0] == '0' && (second == 'b' || second == 'B');
        const std::size_t prefix = is_hex || is_bin ? 2 : 0;
        const std::size_t n = digits(prefix, is_hex ? 16 : is_bin ? 2 : t[0] == '0' ? 8 : 10);
        status = n ? ok : no_digits_following_prefix;
        length = prefix + n;
        type = is_hex ? cpp::Integer_Literal_Type::hexadecimal : is_bin ? cpp::Integer_Literal_Type::binary : t[0] == '0' && n > 1 ? cpp::Integer_Literal_Type::octal : cpp::Integer_Literal_Type::decimal;
    }
    const Exact e { t };
    const u8v v = as8({ e.data(), e.size() });
    const auto got = cpp::match_integer_literal(v);
    c.describe(cat("C++ number ", quote(t)));
    VP_CHECK(got.status == status && bool(got) == (status == ok), "integer-literal", quote(t), ": status ", int(got.status), ", expected ", int(status));
    VP_CHECK(got.length == length, "integer-literal", quote(t), ": length ", got.length, ", expected ", length);
    VP_CHECK(status == no_digits || got.type == type, "integer-literal", quote(t), ": type ", int(got.type), ", expected ", int(type));

    std::size_t pp = 0;
    if (digit(at(0)) || (at(0) == '.' && digit(at(1)))) {
        pp = at(0) == '.' ? 2 : 1;
        while (pp < t.size()) {
            const bool exponent = std::string_view("eEpP").find(t[pp]) != std::string_view::npos;
            if (exponent && (at(pp + 1) == '+' || at(pp + 1) == '-')) {
                pp += 2;
            }
            else if (t[pp] == '.' || word(t[pp])) {
                pp += 1;
            }
            else if (t[pp] == '\'' && word(at(pp + 1))) {
                pp += 2;
            }
            else {
                break;
            }
        }
    }
    VP_CHECK(cpp::match_pp_number(v) == pp, "pp-number", quote(t), ": length ", cpp::match_pp_number(v), ", expected ", pp);
    c.cls(pp ? "C++ number" : "no C++ number");
    c.evals = 2;
    if (pp > 1) {
        c.nontrivial(t);
    }
}

void u07(Src& s, Ctx& c)
{
    switch (s.weighted({ 4, 2, 2, 2, 3, 1, 1 })) {
    case 6: u07_cpp(s, c); break;
    case 0: u07_number(s, c); break;
    case 1: u07_digits(s, c); break;
    case 2: u07_literal(s, c); break;
    case 4: u07_grammar(s, c); break;
    case 5: u07_base_suffix(s, c); break;
    default: u07_escape(s, c); break;
    }
}
Register r07({ "U07", u07, 250000, 5000000, "numbers assembled from known parts, digit and escape strings of at least one unit, and integer literals", true });

} // namespace
