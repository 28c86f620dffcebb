// The event-based JSON parser (ulight/json.hpp).
#include "hl.hpp"

#include <charconv>
#include <cmath>
#include <cstdlib>
#include <memory>
#include <optional>

#include "ulight/json.hpp"

using namespace vp;
namespace ul = ulight;

namespace {

enum Kind {
    line_comment,
    block_comment,
    literal,
    escape,
    number,
    null,
    boolean,
    push_string,
    pop_string,
    push_property,
    pop_property,
    push_object,
    pop_object,
    push_array,
    pop_array,
};
constexpr const char* kind_names[] { "line_comment", "block_comment", "literal", "escape", "number", "null", "boolean", "push_string", "pop_string", "push_property", "pop_property", "push_object", "pop_object", "push_array", "pop_array" };
constexpr const char* error_names[] { "error", "comment", "illegal_character", "illegal_escape", "illegal_number", "unterminated_string", "unterminated_object", "unterminated_array", "valueless_member" };

struct Ev {
    Kind kind;
    std::size_t pos;
    std::string text {}; // the text of the comment, literal, escape or number; "true" or "false"
    std::uint32_t code_point = 0; // of an escape
};
std::string show(const Ev& e) { return cat(kind_names[e.kind], "@", e.pos, e.text.empty() ? "" : " ", e.text.empty() ? "" : quote(e.text), e.code_point ? cat(" U+", e.code_point) : ""); }
std::string show(const std::vector<Ev>& v, std::size_t from = 0)
{
    std::string r;
    for (std::size_t i = from < 3 ? 0 : from - 3; i < v.size() && i < from + 5; ++i) {
        r += (r.empty() ? "" : ", ") + show(v[i]);
    }
    return r + (v.size() > from + 5 ? ", ..." : "");
}

struct Options {
    bool comments, numbers;
    ul::Escape_Parsing escapes;
    bool bytes; // the overload for std::string_view

    std::string show() const { return cat(comments ? "comments " : "", numbers ? "parse_numbers " : "", escapes == ul::Escape_Parsing::none ? "" : escapes == ul::Escape_Parsing::parse ? "parse " : "parse_encode ", bytes ? "(string_view) " : ""); }
};
Options gen_options(Src& s) { return { s.chance(1, 2), s.chance(1, 2), ul::Escape_Parsing(s.below(3)), s.chance(1, 4) }; }

struct Pos {
    std::size_t code_unit, line, column;
};
/// Lines end at line feeds.
Pos position(std::string_view s, std::size_t at)
{
    Pos p { at, 0, at };
    for (std::size_t i = 0; i < at; ++i) {
        if (s[i] == '\n') {
            ++p.line;
            p.column = at - i - 1;
        }
    }
    return p;
}

std::string encode(std::uint32_t c)
{
    if (c < 0x80) {
        return { char(c) };
    }
    if (c < 0x800) {
        return { char(0xC0 | (c >> 6)), char(0x80 | (c & 63)) };
    }
    return { char(0xE0 | (c >> 12)), char(0x80 | ((c >> 6) & 63)), char(0x80 | (c & 63)) };
}

std::string narrow(std::u8string_view s) { return { reinterpret_cast<const char*>(s.data()), s.size() }; }

/// Records what the parser reports, and checks what can be checked locally.
struct Recorder final : ul::JSON_Visitor {
    std::string_view source;
    const char* begin; // of the source as given to the parser
    Options o;
    std::vector<Ev> events;
    std::vector<double> values;
    std::optional<std::pair<ul::JSON_Error, ul::Source_Position>> first_error;
    int errors = 0;
    std::string problem, problem_tag;
    // For positions
    std::size_t scanned = 0, line = 0, line_start = 0;

    void bad(std::string tag, std::string what)
    {
        if (problem.empty()) {
            problem_tag = std::move(tag);
            problem = std::move(what);
        }
    }
    void check_position(const ul::Source_Position& p, const char* what)
    {
        if (p.code_unit < scanned || p.code_unit > source.size()) {
            bad("position", cat(what, " at ", p.code_unit, ", after ", scanned, ", in a text of ", source.size()));
            return;
        }
        for (; scanned < p.code_unit; ++scanned) {
            if (source[scanned] == '\n') {
                ++line;
                line_start = scanned + 1;
            }
        }
        if (p.line != line || p.line_code_unit != p.code_unit - line_start) {
            bad("line-position", cat(what, " at ", p.code_unit, " is reported at line ", p.line, ":", p.line_code_unit, ", not ", line, ":", p.code_unit - line_start));
        }
    }
    Ev& add(Kind k, const ul::Source_Position& p)
    {
        if (errors) {
            bad("event-after-error", cat(kind_names[k], " after an error"));
        }
        check_position(p, kind_names[k]);
        events.push_back({ k, p.code_unit });
        return events.back();
    }
    void text(Kind k, const ul::Source_Position& p, std::u8string_view t)
    {
        Ev& e = add(k, p);
        e.text = narrow(t);
        if (reinterpret_cast<const char*>(t.data()) != begin + p.code_unit) {
            bad("text-not-at-position", cat("the text of ", kind_names[k], " is not the one at its position"));
        }
        if (t.empty()) {
            bad("empty-text", cat("empty ", kind_names[k]));
        }
    }

    void line_comment(const ul::Source_Position& p, std::u8string_view t) final { text(::line_comment, p, t); }
    void block_comment(const ul::Source_Position& p, std::u8string_view t) final { text(::block_comment, p, t); }
    void literal(const ul::Source_Position& p, std::u8string_view t) final { text(::literal, p, t); }
    void escape(const ul::Source_Position& p, std::u8string_view t) final
    {
        text(::escape, p, t);
        if (o.escapes != ul::Escape_Parsing::none) {
            bad("wrong-overload", "escape() without a code point");
        }
    }
    void escape(const ul::Source_Position& p, std::u8string_view t, char32_t c) final
    {
        text(::escape, p, t);
        events.back().code_point = c;
        if (o.escapes != ul::Escape_Parsing::parse) {
            bad("wrong-overload", "escape() with a code point");
        }
    }
    void escape(const ul::Source_Position& p, std::u8string_view t, char32_t c, std::u8string_view u) final
    {
        text(::escape, p, t);
        events.back().code_point = c;
        if (o.escapes != ul::Escape_Parsing::parse_encode) {
            bad("wrong-overload", "escape() with code units");
        }
        else if (narrow(u) != encode(c)) {
            bad("escape-code-units", cat("the code units of ", quote(narrow(t)), " are ", quote(narrow(u))));
        }
    }
    void number(const ul::Source_Position& p, std::u8string_view t) final
    {
        text(::number, p, t);
        if (o.numbers) {
            bad("wrong-overload", "number() without a value");
        }
    }
    void number(const ul::Source_Position& p, std::u8string_view t, double v) final
    {
        text(::number, p, t);
        values.push_back(v);
        if (!o.numbers) {
            bad("wrong-overload", "number() with a value");
        }
    }
    void null(const ul::Source_Position& p) final { add(::null, p); }
    void boolean(const ul::Source_Position& p, bool v) final { add(::boolean, p).text = v ? "true" : "false"; }
    void push_string(const ul::Source_Position& p) final { add(::push_string, p); }
    void pop_string(const ul::Source_Position& p) final { add(::pop_string, p); }
    void push_property(const ul::Source_Position& p) final { add(::push_property, p); }
    void pop_property(const ul::Source_Position& p) final { add(::pop_property, p); }
    void push_object(const ul::Source_Position& p) final { add(::push_object, p); }
    void pop_object(const ul::Source_Position& p) final { add(::pop_object, p); }
    void push_array(const ul::Source_Position& p) final { add(::push_array, p); }
    void pop_array(const ul::Source_Position& p) final { add(::pop_array, p); }
    ul::Error_Reaction error(const ul::Source_Position& p, ul::JSON_Error e) final
    {
        check_position(p, "error");
        if (++errors == 1) {
            first_error = { e, p };
        }
        return ul::Error_Reaction::abort;
    }
};

struct Run {
    Recorder r;
    bool ok;
    std::unique_ptr<char[]> memory;
};

/// Parses `text`, which ends where its memory ends unless something is put after it.
void run(Run& x, std::string_view text, const Options& o, std::string_view after = {})
{
    x.memory.reset(new char[text.size() + after.size() + (text.size() + after.size() == 0)]);
    std::copy(text.begin(), text.end(), x.memory.get());
    std::copy(after.begin(), after.end(), x.memory.get() + text.size());
    x.r.source = text;
    x.r.begin = x.memory.get();
    x.r.o = o;
    const ul::JSON_Options options { .allow_comments = o.comments, .parse_numbers = o.numbers, .escapes = o.escapes };
    if (o.bytes) {
        x.ok = ul::parse_json(x.r, std::string_view(x.memory.get(), text.size()), options);
    }
    else {
        x.ok = ul::parse_json(x.r, std::u8string_view(reinterpret_cast<const char8_t*>(x.memory.get()), text.size()), options);
    }
    VP_CHECK(x.r.problem.empty(), x.r.problem_tag, x.r.problem);
    VP_CHECK(x.ok == (x.r.errors == 0), x.ok ? "error-on-success" : "no-error-on-failure", x.ok ? "true is returned, but an error was reported" : "false is returned, but no error was reported");
    VP_CHECK(x.r.errors <= 1, "two-errors", x.r.errors, " errors were reported");
}

bool same(const Ev& a, const Ev& b, const Options& o) { return a.kind == b.kind && a.pos == b.pos && a.text == b.text && (a.kind != escape || o.escapes == ul::Escape_Parsing::none || a.code_point == b.code_point); }

// ---------------------------------------------------------------- documents with known events

struct Gen {
    Src& s;
    bool comments;
    std::string t {};
    std::vector<Ev> e {};
    std::size_t budget = 40;
    std::size_t depth = 0;
    std::size_t kinds[15] {};

    void ev(Kind k, std::string text = {}, std::uint32_t c = 0)
    {
        ++kinds[k];
        e.push_back({ k, t.size(), text, c });
        t += text;
    }
    void ws()
    {
        while (s.chance(1, 3)) {
            if (comments && s.chance(1, 2)) {
                comment();
            }
            else {
                t += s.pick({ " ", "\n", "\t", "\r", "\r\n", "  " });
            }
        }
    }
    void comment()
    {
        static constexpr std::initializer_list<const char*> parts { "a", " ", "\"", "*", "/", "//", "{", "}", "\xc3\xa9", "\xf0\x9f\x98\x80", "\\", "\t", "#", "1", "[" };
        std::string c;
        if (s.chance(1, 2)) {
            for (std::size_t i = 0, n = s.size(6); i < n; ++i) {
                c += s.pick(parts);
            }
            ev(line_comment, "//" + c);
            t += s.pick({ "\n", "\r\n", "\r" });
            return;
        }
        for (std::size_t i = 0, n = s.size(6); i < n; ++i) {
            c += s.chance(1, 4) ? s.pick({ "\n", "\r\n", "\r" }) : s.pick(parts);
        }
        c.resize((c + "*/").find("*/"));
        ev(block_comment, "/*" + c + "*/");
    }

    void escape_sequence()
    {
        static constexpr std::pair<const char*, std::uint32_t> simple[] { { "\\\"", '"' }, { "\\\\", '\\' }, { "\\/", '/' }, { "\\b", 8 }, { "\\f", 12 }, { "\\n", 10 }, { "\\r", 13 }, { "\\t", 9 } };
        if (s.chance(1, 2)) {
            const auto& x = simple[s.below(8)];
            ev(escape, x.first, x.second);
            return;
        }
        const std::uint32_t c = s.chance(1, 2) ? s.below(0x10000) : s.pick({ 0u, 0x41u, 0x7Fu, 0x80u, 0x7FFu, 0x800u, 0xD7FFu, 0xD800u, 0xDBFFu, 0xDC00u, 0xDFFFu, 0xE000u, 0xFFFDu, 0xFFFFu });
        char h[8];
        std::snprintf(h, sizeof h, "\\u%04x", unsigned(c));
        for (char* p = h + 2; *p; ++p) {
            *p = char(s.chance(1, 2) ? std::toupper(*p) : *p);
        }
        ev(escape, h, c);
    }
    void string(bool property)
    {
        ev(property ? push_property : push_string);
        t += '"';
        std::string l;
        for (std::size_t i = 0, n = s.size(6); i < n; ++i) {
            if (s.chance(1, 3)) {
                if (!l.empty()) {
                    ev(literal, l);
                    l.clear();
                }
                escape_sequence();
            }
            else {
                l += s.pick({ "a", "b", " ", "/", "'", "{", "}", "[", "]", ":", ",", "//", "/*", "\x7f", "\xc3\xa9", "\xe4\xb8\xad", "\xf0\x9f\x98\x80", "null", "1", "u0041", "\xe2\x80\xa8" });
            }
        }
        if (!l.empty()) {
            ev(literal, l);
        }
        ev(property ? pop_property : pop_string);
        t += '"';
    }
    std::string digits(std::size_t max)
    {
        std::string d;
        for (std::size_t i = 0, n = 1 + s.size(max - 1); i < n; ++i) {
            d += char('0' + s.below(10));
        }
        return d;
    }
    std::string number_text()
    {
        std::string n = s.chance(1, 3) ? "-" : "";
        if (s.chance(1, 4)) {
            n += '0';
        }
        else {
            n += char('1' + s.below(9));
            n += s.chance(1, 2) ? digits(20) : "";
        }
        if (s.chance(1, 3)) {
            n += "." + digits(20);
        }
        if (s.chance(1, 3)) {
            n += s.pick({ "e", "E", "e+", "e-", "E+", "E-" });
            n += s.chance(1, 3) ? digits(1) : digits(3);
        }
        return n;
    }
    void value()
    {
        if (budget > 0) {
            --budget;
        }
        switch (s.below(budget > 0 && depth < 8 ? 8 : 5)) {
        case 0: ev(null), t += "null"; break;
        case 1:
        case 2: ev(number, number_text()); break;
        case 3: {
            const bool b = s.chance(1, 2);
            ev(boolean, b ? "true" : "false");
            break;
        }
        case 4: string(false); break;
        case 5:
        case 6: {
            ++depth;
            ev(push_array);
            t += '[';
            ws();
            for (std::size_t i = 0, n = s.size(4); i < n; ++i) {
                if (i) {
                    t += ',';
                    ws();
                }
                value();
                ws();
            }
            ev(pop_array);
            t += ']';
            --depth;
            break;
        }
        default:
            ++depth;
            ev(push_object);
            t += '{';
            ws();
            for (std::size_t i = 0, n = s.size(4); i < n; ++i) {
                if (i) {
                    t += ',';
                    ws();
                }
                string(true);
                ws();
                t += ':';
                ws();
                value();
                ws();
            }
            ev(pop_object);
            t += '}';
            --depth;
        }
    }
    void document()
    {
        ws();
        value();
        ws();
    }
};

void classes(Ctx& c, const Gen& g)
{
    for (int i = 0; i < 15; ++i) {
        if (g.kinds[i]) {
            c.cls(kind_names[i]);
        }
    }
}

void compare(const std::vector<Ev>& want, const std::vector<Ev>& got, const Options& o)
{
    for (std::size_t i = 0; i < want.size() || i < got.size(); ++i) {
        VP_CHECK(i < want.size() && i < got.size() && same(want[i], got[i], o), cat("events-", i < want.size() ? kind_names[want[i].kind] : "end"), "event ", i, ": expected ", show(want, i), "; got ", show(got, i));
    }
}

// ---------------------------------------------------------------- J02

void j02(Src& s, Ctx& c)
{
    const Options o = gen_options(s);
    Gen g { s, o.comments };
    g.document();
    const std::string after = s.pick({ "", "", "1", "}", "]", "\"", " ", "x" });
    c.describe(cat(o.show(), quote(g.t)));
    classes(c, g);
    if (g.e.size() > 3) {
        c.nontrivial(g.t, std::uint64_t(o.comments) + 2 * o.numbers + 4 * std::uint64_t(o.escapes));
    }
    Run x;
    run(x, g.t, o, after);
    VP_CHECK(x.ok, "rejected", "a JSON text is rejected with ", error_names[int(x.r.first_error->first)], " at ", x.r.first_error->second.code_unit);
    compare(g.e, x.r.events, o);
}
Register r_j02({ "J02", j02, 60000, 1800000, "JSON texts with more than three events, under generated options", true });

// ---------------------------------------------------------------- J03

double reference_value(const std::string& t)
{
    double v = 0;
    const auto r = std::from_chars(t.data(), t.data() + t.size(), v);
    if (r.ec == std::errc {}) {
        return v;
    }
    // Out of range: too large, or too small.
    std::size_t e = t.find_first_of("eE");
    const bool negative_exponent = e != t.npos && t[e + 1] == '-';
    v = negative_exponent ? 0 : HUGE_VAL;
    return t[0] == '-' ? -v : v;
}

void j03(Src& s, Ctx& c)
{
    Gen g { s, false };
    std::string n;
    switch (s.below(6)) {
    case 0: // any double
    {
        const std::uint64_t bits = s.u64();
        double d;
        std::memcpy(&d, &bits, 8);
        if (!std::isfinite(d)) {
            d = 1.5;
        }
        char b[64];
        std::snprintf(b, sizeof b, s.chance(1, 2) ? "%.17g" : "%.30e", d);
        n = b;
        c.cls("any double");
        break;
    }
    case 1: // halfway between two doubles
    {
        const std::uint64_t m = (std::uint64_t(1) << 53) | (s.u64() & ((std::uint64_t(1) << 53) - 1));
        n = std::to_string(m | 1);
        if (s.chance(1, 2)) {
            n += "." + std::string(s.below(30), '0') + s.pick({ "", "1" });
            n += n.back() == '.' ? "0" : "";
        }
        c.cls("near the middle of two doubles");
        break;
    }
    case 2:
        n = s.pick({ "1e308", "1.7976931348623157e308", "1.7976931348623158e308", "1e309", "-1e309", "4.9e-324", "2.4e-324", "1e-400", "-1e-400", "2.2250738585072011e-308", "2.2250738585072014e-308", "0e999", "-0", "-0.0", "0.1", "9007199254740993", "123456789012345678901234567890", "1e0", "1E+00", "0.0000000000000000000001" });
        c.cls("special");
        break;
    case 3: // many digits
        n = g.digits(60) + "." + g.digits(60);
        n.erase(0, std::min(n.find_first_not_of('0'), n.find('.')));
        n.insert(0, n[0] == '.' ? "1" : "");
        c.cls("many digits");
        break;
    default: n = g.number_text(); break;
    }
    const bool array = s.chance(1, 3);
    std::string t = array ? "[" + n + "," + n + "]" : n;
    // What follows the text in memory is not part of it.
    const std::string after = array ? "" : s.pick({ "", "0", "5", "e5", ".5", "x1", ".", "p3", "\0" });
    c.describe(cat(quote(t), " followed by ", quote(after)));
    c.cls(after.empty() ? "at the end of the memory" : "followed by something");
    c.nontrivial(t, hash_bytes(after));
    Run x;
    run(x, t, { false, true, ul::Escape_Parsing::none, s.chance(1, 4) }, after);
    VP_CHECK(x.ok, "rejected", "rejected with ", error_names[int(x.r.first_error->first)]);
    VP_CHECK(x.r.values.size() == (array ? 2u : 1u), "count", x.r.values.size(), " values");
    const double want = reference_value(n);
    for (double v : x.r.values) {
        VP_CHECK(std::memcmp(&v, &want, 8) == 0, "value", "the value of ", n, " is ", v, ", not ", want);
    }
    const std::size_t at = array ? 1 : 0;
    for (const Ev& e : x.r.events) {
        if (e.kind == number) {
            VP_CHECK(e.text == n, "text", "the text of the number is ", quote(e.text));
            VP_CHECK(e.pos == at || e.pos == at + n.size() + 1, "position", "at ", e.pos);
        }
    }
}
Register r_j03({ "J03", j03, 80000, 2400000, "every number, with what follows it in memory", true });

// ---------------------------------------------------------------- reference parser

/// A recursive-descent recognizer of RFC 8259, with what errors are acceptable.
struct Ref {
    std::string_view t;
    bool comments;
    std::size_t i = 0;
    std::vector<Ev> e {};
    bool failed = false;
    unsigned kinds = 0; // acceptable JSON_Error values, as a set
    std::size_t lo = 0, hi = 0; // acceptable positions
    bool optional_last = false; // the parser may report one more literal or number

    static unsigned bit(ul::JSON_Error x) { return 1u << unsigned(x); }
    bool err(unsigned k, std::size_t from, std::size_t to)
    {
        failed = true;
        kinds = k, lo = from, hi = to;
        return false;
    }
    using E = ul::JSON_Error;
    bool at(char c) const { return i < t.size() && t[i] == c; }
    static bool dig(char c) { return c >= '0' && c <= '9'; }

    bool ws()
    {
        for (;;) {
            while (i < t.size() && (t[i] == ' ' || t[i] == '\t' || t[i] == '\n' || t[i] == '\r')) {
                ++i;
            }
            const bool line = t.substr(i).starts_with("//"), block = t.substr(i).starts_with("/*");
            if (!line && !block) {
                return true;
            }
            if (!comments) {
                return err(bit(E::comment), i, i);
            }
            if (line) {
                std::size_t k = i + 2;
                while (k < t.size() && t[k] != '\n' && t[k] != '\r' && !t.substr(k).starts_with("\xe2\x80\xa8") && !t.substr(k).starts_with("\xe2\x80\xa9")) {
                    ++k;
                }
                e.push_back({ line_comment, i, std::string(t.substr(i, k - i)) });
                i = k;
                continue;
            }
            const std::size_t k = t.find("*/", i + 2);
            if (k == t.npos) {
                return err(bit(E::comment), i, t.size());
            }
            e.push_back({ block_comment, i, std::string(t.substr(i, k + 2 - i)) });
            i = k + 2;
        }
    }
    bool string(bool property)
    {
        const std::size_t start = i;
        e.push_back({ property ? push_property : push_string, i++ });
        std::size_t lit = i;
        auto flush = [&] {
            if (i != lit) {
                e.push_back({ literal, lit, std::string(t.substr(lit, i - lit)) });
            }
        };
        while (i < t.size()) {
            const unsigned char ch = static_cast<unsigned char>(t[i]);
            if (ch == '"') {
                flush();
                e.push_back({ property ? pop_property : pop_string, i++ });
                return true;
            }
            if (ch < 0x20) {
                flush();
                optional_last = i != lit;
                return err(bit(E::illegal_character), i, i);
            }
            if (ch != '\\') {
                ++i;
                continue;
            }
            flush();
            static constexpr std::string_view from = "\"\\/bfnrt", to = "\"\\/\b\f\n\r\t";
            const std::size_t x = i + 1 < t.size() ? from.find(t[i + 1]) : from.npos;
            if (x != from.npos) {
                e.push_back({ escape, i, std::string(t.substr(i, 2)), std::uint32_t(to[x]) });
                i += 2;
            }
            else {
                bool ok = t.substr(i).starts_with("\\u") && i + 6 <= t.size();
                std::uint32_t v = 0;
                for (int k = 2; ok && k < 6; ++k) {
                    const char h = t[i + std::size_t(k)];
                    ok = std::isxdigit(static_cast<unsigned char>(h));
                    v = v * 16 + std::uint32_t(dig(h) ? h - '0' : (h | 32) - 'a' + 10);
                }
                if (!ok) {
                    optional_last = i != lit;
                    return err(bit(E::illegal_escape), i, std::min(i + 6, t.size()));
                }
                e.push_back({ escape, i, std::string(t.substr(i, 6)), v });
                i += 6;
            }
            lit = i;
        }
        flush();
        optional_last = i != lit;
        return err(bit(E::unterminated_string), start, t.size());
    }
    bool num()
    {
        const std::size_t start = i;
        std::size_t k = i + at('-');
        auto run = [&] {
            const std::size_t b = k;
            while (k < t.size() && dig(t[k])) {
                ++k;
            }
            return k - b;
        };
        auto bad = [&] { return err(bit(E::illegal_number), start, std::min(k + 1, t.size())); };
        const std::size_t b = k, n = run();
        if (n == 0 || (n > 1 && t[b] == '0')) {
            return bad();
        }
        if (k < t.size() && t[k] == '.') {
            ++k;
            if (run() == 0) {
                return bad();
            }
        }
        if (k < t.size() && (t[k] | 32) == 'e') {
            ++k;
            if (k < t.size() && (t[k] == '+' || t[k] == '-')) {
                ++k;
            }
            if (run() == 0) {
                return bad();
            }
        }
        e.push_back({ number, start, std::string(t.substr(start, k - start)) });
        i = k;
        return true;
    }
    /// Parses without recursion, because texts may be deeply nested.
    bool document()
    {
        struct Open {
            bool object;
            std::size_t start;
            bool empty = true;
        };
        std::vector<Open> open;
        bool expect_value = true;
        if (!ws()) {
            return false;
        }
        for (;;) {
            if (expect_value) {
                if (i >= t.size()) {
                    return err(open.empty() ? ~0u : bit(E::error) | bit(open.back().object ? E::unterminated_object : E::unterminated_array), open.empty() ? 0 : open.back().start, t.size());
                }
                const char ch = t[i];
                expect_value = false;
                if (ch == '"') {
                    if (!string(false)) {
                        return false;
                    }
                }
                else if (ch == '-' || dig(ch)) {
                    if (!num()) {
                        return false;
                    }
                }
                else if (t.substr(i).starts_with("null")) {
                    e.push_back({ null, i });
                    i += 4;
                }
                else if (t.substr(i).starts_with("true") || t.substr(i).starts_with("false")) {
                    e.push_back({ boolean, i, ch == 't' ? "true" : "false" });
                    i += ch == 't' ? 4 : 5;
                }
                else if (ch == '[' || ch == '{') {
                    e.push_back({ ch == '[' ? push_array : push_object, i });
                    open.push_back({ ch == '{', i });
                    ++i;
                }
                else {
                    return err(bit(E::illegal_character), i, i + (ch == 'n' || ch == 't' || ch == 'f' ? 5 : 0));
                }
                continue;
            }
            if (!ws()) {
                return false;
            }
            if (open.empty()) {
                return i == t.size() || err(bit(E::illegal_character), i, i);
            }
            Open& o = open.back();
            const unsigned unterminated = bit(o.object ? E::unterminated_object : E::unterminated_array);
            if (i >= t.size()) {
                return err(unterminated, o.start, t.size());
            }
            if (t[i] == (o.object ? '}' : ']')) {
                e.push_back({ o.object ? pop_object : pop_array, i++ });
                open.pop_back();
                continue;
            }
            if (!o.empty) {
                if (t[i] != ',') {
                    return err(bit(E::illegal_character), i, i);
                }
                ++i;
                if (!ws()) {
                    return false;
                }
                if (i >= t.size()) {
                    return err(unterminated, o.start, t.size());
                }
            }
            o.empty = false;
            if (o.object) {
                const std::size_t key = i;
                if (!at('"')) {
                    return err(bit(E::illegal_character), i, i);
                }
                if (!string(true) || !ws()) {
                    return false;
                }
                if (!at(':')) {
                    return err(bit(E::valueless_member) | (i >= t.size() ? unterminated : at('}') || at(',') ? 0 : bit(E::illegal_character)), key, i);
                }
                ++i;
                if (!ws()) {
                    return false;
                }
                if (i >= t.size() || at('}') || at(',')) {
                    return err(bit(E::valueless_member) | (i >= t.size() ? unterminated : 0), key, i);
                }
            }
            expect_value = true;
        }
    }
};

const char* const pieces[] { "{", "}", "[", "]", ",", ":", "\"", "\"a\"", "\"\"", "null", "true", "false", "nul", "True", "0", "1", "-", "-1", "01", "1.", ".5", "1e", "1e5", "+1", "0x1", "NaN", " ", "\n", "\t", "\r", "\f", "\v", "\xc2\xa0", "\xef\xbb\xbf", "\\", "\\u00e9", "\\u12", "\\x41", "\\'", "//", "/*", "*/", "/", "'a'", "a", "\x01", "\x7f", "\xc3\xa9", "#", "\"a\":1", ",]", ",}", "\0" };

/// Valid texts, damaged ones, and sequences of JSON-like pieces.
std::string gen_text(Src& s, Ctx& c, const Options& o)
{
    Gen g { s, o.comments || s.chance(1, 8) };
    const std::size_t mode = s.below(6);
    if (mode == 0) {
        std::string t;
        for (std::size_t i = 0, n = s.size(10); i < n; ++i) {
            t += pieces[s.below(std::size(pieces))];
        }
        c.cls("sequence of pieces");
        return t;
    }
    g.document();
    std::string t = std::move(g.t);
    if (mode == 1) {
        c.cls("undamaged");
        return t;
    }
    for (std::size_t i = 0, n = 1 + s.size(2); i < n; ++i) {
        const std::size_t at = s.below(t.size() + 1);
        switch (s.below(6)) {
        case 0: t.insert(at, pieces[s.below(std::size(pieces))]); break;
        case 1: t.erase(at, 1 + s.below(3)); break;
        case 2:
            t.erase(at, 1);
            t.insert(std::min(at, t.size()), pieces[s.below(std::size(pieces))]);
            break;
        case 3: t.resize(at); break;
        case 4: t += pieces[s.below(std::size(pieces))]; break;
        default:
            if (at < t.size()) {
                t[at] = char(s.below(256));
            }
        }
    }
    c.cls("damaged");
    return t;
}

// ---------------------------------------------------------------- J01

void check_acceptance(const std::string& t, const Options& o)
{
    Ref ref { t, o.comments };
    const bool want = ref.document();
    Run x;
    run(x, t, o);
    if (want != x.ok) {
        fail(want ? "rejected" : "accepted", want ? cat("a JSON text is rejected with ", error_names[int(x.r.first_error->first)], " at ", x.r.first_error->second.code_unit) : cat("accepted, although it is malformed at ", ref.lo));
    }
    if (want) {
        compare(ref.e, x.r.events, o);
    }
}

void j01(Src& s, Ctx& c)
{
    const Options o = gen_options(s);
    const std::string t = gen_text(s, c, o);
    c.describe(cat(o.show(), quote(t)));
    if (t.size() > 1) {
        c.nontrivial(t, o.comments);
    }
    check_acceptance(t, o);
}

/// Deeply nested and long texts.
std::uint64_t j01_count(bool thorough) { return thorough ? 400 : 100; }
void j01_enum(std::uint64_t k, Ctx& c)
{
    static constexpr std::pair<const char*, const char*> nests[] { { "[", "]" }, { "{\"a\":", "}" }, { "[1,", "]" }, { "[[],", "]" }, { "{\"a\":{},\"b\":", "}" } };
    const auto& [a, b] = nests[k % 5];
    const std::size_t depth = std::size_t(1000) << (k / 5 % 10);
    const std::size_t missing = k / 50 % 2, extra = k / 100 % 2;
    std::string t;
    for (std::size_t i = 0; i < depth; ++i) {
        t += a;
    }
    t += k / 200 % 2 ? "\"x\"" : "null";
    for (std::size_t i = missing; i < depth + extra; ++i) {
        t += b;
    }
    c.describe(cat("nested ", depth, " times: ", a, " ... ", b, missing ? ", not closed" : ""));
    c.cls("nested more than 1000 times");
    c.nontrivial(t);
    check_acceptance(t, { false, false, ul::Escape_Parsing::none, false });
}
Register r_j01({ "J01", j01, 25000, 800000, "texts of more than one code unit, under generated options, and deeply nested ones", true, nullptr, j01_count, j01_enum });

// ---------------------------------------------------------------- J04

void j04(Src& s, Ctx& c)
{
    const Options o = gen_options(s);
    const std::string t = gen_text(s, c, o);
    c.describe(cat(o.show(), quote(t)));
    Ref ref { t, o.comments };
    const bool ok = ref.document();
    if (t.find('\n') != t.npos && ref.e.size() > 1) {
        c.nontrivial(t, o.comments);
    }
    if (ok) {
        return;
    }
    // (Line and column are checked for every event and error by the visitor.)
    Run x;
    run(x, t, o);
    VP_CHECK(!x.ok, "accepted", "accepted, although it is malformed at ", ref.lo);
    const auto [kind, p] = *x.r.first_error;
    const Pos want = position(t, p.code_unit);
    VP_CHECK(p.line == want.line && p.line_code_unit == want.column, "line-position", "error at ", p.code_unit, " is reported at ", p.line, ":", p.line_code_unit);
    c.cls(error_names[int(kind)]);
    VP_CHECK((ref.kinds >> unsigned(kind)) & 1, cat("kind-", error_names[int(kind)]), error_names[int(kind)], " is reported at ", p.code_unit, " for what is wrong at ", ref.lo, " to ", ref.hi, " (acceptable: ", ref.kinds, ")");
    VP_CHECK(p.code_unit >= ref.lo && p.code_unit <= ref.hi, cat("error-position-", error_names[int(kind)]), error_names[int(kind)], " is reported at ", p.code_unit, ", not within ", ref.lo, " to ", ref.hi);
    // What precedes the error has been reported.
    const auto& got = x.r.events;
    std::size_t n = ref.e.size();
    if (ref.optional_last && got.size() + 1 == n) {
        --n;
    }
    for (std::size_t i = 0; i < n || i < got.size(); ++i) {
        VP_CHECK(i < n && i < got.size() && same(ref.e[i], got[i], o), cat("events-", i < n ? kind_names[ref.e[i].kind] : "end"), "event ", i, " before the error: expected ", show(ref.e, i), "; got ", show(got, i));
    }
}
Register r_j04({ "J04", j04, 80000, 2400000, "texts of more than one line and more than one event, valid or not", true });

} // namespace
