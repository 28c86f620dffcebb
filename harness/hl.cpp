#include "hl.hpp"

#include <algorithm>
#include <array>
#include <cstdlib>
#include <fstream>
#include <map>
#include <sstream>

#ifdef VP_ASSERT_INFO // development aid: which assertion fired
#include "ulight/impl/assert.hpp"
namespace {
std::string last_assert;
void note(const ulight::Assertion_Error& e)
{
    last_assert = std::string(e.location.file_name()) + ":" + std::to_string(e.location.line()) + " "
        + std::string(e.message.begin(), e.message.end());
    throw e;
}
const bool installed = (ulight::assertion_handler = note, true);
} // namespace
#endif

namespace vp {

Exact::Exact(std::string_view s) : p { static_cast<char*>(std::malloc(s.size() ? s.size() : 1)) }, n { s.size() }
{
    if (n) {
        std::memcpy(p, s.data(), n);
    }
    else {
        // a one-byte block of which zero bytes may be touched: hand out its end
        p[0] = 'x';
        ++p;
    }
}
Exact::~Exact()
{
    if (!n) {
        --p;
    }
    std::free(p);
}

namespace {

struct Sink {
    Run* run;
    const ulight_token* buffer;
    std::size_t capacity;
    std::size_t source_length;
    bool text = false;
    const char* text_buffer = nullptr;
    std::size_t text_capacity = 0;
    std::size_t html_cap = 0;
};

void bad_flush(Sink& s, std::string m)
{
    if (s.run->flush_protocol_ok) {
        s.run->flush_protocol_ok = false;
        s.run->flush_protocol_msg = std::move(m);
    }
}

void on_tokens(const void* d, ulight_token* t, std::size_t n)
{
    auto& s = *const_cast<Sink*>(static_cast<const Sink*>(d));
    if (t != s.buffer) {
        bad_flush(s, "flush_tokens was not given the token buffer");
    }
    if (n == 0) {
        bad_flush(s, "flush_tokens was given zero tokens");
    }
    if (n > s.capacity) {
        bad_flush(s, cat("flush_tokens was given ", n, " tokens with a capacity of ", s.capacity));
        return;
    }
    if (!s.run->flushes.empty() && s.run->flushes.back() != s.capacity) {
        bad_flush(s, cat("a flush of ", s.run->flushes.back(), " tokens was not the last one though the buffer (capacity ", s.capacity, ") was not full"));
    }
    s.run->flushes.push_back(n);
    for (std::size_t i = 0; i < n; ++i) {
        s.run->tokens.push_back({ t[i].begin, t[i].length, t[i].type });
        // scribble: the library must not rely on tokens it has flushed
        t[i] = { std::size_t(-1) / 2, std::size_t(-1) / 4, 0xFF };
    }
    if (s.run->tokens.size() > s.source_length + 8) {
        fail("too-many-tokens", cat("more tokens (", s.run->tokens.size(), ") than code units (", s.source_length, ")"));
    }
}

void on_text(const void* d, char* t, std::size_t n)
{
    auto& s = *const_cast<Sink*>(static_cast<const Sink*>(d));
    if (t != s.text_buffer) {
        bad_flush(s, "flush_text was not given the text buffer");
    }
    if (n == 0) {
        bad_flush(s, "flush_text was given zero code units");
    }
    if (n > s.text_capacity) {
        bad_flush(s, cat("flush_text was given ", n, " code units with a capacity of ", s.text_capacity));
        return;
    }
    if (!s.run->flushes.empty() && s.run->flushes.back() != s.text_capacity) {
        bad_flush(s, "flush_text was invoked again after a flush of a partially filled buffer");
    }
    s.run->flushes.push_back(n);
    s.run->html.append(t, n);
    std::memset(t, '\x01', n);
}

} // namespace

Run tokens(std::string_view src, ulight_lang lang, int flags, std::size_t capacity)
{
    Run r;
    const Exact copy { src };
    std::vector<ulight_token> buf(capacity);
    Sink sink { &r, buf.data(), capacity, src.size() };
    ulight_state st;
    ulight_init(&st);
    st.source = copy.data();
    st.source_length = copy.size();
    st.lang = lang;
    st.flags = ulight_flag(flags);
    st.token_buffer = buf.data();
    st.token_buffer_length = capacity;
    st.flush_tokens_data = &sink;
    st.flush_tokens = on_tokens;
    r.status = ulight_source_to_tokens(&st);
    if (st.error) {
        r.error.assign(st.error, st.error_length);
    }
#ifdef VP_ASSERT_INFO
    if (r.status != ULIGHT_STATUS_OK) {
        r.error += " " + last_assert;
    }
#endif
    if (src.size() && std::memcmp(copy.data(), src.data(), src.size()) != 0) {
        fail("source-modified", "the source buffer was written to");
    }
    if (r.status == ULIGHT_STATUS_INTERNAL_ERROR && r.tokens.size() > src.size() + 8) {
        fail("too-many-tokens", cat("more tokens (", r.tokens.size(), ") than code units (", src.size(), ")"));
    }
    return r;
}

Run html(std::string_view src, ulight_lang lang, int flags, std::size_t capacity, std::size_t text_capacity, const char* tag, const char* attr)
{
    Run r;
    const Exact copy { src };
    std::vector<ulight_token> buf(capacity);
    std::vector<char> text(text_capacity);
    Sink sink { &r, nullptr, capacity, src.size(), true, text.data(), text_capacity };
    ulight_state st;
    ulight_init(&st);
    st.source = copy.data();
    st.source_length = copy.size();
    st.lang = lang;
    st.flags = ulight_flag(flags);
    st.token_buffer = buf.data();
    st.token_buffer_length = capacity;
    st.text_buffer = text.data();
    st.text_buffer_length = text_capacity;
    st.flush_text_data = &sink;
    st.flush_text = on_text;
    if (tag) {
        st.html_tag_name = tag;
        st.html_tag_name_length = std::strlen(tag);
    }
    if (attr) {
        st.html_attr_name = attr;
        st.html_attr_name_length = std::strlen(attr);
    }
    r.status = ulight_source_to_html(&st);
    if (st.error) {
        r.error.assign(st.error, st.error_length);
    }
    if (src.size() && std::memcmp(copy.data(), src.data(), src.size()) != 0) {
        fail("source-modified", "the source buffer was written to");
    }
    return r;
}

std::vector<Tok> ok_tokens(std::string_view src, ulight_lang lang, int flags, std::size_t capacity)
{
    Run r = tokens(src, lang, flags, capacity);
    if (r.status != ULIGHT_STATUS_OK) {
        fail("status", cat("status ", int(r.status), " (", r.error, ") for ", show_case(src, lang, flags)));
    }
    return std::move(r.tokens);
}

namespace {
struct Lang_Name {
    ulight_lang lang;
    const char* id;
};
constexpr Lang_Name lang_names[] {
    { ULIGHT_LANG_COWEL, "cowel" }, { ULIGHT_LANG_CPP, "cpp" }, { ULIGHT_LANG_LUA, "lua" }, { ULIGHT_LANG_HTML, "html" },
    { ULIGHT_LANG_CSS, "css" }, { ULIGHT_LANG_C, "c" }, { ULIGHT_LANG_JAVASCRIPT, "javascript" }, { ULIGHT_LANG_BASH, "bash" },
    { ULIGHT_LANG_DIFF, "diff" }, { ULIGHT_LANG_JSON, "json" }, { ULIGHT_LANG_JSONC, "jsonc" }, { ULIGHT_LANG_XML, "xml" },
    { ULIGHT_LANG_TXT, "txt" }, { ULIGHT_LANG_TEX, "tex" }, { ULIGHT_LANG_LATEX, "latex" }, { ULIGHT_LANG_NASM, "nasm" },
    { ULIGHT_LANG_EBNF, "ebnf" }, { ULIGHT_LANG_PYTHON, "python" }, { ULIGHT_LANG_KOTLIN, "kotlin" },
    { ULIGHT_LANG_TYPESCRIPT, "typescript" }, { ULIGHT_LANG_RUST, "rust" }, { ULIGHT_LANG_LLVM, "llvm" },
    { ULIGHT_LANG_MARKDOWN, "markdown" }, { ULIGHT_LANG_JAVA, "java" }, { ULIGHT_LANG_YAML, "yaml" },
};
} // namespace

const std::vector<ulight_lang>& all_langs()
{
    static const std::vector<ulight_lang> v = [] {
        std::vector<ulight_lang> r;
        for (const auto& l : lang_names) {
            r.push_back(l.lang);
        }
        return r;
    }();
    return v;
}
const char* lang_id(ulight_lang l)
{
    for (const auto& n : lang_names) {
        if (n.lang == l) {
            return n.id;
        }
    }
    return "?";
}
ulight_lang lang_by_id(std::string_view id)
{
    for (const auto& n : lang_names) {
        if (id == n.id) {
            return n.lang;
        }
    }
    return ULIGHT_LANG_NONE;
}

bool type_known(unsigned t)
{
    switch (t) {
#include "types.inc"
        return true;
    default: return false;
    }
}
const char* type_name(unsigned t)
{
    const ulight_string_view v = ulight_highlight_type_long_string(ulight_highlight_type(t));
    return v.text ? v.text : "?";
}

std::string show(std::string_view src, const std::vector<Tok>& t)
{
    std::string o;
    for (const Tok& x : t) {
        o += cat('[', x.begin, '+', x.length, ' ', type_name(x.type), ' ',
                 x.begin <= src.size() ? quote(src.substr(x.begin, x.length)) : std::string("?"), "] ");
        if (o.size() > 3000) {
            return o + "...";
        }
    }
    return o;
}

std::string show_case(std::string_view src, ulight_lang lang, int flags)
{
    return cat("lang=", lang_id(lang), " flags=", flags, " source=", quote(src));
}

namespace {
std::vector<std::string> load(const std::string& path)
{
    std::ifstream f(path, std::ios::binary);
    std::stringstream ss;
    ss << f.rdbuf();
    const std::string all = ss.str();
    std::vector<std::string> v;
    std::size_t i = 0;
    while (i <= all.size()) {
        const std::size_t j = std::min(all.find('\x1e', i), all.size());
        if (j > i) {
            v.push_back(all.substr(i, j - i));
        }
        i = j + 1;
    }
    return v;
}
} // namespace

const Corpus& corpus(ulight_lang l)
{
    static std::array<Corpus, 32> c = [] {
        std::array<Corpus, 32> r;
        for (ulight_lang x : all_langs()) {
            auto& e = r[std::size_t(x)];
            e.seeds = load(verif_dir() + "/corpus/" + lang_id(x) + ".seeds");
            e.vocab = load(verif_dir() + "/corpus/" + lang_id(x) + ".vocab");
            if (e.vocab.empty() || e.seeds.empty()) {
                std::fprintf(stderr, "missing corpus for %s\n", lang_id(x));
                std::exit(2);
            }
        }
        return r;
    }();
    return c[std::size_t(l)];
}

void put_utf8(std::string& o, std::uint32_t c)
{
    if (c < 0x80) {
        o += char(c);
    }
    else if (c < 0x800) {
        o += char(0xC0 | (c >> 6));
        o += char(0x80 | (c & 63));
    }
    else if (c < 0x10000) {
        o += char(0xE0 | (c >> 12));
        o += char(0x80 | ((c >> 6) & 63));
        o += char(0x80 | (c & 63));
    }
    else {
        o += char(0xF0 | (c >> 18));
        o += char(0x80 | ((c >> 12) & 63));
        o += char(0x80 | ((c >> 6) & 63));
        o += char(0x80 | (c & 63));
    }
}

void gen_code_point(Src& s, std::string& out)
{
    static constexpr std::uint32_t special[] { 'a', 'Z', '0', '_', 0, 0x7f, 0x80, 0x85, 0xa0, 0xad, 0xb5, 0xb7, 0xdf, 0xe9, 0xff, 0x100, 0x301, 0x37e, 0x387, 0x3bb, 0x590, 0x600, 0x7ff, 0x800, 0x1369, 0x19da, 0x1fff, 0x200c, 0x200d, 0x2028, 0x2029, 0x2118, 0x212e, 0x2126, 0x3000, 0x4e2d, 0xd7ff, 0xe000, 0xfdd0, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1d7ce, 0x1f600, 0x20000, 0x2fffd, 0xe0001, 0xe0100, 0xeffff, 0x10fffd, 0x10ffff };
    std::uint32_t c;
    switch (s.weighted({ 4, 4, 2, 2, 1 })) {
    case 0: c = 0x20 + s.below(0x5f); break;
    case 1: c = s.pick(special); break;
    case 2: c = s.below(0x800); break;
    case 3: c = 0x800 + s.below(0xd800 - 0x800); break;
    default: c = 0xe000 + s.below(0x110000 - 0xe000); break;
    }
    put_utf8(out, c);
}

std::string gen_word(Src& s, std::size_t max)
{
    std::string o(1, char('a' + s.below(26)));
    const std::size_t n = s.below(max);
    for (std::size_t i = 1; i < n; ++i) {
        const auto k = s.below(36);
        o += k < 26 ? char('a' + k) : char('0' + (k - 26));
    }
    return o;
}

ulight_lang gen_lang(Src& s)
{
    static const char* const only = std::getenv("VP_LANG"); // development aid
    const ulight_lang l = all_langs()[s.below(all_langs().size())];
    return only ? lang_by_id(only) : l;
}

namespace {
std::size_t next_boundary(std::string_view t, std::size_t i)
{
    ++i;
    while (i < t.size() && (static_cast<unsigned char>(t[i]) & 0xC0) == 0x80) {
        ++i;
    }
    return std::min(i, t.size());
}
std::size_t some_boundary(Src& s, std::string_view t)
{
    std::size_t i = s.below(t.size() + 1);
    while (i < t.size() && (static_cast<unsigned char>(t[i]) & 0xC0) == 0x80) {
        ++i;
    }
    return i;
}
constexpr char simple_chars[] = "a \n01\"'`/*\\()[]{}<>#-=+.,;:&|!?@$%^~_xbefnuEARLZ9\t\r\v\f";

void soup(Src& s, ulight_lang lang, std::string& o, std::size_t max, unsigned cross)
{
    const Corpus* c = &corpus(lang);
    while (o.size() < max && s.below(24) != 0) {
        switch (s.weighted({ 10, 2, 3, 2, 1, 1 })) {
        case 0: o += s.pick(c->vocab); break;
        case 1: o += simple_chars[s.below(sizeof simple_chars - 1)]; break;
        case 2: o += s.pick<const char*>({ " ", "\n", "" }); break;
        case 3: o += gen_word(s, 4); break;
        case 4: gen_code_point(s, o); break;
        case 5: {
            if (cross) {
                o += s.pick(corpus(gen_lang(s)).vocab);
            }
            else {
                const std::string& v = s.pick(c->vocab);
                const std::size_t n = 1 + s.below(6);
                for (std::size_t i = 0; i < n; ++i) {
                    o += v;
                }
            }
            break;
        }
        }
    }
}
} // namespace

std::string gen_source(Src& s, ulight_lang lang, std::size_t max)
{
    std::string o;
    const Corpus& c = corpus(lang);
    switch (s.weighted({ 8, 6, 4, 3, 2, 1 })) {
    case 0: soup(s, lang, o, max, 0); break;
    case 1: { // mutated slice of a seed
        const std::string& seed = s.pick(c.seeds);
        std::size_t a = some_boundary(s, seed), b = some_boundary(s, seed);
        if (a > b) {
            std::swap(a, b);
        }
        if (s.chance(1, 2)) {
            a = 0;
        }
        if (b - a > max) {
            b = a + max;
            while (b > a && b < seed.size() && (static_cast<unsigned char>(seed[b]) & 0xC0) == 0x80) {
                --b;
            }
        }
        o = seed.substr(a, b - a);
        const std::size_t edits = s.below(5);
        for (std::size_t i = 0; i < edits; ++i) {
            const std::size_t p = some_boundary(s, o);
            switch (s.below(4)) {
            case 0: {
                std::size_t e = p;
                const std::size_t n = 1 + s.below(4);
                for (std::size_t k = 0; k < n && e < o.size(); ++k) {
                    e = next_boundary(o, e);
                }
                o.erase(p, e - p);
                break;
            }
            case 1: o.insert(p, s.pick(c.vocab)); break;
            case 2: o.insert(p, 1, simple_chars[s.below(sizeof simple_chars - 1)]); break;
            case 3: {
                std::size_t q = some_boundary(s, o);
                const std::size_t lo = std::min(p, q), hi = std::min(std::max(p, q), lo + 64);
                std::size_t h = hi;
                while (h < o.size() && (static_cast<unsigned char>(o[h]) & 0xC0) == 0x80) {
                    ++h;
                }
                o.insert(some_boundary(s, o), o.substr(lo, h - lo));
                break;
            }
            }
        }
        if (s.chance(1, 3)) {
            o.resize(some_boundary(s, o));
        }
        break;
    }
    case 2: // short strings over the interesting alphabet
        while (o.size() < 24 && s.below(8) != 0) {
            o += simple_chars[s.below(sizeof simple_chars - 1)];
        }
        break;
    case 3: // unicode
        while (o.size() < max && s.below(16) != 0) {
            if (s.chance(1, 3)) {
                o += s.pick(c.vocab);
            }
            else {
                gen_code_point(s, o);
            }
        }
        break;
    case 4: soup(s, lang, o, max, 1); break;
    case 5: { // deep-ish repetition of an opener
        const std::string& v = s.pick(c.vocab);
        const std::string& w = s.pick(c.vocab);
        const std::size_t n = 1 + s.below(60);
        for (std::size_t i = 0; i < n && o.size() < 4 * max; ++i) {
            o += v;
        }
        soup(s, lang, o, o.size() + 40, 0);
        for (std::size_t i = 0; i < n && o.size() < 8 * max; ++i) {
            o += w;
        }
        break;
    }
    }
    return o;
}

void corrupt_utf8(Src& s, std::string& t)
{
    const std::size_t n = 1 + s.below(3);
    for (std::size_t i = 0; i < n; ++i) {
        const std::size_t p = s.below(t.size() + 1);
        switch (s.below(6)) {
        case 0: t.insert(p, 1, char(0x80 + s.below(0x80))); break;
        case 1: t.insert(p, s.pick<const char*>({ "\xC0\x80", "\xED\xA0\x80", "\xF4\x90\x80\x80", "\xE0\x80\x80", "\xF0\x80\x80\x80", "\xFF", "\xFE", "\xF8\x88\x80\x80\x80" })); break;
        case 2: t.insert(p, s.pick<const char*>({ "\xC3", "\xE2\x82", "\xE2", "\xF0\x9F\x98", "\xF0\x9F", "\xF0", "\x80" })); break;
        case 3:
            if (p < t.size()) {
                t[p] = char(s.below(256));
            }
            break;
        case 4: {
            std::string x;
            put_utf8(x, 0x80 + s.below(0xffff - 0x80));
            x.pop_back();
            t += x;
            break;
        }
        case 5:
            if (p < t.size()) {
                t.erase(p, 1);
            }
            break;
        }
    }
}

bool valid_utf8(std::string_view s)
{
    std::size_t i = 0;
    const auto at = [&](std::size_t k) -> unsigned { return k < s.size() ? static_cast<unsigned char>(s[k]) : 0u; };
    const auto in = [](unsigned x, unsigned a, unsigned b) { return x >= a && x <= b; };
    while (i < s.size()) {
        const unsigned a = at(i);
        if (a < 0x80) {
            i += 1;
        }
        else if (in(a, 0xC2, 0xDF)) {
            if (!in(at(i + 1), 0x80, 0xBF)) {
                return false;
            }
            i += 2;
        }
        else if (in(a, 0xE0, 0xEF)) {
            const unsigned lo = a == 0xE0 ? 0xA0 : 0x80, hi = a == 0xED ? 0x9F : 0xBF;
            if (!in(at(i + 1), lo, hi) || !in(at(i + 2), 0x80, 0xBF)) {
                return false;
            }
            i += 3;
        }
        else if (in(a, 0xF0, 0xF4)) {
            const unsigned lo = a == 0xF0 ? 0x90 : 0x80, hi = a == 0xF4 ? 0x8F : 0xBF;
            if (!in(at(i + 1), lo, hi) || !in(at(i + 2), 0x80, 0xBF) || !in(at(i + 3), 0x80, 0xBF)) {
                return false;
            }
            i += 4;
        }
        else {
            return false;
        }
    }
    return true;
}

} // namespace vp
