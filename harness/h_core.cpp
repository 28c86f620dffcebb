// The public highlighting API (ulight.h / ulight.hpp), for all languages.
#include "hl.hpp"

#include <algorithm>
#include <map>
#include <thread>

#include "ulight/ulight.hpp"

using namespace vp;

namespace {

// ---------------------------------------------------------------------------------- generators

/// Now and then a source that is long in tokens, so that internal buffers are filled.
std::string gen_any(Src& s, ulight_lang l)
{
    if (!s.chance(1, 60)) {
        return gen_source(s, l);
    }
    const Corpus& c = corpus(l);
    std::string unit = s.chance(1, 2) || c.vocab.empty() ? gen_source(s, l, 40) : std::string(s.pick(c.vocab));
    if (unit.empty()) {
        unit = ";";
    }
    unit += s.pick({ "", " ", "\n", "; ", "," });
    std::string r;
    const std::size_t n = 1 + s.below(1500);
    const bool wrapped = l == ULIGHT_LANG_HTML && s.chance(2, 3);
    const bool css = s.chance(1, 2);
    if (wrapped) {
        unit = css ? s.pick({ "a{b:c}", "}", ".x,", "/**/" }) : s.pick({ ";", "x=1;", "'s'+", "`a${b}`" });
        r = css ? "<p><style>" : "<p><script>";
    }
    while (r.size() < 6000 && r.size() < n * unit.size()) {
        r += unit;
    }
    if (wrapped) {
        r += css ? "</style><b>x</b>" : "</script><b>x</b>";
    }
    return r;
}

int gen_flags(Src& s) { return int(s.below(4)); }

std::string lang_name(ulight_lang l) { return lang_id(l); }

void check_well_formed(std::string_view src, const std::vector<Tok>& t, ulight_lang l, bool check_code_points, const char* what)
{
    std::size_t end = 0;
    for (std::size_t i = 0; i < t.size(); ++i) {
        const Tok& k = t[i];
        VP_CHECK(k.length != 0, cat("empty-token-", lang_id(l)), what, ": token ", i, " at ", k.begin, " is empty");
        VP_CHECK(
            k.begin <= src.size() && k.length <= src.size() - k.begin, cat("out-of-bounds-", lang_id(l)), what, ": token ",
            i, " [", k.begin, ", +", k.length, ") exceeds the source of ", src.size()
        );
        VP_CHECK(
            k.begin >= end, cat("overlap-", lang_id(l)), what, ": token ", i, " at ", k.begin,
            " starts before the end (", end, ") of the previous one"
        );
        VP_CHECK(type_known(k.type), cat("type-", lang_id(l)), what, ": token ", i, " has unlisted type ", k.type);
        end = k.end();
        if (check_code_points) {
            VP_CHECK(
                (static_cast<unsigned char>(src[k.begin]) & 0xC0) != 0x80, cat("split-", lang_id(l)), what, ": token ",
                i, " at ", k.begin, " starts inside a code point"
            );
            VP_CHECK(
                end == src.size() || (static_cast<unsigned char>(src[end]) & 0xC0) != 0x80, cat("split-", lang_id(l)),
                what, ": token ", i, " ends at ", end, " inside a code point"
            );
        }
    }
}

void check_flushes(const Run& r, std::size_t cap, const char* what)
{
    VP_CHECK(r.flush_protocol_ok, "flush-protocol", what, ": ", r.flush_protocol_msg);
    for (std::size_t i = 0; i < r.flushes.size(); ++i) {
        VP_CHECK(r.flushes[i] != 0, "empty-flush", what, ": an empty chunk was flushed");
        VP_CHECK(
            r.flushes[i] == cap || i + 1 == r.flushes.size(), "early-flush", what, ": chunk ", i, " has ", r.flushes[i],
            " elements but the buffer holds ", cap
        );
    }
}

void classify(Ctx& c, ulight_lang l, std::string_view src, std::size_t n_tokens)
{
    c.cls(cat("lang ", lang_id(l)));
    c.cls(cat("tokens ", Cls_Hist::bucket(n_tokens)));
    c.cls(cat("bytes ", Cls_Hist::bucket(src.size())));
}

// ---------------------------------------------------------------------------------- A01

void a01(Src& s, Ctx& c)
{
    const ulight_lang l = gen_lang(s);
    const int fl = gen_flags(s);
    const std::string src = gen_any(s, l);
    c.describe(show_case(src, l, fl));
    const Run r = tokens(src, l, fl, 1 + s.below(300));
    VP_CHECK(r.status == ULIGHT_STATUS_OK, cat("status-", lang_id(l)), "tokens: status ", int(r.status), " ", r.error);
    if (s.chance(1, 4)) {
        const Run h = html(src, l, fl, 1 + s.below(300), 1 + s.below(300));
        VP_CHECK(h.status == ULIGHT_STATUS_OK, cat("html-status-", lang_id(l)), "html: status ", int(h.status), " ", h.error);
        c.cls("html too");
        ++c.evals;
    }
    classify(c, l, src, r.tokens.size());
    if (r.tokens.size() >= 2) {
        c.nontrivial(src, l * 4 + fl);
    }
}
Register r01({ "A01", a01, 130000, 6000000, "valid UTF-8 source that yields at least two tokens; distinct by (language, flags, source)", true });

// ---------------------------------------------------------------------------------- A02

void a02(Src& s, Ctx& c)
{
    const ulight_lang l = gen_lang(s);
    const int fl = gen_flags(s);
    std::string src;
    if (s.chance(1, 8)) {
        const std::size_t n = s.size(60);
        for (std::size_t i = 0; i < n; ++i) {
            src += char(s.below(256));
        }
    }
    else {
        src = gen_source(s, l);
        const std::size_t n = 1 + s.size(3);
        for (std::size_t i = 0; i < n; ++i) {
            corrupt_utf8(s, src);
        }
    }
    c.describe(show_case(src, l, fl));
    const bool valid = valid_utf8(src);
    const std::size_t cap = 1 + s.below(64);
    const Run r = tokens(src, l, fl, cap);
    VP_CHECK(
        r.status == ULIGHT_STATUS_OK || (r.status == ULIGHT_STATUS_BAD_TEXT && !valid), cat("status-", lang_id(l)),
        "tokens: status ", int(r.status), " ", r.error
    );
    check_well_formed(src, r.tokens, l, false, "tokens");
    if (r.status == ULIGHT_STATUS_BAD_TEXT) {
        VP_CHECK(!r.error.empty() && valid_utf8(r.error), "error-text", "no (or malformed) error text with BAD_TEXT");
    }
    const Run h = html(src, l, fl, cap, 1 + s.below(64));
    VP_CHECK(h.status == r.status, cat("html-status-", lang_id(l)), "html status ", int(h.status), ", tokens status ", int(r.status));
    classify(c, l, src, r.tokens.size());
    c.cls(valid ? "valid after all" : r.status == ULIGHT_STATUS_OK ? "malformed, accepted" : "malformed, BAD_TEXT");
    if (!valid) {
        c.nontrivial(src, l * 4 + fl);
    }
    c.evals = 2;
}
Register r02({ "A02", a02, 90000, 4000000, "source is not valid UTF-8; distinct by (language, flags, source)", true });

// ---------------------------------------------------------------------------------- A03

void a03(Src& s, Ctx& c)
{
    const ulight_lang l = gen_lang(s);
    const int fl = gen_flags(s);
    const std::string src = gen_any(s, l);
    c.describe(show_case(src, l, fl));
    const std::vector<Tok> t = ok_tokens(src, l, fl, 1 + s.below(300));
    check_well_formed(src, t, l, true, "tokens");
    classify(c, l, src, t.size());
    if (t.size() >= 2) {
        c.nontrivial(src, l * 4 + fl);
    }
}
Register r03({ "A03", a03, 130000, 6000000, "source yields at least two tokens; distinct by (language, flags, source)", true });

// ---------------------------------------------------------------------------------- A05

std::string escaped(std::string_view s)
{
    std::string r;
    for (const char ch : s) {
        switch (ch) {
        case '<': r += "&lt;"; break;
        case '>': r += "&gt;"; break;
        case '&': r += "&amp;"; break;
        default: r += ch;
        }
    }
    return r;
}

std::string reference_html(std::string_view src, const std::vector<Tok>& t, const std::string& tag, const std::string& attr)
{
    std::string r;
    std::size_t end = 0;
    for (const Tok& k : t) {
        r += escaped(src.substr(end, k.begin - end));
        const ulight_string_view id = ulight_highlight_type_short_string(ulight_highlight_type(k.type));
        r += "<" + tag + " " + attr + "=" + std::string(id.text, id.length) + ">";
        r += escaped(src.substr(k.begin, k.length));
        r += "</" + tag + ">";
        end = k.end();
    }
    r += escaped(src.substr(end));
    return r;
}

/// What a browser shows: the text with tags removed and the three entities decoded.
std::string text_content(std::string_view h)
{
    std::string r;
    for (std::size_t i = 0; i < h.size();) {
        if (h[i] == '<') {
            const std::size_t e = h.find('>', i);
            VP_CHECK(e != h.npos, "html-syntax", "unterminated tag in the output");
            i = e + 1;
        }
        else if (h[i] == '&') {
            const std::size_t e = h.find(';', i);
            VP_CHECK(e != h.npos, "html-syntax", "unterminated character reference in the output");
            const std::string_view n = h.substr(i + 1, e - i - 1);
            VP_CHECK(n == "lt" || n == "gt" || n == "amp", "html-syntax", "unexpected character reference ", n);
            r += n == "lt" ? '<' : n == "gt" ? '>' : '&';
            i = e + 1;
        }
        else {
            VP_CHECK(h[i] != '>', "html-syntax", "unescaped > in the output");
            r += h[i++];
        }
    }
    return r;
}

std::string gen_tag(Src& s)
{
    switch (s.below(3)) {
    case 0: return "h-";
    case 1: return gen_word(s, 12);
    default: return gen_word(s, 4) + "-" + gen_word(s, 4);
    }
}

void a05(Src& s, Ctx& c)
{
    const ulight_lang l = gen_lang(s);
    const int fl = gen_flags(s);
    std::string src = gen_any(s, l);
    if (s.chance(1, 2)) { // make escaping matter
        const std::size_t n = 1 + s.size(5);
        for (std::size_t i = 0; i < n; ++i) {
            std::size_t at = s.below(src.size() + 1);
            while (at < src.size() && (static_cast<unsigned char>(src[at]) & 0xC0) == 0x80) {
                ++at;
            }
            src.insert(at, s.pick({ "<", ">", "&", "&lt;", "\"", "'" }));
        }
    }
    const bool custom = s.chance(1, 2);
    const std::string tag = custom ? gen_tag(s) : "h-";
    const std::string attr = custom ? s.pick({ "class", "data-h", "x", "data-highlight-kind" }) : "data-h";
    c.describe(show_case(src, l, fl) + cat(" tag ", tag, " attr ", attr));
    const Run t = tokens(src, l, fl, 1 + s.below(300));
    const Run h = custom ? html(src, l, fl, 1 + s.below(300), 1 + s.below(400), tag.c_str(), attr.c_str())
                         : html(src, l, fl, 1 + s.below(300), 1 + s.below(400));
    VP_CHECK(
        t.status == ULIGHT_STATUS_OK && h.status == ULIGHT_STATUS_OK, "status", "tokens status ", int(t.status),
        ", html status ", int(h.status)
    );
    const std::string shown = text_content(h.html);
    VP_CHECK(shown == src, "lossy", "text content of the HTML differs from the source:\n  ", quote(shown), "\n  ", quote(src));
    const std::string want = reference_html(src, t.tokens, tag, attr);
    VP_CHECK(h.html == want, "rendering", "got      ", quote(h.html), "\n  expected ", quote(want));
    classify(c, l, src, t.tokens.size());
    const bool esc = src.find_first_of("<>&") != src.npos;
    c.cls(esc ? "has <, > or &" : "nothing to escape");
    c.cls(custom ? "custom tag and attribute" : "default tag and attribute");
    if (t.tokens.size() >= 2) {
        c.nontrivial(src, l * 4 + fl + custom * 1000);
    }
    c.evals = 2;
}
Register r05({ "A05", a05, 70000, 3000000, "source yields at least two tokens; distinct by (language, flags, source, custom names)", true });

// ---------------------------------------------------------------------------------- A06

void a06(Src& s, Ctx& c)
{
    const ulight_lang l = gen_lang(s);
    const int fl = gen_flags(s);
    const std::string src = gen_any(s, l);
    c.describe(show_case(src, l, fl));
    const std::size_t huge = 2 * src.size() + 64;
    const Run ref = tokens(src, l, fl, huge);
    VP_CHECK(ref.status == ULIGHT_STATUS_OK, "status", "status ", int(ref.status));
    VP_CHECK(ref.flushes.size() <= 1, "early-flush", "a buffer that fits everything was flushed ", ref.flushes.size(), " times");
    const std::size_t n = ref.tokens.size();
    const std::size_t caps[] { 1 + s.below(4), n > 2 ? n - 1 + s.below(3) : 1, 1 + s.below(std::max<std::size_t>(n, 1)) };
    for (const std::size_t cap : caps) {
        const Run r = tokens(src, l, fl, cap);
        VP_CHECK(r.status == ULIGHT_STATUS_OK, "status", "capacity ", cap, ": status ", int(r.status));
        check_flushes(r, cap, "tokens");
        VP_CHECK(
            r.tokens == ref.tokens, cat("capacity-", lang_id(l)), "token buffer of ", cap, " gives\n", show(src, r.tokens), "\nbut one of ",
            huge, " gives\n", show(src, ref.tokens)
        );
    }
    const Run href = html(src, l, fl, huge, 40 * src.size() + 4096);
    VP_CHECK(href.status == ULIGHT_STATUS_OK, "status", "html status ", int(href.status));
    const std::size_t len = href.html.size();
    const std::size_t tcaps[] { 1 + s.below(8), std::max<std::size_t>(len, 2) - 1 + s.below(3), 1 + s.below(std::max<std::size_t>(len, 1)) };
    for (const std::size_t tcap : tcaps) {
        const std::size_t cap = 1 + s.below(40);
        const Run h = html(src, l, fl, cap, tcap);
        VP_CHECK(h.status == ULIGHT_STATUS_OK, "status", "html status ", int(h.status));
        check_flushes(h, tcap, "html");
        VP_CHECK(
            h.html == href.html, "html-capacity", "token buffer ", cap, ", text buffer ", tcap, " gives ", quote(h.html),
            "\n  instead of ", quote(href.html)
        );
    }
    classify(c, l, src, n);
    if (n >= 2) {
        c.nontrivial(src, l * 4 + fl);
    }
    c.evals = 8;
}
Register r06({ "A06", a06, 25000, 1200000, "source yields at least two tokens (so that small buffers must flush); distinct by (language, flags, source)", true });

// ---------------------------------------------------------------------------------- A07

std::vector<Tok> merged(const std::vector<Tok>& t)
{
    std::vector<Tok> r;
    for (const Tok& k : t) {
        if (!r.empty() && r.back().type == k.type && r.back().end() == k.begin) {
            r.back().length += k.length;
        }
        else {
            r.push_back(k);
        }
    }
    return r;
}

void a07(Src& s, Ctx& c)
{
    const ulight_lang l = gen_lang(s);
    const int strict = s.below(2) ? ULIGHT_STRICT : 0;
    const std::string src = gen_any(s, l);
    c.describe(show_case(src, l, strict));
    const std::vector<Tok> plain = ok_tokens(src, l, strict, 1 + s.below(100));
    const std::vector<Tok> coal = ok_tokens(src, l, strict | ULIGHT_COALESCE, 1 + s.below(100));
    const std::vector<Tok> want = merged(plain);
    VP_CHECK(
        coal == want, cat("coalescing-", lang_id(l)), "with coalescing:\n", show(src, coal), "\nexpected (merged plain tokens):\n",
        show(src, want), "\nplain:\n", show(src, plain)
    );
    classify(c, l, src, plain.size());
    c.cls(want.size() != plain.size() ? "something to merge" : "nothing to merge");
    if (want.size() != plain.size()) {
        c.nontrivial(src, l * 4 + strict);
    }
    c.evals = 2;
}
Register r07({ "A07", a07, 100000, 4000000, "plain tokens contain at least one adjacent pair of equal type; distinct by (language, strictness, source)", true });

// ---------------------------------------------------------------------------------- A08

struct Collect {
    std::vector<Tok> t;
    std::string text;
    static void on_tokens(const void* d, ulight_token* p, std::size_t n)
    {
        auto& self = *static_cast<Collect*>(const_cast<void*>(d));
        for (std::size_t i = 0; i < n; ++i) {
            self.t.push_back({ p[i].begin, p[i].length, p[i].type });
        }
    }
    static void on_text(const void* d, char* p, std::size_t n)
    {
        static_cast<Collect*>(const_cast<void*>(d))->text.append(p, n);
    }
};

struct Job {
    std::string src;
    ulight_lang lang;
    int flags;
    ulight_status status;
    std::vector<Tok> t;
    std::string text;
};

void run_job(ulight_state& st, Job& j, bool with_html, std::size_t cap)
{
    std::vector<ulight_token> buf(cap);
    std::vector<char> text(64);
    Collect out;
    st.source = j.src.data();
    st.source_length = j.src.size();
    st.lang = j.lang;
    st.flags = ulight_flag(j.flags);
    st.token_buffer = buf.data();
    st.token_buffer_length = cap;
    st.flush_tokens_data = &out;
    st.flush_tokens = Collect::on_tokens;
    if (with_html) {
        st.text_buffer = text.data();
        st.text_buffer_length = text.size();
        st.flush_text = Collect::on_text;
        st.flush_text_data = &out;
    }
    const ulight_state before = st;
    // The settings belong to the caller: a call leaves them alone, so that the state can be reused.
    const auto settings_kept = [&](const char* call) {
        VP_CHECK(
            st.source == before.source && st.source_length == before.source_length && st.lang == before.lang && st.flags == before.flags
                && st.token_buffer == before.token_buffer && st.token_buffer_length == before.token_buffer_length
                && st.flush_tokens == before.flush_tokens && st.flush_tokens_data == before.flush_tokens_data
                && st.text_buffer == before.text_buffer && st.text_buffer_length == before.text_buffer_length
                && st.flush_text == before.flush_text && st.flush_text_data == before.flush_text_data
                && st.html_tag_name == before.html_tag_name && st.html_attr_name == before.html_attr_name
                && st.html_tag_name_length == before.html_tag_name_length && st.html_attr_name_length == before.html_attr_name_length,
            "settings", "a call to ", call, " changed the settings of the state"
        );
    };
    j.status = ulight_source_to_tokens(&st);
    settings_kept("ulight_source_to_tokens");
    if (with_html) {
        const ulight_status hs = ulight_source_to_html(&st);
        settings_kept("ulight_source_to_html");
        VP_CHECK(hs == j.status, "html-status", "html status ", int(hs), " tokens status ", int(j.status));
    }
    j.t = std::move(out.t);
    j.text = std::move(out.text);
}

void a08(Src& s, Ctx& c)
{
    const std::size_t n = 2 + s.below(4);
    std::vector<Job> jobs;
    std::string d;
    for (std::size_t i = 0; i < n; ++i) {
        Job j;
        j.lang = gen_lang(s);
        j.flags = gen_flags(s);
        j.src = gen_source(s, j.lang, 200);
        if (s.chance(1, 6)) {
            corrupt_utf8(s, j.src);
        }
        d += show_case(j.src, j.lang, j.flags) + "\n";
        jobs.push_back(std::move(j));
    }
    c.describe(d);
    // Reference: each source on its own, with a fresh state.
    std::vector<Job> ref = jobs;
    for (Job& j : ref) {
        ulight_state st;
        ulight_init(&st);
        run_job(st, j, true, 7);
    }
    const auto compare = [&](const Job& got, const Job& want, const char* how, bool with_html) {
        VP_CHECK(got.status == want.status, cat("status-", how), how, ": status ", int(got.status), " instead of ", int(want.status));
        VP_CHECK(
            got.t == want.t, cat("tokens-", how), how, ": ", show_case(want.src, want.lang, want.flags), "\n", show(want.src, got.t),
            "\ninstead of\n", show(want.src, want.t)
        );
        VP_CHECK(!with_html || got.text == want.text, cat("html-", how), how, ": html differs for ", quote(want.src));
    };
    // 1. One reused state, in an arbitrary order, including after failures.
    {
        ulight_state st;
        ulight_init(&st);
        const std::size_t m = n + s.below(n);
        for (std::size_t i = 0; i < m; ++i) {
            const std::size_t k = s.below(n);
            if (s.chance(1, 4)) { // a failing call in between
                Job bad = jobs[k];
                bad.lang = ULIGHT_LANG_NONE;
                run_job(st, bad, true, 3);
                VP_CHECK(bad.status == ULIGHT_STATUS_BAD_LANG, "bad-lang", "status ", int(bad.status), " for no language");
            }
            Job j = jobs[k];
            run_job(st, j, true, 7);
            compare(j, ref[k], "reused-state", true);
            ++c.evals;
        }
    }
    // 2. The source as a slice of a larger buffer: neighbours must not matter.
    {
        const std::size_t k = s.below(n);
        const std::string& src = jobs[k].src;
        for (int round = 0; round < 2; ++round) {
            std::string before = s.chance(1, 2) ? gen_source(s, jobs[k].lang, 30) : s.pick({ "\"", "/*", "\\", "\n" });
            std::string after = s.chance(1, 2) ? gen_source(s, jobs[k].lang, 30) : s.pick({ "*/", "\"", "\n", "=", "a", "\x80", "0" });
            const std::string big = before + src + after;
            ulight_state st;
            ulight_init(&st);
            Collect out;
            std::vector<ulight_token> buf(7);
            st.source = big.data() + before.size();
            st.source_length = src.size();
            st.lang = jobs[k].lang;
            st.flags = ulight_flag(jobs[k].flags);
            st.token_buffer = buf.data();
            st.token_buffer_length = buf.size();
            st.flush_tokens_data = &out;
            st.flush_tokens = Collect::on_tokens;
            Job j = jobs[k];
            j.status = ulight_source_to_tokens(&st);
            j.t = out.t;
            compare(j, ref[k], "surroundings", false);
            ++c.evals;
        }
    }
    // 3. Concurrent calls with separate states.
    if (s.chance(1, 40)) {
        std::vector<Job> par = jobs;
        std::vector<std::thread> th;
        std::vector<std::string> errs(n);
        for (std::size_t i = 0; i < n; ++i) {
            th.emplace_back([&, i] {
                try {
                    for (int round = 0; round < 3; ++round) {
                        ulight_state st;
                        ulight_init(&st);
                        run_job(st, par[i], true, 7);
                    }
                } catch (const Failure& f) {
                    errs[i] = f.msg;
                }
            });
        }
        for (auto& t : th) {
            t.join();
        }
        for (std::size_t i = 0; i < n; ++i) {
            VP_CHECK(errs[i].empty(), "threads", errs[i]);
            compare(par[i], ref[i], "threads", true);
            c.evals += 3;
        }
        c.cls("concurrent");
    }
    for (const Job& j : ref) {
        c.cls(cat("lang ", lang_id(j.lang)));
        c.cls(cat("status ", int(j.status)));
    }
    std::size_t toks = 0;
    for (const Job& j : ref) {
        toks += j.t.size() >= 2;
    }
    if (toks >= 2) {
        c.nontrivial(d);
    }
}
Register r08({ "A08", a08, 25000, 1000000, "at least two of the sources yield at least two tokens; distinct by the whole set of sources", true });

// ---------------------------------------------------------------------------------- A04

void a04(Src& s, Ctx& c)
{
    const ulight_lang l = gen_lang(s);
    const int fl = gen_flags(s);
    const std::string src = gen_source(s, l);
    const std::string tag = gen_tag(s), attr = gen_word(s, 9);
    const bool set_names = s.chance(2, 3);
    const std::size_t cap = 1 + s.below(40), tcap = 1 + s.below(100);
    c.describe(show_case(src, l, fl) + cat(" tag ", tag, " attr ", attr));

    const Exact copy { src };
    ulight::State st;
    VP_CHECK(st.get_source().empty() && st.get_flags() == ulight::Flag(0), "defaults", "a default state is not empty");
    const bool u8 = s.chance(1, 2);
    if (u8) {
        st.set_source(std::u8string_view { reinterpret_cast<const char8_t*>(copy.data()), copy.size() });
    }
    else {
        st.set_source(std::string_view { copy.data(), copy.size() });
    }
    VP_CHECK(st.get_source().data() == copy.data() && st.get_source().size() == copy.size(), "get-source", "get_source() is not what was set");
    VP_CHECK(st.get_u8source().size() == copy.size(), "get-source", "get_u8source() is not what was set");
    if (s.chance(1, 2)) {
        st.set_lang(l);
        st.set_flags(ulight_flag(fl));
    }
    else {
        st.set_lang(ulight::Lang(l));
        st.set_flags(ulight::Flag(fl));
    }
    VP_CHECK(int(st.get_lang()) == int(l), "get-lang", "get_lang() is ", int(st.get_lang()), " after setting ", int(l));
    VP_CHECK(int(st.get_flags()) == fl, "get-flags", "get_flags() is ", int(st.get_flags()), " after setting ", fl);
    std::vector<ulight::Token> tb(cap);
    std::vector<char> xb(tcap);
    st.set_token_buffer(tb);
    st.set_text_buffer(xb);
    VP_CHECK(st.get_token_buffer().data() == tb.data() && st.get_token_buffer().size() == cap, "buffers", "token buffer is not what was set");
    VP_CHECK(st.get_text_buffer().data() == xb.data() && st.get_text_buffer().size() == tcap, "buffers", "text buffer is not what was set");
    std::vector<Tok> got;
    std::string text;
    auto on_t = [&](ulight::Token* p, std::size_t n) {
        for (std::size_t i = 0; i < n; ++i) {
            got.push_back({ p[i].begin, p[i].length, p[i].type });
        }
    };
    auto on_x = [&](char* p, std::size_t n) { text.append(p, n); };
    st.on_flush_tokens(on_t);
    st.on_flush_text(on_x);
    if (set_names) {
        if (s.chance(1, 2)) {
            st.set_html_tag_name(tag);
            st.set_html_attr_name(attr);
        }
        else {
            st.set_html_attr_name(attr);
            st.set_html_tag_name(tag);
        }
    }
    const ulight::Status ts = st.source_to_tokens();
    VP_CHECK(ts == ulight::Status::ok, "status", "tokens status ", int(ts));
    const ulight::Status hs = st.source_to_html();
    VP_CHECK(hs == ulight::Status::ok, "status", "html status ", int(hs));
    const Run rt = tokens(src, l, fl, cap);
    VP_CHECK(got == rt.tokens, "tokens", "State gives\n", show(src, got), "\nthe C API gives\n", show(src, rt.tokens));
    const std::string want = reference_html(src, rt.tokens, set_names ? tag : "h-", set_names ? attr : "data-h");
    VP_CHECK(text == want, "html", "State gives ", quote(text), "\n  expected ", quote(want));
    classify(c, l, src, got.size());
    c.cls(set_names ? "names set" : "default names");
    if (got.size() >= 1) {
        c.nontrivial(src + tag + "/" + attr, l * 4 + fl);
    }
    c.evals = 3;
}
Register r04({ "A04", a04, 50000, 2000000, "source yields at least one token; distinct by (language, flags, source, names)", true });

// ---------------------------------------------------------------------------------- A09

void a09(Src& s, Ctx& c)
{
    const ulight_lang l = gen_lang(s);
    const std::string src = gen_source(s, l, 60);
    const bool to_html = s.chance(1, 2);
    struct Counter {
        std::size_t calls = 0;
        static void t(const void* d, ulight_token*, std::size_t) { ++static_cast<Counter*>(const_cast<void*>(d))->calls; }
        static void x(const void* d, char*, std::size_t) { ++static_cast<Counter*>(const_cast<void*>(d))->calls; }
    } cnt;
    const Exact copy { src };
    std::vector<ulight_token> tb(3);
    std::vector<char> xb(9);
    ulight_state st;
    ulight_state* const ret = ulight_init(&st);
    VP_CHECK(ret == &st, "init", "ulight_init does not return its argument");
    st.source = copy.data();
    st.source_length = copy.size();
    st.lang = l;
    st.token_buffer = tb.data();
    st.token_buffer_length = tb.size();
    st.flush_tokens_data = &cnt;
    st.flush_tokens = Counter::t;
    st.text_buffer = xb.data();
    st.text_buffer_length = xb.size();
    st.flush_text_data = &cnt;
    st.flush_text = Counter::x;
    std::vector<int> allowed;
    std::string what;
    bool source_null = false;
    const std::size_t n = s.below(3);
    for (std::size_t i = 0; i < n; ++i) {
        switch (s.below(to_html ? 12 : 6)) {
        case 0:
            st.source = nullptr;
            if (st.source_length == 0) {
                st.source_length = 1 + s.below(5);
            }
            source_null = true;
            allowed.push_back(ULIGHT_STATUS_BAD_STATE);
            what += " source=null";
            break;
        case 1:
            st.token_buffer = nullptr;
            allowed.push_back(ULIGHT_STATUS_BAD_BUFFER);
            what += " token_buffer=null";
            break;
        case 2:
            st.token_buffer_length = 0;
            allowed.push_back(ULIGHT_STATUS_BAD_BUFFER);
            what += " token_buffer_length=0";
            break;
        case 3:
            if (!to_html) { // set automatically for HTML
                st.flush_tokens = nullptr;
                allowed.push_back(ULIGHT_STATUS_BAD_BUFFER);
                what += " flush_tokens=null";
            }
            break;
        case 4:
        case 5: {
            static const unsigned bad[] { 0, 26, 27, 100, 255, 256, 1000, 65536, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0xFFFFFF00, 0x80000001 };
            const unsigned v = s.chance(1, 2) ? s.pick(bad) : 26 + s.below(1u << 31);
            st.lang = ulight_lang(v);
            allowed.push_back(ULIGHT_STATUS_BAD_LANG);
            what += cat(" lang=", v);
            break;
        }
        case 6:
            st.text_buffer = nullptr;
            allowed.push_back(ULIGHT_STATUS_BAD_BUFFER);
            what += " text_buffer=null";
            break;
        case 7:
            st.text_buffer_length = 0;
            allowed.push_back(ULIGHT_STATUS_BAD_BUFFER);
            what += " text_buffer_length=0";
            break;
        case 8:
            st.flush_text = nullptr;
            allowed.push_back(ULIGHT_STATUS_BAD_BUFFER);
            what += " flush_text=null";
            break;
        case 9:
            st.html_tag_name = nullptr;
            allowed.push_back(ULIGHT_STATUS_BAD_STATE);
            what += " html_tag_name=null";
            break;
        case 10:
            (s.chance(1, 2) ? st.html_tag_name_length : st.html_attr_name_length) = 0;
            allowed.push_back(ULIGHT_STATUS_BAD_STATE);
            what += " html_*_name_length=0";
            break;
        case 11:
            st.html_attr_name = nullptr;
            allowed.push_back(ULIGHT_STATUS_BAD_STATE);
            what += " html_attr_name=null";
            break;
        }
    }
    // An earlier, differently failing call on the same state.
    std::string first_error;
    const ulight_state before = st;
    if (s.chance(1, 2)) {
        switch (s.below(to_html ? 5 : 3)) {
        case 0: st.source = nullptr; st.source_length = 1; break;
        case 1: st.token_buffer = nullptr; break;
        case 2: st.lang = ulight_lang(0); break;
        case 3: st.text_buffer_length = 0; break;
        default: st.html_attr_name_length = 0; break;
        }
        const ulight_status r = to_html ? ulight_source_to_html(&st) : ulight_source_to_tokens(&st);
        VP_CHECK(r != ULIGHT_STATUS_OK && st.error, "accepted", "an invalid state is accepted");
        first_error = cat(" ", std::string_view(st.error, st.error_length));
        st.source = before.source;
        st.source_length = before.source_length;
        st.lang = before.lang;
        st.token_buffer = before.token_buffer;
        st.text_buffer_length = before.text_buffer_length;
        st.html_attr_name_length = before.html_attr_name_length;
        what = cat(what, " after", first_error);
    }
    const bool empty_null = !source_null && src.empty() && s.chance(1, 2);
    if (empty_null) {
        st.source = nullptr; // fine with a length of zero
    }
    c.describe(cat(to_html ? "to_html" : "to_tokens", what, " ", show_case(src, l, 0)));
    const ulight_status r = to_html ? ulight_source_to_html(&st) : ulight_source_to_tokens(&st);
    const std::string err = st.error ? std::string(st.error, st.error_length) : std::string();
    if (allowed.empty()) {
        VP_CHECK(r == ULIGHT_STATUS_OK, "rejected", "a valid state was rejected with ", int(r), " ", err);
        c.cls("valid");
    }
    else {
        VP_CHECK(
            std::find(allowed.begin(), allowed.end(), int(r)) != allowed.end(), "wrong-status", "status ", int(r), " (", err,
            ") for", what
        );
        VP_CHECK(cnt.calls == 0, "flushed", "output was flushed although the state is invalid:", what);
        VP_CHECK(!err.empty() && valid_utf8(err), "error-text", "no error text for", what);
        // What is reported depends on the state's fields alone, not on what the same state has
        // reported before: the same invalid state without history says the same.
        ulight_state fresh;
        ulight_init(&fresh);
        fresh.source = st.source;
        fresh.source_length = st.source_length;
        fresh.lang = st.lang;
        fresh.flags = st.flags;
        fresh.token_buffer = st.token_buffer;
        fresh.token_buffer_length = st.token_buffer_length;
        fresh.flush_tokens_data = st.flush_tokens_data;
        fresh.flush_tokens = before.flush_tokens;
        fresh.html_tag_name = st.html_tag_name;
        fresh.html_tag_name_length = st.html_tag_name_length;
        fresh.html_attr_name = st.html_attr_name;
        fresh.html_attr_name_length = st.html_attr_name_length;
        fresh.text_buffer = st.text_buffer;
        fresh.text_buffer_length = st.text_buffer_length;
        fresh.flush_text_data = st.flush_text_data;
        fresh.flush_text = st.flush_text;
        const ulight_status again = to_html ? ulight_source_to_html(&fresh) : ulight_source_to_tokens(&fresh);
        const std::string fresh_err = fresh.error ? std::string(fresh.error, fresh.error_length) : std::string();
        VP_CHECK(
            again == r && fresh_err == err && err.find('\0') == err.npos, "error-history", "after", first_error, " the error is ", int(r),
            " ", quote(err), ", without history ", int(again), " ", quote(fresh_err), " for", what
        );
        ulight_destroy(&fresh);
        c.cls(cat(to_html ? "html" : "tokens", what.size() < 60 && allowed.size() == 1 ? what.substr(0, what.find('=')) : " several"));
        c.nontrivial(what, to_html);
    }
    // The state stays usable.
    st.source = copy.data();
    st.source_length = copy.size();
    st.lang = l;
    st.token_buffer = tb.data();
    st.token_buffer_length = tb.size();
    st.flush_tokens_data = &cnt;
    st.flush_tokens = Counter::t;
    VP_CHECK(ulight_source_to_tokens(&st) == ULIGHT_STATUS_OK, "unusable-after", "the corrected state is rejected");
    ulight_destroy(&st);
    if (s.chance(1, 50)) {
        ulight_state* const p = ulight_new();
        VP_CHECK(p != nullptr, "new", "ulight_new failed");
        VP_CHECK(
            p->source_length == 0 && p->html_tag_name && p->html_attr_name
                && std::string(p->html_tag_name, p->html_tag_name_length) == "h-"
                && std::string(p->html_attr_name, p->html_attr_name_length) == "data-h",
            "new", "ulight_new does not initialise the state like ulight_init"
        );
        ulight_delete(p);
    }
}
Register r09({ "A09", a09, 120000, 3000000, "at least one field of the state is invalid; distinct by the set of invalid fields and function", false });

// ---------------------------------------------------------------------------------- A10

void a10_highlight(Src& s, Ctx& c)
{
    static const ulight_lang allocating[] { ULIGHT_LANG_YAML, ULIGHT_LANG_COWEL, ULIGHT_LANG_LLVM, ULIGHT_LANG_MARKDOWN, ULIGHT_LANG_PYTHON };
    const ulight_lang l = s.chance(1, 2) ? s.pick(allocating) : gen_lang(s);
    const int fl = gen_flags(s);
    const std::string src = gen_any(s, l);
    const bool to_html = s.chance(1, 4);
    const std::int64_t at = s.size(12);
    c.describe(show_case(src, l, fl) + cat(" fail allocation ", at));
    const std::vector<Tok> ref = ok_tokens(src, l, fl, 8);

    const Exact copy { src };
    std::vector<ulight_token> tb(8);
    std::vector<char> xb(64);
    Collect out;
    out.t.reserve(2 * src.size() + 64);
    out.text.reserve(60 * src.size() + 4096);
    ulight_state st;
    ulight_init(&st);
    st.source = copy.data();
    st.source_length = copy.size();
    st.lang = l;
    st.flags = ulight_flag(fl);
    st.token_buffer = tb.data();
    st.token_buffer_length = tb.size();
    st.flush_tokens_data = &out;
    st.flush_tokens = Collect::on_tokens;
    st.text_buffer = xb.data();
    st.text_buffer_length = xb.size();
    st.flush_text_data = &out;
    st.flush_text = Collect::on_text;
    const std::int64_t live = Alloc::live;
    const std::uint64_t count = Alloc::count;
    Alloc::failed = false;
    Alloc::fail_after = at;
    const ulight_status r = to_html ? ulight_source_to_html(&st) : ulight_source_to_tokens(&st);
    Alloc::fail_after = -1;
    const bool failed = Alloc::failed;
    Alloc::failed = false;
    const std::int64_t live_after = Alloc::live;
    const std::uint64_t allocs = Alloc::count - count;
    VP_CHECK(live == live_after, cat("leak-", lang_id(l)), live_after - live, " block(s) leaked; allocation failed: ", failed);
    if (failed) {
        VP_CHECK(r == ULIGHT_STATUS_BAD_ALLOC, cat("status-", lang_id(l)), "status ", int(r), " after a failed allocation");
        VP_CHECK(st.error && st.error_length, "error-text", "no error text");
        if (!to_html) {
            VP_CHECK(
                out.t.size() <= ref.size() && std::equal(out.t.begin(), out.t.end(), ref.begin()), "prefix",
                "tokens flushed before the failure are not a prefix of the full result"
            );
        }
        // Recovery.
        out.t.clear();
        st.flush_tokens_data = &out;
        st.flush_tokens = Collect::on_tokens;
        VP_CHECK(ulight_source_to_tokens(&st) == ULIGHT_STATUS_OK && out.t == ref, "recovery", "a second attempt does not give the full result");
        c.cls(cat("failed in ", lang_id(l)));
        c.nontrivial(src, l * 4 + fl + 100 * at);
    }
    else {
        VP_CHECK(r == ULIGHT_STATUS_OK, cat("status-", lang_id(l)), "status ", int(r), " without a failed allocation");
        VP_CHECK(to_html || out.t == ref, "tokens", "different tokens");
        c.cls(allocs ? "allocates, not failed" : "no allocation");
    }
}

/// A history of calls to the memory part of the interface.
void a10(Src& s, Ctx& c)
{
    if (s.chance(1, 4)) {
        a10_highlight(s, c);
        return;
    }
    struct Block {
        unsigned char* p;
        std::size_t size, align;
        unsigned char fill;
    };
    std::vector<Block> blocks;
    std::vector<ulight_state*> states;
    std::string log;
    std::int64_t delta = 0; // allocator blocks gained by the calls so far
    const auto counted = [&](auto call) {
        const std::int64_t before = Alloc::live;
        call();
        delta += Alloc::live - before;
    };
    unsigned allocated = 0, freed = 0, failures = 0, states_made = 0;
    const auto intact = [&](const Block& b) {
        return std::all_of(b.p, b.p + b.size, [&](unsigned char x) { return x == b.fill; });
    };
    const auto drop = [&](std::size_t i) {
        VP_CHECK(intact(blocks[i]), "content", "the content of a block changed; ", log);
        counted([&] { ulight_free(blocks[i].p, blocks[i].size, blocks[i].align); });
        blocks.erase(blocks.begin() + std::ptrdiff_t(i));
        ++freed;
    };
    const std::size_t n = 1 + s.size(24);
    for (std::size_t k = 0; k < n; ++k) {
        const unsigned op = s.below(8);
        const bool fail = s.chance(1, 6);
        if (op < 4) {
            const std::size_t size = s.chance(1, 8) ? s.below(100000) : s.size(600);
            const std::size_t align = std::size_t(1) << s.below(13);
            log += cat(fail ? "alloc! " : "alloc ", size, "/", align, "; ");
            c.describe(log);
            Alloc::failed = false;
            Alloc::fail_after = fail ? 0 : -1;
            void* p = nullptr;
            counted([&] { p = ulight_alloc(size, align); });
            Alloc::fail_after = -1;
            if (fail) {
                VP_CHECK(p == nullptr || !Alloc::failed, "alloc-null", "a failed allocation did not give null; ", log);
            }
            const bool failed = Alloc::failed;
            Alloc::failed = false;
            if (failed) {
                ++failures;
                continue;
            }
            VP_CHECK(p != nullptr, "alloc", "allocation failed; ", log);
            VP_CHECK(std::uintptr_t(p) % align == 0, "align", "misaligned block; ", log);
            ++allocated;
            Block b { static_cast<unsigned char*>(p), size, align, static_cast<unsigned char>(1 + k) };
            std::memset(b.p, b.fill, size); // AddressSanitizer: all of it must be usable
            for (const Block& o : blocks) {
                VP_CHECK(b.p + b.size <= o.p || o.p + o.size <= b.p, "overlap", "blocks overlap; ", log);
            }
            blocks.push_back(b);
        }
        else if (op == 4) {
            if (!blocks.empty()) {
                log += "free; ";
                c.describe(log);
                drop(s.below(blocks.size()));
            }
        }
        else if (op == 5) {
            log += fail ? "new!; " : "new; ";
            c.describe(log);
            Alloc::failed = false;
            Alloc::fail_after = fail ? 0 : -1;
            ulight_state* p = nullptr;
            counted([&] { p = ulight_new(); });
            Alloc::fail_after = -1;
            const bool failed = Alloc::failed;
            Alloc::failed = false;
            if (failed) {
                VP_CHECK(p == nullptr, "new-null", "ulight_new gave a state although allocation failed; ", log);
                ++failures;
                continue;
            }
            VP_CHECK(p != nullptr, "new", "ulight_new gave null; ", log);
            ulight_state def;
            std::memset(&def, 0x5a, sizeof def);
            VP_CHECK(ulight_init(&def) == &def, "init", "ulight_init gives another pointer");
            for (const ulight_state* q : { static_cast<const ulight_state*>(p), static_cast<const ulight_state*>(&def) }) {
                VP_CHECK(
                    q->source_length == 0 && q->lang == ULIGHT_LANG_NONE && q->flags == ULIGHT_NO_FLAGS && q->token_buffer == nullptr
                        && q->token_buffer_length == 0 && q->flush_tokens == nullptr && q->flush_tokens_data == nullptr
                        && q->text_buffer == nullptr && q->text_buffer_length == 0 && q->flush_text == nullptr && q->flush_text_data == nullptr
                        && q->error_length == 0
                        && std::string_view(q->html_tag_name, q->html_tag_name_length) == "h-"
                        && std::string_view(q->html_attr_name, q->html_attr_name_length) == "data-h",
                    "defaults", "a new state does not have the default configuration; ", log
                );
            }
            ulight_destroy(&def);
            states.push_back(p);
            ++states_made;
        }
        else if (op == 6) {
            if (!states.empty()) {
                log += "delete; ";
                c.describe(log);
                const std::size_t i = s.below(states.size());
                counted([&] { ulight_delete(states[i]); });
                states.erase(states.begin() + std::ptrdiff_t(i));
                        ++freed;
            }
        }
        else if (!states.empty()) {
            const ulight_lang l = gen_lang(s);
            const std::string src = gen_source(s, l, 60);
            log += cat("use ", show_case(src, l, 0), "; ");
            c.describe(log);
            const std::vector<Tok> ref = ok_tokens(src, l, 0, 512);
            ulight_state* const st = s.pick(states);
            ulight_token tb[4];
            Collect out;
            out.t.reserve(src.size() + 8);
            st->source = src.data();
            st->source_length = src.size();
            st->lang = l;
            st->token_buffer = tb;
            st->token_buffer_length = 4;
            st->flush_tokens_data = &out;
            st->flush_tokens = Collect::on_tokens;
            VP_CHECK(ulight_source_to_tokens(st) == ULIGHT_STATUS_OK && out.t == ref, "use", "an allocated state gives a different result; ", log);
        }
    }
    while (!states.empty()) {
        counted([&] { ulight_delete(states.back()); });
        states.pop_back();
    }
    while (!blocks.empty()) {
        drop(blocks.size() - 1);
    }
    VP_CHECK(delta == 0, "balance", delta, " block(s) left after everything was released; ", log);
    c.cls(cat("failures: ", failures ? "some" : "none"));
    c.cls(cat("states: ", std::min(states_made, 3u)));
    if (allocated + states_made >= 2 && (freed || failures)) {
        c.nontrivial(log, 0);
    }
}
Register r10({ "A10", a10, 60000, 2000000, "history with at least two allocations and an early release or an injected failure, or a highlighting call in which an allocation was made to fail; distinct by history", true });

// ---------------------------------------------------------------------------------- A11

// As documented/registered: what a user may rely on being understood. New aliases are no violation.
const std::pair<const char*, ulight_lang> expected_names[] {
#include "langs.inc"
};

ulight_lang linear_lookup(std::string_view name)
{
    for (std::size_t i = 0; i < ulight_lang_list_length; ++i) {
        if (std::string_view(ulight_lang_list[i].name, ulight_lang_list[i].name_length) == name) {
            return ulight_lang_list[i].lang;
        }
    }
    return ULIGHT_LANG_NONE;
}

std::string sv(ulight_string_view v) { return { v.text ? v.text : "", v.length }; }

void a11(Src& s, Ctx& c)
{
    std::string name;
    bool mutated = false;
    switch (s.below(5)) {
    case 0: name = s.pick(expected_names).first; break;
    case 1: {
        const ulight_lang_entry& e = ulight_lang_list[s.below(ulight_lang_list_length)];
        name.assign(e.name, e.name_length);
        break;
    }
    case 2:
    case 3: {
        name = s.pick(expected_names).first;
        mutated = true;
        switch (s.below(6)) {
        case 0: name += char(s.below(128)); break;
        case 1: name.pop_back(); break;
        case 2: name.insert(name.begin() + s.below(name.size() + 1), char(' ' + s.below(95))); break;
        case 3: name[s.below(name.size())] ^= 0x20; break;
        case 4: name += '\0'; break;
        default: name[s.below(name.size())] = char(s.below(256));
        }
        break;
    }
    default: {
        const std::size_t n = s.size(12);
        for (std::size_t i = 0; i < n; ++i) {
            name += s.chance(3, 4) ? char('a' + s.below(26)) : char(s.below(256));
        }
    }
    }
    std::string path = s.pick({ "", "./", "/a/b/", "a.b/", "x", "dir.json/", "..", ".", "α/" });
    path += gen_word(s, 5);
    const bool dotted = s.chance(4, 5);
    std::string ext_path = path + (dotted ? "." : "") + name;
    c.describe(cat("name ", quote(name), " path ", quote(ext_path)));
    const Exact n { name };
    const ulight_lang want = linear_lookup(name);
    const ulight_lang got = ulight_get_lang(n.data(), n.size());
    VP_CHECK(got == want, "lookup", "ulight_get_lang(", quote(name), ") = ", int(got), ", the list says ", int(want));
    const ulight_lang got8 = ulight_get_lang_u8(reinterpret_cast<const char8_t*>(n.data()), n.size());
    VP_CHECK(got8 == want, "lookup-u8", "ulight_get_lang_u8(", quote(name), ") = ", int(got8), ", the list says ", int(want));
    VP_CHECK(int(ulight::get_lang(std::string_view(n.data(), n.size()))) == int(want), "lookup-cpp", "ulight::get_lang(", quote(name), ")");

    const Exact p { ext_path };
    const std::size_t dot = ext_path.rfind('.');
    const ulight_lang pwant = dot == ext_path.npos ? ULIGHT_LANG_NONE : linear_lookup(std::string_view(ext_path).substr(dot + 1));
    const ulight_lang pgot = ulight_lang_from_path(p.data(), p.size());
    VP_CHECK(pgot == pwant, "path", "ulight_lang_from_path(", quote(ext_path), ") = ", int(pgot), ", expected ", int(pwant));
    const ulight_lang pgot8 = ulight_lang_from_path_u8(reinterpret_cast<const char8_t*>(p.data()), p.size());
    VP_CHECK(pgot8 == pwant, "path-u8", "ulight_lang_from_path_u8(", quote(ext_path), ") = ", int(pgot8), ", expected ", int(pwant));

    const unsigned v = s.chance(3, 4) ? s.below(40) : unsigned(s.below(1ull << 32));
    const ulight_string_view dn = ulight_lang_display_name(ulight_lang(v));
    if (v >= 1 && v < ULIGHT_LANG_COUNT) {
        VP_CHECK(dn.text && dn.length && std::strlen(dn.text) == dn.length, "display", "bad display name for ", v);
    }
    else {
        VP_CHECK(dn.length == 0, "display", "a display name for the invalid language ", v);
    }
    const ulight_u8string_view d8 = ulight_lang_display_name_u8(ulight_lang(v));
    VP_CHECK(d8.length == dn.length && std::memcmp(dn.text ? dn.text : "", d8.text ? (const char*)d8.text : "", dn.length) == 0, "display-u8", "display names differ for ", v);
    c.cls(want != ULIGHT_LANG_NONE ? "known name" : "unknown name");
    c.cls(pwant != ULIGHT_LANG_NONE ? "known extension" : "unknown extension");
    if (want != ULIGHT_LANG_NONE || mutated) {
        c.nontrivial(name);
    }
    c.evals = 6;
}

std::uint64_t a11_count(bool) { return std::size(expected_names) + ulight_lang_list_length + ULIGHT_LANG_COUNT; }
void a11_enum(std::uint64_t i, Ctx& c)
{
    if (i < std::size(expected_names)) {
        const auto& [name, lang] = expected_names[i];
        c.describe(cat("name ", name));
        const ulight_lang got = ulight_get_lang(name, std::strlen(name));
        VP_CHECK(got == lang, "documented-name", "\"", name, "\" means ", int(got), " instead of ", int(lang));
        c.nontrivial(name, 1);
        return;
    }
    i -= std::size(expected_names);
    if (i < ulight_lang_list_length) {
        const ulight_lang_entry& e = ulight_lang_list[i];
        const std::string n(e.name, e.name_length);
        c.describe(cat("entry ", n));
        VP_CHECK(!n.empty() && std::strlen(e.name) == n.size(), "entry", "entry ", i, " is not a null-terminated name");
        for (const char ch : n) {
            VP_CHECK((ch & 0x80) == 0 && !(ch >= 'A' && ch <= 'Z'), "entry-case", "name ", n, " is not lower-case ASCII");
        }
        VP_CHECK(int(e.lang) > 0 && int(e.lang) < ULIGHT_LANG_COUNT, "entry", "entry ", n, " has no valid language");
        VP_CHECK(ulight_get_lang(e.name, e.name_length) == e.lang, "entry-lookup", "listed name ", n, " is not found");
        std::size_t same = 0;
        for (std::size_t k = 0; k < ulight_lang_list_length; ++k) {
            same += std::string_view(ulight_lang_list[k].name, ulight_lang_list[k].name_length) == n;
        }
        VP_CHECK(same == 1, "entry-unique", "name ", n, " is listed ", same, " times");
        c.nontrivial(n, 2);
        return;
    }
    i -= ulight_lang_list_length;
    c.describe(cat("language ", i));
    if (i == 0) {
        VP_CHECK(ulight_lang_display_name(ULIGHT_LANG_NONE).length == 0, "display", "display name for no language");
        return;
    }
    static const std::map<int, std::string> names {
        { ULIGHT_LANG_COWEL, "COWEL" }, { ULIGHT_LANG_CPP, "C++" }, { ULIGHT_LANG_LUA, "Lua" }, { ULIGHT_LANG_HTML, "HTML" },
        { ULIGHT_LANG_CSS, "CSS" }, { ULIGHT_LANG_C, "C" }, { ULIGHT_LANG_JAVASCRIPT, "JavaScript" }, { ULIGHT_LANG_BASH, "Bash" },
        { ULIGHT_LANG_DIFF, "Diff" }, { ULIGHT_LANG_JSON, "JSON" }, { ULIGHT_LANG_XML, "XML" }, { ULIGHT_LANG_KOTLIN, "Kotlin" },
        { ULIGHT_LANG_RUST, "Rust" }, { ULIGHT_LANG_TYPESCRIPT, "TypeScript" }, { ULIGHT_LANG_PYTHON, "Python" }, { ULIGHT_LANG_JAVA, "Java" },
        { ULIGHT_LANG_YAML, "YAML" }, { ULIGHT_LANG_MARKDOWN, "Markdown" }, { ULIGHT_LANG_NASM, "NASM" }, { ULIGHT_LANG_EBNF, "EBNF" },
    };
    const std::string dn = sv(ulight_lang_display_name(ulight_lang(i)));
    if (const auto it = names.find(int(i)); it != names.end()) {
        VP_CHECK(dn == it->second, "display", "language ", i, " is displayed as ", dn, " instead of ", it->second);
    }
    bool reachable = false;
    for (std::size_t k = 0; k < ulight_lang_list_length; ++k) {
        reachable |= ulight_lang_list[k].lang == ulight_lang(i);
    }
    VP_CHECK(reachable, "reachable", "no name leads to language ", i);
    c.nontrivial(dn, 3);
}
Register r11({ "A11", a11, 400000, 5000000, "a known name, or a one-step mutation of one; distinct by name; plus every listed name and language", false, nullptr, a11_count, a11_enum });

// ---------------------------------------------------------------------------------- A12

struct Type_Row {
    const char* enumerator; // without ULIGHT_HL_
    unsigned value;
};
const Type_Row type_rows[] {
#include "typerows.inc"
};

std::uint64_t a12_count(bool) { return 256; }
void a12_enum(std::uint64_t i, Ctx& c)
{
    const auto type = ulight_highlight_type(i);
    const Type_Row* row = nullptr;
    for (const Type_Row& r : type_rows) {
        if (r.value == i) {
            row = &r;
        }
    }
    c.describe(cat("highlight type ", i, " ", row ? row->enumerator : "(none)"));
    const ulight_string_view l = ulight_highlight_type_long_string(type), sh = ulight_highlight_type_short_string(type);
    const ulight_u8string_view l8 = ulight_highlight_type_long_string_u8(type), s8 = ulight_highlight_type_short_string_u8(type);
    const std::string ls = sv(l), ss = sv(sh);
    VP_CHECK(l8.length == l.length && ls == std::string(l8.text ? (const char*)l8.text : "", l8.length), "u8", "long strings differ");
    VP_CHECK(s8.length == sh.length && ss == std::string(s8.text ? (const char*)s8.text : "", s8.length), "u8", "short strings differ");
    const auto cpp = ulight::Highlight_Type(i);
    VP_CHECK(sv(ulight_highlight_type_id(type)) == ss && ulight::highlight_type_id(cpp) == ss, "id", "the id is not the short string");
    VP_CHECK(ls == ulight::highlight_type_long_string(cpp) && ss == ulight::highlight_type_short_string(cpp), "cpp", "C and C++ strings differ");
    if (!row || i == 0) {
        // Types added later are fine, as long as both names exist or neither does.
        VP_CHECK(ls.empty() == ss.empty(), "names", "only one of the two names exists");
        c.cls("unlisted");
        return;
    }
    VP_CHECK(!ls.empty() && l.text[l.length] == 0 && std::strlen(l.text) == l.length, "terminated", "long string is not null-terminated");
    VP_CHECK(!ss.empty() && sh.text[sh.length] == 0 && std::strlen(sh.text) == sh.length, "terminated", "short string is not null-terminated");
    for (const char ch : ss) {
        VP_CHECK((ch >= 'a' && ch <= 'z') || ch == '_', "short-chars", "short string ", ss);
    }
    std::string want;
    for (const char* p = row->enumerator; *p; ++p) {
        want += *p == '_' ? '-' : char(*p | 0x20);
    }
    if (ls != want) {
        std::string no_shell = want;
        if (const std::size_t at = no_shell.find("-shell-"); at != no_shell.npos) {
            no_shell.erase(at, 6);
        }
        if (no_shell != want && no_shell == ls) {
            c.known("A12-shell-names");
        }
        else {
            fail("long", cat("long string of ", row->enumerator, " is ", ls, " instead of ", want));
        }
    }
    for (const Type_Row& r : type_rows) {
        if (r.value != i) {
            VP_CHECK(sv(ulight_highlight_type_long_string(ulight_highlight_type(r.value))) != ls, "unique", ls, " also names ", r.enumerator);
            VP_CHECK(sv(ulight_highlight_type_short_string(ulight_highlight_type(r.value))) != ss, "unique", ss, " also names ", r.enumerator);
        }
    }
    c.cls("listed");
    c.nontrivial(row->enumerator);
    c.evals = 2 * std::size(type_rows);
}
void a12(Src& s, Ctx& c)
{
    // The names as they appear in output: every token of real output has a name, and the rendered
    // attribute is that name.
    const ulight_lang l = gen_lang(s);
    const std::string src = gen_source(s, l, 120);
    c.describe(show_case(src, l, 0));
    const Run h = html(src, l, 0, 16, 64);
    const std::vector<Tok> t = ok_tokens(src, l, 0, 16);
    std::size_t at = 0;
    for (const Tok& k : t) {
        at = h.html.find("<h- data-h=", at);
        VP_CHECK(at != h.html.npos, "missing", "fewer elements than tokens");
        at += 11;
        const std::size_t e = h.html.find('>', at);
        const std::string id = h.html.substr(at, e - at);
        unsigned found = 0;
        std::string want;
        for (const Type_Row& r : type_rows) {
            const ulight_string_view n = ulight_highlight_type_short_string(ulight_highlight_type(r.value));
            if (sv(n) == id) {
                ++found;
                want = r.enumerator;
            }
        }
        VP_CHECK(found == 1, "ambiguous", "rendered name ", id, " stands for ", found, " types");
        VP_CHECK(id == sv(ulight_highlight_type_short_string(ulight_highlight_type(k.type))), "name", "token type ", k.type, " rendered as ", id);
        c.cls(want);
    }
    if (!t.empty()) {
        c.nontrivial(src, l);
    }
}
Register r12({ "A12", a12, 12000, 300000, "all 256 type values; and sources with at least one token, each of whose rendered names must identify exactly one type", true, nullptr, a12_count, a12_enum });

} // namespace
