// A14: the work that highlighting takes is proportional to the length of the source.
//
// A case is a few constructs (an opener, perhaps a closer) of some language, or any short text, which
// is repeated some hundred times, four times as often, and, if there is any doubt, sixteen times as
// often. Work is the number of basic blocks of the library that got executed, so it is exact and does
// not depend on the machine. Four times the source may cost somewhat more than four times the work
// (the source before the first repetition, a limit that is only reached later), but with work that
// grows with the square of the length, it is sixteen times in the end.
#include "h_nest.hpp"
#include "hl.hpp"

#include <memory>
#include <string>
#include <string_view>
#include <vector>

#include "ulight/json.hpp"
#include "ulight/ulight.hpp"

namespace vp {
namespace {

enum struct Task { tokens, html, parse_json };

struct Job {
    std::string_view source;
    ulight_lang lang;
    int flags;
    Task task;
    ulight_status status = ULIGHT_STATUS_OK;
    std::size_t output = 0; // how many tokens or how much HTML
};

void count_tokens(const void* job, ulight_token*, std::size_t n)
{
    static_cast<Job*>(const_cast<void*>(job))->output += n;
}
void count_text(const void* job, char*, std::size_t n)
{
    static_cast<Job*>(const_cast<void*>(job))->output += n;
}

std::uint64_t work(Job& j)
{
    const std::uint64_t before = steps;
    if (j.task == Task::parse_json) {
        ulight::JSON_Visitor visitor;
        const ulight::JSON_Options options { .allow_comments = (j.flags & 1) != 0, .parse_numbers = (j.flags & 2) != 0 };
        j.output = ulight::parse_json(visitor, j.source, options);
        return steps - before;
    }
    ulight_token tokens[64];
    char text[256];
    ulight_state state;
    ulight_init(&state);
    state.source = j.source.data();
    state.source_length = j.source.size();
    state.lang = j.lang;
    state.flags = ulight_flag(j.flags);
    state.token_buffer = tokens;
    state.token_buffer_length = std::size(tokens);
    state.flush_tokens = count_tokens;
    state.flush_tokens_data = &j;
    state.text_buffer = text;
    state.text_buffer_length = std::size(text);
    state.flush_text = count_text;
    state.flush_text_data = &j;
    j.status = j.task == Task::html ? ulight_source_to_html(&state) : ulight_source_to_tokens(&state);
    ulight_destroy(&state);
    return steps - before;
}

// Known findings: where the end of the line (or paragraph) is looked for from each opener again, so that the
// work does grow with the square of the length. (It still must not grow any faster than that.)
const char* known_finding(ulight_lang lang, Task task, std::string_view open)
{
    const auto has = [&](char x) { return open.find(x) != open.npos; };
    if (lang == ULIGHT_LANG_MARKDOWN && (has('[') || has('*') || has('_') || has('`'))) {
        return "A14-markdown-openers";
    }
    if ((lang == ULIGHT_LANG_JAVASCRIPT || lang == ULIGHT_LANG_TYPESCRIPT || lang == ULIGHT_LANG_HTML) && has('/') && has('[')) {
        return "A14-js-regex-classes";
    }
    if ((lang == ULIGHT_LANG_JAVASCRIPT || lang == ULIGHT_LANG_TYPESCRIPT) && has('<') && (open.find("//") != open.npos || open.find("/*") != open.npos)) {
        return "A14-jsx-tag-comments";
    }
    if ((lang == ULIGHT_LANG_C || lang == ULIGHT_LANG_CPP) && open.find("\\N{") != open.npos) {
        return "A14-cpp-named-escapes";
    }
    return nullptr;
}

void check(
    Ctx& c, ulight_lang lang, Task task, int flags, std::string_view before, std::string_view open, std::string_view middle, std::string_view close,
    std::size_t count
)
{
    Job job { .lang = lang, .flags = flags, .task = task };
    c.describe(cat(task == Task::parse_json ? "parse_json" : lang_id(lang), ": ", quote(before), ", ", count, " times ", quote(open), ", ", quote(middle), ", as many times ", quote(close), task == Task::html ? ", as HTML" : ""));
    const char* const finding = known_finding(lang, task, open);
    if (finding) {
        count /= 5; // or that takes long
    }
    constexpr std::size_t factors[] { 1, 4, 16 };
    std::uint64_t steps_for[3];
    std::size_t output[3];
    for (int i = 0; i < 3; ++i) {
        if (i == 2 && steps_for[1] <= 7 * steps_for[0]) {
            break;
        }
        const std::string text = nest(before, open, middle, close, factors[i] * count);
        const Exact source { text };
        job.source = { source.data(), source.size() };
        job.output = 0;
        steps_for[i] = work(job);
        output[i] = job.output;
        VP_CHECK(job.status == ULIGHT_STATUS_OK, "status", "processing failed with status ", int(job.status));
    }
    c.cls(lang_id(lang));
    if (finding && steps_for[1] > 7 * steps_for[0] && steps_for[2] > 7 * steps_for[1]) {
        c.known(finding);
        VP_CHECK(
            steps_for[1] <= 24 * steps_for[0] && steps_for[2] <= 24 * steps_for[1], cat("grows-faster-", lang_id(lang)), "repeated ", count, " times, this takes ",
            steps_for[0], " steps, but repeated ", 4 * count, " times, it takes ", steps_for[1], ", and repeated ", 16 * count, " times, ", steps_for[2]
        );
        return;
    }
    VP_CHECK(
        steps_for[1] <= 7 * steps_for[0] || steps_for[2] <= 7 * steps_for[1], cat("grows-", lang_id(lang)), "repeated ", count, " times, this takes ", steps_for[0],
        " steps, but repeated ", 4 * count, " times, it takes ", steps_for[1], ", and repeated ", 16 * count, " times, ", steps_for[2]
    );
    if (output[1] > output[0]) {
        c.nontrivial(cat(before, '\0', open, '\0', middle, '\0', close, '\0', int(job.task)), lang);
    }
}

void a14(Src& s, Ctx& c)
{
    const ulight_lang lang = gen_lang(s);
    auto [open, close] = gen_nest(s, lang);
    if (open.size() > 30) {
        c.cls("too long");
        return;
    }
    if (s.chance(1, 3)) {
        close.clear();
    }
    if (s.chance(1, 3)) {
        c.cls("any source repeated");
        open = gen_source(s, lang, 40);
        close.clear();
        if (open.size() > 100) {
            return;
        }
    }
    const std::string before = s.pick(befores), middle = s.pick(middles);
    const int flags = s.chance(1, 4) ? int(s.below(4)) : 0;
    Task task = s.chance(1, 6) ? Task::html : Task::tokens;
    if (lang == ULIGHT_LANG_JSON ? s.chance(2, 3) : s.chance(1, 24)) {
        task = Task::parse_json;
    }
    if (task == Task::parse_json && s.chance(2, 3)) {
        // Parsing ends at the first error, so this has to be valid.
        c.cls("valid JSON");
        static constexpr Construct json[] { { "[1, ", "]" }, { "{\"a\": ", "}" }, { "[", "]" }, { "[[], ", " ]" }, { "[{}, \"\\u00e9\\n\", ", "\n]" },
                                            { "{\"a\":null,\"b\" : ", "}" }, { "[ -1.5e+3,\n", "]\r\n" }, { "[\"abc def\",", "\t]" }, { "[true ,false, ", " ]" } };
        static constexpr Construct commented[] { { "/* a */[", "]" }, { "[ // a\n", "]" }, { "[/**/", "//\n]" } };
        open.clear();
        close.clear();
        for (std::size_t i = 0, n = 1 + s.below(3); i < n; ++i) {
            const Construct& k = (flags & 1) != 0 && s.chance(1, 3) ? s.pick(commented) : s.pick(json);
            open += k.open;
            close = k.close + close;
        }
        if (s.chance(1, 2)) {
            // Not nested, so this can be much longer.
            check(c, lang, task, flags, "[", open + "0" + close + s.pick({ ", ", ",", ",\n" }), "0", "", 150 + s.below(100));
            c.cls("sequence of JSON values");
            return;
        }
        check(c, lang, task, flags, s.pick({ "", " ", "\n" }), open, s.pick({ "1", "\"\"", "{}", "null" }), close, 400 + s.below(200));
        return;
    }
    check(c, lang, task, flags, before, open, middle, close, 400 + s.below(200));
}

// Every construct of the table in every language, with and without what closes it,
// and thoroughly also after each of the beginnings.
std::uint64_t a14_count(bool thorough)
{
    return all_langs().size() * std::size(constructs) * 2 * (thorough ? std::size(befores) : 1);
}
void a14_enum(std::uint64_t i, Ctx& c)
{
    const ulight_lang lang = all_langs()[i % all_langs().size()];
    i /= all_langs().size();
    const bool closed = i % 2 != 0;
    i /= 2;
    const Construct& k = constructs[i % std::size(constructs)];
    i /= std::size(constructs);
    if (closed && !*k.close) {
        return;
    }
    check(c, lang, Task::tokens, 0, befores[i], k.open, "a", closed ? k.close : "", 400);
    if (lang == ULIGHT_LANG_JSON) {
        check(c, lang, Task::parse_json, 1, befores[i], k.open, "1", closed ? k.close : "", 400);
    }
}
Register r14({ "A14", a14, 250, 8000, "the source repeated four times as often has more tokens (or HTML)", true, nullptr, a14_count, a14_enum });

} // namespace
} // namespace vp
