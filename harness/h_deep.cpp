// A13: the call stack that highlighting needs does not grow with the nesting of the source.
//
// A case is a few constructs (an opener, perhaps a closer) of some language, or any short text.
// These are nested in themselves some hundred times, and four times as often as that. Both sources
// are processed on a fresh stack of zero pages, so that the pages which got touched tell how much of
// the stack was needed. Recursive highlighting is fine as long as there is a limit to it.
#include "h_nest.hpp"
#include "hl.hpp"

#include <cstring>
#include <memory>
#include <string>
#include <string_view>
#include <vector>

#include <pthread.h>
#include <sys/mman.h>

#include "ulight/json.hpp"
#include "ulight/ulight.hpp"

namespace vp {
namespace {

constexpr std::size_t page = 4096;
constexpr std::size_t stack_size = 512u << 20;

enum struct Task { tokens, html, parse_json };

struct Job {
    std::string_view source;
    ulight_lang lang;
    int flags;
    Task task;
    ulight_status status = ULIGHT_STATUS_OK;
    std::size_t output = 0; // how many tokens or how much HTML
};

void count_tokens(const void* job, ulight_token*, std::size_t n)
{
    static_cast<Job*>(const_cast<void*>(job))->output += n;
}
void count_text(const void* job, char*, std::size_t n)
{
    static_cast<Job*>(const_cast<void*>(job))->output += n;
}

void* perform(void* arg)
{
    Job& j = *static_cast<Job*>(arg);
    if (j.task == Task::parse_json) {
        ulight::JSON_Visitor visitor;
        const ulight::JSON_Options options { .allow_comments = (j.flags & 1) != 0, .parse_numbers = (j.flags & 2) != 0 };
        j.output = ulight::parse_json(visitor, j.source, options);
        return nullptr;
    }
    ulight_token tokens[64];
    char text[256];
    ulight_state state;
    ulight_init(&state);
    state.source = j.source.data();
    state.source_length = j.source.size();
    state.lang = j.lang;
    state.flags = ulight_flag(j.flags);
    state.token_buffer = tokens;
    state.token_buffer_length = std::size(tokens);
    state.flush_tokens = count_tokens;
    state.flush_tokens_data = &j;
    state.text_buffer = text;
    state.text_buffer_length = std::size(text);
    state.flush_text = count_text;
    state.flush_text_data = &j;
    j.status = j.task == Task::html ? ulight_source_to_html(&state) : ulight_source_to_tokens(&state);
    ulight_destroy(&state);
    return nullptr;
}

/// How much of a fresh stack the job needed, in bytes.
std::size_t stack_needed(Job& j)
{
    void* const stack = mmap(nullptr, stack_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    VP_CHECK(stack != MAP_FAILED, "harness", "mmap failed");
    madvise(stack, stack_size, MADV_NOHUGEPAGE);
    mprotect(stack, page, PROT_NONE);
    pthread_attr_t attr;
    pthread_attr_init(&attr);
    pthread_attr_setstack(&attr, static_cast<char*>(stack) + page, stack_size - page);
    pthread_t thread;
    const int created = pthread_create(&thread, &attr, perform, &j);
    pthread_attr_destroy(&attr);
    if (created != 0) {
        munmap(stack, stack_size);
        fail("harness", cat("pthread_create failed with ", created));
    }
    pthread_join(thread, nullptr);
    std::vector<unsigned char> resident(stack_size / page);
    mincore(stack, stack_size, resident.data());
    std::size_t first = 1;
    while (first < resident.size() && !(resident[first] & 1)) {
        ++first;
    }
    munmap(stack, stack_size);
    return (resident.size() - first) * page;
}

/// Compares the stack needed for the nested source with that needed for a deeper one.
void check(
    Ctx& c, ulight_lang lang, Task task, int flags, std::string_view before, std::string_view open, std::string_view middle, std::string_view close,
    std::size_t depth
)
{
    Job job { .lang = lang, .flags = flags, .task = task };
    c.describe(cat(job.task == Task::parse_json ? "parse_json" : lang_id(lang), ": ", quote(before), ", ", depth, " times ", quote(open), ", ", quote(middle), ", as many times ", quote(close)));

    // Less than about 50 bytes for each of the additional levels cannot be due to recursion,
    // but what is innermost may differ, and the allocator sometimes needs some of the stack.
    constexpr std::size_t slack = 64 << 10;
    constexpr std::size_t factors[] { 1, 4, 8 };
    std::size_t needed[3], output[3];
    for (int i = 0; i < 3; ++i) {
        if (i == 2 && needed[1] <= needed[0] + slack) {
            // The limit may have been reached only in the second run,
            // such as if every other construct ends up in a string, so this is only about the third one.
            break;
        }
        const std::string text = nest(before, open, middle, close, factors[i] * depth);
        const Exact source { text };
        job.source = { source.data(), source.size() };
        job.output = 0;
        needed[i] = stack_needed(job);
        output[i] = job.output;
        VP_CHECK(job.status == ULIGHT_STATUS_OK, "status", "processing failed with status ", int(job.status));
    }
    c.cls(lang_id(lang));
    VP_CHECK(
        needed[1] <= needed[0] + slack || needed[2] <= needed[1] + slack, "grows", "nested ", depth, " times, this needs ", needed[0],
        " bytes of the stack, but nested ", 4 * depth, " times, it needs ", needed[1], " bytes, and nested ", 8 * depth, " times, ", needed[2]
    );
    c.cls(cat("stack ", needed[0] > 262144 ? ">256K" : needed[0] > 65536 ? "64K-256K" : "<64K"));
    if (output[1] > output[0]) {
        c.nontrivial(cat(before, '\0', open, '\0', middle, '\0', close, '\0', int(job.task)), lang);
    }
}

void a13(Src& s, Ctx& c)
{
    const ulight_lang lang = gen_lang(s);
    auto [open, close] = gen_nest(s, lang);
    if (open.size() > 30) {
        c.cls("too long");
        return;
    }
    if (s.chance(1, 3)) {
        close.clear();
    }
    const std::string before = s.pick(befores), middle = s.pick(middles);
    const int flags = s.chance(1, 4) ? int(s.below(4)) : 0;
    Task task = s.chance(1, 6) ? Task::html : Task::tokens;
    if (lang == ULIGHT_LANG_JSON && s.chance(1, 2)) {
        task = Task::parse_json;
    }
    check(c, lang, task, flags, before, open, middle, close, 400 + s.below(200));
}

// Every construct of the table in every language, with and without what closes it,
// and thoroughly also after each of the beginnings.
std::uint64_t a13_count(bool thorough)
{
    return all_langs().size() * std::size(constructs) * 2 * (thorough ? std::size(befores) : 1);
}
void a13_enum(std::uint64_t i, Ctx& c)
{
    const ulight_lang lang = all_langs()[i % all_langs().size()];
    i /= all_langs().size();
    const bool closed = i % 2 != 0;
    i /= 2;
    const Construct& k = constructs[i % std::size(constructs)];
    i /= std::size(constructs);
    if (closed && !*k.close) {
        return;
    }
    check(c, lang, Task::tokens, 0, befores[i], k.open, "a", closed ? k.close : "", 400);
    if (lang == ULIGHT_LANG_JSON) {
        check(c, lang, Task::parse_json, 1, befores[i], k.open, "1", closed ? k.close : "", 400);
    }
}
Register r13({ "A13", a13, 250, 16000, "the source nested four times as deep has more tokens (or HTML)", true, nullptr, a13_count, a13_enum });

} // namespace
} // namespace vp
