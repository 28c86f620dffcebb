// Driving the highlighter through its public C API, and generating source text.
#ifndef VP_HL_HPP
#define VP_HL_HPP

#include "engine.hpp"

#include <string>
#include <string_view>
#include <vector>

#include "ulight/ulight.h"

namespace vp {

struct Tok {
    std::size_t begin, length;
    unsigned type;
    friend bool operator==(const Tok&, const Tok&) = default;
    std::size_t end() const { return begin + length; }
};

/// An exact-size heap copy, so that reads beyond either end are caught by AddressSanitizer.
class Exact {
public:
    explicit Exact(std::string_view s);
    ~Exact();
    Exact(const Exact&) = delete;
    Exact& operator=(const Exact&) = delete;
    const char* data() const { return p; }
    char* data() { return p; }
    std::size_t size() const { return n; }

private:
    char* p;
    std::size_t n;
};

struct Run {
    ulight_status status = ULIGHT_STATUS_OK;
    std::vector<Tok> tokens;
    std::vector<std::size_t> flushes; // sizes of the flushed chunks
    std::string html;
    std::string error;
    bool flush_protocol_ok = true;
    std::string flush_protocol_msg;
};

/// Runs ulight_source_to_tokens on an exact-size copy of `src`.
Run tokens(std::string_view src, ulight_lang lang, int flags = 0, std::size_t capacity = 512);
/// Runs ulight_source_to_html on an exact-size copy of `src`.
Run html(
    std::string_view src, ulight_lang lang, int flags = 0, std::size_t capacity = 512,
    std::size_t text_capacity = 1024, const char* tag = nullptr, const char* attr = nullptr
);
/// Like tokens() but insists on status OK (a failed expectation is a property failure).
std::vector<Tok> ok_tokens(std::string_view src, ulight_lang lang, int flags = 0, std::size_t capacity = 512);

const std::vector<ulight_lang>& all_langs(); // the 25 real languages
const char* lang_id(ulight_lang);
ulight_lang lang_by_id(std::string_view);

const char* type_name(unsigned); // short independent table name or "?"
bool type_known(unsigned);

std::string show(std::string_view src, const std::vector<Tok>& t);
std::string show_case(std::string_view src, ulight_lang lang, int flags);

// ---- generators

struct Corpus {
    std::vector<std::string> seeds, vocab;
};
const Corpus& corpus(ulight_lang);

/// Valid UTF-8 text of varied shape for `lang`.
std::string gen_source(Src& s, ulight_lang lang, std::size_t max = 400);
/// Appends one random valid code point, biased to interesting ones.
void gen_code_point(Src& s, std::string& out);
void put_utf8(std::string& out, std::uint32_t cp);
/// Breaks the UTF-8 encoding of `text` somewhere (result may, rarely, still be valid).
void corrupt_utf8(Src& s, std::string& text);
std::string gen_word(Src& s, std::size_t max = 8); // [a-z][a-z0-9]*
ulight_lang gen_lang(Src& s);

bool valid_utf8(std::string_view); // reference validator (Unicode table 3-7)

struct Cls_Hist {
    static std::string bucket(std::size_t n)
    {
        return n == 0 ? "0" : n < 4 ? "1-3" : n < 16 ? "4-15" : n < 64 ? "16-63" : n < 256 ? "64-255" : n < 1024 ? "256-1023" : ">=1024";
    }
};

} // namespace vp

#endif
