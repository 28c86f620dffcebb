// Serves the native library to the JavaScript harness, over two FIFOs.
//   html LANG FLAGS TOKENS TEXT LEN\n<source>  ->  STATUS NCHUNKS\n{LEN\n<bytes>}  or  STATUS LEN\n<error>
//   lang LEN\n<name>                           ->  ID\n
//   list                                       ->  N COUNT\n{ID LEN\n<name>} {LEN\n<display name>}
//   types                                      ->  N\n{VALUE LONG SHORT\n}
#include <cstdio>
#include <string>
#include <string_view>
#include <vector>

#include "ulight/ulight.h"

namespace {

std::FILE* in;
std::FILE* out;

std::string read_bytes(std::size_t n)
{
    std::string s(n, '\0');
    if (n && std::fread(s.data(), 1, n, in) != n) {
        std::exit(1);
    }
    return s;
}

void put(std::string_view s)
{
    std::fprintf(out, "%zu\n", s.size());
    if (!s.empty()) {
        std::fwrite(s.data(), 1, s.size(), out);
    }
}

void html(unsigned lang, unsigned flags, std::size_t tokens, std::size_t text, std::size_t len)
{
    const std::string source = read_bytes(len);
    std::vector<ulight_token> tb(tokens);
    std::vector<char> xb(text);
    std::vector<std::string> chunks;
    ulight_state st;
    ulight_init(&st);
    st.source = source.data();
    st.source_length = source.size();
    st.lang = ulight_lang(lang);
    st.flags = ulight_flag(flags);
    st.token_buffer = tb.data();
    st.token_buffer_length = tb.size();
    st.text_buffer = xb.data();
    st.text_buffer_length = xb.size();
    st.flush_text_data = &chunks;
    st.flush_text = [](const void* d, char* p, std::size_t n) { static_cast<std::vector<std::string>*>(const_cast<void*>(d))->emplace_back(p, n); };
    const ulight_status status = ulight_source_to_html(&st);
    std::fprintf(out, "%d %zu\n", int(status), chunks.size());
    for (const std::string& c : chunks) {
        put(c);
    }
    put(st.error ? std::string_view(st.error, st.error_length) : std::string_view());
    ulight_destroy(&st);
}

} // namespace

int main(int, char** argv)
{
    in = std::fopen(argv[1], "rb");
    out = std::fopen(argv[2], "wb");
    char cmd[16];
    while (std::fscanf(in, "%15s", cmd) == 1) {
        const std::string_view c = cmd;
        if (c == "html") {
            unsigned lang, flags;
            std::size_t tokens, text, len;
            if (std::fscanf(in, "%u %u %zu %zu %zu", &lang, &flags, &tokens, &text, &len) != 5) {
                return 1;
            }
            std::fgetc(in);
            html(lang, flags, tokens, text, len);
        }
        else if (c == "lang") {
            std::size_t len;
            if (std::fscanf(in, "%zu", &len) != 1) {
                return 1;
            }
            std::fgetc(in);
            const std::string n = read_bytes(len);
            std::fprintf(out, "%d\n", int(ulight_get_lang(n.data(), n.size())));
        }
        else if (c == "list") {
            std::fprintf(out, "%zu %d\n", std::size_t(ulight_lang_list_length), int(ULIGHT_LANG_COUNT));
            for (std::size_t i = 0; i < ulight_lang_list_length; ++i) {
                std::fprintf(out, "%d ", int(ulight_lang_list[i].lang));
                put({ ulight_lang_list[i].name, ulight_lang_list[i].name_length });
            }
            for (int i = 0; i < int(ULIGHT_LANG_COUNT); ++i) {
                const ulight_string_view d = ulight_lang_display_name(ulight_lang(i));
                put({ d.text ? d.text : "", d.length });
            }
        }
        else if (c == "types") {
            std::string s;
            int n = 0;
            for (int i = 0; i < 256; ++i) {
                const ulight_string_view a = ulight_highlight_type_long_string(ulight_highlight_type(i));
                const ulight_string_view b = ulight_highlight_type_short_string(ulight_highlight_type(i));
                if (a.length) {
                    ++n;
                    s += std::to_string(i) + " " + std::string(a.text, a.length) + " " + std::string(b.text, b.length) + "\n";
                }
            }
            std::fprintf(out, "%d\n%s", n, s.c_str());
        }
        std::fflush(out);
    }
    return 0;
}
