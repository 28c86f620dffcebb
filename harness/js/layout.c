/* Compiled for wasm32 to obtain the layout that the JavaScript interface has to follow. */
#include "ulight/ulight.h"
#define O(m) __builtin_offsetof(ulight_state, m)
const unsigned vp_layout[] = {
    sizeof(ulight_state), _Alignof(ulight_state),
    O(source), O(source_length), O(lang), O(flags), O(token_buffer), O(token_buffer_length), O(flush_tokens_data), O(flush_tokens),
    O(html_tag_name), O(html_tag_name_length), O(html_attr_name), O(html_attr_name_length), O(text_buffer), O(text_buffer_length),
    O(flush_text_data), O(flush_text), O(error), O(error_length),
    sizeof(ulight_token), _Alignof(ulight_token),
    sizeof(ulight_lang_entry), __builtin_offsetof(ulight_lang_entry, name), __builtin_offsetof(ulight_lang_entry, name_length),
    __builtin_offsetof(ulight_lang_entry, lang),
    sizeof(ulight_string_view), __builtin_offsetof(ulight_string_view, text), __builtin_offsetof(ulight_string_view, length),
};
