CORE = ['include/ulight/ulight.h', 'include/ulight/ulight.hpp', 'src/main/cpp/ulight.cpp', 'include/ulight/impl/highlighter.hpp']
LANGS = CORE + ['src/main/cpp/lang/*.cpp', 'include/ulight/impl/lang/*.hpp']
SAMPLED = 'Generated-input search: absence of violations among the generated cases, not a proof. '
GEN_TXT = ('every text (up to about 4000 code units; mixtures of language vocabulary, repository test files, mutated and '
           'nested fragments, arbitrary code points and control characters), every language, every flag combination')

prop('A01', 'Highlighting any text is total: it terminates with success',
     'For every text, language and flag combination, highlighting to tokens or to HTML terminates with the OK status without memory '
     'errors, undefined behaviour, hangs or aborts. Text that is malformed in the highlighted language is no exception.',
     ['inputs', 'configurations'], GEN_TXT,
     'The tests highlight a few hundred well-behaved files; a highlighter over arbitrary text fails on the combinations nobody wrote down.',
     LANGS, [('source_to_tokens', 'src/main/cpp/ulight.cpp'), ('highlighters', 'src/main/cpp/lang/')],
     'coverage-guided + structured random fuzzing under ASan/UBSan with internal assertions enabled',
     SAMPLED + 'AddressSanitizer, UBSan and the product\'s own assertions are the oracle; a CPU limit per case stands for non-termination.')
prop('A02', 'Malformed UTF-8 never breaks highlighting',
     'For every byte sequence, including truncated, overlong, surrogate and stray-continuation UTF-8, highlighting terminates with the OK '
     'status without memory errors, and the tokens it gives lie within the source, in order and without overlap.',
     ['inputs', 'configurations'], 'byte sequences obtained by breaking the encoding of generated source text, or entirely random bytes; all languages and flags',
     'No test feeds ill-formed UTF-8 to a highlighter; the places it can occur are unbounded.',
     LANGS + ['include/ulight/impl/unicode.hpp'], [('UTF-8 decoding', 'include/ulight/impl/unicode.hpp')],
     'encoding-mutation fuzzing under ASan/UBSan with an exact-size source buffer', SAMPLED + 'The source is an exact-size heap block, so over-reads by one byte are seen.')
prop('A03', 'Tokens are ordered, disjoint, non-empty, in range and whole characters',
     'The tokens reported for a text are non-empty, lie within it, appear in increasing order without overlapping, carry one of the '
     'published highlight types, and neither start nor end in the middle of a character.',
     ['inputs', 'configurations'], GEN_TXT,
     'The tests compare rendered HTML of fixed files, where a bad token shows only for those files.',
     LANGS, [('emit', 'include/ulight/impl/highlighter.hpp')],
     'structured random fuzzing with an invariant oracle over the token stream', SAMPLED)
prop('A04', 'The C++ interface gives exactly what the C interface gives',
     'For every configuration and text, the C++ wrapper reports the same tokens, the same HTML and the same status as the C interface '
     'with the same settings, and its accessors return what was set.',
     ['inputs', 'configurations'], 'generated sources, languages, flags, buffer sizes and element/attribute names, set in random order',
     'The tests use one of the two interfaces each; their agreement over all settings is not tested.',
     CORE, [('State', 'include/ulight/ulight.hpp')], 'differential testing of the two public interfaces over generated configurations', SAMPLED)
prop('A05', 'HTML output is a faithful rendering of the tokens',
     'The HTML is exactly the source text, escaped, with each token wrapped in one element that names its type; removing the elements and '
     'decoding the character references gives the source back. Element and attribute names are those configured.',
     ['inputs', 'configurations'], GEN_TXT + '; arbitrary element/attribute names',
     'The tests compare output for fixed files; escaping and gaps at every position and flush boundary are not covered.',
     CORE, [('ulight_source_to_html', 'src/main/cpp/ulight.cpp')],
     'differential against an independent renderer, plus HTML-decoding round trip', SAMPLED)
prop('A06', 'Output does not depend on the buffer sizes, and flushing follows the protocol',
     'For every size of the token and text buffers, the flushed pieces concatenate to the same tokens and the same HTML; pieces are '
     'non-empty, never larger than the buffer, and point into it.',
     ['inputs', 'configurations'], GEN_TXT + '; token capacities 1..64 and text capacities 1..300',
     'The tests use one large buffer; behaviour at flush boundaries depends on where in the source the boundary falls.',
     CORE + ['include/ulight/impl/buffer.hpp'], [('Non_Owning_Buffer', 'include/ulight/impl/buffer.hpp')],
     'metamorphic testing over buffer capacities', SAMPLED)
prop('A07', 'Coalescing merges adjacent equal tokens and changes nothing else',
     'With the coalescing flag, the tokens are exactly those without it after merging each run of adjacent tokens of equal type.',
     ['inputs', 'configurations'], GEN_TXT,
     'The flag is exercised by a handful of tests; it interacts with every emission site of every language and with nested languages.',
     LANGS, [('emit', 'include/ulight/impl/highlighter.hpp'), ('sub_buffer', 'include/ulight/impl/highlighter.hpp')],
     'metamorphic testing (merge of the plain tokens as the reference)', SAMPLED)
prop('A08', 'Highlighting is a pure function of source, language and options',
     'Repeating a call, reusing a state after other calls, placing the source elsewhere in memory, surrounding it with other bytes, or '
     'running concurrently on other threads with separate states gives the same result.',
     ['inputs', 'histories', 'schedules'], 'sequences of calls on shared states; sources at different addresses with different neighbours; up to 8 concurrent threads',
     'Each test makes one call on a fresh state.',
     LANGS, [('ulight_state', 'include/ulight/ulight.h')],
     'metamorphic testing over call histories, buffer placement and concurrent execution', SAMPLED + 'Threads are run by the OS scheduler; no schedule control.')
prop('A09', 'Invalid configurations are rejected before any output',
     'Whatever required setting is missing or contradictory, the call returns the documented error status with an error text and produces no '
     'output; after correcting the setting the same state works.',
     ['configurations', 'fault_sequences'], 'every combination of missing buffers, callbacks, source, language, names, with generated sources',
     'The tests check a few single-fault configurations, not combinations.',
     CORE, [('validation', 'src/main/cpp/ulight.cpp')], 'combinatorial configuration fuzzing against a reference table of the documentation', SAMPLED)
prop('A10', 'Memory functions: aligned, disjoint, initialised, null on failure, no leak',
     'Allocated blocks are usable in full, aligned as requested and disjoint; new states have the default configuration; a failed allocation '
     'gives null (or the corresponding error status while highlighting); and everything is released again.',
     ['histories', 'fault_sequences'], 'histories of up to 25 alloc/free/new/delete/highlight calls with allocation failures injected at generated points',
     'No test makes an allocation fail or frees out of order.',
     CORE, [('ulight_alloc', 'src/main/cpp/ulight.cpp'), ('ulight_new', 'src/main/cpp/ulight.cpp')],
     'stateful property-based testing with injected allocation failure', SAMPLED)
prop('A11', 'The language registry is consistent and lookups are total',
     'Looking up a language by name or by file path gives the documented language for every registered name or extension and none for '
     'every other string, in every variant of the lookup; display names and the listed languages agree with it.',
     ['inputs'], 'all registered names and extensions; generated near-misses (case, prefix, suffix, embedded NUL, separators, several dots), arbitrary strings',
     'The tests look up a few names; near misses and all path shapes are unbounded.',
     CORE, [('lang_list', 'src/main/cpp/ulight.cpp')], 'exhaustive over the registry plus random strings against a reference table', SAMPLED)
prop('A12', 'Highlight type names are stable, unique and convertible both ways',
     'Every published highlight type has one short and one long name, unequal to those of any other type, formed as documented, and every '
     'other number has none.',
     ['inputs'], 'all type numbers 0..65535 (exhaustively) and generated numbers',
     'No test relates the names to the numbers.',
     CORE, [('ulight_highlight_type_short_string', 'src/main/cpp/ulight.cpp')],
     'exhaustive plus random enumeration against an independent table', 'Exhaustive over the 16-bit range of type numbers; the reference table was written from the documentation.')
prop('A13', 'Deeply nested source needs no more of the call stack than any other',
     'However deeply constructs of any language are nested within each other in the source, highlighting (and the JSON parser) needs no '
     'more than a bounded amount of the call stack: beyond some fixed depth, nesting them any deeper does not make it need any more.',
     ['inputs'], 'any one to three constructs of any language (openers, closers, words, single characters), nested 400 to 600 times and four (if need be eight) times that, after various beginnings',
     'The tests nest a few levels; a stack overflow needs ten thousands, and each recursive construct has to be found.',
     CORE + ['src/main/cpp/lang'], [('ulight_source_to_tokens', 'src/main/cpp/ulight.cpp'), ('parse_json', 'src/main/cpp/lang/json.cpp')],
     'metamorphic property-based testing: the pages touched of a fresh stack, for two depths of the same generated nesting', SAMPLED)
prop('A14', 'Highlighting takes work proportional to the length of the source',
     'Highlighting a source (or parsing it as JSON) takes an amount of work which is bounded by its length times some constant for the language: '
     'repeating a part of any source four times as often makes it take about four times the work, not the square of that.',
     ['inputs'], 'any one to three constructs of any language (openers, closers, words, single characters), repeated 400 to 600 times, four, and sixteen times that, after various beginnings; '
     'exhaustively for each construct of a table in each language',
     'The tests highlight short files, where searching the rest of the source again from each character is no slower.',
     CORE + ['src/main/cpp/lang'], [('ulight_source_to_tokens', 'src/main/cpp/ulight.cpp'), ('parse_json', 'src/main/cpp/lang/json.cpp')],
     'metamorphic property-based testing: the number of basic blocks executed for the same generated repetition at several lengths', SAMPLED + ' Two classes of input are known findings.')
