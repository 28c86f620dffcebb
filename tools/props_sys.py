JSN = ['include/ulight/json.hpp', 'src/main/cpp/lang/json.cpp']

prop('J01', 'The JSON parser accepts exactly the JSON grammar',
     'Parsing reports success for every text of the JSON grammar (with comments where they are enabled) and failure for every other '
     'text, whatever its size and nesting, under every parsing option, without reading outside the text.',
     ['inputs', 'configurations'], 'generated valid texts, texts with random damage, sequences of JSON-like pieces; nesting up to 200 000 levels; all parsing options',
     'The tests parse a few documents; acceptance must be exact for every text.',
     JSN, [('parse_json', 'src/main/cpp/lang/json.cpp')],
     'differential testing against an independent RFC 8259 recognizer', SAMPLED + 'The recognizer is written in the harness, without recursion, from RFC 8259.')
prop('J02', 'JSON parsing reports every value, property and comment, in order',
     'For every well-formed text, the visitor receives exactly the events of the document in document order: values, strings with literal '
     'parts and escapes (decoded as requested), numbers, punctuation of objects and arrays, and comments, each with its text and position.',
     ['inputs', 'configurations'], 'documents generated together with their events, of any nesting, spacing, comment placement and escapes; all parsing options',
     'The tests compare the events of a few documents; contents, options and neighbours combine freely.',
     JSN, [('JSON_Visitor', 'include/ulight/json.hpp')],
     'generation of documents with known events (constructive oracle)', SAMPLED + 'The event model is the documented visitor interface.')
prop('J03', 'JSON numbers have their exactly rounded value, wherever they end',
     'The value reported for a number is the double nearest to its decimal text (zero or infinity out of range), independent of what '
     'precedes or follows the number in the text or in memory.',
     ['inputs'], 'printed doubles of any bit pattern, numbers halfway between doubles, extreme exponents, up to 60 digits on either side; followed by generated bytes beyond the end of the text',
     'The tests parse a few numbers; correct rounding and exact extents must hold for all.',
     JSN, [('parse_number', 'src/main/cpp/lang/json.cpp')],
     'differential testing against std::from_chars on an exact copy, in memory bounded by the address sanitizer', SAMPLED)
prop('J04', 'JSON syntax errors are reported where and as what they are',
     'For every malformed text, the visitor is told about an error of an applicable kind, at a position at which the text stops being a '
     'prefix of a valid one; positions have the right line and column; everything before the error has been reported as in a valid text.',
     ['inputs', 'configurations'], 'valid texts with random damage and sequences of JSON-like pieces, over several lines; all parsing options',
     'The tests check two error cases; malformed texts are unbounded.',
     JSN, [('JSON_Error', 'include/ulight/json.hpp')],
     'differential testing against an independent recognizer which tracks the acceptable errors and the range of their position', SAMPLED + 'Where the documentation leaves the kind of error open, a set of kinds is acceptable.')
prop('B01', 'Output buffers deliver everything appended, in order and exactly once',
     'For every history of appending single elements, ranges of any type and size, in-place construction, clearing and flushing, what a '
     'buffer passes to its flush function, concatenated, equals what was appended; a flush is never empty and never exceeds the capacity.',
     ['histories'], 'histories over every capacity from one element and over trivial, converting and move-only-resource element types',
     'The tests append a few chunks; which operation meets a full buffer depends on the history.',
     ['include/ulight/impl/buffer.hpp', 'include/ulight/impl/algorithm/copy.hpp'], [('Non_Owning_Buffer', 'include/ulight/impl/buffer.hpp')],
     'stateful model-based testing against a list of the appended elements', SAMPLED)
prop('B02', 'Function references call exactly the function they were bound to',
     'For every history of binding, copying, assigning, converting, swapping and resetting function references, a call reaches the callable '
     'bound last, with the arguments forwarded and the result returned, and emptiness is reported exactly.',
     ['histories'], 'histories over several references and every kind of callable (functions, const and mutable objects, bound constants, entities)',
     'The tests bind a few lambdas; aliasing between copies depends on the history.',
     ['include/ulight/function_ref.hpp'], [('Function_Ref', 'include/ulight/function_ref.hpp')],
     'stateful model-based testing against the bound callables', SAMPLED)
prop('B03', 'Algorithm, string and memory helpers agree with their standard counterparts',
     'The minimum and maximum of any number of arguments are the first least and first greatest of them; copying ranges converts every element '
     'exactly as an assignment would, between any two types and within one array; the predicates over ranges and strings and the memory resource '
     'over the global allocation functions behave as those of the standard library.',
     ['inputs', 'histories'], 'random ranges of ten pairs of element types, up to six arguments, texts, and histories of allocations of any size and alignment',
     'No test uses them other than through the highlighters; the shortcut for bitwise copies depends on the types.',
     ['include/ulight/impl/algorithm', 'include/ulight/impl/strings.hpp', 'include/ulight/impl/memory.hpp'],
     [('copy', 'include/ulight/impl/algorithm/copy.hpp'), ('min', 'include/ulight/impl/algorithm/min_max.hpp'), ('Global_Memory_Resource', 'include/ulight/impl/memory.hpp')],
     'differential property-based testing against the standard library', SAMPLED)
prop('S01', 'Edit scripts turn one sequence into the other with minimal edits',
     'Applying the edit script computed for two sequences to the first gives the second; the script keeps as many elements as a longest '
     'common subsequence has, for every pair of sequences, for lines as for any other element type.',
     ['inputs'], 'pairs of generated sequences over small and large alphabets, the second often an edit of the first',
     'The tests diff a few pairs.',
     ['include/ulight/impl/string_diff.hpp'], [('shortest_edit_script', 'include/ulight/impl/string_diff.hpp')],
     'differential testing against the longest-common-subsequence recurrence, plus application of the script', SAMPLED)
prop('S02', 'Printed diffs describe both texts and can be applied',
     'For every pair of texts and every context size, the printed unified diff has hunk headers whose ranges match their lines, contains the '
     'requested context and no more, and applying it to the first text gives the second; colors do not change the text.',
     ['inputs', 'configurations'], 'pairs of texts of generated lines, context sizes, with and without color',
     'The tests print no diffs over generated texts.',
     ['include/ulight/impl/string_diff.hpp'], [('print_diff', 'include/ulight/impl/string_diff.hpp')],
     'round trip through an independent parser and applier of unified diffs', SAMPLED)
prop('F01', 'Files are read completely, validated, and closed exactly once',
     'Loading a file yields exactly its bytes (or code units), appended to what the caller had, for every size; errors of opening, reading '
     'and encoding are told apart; for every history of moves, swaps, releases and closes each handle is closed once and none leaks.',
     ['inputs', 'histories', 'faults'], 'files of generated sizes around the block size, with valid and invalid encodings; missing, unreadable, overlong and directory paths; histories over three handles',
     'The tests read one file.',
     ['include/ulight/impl/io.hpp', 'src/main/cpp/io.cpp'], [('file_to_bytes_chunked', 'src/main/cpp/io.cpp'), ('Unique_File', 'include/ulight/impl/io.hpp')],
     'model-based testing on real files in a scratch directory, with the open descriptors of the process counted', SAMPLED)
prop('F02', 'The command-line program prints what the library yields, or says it failed',
     'For every input file, ulight-cli writes exactly the HTML the library produces for the language of the file name, to the named output '
     'or the standard output, and exits with success; otherwise it exits with failure and a message.',
     ['inputs', 'faults'], 'sources of every language and length, invalid encodings, unknown extensions, unwritable and full outputs',
     'The tests never run the program.',
     ['src/main/cpp/main.cpp'], [('main', 'src/main/cpp/main.cpp')],
     'differential testing of the program, run as a process in a scratch directory, against the library', SAMPLED)
WEB = ('The WebAssembly module itself cannot be built here (no Emscripten); a stand-in with real WebAssembly memory and function table, in the layout '
       'the header has on wasm32, and the native library behind it takes its place. ')
prop('W01', 'The JavaScript interface yields what the library yields, and frees its memory',
     'For every text, language and history of calls, toHtml returns exactly the HTML the library produces, and languages are listed, found and '
     'named as in the library, while memory grows at any point; failures are thrown for what they are; every allocation is freed once, as allocated.',
     ['inputs', 'histories', 'faults'], 'histories of calls on one or two instances; texts as strings (with lone surrogates) and as bytes, up to several times the buffer size; '
     'known and unknown languages; memory growth in and allocation failure of any allocation',
     'The tests never run the JavaScript interface; where text is flushed and memory grows depends on the input.',
     ['www/js/ulight.js', 'src/main/wasm/f_i32_i32_i32_to_void.wasm', 'include/ulight/ulight.h'], [('UlightWasm', 'www/js/ulight.js')],
     'stateful testing against the native library, with memory growth and allocation failures injected', SAMPLED + WEB)
prop('W02', 'The live editor shows the highlighted text and remembers every setting',
     'After every history of typing, indenting, unindenting, breaking lines, choosing languages, themes and layouts, and reloading, the page shows '
     'the HTML of the current text in the current language, that HTML, and their line numbers; keys change only indentation and line breaks and keep the '
     'cursor at its character; everything chosen is restored.',
     ['histories'], 'histories of up to 15 user actions with any selection, including reloads with changed color preference',
     'The tests never run the page; the effect of a key depends on text, selection and history.',
     ['www/js/live_edit.js', 'www/js/live_edit_core.js', 'www/js/ulight.js', 'www/index.html'], [('onCodeInput', 'www/js/live_edit.js'), ('setEditorVertical', 'www/js/live_edit_core.js')],
     'stateful model-based testing of the page in a simulated browser', SAMPLED + WEB + 'The browser (elements, events, storage, text area) is simulated.')
prop('T01', 'Generated style sheets style every highlight type as the theme says',
     'For every valid theme and all options, the generated style sheet gives every highlight type exactly the styles its theme sets for it and its parent '
     'types, in the right color scheme and below the right theme attribute or class, and nothing else; invalid themes are rejected without output.',
     ['inputs', 'configurations'], 'themes with any keys, styles, palettes (with references) and variants, invalid ones with seven kinds of error; files and directories; all options',
     'The tests never run the generator; types, parents and palettes combine freely.',
     ['scripts/theme-to-css.cjs', 'include/ulight/ulight.hpp', 'themes/ulight-theme.schema.json'], [('doGenerateCss', 'scripts/theme-to-css.cjs')],
     'generated themes, with the computed styles of a small CSS implementation compared to the theme', SAMPLED + 'Uses the yargs package installed in the sandbox.')
