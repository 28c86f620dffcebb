def lang(id, name, files, elements, why_extra='', note=''):
    prop(id, '%s highlighting follows its lexical grammar' % name,
         'For every sequence of %s lexical elements (%s), however arranged and separated, each element is highlighted whole, exactly once and '
         'with its defined types; an element never swallows or splits its neighbours, and malformed elements stay confined.' % (name, elements),
         ['inputs'], 'documents of up to about 15 generated elements with generated content and separators, nested where the grammar nests; malformed and unterminated elements among them',
         'The tests compare a few fixed files per language; element contents, neighbours and separators combine without bound.',
         ['src/main/cpp/lang/%s.cpp' % f for f in files] + ['include/ulight/impl/lang/%s.hpp' % f for f in files] + ['src/main/cpp/parse_utils.cpp', 'include/ulight/impl/escapes.hpp'],
         [('Highlighter', 'src/main/cpp/lang/%s.cpp' % files[0])],
         'grammar-based generation of documents whose tokens are known by construction (constructive oracle), shrinking to a minimal document',
         SAMPLED + 'The element grammar and the type of each element are a model in the harness, written from the language definition and the published highlight types.' + note)


lang('L08', 'Java', ['java'], 'keywords, identifiers, annotations, operators, numbers, characters, strings, text blocks, comments')
lang('L09', 'Kotlin', ['kotlin'], 'keywords, plain and backtick identifiers, annotations, operators, numbers, characters, strings with nested templates, nested comments')
lang('L10', 'Rust', ['rust'], 'keywords, plain and raw identifiers, macros, lifetimes, labels, punctuation, numbers, characters, plain, byte, C and raw strings, nested comments')
lang('L07', 'Python', ['python'], 'keywords, identifiers, decorators, operators, numbers, prefixed, plain, raw, formatted and triple-quoted strings with escapes, comments')
lang('L11', 'Lua', ['lua'], 'keywords, identifiers, operators, numbers, quoted strings with escapes, long strings of any level, line and long comments')
lang('L15', 'Bash', ['bash'], 'commands, arguments and options of quoted, escaped and plain parts, variables, parameter, command and arithmetic substitutions nested in each other, redirections, process substitutions, subshells, comments')
lang('L16', 'NASM', ['nasm'], 'labels, instructions, jumps, registers, types, operators, numbers with prefix or base suffix, verbatim and backquoted strings, macro lines, comments')
lang('L05', 'C and C++', ['cpp'], 'keywords of either language, identifiers, digraphs and other symbols, numbers, characters, strings with prefixes, escapes and suffixes, raw strings, directives, header names, spliced lines, comments')
lang('L06', 'JavaScript, JSX and TypeScript', ['js'], 'keywords of either language, identifiers, private names, operators, numbers, strings, nested templates, regular expressions in all positions that allow one, JSX elements with attributes, references and embedded code, comments')
lang('L12', 'CSS', ['css'], 'selectors, combinators, at-rules, nested rules, declarations, names with escapes, numbers with units, hashes, functions, quoted and unquoted URLs, strings, comments')
lang('L13', 'HTML', ['html'], 'tags, attributes with quoted, unquoted and no value, character references, comments, document types, CDATA, escapable raw text, scripts and styles highlighted as JavaScript and CSS')
lang('L14', 'XML', ['xml'], 'the XML declaration, elements, attributes, references, comments, processing instructions, CDATA, document type declarations with every kind of markup declaration')
lang('L17', 'LLVM IR', ['llvm'], 'keywords and types, local, global and quoted names, labels, metadata, signed, floating-point and hexadecimal numbers of every prefix, strings with escapes, line and block comments')
lang('L18', 'YAML', ['yaml'], 'documents and directives, nested block mappings and sequences (compact and not), flow collections, plain, quoted and block scalars with their indicators, folded lines, node properties, aliases, numbers, null and Booleans, comments in every position')
lang('L04', 'JSON', ['json'], 'objects, arrays, property names, strings with escapes, numbers of every part, the three names, comments, misspelt names, invalid escapes')
lang('L01', 'Diff', ['diff'], 'headings of files and hunks, separators, deleted, inserted, modified and common lines, and lines that resemble others', note=' A deleted line that begins with two hyphens and a space is, as in the tests, taken for a heading.')
lang('L02', 'TeX', ['tex'], 'commands, single-character escapes of any character, brackets, special characters, text')
lang('L03', 'EBNF', ['ebnf'], 'rule names of several words and with hyphens, nonterminals, terminal strings, special sequences, repetitions, exceptions, brackets in either representation, comments, characters that are not allowed')
lang('L19', 'Markdown', ['markdown'], 'headings, thematic breaks, lists, nested block quotes, indented and fenced code, comments over several lines; code spans, emphasis, links, images, autolinks, references, escapes nested in each other', note=' Where the repository pins a simplification of CommonMark (unbalanced parentheses in destinations, code spans across link ends), documents avoid it.')
lang('L20', 'COWEL', ['cowel'], 'text with escapes of every kind, directives, blocks, groups with named, quoted, positional and forwarded members, calls, numbers, strings, functions, expression and line splices, comments')
