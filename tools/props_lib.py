UNI = ['include/ulight/impl/unicode.hpp', 'include/ulight/impl/unicode_algorithm.hpp']
ASC = ['include/ulight/impl/ascii_algorithm.hpp', 'include/ulight/impl/ascii_chars.hpp', 'include/ulight/impl/algorithm/all_of.hpp', 'include/ulight/impl/strings.hpp']
NUM = ['include/ulight/impl/numbers.hpp', 'include/ulight/impl/parse_utils.hpp', 'include/ulight/impl/escapes.hpp', 'src/main/cpp/parse_utils.cpp']
LOCAL = 'The reference model is written in the harness from the definition, without the library\'s code. '

prop('U01', 'UTF-8 decoding accepts exactly well-formed UTF-8, at every entry point',
     'Every decoder (by iterator, by array, by view, with or without replacement, of prefixes of any length) yields the same scalar '
     'value and length on well-formed input, and reports an error (or U+FFFD, consuming at least one and never too many units) on every '
     'truncated, overlong, surrogate or out-of-range sequence.',
     ['inputs'], 'all first-two-byte combinations with every third byte (exhaustively); generated mixtures of well- and ill-formed sequences of any length',
     'The tests decode a few sequences; ill-formed UTF-8 has many classes and the decoders several entry points that must agree.',
     UNI, [('decode_and_length', 'include/ulight/impl/unicode.hpp')],
     'exhaustive enumeration of short sequences plus random strings against a reference decoder', SAMPLED + LOCAL)
prop('U02', 'UTF-8 encoding and decoding are inverse for every code point',
     'Encoding any scalar value gives its unique well-formed sequence of the announced length, which decodes to the same value; sequences '
     'of code points round-trip through every encoder and appender.',
     ['inputs'], 'all code points (exhaustively); generated sequences of them',
     'The tests encode a dozen code points.',
     UNI, [('encode8_unchecked', 'include/ulight/impl/unicode.hpp')],
     'exhaustive round trip over all code points, plus random sequences', 'Exhaustive over single code points; ' + LOCAL)
prop('U03', 'Searching text by code point is exact on well-formed and ill-formed text',
     'The find, find-if, length-if and view functions over UTF-8 give the position a decode-then-search over code points would give, for '
     'every text, including text with ill-formed sequences, and every predicate.',
     ['inputs'], 'generated byte strings with and without encoding errors, generated predicates and searched code points',
     'The tests use ASCII or a few fixed strings.',
     UNI, [('utf8::find_if', 'include/ulight/impl/unicode_algorithm.hpp')],
     'differential testing against decode-then-search', SAMPLED + LOCAL)
prop('U04', 'Character classes equal their Unicode and ASCII definitions',
     'Each predicate (XID, ASCII classes, digits of a base, surrogates, noncharacters, private use) and each case conversion agrees with '
     'its definition for every code point and code unit, so identifiers of Unicode letters are recognised whole.',
     ['inputs'], 'all 1114112 code points and 256 values beyond; all digit bases; generated identifier-shaped strings',
     'The tests sample a few characters per class.',
     ['src/main/cpp/chars.cpp', 'include/ulight/impl/ascii_chars.hpp', 'include/ulight/impl/unicode_chars.hpp'],
     [('Is_XID_Start', 'src/main/cpp/chars.cpp'), ('is_ascii_*', 'include/ulight/impl/ascii_chars.hpp')],
     'exhaustive enumeration against an independent Unicode database, plus random identifiers',
     'Exhaustive over code points; the XID reference is Python\'s Unicode 15.0 database (unassigned code points excluded; the four additions of 15.1 included).')
prop('U05', 'String searches, trims, line and blank-line splitting are exact',
     'Every ASCII search, trim, prefix and case-insensitive comparison gives what its definition gives; line, enclosed-block and '
     'blank-line matching give positions and lengths that lie within the text and cover it without gaps.',
     ['inputs'], 'pairs of generated strings with all line ending styles, blank characters, controls, and case changes',
     'The tests use a few short strings; line endings and edges combine freely.',
     ASC + ['include/ulight/impl/parse_utils.hpp', 'src/main/cpp/parse_utils.cpp'],
     [('ascii::find_if', 'include/ulight/impl/ascii_algorithm.hpp'), ('find_blank_line_sequence', 'src/main/cpp/parse_utils.cpp')],
     'property-based testing against naive reference implementations', SAMPLED + LOCAL)
prop('U06', 'Character sets behave as sets under every operation',
     'For every history of insertions, removals, unions, intersections, differences and complements, in compile-time or run-time form, '
     'membership, equality and enumeration agree with a mathematical set.',
     ['histories'], 'histories over three sets of 128 or 256 members, including ranges, complements and empty sets',
     'The tests check a handful of constants; set algebra must hold for all operands.',
     ['include/ulight/impl/charset.hpp'], [('Charset', 'include/ulight/impl/charset.hpp')],
     'stateful model-based testing against std::set', SAMPLED + LOCAL)
prop('U07', 'Number, digit and escape matching follow the literal grammar',
     'Matching a number reports the extent of the longest literal of the configured grammar with its prefix, digits, radix point, exponent '
     'and suffix in order and in range; digit runs, escapes and integer literals are matched, rejected or evaluated exactly.',
     ['inputs', 'configurations'], 'numbers assembled from known parts under generated options (prefixes, separators, exponents, suffixes) with generated context',
     'The tests fix a few literals of one grammar each; options and parts combine freely.',
     NUM, [('match_common_number', 'src/main/cpp/parse_utils.cpp'), ('match_digits', 'include/ulight/impl/parse_utils.hpp')],
     'generation of literals with known structure (constructive oracle), and differential against reference matchers', SAMPLED + LOCAL)
