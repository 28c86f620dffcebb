"""Development aid: dumps a language's token table into harness/kw/<lang>.inc (reviewed by hand afterwards; the checks use only
the committed copy, never the product's table)."""
import re, sys, os
H = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness', 'kw')
R = os.environ.get('VP_REPO', '/repo')
for lang in sys.argv[1:]:
    src = open('%s/include/ulight/impl/lang/%s.hpp' % (R, lang)).read()
    rows = re.findall(r'^    F\(\s*(\w+),\s*"((?:[^"\\]|\\.)*)",\s*(\w+)(?:,\s*([\w| ]+))?\)', src, re.M)
    with open(os.path.join(H, lang + '.inc'), 'w') as f:
        for name, words in (('kws', True), ('puncs', False)):
            f.write('constexpr Kw %s[] {\n' % name)
            for id_, code, ty, extra in rows:
                if bool(re.match(r'[A-Za-z_]', code)) == words:
                    f.write('    { "%s", H(%s) },%s\n' % (code, ty.rstrip('_').upper(), ' // ' + extra if extra else ''))
            f.write('};\n')
    print(lang, len(rows))
