#!/usr/bin/env python3
"""Development tool: create / re-verify a planted bug under /verif/seeded.

plant.py new SPEC.py   SPEC defines ID, PROP, NEEDS, BREAKS, EDITS=[(file,old,new)], DEMO (C++), optional DEMO_SH, FILES
plant.py check ID...   apply each patch in /repo, build, run tests, demo and check; then undo
"""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
SH = '''#!/bin/bash
# Exits 0 iff the property holds for the demonstrated input. Run with cwd /repo after the build.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
g++-13 -std=c++23 -O0 -g -w %s-Iinclude -o "$tmp/demo" "$here/demo.cpp" _build/libulight.a -pthread || exit 3
cd "$tmp" && timeout 60 ./demo
'''


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def build():
    r = sh(['bash', '/opt/vp/build.sh'])
    return r.returncode == 0, r.stdout[-1500:]


def tests():
    sh(['timeout', '-k', '5', '400', 'bash', '/opt/vp/test.sh', '/tmp/plant-t.json'])
    b = json.load(open('/opt/vp/BASELINE.json')); t = json.load(open('/tmp/plant-t.json'))
    p = set(t['passed'])
    return [x for x in b['stable'] if x not in p]


def clean():
    subprocess.check_call(['git', '-C', R, 'checkout', '-q', '--', '.'])


def check(ids, quick=False):
    bad = 0
    for i in ids:
        d = os.path.join(V, 'seeded', i)
        meta = json.load(open(os.path.join(d, 'meta.json')))
        out = []
        assert not sh(['git', '-C', R, 'status', '--porcelain']).stdout.strip()
        a = sh(['git', '-C', R, 'apply', os.path.join(d, 'patch.diff')])
        if a.returncode:
            print(i, 'DOES NOT APPLY', a.stdout[:300]); bad += 1; continue
        try:
            ok, log = build()
            out.append('build ' + ('ok' if ok else 'FAIL ' + log))
            f = tests() if ok else ['-']
            out.append('tests ' + ('ok' if not f else 'FAIL %s' % f[:3]))
            r = sh(['bash', os.path.join(d, 'demo.sh')], cwd=R)
            out.append('demo patched %d' % r.returncode)
            fine = ok and not f and r.returncode not in (0, 3, 126, 127)
            if not fine:
                out.append(r.stdout[-300:])
            if ok:
                c = sh([sys.executable, 'run.py', meta['property'], 'quick'], cwd=V, env=dict(os.environ, VERIF_SEED='1'))
                hit = c.returncode == 1 and ('VIOLATION property=' + meta['property']) in c.stdout
                out.append('CAUGHT' if hit else 'MISSED (exit %d) %s' % (c.returncode, c.stdout[-200:]))
        finally:
            clean()
        if not quick:
            ok, _ = build()
            r = sh(['bash', os.path.join(d, 'demo.sh')], cwd=R)
            out.append('demo clean %d %s' % (r.returncode, '' if r.returncode == 0 else r.stdout[-300:]))
        print(i, meta['property'], '|', ' | '.join(out), flush=True)
    if quick:
        build()


def new(spec):
    g = {}
    exec(open(spec).read(), g)
    d = os.path.join(V, 'seeded', g['ID'])
    os.makedirs(d, exist_ok=True)
    assert not sh(['git', '-C', R, 'status', '--porcelain']).stdout.strip()
    try:
        for f, a, b in g['EDITS']:
            p = os.path.join(R, f)
            s = open(p).read()
            assert s.count(a) == 1, (f, s.count(a), a)
            open(p, 'w').write(s.replace(a, b))
        open(os.path.join(d, 'patch.diff'), 'w').write(subprocess.check_output(['git', '-C', R, 'diff'], text=True))
    finally:
        clean()
    if 'DEMO' in g:
        open(os.path.join(d, 'demo.cpp'), 'w').write(COMMON + g['DEMO'] if g.get('USE_COMMON', True) else g['DEMO'])
    for n, t in g.get('FILES', {}).items():
        open(os.path.join(d, n), 'w').write(t)
    open(os.path.join(d, 'demo.sh'), 'w').write(g.get('DEMO_SH', SH % g.get('CXXFLAGS', '')))
    json.dump({'property': g['PROP'], 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']},
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    check([g['ID']])


COMMON = r'''#include <cstdio>
#include <cstdlib>
#include <string>
#include <string_view>
#include <vector>
#include "ulight/ulight.h"
using std::string; using std::string_view;
struct Out { std::vector<ulight_token> t; string s; };
static void on_t(const void* d, ulight_token* p, size_t n) { auto& o = *(Out*)d; o.t.insert(o.t.end(), p, p + n); }
static void on_s(const void* d, char* p, size_t n) { ((Out*)d)->s.append(p, n); }
static Out run(string_view src, const char* lang, int flags = 0, size_t tcap = 1024, size_t scap = 4096, bool html = true)
{
    Out o; std::vector<ulight_token> tb(tcap); std::vector<char> sb(scap);
    ulight_state st; ulight_init(&st);
    st.source = src.data(); st.source_length = src.size(); st.lang = ulight_get_lang(lang, string_view(lang).size());
    st.flags = ulight_flag(flags); st.token_buffer = tb.data(); st.token_buffer_length = tcap;
    st.flush_tokens = on_t; st.flush_tokens_data = &o; st.text_buffer = sb.data(); st.text_buffer_length = scap;
    st.flush_text = on_s; st.flush_text_data = &o;
    if (ulight_source_to_tokens(&st) != ULIGHT_STATUS_OK) { std::puts("token status"); std::exit(9); }
    if (html && ulight_source_to_html(&st) != ULIGHT_STATUS_OK) { std::puts("html status"); std::exit(9); }
    return o;
}
static string name(unsigned t) { auto v = ulight_highlight_type_short_string(ulight_highlight_type(t)); return string(v.text, v.length); }
static string show(string_view src, const Out& o) { string r; for (auto& t : o.t) { r += name(t.type) + "[" + string(src.substr(t.begin, t.length)) + "] "; } return r; }
static int expect(const string& got, const string& want) { if (got == want) return 0; std::printf("got:  %s\nwant: %s\n", got.c_str(), want.c_str()); return 1; }
'''

if __name__ == '__main__':
    if sys.argv[1] == 'new':
        for s in sys.argv[2:]:
            new(s)
    else:
        ids = [a for a in sys.argv[2:] if a != '-q'] or sorted(os.listdir(os.path.join(V, 'seeded')))
        check(ids, '-q' in sys.argv)
