"""Generates harness/xid.inc from Python's own Unicode database (15.0): for every run of code points
with equal properties {first, last, xid_start, xid_continue}; unassigned code points are left out."""
import os, sys, unicodedata
H = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness', 'xid.inc')
rows = []
for c in range(0x110000):
    ch = chr(c)
    if unicodedata.category(ch) == 'Cn' and not (c & 0xFFFE == 0xFFFE or 0xFDD0 <= c <= 0xFDEF):
        continue
    start = ch.isidentifier() and ch != '_'
    # Unicode 15.1 added these four to Other_ID_Continue, and the library follows it.
    cont = ('a' + ch).isidentifier() or c in (0x200C, 0x200D, 0x30FB, 0xFF65)
    if rows and rows[-1][1] == c - 1 and rows[-1][2:] == [start, cont]:
        rows[-1][1] = c
    else:
        rows.append([c, c, start, cont])
with open(H, 'w') as f:
    f.write('// Generated by tools/gen_xid.py from Python unicodedata %s.\n' % unicodedata.unidata_version)
    f.write('struct Xid_Row { unsigned first, last; bool start, cont; };\ninline constexpr Xid_Row xid_rows[] {\n')
    for r in rows:
        f.write('{0x%X,0x%X,%d,%d},\n' % tuple(r))
    f.write('};\n')
print(len(rows))
