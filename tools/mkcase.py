"""Writes harness/casetab.h: case counterparts of characters, from Python's Unicode data and the list of simple
mappings that pire's (older) table is known to contain.  argv[1]: lines 'char upper lower' as given by the library
when this table was made; only used to decide which of the Unicode mappings are old enough to be demanded."""
import sys, os
out = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness', 'casetab.h'), 'w')
# simple mappings that str.upper() replaces by longer ones (UnicodeData.txt, fields 12 and 13)
simple = {}
for base in (0x1f80, 0x1f90, 0x1fa0):
    for i in range(8):
        simple[base + i] = base + 8 + i
simple.update({0x1fb3: 0x1fbc, 0x1fc3: 0x1fcc, 0x1ff3: 0x1ffc})
rows = []
for l in open(sys.argv[1]):
    c, u, lo = map(int, l.split())
    if 0xd800 <= c < 0xe000:
        continue
    U, L = chr(c).upper(), chr(c).lower()
    eu = simple.get(c, ord(U) if len(U) == 1 else c)
    el = ord(L) if len(L) == 1 else c
    if c == 0x130:
        el = 0x69
    if (eu, el) == (c, c):
        assert (u, lo) == (c, c), hex(c)
        continue
    rows.append((c, eu, el, 1 if (u, lo) == (eu, el) else 0))
out.write('// made by tools/mkcase.py: character, its upper and lower case; 1 if the mapping is demanded, 0 if it is newer\n'
          '// than the library\'s table (then it may be known or not)\n#pragma once\n'
          'static const struct { unsigned c, upper, lower; int known; } CaseTab[] = {\n')
for i in range(0, len(rows), 6):
    out.write('\t' + ' '.join('{0x%x,0x%x,0x%x,%d},' % r for r in rows[i:i + 6]) + '\n')
out.write('};\n')
print(len(rows), sum(r[3] for r in rows), [hex(r[0]) for r in rows if not r[3]][:30])
