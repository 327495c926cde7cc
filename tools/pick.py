#!/usr/bin/env python3
"""pick.py FILE ITEM...: print the source text of the named functions (development and driver builds).
Exits 1 if one is missing, so that a driver can leave the cases for it out."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rusttok
text = open(sys.argv[1]).read()
T = rusttok.lex(text)
out = []
for name in sys.argv[2:]:
    hits = [i for i in range(len(T) - 1) if T[i].text == 'fn' and T[i + 1].text == name]
    if len(hits) != 1: sys.exit(1)
    i = j = hits[0]
    while T[j].text != '{':
        j = rusttok.match_close(T, j) + 1 if T[j].text in ('(', '[') else j + 1
    out.append('#[allow(dead_code)] pub ' + text[T[i].start:T[rusttok.match_close(T, j)].end])
print('\n'.join(out))
