#!/usr/bin/env python3
"""names.py LEMMA name...  -- prints a lemma that the member names are pairwise different"""
import sys, itertools
lem, names = sys.argv[1], sys.argv[2:]
pairs = list(itertools.combinations(names, 2))
print("pub proof fn %s() ensures %s" % (lem, ", ".join('"%s"@ != "%s"@' % p for p in pairs)))
print("{ " + " ".join('reveal_strlit("%s");' % n for n in names))
print("  assert(" + " && ".join('"%s"@.len() == %d' % (n, len(n)) for n in names) + ");")
out = []
for a, b in pairs:
    if len(a) == len(b):
        i = next(i for i in range(len(a)) if a[i] != b[i])
        out.append('assert("%s"@[%d] != "%s"@[%d]);' % (a, i, b, i))
print("  " + " ".join(out) + " }")
