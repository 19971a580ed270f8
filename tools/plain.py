#!/usr/bin/env python3
"""plain.py LEMMA text...  -- prints a lemma that these texts need no escape in JSON"""
import sys
lem, ts = sys.argv[1], sys.argv[2:]
print("pub proof fn %s() ensures %s" % (lem, ", ".join('plain("%s"@)' % t for t in ts)))
print("{")
for t in ts:
    print('    reveal_strlit("%s"); assert forall|i: int| 0 <= i < "%s"@.len() implies (#[trigger] "%s"@[i]) != \'"\' && "%s"@[i] != \'\\\\\' && "%s"@[i] as u32 >= 0x20 by { assert(%s); }' % (t, t, t, t, t, " || ".join("i == %d" % i for i in range(len(t)))))
print("}")
