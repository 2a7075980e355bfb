# Rewrites the table at the end of DESIGN.md: the planted bugs of each property, and which its check catches.
# usage: plant.py check > LOG; table.py LOG
import sys, re, collections
own = dict(re.match(r'(\S+): (CAUGHT|MISSED)', l).groups() for l in open(sys.argv[1]) if re.match(r'(\S+): (CAUGHT|MISSED) by own', l))
rows = collections.defaultdict(list)
for b, r in own.items(): rows[b.split('-')[0]].append(b.split('-', 1)[1] + ('' if r == 'CAUGHT' else ' (missed)'))
s = open('/verif/DESIGN.md').read().split('<!-- table -->')[0]
s += f"<!-- table -->\nAll {len(own)} planted bugs in seeded/, each run against the check of its property (quick, seed 1); {sum(v == 'CAUGHT' for v in own.values())} are caught by it.\n\n| check | catches |\n|---|---|\n"
s += ''.join(f"| {p} | {', '.join(sorted(rows[p]))} |\n" for p in sorted(rows))
open('/verif/DESIGN.md', 'w').write(s)
