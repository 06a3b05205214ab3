"""rewrites the table of planted bugs at the end of DESIGN.md"""
import glob, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(HERE, 'DESIGN.md')
t = open(p).read().split('| bug |')[0].rstrip() + '\n\n| bug | check | needs | breaks |\n|---|---|---|---|\n'
for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    t += '| %s | %s | %s | %s |\n' % (os.path.basename(os.path.dirname(f)), m['property'], m['needs'], m['what_it_breaks'])
open(p, 'w').write(t)
