"""writes the table of planted bugs into DESIGN.md"""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = {}
for i in sorted(os.listdir(HERE + '/seeded')):
    d.setdefault(json.load(open('%s/seeded/%s/meta.json' % (HERE, i)))['property'], []).append(i)
t = '| check | catches |\n|---|---|\n' + ''.join('| %s | %s |\n' % (k, ', '.join(v)) for k, v in sorted(d.items()))
s = open(HERE + '/DESIGN.md').read()
open(HERE + '/DESIGN.md', 'w').write(re.sub('<!-- table -->\n.*<!-- end -->', lambda m: '<!-- table -->\n' + t + '<!-- end -->', s, flags=re.S))
