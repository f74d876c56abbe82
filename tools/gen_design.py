"""writes DESIGN.md: the text below, the stated bounds of every check (from checks/*.py) and the table of planted bugs
(from seeded/*/meta.json)"""
import glob
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

INTRO = open(os.path.join(HERE, 'tools', 'design_intro.md')).read()
END = open(os.path.join(HERE, 'tools', 'design_end.md')).read()
METHOD = {}
cur = None
for line in open(os.path.join(HERE, 'tools', 'design_methods.md')):
    if line.startswith('## '):
        cur = line[3:].strip()
        METHOD[cur] = ''
    elif cur:
        METHOD[cur] += line

out = [INTRO.rstrip(), '']
out += ['## 4. Per property', '']
for l in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    out += ['### %s %s' % (i, p['title']), '']
    out += [METHOD[i].strip(), '']
    f = os.path.join(HERE, 'checks', i.lower() + '.py')
    if os.path.isfile(f):
        m = importlib.import_module('checks.' + i.lower())
        quick = [x for x in m.INSTANCES if x.tier == 'quick']
        out += ['- *Bounds:* ' + m.BOUNDS + '.', '- *Outside:* ' + m.OUTSIDE + '.',
                '- *Instances:* %d quick, %d more in the thorough tier.' % (len(quick), len(m.INSTANCES) - len(quick)), '']
out += [END.rstrip(), '', '| planted bug | property | what it breaks | needs |', '|---|---|---|---|']
for d in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    m = json.load(open(d))
    out.append('| %s | %s | %s | %s |' % tuple(' '.join(str(x).split()).replace('|', '/') for x in (
        os.path.basename(os.path.dirname(d)), m['property'], m['what_it_breaks'], m['needs'])))
open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
print(len(out), 'lines')
