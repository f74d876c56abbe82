"""finding.py fixed|known PROPERTY TEXT [--commit C] [--instance RE] [--label RE]"""
import argparse
import json
import os
a = argparse.ArgumentParser()
a.add_argument('status'); a.add_argument('prop'); a.add_argument('text')
a.add_argument('--commit'); a.add_argument('--instance', default='.*'); a.add_argument('--label', default='.*')
o = a.parse_args()
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
d = json.load(open(p))
if o.status == 'fixed':
    c = o.commit or os.popen('git -C /repo log -1 --format=%h').read().strip()
    d['findings'].append(dict(property=o.prop, status='fixed', commit=c,
                              what='fixed: property=%s %s %s' % (o.prop, c, o.text)))
else:
    d['findings'].append(dict(property=o.prop, status='known', instance=o.instance, label=o.label, what=o.text))
with open(p, 'w') as f:
    f.write('{"findings": [\n' + ',\n'.join(' ' + json.dumps(x) for x in d['findings']) + '\n]}\n')
