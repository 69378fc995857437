#!/usr/bin/env python3
"""replay.py <replay file>: builds the driver from /repo as it is now and runs the operations of a reported violation again."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf

r = json.load(open(sys.argv[1]))
d = r['detail']
print('property', r['property'], '-', r['what'])
if isinstance(d, dict) and 'group' in d:
    obs = vf.drive_one(vf.build(d['area'], vf.TFLAGS), [tuple(d['group'])])
    for i, line in enumerate(d['group'][2]):
        print('%s %s' % ('=>' if i == d['step'] else '  ', line[:300]))
        print('      ', json.dumps(obs[i])[:1200] if i < len(obs) else '(not reached)', json.dumps(obs[-1]) if i >= len(obs) else '')
    print('specified at that step:', json.dumps(d['specified'])[:2000])
    sys.exit(0)
if not isinstance(d, dict) or 'protocol' not in d:
    print(d)
    sys.exit(0)
obs = vf.drive_one(vf.build(d['area']), d.get('before', []) + [d['protocol']])
for i, line in enumerate(d['protocol']):
    print('%s %s' % ('=>' if i == d['step'] else '  ', line[:300]))
    print('      ', json.dumps(obs[i])[:1200] if i < len(obs) else '(not reached)')
print('specified at that step:', json.dumps(d.get('specified', 'see the trace specification ' + str(d.get('specification'))))[:2000])
