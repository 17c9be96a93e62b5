"""Regenerates DESIGN.md from tools/design_head.md, the modules in vf/props, tools/design_tail.md and tools/planted.json."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, '/repo')
man = {c['property']: c for c in json.load(open(os.path.join(V, 'MANIFEST.json')))['checks']}
out = [open(os.path.join(V, 'tools', 'design_head.md')).read()]
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)
    m = importlib.import_module('vf.props.' + p['id'].lower())
    doc = ' '.join((m.__doc__ or '').split()[1:])
    out.append('### %s %s\n' % (p['id'], p['title']))
    out.append('*Decided by* %s. %s\n' % (man[p['id']]['technique'].split(': ', 1)[1], m.RULE[0].upper() + m.RULE[1:] + '.'))
    out.append('*Workloads* (cases quick/thorough): ' + ', '.join('%s %d/%d' % (k, a, b) for k, (_, a, b) in m.FAMILIES.items()) + '.\n')
    out.append('*Situations the monitors must have seen*: ' + ', '.join(m.REQUIRED_EVENTS) + '.\n')
    out.append('*Assumes*: ' + '; '.join(m.ASSUMPTIONS) + '.\n')
out.append(open(os.path.join(V, 'tools', 'design_tail.md')).read())
out.append('| planted bug | needs | caught by |\n|---|---|---|')
res = json.load(open(os.path.join(V, 'tools', 'planted.json')))
for i in sorted(os.listdir(os.path.join(V, 'seeded'))):
    meta = json.load(open(os.path.join(V, 'seeded', i, 'meta.json')))
    out.append('| %s | %s | %s |' % (i, meta['needs'], res.get(i, meta['property'])))
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
