"""Rewrites sections 5 and 6 of DESIGN.md (seeded changes, contracts) from seeded/ and contracts/."""
import glob, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get('VF_REPO', '/repo'))
import check
cs = check.load_contracts()
out = ['', '## 5. Seeded changes', '',
       'Each breaks the property it names, builds and passes the repository\'s tests; its demonstration fails with it. "By" is the check that reports it '
       '(every one is caught by the check of its own property; many also by neighbouring checks).', '',
       '| change | what it breaks | needs | by |', '|---|---|---|---|']
for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    d = json.load(open(f))
    cell = lambda s: ' '.join(str(s).split()).replace('|', '\\|')
    out.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), cell(d['what_it_breaks']), cell(d['needs']), d.get('caught_by', d['property'])))
out += ['', '## 6. Contracts', '', '| contract (module) | properties | reading | configurations | functions |', '|---|---|---|---|---|']
for c in sorted(cs, key=lambda c: (c.fn.__module__, c.name)):
    out.append('| %s (%s) | %s | %s | %d | %s |' % (c.name, c.fn.__module__.split('.')[-1], ' '.join(c.props),
               'bounded' if c.num_only else 'proof' if c.sym_only else 'proof + concrete', len(c.cfgs), ' '.join(map(str, c.funcs))))
p = os.path.join(HERE, 'DESIGN.md')
text = open(p).read().split('\n## 5. Seeded changes')[0].rstrip('\n')
open(p, 'w').write(text + '\n' + '\n'.join(out) + '\n')
