import sys, importlib, time, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import prog, spec
p = prog.load()
R = spec.Runner(p)
m = importlib.import_module('specs.' + sys.argv[1])
names = [n for n in m.SPECS if len(sys.argv) < 3 or any(x in n for x in sys.argv[2:])]
tot = 0
for n in names:
    r = R.run(m.MODULE, n, m.SPECS[n])
    if r['reports'] and not r['error'] and not os.environ.get('ONCE'):
        n0 = len(r['reports'])
        R.confirm(m.MODULE, n, m.SPECS[n], r, 90)
        if not r['reports']:
            print('%-40s REFINED: %d reports refuted' % (n, n0))
    tot += r['wall']
    print('%-40s %.2fs starts %d exits %d obl %d sites %d %s' % (n, r['wall'], r['starts'], r['exits'], r['obligations'], r['sites'], 'ERR ' + r['error'] if r['error'] else ''))
    for x in r['reports']:
        print('    ', x['kind'], x['func'], x['line'], x['msg'], '|', ' '.join(x['chain']), '|', x['trail'])
print('total', tot)
