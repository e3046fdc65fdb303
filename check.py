#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decides one property of /repo's current source by
static analysis, writes evidence/<property>.json.
exit 0 held, 1 violated (VIOLATION line), 2 the analysis itself broke."""
import sys, os, json, time, importlib, multiprocessing, hashlib, signal
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.setrecursionlimit(20000)
import prog, spec, rules
from prog import AnalysisError
import props

ENTRY_LIMIT = {'quick': 240, 'thorough': 420}


class Timeout(Exception):
    pass


def _alarm(sig, frm):
    raise Timeout()


def work(job):
    kind, modname, name, limit = job
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    t0 = time.time()
    try:
        if kind == 'entry':
            m = importlib.import_module('specs.' + modname)
            r = RUN.run(m.MODULE, name, m.SPECS[name])
        else:
            r = rules.run(PROG, name)
        signal.alarm(0)
    except Timeout:
        r = {'entry': name, 'file': '', 'error': 'time limit', 'reports': [], 'sites': 0, 'obligations': 0, 'exits': 0, 'starts': 0, 'visited': [], 'wall': time.time() - t0}
    except AnalysisError as x:
        signal.alarm(0)
        r = {'entry': name, 'file': '', 'error': str(x), 'reports': [], 'sites': 0, 'obligations': 0, 'exits': 0, 'starts': 0, 'visited': [], 'wall': time.time() - t0, 'gone': 'vanished' in str(x)}
    r['module'] = modname
    r['entry0'] = name
    r['kind'] = kind
    return r


FINER_LIMIT = {'quick': 60, 'thorough': 150}
FINER_TOTAL = {'quick': 420, 'thorough': 1500}


def again(job):
    i, modname, name, r, limit = job
    m = importlib.import_module('specs.' + modname)
    try:
        r = RUN.confirm(m.MODULE, name, m.SPECS[name], r, limit)
    except Exception as x:
        pass
    return i, r


def confirm(P, res, t0, tier):
    """entries with a report are analysed again with more paths kept apart, until one report stands"""
    known = json.load(open(os.path.join(HERE, 'known_findings.json')))['findings']
    hits = lambda r: [x for x in r['reports'] if props.selects(P, r, x) and not any(props.same(f, x) for f in known)]
    todo = [(i, r['module'], r['entry0'], r, FINER_LIMIT[tier]) for i, r in enumerate(res) if r['kind'] == 'entry' and not r['error'] and hits(r)]
    if any(r['kind'] == 'rule' and hits(r) for r in res):
        return 0
    todo.sort(key=lambda j: j[3]['wall'])
    n = 0
    with multiprocessing.get_context('fork').Pool(min(8, len(todo) or 1), maxtasksperchild=8) as pool:
        it = pool.imap_unordered(again, todo)
        for _ in todo:
            try:
                i, r = it.next(max(5, FINER_TOTAL[tier] - (time.time() - t0)))
            except multiprocessing.TimeoutError:
                break
            if hits(r):
                break
            res[i] = r
            n += 1
        pool.terminate()
    return n


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    P = props.PROPS[pid]
    global PROG, RUN
    try:
        PROG = prog.load()
        RUN = spec.Runner(PROG)
        jobs = props.jobs(PROG, P, ENTRY_LIMIT[tier])
    except AnalysisError as x:
        print('ANALYSIS-BROKEN %s: %s' % (pid, x))
        return 2
    ctx = multiprocessing.get_context('fork')
    n = min(8, os.cpu_count() or 2, len(jobs))
    with ctx.Pool(n, maxtasksperchild=24) as pool:
        res = list(pool.imap_unordered(work, jobs, chunksize=1))
    refuted = confirm(P, res, t0, tier)
    known = json.load(open(os.path.join(HERE, 'known_findings.json')))['findings']
    viol, kn, undecided = [], [], []
    counts = dict(entries=0, starts=0, exits=0, obligations=0, sites=0)
    fns = set()
    for r in res:
        if r['error']:
            undecided.append((r['entry'], r['error'].strip().split('\n')[-1][:300]))
            if r.get('gone'):
                print('ANALYSIS-BROKEN %s: %s' % (pid, r['error']))
                return 2
        else:
            counts['entries'] += 1
        for k in ('starts', 'exits', 'obligations', 'sites'):
            counts[k] += r.get(k, 0)
        fns |= set(r.get('visited', ()))
        for x in r['reports']:
            if not props.selects(P, r, x):
                continue
            k = [f for f in known if f['property'] == pid and props.same(f, x)]
            (kn if k else viol).append((x, k[0] if k else None))
    for e, m in undecided:
        print('UNDECIDED %s: %s' % (e, m))
    seen = set()
    for x, f in kn:
        line = 'KNOWN-FINDING: property=%s %s' % (pid, f['what'])
        if line not in seen:
            seen.add(line)
            print(line)
    uniq = {}
    for x, _ in viol:
        uniq.setdefault((x['kind'], x['func'], x['line'], x['key']), []).append(x)
    samples = [{'entry': r['entry'], 'file': r['file'], 'abstract_starts': r['starts'], 'returns_checked': r['exits'], 'obligations': r['obligations'], 'access_sites': r['sites'], 'wall_s': round(r['wall'], 2)}
               for r in sorted(res, key=lambda r: -r['obligations'])[:12]]
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'other',
          'coverage': dict(explanation=props.explain(P), rule=P['rule'],
                           entries_analysed=counts['entries'], abstract_entry_states=counts['starts'], abstract_returns=counts['exits'],
                           obligations=counts['obligations'], discharged=counts['obligations'] - len(viol), memory_and_call_sites=counts['sites'],
                           functions_in_scope=sorted(fns), entries_settled_by_finer_analysis=refuted, undecided_entries=[list(u) for u in undecided], samples=samples,
                           known_findings=sorted(seen)),
          'assumptions': props.ASSUMPTIONS, 'wall_s': round(time.time() - t0, 2), 'violations': len(uniq)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d entries, %d abstract entry states, %d returns, %d obligations, %d sites, %d functions, %.1f s' % (
        pid, counts['entries'], counts['starts'], counts['exits'], counts['obligations'], counts['sites'], len(fns), time.time() - t0))
    if uniq:
        rp = os.path.join(HERE, 'evidence', pid + '.violations.txt')
        with open(rp, 'w') as f:
            for (kind, func, line, key), xs in sorted(uniq.items()):
                x = xs[0]
                f.write('%s:%s: in %s: [%s] %s\n' % (x['file'], line, func, kind, x['msg']))
                f.write('    analysed from %s; call chain: %s\n' % (', '.join(sorted(set(y['entry'] for y in xs))), ' > '.join(x['chain']) or '(at return)'))
                f.write('    path: %s\n' % ' '.join(x['trail']))
        for l in open(rp).read().split('\n')[:30]:
            print('  ' + l)
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if counts['entries'] < P.get('min_entries', 1) or len(undecided) > max(3, len(res) // 4):
        print('ANALYSIS-BROKEN %s: only %d entries decided (%d expected)' % (pid, counts['entries'], P.get('min_entries', 1)))
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
