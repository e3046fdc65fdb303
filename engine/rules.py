"""Whole-program rules that need no abstract execution."""
from prog import AnalysisError

RULES = {}


def rule(f):
    RULES[f.__name__] = f
    return f


def run(P, name):
    reports = []
    stats = {'sites': 0, 'obligations': 0, 'visited': []}

    def report(kind, func, file, line, msg, key):
        reports.append({'kind': kind, 'entry': name, 'func': func, 'file': file, 'line': line, 'msg': msg, 'key': key, 'chain': [func], 'trail': []})
    RULES[name](P, report, stats)
    return {'entry': name, 'file': '', 'error': None, 'reports': reports, 'sites': stats['sites'], 'obligations': stats['obligations'],
            'exits': stats.get('exits', 1), 'starts': 1, 'visited': stats['visited'], 'wall': 0.0}


# ------------------------------------------------------------------ powers of two
class Unknown(Exception):
    pass


M64 = (1 << 64) - 1


class Bits:
    """a word known in some bits: v on the bits of m"""
    def __init__(self, n, m, v):
        self.n, self.m, self.v = n, m, v & m

    def const(self):
        return self.v if self.m == (1 << self.n) - 1 else None

    def lo(self):
        return self.v

    def hi(self):
        return self.v | ((1 << self.n) - 1) & ~self.m


def bits_eval(P, fn, args, depth=0):
    """evaluates a function over partly known words; branches have to be decided by what is known"""
    if depth > 8:
        raise Unknown('recursion')
    env = {}
    for a, v in zip(fn.args, args):
        env[a['id']] = v
    full = lambda n: (1 << n) - 1

    def val(o):
        if o['k'] == 'v':
            if o['n'] not in env:
                raise Unknown('value')
            return env[o['n']]
        if o['k'] == 'c':
            return Bits(o['b'], full(o['b']), int(o['v']))
        raise Unknown('operand ' + o['k'])

    def addb(a, b, c):
        # exact while both bits and the carry are known
        n, m, v = a.n, 0, 0
        for i in range(n):
            if c is None or not (a.m >> i & 1 and b.m >> i & 1):
                c = None
                continue
            t = (a.v >> i & 1) + (b.v >> i & 1) + c
            m |= 1 << i
            v |= (t & 1) << i
            c = t >> 1
        return Bits(n, m, v)
    block, prev, steps = fn.entry, None, 0
    while True:
        phis = {}
        for i in fn.blocks[block]:
            if i['op'] != 'phi':
                break
            phis[i['id']] = val([x for x in i['in'] if x['b'] == prev][0]['v'])
        env.update(phis)
        for i in fn.blocks[block]:
            steps += 1
            if steps > 20000:
                raise Unknown('too long')
            op = i['op']
            if op == 'phi':
                continue
            if op == 'ret':
                return val(i['a'][0])
            if op == 'br':
                if 'c' in i:
                    c = val(i['c']).const()
                    if c is None:
                        raise Unknown('branch')
                    prev, block = block, i['T'] if c else i['E']
                else:
                    prev, block = block, i['T']
                break
            if op == 'call':
                a = [val(x['v']) for x in i['a']]
                f = i.get('f', '')
                if f.startswith('llvm.ctlz.'):
                    x = a[0]
                    for k in range(x.n - 1, -1, -1):
                        if not x.m >> k & 1:
                            raise Unknown('ctlz')
                        if x.v >> k & 1:
                            break
                    else:
                        k = -1
                    env[i['id']] = Bits(x.n, full(x.n), x.n - 1 - k)
                elif f in P.funcs:
                    env[i['id']] = bits_eval(P, P.funcs[f], a, depth + 1)
                else:
                    raise Unknown('call of ' + f)
                continue
            if op == 'select':
                a = [val(x) for x in i['a']]
                c = a[0].const()
                if c is None:
                    raise Unknown('select')
                env[i['id']] = a[1] if c else a[2]
                continue
            if op == 'icmp':
                a, b = val(i['a'][0]), val(i['a'][1])
                p = i['p']
                r = None
                if p in ('eq', 'ne'):
                    if (a.v ^ b.v) & a.m & b.m:
                        r = p == 'ne'
                    elif a.const() is not None and b.const() is not None:
                        r = p == 'eq'
                elif p[0] == 'u':
                    if p in ('ugt', 'uge'):
                        a, b, p = b, a, {'ugt': 'ult', 'uge': 'ule'}[p]
                    if p == 'ult':
                        r = True if a.hi() < b.lo() else False if a.lo() >= b.hi() else None
                    else:
                        r = True if a.hi() <= b.lo() else False if a.lo() > b.hi() else None
                elif a.const() is not None and b.const() is not None:
                    sg = lambda x: x.v - (1 << x.n) if x.v >> x.n - 1 else x.v
                    x, y = sg(a), sg(b)
                    r = {'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y}[p]
                if r is None:
                    raise Unknown('comparison')
                env[i['id']] = Bits(1, 1, int(r))
                continue
            if op in ('zext', 'trunc', 'sext'):
                a, n = val(i['a'][0]), i['t']['b']
                if op == 'trunc':
                    env[i['id']] = Bits(n, a.m & full(n), a.v & full(n))
                elif op == 'zext':
                    env[i['id']] = Bits(n, a.m | full(n) & ~full(a.n), a.v)
                else:
                    if not a.m >> a.n - 1 & 1:
                        raise Unknown('sext')
                    up = full(n) & ~full(a.n)
                    env[i['id']] = Bits(n, a.m | up, a.v | (up if a.v >> a.n - 1 & 1 else 0))
                continue
            if op in ('and', 'or', 'xor', 'shl', 'lshr', 'add', 'sub', 'mul'):
                a, b = val(i['a'][0]), val(i['a'][1])
                n = a.n
                if op == 'and':
                    z = a.m & ~a.v | b.m & ~b.v
                    o = a.v & b.v
                    r = Bits(n, z | o, o)
                elif op == 'or':
                    o = a.v | b.v
                    r = Bits(n, o | a.m & b.m, o)
                elif op == 'xor':
                    r = Bits(n, a.m & b.m, a.v ^ b.v)
                elif op in ('shl', 'lshr'):
                    k = b.const()
                    if k is None or k >= n:
                        raise Unknown('shift')
                    if op == 'shl':
                        r = Bits(n, (a.m << k | full(k)) & full(n), a.v << k & full(n))
                    else:
                        r = Bits(n, a.m >> k | full(n) & ~(full(n) >> k), a.v >> k)
                elif op == 'add':
                    r = addb(a, b, 0)
                elif op == 'sub':
                    r = addb(a, Bits(n, b.m, ~b.v & full(n)), 1)
                else:
                    x, y = a.const(), b.const()
                    if x is None or y is None:
                        raise Unknown('mul')
                    r = Bits(n, full(n), x * y & full(n))
                env[i['id']] = r
                continue
            if op in ('freeze', 'bitcast'):
                env[i['id']] = val(i['a'][0])
                continue
            raise Unknown(op)


@rule
def pow2(P, report, stats):
    """bitwise_ceil fills every bit below the highest one; next_pow_of_2 is the least power of two
    above its argument.  One case per position of the highest bit, the bits below it unknown."""
    for name in ('bitwise_ceil', 'next_pow_of_2'):
        fn = P.fn(name)
        stats['visited'].append(name)
        for k in range(-1, 64):
            x = Bits(64, M64 & ~((1 << k) - 1) if k >= 0 else M64, 1 << k if k >= 0 else 0)
            want = (1 << k + 1) - 1 if name == 'bitwise_ceil' else (1 << k + 1) & M64
            stats['obligations'] += 1
            try:
                r = bits_eval(P, fn, [x])
            except Unknown as e:
                raise AnalysisError('%s: cannot follow %s' % (name, e))
            c = r.const()
            if c is None:
                # undecided bits: look for a number that shows the fault
                for low in (0, (1 << max(k, 0)) - 1, 0x5555555555555555, 0xaaaaaaaaaaaaaaaa):
                    y = (1 << k | low & (1 << k) - 1) if k >= 0 else 0
                    c = bits_eval(P, fn, [Bits(64, M64, y)]).const()
                    if c != want:
                        break
                else:
                    raise AnalysisError('%s: result not decided for numbers from %d' % (name, 1 << k))
            if c != want:
                report('content', name, fn.file, fn.line, 'wrong result for numbers from %d on: %d instead of %d' % (1 << k if k >= 0 else 0, c, want), 'value')
