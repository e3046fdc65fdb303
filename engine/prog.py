"""Front end: compiles every translation unit of the repository to LLVM IR with the project's
language flags, links them, and loads irdump's description of the module."""
import hashlib, json, os, re, subprocess, sys, shutil, glob

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('HARBOL_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(HERE, '..', '.build'))
LLVM = '/usr/lib/llvm-18/bin'


class AnalysisError(Exception):
    pass


def tool(name):
    p = os.path.join(LLVM, name)
    return p if os.path.exists(p) else name


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    if r.returncode:
        raise AnalysisError('%s failed:\n%s' % (' '.join(cmd)[:300], r.stderr.decode(errors='replace')[:3000]))
    return r.stdout


def build_tools():
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, 'irdump')
    src = os.path.join(HERE, 'irdump.cpp')
    if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
        flags = run([tool('llvm-config'), '--cxxflags']).decode().split()
        tmp = out + '.%d' % os.getpid()
        run(['g++', '-O1', '-w'] + flags + [src, '-o', tmp, '-L/usr/lib/llvm-18/lib', '-lLLVM-18'])
        os.replace(tmp, out)
    lib = os.path.join(BUILD, 'liblp.so')
    src = os.path.join(HERE, 'lp.cpp')
    if not os.path.exists(lib) or os.path.getmtime(lib) < os.path.getmtime(src):
        tmp = lib + '.%d' % os.getpid()
        run(['g++', '-O2', '-shared', '-fPIC', '-w', src, '-o', tmp])
        os.replace(tmp, lib)
    return out, lib


def sources():
    """the library's translation units: the SRCS of the top Makefile (what the build compiles)"""
    mk = open(os.path.join(REPO, 'Makefile')).read()
    srcs = []
    for m in re.finditer(r'^SRCS\s*\+?=\s*(.*)$', mk, re.M):
        srcs += m.group(1).split()
    if len(srcs) < 10:
        raise AnalysisError('top-level Makefile lists only %d sources' % len(srcs))
    return srcs


CFLAGS = ['-std=c99', '-O1', '-Xclang', '-disable-llvm-passes', '-U__OPTIMIZE__', '-g', '-fno-discard-value-names', '-w', '-emit-llvm', '-c']


def load(cache=True):
    irdump, lib = build_tools()
    srcs = sources()
    h = hashlib.sha256()
    files = []
    for root, dirs, fs in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if not d.startswith('.') and not d.startswith('_'))
        for f in sorted(fs):
            if f.endswith(('.c', '.h')) and not f.startswith('test_'):
                files.append(os.path.join(root, f))
    for f in files + [os.path.join(HERE, 'irdump.cpp'), os.path.abspath(__file__)]:
        h.update(f.encode() + b'\0' + open(f, 'rb').read())
    key = h.hexdigest()[:20]
    js = os.path.join(BUILD, 'ir-%s.json' % key)
    if not (cache and os.path.exists(js)):
        work = os.path.join(BUILD, 'tmp-%d' % os.getpid())
        shutil.rmtree(work, ignore_errors=True)
        os.makedirs(work)
        try:
            bcs = []
            procs = []
            for i, s in enumerate(srcs):
                bc = os.path.join(work, '%d.bc' % i)
                procs.append((s, bc, subprocess.Popen([tool('clang')] + CFLAGS + [os.path.join(REPO, s), '-o', bc], stderr=subprocess.PIPE)))
            # the umbrella header and the header-only code, every inline function emitted
            w = os.path.join(work, 'headers.c')
            with open(w, 'w') as f:
                f.write('#include "%s/harbol.h"\n#include "%s/mtwister/mtwister.h"\n' % (REPO, REPO))
            bc = os.path.join(work, 'headers.bc')
            procs.append(('headers', bc, subprocess.Popen([tool('clang')] + CFLAGS + ['-Xclang', '-femit-all-decls', w, '-o', bc], stderr=subprocess.PIPE)))
            for s, bc, p in procs:
                err = p.communicate()[1]
                if p.returncode:
                    raise AnalysisError('clang failed on %s:\n%s' % (s, err.decode(errors='replace')[:2000]))
                if s == 'headers':
                    # nothing calls them: keep the linker from dropping them
                    ll = run([tool('llvm-dis'), bc, '-o', '-']).decode().replace('\ndefine internal ', '\ndefine ')
                    bc = os.path.join(work, 'headers.ll')
                    open(bc, 'w').write(ll)
                bcs.append(bc)
            linked = os.path.join(work, 'all.bc')
            run([tool('llvm-link')] + bcs + ['-o', linked])
            opt = os.path.join(work, 'opt.bc')
            run([tool('opt'), '-passes=mem2reg', linked, '-o', opt])
            out = run([irdump, opt])
            tmp = js + '.%d' % os.getpid()
            open(tmp, 'wb').write(out)
            os.replace(tmp, js)
        finally:
            shutil.rmtree(work, ignore_errors=True)
    d = json.load(open(js))
    return Program(d, lib)


def base(name):
    return re.sub(r'\.\d+$', '', name)


class Fn:
    def __init__(self, name, d):
        self.name = name
        self.base = base(name)
        self.d = d
        self.args = d['args']
        self.va = d['va']
        self.ret = d['ret']
        self.file = d.get('file', '')
        self.line = d.get('line', 0)
        self.blocks = {b['id']: b['i'] for b in d['blocks']}
        self.bnames = {b['id']: b['n'] for b in d['blocks']}
        self.entry = d['blocks'][0]['id']
        self.params = {p['i'] - 1: p['n'] for p in d.get('params', [])}
        self.dtypes = d.get('dtypes', [])
        self.local = d['local']
        self._prep()

    def succs(self, b):
        t = self.blocks[b][-1]
        if t['op'] == 'br':
            return [t['T']] + ([t['E']] if 'E' in t else [])
        if t['op'] == 'switch':
            return [t['d']] + [c['b'] for c in t['cs']]
        return []

    def _prep(self):
        # locals whose scope is marked
        self.scoped = {i['a'][-1]['v'].get('n') for b in self.blocks.values() for i in b if i['op'] == 'call' and i.get('f') == 'llvm.lifetime.start.p0'}
        # which way the scopes that end here are left: values of phis over constants that a switch reads
        sw = {i['c'].get('n') for b in self.blocks.values() for i in b if i['op'] == 'switch'}
        phis = {i['id']: i for b in self.blocks.values() for i in b if i['op'] == 'phi'}
        self.control, todo = set(), [k for k in sw if k in phis]
        while todo:
            k = todo.pop()
            if k in self.control:
                continue
            self.control.add(k)
            todo += [x['v']['n'] for x in phis[k]['in'] if x['v'].get('k') == 'v' and x['v'].get('n') in phis]
        if any(x['v'].get('k') not in ('c', 'v') or x['v'].get('k') == 'v' and x['v'].get('n') not in phis for k in self.control for x in phis[k]['in']):
            self.control = {k for k in self.control if all(x['v'].get('k') == 'c' for x in phis[k]['in'])}
        # reverse post order
        seen, order = set(), []
        st = [(self.entry, iter(self.succs(self.entry)))]
        seen.add(self.entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succs(s))))
                    break
            else:
                order.append(b)
                st.pop()
        order.reverse()
        self.rpo = order
        self.rpoidx = {b: i for i, b in enumerate(order)}
        self.loops = {}
        for l in self.d['loops']:
            self.loops[l['h']] = {'h': l['h'], 'b': set(l['b']), 'p': l['p']}
        # innermost loop of each block
        self.inner = {}
        for l in self.d['loops']:  # preorder: inner later
            for b in l['b']:
                self.inner[b] = l['h']
        # liveness
        use, dfn, phiuse = {}, {}, {}
        for b in order:
            u, d = set(), set()
            for i in self.blocks[b]:
                if i['op'] == 'phi':
                    d.add(i['id'])
                    for x in i['in']:
                        phiuse.setdefault(x['b'], set()).update(opids(x['v']))
                    continue
                for k in inst_uses(i):
                    if k not in d:
                        u.add(k)
                if 'id' in i:
                    d.add(i['id'])
            use[b], dfn[b] = u, d
        live = {b: set() for b in order}
        ch = True
        while ch:
            ch = False
            for b in reversed(order):
                out = set(phiuse.get(b, ()))
                for s in self.succs(b):
                    out |= live[s]
                n = use[b] | (out - dfn[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        # live at block entry after its phis were evaluated
        self.live = {}
        for b in order:
            phis = {i['id'] for i in self.blocks[b] if i['op'] == 'phi'}
            self.live[b] = live[b] | phis


def opids(o):
    k = o['k']
    if k == 'v':
        return [o['n']]
    if k == 'go':
        return opids(o['b'])
    if k == 'cast':
        return opids(o['a'])
    return []


def inst_uses(i):
    out = []
    for o in i.get('a', ()):
        out += opids(o['v'] if 'v' in o and isinstance(o.get('v'), dict) else o)
    for key in ('base', 'c', 'cnt', 'fp'):
        if key in i and isinstance(i[key], dict):
            out += opids(i[key])
    for o in i.get('vo', ()):
        out += opids(o['v'])
    return out


class Program:
    def __init__(self, d, lib):
        self.lib = lib
        self.funcs = {n: Fn(n, f) for n, f in d['funcs'].items()}
        self.decls = d['decls']
        self.globals = d['globals']
        self.structs = d['structs']
        self.enums = d['enums']

    def off(self, struct, field):
        for f in self.structs[struct]['f']:
            if f['n'] == field:
                return f['o']
        raise AnalysisError('struct %s has no field %s any more' % (struct, field))

    def size(self, struct):
        if struct not in self.structs:
            raise AnalysisError('struct %s is gone' % struct)
        return self.structs[struct]['size']

    def fn(self, name):
        f = self.funcs.get(name)
        if f is None:
            raise AnalysisError('function %s is gone' % name)
        return f
