"""The convolver life cycle: construct, convolve, convolve again, on arbitrary inputs."""
from scen import *
import engine as G
import models as M
import poly as P
from facts import CheckError

CLS = 'conviqt::convolver'
# numeric kernels: what they compute is not looked into, see kernel_rules()
CLOSED = ('libfftpack/', 'wigner.cc')
CONV = LV(('O', 'conv'))
SKY, BEAM, DET = LV(('O', 's')), LV(('O', 'b')), LV(('O', 'd'))
PN = ('O', 'pnt1'), ('O', 'pnt2')


class Conv:
    def __init__(self, F, pol, cal, twice=False, hooks=None, opts=None, verb=None, rows=None,
                 between=None, cells=None, runs=None, cargs=None, attach=None):
        self.F = F
        o = {'throwlog': True, 'closed': CLOSED}
        o.update(opts or {})
        self.S = S = Scen(F, o)
        self.pol, self.cal = pol, cal
        self.verb = verb
        self.rows, self.between, self.cells = rows, between, cells or {}
        S.init_hook = self.init_hook
        for k, h in (hooks or {}).items():
            S.hooks[k] = h
        if attach:
            attach(S)
        self.ctor = self.find_ctor()
        self.conv = F.one(CLS + '::convolve')
        self.phase = 'ctor'
        self.given = cargs or {}
        st = State()
        self.st0 = st.copy()
        self.ok, self.res, self.thr, self.types = S.invoke(self.ctor, CONV, self.cargs(self.ctor), st)
        self.after_ctor = self.ok.copy() if self.ok else None
        self.runs = []
        self.log = []
        if self.ok is None:
            return
        for i in range(runs if runs is not None else 2 if twice else 1):
            if self.ok is None:
                break
            self.phase = 'conv%d' % (i + 1)
            st = self.ok
            if self.between:
                st = self.between(self, st, i)
            b = PN[i]
            args = []
            for p in self.conv['params']:
                t = G.unref(p['t'])
                if t == 'bool':
                    args.append(cal[i] if isinstance(cal, (list, tuple)) else K(cal))
                else:
                    args.append(LV(b))
            r = S.invoke(self.conv, CONV, args, st)
            self.runs.append(r)
            self.ok = r[0]
        self.log = list(S.throwlog.values())

    def find_ctor(self):
        fs = [f for f in self.F.funcs.values() if f.get('cls') == CLS and f.get('kind') == 'ctor' and f.get('body')
              and any('sky' in p['t'] for p in f.get('params', []))]
        if len(fs) != 1:
            raise CheckError('%d convolver constructors that take a sky' % len(fs))
        return fs[0]

    def cargs(self, f):
        a = []
        verb = [p for p in f['params'] if p.get('n') == 'verbosity'] or [p for p in f['params'] if p['t'] == 'int']
        for p in f['params']:
            t = G.unref(p['t'])
            base = t.replace('*', '').strip()
            if p.get('n') in self.given:
                a.append(self.given[p['n']])
            elif 'Comm' in t or 'communicator_t' in t:
                a.append(comm())
            elif t.endswith('*') and base.endswith('sky'):
                a.append(Val((A(('obj', 's')),), ptrs=(SKY,)))
            elif t.endswith('*') and base.endswith('beam'):
                a.append(Val((A(('obj', 'b')),), ptrs=(BEAM,)))
            elif t.endswith('*') and base.endswith('detector'):
                a.append(Val((A(('obj', 'd')),), ptrs=(DET,)))
            elif t == 'bool':
                a.append(K(self.pol))
            elif p in verb and self.verb is not None:
                a.append(K(self.verb))
            elif p in verb and self.S.opts.get('order'):
                a.append(arg(p.get('n', 'x'), True, frozenset(['verb'])))
            else:
                a.append(arg(p.get('n', 'x'), self.S.is_int_t(t)))
        return a

    def init_hook(self, st, base, path, isint):
        """every process has its own samples"""
        v = self.cells.get((base, path))
        if v is not None:
            return v
        if base in PN:
            t = frozenset(('rank', 'p%d' % (PN.index(base) + 1)))
            if path and str(path[-1]).startswith('#n'):
                if self.rows:
                    # some number of whole samples
                    T = A(('rows', base), True)
                    P.AFACTS.setdefault(T.single_atom(), [norm_fact(C(self.rows).sub(T), '<=')])
                    return Val((T.scale(5),), t, G.E0, 0)
                v = Val((A(('in', base, path), True),), t, prov=G.E0)
                self.S.nonneg(v)
                return v
            col = path[0] if path else '?'
            return Val((A(('in', base, path)),), t, frozenset((('col', base, col),)))
        return None


def run(F, pol, cal, **kw):
    return Conv(F, pol, cal, **kw)


def kernel_rules(r, F, rule):
    """what is assumed of the parts that are not looked into: they neither communicate nor ask for the time, a thread or a random
    number, and keep nothing in static storage"""
    import facts
    for f in F.funcs.values():
        if not f.get('body') or not any(x in f['f'] for x in CLOSED) or 'ffttest' in f['f']:
            continue
        r.count('functions of the numeric kernels')
        for n in facts.walk(f['body']):
            w = '%s:%s' % (f['f'], n.get('l'))
            if n.get('k') in ('call', 'mcall'):
                sn = n.get('sn') or ''
                fn = n.get('fn') or ''
                if (sn.startswith(('omp_get_thread', 'omp_get_wtime', 'omp_get_num', 'MPI_', 'PMPI_')) or sn in (
                        'rand', 'random', 'drand48', 'clock', 'time', 'gettimeofday', 'clock_gettime', 'getpid', 'getenv', 'rand_r',
                        'sched_getcpu') or 'chrono' in fn or 'std::thread' in fn or 'random_device' in fn):
                    r.violation(rule, w, f['fn'], 'a numeric kernel calls %s' % sn, key=sn)
            if n.get('k') == 'decl':
                for v in n.get('vars') or []:
                    if v.get('static') and mutable(v.get('t', '')):
                        r.violation(rule, w, f['fn'], 'a numeric kernel keeps %s in static storage' % v.get('n'), key=str(v.get('n')))
            if n.get('k') == 'ref' and n.get('dk') == 'glob' and mutable(n.get('t', '')):
                r.violation(rule, w, f['fn'], 'a numeric kernel uses the global variable %s' % n.get('n'), key=str(n.get('n')))


def mutable(t):
    if '*' in t:
        return not t.endswith('const')
    return not t.startswith('const ')
