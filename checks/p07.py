"""P07: all communication takes place on the communicator that was given."""
import ast
import os
import facts, load, conv, par
import engine as G
import models as M
import poly as P
from poly import *
from scen import *
from load import OBJ

GIVEN = comm()
KEY = M.commkey(GIVEN)


def iscomm(t):
    t = G.unref(t or '')
    return 'MPI_Comm' in t.split() or t.replace('struct ', '').startswith('ompi_communicator_t')


class Watch:
    """records the communicator of every MPI call and where ranks and sizes of other ones are used"""

    def __init__(self, r, tag):
        self.r, self.tag = r, tag
        self.calls = {}
        self.other = set()
        self.used = {}
        self.argok = {}

    def hooks(self):
        return {'call': self.call, 'branch': self.branch, 'coll': self.coll}

    def call(self, eng, n, obj, args, st, want):
        fn = n.get('sn') or ''
        if not (fn.startswith('MPI_') or fn.startswith('PMPI_')) or obj is not None:
            return None
        for a in args:
            if not iscomm(a.get('t')):
                continue
            h, eng.hooks = eng.hooks, {}
            try:
                v = eng.ev(a, st.copy())
            except G.Dead:
                continue
            finally:
                eng.hooks = h
            k = (fn, eng.where(n), eng.fname(), ' > '.join(eng.stack()[1:]))
            self.calls[k] = self.calls.get(k, ()) + (v,)
        return None

    def foreign(self, p):
        if not isinstance(p, Poly):
            return False
        todo, seen = list(p.atoms()), set()
        while todo:
            a = todo.pop()
            if a in seen:
                continue
            seen.add(a)
            nm = P.NAMES[a]
            if isinstance(nm, tuple):
                if nm[0] == 'mpi' and nm[1] in ('rank', 'size') and nm[2] != KEY and self.world(nm[2]):
                    return True
                for x in nm:
                    if isinstance(x, Poly):
                        todo += list(x.atoms())
            if a in P.PHI:
                for x in P.PHI[a][1:]:
                    if isinstance(x, Poly):
                        todo += list(x.atoms())
        return False

    def world(self, key):
        return isinstance(key, tuple) and any('(' + repr('G')[0:] in s or "'G'" in s for s in map(str, key))

    def branch(self, eng, n, c, ta, tv, st):
        for q in self.atoms(c):
            if self.foreign(q):
                self.used.setdefault((eng.where(n), eng.fname()), 'a decision')

    def atoms(self, c):
        out, todo = [], [c]
        while todo:
            x = todo.pop()
            if isinstance(x, Poly):
                out.append(x)
            elif isinstance(x, (tuple, list, frozenset, set)):
                todo += list(x)
            elif isinstance(x, G.Val):
                todo += list(x.alts)
        return out

    def coll(self, eng, n, st, e):
        for k in ('root', 'count'):
            v = e.get(k)
            if v is not None and any(self.foreign(p) for p in v.alts):
                self.used.setdefault((eng.where(n), eng.fname()), 'the %s of a %s' % (k, e['name']))

    def judge(self):
        for (fn, where, f, via), vs in self.calls.items():
            self.r.count('MPI calls with a communicator')
            for v in vs:
                bad = [l for l in v.ptrs if l.base[0] == 'G']
                unk = not v.ptrs
                if any(l.base != GIVEN.ptrs[0].base and not (l.base[0] == 'O' and l.base[1][0] == 'comm' and l.base[1][1] != 'other')
                       for l in v.ptrs if l.base[0] != 'G'):
                    bad = bad or list(v.ptrs)
                if fn in ('MPI_Comm_size', 'MPI_Comm_rank', 'MPI_Comm_set_errhandler', 'MPI_Abort', 'MPI_Comm_get_attr'):
                    # only asks; what becomes of the answer is looked at separately
                    if fn == 'MPI_Abort' or bad or unk:
                        continue
                elif bad:
                    self.r.violation('R1', where, f, '%s: %s (reached by %s) on %s instead of the communicator that was passed'
                                     % (self.tag, fn, via, ', '.join(name(l) for l in bad)), key=fn + via)
                    continue
                elif unk:
                    self.r.note('%s: the communicator of %s at %s is not known' % (self.tag, fn, where))
                    self.r.count('MPI calls not decided')
                    continue
                self.r.count('MPI calls on the communicator that was passed')
                self.r.sample('%s: %s at %s (%s)' % (self.tag, fn, where, via))
        for (where, f), what in self.used.items():
            self.r.violation('R2', where, f, '%s: %s depends on the rank or size of another communicator' % (self.tag, what), key=what)

    def cells(self, S, d, where, fn):
        for k, v in d.items():
            if any(self.foreign(p) for p in v.alts):
                self.r.violation('R2', where, fn, '%s: %s holds the rank or size of another communicator' % (self.tag, '.'.join(map(str, k))),
                                 key='.'.join(map(str, k)))
            for l in v.ptrs:
                if l.base[0] == 'G' and 'comm' in str(l.base[1]):
                    self.r.violation('R1', where, fn, '%s: %s holds %s' % (self.tag, '.'.join(map(str, k)), name(l)), key='.'.join(map(str, k)))


def name(l):
    s = str(l.base[1])
    return 'the world communicator' if 'comm_world' in s else 'another communicator' if not s.startswith('ompi') else s


def args_for(S, f, pol, comms):
    a = []
    objs = {'beamptr': 'b', 'skyptr': 's', 'detptr': 'd'}
    for i, p in enumerate(f['params']):
        t = G.unref(p['t'])
        if iscomm(t):
            a.append(comm())
        elif t.replace(' ', '') == 'void*':
            o = objs.get(p.get('n'), 'obj' if i == 0 else p.get('n'))
            a.append(Val((A(('obj', o)),), ptrs=(LV(('O', o)),)))
        elif p.get('n') == 'pol':
            a.append(K(pol))
        elif t.endswith('*'):
            a.append(Val((A(('arg', p.get('n'))),), ptrs=(LV(('O', ('str', p.get('n')))),)))
        elif S.is_class(t):
            a.append(LV(('O', 'file')))
        else:
            a.append(arg(p.get('n', 'x'), S.is_int_t(t)))
    return a


def entry(r, F, f, pol, this=None):
    """one function that takes a communicator"""
    tag = f['sn'] + (', polarised' if pol else '')
    S = Scen(F, {'throwlog': True})
    w = Watch(r, tag)
    for k, h in w.hooks().items():
        S.hooks[k] = h
    ok, res, thr, types = S.invoke(f, this, args_for(S, f, pol, None), State())
    r.count('entry points with a communicator')
    r.count('abstract steps', S.steps)
    w.judge()
    where = '%s:%s' % (f['f'], f.get('l'))
    if ok is not None:
        for b, d in ok.m.items():
            if b[0] in ('O', 'H', 'S', 'G'):
                w.cells(S, d, where, f['fn'])


def convolution(r, F, pol):
    tag = '%s convolution' % ('polarised' if pol else 'unpolarised')
    w = Watch(r, tag)
    c = conv.Conv(F, pol, 1, hooks=w.hooks())
    r.count('convolve scenarios')
    r.count('abstract steps', c.S.steps)
    w.judge()
    for st, f in ((c.after_ctor, c.ctor), (c.ok, c.conv)):
        if st is not None:
            w.cells(c.S, st.m.get(conv.CONV.base) or {}, '%s:%s' % (f['f'], f.get('l')), f['fn'])


def wrapper(r, F):
    p = os.path.join(facts.REPO, 'python', 'libconviqt_wrapper', '__init__.py')
    T = ast.parse(open(p).read())
    rel = os.path.relpath(p, facts.REPO)
    for n in ast.walk(T):
        if isinstance(n, (ast.FunctionDef,)):
            ps = [a.arg for a in n.args.args]
            for c in ast.walk(n):
                if not isinstance(c, ast.Call):
                    continue
                for a in list(c.args) + [k.value for k in c.keywords]:
                    for x in ast.walk(a):
                        if isinstance(x, ast.Attribute) and x.attr in ('COMM_WORLD', 'COMM_SELF', 'Get_parent'):
                            if len(n.body) and isinstance(a, ast.Attribute) or isinstance(a, ast.Call):
                                r.violation('R3', '%s:%d' % (rel, x.lineno), n.name, 'the Python layer passes %s on' % x.attr, key=x.attr)
                if isinstance(c.func, ast.Name) and 'comm' in c.func.id and c.args:
                    r.count('communicators handed to the library by Python')
                    names = {x.id for x in ast.walk(c.args[0]) if isinstance(x, ast.Name)}
                    asg = {}
                    for s in ast.walk(n):
                        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                            asg.setdefault(s.targets[0].id, []).append(s.value)
                    seen, todo = set(), list(names)
                    while todo:
                        y = todo.pop()
                        if y in seen:
                            continue
                        seen.add(y)
                        for v in asg.get(y, []):
                            for x in ast.walk(v):
                                if isinstance(x, ast.Name):
                                    todo.append(x.id)
                                if isinstance(x, ast.Attribute) and x.attr in ('COMM_WORLD', 'COMM_SELF'):
                                    r.violation('R3', '%s:%d' % (rel, x.lineno), n.name, 'the Python layer passes %s on' % x.attr, key=x.attr)
            for d in n.args.defaults:
                for x in ast.walk(d):
                    if isinstance(x, ast.Attribute) and x.attr == 'COMM_WORLD':
                        r.count('default arguments that name the world communicator')


def run(rep):
    rep.rule('R1: every MPI call that communicates, reached from an entry point that takes a communicator or from convolve, is made on that '
             'communicator (for convolve: the one the convolver was made with) or one duplicated from it')
    rep.rule('R2: the rank in and the size of any other communicator decide nothing and are not kept')
    rep.rule('R3: the Python layer passes on the communicator it was given')
    F = facts.load()
    jobs = []
    ents = [f for f in F.funcs.values() if f.get('body') and any(iscomm(p['t']) for p in f.get('params', []))]
    for f in sorted(ents, key=lambda f: f['fn']):
        if f['f'].startswith('src/cconviqt'):
            haspol = any(p.get('n') == 'pol' for p in f['params'])
            for pol in ((0, 1) if haspol and 'convolver' not in f['sn'] else (0,)):
                jobs.append(('%s %d' % (f['sn'], pol), lambda r, f=f, pol=pol: entry(r, F, f, pol)))
        elif f.get('cls') in ('conviqt::beam', 'conviqt::sky') and f.get('kind') != 'ctor':
            jobs.append((f['fn'], lambda r, f=f: entry(r, F, f, 1, OBJ)))
    for pol in (0, 1):
        jobs.append(('convolve %d' % pol, lambda r, pol=pol: convolution(r, F, pol)))
    par.scenarios(rep, jobs)
    wrapper(rep, F)
    rep.need('entry points with a communicator', 5)
    rep.need('convolve scenarios', 2)
    rep.need('MPI calls on the communicator that was passed', 100)
    rep.need('communicators handed to the library by Python', 3)
