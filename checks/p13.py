"""P13: calibration is applied once, when asked for."""
import facts, conv, par
import engine as G
import poly as P
from poly import *
from scen import *
from conv import *

EPS = 'epsilon_'


def has_eps(p):
    return any('eps' in EPSN.get(a, ()) or _names(P.NAMES[a]) for a in p.atoms())


EPSN = {}


def _names(nm):
    if isinstance(nm, tuple):
        return any(_names(x) for x in nm)
    if isinstance(nm, Poly):
        return has_eps(nm)
    if isinstance(nm, G.LV):
        return False
    return nm == 'EPS2' or nm == 'EPS1'


def source(p):
    """a quantity read from data that is not the array's own size"""
    todo, seen = list(p.atoms()), False
    while todo:
        nm = P.NAMES[todo.pop()]
        if not isinstance(nm, tuple):
            return False
        if nm[0] == 'el':
            seen = True
        elif nm[0] == 'idiv':
            todo += [a for x in nm[1:] if isinstance(x, Poly) for a in x.atoms()]
        elif nm[0] not in ('arg', 'mpi'):
            return False
    return seen


class Cal:
    def __init__(self, F, pol, cal, norm):
        self.sites = {}
        self.maybe = []
        self.other = {}
        self.bad = []
        d2 = LV(('O', 'd2'))
        cells = {(DET.base, (EPS,)): Val((A(('EPS1', 'd')),), frozenset(['eps1']), G.UNK),
                 (d2.base, (EPS,)): Val((A(('EPS2', 'd')),), frozenset(['eps']), G.UNK),
                 # what was true when the convolver was made need not be true when it is used
                 (BEAM.base, ('normalized_',)): K(1 - norm)}
        setdet = [f for f in F.funcs.values() if f['fn'] == conv.CLS + '::set_detector' and f.get('body')]
        self.exchanged = bool(setdet)

        def between(c, st, i):
            st.put(BEAM.base, ('normalized_',), K(norm))
            if setdet:
                ok, r, t, tt = c.S.invoke(setdet[0], CONV, [Val((A(('obj', 'd2')),), ptrs=(d2,))], st)
                return ok
            return st
        self.eng = None
        c = conv.Conv(F, pol, cal, hooks={'store': self.store, 'maybe': self.maybe_, 'unmatched': self.unmatched}, rows=1, between=between, cells=cells)
        self.c = c

    def store(self, eng, lvs, v, node, st):
        p = v.poly()
        if p is None or not has_eps(p):
            return
        for l in lvs:
            if not G.has_elem(l.path):
                continue
            fac = None
            for a in p.atoms():
                d = eng.eldef.get(a)
                if d is None:
                    continue
                q = {}
                for m, co in p.t.items():
                    if m.count(a) != 1:
                        q = None
                        break
                    k = list(m)
                    k.remove(a)
                    q[tuple(k)] = co
                if q is not None and has_eps(Poly(q)):
                    fac = Poly(q)
            comp = [x for q in eng.expand_lv(l) for x in q if x in G.RES]
            ix = [x for x in l.idx if isinstance(x, Poly)]
            col = None
            if ix:
                col = residue(ix[-1])
                if col is None:
                    col = eng.modof(ix[-1])
            if len(set(comp)) == 1:
                col = G.RES.index(comp[0])
            k = (id(node), eng.frame.ctx)
            s = self.sites.setdefault(k, dict(node=id(node), where=eng.where(node), fn=eng.fname(), fac=[], base=l.base, col=col, n=0))
            s['fac'].append(fac)
            s['last'] = fac

    def unmatched(self, eng, n, base, path, ix, Ka, N, size):
        # a sweep over a number of rows that has nothing to do with the size of the array
        if base != conv.PN[0] or ix.t.get((Ka,), 0) != 5 or not source(N):
            return
        r = ix.sub(A(P.NAMES[Ka]).scale(5)).t.get((), 0)
        if r == 3:
            self.other[eng.where(n)] = (eng.fname(), str(N), str(size))

    def maybe_(self, eng, n, base, path, ix, Ka, st):
        self.maybe.append((eng.where(n), eng.fname(), base, path))


def run(rep):
    rep.rule('R1: with calibration requested and the beam not normalised when convolve is called, every value in the signal column is, at '
             'the normal exit, 2/(1+epsilon) of the detector then in use times the uncalibrated value: one scaling, sweeping all rows, '
             'not under a condition that depends on the sample')
    rep.rule('R2: otherwise no value that depends on epsilon reaches the signal and nothing is scaled with it')
    rep.rule('R3: neither the state of the beam nor the detector at the time the convolver was made has a say')
    F = facts.load()
    goal = P.ONE
    jobs = []
    for pol in (0, 1):
        for cal in (0, 1):
            for norm in (0, 1):
                jobs.append(('%d %d %d' % (pol, cal, norm), lambda r, pol=pol, cal=cal, norm=norm: judge(r, F, pol, cal, norm)))
    par.scenarios(rep, jobs)
    rep.need('convolve scenarios', 8)
    rep.need('scaling sites', 1)


def judge(r, F, pol, cal, norm):
    M = Cal(F, pol, cal, norm)
    c = M.c
    S = c.S
    r.count('convolve scenarios')
    r.count('abstract steps', S.steps)
    tag = '%s convolution, calibration %s, beam %s' % ('polarised' if pol else 'unpolarised', 'requested' if cal else 'not requested',
                                                       'normalised' if norm else 'not normalised')
    f = c.conv
    where = '%s:%s' % (f['f'], f.get('l'))
    if c.ok is None:
        raise facts.CheckError('convolve never returns normally (%s)' % tag)
    if not M.exchanged:
        r.note('no set_detector: the detector in use is the one given at construction')
    d = c.ok.m[conv.PN[0]]
    v = d.get(('[3]',))
    if v is None:
        raise facts.CheckError('the signal column was not found')
    eps = 'eps' if M.exchanged else 'eps1'
    sites = list(M.sites.values())
    r.count('scaling sites', len(sites))
    goal = P_goal('EPS2' if M.exchanged else 'EPS1')
    if M.exchanged and 'eps1' in v.taint:
        r.violation('R3', where, f['fn'], '%s: the signal depends on the epsilon of a detector that was exchanged before the call' % tag)
    if not cal or norm:
        if eps in v.taint or 'eps1' in v.taint:
            w = sites[0] if sites else None
            r.violation('R2', w['where'] if w else where, w['fn'] if w else f['fn'], '%s: the signal is scaled with the efficiency of the '
                        'detector' % tag)
        return
    for s in sites:
        r.sample('%s: scaled at %s in %s by %s' % (tag, s['where'], s['fn'], s['last']))
    if eps not in v.taint:
        r.violation('R1', where, f['fn'], '%s: the signal is not scaled' % tag)
        return
    for s in sites:
        if s['base'] == conv.PN[0] and s['col'] not in (3, None):
            r.violation('R1', s['where'], s['fn'], '%s: column %s is scaled' % (tag, s['col']), key='column')
    uniq = {}
    for s in sites:
        uniq.setdefault((s['node'], s['last']), s)
    us = list(uniq.values())
    if len(us) == 1 and us[0]['last'] is not None:
        if not same(us[0]['last'], goal):
            r.violation('R1', us[0]['where'], us[0]['fn'], '%s: the signal is scaled by %s' % (tag, us[0]['last']), key='factor')
    elif us and all(s['last'] is not None and same(s['last'], goal) for s in us) and all(s['base'] == conv.PN[0] for s in us):
        r.violation('R1', us[1]['where'], us[1]['fn'], '%s: the signal is scaled more than once' % tag, key='twice')
    elif us and all(s['last'] is not None for s in us):
        for s in us:
            if s['base'] == conv.PN[0] and not same(s['last'], goal) and len(us) == 1:
                r.violation('R1', s['where'], s['fn'], '%s: the signal is scaled by %s' % (tag, s['last']), key='factor')
    # every row
    nodes = set(s['base'] for s in us)
    exact = [x for x in v.alts if isinstance(x, Poly)]
    ok = len(v.alts) == 1 and linear(S, v.alts[0]) is not None
    if ok:
        x = linear(S, v.alts[0])
        r.count('signal columns proven scaled')
        if not same(x, goal):
            r.violation('R1', us[0]['where'] if us else where, us[0]['fn'] if us else f['fn'], '%s: the signal is scaled by %s' % (tag, x),
                        key='factor')
    else:
        part = sorted(str(q[1]) for q in v.prov if isinstance(q, tuple) and q[0] == 'partial')
        if part:
            r.violation('R1', part[0], f['fn'], '%s: the scaling does not sweep all rows' % tag, key='partial')
        elif us:
            for w, (fn, n, size) in sorted(M.other.items()):
                r.violation('R1', w, fn, '%s: the scaling sweeps %s rows, the array has %s elements' % (tag, n, size), key='partial')
        cond = [m for m in M.maybe if m[2] == conv.PN[0] and any(s['base'] == m[2] for s in us)]
        if cond:
            r.violation('R1', cond[0][0], cond[0][1], '%s: not every sample is scaled' % tag, key='condition')
        r.note('%s: the scaling was not proven to sweep all rows' % tag)


def linear(S, p):
    if not isinstance(p, Poly):
        return None
    for a in p.atoms():
        if a not in S.eldef:
            continue
        q = {}
        for m, co in p.t.items():
            if m.count(a) != 1:
                return None
            k = list(m)
            k.remove(a)
            q[tuple(k)] = co
        x = Poly(q)
        if has_eps(x):
            return x
    return None


def P_goal(w):
    e = A((w, 'd'))
    return A(('inv', C(1).add(e))).scale(2)


def same(p, q):
    return p.sub(q) == ZERO or p == q
