"""P12: illegal pointing is rejected on all ranks before it is used, legal pointing never is."""
import math
import facts, conv, par
import engine as G
import poly as P
from poly import *
from scen import *
from conv import *

HP, PI = 1.5707963267948966, 3.141592653589793
COLN = {0: 'longitude', 1: 'co-latitude', 2: 'position angle'}
LEGAL = {0: 0.5, 1: 1.0, 2: 0.25}
DENORM = 5e-324
ILLEGAL = [(1, G.NAN), (1, G.PINF), (1, G.NINF), (1, -DENORM), (1, -1.0), (1, math.nextafter(PI, 4)), (1, 4.0),
           (0, G.NAN), (0, G.PINF), (0, G.NINF), (2, G.NAN), (2, G.PINF), (2, G.NINF)]
FULL = [(0.0, 0.0, 0.0), (DENORM, 1e300, -1e300), (1.0, -1.0, 7.0), (math.nextafter(HP, 0), 0.5, 0.5), (HP, -1e300, 1e300),
        (math.nextafter(HP, 4), 100.0, -100.0), (3.0, 0.0, 1.0), (math.nextafter(PI, 0), 0.5, 0.5), (PI, 6.5, -6.5)]
SOME = [(1, 0.0), (1, DENORM), (1, HP), (1, math.nextafter(HP, 4)), (1, PI), (0, -1e300), (2, 1e300)]
POS = ('the first', 'a middle', 'the last', 'the second')


class Stop(Exception):
    def __init__(self, what, **kw):
        Exception.__init__(self, what)
        self.what = what
        self.kw = kw


class Peel(Exception):
    def __init__(self, key):
        Exception.__init__(self)
        self.key = key


def alt(x):
    return x if isinstance(x, str) else C(x)


def show(x):
    return x if isinstance(x, str) else repr(x)


class Watch:
    """one convolution with given angles: every sample holds `vals`, except that sample number J holds X in column col"""
    def __init__(self, F, pol, vals, J=None, col=None, X=None, base=None, held=None, stop=True):
        self.F, self.pol, self.vals = F, pol, vals
        self.pos, self.col, self.X = J, col, X
        self.base, self.held, self.stop = base, held, stop
        self.peel = set()
        for i in range(12):
            try:
                self.reset()
                self.once()
                break
            except Peel as e:
                self.peel.add(e.key)
        else:
            raise facts.CheckError('the loops over the samples cannot be told apart')

    def reset(self):
        self.J = None
        self.given = {}
        self.ambig = False
        self.indexed = None
        self.nindex = 0
        self.nchecked = 0
        self.sent = {}
        self.outside = []
        self.phase = {}
        self.end = None

    def once(self):
        cells = {}
        for c, x in self.vals.items():
            cells[PN[0], ('[%d]' % c,)] = Val((alt(x),), frozenset(['ang', 'rank', 'p1']), frozenset([('col', PN[0], '[%d]' % c)]))
        try:
            c = Conv(self.F, self.pol, False, rows=1, cells=cells, opts={'ieee': True}, attach=self.attach,
                     hooks={'index': self.index, 'ptrindex': self.ptrindex, 'coll': self.coll, 'branch': self.branch, 'reduce': self.reduce})
        except Stop as e:
            self.end = (e.what, e.kw)
            return
        if not c.runs:
            raise facts.CheckError('no convolver can be constructed')
        self.end = ('returned' if c.runs[0][0] is not None else 'threw', {'log': c.log})
        if self.end[0] == 'threw' and c.runs[0][2] is None:
            self.end = ('undecided', {})

    # where the exceptional sample is
    def attach(self, S):
        self.S = S
        T = A(('rows', PN[0]), True)
        if self.pos is not None:
            if self.pos == 0:
                self.J = C(0)
            elif self.pos == 3:
                self.J = A(('row', '1'), True)
                P.AFACTS.setdefault(self.J.single_atom(), [norm_fact(self.J.sub(ONE), '=='), norm_fact(self.J.add(ONE).sub(T), '<=')])
            elif self.pos == 2:
                # a second sample at least: the first one has been looked at
                self.J = A(('row', 'last'), True)
                P.AFACTS.setdefault(self.J.single_atom(), [norm_fact(C(1).sub(self.J), '<='), norm_fact(self.J.add(ONE).sub(T), '==')])
            else:
                self.J = A(('row', 'J'), True)
                P.AFACTS.setdefault(self.J.single_atom(), [(norm_fact(C(1).sub(self.J), '<=')), norm_fact(self.J.add(C(2)).sub(T), '<=')])
        rd, loop, iteration = S.rd, S.loop, S.iteration

        def myrd(lvs, node, st, t=None):
            v = rd(lvs, node, st, t)
            if 'ang' not in v.taint or self.J is None or not any(G.has_elem(l.path) for l in lvs):
                return v
            if len(lvs) == 1 and lvs[0].base == PN[0] and len(lvs[0].idx) == 1 and isinstance(lvs[0].idx[0], Poly):
                ix = lvs[0].idx[0]
                want = self.J.scale(5).add(C(self.col))
                e = S.cmp1('==', ix, want, st)
                if e is True:
                    self.nchecked += 1
                    return v.with_(alts=(alt(self.X),), taint=v.taint | {'X'})
                if e is False:
                    return v
                if not any(p[0] == 'col' and p[2] == '[%d]' % self.col for p in v.prov) and residue(ix, 5) not in (self.col, None):
                    return v
                ks = [P.NAMES[a] for a in ix.atoms() if P.NAMES[a][0] == 'K']
                if len(ks) == 1 and ks[0][1] not in self.peel and ks[0][1][1] not in self.phase:
                    raise Peel(ks[0][1])
            elif not any(p[0] == 'col' and p[2] == '[%d]' % self.col for p in v.prov) and v.prov and all(p[0] == 'col' for p in v.prov):
                return v
            self.ambig = True
            return v.with_(alts=v.alts + (alt(self.X),), taint=v.taint | {'X'}) if len(v.alts) < 4 else v
        S.rd = myrd

        def myloop(n, st, o, s0, cond, body, inc, post=False, head=None):
            k = (id(n), S.frame.ctx)
            if k not in self.peel or post or self.J is None or S.frame.ctx in self.phase:
                return loop(n, st, o, s0, cond, body, inc, post, head)
            omp = n.get('_omp')
            if omp:
                n['_omp'] = None
            try:
                return self.three(loop, n, st, o, s0, cond, body, inc, head)
            finally:
                S.frame.ctx = k[1]
                if omp:
                    n['_omp'] = omp
        S.loop = myloop

        def myiteration(n, s, cond, body, inc, post, head, lk):
            res = iteration(n, s, cond, body, inc, post, head, lk)
            if self.phase.get(lk[1]) in ('A', 'C') and self.stash is not None and lk[0] == self.stash[0]:
                self.stash[1] = res['out'].b
                res['out'].b = None
            return res
        S.iteration = myiteration
        self.stash = None

    def three(self, loop, n, st, o, s0, cond, body, inc, head):
        """the iterations before the one that meets sample J, that one, and those after it"""
        S = self.S
        fr = S.frame
        octx = fr.ctx

        def test(s):
            if cond is None:
                return ('k', True), E0
            return cond(s) if callable(cond) else S.evc(cond, s)

        def brk(b):
            b.mw = dict((k, (None, v[1], None)) for k, v in b.mw.items())
            return b
        ends = []
        acc = G.Out()
        ctx = {}
        for ph in 'ABC':
            ctx[ph] = S.ctx(octx, 'peel', id(n), ph)
            self.phase[ctx[ph]] = ph

        def run(ph, state, cnd):
            fr.ctx = ctx[ph]
            old = self.stash
            self.stash = [id(n), None]
            x = loop(n, state, G.Out(), s0, cnd, body, inc, False, head)
            if self.stash[1] is not None:
                ends.append(brk(self.stash[1]))
            self.stash = old
            fr.ctx = octx
            e, x.n = x.n, None
            S.merge(acc, x, n, s0)
            return e
        Kp = A(('K', (id(n), ctx['A']), S.ws[-1] if S.ws else None), True)
        P.AFACTS.setdefault(Kp.single_atom(), [(Kp.scale(-1), '<=')])

        def condA(s):
            c, ta = test(s)
            return ('and', c, ('cmp', '<', (Kp,), (self.J,), False)), ta
        e = run('A', st, condA) if self.pos else st
        if e is not None:
            fr.ctx = ctx['B']
            if self.pos:
                e = S.assume(('cmp', '<=', (Kp,), (self.J,), False), e, True)
                x = e.copy()
                c, ta = test(x)
                x = S.assume(c, x, False)
                if x is not None:
                    ends.append(x)
                e = S.assume(('cmp', '==', (Kp,), (self.J,), False), e, True)
            if e is not None:
                c, ta = test(e)
                x = S.assume(c, e.copy(), False)
                if x is not None:
                    ends.append(x)
                e = S.assume(c, e, True)
            if e is not None and head is not None:
                head(e)
            if e is not None:
                p = S.stmt(body, e)
                e = S.joins(p.n, p.c, (id(n), fr.ctx, 'c'), s0) if p.c is not None else p.n
                p.c = None
                if p.b is not None:
                    ends.append(brk(p.b))
                    p.b = None
                S.merge(acc, p, n, s0)
            if e is not None and inc is not None:
                if callable(inc):
                    inc(e)
                else:
                    def f():
                        S.ev(inc, e)
                        return e
                    e, t, tt = S.guarded(n, e, f)
                    if t is not None:
                        S.addt(acc, t, tt, n)
            fr.ctx = octx
        if e is not None:
            x = run('C', e, test)
            if x is not None:
                ends.append(x)
        S.merge(o, acc, n, s0)
        cur = None
        for i, x in enumerate(ends):
            cur = x if cur is None else S.joins(cur, x, (id(n), octx, 'peel', i), s0)
        o.n = cur
        S.resplit(o.n, s0, o.r, o.t)
        return o

    # what the angles are used for
    def note(self, eng, taint, n, what):
        if 'ang' not in taint or not any(f['fn'] == conv.CLS + '::convolve' for f in self.funs(eng)):
            return
        self.nindex += 1
        w = dict(where=eng.where(n), fn=eng.fname(), use=what)
        if 'X' in taint and self.stop == 'illegal':
            raise Stop('used', ambig=self.ambig, **w)
        if self.indexed is None:
            self.indexed = w
        if 'X' in taint and self.stop == 'legal':
            raise Stop('accepted')

    def funs(self, eng):
        fr = eng.frame
        while fr is not None:
            yield fr.func
            fr = fr.parent

    def branch(self, eng, n, c, ta, tv, st):
        if tv is None and 'ang' in ta and self.indexed is None:
            # an angle is tested and what comes out is not known
            self.ambig = True

    def index(self, eng, obj, ps, ivs, n, st):
        for k, (p, v) in enumerate(zip(ps, ivs)):
            self.note(eng, v.taint, n, 'as an index')
            if self.stop or 'ang' not in v.taint or p is None:
                continue
            for o in obj:
                sz = st.get(o.base, o.path + (('#n',) if len(ps) == 1 else ('#n%d' % (k + 1),)))
                s = sz.poly() if sz is not None else None
                low = S_true(eng, '<', p, ZERO, st)
                high = s is not None and S_true(eng, '>=', p, s, st)
                if low or high:
                    self.outside.append(dict(where=eng.where(n), fn=eng.fname(), idx=str(p)[:80], size=str(s)[:80]))

    def ptrindex(self, eng, n, v, st):
        self.note(eng, v.taint, n, 'to move a pointer')

    def coll(self, eng, n, st, e):
        nm = e['name']
        if not self.stop:
            return
        bad = [e.get('root'), e.get('count')] + list(e.get('counts') or [])
        for v in bad:
            if isinstance(v, Val):
                t = v.taint
                for l in v.ptrs:
                    t = t | eng.otaint(st, LV(l.base))
                if 'ang' in t:
                    self.indexed = self.indexed or dict(where=eng.where(n), fn=eng.fname(), use='as a message size or destination')
        if self.indexed and nm not in ('Barrier', 'Allreduce', 'Reduce', 'Bcast', 'Scan', 'Exscan', 'Allgather', 'Gather'):
            raise Stop('sent', ambig=self.ambig, where=eng.where(n), fn=eng.fname(), use=nm, index=self.indexed)

    # reductions over the processes
    def reduce(self, eng, n, st, name, sv, op, default):
        if name not in ('Allreduce', 'Reduce') or sv is None:
            return None
        if len(sv.alts) != 1:
            if 'X' in sv.taint:
                self.ambig = True
            return None
        key = (id(n), tuple(eng.stack()))
        own = sv.alts[0]
        self.sent[key] = own
        if self.stop == 'all':
            # a single process will do
            return sv.with_(taint=default.taint, prov=frozenset([('reduced',)]), cond=None)
        vals = [own]
        for d in (self.base, self.held):
            if d is not None:
                if key not in d:
                    return None
                vals.append(d[key])
        names = set(str(l.base[1]).split('_')[-1] for l in op.ptrs if l.base[0] == 'G')
        o = names.pop() if len(names) == 1 else None
        if any(isinstance(x, str) for x in vals):
            if o != 'sum' or G.NAN not in vals:
                self.ambig = True
                return None
            r = G.NAN
        else:
            r = self.combine(eng, o, vals, st)
        if r is None:
            return None
        return Val((r,), default.taint, frozenset([('reduced',)]))

    def combine(self, eng, o, vals, st):
        """the legal processes all contribute the same"""
        own = vals[0]
        if o in ('max', 'min'):
            r = own
            for x in vals[1:]:
                c = eng.cmp1('>=' if o == 'max' else '<=', r, x, st)
                if c is None:
                    return None
                r = r if c else x
            return r
        if o == 'sum':
            if self.base is None:
                return own if own == ZERO else None
            # all but one of them add zero
            ot = [x for x in vals if x != ZERO]
            legal = vals[1] if self.held is None else vals[0]
            return None if legal != ZERO else ot[0] if len(ot) == 1 else ZERO if not ot else None
        if o == 'prod':
            return ZERO if ZERO in vals else None
        ts = [eng.cmp1('!=', x, ZERO, st) for x in vals]
        if o == 'lor':
            return ONE if True in ts else None if None in ts else ZERO
        if o == 'land':
            return ZERO if False in ts else None if None in ts else ONE
        if o in ('bor', 'band') and all(x.is_const() for x in vals):
            r = int(vals[0].const())
            for x in vals[1:]:
                r = r | int(x.const()) if o == 'bor' else r & int(x.const())
            return C(r)
        return None


def S_true(eng, op, a, b, st):
    return eng.cmp1(op, a, b, st) is True


def kind(pol):
    return 'polarised' if pol else 'unpolarised'


def base(F, pol):
    w = Watch(F, pol, LEGAL, stop='base')
    return w.sent


def illegal(r, F, pol, cases):
    b = base(F, pol)
    for col, X in cases:
        r.sample('%s convolution, %s %s in one sample: rejected by every process before any use' % (kind(pol), COLN[col], show(X)))
        definite = False
        for J in (0, 3, 1, 2):
            what = '%s convolution with the %s %s in %s sample of a process' % (kind(pol), COLN[col], show(X), POS[J])
            r.count('illegal samples traced')
            h = Watch(F, pol, LEGAL, J, col, X, base=b, stop='illegal')
            if not judge(r, h, what, 'that process'):
                definite = None
                continue
            o = Watch(F, pol, LEGAL, base=b, held=h.sent, stop='illegal')
            if not judge(r, o, what, 'the other processes'):
                definite = None
                break
            r.count('illegal samples rejected everywhere')
            r.count('reads of the illegal angle', h.nchecked)
        if definite is None and col is not None:
            # every sample is illegal on every process: nothing depends on which one is looked at
            v = dict(LEGAL)
            v[col] = X
            w = Watch(F, pol, v, stop='all')
            judge(r, w, '%s convolution with the %s %s in every sample' % (kind(pol), COLN[col], show(X)), 'every process')


def judge(r, w, what, who):
    k, d = w.end
    if k == 'threw':
        r.count('runs that end with the error')
        return True
    if k == 'undecided' or w.ambig:
        r.note('%s: not decided for %s' % (what, who))
        return False
    if k == 'used':
        r.violation('rejected before use', d['where'], d['fn'], '%s: the value is used %s before the error' % (what, d['use']),
                    key='%s use' % COLN.get(w.col, 'all'))
    elif k == 'sent':
        r.violation('rejected before use', d['where'], d['fn'], '%s: %s go on to exchange samples (%s) by their angles' % (what, who, d['use']),
                    key='%s %s' % (COLN.get(w.col, 'any'), who))
    else:
        f = w.F.one(conv.CLS + '::convolve')
        r.violation('rejected on every process', '%s:%s' % (f['f'], f['l']), f['fn'], '%s: %s return without an error' % (what, who),
                    key='%s %s' % (COLN.get(w.col, 'any'), who))
    return True


def rejected(r, w, what):
    k, d = w.end
    if k != 'threw' or w.ambig:
        return
    l = (d['log'] or [{}])[-1]
    f = w.F.one(conv.CLS + '::convolve')
    r.violation('legal pointing is accepted', l.get('where') or '%s:%s' % (f['f'], f['l']), l.get('fn') or f['fn'],
                '%s: the convolution fails' % what, key='rejected')


def full(r, F, pol, v):
    w = Watch(F, pol, {1: v[0], 0: v[1], 2: v[2]}, stop=None)
    what = '%s convolution with co-latitude %r, longitude %r, position angle %r' % (kind(pol), *v)
    r.sample('%s: goes through, every table index inside' % what)
    r.count('legal pointings followed to the end')
    r.count('table accesses at a place given by an angle', w.nindex)
    rejected(r, w, what)
    for d in w.outside:
        r.violation('tables are not left', d['where'], d['fn'], '%s: index %s of a table of size %s' % (what, d['idx'], d['size']),
                    key='outside')


def some(r, F, pol, cases):
    b = base(F, pol)
    for col, X in cases:
        for J in (0, 3, 1, 2):
            w = Watch(F, pol, LEGAL, J, col, X, base=b, stop='legal')
            r.count('legal samples among others')
            rejected(r, w, '%s convolution with the %s %s in %s sample of a process' % (kind(pol), COLN[col], show(X), POS[J]))


def run(rep):
    F = facts.load()
    rep.rule('A convolution of an arbitrary number of samples on an arbitrary number of processes in which one sample anywhere has an '
             'illegal angle ends with an error on the process that holds it and on every other one, and no process has used that angle '
             'as an index, or exchanged samples by their angles, before; one with legal angles reaches its end and never indexes a table '
             'outside its size.')
    jobs = []
    for pol in (0, 1):
        for i in range(0, len(ILLEGAL), 4):
            cs = ILLEGAL[i:i + 4]
            jobs.append(('illegal %d %d' % (pol, i), lambda r, pol=pol, cs=cs: illegal(r, F, pol, cs)))
        jobs.append(('some %d' % pol, lambda r, pol=pol: some(r, F, pol, SOME)))
        for v in FULL if not pol or rep.tier == 'thorough' else FULL[::4]:
            jobs.append(('full %d %r' % (pol, v), lambda r, pol=pol, v=v: full(r, F, pol, v)))
    par.scenarios(rep, jobs)
    rep.need('illegal samples traced', 13 * 4 * 2)
    rep.assumptions += [
        'angles are represented by classes: not a number, the infinities, the numbers next to the ends of the range and some inside; '
        'arithmetic on them follows IEEE double precision',
        'at most one sample of one process is illegal; further ones only add to the reductions',
        'the sequential order stands for every schedule of a parallel loop (P03)']
