"""P16: a convolver stays within the expansion orders of its inputs."""
import facts, conv, par, load
import engine as G
import poly as P
from poly import *
from scen import *
from conv import *

NAME = {'s': 'sky', 'b': 'beam', 's2': 'new sky', 'b2': 'new beam'}
CL = {'s': 'sky', 'b': 'beam'}
FIELDS = {'lmax': ('lmax', 'lmax_'), 'mmax': ('beammmax', 'mmax', 'beammmax_', 'mmax_'), 'order': ('order', 'order_')}


def le(st, p, q):
    return P.entails_split(st.facts, (p.sub(q), '<='))


class Judge:
    def __init__(self, r, F, tag):
        self.r, self.F, self.tag = r, F, tag
        rec = F.records[conv.CLS]
        names = [x['n'] for x in rec['fields']]
        self.fld = {}
        for k, c in FIELDS.items():
            h = [x for x in c if x in names]
            if not h:
                raise facts.CheckError('the convolver has no member for its effective %s' % k)
            self.fld[k] = h[0]

    def get(self, S, st, k):
        v = S.cell(st, CONV.base, (self.fld[k],), None, True)
        return v.poly()

    def claims(self, S, st, o, which):
        """what an input reports of its orders"""
        fs = [f for f in self.F.funcs.values() if f['fn'] == 'conviqt::%s::get_%s' % (CL[o[0]], which) and not f.get('params') and f.get('body')]
        if not fs:
            return None
        ok, v, t, tt = S.invoke(fs[0], LV(('O', o)), [], st.copy())
        return v.poly() if ok is not None and v is not None else None

    def held(self, S, st, key):
        v = st.get(CONV.base, (key,))
        return sorted(set(l.base[1] for l in v.ptrs)) if v is not None else []

    def judge(self, S, st, f, what):
        """the orders of a convolver that exists"""
        r = self.r
        where = '%s:%s' % (f['f'], f.get('l'))
        L, M, N = (self.get(S, st, k) for k in ('lmax', 'mmax', 'order'))
        if L is None or M is None or N is None:
            raise facts.CheckError('the effective orders cannot be expressed (%s)' % self.tag)
        obl = [(C(1), L, 'lmax may be less than one'), (C(0), M, 'mmax may be negative'), (M, L, 'mmax may exceed lmax')]
        if 'construct' in what:
            obl += [(C(0), N, 'the interpolation order may be negative')]
            for nm in ('nphi', 'ntheta'):
                g, n = (S.cell(st, CONV.base, (x,), None, True).poly() for x in (nm, 'npoints'))
                if g is not None and n is not None and st.get(CONV.base, (nm,)) is not None and st.get(CONV.base, ('npoints',)) is not None:
                    obl += [(n, g, 'the interpolation may need more points than there are (%s)' % nm)]
                else:
                    obl += [(N, L.scale(2), 'the interpolation order may exceed 2*lmax')]
        for o in self.held(S, st, 's') + self.held(S, st, 'b'):
            x = self.claims(S, st, o, 'lmax')
            if x is None:
                raise facts.CheckError('the %s does not report its lmax' % NAME[o])
            obl += [(L, x, 'lmax may exceed that of the %s' % NAME[o])]
            if o[0] == 'b':
                y = self.claims(S, st, o, 'mmax')
                if y is None:
                    raise facts.CheckError('the beam does not report its mmax')
                obl += [(M, y, 'mmax may exceed that of the %s' % NAME[o])]
        for a, b, t in obl:
            r.count('order obligations')
            if not le(st, a, b):
                r.violation('R1', where, f['fn'], '%s: after %s %s' % (self.tag, what, t), key=what + t)

    def reload(self, S, st):
        """the inputs may have been loaded anew, with any orders"""
        n = 0
        for o in ('s', 'b'):
            b = ('O', o)
            for fl in self.F.records['conviqt::' + CL[o]]['fields']:
                if S.is_int_t(fl['t']) and fl['t'] != 'bool':
                    st.put(b, (fl['n'],), arg('reloaded %s %s' % (o, fl['n']), True))
                    n += 1
        return n


def judge(r, F, pol, exchange):
    J = Judge(r, F, '%s convolver' % ('polarised' if pol else 'unpolarised'))
    reads = {}

    def enter(eng, f, this, args, n, st):
        cls = G.unref(f.get('cls') or '')
        if c is None or not (cls.startswith('levels::Alm<') or cls == 'levels::Alm_Base'):
            return
        if f['sn'] not in ('operator()', 'index', 'mstart', 'index_l0'):
            return
        th = this[0] if isinstance(this, list) else this
        if th is None or th.base[0] != 'O' or th.base[1] not in CL:
            return
        if any('Alm' in (x.get('cls') or '') for x in load.frames(eng)):
            return
        k = (eng.where(n), eng.frame.ctx, th.base, th.path)
        reads.setdefault(k, []).append((f['sn'], [eng.ev(a, st).poly() for a in args], st.copy(), eng.fname()))
    c = None
    box = {}

    def between(cc, st, i):
        nonlocal c
        c = cc
        J.judge(cc.S, st, cc.ctor, 'construction')
        r.count('order members that may be reloaded', J.reload(cc.S, st))
        for o in ('s', 'b'):
            for w in ('lmax', 'mmax'):
                box[o, w] = J.claims(cc.S, st, o, w)
        box['st'] = st.copy()
        return st
    cc = conv.Conv(F, pol, True, rows=1, hooks={'enter': enter}, between=between, **({'runs': 0} if exchange else {}))
    if cc.after_ctor is None:
        raise facts.CheckError('a convolver can never be constructed')
    if not exchange:
        r.count('convolve scenarios')
        r.count('abstract steps', cc.S.steps)
        if cc.ok is None:
            raise facts.CheckError('convolve never returns normally')
        J.judge(cc.S, cc.ok, cc.conv, 'a convolution')
        for (w, ctx, base, path), l in sorted(reads.items(), key=lambda x: x[0][0]):
            sn, vals, st, fn = l[-1]
            o = base[1]
            r.count('coefficient accesses bounded')
            r.sample('%s: %s of the %s addressed at %s' % (J.tag, '.'.join(map(str, path)), NAME[o], w))
            two = sn in ('operator()', 'index')
            m = vals[1] if two else vals[0]
            l_ = vals[0] if two else None
            lm = box[o, 'lmax']
            mm = box[o, 'mmax'] if box[o, 'mmax'] is not None else lm
            bad = []
            if m is None or not le(st, ZERO, m):
                bad.append('m may be negative')
            if m is None or not le(st, m, mm):
                bad.append('m may exceed what the %s holds' % NAME[o])
            if two and (l_ is None or not le(st, l_, lm)):
                bad.append('l may exceed what the %s holds' % NAME[o])
            if bad:
                r.violation('R2', w, fn, '%s: a coefficient is read where %s' % (J.tag, ' and '.join(bad)), key=','.join(bad))
        return
    st0 = cc.after_ctor.copy()
    J.judge(cc.S, st0, cc.ctor, 'construction')
    for nm, o in (('set_sky', 's'), ('set_beam', 'b')):
        fs = [x for x in F.funcs.values() if x['fn'] == conv.CLS + '::' + nm and x.get('body')]
        if not fs:
            raise facts.CheckError('no %s in the convolver' % nm)
        st = st0.copy()
        J.reload(cc.S, st)
        b = LV(('O', o + '2'))
        ok, rr, t, tt = cc.S.invoke(fs[0], CONV, [Val((A(('obj', o, 2)),), ptrs=(b,))], st)
        r.count('exchanges of an input')
        if ok is None:
            raise facts.CheckError('%s never succeeds' % nm)
        if J.held(cc.S, ok, o) != [o + '2']:
            r.violation('R1', '%s:%s' % (fs[0]['f'], fs[0].get('l')), fs[0]['fn'], '%s: after a successful %s another %s may be in use'
                        % (J.tag, nm, CL[o]), key='held')
        J.judge(cc.S, ok, fs[0], 'a successful %s' % nm)
        if t is not None:
            r.count('failing exchanges')
            if J.held(cc.S, t, o) != [o]:
                r.violation('R3', '%s:%s' % (fs[0]['f'], fs[0].get('l')), fs[0]['fn'], '%s: when %s fails the convolver no longer uses '
                            'the %s it had' % (J.tag, nm, CL[o]), key='kept')


def impossible(fs, depth=0):
    """conditions that contradict each other"""
    P.MINSPLIT[:] = [1]
    for f in sorted(fs, key=str):
        if f[0].is_const():
            x = f[0].const()
            if not {'<=': x <= 0, '<': x < 0, '==': x == 0, '!=': x != 0}.get(f[1], True):
                return True
        elif f[1] == '<=':
            if P.entails_split(fs - {f}, (C(1).sub(f[0]), '<=')):
                return True
        elif f[1] == '!=' and P.entails_split(fs - {f}, (f[0], '==')):
            return True
        elif f[1] == '==' and (P.entails_split(fs - {f}, (f[0].add(C(1)), '<=')) or P.entails_split(fs - {f}, (C(1).sub(f[0]), '<='))):
            return True
    if depth > 7:
        return False
    # each way a value may have come
    at = sorted({a for f in fs for a in f[0].atoms() if a in P.PHI and P.PHI[a][0] in P.SITE}, reverse=True)
    for i in at:
        site, x, y = P.PHI[i]
        sf = P.SITE[site]
        ways = []
        for k, v in ((0, x), (1, y)):
            g = set()
            for f in set(fs) | set(sf[k]):
                q = P.subst(f[0], {i: v}) if i in f[0].atoms() else f[0]
                if q is None:
                    break
                g.add((q, f[1]))
            else:
                ways.append(frozenset(g))
        if len(ways) == 2:
            return all(impossible(w, depth + 1) for w in ways)
    return False


def defaults(r, F):
    """orders left to the library, inputs that hold something"""
    cells = {}
    at = {}

    def cell(o, nm, v):
        cells[('O', o), (nm,)] = v
        cells[('O', o), (nm + '_',)] = v
    for o in ('s', 'b'):
        v = arg('%s lmax' % o, True)
        P.AFACTS.setdefault(v.poly().single_atom(), [(C(1).sub(v.poly()), '<=')])
        cell(o, 'lmax', v)
        at[o] = v
    v = arg('b mmax', True)
    P.AFACTS.setdefault(v.poly().single_atom(), [(C(0).sub(v.poly()), '<='), (v.poly().sub(at['b'].poly()), '<=')])
    cell('b', 'mmax', v)
    ctor = conv.Conv.find_ctor(type('X', (), {'F': F}))
    ints = [p['n'] for p in ctor['params'] if G.unref(p['t']) == 'long']
    if len(ints) != 3:
        raise facts.CheckError('the constructor of the convolver does not take three orders')
    for what, vals in (('lmax and mmax', (-1, -1, 1)), ('lmax', (-1, 0, 1)), ('mmax', (1, -1, 1))):
        given = dict(zip(ints, [K(x) for x in vals]))
        at_ = {}

        def throw(eng, n, st):
            at_.setdefault(eng.where(n), []).append(st.facts)
        cc = conv.Conv(F, True, True, runs=0, cells=cells, cargs=given, hooks={'throw': throw})
        r.count('constructions with default orders')
        if cc.ok is None:
            r.violation('R4', '%s:%s' % (ctor['f'], ctor.get('l')), ctor['fn'], 'a construction that leaves %s to the library always fails'
                        % what, key=what)
        for x in cc.S.throwlog.values():
            if set(x['types']) <= {'std::bad_alloc'} or 'MPI' in x['fn'] or 'mpi' in x['where']:
                continue
            r.count('failures looked at')
            if at_.get(x['where']) and all(impossible(fs) for fs in at_[x['where']]):
                continue
            r.violation('R4', x['where'], x['fn'], 'a construction that leaves %s to the library may fail here although both inputs hold '
                        'an expansion' % what, key=what)


def run(rep):
    rep.rule('R1: at every normal end of construction, of an exchange of sky or beam and of a convolution the conditions that hold imply '
             '1 <= lmax, 0 <= mmax <= lmax, lmax at most the lmax of sky and beam, mmax at most that of the beam; after construction also '
             '0 <= order and that the interpolation needs no more points than the grid has')
    rep.rule('R2: wherever a convolution addresses a coefficient (l,m) of sky or beam, the conditions that hold there imply l <= lmax and '
             '0 <= m <= mmax of that input')
    rep.rule('R3: an exchange that fails leaves the convolver with the input it had')
    rep.rule('R4: a construction with inputs that hold an expansion does not fail when lmax or mmax is left to the library')
    rep.assumptions.append('an input holds the coefficients for the orders it reports (P23); between calls sky and beam may be loaded '
                           'anew with any orders')
    F = facts.load()
    jobs = [('default orders', lambda r: defaults(r, F))]
    for pol in (0, 1):
        for ex in (0, 1):
            jobs.append(('orders pol=%d %s' % (pol, 'exchange' if ex else 'convolve'), lambda r, pol=pol, ex=ex: judge(r, F, pol, ex)))
    par.scenarios(rep, jobs)
    rep.need('convolve scenarios', 2)
    rep.need('exchanges of an input', 4)
    rep.need('coefficient accesses bounded', 4)
