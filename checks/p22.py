"""P22: nothing one convolution leaves behind has a part in what a later one returns."""
import facts, conv, par
import engine as G
from poly import *
from scen import *
from conv import *

COLS = ['longitude', 'co-latitude', 'position angle', 'signal', 'row number']
SETS = (('set_sky', 's'), ('set_beam', 'b'), ('set_detector', 'd'))
NAME = {'s': 'sky', 'b': 'beam', 'd': 'detector'}


def persists(b):
    return b == CONV.base or b[0] in ('S', 'G')


def fname(b, p):
    """the variable a cell belongs to"""
    if b == CONV.base:
        return str(p[0]) if p else '?'
    return 'static ' + str(b[1])


def judge(r, F, pol, exchange):
    tag = '%s convolution%s' % ('polarised' if pol else 'unpolarised', ', inputs exchanged in between' if exchange else '')
    changed = {}

    def kept(st):
        for b, d in st.m.items():
            if persists(b):
                for p, v in d.items():
                    yield b, p, v

    def between(c, st, i):
        if i == 0:
            for b, p, v in list(kept(st)):
                if not any(str(x).startswith('#') for x in p) and v.prov != G.UNINIT:
                    st.put(b, p, v.tainted(frozenset([('h0:', fname(b, p))])))
            return st
        before, th = c.after_ctor, c.runs[0][2]
        now = st if th is None else c.S.joins(st.copy(), th, ('two ends',), None, G.E0)
        st = now
        for b, p, v in list(kept(st)):
            o = (before.m.get(b) or {}).get(p)
            r.count('persistent cells compared')
            if o is None or not o.same_value(v):
                # not as the constructor left it
                changed.setdefault(fname(b, p), (b, p))
        for b, p, v in list(kept(st)):
            f = fname(b, p)
            if f in changed:
                st.put(b, p, v.tainted(frozenset([('h:', f)])))
        if exchange:
            for nm, o in SETS:
                fs = [x for x in F.funcs.values() if x['fn'] == conv.CLS + '::' + nm and x.get('body')]
                if not fs:
                    raise facts.CheckError('no %s in the convolver' % nm)
                ok, rr, t, tt = c.S.invoke(fs[0], CONV, [Val((A(('obj', o, 2)),), ptrs=(LV(('O', o + '2')),))], st)
                r.count('exchanges of an input')
                if ok is None:
                    raise facts.CheckError('%s never succeeds' % nm)
                st = ok
        return st
    cal = [Val((A(('cal', i), True),), frozenset(['p%d' % (i + 1)])) for i in (0, 1)]
    first = {}

    def store(eng, lvs, v, node, st):
        if any(l.base == PN[1] for l in lvs):
            for t in v.taint:
                if t == 'p1' or t[0] in ('h:', 'hc:', 'in1'):
                    first.setdefault(t, (eng.where(node), eng.fname()))
        return None

    class C2(Conv):
        def init_hook(self, st, base, path, isint):
            v = Conv.init_hook(self, st, base, path, isint)
            if v is None and base in (('O', 's'), ('O', 'b'), ('O', 'd')) and (G.has_elem(path) or base[1] == 'd') and not isint:
                return Val((A(('in', base, path)),), frozenset([('in1', base[1])]), G.UNK)
            return v
    c = C2(F, pol, cal, twice=True, rows=1, between=between, hooks={'store': store}, opts={'hist': persists})
    r.count('convolve scenarios', 2)
    r.count('abstract steps', c.S.steps)
    if c.ok is None or len(c.runs) < 2:
        raise facts.CheckError('convolve never returns normally (%s)' % tag)
    f = c.conv
    where = '%s:%s' % (f['f'], f.get('l'))
    r.count('persistent variables that a convolution changes', len(changed))
    r.sample('%s: changed by a convolution: %s' % (tag, ', '.join(sorted(changed))))
    h0 = set()
    for k, v in c.runs[0][0].m[PN[0]].items():
        h0 |= set(t[1] for t in v.taint if t[0] == 'h0:')
    bad = {}
    used = set()
    for k, v in sorted(c.ok.m[PN[1]].items(), key=lambda x: str(x[0])):
        r.count('returned values traced')
        i = k[0][1:-1]
        col = COLS[int(i)] if i.isdigit() and int(i) < 5 else 'size' if k[0] == '#n' else str(k)
        for t in v.taint:
            if t[0] == 'h:':
                used.add(t[1])
            if t == 'p1' or t[0] == 'hc:' or t[0] == 'in1' and exchange or t[0] == 'h:' and t[1] in h0:
                bad.setdefault(t, set()).add(col)
    r.sample('%s: used by a convolution, changed by it, and always set before it is used: %s' % (tag, ', '.join(sorted(used)) or '-'))
    for t, cols in sorted(bad.items(), key=str):
        w, fn = first.get(t, (where, f['fn']))
        cols = ', '.join(sorted(cols))
        if t == 'p1':
            r.violation('R1', w, fn, '%s: the %s returned may be computed from data of an earlier convolution' % (tag, cols), key='p1')
        elif t[0] == 'hc:':
            r.violation('R2', w, fn, '%s: the %s returned depends on a condition on %s, which an earlier convolution may have changed'
                        % (tag, cols, t[1]), key=t[1])
        elif t[0] == 'h:':
            r.violation('R3', w, fn, '%s: the %s returned is computed from %s, which the first convolution finds in one state and leaves '
                        'in another' % (tag, cols, t[1]), key=t[1])
        else:
            r.violation('R4', w, fn, '%s: the %s returned may be computed from the %s used by the earlier convolution'
                        % (tag, cols, NAME[t[1]]), key=t[1])


def run(rep):
    rep.rule('R1: no value returned by the second of two convolutions on one convolver is computed from the pointing, or the calibration '
             'flag, of the first')
    rep.rule('R2: no value returned by the second is controlled by a condition on a member or static variable that the first may have '
             'changed, except that such a condition may decide whether members or statics are filled in')
    rep.rule('R3: a member or static variable that a convolution changes and uses is never used with the value it had before the first '
             'convolution')
    rep.rule('R4: after all inputs have been exchanged nothing is computed from the coefficients or detector parameters of the former ones')
    rep.rule('R5: the numeric kernels (FFT, Wigner recursion), which are not looked into, keep no state in static storage')
    rep.assumptions.append('the second convolution starts from what either end, normal or failing, of the first leaves behind')
    F = facts.load()
    conv.kernel_rules(rep, F, 'R5')
    jobs = []
    for pol in (0, 1):
        for ex in (0, 1):
            jobs.append(('reuse pol=%d exchange=%d' % (pol, ex), lambda r, pol=pol, ex=ex: judge(r, F, pol, ex)))
    par.scenarios(rep, jobs)
    rep.need('convolve scenarios', 8)
    rep.need('returned values traced', 20)
    rep.need('exchanges of an input', 6)
    rep.need('persistent variables that a convolution changes', 1)
