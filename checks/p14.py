"""P14: convolving never modifies the sky, the beam or the detector."""
import facts, conv, par
import engine as G
import poly as P
from poly import *
from scen import *
from conv import *

NAME = {'s': 'sky', 'b': 'beam', 'd': 'detector', 's2': 'sky', 'b2': 'beam', 'd2': 'detector'}
SETS = (('set_sky', 's2'), ('set_beam', 'b2'), ('set_detector', 'd2'))


def judge(r, F, pol, cal):
    tag = '%s convolution' % ('polarised' if pol else 'unpolarised')
    seen = {}
    reads = {}

    def access(eng, rw, lv, node, st, whole):
        b = lv.base
        if b[0] == 'O' and b[1] in NAME:
            k = (b[1], lv.path)
            if rw == 'w':
                seen.setdefault((eng.where(node), eng.fname(), b[1]), (lv, ' > '.join(eng.stack()[1:])))
            else:
                reads[k] = reads.get(k, 0) + 1
    ex = []

    def between(c, st, i):
        if i:
            for nm, o in SETS:
                f = [x for x in F.funcs.values() if x['fn'] == conv.CLS + '::' + nm and x.get('body')]
                if f:
                    ok, rr, t, tt = c.S.invoke(f[0], CONV, [Val((A(('obj', o)),), ptrs=(LV(('O', o)),))], st)
                    r.count('exchanges of an input')
                    if ok is None:
                        raise facts.CheckError('%s never succeeds' % nm)
                    st = ok
                    if t is not None:
                        ex.append(t)
        return st
    c = conv.Conv(F, pol, cal, twice=True, hooks={'access': access}, between=between)
    r.count('convolve scenarios', 2)
    r.count('abstract steps', c.S.steps)
    r.count('cells of sky, beam and detector read', len(reads))
    for (w, fn, o), (lv, via) in seen.items():
        r.violation('R1', w, fn, '%s: the %s is written (%s), reached by %s' % (tag, NAME[o], '.'.join(map(str, lv.path)) or 'object', via),
                    key=o)
    ends = [('construction', c.after_ctor, c.ctor), ('construction that fails', c.thr, c.ctor)]
    for x in c.runs:
        ends += [('a convolution', x[0], c.conv), ('a convolution that fails', x[2], c.conv)]
    ends += [('an exchange that fails', t, c.conv) for t in ex]
    for what, st, f in ends:
        if st is None:
            continue
        r.count('exits compared')
        for o in NAME:
            for k, v in (st.m.get(('O', o)) or {}).items():
                r.count('cells compared')
                if k and str(k[-1]).startswith('#def'):
                    continue
                p = v.poly()
                a = p.single_atom() if p is not None else None
                if a is not None and isinstance(P.NAMES[a], tuple) and P.NAMES[a][:3] == ('in', ('O', o), k):
                    continue
                if any(y[2] == o for y in seen):
                    continue
                r.violation('R2', '%s:%s' % (f['f'], f.get('l')), f['fn'], '%s: after %s, %s of the %s is not what it was'
                            % (tag, what, '.'.join(map(str, k)), NAME[o]), key=o + '.'.join(map(str, k)))


def run(rep):
    rep.rule('R1: nothing reached from the constructor, the set functions or convolve writes to storage of the sky, the beam or the '
             'detector, through whatever pointer, reference or alias')
    rep.rule('R2: at every exit, normal or by exception, their cells hold the values they had at the start')
    F = facts.load()
    par.scenarios(rep, [('%d %d' % (p, c), lambda r, p=p, c=c: judge(r, F, p, c)) for p in (0, 1) for c in (0, 1)])
    rep.need('convolve scenarios', 8)
    rep.need('exits compared', 12)
    rep.need('cells of sky, beam and detector read', 8)
    rep.need('exchanges of an input', 8)
