"""P21: coefficients from a file are only stored inside the requested expansion."""
import facts, load
import engine as G
import poly as P
from poly import *


def bound(st, p, q):
    """p <= q"""
    return P.entails_split(st.facts, (p.sub(q), '<='))


def run(rep):
    rep.rule('R1: wherever the reader addresses a coefficient (l,m), the conditions that hold there imply 0 <= m <= l, l <= lmax and '
             'm <= mmax of the object addressed')
    F = facts.load()
    for w in ('beam', 'sky'):
        for pol in (0, 1):
            L = load.run(F, w, pol)
            S = L.S
            tag = '%s, %s' % (w, 'polarised' if pol else 'unpolarised')
            rep.count('load scenarios')
            rep.count('components reached', len(set(str(t) for u in L.almuse.values() for t in [u['this']])))
            for u in L.almuse.values():
                st = u['st']
                rep.count('uses of a computed index')
                vals = [v.poly() for v in u['vals']]
                two = u['sn'] in ('operator()', 'index')
                m = vals[1] if two else vals[0]
                l = vals[0] if two else None
                th = u['this']
                o = th if not isinstance(th, list) else th[0]
                lm = S.cell(st, o.base, o.path + ('lmax',), None, True).poly()
                mm = S.cell(st, o.base, o.path + ('mmax',), None, True).poly()
                bad = []
                if m is None or two and l is None or lm is None or mm is None:
                    bad.append('the index cannot be bounded')
                else:
                    if not bound(st, ZERO, m):
                        bad.append('m may be negative')
                    if not bound(st, m, mm):
                        bad.append('m may exceed mmax')
                    if two:
                        if not bound(st, m, l):
                            bad.append('m may exceed l')
                        if not bound(st, l, lm):
                            bad.append('l may exceed lmax')
                rep.sample('%s: %s(l,m) at %s' % (tag, u['sn'], u['where']))
                if bad:
                    rep.violation('R1', u['where'], u['fn'], '%s: a coefficient from the file is stored where %s' % (tag, ' and '.join(bad)),
                                  key=','.join(bad))
    rep.need('load scenarios', 4)
    rep.need('components reached', 4)
