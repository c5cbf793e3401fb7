"""P23: a failed load leaves the object as it was, or empty."""
import facts, load
import engine as G


def run(rep):
    rep.rule('R1: at every throw and every allocation that can end a load, the object is untouched since the start of the load, or '
             'reports negative expansion orders, no normalised state and hands out no polarised component, or holds everything')
    rep.assumptions.append('exceptions considered: those thrown in the library, and failed allocations')
    F = facts.load()
    for w in ('beam', 'sky'):
        base = load.run(F, w, 0)
        comps, nums = base.accessors()
        polc = [c for c in comps if base.ok is not None and base.component(c, base.ok) is None]
        for pol in (0, 1):
            L = base if pol == 0 else load.run(F, w, 1)
            tag = '%s, %s' % (w, 'polarised' if pol else 'unpolarised')
            rep.count('load scenarios')
            for e in L.log:
                rep.count('exits by exception')
                st = e['st']
                ch = L.unchanged(st)
                if not ch:
                    continue
                bad = []
                for n in nums:
                    ok, v = L.method(n, st)
                    if ok is None:
                        continue
                    if n.startswith('get_'):
                        if not L.holds(st, v, '<=', -1):
                            bad.append('%s() may report an expansion order' % n)
                    elif not L.holds(st, v, '==', 0):
                        bad.append('%s() may report true' % n)
                for c in polc:
                    if L.component(c, st) is not None:
                        bad.append('%s() hands out coefficients' % c)
                rep.sample('%s: %s in %s' % (tag, e['where'], e['fn']))
                if not bad:
                    continue
                if not L.complete(st, bool(pol))[0]:
                    continue
                rep.violation('R1', e['where'], e['fn'],
                              '%s: when the load ends here with an exception, %s although %s changed and the coefficients are not '
                              'complete' % (tag, '; '.join(bad), ', '.join(ch[:3])), key=tag + bad[0])
    rep.need('load scenarios', 4)
    rep.need('exits by exception', 16)
