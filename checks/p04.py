"""P04: a successful load leaves the same complete expansion on every rank."""
import facts, load
import engine as G


def run(rep):
    rep.rule('R1: at the normal exit of a load, no cell of the object that differs between processes is reachable: every expansion '
             'order, flag and coefficient is the result of a broadcast over the whole array or computed alike everywhere')
    rep.rule('R2: every component that was requested is handed out by its accessor, with coefficients written by this load and '
             'orders not below the reported ones')
    rep.rule('R3: a broadcast of data that only one process has filled starts from that process')
    rep.assumptions.append('arguments of the load are the same on all processes, except for the contents of the file')
    F = facts.load()
    for w in ('beam', 'sky'):
        for pol in (0, 1):
            L = load.run(F, w, pol)
            tag = '%s, %s' % (w, 'polarised' if pol else 'unpolarised')
            rep.count('load scenarios')
            rep.count('abstract steps', L.S.steps)
            bc = [e for e in L.S.evs('coll') if e['name'] == 'Bcast']
            rep.count('broadcasts followed', len(bc))
            fn = L.f['fn']
            where = '%s:%s' % (L.f['f'], L.f.get('l'))
            if L.ok is None:
                rep.violation('R2', where, fn, 'the load never returns normally (%s)' % tag)
                continue
            bad, n = L.complete(L.ok, bool(pol))
            rep.count('components checked', n)
            for e in bc:
                rep.sample('%s: Bcast in %s, root %s' % (tag, e['fn'], e['root'].alts))
                if e.get('partial'):
                    rep.note('%s: the broadcast at %s sends part of an array' % (tag, e['where']))
            for k, m in bad:
                rep.violation('R1' if 'differ' in m else 'R2', where, fn, '%s: %s' % (tag, m), key=m)
            for e, l, r, cs in L.badroot:
                rep.violation('R3', e['where'], e['fn'], '%s: broadcast from rank %s of data that rank %s has filled'
                              % (tag, r, sorted(cs)), key='root')
    rep.need('load scenarios', 4)
    rep.need('components checked', 4)
    rep.need('broadcasts followed', 8)
