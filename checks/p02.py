"""P02: every rank makes the same sequence of collective calls."""
import facts, load, conv, par
import engine as G
import models as M

DIFF = ('rank', 'time', 'thread')
SIZED = ('Bcast', 'Reduce', 'Allreduce', 'Scan', 'Exscan')
SAMESIZE = ('Alltoall', 'Allgather', 'Gather', 'Scatter')


def tokens(split):
    return sorted(w for k, w in split if k in DIFF)


def judge(r, S, log, tag):
    ev = S.evs('coll')
    r.count('collective call sites', len(ev))
    last = max([e['last'] for e in ev] or [0])
    for e in ev:
        via = ' > '.join(e['stack'][1:])
        r.sample('%s: %s at %s (%s)' % (tag, e['name'], e['where'], via))
        t = tokens(e['split'])
        if t:
            r.violation('R1', e['where'], e['fn'], '%s: whether a process takes part in this %s (reached by %s) depends on a condition '
                        'that differs between processes, at %s' % (tag, e['name'], via, ', '.join(t)), key='%s %s' % (e['name'], via))
        for what in ('root', 'op'):
            v = e.get(what)
            if v is not None and any(x in v.taint for x in DIFF):
                r.violation('R3', e['where'], e['fn'], '%s: the %s of this %s (reached by %s) may differ between processes'
                            % (tag, what, e['name'], via), key='%s %s' % (what, via))
            elif v is not None:
                r.count('roots and operations compared')
        cs = []
        if e['name'] in SIZED and e.get('count') is not None:
            cs = [e['count']]
        elif e['name'] in SAMESIZE:
            cs = list(e.get('counts') or ())
        for v in cs:
            r.count('message sizes compared')
            if any(x in v.taint for x in DIFF):
                r.violation('R3', e['where'], e['fn'], '%s: the message size of this %s (reached by %s) may differ between processes'
                            % (tag, e['name'], via), key='size %s' % via)
    for x in log:
        ts = set(x['types'])
        r.count('exits by exception')
        if ts <= {'std::bad_alloc'}:
            continue
        t = tokens(x['split'])
        later = [e for e in ev if e['last'] > x['seq']]
        if t and later:
            r.violation('R2', x['where'], x['fn'], '%s: a process leaves here by an exception under a condition that differs between '
                        'processes (%s) although others go on to a collective call (%s at %s)'
                        % (tag, ', '.join(t), later[0]['name'], later[0]['where']), key='exit')


def run(rep):
    rep.rule('R1: no condition whose value may differ between processes (rank, pointing contents and sizes, elapsed time) decides whether, '
             'how often or in which order a collective MPI call is reached')
    rep.rule('R2: no exception other than exhausted memory is raised under such a condition and leaves the operation while collective '
             'calls follow')
    rep.rule('R3: root, operation and (where MPI wants them equal) the message size of a collective call do not depend on such a value')
    rep.assumptions.append('scalar arguments of the interface are the same on all processes; exhausted memory and MPI failures are not '
                           'considered to happen on some processes only')
    F = facts.load()
    jobs = []
    for w in ('beam', 'sky'):
        for pol in (0, 1):
            def f(r, w=w, pol=pol):
                L = load.run(F, w, pol)
                r.count('load scenarios')
                r.count('abstract steps', L.S.steps)
                judge(r, L.S, L.log, 'load of a %s %s' % ('polarised' if pol else 'unpolarised', w))
            jobs.append(('load %s %d' % (w, pol), f))
    for pol in (0, 1):
        for cal in (0, 1):
            def f(r, pol=pol, cal=cal):
                c = conv.run(F, pol, cal)
                r.count('convolve scenarios')
                r.count('abstract steps', c.S.steps)
                judge(r, c.S, c.log, '%s convolution' % ('polarised' if pol else 'unpolarised'))
            jobs.append(('convolve %d %d' % (pol, cal), f))
    par.scenarios(rep, jobs)
    rep.need('load scenarios', 4)
    rep.need('convolve scenarios', 4)
    rep.need('collective call sites', 120)
    rep.need('message sizes compared', 50)
