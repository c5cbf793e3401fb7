"""P15: neither time, threads, random numbers nor the verbosity have a part in what a convolution returns."""
import facts, conv, par
import engine as G

WHAT = {'time': 'elapsed time, random numbers or the environment', 'thread': 'the identity, number or order of threads',
        'verb': 'the verbosity level', 'carry': 'which iterations of a parallel loop the same thread ran before'}
COLS = ['longitude', 'co-latitude', 'position angle', 'signal', 'row number']


def judge(r, F, pol, cal):
    tag = '%s, %s' % ('polarised' if pol else 'unpolarised', 'calibrated' if cal else 'not calibrated')
    first = {}

    def store(eng, lvs, v, node, st):
        x = v.taint & TRACK
        if x:
            for l in lvs:
                if l.base == conv.PN[0]:
                    for t in x:
                        first.setdefault((t, eng.where(node)), eng.fname())
        return None
    c = conv.Conv(F, pol, cal, rows=1, hooks={'store': store}, opts={'order': True, 'splitk': frozenset(['time', 'thread'])})
    r.count('convolve scenarios')
    r.count('abstract steps', c.S.steps)
    if c.ok is None:
        raise facts.CheckError('convolve never returns normally (%s)' % tag)
    f = c.conv
    where = '%s:%s' % (f['f'], f.get('l'))
    bad = {}
    for k, v in sorted(c.ok.m[conv.PN[0]].items(), key=str):
        r.count('returned values traced')
        for t in v.taint & TRACK:
            i = k[0][1:-1]
            bad.setdefault(t, set()).add(COLS[int(i)] if i.isdigit() and int(i) < 5 else 'size' if k[0] == '#n' else str(k))
    if c.res is not None and getattr(c.res, 'taint', None):
        for t in c.res.taint & TRACK:
            bad.setdefault(t, set()).add('return value')
    for t, cols in sorted(bad.items()):
        sites = sorted(w for (x, w) in first if x == t)
        w = sites[0] if sites else where
        r.violation('R1', w, first.get((t, w), f['fn']), '%s: the %s returned by convolve may depend on %s (it enters the pointing at %s)'
                    % (tag, ', '.join(sorted(cols)), WHAT[t], ', '.join(sites[:6]) or '?'), key=t)
    for x in c.log:
        ts = set(x['types'])
        if ts <= {'std::bad_alloc'}:
            continue
        r.count('exits by exception')
        t = sorted(set(WHAT[k] for k, w in x['split'] if k in TRACK))
        if t:
            r.violation('R2', x['where'], x['fn'], '%s: whether the operation fails here depends on %s' % (tag, ', '.join(t)), key='exit')
    n = 0
    for b, d in c.ok.m.items():
        if b == ('O', 'conv'):
            for k, v in d.items():
                n += bool(v.taint & TRACK)
    r.count('profiling fields of the convolver that may depend on such a source', n)


TRACK = frozenset(WHAT)


def run(rep):
    rep.rule('R1: no value that a convolution returns depends, by data or by control, on a clock, a random number, the environment, a '
             'thread number or count, the verbosity level, the order in which threads reach a critical or atomic update or a '
             'reduction of floating-point numbers, or on a variable that hands something from one iteration of a parallel loop to the '
             'next')
    rep.rule('R2: no exception other than exhausted memory is raised under a condition that depends on time or threads')
    rep.rule('R3: the numeric kernels (FFT, Wigner recursion), which are not looked into, call none of these sources and keep no state in '
             'static storage')
    rep.assumptions.append('the parallel regions are free of data races (P03)')
    F = facts.load()
    conv.kernel_rules(rep, F, 'R3')
    jobs = []
    for pol in (0, 1):
        for cal in (0, 1):
            jobs.append(('convolve pol=%d cal=%d' % (pol, cal), lambda r, pol=pol, cal=cal: judge(r, F, pol, cal)))
    par.scenarios(rep, jobs)
    rep.need('convolve scenarios', 4)
    rep.need('returned values traced', 20)
    rep.need('functions of the numeric kernels', 20)
