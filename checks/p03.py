"""P03: no two threads of a parallel region meet on one memory location without synchronisation when one of them writes."""
import facts, conv, par, omp
import engine as G
import poly as P
from scen import *


def regions_of(F):
    """{id of the directive: (function, directive)} for all parallel regions of the library"""
    out = {}
    for f in F.funcs.values():
        if not f.get('body') or 'ffttest' in f['f'] or f['f'].startswith('tests/'):
            continue
        for n in facts.walk(f['body']):
            if n.get('k') == 'omp' and n.get('dk', '').startswith('parallel'):
                out[id(n)] = (f, n)
    return out


def report(r, R, how):
    for key, rg in sorted(R.regions.items(), key=str):
        r.count('parallel regions analysed')
        r.count('accesses to shared memory', len(rg.ev))
        ws = set(e.ws for e in rg.ev.values() if e.ws)
        r.count('work-sharing loops', len(ws))
        bad = R.decide(rg)
        r.count('pairs of accesses to one object', rg.pairs)
        seen = set()
        for a, b in bad:
            w, o = (a, b) if a.rw == 'w' else (b, a)
            k = (w.text, w.where, o.where)
            if k in seen:
                continue
            seen.add(k)
            what = 'two threads may write %s at the same time' % w.text if o.rw == 'w' else 'one thread may write %s while another reads it' % w.text
            r.violation('R1', w.where, w.fn, '%s (%s; the other access is at %s; region at %s)' % (what, how, o.where, rg.where), key=w.text)
        for a, b in rg.undecided:
            r.count('pairs not decided')
            r.note('not decided: %s at %s and %s (region at %s)%s' % (a.text, a.where, b.where, rg.where,
                                                                      ' locks' if rg.locks else ' ' + ', '.join(sorted(rg.odd)) if rg.odd else ''))
        r.sample('region %s: %d shared accesses' % (rg.where, len(rg.ev)))


def run_conv(r, F, pol):
    box = {}

    def attach(S):
        box['R'] = omp.Races(S)
    c = conv.Conv(F, pol, True, rows=1, attach=attach)
    if c.ok is None:
        raise facts.CheckError('convolve never returns normally')
    report(r, box['R'], 'polarised' if pol else 'unpolarised')
    done(r, box['R'])


def done(r, R):
    for key in R.regions:
        r.count('@' + str(R.regions[key].where))


def run_fn(r, F, f):
    S = Scen(F, {'throwlog': True})
    R = omp.Races(S)
    R.parts = []

    def call(eng, n, obj, args, st, want):
        if R.cur and n.get('sn') == 'calcShareGeneral' and len(args) == 6:
            v = [eng.ev(a, st) for a in args[:4]]
            x = [y.poly() for y in v]
            if x[2] is not None and x[3] is not None and x[3].single_atom() is not None and P.NAMES[x[3].single_atom()] == ('omp', 'thread'):
                lo = A(('share', 'lo', id(n), eng.frame.ctx), True)
                hi = A(('share', 'hi', id(n), eng.frame.ctx), True)
                for q, p in ((4, lo), (5, hi)):
                    eng.wr(eng.lvs(args[q], st), Val((p,), frozenset(['thread'])), n, st)
                    R.cur[-1][0].td |= p.atoms()
                st.facts = st.facts | {norm_fact(lo.sub(hi), '<=')}
                R.parts.append((lo, hi))
                return eng.shape(K(0), n, st, want)
        return None
    S.hooks['call'] = call
    st = State()
    this = LV(('O', 'this')) if f.get('cls') and not f.get('static') else None
    args = []
    for i, p in enumerate(f.get('params', [])):
        t = p['t']
        u = G.unref(t)
        if S.is_class(u):
            args.append(LV(('O', 'p%d' % i)))
        elif u.endswith('*'):
            args.append(Val((A(('arg', 'p%d' % i)),), ptrs=(LV(('O', 'p%d' % i)),)))
        else:
            args.append(arg(p.get('n') or 'p%d' % i, S.is_int_t(u)))
    ok, res, thr, types = S.invoke(f, this, args, st)
    report(r, R, 'any use of %s' % f['sn'])
    done(r, R)
    return R


def resolve(p, val, lt):
    """p with the choices of a case put in; lt: {(x,y): sign of x-y}"""
    mp = {}
    for a in p.atoms():
        nm = P.NAMES[a]
        if isinstance(nm, tuple) and nm[0] == 'bool' and nm[1][0] == 'cmp':
            op, x, y = nm[1][1], nm[1][2][0], nm[1][3][0]
            s = lt.get((x, y), -lt[(y, x)] if (y, x) in lt else None)
            if s is not None:
                mp[a] = C(int({'<': s < 0, '<=': s <= 0, '>': s > 0, '>=': s >= 0, '==': s == 0, '!=': s != 0}[op]))
        elif isinstance(nm, tuple) and len(nm) == 4 and nm[0] == 'fn' and nm[1] in ('min', 'max'):
            x, y = nm[2:]
            s = lt.get((x, y), -lt[(y, x)] if (y, x) in lt else None)
            if s is not None:
                mp[a] = x if (s <= 0) == (nm[1] == 'min') else y
    return P.subst(p, mp)


def shares(rep, F):
    """R3: the end of one share is not after the beginning of the next one, and shares do not run backwards"""
    fs = [f for f in F.funcs.values() if f['sn'] == 'calcShareGeneral' and f.get('body') and len(f['params']) == 6]
    if not fs:
        return
    f = fs[0]
    S = Scen(F, {})
    st = State()
    v = [arg(x, True) for x in ('glo', 'ghi', 'n', 's')]
    glo, ghi, n, s = [x.poly() for x in v]
    base = [norm_fact(glo.sub(ghi), '<='), norm_fact(ONE.sub(n), '<='), norm_fact(s.scale(-1), '<='), norm_fact(s.add(C(2)).sub(n), '<=')]
    st.facts = st.facts | set(base)
    res = []
    for i in (0, 1):
        a, b = LV(('O', 'lo%d' % i)), LV(('O', 'hi%d' % i))
        sv = v[3] if i == 0 else Val((s.add(ONE),))
        st, _, _, _ = S.invoke(f, None, v[:3] + [sv, a, b], st)
        if st is None:
            return
        res += [st.m[a.base][()].poly(), st.m[b.base][()].poly()]
    rep.count('share formulas', 1)
    if any(x is None for x in res):
        rep.note('not decided: the share formulas of calcShareGeneral')
        return
    lo, hi, nlo, nhi = res
    goals = [('the part of one thread ends after the part of the next one begins', hi.sub(nlo)),
             ('the parts of the threads are not in order', lo.sub(nlo))]
    pairs = []
    for a in set().union(*[p.atoms() for p in res]):
        nm = P.NAMES[a]
        q = None
        if isinstance(nm, tuple) and nm[0] == 'bool' and nm[1][0] == 'cmp' and len(nm[1][2]) == len(nm[1][3]) == 1:
            q = (nm[1][2][0], nm[1][3][0])
        elif isinstance(nm, tuple) and len(nm) == 4 and nm[0] == 'fn':
            q = (nm[2], nm[3])
        if q and q not in pairs and (q[1], q[0]) not in pairs:
            pairs.append(q)
    import itertools
    dv = [a for a in set().union(*[p.atoms() for p in res]) if isinstance(P.NAMES[a], tuple) and set(x for x in P.NAMES[a][:2] if isinstance(x, str)) & {'div', 'mod'}]
    pos = [norm_fact(Poly({(a,): -1}), '<=') for a in dv]
    if len(pairs) > 5:
        rep.note('not decided: the share formulas of calcShareGeneral')
        return
    for text, g in goals:
        ok = True
        for signs in itertools.product((-1, 0, 1), repeat=len(pairs)):
            fs = set(base) | set(pos)
            for (x, y), sg in zip(pairs, signs):
                d = x.sub(y)
                fs.add(norm_fact(d.scale(-sg).add(ONE), '<=') if sg else norm_fact(d, '=='))
            fs = frozenset(fs)
            if P.infeasible(fs) or entails(fs, norm_fact(ONE, '<=')):
                continue
            # the signs exclude each other
            if any(entails(fs - {norm_fact(x.sub(y).scale(-sg).add(ONE), '<=')}, norm_fact(x.sub(y).scale(sg), '<='))
                   for (x, y), sg in zip(pairs, signs) if sg):
                continue
            r = resolve(g, None, dict(zip(pairs, signs)))
            rep.count('cases of the share formulas')
            if r is None:
                ok = False
            elif entails(fs, norm_fact(r, '<=')):
                continue
            elif entails(fs, norm_fact(ONE.sub(r), '<=')):
                rep.violation('R3', '%s:%s' % (f['f'], f.get('l')), f['fn'], text, key='share')
            else:
                ok = False
        if not ok:
            rep.note('not decided: ' + text)


def run(rep):
    rep.rule('R1: in a parallel region any two accesses to shared memory, one of them a write, are separated: by a barrier, by a common '
             'lock or thread, or because different iterations (threads) address different elements')
    rep.rule('R2: a numeric kernel that runs inside a region without being looked into keeps nothing in static storage')
    rep.rule('R3: the parts of a range given to different threads by calcShareGeneral do not overlap')
    rep.assumptions = ['the runtime may give any two iterations of a work-sharing loop to different threads',
                       'an element is addressed as written: indices are in range and do not overflow']
    F = facts.load()
    conv.kernel_rules(rep, F, 'R2')
    jobs = [('shares', lambda r: shares(r, F))]
    regs = regions_of(F)
    inner = {}
    for i, (f, n) in regs.items():
        inner.setdefault(f['fid'], f)
    jobs += [('conv%d' % pol, lambda r, pol=pol: run_conv(r, F, pol)) for pol in (False, True)]
    for fid, f in sorted(inner.items()):
        if not f['f'].startswith('src/'):
            jobs.append((f['fn'], lambda r, f=f: run_fn(r, F, f)))
    par.scenarios(rep, jobs)
    want = set('%s:%s' % (f['f'], n.get('l')) for f, n in regs.values())
    got = set(k[1:] for k in list(rep.counts) if k.startswith('@'))
    for k in [k for k in rep.counts if k.startswith('@')]:
        del rep.counts[k]
    rep.count('parallel regions in the library', len(want))
    for w in sorted(want - got):
        rep.note('region at %s was not reached' % w)
        rep.count('parallel regions not reached')
    rep.need('parallel regions analysed', 1)
