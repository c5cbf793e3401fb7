"""Accesses to shared memory inside parallel regions, and which pairs of them can meet on one location.

The engine runs a region once, as one thread that stands for all of them.  Memory that comes into being inside the region belongs to
the thread, everything else is shared.  For every access to shared memory the following is kept: the location with its indices as
polynomials, the loop that shares its iterations out (with the counter of that loop), the locks held, and the barriers that the
thread last passed.  Two accesses race if one is a write, nothing keeps them apart (different phases, a common lock, one thread) and
the indices coincide for two different iterations (or two threads)."""
import engine as G
from engine import LV, Val, A, K, E0
from poly import *
import poly as P

PH = ('P', 'omp')
STRUCT = ('alloc', 'fast_alloc', 'resize', 'assign', 'allocAndFill', 'push_back', 'emplace_back', 'reserve', 'dealloc', 'clear', 'reset',
          'swap', 'transfer', 'operator=', 'shrink_to_fit', 'scale', 'pop_back', 'erase', 'insert')
LOCKS = ('omp_set_lock', 'omp_unset_lock', 'omp_set_nest_lock', 'omp_test_lock', 'pthread_mutex_lock')
KNOWN = ('parallel', 'for', 'parallel for', 'for simd', 'parallel for simd', 'simd', 'critical', 'atomic', 'single', 'master', 'masked',
         'barrier', 'flush')


def declnames(F):
    if not hasattr(F, '_declnames'):
        import facts
        m = {}
        for f in F.funcs.values():
            for p in f.get('params', []):
                if p.get('d'):
                    m[p['d']] = p.get('n', '')
            if f.get('body'):
                for n in facts.walk(f['body']):
                    for v in n.get('vars') or ():
                        if isinstance(v, dict) and v.get('d') and v.get('n'):
                            m[v['d']] = v['n']
        F._declnames = m
    return F._declnames


class Ev:
    __slots__ = ('lv', 'rw', 'whole', 'guard', 'phase', 'ws', 'where', 'fn', 'facts', 'inner', 'node', 'text', 'atomic', 'split')


class Region:
    def __init__(self, n, ctx, where, fn):
        self.n, self.ctx, self.where, self.fn = n, ctx, where, fn
        self.ev = {}
        self.n0 = 0
        self.known = set()
        self.clause = set()
        self.undecided = []
        self.pairs = 0
        self.locks = False
        self.odd = set()
        self.shared = set()
        self.written = set()
        self.td = set()


class Races:
    """attach to a scenario: Races(S); afterwards .regions"""

    def __init__(self, S):
        self.S = S
        self.cur = []            # stack of (Region, private context)
        self.regions = {}
        self.n0 = {}
        self.wsK = {}
        self.wsinfo = {}
        self.loops = []          # loops running inside the region
        self.par = {}
        self.events = []
        self.marks = []
        self.decls = declnames(S.F)
        h = S.hooks
        h['omp'] = self.omp
        h['ws'] = self.ws
        h['access'] = self.access
        h['vec'] = self.vec
        h['index'] = self.index
        h['loop'] = self.loophook
        octx = S.ctx

        def ctx(parent, *key):
            c = octx(parent, *key)
            self.par.setdefault(c, parent)
            return c
        S.ctx = ctx
        oloop = S.loop

        def loop(n, st, *a, **k):
            if not self.cur:
                return oloop(n, st, *a, **k)
            self.marks.append(len(self.events))
            self.loops.append((id(n), S.frame.ctx))
            try:
                return oloop(n, st, *a, **k)
            finally:
                self.loops.pop()
                self.marks.pop()
        S.loop = loop
        oarg = S.arginfo

        def arginfo(n, args, st):
            r = oarg(n, args, st)
            if self.cur:
                for a, v, p in r:
                    if 'basic_ostream' in p:
                        continue
                    for l in (v if isinstance(v, list) else v.ptrs if '*' in p or p == '' else ()):
                        if l is not None and l.base[0] not in ('STR', 'LAM'):
                            self.access(S, 'r', l, n, st, True)
                    if not isinstance(v, list) and not v.ptrs and not v.null and p.strip().endswith('*'):
                        # something that is known by its address only
                        q = v.poly()
                        q = q.single_atom() if q is not None else None
                        if q is not None:
                            const = p.strip().startswith('const ')
                            self.access(S, 'r' if const else 'w', LV(('X', q)), n, st, True)
            return r
        S.arginfo = arginfo
        oop = S.opaque

        def opaque(n, obj, args, st, want):
            if self.cur:
                if n.get('sn') in LOCKS or 'mutex' in (n.get('cls') or '') or 'lock_guard' in (n.get('cls') or ''):
                    self.cur[-1][0].locks = True
                for l in obj or ():
                    if l is not None and 'ostream' not in (n.get('cls') or ''):
                        self.access(S, 'r', l, n, st, True)
            return oop(n, obj, args, st, want)
        S.opaque = opaque
        ord_ = S.rd

        def rd(lvs, node, st, t=None):
            v = ord_(lvs, node, st, t)
            if self.cur and 'thread' in v.taint:
                self.mark(v)
            return v
        S.rd = rd

    def mark(self, v):
        rg = self.cur[-1][0]
        for x in v.alts:
            if isinstance(x, Poly):
                rg.td |= x.atoms()

    # ---- hooks -----------------------------------------------------------------
    def index(self, eng, obj, ps, ivs, n, st):
        if self.cur:
            for p, v in zip(ps, ivs):
                if 'thread' in v.taint:
                    self.cur[-1][0].td |= p.atoms()

    def loophook(self, eng, n, what):
        if self.cur and what == 'begin' and self.marks:
            del self.events[self.marks[-1]:]

    def ws(self, eng, n, Ka, begin, omp, st):
        lk = eng.ws[-1]
        self.wsK[lk] = A(('K', lk, lk), True).single_atom()
        sched = [c.get('sk') for c in omp.get('clauses', []) if c.get('k') == 'schedule']
        ck = [str((c.get('e') or {}).get('cv', (c.get('e') or {}).get('v'))) for c in omp.get('clauses', []) if c.get('k') == 'schedule']
        self.wsinfo[lk] = dict(sched=sched[0] if sched else '', chunk=ck[0] if ck else '', nowait=self.has(omp, 'nowait'),
                               collapse=self.has(omp, 'collapse'), n=omp)

    @staticmethod
    def has(n, k):
        return any(c.get('k') == k for c in n.get('clauses', []))

    def phase(self, st, tok):
        st.m.setdefault(PH, {})
        st.own.add(PH) if PH not in st.own and PH not in st.m else None
        st.put(PH, (), Val((A(('phase',)),), prov=frozenset([tok])))

    def clausevars(self, n):
        out = set()
        for c in n.get('clauses', []):
            if c.get('k') in ('private', 'firstprivate', 'lastprivate', 'reduction', 'linear', 'copyin'):
                for v in c.get('vars', []):
                    b = self.S.lookup(v.get('d'))
                    if b is not None:
                        out.add(b)
        return out

    def omp(self, eng, n, st):
        dk = n.get('dk', '')
        fr = eng.frame
        if dk.startswith('parallel'):
            if self.cur:
                self.cur[-1][0].odd.add('a parallel region inside a parallel region')
                return None
            for c in n.get('clauses', []):
                e = c.get('e') or {}
                if c.get('k') == 'num_threads' and e.get('cv', e.get('v')) == 1:
                    return None
                if c.get('k') == 'if' and e.get('cv', e.get('v')) == 0:
                    return None
            key = (id(n), fr.ctx)
            rg = Region(n, fr.ctx, eng.where(n), eng.fname())
            rg.n0 = self.n0.setdefault(key, len(P.NAMES))
            for b, d in st.m.items():
                for p, v in d.items():
                    for x in v.alts:
                        if isinstance(x, Poly):
                            rg.known |= x.atoms()
            rg.clause = self.clausevars(n) | self.loopvar(n)
            oc = fr.ctx
            priv = eng.ctx(oc, 'omp', id(n))
            fr.ctx = priv
            self.events = []
            self.marks = []
            self.loops = []
            self.cur.append((rg, priv))
            self.phase(st, ('begin', id(n)))
            o = eng.omp_plain(n, st)
            self.cur.pop()
            fr.ctx = oc
            for x in (o.n, o.r, o.t, o.b, o.c):
                if x is not None and PH in x.m:
                    x.put(PH, (), K(0))
            for e in self.events:
                rg.ev[(id(e.node), e.lv, e.rw, e.whole, e.guard, e.phase, e.ws)] = e
            self.regions[key] = rg          # the last pass counts
            return o
        if not self.cur:
            return None
        rg = self.cur[-1][0]
        if dk not in KNOWN:
            rg.odd.add('omp ' + dk)
        rg.clause |= self.clausevars(n)
        if 'for' in dk:
            rg.clause |= self.loopvar(n)
        if dk == 'barrier':
            self.phase(st, ('barrier', id(n)))
            return None
        g0 = st.guard
        if dk == 'critical':
            st.guard = st.guard | {('crit', n.get('n') or '')}
        elif dk in ('master', 'masked'):
            st.guard = st.guard | {('thread', Fr(0))}
        elif dk == 'atomic':
            st.guard = st.guard | {('atomic', id(n))}
        o = eng.omp_plain(n, st)
        if o.n is not None:
            o.n.guard = g0
            if dk in ('for', 'for simd', 'single', 'sections') and not self.has(n, 'nowait'):
                self.phase(o.n, ('end', id(n)))
        return o

    def loopvar(self, n):
        b = n.get('body') or {}
        out = set()
        if 'for' in n.get('dk', '') and b.get('k') == 'for':
            for d in self.S.loopvars(b):
                x = self.S.lookup(d)
                if x is not None:
                    out.add(x)
        return out

    def vec(self, eng, sn, obj, ck, args, n, st):
        if self.cur and sn in STRUCT:
            for o in obj:
                self.access(eng, 'w', o, n, st, True)
        elif self.cur and sn in ('size', 'size1', 'size2', 'size3', 'data', 'begin', 'end', 'operator[]', 'operator()', 'at'):
            pass

    def private(self, b):
        rg, pc = self.cur[-1]
        if b in rg.clause:
            return True
        if b[0] == 'LAM' or b[0] == 'STR' or b == PH:
            return True
        c = None
        if b[0] == 'X':
            nm = P.NAMES[b[1]]
            if isinstance(nm, tuple) and nm[0] == 'in':
                return False
            if not (isinstance(nm, tuple) and len(nm) > 2 and isinstance(nm[2], int)):
                return True
            if nm[2] not in self.par and nm[2] != 1:
                return True
            c = nm[2]
        if b[0] in ('L', 'R'):
            c = b[1]
        elif b[0] in ('H', 'T') and len(b) > 2:
            c = b[2]
        n = 0
        while isinstance(c, int) and n < 500:
            if c == pc:
                return True
            c = self.par.get(c)
            n += 1
        return False

    def access(self, eng, rw, lv, node, st, whole=False):
        if not self.cur or rw == 'd':
            return
        if self.private(lv.base):
            return
        if lv.base[0] == 'G' and 'std::c' in str(lv.base[1]):
            return
        e = Ev()
        e.lv, e.rw, e.whole = lv, rw, whole
        e.guard = st.guard
        v = (st.m.get(PH) or {}).get(())
        e.phase = v.prov if v is not None else frozenset()
        lk = eng.ws[-1] if eng.ws else None
        e.ws = lk if lk in self.wsK else None
        e.where, e.fn = eng.where(node), eng.fname()
        e.facts = st.facts
        e.inner = tuple(self.loops)
        e.node = node
        e.text = self.name(lv)
        self.events.append(e)

    def name(self, lv):
        b = lv.base
        s = ''
        if b[0] == 'X':
            return 'the memory behind a pointer'
        if b[0] == 'L':
            for f in (self.S.frame,):
                while f is not None:
                    for d, x in f.vars.items():
                        if x == b:
                            s = self.decls.get(d, '')
                    f = f.parent
        elif b[0] in ('G', 'S'):
            s = str(b[1])
        t = '.'.join(str(p) for p in lv.path if p not in ('[]', '[5]', '#def'))
        return (s + '.' + t if s and t else s or t or str(b[0])) + ('[]' * (1 if lv.idx else 0))

    # ---- deciding --------------------------------------------------------------
    def kind(self, rg, e, a):
        """'inv': the same for all threads; 'free': a counter that every iteration runs through; '?': anything else"""
        nm = P.NAMES[a]
        if a in rg.td and not (isinstance(nm, tuple) and nm and nm[0] == 'K'):
            return '?'
        if isinstance(nm, tuple) and nm:
            if nm[0] == 'K':
                if nm[1] in e.inner:
                    if e.ws is not None and e.ws in e.inner and e.inner.index(nm[1]) > e.inner.index(e.ws):
                        return 'free'
                    return 'outer'
            if nm[0] in ('in', 'arg'):
                return 'inv'
            if nm[0] == 'el' and nm[1] in rg.shared and nm[1] not in rg.written:
                ks = set(self.kind(rg, e, x) for p in nm[3] if isinstance(p, Poly) for x in p.atoms())
                if all(isinstance(p, Poly) for p in nm[3]) and ks <= {'inv'}:
                    return 'inv'
        if e.ws is not None and self.S.born_in(a, e.ws):
            return '?'
        for lk in e.inner:
            if self.S.born_in(a, lk):
                return '?'
        if a < rg.n0 or a in rg.known:
            return 'inv'
        return '?'

    def split(self, e, p):
        """p = c*K + r; None when the counter occurs in another way"""
        if e.ws is None:
            return Fr(0), p
        Ka = self.wsK[e.ws]
        c = p.t.get((Ka,), 0)
        r = p.sub(Poly({(Ka,): c})) if c else p
        for a in r.atoms():
            if a == Ka:
                return None
        return Fr(c), r

    def kinds(self, rg, e, r):
        return set(self.kind(rg, e, a) for a in r.atoms())

    def excluded(self, rg, a, b):
        """something keeps the two accesses apart"""
        for g in a.guard:
            if g in b.guard and g[0] in ('thread', 'crit'):
                return True
            if g in b.guard and g[0] == 'single' and a.phase:
                return True
        ga = [g for g in a.guard if g[0] == 'atomic']
        gb = [g for g in b.guard if g[0] == 'atomic']
        if ga and gb and a.lv == b.lv:
            return True
        if not (a.phase & b.phase):
            return True
        return False

    def dims(self, rg, a, b):
        """'apart', 'meet' or '?' for two accesses of one array"""
        ia, ib = a.lv.idx, b.lv.idx
        same_ws = a.ws is not None and a.ws == b.ws
        paired = same_ws
        if not paired and a.ws is not None and b.ws is not None:
            x, y = self.wsinfo[a.ws], self.wsinfo[b.ws]
            # the same iterations go to the same threads only if the numbers of iterations are the same as well
            if x['sched'] == 'static' and y['sched'] == 'static' and x['chunk'] == y['chunk']:
                paired = 'maybe'
        cons = []
        unk = False
        for x, y in zip(ia, ib):
            if not (isinstance(x, Poly) and isinstance(y, Poly)):
                unk = True
                continue
            u, v = self.split(a, x), self.split(b, y)
            if u is None or v is None:
                unk = True
                continue
            (ca, ra), (cb, rb) = u, v
            kk = self.kinds(rg, a, ra) | self.kinds(rg, b, rb)
            d = rb.sub(ra)
            if '?' in kk or ('outer' in kk and (a.phase != b.phase or len(a.phase) != 1)):
                # private data in the index
                if d.is_const() and '?' not in kk:
                    pass
                else:
                    unk = True
                    continue
            if ca == 0 and cb == 0:
                if d.is_const() and d.const() != 0 and 'free' not in kk:
                    return 'apart'
                if not d.is_const() and 'free' not in kk:
                    unk = True
                continue
            if 'free' in kk or ('outer' in kk and any(e.ws and self.wsinfo[e.ws]['nowait'] for e in (a, b))):
                unk = True
                continue
            if ca == cb:
                if not d.is_const():
                    unk = True
                    continue
                s = Fr(d.const()) / ca
                if s == 0 and paired is True:
                    return 'apart'
                if s.denominator != 1:
                    return 'apart'
                if s == 0 and paired == 'maybe':
                    unk = True
                    continue
                cons.append(('-', s))
            elif ca == -cb:
                # ca K1 + ra = -ca K2 + rb
                if d.is_const():
                    s = Fr(d.const()) / ca
                    if s.denominator != 1 or s < 0 or (s == 0 and paired is True):
                        return 'apart'
                    cons.append(('+', s))
                else:
                    q = d.scale(Fr(1) / ca)
                    if entails(a.facts, norm_fact(ONE.sub(q), '<=')):
                        cons.append(('+', q))
                    else:
                        unk = True
            else:
                c, q = (ca, d) if cb == 0 else (cb, ra.sub(rb)) if ca == 0 else (None, None)
                if c is None:
                    unk = True
                    continue
                q = q.scale(Fr(1) / c)
                if q.is_const():
                    s = Fr(q.const())
                    if s.denominator != 1 or s < 0:
                        return 'apart'
                    cons.append(('1' if cb == 0 else '2', s))
                elif entails(a.facts | b.facts, norm_fact(q.scale(-1), '<=')):
                    cons.append(('1' if cb == 0 else '2', q))
                else:
                    unk = True
        if unk:
            return self.ranges(rg, a, b, same_ws, paired)
        by = {}
        for k, s in cons:
            if k in by and by[k] != s:
                return 'apart' if not isinstance(s, Poly) else '?'
            by[k] = s
        # the offset must be smaller than the number of iterations
        if same_ws and '-' in by:
            s = abs(by['-'])
            Kp = Poly({(self.wsK[a.ws],): 1})
            if entails(a.facts, norm_fact(Kp.sub(C(s)).add(ONE), '<=')):
                return 'apart'
        if paired == 'maybe' and not cons:
            return 'meet'
        return 'meet'

    def ranges(self, rg, a, b, same_ws, paired):
        """indices made of loop counters and common values only: whether they can coincide"""
        fs = set()
        eq = []
        ok = True
        both = set()
        for x, y in zip(a.lv.idx, b.lv.idx):
            if not (isinstance(x, Poly) and isinstance(y, Poly)):
                ok = False
                continue
            ks = self.kinds(rg, a, x) | self.kinds(rg, b, y)
            wk = set(self.wsK[e.ws] for e in (a, b) if e.ws)
            rest = set(self.kind(rg, e, q) for e, p in ((a, x), (b, y)) for q in p.atoms() if q not in wk)
            if '?' in rest:
                ok = False
                continue
            for p in (x, y):
                for m in p.t:
                    if len(m) > 1:
                        ok = False
            eq.append((x, y))
        if not eq:
            return '?'

        def ren(e, tag):
            cache = {}

            def f(q):
                k = 'ws' if e.ws and q == self.wsK[e.ws] else self.kind(rg, e, q)
                if k == 'inv':
                    return q
                if q not in cache:
                    cache[q] = A((tag, q), P.ISINT[q]).single_atom()
                return cache[q]
            return f
        fa, fb = ren(a, 'ra'), ren(b, 'rb')
        for e, f in ((a, fa), (b, fb)):
            for p, op in e.facts:
                fs.add((P.rename(p, f), op))
            for q in set(q for p in e.lv.idx if isinstance(p, Poly) for q in p.atoms()):
                for p, op in P.AFACTS.get(q, ()):
                    fs.add((P.rename(p, f), op))
        for x, y in eq:
            fs.add(norm_fact(P.rename(x, fa).sub(P.rename(y, fb)), '=='))
        cases = [None]
        if paired is True:
            Ka, Kb = self.wsK[a.ws], self.wsK[b.ws]
            d = Poly({(fa(Ka),): 1, (fb(Kb),): -1})
            cases = [norm_fact(d.add(ONE), '<='), norm_fact(ONE.sub(d), '<=')]
        if all(P.infeasible(fs | ({c} if c else set())) for c in cases):
            return 'apart'
        return 'meet' if ok and len(eq) == len(a.lv.idx) == len(b.lv.idx) else '?'

    def shares(self, rg, a, b):
        """both indices lie in the thread's own part of a range"""
        for x, y in zip(a.lv.idx, b.lv.idx):
            r = []
            for e, p in ((a, x), (b, y)):
                hit = None
                for lo, hi in self.parts:
                    la, ha = lo.single_atom(), hi.single_atom()
                    ok = entails(e.facts, norm_fact(lo.sub(p), '<=')) and entails(e.facts, norm_fact(p.sub(hi).add(ONE), '<='))
                    over = entails(e.facts, norm_fact(lo.sub(p).sub(ONE), '<=')) and entails(e.facts, norm_fact(p.sub(hi), '<='))
                    if ok:
                        hit = ('in', la)
                    elif over:
                        hit = ('over', la)
                    if hit:
                        break
                r.append(hit)
            if r[0] and r[1] and r[0][1] == r[1][1]:
                return 'apart' if r[0][0] == r[1][0] == 'in' else 'meet'
        return '?'

    parts = ()

    def compatible(self, a, b):
        """one of the places contains the other"""
        p, q = a.lv.path, b.lv.path
        n = min(len(p), len(q))
        if p[:n] != q[:n]:
            return False
        if len(p) != len(q):
            s = a if len(p) < len(q) else b
            if not s.whole:
                return False
        return True

    def decide(self, rg):
        """list of (a, b, text) that race"""
        out = []
        by = {}
        for e in rg.ev.values():
            by.setdefault(e.lv.base, []).append(e)
            rg.shared.add(e.lv.base)
            if e.rw == 'w':
                rg.written.add(e.lv.base)
        for base, evs in by.items():
            if not any(e.rw == 'w' for e in evs):
                continue
            for i, a in enumerate(evs):
                for b in evs[i:]:
                    if a.rw != 'w' and b.rw != 'w':
                        continue
                    if not self.compatible(a, b):
                        continue
                    rg.pairs += 1
                    if self.excluded(rg, a, b):
                        continue
                    if rg.locks or rg.odd:
                        rg.undecided.append((a, b))
                        continue
                    if a.ws is not None and self.wsinfo[a.ws]['collapse'] and a.lv.idx:
                        rg.undecided.append((a, b))
                        continue
                    if not a.lv.idx or not b.lv.idx:
                        out.append((a, b))
                        continue
                    r = self.dims(rg, a, b)
                    if r == '?' and self.parts:
                        r = self.shares(rg, a, b)
                    if r == 'meet':
                        out.append((a, b))
                    elif r == '?':
                        rg.undecided.append((a, b))
        return out
