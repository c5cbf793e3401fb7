"""Symbolic values: polynomials with rational coefficients over named atoms, linear
facts about them and a sound entailment test (Gauss + Fourier-Motzkin)."""
from fractions import Fraction as Fr
from itertools import product

# ---- atoms ------------------------------------------------------------------
_ids = {}
NAMES = []      # id -> structured name
ISINT = []      # id -> bool
AFACTS = {}     # id -> list of facts that always hold


def atom_id(name, isint=False):
    i = _ids.get(name)
    if i is None:
        i = len(NAMES)
        _ids[name] = i
        NAMES.append(name)
        ISINT.append(bool(isint))
    return i


def num(x):
    if isinstance(x, Fr) and x.denominator == 1:
        return int(x)
    return x


class Poly:
    __slots__ = ('t', 'h')

    def __init__(self, t):
        self.t = t
        self.h = None

    def __hash__(self):
        if self.h is None:
            self.h = hash(frozenset(self.t.items()))
        return self.h

    def __eq__(self, o):
        return self is o or (isinstance(o, Poly) and self.t == o.t)

    def __ne__(self, o):
        return not self == o

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        return self.t.get((), 0)

    def add(self, o, s=1):
        t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m, 0) + s * c
            if v:
                t[m] = num(v)
            else:
                t.pop(m, None)
        return Poly(t)

    def sub(self, o):
        return self.add(o, -1)

    def scale(self, k):
        if k == 0:
            return ZERO
        return Poly({m: num(c * k) for m, c in self.t.items()})

    def mul(self, o):
        if o.is_const():
            return self.scale(o.const())
        if self.is_const():
            return o.scale(self.const())
        if len(self.t) * len(o.t) > 64:
            return None
        t = {}
        for m, c in self.t.items():
            for n, d in o.t.items():
                k = tuple(sorted(m + n))
                k = _cancel(k)
                v = t.get(k, 0) + c * d
                if v:
                    t[k] = num(v)
                else:
                    t.pop(k, None)
        return Poly(t)

    def atoms(self):
        s = set()
        for m in self.t:
            s.update(m)
        return s

    def isint(self):
        """integer coefficients over integer atoms"""
        for m, c in self.t.items():
            if isinstance(c, Fr):
                return False
            for a in m:
                if not ISINT[a]:
                    return False
        return True

    def single_atom(self):
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == 1 and len(m) == 1:
                return m[0]
        return None

    def __repr__(self):
        if not self.t:
            return '0'
        out = []
        for m, c in sorted(self.t.items(), key=lambda x: (len(x[0]), x[0])):
            s = '*'.join(aname(a) for a in m)
            out.append(str(c) if not m else (s if c == 1 else '%s*%s' % (c, s)))
        return ' + '.join(out)


_inv = {}       # atom id of x  -> atom id of 1/x  (and back)


def _cancel(k):
    for a in k:
        b = _inv.get(a)
        if b is not None and b in k:
            l = list(k)
            l.remove(a)
            l.remove(b)
            return _cancel(tuple(l))
    return k


def aname(a):
    return short(NAMES[a])


def short(n):
    if isinstance(n, tuple):
        if not n:
            return '()'
        k = n[0]
        if k == 'in':
            return '.'.join(str(x) for x in n[1:])
        if k in ('fn', 'idiv', 'inv'):
            return '%s(%s)' % (k if k != 'fn' else n[1], ','.join(short(x) for x in n[(2 if k == 'fn' else 1):]))
        if k in ('el', 'phi', 'lp', 'hv', 'call'):
            return '%s#%d' % (k, _ids.get(n, -1))
        return '(' + ','.join(short(x) for x in n) + ')'
    return str(n)


ZERO = Poly({})
ONE = Poly({(): 1})


def C(x):
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, float):
        x = Fr(x)
    x = num(x)
    return Poly({(): x}) if x else ZERO


def A(name, isint=False):
    return Poly({(atom_id(name, isint),): 1})


def inv(p):
    """1/p"""
    if p.is_const():
        return C(Fr(1) / Fr(p.const())) if p.const() else None
    # keep the leading coefficient outside
    if len(p.t) == 1:
        (m, c), = p.t.items()
        t = []
        for a in m:
            b = _inv.get(a)
            if b is None:
                b = atom_id(('inv', NAMES[a] if False else Poly({(a,): 1})))
                _inv[a] = b
                _inv[b] = a
            t.append(b)
        return Poly({tuple(sorted(t)): num(Fr(1) / Fr(c))})
    lead = p.t[max(p.t)]
    q = p.scale(Fr(1) / Fr(lead))
    a = A(('inv', q))
    return a.scale(Fr(1) / Fr(lead))


def idiv(p, c):
    """C integer division by a positive constant; exact when provably divisible"""
    if p.is_const():
        v = p.const()
        if isinstance(v, Fr):
            return None
        q = abs(v) // c
        return C(q if v >= 0 else -q)
    if p.isint():
        if all(v % c == 0 for v in p.t.values()):
            return Poly({m: v // c for m, v in p.t.items()})
        at = sorted(p.atoms())
        if len(at) <= 4 and c <= 8:
            ok = True
            for vals in product(range(c), repeat=len(at)):
                env = dict(zip(at, vals))
                s = 0
                for m, v in p.t.items():
                    x = v
                    for a in m:
                        x *= env[a]
                    s += x
                if s % c:
                    ok = False
                    break
            if ok:
                return p.scale(Fr(1, c))
    q = A(('idiv', p, c), True)
    if p.isint():
        a = q.single_atom()
        if a not in AFACTS:
            # sign unknown: |p - c q| <= c-1
            AFACTS[a] = [(p.sub(q.scale(c)).sub(C(c - 1)), '<='),
                         (q.scale(c).sub(p).sub(C(c - 1)), '<=')]
    return q


# ---- facts ------------------------------------------------------------------
# a fact is (poly, op) meaning  poly op 0, op in <=, <, ==, !=

def norm_fact(p, op):
    if op == '<' and p.isint():
        p = p.add(ONE)
        op = '<='
    if op == '>':
        return norm_fact(p.scale(-1), '<')
    if op == '>=':
        return norm_fact(p.scale(-1), '<=')
    return (p, op)


NEG = {'<=': '>', '<': '>=', '==': '!=', '!=': '=='}


def negate(f):
    p, op = f
    return norm_fact(p, NEG[op])


def const_truth(f):
    p, op = f
    if not p.is_const():
        return None
    v = p.const()
    return {'<=': v <= 0, '<': v < 0, '==': v == 0, '!=': v != 0}[op]


_entcache = {}


def minmaxof(atoms):
    """the quantities that the minima and maxima among some atoms are taken of"""
    out = frozenset()
    for a in atoms:
        nm = NAMES[a]
        if isinstance(nm, tuple) and len(nm) == 4 and nm[0] == 'fn' and nm[1] in ('min', 'max'):
            out |= nm[2].atoms() | nm[3].atoms()
    return out


def relevant(facts, goal):
    seen = set(goal[0].atoms())
    out = []
    rest = list(facts)
    extra = set()
    done_atoms = set()
    changed = True
    while changed:
        changed = False
        for a in list(seen):
            if a in done_atoms:
                continue
            done_atoms.add(a)
            for f in AFACTS.get(a, ()):
                if f not in extra:
                    extra.add(f)
                    n = f[0].atoms()
                    if not n <= seen:
                        seen |= n
                    changed = True
        nr = []
        for f in rest:
            at = f[0].atoms()
            if at & seen or minmaxof(at) & seen:
                out.append(f)
                if not at <= seen:
                    seen |= at
                changed = True
            else:
                nr.append(f)
        rest = nr
        if len(out) > 60:
            break
    return out + list(extra)


def entails(facts, goal):
    """True only if the facts imply the goal"""
    p, op = goal
    c = const_truth(goal)
    if c is not None:
        return c
    if goal in facts:
        return True
    if op == '==':
        return entails(facts, norm_fact(p, '<=')) and entails(facts, norm_fact(p, '>='))
    rel = relevant(facts, goal)
    key = (frozenset(rel), goal)
    r = _entcache.get(key)
    if r is None:
        if op == '!=':
            r = infeasible(rel + [(p, '==')])
            if not r:
                r = (p, '<') in rel or (p.scale(-1), '<') in rel
        else:
            r = infeasible(rel + [negate(goal)])
        _entcache[key] = r
    return r


# ---- joined values ----------------------------------------------------------
PHI = {}        # atom -> (site, value on one side, value on the other)
SITE = {}       # join site -> (facts of one side, facts of the other)


def subst(p, mp):
    """replace atoms by polynomials; None when that gets too big"""
    if not any(a in mp for a in p.atoms()):
        return p
    r = ZERO
    for m, c in p.t.items():
        x = C(c)
        for a in m:
            q = mp.get(a)
            x = x.mul(q if q is not None else Poly({(a,): 1}))
            if x is None:
                return None
        r = r.add(x)
        if len(r.t) > 40:
            return None
    return r


def substfact(f, mp):
    q = subst(f[0], mp)
    if q is None:
        return None
    return norm_fact(q, f[1]) if f[1] in ('<', '<=') else (q, f[1])


_budget = [0]
MINSPLIT = []    # not empty: entails_split() also looks at the cases of min and max


def entails_split(facts, goal, depth=3):
    """entailment by cases over the joins that the goal's values come from"""
    if depth == 3:
        _budget[0] = 60
    if entails(facts, goal):
        return True
    if depth == 0 or _budget[0] <= 0:
        return False
    ga = goal[0].atoms()
    sites = []
    for a in sorted(ga):
        x = PHI.get(a)
        if x and x[0] not in sites:
            sites.append(x[0])
    ng = len(sites)
    near = set()
    for f in facts:
        at = f[0].atoms()
        if at & ga:
            near |= at
    for a in sorted(near - ga):
        x = PHI.get(a)
        if x and x[0] not in sites:
            sites.append(x[0])
    for i, site in enumerate(sites[:4]):
        sf = SITE.get(site, ((), ()))
        ok = True
        for side in (0, 1):
            _budget[0] -= 1
            at = set(ga)
            for f in facts:
                at |= f[0].atoms()
            mp = {}
            for a in at:
                x = PHI.get(a)
                if x and x[0] == site:
                    mp[a] = x[1 + side]
            g = substfact(goal, mp)
            if g is None:
                ok = False
                break
            fs = set(sf[side])
            for f in facts:
                h = substfact(f, mp)
                if h is not None:
                    fs.add(h)
            fs = frozenset(fs)
            if not entails_split(fs, g, depth - 1):
                # the case itself may be impossible
                ok = False
                break
        if ok:
            return True
    k = 0
    for a in sorted(ga | near) if MINSPLIT else ():
        nm = NAMES[a]
        if not (isinstance(nm, tuple) and len(nm) == 4 and nm[0] == 'fn' and nm[1] in ('min', 'max')) or k >= 3:
            continue
        k += 1
        x, y = nm[2:]
        if not x.isint() or not y.isint():
            continue
        for v, w in ((x, y), (y, x)):
            _budget[0] -= 1
            mp = {a: v}
            g = substfact(goal, mp)
            if g is None:
                break
            fs = set([norm_fact(v.sub(w) if nm[1] == 'min' else w.sub(v), '<=')])
            for f in facts:
                h = substfact(f, mp)
                if h is not None:
                    fs.add(h)
            if not entails_split(frozenset(fs), g, depth - 1):
                break
        else:
            return True
    return False


def infeasible(facts):
    """True only if no assignment satisfies all facts (monomials as unknowns)"""
    eqs, ineqs, nes = [], [], []
    for p, op in facts:
        if op == '==':
            eqs.append(dict(p.t))
        elif op == '!=':
            nes.append(p)
        else:
            ineqs.append((dict(p.t), op == '<'))
    subs = []
    # Gaussian elimination
    while eqs:
        e = eqs.pop()
        ms = [m for m in e if m != ()]
        if not ms:
            if e.get((), 0) != 0:
                return True
            continue
        m = ms[0]
        c = e.pop(m)
        rep = {k: -Fr(v) / c for k, v in e.items()}

        def ap(t):
            v = t.pop(m, 0)
            if v:
                for k, w in rep.items():
                    x = t.get(k, 0) + v * w
                    if x:
                        t[k] = x
                    else:
                        t.pop(k, None)
        for t in eqs:
            ap(t)
        for t, _ in ineqs:
            ap(t)
        subs.append((m, rep))
    for p in nes:
        t = dict(p.t)
        for m, rep in subs:
            v = t.pop(m, 0)
            if v:
                for k, w in rep.items():
                    x = t.get(k, 0) + v * w
                    if x:
                        t[k] = x
                    else:
                        t.pop(k, None)
        if not t or (len(t) == 1 and t.get((), 1) == 0):
            return True
    # Fourier-Motzkin
    seen = set()
    cur = []
    for t, s in ineqs:
        r = _chk(t, s)
        if r is True:
            return True
        if r is None:
            k = _key(t, s)
            if k not in seen:
                seen.add(k)
                cur.append((t, s))
    while True:
        cnt = {}
        for t, s in cur:
            for m, c in t.items():
                if m != ():
                    a = cnt.setdefault(m, [0, 0])
                    a[0 if c > 0 else 1] += 1
        if not cnt:
            return False
        m = min(cnt, key=lambda k: (cnt[k][0] * cnt[k][1] - cnt[k][0] - cnt[k][1]))
        pos = [(t, s) for t, s in cur if t.get(m, 0) > 0]
        neg = [(t, s) for t, s in cur if t.get(m, 0) < 0]
        new = [(t, s) for t, s in cur if m not in t]
        if len(new) + len(pos) * len(neg) > 600:
            return False
        seen = set(_key(t, s) for t, s in new)
        for tp, sp in pos:
            for tn, sn in neg:
                a, b = tp[m], -tn[m]
                t = {}
                for k, v in tp.items():
                    if k != m:
                        t[k] = v * Fr(b)
                for k, v in tn.items():
                    if k != m:
                        x = t.get(k, 0) + v * Fr(a)
                        if x:
                            t[k] = x
                        else:
                            t.pop(k, None)
                s = sp or sn
                r = _chk(t, s)
                if r is True:
                    return True
                if r is None:
                    kk = _key(t, s)
                    if kk not in seen:
                        seen.add(kk)
                        new.append((t, s))
        cur = new


def _chk(t, strict):
    """True: contradiction, False: trivially true, None: keep"""
    if not t or (len(t) == 1 and () in t):
        v = t.get((), 0)
        if v > 0 or (strict and v == 0):
            return True
        return False
    return None


def _key(t, s):
    g = None
    for m in sorted(k for k in t if k != ()):
        g = abs(Fr(t[m]))
        break
    return (frozenset((k, Fr(v) / g) for k, v in t.items()), s)


# ---- residues ---------------------------------------------------------------

def residue(p, n=5):
    """p mod n when it is the same for all integer values of the atoms"""
    if not p.isint():
        return None
    for m, c in p.t.items():
        if m != () and c % n:
            return None
    return p.t.get((), 0) % n


def rename(p, f):
    """Rename atoms by f(id) -> id"""
    t = {}
    for m, c in p.t.items():
        k = tuple(sorted(f(a) for a in m))
        t[k] = t.get(k, 0) + c
    return Poly({m: c for m, c in t.items() if c})
