"""P20: normalisation covers all components, once."""
import facts, load
from facts import walk
import engine as G
import poly as P
from poly import *
from scen import *

OBJ = load.OBJ
B = 'conviqt::beam'
MARK = B + '::normalized_'


class Norm:
    """beam::normalize on a loaded beam"""

    def __init__(self, F, pol, mark):
        self.S = S = Scen(F)

        def ih(st, base, path, isint):
            if base != OBJ.base:
                return None
            if path == ('pol',):
                return K(pol)
            if path == ('normalized_',):
                return K(mark)
            if path in (('lmax',), ('mmax',)) or len(path) == 2 and path[1] in ('lmax', 'mmax'):
                a = A(('in', base, path[-1:]), True)
                P.AFACTS.setdefault(a.single_atom(), [(a.scale(-1), '<=')])
                return Val((a,), G.E0, G.UNK)
        S.init_hook = ih
        self.stores = {}

        def store(eng, lvs, v, node, st):
            for l in lvs:
                if l.base == OBJ.base and load.has_elem_(l.path):
                    self.stores[(l.path, id(node), eng.frame.ctx)] = (l, v, eng.where(node), eng.fname())
        S.hooks['store'] = store
        self.ok, self.ret, self.thr, self.types = S.invoke(F.one(B + '::normalize'), OBJ, [], State())
        S.hooks.clear()

    def factor(self, l, v):
        """F if v is F times the old value of the same element"""
        p = v.poly()
        if p is None:
            return None
        for a in p.atoms():
            d = self.S.eldef.get(a)
            if d is None or d[0].base != l.base or d[0].path != l.path or d[0].idx != l.idx and l.idx:
                continue
            # linear in a?
            q = {}
            for m, c in p.t.items():
                if m.count(a) != 1:
                    q = None
                    break
                k = list(m)
                k.remove(a)
                q[tuple(k)] = c
            if q is not None:
                return Poly(q)
        return None


def callers(F):
    out = {}
    for f in F.funcs.values():
        for n in walk(f.get('body') or {}):
            if n.get('k') in ('call', 'mcall', 'ocall', 'ctor') and n.get('fid'):
                out.setdefault(n['fid'], set()).add(f['fid'])
    return out


def writes_mark(f):
    out = []
    for n in walk(f.get('body') or {}):
        t = None
        if n.get('k') == 'asg':
            t = n['c'][0]
        elif n.get('k') == 'un' and n.get('op') in ('++', '--', '&'):
            t = n['c'][0]
        while isinstance(t, dict) and t.get('k') == 'cast':
            t = t['c'][0]
        if isinstance(t, dict) and t.get('k') == 'mem' and t.get('d') == MARK:
            out.append(n)
    return out


def run(rep):
    rep.rule('R1: normalising a loaded, unmarked beam multiplies the real and imaginary parts of the coefficients of every component it '
             'hands out by the same factor, and marks the beam')
    rep.rule('R2: normalising a marked beam writes no coefficient and keeps the mark')
    rep.rule('R3: after a successful load, and after construction, the mark is off')
    rep.rule('R4: the mark is written only by construction, loading and normalisation')
    F = facts.load()
    f = F.one(B + '::normalize')
    where = '%s:%s' % (f['f'], f.get('l'))
    for pol in (0, 1):
        L = load.run(F, 'beam', pol)
        rep.count('load scenarios')
        if L.ok is not None:
            r = L.method('normalized', L.ok)
            if r[0] is not None and not L.holds(L.ok, r[1], '==', 0):
                rep.violation('R3', '%s:%s' % (L.f['f'], L.f.get('l')), L.f['fn'], 'the mark is not cleared by a successful load')
        comps = [(c, L.component(c, L.ok)) for c in L.accessors()[0]] if L.ok is not None else []
        comps = [(c, lv) for c, lv in comps if lv is not None]
        rep.count('components', len(comps))
        N = Norm(F, pol, 0)
        rep.count('normalise scenarios', 2)
        tag = 'polarised' if pol else 'unpolarised'
        if N.ok is None:
            rep.violation('R1', where, f['fn'], 'normalising a loaded %s beam never succeeds' % tag)
        else:
            fac = {}
            for c, lv in comps:
                cells = {k: v for k, v in N.S.under(N.ok, lv) if k and k[-1] in ('re', 'im') and load.has_elem_(k)}
                for part in ('re', 'im'):
                    st = [(l, v, w, fn) for (pth, _, _), (l, v, w, fn) in N.stores.items()
                          if pth[:len(lv.path)] == lv.path and pth[-1] == part]
                    if not st:
                        rep.violation('R1', where, f['fn'], 'normalising a %s beam does not scale the %s parts of %s()'
                                      % (tag, 'real' if part == 're' else 'imaginary', c), key=c + part)
                        continue
                    # the final value, if the loop is known to cover the array; else each store
                    done = False
                    for k, v in cells.items():
                        if k[-1] == part:
                            x = N.factor(LV(lv.base, lv.path + k), v)
                            if x is not None:
                                fac.setdefault(x, []).append((c, part, st[-1][2], st[-1][3]))
                                done = True
                    if not done:
                        for l, v, w, fn in st:
                            x = N.factor(l, v)
                            if x is not None:
                                fac.setdefault(x, []).append((c, part, w, fn))
                                if x == ONE:
                                    continue
                                rep.note('%s %s: the extent of the loop was not established' % (c, part))
                    rep.count('component parts checked')
            if len(fac) > 1:
                big = max(fac.values(), key=len)
                for x, us in fac.items():
                    if us is not big:
                        for c, part, w, fn in us[:1]:
                            rep.violation('R1', w, fn, 'normalising a %s beam scales %s() by another factor than %s()'
                                          % (tag, c, big[0][0]), key=c)
            r = L.method('normalized', N.ok) if False else meth(F, N, N.ok)
            if r is not None and not L.holds(N.ok, r, '==', 1):
                rep.violation('R1', where, f['fn'], 'a %s beam is not marked after it was normalised' % tag, key='mark')
        N = Norm(F, pol, 1)
        if N.ok is not None:
            for (pth, _, _), (l, v, w, fn) in N.stores.items():
                x = N.factor(l, v)
                if x is None or x != ONE:
                    rep.violation('R2', w, fn, 'a %s beam that is already normalised is scaled again' % tag)
            r = meth(F, N, N.ok)
            if r is not None and not L.holds(N.ok, r, '==', 1):
                rep.violation('R2', where, f['fn'], 'the mark of a normalised %s beam is lost by normalising again' % tag)
        if N.thr is not None:
            rep.note('normalising can throw')
    # construction
    for c in F.funcs.values():
        if c.get('cls') == B and c.get('kind') == 'ctor' and not c.get('params'):
            S = Scen(F)
            st = State()
            st.m[OBJ.base] = {('#def',): Val((A(('ui', OBJ.base)),), prov=G.UNINIT)}
            ok, r, t, tt = S.invoke(c, OBJ, [], st)
            v = meth(F, None, ok, S)
            rep.count('constructors')
            if v is None or v.const() != 0:
                rep.violation('R3', '%s:%s' % (c['f'], c.get('l')), c['fn'], 'a freshly made beam is not known to be unmarked')
    # who writes the mark
    cl = callers(F)
    allowed = set(x['fid'] for x in F.funcs.values() if x.get('cls') == B and (x.get('kind') == 'ctor' or x['sn'] in ('read', 'normalize')))
    changed = True
    while changed:
        changed = False
        for fid, cs in cl.items():
            if fid in allowed or fid not in F.funcs or F.funcs[fid].get('cls') != B and F.funcs[fid].get('kind') != 'lambda':
                continue
            if cs and cs <= allowed:
                allowed.add(fid)
                changed = True
    for x in F.funcs.values():
        ws = writes_mark(x)
        rep.count('functions searched for writes of the mark')
        for n in ws:
            rep.count('writes of the mark')
            if x['fid'] not in allowed and not x.get('implicit'):
                rep.violation('R4', '%s:%s' % (x['f'], n.get('l')), x['fn'], 'the normalised mark is written outside construction, loading and '
                              'normalisation')
    rep.need('component parts checked', 8)
    rep.need('constructors', 1)


def meth(F, N, st, S=None):
    g = [x for x in F.funcs.values() if x['fn'] == B + '::normalized' and x.get('body')]
    if not g or st is None:
        return None
    ok, r, t, tt = (S or N.S).invoke(g[0], OBJ, [], st.copy())
    return r if ok is not None else None
