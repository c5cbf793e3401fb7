"""What the engine knows about functions and classes it does not look into: containers,
MPI, the C library and CFITSIO."""
from poly import *
import poly as P
import engine as G

TABLE = {}
CTORS = {}


def model(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


# ---- containers --------------------------------------------------------------
def comp_of(eng, ck):
    return eng.elem_comp(ck[1]) if ck[0] == 'vec' else '[]'


def nsizes(ck):
    return {'vec': 0, 'arr2': 2, 'arr3': 3}[ck[0]]


def set_size(eng, lv, ck, sizes, st):
    if ck[0] == 'vec':
        st.put(lv.base, lv.path + ('#n',), sizes[0])
    else:
        for i in range(nsizes(ck)):
            st.put(lv.base, lv.path + ('#n%d' % (i + 1),), sizes[i])


def elem(eng, lv, ck):
    return G.LV(lv.base, lv.path + (comp_of(eng, ck),), lv.idx)


def set_elems(eng, lv, ck, v, n, st):
    e = elem(eng, lv, ck)
    if G.has_elem(lv.path):
        eng.wr_weak_all(e, v, n, st)
        return
    if n is not None:
        eng.access('w', e, n, st, True)
    eng.clear(st, e, v)


def uninit(eng, lv, ck):
    if eng.is_class(ck[1]) and not scalarish(eng, ck[1]):
        return G.Val((A(('def', ck[1])),), prov=G.INIT0)
    return G.Val((A(('ui', lv.base, lv.path)),), prov=G.UNINIT)


def scalarish(eng, t):
    r = eng.F.records.get(G.unref(t))
    return r is not None and all(not eng.is_class(f['t']) for f in r.get('fields', [])) and 'complex' in t


def elval(eng, a, ck, st):
    """value of a fill argument"""
    if eng.is_class(a.get('t', '')):
        ls = eng.evo(a, st)
        und = eng.under(st, ls[0]) if ls else []
        vs = [v for k, v in und if not (k and str(k[-1]).startswith('#'))]
        if not vs:
            vs = [v for k, v in und]
        if not vs:
            return G.Val((A(('fill', id(a))),), prov=G.UNK)
        v = vs[0]
        for w in vs[1:]:
            v = eng.joinv(v, w, ('fillj', id(a)))
        return v.with_(cond=None)
    return eng.ev(a, st)


def vec_ctor(eng, lv, ut, ck, args, node, st):
    if args and eng.is_class(args[-1].get('t', '')) and 'allocator' in args[-1].get('t', ''):
        args = args[:-1]
    if len(args) == 1 and eng.is_class(args[0].get('t', '')) and eng.ckind(args[0]['t']):
        src = eng.evo(args[0], st)
        if src:
            eng.copy_obj(src[0], lv, node, st)
        return
    if not args:
        eng.clear(st, lv)
        set_size(eng, lv, ck, [G.K(0)] * 3, st)
        st.put(lv.base, lv.path + (comp_of(eng, ck), '#def'), G.Val((A(('none', lv.base, lv.path)),), prov=G.E0))
        return
    k = max(1, nsizes(ck))
    sizes = [eng.ev(a, st) for a in args[:k]]
    fillv = None
    if len(args) > k:
        fillv = elval(eng, args[k], ck, st)
    elif ut.startswith('std::'):
        fillv = G.K(0, G.INIT0)
    if fillv is None:
        fillv = uninit(eng, lv, ck)
    # an allocation with a rank-dependent size taints nothing but the size
    if node is not None:
        eng.log_throw(node, st, BADALLOC)
    eng.clear(st, lv)
    set_size(eng, lv, ck, sizes, st)
    eng.clear(st, elem(eng, lv, ck), fillv)
    return


def vec_ilist(eng, lv, ck, vals, n, st):
    eng.clear(st, lv)
    set_size(eng, lv, ck, [G.K(len(vals))], st)
    v = vals[0] if vals else G.K(0, G.INIT0)
    for w in vals[1:]:
        v = eng.joinv(v, w, ('il', id(n)))
    eng.clear(st, elem(eng, lv, ck), v.with_(cond=None))


def sizeval(eng, obj, path, st):
    v = None
    for l in obj:
        c = eng.cell(st, l.base, l.path + path, None, True)
        v = c if v is None else eng.joinv(v, c, ('szj',) + tuple((x.base, x.path) for x in obj))
    return v


def idxpoly(eng, v, n, extra=()):
    p = v.poly()
    if p is None or not p.isint():
        w = eng.ws[-1] if eng.ws else None
        q = A(('ix', id(n), eng.frame.ctx, w) + tuple(extra), True)
        if v.alts and all(isinstance(x, Poly) and x.isint() for x in v.alts):
            m = eng.vmod(v)
            if m is not None:
                eng.MODS[q.single_atom()] = m
        p = q
    return p


BADALLOC = frozenset(['std::bad_alloc'])


def vec_method(eng, obj, ck, cls, sn, args, n, st, want):
    kind = ck[0]
    comp = comp_of(eng, ck)
    obj = [o for o in obj if o is not None]
    if not obj:
        return NotImplemented
    hook = eng.hooks.get('vec')
    if hook:
        hook(eng, sn, obj, ck, args, n, st)
    if sn in ('alloc', 'fast_alloc', 'resize', 'assign', 'allocAndFill', 'push_back', 'emplace_back', 'reserve', 'operator='):
        eng.log_throw(n, st, BADALLOC)
    if sn in ('operator[]', 'at', 'operator()') and args:
        ivs = [eng.ev(a, st) for a in args]
        ps = [idxpoly(eng, v, n, (i,)) for i, v in enumerate(ivs)]
        h = eng.hooks.get('index')
        if h:
            h(eng, obj, ps, ivs, n, st)
        if kind == 'arr2' and len(ps) == 1:
            v = G.Val((A(('row', id(n), eng.frame.ctx)),), ptrs=tuple(o.e(comp, ps[0], ZERO) for o in obj))
            return eng.shape(v, n, st, want)
        return eng.shape([o.e(comp, *ps) for o in obj], n, st, want)
    if sn in ('front', 'back'):
        if sn == 'front':
            return eng.shape([o.e(comp, ZERO) for o in obj], n, st, want)
        return eng.shape([o.e(comp, idxpoly(eng, sizeval(eng, [o], ('#n',), st), n).sub(ONE)) for o in obj], n, st, want)
    if sn == 'size' and kind == 'vec':
        return eng.shape(sizeval(eng, obj, ('#n',), st), n, st, want)
    if sn in ('size1', 'size2', 'size3'):
        return eng.shape(sizeval(eng, obj, ('#n' + sn[-1],), st), n, st, want)
    if sn == 'empty':
        v = sizeval(eng, obj, ('#n',), st)
        return eng.shape(eng.boolval(('cmp', '==', v.alts, (ZERO,), False), v.taint, st), n, st, want)
    if sn in ('data', 'begin', 'cbegin', 'p', 'p0', 'end', 'cend'):
        if kind == 'vec':
            out = []
            for o in obj:
                ix = ZERO
                if sn in ('end', 'cend'):
                    ix = idxpoly(eng, sizeval(eng, [o], ('#n',), st), n)
                out.append(o.e(comp, ix))
            v = G.Val((A(('dat', id(n), eng.frame.ctx)),), ptrs=tuple(out))
        else:
            v = G.Val((A(('dat', id(n), eng.frame.ctx)),), ptrs=tuple(o.e(comp, *([ZERO] * nsizes(ck))) for o in obj))
        return eng.shape(v, n, st, want)
    if sn in ('alloc', 'fast_alloc', 'resize', 'assign', 'allocAndFill'):
        vals = [eng.ev(a, st) for a in args[:max(1, nsizes(ck))]]
        fillv = None
        if len(args) > len(vals):
            fillv = elval(eng, args[len(vals)], ck, st)
        for o in obj:
            if sn == 'resize':
                old = eng.cell(st, o.base, o.path + ('#n',), None, True)
                fv = fillv if fillv is not None else (G.K(0, G.INIT0) if cls.startswith('std::') or eng_is_std(eng, cls) else uninit(eng, o, ck))
                if old.const() == 0 and not G.has_elem(o.path):
                    set_elems(eng, o, ck, fv, n, st)
                else:
                    eng.wr_weak_all(elem(eng, o, ck), fv, n, st)
                set_size(eng, o, ck, vals, st)
                continue
            set_size(eng, o, ck, vals, st)
            set_elems(eng, o, ck, fillv if fillv is not None else uninit(eng, o, ck), n, st)
        return eng.shape(G.K(0), n, st, want)
    if sn in ('dealloc', 'clear', 'reset'):
        for o in obj:
            set_size(eng, o, ck, [G.K(0)] * 3, st)
            set_elems(eng, o, ck, G.Val((A(('none', o.base, o.path)),), prov=G.E0), n, st)
        return eng.shape(G.K(0), n, st, want)
    if sn == 'fill':
        v = elval(eng, args[0], ck, st)
        for o in obj:
            set_elems(eng, o, ck, v.with_(cond=None), n, st)
        return eng.shape(G.K(0), n, st, want)
    if sn == 'push_back' or sn == 'emplace_back':
        o = obj[0]
        nv = eng.cell(st, o.base, o.path + ('#n',), None, True)
        ix = idxpoly(eng, nv, n)
        if len(args) == 1 and eng.is_class(args[0].get('t', '')):
            src = eng.evo(args[0], st)
            tgt = o.e(comp, ix)
            if nv.const() == 0 and not G.has_elem(o.path):
                eng.clear(st, elem(eng, o, ck))
                for s in src[:1]:
                    for k, v in eng.under(st, s):
                        st.put(o.base, o.path + (comp,) + k, v)
            else:
                for s in src[:1]:
                    eng.copy_obj(s, tgt, n, st)
        elif args:
            v = eng.ev(args[0], st)
            if nv.const() == 0 and not G.has_elem(o.path):
                eng.clear(st, elem(eng, o, ck), v.with_(cond=None))
            else:
                eng.wr([o.e(comp, ix)], v, n, st)
        st.put(o.base, o.path + ('#n',), nv.with_(alts=tuple(x.add(ONE) if isinstance(x, Poly) else x for x in nv.alts), cond=None))
        return eng.shape(G.K(0), n, st, want)
    if sn in ('swap', 'transfer'):
        src = eng.evo(args[0], st)
        if len(obj) == 1 and len(src) == 1:
            a, b = obj[0], src[0]
            ua, ub = eng.under(st, a), eng.under(st, b)
            # sizes must exist on both sides
            for o, u in ((a, ua), (b, ub)):
                for pth in (['#n'] if kind == 'vec' else ['#n%d' % (i + 1) for i in range(nsizes(ck))]):
                    if not any(k == (pth,) for k, v in u):
                        u.append(((pth,), eng.cell(st, o.base, o.path + (pth,), None, True)))
            da = st.default(a.base, a.path + (comp,))
            db = st.default(b.base, b.path + (comp,))
            eng.access('w', a, n, st, True)
            eng.access('w', b, n, st, True)
            eng.clear(st, a, db)
            for k, v in ub:
                st.put(a.base, a.path + k, v)
            if sn == 'swap':
                eng.clear(st, b, da)
                for k, v in ua:
                    st.put(b.base, b.path + k, v)
            else:
                eng.clear(st, b)
                set_size(eng, b, ck, [G.K(0)] * 3, st)
                st.put(b.base, b.path + (comp, '#def'), G.Val((A(('none', b.base, b.path)),), prov=G.E0))
            return eng.shape(G.K(0), n, st, want)
        for l in obj + src:
            eng.havoc(st, l, n)
        return eng.shape(G.K(0), n, st, want)
    if sn == 'operator=':
        src = eng.evo(args[0], st) if eng.is_class(args[0].get('t', '')) else []
        for d in obj:
            for s in src[:1]:
                eng.copy_obj(s, d, n, st)
        return eng.shape(list(obj), n, st, want)
    if sn in ('fill_d1', 'shrink_to_fit', 'reserve'):
        for a in args:
            eng.ev(a, st)
        return eng.shape(G.K(0), n, st, want)
    if sn in ('scale',):
        v = eng.ev(args[0], st)
        for o in obj:
            e = elem(eng, o, ck)
            for p in eng.expand(e.path):
                for rel, old in eng.under(st, G.LV(o.base, p)):
                    st.put(o.base, p + rel, old.with_(alts=(A(('sum', o.base, p + rel)),), taint=old.taint | v.taint,
                                                      prov=frozenset([('calc', eng.where(n))])))
        return eng.shape(G.K(0), n, st, want)
    return NotImplemented


def eng_is_std(eng, cls):
    return G.unref(cls).startswith('std::')


def pkey(p):
    return sorted((m, str(c)) for m, c in p.t.items())


# ---- arithmetic ---------------------------------------------------------------
def minmaxval(eng, which, v1, v2):
    p, q = v1.poly(), v2.poly()
    ta = v1.taint | v2.taint
    if p is None or q is None:
        return G.Val((A((which, v1.ser, v2.ser), False),), ta, v1.prov | v2.prov)
    if p == q:
        return v1.tainted(ta)
    if p.is_const() and q.is_const():
        x, y = p.const(), q.const()
        return G.K(min(x, y) if which == 'min' else max(x, y)).with_(taint=ta)
    k = (p, q) if pkey(p) <= pkey(q) else (q, p)
    a = A(('fn', which) + k, p.isint() and q.isint())
    i = a.single_atom()
    if which == 'min':
        fs = [(a.sub(p), '<='), (a.sub(q), '<=')]
    else:
        fs = [(p.sub(a), '<='), (q.sub(a), '<=')]
    if p.isint() and q.isint():
        P.AFACTS.setdefault(i, [norm_fact(x, o) for x, o in fs])
    return G.Val((a,), ta, frozenset([('calc', which)]) if (v1.prov | v2.prov) - G.UNK - frozenset([('const',)]) else G.UNK)


def _scalarv(eng, a, st):
    """value of an argument bound by value or by const reference"""
    return eng.ev(a, st)


@model('std::min', 'std::max')
def m_minmax(eng, n, obj, args, st):
    v1, v2 = eng.ev(args[0], st), eng.ev(args[1], st)
    return minmaxval(eng, n['sn'], v1, v2)


def knownfn(sn, xs):
    """a function of known numbers"""
    import math
    try:
        v = [G.tofloat(x) for x in xs]
        if sn in ('isinf', 'signbit'):
            return C(int(math.isinf(v[0]))) if sn == 'isinf' else (C(1) if v[0] < 0 else C(0) if v[0] > 0 else None)
        if sn in ('floor', 'ceil', 'trunc', 'rint', 'round', 'lround', 'llround'):
            if v[0] != v[0] or math.isinf(v[0]):
                return xs[0] if sn[0] != 'l' else None
            x = int({'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc, 'rint': round}.get(
                sn, lambda z: math.floor(abs(z) + 0.5) * (1 if z >= 0 else -1))(v[0]))
            return C(x)
        if sn in ('fmin', 'fmax'):
            w = [x for x in v if x == x]
            return G.fromfloat((min if sn == 'fmin' else max)(w)) if w else G.NAN
        if sn in ('sin', 'cos', 'tan', 'acos', 'asin', 'atan', 'atan2', 'exp', 'fmod', 'log', 'log10', 'sqrt', 'pow', 'fabs', 'hypot'):
            if any(x != x for x in v):
                return G.NAN
            return G.fromfloat(getattr(math, sn)(*v))
    except (ValueError, OverflowError, ZeroDivisionError):
        return None
    return None


def _fn(eng, n, obj, args, st):
    vs = [eng.ev(a, st) for a in args]
    ta = G.E0
    for v in vs:
        ta |= v.taint
    ps = [v.poly() for v in vs]
    prov = eng.calcprov(n, *vs)
    isint = eng.is_int_t(n.get('t', ''))
    if eng.opts.get('ieee') and vs and all(len(v.alts) == 1 and (isinstance(v.alts[0], str) or v.alts[0].is_const()) for v in vs):
        r = knownfn(n['sn'].split('::')[-1], [v.alts[0] for v in vs])
        if r is not None:
            return G.Val((r,), ta, prov)
    if all(p is not None for p in ps):
        return G.Val((A(('fn', n['sn']) + tuple(ps), isint),), ta, prov)
    return eng.fresh('fn', n, isint, ta, prov)


for _f in ('ceil', 'cos', 'sin', 'tan', 'acos', 'asin', 'atan', 'atan2', 'exp', 'fmod', 'ldexp', 'log', 'log10', 'log2', 'sqrt',
           'floor', 'pow', 'round', 'trunc', 'rint', 'fabs', 'abs', 'cbrt', 'hypot', 'sinh', 'cosh', 'tanh', 'expm1', 'log1p',
           'lround', 'llround', 'copysign', 'fmin', 'fmax', 'exp2', 'norm', 'labs', 'isnan', 'isinf', 'signbit'):
    TABLE[_f] = _fn
    TABLE['std::' + _f] = _fn


@model('abs', 'std::abs', 'fabs', 'std::fabs', 'labs')
def m_abs(eng, n, obj, args, st):
    if eng.is_class(args[0].get('t', '')):
        ls = eng.evo(args[0], st)
        return eng.fresh('abs', n, False, eng.otaint(st, ls[0]) if ls else G.E0)
    v = eng.ev(args[0], st)
    out = []
    for a in v.alts:
        if isinstance(a, str):
            out.append(a if a == G.NAN else G.PINF)
        elif a.is_const():
            out.append(C(abs(a.const())))
        else:
            out.append(A(('fn', 'abs', a), a.isint()))
            i = out[-1].single_atom()
            P.AFACTS.setdefault(i, [(out[-1].scale(-1), '<='), (a.sub(out[-1]), '<='), (a.scale(-1).sub(out[-1]), '<=')])
    return v.with_(alts=tuple(out), cond=None, prov=eng.calcprov(n, v))


@model('std::isfinite', 'isfinite', '__builtin_isfinite', 'finite')
def m_isfinite(eng, n, obj, args, st):
    v = eng.ev(args[0], st)
    res = set()
    for a in v.alts:
        if isinstance(a, str):
            res.add(False)
        elif eng.finite(a):
            res.add(True)
        else:
            res.add(None)
    if len(res) == 1 and None not in res:
        return eng.boolval(('k', res.pop()), v.taint, st)
    return G.Val((A(('bool', ('isfinite', tuple(v.alts))), True),), v.taint, frozenset([('cond',)]), cond=('u',))


@model('std::isnan', 'isnan', '__builtin_isnan')
def m_isnan(eng, n, obj, args, st):
    v = eng.ev(args[0], st)
    res = set()
    for a in v.alts:
        res.add(True if a == G.NAN else (False if isinstance(a, str) or eng.nanfree(a) else None))
    if len(res) == 1 and None not in res:
        return eng.boolval(('k', res.pop()), v.taint, st)
    return G.Val((A(('bool', ('isnan', tuple(v.alts))), True),), v.taint, frozenset([('cond',)]), cond=('u',))


@model('std::swap')
def m_swap(eng, n, obj, args, st):
    if eng.is_class(args[0].get('t', '')):
        ck = eng.ckind(args[0]['t'])
        a = eng.evo(args[0], st)
        if ck:
            r = vec_method(eng, a, ck, args[0]['t'], 'swap', [args[1]], n, st, 'val')
            if r is not NotImplemented:
                return G.K(0)
        b = eng.evo(args[1], st)
        for l in a + b:
            eng.havoc(st, l, n)
        return G.K(0)
    a, b = eng.lvs(args[0], st), eng.lvs(args[1], st)
    va, vb = eng.rd(a, args[0], st), eng.rd(b, args[1], st)
    eng.wr(a, vb, n, st)
    eng.wr(b, va, n, st)
    return G.K(0)


def arrmix(eng, l, st, n, extra=None):
    """elements of an array may have changed places"""
    if not G.has_elem(l.path):
        return
    j = extra
    for p in eng.expand(l.path):
        for rel, v in eng.under(st, G.LV(l.base, p)):
            if v.prov == G.UNINIT:
                continue
            j = v if j is None else eng.joinv(j, v, ('sum', l.base, l.path))
        d = st.default(l.base, p)
        if d is not None and d.prov != G.UNINIT:
            j = d if j is None else eng.joinv(j, d, ('sum', l.base, l.path))
    if j is not None:
        eng.wr_weak_all(l, j.with_(cond=None), n, st)


@model('std::sort', 'std::stable_sort', 'std::reverse', 'std::random_shuffle', 'std::shuffle', 'std::iter_swap')
def m_sort(eng, n, obj, args, st):
    vs = []
    for a in args:
        if eng.is_class(a.get('t', '')):
            vs.append(eng.evo(a, st))
        else:
            vs.append(list(eng.ev(a, st).ptrs))
    for l in vs[0] if vs else []:
        if l.base[0] == 'LAM':
            continue
        if any(k[:1] and k[0][0] != '[' for k, v in eng.under(st, l)):
            continue          # whole structs keep together
        arrmix(eng, l, st, n)
    return G.K(0)


def _ptrsof(eng, a, st):
    if eng.is_class(a.get('t', '')):
        ls = eng.evo(a, st)
        out = []
        for l in ls:
            v = st.get(l.base, l.path)
            und = eng.under(st, l)
            for k, w in und:
                out += list(w.ptrs)
        return out
    return list(eng.ev(a, st).ptrs)


@model('std::copy', 'std::copy_n')
def m_copy(eng, n, obj, args, st):
    src = _ptrsof(eng, args[0], st)
    cnt = eng.ev(args[1], st) if not eng.is_class(args[1].get('t', '')) else G.K(0)
    dst = _ptrsof(eng, args[2], st)
    for d in dst:
        for s in src:
            array_copy(eng, s, d, None, n, st)
    return G.Val((A(('copy', id(n))),), ptrs=tuple(dst))


@model('std::fill', 'std::fill_n')
def m_fill(eng, n, obj, args, st):
    dst = _ptrsof(eng, args[0], st)
    e = None
    if not eng.is_class(args[1].get('t', '')):
        e = eng.ev(args[1], st)
    v = elval(eng, args[2], None, st)
    for d in dst:
        if not G.has_elem(d.path):
            eng.wr([d], v, n, st)
            continue
        whole = False
        if n['sn'] == 'fill' and e is not None and len(dst) == 1 and d.idx and d.idx[-1] == ZERO and len(e.ptrs) == 1:
            q = e.ptrs[0]
            c = eng.cell(st, d.base, d.path[:-1] + ('#n',), None, True)
            whole = q.base == d.base and q.path == d.path and q.idx[-1] == c.poly()
        elif n['sn'] == 'fill_n' and e is not None and len(dst) == 1 and d.idx and d.idx[-1] == ZERO:
            c = eng.cell(st, d.base, d.path[:-1] + ('#n',), None, True)
            whole = c.poly() is not None and e.poly() == c.poly()
        if whole and len(d.idx) == 1:
            eng.access('w', d, n, st, True)
            eng.clear(st, d, v.with_(cond=None))
        else:
            eng.wr_weak_all(d, v, n, st)
    return G.K(0)


def array_copy(eng, s, d, cnt, n, st):
    """copy elements from s.. to d..; cnt: number of elements (Poly) or None"""
    eng.access('r', s, n, st, True)
    if not G.has_elem(d.path):
        if not G.has_elem(s.path):
            eng.copy_obj(s, d, n, st)
        else:
            eng.wr([d], eng.rd([s], n, st, 'double'), n, st)
        return
    if not G.has_elem(s.path):
        v = eng.rd([s], n, st, 'double')
        eng.wr_weak_all(d, v, n, st)
        return
    five_s, five_d = '[5]' in s.path, '[5]' in d.path
    rs = rd_ = None
    if five_s and five_d:
        rs = resid(eng, s.idx[-1])
        rd_ = resid(eng, d.idx[-1])
    if rs is not None and rd_ is not None:
        i, j = s.path.index('[5]'), d.path.index('[5]')
        nn = 5
        if cnt is not None and cnt.is_const() and cnt.const() < 5:
            nn = int(cnt.const())
        vals = []
        for k in range(nn):
            sp = s.path[:i] + (G.RES[(rs + k) % 5],) + s.path[i + 1:]
            sl = G.LV(s.base, sp, s.idx[:-1] + (s.idx[-1].add(C(k)),))
            vals.append(eng.rd([sl], n, st, 'double'))
        for k in range(nn):
            dp = d.path[:j] + (G.RES[(rd_ + k) % 5],) + d.path[j + 1:]
            dl = G.LV(d.base, dp, d.idx[:-1] + (d.idx[-1].add(C(k)),))
            if cnt is not None and cnt.is_const() and cnt.const() <= 5:
                eng.wr([dl], vals[k], n, st)
            else:
                v = vals[k]
                eng.wr_weak_all(G.LV(dl.base, dl.path, dl.idx), v, n, st)
        return
    j = None
    for p in eng.expand(s.path):
        v = eng.rd([G.LV(s.base, p, s.idx)], n, st, 'double')
        j = v if j is None else eng.joinv(j, v, ('sum', d.base, d.path))
    if (five_s or five_d) and j is not None:
        j = j.with_(prov=j.prov | frozenset([('mixed', eng.where(n))])) if len(j.prov) > 1 else j
    if cnt is not None and cnt.is_const() and cnt.const() == 1:
        eng.wr([d], j, n, st)
    else:
        eng.wr_weak_all(d, j.with_(cond=None), n, st)


def resid(eng, ix):
    if not isinstance(ix, Poly):
        return None
    r = residue(ix)
    return r if r is not None else eng.modof(ix)


@model('memcpy', 'std::memcpy', 'memmove', 'std::memmove', '__builtin_memcpy')
def m_memcpy(eng, n, obj, args, st):
    d = eng.ev(args[0], st)
    s = eng.ev(args[1], st)
    b = eng.ev(args[2], st)
    sz = 8
    a = args[0]
    while a.get('k') == 'cast':
        a = a['c'][0]
    et = G.unref(a.get('t', ''))
    if et.endswith('*'):
        sz = G.SIZEOF.get(G.unref(et[:-1]), 8)
    p = b.poly()
    cnt = None
    if p is not None and all(isinstance(c, int) and c % sz == 0 for c in p.t.values()):
        cnt = Poly({m: c // sz for m, c in p.t.items()})
    for dl in d.ptrs:
        for sl in s.ptrs:
            array_copy(eng, sl, dl, cnt, n, st)
    return d


@model('memset', 'std::memset', 'bzero')
def m_memset(eng, n, obj, args, st):
    d = eng.ev(args[0], st)
    for a in args[1:]:
        eng.ev(a, st)
    for l in d.ptrs:
        if G.has_elem(l.path):
            eng.wr_weak_all(l, G.K(0, G.INIT0), n, st)
        else:
            eng.clear(st, l, G.K(0, G.INIT0))
    return d


@model('std::make_pair')
def m_make_pair(eng, n, obj, args, st):
    b = ('T', id(n), eng.frame.ctx)
    eng.frame.bases.append(b)
    st.m[b] = {}
    st.own.add(b)
    for f, a in zip(('first', 'second'), args):
        if eng.is_class(a.get('t', '')):
            for s in eng.evo(a, st)[:1]:
                eng.copy_obj(s, G.LV(b).f(f), n, st)
        else:
            st.put(b, (f,), eng.ev(a, st).with_(cond=None))
    return [G.LV(b)]


# ---- memory -------------------------------------------------------------------
def _heap(eng, n, st, size=None):
    b = ('H', id(n), eng.frame.ctx)
    st.m[b] = {}
    st.own.add(b)
    st.put(b, ('#n',), size if size is not None else eng.fresh('hs', n, True))
    return G.Val((A(('mem', id(n), eng.frame.ctx)),), ptrs=(G.LV(b, ('[]',), (ZERO,)),))


@model('_mm_malloc', 'malloc', 'calloc', 'std::malloc', 'util_malloc_', 'aligned_alloc')
def m_malloc(eng, n, obj, args, st):
    for a in args:
        eng.ev(a, st)
    return _heap(eng, n, st)


@model('posix_memalign')
def m_memalign(eng, n, obj, args, st):
    d = eng.ev(args[0], st)
    for a in args[1:]:
        eng.ev(a, st)
    v = _heap(eng, n, st)
    for l in d.ptrs:
        eng.wr([l], v, n, st)
    return G.K(0)


@model('free', '_mm_free', 'util_free_', 'std::free')
def m_free(eng, n, obj, args, st):
    for a in args:
        eng.ev(a, st)
    return G.K(0)


@model('exit', 'abort', 'std::exit', 'std::abort', '_exit', 'std::terminate', 'util_fail_')
def m_exit(eng, n, obj, args, st):
    for a in args:
        if not eng.is_class(a.get('t', '')):
            eng.ev(a, st)
    raise G.Dead()


@model('fprintf', 'printf', 'fflush', 'fputs', 'puts', 'perror', 'putc', 'fputc')
def m_print(eng, n, obj, args, st):
    for a in args:
        if not eng.is_class(a.get('t', '')):
            eng.ev(a, st)
    return eng.fresh('pr', n, True)


# ---- OpenMP -------------------------------------------------------------------
@model('omp_get_thread_num')
def m_tid(eng, n, obj, args, st):
    a = A(('omp', 'thread'), True)
    P.AFACTS.setdefault(a.single_atom(), [(a.scale(-1), '<=')])
    return G.Val((a,), frozenset(['thread']), G.UNK)


@model('omp_get_num_threads', 'omp_get_max_threads', 'omp_get_num_procs', 'omp_in_parallel', 'omp_get_thread_limit')
def m_nthr(eng, n, obj, args, st):
    a = A(('omp', n['sn']), True)
    P.AFACTS.setdefault(a.single_atom(), [norm_fact(C(1).sub(a), '<=')])
    return G.Val((a,), frozenset(['thread']), G.UNK)


def _time(eng, n, obj, args, st):
    for a in args:
        if not eng.is_class(a.get('t', '')):
            v = eng.ev(a, st)
            for l in v.ptrs:
                if l.base[0] not in ('STR', 'LAM'):
                    eng.havoc(st, l, n, frozenset(['time']))
    return eng.fresh('time', n, eng.is_int_t(n.get('t', '')), frozenset(['time']))


for _f in ('MPI_Wtime', 'PMPI_Wtime', 'gettimeofday', 'clock', 'time', 'omp_get_wtime', 'clock_gettime', 'rand', 'random', 'srand',
           'drand48', 'getpid', 'rand_r', 'std::rand', 'std::clock', 'std::time', 'times', 'getrusage',
           'std::chrono::system_clock::now', 'std::chrono::steady_clock::now', 'std::chrono::_V2::system_clock::now',
           'std::chrono::_V2::steady_clock::now', 'sched_getcpu', 'getenv', 'std::getenv'):
    TABLE[_f] = _time


# ---- MPI ----------------------------------------------------------------------
UNIFORM = frozenset(['rank'])


def _args(eng, args, st):
    return [eng.ev(a, st) if not eng.is_class(a.get('t', '')) else G.Val((A(('o', id(a))),), ptrs=tuple(eng.evo(a, st))) for a in args]


def dtname(v, a=None):
    """name of an MPI datatype argument"""
    for l in v.ptrs:
        if l.base[0] == 'G':
            return l.base[1]
    return None


def dtint(nm):
    if not nm:
        return None
    return not any(x in nm for x in ('double', 'float'))


def bufwrite(eng, p, v, n, st, whole=True, count=None):
    """a message has arrived in a buffer; returns False when it certainly leaves part of it out"""
    res = True
    for l in p.ptrs:
        if G.has_elem(l.path):
            eng.access('w', l, n, st, True)
            pre = eng.elem_prefix(l.path)
            cov = covers(eng, l, pre, count, st) if count is not None else whole
            if cov is False:
                res = False
            if any(x[0] == '[' for x in pre[:-1]):
                cov = False
            for q in eng.expand(pre):
                st2 = G.LV(l.base, q)
                if cov is not False:
                    eng.clear(st, st2, v)
                else:
                    eng.wr_weak_all(st2, v, n, st)
        else:
            eng.access('w', l, n, st)
            st.put(l.base, l.path, v)
    return res


def fieldcount(eng, l, pre, st):
    """number of message elements per array element"""
    rel = l.path[len(pre):]
    if not rel:
        return 1
    return 2 if rel[-1] in ('re', 'im') else None


def leaves(p, n=0):
    """the values a joined value can have"""
    out = [p]
    for a in sorted(p.atoms()):
        x = P.PHI.get(a)
        if x and n < 4:
            out = []
            for q in (x[1], x[2]):
                s = P.subst(p, {a: q})
                if s is not None:
                    out += leaves(s, n + 1)
            return out
    return out


OPAQUE = ('ar', 'ui', 'lp', 'sum', 'rd', 'opq', 'oth', 'K', 'phix', 'el', 'mo', 'wk', 'hvd', 'co')


def known(p):
    """all atoms stand for program inputs"""
    for a in p.atoms():
        nm = P.NAMES[a]
        if isinstance(nm, tuple) and nm and nm[0] in OPAQUE:
            return False
    return True


def covers(eng, l, pre, count, st):
    """does a message of count elements starting at l fill the whole array?  None: unknown"""
    ix = l.idx
    for x in ix:
        if not isinstance(x, Poly):
            return None
        if x.is_const() and x.const() != 0:
            return False
        if not x.is_const():
            return None
    if l.path[len(pre):] and l.path[-1] == 'im':
        return False
    fc = fieldcount(eng, l, pre, st)
    c = count.poly()
    d = st.m.get(l.base) or {}
    size = None
    par = pre[:-1]
    if d.get(par + ('#n',)) is not None:
        size = d[par + ('#n',)].poly()
    elif d.get(par + ('#n1',)) is not None:
        size = ONE
        k = 1
        while size is not None and d.get(par + ('#n%d' % k,)) is not None:
            q = d[par + ('#n%d' % k,)].poly()
            size = size.mul(q) if q is not None else None
            k += 1
    if fc is None or c is None or size is None:
        return None
    diff = c.sub(size.scale(fc))
    if P.entails_split(st.facts, (diff, '==')):
        return True
    ls = leaves(diff)
    if all(known(q) and q != ZERO for q in ls):
        return False
    return None


def buftaint(eng, p, st):
    t = G.E0
    for l in p.ptrs:
        for q in eng.expand_lv(l):
            v = eng.cell(st, l.base, q) if not G.has_elem(q) or q[-1] in G.RES or q[-1] == '[]' else None
            if v is not None:
                t |= v.taint
        t |= eng.otaint(st, l)
    return t


def coll(eng, n, st, name, comm, **kw):
    kw['name'] = name
    kw['comm'] = comm
    e = eng.ev_add('coll', n, st, **kw)
    h = eng.hooks.get('coll')
    if h:
        h(eng, n, st, e)
    return e


def ret(eng, n):
    return G.Val((A(('mpierr', n['sn'], id(n), eng.frame.ctx), True),), G.E0, G.UNK)


@model('MPI_Comm_rank')
def m_rank(eng, n, obj, args, st):
    c, p = _args(eng, args, st)
    a = A(('mpi', 'rank', commkey(c)), True)
    P.AFACTS.setdefault(a.single_atom(), [(a.scale(-1), '<=')])
    bufwrite(eng, p, G.Val((a,), frozenset(['rank']), G.UNK), n, st)
    return ret(eng, n)


def commkey(c):
    if c.ptrs:
        return tuple(sorted((str(l) for l in c.ptrs)))
    return c.poly()


@model('MPI_Comm_size')
def m_size(eng, n, obj, args, st):
    c, p = _args(eng, args, st)
    a = A(('mpi', 'size', commkey(c)), True)
    P.AFACTS.setdefault(a.single_atom(), [norm_fact(C(1).sub(a), '<=')])
    bufwrite(eng, p, G.Val((a,), G.E0, G.UNK), n, st)
    return ret(eng, n)


@model('MPI_Initialized', 'MPI_Finalized')
def m_inited(eng, n, obj, args, st):
    p, = _args(eng, args, st)
    bufwrite(eng, p, eng.fresh('mpinit', n, True), n, st)
    return ret(eng, n)


@model('MPI_Init', 'MPI_Init_thread', 'MPI_Finalize', 'MPI_Comm_set_errhandler', 'MPI_Errhandler_set', 'MPI_Type_size',
       'MPI_Comm_get_attr', 'MPI_Error_string', 'MPI_Query_thread', 'MPI_Get_processor_name', 'MPI_Error_class')
def m_mpimisc(eng, n, obj, args, st):
    vs = _args(eng, args, st)
    return ret(eng, n)


@model('MPI_Abort')
def m_abort(eng, n, obj, args, st):
    _args(eng, args, st)
    raise G.Dead()


@model('MPI_Barrier')
def m_barrier(eng, n, obj, args, st):
    c, = _args(eng, args, st)
    coll(eng, n, st, 'Barrier', c)
    return ret(eng, n)


@model('MPI_Bcast')
def m_bcast(eng, n, obj, args, st):
    buf, cnt, dt, root, comm = _args(eng, args, st)
    e = coll(eng, n, st, 'Bcast', comm, root=root, count=cnt, dt=dtname(dt), buf=buf, bufs=list(buf.ptrs))
    t = buftaint(eng, buf, st) - UNIFORM
    isint = dtint(dtname(dt))
    for l in buf.ptrs:
        one = G.Val((A(('bc', id(n), eng.frame.ctx, l.base, l.path), bool(isint)),), t, G.UNK)
        # a value that is the same everywhere is left as it is
        if not G.has_elem(l.path):
            old = eng.cell(st, l.base, l.path, None, isint)
            if ('reduced',) in old.prov:
                st.put(l.base, l.path, old.with_(taint=old.taint - UNIFORM))
                continue
            if 'rank' not in old.taint and old.poly() is not None and old.prov != G.UNINIT:
                eng.access('w', l, n, st)
                continue
        if not bufwrite(eng, buf.with_(ptrs=(l,)), one, n, st, True, cnt):
            e['partial'] = True
    return ret(eng, n)


def _reduce(eng, n, st, name, send, recv, cnt, dt, op, comm, root=None, rank=False):
    coll(eng, n, st, name, comm, root=root, count=cnt, dt=dtname(dt), op=op, buf=send, bufs=list(recv.ptrs), send=list(send.ptrs))
    t = buftaint(eng, send, st)
    t = t - UNIFORM if not rank else t | UNIFORM
    isint = dtint(dtname(dt))
    v = G.Val((A((name, id(n), eng.frame.ctx), bool(isint)),), t, G.UNK)
    h = eng.hooks.get('reduce')
    if h:
        sv = None
        if len(send.ptrs) == 1 and not G.has_elem(send.ptrs[0].path):
            sv = eng.cell(st, send.ptrs[0].base, send.ptrs[0].path, None, isint)
        v = h(eng, n, st, name, sv, op, v) or v
    bufwrite(eng, recv, v, n, st)
    return ret(eng, n)


@model('MPI_Allreduce')
def m_allreduce(eng, n, obj, args, st):
    s, r, c, dt, op, comm = _args(eng, args, st)
    if not s.ptrs:
        s = r                                   # MPI_IN_PLACE
    return _reduce(eng, n, st, 'Allreduce', s, r, c, dt, op, comm)


@model('MPI_Reduce')
def m_reduce(eng, n, obj, args, st):
    s, r, c, dt, op, root, comm = _args(eng, args, st)
    if not s.ptrs:
        s = r
    return _reduce(eng, n, st, 'Reduce', s, r, c, dt, op, comm, root, True)


@model('MPI_Scan', 'MPI_Exscan')
def m_scan(eng, n, obj, args, st):
    s, r, c, dt, op, comm = _args(eng, args, st)
    if not s.ptrs:
        s = r
    return _reduce(eng, n, st, n['sn'][4:], s, r, c, dt, op, comm, None, True)


def _exchange(eng, n, st, name, send, recv, comm, dt, rdt, counts, root=None, after=None):
    coll(eng, n, st, name, comm, root=root, dt=dtname(dt), rdt=dtname(rdt), counts=counts, buf=send, bufs=list(recv.ptrs),
         send=list(send.ptrs))
    t = buftaint(eng, send, st)
    t = t | UNIFORM if name in ('Alltoall', 'Alltoallv', 'Gather', 'Gatherv', 'Scatter', 'Scatterv') else t - UNIFORM
    isint = bool(dtint(dtname(rdt)))
    # multiples of five stay multiples of five
    md = None
    if send.ptrs:
        for l in send.ptrs:
            for q in eng.expand_lv(l):
                v = eng.cell(st, l.base, q, None, isint)
                m = eng.vmod(v)
                md = m if md is None or md == m else 'x'
    a = A((name, id(n), eng.frame.ctx), isint)
    v = G.Val((a,), t, G.UNK)
    if isint and isinstance(md, int):
        v.mod = md
        eng.MODS[a.single_atom()] = md
    if after:
        return after(v)
    bufwrite(eng, recv, v, n, st)
    return ret(eng, n)


@model('MPI_Alltoall', 'MPI_Allgather')
def m_alltoall(eng, n, obj, args, st):
    s, c, dt, r, rc, rdt, comm = _args(eng, args, st)
    if not s.ptrs:
        s = r
    return _exchange(eng, n, st, n['sn'][4:], s, r, comm, dt, rdt, [c, rc])


@model('MPI_Gather', 'MPI_Scatter')
def m_gather(eng, n, obj, args, st):
    s, c, dt, r, rc, rdt, root, comm = _args(eng, args, st)
    return _exchange(eng, n, st, n['sn'][4:], s, r, comm, dt, rdt, [c, rc], root)


@model('MPI_Allgatherv')
def m_allgatherv(eng, n, obj, args, st):
    s, c, dt, r, rc, rd, rdt, comm = _args(eng, args, st)
    return _exchange(eng, n, st, 'Allgatherv', s, r, comm, dt, rdt, [c, rc])


@model('MPI_Gatherv')
def m_gatherv(eng, n, obj, args, st):
    s, c, dt, r, rc, rd, rdt, root, comm = _args(eng, args, st)
    return _exchange(eng, n, st, 'Gatherv', s, r, comm, dt, rdt, [c, rc], root)


@model('MPI_Alltoallv')
def m_alltoallv(eng, n, obj, args, st):
    s, sc, sd, dt, r, rc, rd, rdt, comm = _args(eng, args, st)
    coll(eng, n, st, 'Alltoallv', comm, dt=dtname(dt), rdt=dtname(rdt), buf=s, bufs=list(r.ptrs), send=list(s.ptrs),
         counts=[sc, rc])
    eng.access_all = None
    ok = True
    for v in (sc, sd, rc, rd):
        for l in v.ptrs:
            for q in eng.expand_lv(l):
                if eng.vmod(eng.cell(st, l.base, q, None, True)) != 0:
                    ok = False
        if not v.ptrs:
            ok = False
    t = buftaint(eng, s, st) | UNIFORM
    isint = bool(dtint(dtname(rdt)))
    for dl in r.ptrs:
        for sl in s.ptrs:
            eng.access('r', sl, n, st, True)
            eng.access('w', dl, n, st, True)
            if ok and '[5]' in dl.path and '[5]' in sl.path and sl.idx[-1] == ZERO and dl.idx[-1] == ZERO:
                i, j = sl.path.index('[5]'), dl.path.index('[5]')
                fresh = []
                for k in range(5):
                    sp = sl.path[:i] + (G.RES[k],) + sl.path[i + 1:]
                    dp = dl.path[:j] + (G.RES[k],) + dl.path[j + 1:]
                    v = eng.cell(st, sl.base, sp)
                    fresh.append((dp, v.with_(alts=(A(('a2a', id(n), eng.frame.ctx, dp)),) if v.const() is None else v.alts,
                                              taint=v.taint | UNIFORM, cond=None)))
                for dp, v in fresh:
                    old = eng.cell(st, dl.base, dp)
                    # the displacements cover the whole buffer
                    eng.clear(st, G.LV(dl.base, dp), v)
            else:
                j = None
                for q in eng.expand(sl.path):
                    v = eng.cell(st, sl.base, q)
                    j = v if j is None else eng.joinv(j, v, ('sum', dl.base, dl.path))
                pv = j.prov if j is not None else G.UNK
                if ('[5]' in dl.path or '[5]' in sl.path) and len(pv) > 1:
                    pv = pv | frozenset([('mixed', eng.where(n))])
                a = A(('a2a', id(n), eng.frame.ctx), isint)
                v = G.Val((a,), t, pv)
                if isint and j is not None and eng.vmod(j) is not None:
                    v.mod = eng.vmod(j)
                    eng.MODS[a.single_atom()] = v.mod
                bufwrite(eng, G.Val((ZERO,), ptrs=(dl,)), v, n, st)
    return ret(eng, n)


def _p2p(eng, n, obj, args, st):
    vs = _args(eng, args, st)
    eng.ev_add('p2p', n, st, name=n['sn'], args=vs)
    sn = n['sn']
    if sn in ('MPI_Recv', 'MPI_Irecv'):
        bufwrite(eng, vs[0], eng.fresh('recv', n, False, UNIFORM), n, st, False)
    elif sn == 'MPI_Sendrecv':
        bufwrite(eng, vs[5], eng.fresh('recv', n, False, UNIFORM), n, st, False)
    elif sn == 'MPI_Sendrecv_replace':
        bufwrite(eng, vs[0], eng.fresh('recv', n, False, UNIFORM), n, st, False)
    return ret(eng, n)


for _f in ('MPI_Send', 'MPI_Recv', 'MPI_Isend', 'MPI_Irecv', 'MPI_Sendrecv', 'MPI_Sendrecv_replace', 'MPI_Wait', 'MPI_Waitall',
           'MPI_Ssend', 'MPI_Probe', 'MPI_Iprobe'):
    TABLE[_f] = _p2p


def _commop(eng, n, obj, args, st):
    vs = _args(eng, args, st)
    coll(eng, n, st, n['sn'][4:], vs[0])
    if n['sn'] in ('MPI_Comm_dup', 'MPI_Comm_split', 'MPI_Comm_create'):
        bufwrite(eng, vs[-1], G.Val((A(('comm', id(n), eng.frame.ctx)),), ptrs=(G.LV(('O', ('comm', id(n)))),)), n, st)
    return ret(eng, n)


for _f in ('MPI_Comm_dup', 'MPI_Comm_split', 'MPI_Comm_create', 'MPI_Comm_free'):
    TABLE[_f] = _commop
