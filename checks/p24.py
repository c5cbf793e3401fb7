"""P24: arguments and results pass unaltered through the layers of the interface."""
import facts, capi
import engine as G
import poly as P
from poly import *
from scen import *
from capi import KIND
from pywrap import Wrapper
import pyint

CLS = {v: k for k, v in KIND.items()}
# C function -> (operation of the C++ object, which argument goes where, what becomes of the result)
# an argument is a position in the C call, 'b' marks a truth value, 's' a text, 'o' an object
OPS = {
    'conviqt_beam_read': ('read', ['1', '2', '3b', '4s', '5o'], None),
    'conviqt_beam_lmax': ('get_lmax', [], 'same'),
    'conviqt_beam_mmax': ('get_mmax', [], 'same'),
    'conviqt_beam_normalize': ('normalize', [], 'same'),
    'conviqt_beam_normalized': ('normalized', [], 'bool'),
    'conviqt_beam_Tdata': ('blmT', [], 'data'),
    'conviqt_beam_Gdata': ('blmG', [], 'data'),
    'conviqt_beam_Cdata': ('blmC', [], 'data'),
    'conviqt_sky_read': ('read', ['1', '2b', '3s', '4', '5o'], None),
    'conviqt_sky_lmax': ('get_lmax', [], 'same'),
    'conviqt_sky_remove_monopole': ('remove_monopole', [], None),
    'conviqt_sky_remove_dipole': ('remove_dipole', [], None),
    'conviqt_sky_Tdata': ('slmT', [], 'data'),
    'conviqt_sky_Gdata': ('slmG', [], 'data'),
    'conviqt_sky_Cdata': ('slmC', [], 'data'),
    'conviqt_detector_new_with_id': ('<ctor>', ['0s'], None),
    'conviqt_detector_set_epsilon': ('set_epsilon', ['1'], None),
    'conviqt_detector_get_epsilon': ('get_epsilon', [], 'out'),
    'conviqt_detector_set_id': ('set_id', ['1s'], None),
    'conviqt_detector_get_id': ('get_id', [], 'outs'),
    'conviqt_convolver_new': ('<ctor>', ['0o', '1o', '2o', '3b', '4', '5', '6', '7', '8o'], None),
    'conviqt_convolver_set_sky': ('set_sky', ['1o'], None),
    'conviqt_convolver_set_beam': ('set_beam', ['1o'], None),
    'conviqt_convolver_set_detector': ('set_detector', ['1o'], None),
    'conviqt_convolver_convolve': ('convolve', ['1o', '2b'], None),
}
QUERY = {'get_lmax', 'get_mmax', 'normalized', 'blmT', 'blmG', 'blmC', 'slmT', 'slmG', 'slmC', 'get_epsilon', 'get_id',
         'size', 'begin', 'end', 'operator[]', '<ctor>'}
LOGB = ('O', '#calls')


class Pass(Scen):
    """one C function with the operations of the C++ objects replaced by stand-ins"""

    def __init__(self, F, top):
        Scen.__init__(self, F, {'stub': self.stub})
        self.top = top
        self.log = {}
        self.returns = []

    def stub(self, eng, f, this, binds, n, st):
        cls = f.get('cls')
        if cls not in CLS or f.get('kind') == 'dtor':
            return None
        if f.get('kind') == 'ctor':
            if f.get('copy') or f.get('move') or not f.get('params'):
                return None
            op = '<ctor>'
        else:
            op = f['sn']
        vals = []
        for (d, b), p in zip(binds, f['params']):
            t = p['t']
            c = st.m.get(b) or {}
            if ('&',) in c:
                vals.append(('ref', c[('&',)].ptrs))
            elif eng.is_class(t):
                ta = E0
                for v in c.values():
                    ta |= v.taint
                vals.append(('text', ta))
            else:
                vals.append(('val', c.get(())))
        s = len(self.log)
        self.log[s] = (op, cls, this, vals, '%s' % eng.where(n), st.get(LOGB, (op, 'n')))
        old = st.get(LOGB, (op, 'n'))
        k = old.const() if old is not None else 0
        st.m.setdefault(LOGB, {})
        st.put(LOGB, (op, 'n'), K((k or 0) + 1) if old is None or k is not None else self.arith('+', old, K(1), 'int', n, st))
        if op == '<ctor>':
            return K(0)
        rt = f.get('rt', 'void')
        if G.isref(rt):
            return [LV(('O', ('part', op)))]
        if eng.is_class(rt):
            return Val((A(('text', op)),), frozenset([('result', op)]), ptrs=(LV(('O', ('text', op))),))
        if G.unref(rt) == 'bool':
            return K(self.truthval)
        return Val((A(('result', op), eng.is_int_t(rt)),), frozenset([('result', op)]))

    def s_return(self, n, st):
        o = Scen.s_return(self, n, st)
        if self.frame.func is self.top and o.r is not None:
            v = (o.r.m.get(('R', self.frame.ctx)) or {}).get(())
            self.returns.append((v, o.r.copy(), self.where(n)))
        return o


def failure(v, f):
    """'yes', 'no' or 'maybe' a failure value"""
    if v is None:
        return 'maybe'
    if f['rt'].endswith('*'):
        z = [p.const() == 0 if isinstance(p, Poly) and p.is_const() else False for p in v.alts]
        if v.ptrs:
            return 'maybe' if v.null or any(z) else 'no'
        return 'yes' if v.null or (z and all(z)) else 'maybe'
    c = [p.const() if isinstance(p, Poly) and p.is_const() else None for p in v.alts]
    if all(x == -1 for x in c):
        return 'yes'
    return 'maybe' if any(x == -1 for x in c) else 'no'


def cargs(S, f, name, truth):
    out = []
    kinds = capi.arg_kinds(name)
    for i, p in enumerate(f['params']):
        t = G.unref(p['t'])
        if 'MPI_Comm' in t or 'ompi_communicator_t' in t:
            out.append(comm('arg%d' % i))
        elif i in kinds:
            out.append(Val((A(('obj', i)),), ptrs=(LV(('O', ('obj', i))),)))
        elif t in ('char', 'signed char', 'unsigned char', 'bool'):
            out.append(K(truth))
        elif t.endswith('*'):
            out.append(Val((A(('ptr', i)),), frozenset([('arg', i)]), ptrs=(LV(('O', ('ptr', i))),)))
        else:
            out.append(Val((A(('arg', i), S.is_int_t(t)),), frozenset([('arg', i)])))
    return out


def describe(v):
    return 'nothing' if v is None else '/'.join(str(a) for a in v.alts)


def onefn(r, F, name, f, truth):
    op, want, result = OPS[name]
    S = Pass(F, f)
    S.truthval = truth
    args = cargs(S, f, name, truth)
    st = State()
    st.m[LOGB] = {(op, 'n'): K(0)}
    ok, res, thr, types = S.invoke(f, None, args, st)
    where = '%s:%s' % (f['f'], f.get('l'))
    r.count('C functions run')
    calls = [c for c in S.log.values() if c[0] == op]
    target = [c for c in calls if op == '<ctor>' and c[1] == KIND[capi.kind_of(name)] or
              op != '<ctor>' and c[2] is not None and c[2].base == ('O', ('obj', 0))]
    for c in S.log.values():
        if c[0] not in QUERY and c[0] != op:
            r.violation('other-operation', c[4], f['fn'], 'the operation %s is performed on top of %s' % (c[0], op), key='%s:%s' % (name, c[0]))
    for c in calls:
        if c in target:
            continue
        if op == '<ctor>' or c[2] is None or c[2].base[0] != 'O' or c[2].base[1][0] != 'obj':
            continue
        r.violation('object', c[4], f['fn'], '%s is applied to argument %d instead of the object itself' % (op, c[2].base[1][1] + 1), key=name)
    if not target:
        if not S.returns or all(failure(v, f) == 'yes' for v, s, w in S.returns):
            r.note('%s: no successful return seen' % name)
        elif S.stats['opaque'].get('?'):
            r.note('%s: an unknown function is called' % name)
        else:
            r.violation('operation', where, f['fn'], 'reports success without performing %s on the object it was given' % op, key=name)
        return
    r.count('operations matched')
    # every successful return comes after it, and after just one
    for v, s, w in S.returns:
        k = s.get(LOGB, (op, 'n')) if LOGB in s.m else None
        fl = failure(v, f)
        if fl == 'yes':
            continue
        r.count('returns looked at')
        if op in QUERY and op != '<ctor>':
            continue
        if k is not None and any(p.is_const() and p.const() == 0 or not p.is_const() and zero(p) for p in k.alts) and fl == 'no':
            r.violation('operation', w, f['fn'], 'reports success on a path on which %s was not performed' % op, key=name + ':path')
        elif k is not None and k.const() is not None and k.const() > 1:
            r.violation('operation', w, f['fn'], '%s is performed %d times' % (op, k.const()), key=name + ':times')
    for c in target:
        for i, spec in enumerate(want):
            pos = int(spec.rstrip('bso'))
            kind = spec[len(str(pos)):]
            what = 'argument %d of %s' % (pos + 1, name)
            if i >= len(c[3]):
                r.violation('argument', c[4], f['fn'], '%s is not passed on to %s' % (what, op), key='%s:%d' % (name, pos))
                continue
            vk, v = c[3][i]
            r.count('arguments followed')
            bad = None
            if kind == 's':
                tags = [t for t in (v if vk == 'text' else v.taint if v is not None and vk == 'val' else ()) if isinstance(t, tuple) and t[0] in ('arg', 'result')]
                if tags and ('arg', pos) not in tags:
                    bad = 'another text'
                elif vk == 'text' and not tags:
                    bad = 'a text that has nothing to do with it'
            elif kind == 'o':
                ptrs = v if vk == 'ref' else v.ptrs if v is not None and vk == 'val' else ()
                base = args[pos].ptrs[0].base
                if any(l.base != base for l in ptrs):
                    bad = 'another object'
                elif vk == 'val' and v is not None and not ptrs and (v.null or v.const() == 0):
                    bad = 'a null pointer'
            elif vk == 'val' and v is not None:
                if kind == 'b':
                    x = v.const()
                    if x is not None and bool(x) != bool(truth):
                        bad = 'the value %s for %s' % (bool(x), bool(truth))
                    elif x is None:
                        r.note('%s: truth value not followed' % what)
                else:
                    me = args[pos].alts[0]
                    if any(p != me for p in v.alts):
                        al = [p for p in v.alts if p != me]
                        if all(known(p) for p in al):
                            bad = 'the value ' + describe(v)
                        else:
                            r.note('%s: %s passed to %s' % (what, describe(v), op))
            if bad:
                r.violation('argument', c[4], f['fn'], 'where %s belongs %s receives %s' % (what, op, bad), key='%s:%d' % (name, pos))
    # results
    if result is None:
        return
    for v, s, w in S.returns:
        fl = failure(v, f)
        if fl == 'yes':
            continue
        r.count('results followed')
        if result == 'same':
            me = A(('result', op), True), A(('result', op), False)
            me = set(me) | {Q for Q in ()}
            bad = [p for p in v.alts if p not in me and not (p.is_const() and p.const() == -1)]
            if bad and all(known(p) for p in bad):
                r.violation('result', w, f['fn'], 'returns %s instead of what %s reports' % (describe(v), op), key=name)
            elif bad:
                r.note('%s: result %s not followed' % (name, describe(v)))
        elif result == 'bool':
            x = v.const()
            if x is not None and bool(x) != bool(truth):
                r.violation('result', w, f['fn'], 'returns %s where %s is %s' % (x, op, bool(truth)), key=name)
        elif result == 'data':
            for l in v.ptrs:
                if l.base[0] == 'O' and l.base[1][0] == 'part' and l.base[1][1] != op:
                    r.violation('result', w, f['fn'], 'hands out %s instead of %s' % (l.base[1][1], op), key=name)
                elif l.base == ('O', ('part', op)) and l.idx and l.idx[0] != ZERO and l.idx[0].is_const():
                    r.violation('result', w, f['fn'], 'hands out %s from element %s on' % (op, l.idx[0]), key=name)
        elif result == 'out':
            got = s.get(('O', ('ptr', 1)), ()) if ('O', ('ptr', 1)) in s.m else None
            if got is None:
                r.violation('result', w, f['fn'], 'reports success without storing the result of %s' % op, key=name)
            else:
                bad = [p for p in got.alts if p not in (A(('result', op), False), A(('result', op), True))]
                if bad and all(known(p) for p in bad):
                    r.violation('result', w, f['fn'], 'stores %s instead of what %s reports' % (describe(got), op), key=name)


def zero(p):
    a = p.single_atom() if isinstance(p, Poly) else None
    return a is not None and a in P.PHI and any(isinstance(x, Poly) and (x.is_const() and x.const() == 0 or zero(x)) for x in P.PHI[a][1:])


def known(p, names=('arg', 'result', 'ptr', 'obj'), d=0):
    """an expression in arguments, results and numbers only"""
    if not isinstance(p, Poly) or d > 20:
        return False
    for a in p.atoms():
        if a in P.PHI:
            if all(known(x, names, d + 1) for x in P.PHI[a][1:]):
                continue
            return False
        nm = P.NAMES[a]
        if not (isinstance(nm, tuple) and nm[0] in names):
            return False
    return True


# ---- the Python layer --------------------------------------------------------------------------------
# C function -> the argument of the Python method that belongs in each place after the handle ('*N': N times it)
PY = {
    ('Beam', '__init__', 'conviqt_beam_read'): [None, 'lmax', 'mmax', 'pol', 'beamfile', 'comm'],
    ('Sky', '__init__', 'conviqt_sky_read'): [None, 'lmax', 'pol', 'skyfile', 'fwhm', 'comm'],
    ('Detector', '__init__', 'conviqt_detector_new_with_id'): ['name'],
    ('Detector', '__init__', 'conviqt_detector_set_epsilon'): [None, 'epsilon'],
    ('Detector', 'set_epsilon', 'conviqt_detector_set_epsilon'): [None, 'epsilon'],
    ('Pointing', '__init__', 'conviqt_pointing_alloc'): [None, '5*nrow'],
    ('Pointing', 'alloc', 'conviqt_pointing_alloc'): [None, '5*nrow'],
    ('Convolver', '__init__', 'conviqt_convolver_new'): ['@sky', '@beam', '@detector', 'pol', 'lmax', 'mmax', 'order', 'verbosity', 'comm'],
    ('Convolver', 'convolve', 'conviqt_convolver_convolve'): [None, '@pointing', 'calibrate'],
}
# the method must report success only after this call
MUST = {('Beam', '__init__'): 'conviqt_beam_read', ('Sky', '__init__'): 'conviqt_sky_read',
        ('Convolver', '__init__'): 'conviqt_convolver_new', ('Convolver', 'convolve'): 'conviqt_convolver_convolve',
        ('Pointing', 'alloc'): 'conviqt_pointing_alloc', ('Detector', 'set_epsilon'): 'conviqt_detector_set_epsilon',
        ('Sky', 'remove_monopole'): 'conviqt_sky_remove_monopole', ('Sky', 'remove_dipole'): 'conviqt_sky_remove_dipole',
        ('Beam', 'normalize'): 'conviqt_beam_normalize'}
RET = {('Beam', 'lmax'): 'conviqt_beam_lmax', ('Beam', 'mmax'): 'conviqt_beam_mmax', ('Sky', 'lmax'): 'conviqt_sky_lmax',
       ('Beam', 'normalize'): 'conviqt_beam_normalize'}
DATA = {'Beam': 'conviqt_beam_%sdata', 'Sky': 'conviqt_sky_%sdata'}


def leaves(v, arith=False, depth=0, out=None, seen=None):
    """where a value comes from: set of (origin, arithmetic on the way)"""
    out = set() if out is None else out
    seen = set() if seen is None else seen
    if id(v) in seen or depth > 30:
        return out
    seen.add(id(v))
    if isinstance(v, pyint.Handle):
        out.add((('handle', v.fn), arith))
    elif isinstance(v, pyint.Unk):
        if v.why.startswith('argument '):
            out.add((('arg', v.why[9:]), arith))
        for x in tuple(v.parts) + tuple(v.src):
            leaves(x, arith or v.why == 'arith', depth + 1, out, seen)
        if v.why == 'slice' and v.key:
            pass
    elif isinstance(v, pyint.Bound):
        leaves(v.obj, arith, depth + 1, out, seen)
    elif isinstance(v, (list, tuple, set)):
        for x in v:
            leaves(x, arith, depth + 1, out, seen)
    elif isinstance(v, pyint.Inst):
        for x in v.attrs.values():
            leaves(x, arith, depth + 1, out, seen)
    return out


def linear(v):
    """{origin: factor} of a linear expression, or None"""
    if isinstance(v, bool):
        return {1: int(v)}
    if isinstance(v, (int, float)):
        return {1: v}
    if isinstance(v, pyint.Num):
        return {('result', id(v)): 1}
    if isinstance(v, pyint.Unk):
        if v.why.startswith('argument '):
            return {v.why[9:]: 1}
        if v.why == 'arith' and len(v.parts) == 2:
            a, b = linear(v.parts[0]), linear(v.parts[1])
            if a is None or b is None:
                return None
            if v.key in ('Add', 'Sub'):
                c = dict(a)
                for k, x in b.items():
                    c[k] = c.get(k, 0) + (x if v.key == 'Add' else -x)
                return {k: x for k, x in c.items() if x}
            if v.key == 'Mult':
                for x, y in ((a, b), (b, a)):
                    if set(x) <= {1}:
                        return {k: z * x.get(1, 0) for k, z in y.items() if z * x.get(1, 0)}
            return None
        if v.why in ('builtins.int', 'builtins.float', 'numpy.int64', 'operator.index', 'ctypes.c_long', 'ctypes.c_int') and len(v.parts) == 1:
            return linear(v.parts[0])
    return None


def python(rep, F):
    w = Wrapper(F)

    def where(n):
        return '%s:%d' % (w.file, getattr(n, 'lineno', 0))
    for c in sorted(w.classes):
        for m in ['__init__'] + w.methods(c):
            qn = '%s.%s' % (c, m)
            reached = {}
            handles = None
            for p in w.paths(c, m):
                rep.count('paths of the Python methods')
                ev = p.events if m == '__init__' else p.events[p.nmade:]
                libs = [e for e in ev if e[0] == 'lib']
                pars = {}
                fd = w.classes[c].find(m)
                names = [x.arg for x in fd.node.args.posonlyargs + fd.node.args.args] if isinstance(fd, pyint.Func) else []
                objs = {}
                for o in p.args:
                    if isinstance(o, pyint.Inst):
                        objs[o.cls.name.lower()] = o
                for e in libs:
                    spec = PY.get((c, m, e[1]))
                    if not spec:
                        continue
                    for i, s in enumerate(spec):
                        if s is None or i >= len(e[2]):
                            continue
                        v = e[2][i]
                        if s.lstrip('@5*') not in names and s[0] != '@':
                            continue
                        rep.count('Python arguments followed')
                        what = 'argument %d of %s' % (i + 1, e[1])
                        key = '%s:%s:%d' % (qn, e[1], i)
                        if s[0] == '@':
                            o = objs.get(s[1:])
                            if isinstance(v, pyint.Handle) and o is not None and not any(v is h for h in o.created):
                                rep.violation('python-argument', where(e[3]), qn, '%s is not the object of the %s that was passed' % (what, s[1:]), key)
                            continue
                        if s[:2] == '5*':
                            l = linear(v)
                            if l is not None and l != {s[2:]: 5}:
                                rep.violation('python-argument', where(e[3]), qn, '%s is not five values for each of the %s rows' % (what, s[2:]), key)
                            elif l is None:
                                rep.note('%s: %s not followed' % (qn, what))
                            continue
                        L = leaves(v)
                        own = [a for o, a in L if o == ('arg', s)]
                        oth = sorted(o[1] for o, a in L if o[0] == 'arg' and o != ('arg', s))
                        reached.setdefault((i, e[1], s), []).append((bool(own), e[3], v))
                        if oth and not own:
                            rep.violation('python-argument', where(e[3]), qn, '%s receives %s instead of %s' % (what, ' and '.join(oth), s), key)
                        elif own:
                            l = linear(v)
                            if l is not None and l != {s: 1}:
                                rep.violation('python-argument', where(e[3]), qn, '%s is not %s as it was passed' % (what, s), key)
                if p.raised is None and not p.fails:
                    must = MUST.get((c, m))
                    if must:
                        rep.count('obligations to perform an operation')
                        k = [e for e in libs if e[1] == must]
                        if not k and not any(e[0] in ('call',) and isinstance(e[1], pyint.Unk) for e in ev):
                            rep.violation('python-operation', where(fd.node), qn, 'returns normally without calling %s' % must, key=qn)
                        elif len(k) > 1:
                            rep.violation('python-operation', where(k[1][3]), qn, 'calls %s %d times' % (must, len(k)), key=qn + ':times')
                    r = RET.get((c, m))
                    if r:
                        rep.count('Python results followed')
                        res = [e[2] for e in ev if e[0] == 'res' and e[1] == r]
                        other = [e for e in ev if e[0] == 'res' and e[1] != r]
                        l = linear(p.ret) if isinstance(p.ret, pyint.Unk) else None
                        mine = [{('result', id(x)): 1} for x in res if isinstance(x, pyint.Num)]
                        if l is not None and mine and l not in mine:
                            rep.violation('python-result', where(fd.node), qn, 'returns something else than what %s reports' % r, key=qn)
                        elif p.ret is None or isinstance(p.ret, (bool, str)) or isinstance(p.ret, (int, float)) and res and not any(x is p.ret for x in res):
                            rep.violation('python-result', where(fd.node), qn, 'returns %r instead of what %s reports' % (p.ret, r), key=qn)
                        elif any(e[2] is p.ret for e in other) and not any(x is p.ret for x in res):
                            rep.violation('python-result', where(fd.node), qn, 'returns the result of another function instead of %s' % r, key=qn)
                    if c in DATA:
                        comps(rep, w, c, m, qn, p, ev, where, fd)
            for (i, fn, s), l in reached.items():
                if not any(o for o, n, v in l) and len({repr(v) for o, n, v in l}) == 1 and all(isinstance(v, (int, float, str, bool, bytes)) or v is None for o, n, v in l):
                    rep.violation('python-argument', where(l[0][1]), qn, 'argument %d of %s is always %r; %s is never passed on' % (i + 1, fn, l[0][2], s),
                                  '%s:%s:%d' % (qn, fn, i))


def comps(rep, w, c, m, qn, p, ev, where, fd):
    fns = {DATA[c] % x: x for x in 'TGC'}
    if m == 'get_data' and isinstance(p.ret, (list, tuple)):
        for k, v in enumerate(p.ret):
            got = {fns[o[1]] for o, a in leaves(v) if o[0] == 'handle' and o[1] in fns}
            if not got:
                rep.note('%s: item %d of the result not followed' % (qn, k))
                continue
            rep.count('components of the Python data followed')
            if got != {'TGC'[k] if k < 3 else ''}:
                rep.violation('python-data', where(fd.node), qn, 'item %d of the result holds the component %s' % (k, '+'.join(sorted(got))), '%s:%d' % (qn, k))
    if m == 'set_data':
        for e in ev:
            if e[0] != 'memmove':
                continue
            got = {fns[o[1]] for o, a in leaves(e[1]) if o[0] == 'handle' and o[1] in fns}
            if len(got) != 1:
                continue
            comp = next(iter(got))
            k = 'TGC'.index(comp)
            last = {}
            for b, v, n in e[3]:
                last[b[0] if isinstance(b, tuple) and isinstance(b[0], (int, type(None))) else repr(b)] = (v, n)
            for b, (v, n) in last.items():
                items = {x.key for x in walkunk(v) if x.why == 'item' and isinstance(x.key, int)}
                if not items:
                    continue
                rep.count('components of the Python data followed')
                if items != {k}:
                    rep.violation('python-data', where(n), qn, 'the component %s receives item %s of the argument' % (comp, '+'.join(map(str, sorted(items)))), '%s:%s:%s' % (qn, comp, b))
                part = {x.why.split('.')[-1] for x in walkunk(v)} & {'real', 'imag'}
                if b in (0, 1, None) and len(part) == 1 and part != ({'imag'} if b == 1 else {'real'}):
                    rep.violation('python-data', where(n), qn, 'the %s parts of %s are stored in the place of the other ones' % (part.pop(), comp), '%s:%s:%s:part' % (qn, comp, b))


def walkunk(v, depth=0):
    if depth > 20:
        return
    if isinstance(v, pyint.Unk):
        yield v
        for x in tuple(v.parts) + tuple(v.src):
            yield from walkunk(x, depth + 1)
    elif isinstance(v, (list, tuple)):
        for x in v:
            yield from walkunk(x, depth + 1)


# ---- what is set is what is reported -----------------------------------------------------------------
def roundtrip(rep, F):
    cl = 'conviqt::detector'
    fn = {}
    for f in F.funcs.values():
        if f.get('cls') == cl and f.get('body') is not None:
            fn.setdefault(f['sn'], []).append(f)
    for setter, getter in (('set_epsilon', 'get_epsilon'), ('set_id', 'get_id')):
        for s in fn.get(setter, []):
            for g in fn.get(getter, []):
                S = Scen(F, {})
                ob = LV(('O', 'det'))
                st = State()
                st.m[ob.base] = {}
                S.invoke(g, ob, [], st)
                text = S.is_class(s['params'][0]['t']) if s['params'] else False
                if text:
                    src = LV(('O', 'text'))
                    st.m[src.base] = {('#def',): Val((A(('arg', 'text')),), frozenset([('arg', 'text')]))}
                    a = src
                else:
                    a = Val((A(('arg', 0), False),), frozenset([('arg', 0)]))
                ok, r0, t, tt = S.invoke(s, ob, [a], st)
                if ok is None:
                    rep.violation('round-trip', '%s:%s' % (s['f'], s['l']), s['fn'], 'never succeeds', key=setter)
                    continue
                # anything else set afterwards changes nothing
                for o in (None, 'set_id' if setter == 'set_epsilon' else 'set_epsilon'):
                    st2 = ok.copy()
                    if o:
                        of = fn.get(o)
                        if not of:
                            continue
                        if S.is_class(of[0]['params'][0]['t']):
                            x = LV(('O', 'text2'))
                            st2.m[x.base] = {('#def',): Val((A(('arg', 'other')),), frozenset([('arg', 'other')]))}
                        else:
                            x = Val((A(('arg', 'other'), False),), frozenset([('arg', 'other')]))
                        st2, r1, t, tt = S.invoke(of[0], ob, [x], st2)
                        if st2 is None:
                            continue
                    st3, r, t, tt = S.invoke(g, ob, [], st2)
                    rep.count('values set and read back')
                    where = '%s:%s' % (g['f'], g['l'])
                    if st3 is None:
                        rep.violation('round-trip', where, g['fn'], 'fails after %s' % setter, key=getter)
                        continue
                    if text:
                        tags = E0
                        for l in (r if isinstance(r, list) else r.ptrs if r is not None else ()):
                            tags |= S.otaint(st3, l)
                        tags = {t for t in tags if isinstance(t, tuple) and t[0] == 'arg'}
                        if tags and tags != {('arg', 'text')} or not tags and r is not None and S_known(r):
                            rep.violation('round-trip', where, g['fn'], 'does not report what %s has set' % setter, key=getter)
                        elif not tags:
                            rep.note('%s: the text reported is not followed' % getter)
                    else:
                        if isinstance(r, list):
                            r = S.rd(r, S.valnode(K(0)), st3)
                        if r is not None and any(p != a.alts[0] for p in r.alts) and all(known(p) or kept(p) for p in r.alts):
                            rep.violation('round-trip', where, g['fn'], 'reports %s after %s(%s)' % (describe(r), setter, describe(a)), key=getter)


def kept(p):
    """or in what the object held before"""
    return known(p, ('arg', 'result', 'ptr', 'obj', 'in', 'cell', 'm0'))


def S_known(r):
    return False


def pointing(rep, F, im):
    """conviqt_pointing_alloc and _data: as many values as asked for, handed out from the first one on"""
    al, da = im['conviqt_pointing_alloc'], im['conviqt_pointing_data']
    S = Scen(F, {})
    st = State()
    h = Val((A(('obj', 0)),), ptrs=(LV(('O', ('obj', 0))),))
    n = Val((A(('arg', 1), True),), frozenset([('arg', 1)]))
    ok, r, t, tt = S.invoke(al, None, [h, n], st)
    if ok is None:
        rep.violation('operation', '%s:%s' % (al['f'], al['l']), al['fn'], 'never succeeds', key='alloc')
        return
    d = ok.m.get(('O', ('obj', 0))) or {}
    sizes = [v for k, v in d.items() if k and k[-1] in ('#n', '#size')]
    rep.count('operations matched')
    for v in sizes:
        rep.count('arguments followed')
        if any(p != n.alts[0] for p in v.alts) and all(known(p) for p in v.alts):
            rep.violation('argument', '%s:%s' % (al['f'], al['l']), al['fn'], 'allocates %s values instead of the number asked for' % describe(v), key='alloc')
    if not sizes:
        rep.note('the size of an allocated pointing is not followed')
    st2, r, t, tt = S.invoke(da, None, [h], ok.copy())
    if r is not None and r.ptrs:
        rep.count('results followed')
        for l in r.ptrs:
            if l.idx and l.idx[0].is_const() and l.idx[0] != ZERO:
                rep.violation('result', '%s:%s' % (da['f'], da['l']), da['fn'], 'hands out the pointing from value %s on' % l.idx[0], key='data')
            elif l.base != ('O', ('obj', 0)) and l.base[0] == 'O' and l.base[1][0] == 'obj':
                rep.violation('result', '%s:%s' % (da['f'], da['l']), da['fn'], 'hands out another object', key='data')
    else:
        rep.note('what conviqt_pointing_data returns is not followed')


def run(rep):
    rep.rule('R1: every function of the C interface that reports success has performed the operation it stands for, once, on the object whose '
             'handle it was given, with each argument in its own place and unchanged, and no other modifying operation')
    rep.rule('R2: what such a function returns, or stores for its caller, is what the operation reports: the same number, the first element of the '
             'component asked for')
    rep.rule('R3: a detector reports what was set last, whatever else was set')
    rep.rule('R4: every Python method hands each of its arguments on in its own place and unchanged (a pointing of n rows has 5 n values), '
             'returns what the C function reports, and keeps the components T, G, C of the expansion data and their real and imaginary parts apart')
    F = facts.load()
    im = capi.impls(F)
    for name in sorted(OPS):
        if name not in im:
            raise facts.CheckError('no definition of %s' % name)
        for truth in (0, 1):
            onefn(rep, F, name, im[name], truth)
    pointing(rep, F, im)
    roundtrip(rep, F)
    python(rep, F)
    rep.need('operations matched', 2 * len(OPS) - 6)
    rep.need('arguments followed', 40)
