"""P25: every index of a container has an element of its own inside the storage of the container."""
import facts
import engine as G
import poly as P
from poly import *
from scen import *
from facts import CheckError
from itertools import product
from fractions import Fraction as Fr

HEAD = '''#include <utility>
#include "%(r)s/levels/cxxsupport/ls_arr.h"
#include "%(r)s/levels/Healpix_cxx/ls_alm.h"
using levels::tsize;
typedef levels::arr<double> A1; typedef levels::arr2<double> A2;
typedef levels::arr3<double> A3; template class levels::alignAlloc__<double,16>; typedef levels::Alm<double> AL;
namespace vpprobe {
void shape(const char*, tsize n, tsize s1, tsize s2, tsize s3);
void place(const char*, const double *e, tsize i, tsize j, tsize k);
void value(const char*, double v, double expected);
void coeff(const char*, int lmax, int mmax, const double *e, int l, int m);
'''
SEE = {
    'A1': 'shape("{x}",{x}.size(),{x}.size(),1,1); place("{x}",&{x}[i],i,0,0);',
    'A2': 'shape("{x}",{x}.size(),{x}.size1(),{x}.size2(),1); place("{x}",&{x}(i,j),i,j,0); place("{x}",&{x}[i][j],i,j,0);',
    'A3': 'shape("{x}",{x}.size(),{x}.size1(),{x}.size2(),{x}.size3()); place("{x}",&{x}(i,j,k),i,j,k);',
    'AL': 'coeff("{x}",{x}.Lmax(),{x}.Mmax(),&{x}(l,m),l,m); coeff("{x}",{x}.Lmax(),{x}.Mmax(),&{x}.mstart(m)[l],l,m); '
          'coeff("{x}",{x}.Lmax(),{x}.Mmax(),&const_cast<AL&>({x}).Alms()[{x}.index(l,m)],l,m);',
}
AT = {'A1': '{x}[i]', 'A2': '{x}(i,j)', 'A3': '{x}(i,j,k)', 'AL': '{x}(l,m)'}
DIM = {'A1': 1, 'A2': 2, 'A3': 3, 'AL': 2}


def probes():
    """(name, class, code, {object: (extents, value or None)})"""
    out = []
    for c in ('A1', 'A2', 'A3', 'AL'):
        d = DIM[c]
        a, p = 'abc'[:d], 'pqr'[:d]
        A_, P_ = ','.join(a), ','.join(p)
        out.append(('ctor', c, '%s x(%s);' % (c, A_), {'x': (a, None)}))
        out.append(('default', c, '%s x;' % c, {'x': ('0' * d, None)}))
        out.append(('copy', c, '%s x(%s); %s y(x);' % (c, A_, c), {'x': (a, None), 'y': (a, None)}))
        out.append(('assign', c, '%s x(%s), y(%s); x=y;' % (c, P_, A_), {'x': (a, None), 'y': (a, None)}))
        out.append(('swap', c, '%s x(%s), y(%s); x.swap(y);' % (c, P_, A_), {'x': (a, None), 'y': (p, None)}))
        set_ = 'Set' if c == 'AL' else 'alloc'
        nums = {1: (('3', '5'), ('5', '3'), ('4', '4'), ('5', '6'), ('2', '9')),
                2: (('23', '32'), ('23', '45'), ('45', '23'), ('34', '52'), ('26', '34'), ('34', '35'), ('34', '43'), ('29', '92'), ('29', '38')),
                3: (('234', '432'), ('234', '345'), ('345', '232'), ('234', '262'), ('234', '123'), ('234', '235'), ('234', '243'), ('234', '334'))}[d]
        if c == 'AL':
            nums = (('42', '42'), ('20', '31'), ('54', '32'), ('31', '42'), ('42', '44'), ('43', '53'), ('53', '44'))
        for o, n in nums:
            out.append(('%s %s to %s' % (set_, o, n), c, '%s x(%s); x.%s(%s);' % (c, ','.join(o), set_, ','.join(n)), {'x': (n, None)}))
            if c in ('A1', 'A2'):
                out.append(('allocAndFill %s to %s' % (o, n), c, '%s x(%s); x.allocAndFill(%s,2.5);' % (c, ','.join(o), ','.join(n)),
                            {'x': (n, 2.5)}))
            if c == 'A2':
                out.append(('fast_alloc %s to %s' % (o, n), c, '%s x(%s); x.fast_alloc(%s);' % (c, ','.join(o), ','.join(n)), {'x': (n, None)}))
            if c == 'A1':
                out.append(('resize %s to %s' % (o, n), c, '%s x(%s); x.resize(%s);' % (c, o, n), {'x': (n, None)}))
            out.append(('assign %s to %s' % (o, n), c, '%s x(%s), y(%s); x=y;' % (c, ','.join(o), ','.join(n)), {'x': (n, None), 'y': (n, None)}))
        if c != 'AL':
            out.append(('dealloc and alloc', c, '%s x(%s); x.dealloc(); x.alloc(%s);' % (c, ','.join('223'[:d]), ','.join('345'[:d])), {'x': ('345'[:d], None)}))
            out.append(('alloc of an empty one', c, '%s x; x.alloc(%s);' % (c, ','.join('345'[:d])), {'x': ('345'[:d], None)}))
            out.append(('dealloc', c, '%s x(%s); x.dealloc();' % (c, P_), {'x': ('0' * d, None)}))
        else:
            out.append(('Set with data', c, 'AL x(p,q); levels::arr<double> dat(AL::Num_Alms(a,b)); x.Set(dat,a,b);', {'x': (a, None)}))
        if c in ('A1', 'A2'):
            out.append(('ctor with value', c, '%s x(%s,1.5);' % (c, A_), {'x': (a, 1.5)}))
            out.append(('copy of values', c, '%s x(%s,1.5); %s y(x);' % (c, A_, c), {'x': (a, 1.5), 'y': (a, 1.5)}))
            out.append(('assigned values', c, '%s x(%s,1.5), y(%s,2.5); x=y;' % (c, P_, A_), {'x': (a, 2.5), 'y': (a, 2.5)}))
            out.append(('swapped values', c, '%s x(%s,1.5), y(%s,2.5); x.swap(y);' % (c, P_, A_), {'x': (a, 2.5), 'y': (p, 1.5)}))
            n = '35'[:d]
            N_, O_ = ','.join(n), ','.join('42'[:d])
            out.append(('copy of %s values' % n, c, '%s x(%s,1.5); %s y(x);' % (c, N_, c), {'y': (n, 1.5)}))
            out.append(('assigned %s values' % n, c, '%s x(%s,1.5), y(%s,2.5); x=y;' % (c, O_, N_), {'x': (n, 2.5)}))
        if c == 'A1':
            out.append(('transfer', c, 'A1 x(p,1.5), y(a,2.5); x.transfer(y);', {'x': (a, 2.5)}))
            out.append(('transfer leaves', c, 'A1 x(p,1.5), y(a,2.5); x.transfer(y);', {'y': ('0', None)}))
            out.append(('copyFromPtr', c, 'A1 x(3); x.copyFromPtr(z,5);', {'x': ('5', None)}))
        if c in ('A1', 'A2', 'A3'):
            out.append(('filled', c, '%s x(%s); x.fill(3.5);' % (c, A_), {'x': (a, 3.5)}))
    return out


def source(name, cls, code, objs):
    t = 'void %s(' % name
    ty = 'int' if cls == 'AL' else 'tsize'
    t += ','.join('%s %s' % (ty, v) for v in 'abcpqrijk') + ',int l,int m,double *z){' + code
    for x, (ext, val) in objs.items():
        t += SEE[cls].format(x=x)
        if val is not None:
            at = AT[cls].format(x=x)
            for v, e in zip('ijk', ext):
                at = at.replace(v, str(int(e) - 1)) if e.isdigit() else at
            t += 'value("%s",%s,%s);' % (x, at, val)
    return t + '}\n'


class Probe(Scen):
    """the containers are looked into, down to the memory they allocate"""
    _ck = {}

    def _ckind(self, t, depth):
        n = t.split('<')[0]
        if n.split('::')[-1].startswith(('arr', 'fix_arr')) and not n.startswith('std::'):
            return None
        return Scen._ckind(self, t, depth)

    def __init__(self, F):
        Scen.__init__(self, F, {})
        self.got = []
        self.ixs = {}
        self.models = dict(self.models)
        for x in ('shape', 'place', 'value', 'coeff'):
            self.models['vpprobe::' + x] = self.note_(x)
        self.hooks['ptrindex'] = self.h_ptr
        self.hooks['index'] = self.h_index

    def h_ptr(self, *a):
        for n in a[1:]:
            if isinstance(n, dict) and n.get('l'):
                self.lastwhere = self.where(n)

    def h_index(self, eng, obj, ps, ivs, n, st):
        for p, v in zip(ps, ivs):
            at = p.single_atom() if isinstance(p, Poly) else None
            if at is not None and v.poly() is not None:
                self.ixs[at] = v.poly()

    def note_(self, what):
        def m(eng, n, obj, args, st):
            vs = [eng.ev(a, st) for a in args[1:]]
            nm = args[0]
            while isinstance(nm, dict) and nm.get('k') != 'str' and nm.get('c'):
                nm = nm['c'][0]
            self.got.append((what, nm.get('s', nm.get('v', '')), vs, [self.places(v, st) for v in vs], st))
            return K(0)
        return m

    def places(self, v, st):
        """[(storage, index polynomial, capacity polynomial)] of a pointer to an element"""
        out = []
        for l in v.ptrs or ():
            if l is None or not l.path or not str(l.path[-1]).startswith('[') or len(l.idx) != 1:
                return None
            cap = self.cell(st, l.base, l.path[:-1] + ('#n',)).poly() if l.base[0] != 'O' else None
            out.append(((l.base, l.path[:-1]), self.res(l.idx[0]), cap))
        return out

    def res(self, p):
        for i in range(4):
            mp = {a: self.ixs[a] for a in p.atoms() if a in self.ixs}
            if not mp:
                break
            p = subst(p, mp)
        return p


class Unknown(Exception):
    pass


def val(p, env):
    """value of a polynomial over the arguments of a probe"""
    s = Fr(0)
    for m, c in p.t.items():
        x = Fr(c)
        for a in m:
            x *= atom(a, env)
        s += x
    return s


def atom(a, env):
    nm = P.NAMES[a]
    if isinstance(nm, tuple) and nm[0] == 'arg' and nm[1] in env:
        return env[nm[1]]
    if isinstance(nm, tuple) and nm[0] == 'idiv':
        x = val(nm[1], env)
        q = abs(x) // nm[2]
        return q if x >= 0 else -q
    raise Unknown()


def poly_of(x):
    return K(int(x)).poly() if x.isdigit() else A(('arg', x), True)


def run(rep):
    rep.rule('R1: after every way of making, copying, assigning, exchanging and resizing an array or a set of coefficients, its '
             'reported extents are those asked for and the size is their product')
    rep.rule('R2: the position of an element is the one of C ordering (coefficients: no two of them share a position), through every '
             'form of access, for all indices')
    rep.rule('R3: the memory allocated holds all positions of the reported extents')
    rep.rule('R4: values given at construction, by filling, copying or assigning are those found afterwards')
    rep.assumptions.append('dimensions small enough that their products do not overflow; allocations succeed')
    F = facts.load()
    ps = probes()
    head = HEAD % {'r': facts.REPO.rstrip('/')}
    srcs = [source('vp%d' % i, c, code, o) for i, (w, c, code, o) in enumerate(ps)]
    try:
        facts.extra(F, head + ''.join(srcs) + '}\n', 'vpprobe.cc')
        live = set(range(len(ps)))
    except CheckError:
        from concurrent.futures import ThreadPoolExecutor
        live = set()

        def one(i):
            try:
                F2 = type(F)()
                facts.extra(F2, head + srcs[i] + '}\n', 'vpprobe.cc')
                return True
            except CheckError:
                return False
        with ThreadPoolExecutor(8) as ex:
            ok = list(ex.map(one, range(len(ps))))
        live = {i for i, x in enumerate(ok) if x}
        for i, x in enumerate(ok):
            if not x:
                rep.note('not in the interface: %s of %s' % (ps[i][0], ps[i][1]))
        if not live:
            raise CheckError('the containers cannot be used')
        facts.extra(F, head + ''.join(srcs[i] for i in sorted(live)) + '}\n', 'vpprobe.cc')
    for i in sorted(live):
        what, cls, code, objs = ps[i]
        f = F.one('vpprobe::vp%d' % i)
        S = Probe(F)
        args = [arg(p['n']) for p in f['params'][:-1]]
        args.append(Val((A(('arg', 'z')),), ptrs=(LV(('O', 'z'), ('[5]',), (ZERO,)),)))
        S.invoke(f, None, args, State())
        rep.count('histories')
        if not S.got:
            w, fn = where(F, cls, what)
            rep.violation('R1', w, fn, '%s, %s: this always ends with an exception' % (NAME[cls], what), key=what)
        judge(rep, F, S, what, cls, objs)
        rep.sample('%s: %s' % (NAME[cls], what))
    aligned(rep, F)
    rep.need('histories', 60)
    rep.need('extents compared', 60)
    rep.need('positions compared', 60)
    rep.need('capacities compared', 60)


def aligned(rep, F):
    """allocators that ask for bytes ask for enough of them"""
    for f in list(F.funcs.values()):
        c = f.get('cls') or ''
        if f['sn'] != 'alloc' or 'Alloc' not in c or f.get('body') is None or len(f['params']) != 1 or '<' not in c:
            continue
        t = c.split('<', 1)[1].rstrip('>').split(',')[0].strip()
        size = G.SIZEOF.get(t)
        if size is None:
            continue
        S = Scen(F, {})
        asked = []

        def hook(eng, n, obj, args, st, want):
            if n.get('sn', n.get('fn', '')).split('::')[-1] in ('posix_memalign', 'malloc', 'aligned_alloc', 'memalign') and args:
                asked.append((eng.ev(args[-1], st).poly(), eng.where(n)))
            return None
        S.hooks['call'] = hook
        S.invoke(f, LV(('O', 'stm')), [arg('a')], State())
        for p, w in asked:
            rep.count('requests for bytes')
            need = A(('arg', 'a'), True).scale(size)
            r = smaller(p, need)
            if r is None:
                rep.note('%s: number of bytes not known' % f['fn'])
            elif r:
                rep.violation('R3', w, f['fn'], '%s bytes are requested for a elements of %d bytes' % (P_(p), size), key=f['fn'])


NAME = {'A1': 'levels::arr', 'A2': 'levels::arr2', 'A3': 'levels::arr3', 'AL': 'levels::Alm'}
OP = {'A1': ('arrT', 'operator[]'), 'A2': ('arr2T', 'operator()'), 'A3': ('arr3', 'operator()'), 'AL': ('Alm', 'operator()')}


def where(F, cls, what):
    """the member function a history is about"""
    sn = {'ctor': '<ctor>', 'default': '<ctor>', 'copy': '<ctor>', 'assign': 'operator=', 'swap': 'swap', 'swapped': 'swap', 'Set': 'Set',
          'transfer': 'transfer', 'alloc': 'alloc', 'dealloc': 'dealloc', 'filled': 'fill', 'assigned': 'operator='}
    w = what.split()[0]
    w = sn.get(w, w)
    for base in ({'A1': ('arrT<', 'arr<', 'arr_ref<'), 'A2': ('arr2T<', 'arr2<'), 'A3': ('arr3<',), 'AL': ('Alm<', 'Alm_Base')}[cls]):
        for f in sorted(F.funcs.values(), key=lambda f: f.get('l', 0) if isinstance(f.get('l', 0), int) else 0):
            if (f.get('cls') or '').startswith('levels::' + base) and f.get('body') is not None:
                if w == '<ctor>' and f.get('kind') == 'ctor' or f['sn'] == w:
                    return '%s:%s' % (f.get('f', '?'), f.get('l', '?')), f['fn']
    return '?', NAME[cls]


def judge(rep, F, S, what, cls, objs):
    w, fn = where(F, cls, what)

    def bad(rule, x, msg):
        rep.violation(rule, w, fn, '%s, %s: %s' % (NAME[cls], what, msg), key=what + x)
    for k, x, vs, pl, st in S.got:
        if x not in objs:
            x = next(iter(objs)) if len(objs) == 1 else x
        ext, v0 = objs.get(x, (None, None))
        if ext is None:
            raise CheckError('a probe does not name its object: %r' % (x,))
        want = [poly_of(e) for e in ext]
        if k == 'shape':
            w3 = want + [K(1).poly()] * (3 - len(want))
            prod_ = K(1).poly()
            for e in want:
                prod_ = prod_.mul(e)
            for v, e, nm in zip(vs, [prod_] + w3, ('size', 'first extent', 'second extent', 'third extent')):
                rep.count('extents compared')
                p = v.poly()
                c = differ(p, e) if p is not None else None
                if c is None:
                    rep.note('%s, %s: %s not known' % (NAME[cls], what, nm))
                elif c:
                    bad('R1', x + nm, 'the %s is %s and not %s' % (nm, P_(p), P_(e)))
        elif k == 'place':
            exp = vs[1].poly()
            for n in range(1, len(ext)):
                exp = exp.mul(want[n]).add(vs[1 + n].poly())
            if pl[0] is None or not pl[0]:
                if any(e != '0' for e in ext):
                    rep.note('%s, %s: storage not known' % (NAME[cls], what))
                continue
            prod_ = K(1).poly()
            for e in want:
                prod_ = prod_.mul(e)
            for s, ix, cap in pl[0]:
                rep.count('positions compared')
                c = differ(ix, exp)
                if c is None:
                    rep.note('%s, %s: position not known' % (NAME[cls], what))
                elif c and '0' not in ext:
                    bad('R2', x, 'the element is found at %s and not at %s' % (P_(ix), P_(exp)))
                rep.count('capacities compared')
                c = smaller(cap, prod_)
                if c is None:
                    if any(e != '0' for e in ext):
                        rep.note('%s, %s: memory not known' % (NAME[cls], what))
                elif c:
                    bad('R3', x, 'there is memory for %s elements, the extents need %s' % (P_(cap), P_(prod_)))
        elif k == 'value':
            rep.count('values compared')
            p = vs[0].poly()
            at = p.single_atom() if p is not None and not p.is_const() else None
            if at is not None and isinstance(P.NAMES[at], tuple) and P.NAMES[at][0] == 'ui':
                bad('R4', x, 'the elements are not set')
            elif p is None or not p.is_const():
                rep.note('%s, %s: value not known' % (NAME[cls], what))
            elif p.const() != Fr(v0):
                bad('R4', x, 'the elements are %s and not %s' % (p.const(), v0))
        elif k == 'coeff':
            for v, e, nm in zip(vs[:2], want, ('lmax', 'mmax')):
                rep.count('extents compared')
                p = v.poly()
                c = differ(p, e) if p is not None else None
                if c is None:
                    rep.note('%s, %s: %s not known' % (NAME[cls], what, nm))
                elif c:
                    bad('R1', x + nm, '%s is %s and not %s' % (nm, P_(p), P_(e)))
            if not pl[2]:
                rep.note('%s, %s: storage not known' % (NAME[cls], what))
                continue
            for s, ix, cap in pl[2]:
                rep.count('positions compared')
                rep.count('capacities compared')
                r = layout(ix, cap, ext)
                if r is None:
                    rep.note('%s, %s: layout not known' % (NAME[cls], what))
                elif r:
                    bad('R2' if r[0] else 'R3', x, r[1])


def P_(p):
    s = repr(p)
    import re
    return re.sub(r'\(arg,(\w)\)', r'\1', s)


def differ(p, e):
    """True/False: two polynomials over the arguments are different; None: not known"""
    d = p.sub(e)
    if d.is_const() and d.const() == 0:
        return False
    try:
        for v in product((1, 2, 3, 5), repeat=4):
            env = dict(zip('abcp', v))
            env.update(q=v[0] + 1, r=v[1] + 2, i=v[2] + 4, j=v[3] + 1, k=v[0] + 3, l=2, m=1)
            if val(d, env) != 0:
                return True
    except Unknown:
        pass
    return None


def smaller(cap, n):
    if cap is None:
        return None
    d = cap.sub(n)
    if d.is_const():
        return d.const() < 0
    try:
        for v in product((1, 2, 3, 5, 8), repeat=3):
            env = dict(zip('abc', v))
            env.update(p=v[1] + 1, q=v[2] + 2, r=v[0] + 1)
            if val(d, env) < 0:
                return True
    except Unknown:
        pass
    return None


def layout(ix, cap, ext):
    """a clash of two coefficients or a position outside the memory; False: none"""
    if cap is None:
        return None
    lm = [(l, m) for l in range(0, 9) for m in range(0, l + 1)] if not ext.isdigit() else [(int(ext[0]), int(ext[1]))]
    try:
        for lmax, mmax in lm:
            env = dict(a=6, b=3, p=5, q=2)
            env.update({e: v for e, v in zip(ext, (lmax, mmax)) if not e.isdigit()})
            seen = {}
            c = val(cap, env)
            for m in range(mmax + 1):
                for l in range(m, lmax + 1):
                    at = val(ix, dict(env, l=l, m=m))
                    if at in seen:
                        return True, 'with lmax %d and mmax %d the coefficients (l,m) = %s and %s share one position' % (lmax, mmax, seen[at], (l, m))
                    seen[at] = (l, m)
                    if not 0 <= at < c:
                        return False, 'with lmax %d and mmax %d the coefficient (l,m) = %s lies at %s, outside the memory for %s coefficients' % (
                            lmax, mmax, (l, m), at, c)
    except Unknown:
        return None
    return ()
