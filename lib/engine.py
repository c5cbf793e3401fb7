"""Abstract interpreter over the extracted syntax trees.

One state stands for all executions that reach a point on some rank.  Every value
carries a symbolic part (up to four alternatives), taints (what it may depend on:
'rank', 'time', 'thread', 'verb', ...), a provenance set and, for pointers, what it
points to.  Loops are run to a fixpoint, calls are inlined, so that extracting a
helper or rewriting a loop does not change what is computed."""
import re, sys
from fractions import Fraction as Fr
from poly import *
import poly as P

sys.setrecursionlimit(20000)
E0 = frozenset()
IMPLICIT = frozenset(['rank', 'time', 'thread', 'verb', 'carry'])
SPLITK = frozenset(['rank', 'time', 'thread'])
NAN, PINF, NINF = 'nan', '+inf', '-inf'


class Dead(Exception):
    """no execution continues past this expression"""


class Budget(Exception):
    pass


_serial = [0]


class Val:
    __slots__ = ('alts', 'taint', 'prov', 'mod', 'ptrs', 'cond', 'ser', 'null')

    def __init__(self, alts, taint=E0, prov=E0, mod=None, ptrs=(), cond=None, null=False):
        self.alts = alts
        self.taint = taint
        self.prov = prov
        self.mod = mod
        self.ptrs = ptrs
        self.cond = cond
        self.null = null
        _serial[0] += 1
        self.ser = _serial[0]

    def same(self, o):
        return self is o or (self.alts == o.alts and self.taint == o.taint and self.prov == o.prov
                             and self.mod == o.mod and self.ptrs == o.ptrs)

    def same_value(self, o):
        return self is o or (self.alts == o.alts and self.ptrs == o.ptrs)

    def poly(self):
        if len(self.alts) == 1 and isinstance(self.alts[0], Poly):
            return self.alts[0]
        return None

    def const(self):
        p = self.poly()
        if p is not None and p.is_const():
            return p.const()
        return None

    def with_(self, **kw):
        v = Val(self.alts, self.taint, self.prov, self.mod, self.ptrs, self.cond, self.null)
        for k, x in kw.items():
            setattr(v, k, x)
        return v

    def tainted(self, t):
        if t <= self.taint:
            return self
        return self.with_(taint=self.taint | t)

    def __repr__(self):
        return 'Val(%s t=%s p=%s m=%s ptr=%s)' % (list(self.alts), sorted(map(str, self.taint)), sorted(map(str, self.prov)),
                                                  self.mod, self.ptrs)


def tofloat(a):
    return float(a) if isinstance(a, str) else float(a.const())


def fromfloat(x):
    if x != x:
        return NAN
    if x in (float('inf'), float('-inf')):
        return PINF if x > 0 else NINF
    return C(x)


def ieee(op, a, b):
    """arithmetic on known numbers the way the machine does it"""
    try:
        x, y = tofloat(a), tofloat(b)
        if op == '+':
            r = x + y
        elif op == '-':
            r = x - y
        elif op == '*':
            r = x * y
        elif op == '/':
            if y == 0:
                if x == 0 or x != x:
                    return NAN
                return None                     # the sign of a zero is not kept
            r = x / y
        else:
            return None
    except OverflowError:
        return None
    return fromfloat(r)


def K(x, prov=None):
    return Val((C(x),), prov=prov if prov is not None else frozenset([('const',)]))


UNINIT = frozenset([('uninit',)])
INIT0 = frozenset([('init0',)])
UNK = frozenset([('unk',)])


class LV:
    __slots__ = ('base', 'path', 'idx', 'h')

    def __init__(self, base, path=(), idx=()):
        self.base = base
        self.path = path
        self.idx = idx
        self.h = hash((base, path, idx))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o or (isinstance(o, LV) and self.h == o.h and self.base == o.base
                             and self.path == o.path and self.idx == o.idx)

    def f(self, *names):
        return LV(self.base, self.path + names, self.idx)

    def e(self, comp, *idx):
        return LV(self.base, self.path + (comp,), self.idx + idx)

    def __repr__(self):
        return '%s%s%s' % (self.base, ''.join('.' + str(p) for p in self.path), list(self.idx) if self.idx else '')


ELEM = ('[]', '[5]')
RES = ('[0]', '[1]', '[2]', '[3]', '[4]')


def has_elem(path):
    for p in path:
        if p[0] == '[':
            return True
    return False


class State:
    __slots__ = ('m', 'own', 'facts', 'split', 'guard', 'mw')

    def __init__(self):
        self.m = {}
        self.own = set()
        self.facts = E0
        self.split = E0
        self.guard = E0
        self.mw = {}

    def copy(self):
        s = State()
        s.m = dict(self.m)
        self.own = set()
        s.facts = self.facts
        s.split = self.split
        s.guard = self.guard
        s.mw = dict(self.mw)
        return s

    def get(self, base, path):
        d = self.m.get(base)
        if d is None:
            return None
        return d.get(path)

    def wdict(self, base):
        if base in self.own:
            return self.m[base]
        d = self.m.get(base)
        d = {} if d is None else dict(d)
        self.m[base] = d
        self.own.add(base)
        return d

    def put(self, base, path, v):
        self.wdict(base)[path] = v

    def default(self, base, path):
        """the template that covers a cell that has not been written"""
        d = self.m.get(base)
        if d is None:
            return None
        for i in range(len(path), -1, -1):
            v = d.get(path[:i] + ('#def',))
            if v is not None:
                return v
        return None


class Out:
    __slots__ = ('n', 'b', 'c', 'r', 't', 'tt', 'k')

    def __init__(self, n=None):
        self.n = n
        self.b = self.c = self.r = self.t = None
        self.tt = E0
        self.k = 0


class Frame:
    __slots__ = ('func', 'ctx', 'vars', 'this', 'parent', 'bases', 'lex', 'depth', 'rett', 'isref')

    def __init__(self, func, ctx, this, parent, lex=None):
        self.func = func
        self.ctx = ctx
        self.vars = {}
        self.this = this
        self.parent = parent
        self.lex = lex
        self.bases = []
        self.depth = 0 if parent is None else parent.depth + 1


SCALARS = set('''bool char signed unsigned short int long float double void size_t
wchar_t char16_t char32_t __int128'''.split())


def strip_cv(t):
    t = t.strip()
    while True:
        u = t
        for w in ('const ', 'volatile ', 'struct ', 'class ', 'enum ', 'union '):
            if t.startswith(w):
                t = t[len(w):]
        if t.endswith(' const'):
            t = t[:-6]
        if t.endswith('*const'):
            t = t[:-5]
        t = t.strip()
        if t == u:
            return t


def unref(t):
    t = t.strip()
    while t.endswith('&'):
        t = t[:-1].strip()
    return strip_cv(t)


def isref(t):
    return t.strip().endswith('&')


def targs(t):
    """template arguments of a type name"""
    i = t.find('<')
    if i < 0 or not t.endswith('>'):
        return []
    depth = 0
    out = []
    cur = ''
    for ch in t[i + 1:-1]:
        if ch == '<':
            depth += 1
        elif ch == '>':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


INTT = re.compile(r'^(unsigned |signed )?(char|short|int|long|long long|bool|__int128)( int)?$|^unsigned$|^size_t$')
SIZEOF = {'char': 1, 'signed char': 1, 'unsigned char': 1, 'bool': 1, 'short': 2, 'unsigned short': 2,
          'int': 4, 'unsigned int': 4, 'float': 4, 'long': 8, 'unsigned long': 8, 'long long': 8,
          'unsigned long long': 8, 'double': 8, 'long double': 16}


class Engine:
    MAXALT = 4

    def __init__(self, facts, opts=None):
        self.F = facts
        self.opts = opts or {}
        self.splitk = self.opts.get('splitk', SPLITK)
        self.hist = self.opts.get('hist')
        self.ctxs = {}
        self.events = {}
        self.uninit_ev = {}
        self.frame = None
        self.collect = [None]
        self.init_hook = None
        self.eldef = {}
        self.steps = 0
        self.maxsteps = self.opts.get('maxsteps', 40000000)
        self.region = None
        self.ws = []
        self.stats = {'calls': 0, 'inlined': set(), 'opaque': {}, 'stmts': 0, 'loops': 0, 'extern': {}}
        self.active = []
        self.hooks = {}
        self.phase = 0
        self.enum_names = set(facts.enums.keys())
        self.statics = {}
        self.loopborn = []
        self.clock = 0
        self.throwlog = {}
        import models
        self.models = models.TABLE
        self.evoing = set()
        self.M = models

    # ---- misc --------------------------------------------------------------
    def ctx(self, parent, *key):
        k = (parent,) + key
        c = self.ctxs.get(k)
        if c is None:
            c = len(self.ctxs) + 1
            self.ctxs[k] = c
        return c

    def where(self, node):
        f = self.frame.func if self.frame else None
        fn = node.get('f') or (f.get('f') if f else '?')
        return '%s:%s' % (fn, node.get('l', '?'))

    def fname(self):
        return self.frame.func['fn'] if self.frame and self.frame.func else '?'

    def stack(self):
        out = []
        fr = self.frame
        while fr is not None:
            if fr.func:
                out.append(fr.func['sn'])
            fr = fr.parent
        return list(reversed(out))

    def ev_add(self, kind, node, st, **info):
        key = (kind, id(node), self.frame.ctx if self.frame else 0)
        info.update(kind=kind, where=self.where(node), fn=self.fname(), node=node,
                    split=st.split, facts=st.facts, guard=st.guard, stack=self.stack())
        self.clock += 1
        info['first'] = info['last'] = self.clock
        old = self.events.get(key)
        if old is not None:
            info['first'] = old['first']
            if kind == 'coll':
                info['split'] = info['split'] | old['split']
        self.events[key] = info
        return info

    def evs(self, kind):
        return [e for e in self.events.values() if e['kind'] == kind]

    def fresh(self, tag, node, isint=False, taint=E0, prov=UNK, extra=()):
        w = self.ws[-1] if self.ws else None
        a = A((tag, id(node), self.frame.ctx if self.frame else 0, w, extra), isint)
        return Val((a,), taint, prov)

    def is_int_t(self, t):
        t = unref(t)
        return bool(INTT.match(t)) or t in self.enum_names

    def is_class(self, t):
        t = unref(t)
        if t.endswith('*') or t.endswith(']') or '(*)' in t or t.endswith(')'):
            return False
        if t in self.enum_names or INTT.match(t):
            return False
        if t in ('float', 'double', 'long double', 'void', 'unsigned char', 'signed char', 'std::nullptr_t',
                 '_Bool', 'nullptr_t', '__m128', '__m128d', '__m128i'):
            return False
        if t.split(' ')[0] in ('unsigned', 'signed'):
            return False
        if t in self.F.records or t in self.F.crecords:
            return True
        if t.startswith('std::') or '<' in t or '::' in t or t.startswith('(lambda'):
            return t not in self.enum_names and not self._enumlike(t)
        return False

    def _enumlike(self, t):
        return t in ('std::size_t', 'std::_Ios_Openmode', 'std::_Ios_Fmtflags', 'std::_Ios_Iostate')

    _ck = {}

    def ckind(self, t):
        """container kind of a class type: (kind, element type) or None"""
        t = unref(t)
        r = self._ck.get(t)
        if r is not None:
            return r if r != 0 else None
        r = self._ckind(t, 0)
        self._ck[t] = r if r else 0
        return r

    def _ckind(self, t, depth):
        n = t.split('<')[0]
        s = n.split('::')[-1]
        a = targs(t)
        if n.startswith('std::'):
            if s == 'vector' or s == 'array' or s == 'deque':
                return ('vec', a[0]) if a else None
            return None
        if s in ('arr', 'arrT', 'arr_ref', 'arr_align', 'fix_arr') and a:
            return ('vec', a[0])
        if s in ('arr2', 'arr2T', 'arr2_align', 'arr2b', 'arr2bT') and a:
            return ('arr2', a[0])
        if s == 'arr3' and a:
            return ('arr3', a[0])
        rec = self.F.records.get(t)
        if rec and depth < 4:
            for b in rec.get('bases', []):
                bn = b.get('n') if isinstance(b, dict) else b
                k = self._ckind(unref(bn), depth + 1)
                if k:
                    return k
        return None

    def elem_comp(self, et):
        return '[5]' if unref(et) == 'double' else '[]'

    # ---- cells ---------------------------------------------------------------
    def cell(self, st, base, path, node=None, isint=None):
        v = st.get(base, path)
        if v is not None:
            return v
        d = st.default(base, path)
        if d is not None:
            if d.prov == UNINIT or d.poly() is not None and d.poly().is_const():
                v = d
                st_ser = v
                return v
            nm = d.alts[0]
            v = d.with_(alts=(A(('hv', nm, base, path), bool(isint)),))
            if path and path[-1][0] == '#n':
                self.nonneg(v)
            st.put(base, path, v)
            return v
        v = self.initial(st, base, path, isint)
        st.put(base, path, v)
        return v

    def nonneg(self, v):
        a = v.poly().single_atom()
        P.ISINT[a] = True
        P.AFACTS.setdefault(a, [(Poly({(a,): -1}), '<=')])

    def initial(self, st, base, path, isint):
        if self.init_hook:
            v = self.init_hook(st, base, path, isint)
            if v is not None:
                return v
        if base[0] == 'G':
            v = self.global_init(base, path, st)
            if v is not None:
                return v
        if path and str(path[-1]).startswith('#n'):
            v = Val((A(('in', base, path), True),), prov=E0)
            self.nonneg(v)
            return v
        return Val((A(('in', base, path), bool(isint)),), prov=UNK)

    def global_init(self, base, path, st):
        g = self.F.globals.get('G:' + base[1])
        if g is None or path:
            return None
        if g.get('const') and g.get('init'):
            try:
                return self.ev(g['init'], st)
            except Dead:
                return None
        return None

    def expand(self, path):
        """the concrete cells a path stands for"""
        for i, p in enumerate(path):
            if p == '[5]':
                return [path[:i] + (r,) + path[i + 1:] for r in RES]
        return [path]

    def expand_lv(self, lv):
        p = lv.path
        for i, c in enumerate(p):
            if c == '[5]':
                k = sum(1 for x in p[:i] if x[0] == '[')
                ix = lv.idx[k] if k < len(lv.idx) else None
                r = residue(ix) if isinstance(ix, Poly) else None
                if r is None and isinstance(ix, Poly):
                    r = self.modof(ix)
                if r is not None:
                    return [p[:i] + (RES[r],) + p[i + 1:]]
                return [p[:i] + (q,) + p[i + 1:] for q in RES]
        return [p]

    MODS = {}

    def modof(self, p):
        """residue mod 5 using what is known about atoms"""
        r = 0
        for m, c in p.t.items():
            if isinstance(c, Fr):
                return None
            if m == ():
                r += c
            elif c % 5 == 0 and all(P.ISINT[a] for a in m):
                continue
            else:
                x = c
                for a in m:
                    k = self.MODS.get(a)
                    if k is None:
                        return None
                    x *= k
                r += x
        return r % 5

    def imp(self, ta):
        """the taints a condition hands on to what it controls"""
        if not self.hist:
            return ta & IMPLICIT
        return frozenset(x if x[0] != 'h:' else ('hc:', x[1]) for x in ta if x in IMPLICIT or x[0] in ('h:', 'hc:'))

    def tfor(self, base, taint):
        if not self.hist or not self.hist(base):
            return taint
        return frozenset(x if x[0] != 'hc:' else ('h:', x[1]) for x in taint)

    def joinv(self, a, b, name, taint=E0):
        """join of two values; name() gives the atom for an unknown mix"""
        if a is b:
            return a
        if a.alts == b.alts:
            alts = a.alts
        else:
            l = list(a.alts)
            for x in b.alts:
                if x not in l:
                    l.append(x)
            ph = self.phi(a, b, name) if name[0] == 'phi' else None
            if ph is not None:
                l = [ph]
            if len(l) > self.MAXALT:
                isint = all(isinstance(x, Poly) and x.isint() for x in l)
                alts = (A(name, isint),)
            else:
                alts = tuple(l)
        if a.ptrs == b.ptrs:
            ptrs = a.ptrs
        else:
            ptrs = tuple(list(a.ptrs) + [x for x in b.ptrs if x not in a.ptrs])
            if len(ptrs) > 48:
                ptrs = ptrs[:48]
        if a.mod is None and b.mod is None:
            mod = None
        else:
            ma, mb = self.vmod(a), self.vmod(b)
            mod = ma if ma == mb else None
        cond = a.cond if a.cond == b.cond else None
        null = a.null and b.null or bool(b.ptrs) and (a.null or a.const() == 0) or bool(a.ptrs) and (b.null or b.const() == 0)
        return Val(alts, a.taint | b.taint | taint, a.prov | b.prov, mod, ptrs, cond, null)

    def phi(self, a, b, name):
        """an atom that is one value or the other, depending on the way taken to a join"""
        if len(a.alts) != 1 or len(b.alts) != 1:
            return None
        x, y = a.alts[0], b.alts[0]
        if not isinstance(x, Poly) or not isinstance(y, Poly):
            return None
        if a.prov == UNINIT or b.prov == UNINIT:
            return None
        p = A(name, x.isint() and y.isint())
        i = p.single_atom()
        if i in x.atoms() or i in y.atoms():
            return A(('phix',) + name[1:], x.isint() and y.isint())
        P.PHI[i] = (name[1], x, y)
        m = self.vmod(a)
        if m is not None and m == self.vmod(b):
            self.MODS[i] = m
        else:
            self.MODS.pop(i, None)
        return p

    def vmod(self, v):
        if v.mod is not None:
            return v.mod
        r = None
        for x in v.alts:
            if not isinstance(x, Poly):
                return None
            k = residue(x)
            if k is None:
                k = self.modof(x)
            if k is None or (r is not None and r != k):
                return None
            r = k
        return r

    # ---- access events ---------------------------------------------------------
    def access(self, rw, lv, node, st, whole=False):
        h = self.hooks.get('access')
        if h:
            h(self, rw, lv, node, st, whole)

    def rd(self, lvs, node, st, t=None):
        """read a scalar"""
        t = t if t is not None else node.get('t', '')
        isint = self.is_int_t(t)
        res = None
        for lv in lvs:
            self.access('r', lv, node, st)
            v = None
            keys = self.expand_lv(lv)
            cols = set()
            for key in keys:
                c = self.cell(st, lv.base, key, node, isint)
                v = c if v is None else self.joinv(v, c, ('sum', lv.base, lv.path))
                cols.add(frozenset(p for p in c.prov if p[0] == 'col'))
            if len(cols) > 1:
                # some column, not known which
                v = v.with_(prov=v.prov | {('mixed', self.where(node))})
            if v.prov == UNINIT:
                self.uninit_ev.setdefault((id(node), self.frame.ctx), dict(
                    where=self.where(node), fn=self.fname(), lv=lv, node=node, stack=self.stack()))
                v = self.fresh('ui', node, isint, v.taint, UNK)
            elif has_elem(lv.path):
                if any(not (isinstance(x, Poly) and x.is_const()) and isinstance(x, Poly) for x in v.alts):
                    name = ('el', lv.base, lv.path, lv.idx, v.ser)
                    a = A(name, isint or all(isinstance(x, Poly) and x.isint() for x in v.alts))
                    aid = a.single_atom()
                    self.eldef[aid] = (lv, v)
                    src = v.poly()
                    if src is not None:
                        sa = src.single_atom()
                        if sa is not None and sa in P.AFACTS and aid not in P.AFACTS:
                            fs = []
                            for p, op in P.AFACTS[sa]:
                                if p.atoms() == {sa}:
                                    fs.append((P.rename(p, lambda x: aid if x == sa else x), op))
                            if fs:
                                P.AFACTS[aid] = fs
                    m = self.vmod(v)
                    if m is not None and P.ISINT[aid]:
                        self.MODS[aid] = m
                    ptrs = v.ptrs
                    v = Val((a,), v.taint, v.prov, m, ptrs, None)
            if lv.idx:
                tt = E0
                v = v.tainted(tt) if tt else v
            res = v if res is None else self.joinv(res, v, ('rdj', id(node), self.frame.ctx))
        if res is None:
            res = self.fresh('rd', node, isint)
        return res

    def wr(self, lvs, v, node, st):
        """write a scalar"""
        strong = len(lvs) == 1
        h = self.hooks.get('store')
        if h:
            v = h(self, lvs, v, node, st) or v
        for lv in lvs:
            self.access('w', lv, node, st)
            keys = self.expand_lv(lv)
            el = has_elem(lv.path)
            mix = len(keys) > 1 and any(p[0] == 'col' and p not in v.prov
                                        for k in keys for p in self.cell(st, lv.base, k, node).prov)
            if strong and not el:
                st.put(lv.base, keys[0], v)
                continue
            for k in keys:
                old = self.cell(st, lv.base, k, node)
                if el:
                    nv = self.joinv(old, v, ('sum', lv.base, lv.path))
                    nv.cond = None
                    if mix:
                        nv = nv.with_(prov=nv.prov | {('mixed', self.where(node))})
                else:
                    nv = self.joinv(old, v, ('wk', id(node), self.frame.ctx, lv.base, lv.path))
                if nv.mod is None:
                    pass
                st.put(lv.base, k, nv)
            if el and strong:
                self.note_write(lv, v, st)
            elif el:
                self.note_write(lv, None, st)

    def note_write(self, lv, v, st):
        """remember which elements the current iteration writes"""
        key = (lv.base, lv.path)
        old = st.mw.get(key)
        if old is None:
            st.mw[key] = (lv.idx if v is not None else None, frozenset([lv.idx]), v)
        else:
            must, may, ov = old
            if v is None:
                st.mw[key] = (None, may | {lv.idx}, None)
            elif must == lv.idx:
                st.mw[key] = (must, may | {lv.idx}, v)
            else:
                st.mw[key] = (lv.idx, may | {lv.idx}, v)

    # ---- objects --------------------------------------------------------------
    def clear(self, st, lv, default=None):
        """forget everything below an object; optional new default"""
        d = st.wdict(lv.base)
        n = len(lv.path)
        for p in self.expand(lv.path):
            for k in [k for k in d if k[:n] == p]:
                del d[k]
            if default is not None:
                d[p + ('#def',)] = default

    def under(self, st, lv):
        d = st.m.get(lv.base) or {}
        n = len(lv.path)
        out = []
        for p in self.expand_lv(lv):
            out += [(k[n:], v) for k, v in d.items() if k[:n] == p]
        return out

    def otaint(self, st, lv):
        t = E0
        for k, v in self.under(st, lv):
            t |= v.taint
        d = st.default(lv.base, lv.path)
        if d is not None:
            t |= d.taint
        elif self.init_hook and lv.base[0] == 'O':
            v = self.init_hook(st, lv.base, lv.path + ('?',), None)
            if v is not None:
                t |= v.taint
        return t

    def havoc(self, st, lv, node, taint=E0, prov=UNK):
        w = self.ws[-1] if self.ws else None
        v = Val((A(('hvd', id(node), self.frame.ctx, w)),), taint, prov)
        self.access('w', lv, node, st, True)
        if lv.path and has_elem(lv.path):
            # part of an array: weak
            for rel, old in self.under(st, lv):
                for p in self.expand_lv(lv):
                    if rel and rel[-1] == '#def':
                        continue
                    st.put(lv.base, p + rel, self.joinv(old, v, ('sum', lv.base, p + rel)))
            ks = self.expand_lv(lv)
            for p in ks:
                od = st.default(lv.base, p)
                st.put(lv.base, p + ('#def',), v if od is None else self.joinv(od, v, ('sum', lv.base, p)))
                c = st.get(lv.base, p)
                if c is not None:
                    st.put(lv.base, p, self.joinv(c, v, ('sum', lv.base, p)))
            return
        self.clear(st, lv, v)

    def copy_obj(self, src, dst, node, st):
        """assign one object to another"""
        if src == dst:
            return
        self.access('r', src, node, st, True)
        self.access('w', dst, node, st, True)
        und = self.under(st, src)
        strong = not has_elem(dst.path)
        n = len(dst.path)
        srce = has_elem(src.path)
        sd = st.default(src.base, src.path)
        if sd is None and src.base[0] in ('O', 'G') and not any(k == ('#def',) for k, v in und):
            w = self.ws[-1] if self.ws else None
            t = self.otaint(st, src)
            pv = E0
            if self.init_hook:
                x = self.init_hook(st, src.base, src.path + ('?',), None)
                if x is not None:
                    pv = x.prov
            sd = Val((A(('cp', id(node), self.frame.ctx, w)),), t, pv or UNK)
        if strong:
            self.clear(st, dst, sd)
            for p in self.expand_lv(dst):
                for k, v in und:
                    st.put(dst.base, p + k, v if not srce else self.unel(v, src, k, node))
            # a symbolic vector keeps its symbolic size
            return
        for p in self.expand_lv(dst):
            for k, v in und:
                if k and k[-1] == '#def':
                    old = st.get(dst.base, p + k)
                    st.put(dst.base, p + k, v if old is None else self.joinv(old, v, ('sum', dst.base, p + k)))
                    continue
                old = self.cell(st, dst.base, p + k)
                st.put(dst.base, p + k, self.joinv(old, v, ('sum', dst.base, p + k)))
                self.note_write(LV(dst.base, p + k, dst.idx), v, st)
            if sd is not None:
                od = st.default(dst.base, p)
                st.put(dst.base, p + ('#def',), sd if od is None else self.joinv(od, sd, ('sum', dst.base, p)))
        self.note_write(dst, K(0), st)

    def unel(self, v, src, k, node):
        if v.poly() is not None and v.poly().is_const() or v.prov == UNINIT:
            return v
        if all(isinstance(x, Poly) and x.is_const() for x in v.alts):
            return v
        isint = all(isinstance(x, Poly) and x.isint() for x in v.alts)
        return v.with_(alts=(A(('el', src.base, src.path + k, src.idx, v.ser), isint),))

    # ---- joins ----------------------------------------------------------------
    def joins(self, a, b, site, s0=None, taint=None):
        """join of two states"""
        if a is None:
            return b
        if b is None:
            return a
        if taint is None:
            s0 = s0 or E0
            taint = self.imp(frozenset(k for k, w in (a.split | b.split) - s0))
        r = State()
        r.facts = a.facts if a.facts == b.facts else self.joinfacts(a.facts, b.facts)
        P.SITE[site] = (a.facts - r.facts, b.facts - r.facts)
        r.split = a.split | b.split
        r.guard = a.guard & b.guard
        # must-writes
        if a.mw or b.mw:
            for k in set(a.mw) | set(b.mw):
                x, y = a.mw.get(k), b.mw.get(k)
                if x is None or y is None:
                    z = x or y
                    r.mw[k] = (None, z[1], None)
                elif x == y:
                    r.mw[k] = x
                else:
                    m = x[0] if x[0] == y[0] else None
                    v = None
                    if m is not None and x[2] is not None and y[2] is not None:
                        v = self.joinv(x[2], y[2], ('sum',) + k)
                    r.mw[k] = (m if v is not None else None, x[1] | y[1], v)
        m = r.m
        am, bm = a.m, b.m
        for base, da in am.items():
            db = bm.get(base)
            if db is da:
                m[base] = da
            elif db is None:
                m[base] = da
            else:
                m[base] = self.joind(base, da, db, a, b, site, taint)
        for base, db in bm.items():
            if base not in am:
                m[base] = db
        return r

    def joinfacts(self, fa, fb):
        r = fa & fb
        # keep facts one side has syntactically and the other implies
        da, db = fa - r, fb - r
        if da and db and len(da) + len(db) <= 24:
            extra = [f for f in da if entails(fb, f)] + [f for f in db if entails(fa, f)]
            if extra:
                r = r | frozenset(extra)
        return r

    def joind(self, base, da, db, sa, sb, site, taint):
        d = dict(da)
        if taint:
            taint = self.tfor(base, taint)
        for k, vb in db.items():
            va = da.get(k)
            if va is vb:
                continue
            if va is None:
                if k and k[-1] == '#def':
                    d[k] = vb
                    continue
                va = self.cell(sa, base, k)
                d[k] = va
                if va is vb:
                    continue
            if va.same(vb):
                if taint and va.alts and has_elem(k) and va.const() is None and not taint <= va.taint and va.prov != UNINIT:
                    # other elements of an array may have been written one way
                    d[k] = va.tainted(taint)
                continue
            if k and k[-1] == '#def':
                d[k] = self.joinv(va, vb, ('phid', site, base, k))
                continue
            t = taint if not va.same_value(vb) else E0
            el = has_elem(k)
            if not el:
                va, vb = self.unify(va, vb, sa, sb)
                if t and va.alts == vb.alts:
                    t = E0
            if t and not el and self.provably_equal(va, vb, sa, sb):
                t = E0
                vb = vb.with_(alts=va.alts)
            d[k] = self.joinv(va, vb, ('sum', base, k) if el else ('phi', site, base, k), t)
        for k, va in da.items():
            if k not in db:
                if k and k[-1] == '#def':
                    continue
                vb = self.cell(sb, base, k)
                if va.same(vb):
                    continue
                t = taint if not va.same_value(vb) else E0
                el = has_elem(k)
                d[k] = self.joinv(va, vb, ('sum', base, k) if el else ('phi', site, base, k), t)
        return d

    def unify(self, va, vb, sa, sb):
        """a value known on its way to be the one of the other way is written the same"""
        if len(va.alts) != 1 or len(vb.alts) != 1 or va.ptrs or vb.ptrs or va.prov == UNINIT or vb.prov == UNINIT:
            return va, vb
        p, q = va.alts[0], vb.alts[0]
        if not isinstance(p, Poly) or not isinstance(q, Poly) or p == q:
            return va, vb
        for x, y, st, w in ((q, p, sb, 0), (p, q, sa, 1)):
            i = x.single_atom()
            if i is None or i not in P.PHI:
                continue
            f = norm_fact(x.sub(y), '==')
            if f in st.facts or entails(st.facts, f):
                if w == 0:
                    return va, vb.with_(alts=va.alts)
                return va.with_(alts=vb.alts), vb
        return va, vb

    def provably_equal(self, va, vb, sa, sb):
        p, q = va.poly(), vb.poly()
        if p is None or q is None or va.ptrs or vb.ptrs or va.prov == UNINIT or vb.prov == UNINIT:
            return False
        return entails_split(sa.facts & sb.facts, (p.sub(q), '=='))

    def resplit(self, st, s0, *escs):
        if st is None:
            return
        x = s0
        for e in escs:
            if e is not None:
                x = x | e.split
        st.split = x

    # ---- conditions -------------------------------------------------------------
    def truth(self, c, st):
        k = c[0]
        if k == 'k':
            return c[1]
        if k == 'u':
            return None
        if k == 'not':
            x = self.truth(c[1], st)
            return None if x is None else not x
        if k == 'and':
            x, y = self.truth(c[1], st), self.truth(c[2], st)
            if x is False or y is False:
                return False
            return True if x and y else None
        if k == 'or':
            x, y = self.truth(c[1], st), self.truth(c[2], st)
            if x is True or y is True:
                return True
            return False if x is False and y is False else None
        if k == 'cmp':
            op, la, ra, fl = c[1:5]
            res = set()
            for x in la:
                for y in ra:
                    res.add(self.cmp1(op, x, y, st))
                    if None in res or len(res) > 1:
                        return None
            return res.pop() if res else None
        return None

    def cmp1(self, op, x, y, st):
        if not isinstance(x, Poly) or not isinstance(y, Poly):
            if x == NAN or y == NAN:
                return op == '!='
            if isinstance(x, str) and isinstance(y, str):
                a = 1 if x == PINF else -1
                b = 1 if y == PINF else -1
                return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[op]
            # infinity against a finite value (only constants and bounded atoms are finite)
            o = y if isinstance(x, str) else x
            if not self.finite(o):
                return None
            a = (1 if x == PINF else -1) if isinstance(x, str) else (-1 if y == PINF else 1)
            return {'<': a < 0, '<=': a < 0, '>': a > 0, '>=': a > 0, '==': False, '!=': True}[op]
        d = x.sub(y)
        if op in ('>', '>='):
            d = d.scale(-1)
            op = '<' if op == '>' else '<='
        f = norm_fact(d, op)
        c = const_truth(f)
        if c is not None:
            return c
        if entails_split(st.facts, f):
            return True
        if op == '==' or op == '!=':
            if op == '==':
                if entails_split(st.facts, norm_fact(d, '<')) or entails_split(st.facts, norm_fact(d, '>')) or \
                        entails_split(st.facts, (d, '!=')) or entails_split(st.facts, (d.scale(-1), '!=')):
                    return False
            else:
                if entails_split(st.facts, norm_fact(d, '<')) or entails_split(st.facts, norm_fact(d, '>')):
                    return True
                if (d.scale(-1), '!=') in st.facts:
                    return True
                if entails_split(st.facts, (d, '==')):
                    return False
            return None
        if entails_split(st.facts, negate(f)):
            return False
        return None

    def finite(self, p):
        if not isinstance(p, Poly):
            return False
        for a in p.atoms():
            if P.ISINT[a]:
                continue
            lo = hi = False
            for q, op in P.AFACTS.get(a, ()):
                if q.atoms() == {a}:
                    c = q.t.get((a,), 0)
                    if c > 0:
                        hi = True
                    elif c < 0:
                        lo = True
                    if op == '==':
                        lo = hi = True
            if not (lo and hi):
                return False
        return True

    def nanfree(self, p):
        """a value that is certainly not NaN"""
        return isinstance(p, Poly) and (p.isint() or self.finite(p))

    def assume(self, c, st, want):
        """refine st; None when the condition cannot have that value"""
        k = c[0]
        t = self.truth(c, st)
        if t is not None and t != want:
            return None
        if t is not None:
            return st
        if k == 'not':
            return self.assume(c[1], st, not want)
        if (k == 'and' and want) or (k == 'or' and not want):
            st = self.assume(c[1], st, want)
            if st is None:
                return None
            return self.assume(c[2], st, want)
        if k in ('and', 'or'):
            x, y = self.truth(c[1], st), self.truth(c[2], st)
            if x is not None:
                return self.assume(c[2], st, want)
            if y is not None:
                return self.assume(c[1], st, want)
            return st
        if k == 'cmp':
            op, la, ra, fl = c[1:5]
            if len(la) == 1 and len(ra) == 1 and isinstance(la[0], Poly) and isinstance(ra[0], Poly):
                if not want:
                    if fl and op in ('<', '<=', '>', '>=') and not (self.nanfree(la[0]) and self.nanfree(ra[0])):
                        return st
                    op = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}[op]
                d = la[0].sub(ra[0])
                if op in ('>', '>='):
                    d = d.scale(-1)
                    op = '<' if op == '>' else '<='
                f = norm_fact(d, op)
                st.facts = st.facts | {f}
                tid = self.thread_eq(f)
                if tid is not None:
                    st.guard = st.guard | {('thread', tid)}
                return self.refine(d, op, st)
            return st
        return st

    def refine(self, d, op, st, depth=0):
        """what d op 0 says about the way taken to the join that d comes from"""
        if depth > 6:
            return st
        at = d.atoms()
        if len(at) != 1:
            at = [a for a in at if a in P.PHI and P.PHI[a][0] and P.PHI[a][0][0] == 'lps']
            if len(at) != 1:
                return st
        i = next(iter(at))
        if d.t.get((i,)) is None or any(len(m) > 1 for m in d.t):
            return st
        nm = P.NAMES[i]
        if isinstance(nm, tuple) and nm and nm[0] == 'bool' and isinstance(nm[1], tuple):
            can = []
            for k in (0, 1):
                q = P.subst(d, {i: C(k)})
                x = q.const() if q is not None and q.is_const() else None
                if x is None or {'==': x == 0, '!=': x != 0, '<=': x <= 0, '<': x < 0}.get(op, True):
                    can.append(k)
            if not can:
                return None
            if len(can) == 1:
                return self.assume(nm[1], st, bool(can[0]))
            return st
        ph = P.PHI.get(i)
        if ph is None:
            return st
        site, x, y = ph
        can = []
        for k, v in ((0, x), (1, y)):
            q = P.subst(d, {i: v})
            if q is None:
                return st
            neg = {'==': '!=', '!=': '==', '<=': '>', '<': '>='}.get(op)
            if neg is None:
                return st
            if self.cmp1(neg, q, ZERO, st) is not True:
                can.append((k, q))
        if not can:
            return None
        if len(can) == 2:
            return st
        k, q = can[0]
        sf = P.SITE.get(site, ((), ()))
        st.facts = st.facts | frozenset(sf[k])
        if isinstance(site, tuple) and site[0] == 'lps':
            old = [f for f in st.facts if i in f[0].atoms() and f[0].t.get((i,)) is not None and len(f[0].atoms()) == 1]
            v = (x, y)[k]
            st.facts = st.facts | {norm_fact(Poly({(i,): 1}).sub(v), '==')}
            if not q.is_const():
                st.facts = st.facts | {norm_fact(q, op)}
                st = self.refine(q, op, st, depth + 1)
                if st is None:
                    return None
            for f in old:
                q2 = P.subst(f[0], {i: v})
                if q2 is not None and self.cmp1(f[1], q2, ZERO, st) is False:
                    return None
            return st
        if q.is_const():
            return st
        st.facts = st.facts | {norm_fact(q, op)}
        return self.refine(q, op, st, depth + 1)

    def thread_eq(self, f):
        p, op = f
        if op != '==':
            return None
        at = p.atoms()
        if len(at) == 1:
            a = next(iter(at))
            if P.NAMES[a] == ('omp', 'thread'):
                return -Fr(p.const()) / p.t.get((a,), 1)
        return None

    def address(self, name):
        p = A(name)
        P.AFACTS.setdefault(p.single_atom(), [(C(1).sub(p), '<=')])
        return p

    def condof(self, v, t=''):
        """condition tree of a value used as a truth value"""
        if v.cond is not None:
            return v.cond
        if v.ptrs or v.null:
            if v.ptrs and not v.null:
                return ('k', True)
            if v.null and not v.ptrs and v.const() == 0:
                return ('k', False)
            return ('cmp', '!=', v.alts, (ZERO,), False)
        return ('cmp', '!=', v.alts, (ZERO,), not self.is_int_t(t) if t else False)

    def evc(self, node, st):
        """evaluate a condition: (tree, taint)"""
        k = node['k']
        if k == 'bin' and node['op'] in ('&&', '||'):
            a, ta = self.evc(node['c'][0], st)
            op = node['op']
            t = self.truth(a, st)
            if t is not None:
                if t == (op == '||'):
                    return ('k', t), ta
                b, tb = self.evc(node['c'][1], st)
                return b, ta | tb
            # the right side is only evaluated sometimes
            if self.pure(node['c'][1]):
                s2 = st.copy()
                s2 = self.assume(a, s2, op == '&&')
                if s2 is None:
                    return a, ta
                b, tb = self.evc(node['c'][1], s2)
                # reading may have materialised cells; nothing else changed
            else:
                s0 = st.split
                s2 = st.copy()
                s2 = self.assume(a, s2, op == '&&') or s2
                s2.split = s2.split | self.toks(ta, node)
                b, tb = self.evc(node['c'][1], s2)
                j = self.joins(s2, st, (id(node), self.frame.ctx), None, self.imp(ta))
                self.become(st, j)
                st.split = s0
            return (('and' if op == '&&' else 'or'), a, b), ta | tb
        if k == 'un' and node['op'] == '!':
            a, ta = self.evc(node['c'][0], st)
            return ('not', a), ta
        if k == 'cast' and node.get('ck') in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean', 'NoOp') \
                and unref(node.get('t', '')) in ('bool', '_Bool'):
            return self.evc(node['c'][0], st)
        if k == 'cast' and node.get('ck') == 'IntegralCast' and node['c'][0].get('t') in ('bool', '_Bool'):
            return self.evc(node['c'][0], st)
        v = self.ev(node, st)
        return self.condof(v, node.get('t', '')), v.taint

    def become(self, st, j):
        st.m, st.own, st.facts, st.split, st.guard, st.mw = j.m, set(), j.facts, j.split, j.guard, j.mw

    def toks(self, taint, node):
        x = taint & self.splitk
        if self.hist:
            x = x | frozenset(('hc:', y[1]) for y in taint if y[0] in ('h:', 'hc:'))
        if not x:
            return E0
        w = self.where(node)
        return frozenset((k, w) for k in x)

    _pure = {}

    def pure(self, n):
        """no calls, assignments, increments or allocations below"""
        r = self._pure.get(id(n))
        if r is None:
            r = True
            st = [n]
            while st:
                x = st.pop()
                if isinstance(x, dict):
                    k = x.get('k')
                    if k in ('call', 'asg', 'new', 'delete', 'throw', 'ctor', 'lambda'):
                        r = False
                        break
                    if k in ('mcall', 'ocall') and not (x.get('sn') in ('size', 'operator[]', 'operator()', 'empty', 'data',
                                                                        'Lmax', 'Mmax', 'rank', 'num_ranks', 'master')):
                        r = False
                        break
                    if k == 'un' and x['op'] in ('++', '--'):
                        r = False
                        break
                    st.extend(v for v in x.values() if isinstance(v, (dict, list)))
                elif isinstance(x, list):
                    st.extend(x)
            self._pure[id(n)] = r
        return r

    # ---- statements ----------------------------------------------------------------
    def throwto(self, st, types, node):
        """record an exceptional exit of the current expression"""
        col = self.collect[-1]
        if col[0] is None:
            col[0] = st
        else:
            col[0] = self.joins(col[0], st, (id(node), self.frame.ctx, 'T'), E0)
        col[1] = col[1] | types

    def stmt(self, n, st):
        """execute a statement; the state is consumed"""
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Budget('analysis budget exceeded in ' + self.fname())
        k = n['k']
        m = getattr(self, 's_' + k, None)
        if m is not None:
            return m(n, st)
        return self.s_expr(n, st)

    def guarded(self, node, st, fn):
        """run fn collecting exceptions thrown by expressions"""
        self.collect.append([None, E0])
        try:
            n = fn()
        except Dead:
            n = None
        t, tt = self.collect.pop()
        return n, t, tt

    def addt(self, o, t, tt, node):
        if t is not None:
            o.k += 1
            o.t = t if o.t is None else self.joins(o.t, t, (id(node), self.frame.ctx, 'T', o.k), E0)
            o.tt = o.tt | tt
        return o

    def s_expr(self, n, st):
        s0 = st.split
        def f():
            if self.is_class(n.get('t', '')) and n['k'] not in ('throw',):
                self.evo(n, st)
            else:
                self.ev(n, st)
            return st
        r, t, tt = self.guarded(n, st, f)
        o = Out(r)
        if t is not None and r is not None:
            self.resplit(r, r.split, t) if (t.split - s0) else None
        return self.addt(o, t, tt, n)

    def s_null_s(self, n, st):
        return Out(st)

    def s_sother(self, n, st):
        return Out(st)

    def s_block(self, n, st):
        return self.seq(n.get('c', []), st, n)

    def merge(self, o, p, node, s0):
        """collect the exits of p into o (not the normal one)"""
        for a in ('b', 'c', 'r', 't'):
            y = getattr(p, a)
            if y is not None:
                x = getattr(o, a)
                o.k += 1
                setattr(o, a, y if x is None else self.joins(x, y, (id(node), self.frame.ctx, a, o.k), s0))
        o.tt = o.tt | p.tt
        return o

    def seq(self, l, st, node):
        o = Out()
        s0 = st.split
        for x in l:
            p = self.stmt(x, st)
            self.merge(o, p, node, s0)
            st = p.n
            if st is None:
                break
        o.n = st
        return o

    def s_decl(self, n, st):
        def f():
            for v in n['vars']:
                self.declare(v, st, n)
            return st
        s0 = st.split
        r, t, tt = self.guarded(n, st, f)
        o = Out(r)
        if t is not None and r is not None and (t.split - s0):
            self.resplit(r, r.split, t)
        return self.addt(o, t, tt, n)

    def newbase(self, d):
        fr = self.frame
        b = ('L', fr.ctx, d)
        fr.vars[d] = b
        fr.bases.append(b)
        return b

    def declare(self, v, st, n):
        t = v['t']
        if v.get('static') or v.get('sk') == 'static':
            b = ('S', v['d'] if v['d'][0] != 'L' else self.frame.func['fid'] + ':' + v['n'])
            self.frame.vars[v['d']] = b
            if b not in st.m:
                if isref(t) and v.get('init') is not None:
                    st.put(b, ('&',), Val((A(('ref', id(v))),), ptrs=tuple(self.lvs(v['init'], st))))
                elif v.get('init') is not None and not self.is_class(t) and not unref(t).endswith(']'):
                    val = self.ev(v['init'], st)
                    cst = v['init'].get('cv') is not None or val.const() is not None
                    st.put(b, (), val if not v.get('constinit', True) or True else val)
                elif v.get('init') is not None:
                    self.construct(LV(b), t, v['init'], st)
                else:
                    st.put(b, (), K(0, INIT0))
            return
        b = self.newbase(v['d'])
        lv = LV(b)
        if isref(t):
            if v.get('init') is None:
                return
            ls = self.lvs(v['init'], st)
            st.m[b] = {}
            st.own.add(b)
            st.put(b, ('&',), Val((A(('ref', id(v))),), ptrs=tuple(ls)))
            return
        st.m[b] = {}
        st.own.add(b)
        init = v.get('init')
        if self.is_class(t) or unref(t).endswith(']'):
            self.construct(lv, t, init, st, v)
        elif init is None:
            st.put(b, (), Val((A(('ui', b)),), prov=UNINIT))
            self.access('d', lv, n, st)
        else:
            st.put(b, (), self.conv(self.ev(init, st), init.get('t', ''), t, init, st))

    def s_return(self, n, st):
        fr = self.frame
        o = Out()
        s0 = st.split
        def f():
            e = n.get('v') if isinstance(n.get('v'), dict) else (n['c'][0] if n.get('c') else None)
            if e is None:
                return st
            rb = ('R', fr.ctx)
            st.m[rb] = {}
            st.own.add(rb)
            rt = fr.rett
            if fr.isref:
                ls = self.lvs(e, st)
                st.put(rb, ('&',), Val((A(('ref', id(n))),), ptrs=tuple(ls)))
            elif self.is_class(rt):
                self.construct(LV(rb), rt, e, st)
            elif unref(rt) != 'void':
                st.put(rb, (), self.conv(self.ev(e, st), e.get('t', ''), rt, e, st))
            else:
                self.ev(e, st)
            return st
        r, t, tt = self.guarded(n, st, f)
        o.r = r
        return self.addt(o, t, tt, n)

    def s_break(self, n, st):
        o = Out()
        o.b = st
        return o

    def s_continue(self, n, st):
        o = Out()
        o.c = st
        return o

    def s_if(self, n, st):
        s0 = st.split
        o = Out()
        pre = []
        if n.get('init'):
            pre.append(n['init'])
        if n.get('cvar'):
            pre.append(n['cvar'])
        if pre:
            p = self.seq([x if x.get('k') in ('decl', 'block') else {'k': 'decl', 'vars': [x], 'l': n['l']} for x in pre], st, n)
            self.merge(o, p, n, s0)
            if p.n is None:
                return o
            st = p.n
        box = {}
        def f():
            box['c'] = self.evc(n['cond'], st)
            return st
        r, t, tt = self.guarded(n, st, f)
        self.addt(o, t, tt, n)
        if r is None:
            return o
        s0c = st.split
        c, ta = box['c']
        tv = self.truth(c, st)
        h = self.hooks.get('branch')
        if h:
            h(self, n, c, ta, tv, st)
        if tv is True:
            p = self.stmt(n['then'], st)
            self.merge(o, p, n, s0)
            o.n = p.n
            return o
        if tv is False:
            if n.get('else'):
                p = self.stmt(n['else'], st)
                self.merge(o, p, n, s0)
                o.n = p.n
            else:
                o.n = st
            return o
        g0 = st.guard
        s1 = st.copy()
        tok = self.toks(ta, n)
        s1 = self.assume(c, s1, True)
        s2 = self.assume(c, st, False)
        p1 = p2 = None
        e1 = e2 = None
        if s1 is not None:
            s1.split = s1.split | tok
            p1 = self.stmt(n['then'], s1)
            e1 = p1.n
            self.merge(o, p1, n, s0)
        if s2 is not None:
            s2.split = s2.split | tok
            if n.get('else'):
                p2 = self.stmt(n['else'], s2)
                self.merge(o, p2, n, s0)
                e2 = p2.n
            else:
                e2 = s2
        # what differs after the join depends on the condition
        o.n = self.joins(e1, e2, (id(n), self.frame.ctx), None, self.imp(ta))
        if o.n is not None:
            o.n.guard = g0 if (e1 is not None and e2 is not None) else o.n.guard & g0 if True else g0
            self.resplit(o.n, s0c, o.b, o.c, o.r, o.t)
        return o

    def s_switch(self, n, st):
        s0 = st.split
        o = Out()
        box = {}
        def f():
            box['v'] = self.ev(n['cond'], st)
            return st
        r, t, tt = self.guarded(n, st, f)
        self.addt(o, t, tt, n)
        if r is None:
            return o
        v = box['v']
        # flatten the body into (labels, statement) items
        items = []
        def flat(x):
            labs = []
            while x.get('k') in ('case', 'default'):
                labs.append(x)
                x = x.get('sub')
                if x is None:
                    x = {'k': 'null_s', 'l': n['l']}
            items.append((labs, x))
        body = n['body']
        for x in (body.get('c', []) if body['k'] == 'block' else [body]):
            flat(x)
        has_def = any(l['k'] == 'default' for labs, _ in items for l in labs)
        cvs = []
        for i, (labs, _) in enumerate(items):
            for l in labs:
                if l['k'] == 'case':
                    cvs.append((self.caseval(l), i))
                else:
                    cvs.append((None, i))
        c = v.const()
        starts = set()
        if c is not None:
            hit = [i for cv, i in cvs if cv == c]
            if hit:
                starts.add(hit[0])
            else:
                d = [i for cv, i in cvs if cv is None]
                if d:
                    starts.add(d[0])
                else:
                    o.n = st
                    return o
        elif v.alts and all(isinstance(x, Poly) and x.is_const() for x in v.alts):
            for x in v.alts:
                hit = [i for cv, i in cvs if cv == x.const()]
                if hit:
                    starts.add(hit[0])
                else:
                    d = [i for cv, i in cvs if cv is None]
                    starts.add(d[0] if d else -1)
        else:
            starts = set(i for cv, i in cvs)
            if not has_def:
                starts.add(-1)
        tok = self.toks(v.taint, n) if len(starts) > 1 else E0
        ta = self.imp(v.taint) if len(starts) > 1 else E0
        res = None
        first = True
        for s in sorted(starts):
            s1 = st.copy()
            s1.split = s1.split | tok
            if s < 0:
                end = s1
            else:
                if v.poly() is not None:
                    cs = [cv for cv, i in cvs if i == s and cv is not None]
                    if len(cs) == 1:
                        s1.facts = s1.facts | {norm_fact(v.poly().sub(C(cs[0])), '==')}
                p = self.seq([x for _, x in items[s:]], s1, n)
                end = p.n
                if p.b is not None:
                    end = self.joins(end, p.b, (id(n), self.frame.ctx), None, ta | self.imp(frozenset(k for k, w in (p.b.split | (end.split if end else E0)) - s0)))
                    p.b = None
                self.merge(o, p, n, s0)
            res = end if first or res is None else self.joins(res, end, (id(n), self.frame.ctx), None, ta)
            first = False
        o.n = res
        self.resplit(o.n, s0, o.c, o.r, o.t)
        return o

    def caseval(self, l):
        v = l.get('v')
        if isinstance(v, dict):
            if 'cv' in v:
                return v['cv']
            if v.get('k') == 'int':
                return v['v']
            return None
        return v

    def s_case(self, n, st):
        return self.stmt(n['sub'], st) if n.get('sub') else Out(st)

    s_default = s_case

    def s_label(self, n, st):
        return self.stmt(n['sub'], st) if n.get('sub') else Out(st)

    def s_goto(self, n, st):
        return Out(None)

    def s_try(self, n, st):
        s0 = st.split
        body = n['body']
        mark = self.clock
        p = self.stmt(body, st)
        o = Out(p.n)
        o.b, o.c, o.r = p.b, p.c, p.r
        caught = []
        if self.throwlog:
            for k, e in list(self.throwlog.items()):
                if e['seq'] <= mark:
                    continue
                left = frozenset(x for x in e['types'] if not any(
                    h.get('all') or self.catches(unref(h.get('t', '')), x) for h in n['handlers']))
                if not left:
                    del self.throwlog[k]
                elif left != e['types']:
                    e['types'] = left
        if p.t is not None:
            rest = p.tt
            allh = False
            for h in n['handlers']:
                s1 = p.t.copy()
                if h.get('all'):
                    allh = True
                else:
                    ht = unref(h.get('t', ''))
                    m = frozenset(x for x in rest if self.catches(ht, x))
                    if not m:
                        continue
                    rest = rest - m
                old = self.opts.get('curexc')
                self.exc_stack = getattr(self, 'exc_stack', [])
                self.exc_stack.append(p.tt)
                if h.get('var') and isinstance(h['var'], dict) and h['var'].get('d'):
                    b = self.newbase(h['var']['d'])
                    s1.m[b] = {}
                    s1.own.add(b)
                    s1.put(b, ('#def',), Val((A(('exc', id(h))),), prov=UNK))
                elif h.get('d'):
                    b = self.newbase(h['d'])
                    s1.m[b] = {}
                    s1.own.add(b)
                    s1.put(b, ('#def',), Val((A(('exc', id(h))),), prov=UNK))
                q = self.stmt(h['body'], s1)
                self.exc_stack.pop()
                caught.append(q)
                if allh:
                    rest = E0
                    break
            if rest and not allh:
                o.t = p.t
                o.tt = rest
        for q in caught:
            x = q.n
            self.merge(o, q, n, s0)
            o.n = self.joins(o.n, x, (id(n), self.frame.ctx), s0)
        self.resplit(o.n, s0, o.b, o.c, o.r, o.t)
        return o

    def catches(self, ht, t):
        if ht == t:
            return True
        anc = {'std::runtime_error': ['std::exception'], 'std::bad_alloc': ['std::exception'],
               'std::logic_error': ['std::exception'], 'std::invalid_argument': ['std::logic_error', 'std::exception'],
               'std::out_of_range': ['std::logic_error', 'std::exception'], 'std::length_error': ['std::logic_error', 'std::exception'],
               'std::domain_error': ['std::logic_error', 'std::exception'], 'std::range_error': ['std::runtime_error', 'std::exception'],
               'std::overflow_error': ['std::runtime_error', 'std::exception']}
        if ht in anc.get(t, []):
            return True
        r = self.F.records.get(t)
        if r:
            for b in r.get('bases', []):
                bn = unref(b.get('n') if isinstance(b, dict) else b)
                if self.catches(ht, bn):
                    return True
        return False

    # ---- loops -------------------------------------------------------------------------
    def s_for(self, n, st):
        s0 = st.split
        o = Out()
        if n.get('init'):
            p = self.stmt(n['init'], st)
            self.merge(o, p, n, s0)
            if p.n is None:
                return o
            st = p.n
        return self.loop(n, st, o, s0, n.get('cond'), n['body'], n.get('inc'))

    def s_while(self, n, st):
        return self.loop(n, st, Out(), st.split, n['cond'], n['body'], None)

    def s_do(self, n, st):
        return self.loop(n, st, Out(), st.split, n['cond'], n['body'], None, post=True)

    def s_rfor(self, n, st):
        """for (x : range)"""
        o = Out()
        s0 = st.split
        box = {}
        def f():
            box['r'] = self.evo(n['range'], st) if self.is_class(n['range'].get('t', '')) else self.lvs(n['range'], st)
            return st
        r, t, tt = self.guarded(n, st, f)
        self.addt(o, t, tt, n)
        if r is None:
            return o
        rl = box['r'][0]
        rt = n['range'].get('t', '')
        ck = self.ckind(rt)
        var = n['var']
        comp = '[]'
        if ck:
            comp = self.elem_comp(ck[1])
            size = self.cell(st, rl.base, rl.path + ('#n',))
        else:
            m = re.search(r'\[(\d+)\]$', unref(rt))
            size = K(int(m.group(1))) if m else self.fresh('rn', n, True)
        ib = self.newbase('it%d' % id(n))
        st.m[ib] = {}
        st.own.add(ib)
        st.put(ib, (), K(0))
        def cond(s):
            i = self.cell(s, ib, ())
            return ('cmp', '<', i.alts, size.alts, False), size.taint | i.taint
        def head(s):
            i = self.cell(s, ib, ()).poly() or A(('itx', id(n)))
            el = rl.e(comp, i)
            vb = self.newbase(var['d'])
            s.m[vb] = {}
            s.own.add(vb)
            if isref(var['t']):
                s.put(vb, ('&',), Val((A(('ref', id(n))),), ptrs=(el,)))
            elif self.is_class(var['t']):
                self.copy_obj(el, LV(vb), n, s)
            else:
                s.put(vb, (), self.rd([el], n, s, var['t']))
        def inc(s):
            i = self.cell(s, ib, ())
            s.put(ib, (), i.with_(alts=tuple(x.add(ONE) for x in i.alts)))
        return self.loop(n, st, o, s0, cond, n['body'], inc, head=head)

    def loop(self, n, st, o, s0, cond, body, inc, post=False, head=None):
        self.stats['loops'] += 1
        fr = self.frame
        # try to unroll short loops with constant trip counts
        if not post and cond is not None:
            u = self.unroll(n, st, o, s0, cond, body, inc, head)
            if u is not None:
                return u
        octx = fr.ctx
        lk = (id(n), octx)
        Kp = A(('K', lk, self.ws[-1] if self.ws else None), True)
        Ka = Kp.single_atom()
        P.AFACTS.setdefault(Ka, [(Kp.scale(-1), '<=')])
        wsname = None
        omp = n.get('_omp')
        if omp:
            self.ws.append(lk)
            h = self.hooks.get('ws')
            if h:
                h(self, n, Ka, True, omp, st)
            # a worksharing loop counts its own iterations
            Kp = A(('K', lk, lk), True)
            Ka = Kp.single_atom()
            P.AFACTS.setdefault(Ka, [(Kp.scale(-1), '<=')])
        outer_mw = st.mw
        entry = st
        entry.mw = {}
        basef = frozenset(f for f in entry.facts if not self.mentions(f, lk))
        changed = {}      # (base,path) -> [taint, prov, mod, ptrs, mode, data]
        res = None
        ph_h = self.hooks.get('loop')
        clock0 = self.clock
        for it in range(14):
            if it:
                self.forget(clock0)
            s = entry.copy()
            s.mw = {}
            s.facts = basef
            # widened cells
            for (b, p), c in changed.items():
                self.put_widened(s, entry, b, p, c, lk, Kp)
                if omp and self.opts.get('order') and not has_elem(p) and b[-1] not in self.loopvars(n) and not (b[0] == 'L' and p):
                    # handed on from one iteration to the next one of the same thread
                    v = s.m.get(b, {}).get(p)
                    if v is not None and not (p and str(p[-1]).startswith('#')):
                        s.put(b, p, v.tainted(frozenset(['carry'])))
            inv = self.loop_invariants(s, entry, changed, lk, Kp, cond)
            s.facts = s.facts | inv
            if ph_h:
                ph_h(self, n, 'begin')
            res = self.iteration(n, s, cond, body, inc, post, head, lk)
            if ph_h:
                ph_h(self, n, 'end')
            back = res['back']
            grew = False
            if back is not None:
                grew = self.grow(entry, s, back, changed, lk, Kp, res['head'])
            # taints of the condition
            ct = self.imp(res['ct'])
            if back is not None and ct:
                for k, c in changed.items():
                    x = self.tfor(k[0], ct)
                    if not x <= c[0]:
                        c[0] = c[0] | x
                        grew = True
            if not grew:
                break
            if it > 8:
                for c in changed.values():
                    c[4] = 'top'
        # exits
        q = res['out']
        ex = res['exit']
        if omp:
            self.ws.pop()
        pend = []
        if ex is not None and res['back'] is not None and q.b is None:
            pend = self.cover(n, ex, res, changed, entry, lk, Kp)
        # cells written only under element coverage
        o.r = q.r if o.r is None else (o.r if q.r is None else self.joins(o.r, q.r, (id(n), octx, 'r'), s0))
        if q.t is not None:
            self.addt(o, q.t, q.tt, n)
        if ex is not None:
            ex.mw = dict(outer_mw)
            for lv, v, may in pend:
                old = ex.mw.get((lv.base, lv.path))
                ex.mw[(lv.base, lv.path)] = (lv.idx, (old[1] if old else E0) | frozenset([lv.idx]), v)
            if res['back'] is not None:
                pk = set((lv.base, lv.path) for lv, v, may in pend)
                for k, (must, may, v) in res['back'].mw.items():
                    if k not in pk:
                        old = ex.mw.get(k)
                        ex.mw[k] = (None, (old[1] if old else E0) | may, None)
        if q.b is not None:
            q.b.mw = dict((k, (None, v[1], None)) for k, v in q.b.mw.items())
            ex = self.joins(ex, q.b, (id(n), octx, 'b'), s0, self.imp(frozenset(k for k, w in (q.b.split | (ex.split if ex else E0)) - s0) | res['ct']))
        o.n = ex
        self.resplit(o.n, s0, o.r, o.t)
        return o

    def mentions(self, f, lk):
        for a in f[0].atoms():
            if self.born_in(a, lk):
                return True
        return False

    _born = {}

    def born_in(self, a, lk):
        key = (a, lk)
        r = self._born.get(key)
        if r is None:
            r = self._bornrec(P.NAMES[a], lk, 0)
            self._born[key] = r
        return r

    def _bornrec(self, nm, lk, d):
        if isinstance(nm, tuple):
            if nm and nm[0] in ('K', 'lp') and len(nm) > 1 and nm[1] == lk:
                return True
            return any(self._bornrec(x, lk, d + 1) for x in nm)
        if isinstance(nm, Poly):
            return any(self.born_in(a, lk) for a in nm.atoms())
        if isinstance(nm, LV):
            return any(self._bornrec(x, lk, d + 1) for x in nm.idx)
        return False

    def loopvars(self, n):
        out = set()
        for d in ((n.get('init') or {}).get('c') or (n.get('init') or {}).get('vars') or []):
            if isinstance(d, dict) and d.get('d'):
                out.add(d['d'])
        for x in (n.get('init'), n.get('inc')):
            if x and x.get('k') in ('asg', 'un') and x['c'][0].get('k') == 'ref':
                out.add(x['c'][0].get('d'))
        return out

    def put_widened(self, s, entry, b, p, c, lk, Kp):
        taint, prov, mod, ptrs, mode, data = c[:6]
        if b not in entry.m and b not in s.m:
            return
        if mode == 'ind':
            p0, step = data
            v = Val((p0.add(step.mul(Kp)),), taint, prov, mod, ptrs)
        elif mode == 'pind':
            lvs = []
            for lv, st in data:
                if st is None:
                    lvs.append(lv)
                else:
                    ix = lv.idx[:-1] + (lv.idx[-1].add(st.mul(Kp)),)
                    lvs.append(LV(lv.base, lv.path, ix))
            v = Val((A(('lp', lk, b, p)),), taint, prov, mod, tuple(lvs))
        elif mode == 'alts':
            v = Val(data, taint, prov, mod, ptrs)
        elif mode == 'two':
            a = A(('lp', lk, b, p), True)
            v = Val((a,), taint, prov, mod, ptrs)
            P.PHI[a.single_atom()] = (('lps', lk, b, p), data[0], data[1])
        else:
            isint = bool(data)
            a = A(('lp', lk, b, p), isint)
            P.PHI.pop(a.single_atom(), None)
            v = Val((a,), taint, prov, mod, ptrs)
            if mod is not None and isint:
                self.MODS[a.single_atom()] = mod
        s.put(b, p, v)

    def loop_invariants(self, s, entry, changed, lk, Kp, cond):
        """facts that hold at the head of every iteration"""
        out = set()
        for (b, p), c in changed.items():
            if c[4] == 'mono' or (c[4] == 'top' and len(c) > 6):
                pass
            if c[4] in ('top', 'mono') and len(c) > 6 and c[6] is not None:
                p0, sg = c[6]
                a = A(('lp', lk, b, p), True)
                if sg > 0:
                    out.add(norm_fact(p0.sub(a), '<='))
                else:
                    out.add(norm_fact(a.sub(p0), '<='))
        # bound of the condition in the previous iteration
        cd = getattr(self, '_loopcond', {}).get(lk)
        if cd is not None:
            for f in cd:
                out.add(f)
        return frozenset(out)

    def grow(self, entry, s, back, changed, lk, Kp, headst):
        """compare the state at the back edge with the assumed one"""
        grew = False
        lc = getattr(self, '_loopcond', None)
        if lc is None:
            lc = self._loopcond = {}
        for b, db in back.m.items():
            ds = headst.m.get(b)
            if ds is db:
                continue
            if b not in entry.m and b[0] not in ('O', 'G', 'S'):
                continue      # lives inside the body
            keys = set(db)
            if ds:
                keys |= set(ds)
            for k in keys:
                vb = db.get(k)
                vs = ds.get(k) if ds else None
                if vb is vs:
                    continue
                if k and k[-1] == '#def':
                    if vb is None:
                        continue
                    e = entry.get(b, k)
                    if vs is not None and vs.same(vb):
                        continue
                    if e is None or (b, k) in changed:
                        c = changed.get((b, k))
                        if c is None:
                            changed[(b, k)] = [vb.taint, vb.prov, vb.mod, vb.ptrs, 'alts', vb.alts, None]
                            grew = True
                        else:
                            g = self.growc(c, vb)
                            if g:
                                grew = True
                        continue
                    changed[(b, k)] = [e.taint | vb.taint, e.prov | vb.prov, None, (), 'alts',
                                       e.alts if e.alts == vb.alts else (A(('lpd', lk, b, k)),), None]
                    grew = True
                    continue
                if vs is None:
                    vs = self.cell(headst, b, k)
                if vb is None:
                    vb = self.cell(back, b, k)
                if vs.same(vb):
                    continue
                c = changed.get((b, k))
                if c is None:
                    e = entry.get(b, k)
                    if e is None:
                        e = self.cell(entry, b, k)
                        if vb.same(e):
                            continue
                    el = has_elem(k)
                    if el:
                        # summaries: keep as a joined value
                        j = self.joinv(e, vb, ('sum', b, k))
                        changed[(b, k)] = [j.taint, j.prov, j.mod, j.ptrs, 'alts', self.elalts(j, b, k, lk), None]
                        grew = True
                        continue
                    isint = (e.prov == UNINIT or all(isinstance(x, Poly) and x.isint() for x in e.alts)) and \
                        all(isinstance(x, Poly) and x.isint() for x in vb.alts)
                    mode, data = 'top', isint
                    pe, pb = e.poly(), vb.poly()
                    mod = None
                    if pe is not None and pb is not None and e.prov != UNINIT and not e.ptrs and not vb.ptrs:
                        dlt = pb.sub(pe)
                        if not any(self.born_in(a, lk) for a in dlt.atoms()) and isint:
                            mode, data = 'ind', (pe, dlt)
                    elif e.ptrs and len(e.ptrs) == len(vb.ptrs) and all(
                            x.base == y.base and x.path == y.path and len(x.idx) == len(y.idx)
                            for x, y in zip(e.ptrs, vb.ptrs)):
                        pd = []
                        for x, y in zip(e.ptrs, vb.ptrs):
                            if x.idx and x.idx[:-1] == y.idx[:-1] and isinstance(x.idx[-1], Poly) and isinstance(y.idx[-1], Poly):
                                dlt = y.idx[-1].sub(x.idx[-1])
                                if any(self.born_in(a, lk) for a in dlt.atoms()):
                                    pd = None
                                    break
                                pd.append((x, dlt))
                            elif x == y:
                                pd.append((x, None))
                            else:
                                pd = None
                                break
                        if pd is not None:
                            mode, data = 'pind', pd
                    if e.prov == UNINIT and mode != 'ind':
                        mode, data = 'top', isint
                    ve, vm = self.vmod(e), self.vmod(vb)
                    mod = ve if ve == vm else None
                    ptrs = tuple(list(e.ptrs) + [x for x in vb.ptrs if x not in e.ptrs])[:6]
                    if mode == 'top' and ptrs:
                        ptrs = self.widenptrs(ptrs, lk)
                    changed[(b, k)] = [e.taint | vb.taint, e.prov | vb.prov, mod, ptrs, mode, data,
                                       self.mono(e, vb, None, isint)]
                    grew = True
                else:
                    if c[4] == 'ind':
                        p0, step = c[5]
                        want = vs.poly().add(step) if vs.poly() is not None else None
                        if vb.poly() is None or want is None or vb.poly() != want:
                            isint = all(isinstance(x, Poly) and x.isint() for x in vb.alts)
                            if isint and p0.isint() and self.oneof(vb, p0.add(step)):
                                c[4], c[5], c[6] = 'two', (p0, p0.add(step)), None
                            else:
                                c[4], c[5] = 'top', isint
                                c[6] = self.mono(Val((p0,)), vb, vs, isint) if isint else None
                            grew = True
                        if self.growc(c, vb, False):
                            grew = True
                    elif c[4] == 'pind':
                        ok = len(vb.ptrs) == len(vs.ptrs)
                        if ok:
                            for x, y, (lv, stp) in zip(vs.ptrs, vb.ptrs, c[5]):
                                if stp is None:
                                    ok = ok and x == y
                                elif not (x.base == y.base and x.path == y.path and x.idx and y.idx and
                                          x.idx[:-1] == y.idx[:-1] and y.idx[-1].sub(x.idx[-1]) == stp):
                                    ok = False
                        if not ok:
                            ptrs = tuple(list(vs.ptrs) + [x for x in vb.ptrs if x not in vs.ptrs])[:6]
                            c[3] = self.widenptrs(ptrs, lk)
                            c[4], c[5] = 'top', False
                            grew = True
                        if self.growc(c, vb, False):
                            grew = True
                    elif c[4] == 'two':
                        if not self.among(vb, vs, c[5], back.facts):
                            isint = all(isinstance(x, Poly) and x.isint() for x in vb.alts)
                            c[4], c[5] = 'top', isint
                            c[6] = None
                            grew = True
                        if self.growc(c, vb, False):
                            grew = True
                    elif c[4] == 'alts':
                        j = self.joinv(vs, vb, ('sum', b, k))
                        na = self.elalts(j, b, k, lk) if has_elem(k) else j.alts
                        if na != c[5]:
                            c[5] = na if len(na) <= 3 else (A(('sum', b, k)),)
                            grew = True
                        if self.growc(c, j):
                            grew = True
                    else:
                        if self.growc(c, vb):
                            grew = True
                        isint = all(isinstance(x, Poly) and x.isint() for x in vb.alts)
                        if c[5] and not isint:
                            c[5] = False
                            c[6] = None
                            grew = True
                        if c[6] is not None:
                            m = self.mono(None, vb, vs, isint)
                            if m is None or m[1] != c[6][1]:
                                c[6] = None
                                grew = True
        # what the condition says about the previous iteration
        if headst is not None:
            pass
        return grew

    def oneof(self, v, p, d=0):
        """p is one of the values v may stand for"""
        for x in v.alts if isinstance(v, Val) else (v,):
            if not isinstance(x, Poly):
                continue
            if x == p:
                return True
            i = x.single_atom()
            ph = P.PHI.get(i) if i is not None else None
            if ph is not None and d < 5 and (self.oneof(ph[1], p, d + 1) or self.oneof(ph[2], p, d + 1)):
                return True
        return False

    def among(self, v, vs, two, facts, d=0):
        """v is never anything but the head value or one of the two"""
        for x in v.alts if isinstance(v, Val) else (v,):
            if not isinstance(x, Poly):
                return False
            if x in two or x == vs.poly() or any(P.entails_split(facts, (x.sub(t), '==')) for t in two):
                continue
            i = x.single_atom()
            ph = P.PHI.get(i) if i is not None else None
            if ph is None or d >= 5:
                return False
            if not (self.among(ph[1], vs, two, facts, d + 1) and self.among(ph[2], vs, two, facts, d + 1)):
                return False
        return True

    def elalts(self, j, b, k, lk):
        if all(isinstance(x, Poly) and x.is_const() for x in j.alts):
            return j.alts
        if len(j.alts) == 1 and isinstance(j.alts[0], Poly) and not any(self.born_in(a, lk) for a in j.alts[0].atoms()):
            return j.alts
        return (A(('sum', b, k)),)

    def widenptrs(self, ptrs, lk):
        out = []
        for lv in ptrs:
            if lv.idx:
                ix = lv.idx[:-1] + (A(('lp', lk, 'px', lv.base, lv.path), True),)
                lv = LV(lv.base, lv.path, ix)
            if lv not in out:
                out.append(lv)
        return tuple(out)

    def mono(self, e, vb, vs, isint):
        """(start, sign) when every update moves the value in one direction"""
        if not isint:
            return None
        if vs is None:
            p0 = e.poly()
            if p0 is None or e.prov == UNINIT:
                return None
            ds = [x.sub(p0) for x in vb.alts]
        else:
            p0 = e.poly() if e is not None else ZERO
            q = vs.poly()
            if q is None or p0 is None:
                return None
            ds = [x.sub(q) for x in vb.alts]
        if all(d.is_const() and d.const() >= 0 for d in ds):
            return (p0, 1)
        if all(d.is_const() and d.const() <= 0 for d in ds):
            return (p0, -1)
        return None

    def growc(self, c, v, ptrs=True):
        g = False
        if not v.taint <= c[0]:
            c[0] = c[0] | v.taint
            g = True
        if not v.prov <= c[1]:
            c[1] = c[1] | v.prov
            g = True
        if c[2] is not None and self.vmod(v) != c[2]:
            c[2] = None
            g = True
        if ptrs and v.ptrs and not set(v.ptrs) <= set(c[3]):
            new = tuple(list(c[3]) + [x for x in v.ptrs if x not in c[3]])
            if len(new) > 6:
                new = new[:6]
            if set(new) != set(c[3]):
                c[3] = new
                g = True
        return g

    def iteration(self, n, s, cond, body, inc, post, head, lk):
        """one abstract iteration from the loop head"""
        fr = self.frame
        q = Out()
        exit_ = None
        ct = E0
        s0 = s.split
        # the head state as seen by the comparison
        headst = s
        snapshot = s.copy()
        res = {}
        def test(state):
            box = {}
            if callable(cond):
                c, ta = cond(state)
                return c, ta, state, None, E0
            if cond is None:
                return ('k', True), E0, state, None, E0
            def f():
                box['c'] = self.evc(cond, state)
                return state
            r, t, tt = self.guarded(n, state, f)
            if r is None:
                return None, E0, None, t, tt
            return box['c'][0], box['c'][1], state, t, tt
        def branch(state):
            c, ta, state, t, tt = test(state)
            if t is not None:
                self.addt(q, t, tt, n)
            if state is None:
                return None, None, ta, None
            ex = self.assume(c, state.copy(), False)
            go = self.assume(c, state, True)
            return go, ex, ta, c
        condc = None
        if not post:
            go, exit_, ct, condc = branch(s)
        else:
            go = s
        back = None
        if go is not None:
            tok = self.toks(ct, n)
            go.split = go.split | tok
            if head is not None:
                def f():
                    head(go)
                    return go
                r, t, tt = self.guarded(n, go, f)
                if t is not None:
                    self.addt(q, t, tt, n)
                go = r
        if go is not None:
            p = self.stmt(body, go)
            end = self.joins(p.n, p.c, (id(n), fr.ctx, 'c'), s0) if p.c is not None else p.n
            p.c = None
            self.merge(q, p, n, s0)
            if end is not None:
                if inc is not None:
                    if callable(inc):
                        inc(end)
                    else:
                        def f():
                            self.ev(inc, end)
                            return end
                        r, t, tt = self.guarded(n, end, f)
                        if t is not None:
                            self.addt(q, t, tt, n)
                        end = r
                back = end
                if post and end is not None:
                    go2, exit_, ct, condc = branch(end)
                    back = go2
        if back is not None and (ct & self.splitk):
            pass
        # the condition of the previous iteration bounds induction variables
        if not post and condc is not None:
            self.note_cond(lk, condc)
        res.update(out=q, exit=exit_, back=back, ct=ct, head=snapshot, cond=condc)
        if exit_ is not None:
            exit_.split = exit_.split - self.toks(ct, n)
        return res

    def note_cond(self, lk, c):
        lc = getattr(self, '_loopcond', None)
        if lc is None:
            lc = self._loopcond = {}
        self._condtree = getattr(self, '_condtree', {})
        self._condtree[lk] = c

    # trip counts -------------------------------------------------------------
    def trip(self, c, lk, Kp, facts):
        """number of iterations as a polynomial, when the condition is linear in the counter"""
        if c is None or c[0] != 'cmp':
            return None
        op, la, ra, fl = c[1:5]
        if len(la) != 1 or len(ra) != 1 or not isinstance(la[0], Poly) or not isinstance(ra[0], Poly):
            return None
        d = la[0].sub(ra[0])           # continue while d op 0
        Ka = Kp.single_atom()
        co = d.t.get((Ka,), 0)
        if not co:
            return None
        rest = d.sub(Kp.scale(co))
        if Ka in rest.atoms() or any(self.born_in(a, lk) for a in rest.atoms()):
            return None
        if op in ('>', '>='):
            co, rest = -co, rest.scale(-1)
            op = '<' if op == '>' else '<='
        if op == '!=':
            if co < 0:
                co, rest = -co, rest.scale(-1)
            op = '<'
            if co != 1:
                return None
        if op == '<=':
            rest = rest.sub(ONE)
            op = '<'
        if op != '<' or co <= 0:
            return None
        # co*K + rest < 0  ->  K < -rest/co
        nn = rest.scale(-1)
        if co == 1:
            return nn
        if all(isinstance(v, int) and v % co == 0 for v in nn.t.values()):
            return Poly({m: v // co for m, v in nn.t.items()})
        return None

    def cover(self, n, ex, res, changed, entry, lk, Kp):
        """elements that every iteration writes: when the iterations sweep a whole
        dimension the old contents are gone"""
        pend = []
        N = self.trip(res.get('cond'), lk, Kp, ex.facts)
        back = res['back']
        Ka = Kp.single_atom()
        self.lasttrip = getattr(self, 'lasttrip', {})
        self.lasttrip[lk] = N
        if N is not None:
            # at a regular exit the counter has reached the trip count
            if entails(ex.facts | frozenset(), norm_fact(N, '>=')):
                ex.facts = ex.facts | {norm_fact(Kp.sub(N), '==')}
        for (base, path), (must, may, v) in list(back.mw.items()):
            if must is None and len(may) == 1 and self.hooks.get('maybe'):
                self.hooks['maybe'](self, n, base, path, next(iter(may)), Ka, ex)
            if must is None or v is None or len(may) != 1:
                continue
            dims = [i for i, x in enumerate(must) if isinstance(x, Poly) and Ka in x.atoms()]
            if not dims:
                if not any(isinstance(x, Poly) and any(self.born_in(a, lk) for a in x.atoms()) for x in must):
                    pend.append((LV(base, path, must), v, may))
                continue
            if len(dims) != 1:
                continue
            dm = dims[0]
            ix = must[dm]
            co = ix.t.get((Ka,), 0)
            rest = ix.sub(Kp.scale(co))
            if not co or any(self.born_in(a, lk) for a in rest.atoms()) or N is None:
                continue
            size = self.dimsize(ex, base, path, dm)
            if size is None:
                continue
            ok, diff, cells = self.sweep(co, rest, N, size, path, dm, ex.facts)
            if ok:
                nidx = must[:dm] + ('*',) + must[dm + 1:]
                if all(x == '*' for x in nidx):
                    for key in cells:
                        old = ex.get(base, key)
                        nv = v if v.cond is None else v.with_(cond=None)
                        x = self.tfor(base, self.imp(res['ct']))
                        if not x <= nv.taint:
                            nv = nv.tainted(x)
                        ex.put(base, key, nv)
                        d = ex.wdict(base)
                else:
                    pend.append((LV(base, path, nidx), v, may))
            elif diff:
                for key in cells:
                    c = self.cell(ex, base, key)
                    ex.put(base, key, c.with_(prov=c.prov | {('partial', self.where(n))}))
            elif self.hooks.get('unmatched'):
                self.hooks['unmatched'](self, n, base, path, ix, Ka, N, size)
        return pend

    def dimsize(self, st, base, path, dm):
        """symbolic size of the dm-th index of a path"""
        cnt = -1
        for i, c in enumerate(path):
            if c[0] == '[':
                cnt += 1
                d = st.m.get(base) or {}
                pre = path[:i]
                if cnt == dm:
                    v = d.get(pre + ('#n',))
                    if v is not None:
                        return v.poly()
                # several indices on one component (arr2, arr3)
                k = 1
                while d.get(pre + ('#n%d' % k,)) is not None:
                    if cnt + k - 1 == dm:
                        return d.get(pre + ('#n%d' % k,)).poly()
                    k += 1
                if k > 1:
                    cnt += k - 2
        return None

    def sweep(self, co, rest, N, size, path, dm, facts):
        """do indices co*K+rest for K=0..N-1 hit every element?  (ok, definitely-partial, cells)"""
        five = '[5]' in path
        if five:
            i = path.index('[5]')
            def cs(rs):
                return [path[:i] + (RES[r],) + path[i + 1:] for r in rs]
        else:
            i = None
            def cs(rs):
                return [path]
        def eq(p):
            return (p.is_const() and p.const() == 0) or entails(facts, (p, '=='))
        if co in (1, -1):
            lo = rest if co == 1 else rest.sub(N.sub(ONE))
            d = size.sub(N)
            cells = cs(range(5))
            if eq(lo) and eq(d):
                return True, False, cells
            if lo.is_const() and lo.const() > 0:
                return False, True, cells
            if eq(lo) and d.is_const() and d.const() > 0:
                return False, True, cells
            return False, False, []
        if five and co == 5 and rest.is_const() and isinstance(rest.const(), int):
            r = rest.const()
            cells = cs([r % 5])
            d = size.sub(N.scale(5))
            if 0 <= r < 5 and eq(d):
                return True, False, cells
            if r >= 5:
                return False, True, cells
            if 0 <= r < 5 and d.is_const() and d.const() >= 5:
                return False, True, cells
        return False, False, []

    def unroll(self, n, st, o, s0, cond, body, inc, head):
        if n.get('_omp'):
            return None
        # constant first test needed
        if callable(cond):
            c, ta = cond(st)
        else:
            if not self.constcond(cond, st):
                return None
            probe = st.copy()
            self.collect.append([None, E0])
            try:
                c, ta = self.evc(cond, probe)
            except Dead:
                self.collect.pop()
                return None
            self.collect.pop()
        if self.constc(c) is None:
            return None
        fr = self.frame
        octx = fr.ctx
        snap = st.copy()
        sev = dict(self.events)
        acc = Out()
        cur = st
        brk = None
        for i in range(9):
            fr.ctx = self.ctx(octx, 'it', id(n), i)
            try:
                if callable(cond):
                    c, ta = cond(cur)
                else:
                    self.collect.append([None, E0])
                    try:
                        c, ta = self.evc(cond, cur)
                    except Dead:
                        self.collect.pop()
                        fr.ctx = octx
                        self.events = sev
                        self.become(st, snap)
                        return None
                    t, tt = self.collect.pop()
                    if t is not None:
                        self.addt(acc, t, tt, n)
                v = self.constc(c)
                if v is None or (v is True and i == 8):
                    # not a short constant loop after all
                    fr.ctx = octx
                    self.events = sev
                    self.become(st, snap)
                    return None
                if v is False:
                    break
                if head is not None:
                    head(cur)
                p = self.stmt(body, cur)
                nn = self.joins(p.n, p.c, (id(n), fr.ctx, 'c'), s0) if p.c is not None else p.n
                p.c = None
                if p.b is not None:
                    brk = p.b if brk is None else self.joins(brk, p.b, (id(n), octx, 'b'), s0)
                    p.b = None
                self.merge(acc, p, n, s0)
                cur = nn
                if cur is None:
                    break
                if inc is not None:
                    if callable(inc):
                        inc(cur)
                    else:
                        self.collect.append([None, E0])
                        try:
                            self.ev(inc, cur)
                        except Dead:
                            cur = None
                        t, tt = self.collect.pop()
                        if t is not None:
                            self.addt(acc, t, tt, n)
            finally:
                fr.ctx = octx
        self.merge(o, acc, n, s0)
        if brk is not None:
            cur = self.joins(cur, brk, (id(n), octx, 'bb'), s0)
        o.n = cur
        self.resplit(o.n, s0, o.r, o.t)
        return o

    def constcond(self, cond, st):
        return True

    def constc(self, c):
        """truth of a condition decided by constants alone"""
        k = c[0]
        if k == 'k':
            return c[1]
        if k == 'not':
            v = self.constc(c[1])
            return None if v is None else not v
        if k in ('and', 'or'):
            x, y = self.constc(c[1]), self.constc(c[2])
            if x is None or y is None:
                return None
            return (x and y) if k == 'and' else (x or y)
        if k == 'cmp':
            op, la, ra, fl = c[1:5]
            if len(la) == 1 and len(ra) == 1 and isinstance(la[0], Poly) and isinstance(ra[0], Poly) \
                    and la[0].is_const() and ra[0].is_const():
                a, b = la[0].const(), ra[0].const()
                return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[op]
        return None

    # ---- OpenMP --------------------------------------------------------------------------
    def s_omp(self, n, st):
        dk = n.get('dk', '')
        h = self.hooks.get('omp')
        if h:
            r = h(self, n, st)
            if r is not None:
                return r
        return self.omp_plain(n, st)

    def omp_plain(self, n, st):
        body = n.get('body')
        if body is None:
            return Out(st)
        for cl in n.get('clauses', []):
            if cl.get('k') in ('private', 'firstprivate', 'lastprivate'):
                pass
        dk = n.get('dk', '')
        if 'for' in dk and body.get('k') == 'for' and (self.hooks.get('ws') or self.opts.get('order')):
            if not body.get('_omp'):
                body['_omp'] = n
        g0 = st.guard
        if dk in ('single', 'master', 'masked', 'critical', 'section', 'sections') or (dk == 'atomic' and self.opts.get('order')):
            st.guard = st.guard | {(dk, id(n))}
        o = self.stmt(body, st)
        if o.n is not None:
            o.n.guard = g0
            if self.opts.get('order'):
                for cl in n.get('clauses', []):
                    if cl.get('k') == 'reduction':
                        for x in cl.get('vars', []):
                            b = self.frame.vars.get(x.get('d'))
                            v = (o.n.m.get(b) or {}).get(())
                            if v is not None and not all(isinstance(q, Poly) and q.isint() for q in v.alts):
                                o.n.put(b, (), v.tainted(frozenset(['thread'])))
        return o

    # ---- expressions -----------------------------------------------------------------------
    def ev(self, n, st):
        if 'cv' in n and n['k'] not in ('asg', 'call', 'mcall', 'ocall') and n['cv'] is not None:
            cv = n['cv']
            if n['k'] == 'ref' and n.get('lv') and n.get('dk') in ('var', 'parm', 'glob'):
                pass
            else:
                return K(cv)
        m = getattr(self, 'e_' + n['k'], None)
        if m is None:
            return self.e_other(n, st)
        return m(n, st)

    def e_int(self, n, st):
        return K(n['v'])

    def e_flt(self, n, st):
        v = n['v']
        if isinstance(v, (int, float)):
            if v != v:
                return Val((NAN,), prov=frozenset([('const',)]))
            if v in (float('inf'), float('-inf')):
                return Val((PINF if v > 0 else NINF,), prov=frozenset([('const',)]))
            return K(v)
        try:
            return K(float(v))
        except Exception:
            return self.fresh('flt', n)

    def e_str(self, n, st):
        return Val((self.address(('str', n.get('v', ''))),), ptrs=(LV(('STR', id(n)), ('[]',), (ZERO,)),), prov=frozenset([('const',)]))

    def e_null(self, n, st):
        return Val((ZERO,), null=True)

    def e_zero(self, n, st):
        return K(0, INIT0)

    def e_this(self, n, st):
        t = self.this()
        return Val((A(('this', t)),), ptrs=(t,) if t is not None else ())

    def this(self):
        fr = self.frame
        while fr is not None:
            if fr.this is not None:
                return fr.this
            if fr.lex is None:
                return None
            fr = fr.lex
        return None

    def lookup(self, d):
        fr = self.frame
        while fr is not None:
            b = fr.vars.get(d)
            if b is not None:
                return b
            fr = fr.lex
        fr = self.frame
        while fr is not None:
            b = fr.vars.get(d)
            if b is not None:
                return b
            fr = fr.parent
        return None

    def e_ref(self, n, st):
        if n.get('dk') == 'func':
            return Val((A(('func', n.get('fid') or n.get('qn') or n.get('n'))),))
        if n.get('dk') in ('enum', 'enumc') and ('cv' in n or 'v' in n):
            return K(n['cv'] if 'cv' in n else n['v'])
        t = n.get('t', '')
        if unref(t).endswith(']'):
            return self.decay(n, st)
        return self.rd(self.lvs(n, st), n, st)

    def decay(self, n, st):
        ls = self.lvs(n, st)
        return Val((A(('addr', id(n), self.frame.ctx)),), ptrs=tuple(l.e('[]', ZERO) for l in ls))

    def e_mem(self, n, st):
        t = n.get('t', '')
        if unref(t).endswith(']'):
            return self.decay(n, st)
        return self.rd(self.lvs(n, st), n, st)

    def e_sub(self, n, st):
        t = n.get('t', '')
        if unref(t).endswith(']'):
            return self.decay(n, st)
        return self.rd(self.lvs(n, st), n, st)

    def e_sizeof(self, n, st):
        if 'cv' in n:
            return K(n['cv'])
        return self.fresh('so', n, True)

    def e_lambda(self, n, st):
        return Val((A(('lambda', n.get('fid'))),), ptrs=(LV(('LAM', n.get('fid'), self.frame.ctx)),))

    def e_throw(self, n, st):
        types = E0
        if n.get('c'):
            tt = n.get('tt') or ''
            e = n['c'][0]
            self.collect.append([None, E0])
            try:
                if not self.is_class(e.get('t', '')):
                    self.ev(e, st)
            except Dead:
                pass
            self.collect.pop()
            types = frozenset([unref(tt)])
        else:
            xs = getattr(self, 'exc_stack', None)
            types = xs[-1] if xs else frozenset(['?'])
        if not self.is_class((n['c'][0].get('t', '') if n.get('c') else '')):
            pass
        self.ev_add('throw', n, st, types=types)
        self.log_throw(n, st, types)
        h = self.hooks.get('throw')
        if h:
            h(self, n, st)
        self.throwto(st.copy(), types, n)
        raise Dead()

    def log_throw(self, n, st, types):
        """remember the state in which an exception starts; caught ones are dropped again"""
        if not self.opts.get('throwlog'):
            return
        self.clock += 1
        k = (id(n), self.frame.ctx, types)
        old = self.throwlog.get(k)
        self.throwlog[k] = dict(node=n, st=st.copy(), types=types, seq=self.clock, first=old['first'] if old else self.clock,
                                where=self.where(n), fn=self.fname(), split=st.split | (old['split'] if old else E0))
        st.own = set()

    def forget(self, clock):
        """what was seen under an assumption about a loop that did not hold"""
        for d in (self.throwlog, self.events):
            for k in [k for k, x in d.items() if x['first'] > clock]:
                del d[k]

    def e_new(self, n, st):
        at = n.get('at', '')
        b = ('H', id(n), self.frame.ctx)
        st.m[b] = {}
        st.own.add(b)
        if n.get('arr'):
            sz = self.ev(n['size'], st) if n.get('size') else self.fresh('sz', n, True)
            comp = self.elem_comp(at)
            lv = LV(b)
            st.put(b, ('#n',), sz)
            st.put(b, (comp, '#def') if comp == '[]' else ('#def',), Val((A(('ui', b)),), prov=UNINIT))
            return Val((A(('new', id(n), self.frame.ctx)),), ptrs=(LV(b, (comp,), (ZERO,)),))
        lv = LV(b)
        if self.is_class(at):
            self.construct(lv, at, n.get('init'), st)
        elif n.get('init'):
            st.put(b, (), self.ev(n['init'], st))
        else:
            st.put(b, (), Val((A(('ui', b)),), prov=UNINIT))
        return Val((A(('new', id(n), self.frame.ctx)),), ptrs=(lv,))

    def e_delete(self, n, st):
        for c in n.get('c', []):
            self.ev(c, st)
        return K(0)

    def e_asg(self, n, st):
        op = n['op']
        l, r = n['c']
        if self.is_class(l.get('t', '')) and op == '=':
            dst = self.evo(l, st)
            src = self.evo(r, st)
            for d in dst:
                for s in src:
                    self.copy_obj(s, d, n, st)
            return Val((A(('asgo', id(n))),), ptrs=tuple(dst))
        if op == '=':
            v = self.conv(self.ev(r, st), r.get('t', ''), l.get('t', ''), n, st)
            ls = self.lvs(l, st)
            self.wr(ls, v, n, st)
            return v
        rv = self.ev(r, st)
        ls = self.lvs(l, st)
        ov = self.rd(ls, l, st)
        h = self.hooks.get('compound')
        if h:
            h(self, n, ls, ov, rv, st)
        v = self.arith(op[:-1], ov, rv, l.get('t', ''), n, st)
        if self.opts.get('order') and any(g[0] in ('critical', 'atomic') for g in st.guard) and not self.is_int_t(l.get('t', '')):
            # the order in which threads get here decides how the sum is rounded
            v = v.tainted(frozenset(['thread']))
        v = self.conv(v, n.get('ct') or l.get('t', ''), l.get('t', ''), n, st)
        self.wr(ls, v, n, st)
        return v

    def e_un(self, n, st):
        op = n['op']
        c = n['c'][0]
        if op == '&':
            if c.get('k') == 'ref' and c.get('dk') == 'func':
                return self.e_ref(c, st)
            ls = self.lvs(c, st)
            return Val((self.address(('addr', id(n), self.frame.ctx)),), ptrs=tuple(ls))
        if op == '*':
            t = n.get('t', '')
            if unref(t).endswith(']'):
                return self.decay(n, st)
            return self.rd(self.lvs(n, st), n, st)
        if op in ('++', '--'):
            ls = self.lvs(c, st)
            ov = self.rd(ls, c, st)
            nv = self.arith('+' if op == '++' else '-', ov, K(1), c.get('t', ''), n, st)
            if ov.prov - UNK:
                nv = nv.with_(prov=self.calcprov(n, ov))
            self.wr(ls, nv, n, st)
            return ov if n.get('post') else nv
        if op == '!':
            cc, ta = self.evc(c, st)
            return self.boolval(('not', cc), ta, st)
        v = self.ev(c, st)
        if op == '-':
            return self.arith('-', K(0), v, n.get('t', ''), n, st)
        if op == '+':
            return v
        if op == '~':
            return self.fresh('cpl', n, True, v.taint, self.calcprov(n, v))
        if op in ('__real', '__imag', '__extension__'):
            return v
        return self.fresh('un', n, self.is_int_t(n.get('t', '')), v.taint)

    def boolval(self, c, ta, st):
        t = self.truth(c, st)
        if t is not None:
            return Val((ONE if t else ZERO,), ta, frozenset([('cond',)]), cond=('k', t))
        return Val((A(('bool', c if self.hashable(c) else id(c)), True),), ta, frozenset([('cond',)]), cond=c)

    def hashable(self, c):
        try:
            hash(c)
            return True
        except TypeError:
            return False

    def e_bin(self, n, st):
        op = n['op']
        if op in ('&&', '||'):
            c, ta = self.evc(n, st)
            return self.boolval(c, ta, st)
        a, b = n['c']
        if op == ',':
            if self.is_class(a.get('t', '')):
                self.evo(a, st)
            else:
                self.ev(a, st)
            return self.ev(b, st)
        x = self.ev(a, st)
        y = self.ev(b, st)
        if op in ('<', '<=', '>', '>=', '==', '!='):
            ta = x.taint | y.taint
            if x.ptrs or y.ptrs or x.null or y.null:
                return self.boolval(self.ptrcmp(op, x, y), ta, st)
            fl = not (self.is_int_t(a.get('t', '')) and self.is_int_t(b.get('t', '')))
            return self.boolval(('cmp', op, x.alts, y.alts, fl), ta, st)
        if (x.ptrs or y.ptrs) and op in ('+', '-'):
            return self.ptrarith(op, x, y, n, st)
        h = self.hooks.get('arith')
        if h:
            h(self, n, op, x, y, st)
        return self.arith(op, x, y, n.get('t', ''), n, st)

    def ptrcmp(self, op, x, y):
        if op in ('==', '!=') and (x.null or y.null):
            o = y if (x.null and not x.ptrs) else x
            if o.null and not o.ptrs and x.null and y.null:
                return ('k', op == '==')
            if o.ptrs and not o.null:
                return ('k', op == '!=')
            if o.ptrs:
                return ('cmp', op, o.alts, (ZERO,), False)
            return ('u',)
        if len(x.ptrs) == 1 and len(y.ptrs) == 1:
            p, q = x.ptrs[0], y.ptrs[0]
            if p.base == q.base and p.path == q.path and p.idx and len(p.idx) == len(q.idx) and p.idx[:-1] == q.idx[:-1] \
                    and isinstance(p.idx[-1], Poly) and isinstance(q.idx[-1], Poly):
                return ('cmp', op, (p.idx[-1],), (q.idx[-1],), False)
            if p == q and op in ('==', '!='):
                return ('k', op == '==')
            if p.base != q.base and op in ('==', '!=') and p.base[0] != 'O' and q.base[0] != 'O':
                return ('k', op == '!=')
        return ('u',)

    def ptrarith(self, op, x, y, n, st):
        if x.ptrs and y.ptrs:
            if len(x.ptrs) == 1 and len(y.ptrs) == 1:
                p, q = x.ptrs[0], y.ptrs[0]
                if p.base == q.base and p.path == q.path and p.idx and len(p.idx) == len(q.idx) and \
                        p.idx[:-1] == q.idx[:-1] and isinstance(p.idx[-1], Poly) and isinstance(q.idx[-1], Poly):
                    return Val((p.idx[-1].sub(q.idx[-1]),), x.taint | y.taint)
            return self.fresh('pd', n, True, x.taint | y.taint)
        if y.ptrs:
            x, y = y, x
        h = self.hooks.get('ptrindex')
        if h:
            h(self, n, y, st)
        off = y.poly()
        if off is None:
            off = self.fresh('po', n, True).poly()
        if op == '-':
            off = off.scale(-1)
        out = []
        for lv in x.ptrs:
            if lv.idx and lv.path and lv.path[-1] in ELEM and isinstance(lv.idx[-1], Poly):
                out.append(LV(lv.base, lv.path, lv.idx[:-1] + (lv.idx[-1].add(off),)))
            elif lv.idx and isinstance(lv.idx[-1], Poly):
                # pointer to a field of an element: stays a flat view of the array
                out.append(LV(lv.base, lv.path, lv.idx[:-1] + (A(('pf', id(n), self.frame.ctx), True),)))
            else:
                out.append(lv)
        return Val((A(('ptr', id(n), self.frame.ctx)),), x.taint | y.taint, ptrs=tuple(out))

    def calcprov(self, n, *vs):
        """provenance of a computed value"""
        src = E0
        for v in vs:
            src |= v.prov
        if all(p[0] in ('const', 'init0', 'unk', 'cond', 'ctr') for p in src):
            if all(p[0] in ('const', 'init0') for p in src):
                return frozenset([('const',)])
            return UNK
        return frozenset([('calc', self.where(n))])

    def arith(self, op, x, y, t, n, st):
        ta = x.taint | y.taint
        isint = self.is_int_t(t)
        prov = self.calcprov(n, x, y)
        mod = None
        mx, my = None, None
        if isint and op in ('+', '-', '*'):
            mx, my = self.vmod(x), self.vmod(y)
            if mx is not None and my is not None:
                mod = {'+': mx + my, '-': mx - my, '*': mx * my}[op] % 5
            elif op == '*' and (mx == 0 or my == 0):
                mod = 0
        if len(x.alts) * len(y.alts) <= 4:
            res = []
            for a in x.alts:
                for b in y.alts:
                    r = self.arith1(op, a, b, isint, n, st)
                    if r is None:
                        res = None
                        break
                    if r not in res:
                        res.append(r)
                if res is None:
                    break
            if res is not None:
                return Val(tuple(res), ta, prov, mod)
        v = self.fresh('ar', n, isint, ta, prov)
        v.mod = mod
        if mod is not None and isint:
            self.MODS[v.poly().single_atom()] = mod
        return v

    def arith1(self, op, a, b, isint, n, st):
        if self.opts.get('ieee') and not isint and (isinstance(a, str) or a.is_const()) and (isinstance(b, str) or b.is_const()):
            r = ieee(op, a, b)
            if r is not None:
                return r
        if not isinstance(a, Poly) or not isinstance(b, Poly):
            if a == NAN or b == NAN:
                return NAN
            if op in ('+', '-') and isinstance(a, str) and isinstance(b, Poly):
                return a
            if op == '+' and isinstance(b, str) and isinstance(a, Poly):
                return b
            if op == '-' and isinstance(b, str) and isinstance(a, Poly):
                return NINF if b == PINF else PINF
            return None
        if op == '+':
            r = a.add(b)
        elif op == '-':
            r = a.sub(b)
        elif op == '*':
            r = a.mul(b)
        elif op == '/':
            if isint:
                if b.is_const() and isinstance(b.const(), int) and b.const() > 0:
                    r = idiv(a, b.const())
                    if r is not None:
                        sa = r.single_atom()
                        if sa is not None and P.NAMES[sa][0] == 'idiv' and entails(st.facts, norm_fact(a, '>=')):
                            st.facts = st.facts | {norm_fact(r, '>='), norm_fact(r.scale(b.const()).sub(a), '<=')}
                else:
                    r = A(('fn', 'div', a, b), True)
            else:
                i = inv(b)
                r = a.mul(i) if i is not None else None
        elif op == '%':
            if a.is_const() and b.is_const() and b.const():
                x, y = a.const(), b.const()
                r = C(abs(x) % abs(y) * (1 if x >= 0 else -1))
            elif b.is_const() and isinstance(b.const(), int) and b.const() > 0 and residue(a, b.const()) is not None \
                    and entails(st.facts, norm_fact(a, '>=')):
                r = C(residue(a, b.const()))
            else:
                r = A(('fn', 'mod', a, b), True)
        elif op == '>>' and b.is_const():
            if a.is_const():
                r = C(int(a.const()) >> int(b.const()))
            else:
                r = idiv(a, 1 << int(b.const()))
        elif op == '<<' and b.is_const():
            r = a.scale(1 << int(b.const()))
        elif op in ('&', '|', '^') and a.is_const() and b.is_const():
            x, y = int(a.const()), int(b.const())
            r = C({'&': x & y, '|': x | y, '^': x ^ y}[op])
        else:
            r = A(('fn', op, a, b), isint)
        if r is not None and len(r.t) > 24:
            return None
        return r

    def conv(self, v, ft, tt, n, st):
        """conversion between scalar types"""
        f, t = unref(ft), unref(tt)
        if f == t:
            return v
        if self.is_int_t(t) and f in ('double', 'float', 'long double') and not v.ptrs:
            return self.trunc(v, n, st)
        return v

    def trunc(self, v, n, st):
        out = []
        for a in v.alts:
            if isinstance(a, Poly):
                if a.is_const():
                    c = a.const()
                    out.append(C(int(c)))
                    continue
                if a.isint():
                    out.append(a)
                    continue
                # x + 1/2 with integer x rounds to x
                h = a.sub(C(Fr(1, 2)))
                if h.isint() and entails(st.facts, norm_fact(h, '>=')):
                    out.append(h)
                    continue
                q = A(('fn', 'trunc', a), True)
                if entails(st.facts, norm_fact(a, '>=')):
                    st.facts = st.facts | {norm_fact(q, '>='), norm_fact(q.sub(a), '<=')}
                out.append(q)
            else:
                return self.fresh('tr', n, True, v.taint, v.prov)
        return v.with_(alts=tuple(out), cond=None)

    def e_cast(self, n, st):
        c = n['c'][0]
        ck = n.get('ck', '')
        t = n.get('t', '')
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'):
            cc, ta = self.evc(c, st)
            return self.boolval(cc, ta, st)
        if self.is_class(t):
            ls = self.evo(n, st)
            return Val((A(('obj', id(n))),), ptrs=tuple(ls))
        if self.is_class(c.get('t', '')):
            ls = self.evo(c, st)
            if unref(t) == 'void':
                return K(0)
            return Val((A(('cobj', id(n), self.frame.ctx)),), ptrs=())
        v = self.ev(c, st)
        if ck == 'FloatingToIntegral':
            return self.trunc(v, n, st)
        if ck == 'NullToPointer':
            return Val((ZERO,), null=True)
        return v

    def e_cond(self, n, st):
        a, b, c = n['c']
        cc, ta = self.evc(a, st)
        t = self.truth(cc, st)
        if t is not None:
            return self.ev(b if t else c, st)
        s0 = st.split
        tok = self.toks(ta, n)
        s1 = st.copy()
        s1 = self.assume(cc, s1, True)
        s2 = self.assume(cc, st.copy(), False)
        v1 = v2 = None
        if s1 is not None:
            s1.split |= tok
            try:
                v1 = self.ev(b, s1)
            except Dead:
                s1 = None
        if s2 is not None:
            s2.split |= tok
            try:
                v2 = self.ev(c, s2)
            except Dead:
                s2 = None
        if s1 is None and s2 is None:
            raise Dead()
        g0 = st.guard
        j = self.joins(s1, s2, (id(n), self.frame.ctx), None, self.imp(ta))
        both = s1 is not None and s2 is not None
        self.become(st, j)
        st.guard = g0
        st.split = s0 if both else j.split
        if v1 is None or not both and s1 is None:
            return v2.tainted(ta)
        if v2 is None or not both:
            return v1.tainted(ta)
        if unref(n.get('t', '')) == 'bool' or (v1.cond is not None and v2.cond is not None):
            x, y = self.condof(v1), self.condof(v2)
            return self.boolval(('or', ('and', cc, x), ('and', ('not', cc), y)), ta | v1.taint | v2.taint, st)
        # a clamp to the smaller or larger of two values
        mm = self.minmax(cc, v1, v2, n)
        if mm is not None:
            return mm.tainted(ta)
        return self.joinv(v1, v2, ('phi', (id(n), self.frame.ctx), 'cnd', ()), ta)

    def minmax(self, cc, v1, v2, n):
        if cc[0] != 'cmp' or cc[1] not in ('<', '<=', '>', '>='):
            return None
        p, q = v1.poly(), v2.poly()
        if p is None or q is None or len(cc[2]) != 1 or len(cc[3]) != 1:
            return None
        l, r = cc[2][0], cc[3][0]
        if not (isinstance(l, Poly) and isinstance(r, Poly)) or not (p.isint() and q.isint()):
            return None
        if cc[1] in ('>', '>='):
            l, r = r, l
        # cond: l < r
        if (p, q) == (l, r):
            return self.M.minmaxval(self, 'min', v1, v2)
        if (p, q) == (r, l):
            return self.M.minmaxval(self, 'max', v1, v2)
        return None

    def e_ilist(self, n, st):
        if len(n.get('c', [])) == 1 and not self.is_class(n.get('t', '')):
            return self.ev(n['c'][0], st)
        for c in n.get('c', []):
            if self.is_class(c.get('t', '')):
                self.evo(c, st)
            else:
                self.ev(c, st)
        if not n.get('c') and not self.is_class(n.get('t', '')):
            return K(0, INIT0)
        return self.fresh('il', n)

    def e_other(self, n, st):
        ta = E0
        for c in n.get('c', []) or []:
            if isinstance(c, dict) and 'k' in c:
                if self.is_class(c.get('t', '')):
                    for l in self.evo(c, st):
                        ta |= self.otaint(st, l)
                else:
                    ta |= self.ev(c, st).taint
        return self.fresh('oth', n, self.is_int_t(n.get('t', '')), ta)

    def e_schedule(self, n, st):
        return K(0)

    def e_ctor(self, n, st):
        ls = self.evo(n, st)
        return Val((A(('obj', id(n))),), ptrs=tuple(ls))

    # ---- lvalues -------------------------------------------------------------------------------
    def lvs(self, n, st):
        """what an expression designates"""
        k = n['k']
        if k == '$lv':
            return list(n['LV'])
        if k == 'ref':
            dk = n.get('dk')
            if dk == 'glob' and n.get('d', '').startswith('L'):
                # a static variable of a function
                b = self.lookup(n['d'])
                if b is not None:
                    r = st.get(b, ('&',))
                    return list(r.ptrs) if r is not None else [LV(b)]
            if dk == 'glob' or (n.get('d', '').startswith('G:')):
                d = n['d'][2:] if n.get('d', '').startswith('G:') else n.get('qn', n['n'])
                b = ('G', d)
                lv = LV(b)
                return [lv]
            b = self.lookup(n['d'])
            if b is None:
                b = ('G', n.get('qn') or n['n'])
                return [LV(b)]
            r = st.get(b, ('&',))
            if r is not None:
                return list(r.ptrs)
            return [LV(b)]
        if k == 'mem':
            c = n['c'][0]
            if n.get('arrow'):
                v = self.ev(c, st)
                bs = list(v.ptrs)
                if not bs:
                    bs = [self.deref_unknown(v, c, st)]
                out = []
                for l in bs:
                    out.append(l.f(n['n']))
            else:
                bs = self.evo(c, st) if not c.get('lv') or c['k'] in ('call', 'mcall', 'ocall', 'ctor', 'cond') else self.lvs(c, st)
                out = [l.f(n['n']) for l in bs]
            vt = n.get('vt', '')
            if isref(vt):
                res = []
                for l in out:
                    r = st.get(l.base, l.path + ('&',))
                    if r is not None:
                        res += list(r.ptrs)
                    else:
                        res.append(LV(('O', ('deref', l.base, l.path))))
                return res
            return out
        if k == 'un' and n['op'] == '*':
            v = self.ev(n['c'][0], st)
            return list(v.ptrs) or [self.deref_unknown(v, n['c'][0], st)]
        if k == 'un' and n['op'] in ('++', '--') and not n.get('post'):
            self.ev(n, st)
            return self.lvs(n['c'][0], st) if self.pure(n['c'][0]) else self.lvs(n['c'][0], st)
        if k == 'sub':
            a, i = n['c']
            iv = self.ev(i, st)
            h = self.hooks.get('ptrindex')
            if h:
                h(self, n, iv, st)
            ip = iv.poly()
            if ip is None:
                ip = self.fresh('ix', n, True).poly()
            at = unref(a.get('t', ''))
            if at.endswith(']'):
                return [l.e('[]', ip) for l in self.lvs(a, st)]
            v = self.ev(a, st)
            if not v.ptrs:
                return [self.deref_unknown(v, a, st).e('[]', ip)]
            out = []
            for l in v.ptrs:
                if l.idx and l.path and l.path[-1] in ELEM and isinstance(l.idx[-1], Poly):
                    out.append(LV(l.base, l.path, l.idx[:-1] + (l.idx[-1].add(ip),)))
                else:
                    out.append(l)
            return out
        if k == 'asg':
            v = self.ev(n, st)
            if self.is_class(n['c'][0].get('t', '')):
                return list(v.ptrs)
            return self.lvs(n['c'][0], st)
        if k == 'cast':
            t = n.get('t', '')
            c = n['c'][0]
            if self.is_class(t) and not (n.get('lv') or c.get('lv')):
                return self.evo(n, st)
            if n.get('lv') or c.get('lv'):
                return self.lvs(c, st)
            return self.temp(n, st)
        if k == 'cond':
            cc, ta = self.evc(n['c'][0], st)
            t = self.truth(cc, st)
            if t is not None:
                return self.lvs(n['c'][1 if t else 2], st)
            return self.lvs(n['c'][1], st) + self.lvs(n['c'][2], st)
        if k == 'bin' and n['op'] == ',':
            self.ev(n['c'][0], st)
            return self.lvs(n['c'][1], st)
        if k in ('call', 'mcall', 'ocall'):
            return self.call(n, st, want='lv')
        if k == 'this':
            t = self.this()
            return [t] if t is not None else []
        if k == 'str':
            return [LV(('STR', id(n)))]
        if self.is_class(n.get('t', '')):
            return self.evo(n, st)
        return self.temp(n, st)

    def temp(self, n, st):
        """materialise a scalar rvalue"""
        v = self.ev(n, st)
        b = ('T', id(n), self.frame.ctx)
        self.frame.bases.append(b)
        st.m[b] = {}
        st.own.add(b)
        st.put(b, (), v)
        return [LV(b)]

    def deref_unknown(self, v, n, st):
        p = v.poly()
        key = p if p is not None else ('x', id(n))
        return LV(('O', ('deref', key)))

    def evo(self, n, st):
        """the object(s) a class-type expression denotes"""
        k = n['k']
        t = n.get('t', '')
        if n.get('lv') and k not in ('call', 'mcall', 'ocall'):
            return self.lvs(n, st)
        if k in ('call', 'mcall', 'ocall'):
            return self.call(n, st, want='obj')
        if k in ('ref', 'mem', 'sub'):
            return self.lvs(n, st)
        if k == 'un' and n['op'] == '*':
            return self.lvs(n, st)
        if k == 'cond':
            return self.lvs(n, st)
        if k == 'lambda':
            return [LV(('LAM', n.get('fid'), self.frame.ctx))]
        if k == 'asg' and n.get('op') == '=' and len(n['c']) == 2:
            src = self.evo(n['c'][1], st)
            dst = self.lvs(n['c'][0], st)
            for d in dst[:1]:
                if src and src[0] != d:
                    self.copy_obj(src[0], d, n, st)
            return dst
        b = ('T', id(n), self.frame.ctx)
        self.frame.bases.append(b)
        st.m[b] = {}
        st.own.add(b)
        lv = LV(b)
        self.construct(lv, t, n, st)
        return [lv]

    # ---- construction ----------------------------------------------------------------------------
    def construct(self, lv, t, init, st, v=None):
        """initialise a fresh object of class or array type"""
        ut = unref(t)
        if ut.endswith(']'):
            return self.init_array(lv, ut, init, st)
        if init is not None:
            k = init['k']
            if k == 'cast' and init.get('c') and self.is_class(init.get('t', '')):
                inner = init['c'][0]
                if init.get('ck') in ('ConstructorConversion', 'NoOp', 'UserDefinedConversion', None):
                    return self.construct(lv, t, inner, st)
            if k == 'ctor':
                if n_cls(init.get('t', '')) != n_cls(t) and init.get('copy'):
                    pass
                if init.get('elid') and init.get('c'):
                    return self.construct(lv, t, init['c'][0], st)
                return self.run_ctor(lv, unref(init.get('t', t)), init, st)
            if k in ('call', 'mcall', 'ocall') and not init.get('lv'):
                src = self.call(init, st, want='obj')
                if src:
                    self.copy_obj(src[0], lv, init, st)
                    for s in src[1:]:
                        pass
                return
            if k == 'lambda':
                st.put(lv.base, lv.path + ('#lam',), Val((A(('lambda', init.get('fid'))),)))
                self.lamframe = getattr(self, 'lamframe', {})
                self.lamframe[init.get('fid')] = self.frame
                return
            if k in ('ilist', 'zero'):
                return self.init_list(lv, ut, init, st)
            if k == 'cond':
                for s in self.lvs(init, st)[:1]:
                    self.copy_obj(s, lv, init, st)
                return
            if self.is_class(init.get('t', '')):
                if id(init) in self.evoing:
                    # an expression the engine knows nothing about
                    if self.opts.get('debug'):
                        print('class value?', init['k'], init.get('t'), init.get('ck'), self.where(init))
                    for a in init.get('c') or []:
                        self.ev(a, st)
                    self.havoc(st, lv, init)
                    return
                self.evoing.add(id(init))
                try:
                    src = self.evo(init, st)
                finally:
                    self.evoing.discard(id(init))
                if src and src[0] != lv:
                    self.copy_obj(src[0], lv, init, st)
                return
            # conversion from a scalar
            val = self.ev(init, st)
            self.clear(st, lv, val)
            return
        # default initialisation
        ck = self.ckind(ut)
        if ck:
            return self.M.vec_ctor(self, lv, ut, ck, [], None, st)
        self.default_init(lv, ut, st)

    def default_init(self, lv, ut, st):
        rec = self.F.records.get(ut)
        if rec is None:
            rec = self.F.crecords.get(ut)
        if rec is None:
            self.clear(st, lv, Val((A(('def', ut)),), prov=INIT0))
            return
        self.clear(st, lv, Val((A(('ui', lv.base, lv.path)),), prov=UNINIT))
        self.init_fields(lv, rec, {}, st)

    def init_fields(self, lv, rec, given, st):
        for f in rec.get('fields', []):
            if f['n'] in given:
                continue
            ft = f['t']
            if f.get('init') is not None:
                if self.is_class(ft):
                    self.construct(lv.f(f['n']), ft, f['init'], st)
                else:
                    st.put(lv.base, lv.path + (f['n'],), self.ev(f['init'], st))
            elif self.is_class(ft):
                self.construct(lv.f(f['n']), ft, None, st)

    def init_array(self, lv, ut, init, st):
        m = re.match(r'(.*?)\[(\d+)\]$', ut)
        st.put(lv.base, lv.path + ('#n',), K(int(m.group(2))) if m else self.fresh('an', init or {}, True))
        if init is None:
            st.put(lv.base, lv.path + ('[]', '#def'), Val((A(('ui', lv.base, lv.path)),), prov=UNINIT))
            return
        if init['k'] == 'ilist':
            vals = []
            fields = None
            for c in init.get('c', []):
                if self.is_class(c.get('t', '')):
                    if fields is None:
                        fields = {}
                    self.elem_fields(c, (), fields, st)
                elif c['k'] == 'ilist':
                    for d in c.get('c', []):
                        vals.append(self.ev(d, st))
                else:
                    vals.append(self.ev(c, st))
            if fields is not None:
                # elements of class type: every member can have the value of any element
                e = LV(lv.base, lv.path + ('[]',))
                self.clear(st, e, self.fresh('el', init, False))
                for p, vs in fields.items():
                    if vs is None:
                        continue
                    v = vs[0]
                    for x in vs[1:]:
                        v = self.joinv(v, x, ('sum', lv.base, e.path + p))
                    st.put(lv.base, e.path + p, v)
                return
            v = K(0, INIT0)
            for x in vals:
                v = self.joinv(v, x, ('sum', lv.base, lv.path + ('[]',)))
            st.put(lv.base, lv.path + ('[]', '#def'), v if v.poly() is not None else v)
            st.put(lv.base, lv.path + ('[]',), v)
            return
        st.put(lv.base, lv.path + ('[]', '#def'), K(0, INIT0))

    def elem_fields(self, c, path, out, st):
        """values of the members of one element of an array initialiser"""
        while c['k'] in ('cast', 'paren') and c.get('c'):
            c = c['c'][0]
        rec = self.F.records.get(unref(c.get('t', '')).replace('const ', '')) if c['k'] == 'ilist' else None
        if rec is None:
            self.evo(c, st)
            for p in list(out):
                if p[:len(path)] == path:
                    out[p] = None
            out[path] = None
            return
        cs = c.get('c') or []
        for i, f in enumerate(rec.get('fields', [])):
            q = path + (f['n'],)
            if i >= len(cs):
                out[q] = None
            elif self.is_class(f['t']):
                self.elem_fields(cs[i], q, out, st)
            elif unref(f['t']).endswith(']'):
                out[q] = None
            else:
                v = self.ev(cs[i], st)
                if q not in out:
                    out[q] = [v]
                elif out[q] is not None:
                    out[q].append(v)

    def init_list(self, lv, ut, n, st):
        rec = self.F.records.get(ut) or self.F.crecords.get(ut)
        ck = self.ckind(ut)
        if ck:
            vals = [self.ev(c, st) for c in n.get('c', []) if not self.is_class(c.get('t', ''))]
            return self.M.vec_ilist(self, lv, ck, vals, n, st)
        if rec is None:
            for c in n.get('c', []) or []:
                if self.is_class(c.get('t', '')):
                    self.evo(c, st)
                else:
                    self.ev(c, st)
            self.clear(st, lv, Val((A(('def', ut)),), prov=INIT0))
            return
        self.clear(st, lv, K(0, INIT0))
        cs = n.get('c', []) or []
        for f, c in zip(rec.get('fields', []), cs):
            if self.is_class(f['t']) or unref(f['t']).endswith(']'):
                self.construct(lv.f(f['n']), f['t'], c, st)
            else:
                st.put(lv.base, lv.path + (f['n'],), self.ev(c, st))

    def run_ctor(self, lv, ut, n, st):
        ck = self.ckind(ut)
        if ck:
            return self.M.vec_ctor(self, lv, ut, ck, n.get('c', []), n, st)
        f = self.F.funcs.get(n.get('fid'))
        args = n.get('c', [])
        if f is not None and f.get('body') is not None and not f.get('impl'):
            self.inline(f, lv, args, n, st)
            return
        rec = self.F.records.get(ut)
        if rec is not None and f is not None and f.get('inits') and not args:
            self.inline(f, lv, args, n, st)
            return
        if rec is not None:
            if len(args) == 1 and unref(args[0].get('t', '')) == ut:
                src = self.evo(args[0], st)
                if src:
                    self.copy_obj(src[0], lv, n, st)
                return
            if not args:
                self.default_init(lv, ut, st)
                # bases
                for b in rec.get('bases', []):
                    bn = unref(b.get('n') if isinstance(b, dict) else b)
                    br = self.F.records.get(bn)
                    if br:
                        self.init_fields(lv, br, {}, st)
                return
        h = self.M.CTORS.get(ut.split('<')[0])
        if h:
            return h(self, lv, ut, args, n, st)
        ta = E0
        for a in args:
            if self.is_class(a.get('t', '')):
                for l in self.evo(a, st):
                    ta |= self.otaint(st, l)
            else:
                ta |= self.ev(a, st).taint
        w = self.ws[-1] if self.ws else None
        self.clear(st, lv, Val((A(('co', id(n), self.frame.ctx, w)),), ta, UNK))

    # ---- calls -----------------------------------------------------------------------------------------
    def call(self, n, st, want='val'):
        k = n['k']
        self.stats['calls'] += 1
        sn = n.get('sn', '')
        fid = n.get('fid')
        args = n.get('c', [])
        obj = None
        cls = n.get('cls') or ''
        if k == 'mcall':
            on = n['obj']
            if on['k'] == 'this':
                obj = [self.this()]
            elif unref(on.get('t', '')).endswith('*'):
                v = self.ev(on, st)
                obj = list(v.ptrs) or [self.deref_unknown(v, on, st)]
            else:
                obj = self.evo(on, st)
        elif k == 'ocall' and n.get('memop'):
            obj = self.evo(args[0], st)
            args = args[1:]
        # containers
        if obj is not None:
            oc = cls or ''
            ck = self.ckind(oc) if oc else None
            if ck:
                f = self.F.funcs.get(fid)
                r = self.M.vec_method(self, obj, ck, oc, sn, args, n, st, want)
                if r is not NotImplemented:
                    return r
        h = self.hooks.get('call')
        if h:
            r = h(self, n, obj, args, st, want)
            if r is not None:
                return r
        f = self.F.funcs.get(fid)
        m = self.models.get(n.get('fn')) or self.models.get(fid)
        if m is not None:
            r = m(self, n, obj, args, st)
            return self.shape(r, n, st, want)
        if f is not None and f.get('body') is not None and not f.get('impl') and not self.closed(f):
            return self.inline_want(f, obj, args, n, st, want)
        # lambda objects
        if k == 'ocall' and n.get('op') == '()' and obj is not None:
            lf = None
            for l in obj:
                lam = st.get(l.base, l.path + ('#lam',))
                if lam is not None:
                    lf = P.NAMES[lam.poly().single_atom()][1]
            f = self.F.funcs.get(lf or fid)
            if f is not None and f.get('body') is not None:
                return self.inline_want(f, obj, args, n, st, want)
        if k == 'ocall' and n.get('op') == '=' and obj is not None and len(args) == 1:
            if self.is_class(args[0].get('t', '')):
                src = self.evo(args[0], st)
                for d in obj:
                    for s in src[:1]:
                        self.copy_obj(s, d, n, st)
            else:
                v = self.ev(args[0], st)
                for d in obj:
                    self.clear(st, d, v)
            return self.shape(obj, n, st, want)
        if k == 'call' and n.get('fe'):
            self.ev(n['fe'], st)
        return self.opaque(n, obj, args, st, want)

    e_call = e_mcall = e_ocall = None

    def shape(self, r, n, st, want):
        """adapt a model result (Val or list of LV) to what the caller wants"""
        if want == 'val':
            if isinstance(r, list):
                if self.is_class(n.get('t', '')):
                    return Val((A(('obj', id(n))),), ptrs=tuple(r))
                return self.rd(r, n, st)
            return r
        if isinstance(r, list):
            return r
        if want == 'obj' and r is not None and r.ptrs and self.is_class(n.get('t', '')):
            return list(r.ptrs)
        b = ('T', id(n), self.frame.ctx)
        self.frame.bases.append(b)
        st.m[b] = {}
        st.own.add(b)
        if self.is_class(n.get('t', '')):
            st.put(b, ('#def',), r if r is not None else self.fresh('tmp', n))
        else:
            st.put(b, (), r if r is not None else self.fresh('tmp', n))
        return [LV(b)]

    def closed(self, f):
        """a function of a component that is not looked into here"""
        fl = f.get('f', '')
        return any(x in fl for x in self.opts.get('closed', ()))

    def arginfo(self, n, args, st):
        """evaluate arguments of an unknown function: list of (node, Val or LV list, param type)"""
        pt = n.get('pt') or []
        out = []
        for i, a in enumerate(args):
            p = pt[i] if i < len(pt) else ''
            if self.is_class(a.get('t', '')):
                out.append((a, self.evo(a, st), p))
            elif isref(p) and a.get('lv'):
                out.append((a, self.lvs(a, st), p))
            else:
                out.append((a, self.ev(a, st), p))
        return out

    def opaque(self, n, obj, args, st, want):
        """a function whose body is not known"""
        nm = n.get('fn') or n.get('sn') or '?'
        self.stats['opaque'][nm] = self.stats['opaque'].get(nm, 0) + 1
        info = self.arginfo(n, args, st)
        ta = E0
        for a, v, p in info:
            if isinstance(v, list):
                for l in v:
                    ta |= self.otaint(st, l)
            else:
                ta |= v.taint
                for l in v.ptrs:
                    ta |= self.otaint(st, l)
        if obj is not None:
            for l in obj:
                if l is not None:
                    ta |= self.otaint(st, l)
        for a, v, p in info:
            if isinstance(v, list):
                if isref(p) and not p.strip().startswith('const') and 'basic_ostream' not in p:
                    for l in v:
                        if self.is_class(a.get('t', '')):
                            self.havoc(st, l, n, ta)
                        else:
                            self.wr([l], self.fresh('opq', n, self.is_int_t(a.get('t', '')), ta), n, st)
            elif v.ptrs and p and not p.strip().startswith('const') and p.strip().endswith('*'):
                for l in v.ptrs:
                    if l.base[0] in ('STR', 'LAM'):
                        continue
                    self.opq_ptr(l, n, st, ta, a)
            elif v.ptrs and not p:
                pass
        if obj is not None and not n.get('mconst') and n['k'] == 'mcall' or (obj is not None and n['k'] == 'ocall' and n.get('op') in ('=', '+=', '-=', '*=', '/=', '++', '--')):
            for l in obj:
                if l is not None and l.base[0] != 'G':
                    self.havoc(st, l, n, ta)
        t = n.get('t', '')
        if obj is not None and isref(n.get('rt', '')) and self.is_class(t):
            return self.shape(list(obj), n, st, want)
        if n['k'] == 'ocall' and not n.get('memop') and isref(n.get('rt', '')) and info and isinstance(info[0][1], list):
            return self.shape(list(info[0][1]), n, st, want)
        v = self.fresh('call', n, self.is_int_t(t), ta)
        return self.shape(v, n, st, want)

    def opq_ptr(self, l, n, st, ta, a):
        pt = unref(a.get('t', ''))
        if l.path and l.path[-1] in ELEM:
            isint = False
            v = self.fresh('opq', n, isint, ta)
            self.wr_weak_all(l, v, n, st)
        elif has_elem(l.path):
            self.havoc(st, LV(l.base, self.elem_prefix(l.path), l.idx), n, ta)
        else:
            und = self.under(st, l)
            if any(k == () for k, v in und) or not und:
                self.wr([l], self.fresh('opq', n, False, ta, extra=(l.base, l.path)), n, st)
            if any(k != () for k, v in und):
                self.havoc(st, l, n, ta)

    def elem_prefix(self, path):
        for i in range(len(path) - 1, -1, -1):
            if path[i] in ELEM:
                return path[:i + 1]
        return path

    def wr_weak_all(self, l, v, n, st):
        """unknown elements of an array may be overwritten"""
        self.access('w', l, n, st, True)
        for p in self.expand(l.path):
            for rel, old in self.under(st, LV(l.base, p)):
                if rel and rel[-1] == '#def':
                    continue
                st.put(l.base, p + rel, self.joinv(old, v, ('sum', l.base, p + rel)) if old.prov != UNINIT
                       else v.with_(alts=(A(('sum', l.base, p + rel)),)))
            od = st.default(l.base, p)
            nd = v if od is None or od.prov == UNINIT else self.joinv(od, v, ('sum', l.base, p))
            st.put(l.base, p + ('#def',), nd)

    # ---- inlining ------------------------------------------------------------------------------------------
    def inline_want(self, f, obj, args, n, st, want):
        self_lv = obj[0] if obj else None
        if obj and len(obj) > 1 and obj[0] is not None:
            # several possible objects: analyse each and join
            st0 = st.copy()
            res = None
            outs = []
            for l in obj[:3]:
                s1 = st0.copy()
                r = self.inline(f, l, args, n, s1, want)
                outs.append((s1, r))
            j, r = outs[0]
            for s1, r1 in outs[1:]:
                j = self.joins(j, s1, (id(n), self.frame.ctx), None, E0)
                if isinstance(r, list):
                    r = r + [x for x in r1 if x not in r]
                elif r is not None and r1 is not None:
                    r = self.joinv(r, r1, ('mo', id(n), self.frame.ctx))
            self.become(st, j)
            return r
        return self.inline(f, self_lv, args, n, st, want)

    def inline(self, f, this, args, n, st, want='val'):
        fid = f['fid']
        fr = self.frame
        if self.active.count(fid) >= 2 or fr.depth > 40:
            return self.opaque(n, [this] if this is not None else None, args, st, want)
        stop = self.opts.get('opaque')
        if stop and stop(f):
            return self.opaque(n, [this] if this is not None else None, args, st, want)
        self.stats['inlined'].add(fid)
        ctx = self.ctx(fr.ctx, id(n))
        lex = None
        if f.get('kind') == 'lambda' or 'operator()' == f.get('sn') and '(lambda' in (f.get('cls') or '') or '(anonymous class)' in (f.get('cls') or ''):
            lex = getattr(self, 'lamframe', {}).get(fid) or fr
        nf = Frame(f, ctx, this if lex is None else None, fr, lex)
        nf.rett = f.get('rt', 'void')
        nf.isref = isref(nf.rett)
        s0 = st.split
        h = self.hooks.get('enter')
        if h:
            h(self, f, this, args, n, st)
        # bind parameters
        binds = []
        for i, p in enumerate(f.get('params', [])):
            a = args[i] if i < len(args) else None
            pt = p['t']
            b = ('L', ctx, p['d'])
            if a is None:
                st.m[b] = {}
                st.own.add(b)
                if p.get('def') is not None:
                    if self.is_class(pt):
                        self.construct(LV(b), pt, p['def'], st)
                    else:
                        st.put(b, (), self.ev(p['def'], st))
                else:
                    if self.is_class(pt):
                        st.put(b, ('#def',), self.fresh('dflt', n))
                    else:
                        st.put(b, (), self.fresh('dflt', n, self.is_int_t(pt), extra=(i,)))
            elif isref(pt):
                ls = self.lvs(a, st) if (a.get('lv') or not self.is_class(a.get('t', ''))) else self.evo(a, st)
                # a reference to a different scalar type binds a converted temporary
                st.m[b] = {}
                st.own.add(b)
                st.put(b, ('&',), Val((A(('ref', id(p))),), ptrs=tuple(ls)))
            elif self.is_class(pt):
                st.m[b] = {}
                st.own.add(b)
                self.construct(LV(b), pt, a, st)
            else:
                v = self.conv(self.ev(a, st), a.get('t', ''), pt, a, st)
                st.m[b] = {}
                st.own.add(b)
                st.put(b, (), v)
            binds.append((p['d'], b))
        sb = self.opts.get('stub')
        if sb:
            rr = sb(self, f, this, binds, n, st)
            if rr is not None:
                return self.shape(rr, n, st, want) if n['k'] != 'ctor' else rr
        for d, b in binds:
            nf.vars[d] = b
            nf.bases.append(b)
        self.frame = nf
        self.active.append(fid)
        try:
            o = Out()
            dead = False
            if f.get('kind') == 'ctor' and this is not None:
                def g():
                    self.ctor_prolog(f, this, st)
                    return st
                r, t, tt = self.guarded(n, st, g)
                self.addt(o, t, tt, n)
                dead = r is None
            if not dead and f.get('body'):
                b = f['body']
                if b.get('k') == 'try':
                    p = self.s_try(b, st)
                else:
                    p = self.stmt(b, st)
                self.merge(o, p, n, s0)
                o.n = p.n
            elif not dead:
                o.n = st
        finally:
            self.frame = fr
            self.active.pop()
        rb = ('R', ctx)
        if o.n is not None and o.r is not None:
            o.n.m.pop(rb, None)
            e = self.joins(o.r, o.n, (id(n), fr.ctx, 'ret'), s0)
        else:
            e = o.r if o.r is not None else o.n
        if o.t is not None:
            for b in nf.bases:
                o.t.m.pop(b, None)
            self.throwto(o.t, o.tt, n)
        if e is None:
            raise Dead()
        x = s0
        if o.t is not None:
            x = x | o.t.split
        e.split = x
        keep = None
        r = None
        d = e.m.get(rb)
        rt = nf.rett
        if nf.isref:
            v = d.get(('&',)) if d else None
            ls = list(v.ptrs) if v is not None else [LV(('O', ('ret', fid)))]
            e.m.pop(rb, None)
            keep = set(l.base for l in ls)
            r = ls
        elif self.is_class(rt):
            if d is None:
                e.m[rb] = {('#def',): Val((A(('noret', fid)),), prov=UNK)}
            fr.bases.append(rb)
            r = [LV(rb)]
        else:
            r = d.get(()) if d else None
            e.m.pop(rb, None)
            if r is None:
                r = Val((A(('noret', fid)),), prov=UNK) if unref(rt) != 'void' else K(0)
        for b in nf.bases:
            if keep and b in keep:
                fr.bases.append(b)
                continue
            if b[0] == 'R' or (r.__class__ is Val and any(p.base == b for p in r.ptrs)):
                if r.__class__ is Val and any(p.base == b for p in r.ptrs):
                    fr.bases.append(b)
                    continue
            e.m.pop(b, None)
        self.become(st, e)
        h = self.hooks.get('leave')
        if h:
            h(self, f, this, n, st, r)
        return self.shape(r, n, st, want) if n['k'] != 'ctor' else r

    def ctor_prolog(self, f, this, st):
        """bases, member initialisers and default member initialisers"""
        cls = f.get('cls') or ''
        rec = self.F.records.get(cls)
        inits = f.get('inits') or []
        given = {}
        deleg = False
        done_bases = set()
        order = []
        for i in inits:
            if i.get('field'):
                given[i.get('n') or i['field'].split('::')[-1]] = i
            elif i.get('base'):
                done_bases.add(unref(i['base']))
            elif i.get('deleg'):
                deleg = True
        if not deleg:
            self.clear(st, this, Val((A(('ui', this.base, this.path)),), prov=UNINIT))
        for i in inits:
            e = i.get('e') or i.get('init')
            if i.get('field'):
                continue
            bt = unref(i.get('base') or i.get('deleg') or cls)
            if e is not None and e['k'] == 'ctor':
                ck = self.ckind(bt)
                if ck:
                    self.M.vec_ctor(self, this, bt, ck, e.get('c', []), e, st)
                else:
                    self.run_base_ctor(this, bt, e, st)
            elif e is not None:
                pass
        if deleg or rec is None:
            return
        for fd in rec.get('fields', []):
            i = given.get(fd['n'])
            e = (i.get('e') or i.get('init')) if i else fd.get('init')
            ft = fd['t']
            lv = this.f(fd['n'])
            if e is None:
                if self.is_class(ft):
                    self.construct(lv, ft, None, st)
                continue
            if isref(ft):
                ls = self.lvs(e, st)
                st.put(lv.base, lv.path + ('&',), Val((A(('ref', fd['n'])),), ptrs=tuple(ls)))
            elif self.is_class(ft) or unref(ft).endswith(']'):
                self.construct(lv, ft, e, st)
            elif e['k'] == 'zero':
                st.put(lv.base, lv.path, K(0, INIT0))
            else:
                self.wr([lv], self.conv(self.ev(e, st), e.get('t', ''), ft, e, st), e, st)

    def run_base_ctor(self, this, bt, e, st):
        f = self.F.funcs.get(e.get('fid'))
        if f is not None and (f.get('body') is not None) and not f.get('impl'):
            # keep fields that other bases or the object have: fields are flat
            saved = [(k, v) for k, v in self.under(st, this)]
            self.inline(f, this, e.get('c', []), e, st)
            for k, v in saved:
                if k and k[-1] != '#def' and st.get(this.base, this.path + k) is None:
                    st.put(this.base, this.path + k, v)
            return
        rec = self.F.records.get(bt)
        if rec is not None:
            self.init_fields(this, rec, {}, st)


def n_cls(t):
    return unref(t).split('<')[0]


def _e_call(self, n, st):
    return self.call(n, st, 'val')


Engine.e_call = Engine.e_mcall = Engine.e_ocall = _e_call
