"""An abstract interpreter for the Python wrapper.

The wrapper's syntax tree is interpreted over abstract values.  The C library is the
only thing given a meaning: a call of a C function has the two abstract outcomes
"reported failure" and "succeeded", everything else that is not a literal is unknown.
Every unknown decision is taken both ways (the run is repeated with another list of
decisions until all are exhausted)."""
import ast
from facts import CheckError


class PyRaise(Exception):
    def __init__(self, what, node, fail=None):
        self.what, self.node, self.fail = what, node, fail


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class Abort(Exception):
    """This path is not interesting any further."""


class Unk:
    key = None          # item: the index; arith: the operator; slice: its bounds
    src = ()            # further origins, not followed for uses

    def __init__(self, why='', parts=(), key=None, src=()):
        self.why = why
        self.parts = tuple(parts)
        if key is not None:
            self.key = key
        if src:
            self.src = tuple(src)


class Num(Unk):
    """Unknown number >= lo."""

    def __init__(self, lo, why=''):
        Unk.__init__(self, why)
        self.lo = lo


class Ext:
    def __init__(self, name):
        self.name = name


class Lib:
    pass


class LibFn:
    def __init__(self, name):
        self.name = name
        self.restype = None
        self.argtypes = None
        self.errcheck = None


class Fail:
    """The value by which a C call reported failure."""

    def __init__(self, fn, node, val):
        self.fn, self.node, self.val = fn, node, val   # val: -1 | None | 'NULL'


class Handle:
    """A valid pointer returned by a C call."""

    def __init__(self, fn, node, ident, nullobj=False):
        self.fn, self.node, self.ident = fn, node, ident


class Func:
    def __init__(self, node, env, cls=None, name=''):
        self.node, self.env, self.cls, self.name = node, env, cls, name
        self.static = self.prop = self.klass = False


class Cls:
    def __init__(self, name, bases, ns):
        self.name, self.bases, self.ns = name, bases, ns

    def find(self, n):
        if n in self.ns:
            return self.ns[n]
        for b in self.bases:
            if isinstance(b, Cls):
                r = b.find(n)
                if r is not None:
                    return r
        return None


class Inst:
    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}


class Bound:
    def __init__(self, f, obj):
        self.f, self.obj = f, obj


class Env:
    def __init__(self, parent=None, isclass=False):
        self.v = {}
        self.parent = parent
        self.isclass = isclass
        self.globals_ = set()
        self.nonlocal_ = set()

    def root(self):
        e = self
        while e.parent:
            e = e.parent
        return e

    def get(self, n):
        e = self
        first = True
        while e is not None:
            if (first or not e.isclass) and n in e.v:
                return e.v[n]
            first = False
            e = e.parent
        raise KeyError(n)

    def set(self, n, v):
        if n in self.globals_:
            self.root().v[n] = v
        elif n in self.nonlocal_:
            e = self.parent
            while e is not None and n not in e.v:
                e = e.parent
            (e or self).v[n] = v
        else:
            self.v[n] = v


BUILTIN = {'getattr', 'setattr', 'hasattr', 'isinstance', 'len', 'range', 'print', 'int', 'float', 'bool', 'str',
           'list', 'tuple', 'dict', 'zip', 'enumerate', 'min', 'max', 'abs', 'super', 'vars', 'globals', 'id', 'repr',
           'sorted', 'set', 'map', 'filter', 'any', 'all', 'type', 'callable', 'sum', 'iter', 'next', 'object',
           'property', 'staticmethod', 'classmethod', 'format', 'bytes', 'slice', 'reversed', 'complex', 'round'}


class Interp:
    MAXSTEP = 60000

    def __init__(self, kinds, sizeof_comm):
        self.kinds = kinds            # C function -> 'status' | 'ptr' | 'num+' | 'num0' | 'other'
        self.sizeof_comm = sizeof_comm
        self.dec = []
        self.pos = 0
        self.pre = []
        self.events = []
        self.fails = []               # failures reported so far on this path
        self.fns = {}
        self.nid = 0
        self.step = 0
        self.phase = 'module'
        self.on_call = None
        self.depth = 0
        self.noforkcalls = False
        self.stores = {}              # id of an unknown object -> what was stored into it, in order
        self.keep = []
        self.everattr = set()

    # -- decisions
    def choose(self, n=2):
        if self.pos < len(self.dec):
            v = self.dec[self.pos][0]
        else:
            v = 0
            self.dec.append([0, n])
        self.pos += 1
        return v

    def next_path(self):
        while self.dec and self.dec[-1][0] + 1 >= self.dec[-1][1]:
            self.dec.pop()
        if not self.dec:
            return False
        self.dec[-1][0] += 1
        return True

    # -- truth
    def truth(self, v):
        if isinstance(v, Fail):
            return v.val not in (None, 'NULL', 0)
        if isinstance(v, (Handle, Func, Cls, Inst, Bound, Ext, Lib, LibFn)):
            if isinstance(v, Inst) and (v.cls.find('__bool__') or v.cls.find('__len__')):
                return bool(self.choose())
            return True
        if isinstance(v, Num) and v.lo > 0:
            return True
        if isinstance(v, Unk):
            return self.choose() == 0
        if isinstance(v, (list, tuple, dict, set)):
            return bool(v)
        return bool(v)

    # -- running
    def block(self, body, env):
        for s in body:
            self.stmt(s, env)

    def stmt(self, s, env):
        self.step += 1
        if self.step > self.MAXSTEP:
            raise Abort()
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise CheckError('python statement %s at line %d is not understood' % (type(s).__name__, s.lineno))
        return m(s, env)

    def s_Import(self, s, env):
        for a in s.names:
            env.set(a.asname or a.name.split('.')[0], Ext(a.name if a.asname else a.name.split('.')[0]))

    def s_ImportFrom(self, s, env):
        for a in s.names:
            if a.name != '*':
                env.set(a.asname or a.name, Ext((s.module or '') + '.' + a.name))

    def s_Pass(self, s, env):
        pass

    def s_Global(self, s, env):
        env.globals_ |= set(s.names)

    def s_Nonlocal(self, s, env):
        env.nonlocal_ |= set(s.names)

    def s_Expr(self, s, env):
        self.ev(s.value, env)

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def s_AugAssign(self, s, env):
        ld = ast.copy_location(type(s.target)(**{**{f: getattr(s.target, f) for f in s.target._fields}, 'ctx': ast.Load()}), s.target)
        v = self.binop(s.op, self.ev(ld, env), self.ev(s.value, env), s)
        self.assign(s.target, v, env)

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.v.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, env)
                if isinstance(o, Inst):
                    if t.attr not in o.attrs:
                        raise PyRaise('AttributeError', s)
                    o.attrs.pop(t.attr, None)
            else:
                self.ev(t.value, env)

    def s_Assert(self, s, env):
        # assertions can be switched off: they do not count as checks
        pass

    def s_If(self, s, env):
        self.block(s.body if self.truth(self.ev(s.test, env)) else s.orelse, env)

    def iterate(self, v):
        """Concrete items, or None when unknown."""
        if isinstance(v, (list, tuple, str, set, range)):
            return list(v)
        if isinstance(v, dict):
            return list(v.keys())
        return None

    def s_For(self, s, env):
        it = self.ev(s.iter, env)
        items = self.iterate(it)
        if items is None:
            self.use(it, s)
            items = [Unk('item', (it,))] if self.choose() == 0 else []
        for x in items:
            self.assign(s.target, x, env)
            try:
                self.block(s.body, env)
            except _Break:
                return
            except _Continue:
                continue
        self.block(s.orelse, env)

    def s_While(self, s, env):
        n = 0
        while n < 3:
            n += 1
            if not self.truth(self.ev(s.test, env)):
                self.block(s.orelse, env)
                return
            try:
                self.block(s.body, env)
            except _Break:
                return
            except _Continue:
                continue
        raise Abort()

    def s_With(self, s, env):
        for it in s.items:
            v = self.ev(it.context_expr, env)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v if isinstance(v, Inst) else Unk('with', (v,)), env)
        self.block(s.body, env)

    def s_Try(self, s, env):
        try:
            try:
                self.block(s.body, env)
            except PyRaise as e:
                for h in s.handlers:
                    if self.catches(h.type, e):
                        if h.name:
                            env.set(h.name, Unk('exception'))
                        old = getattr(self, 'cur_exc', None)
                        self.cur_exc = e
                        try:
                            self.block(h.body, env)
                        finally:
                            self.cur_exc = old
                        break
                else:
                    raise
            else:
                self.block(s.orelse, env)
        finally:
            # runs on every exit; python semantics are the same
            import sys
            if not isinstance(sys.exc_info()[1], Abort):
                self.block(s.finalbody, env)

    def catches(self, t, e):
        if t is None:
            return True
        names = [ast.unparse(x) for x in (t.elts if isinstance(t, ast.Tuple) else [t])]
        w = e.what or ''
        sup = {'RuntimeError': ['RuntimeError', 'Exception', 'BaseException'],
               'OSError': ['OSError', 'IOError', 'EnvironmentError', 'Exception', 'BaseException'],
               'ValueError': ['ValueError', 'Exception', 'BaseException'],
               'AttributeError': ['AttributeError', 'Exception', 'BaseException'],
               'TypeError': ['TypeError', 'Exception', 'BaseException'],
               'MemoryError': ['MemoryError', 'Exception', 'BaseException'],
               'IndexError': ['IndexError', 'LookupError', 'Exception', 'BaseException'],
               'KeyError': ['KeyError', 'LookupError', 'Exception', 'BaseException']}.get(w)
        if sup is None:
            sup = [w, 'Exception', 'BaseException', 'RuntimeError']
        return any(n in sup for n in names)

    s_TryStar = s_Try

    def s_Raise(self, s, env):
        w = None
        if s.exc is not None:
            x = s.exc
            f = x.func if isinstance(x, ast.Call) else x
            if isinstance(f, ast.Name):
                w = f.id
            self.in_raise = True
            try:
                self.ev(x, env)
            finally:
                self.in_raise = False
        else:
            c = getattr(self, 'cur_exc', None)
            w = c.what if c else 'RuntimeError'
        raise PyRaise(w or 'RuntimeError', s)

    in_raise = False

    def s_Return(self, s, env):
        raise _Return(self.ev(s.value, env) if s.value is not None else None)

    def s_Break(self, s, env):
        raise _Break()

    def s_Continue(self, s, env):
        raise _Continue()

    def s_FunctionDef(self, s, env):
        f = Func(s, env, name=s.name)
        for d in s.decorator_list:
            n = ast.unparse(d)
            if n == 'staticmethod':
                f.static = True
            elif n == 'property':
                f.prop = True
            elif n == 'classmethod':
                f.klass = True
            else:
                dv = self.ev(d, env)
                if isinstance(dv, (Func, Bound)):
                    f = self.call(dv, [f], {}, s)
        env.set(s.name, f)

    def s_ClassDef(self, s, env):
        bases = [self.ev(b, env) for b in s.bases]
        e = Env(env, isclass=True)
        self.block(s.body, e)
        env.set(s.name, Cls(s.name, bases, e.v))

    # -- assignment
    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env.set(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.iterate(v)
            if items is not None and len(items) == len(t.elts):
                for a, b in zip(t.elts, items):
                    self.assign(a, b, env)
            else:
                for a in t.elts:
                    self.assign(a.value if isinstance(a, ast.Starred) else a, Unk('unpacked', (v,)), env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            self.setattr_(o, t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            k = self.ev(t.slice, env) if not isinstance(t.slice, ast.Slice) else None
            if isinstance(o, Unk):
                b = k
                if isinstance(t.slice, ast.Slice):
                    b = tuple(self.ev(x, env) if x is not None else None for x in (t.slice.lower, t.slice.upper, t.slice.step))
                self.stores.setdefault(id(o), []).append((b, v, t))
                self.keep.append(o)
            if isinstance(o, dict) and isinstance(k, (str, int)):
                o[k] = v
            elif isinstance(o, list) and isinstance(k, int) and -len(o) <= k < len(o):
                o[k] = v
            elif isinstance(o, list):
                o.append(v)
            else:
                self.use(o, t)
                self.use(v, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)

    def setattr_(self, o, n, v, node):
        if isinstance(o, Inst):
            o.attrs[n] = v
            self.everattr.add(n)
        elif isinstance(o, LibFn):
            if n == 'restype':
                o.restype = (v, node)
            elif n == 'argtypes':
                o.argtypes = (v, node)
            elif n == 'errcheck':
                o.errcheck = v
        elif isinstance(o, Cls):
            o.ns[n] = v

    def getattr_(self, o, n, node):
        if isinstance(o, Lib):
            if n not in self.fns:
                self.fns[n] = LibFn(n)
            return self.fns[n]
        if isinstance(o, LibFn):
            if n in ('restype', 'argtypes'):
                x = getattr(o, n)
                return x[0] if x else None
            return Unk(n)
        if isinstance(o, Ext):
            return Ext(o.name + '.' + n)
        if isinstance(o, Inst):
            if n in o.attrs:
                return o.attrs[n]
            if n == '__class__':
                return o.cls
            if n == '__dict__':
                return o.attrs
            f = o.cls.find(n)
            if f is None:
                ga = o.cls.find('__getattr__')
                if isinstance(ga, Func):
                    return self.call(Bound(ga, o), [n], {}, node)
                # an attribute some method sets is missing on this path
                raise PyRaise('AttributeError', node)
            if isinstance(f, Func):
                if f.prop:
                    return self.call(Bound(f, o), [], {}, node)
                return f if f.static else Bound(f, o.cls if f.klass else o)
            return f
        if isinstance(o, Cls):
            f = o.find(n)
            if f is not None:
                return Bound(f, o) if isinstance(f, Func) and f.klass else f
            if n == '__name__':
                return o.name
            return Unk(n)
        if isinstance(o, (list, dict, str, tuple, set)):
            return ('method', o, n)
        if isinstance(o, tuple) and o and o[0] == 'super':
            pass
        if isinstance(o, _Super):
            for b in o.cls.bases:
                if isinstance(b, Cls):
                    f = b.find(n)
                    if f is not None:
                        return Bound(f, o.obj) if isinstance(f, Func) and not f.static else f
            return Unk('super.' + n)
        if isinstance(o, Fail):
            self.use(o, node)
            return Unk(n, (o,))
        return Unk(n, (o,))

    # -- uses of failure values
    def use(self, v, node, depth=0):
        if isinstance(v, Fail):
            if not self.in_raise and self.phase != 'del':
                self.events.append(('use', v, node))
        elif isinstance(v, Unk) and depth < 4:
            for p in v.parts:
                self.use(p, node, depth + 1)
        elif isinstance(v, (list, tuple, set)) and depth < 4:
            for p in v:
                self.use(p, node, depth + 1)

    # -- expressions
    def ev(self, e, env):
        self.step += 1
        if self.step > self.MAXSTEP:
            raise Abort()
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise CheckError('python expression %s at line %d is not understood' % (type(e).__name__, e.lineno))
        return m(e, env)

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        try:
            return env.get(e.id)
        except KeyError:
            if e.id in BUILTIN or e.id in ('__file__', '__name__', '__all__'):
                return Ext('builtins.' + e.id)
            if e.id.endswith(('Error', 'Exception', 'Warning')) or e.id in ('True', 'False', 'None', 'StopIteration'):
                return Ext('builtins.' + e.id)
            return Unk(e.id)

    def e_Attribute(self, e, env):
        return self.getattr_(self.ev(e.value, env), e.attr, e)

    def e_Tuple(self, e, env):
        return tuple(self.elts(e.elts, env))

    def e_List(self, e, env):
        return list(self.elts(e.elts, env))

    def e_Set(self, e, env):
        return list(self.elts(e.elts, env))

    def elts(self, xs, env):
        out = []
        for x in xs:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, env)
                it = self.iterate(v)
                out += it if it is not None else [Unk('star', (v,))]
            else:
                out.append(self.ev(x, env))
        return out

    def e_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            vv = self.ev(v, env)
            if k is None:
                if isinstance(vv, dict):
                    d.update(vv)
                continue
            kk = self.ev(k, env)
            try:
                d[kk] = vv
            except TypeError:
                pass
        return d

    def e_JoinedStr(self, e, env):
        ok, out = True, ''
        for x in e.values:
            if isinstance(x, ast.Constant):
                out += str(x.value)
            else:
                v = self.ev(x.value, env)
                if isinstance(v, (str, int)):
                    out += str(v)
                else:
                    ok = False
        return out if ok else Unk('text')

    def e_FormattedValue(self, e, env):
        self.ev(e.value, env)
        return Unk('text')

    def e_Lambda(self, e, env):
        return Func(e, env, name='<lambda>')

    def e_IfExp(self, e, env):
        return self.ev(e.body if self.truth(self.ev(e.test, env)) else e.orelse, env)

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.assign(e.target, v, env)
        return v

    def e_Starred(self, e, env):
        return self.ev(e.value, env)

    def e_Await(self, e, env):
        return self.ev(e.value, env)

    def comp(self, e, env, f):
        env = Env(env)
        out = []

        def rec(i):
            if i == len(e.generators):
                out.append(f(env))
                return
            g = e.generators[i]
            it = self.ev(g.iter, env)
            items = self.iterate(it)
            if items is None:
                items = [Unk('item', (it,))]
            for x in items:
                self.assign(g.target, x, env)
                if all(self.truth(self.ev(c, env)) for c in g.ifs):
                    rec(i + 1)
        rec(0)
        return out

    def e_ListComp(self, e, env):
        return self.comp(e, env, lambda en: self.ev(e.elt, en))

    e_GeneratorExp = e_SetComp = e_ListComp

    def e_DictComp(self, e, env):
        d = {}
        for k, v in self.comp(e, env, lambda en: (self.ev(e.key, en), self.ev(e.value, en))):
            if isinstance(k, (str, int)):
                d[k] = v
        return d

    def e_BoolOp(self, e, env):
        v = None
        for x in e.values:
            v = self.ev(x, env)
            t = self.truth(v)
            if isinstance(e.op, ast.And) and not t:
                return v if not isinstance(v, Unk) else False
            if isinstance(e.op, ast.Or) and t:
                return v if not isinstance(v, Unk) or isinstance(v, Num) else True
        return v if not isinstance(v, Unk) else isinstance(e.op, ast.And)

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        if isinstance(v, (int, float)):
            return {ast.USub: lambda: -v, ast.UAdd: lambda: v, ast.Invert: lambda: ~int(v)}[type(e.op)]()
        if not isinstance(v, Unk):
            self.use(v, e)
        return Unk('unary', (v,))

    def num(self, v):
        if isinstance(v, Fail) and v.val == -1:
            return -1
        if isinstance(v, bool) or isinstance(v, (int, float)):
            return v
        return None

    def e_Compare(self, e, env):
        l = self.ev(e.left, env)
        for op, r in zip(e.ops, e.comparators):
            rv = self.ev(r, env)
            if not self.truth(self.compare(op, l, rv)):
                return False
            l = rv
        return True

    def compare(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)) or (isinstance(op, (ast.Eq, ast.NotEq)) and (a is None or b is None)):
            neg = isinstance(op, (ast.IsNot, ast.NotEq))
            if a is None or b is None:
                x = b if a is None else a
                if x is None:
                    r = True
                elif isinstance(x, Fail):
                    r = x.val is None
                elif isinstance(x, Unk) and not isinstance(x, Num):
                    r = self.choose() == 0
                else:
                    r = False
                return r != neg
            if isinstance(a, Unk) or isinstance(b, Unk):
                return self.choose() == 0
            return (a is b) != neg
        if isinstance(a, tuple) and a and a[0] == 'sizeof' and isinstance(b, tuple) and b and b[0] == 'sizeof':
            a, b = a[1], b[1]
        na, nb = self.num(a), self.num(b)
        O = {ast.Lt: lambda x, y: x < y, ast.LtE: lambda x, y: x <= y, ast.Gt: lambda x, y: x > y,
             ast.GtE: lambda x, y: x >= y, ast.Eq: lambda x, y: x == y, ast.NotEq: lambda x, y: x != y}
        if type(op) in O and na is not None and nb is not None:
            return O[type(op)](na, nb)
        if isinstance(a, Fail) or isinstance(b, Fail):
            f = a if isinstance(a, Fail) else b
            if isinstance(op, ast.Eq) and f.val in (None, 'NULL'):
                return False
            if isinstance(op, ast.NotEq) and f.val in (None, 'NULL'):
                return True
        if type(op) in O and isinstance(a, Num) and nb is not None:
            if isinstance(op, ast.Lt) and nb <= a.lo or isinstance(op, ast.LtE) and nb < a.lo or \
                    isinstance(op, ast.Eq) and nb < a.lo:
                return False
            if isinstance(op, ast.GtE) and nb <= a.lo or isinstance(op, ast.Gt) and nb < a.lo or \
                    isinstance(op, ast.NotEq) and nb < a.lo:
                return True
        if type(op) in O and isinstance(b, Num) and na is not None:
            fl = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE}.get(type(op), type(op))
            return self.compare(fl(), b, a)
        if isinstance(op, (ast.In, ast.NotIn)) and isinstance(b, (list, tuple, dict, str)):
            if not isinstance(a, Unk) and not any(isinstance(x, Unk) for x in b):
                try:
                    v = self.num(a)
                    r = (v if v is not None else a) in b
                    return r == isinstance(op, ast.In)
                except TypeError:
                    pass
        if type(op) in (ast.Eq, ast.NotEq) and isinstance(a, (str, Ext)) and isinstance(b, (str, Ext)):
            ka = a.name if isinstance(a, Ext) else a
            kb = b.name if isinstance(b, Ext) else b
            return (ka == kb) == isinstance(op, ast.Eq)
        return self.choose() == 0

    def e_BinOp(self, e, env):
        return self.binop(e.op, self.ev(e.left, env), self.ev(e.right, env), e)

    def binop(self, op, a, b, node):
        if isinstance(op, ast.Mod) and isinstance(a, str):
            return Unk('text')
        na, nb = self.num(a), self.num(b)
        if na is not None and nb is not None and not isinstance(a, Fail) and not isinstance(b, Fail):
            try:
                return {ast.Add: lambda: na + nb, ast.Sub: lambda: na - nb, ast.Mult: lambda: na * nb,
                        ast.FloorDiv: lambda: na // nb, ast.Div: lambda: na / nb, ast.Mod: lambda: na % nb,
                        ast.Pow: lambda: na ** nb}[type(op)]()
            except (KeyError, ZeroDivisionError):
                return Unk('arith')
        if isinstance(op, ast.Add) and isinstance(a, (list, tuple)) and type(a) is type(b):
            return a + b
        if isinstance(op, ast.Mult) and isinstance(a, (list, tuple)) and isinstance(b, int):
            return a * b
        if isinstance(op, ast.Add) and isinstance(a, str) and isinstance(b, str):
            return a + b
        for x in (a, b):
            if isinstance(x, Fail):
                self.use(x, node)
        return Unk('arith', (a, b), key=type(op).__name__)

    def e_Subscript(self, e, env):
        o = self.ev(e.value, env)
        if isinstance(e.slice, ast.Slice):
            b = [self.ev(x, env) if x is not None else None for x in (e.slice.lower, e.slice.upper, e.slice.step)]
            self.use(o, e)
            if isinstance(o, (list, tuple)) and all(x is None or isinstance(x, int) for x in b):
                return o[slice(*b)]
            return Unk('slice', (o,), key=tuple(b))
        k = self.ev(e.slice, env)
        if isinstance(o, dict) and isinstance(k, (str, int)) and k in o:
            return o[k]
        if isinstance(o, (list, tuple)) and isinstance(k, int) and -len(o) <= k < len(o):
            return o[k]
        if isinstance(o, Lib) and isinstance(k, str):
            return self.getattr_(o, k, e)
        self.use(o, e)
        return Unk('item', (o, k) if isinstance(k, Fail) else (o,), key=k if isinstance(k, (int, str)) else None,
                   src=() if isinstance(k, (int, str, Fail)) else (k,))

    def e_Slice(self, e, env):
        return Unk('slice')

    def e_Yield(self, e, env):
        return self.ev(e.value, env) if e.value else None

    def e_Call(self, e, env):
        args = self.elts(e.args, env)
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                if isinstance(v, dict):
                    kw.update({a: b for a, b in v.items() if isinstance(a, str)})
            else:
                kw[k.arg] = v
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            try:
                o = args[1] if len(args) > 1 else env.get('__self__')
                return _Super(o, args[0] if args else env.get('__defcls__'))
            except KeyError:
                return Unk('super')
        f = self.ev(e.func, env)
        return self.call(f, args, kw, e)

    def call(self, f, args, kw, node):
        if isinstance(f, LibFn):
            return self.libcall(f, args, node)
        if isinstance(f, Bound):
            if isinstance(f.f, Func):
                return self.pycall(f.f, [f.obj] + list(args), kw, node)
            return Unk('call')
        if isinstance(f, Func):
            return self.pycall(f, args, kw, node)
        if isinstance(f, Cls):
            o = Inst(f)
            i = f.find('__init__')
            if isinstance(i, Func):
                self.pycall(i, [o] + list(args), kw, node)
            return o
        if isinstance(f, tuple) and f and f[0] == 'method':
            return self.bmethod(f[1], f[2], args, node)
        if isinstance(f, Inst):
            c = f.cls.find('__call__')
            if isinstance(c, Func):
                return self.pycall(c, [f] + list(args), kw, node)
        if isinstance(f, Ext):
            return self.extcall(f.name, args, kw, node)
        # a method of an unknown object, or an unknown callable
        self.events.append(('call', f, tuple(args), kw, node))
        for a in list(args) + list(kw.values()):
            self.use(a, node)
        if isinstance(f, Unk):
            self.use(f, node)
        return Unk('call', tuple(args), src=(f,) + tuple(kw.values()) if isinstance(f, Unk) else tuple(kw.values()))

    def bmethod(self, o, n, args, node):
        if isinstance(o, str):
            if n == 'format':
                return Unk('text')
            if n in ('encode', 'strip', 'lower', 'upper'):
                return o
            return Unk('text')
        if isinstance(o, list) and n == 'append':
            o.append(args[0])
            return None
        if isinstance(o, list) and n == 'extend' and self.iterate(args[0]) is not None:
            o.extend(self.iterate(args[0]))
            return None
        if isinstance(o, dict):
            if n == 'items':
                return [(k, v) for k, v in o.items()]
            if n == 'keys':
                return list(o)
            if n == 'values':
                return list(o.values())
            if n == 'get' and args and isinstance(args[0], (str, int)):
                return o.get(args[0], args[1] if len(args) > 1 else None)
            if n == 'pop' and args and isinstance(args[0], (str, int)):
                return o.pop(args[0], args[1] if len(args) > 1 else None)
            if n == 'update' and args and isinstance(args[0], dict):
                o.update(args[0])
                return None
            if n == 'clear':
                o.clear()
                return None
        if isinstance(o, list) and n == 'clear':
            o.clear()
            return None
        for a in args:
            self.use(a, node)
        return Unk('method', (o,))

    def extcall(self, name, args, kw, node):
        last = name.split('.')[-1]
        if last in ('CDLL', 'PyDLL', 'load_library', 'LoadLibrary'):
            return Lib()
        if name == 'builtins.getattr' and len(args) >= 2 and isinstance(args[1], str):
            try:
                return self.getattr_(args[0], args[1], node)
            except PyRaise:
                if len(args) > 2:
                    return args[2]
                raise
        if name == 'builtins.setattr' and len(args) == 3 and isinstance(args[1], str):
            self.setattr_(args[0], args[1], args[2], node)
            return None
        if name == 'builtins.hasattr' and len(args) == 2 and isinstance(args[0], (Inst, Lib)):
            if isinstance(args[0], Lib):
                return True
            return args[1] in args[0].attrs or args[0].cls.find(args[1]) is not None
        if name in ('builtins.list', 'builtins.tuple', 'builtins.sorted', 'builtins.set') and len(args) == 1:
            it = self.iterate(args[0])
            if it is not None:
                return list(it)
        if name == 'builtins.dict' and not args:
            return dict(kw)
        if name == 'builtins.zip' and all(self.iterate(a) is not None for a in args):
            return [tuple(x) for x in zip(*[self.iterate(a) for a in args])]
        if name == 'builtins.enumerate' and args and self.iterate(args[0]) is not None:
            return [(i, x) for i, x in enumerate(self.iterate(args[0]))]
        if name == 'builtins.range' and all(isinstance(a, int) for a in args):
            return list(range(*args))[:64]
        if name == 'builtins.len' and args and self.iterate(args[0]) is not None:
            return len(self.iterate(args[0]))
        if name == 'builtins.bool' and args:
            return self.truth(args[0])
        if name in ('builtins.int', 'builtins.float') and args and (isinstance(args[0], (Num, Fail, int, float))):
            return args[0]
        if name == 'builtins.isinstance':
            return Unk('isinstance')
        if name in ('builtins.print', 'builtins.str', 'builtins.repr', 'builtins.format', 'builtins.vars',
                    'builtins.id', 'builtins.type'):
            return Unk('text')
        if last.endswith(('Error', 'Exception', 'Warning')):
            return Unk('exception')
        if last == '_sizeof' or (last == 'sizeof' and args):
            a = args[0] if args else None
            n = a.name if isinstance(a, Ext) else ''
            if n.endswith('MPI.Comm') or n.endswith('.Comm'):
                return ('sizeof', self.sizeof_comm)
            s = ctsize(a)
            return ('sizeof', s) if s else Unk('sizeof')
        if last in ('POINTER', 'ndpointer'):
            return ('POINTER', args[0] if args else kw.get('dtype'))
        if last in ('from_address', 'byref', 'pointer', 'addressof', 'cast', 'memmove'):
            for a in args:
                self.use(a, node)
            if last == 'memmove' and len(args) > 1:
                self.events.append(('memmove', args[0], args[1], list(self.stores.get(id(args[1]), ())), node))
            if last == 'from_address':
                return Unk('ctype', (), src=tuple(args))
            return Unk(last, tuple(args))
        if last == 'finalize':
            self.events.append(('finalize', tuple(args)))
            return Unk('finalizer')
        if last == 'warn' and name.startswith('warnings'):
            return None
        if last in ('write', 'flush') and 'std' in name:
            return None
        if last in ('debug', 'info', 'warning', 'error', 'exception', 'critical'):
            return None
        for a in list(args) + list(kw.values()):
            self.use(a, node)
        ctn = name.split('.')
        if ctn[0] == 'ctypes' and len(ctn) == 2:
            return CData(ctn[1], args)
        self.events.append(('ext', name, tuple(args), kw, node))
        return Unk(name, tuple(args), src=tuple(kw.values()))

    def pycall(self, f, args, kw, node):
        self.depth += 1
        if self.depth > 40:
            self.depth -= 1
            raise Abort()
        try:
            env = Env(f.env)
            a = f.node.args
            pos = [x.arg for x in a.posonlyargs + a.args]
            dflt = [self.ev(d, f.env) for d in a.defaults]
            for i, n in enumerate(pos):
                if i < len(args):
                    env.v[n] = args[i]
                elif n in kw:
                    env.v[n] = kw.pop(n) if False else kw[n]
                else:
                    j = i - (len(pos) - len(dflt))
                    env.v[n] = dflt[j] if j >= 0 else Unk('param ' + n)
            if a.vararg:
                env.v[a.vararg.arg] = tuple(args[len(pos):])
            elif len(args) > len(pos):
                raise PyRaise('TypeError', node)
            for x, d in zip(a.kwonlyargs, a.kw_defaults):
                env.v[x.arg] = kw[x.arg] if x.arg in kw else (self.ev(d, f.env) if d is not None else Unk('param'))
            if a.kwarg:
                env.v[a.kwarg.arg] = {k: v for k, v in kw.items() if k not in pos}
            if args and pos and isinstance(args[0], Inst):
                env.v['__self__'] = args[0]
                c = args[0].cls
                # the class that defines f, for super()
                for k in mro(c):
                    if any(v is f for v in k.ns.values()):
                        env.v['__defcls__'] = k
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, env)
            try:
                self.block(f.node.body, env)
            except _Return as r:
                return r.v
            return None
        finally:
            self.depth -= 1

    def libcall(self, f, args, node):
        kind = self.kinds.get(f.name, 'other')
        self.events.append(('lib', f.name, tuple(args), node, self.phase))
        if self.on_call:
            self.on_call(f, args, node)
        for a in args:
            self.use(a, node)
        rt = f.restype[0] if f.restype else None
        isptr = isinstance(rt, tuple) and rt and rt[0] == 'POINTER'
        fail = not self.noforkcalls and kind != 'other' and self.choose() == 1
        if fail:
            v = Fail(f.name, node, -1 if kind != 'ptr' else ('NULL' if isptr else None))
            self.fails.append(v)
            self.events.append(('fail', v, node))
        elif kind == 'ptr':
            self.nid += 1
            v = Handle(f.name, node, self.nid)
        elif kind == 'status':
            v = 0
        elif kind == 'num+':
            v = Num(1)
        elif kind == 'num0':
            v = Num(0)
        else:
            v = Unk('result')
        self.events.append(('res', f.name, v, node))
        if f.errcheck is not None and isinstance(f.errcheck, (Func, Bound)):
            v = self.call(f.errcheck, [v, f, tuple(args)], {}, node)
        return v


class _Super:
    def __init__(self, obj, cls):
        self.obj, self.cls = obj, cls


class CData(Unk):
    def __init__(self, tn, args):
        Unk.__init__(self, tn, args)
        self.tn = tn


def mro(c):
    out = [c]
    for b in c.bases:
        if isinstance(b, Cls):
            out += mro(b)
    return out


SIZES = {'c_byte': ('i', 1), 'c_char': ('i', 1), 'c_ubyte': ('i', 1), 'c_bool': ('i', 1), 'c_int8': ('i', 1),
         'c_uint8': ('i', 1), 'c_short': ('i', 2), 'c_int16': ('i', 2), 'c_int': ('i', 4), 'c_int32': ('i', 4),
         'c_uint': ('u', 4), 'c_uint32': ('u', 4), 'c_long': ('i', 8), 'c_int64': ('i', 8), 'c_longlong': ('i', 8),
         'c_ssize_t': ('i', 8), 'c_ulong': ('u', 8), 'c_size_t': ('u', 8), 'c_uint64': ('u', 8),
         'c_float': ('f', 4), 'c_double': ('f', 8), 'c_void_p': ('p', 8), 'c_char_p': ('p', 8)}


def ctsize(v):
    if isinstance(v, Ext):
        s = SIZES.get(v.name.split('.')[-1])
        return s[1] if s else None
    return None
