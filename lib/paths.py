"""A path-sensitive interpreter over the extracted syntax trees with a small abstract
store: concrete integers, pointers to abstract locations and named unknowns.  Calls
inside the repository are inlined on request, branches on unknowns explore both sides
and remember the outcome.  Checkers derive from it and override the hooks."""
from facts import CheckError, walk

CMP = {'==': lambda a, b: a == b, '!=': lambda a, b: a != b, '<': lambda a, b: a < b,
       '>': lambda a, b: a > b, '<=': lambda a, b: a <= b, '>=': lambda a, b: a >= b}


class St:
    __slots__ = ('m', 'res', 'facts', 'x', 'exc', 'fr')

    def __init__(self):
        self.m = {}          # location -> value
        self.res = {}        # resource -> (family, state, site)
        self.facts = {}      # comparison of unknowns -> bool
        self.x = {}          # of the checker
        self.exc = None      # type of the exception in flight
        self.fr = 0

    def copy(self):
        s = St.__new__(St)
        s.m, s.res, s.facts, s.x = dict(self.m), dict(self.res), dict(self.facts), dict(self.x)
        s.exc, s.fr = self.exc, self.fr
        return s

    def key(self):
        return (frozenset(self.m.items()), frozenset(self.res.items()), frozenset(self.facts.items()),
                frozenset((k, v) for k, v in self.x.items()), self.exc)


def isptr(t):
    return (t or '').rstrip().rstrip('const').rstrip().endswith('*')


def isref(t):
    return (t or '').rstrip().endswith('&')


def bare(t):
    t = (t or '').replace('const ', '').replace('volatile ', '').strip()
    while t and t[-1] in '&* ':
        t = t[:-1]
    if t.endswith(' const'):
        t = t[:-6]
    return t


class Paths:
    MAXSTATES = 4000
    MAXDEPTH = 12
    LOOP = 3

    def __init__(self, fs, esc=None):
        self.fs, self.esc = fs, esc
        self.nodeid = {}
        self.stack = []       # functions being inlined
        self.excs = []        # exceptional states of the current context
        self.steps = 0
        self.budget = 400000
        self.this = []
        self.cut = 0
        self.ids = 0

    # ---------------------------------------------------------------- hooks
    def want_inline(self, f, n):
        return True

    def extcall(self, n, args, vals, objloc, st):
        """Result of a call that is not inlined: list of (value, state), or None for the default."""
        return None

    def use(self, how, v, n, st):
        """A value is used to decide, to address or as an argument."""

    def onnew(self, n, st):
        return [(('u', self.nid(n)), st)]

    def ondelete(self, n, v, st):
        return [st]

    def onwrite(self, loc, v, n, st):
        pass

    def deref(self, loc, n, st):
        pass

    def maythrow(self, n):
        return False

    def ondecl(self, v, loc, st):
        pass

    # ---------------------------------------------------------------- helpers
    def nid(self, n):
        i = self.nodeid.get(id(n))
        if i is None:
            i = self.nodeid[id(n)] = (len(self.nodeid) + 1, n)
        return i[0]

    def fresh(self, n, st, tag=''):
        """A new unknown for this node; older ones of the same node are set apart."""
        s = ('u', self.nid(n), tag)
        o = ('u', self.nid(n), tag + "'")
        hit = False
        for k, v in list(st.m.items()):
            if v == s:
                st.m[k] = o
                hit = True
        if st.facts:
            for k in list(st.facts):
                if s in k:
                    del st.facts[k]
        return s

    def loc(self, d, fr=None):
        if d.startswith('G:'):
            return d
        return '%s@%d' % (d, self.frame if fr is None else fr)

    def resolve(self, loc, st):
        """Follows a reference binding."""
        t = st.m.get('&' + loc)
        return t if t is not None else loc

    def kill(self, loc, st):
        """Forgets everything below a location."""
        p1, p2 = loc + '.', loc + '['
        for k in list(st.m):
            if k == loc or k.startswith(p1) or k.startswith(p2):
                del st.m[k]

    def load(self, loc, n, st):
        v = st.m.get(loc)
        if v is None:
            v = self.fresh(n, st, loc)
            v = self.initial(loc, v, n, st)
            st.m[loc] = v
        return v

    def initial(self, loc, v, n, st):
        if loc.startswith('G:'):
            g = self.fs.globals.get(loc)
            if g and g.get('const') and g.get('init'):
                c = self.const(g['init'])
                if c is not None:
                    return c
        return v

    def const(self, n):
        if n is None:
            return None
        if 'cv' in n:
            return n['cv']
        k = n.get('k')
        if k in ('int', 'flt'):
            return n['v']
        if k in ('null', 'zero'):
            return 0
        if k == 'ref' and n.get('dk') == 'enum':
            return n['v']
        if k == 'cast' and n.get('c'):
            return self.const(n['c'][0])
        if k == 'un' and n.get('op') == '-':
            v = self.const(n['c'][0])
            return -v if v is not None else None
        return None

    def store(self, loc, v, n, st):
        self.onwrite(loc, v, n, st)
        st.m[loc] = v

    def gc(self, s):
        if s.facts:
            live = {v for v in s.m.values() if isinstance(v, tuple)}
            for k in list(s.facts):
                for a in k[1:]:
                    if isinstance(a, tuple) and a[0] != 'p' and a not in live:
                        del s.facts[k]
                        break

    def dedupe(self, sts, key=lambda s: s.key()):
        seen, out = set(), []
        for s in sts:
            self.gc(s)
            k = key(s)
            if k not in seen:
                seen.add(k)
                out.append(s)
        if len(out) > self.MAXSTATES:
            self.cut += len(out) - self.MAXSTATES
            out = out[:self.MAXSTATES]
        return out

    def throw(self, t, st):
        st = st.copy()
        st.exc = t
        self.excs.append(st)

    # ---------------------------------------------------------------- locations
    def lv(self, n, st):
        """Locations an lvalue (or class-typed) expression denotes: list of (loc, state)."""
        k = n['k']
        if k == 'ref':
            if n.get('dk') == 'func':
                return [('F:' + n['d'], st)]
            if n.get('dk') == 'enum':
                return [('E:' + n['n'], st)]
            d = n['d']
            l = self.loc(d)
            if not d.startswith('G:') and l not in st.m and ('&' + l) not in st.m:
                # a variable of an enclosing frame (captured)
                for fr in range(self.frame - 1, -1, -1):
                    q = self.loc(d, fr)
                    if q in st.m or ('&' + q) in st.m or ('!' + q) in st.m:
                        l = q
                        break
            return [(self.resolve(l, st), st)]
        if k == 'mem':
            out = []
            b = n['c'][0]
            if n.get('arrow') or (isptr(b.get('t')) and b['k'] != 'this') or b['k'] == 'this':
                for v, s in self.ev(b, st):
                    for l in self.pointee(v, n, s):
                        self.deref(l, n, s)
                        out.append((self.resolve(l + '.' + n['n'], s), s))
            else:
                for l, s in self.lv(b, st):
                    out.append((self.resolve(l + '.' + n['n'], s), s))
            return out
        if k == 'un' and n.get('op') == '*':
            out = []
            for v, s in self.ev(n['c'][0], st):
                for l in self.pointee(v, n, s):
                    self.deref(l, n, s)
                    out.append((l, s))
            return out
        if k == 'sub':
            out = []
            for v, s in self.ev(n['c'][0], st):
                for i, s2 in self.ev(n['c'][1], s):
                    self.use('index', i, n, s2)
                    for l in self.pointee(v, n, s2):
                        self.deref(l, n, s2)
                        q = l if l.endswith('[]') else l + '[]'
                        out.append((q, s2))
            return out
        if k == 'cast':
            return self.lv(n['c'][0], st)
        if k == 'un' and n.get('op') in ('++', '--'):
            return [(self.lv1(n['c'][0], s), s) for v, s in self.ev(n, st)]
        if k == 'asg':
            return [(self.lv1(n['c'][0], s), s) for v, s in self.ev(n, st)]
        if k == 'cond':
            out = []
            t, f = self.branch(n['c'][0], st)
            for s in t:
                out += self.lv(n['c'][1], s)
            for s in f:
                out += self.lv(n['c'][2], s)
            return out
        if k == 'bin' and n.get('op') == ',':
            out = []
            for v, s in self.ev(n['c'][0], st):
                out += self.lv(n['c'][1], s)
            return out
        if k == 'this':
            return [(self.this[-1] or 'THIS?', st)]
        # an expression that yields a reference or a temporary
        out = []
        for v, s in self.ev(n, st):
            if isinstance(v, tuple) and v[0] == 'loc':
                out.append((v[1], s))
            else:
                t = 'T%d@%d' % (self.nid(n), self.frame)
                if k not in ('ctor', 'ilist'):
                    self.kill(t, s)
                    s.m[t] = v
                out.append((t, s))
        return out

    def lv1(self, n, st):
        r = self.lv(n, st)
        return r[0][0] if r else '?'

    def pointee(self, v, n, st):
        if isinstance(v, tuple) and v[0] == 'p':
            return [v[1]]
        if v == 0:
            return []
        if isinstance(v, tuple) and v[0] == 'loc':
            return [v[1]]
        return ['*%s' % (v,)]

    # ---------------------------------------------------------------- values
    def ev(self, n, st):
        """list of (value, state)"""
        if n is None:
            return [(None, st)]
        self.steps += 1
        if self.steps > self.budget:
            raise CheckError('path budget exhausted in %s' % (self.stack[-1] if self.stack else '?'))
        k = n['k']
        c = self.const(n)
        if c is not None and k not in ('call', 'mcall', 'ocall', 'asg', 'cond'):
            return [(c, st)]
        m = getattr(self, 'e_' + k, None)
        if m:
            return m(n, st)
        # anything else: evaluate the operands
        outs = [st]
        for x in n.get('c') or []:
            if isinstance(x, dict) and 'k' in x:
                outs = [s2 for s in outs for _, s2 in self.ev(x, s)]
        return [(self.fresh(n, s), s) for s in outs]

    def e_ref(self, n, st):
        if n.get('dk') == 'func':
            return [(('fn', n.get('fid') or n['d']), st)]
        return self.rvalue(n, st)

    def rvalue(self, n, st):
        out = []
        for l, s in self.lv(n, st):
            t = n.get('t', '')
            if t.endswith(']'):
                out.append((('p', l), s))
            else:
                out.append((self.load(l, n, s), s))
        return out

    e_mem = e_sub = rvalue

    def e_this(self, n, st):
        return [(('p', self.this[-1]) if self.this and self.this[-1] else self.fresh(n, st), st)]

    def e_str(self, n, st):
        return [(('p', 'STR%d' % self.nid(n)), st)]

    def e_null(self, n, st):
        return [(0, st)]

    def e_zero(self, n, st):
        return [(0, st)]

    def e_sizeof(self, n, st):
        return [(self.fresh(n, st), st)]

    def e_flt(self, n, st):
        return [(n['v'], st)]

    def e_cast(self, n, st):
        return [(v if not (isinstance(v, float) and 'Integral' in n.get('ck', '')) else int(v), s)
                for v, s in self.ev(n['c'][0], st)]

    def e_paren(self, n, st):
        return self.ev(n['c'][0], st)

    def e_ilist(self, n, st):
        outs = [st]
        v = None
        for x in n.get('c') or []:
            r = [q for s in outs for q in self.ev(x, s)]
            if len(n['c']) == 1 and len(r) == 1:
                v = r[0][0]
            outs = [s for _, s in r]
        return [(v if v is not None else (0 if not n.get('c') else self.fresh(n, s)), s) for s in outs]

    def e_lambda(self, n, st):
        return [(('lam', n['fid'], self.frame), st)]

    def e_un(self, n, st):
        op = n['op']
        if op == '&':
            x = n['c'][0]
            return [(('p', l), s) for l, s in self.lv(x, st)]
        if op == '*':
            return self.rvalue(n, st)
        if op == '!':
            return self.boolval(n, st)
        if op in ('++', '--'):
            out = []
            for l, s in self.lv(n['c'][0], st):
                v = self.load(l, n['c'][0], s)
                s = s.copy()
                if isinstance(v, (int, float)):
                    w = v + (1 if op == '++' else -1)
                elif isinstance(v, tuple) and v[0] == 'p':
                    w = v
                else:
                    w = self.fresh(n, s)
                self.store(l, w, n, s)
                out.append((v if n.get('post') else w, s))
            return out
        out = []
        for v, s in self.ev(n['c'][0], st):
            if isinstance(v, (int, float)) and op == '-':
                out.append((-v, s))
            elif isinstance(v, (int, float)) and op == '+':
                out.append((v, s))
            elif isinstance(v, int) and op == '~':
                out.append((~v, s))
            else:
                out.append((self.mix(n, [v], s), s))
        return out

    def mix(self, n, vs, st):
        """The value of an operation on something unknown."""
        return self.fresh(n, st)

    def boolval(self, n, st):
        t, f = self.branch(n, st)
        return [(1, s) for s in t] + [(0, s) for s in f]

    def e_bin(self, n, st):
        op = n['op']
        if op in ('&&', '||') or op in CMP:
            return self.boolval(n, st)
        out = []
        if op == ',':
            for _, s in self.ev(n['c'][0], st):
                out += self.ev(n['c'][1], s)
            return out
        for a, s in self.ev(n['c'][0], st):
            for b, s2 in self.ev(n['c'][1], s):
                out.append((self.arith(op, a, b, n, s2), s2))
        return out

    def arith(self, op, a, b, n, st):
        if isinstance(a, tuple) and a[0] == 'p' and op in '+-':
            if isinstance(b, tuple) and b[0] == 'p':
                return self.fresh(n, st)
            return a if b == 0 else ('p', a[1] if a[1].endswith('[]') else a[1] + '[]') if False else a
        if isinstance(b, tuple) and b[0] == 'p' and op == '+':
            return b
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            try:
                if op == '+':
                    return a + b
                if op == '-':
                    return a - b
                if op == '*':
                    return a * b
                if op == '&':
                    return a & b
                if op == '|':
                    return a | b
                if op == '/' and b:
                    return a // b if isinstance(a, int) and isinstance(b, int) and a >= 0 and b > 0 else a / b
                if op == '%' and isinstance(a, int) and isinstance(b, int) and a >= 0 and b > 0:
                    return a % b
            except TypeError:
                pass
        if op == '*' and (a == 0 or b == 0):
            return 0
        if op in '+-' and b == 0:
            return a
        if op == '+' and a == 0:
            return b
        return self.mix(n, [a, b], st)

    def e_cond(self, n, st):
        out = []
        t, f = self.branch(n['c'][0], st)
        if n.get('lv') or bare(n.get('t')) in self.fs.records:
            for s in t:
                out += [(('loc', l), q) for l, q in self.lv(n['c'][1], s)]
            for s in f:
                out += [(('loc', l), q) for l, q in self.lv(n['c'][2], s)]
            if not isref(n.get('t')) and bare(n.get('t')) not in self.fs.records:
                out = [(self.load(v[1], n, s), s) for v, s in out]
            return out
        for s in t:
            out += self.ev(n['c'][1], s)
        for s in f:
            out += self.ev(n['c'][2], s)
        return out

    def e_asg(self, n, st):
        op = n['op']
        l, r = n['c']
        out = []
        for v, s in self.ev(r, st):
            for loc, s2 in self.lv(l, s):
                s3 = s2.copy()
                if op != '=':
                    v2 = self.arith(op[:-1], self.load(loc, l, s3), v, n, s3)
                else:
                    v2 = v
                    if isinstance(v, tuple) and v[0] == 'loc':
                        self.copyobj(v[1], loc, s3)
                        out.append((v, s3))
                        continue
                    if bare(n.get('t')) in self.fs.crecords:
                        for src, s4 in self.lv(r, s3):
                            self.copyobj(src, loc, s4)
                            s3 = s4
                        out.append((v2, s3))
                        continue
                self.store(loc, v2, n, s3)
                out.append((v2, s3))
        return out

    def copyobj(self, a, b, st):
        if a == b:
            return
        new = {}
        for k, v in st.m.items():
            if k == a or k.startswith(a + '.') or k.startswith(a + '['):
                new[b + k[len(a):]] = v
        self.kill(b, st)
        st.m.update(new)

    def e_throw(self, n, st):
        if not n.get('tt'):
            for s in [st]:
                self.throw(s.x.get('cur') or '*', s)
            return []
        outs = [st]
        for x in n.get('c') or []:
            outs = [s2 for s in outs for _, s2 in self.ev(x, s)]
        for s in outs:
            self.throw(n['tt'], s)
        return []

    def e_new(self, n, st):
        outs = [st]
        if n.get('size'):
            outs = []
            for v, s in self.ev(n['size'], st):
                self.use('size', v, n, s)
                outs.append(s)
        out = []
        for s in outs:
            if not n.get('nothrow'):
                self.throw('std::bad_alloc', s)
            for v, s2 in self.onnew(n, s.copy()):
                if n.get('init') is not None:
                    i = n['init']
                    if i['k'] == 'ctor' and not n.get('arr') and isinstance(v, tuple) and v[0] == 'p':
                        e0 = self.excs
                        self.excs = []
                        r = self.construct(i, v[1], s2)
                        # a throwing constructor releases the memory again
                        for q in self.excs:
                            q2 = q.copy()
                            q2.res.pop(v[1], None)
                            e0.append(q2)
                        self.excs = e0
                        out += [(v, q) for q in r]
                    else:
                        out += [(v, q) for _, q in self.ev(i, s2)]
                else:
                    out.append((v, s2))
        return out

    def e_delete(self, n, st):
        out = []
        for v, s in self.ev(n['c'][0], st):
            s = s.copy()
            sts = [s]
            f = self.fs.funcs.get(n.get('dtor'))
            if f and isinstance(v, tuple) and v[0] == 'p' and not n.get('arr') and self.want_inline(f, n):
                sts = [q for _, q in self.inline(f, v[1], [], n, s)]
            for q in sts:
                out += [(None, z) for z in self.ondelete(n, v, q)]
        return out

    # ---------------------------------------------------------------- branches
    def branch(self, n, st):
        """-> (states where true, states where false)"""
        k = n['k']
        if k == 'un' and n.get('op') == '!':
            t, f = self.branch(n['c'][0], st)
            return f, t
        if k == 'bin' and n.get('op') in ('&&', '||'):
            t, f = self.branch(n['c'][0], st)
            T, F = [], []
            if n['op'] == '&&':
                F += f
                for s in t:
                    a, b = self.branch(n['c'][1], s)
                    T += a
                    F += b
            else:
                T += t
                for s in f:
                    a, b = self.branch(n['c'][1], s)
                    T += a
                    F += b
            return T, F
        if k == 'cast' and n.get('c') and ('Boolean' in n.get('ck', '') or n.get('t') in ('bool', '_Bool')):
            return self.branch(n['c'][0], st)
        if k == 'bin' and n.get('op') in CMP and self.const(n) is None:
            T, F = [], []
            for a, s in self.ev(n['c'][0], st):
                for b, s2 in self.ev(n['c'][1], s):
                    self.use('branch', a, n, s2)
                    self.use('branch', b, n, s2)
                    self.compare(n['op'], a, b, n, s2, T, F)
            return T, F
        T, F = [], []
        for v, s in self.ev(n, st):
            self.use('branch', v, n, s)
            self.compare('!=', v, 0, n, s, T, F)
        return T, F

    def known(self, op, a, b, st):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return CMP[op](a, b)
        pa, pb = isinstance(a, tuple) and a[0] in ('p', 'fn', 'lam'), isinstance(b, tuple) and b[0] in ('p', 'fn', 'lam')
        if op in ('==', '!='):
            if pa and b == 0 or pb and a == 0:
                return op == '!='
            if pa and pb and a[0] == 'p' == b[0] and '*' not in a[1] + b[1]:
                return (a == b) == (op == '==')
        if a == b and a is not None:
            return op in ('==', '<=', '>=')
        return None

    def norm(self, op, a, b):
        """canonical comparison: (key, negated)"""
        neg = False
        if op == '!=':
            op, neg = '==', True
        elif op == '>':
            op, a, b = '<', b, a
        elif op == '<=':
            op, a, b, neg = '<', b, a, True
        elif op == '>=':
            op, neg = '<', True
        if op == '==' and repr(a) > repr(b):
            a, b = b, a
        return (op, a, b), neg

    def compare(self, op, a, b, n, st, T, F):
        r = self.known(op, a, b, st)
        if r is None and a is not None and b is not None:
            key, neg = self.norm(op, a, b)
            if key in st.facts:
                r = st.facts[key] != neg
            elif key[0] == '<':
                e = self.norm('==', key[1], key[2])[0]
                if st.facts.get(e):
                    r = False != neg
                elif st.facts.get(('<', key[2], key[1])):
                    r = False != neg
            elif st.facts.get(('<', key[1], key[2])) or st.facts.get(('<', key[2], key[1])):
                r = False != neg
            if r is None:
                # unknown but known sign facts: v<=0 false etc. for unsigned comparisons against zero
                s1, s2 = st.copy(), st.copy()
                s1.facts[key] = not neg
                s2.facts[key] = neg
                self.refine(key, not neg, s1)
                self.refine(key, neg, s2)
                T.append(s1)
                F.append(s2)
                return
        if r is None:
            T.append(st.copy())
            F.append(st.copy())
        elif r:
            T.append(st)
        else:
            F.append(st)

    def refine(self, key, val, st):
        """x == constant: the unknown is that constant from here on."""
        op, a, b = key
        if op == '==' and val:
            c, u = (a, b) if isinstance(a, (int, float)) else (b, a)
            if isinstance(c, (int, float)) and isinstance(u, tuple) and u[0] == 'u':
                for k, v in list(st.m.items()):
                    if v == u:
                        st.m[k] = c

    # ---------------------------------------------------------------- calls
    def args(self, n, exprs, pts, st):
        """Evaluates arguments: list of ([('v', value) | ('l', loc)], state)"""
        outs = [([], st)]
        for i, a in enumerate(exprs):
            t = pts[i] if i < len(pts) else ''
            nxt = []
            for vs, s in outs:
                if isref(t) or bare(t) in self.fs.records or bare(a.get('t')) in self.fs.records:
                    for l, s2 in self.lv(a, s):
                        nxt.append((vs + [('l', l)], s2))
                else:
                    for v, s2 in self.ev(a, s):
                        nxt.append((vs + [('v', v)], s2))
            outs = nxt
        return outs

    def call(self, n, fid, objs, exprs, pts, st):
        """objs: list of (loc or None, state)"""
        out = []
        f = self.fs.funcs.get(fid) if fid else None
        for ol, s0 in objs:
            for vs, s in self.args(n, exprs, pts, s0):
                if f is not None and f.get('body') and len(self.stack) < self.MAXDEPTH and \
                        self.stack.count(fid) < 2 and self.want_inline(f, n):
                    out += self.inline(f, ol, vs, n, s)
                    continue
                for i, (kd, v) in enumerate(vs):
                    self.use('arg', s.m.get(v) if kd == 'l' else v, n, s)
                r = self.extcall(n, exprs, vs, ol, s)
                if r is None:
                    r = self.default_call(n, vs, pts, ol, s)
                out += r
        return out

    def default_call(self, n, vs, pts, ol, st):
        st = st.copy()
        if self.maythrow(n):
            self.throw('*', st)
        for i, (kd, v) in enumerate(vs):
            t = pts[i] if i < len(pts) else ''
            if t.startswith('const ') or (not isref(t) and not isptr(t)):
                continue
            if kd == 'l':
                self.kill(v, st)
            elif isinstance(v, tuple) and v[0] == 'p' and 'const ' not in t:
                self.kill(v[1], st)
        if ol is not None and not n.get('mconst') and n['k'] != 'ctor':
            self.kill(ol, st)
        if isref(n.get('rt')) or (n.get('lv') and n['k'] in ('call', 'mcall', 'ocall')):
            return [(('loc', (ol or 'X%d' % self.nid(n)) + '.<%s>' % n.get('sn')), st)]
        return [(self.fresh(n, st), st)]

    def e_call(self, n, st):
        pts = n.get('pt') or []
        if not n.get('fid') and n.get('fe'):
            out = []
            for v, s in self.ev(n['fe'], st):
                fid = v[1] if isinstance(v, tuple) and v[0] in ('fn',) else None
                out += self.call(n, fid, [(None, s)], n.get('c') or [], pts, s)
            return out
        return self.call(n, n.get('fid'), [(None, st)], n.get('c') or [], pts, st)

    def objloc(self, o, st):
        if isptr(o.get('t')):
            out = []
            for v, s in self.ev(o, st):
                for l in self.pointee(v, o, s):
                    self.deref(l, o, s)
                    out.append((l, s))
            return out
        return self.lv(o, st)

    def e_mcall(self, n, st):
        return self.call(n, n.get('fid'), self.objloc(n['obj'], st), n.get('c') or [], n.get('pt') or [], st)

    def e_ocall(self, n, st):
        c = n.get('c') or []
        if n.get('memop') and c:
            o = c[0]
            if n['op'] == '()':
                # a lambda object?
                out = []
                rest = []
                for l, s in self.lv(o, st):
                    v = s.m.get(l)
                    if isinstance(v, tuple) and v[0] == 'lam':
                        out += self.call(n, v[1], [(None, s)], c[1:], n.get('pt') or [], s)
                    else:
                        rest.append((l, s))
                if rest:
                    out += self.call(n, n.get('fid'), rest, c[1:], n.get('pt') or [], st)
                return out
            return self.call(n, n.get('fid'), self.lv(o, st), c[1:], n.get('pt') or [], st)
        return self.call(n, n.get('fid'), [(None, st)], c, n.get('pt') or [], st)

    def e_ctor(self, n, st):
        l = 'T%d@%d' % (self.nid(n), self.frame)
        return [(('loc', l), s) for s in self.construct(n, l, st)]

    def construct(self, n, loc, st):
        """Constructs an object of class type at loc; list of states."""
        if n['k'] != 'ctor':
            out = []
            for v, s in self.ev(n, st):
                s = s.copy()
                if isinstance(v, tuple) and v[0] == 'loc':
                    self.copyobj(v[1], loc, s)
                else:
                    s.m[loc] = v
                out.append(s)
            return out
        f = self.fs.funcs.get(n.get('fid'))
        st = st.copy()
        self.kill(loc, st)
        if n.get('copy') and n.get('elid') and n.get('c'):
            out = []
            for v, s in self.ev(n['c'][0], st):
                s = s.copy()
                if isinstance(v, tuple) and v[0] == 'loc':
                    self.copyobj(v[1], loc, s)
                out.append(s)
            return out
        if f is None and n.get('copy') and len(n.get('c') or []) == 1:
            out = []
            for l, s in self.lv(n['c'][0], st):
                s = s.copy()
                self.copyobj(l, loc, s)
                self.implicit_copy(n, l, loc, s)
                out.append(s)
            return out
        return [s for _, s in self.call(n, n.get('fid'), [(loc, st)], n.get('c') or [], n.get('pt') or [], st)]

    def implicit_copy(self, n, src, dst, st):
        pass

    @property
    def frame(self):
        return len(self.stack)

    def inline(self, f, objloc, vs, n, st, keep=False):
        """list of (value, state)"""
        st = st.copy()
        self.stack.append(f['fid'])
        self.this.append(objloc if not f.get('lambda') else (self.this[-1] if self.this else None))
        fr = self.frame
        try:
            for i, p in enumerate(f['params']):
                l = self.loc(p['d'])
                self.kill(l, st)
                st.m.pop('&' + l, None)
                if i < len(vs):
                    kd, v = vs[i]
                    if kd == 'l':
                        if isref(p['t']):
                            st.m['&' + l] = v
                        else:
                            self.copyobj(v, l, st)
                            st.m['!' + l] = 1
                    else:
                        st.m[l] = v
                else:
                    st.m['!' + l] = 1
            sts = [st]
            outer = self.excs
            self.excs = []
            if f.get('kind') == 'ctor':
                for i in f.get('inits') or []:
                    if i.get('e') is None:
                        continue
                    if i.get('deleg') or i.get('base'):
                        tgt = objloc
                    else:
                        tgt = objloc + '.' + i['n']
                    nx = []
                    for s in sts:
                        if i['e']['k'] == 'ctor':
                            nx += self.construct(i['e'], tgt, s)
                        elif i.get('field') and self.isreffield(f, i['n']):
                            for l, s2 in self.lv(i['e'], s):
                                s2 = s2.copy()
                                s2.m['&' + tgt] = l
                                nx.append(s2)
                        else:
                            for v, s2 in self.ev(i['e'], s):
                                s2 = s2.copy()
                                if isinstance(v, tuple) and v[0] == 'loc':
                                    self.copyobj(v[1], tgt, s2)
                                else:
                                    self.store(tgt, v, i['e'], s2)
                                nx.append(s2)
                    sts = self.dedupe(nx)
            res = []
            retref = isref(f.get('rt'))
            self.retref = retref
            for s in sts:
                for kind, s2, v in self.exec(f['body'], s):
                    res.append((v if kind == 'r' else None, s2))
            if f.get('kind') == 'dtor':
                nres = []
                for v, s in res:
                    nres += [(v, q) for q in self.member_dtors(f, objloc, s)]
                res = nres
            mine = self.excs
            self.excs = outer
            suf = '@%d' % fr
            for s in mine:
                self.purge(s, suf, None)
                self.excs.append(s)
            if len(self.excs) > 60:
                self.excs = self.dedupe(self.excs)
            out, seen = [], set()
            for v, s in res:
                self.purge(s, suf, v)
                if isinstance(v, tuple) and v[0] == 'u':
                    s.m['%ret'] = v
                self.gc(s)
                s.m.pop('%ret', None)
                if v is None:
                    v = self.fresh(n, s) if n is not None and f.get('rt') not in ('void', None, '') else None
                k = (v, s.key())
                if k not in seen:
                    seen.add(k)
                    out.append((v, s))
            return out
        finally:
            self.stack.pop()
            self.this.pop()

    def isreffield(self, f, name):
        r = self.fs.records.get(f.get('cls'))
        for fd in (r or {}).get('fields', []):
            if fd['n'] == name:
                return isref(fd['t'])
        return False

    def member_dtors(self, f, objloc, st):
        r = self.fs.records.get(f.get('cls'))
        sts = [st]
        if not r:
            return sts
        for fd in reversed(r['fields']):
            sts = [q for s in sts for q in self.destroy(objloc + '.' + fd['n'], fd['t'], s)]
        for b in r.get('bases') or []:
            sts = [q for s in sts for q in self.destroy(objloc, b, s)]
        return sts

    def destroy(self, loc, t, st):
        """Runs the destructor of an object of class type t at loc."""
        if isref(t) or isptr(t):
            return [st]
        d = self.dtor_of(bare(t))
        if d is None:
            return [st]
        if self.stack.count(d['fid']) > 2 or len(self.stack) >= self.MAXDEPTH or not self.want_inline(d, None):
            return [st]
        e, self.excs = self.excs, []
        r = [s for _, s in self.inline(d, loc, [], None, st)]
        self.excs = e
        return r

    def dtor_of(self, cls):
        if not hasattr(self, '_dt'):
            self._dt = {f['cls']: f for f in self.fs.funcs.values() if f['kind'] == 'dtor' and f.get('body')}
        return self._dt.get(cls)

    def purge(self, st, suf, keep):
        """Drops the variables of a frame that ended (temporaries that carry the result stay)."""
        kl = keep[1] if isinstance(keep, tuple) and keep[0] in ('loc', 'p') else None
        for k in list(st.m):
            b = k.lstrip('&!')
            i = b.find('@')
            if i >= 0:
                j = i + 1
                while j < len(b) and b[j].isdigit():
                    j += 1
                if b[i:j] == suf:
                    if kl is not None and (b == kl or b.startswith(kl + '.') or kl.startswith(b)):
                        continue
                    del st.m[k]

    # ---------------------------------------------------------------- statements
    def exec(self, n, st):
        """list of (kind, state, value): n(ormal) b(reak) c(ontinue) r(eturn)"""
        if n is None:
            return [('n', st, None)]
        m = getattr(self, 's_' + n['k'], None)
        if m:
            return m(n, st)
        return [('n', s, None) for _, s in self.ev(n, st)]

    def seq(self, nodes, st):
        cur = [st]
        out = []
        for x in nodes or []:
            nxt = []
            for s in cur:
                for o in self.exec(x, s):
                    if o[0] == 'n':
                        nxt.append(o[1])
                    else:
                        out.append(o)
            cur = self.dedupe(nxt)
            if not cur:
                break
        return out + [('n', s, None) for s in cur]

    def s_block(self, n, st):
        objs = []
        for x in n.get('c') or []:
            if x and x['k'] == 'decl':
                for v in x['vars']:
                    if not v.get('static') and not isref(v['t']) and not isptr(v['t']) and self.dtor_of(bare(v['t'])):
                        objs.append(v)
        e0 = self.excs
        self.excs = []
        outs = self.seq(n.get('c'), st)
        if not objs:
            e0 += self.excs
            self.excs = e0
            return outs
        inner = self.excs
        self.excs = []

        def end(s):
            sts = [s]
            for v in reversed(objs):
                l = self.loc(v['d'])
                nx = []
                for q in sts:
                    if ('!' + l) in q.m:
                        q = q.copy()
                        del q.m['!' + l]
                        nx += self.destroy(l, v['t'], q)
                    else:
                        nx.append(q)
                sts = nx
            return sts
        res = []
        for k, s, v in outs:
            for q in end(s):
                res.append((k, q, v))
        for s in inner:
            t = s.exc
            s = s.copy()
            s.exc = None
            for q in end(s):
                q = q.copy()
                q.exc = t
                e0.append(q)
        self.excs = e0
        return res

    def s_decl(self, n, st):
        sts = [st]
        for v in n['vars']:
            l = self.loc(v['d'])
            nx = []
            for s in sts:
                s = s.copy()
                if v.get('static'):
                    if v.get('init') is not None and v.get('const'):
                        c = self.const(v['init'])
                        if c is not None:
                            s.m[l] = c
                            nx.append(s)
                            continue
                    self.kill(l, s)
                    s.m['!' + l] = 1
                    nx.append(s)
                    continue
                self.kill(l, s)
                s.m.pop('&' + l, None)
                i = v.get('init')
                self.ondecl(v, l, s)
                if i is None:
                    s.m['!' + l] = 1
                    nx.append(s)
                elif isref(v['t']):
                    for q, s2 in self.lv(i, s):
                        s2 = s2.copy()
                        s2.m['&' + l] = q
                        nx.append(s2)
                elif i['k'] == 'ctor' or bare(v['t']) in self.fs.records and not isptr(v['t']):
                    for s2 in self.construct(i, l, s):
                        s2 = s2.copy()
                        s2.m['!' + l] = 1
                        nx.append(s2)
                else:
                    for val, s2 in self.ev(i, s):
                        s2 = s2.copy()
                        if isinstance(val, tuple) and val[0] == 'loc':
                            self.copyobj(val[1], l, s2)
                        elif i['k'] == 'ilist' and v['t'].endswith(']'):
                            pass
                        else:
                            self.store(l, val, i, s2)
                        s2.m['!' + l] = 1
                        nx.append(s2)
            sts = self.dedupe(nx)
        return [('n', s, None) for s in sts]

    def s_null_s(self, n, st):
        return [('n', st, None)]

    def s_sother(self, n, st):
        return self.seq([x for x in n.get('c') or [] if isinstance(x, dict)], st)

    def s_omp(self, n, st):
        if n.get('body'):
            return self.exec(n['body'], st)
        return [('n', st, None)]

    def s_break(self, n, st):
        return [('b', st, None)]

    def s_continue(self, n, st):
        return [('c', st, None)]

    def s_return(self, n, st):
        if not n.get('c') or n['c'][0] is None:
            return [('r', st, None)]
        x = n['c'][0]
        f = self.fs.funcs.get(self.stack[-1]) if self.stack else None
        if f is not None and isref(f.get('rt')):
            return [('r', s, ('loc', l)) for l, s in self.lv(x, st)]
        return [('r', s, v) for v, s in self.ev(x, st)]

    def s_if(self, n, st):
        sts = [st]
        if n.get('init'):
            sts = [o[1] for s in sts for o in self.exec(n['init'], s)]
        if n.get('cvar'):
            sts = [o[1] for s in sts for o in self.s_decl({'vars': [n['cvar']]}, s)]
        out = []
        for s in sts:
            t, f = self.branch(n['cond'], s)
            for q in self.dedupe(t):
                out += self.exec(n['then'], q)
            for q in self.dedupe(f):
                out += self.exec(n.get('else'), q) if n.get('else') else [('n', q, None)]
        return self.dd(out)

    def dd(self, outs):
        seen, r = set(), []
        for k, s, v in outs:
            q = (k, v, s.key())
            if q not in seen:
                seen.add(q)
                r.append((k, s, v))
        return r

    def loop(self, n, sts, test_first=True):
        out = []
        seen = set()
        cur = sts
        it = 0
        conc = 0
        while cur:
            it += 1
            nxt = []
            for s in cur:
                if test_first or it > 1:
                    if n.get('cond') is not None:
                        t, f = self.branch(n['cond'], s)
                    elif n['k'] == 'rfor':
                        t, f = [s.copy()], [s.copy()]
                    else:
                        t, f = [s], []
                else:
                    t, f = [s], []
                out += [('n', q, None) for q in f]
                for q in t:
                    if n['k'] == 'rfor':
                        q = q.copy()
                        v = n['var']
                        l = self.loc(v['d'])
                        self.kill(l, q)
                        q.m.pop('&' + l, None)
                        if isref(v['t']):
                            q.m['&' + l] = self.rloc + '[]'
                        q.m['!' + l] = 1
                    for k, q2, v in self.exec(n['body'], q):
                        if k in ('n', 'c'):
                            qs = [q2]
                            if n.get('inc') is not None:
                                qs = [z for _, z in self.ev(n['inc'], q2)]
                            nxt += qs
                        elif k == 'b':
                            out.append(('n', q2, None))
                        else:
                            out.append((k, q2, v))
            new = []
            if it >= self.LOOP and out:
                for s in nxt:
                    for l in self.counted(n):
                        q = self.loc(l)
                        if isinstance(s.m.get(q), (int, float)):
                            s.m[q] = ('u', self.nid(n), l)
            for s in self.dedupe(nxt):
                k = s.key()
                if k not in seen:
                    seen.add(k)
                    new.append(s)
            cur = new
            if it > 10:
                # leave by force
                for s in cur:
                    out.append(('n', s, None))
                break
        return self.dd(out)

    def counted(self, n):
        if not hasattr(self, '_cnt'):
            self._cnt = {}
        r = self._cnt.get(id(n))
        if r is None:
            r = set()
            for x in walk(n):
                if x['k'] == 'un' and x.get('op') in ('++', '--') or x['k'] == 'asg' and x.get('op') != '=':
                    if x['c'][0]['k'] == 'ref' and not x['c'][0]['d'].startswith('G:'):
                        r.add(x['c'][0]['d'])
            self._cnt[id(n)] = r
        return r

    def s_for(self, n, st):
        sts = [st]
        if n.get('init'):
            sts = [o[1] for o in self.exec(n['init'], st)]
        return self.loop(n, sts)

    def s_while(self, n, st):
        return self.loop(n, [st])

    def s_do(self, n, st):
        return self.loop(n, [st], False)

    def s_rfor(self, n, st):
        r = self.lv(n['range'], st)
        out = []
        for l, s in r:
            self.rloc = l
            out += self.loop(n, [s])
        return self.dd(out)

    def s_switch(self, n, st):
        out = []
        body = (n['body'].get('c') or []) if n['body']['k'] == 'block' else [n['body']]
        flat = []

        def flatten(x):
            while x is not None and x['k'] in ('case', 'default'):
                flat.append(('lab', x))
                x = x.get('sub')
            if x is not None:
                flat.append(('st', x))
        for x in body:
            flatten(x)
        labs = [(i, x) for i, (k, x) in enumerate(flat) if k == 'lab']
        for v, s in self.ev(n['cond'], st):
            self.use('branch', v, n, s)
            starts = []
            if isinstance(v, (int, float)):
                hit = [i for i, x in labs if x['k'] == 'case' and x.get('v') == v]
                if not hit:
                    hit = [i for i, x in labs if x['k'] == 'default']
                if hit:
                    starts.append((hit[0], s))
                else:
                    out.append(('n', s, None))
            else:
                hasdef = False
                rest = s
                for i, x in labs:
                    if x['k'] == 'default':
                        hasdef = True
                        starts.append((i, s.copy()))
                    else:
                        T, F = [], []
                        self.compare('==', v, x.get('v'), n, s, T, F)
                        for q in T:
                            starts.append((i, q))
                if not hasdef:
                    out.append(('n', s.copy(), None))
            for i, q in starts:
                cur = [q]
                for k, x in flat[i:]:
                    if k == 'lab':
                        continue
                    nx = []
                    for z in cur:
                        for o in self.exec(x, z):
                            if o[0] == 'n':
                                nx.append(o[1])
                            elif o[0] == 'b':
                                out.append(('n', o[1], None))
                            else:
                                out.append(o)
                    cur = self.dedupe(nx)
                    if not cur:
                        break
                out += [('n', z, None) for z in cur]
        return self.dd(out)

    def s_label(self, n, st):
        return self.exec(n.get('sub'), st)

    s_case = s_default = s_label

    def s_goto(self, n, st):
        self.cut += 1
        return []

    def derived(self, t, b):
        if self.esc is None:
            return False
        return self.esc.derived(t, b)

    def s_try(self, n, st):
        e0 = self.excs
        self.excs = []
        outs = self.exec(n['body'], st)
        thrown = self.dedupe(self.excs)
        self.excs = e0
        for s in thrown:
            t = s.exc
            done = False
            for h in n['handlers']:
                ht = None if h.get('all') else h.get('t', '').replace('const ', '').rstrip('& ')
                tt = (t or '').replace('const ', '').rstrip('& ')
                match = ht is None or tt == ht or self.derived(tt, ht)
                maybe = tt == '*'
                if not match and not maybe:
                    continue
                q = s.copy()
                q.exc = None
                old = q.x.get('cur')
                q.x['cur'] = t
                self.oncatch(h, q)
                for k, z, v in self.exec(h['body'], q):
                    z = z.copy()
                    if old is None:
                        z.x.pop('cur', None)
                    else:
                        z.x['cur'] = old
                    outs.append((k, z, v))
                if match:
                    done = True
                    break
            if not done:
                self.excs.append(s)
        return self.dd(outs)

    def oncatch(self, h, st):
        pass

    # ---------------------------------------------------------------- entry
    def run(self, f, objloc=None, vs=(), st=None):
        """-> (normal [(value, state)], thrown [state])"""
        self.steps = 0
        self.excs = []
        self.stack = []
        self.this = [None]
        st = st or St()
        r = self.inline(f, objloc, list(vs), None, st)
        e = self.dedupe(self.excs)
        self.excs = []
        return r, e
