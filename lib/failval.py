"""What a C interface function can return after it caught an exception: a small
constant-set analysis with the functions, templates and lambdas of the same file
inlined."""
from facts import walk, CheckError

TOP = None


def cval(n, fs):
    """Constant denoted by a node, or None."""
    k = n.get('k')
    if 'cv' in n:
        return n['cv']
    if k in ('int', 'flt'):
        return n['v']
    if k == 'null':
        return 0
    if k == 'zero':
        return 0
    if k == 'cast' and n.get('c'):
        return cval(n['c'][0], fs)
    if k == 'un' and n.get('op') == '-':
        v = cval(n['c'][0], fs)
        return -v if v is not None else None
    if k == 'ref' and n.get('dk') == 'glob':
        g = fs.globals.get(n['d'])
        if g and g.get('const') and g.get('init'):
            return cval(g['init'], fs)
    if k == 'ilist' and len(n.get('c') or []) == 1:
        return cval(n['c'][0], fs)
    return None


class FailVal:
    def __init__(self, fs, esc, files):
        self.fs, self.esc, self.files = fs, esc, files
        self.handlers = 0

    def inscope(self, fid):
        f = self.fs.funcs.get(fid)
        return f if f is not None and f.get('body') and (f['f'] in self.files) else None

    def run(self, f):
        self.depth = 0
        self.snaps = []
        S, R = self.block(f['body'], {False: {}})
        rets = dict(R)
        return rets, S

    # env: {d: frozenset(consts|'op'|('lam',fid)) or TOP}
    @staticmethod
    def join(a, b):
        out = dict(a)
        for f, e in b.items():
            if f not in out:
                out[f] = e
            else:
                o = out[f]
                m = {}
                for d in set(o) | set(e):
                    x, y = o.get(d, frozenset()), e.get(d, frozenset())
                    m[d] = TOP if x is TOP or y is TOP else x | y
                out[f] = m
        return out

    @staticmethod
    def rjoin(a, b):
        out = dict(a)
        for f, v in b.items():
            o = out.get(f, frozenset())
            out[f] = TOP if o is TOP or v is TOP else o | v
        return out

    def maythrow(self, n):
        try:
            self.esc.cur = {'fid': ''}
            return bool(self.esc.node(n, frozenset(['*'])))
        except AttributeError:
            return True

    def snap(self, S):
        for s in self.snaps:
            s.append({f: dict(e) for f, e in S.items()})

    def expr(self, n, S):
        """-> (S', {flag: values})"""
        if n is None:
            return S, {f: frozenset() for f in S}
        v = cval(n, self.fs)
        if v is not None and n.get('k') not in ('call', 'mcall', 'ocall', 'asg'):
            return S, {f: frozenset([v]) for f in S}
        k = n['k']
        if k == 'ref':
            return S, {f: e.get(n['d'], TOP) for f, e in S.items()}
        if k == 'cast' or k == 'paren':
            return self.expr(n['c'][0], S)
        if k == 'lambda':
            return S, {f: frozenset([('lam', n['fid'])]) for f in S}
        if k == 'asg' and n.get('op') == '=':
            l, r = n['c']
            if self.maythrow(r):
                self.snap(S)
            S, V = self.expr(r, S)
            if l['k'] == 'ref':
                S = {f: dict(e, **{l['d']: V.get(f, TOP)}) for f, e in S.items()}
            else:
                S, _ = self.expr(l, S)
            return S, V
        if k == 'asg' or (k == 'un' and n.get('op') in ('++', '--')):
            l = n['c'][0]
            for x in n['c']:
                S, _ = self.expr(x, S)
            if l['k'] == 'ref':
                S = {f: dict(e, **{l['d']: TOP}) for f, e in S.items()}
            return S, {f: TOP for f in S}
        if k == 'cond':
            T, F = self.branch(n['c'][0], S)
            ST, VT = self.expr(n['c'][1], T)
            SF, VF = self.expr(n['c'][2], F)
            return self.join(ST, SF), self.rjoin(VT, VF)
        if k == 'bin' and n.get('op') == ',':
            S, _ = self.expr(n['c'][0], S)
            return self.expr(n['c'][1], S)
        if k == 'un' and n.get('op') == '!':
            S, V = self.expr(n['c'][0], S)
            return S, {f: (TOP if v is TOP or any(not isinstance(x, (int, float)) for x in v) else frozenset(int(not x) for x in v)) for f, v in V.items()}
        if k in ('call', 'mcall', 'ocall', 'ctor'):
            if self.maythrow(n):
                self.snap(S)
            args = list(n.get('c') or [])
            fid = n.get('fid')
            AV = []
            if n.get('obj'):
                S, _ = self.expr(n['obj'], S)
            for a in args:
                S, V = self.expr(a, S)
                AV.append(V)
            tgt = self.inscope(fid) if fid else None
            if tgt is None and k == 'call' and n.get('fe'):
                S, V = self.expr(n['fe'], S)
                for vs in V.values():
                    for x in (vs or ()):
                        if isinstance(x, tuple):
                            tgt = self.inscope(x[1])
            if tgt is not None and k == 'ocall' and n.get('memop'):
                AV = AV[1:]
            # by-reference arguments may be changed
            if tgt is None:
                for a, t in zip(args[1:] if n.get('memop') else args, n.get('pt') or []):
                    if t.endswith('&') and not t.startswith('const') and a['k'] == 'ref':
                        S = {f: dict(e, **{a['d']: TOP}) for f, e in S.items()}
                    if a['k'] == 'un' and a.get('op') == '&' and a['c'][0]['k'] == 'ref':
                        S = {f: dict(e, **{a['c'][0]['d']: TOP}) for f, e in S.items()}
                val = TOP
                if fid and fid in self.fs.funcs:
                    val = frozenset(['op'])
                return S, {f: val for f in S}
            self.depth += 1
            if self.depth > 12:
                self.depth -= 1
                return S, {f: TOP for f in S}
            try:
                for p, V in zip(tgt['params'], AV):
                    S = {f: dict(e, **{p['d']: V.get(f, TOP)}) for f, e in S.items()}
                S2, R = self.block(tgt['body'], S)
                # fall off the end
                out = dict(R)
                for f in S2:
                    out = self.rjoin(out, {f: frozenset()})
                return S2, {f: out.get(f, frozenset()) for f in S2}
            finally:
                self.depth -= 1
        if k == 'throw':
            self.snap(S)
            for x in n.get('c') or []:
                S, _ = self.expr(x, S)
            return {}, {}
        if k == 'new':
            if self.maythrow(n):
                self.snap(S)
            for key in ('size', 'init'):
                if n.get(key):
                    S, _ = self.expr(n[key], S)
            return S, {f: frozenset(['op']) for f in S}
        for x in n.get('c') or []:
            if isinstance(x, dict) and 'k' in x:
                S, _ = self.expr(x, S)
        return S, {f: TOP for f in S}

    def branch(self, c, S):
        k = c['k']
        if k == 'un' and c.get('op') == '!':
            T, F = self.branch(c['c'][0], S)
            return F, T
        if k == 'bin' and c.get('op') == '&&':
            T, F1 = self.branch(c['c'][0], S)
            T, F2 = self.branch(c['c'][1], T)
            return T, self.join(F1, F2)
        if k == 'bin' and c.get('op') == '||':
            T1, F = self.branch(c['c'][0], S)
            T2, F = self.branch(c['c'][1], F)
            return self.join(T1, T2), F
        var, op, v = None, None, None
        x = c
        while x['k'] == 'cast':
            x = x['c'][0]
        if x['k'] == 'ref':
            var, op, v = x['d'], '!=', 0
        elif k == 'bin' and c.get('op') in ('==', '!=', '<', '>', '<=', '>='):
            a, b = c['c']
            while a['k'] == 'cast':
                a = a['c'][0]
            if a['k'] == 'ref' and cval(b, self.fs) is not None:
                var, op, v = a['d'], c['op'], cval(b, self.fs)
        S, V = self.expr(c, S)
        if var is None:
            T, F = {}, {}
            for f, e in S.items():
                vs = V.get(f, TOP)
                if vs is TOP or any(not isinstance(q, (int, float)) for q in vs) or not vs:
                    T[f], F[f] = e, e
                else:
                    if any(vs):
                        T[f] = e
                    if not all(vs):
                        F[f] = e
            return T, F
        OP = {'==': lambda q: q == v, '!=': lambda q: q != v, '<': lambda q: q < v, '>': lambda q: q > v,
              '<=': lambda q: q <= v, '>=': lambda q: q >= v}[op]
        T, F = {}, {}
        for f, e in S.items():
            vs = e.get(var, TOP)
            if vs is TOP:
                T[f], F[f] = e, e
                continue
            t = frozenset(q for q in vs if not isinstance(q, (int, float)) or OP(q))
            g = frozenset(q for q in vs if not isinstance(q, (int, float)) or not OP(q))
            if t:
                T[f] = dict(e, **{var: t})
            if g:
                F[f] = dict(e, **{var: g})
        return T, F

    def block(self, n, S):
        """-> (S at normal end, {flag: returned values}); break/continue are joined in"""
        R = {}
        RS = {}

        def ex(s, S):
            nonlocal R, RS
            if s is None or not S:
                return S
            k = s['k']
            if k == 'block':
                for x in s.get('c') or []:
                    S = ex(x, S)
                return S
            if k == 'decl':
                for v in s['vars']:
                    if v.get('init'):
                        if self.maythrow(v['init']):
                            self.snap(S)
                        S, V = self.expr(v['init'], S)
                        S = {f: dict(e, **{v['d']: V.get(f, TOP)}) for f, e in S.items()}
                    else:
                        S = {f: dict(e, **{v['d']: TOP}) for f, e in S.items()}
                return S
            if k == 'return':
                if s.get('c'):
                    if self.maythrow(s['c'][0]):
                        self.snap(S)
                    S, V = self.expr(s['c'][0], S)
                    R = self.rjoin(R, {f: V.get(f, TOP) for f in S})
                else:
                    R = self.rjoin(R, {f: frozenset() for f in S})
                RS = self.join(RS, S)
                return {}
            if k == 'if':
                if s.get('init'):
                    S = ex(s['init'], S)
                if self.maythrow(s['cond']):
                    self.snap(S)
                T, F = self.branch(s['cond'], S)
                return self.join(ex(s['then'], T), ex(s['else'], F) if s.get('else') else F)
            if k in ('for', 'while', 'do', 'rfor'):
                if s.get('init'):
                    S = ex(s['init'], S)
                for _ in range(4):
                    B = S
                    if s.get('cond'):
                        B, F = self.branch(s['cond'], S)
                    B = ex(s['body'], B)
                    if s.get('inc') and B:
                        B, _v = self.expr(s['inc'], B)
                    N = self.join(S, B)
                    if N == S:
                        break
                    S = N
                return S
            if k == 'switch':
                S, _ = self.expr(s['cond'], S)
                S0 = S
                out = {}
                cur = {}
                for x in s['body'].get('c') or []:
                    y = x
                    while y is not None and y['k'] in ('case', 'default'):
                        cur = self.join(cur, S0)
                        y = y.get('sub')
                    if y is not None and y['k'] == 'break':
                        out = self.join(out, cur)
                        cur = {}
                    else:
                        cur = ex(y, cur) if cur else cur
                return self.join(self.join(out, cur), S0)
            if k == 'try':
                self.snaps.append([])
                E = ex(s['body'], S)
                sn = self.snaps.pop()
                X = {}
                for q in sn:
                    X = self.join(X, q)
                H = {}
                for f, e in X.items():
                    H = self.join(H, {True: e})
                out = E
                if H:
                    for h in s['handlers']:
                        self.handlers += 1
                        out = self.join(out, ex(h['body'], H))
                return out
            if k in ('break', 'continue', 'goto'):
                return S
            if k in ('label', 'case', 'default'):
                return ex(s.get('sub'), S)
            if k in ('null_s', 'sother'):
                return S
            if k == 'omp':
                return ex(s.get('body'), S)
            if self.maythrow(s):
                self.snap(S)
            S, _ = self.expr(s, S)
            return S
        S = ex(n, S)
        # inlined callers continue after a return as well
        if self.depth:
            S = self.join(S, RS)
        return S, R
