"""P18: the datatype given with every message and every FITS transfer is that of the memory it describes."""
import re
import facts
import engine as G
import poly as P
from facts import walk, CheckError
from poly import *
from scen import *

# kind of an element: (class, size, name); class i signed, u unsigned, c plain character, b truth value, f floating
KINDS = {'char': ('c', 1), 'signed char': ('i', 1), 'unsigned char': ('u', 1), 'short': ('i', 2), 'unsigned short': ('u', 2),
         'int': ('i', 4), 'unsigned int': ('u', 4), 'long': ('i', 8), 'unsigned long': ('u', 8), 'long long': ('i', 8),
         'unsigned long long': ('u', 8), 'float': ('f', 4), 'double': ('f', 8), 'long double': ('f', 16), 'bool': ('b', 1)}
MPI = {'char': 'char', 'signed_char': 'signed char', 'unsigned_char': 'unsigned char', 'short': 'short',
       'unsigned_short': 'unsigned short', 'int': 'int', 'unsigned': 'unsigned int', 'long': 'long', 'unsigned_long': 'unsigned long',
       'long_long_int': 'long long', 'unsigned_long_long': 'unsigned long long', 'float': 'float', 'double': 'double',
       'long_double': 'long double', 'cxx_bool': 'bool', 'c_bool': 'bool', 'cxx_cplex': 'float', 'cxx_dblcplex': 'double',
       'c_float_complex': 'float', 'c_double_complex': 'double', 'cplex': 'float', 'dblcplex': 'double'}
SIZED = {'int8_t': ('i', 1), 'int16_t': ('i', 2), 'int32_t': ('i', 4), 'int64_t': ('i', 8), 'uint8_t': ('u', 1), 'uint16_t': ('u', 2),
         'uint32_t': ('u', 4), 'uint64_t': ('u', 8)}
FITS = {11: 'unsigned char', 12: 'signed char', 20: 'unsigned short', 21: 'short', 30: 'unsigned int', 31: 'int', 40: 'unsigned long',
        41: 'long', 42: 'float', 80: 'unsigned long long', 81: 'long long', 82: 'double', 83: 'float', 163: 'double'}
# position of the datatypes and of the memory they describe
CALLS = {'MPI_Send': [(2, 0)], 'MPI_Isend': [(2, 0)], 'MPI_Recv': [(2, 0)], 'MPI_Irecv': [(2, 0)], 'MPI_Ssend': [(2, 0)],
         'MPI_Sendrecv': [(2, 0), (7, 5)], 'MPI_Sendrecv_replace': [(2, 0)], 'MPI_Bcast': [(2, 0)],
         'MPI_Gather': [(2, 0), (5, 3)], 'MPI_Scatter': [(2, 0), (5, 3)], 'MPI_Gatherv': [(2, 0), (6, 3)],
         'MPI_Scatterv': [(3, 0), (6, 4)], 'MPI_Allgather': [(2, 0), (5, 3)], 'MPI_Allgatherv': [(2, 0), (6, 3)],
         'MPI_Alltoall': [(2, 0), (5, 3)], 'MPI_Alltoallv': [(3, 0), (7, 4)], 'MPI_Allreduce': [(3, 0), (3, 1)],
         'MPI_Reduce': [(3, 0), (3, 1)], 'MPI_Scan': [(3, 0), (3, 1)], 'MPI_Exscan': [(3, 0), (3, 1)],
         'MPI_Reduce_scatter_block': [(3, 0), (3, 1)], 'MPI_Reduce_local': [(3, 0), (3, 1)]}
FCALLS = {'ffgcv': [(1, 6), (1, 7)], 'ffpcl': [(1, 6)], 'ffpcn': [(1, 6), (1, 7)], 'ffgpv': [(1, 4), (1, 5)], 'ffppr': [(1, 4)],
          'ffuky': [(1, 3)], 'ffpky': [(1, 3)], 'ffgky': [(1, 3)], 'ffgsv': [(1, 6)]}
KEYS = ('ffuky', 'ffpky', 'ffgky')
# for these one datatype describes every process' part of the message: byte counts are given per element
LETTER = {'L': ('b', 1), 'E': ('f', 4), 'D': ('f', 8), 'B': ('i', 1), 'I': ('i', 2), 'J': ('i', 4), 'K': ('i', 8), 'A': 'string'}


def clean(t):
    t = re.sub(r'\b(const|volatile|struct|class)\b', '', t or '').strip()
    return re.sub(r'\s+', ' ', t)


def pointee(t):
    t = clean(G.unref(clean(t)))
    m = re.match(r'(.*)\[\d*\]$', t)
    if m:
        return m.group(1).strip()
    return t[:-1].strip() if t.endswith('*') else None


def isvoidp(t):
    return pointee(t) == 'void'


class Types:
    def __init__(self, F):
        self.F = F

    def elem(self, t, depth=0):
        """the fundamental type that memory of type t is made of; None when it is not one"""
        t = clean(t)
        if t in KINDS:
            return t
        m = re.match(r'(.*)\[\d+\]$', t)
        if m:
            return self.elem(m.group(1), depth)
        m = re.match(r'(?:std::complex|std::array)<([^,<>]*)', t)
        if m:
            return self.elem(m.group(1), depth)
        r = self.F.records.get(t)
        if r and depth < 6:
            s = {self.elem(f['t'], depth + 1) for f in r.get('fields', [])} | \
                {self.elem(b['t'] if isinstance(b, dict) else b, depth + 1) for b in r.get('bases') or []}
            return s.pop() if len(s) == 1 else None
        if r is None and t in [x for x in self.F.records]:
            return None
        return None


def strip(n):
    """the pointer before it was turned into an untyped one"""
    while n['k'] in ('cast', 'paren') and n.get('c'):
        c = n['c'][0]
        if n['k'] == 'cast' and pointee(c.get('t')) is None:
            break
        n = c
    return n


class Solve:
    """values of datatype expressions"""
    def __init__(self, F, rep):
        self.F, self.rep = F, rep
        self.callers = {}
        for f in F.funcs.values():
            for n in walk([f.get('body'), f.get('inits')]):
                if n.get('k') in ('call', 'mcall', 'ocall', 'ctor') and n.get('fid') in F.funcs:
                    self.callers.setdefault(n['fid'], []).append((f, n))
        self.memo = {}

    def call(self, fid, vals):
        """results of a function of constants: set of constants / datatype names / strings, 'raise', or None"""
        key = (fid, tuple(vals))
        if key not in self.memo:
            self.memo[key] = self._call(fid, vals)
        return self.memo[key]

    def _call(self, fid, vals):
        f = self.F.funcs[fid]
        S = Scen(self.F)
        st = State()
        args = []
        for i, v in enumerate(vals):
            if isinstance(v, int):
                args.append(K(v))
            elif isinstance(v, str) and v.startswith('ompi'):
                args.append(Val((A(('addr', v)),), ptrs=(LV(('G', v)),)))
            else:
                return None
        try:
            ok, r, thr, tt = S.invoke(f, LV(('O', 'this')) if f.get('cls') and not f.get('mstatic') else None, args, st)
        except (RecursionError, KeyError):
            return None
        if ok is None:
            return {'raise'}
        v = self.value(r)
        if v is None:
            return None
        return v | ({'raise'} if thr is not None else set())

    def value(self, r):
        if r is None or isinstance(r, list):
            return None
        names = {l.base[1] for l in r.ptrs if l.base[0] == 'G'}
        if names and all(l.base[0] == 'G' for l in r.ptrs):
            return names
        out = set()
        for p in r.alts:
            if not hasattr(p, 'is_const'):
                return None
            if p.is_const():
                c = p.const()
                out.add(int(c) if c == int(c) else c)
                continue
            try:
                nm = P.NAMES[p.single_atom()]
            except Exception:
                return None
            if isinstance(nm, tuple) and nm[0] == 'str':
                out.add('"' + nm[1])
            else:
                return None
        return out or None

    def consts(self, n, f, depth=0):
        if depth > 8 or n is None:
            return None
        if isinstance(n.get('cv'), int):
            return {n['cv']}
        k = n['k']
        if k == 'int':
            return {n['v']}
        if k in ('cast', 'paren') or (k == 'un' and n.get('op') == '&'):
            return self.consts(n['c'][0], f, depth)
        if k == 'cond':
            a, b = self.consts(n['c'][1], f, depth + 1), self.consts(n['c'][2], f, depth + 1)
            return None if a is None or b is None else a | b
        if k in ('ref', 'mem'):
            if n.get('dk') == 'enum' and n.get('v') is not None:
                return {n['v']}
            nm = n.get('qn') or n.get('n') or ''
            if n.get('dk') == 'glob' and nm.startswith('ompi_'):
                return {nm}
            d = n.get('d')
            if n.get('dk') == 'glob':
                g = self.F.globals.get(d) or self.F.globals.get(nm)
                if isinstance(g, dict) and g.get('init') and 'const' in g.get('t', ''):
                    return self.consts(g['init'], f, depth + 1)
                return None
            for i, p in enumerate(f.get('params', [])):
                if p.get('d') == d:
                    if self.written(f, d):
                        return None
                    out = set()
                    cs = self.callers.get(f['fid'])
                    if not cs:
                        return set()
                    for g, c in cs:
                        a = c.get('c') or []
                        if c['k'] == 'ocall' and c.get('memop'):
                            a = a[1:]
                        if i >= len(a):
                            return None
                        v = self.consts(a[i], g, depth + 1)
                        if v is None:
                            return None
                        out |= v
                    return out
            out = set()
            found = False
            for m in walk([f.get('body')]):
                if m.get('k') == 'decl':
                    for v in m['vars']:
                        if v['d'] == d:
                            found = True
                            if v.get('init'):
                                x = self.consts(v['init'], f, depth + 1)
                                if x is None:
                                    return None
                                out |= x
                elif m.get('k') == 'asg' and m['c'][0].get('d') == d:
                    x = self.consts(m['c'][1], f, depth + 1) if m.get('op', '=') == '=' else None
                    if x is None:
                        return None
                    out |= x
                elif m.get('k') == 'un' and m.get('op') == '&' and m['c'][0].get('d') == d and not depth > 90:
                    return None
            return out if found and out else None
        if k in ('call', 'mcall') and n.get('fid') in self.F.funcs:
            g = self.F.funcs[n['fid']]
            if g.get('body') is None:
                return None
            vs = []
            for a in n.get('c') or []:
                v = self.consts(a, f, depth + 1)
                if v is None:
                    return None
                vs.append(v)
            combos = [()]
            for v in vs:
                combos = [c + (x,) for c in combos for x in sorted(v, key=str) if x != 'raise']
            out = set()
            for c in combos:
                r = self.call(n['fid'], c)
                if r is None or len(r - {'raise'}) > 1:
                    return None
                out |= r
            return out
        return None

    def written(self, f, d):
        for m in walk([f.get('body')]):
            if m.get('k') in ('asg', 'compound') and m['c'][0].get('d') == d:
                return True
            if m.get('k') == 'un' and m.get('op') in ('&', '++', '--') and m['c'][0].get('d') == d:
                return True
        return False


def mpikind(nm):
    m = re.match(r'ompi_mpi_(?:cxx_)?(\w+)$', nm)
    if not m:
        return None
    x = nm[len('ompi_mpi_'):]
    return MPI.get(x) or MPI.get(m.group(1)) or SIZED.get(x)


def agrees(dt, elem, how, call):
    """True, False, or None when the datatype is not known"""
    if how == 'mpi':
        if dt in ('ompi_mpi_byte', 'ompi_mpi_packed'):
            return None
        k = mpikind(dt)
        if k is None:
            return None
        return KINDS[elem] == k if isinstance(k, tuple) else elem == k
    if dt == 14:
        return elem == 'int' if call in KEYS else elem in ('char', 'bool', 'unsigned char', 'signed char')
    if dt == 16:
        return elem == 'char' if call in KEYS else False
    t = FITS.get(dt)
    if t is None:
        return False
    a, b = KINDS[t], KINDS[elem]
    if a[1] == 1 and b[1] == 1:
        return b[0] != 'b'
    return a == b


def dtshow(dt):
    if isinstance(dt, str):
        return dt.replace('ompi_mpi_', 'MPI ')
    return {14: 'TLOGICAL', 16: 'TSTRING'}.get(dt) or 'FITS %s' % FITS.get(dt, 'code %s' % dt)


class Run(Scen):
    """an untyped transfer function run for one element type"""
    def __init__(self, F, T, types):
        Scen.__init__(self, F)
        self.T, self.types = T, types
        self.seen = []
        self.bad = []
        self.hooks['call'] = self.oncall

    def typed(self, v):
        return any(l.base[0] == 'O' and l.base[1] == 'buf' for l in v.ptrs)

    def oncall(self, eng, n, obj, args, st, want):
        nm = n.get('sn')
        pos = CALLS.get(nm) or FCALLS.get(nm)
        if pos is None or n['k'] != 'call':
            return None
        for d, b in pos:
            if max(d, b) < len(args) and self.typed(self.ev(args[b], st)):
                self.seen.append((n, d, b, self.ev(args[d], st), self.frame.func))
        return None

    def e_cast(self, n, st):
        v = Scen.e_cast(self, n, st)
        t, c = pointee(n.get('t')), n['c'][0]
        if t and t != 'void' and isvoidp(c.get('t')) and self.typed(v):
            # looking at it as bytes says nothing about what it is
            if t != self.T and self.types.elem(t) != self.T and t not in ('char', 'unsigned char'):
                self.bad.append((n, 'memory of type %s is taken for %s' % (self.T, t), self.frame.func))
        return v


def run(rep):
    rep.rule('every MPI and FITS call that describes memory by a datatype gives the datatype of the elements of that memory; '
             'untyped transfer functions do so for every type their type argument can stand for')
    rep.rule('a pointer is handed to an untyped transfer function together with the constant of its own element type')
    rep.rule('a reduction is made with the operation it is asked for with')
    rep.rule('the tables between element types, type constants, MPI datatypes, FITS codes, names and sizes agree with one another')
    F = facts.load()
    types = Types(F)
    sv = Solve(F, rep)
    where = lambda f, n: '%s:%d' % (f['f'], n['l'])

    # the templates that map an element type to a constant
    maps = {}
    for f in F.funcs.values():
        if f.get('targs') and len(f['targs']) == 1 and f['targs'][0] != '?' and not f.get('params') and f.get('body') is not None:
            maps.setdefault(f['rt'], {}).setdefault(f['sn'], {})[clean(f['targs'][0])] = f
    untyped = {}
    for f in F.funcs.values():
        ps = f.get('params') or []
        if f.get('body') is None or f['src'].endswith('.c'):
            continue
        vp = [i for i, p in enumerate(ps) if isvoidp(p['t'])]
        en = [i for i, p in enumerate(ps) if clean(G.unref(p['t'])) in maps and clean(G.unref(p['t'])) not in KINDS]
        if vp and len(en) == 1:
            untyped[f['fid']] = (f, vp, en[0])
    consts = {}                                     # enum type -> element type -> constant
    for E in {clean(G.unref(f['params'][e]['t'])) for f, vp, e in untyped.values()}:
        for name, fs in maps[E].items():
            t = {}
            for T, f in sorted(fs.items()):
                r = sv.call(f['fid'], ())
                if r == {'raise'}:
                    continue
                if r is None or len(r) != 1:
                    rep.note('%s<%s> is not decided' % (name, T))
                    continue
                t[T] = r.copy().pop()
                rep.count('entries of the type constants')
            for T in sorted(t):
                for U in sorted(t):
                    if T < U and t[T] == t[U]:
                        rep.violation('constant', '%s:%d' % (fs[T]['f'], fs[T]['l']), fs[T]['fn'],
                                      'the element types %s and %s have the same type constant %s' % (T, U, t[T]), '%s-%s' % (T, U))
            if t:
                consts.setdefault(E, {}).update(t)

    def compare(dv, elem, how, n, f, T, what):
        """dv: set of datatypes"""
        for d in sorted(dv, key=str):
            if d == 'raise':
                continue
            if how == 'mpi' and isinstance(d, int):
                continue
            ok = agrees(d, elem, how, n['sn'])
            if ok is None:
                if d in ('ompi_mpi_byte', 'ompi_mpi_packed') or how == 'fits':
                    rep.note('%s: %s describes its memory as bytes' % (where(f, n), n['sn']))
                else:
                    rep.note('%s: datatype %s of %s is not known' % (where(f, n), d, n['sn']))
            elif not ok:
                rep.violation('datatype', where(f, n), f['fn'], '%s describes %s of type %s as %s' % (n['sn'], what, T, dtshow(d)),
                              '%s-%s-%s' % (n['sn'], T, d))

    used = set()                                    # element types an untyped function is really called with
    for f in F.funcs.values():
        for n in walk([f.get('body'), f.get('inits')]):
            if n.get('k') in ('call', 'mcall') and n.get('fid') in untyped and not f['src'].endswith('.c'):
                g, vp, en = untyped[n['fid']]
                for i in vp:
                    if i < len(n.get('c') or []):
                        t = pointee(strip(n['c'][i]).get('t'))
                        if t and t != 'void':
                            used.add((n['fid'], t))
                            used.add((n['fid'], types.elem(t)))

    # A: untyped transfer functions, for every element type
    sends = {}
    for fid, (f, vp, en) in sorted(untyped.items()):
        E = clean(G.unref(f['params'][en]['t']))
        hidden = f.get('internal') or f.get('acc') in ('private', 'protected')
        for T, k in sorted(consts.get(E, {}).items()):
            # a helper is followed from the functions that call it; nothing says that it can take any type
            if (fid, T) not in used and (hidden or T not in KINDS):
                continue
            S = Run(F, T, types)
            args = []
            for i, p in enumerate(f['params']):
                if i in vp:
                    args.append(Val((A(('buf', i)),), ptrs=(LV(('O', 'buf', i), ('[]',), (ZERO,)),)))
                elif i == en:
                    args.append(K(k))
                elif G.unref(p['t']).rstrip().endswith('*'):
                    args.append(Val((A(('ptr', i)),), ptrs=(LV(('O', 'ptr', i), ('[]',), (ZERO,)),)))
                elif S.is_class(G.unref(p['t'])):
                    args.append(LV(('O', 'arg', i)))
                else:
                    args.append(arg('a%d' % i, S.is_int_t(p['t'])))
            ok, r, thr, tt = S.invoke(f, LV(('O', 'this')) if f.get('cls') and not f.get('mstatic') else None, args, State())
            rep.count('untyped functions run for an element type')
            sends[fid, T] = (bool(S.seen), ok is not None)
            for n, what, g in S.bad:
                rep.violation('reinterpreted', where(g, n), g['fn'], '%s, type constant %s' % (what, k), '%s-%s' % (T, what))
            for n, d, b, dv, g in S.seen:
                how = 'mpi' if n['sn'] in CALLS else 'fits'
                v = sv.value(dv)
                rep.count('transfers compared with an element type')
                if v is None or len(v) > 1:
                    rep.note('%s: the datatype given to %s for %s is not decided' % (where(g, n), n['sn'], T))
                    continue
                e = types.elem(T)
                if e is None:
                    rep.violation('datatype', where(g, n), g['fn'], '%s is given memory of type %s' % (n['sn'], T), '%s-%s' % (n['sn'], T))
                    continue
                compare(v, e, how, n, g, T, 'memory')

    # B and C: where typed memory becomes untyped
    for f in F.funcs.values():
        if f['src'].endswith('.c'):
            continue
        for n in walk([f.get('body'), f.get('inits')]):
            k = n.get('k')
            if k not in ('call', 'mcall'):
                continue
            a = n.get('c') or []
            if n.get('fid') in untyped:
                g, vp, en = untyped[n['fid']]
                E = clean(G.unref(g['params'][en]['t']))
                for i in vp:
                    if i >= len(a):
                        continue
                    x = strip(a[i])
                    t = pointee(x.get('t'))
                    if t is None or t == 'void' or x['k'] == 'null':
                        continue
                    ks = sv.consts(a[en], f)
                    rep.count('hand-overs to untyped functions')
                    if ks is None:
                        rep.note('%s: the type constant given to %s is not decided' % (where(f, n), g['fn']))
                        continue
                    T = t if t in consts[E] else types.elem(t)
                    want = consts[E].get(T)
                    for c in sorted(ks, key=str):
                        if c == 'raise':
                            continue
                        if c != want:
                            other = [U for U in consts[E] if consts[E][U] == c]
                            rep.violation('constant', where(f, n), f['fn'], '%s is given memory of type %s with the type constant of %s' % (
                                g['sn'], t, other[0] if other else c), '%s-%s-%s' % (g['sn'], t, c))
                        else:
                            rep.sample('%s -> %s: %s' % (f['fn'], g['sn'], t))
                            s = sends.get((g['fid'], T))
                            if s and not s[0] and not s[1]:
                                rep.violation('table', where(f, n), f['fn'], 'elements of type %s are transferred with %s, which has no datatype '
                                              'for them and raises an error' % (t, g['sn']), '%s-%s' % (g['sn'], t))
            pos = CALLS.get(n.get('sn')) or FCALLS.get(n.get('sn'))
            if k == 'call' and pos and n.get('xc'):
                how = 'mpi' if n['sn'] in CALLS else 'fits'
                rep.count('calls that describe memory')
                for d, b in pos:
                    if max(d, b) >= len(a):
                        continue
                    x = strip(a[b])
                    t = pointee(x.get('t'))
                    if t is None or t == 'void' or x['k'] in ('null', 'int', 'zero'):
                        continue
                    dv = sv.consts(a[d], f)
                    if dv is None:
                        rep.note('%s: the datatype given to %s is not decided' % (where(f, n), n['sn']))
                        continue
                    rep.count('datatypes compared with the memory')
                    if how == 'fits' and pointee(t) is not None:
                        if clean(pointee(t)) != 'char' or dv - {16, 'raise'}:
                            rep.violation('datatype', where(f, n), f['fn'], '%s describes pointers to %s as %s' % (
                                n['sn'], pointee(t), ', '.join(map(dtshow, dv))), n['sn'] + t)
                        continue
                    e = types.elem(t)
                    if e is None:
                        rep.note('%s: %s is given memory of type %s' % (where(f, n), n['sn'], t))
                        continue
                    compare(dv, e, how, n, f, t, 'memory')
                if how == 'mpi' and len({p[0] for p in pos}) == 2:
                    d1, d2 = sv.consts(a[pos[0][0]], f), sv.consts(a[pos[1][0]], f)
                    if d1 and d2 and len(d1) == 1 and len(d2) == 1 and d1 != d2:
                        rep.violation('datatype', where(f, n), f['fn'], '%s is sent as %s and received as %s' % (
                            n['sn'], dtshow(d1.copy().pop()), dtshow(d2.copy().pop())), n['sn'] + 'pair')
    tables(rep, F, sv, types, consts)
    operations(rep, F, sv)
    rep.need('datatypes compared with the memory', 5)
    rep.need('transfers compared with an element type', 20)
    rep.need('hand-overs to untyped functions', 5)
    rep.assumptions += ['memory has the element type of the pointer by which it is first handed over',
                        'MPI datatypes stand for the C types the standard names, CFITSIO codes for those of its manual; a FITS byte may be '
                        'read and written as any one-byte integer',
                        'templates are checked for the element types they are used with']


def tables(rep, F, sv, types, consts):
    """functions of one type constant: sizes, codes, names and formats"""
    for E, tab in sorted(consts.items()):
        names, froms = {}, {}
        for f in sorted(F.funcs.values(), key=lambda f: f['fid']):
            ps = f.get('params') or []
            if f.get('body') is None or len(ps) != 1 or f.get('cls') or clean(G.unref(ps[0]['t'])) != E:
                continue
            rt = clean(f['rt'])
            vals = {}
            for T, k in sorted(tab.items()):
                r = sv.call(f['fid'], (k,))
                if r is None or len(r - {'raise'}) > 1:
                    rep.note('%s for %s is not decided' % (f['fn'], T))
                elif r - {'raise'}:
                    vals[T] = (r - {'raise'}).pop()
            if not vals:
                continue
            rep.count('entries of tables of type constants', len(vals))
            what = None
            bad = lambda T, msg: rep.violation('table', '%s:%d' % (f['f'], f['l']), f['fn'], msg, '%s-%s' % (f['sn'], T))
            sz = {T: KINDS[T][1] for T in vals if T in KINDS}
            hits = lambda g: sum(1 for T in sz if g(T))
            if all(isinstance(v, str) and v.startswith('ompi_mpi_') for v in vals.values()):
                for T, v in vals.items():
                    e = types.elem(T)
                    if e is None or agrees(v, e, 'mpi', '') is False:
                        bad(T, 'the MPI datatype for %s is %s' % (T, dtshow(v)))
            elif all(isinstance(v, int) for v in vals.values()) and rt in ('int', 'unsigned long', 'long', 'unsigned int'):
                # which table it is shows in what it says of most types
                isz = hits(lambda T: vals[T] == sz[T])
                ibp = hits(lambda T: abs(vals[T]) == 8 * sz[T])
                iff = hits(lambda T: vals[T] in FITS and KINDS[FITS[vals[T]]][1] == sz[T])
                m = max(isz, ibp, iff)
                if 2 * m <= len(sz):
                    rep.note('%s is not known as a table of sizes or codes' % f['fn'])
                    continue
                for T in sorted(sz):
                    v = vals[T]
                    if m == isz:
                        if v != sz[T]:
                            bad(T, 'the size of %s is given as %s' % (T, v))
                    elif m == ibp:
                        if abs(v) != 8 * sz[T] or (v < 0) != (KINDS[T][0] == 'f'):
                            bad(T, 'the FITS image format for %s is given as %s' % (T, v))
                    elif not agrees(v, T, 'fits', 'ffgcv'):
                        bad(T, 'the FITS code for %s is given as %s' % (T, dtshow(v)))
                if m == iff:
                    froms[f['fid']] = (f, vals)
                    if vals.get('std::basic_string<char>', 16) != 16:
                        bad('string', 'the FITS code for texts is given as %s' % dtshow(vals['std::basic_string<char>']))
            elif all(isinstance(v, str) and v.startswith('"') for v in vals.values()):
                if len(set(vals.values())) == len(vals):
                    names[f['fid']] = (f, vals)
                lets = {T: v[1:2] for T, v in vals.items()}
                if all(len(v) == 2 for v in vals.values()) and sum(1 for T in lets if T in KINDS and LETTER.get(lets[T], ('', 0))[1] == KINDS[T][1]) * 2 > len(sz):
                    for T in sorted(lets):
                        l = LETTER.get(lets[T])
                        if T not in KINDS:
                            if l != 'string':
                                bad(T, 'the FITS column format for texts is given as %s' % lets[T])
                            continue
                        if l is None or l == 'string' or l[1] != KINDS[T][1] or (l[0] == 'f') != (KINDS[T][0] == 'f') or \
                                (l[0] == 'b') != (KINDS[T][0] == 'b'):
                            bad(T, 'the FITS column format for %s is given as %s' % (T, lets[T]))
        # and back from a FITS code
        for f in sorted(F.funcs.values(), key=lambda f: f['fid']):
            ps = f.get('params') or []
            if f.get('body') is None or len(ps) != 1 or f.get('cls') or clean(f['rt']) != E or clean(G.unref(ps[0]['t'])) != 'int':
                continue
            rev = {v: T for T, v in tab.items()}
            for code in sorted(FITS) + [14, 16]:
                r = sv.call(f['fid'], (code,))
                if r is None or len(r - {'raise'}) > 1:
                    rep.note('%s(%s) is not decided' % (f['fn'], code))
                    continue
                if not r - {'raise'}:
                    continue
                rep.count('entries of tables of type constants')
                T = rev.get((r - {'raise'}).pop())
                if code == 16:
                    ok = T is not None and types.elem(T) is None
                elif code in (83, 163):
                    ok = False
                elif code == 14:
                    ok = T == 'bool'
                else:
                    # TINT32BIT is a long in CFITSIO's own terms and four bytes in the file
                    a, b = KINDS[FITS[code]], KINDS.get(T, ('', 0))
                    ok = a[1] == b[1] and (a[0] == 'f') == (b[0] == 'f') and b[0] != 'b' or code == 41 and b == ('i', 4)
                if not ok:
                    rep.violation('table', '%s:%d' % (f['f'], f['l']), f['fn'], 'the FITS code %s is taken for %s' % (
                        dtshow(code), T), '%s-%s' % (f['sn'], code))


def operations(rep, F, sv):
    """the reduction made is the one that was asked for"""
    ops = {'ompi_mpi_op_' + x: x for x in ('min', 'max', 'sum', 'prod', 'land', 'lor', 'band', 'bor')}
    for f in sorted(F.funcs.values(), key=lambda f: f['fid']):
        ps = f.get('params') or []
        if f.get('body') is None or len(ps) != 1 or f.get('cls') or not f['rt'].startswith('ompi_op_t'):
            continue
        E = clean(G.unref(ps[0]['t']))
        cs = {}
        for g in F.funcs.values():
            for n in walk([g.get('body')]):
                if n.get('dk') == 'enum' and clean(n.get('t')) == E and n.get('v') is not None:
                    cs[n['v']] = n['n']
        for v, name in sorted(cs.items()):
            r = sv.call(f['fid'], (v,))
            if r is None or len(r - {'raise'}) != 1:
                rep.note('%s(%s) is not decided' % (f['fn'], name))
                continue
            rep.count('reduction operations compared')
            got = ops.get((r - {'raise'}).pop())
            if got != name.lower() and name.lower() in ops.values():
                rep.violation('operation', '%s:%d' % (f['f'], f['l']), f['fn'], 'the operation %s is carried out as MPI %s' % (name, got), name)
