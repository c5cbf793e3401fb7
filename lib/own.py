"""A path-by-path interpreter for who owns what: memory blocks, files and plans.

Every path is followed on its own (the paths are enumerated by replaying the function with another sequence of
decisions), so what is known about pointers and resources is exact along it.  Numbers are only known where they are
constants; conditions on anything else go both ways, consistently along a path.
"""
import re
import time

ACQ = {  # function -> (kind, index of the argument the resource is stored through, or None when it is the result)
    'malloc': ('malloc', None), 'calloc': ('malloc', None), 'strdup': ('malloc', None), 'aligned_alloc': ('malloc', None),
    'posix_memalign': ('malloc', 0), '_mm_malloc': ('_mm_malloc', None), 'fopen': ('fopen', None), 'tmpfile': ('fopen', None),
    'ffopen': ('fits', 0), 'ffdopn': ('fits', 0), 'fftopn': ('fits', 0), 'ffiopn': ('fits', 0), 'ffdkopn': ('fits', 0), 'ffopentest': ('fits', 1),
    'ffinit': ('fits', 0), 'ffdkinit': ('fits', 0), 'fftplt': ('fits', 0), 'ffimem': ('fits', 0), 'ffreopen': ('fits', 1), 'ffgkls': ('malloc', 2)}
REL = {'free': ('malloc', 0), '_mm_free': ('_mm_malloc', 0), 'fclose': ('fopen', 0), 'ffclos': ('fits', 0), 'ffdelt': ('fits', 0),
       'fffree': ('malloc', 0)}
HOW = {'malloc': 'malloc', '_mm_malloc': '_mm_malloc', 'fopen': 'fopen', 'fits': 'opening a FITS file', 'new': 'new', 'new[]': 'new[]'}
NORETURN = ('exit', 'abort', '_exit', 'quick_exit', '__assert_fail', 'terminate', 'MPI_Abort')
TRANSPARENT = ('move', 'forward', 'addressof', 'as_const', '__addressof')
MANAGERS = ('std::unique_ptr<', 'std::shared_ptr<')


class Thrown(Exception):
    def __init__(self, tt, val=None):
        self.tt = tt


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class End(Exception):
    """the program ends here, or the path is impossible"""


class Undecided(Exception):
    pass


class Choice:
    def __init__(self, pre):
        self.pre, self.pos, self.taken = pre, 0, []

    def choose(self, k, lim=None):
        if self.pos < len(self.pre):
            v = self.pre[self.pos]
        else:
            v = 0
        self.pos += 1
        self.taken.append((v, k))
        return v


def paths(run, limit, seconds=None):
    """run(choice) for every sequence of decisions; returns (number of paths, complete)"""
    pre, n = [], 0
    start = time.time()
    while True:
        ch = Choice(pre)
        run(ch)
        n += 1
        t = ch.taken
        while t and t[-1][0] + 1 >= t[-1][1]:
            t.pop()
        if not t:
            return n, True
        if n >= limit or seconds and time.time() - start > seconds:
            return n, False
        pre = [v for v, k in t[:-1]] + [t[-1][0] + 1]


def unref(t):
    t = (t or '').strip()
    while t.endswith('&'):
        t = t[:-1].strip()
    return t


def bare(t):
    return re.sub(r'^const ', '', unref(t)).strip()


def isarray(t):
    return '[' in t and not t.strip().endswith('*') and '(*' not in t


NULL = ('i', 0)


class Info:
    """what is known about the functions of the program before any path is followed"""

    def __init__(self, F, walk):
        self.F = F
        self.walk = walk
        self.direct = {}
        self.callees = {}
        self.eff = set()
        self.thr = set()
        thr0, eff0 = set(), set()
        for fid, f in F.funcs.items():
            cs = set()
            if f['kind'] == 'dtor':
                cs |= self.members(f)
            for n in walk([f.get('body'), f.get('inits')]):
                k = n.get('k')
                if k in ('call', 'mcall', 'ocall', 'ctor') and n.get('fid'):
                    cs.add(n['fid'])
                    if n.get('sn') in ACQ or n.get('sn') in REL:
                        eff0.add(fid)
                elif k in ('new', 'delete'):
                    eff0.add(fid)
                    if n.get('dtor'):
                        cs.add(n['dtor'])
                elif k == 'throw':
                    thr0.add(fid)
                elif k == 'decl':
                    for v in n['vars']:
                        r = F.records.get(bare(v.get('t')))
                        if r is not None:
                            cs |= self.recdtor(r)
            self.callees[fid] = cs
        self.res = self.close(eff0)
        acq = set()
        for fid, f in F.funcs.items():
            if any(n.get('k') == 'new' or n.get('k') in ('call', 'mcall') and n.get('sn') in ACQ for n in walk([f.get('body'), f.get('inits')])):
                acq.add(fid)
        self.acq = self.close(acq)
        self.seeds = eff0
        # functions that write pointers kept in objects, and the flags beside them
        own = self.ownerfields()
        eff1 = set(eff0)
        for fid, f in F.funcs.items():
            for n in walk([f.get('body')]):
                t = n['c'][0] if n.get('k') == 'asg' or n.get('k') == 'un' and n.get('op') in ('++', '--') else None
                if n.get('k') == 'call' and n.get('sn') == 'swap':
                    eff1.add(fid)
                if t is not None and t.get('k') == 'mem' and t.get('d') in own:
                    eff1.add(fid)
            for i in f.get('inits') or []:
                if i.get('field') in own:
                    eff1.add(fid)
        self.seeds1 = eff1
        self.eff = self.close(eff1)
        self.thr = self.close(thr0)
        self.ptrfields = {x['n'] for r in list(F.records.values()) + list(F.crecords.values()) for x in r.get('fields', []) if unref(x['t']).endswith('*')}
        ptrs = set()
        for fid, f in F.funcs.items():
            for n in walk([f.get('body')]):
                t = n['c'][0] if n.get('k') == 'asg' else None
                if t is not None and t.get('k') == 'mem' and unref(t.get('t')).endswith('*'):
                    ptrs.add(fid)
                if n.get('k') == 'call' and n.get('sn') in ('swap', 'exchange'):
                    ptrs.add(fid)
            for i in f.get('inits') or []:
                if i.get('n') in self.ptrfields:
                    ptrs.add(fid)
        self.ptrs = ptrs
        self._rel = {}

    def recdtor(self, r):
        out = set()
        for m in r.get('methods', []):
            if m.get('dtor'):
                out.add(m['fid'])
        return out

    def members(self, f):
        out = set()
        todo, seen = [f.get('cls')], set()
        while todo:
            r = self.F.records.get(bare(todo.pop()))
            if r is None or r['n'] in seen:
                continue
            seen.add(r['n'])
            out |= self.recdtor(r) - {f['fid']}
            todo += [x['t'] for x in r.get('fields', [])] + list(r.get('bases', []))
        return out

    def neutral(self, fids):
        """functions that leave what anybody owns as it was need not be looked into"""
        self.eff = self.close(self.seeds1 - fids, fids)
        self.ops = self.close((self.seeds | self.ptrs) - fids, fids)
        self._rel = {}

    def close(self, s, stop=()):
        s = set(s)
        up = {}
        for a, cs in self.callees.items():
            for c in cs:
                up.setdefault(c, set()).add(a)
        todo = list(s)
        while todo:
            for a in up.get(todo.pop(), ()):
                if a not in s and a not in stop:
                    s.add(a)
                    todo.append(a)
        return s

    def condvars(self, f):
        """variables that decide about something that matters"""
        k = ('cv', f['fid'])
        if k not in self._rel:
            out = set()
            for n in self.walk([f.get('body')]):
                cs = []
                if n.get('k') == 'if' and (self.relevant(n.get('then')) or self.relevant(n.get('else'))):
                    cs = [n['cond']]
                elif n.get('k') in ('while', 'for', 'do', 'switch') and self.relevant(n.get('body')) and n.get('cond'):
                    cs = [n['cond']]
                elif n.get('k') == 'cond' and self.relevant(n):
                    cs = [n['c'][0]]
                elif n.get('k') in ('bin',) and n.get('op') in ('&&', '||') and self.relevant(n):
                    cs = [n]
                for m in self.walk(cs):
                    if m.get('k') in ('ref', 'mem'):
                        out.add(m.get('d'))
            self._rel[k] = out
        return self._rel[k]

    def ownerfields(self):
        out = set()
        recs = list(self.F.records.values()) + list(self.F.crecords.values())
        ptr = {r['n'] for r in recs if any(unref(x['t']).endswith('*') for x in r.get('fields', []))}
        grown = True
        while grown:
            grown = False
            for r in recs:
                if r['n'] not in ptr and any(bare(b) in ptr for b in r.get('bases', [])):
                    ptr.add(r['n'])
                    grown = True
        for r in recs:
            if r['n'] in ptr:
                for x in r.get('fields', []):
                    if not bare(x['t']) in self.F.records and not x['t'].startswith('std::'):
                        out.add(x['d'])
        return out

    def relevant(self, n):
        """does a piece of code matter to ownership or to control"""
        if n is None:
            return False
        k = id(n)
        if k not in self._rel:
            r = False
            for m in self.walk([n]):
                x = m.get('k')
                if x in ('new', 'delete', 'throw', 'return', 'goto', 'label'):
                    r = True
                elif x in ('call', 'mcall', 'ocall', 'ctor'):
                    sn = m.get('sn')
                    r = r or m.get('fid') in self.eff or m.get('fid') in self.thr or sn in ACQ or sn in REL or sn in NORETURN or \
                        m.get('xc') and (sn or '').startswith('ff')
                elif x == 'decl':
                    r = r or any(self.recdtor(self.F.records[bare(v.get('t'))]) & self.eff for v in m['vars'] if bare(v.get('t')) in self.F.records)
                if r:
                    break
            self._rel[k] = r
        return self._rel[k]

    def branching(self, n, f):
        """relevant, or it leaves, or it changes something that matters later"""
        if n is None:
            return False
        if self.relevant(n):
            return True
        k = ('b', id(n))
        if k not in self._rel:
            cv = self.condvars(f)
            self._rel[k] = any(m.get('k') in ('break', 'continue') or
                               m.get('k') == 'asg' and m['c'][0].get('k') in ('ref', 'mem', 'un') and
                               (unref(m['c'][0].get('t')).endswith('*') or m['c'][0].get('d') in cv) for m in self.walk([n]))
        return self._rel[k]


class Own:
    def __init__(self, info, choice, report):
        self.I, self.F, self.ch, self.report = info, info.F, choice, report
        self.mem = {}           # oid -> {path: value}
        self.kind = {}          # oid -> ('local'|'ext'|'temp'|'res'|'obj'...)
        self.res = {}           # oid -> dict(state, kind, n, fn)
        self.n = 0
        self.facts = {}
        self.env = [{}]
        self.fn = []
        self.temps = []
        self.depth = 0
        self.steps = 0
        self.shadow = {}
        self.globals = {}
        self.this = [None]
        self.cls = {}           # oid -> class, for objects
        self.trace = []

    # ---- basics
    def new(self, kind):
        self.n += 1
        self.mem[self.n] = {}
        self.kind[self.n] = kind
        return self.n

    def unk(self, tag='u'):
        self.n += 1
        return ('u', self.n)

    def choose(self, k):
        return self.ch.choose(k)

    def flag(self, rule, n, msg):
        f = self.fn[-1] if self.fn else None
        self.report(rule, f, n, msg)

    def load(self, loc):
        o, p = loc
        self.alive(o)
        m = self.mem[o]
        if p in m:
            return m[p]
        if '[?]' in p:
            return self.unk()
        v = self.unk()
        m[p] = v
        return v

    node = None
    effect = False

    def alive(self, o):
        r = self.res.get(o)
        if r is not None and r['state'] == 'released':
            self.flag('use after release', self.node, 'memory is used after it was released')
            raise End()

    def put(self, loc, v):
        o, p = loc
        self.alive(o)
        if self.kind[o] in ('ext', 'glob') and (v[0] == 'p' and v[1] in self.res or p and p[-1] in self.I.ptrfields):
            self.effect = True
        if '[?]' in p:
            # one of several: what is stored there stays reachable
            self.mem[o].setdefault(p + ('+',), []).append(v)
            return
        m = self.mem[o]
        for q in [q for q in m if len(q) > len(p) and q[:len(p)] == p and not isinstance(m[q], list)]:
            del m[q]
        m[p] = v

    def deref(self, v):
        """the place a pointer value points to"""
        if v[0] == 'p':
            self.alive(v[1])
            return (v[1], v[2])
        if v[0] == 'u':
            o = self.shadow.get(v)
            if o is None:
                o = self.shadow[v] = self.new('ext')
            return (o, ())
        raise End()         # a null pointer: not this analysis

    def truth(self, v):
        if v[0] == 'i':
            return bool(v[1])
        if v[0] == 'p':
            return True
        if v[0] == 'b':     # a comparison
            return self.decide(v[1])
        return self.decide(('nz', v))

    def decide(self, key):
        neg = False
        if key[0] == '!=':
            key, neg = ('==',) + key[1:], True
        elif key[0] == '>=':
            key, neg = ('<',) + key[1:], True
        elif key[0] == '>':
            key = ('<', key[2], key[1])
        elif key[0] == '<=':
            key, neg = ('<', key[2], key[1]), True
        if key[0] == '==':
            a, b = sorted(key[1:], key=repr)
            if NULL in (a, b):
                o = b if a == NULL else a
                key, neg = ('nz', o), not neg
            else:
                key = ('==', a, b)
        if key[0] == '<' and key[1] == NULL:
            # positive: taken to be the same as not zero where nothing negative is known
            pos = ('nz', key[2])
            if pos in self.facts and not self.facts[pos]:
                return False != neg
        if key not in self.facts:
            self.facts[key] = self.choose(2) == 0
            if key[0] == '<' and key[1] == NULL and self.facts[key]:
                self.facts[('nz', key[2])] = True
        return self.facts[key] != neg

    def compare(self, op, a, b):
        if a[0] == 'i' and b[0] == 'i':
            r = {'==': a[1] == b[1], '!=': a[1] != b[1], '<': a[1] < b[1], '>': a[1] > b[1], '<=': a[1] <= b[1], '>=': a[1] >= b[1]}[op]
            return ('i', int(r))
        if a == b:
            return ('i', int(op in ('==', '<=', '>=')))
        if a[0] == 'p' and b[0] == 'p' and op in ('==', '!='):
            return ('i', int(op == '!='))
        if 'p' in (a[0], b[0]) and NULL in (a, b):
            return ('i', int(op in ('!=', '>') if b == NULL else op in ('!=', '<')))
        if 'p' in (a[0], b[0]) and op in ('==', '!=') and 'u' in (a[0], b[0]):
            # memory that was just acquired, or a local, is at no address known before
            return ('i', int(op == '!='))
        if a[0] == 'b' or b[0] == 'b':
            if b[0] == 'i' and op in ('==', '!='):
                return ('i', int(self.truth(a) == (bool(b[1]) == (op == '=='))))
            return self.unk()
        return ('b', (op, a, b))

    # ---- resources
    def acquire(self, kind, n):
        o = self.new('res')
        self.res[o] = dict(state='held', kind=kind, n=n, fn=self.fn[-1] if self.fn else None)
        return ('p', o, ())

    def release(self, v, kind, n):
        if v == NULL:
            return
        if v[0] == 'u':
            # a pointer from outside: its first release is the caller's wish, a second one is not
            self.effect = True
            if not self.truth(v):
                return
            k = ('rel', v)
            if self.facts.get(k):
                self.flag('double release', n, 'the same memory is released twice')
                raise End()
            self.facts[k] = True
            return
        if v[0] != 'p':
            return
        r = self.res.get(v[1])
        if r is None:
            if self.kind.get(v[1]) == 'caller':
                self.flag('foreign release', n, 'memory that belongs to the caller is released')
                raise End()
            if self.kind.get(v[1]) in ('local', 'obj'):
                self.flag('foreign release', n, 'memory is released that was never acquired')
                raise End()
            return
        if v[2] not in ((), ('[0]',)):
            if all(x == '[?]' for x in v[2]):
                return
            self.flag('foreign release', n, 'memory is released from its middle')
            raise End()
        if r['state'] == 'released':
            self.flag('double release', n, 'a resource is released twice')
            raise End()
        if r['state'] == 'managed':
            self.flag('double release', n, 'a resource is released that a smart pointer owns')
            raise End()
        if r['kind'] != kind:
            self.flag('mismatch', n, 'a resource acquired by %s is released with the counterpart of %s' % (HOW[r['kind']], HOW[kind]))
        r['state'] = 'released'
        self.count_release = getattr(self, 'count_release', 0) + 1

    def reachable(self, roots):
        seen, todo = set(), list(roots)
        while todo:
            v = todo.pop()
            if isinstance(v, list):
                todo += v
                continue
            if not isinstance(v, tuple) or not v:
                continue
            if v[0] == 'p' and v[1] not in seen:
                seen.add(v[1])
                todo += list(self.mem[v[1]].values())
        return seen

    def leaks(self, roots, where):
        seen = self.reachable(roots)
        for o, r in self.res.items():
            if r['state'] == 'held' and o not in seen:
                self.report('leak', r['fn'], r['n'], 'a resource acquired by %s is never released %s' % (HOW[r['kind']], where))

    def key(self, locs):
        """what is known, as seen from some objects, up to the names of things; None when something is lost already"""
        roots = [('p',) + l for l in locs] + [('p', o, ()) for o, k in self.kind.items() if k == 'glob']
        seen = self.reachable(roots)
        if any(r['state'] == 'held' and o not in seen for o, r in self.res.items()):
            return None
        num, todo, out = {}, [], []

        def name(x):
            if x not in num:
                num[x] = len(num)
                if x[0] == 'o':
                    todo.append(x[1])
            return num[x]

        def val(v):
            if isinstance(v, list):
                return ('list',) + tuple(val(x) for x in v)
            if not isinstance(v, tuple) or not v:
                return v
            if v[0] in ('p', 'loc') and len(v) >= 2:
                o, q = (v[1], v[2]) if v[0] == 'p' else v[1]
                return (v[0], name(('o', o)), q)
            if v[0] == 'u':
                if v in self.shadow:
                    name(('o', self.shadow[v]))
                return ('u', name(('u', v)))
            return tuple(val(x) if isinstance(x, tuple) else x for x in v)

        def known(v):
            if not isinstance(v, tuple) or not v:
                return True
            if v[0] == 'u':
                return ('u', v) in num
            if v[0] == 'p':
                return ('o', v[1]) in num
            return all(known(x) for x in v)
        for r in roots:
            val(r)
        while todo:
            o = todo.pop(0)
            r = self.res.get(o)
            out.append((num['o', o], self.kind[o], r and (r['state'], r['kind'])))
            for q in sorted(self.mem[o], key=repr):
                out.append((num['o', o], q, val(self.mem[o][q])))
        fs = sorted(repr((val(k), b)) for k, b in self.facts.items() if known(k))
        return repr((out, fs))

    # ---- objects
    def rec(self, t):
        return self.F.records.get(bare(t))

    def isclass(self, t):
        return bare(t) in self.F.records

    def derives(self, r, base):
        return any(b is base or b is not None and self.derives(b, base) for b in map(self.rec, r.get('bases', [])))

    def dtorof(self, r):
        for m in r.get('methods', []):
            if m.get('dtor'):
                return self.F.funcs.get(m['fid'])
        return None

    def destroy(self, loc, t):
        r = self.rec(t)
        if r is None:
            if bare(t).startswith(MANAGERS):
                self.dispose(self.mem[loc[0]].get(loc[1] + ('#ptr',)))
            return
        d = self.dtorof(r)
        if d is not None and d.get('body') is not None and not d.get('impl'):
            self.invoke(d, [], loc)
        for x in reversed(r.get('fields', [])):
            if not x.get('asize') and not unref(x['t']) != x['t'].strip():
                self.destroy((loc[0], loc[1] + (x['n'],)), x['t'])
        for b in reversed(r.get('bases', [])):
            self.destroy(loc, b)

    def copytree(self, src, dst):
        so, sp = src
        do, dp = dst
        self.alive(so)
        items = [(q, v) for q, v in self.mem[so].items() if q[:len(sp)] == sp]
        for q in [q for q in self.mem[do] if q[:len(dp)] == dp]:
            del self.mem[do][q]
        for q, v in items:
            self.mem[do][dp + q[len(sp):]] = list(v) if isinstance(v, list) else v

    def copyctor(self, r):
        for m in r.get('methods', []):
            if m.get('copyctor') and not m.get('deleted'):
                f = self.F.funcs.get(m['fid'])
                if f is not None and f.get('body') is not None and not f.get('impl') and not m.get('defaulted'):
                    return f
        return None

    def copyinto(self, dst, src, t):
        """copy construction of an object of type t"""
        r = self.rec(t)
        if r is None:
            b = bare(t)
            if b.startswith('std::') or b.startswith('MPI'):
                return
            self.force(src, t)
            self.copytree(src, dst)
            return
        f = self.copyctor(r)
        if f is not None:
            self.runctor(f, dst, [('loc', src)], r)
            return
        if any(m.get('copyctor') and not m.get('implicit') and not m.get('defaulted') for m in r.get('methods', [])):
            raise Undecided('a copy constructor without a body')
        done = []
        try:
            for b in r.get('bases', []):
                self.copyinto(dst, src, b)
                done.append((dst, b))
            for x in r.get('fields', []):
                d, s = (dst[0], dst[1] + (x['n'],)), (src[0], src[1] + (x['n'],))
                if unref(x['t']) != x['t'].strip() or not self.isclass(x['t']):
                    self.scalarcopy(d, s, x['t'])
                else:
                    self.copyinto(d, s, x['t'])
                    done.append((d, x['t']))
        except Thrown:
            for d, t2 in reversed(done):
                self.destroy(d, t2)
            raise

    def scalarcopy(self, d, s, t):
        b = bare(t)
        if b.startswith('std::'):
            return
        if isarray(b):
            self.copytree(s, d)
            return
        self.put(d, self.load(s))

    def force(self, loc, t):
        b = bare(t)
        if not b.endswith(']') and b not in self.F.records and loc[1] not in self.mem[loc[0]] and \
                not any(q[:len(loc[1])] == loc[1] for q in self.mem[loc[0]]):
            self.load(loc)

    def assigninto(self, dst, src, t):
        """implicit assignment"""
        r = self.rec(t)
        if r is None:
            return
        for m in r.get('methods', []):
            if m.get('copyasg') and not m.get('deleted') and not m.get('defaulted'):
                f = self.F.funcs.get(m['fid'])
                if f is not None and f.get('body') is not None and not f.get('impl'):
                    self.invoke(f, [('loc', src)], dst)
                    return
                if not m.get('implicit'):
                    raise Undecided('an assignment without a body')
        for b in r.get('bases', []):
            self.assigninto(dst, src, b)
        for x in r.get('fields', []):
            d, s = (dst[0], dst[1] + (x['n'],)), (src[0], src[1] + (x['n'],))
            if self.isclass(x['t']):
                self.assigninto(d, s, x['t'])
            else:
                self.scalarcopy(d, s, x['t'])

    def default(self, loc, t):
        """default construction"""
        r = self.rec(t)
        if r is None:
            if bare(t).startswith(MANAGERS):
                self.mem[loc[0]][loc[1] + ('#ptr',)] = NULL
            return
        for m in r.get('methods', []):
            f = self.F.funcs.get(m['fid'])
            if m.get('ctor') and f is not None and not f['params'] and f.get('body') is not None:
                self.runctor(f, loc, [], r)
                return
        self.members(loc, r, {})

    def members(self, loc, r, inits):
        done = []
        try:
            for b in r.get('bases', []):
                i = inits.get(('base', bare(b)))
                if i is not None:
                    self.initinto(loc, b, i)
                else:
                    self.default(loc, b)
                done.append((loc, b))
            for x in r.get('fields', []):
                l = (loc[0], loc[1] + (x['n'],))
                i = inits.get(('field', x['d']), x.get('init'))
                isref = unref(x['t']) != x['t'].strip()
                if i is not None:
                    if isref:
                        self.mem[l[0]][l[1] + ('#ref',)] = ('loc', self.lval(i))
                    else:
                        self.initinto(l, x['t'], i)
                elif self.isclass(x['t']) and not x.get('asize'):
                    self.default(l, x['t'])
                if self.isclass(x['t']) and not isref and not x.get('asize'):
                    done.append((l, x['t']))
        except Thrown:
            for d, t in reversed(done):
                self.destroy(d, t)
            raise
        return done

    def runctor(self, f, loc, args, r):
        self.enter(f, args, loc)
        try:
            inits = {}
            deleg = None
            for i in f.get('inits') or []:
                if i.get('base'):
                    if bare(i['base']) == r['n']:
                        deleg = i['e']
                    inits[('base', bare(i['base']))] = i['e']
                elif i.get('field'):
                    inits[('field', i['field'])] = i['e']
                elif i.get('deleg') or i.get('delegating'):
                    deleg = i['e']
            if deleg is not None:
                self.initinto(loc, r['n'], deleg)
                done = [(loc, None)]
            else:
                done = self.members(loc, r, inits)
            self.flush(0)
            try:
                self.stmt(f['body'])
            except Ret:
                pass
            except Thrown:
                if deleg is not None:
                    self.destroy(loc, r['n'])
                else:
                    for d, t in reversed(done):
                        self.destroy(d, t)
                raise
        finally:
            self.leave()

    def initinto(self, loc, t, e):
        """initialise an object or a variable at loc from an expression"""
        b = bare(t)
        x = self.strip(e)
        if self.isclass(t):
            if x['k'] == 'ctor':
                self.construct(loc, x)
                return
            if x['k'] == 'ilist':
                r = self.rec(t)
                for fd, c in zip(r.get('fields', []), x.get('c', [])):
                    self.initinto((loc[0], loc[1] + (fd['n'],)), fd['t'], c)
                return
            v = self.ev(e)
            if v[0] == 'loc' and v[1] != loc:
                if self.kind.get(v[1][0]) == 'temp':
                    self.take(v[1], loc)
                else:
                    self.copyinto(loc, v[1], t)
            return
        if b.startswith(MANAGERS):
            v = self.ev(e)
            if x['k'] == 'ctor' and x.get('c'):
                v = self.ev(x['c'][0])
            self.manage(loc, v)
            return
        if x['k'] == 'ilist':
            cs = x.get('c', [])
            if isarray(b) or b in self.F.crecords:
                for i, c in enumerate(cs):
                    self.ev(c)
            elif cs:
                self.put(loc, self.ev(cs[0]))
            else:
                self.put(loc, NULL)
            return
        if b.startswith('std::') or x['k'] == 'ctor':
            for c in x.get('c', []) or []:
                self.ev(c)
            return
        v = self.ev(e)
        if v[0] == 'loc':
            self.copytree(v[1], loc)
            return
        if not isarray(b):
            self.put(loc, v)

    def manage(self, loc, v):
        if v[0] == 'p' and v[1] in self.res and self.res[v[1]]['state'] == 'held':
            if self.res[v[1]]['kind'] not in ('new', 'new[]'):
                # with a deleter of its own
                pass
            self.res[v[1]]['state'] = 'managed'
        if v[0] == 'loc':
            q = v[1][1] + ('#ptr',)
            w = self.mem[v[1][0]].get(q, NULL)
            self.mem[v[1][0]][q] = NULL
            v = w
        self.mem[loc[0]][loc[1] + ('#ptr',)] = v

    def dispose(self, v):
        """what a smart pointer holds is given up"""
        if v is not None and v[0] == 'p' and v[1] in self.res and self.res[v[1]]['state'] == 'managed':
            r = self.res[v[1]]
            if r['kind'] == 'new' and self.isclass(r['n'].get('at')):
                self.destroy((v[1], ()), r['n']['at'])
            r['state'] = 'released'

    def take(self, src, dst):
        """the object a function returned becomes the object that is initialised"""
        self.copytree(src, dst)
        self.temps = [t for t in self.temps if t[0] != src]

    def construct(self, loc, x):
        """an object by a constructor call expression"""
        r = self.rec(x.get('cls') or x.get('t'))
        if r is None:
            for a in x.get('c', []) or []:
                self.ev(a)
            return
        f = self.F.funcs.get(x['fid'])
        cs = [c for c in x.get('c', []) or []]
        iscopy = len(cs) == 1 and bare(cs[0].get('t')) == r['n']
        m = next((m for m in r.get('methods', []) if m['fid'] == x['fid']), None)
        if f is None or f.get('body') is None or f.get('impl') or m is not None and m.get('defaulted'):
            if iscopy:
                v = self.ev(cs[0])
                if v[0] == 'loc':
                    if self.kind.get(v[1][0]) == 'temp':
                        self.take(v[1], loc)
                    else:
                        self.copyinto(loc, v[1], r['n'])
                return
            for c in cs:
                self.ev(c)
            if not cs:
                if f is not None and f.get('body') is not None:
                    self.runctor(f, loc, [], r)
                else:
                    self.members(loc, r, {})
            return
        args = self.args(f, cs)
        self.runctor(f, loc, args, r)

    # ---- functions
    def args(self, f, cs):
        out = []
        for i, c in enumerate(cs):
            p = f['params'][i] if i < len(f['params']) else None
            t = (p or c).get('t', '')
            if p is not None and t.strip().endswith('&'):
                out.append(('loc', self.lval(c)))
            elif self.isclass(t):
                o = self.new('obj')
                self.initinto((o, ()), t, c)
                self.temps.append(((o, ()), t))
                out.append(('loc', (o, ())))
            else:
                out.append(self.ev(c))
        return out

    def enter(self, f, args, this):
        self.depth += 1
        if self.depth > 40:
            self.depth -= 1
            raise Undecided('recursion')
        env = {}
        for i, p in enumerate(f['params']):
            t = p['t']
            if i < len(args) and args[i] is not None:
                a = args[i]
                if a[0] == 'loc':
                    env[p['d']] = a[1]
                    continue
                o = self.new('local')
                self.mem[o][()] = a
                env[p['d']] = (o, ())
            else:
                o = self.new('local')
                env[p['d']] = (o, ())
        self.env.append(env)
        self.fn.append(f)
        self.this.append(this)
        self.saved = getattr(self, 'saved', [])
        self.saved.append(self.temps)
        self.temps = []

    def leave(self):
        self.depth -= 1
        self.env.pop()
        self.fn.pop()
        self.this.pop()
        self.temps = self.saved.pop()

    def invoke(self, f, args, this):
        self.enter(f, args, this)
        try:
            try:
                self.stmt(f['body'])
            except Ret as r:
                return r.v
            return self.unk()
        finally:
            self.leave()

    def flush(self, mark):
        """temporaries die at the end of the full expression"""
        while len(self.temps) > mark:
            l, t = self.temps.pop()
            self.destroy(l, t)

    # ---- statements
    def stmt(self, n):
        if n is None:
            return
        self.steps += 1
        if self.steps > 60000:
            raise Undecided('length of a path')
        k = n['k']
        m = getattr(self, 's_' + k, None)
        if m is not None:
            return m(n)
        mark = len(self.temps)
        try:
            self.ev(n)
        except Thrown:
            self.flush(mark)
            raise
        self.flush(mark)

    def scope(self, body):
        """run with a list of locals to destroy"""
        self.locals = getattr(self, 'locals', [])
        self.locals.append([])
        try:
            body()
        except End:
            self.locals.pop()
            raise
        except Undecided:
            self.locals.pop()
            raise
        except Ret as r:
            ls = self.locals.pop()
            if r.v is not None and r.v[0] == 'loc' and any(l == r.v[1] for l, t in ls):
                t = next(t for l, t in ls if l == r.v[1])
                o = self.new('temp')
                self.copytree(r.v[1], (o, ()))
                ls = [(l, t2) for l, t2 in ls if l != r.v[1]]
                r.v = ('loc', (o, ()))
            for l, t in reversed(ls):
                self.destroy(l, t)
            raise
        except BaseException:
            for l, t in reversed(self.locals.pop()):
                self.destroy(l, t)
            raise
        for l, t in reversed(self.locals.pop()):
            self.destroy(l, t)

    def s_block(self, n):
        def body():
            for c in n.get('c', []) or []:
                self.stmt(c)
        self.scope(body)

    def s_null_s(self, n):
        pass

    def s_decl(self, n):
        for v in n['vars']:
            t = v.get('t', '')
            isref = t.strip().endswith('&')
            init = v.get('init')
            if v.get('static') or v.get('ist') == 'static':
                loc = self.glob(v['d'])
                self.env[-1][v['d']] = loc
                continue
            if isref and init is not None:
                mark = len(self.temps)
                self.env[-1][v['d']] = self.lval(init)
                # a temporary bound to a reference lives as long as the reference
                if getattr(self, 'locals', None):
                    for l, t2 in self.temps[mark:]:
                        self.locals[-1].append((l, t2))
                del self.temps[mark:]
                continue
            o = self.new('local')
            loc = (o, ())
            self.env[-1][v['d']] = loc
            mark = len(self.temps)
            try:
                if init is not None:
                    self.initinto(loc, t, init)
                elif self.isclass(t):
                    self.default(loc, t)
            finally:
                pass
            if (self.isclass(t) or bare(t).startswith(MANAGERS)) and not isarray(t):
                self.locals[-1].append((loc, bare(t)))
            self.flush(mark)

    def s_return(self, n):
        c = n.get('c') or []
        v = None
        if c:
            f = self.fn[-1]
            if f['rt'].strip().endswith('&'):
                v = ('loc', self.lval(c[0]))
            elif self.isclass(f['rt']):
                x = self.strip(c[0])
                src = None
                y = x
                while y['k'] in ('ctor', 'cast') and len(y.get('c') or []) == 1 and bare(y.get('t')) == bare(f['rt']):
                    y = self.strip(y['c'][0])
                if y['k'] == 'ref' and y.get('dk') == 'var' and bare(y.get('t')) == bare(f['rt']):
                    src = self.env[-1].get(y['d'])
                if src is not None:
                    v = ('loc', src)        # the local becomes the result
                else:
                    o = self.new('temp')
                    self.initinto((o, ()), f['rt'], c[0])
                    v = ('loc', (o, ()))
            else:
                v = self.ev(c[0])
        self.flush(0)
        raise Ret(v)

    def s_if(self, n):
        if n.get('init') is not None:
            self.stmt(n['init'])
        if n.get('cvar') is not None:
            self.stmt(n['cvar'])
        f = self.fn[-1]
        if not self.I.branching(n.get('then'), f) and not self.I.branching(n.get('else'), f):
            if self.I.relevant(n['cond']):
                self.ev(n['cond'])
            for x in (n.get('then'), n.get('else')):
                if x is not None:
                    self.havoc(x)
            return
        mark = len(self.temps)
        c = self.truth(self.ev(n['cond']))
        self.flush(mark)
        if c:
            self.stmt(n.get('then'))
        elif n.get('else') is not None:
            self.stmt(n['else'])

    def havoc(self, n):
        for m in self.I.walk([n]):
            t = m['c'][0] if m.get('k') == 'asg' or m.get('k') == 'un' and m.get('op') in ('++', '--') else None
            if t is not None and t['k'] in ('ref', 'mem'):
                d = t.get('d')
                if t['k'] == 'ref' and d not in self.env[-1] and t.get('dk') != 'glob':
                    continue
                if self.isclass(t.get('t')) or bare(t.get('t')).startswith('std::'):
                    continue
                try:
                    l = self.lval(t)
                except End:
                    continue
                self.put(l, self.unk())

    def loop(self, n, cond, body, inc, first):
        if not self.I.relevant(body) and not self.I.relevant(cond) and not self.I.relevant(inc):
            self.havoc(n)
            return
        i = 0
        while True:
            if cond is not None and (i or not first):
                v = self.ev(cond)
                if v[0] in ('i', 'p'):
                    if not self.truth(v):
                        break
                    if i >= 3:
                        raise End()     # what happens later is not followed
                elif i == 0:
                    if not self.choose(2) == 0:
                        break
                elif i >= 2 or self.choose(2) == 1:
                    break
            elif i >= 2:
                raise End()
            i += 1
            try:
                self.stmt(body)
            except Brk:
                break
            except Cont:
                pass
            if inc is not None:
                mark = len(self.temps)
                self.ev(inc)
                self.flush(mark)

    def s_for(self, n):
        def body():
            if n.get('init') is not None:
                self.stmt(n['init'])
            self.loop(n, n.get('cond'), n.get('body'), n.get('inc'), False)
        self.scope(body)

    def s_while(self, n):
        self.loop(n, n.get('cond'), n.get('body'), None, False)

    def s_do(self, n):
        c = n.get('cond') or {}
        if c.get('cv') == 0 or c.get('cv') == '0' or c.get('v') in (0, '0'):
            try:
                self.stmt(n['body'])
            except (Brk, Cont):
                pass
            return
        self.loop(n, n.get('cond'), n.get('body'), None, True)

    def s_rangefor(self, n):
        if self.I.relevant(n.get('body')) and self.choose(2) == 0:
            try:
                self.stmt(n['body'])
            except (Brk, Cont):
                pass
        else:
            self.havoc(n)

    def s_switch(self, n):
        v = self.ev(n['cond'])
        if not self.I.branching(n['body'], self.fn[-1]):
            self.havoc(n['body'])
            return
        items = []

        def flat(s):
            while s is not None and s['k'] in ('case', 'default'):
                items.append((s['k'], s))
                s = s.get('sub')
            if s is not None:
                items.append(('stmt', s))
        for s in (n['body'].get('c') or []) if n['body']['k'] == 'block' else [n['body']]:
            flat(s)
        labels = [i for i, (k, s) in enumerate(items) if k != 'stmt']
        start = None
        if v[0] == 'i':
            for i in labels:
                if items[i][0] == 'case' and self.caseval(items[i][1]) == v[1]:
                    start = i
            if start is None:
                start = next((i for i in labels if items[i][0] == 'default'), None)
                if start is None:
                    return
        else:
            key = ('sw', v)
            groups = []
            for i in labels:
                if i and items[i - 1][0] != 'stmt':
                    continue
                groups.append(i)
            if not any(items[i][0] == 'default' for i in labels):
                groups.append(None)
            if key in self.facts and self.facts[key][0] == id(n):
                start = self.facts[key][1]
            else:
                start = groups[self.choose(len(groups))]
                self.facts[key] = (id(n), start)
            if start is None:
                return

        def body():
            for k, s in items[start:]:
                if k == 'stmt':
                    self.stmt(s)
        try:
            self.scope(body)
        except Brk:
            pass

    def caseval(self, s):
        v = s.get('v')
        for w in (v if not isinstance(v, dict) else v.get('cv', v.get('v')), s.get('val')):
            if isinstance(w, dict):
                w = w.get('cv', w.get('v'))
            try:
                return int(w)
            except (TypeError, ValueError):
                continue
        return None

    def s_break(self, n):
        raise Brk()

    def s_continue(self, n):
        raise Cont()

    def s_goto(self, n):
        raise Undecided('goto')

    def s_label(self, n):
        self.stmt(n.get('sub'))

    def s_omp(self, n):
        self.stmt(n.get('body'))

    def s_try(self, n):
        keep = (len(self.temps), self.depth)
        try:
            self.stmt(n['body'])
        except Thrown as t:
            hs = n.get('handlers') or []
            for h in hs:
                if h.get('all'):
                    break
                ht = bare(h.get('t') or (h.get('var') or {}).get('t') or '')
                if self.maycatch(ht, t.tt):
                    break
            else:
                raise
            self.exc = t
            self.stmt(h.get('body'))

    def maycatch(self, ht, tt):
        if tt is None or ht == bare(tt):
            return True
        r = self.F.records.get(bare(tt))
        todo = list(r.get('bases', [])) if r else []
        while todo:
            b = bare(todo.pop())
            if b == ht:
                return True
            r = self.F.records.get(b)
            todo += list(r.get('bases', [])) if r else []
        if ht == 'std::exception':
            return bare(tt).startswith('std::')
        return bare(tt).startswith('std::') and ht.startswith('std::') and self.choose(2) == 0

    # ---- expressions
    def strip(self, e):
        while e['k'] in ('cast', 'paren', 'default', 'defarg', 'tmp') and len(e.get('c') or []) == 1:
            e = e['c'][0]
        return e

    def ev(self, n):
        self.node = n if n.get('l') else self.node
        if n.get('cv') is not None and n['k'] not in ('str',):
            try:
                return ('i', int(n['cv']))
            except (TypeError, ValueError):
                pass
        m = getattr(self, 'e_' + n['k'], None)
        if m is not None:
            return m(n)
        for c in n.get('c') or []:
            self.ev(c)
        return self.unk()

    def e_int(self, n):
        return ('i', int(n['v']))

    def e_null(self, n):
        return NULL

    def e_str(self, n):
        o = self.new('str')
        return ('p', o, ())

    def e_flt(self, n):
        return self.unk()

    def e_sizeof(self, n):
        return self.unk()

    def e_this(self, n):
        l = self.this[-1]
        if l is None:
            raise Undecided('this')
        return ('p', l[0], l[1])

    def e_lambda(self, n):
        return self.unk()

    def rval(self, loc, t):
        if self.isclass(t):
            return ('loc', loc)
        b = bare(t)
        if isarray(b):
            return ('p', loc[0], loc[1])
        if b.startswith('std::') or bare(b) in self.F.crecords:
            return ('loc', loc)
        return self.load(loc)

    def e_ref(self, n):
        if n.get('dk') in ('enum', 'func') or n.get('dk') not in ('var', 'parm', 'glob'):
            return self.unk()
        return self.rval(self.lval(n), n.get('t'))

    def e_mem(self, n):
        return self.rval(self.lval(n), n.get('t'))

    def e_sub(self, n):
        return self.rval(self.lval(n), n.get('t'))

    def glob(self, d):
        if d not in self.globals:
            self.globals[d] = (self.new('glob'), ())
        return self.globals[d]

    def lval(self, n):
        k = n['k']
        if k == 'ref':
            if n.get('dk') == 'glob':
                return self.glob(n['d'])
            l = self.env[-1].get(n['d'])
            if l is None:
                l = self.env[-1][n['d']] = (self.new('ext'), ())
            return l
        if k == 'mem':
            b = n['c'][0]
            if n.get('arrow'):
                o, p = self.deref(self.ev(b))
            else:
                o, p = self.lval(b)
            r = self.mem[o].get(p + (n['n'], '#ref'))
            return r[1] if r is not None else (o, p + (n['n'],))
        if k == 'sub':
            a, i = n['c'][0], n['c'][1]
            v = self.ev(a)
            j = self.ev(i)
            if v[0] != 'p' and j[0] == 'p':
                v, j = j, v
            o, p = self.deref(v)
            return (o, p + ('[%d]' % j[1] if j[0] == 'i' else '[?]',))
        if k == 'un' and n.get('op') == '*':
            return self.deref(self.ev(n['c'][0]))
        if k == 'un' and n.get('op') in ('++', '--'):
            self.ev(n)
            return self.lval(n['c'][0])
        if k == 'asg':
            self.ev(n)
            return self.lval(n['c'][0])
        if k in ('cast', 'paren', 'tmp', 'default', 'defarg') and len(n.get('c') or []) == 1 and (
                n.get('lv') or n['c'][0].get('lv') or n.get('ck') in ('DerivedToBase', 'UncheckedDerivedToBase', 'NoOp', 'BaseToDerived')):
            return self.lval(n['c'][0])
        if k == 'bin' and n.get('op') == ',':
            self.ev(n['c'][0])
            return self.lval(n['c'][1])
        if k == 'cond':
            c = self.truth(self.ev(n['c'][0]))
            return self.lval(n['c'][1 if c else 2])
        v = self.ev(n)
        if v[0] == 'loc':
            return v[1]
        o = self.new('temp')
        self.mem[o][()] = v
        return (o, ())

    def e_cast(self, n):
        v = self.ev(n['c'][0])
        ck = n.get('ck')
        if ck in ('PointerToBoolean', 'IntegralToBoolean') and v[0] == 'i':
            return ('i', int(bool(v[1])))
        if ck == 'PointerToBoolean' and v[0] == 'p':
            return ('i', 1)
        return v

    def e_paren(self, n):
        return self.ev(n['c'][0])

    e_default = e_defarg = e_tmp = e_paren

    def e_other(self, n):
        v = None
        for c in n.get('c') or []:
            v = self.ev(c)
        return v if v is not None and len(n.get('c') or []) == 1 else self.unk()

    def e_un(self, n):
        op = n['op']
        c = n['c'][0]
        if op == '&':
            l = self.lval(c)
            return ('p', l[0], l[1])
        if op == '*':
            return self.rval(self.lval(n), n.get('t'))
        if op == '!':
            return ('i', int(not self.truth(self.ev(c))))
        if op in ('++', '--', 'p++', 'p--', 'post++', 'post--'):
            l = self.lval(c)
            v = self.load(l)
            w = ('i', v[1] + (1 if '+' in op else -1)) if v[0] == 'i' else self.unk()
            if v[0] == 'p':
                w = ('p', v[1], v[2] + ('[?]',))
            self.put(l, w)
            return v if n.get('post') or op.startswith('p') else w
        v = self.ev(c)
        if op == '-' and v[0] == 'i':
            return ('i', -v[1])
        if op in ('+',):
            return v
        return self.unk()

    def e_bin(self, n):
        op = n['op']
        a, b = n['c']
        if op in ('&&', '||'):
            x = self.truth(self.ev(a))
            if x != (op == '&&'):
                return ('i', int(x))
            return ('i', int(self.truth(self.ev(b))))
        x = self.ev(a)
        y = self.ev(b)
        if op == ',':
            return y
        if op in ('==', '!=', '<', '>', '<=', '>='):
            if x[0] == 'loc' or y[0] == 'loc':
                return self.unk()
            return self.compare(op, x, y)
        if x[0] == 'i' and y[0] == 'i':
            try:
                return ('i', {'+': lambda: x[1] + y[1], '-': lambda: x[1] - y[1], '*': lambda: x[1] * y[1], '&': lambda: x[1] & y[1],
                              '|': lambda: x[1] | y[1], '<<': lambda: x[1] << y[1], '>>': lambda: x[1] >> y[1],
                              '%': lambda: x[1] % y[1], '/': lambda: x[1] // y[1], '^': lambda: x[1] ^ y[1]}[op]())
            except (KeyError, ZeroDivisionError, ValueError):
                return self.unk()
        if op == '*' and NULL in (x, y):
            return NULL
        if op in ('+', '-'):
            for p, q in ((x, y), (y, x)):
                if p[0] == 'p' and q[0] != 'p':
                    return p if q == NULL else ('p', p[1], p[2] + ('[%d]' % q[1] if q[0] == 'i' else '[?]',))
            if y == NULL:
                return x
        if x[0] in 'ui' and y[0] in 'ui':
            k = ('op', op, x, y) if op not in ('+', '*') else ('op', op) + tuple(sorted((x, y), key=repr))
            if k not in self.facts:
                self.facts[k] = self.unk()
            return self.facts[k]
        return self.unk()

    def e_asg(self, n):
        op = n['op']
        a, b = n['c']
        if op == '=':
            if self.isclass(a.get('t')) or bare(a.get('t')) in self.F.crecords:
                d, s = self.lval(a), self.lval(b)
                self.assigninto(d, s, a['t']) if self.isclass(a.get('t')) else self.copytree(s, d)
                return ('loc', d)
            v = self.ev(b)
            l = self.lval(a)
            if v[0] == 'loc':
                return v
            self.put(l, v)
            return v
        v = self.ev(b)
        l = self.lval(a)
        w = self.load(l)
        if w[0] == 'i' and v[0] == 'i' and op in ('+=', '-=', '*=', '|=', '&='):
            r = ('i', {'+': w[1] + v[1], '-': w[1] - v[1], '*': w[1] * v[1], '|': w[1] | v[1], '&': w[1] & v[1]}[op[0]])
        elif w[0] == 'p':
            r = ('p', w[1], w[2] + ('[?]',))
        else:
            r = self.unk()
        self.put(l, r)
        return r

    def e_cond(self, n):
        a, b, c = n['c']
        x = self.truth(self.ev(a))
        return self.ev(b if x else c)

    def e_ilist(self, n):
        v = None
        for c in n.get('c') or []:
            v = self.ev(c)
        if len(n.get('c') or []) == 1 and not self.isclass(n.get('t')):
            return v
        return NULL if not n.get('c') else self.unk()

    def e_throw(self, n):
        for c in n.get('c') or []:
            x = self.strip(c)
            for d in x.get('c') or []:
                self.ev(d)
        if not n.get('c'):
            raise Thrown(getattr(self, 'exc', Thrown(None)).tt)
        raise Thrown(n.get('tt'))

    def e_new(self, n):
        arr = n.get('arr')
        if n.get('size') is not None:
            self.ev(n['size'])
        x = n.get('init')
        place = [c for c in n.get('c') or [] if 'nothrow_t' not in c.get('t', '')]
        if place and not arr and any(c.get('t', '').endswith('*') for c in place):
            for c in place:
                self.ev(c)
            return self.unk()
        if self.choose(2) == 1:
            if n.get('nothrow'):
                return NULL
            raise Thrown('std::bad_alloc')
        v = self.acquire('new[]' if arr else 'new', n)
        if not arr and x is not None:
            try:
                self.initinto((v[1], ()), n['at'], x)
            except Thrown:
                # memory of an object whose constructor fails is given back
                self.res[v[1]]['state'] = 'gone'
                raise
        elif not arr and self.isclass(n.get('at')):
            try:
                self.default((v[1], ()), n['at'])
            except Thrown:
                self.res[v[1]]['state'] = 'gone'
                raise
        return v

    def e_delete(self, n):
        v = self.ev(n['c'][0])
        if v == NULL:
            return self.unk()
        r = self.res.get(v[1]) if v[0] == 'p' else None
        if not n.get('arr') and r is not None and r['state'] == 'held' and r['kind'] == 'new':
            a, b = self.rec(n.get('at')), self.rec(r['n'].get('at'))
            if a is not b and not (a is not None and b is not None and self.derives(b, a)):
                self.flag('mismatch', n, 'an object of type %s is deleted as if it was of type %s' % (r['n'].get('at'), n.get('at')))
                raise End()
            self.destroy((v[1], ()), n.get('at'))
        self.release(v, 'new[]' if n.get('arr') else 'new', n)
        return self.unk()

    def e_ctor(self, n):
        t = n.get('cls') or n.get('t')
        if self.isclass(t):
            o = self.new('temp')
            self.construct((o, ()), n)
            self.temps.append(((o, ()), bare(t)))
            return ('loc', (o, ()))
        o = self.new('temp')
        vs = [self.ev(c) for c in n.get('c') or []]
        if bare(t).startswith(MANAGERS) and vs:
            self.manage((o, ()), vs[0])
            self.temps.append(((o, ()), bare(t)))
        return ('loc', (o, ()))

    # ---- calls
    def e_call(self, n):
        sn = n.get('sn')
        cs = n.get('c') or []
        ext = n.get('ext')
        if sn in TRANSPARENT and len(cs) == 1:
            l = self.lval(cs[0])
            return ('p',) + l if 'addressof' in sn else self.rval(l, n.get('t')) if not self.isclass(n.get('t')) else ('loc', l)
        if sn == 'exchange' and len(cs) == 2 and ext:
            l = self.lval(cs[0])
            old = self.load(l)
            self.put(l, self.ev(cs[1]))
            return old
        if sn == 'swap' and len(cs) == 2 and (ext or n.get('fn', '').startswith('std::')):
            a, b = self.lval(cs[0]), self.lval(cs[1])
            t = cs[0].get('t')
            if self.isclass(t):
                r = self.rec(t)
                o = self.new('obj')
                self.copyinto((o, ()), a, r['n'])
                self.assigninto(a, b, r['n'])
                self.assigninto(b, (o, ()), r['n'])
                self.destroy((o, ()), r['n'])
            else:
                x, y = self.load(a), self.load(b)
                self.put(a, y)
                self.put(b, x)
            return self.unk()
        if sn in REL and (ext or n.get('xc')):
            kind, i = REL[sn]
            vs = [self.ev(c) for c in cs]
            if sn in ('ffdelt',) or sn == 'ffclos':
                st = vs[1] if len(vs) > 1 else None
                if sn == 'ffdelt' and vs[i] == NULL:
                    return self.unk()
                self.release(vs[i], kind, n)
                self.setstatus(st)
                return self.unk()
            self.release(vs[i], kind, n)
            return self.unk()
        if sn in ACQ and (ext or n.get('xc')):
            return self.acq(n, sn, [self.ev(c) for c in cs])
        if sn in NORETURN:
            raise End()
        if n.get('xc') and (sn or '').startswith('ff') and ext:
            vs = [self.ev(c) for c in cs]
            if vs and cs[-1].get('t', '').strip() == 'int *' and sn not in ('ffgmsg', 'ffcmsg', 'ffgerr'):
                self.setstatus(vs[-1])
            return self.unk()
        return self.generic(n, cs, None)

    def setstatus(self, st):
        """CFITSIO reports what happened through its last argument"""
        if st is None or st[0] != 'p':
            return
        l = (st[1], st[2])
        v = self.load(l)
        if v[0] == 'i' and v[1] == 0:
            if self.choose(2) == 1:
                self.put(l, ('i', 104))

    def acq(self, n, sn, vs):
        kind, i = ACQ[sn]
        if kind == 'fits' or sn == 'ffgkls':
            st = vs[-1]
            l = (st[1], st[2]) if st[0] == 'p' else None
            dst = self.deref(vs[i]) if vs[i][0] in 'pu' else None
            if l is not None:
                s = self.load(l)
                if s[0] == 'i' and s[1] != 0:
                    return s
                if s[0] != 'i' and self.truth(s):
                    return s
                if self.choose(2) == 1:
                    self.put(l, ('i', 104))
                    if dst is not None:
                        self.put(dst, NULL)
                    return ('i', 104)
                self.put(l, ('i', 0))
            if dst is not None:
                self.put(dst, self.acquire(kind, n))
            return ('i', 0)
        ok = self.choose(2) == 0
        if i is None:
            return self.acquire(kind, n) if ok else NULL
        if ok:
            dst = self.deref(vs[i])
            self.put(dst, self.acquire(kind, n))
            return ('i', 0)
        return ('i', 12)

    def e_mcall(self, n):
        obj = n.get('obj')
        cs = n.get('c') or []
        if obj is None:
            return self.generic(n, cs, None)
        if n.get('arrow'):
            ov = self.ev(obj)
            l = self.deref(ov)
        else:
            l = self.lval(obj)
        if bare(n.get('cls')).startswith(MANAGERS):
            return self.smart(n, l, cs)
        return self.generic(n, cs, l)

    def smart(self, n, l, cs):
        q = (l[0], l[1] + ('#ptr',))
        v = self.mem[q[0]].get(q[1], NULL)
        sn = n.get('sn')
        if sn == 'get' or sn in ('operator bool',) or sn == 'operator->':
            return v
        if sn == 'release':
            if v[0] == 'p' and v[1] in self.res and self.res[v[1]]['state'] == 'managed':
                self.res[v[1]]['state'] = 'held'
            self.mem[q[0]][q[1]] = NULL
            return v
        if sn == 'reset':
            w = self.ev(cs[0]) if cs else NULL
            self.dispose(v)
            self.manage(l, w)
            return self.unk()
        return self.unk()

    def e_ocall(self, n):
        cs = n.get('c') or []
        obj = None
        t0 = cs[0].get('t') if cs else ''
        if n.get('memop') and cs and self.isclass(n.get('cls')):
            obj = self.lval(n['obj'] if n.get('obj') is not None else cs[0])
            rest = cs if n.get('obj') is not None else cs[1:]
            f = self.F.funcs.get(n['fid'])
            if n.get('op') == '=' and (f is None or f.get('body') is None or f.get('impl')) and rest:
                self.assigninto(obj, self.lval(rest[0]), n['cls'])
                return ('loc', obj)
            return self.generic(n, rest, obj)
        if n.get('memop') and cs and bare(n.get('cls')).startswith(MANAGERS):
            obj = self.lval(cs[0])
            if n.get('op') == '=':
                src = self.lval(cs[1])
                old = self.mem[obj[0]].get(obj[1] + ('#ptr',), NULL)
                self.dispose(old)
                self.manage(obj, ('loc', src))
                return ('loc', obj)
            v = self.mem[obj[0]].get(obj[1] + ('#ptr',), NULL)
            if n.get('op') == '->':
                return v
            if n.get('op') in ('*', '[]'):
                return ('loc', self.deref(v)) if v[0] in 'pu' else self.unk()
        return self.generic(n, cs, None)

    def generic(self, n, cs, obj):
        f = self.F.funcs.get(n.get('fid'))
        has = f is not None and f.get('body') is not None and not f.get('impl')
        eff = n.get('fid') in self.I.eff
        if has and (eff or self.small(f)) and (obj is not None or not f.get('cls') or f.get('mstatic')):
            args = self.args(f, cs)
            v = self.invoke(f, args, obj)
            if v is None:
                return self.unk()
            if v[0] == 'loc' and self.kind.get(v[1][0]) == 'temp' and self.isclass(n.get('t')):
                self.temps.append((v[1], bare(n['t'])))
            if f['rt'].strip().endswith('&') and v[0] == 'loc' and not self.isclass(n.get('t')):
                return self.rval(v[1], n.get('t'))
            return v
        for c in cs:
            if c.get('lv') and c['k'] in ('ref',):
                continue
            self.ev(c)
        if n.get('fid') in self.I.thr and not n.get('nx'):
            if self.choose(2) == 1:
                raise Thrown(None)
        # what is handed over by reference or address may be changed
        if not n.get('mconst'):
            for c, t in zip(cs, n.get('pt') or []):
                t = t.strip()
                if t.endswith('&') and not t.startswith('const ') and c.get('lv') and not self.isclass(c.get('t')) and c['k'] in ('ref', 'mem'):
                    l = self.lval(c)
                    if not bare(c.get('t')).startswith('std::') and '[' not in c.get('t', '') and not c.get('t', '').endswith('*'):
                        self.put(l, self.unk())
                elif t.endswith('*') and not t.startswith('const ') and c['k'] == 'un' and c.get('op') == '&' and not t.rstrip('*').strip().endswith('*'):
                    l = self.lval(c['c'][0])
                    if not self.isclass(c['c'][0].get('t')):
                        self.put(l, self.unk())
        t = n.get('t', '')
        if self.isclass(t) and not n.get('lv'):
            o = self.new('temp')
            return ('loc', (o, ()))
        return self.unk()

    def small(self, f):
        k = ('small', f['fid'])
        c = self.I._rel
        if k not in c:
            i, ok = 0, True
            for m in self.I.walk([f['body']]):
                i += 1
                if m.get('k') in ('for', 'while', 'goto', 'try', 'switch') or i > 25:
                    ok = False
                    break
            c[k] = ok
        return c[k]
