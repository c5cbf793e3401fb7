"""P11: every owned resource is released exactly once."""
import re, sys
import facts
import own
from facts import walk, CheckError
from own import Info, Own, Choice, paths, bare, unref, Thrown, End, Undecided, NULL

BUILTIN = ('double', 'float', 'int', 'long', 'char', 'unsigned char', 'unsigned long', 'bool')


def template(n):
    return n.split('<')[0]


def simple(n):
    a = re.findall(r'<(.*)>$', n)
    if not a:
        return (0, 0, n)
    x = a[0].split(',')[0].strip()
    return (0 if x == 'double' else 1 if x in BUILTIN else 2, len(n), n)


class Classes:
    def __init__(self, F, I):
        self.F, self.I = F, I
        recs = F.records
        self.direct = self.closure()
        meth = {}
        for f in F.funcs.values():
            if f.get('cls'):
                meth.setdefault(bare(f['cls']), []).append(f)
        self.meth = meth
        owners = set()
        for n, r in recs.items():
            fam = self.bases(r)
            if not any(unref(x['t']).endswith('*') for b in fam for x in b.get('fields', [])):
                continue
            if any(f['fid'] in self.direct for b in fam for f in meth.get(b['n'], [])):
                owners.add(n)
        files = {recs[n]['f'] for n in owners}
        fam = set(owners)
        grown = True
        while grown:
            grown = False
            for n, r in recs.items():
                if n in fam:
                    continue
                if any(bare(b) in fam for b in r.get('bases', [])) or r['f'] in files and any(bare(x['t']) in fam for x in r.get('fields', [])):
                    fam.add(n)
                    grown = True
        self.owners, self.family = owners, fam

    def bases(self, r):
        out, todo = [], [r]
        while todo:
            x = todo.pop()
            if x is None or x in out:
                continue
            out.append(x)
            todo += [self.F.records.get(bare(b)) for b in x.get('bases', [])]
        return out

    def closure(self):
        """functions that acquire or release without going through an object that owns"""
        F = self.F
        fieldless = {n for n, r in F.records.items() if not r.get('fields') and not r.get('bases')}
        cls = {f['fid']: bare(f['cls']) if f.get('cls') else None for f in F.funcs.values()}
        out = set()
        for fid, f in F.funcs.items():
            for n in walk([f.get('body'), f.get('inits')]):
                if n.get('k') in ('new', 'delete') or n.get('k') == 'call' and (n.get('sn') in own.ACQ or n.get('sn') in own.REL):
                    out.add(fid)
                    break
        grown = True
        while grown:
            grown = False
            for fid, cs in self.I.callees.items():
                if fid in out:
                    continue
                for c in cs:
                    if c in out and (cls.get(c) is None or cls[c] in fieldless or F.funcs[c].get('mstatic') or
                                     cls.get(c) == cls.get(fid)) and F.funcs[c]['kind'] not in ('dtor', 'ctor'):
                        out.add(fid)
                        grown = True
                        break
        return out

    def copyable(self, t, which, seen=()):
        t = t.strip()
        if which == 'copyasg' and (t.endswith('&') or t.startswith('const ') and not t.endswith('*')):
            return False
        b = bare(t)
        if b.startswith('std::unique_ptr<') or b.startswith('std::mutex'):
            return False
        r = self.F.records.get(b)
        if r is None or b in seen:
            return True
        ms = [m for m in r.get('methods', []) if m.get(which)]
        if r.get(which, {}).get('user'):
            return any(m.get('acc') == 'public' and not m.get('deleted') for m in ms)
        if any(m.get('deleted') for m in ms) or not r.get(which, {}).get('implicit'):
            return False
        return all(self.copyable(x, which, seen + (b,)) for x in list(r.get('bases', [])) + [y['t'] for y in r.get('fields', [])])

    def acquires(self, r):
        return any(f['fid'] in self.I.acq for b in self.bases(r) for f in self.meth.get(b['n'], []))

    def implicitly(self, r, which):
        """objects of a class of a source file are only copied where the code does it"""
        if r.get(which, {}).get('user') or r['f'].endswith(('.h', '.hpp')):
            return True
        ids = {m['fid'] for m in r.get('methods', []) if m.get(which)}
        return any(n.get('fid') in ids for f in self.F.funcs.values() if not f.get('impl') for n in walk([f.get('body'), f.get('inits')]))

    def ops(self, r):
        """what can be done to an object that matters to what it owns"""
        out = []
        names = {b['n'] for b in self.bases(r)}
        hidden = set()
        for b in self.bases(r):
            own_names = set()
            for m in b.get('methods', []):
                f = self.F.funcs.get(m['fid'])
                if f is None or m.get('ctor') or m.get('dtor') or m.get('acc') != 'public' or m.get('deleted') or f.get('mstatic') or \
                        f.get('body') is None or f.get('impl') or m['n'] in hidden or m.get('copyasg') and b is not r:
                    continue
                own_names.add(m['n'])
                if f['fid'] not in self.I.ops:
                    continue
                same = [i for i, p in enumerate(f['params']) if bare(p['t']) in names and p['t'].strip().endswith('&')]
                out.append((f, same, False))
                if same:
                    out.append((f, same, True))
            hidden |= own_names
        return out


def element(a):
    """the first of the arguments of a template"""
    d = 0
    for i, c in enumerate(a):
        d += c in '<(' 
        d -= c in '>)'
        if c == ',' and d == 0:
            return a[:i].strip()
    return a.strip()


def instantiate(F, C, names):
    done, failed = 0, []
    files = {template(n): r['f'] for n, r in F.records.items()}

    def text(ns):
        return ''.join('#include "%s/%s"\n' % (facts.REPO.rstrip('/'), h) for h in sorted({files[template(n)] for n in ns})) + \
            ''.join('template class %s;\n' % n for n in ns)

    def add(ns):
        """the classes and the classes they are made of"""
        todo, seen = list(ns), []
        for i in range(6):
            if not todo:
                break
            try:
                facts.extra(F, text(seen + todo))
            except CheckError:
                if i == 0:
                    raise
                break
            seen += todo
            todo = []
            for n in seen:
                r = F.records.get(n)
                for x in (list(r.get('bases', [])) + [y['t'] for y in r.get('fields', [])]) if r else []:
                    x = bare(x)
                    if '<' in x and x in F.records and x not in seen + todo:
                        todo.append(x)
        return len(ns)
    names = [n for n in names if '<' in n]
    if names:
        try:
            done = add(names)
        except CheckError:
            for n in names:
                try:
                    done += add([n])
                except CheckError:
                    failed.append(n)
    return done, failed


class History:
    def __init__(self, F, I, C, r, length, report, stats):
        self.F, self.I, self.C, self.r, self.length, self.report, self.stats = F, I, C, r, length, report, stats
        self.ctors = []
        for m in r.get('methods', []):
            f = F.funcs.get(m['fid'])
            if m.get('ctor') and not m.get('copyctor') and m.get('acc') == 'public' and not m.get('deleted') and f is not None and f.get('body') is not None \
                    and not (len(f['params']) == 1 and f['params'][0]['t'].strip().endswith('&&')):
                self.ctors.append(f)
        if not any(m.get('ctor') and not m.get('copyctor') for m in r.get('methods', [])):
            self.ctors.append(None)
        self.opl = C.ops(r)
        self.special = []
        if C.copyable(r['n'], 'copyctor') and C.implicitly(r, 'copyctor'):
            self.special.append('copy')
        if C.copyable(r['n'], 'copyasg') and C.implicitly(r, 'copyasg') and not any(f['sn'] == 'operator=' for f, s, x in self.opl):
            self.special.append('assign')
        self.seen = {}
        self.steps = ['end'] + self.special + self.opl

    def run(self, ch):
        O = Own(self.I, ch, self.report)
        objs = []
        what = []
        self.tell(what)
        try:
            a = self.make(O, what)
            if a is None:
                self.finish(O, objs, what)
                return
            objs.append(a)
            other = []
            for i in range(self.length):
                s = self.steps[O.choose(len(self.steps))]
                if s == 'end':
                    break
                try:
                    self.apply(O, s, objs, other, what)
                except Thrown:
                    what.append('(fails)')
                k = O.key(objs)
                if k is not None:
                    k = (self.length - i, len(objs), bool(other), k)
                    at = [v for v, n in ch.taken]
                    if self.seen.setdefault(k, at) != at:
                        return      # an earlier path has come to the same point
            self.finish(O, objs, what)
        except (End, RecursionError) as e:
            pass
        except Undecided as e:
            self.stats.setdefault('undecided', {})['%s: %s' % (self.r['n'], e)] = 1

    def make(self, O, what):
        f = self.ctors[O.choose(len(self.ctors))] if len(self.ctors) > 1 else self.ctors[0]
        loc = (O.new('obj'), ())
        if f is None:
            what.append('created')
            O.default(loc, self.r['n'])
            return loc
        what.append('created by %s(%s)' % (f['sn'], ', '.join(p['n'] or '' for p in f['params'])))
        try:
            O.locals = [[]]
            O.runctor(f, loc, self.args(O, f, (), None), self.r)
        except Thrown:
            what.append('(fails)')
            return None
        return loc

    def args(self, O, f, same, obj):
        out = []
        for i, p in enumerate(f['params']):
            if i in same:
                out.append(('loc', obj))
            elif p['t'].strip().endswith('&') or O.isclass(p['t']):
                out.append(('loc', (O.new('ext'), ())))
            elif p['t'].strip().endswith('*') and self.C.acquires(self.r):
                # a class that acquires what it owns does not take over what it is shown
                out.append(('p', O.new('caller'), ()))
            else:
                out.append(O.unk())
        return out

    def apply(self, O, s, objs, other, what):
        def second():
            if not other:
                b = self.make(O, [])
                if b is None:
                    raise End()
                other.append(b)
                objs.append(b)
            return other[0]
        O.locals = [[]]
        if s == 'copy':
            what.append('copied')
            loc = (O.new('obj'), ())
            O.copyinto(loc, objs[0], self.r['n'])
            objs.append(loc)
            return
        if s == 'assign':
            what.append('assigned another one')
            O.assigninto(objs[0], second(), self.r['n'])
            return
        f, same, alias = s
        x = None
        if same:
            x = objs[0] if alias else second()
        what.append('%s%s' % (f['sn'], ' with itself' if alias else ''))
        v = O.invoke(f, self.args(O, f, same, x), objs[0])
        if v is not None and v[0] == 'loc' and O.kind.get(v[1][0]) == 'temp' and O.isclass(f['rt']):
            O.destroy(v[1], f['rt'])

    def finish(self, O, objs, what):
        if not what or what[-1] != 'destroyed':
            what.append('destroyed')
        for l in reversed(objs):
            O.locals = [[]]
            try:
                O.destroy(l, self.r['n'])
            except Thrown:
                raise End()
        O.leaks([('p', o, ()) for o, k in O.kind.items() if k in ('ext', 'glob')], '')
        self.stats['acq'] = self.stats.get('acq', 0) + len(O.res)


def function(F, I, f, report, stats):
    def run(ch):
        O = Own(I, ch, report)
        O.what = []
        ext = []

        def outside():
            o = O.new('ext')
            ext.append(o)
            return (o, ())
        this = outside() if f.get('cls') and not f.get('mstatic') else None
        args = [('loc', outside()) if p['t'].strip().endswith('&') or O.isclass(p['t']) else O.unk() for p in f['params']]
        v = None
        O.locals = [[]]
        try:
            try:
                v = O.invoke(f, args, this)
                where = ''
            except Thrown:
                where = 'when the function is left by an exception'
            roots = [v] if v is not None else []
            if v is not None and v[0] == 'loc':
                roots = [('p',) + v[1]]
            roots += [('p', o, ()) for o, k in O.kind.items() if k in ('ext', 'glob')]
            O.leaks(roots, where)
            if any(O.res[o]['state'] == 'held' for o in O.reachable(roots) if o in O.res):
                O.effect = True
            stats['acq'] = stats.get('acq', 0) + len(O.res)
            if O.effect:
                stats['effect'] = True
        except End:
            if O.effect:
                stats['effect'] = True
        except (Undecided, RecursionError) as e:
            stats.setdefault('undecided', {})['%s: %s' % (f['fn'], e)] = 1
    return run


def handle(F, I, make, kill, report, stats):
    """a thing handed to C programs, and given back"""
    def run(ch):
        O = Own(I, ch, report)
        try:
            O.locals = [[]]
            v = O.invoke(make, [O.unk() for p in make['params']], None)
            if v is None or v[0] != 'p':
                return
            stats['pairs'] = stats.get('pairs', 0) + 1
            O.locals = [[]]
            O.invoke(kill, [v] + [O.unk() for p in kill['params'][1:]], None)
            O.leaks([], '')
        except (Thrown, End):
            pass
        except (Undecided, RecursionError) as e:
            stats.setdefault('undecided', {})['%s: %s' % (make['fn'], e)] = 1
    return run


def run(rep):
    sys.setrecursionlimit(20000)
    rep.rule('objects that own memory, FFT plans or files, along every path of every short history of creating, using, copying, assigning, '
             'exchanging and destroying them, with every acquisition and every operation that reports errors failing or not: each resource is '
             'released exactly once, by the counterpart of what acquired it, and is not used afterwards')
    rep.rule('functions that acquire or release themselves: along every path what is acquired is released, handed over or returned')
    F = facts.load()
    I = Info(F, walk)
    C = Classes(F, I)
    names = {}
    for n in C.family:
        t = template(n)
        if t not in names or simple(n) < simple(names[t]):
            names[t] = n
    # the members of class templates that the library itself does not use, for one element type
    want = set()
    for n in names.values():
        m = n
        a = re.match(r'[^<]*<(.*)>$', n)
        if a:
            x = element(a.group(1))
            if x not in BUILTIN:
                m = n.replace(x, 'double')
        want.add(m)
    done, failed = instantiate(F, C, sorted(want))
    rep.count('class templates instantiated in full', done)
    for n in failed:
        rep.note('%s cannot be instantiated in full; only the members the library uses are followed' % n)
    I = Info(F, walk)
    C = Classes(F, I)
    reps = {}
    for n in C.family:
        t = template(n)
        if t not in reps or (n not in want, simple(n)) < (reps[t]['n'] not in want, simple(reps[t]['n'])):
            reps[t] = F.records[n]
    found = {}
    cur = [None]

    def report(rule, f, n, msg):
        site = '%s:%d' % (f['f'], n['l'] if n else f['l']) if f is not None else '?'
        k = (rule, site, f['fn'] if f else '?', msg)
        h = cur[0]
        found.setdefault(k, h() if h else '')
    deep = 3 if rep.tier == 'thorough' else 2
    stats = {}
    limit = 300000 if rep.tier == 'thorough' else 20000
    order, seen = [], set()

    def visit(x):
        if x in seen:
            return
        seen.add(x)
        for c in sorted(I.callees.get(x, ())):
            if c in C.direct:
                visit(c)
        order.append(x)
    for x in sorted(C.direct):
        visit(x)
    neutral = set()
    for fid in order:
        f = F.funcs[fid]
        if f.get('impl') or f.get('body') is None or f['kind'] in ('dtor', 'ctor'):
            continue
        st = {}
        quiet = bool(f.get('cls') and bare(f['cls']) in C.family and not f.get('mstatic'))
        n, complete = paths(function(F, I, f, (lambda *a: None) if quiet else report, st), 4000, 30)
        if complete and not st.get('effect') and not st.get('undecided'):
            neutral.add(fid)
            I.neutral(neutral)
        if quiet and fid not in neutral:
            continue
        if quiet:
            paths(function(F, I, f, report, {}), 4000, 30)
        rep.count('functions that acquire or release')
        rep.count('paths through functions', n)
        stats['acq'] = stats.get('acq', 0) + st.get('acq', 0)
        stats.setdefault('undecided', {}).update(st.get('undecided', {}))
        rep.sample('%s: %d paths%s' % (f['fn'], n, ', leaves ownership as it was' if fid in neutral else ''))
        if not complete:
            rep.note('%s: only the first %d paths were followed' % (f['fn'], n))
    I.neutral(neutral)
    cfun = {f['sn']: f for f in F.funcs.values() if not f.get('cls') and f.get('body') is not None and not f.get('internal')}
    for n, f in sorted(cfun.items()):
        g = cfun.get(re.sub('_new(_.*)?$', '_del', n))
        if g is not None and g is not f and g['params'] and f['rt'].strip().endswith('*'):
            st = {}
            k, complete = paths(handle(F, I, f, g, report, st), 4000)
            stats.setdefault('undecided', {}).update(st.get('undecided', {}))
            rep.count('handles of the C interface', st.get('pairs', 0) > 0)
            rep.sample('%s and %s: %d paths' % (n, g['sn'], k))
    for t in sorted(reps):
        r = F.records[reps[t]['n']]
        H = History(F, I, C, r, deep, report, stats)
        if not H.ctors:
            continue

        def traced(ch, H=H):
            H.tell = lambda what: cur.__setitem__(0, lambda: ', '.join(what))
            cur[0] = None
            H.run(ch)
        n, complete = paths(traced, limit, 200 if rep.tier == 'thorough' else 40)
        rep.count('classes that own')
        rep.count('paths through histories of objects', n)
        rep.sample('%s: %d constructors, %d operations, %d paths%s' % (r['n'], len(H.ctors), len(H.steps) - 1, n, '' if complete else ' (not all)'))
        if not complete:
            rep.note('%s: only the first %d paths were followed' % (r['n'], n))
    cur[0] = None
    rep.count('acquisitions followed', stats.get('acq', 0))
    for u in sorted(stats.get('undecided', {})):
        rep.note('%s: not decided' % u)
    for (rule, site, fn, msg), h in sorted(found.items()):
        rep.violation(rule, site, fn, msg, msg + (' [an object is %s]' % h if h else ''))
    rep.need('functions that acquire or release', 1)
    rep.assumptions += ['copying elements and strings does not fail for lack of memory', 'containers of the standard library release what they own',
                        'CFITSIO leaves a null pointer where opening fails, and closes a file even when it reports an error']
