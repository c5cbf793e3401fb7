"""Opaque handles are only used as the type they were created as."""
import facts, capi
from capi import KIND
from facts import walk
from pywrap import Wrapper
from pyint import Handle

CLASSES = set(KIND.values())


def base(t):
    t = (t or '').replace('const ', '').replace('volatile ', '').strip()
    while t.endswith(('*', '&', ' ')):
        t = t[:-1].strip()
    return t


class Flow:
    """Where the object pointers used by one C function come from."""

    def __init__(self, fs, rep, name, f, files):
        self.fs, self.rep, self.name, self.f, self.files = fs, rep, name, f, files
        self.kinds = capi.arg_kinds(name)
        self.env = {}
        for i, p in enumerate(f['params']):
            self.env[p['d']] = {('p', i)} if p['t'].rstrip().endswith('*') else set()
        self.rets = set()
        self.used = set()
        self.stack = []
        self.depth = 0

    def w(self, n):
        return '%s:%d' % (self.f['f'], n.get('l', self.f['l']))

    def run(self):
        # flow-insensitive on local variables: two rounds reach the fixed point of copies
        for i in range(3):
            self.final = i == 2
            self.walk(self.f['body'], True)

    def walk(self, n, top):
        if n is None:
            return set()
        k = n.get('k')
        if k == 'decl':
            for v in n['vars']:
                s = self.walk(v['init'], top) if v.get('init') else set()
                if v.get('static') and '*' in v.get('t', ''):
                    s = s | {('static', v['n'])}
                self.env.setdefault(v['d'], set()).update(s)
            return set()
        if k == 'return':
            s = set()
            for x in n.get('c') or []:
                s |= self.walk(x, top)
            if self.stack:
                self.stack[-1].update(s)
            else:
                self.rets |= s
            return set()
        if k == 'ref':
            if n.get('dk') == 'glob' and base(n.get('vt')) in CLASSES:
                return {('glob', n['n'])} | self.env.get(n['d'], set())
            return set(self.env.get(n['d'], ()))
        if k == 'cast':
            s = self.walk(n['c'][0], top)
            t = n['t']
            b = base(t)
            if self.final and t.rstrip().endswith(('*', '&')) and '::' in b:
                for x in s:
                    if x[0] == 'p' and x[1] in self.kinds:
                        self.rep.count('handle casts')
                        want = KIND[self.kinds[x[1]]]
                        if b != want:
                            self.bad('cast', n, 'argument %d, a handle of a %s, is used as a %s' % (x[1] + 1, want, b), '%d:%s' % (x[1], b))
            return s
        if k == 'asg':
            l, r = n['c']
            s = self.walk(r, top)
            if l['k'] == 'ref':
                self.env.setdefault(l['d'], set()).update(s)
            self.walk(l, top)
            return s
        if k == 'cond':
            self.walk(n['c'][0], top)
            return self.walk(n['c'][1], top) | self.walk(n['c'][2], top)
        if k == 'un' and n.get('op') in ('*', '&'):
            s = self.walk(n['c'][0], top)
            if n['op'] == '*' and base(n['t']) in CLASSES:
                self.receiver(n['t'], s, n)
            return s
        if k == 'new':
            for key in ('size', 'init'):
                if n.get(key):
                    self.walk(n[key], top)
            return {('new', n['at'], bool(n.get('arr')))}
        if k == 'delete':
            s = self.walk(n['c'][0], top)
            if self.final:
                self.rep.count('handle deletions')
                b = n['at']
                for x in s:
                    if x[0] == 'p' and x[1] in self.kinds:
                        want = KIND[self.kinds[x[1]]]
                        if b != want:
                            self.bad('delete', n, 'argument %d, a handle of a %s, is deleted as a %s' % (x[1] + 1, want, b), b)
                        if n.get('arr'):
                            self.bad('delete', n, 'a single object is deleted as an array', 'arr')
                self.receiver(n['at'], s, n)
            return set()
        if k == 'mem':
            s = self.walk(n['c'][0], top)
            if n.get('cls') in CLASSES:
                self.receiver(n['cls'], s, n)
            return set()
        if k in ('mcall', 'call', 'ocall', 'ctor'):
            args = [self.walk(x, top) for x in n.get('c') or []]
            if k == 'mcall' and n.get('obj'):
                s = self.walk(n['obj'], top)
                if n.get('cls') in CLASSES:
                    self.receiver(n['cls'], s, n)
            g = self.fs.funcs.get(n.get('fid'))
            if k == 'ocall' and n.get('memop'):
                args = args[1:]
            if g is not None and g.get('body') and g['f'] in self.files and self.depth < 6:
                for p, s in zip(g['params'], args):
                    self.env.setdefault(p['d'], set())
                save = {p['d']: self.env.get(p['d']) for p in g['params']}
                for p, s in zip(g['params'], args):
                    self.env[p['d']] = set(s)
                self.depth += 1
                self.stack.append(set())
                self.walk(g['body'], False)
                r = self.stack.pop()
                self.depth -= 1
                self.env.update(save)
                return r
            if n.get('sn') in ('move', 'forward', 'addressof'):
                return set().union(*args) if args else set()
            if n.get('sn') in ('release', 'get') and n.get('obj'):
                return self.walk(n['obj'], top)
            return set().union(*args) if k == 'ctor' and args and ('unique_ptr' in (n.get('cls') or '')) else set()
        if k == 'lambda':
            return set()
        r = set()
        for key, v in n.items():
            if isinstance(v, dict):
                r |= self.walk(v, top) if 'k' in v else self.sub(v, top)
            elif isinstance(v, list):
                for x in v:
                    if isinstance(x, dict):
                        r |= self.walk(x, top) if 'k' in x else self.sub(x, top)
        return r

    def sub(self, v, top):
        r = set()
        for x in v.values():
            if isinstance(x, dict):
                r |= self.walk(x, top) if 'k' in x else self.sub(x, top)
            elif isinstance(x, list):
                for y in x:
                    if isinstance(y, dict):
                        r |= self.walk(y, top) if 'k' in y else self.sub(y, top)
        return r

    def receiver(self, t, s, n):
        if not self.final or base(t) not in CLASSES:
            return
        self.rep.count('uses of handle objects')
        for x in s:
            if x[0] in ('glob', 'static'):
                self.bad('foreign-object', n, 'acts on the object in the variable %s instead of the one whose handle it was given' % x[1], x[1])
            elif x[0] == 'p':
                self.used.add(x[1])
                if x[1] in self.kinds and KIND[self.kinds[x[1]]] != base(t):
                    self.bad('receiver', n, 'argument %d, a handle of a %s, is used as a %s' % (x[1] + 1, KIND[self.kinds[x[1]]], base(t)), '%d:%s' % (x[1], base(t)))

    def bad(self, rule, n, msg, key):
        self.rep.violation(rule, self.w(n), self.name, msg, key)


def run(rep):
    rep.rule('in every C function every pointer derived from a handle argument is cast, dereferenced and deleted only as '
             'the class of that handle kind; the kinds follow from the names and argument positions of the interface')
    rep.rule('what a *_new function returns is a new-expression of exactly the class of its kind')
    rep.rule('no C function acts on an object from a global or static variable')
    rep.rule('the Python wrappers pass each handle only in argument positions of its kind')
    fs = facts.load()
    im = capi.impls(fs)
    files = {f['f'] for f in im.values()}
    for n, f in sorted(im.items()):
        rep.count('C functions')
        fl = Flow(fs, rep, n, f, files)
        fl.run()
        if capi.is_creator(n):
            k = KIND[capi.kind_of(n)]
            news = [x for x in fl.rets if x[0] == 'new']
            if any(x[0] == 'new' for x in fl.rets):
                rep.count('creation sites', len(news))
            for x in fl.rets:
                if x[0] == 'new' and (x[1] != k or x[2]):
                    rep.violation('create', '%s:%d' % (f['f'], f['l']), n, 'returns a handle to a %s%s instead of a %s' % (x[1], '[]' if x[2] else '', k), x[1])
                elif x[0] in ('glob', 'static'):
                    rep.violation('create', '%s:%d' % (f['f'], f['l']), n, 'returns a handle to the shared object %s' % x[1], x[1])
                elif x[0] == 'p':
                    rep.violation('create', '%s:%d' % (f['f'], f['l']), n, 'returns its own argument %d as a new handle' % (x[1] + 1), 'p%d' % x[1])
        rep.sample('%s: handle arguments %s' % (n, {i + 1: KIND[k] for i, k in fl.kinds.items()}))
    w = Wrapper(fs)
    for c in sorted(w.classes):
        for m in ['__init__'] + w.methods(c):
            for p in w.paths(c, m):
                for e in p.events + p.delevents:
                    if e[0] != 'lib':
                        continue
                    for i, k in capi.arg_kinds(e[1]).items():
                        if i < len(e[2]) and isinstance(e[2][i], Handle):
                            rep.count('handle arguments passed from Python')
                            g = capi.kind_of(e[2][i].fn)
                            if g != k:
                                rep.violation('python-handle', '%s:%d' % (w.file, e[3].lineno), '%s.%s' % (c, m), '%s gets a %s handle as argument %d, a %s is expected' % (e[1], g, i + 1, k), '%s:%d' % (e[1], i))
    rep.need('C functions', 30)
    rep.need('handle casts', 25)
    rep.need('uses of handle objects', 25)
    rep.need('creation sites', 5)
    rep.need('handle arguments passed from Python', 10)
