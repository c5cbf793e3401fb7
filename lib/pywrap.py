"""Drives the abstract interpreter over the Python package."""
import os, ast, glob
import facts, capi
from facts import CheckError, REPO
from pyint import *

SPEC = {'Convolver': {'__init__': ['Sky', 'Beam', 'Detector'], 'convolve': ['Pointing'],
                      'set_sky': ['Sky'], 'set_beam': ['Beam'], 'set_detector': ['Detector']}}


class Path:
    pass


class Wrapper:
    def __init__(self, fs):
        self.file = 'python/libconviqt_wrapper/__init__.py'
        p = os.path.join(REPO, self.file)
        if not os.path.exists(p):
            raise CheckError('anchor vanished: no %s' % self.file)
        self.src = open(p).read()
        self.decls, err = capi.header_decls('c')
        if self.decls is None:
            self.decls, err2 = capi.header_decls('c++')
            if self.decls is None:
                raise CheckError('the public C header does not compile: %s' % err)
        self.kinds = capi.result_kinds(self.decls)
        for n, f in capi.impls(fs).items():
            self.kinds.setdefault(n, capi.result_kinds({n: f})[n])
        try:
            self.tree = ast.parse(self.src)
        except SyntaxError as e:
            raise CheckError('the Python wrapper does not parse: %s' % e)
        self.it = Interp(self.kinds, 8)
        self.env = Env()
        # modules of the package are inlined where the package imports them
        self.runmod()

    def runmod(self):
        it = self.it
        it.phase = 'module'
        it.events = []
        body = []
        for s in self.tree.body:
            if isinstance(s, ast.ImportFrom) and s.level == 1:
                names = [s.module] if s.module else [a.name for a in s.names]
                for n in names:
                    p = os.path.join(REPO, 'python/libconviqt_wrapper', n.replace('.', '/') + '.py')
                    if os.path.exists(p):
                        body += ast.parse(open(p).read()).body
                continue
            body.append(s)
        try:
            it.block(body, self.env)
        except PyRaise as e:
            raise CheckError('importing the wrapper raises at line %d' % e.node.lineno)
        self.modevents = list(it.events)
        self.classes = {n: v for n, v in self.env.v.items() if isinstance(v, Cls)}
        if not self.classes:
            raise CheckError('no classes found in the Python wrapper')

    def inputs(self, cls, meth):
        """The arguments a user passes, as abstract objects."""
        f = self.classes[cls].find(meth)
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if not f.static:
            names = names[1:]
        spec = SPEC.get(cls, {}).get(meth, [])
        args, objs = [], []
        for i, n in enumerate(names):
            if i < len(spec) and spec[i] in self.classes:
                o = self.make(spec[i])
                args.append(o)
                objs.append(o)
            else:
                args.append(Unk('argument ' + n))
        return args, objs

    def make(self, cls):
        """A completely constructed object, every C call having succeeded."""
        it = self.it
        old = it.noforkcalls, it.events, it.fails
        it.noforkcalls, it.events, it.fails = True, [], []
        try:
            args, objs = self.inputs(cls, '__init__') if isinstance(self.classes[cls].find('__init__'), Func) else ([], [])
            o = it.call(self.classes[cls], args, {}, self.tree)
            o.inputs = objs
            o.created = [e[2] for e in it.events if e[0] == 'res' and isinstance(e[2], Handle)
                         and capi.is_creator(e[1])]
            o.made = it.events
            return o
        finally:
            it.noforkcalls, it.events, it.fails = old

    def methods(self, cls):
        out = []
        for k in mro(self.classes[cls]):
            for n, v in k.ns.items():
                if isinstance(v, Func) and n not in out and n not in ('__init__', '__del__', '__new__'):
                    out.append(n)
        return out

    def paths(self, cls, meth, limit=3000):
        """Every abstract execution of one method on a complete object (for
        __init__: of the construction), then of its destruction."""
        it = self.it
        it.dec = []
        n = 0
        while True:
            it.pos = 0
            it.step = 0
            it.depth = 0
            it.fails = []
            it.events = []
            it.phase = 'make'
            it.in_raise = False
            it.nid = 0
            p = Path()
            p.cls, p.meth = cls, meth
            p.raised = None
            p.obj = None
            p.ret = None
            it.stores = {}
            it.keep = []
            try:
                c = self.classes[cls]
                if meth == '__init__':
                    args, objs = self.inputs(cls, '__init__') if isinstance(c.find('__init__'), Func) else ([], [])
                    it.phase = 'init'
                    it.events = []
                    p.obj = Inst(c)
                    p.obj.inputs = objs
                    p.obj.created = []
                    i = c.find('__init__')
                    try:
                        if isinstance(i, Func):
                            it.pycall(i, [p.obj] + args, {}, self.tree)
                    except PyRaise as e:
                        p.raised = e
                    p.args = objs
                else:
                    p.obj = self.make(cls)
                    f = c.find(meth)
                    args, objs = self.inputs(cls, meth)
                    p.args = objs
                    it.phase = 'method'
                    it.events = list(p.obj.made)
                    p.nmade = len(it.events)
                    try:
                        p.ret = it.pycall(f, ([] if f.static else [p.obj]) + args, {}, self.tree)
                    except PyRaise as e:
                        p.raised = e
                p.events = list(it.events)
                p.fails = list(it.fails)
                d = c.find('__del__')
                it.phase = 'del'
                it.noforkcalls = True
                it.events = []
                try:
                    if isinstance(d, Func):
                        it.pycall(d, [p.obj], {}, self.tree)
                except PyRaise:
                    pass
                finally:
                    it.noforkcalls = False
                p.delevents = list(it.events)
                yield p
            except (Abort, PyRaise):
                pass
            except (_Break, _Continue):
                pass
            n += 1
            if n > limit:
                raise CheckError('too many paths through %s.%s' % (cls, meth))
            if not it.next_path():
                return


from pyint import _Break, _Continue
