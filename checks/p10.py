"""The Python objects raise on every failure and keep what they use alive."""
import facts, capi
from pywrap import Wrapper
from pyint import *


def reach(roots):
    seen, st = {}, list(roots)
    while st:
        x = st.pop()
        if id(x) in seen:
            continue
        if isinstance(x, Inst):
            seen[id(x)] = x
            st += list(x.attrs.values())
        elif isinstance(x, (list, tuple, set)):
            seen[id(x)] = x
            st += list(x)
        elif isinstance(x, dict):
            seen[id(x)] = x
            st += list(x.keys()) + list(x.values())
        elif isinstance(x, Bound):
            st.append(x.obj)
        elif isinstance(x, Func) and isinstance(x.env, Env) and x.env.parent is not None:
            seen[id(x)] = x
            e = x.env
            while e is not None and e.parent is not None:
                st += list(e.v.values())
                e = e.parent
    return seen


def run(rep):
    rep.rule('on every path on which a C call reported failure (-1, NULL) the method ends in an exception, and the failure '
             'value is not used before')
    rep.rule('after every normal exit of a Convolver method every object whose handle the C convolver holds is reachable '
             'from the Convolver (or from module state)')
    rep.rule('for every path through construction or one method, followed by destruction, each C object created is '
             'released exactly once, by the destructor function of its kind')
    fs = facts.load()
    w = Wrapper(fs)
    it = w.it
    sites = set()
    modroots = lambda: [v for v in w.env.v.values() if isinstance(v, (list, dict, tuple, set, Inst))] + \
        [v for c in w.classes.values() for v in c.ns.values() if isinstance(v, (list, dict, tuple, set, Inst))]

    def where(n):
        return '%s:%d' % (w.file, getattr(n, 'lineno', 0))

    for c in sorted(w.classes):
        cls = w.classes[c]
        for m in ['__init__'] + w.methods(c):
            if m.startswith('_') and m != '__init__' and m not in ('__enter__', '__exit__', '__call__', '__len__', '__getitem__'):
                continue        # reached through the public methods
            qn = '%s.%s' % (c, m)
            rep.count('methods analysed')
            for p in w.paths(c, m):
                rep.count('abstract paths')
                failed = None
                for e in p.events:
                    if e[0] == 'res':
                        sites.add((e[1], e[3].lineno))
                    if e[0] == 'fail':
                        failed = failed or e[1]
                    elif e[0] == 'use':
                        rep.violation('failure-used', where(e[2]), qn, 'the failure value of %s (called at line %d) is used before an exception is raised' % (e[1].fn, e[1].node.lineno), '%s:use:%s' % (qn, e[1].fn))
                    elif e[0] == 'lib' and failed is not None and not capi.is_deleter(e[1]):
                        rep.violation('failure-ignored', where(failed.node), qn, 'goes on with %s although %s reported failure' % (e[1], failed.fn), '%s:%s' % (qn, failed.fn))
                if p.fails:
                    rep.count('failure paths')
                    if p.raised is None:
                        f = p.fails[0]
                        rep.violation('failure-dropped', where(f.node), qn, 'returns normally although %s reported failure' % f.fn, '%s:%s' % (qn, f.fn))
                # lifetime of the inputs of the C convolver
                if p.raised is None:
                    held = {}
                    owner = {}
                    objs = list(p.args) + list(getattr(p.obj, 'inputs', []))
                    for o in objs:
                        if isinstance(o, Inst):
                            for h in o.created:
                                owner[id(h)] = o
                    for e in p.events:
                        if e[0] == 'lib' and capi.kind_of(e[1]) == 'convolver' and e[1] != 'conviqt_convolver_convolve':
                            for i, k in capi.arg_kinds(e[1]).items():
                                if k in ('sky', 'beam', 'detector') and i < len(e[2]):
                                    held[k] = e[2][i]
                        if e[0] == 'lib' and e[1] == 'conviqt_convolver_del':
                            held = {}
                    if held:
                        r = reach([p.obj] + modroots())
                        for k, h in held.items():
                            rep.count('kept-alive obligations')
                            o = owner.get(id(h))
                            if o is not None and id(o) not in r:
                                rep.violation('keep-alive', where(cls.find(m).node), qn, 'the convolver does not keep the %s object alive that its C object points to' % k, '%s:%s' % (qn, k))
                # exactly one release per created object
                created = [e[2] for e in p.events if e[0] == 'res' and isinstance(e[2], Handle) and capi.is_creator(e[1])]
                rel = [e for e in p.events + p.delevents if e[0] == 'lib' and capi.is_deleter(e[1])]
                fin = [e for e in p.events if e[0] == 'finalize']
                for h in created:
                    mine = [e for e in rel if e[2] and e[2][0] is h]
                    rep.count('release obligations')
                    if len(mine) == 0 and not any(h in e[1] for e in fin):
                        rep.violation('released', where(h.node), qn, 'the object created by %s is never released%s' % (h.fn, ' when construction fails' if p.raised and m == '__init__' else ''), '%s:%s:leak' % (qn, h.fn))
                    elif len(mine) > 1:
                        rep.violation('released-once', where(mine[1][3]), qn, 'the object created by %s is released %d times' % (h.fn, len(mine)), '%s:%s:twice' % (qn, h.fn))
                    for e in mine:
                        if capi.kind_of(e[1]) != capi.kind_of(h.fn):
                            rep.violation('released-as', where(e[3]), qn, 'the object created by %s is released by %s' % (h.fn, e[1]), '%s:%s' % (qn, e[1]))
                for e in rel:
                    if e[2] and isinstance(e[2][0], Handle) and not any(e[2][0] is h for h in created):
                        rep.violation('releases-own', where(e[3]), qn, '%s releases an object this one did not create' % e[1], '%s:%s:foreign' % (qn, e[1]))
    rep.counts['C call sites reached'] = len(sites)
    rep.need('C call sites reached', 20)
    rep.need('failure paths', 25)
    rep.need('kept-alive obligations', 3)
    rep.need('release obligations', 5)
    rep.assumptions += ['calls outside the package return normally; attribute and item access on unknown objects has no effect on the wrapper']
