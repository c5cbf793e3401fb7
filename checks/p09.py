"""C header, C implementation and Python bindings agree."""
import facts, capi
from facts import CheckError
from pywrap import Wrapper
from pyint import Ext, SIZES, CData, Unk


def ctype_of(v):
    """(class, size, text) of a ctypes type expression."""
    if v is None:
        return ('void', 0, 'None')
    if isinstance(v, Ext):
        n = v.name.split('.')[-1]
        if n in SIZES:
            return SIZES[n] + (n,)
        return (None, 0, n)
    if isinstance(v, tuple) and v and v[0] == 'POINTER':
        t = ctype_of(v[1])
        return ('p', 8, 'POINTER(%s)' % t[2], t)
    return (None, 0, '?')


CT = {'char': ('i', 1), 'signed char': ('i', 1), 'unsigned char': ('i', 1), 'bool': ('i', 1), '_Bool': ('i', 1),
      'short': ('i', 2), 'int': ('i', 4), 'unsigned int': ('u', 4), 'long': ('i', 8), 'long long': ('i', 8),
      'unsigned long': ('u', 8), 'unsigned long long': ('u', 8), 'float': ('f', 4), 'double': ('f', 8),
      'void': ('void', 0)}


def agree(pt, c, result):
    c = c.replace('const ', '').strip()
    if pt[0] is None:
        return None
    if c.endswith('*'):
        if pt[0] != 'p':
            return False
        base = c[:-1].strip()
        if pt[2].startswith('POINTER') and base in CT and base != 'void':
            e = pt[3]
            if e[0] is None:
                return None
            return CT[base] == e[:2] or (CT[base][1] == 1 and e[1] == 1)
        if pt[2] == 'c_char_p':
            return base in ('char', 'unsigned char', 'signed char')
        return True
    if c not in CT:
        return None
    return CT[c] == pt[:2] or (CT[c][1] == 1 and pt[1] == 1 and pt[0] != 'f')


def run(rep):
    rep.rule('every function declared in the public header (as C and as C++) is defined in the library with the same '
             'canonical result and parameter types, and every exported conviqt_* function is declared')
    rep.rule('every C function reached from the Python package is declared in the header; its restype and argtypes are '
             'set before the first call, agree in number, width and kind with the C declaration, and every call passes '
             'that many arguments')
    fs = facts.load()
    im = capi.impls(fs)
    H = 'src/cconviqt.h'
    dc, err = capi.header_decls('c')
    if dc is None:
        rep.violation('header-is-C', H, 'cconviqt.h', 'the public header does not compile as C: ' + err[:300], 'c')
    dx, err = capi.header_decls('c++')
    if dx is None:
        rep.violation('header-is-C', H, 'cconviqt.h', 'the public header does not compile as C++: ' + err[:300], 'c++')
        return
    for lang, decls in (('C', dc), ('C++', dx)):
        if decls is None:
            continue
        names = {n for n in decls if n.startswith('conviqt_')}
        rep.count('declarations compared (%s)' % lang, len(names))
        for n in sorted(names):
            d = decls[n]
            w = '%s:%d' % (d['f'], d['l'])
            f = im.get(n)
            if f is None:
                rep.violation('implemented', w, n, 'declared in the public header but not defined in the library')
                continue
            a = [p['t'] for p in d['params']]
            b = [p['t'] for p in f['params']]
            norm = lambda t: t.replace('struct ', '').replace('_Bool', 'bool')
            if list(map(norm, a)) != list(map(norm, b)) or norm(d['rt']) != norm(f['rt']):
                rep.violation('same-type', w, n, 'header (%s) declares %s(%s), the implementation is %s(%s)' % (
                    lang, d['rt'], ', '.join(a), f['rt'], ', '.join(b)))
            rep.sample('%s: %s(%s)' % (n, d['rt'], ', '.join(a)))
        for n, f in sorted(im.items()):
            if n not in names:
                rep.violation('declared', '%s:%d' % (f['f'], f['l']), n, 'exported by the library but not declared in the public header')
    # functions that look exported but have no C linkage
    for f in fs.funcs.values():
        if f['sn'].startswith('conviqt_') and not f.get('xc') and f['kind'] == 'func' and f['f'].endswith('cconviqt.cpp') \
                and not f.get('internal') and f['sn'] in dx:
            rep.violation('linkage', '%s:%d' % (f['f'], f['l']), f['sn'], 'the implementation has no C linkage')
    decls = dc or dx
    w = Wrapper(fs)

    def site(node):
        return '%s:%d' % (w.file, getattr(node, 'lineno', 0))

    def declared(f, node, why):
        d = decls.get(f.name)
        if d is None:
            rep.violation('exists', site(node), f.name, '%s a function the public header does not declare' % why, f.name)
            return None
        return d

    def check_binding(f, node):
        d = declared(f, node, 'the Python package uses')
        if d is None:
            return
        rep.count('bindings compared')
        if f.restype is None:
            rep.violation('restype-declared', site(node), f.name, 'restype is not declared before the function is called', f.name + ':res')
        else:
            pt = ctype_of(f.restype[0])
            ok = agree(pt, d['rt'], True)
            if ok is False:
                rep.violation('restype', site(f.restype[1]), f.name, 'restype is %s, the C function returns %s' % (pt[2], d['rt']), f.name)
        if f.argtypes is None:
            rep.violation('argtypes-declared', site(node), f.name, 'argtypes is not declared before the function is called', f.name + ':arg')
        else:
            at = f.argtypes[0]
            if not isinstance(at, (list, tuple)):
                return
            if len(at) != len(d['params']):
                rep.violation('arity', site(f.argtypes[1]), f.name, 'argtypes has %d entries, the C function takes %d arguments' % (len(at), len(d['params'])), f.name)
                return
            for i, (a, p) in enumerate(zip(at, d['params'])):
                pt = ctype_of(a)
                if agree(pt, p['t'], False) is False:
                    rep.violation('argtype', site(f.argtypes[1]), f.name, 'argument %d (%s) is declared as %s, the C function takes %s' % (i + 1, p['n'], pt[2], p['t']), '%s:%d' % (f.name, i))

    calls = set()

    def on_call(f, args, node):
        calls.add((f.name, getattr(node, 'lineno', 0)))
        d = declared(f, node, 'the Python package calls')
        check_binding(f, node)
        if d is not None and len(args) != len(d['params']):
            rep.violation('call-arity', site(node), f.name, 'called with %d arguments, the C function takes %d' % (len(args), len(d['params'])), '%s:%d' % (f.name, len(args)))
        if d is not None:
            for i, (a, p) in enumerate(zip(args, d['params'])):
                if isinstance(a, CData) and a.tn in SIZES and p['t'] in CT and CT[p['t']] != SIZES[a.tn] \
                        and not (CT[p['t']][1] == 1 == SIZES[a.tn][1]):
                    rep.violation('call-type', site(node), f.name, 'argument %d is passed as %s, the C function takes %s' % (i + 1, a.tn, p['t']), '%s:%d' % (f.name, i))
    w.it.on_call = on_call
    # calls made while the package is imported
    for e in w.modevents:
        if e[0] == 'lib':
            f = w.it.fns[e[1]]
            for what in ('restype', 'argtypes'):
                x = getattr(f, what)
                if x is None or x[1].lineno > e[3].lineno:
                    rep.violation(what + '-declared', site(e[3]), f.name, '%s is not declared before the function is called' % what, f.name)
    for c in sorted(w.classes):
        for m in ['__init__'] + w.methods(c):
            for p in w.paths(c, m):
                pass
    for n, f in sorted(w.it.fns.items()):
        if f.restype is not None or f.argtypes is not None:
            check_binding(f, (f.restype or f.argtypes)[1])
    rep.counts['python call sites'] = len(calls)
    rep.counts['python-side functions'] = len(w.it.fns)
    rep.need('declarations compared (C++)', 30)
    rep.need('python call sites', 20)
    rep.need('python-side functions', 20)
    rep.assumptions += ['mpi.h is included before cconviqt.h, as the header requires']
