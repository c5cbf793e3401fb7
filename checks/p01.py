"""The C interface never lets an exception out and always reports failure."""
import facts, capi
from exc import Escapes, reachable
from failval import FailVal, TOP
from facts import walk


def chain(fs, e, f, t, depth=0):
    """Where an exception of type t comes from."""
    l = e.whyof.get((f['fid'], t))
    s = '%s:%s' % (f['f'], l)
    if depth < 8 and l:
        for n in walk([f.get('body'), f.get('inits')]):
            if n.get('l') == l and n.get('fid') in fs.funcs and n['fid'] != f['fid'] and t in e.memo.get(n['fid'], ()):
                return s + ' -> ' + chain(fs, e, fs.funcs[n['fid']], t, depth + 1)
    return s


def run(rep):
    rep.rule('least fixed point over the call graph of the exception types that can leave each function; empty for every '
             'exported C function')
    rep.rule('no function or destructor that is noexcept (declared, or a destructor) and reachable from the C interface '
             'has a body that an exception can leave')
    rep.rule('every return reached after an exception was caught in a C function yields -1 (numbers) or NULL (pointers)')
    rep.rule('no handler on the way swallows an exception: it rethrows, returns, or records the failure')
    fs = facts.load()
    im = capi.impls(fs)
    e = Escapes(fs)
    files = {f['f'] for f in im.values()}
    for n, f in sorted(im.items()):
        rep.count('C functions')
        for t in sorted(e.memo[f['fid']]):
            rep.violation('escape', '%s:%d' % (f['f'], f['l']), n, 'an exception of type %s can leave the C interface (%s)' % (t if t != '*' else 'unknown', chain(fs, e, f, t)), t)
    seen = reachable(fs, list(im.values()))
    rep.counts['functions reachable from the C interface'] = len(seen)
    rep.counts['functions that can throw'] = sum(1 for x in seen if e.memo.get(x))
    for fid in seen:
        f = fs.funcs[fid]
        if f.get('nx'):
            rep.count('non-throwing functions examined')
            for t in sorted(e.memo.get(fid, ())):
                rep.violation('terminate', '%s:%d' % (f['f'], f['l']), f['fn'], 'promises not to throw but an exception of type %s can leave its body: the program is terminated (%s)' % (t, chain(fs, e, f, t)), t)
        elif f['kind'] == 'dtor' and e.memo.get(fid):
            rep.violation('terminate', '%s:%d' % (f['f'], f['l']), f['fn'], 'a destructor that can throw terminates the program when it runs during unwinding', 'dtor')
    fv = FailVal(fs, e, files)
    for n, f in sorted(im.items()):
        rt = f['rt']
        if rt == 'void':
            continue
        R, S = fv.run(f)
        if True not in R and True not in S:
            continue
        rep.count('functions with a failure exit')
        want = 0 if rt.endswith('*') else -1
        vals = R.get(True, frozenset())
        rep.sample('%s returns %s after an exception' % (n, sorted(map(str, vals)) if vals is not TOP else 'unknown'))
        if vals is TOP:
            continue
        for v in vals:
            if v == 'op' or (isinstance(v, (int, float)) and v != want):
                rep.violation('failure-value', '%s:%d' % (f['f'], f['l']), n, 'can return %s after an exception was caught instead of %s' % (
                    'the result of an operation' if v == 'op' else v, 'NULL' if want == 0 else -1), str(v))
    for fid in seen:
        f = fs.funcs[fid]
        if f['f'] in files or f.get('nx') or f['kind'] == 'dtor':
            continue
        for n in walk(f['body']):
            if n.get('k') == 'try':
                for h in n['handlers']:
                    rep.count('inner handlers examined')
                    ok = False
                    for m in walk(h['body']):
                        k = m.get('k')
                        if k in ('throw', 'return', 'asg', 'break', 'continue', 'goto'):
                            ok = True
                        elif k in ('call', 'mcall', 'ctor') and not m.get('ext'):
                            ok = True
                        elif k == 'call' and m.get('xc'):
                            ok = True
                        elif k == 'un' and m.get('op') in ('++', '--'):
                            ok = True
                        elif k in ('mcall',) and m.get('sn') in ('push_back', 'insert', 'emplace_back', 'assign'):
                            ok = True
                        elif k == 'ocall' and m.get('op') in ('=', '+='):
                            ok = True
                    if not ok:
                        rep.violation('swallowed', '%s:%d' % (f['f'], h['l']), f['fn'], 'this handler drops the exception and lets the operation report success', 'swallow')
    rep.counts['handlers of C functions evaluated'] = fv.handlers
    rep.need('C functions', 30)
    rep.need('functions with a failure exit', 12)
    rep.need('functions that can throw', 20)
    rep.need('non-throwing functions examined', 3)
    rep.assumptions += ['output to the standard streams does not throw (no exception mask is set)',
                        'C code (MPI, CFITSIO, fftpack) does not throw',
                        'functions of the standard library throw only types derived from std::exception']
