"""Failures of the FITS layer are never ignored."""
import re
import facts
from facts import walk, CheckError
from exc import Escapes
from paths import Paths, St, isptr, isref

NOSTATUS = {'ffghdn'}              # int * is the result, not a status
ALWAYS = {'ffclos', 'ffdelt'}      # act even when the status is already bad
KEY_NO_EXIST = 202
LOOKUP = {'ffgnxk'}                # running out of keys is how the search ends


def isfits(n):
    return bool(re.match(r'(ff[a-z]|fits_)', n.get('sn') or '')) and n.get('ext') and (n.get('xc') or True)


def status_arg(n):
    pt = n.get('pt') or []
    if n['sn'] in NOSTATUS or not pt or pt[-1].replace(' ', '') != 'int*':
        return None
    return len(pt) - 1


class Fits(Paths):
    def __init__(self, fs, esc, rep, reach, roots, mpi, codes):
        super().__init__(fs, esc)
        self.rep, self.reach, self.roots, self.mpi, self.codes = rep, reach, roots, mpi, codes
        self.calls = set()
        self.bads = {}

    def want_inline(self, f, n):
        if f['kind'] == 'dtor':
            return False
        if f['fid'] in self.roots:
            return False
        if f['fid'] in self.reach or f['fid'] in self.mpi:
            return True
        # helpers that look at a status, and those that raise an error
        return f['fid'] in self.helpers or f.get('lambda')

    def maythrow(self, n):
        f = self.fs.funcs.get(n.get('fid'))
        if f is not None:
            return bool(self.esc.memo.get(f['fid'])) and not f.get('nx')
        return False

    def pend(self, st):
        return st.x.get('pend') or frozenset()

    def use(self, how, v, n, st):
        if not self.pend(st):
            return
        if how == 'arg' and (isfits(n) or n.get('sn') in ('copy', 'move', 'forward')):
            return
        b = self.isbad(v, st)
        if b and self.active:
            self.bads.setdefault((how, n.get('l'), b), self.stack[-1] if self.stack else '')

    def isbad(self, v, st):
        if isinstance(v, tuple) and v[0] == 'bad':
            return v[1]
        if isinstance(v, tuple) and v[0] == 'p':
            for q in (v[1], v[1] + '[]'):
                w = st.m.get(q)
                if isinstance(w, tuple) and w[0] == 'bad':
                    return w[1]
        return None

    def mix(self, n, vs, st):
        for v in vs:
            if isinstance(v, tuple) and v[0] == 'bad':
                return v
        return self.fresh(n, st)

    def onwrite(self, loc, v, n, st):
        if v == 0 and self.pend(st):
            self.clear(loc, st)

    def clear(self, loc, st):
        keep = set()
        for p in self.pend(st):
            site, fn, code, l = p
            if l == loc and code == KEY_NO_EXIST and (fn in LOOKUP or self.excuse):
                continue
            keep.add(p)
        st.x['pend'] = frozenset(keep)

    def extcall(self, n, exprs, vs, ol, st):
        f = self.fs.funcs.get(n.get('fid'))
        sn = n.get('sn') or ''
        if f is not None and f['fid'] in self.roots and f['kind'] != 'dtor':
            st = st.copy()
            t = st.copy()
            t.x['pend'] = self.pend(t) | {(n.get('l'), f['fn'], -1, '')}
            self.throw('*', t)
            r = self.default_call(n, vs, n.get('pt') or [], ol, st)
            self.excs = [e for e in self.excs if e is not None]
            return r
        if sn in ('MPI_Bcast', 'PMPI_Bcast'):
            return [(0, st)]
        if sn in ('MPI_Allreduce', 'MPI_Reduce'):
            st = st.copy()
            a, b = vs[0][1], vs[1][1]
            if isinstance(a, tuple) and a[0] == 'p' and isinstance(b, tuple) and b[0] == 'p':
                v = st.m.get(a[1])
                op = ''.join(x.get('qn', '') for x in walk(exprs[4]))
                if isinstance(v, (int, float)) and v > 0 and re.search('max|sum|lor|bor', op.lower()):
                    st.m[b[1]] = v
                elif isinstance(v, (int, float)) and v == 0 and re.search('min|prod|land|band', op.lower()):
                    st.m[b[1]] = v
                else:
                    self.kill(b[1], st)
            return [(0, st)]
        if not isfits(n):
            return None
        i = status_arg(n)
        if i is None:
            st = st.copy()
            for j, (k, v) in enumerate(vs):
                if isinstance(v, tuple) and v[0] == 'p':
                    self.kill(v[1], st)
            return [(self.fresh(n, st), st)]
        if self.active:
            self.calls.add((n['l'], n['sn'], self.stack[-1]))
        sv = vs[i][1]
        if not (isinstance(sv, tuple) and sv[0] == 'p'):
            if self.active:
                self.rep.violation('no-status', '%s:%d' % (self.files0, n['l']), self.fs.funcs[self.stack[-1]]['fn'],
                                   '%s is called without a status variable: its failure cannot be noticed' % n['sn'], n['sn'])
            return [(self.fresh(n, st), st)]
        L = sv[1]
        cur = self.load(L, n, st)
        T, F = [], []
        self.compare('!=', cur, 0, n, st, T, F)
        out = []
        for s in T:       # already failed: nothing is done
            s = s.copy()
            self.spoil(n, exprs, vs, i, s)
            out.append((s.m.get(L), s))
        for s in F:
            ok = s.copy()
            for j, (k, v) in enumerate(vs):
                if j != i and isinstance(v, tuple) and v[0] == 'p' and 'const' not in (n['pt'][j]):
                    self.kill(v[1], ok)
            ok.m[L] = 0
            out.append((0, ok))
            for c in self.codes:
                bad = s.copy()
                self.spoil(n, exprs, vs, i, bad)
                bad.m[L] = c
                bad.x['pend'] = self.pend(bad) | {(n['l'], n['sn'], c, L)}
                out.append((c, bad))
        return out

    def spoil(self, n, exprs, vs, i, st):
        for j, (k, v) in enumerate(vs):
            t = n['pt'][j] if j < len(n['pt']) else ''
            if j == i or 'const ' in t or 'fitsfile' in t or not (isinstance(v, tuple) and v[0] == 'p'):
                continue
            e = exprs[j]
            if e['k'] == 'cast' and e.get('expl'):
                continue
            self.kill(v[1], st)
            q = v[1]
            st.m[q] = ('bad', n['sn'])
            if not q.endswith('[]'):
                st.m[q + '[]'] = ('bad', n['sn'])


def run(rep):
    rep.rule('every CFITSIO call has a status variable; on every path after a call failed the operation ends by raising an error '
             '(only "key does not exist" may be answered otherwise, by a function that returns whether it exists)')
    rep.rule('nothing a failed call was to deliver decides a branch, sizes or indexes memory, or is passed on')
    rep.rule('no handler between the FITS layer and the interface lets an operation end normally after a failure')
    fs = facts.load()
    esc = Escapes(fs)
    direct = {}
    for f in fs.funcs.values():
        if f['src'].endswith('.c'):
            continue
        for n in walk([f.get('body'), f.get('inits')]):
            if n.get('k') == 'call' and n.get('sn') and isfits(n):
                direct.setdefault(f['fid'], []).append(n)
    if not direct:
        raise CheckError('no CFITSIO call found')
    callers = {}
    for f in fs.funcs.values():
        for n in walk([f.get('body'), f.get('inits')]):
            g = n.get('fid')
            if g in fs.funcs and g != f['fid']:
                callers.setdefault(g, set()).add(f['fid'])
    # functions that reach CFITSIO, and MPI

    def up(start):
        seen, st = set(), list(start)
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if fs.funcs[x].get('xc') or fs.funcs[x]['kind'] == 'dtor':
                continue
            st += callers.get(x, ())
        return seen
    reach = up(direct)
    mpi = up([f['fid'] for f in fs.funcs.values() if any(n.get('k') == 'call' and (n.get('sn') or '').startswith('MPI_')
                                                         for n in walk(f.get('body')))]) - reach

    def isroot(f):
        return not (f.get('internal') or f.get('lambda') or f.get('acc') in ('private', 'protected') or f['kind'] == 'dtor'
                    or f.get('xc') or f['src'].endswith('.c') or f.get('impl'))
    roots = {x for x in reach if isroot(fs.funcs[x])}
    # raising the error is part of reach as well: helpers that are called from there
    files = {fs.funcs[x]['f'] for x in direct}
    codes = {KEY_NO_EXIST, 999}
    for f in fs.funcs.values():
        if f['f'] in files:
            for n in walk(f['body']):
                if n.get('k') == 'bin' and n.get('op') in ('==', '!=', '<', '>'):
                    for a, b in (n['c'], n['c'][::-1]):
                        v = b.get('cv', b.get('v') if b['k'] == 'int' else None)
                        if isinstance(v, int) and v >= 100 and 'status' in (a.get('n') or 'status') and a['k'] in ('mem', 'ref') and a.get('t') in ('int', 'const int'):
                            codes.add(v)
    p = Fits(fs, esc, rep, reach, roots, mpi, sorted(codes))
    # variables used as a status, and the helpers that look at one or only raise
    stv = set()
    for ns in direct.values():
        for n in ns:
            i = status_arg(n)
            if i is not None:
                for m in walk(n['c'][i]):
                    if m['k'] in ('ref', 'mem') and m.get('d'):
                        stv.add(m['d'])
    helpers = set()
    ch = True
    while ch:
        ch = False
        for f in fs.funcs.values():
            if f['src'].endswith('.c') or f['fid'] in helpers:
                continue
            hit = noreturn(f, helpers)
            for n in walk([f.get('body'), f.get('inits')]):
                if n['k'] in ('ref', 'mem') and n.get('d') in stv and f['fid'] not in reach:
                    hit = True
            if hit:
                helpers.add(f['fid'])
                ch = True
    for f in list(fs.funcs.values()):
        if f['src'].endswith('.c'):
            continue
        for n in walk([f.get('body'), f.get('inits')]):
            if n['k'] in ('call', 'mcall', 'ocall') and n.get('fid') in fs.funcs and \
                    any(m.get('d') in stv for a in n.get('c') or [] for m in walk(a)):
                helpers.add(n['fid'])
    p.helpers = helpers
    p.files0 = sorted(files)[0]
    p.active = True
    def matters(x, seen):
        if x in seen:
            return False
        seen.add(x)
        f = fs.funcs[x]
        if x in direct:
            return True
        for n in walk([f.get('body'), f.get('inits')]):
            if n['k'] == 'try':
                return True
            g = n.get('fid')
            if g in reach and g not in roots and matters(g, seen):
                return True
        return False
    for x in sorted(roots):
        f = fs.funcs[x]
        if not matters(x, set()):
            rep.count('operations that only pass errors on')
            continue
        p.excuse = f['rt'] == 'bool'
        p.bads = {}
        st = St()
        ol = 'OBJ' if f.get('cls') and not f.get('mstatic') else None
        # entered with a clean status
        if ol:
            r = fs.records.get(f['cls'])
            for fd in (r or {}).get('fields', []):
                if fd['t'] == 'int' and any(True for n2 in walk([g['body'] for g in fs.funcs.values() if g.get('cls') == f['cls'] and g['fid'] in direct])
                                            if n2.get('k') == 'un' and n2.get('op') == '&' and n2['c'][0].get('d') == fd['d'] and n2.get('l')
                                            and isstatus(fs, fd['d'])):
                    st.m[ol + '.' + fd['n']] = 0
        vs = []
        for q in f['params']:
            if isref(q['t']):
                vs.append(('l', 'ARG.' + q['n']))
            elif isptr(q['t']):
                vs.append(('v', ('p', 'ARG.' + q['n'])))
            else:
                vs.append(('v', ('u', -1, q['n'])))
        norm, thr = p.run(f, ol, vs, st)
        rep.count('operations analysed')
        rep.count('normal ends', len(norm))
        rep.count('error ends', len(thr))
        where = '%s:%d' % (f['f'], f['l'])
        for (how, l, fn), g in sorted(p.bads.items(), key=str):
            gf = fs.funcs.get(g) or f
            rep.violation('unchecked-use', '%s:%s' % (gf['f'], l), gf['fn'],
                          'what %s was to deliver is used (%s) before its failure is noticed' % (fn, how), fn + how)
        for v, s in norm:
            for site, fn, code, L in p.pend(s):
                if code == -1:
                    rep.violation('swallowed', '%s:%s' % (f['f'], site), f['fn'], 'a failure raised by %s is caught and the operation ends normally' % fn, fn)
                else:
                    rep.violation('ignored', '%s:%s' % (f['f'], site), f['fn'],
                                  'the operation can end normally although %s failed%s' % (
                                      fn, ' (key does not exist)' if code == KEY_NO_EXIST else ''), fn)
    done = {(l, s) for l, s, _ in p.calls}
    allc = {(n['l'], n['sn']) for ns in direct.values() for n in ns if status_arg(n) is not None}
    for c in sorted(allc - done):
        rep.note('%s at line %d is reached from no operation of the library' % (c[1], c[0]))
    rep.counts['CFITSIO call sites'] = len(allc)
    rep.counts['CFITSIO call sites followed'] = len(allc & done)
    rep.counts['failure codes distinguished'] = len(codes)
    if p.cut:
        rep.note('%d abstract states were cut' % p.cut)
    rep.need('operations analysed', 20)
    rep.need('CFITSIO call sites', 35)
    rep.need('CFITSIO call sites followed', 30)
    rep.assumptions += ['CFITSIO functions do nothing when their status argument is already set, except closing and deleting',
                        'a CFITSIO function reports every failure through its status argument',
                        'a failure while a FITS handle is being destroyed is reported on the error stream only (destructors must not throw)']


def noreturn(f, known):
    """The body always ends by raising (at its end, with no return before)."""
    b = f.get('body')
    if not b or b['k'] != 'block' or not b.get('c'):
        return False
    if any(n['k'] == 'return' for n in walk(b)):
        return False
    x = b['c'][-1]
    while x is not None and x['k'] == 'block' and x.get('c') or x['k'] == 'do':
        x = x['c'][-1] if x['k'] == 'block' else x['body']
    return x['k'] == 'throw' or x['k'] in ('call', 'mcall') and x.get('fid') in known


_st = {}


def isstatus(fs, d):
    """Is this field passed as the status of a CFITSIO call anywhere?"""
    if d not in _st:
        _st[d] = False
        for f in fs.funcs.values():
            for n in walk(f.get('body')):
                if n.get('k') == 'call' and n.get('sn') and isfits(n) and status_arg(n) is not None:
                    a = n['c'][status_arg(n)]
                    if a['k'] == 'un' and a['c'][0].get('d') == d:
                        _st[d] = True
                        return True
    return _st[d]
