"""P08: no object is observable with uninitialised state."""
import facts, par
import engine as G
import poly as P
from poly import *
from scen import *

# the objects the interface hands out and the ones they are built on
CLASSES = ('conviqt::beam', 'conviqt::sky', 'conviqt::detector', 'conviqt::pointing', 'conviqt::convolver', 'levels::MPI_Manager',
           'levels::fitshandle', 'levels::fitscolumn', 'levels::cfft', 'levels::rfft', 'levels::Alm_Base')
LONG = ('convolve',)


def uninit(v):
    return v is not None and ('uninit',) in v.prov


def generic(S, p, i):
    """an arbitrary argument"""
    t = G.unref(p['t'])
    nm = p.get('n') or 'a%d' % i
    if t.rstrip().endswith('*'):
        o = LV(('O', 'arg', nm))
        e = t.rstrip()[:-1].strip()
        if S.is_class(e.replace('const', '').strip()):
            return Val((A(('obj', nm)),), ptrs=(o,))
        return Val((A(('ptrarg', nm)),), ptrs=(LV(o.base, ('[]',), (ZERO,)),))
    if S.is_class(t):
        return LV(('O', 'arg', nm))
    return arg(nm, S.is_int_t(t))


def scalars(S, F, t, path, out, depth=0):
    """paths of the scalar members of an object"""
    if depth > 6:
        return
    rec = F.records.get(t)
    if rec is None or S.ckind(t):
        return
    for b in rec.get('bases') or []:
        bt = b['t'] if isinstance(b, dict) else b
        scalars(S, F, G.unref(bt), path, out, depth + 1)
    for f in rec.get('fields', []):
        ft = G.unref(f['t'])
        if S.is_class(ft):
            scalars(S, F, ft.replace('const ', ''), path + (f['n'],), out, depth + 1)
        elif not ft.endswith(']'):
            out.append(path + (f['n'],))


def ctors(F, cls):
    # copies are member by member: as defined as what they copy
    return [f for f in F.funcs.values() if f.get('cls') == cls and f.get('kind') == 'ctor' and f.get('body') and
            not (len(f.get('params', [])) == 1 and G.unref(f['params'][0]['t']).replace('const ', '').strip() == cls)]


def methods(F, cls):
    seen = set()
    c = cls
    while c:
        rec = F.records.get(c) or {}
        for f in F.funcs.values():
            if f.get('cls') == c and f.get('body') and f.get('kind') not in ('ctor', 'dtor') and not f.get('mstatic') \
                    and f.get('acc', 'public') == 'public':
                if f['fid'] not in seen:
                    seen.add(f['fid'])
                    yield f
        bs = rec.get('bases') or []
        c = (bs[0]['t'] if isinstance(bs[0], dict) else bs[0]) if bs else None


class Fresh:
    """an object made by one constructor in memory that holds anything"""
    def __init__(self, F, cls, ctor, given=None):
        self.conds = []
        self.F, self.cls, self.ctor = F, cls, ctor
        self.S = S = Scen(F, {'closed': ('libfftpack/', 'wigner.cc')})
        self.obj = LV(('O', 'fresh'))
        self.reads = None
        self.branches = 0
        S.hooks['access'] = self.access
        S.hooks['branch'] = self.branch
        st = State()
        S.clear(st, self.obj, Val((A(('ui', self.obj.base, ())),), prov=G.UNINIT))
        self.ok = None
        if given is not None:
            # only the constructions in which this condition holds, or does not
            st = S.assume(given[0], st, given[1])
            if st is None:
                return
        r = S.invoke(ctor, self.obj, [generic(S, p, i) for i, p in enumerate(ctor['params'])], st)
        self.ok = r[0]

    def access(self, eng, rw, lv, node, st, whole=False):
        if self.reads is None or rw != 'r' or lv.base != self.obj.base:
            return
        for k in eng.expand_lv(lv):
            v = eng.cell(st, lv.base, k, node)
            if not uninit(v):
                continue
            if G.has_elem(lv.path) and not self.filled(k, st):
                continue
            if v.prov == G.UNINIT or not self.branches:
                self.reads.setdefault(k, (eng.where(node), eng.fname()))

    def filled(self, p, st):
        """does the array an element belongs to certainly have elements?"""
        i = [k for k, c in enumerate(p) if str(c).startswith('[')][0]
        n = st.get(self.obj.base, p[:i] + ('#n',))
        if n is None:
            n = st.get(self.obj.base, p[:i] + ('#n1',))
        return n is not None and n.poly() is not None and self.S.cmp1('>', n.poly(), ZERO, st) is True

    def branch(self, eng, n, c, ta, tv, st):
        if tv is None:
            self.branches += 1
            if self.ok is None and c[0] != 'u' and len(self.conds) < 40 and c not in self.conds:
                self.conds.append(c)

    def undefined(self, st):
        """members without a definite value, and arrays that have elements of which none has been set"""
        out = []
        ps = []
        scalars(self.S, self.F, self.cls, (), ps)
        for p in ps:
            v = self.S.cell(st, self.obj.base, p)
            if uninit(v):
                out.append(p)
        for p, v in list((st.m.get(self.obj.base) or {}).items()):
            if p and p[-1] == '#def' and len(p) > 1 and str(p[-2]).startswith('[') and uninit(v):
                i = [k for k, c in enumerate(p) if str(c).startswith('[')][0]
                pre = p[:i]
                some = self.filled(p, st)
                es = [q for q in st.m[self.obj.base] if q[:i] == pre and not any(str(c).startswith('#') for c in q)
                      and len(q) > i and st.m[self.obj.base][q].prov != G.UNINIT]
                if some and not es:
                    out.append(pre + ('[]',))
        return out, len(ps)

    def call(self, f, st):
        """returns what the method leaves, and the undefined members it reads"""
        S = self.S
        self.reads = {}
        self.branches = 0
        ok, r, thr, tt = S.invoke(f, self.obj, [generic(S, p, i) for i, p in enumerate(f['params'])], st.copy())
        rd, self.reads = self.reads, None
        return ok, r, thr, rd


def shown(p):
    return '.'.join(str(c) for c in p if c != '[]') + (' (elements)' if p and p[-1] == '[]' else '')


def judge(r, F, cls):
    for c in ctors(F, cls):
        o = Fresh(F, cls, c)
        what = '%s(%s)' % (cls, ', '.join(p['t'] for p in c['params']))
        r.count('constructors')
        if o.ok is None:
            r.note('%s never returns' % what)
            continue
        bad, n = o.undefined(o.ok)
        mixed = [p for p in bad if p[-1] != '[]' and o.S.cell(o.ok, o.obj.base, p).prov != G.UNINIT]
        for cond in o.conds if mixed else ():
            for want in (True, False):
                # on the paths of one side it is set or it is not
                o2 = Fresh(F, cls, c, (cond, want))
                if o2.ok is None:
                    continue
                r.count('constructors split by a condition')
                b2 = [p for p in o2.undefined(o2.ok)[0] if p in mixed and o2.S.cell(o2.ok, o2.obj.base, p).prov == G.UNINIT]
                if b2:
                    mixed = [p for p in mixed if p not in b2]
                    follow(r, F, cls, c, o2, what, b2)
        r.count('members looked at after construction', n)
        r.sample('%s: %d members, %d without a value' % (what, n, len(bad)))
        follow(r, F, cls, c, o, what, bad)


def follow(r, F, cls, c, o, what, bad):
    # convolution is long: only where it matters
    ms = [m for m in methods(F, cls) if bad or m['sn'] not in LONG]
    found = set()

    def look(m, st, before, bad, fails):
        ok, res, thr, rd = o.call(m, st)
        r.count('methods called on a fresh object' if before is None else 'methods called after another one')
        then = '' if before is None else ' (after %s%s)' % (before['sn'], ' has failed' if fails else '')
        for p, (w, fn) in sorted(rd.items(), key=str):
            if p in found:
                continue
            found.add(p)
            r.violation('defined before use', w, fn, '%s: %s reads %s, which nothing has set%s' % (what, m['fn'], shown(p), then),
                        key='%s %s' % (cls, shown(p)))
        if isinstance(res, Val) and G.isref(m.get('rt', '')):
            for l in res.ptrs:
                for b in bad:
                    if l.base == o.obj.base and l.path == b[:len(l.path)] and b not in found and b[-1] == '[]':
                        found.add(b)
                        r.violation('defined before use', '%s:%s' % (m['f'], m['l']), m['fn'],
                                    '%s: %s hands out %s, whose elements nothing has set%s' % (what, m['fn'], shown(b), then),
                                    key='%s %s' % (cls, shown(b)))
        return ok, thr
    after = []
    for m in ms:
        ok, thr = look(m, o.ok, None, bad, False)
        after.append((m, ok, thr))
    for m, ok, thr in after:
        if m.get('mconst') or m['sn'] in LONG:
            continue
        for fails, st in ((False, ok), (True, thr)):
            if st is None:
                continue
            # what the first call has left undefined
            b2, n = o.undefined(st)
            r.count('states after a first call')
            if b2:
                for m2 in ms:
                    if m2['sn'] not in LONG:
                        look(m2, st, m, b2, fails)
    for b in bad:
        if b not in found:
            r.note('%s: %s has no value, but no method uses it first' % (what, shown(b)))


def run(rep):
    F = facts.load()
    rep.rule('Each constructor of each class of the interface is run on memory of undefined content with arbitrary arguments; every member '
             '(of members and bases too) that may still be undefined when it returns is reported if a method called next, or after any '
             'other method, reads it before it is set, or hands out a reference to it; the same for what a first method leaves undefined, whether it returns or fails.')
    jobs = []
    for c in CLASSES:
        if not ctors(F, c):
            raise facts.CheckError('no constructor of %s' % c)
        jobs.append((c, lambda r, c=c: judge(r, F, c)))
    par.scenarios(rep, jobs)
    rep.need('constructors', 15)
    rep.need('members looked at after construction', 90)
    rep.need('states after a first call', 80)
    rep.need('methods called on a fresh object', 100)
    rep.assumptions += ['copies of an object are as defined as the object they are made from (the copy constructors are the implicit ones '
                        'or P11 looks at them)']
