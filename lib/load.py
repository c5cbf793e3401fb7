"""The two collective loads, beam::read and sky::read, run on an arbitrary previous object."""
from scen import *
import engine as G
import models as M
import poly as P
from facts import CheckError

CLS = {'beam': 'conviqt::beam', 'sky': 'conviqt::sky'}
OBJ = LV(('O', 'obj'))


def rank_const(facts):
    for p, op in facts:
        if op != '==':
            continue
        at = p.atoms()
        if len(at) == 1:
            a = next(iter(at))
            nm = P.NAMES[a]
            if isinstance(nm, tuple) and nm[:2] == ('mpi', 'rank'):
                q = A(nm, True)
                for sg in (1, -1):
                    d = p.sub(q.scale(sg))
                    if d.is_const():
                        return -d.const() * sg
    return None


class Load:
    def __init__(self, F, which, pol, fn='read'):
        self.which, self.pol = which, pol
        cls = CLS[which]
        self.cls = cls
        self.S = S = Scen(F, {'throwlog': True})
        f = F.one(cls + '::read')
        st = State()
        a = []
        for p in f['params']:
            t = G.unref(p['t'])
            if t == 'bool':
                a.append(K(pol))
            elif 'Comm' in t or 'comm' in p.get('n', '') or t.endswith('communicator_t *'):
                a.append(comm())
            elif S.is_class(t):
                a.append(LV(('O', 'file')))
            else:
                a.append(arg(p.get('n', 'x'), S.is_int_t(t)))
        self.rankw = {}
        self.badroot = []
        self.almuse = {}
        S.hooks['access'] = self.h_access
        S.hooks['coll'] = self.h_coll
        S.hooks['enter'] = self.h_enter
        self.ok, self.res, self.thr, self.types = S.invoke(f, OBJ, a, st)
        S.hooks.clear()
        S.opts = {}
        self.log = list(S.throwlog.values())
        S.throwlog = {}
        self.f = f

    # -- who has filled what -----------------------------------------------------
    def h_access(self, eng, rw, lv, node, st, whole):
        if rw != 'w' or lv.base[0] not in ('O', 'L', 'H'):
            return
        k = (lv.base, lv.path)
        if any(t[0] == 'rank' for t in st.split):
            c = rank_const(st.facts)
            if c is not None:
                self.rankw.setdefault(k, set()).add(c)
                return
        if k in self.rankw and not has_elem_(lv.path):
            del self.rankw[k]

    def h_coll(self, eng, n, st, e):
        if e['name'] != 'Bcast':
            return
        r = e['root'].const()
        for l in e['bufs']:
            for (b, p), cs in list(self.rankw.items()):
                if b == l.base and (p[:len(l.path)] == l.path or l.path[:len(p)] == p):
                    if r is not None and r not in cs:
                        self.badroot.append((e, l, r, cs))
                    del self.rankw[(b, p)]

    # -- addressing coefficients -----------------------------------------------------
    def h_enter(self, eng, f, this, args, n, st):
        cls = G.unref(f.get('cls') or '')
        if not (cls.startswith('levels::Alm<') or cls == 'levels::Alm_Base'):
            return
        sn = f['sn']
        if not (sn == 'operator()' or sn in ('mstart', 'index', 'index_l0')):
            return
        if any('Alm' in x.get('cls', '') for x in frames(eng)):
            return
        if not any('read_Alm' in x.get('sn', '') for x in frames(eng)):
            return
        vals = [eng.ev(a, st) for a in args]
        self.almuse[(id(n), eng.frame.ctx)] = dict(where=eng.where(n), fn=eng.fname(), sn=sn, vals=vals, st=st.copy(), this=this)

    # -- questions --------------------------------------------------------------------
    def method(self, name, st):
        """(normal state, result) of an argument-free member on a copy of a state"""
        fs = [f for f in self.S.F.funcs.values() if f['fn'] == self.cls + '::' + name and not f.get('params') and f.get('body')]
        if not fs:
            return None
        ok, r, t, tt = self.S.invoke(fs[0], OBJ, [], st.copy())
        self.last_thrown = t
        return ok, r

    def accessors(self):
        """members that give out coefficients, and members that report numbers"""
        comps, nums = [], []
        for f in self.S.F.funcs.values():
            if f.get('cls') != self.cls or f.get('params') or not f.get('body') or f.get('kind') in ('ctor', 'dtor'):
                continue
            rt = G.unref(f.get('rt', ''))
            if 'Alm<' in rt:
                comps.append(f['sn'])
            elif f['sn'].startswith('get_') or f['sn'] in ('normalized',):
                nums.append(f['sn'])
        return sorted(comps), sorted(nums)

    def holds(self, st, v, op, c):
        """v op c in every case"""
        facts = st.facts
        for x in v.alts:
            if not isinstance(x, Poly):
                return False
            d = x.sub(C(c))
            if op == '>=':
                d = d.scale(-1)
            if not P.entails_split(facts, (d, '==' if op == '==' else '<=')):
                return False
        return True

    def component(self, name, st):
        """the object an accessor hands out, or None when it never does"""
        r = self.method(name, st)
        if r is None:
            raise CheckError('no accessor %s' % name)
        ok, ls = r
        self.may_fail = self.last_thrown is not None
        if ok is None:
            return None
        return ls.ptrs[0] if ls.ptrs else None

    def complete(self, st, want_pol):
        """reasons why the object does not hold the complete expansion"""
        out = []
        comps, nums = self.accessors()
        lm = {}
        for n in nums:
            ok, v = self.method(n, st)
            if ok is not None:
                lm[n] = v
        for n, v in lm.items():
            if 'rank' in v.taint:
                out.append((n, 'what %s() reports may differ between the processes' % n))
        for k, v in (st.m.get(OBJ.base) or {}).items():
            if len(k) == 1 and 'rank' in v.taint:
                out.append((k[0], '%s may differ between the processes' % k[0]))
        L, Mm = lm.get('get_lmax'), lm.get('get_mmax')
        got = 0
        for c in comps:
            lv = self.component(c, st)
            if lv is None:
                if want_pol or c.endswith('T'):
                    out.append((c, '%s() is not available although it was requested' % c))
                continue
            got += 1
            if self.may_fail and (want_pol or c.endswith('T')):
                out.append((c, '%s() may not be available although it was requested' % c))
            d = {k: v for k, v in self.S.under(st, lv)}
            for nm, v in (('lmax', L), ('mmax', Mm)):
                if v is None:
                    continue
                own = d.get((nm,))
                if own is None:
                    out.append((c, 'the expansion orders of %s() are not set by the load' % c))
                elif own.poly() is None or v.poly() is None or not P.entails_split(st.facts, (own.poly().sub(v.poly()), '==')):
                    if not (v.poly() is not None and own.poly() is not None and self.geq(st, own.poly(), v.poly())):
                        out.append((c, 'the %s of %s() is not the one the object reports' % (nm, c)))
            els = [(k, v) for k, v in d.items() if len(k) > 1 and any(x[0] == '[' for x in k)]
            if not els:
                out.append((c, 'the coefficients of %s() are left as they were before the load' % c))
            for k, v in els:
                if 'rank' in v.taint:
                    out.append((c, 'coefficients of %s() may differ between the processes' % c))
                if v.prov == G.UNINIT or any(isinstance(x, Poly) and self.stale(x, lv) for x in v.alts):
                    out.append((c, 'coefficients of %s() may be uninitialised or left over from before the load' % c))
            for k, v in d.items():
                if 'rank' in v.taint and not any(x[0] == '[' for x in k):
                    out.append((c, '%s of %s() may differ between the processes' % ('.'.join(k), c)))
        return out, got

    def geq(self, st, a, b):
        return P.entails_split(st.facts, (b.sub(a), '<='))

    def stale(self, x, lv):
        for a in x.atoms():
            nm = P.NAMES[a]
            if isinstance(nm, tuple) and nm and nm[0] == 'in' and nm[1] == OBJ.base and any(str(y).startswith('[') for y in nm[2]):
                return True
            if isinstance(nm, tuple) and nm and nm[0] == 'ui':
                return True
        return False

    def unchanged(self, st):
        """names of observable cells that differ from the object before the load"""
        out = []
        for k, v in (st.m.get(OBJ.base) or {}).items():
            if k and k[0] in ('fname', 'verbosity', 'fwhm_deconv'):
                continue
            p = v.poly()
            if k and str(k[-1]).startswith('#def') or p is None or p != A(('in', OBJ.base, k), p.isint() if p is not None else False):
                a = p.single_atom() if p is not None else None
                if a is not None and isinstance(P.NAMES[a], tuple) and P.NAMES[a][0] == 'in' and P.NAMES[a][1] == OBJ.base \
                        and P.NAMES[a][2] == k:
                    continue
                out.append('.'.join(k))
        return out


def has_elem_(p):
    return any(x and x[0] == '[' for x in p)


def frames(eng):
    fr = eng.frame
    while fr is not None:
        if fr.func:
            yield fr.func
        fr = fr.parent


def run(F, which, pol):
    return Load(F, which, pol)
