"""P17: fixed-size text buffers never overflow."""
import re
import facts
import engine as G
import poly as P
from facts import walk, CheckError
from poly import *
from scen import *

STR = 'std::basic_string<char'
# text that CFITSIO and MPI write: argument -> room it needs (fitsio.h)
OUT = {'ffgmsg': {0: 81}, 'ffgerr': {1: 31}, 'ffgacl': {2: 71, 4: 71, 5: 71, 8: 71, 9: 71}, 'ffgbcl': {2: 71, 3: 71, 4: 71, 9: 71},
       'ffgbclll': {2: 71, 3: 71, 4: 71, 9: 71}, 'ffgrec': {2: 81}, 'ffgnxk': {5: 81}, 'ffgknm': {1: 75}, 'ffgcrd': {2: 81},
       'ffflnm': {1: 1025}, 'ffgkys': {2: 71, 3: 73}, 'ffgkey': {2: 71, 3: 73}, 'ffgky': {4: 73}, 'ffgkyd': {3: 73}, 'ffgkyj': {3: 73},
       'ffgkyjj': {3: 73}, 'ffgkye': {3: 73}, 'ffgkyl': {3: 73}, 'ffgkyn': {2: 75, 3: 71, 4: 73}, 'ffgunt': {2: 71},
       'ffurlt': {1: 30}, 'ffgcnn': {3: 71}, 'ffgstr': {2: 81}, 'ffmkky': {3: 81}, 'ffgkcl': {}, 'ffpsvc': {1: 71, 2: 73},
       'MPI_Error_string': {1: 256}, 'MPI_Get_processor_name': {0: 256}, 'MPI_Comm_get_name': {1: 64}, 'MPI_Get_library_version': {0: 256}}
DIGITS = {'char': 1, 'signed char': 1, 'unsigned char': 1, 'bool': 1, 'short': 6, 'unsigned short': 5, 'int': 11, 'unsigned int': 10,
          'long': 20, 'unsigned long': 20, 'long long': 20, 'unsigned long long': 20}
TEXTFN = ('strcpy', 'strncpy', 'strcat', 'strncat', 'sprintf', 'snprintf', 'vsprintf', 'gets', 'fgets', 'stpcpy', 'strlcpy', 'scanf', 'sscanf',
          'fscanf')


def isstr(t):
    return G.unref(t or '').replace('const ', '').startswith(STR)


def ischar(t):
    return re.sub(r'\b(const|volatile|signed|unsigned)\b', '', t or '').strip() == 'char'


def ischarp(t):
    t = G.unref(t or '').strip()
    t = t[:-5].strip() if t.endswith('const') else t
    m = re.match(r'(.*)\[\d*\]$', t)
    return ischar(m.group(1)) if m else t.endswith('*') and ischar(t[:-1])


def bufdecl(v):
    """a variable that is, or holds, a buffer for text"""
    t = G.unref(v.get('t') or '')
    if re.match(r'(const )?(un)?(signed )?char\[\d+\]', t):
        return not t.startswith('const')
    m = re.match(r'(?:levels::)?(arr\w*)<char[,>]', t) or re.match(r'std::(array)<char,', t)
    return bool(m)


class Text(Scen):
    def __init__(self, F, rep):
        Scen.__init__(self, F)
        self.rep = rep
        self.found = {}
        self.sites = {}
        self.undec = {}
        self.hooks['call'] = self.oncall
        self.hooks['store'] = self.onstore
        self.strids = {}

    # ---- lengths -----------------------------------------------------------
    def slen(self, lv, st):
        v = st.get(lv.base, lv.path + ('#len',)) if not G.has_elem(lv.path) else None
        if v is not None:
            return v
        ver = st.default(lv.base, lv.path)
        a = A(('slen', lv.base, lv.path, tuple(map(str, lv.idx)), str(ver.alts) if ver is not None else None), True)
        P.AFACTS.setdefault(a.single_atom(), [(a.scale(-1), '<=')])
        v = Val((a,))
        return v

    def setlen(self, lv, v, st):
        if not G.has_elem(lv.path):
            st.put(lv.base, lv.path + ('#len',), v)

    def upto(self, n, bound, tag=''):
        """a length of which only an upper bound is known"""
        a = A(('uplen', id(n), self.frame.ctx, tag, str(bound)), True)
        P.AFACTS.setdefault(a.single_atom(), [(a.scale(-1), '<=')] + ([norm_fact(a.sub(bound), '<=')] if bound is not None else []))
        return Val((a,))

    def add(self, a, b):
        p, q = a.poly() if a is not None else None, b.poly() if b is not None else None
        return None if p is None or q is None else Val((p.add(q),))

    def unknown(self, n, tag=''):
        return Val((A(('nolen', id(n), self.frame.ctx, tag), True),))

    def literal(self, l):
        for x in self.F_literals.get(l.base[1], ()):
            return x
        return None

    def cslen(self, e, st, n):
        """length of the C string an expression stands for"""
        v = self.ev(e, st)
        p = v.poly()
        if p is not None and not p.is_const():
            try:
                nm = P.NAMES[p.single_atom()]
                if isinstance(nm, tuple) and nm[0] == 'str':
                    return K(len(nm[1]))
            except Exception:
                pass
        if len(v.ptrs) > 1 and all(l.base[0] == 'STR' for l in v.ptrs):
            ls = [self.strids.get(l.base[1]) for l in v.ptrs]
            if all(x is not None for x in ls):
                return self.upto(n, C(max(ls)), 'lit')
        if len(v.ptrs) == 1:
            l = v.ptrs[0]
            if l.base[0] == 'STR' and l.base[1] in self.strids:
                return K(self.strids[l.base[1]])
            if l.path and l.path[-1] == '[]' and '#txt' in l.path:
                i = len(l.path) - 1 - l.path[::-1].index('#txt')
                return self.slen(LV(l.base, l.path[:i], l.idx[:-1]), st)
            t = self.tstate(l, st)
            if t is not None and t[1] is not None:
                return t[1]
            sz = self.room(l, st)
            if sz is not None and l.base[0] != 'O':
                return self.upto(n, sz.sub(ONE), 'buf')
            a = A(('cslen', l.base, l.path, tuple(map(str, l.idx))), True)
            P.AFACTS.setdefault(a.single_atom(), [(a.scale(-1), '<=')])
            return Val((a,))
        return self.unknown(n, 'cs')

    # ---- buffers -----------------------------------------------------------
    def room(self, l, st):
        """how many characters can be written from where a pointer points to; None when not known"""
        if not l.path or l.path[-1] != '[]' or l.base[0] in ('STR', 'LAM') or '#txt' in l.path:
            return None
        o = l.path[:-1]
        n2 = st.get(l.base, o + ('#n2',))
        nv = n2 if n2 is not None else st.get(l.base, o + ('#n',))
        if nv is None or nv.poly() is None or not l.idx or not hasattr(l.idx[-1], 'sub'):
            return None
        return nv.poly().sub(l.idx[-1])

    def decided(self, p):
        for m in p.atoms():
            nm = P.NAMES[m]
            if not isinstance(nm, tuple) or nm[0] not in ('slen', 'uplen', 'cslen', 'arg', 'K', 'dispw'):
                return False
        return True

    def tpath(self, l):
        return l.path[:-1] + ('#text' + (str(l.idx[0]) if len(l.idx) > 1 else ''),)

    def tstate(self, l, st):
        if not l.path or l.path[-1] != '[]':
            return None
        v = st.get(l.base, self.tpath(l))
        return None if v is None else (v.prov, v if v.alts[0] != 'x' else None)

    def settext(self, l, st, state, ln):
        if not l.path or l.path[-1] != '[]':
            return
        if state == 'open' and ln is not None and ln.poly() is not None:
            # behind the text there is what the buffer was filled with
            d = st.get(l.base, l.path + ('#def',))
            o = self.tstate(l, st)
            sz = self.room(l, st)
            zero = d is not None and d.const() == 0 or o is not None and ('zero',) in o[0]
            if zero and sz is not None and P.entails_split(st.facts, norm_fact(ln.poly().sub(sz), '<')):
                state = 'zero'
        v = ln if ln is not None else Val((A(('tlen',), True),))
        st.put(l.base, self.tpath(l), v.with_(prov=frozenset([(state,)])))

    def site(self, n):
        return '%s:%d' % (self.frame.func['f'], n['l'])

    def flag(self, rule, n, msg):
        k = (rule, self.site(n), msg)
        if k not in self.found:
            self.found[k] = self.frame.func['fn']

    def write(self, n, l, need, st, what):
        """need characters are written at l"""
        key = (self.site(n), what)
        self.sites.setdefault(key, 'ok')
        sz = self.room(l, st)
        if sz is None or need is None:
            if l.base[0] == 'O':
                self.sites[key] = 'caller'
                return
            self.undec[key] = 'size' if sz is None else 'length'
            return
        if P.entails_split(st.facts, norm_fact(need.sub(sz), '<=')):
            return
        if P.infeasible(st.facts):
            return
        if self.decided(need) and self.decided(sz) or P.entails_split(st.facts, norm_fact(sz.sub(need), '<')) \
                or self.unlimited(need, sz, st):
            self.flag('overflow', n, '%s can write %s characters into a buffer with room for %s' % (what, self.show(need), self.show(sz)))
        else:
            self.undec[key] = 'bound'

    def unlimited(self, need, sz, st):
        """the length of a text that comes from outside and that nothing limits"""
        for m in need.atoms():
            nm = P.NAMES[m]
            if isinstance(nm, tuple) and nm[0] in ('slen', 'cslen') and nm[1][0] == 'O' and need.t.get((m,), 0) > 0 and m not in sz.atoms() \
                    and all(m not in p.atoms() for p, op in st.facts if op != '!='):
                return True
        return False

    def show(self, p):
        if p.is_const():
            return str(int(p.const()))
        out = []
        for m in p.atoms():
            nm = P.NAMES[m]
            out.append('the length of a text' if nm[0] in ('slen', 'cslen', 'uplen') else 'a size')
        c = p.t.get((), 0)
        return '%s%s' % (' plus '.join(sorted(set(out))), ' %+d' % c if c else '')

    # ---- events ------------------------------------------------------------
    def onstore(self, eng, lvs, v, n, st):
        for l in lvs:
            if not l.path or l.path[-1] != '[]' or not l.idx or l.base[0] in ('STR',):
                continue
            if not self.istext(l) and self.tstate(l, st) is None:
                continue
            ix = l.idx[-1]
            if not hasattr(ix, 'sub'):
                continue
            sz = self.room(LV(l.base, l.path, l.idx[:-1] + (ZERO,)), st)
            key = (self.site(n), 'an assignment')
            self.sites.setdefault(key, 'ok')
            if sz is not None:
                if not P.entails_split(st.facts, norm_fact(ix.sub(sz), '<')) and not P.infeasible(st.facts):
                    if self.decided(ix) and self.decided(sz) or P.entails_split(st.facts, norm_fact(sz.sub(ix), '<=')):
                        self.flag('overflow', n, 'element %s of a buffer of %s characters is written' % (self.show(ix), self.show(sz)))
                    else:
                        self.undec[key] = 'index'
            if v is not None and v.const() == 0:
                t = st.get(l.base, self.tpath(l))
                if t is not None and ('open',) in t.prov and t.poly() is not None and self.decided(ix) and self.decided(t.poly()):
                    # what lies between the text and the terminator was never written
                    if not P.entails_split(st.facts, norm_fact(ix.sub(t.poly()), '<=')):
                        return
                st.put(l.base, self.tpath(l), Val((ix,), prov=frozenset([('closed',)])))

    def istext(self, l):
        d = l.base[2] if l.base[0] == 'L' and len(l.base) > 2 else None
        return d in self.bufs

    def use(self, e, n, st, what):
        """a buffer is read as text"""
        for l in self.ev(e, st).ptrs:
            if not l.path or l.path[-1] != '[]':
                continue
            t = st.get(l.base, self.tpath(l))
            if t is not None and ('open',) in t.prov:
                self.flag('unterminated', n, 'text that need not be terminated is handed to %s' % what)

    def oncall(self, eng, n, obj, args, st, want):
        sn = n.get('sn')
        k = n['k']
        m = getattr(self, 'c_' + (sn or ''), None) if k == 'call' else None
        if m is not None and len(args) >= 1:
            return m(n, args, st)
        if k == 'call' and sn in OUT:
            for i, need in OUT[sn].items():
                if i < len(args):
                    for l in self.ev(args[i], st).ptrs:
                        self.write(n, l, C(need), st, sn)
            r = self.opaque(n, obj, args, st, want)
            for i, need in OUT[sn].items():
                if i < len(args):
                    for l in self.ev(args[i], st).ptrs:
                        self.settext(l, st, 'closed', self.upto(n, C(need - 1), i))
            return r
        if k == 'call' and (sn or '').startswith('ff') and n.get('xc'):
            for i, a in enumerate(args):
                if ischarp(a.get('t')) and i not in OUT.get(sn, {}):
                    self.use(a, n, st, sn)
            if sn == 'ffgcdw' and len(args) > 2:
                r = self.opaque(n, obj, args, st, want)
                a = A(('dispw', id(n), self.frame.ctx), True)
                P.AFACTS.setdefault(a.single_atom(), [(a.scale(-1), '<=')])
                for l in self.ev(args[2], st).ptrs:
                    st.put(l.base, l.path, Val((a,)))
                st.put(('S', 'p17'), ('dispw',), Val((a,)))
                return r
            if sn in ('ffgcv', 'ffgcvs', 'ffgcls') and len(args) > 7:
                dt = self.ev(args[1], st).const() if sn == 'ffgcv' else 16
                if dt == 16:
                    v = self.ev(args[7 if sn == 'ffgcv' else 6], st)
                    for l in v.ptrs:
                        n2 = st.get(l.base, l.path[:-1] + ('#n2',)) if l.path and l.path[-1] == '[]' else None
                        key = (self.site(n), sn)
                        self.sites.setdefault(key, 'ok')
                        if n2 is None or n2.poly() is None:
                            self.undec[key] = 'size'
                            continue
                        w = st.get(('S', 'p17'), ('dispw',))
                        if w is None:
                            self.flag('overflow', n, 'texts are read from a column into a buffer although nobody asked how wide the column is')
                        elif not P.entails_split(st.facts, norm_fact(w.poly().add(ONE).sub(n2.poly()), '<=')) and not P.infeasible(st.facts):
                            self.flag('overflow', n, 'texts of a column can be wider than the buffers they are read into')
            if sn in ('ffpcl', 'ffpcls', 'ffpclu') and len(args) > 6 and (sn == 'ffpcls' or self.ev(args[1], st).const() == 16):
                for l in self.ev(args[6 if sn == 'ffpcl' else 5], st).ptrs:
                    pre = l.path[:-1] if l.path and l.path[-1] == '[]' else l.path
                    if any(p[:len(pre)] == pre and p[-1].startswith('#text') and ('open',) in v.prov for p, v in st.m.get(l.base, {}).items()):
                        self.flag('unterminated', n, 'text that need not be terminated is handed to %s' % sn)
            return None
        # strings
        t = n.get('t', '')
        if obj is not None and (isstr(n.get('cls')) or (k == 'ocall' and args and False)):
            return self.strmethod(n, obj, args, st, want)
        if k == 'ocall' and n.get('op') == '+' and isstr(t):
            s = K(0)
            for a in n.get('c') or []:
                s = self.add(s, self.textlen(a, st, n))
            return self.newstr(n, s, st, want)
        if k == 'ocall' and n.get('op') in ('=', '+=') and obj is not None and args and isstr(n.get('cls')):
            return self.strmethod(n, obj, args, st, want)
        if k == 'ocall' and n.get('op') == '<<':
            return self.stream(n, obj, args, st, want)
        if k == 'mcall' and n.get('sn') == 'str' and obj is not None and not args and isstr(t):
            l = obj[0]
            v = st.get(l.base, l.path + ('#len',)) if l is not None else None
            return self.newstr(n, v, st, want)
        if k == 'call' and sn == 'to_string':
            d = DIGITS.get(re.sub(r'\bconst\b', '', args[0].get('t', '')).strip())
            return self.newstr(n, self.upto(n, C(d)) if d else None, st, want)
        if k in ('call', 'mcall', 'ocall') and n.get('ext') and not n.get('mconst'):
            for a in args:
                if ischarp(a.get('t')) and k != 'mcall' and n.get('fn', '').startswith('std::operator'):
                    self.use(a, n, st, 'a stream')
        return None

    def textlen(self, a, st, n):
        if isstr(a.get('t')):
            l = self.evo(a, st)
            return self.slen(l[0], st) if len(l) == 1 else None
        if ischarp(a.get('t')):
            return self.cslen(a, st, n)
        if ischar(a.get('t')):
            return K(1)
        return None

    def newstr(self, n, ln, st, want):
        b = ('T', id(n), self.frame.ctx)
        self.frame.bases.append(b)
        st.m[b] = {}
        st.own.add(b)
        l = LV(b)
        st.put(b, ('#len',), ln if ln is not None and ln.poly() is not None else self.unknown(n, 'new'))
        return self.shape([l], n, st, want)

    def strmethod(self, n, obj, args, st, want):
        sn = n.get('sn') if n['k'] != 'ocall' else 'operator' + n.get('op', '')
        if n['k'] == 'ocall' and n.get('memop') and args and obj is not None and len(args) and args[0] is (n.get('c') or [None])[0]:
            args = args[1:]
        l = obj[0] if len(obj) == 1 else None
        if sn in ('length', 'size'):
            return self.shape(self.slen(l, st) if l is not None else self.unknown(n), n, st, want)
        if sn in ('c_str', 'data'):
            if l is None:
                return None
            v = Val((A(('ctxt', l.base, l.path)),), ptrs=(LV(l.base, l.path + ('#txt', '[]'), l.idx + (ZERO,)),))
            return self.shape(v, n, st, want)
        if sn == 'empty':
            v = self.slen(l, st) if l is not None else self.unknown(n)
            return self.shape(self.boolval(('cmp', '==', v.alts, (ZERO,), False), v.taint, st), n, st, want)
        if sn == 'substr' and l is not None:
            L = self.slen(l, st)
            vs = [self.ev(a, st) for a in args]
            b = self.upto(n, L.poly(), 'sub')
            if len(vs) == 2 and vs[1].poly() is not None and self.decided(vs[1].poly()):
                P.AFACTS[b.poly().single_atom()].append(norm_fact(b.poly().sub(vs[1].poly()), '<='))
            return self.newstr(n, b, st, want)
        if sn == 'copy' and args:
            for d in self.ev(args[0], st).ptrs:
                L = self.slen(l, st) if l is not None else None
                m = self.ev(args[1], st).poly()
                need = m
                if m is not None and L is not None and L.poly() is not None and P.entails_split(st.facts, norm_fact(L.poly().sub(m), '<=')):
                    need = L.poly()
                self.write(n, d, need, st, 'std::string::copy')
                self.settext(d, st, 'open', Val((need,)) if need is not None else None)
            return self.shape(self.fresh('cp', n, True), n, st, want)
        if l is not None and not G.has_elem(l.path):
            new = None
            old = self.slen(l, st)
            ls = [self.textlen(a, st, n) for a in args[:1]]
            if sn in ('operator=', 'assign') and len(args) == 1:
                new = ls[0]
            elif sn in ('operator+=', 'append') and len(args) == 1:
                new = self.add(old, ls[0])
            elif sn == 'push_back':
                new = self.add(old, K(1))
            elif sn == 'clear':
                new = K(0)
            elif sn in ('resize',):
                v = self.ev(args[0], st)
                new = v if v.poly() is not None else None
            elif sn in ('erase', 'pop_back') and old.poly() is not None:
                new = self.upto(n, old.poly(), 'er')
            elif n.get('mconst') or sn in ('operator[]', 'at', 'begin', 'end', 'reserve', 'front', 'back'):
                return None
            for a in args[1:]:
                if not self.is_class(a.get('t', '')):
                    self.ev(a, st)
            self.havoc(st, l, n)
            self.setlen(l, new if new is not None and new.poly() is not None else self.unknown(n, 'asg'), st)
            return self.shape([l], n, st, want)
        return None

    def stream(self, n, obj, args, st, want):
        cs = n.get('c') or []
        if n.get('memop'):
            s, a = obj, args[0] if args else None
        else:
            if len(cs) != 2 or 'stream' not in cs[0].get('t', ''):
                return None
            s, a = self.evo(cs[0], st), cs[1]
        if s is None or a is None:
            return None
        if ischarp(a.get('t')):
            self.use(a, n, st, 'a stream')
        if len(s) == 1 and s[0] is not None and not G.has_elem(s[0].path):
            l = s[0]
            old = st.get(l.base, l.path + ('#len',))
            if old is not None:
                t = re.sub(r'\bconst\b', '', G.unref(a.get('t', ''))).strip()
                if t in DIGITS:
                    self.ev(a, st)
                    inc = self.upto(n, C(DIGITS[t]), 'dig')
                else:
                    inc = self.textlen(a, st, n)
                new = self.add(old, inc)
                self.setlen(l, new if new is not None else self.unknown(n, 'st'), st)
                return self.shape([l], n, st, want)
        return None

    def run_ctor(self, lv, ut, n, st):
        b = ut.replace('const ', '')
        if b.startswith(STR):
            args = n.get('c', []) or []
            args = [a for a in args if 'allocator' not in a.get('t', '')]
            new = None
            if not args:
                new = K(0)
            elif len(args) == 1:
                if ischarp(args[0].get('t')):
                    self.use(args[0], n, st, 'a string')
                new = self.textlen(args[0], st, n)
            elif len(args) == 2 and not self.is_class(args[0].get('t', '')) and not self.is_class(args[1].get('t', '')):
                v = self.ev(args[1] if ischarp(args[0].get('t')) else args[0], st)
                new = v if v.poly() is not None else None
            Scen.run_ctor(self, lv, ut, n, st)
            self.setlen(lv, new if new is not None and new.poly() is not None else self.unknown(n, 'co'), st)
            return
        if re.match(r'std::basic_(o?string)stream<', b):
            Scen.run_ctor(self, lv, ut, n, st)
            args = [a for a in n.get('c', []) or [] if a['k'] not in ('default', 'defarg')]
            new = K(0)
            if args and isstr(args[0].get('t')):
                new = self.unknown(n, 'ss')
            self.setlen(lv, new, st)
            return
        return Scen.run_ctor(self, lv, ut, n, st)

    def construct(self, lv, t, init, st, *more):
        r = Scen.construct(self, lv, t, init, st, *more)
        b = G.unref(t).replace('const ', '')
        if init is None and re.match(r'std::basic_(o?string)stream<', b) or init is None and b.startswith(STR):
            self.setlen(lv, K(0), st)
        return r

    # ---- C functions -------------------------------------------------------
    def dst(self, n, a, st):
        v = self.ev(a, st)
        return v, v.ptrs

    def c_strcpy(self, n, args, st):
        v, ps = self.dst(n, args[0], st)
        L = self.textlen(args[1], st, n) or self.cslen(args[1], st, n)
        self.use(args[1], n, st, n['sn'])
        for l in ps:
            self.write(n, l, L.poly().add(ONE) if L.poly() is not None else None, st, n['sn'])
            self.settext(l, st, 'closed', L)
        return v
    c_stpcpy = c_strcpy

    def c_strcat(self, n, args, st):
        v, ps = self.dst(n, args[0], st)
        L = self.cslen(args[1], st, n)
        self.use(args[0], n, st, n['sn'])
        self.use(args[1], n, st, n['sn'])
        for l in ps:
            old = self.cslen(args[0], st, n)
            s = self.add(old, L)
            self.write(n, l, s.poly().add(ONE) if s is not None else None, st, n['sn'])
            self.settext(l, st, 'closed', s)
        return v

    def c_strncat(self, n, args, st):
        v, ps = self.dst(n, args[0], st)
        L = self.cslen(args[1], st, n)
        m = self.ev(args[2], st)
        for l in ps:
            old = self.cslen(args[0], st, n)
            a = m
            if L.poly() is not None and m.poly() is not None and P.entails_split(st.facts, norm_fact(L.poly().sub(m.poly()), '<=')):
                a = L
            s = self.add(old, a)
            self.write(n, l, s.poly().add(ONE) if s is not None else None, st, n['sn'])
            self.settext(l, st, 'closed', s)
        return v

    def c_strncpy(self, n, args, st):
        v, ps = self.dst(n, args[0], st)
        L = self.cslen(args[1], st, n)
        m = self.ev(args[2], st)
        self.use(args[1], n, st, n['sn'])
        for l in ps:
            self.write(n, l, m.poly(), st, n['sn'])
            sz = self.room(l, st)
            full = L.poly() is not None and m.poly() is not None and P.entails_split(st.facts, norm_fact(L.poly().sub(m.poly()), '<'))
            self.settext(l, st, 'closed' if full else 'open', L if full else m)
        return v

    def c_snprintf(self, n, args, st):
        v, ps = self.dst(n, args[0], st)
        m = self.ev(args[1], st)
        for l in ps:
            self.write(n, l, m.poly(), st, n['sn'])
            self.settext(l, st, 'closed', self.upto(n, m.poly().sub(ONE), 'sn') if m.poly() is not None else None)
        for a in args[2:]:
            if not self.is_class(a.get('t', '')):
                self.ev(a, st)
        return self.fresh('pr', n, True)

    def c_sprintf(self, n, args, st):
        v, ps = self.dst(n, args[0], st)
        f = args[1]
        while f['k'] in ('cast', 'paren'):
            f = f['c'][0]
        tot = None
        if f['k'] == 'str':
            tot, rest = K(0), list(args[2:])
            for x in re.findall(r'%[-+ #0]*[\d*]*(?:\.[\d*]+)?(?:hh|h|ll|l|z|L|j|t)?[a-zA-Z%]|[^%]', f.get('v', '')):
                if x[0] != '%' or x == '%%':
                    tot = self.add(tot, K(1))
                    continue
                a = rest.pop(0) if rest else None
                w = re.match(r'%[-+ #0]*(\d*)(?:\.(\d+))?', x)
                wid = int(w.group(1) or 0)
                if x[-1] == 's' and a is not None:
                    L = self.cslen(a, st, n)
                    self.use(a, n, st, n['sn'])
                    inc = self.upto(n, C(max(int(w.group(2)), wid)), x) if w.group(2) else L if not wid else self.add(L, K(wid))
                elif x[-1] in 'diux':
                    inc = self.upto(n, C(max(20, wid)), x + str(len(rest)))
                    self.ev(a, st)
                elif x[-1] == 'c':
                    inc = K(max(1, wid))
                else:
                    inc = None
                tot = self.add(tot, inc)
        for l in ps:
            self.write(n, l, tot.poly().add(ONE) if tot is not None else None, st, n['sn'])
            self.settext(l, st, 'closed', tot)
        return self.fresh('pr', n, True)

    def c_fgets(self, n, args, st):
        v, ps = self.dst(n, args[0], st)
        m = self.ev(args[1], st)
        for l in ps:
            self.write(n, l, m.poly(), st, n['sn'])
            self.settext(l, st, 'closed', self.upto(n, m.poly().sub(ONE)) if m.poly() is not None else None)
        return v

    def c_strlen(self, n, args, st):
        self.use(args[0], n, st, n['sn'])
        return self.cslen(args[0], st, n)

    def c_memcpy(self, n, args, st):
        v, ps = self.dst(n, args[0], st)
        m = self.ev(args[2], st)
        self.ev(args[1], st)
        if not any(self.istext(l) for l in ps):
            return None
        for l in ps:
            self.write(n, l, m.poly(), st, n['sn'])
            src = args[1]
            L = self.cslen(src, st, n) if ischarp(self.bare(src).get('t')) else None
            # the terminator is copied along
            full = L is not None and L.poly() is not None and m.poly() is not None and \
                P.entails_split(st.facts, (L.poly().add(ONE).sub(m.poly()), '=='))
            self.settext(l, st, 'closed' if full else 'open', L if full else m)
        return v
    c_memmove = c_memcpy

    def bare(self, e):
        while e['k'] in ('cast', 'paren'):
            e = e['c'][0]
        return e

    def c_memset(self, n, args, st):
        v, ps = self.dst(n, args[0], st)
        if not any(self.istext(l) for l in ps):
            return None
        x, m = self.ev(args[1], st), self.ev(args[2], st)
        for l in ps:
            self.write(n, l, m.poly(), st, n['sn'])
            sz = self.room(l, st)
            full = sz is not None and m.poly() is not None and P.entails_split(st.facts, (sz.sub(m.poly()), '=='))
            self.settext(l, st, ('zero' if full else 'closed') if x.const() == 0 else 'open', K(0) if x.const() == 0 else m)
        return v

    def c_copy(self, n, args, st):
        """std::copy of a range"""
        if len(args) != 3:
            return None
        ps = self.ev(args[2], st).ptrs if not self.is_class(args[2].get('t', '')) else ()
        if not any(self.istext(l) for l in ps):
            return None
        need = self.range(args[0], args[1], st, n)
        for l in ps:
            self.write(n, l, need, st, 'std::copy')
            self.settext(l, st, 'open', Val((need,)) if need is not None else None)
        return self.fresh('cp', n, False)

    def c_copy_n(self, n, args, st):
        if len(args) != 3:
            return None
        ps = self.ev(args[2], st).ptrs if not self.is_class(args[2].get('t', '')) else ()
        if not any(self.istext(l) for l in ps):
            return None
        need = self.ev(args[1], st).poly()
        for l in ps:
            self.write(n, l, need, st, 'std::copy_n')
            self.settext(l, st, 'open', Val((need,)) if need is not None else None)
        return self.fresh('cp', n, False)

    def range(self, a, b, st, n):
        def inner(e):
            while e['k'] in ('cast', 'paren', 'ctor', 'tmp') and e.get('c'):
                e = e['c'][0]
            return e
        a, b = inner(a), inner(b)
        if a['k'] == 'mcall' and b['k'] == 'mcall' and a.get('sn') in ('begin', 'cbegin') and b.get('sn') in ('end', 'cend') and a.get('obj') and b.get('obj') \
                and isstr(a.get('cls')):
            x, y = self.evo(a['obj'], st), self.evo(b['obj'], st)
            if len(x) == 1 and x == y:
                return self.slen(x[0], st).poly()
        if ischarp(a.get('t')) and ischarp(b.get('t')):
            x, y = self.ev(a, st), self.ev(b, st)
            if len(x.ptrs) == 1 and len(y.ptrs) == 1 and x.ptrs[0].base == y.ptrs[0].base and x.ptrs[0].path == y.ptrs[0].path \
                    and hasattr(y.ptrs[0].idx[-1], 'sub') and hasattr(x.ptrs[0].idx[-1], 'sub'):
                return y.ptrs[0].idx[-1].sub(x.ptrs[0].idx[-1])
        return None


def run(rep):
    rep.rule('every write into a buffer of fixed size for text - by copying, formatting, element by element or by CFITSIO - is within the buffer '
             'for every length of the texts involved')
    rep.rule('what was copied without its terminator is terminated directly behind the text before it is read as text')
    F = facts.load()
    bufs, strids, roots = set(), {}, []
    for f in F.funcs.values():
        hit = False
        for n in walk([f.get('body'), f.get('inits')]):
            if n.get('k') == 'decl':
                for v in n['vars']:
                    if bufdecl(v):
                        bufs.add(v['d'])
                        hit = True
                        rep.count('buffers')
            elif n.get('k') == 'str':
                strids[id(n)] = len(n.get('v') or '')
            elif n.get('k') == 'call' and n.get('sn') in TEXTFN:
                hit = True
        if hit and f.get('body') is not None and not f.get('impl'):
            roots.append(f)
    rep.count('functions with text buffers', len(roots))
    # a helper that only this library can call is judged by how it is called
    callers = {}
    for f in F.funcs.values():
        for n in walk([f.get('body'), f.get('inits')]):
            if n.get('k') in ('call', 'mcall', 'ocall', 'ctor') and n.get('fid'):
                callers.setdefault(n['fid'], set()).add(f['fid'])
    todo, seen, tops = [f['fid'] for f in roots], set(), set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        f = F.funcs[x]
        up = [c for c in callers.get(x, ()) if c != x and F.funcs[c].get('body') is not None]
        if up and (f.get('internal') or f.get('lambda') or f.get('acc') in ('private', 'protected')) and not f.get('xc'):
            todo += up
        else:
            tops.add(x)
    sites, undec, found = {}, {}, {}
    for f in sorted((F.funcs[x] for x in tops), key=lambda f: f['fid']):
        S = Text(F, rep)
        S.bufs, S.strids = bufs, strids
        args = []
        for i, p in enumerate(f.get('params') or []):
            t = G.unref(p['t']).rstrip()
            nm = p.get('n') or 'a%d' % i
            if t.endswith('*'):
                args.append(Val((A(('ptrarg', nm)),), ptrs=(LV(('O', 'arg', nm), ('[]',), (ZERO,)),)))
            elif S.is_class(t):
                args.append(LV(('O', 'arg', nm)))
            else:
                args.append(arg(nm, S.is_int_t(t)))
        S.invoke(f, LV(('O', 'this')) if f.get('cls') and not f.get('mstatic') else None, args, State())
        for k, v in S.sites.items():
            sites.setdefault(k, v)
        undec.update(S.undec)
        found.update(S.found)
        rep.count('functions analysed as entry points')
    for (site, what), v in sorted(sites.items()):
        if v == 'caller':
            rep.note('%s: %s writes into memory of the caller, whose size is the caller\'s to choose' % (site, what))
            continue
        rep.count('writes into text buffers')
        if (site, what) not in undec:
            rep.sample('%s: %s' % (site, what))
    for (site, what), why in sorted(undec.items()):
        rep.note('%s: %s not decided (%s)' % (site, what, why))
    for (rule, site, msg), fn in sorted(found.items()):
        rep.violation(rule, site, fn, msg, msg)
    rep.need('functions analysed as entry points', 1)
    rep.assumptions += ['CFITSIO and MPI write at most the lengths their manuals give', 'a decimal integer has at most 20 characters',
                        'memory handed over by a caller of the library is as large as documented']
