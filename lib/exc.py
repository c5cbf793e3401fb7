"""Which exceptions can leave a function: a least fixed point over the call graph."""
from facts import walk, CheckError

STD = {'std::bad_alloc': 'std::exception', 'std::bad_array_new_length': 'std::bad_alloc', 'std::bad_cast': 'std::exception',
       'std::runtime_error': 'std::exception', 'std::logic_error': 'std::exception', 'std::range_error': 'std::runtime_error',
       'std::overflow_error': 'std::runtime_error', 'std::underflow_error': 'std::runtime_error',
       'std::invalid_argument': 'std::logic_error', 'std::domain_error': 'std::logic_error',
       'std::length_error': 'std::logic_error', 'std::out_of_range': 'std::logic_error',
       'std::ios_base::failure': 'std::system_error', 'std::system_error': 'std::runtime_error',
       'std::bad_function_call': 'std::exception', 'std::bad_typeid': 'std::exception',
       'std::bad_exception': 'std::exception', 'std::bad_weak_ptr': 'std::exception'}
ANY = '*'
SOMESTD = 'std::exception'
# library functions that are not declared noexcept but throw nothing
QUIET = {'min', 'max', 'swap', 'move', 'forward', 'get', 'abs', 'sqrt', 'fabs', 'isnan', 'isfinite', 'isinf', 'pow', 'floor',
         'ceil', 'size', 'empty', 'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'data', 'front', 'back', 'c_str', 'length', 'clear', 'pop_back',
         'operator[]', 'operator*', 'operator->', 'operator++', 'operator--', 'operator+=', 'operator-=', 'real', 'imag', 'norm',
         'operator bool', 'operator!', 'find', 'lower_bound', 'upper_bound', 'sort', 'stable_sort', 'fill', 'copy', 'make_pair',
         'accumulate', 'distance', 'advance', 'reset', 'release', 'swap_ranges', 'reverse', 'flush', 'operator==', 'operator!=',
         'operator<', 'operator>', 'operator<=', 'operator>=', 'operator-', 'max_element', 'min_element', 'pair', 'tuple', 'conj',
         'polar', 'arg', 'exp', 'log', 'sin', 'cos', 'tan', 'atan2', 'acos', 'asin', 'atan', 'complex', 'none_of', 'any_of', 'all_of',
         'for_each', 'fill_n', 'copy_n', 'transform', 'what', 'numeric_limits', 'erase', 'count', 'uncaught_exception',
         'uncaught_exceptions', 'first', 'second', 'get_deleter', 'fabsf', 'operator()', 'setstate', 'rdstate', 'good', 'fail', 'bad', 'eof'}


def tname(t):
    t = (t or '').replace('const ', '').replace('volatile ', '').strip()
    while t.endswith(('&', ' ')):
        t = t[:-1]
    return t


class Escapes:
    def __init__(self, fs):
        self.fs = fs
        self.base = dict((k, [v]) for k, v in STD.items())
        for r in fs.records.values():
            self.base[r['n']] = list(r['bases'])
        self.over = {}
        for f in fs.funcs.values():
            if f['kind'] in ('method', 'dtor'):
                self.over.setdefault(f['sn'], []).append(f)
        self.memo = {}
        self.whyof = {}
        self.solve()

    def derived(self, t, b):
        st, seen = [t], set()
        while st:
            x = st.pop()
            if x == b:
                return True
            if x in seen:
                continue
            seen.add(x)
            st += self.base.get(x, [])
        return False

    def stdlike(self, n):
        fn = n.get('fn', '')
        if n.get('nx') or n.get('xc') or n.get('triv'):
            return set()
        sn = n.get('sn', '')
        cls = n.get('cls', '')
        pt = n.get('pt') or []
        if 'basic_ostream' in cls or 'basic_ios' in cls or (pt and 'basic_ostream' in pt[0]) or 'ios_base' in cls or \
                sn in ('endl', 'flush', 'setw', 'setprecision', 'setfill'):
            return set()
        if sn == 'at' or sn == 'resize':
            return {SOMESTD}
        if sn in QUIET:
            if sn == 'swap' or cls or fn.startswith('std::') or '::' not in fn:
                return set()
        if n['k'] == 'ctor' and not n.get('c') and n.get('nx'):
            return set()
        if fn.startswith('__builtin') or fn.startswith('__') or sn.startswith('__'):
            return set()
        return {SOMESTD}

    def solve(self):
        fs = self.fs
        # C has no exceptions
        todo = [f for f in fs.funcs.values() if f.get('body') and not f['src'].endswith('.c')]
        for f in todo:
            self.memo[f['fid']] = frozenset()
        ch = True
        n = 0
        while ch:
            ch = False
            n += 1
            for f in todo:
                r = self.function(f)
                if r - self.memo[f['fid']]:
                    self.memo[f['fid']] = frozenset(r | self.memo[f['fid']])
                    ch = True
            if n > 60:
                raise CheckError('the exception analysis does not converge')

    def function(self, f):
        """What can leave the body (whether or not the function promises not to throw)."""
        self.cur = f
        r = set()
        for i in f.get('inits') or []:
            if i.get('e'):
                r |= self.node(i['e'], None)
        r |= self.node(f['body'], None)
        return r

    def note(self, t, n):
        self.whyof.setdefault((self.cur['fid'], t), n.get('l', 0))

    def callee(self, n):
        """Exceptions from calling what the node calls."""
        fid = n.get('fid')
        fs = self.fs
        f = fs.funcs.get(fid)
        if n.get('virt') and not n.get('qual'):
            r = set()
            hit = False
            for g in self.over.get(n['sn'], []):
                if self.derived(g.get('cls', ''), n.get('cls', '')) and len(g['params']) == len(n.get('pt', [])):
                    hit = True
                    if not g.get('nx'):
                        r |= self.memo.get(g['fid'], set())
            if hit:
                return r
        if f is not None and f.get('body'):
            return set() if f.get('nx') else set(self.memo.get(fid, ()))
        if n.get('fid') is None:
            return {ANY} if n['k'] == 'call' else set()
        if n.get('nx') or n.get('xc'):
            return set()
        if n.get('ext'):
            return self.stdlike(n)
        if n['k'] == 'ctor' and f is None:
            return self.stdlike(n) if n.get('ext') else set()
        d = fs.decls.get(fid)
        if d and d[0].get('xc'):
            return set()
        if d and d[0].get('impl') or n.get('triv'):
            return set()
        return self.stdlike(n)

    def node(self, n, handler):
        if n is None:
            return set()
        if isinstance(n, list):
            r = set()
            for x in n:
                r |= self.node(x, handler)
            return r
        k = n.get('k')
        if k == 'lambda':
            return set()
        if k == 'sizeof':
            return set()
        r = set()
        if k == 'throw':
            if n.get('tt'):
                r |= {tname(n['tt'])}
                self.note(tname(n['tt']), n)
                r |= self.node(n.get('c'), handler)
            elif handler is not None:
                r |= handler
                for t in handler:
                    self.note(t, n)
            else:
                r |= {ANY}
            return r
        if k == 'try':
            b = self.node(n['body'], handler)
            for h in n['handlers']:
                if h.get('all'):
                    caught = set(b)
                    b = set()
                else:
                    t = tname(h.get('t'))
                    caught = {x for x in b if x == t or self.derived(x, t)}
                    b = b - caught
                    may = caught | {t}
                    caught = may if caught or any(self.derived(t, x) for x in b) or ANY in b else set()
                    # a type derived from what was seen may match here and is not lost elsewhere
                if h.get('all'):
                    r |= self.node(h.get('body'), caught)
                else:
                    r |= self.node(h.get('body'), caught or {t})
            return r | b
        if k == 'new':
            if not n.get('nothrow'):
                r.add('std::bad_alloc')
                self.note('std::bad_alloc', n)
            for key in ('size', 'init', 'c'):
                r |= self.node(n.get(key), handler)
            return r
        if k in ('call', 'mcall', 'ocall', 'ctor'):
            c = self.callee(n)
            for t in c:
                self.note(t, n)
            r |= c
        if k == 'delete':
            pass
        for key, v in n.items():
            if isinstance(v, (dict, list)) and key not in ('pt', 'clauses', 'caps'):
                if isinstance(v, list):
                    for x in v:
                        if isinstance(x, dict):
                            r |= self.node(x, handler) if 'k' in x else self.sub(x, handler)
                elif 'k' in v:
                    r |= self.node(v, handler)
                else:
                    r |= self.sub(v, handler)
        return r

    def sub(self, x, handler):
        r = set()
        for v in x.values():
            if isinstance(v, dict):
                r |= self.node(v, handler) if 'k' in v else self.sub(v, handler)
            elif isinstance(v, list):
                for y in v:
                    if isinstance(y, dict):
                        r |= self.node(y, handler) if 'k' in y else self.sub(y, handler)
        return r


def reachable(fs, roots):
    """Functions reachable through calls from the roots (virtual calls by name)."""
    seen, st = {}, [(f, None) for f in roots]
    bymeth = {}
    for f in fs.funcs.values():
        bymeth.setdefault(f['sn'], []).append(f)
    dtors = {}
    for f in fs.funcs.values():
        if f['kind'] == 'dtor':
            dtors[f['cls']] = f
    while st:
        f, via = st.pop()
        if f['fid'] in seen:
            continue
        seen[f['fid']] = via
        for n in walk([f.get('body'), f.get('inits')]):
            for key in ('fid', 'dtor'):
                g = fs.funcs.get(n.get(key)) if n.get(key) else None
                if g:
                    st.append((g, f))
            if n.get('k') == 'ctor' and n.get('cls') in dtors:
                st.append((dtors[n['cls']], f))
            if n.get('virt'):
                for g in bymeth.get(n['sn'], []):
                    st.append((g, f))
    return seen
