"""Scenarios: running library functions in the engine on symbolic objects."""
import engine as G
from engine import Engine, Val, LV, State, Out, Frame, K, A, C, E0
from poly import *
import poly as P


class Scen(Engine):
    def __init__(self, facts, opts=None):
        Engine.__init__(self, facts, opts)
        top = {'fid': 'top', 'fn': '<scenario>', 'sn': '<scenario>', 'f': '-'}
        self.frame = Frame(top, self.ctx(None, 'top'), None, None)
        self.nodes = []
        self.ncalls = 0

    def valnode(self, v, t=''):
        n = {'k': '$val', 'V': v, 't': t, 'l': 0}
        self.nodes.append(n)
        return n

    def lvnode(self, lv, t=''):
        n = {'k': '$lv', 'LV': lv if isinstance(lv, list) else [lv], 't': t, 'l': 0, 'lv': True}
        self.nodes.append(n)
        return n

    def invoke(self, f, this, args, st):
        """call f on an object; args: Val for scalars, LV for objects.
        Returns (normal state or None, result, thrown state or None, thrown types)"""
        self.ncalls += 1
        nodes = []
        for i, p in enumerate(f.get('params', [])):
            if i >= len(args):
                break
            a = args[i]
            t = p['t']
            if isinstance(a, Val):
                if G.isref(t):
                    b = ('T', 'arg', self.ncalls, i)
                    st.m[b] = {}
                    st.own.add(b)
                    st.put(b, (), a)
                    nodes.append(self.lvnode(LV(b), G.unref(t)))
                else:
                    nodes.append(self.valnode(a, t))
            elif isinstance(a, list):
                nodes.append(self.lvnode(a, G.unref(t)))
            else:
                nodes.append(self.lvnode(a, G.unref(t)))
        n = {'k': 'ctor' if f.get('kind') == 'ctor' else 'mcall', 'fid': f['fid'], 'fn': f['fn'], 'sn': f['sn'], 'l': 0,
             't': f.get('rt', 'void'), 'c': nodes, '#scen': self.ncalls}
        self.nodes.append(n)
        self.collect.append([None, E0])
        r = None
        ok = st
        try:
            r = self.inline(f, this, nodes, n, st)
        except G.Dead:
            ok = None
        t, tt = self.collect.pop()
        return ok, r, t, tt


def _e_val(self, n, st):
    return n['V']


def _e_lv(self, n, st):
    return self.rd(n['LV'], n, st) if not self.is_class(n.get('t', '')) else Val((A(('obj', id(n))),), ptrs=tuple(n['LV']))


setattr(Scen, 'e_$val', _e_val)
setattr(Scen, 'e_$lv', _e_lv)


def arg(name, isint=True, taint=E0):
    return Val((A(('arg', name), isint),), taint, G.UNK)


def comm(name='comm'):
    return Val((A(('comm', name)),), ptrs=(LV(('O', ('comm', name))),))
