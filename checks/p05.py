"""P05: the angles come back as they were supplied, column by column."""
import facts, conv, par
import engine as G
from poly import *
from scen import *
from conv import *

ANGLE = {'[0]': 'longitude', '[1]': 'co-latitude', '[2]': 'position angle'}
COLS = {'[%d]' % i: 'column %d' % i for i in range(5)}


def judge(r, F, pol, cal):
    tag = '%s convolution' % ('polarised' if pol else 'unpolarised')
    writes = {}

    def store(eng, lvs, v, node, st):
        # an angle that is replaced by a constant
        if v.prov == frozenset((('const',),)):
            for l in lvs:
                for p in eng.expand_lv(l):
                    k = [x for x in p if x in ANGLE]
                    if k and len(eng.expand_lv(l)) == 1 and G.has_elem(l.path) \
                            and any(x[0] == 'col' and x[2] == k[-1] for x in eng.cell(st, l.base, p, None).prov):
                        return v.with_(prov=frozenset((('cst', eng.where(node)),)))
        return None

    def access(eng, rw, lv, node, st, whole):
        if rw == 'w' and lv.base == conv.PN[0]:
            for p in eng.expand_lv(lv):
                if p and p[-1] in COLS:
                    writes.setdefault((p[-1], eng.where(node)), eng.fname())
    c = conv.Conv(F, pol, cal, rows=1, hooks={'store': store, 'access': access})
    r.count('convolve scenarios')
    r.count('abstract steps', c.S.steps)
    r.count('places that write the pointing', len(writes))
    if c.ok is None:
        raise facts.CheckError('convolve never returns normally (%s)' % tag)
    f = c.conv
    where = '%s:%s' % (f['f'], f.get('l'))
    d = c.ok.m[conv.PN[0]]
    for col, name in ANGLE.items():
        for key in ((col,), (col, '#def')):
            v = d.get(key)
            if v is None:
                continue
            loc = tuple(x for x in v.prov if x[0] == 'mixed')
            if loc or v.prov & G.UNK:
                r.note('%s: %s not decided (%s)' % (tag, name, ', '.join(str(x[-1]) for x in loc) or 'unknown source'))
                r.count('angle columns not decided')
                continue
            r.count('angle columns traced to their source')
            r.sample('%s: %s comes from %s' % (tag, name, ', '.join(sorted(COLS.get(x[2], x[2]) if x[0] == 'col' else x[0] for x in v.prov))))
            for x in sorted(v.prov, key=str):
                if x == ('const',) or x == ('col', conv.PN[0], col):
                    continue
                if x[0] == 'calc':
                    r.violation('R1', x[1], f['fn'], '%s: the %s that is returned is computed here' % (tag, name), key=name)
                elif x[0] == 'cst':
                    r.violation('R1', x[1], f['fn'], '%s: the %s that is returned may be a constant set here' % (tag, name), key=name)
                elif x[0] == 'col':
                    r.violation('R2', where, f['fn'], '%s: the %s that is returned may come from %s' % (tag, name, COLS.get(x[2], x[2])), key=name)
                elif x[0] == 'uninit':
                    r.violation('R1', where, f['fn'], '%s: the %s that is returned may never have been set' % (tag, name), key=name)


def run(rep):
    rep.rule('R1: tracing every copy (element by element, memcpy, exchange between processes, sorting) backwards from the longitude, '
             'co-latitude and position angle columns at the exit of convolve leads only to what the caller supplied, never to a computed '
             'value or a constant')
    rep.rule('R2: and only to the same column')
    F = facts.load()
    par.scenarios(rep, [('%d %d' % (p, c), lambda r, p=p, c=c: judge(r, F, p, c)) for p in (0, 1) for c in (0, 1)])
    rep.need('convolve scenarios', 4)
    rep.need('places that write the pointing', 4)
