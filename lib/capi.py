"""What the public C interface promises: which handle kind every argument has.  The
names and argument positions are the binary interface, so they are the specification."""
import os, re, json, subprocess, tempfile, shutil
import facts
from facts import CheckError, REPO

KIND = {'beam': 'conviqt::beam', 'sky': 'conviqt::sky', 'detector': 'conviqt::detector',
        'pointing': 'conviqt::pointing', 'convolver': 'conviqt::convolver'}
# handle arguments that the name of the function does not give away
EXTRA = {'conviqt_convolver_new': {0: 'sky', 1: 'beam', 2: 'detector'},
         'conviqt_convolver_set_sky': {1: 'sky'}, 'conviqt_convolver_set_beam': {1: 'beam'},
         'conviqt_convolver_set_detector': {1: 'detector'}, 'conviqt_convolver_convolve': {1: 'pointing'}}


def kind_of(fn):
    m = re.match(r'conviqt_([a-z]+)_', fn)
    return m.group(1) if m and m.group(1) in KIND else None


def is_creator(fn):
    return re.match(r'conviqt_[a-z]+_new', fn) is not None


def is_deleter(fn):
    return fn.endswith('_del')


def arg_kinds(fn):
    k = kind_of(fn)
    d = dict(EXTRA.get(fn, {}))
    if k and not is_creator(fn):
        d.setdefault(0, k)
    return d


def impls(fs):
    """The C functions that the library exports."""
    out = {}
    for f in fs.funcs.values():
        if f.get('xc') and f['sn'].startswith('conviqt_') and f.get('body') and not f.get('internal'):
            out[f['sn']] = f
    if len(out) < 30:
        raise CheckError('only %d functions of the C interface found' % len(out))
    return out


def header_decls(std='c'):
    """The public header as a C (or C++) program sees it."""
    tmp = tempfile.mkdtemp(prefix='cqhdr.')
    try:
        src = os.path.join(tmp, 'h.c' if std == 'c' else 'h.cc')
        with open(src, 'w') as f:
            f.write('#include <mpi.h>\n#include "cconviqt.h"\n')
        o = os.path.join(tmp, 'o.json')
        r = subprocess.run([facts.TOOL, REPO.rstrip('/') + '/', src, o, '--'] + facts.flags(src),
                           capture_output=True, text=True)
        if r.returncode or not os.path.exists(o):
            return None, (r.stderr + r.stdout)[-1500:]
        d = json.load(open(o))
        return {x['sn']: x for x in d['decls'] + d['funcs']}, None
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def result_kinds(decls):
    """How each C function reports failure, for the Python side."""
    out = {}
    for n, d in decls.items():
        if not n.startswith('conviqt_'):
            continue
        rt = d['rt']
        if rt.endswith('*'):
            out[n] = 'ptr'
        elif rt == 'int':
            out[n] = 'num0' if re.search(r'_(lmax|mmax|normalized)$', n) else 'status'
        elif rt == 'double':
            out[n] = 'num+'
        else:
            out[n] = 'other'
    return out
