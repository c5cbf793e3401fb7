"""Facts about the current source tree: builds the extractor when needed, runs it
over every translation unit of the library and indexes what it found."""
import os, re, sys, json, glob, subprocess, tempfile, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
TOOL = os.path.join(BUILD, 'cqfacts')
SRC = os.path.join(VERIF, 'tool', 'cqfacts.cpp')


class CheckError(Exception):
    """The check could not be carried out (never a violation)."""


def build_tool():
    h = hashlib.sha256(open(SRC, 'rb').read()).hexdigest()
    stamp = TOOL + '.sha'
    if os.path.exists(TOOL) and os.path.exists(stamp) and open(stamp).read() == h:
        return
    os.makedirs(BUILD, exist_ok=True)
    tmp = TOOL + '.%d' % os.getpid()
    cmd = ['clang++-18', '-std=c++17', '-O1', '-I/usr/lib/llvm-18/include', '-fno-rtti',
           '-D__STDC_CONSTANT_MACROS', '-D__STDC_LIMIT_MACROS', '-D_GNU_SOURCE', SRC, '-o', tmp,
           '/usr/lib/llvm-18/lib/libclang-cpp.so.18.1', '/usr/lib/llvm-18/lib/libLLVM-18.so']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise CheckError('cannot build the fact extractor:\n' + r.stderr[-2000:])
    os.replace(tmp, TOOL)
    with open(stamp, 'w') as f:
        f.write(h)


def sources():
    out = []
    for am in ['src/Makefile.am'] + sorted(
            os.path.relpath(p, REPO) for p in glob.glob(REPO + '/levels/*/Makefile.am')):
        p = os.path.join(REPO, am)
        if not os.path.exists(p):
            continue
        txt = open(p).read().replace('\\\n', ' ')
        d = os.path.dirname(am)
        for m in re.finditer(r'^\s*(\w+)_SOURCES\s*\+?=(.*)$', txt, re.M):
            if not m.group(1).endswith('_la'):
                continue
            for s in m.group(2).split():
                if s.endswith(('.c', '.cc', '.cpp')) and os.path.exists(os.path.join(REPO, d, s)):
                    q = os.path.join(d, s)
                    if q not in out:
                        out.append(q)
    if not out:
        raise CheckError('no library sources found in the Makefile.am files')
    return out


def flags(src):
    inc = []
    for d in ['src', 'levels/c_utils', 'levels/libfftpack', 'levels/cxxsupport',
              'levels/Healpix_cxx']:
        inc += ['-I', os.path.join(REPO, d)]
    std = '-std=gnu17' if src.endswith('.c') else '-std=gnu++17'
    mpi = '/usr/lib/x86_64-linux-gnu/openmpi/include'
    return [std, '-DUSE_MPI', '-fopenmp'] + inc + [
        '-isystem', mpi, '-isystem', mpi + '/openmpi',
        '-isystem', os.path.join(VERIF, 'tool', 'include'),
        '-resource-dir', '/usr/lib/llvm-18/lib/clang/18', '-w']


class Facts:
    def __init__(self):
        self.funcs = {}
        self.decls = {}
        self.records = {}
        self.crecords = {}
        self.enums = {}
        self.globals = {}
        self.byname = {}
        self.bysn = {}
        self.sources = []

    def add(self, d, src):
        for f in d['funcs']:
            f['src'] = src
            if f['fid'] not in self.funcs:
                self.funcs[f['fid']] = f
        for f in d['decls']:
            self.decls.setdefault(f['fid'], []).append(f)
        for r in d['records']:
            self.records.setdefault(r['n'], r)
        for r in d.get('crecords', []):
            self.crecords.setdefault(r['n'], r)
        for e in d['enums']:
            self.enums.setdefault(e.get('n'), e)
        for g in d['globals']:
            old = self.globals.get(g['d'])
            if old is None or (not old.get('init') and g.get('init')):
                self.globals[g['d']] = g

    def index(self):
        for f in self.funcs.values():
            self.byname.setdefault(f['fn'], []).append(f)
            self.bysn.setdefault(f['sn'], []).append(f)

    def find(self, fn):
        return self.byname.get(fn, [])

    def one(self, fn, must=True):
        c = [f for f in self.byname.get(fn, []) if f.get('body')]
        if not c:
            if must:
                raise CheckError('anchor vanished: no function %s' % fn)
            return None
        return c[0]


def load(tool=True):
    build_tool()
    srcs = sources()
    tmp = tempfile.mkdtemp(prefix='cqfacts.')
    try:
        def one(s):
            o = os.path.join(tmp, s.replace('/', '_') + '.json')
            r = subprocess.run([TOOL, REPO.rstrip('/') + '/', os.path.join(REPO, s), o, '--'] + flags(s),
                               capture_output=True, text=True)
            if r.returncode or not os.path.exists(o):
                raise CheckError('cannot analyse %s:\n%s' % (s, (r.stderr + r.stdout)[-1500:]))
            return s, json.load(open(o))
        fs = Facts()
        with ThreadPoolExecutor(8) as ex:
            for s, d in ex.map(one, srcs):
                fs.add(d, s)
                fs.sources.append(s)
        fs.index()
        return fs
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def extra(fs, text, name='extra.cc'):
    """add what a piece of additional source makes the compiler instantiate"""
    tmp = tempfile.mkdtemp(prefix='cqfacts.')
    try:
        s, o = os.path.join(tmp, name), os.path.join(tmp, 'extra.json')
        with open(s, 'w') as f:
            f.write(text)
        r = subprocess.run([TOOL, REPO.rstrip('/') + '/', s, o, '--'] + flags(s), capture_output=True, text=True)
        if r.returncode or not os.path.exists(o):
            raise CheckError('cannot analyse additional source:\n%s' % (r.stderr + r.stdout)[-1500:])
        d = json.load(open(o))
        for f in d['funcs']:
            f['src'] = 'extra'
            old = fs.funcs.get(f['fid'])
            if old is None or old.get('impl') and not f.get('impl'):
                fs.funcs[f['fid']] = f
        for r in d['records']:
            fs.records[r['n']] = r
        fs.byname, fs.bysn = {}, {}
        fs.index()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


KIDS = ('c', 'cond', 'then', 'else', 'init', 'body', 'inc', 'obj', 'sub', 'range', 'v', 'cvar',
        'vars', 'handlers', 'e', 'at', 'size', 'fe', 'clauses', 'var', 'arr')


def walk(n):
    """Every node of a tree, in source order."""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if 'k' in x:
                yield x
            st.extend(reversed([v for v in x.values() if isinstance(v, (dict, list))]))
        elif isinstance(x, list):
            st.extend(reversed([v for v in x if isinstance(v, (dict, list))]))


if __name__ == '__main__':
    build_tool()
    f = load()
    print(len(f.sources), 'sources', len(f.funcs), 'functions')
