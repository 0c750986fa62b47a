"""Parses groups of /repo translation units with the extractor and loads the
facts (functions, classes, globals) they contain."""
import concurrent.futures
import glob
import hashlib
import json
import os
import re
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('KALIBR_REPO', '/repo')
CACHE = os.environ.get('VERIF_CACHE', os.path.join(VERIF, '.cache'))


class AnalysisBroken(Exception):
    """The analysis cannot give an answer (an anchor is gone, a unit does not parse)."""


# ---------------------------------------------------------------- groups
# name -> list of units; a unit is a list of globs / files put in one
# translation unit.  'tu:' files lie in /verif/tu.
GROUPS = {
    'backend': [['lib:aslam_optimizer/aslam_backend']],
    # MatrixBasic.hpp and MatrixTransformation.hpp share an include guard
    'expr': [['lib:aslam_optimizer/aslam_backend_expressions', 'tu:expr.cpp',
              '!aslam_optimizer/aslam_backend_expressions/src/MatrixTransformation.cpp'],
             ['aslam_optimizer/aslam_backend_expressions/src/MatrixTransformation.cpp']],
    'splines': [['lib:aslam_nonparametric_estimation/aslam_splines', 'tu:splines.cpp']],
    'bsplines': [['lib:aslam_nonparametric_estimation/aslam_bsplines']],
    'cvbackend': [['lib:aslam_cv/aslam_cv_backend', 'tu:cv_backend.cpp']],
    'kalibrcpp': [['lib:aslam_offline_calibration/kalibr', 'tu:kalibr_errors.cpp']],
    'cameras': [['lib:aslam_cv/aslam_cameras', 'tu:cameras.cpp']],
    'time': [['lib:aslam_cv/aslam_time']],
    'timing': [['lib:Schweizer-Messer/sm_timing']],
    'logging': [['lib:Schweizer-Messer/sm_logging']],
    'matrix_archive': [['lib:Schweizer-Messer/sm_matrix_archive']],
    'kinematics': [['lib:Schweizer-Messer/sm_kinematics']],
    'ptree': [['lib:Schweizer-Messer/sm_property_tree']],
    'smboost': [['lib:Schweizer-Messer/sm_boost', 'tu:smboost.cpp']],
    'sparseblock': [['lib:aslam_optimizer/aslam_sparse_block_matrix', 'tu:sparseblock.cpp']],
    'incremental': [['lib:aslam_incremental_calibration/aslam_incremental_calibration', 'tu:incremental.cpp',
                     '!aslam_incremental_calibration/aslam_incremental_calibration/src/core/IncrementalEstimator.cpp',
                     '!aslam_incremental_calibration/aslam_incremental_calibration/src/core/LinearSolver.cpp',
                     '!aslam_incremental_calibration/aslam_incremental_calibration/src/algorithms/marginalize.cpp',
                     '!aslam_incremental_calibration/aslam_incremental_calibration/src/algorithms/linalg.cpp']],
    'apriltag': [['lib:aslam_offline_calibration/aslam_apriltag2']],
    'apriltarget': [['lib:aslam_cv/aslam_cameras_april']],
    'serialization': [['lib:aslam_cv/aslam_cameras', 'lib:aslam_cv/aslam_cameras_april', 'lib:aslam_cv/aslam_time',
                       'lib:Schweizer-Messer/sm_kinematics', 'tu:serialization.cpp']],
    'numpy': [['tu:numpy_eigen.cpp']],
    'linsys': [['tu:linsys.cpp']],
    'fixtures': [['tu:fixtures.cpp']],
}

EXTRA_FLAGS = {
    'numpy': 'python', 'cameras': '', 'py': 'python',
}


def sh_out(cmd):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True).stdout.strip()


_flags = None


def base_flags(python=False):
    global _flags
    inc = sorted(glob.glob(REPO + '/*/*/include'))
    fl = ['-std=gnu++14', '-w', '-ferror-limit=0', '-resource-dir', '/usr/lib/llvm-18/lib/clang/18',
          '-include', os.path.join(VERIF, 'tool/suitesparse7.h'),
          '-DBOOST_TIMER_ENABLE_DEPRECATED', '-DBOOST_BIND_NO_PLACEHOLDERS_X']
    fl.pop()
    for i in inc:
        fl.append('-I' + i)
    fl.append('-I' + REPO + '/Schweizer-Messer/sm_numpy_eigen/include/sm_numpy_eigen')
    fl += ['-isystem', '/usr/include/eigen3', '-isystem', '/usr/include/suitesparse',
           '-isystem', '/usr/include/opencv4']
    # some tests name headers of aslam_backend_expressions by their old place
    old = os.path.join(CACHE, 'old_paths')
    os.makedirs(os.path.join(old, 'aslam_backend'), exist_ok=True)
    link = os.path.join(old, 'aslam_backend/backend')
    want = REPO + '/aslam_optimizer/aslam_backend_expressions/include/aslam_backend_expressions'
    try:
        if os.readlink(link) != want:
            os.unlink(link)
            os.symlink(want, link)
    except OSError:
        try:
            os.symlink(want, link)
        except FileExistsError:
            pass
    fl += ['-idirafter', old]
    if python:
        for p in ('/usr/bin/python3',):
            out = sh_out([p, '-c', 'import sysconfig,numpy;print(sysconfig.get_paths()["include"]);print(numpy.get_include())'])
            for l in out.split('\n'):
                if l:
                    fl += ['-isystem', l]
        fl += ['-include', 'boost/bind.hpp']
    return fl


def sha(b):
    return hashlib.sha256(b).hexdigest()


_filesha = {}


def file_sha(p):
    try:
        st = os.stat(p)
    except OSError:
        return None
    k = (p, st.st_mtime_ns, st.st_size)
    if k not in _filesha:
        with open(p, 'rb') as f:
            _filesha[k] = sha(f.read())
    return _filesha[k]


def tool_path():
    src = os.path.join(VERIF, 'tool/extract.cpp')
    key = file_sha(src)[:16]
    d = os.path.join(CACHE, 'bin')
    p = os.path.join(d, 'extract-' + key)
    if not os.path.exists(p):
        os.makedirs(d, exist_ok=True)
        r = subprocess.run([os.path.join(VERIF, 'tool/build.sh'), p], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode or not os.path.exists(p):
            raise AnalysisBroken('cannot build the extractor:\n' + r.stdout[-3000:])
    return p


def lib_sources(pkg):
    """the sources the package's own CMakeLists.txt gives to its library"""
    d = os.path.join(REPO, pkg)
    text = re.sub(r'#[^\n]*', '', open(os.path.join(d, 'CMakeLists.txt')).read())
    out = []
    for m in re.finditer(r'add_library\(\s*(\$\{PROJECT_NAME\}\w*)\s([^()]*)\)', text):
        for w in m.group(2).split():
            if w == '${SOURCE_FILES}':
                g = re.search(r'file\(GLOB SOURCE_FILES "([^"]+)"\)', text)
                if g:
                    out += sorted(glob.glob(os.path.join(d, g.group(1))))
            elif re.search(r'\.(cpp|cc)$', w):
                out.append(os.path.join(d, w))
        break
    return [f for f in dict.fromkeys(out) if os.path.exists(f)]


def expand(unit):
    out = []
    for g in unit:
        if g.startswith('tu:'):
            out.append(os.path.join(VERIF, 'tu', g[3:]))
        elif g.startswith('lib:'):
            out += lib_sources(g[4:])
        elif g.startswith('!'):
            x = os.path.join(REPO, g[1:])
            out = [f for f in out if f != x]
        else:
            m = sorted(glob.glob(os.path.join(REPO, g)))
            out += m
    return out


def _run(files, python, verbose=False):
    """facts of one unity translation unit, from the cache or the extractor"""
    tool = tool_path()
    text = ''.join('#include "%s"\n' % f for f in files)
    flags = base_flags(python)
    key = sha((text + '\0' + '\0'.join(flags) + file_sha(os.path.join(VERIF, 'tool/extract.cpp')) +
               file_sha(os.path.join(VERIF, 'tool/suitesparse7.h'))).encode())[:24]
    cdir = os.path.join(CACHE, 'facts')
    os.makedirs(cdir, exist_ok=True)
    idx = os.path.join(cdir, key + '.deps')
    dat = os.path.join(cdir, key + '.json')
    if os.path.exists(idx) and os.path.exists(dat):
        try:
            deps = json.load(open(idx))
            if all(file_sha(p) == h for p, h in deps.items()):
                return json.load(open(dat))
        except ValueError:
            pass
    with tempfile.TemporaryDirectory(prefix='kalibr-facts-') as td:
        u = os.path.join(td, 'unit.cpp')
        with open(u, 'w') as f:
            f.write(text)
        out = os.path.join(td, 'out.json')
        with open(out, 'wb') as fo:
            r = subprocess.run([tool, '--prefix', REPO + '/', '--prefix', os.path.join(VERIF, 'tu') + '/', '--file', u, '--'] + flags,
                               stdout=fo, stderr=subprocess.PIPE)
        if r.returncode:
            return {'error': r.stderr.decode(errors='replace')[-4000:]}
        with open(out, 'rb') as fi:
            data = fi.read()
    d = json.loads(data)
    deps = {p: file_sha(p) for p in d['deps'] if p.startswith(REPO + '/') or p.startswith(VERIF + '/')}
    tmp = dat + '.%d' % os.getpid()
    with open(tmp, 'wb') as f:
        f.write(data)
    os.replace(tmp, dat)
    tmp = idx + '.%d' % os.getpid()
    with open(tmp, 'w') as f:
        json.dump(deps, f)
    os.replace(tmp, idx)
    return d


class Ty:
    __slots__ = ('s', 'k', 'p', 'const', 'b', 'r', 'rp', 'w', 'n')

    def __init__(self, d):
        self.s = d['s']
        self.k = d.get('k', 'v')
        self.p = d.get('p', 0)
        self.const = d.get('c', False)
        self.b = d.get('b')
        self.r = d.get('r', '')
        self.rp = d.get('rp', '')
        self.w = d.get('w', 0)
        self.n = d.get('n')

    def __repr__(self):
        return self.s

    @property
    def isref(self):
        return self.k in ('r', 'rr')

    @property
    def isptr(self):
        return self.p > 0

    @property
    def scalar(self):
        return (self.b in ('int', 'uint', 'float', 'enum', 'bool') or self.p > 0) and self.k == 'v'


NOTY = Ty({'s': '?', 'b': 'oth'})


class Node:
    __slots__ = ('fn', 'id', 'd', 'k', 'c', 'line')

    def __init__(self, fn, i, d):
        self.fn = fn
        self.id = i
        self.d = d
        self.k = d['k']
        self.line = d.get('l', 0)
        self.c = None

    def get(self, k, default=None):
        return self.d.get(k, default)

    def __getitem__(self, k):
        return self.d[k]

    @property
    def type(self):
        t = self.d.get('t', -1)
        return self.fn.types[t] if t is not None and t >= 0 else NOTY

    @property
    def loc(self):
        return '%s:%d' % (self.fn.file, self.line)

    def walk(self):
        yield self
        for x in self.c:
            if x is not None:
                yield from x.walk()

    def __repr__(self):
        return '<%s %s %s>' % (self.k, self.d.get('q') or self.d.get('n') or self.d.get('op') or self.d.get('v', ''), self.line)

    def text(self, depth=6):
        """a rendering of the expression, for reports"""
        if depth < 0:
            return '…'
        k, c, d = self.k, self.c, self.d
        t = lambda i: c[i].text(depth - 1) if i < len(c) and c[i] is not None else ''
        if k == 'ref':
            return d['n']
        if k == 'mem':
            b = t(0)
            return d['n'] if b == 'this' else b + ('->' if d.get('arrow') else '.') + d['n']
        if k == 'this':
            return 'this'
        if k == 'lit':
            return json.dumps(d.get('v'))
        if k in ('bin', 'assign'):
            return '%s %s %s' % (t(0), d['op'], t(1))
        if k == 'un':
            return (t(0) + d['op']) if d.get('post') else d['op'] + t(0)
        if k == 'call':
            op = d.get('op')
            if op:
                if op in ('()', '[]'):
                    return '%s%s%s%s' % (t(0), op[0], ', '.join(t(i) for i in range(1, len(c))), op[1])
                if op == '->':
                    return t(0)
                if len(c) == 2:
                    return '%s %s %s' % (t(0), op, t(1))
                return op + t(0)
            n = d.get('n', '?')
            if d.get('obj'):
                b = t(0)
                return (n if b == 'this' else b + '.' + n) + '(' + ', '.join(t(i) for i in range(1, len(c))) + ')'
            return n + '(' + ', '.join(t(i) for i in range(len(c))) + ')'
        if k == 'ctor':
            return d.get('n', '') + '(' + ', '.join(t(i) for i in range(len(c))) + ')'
        if k == 'idx':
            return '%s[%s]' % (t(0), t(1))
        if k == 'cast':
            return t(0)
        if k == 'return':
            return 'return ' + t(0)
        return k


class Fn:
    def __init__(self, d, types, unit):
        self.d = d
        self.unit = unit
        self.types = types
        self.q = d['q']
        self.fq = d['fq']
        self.n = d['n']
        self.u = d['u']
        self.cls = d.get('cls')
        self.fcls = d.get('fcls')
        self.file = d['file']
        self.line = d['line']
        self.kind = d['kind']
        self.params = d['params']
        self.pm = d.get('pm', '')
        self.over = d.get('over', [])
        self.const = d.get('const', False)
        self._nodes = None
        self._cfg = None

    @property
    def nodes(self):
        if self._nodes is None:
            ns = [Node(self, i, x) for i, x in enumerate(self.d['nodes'])]
            for n in ns:
                n.c = [ns[i] if i is not None and i >= 0 else None for i in n.d.get('c', [])]
            self._nodes = ns
        return self._nodes

    def node(self, i):
        return self.nodes[i] if i is not None and i >= 0 else None

    @property
    def body(self):
        return self.node(self.d['body'])

    @property
    def inits(self):
        return self.d.get('inits', [])

    def ptype(self, i):
        return self.types[self.params[i]['t']]

    @property
    def ret(self):
        return self.types[self.d['ret']]

    def walk(self):
        """all nodes of the body and of the constructor initialisers"""
        for i in self.inits:
            n = self.node(i['e'])
            if n:
                yield from n.walk()
        yield from self.body.walk()

    @property
    def rel(self):
        return os.path.relpath(self.file, REPO) if self.file.startswith(REPO) else self.file

    def where(self, line=None):
        return '%s:%d' % (self.rel, line or self.line)

    def __repr__(self):
        return '<Fn %s %s>' % (self.fq, self.where())


class Cls:
    def __init__(self, d, types):
        self.d = d
        self.q = d['q']
        self.fq = d['fq']
        self.u = d['u']
        self.file = d['file']
        self.line = d['line']
        self.bases = d['bases']
        self.types = types
        self.fields = d['fields']
        self.methods = d['methods']
        self.abstract = d.get('abstract', False)

    def ftype(self, f):
        return self.types[f['t']]

    @property
    def rel(self):
        return os.path.relpath(self.file, REPO) if self.file.startswith(REPO) else self.file

    def __repr__(self):
        return '<Cls %s>' % self.fq


class Program:
    def __init__(self):
        self.fns = {}        # usr -> Fn
        self.classes = {}    # fq -> Cls
        self.globals = {}
        self.units = []
        self.over_up = {}    # usr of method -> usrs of directly overridden methods
        self.files = set()

    def add(self, d, name):
        types = [Ty(t) for t in d['types']]
        self.units.append(name)
        for f in d['functions']:
            u = f['u'] or f['fq'] + ':' + str(f['line'])
            if f.get('internal'):
                u = u + '@' + f['file']
            if u in self.fns:
                continue
            fn = Fn(f, types, name)
            self.fns[u] = fn
            if u != f['u']:
                self.fns.setdefault(f['u'], fn)
            self.files.add(fn.file)
            if fn.over:
                self.over_up.setdefault(fn.u, set()).update(fn.over)
        for c in d['classes']:
            cl = self.classes.get(c['fq'])
            if cl is None:
                cl = Cls(c, types)
                self.classes[c['fq']] = cl
            for m in c['methods']:
                if m.get('over'):
                    self.over_up.setdefault(m['u'], set()).update(m['over'])
        for g in d['globals']:
            self.globals.setdefault(g['q'], (g, types))

    # -- queries
    def functions(self):
        seen = set()
        for f in self.fns.values():
            if id(f) not in seen:
                seen.add(id(f))
                yield f

    def named(self, q):
        """functions by qualified name without template arguments"""
        return [f for f in self.functions() if f.q == q]

    def classes_named(self, q):
        return [c for c in self.classes.values() if c.q == q]

    def cls(self, q):
        c = self.classes_named(q)
        if not c:
            raise AnalysisBroken('class %s is not in the parsed sources' % q)
        return c[0]

    def bases(self, fq, acc=None):
        """fq and all its bases, most derived first"""
        acc = [] if acc is None else acc
        if fq in acc:
            return acc
        acc.append(fq)
        c = self.classes.get(fq)
        if c:
            for b in c.bases:
                self.bases(b.get('fq', b['q']), acc)
        return acc

    def derives(self, c, base):
        """does class c (Cls) derive from the class named base (no template args)?"""
        for fq in self.bases(c.fq):
            if fq == c.fq:
                continue
            b = self.classes.get(fq)
            if (b.q if b else fq.split('<')[0]) == base:
                return True
        return False

    def subclasses(self, base):
        return [c for c in self.classes.values() if self.derives(c, base)]

    def all_over(self, u):
        """all usrs that u overrides, transitively, with u"""
        seen = set()
        todo = [u]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            todo += list(self.over_up.get(x, ()))
        return seen

    def final_overrider(self, fq, u):
        """the body that runs when the virtual method u is called on an object of dynamic class fq"""
        for b in self.bases(fq):
            c = self.classes.get(b)
            if not c:
                continue
            for m in c.methods:
                mu = m.get('u')
                if mu and u in self.all_over(mu):
                    f = self.fns.get(mu)
                    return f if f else None
        return None

    def method(self, fq, name, np=None, const=None):
        """first definition of a method of that name along the bases of fq"""
        for b in self.bases(fq):
            c = self.classes.get(b)
            if not c:
                continue
            for m in c.methods:
                if m.get('n') == name and (np is None or m.get('np') == np) and \
                        (const is None or m.get('const', False) == const):
                    f = self.fns.get(m.get('u'))
                    if f:
                        return f
        return None


def load(*groups, python=False, need_ok=True):
    """Program with the facts of the named groups (unit errors: see below)."""
    jobs = []
    for g in groups:
        for i, unit in enumerate(GROUPS[g]):
            files = expand(unit)
            if not files:
                raise AnalysisBroken('no source matches %s' % unit)
            jobs.append((g, files, EXTRA_FLAGS.get(g) == 'python' or g.startswith('py')))
    prog = Program()
    tool_path()
    with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
        res = list(ex.map(lambda j: _run(j[1], j[2]), jobs))
        # a unity unit that does not parse as one is parsed file by file
        redo = [(j, f) for j, r in zip(jobs, res) if 'error' in r for f in j[1]]
        if redo:
            res2 = list(ex.map(lambda jf: _run([jf[1]], jf[0][2]), redo))
            for (j, f), r in zip(redo, res2):
                if 'error' in r:
                    raise AnalysisBroken('%s does not parse:\n%s' % (f, r['error']))
                prog.add(r, f)
    for j, r in zip(jobs, res):
        if 'error' not in r:
            prog.add(r, j[0])
    return prog
