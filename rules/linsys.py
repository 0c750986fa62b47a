"""aslam_backend: Jacobian containers, sparse matrices and the linear systems of the optimisers."""
import itertools
import re
import facts
import calc
import engine
import exprs
import spline
import splinex
from calc import Mat, Box, Obj, Ptr, Seq, S, UNK, Stop, const, mat
from alg import *
from exprs import Ex, plain, members

from jac import prove

A = 'aslam::backend::'


class Map(Seq):
    """a std::map or std::set; its items lie in the order of their keys"""

    def __init__(self, items, cls):
        super().__init__(items)
        self.cls = cls


class At(Ptr):
    """an iterator that stays with its element"""

    def __init__(self, m, node):
        self.m, self.to, self.node = m, m.a, node

    @property
    def off(self):
        for i, x in enumerate(self.m.a):
            if x is self.node:
                return i
        if self.node is not None:
            raise Stop('an iterator to an erased element')
        return len(self.m.a)


class Job:
    """a function with bound arguments"""

    def __init__(self, f, args):
        self.f, self.args = f, args


class Member:
    def __init__(self, u):
        self.u = u


class Hole:
    def __init__(self, i):
        self.i = i


class Lx(Ex):
    abs_forks = True
    anything = False             # the outcomes of all comparisons are free
    deferred = False         # when the threads run: at their creation, or at the end, the last first

    def __init__(self, prog, path):
        super().__init__(prog, path)
        self.threads = []
        self.jacobians = {}
        self.log = []
        self.handed, self.made, self.freed, self.wrong = [], [], [], []

    # ------------------------------------------------------------- containers
    def uninit(self, ty):
        r = (ty.r or '').replace('const ', '', 1) if (ty.r or '').startswith('const ') else ty.r or ''
        if r.startswith('std::map<'):
            return Map([], r)
        return super().uninit(ty)

    def elem(self, ty):
        ty = ty.strip()
        if ty.startswith('std::map<'):
            return Map([], ty)
        if 'exception_ptr' in ty or ty.endswith('*'):
            return Box(False)
        if ty in self.prog.classes:
            f = [g for g in members(self.prog, ty, plain(ty).split('::')[-1]) if g.kind == 'ctor' and not g.params]
            if f and f[0].body is not None:
                return self.make(f[0], [])
            self.nobj = getattr(self, 'nobj', 0) + 1
            return Obj(ty, ('obj%d' % self.nobj,))
        return super().elem(ty)

    def eigen(self, n, nm, op, m, a):
        r = super().eigen(n, nm, op, m, a)
        if nm in ('resize', 'conservativeResize') and m.known:
            # what was there before is anything at all
            for row in m.c:
                for b in row:
                    if b.v is UNK:
                        self.ngarbage = getattr(self, 'ngarbage', 0) + 1
                        b.v = self.sym('garbage', self.ngarbage)
        return r

    def copy(self, x):
        x = self.rv(x)
        if isinstance(x, Map):
            return Map([self.copy(v) if isinstance(v, Obj) else self.copybox(v) for v in x.a], x.cls)
        return super().copy(x)

    def copybox(self, v):
        c = self.copy(v)
        return c if isinstance(c, (Map, Mat, Obj)) else Box(c)

    def less(self, m, a, b):
        """the order of the keys of a map"""
        t = [x.strip() for x in engine.targs(m.cls)]
        c = t[2] if len(t) > 2 else ''
        if c and not c.startswith('std::less'):
            f = [g for g in members(self.prog, c, 'operator()') if g.body is not None]
            if not f:
                raise Stop('no order')
            r = self.truth(self.rv(self.call(f[0], Obj(c, ('cmp',)), [Box(a), Box(b)])))
            return r
        if isinstance(a, int) and isinstance(b, int):
            return a < b
        raise Stop('keys without an order')

    def where(self, m, key):
        """(index, found)"""
        for i, x in enumerate(m.a):
            k = self.rv(x.f['first'])
            if self.less(m, k, key):
                continue
            return i, not self.less(m, key, k)
        return len(m.a), False

    def entry(self, m, key, val):
        o = self.pair(key, UNK)
        o.f['second'] = val
        return o

    def default(self, m):
        t = [x.strip() for x in engine.targs(m.cls)][1]
        if t.startswith('Eigen::Matrix<'):
            a, b = engine.dims(t)
            return calc.mfun(a or 0, b or 0, lambda i, j: UNK) if a is None or b is None else calc.mfun(a, b, lambda i, j: UNK)
        return self.elem(t)

    def map_method(self, n, nm, op, m, args):
        if nm in ('begin', 'cbegin'):
            return At(m, m.a[0] if m.a else None)
        if nm in ('end', 'cend'):
            return At(m, None)
        if nm == 'size':
            return len(m.a)
        if nm == 'empty':
            return not m.a
        if nm == 'clear':
            del m.a[:]
            return None
        if nm in ('find', 'count', 'operator[]', 'at', 'lower_bound', 'upper_bound') and len(args) == 1:
            key = self.rv(args[0])
            i, found = self.where(m, key)
            if nm == 'find':
                return At(m, m.a[i] if found else None)
            if nm == 'count':
                return int(found)
            if nm == 'lower_bound':
                return At(m, m.a[i] if i < len(m.a) else None)
            if nm == 'upper_bound':
                i += found
                return At(m, m.a[i] if i < len(m.a) else None)
            if not found:
                if nm == 'at':
                    raise Stop('throws')
                m.a.insert(i, self.entry(m, key, self.default(m)))
            return m.a[i].f['second']
        if nm == 'insert' and args:
            v = self.rv(args[-1])
            if len(args) == 2 and isinstance(self.rv(args[0]), Ptr) and isinstance(v, Ptr):
                src = [v.to[j] for j in range(self.rv(args[0]).off, v.off)]
                for x in src:
                    i, found = self.where(m, self.rv(x.f['first']))
                    if not found:
                        m.a.insert(i, self.copy(x))
                return None
            if isinstance(v, Obj) and 'first' in v.f:
                key = self.rv(v.f['first'])
                i, found = self.where(m, key)
                if not found:
                    m.a.insert(i, self.entry(m, key, self.copybox(v.f['second'])))
                it = At(m, m.a[i])
                return it if len(args) == 2 else self.pair(it, not found)
        if nm in ('emplace', 'emplace_hint') and len(args) >= 2:
            a = args[-2:]
            key = self.rv(a[0])
            i, found = self.where(m, key)
            if not found:
                m.a.insert(i, self.entry(m, key, self.copybox(a[1])))
            it = At(m, m.a[i])
            return it if nm == 'emplace_hint' else self.pair(it, not found)
        if nm == 'erase' and len(args) == 1:
            v = self.rv(args[0])
            if isinstance(v, At) and v.node is not None:
                i = v.off
                del m.a[i]
                return At(m, m.a[i] if i < len(m.a) else None)
            if not isinstance(v, Ptr) or not isinstance(v.to, list):
                i, found = self.where(m, v)
                if found:
                    del m.a[i]
                return int(found)
        if op == '=' and len(args) == 1 and isinstance(self.rv(args[0]), Map):
            m.a[:] = self.copy(args[0]).a
            return m
        return UNK

    # ------------------------------------------------------------ expressions
    def ev_ctor(self, n):
        r = exprs.bare(n.type.r or '')
        kids = [c for c in n.c if c is not None and c.k != 'defarg']
        if r.startswith('std::map<'):
            v = self.rv(self.ev(kids[0])) if kids else None
            return self.copy(v) if isinstance(v, Map) else Map([], r)
        if r.startswith('std::basic_string<') and kids:
            v = self.rv(self.ev(kids[0]))
            return v if isinstance(v, str) else UNK
        if r.startswith('std::pair<') and len(kids) == 1:
            v = self.rv(self.ev(kids[0]))
            if isinstance(v, Obj) and 'first' in v.f:
                return self.pair(v.f['first'], v.f['second'])
            return UNK
        if r.startswith(('boost::function<', 'std::function<', 'boost::_bi::bind_t<', 'std::_Bind<')):
            return self.rv(self.ev(kids[0])) if kids else UNK
        if r.startswith(('boost::reference_wrapper<', 'std::reference_wrapper<')) and kids:
            return self.ev(kids[0])
        if r.startswith('boost::arg<') or r.startswith('std::_Placeholder<'):
            return Hole(int(re.search(r'<(\d+)>', r).group(1)))
        if '_iterator<' in r and kids:
            v = self.rv(self.ev(kids[0]))
            if isinstance(v, Ptr):
                return v
        if r.startswith('std::vector<') and len(kids) == 2 and all('allocator' not in (c.type.r or '') for c in kids):
            a = [self.rv(self.ev(c)) for c in kids]
            if all(isinstance(x, Ptr) and isinstance(x.to, list) for x in a) and a[0].to is a[1].to:
                return Seq([self.copybox(x) for x in a[0].to[a[0].off:a[1].off]])
        return super().ev_ctor(n)

    def ex_switch(self, n):
        c = self.rv(self.ev(n.c[0]))
        body = n.c[1]
        if not isinstance(c, int) or isinstance(c, bool) or body is None or body.k != 'block':
            raise Stop('switch')
        steps, at, other = [], None, None
        for x in body.c:
            while x is not None and x.k in ('case', 'default'):
                if x.k == 'default':
                    other = len(steps)
                else:
                    v = x.get('v') if x.get('v') is not None else self.rv(self.ev(x.c[0]))
                    if not isinstance(v, int):
                        raise Stop('switch')
                    if v == c and at is None:
                        at = len(steps)
                x = x.c[-1]
            steps.append(x)
        at = other if at is None else at
        if at is None:
            return
        try:
            for x in steps[at:]:
                self.ex(x)
        except calc.Break:
            pass

    def arith(self, op, a, b, *more):
        x, y = self.rv(a), self.rv(b)
        if op in ('==', '!=') and isinstance(x, str) and isinstance(y, str):
            return (x == y) == (op == '==')
        return super().arith(op, a, b, *more)

    def ev_mem(self, n):
        r = super().ev_mem(n)
        if r is UNK and not n.get('fn') and n.get('arrow') and n.c and n.c[0] is not None and n.c[0].k in ('ref', 'mem'):
            v = self.rv(self.ev(n.c[0]))
            if isinstance(v, (bool, int)) and not v:
                raise Stop('outside of a picture')
        return r

    def ev_sizeof(self, n):
        return n.get('cv', n.get('v', UNK))

    def ev_ref(self, n):
        if n.get('dk') == 'fn' and n.get('u'):
            return Member(n.get('u'))
        if n.get('dk') == 'global':
            m = re.match(r'(?:const )?(?:boost::arg|std::_Placeholder)<(\d+)>', n.type.r or '')
            if m:
                return Hole(int(m.group(1)))
        return super().ev_ref(n)

    def ev_un(self, n):
        if n.get('op') == '&' and n.c and n.c[0] is not None and n.c[0].k in ('ref', 'mem') and n.c[0].get('dk') == 'fn':
            return Member(n.c[0].get('u'))
        if n.get('op') == '&' and n.c and n.c[0] is not None and n.c[0].k == 'call' and n.c[0].get('op') in ('[]', '()') and len(n.c[0].c) in (2, 3) and not self.user(n.c[0]):
            e = n.c[0]
            m = self.rv(self.ev(e.c[0]))
            i = [self.rv(self.ev(c)) for c in e.c[1:]]
            if all(isinstance(x, int) for x in i):
                if isinstance(m, Seq) and not isinstance(m, Map) and len(i) == 1:
                    if not 0 <= i[0] <= len(m.a):
                        self.outside = self.fn
                        raise Stop('outside of a picture')
                    return Ptr(m.a, i[0])
                if isinstance(m, Mat) and m.known and (len(i) == 2 or 1 in (m.rows, m.cols)):
                    fl, at = calc.storage(m, e.c[0])
                    return Ptr(fl, i[0] if len(i) == 1 else at(*i))
        return super().ev_un(n)

    def ev_call(self, n):
        op = n.get('op')
        kids = n.c
        if op in ('++', '--') and kids and kids[0] is not None and '_iterator<' in (kids[0].type.r or ''):
            t = self.ev(kids[0])
            v = self.rv(t)
            if isinstance(v, At):
                i = v.off + (1 if op == '++' else -1)
                if not 0 <= i <= len(v.m.a):
                    raise Stop('iterator outside of the map')
                w = At(v.m, v.m.a[i] if i < len(v.m.a) else None)
                if isinstance(t, Box):
                    t.v = w
                return v if len(kids) > 1 else t
        if n.get('cal') is not None and not n.get('u') and kids:
            c = n.fn.node(n['cal'])
            while c is not None and c.k not in ('bin', 'call') and c.c:
                c = c.c[0]
            if c is not None and c.k == 'bin' and c.get('op') in ('->*', '.*'):
                o, f = self.rv(self.ev(c.c[0])), self.rv(self.ev(c.c[1]))
                return self.run(f, [o] + [self.ev(x) for x in (kids[1:] if n.get('obj') else kids)])
        if kids and kids[0] is not None and kids[0].k == 'bin' and kids[0].get('op') in ('->*', '.*'):
            o, f = self.rv(self.ev(kids[0].c[0])), self.rv(self.ev(kids[0].c[1]))
            return self.run(f, [o] + [self.ev(c) for c in kids[1:]])
        return super().ev_call(n)

    def run(self, f, args):
        """calls what can be called"""
        f = self.rv(f)
        if isinstance(f, Ptr):
            f = self.rv(self.deref(f))
        if isinstance(f, Job):
            a = []
            for x in f.args:
                h = self.rv(x)
                a.append(args[h.i - 1] if isinstance(h, Hole) and h.i <= len(args) else x)
            return self.run(f.f, a)
        if isinstance(f, Member):
            g = self.prog.fns.get(f.u)
            if g is None:
                raise Stop('a function without a body')
            if g.fcls and g.kind not in ('fn', 'function'):
                o = self.rv(args[0])
                o = self.rv(self.deref(o)) if isinstance(o, Ptr) else o
                if not isinstance(o, Obj):
                    raise Stop('a member function of something unknown')
                h = self.prog.final_overrider(o.cls, g.u) if o.cls in self.prog.classes else None
                h = h if h is not None and h.body is not None else g
                return self.call(h, o, list(args[1:]))
            return self.call(g, None, list(args))
        if isinstance(f, calc.Fn):
            return self.run_lambda(f, list(args))
        if isinstance(f, Obj):
            return self.method(f, 'operator()', *args)
        raise Stop('a call of something unknown')

    def frame(self, f, args):
        """a thread does not see the locals of its creator"""
        save = (getattr(self, 'env', None), getattr(self, 'this', None), getattr(self, 'fn', None))
        try:
            return self.run(f, args)
        finally:
            self.env, self.this, self.fn = save

    # ------------------------------------------------------------------ calls
    def on_call(self, n, recv, args):
        nm, cls, op = n.get('n'), str(n.get('fcls')), n.get('op')
        m = self.rv(recv) if recv is not None else None
        if isinstance(m, Ptr) and not isinstance(m, At) and not isinstance(m.to, list):
            m = self.rv(self.deref(m))
        if isinstance(m, Map):
            return self.map_method(n, nm, op, m, args)
        if nm == 'bind' and recv is None and args:
            return Job(self.rv(args[0]), [Box(self.rv(x)) if not isinstance(self.rv(x), (Obj, Mat)) else x for x in args[1:]])
        if nm in ('ref', 'cref') and recv is None and len(args) == 1:
            return args[0]
        if isinstance(m, (Job, Member)) or op == '()' and isinstance(m, calc.Fn):
            if op == '()' or nm == 'operator()':
                return self.run(m, args)
            if nm in ('empty',):
                return False
        if cls in ('boost::thread_group',):
            if nm == 'create_thread':
                self.threads.append(self.own(args[0]))
                if not self.deferred:
                    self.frame(self.threads.pop(), [])
                return UNK
            if nm == 'join_all':
                while self.threads:
                    self.frame(self.threads.pop(), [])
                return None
        if nm == 'memcpy' and len(args) == 3:
            d, s, b = [self.rv(x) for x in args]
            d, s = self.memory(d), self.memory(s)
            if d is None or s is None or not isinstance(b, int) or b % 8:
                raise Stop('memory of an unknown kind')
            if d[1] + b // 8 > len(d[0]) or s[1] + b // 8 > len(s[0]):
                self.outside = self.fn
                raise Stop('outside of a picture')
            for i, v in enumerate([x.v for x in s[0][s[1]:s[1] + b // 8]]):
                d[0][d[1] + i].v = v
            return UNK
        if nm == 'lower_bound' and recv is None and len(args) == 3:
            a = [self.rv(x) for x in args]
            if isinstance(a[0], Ptr) and isinstance(a[1], Ptr) and isinstance(a[0].to, list) and a[0].to is a[1].to and isinstance(self.num(a[2]), int):
                a[2] = self.num(a[2])
                for i in range(a[0].off, a[1].off):
                    v = self.rv(a[0].to[i])
                    if not isinstance(v, int):
                        return UNK
                    if v >= a[2]:
                        return Ptr(a[0].to, i)
                return Ptr(a[0].to, a[1].off)
        if nm == 'sort' and recv is None and len(args) == 3:
            a = [self.rv(x) for x in args]
            if all(isinstance(x, Ptr) and isinstance(x.to, list) and x.to is a[0].to for x in a[:2]):
                import functools
                part = a[0].to[a[0].off:a[1].off]
                lt = lambda x, y: self.truth(self.rv(self.run(a[2], [x, y])))
                a[0].to[a[0].off:a[1].off] = sorted(part, key=functools.cmp_to_key(lambda x, y: -1 if lt(x, y) else 1 if lt(y, x) else 0))
                return None
        if nm == 'partial_sum' and recv is None and len(args) == 3:
            a = [self.rv(x) for x in args]
            if all(isinstance(x, Ptr) and isinstance(x.to, list) for x in a) and a[0].to is a[1].to:
                s = 0
                out = []
                for x in a[0].to[a[0].off:a[1].off]:
                    s = self.arith('+', s, self.rv(x))
                    out.append(s)
                for i, s in enumerate(out):
                    a[2].to[a[2].off + i].v = s
                return UNK
        if nm == 'accumulate' and recv is None and len(args) == 3:
            a = [self.rv(x) for x in args]
            if all(isinstance(x, Ptr) and isinstance(x.to, list) for x in a[:2]) and a[0].to is a[1].to:
                s = a[2]
                for x in a[0].to[a[0].off:a[1].off]:
                    s = self.arith('+', s, self.rv(x))
                return s
        if isinstance(m, Seq):
            if nm == 'assign' and len(args) == 2 and isinstance(self.rv(args[0]), int):
                m.a[:] = [self.copybox(args[1]) for _ in range(self.rv(args[0]))]
                return None
            if nm == 'size':
                return len(m.a)
            if op == '[]' and args and isinstance(self.rv(args[0]), int) and not 0 <= self.rv(args[0]) < len(m.a):
                self.outside = self.fn
                raise Stop('outside of a picture')
        if isinstance(m, Mat) and nm in ('colPivHouseholderQr', 'fullPivHouseholderQr', 'householderQr') and not args:
            q = Obj('Eigen::QR', ('qr',))
            q.of = nums(self.copy(m)), nm
            return q
        if isinstance(m, Obj) and m.path == ('qr',) and nm == 'solve' and len(args) == 1:
            if m.of[1] == 'householderQr':
                self.wrong.append('a decomposition without pivoting')
            self.handed.append((m.of[0], nums(self.rv(args[0]))))
            return mat(column([self.sym('x', i) for i in range(len(m.of[0][0]))]))
        if recv is None and nm and (nm.startswith('cholmod_') or nm.startswith('SuiteSparseQR')):
            r = self.library(nm, args)
            if r is not NotImplemented:
                return r
        if cls.startswith('aslam_sparse_block_matrix::LinearSolver') or isinstance(m, Obj) and str(m.cls).startswith('aslam_sparse_block_matrix::LinearSolver'):
            if nm == 'init':
                return True
            if nm == 'solve' and len(args) == 3:
                H = self.as_obj(args[0])
                b = self.rv(args[2])
                x = self.rv(args[1])
                n = sum(self.rv(v.f['dim']) for v in self.active)
                self.handed.append((nums(self.method(H, 'toDense')), [[v.v] for v in b.to[b.off:b.off + n]]))
                if self.fail:
                    return False
                for i in range(n):
                    x.to[x.off + i].v = self.sym('x', i)
                return True
        o = m
        if isinstance(o, Obj) and o.path and o.path[0] == 'dv':
            if nm in ('minimalDimensions', 'minimalDimensionsImplementation'):
                return self.rv(o.f['dim'])
            if nm == 'update' and len(args) == 2:
                p, n = self.rv(args[0]), self.rv(args[1])
                if not isinstance(p, Ptr) or not isinstance(p.to, list) or not isinstance(n, int) or p.off + n > len(p.to):
                    raise Stop('outside of a picture')
                self.log.append(('update', o.path[1], [x.v for x in p.to[p.off:p.off + n]]))
                return None
            if nm == 'revertUpdate':
                self.log.append(('revert', o.path[1]))
                return None
        if isinstance(o, Obj) and o.path == ('problem',):
            if nm == 'numDesignVariables':
                return len(self.dvs)
            if nm == 'numErrorTerms':
                return len(self.terms)
            if nm in ('designVariable', 'errorTerm') and isinstance(self.rv(args[0]), int):
                l, i = self.dvs if nm == 'designVariable' else self.terms, self.rv(args[0])
                if not 0 <= i < len(l):
                    raise Stop('outside of a picture')
                return Ptr(l[i])
        if isinstance(o, Obj) and o.path == ('policy',) and nm == 'requiresAugmentedDiagonal':
            return True
        if nm in ('initializeLinearSolver', 'initializeTrustRegionPolicy'):
            return None
        if nm == 'initMatrixStructure' and isinstance(o, Obj) and o.path == ('solver',):
            self.log.append(('structure', [self.as_obj(x.v).path[1] for x in self.rv(args[0]).a], [self.as_obj(x.v).path[1] for x in self.rv(args[1]).a], self.truth(self.rv(args[2]))))
            return None
        if isinstance(o, Obj) and o.path and o.path[0] == 'term':
            r = self.term(o, nm, args)
            if r is not NotImplemented:
                return r
        return super().on_call(n, recv, args)

    def num(self, x):
        return int(x.q) if isinstance(x, S) and x.q is not None and x.q == int(x.q) else x

    def own(self, x):
        x = self.rv(x)
        return x

    def memory(self, p):
        if isinstance(p, Ptr) and isinstance(p.to, list):
            return p.to, p.off
        return None

    # ------------------------------------------------ the libraries of matrices
    fail = False
    norm = False

    def plainly(self, p):
        """the struct a pointer to it, or the name of it, stands for"""
        v = self.rv(p)
        if isinstance(v, Ptr):
            v = self.rv(self.deref(v))
            if isinstance(v, Ptr):
                v = self.rv(self.deref(v))
        if not isinstance(v, Obj):
            raise Stop('a matrix of an unknown kind')
        return v

    def field(self, o, f):
        v = self.rv(o.f.get(f, UNK))
        return v

    def unpack(self, A):
        """(pattern, entries) of a sparse matrix of the library"""
        rows, cols = self.field(A, 'nrow'), self.field(A, 'ncol')
        p, i, x = [self.field(A, f) for f in 'pix']
        if not (isinstance(rows, int) and isinstance(cols, int) and all(isinstance(v, Ptr) and isinstance(v.to, list) for v in (p, i, x))):
            raise Stop('a matrix of an unknown kind')
        D = [[const(0)] * cols for _ in range(rows)]
        pat = []
        at = lambda v, n: self.rv(v.to[v.off + n])
        for c in range(cols):
            for n in range(at(p, c), at(p, c + 1)):
                r = at(i, n)
                if not isinstance(r, int) or not 0 <= r < rows:
                    raise Stop('outside of a picture')
                D[r][c] = D[r][c] + at(x, n)
                pat.append((r, c))
        if at(p, cols) != self.field(A, 'nzmax') or len(set(pat)) != len(pat):
            self.wrong.append('the number of entries')
        return pat, D

    def packed(self, D, pat):
        o = Obj('cholmod_sparse_struct', ('obj', len(self.made)))
        rows, cols = len(D), len(D[0])
        ps, ns, xs = [Box(0)], [], []
        for c in range(cols):
            for r in range(rows):
                if (r, c) in pat:
                    ns.append(Box(r))
                    xs.append(Box(D[r][c]))
            ps.append(Box(len(ns)))
        nz = len(ns)
        # what lies behind the entries is anything at all
        xs += [Box(self.sym('behind', len(self.made), j)) for j in range(2 * nz)]
        o.f = {'nrow': Box(rows), 'ncol': Box(cols), 'nzmax': Box(len(ns)), 'p': Box(Ptr(ps)), 'i': Box(Ptr(ns)), 'x': Box(Ptr(xs)), 'stype': Box(0)}
        return self.given_out(o)

    def dense_struct(self, vals):
        o = Obj('cholmod_dense_struct', ('obj', len(self.made)))
        o.f = {'nrow': Box(len(vals)), 'ncol': Box(1), 'nzmax': Box(len(vals)), 'd': Box(len(vals)), 'x': Box(Ptr([Box(v) for v in vals])),
               'xtype': Box(1), 'dtype': Box(0), 'z': Box(0)}
        return self.given_out(o)

    def given_out(self, o):
        self.made.append(o)
        return o

    def vector(self, b):
        n, x = self.field(b, 'nrow'), self.field(b, 'x')
        if self.field(b, 'ncol') != 1 or not isinstance(n, int) or not isinstance(x, Ptr) or not isinstance(x.to, list) or x.off + n > len(x.to):
            raise Stop('outside of a picture')
        return [[v.v] for v in x.to[x.off:x.off + n]]

    def library(self, nm, args):
        nm = nm.replace('cholmod_l_', 'cholmod_')
        common = self.plainly(args[-1]) if args and nm != 'cholmod_version' else None
        status = lambda v: common.f.__setitem__('status', Box(v))
        if nm in ('cholmod_start', 'cholmod_finish'):
            status(0)
            return 1
        if nm == 'cholmod_analyze':
            pat, D = self.unpack(self.plainly(args[0]))
            o = Obj('cholmod_factor_struct', ('obj', len(self.made)))
            o.pattern = pat, len(D)
            status(0)
            return Ptr(self.given_out(o))
        if nm == 'SuiteSparseQR_symbolic':
            pat, D = self.unpack(self.plainly(args[2]))
            o = Obj('SuiteSparseQR_factorization<double>', ('obj', len(self.made)))
            o.pattern = pat, len(D)
            status(0)
            return Ptr(self.given_out(o))
        if nm in ('cholmod_factorize', 'SuiteSparseQR_numeric'):
            A, L = [self.plainly(x) for x in (args[:2] if nm == 'cholmod_factorize' else args[1:3])]
            pat, D = self.unpack(A)
            if (pat, len(D)) != L.pattern:
                self.wrong.append('the factorisation is prepared for another structure')
            if L in self.freed:
                self.wrong.append('the factorisation is used although it was freed')
            L.of = D
            status(1 if self.fail else 0)
            return 1 if not self.fail or nm == 'cholmod_factorize' else 0
        if nm == 'cholmod_solve':
            L, b = self.plainly(args[1]), self.plainly(args[2])
            if self.rv(args[0]) != 0:
                self.wrong.append('another system is solved')
            self.handed.append((L.of, self.vector(b)))
            return Ptr(self.dense_struct([self.sym('x', i) for i in range(len(L.of))]))
        if nm == 'SuiteSparseQR_qmult':
            L, b = self.plainly(args[1]), self.plainly(args[2])
            if self.rv(args[0]) != 0:
                self.wrong.append('the right-hand side is not multiplied with Q^T')
            o = self.dense_struct([self.sym('q', i) for i in range(len(L.of))])
            o.rhs = self.vector(b)
            return Ptr(o)
        if nm == 'SuiteSparseQR_solve':
            L, y = self.plainly(args[1]), self.plainly(args[2])
            if self.rv(args[0]) != 1 or not hasattr(y, 'rhs'):
                self.wrong.append('another system is solved')
            self.handed.append((L.of, y.rhs))
            return Ptr(self.dense_struct([self.sym('x', i) for i in range(len(L.of[0]))]))
        if nm == 'cholmod_transpose':
            pat, D = self.unpack(self.plainly(args[0]))
            return Ptr(self.packed(tr(D), {(c, r) for r, c in pat}))
        if nm == 'cholmod_allocate_dense':
            n = self.rv(args[0])
            return Ptr(self.dense_struct([UNK] * n))
        if nm == 'cholmod_scale':
            S, A = self.plainly(args[0]), self.plainly(args[2])
            if self.rv(args[1]) != 2:
                self.wrong.append('not the columns are scaled')
            pat, D = self.unpack(A)
            v = self.vector(S)
            p, x = self.field(A, 'p'), self.field(A, 'x')
            self.scaled = ([r[0] for r in v], D)
            for c in range(len(D[0])):
                for n in range(self.rv(p.to[p.off + c]), self.rv(p.to[p.off + c + 1])):
                    b = x.to[x.off + n]
                    b.v = self.arith('*', b.v, v[c][0])
            return 1
        if nm in ('cholmod_free_dense', 'cholmod_free_sparse', 'cholmod_free_factor', 'SuiteSparseQR_free'):
            o = self.plainly(args[0])
            if o in self.freed or o not in self.made:
                self.wrong.append('freed twice')
            self.freed.append(o)
            return 1
        return NotImplemented

    # ------------------------------------------------------------------ terms
    def term(self, o, nm, args):
        t, rows = o.path[1], self.rv(o.f['rows'])
        if nm in ('dimension', 'getDimensionImplementation'):
            return rows
        if nm in ('evaluateError', 'evaluateErrorImplementation'):
            self.fresh_terms[t] = True
            self.log.append(('evaluated', t))
            return self.sym('squared', t)
        if nm == 'getWeightedError' and len(args) == 2:
            robust = self.rv(args[1])
            e = [self.sym('e', t, r, robust) if self.fresh_terms.get(t) else self.sym('stale', t, r) for r in range(rows)]
            self.store(args[0], mat(column(e)))
            return None
        if nm == 'getWeightedJacobians' and len(args) == 2:
            self.fill(o, self.as_obj(args[0]), self.rv(args[1]))
            return None
        if nm in ('buildHessian', 'buildHessianImplementation') and len(args) == 3:
            robust = self.rv(args[2])
            jc = self.make(self.W.one(A + 'JacobianContainer', 'JacobianContainer', 1), [Box(rows)])
            self.fill(o, jc, robust)
            e = mat(column([self.sym('e', t, r, robust) for r in range(rows)]))
            self.method(jc, 'evaluateHessian', e, mat(eye(rows)), self.as_obj(args[0]), args[1])
            return None
        return NotImplemented

    def as_obj(self, x):
        x = self.rv(x)
        return self.rv(self.deref(x)) if isinstance(x, Ptr) else x

    def fill(self, o, jc, robust):
        t, rows = o.path[1], self.rv(o.f['rows'])
        f = [g for g in members(self.prog, A + 'JacobianContainer', 'add') if g.body is not None and len(g.params) == 2][0]
        for n, j in enumerate(o.uses):
            dv = self.dvs[j]
            d = self.rv(dv.f['dim'])
            J = mat([[self.sym('J', t, n, r, c, robust) for c in range(d)] for r in range(rows)])
            self.call(f, jc, [Box(Ptr(dv)), J])

    # ---------------------------------------------------------------- problem
    def problem(self, W, dims, terms):
        """dims: (dimension, active) of the variables; terms: (rows, variables in the order of their Jacobians)"""
        self.W, self.fresh_terms = W, {}
        self.dvs, self.terms = [], []
        b = col = 0
        for j, (d, on) in enumerate(dims):
            o = Obj(A + 'DesignVariable', ('dv', j))
            o.f['dim'] = Box(d)
            self.method(o, 'setActive', Box(on))
            self.method(o, 'setBlockIndex', Box(b if on else -1))
            self.method(o, 'setColumnBase', Box(col if on else -1))
            self.method(o, 'setScaling', Box(const(1)))
            if on:
                b, col = b + 1, col + d
            self.dvs.append(o)
        self.cols = col
        row = 0
        for t, (rows, uses) in enumerate(terms):
            o = Obj(A + 'ErrorTerm', ('term', t))
            o.f['rows'], o.uses, o.base = Box(rows), uses, row
            self.method(o, 'setRowBase', Box(row))
            seen = []
            for j in uses:
                if j not in seen:
                    seen.append(j)
            o.f['_designVariables'] = Box(Seq([Box(Ptr(self.dvs[j])) for j in seen]))
            row += rows
            self.terms.append(o)
        self.rows = row
        self.active = [o for o, (d, on) in zip(self.dvs, dims) if on]
        return Box(Seq([Box(Ptr(o)) for o in self.active])), Box(Seq([Box(Ptr(o)) for o in self.terms]))

    def J(self, robust):
        """what the Jacobian is"""
        out = [[const(0)] * self.cols for _ in range(self.rows)]
        for o in self.terms:
            for n, j in enumerate(o.uses):
                dv = self.dvs[j]
                if dv not in self.active:
                    continue
                b = sum(self.rv(x.f['dim']) for x in self.active[:self.active.index(dv)])
                for r in range(self.rv(o.f['rows'])):
                    for c in range(self.rv(dv.f['dim'])):
                        out[o.base + r][b + c] = out[o.base + r][b + c] + self.sym('J', o.path[1], n, r, c, robust)
        return out

    def e(self, robust):
        return [[-self.sym('e', o.path[1], r, robust)] for o in self.terms for r in range(self.rv(o.f['rows']))]


class World(splinex.World):
    def __init__(self, ctx):
        spline.World.__init__(self, ctx, 'linsys backend', 'linsys')

    def law(self, key, f, what, body):
        def whole(k):
            try:
                return body(k)
            except Stop as e:
                if (e.why == 'throws' or e.why == 'outside of a picture') and (k.anything or not k.p.pos) and not k.p.vague:
                    return [('throws although everything is as it should be', False, True)]
                raise
        n = prove(self.ctx, key, f, what, 'linsys', whole, self.prog, cls=Lx)
        self.ctx.count('laws stated')
        self.ctx.count('laws decided' if n else 'laws not decided')
        if not n:
            self.ctx.sample('not decided: ' + key)
        self.ctx.fns.add(f.u)

    def ctor(self, cls, np):
        c = [g for g in members(self.prog, cls, plain(cls).split('::')[-1]) if g.kind == 'ctor' and g.body is not None and len(g.params) == np]
        c = [g for g in c if not g.params or plain(cls) not in (g.types[g.params[0]['t']].r or '').split('<')[0].split(' ')]
        return c[0] if c else None

    def one(self, cls, name, np):
        fs = [g for g in members(self.prog, cls, name) if g.body is not None and len(g.params) == np]
        self.ctx.need(fs, cls + '::' + name)
        return min(fs, key=lambda g: (len(g.u), g.u))


CCM = A + 'CompressedColumnMatrix<%s>'
KINDS = ('', 'long')


def given(k, r, c, name, holes=()):
    """a matrix with given entries, and zeros"""
    return [[const(0) if (i, j) in holes else k.sym(name, i, j) for j in range(c)] for i in range(r)]


def asM(rows):
    return mat(rows) if rows and rows[0] else Mat([], len(rows), 0)


def sparse(k, W, T, D, rows, cols):
    """a sparse matrix from given entries, built by its own function"""
    M = k.make(W.ctor(CCM % T, 0), [])
    # zeros are left out where the entry is the constant zero: filled without going through fromDense, which compares
    vals, ind, ptr = [], [], [0]
    for c in range(cols):
        for r in range(rows):
            v = D[r][c]
            if not (v.q is not None and v.q == 0):
                vals.append(Box(v))
                ind.append(Box(r))
        ptr.append(len(vals))
    M.f['_rows'], M.f['_cols'] = Box(rows), Box(cols)
    M.f['_values'], M.f['_row_ind'], M.f['_col_ptr'] = Box(Seq(vals)), Box(Seq(ind)), Box(Seq([Box(x) for x in ptr]))
    M.f['_hasDiagonalAppended'] = Box(False)
    return M


def dense(k, M):
    out = Mat(None)
    k.method(M, 'toDenseInto', out)
    return nums(out)


def column(v):
    return [[x] for x in v]


SHAPES = [(3, 4, {(0, 0), (2, 1), (1, 1), (0, 3)}), (2, 2, set()), (3, 2, {(0, 1), (1, 1), (2, 1)})]


def law_matrix(W):
    for T in KINDS:
        cls = CCM % T
        for si, (R, C, holes) in enumerate(SHAPES):
            tag = 'CompressedColumnMatrix<%s>' % (T or 'int')

            def base(k):
                D = given(k, R, C, 'm', holes)
                return D, sparse(k, W, T, D, R, C)

            def b(k):
                D, M = base(k)
                out = eq('toDense', dense(k, M), D)
                for r in range(R):
                    for c in range(C):
                        out += [('value', k.rv(k.method(M, 'value', Box(r), Box(c))), D[r][c])]
                x, y = k.invec('x', C), k.invec('y', R)
                o = Mat(None)
                k.method(M, 'rightMultiply', x, o)
                out += eq('rightMultiply is not M x', nums(o), mul(D, nums(x)))
                o = Mat(None)
                k.method(M, 'leftMultiply', y, o)
                out += eq('leftMultiply is not M^T y', nums(o), mul(tr(D), nums(y)))
                return out
            W.law('%s.products.%d' % (tag, si), W.one(cls, 'rightMultiply', 2), tag, b)

            def b(k):
                D, M = base(k)
                d = k.invec('d', R)
                k.method(M, 'pushDiagonalBlock', d)
                dd = nums(d)
                diag = [[dd[i][0] if i == j else const(0) for j in range(R)] for i in range(R)]
                out = eq('the matrix with a diagonal appended', dense(k, M), [D[i] + diag[i] for i in range(R)])
                out += [('cols', k.rv(k.method(M, 'cols')), R + C)]
                x, y = k.invec('x', C), k.invec('y', R)
                for nm, v, want in (('rightMultiply', x, mul(D, nums(x))), ('leftMultiply', y, mul(tr(D), nums(y)))):
                    o = Mat(None)
                    k.method(M, nm, v, o)
                    out += eq(nm + ' does not leave out the appended diagonal', nums(o), want)
                e = k.invec('e', R)
                k.method(M, 'updateDiagonalBlock', e)
                ee = nums(e)
                out += eq('the updated diagonal', dense(k, M), [D[i] + [ee[i][0] if i == j else const(0) for j in range(R)] for i in range(R)])
                k.method(M, 'updateConstantDiagonalBlock', Box(k.sym('c')))
                out += eq('the updated diagonal', dense(k, M), [D[i] + [k.sym('c') if i == j else const(0) for j in range(R)] for i in range(R)])
                k.method(M, 'popDiagonalBlock')
                out += eq('removing the diagonal does not give back the matrix', dense(k, M), D)
                out += [('cols', k.rv(k.method(M, 'cols')), C), ('entries', k.rv(k.method(M, 'nnz')), R * C - len(holes))]
                k.method(M, 'pushConstantDiagonalBlock', Box(k.sym('c')))
                out += eq('the constant diagonal', dense(k, M), [D[i] + [k.sym('c') if i == j else const(0) for j in range(R)] for i in range(R)])
                k.method(M, 'clear')
                out += [('the columns of a matrix cleared while a diagonal is appended', k.rv(k.method(M, 'cols')), C)]
                out += eq('a matrix cleared while a diagonal is appended', dense(k, M), [[const(0)] * C for _ in range(R)])
                return out
            W.law('%s.diagonal.%d' % (tag, si), W.one(cls, 'pushDiagonalBlock', 1), tag, b)


DIMS = [(2, True), (1, True), (2, False), (3, True)]
TERMS = [(2, [3, 0]), (1, [1, 2, 0]), (2, [0, 1, 0]), (1, [3, 2]), (1, [1, 3, 0])]


def law_container(W):
    cls = A + 'JacobianContainer'
    new = lambda k, rows: k.make(W.one(cls, 'JacobianContainer', 1), [Box(rows)])

    def b(k):
        k.problem(W, DIMS, [(2, [3, 0, 2, 3])])
        jc = new(k, 2)
        k.fill(k.terms[0], jc, False)
        want = [[x for x, dv in zip(r, '001333') if dv in '03'] for r in k.J(False)]
        out = [('the number of variables', k.rv(k.method(jc, 'numDesignVariables')), 2), ('the columns', k.rv(k.method(jc, 'cols')), 5), ('the rows', k.rv(k.method(jc, 'rows')), 2)]
        out += eq('the Jacobians side by side', nums(k.method(jc, 'asDenseMatrix')), want)
        for i, j in ((0, 0), (1, 3)):
            dv = k.rv(k.method(jc, 'designVariable', Box(i)))
            out.append(('design variable i', k.as_obj(dv) is k.dvs[j], True))
        out += eq('the Jacobian of a variable', nums(k.method(jc, 'Jacobian', Box(Ptr(k.dvs[3])))), [r[2:] for r in want])
        out += eq('the Jacobians in the columns of the problem', nums(k.method(jc, 'asDenseMatrix', Box(Seq([Box(2), Box(3), Box(6)])))), k.J(False))
        M = k.invec('m', 6)
        C = [[k.sym('C', i, j) for j in range(2)] for i in range(3)]
        k.method(jc, 'applyChainRule', mat(C))
        out += eq('the chain rule', nums(k.method(jc, 'asDenseMatrix')), mul(C, want))
        out.append(('the rows after the chain rule', k.rv(k.method(jc, 'rows')), 3))
        k.method(jc, 'reset', Box(1))
        out += [('the rows after reset', k.rv(k.method(jc, 'rows')), 1), ('the variables after reset', k.rv(k.method(jc, 'numDesignVariables')), 0)]
        return out
    W.law('JacobianContainer.add', W.one(cls, 'add', 2), 'JacobianContainer', b)

    add = W.one(cls, 'add', 1)
    for i, (l, r) in enumerate([([0], [1]), ([1], [0, 3]), ([0, 3], [1, 3]), ([0, 1, 3], [0, 1, 3]), ([], [1, 0]), ([3, 0], []), ([1, 3], [0]), ([0], [0, 1])]):
        def b(k):
            k.problem(W, DIMS, [(2, l), (2, r)])
            a, c = new(k, 2), new(k, 2)
            k.fill(k.terms[0], a, False)
            k.fill(k.terms[1], c, False)
            k.call(add, a, [c])
            J = k.J(False)
            want = [[x + y for x, y in zip(p, q)] for p, q in zip(J[:2], J[2:])]
            out = [('the number of variables', k.rv(k.method(a, 'numDesignVariables')), len(set(l + r)))]
            out += eq('the sum of two containers', nums(k.method(a, 'asDenseMatrix', Box(Seq([Box(2), Box(3), Box(6)])))), want)
            if r:
                out += eq('the added container stays as it is', nums(k.method(c, 'asDenseMatrix', Box(Seq([Box(2), Box(3), Box(6)])))), J[2:])
            return out
        W.law('JacobianContainer.merge.%d' % i, add, 'JacobianContainer', b)


def law_append(W):
    for T in KINDS:
        cls = CCM % T

        def b(k):
            k.problem(W, DIMS, TERMS)
            M = k.make(W.ctor(cls, 0), [])
            k.method(M, 'init', Box(6), Box(0), Box(30), Box(9))
            out = []
            for o in k.terms:
                jc = k.make(W.one(A + 'JacobianContainer', 'JacobianContainer', 1), [Box(k.rv(o.f['rows']))])
                k.fill(o, jc, False)
                k.method(M, 'appendJacobians', jc)
            out += eq('the appended Jacobians', dense(k, M), tr(k.J(False)))
            out += [('the rows', k.rv(k.method(M, 'rows')), 6), ('the columns', k.rv(k.method(M, 'cols')), k.rows)]
            J = k.J(False)
            for r in range(k.rows):
                for c in range(6):
                    out.append(('an entry', k.rv(k.method(M, 'value', Box(c), Box(r))), J[r][c]))
            k.method(M, 'clear')
            out += [('the entries of a cleared matrix', k.rv(k.method(M, 'nnz')), 0)]
            out += eq('a cleared matrix', dense(k, M), [[const(0)] * k.rows for _ in range(6)])
            return out
        W.law('CompressedColumnMatrix<%s>.append' % (T or 'int'), W.one(cls, 'appendJacobians', 1), 'CompressedColumnMatrix', b)


def law_errors(W):
    cls = A + 'LinearSystemSolver'
    f = W.one(cls, 'evaluateError', 2)
    for threads in (0, 1, 2, 3, 5, 8):
        for deferred in (False, True) if threads > 1 else (False,):
            for robust in (False, True) if threads < 3 else (False,):
                def b(k):
                    dv, et = k.problem(W, DIMS, TERMS)
                    k.deferred = deferred
                    o = new_solver(k, W, 'DenseQrLinearSystemSolver')
                    k.method(o, 'initMatrixStructure', dv, et, Box(False))
                    out = [('rows of the Jacobian', k.rv(k.method(o, 'JRows')), k.rows), ('columns of the Jacobian', k.rv(k.method(o, 'JCols')), k.cols)]
                    r = k.call(f, o, [Box(threads), Box(robust)])
                    out.append(('the sum of the squared errors', k.rv(r), total([k.sym('squared', t) for t in range(len(TERMS))])))
                    out += eq('the stacked errors', nums(k.method(o, 'e')), k.e(robust))
                    out.append(('the error terms are not evaluated once each', sorted(k.log), [('evaluated', t) for t in range(len(TERMS))]))
                    for again in (robust, not robust):
                        r = k.call(f, o, [Box(threads), Box(again)])
                        out.append(('the sum when asked again', k.rv(r), total([k.sym('squared', t) for t in range(len(TERMS))])))
                        out += eq('the stacked errors when asked again', nums(k.method(o, 'e')), k.e(again))
                    return out
                W.law('LinearSystemSolver.errors.%d%s%s' % (threads, 'd' if deferred else '', 'r' if robust else ''), f, 'LinearSystemSolver', b)


def new_solver(k, W, cls):
    n = {'BlockCholeskyLinearSystemSolver': 2}.get(cls, 1)
    fs = [g for g in members(W.prog, A + cls, cls) if g.kind == 'ctor' and g.body is not None and len(g.params) == n and 'PropertyTree' not in (g.types[g.params[0]['t']].r or '')]
    fs = [g for g in fs if cls not in (g.types[g.params[0]['t']].r or '')]
    if not fs:
        raise Stop('no constructor')
    g = fs[0]
    ty = g.types[g.params[-1]['t']]
    opt = Obj((ty.rp or ty.r or '').replace('const ', ''), ('options',))
    return k.make(g, [opt] if n == 1 else [Box('cholesky'), opt])


SOLVERS = ('DenseQrLinearSystemSolver', 'SparseCholeskyLinearSystemSolver', 'SparseQrLinearSystemSolver', 'BlockCholeskyLinearSystemSolver')


def stack(J, d):
    n = len(d)
    return J + [[d[i] if i == j else const(0) for j in range(n)] for i in range(n)]


def upper(H, dims):
    """the blocks on and above the diagonal"""
    b = [i for i, d in enumerate(dims) for _ in range(d)]
    return [[H[i][j] if b[i] <= b[j] else const(0) for j in range(len(H))] for i in range(len(H))]


def prepared(k, W, cls, diag, deferred, threads, robust, o=None, dims=DIMS, terms=TERMS):
    dv, et = k.problem(W, dims, terms)
    k.deferred = deferred
    o = o or new_solver(k, W, cls)
    if cls.startswith('SparseQ') and not k.norm:
        opt = o.f['_options']
        for f, v in (('colNorm', False), ('verbose', False)):
            opt.f[f] = Box(v)
        opt.f['qrTol'], opt.f['normTol'] = Box(k.sym('tol')), Box(k.sym('normTol'))
    k.method(o, 'initMatrixStructure', dv, et, Box(diag))
    k.method(o, 'evaluateError', Box(threads), Box(robust))
    k.method(o, 'buildSystem', Box(threads), Box(robust))
    return o


def asked(k, cls, J, e, d):
    """what the library has to be asked"""
    if cls.startswith('Dense'):
        return [stack(J, d) if d else J, e + [[const(0)] for _ in d or ()]]
    rhs = mul(tr(J), e)
    if cls.startswith('SparseC'):
        return [tr(stack(J, d) if d else J), rhs]
    if cls.startswith('SparseQ'):
        return [J, e]
    H = mul(tr(J), J)
    for i, x in enumerate(d or ()):
        H[i][i] = H[i][i] + x * x
    return [upper(H, [k.rv(v.f['dim']) for v in k.active]), rhs]


def inside(k, o, cls):
    """the matrix as it lies in the solver"""
    if cls.startswith('Dense'):
        return nums(k.method(o, 'getJacobian'))
    if cls.startswith('Block'):
        return nums(k.method(o.f['_H'].f['_M'], 'toDense'))
    return dense(k, o.f['_jacobianBuilder'].f['_J_transpose'])


def law_solvers(W):
    for cls in SOLVERS:
        build, solve = W.one(A + cls, 'buildSystem', 2), W.one(A + cls, 'solveSystem', 1)
        for threads, deferred, robust in ((1, False, False), (0, False, True), (2, False, False), (2, True, True), (3, True, False), (5, False, False), (8, True, False)):
            def b(k):
                o = prepared(k, W, cls, False, deferred, threads, robust)
                J, e = k.J(robust), k.e(robust)
                want = asked(k, cls, J, e, None)[0]
                out = eq('the matrix of the system', inside(k, o, cls), tr(J) if cls.startswith('SparseQ') else want)
                out += eq('the right-hand side is not J^T e', nums(k.method(o, 'rhs')), mul(tr(J), e))
                g = mul(J, mul(tr(J), e))
                if threads == 1:
                    out.append(('rhsJtJrhs', k.rv(k.method(o, 'rhsJtJrhs')), total([x[0] * x[0] for x in g])))
                # once more, with other numbers: nothing of the first may be left
                k.method(o, 'evaluateError', Box(threads), Box(not robust))
                k.method(o, 'buildSystem', Box(threads), Box(not robust))
                J, e = k.J(not robust), k.e(not robust)
                want = asked(k, cls, J, e, None)[0]
                out += eq('the matrix of the second system', inside(k, o, cls), tr(J) if cls.startswith('SparseQ') else want)
                out += eq('the right-hand side of the second system', nums(k.method(o, 'rhs')), mul(tr(J), e))
                return out
            W.law('%s.build.%d%s%s' % (cls, threads, 'd' if deferred else '', 'r' if robust else ''), build, cls, b)

        for diag in (False, True) if not cls.startswith('SparseQ') else (False,):
            def b(k):
                o = prepared(k, W, cls, diag, False, 1, False)
                J, e = k.J(False), k.e(False)
                out = []
                for n, name in enumerate(('first', 'second')):
                    d = None
                    if diag:
                        v = k.invec('d%d' % n, k.cols)
                        k.method(o, 'setConditioner', v)
                        d = [x[0] for x in nums(v)]
                    before = inside(k, o, cls)
                    x = Mat(None, None, 1)
                    r = k.truth(k.rv(k.method(o, 'solveSystem', x)))
                    out.append(('success is not reported', r, True))
                    out += eq('the %s solution is not what the library gives' % name, nums(x), [[k.sym('x', i)] for i in range(k.cols)])
                    A_, b_ = k.handed[-1]
                    want = asked(k, cls, J, e, d)
                    out += eq('the %s matrix to be factorised' % name, A_, want[0])
                    out += eq('the %s right-hand side' % name, b_, want[1])
                    out += eq('the matrix after solving', inside(k, o, cls), before)
                    out += eq('the errors after solving', nums(k.method(o, 'e')), e)
                out.append(('what the library is asked', k.wrong, []))
                out.append(('the solutions of the library are not freed', len([v for v in k.made if v not in k.freed and not v.cls.startswith(('cholmod_factor', 'SuiteSparseQR'))]), 0))
                if diag:
                    k.method(o, 'setConstantConditioner', Box(k.sym('c')))
                    x = Mat(None, None, 1)
                    k.method(o, 'solveSystem', x)
                    out += eq('the matrix with a constant conditioner', k.handed[-1][0], asked(k, cls, J, e, [k.sym('c')] * k.cols)[0])
                return out
            W.law('%s.solve%s' % (cls, '.diagonal' if diag else ''), solve, cls, b)

            def b(k):
                o = prepared(k, W, cls, diag, False, 1, False)
                x = Mat(None, None, 1)
                k.method(o, 'solveSystem', x)
                dims, terms = [(1, True), (2, True), (2, True)], [(2, [0, 1]), (3, [2, 1]), (1, [0, 2])]
                prepared(k, W, cls, diag, False, 2, True, o, dims, terms)
                d = None
                if diag:
                    v = k.invec('d', k.cols)
                    k.method(o, 'setConditioner', v)
                    d = [y[0] for y in nums(v)]
                out = [('success is not reported', k.truth(k.rv(k.method(o, 'solveSystem', x))), True)]
                out += eq('the solution of another problem', nums(x), [[k.sym('x', i)] for i in range(k.cols)])
                want = asked(k, cls, k.J(True), k.e(True), d)
                out += eq('the matrix of another problem', k.handed[-1][0], want[0])
                out += eq('the right-hand side of another problem', k.handed[-1][1], want[1])
                return out + [('what the library is asked', k.wrong, [])]
            W.law('%s.again%s' % (cls, '.diagonal' if diag else ''), solve, cls, b)

            if not cls.startswith('Dense'):
                def b(k):
                    o = prepared(k, W, cls, diag, False, 1, False)
                    d = None
                    if diag:
                        v = k.invec('d', k.cols)
                        k.method(o, 'setConditioner', v)
                        d = [y[0] for y in nums(v)]
                    before = inside(k, o, cls)
                    x = Mat(None, None, 1)
                    k.fail = True
                    out = [('failure is not reported', k.truth(k.rv(k.method(o, 'solveSystem', x))), False)]
                    out += eq('the matrix after a failure', inside(k, o, cls), before)
                    k.fail = False
                    out.append(('success after a failure', k.truth(k.rv(k.method(o, 'solveSystem', x))), True))
                    want = asked(k, cls, k.J(False), k.e(False), d)
                    out += eq('the matrix after a failure', k.handed[-1][0], want[0])
                    return out + [('what the library is asked', k.wrong, [])]
                W.law('%s.failure%s' % (cls, '.diagonal' if diag else ''), solve, cls, b)


def law_scaled(W):
    cls = SOLVERS[2]
    solve = W.one(A + cls, 'solveSystem', 1)
    for fail in (False, True):
        def b(k):
            k.norm = k.anything = True
            dv, et = k.problem(W, [(1, True), (1, True)], [(2, [0, 1]), (1, [0])])
            o = new_solver(k, W, cls)
            opt = o.f['_options']
            for f, v in (('colNorm', True), ('verbose', False), ('qrTol', k.sym('tol')), ('normTol', k.sym('normTol'))):
                opt.f[f] = Box(v)
            k.method(o, 'initMatrixStructure', dv, et, Box(False))
            k.method(o, 'evaluateError', Box(1), Box(False))
            k.method(o, 'buildSystem', Box(1), Box(False))
            J, e = k.J(False), k.e(False)
            x = Mat(None, None, 1)
            k.fail = fail
            r = k.truth(k.rv(k.method(o, 'solveSystem', x)))
            out = [('success', r, not fail), ('what the library is asked', k.wrong, [])]
            out += eq('the Jacobian stays as it is', inside(k, o, cls), tr(J))
            left = [v for v in k.made if v not in k.freed and not v.cls.startswith('SuiteSparseQR')]
            out.append(('what the library gave is not freed', len(left), 0))
            if fail:
                return out
            sc, D = k.scaled
            out += eq('the matrix to be scaled', D, J)
            for c in range(2):
                n2 = total([J[r][c] * J[r][c] for r in range(3)])
                z = not (sc[c].q is not None and sc[c].q == 0)
                short = k.truth(k.arith('<', calc.s_sqrt(n2), k.sym('normTol')))
                out.append(('the columns scaled to zero are not those that are too short', z, not short))
                if z:
                    out.append(('a column is not scaled to length one', sc[c] * sc[c] * n2, const(1)))
            out += eq('the scaled matrix', k.handed[-1][0], [[J[r][c] * sc[c] for c in range(2)] for r in range(3)])
            out += eq('the right-hand side', k.handed[-1][1], e)
            out += eq('the solution is not scaled back', nums(x), [[k.sym('x', i) * sc[i]] for i in range(2)])
            return out
        W.law('%s.scaled%s' % (cls, '.failure' if fail else ''), solve, cls, b)

    norm = W.one(A + 'Cholmod<long>', 'colNorm', 2)

    for c in range(4):
        def b(k):
            o = new_solver(k, W, cls)
            D = [[k.sym('m', i, j) for j in range(4)] for i in range(3)]
            holes = {(0, 0), (1, 0), (2, 2), (0, 3), (1, 3), (2, 3)}
            cs = k.packed(D, {(i, j) for i in range(3) for j in range(4)} - holes)
            n = k.rv(k.call(norm, k.rv(o.f['_cholmod']), [Box(Ptr(cs)), Box(c)]))
            return [('the length of a column', n, calc.s_sqrt(total([D[i][c] * D[i][c] for i in range(3) if (i, c) not in holes])))]
        W.law('Cholmod.colNorm.%d' % c, norm, 'Cholmod', b)


def law_robust(W):
    def weight(cls, want, names):
        f = W.one(A + cls, 'getWeight', 1)

        def b(k, zero=False):
            o = Obj(A + cls, ('m',))
            v = [k.sym(n) for n in names]
            c = [g for g in members(W.prog, A + cls, cls) if g.kind == 'ctor' and g.body is not None and len(g.params) == len(names)
                 and all(g.types[p['t']].b == 'double' or g.types[p['t']].scalar for p in g.params)]
            if names:
                if not c:
                    raise Stop('no constructor')
                o = k.make(c[0], [Box(x) for x in v])
            e = const(0) if zero else k.sym('error')
            for s in v + [e] * (not zero):
                k.truth(k.arith('>', s, const(0)))
            w = want(k, e, *v)
            return [('the weight of no error' if zero else 'the weight', k.rv(k.method(o, 'getWeight', Box(e))), w)]
        W.law(cls + '.weight', f, cls, b)
        W.law(cls + '.weight.zero', f, cls, lambda k: b(k, True))
    weight('NoMEstimator', lambda k, e: const(1), ())
    weight('GemanMcClureMEstimator', lambda k, e, s: s / ((s + e) * (s + e)), ('sigma2',))
    weight('CauchyMEstimator', lambda k, e, s: s / (s + e), ('sigma2',))
    weight('HuberMEstimator', lambda k, e, c: const(1) if k.truth(k.arith('<', e, c * c)) else c / calc.s_sqrt(e), ('k',))


def law_dense(W):
    for T in KINDS:
        cls = CCM % T
        tag = 'CompressedColumnMatrix<%s>' % (T or 'int')

        def b(k):
            M = k.make(W.ctor(cls, 0), [])
            D = [[const(x) for x in r] for r in ((2, 0, -3), (0, 0, 5), (-1, 0, 0), (0, 0, 7))]
            k.method(M, 'fromDense', mat(D))
            out = eq('what fromDense gives', dense(k, M), D)
            out += [('the entries', k.rv(k.method(M, 'nnz')), 5), ('rows', k.rv(k.method(M, 'rows')), 4), ('columns', k.rv(k.method(M, 'cols')), 3)]
            k.method(M, 'fromDenseTolerance', mat(D), Box(const(2)))
            out += eq('what fromDenseTolerance gives', dense(k, M), [[x if abs(x.q) > 2 else const(0) for x in r] for r in D])
            return out
        W.law(tag + '.fromDense', W.one(cls, 'fromDenseTolerance', 2), tag, b)


def law_optimizer(W):
    cls = A + 'Optimizer2'
    init, step, back = W.one(cls, 'initialize', 0), W.one(cls, 'applyStateUpdate', 0), W.one(cls, 'revertLastStateUpdate', 0)

    def begun(k, dims):
        k.problem(W, dims, TERMS)
        for i, o in enumerate(k.dvs):
            k.method(o, 'setBlockIndex', Box(40 - i))
            k.method(o, 'setColumnBase', Box(90 - i))
        for i, o in enumerate(k.terms):
            k.method(o, 'setRowBase', Box(70 - i))
        o = Obj(cls, ('optimizer',))
        o.f['_problem'] = Box(Ptr(Obj(A + 'OptimizationProblemBase', ('problem',))))
        o.f['_solver'] = Box(Ptr(Obj(A + 'LinearSystemSolver', ('solver',))))
        o.f['_trustRegionPolicy'] = Box(Ptr(Obj(A + 'TrustRegionPolicy', ('policy',))))
        o.f['_designVariables'], o.f['_errorTerms'] = Box(Seq([Box(Ptr(k.dvs[2]))])), Box(Seq([Box(Ptr(k.terms[1]))]))
        o.f['_options'] = Obj(A + 'Optimizer2Options', ('options',))
        o.f['_options'].f['verbose'] = Box(False)
        k.call(init, o, [])
        return o

    for n, dims in enumerate((DIMS, [(2, False), (3, True), (0, True), (1, True), (2, False)], [(1, True), (2, True), (6, True), (3, True)])):
        def b(k):
            o = begun(k, dims)
            on = [j for j, d in enumerate(dims) if d[1]]
            out = [('what the solver is prepared for', k.log, [('structure', on, list(range(len(TERMS))), True)])]
            col = 0
            for i, j in enumerate(on):
                out += [('the block of a variable', k.rv(k.method(k.dvs[j], 'blockIndex')), i), ('the column of a variable', k.rv(k.method(k.dvs[j], 'columnBase')), col)]
                col += dims[j][0]
            row = 0
            for t, e in zip(TERMS, k.terms):
                out.append(('the row of an error', k.rv(k.method(e, 'rowBase')), row))
                row += t[0]
            return out
        W.law('Optimizer2.initialize.%d' % n, init, 'Optimizer2', b)

        def b(k):
            o = begun(k, dims)
            on = [j for j, d in enumerate(dims) if d[1]]
            for j in on:
                k.method(k.dvs[j], 'setScaling', Box(k.sym('scale', j)))
            N = sum(dims[j][0] for j in on)
            v = k.invec('dx', N)
            o.f['_dx'] = v
            x = [r[0] for r in nums(v)]
            del k.log[:]
            k.call(step, o, [])
            out, c = [], 0
            got = {l[1]: l[2] for l in k.log if l[0] == 'update'}
            want = [j for j in on if dims[j][0]]
            out.append(('the variables that are updated', [l[1] for l in k.log], want))
            for j in on:
                d = dims[j][0]
                for i in range(d):
                    out.append(('the step of a variable', got[j][i] if j in got and len(got[j]) == d else False, x[c + i] * k.sym('scale', j)))
                c += d
            out += eq('the step itself', nums(o.f['_dx']), column(x))
            del k.log[:]
            k.call(back, o, [])
            out.append(('the variables that are reverted', [l for l in k.log if dims[l[1]][0]], [('revert', j) for j in want]))
            return out
        W.law('Optimizer2.update.%d' % n, step, 'Optimizer2', b)


def run(ctx):
    W = World(ctx)
    law_matrix(W)
    law_container(W)
    law_append(W)
    law_errors(W)
    law_solvers(W)
    law_scaled(W)
    law_robust(W)
    law_dense(W)
    law_optimizer(W)
    ctx.at_least('laws stated', 90)
