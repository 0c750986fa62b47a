"""aslam_bsplines: the spline functions against the Cox-de Boor recursion."""
import facts
import calc
from calc import Calc, Mat, Box, Obj, Ptr, Seq, S, UNK, Stop, NoRoot, Path, const, mat, isnum
from alg import *

B = 'aslam_bsplines::'
SIGN = {}
for _n in range(1, 60):
    for _d in range(1, 13):
        SIGN[_n * pow(_d, P - 2, P) % P] = 1
        SIGN[P - _n * pow(_d, P - 2, P) % P] = -1
TINY = {const(calc.Fraction(s, 10 ** e)).v: s for s in (1, -1) for e in range(8, 21)}


ORDERS = range(2, 7)


class Spl(Alg):
    """numbers that are linear in positive gaps with coefficients of one sign have that sign"""

    abs_forks = True

    def __init__(self, prog, path):
        super().__init__(prog, path)
        test = path.test
        self.gaps = {}
        self.sparse = {}

        def signed(x, ops, what=None):
            s = self.sign(x)
            return s in ops if s else test(x, ops, what)
        path.test = signed

    def gap(self, *key):
        x = self.var('gap', *key)
        self.gaps[('gap',) + key] = x.v
        return x

    def sign(self, x):
        x = const(x)
        if x.q is not None or isinstance(x, calc.UNK.__class__) or not isinstance(x.v, int):
            return None
        rest, pos, neg = x.v, 0, 0
        for key, c in x.d.items():
            if isinstance(c, S):
                c = c.v
            c %= P
            if not c:
                continue
            s = SIGN.get(c)
            if key not in self.gaps or s is None:
                return None
            rest = (rest - c * self.gaps[key]) % P
            pos, neg = pos + (s > 0), neg + (s < 0)
        if pos and neg:
            return None
        if rest and rest not in TINY:
            return None
        if pos or neg:
            return '>' if pos else '<'
        return '=' if not rest else '>' if TINY[rest] > 0 else '<'

    def cmp_truth(self, v, c):
        return self.p.test(v.x, v.ops, c)

    # sparse block matrices: blocks by row and column
    def ev_ctor(self, n):
        if (n.get('cls') or '') == 'aslam_sparse_block_matrix::SparseBlockMatrix' and len(n.c) >= 2 and not n.get('copy') and not n.get('move'):
            a = [self.rv(self.ev(c)) for c in n.c if c is not None]
            if all(isinstance(x, Seq) and all(isinstance(self.rv(b), int) for b in x.a) for x in a[:2]):
                self.nobj = getattr(self, 'nobj', 0) + 1
                o = Obj(n.type.r, ('obj%d' % self.nobj,))
                self.sparse[o.path[0]] = ([self.rv(b) for b in a[0].a], [self.rv(b) for b in a[1].a], {})
                return o
        return super().ev_ctor(n)

    def on_call(self, n, recv, args):
        o = self.rv(recv) if recv is not None else None
        if isinstance(o, Obj) and o.path[0] in self.sparse and n.get('n') == 'block' and len(args) == 3:
            rows, cols, bl = self.sparse[o.path[0]]
            i, j = self.rv(args[0]), self.rv(args[1])
            if not (isinstance(i, int) and isinstance(j, int) and 0 <= i < len(rows) and 0 <= j < len(cols)):
                return UNK
            if (i, j) not in bl:
                if self.rv(args[2]) is not True:
                    return False
                r, c = rows[i] - (rows[i - 1] if i else 0), cols[j] - (cols[j - 1] if j else 0)
                bl[i, j] = calc.mfun(r, c, lambda a, b: const(0))
            return Ptr(bl[i, j])
        return NotImplemented

    def dense(self, o):
        o = self.rv(o)
        if not isinstance(o, Obj) or o.path[0] not in self.sparse:
            return None
        rows, cols, bl = self.sparse[o.path[0]]
        A = [[const(0)] * cols[-1] for _ in range(rows[-1])]
        for (i, j), m in bl.items():
            x = nums(m)
            if x is None:
                return None
            for a, r in enumerate(x):
                for b, v in enumerate(r):
                    A[(rows[i - 1] if i else 0) + a][(cols[j - 1] if j else 0) + b] = v
        return A

    def free(self, n, nm, a):
        if nm in ('fabs', 'abs') and len(a) == 1 and isnum(a[0]):
            s = self.sign(a[0])
            if s:
                return self.neg(a[0]) if s == '<' else a[0]
        return super().free(n, nm, a)


# ------------------------------------------------------------------ polynomials in the time since a knot
def padd(a, b):
    n = max(len(a), len(b))
    return [(a[i] if i < len(a) else const(0)) + (b[i] if i < len(b) else const(0)) for i in range(n)]


def pmul(a, b):
    r = [const(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            r[i + j] = r[i + j] + x * y
    return r


def pder(a, n=1):
    for _ in range(n):
        a = [a[i] * i for i in range(1, len(a))] or [const(0)]
    return a


def pat(a, x):
    r = const(0)
    for c in reversed(a):
        r = r * x + c
    return r


def pint(a, x):
    """integral from 0 to x"""
    return pat([const(0)] + [c / (i + 1) for i, c in enumerate(a)], x)


def basis(T, k, j, s):
    """N_{j,k} on the interval that begins at knot s, as a polynomial in t - T[s]"""
    if k == 1:
        return [const(int(j == s))]
    r = [const(0)]
    if s - (k - 1) < j + 1 <= s + 1:                       # N_{j,k-1} does not vanish here
        a = basis(T, k - 1, j, s)
        if any(c.v for c in a):
            den = T[j + k - 1] - T[j]
            r = padd(r, pmul(a, [(T[s] - T[j]) / den, const(1) / den]))
    a = basis(T, k - 1, j + 1, s) if s - (k - 2) <= j + 1 <= s else [const(0)]
    if any(c.v for c in a):
        den = T[j + k] - T[j + 1]
        r = padd(r, pmul(a, [(T[j + k] - T[s]) / den, const(-1) / den]))
    return r


class Spline:
    """a spline object of the program with unknown knots and coefficients"""

    def __init__(self, k, W, order, D, segs, cls='BSpline', coef=True):
        self.k, self.W, self.n, self.D, self.segs = k, W, order, D, segs
        K = segs + 2 * order - 1
        self.T = [k.sym('t0')]
        for i in range(K - 1):
            self.T.append(self.T[-1] + k.gap('knot', i))
        self.C = [[(k.var('c', i, j) if coef else k.sym('c', i, j)) for j in range(segs + order - 1)] for i in range(D)]
        self.o = self.blank(cls)
        self.set(self.T, self.C)

    def blank(self, cls='BSpline'):
        o = Obj(B + cls, ('spline',))
        o.f['splineOrder_'] = Box(self.n)
        o.f['knots_'] = Box(Seq([]))
        o.f['coefficients_'] = Mat([], 0, 0)
        o.f['basisMatrices_'] = Box(Seq([]))
        return o

    def set(self, T, C):
        self.m('setKnotsAndCoefficients', 2, Box(Seq([Box(t) for t in T])), mat(C))

    def m(self, name, np, *args):
        f = self.W.f(name, np, types=None)
        if f is None:
            raise Stop('no ' + name)
        return self.k.call(f, self.o, list(args))

    def v(self, name, *args):
        return nums(self.m(name, len(args), *args))

    # the oracle
    def piece(self, s):
        """value on segment s, one polynomial per dimension"""
        i = s + self.n - 1
        N = [basis(self.T, self.n, j, i) for j in range(i - self.n + 1, i + 1)]
        return N, [sump([[c * self.C[d][i - self.n + 1 + a] for c in N[a]] for a in range(self.n)]) for d in range(self.D)]

    def at(self, s, what):
        """a time in segment s and its distance from the beginning of the segment"""
        i = s + self.n - 1
        if what == 'begin':
            return self.T[i], const(0)
        if what == 'end':
            return self.T[i + 1], self.T[i + 1] - self.T[i]
        raise ValueError


def sump(ps):
    r = [const(0)]
    for p in ps:
        r = padd(r, p)
    return r


class World:
    def __init__(self, ctx, group, rule):
        self.ctx, self.rule = ctx, rule
        self.prog = facts.load(*group.split())
        self.missing = set()

    def f(self, name, np, types=None, cls='BSpline'):
        fs = [g for g in self.prog.named(B + cls + '::' + name) if g.body is not None and len(g.params) == np]
        if not fs:
            if name not in self.missing:
                self.missing.add(name)
                self.ctx.count('functions not found')
            return None
        g = min(fs, key=lambda g: (len(g.u), g.u))
        self.ctx.fns.add(g.u)
        return g

    def prove(self, key, name, np, body, cls='BSpline', what=None):
        f = self.f(name, np, cls=cls)
        if f is None:
            return 0
        n = prove(self.ctx, key, f, what or '%s::%s' % (cls, name), self.rule, body, self.prog, cls=Spl)
        self.ctx.count('laws stated')
        self.ctx.count('laws decided' if n else 'laws not decided')
        if not n:
            self.ctx.sample('not decided: ' + key)
        return n


def times(k, sp, inner=True):
    """[(label, segment, t, tau)]: inside every segment, at every knot and at the end"""
    return [('%s' % w, s, *sp.at(s, w)) for s in range(sp.segs) for w in ('begin',)] + [('end', sp.segs - 1, *sp.at(sp.segs - 1, 'end'))]


def inside(k, W, order, D, segs, s, cls='BSpline', coef=True):
    """a spline and a time inside segment s: the gap of the segment is split at the time"""
    sp = Spline.__new__(Spline)
    sp.k, sp.W, sp.n, sp.D, sp.segs = k, W, order, D, segs
    K = segs + 2 * order - 1
    T = [k.sym('t0')]
    tau = k.gap('before')
    for i in range(K - 1):
        g = k.gap('knot', i)
        if i == s + order - 1:
            g = g + tau
        T.append(T[-1] + g)
    sp.T = T
    sp.C = [[(k.var('c', i, j) if coef else k.sym('c', i, j)) for j in range(segs + order - 1)] for i in range(D)]
    sp.o = sp.blank(cls)
    sp.set(sp.T, sp.C)
    return sp, T[s + order - 1] + tau, tau


def places(order, segs):
    return [(s, w) for s in range(segs) for w in ('begin', 'inside')] + [(segs - 1, 'end')]


def place(k, W, order, D, segs, s, w, **kw):
    if w == 'inside':
        return inside(k, W, order, D, segs, s, **kw)
    sp = Spline(k, W, order, D, segs, **kw)
    return (sp,) + sp.at(s, w)


WHERE = {'begin': 'at a knot', 'inside': 'between two knots', 'end': 'at the end of the curve'}


def curves(ctx):
    ctx.rule('B-spline functions, interpreted on unknown knots and coefficients, give the same value numbers as the Cox-de Boor recursion, its '
             'derivatives and its integrals.')
    ctx.assume('knots are at least 1e-8 apart or equal')
    W = World(ctx, 'bsplines', 'spline')
    for order in ORDERS:
        one(W, order, 2 if order < 5 else 1, 3 if order < 5 else 2)
        guards(W, order)
    ctx.at_least('laws stated', 200)


def one(W, n, D, segs):
    O = 'order %d' % n
    N = lambda f: '%d.%s' % (n, f)

    def sect(fn):
        """the law at every place of the curve"""
        def body(k, s, w):
            sp, t, tau = place(k, W, n, D, segs, s, w)
            return [(m + ' ' + WHERE[w], g, h) for m, g, h in fn(k, sp, s, t, tau)]
        return [(lambda k, s=s, w=w: body(k, s, w), '%d%s' % (s, w)) for s, w in places(n, segs)]

    def law(name, np, fn):
        for b, l in sect(fn):
            W.prove(N(name), name, np, b)

    def value(k, sp, s, t, tau):
        _, p = sp.piece(s)
        out = []
        for d in range(n + 1):
            got = sp.v('evalD', t, d)
            out += eq('the value' if not d else 'derivative %d of the curve' % d + ' is not that of the B-spline', got, col([pat(pder(q, d), tau) for q in p]))
        return out + eq('eval is not the value of the curve', sp.v('eval', t), col([pat(q, tau) for q in p]))
    law('evalD', 2, value)

    def jac(k, sp, s, t, tau):
        out = []
        for d in range(0, n, 2):
            J, ix = Mat(None), Mat(None)
            v = nums(sp.m('evalDAndJacobian', 4, t, d, Box(Ptr(J)), Box(Ptr(ix))))
            out += eq('the value differs from evalD', v, sp.v('evalD', t, d))
            J, ix = nums(J), nums(ix)
            out += jacobian(sp, v, J, ix)
            out += eq('Phi times the local coefficients is not the value', mul(sp.v('Phi', t, d), sp.v('localCoefficientVector', t)), v)
            out += eq('localBasisMatrix is not Phi', sp.v('localBasisMatrix', t, d), sp.v('Phi', t, d))
        out += eq('the indices are not those of localCoefficientVectorIndices', ix, sp.v('localCoefficientVectorIndices', t))
        return out
    law('evalDAndJacobian', 4, jac)

    def local(k, sp, s, t, tau):
        c = sp.v('localCoefficientVector', t)
        ix = ints(sp.v('localCoefficientVectorIndices', t))
        vv = ints(sp.v('localVvCoefficientVectorIndices', t))
        want = [[sp.C[d][s + a]] for a in range(n) for d in range(D)]
        out = eq('the local coefficients are not those of the segment', c, want)
        out += [('the indices of the local coefficients', ix, [s * D + i for i in range(n * D)]),
                ('the indices of the local vector coefficients', vv, [s + i for i in range(n)])]
        out += eq('the local coefficient matrix', sp.v('localCoefficientMatrix', t), [[sp.C[d][s + a] for a in range(n)] for d in range(D)])
        if t is not None:
            out += eq('the coefficients of the segment', sp.v('segmentCoefficientVector', s), want)
            out += [('the coefficient indices of the segment', ints(sp.v('segmentCoefficientVectorIndices', s)), [s * D + i for i in range(n * D)]),
                    ('the vector coefficient indices of the segment', ints(sp.v('segmentVvCoefficientVectorIndices', s)), [s + i for i in range(n)])]
        i = k.rv(sp.m('segmentIndex', 1, t))
        out.append(('the index of the segment', i, s))
        return out
    law('localCoefficientVector', 1, local)

    def setlocal(k, sp, s, t, tau):
        c = [k.sym('new', i) for i in range(n * D)]
        sp.m('setLocalCoefficientVector', 2, t, vec(*c))
        want = [list(r) for r in sp.C]
        for i, x in enumerate(c):
            want[i % D][s + i // D] = x
        return eq('the coefficients after setting the local ones', nums(sp.m('coefficients', 0)), want)
    law('setLocalCoefficientVector', 2, setlocal)

    def bi(k, sp, s, t, tau):
        Ns, _ = sp.piece(s)
        b = [pat(q, tau) for q in Ns]
        cum = [total(b[i:]) for i in range(n)]
        return eq('the values of the basis functions', sp.v('getLocalBiVector', t), col(b)) \
            + eq('the cumulative values of the basis functions', sp.v('getLocalCumulativeBiVector', t), col(cum))
    law('getLocalBiVector', 1, bi)

    def b(k):
        sp = Spline(k, W, n, D, segs)
        c = sp.v('coefficientVector')
        out = eq('coefficientVector does not stack the coefficients', c, [[sp.C[i % D][i // D]] for i in range(D * (segs + n - 1))])
        new = [k.sym('n', i) for i in range(D * (segs + n - 1))]
        sp.m('setCoefficientVector', 1, vec(*new))
        out += eq('coefficientVector is not what setCoefficientVector was given', sp.v('coefficientVector'), col(new))
        tm, tM = k.rv(sp.m('t_min', 0)), k.rv(sp.m('t_max', 0))
        out += [('t_min is not the first time of the curve', tm, sp.T[n - 1]), ('t_max is not the last time of the curve', tM, sp.T[n - 1 + segs]),
                ('the number of segments', k.rv(sp.m('numValidTimeSegments', 0)), segs)]
        iv = k.rv(sp.m('timeInterval', 0))
        out += [('timeInterval', k.rv(iv.f['first']), tm), ('timeInterval', k.rv(iv.f['second']), tM)]
        for s in range(segs):
            iv = k.rv(sp.m('timeInterval', 1, s))
            out += [('timeInterval of a segment', k.rv(iv.f['first']), sp.T[n - 1 + s]), ('timeInterval of a segment', k.rv(iv.f['second']), sp.T[n + s])]
        out += eq('knotVector', sp.v('knotVector'), col(sp.T))
        for i in range(segs + n - 1):
            f = W.f('vvCoefficientVector', 1)
            out += eq('vvCoefficientVector is not the column of coefficients', nums(k.call(f, sp.o, [i])), col(new[i * D:i * D + D]))
        return out
    W.prove(N('coefficients'), 'coefficientVector', 0, b)

    for (s1, w1), (s2, w2) in (((0, 'begin'), (segs - 1, 'end')), ((0, 'inside'), (segs - 1, 'inside')), ((0, 'inside'), (0, 'inside')),
                               ((segs - 1, 'begin'), (segs - 1, 'inside')), ((0, 'inside'), (segs - 1, 'begin'))):
        def b(k):
            K = segs + 2 * n - 1
            T, cuts = [k.sym('t0')], {}
            for i in range(K - 1):
                s = i - n + 1
                g = const(0)
                for w, (ss, ww) in (('a', (s1, w1)), ('b', (s2, w2))):
                    if ss == s and ww == 'inside':
                        g = g + k.gap('cut', w)
                        cuts[w] = (T[-1] + g, g)
                T.append(T[-1] + g + k.gap('knot', i))
            sp = Spline.__new__(Spline)
            sp.k, sp.W, sp.n, sp.D, sp.segs, sp.T = k, W, n, D, segs, T
            sp.C = [[k.sym('c', i, j) for j in range(segs + n - 1)] for i in range(D)]
            sp.o = sp.blank()
            sp.set(T, sp.C)
            pts = []
            for w, (ss, ww) in (('a', (s1, w1)), ('b', (s2, w2))):
                pts.append(cuts[w] if ww == 'inside' else sp.at(ss, ww))
            (t1, x1), (t2, x2) = pts
            want = []
            for d in range(D):
                r = const(0)
                for s in range(s1, s2 + 1):
                    q = sp.piece(s)[1][d]
                    hi = x2 if s == s2 else T[s + n] - T[s + n - 1]
                    r = r + pint(q, hi) - (pint(q, x1) if s == s1 else const(0))
                want.append(r)
            return eq('the integral', sp.v('evalIntegral', t1, t2), col(want)) \
                + eq('the integral in the opposite direction', sp.v('evalIntegral', t2, t1), scale(-1, col(want)))
        W.prove(N('evalIntegral'), 'evalIntegral', 2, b)

    def quad(k, s, d, diag):
        sp = Spline(k, W, n, D, segs)
        Wm = [[k.sym('w', min(i, j), max(i, j)) if not diag or i == j else const(0) for j in range(D)] for i in range(D)]
        for i in range(D):
            for j in range(D):
                k.same_weights = True
        a = vec(*[Wm[i][i] for i in range(D)]) if diag else mat(Wm)
        nm = 'segmentQuadraticIntegralDiag' if diag else 'segmentQuadraticIntegral'
        Q = sp.v(nm, a, s, d)
        N, _ = sp.piece(s)
        h = sp.T[s + n] - sp.T[s + n - 1]
        want = [[const(0)] * (n * D) for _ in range(n * D)]
        for i in range(n):
            for j in range(n):
                v = pint(pmul(pder(N[i], d), pder(N[j], d)), h)
                for x in range(D):
                    for y in range(D):
                        want[i * D + x][j * D + y] = v * Wm[x][y]
        return eq('the integral of the weighted square of derivative %d over a segment' % d, Q, want), sp, a
    for diag in (False, True):
        nm = 'segmentQuadraticIntegralDiag' if diag else 'segmentQuadraticIntegral'
        for d in range(min(n, 4)):
            for s in {0, segs - 1}:
                W.prove(N(nm), nm, 3, lambda k: quad(k, s, d, diag)[0])

        def b(k):
            _, sp, a = quad(k, 0, 1, diag)
            cm = nm.replace('segment', 'curve')
            Q = sp.v(cm, a, 1)
            M = D * (segs + n - 1)
            want = [[const(0)] * M for _ in range(M)]
            for s in range(segs):
                q = sp.v(nm, a, s, 1)
                for i in range(n * D):
                    for j in range(n * D):
                        want[s * D + i][s * D + j] = want[s * D + i][s * D + j] + q[i][j]
            out = eq('the integral over the curve is not the sum of those over the segments', Q, want)
            if W.f(cm + 'Sparse', 2):
                out += eq('the sparse integral over the curve is not the dense one', k.dense(sp.m(cm + 'Sparse', 2, a, 1)), Q)
            return out
        W.prove(N(nm.replace('segment', 'curve')), nm.replace('segment', 'curve'), 2, b)

    def matrices(k, sp, s, t, tau):
        U, M, c = tr(sp.v('U', t, 0)), sp.v('Mi', s), sp.v('localCoefficientVector', t)
        return eq('the product of U, M and the coefficients is not the value', mul(mul(U, M), c), sp.v('eval', t)) \
            + eq('the product of U, D, M and the coefficients is not the first derivative', mul(mul(mul(U, sp.v('Di', s)), M), c), sp.v('evalD', t, 1)) \
            + eq('the product of the first derivative of U, M and the coefficients is not the first derivative', mul(mul(tr(sp.v('U', t, 1)), M), c), sp.v('evalD', t, 1))
    law('U', 2, matrices)

    def b(k):
        sp = Spline(k, W, n, D, segs)
        t0 = k.sym('s0')
        t1 = t0 + k.gap('dt')
        p0, p1 = [k.sym('p0', i) for i in range(D)], [k.sym('p1', i) for i in range(D)]
        sp.o = sp.blank()
        sp.m('initSpline', 4, t0, t1, vec(*p0), vec(*p1))
        out = [('t_min is not the time given for the first point', k.rv(sp.m('t_min', 0)), t0), ('t_max is not the time given for the last point', k.rv(sp.m('t_max', 0)), t1)]
        out += eq('the curve does not begin at the first point', sp.v('eval', t0), col(p0)) + eq('the curve does not end at the last point', sp.v('eval', t1), col(p1))
        if n > 2:
            v = [(b_ - a_) / (t1 - t0) for a_, b_ in zip(p0, p1)]
            out += eq('the curve does not begin with the mean velocity', sp.v('evalD', t0, 1), col(v)) + eq('the curve does not end with the mean velocity', sp.v('evalD', t1, 1), col(v))
        return out
    W.prove(N('initSpline'), 'initSpline', 4, b)

    def b(k):
        sp = Spline(k, W, n, D, 1)
        t0 = k.sym('s0')
        dt = k.gap('dt')
        c = [k.sym('p0', i) for i in range(D)]
        sp.o = sp.blank()
        sp.m('initConstantSpline', 4, t0, t0 + dt * 3, 3, vec(*c))
        out = [('t_min is not the time given', k.rv(sp.m('t_min', 0)), t0), ('t_max is not the time given', k.rv(sp.m('t_max', 0)), t0 + dt * 3),
               ('the number of segments is not the one given', k.rv(sp.m('numValidTimeSegments', 0)), 3)]
        for i in range(4):
            out += eq('the curve does not have the constant value', sp.v('eval', t0 + dt * i), col(c))
        return out
    W.prove(N('initConstantSpline'), 'initConstantSpline', 4, b)

    def b(k, w):
        sp, t, tau = place(k, W, n, D, segs, segs - 1, w)
        v = sp.v('eval', t)
        tm = sp.T[n]
        sp.m('removeCurveSegment', 0)
        return [('the curve does not begin at the second segment after the first was removed', k.rv(sp.m('t_min', 0)), tm)] \
            + eq('removing the first segment changes the rest of the curve', sp.v('eval', t), v)
    for w in ('inside', 'end'):
        W.prove(N('removeCurveSegment'), 'removeCurveSegment', 0, lambda k: b(k, w))

    def b(k, nm, lam):
        sp = Spline(k, W, n, D, segs)
        te = sp.T[n - 1 + segs]
        t = te + k.gap('dt')
        v = sp.v('eval', te)
        p = [k.sym('p1', i) for i in range(D)]
        sp.m(nm, 2 + len(lam), t, vec(*p), *lam)
        out = [('the curve does not end at the time of the new point', k.rv(sp.m('t_max', 0)), t)]
        return out + eq('the curve does not end at the new point', sp.v('eval', t), col(p)) + eq('the previous end of the curve has moved', sp.v('eval', te), v)
    W.prove(N('addCurveSegment'), 'addCurveSegment', 2, lambda k: b(k, 'addCurveSegment', []))
    if n > 2:
        W.prove(N('addCurveSegment2'), 'addCurveSegment2', 3, lambda k: b(k, 'addCurveSegment2', [const(0)]))


def ints(m):
    if m is None:
        return UNK
    r = []
    for row in m:
        for x in row:
            x = const(x)
            if x.q is None or x.q.denominator != 1:
                return UNK
            r.append(int(x.q))
    return r


def jacobian(sp, v, J, ix):
    if v is None or J is None or ix is None or ints(ix) is UNK:
        return [('the Jacobian', UNK, UNK)]
    ix = ints(ix)
    if len(ix) != len(J[0]):
        return [('the Jacobian and the indices of the coefficients differ in size', False, True)]
    out = []
    for i in range(len(v)):
        for a in range(sp.D):
            for b in range(len(sp.C[0])):
                g = b * sp.D + a
                got = total(J[i][c] for c in range(len(ix)) if ix[c] == g)
                out.append(('the Jacobian is not the derivative with respect to the coefficients', got, S(v[i][0].d.get(('c', a, b), 0))))
    return out


def refused(k, call):
    """does the function throw?"""
    try:
        call()
    except Stop as e:
        return e.why == 'throws' or UNK
    return False if not k.p.vague else UNK


def guards(W, n):
    D, segs = 2, 3
    N = lambda f: '%d.%s' % (n, f)

    def b(k, at, old):
        sp = Spline(k, W, n, D, segs)
        K = old + 2 * n - 1
        T = [k.sym('u0')]
        for i in range(K - 1):
            g = k.gap('new', i)
            T.append(T[-1] - g if i == at else T[-1] + g)
        C = [[k.sym('x', i, j) for j in range(old + n - 1)] for i in range(D)]
        return [('knots that decrease are not refused', refused(k, lambda: sp.set(T, C)), True)]
    for old in (2, 3, 4):
        for at in range(old + 2 * n - 2):
            W.prove(N('setKnotsAndCoefficients'), 'setKnotsAndCoefficients', 2, lambda k: b(k, at, old))

    def b(k):
        sp = Spline(k, W, n, D, segs)
        C = [[k.sym('x', i, j) for j in range(segs + n)] for i in range(D)]
        sh = [r[:-2] for r in C]
        few = sp.T[:2 * n - 1]
        return [('too many coefficients are not refused', refused(k, lambda: sp.set(sp.T, C)), True),
                ('too few coefficients are not refused', refused(k, lambda: sp.set(sp.T, sh)), True),
                ('too few knots are not refused', refused(k, lambda: sp.set(few, [r[:n - 1] for r in C])), True)]
    W.prove(N('setKnotsAndCoefficients'), 'setKnotsAndCoefficients', 2, b)

    def b(k):
        sp = Spline(k, W, n, D, segs)
        lo, hi = sp.T[n - 1] - k.gap('e'), sp.T[n - 1 + segs] + k.gap('e')
        out = []
        for w, t in (('before the beginning', lo), ('after the end', hi)):
            for f, args in (('eval', ()), ('evalD', (1,)), ('Phi', (0,)), ('localCoefficientVector', ()), ('localCoefficientVectorIndices', ()),
                            ('localVvCoefficientVectorIndices', ())):
                out.append(('%s accepts a time %s of the curve' % (f, w), refused(k, lambda: sp.m(f, 1 + len(args), t, *args)), True))
        return out
    W.prove(N('evalD'), 'evalD', 2, b)

    def b(k):
        sp = Spline(k, W, n, D, segs)
        m = D * (segs + n - 1)
        return [('setCoefficientVector accepts a vector of a wrong size', refused(k, lambda: sp.m('setCoefficientVector', 1, vec(*[k.sym('v', i) for i in range(x)]))), True) for x in (m - 1, m + D)] \
            + [('segmentCoefficientVector accepts a segment that does not exist', refused(k, lambda: sp.m('segmentCoefficientVector', 1, x)), True) for x in (-1, segs)] \
            + [('basisMatrix accepts a segment that does not exist', refused(k, lambda: sp.m('basisMatrix', 1, x)), True) for x in (-1, segs)]
    W.prove(N('setCoefficientVector'), 'setCoefficientVector', 1, b)


def poses(ctx):
    ctx.rule('Pose spline functions, interpreted on unknown knots and coefficients, are those of the curve of poses: values, time derivatives and '
             'derivatives with respect to the coefficients have the same value numbers.')
    ctx.assume('knots are at least 1e-8 apart or equal')
    W = World(ctx, 'bsplines kinematics', 'pose')
    cls = 'sm::kinematics::EulerAnglesZYX'
    ctx.need([c for c in W.prog.classes.values() if c.fq == cls], cls)
    n, D, segs = 3, 6, 1
    p2R = W.prog.method(cls, 'parametersToRotationMatrix', 2)
    p2S = W.prog.method(cls, 'parametersToSMatrix', 1)

    class Pose:
        def __init__(self, k, coef=True, still=False):
            self.k = k
            self.sp, self.t, self.tau = inside(k, W, n, D, segs, 0, 'BSplinePose', coef=coef)
            if still:
                N, _ = self.sp.piece(0)
                w = [S(pat(pder(q), self.tau).v) for q in N]
                for d in range(3, 6):
                    self.sp.C[d][n - 1] = S((total(w[i] * self.sp.C[d][i] for i in range(n - 1)) * -1 / w[n - 1]).v)
                self.sp.set(self.sp.T, self.sp.C)
            self.o = self.sp.o
            self.o.f['rotation_'] = Box(Ptr(Obj(cls, ('rotation',))))
            c = [pat(q, self.tau) for q in self.sp.piece(0)[1]]
            self.c, self.p, self.th = c, c[:3], c[3:]
            self.C = nums(k.call(p2R, Obj(cls, ('rotation',)), [vec(*self.th), Box(False)]))
            self.S = nums(k.call(p2S, Obj(cls, ('rotation',)), [vec(*self.th)]))
            self.rate = [[pat(pder(q, 1), self.tau)] for q in self.sp.piece(0)[1]]
            self.acc = [[pat(pder(q, 2), self.tau)] for q in self.sp.piece(0)[1]]
            self.T = None if self.C is None else [self.C[i] + [self.p[i]] for i in range(3)] + [[const(int(j == 3)) for j in range(4)]]

        def m(self, name, np, *args):
            f = W.f(name, np, cls='BSplinePose')
            if f is None:
                raise Stop('no ' + name)
            return self.k.call(f, self.o, list(args))

        def v(self, name, *args):
            return nums(self.m(name, len(args), self.t, *args[1:]) if args else None)

        def at(self, name, *args):
            return nums(self.m(name, 1 + len(args), self.t, *args))

        def jac(self, name, *args):
            J, ix = Mat(None), Mat(None)
            v = nums(self.m(name, 3 + len(args), self.t, *args, Box(Ptr(J)), Box(Ptr(ix))))
            v2 = nums(self.m(name, 3 + len(args), self.t, *args, Box(False), Box(False)))
            self.same = eq('the value depends on whether the Jacobian is asked for', v2, v)
            return v, nums(J), ints(nums(ix))

        def dt(self, A):
            """derivative with respect to time"""
            if A is None:
                return None
            return [[S(x.d.get(('gap', 'before'), 0)) - S(x.d.get(('gap', 'knot', n - 1), 0)) for x in map(const, r)] for r in A]

        def cols(self, J, ix):
            """the columns of the Jacobian with the coefficients they belong to"""
            if J is None or ix is UNK:
                return []
            if len(ix) != len(J[0]):
                return None
            return [(('c', g % D, g // D), [r[c] for r in J]) for c, g in enumerate(ix)]

    def jl(what, J, ix, q, val, how, size):
        """how(column) is what the derivative of val has to be"""
        cs = q.cols(J, ix)
        if cs is None:
            return [('the Jacobian and the indices of the coefficients differ in size', False, True)]
        if not cs or val is None:
            return [(what, UNK, UNK)]
        out = [('the indices are not those of all coefficients', sorted(k for k, _ in cs), sorted(('c', a, b) for a in range(D) for b in range(n)))]
        if len(J) != size:
            return [('the Jacobian does not have %d rows' % size, False, True)]
        for key, c in cs:
            out += eq(what, how(c), d(val, key))
        return out

    def twist(T):
        def how(c):
            X = cross(c[3:])
            return mul([[X[i][j] * -1 for j in range(3)] + [c[i]] for i in range(3)] + [[const(0)] * 4], T)
        return how

    def spin(C):
        return lambda c: scale(-1, mul(cross(c), C))
    law = lambda name, np, b: W.prove(name, name, np, b, cls='BSplinePose')

    def b(k):
        q = Pose(k)
        v, J, ix = q.jac('transformationAndJacobian')
        out = eq('the transformation is not that of position and orientation', q.at('transformation'), q.T) + eq('the value is not the transformation', v, q.T)
        return out + q.same + jl('the Jacobian is not the derivative of the transformation', J, ix, q, q.T, twist(q.T), 6)
    law('transformationAndJacobian', 3, b)

    def b(k):
        q = Pose(k)
        v, J, ix = q.jac('inverseTransformationAndJacobian')
        inv = q.at('inverseTransformation')
        out = eq('the product with the transformation is not the identity', mul(inv, q.T), eye(4)) + eq('the value is not the inverse transformation', v, inv)
        return out + q.same + jl('the Jacobian is not the derivative of the inverse transformation', J, ix, q, inv, twist(inv), 6)
    law('inverseTransformationAndJacobian', 3, b)

    def b(k):
        q = Pose(k)
        v, J, ix = q.jac('orientationAndJacobian')
        out = eq('the orientation is not that of the curve', q.at('orientation'), q.C) + eq('the value is not the orientation', v, q.C)
        return out + q.same + jl('the Jacobian is not the derivative of the orientation', J, ix, q, q.C, spin(q.C), 3)
    law('orientationAndJacobian', 3, b)

    def b(k):
        q = Pose(k)
        v, J, ix = q.jac('inverseOrientationAndJacobian')
        Ct = tr(q.C)
        out = eq('the inverse orientation is not that of the curve', q.at('inverseOrientation'), Ct) + eq('the value is not the inverse orientation', v, Ct)
        return out + q.same + jl('the Jacobian is not the derivative of the inverse orientation', J, ix, q, Ct, spin(Ct), 3)
    law('inverseOrientationAndJacobian', 3, b)

    def b(k):
        q = Pose(k)
        x = [k.sym('v', i) for i in range(4)]
        v, J, ix = q.jac('transformVectorAndJacobian', vec(*x))
        w = mul(q.T, col(x))
        out = eq('the vector is not transformed by the transformation', v, w)
        return out + q.same + jl('the Jacobian is not the derivative of the transformed vector', J, ix, q, w, lambda c: col(c), 4)
    law('transformVectorAndJacobian', 4, b)

    def b(k):
        q = Pose(k)
        pos = q.at('position')
        vel, acc = q.at('linearVelocity'), q.at('linearAcceleration')
        out = eq('the position is not that of the curve', pos, col(q.p))
        out += eq('the linear velocity is not the derivative of the position', vel, q.dt(col(q.p)))
        out += eq('the linear acceleration is not the derivative of the velocity', acc, q.dt(vel))
        out += eq('the linear velocity in the body frame is another one', q.at('linearVelocityBodyFrame'), mul(tr(q.C), vel))
        out += eq('the linear acceleration in the body frame is another one', q.at('linearAccelerationBodyFrame'), mul(tr(q.C), acc))
        v, J, ix = q.jac('linearAccelerationAndJacobian')
        out += eq('linearAccelerationAndJacobian does not give the linear acceleration', v, acc)
        return out + q.same + jl('the Jacobian is not the derivative of the linear acceleration', J, ix, q, acc, lambda c: col(c), 3)
    law('linearAccelerationAndJacobian', 3, b)

    def b(k):
        q = Pose(k)
        w = q.at('angularVelocity')
        out = eq('the angular velocity is not that of the orientation', mul(cross(w), q.C) if w else None, q.dt(q.C))
        v, J, ix = q.jac('angularVelocityAndJacobian')
        out += eq('angularVelocityAndJacobian does not give the angular velocity', v, w)
        return out + q.same + jl('the Jacobian is not the derivative of the angular velocity', J, ix, q, w, lambda c: col(c), 3)
    law('angularVelocityAndJacobian', 3, b)

    def b(k):
        q = Pose(k)
        w = q.at('angularVelocity')
        wb = mul(tr(q.C), w)
        out = eq('the angular velocity in the body frame is another one', q.at('angularVelocityBodyFrame'), wb)
        v, J, ix = q.jac('angularVelocityBodyFrameAndJacobian')
        out += eq('angularVelocityBodyFrameAndJacobian does not give the angular velocity in the body frame', v, wb)
        return out + q.same + jl('the Jacobian is not the derivative of the angular velocity in the body frame', J, ix, q, wb, lambda c: col(c), 3)
    law('angularVelocityBodyFrameAndJacobian', 3, b)

    def b(k):
        q = Pose(k)
        a = q.at('angularAccelerationBodyFrame')
        v, J, ix = q.jac('angularAccelerationBodyFrameAndJacobian')
        out = eq('angularAccelerationBodyFrameAndJacobian does not give the angular acceleration', v, a)
        return out + q.same + jl('the Jacobian is not the derivative of the angular acceleration in the body frame', J, ix, q, a, lambda c: col(c), 3)
    law('angularAccelerationBodyFrameAndJacobian', 3, b)

    def b(k):
        q = Pose(k)
        a = mul(q.C, q.at('angularAccelerationBodyFrame'))
        v, J, ix = q.jac('angularAccelerationAndJacobian')
        out = eq('angularAccelerationAndJacobian and angularAccelerationBodyFrame disagree', v, a)
        return out + q.same + jl('the Jacobian is not the derivative of the angular acceleration', J, ix, q, v, lambda c: col(c), 3)
    law('angularAccelerationAndJacobian', 3, b)

    def b(k):
        q = Pose(k, still=True)
        w = q.at('angularVelocityBodyFrame')
        out = eq('(not still)', w, col([0, 0, 0]))
        return out + eq('the angular acceleration of a body that does not rotate yet is not the derivative of its angular velocity', q.at('angularAccelerationBodyFrame'), q.dt(w))
    law('angularAccelerationBodyFrame', 1, b)

    def b(k):
        q = Pose(k)
        w = q.at('angularVelocityBodyFrame')
        return eq('the angular acceleration of a rotating body is not the derivative of its angular velocity', q.at('angularAccelerationBodyFrame'), q.dt(w))
    law('angularAccelerationBodyFrame', 1, b)

    def b(k):
        q = Pose(k)
        J = Mat(None)
        x = [k.var('x', i) for i in range(6)]
        T = nums(q.m('curveValueToTransformation', 1, vec(*x)))
        T2 = nums(q.m('curveValueToTransformationAndJacobian', 2, vec(*x), Box(Ptr(J))))
        out = eq('curveValueToTransformationAndJacobian gives another transformation', T2, T)
        J = nums(J)
        if J is None or T is None:
            return out
        for i in range(6):
            out += eq('the Jacobian is not the derivative of the transformation', twist(T)([r[i] for r in J]), d(T, ('x', i)))
        y = nums(q.m('transformationToCurveValue', 1, mat(T)))
        return out + (eq('the curve value of the transformation of a curve value is another one', y, col(x)))
    law('curveValueToTransformationAndJacobian', 2, b)

    def b(k):
        q = Pose(k)
        t0 = k.sym('s0')
        t1 = t0 + k.gap('dt')
        x, y = [k.sym('x', i) for i in range(6)], [k.sym('y', i) for i in range(6)]
        A, B_ = nums(q.m('curveValueToTransformation', 1, vec(*x))), nums(q.m('curveValueToTransformation', 1, vec(*y)))
        q.m('initPoseSpline', 4, t0, t1, mat(A), mat(B_))
        q.t = t0
        out = eq('the curve does not begin at the first pose', q.at('transformation'), A)
        q.t = t1
        out += eq('the curve does not end at the last pose', q.at('transformation'), B_)
        z = [k.sym('z', i) for i in range(6)]
        Z = nums(q.m('curveValueToTransformation', 1, vec(*z)))
        t2 = t1 + k.gap('dt2')
        q.m('addPoseSegment', 2, t2, mat(Z))
        out += eq('the previous end of the curve has moved', q.at('transformation'), B_)
        q.t = t2
        return out + eq('the curve does not end at the new pose', q.at('transformation'), Z)
    law('initPoseSpline', 4, b)
    ctx.at_least('laws stated', 10)
