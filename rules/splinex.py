"""aslam_splines: the design variables and expressions of a spline."""
import facts
import calc
import engine
import exprs
import spline
from calc import Mat, Box, Obj, Ptr, Seq, S, UNK, Stop, NoRoot, Path, const, mat
from alg import *
from jac import prove
from exprs import Ex, tangent, value, KINDS, plain, members, Operand
from spline import Spl, inside

X = 'aslam::splines::'
A = 'aslam::backend::'


class Sx(Spl, Ex):
    def sign(self, x):
        x = const(x)
        if x.d and any(k[0] == 'arg' for k in x.d):
            x = S(x.v, {k: v for k, v in x.d.items() if k[0] != 'arg'})
        return super().sign(x)

    def owner(self, x):
        x = self.rv(x)
        return self.rv(self.deref(x)) if isinstance(x, Ptr) else x

    def on_call(self, n, recv, args):
        nm, cls = n.get('n'), str(n.get('fcls'))
        if recv is not None and ('ptr_sequence_adapter<' in cls or 'reversible_ptr_container<' in cls or 'ptr_vector<' in cls):
            r = self.rv(recv)
            q = r if isinstance(r, Seq) else None
            if q is None and isinstance(r, Obj):
                q = self.rv(r.f.setdefault('items', Seq([])))
            if q is None:
                return UNK
            if nm == 'push_back' and len(args) == 1:
                q.a.append(Box(self.rv(args[0])))
                return None
            if nm in ('operator[]', 'at') and len(args) == 1:
                i = self.rv(args[0])
                if isinstance(i, int) and 0 <= i < len(q.a):
                    return self.owner(q.a[i])
                raise Stop('index of a pointer container')
            if nm == 'size':
                return len(q.a)
            if nm in ('front', 'back') and q.a:
                return self.owner(q.a[0 if nm == 'front' else -1])
            if nm == 'begin':
                return Ptr(q.a, 0)
            if nm == 'end':
                return Ptr(q.a, len(q.a))
            if nm == 'clear':
                del q.a[:]
                return None
            if nm == 'erase' and args:
                a = [self.rv(x) for x in args]
                if all(isinstance(x, Ptr) and x.to is q.a for x in a):
                    i = a[0].off
                    del q.a[i:a[1].off if len(a) > 1 else i + 1]
                    return Ptr(q.a, i)
            if nm == 'pop_back' and q.a:
                q.a.pop()
                return None
            return UNK
        r = Spl.on_call(self, n, recv, args)
        return Ex.on_call(self, n, recv, args) if r is NotImplemented else r


EXPRESSIONS = [('transformation', 'transformation', 'transformation'), ('orientation', 'rotation', 'orientation'), ('position', 'euclidean', 'position'),
               ('linearVelocity', 'euclidean', 'linearVelocity'), ('linearAcceleration', 'euclidean', 'linearAcceleration'),
               ('linearAccelerationBodyFrame', 'euclidean', 'linearAccelerationBodyFrame'), ('angularVelocityBodyFrame', 'euclidean', 'angularVelocityBodyFrame'),
               ('angularAccelerationBodyFrame', 'euclidean', 'angularAccelerationBodyFrame')]
NAME = {'transformation': 'TransformationExpression', 'rotation': 'RotationExpression', 'euclidean': 'EuclideanExpression'}


class World(spline.World):
    def __init__(self, ctx):
        super().__init__(ctx, 'splines bsplines expr kinematics backend', 'splinex')

    def law(self, key, f, what, body):
        def whole(k):
            try:
                return body(k)
            except Stop as e:
                if e.why == 'throws' and not k.p.pos and not k.p.vague:
                    return [('throws although everything is as it should be', False, True)]
                raise
        n = prove(self.ctx, key, f, what, 'spline', whole, self.prog, cls=Sx)
        self.ctx.count('laws stated')
        self.ctx.count('laws decided' if n else 'laws not decided')
        if not n:
            self.ctx.sample('not decided: ' + key)
        self.ctx.fns.add(f.u)


class Var:
    """the design variables of a spline"""

    def __init__(self, k, W, cls, curve, n, D, segs, s):
        self.k, self.W, self.D = k, W, D
        self.sp, self.t, self.tau = inside(k, W, n, D, segs, s, curve)
        self.sp.o.path = ('given',)
        if curve == 'BSplinePose':
            self.sp.o.f['rotation_'] = Box(Ptr(Obj('sm::kinematics::EulerAnglesZYX', ('rotation',))))
        c = [g for g in members(W.prog, X + cls, plain(cls).split('::')[-1]) if g.kind == 'ctor' and g.body is not None and len(g.params) == 1
             and g.types[g.params[0]['t']].r.replace('const ', '') == spline.B + curve]
        if not c:
            raise Stop('no constructor')
        self.o = k.make(c[0], [self.sp.o])

    @property
    def spline(self):
        for nm in ('_bsplinePose', '_bspline'):
            o = self.k.rv(self.o.f.get(nm))
            if isinstance(o, Obj):
                return o
        raise Stop('no spline')

    def coefficients(self):
        C = self.k.rv(self.spline.f.get('coefficients_'))
        if not isinstance(C, Mat) or not C.known:
            raise Stop('no coefficients')
        return C

    def m(self, name, *args):
        return self.k.method(self.o, name, *args)

    def vars(self):
        n = self.k.rv(self.m('numDesignVariables'))
        if not isinstance(n, int):
            raise Stop('number of design variables')
        return [self.k.rv(self.k.deref(self.k.rv(self.m('designVariable', i)))) for i in range(n)]

    def params(self, v):
        out = Mat(None)
        self.k.method(v, 'getParametersImplementation', out)
        return nums(out)

    def memory(self):
        """the design variables are the columns of the coefficients"""
        k, D = self.k, self.D
        C = self.coefficients()
        vs = self.vars()
        out = [('the number of design variables is not that of the coefficient vectors', len(vs), C.cols)]
        for i, v in enumerate(vs[:C.cols]):
            before = [[const(b.v) for b in r] for r in C.c]
            p = self.params(v)
            out += eq('the value of a design variable is not its coefficient vector', p, [[before[d][i]] for d in range(D)])
            st = [k.sym('move', i, d) for d in range(D)]
            k.method(v, 'update', Box(Ptr([Box(x) for x in st], 0)), Box(D))
            after = nums(self.coefficients())
            out += eq('an update of a design variable does not move its coefficient vector', [[r[i]] for r in after], [[before[d][i] + st[d]] for d in range(D)])
            out += eq('an update of a design variable moves other coefficients', [[x for j, x in enumerate(r) if j != i] for r in after],
                      [[x for j, x in enumerate(r) if j != i] for r in before])
            k.method(v, 'revertUpdate')
            out += eq('reverting the update does not restore the coefficients', nums(self.coefficients()), before)
        return out

    def root(self, e):
        r = self.k.rv(e.f.get('_root')) if isinstance(e, Obj) else None
        r = self.k.rv(self.k.deref(r)) if isinstance(r, Ptr) else r
        if not isinstance(r, Obj):
            raise Stop('no root')
        return r

    def hand(self, e, jc, *M):
        try:
            self.k.method(e, 'evaluateJacobians', jc, *M)
        except Stop as x:
            if not x.why.startswith('no '):
                raise
            self.k.method(self.root(e), 'evaluateJacobians', jc, *M)

    def value(self, e, kd):
        try:
            return value(self.k, e, kd)
        except Stop as x:
            if not x.why.startswith('no '):
                raise
            r = self.root(e)
            return nums(self.k.method(r, 'evaluate' if kd.startswith('vector') else KINDS[kd][0]))

    def jac(self, what, kd, e, v, extra=()):
        """the Jacobians of an expression are the derivatives of its value"""
        k = self.k
        vs = self.vars()
        jc = Obj(A + 'JacobianContainer', ('jc',))
        m = KINDS[kd][2]
        M = [[k.sym('chain', a, b) for b in range(m)] for a in range(2)]
        out = []
        cols = self.coefficients().cols
        for w, C in (('the Jacobian', None), ('the Jacobian with the chain rule', M)):
            k.rec, k.outside = [], None
            self.hand(e, jc, *([mat(C)] if C else []))
            got = {}
            for o, J in k.rec:
                if (J is UNK or J is None) and k.outside is not None:
                    out.append((what + ': %s is taken from outside of a matrix' % w, False, True))
                    break
                if J is UNK or J is None:
                    out.append((what + ': ' + w, UNK, UNK))
                    break
                if J == 'dv':
                    continue
                i = [a for a, x in enumerate(vs) if x is o]
                key = i[0] if i else o.path if isinstance(o, Operand) else None
                if key is None:
                    out.append(('%s: %s is handed to something else than a design variable of the spline' % (what, w), False, True))
                    continue
                got[key] = add(got[key], J) if key in got else J
            else:
                for key, ks in [(i, [('c', d, i) for d in range(self.D)]) for i in range(cols)] + [(o.path, o.keys) for o in extra]:
                    D = tangent(kd, v, ks)
                    if D is None:
                        out.append((what + ': ' + w, UNK, UNK))
                        continue
                    if C:
                        D = mul(C, D)
                    zero = [[const(0)] * len(ks) for _ in D]
                    J = got.get(key, zero)
                    if len(J) != len(D) or len(J[0]) != len(ks):
                        out.append(('%s: %s has the wrong size' % (what, w), False, True))
                        continue
                    out += eq('%s: %s is not the derivative of the value' % (what, w), J, D)
                    z = all(isinstance(x.v, int) and x.v % P == 0 for r in D for x in r)
        k.rec = []
        st = Obj('set', ('set',))
        try:
            k.method(e, 'getDesignVariables', st)
        except Stop as x:
            if not x.why.startswith('no '):
                raise
            k.method(self.root(e), 'getDesignVariables', st)
        named = [o for o, J in k.rec if J == 'dv']
        need = [vs[i] for i in range(cols) if any(isinstance(x.v, int) and x.v % P for r in tangent(kd, v, [('c', d, i) for d in range(self.D)]) or [] for x in r)] + list(extra)
        for x in need:
            out.append((what + ': a design variable that the value depends on is not reported', any(y is x for y in named), True))
        return out


def variables(ctx):
    ctx.rule('spline: the design variables of a spline are the columns of its coefficients, also after segments were added or removed; the value of an '
             'expression at a time is that of the curve; the Jacobians it hands to the design variables (and to the time) are the derivatives of its value.')
    ctx.assume('knots are at least 1e-8 apart or equal')
    W = World(ctx)
    n, D = 3, 6
    f = lambda cls, m: members(W.prog, X + cls, m)[0]
    pv = 'BSplinePoseDesignVariable'
    ctx.need(W.prog.cls(X + pv) if X + pv in W.prog.classes else None, pv)

    # the memory of the variables
    for cls, curve, D_ in ((pv, 'BSplinePose', 6), ('BSplineDesignVariable<3>', 'BSpline', 3)):
        if X + cls not in W.prog.classes:
            continue
        g = [c for c in members(W.prog, X + cls, plain(cls)) if c.kind == 'ctor' and c.body is not None][0]

        def b(k):
            return Var(k, W, cls, curve, n, D_, 2, 0).memory()
        W.law(cls + '.ctor', g, cls, b)

        def b(k):
            q = Var(k, W, cls, curve, n, D_, 2, 0)
            t = q.sp.T[n - 1 + 2] + k.gap('more')
            if D_ == 6:
                T = [r + [k.sym('p', i)] for i, r in enumerate(rot(k, 'new'))] + [[const(int(j == 3)) for j in range(4)]]
            else:
                T = [[k.sym('p', i)] for i in range(3)]
            q.m('addSegment', Box(t), mat(T))
            return [('no coefficient vector was added', q.coefficients().cols, n + 2)] + q.memory()
        W.law(cls + '.addSegment', (members(W.prog, X + cls, 'addSegment') or [g])[0], cls + '::addSegment', b)

        def b(k):
            q = Var(k, W, cls, curve, n, D_, 3, 0)
            old = q.vars()
            q.m('removeSegment')
            return [('no coefficient vector was removed', q.coefficients().cols, n + 1),
                    ('the remaining design variables are not those of the remaining coefficients', all(x is y for x, y in zip(q.vars(), old[1:])), True)] + q.memory()
        W.law(cls + '.removeSegment', (members(W.prog, X + cls, 'removeSegment') or [g])[0], cls + '::removeSegment', b)

    for name, kd, at in EXPRESSIONS:
        fs = [g for g in members(W.prog, X + pv, name) if g.body is not None]
        if not fs:
            continue
        for s in range(2):
            def b(k):
                q = Var(k, W, pv, 'BSplinePose', n, 6, 2, s)
                e = k.rv(q.m(name, Box(q.t)))
                want = nums(k.call(W.f(at, 1, cls='BSplinePose'), q.spline, [q.t]))
                v = q.value(e, kd)
                out = eq('the value is not that of the curve', v, want)
                if v:
                    out += q.jac('the expression', kd, e, v)
                    vs = q.vars()
                    at_t = [k.rv(k.deref(k.rv(x))) for x in k.rv(q.m('getDesignVariables', Box(q.t))).a]
                    ix = [const(x[0]).q for x in nums(q.m('getActiveDesignVariableIndices', Box(q.t)))]
                    for i in range(q.coefficients().cols):
                        if any(isinstance(x.v, int) and x.v % P for r in tangent(kd, v, [('c', d, i) for d in range(6)]) or [] for x in r):
                            out.append(('a variable that the value depends on is not among the design variables of its time', any(x is vs[i] for x in at_t), True))
                            out.append(('a variable that the value depends on is not among the active ones', i in ix, True))
                return out
            W.law('%s.%s' % (pv, name), fs[0], '%s::%s' % (pv, name), b)

    # curves of vectors
    for cls, name, kd in (('EuclideanBSplineDesignVariable', 'toEuclideanExpression', 'euclidean'), ('BSplineDesignVariable<3>', 'toExpression', 'vector3')):
        fs = [g for g in members(W.prog, X + cls, name) if g.body is not None]
        for order in range(3) if fs else ():
            def b(k):
                q = Var(k, W, cls, 'BSpline', n, 3, 2, 1)
                e = k.rv(q.m(name, Box(q.t), Box(order)))
                want = nums(k.call(W.f('evalD', 2), q.spline, [q.t, order]))
                v = q.value(e, kd)
                out = eq('the value is not that of the curve', v, want)
                return out + q.jac('the expression', kd, e, v) if v else out
            W.law('%s.%s' % (cls, name), fs[0], '%s::%s' % (cls, name), b)

    # a time that is estimated
    fs = [g for g in members(W.prog, X + pv, 'transformationAtTime') if g.body is not None and len(g.params) == 3]
    for s in range(3) if fs else ():
        for lo, hi in ((0, 0), (1, 0), (0, 1), (1, 1)):
            def b(k):
                q = Var(k, W, pv, 'BSplinePose', n, 6, 3, s)
                o = k.operand(A + 'ScalarExpressionNode', 0, 'scalar')
                o.value = [[S(q.t.v, dict(q.t.d, **{}))]]
                o.value[0][0].d[('arg', 0, 0)] = 1
                e = Obj(A + 'ScalarExpression', ('obj-time',))
                e.f['_root'] = Box(Ptr(o))
                left = q.tau + (q.sp.T[n - 1 + s] - q.sp.T[n - 2 + s]) / 2 if lo else const(0)
                right = (q.sp.T[n + s] - q.t) + (q.sp.T[n + 1 + s] - q.sp.T[n + s]) / 2 if hi else const(0)
                r = k.rv(q.m('transformationAtTime', e, Box(left), Box(right)))
                v = q.value(r, 'transformation')
                want = nums(k.call(W.f('transformation', 1, cls='BSplinePose'), q.spline, [q.t]))
                if v is None:
                    return [('the value', UNK, UNK)]
                # the time moves both the value of the expression and the gaps before and after it
                out = eq('the value is not that of the curve', v, want)
                out += q.jac('the expression', 'transformation', r, v, [o])
                moved = []
                if lo and s:
                    moved.append(q.sp.T[n - 1 + s] - (q.sp.T[n - 1 + s] - q.sp.T[n - 2 + s]) / 4)
                if hi and s < 2:
                    moved.append(q.sp.T[n + s] + (q.sp.T[n + 1 + s] - q.sp.T[n + s]) / 4)
                for t in moved:
                    o.value = [[S(t.v, dict(t.d))]]
                    o.value[0][0].d[('arg', 0, 0)] = 1
                    v = q.value(r, 'transformation')
                    if v is None:
                        return [('the value', UNK, UNK)]
                    out += q.jac('the expression, after the time has moved within its margins', 'transformation', r, v, [o])
                return out
            W.law('%s.transformationAtTime' % pv, fs[0], '%s::transformationAtTime' % pv, b)
    ctx.at_least('laws stated', 30)
