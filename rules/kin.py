"""sm_kinematics: rotations, quaternions, their parametrisations and differential maps."""
import facts
import calc
from calc import Calc, Mat, Box, Obj, Ptr, S, UNK, Stop, Path, const, mat
from series import eps
from alg import *

K = 'sm::kinematics::'


class Kin:
    def __init__(self, ctx):
        self.ctx = ctx
        self.prog = facts.load('kinematics')

    def f(self, name, *types):
        g = fn(self.prog, K + name, *types)
        if g is None:
            self.ctx.count('functions not found')
        else:
            self.ctx.fns.add(g.u)
        return g

    def prove(self, key, f, body):
        if f is None:
            return 0
        n = prove(self.ctx, key, f, f.q.replace(K, ''), 'kinematics', body, self.prog, cls=Alg)
        self.ctx.count('laws decided' if n else 'laws not decided')
        if not n: self.ctx.sample('not decided: ' + key)
        return n

    def small(self, key, f, body, single=False):
        if f is not None:
            small(self.ctx, key, f, f.q.replace(K, ''), body, self.prog, single)


def run(k, f, *args, this=None):
    return nums(k.call(f, this, list(args)))


def consistent(k, *xs):
    """the signs that the path gave to xs are those of the numbers chosen for them"""
    for x in xs:
        v, ops = x.v, None
        if v in k.p.facts:
            ops = k.p.facts[v]
        elif (P - v) in k.p.facts:
            ops = frozenset({'<': '>', '>': '<', '=': '='}[o] for o in k.p.facts[P - v])
        if ops is not None and (not calc.qr(v) if '<' not in ops else calc.qr(v) if '>' not in ops else False):
            raise calc.NoRoot()


def V(A):
    """a matrix argument"""
    return mat(A)


def rotations(ctx):
    ctx.rule('Laws between functions of sm_kinematics, decided by algebraic value numbering on every branch: both sides of a law have the same '
             'value numbers (fingerprints modulo 2^61-1, derivatives by the chain rule); branches for small values are compared with the power '
             'series of the general formula.')
    ctx.assume('quaternion arguments have unit length and rotation matrix arguments are rotation matrices, as the functions assert or document')
    k = Kin(ctx)
    quaternions(k)
    elementary(k)
    parametrisations(k)
    ctx.at_least('parametrisations', 5)


def quaternions(K_):
    k_, f = K_, K_.f
    q2r, r2q, qp, qo = f('quat2r', '4x1'), f('r2quat', '3x3'), f('qplus', '4x1', '4x1'), f('qoplus', '4x1', '4x1')
    Qp, Qo, qi, inv_ = f('quatPlus', '4x1'), f('quatOPlus', '4x1'), f('quatInv', '4x1'), f('invertQuat', '4x1')
    qr, a2q, upd = f('quatRotate', '4x1', '3x1'), f('axisAngle2quat', '3x1'), f('updateQuat', '4x1', '3x1')
    a2R = f('axisAngle2R', '3x1')

    def b(k):
        q = unit(k, 'q')
        return eq('the rotation matrix of the quaternion is another one', run(k, q2r, vec(*q)), quat_to_rot(q))
    k_.prove('quat2r', q2r, b)

    def b(k):
        q, p = unit(k, 'q'), unit(k, 'p')
        r = run(k, qp, vec(*q), vec(*p))
        return eq('the product does not rotate like the product of the rotation matrices', quat_to_rot(r), mul(quat_to_rot(q), quat_to_rot(p))) \
            + eq('the product with the identity is not the quaternion itself', run(k, qp, vec(*q), vec(0, 0, 0, 1)), col(q))
    k_.prove('qplus', qp, b)

    def b(k):
        q, p = [k.sym('q', i) for i in range(4)], [k.sym('p', i) for i in range(4)]
        r = run(k, qp, vec(*q), vec(*p))
        return eq('the matrix is not that of the product from the left', mul(run(k, Qp, vec(*q)), col(p)), r)
    k_.prove('quatPlus', Qp, b)

    def b(k):
        q, p = [k.sym('q', i) for i in range(4)], [k.sym('p', i) for i in range(4)]
        return eq('the matrix is not that of the product from the right', mul(run(k, Qo, vec(*q)), col(p)), run(k, qp, vec(*p), vec(*q)))
    k_.prove('quatOPlus', Qo, b)

    def b(k):
        q, p = [k.sym('q', i) for i in range(4)], [k.sym('p', i) for i in range(4)]
        return eq('it is not the product with exchanged factors', run(k, qo, vec(*q), vec(*p)), run(k, qp, vec(*p), vec(*q)))
    k_.prove('qoplus', qo, b)

    def b(k):
        q = unit(k, 'q')
        i = run(k, qi, vec(*q))
        m = vec(*q)
        k.call(inv_, None, [m])
        return eq('the product with the inverse is not the identity', run(k, qp, vec(*q), V(i)), col([0, 0, 0, 1])) \
            + eq('invertQuat and quatInv differ', nums(m), i)
    k_.prove('quatInv', qi, b)

    def b(k):
        q = unit(k, 'q')
        v = k.invec('v', 3)
        return eq('rotating a vector differs from multiplying it with the rotation matrix', run(k, qr, vec(*q), v), mul(quat_to_rot(q), nums(v)))
    k_.prove('quatRotate', qr, b)

    def b(k):
        q = unit(k, 'q')
        R = quat_to_rot(q)
        r = run(k, r2q, V(R))
        out = eq('the quaternion does not have the rotation matrix that was given', quat_to_rot(r), R) if r else [('r2quat', UNK, UNK)]
        if r:
            out.append(('the quaternion is not of unit length', total(x[0] * x[0] for x in r), const(1)))
            if isinstance(r[3][0], S):
                out.append(('the scalar part of the quaternion may be negative', k.p.test(r[3][0], frozenset('>='), 'sign'), True))
        return out
    k_.prove('r2quat', r2q, b)

    def b(k):
        q, a = unit(k, 'q'), k.invec('a', 3)
        dq = run(k, a2q, a)
        return eq('the update is not the product of the quaternion of the increment with the quaternion', run(k, upd, vec(*q), a),
                  run(k, qp, V(dq), vec(*q)))
    k_.prove('updateQuat', upd, b)

    def axis(k, name='u'):
        """a unit axis and an angle"""
        u = unit(k, name, 3)
        return u, k.sym('theta')

    def rodrigues(k, u, th):
        s, c = k.fun('sin', th), k.fun('cos', th)
        U = cross(u)
        UU = mul(U, U)
        return [[const(int(i == j)) - s * U[i][j] + (const(1) - c) * UU[i][j] for j in range(3)] for i in range(3)]

    def positive(k, x):
        x = const(x)
        k.p.facts[min(x.v, P - x.v)] = frozenset('>' if x.v <= P // 2 else '<')

    def b(k):
        u, th = axis(k)
        positive(k, th)
        a = [x * th for x in u]
        q = run(k, a2q, vec(*a))
        if q is None:
            return [('axisAngle2quat', UNK, UNK)]
        return eq('the quaternion does not rotate about the axis by the angle', quat_to_rot(q), rodrigues(k, u, th)) + \
            [('the quaternion is not of unit length', total(x[0] * x[0] for x in q), const(1))]
    k_.prove('axisAngle2quat', a2q, b)

    def b(k):
        a = [S(eps(k.p.atom('a', i))) for i in range(3)]
        return [('entry %d' % i, x[0]) for i, x in enumerate(run(k, a2q, vec(*a)) or [])]
    k_.small('axisAngle2quat', a2q, b)

    for g in (a2R, f('axisAngle2R', 'float', 'float', 'float'), f('axisAngle2R', 'float', 'float', 'float', 'float')):
        def b(k):
            u, th = axis(k)
            positive(k, th)
            a = [x * th for x in u]
            if len(g.params) == 4:
                R = run(k, g, Box(th), *[Box(x) for x in u])
            elif len(g.params) == 3:
                R = run(k, g, *[Box(x) for x in a])
            else:
                R = run(k, g, vec(*a))
            return eq('the matrix does not rotate about the axis by the angle', R, rodrigues(k, u, th))
        if g is not None:
            k_.prove('axisAngle2R%d' % len(g.params), g, b)
    def b(k):
        a = [S(eps(k.p.atom('a', i))) for i in range(3)]
        return [('entry %d' % i, x) for i, x in enumerate(sum(run(k, a2R, vec(*a)) or [], []))]
    k_.small('axisAngle2R', a2R, b)

    R2a = f('R2AxisAngle', '3x3')

    def b(k):
        u, th = axis(k)
        positive(k, th)
        a = [x * th for x in u]
        t = k.half_tangent(min(th.v, P - th.v))
        t = t if th.v <= P // 2 else -t % P
        if not calc.qr(t):
            raise calc.NoRoot()
        c = k.fun('cos', th)
        for x in (const(1) - c, const(1) + c):
            positive(k, x)
        r = run(k, R2a, V(rodrigues(k, u, th)))
        return eq('the vector is not axis times angle of the rotation', r, col(a))
    k_.prove('R2AxisAngle', R2a, b)

    for single in (False, True):
        g = f('quat2AxisAngle', ('f' if single else '') + '4x1')

        def b(k, acute):
            u, th = axis(k)
            positive(k, th)
            s, c = k.fun('sin', th), k.fun('cos', th)
            if not calc.qr(s.v) or calc.qr(c.v) != acute:
                raise calc.NoRoot()
            r = run(k, g, vec(*[x * s for x in u] + [c]))
            consistent(k, c)
            return eq('the vector is not axis times angle of the quaternion', r, col([x * th * 2 for x in u]))
        for acute in (True, False):
            k_.prove('quat2AxisAngle' + 'f' * single, g, lambda k: b(k, acute))

        def b(k):
            u, th = unit(k, 'u', 3), S(eps(k.p.atom('th')))
            s, c = k.fun('sin', th), k.fun('cos', th)
            r = run(k, g, vec(*[x * s for x in u] + [c]))
            return [('entry %d' % i, x[0]) for i, x in enumerate(r or [])]
        k_.small('quat2AxisAngle' + 'f' * single, g, b, single)

    S_, iS, qJ = f('quatS', '4x1'), f('quatInvS', '4x1'), f('quatJacobian', '4x1')

    def b(k):
        q = unit(k, 'q')
        A, B = run(k, S_, vec(*q)), run(k, iS, vec(*q))
        return eq('quatS times quatInvS is not the identity', mul(A, B) if A and B else None, eye(3))
    k_.prove('quatS', S_, b)

    def b(k):
        # d/da qexp(a) q at a = 0:  1/2 [a; 0] q
        q = unit(k, 'q')
        J, I = run(k, qJ, vec(*q)), run(k, iS, vec(*q))
        out = []
        for j in range(3):
            e = [const(0)] * 4
            e[j] = const(1)
            w = run(k, qp, vec(*e), vec(*q))
            out += eq('column %d is not the derivative of the updated quaternion' % j, [[r[j]] for r in J], scale(const(1) / 2, w))
            out += eq('quatInvS differs from quatJacobian', [[r[j]] for r in I], [[r[j]] for r in J])
        return out
    k_.prove('quatJacobian', qJ, b)

    for single in (False, True):
        t = 'f' if single else ''
        eD, lD, eJ, lJ2 = f('expDiffMat', t + '3x1'), f('logDiffMat', t + '3x1'), f('quatExpJacobian', t + '3x1'), f('quatLogJacobian2', t + '4x1')
        lJ = f('quatLogJacobian', '4x1')

        def dquat(k, name='a'):
            """quaternion of an axis-angle vector, with its derivatives"""
            a = [k.var(name, i) for i in range(3)]
            n = calc.s_sqrt(total(x * x for x in a))
            h = n * (const(1) / 2)
            s, c = k.fun('sin', h), k.fun('cos', h)
            return a, n, [x * s / n for x in a] + [c]

        def b(k):
            a, n, q = dquat(k)
            J = run(k, eJ, vec(*[S(x.v) for x in a]))
            if J is None:
                return [('quatExpJacobian', UNK, UNK)]
            return [('entry (%d,%d) is not the derivative of the quaternion' % (i, j), J[i][j], S(q[i].d.get(('a', j), 0))) for i in range(4) for j in range(3)]
        k_.prove('quatExpJacobian' + t, eJ, b)

        def b(k):
            a = [S(eps(k.p.atom('a', i))) for i in range(3)]
            return [('entry %d' % i, x) for i, x in enumerate(sum(run(k, eD, vec(*a)) or [], []))]
        k_.small('expDiffMat' + t, eD, b, single)

        def b(k):
            a = [S(eps(k.p.atom('a', i))) for i in range(3)]
            return [('entry %d' % i, x) for i, x in enumerate(sum(run(k, lD, vec(*a)) or [], []))]
        k_.small('logDiffMat' + t, lD, b, single)

        def b(k):
            a = [k.sym('a', i) for i in range(3)]
            A, B = run(k, eD, vec(*a)), run(k, lD, vec(*a))
            return eq('logDiffMat is not the inverse of expDiffMat', mul(A, B) if A and B else None, eye(3))
        k_.prove('logDiffMat' + t, lD, b)
        for nm, g in (('quatLogJacobian2' + t, lJ2), ('quatLogJacobian', None if single else lJ)):
            def b(k):
                a, n, q = dquat(k)
                s = k.fun('sin', S(n.v) * (const(1) / 2))
                if not calc.qr(s.v):
                    raise calc.NoRoot()
                J = run(k, g, vec(*[S(x.v) for x in q]))
                E = [[S(q[i].d.get(('a', j), 0)) for j in range(3)] for i in range(4)]
                return eq('it is not the derivative of the axis-angle vector along unit quaternions', mul(J, E) if J else None, eye(3))
            if g is not None:
                k_.prove(nm, g, b)

    sl, lp = f('qslerp', '4x1', '4x1', 'float'), f('lerp', '-1x1', '-1x1', 'float')

    def half(k, x):
        return k

    def b(k):
        p = unit(k, 'p')
        u, th = axis(k)
        positive(k, th)
        s, c = k.fun('sin', th), k.fun('cos', th)
        if not calc.qr(s.v):
            raise calc.NoRoot()
        dq = [x * s for x in u] + [c]
        q1 = [r[0] for r in run(k, qp, vec(*p), vec(*dq))]
        t = k.sym('t')
        positive(k, t)
        positive(k, const(1) - t)
        n0 = total((x - y) * (x - y) for x, y in zip(p, q1))
        n1 = total((x + y) * (x + y) for x, y in zip(p, q1))
        positive(k, n1 - n0)
        r = run(k, sl, vec(*p), vec(*q1), Box(t))
        s2, c2 = k.fun('sin', th * t), k.fun('cos', th * t)
        return eq('the interpolated quaternion is not that part of the way along the rotation', r, run(k, qp, vec(*p), vec(*[x * s2 for x in u] + [c2])))
    k_.prove('qslerp', sl, b)

    def b(k):
        p, q = unit(k, 'p'), unit(k, 'q')
        t = k.sym('t')
        positive(k, t)
        positive(k, const(1) - t)
        r = run(k, sl, vec(*p), vec(*q), Box(t))
        m = run(k, sl, vec(*p), vec(*[-x for x in q]), Box(t))
        if r is None or m is None:
            return [('qslerp', UNK, UNK)]
        return eq('the interpolation depends on the sign of a quaternion', r, m)
    # both signs mean the same rotation; which of them is nearer has to be the same question for both
    k_.prove('qslerp.sign', sl, b)

    def b(k):
        p, q = unit(k, 'p'), unit(k, 'q')
        return eq('at 0 the first quaternion is not returned', run(k, sl, vec(*p), vec(*q), Box(const(0))), col(p)) \
            + eq('at 1 the second quaternion is not returned', run(k, sl, vec(*p), vec(*q), Box(const(1))), col(q))
    k_.prove('qslerp.ends', sl, b)

    def b(k):
        p, q, t = k.invec('p', 3), k.invec('q', 3), k.sym('t')
        a, b_ = nums(p), nums(q)
        positive(k, t)
        positive(k, const(1) - t)
        r = run(k, lp, p, q, Box(t))
        return eq('the interpolation is not linear', r, add(scale(const(1) - t, a), scale(t, b_))) \
            + eq('at 0 the first vector is not returned', run(k, lp, p, q, Box(const(0))), a) \
            + eq('at 1 the second vector is not returned', run(k, lp, p, q, Box(const(1))), b_)
    k_.prove('lerp', lp, b)


def axis_rot(k, i, th):
    s, c = k.fun('sin', th), k.fun('cos', th)
    R = eye(3)
    a, b = (i + 1) % 3, (i + 2) % 3
    R[a][a] = R[b][b] = c
    R[a][b], R[b][a] = -s, s
    return R


def elementary(K_):
    k_, f = K_, K_.f
    for i, x in enumerate('xyz'):
        for p, sg in (('R', 1), ('C', -1)):
            g = f(p + x, 'float')

            def b(k):
                th = k.sym('theta')
                return eq('the matrix does not rotate about the %s axis by the angle' % x, run(k, g, Box(th)), axis_rot(k, i, th * sg))
            k_.prove(p + x, g, b)
    cx3, cxv = f('crossMx', 'float', 'float', 'float'), [g for t in ('3x1', '-1x1', 'f3x1', 'f-1x1') for g in [f('crossMx', t)] if g is not None]

    for g in [cx3] + cxv:
        def b(k):
            a = [k.sym('a', i) for i in range(3)]
            r = run(k, g, *([Box(x) for x in a] if len(g.params) == 3 else [vec(*a)]))
            return eq('the matrix is not that of the cross product', r, cross(a))
        if g is not None:
            k_.prove('crossMx.' + ptype(g, 0), g, b)
    for nm, sg in (('rph2R', 1), ('rph2C', -1)):
        for ts in (('float',) * 3, ('3x1',), ('-1x1',)):
            g = fn(K_.prog, K + nm, *ts)

            def b(k):
                a = [k.sym('a', i) for i in range(3)]
                r = run(k, g, *([Box(x) for x in a] if len(ts) == 3 else [vec(*a)]))
                w = mul(mul(axis_rot(k, 2, a[2] * sg), axis_rot(k, 1, a[1] * sg)), axis_rot(k, 0, a[0] * sg))
                return eq('the matrix is not the rotation about z times that about y times that about x', r, w)
            if g is not None:
                k_.prove(nm + str(len(ts)) + ts[0], g, b)
    for nm, sg in (('R2rph', 1), ('C2rph', -1)):
        for t in ('3x3', '-1x-1'):
            g = fn(K_.prog, K + nm, t)

            def b(k):
                a = [k.sym('a', i) for i in range(3)]
                C = mul(mul(axis_rot(k, 2, a[2] * sg), axis_rot(k, 1, a[1] * sg)), axis_rot(k, 0, a[0] * sg))
                if not calc.qr(k.fun('cos', a[1]).v):
                    raise calc.NoRoot()
                return eq('the angles are not those of the rotation matrix', run(k, g, V(C)), col(a))
            if g is not None:
                k_.prove(nm + t, g, b)


def parametrisations(K_):
    prog, ctx = K_.prog, K_.ctx
    base = [c for c in prog.classes.values() if c.q == K + 'RotationalKinematics']
    ctx.need(base, 'RotationalKinematics')
    for c in sorted(prog.subclasses(base[0].fq), key=lambda c: c.fq if not isinstance(c, str) else c):
        c = prog.classes[c] if isinstance(c, str) else c
        if c.fq == base[0].fq:
            continue
        ctx.count('parametrisations')
        name = c.fq.replace(K, '')
        m = lambda n, np: prog.method(c.fq, n, np)
        p2R, p2S, R2p, av = m('parametersToRotationMatrix', 2), m('parametersToSMatrix', 1), m('rotationMatrixToParameters', 1), m('angularVelocityAndJacobian', 3)
        iS = m('parametersToInverseSMatrix', 1)
        o = lambda: Obj(c.fq, ('kin',))

        def b(k):
            p, s = k.invec('p', 3), Mat(None, 3, 3)
            s = calc.mfun(3, 3, lambda i, j: UNK)
            C = run(k, p2R, p, Box(Ptr(s)), this=o())
            if C is None:
                return [('parametersToRotationMatrix', UNK, UNK)]
            out = eq('the matrix is not a rotation matrix', mul(tr(C), C), eye(3))
            T = run(k, p2S, k.invec('p', 3), this=o())
            out += eq('the S matrix handed out is not that of parametersToSMatrix', nums(s), T)
            C2 = run(k, p2R, k.invec('p', 3), Box(False), this=o())
            out += eq('the rotation matrix depends on whether S is asked for', C, C2)
            if T is None:
                return out
            for j in range(3):
                # C(p + dp) = (1 - (S dp)^x) C(p)
                out += eq('column %d of S is not the derivative of the rotation' % j, d(C, ('p', j)), scale(-1, mul(cross([r[j] for r in T]), C)))
            return out
        K_.prove(name + '.rotation', p2R, b)

        def b(k):
            p, pd = k.invec('p', 3), k.invec('pd', 3)
            J = calc.mfun(3, 6, lambda i, j: UNK)
            w = run(k, av, p, pd, Box(Ptr(J)), this=o())
            p, pd = k.invec('p', 3), k.invec('pd', 3)
            T = run(k, p2S, p, this=o())
            if w is None or T is None:
                return [('angularVelocityAndJacobian', UNK, UNK)]
            want = mul(T, nums(pd))
            out = eq('the angular velocity is not S times the parameter rates', w, want)
            w0 = run(k, av, p, pd, Box(False), this=o())
            out += eq('the angular velocity depends on whether the Jacobian is asked for', w, w0)
            Jn = nums(J)
            if Jn is not None:
                keys = [('p', j) for j in range(3)] + [('pd', j) for j in range(3)]
                out += [('entry (%d,%d) of the Jacobian is not the derivative of the angular velocity' % (i, j), Jn[i][j], S(want[i][0].d.get(keys[j], 0)))
                        for i in range(3) for j in range(6)]
            return out
        K_.prove(name + '.velocity', av, b)

        def b(k):
            a = [k.sym('p', i) for i in range(3)]
            C = run(k, p2R, vec(*a), Box(False), this=o())
            if C is None:
                return None
            r = run(k, R2p, V(C), this=o())
            return eq('the parameters are not those of the rotation matrix', r, col(a))
        if not vector_like(c):
            K_.prove(name + '.parameters', R2p, b)
        else:
            def b(k):
                # theta in (0, pi) about a unit axis; the parameter is the axis times h(theta)
                u, th = unit(k, 'u', 3), k.sym('theta')
                t = k.fun('tan', th * (const(1) / 2))
                if not calc.qr(t.v):
                    raise calc.NoRoot()
                s, cth = k.fun('sin', th), k.fun('cos', th)
                for x in (const(1) - cth, const(1) + cth, th, s):
                    k.p.facts[min(x.v, P - x.v)] = frozenset('>' if x.v <= P // 2 else '<')
                U = cross(u)
                C = add(sub(eye(3), scale(s, U)), scale(const(1) - cth, mul(U, U)))
                r = run(k, R2p, V(C), this=o())
                if r is None:
                    return [('rotationMatrixToParameters', UNK, UNK)]
                return eq('the parameters are not those of the rotation matrix', run(k, p2R, V(r), Box(False), this=o()), C)
            K_.prove(name + '.parameters', R2p, b)

        def b(k):
            a = [S(eps(k.p.atom('a', i))) for i in range(3)]
            s = calc.mfun(3, 3, lambda i, j: UNK)
            C = run(k, p2R, vec(*a), Box(Ptr(s)), this=o())
            return [('entry %d' % i, x) for i, x in enumerate(sum(C or [], []) + sum(nums(s) or [], []))]
        K_.small(name + '.rotation', p2R, b)

        def b(k):
            a = [S(eps(k.p.atom('a', i))) for i in range(3)]
            C = run(k, p2S, vec(*a), this=o())
            return [('entry %d' % i, x) for i, x in enumerate(sum(C or [], []))]
        K_.small(name + '.S', p2S, b)
        if iS is not None:
            def b(k):
                p = k.invec('p', 3)
                A, B = run(k, iS, p, this=o()), run(k, p2S, k.invec('p', 3), this=o())
                return eq('the inverse S matrix times the S matrix is not the identity', mul(A, B) if A and B else None, eye(3))
            K_.prove(name + '.inverse', iS, b)


def vector_like(c):
    """parameters along the rotation axis"""
    return c.fq.endswith('RotationVector') or c.fq.endswith('Rodriguez')


# ------------------------------------------------------------------ transformations
def transformations(ctx):
    ctx.rule('Laws between the functions and operators on transformations, homogeneous points and their uncertainties, decided by algebraic '
             'value numbering on every branch: both sides of a law have the same value numbers (fingerprints modulo 2^61-1, derivatives by the '
             'chain rule).')
    ctx.assume('quaternions of transformations have unit length')
    k = Kin(ctx)
    matrices(k)
    objects(k)
    points(k)
    uncertain_vectors(k)
    ctx.at_least('laws decided', 5)


def homog(C, t):
    return [list(C[i]) + [const(t[i])] for i in range(3)] + [[const(0)] * 3 + [const(1)]]


def boxplus(d_):
    X = cross(d_[3:])
    return [[X[i][j] for j in range(3)] + [-d_[i]] for i in range(3)] + [[const(0)] * 4]


def boxtimes(C, t):
    X = scale(-1, mul(cross(t), C))
    return [C[i] + X[i] for i in range(3)] + [[const(0)] * 3 + C[i] for i in range(3)]


def matrices(K_):
    k_, f = K_, K_.f
    rt, t2C, t2r, t2h = f('rt2Transform', '3x3', '3x1'), f('transform2C', '4x4'), f('transform2rho', '4x4'), f('transform2rhoHomogeneous', '4x4')
    bp, bm, bt, it = f('boxPlus', '6x1'), f('boxMinus', '4x1'), f('boxTimes', '4x4'), f('inverseTransform', '4x4')
    fE, tE, tE6 = f('fromTEuler', '4x4'), f('toTEuler', '6x1'), f('toTEuler', *['float'] * 6)
    tj, ij = f('transformationAndJacobian', '4x4', '4x1', '4x1', '4x6'), f('inverseTransformationAndJacobian', '4x4', '4x1', '4x1', '4x6')
    th, thJ, fh, fhJ = f('toHomogeneous', '3x1', '4x3'), f('toHomogeneousJacobian', '3x1'), f('fromHomogeneous', '4x1', '3x4'), f('fromHomogeneousJacobian', '4x1')

    def T(k):
        C, t = rot(k, 'q'), [k.sym('t', i) for i in range(3)]
        return C, t, homog(C, t)

    def b(k):
        C, t, M = T(k)
        return eq('the matrix does not consist of the rotation and the translation', run(k, rt, V(C), vec(*t)), M)
    k_.prove('rt2Transform', rt, b)

    def b(k):
        C, t, M = T(k)
        return eq('the rotation is not that of the transformation', run(k, t2C, V(M)), C)
    k_.prove('transform2C', t2C, b)

    def b(k):
        C, t, M = T(k)
        return eq('the translation is not that of the transformation', run(k, t2r, V(M)), col(t))
    k_.prove('transform2rho', t2r, b)

    def b(k):
        C, t, M = T(k)
        return eq('the translation is not that of the transformation', run(k, t2h, V(M)), col(t + [const(1)]))
    k_.prove('transform2rhoHomogeneous', t2h, b)

    def b(k):
        C, t, M = T(k)
        return eq('the product with the inverse is not the identity', mul(run(k, it, V(M)), M), eye(4))
    k_.prove('inverseTransform', it, b)

    def b(k):
        x, p = [k.sym('d', i) for i in range(6)], [k.sym('p', i) for i in range(4)]
        A, B = run(k, bp, vec(*x)), run(k, bm, vec(*p))
        return eq('it is not the matrix of the small motion', A, boxplus(x)) + \
            eq('boxMinus times the motion is not minus boxPlus times the point', mul(B, col(x)), scale(-1, mul(A, col(p))))
    k_.prove('boxPlus', bm, b)

    def b(k):
        C, t, M = T(k)
        x = [k.sym('d', i) for i in range(6)]
        B, I = run(k, bt, V(M)), run(k, it, V(M))
        y = mul(B, col(x))
        return eq('it does not carry motions through the transformation', mul(mul(M, boxplus(x)), I), boxplus([r[0] for r in y]))
    k_.prove('boxTimes', bt, b)

    def moved(k, M, name='dt'):
        """(1 - boxPlus(dt)) M at dt = 0, with the derivatives"""
        x = [S(0, {(name, i): 1}) for i in range(6)]
        return mul(sub(eye(4), boxplus(x)), M)

    def b(k):
        C, t, M = T(k)
        v = [k.sym('v', i) for i in range(4)]
        o, J = calc.mfun(4, 1, lambda i, j: UNK), calc.mfun(4, 6, lambda i, j: UNK)
        k.call(tj, None, [V(M), vec(*v), o, J])
        w = mul(moved(k, M), col(v))
        return eq('the point is not the transformed one', nums(o), w) + jac(nums(J), w, [('dt', i) for i in range(6)])
    k_.prove('transformationAndJacobian', tj, b)

    def b(k):
        C, t, M = T(k)
        v = [k.sym('v', i) for i in range(4)]
        o, J = calc.mfun(4, 1, lambda i, j: UNK), calc.mfun(4, 6, lambda i, j: UNK)
        k.call(ij, None, [V(M), vec(*v), o, J])
        # ((1 - X) M)^-1 v = M^-1 (1 + X) v
        x = [S(0, {('dt', i): 1}) for i in range(6)]
        w = mul(mul(run(k, it, V(M)), add(eye(4), boxplus(x))), col(v))
        return eq('the point is not the one transformed by the inverse', nums(o), w) + jac(nums(J), w, [('dt', i) for i in range(6)])
    k_.prove('inverseTransformationAndJacobian', ij, b)

    def b(k):
        a, t = [k.sym('a', i) for i in range(3)], [k.sym('t', i) for i in range(3)]
        C = mul(mul(axis_rot(k, 2, -a[2]), axis_rot(k, 1, -a[1])), axis_rot(k, 0, -a[0]))
        return eq('the matrix is not that of the translation and the angles', run(k, tE, vec(*(t + a))), homog(C, t))
    k_.prove('toTEuler', tE, b)

    def b(k):
        x = [k.sym('x', i) for i in range(6)]
        return eq('the overloads differ', run(k, tE6, *[Box(y) for y in x]), run(k, tE, vec(*x)))
    k_.prove('toTEuler6', tE6, b)

    def b(k):
        a, t = [k.sym('a', i) for i in range(3)], [k.sym('t', i) for i in range(3)]
        if not calc.qr(k.fun('cos', a[1]).v):
            raise calc.NoRoot()
        C = mul(mul(axis_rot(k, 2, -a[2]), axis_rot(k, 1, -a[1])), axis_rot(k, 0, -a[0]))
        return eq('the parameters are not those of the transformation', run(k, fE, V(homog(C, t))), col(t + a))
    k_.prove('fromTEuler', fE, b)

    def b(k):
        v, J = k.invec('v', 3), calc.mfun(4, 3, lambda i, j: UNK)
        h = run(k, th, v, Box(Ptr(J)))
        out = eq('it is not the point with a one appended', h, nums(v) + [[const(1)]]) + jac(nums(J), nums(v) + [[const(1)]], [('v', i) for i in range(3)])
        return out + eq('toHomogeneousJacobian is not the derivative', run(k, thJ, v), nums(J))
    k_.prove('toHomogeneous', th, b)

    def b(k):
        v, J = k.invec('v', 4), calc.mfun(3, 4, lambda i, j: UNK)
        n = nums(v)
        w = [[n[i][0] / n[3][0]] for i in range(3)]
        h = run(k, fh, v, Box(Ptr(J)))
        out = eq('it is not the point divided by its scale', h, w) + jac(nums(J), w, [('v', i) for i in range(4)])
        return out + eq('fromHomogeneousJacobian is not the derivative', run(k, fhJ, v), nums(J)) \
            + eq('the value depends on whether the Jacobian is asked for', run(k, fh, v, Box(False)), h)
    k_.prove('fromHomogeneous', fh, b)
    for nm, sg in (('toHomogeneousPlus', 1), ('toHomogeneousMinus', -1)):
        g = f(nm, '4x1')

        def b(k):
            p, q = [k.sym('p', i) for i in range(4)], [k.sym('q', i) for i in range(4)]
            A = run(k, g, vec(*p))
            r = mul(A, col(q))
            # r = q +- p as points
            return [('the matrix does not %s the point' % ('add' if sg > 0 else 'subtract'), r[i][0] * p[3] * q[3], (q[i] * p[3] + p[i] * q[3] * sg) * r[3][0]) for i in range(3)]
        k_.prove(nm, g, b)
    g = f('toHomogeneousColumns', '-1x-1')

    def b(k):
        M = [[k.sym('m', i, j) for j in range(2)] for i in range(3)]
        return eq('the columns are not the points with a one appended', run(k, g, V(M)), M + [[const(1), const(1)]])
    k_.prove('toHomogeneousColumns', g, b)
    g2 = f('fromHomogeneousColumns', '-1x-1')

    def b(k):
        M = [[k.sym('m', i, j) for j in range(2)] for i in range(4)]
        return eq('the columns are not the points divided by their scale', run(k, g2, V(M)), [[M[i][j] / M[3][j] for j in range(2)] for i in range(3)])
    k_.prove('fromHomogeneousColumns', g2, b)


def jac(J, w, keys, msg='entry (%d,%d) of the Jacobian is not the derivative'):
    if J is None:
        return [(msg % (0, 0), UNK, UNK)]
    return [(msg % (i, j), J[i][j], S(w[i][0].d.get(keys[j], 0))) for i in range(len(w)) for j in range(len(keys))]


def obj_T(k, cls, name, U=False, unc=None):
    """a transformation with a unit quaternion"""
    o = Obj(cls, (name,))
    q, t = unit(k, name + 'q'), [k.sym(name + 't', i) for i in range(3)]
    o.f['_q_a_b'], o.f['_t_a_b_a'] = vec(*q), vec(*t)
    o.q, o.t, o.C = q, t, quat_to_rot(q)
    if U:
        o.U = sym_mat(k, name + 'U', 6)
        o.f['_U'] = V(o.U)
    return o


def sym_mat(k, name, n):
    return [[k.sym(name, min(i, j), max(i, j)) for j in range(n)] for i in range(n)]


def obj_P(k, cls, name, U=False, unit_=False):
    o = Obj(cls, (name,))
    o.p = unit(k, name) if unit_ else [k.sym(name, i) for i in range(4)]
    o.f['_ph'] = vec(*o.p)
    if U:
        o.U = sym_mat(k, name + 'U', 4)
        o.f['_U'] = V(o.U)
    return o


def field(k, o, n):
    o = k.rv(o)
    return nums(o.f[n]) if isinstance(o, Obj) and n in o.f else None


def objects(K_):
    prog, ctx = K_.prog, K_.ctx
    TC, UT, HP, UP, UV = (K + x for x in ('Transformation', 'UncertainTransformation', 'HomogeneousPoint', 'UncertainHomogeneousPoint', 'UncertainVector<3>'))

    def m(c, name, *types):
        g = fn(prog, c + '::' + name, *types)
        if g is None:
            ctx.count('functions not found')
        else:
            ctx.fns.add(g.u)
        return g
    T_, T34, C_, inv_, S_ = m(TC, 'T'), m(TC, 'T3x4'), m(TC, 'C'), m(TC, 'inverse'), m(TC, 'S')
    opl, set_ = m(TC, 'oplus', '6x1'), m(TC, 'set', '4x4')
    msg = 'the result is not that of the product of the matrices'

    def b(k):
        o = obj_T(k, TC, 'A')
        return eq('the matrix does not consist of the rotation and the translation', run(k, T_, this=o), homog(o.C, o.t)) \
            + eq('the rotation is not that of the quaternion', run(k, C_, this=o), o.C) \
            + eq('the 3x4 matrix is not the upper part of the matrix', run(k, T34, this=o), homog(o.C, o.t)[:3])
    K_.prove('Transformation.T', T_, b)

    def result(k, r):
        """matrix of a transformation object"""
        r = k.rv(r)
        q, t = field(k, r, '_q_a_b'), field(k, r, '_t_a_b_a')
        return homog(quat_to_rot(q), [x[0] for x in t]) if q and t else None

    def b(k):
        o = obj_T(k, TC, 'A')
        r = result(k, k.call(inv_, o, []))
        return eq('the product with the inverse is not the identity', mul(r, homog(o.C, o.t)) if r else None, eye(4))
    K_.prove('Transformation.inverse', inv_, b)

    def b(k):
        A, B = obj_T(k, TC, 'A'), obj_T(k, TC, 'B')
        return eq(msg, result(k, k.call(tt, A, [B])), mul(homog(A.C, A.t), homog(B.C, B.t)))
    tt = m(TC, 'operator*', 'Transformation')
    K_.prove('Transformation.operator*', tt, b)
    for n in (3, 4):
        g, r_ = m(TC, 'operator*', '%dx1' % n), m(TC, 'rotate', '%dx1' % n)

        def b(k):
            A, v = obj_T(k, TC, 'A'), [k.sym('v', i) for i in range(n)]
            h = v + [const(1)] * (4 - n)
            return eq(msg, run(k, g, vec(*v), this=A), mul(homog(A.C, A.t), col(h))[:n])
        K_.prove('Transformation.operator*%d' % n, g, b)

        def b(k):
            A, v = obj_T(k, TC, 'A'), [k.sym('v', i) for i in range(n)]
            return eq('the result is not that of the rotation matrix', run(k, r_, vec(*v), this=A), mul(A.C, col(v[:3])) + ([[v[3]]] if n == 4 else []))
        K_.prove('Transformation.rotate%d' % n, r_, b)
    ct4, cqt = m(TC, 'Transformation', '4x4'), m(TC, 'Transformation', '4x1', '3x1')
    for g, nm in ((ct4, 'ctor'), (set_, 'set')):
        def b(k):
            o = Obj(TC, ('obj',))
            q, t = unit(k, 'q'), [k.sym('t', i) for i in range(3)]
            M = homog(quat_to_rot(q), t)
            k.call(g, o, [V(M)])
            return eq('the transformation is not that of the matrix', result(k, o), M)
        K_.prove('Transformation.%s.4x4' % nm, g, b)

    def b(k):
        o = Obj(TC, ('obj',))
        q, t = unit(k, 'q'), [k.sym('t', i) for i in range(3)]
        k.call(cqt, o, [vec(*q), vec(*t)])
        return eq('the transformation is not that of quaternion and translation', result(k, o), homog(quat_to_rot(q), t))
    K_.prove('Transformation.ctor.qt', cqt, b)

    def b(k):
        o = obj_T(k, TC, 'A')
        x = [S(0, {('dt', i): 1}) for i in range(6)]
        M0 = homog(o.C, o.t)
        # the derivative at 0 by the series of the update in one direction at a time
        out = []
        Sn = run(k, S_, this=o)
        for i in range(6):
            o = obj_T(k, TC, 'A')
            d6 = [const(0)] * 6
            d6[i] = S(eps(1))
            k.call(opl, o, [vec(*d6)])
            R = result(k, o)
            if R is None or Sn is None:
                return [('oplus', UNK, UNK)]
            e6 = [const(0)] * 6
            e6[i] = const(1)
            y = [r[0] for r in mul(Sn, col(e6))]
            w = scale(-1, mul(boxplus(y), M0))
            out += eq('S does not relate the update to the motion of the transformation (column %d)' % i,
                      [[S(coef(z, 1)) for z in r] for r in R], w)
            out += eq('an update of zero length changes the transformation', [[S(coef(z, 0)) for z in r] for r in R], M0)
        return out
    K_.prove('Transformation.oplus', opl, b)
    utm, ut1, ut2 = m(UT, 'operator*', 'UncertainTransformation'), m(UT, 'operator*', 'Transformation'), m(TC, 'operator*', 'UncertainTransformation')
    uinv = m(UT, 'inverse')
    um = 'the covariance is not the one propagated to first order'

    def b(k, g, ua, ub):
        A, B = obj_T(k, UT if ua else TC, 'A', ua), obj_T(k, UT if ub else TC, 'B', ub)
        r = k.call(g, A, [B])
        U = [[const(0)] * 6 for _ in range(6)]
        if ua:
            U = add(U, A.U)
        if ub:
            X = boxtimes(A.C, A.t)
            U = add(U, mul(mul(X, B.U), tr(X)))
        return eq(msg, result(k, r), mul(homog(A.C, A.t), homog(B.C, B.t))) + eq(um, field(k, r, '_U'), U)
    for g, ua, ub in ((utm, 1, 1), (ut1, 1, 0), (ut2, 0, 1)):
        K_.prove('compose.%d%d' % (ua, ub), g, lambda k: b(k, g, ua, ub))

    def b(k):
        A = obj_T(k, UT, 'A', True)
        r = k.call(uinv, A, [])
        R = result(k, r)
        Ci = tr(A.C)
        ti = [x[0] for x in scale(-1, mul(Ci, col(A.t)))]
        X = boxtimes(Ci, ti)
        return eq('the product with the inverse is not the identity', mul(R, homog(A.C, A.t)) if R else None, eye(4)) \
            + eq(um, field(k, r, '_U'), mul(mul(X, A.U), tr(X)))
    K_.prove('UncertainTransformation.inverse', uinv, b)
    uo, suo = m(UT, 'UOplus'), m(UT, 'setUOplus', '6x6')

    def b(k):
        A = obj_T(k, UT, 'A', True)
        W = sym_mat(k, 'W', 6)
        k.call(suo, A, [V(W)])
        Sn = run(k, S_, this=A)
        return eq('the covariance is not that of the update carried over by S', field(k, A, '_U'), mul(mul(Sn, W), tr(Sn))) \
            + eq('UOplus does not give back what setUOplus was given', run(k, uo, this=A), W)
    K_.prove('UncertainTransformation.UOplus', suo, b)
    ctors(K_, UT, TC)

    # points
    def bm_(p):
        p = list(p)
        X = scale(-1, cross(p[:3]))
        return [[p[3] * int(i == j) for j in range(3)] + [-x for x in X[i]] for i in range(3)] + [[const(0)] * 6]

    def b(k, g, ua, ub, hp):
        A = obj_T(k, UT if ua else TC, 'A', ua)
        p = obj_P(k, UP if ub else HP, 'p', ub)
        r = k.rv(k.call(g, A, [p]))
        M = homog(A.C, A.t)
        w = mul(M, col(p.p))
        out = eq(msg, field(k, r, '_ph'), w)
        if ua or ub:
            U = [[const(0)] * 4 for _ in range(4)]
            if ua:
                # (1 - boxPlus(dt)) T p
                x = [S(0, {('dt', i): 1}) for i in range(6)]
                wd = mul(mul(sub(eye(4), boxplus(x)), M), col(p.p))
                J = [[S(wd[i][0].d.get(('dt', j), 0)) for j in range(6)] for i in range(4)]
                U = add(U, mul(mul(J, A.U), tr(J)))
            if ub:
                U = add(U, mul(mul(M, p.U), tr(M)))
            out += eq(um, field(k, r, '_U'), U)
        return out
    for c, t, ua, ub in ((TC, 'HomogeneousPoint', 0, 0), (TC, 'UncertainHomogeneousPoint', 0, 1), (UT, 'HomogeneousPoint', 1, 0), (UT, 'UncertainHomogeneousPoint', 1, 1)):
        g = m(c, 'operator*', t)
        K_.prove('point.%d%d' % (ua, ub), g, lambda k: b(k, g, ua, ub, HP))
    g3 = m(TC, 'rotate', 'UncertainVector<3>')

    def b(k):
        A = obj_T(k, TC, 'A')
        v = Obj(UV, ('v',))
        x, E = [k.sym('v', i) for i in range(3)], sym_mat(k, 'E', 3)
        v.f['_v'], v.f['_E'] = vec(*x), V(E)
        r = k.rv(k.call(g3, A, [v]))
        return eq('the mean is not the rotated one', field(k, r, '_v'), mul(A.C, col(x))) + eq(um, field(k, r, '_E'), mul(mul(A.C, E), tr(A.C)))
    K_.prove('Transformation.rotate.uncertain', g3, b)
    interpolation(K_, TC, result)


def coef(x, n):
    v = const(x).v
    if isinstance(v, int):
        return v if n == 0 else 0
    return v.at(n)


def ctors(K_, UT, TC):
    prog = K_.prog
    for g in sorted((g for g in prog.named(UT + '::UncertainTransformation') if g.kind == 'ctor' and g.body is not None and g.params), key=lambda g: g.u):
        ts = [ptype(g, i) for i in range(len(g.params))]
        if ts[0] == 'UncertainTransformation':
            continue

        def b(k):
            o = Obj(UT, ('obj',))
            q, t = unit(k, 'q'), [k.sym('t', i) for i in range(3)]
            M = homog(quat_to_rot(q), t)
            U = [[const(0)] * 6 for _ in range(6)]
            args, fl = [], []
            for x in ts:
                if x == '4x4':
                    args.append(V(M))
                elif x == '4x1':
                    args.append(vec(*q))
                elif x == '3x1':
                    args.append(vec(*t))
                elif x == 'Transformation':
                    T = Obj(TC, ('T',))
                    T.f['_q_a_b'], T.f['_t_a_b_a'] = vec(*q), vec(*t)
                    args.append(T)
                elif x == '6x6':
                    U = sym_mat(k, 'U', 6)
                    args.append(V(U))
                elif x == 'float':
                    v = k.sym('var', len(fl))
                    fl.append(v)
                    args.append(Box(v))
                else:
                    return None
            if len(fl) == 2:
                U = [[fl[i // 3] if i == j else const(0) for j in range(6)] for i in range(6)]
            k.call(g, o, args)
            qq, tt = field(k, o, '_q_a_b'), field(k, o, '_t_a_b_a')
            if qq is None or tt is None:
                return [('constructor', UNK, UNK)]
            return eq('the transformation is not the one given', homog(quat_to_rot(qq), [x[0] for x in tt]), M) + eq('the covariance is not the one given', field(k, o, '_U'), U)
        K_.prove('UncertainTransformation.ctor.' + '.'.join(ts), g, b)


def interpolation(K_, TC, result):
    sl = K_.f('slerpTransformations', 'Transformation', 'Transformation', 'float')
    ip = K_.f('interpolateTransformations', 'Transformation', 'float', 'Transformation', 'float', 'float')
    qs = K_.f('qslerp', '4x1', '4x1', 'float')

    def positive(k, x):
        x = const(x)
        if x.q is None:
            k.p.facts[min(x.v, P - x.v)] = frozenset('>' if x.v <= P // 2 else '<')

    def b(k):
        A, B, s = obj_T(k, TC, 'A'), obj_T(k, TC, 'B'), k.sym('s')
        positive(k, s)
        positive(k, const(1) - s)
        r = k.rv(k.call(sl, A, [])) if False else k.rv(k.call(sl, None, [A, B, Box(s)]))
        q = run(k, qs, vec(*A.q), vec(*B.q), Box(s))
        R = result(k, r)
        if q is None or R is None:
            return [('slerp', UNK, UNK)]
        t = [a * (const(1) - s) + b_ * s for a, b_ in zip(A.t, B.t)]
        return eq('rotation and translation are not interpolated at the same place', R, homog(quat_to_rot(q), t))
    K_.prove('slerpTransformations', sl, b)

    def b(k):
        A, B, s0, s1, s = obj_T(k, TC, 'A'), obj_T(k, TC, 'B'), k.sym('s0'), k.sym('s1'), k.sym('s')
        positive(k, s1 - s0)
        positive(k, s1 - s0 - const(1) / const(10 ** 14))
        positive(k, (s - s0) / (s1 - s0))
        positive(k, const(1) - (s - s0) / (s1 - s0))
        r = result(k, k.call(ip, None, [A, Box(s0), B, Box(s1), Box(s)]))
        m_ = result(k, k.call(ip, None, [B, Box(s1), A, Box(s0), Box(s)]))
        w = result(k, k.call(sl, None, [A, B, Box((s - s0) / (s1 - s0))]))
        return eq('the place of interpolation is not that between the two times', r, w) \
            + eq('the interpolation depends on the order of its arguments', m_, w)
    K_.prove('interpolateTransformations', ip, b)


def points(K_):
    prog, ctx = K_.prog, K_.ctx
    HP, UP = K + 'HomogeneousPoint', K + 'UncertainHomogeneousPoint'

    def m(c, name, *types):
        g = fn(prog, c + '::' + name, *types)
        if g is not None:
            ctx.fns.add(g.u)
        return g
    te, teJ, hJ, opl = m(HP, 'toEuclidean'), m(HP, 'toEuclideanAndJacobian', '3x3'), m(HP, 'toHomogeneousAndJacobian', '4x3'), m(HP, 'oplus', '3x1')

    def b(k):
        o = obj_P(k, HP, 'p')
        w = [[o.p[i] / o.p[3]] for i in range(3)]
        J = calc.mfun(3, 3, lambda i, j: UNK)
        r = run(k, te, this=o)
        r2 = run(k, teJ, J, this=o)
        Jn = nums(J)
        out = eq('it is not the point divided by its scale', r, w) + eq('the overload with a Jacobian gives another point', r2, w)
        Jh = calc.mfun(4, 3, lambda i, j: UNK)
        h = run(k, hJ, Jh, this=o)
        Hn = nums(Jh)
        out += eq('the overload with a Jacobian gives another homogeneous point', h, col(o.p))
        for i in range(3):
            o = obj_P(k, HP, 'p')
            x = [const(0)] * 3
            x[i] = S(eps(1))
            k.call(opl, o, [vec(*x)])
            ph = field(k, o, '_ph')
            if ph is None:
                return out + [('oplus', UNK, UNK)]
            e = [ph[r][0] / ph[3][0] for r in range(3)]
            if Jn is not None:
                out += [('entry (%d,%d) of the Jacobian is not the derivative of the updated Euclidean point' % (r, i), Jn[r][i], S(coef(e[r], 1))) for r in range(3)]
            if Hn is not None:
                out += [('entry (%d,%d) of the Jacobian is not the derivative of the updated homogeneous point' % (r, i), Hn[r][i], S(coef(ph[r][0], 1))) for r in range(4)]
            out += eq('an update of zero length changes the point', [[S(coef(z[0], 0))] for z in ph], col(o.p))
        return out
    K_.prove('HomogeneousPoint.jacobians', teJ, b)
    for sg, op in ((1, 'operator+'), (-1, 'operator-')):
        for c, t, ua, ub in ((HP, 'HomogeneousPoint', 0, 0), (HP, 'UncertainHomogeneousPoint', 0, 1), (UP, 'HomogeneousPoint', 1, 0), (UP, 'UncertainHomogeneousPoint', 1, 1)):
            g = m(c, op, t)

            def b(k):
                A, B = obj_P(k, UP if ua else HP, 'A', ua), obj_P(k, UP if ub else HP, 'B', ub)
                ra = run(k, g, B, this=A)
                r = k.rv(k.call(g, A, [B]))
                ph = field(k, r, '_ph')
                if ph is None:
                    return [('sum', UNK, UNK)]
                out = [('the result is not that of the Euclidean points', ph[i][0] * A.p[3] * B.p[3], (A.p[i] * B.p[3] + B.p[i] * A.p[3] * sg) * ph[3][0]) for i in range(3)]
                if ua or ub:
                    # derivative of the result with respect to both points
                    a, b_ = [k.var('A', i) for i in range(4)], [k.var('B', i) for i in range(4)]
                    w = [a[i] * b_[3] + b_[i] * a[3] * sg for i in range(3)] + [a[3] * b_[3]]
                    JA = [[S(w[i].d.get(('A', j), 0)) for j in range(4)] for i in range(4)]
                    JB = [[S(w[i].d.get(('B', j), 0)) for j in range(4)] for i in range(4)]
                    U = field(k, r, '_U')
                    if eqs(ph, col(w)):
                        out += eq('the covariance is not the one propagated to first order', U, add(mul(mul(JA, A.U if ua else scale(0, eye(4))), tr(JA)), mul(mul(JB, B.U if ub else scale(0, eye(4))), tr(JB))))
                return out
            K_.prove('%s.%s.%s' % (c.replace(K, ''), op, t), g, b)
    nrm, un, u3, uav, suo = m(HP, 'normalize'), m(UP, 'normalize'), m(UP, 'U3'), m(UP, 'U_av_form'), m(UP, 'setUOplus', '3x3')

    def b(k):
        o = obj_P(k, HP, 'p')
        k.call(nrm, o, [])
        ph = field(k, o, '_ph')
        if ph is None:
            return [('normalize', UNK, UNK)]
        return [('the point is not of unit length', total(x[0] * x[0] for x in ph), const(1))] + \
            [('it has become another point', ph[i][0] * o.p[3], o.p[i] * ph[3][0]) for i in range(3)]
    K_.prove('HomogeneousPoint.normalize', nrm, b)

    def b(k):
        o = obj_P(k, UP, 'p', True)
        v = [k.var('p', i) for i in range(4)]
        n = calc.s_sqrt(total(x * x for x in v))
        w = [x / n for x in v]
        J = [[S(w[i].d.get(('p', j), 0)) for j in range(4)] for i in range(4)]
        k.call(un, o, [])
        return eq('the point is not the normalized one', field(k, o, '_ph'), col(w)) + \
            eq('the covariance is not the one propagated to first order', field(k, o, '_U'), mul(mul(J, o.U), tr(J)))
    K_.prove('UncertainHomogeneousPoint.normalize', un, b)

    def b(k):
        o = obj_P(k, UP, 'p', True)
        v = [k.var('p', i) for i in range(4)]
        w = [v[i] / v[3] for i in range(3)]
        J = [[S(w[i].d.get(('p', j), 0)) for j in range(4)] for i in range(3)]
        return eq('the covariance is not that of the Euclidean point', run(k, u3, this=o), mul(mul(J, o.U), tr(J)))
    K_.prove('UncertainHomogeneousPoint.U3', u3, b)

    def b(k):
        o = obj_P(k, UP, 'p', True, True)
        W = sym_mat(k, 'W', 3)
        k.call(suo, o, [V(W)])
        return eq('U_av_form does not give back what setUOplus was given', run(k, uav, this=o), W)
    K_.prove('UncertainHomogeneousPoint.UOplus', suo, b)
    for g in sorted((g for g in prog.named(UP + '::UncertainHomogeneousPoint') if g.kind == 'ctor' and g.body is not None and g.params), key=lambda g: g.u):
        ts = [ptype(g, i) for i in range(len(g.params))]
        if ts[0] == 'UncertainHomogeneousPoint':
            continue

        def b(k):
            o = Obj(UP, ('obj',))
            p = unit(k, 'p')
            U = [[const(0)] * 4 for _ in range(4)]
            args = []
            if ts[0] == '3x1':
                p = p[:3] + [const(1)]
                args.append(vec(*p[:3]))
            elif ts[0] == '4x1':
                args.append(vec(*p))
            elif ts[0] == 'HomogeneousPoint':
                h = Obj(HP, ('h',))
                h.f['_ph'] = vec(*p)
                args.append(h)
            else:
                return None
            if len(ts) > 1 and ts[1] == '4x4':
                U = sym_mat(k, 'U', 4)
                args.append(V(U))
            elif len(ts) > 1 and ts[1] == '3x3':
                W = sym_mat(k, 'W', 3)
                args.append(V(W))
                if ts[0] == '3x1':
                    U = [[W[i][j] if i < 3 and j < 3 else const(0) for j in range(4)] for i in range(4)]
                else:
                    U = None
            elif len(ts) > 1:
                return None
            k.call(g, o, args)
            out = eq('the point is not the one given', field(k, o, '_ph'), col(p))
            if U is None:
                return out + eq('the covariance is not the one given', run(k, uav, this=o), W)
            return out + eq('the covariance is not the one given', field(k, o, '_U'), U)
        K_.prove('UncertainHomogeneousPoint.ctor.' + '.'.join(ts), g, b)


def eqs(a, b):
    return all(x.v == y.v for r, s in zip(a, b) for x, y in zip(r, s))


def uncertain_vectors(K_):
    """sums, products and quotients of uncertain quantities, to first order, for independent operands"""
    prog, ctx = K_.prog, K_.ctx
    U1 = K + 'UncertainVector<1>'

    def mk(k, cls, name):
        n = 1 if cls == U1 else 3
        o = Obj(cls, (name,))
        if n == 1:
            o.m, o.E = [[k.var(name, 0)]], [[k.sym(name + 'E')]]
            o.f['_v'], o.f['_sigma2'] = Box(S(o.m[0][0].v)), Box(o.E[0][0])
        else:
            o.m, o.E = [[k.var(name, i)] for i in range(n)], sym_mat(k, name + 'E', n)
            o.f['_v'], o.f['_E'] = vec(*[S(x[0].v) for x in o.m]), V(o.E)
        return o
    for g in sorted((g for c in (U1, K + 'UncertainVector<3>') for nm in ('operator+', 'operator-', 'operator*', 'operator/', 'dot')
                     for g in prog.named(K + 'UncertainVector::' + nm) if g.fcls == c and g.body is not None and len(g.params) == 1), key=lambda g: g.u):
        ctx.fns.add(g.u)
        t = ptype(g, 0)
        op = g.n.replace('operator', '')

        def b(k):
            A = mk(k, g.fcls, 'A')
            n = len(A.m)
            if t.startswith('UncertainVector<'):
                B = mk(k, K + t, 'B')
                Bm, BE, arg = B.m, B.E, B
            elif t == 'float':
                Bm, BE = [[k.sym('B', 0)]], [[const(0)]]
                arg = Box(Bm[0][0])
            elif t.endswith('x1'):
                Bm = [[k.sym('B', i)] for i in range(n)]
                BE, arg = [[const(0)] * n for _ in range(n)], vec(*[x[0] for x in Bm])
            else:
                return None
            if op in ('+', '-'):
                w = [[x[0] + y[0] if op == '+' else x[0] - y[0]] for x, y in zip(A.m, Bm)]
            elif op == '/':
                w = [[x[0] / Bm[0][0]] for x in A.m]
            elif op == 'dot':
                w = [[total(x[0] * y[0] for x, y in zip(A.m, Bm))]]
            else:
                w = [[x[0] * y[0]] for x in A.m for y in Bm] if 1 in (len(Bm), n) else None
            if w is None:
                return None
            JA = [[S(x[0].d.get(('A', j), 0)) for j in range(n)] for x in w]
            JB = [[S(x[0].d.get(('B', j), 0)) for j in range(len(Bm))] for x in w]
            E = add(mul(mul(JA, A.E), tr(JA)), mul(mul(JB, BE), tr(JB)))
            r = k.rv(k.call(g, A, [arg]))
            return eq('the mean is not that of the operation', field(k, r, '_v'), w) + \
                eq('the covariance is not the one propagated to first order', field(k, r, '_sigma2') or field(k, r, '_E'), E)
        K_.prove('%s.%s.%s' % (g.fcls.replace(K, ''), g.n, t), g, b)
