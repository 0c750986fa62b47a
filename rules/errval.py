"""Error terms that are built from expressions: what the error is, and that its Jacobians are its derivatives."""
import calc
from calc import Mat, Box, Obj, Ptr, S, UNK, Stop, NoRoot, Path, const, mat
from alg import *
from jac import prove
import exprs
from kin import obj_T, homog
from exprs import Ex, World, EXPR, kind_of_arg, gather, compare, tangent, bare, members

A = 'aslam::backend::'


class Er(Ex):
    def inv4(self, T):
        C = tr([r[:3] for r in T[:3]])
        return [C[i] + [mul(C, [[T[j][3]] for j in range(3)])[i][0] * -1] for i in range(3)] + [T[3]]

    def on_call(self, n, recv, args):
        nm = n.get('n')
        if nm in ('setInvR', 'setSqrtInvR') and 'ErrorTerm' in str(n.get('q')):
            self.weight = nums(args[0])
            return None
        if nm == 'setError' and 'ErrorTerm' in str(n.get('q')):
            self.err = nums(args[0])
            return None
        if nm == 'R2AxisAngle' and len(args) == 1:
            return self.kinematics('rotationMatrixToParameters', args)
        if nm == 'parametersToInverseSMatrix' and len(args) == 1:
            a = nums(args[0])
            if a is None or [x[0].v for x in a] != getattr(self, 'par', None):
                return UNK
            return mat(nums(self.inverse(mat([[self.sym('S', i, j) for j in range(3)] for i in range(3)]))))
        if nm in ('evaluateChiSquaredError',):
            return self.sym('chi')
        if nm in ('setDesignVariables', 'setDesignVariablesIterator') and 'ErrorTerm' in str(n.get('q')):
            return None
        return super().on_call(n, recv, args)


def prior(k, f, i):
    """arguments that are not expressions"""
    ty = f.types[f.params[i]['t']]
    r = bare(ty.r)
    m = calc.dims(r) if r.startswith('Eigen::') else None
    if m and None not in m:
        return Mat([[Box(k.sym('par', i, a, b)) for b in range(m[1])] for a in range(m[0])])
    if ty.b == 'float' or r == 'double':
        return Box(k.sym('par', i))
    if ty.b == 'int':
        return Box(0)
    return None


def lever(al, w, r):
    return add(mul(cross(al), r), mul(cross(w), mul(cross(w), r)))


def pick(i, v):
    return [v[j] if j == i else [const(0)] for j in range(3)]


# what the error has to be, from the values of the constructor's arguments in order (without the weight)
MEANING = {
    'kalibr::EuclideanError': lambda y, R, p: sub(p, y),
    'kalibr::GyroscopeError': lambda y, R, w, b: sub(add(w, b), y),
    'kalibr::GyroscopeNoBiasError': lambda y, R, w: sub(w, y),
    'kalibr::AccelerometerError': lambda y, R, C, a, b, g: sub(add(mul(C, sub(a, g)), b), y),
    'kalibr::AccelerometerErrorEccentric': lambda y, R, M, C, a, w, al, Ci, rx, ry, rz, b, g:
        sub(add(mul(M, mul(Ci, add(add(add(mul(C, sub(a, g)), pick(0, lever(al, w, rx))), pick(1, lever(al, w, ry))), pick(2, lever(al, w, rz))))), b), y),
    'kalibr::GyroscopeErrorEccentric': lambda y, R, M, Ma, C, a, w, al, Ci, r, b, g:
        sub(add(mul(M, add(mul(Ci, w), mul(Ma, mul(Ci, add(mul(C, sub(a, g)), lever(al, w, r)))))), b), y),
    A + 'ErrorTermEuclidean': lambda t, p, *w: sub(t, p),
}


def values(ctx, prog):
    W = World.__new__(World)
    W.ctx, W.prog = ctx, prog
    seen = 0
    for fq in sorted(prog.classes):
        if fq not in MEANING and fq != A + 'ErrorTermTransformation':
            continue
        for c in W.ctors(fq):
            if any(bare(c.types[p['t']].r) == fq for p in c.params) or not c.params:
                continue
            seen += term(ctx, W, fq, c)
    ctx.need(seen >= 6, 'error terms made of expressions (%d)' % seen)
    marginalization(ctx, prog)
    reprojection(ctx, prog)
    camera(ctx, prog)


def weight(k, fq, vals):
    """the information matrix the arguments ask for"""
    if fq.startswith('kalibr::'):
        return vals[1]
    w = [v for v in vals[2:] if v is not None]
    if not w:
        return None
    if len(w[0]) > 1:
        x = k.inverse(mat(w[0]))
        return nums(x) if x is not UNK else None
    d_ = [w[0][0][0]] * 3 if fq == A + 'ErrorTermEuclidean' else [w[1][0][0]] * 3 + [w[0][0][0]] * 3 if len(w) == 2 else None
    return d_ and [[d_[i] if i == j else const(0) for j in range(len(d_))] for i in range(len(d_))]


def term(ctx, W, fq, c):
    name = fq.replace(A, '')

    def b(k):
        k.unit4 = False
        ops, args, vals = [], [], []
        for i in range(len(c.params)):
            n = len(ops)
            r = bare(c.types[c.params[i]['t']].r)
            if r == 'sm::kinematics::Transformation':
                x = obj_T(k, r, 'prior')
                vals.append(homog(x.C, x.t))
            else:
                x = W.expression(k, r, i, ops) if r in EXPR else prior(k, c, i)
                if x is None:
                    return [('an argument', UNK, UNK)]
                vals.append(ops[-1].value if len(ops) > n else nums(x))
            args.append(x)
        o = k.make(c, args)
        k.method(o, 'evaluateErrorImplementation')
        e = getattr(k, 'err', None)
        if e is None:
            return [('the error', UNK, UNK)]
        out = []
        if fq in MEANING:
            out += eq('the error is not the prediction minus the measurement', e, MEANING[fq](*vals))
        if fq == A + 'ErrorTermTransformation':
            out += eq('the translation of the error is not that of the pose relative to the prior', e[:3], [r_[3:] for r_ in mul(vals[0], k.inv4(vals[1]))[:3]])
        w = weight(k, fq, vals)
        if w is not None:
            out += eq('the weight is not that given', getattr(k, 'weight', None), w)
        jc = Obj(A + 'JacobianContainer', ('jc',))
        got = gather(k, ops, lambda: k.method(o, 'evaluateJacobiansImplementation', jc))
        out += compare(k, 'the Jacobian is not the derivative of the error', got, ops, lambda x: tangent('euclidean', e, x.keys))
        return out
    n = prove(ctx, 'value.' + name, c, name, 'value', b, W.prog, cls=Er)
    ctx.count('errors with a stated meaning' if n else 'errors not decided')
    ctx.fns.add(c.u)
    return 1


def marginalization(ctx, prog):
    """the prior left by a marginalization: R (x - x0) - d, whichever variables are active"""
    W = World.__new__(World)
    W.ctx, W.prog = ctx, prog
    fq = A + 'MarginalizationPriorErrorTerm'
    cs = [c for c in W.ctors(fq) if len(c.params) == 3]
    ctx.need(cs, 'a constructor of MarginalizationPriorErrorTerm')
    c = cs[0]
    kinds = [(A + 'EuclideanPoint', 'euclidean', 3), (A + 'Scalar', 'scalar', 1), (A + 'EuclideanPoint', 'euclidean', 3)]

    def b(k):
        k.unit4, k.abs_forks = False, True
        dvs = []
        for i, (t, kd, n) in enumerate(kinds):
            f = [g for g in W.ctors(t) if len(g.params) == 1 and bare(g.types[g.params[0]['t']].r) != t]
            f = [g for g in f if kd == 'scalar' or 'double, 3, 1' in g.types[g.params[0]['t']].r.replace('3, 1, 0, 3, 1', '3, 1')]
            v = [[k.sym('x', i, j)] for j in range(n)]
            dvs.append(k.make(f[0], [mat(v) if n > 1 else Box(v[0][0])]))
        R = [[k.sym('R', i, j) for j in range(7)] for i in range(2)]
        d = [[k.sym('d', i)] for i in range(2)]
        o = k.make(c, [calc.Seq([Box(Ptr(v)) for v in dvs]), mat(d), mat(R)])
        step = []
        for i, (v, (t, kd, n)) in enumerate(zip(dvs, kinds)):
            a = [k.sym('a', i, j) for j in range(n)]
            k.method(v, 'update', Box(Ptr([Box(x) for x in a], 0)), Box(n))
            step += [[x] for x in a]
        k.method(o, 'evaluateErrorImplementation')
        e = getattr(k, 'err', None)
        if e is None:
            return [('the error', UNK, UNK)]
        out = eq('the error is not R times the change since then, less d', e, sub(mul(R, step), d))
        k.rec = []
        k.method(o, 'evaluateJacobiansImplementation', Obj(A + 'JacobianContainer', ('jc',)))
        at = 0
        for i, (v, (t, kd, n)) in enumerate(zip(dvs, kinds)):
            J = [j for w, j in k.rec if w is v]
            if len(J) != 1 or J[0] is UNK or J[0] is None:
                out += [('the Jacobian', UNK, UNK)] if J or any(j is UNK for w, j in k.rec) else [('a variable without a Jacobian', False, True)]
            else:
                out += eq('the Jacobian is not the columns of R', J[0], [r[at:at + n] for r in R])
            at += n
        return out
    n = prove(ctx, 'value.MarginalizationPriorErrorTerm', c, 'MarginalizationPriorErrorTerm', 'value', b, prog, cls=Er)
    ctx.count('errors with a stated meaning' if n else 'errors not decided')
    ctx.fns.add(c.u)


class Cam(Er):
    """a camera is opaque: it projects a point to symbols, and hands out symbols for the Jacobian"""

    def image(self, p):
        v = nums(p)
        if v is None or len(v) != 4:
            return None
        key = tuple(S(x.v).v for r in v for x in r)
        if key == self.at:
            return 'p'
        k, w = [S(x).v for x in self.at], list(key)
        if all(same_(S(k[i]) * S(w[j]), S(k[j]) * S(w[i])) for i in range(4) for j in range(i)):
            return None         # the same point on another scale
        return 'other' + str(key)

    def on_call(self, n, recv, args):
        nm, q = n.get('n'), str(n.get('q'))
        if nm == 'homogeneousToKeypoint' and len(args) in (2, 3):
            im = self.image(args[0])
            if im is None:
                return UNK
            self.store(args[1], mat([[self.sym('hat', im, i)] for i in range(2)]))
            if len(args) == 3:
                self.store(args[2], mat([[self.sym('J', im, i, j) for j in range(4)] for i in range(2)]))
            return self.sym('valid', im)
        if 'CameraDesignVariable' in q:
            if nm == 'evaluateJacobians':
                self.cams.append(tuple(args[1:]))
                return None
            if nm == 'getDesignVariables':
                return None
            if nm == 'camera':
                return Ptr(Obj('camera', ('camera',)))
        if nm in ('y', 'invR') and not args and recv is not None:
            return mat(self.Y if nm == 'y' else self.R)
        if nm == 'keypoint' and len(args) == 1:
            return Obj('keypoint', ('keypoint',))
        if nm == 'geometry' and not args:
            return Obj('camera', ('camera',))
        if nm == 'covarianceMap' and not args:
            return mat([[self.sym('A', i, j) for j in range(2)] for i in range(2)])
        return super().on_call(n, recv, args)


def same_(a, b):
    x = (a - b).v if hasattr(a - b, 'v') else a - b
    return isinstance(x, int) and x % calc.P == 0


def reprojection(ctx, prog):
    """the error of an image point is the measurement less the projection, its Jacobian that of it"""
    W = World.__new__(World)
    W.ctx, W.prog = ctx, prog
    seen = 0
    for fq in sorted(prog.classes):
        if not fq.startswith(A) or fq.split('<')[0][len(A):] not in ('ReprojectionError', 'SimpleReprojectionError', 'CovarianceReprojectionError'):
            continue
        for c in W.ctors(fq):
            if len(c.params) < 3:
                continue
            for given in (False, True) if any('spline' in p.get('n', '') or 'Spline' in c.types[p['t']].r for p in c.params) else (False,):
                seen += image(ctx, W, fq, c, given, seen)
    ctx.need(seen >= 4, 'errors of image points (%d)' % seen)


def image(ctx, W, fq, c, given, at):
    name = exprs.short(fq).split('<')[0]

    def b(k):
        k.unit4, k.cams = False, []
        k.Y = [[k.sym('y', i)] for i in range(2)]
        k.R = [[k.sym('R', min(i, j), max(i, j)) for j in range(2)] for i in range(2)]
        ops, args = [], []
        cam = Obj('camera', ('camera',))
        for i, p in enumerate(c.params):
            r = bare(c.types[p['t']].r)
            m = calc.dims(r) if r.startswith('Eigen::') else None
            if r in EXPR:
                x = W.expression(k, r, i, ops)
            elif m and m[1] == 1:
                x = mat(k.Y)
            elif m:
                x = mat(k.R)
            elif c.types[p['t']].b == 'int' or r == 'int':
                x = Box(0)
            elif 'CameraDesignVariable' in r:
                x = Obj(r, ('cdv',))
            elif 'Spline' in r:
                x = Box(Ptr(Obj(r.rstrip(' *'), ('spline',)))) if given else Box(False)
            elif 'Frame<' in r:
                x = Box(Ptr(Obj('frame', ('frame',))))
            else:
                x = cam
            args.append(x)
        if len(ops) != 1:
            return [('an argument', UNK, UNK)]
        v = ops[0].value
        k.at = tuple(S(x.v).v for r in v for x in r)
        o = k.make(c, args)
        k.method(o, 'evaluateErrorImplementation')
        e = getattr(k, 'err', None)
        if e is None:
            return [('the error', UNK, UNK)]
        hat = [[k.sym('hat', 'p', i)] for i in range(2)]
        out = eq('the error is not the measurement minus the projection', e, sub(k.Y, hat))
        Rw = k.R
        if given:
            Am = [[k.sym('A', i, j) for j in range(2)] for i in range(2)]
            inv = lambda x: nums(k.inverse(mat(x)))
            Rw = inv(mul(mul(Am, inv(k.R)), tr(Am)))
        w = getattr(k, 'weight', None)
        if w is not None or 'Covariance' not in fq:
            out += eq('the weight is not that given', w, Rw)
        jc = Obj(A + 'JacobianContainer', ('jc',))
        k.cams = []
        got = gather(k, ops, lambda: k.method(o, 'evaluateJacobiansImplementation', jc))
        J = [[k.sym('J', 'p', i, j) * -1 for j in range(4)] for i in range(2)]
        out += compare(k, 'the Jacobian is not that of the measurement minus the projection', got, ops,
                       lambda x: mul(J, tangent('euclidean', x.value, x.keys)))
        if any('CameraDesignVariable' in c.types[p['t']].r for p in c.params):
            ps = [k.image(a[-1]) if len(a) == 1 else None for a in k.cams]
            if None in ps:
                out.append(('the point of the camera', UNK, UNK))
            else:
                out.append(('the camera is not differentiated at the point projected', ps == ['p'], True))
        if members(W.prog, fq, 'updateMeasurementAndCovariance'):
            out += renewed(k, o, hat)
        return out
    n = prove(ctx, 'value.%s.%d' % (name, at), c, name, 'value', b, W.prog, cls=Cam)
    ctx.count('errors with a stated meaning' if n else 'errors not decided')
    ctx.fns.add(c.u)
    return 1


def renewed(k, o, hat):
    """a measurement that is replaced is what the error is made of from then on"""
    out = []
    for nm, w in (('updateMeasurement', False), ('updateMeasurementAndCovariance', True)):
        y = [[k.sym(nm, i)] for i in range(2)]
        R = [[k.sym(nm, min(i, j), max(i, j)) for j in range(2)] for i in range(2)]
        k.err = None
        k.method(o, nm, *([mat(y)] + [mat(R)] * w))
        k.method(o, 'evaluateErrorImplementation')
        out += eq('after %s the error is not the new measurement minus the projection' % nm, k.err, sub(y, hat))
        if w or k.weight is None:
            out += eq('after %s the weight is not that given' % nm, k.weight, R)
        else:
            out += eq('%s changes the weight' % nm, k.weight, k.R)
        out += eq('getMeasurement does not give the measurement', nums(k.rv(k.method(o, 'getMeasurement'))), y)
    out += eq('getPredictedMeasurement does not give the projection', nums(k.rv(k.method(o, 'getPredictedMeasurement'))), hat)
    return out


PARTS = {'Intrinsics': ('projection', 4), 'Distortion': ('distortion', 3), 'Shutter': ('shutter', 1)}


class Cdv(Cam):
    """a camera hands out its parts, and symbols for the Jacobians by them"""

    def on_call(self, n, recv, args):
        nm = n.get('n')
        for part, (what, m) in PARTS.items():
            if nm == 'homogeneousToKeypoint%sJacobian' % part and len(args) == 2:
                im = self.image(args[0])
                if im is None:
                    return UNK
                self.store(args[1], mat([[self.sym(part, im, i, j) for j in range(m)] for i in range(2)]))
                return None
            if nm == what and not args and 'CameraDesignVariable' not in str(n.get('q')) and recv is not None:
                return self.parts[what]
        return Er.on_call(self, n, recv, args)


def camera(ctx, prog):
    """what a camera hands to its parts: minus the Jacobian by that part, if that part is estimated"""
    W = World.__new__(World)
    W.ctx, W.prog = ctx, prog
    seen = 0
    for fq in sorted(prog.classes):
        if not fq.startswith(A + 'CameraDesignVariable<'):
            continue
        for c in W.ctors(fq):
            if len(c.params) != 1 or bare(c.types[c.params[0]['t']].r) == fq:
                continue
            for flags in range(8):
                seen += handed(ctx, W, fq, c, [bool(flags >> i & 1) for i in range(3)])
    ctx.need(seen, 'a camera design variable')


def handed(ctx, W, fq, c, active):
    def b(k):
        k.unit4 = False
        k.parts = {w: Obj(w, (w,)) for w, _ in PARTS.values()}
        o = k.make(c, [Box(Ptr(Obj('camera', ('camera',))))])
        dvs = {}
        for v in o.f.values():
            v = k.rv(v)
            v = k.rv(k.deref(v)) if isinstance(v, Ptr) else v
            if isinstance(v, Obj) and 'DesignVariableAdapter' in str(v.cls):
                for x in v.f.values():
                    x = k.rv(x)
                    x = k.rv(k.deref(x)) if isinstance(x, Ptr) else x
                    if isinstance(x, Obj) and x.path[0] in k.parts:
                        if x.path[0] in dvs:
                            return [('two variables for one part', UNK, UNK)]
                        dvs[x.path[0]] = v
        if len(dvs) != 3:
            return [('the variables of the parts', UNK, UNK)]
        k.method(o, 'setActive', *[Box(a) for a in active])
        p = [[k.sym('p', i)] for i in range(4)]
        k.at = tuple(S(x.v).v for r in p for x in r)
        k.rec = []
        k.method(o, 'evaluateJacobians', Obj(A + 'JacobianContainer', ('jc',)), mat(p))
        out, known = [], {id(v) for v in dvs.values()}
        if any(not isinstance(w, Obj) or id(w) not in known for w, _ in k.rec):
            return [('a variable that is not one of the parts', UNK, UNK)]
        for (part, (what, m)), act in zip(PARTS.items(), active):
            J = [j for w, j in k.rec if w is dvs[what]]
            want = [[k.sym(part, 'p', i, j) * -1 for j in range(m)] for i in range(2)]
            if any(j is UNK or j is None for j in J):
                out.append(('a Jacobian', UNK, UNK))
            elif len(J) > 1:
                out.append(('the %s is handed more than one Jacobian' % what, UNK, UNK))
            elif J:
                out += eq('the %s is not handed minus the Jacobian of the projection by it' % what, J[0], want)
            elif what != 'shutter':
                out.append(('the %s is handed no Jacobian although it is estimated' % what, act, False))
        k.rec = []
        k.method(o, 'getDesignVariables', Obj('set', ('set',)))
        if all(j == 'dv' and isinstance(w, Obj) and id(w) in known for w, j in k.rec):
            for part, (what, m) in PARTS.items():
                out.append(('the %s is not among the design variables' % what, any(w is dvs[what] for w, _ in k.rec), True))
        else:
            out.append(('the design variables', UNK, UNK))
        return out
    name = exprs.short(fq).split('<')[0]
    n = prove(ctx, 'value.%s.%s' % (name, ''.join(str(int(a)) for a in active)), c, name, 'value', b, W.prog, cls=Cdv)
    ctx.count('camera parts by value' if n else 'camera parts not decided')
    ctx.fns.add(c.u)
    return 1
