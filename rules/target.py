"""Calibration targets, their observations and their detector: which corner is which."""
import itertools
import facts
import calc
import exprs
import spline
import splinex
from calc import Mat, Box, Obj, Ptr, Seq, S, UNK, Stop, const, mat
from alg import *
from exprs import plain, members
from splinex import Sx

C = 'aslam::cameras::'
NCORNERS = [(0, 0), (0, 1), (1, 1), (1, 0)]      # (row, column) of the corners of a tag in the order of the tag detector


class Tx(Sx):
    """pictures are matrices of unknown numbers"""

    def __init__(self, prog, path):
        super().__init__(prog, path)
        self.seen = []

    def picture(self, rows, cols, *name):
        o = Obj('cv::Mat', name)
        o.f['grid'] = calc.mfun(rows, cols, lambda i, j: self.sym(*(name + (i, j))))
        o.f['rows'], o.f['cols'] = Box(rows), Box(cols)
        return o

    def ev_ctor(self, n):
        cls = exprs.bare(n.type.r)
        kids = [c for c in n.c if c is not None]
        if cls.startswith('cv::_') and kids:
            return self.ev(kids[0])
        if cls == 'cv::Mat' and not n.get('copy') and not n.get('move') and len(kids) == 3:
            r, c = self.rv(self.ev(kids[0])), self.rv(self.ev(kids[1]))
            if isinstance(r, int) and isinstance(c, int):
                self.nobj = getattr(self, 'nobj', 0) + 1
                o = self.picture(r, c, 'mat%d' % self.nobj)
                for b in o.f['grid'].flat():
                    b.v = UNK
                return o
        if cls.startswith(('cv::Size_<', 'cv::Point_<', 'cv::Point3_<')) and len(kids) in (2, 3) and not n.get('copy'):
            o = Obj(cls, ('xy',))
            v = [self.rv(self.ev(x)) for x in kids]
            for nm, x in zip(('width', 'height') if 'Size' in cls else ('x', 'y', 'z'), v):
                o.f[nm] = Box(x if isinstance(x, int) and 'Size' in cls else self.conv_num(x))
            return o
        if cls.startswith(('cv::Point_<', 'cv::Point3_<')) and len(kids) == 1:
            v = self.rv(self.ev(kids[0]))
            if isinstance(v, Obj) and 'x' in v.f:
                return self.copy(v)
        return super().ev_ctor(n)

    def arith(self, op, a, b, n=None):
        if op in ('+', '-') and all(isinstance(x, Obj) and 'x' in x.f and 'y' in x.f for x in (a, b)):
            o = Obj(a.cls, ('xy',))
            for nm in a.f:
                o.f[nm] = Box(super().arith(op, self.rv(a.f[nm]), self.rv(b.f[nm])) if nm in b.f else UNK)
            return o
        return super().arith(op, a, b, n)

    def on_call(self, n, recv, args):
        nm, cls = n.get('n'), str(n.get('fcls'))
        if cls == 'cv::Mat' and recv is not None:
            o = self.rv(recv)
            g = o.f.get('grid') if isinstance(o, Obj) else None
            if isinstance(g, Mat) and g.known:
                a = [self.rv(x) for x in args]
                if nm == 'at' and all(isinstance(x, int) for x in a):
                    b = None
                    if len(a) == 2 and 0 <= a[0] < g.rows and 0 <= a[1] < g.cols:
                        b = g.c[a[0]][a[1]]
                    elif len(a) == 1 and 1 in (g.rows, g.cols) and 0 <= a[0] < g.rows * g.cols:
                        b = [x for r in g.c for x in r][a[0]]
                    if b is None:
                        self.outside = self.fn
                        raise Stop('outside of a picture')
                    return b
                if nm == 'row' and len(a) == 1 and isinstance(a[0], int) and 0 <= a[0] < g.rows:
                    r = Obj('cv::Mat', ('row',))
                    r.f['grid'] = Mat([g.c[a[0]]])
                    r.f['rows'], r.f['cols'] = Box(1), Box(g.cols)
                    return r
                if nm == 'clone':
                    return self.copy(o)
            if nm == 'operator=' and args:
                v = self.rv(args[0])
                if isinstance(o, Obj) and isinstance(v, Obj):
                    o.f = dict(v.f)
                    return o
        if nm == 'cornerSubPix' and len(args) >= 2:
            g = self.grid(args[1])
            if g is None:
                return UNK
            self.seen.append('refined')
            for i, r in enumerate(g.c):
                for j, b in enumerate(r):
                    b.v = self.sym('refined', i, j)
            return None
        if nm in ('findChessboardCorners', 'findCirclesGrid') and len(args) >= 3:
            g, p = self.grid(args[2]), self.as_obj(args[1])
            if g is None or not isinstance(p, Obj) or 'width' not in p.f:
                return UNK
            self.seen.append((self.rv(p.f['width']), self.rv(p.f['height'])))
            if not self.found:
                return False
            for i, r in enumerate(g.c):
                for j, b in enumerate(r):
                    b.v = self.sym('center', i, j)
            return True
        if nm == '__builtin_expect' and len(args) == 2:
            v = self.rv(args[0])
            return v if isinstance(v, (bool, int)) else self.rv(args[1])          # logging
        if nm == 'extractTags':
            return Seq([Box(x) for x in self.tags])
        if nm == 'sort' and recv is None and len(args) in (2, 3):
            a = [self.rv(x) for x in args]
            if all(isinstance(x, Ptr) and isinstance(x.to, list) and x.to is a[0].to for x in a[:2]):
                x = a[0].to[a[0].off:a[1].off]
                ids = []
                for b in x:
                    o = self.rv(b)
                    i = self.rv(o.f['id']) if isinstance(o, Obj) and 'id' in o.f and len(a) == 3 else o
                    if not isinstance(i, int):
                        return UNK
                    ids.append(i)
                a[0].to[a[0].off:a[1].off] = [b for _, b in sorted(zip(ids, x), key=lambda t: t[0])]
                return None
        if nm == 'computeObservation' and isinstance(self.as_target(recv), Obj) and len(args) == 3:
            return self.observe(args)
        if nm == 'estimateTransformation' and len(args) == 2:
            T = self.as_obj(args[1])
            if isinstance(T, Obj):
                self.seen.append(('estimate', self.as_obj(args[0])))
                return self.estimate(T)
        if nm == 'vsEuclideanToKeypoint' and len(args) == 2:
            p, m = nums(args[0]), args[1]
            if p is None or not isinstance(self.rv(m), Mat):
                return UNK
            self.seen.append(('project', p))
            m = self.rv(m)
            m.c = [[Box(x)] for x in self.project(p)]
            m.rows, m.cols = 2, 1
            return True
        if nm in ('eraseImage', 'namedWindow', 'startWindowThread', 'imshow', 'waitKey', 'cvtColor', 'circle', 'putText', 'drawChessboardCorners'):
            return None
        return super().on_call(n, recv, args)

    def as_obj(self, x):
        x = self.rv(x)
        return self.rv(self.deref(x)) if isinstance(x, Ptr) else x

    def as_target(self, x):
        o = self.as_obj(x) if x is not None else None
        return o if isinstance(o, Obj) and o.path == ('target',) else None

    def grid(self, x):
        o = self.as_obj(x)
        g = o.f.get('grid') if isinstance(o, Obj) else None
        return g if isinstance(g, Mat) and g.known else None


class World(splinex.World):
    def __init__(self, ctx):
        spline.World.__init__(self, ctx, 'apriltarget cameras cvbackend expr backend kinematics', 'target')

    def law(self, key, f, what, body):
        def whole(k):
            try:
                return body(k)
            except Stop as e:
                if (e.why == 'throws' or e.why == 'outside of a picture') and not k.p.pos and not k.p.vague:
                    return [('throws although everything is as it should be', False, True)]
                raise
        n = prove(self.ctx, key, f, what, 'target', whole, self.prog, cls=Tx)
        self.ctx.count('laws stated')
        self.ctx.count('laws decided' if n else 'laws not decided')
        if not n:
            self.ctx.sample('not decided: ' + key)
        self.ctx.fns.add(f.u)

    def ctor(self, cls, np):
        c = [g for g in members(self.prog, cls, plain(cls).split('::')[-1]) if g.kind == 'ctor' and g.body is not None and len(g.params) == np]
        c = [g for g in c if not g.params or plain(cls) not in (g.types[g.params[0]['t']].r or '').split('<')[0].split(' ')]
        return c[0] if c else None


def options(k, W, cls, **over):
    o = k.make(W.ctor(cls, 0), [])
    for nm, v in over.items():
        o.f[nm] = Box(v)
    return o


def targets():
    """name, rows and columns of the grid, arguments, points"""
    def checker(k, W, R, Cc):
        a, b = k.gap('row'), k.gap('col')
        o = options(k, W, C + 'GridCalibrationTargetCheckerboard::CheckerboardOptions', showExtractionVideo=False)
        t = k.make(W.ctor(C + 'GridCalibrationTargetCheckerboard', 5), [Box(R), Box(Cc), Box(a), Box(b), o])
        return t, [[a * r, b * c, const(0)] for r in range(R) for c in range(Cc)]

    def circles(asym):
        def f(k, W, R, Cc):
            a = k.gap('space')
            o = options(k, W, C + 'GridCalibrationTargetCirclegrid::CirclegridOptions', showExtractionVideo=False, useAsymmetricCirclegrid=asym)
            t = k.make(W.ctor(C + 'GridCalibrationTargetCirclegrid', 4), [Box(R), Box(Cc), Box(a), o])
            return t, [[a * (2 * c + r % 2), a * r, const(0)] if asym else [a * r, a * c, const(0)] for r in range(R) for c in range(Cc)]
        return f

    def april(k, W, R, Cc):
        s, q = k.gap('size'), k.gap('gap')
        o = options(k, W, C + 'GridCalibrationTargetAprilgrid::AprilgridOptions', showExtractionVideo=False)
        t = k.make(W.ctor(C + 'GridCalibrationTargetAprilgrid', 5), [Box(R // 2), Box(Cc // 2), Box(s), Box(q), o])
        x = lambda i: s * (1 + q) * (i // 2) + s * (i % 2)
        return t, [[x(c), x(r), const(0)] for r in range(R) for c in range(Cc)]
    return [('GridCalibrationTargetCheckerboard', checker, ((2, 3), (4, 2))), ('GridCalibrationTargetCirclegrid', circles(False), ((2, 3), (4, 2))),
            ('GridCalibrationTargetCirclegrid', circles(True), ((4, 3), (3, 2))), ('GridCalibrationTargetAprilgrid', april, ((4, 6), (6, 2)))]


def law_points(W):
    for cls, build, sizes in targets():
        f = W.ctor(C + cls, 4 if 'Circle' in cls else 5)
        W.ctx.need(f, cls)
        for R, Cc in sizes:
            def b(k):
                t, want = build(k, W, R, Cc)
                out = [('rows', k.rv(k.method(t, 'rows')), R), ('columns', k.rv(k.method(t, 'cols')), Cc), ('size', k.rv(k.method(t, 'size')), R * Cc)]
                pts = nums(k.method(t, 'points'))
                out += eq('the points are not those of the target', pts, want)
                if pts is None:
                    return out
                for i in range(R * Cc):
                    out += eq('point(i) is not row i of points()', nums(k.method(t, 'point', Box(i))), [[x] for x in pts[i]])
                for r in range(R):
                    for c in range(Cc):
                        out += eq('gridPoint(r, c) is not the point in row r and column c', nums(k.method(t, 'gridPoint', Box(r), Box(c))), [[x] for x in want[r * Cc + c]])
                        i = k.rv(k.method(t, 'gridCoordinatesToPoint', Box(r), Box(c)))
                        p = k.rv(k.method(t, 'pointToGridCoordinates', Box(r * Cc + c)))
                        out.append(('the points are not counted row by row', i, r * Cc + c))
                        ok = isinstance(p, Obj) and 'first' in p.f
                        out += [('pointToGridCoordinates is not the inverse of gridCoordinatesToPoint', k.rv(p.f[x]) if ok else UNK, v) for x, v in (('first', r), ('second', c))]
                return out
            W.law('%s.points' % cls, f, cls, b)

            def b(k):
                t, want = build(k, W, R, Cc)
                out = []
                for i in range(R * Cc):
                    p = k.rv(k.method(t, 'getPointDataPointer', Box(i)))
                    if not isinstance(p, Ptr) or not isinstance(p.to, list):
                        out.append(('the memory of a point', UNK, UNK))
                        continue
                    out += eq('the memory of point i does not hold point i', [[const(x.v) if x.v is not UNK else UNK for x in p.to[p.off:p.off + 3]]], [want[i]])
                    for d in range(3):
                        p.to[p.off + d].v = k.sym('new', i, d)
                    out += eq('point i is not changed through its memory', nums(k.method(t, 'point', Box(i))), [[k.sym('new', i, d)] for d in range(3)])
                return out
            g = members(W.prog, C + 'GridCalibrationTargetBase', 'getPointDataPointer')[0]
            W.law('%s.memory' % cls, g, 'getPointDataPointer', b)


def observation(k, W, R, Cc):
    t, pts = targets()[0][1](k, W, R, Cc)
    c = [g for g in members(W.prog, C + 'GridCalibrationTargetObservation', 'GridCalibrationTargetObservation') if g.kind == 'ctor' and g.body is not None
         and len(g.params) == 1 and 'shared_ptr<' in (g.types[g.params[0]['t']].r or '')]
    if not c:
        raise Stop('no constructor')
    return t, pts, k.make(c[0], [Ptr(t)]), c[0]


def xy(k, q, names=('x', 'y')):
    out = []
    for b in q.a:
        o = k.rv(b)
        if not isinstance(o, Obj) or any(nm not in o.f for nm in names):
            return None
        out.append([k.rv(o.f[nm]) for nm in names])
    return [[const(x) if x is not UNK else UNK for x in r] for r in out]


def rows(msg, got, want):
    if got is None:
        return [(msg, UNK, UNK)]
    if len(got) != len(want):
        return [(msg, False, True)]
    return [(msg, x, y) for r, s in zip(got, want) for x, y in zip(r, s)]


def content(k, o, pts, have, R, Cc, when):
    """the observation holds these points and no others"""
    out = []
    v = lambda nm, *a: k.rv(k.method(o, nm, *a))
    lists = {}
    for nm in ('getCornersTargetFrame', 'getCornersImageFrame', 'getCornersIdx'):
        q = Seq([Box(0)])
        n = v(nm, Box(q))
        out.append(('%s: %s does not return the number of observed corners' % (when, nm), n, len(have)))
        lists[nm] = q
    ix = sorted(have)
    out += rows(when + ': getCornersTargetFrame', xy(k, lists['getCornersTargetFrame'], 'xyz'), [pts[i] for i in ix])
    out += rows(when + ': getCornersImageFrame', xy(k, lists['getCornersImageFrame']), [have[i] for i in ix])
    out += rows(when + ': getCornersIdx', [[k.rv(b)] for b in lists['getCornersIdx'].a], [[i] for i in ix])
    out.append((when + ': hasSuccessfulObservation', truth(k, v('hasSuccessfulObservation')), bool(have)))
    for i in range(R * Cc):
        for nm, a in (('imagePoint', [i]), ('imageGridPoint', [i // Cc, i % Cc])):
            p = Mat([[Box(UNK)], [Box(UNK)]])
            t = truth(k, v(nm, *([Box(x) for x in a] + [p])))
            out.append(('%s: %s reports the wrong points as observed' % (when, nm), t, i in have))
            if i in have:
                out += eq('%s: %s is not the point that was set' % (when, nm), nums(p), [[x] for x in have[i]])
    return out


def truth(k, v):
    v = k.rv(v)
    return bool(v) if isinstance(v, (bool, int)) else UNK


def law_observation(W):
    q = C + 'GridCalibrationTargetObservation'
    W.ctx.need(W.prog.cls(q) if q in W.prog.classes else None, q)
    f = members(W.prog, q, 'updateImagePoint')[0]
    for R, Cc, steps in ((2, 3, 'u1 u4 u2 r4 u2 u5 r1 u4'), (3, 2, 'u5 u0 r5 r0 u3'), (2, 2, 'u0 u1 u2 u3 r2')):
        def b(k):
            t, pts, o, _ = observation(k, W, R, Cc)
            have, out = {}, content(k, o, pts, {}, R, Cc, 'a new observation')
            for s, (op, i) in enumerate((x[0], int(x[1:])) for x in steps.split()):
                if op == 'u':
                    have[i] = [k.sym('px', s, d) for d in range(2)]
                    k.method(o, 'updateImagePoint', Box(i), vec(*have[i]))
                else:
                    have.pop(i)
                    k.method(o, 'removeImagePoint', Box(i))
                out += content(k, o, pts, have, R, Cc, 'after points were updated and removed')
            k.method(o, 'setTarget', Ptr(t))
            out += content(k, o, pts, {}, R, Cc, 'after setTarget')
            return out
        W.law('observation.content', f, 'GridCalibrationTargetObservation', b)

    g = members(W.prog, q, 'getCornerReprojection')[0]

    def b(k):
        t, pts, o, _ = observation(k, W, 2, 3)
        for i in (1, 3, 4):
            k.method(o, 'updateImagePoint', Box(i), vec(k.sym('px', i), k.sym('py', i)))
        T = pose(k, 'T_t_c')
        k.method(o, 'set_T_t_c', T[0])
        k.project = lambda p: [k.sym('u', *[x[0].v for x in p]), k.sym('v', *[x[0].v for x in p])]
        res = Seq([])
        n = k.rv(k.method(o, 'getCornerReprojection', Ptr(Obj(C + 'CameraGeometryBase', ('camera',))), Box(res)))
        want = []
        for i in (1, 3, 4):
            d_ = sub(col(pts[i]), T[2])
            p = mul(tr(T[1]), d_)
            want.append(k.project(p))
        return [('the number of corners', n, 3)] + rows('not the keypoints of the observed corners in the frame of the camera', xy(k, res), want)
    W.law('observation.reprojection', g, 'GridCalibrationTargetObservation::getCornerReprojection', b)


def pose(k, name):
    """a Transformation, its rotation matrix and its translation"""
    q = unit(k, name)
    t = [k.sym(name, 't', i) for i in range(3)]
    o = Obj('sm::kinematics::Transformation', ('obj-' + name,))
    o.f['_q_a_b'] = vec(*q)
    o.f['_t_a_b_a'] = vec(*t)
    R = nums(k.method(o, 'C'))
    if R is None:
        raise Stop('rotation matrix')
    return o, R, col(t)


def detector(k, W, **opt):
    o = Obj(C + 'GridDetector', ('obj-detector',))
    t, pts = targets()[0][1](k, W, 2, 3)
    t.path = ('target',)
    op = options(k, W, C + 'GridDetector::GridDetectorOptions', plotCornerReprojection=False, **opt)
    cam = Obj(C + 'CameraGeometryBase', ('camera',))
    c = [g for g in members(W.prog, C + 'GridDetector', 'GridDetector') if g.kind == 'ctor' and g.body is not None and len(g.params) == 3]
    if not c:
        raise Stop('no constructor')
    return k.make(c[0], [Ptr(cam), Ptr(t), op]), t, pts


def combination(v, xs, ys):
    """is this plus or minus one of these, plus or minus some of those?"""
    for c in itertools.product((-1, 0, 1), repeat=len(ys)):
        r = sum(a * const(y).v for a, y in zip(c, ys))
        for x in xs:
            if (v - r - const(x).v) % P == 0 or (v - r + const(x).v) % P == 0:
                return True
    return False


def law_detector(W):
    q = C + 'GridDetector'
    W.ctx.need(W.prog.cls(q) if q in W.prog.classes else None, q)
    f3 = [g for g in members(W.prog, q, 'findTargetNoTransformation') if len(g.params) == 3 and g.body is not None][0]
    f2 = [g for g in members(W.prog, q, 'findTarget') if len(g.params) == 3 and g.body is not None][0]
    valid = (1, 3, 4, 5)

    def observe(ok):
        def f(k):
            def g(args):
                m, s = k.rv(args[1]), k.as_obj(args[2])
                if not isinstance(m, Mat):
                    raise Stop('image points')
                m.c, m.rows, m.cols = [[Box(k.sym('px', i, d)) for d in range(2)] for i in range(6)], 6, 2
                if not isinstance(s, Seq):
                    s = Seq([])
                    if not isinstance(args[2], Box):
                        raise Stop('valid corners')
                    args[2].v = s
                s.a[:] = [Box(i in valid) for i in range(6)]
                return ok
            return g
        return f

    def begin(k, ok=True, est=True, **opt):
        d_, t, pts = detector(k, W, **opt)
        _, _, o, _ = observation(k, W, 2, 3)
        k.method(o, 'updateImagePoint', Box(0), vec(k.sym('old', 0), k.sym('old', 1)))       # left over from an earlier image
        k.observe = observe(ok)(k)
        T = pose(k, 'T_t_c')

        def estimate(x):
            if est:
                x.f = k.copy(T[0]).f
            return est
        k.estimate = estimate
        img = k.picture(2, 2, 'image')
        stamp = Obj('aslam::Time', ('stamp',))
        stamp.f['sec'], stamp.f['nsec'] = Box(7), Box(8)
        return d_, t, pts, o, T, img, stamp
    have = lambda k: {i: [k.sym('px', i, d) for d in range(2)] for i in valid}

    for ok in (True, False):
        def b(k):
            d_, t, pts, o, T, img, stamp = begin(k, ok)
            r = truth(k, k.method(d_, 'findTargetNoTransformation', img, stamp, o))
            out = [('the result is not that of the target', r, ok)]
            return out + content(k, o, pts, have(k), 2, 3, 'after a detection')
        W.law('detector.observe', f3, 'GridDetector::findTargetNoTransformation', b)

    for ok, est in ((True, True), (True, False), (False, True)):
        def b(k):
            d_, t, pts, o, T, img, stamp = begin(k, ok, est, filterCornerOutliers=False)
            r = truth(k, k.method(d_, 'findTarget', img, stamp, o))
            out = [('found without corners or a pose', r, ok and est)]
            out += content(k, o, pts, have(k), 2, 3, 'after a detection')
            if ok and est:
                out += eq('the pose of the observation is not the estimated one', nums(k.method(k.as_obj(k.method(o, 'T_t_c')), 'T')), nums(k.method(T[0], 'T')))
            return out
        W.law('detector.pose', f2, 'GridDetector::findTarget', b)

    # outliers: which corners go
    for bad in ((0,), (1,), (3,), (0, 2), (1, 2, 3), ()):
        def b(k):
            d_, t, pts, o, T, img, stamp = begin(k, filterCornerOutliers=True)
            sig, low = k.sym('sigma'), k.sym('least')
            opt = k.rv(d_.f['_options'])
            opt.f['filterCornerSigmaThreshold'], opt.f['filterCornerMinReprojError'] = Box(sig), Box(low)
            err = []
            for i in range(4):                                  # their squares have a sum that is a square
                a, l = k.sym('err', i), k.sym('len', i)
                err.append([l * (1 - a * a) / (1 + a * a), l * a * 2 / (1 + a * a)])
            px = have(k)
            order = {}

            def project(p):
                for i, j in enumerate(valid):
                    w = mul(tr(T[1]), sub(col(pts[j]), T[2]))
                    if all(x[0].v == y[0].v for x, y in zip(w, p)):
                        return [px[j][d] - err[i][d] for d in range(2)]
                raise Stop('another point')
            k.project = project
            norm = [calc.s_sqrt(e[0] * e[0] + e[1] * e[1]) for e in err]
            mean = total(norm) / 4
            std = calc.s_sqrt(total((x - mean) * (x - mean) for x in norm) / 4)
            asked = set()
            far = {}
            for i, x in enumerate(norm):
                for y, sgn in ((x - mean - sig * std, 1), (mean + sig * std - x, -1)):
                    far[const(y).v] = (('far', i), sgn)
                for y, sgn in ((x - low, 1), (low - x, -1)):
                    far[const(y).v] = (('more', i), sgn)
            test = k.p.test

            def known(x, ops, what=None):
                h = far.get(const(x).v)
                if h is None:
                    if const(x).q is None and not combination(const(x).v, norm, [mean, sig * std, low]):
                        raise Stop('another criterion')
                    return test(x, ops, what)
                asked.add(h[0])
                s = 1 if h[0][1] in bad or h[0][0] == 'more' else -1
                return ('>' if s * h[1] > 0 else '<') in ops
            k.p.test = known
            r = truth(k, k.method(d_, 'findTarget', img, stamp, o))
            return [('found', r, True)] + content(k, o, pts, {j: px[j] for i, j in enumerate(valid) if i not in bad}, 2, 3, 'after outliers were removed')
        W.law('detector.outliers', f2, 'GridDetector::findTarget', b)


def law_images(W):
    for cls, build, sizes in targets()[:3]:
        f = [g for g in members(W.prog, C + cls, 'computeObservation') if g.body is not None][0]
        R, Cc = sizes[0]
        for ok in (True, False):
            def b(k):
                k.found = ok
                t, pts = build(k, W, R, Cc)
                m, s = Mat(None), Box(Seq([]))
                r = truth(k, k.method(t, 'computeObservation', k.picture(2, 2, 'image'), m, s))
                out = [('the result is not that of the pattern detector', r, ok)]
                size = [x for x in k.seen if isinstance(x, tuple)]
                if not size:
                    raise Stop('pattern size')
                out.append(('the pattern is not as many points wide as the target has columns', size[0][0], Cc))
                out.append(('the pattern is not as many points high as the target has rows', size[0][1], R))
                if ok:
                    nm = 'refined' if 'refined' in k.seen else 'center'
                    out += eq('image point i is not the i-th corner of the pattern', nums(m), [[k.sym(nm, i, d) for d in range(2)] for i in range(R * Cc)])
                    q = k.rv(s)
                    out += rows('not all corners are observed', [[truth(k, x)] for x in q.a] if isinstance(q, Seq) else None, [[True]] * (R * Cc))
                return out
            W.law('%s.image' % cls, f, '%s::computeObservation' % cls, b)


def tag(k, i, inside=True, good=True, where=None):
    """a detection with all its corners inside of the picture, or with one outside"""
    o = Obj('AprilTags::TagDetection', ('tag', i, where))
    o.f['id'], o.f['good'] = Box(i), Box(good)
    o.corner = [[k.sym('tag', i, j, d) for d in range(2)] for j in range(4)]
    o.f['p'] = Box(Seq([Box(k.pair(Box(c[0]), Box(c[1]))) for c in o.corner]))
    o.bad = inside if inside is not True else None
    return o


def law_april(W):
    q = C + 'GridCalibrationTargetAprilgrid'
    f = [g for g in members(W.prog, q, 'computeObservation') if g.body is not None][0]
    R, Cc = 4, 6

    def run(k, tags, least=1, moved=(), refine=True):
        t, pts = targets()[3][1](k, W, R, Cc)
        op = k.rv(t.f['_options'])
        lim, edge = k.sym('limit'), k.sym('edge')
        op.f['minTagsForValidObs'], op.f['doSubpixRefinement'] = Box(least), Box(refine)
        op.f['maxSubpixDisplacement2'], op.f['minBorderDistance'] = Box(lim), Box(edge)
        k.tags = tags
        img = k.picture(2, 2, 'image')
        w, h = k.sym('width'), k.sym('height')
        img.f['cols'], img.f['rows'] = Box(w), Box(h)
        facts_ = {}
        for x in tags:
            for j, c in enumerate(x.corner):
                for side, y in enumerate((c[0] - edge, w - edge - c[0], c[1] - edge, h - edge - c[1])):
                    s = -1 if x.bad == (j, side) else 1
                    facts_[const(y).v], facts_[const(0 - y).v] = ((x.f['id'].v, j, side), s), ((x.f['id'].v, j, side), -s)
        kept = sorted((x for x in tags if x.bad is None and x.f['good'].v and x.f['id'].v < R * Cc // 4), key=lambda x: x.f['id'].v)
        facts_[lim.v], facts_[const(0 - lim).v] = (('limit',), 1), (('limit',), -1)
        half = set()
        for n_ in range(len(tags)):
            for x in tags:
                for j, c in enumerate(x.corner):
                    e = [(k.sym('refined', 4 * n_ + j, d) - c[d]) * (k.sym('refined', 4 * n_ + j, d) - c[d]) for d in range(2)]
                    s = -1 if (x.f['id'].v, j) in moved else 1
                    facts_[const(lim - e[0] - e[1]).v], facts_[const(e[0] + e[1] - lim).v] = (('moved', x.f['id'].v, j), s), (('moved', x.f['id'].v, j), -s)
                    half |= {const(lim - y).v for y in e} | {const(y - lim).v for y in e}
        test = k.p.test
        coordinates = [y for x in tags for c in x.corner for y in c]

        def known(x, ops, what=None):
            a = facts_.get(const(x).v)
            if a is None:
                if const(x).q is None and const(x).v not in half and not combination(const(x).v, coordinates, [edge, w, h]):
                    raise Stop('another criterion')
                return test(x, ops, what)
            return ('>' if a[1] > 0 else '<') in ops
        k.p.test = known
        m, s = Mat(None), Box(Seq([]))
        r = truth(k, k.method(t, 'computeObservation', img, m, s))
        out = [('found although there are too few tags, or not although there are enough', r, len(kept) >= least)]
        if len(kept) < least:
            return out
        want, seen = {}, [False] * (R * Cc)
        for n_, x in enumerate(kept):
            i = x.f['id'].v
            tr_, tc = i // (Cc // 2), i % (Cc // 2)
            for j, (dr, dc) in enumerate(NCORNERS):
                g = (2 * tr_ + dr) * Cc + 2 * tc + dc
                want[g] = [k.sym('refined', 4 * n_ + j, d) for d in range(2)] if refine else x.corner[j]
                seen[g] = (i, j) not in moved
        v = k.rv(s)
        out += rows('a corner is observed although it was not seen, or is not although it was', [[truth(k, x)] for x in v.a] if isinstance(v, Seq) else None, [[x] for x in seen])
        if not m.known or (m.rows, m.cols) != (R * Cc, 2):
            return out + [('the image points', UNK, UNK)]
        for g, x in want.items():
            if seen[g]:
                out += rows('the corner of a tag is stored as another corner of the grid', [[b.v if b.v is UNK else const(b.v) for b in m.c[g]]], [x])
        return out
    cases = {'all': lambda k: run(k, [tag(k, i) for i in range(6)]), 'some': lambda k: run(k, [tag(k, i) for i in (4, 1, 3)]),
             'few': lambda k: run(k, [tag(k, i) for i in (0, 5)], least=3), 'just enough': lambda k: run(k, [tag(k, i) for i in (2, 5)], least=2),
             'another tag': lambda k: run(k, [tag(k, i) for i in (5, 6, 0)]), 'too few on the target': lambda k: run(k, [tag(k, i) for i in (5, 6, 0)], least=3), 'bad': lambda k: run(k, [tag(k, 1), tag(k, 0, good=False), tag(k, 4)]),
             'raw': lambda k: run(k, [tag(k, i) for i in (3, 2)], refine=False),
             'moved': lambda k: run(k, [tag(k, i) for i in (1, 4, 5)], moved=((4, 0), (5, 2), (1, 3), (1, 1)))}
    for j in range(4):
        for side in range(4):
            cases['edge%d%d' % (j, side)] = lambda k, j=j, side=side: run(k, [tag(k, 2), tag(k, 3, inside=(j, side)), tag(k, 4)])
    for nm, body in cases.items():
        W.law('april.' + nm.rstrip('0123456789'), f, 'GridCalibrationTargetAprilgrid::computeObservation', body)


def law_variables(W):
    q = 'aslam::GridCalibrationTargetDesignVariableContainer'
    W.ctx.need(W.prog.cls(q) if q in W.prog.classes else None, q)
    c = [g for g in members(W.prog, q, 'GridCalibrationTargetDesignVariableContainer') if g.kind == 'ctor' and g.body is not None and len(g.params) == 2][0]
    for active in (True, False):
        def b(k):
            t, pts = targets()[0][1](k, W, 2, 3)
            o = k.make(c, [Ptr(t), Box(active)])
            out = []
            val = lambda i: nums(k.method(k.as_obj(k.as_obj(k.method(o, 'getPoint', Box(i))).f['_root']), 'toEuclidean'))
            for i in range(6):
                out += eq('the expression of point i is not point i of the target', val(i), col(pts[i]))
                out.append(('a new point is not as active as was asked for', truth(k, k.method(o, 'isPointActive', Box(i))), active))
            k.method(o, 'setPointActive', Box(2), Box(not active))
            out += [('setPointActive does not activate this point alone', truth(k, k.method(o, 'isPointActive', Box(i))), active != (i == 2)) for i in range(6)]
            k.rec = []
            k.method(o, 'getDesignVariables', Obj('set', ('set',)))
            vs = [x for x, J in k.rec if J == 'dv']
            out.append(('getDesignVariables does not list every point once', len(set(map(id, vs))), 6))
            for i, x in enumerate(vs[:6]):
                st = [k.sym('step', i, d) for d in range(3)]
                before = [val(j) for j in range(6)]
                k.method(x, 'updateImplementation', Ptr([Box(y) for y in st], 0), Box(3))
                after = [val(j) for j in range(6)]
                want = [add(y, col(st)) if j == i else y for j, y in enumerate(before)]
                for j in range(6):
                    out += eq('updating a point does not move its expression alone', after[j], want[j])
                    out += eq('the target does not have the updated points', nums(k.method(t, 'point', Box(j))), want[j])
            return out
        W.law('variables', c, 'GridCalibrationTargetDesignVariableContainer', b)


def run(ctx):
    ctx.rule('target: the points of a target are those of its pattern, row by row, and every accessor has the same; an observation holds the image points that were '
             'set and not removed, and lists them in one order; the corner of a tag is stored as the corner of the grid that it is; a detection keeps what was seen.')
    ctx.assume('OpenCV and the tag detector find what is there; spacings are positive')
    W = World(ctx)
    law_points(W)
    law_observation(W)
    law_detector(W)
    law_images(W)
    law_april(W)
    law_variables(W)
    ctx.at_least('laws stated', 40)
