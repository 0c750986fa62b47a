"""Camera models: Jacobians are the derivatives of the values."""
import time
import facts
import calc
from calc import Calc, Mat, Box, Obj, Ptr, S, UNK, Stop, NoRoot, Path, explore, isnum, const, mat

PROJ = ('euclideanToKeypoint', 'keypointToEuclidean', 'homogeneousToKeypoint', 'distortion', 'update')
DIST = ('distort', 'undistort', 'distortParameterJacobian', 'update')


def overload(prog, c, name, n):
    """an instantiation of the method with n parameters"""
    fs = [f for f in prog.named(c.q + '::' + name) if f.fcls == c.fq and len(f.params) == n and f.body is not None]
    return min(fs, key=lambda f: (len(f.u), f.u)) if fs else None


def step(name, n):
    """a step of zero length, with its derivatives"""
    return Ptr([Box(S(0, {(name, k): 1})) for k in range(n)])


class Cam(Calc):
    """undistort, where it iterates, is the inverse of distort"""

    def __init__(self, prog, path):
        super().__init__(prog, path)
        self.inverse_of = {}

    def on_call(self, n, recv, args):
        if n.get('n') == 'undistort' and n.get('obj') and args:
            o = self.rv(recv)
            f = self.prog.fns.get(n.get('u'))
            if isinstance(o, Obj) and f is not None and f.body is not None and iterates(f, self.prog):
                return self.undistort(o, args)
        if n.get('n') == 'distort' and n.get('obj') and len(args) == 1 and isinstance(args[0], Mat) and args[0].known:
            k = tuple(b.v.v if isnum(b.v) and isinstance(b.v, S) else None for b in args[0].flat())
            if k in self.inverse_of:
                for b, v in zip(args[0].flat(), self.inverse_of[k]):
                    b.v = v
                return None
        return NotImplemented

    def undistort(self, o, args):
        y = args[0]
        if not isinstance(y, Mat) or not y.known or calc.has_unk(y):
            return UNK
        ys = [const(b.v) for b in y.flat()]
        d = overload(self.prog, self.prog.classes[o.cls], 'distort', 2)
        u = [self.sym('undistorted', ys[0].v, ys[1].v, i) for i in range(2)]
        # the Jacobian of distort at u
        J = self.at(d, o, u)
        if J is None:
            return UNK
        Ji = self.inverse(J)
        if calc.has_unk(Ji):
            return UNK
        for i, b in enumerate(y.flat()):
            g = calc.lin(*[(Ji.c[i][k].v.v, ys[k]) for k in range(2)])
            b.v = S(u[i].v, g)
        self.inverse_of[tuple(x.v for x in u)] = ys
        if len(args) > 1 and isinstance(args[1], Mat):
            self.store(args[1], Ji)
        return None

    def at(self, d, o, u):
        """derivative of distort at u"""
        x = Mat([[Box(S(u[i].v, {('u', i): 1}))] for i in range(2)])
        j = Mat(None)
        self.call(d, o, [x, j])
        v = [b.v for b in x.flat()]
        if any(t is UNK for t in v):
            return None
        return mat([[S(v[i].d.get(('u', k), 0)) for k in range(2)] for i in range(2)])


def iterates(f, prog, seen=None):
    """does the function contain a loop, or call one of its name that does?"""
    seen = seen or set()
    if f.u in seen:
        return False
    seen.add(f.u)
    for n in f.body.walk():
        if n.k in ('for', 'while', 'do'):
            return True
        if n.k == 'call' and n.get('u') in prog.fns:
            g = prog.fns[n['u']]
            if g.body is not None and '/usr/' not in g.file and iterates(g, prog, seen):
                return True
    return False


class Judge:
    """the obligations of one class, collected over the paths"""

    def __init__(self, ctx, prog, name):
        self.ctx, self.prog, self.name = ctx, prog, name
        self.entries = 0
        self.undecided = 0

    def run(self, what, f, body, limit=200):
        """body(calc) returns a list of (kind, i, j, got, want) or None where nothing is promised"""
        ctx = self.ctx
        res, complete = explore(lambda p: body(Cam(self.prog, p)), limit)
        normal = [(p, r) for p, r in res if not p.small and isinstance(r, list)]
        small = [(p, r) for p, r in res if p.small and isinstance(r, list)]
        if not complete:
            self.undecided += 1
        good = 0
        ctx.count('paths', len(res))
        for p, r in normal:
            for kind, i, j, got, want in r:
                if got is UNK or want is UNK or got is None or want is None:
                    self.undecided += 1
                    ctx.count('entries not decided')
                    continue
                good += 1
                if not same(got, want):
                    self.bad(what, f, kind, i, j, '')
        seen = {}
        for p, r in small:
            for kind, i, j, got, want in r:
                if got is UNK or want is UNK or got is None or want is None or same(got, want):
                    continue
                if p.salt not in seen:
                    seen[p.salt] = again(self.prog, body, [q.script for q, _ in normal], p.salt)
                if any(same(got, g) for g in seen[p.salt].get((kind, i, j), [])):
                    continue            # the general formula, used at the limit too
                if kind != 'J':
                    continue
                self.bad(what, f, kind, i, j, ' in the branch for small values')
        self.entries += good
        ctx.count('entries compared', good)
        if good == 0:
            ctx.count('functions without a decided entry')
        else:
            ctx.count('functions compared')
        return good

    def bad(self, what, f, kind, i, j, where):
        if kind == 'J':
            msg = '%s: entry (%d,%d) of the Jacobian is not the derivative of the value%s' % (what, i, j, where)
        elif kind == 'value':
            msg = '%s: the overload with a Jacobian computes another value (entry %d)%s' % (what, i, where)
        elif kind == 'valid':
            msg = '%s: the overload with a Jacobian and the one without disagree on validity' % what
        else:
            msg = '%s: %s' % (what, kind)
        self.ctx.violate('jacobian' if kind == 'J' else 'overloads' if kind in ('value', 'valid') else 'inverse',
                         '%s.%s.%d.%d' % (self.name, what, i, j), f.where(), msg)


def again(prog, body, scripts, salt):
    out = {}
    for s in scripts:
        p = Path(s, salt)
        try:
            r = body(Cam(prog, p))
        except NoRoot:
            continue
        except Exception as e:
            calc.internal(e)
            continue
        if isinstance(r, list) and not p.vague:
            for kind, i, j, got, want in r:
                if got is not UNK and got is not None:
                    out.setdefault((kind, i, j), []).append(got)
    return out


def same(a, b):
    if isinstance(a, (bool, list, str)) or isinstance(b, (bool, list, str)):
        return a == b
    return const(a).v == const(b).v


def entries(J, val, keys, calc=None):
    """obligations J[i][j] == d val[i] / d keys[j]"""
    out = []
    if isinstance(J, Mat) and not J.known and val.known and calc is not None and not calc.unknown:
        return [('the Jacobian is written without being given a size', 0, 0, False, True)]
    if not isinstance(J, Mat) or not J.known or not val.known:
        return [('J', 0, 0, UNK, UNK)]
    if J.rows != val.rows * val.cols or J.cols != len(keys):
        return [('J', 0, 0, UNK, UNK)]
    for i, b in enumerate(val.flat()):
        for j, k in enumerate(keys):
            w = UNK if not isnum(b.v) else S(const(b.v).d.get(k, 0))
            out.append(('J', i, j, J.c[i][j].v, w))
    return out


def values(a, b):
    out = []
    if not a.known or not b.known or (a.rows, a.cols) != (b.rows, b.cols):
        return []
    for i, (x, y) in enumerate(zip(a.flat(), b.flat())):
        out.append(('value', i, 0, x.v, y.v))
    return out


def camera(k, c, prog, nv, nw):
    """a camera with parameters, stepped by zero so that derived constants are up to date"""
    o = Obj(c.fq, ('cam',))
    f = prog.method(c.fq, 'update', 1)
    k.call(f, o, [step('v', nv)])
    d = k.call(prog.method(c.fq, 'distortion', 0), o, [])
    d = k.rv(d)
    if isinstance(d, Obj) and nw:
        k.call(prog.method(d.cls, 'update', 1), d, [step('w', nw)])
    return o, d


def truth(k, v):
    if v is UNK or v is None:
        return UNK
    return k.truth(k.rv(v))


def dims_of(prog, c, path):
    r = Calc(prog, path).call(prog.method(c.fq, 'minimalDimensions', 0), Obj(c.fq, ('cam',)), [])
    return r if isinstance(r, int) else None


def projections(prog):
    out = []
    for c in sorted(prog.classes.values(), key=lambda c: c.fq):
        if c.q.startswith('aslam::cameras::') and all(prog.named(c.q + '::' + m) for m in PROJ) and overload(prog, c, 'euclideanToKeypoint', 3):
            if overload(prog, c, 'euclideanToKeypointIntrinsicsJacobian', 2):
                out.append(c)
    return out


def distortions(prog):
    return [c for c in sorted(prog.classes.values(), key=lambda c: c.fq)
            if c.q.startswith('aslam::cameras::') and all(overload(prog, c, m, 2 if m == 'distortParameterJacobian' else 1) for m in DIST)]


def vec(name, n):
    return Mat([[Box(S(0))] for _ in range(n)])


def derivatives(ctx):
    ctx.rule('Every Jacobian entry that an overload of a projection or distortion writes has the value number of the derivative of the '
             'corresponding entry of the value, where the value numbering is algebraic (fingerprints modulo 2^61-1) and derivatives are carried '
             'along with the numbers; the overload with a Jacobian has the same value numbers and the same validity as the one without.')
    prog = facts.load('cameras')
    short = lambda c: c.fq.replace('aslam::cameras::', '')
    for c in distortions(prog):
        ctx.count('distortions')
        J = Judge(ctx, prog, short(c))
        nw = dims_of(prog, c, Path([], 0))

        def dist(k, c=c, nw=nw):
            o = Obj(c.fq, ('cam', 'distortion'))
            if nw:
                k.call(prog.method(c.fq, 'update', 1), o, [step('w', nw)])
            return o
        f2, f1, fp = overload(prog, c, 'distort', 2), overload(prog, c, 'distort', 1), overload(prog, c, 'distortParameterJacobian', 2)
        u2, u1 = overload(prog, c, 'undistort', 2), overload(prog, c, 'undistort', 1)

        def b_distort(k):
            o = dist(k)
            y, z, j = k.invec('y', 2), k.invec('y', 2), Mat(None)
            k.call(f2, o, [y, j])
            k.call(f1, o, [z])
            return entries(j, z, [('y', 0), ('y', 1)], k) + values(y, z)
        J.run('distort', f2, b_distort)

        def b_par(k):
            o = dist(k)
            y, z, j = k.invec('y', 2), k.invec('y', 2), Mat(None)
            k.call(fp, o, [z, j])
            k.call(f1, o, [y])
            return entries(j, y, [('w', i) for i in range(nw)], k)
        if nw:
            J.run('distortParameterJacobian', fp, b_par)

        def b_un(k):
            o = dist(k)
            y, z, j = k.invec('y', 2), k.invec('y', 2), Mat(None)
            k.call(u1, o, [z])
            still = all(same(b.v, k.var('y', i)) for i, b in enumerate(z.flat()) if isnum(b.v))
            k.call(f1, o, [z])
            if still and not all(isnum(b.v) and same(b.v, k.var('y', i)) for i, b in enumerate(z.flat())):
                return None         # outside of its domain: left as it is
            return [('undistort is not the inverse of distort', i, 0, b.v, k.var('y', i)) for i, b in enumerate(z.flat())]
        if not iterates(u1, prog):
            J.run('undistort', u1, b_un)
        ctx.fns.add(f2.u)
        ctx.sample('%s: %d entries' % (short(c), J.entries))
    for c in projections(prog):
        ctx.count('projections')
        projection(ctx, prog, c, short(c))


def projection(ctx, prog, c, name):
    J = Judge(ctx, prog, name)
    nv = dims_of(prog, c, Path([], 0))
    k0 = Calc(prog, Path([], 0))
    d = k0.rv(k0.call(prog.method(c.fq, 'distortion', 0), Obj(c.fq, ('cam',)), []))
    nw = dims_of(prog, prog.classes[d.cls], Path([], 0)) if isinstance(d, Obj) and d.cls in prog.classes else None
    ctx.need(nv is not None and nw is not None, 'dimensions of ' + c.fq)

    def pair(m, nin, var):
        f, g = overload(prog, c, m, 2), overload(prog, c, m, 3)
        if f is None or g is None:
            return

        def body(k):
            o, d = camera(k, c, prog, nv, nw)
            x = k.invec(var, nin)
            a, b, j = Mat(None), Mat(None), Mat(None)
            ta = truth(k, k.call(f, o, [x, a]))
            x = k.invec(var, nin)
            tb = truth(k, k.call(g, o, [x, b, j]))
            ctx.fns.update(k.analysed)
            out = [('valid', 0, 0, ta, tb)]
            if ta is True and tb is True:
                out += values(b, a) + entries(j, a, [(var, i) for i in range(nin)], k)
            return out
        J.run(m, g, body)
    pair('euclideanToKeypoint', 3, 'p')
    pair('homogeneousToKeypoint', 4, 'p')
    pair('keypointToEuclidean', 2, 'k')
    pair('keypointToHomogeneous', 2, 'k')

    def par(m, val, nin, var, n):
        f, g = overload(prog, c, val, 2), overload(prog, c, m, 2)
        if f is None or g is None or not n:
            return

        def body(k):
            o, d = camera(k, c, prog, nv, nw)
            a, j = Mat(None), Mat(None)
            ta = truth(k, k.call(f, o, [k.invec('p', nin), a]))
            if ta is not True:
                return None
            k.call(g, o, [k.invec('p', nin), j])
            ctx.fns.update(k.analysed)
            return entries(j, a, [(var, i) for i in range(n)], k)
        J.run(m, g, body)
    for h, nin in (('euclideanToKeypoint', 3), ('homogeneousToKeypoint', 4)):
        par(h + 'IntrinsicsJacobian', h, nin, 'v', nv)
        par(h + 'DistortionJacobian', h, nin, 'w', nw)
    ctx.sample('%s: %d entries' % (name, J.entries))


class Ray(Cam):
    """undistort, where it iterates, takes back what distort did"""

    def __init__(self, prog, path):
        super().__init__(prog, path)
        self.distorted = {}

    def on_call(self, n, recv, args):
        if n.get('n') in ('distort', 'undistort') and n.get('obj') and args and isinstance(args[0], Mat) and args[0].known and not calc.has_unk(args[0]):
            f = self.prog.fns.get(n.get('u'))
            o = self.rv(recv)
            if isinstance(o, Obj) and f is not None and f.body is not None:
                k = tuple(const(b.v).v for b in args[0].flat())
                if n['n'] == 'undistort' and iterates(f, self.prog) and k in self.distorted:
                    for b, v in zip(args[0].flat(), self.distorted[k]):
                        b.v = v
                    if len(args) > 1:
                        self.clobber(args[1])
                    return None
                if n['n'] == 'undistort' and k in self.distorted:
                    self.call(f, o, args)
                    if k == tuple(const(b.v).v if b.v is not UNK else None for b in args[0].flat()) and \
                            k != tuple(const(v).v for v in self.distorted[k]):
                        raise Stop('outside of the domain of undistort')
                    return None
                if n['n'] == 'distort':
                    old = [b.v for b in args[0].flat()]
                    r = super().on_call(n, recv, args)
                    if r is NotImplemented:
                        r = self.call(f, o, args)
                    if not calc.has_unk(args[0]):
                        self.distorted[tuple(const(b.v).v for b in args[0].flat())] = old
                    return r
        if n.get('n') == 'isValid' and n.get('obj') and isinstance(self.rv(recv), Obj) and self.rv(recv).cls.endswith('ImageMask') \
                and isinstance(args[0], Mat) and args[0].known and not calc.has_unk(args[0]):
            return calc.Flag(('mask',) + tuple(const(b.v).v for b in args[0].flat()))
        return super().on_call(n, recv, args)


def rays(ctx):
    ctx.rule('For every projection, keypointToEuclidean applied to the keypoint of a valid point has the algebraic value numbers of a multiple of '
             'that point; the homogeneous variants and the visibility tests have the value numbers and the validity of the Euclidean ones; the '
             'virtual interface of a camera has those of its template interface.')
    prog = facts.load('cameras')
    ctx.assume('a closed-form undistort that leaves its argument as it is has been given a point outside of its domain')
    ctx.assume('undistort of a distortion model without closed form is taken to be the exact inverse of distort')
    for c in projections(prog):
        ctx.count('projections')
        ray(ctx, prog, c, c.fq.replace('aslam::cameras::', ''))
    geos = [c for c in sorted(prog.classes.values(), key=lambda c: c.fq) if c.q == 'aslam::cameras::CameraGeometry' and prog.method(c.fq, 'vsEuclideanToKeypoint', 2)]
    for c in geos:
        if any(x in c.fq for x in ('DepthProjection',)):
            continue
        geometry(ctx, prog, c, c.fq.replace('aslam::cameras::', ''))
    ctx.at_least('projections', 9)
    ctx.at_least('round trips', 1)
    ctx.at_least('camera classes', 10)


def prove(ctx, key, f, what, rule, body, prog, salts=24, cls=Ray):
    """the obligations hold on every path, for some choice of the signs of the roots"""
    todo, done, n, broken, open_ = [[]], 0, 0, 0, 0
    while todo and n < 200:
        if broken >= 6 or time.time() - ctx.t0 > 700:
            ctx.count('paths left out after violations' if broken else 'paths left out for time', len(todo))
            break
        script = todo.pop()
        n += 1
        best = None
        alts, other = None, []
        for salt in range(400):
            p, thrown = Path(script, salt), False
            try:
                r = body(cls(prog, p))
            except NoRoot:
                if len(p.todo) > len(other):
                    other = p.todo
                continue
            except Exception as e:
                r, thrown = None, isinstance(e, Stop) and e.why == 'throws'
                if calc.internal(e):
                    ctx.count('paths of an unknown kind')
            if p.vague:
                r = None
            lost = p.vague or p.narrow or r is None and not thrown
            if alts is None:
                alts = p.todo
            bad = [m for m, got, want in r or [] if got is not UNK and want is not UNK and got is not None and want is not None and not same(got, want)]
            und = [m for m, got, want in r or [] if got is UNK or want is UNK or got is None or want is None]
            if best is None or len(bad) < len(best[0]):
                best = (bad, und, len(r or []), p.small, lost)
            salts_left = salts - 1 if salt < salts else 0
            if not bad or salt >= salts and best is not None:
                break
        todo += other if alts is None else alts
        if best is None:
            continue
        ctx.count('paths')
        bad, und, m, small, lost = best
        open_ += lost or bool(und) or bool(bad)
        if bad and not small:
            if any('%s:%s.%s' % (rule, key, b) not in ctx.known() for b in bad):
                broken += 1
            for b in sorted(set(bad)):
                ctx.violate(rule, '%s.%s' % (key, b), f.where(), '%s: %s' % (what, b))
        ctx.count('obligations', m - len(und))
        if und:
            ctx.count('obligations not decided', len(und))
        done += m - len(und)
    # did every path come to an end, with every obligation decided and met?
    ctx.complete = not todo and not open_ and done > 0
    return done


def ray(ctx, prog, c, name):
    nv = dims_of(prog, c, Path([], 0))
    k0 = Calc(prog, Path([], 0))
    d = k0.rv(k0.call(prog.method(c.fq, 'distortion', 0), Obj(c.fq, ('cam',)), []))
    nw = dims_of(prog, prog.classes[d.cls], Path([], 0))
    ov = lambda m, n: overload(prog, c, m, n)
    e2k, k2e, h2k, k2h = ov('euclideanToKeypoint', 2), ov('keypointToEuclidean', 2), ov('homogeneousToKeypoint', 2), ov('keypointToHomogeneous', 2)
    vis, hvis = ov('isEuclideanVisible', 1), ov('isHomogeneousVisible', 1)

    def b_round(k):
        o, _ = camera(k, c, prog, nv, nw)
        p, kp, q = k.invec('p', 3), Mat(None), Mat(None)
        if truth(k, k.call(e2k, o, [p, kp])) is not True:
            return None
        if truth(k, k.call(k2e, o, [kp, q])) is not True:
            return None
        ctx.fns.update(k.analysed)
        if not q.known or calc.has_unk(q):
            return [('the ray', UNK, UNK)]
        q, p = [const(b.v) for b in q.flat()], [const(b.v) for b in k.invec('p', 3).flat()]
        return [('the ray of the keypoint of a point does not go through the point', calc.s_mul(q[i], p[j]), calc.s_mul(q[j], p[i])) for i, j in ((0, 1), (0, 2), (1, 2))]
    if prove(ctx, name + '.round', k2e, name, 'ray', b_round, prog):
        ctx.count('round trips')

    def b_kh(k):
        o, _ = camera(k, c, prog, nv, nw)
        q, h = Mat(None), Mat(None)
        tq = truth(k, k.call(k2e, o, [k.invec('k', 2), q]))
        th = truth(k, k.call(k2h, o, [k.invec('k', 2), h]))
        out = [('keypointToHomogeneous and keypointToEuclidean disagree on validity', tq, th)]
        if tq is True and th is True and q.known and h.known:
            out += [('keypointToHomogeneous does not give the point of keypointToEuclidean', h.c[i][0].v, q.c[i][0].v) for i in range(3)]
            out.append(('keypointToHomogeneous does not give a direction', h.c[3][0].v, const(0)))
        return out
    if k2h:
        prove(ctx, name + '.k2h', k2h, name, 'homogeneous', b_kh, prog)

    def b_hk(k):
        o, _ = camera(k, c, prog, nv, nw)
        ph = k.invec('p', 4)
        a, b = Mat(None), Mat(None)
        k.p.facts[min(ph.c[3][0].v.v, calc.P - ph.c[3][0].v.v)] = frozenset('>' if ph.c[3][0].v.v <= calc.P // 2 else '<')
        t1 = truth(k, k.call(e2k, o, [k.invec('p', 3), a]))
        t2 = truth(k, k.call(h2k, o, [ph, b]))
        out = [('homogeneousToKeypoint and euclideanToKeypoint disagree on validity', t1, t2)]
        if t1 is True and t2 is True:
            out += [('homogeneousToKeypoint does not give the keypoint of euclideanToKeypoint', x.v, y.v) for x, y in zip(a.flat(), b.flat())]
        return out
    prove(ctx, name + '.h2k', h2k, name, 'homogeneous', b_hk, prog)

    def b_neg(k):
        o, _ = camera(k, c, prog, nv, nw)
        ph = k.invec('p', 4)
        a, b = Mat(None), Mat(None)
        w = ph.c[3][0].v.v
        k.p.facts[min(w, calc.P - w)] = frozenset('<' if w <= calc.P // 2 else '>')
        t1 = truth(k, k.call(e2k, o, [k.neg(k.invec('p', 3)), a]))
        t2 = truth(k, k.call(h2k, o, [ph, b]))
        out = [('homogeneousToKeypoint of a point with negative scale and euclideanToKeypoint of the opposite point disagree on validity', t1, t2)]
        if t1 is True and t2 is True:
            out += [('homogeneousToKeypoint of a point with negative scale is not the keypoint of the opposite point', x.v, y.v) for x, y in zip(a.flat(), b.flat())]
        return out
    prove(ctx, name + '.h2k-', h2k, name, 'homogeneous', b_neg, prog)

    def b_vis(k, f, g, n, m):
        o, _ = camera(k, c, prog, nv, nw)
        t1 = truth(k, k.call(f, o, [k.invec('p', n), Mat(None)]))
        t2 = truth(k, k.call(g, o, [k.invec('p', n)]))
        return [(m, t1, t2)]
    if vis:
        prove(ctx, name + '.visible', vis, name, 'visible', lambda k: b_vis(k, e2k, vis, 3, 'isEuclideanVisible is not the validity of euclideanToKeypoint'), prog)
    if hvis:
        prove(ctx, name + '.hvisible', hvis, name, 'visible', lambda k: b_vis(k, h2k, hvis, 4, 'isHomogeneousVisible is not the validity of homogeneousToKeypoint'), prog)


def geometry(ctx, prog, c, name):
    """the virtual interface of a camera is its template interface"""
    n = 0
    for m, nin, var in (('EuclideanToKeypoint', 3, 'p'), ('HomogeneousToKeypoint', 4, 'p'), ('KeypointToEuclidean', 2, 'k'), ('KeypointToHomogeneous', 2, 'k')):
        t = overload(prog, c, m[0].lower() + m[1:], 2)
        for np in (2, 3):
            v = overload(prog, c, 'vs' + m, np)
            if v is None:
                continue

            def body(k):
                o = Obj(c.fq, ('geo',))
                a, b, x = Mat(None), Mat(None), k.invec(var, nin)
                t1 = truth(k, k.call(v, o, [x, a] + [Mat(None)] * (np - 2)))
                if t is not None:
                    t2 = truth(k, k.call(t, o, [k.invec(var, nin), b]))
                else:
                    return None
                out = [('vs%s and %s disagree on validity' % (m, m[0].lower() + m[1:]), t1, t2)]
                if t1 is True and t2 is True:
                    out += [('vs%s does not give the value of %s' % (m, m[0].lower() + m[1:]), x.v, y.v) for x, y in zip(a.flat(), b.flat())]
                return out
            if t is not None:
                n += prove(ctx, '%s.vs%s.%d' % (name, m, np), v, name, 'virtual', body, prog)
    if n:
        ctx.count('camera classes')
