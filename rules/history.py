"""What a design variable is after a sequence of updates, sets and reverts, by value."""
import calc
import exprs
import facts
from calc import Mat, Box, Obj, Ptr, S, UNK, Stop, const, mat
from exprs import nums, eq, KINDS, A, DV, kind_of, members, leafarg, short, bare
from alg import unit, rot
from jac import prove, same


class CameraWorld:
    """design variables that own a part of a camera, or a vector"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.prog = facts.load('backend', 'cameras', 'cvbackend', 'incremental')

    ctors = exprs.World.ctors


ADAPTER = A + 'DesignVariableAdapter'


def adapters(W):
    prog = W.prog
    names = {f.replace('aslam::cameras::', ''): f for f in sorted(prog.classes, reverse=True) if f.startswith('aslam::cameras::')}
    for fq in sorted(prog.classes):
        if exprs.plain(fq) != ADAPTER:
            continue
        c = [g for g in W.ctors(fq) if len(g.params) == 1]
        t = names.get(fq[len(ADAPTER) + 1:-1].replace('aslam::cameras::', ''))
        if c and t and t not in ('aslam::cameras::NoDistortion', 'aslam::cameras::GlobalShutter'):
            yield fq, t, c[0]


def new_adapter(k, c, t):
    dv = Obj(t, ('part',))
    f = [g for g in members(k.prog, t, 'minimalDimensions')]
    n = k.rv(k.call(f[0], dv, [])) if f else None
    if not isinstance(n, int):
        raise Stop('the dimension')
    if n:
        k.call(k.prog.method(t, 'setParameters', 1), dv, [Mat([[Box(k.sym('start', i))] for i in range(n)])])
    o = k.make(c, [Box(Ptr(dv))])
    if k.rv(k.method(o, 'minimalDimensions')) != n:
        raise Stop('the dimension')
    return o, dv, n


def inside(o):
    """the numbers an object consists of"""
    out = {}
    for f, v in sorted(o.f.items()):
        if isinstance(v, Box) and isinstance(v.v, S):
            out[f] = v.v
        elif isinstance(v, Mat) and v.known:
            out.update({f + str(i): b.v for i, b in enumerate(v.flat())})
    return out


def only(d, names):
    return {f: v for f, v in d.items() if f in names}


def alike(what, a, b):
    return [('%s (%s)' % (what, f), a.get(f, UNK), b.get(f, UNK)) for f in sorted(set(a) | set(b))]


def fresh(k, name, shape, like, kd):
    """parameters of the shape of those a variable has"""
    r, c = shape
    if (r, c) == (4, 1) and kd in ('rotation', 'homogeneous'):
        return mat([[x] for x in unit(k, name)])
    if (r, c) == (3, 3) and like:
        return mat(rot(k, name))
    return Mat([[Box(k.sym(name, i, j)) for j in range(c)] for i in range(r)])


def variables(W):
    prog = W.prog
    for fq in sorted(prog.classes):
        if not fq.startswith(A) or DV not in prog.bases(fq) or prog.classes[fq].abstract or fq == DV:
            continue
        kd = kind_of(prog, fq)
        for c in W.ctors(fq):
            if any(bare(c.types[p['t']].r) == fq for p in c.params):
                continue
            yield fq, kd, c
            break


def start(k, c, kd):
    k.unit4, k.abs_forks = False, True
    o = k.make(c, [leafarg(k, c, i, kd, [[1, 1, 0], [0, 1, 0], [1, 0, 1]]) for i in range(len(c.params))])
    n = k.rv(k.method(o, 'minimalDimensions'))
    if not isinstance(n, int) or n <= 0:
        raise Stop('the dimension')
    return o, n


def params(k, o):
    x = Mat(None)
    k.method(o, 'getParameters', x)
    x = k.copy(x)
    return nums(x)


def seen(k, o, kd):
    """everything the variable shows of itself"""
    out = [params(k, o)]
    if kd is not None:
        out.append(exprs.value(k, o, kd))
    return out


def move(k, o, n, name):
    k.method(o, 'update', Box(Ptr([Box(k.sym(name, j)) for j in range(n)], 0)), Box(n))


def same_state(what, a, b):
    out = []
    for i, (x, y) in enumerate(zip(a, b)):
        w = what + (' (parameters)' if i == 0 else ' (value)')
        out += [(w, UNK, UNK)] if x is None or y is None else eq(w, x, y)
    return out


def moved(a, b):
    if a is None or b is None:
        return [('the effect of an update', UNK, UNK)]
    still = all(same(x, y) for r, q in zip(a, b) for x, y in zip(r, q))
    return [('an update changes no parameter', still, False)]


def revert(ctx):
    W = exprs.World(ctx)
    ctx.rule('history: the parameters and the value of a design variable after update-revert, update-update-revert, set-update-revert and '
             'revert-update-revert are, for all values and steps, those before the reverted update; a zero step changes nothing.')
    n = 0
    for fq, kd, c in variables(W):
        def b(k):
            o, m = start(k, c, kd)
            out = []
            s0 = seen(k, o, kd)
            move(k, o, m, 'a')
            k.method(o, 'revertUpdate')
            out += same_state('update and revert', seen(k, o, kd), s0)
            move(k, o, m, 'b')
            s1 = seen(k, o, kd)
            out += moved(s0[0], s1[0])
            for w in ('the second update reverted', 'another update reverted'):
                move(k, o, m, 'a')
                k.method(o, 'revertUpdate')
                out += same_state(w, seen(k, o, kd), s1)
            return out
        n += bool(exprs.law(ctx, short(fq) + '.history', c, short(fq), 'history', b, W.prog))

        def b(k):
            o, m = start(k, c, kd)
            x = params(k, o)
            if x is None:
                raise Stop('parameters')
            y = fresh(k, 'y', (len(x), len(x[0])), kd == 'rotation' or short(fq) == 'EuclideanDirection', kd)
            k.method(o, 'setParameters', k.copy(y))
            s0 = seen(k, o, kd)
            move(k, o, m, 'a')
            k.method(o, 'revertUpdate')
            out = eq('the parameters that were set, after update and revert', params(k, o), nums(y))
            return out + same_state('update and revert of what was set', seen(k, o, kd), s0)
        exprs.law(ctx, short(fq) + '.set', c, short(fq), 'history', b, W.prog)
    W = CameraWorld(ctx)
    for fq, t, c in adapters(W):
        def b(k):
            o, dv, m = new_adapter(k, c, t)
            out = []
            p0, f0 = params(k, o), inside(dv)
            move(k, o, m, 'a')
            k.method(o, 'revertUpdate')
            out += eq('the parameters after update and revert', params(k, o), p0) + alike('a member after update and revert', inside(dv), f0)
            move(k, o, m, 'b')
            p1, f1 = params(k, o), inside(dv)
            out += moved(p0, p1) if m else []
            for w in ('second', 'third'):
                move(k, o, m, 'a')
                k.method(o, 'revertUpdate')
                out += eq('the parameters after the %s update is reverted' % w, params(k, o), p1) + alike('a member after the %s update is reverted' % w, inside(dv), f1)
            return out
        exprs.law(ctx, short(fq) + '.history', c, short(fq), 'history', b, W.prog)
    ctx.at_least('laws stated', 20)


def values(ctx):
    W = exprs.World(ctx)
    ctx.rule('history: for all values, the parameters of a design variable are those set, before and after an update and a revert, whatever was set before; '
             'its value after a set is that of a variable moved there; the difference of the value to itself is zero.')
    for fq, kd, c in variables(W):
        def b(k):
            o, m = start(k, c, kd)
            x = params(k, o)
            if x is None:
                raise Stop('parameters')
            shape = (len(x), len(x[0]))
            R = kd == 'rotation' or short(fq) == 'EuclideanDirection'
            y, z = fresh(k, 'y', shape, R, kd), fresh(k, 'z', shape, R, kd)
            s0 = seen(k, o, kd)
            out = []
            k.method(o, 'setParameters', k.copy(y))
            out += eq('the parameters are not those set', params(k, o), nums(y))
            move(k, o, m, 'a')
            s1 = seen(k, o, kd)
            k.method(o, 'setParameters', k.copy(z))
            out += eq('the parameters are not those set after an update', params(k, o), nums(z))
            k.method(o, 'setParameters', mat(s1[0]))
            out += same_state('the value is not that of the parameters', seen(k, o, kd), s1)
            k.method(o, 'setParameters', mat(s0[0]))
            out += same_state('the value set is not that of the start', seen(k, o, kd), s0)
            return out
        exprs.law(ctx, short(fq) + '.set', c, short(fq), 'history', b, W.prog)

        def b(k):
            o, m = start(k, c, kd)
            x = params(k, o)
            if x is None:
                raise Stop('parameters')
            move(k, o, m, 'a')
            D0, D1, D2, J = Mat(None), Mat(None), Mat(None), Mat(None)
            k.method(o, 'minimalDifference', mat(params(k, o)), D0)
            k.method(o, 'minimalDifference', mat(x), D1)
            k.method(o, 'minimalDifferenceAndJacobian', mat(x), D2, J)
            out = eq('the difference of the value to itself', nums(D0), [[const(0)]] * m)
            return out + eq('the two differences', nums(D2), nums(D1))
        if members(W.prog, fq, 'minimalDifferenceImplementation'):
            exprs.law(ctx, short(fq) + '.difference', c, short(fq), 'history', b, W.prog)
    W = CameraWorld(ctx)
    for fq, t, c in adapters(W):
        def b(k):
            o, dv, m = new_adapter(k, c, t)
            p0, f0 = params(k, o), inside(dv)
            move(k, o, m, 'a')
            p1, f1 = params(k, o), inside(dv)
            y = Mat([[Box(k.sym('y', i))] for i in range(m)])
            k.method(o, 'setParameters', y)
            out = eq('the parameters are not those set', params(k, o), nums(y)) if m else []
            k.method(o, 'setParameters', mat(p1) if m else Mat([], 0, 1))
            out += eq('the parameters are not those set', params(k, o), p1) + alike('a member is not that of the parameters', inside(dv), f1)
            k.method(o, 'setParameters', mat(p0) if m else Mat([], 0, 1))
            out += alike('a member is not that of the parameters set', inside(dv), f0)
            return out
        exprs.law(ctx, short(fq) + '.set', c, short(fq), 'history', b, W.prog)
    ctx.at_least('laws stated', 10)


class Quiet:
    """a context that takes no notice"""
    fns = set()

    def __init__(self, ctx):
        self.t0 = ctx.t0

    def __getattr__(self, name):
        return lambda *a: set()


def written(ctx, prog, t):
    """the members that setting the parameters writes, on some path"""
    out = set()

    def b(k):
        k.abs_forks = True
        n = k.rv(k.call(prog.method(t, 'minimalDimensions', 0), Obj(t, ('none',)), []))
        if not isinstance(n, int) or not n:
            return []
        o = Obj(t, ('part',))
        k.call(prog.method(t, 'setParameters', 1), o, [Mat([[Box(k.sym('y', i))] for i in range(n)])])
        out.update(f for f, v in inside(o).items() if f in o.f and not same(v, k.sym('part', f)))
        return []
    prove(Quiet(ctx), t, prog.method(t, 'setParameters', 1), t, 'history', b, prog, cls=exprs.Ex)
    return out


def layout(ctx):
    """parts of cameras: parameters and steps mean the same, by value"""
    ctx.rule('history: for every projection, distortion and shutter and all values, the parameters read are those set; a step adds its entry k to parameter k; '
             'and the camera stepped there is, member by member, the camera set there.')
    prog = facts.load('cameras')
    parts = sorted(c.fq for c in prog.classes.values() if c.q.startswith('aslam::cameras::') and all(prog.method(c.fq, m, 1) for m in ('update', 'setParameters', 'getParameters'))
                   and prog.method(c.fq, 'minimalDimensions', 0) and not c.abstract)
    ctx.need(len(parts) >= 8, 'parts of cameras (%d)' % len(parts))
    for t in parts:
        f = prog.method(t, 'update', 1)
        W = written(ctx, prog, t)

        def b(k):
            n = k.rv(k.call(prog.method(t, 'minimalDimensions', 0), Obj(t, ('none',)), []))
            if not isinstance(n, int) or not n:
                raise Stop('the dimension')
            o, q = Obj(t, ('part',)), Obj(t, ('other',))
            call = lambda o, m, x: k.call(prog.method(t, m, 1), o, [x])

            def get(o):
                x = Mat(None)
                call(o, 'getParameters', x)
                return nums(k.copy(x))
            y, a = [k.sym('y', i) for i in range(n)], [k.sym('a', i) for i in range(n)]
            call(o, 'setParameters', Mat([[Box(v)] for v in y]))
            out = eq('the parameters are not those set', get(o), [[v] for v in y])
            call(o, 'update', Ptr([Box(v) for v in a]))
            out += eq('a step does not add entry k to parameter k', get(o), [[v + w] for v, w in zip(y, a)])
            call(q, 'setParameters', Mat([[Box(v + w)] for v, w in zip(y, a)]))
            return out + alike('a member after a step is not that of the parameters', only(inside(o), W), only(inside(q), W))
        if prog.method(t, 'minimalDimensions', 0).body is not None:
            exprs.law(ctx, t.replace('aslam::cameras::', '') + '.layout', f, t.replace('aslam::cameras::', ''), 'history', b, prog)
    ctx.at_least('laws decided', 8)
    composites(ctx, prog)


FLAGS = [(a, b, s) for a in (False, True) for b in (False, True) for s in (False, True)]


def composites(ctx, prog):
    ctx.rule('history: for every camera and every choice of estimated parts, for all values: the dimension is the sum of those of the parts; the parameters read are '
             'those of projection, distortion and shutter in this order; setting and stepping change the chosen parts as the parts do, and nothing else.')
    import camera
    for c in camera.composites(prog):
        name = camera.short(c.fq)
        f = prog.method(c.fq, 'update', 4)

        def b(k, n, fl):
            # which side a part takes does not matter here: each of them is stated on all its paths
            o = Obj(c.fq, ('cam',))
            call = lambda m, *a: k.rv(k.call(prog.method(c.fq, m, len(a)), o, list(a)))
            dims = [call('minimalDimensions', *[Box(i == j) for j in range(3)]) for i in range(3)]
            if not all(isinstance(d, int) for d in dims):
                raise Stop('the dimension')
            slots = [(i, j) for i in range(3) for j in range(dims[i])]
            cur = {(i, j): k.sym('y', i, j) for i, j in slots}

            def get(fl):
                x = Mat(None)
                call('getParameters', x, *[Box(v) for v in fl])
                return nums(k.copy(x))
            column = lambda v: Mat([[Box(x)] for x in v], len(v), 1)
            call('setParameters', column([cur[s] for s in slots]), *[Box(True)] * 3)
            mine = [s for s in slots if fl[s[0]]]
            d = call('minimalDimensions', *[Box(v) for v in fl])
            if not isinstance(d, int):
                raise Stop('the dimension')
            out = [('the dimension', d == len(mine), True)]
            if not mine:
                call('update', Ptr([Box(k.sym('none'))]), *[Box(v) for v in fl])
                return out + eq('the parameters after a step', get((True,) * 3), [[cur[s]] for s in slots])
            out += eq('the parameters', get(fl), [[cur[s]] for s in mine])
            for s in mine:
                cur[s] = k.sym('set', n, *s)
            call('setParameters', column([cur[s] for s in mine]), *[Box(v) for v in fl])
            out += eq('the parameters after setting those', get((True,) * 3), [[cur[s]] for s in slots])
            st = {s: k.sym('step', n, *s) for s in mine}
            call('update', Ptr([Box(st[s]) for s in mine]), *[Box(v) for v in fl])
            cur.update({s: cur[s] + st[s] for s in mine})
            return out + eq('the parameters after a step', get((True,) * 3), [[cur[s]] for s in slots])
        for n, fl in enumerate(FLAGS):
            exprs.law(ctx, '%s.%d%d%d.layout' % ((name,) + tuple(map(int, fl))), f, name, 'history', lambda k: b(k, n, fl), prog)
    ctx.at_least('laws decided', 100)


def derived(ctx):
    """however a part of a camera was made or changed: its members are those of another one set to its parameters"""
    ctx.rule('history: after every constructor that takes numbers, every step, every change of resolution, and every set, of a projection, '
             'distortion or shutter: every member that a set writes is what it is in another object set to the same parameters.')
    prog = facts.load('cameras')
    parts = sorted(c.fq for c in prog.classes.values() if c.q.startswith('aslam::cameras::') and all(prog.method(c.fq, m, 1) for m in ('update', 'setParameters', 'getParameters'))
                   and prog.method(c.fq, 'minimalDimensions', 0) and not c.abstract)
    ctx.need(len(parts) >= 8, 'parts of cameras (%d)' % len(parts))
    for t in parts:
        name = t.replace('aslam::cameras::', '')

        def check(k, o, what):
            x = Mat(None)
            k.call(prog.method(t, 'getParameters', 1), o, [x])
            q = Obj(t, ('other',))
            k.call(prog.method(t, 'setParameters', 1), q, [k.copy(x)])
            return alike('a member is not that of the parameters ' + what, only(inside(o), W), only(inside(q), W))
        ways, W = [], written(ctx, prog, t)
        for g in members(prog, t, exprs.plain(t).split('::')[-1]):
            if g.kind != 'ctor' or g.body is None or any('PropertyTree' in (g.types[p['t']].r or '') or exprs.plain(t) in (g.types[p['t']].r or '') for p in g.params):
                continue
            ways.append((g, 'ctor%d' % len(g.params)))
        for nm in ('update', 'resizeIntrinsics'):
            if prog.method(t, nm, 1) and prog.method(t, nm, 1).body is not None:
                ways.append((prog.method(t, nm, 1), nm))
        for g, nm in ways:
            def b(k):
                k.abs_forks = True
                n = k.rv(k.call(prog.method(t, 'minimalDimensions', 0), Obj(t, ('none',)), []))
                if not isinstance(n, int) or not n:
                    raise Stop('the dimension')
                if g.kind == 'ctor':
                    args = []
                    for i, p in enumerate(g.params):
                        ty = g.types[p['t']]
                        r = bare(ty.r)
                        if ty.isptr or not (ty.b in ('float', 'int', 'uint', 'bool') or ty.scalar or r in prog.classes or r.startswith('aslam::')):
                            raise Stop('an argument')
                        args.append(Box(k.sym('arg', i)) if ty.scalar else Obj(r, ('arg', i)))
                    o = k.make(g, args)
                    return check(k, o, 'after construction')
                o = Obj(t, ('part',))
                k.call(prog.method(t, 'setParameters', 1), o, [Mat([[Box(k.sym('y', i))] for i in range(n)])])
                k.call(g, o, [Ptr([Box(k.sym('a', i)) for i in range(n)])] if nm == 'update' else [Box(k.sym('scale'))])
                return check(k, o, 'after ' + nm)
            exprs.law(ctx, name + '.' + nm, g, name, 'history', b, prog)
