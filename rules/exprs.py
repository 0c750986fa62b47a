"""aslam_backend_expressions: every node's Jacobian is the derivative of its value, every operator builds what it says."""
import facts
import calc
import engine
from calc import Calc, Mat, Box, Obj, Ptr, Seq, S, UNK, Stop, NoRoot, Path, const, mat, isnum
from alg import *

A = 'aslam::backend::'
# kind -> name of the value, rows and columns of the value, dimension of the tangent space
KINDS = {'rotation': ('toRotationMatrix', (3, 3), 3), 'transformation': ('toTransformationMatrix', (4, 4), 6),
         'euclidean': ('toEuclidean', (3, 1), 3), 'homogeneous': ('toHomogeneous', (4, 1), 4), 'scalar': ('toScalar', (1, 1), 1),
         'matrix': ('toMatrix3x3', (3, 3), 9), 'vector1': ('toVector', (1, 1), 1), 'vector3': ('toVector', (3, 1), 3), 'vector4': ('toVector', (4, 1), 4)}
NODES = {A + 'RotationExpressionNode': 'rotation', A + 'TransformationExpressionNode': 'transformation', A + 'EuclideanExpressionNode': 'euclidean',
         A + 'HomogeneousExpressionNode': 'homogeneous', A + 'ScalarExpressionNode': 'scalar', A + 'MatrixExpressionNode': 'matrix',
         A + 'GenericScalarExpressionNode<double>': 'scalar', A + 'VectorExpressionNode<1>': 'vector1', A + 'VectorExpressionNode<3>': 'vector3',
         A + 'VectorExpressionNode<4>': 'vector4'}
VALUES = {'toRotationMatrix', 'toTransformationMatrix', 'toEuclidean', 'toHomogeneous', 'toScalar', 'toMatrix3x3', 'toVector', 'evaluate', 'toValue', 'toFullMatrix'}
DV = A + 'DesignVariable'


def bare(r):
    r = r or ''
    return r[6:] if r.startswith('const ') else r


def kind_of(prog, fq):
    for b in [fq] + list(prog.bases(fq) if fq in prog.classes else []):
        if b in NODES:
            return NODES[b]
    return None


class Operand(Obj):
    pass


class Ex(Alg):
    def __init__(self, prog, path):
        super().__init__(prog, path)
        self.rec = []

    # ------------------------------------------------------------- operands
    def operand(self, base, i, kind):
        o = Operand(base, ('arg', i))
        o.kind = kind
        o.f['arg'] = Box(i)
        nm, (r, c), m = KINDS[kind]
        e = lambda j: S(0, {('arg', i, j): 1})
        n = 'arg%d' % i
        o.E = None
        if kind == 'rotation':
            C = rot(self, n)
            v = mul(sub(eye(3), cross([e(0), e(1), e(2)])), C)
            o.base = C
        elif kind == 'transformation':
            C, t = rot(self, n), [self.sym(n, 't', j) for j in range(3)]
            T = [C[j] + [t[j]] for j in range(3)] + [[const(int(j == 3)) for j in range(4)]]
            X = cross([e(3), e(4), e(5)])
            D = [[const(int(a == b)) - X[a][b] for b in range(3)] + [e(a)] for a in range(3)] + [[const(int(j == 3)) for j in range(4)]]
            v = mul(D, T)
            o.base = T
        elif kind == 'vector4' and getattr(self, 'unit4', True):
            q = unit(self, n)
            a, b, cc, d_ = q
            o.E = [[d_, -cc, b], [cc, d_, -a], [-b, a, d_], [-a, -b, -cc]]
            v = [[q[x] + total(o.E[x][y] * e(y) for y in range(3))] for x in range(4)]
            o.base = [[x] for x in q]
        else:
            x = [[self.sym(n, a, b) for b in range(c)] for a in range(r)]
            o.base = x
            v = [[x[a][b] + e(b * r + a) for b in range(c)] for a in range(r)]
        o.value, o.dim = v, m
        o.keys = [('arg', i, j) for j in range(m if o.E is None else len(o.E[0]))]
        return o

    def as_op(self, x):
        x = self.rv(x)
        if isinstance(x, Ptr):
            x = self.deref(x)
        x = self.rv(x)
        return x if isinstance(x, Operand) else None

    def copy(self, x):
        x0 = self.rv(x)
        return x0 if isinstance(x0, Operand) else super().copy(x)

    def ev_ctor(self, n):
        if 'shared_ptr<' in bare(n.type.r) and len([c for c in n.c if c is not None]) > 1:
            v = self.rv(self.ev(n.c[0]))
            if isinstance(v, Ptr):
                return v
        return super().ev_ctor(n)

    def on_call(self, n, recv, args):
        nm = n.get('n')
        if recv is not None:
            o = self.as_op(recv)
            if o is not None and o.kind == 'kinematics' and not n.get('op') and nm != 'get':
                return self.kinematics(nm, args)
            if o is not None and o.kind != 'kinematics':
                if nm in VALUES and not args:
                    v = mat(o.value)
                    return v.c[0][0].v if o.kind == 'scalar' else v
                if nm == 'evaluateJacobians':
                    self.rec.append((o, self.chain(args[1]) if len(args) > 1 else None))
                    return None
                if nm == 'getDesignVariables':
                    self.rec.append((o, 'dv'))
                    return None
                if n.get('op') not in ('->', '*', '&') and nm not in ('get',):
                    return UNK
            if nm == 'reset' and 'shared_ptr' in str(n.get('fcls')):
                v = self.rv(args[0]) if args else False
                if isinstance(recv, Box):
                    recv.v = v
                return None
            if str(n.get('fcls')) == A + 'JacobianContainer' and nm == 'add' and len(args) == 2:
                d_ = self.rv(args[0])
                self.rec.append((self.deref(d_) if isinstance(d_, Ptr) else d_, self.chain(args[1])))
                return None
            if nm == 'insert' and len(args) == 1 and 'unordered_set' in str(n.c[0].type.r) or nm == 'insert' and 'set<' in str(n.get('fcls')):
                d_ = self.rv(args[0]) if args else None
                if isinstance(d_, Ptr):
                    self.rec.append((self.deref(d_), 'dv'))
                return None
        if nm in ('norm', 'squaredNorm') and not args and recv is not None:
            m = nums(recv)
            if m and all(isinstance(x.v, int) and x.v % P == 0 for r in m for x in r):
                return const(0)
        if nm in ('dynamic_pointer_cast', 'static_pointer_cast', 'const_pointer_cast') and len(args) == 1:
            return self.rv(args[0])
        return NotImplemented

    def chain(self, x):
        x = self.rv(x)
        if isinstance(x, Ptr):
            x = self.rv(self.deref(x))
        if x is False:
            return None
        return nums(x) or UNK

    def kinematics(self, nm, args):
        a = nums(args[0]) if args else None
        if a is None:
            return UNK
        key = tuple(S(x.v).v for r in a for x in r)
        if nm == 'rotationMatrixToParameters':
            Sm = [[self.sym('S', i, j) for j in range(3)] for i in range(3)]
            W = self.vee(a)
            if W is None:
                return UNK
            Si = nums(self.inverse(mat(Sm)))
            out = []
            for i in range(3):
                d_ = {}
                for kk in W[0]:
                    d_[kk] = total(Si[i][j] * W[0][kk][j] for j in range(3)).v
                out.append([S(self.p.atom('par', key, i), d_)])
            self.par = [x[0].v for x in out]
            return mat(out)
        if nm == 'parametersToSMatrix':
            if [x[0].v for x in a] != getattr(self, 'par', None):
                return UNK
            return mat([[self.sym('S', i, j) for j in range(3)] for i in range(3)])
        return UNK

    def vee(self, C):
        """({key: rotation vector of dC C^T}, [obligations that it is one])"""
        ks = sorted({kk for r in C for x in r for kk in x.d}, key=str)
        out, ob = {}, []
        B0 = [[S(x.v) for x in r] for r in C]
        for kk in ks:
            W = mul(d(C, kk), tr(B0))
            out[kk] = [S(W[1][2].v), S(W[2][0].v), S(W[0][1].v)]
        return out, ob

    # ------------------------------------------------------------- nodes
    def make(self, f, args):
        self.nobj = getattr(self, 'nobj', 0) + 1
        o = Obj(f.fcls, ('obj%d' % self.nobj,))
        self.call(f, o, args)
        return o

    def method(self, o, name, *args, const=None):
        fs = []
        for b in [o.cls] + list(self.prog.bases(o.cls)):
            fs = [g for g in members(self.prog, b, name) if len(g.params) == len(args)]
            if fs:
                break
        if not fs:
            raise Stop('no ' + name)
        g = min(fs, key=lambda g: (not g.body is not None, g.u))
        h = self.prog.final_overrider(o.cls, g.u) if o.cls in self.prog.classes else None
        h = h if h is not None and h.body is not None else g
        if h.body is None:
            raise Stop('no ' + name)
        return self.call(h, o, list(args))


def tangent(kind, v, keys):
    """derivative of a value in the tangent space of its kind: rows of numbers per key, None if not understood"""
    if v is None:
        return None
    cols = []
    B = [[S(x.v) for x in r] for r in v]
    for kk in keys:
        D = d(v, kk)
        if kind == 'rotation':
            W = mul(D, tr(B))
            c = [W[1][2], W[2][0], W[0][1]]
        elif kind == 'transformation':
            C, t = [r[:3] for r in B[:3]], [[r[3]] for r in B[:3]]
            Ti = [tr(C)[i] + [mul(tr(C), t)[i][0] * -1] for i in range(3)] + [[const(int(j == 3)) for j in range(4)]]
            W = mul(D, Ti)
            c = [W[0][3], W[1][3], W[2][3], W[1][2], W[2][0], W[0][1]]
        else:
            c = [D[i][j] for j in range(len(D[0])) for i in range(len(D))]
        cols.append(c)
    return tr(cols) if cols else []


def plain(fq):
    """the name of a class without template arguments"""
    out, n = '', 0
    for c in fq:
        n += (c == '<') - (c == '>')
        out += c if not n and c != '>' else ''
    return out


def members(prog, fq, name):
    """the functions of a class by their name"""
    return [g for g in prog.named(plain(fq) + '::' + name) if g.fcls == fq]


class World:
    def __init__(self, ctx):
        self.ctx = ctx
        self.prog = facts.load('expr', 'kinematics', 'backend')

    def arg(self, k, f, i, ops):
        """an argument for a parameter, by its type"""
        ty = f.types[f.params[i]['t']]
        r = bare(ty.r if ty.r or not ty.isptr else ty.rp)
        r = bare(r)
        if 'shared_ptr<' in r:
            t = bare(engine.targs(r)[0].strip())
            kd = kind_of(self.prog, t)
            if t == 'sm::kinematics::RotationalKinematics':
                o = Operand(t, ('arg', i))
                o.kind = 'kinematics'
                return Box(Ptr(o))
            if kd is None:
                return None
            o = k.operand(t, i, kd)
            ops.append(o)
            return Box(Ptr(o))
        e = self.expression(k, r, i, ops)
        if e is not None:
            return e
        if ty.isptr:
            kd = kind_of(self.prog, r)
            if kd:
                o = k.operand(r, i, kd)
                ops.append(o)
                return Box(Ptr(o))
            return None
        if r.startswith('Eigen::Matrix<'):
            m = calc.dims(r)
            if None in m:
                return None
            if m == (3, 3) and 'Rotation' in f.fcls:
                return mat(rot(k, ('par', i)))
            if m == (4, 1) and 'Rotation' in f.fcls:
                return mat([[x] for x in unit(k, ('par', i))])
            if m == (4, 4):
                C = rot(k, ('par', i))
                return mat([C[j] + [k.sym('par', i, j)] for j in range(3)] + [[const(int(j == 3)) for j in range(4)]])
            return Mat([[Box(k.sym('par', i, a, b)) for b in range(m[1])] for a in range(m[0])])
        if ty.b == 'float' or r == 'double':
            return Box(k.sym('par', i))
        return None

    def expression(self, k, r, i, ops):
        """an expression that has an operand for its root"""
        for c in self.ctors(r):
            if len(c.params) != 1:
                continue
            q = bare(c.types[c.params[0]['t']].r)
            if 'shared_ptr<' in q and kind_of(self.prog, bare(engine.targs(q)[0].strip())) and r.split('::')[-1].split('<')[0].endswith('Expression'):
                t = bare(engine.targs(q)[0].strip())
                o = k.operand(t, i, kind_of(self.prog, t))
                ops.append(o)
                return k.make(c, [Box(Ptr(o))])
        if r.startswith(A + 'VectorExpression<'):
            t = r.replace('Expression<', 'ExpressionNode<')
            o = k.operand(t, i, kind_of(self.prog, t))
            ops.append(o)
            x = Obj(r, ('obj-arg%d' % i,))
            x.f['_root'] = Box(Ptr(o))
            return x
        return None

    def ctors(self, fq):
        return [g for g in members(self.prog, fq, plain(fq).split('::')[-1]) if g.kind == 'ctor' and g.body is not None] if fq else []


def nodes(ctx):
    ctx.rule('jacobian: for every class of expression node and every way to construct it, the Jacobians that evaluateJacobians() hands to the operands '
             '(without and with a chain rule matrix) are the derivative of the value; operator: the value of the expression that an operator returns is '
             'that operation on the values of its operands; leaf: the Jacobian of a design variable is the derivative of its value with respect to the update.')
    ctx.assume('rotations are disturbed as C <- (1 - phi^x) C and transformations as T <- (1 + [-phi^x, rho]) T; everything else additively')
    W = World(ctx)
    prog = W.prog
    seen = 0
    for fq in sorted(prog.classes):
        kd = kind_of(prog, fq)
        if kd is None or fq in NODES or DV in prog.bases(fq) or not fq.startswith(A):
            continue
        if prog.classes[fq].abstract:
            continue
        for c in W.ctors(fq):
            if any(bare(c.types[p['t']].r) == fq for p in c.params):
                continue
            seen += 1
            node(ctx, W, fq, kd, c)
    ctx.need(seen >= 25, 'constructors of expression nodes (%d)' % seen)
    leaves(ctx, W)
    operators(ctx, W)
    ctx.at_least('laws stated', 60)


def short(fq):
    return fq.replace(A, '').replace('internal::', '')


def law(ctx, key, f, what, rule, body, prog):
    n = prove(ctx, key, f, what, rule, body, prog, cls=Ex)
    ctx.stated.add(key)
    if ctx.complete:
        ctx.settled.add(key)
    ctx.count('laws stated')
    ctx.count('laws decided' if n else 'laws not decided')
    if not n:
        ctx.sample('not decided: ' + key)
    ctx.fns.add(f.u)
    return n


def value(k, o, kd):
    v = nums(k.method(o, KINDS[kd][0]))
    return v


def gather(k, ops, call):
    """{operand index: derivative of what the call hands out}"""
    k.rec = []
    call()
    out = {}
    for o, J in k.rec:
        if J is UNK:
            return None
        if J == 'dv' or not isinstance(o, Operand):
            continue
        J = eye(o.dim) if J is None else J
        if len(J[0]) != o.dim:
            return 'size'
        C = J if o.E is None else mul(J, o.E)
        i = o.keys[0][1]
        out[i] = C if i not in out else add(out[i], C) if len(C) == len(out[i]) else 'rows'
    return out


def compare(k, what, got, ops, want):
    """want(operand) is what the derivative has to be"""
    if got is None:
        return [(what, UNK, UNK)]
    if got == 'size' or 'rows' in got.values():
        return [(what + ': a chain rule matrix of the wrong size', False, True)]
    out = []
    for o in ops:
        w = want(o)
        if w is None:
            return [(what, UNK, UNK)]
        g = got.get(o.keys[0][1])
        if g is None:
            g = [[const(0)] * len(o.keys) for _ in w]
        out += eq('%s (%s)' % (what, 'operand %d' % (ops.index(o) + 1)), g, w)
    return out


def chained(k, kd, o, ops, v):
    jc = Obj(A + 'JacobianContainer', ('jc',))
    m = KINDS[kd][2]
    D = lambda x: tangent(kd, v, x.keys)
    out = compare(k, 'the Jacobian is not the derivative of the value', gather(k, ops, lambda: jacobians(k, o, jc)), ops, D)
    M = [[k.sym('chain', a, b) for b in range(m)] for a in range(2)]
    out += compare(k, 'the Jacobian with the chain rule is not that of the chain rule', gather(k, ops, lambda: jacobians(k, o, jc, mat(M))), ops,
                   lambda x: mul(M, D(x)) if D(x) is not None else None)
    k.rec = []
    k.method(o, 'getDesignVariables', Obj('set', ('set',)))
    named = {x.path for x, J in k.rec if J == 'dv'}
    for x in ops:
        t = D(x)
        if t is not None and any(isinstance(y.v, int) and y.v % P for r in t for y in r):
            out.append(('the design variables of operand %d are not reported' % (ops.index(x) + 1), x.path in named, True))
    return out


def jacobians(k, o, jc, *M):
    try:
        return k.method(o, 'evaluateJacobians', jc, *M)
    except Stop as e:
        if e.why != 'no evaluateJacobians' or M:
            raise
    return None


def node(ctx, W, fq, kd, c):
    def b(k):
        ops = []
        a = [W.arg(k, c, i, ops) for i in range(len(c.params))]
        if any(x is None for x in a):
            return None
        o = k.make(c, a)
        v = value(k, o, kd)
        if v is None:
            return [('the value', UNK, UNK)]
        out = chained(k, kd, o, ops, v)
        if not ops and len(a) == 1:
            out += eq('the value of a constant is not that which it was given', v, nums(a[0]))
            k.rec = []
            jacobians(k, o, Obj(A + 'JacobianContainer', ('jc',)))
            k.method(o, 'getDesignVariables', Obj('set', ('set',)))
            out.append(('a constant has a Jacobian or design variables', bool(k.rec), False))
        return out
    law(ctx, short(fq), c, short(fq), 'jacobian', b, W.prog)


def leaves(ctx, W):
    prog, seen = W.prog, 0
    for fq in sorted(prog.classes):
        kd = kind_of(prog, fq)
        if kd is None or not fq.startswith(A) or DV not in prog.bases(fq) or prog.classes[fq].abstract or fq in (DV,):
            continue
        for c in W.ctors(fq):
            if any(bare(c.types[p['t']].r) == fq for p in c.params):
                continue
            seen += 1
            for pat in (PATTERNS if any('Eigen::Matrix<int' in (c.types[p['t']].r or '') for p in c.params) else [None]):
                leaf(ctx, W, fq, kd, c, pat)
    ctx.need(seen >= 10, 'design variables that are expressions (%d)' % seen)


PATTERNS = [[[1, 1, 1], [1, 1, 1], [1, 1, 1]], [[1, 0, 0], [1, 1, 0], [1, 1, 1]], [[0, 1, 0], [0, 0, 1], [1, 0, 0]]]


def leafarg(k, c, i, kd, pat):
    ty = c.types[c.params[i]['t']]
    r = bare(ty.r if ty.r or not ty.isptr else ty.rp)
    m = calc.dims(r) if r.startswith('Eigen::') else None
    four = kd in ('rotation', 'homogeneous')
    if ty.isptr or r.startswith('Eigen::Map<'):
        x = unit(k, 'par') if four else [k.sym('par', j) for j in range(3)]
        p = [Box(y) for y in x]
        return Box(Ptr(p, 0)) if ty.isptr else Mat([[b] for b in p])
    if r.startswith('Eigen::Matrix<int'):
        return mat([[x for x in r_] for r_ in pat])
    if m == (4, 1):
        return mat([[x] for x in unit(k, 'par')])
    if m == (3, 3) and kd == 'rotation':
        return mat(rot(k, 'par'))
    if m and None not in m:
        return Mat([[Box(k.sym('par', a, b)) for b in range(m[1])] for a in range(m[0])])
    if ty.b == 'float' or r == 'double':
        return Box(k.sym('par'))
    return None


def leaf(ctx, W, fq, kd, c, pat):
    def new(k):
        return k.make(c, [leafarg(k, c, i, kd, pat) for i in range(len(c.params))])

    def b(k):
        k.unit4 = False
        o = new(k)
        n = k.rv(k.method(o, 'minimalDimensions'))
        if not isinstance(n, int):
            return [('the dimension', UNK, UNK)]
        v0 = value(k, o, kd)
        jc = Obj(A + 'JacobianContainer', ('jc',))
        m = KINDS[kd][2]

        def added(*M):
            k.rec = []
            jacobians(k, o, jc, *M)
            if len(k.rec) != 1 or k.rec[0][1] is UNK:
                return None
            return k.rec[0][1] if k.rec[0][0] is o else []
        J = added()
        M = [[k.sym('chain', a, b_) for b_ in range(m)] for a in range(2)]
        JM = added(mat(M))
        step = [Box(S(0, {('step', j): 1})) for j in range(n)]
        k.method(o, 'update', Box(Ptr(step, 0)), Box(n))
        v = value(k, o, kd)
        if v is None or v0 is None:
            return [('the value', UNK, UNK)]
        out = eq('a step of zero changes the value', [[S(x.v) for x in r] for r in v], [[S(x.v) for x in r] for r in v0])
        D = tangent(kd, v, [('step', j) for j in range(n)])
        out += eq('the Jacobian is not the derivative of the value with respect to the update', J, D)
        return out + eq('the Jacobian with the chain rule is not that of the chain rule', JM, mul(M, D))
    key = short(fq) + ('' if pat is None else str(PATTERNS.index(pat)))
    law(ctx, key, c, short(fq), 'leaf', b, W.prog)

    def b(k):
        o, n = new(k), None
        n = k.rv(k.method(o, 'minimalDimensions'))
        x = Mat(None)
        k.method(o, 'getParameters', x)
        x = k.copy(x)
        big = [k.sym('delta', j) for j in range(n)]
        k.method(o, 'update', Box(Ptr([Box(y) for y in big], 0)), Box(n))
        D0, D1, D2, J = Mat(None), Mat(None), Mat(None), Mat(None)
        k.method(o, 'minimalDifference', x, D0)
        k.method(o, 'minimalDifferenceAndJacobian', x, D1, J)
        out = eq('the difference to the value before an update is not the update', nums(D0), col(big))
        out += eq('minimalDifferenceAndJacobian gives another difference', nums(D1), nums(D0))
        k.method(o, 'update', Box(Ptr([Box(S(0, {('step', j): 1})) for j in range(n)], 0)), Box(n))
        k.method(o, 'minimalDifference', x, D2)
        D = nums(D2)
        out += eq('the Jacobian of the difference is not its derivative with respect to the update', nums(J), tangent('euclidean', D, [('step', j) for j in range(n)]) if D else None)
        return out
    if pat is None and c is W.ctors(fq)[0] and members(W.prog, fq, 'minimalDifferenceImplementation'):
        law(ctx, key + '.difference', c, short(fq), 'leaf', b, W.prog)



EXPR = {A + n + 'Expression': kd for n, kd in (('Rotation', 'rotation'), ('Transformation', 'transformation'), ('Euclidean', 'euclidean'),
                                                ('Homogeneous', 'homogeneous'), ('Scalar', 'scalar'), ('Matrix', 'matrix'))}
EXPR[A + 'GenericScalarExpression<double>'] = 'scalar'
EXPR[A + 'VectorExpression<3>'] = 'vector3'


def meaning(nm, a):
    """what an operation is to give, from the (kind, value) of its operands; None if this is not known"""
    ks = tuple(k for k, _ in a)
    v = [x for _, x in a]
    el = lambda f: [[f(x, y) for x, y in zip(r, s_)] for r, s_ in zip(*v)]
    if nm == 'operator*':
        if len(a) == 2 and ks[0] in ('rotation', 'transformation', 'matrix') and len(v[0]) == len(v[1]):
            return mul(v[0], v[1])
        if ks[-1] == 'scalar' and len(a) == 2:
            return scale(v[1][0][0], v[0])
        return None
    if nm == 'operator/' and ks == ('scalar', 'scalar'):
        return [[v[0][0][0] / v[1][0][0]]]
    if nm == 'operator+' and len(a) == 2 and ks[0] == ks[1]:
        return add(*v)
    if nm == 'operator-' and len(a) == 2 and ks[0] == ks[1]:
        return sub(*v)
    if nm == 'operator-' and len(a) == 1:
        return scale(-1, v[0])
    if nm == 'cross' and ks == ('euclidean', 'euclidean'):
        return mul(cross(v[0]), v[1])
    if nm == 'elementwiseMultiply':
        return el(lambda x, y: x * y)
    if nm == 'inverse' and ks == ('rotation',):
        return tr(v[0])
    if nm == 'inverse' and ks == ('transformation',):
        Ct = tr([r[:3] for r in v[0][:3]])
        t = mul(Ct, [[r[3]] for r in v[0][:3]])
        return [Ct[i] + [t[i][0] * -1] for i in range(3)] + [[const(int(j == 3)) for j in range(4)]]
    if nm == 'toHomogeneousExpression' and ks == ('euclidean',):
        return v[0] + [[const(1)]]
    if nm == 'toEuclideanExpression' and ks == ('homogeneous',):
        return [[v[0][i][0] / v[0][3][0]] for i in range(3)]
    if nm == 'toEuclideanExpression' and ks == ('transformation',):
        return [[v[0][i][3]] for i in range(3)]
    if nm == 'toRotationExpression' and ks == ('transformation',):
        return [r[:3] for r in v[0][:3]]
    if nm == 'TransformationExpression' and ks == ('rotation', 'euclidean'):
        return [v[0][i] + v[1][i] for i in range(3)] + [[const(int(j == 3)) for j in range(4)]]
    if nm == 'HomogeneousExpression' and ks == ('vector3',):
        return v[0] + [[const(1)]]
    if nm.endswith('Expression') and len(a) == 1 and nm[0].isupper():
        return v[0]
    return None


def operators(ctx, W):
    prog, seen = W.prog, 0
    for f in sorted(prog.functions(), key=lambda f: f.u):
        member = f.fcls in EXPR
        if f.body is None or f.kind == 'dtor' or not (member or not f.fcls and f.q.startswith(A + 'operator')):
            continue
        res = f.fcls if f.kind == 'ctor' else bare(f.ret.r)
        if res not in EXPR or EXPR[res].startswith('vector'):
            continue
        if f.kind == 'ctor' and (not f.params or any(bare(f.types[p['t']].r) == f.fcls for p in f.params)):
            continue
        seen += operator(ctx, W, f, res)
    ctx.need(seen >= 20, 'operators on expressions (%d)' % seen)


def kind_of_arg(W, f, i, a):
    ty = f.types[f.params[i]['t']]
    r = bare(ty.r if ty.r or not ty.isptr else ty.rp)
    if r in EXPR:
        return EXPR[r]
    if ty.b == 'float' or r == 'double':
        return 'scalar'
    if 'shared_ptr<' in r:
        return kind_of(W.prog, bare(engine.targs(r)[0].strip()))
    if ty.isptr:
        return kind_of(W.prog, r)
    m = calc.dims(r)
    return {(3, 1): 'vector3', (4, 1): 'vector4', (3, 3): 'rotation', (4, 4): 'transformation'}.get(m)


def operator(ctx, W, f, res):
    nm = f.n
    what = '%s::%s' % (short(f.fcls or 'aslam'), nm)

    def b(k):
        k.unit4 = False
        ops, a = [], []
        this = None
        if f.fcls and f.kind != 'ctor':
            this = W.expression(k, f.fcls, 10, ops)
            if this is None:
                return None
            a.append((EXPR[f.fcls], ops[0].value))
        args = []
        for i in range(len(f.params)):
            n = len(ops)
            x = W.arg(k, f, i, ops)
            if x is None:
                return None
            args.append(x)
            kd = kind_of_arg(W, f, i, x)
            a.append((kd, ops[-1].value if len(ops) > n else nums(x)))
        kinds = [(x if x is not None and not x.startswith('vector') or not EXPR.get(res) else x, y) for x, y in a]
        if nm in ('operator+', 'operator-') and len(kinds) == 2 and kinds[1][0] == 'vector3' and kinds[0][0] == 'euclidean':
            kinds[1] = ('euclidean', kinds[1][1])
        want = meaning(nm, kinds)
        if want is None:
            return None
        r = k.make(f, args) if f.kind == 'ctor' else k.rv(k.call(f, this, args))
        if not isinstance(r, Obj):
            return [('the result', UNK, UNK)]
        kd = EXPR[res]
        r.cls = res
        v = value(k, r, kd)
        out = eq('the value is not that of the operation', v, want)
        for other in ('evaluate', 'toValue'):
            if members(W.prog, res, other):
                out += eq('%s() is not the value' % other, nums(k.method(r, other)), want)
        if v is not None and ops:
            out += chained(k, kd, r, ops, v)
        return out
    n0 = [Ex(W.prog, Path([], 0))]
    try:
        if b(n0[0]) is None:
            ctx.count('operations without a stated meaning')
            return 0
    except (Stop, NoRoot):
        ctx.count('operations without a stated meaning')
        return 0
    tag = ','.join(str(kind_of_arg(W, f, i, None)) for i in range(len(f.params)))
    law(ctx, '%s(%s)' % (what, tag), f, what, 'operator', b, W.prog)
    return 1
