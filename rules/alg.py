"""Helpers to state algebraic obligations about functions of the program."""
import calc
from calc import Calc, Mat, Box, Obj, Ptr, S, UNK, Stop, NoRoot, Path, const, mat, mfun, isnum
from series import Ser, eps
from jac import prove, overload
import engine

P = calc.P


class Alg(Calc):
    tiny = calc.Fraction(1, 50)
    abs_forks = False


def fn(prog, q, *types):
    """the function of this name whose parameter types start with these"""
    fs = [f for f in prog.named(q) if f.body is not None and len(f.params) == len(types)
          and all(match(ptype(f, i), t) for i, t in enumerate(types))]
    return min(fs, key=lambda f: (len(f.u), f.u)) if fs else None


def match(have, want):
    return want is None or have.startswith(want)


def ptype(f, i):
    ty = f.types[f.params[i]['t']]
    r = ty.r or ty.b or ''
    if r.startswith('const '):
        r = r[6:]
    if r.startswith('Eigen::MatrixBase<'):
        r = engine.targs(r)[0]
    if r.startswith('Eigen::Matrix<'):
        a = engine.targs(r)
        return '%s%sx%s' % ('f' if a[0] == 'float' else '', a[1].strip(), a[2].strip())
    return r.replace('sm::kinematics::', '') if r else (ty.b or '')


# ---------------------------------------------------------------- matrices of numbers
def vec(*xs):
    return Mat([[Box(const(x))] for x in xs])


def nums(m):
    """the entries as numbers, or None if one is not understood"""
    m = m.v if isinstance(m, Box) else m
    if isinstance(m, S) or isnum(m):
        return [[const(m)]]
    if not isinstance(m, Mat) or not m.known or calc.has_unk(m):
        return None
    return [[const(b.v) for b in row] for row in m.c]


def mul(A, B):
    if A is None or B is None:
        return None
    return [[total(A[i][k] * B[k][j] for k in range(len(B))) for j in range(len(B[0]))] for i in range(len(A))]


def total(xs):
    r = const(0)
    for x in xs:
        r = r + x
    return r


def tr(A):
    if A is None:
        return None
    return [list(r) for r in zip(*A)]


def add(A, B):
    if A is None or B is None:
        return None
    return [[x + y for x, y in zip(r, s)] for r, s in zip(A, B)]


def scale(c, A):
    if A is None:
        return None
    return [[x * c for x in r] for r in A]


def sub(A, B):
    return add(A, scale(-1, B))


def eye(n):
    return [[const(int(i == j)) for j in range(n)] for i in range(n)]


def cross(a):
    a = [x[0] if isinstance(x, list) else x for x in a]
    z = const(0)
    return [[z, -a[2], a[1]], [a[2], z, -a[0]], [-a[1], a[0], z]]


def col(a):
    return [[const(x)] for x in a]


def d(A, key):
    """derivative of every entry with respect to an input"""
    if A is None:
        return None
    return [[S(x.d.get(key, 0)) for x in r] for r in A]


def inverse(k, A):
    return nums(k.inverse(mat(A)))


def asmat(A):
    return mat(A)


def eq(msg, got, want):
    """obligations that two matrices are the same, entry for entry"""
    if got is None or want is None:
        return [(msg, UNK, UNK)]
    if len(got) != len(want) or len(got[0]) != len(want[0]):
        return [(msg + ' (size)', False, True)]
    return [(msg, g, w) for r, s in zip(got, want) for g, w in zip(r, s)]


def quat_to_rot(q):
    """rotation matrix of [eps, eta]: (eta^2 - eps.eps) 1 + 2 eps eps^T - 2 eta eps^x"""
    q = [x[0] if isinstance(x, list) else x for x in q]
    e, n = q[:3], q[3]
    s = n * n - total(x * x for x in e)
    E = cross(e)
    return [[s * int(i == j) + e[i] * e[j] * 2 - n * E[i][j] * 2 for j in range(3)] for i in range(3)]


def unit(k, name, n=4):
    """a vector of unit length"""
    a = [k.sym(name, i) for i in range(n - 1)]
    s = total(x * x for x in a)
    dn = const(1) / (s + 1)
    return [x * 2 * dn for x in a] + [(const(1) - s) * dn]


def rot(k, name):
    return quat_to_rot(unit(k, name))


# ---------------------------------------------------------------- branches for small values
def small(ctx, key, f, what, body, prog, single=False):
    """body(k) -> [(label, number)] for inputs that are series: the branches for small values are
    truncations of the general formula, good to rounding below their threshold"""
    runs = {}
    todo, n = [[]], 0
    found = []
    for salt in range(60):
        todo, res = [[]], []
        ok = True
        n = 0
        while todo and n < 64:
            n += 1
            p = Path(todo.pop(), salt)
            try:
                r = body(Alg(prog, p))
            except NoRoot:
                ok = False
                break
            except (Stop, ValueError, AssertionError):
                r = None
            todo += p.todo
            if r is not None and not p.vague:
                res.append((p, r))
        if not ok:
            continue
        gen = [r for p, r in res if not p.small]
        sml = [(p, r) for p, r in res if p.small]
        if not gen or not sml:
            return 0
        ctx.count('branches for small values', len(sml))
        for p, r in sml:
            best = min((misfit(r, g, p.tau, single) for g in gen), key=len)
            for m in sorted(set(best)):
                ctx.violate('small', '%s.%s' % (key, m), f.where(), '%s: %s' % (what, m))
        return len(sml)
    return 0


def misfit(r, g, tau, single):
    out = []
    for (m, x), (_, y) in zip(r, g):
        if not isnum(x) or not isnum(y):
            continue
        x, y = const(x).v, const(y).v
        df = x - y
        if isinstance(df, int):
            if df % P:
                out.append('%s: the branch for small values does not have the limit of the general formula' % m)
            continue
        if df.zero:
            continue
        deg = x.val + len(x.c) - 1 if isinstance(x, Ser) and x.exact and x.c else 0 if isinstance(x, int) or x.exact else None
        if df.val <= 0 and not (isinstance(y, Ser) and y.val < 0):
            out.append('%s: the branch for small values does not have the limit of the general formula' % m)
        elif deg is not None and df.val <= deg:
            out.append('%s: a term in the branch for small values is not that of the expansion of the general formula' % m)
        elif tau and tau ** df.val > (1e-5 if single else 1e-9):
            out.append('%s: the branch for small values is used for values that are too large for it' % m)
    return out
