"""Algebraic value numbering with derivatives.

Every number a function computes is represented by a fingerprint in the field of
integers modulo 2^61-1 ("value numbering by random interpretation"): inputs,
members and opaque functions of given arguments get pseudo-random elements, and
+ - * / act in the field.  Two expressions that are equal as rational functions
over roots, trigonometric and opaque atoms have equal fingerprints; different
ones collide with probability about degree/2^61.  A fingerprint carries its
derivatives with respect to chosen inputs, propagated by the rules of
differentiation.  Nothing is compiled or executed, and no number is a value the
program would ever hold.  Branches are followed separately; what has been decided
about a difference is reused for every later test of the same difference.
Anything not understood is UNK, and UNK is contagious."""
import hashlib
import os
import re
from fractions import Fraction
from engine import dims, targs
from terms import throws
from series import Ser, tan_half, twice_atan

P = (1 << 61) - 1
PI = Fraction(repr(3.141592653589793))


class _Unk:
    def __repr__(self):
        return 'UNK'


UNK = _Unk()


SIZED = {'head', 'tail', 'segment', 'block', 'topLeftCorner', 'topRightCorner', 'bottomLeftCorner', 'bottomRightCorner', 'topRows', 'bottomRows',
         'middleRows', 'leftCols', 'rightCols', 'middleCols', 'row', 'col'}


class Stop(Exception):
    """this path ends (throw, unsupported)"""

    def __init__(self, why):
        self.why = why


def internal(e):
    """an error of the analysis itself: the code has a form that was not thought of, and the path is undecided"""
    if isinstance(e, (Stop, NoRoot)):
        return False
    if os.environ.get('STRICT'):
        raise e
    return True


class NoRoot(Exception):
    """the fingerprint of a radicand is not a square: other atoms have to be chosen"""


def qr(a):
    return a == 0 or pow(a, (P - 1) // 2, P) == 1


class S:
    """a number: fingerprint, derivatives, exact value if constant"""
    __slots__ = ('v', 'd', 'q')

    def __init__(self, v, d=None, q=None):
        self.v = v
        self.d = d or {}
        self.q = q

    def __add__(self, o):
        return s_add(self, o)
    __radd__ = __add__

    def __sub__(self, o):
        return s_sub(self, o)

    def __rsub__(self, o):
        return s_sub(o, self)

    def __mul__(self, o):
        return s_mul(self, o)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return s_div(self, o)

    def __neg__(self):
        return s_neg(self)

    def __repr__(self):
        return 'S(%s%s)' % (self.q if self.q is not None else '#%x' % (self.v & 0xffff), ' d%d' % len(self.d) if self.d else '')


def const(x):
    if isinstance(x, S):
        return x
    if isinstance(x, bool):
        x = int(x)
    q = x if isinstance(x, Fraction) else Fraction(repr(x)) if isinstance(x, float) else Fraction(x)
    return S(q.numerator % P * pow(q.denominator % P, P - 2, P) % P, None, q)


def isnum(x):
    return isinstance(x, (S, int, float, Fraction)) and not isinstance(x, bool)


def lin(*terms):
    """derivatives of a sum of coefficient * number"""
    d = {}
    for c, x in terms:
        for k, g in x.d.items():
            d[k] = (d.get(k, 0) + c * g) % P
    return {k: g for k, g in d.items() if g}


def s_add(a, b):
    a, b = const(a), const(b)
    return S((a.v + b.v) % P, lin((1, a), (1, b)), a.q + b.q if a.q is not None and b.q is not None else None)


def s_neg(a):
    a = const(a)
    return S(-a.v % P, lin((-1, a)), -a.q if a.q is not None else None)


def s_sub(a, b):
    return s_add(a, s_neg(b))


def s_mul(a, b):
    a, b = const(a), const(b)
    if a.q == 0 or b.q == 0:
        return const(0)
    return S(a.v * b.v % P, lin((b.v, a), (a.v, b)), a.q * b.q if a.q is not None and b.q is not None else None)


def inv(v):
    return pow(v, P - 2, P)


def s_div(a, b):
    a, b = const(a), const(b)
    if b.v == 0:
        raise Stop('division by zero')
    i = inv(b.v)
    return S(a.v * i % P, lin((i, a), (-a.v * i % P * i % P, b)), a.q / b.q if a.q is not None and b.q is not None else None)


def chain(x, v, dv):
    """a function with value v and derivative dv at x"""
    return S(v % P, lin((dv % P, x)))


def s_sqrt(x):
    x = const(x)
    if x.q is not None:
        for r in (x.q,):
            if r >= 0:
                n, m = isqrt(r.numerator), isqrt(r.denominator)
                if n is not None and m is not None:
                    return const(Fraction(n, m))
    if not qr(x.v):
        raise NoRoot()
    r = pow(x.v, (P + 1) // 4, P)
    if r == 0:
        raise Stop('root of zero')
    return chain(x, r, inv(2 * r % P))


def isqrt(n):
    import math
    r = math.isqrt(n)
    return r if r * r == n else None


def s_abs(x):
    x = const(x)
    if x.q is not None:
        return const(abs(x.q))
    return x if qr(x.v) else s_neg(x)


def s_powi(x, n):
    if n < 0:
        return s_div(1, s_powi(x, -n))
    r = const(1)
    for _ in range(n):
        r = s_mul(r, x)
    return r


class Box:
    __slots__ = ('v', 'name')

    def __init__(self, v=UNK, name=None):
        self.v = v
        self.name = name

    def __repr__(self):
        return 'Box(%r)' % (self.v,)


class Flag:
    """an unknown truth value with a name"""

    def __init__(self, key):
        self.key = key


class Cmp:
    """a comparison of a number with zero"""

    def __init__(self, x, ops):
        self.x = x
        self.ops = ops


class Mat:
    """a matrix of boxes; r is None while its size is not known"""

    def __init__(self, cells, r=None, c=None):
        self.c = cells
        self.rows = len(cells) if cells is not None else r
        self.cols = (len(cells[0]) if cells else 0) if cells is not None else c
        if cells is not None and c is not None:
            self.cols = c

    @property
    def known(self):
        return self.c is not None

    def flat(self):
        """column-major, as Eigen stores it"""
        return [self.c[i][j] for j in range(self.cols) for i in range(self.rows)]

    def vals(self):
        return [[b.v for b in row] for row in self.c]

    def __repr__(self):
        return 'Mat%sx%s' % (self.rows, self.cols)


def mat(vals):
    return Mat([[Box(v) for v in row] for row in vals])


def mfun(r, c, f):
    return Mat([[Box(f(i, j)) for j in range(c)] for i in range(r)], r, c)


def has_unk(x):
    if isinstance(x, Mat):
        return not x.known or any(b.v is UNK for row in x.c for b in row)
    return x is UNK or isinstance(x, Box) and x.v is UNK


def storage(m, e):
    """the cells in the order in which they are stored, and the position of an element"""
    a = targs((e.type.r or '').replace('const ', '')) if e is not None and 'Eigen::Matrix<' in (e.type.r or '') else []
    if len(a) >= 4 and a[3].strip().isdigit() and int(a[3]) & 1 and m.cols != 1:
        return [b for row in m.c for b in row], lambda i, j: i * m.cols + j
    return m.flat(), lambda i, j: j * m.rows + i


class Obj:
    def __init__(self, cls, path):
        self.cls = cls
        self.path = path
        self.f = {}

    def __repr__(self):
        return 'Obj(%s %s)' % (self.cls, '.'.join(map(str, self.path)))


class Seq:
    """a std::vector or std::array whose elements are known"""

    def __init__(self, items):
        self.a = items


class Ptr:
    def __init__(self, to, off=0):
        self.to = to           # Box, Mat, Obj, or a list of boxes with an offset
        self.off = off


class Tie:
    def __init__(self, to):
        self.to = to           # what std::tie binds


class Fn:
    def __init__(self, node, env, this, fn):
        self.node, self.env, self.this, self.fn = node, env, this, fn


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Return(Exception):
    def __init__(self, v):
        self.v = v


REL = {'<': frozenset('<'), '<=': frozenset('<='), '>': frozenset('>'), '>=': frozenset('>='), '==': frozenset('='), '!=': frozenset('<>')}
ALL = frozenset('<=>')
FLIP = {'<': '>', '>': '<', '=': '='}
SMALL_RATIOS = {}
for _n in range(1, 13):
    for _d in range(1, 13):
        _r = _n * pow(_d, P - 2, P) % P
        SMALL_RATIOS[_r] = 1
        SMALL_RATIOS[P - _r] = -1


class Path:
    """the decisions taken on one path"""

    def __init__(self, script, salt):
        self.script = list(script)
        self.pos = 0
        self.todo = []            # alternative scripts
        self.facts = {}
        self.salt = salt
        self.vague = False        # a decision on something not understood
        self.small = False        # a comparison with a tiny constant went to its small side
        self.narrow = False       # a case of its own (equality, a tiny number) was passed over
        self.tau = 0              # the largest of these constants
        self.trace = []

    def choose(self, what=None):
        if self.pos < len(self.script):
            b = self.script[self.pos]
        else:
            b = True
            self.todo.append(self.script[:self.pos] + [False])
            self.script.append(True)
        self.pos += 1
        if what is not None:
            self.trace.append((what, b))
        return b

    def atom(self, *key):
        h = hashlib.blake2b(repr((self.salt,) + key).encode(), digest_size=8).digest()
        return int.from_bytes(h, 'big') % (P - 2) + 1

    def test(self, x, ops, what=None):
        """is the sign of x among ops?"""
        x = const(x)
        if x.q is not None:
            s = '<' if x.q < 0 else '>' if x.q > 0 else '='
            return s in ops
        k = x.v
        fl = k > P // 2
        if fl:
            k = P - k
            ops = frozenset(FLIP[o] for o in ops)
        cur = self.facts.get(k, ALL)
        if x.v == 0 and '=' in cur:
            return '=' in ops
        if cur is ALL and k not in self.facts:
            i = inv(k)
            for g, known in self.facts.items():
                if isinstance(g, type(k)) and not isinstance(g, tuple):
                    r = g * i % P
                    if isinstance(r, int) and r in SMALL_RATIOS:
                        cur = known if SMALL_RATIOS[r] > 0 else frozenset(FLIP[o] for o in known)
                        break
        if cur <= ops:
            return True
        if not cur & ops:
            return False
        if cur - frozenset('=') <= ops:
            b = True                # equality alone is not a case of its own
            self.narrow |= '=' not in ops
            self.facts[k] = cur & ops
            return b
        if not (cur & ops) - frozenset('='):
            self.narrow = True
            self.facts[k] = cur - ops
            return False
        b = self.choose(what)
        self.facts[k] = cur & ops if b else cur - ops
        return b

    def flag(self, key):
        k = ('flag', key)
        if k not in self.facts:
            self.facts[k] = self.choose(key)
        return self.facts[k]


def explore(check, limit=300, tries=400):
    """calls check(path) for every path; what check returns is collected with the path"""
    out = []
    todo = [[]]
    n = 0
    while todo and n < limit:
        script = todo.pop()
        salt = 0
        while True:
            p = Path(script, salt)
            try:
                r = check(p)
            except NoRoot:
                salt += 1
                if salt > tries:
                    r = None
                    p.todo = []
                    break
                continue
            except Exception as e:
                r = e if isinstance(e, Stop) else Stop('unknown kind of code')
                internal(e)
            if p.vague:
                r = Stop('a decision on something not understood')
            break
        n += 1
        todo += p.todo
        out.append((p, r))
    return out, not todo


def is_array(n):
    """an Eigen expression whose products are elementwise"""
    m = n is not None and re.search(r'Eigen::(Array|ArrayWrapper|MatrixWrapper|Matrix)\b', n.type.r or '')
    return bool(m) and m.group(1) in ('Array', 'ArrayWrapper')


PASS = {'noalias', 'eval', 'cast', 'matrix', 'array', 'derived', 'const_cast_derived', 'move', 'forward', 'ref', 'cref', 'template', 'nestedExpression', 'selfadjointView', 'finished'}


class Calc:
    max_depth = 24

    def __init__(self, prog, path):
        self.prog = prog
        self.p = path
        self.depth = 0
        self.analysed = set()
        self.unknown = {}
        self.outside = None       # the last function that read outside of a matrix
        self.globals = {}
        self.steps = 0
        self.trig = {}            # angle -> tangent of its half
        self.tangent = {}         # angle -> what atan has been applied to
        self.halves = {}          # tangent of the half -> angle
        self.inverses = {}        # what tan, exp and log have been applied to

    # ------------------------------------------------------------------ values
    def sym(self, *key):
        return S(self.p.atom('in') if not key else self.p.atom(*key))

    def var(self, *key):
        """an input that derivatives are taken with respect to"""
        return S(self.p.atom(*key), {key: 1})

    def invec(self, name, n, diff=True):
        return Mat([[Box(self.var(name, i) if diff else self.sym(name, i))] for i in range(n)])

    def note(self, what):
        self.unknown[what] = self.unknown.get(what, 0) + 1
        return UNK

    def fresh(self, ty, path):
        """an unknown object of this type, by the path under which it is reached"""
        r = ty.rp if (ty.isref or ty.isptr) and ty.rp else ty.r
        r = r or ''
        if r.startswith('const '):
            r = r[6:]
        if path[0].startswith('unknown') and ty.b in ('float', 'int', 'uint', 'enum', 'bool'):
            return Box(UNK)
        if ty.isptr:
            return Box(Ptr(self.fresh_rec(r, path)))
        if ty.b == 'float':
            return Box(self.sym(*path))
        if ty.b in ('int', 'uint', 'enum'):
            return Box(self.sym(*path))
        if ty.b == 'bool':
            return Box(Flag(path))
        if 'shared_ptr<' in r or 'scoped_ptr<' in r or 'unique_ptr<' in r:
            a = targs(r)
            return Box(Ptr(self.fresh_rec(a[0] if a else '', path)))
        return self.fresh_rec(r, path)

    def fresh_rec(self, r, path):
        if r.startswith('const '):
            r = r[6:]
        if r.startswith('Eigen::Matrix<') or r.startswith('Eigen::Array<'):
            a, b = dims(r)
            if a is not None and b is not None:
                u = path[0].startswith('unknown')
                return Mat([[Box(UNK if u else self.sym(*(path + (i, j)))) for j in range(b)] for i in range(a)], a, b)
            return Mat(None, a, b)
        return Obj(r, path)

    def uninit(self, ty):
        r = (ty.r or '')
        if r.startswith('const '):
            r = r[6:]
        if r.startswith('Eigen::Matrix<') or r.startswith('Eigen::Array<'):
            a, b = dims(r)
            if a is not None and b is not None:
                return mfun(a, b, lambda i, j: UNK)
            return Mat(None, a, b)
        if ty.b in ('float', 'int', 'uint', 'bool', 'enum') or ty.isptr:
            return Box(UNK)
        if 'shared_ptr<' in r:
            return Box(UNK)
        if r.startswith('std::vector'):
            return Box(UNK)
        self.nobj = getattr(self, 'nobj', 0) + 1
        return Obj(r, ('obj%d' % self.nobj,))

    def rv(self, x):
        return x.v if isinstance(x, Box) else x

    def copy(self, x):
        x = self.rv(x)
        if isinstance(x, Mat):
            if not x.known:
                return Mat(None, x.rows, x.cols)
            return Mat([[Box(b.v) for b in row] for row in x.c], x.rows, x.cols)
        if isinstance(x, Obj):
            o = Obj(x.cls, x.path)
            o.f = {k: self.copybox(v) for k, v in x.f.items()}
            return o
        if isinstance(x, Seq):
            return Seq([self.copybox(v) for v in x.a])
        return x

    def copybox(self, v):
        c = self.copy(v)
        return c if isinstance(c, (Mat, Obj)) else Box(c)

    # --------------------------------------------------------------- functions
    def call(self, fn, this, args, node=None):
        """args: containers (Box, Mat, Obj) for references, or values"""
        if self.depth >= self.max_depth:
            return self.note('depth')
        save = (getattr(self, 'env', None), getattr(self, 'this', None), getattr(self, 'fn', None))
        self.env, self.this, self.fn = {}, this, fn
        self.depth += 1
        self.analysed.add(fn.u)
        try:
            for i, p in enumerate(fn.params):
                a = args[i] if i < len(args) else UNK
                ty = fn.types[p['t']]
                if 'd' in p:
                    self.env[p['d']] = self.bind(ty, a)
            if fn.kind == 'ctor':
                self.inits(fn, this)
            try:
                self.ex(fn.body)
            except Return as r:
                return r.v
            return None
        finally:
            self.depth -= 1
            self.env, self.this, self.fn = save

    def inits(self, fn, this):
        for ini in fn.inits:
            e = fn.node(ini['e'])
            if e is None:
                continue
            if 'f' in ini:
                cur = this.f.get(ini['n'])
                v = self.ev(e)
                self.put_member(this, ini['n'], v, e)
            elif e.k == 'ctor':
                f = self.prog.fns.get(e.get('u'))
                if (f is None or f.body is None) and len(e.c) == 1 and isinstance(this, Obj):
                    a = self.rv(self.ev(e.c[0]))
                    if isinstance(a, Obj) and e.type.r and (e.type.r == (e.c[0].type.r or '').replace('const ', '') or e.type.r in self.prog.bases(a.cls)):
                        for k in list(a.f):
                            this.f[k] = self.copy(a.f[k]) if isinstance(a.f[k], (Mat, Obj)) else self.copybox(a.f[k])
                elif f is not None and f.body is not None and '/usr/' not in f.file:
                    self.call(f, this, [self.ev(c) for c in e.c])

    def put_member(self, this, name, v, e):
        if not isinstance(this, Obj):
            return
        if e.type.isptr and isinstance(v, (Mat, Obj)):
            v = Box(Ptr(v))
        elif isinstance(v, Mat) and (e.type.r or '').startswith(('Eigen::Map<', 'const Eigen::Map<')):
            pass                                            # refers to the memory of something else
        elif not e.type.isref:
            v = self.copybox(v) if not isinstance(v, (Mat, Obj)) else self.copy(v)
        elif not isinstance(v, (Box, Mat, Obj)):
            v = Box(v)
        this.f[name] = v

    def bind(self, ty, a):
        if ty.isref and isinstance(a, (Box, Mat, Obj)):
            return a
        if ty.isptr and isinstance(a, (Mat, Obj)):
            return Box(Ptr(a))
        if isinstance(a, (Mat, Obj)):
            r = ty.r or ''
            if isinstance(a, Mat) and a.known and r.startswith('Eigen::Matrix<'):
                return self.copy(a)
            if r.startswith(('Eigen::Map<', 'const Eigen::Map<')):
                return a
            return self.copy(a) if not ty.isref else a
        v = self.rv(a)
        if isinstance(v, (Mat, Obj)):
            return v
        return Box(self.conv(ty, v))

    def conv(self, ty, v):
        if v is UNK or v is None:
            return v
        if ty.b in ('int', 'uint') and not ty.isptr:
            if isinstance(v, S) and v.q is not None:
                return int(v.q)
            if isinstance(v, (float, Fraction)):
                return int(v)
        if ty.b == 'float' and not ty.isptr and isinstance(v, (int, float, Fraction)):
            return const(int(v) if isinstance(v, bool) else v)
        if ty.b == 'float' and isinstance(v, (Cmp, Flag)):
            return const(1 if self.truth(v) else 0)
        return v

    # -------------------------------------------------------------- statements
    def ex(self, n):
        if n is None:
            return
        self.steps += 1
        if self.steps > 400000:
            raise Stop('too long')
        f = getattr(self, 'ex_' + n.k, None)
        if f is not None:
            f(n)
        else:
            self.ev(n)

    def ex_block(self, n):
        for c in n.c:
            self.ex(c)

    def ex_null(self, n):
        pass

    def ex_decl(self, n):
        if n.get('mac'):
            return
        for v in n.c:
            if v.k == 'var':
                self.ex_var(v)

    def ex_var(self, v):
        ty = v.type
        e = v.c[0] if v.c else None
        if e is None:
            self.env[v['d']] = self.uninit(ty)
            return
        x = self.ev(e)
        if ty.isref:
            self.env[v['d']] = x if isinstance(x, (Box, Mat, Obj)) else Box(x)
            return
        if isinstance(x, (Mat, Obj)):
            r = ty.r or ''
            a, b = dims(r[6:] if r.startswith('const ') else r)
            if not r.replace('const ', '', 1).startswith(('Eigen::Map<', 'Eigen::Block<', 'Eigen::VectorBlock<', 'Eigen::Ref<')):
                x = self.copy(x)
            if isinstance(x, Mat) and not x.known and a is not None and b is not None:
                x = mfun(a, b, lambda i, j: UNK)
            self.env[v['d']] = x
            return
        x = self.rv(x)
        if isinstance(x, (Mat, Obj)):
            x = self.copy(x)
            self.env[v['d']] = x
            return
        r = ty.r or ''
        if r.startswith('const '):
            r = r[6:]
        if r.startswith('Eigen::Matrix<') and not ty.isptr and (x is UNK or x is None or isnum(x)):
            u = self.uninit(ty)
            if isnum(x) and u.known and u.rows * u.cols == 1:
                u.c[0][0].v = x
            self.env[v['d']] = u
            return
        self.env[v['d']] = Box(self.conv(ty, x))

    def ex_if(self, n):
        c, th, el = n.c
        if n.get('init') is not None:
            self.ex(n.fn.node(n['init']))
        if throws(th, self.prog) and self.rare(c):
            self.assume(c, False)
            self.ex(el)
            return
        if throws(el, self.prog):
            self.assume(c, True)
            self.ex(th)
            return
        if self.cond(c):
            self.ex(th)
        else:
            self.ex(el)

    def rare(self, c):
        return True

    def sign(self, x):
        return None

    def assume(self, c, truth):
        """an assertion: the other side throws"""
        if c.k == 'un' and c['op'] == '!':
            return self.assume(c.c[0], not truth)
        if c.k == 'bin' and c['op'] == ('&&' if truth else '||'):
            self.assume(c.c[0], truth)
            self.assume(c.c[1], truth)
            return
        v = self.rv(self.ev(c))
        if isinstance(v, Cmp):
            x = const(v.x)
            ops = v.ops if truth else ALL - v.ops
            if x.q is not None or self.sign(x):
                if not self.p.test(x, ops):
                    raise Stop('throws')
                return
            k = x.v
            if k > P // 2:
                k, ops = P - k, frozenset(FLIP[o] for o in ops)
            cur = self.p.facts.get(k, ALL)
            if not cur & ops:
                raise Stop('throws')
            self.p.facts[k] = cur & ops
        elif isinstance(v, Flag):
            k = ('flag', v.key)
            if self.p.facts.get(k, truth) != truth:
                raise Stop('throws')
            self.p.facts[k] = truth
        elif isinstance(v, (bool, int)):
            if bool(v) != truth:
                raise Stop('throws')

    def cond(self, c):
        if c is None:
            return True
        if c.k == 'un' and c['op'] == '!':
            return not self.cond(c.c[0])
        if c.k == 'bin' and c['op'] == '&&':
            return self.cond(c.c[0]) and self.cond(c.c[1])
        if c.k == 'bin' and c['op'] == '||':
            return self.cond(c.c[0]) or self.cond(c.c[1])
        return self.truth(self.rv(self.ev(c)), c)

    def truth(self, v, c=None):
        if isinstance(v, (bool, int)):
            return bool(v)
        if isinstance(v, Cmp):
            return self.cmp_truth(v, c)
        if isinstance(v, Flag):
            return self.p.flag(v.key)
        if isinstance(v, S):
            return self.p.test(v, frozenset('<>'))
        if isinstance(v, Ptr):
            return True
        self.p.vague = True
        return self.p.flag(('unknown', c.fn.u if c is not None else '', c.line if c is not None else 0, self.p.pos))

    tiny = Fraction(1, 1000)

    def cmp_truth(self, v, c):
        r = self.p.test(v.x, v.ops, c)
        t = getattr(v, 'tiny', None)
        if t is not None and const(v.x).q is None:
            self.p.narrow = True
        if t is not None:
            # t: ops that say "below the threshold"
            below = v.ops <= t or not (v.ops - t - frozenset('='))
            if below == r and const(v.x).q is None:
                self.p.small = True
                self.p.tau = max(self.p.tau, getattr(v, 'tau', 0))
        return r

    def ex_for(self, n):
        init, cond, inc, body = n.c
        self.ex(init)
        self.loop(cond, body, inc)

    def ex_while(self, n):
        self.loop(n.c[0], n.c[1], None)

    def ex_do(self, n):
        self.loop(n.c[1], n.c[0], None, True)

    max_iter = 64

    def loop(self, cond, body, inc, first=False):
        k = 0
        while first or self.cond(cond):
            first = False
            k += 1
            if k > self.max_iter:
                raise Stop('loop bound')
            try:
                self.ex(body)
            except Break:
                return
            except Continue:
                pass
            if inc is not None:
                self.ev(inc)

    def ex_range(self, n):
        v, e, body = n.c
        m = self.rv(self.ev(e))
        if isinstance(m, list):
            m = Seq(m)
        if not isinstance(m, Seq) or v is None or len(m.a) > self.max_iter:
            raise Stop('range loop')
        for x in list(m.a):
            ty = v.type
            self.env[v['d']] = x if ty.isref else self.copybox(x)
            try:
                self.ex(body)
            except Break:
                return
            except Continue:
                pass

    def ex_break(self, n):
        raise Break()

    def ex_continue(self, n):
        raise Continue()

    def ex_return(self, n):
        v = self.ev(n.c[0]) if n.c and n.c[0] is not None else None
        ret = self.fn.ret
        if ret is not None and ret.isref:
            raise Return(v)
        if isinstance(v, Mat) and ret is not None and (ret.r or '').startswith(('Eigen::Map<', 'const Eigen::Map<')):
            raise Return(v)
        if isinstance(v, (Mat, Obj)):
            raise Return(self.copy(v))
        v = self.rv(v)
        if isinstance(v, (Mat, Obj)):
            raise Return(self.copy(v))
        raise Return(self.conv(ret, v) if ret is not None else v)

    def ex_switch(self, n):
        c = self.rv(self.ev(n.c[0]))
        raise Stop('switch')

    def ex_try(self, n):
        self.ex(n.c[0])

    # ------------------------------------------------------------- expressions
    def ev(self, n):
        if n is None:
            return UNK
        f = getattr(self, 'ev_' + n.k, None)
        if f is None:
            for c in n.c:
                if c is not None:
                    self.ev(c)
            return self.note('expression ' + n.k)
        return f(n)

    def val(self, n):
        return self.rv(self.ev(n))

    def ev_lit(self, n):
        v = n.get('v')
        if isinstance(v, bool):
            return v
        if v is None:
            return False if n.get('mac') in ('NULL', 'nullptr') or n.type.b == 'int' or 'nullptr' in (n.type.s or '') else UNK
        if isinstance(v, str):
            return v if not n.type.scalar else UNK
        if n.type.b == 'float':
            return const(v if not isinstance(v, str) else float(v))
        return int(v)

    def ev_sizeof(self, n):
        return n.get('cv', UNK)

    def ev_this(self, n):
        return self.this if self.this is not None else UNK

    def ev_ref(self, n):
        if n['dk'] == 'enum':
            v = n.get('v')
            return int(v) if v is not None else UNK
        if 'd' in n.d and n['d'] in self.env:
            return self.env[n['d']]
        if n.get('cv') is not None:
            v = n['cv']
            return const(v) if isinstance(v, float) else v
        if n['dk'] in ('global', 'slocal'):
            if isinstance(n.get('v'), int):
                return n['v']
            q = n.get('q') or n.get('n')
            if q not in self.globals:
                self.globals[q] = self.fresh(n.type, ('G', q))
            return self.globals[q]
        if n['dk'] == 'fn':
            return UNK
        return self.note('name ' + str(n.get('n')))

    def ev_mem(self, n):
        if n.get('fn'):
            return UNK
        b = self.rv(self.ev(n.c[0])) if n.c and n.c[0] is not None else UNK
        if isinstance(b, Ptr):
            b = self.deref(b)
        if isinstance(b, Box):
            b = b.v
        if isinstance(b, Obj):
            m = n['n']
            if m not in b.f:
                b.f[m] = self.fresh(n.type, b.path + (m,))
            return b.f[m]
        if n.get('cv') is not None:
            return n['cv']
        return UNK

    def deref(self, p):
        if isinstance(p.to, list):
            return p.to[p.off] if 0 <= p.off < len(p.to) else UNK
        return p.to

    def ev_cast(self, n):
        x = self.ev(n.c[0]) if n.c else UNK
        ty = n.type
        if ty.scalar and not ty.isptr and not isinstance(x, (Mat, Obj)):
            v = self.rv(x)
            w = self.conv(ty, v)
            if w is not v:
                return w
            if ty.b == 'bool' and isnum(v):
                return self.truth(v)
        return x

    ev_definit = ev_defarg = ev_cast

    def ev_un(self, n):
        op = n['op']
        e = n.c[0]
        if op == '&' and e.k == 'call' and e.get('op') == '()' and len(e.c) == 3:
            m = self.rv(self.ev(e.c[0]))
            i, j = self.rv(self.ev(e.c[1])), self.rv(self.ev(e.c[2]))
            if isinstance(m, Mat) and m.known and isinstance(i, int) and isinstance(j, int) and 0 <= i < m.rows and 0 <= j < m.cols:
                fl, k = storage(m, e.c[0])
                return Ptr(fl, k(i, j))
        x = self.ev(e)
        if op == '*':
            v = self.rv(x)
            if isinstance(v, Ptr):
                return self.deref(v)
            return x if isinstance(x, Obj) else UNK      # *this
        if op == '&':
            if isinstance(x, Box):
                m = getattr(x, 'name', None)
                if isinstance(m, tuple) and m[0] == 'of':
                    return Ptr(m[1], m[2])
                return Ptr(x)
            return Ptr(x) if isinstance(x, (Mat, Obj)) else UNK
        if op in ('++', '--'):
            v = self.rv(x)
            if isinstance(v, Ptr) and isinstance(v.to, list):
                w = Ptr(v.to, v.off + (1 if op == '++' else -1))
            elif isinstance(v, int):
                w = v + (1 if op == '++' else -1)
            elif isinstance(v, S):
                w = s_add(v, 1 if op == '++' else -1)
            else:
                w = UNK
            if isinstance(x, Box):
                x.v = w
            return v if n.get('post') else x
        v = self.rv(x)
        if op == '-':
            return self.neg(v)
        if op == '+':
            return v
        if op == '!':
            if isinstance(v, Cmp):
                c = Cmp(v.x, ALL - v.ops)
                if hasattr(v, 'tiny'):
                    c.tiny, c.tau = v.tiny, v.tau
                return c
            if isinstance(v, (bool, int)):
                return not v
            if isinstance(v, Ptr):
                return False
            if isinstance(v, Flag):
                return not self.truth(v)
            return UNK
        return UNK

    def neg(self, v):
        if isinstance(v, int):
            return -v
        if isinstance(v, S):
            return s_neg(v)
        if isinstance(v, Mat) and v.known:
            return mfun(v.rows, v.cols, lambda i, j: self.neg(v.c[i][j].v))
        if isinstance(v, Mat):
            return Mat(None, v.rows, v.cols)
        return UNK

    def ev_bin(self, n):
        op = n['op']
        if op in ('&&', '||'):
            return self.cond(n)
        if op == ',':
            self.ev(n.c[0])
            return self.ev(n.c[1])
        a, b = self.val(n.c[0]), self.val(n.c[1])
        return self.arith(op, a, b, n)

    def arith(self, op, a, b, n=None):
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if isinstance(a, (Cmp, Flag)):
            a = int(self.truth(a))
        if isinstance(b, (Cmp, Flag)):
            b = int(self.truth(b))
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op in ('+', '-') and isinstance(a, Ptr) and isinstance(b, int) and isinstance(a.to, list):
                return Ptr(a.to, a.off + (b if op == '+' else -b))
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.to is b.to and isinstance(a.to, list):
                if op == '-':
                    return a.off - b.off
                if op in ('<', '>', '<=', '>='):
                    return self.arith(op, a.off, b.off)
            if op in ('==', '!='):
                if isinstance(a, Ptr) and isinstance(b, Ptr):
                    if isinstance(a.to, list) and isinstance(b.to, list) and 0 <= a.off < len(a.to) and 0 <= b.off < len(b.to):
                        return (a.to[a.off] is b.to[b.off]) == (op == '==')
                    return (a.to is b.to and a.off == b.off) == (op == '==')
                return op == '!='
            return UNK
        if isinstance(a, Mat) or isinstance(b, Mat):
            return self.marith(op, a, b)
        if a is UNK or b is UNK or a is None or b is None or not isnum(a) or not isnum(b):
            return UNK
        if isinstance(a, int) and isinstance(b, int):
            if op in ('+', '-', '*'):
                return a + b if op == '+' else a - b if op == '-' else a * b
            if op == '/':
                return int(Fraction(a, b)) if b else UNK
            if op == '%':
                return a - b * int(Fraction(a, b)) if b else UNK
            if op in ('|', '&', '^'):
                return a | b if op == '|' else a & b if op == '&' else a ^ b
            if op in REL:
                return (('<' if a < b else '>' if a > b else '=') in REL[op])
            if op in ('&', '|', '^', '<<', '>>'):
                return {'&': a & b, '|': a | b, '^': a ^ b, '<<': a << b if 0 <= b < 64 else 0, '>>': a >> b if 0 <= b < 64 else 0}[op]
            return UNK
        if op == '+':
            return s_add(a, b)
        if op == '-':
            return s_sub(a, b)
        if op == '*':
            return s_mul(a, b)
        if op == '/':
            if n is not None and n.type.b in ('int', 'uint'):
                return UNK
            return s_div(a, b)
        if op in REL:
            x = s_sub(a, b)
            c = Cmp(x, REL[op])
            ca, cb = const(a).q, const(b).q
            c.tau = float(abs(cb)) if cb is not None else float(abs(ca)) if ca is not None else 0
            if cb is not None and cb != 0 and abs(cb) <= self.tiny:
                c.tiny = frozenset('<') if cb > 0 else frozenset('>')
            elif ca is not None and ca != 0 and abs(ca) <= self.tiny:
                c.tiny = frozenset('>') if ca > 0 else frozenset('<')
            elif (ca == 0 or cb == 0) and op in ('==', '!='):
                c.tiny = frozenset('=')
            return c
        return UNK

    def marith(self, op, a, b):
        if isinstance(a, Mat) and not a.known or isinstance(b, Mat) and not b.known:
            return Mat(None)
        if isinstance(a, Mat) and isinstance(b, Mat):
            if op in ('+', '-'):
                if (a.rows, a.cols) != (b.rows, b.cols):
                    return self.note('shape')
                return mfun(a.rows, a.cols, lambda i, j: self.arith(op, a.c[i][j].v, b.c[i][j].v))
            if op == '*':
                if a.cols != b.rows:
                    if a.rows == a.cols == 1:
                        return self.marith('*', a.c[0][0].v, b)
                    return self.note('shape')
                return mfun(a.rows, b.cols, lambda i, j: self.dot([a.c[i][k].v for k in range(a.cols)], [b.c[k][j].v for k in range(b.rows)]))
            if op in ('==', '!='):
                return UNK
            return self.note('matrix ' + op)
        if isinstance(a, Mat):
            if not isnum(b):
                return mfun(a.rows, a.cols, lambda i, j: UNK)
            if op in ('*', '/', '+', '-'):
                return mfun(a.rows, a.cols, lambda i, j: self.arith(op, a.c[i][j].v if not isinstance(a.c[i][j].v, int) else const(a.c[i][j].v), b))
        elif isinstance(b, Mat):
            if not isnum(a):
                return mfun(b.rows, b.cols, lambda i, j: UNK)
            if op == '*':
                return mfun(b.rows, b.cols, lambda i, j: self.arith(op, a, b.c[i][j].v))
            if op == '/':
                return mfun(b.rows, b.cols, lambda i, j: self.arith(op, a, b.c[i][j].v))
        return UNK

    def dot(self, a, b):
        r = const(0)
        for x, y in zip(a, b):
            if isnum(x) and const(x).q == 0 or isnum(y) and const(y).q == 0:
                continue
            r = self.arith('+', r, self.arith('*', x, y))
        return r

    def ev_cond(self, n):
        return self.ev(n.c[1]) if self.cond(n.c[0]) else self.ev(n.c[2])

    def ev_idx(self, n):
        a, i = self.val(n.c[0]), self.val(n.c[1])
        if isinstance(a, Ptr) and isinstance(i, int):
            if isinstance(a.to, list):
                k = a.off + i
                return a.to[k] if 0 <= k < len(a.to) else UNK
        if isinstance(a, Seq):
            a = a.a
        if isinstance(a, list) and isinstance(i, int) and 0 <= i < len(a):
            return a[i]
        return UNK

    # ------------------------------------------------------------- assignment
    def store(self, t, v, ty=None):
        """assign value v to the container t"""
        if isinstance(t, Mat):
            v = self.rv(v)
            if isinstance(v, Mat):
                if not v.known:
                    if t.known:
                        for row in t.c:
                            for b in row:
                                b.v = UNK
                    return
                vals = v.vals()
                if not t.known or (t.rows, t.cols) != (v.rows, v.cols):
                    if t.known and t.rows * t.cols == v.rows * v.cols and 1 in (t.rows, t.cols) and 1 in (v.rows, v.cols):
                        fl = [b.v for b in v.flat()]
                        for b, x in zip(t.flat(), fl):
                            b.v = x
                        return
                    t.c = [[Box() for _ in range(v.cols)] for _ in range(v.rows)]
                    t.rows, t.cols = v.rows, v.cols
                for i in range(v.rows):
                    for j in range(v.cols):
                        t.c[i][j].v = vals[i][j]
            else:
                if t.known and t.rows * t.cols == 1 and isnum(v):
                    t.c[0][0].v = v
                    return
                if t.known:
                    for row in t.c:
                        for b in row:
                            b.v = UNK
            return
        if isinstance(t, Obj):
            v = self.rv(v)
            if isinstance(v, Obj):
                t.f = {k: self.copybox(x) for k, x in v.f.items()}
                t.path = v.path
            else:
                t.f = {}
                t.path = ('unknown%d' % self.steps,)
            return
        if isinstance(t, Box):
            v = self.rv(v)
            if isinstance(v, (Mat, Obj)):
                if isinstance(v, Mat) and v.known and v.rows * v.cols == 1 and ty is not None and ty.b == 'float':
                    v = v.c[0][0].v
                else:
                    v = self.copy(v)
            t.v = self.conv(ty, v) if ty is not None else v

    def ev_assign(self, n):
        op = n['op']
        t = self.ev(n.c[0])
        v = self.ev(n.c[1])
        if op != '=':
            v = self.arith(op[:-1], self.rv(t), self.rv(v), n)
        elif isinstance(v, Mat):
            v = self.copy(v)
        self.store(t, v, n.c[0].type)
        return t

    def ev_new(self, n):
        for c in n.c:
            if c is not None and c.k == 'ctor':
                v = self.ev(c)
                at = [x for x in n.c if x is not None and x is not c]
                if len(at) == 1:                            # placement
                    t = self.rv(self.ev(at[0]))
                    t = self.rv(t.to) if isinstance(t, Ptr) and not isinstance(t.to, list) else t
                    w = self.rv(v)
                    if isinstance(t, Mat) and isinstance(w, Mat):
                        t.c, t.rows, t.cols = w.c, w.rows, w.cols
                        return Ptr(t)
                    if isinstance(t, (Mat, Obj, Box)):
                        raise Stop('placement new')
                return Ptr(v)
        return UNK

    def ev_delete(self, n):
        return None

    def ev_throw(self, n):
        raise Stop('throws')

    def ev_lambda(self, n):
        env = dict(self.env)
        for cp in n.get('caps') or []:
            if 'd' in cp and not cp.get('ref') and cp['d'] in env:
                v = env[cp['d']]
                env[cp['d']] = self.copybox(v) if isinstance(v, Box) else self.copy(v)
        return Fn(n, env, self.this, self.fn)

    def run_lambda(self, f, args):
        if self.depth >= self.max_depth or not f.node.c or f.node.c[0] is None:
            return self.note('lambda')
        body = f.node.c[0]
        save = (self.env, self.this, self.fn)
        g = self.prog.fns.get(f.node.get('u'))
        if g is None:
            return self.note('lambda')
        env = dict(f.env)
        byname = {}
        for x in body.walk():
            if x.k == 'ref' and x.get('dk') == 'param':
                byname.setdefault(x['n'], x['d'])
        self.fn = g
        for i, p in enumerate(g.params):
            if p['n'] in byname and i < len(args):
                env[byname[p['n']]] = self.bind(g.types[p['t']], args[i])
        self.env, self.this = env, f.this
        self.depth += 1
        try:
            self.ex(body)
            return None
        except Return as r:
            return r.v
        finally:
            self.depth -= 1
            self.env, self.this, self.fn = save

    def ev_initlist(self, n):
        a = [self.ev(c) for c in n.c if c is not None]
        return a[0] if len(a) == 1 else [x if isinstance(x, Box) else Box(x) for x in a]

    def new_seq(self, n, r, a):
        kids = [c for c in n.c if c is not None]
        t = (targs(r) or [''])[0]
        if n.get('copy') or n.get('move') or len(a) == 1 and isinstance(self.rv(a[0]), Seq):
            v = self.rv(a[0])
            return self.copy(v) if isinstance(v, Seq) else None
        if kids and 'initializer_list<' in (kids[0].type.r or ''):
            v = a[0]
            if not isinstance(v, list):
                v = [v]
            return Seq([self.copybox(x) for x in v])
        a = [self.rv(x) for x, k in zip(a, kids) if k.k != 'defarg' and 'allocator' not in (k.type.r or '')]
        if not a:
            return Seq([]) if r.startswith('std::vector<') else None
        if isinstance(a[0], int) and a[0] <= 256 and len(a) <= 2:
            return Seq([self.copybox(a[1]) if len(a) > 1 else self.elem(t) for _ in range(a[0])])
        return None

    def ev_ctor(self, n):
        r = n.type.r or ''
        if r.startswith('const '):
            r = r[6:]
        a = [self.ev(c) for c in n.c if c is not None]
        if r.startswith('Eigen::Matrix<') or r.startswith('Eigen::Array<'):
            return self.new_mat(n, r, a)
        if r.startswith('Eigen::Map<') or r.startswith('Eigen::Ref<'):
            d = dims(r)
            if len(a) >= 1:
                p = self.rv(a[0])
                if isinstance(p, Mat):
                    return p
                if isinstance(p, Ptr) and isinstance(p.to, list):
                    sz = [self.rv(x) for x in a[1:]]
                    rr, cc = d
                    if rr is None and cc is None and len(sz) >= 2:
                        rr, cc = sz[0], sz[1]
                    elif rr is None and sz:
                        rr = sz[0]
                    elif cc is None and sz:
                        cc = sz[0]
                    if isinstance(rr, int) and isinstance(cc, int) and p.off + rr * cc <= len(p.to):
                        m = Mat([[p.to[p.off + j * rr + i] for j in range(cc)] for i in range(rr)], rr, cc)
                        return m
            return Mat(None, *d)
        if r.startswith('std::pair<'):
            v = self.rv(a[0]) if len(a) == 1 else None
            if isinstance(v, Obj) and 'first' in v.f:
                o = self.copy(v)
                t = [(x or '').strip() for x in targs(r)]
                for k, x in zip(('first', 'second'), t):
                    if x == 'double' and isinstance(o.f[k], Box) and isinstance(o.f[k].v, int):
                        o.f[k] = Box(const(o.f[k].v))
                    elif x in ('int', 'unsigned int', 'unsigned long') and isinstance(o.f[k], Box) and isinstance(o.f[k].v, S) and o.f[k].v.q is not None:
                        o.f[k] = Box(int(o.f[k].v.q))
                return o
            if len(a) == 2:
                return self.pair(*a)
            if not a:
                t = targs(r)
                return self.pair(*[self.elem(x.strip()) for x in t])
        if r.startswith('std::vector<') or r.startswith('std::array<'):
            q = self.new_seq(n, r, a)
            if q is not None:
                return q
        if len(a) == 1:
            v = self.rv(a[0])
            if n.get('copy') or isinstance(v, Ptr) and '_iterator<' in r or isinstance(v, (Ptr, Obj)) and ('shared_ptr' in r or isinstance(v, Obj) and v.cls == r):
                return self.copy(v) if not isinstance(v, Ptr) else v
        f = self.prog.fns.get(n.get('u'))
        self.nobj = getattr(self, 'nobj', 0) + 1
        o = Obj(r, ('obj%d' % self.nobj,))
        if f is not None and f.body is not None and '/usr/' not in f.file:
            self.call(f, o, a)
            return o
        if '_iterator<' in r and not a:
            return UNK
        if 'shared_ptr' in r and not a:
            return False
        if n.get('copy') and len(a) == 1:
            return a[0]
        self.note('constructor ' + r[:40])
        return o

    def new_mat(self, n, r, a):
        d = dims(r)
        vals = [self.rv(x) for x in a]
        if not vals:
            return self.uninit(n.type)
        if len(vals) == 1:
            v = vals[0]
            if isinstance(v, Mat):
                m = self.copy(v)
                if not m.known and None not in d:
                    return mfun(d[0], d[1], lambda i, j: UNK)
                if m.known and None not in d and (m.rows, m.cols) != d and m.rows * m.cols == d[0] * d[1]:
                    fl = m.flat()
                    m = Mat([[fl[j * d[0] + i] for j in range(d[1])] for i in range(d[0])])
                return m
            if isinstance(v, int) and None in d and 1 in d:
                return mfun(v, 1, lambda i, j: UNK) if d[1] == 1 else mfun(1, v, lambda i, j: UNK)
            if isinstance(v, Ptr) and isinstance(v.to, list) and None not in d:
                if v.off + d[0] * d[1] <= len(v.to):
                    return Mat([[Box(v.to[v.off + j * d[0] + i].v) for j in range(d[1])] for i in range(d[0])])
            if isnum(v) and d == (1, 1):
                return mat([[v]])
            return self.uninit(n.type)
        if None in d and len(vals) == 2 and all(isinstance(x, int) for x in vals) and d != (2, 1):
            return mfun(vals[0], vals[1], lambda i, j: UNK)
        if None not in d and d[0] * d[1] == len(vals):
            vals = [self.conv_num(x) for x in vals]
            return Mat([[Box(vals[i * d[1] + j]) for j in range(d[1])] for i in range(d[0])])
        return self.uninit(n.type)

    def conv_num(self, x):
        return const(x) if isinstance(x, int) and not isinstance(x, bool) else x

    # ------------------------------------------------------------------- calls
    def on_call(self, n, recv, args):
        return NotImplemented

    def ev_call(self, n):
        d = n.d
        op, nm, kids = d.get('op'), d.get('n'), n.c
        if op == '<<' and kids and 'Eigen' in (kids[0].type.r or ''):
            return self.comma(n)
        if op == ',' and len(kids) == 2:
            return self.comma(n)
        vals = [self.ev(c) if c is not None else UNK for c in kids]
        if op in ('*', '/', '*=', '/=') and len(vals) == 2 and is_array(kids[0]) and is_array(kids[1]):
            a, b = self.rv(vals[0]), self.rv(vals[1])
            if not (isinstance(a, Mat) and isinstance(b, Mat) and a.known and b.known and (a.rows, a.cols) == (b.rows, b.cols)):
                v = Mat(None)
            else:
                v = mfun(a.rows, a.cols, lambda i, j: self.arith(op[0], a.c[i][j].v, b.c[i][j].v))
            if op[-1] != '=':
                return v
            self.store(vals[0], v)
            return vals[0]
        if op in ('+', '-', '*', '/', '==', '!=', '<', '>', '<=', '>=') and len(vals) == 2 and not self.user(n):
            return self.arith(op, self.rv(vals[0]), self.rv(vals[1]), None)
        if op == '-' and len(vals) == 1:
            return self.neg(self.rv(vals[0]))
        if op == '=' and not self.user(n) and isinstance(self.rv(vals[1]), Obj) and 'first' in self.rv(vals[1]).f:
            t, v = vals[0], self.rv(vals[1])
            if isinstance(t, Tie):
                for b, k in zip(t.to, ('first', 'second')):
                    self.store(b, v.f[k])
                return t
            if isinstance(t, Obj):
                t.f.update({k: self.copybox(v.f[k]) for k in v.f})
                return t
        if op in ('=', '+=', '-=', '*=', '/=') and not self.user(n):
            t, v = vals
            if op != '=':
                v = self.arith(op[:-1], self.rv(t), self.rv(v))
            else:
                v = self.copy(v) if isinstance(v, Mat) else v
            self.store(t, v)
            return t
        if d.get('obj'):
            recv, args = vals[0], vals[1:]
        else:
            recv, args = None, vals
        r = self.on_call(n, recv, args)
        if r is not NotImplemented:
            return r
        if op == '()' and recv is not None and isinstance(self.rv(recv), Fn):
            return self.run_lambda(self.rv(recv), args)
        f = self.target(n, recv)
        if f is not None:
            this = recv
            if isinstance(this, Box):
                this = this.v
            if isinstance(this, Ptr):
                this = self.deref(this)
            if d.get('obj') and not isinstance(this, Obj):
                return self.opaque(n, vals)
            return self.call(f, this, args, n)
        if op in ('->', '*') and len(vals) == 1:
            v = self.rv(vals[0])
            if isinstance(v, Ptr):
                return v if op == '->' else self.deref(v)
            return vals[0]
        if op in ('++', '--') and isinstance(self.rv(vals[0]), Ptr) and isinstance(self.rv(vals[0]).to, list):
            v = self.rv(vals[0])
            w = Ptr(v.to, v.off + (1 if op == '++' else -1))
            if isinstance(vals[0], Box):
                vals[0].v = w
            return v if len(vals) > 1 else vals[0]
        if nm == 'get' and recv is not None and isinstance(self.rv(recv), Ptr):
            return self.rv(recv)
        if nm in PASS and (recv is not None or len(args) == 1):
            return recv if recv is not None else args[0]
        if nm == 'operator bool' and recv is not None and isinstance(self.rv(recv), (bool, Ptr)):
            return self.rv(recv) is not False
        if nm == 'tie' and recv is None:
            return Tie(args)
        if not d.get('obj'):
            r = self.free(n, nm, [self.rv(a) if not isinstance(a, Mat) else a for a in args])
            if r is not NotImplemented:
                return r
        m = self.rv(recv) if recv is not None else None
        if isinstance(m, Ptr) and isinstance(m.to, (Mat, Box)):
            m = self.rv(self.deref(m))
        if isinstance(m, Seq):
            r = self.seq_method(n, nm, op, m, [self.rv(a) for a in args])
            if r is not NotImplemented:
                return r
        if isinstance(m, Mat):
            r = self.eigen(n, nm, op, m, [self.rv(a) for a in args])
            if r is not NotImplemented:
                return r
        return self.opaque(n, vals)

    def user(self, n):
        f = self.prog.fns.get(n.get('u'))
        return f is not None and f.body is not None and '/usr/' not in f.file and not f.d.get('defaulted')

    def target(self, n, recv):
        f = self.prog.fns.get(n.get('u'))
        if n.get('dyn'):
            o = self.rv(recv) if recv is not None else None
            if isinstance(o, Ptr):
                o = self.deref(o)
            if isinstance(o, Obj):
                g = self.prog.final_overrider(o.cls, n.get('u')) if o.cls in self.prog.classes else None
                if g is not None and g.body is not None:
                    return g
            if f is None or f.body is None or f.d.get('pure'):
                return None
            return None if isinstance(o, Obj) and not o.path[0].startswith('obj') and o.cls not in self.prog.classes else f
        if f is None or f.body is None or '/usr/' in f.file:
            return None
        return f

    def pair(self, a, b):
        self.nobj = getattr(self, 'nobj', 0) + 1
        o = Obj('std::pair', ('obj%d' % self.nobj,))
        o.f = {'first': self.copybox(a), 'second': self.copybox(b)}
        return o

    def elem(self, ty):
        """a value-initialised element of a sequence"""
        r = ty
        if r in ('double', 'float'):
            return Box(const(0))
        if r in ('int', 'unsigned int', 'unsigned long', 'long', 'size_t', 'std::size_t'):
            return Box(0)
        if r.startswith('Eigen::Matrix<'):
            a, b = dims(r)
            return mfun(a, b, lambda i, j: UNK) if a is not None and b is not None else Mat(None, a, b)
        return Box(UNK)

    def seq_method(self, n, nm, op, m, args):
        a = args
        if op == '[]' or nm == 'at':
            i = a[0] if a else UNK
            return m.a[i] if isinstance(i, int) and 0 <= i < len(m.a) else UNK
        if nm == 'size':
            return len(m.a)
        if nm == 'empty':
            return not m.a
        if nm == 'front' and m.a:
            return m.a[0]
        if nm == 'back' and m.a:
            return m.a[-1]
        if nm in ('begin', 'cbegin', 'data'):
            return Ptr(m.a, 0)
        if nm in ('end', 'cend'):
            return Ptr(m.a, len(m.a))
        if nm in ('push_back', 'emplace_back') and len(a) == 1:
            m.a.append(self.copybox(a[0]))
            return None
        if nm == 'pop_back' and m.a:
            m.a.pop()
            return None
        if nm == 'erase' and len(a) == 1 and isinstance(a[0], Ptr) and a[0].to is m.a and a[0].off < len(m.a):
            del m.a[a[0].off]
            return Ptr(m.a, a[0].off)
        if nm == 'clear':
            del m.a[:]
            return None
        if nm == 'reserve':
            return None
        if nm == 'resize' and a and isinstance(a[0], int):
            t = targs(n.c[0].type.r or '')
            while len(m.a) < a[0]:
                m.a.append(self.copybox(a[1]) if len(a) > 1 else self.elem(t[0] if t else ''))
            del m.a[a[0]:]
            return None
        return NotImplemented

    def opaque(self, n, vals):
        nm = n.get('n')
        pm = n.get('pm') or ''
        off = 1 if n.get('obj') else 0
        for i, v in enumerate(vals[off:]):
            if i < len(pm) and pm[i] in 'rp':
                self.clobber(v)
        self.note('call %s' % nm)
        ty = n.type
        r = ty.r or ''
        ds = dims(r[6:] if r.startswith('const ') else r)
        if None not in ds:
            return mfun(ds[0], ds[1], lambda i, j: UNK)
        return UNK

    def clobber(self, v):
        v = v.v if isinstance(v, Box) and isinstance(v.v, (Mat, Ptr)) else v
        if isinstance(v, Ptr):
            t = v.to
            for b in (t if isinstance(t, list) else [t]):
                self.clobber(b)
        elif isinstance(v, Mat) and v.known:
            for row in v.c:
                for b in row:
                    b.v = UNK
        elif isinstance(v, Box) and isinstance(v.v, Seq):
            v.v = UNK
        elif isinstance(v, Box):
            v.v = UNK
        elif isinstance(v, Obj):
            v.f = {}
            v.path = ('unknown%d' % self.steps,)

    def comma(self, n):
        items = []

        def go(x):
            if x.k == 'call' and x.get('op') == ',' and len(x.c) == 2:
                t = go(x.c[0])
                items.append(x.c[1])
                return t
            if x.k == 'call' and x.get('op') == '<<':
                t = self.ev(x.c[0])
                items.append(x.c[1])
                return t
            if x.k in ('cast', 'ctor') and x.c:
                return go(x.c[0])
            if x.k == 'call' and x.get('n') == 'finished' and x.c:
                return go(x.c[0])
            return self.ev(x)
        t = go(n)
        t = self.rv(t)
        vals = [self.rv(self.ev(x)) for x in items]
        if not isinstance(t, Mat) or not t.known:
            return UNK
        i = j = h = 0
        for v in vals:
            if not isinstance(v, Mat):
                v = mat([[self.conv_num(v)]])
            if not v.known:
                for row in t.c:
                    for b in row:
                        b.v = UNK
                return t
            if j >= t.cols:
                i, j = i + h, 0
            h = v.rows
            for a in range(v.rows):
                for b in range(v.cols):
                    if i + a < t.rows and j + b < t.cols:
                        t.c[i + a][j + b].v = v.c[a][b].v
            j += v.cols
        return t

    abs_forks = True         # |x| is x or -x, by a comparison; otherwise a root of x^2, of which either sign will do

    def free(self, n, nm, a):
        q = n.get('q') or ''
        if nm in ('sqrt', 'fabs', 'abs', 'pow', 'sin', 'cos', 'tan', 'atan', 'asin', 'acos', 'exp', 'log', 'atan2', 'min', 'max'):
            a = [x.c[0][0].v if isinstance(x, Mat) and x.known and x.rows == x.cols == 1 else x for x in a]
        num = len(a) >= 1 and all(isnum(x) or isinstance(x, bool) for x in a)
        if nm in ('sqrt', 'sqrtf') and len(a) == 1:
            return s_sqrt(a[0]) if num else UNK
        if nm in ('fabs', 'abs') and len(a) == 1:
            if isinstance(a[0], int):
                return abs(a[0])
            if not num:
                return UNK
            if not self.abs_forks:
                return s_abs(a[0])
            neg = self.arith('<', a[0], 0)
            return s_sub(0, a[0]) if self.truth(neg, n) else a[0]
        if nm == 'pow' and len(a) == 2:
            return self.power(a[0], a[1]) if num else UNK
        if nm in ('sin', 'cos', 'tan', 'atan', 'asin', 'acos', 'exp', 'log', 'sinh', 'cosh', 'tanh') and len(a) == 1:
            return self.fun(nm, const(a[0])) if num else UNK
        if nm == 'atan2' and len(a) == 2:
            return self.atan2(const(a[0]), const(a[1])) if num else UNK
        if nm in ('min', 'max') and len(a) >= 2:
            if not num:
                return UNK
            c = self.arith('<=', a[0], a[1])
            return a[0] if self.truth(c, n) == (nm == 'min') else a[1]
        if nm == 'make_pair' and len(a) == 2:
            return self.pair(*a)
        if nm in ('upper_bound', 'lower_bound') and len(a) == 3 and all(isinstance(x, Ptr) and isinstance(x.to, list) for x in a[:2]) and a[0].to is a[1].to:
            i = a[0].off
            while i < a[1].off:
                x = self.rv(a[0].to[i])
                c = self.arith('<' if nm[0] == 'l' else '<=', x, a[2])
                if c is UNK:
                    return UNK
                if not self.truth(c, n):
                    break
                i += 1
            return Ptr(a[0].to, i)
        if nm in ('isnan', 'isinf'):
            return False
        if nm in ('isfinite',):
            return True
        if nm == 'LinSpaced' and len(a) == 3 and isinstance(a[0], int) and all(isnum(x) for x in a[1:]):
            if all(isinstance(x, int) for x in a[1:]):
                step = Fraction(a[2] - a[1], max(a[0] - 1, 1))
                return Mat([[Box(int(a[1] + step * i))] for i in range(a[0])])
            step = s_div(s_sub(a[2], a[1]), max(a[0] - 1, 1))
            return Mat([[Box(s_add(a[1], s_mul(step, i)))] for i in range(a[0])])
        if nm in ('Zero', 'Ones', 'Identity', 'Constant', 'UnitX', 'UnitY', 'UnitZ', 'Unit', 'Random'):
            r, c = self.result_dims(n)
            sz = [x for x in a if isinstance(x, int)]
            if r is None and c is None:
                if len(sz) >= 2:
                    r, c = sz[:2]
            elif r is None and sz:
                r = sz[0]
            elif c is None and sz:
                c = sz[0]
            if r is None or c is None:
                return Mat(None, r, c)
            if nm == 'Zero':
                return mfun(r, c, lambda i, j: const(0))
            if nm == 'Ones':
                return mfun(r, c, lambda i, j: const(1))
            if nm == 'Identity':
                return mfun(r, c, lambda i, j: const(int(i == j)))
            if nm == 'Constant':
                return mfun(r, c, lambda i, j: self.conv_num(a[-1]))
            if nm in ('UnitX', 'UnitY', 'UnitZ'):
                k = 'XYZ'.index(nm[-1])
                return mfun(r, c, lambda i, j: const(int(i + j == k)))
            return mfun(r, c, lambda i, j: UNK)
        if nm in ('epsilon', 'max', 'lowest', 'infinity', 'quiet_NaN', 'denorm_min') and not a:
            if nm == 'epsilon' and 'numeric_limits<double>' in str(n.get('fcls')):
                return const(Fraction(1, 2 ** 52))
            if nm == 'epsilon' and 'numeric_limits<float>' in str(n.get('fcls')):
                return const(Fraction(1, 2 ** 23))
            return self.sym('G', nm)
        return NotImplemented

    def result_dims(self, n):
        """the class a static Eigen factory was called on"""
        for r in (n.type.r or '', n.get('fcls') or ''):
            if r.startswith('const '):
                r = r[6:]
            d = dims(r)
            if d != (None, None):
                return d
            a = targs(r)
            if r.startswith('Eigen::CwiseNullaryOp') and len(a) == 2:
                return dims(a[1].strip())
            if a and r.split('<')[0] in ('Eigen::DenseBase', 'Eigen::MatrixBase', 'Eigen::PlainObjectBase'):
                return dims(a[0])
        return (None, None)

    def power(self, a, b):
        b = const(b)
        if b.q is None:
            x = self.p.atom('pow', const(a).v, b.v)
            return S(x)
        if b.q.denominator == 1 and abs(b.q) <= 64:
            return s_powi(a, int(b.q))
        if b.q.denominator == 2 and abs(b.q) <= 32:
            return s_powi(s_sqrt(a), int(b.q * 2))
        a = const(a)
        if a.q is not None and a.q > 0:
            return const(Fraction(repr(float(a.q) ** float(b.q))))
        v = self.p.atom('pow', a.v, b.v)
        return chain(a, v, v * b.v % P * inv(a.v) % P)

    def fun(self, f, x):
        if x.q == 0 or isinstance(x.v, int) and x.v == 0 and x.d:
            if f in ('sin', 'tan', 'atan', 'asin', 'sinh', 'tanh'):
                return chain(x, 0, 1)
            if f in ('cos', 'exp', 'cosh'):
                return chain(x, 1, 1 if f == 'exp' else 0)
        neg_ = x.v > P // 2
        k = P - x.v if neg_ else x.v
        sg = -1 if neg_ else 1
        if f in ('sin', 'cos', 'tan'):
            t = self.half_tangent(k)
            i = inv((1 + t * t) % P)
            s, c = sg * 2 * t * i % P, (1 - t * t) * i % P
            if f == 'sin':
                return chain(x, s, c)
            if f == 'cos':
                return chain(x, c, -s)
            t = s * inv(c) % P
            self.inverses['atan', min(t, P - t)] = x.v if t <= P // 2 else -x.v
            return chain(x, t, inv(c) * inv(c))
        if f == 'atan':
            if (f, k) in self.inverses:
                v = sg * self.inverses[f, k] % P
            else:
                v = self.angle_of(x.v * inv((1 + s_sqrt(S((1 + x.v * x.v) % P)).v) % P) % P)
            self.tangent[min(v, P - v)] = x.v if v <= P // 2 else -x.v % P
            return chain(x, v, inv((1 + x.v * x.v) % P))
        if f == 'asin':
            r = s_sqrt(S((1 - x.v * x.v) % P)).v
            return chain(x, self.angle_of(x.v * inv((1 + r) % P) % P), inv(r))
        if f == 'acos':
            if x.q is not None and abs(x.q) == 1:
                return const(0) if x.q == 1 else const(PI)
            t = s_sqrt(S((1 - x.v) * inv((1 + x.v) % P) % P)).v
            return chain(x, self.angle_of(t), -inv(s_sqrt(S((1 - x.v * x.v) % P)).v))
        if f in ('tanh', 'sinh'):
            return S(sg * self.inverses.get((f, k), self.p.atom(f, k)) % P)
        v = self.inverses.get((f, x.v), self.p.atom(f, x.v))
        if f == 'exp':
            self.inverses['log', v] = x.v
            return chain(x, v, v)
        if f == 'log':
            self.inverses['exp', v] = x.v
            return chain(x, v, inv(x.v))
        return S(v)

    def half_tangent(self, k):
        """tan(k/2), in accordance with the half and the double of the angle and with its supplement"""
        if isinstance(k, Ser):
            c0 = k.constant()
            d = tan_half(k - c0)
            if c0 == 0:
                return d
            c0, s0 = (c0, 1) if c0 <= P // 2 else (P - c0, -1)
            t0 = s0 * self.half_tangent(c0) % P
            return (t0 + d) * inv(1 - t0 * d) % P
        if k in self.trig:
            return self.trig[k]
        h = k * inv(2) % P
        h, sh = min(h, P - h), 1 if h <= P // 2 else -1
        b = 2 * k % P
        b, sb = min(b, P - b), 1 if b <= P // 2 else -1
        m = (const(PI).v - k) % P
        m, sm = min(m, P - m), 1 if m <= P // 2 else -1
        if k in self.tangent:
            u = self.tangent[k]
            t = (s_sqrt(S((1 + u * u) % P)).v - 1) * inv(u) % P
        elif h in self.trig:
            u = sh * self.trig[h]
            t = 2 * u * inv((1 - u * u) % P) % P
        elif b in self.trig:
            u = sb * self.trig[b] % P
            r = s_sqrt(S((1 + u * u) % P)).v
            t = (r - 1) * inv(u) % P
        elif m in self.trig:
            t = inv(sm * self.trig[m] % P)
        else:
            t = self.p.atom('trig', k)
        self.register(k, t)
        return t

    def register(self, k, t):
        self.trig[k] = t
        c = min(t, P - t)
        self.halves[c] = k if t <= P // 2 else -k

    def angle_of(self, t):
        """the angle whose half has the tangent t"""
        if isinstance(t, Ser):
            t0 = t.constant()
            if t0 == 0:
                return twice_atan(t)
            return (self.angle_of(t0) + twice_atan((t - t0) * inv(1 + t * t0))) % P
        c, s = (t, 1) if t <= P // 2 else (P - t, -1)
        if c in self.halves:
            return s * self.halves[c] % P
        i = inv(c)
        ci, si = (i, 1) if i <= P // 2 else (P - i, -1)
        if ci in self.halves:
            return s * (const(PI).v - si * self.halves[ci]) % P
        for u, k in list(self.halves.items()):
            for v, n, d in ((2 * u * inv((1 - u * u) % P) % P, 2, 1), (u, 1, 2)):
                w = c if d == 1 else 2 * c * inv((1 - c * c) % P) % P
                if v in (w, P - w):
                    return s * (1 if v == w else -1) * k * n * inv(d) % P
        k = self.p.atom('angle', c)
        k = min(k, P - k)
        self.register(k, c)
        return s * k % P

    def atan2(self, y, x):
        r = s_sqrt(S((x.v * x.v + y.v * y.v) % P)).v
        v = self.angle_of(y.v * inv((r + x.v) % P) % P)
        d = inv((x.v * x.v + y.v * y.v) % P)
        return S(v, lin((x.v * d % P, y), (-y.v * d % P, x)))

    # ------------------------------------------------------------------- Eigen
    def view(self, m, i, j, r, c):
        i, j, r, c = [int(x.q) if isinstance(x, S) and x.q is not None and x.q.denominator == 1 else x for x in (i, j, r, c)]
        if not all(isinstance(x, int) for x in (i, j, r, c)) or not m.known:
            return Mat(None)
        if i < 0 or j < 0 or i + r > m.rows or j + c > m.cols:
            self.outside = self.fn
            return Mat(None)
        return Mat([[m.c[a][b] for b in range(j, j + c)] for a in range(i, i + r)], r, c)

    def eigen(self, n, nm, op, m, a):
        ty = n.type.r or ''
        if ty.startswith('const '):
            ty = ty[6:]
        dr, dc = dims(ty)
        if nm in ('operator()', 'operator[]', 'coeff', 'coeffRef', 'x', 'y', 'z', 'w', 'value') and (nm in ('x', 'y', 'z', 'w') or a or nm == 'value'):
            if not m.known:
                return UNK
            if nm in ('x', 'y', 'z', 'w'):
                a = ['xyzw'.index(nm)]
            if nm == 'value' and not a:
                a = [0]
            if not all(isinstance(x, int) for x in a):
                a = [int(x.q) if isinstance(x, S) and x.q is not None else x for x in a]
                if not all(isinstance(x, int) for x in a):
                    return UNK
            if len(a) == 1:
                fl, _ = storage(m, n.c[0])
                if 0 <= a[0] < len(fl):
                    b = fl[a[0]]
                    if b.name is None:
                        b.name = ('of', fl, a[0])
                    return b
                self.outside = self.fn
                return self.note('index')
            if 0 <= a[0] < m.rows and 0 <= a[1] < m.cols:
                b = m.c[a[0]][a[1]]
                if b.name is None:
                    fl, k = storage(m, n.c[0])
                    b.name = ('of', fl, k(a[0], a[1]))
                return b
            self.outside = self.fn
            return self.note('index')
        if nm == 'rows':
            return m.rows if m.rows is not None else UNK
        if nm == 'cols':
            return m.cols if m.cols is not None else UNK
        if nm == 'size':
            return m.rows * m.cols if m.rows is not None and m.cols is not None else UNK
        if nm in ('resize', 'conservativeResize'):
            a = [int(x.q) if isinstance(x, S) and x.q is not None else x for x in a]
            if not all(isinstance(x, int) for x in a):
                m.c = None
                return None
            keep = [x is not None and 'NoChange' in (x.type.s or x.type.r or '') for x in n.c[1:]]
            if len(keep) == 2 == len(a) and True in keep and m.known:
                a = [(m.rows, m.cols)[i] if keep[i] else a[i] for i in (0, 1)]
            r, c = a if len(a) == 2 else ((a[0], 1) if m.cols == 1 or m.cols is None else (1, a[0]))
            if not m.known or (m.rows, m.cols) != (r, c):
                old = m.c
                m.c = [[Box(old[i][j].v) if old is not None and nm[0] == 'c' and i < len(old) and j < len(old[0]) else Box() for j in range(c)] for i in range(r)]
                m.rows, m.cols = r, c
            return None
        if nm in ('setZero', 'setOnes', 'setIdentity', 'setConstant', 'fill'):
            sz = [x for x in a if isinstance(x, int)] if nm not in ('setConstant', 'fill') else []
            if sz:
                self.eigen(n, 'resize', None, m, sz)
            if m.known:
                for i in range(m.rows):
                    for j in range(m.cols):
                        m.c[i][j].v = const(0) if nm == 'setZero' else const(1) if nm == 'setOnes' else const(int(i == j)) if nm == 'setIdentity' \
                            else self.conv_num(a[-1])
            return m
        if nm == 'data':
            return Ptr(storage(m, n.c[0])[0], 0) if m.known else UNK
        if not m.known:
            return Mat(None) if n.type.b == 'rec' else UNK
        R, C = m.rows, m.cols
        vec = 1 in (R, C)
        if nm in SIZED:
            # entries of integer matrices are sizes, too
            a = [int(x.q) if isinstance(x, S) and x.q is not None and x.q == int(x.q) else x for x in a]
        if (nm or '').startswith('operator ') and n.type.b == 'float' and R == C == 1:
            return m.c[0][0].v
        if nm in ('head', 'tail', 'segment'):
            k = None
            if C == 1:
                k = dr
            else:
                k = dc
            if k is None:
                k = a[-1] if a else None
            off = 0 if nm == 'head' else a[0] if nm == 'segment' else None
            if not isinstance(k, int):
                return Mat(None)
            if off is None:
                off = R * C - k
            return self.view(m, off, 0, k, 1) if C == 1 else self.view(m, 0, off, 1, k)
        if nm in ('block', 'topLeftCorner', 'topRightCorner', 'bottomLeftCorner', 'bottomRightCorner'):
            sz = a[2:] if nm == 'block' else a
            r = dr if dr is not None else sz[0] if sz else None
            c = dc if dc is not None else sz[1] if len(sz) > 1 else None
            if not isinstance(r, int) or not isinstance(c, int):
                return Mat(None)
            i, j = a[:2] if nm == 'block' else (0 if 'top' in nm else R - r, 0 if 'Left' in nm else C - c)
            return self.view(m, i, j, r, c)
        if nm in ('topRows', 'bottomRows', 'middleRows', 'leftCols', 'rightCols', 'middleCols', 'row', 'col'):
            if nm == 'row':
                return self.view(m, a[0], 0, 1, C)
            if nm == 'col':
                return self.view(m, 0, a[0], R, 1)
            row = 'Rows' in nm
            k = (dr if row else dc)
            if k is None:
                k = a[-1] if a else None
            if not isinstance(k, int):
                return Mat(None)
            off = 0 if nm in ('topRows', 'leftCols') else a[0] if 'middle' in nm else (R if row else C) - k
            return self.view(m, off, 0, k, C) if row else self.view(m, 0, off, R, k)
        if nm == 'diagonal':
            k = min(R, C)
            return Mat([[m.c[i][i]] for i in range(k)], k, 1)
        if nm in ('transpose', 'adjoint'):
            return Mat([[m.c[i][j] for i in range(R)] for j in range(C)], C, R)
        if nm == 'mean' and R * C:
            s = self.eigen(n, 'sum', op, m, a)
            return self.arith('/', s, const(R * C))
        if nm in ('squaredNorm', 'norm', 'sum', 'trace', 'prod'):
            fl = [b.v for b in m.flat()]
            if any(x is UNK for x in fl):
                return UNK
            if nm in ('squaredNorm', 'norm'):
                s = self.dot(fl, fl)
                return s_sqrt(s) if nm == 'norm' else s
            if nm == 'trace':
                fl = [m.c[i][i].v for i in range(min(R, C))]
            r = const(1 if nm == 'prod' else 0)
            for x in fl:
                r = self.arith('*' if nm == 'prod' else '+', r, x)
            return r
        if nm == 'dot' and a and isinstance(a[0], Mat) and a[0].known:
            x, y = [b.v for b in m.flat()], [b.v for b in a[0].flat()]
            return self.dot(x, y) if len(x) == len(y) else UNK
        if nm == 'cross' and a and isinstance(a[0], Mat) and a[0].known:
            x, y = [b.v for b in m.flat()], [b.v for b in a[0].flat()]
            if len(x) == len(y) == 3:
                f = lambda i, j: self.arith('-', self.arith('*', x[i], y[j]), self.arith('*', x[j], y[i]))
                v = [f(1, 2), f(2, 0), f(0, 1)]
                return Mat([[Box(t)] for t in v]) if C == 1 else Mat([[Box(t) for t in v]])
            return UNK
        if nm in ('normalized', 'normalize', 'stableNormalized'):
            fl = [b.v for b in m.flat()]
            if any(x is UNK for x in fl):
                nv = mfun(R, C, lambda i, j: UNK)
            else:
                s = s_sqrt(self.dot(fl, fl))
                nv = mfun(R, C, lambda i, j: self.arith('/', m.c[i][j].v, s))
            if nm == 'normalize':
                self.store(m, nv)
                return None
            return nv
        if nm in ('cwiseProduct', 'cwiseQuotient') and a and isinstance(a[0], Mat) and a[0].known:
            b = a[0]
            o = '*' if nm == 'cwiseProduct' else '/'
            return mfun(R, C, lambda i, j: self.arith(o, m.c[i][j].v, b.c[i][j].v))
        if nm in ('cwiseInverse', 'cwiseSqrt', 'sqrt', 'square', 'cwiseAbs2', 'cwiseAbs', 'inverse') and (nm != 'inverse' or 'Array' in (n.get('fcls') or '')):
            g = {'cwiseInverse': lambda x: s_div(1, x), 'inverse': lambda x: s_div(1, x), 'cwiseSqrt': s_sqrt, 'sqrt': s_sqrt,
                 'square': lambda x: s_mul(x, x), 'cwiseAbs2': lambda x: s_mul(x, x), 'cwiseAbs': s_abs}[nm]
            return mfun(R, C, lambda i, j: g(m.c[i][j].v) if isnum(m.c[i][j].v) else UNK)
        if nm == 'asDiagonal':
            fl = [b.v for b in m.flat()]
            k = len(fl)
            return mfun(k, k, lambda i, j: fl[i] if i == j else const(0))
        if nm == 'homogeneous':
            return Mat([[Box(b.v)] for b in m.flat()] + [[Box(const(1))]])
        if nm == 'hnormalized':
            fl = [b.v for b in m.flat()]
            return Mat([[Box(self.arith('/', x, fl[-1]))] for x in fl[:-1]])
        if nm == 'inverse' or nm == 'determinant':
            return self.inverse(m, nm == 'determinant')
        if nm in ('householderQr', 'colPivHouseholderQr', 'fullPivHouseholderQr', 'ldlt', 'llt', 'lu', 'partialPivLu', 'fullPivLu') and R == C:
            return m
        if nm == 'solve' and a and isinstance(a[0], Mat) and a[0].known and R == C == a[0].rows:
            i = self.inverse(m)
            return UNK if has_unk(i) else self.marith('*', i, a[0])
        if nm == 'maxCoeff' and not a or nm == 'minCoeff' and not a:
            return UNK
        if nm == 'transposeInPlace' and R == C:
            vals = m.vals()
            for i in range(R):
                for j in range(C):
                    m.c[i][j].v = vals[j][i]
            return None
        if nm in ('hasNaN',):
            return False
        if nm in ('allFinite',):
            return True
        if nm == 'replicate' or nm == 'colwise' or nm == 'rowwise':
            return UNK
        return NotImplemented

    def inverse(self, m, det=False):
        k = m.rows
        if m.cols != k or has_unk(m):
            return UNK if det else mfun(m.rows, m.cols, lambda i, j: UNK)
        A = [[const(m.c[i][j].v) for j in range(k)] + [const(int(i == j)) for j in range(k)] for i in range(k)]
        D = const(1)
        for c in range(k):
            p = next((r for r in range(c, k) if A[r][c].v != 0), None)
            if p is None:
                return const(0) if det else mfun(k, k, lambda i, j: UNK)
            if p != c:
                A[p], A[c] = A[c], A[p]
                D = s_neg(D)
            D = s_mul(D, A[c][c])
            piv = A[c][c]
            A[c] = [s_div(x, piv) for x in A[c]]
            for r in range(k):
                if r != c and A[r][c].v != 0 or r != c and A[r][c].d:
                    f = A[r][c]
                    A[r] = [s_sub(x, s_mul(f, y)) for x, y in zip(A[r], A[c])]
        return D if det else mfun(k, k, lambda i, j: A[i][k + j])
