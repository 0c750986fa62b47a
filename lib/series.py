"""Truncated Laurent series over the integers modulo 2^61-1.

A series stands for a number as a function of a small quantity e: the value numbering of lib/calc.py
works on series as it works on residues, so that the formula of a branch for small values can be
compared with the expansion of the general formula.  Only what Python operators on residues need is
defined; the truncation order is absolute and carried along."""
P = (1 << 61) - 1
N = 12


def _inv(a):
    return pow(a, P - 2, P)


class Ser:
    __slots__ = ('val', 'c', 'exact')

    def __init__(self, val, c, exact=False):
        i = 0
        while i < len(c) and c[i] % P == 0:
            i += 1
        if i:
            c = c[i:]
            val += i
        if exact:
            while c and c[-1] % P == 0:
                c = c[:-1]
        self.val, self.c, self.exact = val, c, exact

    # prec: the first exponent that is not known
    @property
    def prec(self):
        return None if self.exact else self.val + len(self.c)

    def at(self, i):
        j = i - self.val
        return self.c[j] if 0 <= j < len(self.c) else 0

    @property
    def zero(self):
        return not self.c

    def __repr__(self):
        return 'Ser(%d, %s%s)' % (self.val, ['%x' % (x & 0xffff) for x in self.c[:4]], '' if self.exact else '..')

    # ---- operators that residues have
    def __add__(self, o):
        o = ser(o)
        if o is NotImplemented:
            return o
        ps = [p for p in (self.prec, o.prec) if p is not None]
        lo = min(self.val, o.val) if self.c and o.c else self.val if self.c else o.val
        hi = min(ps) if ps else max(self.val + len(self.c), o.val + len(o.c))
        if hi <= lo:
            return Ser(hi, [], not ps)
        return Ser(lo, [(self.at(i) + o.at(i)) % P for i in range(lo, hi)], not ps)
    __radd__ = __add__

    def __neg__(self):
        return Ser(self.val, [-x % P for x in self.c], self.exact)

    def __sub__(self, o):
        return self + (-ser(o))

    def __rsub__(self, o):
        return ser(o) + (-self)

    def __mul__(self, o):
        o = ser(o)
        if o is NotImplemented:
            return o
        ex = self.exact and o.exact
        if not self.c or not o.c:
            if self.exact and self.zero or o.exact and o.zero:
                return Ser(0, [], True)
            return Ser((self.prec or 0) + o.val if self.zero else (o.prec or 0) + self.val, [], ex)
        n = len(self.c) + len(o.c) - 1
        if not ex:
            n = min([len(x.c) for x in (self, o) if not x.exact] + [N + 8])
        out = [0] * n
        for i, a in enumerate(self.c[:n]):
            if a:
                for j, b in enumerate(o.c[:n - i]):
                    out[i + j] += a * b
        out = [x % P for x in out]
        if ex and len(out) > 3 * N:
            return Ser(self.val + o.val, out[:3 * N], False)
        return Ser(self.val + o.val, out, ex)
    __rmul__ = __mul__

    def __mod__(self, p):
        return self

    def __pow__(self, k, mod=None):
        if k == P - 2:
            return self.inv()
        if k == (P + 1) // 4:
            return self.root()
        if k == (P - 1) // 2:
            return 1 if self.zero or self.val % 2 == 0 and pow(self.c[0], k, P) == 1 else P - 1
        raise ValueError('power of a series')

    def __gt__(self, o):
        return bool(self.c) and self.c[0] > P // 2 if isinstance(o, int) else self.lead() > o.lead()

    def __lt__(self, o):
        return self.lead() < (o.lead() if isinstance(o, Ser) else o)

    def __le__(self, o):
        return not self > o

    def __ge__(self, o):
        return not self < o

    def lead(self):
        return self.c[0] if self.c else 0

    def __eq__(self, o):
        d = self - o
        return isinstance(d, Ser) and d.zero

    def __hash__(self):
        return hash((self.val, self.lead()))

    # ---- functions
    def trunc(self):
        return self if not self.exact else Ser(self.val, self.c + [0] * max(0, N - len(self.c)), False)

    def inv(self):
        if not self.c:
            from calc import Stop
            raise Stop('division by zero')
        if self.exact and len(self.c) == 1:
            return Ser(-self.val, [_inv(self.c[0])], True)
        s = self.trunc()
        n = len(s.c)
        i0 = _inv(s.c[0])
        out = [i0]
        for k in range(1, n):
            out.append(-i0 * sum(s.c[j] * out[k - j] for j in range(1, k + 1)) % P)
        return Ser(-s.val, out, False)

    def root(self):
        from calc import NoRoot, Stop
        if not self.c:
            raise Stop('root of zero')
        if self.val % 2:
            raise Stop('root of an odd power')
        if pow(self.c[0], (P - 1) // 2, P) != 1:
            raise NoRoot()
        r0 = pow(self.c[0], (P + 1) // 4, P)
        if self.exact and len(self.c) == 1:
            return Ser(self.val // 2, [r0], True)
        s = self.trunc()
        out = [r0]
        i2 = _inv(2 * r0 % P)
        for k in range(1, len(s.c)):
            out.append((s.c[k] - sum(out[j] * out[k - j] for j in range(1, k))) * i2 % P)
        return Ser(s.val // 2, out, False)

    def compose(self, coef):
        """sum coef[k] self^k for a series without constant term"""
        assert self.zero or self.val >= 1
        s = self.trunc()
        out = Ser(0, [coef[0] % P] + [0] * (N - 1), False)
        pw = Ser(0, [1], True)
        for k in range(1, len(coef)):
            pw = pw * s
            if pw.val >= N:
                break
            if coef[k] % P:
                out = out + pw * (coef[k] % P)
        return out

    def constant(self):
        if self.c and self.val < 0:
            from calc import Stop
            raise Stop('pole')
        return self.at(0)


def ser(x):
    if isinstance(x, Ser):
        return x
    if isinstance(x, int):
        return Ser(0, [x % P], True)
    return NotImplemented


def eps(c):
    """c times the small quantity"""
    return Ser(1, [c % P], True)


TAN_HALF = None


def _table():
    """Taylor coefficients of tan(x/2) and 2 atan(x)"""
    global TAN_HALF, ATAN2
    sin, cos, f = [], [], 1
    for k in range(N + 2):
        f = f * k % P if k else 1
        h = _inv(f) * _inv(pow(2, k, P)) % P
        sin.append(h * (1 if k % 4 == 1 else -1 if k % 4 == 3 else 0))
        cos.append(h * (1 if k % 4 == 0 else -1 if k % 4 == 2 else 0))
    TAN_HALF = []
    for k in range(N + 2):
        TAN_HALF.append((sin[k] - sum(cos[j] * TAN_HALF[k - j] for j in range(1, k + 1))) % P)
    ATAN2 = [0 if k % 2 == 0 else 2 * _inv(k) * (1 if k % 4 == 1 else -1) % P for k in range(N + 2)]


_table()


def tan_half(x):
    return x.compose(TAN_HALF)


def twice_atan(x):
    return x.compose(ATAN2)
