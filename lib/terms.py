"""Value numbering of function bodies: the normal form of what a function computes.

Every expression is given a term over the members of *this, the parameters and
opaque calls.  Products are kept as (coefficient, sorted scalar factors, ordered
matrix factors), sums as sorted tuples, so that re-association, moved signs,
named intermediate values and extracted helpers do not change a term.  What is
not understood becomes None, and None is contagious.  No path is enumerated:
both branches of a condition are evaluated and joined, a loop body once with the
variables it changes replaced by fresh symbols."""
from engine import dims, targs

PASS = {'noalias', 'eval', 'cast', 'matrix', 'array', 'derived', 'get', 'operator->', 'operator*', 'move', 'forward', 'ref', 'cref', 'lock'}


def sym(*a):
    return ('sym',) + a


def is_prod(t):
    return t is not None and t[0] == 'prod'


def as_prod(t, scalar):
    if t is None:
        return None
    if t[0] == 'prod':
        return t
    if t[0] == 'num':
        return ('prod', t[1], (), ())
    if t[0] == 'op' and t[1] == '1x1':
        return as_prod(t[2], True)
    if t[0] == 'op' and t[1] == 'Identity' and not scalar:
        return ('prod', 1.0, (), ())
    return ('prod', 1.0, (t,), ()) if scalar else ('prod', 1.0, (), (t,))


def simp(t):
    """the plain term of a trivial product"""
    if is_prod(t):
        c, s, m = t[1:]
        if c == 1 and len(s) + len(m) == 1:
            return (s + m)[0]
        if not s and not m:
            return ('num', c)
    return t


def mul(a, sa, b, sb):
    a, b = as_prod(a, sa), as_prod(b, sb)
    if a is None or b is None:
        return None
    c = a[1] * b[1]
    return ('prod', c, tuple(sorted(a[2] + b[2], key=repr)), a[3] + b[3])


def inv(b):
    b = as_prod(b, True)
    if b[3] or not b[1]:
        return ('op', 'inv', simp(b))
    f = tuple(x[2] if x[:2] == ('op', 'inv') else ('op', 'inv', x) for x in b[2])
    return ('prod', 1.0 / b[1], tuple(sorted(f, key=repr)), ())


def neg(a, sa):
    if a is not None and a[0] == 'sum':
        return ('sum', tuple(sorted((neg(x, sa) for x in a[1]), key=repr)))
    a = as_prod(a, sa)
    return None if a is None else ('prod', -a[1], a[2], a[3])


def add(a, b, sa, sb, sub=False):
    if a is None or b is None:
        return None
    if sub:
        b = neg(b, sb)
    parts = []
    for x, s in ((a, sa), (b, sb)):
        if x[0] == 'sum':
            parts += list(x[1])
        else:
            parts.append(as_prod(x, s))
    return ('sum', tuple(sorted(parts, key=repr)))


def has_none(t):
    return t is None or (isinstance(t, tuple) and any(has_none(x) for x in t if isinstance(x, tuple) or x is None))


class Terms:
    max_depth = 8

    def __init__(self, prog):
        self.prog = prog

    # -- to be overridden: called for every call; returns a term to override, or NotImplemented
    def on_call(self, n, recv, args):
        return NotImplemented

    def run(self, fn, dyn=None, args=None, mem=None):
        self.events = []
        self.ctx = ()
        self.nloop = 0
        self.depth = 0
        self.mem = dict(mem or {})
        self.dyn = dyn
        return self.call(fn, ('this',), args if args is not None else [sym('arg%d' % i) for i in range(len(fn.params))])

    def call(self, fn, this, args):
        save = (getattr(self, 'env', None), getattr(self, 'this', None), getattr(self, 'ret', None), getattr(self, 'types', None))
        self.env = {}
        self.this = this
        self.ret = []
        done, exits, ctx0 = getattr(self, 'done', False), getattr(self, 'exits', []), self.ctx
        self.done, self.exits = False, []
        for i, p in enumerate(fn.params):
            if 'd' in p:
                self.env[p['d']] = args[i] if i < len(args) else None
        self.depth += 1
        try:
            self.ex(fn.body)
            for m in self.exits:
                for k in set(m) | set(self.mem):
                    if m.get(k, ('in', k)) != self.mem.get(k, ('in', k)):
                        self.mem[k] = None
            return self.result()
        finally:
            self.depth -= 1
            self.done, self.exits, self.ctx = done, exits, ctx0
            self.env, self.this, self.ret, self.types = save

    def result(self):
        r = self.ret
        if not r:
            return sym('void')
        if len(r) == 1:
            return r[0][1]
        v = r[-1][1]
        for cx, a in reversed(r[:-1]):
            cond = cx[-1] if cx else None
            if cond is None or cond[0] not in ('if', 'else') or cond[1] is None or a is None or v is None or has_none(a) or has_none(v):
                return None
            x, y = (a, v) if cond[0] == 'if' else (v, a)
            v = x if x == y else ('op', 'phi', cond[1], simp(x), simp(y))
        return v

    # ------------------------------------------------------------ statements
    done = False

    def ex(self, n):
        if n is None or self.done:
            return
        k = n.k
        if k == 'block':
            for c in n.c:
                self.ex(c)
        elif k == 'decl':
            for v in n.c:
                e = v.c[0] if v.c else None
                if e is None:
                    t = ('op', 'uninit', str(dims(v.type.r)))
                else:
                    t = self.ev(e)
                self.env[v['d']] = t
        elif k == 'return':
            v = self.ev(n.c[0]) if n.c and n.c[0] is not None else sym('void')
            self.ret.append((self.ctx, v))
            self.done = True
        elif k == 'if':
            cond = self.ev(n.c[0])
            if throws(n.c[1], self.prog):
                self.ex(n.c[2])
                return
            if n.c[2] is not None and throws(n.c[2], self.prog):
                self.ex(n.c[1])
                return
            tv = truth(cond)
            if tv is not None:
                self.ex(n.c[1] if tv else n.c[2])
                return
            e0, m0, c0, r0 = dict(self.env), dict(self.mem), self.ctx, len(self.ret)
            self.ctx = c0 + (('if', cond),)
            self.ex(n.c[1])
            e1, m1, d1 = self.env, self.mem, self.done
            self.env, self.mem, self.done = dict(e0), dict(m0), False
            self.ctx = c0 + (('else', cond),)
            self.ex(n.c[2])
            d2 = self.done
            self.done = (True if d1 is True and d2 is True else 'loop') if d1 and d2 else False
            if bool(d1) != bool(d2):
                # one branch has left the function or the loop body: the other one goes on, under its condition
                if True in (d1, d2):
                    self.exits.append(m1 if d1 else self.mem)
                if d2:
                    self.env, self.mem = e1, m1
                    self.ctx = c0 + (('if', cond),)
                return
            self.ctx = c0
            for a, b in ((e1, self.env), (m1, self.mem)):
                for x in set(a) | set(b):
                    u, v = a.get(x, ('in', x)), b.get(x, ('in', x))
                    if u != v:
                        b[x] = None if u is None or v is None or cond is None else ('op', 'phi', cond, u, v)
        elif k in ('for', 'while', 'do', 'range'):
            self.loop(n)
        elif k in ('break', 'continue'):
            self.done = 'loop'
        elif k == 'null':
            pass
        elif k == 'try':
            self.ex(n.c[0])
        elif k == 'switch':
            for x in n.walk():
                self.havoc(x)
            self.bad = True
        else:
            self.ev(n)

    def havoc(self, x):
        tgt = None
        if x.k == 'assign':
            tgt = x.c[0]
        elif x.k == 'un' and x['op'] in ('++', '--'):
            tgt = x.c[0]
        elif x.k == 'call' and x.c and x.c[0] is not None and (x.get('op') in ('=', '+=', '-=', '*=', '<<') or x.get('n') in ('setZero',)):
            tgt = x.c[0]
        while tgt is not None and tgt.k in ('mem', 'call', 'idx', 'cast') and not (tgt.k == 'mem' and tgt.c and tgt.c[0].k == 'this'):
            tgt = tgt.c[0] if tgt.c else None
        if tgt is None:
            return
        if tgt.k == 'ref' and 'd' in tgt.d and tgt['d'] in self.env:
            self.env[tgt['d']] = None
        elif tgt.k == 'mem':
            self.mem[self.this + (tgt['n'],)] = None

    def loop(self, n):
        self.nloop += 1
        k = self.nloop
        if n.k == 'for':
            init, cond, inc, body = n.c
            self.ex(init)
        elif n.k == 'range':
            var, rng, body = n.c
            cond = inc = None
        elif n.k == 'while':
            cond, body = n.c
            inc = None
        else:
            body, cond = n.c
            inc = None
        c0 = self.ctx
        start = None
        if n.k == 'range':
            r = self.ev(rng)
            self.env[var['d']] = None if r is None else ('op', 'elem', r)
            start = r
        else:
            if inc is not None and inc.k == 'un' and inc.c[0].k == 'ref' and 'd' in inc.c[0].d:
                start = self.env.get(inc.c[0]['d'])
        for x in n.walk():
            self.havoc(x)
        if n.k == 'range':
            self.env[var['d']] = None if start is None else ('op', 'elem', start)
        elif inc is not None and inc.k == 'un' and inc.c[0].k == 'ref' and 'd' in inc.c[0].d:
            self.env[inc.c[0]['d']] = sym('i', len(c0))
        cv = self.ev(cond) if cond is not None else None
        self.ctx = c0 + (('loop', start, cv),)
        self.ex(body)
        left, self.done = self.done, False
        if left is True:
            self.ret.append((self.ctx, None))
        self.ctx = c0
        for x in n.walk():
            self.havoc(x)

    # ----------------------------------------------------------- expressions
    def scalar(self, n):
        t = n.type
        return t.b in ('int', 'uint', 'float', 'bool', 'enum') and not t.isptr

    def path(self, t):
        return t[1] if t is not None and t[0] == 'loc' else None

    def load(self, p):
        for i in range(len(p), 0, -1):
            if p[:i] in self.mem:
                t = self.mem[p[:i]]
                for c in p[i:]:
                    t = None if t is None else ('op', '.', t, c)
                return t
        return ('loc', p)

    def ev(self, n):
        if n is None:
            return None
        f = getattr(self, 'ev_' + n.k, None)
        if f is None:
            for c in n.c:
                if c is not None:
                    self.ev(c)
            return None
        return f(n)

    def ev_lit(self, n):
        v = n.get('v')
        if isinstance(v, bool) or isinstance(v, str) or v is None:
            return ('lit', v)
        return ('num', float(v))

    def ev_this(self, n):
        return ('loc', self.this)

    def ev_cast(self, n):
        return self.ev(n.c[0]) if n.c else None

    ev_definit = ev_defarg = ev_cast

    def ev_ref(self, n):
        if n['dk'] == 'enum':
            return ('num', float(n['v'])) if isinstance(n.get('v'), (int, float)) else None
        if n['dk'] == 'fn':
            return sym('fn', n.get('q'))
        if 'd' in n.d and n['d'] in self.env:
            return self.env[n['d']]
        if n['dk'] in ('global', 'slocal'):
            return sym('G', n.get('q') or n.get('n'))
        return None

    def ev_mem(self, n):
        b = self.ev(n.c[0]) if n.c and n.c[0] is not None else None
        if b is None:
            return None
        if b[0] == 'loc':
            return self.load(b[1] + (n['n'],))
        return ('op', '.', b, n['n'])

    def ev_un(self, n):
        op = n['op']
        a = self.ev(n.c[0])
        if op in ('*', '&', '+'):
            return a
        if op == '-':
            return neg(a, self.scalar(n.c[0]))
        if op in ('++', '--'):
            self.store(n.c[0], None)
            return None
        return None if a is None else ('op', op, a)

    def ev_bin(self, n):
        op = n['op']
        a, b = self.ev(n.c[0]), self.ev(n.c[1])
        if op == ',':
            return b
        return self.binop(op, n.c[0], a, n.c[1], b)

    def binop(self, op, na, a, nb, b):
        sa, sb = self.scalar(na), self.scalar(nb)
        if a is None or b is None:
            return None
        if op == '*':
            return mul(a, sa, b, sb)
        if op == '+':
            return add(a, b, sa, sb)
        if op == '-':
            return add(a, b, sa, sb, True)
        if op == '/':
            if sb:
                return mul(a, sa, inv(b), True)
            return ('op', '/', simp(a), simp(b))
        a, b = simp(a), simp(b)
        if op in ('>', '>='):
            op, a, b = {'>': '<', '>=': '<='}[op], b, a
        if op in ('==', '!=') and repr(b) < repr(a):
            a, b = b, a
        return ('op', op, a, b)

    def ev_cond(self, n):
        c = self.ev(n.c[0])
        tv = truth(c)
        if tv is not None:
            return self.ev(n.c[1 if tv else 2])
        a, b = self.ev(n.c[1]), self.ev(n.c[2])
        return None if None in (c, a, b) else ('op', 'phi', c, simp(a), simp(b))

    def ev_idx(self, n):
        a, b = self.ev(n.c[0]), self.ev(n.c[1])
        if a is None or b is None:
            return None
        return ('op', '[]', simp(a), simp(b))

    def store(self, tgt, val):
        """assignment to an lvalue expression"""
        while tgt is not None and tgt.k in ('cast',):
            tgt = tgt.c[0]
        if tgt is None:
            return
        if tgt.k == 'call' and tgt.get('n') in PASS and tgt.c:
            return self.store(tgt.c[0], val)
        if tgt.k == 'ref' and 'd' in tgt.d:
            old = self.env.get(tgt['d'])
            if old is not None and old[0] == 'loc':
                self.put(old[1], val)
            else:
                self.env[tgt['d']] = val
        elif tgt.k == 'mem':
            b = self.ev(tgt.c[0])
            if b is not None and b[0] == 'loc':
                self.put(b[1] + (tgt['n'],), val)
        elif tgt.k in ('call', 'idx'):
            # part of an object: block, element, row, ...
            if not tgt.c or tgt.c[0] is None:
                return
            old = self.ev(tgt.c[0])
            args = [self.ev(c) for c in tgt.c[1:]]
            key = (tgt.get('n') or '[]', str(dims(tgt.type.r)))
            new = None
            if old is not None and val is not None and None not in args:
                if key[0] == 'operator()' and old[0] == 'op' and old[1] == 'ctor' and old[3:] == (('num', 1.0),) * 2 and args == [('num', 0.0)] * 2:
                    new = ('op', '1x1', simp(val))
                else:
                    new = ('op', 'upd', simp(old), key, tuple(simp(a) for a in args), simp(val))
            self.store(tgt.c[0], new)

    def put(self, p, val):
        for k in [k for k in self.mem if k[:len(p)] == p]:
            del self.mem[k]
        self.mem[p] = val

    def ev_assign(self, n):
        op = n['op']
        v = self.ev(n.c[1])
        if op != '=':
            v = self.binop(op[:-1], n.c[0], self.ev(n.c[0]), n.c[1], v)
        self.store(n.c[0], v)
        return v

    def ev_initlist(self, n):
        a = [self.ev(c) for c in n.c if c is not None]
        if len(a) == 1:
            return a[0]
        return None if None in a else ('op', 'list') + tuple(simp(x) for x in a)

    def ev_new(self, n):
        a = [self.ev(c) for c in n.c if c is not None]
        return None

    def ev_ctor(self, n):
        a = [self.ev(c) for c in n.c if c is not None]
        if len(a) == 1:
            t = n.c[0].type if n.c[0] is not None else None
            if n.get('copy') or 'Eigen' in n.type.r or 'shared_ptr' in n.type.r or 'shared_ptr' in (n.type.rp or ''):
                if t is not None and self.scalar(n.c[0]) and 'Eigen' in n.type.r:
                    return None if a[0] is None else ('op', 'ctor', str(dims(n.type.r)), simp(a[0]))
                return a[0]
        if not a:
            return ('op', 'uninit', str(dims(n.type.r)))
        return None if None in a else ('op', 'ctor', n.type.r[:60]) + tuple(simp(x) for x in a)

    def ev_lambda(self, n):
        return None

    def ev_throw(self, n):
        return None

    def ev_call(self, n):
        d = n.d
        op = d.get('op')
        nm = d.get('n')
        kids = n.c
        if op in ('+', '-', '*', '/', '<', '>', '<=', '>=', '==', '!=') and len(kids) == 2 and kids[0].type.b != 'oth' or \
                (op in ('+', '-', '*', '/') and len(kids) == 2):
            return self.binop(op, kids[0], self.ev(kids[0]), kids[1], self.ev(kids[1]))
        if op == '-' and len(kids) == 1:
            return neg(self.ev(kids[0]), False)
        if op in ('=', '+=', '-=', '*=', '/='):
            v = self.ev(kids[1])
            if op != '=':
                v = self.binop(op[:-1], kids[0], self.ev(kids[0]), kids[1], v)
            self.store(kids[0], v)
            return v
        if op == '<<' and 'Eigen' in kids[0].type.r:
            v = self.ev(kids[1])
            self.store(kids[0], None if v is None else ('op', 'comma', simp(v)))
            self.comma = kids[0]
            return sym('comma')
        if op == ',' and len(kids) == 2:
            self.ev(kids[0])
            v = self.ev(kids[1])
            c = getattr(self, 'comma', None)
            if c is not None:
                o = self.ev(c)
                self.store(c, None if v is None or o is None or o[0] != 'op' or o[1] != 'comma' else o + (simp(v),))
            return sym('comma')
        vals = [self.ev(c) for c in kids]
        if d.get('obj'):
            recv, args = vals[0], vals[1:]
        else:
            recv, args = None, vals
        r = self.on_call(n, recv, args)
        if r is not NotImplemented:
            return r
        if nm in PASS and recv is not None:
            return recv
        if nm in PASS and d.get('obj'):
            return None
        if op in ('->', '*') and len(kids) == 1:
            return vals[0]
        if nm in ('Identity', 'Zero', 'Ones') and not d.get('obj'):
            return ('op', nm)
        if nm in ('setZero', 'setIdentity', 'setOnes') and d.get('obj'):
            self.store(kids[0], ('op', nm[3:]))
            return ('op', nm[3:])
        f = self.resolve(n, recv)
        if f is not None and self.depth < self.max_depth and not f.d.get('copyassign'):
            return self.call(f, recv[1] if recv is not None and recv[0] == 'loc' else ('?',) if recv is None else ('?', recv), args)
        if nm is None or None in vals:
            # arguments passed by reference may be written
            self.clobber(n, kids, d)
            return None
        self.clobber(n, kids, d)
        return ('op', 'call', nm, str(dims(n.type.r))) + tuple(simp(v) for v in vals)

    def clobber(self, n, kids, d):
        """arguments bound to non-const references hold unknown values after an opaque call"""
        pm = d.get('pm') or ''
        off = 1 if d.get('obj') else 0
        if d.get('obj') and not d.get('const') and 'Eigen' not in kids[0].type.r:
            return
        for i, c in enumerate(kids[off:]):
            if i < len(pm) and pm[i] in 'rp' and c is not None and c.k in ('ref', 'mem'):
                self.store(c, None)

    def resolve(self, n, recv):
        d = n.d
        f = self.prog.fns.get(d.get('u'))
        if d.get('dyn'):
            if recv is not None and recv == ('loc', ('this',)) and self.dyn:
                return self.prog.final_overrider(self.dyn, d.get('u'))
            return None
        if f is None or f.body is None:
            return None
        if '/usr/' in f.file:
            return None
        return f


def throws(n, prog=None, seen=()):
    """does the statement always end in a throw, here or in a function it calls?"""
    if n is None:
        return False
    if n.k == 'throw':
        return True
    if n.k == 'block':
        return any(throws(c, prog, seen) for c in n.c if c is not None)
    if n.k in ('for', 'while', 'do', 'if', 'try', 'switch', 'range', 'decl', 'return', 'lambda', 'cond'):
        return n.k == 'do' and throws(n.c[0], prog, seen)
    if n.k == 'call' and prog is not None and n.get('u') not in seen and len(seen) < 8:
        f = prog.fns.get(n.get('u'))
        if f is not None and f.body is not None:
            memo = prog.__dict__.setdefault('_throws', {})
            if f.u not in memo:
                memo[f.u] = throws(f.body, prog, seen + (f.u,)) and not any(x.k == 'return' for x in f.body.walk())
            if memo[f.u]:
                return True
    return any(c is not None and throws(c, prog, seen) for c in (n.c[:1] if n.k == 'bin' and n['op'] in ('&&', '||') else n.c))


def truth(t):
    if t is None:
        return None
    t = simp(t)
    if t[0] == 'num':
        return t[1] != 0
    if t[0] == 'lit' and (t[1] is None or isinstance(t[1], bool)):
        return bool(t[1])
    if t[0] == 'sym' and t[-1] == 'nonnull':
        return True
    if t[0] == 'op' and t[1] == '!':
        v = truth(t[2])
        return None if v is None else not v
    if t[0] == 'op' and t[1] in ('==', '!=') and len(t) == 4:
        a, b = truth(t[2]), truth(t[3])
        if a is not None and b is not None and False in (a, b):
            return (a == b) == (t[1] == '==')
    return None
