"""Interprocedural abstract interpreter over the facts of facts.py.

Domain: for every access path (rooted at `this`, a parameter, a global or a
local) the set of tokens its value may depend on, the storage a handle (pointer,
reference, smart pointer, iterator, view) may denote, and a flat constant
lattice for scalars.  A finite automaton component (`ts`) lets rules track
typestate; states are kept apart per automaton value and tracked constant and
joined otherwise.  Functions of the repository are inlined (bounded depth, no
recursion), so extracting or inlining a helper does not change a verdict."""

EMPTY = frozenset()
UNK = object()


def fs(*x):
    return frozenset(x)


class Val:
    __slots__ = ('deps', 'paths', 'const', 'fn', 'obj', 'info', 'eq')

    def __init__(self, deps=EMPTY, paths=EMPTY, const=UNK, fn=None, obj=None, info=None, eq=None):
        self.deps = deps
        self.eq = eq          # path whose value at entry this value equals exactly
        self.paths = paths
        self.const = const
        self.fn = fn          # function designator / lambda node / bind
        self.obj = obj
        self.info = info

    def join(self, o):
        if o is None or o is self:
            return self
        return Val(self.deps | o.deps, self.paths | o.paths,
                   self.const if self.const is not UNK and o.const is not UNK and self.const == o.const
                   and type(self.const) == type(o.const) else UNK,
                   self.fn if self.fn is o.fn else (self.fn or o.fn), self.obj or o.obj,
                   self.info if self.info == o.info else None, self.eq if self.eq == o.eq else None)

    def __repr__(self):
        return 'Val(%s,%s,%s)' % (sorted(map(str, self.deps)), sorted(map(str, self.paths)),
                                  '?' if self.const is UNK else self.const)


class Lin:
    """an affine form over entry values of scalar paths: sum of coefficient * path + constant"""
    __slots__ = ('t', 'k')

    def __init__(self, t, k):
        self.t = t          # frozenset of (path, coefficient)
        self.k = k

    def __eq__(self, o):
        return isinstance(o, Lin) and self.t == o.t and self.k == o.k

    def __hash__(self):
        return hash((self.t, self.k))

    def __repr__(self):
        return 'Lin(%s + %s)' % (' + '.join('%s*%s' % (c, pstr(p)) for p, c in sorted(self.t)), self.k)


def num(c):
    return isinstance(c, (int, float)) and not isinstance(c, bool)


def lin(v):
    """affine form of a value, or None"""
    if v.const is not UNK:
        return Lin(EMPTY, v.const) if num(v.const) else None
    if isinstance(v.eq, Lin):
        return v.eq
    if v.eq is not None:
        return Lin(fs((v.eq, 1)), 0)
    return None


def lin_op(op, a, b):
    """eq component of a op b"""
    if op not in ('+', '-', '*'):
        return None
    a, b = lin(a), lin(b)
    if a is None or b is None:
        return None
    if op == '*':
        if not a.t:
            a, b = b, a
        if b.t:
            return None
        return lin_norm({p: c * b.k for p, c in a.t}, a.k * b.k)
    d = dict(a.t)
    s = 1 if op == '+' else -1
    for p, c in b.t:
        d[p] = d.get(p, 0) + s * c
    return lin_norm(d, a.k + s * b.k)


def lin_norm(d, k):
    t = frozenset((p, c) for p, c in d.items() if c)
    if k == 0 and len(t) == 1:
        (p, c), = t
        if c == 1:
            return p
    return Lin(t, k) if t else None


class State:
    __slots__ = ('store', 'ptr', 'consts', 'ts', 'raii', 'fnv', 'pc', 'eqs')

    def __init__(self, ts=None):
        self.store = {}
        self.ptr = {}
        self.consts = {}
        self.fnv = {}
        self.eqs = {}
        self.ts = ts
        self.raii = ()
        self.pc = EMPTY

    def copy(self):
        s = State(self.ts)
        s.store = dict(self.store)
        s.ptr = dict(self.ptr)
        s.consts = dict(self.consts)
        s.fnv = dict(self.fnv)
        s.eqs = dict(self.eqs)
        s.raii = self.raii
        s.pc = self.pc
        return s

    # ---- paths
    def read(self, p):
        st = self.store
        out = None
        q = p
        n = len(p)
        # nearest written ancestor-or-self
        while n > 0:
            if p[:n] in st:
                out = set(st[p[:n]])
                break
            n -= 1
        if out is None:
            out = set()
            if not p[0].startswith('L'):
                out.add(('in', p))
        # unknown-index entries overlap the constant-index ones
        j = ''.join(p)
        if len(st) and ('[' in j or '+' in j or '@' in j):
            if p not in st:
                # the smallest region written that covers p
                best = None
                for k in st:
                    if len(k) >= n and k != p and covers(k, p) and (best is None or len(k) > len(best) or covers(best, k)):
                        best = k
                if best is not None and len(best) > n:
                    out = set(st[best])
            for k, v in st.items():
                if k != p and overlaps(k, p):
                    if n and len(k) <= n:
                        continue
                    out |= v
        else:
            lp = len(p)
            for k, v in st.items():
                if len(k) > lp and k[:lp] == p:
                    out |= v
        return frozenset(out)

    def kill_ext(self, p):
        lp = len(p)
        if p and p[-1][0] == '@':
            for d in (self.store, self.consts, self.ptr, self.fnv, self.eqs):
                if d:
                    for k in [k for k in d if len(k) >= lp and k != p and k[:lp - 1] == p[:-1] and covers(p, k)]:
                        del d[k]
        for d in (self.store, self.consts, self.ptr, self.fnv, self.eqs):
            if d:
                for k in [k for k in d if len(k) > lp and k[:lp] == p]:
                    del d[k]

    def write(self, p, val, strong):
        if any(c == '[]' or c[0] == '+' or (c[0] == '@' and '?' in c) for c in p):
            strong = False
        if strong:
            self.kill_ext(p)
            self.store[p] = val.deps | self.pc
            for n in range(1, len(p)):
                self.eqs.pop(p[:n], None)
            if val.eq is not None:
                self.eqs[p] = val.eq
            else:
                self.eqs.pop(p, None)
            if val.const is not UNK:
                self.consts[p] = val.const
            else:
                self.consts.pop(p, None)
        else:
            self.store[p] = self.read(p) | val.deps | self.pc
            for k in [k for k in self.consts if overlaps(k, p)]:
                del self.consts[k]
            for k in [k for k in self.eqs if overlaps(k, p)]:
                del self.eqs[k]
        return strong

    def eq_of(self, p):
        """the path whose entry value p is known to hold exactly, or None"""
        if p in self.eqs:
            return self.eqs[p]
        if any(c in ('[]', '+?') or c[0] == '@' for c in p):
            return None
        for k in self.store:
            if k == p or not overlaps(k, p):
                continue
            if k in self.eqs and len(k) < len(p) and p[:len(k)] == k:
                continue
            return None
        if p in self.store:
            return None
        for n in range(len(p) - 1, 0, -1):
            if p[:n] in self.eqs:
                e = self.eqs[p[:n]]
                if isinstance(e, Lin):
                    return None
                for c in p[n:]:
                    e = addidx(e, c) if c[0] in '[@+' else e + (c,)
                return e
        return None if p[0][0] in 'LN' else p

    def const_of(self, p):
        return self.consts.get(p, UNK)

    def join(self, o):
        """in place"""
        ne = {}
        for k in set(self.eqs) | set(o.eqs):
            a = self.eq_of(k)
            if a is not None and a == o.eq_of(k):
                ne[k] = a
        self.eqs = ne
        for k in set(self.store) | set(o.store):
            a = self.store.get(k)
            b = o.store.get(k)
            if a is None:
                a = self._base(k)
            if b is None:
                b = o._base(k)
            if a is not b:
                self.store[k] = a | b
            else:
                self.store[k] = a
        for k, v in o.ptr.items():
            if k in self.ptr:
                self.ptr[k] = self.ptr[k] | v
            else:
                self.ptr[k] = v
        for k in list(self.consts):
            if k not in o.consts or o.consts[k] != self.consts[k] or type(o.consts[k]) != type(self.consts[k]):
                del self.consts[k]
        for k, v in o.fnv.items():
            self.fnv.setdefault(k, v)
        if len(o.raii) < len(self.raii):
            self.raii = o.raii
        self.pc = self.pc | o.pc
        return self

    def _base(self, p):
        n = len(p) - 1
        while n > 0:
            if p[:n] in self.store:
                return self.store[p[:n]]
            n -= 1
        return EMPTY if p[0].startswith('L') else fs(('in', p))

    def sig(self):
        return (self.ts, frozenset(self.store.items()), frozenset(self.ptr.items()),
                frozenset((k, repr(v)) for k, v in self.consts.items()), self.raii)


_span = {}


def span(c):
    """(r0, r1, c0, c1) of a component of storage; None bounds are open; False: unknown"""
    v = _span.get(c)
    if v is None:
        v = _span[c] = _span1(c)
    return v


def _span1(c):
    if c in ('[]', '+?'):
        return False
    try:
        if c[0] == '+':
            return (int(c[1:]), None, 0, 1)
        if c[0] == '[':
            x = [int(i) for i in c[1:-1].split(',')]
            if len(x) == 1:
                return (x[0], x[0] + 1, 0, 1)
            if len(x) == 2:
                return (x[0], x[0] + 1, x[1], x[1] + 1)
            return False
        r, k, h, w = [None if i == '?' else int(i) for i in c[1:].split(',')]
        if r is None or k is None:
            return False
        return (r, None if h is None else r + h, k, None if w is None else k + w)
    except ValueError:
        return False


def region(r, k, h, w, view=False):
    if r is None or k is None:
        return '[]'
    if h == 1 and w == 1 and not view:
        return '[%d]' % r if k == 0 else '[%d,%d]' % (r, k)
    q = lambda x: '?' if x is None or x < 0 else str(x)
    return '@%d,%d,%s,%s' % (r, k, q(h), q(w))


def iv_meet(a0, a1, b0, b1):
    return (a1 is None or b0 < a1) and (b1 is None or a0 < b1)


def comp_overlap(a, b):
    if a == b:
        return True
    if a[0] in '[+@' and b[0] in '[+@':
        x, y = span(a), span(b)
        if x is False or y is False:
            return True
        # a linear index ([k], +k) into a matrix may denote any column
        if ((',' not in a) and (y[2] > 0)) or ((',' not in b) and (x[2] > 0)):
            return True
        return iv_meet(x[0], x[1], y[0], y[1]) and iv_meet(x[2], x[3], y[2], y[3])
    return False


def comp_contains(a, b):
    """does component a certainly cover component b?"""
    if a == b:
        return a not in ('[]', '+?')
    if a[0] not in '@[' or b[0] not in '[+@' or (a[0] == '[' and b[0] != '@'):
        return False
    x, y = span(a), span(b)
    if x is False or y is False:
        return False
    for i in (0, 2):
        if x[i] > y[i]:
            return False
        if x[i + 1] is not None and (y[i + 1] is None or y[i + 1] > x[i + 1]):
            return False
    return True


def covers(a, b):
    """is the storage b certainly a part of the storage a (paths)?"""
    return len(a) <= len(b) and all(comp_contains(x, y) for x, y in zip(a, b))


def overlaps(a, b):
    """can the storage a and b (paths) share a part?"""
    for x, y in zip(a, b):
        if not comp_overlap(x, y):
            return False
    return True


def pstr(p):
    out = ''
    for c in p:
        if c[0] in '[+@':
            out += c
        else:
            out += ('.' if out else '') + c
    return out


HANDLE = ('shared_ptr', 'unique_ptr', 'weak_ptr', 'scoped_ptr', 'iterator', 'reference_wrapper', 'intrusive_ptr',
          'Eigen::Map', 'Eigen::Block', 'Eigen::VectorBlock', 'Eigen::Ref', 'Eigen::Transpose', 'Eigen::Diagonal',
          'Eigen::ArrayWrapper', 'Eigen::MatrixWrapper', 'Eigen::NoAlias', 'Eigen::CommaInitializer',
          'Eigen::internal', 'auto_ptr', 'scoped_array', 'shared_array')

SAME = {'operator->', 'operator*', 'get', 'move', 'forward', 'ref', 'cref', 'static_pointer_cast',
        'dynamic_pointer_cast', 'const_pointer_cast', 'addressof', 'noalias', 'array', 'matrix', 'derived', 'transpose',
        'data', 'cast', 'asDiagonal', 'const_cast_derived', 'lock', 'as_const', 'c_str', 'self', 'getDerived',
        'shared_from_this', 'get_pointer', 'lazyAssign', 'swap_', 'adjoint'}
ELEM = {'block', 'head', 'tail', 'segment', 'col', 'row', 'diagonal', 'topLeftCorner', 'topRightCorner',
        'bottomLeftCorner', 'bottomRightCorner', 'topRows', 'bottomRows', 'leftCols', 'rightCols', 'middleRows',
        'middleCols', 'begin', 'end', 'rbegin', 'rend', 'cbegin', 'cend', 'find', 'lower_bound', 'upper_bound', 'front', 'back',
        'triangularView', 'selfadjointView', 'x_', 'rowwise', 'colwise', 'equal_range', 'top'}
VIEWS = {'block', 'head', 'tail', 'segment', 'col', 'row', 'topRows', 'bottomRows', 'leftCols', 'rightCols', 'middleRows',
         'middleCols', 'topLeftCorner', 'topRightCorner', 'bottomLeftCorner', 'bottomRightCorner'}
INDEX = {'operator[]', 'operator()', 'at', 'coeffRef', 'coeff'}
XYZ = {'x': '[0]', 'y': '[1]', 'z': '[2]', 'w': '[3]'}
RESET = {'setZero', 'setIdentity', 'setOnes', 'setConstant', 'fill', 'clear', 'setRandom'}
STDPURE = ('std::sqrt',)


def is_handle(ty):
    if ty.isref or ty.isptr:
        return True
    if ty.b == 'rec':
        r = ty.rp or ty.r
        for h in HANDLE:
            if h in r or r.endswith(h):
                return True
    if ty.b == 'arr':
        return False
    return False


class Frame:
    __slots__ = ('fn', 'id', 'this', 'dyn', 'depth', 'rets', 'raii', 'parent', 'node')

    def __init__(self, fn, fid, this, dyn, depth, parent=None, node=None):
        self.fn = fn
        self.id = fid
        self.this = this      # frozenset of paths
        self.dyn = dyn        # dynamic class (fq) of the object `this`, or None
        self.depth = depth
        self.rets = []
        self.raii = 0
        self.parent = parent
        self.node = node


class Engine:
    max_depth = 12
    implicit = False       # add control dependence to written values
    max_states = 64
    loop_iters = 6

    def __init__(self, prog):
        self.prog = prog
        self.nframe = 0
        self.frame = None
        self.throws = [[]]
        self.guards = []
        self.sweep = set()
        self.brk = []
        self.cont = []
        self.analysed = set()
        self.ncalls = 0
        self.stack = []

    # ------------------------------------------------------------- hooks
    def call_hook(self, st, node, recv, args):
        """node: call/ctor; return None for the default treatment or [(state, Val)]"""
        return None

    def inline_ok(self, st, node, fn, recv):
        return True

    def may_throw(self, st, node):
        return False

    def on_write(self, st, path, val, node, strong):
        pass

    def on_return(self, st, node, val):
        pass

    def on_release(self, st, item):
        return [st]

    def is_raii(self, ty):
        return False

    def on_acquire(self, st, path, node, ty, args):
        """RAII object constructed: item or None"""
        return None

    def track(self, path):
        """keep states with different constants of this path apart?"""
        return False

    def resolve(self, st, node, recv):
        """body of the function called by node, or None"""
        d = node.d
        u = d.get('u')
        if d.get('dyn'):
            fr = self.frame
            if recv is not None and fr.dyn and recv.paths and recv.paths == fr.this:
                return self.prog.final_overrider(fr.dyn, u)
            dc = self.dyn_class(st, node, recv)
            if dc:
                return self.prog.final_overrider(dc, u)
            return None
        f = self.prog.fns.get(u)
        if f is not None and f.d.get('internal'):
            g = self.prog.fns.get(u + '@' + self.frame.fn.file)
            if g:
                f = g
        return f

    def dyn_class(self, st, node, recv):
        return None

    # ------------------------------------------------------------- running
    def run(self, fn, this=(('this',),), dyn=None, args=None, st=None):
        """states at the exits of fn: ([(state, Val|None)], [throw states])"""
        st = st or State()
        self.throws.append([])
        if args is None:
            args = []
            for i, p in enumerate(fn.params):
                ty = fn.types[p['t']]
                pa = ('arg%d' % i,)
                args.append(Val(fs(('in', pa)), fs(pa)))
        res = self.enter(fn, fs(*this), dyn or fn.fcls, args, st, None)
        th = self.throws.pop()
        return res, th

    def enter(self, fn, this, dyn, args, st, node):
        self.nframe += 1
        self.analysed.add(fn.u)
        fr = Frame(fn, 'L%d' % self.nframe, this, dyn, (self.frame.depth + 1) if self.frame else 0, self.frame, node)
        mark = len(st.raii)
        fr.raii = mark
        saved = self.frame
        sb, sc = self.brk, self.cont
        self.brk, self.cont = [], []
        self.frame = fr
        self.stack.append(fn.u)
        gl = len(self.guards)
        try:
            for i, p in enumerate(fn.params):
                ty = fn.types[p['t']]
                lp = (fr.id + ':' + str(p['d']),)
                a = args[i] if i < len(args) else Val()
                self.bind_var(st, lp, ty, a)
            states = [st]
            if fn.kind == 'ctor':
                for ini in fn.inits:
                    e = fn.node(ini['e'])
                    if e is None:
                        continue
                    nxt = []
                    for s in states:
                        if 'f' in ini:
                            tgt = [t + (ini['n'],) for t in this]
                            for s2, v in self.ev_init(e, s, tgt, None):
                                for t in tgt:
                                    ty = e.type
                                    if is_handle(ty) and v.paths and False:
                                        s2.ptr[t] = v.paths
                                    s2.write(t, v, len(tgt) == 1)
                                    self.on_write(s2, t, v, e, len(tgt) == 1)
                                nxt.append(s2)
                        else:
                            for s2, v in self.ev_init(e, s, list(this), ini.get('base')):
                                nxt.append(s2)
                    states = self.merge(nxt)
            end = self.ex(fn.body, states)
            for s in end:
                fr.rets.append((s, None))
            out = {}
            for s, v in fr.rets:
                for s2 in self.unwind(s, mark):
                    k = self.key(s2)
                    if k in out:
                        o, ov = out[k]
                        o.join(s2)
                        if v is not None:
                            v = v.join(ov) if ov is not None else v
                        else:
                            v = ov
                        out[k] = (o, v)
                    else:
                        out[k] = (s2, v)
            return list(out.values())
        finally:
            self.stack.pop()
            self.frame = saved
            self.brk, self.cont = sb, sc
            del self.guards[gl:]

    def unwind(self, st, mark):
        states = [st]
        while states and len(states[0].raii) > mark:
            nxt = []
            for s in states:
                item = s.raii[-1]
                s.raii = s.raii[:-1]
                nxt += self.on_release(s, item)
            states = nxt
        return states

    def key(self, s):
        tr = tuple(sorted((k, repr(v)) for k, v in s.consts.items() if self.track(k)))
        return (s.ts, tr)

    def merge(self, states):
        if len(states) < 2:
            return states
        out = {}
        for s in states:
            k = self.key(s)
            if k in out:
                if out[k] is not s:
                    out[k].join(s)
            else:
                out[k] = s
        r = list(out.values())
        if len(r) > self.max_states:
            # drop the tracked constants
            out = {}
            for s in r:
                if s.ts in out:
                    out[s.ts].join(s)
                else:
                    out[s.ts] = s
            r = list(out.values())
        return r

    # ------------------------------------------------------------- variables
    def bind_var(self, st, lp, ty, v):
        st.kill_ext(lp)
        st.ptr.pop(lp, None)
        st.fnv.pop(lp, None)
        if v.fn is not None:
            st.fnv[lp] = v
        if is_handle(ty) and v.paths:
            st.ptr[lp] = v.paths
            st.store[lp] = v.deps
            st.consts.pop(lp, None)
            if v.const is not UNK:
                st.consts[lp] = v.const
            return
        sub = self.parts(st, v) if len(v.paths) == 1 and 'Eigen' in ty.r and not ty.isptr and v.paths != fs(lp) \
            and not (isinstance(v.info, tuple) and v.info[0] == 'transposed') else ()
        st.write(lp, v, True)
        for suf, x in sub:
            q = lp + suf
            st.store[q] = x[0] | st.pc
            if x[1] is not None:
                st.eqs[q] = x[1]
            if x[2] is not UNK:
                st.consts[q] = x[2]

    def local(self, d):
        # a local of an enclosing function (lambda bodies are inlined in place)
        return (self.frame.id + ':' + str(d),)

    # ------------------------------------------------------------- expressions
    def evs(self, nodes, st):
        """evaluate a list of nodes in order: [(state, [Val])]"""
        cur = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vs in cur:
                if n is None:
                    nxt.append((s, vs + [Val()]))
                    continue
                for s2, v in self.ev(n, s):
                    nxt.append((s2, vs + [v]))
            cur = nxt
        return cur

    def deref(self, st, paths, deps=EMPTY):
        d = set(deps)
        for p in paths:
            d |= st.read(p)
        return frozenset(d)

    def ev(self, n, st):
        m = getattr(self, 'ev_' + n.k, None)
        if m:
            return m(n, st)
        out = []
        for s, vs in self.evs([c for c in n.c if c is not None], st):
            d = set()
            for v in vs:
                d |= v.deps
            out.append((s, Val(frozenset(d))))
        return out

    def ev_lit(self, n, st):
        v = n.get('v')
        return [(st, Val(const=v if v is not None else 0))]

    def ev_sizeof(self, n, st):
        return [(st, Val(const=n.get('v', UNK)))]

    def ev_this(self, n, st):
        return [(st, Val(self.deref(st, ()), self.frame.this))]

    def ev_ref(self, n, st):
        dk = n['dk']
        if dk == 'fn':
            return [(st, Val(fn=n))]
        if dk == 'enum':
            return [(st, Val(const=n['v']))]
        if dk in ('global', 'slocal') or 'd' not in n.d:
            q = n.get('q') or n.get('n')
            p = ('G:' + q,)
            c = n.get('v', st.const_of(p))
            return [(st, Val(st.read(p), fs(p), c, eq=st.eq_of(p)))]
        lp = self.find_local(st, n['d'])
        if lp in st.ptr:
            ps = st.ptr[lp]
            c = st.const_of(lp)
            return [(st, Val(self.deref(st, ps, st.store.get(lp, EMPTY) if n.type.isptr else EMPTY), ps, c, st.fnv[lp].fn if lp in st.fnv else None, info=lp, eq=self.eq_paths(st, ps)))]
        v = Val(st.read(lp), fs(lp), st.const_of(lp), info=lp, eq=st.eq_of(lp))
        if lp in st.fnv:
            f = st.fnv[lp]
            v.fn, v.obj = f.fn, f.obj
        return [(st, v)]

    def find_local(self, st, d):
        lp = self.local(d)
        return lp

    def ev_mem(self, n, st):
        if n.get('fn'):
            out = []
            for s, v in self.ev(n.c[0], st):
                out.append((s, Val(v.deps, v.paths, fn=n)))
            return out
        out = []
        for s, b in self.ev(n.c[0], st):
            if b.paths:
                ps = frozenset(p + (n['n'],) for p in b.paths)
                c = UNK
                if len(ps) == 1:
                    c = s.const_of(next(iter(ps)))
                fnv = None
                extra = EMPTY
                rp = set()
                for p in ps:
                    if p in s.ptr:
                        rp |= s.ptr[p]
                if rp and self.resolve_field_ptr:
                    out.append((s, Val(self.deref(s, rp), frozenset(rp), c)))
                    continue
                out.append((s, Val(self.deref(s, ps), ps, c, eq=self.eq_paths(s, ps))))
            else:
                out.append((s, Val(b.deps)))
        return out

    resolve_field_ptr = False

    def eq_paths(self, st, ps):
        return st.eq_of(next(iter(ps))) if len(ps) == 1 else None

    def ev_defarg(self, n, st):
        return self.ev(n.c[0], st) if n.c and n.c[0] else [(st, Val())]

    def ev_definit(self, n, st):
        return self.ev(n.c[0], st) if n.c and n.c[0] else [(st, Val())]

    def ev_cast(self, n, st):
        return self.ev(n.c[0], st) if n.c and n.c[0] else [(st, Val())]

    def ev_un(self, n, st):
        op = n['op']
        out = []
        for s, v in self.ev(n.c[0], st):
            if op in ('*', '&'):
                if op == '*' and v.const is not UNK:
                    v = Val(v.deps, v.paths, UNK, v.fn, v.obj, eq=v.eq)
                if op == '&':
                    v = Val(v.deps, v.paths, UNK, v.fn, v.obj, eq=v.eq)
                out.append((s, v))
            elif op in ('++', '--'):
                c = v.const
                nv = Val(v.deps)
                if c is not UNK and isinstance(c, int) and not isinstance(c, bool):
                    nv.const = c + (1 if op == '++' else -1)
                elif n.type.scalar and not n.type.isptr:
                    nv.eq = lin_op(op[0], v, Val(const=1))
                self.assign(s, v, nv, n, True)
                out.append((s, Val(v.deps, v.paths, c if n.get('post') else nv.const)))
            elif op == '!':
                out.append((s, Val(v.deps, const=(not v.const) if v.const is not UNK else UNK)))
            elif op == '-':
                out.append((s, Val(v.deps, const=-v.const if isinstance(v.const, (int, float)) else UNK,
                                   eq=lin_op('*', v, Val(const=-1)) if v.const is UNK and n.type.scalar else None)))
            else:
                out.append((s, Val(v.deps)))
        return out

    def ev_bin(self, n, st):
        op = n['op']
        if op in ('&&', '||'):
            out = []
            for s, a in self.ev(n.c[0], st):
                short = (op == '||')
                if a.const is not UNK:
                    if bool(a.const) == short:
                        out.append((s, Val(a.deps, const=short)))
                    else:
                        for s2, b in self.ev(n.c[1], s):
                            out.append((s2, Val(a.deps | b.deps, const=bool(b.const) if b.const is not UNK else UNK)))
                    continue
                s1 = s.copy()
                self.refine(s1, n.c[0], a, short)
                s2 = s
                self.refine(s2, n.c[0], a, not short)
                g = len(self.guards)
                self.guards.append((n.c[0], not short, a.deps))
                res = [(s1, Val(a.deps, const=UNK))]
                for s3, b in self.ev(n.c[1], s2):
                    res.append((s3, Val(a.deps | b.deps)))
                del self.guards[g:]
                out += self.merge_pairs(res)
            return self.merge_pairs(out)
        out = []
        for s, (a, b) in self.evs(n.c, st):
            c = UNK
            if a.const is not UNK and b.const is not UNK:
                c = fold(op, a.const, b.const)
            elif n.get('cv') is not None:
                c = n['cv']
            paths = EMPTY
            if op in ('+', '-') and n.type.isptr:
                ps = []
                base, off = (a, b) if n.c[0].type.isptr or n.c[0].type.b == 'arr' else (b, a)
                for p in base.paths:
                    if off.const is not UNK and isinstance(off.const, int):
                        ps.append(addoff(p, off.const if op == '+' else -off.const))
                    else:
                        ps.append(addoff(p, None))
                paths = frozenset(ps)
                if paths:
                    out.append((s, Val(self.deref(s, paths), paths)))
                    continue
            if op == ',':
                out.append((s, b))
                continue
            out.append((s, Val(a.deps | b.deps, paths, c,
                               eq=lin_op(op, a, b) if c is UNK and n.type.scalar and not n.type.isptr else None)))
        return out

    def merge_pairs(self, prs):
        if len(prs) < 2:
            return prs
        out = {}
        for s, v in prs:
            k = self.key(s)
            if k in out:
                o, ov = out[k]
                if o is not s:
                    o.join(s)
                out[k] = (o, ov.join(v) if ov is not None else v)
            else:
                out[k] = (s, v)
        return list(out.values())

    def ev_cond(self, n, st):
        out = []
        for s, a in self.ev(n.c[0], st):
            if a.const is not UNK:
                out += self.ev(n.c[1] if a.const else n.c[2], s)
                continue
            s1 = s.copy()
            self.refine(s1, n.c[0], a, True)
            self.refine(s, n.c[0], a, False)
            g = len(self.guards)
            self.guards.append((n.c[0], True, a.deps))
            r = self.ev(n.c[1], s1)
            self.guards[g:] = [(n.c[0], False, a.deps)]
            r = r + self.ev(n.c[2], s)
            del self.guards[g:]
            r = self.merge_pairs(r)
            if self.implicit:
                r = [(x, Val(v.deps | a.deps, v.paths, v.const, v.fn)) for x, v in r]
            out += r
        return self.merge_pairs(out)

    def ev_idx(self, n, st):
        out = []
        for s, (b, i) in self.evs(n.c, st):
            comp = '[%s]' % i.const if i.const is not UNK and isinstance(i.const, int) else '[]'
            if self.is_sweep(n.c[1]):
                comp = '[*]'
            if b.paths:
                ps = frozenset(addidx(p, comp) for p in b.paths)
                c = UNK
                if len(ps) == 1:
                    c = s.const_of(next(iter(ps)))
                out.append((s, Val(self.deref(s, ps) | (i.deps if self.index_deps else EMPTY), ps, c, eq=self.eq_paths(s, ps))))
            else:
                out.append((s, Val(b.deps | i.deps)))
        return out

    index_deps = False

    def is_sweep(self, n):
        while n.k == 'cast' and n.c:
            n = n.c[0]
        return n.k == 'ref' and n.get('dk') == 'local' and (self.frame.id, n['d']) in self.sweep

    def ev_assign(self, n, st):
        out = []
        rhs, lhs = n.c[1], n.c[0]
        for s, (r, l) in self.evs([rhs, lhs], st):
            op = n['op']
            if op == '=':
                self.assign(s, l, r, n, True, lhs)
                out.append((s, Val(r.deps, l.paths, r.const, eq=r.eq)))
            elif lhs.type.isptr and op in ('+=', '-=') and lhs.k == 'ref' and 'd' in lhs.d:
                k = r.const if r.const is not UNK and isinstance(r.const, int) else None
                ps = frozenset(addoff(p, k if k is None or op == '+=' else -k) for p in l.paths)
                v = Val(l.deps | r.deps, ps)
                self.assign(s, l, v, n, True, lhs)
                out.append((s, Val(self.deref(s, ps), ps)))
            else:
                c = UNK
                if l.const is not UNK and r.const is not UNK:
                    c = fold(op[:-1], l.const, r.const)
                v = Val(l.deps | r.deps, const=c,
                        eq=lin_op(op[:-1], l, r) if c is UNK and lhs.type.b in ('int', 'uint', 'float') else None)
                self.assign(s, l, v, n, True, lhs)
                out.append((s, Val(v.deps, l.paths, c, eq=v.eq)))
        return out

    def assign(self, s, l, r, node, strong, lhs=None):
        # rebinding of a local handle
        if lhs is not None and lhs.k == 'ref' and 'd' in lhs.d and lhs['dk'] in ('local', 'param') and \
                (lhs.type.isptr) and not lhs.type.isref:
            lp = self.find_local(s, lhs['d'])
            decl_ref = False
            s.ptr.pop(lp, None)
            s.kill_ext(lp)
            if r.paths:
                s.ptr[lp] = r.paths
            s.store[lp] = r.deps
            s.fnv.pop(lp, None)
            s.consts.pop(lp, None)
            if r.const is not UNK:
                s.consts[lp] = r.const
            return
        if self.implicit and self.guards:
            d = set(r.deps)
            for g in self.guards:
                d |= g[2]
            r = Val(frozenset(d), r.paths, r.const, r.fn, r.obj, eq=r.eq)
        st = strong and len(l.paths) == 1
        sub = self.parts(s, r) if st and not (isinstance(r.info, tuple) and r.info[0] == 'transposed') and len(r.paths) == 1 and 'Eigen' in node.c[0].type.r else ()
        sh = None
        if st and isinstance(r.info, tuple) and r.info[0] == 'shape':
            sh = r.info[1:]
        elif sub and len(node.c) > 1:
            sh = self.shape(s, node.c[1], r)
        for p in l.paths:
            one = None
            if p[-1][0] == '@' and p[-1].endswith(',1,1') and span(p[-1]):
                p = p[:-1] + (region(span(p[-1])[0], span(p[-1])[2], 1, 1),)
            if len(sub) == 1 and p[-1][0] == '[' and span(p[-1]) and sub[0][0] == ('[0]',):
                one = sub[0][1]
            was = s.write(p, Val(one[0], r.paths, one[2], eq=one[1]) if one else r, st)
            if sub and was and not one:
                for suf, v in sub:
                    q = addidx(p, suf[0]) + suf[1:]
                    s.store[q] = v[0] | s.pc
                    if v[1] is not None:
                        s.eqs[q] = v[1]
                    if v[2] is not UNK:
                        s.consts[q] = v[2]
            if was and sh and p[-1][0] not in '[@+':
                if sh[0] is not None:
                    s.consts[p + ('#r',)] = sh[0]
                if sh[1] is not None:
                    s.consts[p + ('#c',)] = sh[1]
            if r.fn is not None:
                s.fnv[p] = r
            else:
                s.fnv.pop(p, None)
            self.on_write(s, p, r, node, was)

    def parts(self, s, r):
        """element-wise contents of the vector/matrix r denotes, when known"""
        p = next(iter(r.paths))
        lp = len(p)
        out = []
        for k, v in s.store.items():
            if len(k) == lp + 1 and k[:lp] == p and k[-1][0] in '[@' and span(k[-1]):
                out.append((k[lp:], (v, s.eqs.get(k), s.consts.get(k, UNK))))
        return out

    def ev_new(self, n, st):
        out = []
        for s, vs in self.evs([c for c in n.c if c is not None], st):
            d = set()
            for v in vs:
                d |= v.deps
            p = ('N%s:%d' % (self.frame.id, n.id),)
            s.write(p, Val(frozenset(d)), True)
            out.append((s, Val(frozenset(d), fs(p), const=UNK, info=('new', n))))
        return out

    def ev_delete(self, n, st):
        return [(s, Val()) for s, vs in self.evs(n.c, st)]

    def ev_throw(self, n, st):
        for s, vs in self.evs([c for c in n.c if c is not None], st):
            self.on_throw(s, n)
            self.throws[-1].append(s)
        return []

    def on_throw(self, st, node):
        pass

    def ev_lambda(self, n, st):
        return [(st, Val(fn=n, obj=self.frame))]

    def ev_initlist(self, n, st):
        out = []
        for s, vs in self.evs([c for c in n.c if c is not None], st):
            d = set()
            for v in vs:
                d |= v.deps
            out.append((s, Val(frozenset(d), vs[0].paths if len(vs) == 1 else EMPTY, vs[0].const if len(vs) == 1 else UNK)))
        return out

    def ev_init(self, e, st, target, base):
        """evaluate an initialiser that constructs into the paths `target`"""
        if e.k == 'ctor':
            return self.do_ctor(e, st, target)
        return self.ev(e, st)

    def ev_ctor(self, n, st):
        return self.do_ctor(n, st, None)

    def do_ctor(self, n, st, target):
        out = []
        for s, vs in self.evs(n.c, st):
            h = self.call_hook(s, n, Val(paths=frozenset(target or ())), vs)
            if h is not None:
                out += h
                continue
            if self.may_throw(s, n):
                self.throws[-1].append(s.copy())
            d = set()
            for v in vs:
                d |= v.deps
            if n.get('copy') or (len(vs) == 1 and is_handle(n.type)):
                v = vs[0] if vs else Val()
                out.append((s, Val(v.deps, v.paths, v.const, v.fn, v.obj, v.info, v.eq)))
                continue
            if len(vs) == 1 and 'Eigen::Matrix' in n.type.r and n.type.k == 'v' and not n.type.isptr and vs[0].paths \
                    and n.c[0] is not None and 'Eigen' in n.c[0].type.r:
                v = vs[0]
                out.append((s, Val(v.deps, v.paths, eq=v.eq, info=v.info if isinstance(v.info, tuple) and v.info[0] == 'transposed' else ('eigencopy',))))
                continue
            f = self.prog.fns.get(n.get('u'))
            if f and target and f.u not in self.stack and len(self.stack) < self.max_depth and self.inline_ok(s, n, f, None):
                for s2, _ in self.enter(f, frozenset(target), f.fcls, vs, s, n):
                    out.append((s2, Val(self.deref(s2, target))))
                continue
            self.escape(s, n, None, vs)
            paths = EMPTY
            hw = dims(n.type.r)
            if len(vs) > 1 and 1 in hw and None not in hw and hw[0] * hw[1] == len(vs) and n.type.k == 'v':
                # a fixed-size vector from its elements
                p = (target[0] if target and len(target) == 1 else ('%s:t%d' % (self.frame.id, n.id),))
                s.write(p, Val(), True)
                for i, v in enumerate(vs):
                    s.write(addidx(p, '[%d]' % i), v, True)
                out.append((s, Val(frozenset(d), fs(p), info=('vec',))))
                continue
            if is_handle(n.type):
                for v in vs:
                    paths |= v.paths
            out.append((s, Val(frozenset(d), paths, vs[0].const if len(vs) == 1 else UNK, vs[0].fn if len(vs) == 1 else None, vs[0].obj if len(vs) == 1 else None)))
        return out

    def ev_call(self, n, st):
        out = []
        d = n.d
        kids = n.c
        if d.get('ind'):
            return self.indirect(n, st)
        op = d.get('op')
        order = kids
        for s, vs in self.evs(order, st):
            self.ncalls += 1
            if d.get('obj'):
                recv, args = vs[0], vs[1:]
            else:
                recv, args = None, vs
            h = self.call_hook(s, n, recv, args)
            if h is not None:
                out += h
                continue
            if self.may_throw(s, n):
                self.throws[-1].append(s.copy())
            # call of a lambda / function object held in a variable
            if op == '()' and recv is not None and recv.fn is not None and recv.fn.k == 'lambda':
                out += self.run_lambda(recv, args, s, n)
                continue
            f = self.resolve(s, n, recv)
            if f is not None and self.stack.count(f.u) < 1 and len(self.stack) < self.max_depth \
                    and self.inline_ok(s, n, f, recv) and (recv is None or recv.paths or not d.get('m')) \
                    and not f.d.get('copyassign') and not f.d.get('moveassign'):
                this = recv.paths if recv is not None else EMPTY
                dyn = None
                if recv is not None:
                    if self.frame.this == recv.paths and self.frame.dyn:
                        dyn = self.frame.dyn
                    else:
                        dyn = self.dyn_class(s, n, recv) or (n.c[0].type.r if not d.get('virt') and False else None)
                pa = list(args)
                for s2, v in self.enter(f, this, dyn, pa, s, n):
                    if v is None:
                        v = Val()
                    out.append((s2, v))
                continue
            out += self.opaque(s, n, recv, args)
        return self.merge_pairs(out) if len(out) > 1 else out

    def run_lambda(self, fnv, args, s, n):
        lam = fnv.fn
        fr = fnv.obj
        body = lam.c[0]
        f = self.prog.fns.get(lam.get('u'))
        saved = self.frame
        if len(self.stack) >= self.max_depth or body is None:
            return [(s, Val())]
        nf = Frame(fr.fn, fr.id, fr.this, fr.dyn, saved.depth + 1, saved, n)
        nf.raii = len(s.raii)
        if f:
            # parameters are known by name only in the lambda's own numbering
            byname = {}
            for x in body.walk():
                if x.k == 'ref' and x.get('dk') == 'param':
                    byname[x['n']] = x['d']
            for i, p in enumerate(f.params):
                if p['n'] in byname and i < len(args):
                    self.frame = nf
                    self.bind_var(s, (fr.id + ':' + str(byname[p['n']]),), f.types[p['t']], args[i])
                    self.frame = saved
        sb, sc = self.brk, self.cont
        self.brk, self.cont = [], []
        self.frame = nf
        self.stack.append('lambda:%s' % lam.get('u'))
        try:
            end = self.ex(body, [s])
            prs = [(x, v or Val()) for x, v in nf.rets] + [(x, Val()) for x in end]
            return self.merge_pairs(prs)
        finally:
            self.stack.pop()
            self.frame = saved
            self.brk, self.cont = sb, sc

    def indirect(self, n, st):
        out = []
        nodes = list(n.c)
        cal = n.fn.node(n.get('cal', -1)) if n.get('cal') is not None else None
        pre = [cal] if cal is not None else []
        for s, vs in self.evs(pre + nodes, st):
            fv = vs[0] if pre else Val()
            args = vs[len(pre):]
            recv = None
            if n.get('obj') and args:
                recv, args = args[0], args[1:]
            h = self.call_hook(s, n, recv, args)
            if h is not None:
                out += h
                continue
            if self.may_throw(s, n):
                self.throws[-1].append(s.copy())
            if fv.fn is not None and fv.fn.k == 'lambda':
                out += self.run_lambda(fv, args, s, n)
                continue
            if fv.fn is not None and fv.fn.k == 'ref':
                f = self.prog.fns.get(fv.fn.get('u'))
                if f and f.u not in self.stack and len(self.stack) < self.max_depth:
                    for s2, v in self.enter(f, recv.paths if recv else EMPTY, None, args, s, n):
                        out.append((s2, v or Val()))
                    continue
            out += self.opaque(s, n, recv, args)
        return out

    def escape(self, s, n, recv, args):
        """effects of a call whose body is not analysed"""
        d = n.d
        pm = d.get('pm', '')
        alld = set()
        for v in args:
            alld |= v.deps
        if recv is not None:
            alld |= recv.deps
        alld = frozenset(alld)
        for i, v in enumerate(args):
            m = pm[i] if i < len(pm) else 'v'
            if m in ('r', 'p') and v.paths:
                for p in v.paths:
                    w = s.write(p, Val(alld | self.call_token(n, recv)), False)
                    self.on_write(s, p, Val(alld), n, False)
            # lambdas handed to algorithms run
            if v.fn is not None and v.fn.k == 'lambda':
                r = self.run_lambda(v, [Val(alld)] * 4, s.copy(), n)
                for s2, _ in r:
                    s.join(s2)
        return alld

    def call_token(self, n, recv):
        return fs(('call', n.get('q', '?')))

    def opaque(self, s, n, recv, args):
        d = n.d
        name = d.get('n', '?')
        op = d.get('op')
        q = d.get('q', '?')
        inrepo = d.get('in', False)
        if op == '=' and recv is not None and len(args) == 1:
            self.assign(s, recv, args[0], n, True, n.c[0] if n.c[0].k == 'ref' and False else None)
            # rebinding of a local smart pointer / iterator
            l = n.c[0]
            if l.k == 'ref' and l.get('dk') in ('local', 'param') and is_handle(l.type) and not l.type.isref \
                    and recv.info is not None:
                if 'Eigen' not in l.type.r and args[0].paths:
                    s.ptr[recv.info] = args[0].paths
            return [(s, Val(args[0].deps, recv.paths, eq=args[0].eq))]
        if op in ('+=', '-=', '*=', '/=', '|=', '&=', '^=', '%=') and len(n.c) == 2:
            l, r = (recv, args[0]) if recv is not None else (args[0], args[1])
            v = Val(l.deps | r.deps)
            self.assign(s, l, v, n, True)
            return [(s, Val(v.deps, l.paths))]
        if op == '<<' or op == ',':
            l, r = (recv, args[0]) if recv is not None else (args[0], args[1]) if len(args) == 2 else (None, None)
            if l is not None:
                eig = 'Eigen' in (n.c[0].type.r or '')
                comma = 'CommaInitializer' in n.type.r + n.type.rp
                strong = op == '<<' and eig and n.c[0].type.rp != 'Eigen::CommaInitializer'
                if comma and len(l.paths) == 1:
                    # m << a, b, c  assigns the elements one by one
                    scal = n.c[1].type.b in ('int', 'uint', 'float', 'enum', 'bool') and not n.c[1].type.isptr
                    base, k = (next(iter(l.paths)), 0) if op == '<<' else \
                        (l.info[1], l.info[2]) if isinstance(l.info, tuple) and l.info[0] == 'comma' else (None, None)
                    if base is not None:
                        if op == '<<':
                            sh = [(a, s.consts.get(base + (a,))) for a in ('#r', '#c')]
                            s.write(base, Val(), True)
                            for a, x in sh:
                                if x is not None:
                                    s.consts[base + (a,)] = x
                            self.on_write(s, base, Val(), n, True)
                        if scal and k is not None:
                            p = addidx(base, '[%d]' % k)
                            w = s.write(p, r, True)
                            self.on_write(s, p, r, n, w)
                            return [(s, Val(l.deps | r.deps, fs(base), info=('comma', base, k + 1)))]
                        w = s.write(base, Val(r.deps), False)
                        self.on_write(s, base, Val(r.deps), n, False)
                        return [(s, Val(l.deps | r.deps, fs(base), info=('comma', base, None)))]
                for p in l.paths:
                    w = s.write(p, Val(r.deps), strong and len(l.paths) == 1)
                    self.on_write(s, p, Val(r.deps), n, w)
                return [(s, Val(l.deps | r.deps, l.paths))]
        if op in ('++', '--') and recv is not None:
            return [(s, Val(recv.deps, recv.paths))]
        if op in ('==', '!=', '<', '>', '<=', '>=') and len(n.c) == 2:
            a, b = (recv, args[0]) if recv is not None else (args[0], args[1])
            return [(s, Val(a.deps | b.deps))]
        src = recv if recv is not None else (args[0] if args else None)
        if src is not None and not inrepo:
            if name in ('transpose', 'adjoint') and len(n.c) == 1 and 1 not in dims(n.c[0].type.r):
                return [(s, Val(src.deps, src.paths, info=('transposed',)))]
            if (name in SAME and len(n.c) == 1 or name == 'get_pointer') or (op in ('->', '*') and len(n.c) == 1):
                dd = src.deps
                return [(s, Val(dd, src.paths, UNK, src.fn, src.obj, eq=src.eq))]
            if recv is not None:
                if name in INDEX or op in ('[]', '()'):
                    idx = [a for a in args]
                    if idx and all(a.const is not UNK and isinstance(a.const, int) for a in idx):
                        ii = [a.const for a in idx]
                        if len(ii) == 2 and ii[1] == 0:
                            ii = ii[:1]         # (i, 0) is the i-th element of the storage
                        comp = '[' + ','.join(map(str, ii)) + ']'
                    else:
                        comp = '[]'
                        anodes = n.c[1:] if d.get('obj') else n.c
                        if anodes and all(x is not None and (self.is_sweep(x) or a.const is not UNK) for x, a in zip(anodes, idx)) \
                                and any(self.is_sweep(x) for x in anodes):
                            if all(self.is_sweep(x) or a.const == 0 for x, a in zip(anodes, idx)):
                                comp = '[*]'
                    if recv.paths:
                        if not d.get('const') and op == '[]' and 'map' in (n.c[0].type.rp or ''):
                            for p in recv.paths:
                                s.write(p, Val(args[0].deps), False)
                                self.on_write(s, p + ('[]',), Val(args[0].deps), n, False)
                        ps = frozenset(addidx(p, comp) for p in recv.paths)
                        c = s.const_of(next(iter(ps))) if len(ps) == 1 else UNK
                        return [(s, Val(self.deref(s, ps) | (frozenset().union(*[a.deps for a in idx]) if self.index_deps and idx else EMPTY), ps, c, eq=self.eq_paths(s, ps)))]
                if name in XYZ and not args and recv.paths:
                    ps = frozenset(p + (XYZ[name],) for p in recv.paths)
                    return [(s, Val(self.deref(s, ps), ps, eq=self.eq_paths(s, ps)))]
                if 'Eigen' in n.c[0].type.r + n.type.r and name in VIEWS and recv.paths:
                    comp = self.view(s, n, recv, args)
                    if comp is not None:
                        ps = frozenset(addidx(p, comp) for p in recv.paths)
                        return [(s, Val(self.deref(s, ps), ps))]
                if name in ('rows', 'cols', 'size') and not args and d.get('const'):
                    h, w = self.shape(s, n.c[0], recv)
                    c = h if name == 'rows' else w if name == 'cols' else (h * w if h is not None and w is not None else None)
                    if c is not None:
                        return [(s, Val(const=c))]
                if name in ELEM and recv.paths:
                    ps = frozenset(addidx(p, '[]') for p in recv.paths)
                    dd = self.deref(s, ps)
                    if self.index_deps:
                        for a in args:
                            dd |= a.deps
                    return [(s, Val(dd, ps))]
                if (name in RESET or name == 'resize' and 'Eigen' in n.c[0].type.r) and not d.get('const'):
                    dd = EMPTY
                    for a in args:
                        dd |= a.deps
                    z = name == 'setZero' or (name in ('fill', 'setConstant') and args and args[-1].const == 0)
                    for p in recv.paths:
                        sh = [(k, s.consts.get(p + (k,))) for k in ('#r', '#c')] if not args or name in ('fill', 'setConstant') else []
                        w = s.write(p, Val(dd, const=0 if z else UNK), len(recv.paths) == 1)
                        for k, x in sh:
                            if x is not None:
                                s.consts[p + (k,)] = x
                        self.on_write(s, p, Val(dd), n, w)
                        cs = [a.const for a in args if isinstance(a.const, int)]
                        if len(cs) == len(args) and name in ('resize', 'setZero', 'setIdentity', 'setOnes') and cs and len(recv.paths) == 1:
                            s.consts[p + ('#r',)] = cs[0]
                            s.consts[p + ('#c',)] = cs[1] if len(cs) > 1 else 1
                    return [(s, Val(dd, recv.paths))]
            if name in ('memcpy', 'copy', 'memmove') and recv is None and len(args) == 3:
                a, b = (args[1], args[0]) if name != 'copy' else (args[0], args[2])
                for p in b.paths:
                    w = s.write(p, Val(a.deps), False)
                    self.on_write(s, p, Val(a.deps), n, w)
                return [(s, Val(b.deps, b.paths))]
            if name == 'swap' and ((recv is not None and len(args) == 1) or len(args) == 2):
                a, b = (recv, args[0]) if recv is not None else args
                for x, y in ((a, b), (b, a)):
                    for p in x.paths:
                        w = s.write(p, Val(y.deps), len(x.paths) == 1)
                        self.on_write(s, p, Val(y.deps), n, w)
                return [(s, Val())]
        if not inrepo and recv is None and name in ('Zero', 'Identity', 'Ones', 'Constant') and 'Eigen' in q:
            cs = [a.const for a in args]
            sh = None
            if args and all(isinstance(x, int) for x in cs) and name != 'Constant':
                sh = ('shape', cs[0], cs[1] if len(cs) > 1 else 1)
            return [(s, Val(const=0 if name == 'Zero' else UNK, info=sh))]
        alld = self.escape(s, n, recv, args)
        tok = self.call_token(n, recv)
        if recv is not None and d.get('m') and not d.get('const') and not d.get('static') and recv.paths \
                and not is_smart_call(n):
            ad = set()
            for a in args:
                ad |= a.deps
            for p in recv.paths:
                s.write(p, Val(frozenset(ad) | (tok if inrepo else EMPTY)), False)
                self.on_write(s, p, Val(frozenset(ad)), n, False)
        paths = EMPTY
        ty = n.type
        if recv is not None and recv.paths and (ty.isref or is_handle(ty)):
            paths = frozenset(p + ('%s()' % name,) for p in recv.paths) if inrepo else \
                frozenset(addidx(p, '[]') for p in recv.paths)
            if len(next(iter(paths))) > 12:
                paths = EMPTY
        dd = alld
        if inrepo:
            dd = dd | tok
        return [(s, Val(dd, paths))]

    def shape(self, s, node, v):
        h, w = dims(node.type.r)
        if (h is None or w is None) and len(v.paths) == 1:
            p = next(iter(v.paths))
            if h is None:
                h = s.consts.get(p + ('#r',))
            if w is None:
                w = s.consts.get(p + ('#c',))
        return h, w

    def view(self, s, n, recv, args):
        """component denoted by a view of an Eigen object, or None"""
        name = n['n']
        H, W = self.shape(s, n.c[0], recv)
        h, w = dims(n.type.r)
        cs = [a.const if a.const is not UNK and isinstance(a.const, int) else None for a in args]
        c = lambda i: cs[i] if i < len(cs) else None
        na = len(cs)
        if name == 'block':
            if na == 4:
                h, w = (h if h is not None else c(2)), (w if w is not None else c(3))
            return region(c(0), c(1), h, w, True)
        if name in ('head', 'tail', 'segment'):
            k = h if w == 1 else w if h == 1 else None
            if k is None and na:
                k = c(na - 1)
            row = H == 1 and W != 1
            L = W if row else H
            if name == 'head':
                o = 0
            elif name == 'tail':
                o = L - k if L is not None and k is not None else None
            else:
                o = c(0)
            return region(0, o, 1, k, True) if row else region(o, 0, k, 1, True)
        if name == 'col':
            return region(0, c(0), H, 1, True)
        if name == 'row':
            return region(c(0), 0, 1, W, True)
        if name in ('topRows', 'bottomRows', 'middleRows'):
            k = h if h is not None else c(na - 1)
            o = 0 if name[0] == 't' else c(0) if name[0] == 'm' else (H - k if H is not None and k is not None else None)
            return region(o, 0, k, W, True)
        if name in ('leftCols', 'rightCols', 'middleCols'):
            k = w if w is not None else c(na - 1)
            o = 0 if name[0] == 'l' else c(0) if name[0] == 'm' else (W - k if W is not None and k is not None else None)
            return region(0, o, H, k, True)
        h, w = (h if h is not None else c(0)), (w if w is not None else c(1))
        r = 0 if name.startswith('top') else (H - h if H is not None and h is not None else None)
        k = 0 if name.endswith('LeftCorner') else (W - w if W is not None and w is not None else None)
        return region(r, k, h, w, True)

    # ------------------------------------------------------------- refinement
    def refine(self, st, n, v, truth):
        """record what a branch on n being `truth` says about constants"""
        if n is None:
            return
        if n.k == 'un' and n['op'] == '!':
            return self.refine(st, n.c[0], None, not truth)
        if n.k == 'bin' and n['op'] == '&&' and truth:
            self.refine(st, n.c[0], None, True)
            self.refine(st, n.c[1], None, True)
            return
        if n.k == 'bin' and n['op'] == '||' and not truth:
            self.refine(st, n.c[0], None, False)
            self.refine(st, n.c[1], None, False)
            return
        if n.k in ('ref', 'mem') and n.type.b == 'bool':
            p = self.simple_path(st, n)
            if p is not None:
                st.consts[p] = truth
            return
        if n.k == 'bin' and n['op'] in ('==', '!='):
            want = (n['op'] == '==') == truth
            for a, b in ((n.c[0], n.c[1]), (n.c[1], n.c[0])):
                if a.k in ('ref', 'mem') and (b.k == 'lit' or b.get('dk') == 'enum' or b.get('cv') is not None):
                    p = self.simple_path(st, a)
                    c = b.get('v') if b.k == 'lit' or b.get('dk') == 'enum' else b.get('cv')
                    if p is not None and want and c is not None and not b.get('str'):
                        st.consts[p] = c
                        return
                    if p is not None and not want and a.type.b == 'bool' and isinstance(c, bool):
                        st.consts[p] = not c
                        return

    def simple_path(self, st, n):
        if n.k == 'ref' and n.get('dk') in ('local', 'param'):
            lp = self.find_local(st, n['d'])
            if lp in st.ptr and not n.type.isptr:
                ps = st.ptr[lp]
                return next(iter(ps)) if len(ps) == 1 else None
            return lp
        if n.k == 'mem' and not n.get('fn'):
            b = n.c[0]
            if b.k == 'this':
                if len(self.frame.this) == 1:
                    return next(iter(self.frame.this)) + (n['n'],)
                return None
            if b.k in ('mem', 'ref'):
                bp = self.simple_path(st, b)
                if bp is None:
                    return None
                if bp in st.ptr:
                    ps = st.ptr[bp]
                    if len(ps) != 1:
                        return None
                    bp = next(iter(ps))
                return bp + (n['n'],)
        return None

    # ------------------------------------------------------------- statements
    def ex(self, n, states):
        """states in -> states that leave normally"""
        if n is None or not states:
            return states
        m = getattr(self, 'ex_' + n.k, None)
        if m:
            return m(n, states)
        out = []
        for s in states:
            for s2, v in self.ev(n, s):
                out.append(s2)
        return self.merge(out)

    def ex_null(self, n, states):
        return states

    def ex_block(self, n, states):
        marks = [(s, len(s.raii)) for s in states]
        mark = len(states[0].raii) if states else 0
        g = len(self.guards)
        cur = states
        for c in n.c:
            if not cur:
                break
            cur = self.ex(c, cur)
        del self.guards[g:]
        out = []
        for s in cur:
            out += self.unwind(s, mark) if len(s.raii) > mark else [s]
        return self.merge(out)

    def ex_decl(self, n, states):
        for v in n.c:
            states = self.ex_var(v, states)
        return states

    def ex_var(self, v, states):
        out = []
        lp = None
        for s in states:
            lp = self.local(v['d'])
            if v.get('static'):
                lp = self.local(v['d'])
            e = v.c[0] if v.c else None
            ty = v.type
            if e is None:
                s.kill_ext(lp)
                s.ptr.pop(lp, None)
                s.store[lp] = EMPTY
                s.consts.pop(lp, None)
                out.append(s)
                continue
            if e.k == 'ctor' and not e.get('copy'):
                s.kill_ext(lp)
                s.ptr.pop(lp, None)
                s.store[lp] = EMPTY
                s.consts.pop(lp, None)
                res = self.do_ctor(e, s, None if is_handle(ty) else [lp])
            else:
                res = self.ev(e, s)
            for s2, val in res:
                if e.k == 'ctor' and not e.get('copy') and not (is_handle(ty) and val.paths):
                    if val.info == ('eigencopy',):
                        self.bind_var(s2, lp, ty, val)
                    elif not (self.prog.fns.get(e.get('u'))) and val.info != ('vec',):
                        s2.write(lp, val, True)
                    if val.fn is not None:
                        s2.fnv[lp] = val
                else:
                    self.bind_var(s2, lp, ty, val)
                    self.on_write(s2, lp, val, v, True)
                if self.is_raii(ty):
                    item = self.on_acquire(s2, lp, v, ty, e)
                    if item is not None:
                        s2.raii = s2.raii + (item,)
                out.append(s2)
        return self.merge(out)

    def branch(self, cond, states):
        """-> (true pairs, false pairs) as lists of states, deps of the condition"""
        t, f = [], []
        deps = set()
        # split short-circuit conditions so that each side keeps its refinement
        if cond.k == 'un' and cond['op'] == '!':
            t2, f2, d = self.branch(cond.c[0], states)
            return f2, t2, d
        if cond.k == 'bin' and cond['op'] in ('&&', '||'):
            t1, f1, d1 = self.branch(cond.c[0], states)
            g = len(self.guards)
            self.guards.append((cond.c[0], cond['op'] == '&&', d1))
            if cond['op'] == '&&':
                t2, f2, d2 = self.branch(cond.c[1], t1)
                r = (t2, self.merge(f1 + f2), d1 | d2)
            else:
                t2, f2, d2 = self.branch(cond.c[1], f1)
                r = (self.merge(t1 + t2), f2, d1 | d2)
            del self.guards[g:]
            return r
        for s in states:
            for s2, v in self.ev(cond, s):
                deps |= v.deps
                v = self.cond_value(s2, cond, v)
                if v.const is not UNK:
                    (t if v.const else f).append(s2)
                    continue
                s3 = s2.copy()
                self.refine(s2, cond, v, True)
                self.refine(s3, cond, v, False)
                if self.on_branch(s2, cond, v, True):
                    t.append(s2)
                if self.on_branch(s3, cond, v, False):
                    f.append(s3)
        return self.merge(t), self.merge(f), frozenset(deps)

    def cond_value(self, st, cond, v):
        return v

    def on_branch(self, st, cond, v, truth):
        return True

    def ex_if(self, n, states):
        if n.get('init') is not None:
            states = self.ex(n.fn.node(n['init']), states)
        if n.get('cv') is not None and isinstance(n['cv'], int) and n.fn.node(n['cv']).k == 'decl':
            states = self.ex(n.fn.node(n['cv']), states)
        cond, th, el = n.c[0], n.c[1], n.c[2]
        t, f, d = self.branch(cond, states)
        g = len(self.guards)
        self.guards.append((cond, True, d))
        t2 = self.ex(th, t)
        self.guards[g:] = [(cond, False, d)]
        f2 = self.ex(el, f) if el is not None else f
        del self.guards[g:]
        if t and not t2 and f2:
            self.guards.append((cond, False, d))
        elif f and not f2 and t2:
            self.guards.append((cond, True, d))
        return self.merge(t2 + f2)

    def loop(self, n, states, cond, body, inc, first_body=False, skip0=False):
        """generic loop; returns exit states"""
        if not states:
            return []
        seen = {}
        exits = []
        front = states
        it = 0
        mark = len(states[0].raii)
        head = {}
        for s in states:
            head[self.key(s)] = s.copy()
        g = len(self.guards)
        todo = list(head.values())
        sb, sc = self.brk, self.cont
        exits_acc = {}
        do_first = first_body
        while todo and it < self.loop_iters:
            it += 1
            cur = [s.copy() for s in todo]
            self.brk, self.cont = [], []
            if cond is not None and not do_first:
                t, f, d = self.branch(cond, cur)
            else:
                t, f, d = cur, [], EMPTY
            do_first = False
            if not (skip0 and it == 1 and t):
                exits += f
            if cond is not None:
                self.guards.append((cond, True, d))
            out = self.ex(body, t) if body is not None else t
            del self.guards[g:]
            nxt = self.merge(out + [x for s in self.cont for x in self.unwind(s, mark)])
            if inc is not None:
                nxt = self.ex(inc, nxt)
            exits += [x for s in self.brk for x in self.unwind(s, mark)]
            if first_body and cond is not None:
                t, f, d = self.branch(cond, [s.copy() for s in nxt])
                exits += f
                nxt = t
                do_first = True
            todo = []
            for s in nxt:
                k = self.key(s)
                if k in head:
                    old = head[k].sig()
                    head[k].join(s)
                    if head[k].sig() != old:
                        todo.append(head[k])
                else:
                    head[k] = s.copy()
                    todo.append(head[k])
            exits = self.merge(exits)
        self.brk, self.cont = sb, sc
        return exits

    def ex_for(self, n, states):
        init, cond, inc, body = n.c
        added = []
        if inc is not None:
            for x in inc.walk():
                if (x.k == 'un' and x['op'] in ('++', '--')) or x.k == 'assign':
                    t = x.c[0]
                    if t.k == 'ref' and t.get('dk') == 'local' and t.type.b in ('int', 'uint'):
                        added.append((self.frame.id, t['d']))
        added = [a for a in added if a not in self.sweep]
        self.sweep.update(added)
        try:
            return self.ex_for1(n, states, init, cond, inc, body)
        finally:
            self.sweep.difference_update(added)

    assume_loops_run = False

    def ex_for1(self, n, states, init, cond, inc, body):
        g = len(self.guards)
        mark = len(states[0].raii) if states else 0
        if init is not None:
            states = self.ex(init, states)
        out = self.loop(n, states, cond, body, inc, skip0=self.assume_loops_run)
        del self.guards[g:]
        return out

    def ex_while(self, n, states):
        return self.loop(n, states, n.c[0], n.c[1], None)

    def ex_do(self, n, states):
        return self.loop(n, states, n.c[1], n.c[0], None, first_body=True)

    def ex_range(self, n, states):
        var, rng, body = n.c
        out = []
        start = []
        for s in states:
            for s2, v in self.ev(rng, s):
                start.append((s2, v))
        if not start:
            return []
        res = []
        for s, v in start:
            ps = frozenset(addidx(p, '[]') for p in v.paths)
            ev = Val(self.deref(s, ps) if ps else v.deps, ps)

            class _B:
                pass
            eng = self

            def bind(ss):
                for x in ss:
                    lp = eng.local(var['d'])
                    ty = var.type
                    eng.bind_var(x, lp, ty, Val(eng.deref(x, ps) if ps else v.deps, ps))
                return ss
            res += self.loop_range(n, [s], bind, body)
        return self.merge(res)

    def loop_range(self, n, states, bind, body):
        head = {}
        exits = [s.copy() for s in states]
        mark = len(states[0].raii)
        for s in states:
            head[self.key(s)] = s.copy()
        todo = list(head.values())
        it = 0
        g = len(self.guards)
        sb, sc = self.brk, self.cont
        while todo and it < self.loop_iters:
            it += 1
            cur = bind([s.copy() for s in todo])
            self.brk, self.cont = [], []
            self.guards.append((n, True, EMPTY))
            out = self.ex(body, cur)
            del self.guards[g:]
            nxt = self.merge(out + [x for s in self.cont for x in self.unwind(s, mark)])
            exits += [x for s in self.brk for x in self.unwind(s, mark)]
            exits += [s.copy() for s in nxt]
            todo = []
            for s in nxt:
                k = self.key(s)
                if k in head:
                    old = head[k].sig()
                    head[k].join(s)
                    if head[k].sig() != old:
                        todo.append(head[k])
                else:
                    head[k] = s.copy()
                    todo.append(head[k])
            exits = self.merge(exits)
        self.brk, self.cont = sb, sc
        return exits

    def ex_switch(self, n, states):
        cond, body = n.c
        entry = []
        for s in states:
            for s2, v in self.ev(cond, s):
                entry.append((s2, v))
        sb = self.brk
        self.brk = []
        cur = []
        has_default = False
        kids = body.c if body.k == 'block' else [body]
        mark = len(entry[0][0].raii) if entry else 0
        g = len(self.guards)
        vals = set()

        def labels(x):
            labs = []
            while x is not None and x.k in ('case', 'default'):
                labs.append(x)
                x = x.c[-1]
            return labs, x
        for c in kids:
            for l in labels(c)[0]:
                if l.k == 'case':
                    vals.add(l.get('v'))
        for c in kids:
            labs, sub = labels(c)
            for l in labs:
                for s, v in entry:
                    if l.k == 'case':
                        if v.const is not UNK and v.const != l.get('v'):
                            continue
                        x = s.copy()
                        p = self.simple_path(x, cond)
                        if p is not None and l.get('v') is not None:
                            x.consts[p] = l.get('v')
                        cur = cur + [x]
                    else:
                        has_default = True
                        if v.const is not UNK and v.const in vals:
                            continue
                        cur = cur + [s.copy()]
                del self.guards[g:]
                self.guards.append((l, True, entry[0][1].deps if entry else EMPTY))
            cur = self.ex(sub, self.merge(cur))
        del self.guards[g:]
        out = cur + [x for s in self.brk for x in self.unwind(s, mark)]
        if not has_default:
            out += [s for s, v in entry if not (v.const is not UNK and v.const in vals)]
        self.brk = sb
        return self.merge(out)

    def ex_case(self, n, states):
        return self.ex(n.c[-1], states)

    ex_default = ex_case

    def ex_break(self, n, states):
        self.brk += states
        return []

    def ex_continue(self, n, states):
        self.cont += states
        return []

    def ex_return(self, n, states):
        for s in states:
            if n.c and n.c[0] is not None:
                for s2, v in self.ev(n.c[0], s):
                    if self.implicit and self.guards:
                        d = set(v.deps)
                        for g in self.guards:
                            d |= g[2]
                        v = Val(frozenset(d), v.paths, v.const, v.fn, v.obj, v.info)
                    self.on_return(s2, n, v)
                    self.frame.rets.append((s2, v))
            else:
                self.on_return(s, n, None)
                self.frame.rets.append((s, None))
        return []

    def ex_try(self, n, states):
        mark = len(states[0].raii) if states else 0
        self.throws.append([])
        out = self.ex(n.c[0], states)
        th = self.throws.pop()
        caught = []
        for s in th:
            caught += self.unwind(s, mark)
        catch_all = False
        for h in n.c[1:]:
            if 'ct' not in h.d or 'std::exception' in h.fn.types[h['ct']].s:
                catch_all = True
        caught = self.merge(caught)
        if not catch_all:
            self.throws[-1] += [s.copy() for s in caught]
        for h in n.c[1:]:
            hs = [s.copy() for s in caught]
            if 'd' in h.d:
                for s in hs:
                    s.write(self.local(h['d']), Val(), True)
            out = out + self.ex(h.c[0], hs)
        return self.merge(out)


def addidx(p, comp):
    """p[comp], folding a constant pointer offset into the index"""
    if comp == '[*]':
        # an index that sweeps the whole range stands for the whole object
        return p[:-1] + ('[]',) if p and p[-1].startswith('+') else p
    if p and p[-1][0] == '@' and comp[0] in '[@+':
        x, y = span(p[-1]), span(comp)
        if x is False or y is False:
            return p[:-1] + ('[]',)
        if comp[0] == '@':
            h = None if y[1] is None else y[1] - y[0]
            w = None if y[3] is None else y[3] - y[2]
            if h is None and x[1] is not None:
                h = x[1] - x[0] - y[0]
            if w is None and x[3] is not None:
                w = x[3] - x[2] - y[2]
            return p[:-1] + (region(x[0] + y[0], x[2] + y[2], h, w),)
        if comp[0] == '+':
            return p[:-1] + (region(x[0] + y[0], x[2], None if x[1] is None else x[1] - x[0] - y[0], 1),)
        if x[3] is not None and x[3] - x[2] == 1 or ',' in comp:
            return p[:-1] + (region(x[0] + y[0], x[2] + y[2], 1, 1),)
        if x[1] is not None and x[1] - x[0] == 1:      # linear index into a row
            return p[:-1] + (region(x[0], x[2] + y[0], 1, 1),)
        return p[:-1] + (region(x[0] + y[0], x[2], 1, 1),)
    if p and p[-1][0] == '+' and comp[0] == '@' and p[-1] != '+?':
        y = span(comp)
        return p[:-1] + (region(int(p[-1][1:]) + y[0], y[2], None if y[1] is None else y[1] - y[0], 1),)
    if p and p[-1].startswith('+'):
        if p[-1] == '+?' or comp == '[]' or ',' in comp:
            return p[:-1] + ('[]',)
        return p[:-1] + ('[%d]' % (int(p[-1][1:]) + int(comp[1:-1])),)
    if p and p[-1] == '[]' and comp == '[]':
        return p
    return p + (comp,)


_dims = {}


def targs(r):
    """top-level template arguments of a printed record name"""
    i = r.find('<')
    if i < 0 or not r.endswith('>'):
        return []
    out, d, cur = [], 0, ''
    for ch in r[i + 1:-1]:
        if ch in '<(':
            d += 1
        elif ch in '>)':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    out.append(cur.strip())
    return out


def dims(r):
    """(rows, cols) of an Eigen type by its printed record name; None where dynamic or unknown"""
    if r in _dims:
        return _dims[r]
    _dims[r] = (None, None)
    r0 = r[6:] if r.startswith('const ') else r
    a = targs(r0)
    head = r0.split('<')[0]
    num = lambda x: int(x) if x.lstrip('-').isdigit() and int(x) >= 0 else None
    v = (None, None)
    if head in ('Eigen::Matrix', 'Eigen::Array') and len(a) >= 3:
        v = (num(a[1]), num(a[2]))
    elif head in ('Eigen::Map', 'Eigen::Ref', 'Eigen::NoAlias', 'Eigen::ArrayWrapper', 'Eigen::MatrixWrapper') and a:
        v = dims(a[0])
    elif head == 'Eigen::Transpose' and a:
        v = dims(a[0])[::-1]
    elif head == 'Eigen::Block' and a:
        v = (num(a[1]) if len(a) > 1 else None, num(a[2]) if len(a) > 2 else None)
    elif head == 'Eigen::VectorBlock' and a:
        k = num(a[1]) if len(a) > 1 else None
        v = (1, k) if dims(a[0])[0] == 1 and dims(a[0])[1] != 1 else (k, 1)
    elif head == 'Eigen::Diagonal' and a:
        v = (dims(a[0])[0], 1)
    _dims[r] = v
    return v


def addoff(p, k):
    if p and p[-1][0] == '@':
        return p[:-1] + ('+?',)
    if k is None:
        if p and p[-1].startswith('+'):
            return p[:-1] + ('+?',)
        return p + ('+?',)
    if p and p[-1].startswith('+'):
        if p[-1] == '+?':
            return p
        return p[:-1] + ('+%d' % (int(p[-1][1:]) + k),)
    if p and p[-1].startswith('[') and p[-1] not in ('[]',) and ',' not in p[-1]:
        return p[:-1] + ('+%d' % (int(p[-1][1:-1]) + k),)
    return p + ('+%d' % k,)


def is_smart_call(n):
    d = n.d
    t = n.c[0].type if n.c and n.c[0] is not None else None
    if t is None:
        return False
    r = t.rp or ''
    if any(h in r for h in ('shared_ptr', 'unique_ptr', 'weak_ptr', 'scoped_ptr', 'iterator')):
        return d.get('n') not in ('reset', 'swap', 'operator=')
    return False


def fold(op, a, b):
    try:
        if isinstance(a, str) or isinstance(b, str):
            return UNK
        if op == '+':
            return a + b
        if op == '-':
            return a - b
        if op == '*':
            return a * b
        if op == '/' and b:
            return a // b if isinstance(a, int) and isinstance(b, int) else a / b
        if op == '%' and b:
            return a % b
        if op == '==':
            return a == b
        if op == '!=':
            return a != b
        if op == '<':
            return a < b
        if op == '>':
            return a > b
        if op == '<=':
            return a <= b
        if op == '>=':
            return a >= b
        if op == '&':
            return a & b
        if op == '|':
            return a | b
        if op == '<<':
            return a << b
        if op == '>>':
            return a >> b
    except Exception:
        pass
    return UNK
