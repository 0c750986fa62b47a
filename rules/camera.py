"""Camera models: order of the parameters, freshness of derived constants."""
import facts
from engine import Engine, State, Val, Lin, fs, pstr, overlaps, EMPTY, UNK, lin, span
from dv import DvEngine, joined, short, is_in, toks

PART = (('update', 1), ('minimalDimensions', 0), ('parameterSize', 0), ('getParameters', 1), ('setParameters', 1))
COMP = (('update', 4), ('minimalDimensions', 3), ('getParameters', 4), ('setParameters', 4))


def parts(prog):
    return [c for c in sorted(prog.classes.values(), key=lambda c: c.fq)
            if c.q.startswith('aslam::cameras::') and all(prog.method(c.fq, m, k) for m, k in PART)]


def composites(prog):
    return [c for c in sorted(prog.classes.values(), key=lambda c: c.fq)
            if c.q.startswith('aslam::cameras::') and not c.abstract and all(prog.method(c.fq, m, k) for m, k in COMP)]


def arg(i):
    return Val(fs(('in', ('arg%d' % i,))), fs(('arg%d' % i,)))


def index(p):
    """k of an element path root[k]"""
    if len(p) == 2 and p[1][0] == '[' and p[1][1:-1].isdigit():
        return int(p[1][1:-1])
    if len(p) == 2 and p[1][0] == '@':
        r = span(p[1])
        if r and r[1] is not None and r[1] - r[0] == 1:
            return r[0]
    if len(p) == 1:
        return 0
    return None


class CamEngine(DvEngine):
    max_depth = 16
    max_states = 8


class Layout:
    """index -> member for stepping, reading and setting one parameter vector"""

    def __init__(self, prog, c, ctx, flags=None):
        self.eng = e = CamEngine(prog)
        self.bad = []
        fl = [Val(const=f) for f in flags] if flags else []
        np = 4 if flags else 1
        self.U, self.G, self.S = {}, {}, {}
        self.fn = {m: prog.method(c.fq, m, np) for m in ('update', 'getParameters', 'setParameters')}
        self.n = self.value(prog, c, 'minimalDimensions', fl)
        self.size = None
        if not flags:
            f = prog.method(c.fq, 'parameterSize', 0)
            res, _ = e.run(f, dyn=c.fq)
            s, v = res[0]
            if len(res) == 1 and v is not None and len(v.paths) == 1:
                p = next(iter(v.paths))
                self.size = tuple(s.const_of(p + ('[%d]' % i,)) for i in (0, 1))
        # step
        st = self.run(e, c, 'update', [arg(0)] + fl)
        self.ust = st
        self.derived = []
        for k in st.store:
            if k[0] != 'this':
                continue
            x = st.eq_of(k)
            if isinstance(x, Lin):
                a = [p for p, _ in x.t if p[0] == 'arg0']
                if len(a) == 1 and x == Lin(fs((k, 1), (a[0], 1)), 0) and index(a[0]) is not None:
                    self.put(self.U, index(a[0]), k, 'update')
                    continue
            if any(is_in(t, ('arg0',)) for t in st.store[k]) and any(is_in(t, k) for t in st.store[k]):
                self.bad.append(('update', k, 'update does not add one entry of the step to the member %s (it depends on {%s})'
                                 % (pstr(k[1:]), toks(st.store[k]))))
            elif any(is_in(t, ('arg0',)) for t in st.store[k]):
                self.derived.append(k)
        # read
        st = self.run(e, c, 'getParameters', [arg(0)] + fl)
        self.gst = st
        for k in st.store:
            if k[0] != 'arg0' or len(k) != 2 or not st.store[k] and st.eq_of(k) is None:
                continue
            i = index(k)
            x = st.eq_of(k)
            if k[1][0] == '@' and i is None:
                r = span(k[1])
                if r and None not in r and all(el('arg0', a, b) in st.store for a in range(r[0], r[1]) for b in range(r[2], r[3])):
                    continue
            if i is None or x is None or isinstance(x, Lin) or x[0] != 'this':
                self.bad.append(('getParameters', k, 'getParameters does not copy one member to entry %s (it depends on {%s})' % (pstr(k[1:]), toks(st.store[k]))))
            else:
                self.put(self.G, i, x, 'getParameters')
        # set
        st = self.run(e, c, 'setParameters', [arg(0)] + fl)
        for k in st.store:
            if k[0] != 'this' or k in self.derived:
                continue
            x = st.eq_of(k)
            if x is not None and not isinstance(x, Lin) and x[0] == 'arg0' and index(x) is not None:
                self.put(self.S, index(x), k, 'setParameters')
            elif any(is_in(t, ('arg0',)) for t in st.store[k]):
                self.bad.append(('setParameters', k, 'setParameters does not copy one entry to the member %s (it depends on {%s})' % (pstr(k[1:]), toks(st.store[k]))))
        ctx.fns |= e.analysed

    def put(self, m, i, k, what):
        if i in m and m[i] != k:
            self.bad.append((what, k, '%s uses entry %d for both %s and %s' % (what, i, pstr(m[i][1:]), pstr(k[1:]))))
        m[i] = k

    def run(self, e, c, m, args):
        res, _ = e.run(self.fn[m], dyn=c.fq, args=args)
        if not res:
            raise facts.AnalysisBroken('%s::%s never returns' % (c.fq, m))
        return joined(res)

    def value(self, prog, c, m, args):
        f = prog.method(c.fq, m, len(args))
        res, _ = self.eng.run(f, dyn=c.fq, args=args)
        vs = {v.const for s, v in res if v is not None}
        return next(iter(vs)) if len(vs) == 1 else UNK


def fld(k):
    return pstr(k[1:])


def check_layout(ctx, L, c, name, what):
    ctx.count('parameter vectors')
    f = L.fn['update']
    if name + '.layout' in ctx.settled:
        ctx.count('parameter vectors settled by value')
        return size(ctx, L, c, name, what)
    for m, k, msg in L.bad:
        ctx.violate('entry-is-one-member', '%s.%s.%s' % (name, m, pstr(k[1:])), L.fn[m].where(), '%s: %s' % (what, msg))
    if L.n is UNK:
        raise facts.AnalysisBroken('minimalDimensions of %s is not a constant' % what)
    idx = set(range(L.n))
    for m, M in (('update', L.U), ('getParameters', L.G), ('setParameters', L.S)):
        ctx.count('obligations')
        if set(M) != idx:
            ctx.violate('dimension', '%s.%s' % (name, m), L.fn[m].where(),
                        '%s has %d parameters by minimalDimensions(), but %s uses the entries {%s}'
                        % (what, L.n, m, ', '.join(map(str, sorted(M)))))
        if len(set(M.values())) != len(M):
            ctx.violate('distinct', '%s.%s' % (name, m), L.fn[m].where(), '%s: %s uses one member for two entries' % (what, m))
    for i in sorted(set(L.U) & set(L.G) | set(L.U) & set(L.S) | set(L.G) & set(L.S)):
        ctx.count('obligations')
        got = {m: M.get(i) for m, M in (('update', L.U), ('getParameters', L.G), ('setParameters', L.S)) if i in M}
        if len(set(got.values())) > 1:
            ctx.violate('same-meaning', '%s.%d' % (name, i), f.where(),
                        '%s: entry %d means %s' % (what, i, ', '.join('%s in %s' % (fld(k), m) for m, k in got.items())))
    size(ctx, L, c, name, what)


def size(ctx, L, c, name, what):
    if L.size is not None and L.n is not UNK:
        ctx.count('obligations')
        want = (L.n, 1)
        if L.n and UNK not in L.size and L.size != want:
            ctx.violate('size', name, c.file, '%s: parameterSize() is %dx%d for %d parameters' % (what, L.size[0], L.size[1], L.n))
        if not L.n and UNK not in L.size and L.size[0] * L.size[1]:
            ctx.violate('size', name, c.file, '%s: parameterSize() is %dx%d for no parameters' % (what, L.size[0], L.size[1]))


def const_zero(st, p):
    """is the element p known to be the constant 0?"""
    near = None
    for k in st.store:
        if k == p or not overlaps(k, p):
            continue
        if len(k) < len(p):
            if near is None or len(k) > len(near):
                near = k
            continue
        if st.consts.get(k, UNK) != 0 or st.consts.get(k) is UNK:
            return False
    if p in st.consts:
        return st.consts[p] == 0
    if p in st.store:
        return False
    # a covering region written to zero?
    for k in st.store:
        if k != p and len(k) == len(p) and overlaps(k, p):
            return st.consts.get(k) == 0
    return near is not None and st.consts.get(near, UNK) is not UNK and st.consts[near] == 0


def el(root, r, c):
    return (root, '[%d]' % r if c == 0 else '[%d,%d]' % (r, c))


def jacobian(ctx, prog, c, name, L, proj, jac, pargs, jargs, rows, root, jroot, what):
    """an output that depends on a parameter has a Jacobian entry that is not constantly 0, and conversely"""
    e = CamEngine(prog)
    res, _ = e.run(proj, dyn=c.fq, args=pargs)
    st = joined([(s, v) for s, v in res if not (v is not None and v.const is False)] or res)
    val = joined_val(res)
    resj, _ = e.run(jac, dyn=c.fq, args=jargs)
    ctx.fns |= e.analysed
    if not resj:
        ctx.count('Jacobians that always throw (not implemented)')
        return
    sj = joined(resj)
    for r in range(rows):
        deps = st.read((root, '[%d]' % r)) if root else val.deps
        for i, k in sorted(L.G.items()):
            ctx.count('Jacobian entries')
            dep = any(t == ('in', k) for t in deps) or any(t[0] == 'in' and t[1] in derived_from(L, k) for t in deps)
            z = const_zero(sj, el(jroot, r, i))
            if dep and z:
                ctx.violate('jacobian-covers', '%s.%s.%d.%d' % (name, jac.n, r, i), jac.where(),
                            '%s: output %d of %s depends on parameter %d (%s) but entry (%d,%d) of %s is constantly 0'
                            % (what, r, proj.n, i, fld(k), r, i, jac.n))
            if not dep and not z:
                v = sj.read(el(jroot, r, i))
                cst = sj.const_of(el(jroot, r, i))
                if el(jroot, r, i) in sj.store:
                    ctx.violate('jacobian-covers', '%s.%s.%d.%d' % (name, jac.n, r, i), jac.where(),
                                '%s: output %d of %s does not depend on parameter %d (%s) but entry (%d,%d) of %s is not 0'
                                % (what, r, proj.n, i, fld(k), r, i, jac.n))


def joined_val(res):
    v = Val()
    for s, x in res:
        if x is not None:
            v = Val(v.deps | x.deps)
    return v


def derived_from(L, k):
    """derived members that change with member k"""
    return [d for d in L.derived if any(is_in(t, k) for t in L.ust.store[d])]


def layout(ctx):
    prog = facts.load('cameras')
    ctx.rule('For every projection, distortion and shutter class, and for every camera built of them and every choice of '
             'estimated parts: the affine effect of update(v) (member += v[k]), the copies made by getParameters (P[k] = member) '
             'and by setParameters (member = P[k]) must form one and the same bijection between 0..minimalDimensions()-1 and members, '
             'parameterSize() must be minimalDimensions() x 1, the composite must be the concatenation of its parts, and entry (r,k) of '
             'every intrinsics Jacobian may be constantly zero exactly if output r does not depend on parameter k.')
    lay = {}
    for c in parts(prog):
        name = short(c.fq)
        L = Layout(prog, c, ctx)
        lay[c.fq] = L
        check_layout(ctx, L, c, name, name)
        ctx.sample('%s: %s' % (name, ', '.join('%d=%s' % (i, fld(k)) for i, k in sorted(L.G.items()))))
        # Jacobians of the part itself
        for pm, jm in (('euclideanToKeypoint', 'euclideanToKeypointIntrinsicsJacobian'),
                       ('homogeneousToKeypoint', 'homogeneousToKeypointIntrinsicsJacobian')):
            P = [f for f in members(prog, c, pm) if len(f.params) == 2]
            J = [f for f in members(prog, c, jm) if len(f.params) == 2]
            if P and J:
                for j in J:
                    jacobian(ctx, prog, c, name, L, P[0], j, [arg(0), arg(1)], [arg(0), arg(1)], 2, 'arg1', 'arg1', name)
    ctx.at_least('parameter vectors', 10)
    flags = [(a, b, s) for a in (False, True) for b in (False, True) for s in (False, True)]
    for c in composites(prog):
        name = short(c.fq)
        singles = {}
        for fl in flags:
            what = '%s(%s)' % (name, ','.join(w for w, f in zip(('projection', 'distortion', 'shutter'), fl) if f) or 'nothing')
            L = Layout(prog, c, ctx, fl)
            check_layout(ctx, L, c, '%s.%d%d%d' % ((name,) + tuple(map(int, fl))), what)
            if sum(fl) == 1:
                singles[fl.index(True)] = L
            singles.setdefault('all', {})[fl] = L
            # Jacobians
            tail = [Val(const=f) for f in fl]
            for pm, jm, root in (('vsEuclideanToKeypoint', 'euclideanToKeypointIntrinsicsJacobian', 'arg1'),
                                 ('vsHomogeneousToKeypoint', 'homogeneousToKeypointIntrinsicsJacobian', 'arg1'),
                                 ('vsTemporalOffset', 'temporalOffsetIntrinsicsJacobian', None)):
                P = prog.method(c.fq, pm, 2 if root else 1)
                J = prog.method(c.fq, jm, 5)
                ctx.need(P and J, '%s / %s of %s have no body' % (pm, jm, name))
                jacobian(ctx, prog, c, '%s.%d%d%d' % ((name,) + tuple(map(int, fl))), L, P, J, [arg(0), arg(1)],
                         [arg(0), arg(1)] + tail, 2 if root else 1, root, 'arg1', what)
        # concatenation: the same part sits at the same place relative to its start
        for fl, L in singles['all'].items():
            off = 0
            if '%s.%d%d%d.layout' % ((name,) + tuple(map(int, fl))) in ctx.settled:
                continue
            for i in range(3):
                if not fl[i]:
                    continue
                one = singles[i]
                for k, m in one.G.items():
                    ctx.count('obligations')
                    if L.G.get(off + k) != m:
                        ctx.violate('concatenation', '%s.%d%d%d' % ((name,) + tuple(map(int, fl))), L.fn['getParameters'].where(),
                                    '%s: parameter %d of part %d is not entry %d of the stacked vector' % (name, k, i, off + k))
                if one.n is not UNK:
                    off += one.n
    ctx.at_least('parameter vectors', 10 + 3 * 8)
    ctx.at_least('Jacobian entries', 100)


def members(prog, c, name):
    """instantiated member functions (also templates) of class c"""
    return sorted([f for f in prog.functions() if f.fcls == c.fq and f.n == name], key=lambda f: (f.line, f.fq))
