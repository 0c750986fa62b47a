"""Error terms: their variables, their weighting and what reaches the optimiser."""
import facts
import errval
import terms
from engine import dims, State, Val, fs, pstr, EMPTY
from dv import DvEngine, short, is_in
from nodes import NodeEngine, top, derivative, contains

ET = 'aslam::backend::ErrorTerm'
JAC = 'aslam::backend::JacobianContainer'
REG = ('setDesignVariables', 'setDesignVariablesIterator')


def member_alias(st, p):
    """members that are plain copies of the argument path p"""
    out = set()
    for q, d in st.store.items():
        if q[0] == 'this' and len(q) == 2 and d and all(is_in(t, p) for t in d):
            out.add(q[1])
    return out


class ErrEngine(NodeEngine):
    def call_hook(self, st, n, recv, args):
        nm = n.get('n')
        if nm == 'getDesignVariables' and args and recv is not None and args[0].paths:
            for p in recv.paths:
                if len(p) > 1 or p[0] != 'this':
                    if p[0][0] == 'L':      # a parameter taken by value
                        src = {t[1] for t in st.read(p) if t[0] == 'in' and t[1][0].startswith('arg')}
                        if len(src) == 1:
                            p, = src
                        elif src:           # a local that was computed: known by what it was computed from
                            p = ('computed', frozenset(st.read(p)))
                    for q in args[0].paths:
                        st.store[q] = st.read(q) | fs(('var', p))
            return [(st, Val())]
        if nm in REG and n.get('fcls') == ET or (nm in REG and (n.get('q') or '').startswith(ET)):
            d = frozenset()
            for a in args:
                d |= a.deps | (self.deref(st, a.paths) if a.paths else EMPTY)
            self.ev_add(st, ('set', d))
            return [(st, Val())]
        if nm in ('setInvR', 'setSqrtInvR', 'vsSetInvR') and 'ErrorTerm' in (n.get('q') or ''):
            d = args[0].deps | (self.deref(st, args[0].paths) if args[0].paths else EMPTY)
            self.ev_add(st, ('invR', frozenset(d)))
            return [(st, Val())]
        if nm == 'setError' and 'ErrorTerm' in (n.get('q') or ''):
            d = args[0].deps | (self.deref(st, args[0].paths) if args[0].paths else EMPTY)
            self.ev_add(st, ('error', frozenset(d)))
            st.store[('this', '_error')] = frozenset(d)
            return [(st, Val())]
        if nm in ErrTerms.PROJ and len(args) >= 2 and recv is not None:
            d = recv.deps | args[0].deps
            for a in [recv] + args[:1]:
                d |= self.deref(st, a.paths) if a.paths else EMPTY
            for a in args[1:]:
                for q in a.paths:
                    st.store[q] = frozenset(d)
            return [(st, Val(d))]
        if nm in ('minimalDifference', 'minimalDifferenceAndJacobian') and recv is not None:
            for p in recv.paths:
                self.ev_add(st, ('val', p))
            for a in args[1:]:
                for q in a.paths:
                    st.store[q] = frozenset(('val', p) for p in recv.paths)
            return [(st, Val())]
        return super().call_hook(st, n, recv, args)


def subjects(prog):
    for c in sorted(prog.subclasses(ET), key=lambda c: c.fq):
        if c.abstract or '/test/' in c.file:
            continue
        yield c


def base_member(p):
    """the member of *this that a path goes through, container elements included"""
    return top(p)


class ErrTerms(terms.Terms):
    """terms with transposes pushed into products and projections as uninterpreted functions"""
    PROJ = ('homogeneousToKeypoint', 'euclideanToKeypoint', 'vsHomogeneousToKeypoint', 'vsEuclideanToKeypoint')

    def tr(self, t, scalar=False):
        if t is None:
            return None
        if t[0] == 'sum':
            a = [self.tr(x) for x in t[1]]
            return None if None in a else ('sum', tuple(sorted(a, key=repr)))
        t = terms.as_prod(t, scalar)
        m = tuple(x[2] if x[:2] == ('op', 'T') else ('op', 'T', x) for x in reversed(t[3]))
        return t[:3] + (m,)

    def on_call(self, n, recv, args):
        nm = n.get('n')
        if nm in ('transpose', 'adjoint') and n.get('obj'):
            return self.tr(recv)
        if nm == 'dot' and n.get('obj') and len(args) == 1:
            return terms.mul(self.tr(recv), False, args[0], False)
        if nm == 'squaredNorm' and n.get('obj'):
            return terms.mul(self.tr(recv), False, recv, False)
        if nm in self.PROJ and n.get('obj') and len(args) >= 2:
            v = None if terms.has_none(recv) or terms.has_none(args[0]) else ('op', 'proj', recv, terms.simp(args[0]))
            self.store(n.c[2], v)
            if len(args) > 2:
                self.store(n.c[3], None if v is None else ('op', 'projJ') + v[2:])
            return terms.sym('valid')
        if nm == 'setError':
            self.mem[('this', '_error')] = args[0] if args else None
            self.events.append((self.ctx, 'error', None if args is None else args[0]))
            return terms.sym('void')
        if nm in ('setInvR', 'setSqrtInvR') and self.opaque_invR:
            self.mem[('this', '_sqrtInvR')] = ('op', 'newS', args[0] if args else None)
            return terms.sym('void')
        if nm == 'evaluateJacobians' and n.get('obj') and recv != ('loc', ('this',)):
            if len(args) == 2 and n.c[2].type.r.find('Matrix<double, 4, 1') >= 0:
                self.events.append((self.ctx, recv, ('camera', args[1])))
                return terms.sym('void')
            m = ('prod', 1.0, (), ()) if len(args) < 2 else args[1]
            self.events.append((self.ctx, recv, terms.as_prod(m, False)))
            return terms.sym('void')
        if nm == 'add' and (n.get('q') or '').startswith(JAC):
            m = args[1] if len(args) > 1 else ('prod', 1.0, (), ())
            self.events.append((self.ctx, args[0] if args else None, terms.as_prod(m, False)))
            return terms.sym('void')
        if nm in ('block', 'segment', 'middleCols', 'leftCols', 'rightCols') and n.get('obj') and recv is not None and None in args:
            return ('op', 'call', nm, '?', recv)
        if nm in ('minimalDifferenceAndJacobian', 'minimalDifference') and n.get('obj') and len(args) >= 2:
            for i, x in enumerate(n.c[2:]):
                self.store(x, ('op', 'difference', i, recv))
            return terms.sym('void')
        if nm in ('toEuclidean', 'toTransformationMatrix', 'toHomogeneous', 'toScalar', 'toRotationMatrix', 'evaluate', 'toVector') and n.get('obj') and \
                recv is not None and recv[0] == 'loc' and recv != ('loc', ('this',)):
            return ('op', 'value', recv)
        return NotImplemented
    opaque_invR = True

    def call(self, fn, this, args):
        r = super().call(fn, this, args)
        if r is None and this == ('this',) and not args and fn.d.get('n'):
            return terms.sym('result', fn.n)        # a deterministic function of the object
        return r


def dneg(t):
    return t[:1] + (-t[1],) + t[2:]


def derivative_of_error(e, x):
    """derivative of the error by the value x of an expression, including through a projection"""
    d = derivative(e, x, False)
    if d is not None:
        return [('prod', p[1], p[2], p[3]) for p in d]
    if e[0] != 'sum':
        e = ('sum', (terms.as_prod(e, False),))
    out = []
    for p in e[1]:
        p = terms.as_prod(p, False)
        if not contains(p, x):
            continue
        c, S, M = p[1:]
        if contains(S, x) or len(M) == 0 or any(contains(m, x) for m in M[:-1]):
            return None
        f = M[-1]
        if f == x:
            out.append(('prod', c, S, M[:-1]))
        elif f[:2] == ('op', 'proj') and f[3] == x:
            out.append(('prod', c, S, M[:-1] + (('op', 'projJ') + f[2:],)))
        else:
            return None
    return out


def may_hold(prog, c, m):
    """may the member be, hold or point to something with design variables?"""
    for b in prog.bases(c.fq):
        k = prog.classes.get(b)
        for f in k.fields if k else ():
            if f['n'] == m:
                return any(x in (k.ftype(f).r or '') + (k.ftype(f).s or '') for x in ('DesignVariable', 'Expression', 'Node', 'Spline'))
    return True


def error_terms(ctx):
    prog = facts.load('backend', 'expr', 'splines', 'cvbackend', 'kalibrcpp', 'kinematics')
    ctx.rule('For every concrete error term: on every path of every constructor the design variables registered are those of exactly the '
             'expressions (and variables) that the Jacobian function hands a contribution to, and these include every expression the error '
             'is computed from; the error weight is set; on every path the error function stores an error computed from those expressions '
             'and returns the stored error\'s square under the stored weight; where the error is linear in the value of an expression, or a '
             'projection of it, the Jacobian handed over is its derivative, sign included. The camera design variable pairs each of its '
             'parts with the Jacobian of that part. value: error terms made of expressions have the error their documentation states (prediction minus '
             'measurement; the prediction of an accelerometer or gyroscope from the motion), for all values of their operands, and Jacobians that are its derivative; errors of image points have the measurement (as given, or as replaced since) '
             'minus the projection of the point, the weight given, minus the Jacobian of the projection, and the camera differentiated at that point.')
    for c in subjects(prog):
        term(ctx, prog, c)
    for c in sorted(prog.classes.values(), key=lambda c: c.fq):
        if c.fq.startswith('aslam::backend::CameraDesignVariable<'):
            camera(ctx, prog, c)
    errval.values(ctx, prog)
    ctx.at_least('error terms', 8)
    ctx.at_least('constructors', 8)


def term(ctx, prog, c):
    name = short(c.fq)
    ev = prog.method(c.fq, 'evaluateErrorImplementation', 0)
    ja = prog.method(c.fq, 'evaluateJacobiansImplementation', 1)
    if ev is None or ja is None:
        return
    ctx.count('error terms')
    e = ErrEngine(prog)
    e.assume_loops_run = True
    err, _ = e.run(ev, dyn=c.fq, st=State(frozenset()))
    jac, _ = e.run(ja, dyn=c.fq, st=State(frozenset()))
    if not jac:         # the Jacobian function never returns: the term builds its own Hessian
        ctx.count('error terms without Jacobians')
        return
    def members(res, kind):
        return [frozenset(base_member(x[1]) for x in s.ts if x[0] == kind) for s, v in res]
    vals = members(err, 'val')
    jacs = members(jac, 'jac')
    cams = set()
    for s, v in jac:        # contributions of a camera are recorded on its parts
        for x in s.ts:
            if x[0] == 'jac' and len(x[1]) > 2:
                cams.add(x[1][1])
    used = frozenset().union(*vals) if vals else frozenset()
    optional = {m for m in frozenset().union(*jacs) if not all(m in j for j in jacs)} if jacs else set()
    for j in jacs:
        for m in sorted(used):
            ctx.count('expressions')
            if m not in j and m not in optional:
                ctx.violate('jacobian', '%s.%s' % (name, m), ja.where(),
                            '%s: on some path no Jacobian is handed to %s, although the error depends on it' % (name, m))
    given = (frozenset().union(*jacs) if jacs else frozenset()) | used
    # constructors
    registered_somewhere = False
    for f in prog.functions():
        if f.kind != 'ctor' or f.fcls != c.fq or f.d.get('implicit') or (len(f.params) == 1 and f.ptype(0).r == c.fq):
            continue
        if not f.params and (f.body is None or not f.body.c):
            continue
        res, _ = e.run(f, dyn=c.fq, st=State(frozenset()))
        if not res:
            continue
        ctx.count('constructors')
        for s, v in res:
            reg, unknown = set(), False
            sets = [x for x in s.ts if x[0] == 'set']
            for x in sets:
                for t in x[1]:
                    if t[0] == 'var':
                        p = t[1]
                        if p[0] == 'this':
                            reg.add(base_member(p))
                        elif p[0] == 'computed':
                            reg |= {q[1] for q, d in s.store.items() if q[0] == 'this' and len(q) == 2 and d == p[1]}
                        else:
                            a = member_alias(s, p)
                            reg |= a or {pstr(p)}
                    elif t[0] == 'in' and t[1][0].startswith('arg'):
                        reg |= member_alias(s, t[1])
            for m in sorted(given):
                ctx.count('obligations')
                if m not in reg:
                    ctx.violate('registered', '%s.%s' % (name, m), f.where(),
                                '%s: on some path the constructor does not register the design variables of %s' % (name, m))
            for m in sorted(x for x in reg - given if may_hold(prog, c, x)):
                ctx.violate('registered-unused', '%s.%s' % (name, m), f.where(),
                            '%s: the constructor registers the design variables of %s, which never gets a Jacobian' % (name, m))
            w = [x for x in s.ts if x[0] == 'invR'] or [x for s2, _ in err for x in s2.ts if x[0] == 'invR']
            if not w:
                ctx.violate('weight-set', name, f.where(), '%s: on some path the constructor leaves the error weight unset' % name)
            for i, q in enumerate(f.params):
                t = f.ptype(i)
                dd = dims(t.r)
                if (t.b == 'float' or (dd[0] is not None and dd[0] == dd[1] > 1)) and q.get('n') and any(x[0] == 'invR' for x in s.ts):
                    ctx.count('weight parameters')
                    if not any(is_in(t2, ('arg%d' % i,)) for x in w for t2 in x[1]):
                        ctx.violate('weight-used', '%s.%s' % (name, q['n']), f.where(),
                                    '%s: the parameter %s of the constructor does not reach the error weight' % (name, q['n']))
    # error set on every path, from the expressions used, and returned
    for s, v in err:
        es = [x for x in s.ts if x[0] == 'error']
        ctx.count('paths through error functions')
        if not es:
            ctx.violate('error-set', name, ev.where(), '%s: on some path the error function does not store the error' % name)
            continue
        want = {base_member(x[1]) for x in s.ts if x[0] == 'val'}
        d = set().union(*[x[1] for x in es])
        have = {base_member(t[1]) for t in d if t[0] in ('val', 'in') and t[1][0] == 'this'}
        for m in sorted(want - have):
            ctx.violate('error-uses', '%s.%s' % (name, m), ev.where(),
                        '%s: the value of %s does not reach the error that is stored' % (name, m))
        r = v.deps
        if not any(t[0] == 'in' and t[1][:2] == ('this', '_sqrtInvR') for t in r) and not any(x[0] == 'invR' for x in s.ts):
            ctx.violate('error-weighted', name, ev.where(), '%s: the squared error that is returned does not depend on the error weight' % name)
    t = ErrTerms(prog)
    r = t.run(ev, dyn=c.fq)
    errs = [x for x in t.events if x[1] == 'error']
    mem = t.mem
    if len(errs) == 1 and not errs[0][0]:
        E = errs[0][2]
        S = mem.get(('this', '_sqrtInvR'), ('loc', ('this', '_sqrtInvR')))
        if not terms.has_none(E) and not terms.has_none(r) and not terms.has_none(S) and S[0] == 'loc':
            sv = terms.mul(t.tr(('prod', 1.0, (), (S,))), False, E, False)
            if E[0] == 'sum':       # the sum is one factor
                sv = ('prod', 1.0, (), (('op', 'T', S), E))
            want = terms.mul(t.tr(sv), False, sv, False)
            ctx.count('squared errors')
            if canon(t, r) != canon(t, want):
                ctx.violate('squared-error', name, ev.where(),
                            '%s: the squared error returned is not the weighted square of the stored error' % name)
        if not terms.has_none(E):
            j = ErrTerms(prog)
            j.run(ja, dyn=c.fq)
            parts = [terms.as_prod(q, False) for q in (E[1] if E[0] == 'sum' else (E,))]
            if len(parts) == 2 and all(abs(q[1]) == 1 and not q[2] for q in parts) and any(find_ops(q, 'value') or find_res(q) for q in parts):
                ctx.count('differences')
                if parts[0][1] == parts[1][1]:
                    ctx.violate('difference', name, ev.where(), '%s: the error is a sum, not a difference, of what is predicted and what '
                                'was measured' % name)
            signs = {}
            for q in parts:
                for m in q[3]:
                    if m[0] == 'loc' and m[1][0] == 'this':
                        signs[m] = q[1]
            by = {}
            for cx, p, m in j.events:
                if m is not None and m[0] == 'prod' and m[3] and find_res(E):
                    blk = m[3][0]
                    while isinstance(blk, tuple) and blk[:2] == ('op', 'call'):
                        blk = blk[4] if len(blk) > 4 else None
                    if blk in signs:
                        ctx.count('derivatives')
                        if signs[blk] * m[1] < 0:
                            ctx.violate('derivative', '%s.%s' % (name, pstr(blk[1])), ja.where(),
                                        '%s: the Jacobian has the opposite sign of the error in what is multiplied by %s' % (name, pstr(blk[1])))
                by.setdefault(p, []).append((cx, m))
            for p, ms in sorted(by.items(), key=repr):
                if p is None or p[0] != 'loc' or terms.has_none(tuple(ms)):
                    continue
                if any(isinstance(m[1], tuple) and m[1] and m[1][0] == 'camera' for m in ms):
                    px = {x[3] for x in find_ops(E, 'proj')}
                    sg = {terms.as_prod(q, False)[1] for q in (E[1] if E[0] == 'sum' else (E,)) if find_ops(q, 'proj')}
                    for cx, m in ms:
                        ctx.count('derivatives')
                        if not cx and not terms.has_none(m[1]) and px and (px != {terms.simp(m[1])} or sg != {-1.0}):
                            ctx.violate('derivative', '%s.%s' % (name, pstr(p[1])), ja.where(),
                                        '%s: the camera differentiates minus the projection of another point than the error projects' % name)
                    continue
                x = ('op', 'value', p)
                if not contains(E, x):
                    continue
                d = derivative_of_error(E, x)
                if d is None and all(m == ('prod', 1.0, (), ()) for cx, m in ms):
                    ctx.violate('derivative', '%s.%s' % (name, pstr(p[1])), ja.where(),
                                '%s: %s is handed an identity Jacobian although the error is a nonlinear function of its value'
                                % (name, pstr(p[1])))
                if d is None or any(cx for cx, m in ms):
                    ctx.count('derivatives not decided')
                    continue
                ctx.count('derivatives')
                a = sorted(repr(terms.as_prod(q, False)) for q in d)
                b = sorted(repr(m) for cx, m in ms)
                if a != b:
                    ctx.violate('derivative', '%s.%s' % (name, pstr(p[1])), ja.where(),
                                '%s: the Jacobian handed to %s is not the derivative of the error: expected %s, found %s'
                                % (name, pstr(p[1]), a, b))
    ctx.fns |= e.analysed
    ctx.sample('%s: variables of {%s}' % (name, ', '.join(sorted(given))))


def find_res(t):
    return isinstance(t, tuple) and (t[:2] == ('sym', 'result') or any(find_res(x) for x in t))


def find_ops(t, op):
    out = []
    if isinstance(t, tuple):
        if t[:2] == ('op', op):
            out.append(t)
        for x in t:
            out += find_ops(x, op)
    return out


def canon(t, x):
    """flatten T(sum) factors consistently"""
    def go(y):
        if not isinstance(y, tuple) or not y:
            return y
        if y[:2] == ('op', 'T') and isinstance(y[2], tuple) and y[2][0] == 'sum':
            return go(t.tr(y[2]))
        if y[0] == 'sum':
            return ('sum', tuple(sorted((go(z) for z in y[1]), key=repr)))
        return tuple(go(z) for z in y)
    return go(x)


# -------------------------------------------------------------- cameras
PARTS = {'_projectionDv': 'Intrinsics', '_distortionDv': 'Distortion', '_shutterDv': 'Shutter'}


class CamTerms(ErrTerms):
    def on_call(self, n, recv, args):
        nm = n.get('n') or ''
        if nm.startswith('homogeneousToKeypoint') and nm.endswith('Jacobian') and len(args) == 2:
            self.store(n.c[2], ('op', 'J', nm, terms.simp(args[0])))
            return terms.sym('void')
        if nm == 'isActive' and recv is not None:
            return ('op', 'active', recv)
        return super().on_call(n, recv, args)


def camera(ctx, prog, c):
    name = short(c.fq)
    f = prog.method(c.fq, 'evaluateJacobians', 2)
    g = prog.method(c.fq, 'getDesignVariables', 1)
    if f is None or g is None:
        return
    ctx.count('camera design variables')
    t = CamTerms(prog)
    t.run(f, dyn=c.fq)
    seen = {}
    for cx, p, m in t.events:
        if p is None or p[0] != 'loc' or terms.has_none(m):
            continue
        part = p[1][-1]
        seen[part] = 1
        ctx.count('camera part Jacobians')
        js = find_ops(m, 'J')
        if part in PARTS and len(js) == 1:
            if PARTS[part] not in js[0][2] or js[0][3] != terms.sym('arg1'):
                ctx.violate('camera-part', '%s.%s' % (name, part), f.where(), '%s: the variable %s is given the result of %s at %s'
                            % (name, part, js[0][2], js[0][3]))
            elif m != ('prod', -1.0, (), (js[0],)):
                ctx.violate('camera-sign', '%s.%s' % (name, part), f.where(),
                            '%s: the variable %s is not given minus the Jacobian of the projection' % (name, part))
            for x in cx:
                if x[0] == 'if' and x[1] is not None and x[1][:2] == ('op', 'active') and x[1][2] != p:
                    ctx.violate('camera-active', '%s.%s' % (name, part), f.where(),
                                '%s: the Jacobian of %s depends on whether %s is active' % (name, part, x[1][2]))
                if x[0] == 'else' and x[1] is not None and x[1][:2] == ('op', 'active'):
                    ctx.violate('camera-active', '%s.%s' % (name, part), f.where(),
                                '%s: the Jacobian of %s is added only when it is not active' % (name, part))
    e = ErrEngine(prog)
    res, _ = e.run(g, dyn=c.fq, st=State(frozenset()))
    for s, v in res:
        got = {base_member(x[1]) for x in s.ts if x[0] == 'vars'}
        for m in list(PARTS):
            ctx.count('obligations')
            if m not in got:
                ctx.violate('camera-registers', '%s.%s' % (name, m), g.where(), '%s: getDesignVariables leaves out %s' % (name, m))
    for m in ('_projectionDv', '_distortionDv'):
        if m not in seen and t.events and not any(terms.has_none(x[1]) for x in t.events):
            ctx.violate('camera-jacobian', '%s.%s' % (name, m), f.where(), '%s: evaluateJacobians adds nothing for %s' % (name, m))
