"""One weighting everywhere: square root of the information matrix, robust weight and variable scaling."""
import facts
import terms
from dv import short
from errors import ErrTerms, canon

ET = 'aslam::backend::ErrorTerm'
JC = 'aslam::backend::JacobianContainer'
ERR = ('loc', ('this', '_error'))
S = ('loc', ('this', '_sqrtInvR'))
RAW = ('loc', ('this', '_squaredError'))
W = ('op', 'weight', RAW)


class WTerms(ErrTerms):
    """records chain-rule factors and what the Jacobian entries are multiplied with"""
    opaque_invR = False

    def on_call(self, n, recv, args):
        nm = n.get('n')
        if nm == 'getWeight' and n.get('obj'):
            return ('op', 'weight', terms.simp(args[0])) if args and not terms.has_none(args[0]) else None
        if nm == 'sqrt' and not n.get('obj'):
            return None if terms.has_none(args[0]) else ('op', 'sqrt', terms.simp(args[0]))
        if nm == 'pow' and len(args) == 2 and args[1] == ('num', 0.5):
            return None if terms.has_none(args[0]) else ('op', 'sqrt', terms.simp(args[0]))
        if nm == 'scaling' and n.get('obj'):
            return ('op', 'scaling', self.entry(recv))
        if nm in ('evaluateJacobians', 'applyChainRule', 'evaluateHessian', 'buildHessianBlock', 'evaluateErrorImplementation',
                  'evaluateJacobiansImplementation', 'buildHessianImplementation', 'computeMatrixSqrt'):
            if nm == 'computeMatrixSqrt':
                self.store(n.c[1], None if terms.has_none(args[0]) else ('op', 'msqrt', terms.simp(args[0])))
                return terms.sym('void')
            self.events.append((self.ctx, nm, recv, tuple(args)))
            return terms.sym(nm)
        if nm == 'clear' and n.get('obj'):
            self.events.append((self.ctx, nm, recv, ()))
            return terms.sym('void')
        if n.get('op') in ('*=',) and n.c[0] is not None and self.is_entry(n.c[0]):
            return NotImplemented
        return ErrTerms.on_call(self, n, recv, args)

    def entry(self, t):
        """the map entry a term belongs to, '?' when unknown"""
        return 'entry' if t is None or (isinstance(t, tuple) and 'first' in repr(t)) else t

    def is_entry(self, n):
        return n.k == 'mem' and n['n'] == 'second'

    def ev_mem(self, n):
        if n['n'] in ('second', 'first'):
            b = self.ev(n.c[0])
            v = getattr(self, 'entries', {}).get(n['n'])
            return v or ('sym', 'entry', n['n'])
        return super().ev_mem(n)

    def store(self, tgt, val):
        t = tgt
        while t is not None and t.k in ('cast',):
            t = t.c[0]
        while t is not None and t.k == 'call' and t.get('n') in terms.PASS and t.c:
            t = t.c[0]
        if t is not None and self.is_entry(t):
            self.events.append((self.ctx, 'entry', None, (val,)))
            self.entries = {'second': val, 'first': ('sym', 'entry', 'first')}
            return
        super().store(tgt, val)

    def run(self, *a, **k):
        self.entries = {}
        return super().run(*a, **k)


def norm(t, x):
    return canon(t, x if x is None or x[0] != 'loc' else terms.as_prod(x, False))


def weighting(ctx):
    prog = facts.load('backend', 'expr', 'cvbackend', 'kalibrcpp')
    ctx.rule('Value numbering of the weighting functions of every error-term base class, with the robust-weight flag true and false: with '
             'S the square root of the information matrix, e the error and w the robust weight at the raw squared error, the weighted '
             'error is sqrt(w) S^T e, every weighted Jacobian is sqrt(w) S^T J times the scaling of its own variable, the Hessian is built '
             'from e with sqrt(w) S and scales each Jacobian, the squared error is |S^T e|^2, the weighted squared error is w times it, '
             'and the information matrix reads back as S S^T of the last one set.')
    n = 0
    for c in sorted(prog.subclasses(ET), key=lambda c: c.fq):
        f = prog.method(c.fq, 'getWeightedError', 2)
        if f is None or f.fcls != c.fq:
            continue
        n += 1
        family(ctx, prog, c)
    ctx.need(n >= 2, 'base classes of error terms')
    base(ctx, prog)
    container(ctx, prog)


def lit(b):
    return ('lit', b)


def check(ctx, ok, rule, key, f, msg):
    ctx.count('weighting obligations')
    if ok is None:
        ctx.count('weighting obligations not understood')
    elif not ok:
        ctx.violate(rule, key, f.where(), msg)


def prod(*m, s=(), c=1.0):
    return ('prod', c, tuple(sorted(s, key=repr)), tuple(m))


def same(t, a, b):
    if a is None or b is None or terms.has_none(a) or terms.has_none(b):
        return None
    return norm(t, terms.as_prod(a, False)) == norm(t, terms.as_prod(b, False))


ST = ('op', 'T', S)
RT = ('op', 'sqrt', W)


def family(ctx, prog, c):
    name = short(c.fq)
    ctx.count('base classes')
    for b in (True, False):
        w = (RT,) if b else ()
        tag = 'with' if b else 'without'
        f = prog.method(c.fq, 'getWeightedError', 2)
        ctx.fns.add(f.u)
        t = WTerms(prog)
        t.run(f, dyn=c.fq, args=[('loc', ('out',)), lit(b)])
        check(ctx, same(t, t.mem.get(('out',)), prod(ST, ERR, s=w)), 'weighted-error', '%s.%s' % (name, b), f,
              '%s: the weighted error %s a robust weight is not %sS^T e but %s' % (name, tag, 'sqrt(w) ' if b else '', t.mem.get(('out',))))
        f = prog.method(c.fq, 'getWeightedJacobians', 2)
        ctx.fns.add(f.u)
        t = WTerms(prog)
        t.run(f, dyn=c.fq, args=[('loc', ('out',)), lit(b)])
        js = [e for e in t.events if e[1] == 'evaluateJacobians']
        ch = [e for e in t.events if e[1] == 'applyChainRule']
        sc = [e for e in t.events if e[1] == 'entry']
        check(ctx, len(js) == 1, 'weighted-jacobian', '%s.%s.once' % (name, b), f, '%s: the Jacobians are not evaluated exactly once' % name)
        fac = ('prod', 1.0, (), ())
        ok = True
        for e in ch:
            if terms.has_none(e[3]):
                ok = None
            else:
                fac = terms.mul(e[3][0], False, fac, False)
        for e in sc:
            v = e[3][0]
            if v is None or terms.has_none(v) or v[0] != 'prod':
                ok = None
            else:
                m = v[3]
                if not m or m[-1] != ('sym', 'entry', 'second'):
                    ok = False
                else:
                    fac = terms.mul(('prod', v[1], v[2], m[:-1]), False, fac, False)
        if ok is not None:
            want = prod(ST, s=w + (('op', 'scaling', 'entry'),))
            ok = ok and norm(t, fac) == norm(t, want)
        if any(e[0] and e[0][0][0] == 'if' for e in ch + sc):
            ok = None
        check(ctx, ok, 'weighted-jacobian', '%s.%s' % (name, b), f, '%s: the weighted Jacobian %s a robust weight is not %sS^T J times the '
              'scaling of its variable: %s' % (name, tag, 'sqrt(w) ' if b else '', fac))
        f = prog.method(c.fq, 'buildHessianImplementation', 3)
        if f is not None and f.fcls == c.fq:
            ctx.fns.add(f.u)
            t = WTerms(prog)
            t.run(f, dyn=c.fq, args=[('loc', ('H',)), ('loc', ('b',)), lit(b)])
            hs = [e for e in t.events if e[1] == 'evaluateHessian']
            check(ctx, len(hs) == 1, 'hessian', '%s.%s.once' % (name, b), f, '%s: the Hessian is not accumulated exactly once' % name)
            for e in hs:
                check(ctx, same(t, e[3][0], ERR), 'hessian', '%s.%s.error' % (name, b), f, '%s: the Hessian is built from %s, not the error' % (name, e[3][0]))
                check(ctx, same(t, e[3][1], prod(S, s=w)), 'hessian', '%s.%s.weight' % (name, b), f,
                      '%s: the Hessian %s a robust weight is not built with %sS: %s' % (name, tag, 'sqrt(w) ' if b else '', e[3][1]))
                check(ctx, None if None in e[3][2:] else e[3][2:] == (('loc', ('H',)), ('loc', ('b',))), 'hessian', '%s.%s.target' % (name, b), f,
                      '%s: the Hessian is accumulated elsewhere' % name)
    for q, np in (('evaluateChiSquaredError', 0),):
        f = prog.method(c.fq, q, np)
        if f is not None:
            t = WTerms(prog)
            r = t.run(f, dyn=c.fq)
            check(ctx, same(t, r, prod(('op', 'T', ERR), S, ST, ERR)), 'squared', name, f, '%s: %s is not |S^T e|^2: %s' % (name, q, r))
    for q, np in (('invR', 0), ('vsInvR', 0), ('getInvR', 1)):
        f = prog.method(c.fq, q, np)
        if f is not None and f.body is not None:
            ctx.fns.add(f.u)
            t = WTerms(prog)
            r = t.run(f, dyn=c.fq, args=[('loc', ('out',))][:np])
            if np:
                r = t.mem.get(('out',))
            check(ctx, same(t, r, prod(S, ST)), 'information', '%s.%s' % (name, q), f, '%s: %s is not S S^T: %s' % (name, q, r))
    for f in prog.functions():
        if f.fcls == c.fq and f.n in ('setInvR', 'vsSetInvR') and f.body is not None:
            ctx.fns.add(f.u)
            t = WTerms(prog)
            t.run(f, dyn=c.fq)
            r = t.mem.get(S[1])
            check(ctx, None if r is None else r == ('op', 'msqrt', terms.sym('arg0')), 'information', '%s.%s' % (name, f.n), f,
                  '%s: %s does not store the square root of the matrix it is given' % (name, f.n))
        if f.fcls == c.fq and f.n == 'setSqrtInvR' and f.body is not None:
            t = WTerms(prog)
            t.run(f, dyn=c.fq)
            r = t.mem.get(S[1])
            check(ctx, None if r is None else r == terms.sym('arg0'), 'information', '%s.%s' % (name, f.n), f, '%s: %s does not store what it is given' % (name, f.n))
        if f.fcls == c.fq and f.n == 'setError' and f.body is not None:
            t = terms.Terms(prog)
            t.run(f, dyn=c.fq)
            r = t.mem.get(ERR[1])
            check(ctx, None if r is None else r == terms.sym('arg0'), 'error-stored', '%s.%s' % (name, f.n), f, '%s: %s does not store the error it is given' % (name, f.n))
        if f.fcls == c.fq and f.n in ('vsErrorImplementation', 'error') and f.body is not None:
            t = WTerms(prog)
            r = t.run(f, dyn=c.fq)
            check(ctx, None if r is None else r == ERR, 'error-stored', '%s.%s' % (name, f.n), f, '%s: %s does not return the stored error' % (name, f.n))


def base(ctx, prog):
    def one(q, np):
        return prog.method(ET, q, np)
    f = one('evaluateError', 0)
    ctx.need(f, 'ErrorTerm::evaluateError')
    t = WTerms(prog)
    r = t.run(f)
    raw = t.mem.get(RAW[1])
    E = terms.sym('evaluateErrorImplementation')
    check(ctx, None if raw is None else raw == E, 'raw', 'ErrorTerm.evaluateError', f, 'evaluateError does not keep the raw squared error: %s' % (raw,))
    check(ctx, None if terms.has_none(r) else terms.as_prod(r, True) == prod(s=(('op', 'weight', E), E)), 'weighted-squared', 'ErrorTerm.evaluateError', f,
          'evaluateError does not return the weight at the raw squared error times the raw squared error: %s' % (r,))
    for q, np, args, want in (('getWeightedSquaredError', 0, [], prod(s=(W, RAW))), ('getRawSquaredError', 0, [], prod(s=(RAW,))),
                              ('getSquaredError', 1, [lit(True)], prod(s=(W, RAW))), ('getSquaredError', 1, [lit(False)], prod(s=(RAW,))),
                              ('getCurrentMEstimatorWeight', 0, [], prod(s=(W,))),
                              ('getMEstimatorWeight', 1, [terms.sym('x')], prod(s=(('op', 'weight', terms.sym('x')),)))):
        f = one(q, np)
        if f is None:
            continue
        ctx.fns.add(f.u)
        t = WTerms(prog)
        r = t.run(f, args=args)
        check(ctx, None if terms.has_none(r) else terms.as_prod(r, True) == want, 'weighted-squared', 'ErrorTerm.%s.%s' % (q, args), f,
              '%s returns %s' % (q, r))
    f = one('evaluateJacobians', 1)
    t = WTerms(prog)
    t.run(f, args=[('loc', ('out',))])
    order = [e[1] for e in t.events if e[1] in ('clear', 'evaluateJacobiansImplementation') and (e[2] == ('loc', ('out',)) or e[3] == (('loc', ('out',)),))]
    check(ctx, order == ['clear', 'evaluateJacobiansImplementation'], 'fresh-jacobians', 'ErrorTerm.evaluateJacobians', f,
          'evaluateJacobians does not start from an empty container')


def container(ctx, prog):
    f = prog.method(JC, 'evaluateHessian', 4)
    ctx.need(f, 'JacobianContainer::evaluateHessian')
    t = WTerms(prog)
    A0, A1 = terms.sym('arg0'), terms.sym('arg1')
    t.run(f)
    en = [e for e in t.events if e[1] == 'entry']
    bl = [e for e in t.events if e[1] == 'buildHessianBlock']
    ok = None
    if len(en) == 1:
        ok = same(t, en[0][3][0], prod(('op', 'T', A1), ('sym', 'entry', 'second'), s=(('op', 'scaling', 'entry'),)))
    check(ctx, ok, 'hessian', 'JacobianContainer.entries', f, 'evaluateHessian does not weight each Jacobian with S^T and the scaling of its variable: %s' % (en and en[0][3],))
    if len(bl) == 1:
        check(ctx, same(t, bl[0][3][0], prod(('op', 'T', A1), A0)), 'hessian', 'JacobianContainer.error', f,
              'evaluateHessian does not weight the error with S^T: %s' % (bl[0][3][0],))
    f = prog.method(JC, 'applyChainRule', 1)
    if f is not None:
        t = WTerms(prog)
        t.run(f)
        en = [e for e in t.events if e[1] == 'entry']
        if len(en) == 1:
            check(ctx, same(t, en[0][3][0], prod(A0, ('sym', 'entry', 'second'))), 'chain', 'JacobianContainer.applyChainRule', f,
                  'applyChainRule does not multiply each Jacobian by the matrix on its left: %s' % (en[0][3],))
        r = t.mem.get(('this', '_rows'))
        check(ctx, None if r is None else 'rows' in repr(r) and repr(A0) in repr(r), 'chain', 'JacobianContainer.applyChainRule.rows', f,
              'applyChainRule does not update the number of rows')
