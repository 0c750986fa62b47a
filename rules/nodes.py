"""Expression nodes: every operand reaches the value, the variable set and both Jacobians."""
import facts
import terms
from engine import Engine, State, Val, fs, pstr, overlaps, EMPTY
from dv import DvEngine, joined, short, is_in, toks

JAC = 'aslam::backend::JacobianContainer'
ROOTS = ['RotationExpressionNode', 'EuclideanExpressionNode', 'HomogeneousExpressionNode', 'TransformationExpressionNode',
         'MatrixExpressionNode', 'ScalarExpressionNode', 'VectorExpressionNode', 'GenericMatrixExpressionNode',
         'GenericScalarExpressionNode']
VALUE = ['toRotationMatrix', 'toEuclidean', 'toHomogeneous', 'toTransformationMatrix', 'toMatrix3x3', 'toFullMatrix', 'toScalar',
         'toVector', 'toValue', 'evaluate', 'toParameters', 'toParametersImplementation']


class NodeEngine(DvEngine):
    """records which operands are asked for their value, variables or Jacobians"""
    max_states = 32

    def ev_add(self, st, e):
        st.ts = (st.ts or frozenset()) | fs(e)

    def owners(self, st, paths):
        """a local (array of) pointer(s) stands for the members it was filled from"""
        out = set()
        for p in paths:
            src = {t[1] for t in st.read(p) if t[0] == 'in' and t[1][0] == 'this' and len(t[1]) > 1} if p[0][0] == 'L' else ()
            out |= src or {p}
        return sorted(out, key=repr)

    def call_hook(self, st, n, recv, args):
        nm = n.get('n')
        if nm in ('getDesignVariables', 'evaluateJacobians') or (nm in VALUE and nm.startswith('to') or nm == 'evaluate'):
            if recv is not None and recv.paths and not any(p == ('this',) for p in recv.paths):
                for p in self.owners(st, recv.paths):
                    if nm == 'getDesignVariables':
                        self.ev_add(st, ('vars', p))
                    elif nm == 'evaluateJacobians':
                        a = args[1] if len(args) > 1 else None
                        d = frozenset(a.deps | (self.deref(st, a.paths) if a.paths else EMPTY)) if a is not None else None
                        self.ev_add(st, ('jac', p, d))
                    else:
                        self.ev_add(st, ('val', p))
                if nm in ('getDesignVariables', 'evaluateJacobians'):
                    return [(st, Val())]
                return [(st, Val(frozenset(('val', p) for p in recv.paths)))]
        if nm == 'add' and n.get('fcls', '') == JAC or (nm == 'add' and (n.get('q') or '').startswith(JAC)):
            p = args[0].paths
            d = EMPTY
            if len(args) > 1:
                d = frozenset(args[1].deps | (self.deref(st, args[1].paths) if args[1].paths else EMPTY))
            for q in p:
                self.ev_add(st, ('jac', q, d if len(args) > 1 else None))
            return [(st, Val())]
        if nm == 'addToJacobianContainer' and len(args) > 1:
            d = frozenset(recv.deps | (self.deref(st, recv.paths) if recv.paths else EMPTY))
            for q in args[1].paths:
                self.ev_add(st, ('jac', q, d))
            return [(st, Val())]
        if nm in ('insert', 'push_back', 'emplace_back') and recv is not None and any(q[0] in ('arg0',) for q in recv.paths):
            for a in args:
                for q in a.paths:
                    self.ev_add(st, ('vars', q))
            return [(st, Val())]
        return None


def top(p):
    """the member of *this through which a path goes"""
    if p[0] == 'this':
        return p[1] if len(p) > 1 else 'this'
    return pstr(p)


def find(prog, fq, name, np):
    return prog.method(fq, name, np)


class NodeFacts:
    def __init__(self, prog, c):
        self.c = c
        self.name = short(c.fq)
        e = self.e = NodeEngine(prog)
        self.dv = prog.method(c.fq, 'getDesignVariablesImplementation', 1)
        self.j1 = prog.method(c.fq, 'evaluateJacobiansImplementation', 1)
        self.j2 = prog.method(c.fq, 'evaluateJacobiansImplementation', 2)
        self.val = None
        for v in VALUE:
            for x in (v + 'Implementation', v):
                f = prog.method(c.fq, x, 0)
                if f:
                    self.val = self.val or f

        self.ptr = self.j2 is not None and self.j2.ptype(1).isptr
        if self.ptr and self.j1 is None:
            self.j1 = self.j2       # the chain-rule matrix may be null

    def events(self, f, plain=False):
        args = None
        if self.ptr and f is self.j2:
            a = ('arg1',)
            args = [Val(fs(('in', ('arg0',))), fs(('arg0',))), Val(const=0) if plain else Val(fs(('in', a)), fs(a), 1)]
        res, _ = self.e.run(f, dyn=self.c.fq, st=State(frozenset()), args=args)
        return res




class NodeTerms(terms.Terms):
    """the Jacobian contributions a node adds, as terms"""

    def on_call(self, n, recv, args):
        nm = n.get('n')
        if nm == 'evaluateJacobians' and n.get('obj') and not (recv is not None and recv == ('loc', ('this',))):
            m = ('prod', 1.0, (), ()) if len(args) < 2 else args[1]
            self.events.append((self.ctx, recv, terms.as_prod(m, False)))
            return terms.sym('void')
        if nm == 'add' and (n.get('q') or '').startswith(JAC):
            m = ('prod', 1.0, (), ()) if len(args) < 2 else args[1]
            self.events.append((self.ctx, args[0] if args else None, terms.as_prod(m, False)))
            return terms.sym('void')
        if (n.get('q') or '').startswith('sm::kinematics::') and not n.get('obj') and not terms.has_none(tuple(args)):
            return ('op', 'call', nm) + tuple(terms.simp(a) for a in args)
        if nm == 'insert' and recv == terms.sym('arg0'):
            self.events.append((self.ctx, args[0] if args else None, 'vars'))
            return terms.sym('void')
        if n.get('obj') and recv is not None and recv[0] == 'loc' and recv[1] != ('this',) and \
                ((nm in VALUE and nm.startswith('to')) or nm == 'evaluate'):
            return ('op', 'value', recv)
        return NotImplemented


def jacobian_terms(prog, c, F, k, mem=None):
    t = NodeTerms(prog)
    f = F.j1 if k == 'j1' else F.j2
    args = None
    if F.ptr and f is F.j2:
        args = [terms.sym('arg0'), ('lit', None) if k == 'j1' else terms.sym('arg1', 'nonnull')]
    t.run(f, dyn=c.fq, args=args, mem=mem)
    return t.events


def chain_consistent(prog, c, F):
    """(verdict, detail): does the chain-rule variant add A times what the plain variant adds?"""
    e1 = jacobian_terms(prog, c, F, 'j1')
    e2 = jacobian_terms(prog, c, F, 'j2')
    A = terms.sym('arg1', 'nonnull') if F.ptr else terms.sym('arg1')
    want = [(cx, p, terms.mul(A, False, m, False)) for cx, p, m in e1]
    if terms.has_none(tuple(want)) or terms.has_none(tuple(e2)) or not e1:
        return None, None
    if sorted(map(repr, want)) == sorted(map(repr, e2)):
        return True, None
    if 'upd' in repr(want) + repr(e2) or 'comma' in repr(want) + repr(e2):
        return None, None
    if sorted(repr(x[0]) for x in want) != sorted(repr(x[0]) for x in e2):
        return None, None       # differently arranged: left to the dependence comparison
    w, g = sorted(set(map(repr, want)) - set(map(repr, e2))), sorted(set(map(repr, e2)) - set(map(repr, want)))
    return False, (w[:1] or g[:1])[0]


def bound(t):
    """(operator, non-constant part, constant) of a loop condition i < bound"""
    if t is None or t[0] != 'op' or t[1] not in ('<', '<=', '!=') or len(t) != 4:
        return None
    off = None
    lhs, b = t[2], t[3]
    for x, y in ((t[2], t[3]), (t[3], t[2])):
        parts = [terms.simp(q) for q in x[1]] if x[0] == 'sum' else [x]
        ind = [q for q in parts if q[:2] == ('sym', 'i')]
        num = [q[1] for q in parts if q[0] == 'num']
        if len(ind) == 1 and len(ind) + len(num) == len(parts) and (x is t[2] or t[1] == '!='):
            off, b = sum(num), y
    if off is None:
        return None
    k = -off
    rest = []
    for x in (b[1] if b[0] == 'sum' else (b,)):
        x = terms.simp(x)
        if x[0] == 'num':
            k += x[1]
        else:
            rest.append(x)
    return (t[1], tuple(rest), k)


def loop_ranges(prog, c, F):
    """[(function, function, what)] of pairs of functions whose loops over the same variables differ in a constant"""
    evs = {}
    for k in ('dv', 'j1', 'j2'):
        f = F.dv if k == 'dv' else getattr(F, k)
        if f is None:
            continue
        if k == 'dv':
            t = NodeTerms(prog)
            t.run(f, dyn=c.fq)
            evs[k] = (f, t.events)
        else:
            evs[k] = (f, jacobian_terms(prog, c, F, k))
    rng = {}
    for k, (f, es) in evs.items():
        for cx, p, m in es:
            lp = [x for x in cx if x[0] == 'loop']
            if len(lp) != 1 or p is None:
                continue
            b = bound(lp[0][2])
            if b is None or lp[0][1] is None or lp[0][1][0] != 'num':
                continue
            rng.setdefault(repr(terms.simp(p)), {}).setdefault(k, set()).add((lp[0][1][1],) + b)
    for p, by in sorted(rng.items()):
        ks = sorted(by)
        for a in ks:
            for b in ks:
                if a < b and len(by[a]) == 1 and len(by[b]) == 1:
                    (s1, o1, r1, k1), = by[a]
                    (s2, o2, r2, k2), = by[b]
                    if o1 == o2 and r1 == r2 and (s1, k1) != (s2, k2):
                        yield evs[a][0], evs[b][0], '[%g, %g) and [%g, %g) relative to the size' % (s1, k1, s2, k2)
                    elif r1 == r2 and s1 != s2:
                        yield evs[a][0], evs[b][0], 'starts at %g and at %g' % (s1, s2)


def contains(t, x):
    return t == x or (isinstance(t, tuple) and any(contains(y, x) for y in t))


def derivative(t, x, scalar):
    """derivative of the term t by the operand value x (a scalar or a column vector), as a list of products; None: not decided"""
    if t is None:
        return None
    if t[0] == 'sum':
        out = []
        for p in t[1]:
            d = derivative(p, x, scalar)
            if d is None:
                return None
            out += d
        return out
    if t[0] != 'prod':
        t = terms.as_prod(t, scalar)
    c, S, M = t[1:]
    out = []
    for i, f in enumerate(S):
        rest = S[:i] + S[i + 1:]
        if f == x:
            out.append(('prod', c, rest, M))
        elif f == ('op', 'inv', x):
            out.append(('prod', -c, tuple(sorted(rest + (f, f), key=repr)), M))
        elif contains(f, x):
            return None
    for i, f in enumerate(M):
        last = i == len(M) - 1
        if f == x and last:
            out.append(('prod', c, S, M[:-1]))
        elif f[:3] == ('op', 'call', 'crossMx') and f[-1] == x and i == len(M) - 2:
            w = M[-1]
            out.append(('prod', -c, S, M[:i] + (f[:-1] + (w,),)))
        elif contains(f, x):
            return None
    return out


def derivative_check(prog, c, F):
    """[(operand, ok, wanted, got)] for the operands whose Jacobian follows from the value by the product and quotient rules"""
    t = NodeTerms(prog)
    v = t.run(F.val, dyn=c.fq)
    if v is None or terms.has_none(v) or F.j1 is None:
        return
    e1 = jacobian_terms(prog, c, F, 'j1', t.mem)
    if terms.has_none(tuple(e1)):
        return
    by = {}
    for cx, p, m in e1:
        if cx:
            return
        by.setdefault(p, []).append(m)
    ft = {}
    for b in prog.bases(c.fq):
        k = prog.classes.get(b)
        for f in (k.fields if k else ()):
            ft.setdefault(f['n'], k.ftype(f))
    for p, ms in sorted(by.items(), key=repr):
        if p is None or p[0] != 'loc' or len(p[1]) != 2:
            continue
        ty = ft.get(p[1][1])
        if ty is None:
            continue
        s = ty.r + (ty.rp or '') + ty.s
        scalar = 'ScalarExpression' in s
        if not scalar and 'EuclideanExpression' not in s and 'VectorExpression' not in s:
            continue
        d = derivative(v, ('op', 'value', p), scalar_result(F.val))
        if d is None:
            yield p[1][1], None, None, None
            continue
        a = sorted(repr(x) for x in d)
        b = sorted(repr(x) for x in ms)
        yield p[1][1], a == b, a, b


def scalar_result(f):
    return f.ret.b in ('int', 'uint', 'float')


def nodes(ctx):
    prog = facts.load('backend', 'expr', 'splines', 'cvbackend', 'kalibrcpp')
    ctx.rule('For every expression node class, abstract interpretation of its value, variable-collection and both Jacobian functions '
             'records which operands are visited on every path. The operands asked for variables, those given a plain Jacobian and those '
             'given a chained Jacobian must be the same set and include every operand whose value is used; each chained Jacobian must '
             'depend on the chain-rule matrix and otherwise on exactly what the plain one depends on, and where both are understood by '
             'value numbering it must equal chain matrix times plain Jacobian; every cached operand value that a Jacobian reads is '
             'refreshed by the value function.')
    seen = set()
    for r in ROOTS:
        for c in sorted(prog.subclasses('aslam::backend::' + r), key=lambda c: c.fq):
            if c.abstract or c.fq in seen or '/test/' in c.file:
                continue
            seen.add(c.fq)
            node(ctx, prog, c)
    ctx.at_least('expression nodes', 45)
    ctx.at_least('Jacobian contributions', 90)


def node(ctx, prog, c):
    F = NodeFacts(prog, c)
    name = F.name
    ctx.count('expression nodes')
    f2 = F.j2
    ctx.need(F.dv and f2 and F.val, 'functions of the node class %s' % name)
    ev = {}
    for k, f in (('val', F.val), ('dv', F.dv), ('j1', F.j1), ('j2', f2)):
        if f is not None:
            ev[k] = F.events(f, k == 'j1')
    ctx.fns |= F.e.analysed
    kids = {}
    for k, kind in (('val', 'val'), ('dv', 'vars'), ('j1', 'jac'), ('j2', 'jac')):
        if k in ev:
            kids[k] = [frozenset(top(e[1]) for e in s.ts if e[0] == kind) for s, v in ev[k]]
    allv = frozenset().union(*kids['val']) if kids['val'] else frozenset()
    dvs = frozenset().union(*kids['dv'])
    what = {'dv': 'its variables', 'j1': 'its Jacobian', 'j2': 'its chained Jacobian'}
    fn = {'dv': F.dv, 'j1': F.j1, 'j2': f2}
    union = dvs | allv
    optional = {m for m in union | {'this'} if all(k not in kids or (any(m in g for g in kids[k]) and any(m not in g for g in kids[k]))
                                                   for k in ('dv', 'j1', 'j2'))}
    for k in ('j1', 'j2'):
        if k in kids:
            union |= frozenset().union(*kids[k])
    for k in ('dv', 'j1', 'j2'):
        if k not in kids:
            continue
        for got in kids[k]:
            for m in sorted(union):
                ctx.count('obligations')
                if m not in got and m not in optional:
                    ctx.violate('operands', '%s.%s.%s' % (name, k, m), fn[k].where(),
                                '%s: on some path %s does not ask %s for %s, although the node depends on it'
                                % (name, fn[k].n, 'itself' if m == 'this' else 'the operand ' + m, what[k]))
    for a, b, why in loop_ranges(prog, c, F):
        ctx.violate('same-range', '%s.%s.%s' % (name, a.n, b.n), b.where(),
                    '%s: %s and %s run over different ranges of the same variables (%s)' % (name, a.n, b.n, why))
    j2deps = deps(ev['j2'])
    for m, (d, none) in sorted(j2deps.items()):
        ctx.count('Jacobian contributions')
        if none or not any(is_in(t, ('arg1',)) for t in none_free(d)):
            ctx.violate('chained', '%s.%s' % (name, m), f2.where(),
                        '%s: %s passes %s a Jacobian that does not depend on the chain-rule matrix' % (name, f2.n, m))
    if 'j1' in ev:
        j1deps = deps(ev['j1'])
        for m, (d, none) in sorted(j1deps.items()):
            ctx.count('Jacobian contributions')
            if m in j2deps:
                a = strip(d)
                b = strip(frozenset(t for t in j2deps[m][0] if not is_in(t, ('arg1',))))
                if a != b:
                    ctx.violate('chained-same', '%s.%s' % (name, m), f2.where(),
                                '%s: the Jacobian for %s depends on {%s}, its chained variant on {%s} and the chain-rule matrix'
                                % (name, m, ', '.join(sorted(a)), ', '.join(sorted(b))))
        if F.j1.u != f2.u or F.ptr:
            for m, ok, a, b in derivative_check(prog, c, F):
                ctx.count('operand Jacobians not decided by differentiation' if ok is None else 'operand Jacobians derived from the value')
                if ok is False:
                    ctx.violate('derivative', '%s.%s' % (name, m), F.j1.where(),
                                '%s: the Jacobian for the operand %s is not the derivative of the value: expected %s, found %s' % (name, m, a, b))
            ok, why = chain_consistent(prog, c, F)
            ctx.count('nodes compared by value numbering' if ok is not None else 'nodes compared by dependence only')
            if ok is False:
                ctx.violate('chain-rule', name, f2.where(),
                            '%s: the chained Jacobian is not the chain-rule matrix times the plain Jacobian: %s' % (name, why[:300]))
    # cached operand values
    used = set()
    for k in ('j1', 'j2'):
        for s, v in ev.get(k, ()):
            for e in s.ts:
                if e[0] == 'jac' and e[2]:
                    used |= {t[1][1] for t in e[2] if t[0] == 'in' and t[1][0] == 'this' and len(t[1]) > 1}
    if used:
        filled = {}
        e = NodeEngine(prog)
        for f in prog.functions():
            if f.kind == 'ctor' and f.fcls == c.fq and not (len(f.params) == 1 and f.ptype(0).r == c.fq):
                res, _ = e.run(f, dyn=c.fq, st=State(frozenset()))
                for s, v in res:
                    for m in used:
                        if any(t[0] == 'val' for t in s.read(('this', m))):
                            filled.setdefault(m, f)
        for s, v in ev['val']:
            for m in used:
                if any(t[0] == 'val' for t in s.read(('this', m))):
                    filled.setdefault(m, F.val)
        for m in sorted(filled):
            for s, v in ev['val']:
                ctx.count('cached operand values')
                r = s.read(('this', m))
                if any(is_in(t, ('this', m)) for t in r) or not any(t[0] == 'val' for t in r):
                    ctx.violate('cache-fresh', '%s.%s' % (name, m), F.val.where(),
                                '%s: %s leaves the cached operand value %s stale, and the Jacobian uses it' % (name, F.val.n, m))
    ctx.sample('%s: operands {%s}' % (name, ', '.join(sorted(union))))


def strip(d):
    return {tokname(t) for t in d}


def tokname(t):
    if t[0] == 'in':
        return top(t[1])
    if t[0] == 'val':
        return 'value of ' + top(t[1])
    return str(t)


def none_free(d):
    return d or ()


def deps(evs):
    out = {}
    for s, v in evs:
        for e in s.ts:
            if e[0] == 'jac':
                d, none = out.get(top(e[1]), (frozenset(), False))
                out[top(e[1])] = (d | (e[2] or frozenset()), none or e[2] is None)
    return out
