"""The optimizers as a typestate: which cost belongs to which state of the design variables."""
import re
import facts
from engine import Engine, State, Val, fs, pstr, EMPTY, UNK
import dv as dvrules

DV = 'aslam::backend::DesignVariable'
LSS = 'aslam::backend::LinearSystemSolver'
TRP = 'aslam::backend::TrustRegionPolicy'


class Tok:
    """a cost ('cost', version), a difference of costs ('diff', a, b) = cost a - cost b, or a test of its sign"""
    __slots__ = ('t',)

    def __init__(self, *t):
        self.t = t

    def __eq__(self, o):
        return isinstance(o, Tok) and o.t == self.t

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.t)

    def __repr__(self):
        return '<%s>' % ' '.join(map(str, self.t))

    def __bool__(self):
        raise TypeError

    def _num(self, o):
        return isinstance(o, (int, float)) and not isinstance(o, bool)

    def __add__(self, o):
        if self.t[0] == 'cost' and (self._num(o) and o == 0 or o == self):
            return self
        raise TypeError

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, Tok) and self.t[0] == o.t[0] == 'cost':
            return Tok('diff', self.t[1], o.t[1])
        raise TypeError

    def __neg__(self):
        if self.t[0] == 'diff':
            return Tok('diff', self.t[2], self.t[1])
        raise TypeError

    def __truediv__(self, o):
        if self.t[0] == 'diff':
            return self
        raise TypeError

    def _cmp(self, op, o):
        if isinstance(o, Tok):
            d = self - o
            return Tok('test', d.t[1], d.t[2], op)
        if self.t[0] == 'diff' and self._num(o):
            if o == 0:
                return Tok('test', self.t[1], self.t[2], op)
            # only the sign is followed: comparisons with other numbers say something in one direction
            if o > 0 and op in ('>', '>='):
                return Tok('test', self.t[1], self.t[2], 'some>')
            if o < 0 and op in ('<', '<='):
                return Tok('test', self.t[1], self.t[2], 'some<')
        raise TypeError

    def __lt__(self, o):
        return self._cmp('<', o)

    def __le__(self, o):
        return self._cmp('<=', o)

    def __gt__(self, o):
        return self._cmp('>', o)

    def __ge__(self, o):
        return self._cmp('>=', o)


def rename(st, m):
    def r(x):
        if isinstance(x, Tok):
            return Tok(*[x.t[0]] + [m.get(v, v) for v in x.t[1:3]] + list(x.t[3:]))
        return x
    st.consts = {k: r(v) for k, v in st.consts.items()}
    d = dict(st.ts)
    f = {}
    for (a, b), rel in d['facts']:
        a, b = m.get(a, a), m.get(b, b)
        if a != b and 'old' not in (a, b):
            f[(a, b)] = rel
    d['facts'] = frozenset(f.items())
    d['lin'] = m.get(d['lin'], d['lin'])
    st.ts = frozenset(d.items())


def setts(st, **kw):
    d = dict(st.ts)
    d.update(kw)
    st.ts = frozenset(d.items())


NEG = {'<': '>=', '>=': '<', '>': '<=', '<=': '>'}
SWAP = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}
MEET = {('<=', '>='): '==', ('>=', '<='): '=='}


class OptEngine(dvrules.DvEngine):
    max_states = 600
    loop_iters = 40
    max_depth = 10
    events = None
    skip = ()

    def __init__(self, prog):
        super().__init__(prog)
        self.assume_loops_run = True
        self.out = []
        self.policy = None
        self.n = {}

    def note(self, k):
        self.n[k] = self.n.get(k, 0) + 1

    def active(self):
        out, f = {'this'}, self.frame
        while f is not None:
            out.add(f.id)
            f = f.parent
        return out

    def key(self, s):
        act = self.active()
        tr = tuple(sorted((k, repr(v)) for k, v in s.consts.items()
                          if isinstance(v, (Tok, bool)) and '_options' not in k and k[0].split(':')[0] in act
                          and k[-1] != 'JStart' and not (isinstance(v, Tok) and 'old' in v.t)))
        bad = tuple(sorted(str(k) for k, v in s.store.items() if ('failed',) in v and k[0].split(':')[0] in act))
        return (s.ts, tr, bad)

    def enter(self, fn, this, dyn, args, st, node):
        fid = 'L%d' % (self.nframe + 1)
        r = super().enter(fn, this, dyn, args, st, node)
        if self.frame is None:
            return r
        for s, v in r:
            for t in (s.consts, s.store, s.ptr, s.eqs, s.fnv):
                for k in [k for k in t if k[0].split(':')[0] == fid]:
                    del t[k]
        return self.merge_pairs([(s, v if v is not None else Val()) for s, v in r])

    def dyn_class(self, st, node, recv):
        r = node.c[0].type.rp if node.get('obj') and node.c else ''
        if self.policy and node.get('fcls') and TRP in self.prog.bases(node['fcls']) + [node['fcls']]:
            return self.policy
        return None

    def inline_ok(self, st, node, fn, recv):
        return fn.u in self.relevant

    def call_hook(self, st, node, recv, args):
        nm, cls = node.get('n'), node.get('fcls') or ''
        u = node.get('u')
        if u in self.update:
            self.update_event(st, node)
            return [(st, Val(fs(('call', 'update'))))]
        if u in self.revert:
            self.revert_event(st, node)
            return [(st, Val())]
        if u in self.evalerr:
            self.note('evaluations of the cost')
            return [(st, Val(const=Tok('cost', 'cur')))]
        if u in self.build:
            setts(st, lin='cur')
            self.note('linearisations')
            return [(st, Val())]
        if nm in ('solve', 'solveSystem') and node.get('obj') and args and u not in self.relevant:
            # one of the arguments is the solution
            self.note('solved systems')
            lin = dict(st.ts)['lin']
            if lin not in ('cur', None) and not self.same(st, lin, 'cur'):
                self.out.append(('stale-linearisation', node, 'the linear system solved here was built at %s design variables'
                                 % {'prev': 'the previous', 'old': 'earlier', 'rej': 'the rejected'}.get(lin, lin)))
            elif lin is not None:
                setts(st, lin='cur')      # at equal cost a step of no consequence was taken
            s2 = st.copy()
            for s, ok in ((st, True), (s2, False)):
                for a in args:
                    for p in a.paths:
                        p = base(p)
                        if any(x in pstr(p) for x in ('dx',)) or len(a.paths) == 1 and nm == 'solveSystem':
                            s.write(p, Val(EMPTY if ok else fs(('failed',)), const=Tok('sol', 'cur') if ok else UNK), True)
            return [(st, Val(const=True)), (s2, Val(const=False))]
        if nm in ('min', 'max') and not node.get('obj') and len(args) == 2:
            a, b = (x.const for x in args)
            if isinstance(a, Tok) and isinstance(b, Tok) and a.t[0] == b.t[0] == 'cost':
                if a == b:
                    return [(st, Val(const=a))]
                out = []
                v = Val(const=Tok('test', a.t[1], b.t[1], '<='))
                v = self.cond_value(st, node, Val(const=v.const))
                for truth in (True, False):
                    if v.const is not UNK and v.const != truth:
                        continue
                    s = st.copy()
                    self.on_branch(s, node, Val(info=Tok('test', a.t[1], b.t[1], '<=')), truth)
                    out.append((s, Val(const=a if truth == (nm == 'min') else b)))
                return out
        if nm == 'rhs' and node.get('obj') and not args:
            # steps along the gradient belong to the linearisation as well
            lin = dict(st.ts)['lin']
            if lin is not None:
                return [(st, Val(const=Tok('sol', 'cur' if self.same(st, lin, 'cur') else lin)))]
        if node.get('op') in ('*', '+', '-', '/') and node.k == 'call':
            c = self.mixed(recv, args)
            if c is not None:
                return [(st, Val(const=c))]
        f = self.prog.fns.get(u)
        if f is not None and u not in self.relevant and cls and node.get('obj'):
            # nothing the analysis follows happens in there
            if f.const or not any(x in f.rel for x in ('aslam_backend',)):
                return None
            w = self.writes(u)
            for p in recv.paths if recv is not None else ():
                for m in w:
                    st.write(p + (m,), Val(), True)
            return [(st, Val())]
        return None

    AGE = ('cur', 'prev', 'rej', 'old')

    def mixed(self, *vals):
        """the step computed from steps (and numbers) is as old as the oldest of them"""
        flat = []
        for v in vals:
            flat += v if isinstance(v, (list, tuple)) else [v]
        t = [v.const.t[1] for v in flat if v is not None and isinstance(v.const, Tok) and v.const.t[0] == 'sol']
        return Tok('sol', max(t, key=self.AGE.index)) if t else None

    def writes(self, u, seen=None):
        """names of the members a method of this class may assign (transitively through methods on this)"""
        seen = seen or set()
        if u in seen:
            return set()
        seen.add(u)
        f = self.prog.fns.get(u)
        out = set()
        for n in f.walk():
            if n.k == 'mem' and n.c and n.c[0].k == 'this' and not n.get('fn'):
                if n.type.b in ('float', 'bool', 'int', 'uint'):
                    out.add(n['n'])
            if n.k == 'call' and n.get('u') in self.prog.fns and n.get('obj') and n.c[0].k == 'this':
                out |= self.writes(n['u'], seen)
        return out

    # ---- versions of the state
    def update_event(self, st, node):
        if self.again(st, 'update'):
            return
        self.note('updates of the design variables')
        self.accept(st, node, 'next update')
        if any(('failed',) in v for k, v in st.store.items() if 'dx' in k[-1] and k[-1] in ('_dx', 'outDx', 'dx')):
            self.out.append(('failed-step', node, 'a step is applied although the linear system was not solved'))
        for p, c in st.consts.items():
            if isinstance(c, Tok) and c.t[0] == 'sol' and p == ('this', '_dx'):
                self.note('steps whose origin is known')
                if not self.same(st, c.t[1], 'cur'):
                    self.out.append(('stale-step', node, 'the step applied here solves the linear system of %s design variables'
                                     % {'prev': 'the previous', 'old': 'earlier', 'rej': 'the rejected'}[c.t[1]]))
        rename(st, {'cur': 'prev', 'prev': 'old', 'rej': 'old'})
        setts(st, tent=True, stepped=True)

    def revert_event(self, st, node):
        if self.again(st, 'revert'):
            return
        self.note('reverted updates')
        d = dict(st.ts)
        if not d['tent']:
            self.out.append(('revert-without-update', node, 'the design variables are reverted although no update is pending: '
                             'they end up at a state before the last accepted one'))
        if self.rel(st, 'prev', 'cur') == '>':
            self.out.append(('improvement-reverted', node, 'a step that lowered the cost is reverted'))
        rename(st, {'cur': 'rej', 'prev': 'cur', 'rej': 'old'})
        setts(st, tent=False)

    def accept(self, st, node, what):
        d = dict(st.ts)
        if not d['tent']:
            return
        if d['keepall']:
            return
        if self.rel(st, 'prev', 'cur') not in ('>', '>=', '=='):
            self.out.append(('regression-kept', node, 'a step is kept up to the %s on a path where the cost has not been found '
                             'to be no higher than before the step' % what))

    # ---- a loop over the design variables that updates or reverts each is one event
    def over_variables(self, n, states, run):
        us = {x['u'] for x in n.walk() if x.k == 'call' and x.get('u')}
        if not states or not us & (self.prims_u | self.prims_r) or us & (self.evalerr | self.build) \
                or us & ((self.update | self.revert) - self.prims_u - self.prims_r) or us & self.relevant:
            return run(n, states)
        for s in states:
            if dict(s.ts).get('once') is not None:
                return run(n, states)
        for s in states:
            setts(s, once=frozenset())
        out = run(n, states)
        if any(dict(s.ts)['once'] for s in out):
            out = [s for s in out if dict(s.ts)['once']]
        for s in out:
            setts(s, once=None)
        return self.merge(out)

    def again(self, st, kind):
        o = dict(st.ts).get('once')
        if o is None:
            return False
        if kind in o:
            return True
        setts(st, once=o | {kind})
        return False

    def ex_for(self, n, states):
        return self.over_variables(n, states, super().ex_for)

    def ex_while(self, n, states):
        return self.over_variables(n, states, super().ex_while)

    def ex_do(self, n, states):
        return self.over_variables(n, states, super().ex_do)

    def ex_range(self, n, states):
        return self.over_variables(n, states, super().ex_range)

    def ev_un(self, n, st):
        if n['op'] in ('!', '-'):
            out = []
            for s, v in self.ev(n.c[0], st):
                c = v.const
                if not isinstance(c, Tok):
                    if n['op'] == '!':
                        c = (not c) if c is not UNK else UNK
                        out.append((s, Val(v.deps, const=c)))
                        continue
                    out.append((s, Val(v.deps, const=-c if isinstance(c, (int, float)) else UNK)))
                elif n['op'] == '!' and c.t[0] == 'test' and c.t[3] in NEG:
                    out.append((s, Val(v.deps, const=Tok('test', c.t[1], c.t[2], NEG[c.t[3]]))))
                elif n['op'] == '-' and c.t[0] == 'diff':
                    out.append((s, Val(v.deps, const=-c)))
                elif n['op'] == '-' and c.t[0] == 'sol':
                    out.append((s, Val(v.deps, const=c)))
                else:
                    out.append((s, Val(v.deps)))
            return out
        return super().ev_un(n, st)

    def ev_bin(self, n, st):
        if n['op'] in ('&&', '||'):
            t, f, d = self.branch(n, [st])
            return self.merge_pairs([(s, Val(d, const=True)) for s in t] + [(s, Val(d, const=False)) for s in f])
        if n['op'] == '/':
            out = []
            for s, (a, b) in self.evs(n.c, st):
                c = a.const
                if isinstance(c, Tok) and c.t[0] == 'diff':
                    # the predicted decrease is taken to be positive: the quotient has the sign of the change
                    out.append((s, Val(a.deps | b.deps, const=c)))
                else:
                    out.append((s, Val(a.deps | b.deps)))
            return out
        return super().ev_bin(n, st)

    def rel(self, st, a, b):
        f = dict(dict(st.ts)['facts'])
        if (a, b) in f:
            return f[(a, b)]
        if (b, a) in f:
            return SWAP.get(f[(b, a)], f[(b, a)])
        return None

    def same(self, st, a, b):
        return a == b or self.rel(st, a, b) == '=='

    def cond_value(self, st, cond, v):
        if not isinstance(v.const, Tok):
            return v
        t = v.const
        v = Val(v.deps, info=t)
        if t.t[0] == 'test':
            if t.t[1] == t.t[2]:
                op = t.t[3]
                v.const = op in ('<=', '>=')
                return v
            r = self.rel(st, t.t[1], t.t[2])
            op = t.t[3]
            if r == '==':
                v.const = op in ('<=', '>=')
            elif r == op:
                v.const = True
            elif r is not None and op in NEG:
                if r == '<' and op == '<=' or r == '>' and op == '>=':
                    v.const = True
                elif r == '<' and op in ('>', '>=') or r == '>' and op in ('<', '<=') or r == NEG[op]:
                    v.const = False
            elif r in ('<', '<=') and op == 'some>' or r in ('>', '>=') and op == 'some<':
                v.const = False
        return v

    def on_branch(self, st, cond, v, truth):
        t = v.info
        if isinstance(t, Tok) and t.t[0] == 'test':
            a, b, op = t.t[1:]
            if op in ('some>', 'some<'):
                if not truth:
                    return True
                op = op[-1]
            elif not truth:
                op = NEG[op]
            old = self.rel(st, a, b)
            if old in ('<', '>', '==') and op in ('<=', '>='):
                op = old
            op = MEET.get((old, op), op)
            d = dict(st.ts)
            f = {k: x for k, x in d['facts'] if k not in ((a, b), (b, a))}
            f[(a, b)] = op
            if 'old' not in (a, b):
                setts(st, facts=frozenset(f.items()))
        return True


def base(p):
    out = []
    for c in p:
        if c and c[0] in '[@+':
            break
        out.append(c)
    return tuple(out)


def reach(prog, prims):
    """usrs of functions that may reach one of the primitive functions"""
    callers = {}
    for f in prog.functions():
        for n in f.walk():
            if n.k in ('call', 'ctor') and n.get('u'):
                callers.setdefault(n['u'], set()).add(f.u)
    out = set()
    todo = list(prims)
    while todo:
        for g in callers.get(todo.pop(), ()):
            if g not in out:
                out.add(g)
                todo.append(g)
    return out


def typestate(ctx):
    prog = facts.load('backend')
    ctx.rule('Every path through every optimizer loop is followed by an abstract interpreter whose state records, symbolically, which '
             'state of the design variables each cost variable belongs to (current, before the last update, rejected, older), '
             'whether an update is pending, what the branches taken say about the sign of the cost change, and where the linear '
             'system was built. The trust region policies are followed through their virtual calls, once per policy. Rules: a step '
             'is reverted only when an update is pending, and only once; a step that lowered the cost is not reverted; with a '
             'reverting policy a pending step survives only a path on which the cost was found not to be higher; a step is not '
             'applied when the linear solver failed; a linear system is not solved when it was built at other design variables; the '
             'cost reported at the end belongs to the design variables as they are left; the cost change a policy judges is that of '
             'the last step.')
    def named(cls, nm):
        return [f.u for f in prog.functions() if f.n == nm and f.fcls == cls]
    upd = {u for u in named(DV, 'update')}
    rev = {u for u in named(DV, 'revertUpdate')}
    ee = {u for u in named('aslam::backend::ErrorTerm', 'evaluateError')}
    bh = {u for u in named('aslam::backend::ErrorTerm', 'buildHessian')}
    ctx.need(upd and rev and ee, 'DesignVariable::update/revertUpdate or ErrorTerm::evaluateError are gone')
    # virtual interface of the solvers
    lss = prog.cls(LSS) if hasattr(prog, 'cls') else None
    virt = {}
    for f in prog.functions():
        for n in f.walk():
            if n.k == 'call' and n.get('fcls') == LSS and n.get('u'):
                virt.setdefault(n['n'], set()).add(n['u'])
    for nm, s in (('evaluateError', ee), ('buildSystem', bh)):
        for f in prog.functions():
            if f.n == nm and f.fcls and LSS in prog.bases(f.fcls) + [f.fcls]:
                s.add(f.u)
        s |= virt.get(nm, set())
    ru, rr, re_, rb = (reach(prog, x) for x in (upd, rev, ee, bh))
    solves = {f.u for f in prog.functions() if any(n.k == 'call' and n.get('fcls') == TRP for n in f.walk())}
    tops = []
    for f in prog.functions():
        if f.u in ru and f.u in re_ and f.u in rb | solves and f.body is not None and '_backend/' in f.rel + '/':
            tops.append(f)
    inner = set()
    for f in tops:
        for n in f.walk():
            if n.k == 'call' and n.get('u') and n['u'] != f.u:
                inner.add(n['u'])
    roots = [f for f in tops if f.u not in inner]
    ctx.need(roots, 'no optimizer loop was found')
    pol = sorted(c.fq for c in prog.subclasses(TRP) if not c.abstract)
    for f in sorted(roots, key=lambda f: f.fq):
        ctx.fns.add(f.u)
        uses_policy = any(n.k == 'call' and n.get('fcls') == TRP for g in [f] + tops for n in g.walk() if g.fcls == f.fcls)
        variants = []
        if uses_policy:
            variants = [(c, {}) for c in pol]
        else:
            lm = any(n.k == 'mem' and n['n'] == 'doLevenbergMarquardt' for n in f.walk() if n.get('n'))
            opts = set()
            for n in f.walk():
                if n.k == 'if' and n.c[0] is not None and n.c[0].k == 'mem' and n.c[0]['n'] == 'doLevenbergMarquardt':
                    opts.add(pathof(n.c[0]))
            variants = [(None, {p: b for p in opts}) for b in (True, False)] if opts else [(None, {})]
        for policy, consts in variants:
            one(ctx, prog, f, policy, consts, upd, rev, ee, bh, ru, rr, re_, rb)
    ctx.at_least('optimizer loops followed', 3)


def pathof(n):
    if n.k == 'this':
        return ('this',)
    return pathof(n.c[0]) + (n['n'],)


def one(ctx, prog, f, policy, consts, upd, rev, ee, bh, ru, rr, re_, rb):
    e = OptEngine(prog)
    e.policy = policy
    both = (ru & rr)
    pure_u = {u for u in ru if u not in rr and u not in re_ and u not in rb} | upd
    pure_r = {u for u in rr if u not in ru and u not in re_ and u not in rb} | rev
    e.update, e.revert = pure_u, pure_r
    e.prims_u, e.prims_r = upd, rev
    e.evalerr = set(ee)
    e.build = {u for u in rb if u not in ru and u not in re_ and u not in rr} | bh
    rel = (ru & (re_ | rr)) | re_
    # the policies are followed as well
    pols = {g.u for g in prog.functions() if g.fcls and TRP in prog.bases(g.fcls) + [g.fcls] and g.n != 'printState'}
    rel |= pols
    e.build -= pols
    # members that hand costs around
    names = {n['n'] for g in prog.functions() if g.fcls == f.fcls for n in g.walk()
             if n.k == 'mem' and n.c and n.c[0].k == 'this' and not n.get('fn') and n.type.b == 'float'}
    rel |= {g.u for g in prog.functions() if g.fcls == f.fcls and g.n not in ('initialize',)
            and any(n.k == 'mem' and n.c and n.c[0].k == 'this' and n['n'] in names for n in g.walk())}
    e.relevant = rel - e.update - e.revert - e.evalerr - e.build
    st = State()
    st.ts = frozenset({'tent': False, 'lin': None, 'facts': frozenset(), 'keepall': False, 'stepped': False, 'once': None}.items())
    keepall = False
    if consts:
        for p, b in consts.items():
            st.consts[p] = b
        keepall = not any(consts.values())
    if policy:
        g = prog.method(policy, 'revertOnFailure')
        vals = set()
        if g is not None:
            for n in g.walk():
                if n.k == 'return' and n.c and n.c[0] is not None and n.c[0].k == 'lit':
                    vals.add(n.c[0]['v'])
        keepall = vals == {False}
    setts(st, keepall=keepall)
    name = f.q.split('::', 2)[-1] + ((' with ' + policy.split('::')[-1]) if policy else '') + \
        (' (%s)' % ('Levenberg-Marquardt' if not keepall else 'Gauss-Newton') if consts else '')
    if policy:
        wrap_policy(e, prog)
    res, thrown = e.run(f, dyn=f.fcls, st=st)
    ctx.count('optimizer loops followed')
    ctx.count('states at exits', len(res))
    for k, v in e.n.items():
        ctx.count(k, v)
    ctx.fns |= e.analysed
    seen = set()
    for s, v in res:
        e.accept(s, None, 'end')
        jf = [c for p, c in s.consts.items() if p[-1] == 'JFinal']
        if not res_has(e, s, v, 'JFinal'):
            pass
        c = final_cost(s, v)
        if c is None:
            e.out.append(('final-unknown', None, None))
        elif isinstance(c, Tok) and c.t[0] == 'cost' and not e.same(s, c.t[1], 'cur'):
            e.out.append(('final-cost', None, 'the final cost reported is that of %s design variables'
                          % {'prev': 'the previous', 'rej': 'the rejected', 'old': 'earlier'}[c.t[1]]))
        else:
            ctx.count('final costs that belong to the final state')
    for rule, node, msg in e.out:
        if msg is None:
            ctx.count('exits whose final cost was not understood')
            continue
    
        fn = node.fn if node is not None else f
        ctx.violate(rule, name, fn.where(node.line) if node is not None else f.where(), '%s: %s' % (name, msg))
    ctx.sample('%s: %d states at exits, %s' % (name, len(res), dict(e.n)))


def res_has(e, s, v, nm):
    return True


def final_cost(s, v):
    cands = [c for p, c in s.consts.items() if p[-1] == 'JFinal' and isinstance(c, Tok)]
    if len(set(cands)) == 1:
        return cands[0]
    return None


def wrap_policy(e, prog):
    """the cost change a policy judges"""
    old = e.call_hook

    def hook(st, node, recv, args):
        if node.get('n') == 'get_dJ':
            r = None
            g = prog.fns.get(node['u'])
            outs = e.enter(g, recv.paths if recv is not None else frozenset([('this',)]), e.policy, [], st, node)
            for s, v in outs:
                c = v.const if v is not None else UNK
                e.note('cost changes judged by a policy')
                d = dict(s.ts)
                if isinstance(c, Tok) and c.t[0] == 'diff':
                    want = ('prev', 'cur') if d['tent'] else ('cur', 'rej')
                    if not (e.same(s, c.t[1], want[0]) and e.same(s, c.t[2], want[1])) and d['stepped']:
                        e.out.append(('judged-change', node, 'the policy judges the cost of %s minus that of %s design variables '
                                      'instead of the change made by the last step' % (c.t[1], c.t[2])))
            return [(s, v or Val()) for s, v in outs]
        if node.get('n') == 'solveSystem' and node.get('fcls') != LSS and node.get('u') in e.relevant:
            g = e.resolve(st, node, recv)
            out = []
            for s, v in e.enter(g, recv.paths, e.policy, args, st, node):
                setts(s, stepped=False)
                out.append((s, v or Val()))
            return out
        return old(st, node, recv, args)
    e.call_hook = hook
