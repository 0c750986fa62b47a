"""Design variables: update / revert / set / get discipline."""
import facts
from engine import Engine, State, Val, fs, pstr, overlaps, EMPTY

DV = 'aslam::backend::DesignVariable'


class DvEngine(Engine):
    # element loops over a parameter vector run over the whole vector
    assume_loops_run = True
    ignore_calls = True

    def call_token(self, n, recv):
        return EMPTY

    def ex_if(self, n, states):
        # SM_ASSERT: the failing side throws; nothing special
        return super().ex_if(n, states)


def short(fq):
    return fq.replace('aslam::backend::', '').replace('aslam::cameras::', '').replace('aslam::splines::', '')


def tok(t):
    return pstr(t[1]) if t[0] == 'in' else str(t[1])


def toks(v):
    return ', '.join(sorted(tok(t) for t in v)) or 'nothing'


def by_value(ctx, fq, laws):
    """were all these laws of the class decided by value, on every path? Then how it is written does not matter"""
    import exprs
    mine = {k for k in (exprs.short(fq) + '.' + x for x in laws) if k in ctx.stated}
    if mine and mine <= ctx.settled:
        ctx.count('classes settled by value')
        return True
    return False


def concrete(prog, ctx):
    out = []
    for c in prog.subclasses(DV):
        if c.abstract:
            continue
        if not c.file.startswith(facts.REPO) or '/test/' in c.file:
            continue
        out.append(c)
    return sorted(out, key=lambda c: c.fq)


def joined(res):
    st = None
    for s, v in res:
        st = s if st is None else st.join(s)
    return st


def is_in(t, p):
    return t[0] == 'in' and (t[1] == p or t[1][:len(p)] == p or p[:len(t[1])] == t[1])


class Dv:
    """what an update of one design variable class does to its object"""

    def __init__(self, prog, c, ctx):
        self.c = c
        self.name = short(c.fq)
        self.up = prog.method(c.fq, 'update', 2)
        self.rv = prog.method(c.fq, 'revertUpdate', 0)
        self.upi = prog.method(c.fq, 'updateImplementation', 2)
        self.rvi = prog.method(c.fq, 'revertUpdateImplementation', 0)
        ctx.need(self.up and self.rv and self.upi and self.rvi,
                 'update/revertUpdate of %s have no body in the parsed sources' % c.fq)
        self.eng = DvEngine(prog)
        res, _ = self.eng.run(self.up, dyn=c.fq)
        ctx.need(res, 'update of %s never returns' % c.fq)
        self.st = joined(res)
        dp = ('arg0',)
        self.changed = []      # storage whose value depends on the step
        self.saved = []        # storage that holds a copy of the old value
        for k in self.st.store:
            if k[0] != 'this':
                continue
            v = self.st.read(k)
            if any(is_in(t, dp) for t in v):
                self.changed.append(k)
        self.changed = [k for k in self.changed if not any(len(o) > len(k) and o[:len(k)] == k for o in self.changed)
                        or any(is_in(t, dp) for t in self.st.store[k])]
        for k in self.st.store:
            if k[0] == 'this' and k not in self.changed and self.st.store[k]:
                self.saved.append(k)
        self.primary = [k for k in self.changed if any(is_in(t, k) for t in self.st.read(k))]
        self.cache = [k for k in self.changed if k not in self.primary]


def revert(ctx):
    prog = facts.load('backend', 'expr', 'cameras', 'splines', 'cvbackend', 'incremental')
    ctx.rule('For every concrete design variable class: abstract interpretation of update(dp) followed by '
             'revertUpdate() on the same abstract object; afterwards every member whose value depended on dp must '
             'depend on its own value before the update and on nothing else, and every derived (cached) member only on such members.')
    cls = concrete(prog, ctx)
    for c in cls:
        d = Dv(prog, c, ctx)
        ctx.count('design variable classes')
        ctx.count('members changed by an update', len(d.changed))
        res, _ = d.eng.run(d.rv, dyn=c.fq, st=d.st.copy())
        ctx.fns |= d.eng.analysed
        ctx.need(res, 'revertUpdate of %s never returns' % c.fq)
        st2 = joined(res)
        dp = ('arg0',)
        dims = prog.method(c.fq, 'minimalDimensionsImplementation', 0)
        if by_value(ctx, c.fq, ('history', 'set')):
            continue
        if not d.changed:
            # only a variable of dimension 0 may ignore its update
            zero = dimension(prog, c, dims)
            if zero != 0:
                ctx.violate('update-has-effect', d.name, d.upi.where(),
                            '%s::updateImplementation changes no member that depends on the step' % d.name)
            else:
                ctx.count('dimension-0 variables')
            continue
        for k in d.primary:
            ctx.count('obligations')
            v = st2.read(k)
            own = frozenset(t for t in v if is_in(t, k))
            bad = v - own
            if bad or not own:
                ctx.violate('revert-restores', d.name + '.' + pstr(k[1:]), d.rvi.where(),
                            'after update(dp); revertUpdate() the member %s of %s depends on {%s} instead of its value before the update'
                            % (pstr(k[1:]), d.name, toks(v)))
        for k in d.cache:
            ctx.count('obligations')
            v = st2.read(k)
            okp = d.primary
            allowed = set()
            before = d.st.read(k)
            for t in v:
                if t in before and not is_in(t, dp):
                    allowed.add(t)
                elif is_in(t, k):
                    allowed.add(t)   # restored from a copy of its own old value
            bad = v - allowed
            if bad or not v:
                ctx.violate('revert-refreshes', d.name + '.' + pstr(k[1:]), d.rvi.where(),
                            'after update(dp); revertUpdate() the derived member %s of %s depends on {%s}: it is not recomputed from the restored value'
                            % (pstr(k[1:]), d.name, toks(v)))
        ctx.sample('%s: changed {%s}, saved {%s}' % (d.name, ', '.join(pstr(k[1:]) for k in d.changed),
                                                    ', '.join(pstr(k[1:]) for k in d.saved)))
    ctx.at_least('design variable classes', 15)
    ctx.at_least('obligations', 1000)


def dimension(prog, c, fn):
    if fn is None:
        return None
    e = DvEngine(prog)
    res, _ = e.run(fn, dyn=c.fq)
    vals = {v.const for s, v in res if v is not None}
    return next(iter(vals)) if len(vals) == 1 else None


def values(ctx):
    prog = facts.load('backend', 'expr', 'cameras', 'splines', 'cvbackend', 'incremental')
    ctx.rule('For every concrete design variable class: after setParameters(x), getParameters must return element k '
             'from x[k] alone, every cached member must have been rewritten, and minimalDifference/getParameters must read '
             'the current value and never a copy kept for reverting.')
    for c in concrete(prog, ctx):
        d = Dv(prog, c, ctx)
        ctx.count('design variable classes')
        setp = prog.method(c.fq, 'setParameters', 1)
        getp = prog.method(c.fq, 'getParameters', 1)
        seti = prog.method(c.fq, 'setParametersImplementation', 1)
        geti = prog.method(c.fq, 'getParametersImplementation', 1)
        ctx.need(setp and getp and seti and geti, 'get/setParameters of %s have no body' % c.fq)
        whole = by_value(ctx, c.fq, ('set', 'difference'))
        if not d.changed and not whole:
            continue
        e = DvEngine(prog)
        res, _ = e.run(getp, dyn=c.fq)
        if res:
            v = joined(res).read(('arg0',))
            if not whole:
                stale_read(ctx, d, 'getParameters', geti, v, True)
        res, _ = e.run(setp, dyn=c.fq)
        if not res:
            continue
        st = joined(res)
        for k in d.cache if not whole else ():
            ctx.count('obligations')
            v = st.read(k)
            if any(t == ('in', k) for t in v) or any(any(t == ('in', b) for t in v) for b in d.saved):
                ctx.violate('set-refreshes', d.name + '.' + pstr(k[1:]), seti.where(),
                            'setParameters of %s leaves the derived member %s stale (it depends on {%s})'
                            % (d.name, pstr(k[1:]), toks(v)))
        for k in d.primary if not whole else ():
            ctx.count('obligations')
            v = st.read(k)
            if any(is_in(t, k) for t in v) or not any(is_in(t, ('arg0',)) for t in v):
                ctx.violate('set-sets', d.name + '.' + pstr(k[1:]), seti.where(),
                            'after setParameters(x) the member %s of %s depends on {%s} instead of x alone'
                            % (pstr(k[1:]), d.name, toks(v)))
        # read back through a second object
        a1 = ('arg9',)
        res, _ = e.run(getp, dyn=c.fq, args=[Val(fs(('in', a1)), fs(a1))], st=st.copy())
        if res and not whole:
            st2 = joined(res)
            elems = [k for k in st2.store if k[0] == 'arg9' and len(k) > 1]
            for k in elems or [a1]:
                ctx.count('obligations')
                v = frozenset(t for t in st2.read(k))
                want = ('arg0',) + k[1:]
                bad = [t for t in v if not is_in(t, want)]
                bad = [t for t in bad if not (t[0] == 'in' and t[1][0] == 'this' and
                                              not any(is_in(t, m) for m in d.changed + d.saved))]
                if bad or not any(is_in(t, want) for t in v):
                    ctx.violate('read-back', d.name + (pstr(k[1:]) if len(k) > 1 else ''), geti.where(),
                                'after setParameters(x), getParameters of %s returns at %s a value that depends on {%s} instead of x%s'
                                % (d.name, pstr(k[1:]) or 'the result', toks(v), pstr(k[1:])))
        for nm, np, outs in (('minimalDifference', 2, (1,)), ('minimalDifferenceAndJacobian', 3, (1, 2))):
            f = prog.method(c.fq, nm, np)
            fi = prog.method(c.fq, nm + 'Implementation', np)
            if not f or not fi:
                continue
            res, _ = e.run(f, dyn=c.fq)
            if not res:
                continue      # always throws "not implemented"
            s = joined(res)
            for o in outs:
                ctx.count('obligations')
                v = s.read(('arg%d' % o,))
                if not whole:
                    stale_read(ctx, d, nm, fi, v, o == 1 and any(is_in(t, ('arg0',)) for t in v))
                if o == 1 and not any(is_in(t, ('arg0',)) for t in v):
                    ctx.violate('difference-uses-argument', fi.q.replace('aslam::', ''), fi.where(),
                                '%s of %s does not depend on the reference value it is given' % (nm, d.name))
        ctx.fns |= e.analysed
    ctx.at_least('design variable classes', 15)
    ctx.at_least('obligations', 1000)


def stale_read(ctx, d, what, fn, v, must):
    """v: what a query of the current value depends on"""
    bad = [t for t in v if t[0] == 'in' and any(is_in(t, b) for b in d.saved)]
    if bad:
        ctx.violate('reads-current', d.name + '.' + what, fn.where(),
                    '%s of %s reads {%s}, the copy kept for reverting, instead of the current value' % (what, d.name, toks(bad)))
    elif must is None:
        pass
    elif must and not any(any(is_in(t, p) for p in d.changed) for t in v):
        ctx.violate('reads-current', d.name + '.' + what, fn.where(),
                    '%s of %s does not depend on the current value (it depends on {%s})' % (what, d.name, toks(v)))
