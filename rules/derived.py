"""Members that are computed from other members stay in step with them."""
import facts
from engine import Engine, State, Val, Lin, fs, pstr, overlaps, EMPTY, UNK, lin, span
from dv import DvEngine, joined, short, is_in, toks
import camera

PKG = 'aslam'


class CacheEngine(camera.CamEngine):
    """typestate: the set of derived members that are out of step with their sources"""
    max_states = 32
    sources = {}         # derived member -> set of sources (names of direct members of *this)
    relevant = None      # functions that may write a member of interest

    def inline_ok(self, st, node, fn, recv):
        return self.relevant is None or fn.u in self.relevant


    def on_write(self, st, path, val, node, strong):
        if path[0] != 'this' or len(path) < 2:
            return
        m = path[1]
        ts = set(st.ts or ())
        for c, src in self.sources.items():
            if m in src:
                ts.add(c)
        if m in self.sources:
            ts.discard(m)
        st.ts = frozenset(ts)


def writers(prog, names):
    """usrs of the functions that mention a member of that name outside const methods, and their callers"""
    fns = list(prog.functions())
    rel = set()
    calls = {}
    for f in fns:
        for n in f.walk():
            if n.k == 'mem' and n['n'] in names and not f.const:
                rel.add(f.u)
            if n.k in ('call', 'ctor') and n.get('u'):
                calls.setdefault(n['u'], set()).add(f.u)
        if any(i.get('n') in names for i in f.inits):
            rel.add(f.u)
    todo = list(rel)
    while todo:
        for g in calls.get(todo.pop(), ()):
            if g not in rel:
                rel.add(g)
                todo.append(g)
    return rel


def field_types(prog, c):
    out = {}
    for b in prog.bases(c.fq):
        k = prog.classes.get(b)
        if k:
            for f in k.fields:
                out.setdefault(f['n'], k.ftype(f))
    return out


def this_fields(tokens):
    return {t[1][1] for t in tokens if t[0] == 'in' and t[1][0] == 'this' and len(t[1]) > 1}


def bodies(prog, c):
    """constructors and non-const member functions of c and of its bases that have a body"""
    bs = set(prog.bases(c.fq))
    own = {c.fq}
    for f in sorted(prog.functions(), key=lambda f: (f.file, f.line, f.fq)):
        if f.fcls in bs and not f.d.get('static') and f.kind != 'dtor' and not f.d.get('implicit'):
            if f.kind == 'ctor' and f.fcls not in own:
                continue
            if f.const:
                continue
            yield f


def infer(prog, c, eng, fns):
    """derived member -> sources, from every non-const method: a member written with a value that is
    computed (not copied) from other members, or together with them from the same argument"""
    der = {}
    params = {}
    for f in fns:
        res, _ = eng.run(f, dyn=c.fq)
        if not res:
            continue
        st = joined(res)
        mem = {}
        for k in st.store:
            if k[0] == 'this' and len(k) >= 2:
                mem.setdefault(k[1], []).append(k)
        for m, ks in mem.items():
            for k in ks:
                v = st.store[k]
                e = st.eq_of(k)
                if e is not None:
                    continue       # a copy or an affine update
                if any(is_in(t, k) for t in v):
                    continue       # depends on itself: an incremental change, not a derived value
                src = this_fields(v) - {m}
                # arguments that reach another member as a plain copy or affine update
                for t in v:
                    if t[0] == 'in' and t[1][0].startswith('arg'):
                        for o, oks in mem.items():
                            if o == m:
                                continue
                            for ok in oks:
                                x = st.eq_of(ok)
                                if x == t[1] or (isinstance(x, Lin) and any(p == t[1] for p, _ in x.t)):
                                    src.add(o)
                if src:
                    der.setdefault(m, {}).setdefault(f, set()).update(src)
    return der


def check_class(ctx, prog, c, sources, name, fns, why):
    e = CacheEngine(prog)
    e.sources = sources
    e.relevant = writers(prog, set(sources) | set().union(*sources.values()))
    ctx.count('classes with derived members')
    ctx.count('derived members', len(sources))
    for m, src in sorted(sources.items()):
        ctx.sample('%s.%s is computed from %s' % (name, m, ', '.join(sorted(src))))
    for f in fns:
        ctor = f.kind == 'ctor'
        if '%s.%s' % (name, 'ctor%d' % len(f.params) if ctor else f.n) in ctx.settled:
            ctx.count('member functions settled by value')
            continue
        st = State(frozenset(sources) if ctor else frozenset())
        res, _ = e.run(f, dyn=c.fq, st=st)
        ctx.count('member functions followed to every exit')
        for s, v in res:
            for m in sorted(sources):
                ctx.count('obligations')
                if m in (s.ts or ()):
                    ctx.violate('in-step', '%s.%s.%s' % (name, m, f.n), f.where(),
                                '%s: at an exit of %s the derived member %s has not been recomputed after %s changed'
                                % (name, f.n, m, ' / '.join(sorted(sources[m])) if not ctor else 'construction'))
                    continue
                # what the sources now hold must have reached the derived member
                dv = s.read(('this', m))
                for src in sorted(sources[m]):
                    if not any(k[:2] == ('this', src) for k in s.store):
                        continue
                    sv = s.read(('this', src))
                    new = [t for t in sv if t[0] == 'in' and t[1][0].startswith('arg')]
                    if new and not any(any(is_in(t, n[1]) for t in dv) for n in new) and not ('this', src) in why:
                        ctx.violate('in-step', '%s.%s.%s.%s' % (name, m, f.n, src), f.where(),
                                    '%s: at an exit of %s the derived member %s does not depend on {%s}, from which %s was just set'
                                    % (name, f.n, m, toks(new), src))
    ctx.fns |= e.analysed


def caches(ctx):
    prog = facts.load('cameras', 'bsplines', 'apriltarget', 'serialization')
    ctx.rule('Derived members are inferred: a member that some constructor or non-const method computes (not copies) from '
             'other members. Typestate over every constructor, non-const method and load function of the class: writing a source '
             'makes its derived members stale, writing the derived member makes it fresh; no exit may be reached with a stale one, '
             'and at the exit the derived member must depend on whatever its sources were set from.')
    seen = set()
    for c in camera.parts(prog):
        name = short(c.fq)
        fns = list(bodies(prog, c))
        L = camera.Layout(prog, c, ctx)
        prim = {k[1] for k in L.G.values()}
        der = infer(prog, c, DvEngine(prog), [f for f in fns if f.n != 'initializeIntrinsics'])
        # only values computed from the parameters
        src = {}
        for m, by in der.items():
            # what it is computed from in at least half of the functions that do
            s = {x for x in set().union(*by.values()) & prim if 2 * sum(x in v for v in by.values()) >= len(by)}
            if s and m not in prim:
                src[m] = s
        for k in L.derived:
            s = {q[1] for q in L.G.values() if any(is_in(t, q) for t in L.ust.store[k])}
            if s and k[1] not in prim:
                src.setdefault(k[1], s)
        ft = field_types(prog, c)
        # every number must be initialised by every constructor
        ctors = [f for f in fns if f.kind == 'ctor' and not copyish(f, c)]
        for f in ctors:
            e = DvEngine(prog)
            res, _ = e.run(f, dyn=c.fq)
            for s, v in res:
                for m, ty in sorted(ft.items()):
                    if not ty.scalar or ty.isptr:
                        continue
                    ctx.count('numbers initialised')
                    if not any(k[:2] == ('this', m) for k in s.store):
                        ctx.violate('initialised', '%s.%s.%d' % (name, m, len(f.params)), f.where(),
                                    '%s: a constructor leaves the member %s without a value' % (name, m))
        if src:
            check_class(ctx, prog, c, src, name, [f for f in fns if not copyish(f, c)], ())
    ctx.at_least('classes with derived members', 5)
    # splines
    c = next((c for c in prog.classes.values() if c.q.endswith('bsplines::BSpline')), None)
    fns = [f for f in bodies(prog, c) if not copyish(f, c)]
    ini = [f for f in fns if any(n.k == 'mem' and n['n'] == 'basisMatrices_' for n in f.walk())]
    ctx.need(ini, 'no method of BSpline computes basisMatrices_')
    check_class(ctx, prog, c, {'basisMatrices_': {'knots_'}}, 'bsplines::BSpline', [f for f in fns if f.kind != 'ctor' and f.d.get('access', 'public') in ('public', None)], ())
    # targets
    n = 0
    for c in sorted(prog.subclasses('aslam::cameras::GridCalibrationTargetBase'), key=lambda c: c.fq):
        g = prog.method(c.fq, 'createGridPoints', 0)
        if not g:
            continue
        n += 1
        e = DvEngine(prog)
        res, _ = e.run(g, dyn=c.fq)
        src = this_fields(joined(res).read(('this', '_points'))) - {'_points'}
        ctx.need(src, 'createGridPoints of %s computes nothing' % c.fq)
        fns = [f for f in bodies(prog, c) if not copyish(f, c) and f.fcls == c.fq]
        target(ctx, prog, c, src, short(c.fq), fns)
    ctx.need(n >= 3, 'only %d calibration targets' % n)


def target(ctx, prog, c, src, name, fns):
    """a calibration target: the grid points are computed after everything they are computed from"""
    e = CacheEngine(prog)
    ctx.count('classes with derived members')
    ctx.count('derived members')
    ctx.sample('%s._points is computed from %s' % (name, ', '.join(sorted(src))))
    for f in fns:
        if f.kind != 'ctor':
            continue
        res, _ = e.run(f, dyn=c.fq)
        for s, v in res:
            dv = s.read(('this', '_points'))
            for m in sorted(src):
                ctx.count('obligations')
                new = [t for t in s.read(('this', m)) if not (t[0] == 'in' and t[1][0] == 'this')]
                if new and not any(t in dv for t in new):
                    ctx.violate('in-step', '%s._points.%s.%s' % (name, f.n, m), f.where(),
                                '%s: at an exit of %s the grid points do not depend on {%s}, from which %s was set' % (name, f.n, toks(new), m))
    ctx.fns |= e.analysed


def copyish(f, c):
    """copy/move construction and assignment"""
    return (f.kind == 'ctor' and len(f.params) == 1 and f.ptype(0).r == c.fq) or f.n == 'operator='
