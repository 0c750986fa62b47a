"""Saved data can be loaded again: archives are read in the order they are written."""
import re

import facts
from engine import Engine, State, Val, Lin, fs, pstr, overlaps, EMPTY, UNK
from dv import DvEngine, joined, short, is_in, toks
from derived import field_types
from sameness import Sameness


def norm(s):
    return re.sub(r'\s+', '', re.sub(r'\bconst\b', '', s))


class SerEngine(Engine):
    assume_loops_run = True
    ignore_calls = True
    max_states = 256

    def __init__(self, prog):
        super().__init__(prog)
        self.events = {}      # (sequence so far, event) -> Val saved

    def call_token(self, n, recv):
        return EMPTY

    def call_hook(self, st, node, recv, args):
        q = node.get('q') or ''
        if q == 'boost::serialization::make_nvp' and len(args) == 2:
            nm = args[0].const
            return [(st, Val(args[1].deps, args[1].paths, obj=('nvp', nm if nm is not UNK else '?')))]
        if q.startswith('boost::serialization::make_') and args:
            a = args[0]
            d = EMPTY
            for x in args:
                d |= x.deps
            return [(st, Val(d, a.paths, obj=('raw', q.split('::')[-1])))]
        if q == 'boost::serialization::base_object' and args:
            return [(st, args[0])]
        if q.startswith('verif::Saver::operator') or q.startswith('verif::Loader::operator'):
            load = 'Loader' in q
            ops = ([recv] if recv is not None else []) + list(args)
            v = ops[1]
            ch = node.c[1]
            name = v.obj[1] if v.obj and v.obj[0] == 'nvp' else ''
            seq = st.ts or ()
            key = (name, norm(ch.type.s), ch.fn.u, ch.id)
            if key in seq:
                i = seq.index(key)
            else:
                seq = seq + (key,)
                i = len(seq) - 1
                st.ts = seq
            d = v.deps
            for p in v.paths:
                d |= st.read(p)
            self.events[(seq, i, load)] = (d, v.paths)
            if load:
                for p in v.paths:
                    nv = Val(fs(('ev', i)))
                    st.write(p, nv, len(v.paths) == 1)
            return [(st, ops[0])]
        return None


def seqs(res):
    """[(event sequence without sites, sites, state)] of every exit"""
    out = []
    for s, v in res:
        out.append((tuple((e[0], e[1]) for e in (s.ts or ())), s))
    return out


def fmt(seq):
    return ', '.join(n or t for n, t in seq) or 'nothing'


# members that are deliberately not part of the saved state (see DESIGN.md)
NOT_SAVED = {
    'aslam::Keypoint._traceId',      # identifies a track within one run
}


def pairs(prog):
    """(name, class, save, load, version, registered version)"""
    out = []
    for c in sorted(prog.classes.values(), key=lambda c: c.fq):
        if c.fq.startswith('verif::Member<') or c.fq.startswith('verif::Free<') or c.fq.startswith('verif::One<'):
            go = prog.method(c.fq, 'go', None)
            if go is None:
                continue
            inner = c.fq[c.fq.index('<') + 1:-1]
            kind = c.fq.split('<')[0].split('::')[1]
            if kind == 'Member':
                cls, reg, decl = inner.rsplit(', ', 2)
                out.append((kind, cls, int(decl), int(reg)))
            else:
                out.append((kind, inner, 0, 0))
    return out


def run(prog, f, dyn, args):
    e = SerEngine(prog)
    res, _ = e.run(f, dyn=dyn, args=args)
    return e, res


def arg(i):
    return Val(fs(('in', ('arg%d' % i,))), fs(('arg%d' % i,)))


def roundtrip(ctx):
    prog = facts.load('serialization')
    ctx.rule('For every serialisable class: abstract interpretation of save and load (current version) records the sequence of '
             'archive operations on every path; both must perform the same operations (name and type) in the same order, every member '
             'that save writes must be restored by load from the entry at the same place, the version registered with the archive must be '
             'the version the class declares, and every remaining member must be rebuilt by load.')
    for kind, cn, ver, reg in pairs(prog):
        ctx.count('serialisable types')
        if kind == 'Member':
            c = prog.classes.get(cn)
            ctx.need(c is not None, 'class %s is not in the parsed sources' % cn)
            name = short(cn)
            sv = [f for f in prog.functions() if f.fcls == cn and f.n == 'save' and 'verif' in f.ptype(0).s]
            ld = [f for f in prog.functions() if f.fcls == cn and f.n == 'load' and 'verif' in f.ptype(0).s]
            ctx.need(len(sv) == 1 and len(ld) == 1, 'save/load of %s are not instantiated' % cn)
            if reg != ver:
                ctx.violate('version', name, ld[0].where(), '%s: archives carry version %d, the class declares version %d: what save writes cannot be loaded'
                            % (name, reg, ver))
            e1, r1 = run(prog, sv[0], cn, [arg(0), Val(const=ver)])
            e2, r2 = run(prog, ld[0], cn, [arg(0), Val(const=ver)])
            root = 'this'
        else:
            go = prog.method('verif::%s<%s>' % (kind, cn), 'go', None)
            called = [prog.fns.get(n.get('u')) for n in go.body.walk() if n.k == 'call' and n.get('n') in ('save', 'load', 'serialize')]
            ctx.need(len(called) == 2 and all(called), 'save/load of %s are not instantiated' % cn)
            free(ctx, prog, cn, *called)
            continue
        for v in range(ver):
            older(ctx, prog, name, cn, sv[0], ld[0], v, r1)
        compare(ctx, prog, name, c, sv[0], ld[0], e1, r1, e2, r2, root)
        ctx.fns |= e1.analysed | e2.analysed


def older(ctx, prog, name, cn, sv, ld, v, r1):
    """archives of an earlier version: load either refuses them or gives every member a value"""
    e, r = run(prog, ld, cn, [arg(0), Val(const=v)])
    ctx.count('earlier archive versions')
    now = set()
    for s, _ in r1:
        for q in s.ts or ():
            now.add(q[0])
    init = set()
    ctors = [f for f in prog.functions() if f.fcls == cn and f.kind == 'ctor' and not f.params]
    for f in ctors[:1]:
        rc, _ = SerEngine(prog).run(f, dyn=cn)
        for s, _ in rc:
            init |= {k[1] for k in s.store if k[0] == 'this' and len(k) > 1}
    for s, _ in r:
        for m in sorted(now):
            if m in init:
                continue       # a fresh object has a value
            if not m or m not in field_types(prog, prog.classes[cn]):
                continue
            ctx.count('obligations')
            if not any(k[:2] == ('this', m) for k in s.store) and ('this',) not in s.store:
                ctx.violate('older-version', '%s.%d.%s' % (name, v, m), ld.where(),
                            '%s: loading an archive of version %d into a fresh object leaves the member %s without a value' % (name, v, m))


def free(ctx, prog, cn, sv, ld):
    """a pair of free functions"""
    e1, r1 = run(prog, sv, None, [arg(0), arg(1), Val(const=0)])
    e2, r2 = run(prog, ld, None, [arg(0), arg(1), Val(const=0)])
    ctx.fns |= e1.analysed | e2.analysed
    ctx.count('obligations', 2)
    A = {q for q, s in seqs(r1)}
    B = {q for q, s in seqs(r2)}
    ctx.sample('%s: %s' % (cn, ' | '.join(fmt(q) for q in sorted(A))))
    if not r1 or not r2:
        raise facts.AnalysisBroken('save/load of %s never return' % cn)
    if not any(A):
        ctx.violate('same-order', cn, sv.where(), '%s: nothing is saved' % cn)
    if A != B:
        x = sorted(A - B) or sorted(A)
        y = sorted(B - A) or sorted(B)
        ctx.violate('same-order', cn, ld.where(), '%s: save writes {%s}, load reads {%s}' % (cn, fmt(x[0]), fmt(y[0])))
        return
    # what each entry is made of, by the part of the object it is written from and read to
    src = {}
    for s, v in r1:
        for i in range(len(s.ts or ())):
            d, paths = e1.events[(s.ts[:i + 1], i, False)]
            src[i] = {p[1:] for p in paths if p[0] == 'arg1'} or {t[1][1:] for t in d if t[0] == 'in' and t[1][0] == 'arg1'}
    for s, v in r2:
        n = len(s.ts or ())
        for i in range(n):
            d, paths = e2.events[(s.ts[:i + 1], i, True)]
            dst = {p[1:] for p in paths if p[0] == 'arg1'}
            ctx.count('obligations')
            if dst and src.get(i) and not any(overlaps(a, b) or a == b for a in map(lambda x: ('o',) + x, dst) for b in map(lambda x: ('o',) + x, src[i])):
                ctx.violate('restored', '%s.%d' % (cn, i), ld.where(),
                            '%s: entry %d is saved from {%s} and loaded into {%s}' % (cn, i, ', '.join(map(pstr, src[i])), ', '.join(map(pstr, dst))))
        if n and not any(t[0] == 'ev' for t in s.read(('arg1',))):
            ctx.violate('restored', cn, ld.where(), '%s: load leaves the object untouched on some path' % cn)


def compare(ctx, prog, name, c, sv, ld, e1, r1, e2, r2, root):
    ctx.count('obligations')
    if not r1 or not r2:
        ctx.violate('returns', name, ld.where(), '%s: %s never returns for the current version' % (name, 'save' if not r1 else 'load'))
        return
    A = {q for q, s in seqs(r1)}
    B = {q for q, s in seqs(r2)}
    ctx.sample('%s: %s' % (name, ' | '.join(fmt(q) for q in sorted(A))))
    ctx.count('archive operations', max(len(q) for q in A))
    if A != B:
        x = sorted(A - B) or sorted(A)
        y = sorted(B - A) or sorted(B)
        ctx.violate('same-order', name, ld.where(), '%s: save writes {%s}, load reads {%s}' % (name, fmt(x[0]), fmt(y[0])))
        return
    # member restored from its own entry
    saved = {}
    for s, v in r1:
        for i in range(len(s.ts or ())):
            d, paths = e1.events[(s.ts[:i + 1], i, False)]
            for p in paths:
                if p[0] == root and len(p) > 1:
                    saved.setdefault(p[1], set()).add(i)
            if not any(p[0] == root for p in paths):
                for t in d:
                    if t[0] == 'in' and t[1][0] == root and len(t[1]) > 1:
                        saved.setdefault(t[1][1], set()).add(i)
    for m, idx in sorted(saved.items()):
        ctx.count('obligations')
        for s, v in r2:
            got = {t[1] for t in s.read((root, m)) if t[0] == 'ev'}
            if not idx & got:
                ctx.violate('restored', name + '.' + m, ld.where(),
                            '%s: save writes the member %s as entry %s, but after load it comes from %s'
                            % (name, m, '/'.join(str(i) for i in sorted(idx)), 'entry ' + '/'.join(str(i) for i in sorted(got)) if got else 'nothing'))
    rest = []
    for f in c.fields:
        m = f['n']
        if f.get('static') or m in saved:
            continue
        st = joined(r2)
        if (root, m) in st.store or any(k[:2] == (root, m) for k in st.store):
            if any(t[0] == 'ev' for t in st.read((root, m))) or True:
                ctx.count('members rebuilt by load')
                continue
        rest.append(m)
    for m in rest:
        ctx.count('obligations')
        if (c.q + '.' + m) not in NOT_SAVED:
            ctx.violate('forgotten', name + '.' + m, sv.where(), '%s: the member %s is neither saved nor rebuilt by load' % (name, m))
    # the comparison that decides whether a loaded object is the saved one
    eq = [f for f in prog.functions() if f.n == 'isBinaryEqual' and f.fcls == c.fq and len(f.params) == 1 and f.ptype(0).r == c.fq]
    if eq:
        S = Sameness(prog)
        got = S.compare(eq[0])
        ctx.count('comparisons')
        for m in sorted(saved):
            ctx.count('obligations')
            if got is not None and m not in got:
                ctx.violate('compared', name + '.' + m, eq[0].where(),
                            '%s: isBinaryEqual can be true without comparing the saved member %s (it compares {%s})' % (name, m, ', '.join(sorted(got))))
        st = joined(r2)
        for m in sorted(got or ()):
            ctx.count('obligations')
            if m != '*' and m not in saved and not any(k[:2] == (root, m) for k in st.store) and m in field_types(prog, c) and \
                    not any(t[0] == 'ev' for t in st.read((root, m))):
                ctx.violate('compared', name + '.' + m, eq[0].where(),
                            '%s: isBinaryEqual compares the member %s, which load does not restore' % (name, m))
