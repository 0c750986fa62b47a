"""What a comparison function compares: if it returns true, which members of the two objects were found equal."""
TOP = None     # "cannot be true": every fact holds


def meet(a, b):
    """facts that hold on both"""
    if a is TOP:
        return b
    if b is TOP:
        return a
    return a & b


def both(a, b):
    if a is TOP or b is TOP:
        return TOP
    return a | b


class Sameness:
    def __init__(self, prog):
        self.prog = prog
        self.stack = []

    def compare(self, f, dyn=None):
        """members m such that f(rhs) == true implies this->m was compared with rhs.m; TOP: never true"""
        return self.fn(f, {'this': ('A', ())}, {f.params[i]['d']: ('B', ()) for i in range(min(1, len(f.params)))})

    def fn(self, f, this, binding):
        if f.u in self.stack:
            return frozenset()
        self.stack.append(f.u)
        self.ret = getattr(self, 'ret', None)
        saved = self.ret
        self.ret = []
        try:
            env = {'obj': dict(binding), 'this': this.get('this'), 'bool': {}, 'mention': {}}
            facts, env = self.st(f.body, frozenset(), env)
            r = TOP
            for x in self.ret:
                r = meet(r, x)
            return r
        finally:
            self.ret = saved
            self.stack.pop()

    # ---- statements: facts known on the fall-through path (TOP: unreachable)
    def st(self, n, fx, env):
        if n is None or fx is TOP:
            return fx, env
        k = n.k
        if k == 'block':
            for x in n.c:
                fx, env = self.st(x, fx, env)
            return fx, env
        if k == 'decl':
            for v in n.c:
                if v is not None:
                    fx, env = self.st(v, fx, env)
            return fx, env
        if k == 'var':
            d = n.get('d')
            init = n.c[0] if n.c else None
            if init is not None:
                o = self.obj(init, env)
                if o:
                    env['obj'][d] = o
                env['mention'][d] = self.mentions(init, env)
                if n.type.b == 'bool' and not n.type.isref:
                    env['bool'][d] = (self.true(init, env), self.false(init, env))
            return fx, env
        if k == 'return':
            if n.c and n.c[0] is not None:
                self.ret.append(both(fx, self.true(n.c[0], env)))
            return TOP, env
        if k == 'throw':
            return TOP, env
        if k == 'if':
            c, t, e = self.ifparts(n)
            e1, e2 = self.cp(env), self.cp(env)
            self.refine(c, e1, True)
            self.refine(c, e2, False)
            a, e1 = self.st(t, both(fx, self.true(c, env)), e1)
            b = both(fx, self.false(c, env))
            if e is not None:
                b, e2 = self.st(e, b, e2)
            return meet(a, b), self.joinenv(e1, a, e2, b)
        if k in ('for', 'while', 'range', 'do'):
            # loops over elements run over all of them
            body = {'for': 3, 'while': 1, 'range': 2, 'do': 0}[k]
            if k == 'for':
                fx, env = self.st(n.c[0], fx, env)
            if k == 'range':
                o = self.obj(n.c[1], env)
                env['mention'][n.c[0]['d']] = self.mentions(n.c[1], env)
            fx2, env = self.st(n.c[body], fx, env)
            return (fx if fx2 is TOP else fx2), env
        if k == 'try':
            for x in n.c[:1]:
                fx, env = self.st(x, fx, env)
            return fx, env
        if k in ('assign',):
            l = n.c[0]
            if l is not None and l.k == 'ref' and l.get('d') in env['bool']:
                t, f = self.true(n.c[1], env), self.false(n.c[1], env)
                ot, of = env['bool'][l['d']]
                if n['op'] == '&=':
                    t, f = both(ot, t), meet(of, f)
                elif n['op'] == '|=':
                    t, f = meet(ot, t), both(of, f)
                env['bool'][l['d']] = (t, f)
            elif l is not None and l.k == 'ref':
                env['mention'][l['d']] = env['mention'].get(l['d'], frozenset()) | self.mentions(n.c[1], env)
            return fx, env
        if k in ('cast', 'paren', 'expr', 'clean'):
            for x in n.c:
                fx, env = self.st(x, fx, env)
            return fx, env
        if k == 'label' or k == 'attr':
            for x in n.c:
                fx, env = self.st(x, fx, env)
            return fx, env
        return fx, env

    @staticmethod
    def cp(env):
        return {'obj': dict(env['obj']), 'this': env['this'], 'bool': dict(env['bool']), 'mention': dict(env['mention'])}

    def refine(self, c, env, truth):
        """the branch on c with that outcome is taken"""
        while c is not None and c.k in ('cast', 'paren', 'clean'):
            c = c.c[0]
        if c is None:
            return
        if c.k == 'un' and c.get('op') == '!':
            return self.refine(c.c[0], env, not truth)
        if c.k == 'bin' and c['op'] == ('&&' if truth else '||'):
            self.refine(c.c[0], env, truth)
            self.refine(c.c[1], env, truth)
        if c.k == 'ref' and c.get('d') in env['bool']:
            t, f = env['bool'][c['d']]
            env['bool'][c['d']] = (t, TOP) if truth else (TOP, f)

    @staticmethod
    def joinenv(a, ua, b, ub):
        if ua is TOP:
            return b
        if ub is TOP:
            return a
        a['bool'] = {d: tuple(meet(both(ua, a['bool'][d][i]), both(ub, b['bool'][d][i])) for i in (0, 1))
                     for d in a['bool'] if d in b['bool']}
        return a

    @staticmethod
    def ifparts(n):
        return n.c[0], n.c[1], n.c[2] if len(n.c) > 2 else None

    # ---- expressions
    def obj(self, n, env):
        """('A'|'B', member path) if n denotes (a part of) one of the two objects"""
        if n is None:
            return None
        k = n.k
        if k == 'this':
            return env['this']
        if k == 'ref':
            return env['obj'].get(n.get('d'))
        if k == 'mem':
            b = self.obj(n.c[0], env) if n.c else None
            return (b[0], b[1] + (n['n'],)) if b else None
        if k in ('cast', 'un', 'paren', 'clean', 'definit'):
            if k == 'un' and n.get('op') not in ('*', '&'):
                return None
            return self.obj(n.c[0], env) if n.c else None
        if k == 'call' and n.get('op') in ('*', '->') and len(n.c) == 1:
            return self.obj(n.c[0], env)
        if k == 'call' and n.get('n') in ('get', 'derived') and len(n.c) == 1:
            return self.obj(n.c[0], env)
        if k == 'call' and (n.get('q') or '').startswith(('std::dynamic_pointer_cast', 'boost::dynamic_pointer_cast')):
            return self.obj(n.c[0], env)
        return None

    def mentions(self, n, env):
        """(side, member) pairs that occur in n"""
        out = set()
        if n is None:
            return frozenset()
        o = self.obj(n, env)
        if o:
            if o[1]:
                out.add((o[0], o[1][0]))
                return frozenset(out)
            # the whole object
            out.add((o[0], '*'))
            return frozenset(out)
        if n.k == 'ref' and n.get('d') in env['mention']:
            return env['mention'][n['d']]
        if n.k == 'lambda':
            f = n.get('body')
        # a getter of one of the objects
        if n.k == 'call' and n.get('obj') and n.c:
            b = self.obj(n.c[0], env)
            if b and not b[1]:
                f = self.prog.fns.get(n.get('u'))
                if f is not None and f.const:
                    for m in f.body.walk():
                        if m.k == 'mem' and m.c and m.c[0] is not None and m.c[0].k == 'this':
                            out.add((b[0], m['n']))
                    for x in n.c[1:]:
                        out |= self.mentions(x, env)
                    return frozenset(out)
        for x in n.c:
            out |= self.mentions(x, env)
        return frozenset(out)

    def pair(self, n, env):
        m = self.mentions(n, env)
        return frozenset(x for s, x in m if s == 'A' and ('B', x) in m)

    def true(self, n, env):
        return self.ev(n, env, True)

    def false(self, n, env):
        return self.ev(n, env, False)

    def ev(self, n, env, truth):
        if n is None:
            return frozenset()
        k = n.k
        if k in ('paren', 'clean'):
            return self.ev(n.c[0], env, truth)
        if k == 'lit':
            v = n.get('v')
            if isinstance(v, bool) or v in (0, 1):
                return frozenset() if bool(v) == truth else TOP
            return frozenset()
        if k == 'ref':
            if n.get('d') in env['bool']:
                return env['bool'][n['d']][0 if truth else 1]
            return frozenset()
        if k == 'un' and n.get('op') == '!':
            return self.ev(n.c[0], env, not truth)
        if k == 'bin' and n['op'] in ('&&', '||'):
            a, b = n.c
            if (n['op'] == '&&') == truth:
                return both(self.ev(a, env, truth), self.ev(b, env, truth))
            x = self.ev(a, env, truth)
            y = both(self.ev(a, env, not truth), self.ev(b, env, truth))
            return meet(x, y)
        if k == 'bin' and n['op'] == '&' and n.type.b == 'bool':
            a, b = n.c
            if truth:
                return both(self.ev(a, env, True), self.ev(b, env, True))
            return frozenset()
        if k == 'cond':
            c, a, b = n.c[:3]
            x = both(self.ev(c, env, True), self.ev(a, env, truth))
            y = both(self.ev(c, env, False), self.ev(b, env, truth))
            return meet(x, y)
        if k == 'cast':
            return self.ev(n.c[0], env, truth)
        if (k == 'bin' and n['op'] in ('==', '!=')) or (k == 'call' and n.get('op') in ('==', '!=')):
            if (n.get('op') == '==') == truth:
                return self.pair(n, env)
            # comparison with a constant: helper(...) == false
            for i in (0, 1):
                x = n.c[i]
                while x is not None and x.k == 'cast':
                    x = x.c[0]
                if x is not None and x.k == 'lit' and isinstance(x.get('v'), bool):
                    want = x['v'] == (n['op'] == '==')
                    return self.ev(n.c[1 - i], env, want == truth)
            return frozenset()
        if k == 'call':
            return self.call(n, env, truth)
        if k == 'bin' and n['op'] in ('<', '<=', '>', '>='):
            return self.pair(n, env)
        return frozenset()

    def call(self, n, env, truth):
        f = self.prog.fns.get(n.get('u'))
        # a method of the object itself (a base class's comparison, an extracted helper)
        if f is not None and n.get('obj') and n.c:
            b = self.obj(n.c[0], env)
            if b and not b[1]:
                bind = {}
                for i, p in enumerate(f.params):
                    if i + 1 < len(n.c):
                        o = self.obj(n.c[i + 1], env)
                        if o:
                            bind[p['d']] = o
                if truth and f.ret.b == 'bool':
                    return self.fn(f, {'this': b}, bind)
                return frozenset()
        if f is not None and not n.get('obj') and f.ret.b == 'bool' and truth and f.file.startswith(self.repo()):
            bind = {}
            for i, p in enumerate(f.params):
                if i < len(n.c):
                    o = self.obj(n.c[i], env)
                    if o:
                        bind[p['d']] = o
            if len([1 for o in bind.values() if not o[1]]) >= 2:
                return self.fn(f, {'this': None}, bind)
        if truth:
            return self.pair(n, env)
        # "different(a, b)" helpers are not recognised
        return frozenset()

    def repo(self):
        import facts
        return facts.REPO
