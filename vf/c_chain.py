"""Contracts of the lookups that walk from a scope to the scopes it was opened from, for chains of any length.

requires  the receiver is the end of a chain of n+1 scopes; every scope has any context (or none); levels strictly decrease towards the root
ensures   context: _resolve_from_context returns the value of the nearest scope whose context has the key, whatever the value is, and raises
                   DIWireDependencyNotRegisteredError when no scope has it; contexts are only read
          owner  : the open-generic wrapper of a level is the wrapper in the receiver's own chain whose level it is, or none
          scope  : an open-generic provider runs in and is cached on that wrapper, or DIWireScopeMismatchError is raised
Loops carry the invariant `the cursor is the j-th scope and no scope before it matches`; j is arbitrary, so there is no bound. The same
contracts are first explored on chains of up to four scopes, where a failure is definite."""
from __future__ import annotations
import ast
import z3
from . import src
from .sym import Engine, Obj, Exc, SI, SV, SymMap, BM, PyRaise, PathEnd, Unsupported, _Break, _Continue
from .ind import assigned, InvFail, POISON
from .c_rcontext import outcome
from diwire import exceptions as X, Lifetime, Container, Scope, FromContext, MissingPolicy, DependencyRegistrationPolicy

ASSUMPTIONS = ["context mappings supplied by the user behave like mappings (membership and lookup agree)"]


class Chain:
    """scopes 0..n; first = index of the first matching one, n+1 when none matches"""

    def __init__(self, p, n):
        self.p = p
        self.n = z3.IntVal(n) if isinstance(n, int) else z3.Int("n")
        self.first = z3.Int("first")
        self.nodes, self.idx = {}, {}
        p.assume(self.n >= 0)
        p.assume(self.first >= 0)
        p.assume(self.first <= self.n + 1)
        if isinstance(n, int):
            for i in range(n + 2):
                if p.branch(self.first == i, f"nearest match is scope {i}"):
                    break

    def node(self, i):
        i = z3.simplify(i)
        for z, o in self.nodes.values():
            if z3.eq(z, i) or not self.p.sat(z != i):
                return o
        o = self.make(i)
        self.nodes[id(o)] = (i, o)
        return o

    def index(self, o):
        return self.nodes[id(o)][0] if isinstance(o, Obj) and id(o) in self.nodes else None

    def parent(self, i):
        if self.p.branch(i >= self.n, "this is the root"):
            return None
        return self.node(i + 1)

    def matches(self, i):
        """defining property of `first`, instantiated at i"""
        return self.p.branch(i == self.first, "this scope matches") if not self.p.branch(i > self.first, "beyond the nearest match") else None


class Walk:
    def __init__(self, cand):
        self.cand, self.failed = cand, None

    def __call__(self, p, s, fr, it=None):
        ch = p.chain
        if not isinstance(s, ast.While):
            return False
        names = assigned(s.body)
        home = {}
        for n in names:
            f = fr
            while f is not None and n not in f.vars:
                f = f.parent
            home[n] = f if f is not None and n in f.vars else fr
        entry = {n: home[n].vars.get(n, POISON) for n in names}
        cur = [n for n in names if ch.index(entry[n]) is not None or entry[n] is None]
        start = [ch.index(entry[n]) for n in cur if entry[n] is not None]
        if not start:
            return False           # the chain ends here: the loop is executed as it is
        if len(start) != 1:
            raise Unsupported("a loop with more than one cursor")
        walk = next(n for n in cur if ch.index(entry[n]) is not None)
        j = z3.Int(f"j_{p.nfresh}")
        p.nfresh += 1
        p.must(not p.sat(start[0] > ch.first), ch.name, "the walk starts beyond the nearest match")
        p.assume(j >= start[0])
        p.assume(j <= ch.n + 1)
        p.assume(j <= ch.first)
        for n in names:
            home[n].vars[n] = entry[n] if self.cand.get((s.lineno, n), "same") == "same" else POISON
        end = p.branch(j > ch.n, "the walk is over")
        home[walk].vars[walk] = None if end else ch.node(j)
        t = p.truthy(p.eval(s.test, fr), "while")
        if end:
            if t:
                raise Unsupported("the loop goes on after the root")
            return True
        if not t:
            return True
        try:
            p.block(s.body, fr)
        except _Continue:
            pass
        except _Break:
            return True
        v = home[walk].vars[walk]
        i = ch.index(v)
        ok = v is None and not p.sat(j < ch.n) or i is not None and not p.sat(i != j + 1)
        if not ok:
            self.failed = "cursor"
            raise InvFail(f"after an iteration at scope j the cursor is {v!r}, not scope j+1")
        p.must(not p.sat(j + 1 > ch.first), ch.name, "the walk passes the nearest match")
        for n in names:
            if n != walk and home[n].vars.get(n) is not entry[n] and self.cand.get((s.lineno, n), "same") == "same":
                self.failed = (s.lineno, n)
                raise InvFail(f"{n} changes in the loop")
        raise PathEnd()


def go_context(n):
    def setup(p):
        import diwire._internal.resolvers.assembly.compiler as comp
        ch = p.chain = Chain(p, n)
        ch.name = "context"
        key = p.fresh("key")
        vals = {}

        def make(i):
            o = Obj(None, f"scope{i}")

            def lazy(p, o, name):
                if name == "_parent_context_resolver":
                    return ch.parent(i)
                if name == "_root_resolver":
                    return ch.node(ch.n)
                if name == "_context":
                    m = ch.matches(i)
                    if m is not True and p.choose(2, "no context") == 1:
                        return None
                    if m is None:
                        m = p.choose(2, "a further scope has the key") == 1
                    v = p.fresh("value")
                    vals[id(v)] = (i, v)

                    def look(p, k):
                        if k is not key:
                            raise Unsupported(f"lookup of {k!r}")
                        return (m, v)
                    c = SymMap(look, f"context of scope {i}")
                    ctxs.append((c, dict(c.__dict__)))
                    return c
                raise Unsupported(f"attribute {name} of a scope")
            o.lazy = lazy
            return o
        ctxs = []
        ch.make = make
        k, r = outcome(p, lambda: p.call(comp._resolver_resolve_from_context, [ch.node(z3.IntVal(0)), key], {}), False)
        none = p.branch(ch.first > ch.n, "no scope has the key")
        if none:
            p.must(k == "raise" and isinstance(r, Exc) and r.cls is not None and issubclass(r.cls, X.DIWireDependencyNotRegisteredError), "context",
                   f"no scope has the key: {k} {r!r}")
        else:
            p.must(k == "ok", "context", f"the key is in a context: {k} {r!r}")
            e = vals.get(id(r))
            p.must(e is not None and not p.sat(e[0] != ch.first), "context", f"result {r!r} is not the value of the nearest scope that has the key")
        for c, d in ctxs:
            p.must(all(c.__dict__[x] is d[x] or c.__dict__[x] == d[x] for x in d), "context", "a context was written")
    return setup


def go_owner(n, what):
    def setup(p):
        import diwire._internal.open_generics as og
        ch = p.chain = Chain(p, n)
        ch.name = "owner"
        L = z3.Int("level")
        lev = z3.Function("lev", z3.IntSort(), z3.IntSort())

        p.assume(z3.Implies(ch.first <= ch.n, z3.And(lev(ch.first) == L, lev(ch.first) <= lev(z3.IntVal(0)) - ch.first)))

        def make(i):
            o = Obj(og.OpenGenericResolver, f"wrapper{i}")
            # levels decrease towards the root; the nearest wrapper of the level is `first`
            p.assume(lev(i) <= lev(z3.IntVal(0)) - i)
            p.assume(z3.Implies(i <= ch.n, lev(i) >= lev(ch.n) + ch.n - i))
            p.assume(z3.Implies(i < ch.first, lev(i) != L))
            p.assume(z3.Implies(z3.And(i == ch.first, i <= ch.n), lev(i) == L))
            p.assume(z3.Implies(i > ch.first, lev(i) < L))

            def lazy(p, o, name):
                if name == "_parent_wrapper":
                    return ch.parent(i)
                if name == "_root_wrapper":
                    return ch.node(ch.n)
                if name == "_scope_level":
                    return SI(lev(i))
                raise Unsupported(f"attribute {name} of a wrapper")
            o.lazy = lazy
            return o
        ch.make = make
        me = ch.node(z3.IntVal(0))
        ch.node(ch.n)
        R = og.OpenGenericResolver
        if what == "_scope_owner_for_level":
            k, r = outcome(p, lambda: p.call(R._scope_owner_for_level, [me, SI(L)], {}), False)
        else:
            spec = Obj(None, "spec", lazy=lambda p, o, n: (_ for _ in ()).throw(Unsupported(f"spec.{n}")))
            lt = [Lifetime.SCOPED, Lifetime.TRANSIENT][p.choose(2, "lifetime")]
            sc = Obj(None, "scope")
            sc.fields["level"] = SI(L)
            spec.fields.update(scope=sc, lifetime=lt)
            k, r = outcome(p, lambda: p.call(getattr(R, what), [me, spec], {}), False)
        none = p.branch(ch.first > ch.n, "no wrapper of the level is open")
        i = ch.index(r)
        ob = "owner" if what == "_scope_owner_for_level" else "scope"
        if what == "_resolve_cache_owner" and lt is Lifetime.TRANSIENT:
            p.must(k == "ok" and r is None, ob, f"a TRANSIENT template has a cache: {k} {r!r}")
        elif none and what == "_resolve_execution_owner":
            p.must(k == "raise" and isinstance(r, Exc) and r.cls is X.DIWireScopeMismatchError, ob, f"the level is not open: {k} {r!r}")
        elif none:
            p.must(k == "ok" and r is None, ob, f"the level is not open: {k} {r!r}")
        else:
            p.must(k == "ok" and i is not None and not p.sat(i != ch.first), ob, f"{k} {r!r} instead of the wrapper of that level")
    return setup


def units(tier, seed, opts):
    return [("context",)] + [("owner", w) for w in ("_scope_owner_for_level", "_resolve_cache_owner", "_resolve_execution_owner")]


def run(u, deadline, col):
    eng = Engine()
    go = (lambda n: go_context(n)) if u[0] == "context" else (lambda n: go_owner(n, u[1]))
    name = "_resolve_from_context" if u[0] == "context" else u[1]
    import diwire._internal.open_generics as og
    if u[0] == "owner" and not hasattr(og.OpenGenericResolver, u[1]):
        return
    good = True
    for n in range(4):
        r = eng.explore(go(n), deadline=deadline)
        good &= r.status == "proved"
        col.result(f"{name} on chains of {n + 1} scopes", r, replay_context if u[0] == "context" else None)
    if good:
        cand = {}
        for _ in range(8):
            h = Walk(cand)

            def setup(p):
                p.loop_handler = h
                go(None)(p)
            r = eng.explore(setup, deadline=deadline)
            if h.failed is None or h.failed == "cursor" or cand.get(h.failed) == "poison":
                break
            cand[h.failed] = "poison"
        if r.status == "violated":
            r.status, r.reason, r.bad = "undecided", "not inductive: " + r.reason, {}
        col.result(f"{name} on chains of any length", r)
    col.engine(eng)


def replay_context():
    """chains of up to four real scopes, every assignment of contexts"""
    import itertools

    class K:
        pass

    class B:
        pass
    lv = [Scope.SESSION, Scope.REQUEST, Scope.ACTION, Scope.STEP]
    for cleanup in (False, True):
        c = Container(missing_policy=MissingPolicy.ERROR, dependency_registration_policy=DependencyRegistrationPolicy.IGNORE, use_resolver_context=False)
        c.add(B, scope=Scope.SESSION)
        root = c.compile()
        for k in range(1, 5):
            for pat in itertools.product(("none", "other", "none-value", "value"), repeat=k):
                r, want, log = root, "missing", []
                for i, x in enumerate(pat):
                    v = object() if x == "value" else None
                    ctx = {"none": None, "other": {B: 1}}.get(x, {K: v})
                    r = r.enter_scope(lv[i], context=ctx)
                    log.append(f"enter {lv[i]} context {ctx}")
                    if x in ("none-value", "value"):
                        want = v
                try:
                    got = r.resolve(FromContext[K])
                except X.DIWireDependencyNotRegisteredError:
                    got = "missing"
                except Exception as e:
                    got = e
                if got is not want:
                    return dict(category="ctx", message=f"FromContext[K] gives {got!r}, expected {want!r}", log=log)
    return None
