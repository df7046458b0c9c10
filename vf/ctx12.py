"""resolver_context bindings (C12): enter/exit/call histories over interleaved tasks and threads, against a stack model.

Tasks and threads are contextvars.Context objects stepped in a chosen interleaving (a task started by another one
copies its bindings, a thread starts with none), so every schedule is deterministic.
"""
from __future__ import annotations
import contextvars, random, threading
from . import lab
from .lab import Diverge, pick, run, Leave, X, Container, MissingPolicy, DependencyRegistrationPolicy, Scope, Lifetime, Injected, ResolverContext

CBASE = dict(steps=(10, 45), ops=[("enter", 4), ("exit", 3), ("call", 6), ("spawn", 1), ("scope", 2), ("config", .3), ("nested", 1)])


class Who:
    """one per resolver (scope): tells who resolved it"""


class Res:
    pass


class Bad(Exception):
    pass


class Node:
    def __init__(self, container, parent, real, level):
        self.container, self.parent, self.real, self.level = container, parent, real, level
        self.who = {}
        self.bound = False
        self.dead = False

    def owner(self):
        return self


class Task:
    def __init__(self, ctx, base, name):
        self.ctx, self.base, self.name = ctx, base, name
        self.stack = []

    def top(self):
        return self.stack[-1][0] if self.stack else self.base


class CSim:
    def __init__(self, rng, P):
        self.rng, self.P, self.log = rng, P, []
        self.rc = ResolverContext()
        self.containers = []
        self.fallback = None
        self.tasks = [Task(contextvars.Context(), None, "t0")]
        self.roots = {}
        self.nodes = []
        self.who = {}
        self.finbad = False
        rc = self.rc

        async def afn(w: Injected[Who], o: Injected[int] = None):
            return w

        def sfn(w: Injected[Who], o: Injected[int] = None):
            return w
        self.early = None
        if rng.random() < .7:
            self.config()
        if self.containers:
            self.fns = [rc.inject(sfn), rc.inject(afn), rc.inject(auto_open_scope=False)(sfn)]
        else:
            self.fns = [rc.inject(sfn), rc.inject(afn)]

    def config(self):
        rng = self.rng
        use = rng.random() < .8
        c = Container(missing_policy=rng.choice([MissingPolicy.ERROR, MissingPolicy.REGISTER_RECURSIVE]),
                      dependency_registration_policy=DependencyRegistrationPolicy.IGNORE,
                      resolver_context=self.rc, use_resolver_context=use)
        i = len(self.containers)
        sim = self

        def who():
            w = Who()
            yield w
            if sim.finbad:
                raise Bad(i)
        level = rng.choice([Scope.APP, Scope.APP, Scope.REQUEST])
        c.add_generator(who, provides=Who, lifetime=Lifetime.SCOPED, scope=level)
        c.add_instance(i, provides=int)
        c._vf_i, c._vf_use, c._vf_level = i, use, level.level
        self.containers.append(c)
        self.fallback = c
        self.log.append(f"container#{i} use_resolver_context={use} who@{c._vf_level}")

    def root(self, c):
        if c not in self.roots:
            self.roots[c] = Node(c, None, None, 1)
            self.roots[c].real = c
        return self.roots[c]

    # expected identity of int / Who from a node
    def who_node(self, n):
        """the node at the level of Who among n and its ancestors, or None"""
        while n is not None and n.level != n.container._vf_level:
            n = n.parent
        return n

    def expect(self, n, real_thunk, what, fallback_fn=None):
        """resolve Who via real_thunk; it must come from node n"""
        try:
            got = real_thunk()
            err = None
        except X.DIWireError as e:
            got, err = None, e
        if n is None:
            if not isinstance(err, X.DIWireResolverNotSetError):
                raise Diverge("binding", f"{what}: {got!r}/{err!r}, expected DIWireResolverNotSetError")
            return
        o = self.who_node(n)
        if o is None:
            if fallback_fn:
                return None          # the injected call opens its own scope
            if not isinstance(err, X.DIWireScopeMismatchError):
                raise Diverge("binding", f"{what}: {got!r}/{err!r}, expected DIWireScopeMismatchError (bound container#{n.container._vf_i})")
            return
        if err is not None:
            raise Diverge("binding", f"{what}: raised {err!r}, expected a value of container#{n.container._vf_i} level {o.level}")
        if o.who.get("w") is None:
            if got in self.who:
                raise Diverge("binding", f"{what}: got the object of another resolver (container#{self.who[got].container._vf_i} level {self.who[got].level}), expected container#{n.container._vf_i} level {o.level}")
            o.who["w"] = got
            self.who[got] = o
        elif o.who["w"] is not got:
            raise Diverge("binding", f"{what}: got an object of another resolver, expected container#{n.container._vf_i} level {o.level}")

    def op_enter(self, t):
        rng = self.rng
        kind = rng.choice(["container", "scope", "scope", "rc"])
        c = rng.choice(self.containers) if self.containers else None
        if kind == "container" and c is not None:
            n = self.root(c)
            real = c
            uses = c._vf_use
            what = f"enter container#{c._vf_i}"
        elif kind == "scope":
            cand = [n for n in self.nodes if not n.bound and not n.dead]
            if not cand:
                return
            n = rng.choice(cand)
            real, uses = n.real, n.uses
            what = f"enter scope of container#{n.container._vf_i} level {n.level}"
        else:
            return
        mode = rng.random() < .5
        self.log.append(f"{t.name}: {what} {'async' if mode else 'sync'}")
        if mode:
            async def go():
                return await real.__aenter__()
            r = t.ctx.run(run, go())
        else:
            r = t.ctx.run(real.__enter__)
        n.bound = n.parent is not None
        t.stack.append((n, real, mode, uses))
        if not uses:
            # resolvers of containers outside the context do not bind
            t.stack[-1] = (t.stack[-2][0] if len(t.stack) > 1 else t.base, real, mode, uses, n)
        else:
            t.stack[-1] = (n, real, mode, uses, n)

    def op_exit(self, t):
        rng = self.rng
        if not t.stack:
            return
        _, real, mode, uses, n = t.stack.pop()
        exc = Leave(1) if rng.random() < .4 else None
        self.finbad = rng.random() < .3
        et = (type(exc), exc, None) if exc else (None, None, None)
        self.log.append(f"{t.name}: exit container#{n.container._vf_i} level {n.level} with {exc!r} finaliser fails={self.finbad}")
        err = None
        try:
            if mode:
                async def go():
                    return await real.__aexit__(*et)
                t.ctx.run(run, go())
            else:
                t.ctx.run(real.__exit__, *et)
        except Bad as e:
            err = e
        self.finbad = False
        if n.parent is None:
            # a closed root: its objects are gone once the finaliser ran, the cached value stays
            pass
        else:
            n.dead = True

    def op_scope(self, t):
        """open (not enter) a scope: through the context, a container, or another scope"""
        rng = self.rng
        how = rng.choice(["rc", "container", "scope"])
        top = t.top()
        if how == "rc":
            base = top if top is not None else (self.root(self.fallback) if self.fallback else None)
            f = self.rc.enter_scope
            uses = True
            if base is not None:
                uses = top is not None or True
        elif how == "container":
            if not self.containers:
                return
            c = rng.choice(self.containers)
            base = top if (c._vf_use and top is not None) else self.root(c)
            uses = c._vf_use
            f = c.enter_scope
        else:
            cand = [n for n in self.nodes if not n.dead]
            if not cand:
                return
            base = rng.choice(cand)
            uses = base.uses
            f = base.real.enter_scope
        if base is None:
            self.log.append(f"{t.name}: rc.enter_scope with nothing available")
            try:
                t.ctx.run(f)
            except X.DIWireResolverNotSetError:
                return
            raise Diverge("binding", "enter_scope with nothing available did not raise DIWireResolverNotSetError")
        nxt = {1: 3, 2: 3, 3: 4, 4: 5}.get(base.level)
        if nxt is None or base.dead:
            return
        self.log.append(f"{t.name}: {how}.enter_scope() from container#{base.container._vf_i} level {base.level}")
        try:
            r = t.ctx.run(f)
        except X.DIWireError as e:
            raise Diverge("binding", f"enter_scope raised {e!r}, expected a scope of container#{base.container._vf_i} level {nxt}")
        n = Node(base.container, base, r, nxt)
        n.uses = uses
        self.nodes.append(n)
        self.expect(n, lambda: t.ctx.run(r.resolve, Who), "resolve from the new scope")

    def op_call(self, t):
        rng = self.rng
        top = t.top()
        fb = self.root(self.fallback) if self.fallback else None
        k = rng.choice(["rc", "rca", "container", "fn", "fn", "explicit"])
        if k in ("rc", "rca"):
            n = top if top is not None else fb
            what = f"{t.name}: resolver_context.{'a' if k == 'rca' else ''}resolve"
            self.log.append(what)
            if k == "rc":
                self.expect(n, lambda: t.ctx.run(self.rc.resolve, Who), what)
            else:
                self.expect(n, lambda: t.ctx.run(run, self.rc.aresolve(Who)), what)
        elif k == "container":
            if not self.containers:
                return
            c = rng.choice(self.containers)
            n = top if c._vf_use and top is not None else self.root(c)
            a = rng.random() < .4
            what = f"{t.name}: container#{c._vf_i}.{'a' if a else ''}resolve"
            self.log.append(what)
            if a:
                self.expect(n, lambda: t.ctx.run(run, c.aresolve(Who)), what)
            else:
                self.expect(n, lambda: t.ctx.run(c.resolve, Who), what)
        else:
            j = rng.randrange(len(self.fns))
            f = self.fns[j]
            kw = {}
            if k == "explicit":
                cand = [n for n in self.nodes if not n.dead]
                if not cand or not self.fallback:
                    return
                n = rng.choice(cand)
                kw["diwire_resolver"] = n.real
            else:
                n = top if top is not None else (fb if self.fallback and self.fallback._vf_use else None)
            what = f"{t.name}: injected fn#{j} {'explicit' if kw else ''}"
            self.log.append(what)
            if n is not None and self.who_node(n) is None:
                # a deeper scope is needed: a new object that is nobody's
                if j == 2:
                    return
                try:
                    got = t.ctx.run(run, f(**kw)) if j == 1 else t.ctx.run(lambda: f(**kw))
                except X.DIWireScopeMismatchError:
                    return      # inferred from another container's graph
                if got in self.who:
                    raise Diverge("binding", f"{what}: a scope opened for the call shares an object with another scope")
                return
            if j == 1:
                self.expect(n, lambda: t.ctx.run(run, f(**kw)), what)
            else:
                # the fallback container's graph decides the target scope; comparable only when it stays put
                if n is not None and self.fallback._vf_level > n.level:
                    return
                self.expect(n, lambda: t.ctx.run(lambda: f(**kw)), what)

    def op_spawn(self, t):
        if len(self.tasks) > 4:
            return
        if self.rng.random() < .6:
            nt = Task(t.ctx.run(contextvars.copy_context), t.top(), f"t{len(self.tasks)}(task of {t.name})")
        else:
            nt = Task(contextvars.Context(), None, f"t{len(self.tasks)}(thread)")
        self.log.append(f"spawn {nt.name}")
        self.tasks.append(nt)

    def op_config(self, t):
        if len(self.containers) < 3:
            self.config()

    def op_nested(self, t):
        """enter + fail + exit in one go"""
        self.op_scope(t)
        self.op_enter(t)
        self.op_call(t)
        self.op_exit(t)
        self.op_call(t)


def run_case(seed, P=CBASE, stats=None):
    rng = random.Random(seed)
    sim = None
    try:
        sim = CSim(rng, P)
        for _ in range(rng.randint(*P["steps"])):
            op = pick(rng, P["ops"])
            if stats is not None:
                stats[op] = stats.get(op, 0) + 1
            t = rng.choice(sim.tasks)
            getattr(sim, "op_" + op)(t)
        for t in sim.tasks:
            while t.stack:
                sim.op_exit(t)
                sim.op_call(t)
    except Diverge as d:
        return (d.cat, d.msg, sim.log if sim else [])
    if stats is not None:
        stats["_log"] = sim.log
        stats["steps"] = stats.get("steps", 0) + len(sim.log)
    return None
