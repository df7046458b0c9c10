"""Dependency keys (C14): every spelling of a key, at every place a key is accepted, against its canonical spelling
and against the registry computed from the property text. Bounded stand-in (sampled from a seed)."""
from __future__ import annotations
import inspect, random
from typing import Annotated, Generic, Optional, TypeVar, Union
from . import lab
from .lab import (Diverge, X, Container, Component, FromContext, Maybe, All, Provider, AsyncProvider, Injected, Scope, Lifetime,
                  MissingPolicy, DependencyRegistrationPolicy, ResolverContext, run, pick, err_kind, LEVELS)

KBASE = dict(steps=(12, 30))
T = TypeVar("T")


class Box(Generic[T]):
    pass


class Meta:
    """metadata that is neither equal nor hashable-friendly to anything"""
    def __eq__(self, other):
        return self is other

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return "meta"


class Named(str):
    """a str subclass: equal to the plain string"""


class Thing:
    def __init__(self, label):
        self.label = label

    def __repr__(self):
        return f"<{self.label}>"


NOISE = [lambda r: "note", lambda r: 7, lambda r: Meta(), lambda r: ("t", 1), lambda r: None]


class KSim:
    def __init__(self, rng):
        self.rng, self.log = rng, []
        self.types = [type(f"A{i}", (), {}) for i in range(3)] + [list[int], Box[int], int]
        self.types.append(self.types[0] | None)
        self.comps = [None, "a", "b", 1]
        self.reg = {}                 # (ti, comp) -> Thing
        self.order = []
        self.og = rng.random() < .3
        self.use_rc = rng.random() < .3
        self.rc = ResolverContext()
        self.auto = rng.random() < .3
        self.c = Container(missing_policy=MissingPolicy.ERROR, dependency_registration_policy=DependencyRegistrationPolicy.IGNORE,
                           resolver_context=self.rc, use_resolver_context=self.use_rc)
        self.log.append(f"container og={self.og} use_resolver_context={self.use_rc}")
        if self.og:
            class OG(Generic[T]):
                pass
            self.OG = OG

            def mk(t):
                return Thing("og")
            mk.__annotations__ = {"t": type[T], "return": OG[T]}
            self.c.add_factory(mk, provides=OG[T], lifetime=Lifetime.TRANSIENT)
        self.ctx = {}
        self.scopes = [None]

    # --- spelling of keys
    def meta(self):
        return [self.rng.choice(NOISE)(self.rng) for _ in range(self.rng.choice([0, 0, 1, 1, 2]))]

    def comp(self, c):
        if isinstance(c, str) and self.rng.random() < .3:
            return Component("".join(list(c)))
        return Component(c)

    def spell(self, k, noisy=True):
        ti, comp = k
        b = self.types[ti]
        if ti == len(self.types) - 1 and noisy:
            b = self.rng.choice([b, Optional[self.types[0]], Union[None, self.types[0]]])
        if not noisy:
            return b if comp is None else Annotated[b, Component(comp)]
        m = self.meta()
        if comp is not None:
            m.insert(self.rng.randint(0, len(m)), self.comp(comp))
        out = b
        if m and self.rng.random() < .3:
            j = self.rng.randint(0, len(m))
            if m[:j]:
                out = Annotated[(out, *m[:j])]
            m = m[j:]
        if m:
            out = Annotated[(out, *m)]
        return out

    def outer(self, e):
        m = self.meta()
        return Annotated[(e, *m)] if m else e

    def expr(self, form, k, noisy=True):
        s = self.spell(k, noisy)
        o = self.outer if noisy else (lambda e: e)
        if form == "all":
            return o(All[self.spell((k[0], None), noisy)])
        if form == "provall":
            return o(Provider[o(All[self.spell((k[0], None), noisy)])])
        return o({"plain": lambda: s, "maybe": lambda: Maybe[s], "prov": lambda: Provider[s], "aprov": lambda: AsyncProvider[s],
                  "ctx": lambda: FromContext[s], "maybectx": lambda: Maybe[o(FromContext[s])],
                  "provmaybe": lambda: Provider[o(Maybe[s])]}[form]())

    # --- expectation from the registry
    def want(self, form, k, ctx):
        if form in ("ctx", "maybectx"):
            if k in ctx:
                return ("val", id(ctx[k]))
            return ("val", id(None)) if form == "maybectx" else ("err", "missing")
        if form in ("all", "provall"):
            return ("vals", tuple(id(self.reg[x]) for x in self.order if x[0] == k[0]))
        if k in self.reg:
            return ("val", id(self.reg[k]))
        return ("val", id(None)) if form in ("maybe", "provmaybe") else ("err", "missing")

    def norm(self, form, thunk):
        try:
            v = thunk()
            if form in ("prov", "aprov", "provmaybe", "provall"):
                if not callable(v) or isinstance(v, Thing):
                    return ("not-a-callable", repr(v))
                v = v()
                if inspect.isawaitable(v):
                    v = run(lab._aw(v))
        except (X.DIWireError, TypeError, AttributeError, KeyError) as e:
            return ("err", err_kind(e)) if isinstance(e, X.DIWireError) else ("crash", f"{type(e).__name__}: {e}")
        if form in ("all", "provall"):
            return ("vals", tuple(map(id, v))) if isinstance(v, tuple) else ("not-a-tuple", repr(v))
        return ("val", id(v))

    # --- steps
    def key(self):
        return (self.rng.randrange(len(self.types)), self.rng.choice([None, None, *self.comps]))

    def register(self):
        rng = self.rng
        k = self.key()
        th = Thing(f"{k}#{len(self.log)}")
        how = rng.choice(["instance", "factory", "component", "generator", "icomponent", "concrete"])
        sp = self.spell(k)
        self.log.append(f"register {k} via {how} as {sp!r}")
        if how == "instance":
            self.c.add_instance(th, provides=sp)
        elif how == "icomponent" and k[1] is not None:
            self.c.add_instance(th, provides=self.spell((k[0], None)), component=k[1] if rng.random() < .5 else Component(k[1]))
        elif how == "component" and k[1] is not None:
            self.c.add_factory(lambda: th, provides=self.spell((k[0], None)), component=k[1] if rng.random() < .5 else Component(k[1]))
        elif how == "concrete":
            self.c.add(type("Concrete", (), {"__new__": lambda cls: th}), provides=sp)
        elif how == "generator":
            def g():
                yield th
            self.c.add_generator(g, provides=sp)
        else:
            self.c.add_factory(lambda: th, provides=sp, lifetime=rng.choice([Lifetime.SCOPED, Lifetime.TRANSIENT]))
        if k in self.reg:
            self.order.remove(k)
        self.order.append(k)
        self.reg[k] = th

    def decorate(self):
        k = self.key()
        if k not in self.reg:
            return
        th = Thing(f"deco {k}#{len(self.log)}")

        def deco(inner):
            assert inner is not None
            return th
        deco.__annotations__ = {"inner": self.types[k[0]]}
        sp = self.spell(k)
        self.log.append(f"decorate {k} as {sp!r}")
        if k[1] is not None and self.rng.random() < .5:
            self.c.decorate(provides=self.spell((k[0], None)), component=k[1], decorator=deco, inner_parameter="inner")
        else:
            self.c.decorate(provides=sp, decorator=deco, inner_parameter="inner")
        self.reg[k] = th
        # later registrations stay decorated: keep this key out of further registrations
        self.comps2 = None
        self.done = getattr(self, "done", set()) | {k}
        self.order.remove(k)
        self.order.append(k)

    def ctxmap(self):
        out = {}
        for _ in range(self.rng.choice([0, 1, 2, 3])):
            k = self.key()
            out[k] = self.rng.choice([Thing(f"ctx {k}"), Thing(f"ctx {k}"), None, 0])
        return out

    def probe(self):
        rng = self.rng
        k = self.key() if rng.random() < .4 or not self.reg else rng.choice(list(self.reg))
        form = pick(rng, [("plain", 3), ("maybe", 3), ("all", 2), ("prov", 1), ("aprov", 1), ("ctx", 2), ("maybectx", 1.5), ("provall", .4)])
        place = pick(rng, [("direct", 5), ("adirect", 2), ("rc", 1), ("inferred", 3), ("explicit", 2), ("inject", 3), ("og", 2 if self.og else 0)])
        e = self.expr(form, k)
        ctx = self.ctxmap() if form in ("ctx", "maybectx") or rng.random() < .2 else {}
        want = self.want(form, k, ctx)
        what = f"{place} {form} {k} as {e!r} context={sorted(map(str, ctx))}"
        self.log.append(what)
        c = self.c
        real_ctx = {self.spell(x, noisy=False): v for x, v in ctx.items()} or None
        s = c.compile().enter_scope(Scope.REQUEST, context=real_ctx) if (ctx or rng.random() < .4) else c.compile()
        dep_missing = form in ("plain", "prov", "aprov") and k not in self.reg
        if place in ("inferred", "explicit") and (dep_missing or form in ("maybectx", "provmaybe", "provall")):
            place = "direct"
        if place == "og" and form in ("provmaybe", "provall"):
            place = "direct"
        if place in ("inject", "rc") and form in ("maybectx", "provmaybe", "provall"):
            place = "direct"
        box = {}
        if place == "direct":
            got = self.norm(form, lambda: s.resolve(e))
        elif place == "adirect":
            got = self.norm(form, lambda: run(s.aresolve(e)))
        elif place == "rc":
            if not self.use_rc:
                got = self.norm(form, lambda: s.resolve(e))
            else:
                with s:
                    got = self.norm(form, lambda: self.rc.resolve(e))
                return self.check(what, got, want, form)
        elif place in ("inferred", "explicit"):
            class D:
                pass

            def f(x):
                box["v"] = x
                return D()
            if place == "inferred":
                f.__annotations__ = {"x": e}
                c.add_factory(f, provides=D, lifetime=Lifetime.TRANSIENT, scope=Scope.REQUEST)
            else:
                c.add_factory(f, provides=D, lifetime=Lifetime.TRANSIENT, scope=Scope.REQUEST,
                              dependencies={e: inspect.signature(f).parameters["x"]})

            def thunk():
                c.compile().enter_scope(Scope.REQUEST, context=real_ctx).resolve(D)
                return box["v"]
            got = self.norm(form, thunk)
        elif place == "og":
            class D2(Generic[T]):
                pass

            def f2(t, x):
                box["v"] = x
                return D2()
            f2.__annotations__ = {"t": type[T], "x": e}
            c.add_factory(f2, provides=D2[T], lifetime=Lifetime.TRANSIENT, scope=Scope.REQUEST)

            def thunk2():
                c.compile().enter_scope(Scope.REQUEST, context=real_ctx).resolve(D2[int])
                return box["v"]
            got = self.norm(form, thunk2)
        else:
            if not self.use_rc:
                got = self.norm(form, lambda: s.resolve(e))
            else:
                def fn(x):
                    return x
                fn.__annotations__ = {"x": self.outer(Injected[e]) if form not in ("ctx",) else e}
                if form == "maybe" or (form == "plain" and rng.random() < .2):
                    pass
                try:
                    inj = c.compile() and self.rc.inject(fn)
                    got = self.norm(form, lambda: inj(diwire_resolver=s))
                except X.DIWireError as err:
                    got = ("err", err_kind(err))
        self.check(what, got, want, form)

    def check(self, what, got, want, form):
        if got != want:
            raise Diverge("key", f"{what}: outcome {self.show(got)}, expected {self.show(want)}")

    def show(self, o):
        names = {id(v): f"value of {k}" for k, v in self.reg.items()}
        names[id(None)] = "None"
        if o[0] == "val":
            return names.get(o[1], "another object")
        if o[0] == "vals":
            return "(" + ", ".join(names.get(x, "another object") for x in o[1]) + ")"
        return str(o)


def run_case(seed, P=KBASE, stats=None):
    rng = random.Random(seed)
    sim = KSim(rng)
    try:
        for _ in range(rng.randint(*P["steps"])):
            r = rng.random()
            if r < .3:
                sim.register() if not getattr(sim, "done", None) else sim.probe()
            elif r < .36:
                sim.decorate()
            else:
                sim.probe()
    except Diverge as d:
        return (d.cat, d.msg, sim.log)
    finally:
        if stats is not None:
            stats["_log"] = sim.log
            stats["steps"] = stats.get("steps", 0) + len(sim.log)
    return None
