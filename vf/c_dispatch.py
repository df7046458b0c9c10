"""Contracts of dispatch: resolve(key)/aresolve(key) of every emitted resolver class, its fallback for marker keys (_resolve_dispatch_fallback_*),
_is_registered_dependency, and the key tables built by _bootstrap_runtime.

requires  the receiver is an open scope; its dispatch memo is empty or pairs a registered key with that key's slot method; the owner cell of a SCOPED
          slot of this scope is empty or holds the slot's value; slot methods and context lookup satisfy their own contracts (groups slots, chain)
ensures   key     : a registered key evaluates exactly its own slot, once, in the mode asked for, and gives its outcome, value or exception;
                    non-Component metadata is ignored; everything else raises DIWireDependencyNotRegisteredError and evaluates nothing
          inline  : a provider is called from dispatch only where its slot method would call it with no arguments in this very scope and cache nothing
          memo    : the memo pairs a registered key with its own slot method afterwards
          maybe   : Maybe[K] is K's outcome when K is registered, None otherwise; Maybe[FromContext[K]] is None when no context has K
          handle  : Provider[K]/AsyncProvider[K] give a callable that evaluates nothing until it is called and then resolves K in this scope
          context : FromContext[K] asks this scope's context for K
          all     : All[K] is the tuple of the outcomes of every live key of base K in order of registration
Slot methods are used by contract (any value, any exception); every key form is checked on every registered and unregistered key of generated registries
(bounded: up to 9 registrations)."""
from __future__ import annotations
import random, types
from typing import Annotated, Generic, TypeVar, Any
from . import native
from .sym import Engine, Exc, Coro, PyRaise, Unsupported, SV, _model
from .c_rcontext import outcome
from .c_slots import hook, sentinels
from diwire import (exceptions as X, Container, Scope, Lifetime, LockMode, Component, Provider, AsyncProvider, Maybe, All, FromContext,
                    MissingPolicy, DependencyRegistrationPolicy, ResolverContext)

ASSUMPTIONS = ["slot methods and _resolve_from_context behave as their own contracts say (groups slots and chain)"]
LV = {1: Scope.APP, 2: Scope.SESSION, 3: Scope.REQUEST, 4: Scope.ACTION}
T = TypeVar("T")


class K:
    """a registration of a generated registry"""

    def __init__(self, i, key, base, kind, life, level, dep):
        self.i, self.key, self.base, self.kind, self.life, self.level, self.dep = i, key, base, kind, life, level, dep
        self.handler = None

    def __repr__(self):
        return f"{self.kind} {self.key} {self.life.name if self.life else ''}@{self.level}{' dep' if self.dep else ''}"


def canon(key):
    """the key without metadata other than components: (base, components)"""
    if hasattr(key, "__metadata__"):
        cs = tuple(m for m in key.__metadata__ if isinstance(m, Component))
        return (key.__origin__, cs)
    return (key, ())


class World:
    def __init__(self, seed):
        hook()
        rng = random.Random(seed)
        self.seed, self._forms = seed, None
        self.root_level = rng.choice((1, 1, 1, 2, 3))
        n = rng.choice((1, 1, 2, 2, 5, 7, 9))
        self.classes = [types.new_class(f"C{i}", (Generic[T],) if i == 3 else ()) for i in range(5)]
        self.extra = type("Dep", (), {})
        comps = [Component("a"), Component("b"), Component(1)]
        lv = [l for l in LV if l >= self.root_level]
        flat = rng.random() < .3
        bases = [*self.classes[:3], self.classes[3][int], list[self.classes[0]], self.classes[0] | None, "text"]
        self.bases = bases
        self.ks, used = [], set()
        while len(self.ks) < n:
            base = rng.choice(bases[:2] if rng.random() < .6 else bases)
            key = base
            r = rng.random()
            if r < .4:
                key = Annotated[base, rng.choice(comps)]
            elif r < .46:
                key = Annotated[base, comps[0], comps[1]]
            if key in used or isinstance(base, str) and key is not base:
                continue
            used.add(key)
            kind = rng.choice(("concrete", "factory", "factory", "instance", "generator", "async", "asyncgen", "inject") if n > 2 else ("concrete", "factory", "factory", "async", "inject"))
            life = rng.choice((Lifetime.SCOPED, Lifetime.TRANSIENT))
            k = K(len(self.ks), key, base, kind, None if kind == "instance" else life, self.root_level if kind == "instance" or flat else rng.choice(lv),
                  rng.random() < .3 and kind in ("factory", "generator"))
            self.ks.append(k)
        self.cleanup = rng.random() < .5
        self.build()

    def build(self):
        c = Container(LV[self.root_level], missing_policy=MissingPolicy.ERROR, dependency_registration_policy=DependencyRegistrationPolicy.IGNORE, use_resolver_context=False)
        c.add_instance(self.extra(), provides=self.extra)
        self.dep = K(-1, self.extra, self.extra, "instance", None, self.root_level, False)
        for k in self.ks:
            k.provider = prov(k, self.extra)
            kw = dict(provides=k.key) if k.life is None else dict(provides=k.key, scope=LV[k.level], lifetime=k.life)
            {"concrete": c.add, "factory": c.add_factory, "async": c.add_factory, "inject": c.add_factory, "instance": c.add_instance, "generator": c.add_generator, "asyncgen": c.add_generator}[k.kind](k.provider, **kw)
        self.dep.provider = None
        c.compile()
        self.c = c
        r = c.compile()
        self.root = r
        self.rt = type(r)._runtime
        byk = {canon(k): s for s, k in self.rt.dep_type_by_slot.items()}
        self.all = [self.dep, *self.ks]
        for k in self.all:
            k.slot = byk[canon(k.key)]
        self.dep.provider = self.rt.provider_by_slot[self.dep.slot]
        self.byslot = {k.slot: k for k in self.all}
        self.bykey = {canon(k.key): k for k in self.all}
        self.recv = {self.root_level: r}
        for l in sorted(LV):
            if l > self.root_level:
                self.recv[l] = r.enter_scope(LV[l])

    def find(self, key):
        return self.bykey.get(canon(key))

    def forms(self):
        """every key form: (text, key)"""
        if self._forms is not None:
            return self._forms
        base = [k.key for k in self.all] + [b for b in self.bases if self.find(b) is None] + [Annotated[self.classes[0], Component("zz")]]
        out = []
        for b in base:
            s = isinstance(b, str)
            xs = [b]
            if not s:
                xs.append(Annotated[b, "note"])
                xs.append(Annotated[b, "note", ("x", 1)])
                if hasattr(b, "__metadata__"):
                    xs.append(Annotated[(b.__origin__, "first", *b.__metadata__)])
            for x in xs:
                out.append(("key", x, x))
                if s:
                    continue
                out += [("maybe", Maybe[x], x), ("provider", Provider[x], x), ("aprovider", AsyncProvider[x], x), ("ctx", FromContext[x], x),
                        ("maybe-ctx", Maybe[FromContext[x]], x), ("maybe-provider", Maybe[Provider[x]], x), ("maybe-aprovider", Maybe[AsyncProvider[x]], x)]
        for b in [*self.bases[:6], self.extra]:
            out += [("all", All[b], b), ("all", All[Annotated[b, "note"]], b)]
        self._forms = out
        return out


def prov(k, extra):
    if k.kind == "instance":
        return type("Inst", (), {"__repr__": lambda s: f"instance{k.i}"})()
    if k.kind == "concrete":
        return type(f"Concrete{k.i}", (), {"__new__": lambda cls: k.handler()})
    if k.kind == "factory":
        if k.dep:
            def f(d):
                return k.handler(d)
            f.__annotations__ = {"d": extra}
            return f

        def f():
            return k.handler()
        return f
    if k.kind == "generator":
        if k.dep:
            def g(d):
                yield k.handler(d)
            g.__annotations__ = {"d": extra}
            return g

        def g():
            yield k.handler()
        return g
    if k.kind == "inject":
        def wrapped():
            return k.handler()
        return ResolverContext().inject(wrapped)
    if k.kind == "async":
        async def af():
            return k.handler()
        return af

    async def ag():
        yield k.handler()
    return ag


_W = {}


def world(p, seed):
    if isinstance(p, native.Native):
        return World(seed)
    if seed not in _W:
        if len(_W) > 30:
            _W.clear()
        _W[seed] = World(seed)
    return _W[seed]


class Run:
    def __init__(self, p, W, level, is_async):
        self.p, self.W, self.level, self.is_async = p, W, level, is_async
        self.r = W.recv[level]
        self.lvl = getattr(self.r, "__class__", None)
        self.log, self.ctx, self.cells, self.over = [], {}, {}, {}
        self.outs = []
        from diwire._internal.resolvers.assembly import compiler as comp
        self.MISSING, self.NOSLOT = comp._MISSING_CACHE, comp._MISSING_DEP_SLOT
        for v in sentinels(comp):
            if hasattr(p, "never"):
                p.never[id(v)] = v
        cls = type(self.r)
        self.own = next(l for l, c in W.rt.class_by_level.items() if c is cls)
        for k in W.all:
            for a in (False, True):
                p.intercept(cls, ("aresolve_" if a else "resolve_") + str(k.slot), self.slot(k, a))
            if k.kind in ("concrete", "factory", "async", "inject"):
                if isinstance(p, native.Native):
                    k.handler = (lambda k: lambda *x: p.enter(lambda: self.inline(k)(p, list(x), {})))(k)
                else:
                    p.opaque[id(k.provider)] = self.inline(k)
        p.intercept(cls, "_resolve_from_context", self.context)

    # --- state
    def state(self, fill):
        """cells of this scope and the memo; `fill`: the slots whose state is left open"""
        p, W, r = self.p, self.W, self.r
        for k in fill:
            if k.life is Lifetime.SCOPED and k.level == self.own and k.slot in W.rt.cache_slots_by_owner_level.get(self.own, ()):
                if p.choose(2, f"the cell of {k} is filled") == 1:
                    v = self.cells[k.slot] = p.fresh(f"cached{k.i}")
                    p.setattr(r, f"_cache_{k.slot}", v)
                    if self.own == W.root_level and p.choose(2, "its method was replaced") == 1:
                        for a in (False, True):
                            m = p.fresh("method")
                            m.on_call = (lambda k, a: lambda p, x, kw: self.slot(k, a)(p, [r, *x], kw))(k, a)
                            p.setattr(r, ("aresolve_" if a else "resolve_") + str(k.slot), m)
            elif k.life is Lifetime.SCOPED and k.slot in W.rt.cache_slots_by_owner_level.get(self.own, ()):
                p.setattr(r, f"_cache_{k.slot}", self.MISSING)
        self.memo_attrs = [("_last_async_dependency", "_last_async_method"), ("_last_sync_dependency", "_last_sync_method")]
        self.has_memo = "_last_sync_dependency" in dir(type(r))
        self.memo0 = {}
        if self.has_memo:
            d, m = self.memo_attrs[0 if self.is_async else 1]
            c = p.choose(len(fill) + 1, "the memo")
            if c:
                k = fill[c - 1]
                p.setattr(r, d, k.key)
                p.setattr(r, m, p.getattr(r, ("aresolve_" if self.is_async else "resolve_") + str(k.slot)))
            else:
                p.setattr(r, d, self.NOSLOT)
                p.setattr(r, m, None)

    # --- contracts of what dispatch calls
    def ev(self, k, a, how="slot"):
        p = self.p
        self.log.append((k.i, a))
        if k.kind == "instance":
            self.outs.append(("ok", k.provider))
            return k.provider
        if k.slot in self.cells:
            self.outs.append(("ok", self.cells[k.slot]))
            return self.cells[k.slot]
        n = p.choose(3, f"{k}: value, not registered inside, another error")
        if n == 0:
            v = p.fresh(f"value{k.i}")
            self.outs.append(("ok", v))
            return v
        if n == 1:
            e = Exc(X.DIWireDependencyNotRegisteredError, (f"inside {k.i}",))
        else:
            e = p.exc("evaluation")
            e.known[X.DIWireDependencyNotRegisteredError] = False
        self.outs.append(("raise", e))
        raise PyRaise(e)

    def slot(self, k, a):
        def h(p, args, kw):
            p.must(args[0] is self.r, "key", "a slot method is called on another scope")
            return Coro(lambda: self.ev(k, a), f"aresolve_{k.slot}") if a else self.ev(k, a)
        return h

    def inline(self, k):
        def h(p, args, kw):
            ok = k.kind in ("concrete", "factory") and k.life is Lifetime.TRANSIENT and k.level == self.own and not k.dep and not args and not kw
            p.must(ok, "inline", f"the provider of {k} is called by dispatch of level {self.own} with {args} {kw}")
            return self.ev(k, self.is_async, "inline")
        return h

    def context(self, p, args, kw):
        key = [*args[1:], *kw.values()][0]
        p.must(args[0] is self.r, "context", "another scope's context is asked")
        self.ctx.setdefault("asked", []).append(key)
        if p.choose(2, "the context has it") == 1:
            e = self.ctx["exc"] = Exc(X.DIWireDependencyNotRegisteredError, ("context",))
            raise PyRaise(e)
        v = self.ctx["val"] = p.fresh("context value")
        return v

    def nested(self, a):
        """resolve(K) used from inside dispatch or from a handle"""
        def h(p, args, kw):
            key = [*args[1:], *kw.values()][0]
            p.must(args[0] is self.r, "key", "a nested key is resolved in another scope")
            k = self.W.find(key)

            def go():
                if k is None:
                    if not plain(key):
                        raise Unsupported(f"nested resolution of {key}")
                    self.log.append((None, a))
                    e = Exc(X.DIWireDependencyNotRegisteredError, ("nested",))
                    self.outs.append(("raise", e))
                    raise PyRaise(e)
                return self.ev(k, a)
            return Coro(go, "nested") if a else go()
        return h


def plain(key):
    return not (hasattr(key, "__metadata__") and any(type(m).__module__.startswith("diwire") and not isinstance(m, Component) for m in key.__metadata__))


def go_one(seed, level, form, is_async):
    def setup(p):
        W = world(p, seed)
        kind, key, inner = W.forms()[form]
        R = Run(p, W, level, is_async)
        k = W.find(inner) if kind != "all" else None
        a = is_async
        r = R.r
        cls = type(r)
        others = [x for x in W.ks if x is not k and (k is None or canon(x.key)[0] == canon(k.key)[0])][:1] or [x for x in W.ks if x is not k][:1]
        R.state(([k] if k is not None else []) + others)
        p.recursive(cls, "aresolve" if a else "resolve", R.nested(a))
        p.intercept(cls, "resolve" if a else "aresolve", R.nested(not a))
        out, v = outcome(p, lambda: p.call(p.getattr(r, "aresolve" if a else "resolve"), [key], {}), a)
        log = list(R.log)
        what = f"{'a' if a else ''}resolve({key})"

        def missing():
            p.must(out == "raise" and v.cls is not None and issubclass(v.cls, X.DIWireDependencyNotRegisteredError), "key", f"{what}: {out} {v!r} for an unknown key")
            p.must(not [x for x in log if x[0] is not None], "key", f"{what}: {log} evaluated for an unknown key")

        def same(name, want=None):
            w = want or R.outs[-1]
            p.must(out == w[0] and v is w[1], name, f"{what} gives {out} {v!r}, its slot {w[0]} {w[1]!r}")
        if kind == "key":
            if k is None:
                missing()
            elif a is False and k.kind == "instance" and not log or k.slot in R.cells and not log:
                want = R.cells.get(k.slot, k.provider)
                p.must(out == "ok" and v is want, "key", f"{what} gives {out} {v!r} instead of {want!r}")
            elif k.kind == "instance" and not log:
                p.must(out == "ok" and v is k.provider, "key", f"{what} gives {out} {v!r}")
            else:
                retried = key is not k.key and len(log) == 1 and R.outs[0][0] == "raise" and R.outs[0][1].cls is X.DIWireDependencyNotRegisteredError
                p.must(log == [(k.i, a)], "key", f"{what} evaluates {log} instead of slot {k.i}")
                if retried and canon(key) != key:
                    p.must(out == "raise" and v.cls is X.DIWireDependencyNotRegisteredError, "key", f"{what} gives {out} {v!r}")
                else:
                    same("key")
        elif kind == "maybe":
            if k is None:
                p.must(out == "ok" and v is None and not log, "maybe", f"{what} gives {out} {v!r} after {log}; the key is not registered")
            else:
                p.must(log and set(log) == {(k.i, a)} or k.kind == "instance" or k.slot in R.cells, "maybe", f"{what} evaluates {log} instead of slot {k.i}")
                if not log:
                    want = R.cells.get(k.slot, k.provider)
                    p.must(out == "ok" and v is want, "maybe", f"{what} gives {out} {v!r} instead of {want!r}")
                elif R.outs[0][0] == "raise" and R.outs[0][1].cls is X.DIWireDependencyNotRegisteredError:
                    pass          # known finding maybe-missing-context: None instead of the error
                else:
                    p.must(len(log) == 1, "maybe", f"{what} evaluates {log}")
                    same("maybe")
        elif kind in ("ctx", "maybe-ctx"):
            asked = R.ctx.get("asked", [])
            p.must(len(asked) == 1 and canon(asked[0]) == canon(inner) and canon(asked[0])[0] == asked[0] or hasattr(asked[0], "__metadata__") and canon(asked[0]) == canon(inner)
                   and plainmeta(asked[0]), "context", f"{what} asks the context for {asked}")
            p.must(not log, "context", f"{what} evaluates {log}")
            if "exc" in R.ctx:
                p.must((out == "ok" and v is None) if kind == "maybe-ctx" else (out == "raise" and v is R.ctx["exc"]), "context" if kind == "ctx" else "maybe",
                       f"{what} gives {out} {v!r} without a context value")
            else:
                p.must(out == "ok" and v is R.ctx["val"], "context", f"{what} gives {out} {v!r} instead of the context value")
        elif kind.endswith("provider"):
            p.must(out == "ok" and not log, "handle", f"{what}: {out} {v!r}, evaluated {log}")
            ha = kind.endswith("aprovider")
            for n in (1,):
                del R.log[:], R.outs[:]
                ho, hv = outcome(p, lambda: p.call(v, [], {}), ha)
                if k is None:
                    p.must(ho == "raise" and hv.cls is not None and issubclass(hv.cls, X.DIWireDependencyNotRegisteredError), "handle", f"the handle of {what} gives {ho} {hv!r}")
                else:
                    p.must(R.log == [(k.i, ha)], "handle", f"the handle of {what} evaluates {R.log} instead of slot {k.i}")
                    p.must((ho, hv) == R.outs[-1] and hv is R.outs[-1][1], "handle", f"the handle of {what} gives {ho} {hv!r} instead of {R.outs[-1]}")
        else:
            slots = [x for x in W.all if canon(x.key)[0] == inner]
            oks = [x[1] for x in R.outs if x[0] == "ok"]
            bad = [x for x in R.outs if x[0] == "raise"]
            p.must(log == [(x.i, a) for x in slots][:len(log)], "all", f"{what} evaluates {log} instead of {[x.i for x in slots]}")
            if bad:
                p.must(len(bad) == 1 and out == "raise" and v is bad[0][1] and R.outs[-1] is bad[0], "all", f"{what}: {out} {v!r} although an element failed")
            else:
                p.must(out == "ok" and type(v) is tuple and len(v) == len(slots) and len(log) == len(slots) and all(x is y for x, y in zip(v, oks)), "all",
                       f"{what} gives {out} {v!r} instead of {oks}")
        # memo afterwards
        if R.has_memo:
            for am, (d, m) in zip((True, False), R.memo_attrs):
                dep, meth = p.getattr(r, d), p.getattr(r, m)
                if dep is R.NOSLOT:
                    continue
                kk = W.find(dep) if dep is not None else None
                if kk is None or canon(dep) != canon(kk.key):
                    p.must(False, "memo", f"{what}: the memo holds {dep}")
                del R.log[:], R.outs[:]
                outcome(p, lambda: p.call(meth, [], {}), am)
                p.must(R.log == [(kk.i, am)], "memo", f"{what}: the memo pairs {dep} with a method that evaluates {R.log}")
    return setup


def plainmeta(key):
    return all(isinstance(m, Component) for m in key.__metadata__)


def units(tier, seed, opts):
    n = opts.get("worlds", (16, 500))[tier != "quick"]
    return [(seed * 1_000_003 + i, 4 if tier == "quick" else 30) for i in range(n)]


def run(u, deadline, col):
    seed, per = u
    try:
        W = _W[seed] = World(seed)
    except Exception as e:
        col.undecided("setup", f"{type(e).__name__}: {e}")
        return
    col.program(lambda: [repr(k) for k in W.ks])
    eng = Engine()
    rng = random.Random(seed)
    forms = list(enumerate(W.forms()))
    rng.shuffle(forms)
    pick = []
    for kind in dict.fromkeys(f[1][0] for f in forms):
        reg = [f for f in forms if f[1][0] == kind and (kind == "all" or W.find(f[1][2]) is not None)]
        pick += [f for f in reg if f[1][1] is f[1][2] and kind == "key"][:2 * per] + reg[:per] + [f for f in forms if f[1][0] == kind and f not in reg][:1 + per // 4]
    pick = list({f[0]: f for f in pick}.values())
    low = [l for l in W.recv if l != W.root_level and W.recv[l] is not W.root]
    for level in [W.root_level, *rng.sample(low, min(len(low), 1 if per < 9 else 9))]:
        for i, (kind, key, _) in pick:
            for a in (False, True):
                go = go_one(seed, level, i, a)
                res = eng.explore(go, deadline=deadline)
                label = f"{'a' if a else ''}resolve({key}) at level {level} of {W.ks}"
                col.result(label, res, lambda: native.replay(go, res, [label]))
    col.engine(eng)
