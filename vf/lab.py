"""Replay harness: a registration graph is built twice - on the real container and in vf/refmodel.py -
and driven through the same operations; every observable difference is a divergence.

Bounded stand-in only (labelled so in the evidence): it samples graphs and histories from a seed.
"""
from __future__ import annotations
import inspect, random, sys, traceback, types
from typing import Annotated, Any
from . import refmodel as R
from .refmodel import Dep, Node, Graph, Model, MObj, MHandle, MErr, DEFAULT, SYNC, ASYNC

import diwire
from diwire import (Injected, Container, Component, FromContext, Maybe, All, Provider, AsyncProvider, Scope, Lifetime,
                    LockMode, MissingPolicy, DependencyRegistrationPolicy)
from diwire import exceptions as X
from diwire import ResolverContext

LEVELS = {1: Scope.APP, 2: Scope.SESSION, 3: Scope.REQUEST, 4: Scope.ACTION, 5: Scope.STEP}


class Fault(Exception):
    pass


class FinErr(Exception):
    pass


class FinBase(BaseException):
    pass


class Leave(Exception):
    """the exception leaving a scope"""


class Item:
    __slots__ = ("src", "idx")

    def __init__(self, src, idx):
        self.src, self.idx = src, idx


class Starable:
    """values that can be spread: *v gives Item(v,0..1), **v gives k0/k1"""
    def __iter__(self):
        return iter([Item(self, 0), Item(self, 1)])

    def keys(self):
        return ["k0", "k1"]

    def __getitem__(self, k):
        return Item(self, int(k[1:]))


class Prod(Starable):
    node = None


class Val(Starable):
    def __init__(self, tag):
        self.tag = tag

    def __repr__(self):
        return f"Val{self.tag}"


class Y:
    def __await__(self):
        yield None


def run(coro):
    """drive a coroutine whose suspensions are all Y() or uncontended locks"""
    try:
        while True:
            coro.send(None)
    except StopIteration as e:
        return e.value


class Dflt:
    def __repr__(self):
        return "<default>"


DFLT = Dflt()
_CTX_TYPES = [type(f"Ctx{i}", (), {}) for i in range(3)]


class Ctl:
    def __init__(self, graph):
        self.g = graph
        self.events = []     # construct events of the current step
        self.fins = []       # (obj, exc)
        self.calls = {}
        self.seq = 0
        self.opened = {}
        self.stir = False    # calls made while the graph is still being registered: not compared

    def construct(self, i, args, obj=None):
        if self.stir:
            return obj or Prod()
        n = self.g.nodes[i]
        self.calls[i] = self.calls.get(i, 0) + 1
        if n.fault and n.fault > 0 and self.calls[i] <= n.fault:
            raise Fault(i)
        if obj is None:
            obj = Prod()
        obj.node = i
        self.seq += 1
        self.opened[id(obj)] = self.seq
        self.events.append((i, args, obj))
        return obj

    def fin(self, obj, exc):
        if id(obj) not in self.opened:
            return
        self.fins.append((obj, exc))
        n = self.g.nodes[obj.node]
        if n.fin == "E":
            raise FinErr(obj.node)
        if n.fin == "B":
            raise FinBase(obj.node)


PK = {"PO": inspect.Parameter.POSITIONAL_ONLY, "PK": inspect.Parameter.POSITIONAL_OR_KEYWORD,
      "VP": inspect.Parameter.VAR_POSITIONAL, "KO": inspect.Parameter.KEYWORD_ONLY,
      "VK": inspect.Parameter.VAR_KEYWORD}


class _Hidden:
    pass


class World:
    """real container for a graph"""

    def __init__(self, graph, *, og=False, cleanup=False, ctx=False, root_level=1, noise=None, policies=None,
                 default_life=None, rc=None):
        self.g = graph
        self.ctl = Ctl(graph)
        self.noise = noise or random.Random(0)
        self.types = {}
        self.rc = rc or ResolverContext()
        mp, dp = policies or (MissingPolicy.ERROR, DependencyRegistrationPolicy.IGNORE)
        self.container = Container(LEVELS[root_level], default_life or Lifetime.SCOPED, missing_policy=mp,
                                   dependency_registration_policy=dp,
                                   resolver_context=self.rc, use_resolver_context=ctx)
        self.instances = {}
        self.root_level = root_level
        if cleanup:
            class _Aux:
                pass

            def aux():
                yield _Aux()
            self.container.add_generator(aux, provides=_Aux, scope=LEVELS[root_level])
        if og:
            import typing
            TT = typing.TypeVar("TT")

            class Box(typing.Generic[TT]):
                pass

            def mk(t):
                return Box()
            mk.__annotations__ = {"t": type[TT], "return": Box[TT]}
            self.container.add_factory(mk, provides=Box[TT], lifetime=Lifetime.TRANSIENT, scope=LEVELS[root_level])
        for i in range(len(graph.nodes)):
            self.register(i)

    hidden = None

    # --- keys
    def base(self, key):
        t = key[0]
        if t == "ctx":
            return _CTX_TYPES[key[1]]
        if t not in self.types:
            self.types[t] = type(f"T{t}", (), {})
        return self.types[t]

    def key(self, key, noisy=True):
        b = self.base(key)
        meta = []
        if key[0] != "ctx" and len(key) > 1 and key[1] is not None:
            meta.append(Component(key[1]))
        if noisy:
            r = self.noise.random()
            if r < .15:
                meta.append("note")
            elif r < .25:
                meta.insert(0, "note")
        if meta:
            return Annotated[(b, *meta)]
        return b

    def ann(self, d: Dep, noisy=True):
        if d.wrap == "none":
            return None
        if d.wrap == "all":
            return self.wrapmeta(All[self.key((d.key[0], None), noisy)], noisy)
        k = self.key(d.key, noisy)
        w = {"plain": lambda k: k, "maybe": lambda k: Maybe[k], "prov": lambda k: Provider[k],
             "aprov": lambda k: AsyncProvider[k], "ctx": lambda k: FromContext[k],
             "maybectx": lambda k: Maybe[FromContext[k]]}[d.wrap](k)
        return self.wrapmeta(w, noisy) if d.wrap != "plain" else w

    def wrapmeta(self, a, noisy):
        if noisy and self.noise.random() < .12:
            return Annotated[a, "outer"]
        return a

    # --- providers
    def signature(self, node, ns):
        parts, seen_po, star = [], False, False
        kinds = [d.pkind for d in node.deps]
        for j, d in enumerate(node.deps):
            if d.pkind == "KO" and not star and "VP" not in kinds:
                parts.append("*")
                star = True
            if d.pkind == "VP":
                star = True
            p = {"VP": "*", "VK": "**"}.get(d.pkind, "") + d.name
            a = self.ann(d)
            if a is not None:
                ns[f"_A_{d.name}"] = a
                p += f": _A_{d.name}"
            if d.default:
                p += " = _DFLT"
            parts.append(p)
            if d.pkind == "PO" and (j + 1 == len(node.deps) or node.deps[j + 1].pkind != "PO"):
                parts.append("/")
        return ", ".join(parts)

    def make(self, i):
        n = self.g.nodes[i]
        ns = {"_DFLT": DFLT, "ctl": self.ctl, "Prod": Prod, "Y": Y, "Fault": Fault}
        import contextlib, typing, collections.abc
        ns.update(contextlib=contextlib, T=self.base(n.key), Gen=collections.abc.Generator,
                  AGen=collections.abc.AsyncGenerator, Aw=collections.abc.Awaitable, Any=Any)
        sig = self.signature(n, ns)
        ad = "{" + ", ".join(f"{d.name!r}: {d.name}" for d in n.deps) + "}"
        variant = n.variant
        chk = ""
        if n.inject:
            sig = self.hide(n, sig, ns)
            chk = "    assert _inj is _HID, 'injected parameter'\n"
        if n.kind == "concrete":
            src = (f"class P(Prod):\n    def __init__(self{', ' + sig if sig else ''}):\n"
                   f"        ctl.construct({i}, {ad}, self)\n")
            if sig and "/" in [p.strip() for p in sig.split(",")]:
                pass
        elif n.kind == "factory":
            if n.is_async and variant == 0:
                src = f"async def P({sig}):\n{chk}    await Y()\n    return ctl.construct({i}, {ad})\n"
            elif n.is_async:
                src = (f"def P({sig}) -> Aw[Any]:\n    async def go():\n        await Y()\n"
                       f"        return ctl.construct({i}, {ad})\n    return go()\n")
            else:
                src = f"def P({sig}):\n{chk}    return ctl.construct({i}, {ad})\n"
        elif n.kind == "generator":
            a = "async " if n.is_async else ""
            src = (f"{a}def P({sig}):\n" + ("    await Y()\n" if n.is_async else "") +
                   f"    o = ctl.construct({i}, {ad})\n"
                   f"    try:\n        yield o\n    except GeneratorExit:\n        raise\n    except BaseException as e:\n"
                   f"        ctl.fin(o, e)\n        " + ("return" if n.swallow else "raise") + "\n"
                   f"    else:\n        ctl.fin(o, None)\n")
        else:
            a, p, aw = ("async ", "a", "        await Y()\n") if n.is_async else ("", "", "")
            ret = "True" if n.swallow else "None"
            src = (f"class CM:\n    def __init__(self, args): self.args = args\n"
                   f"    {a}def __{p}enter__(self):\n{aw}        self.o = ctl.construct({i}, self.args)\n        return self.o\n"
                   f"    {a}def __{p}exit__(self, et, ev, tb):\n{aw}        assert (et is None) == (ev is None)\n"
                   f"        ctl.fin(self.o, ev)\n        return {ret}\n"
                   f"def P({sig}) -> CM:\n    return CM({ad})\n")
        exec(src, ns)
        return self.injector.inject(ns["P"]) if n.inject else ns["P"]

    def hide(self, n, sig, ns):
        """an injected callable as provider: one more parameter, which the wrapper resolves itself from the resolver handed to it"""
        if self.hidden is None:
            self.hidden = Prod()
            self.container.add_instance(self.hidden, provides=_Hidden)
            # the fallback of the resolver context is another container, which has another value
            self.injector = ResolverContext()
            other = Container(LEVELS[self.root_level], resolver_context=self.injector, missing_policy=MissingPolicy.ERROR, dependency_registration_policy=DependencyRegistrationPolicy.IGNORE)
            other.add_instance(Prod(), provides=_Hidden)
        ns["_INJ"], ns["_HID"] = Injected[_Hidden], self.hidden
        kinds = [d.pkind for d in n.deps]
        parts = [x for x in sig.split(", ") if x]
        at = len(parts) - ("VK" in kinds)
        parts[at:at] = (["*"] if not {"KO", "VP"} & set(kinds) else []) + ["_inj: _INJ"]
        return ", ".join(parts)

    def register(self, i):
        n = self.g.nodes[i]
        c = self.container
        kw = {}
        if n.key[1] is not None and n.variant == 0:
            kw.update(provides=self.base(n.key), component=n.key[1])
        else:
            kw.update(provides=self.key(n.key, noisy=False))
        if n.kind == "instance":
            o = Prod()
            o.node = i
            self.instances[i] = o
            c.add_instance(o, **kw)
            return
        prov = self.make(i)
        kw.update(scope=LEVELS[n.level], lifetime=Lifetime.SCOPED if n.life == "S" else Lifetime.TRANSIENT)
        if n.lock != "auto":
            kw["lock_mode"] = {"thread": LockMode.THREAD, "async": LockMode.ASYNC, "none": LockMode.NONE}[n.lock]
        if n.perm is not None:
            params = inspect.signature(prov).parameters
            deps = {}
            for j in n.perm:
                d = n.deps[j]
                if d.wrap != "none":
                    deps[self.ann(d, noisy=False)] = params[d.name]
            if len(deps) == sum(d.wrap != "none" for d in n.deps):
                kw["dependencies"] = deps
        {"concrete": c.add, "factory": c.add_factory, "generator": c.add_generator,
         "cm": c.add_context_manager}[n.kind](prov, **kw)


# ------------------------------------------------------------------ comparison
class Diverge(Exception):
    def __init__(self, cat, msg):
        super().__init__(f"[{cat}] {msg}")
        self.cat, self.msg = cat, msg


def err_kind(e):
    if isinstance(e, X.DIWireInvalidGenericTypeArgumentError):
        return 'generic'
    if isinstance(e, X.DIWireInvalidRegistrationError):
        return R.E_REG
    if isinstance(e, X.DIWireInvalidProviderSpecError):
        return R.E_SPEC
    if isinstance(e, Fault):
        return R.E_FAULT
    if isinstance(e, X.DIWireScopeMismatchError):
        return R.E_SCOPE
    if isinstance(e, X.DIWireAsyncDependencyInSyncContextError):
        return R.E_ASYNC
    if isinstance(e, X.DIWireDependencyNotRegisteredError):
        return R.E_MISSING
    return f"other:{type(e).__name__}: {str(e)[:160]}"


class Stop(Exception):
    """end of a history that cannot be compared further"""


class Sim:
    def __init__(self, graph, **opts):
        self.g = graph
        self.w = World(graph, **opts)
        self.m = Model(graph, opts.get("root_level", 1))
        self.bound = {}        # id(real) -> MObj
        self.keep = []
        self.handles = []      # (real callable, MHandle)
        self.root = self.w.container.compile()
        self.scopes = [(self.root, self.m.root)]
        self.log = []
        self.findings = set()

    # --- matching of values
    def match(self, real, mod, where, pkind="PK", new=None):
        if pkind == "VP":
            if isinstance(mod, tuple):
                if len(real) != len(mod):
                    raise Diverge("all" if mod else "arg", f"{where}: *args has {len(real)} values, expected {len(mod)}")
                for k, (r, x) in enumerate(zip(real, mod)):
                    self.match(r, x, f"{where}[{k}]", new=new)
                return
            src = {id(x.src): x.src for x in real if isinstance(x, Item)}
            if len(real) != 2 or len(src) != 1 or [x.idx for x in real] != [0, 1]:
                raise Diverge("arg", f"{where}: *args received {real!r}, expected the spread of one value")
            return self.match(next(iter(src.values())), mod, where, new=new)
        if pkind == "VK":
            if mod == {} and isinstance(mod, dict):
                if real:
                    raise Diverge("arg", f"{where}: **kwargs received {real!r}, expected nothing")
                return
            if set(real) != {"k0", "k1"} or not all(isinstance(v, Item) for v in real.values()) or \
               len({id(v.src) for v in real.values()}) != 1:
                raise Diverge("arg", f"{where}: **kwargs received {real!r}, expected the spread of one value")
            return self.match(real["k0"].src, mod, where, new=new)
        if mod is DEFAULT:
            if real is not DFLT:
                raise Diverge("arg", f"{where}: expected the parameter default, got {desc(real)}")
            return
        if real is DFLT:
            raise Diverge("arg", f"{where}: left to its default, expected {mdesc(mod)}")
        if inspect.isawaitable(real):
            if inspect.iscoroutine(real):
                real.close()
            raise Diverge("coroutine", f"{where}: un-awaited object injected or returned")
        if isinstance(mod, MObj):
            if not isinstance(real, Prod):
                raise Diverge("arg", f"{where}: expected a value of node {mod.node}, got {desc(real)}")
            b = self.bound.get(id(real))
            if mod.real is not None or b is not None:
                if b is not mod:
                    if real.node != mod.node:
                        raise Diverge("arg", f"{where}: got a value of node {real.node}, expected node {mod.node}")
                    raise Diverge("ident", f"{where}: node {mod.node}: "
                                  + (f"expected the object already cached in the level-{mod.scope.level} scope, got "
                                     + ("a new one" if b is None else "another one") if mod.real is not None
                                     else "expected a newly built object, got an existing one"))
                return
            if real.node != mod.node:
                raise Diverge("arg", f"{where}: got a value of node {real.node}, expected node {mod.node}")
            n = self.g.nodes[mod.node]
            if n.kind == "instance":
                if self.w.instances.get(mod.node) is not real:
                    raise Diverge("ident", f"{where}: registered instance {mod.node} replaced")
                self.bind(real, mod)
                return
            ev = [e for e in self.w.ctl.events if e[2] is real]
            if len(ev) != 1:
                raise Diverge("ident", f"{where}: node {mod.node}: expected an object built in this step")
            self.bind(real, mod)
            self.match_args(ev[0], mod, where)
            return
        if isinstance(mod, MHandle):
            if not callable(real) or isinstance(real, Prod):
                raise Diverge("arg", f"{where}: expected a provider handle, got {desc(real)}")
            self.handles.append((real, mod))
            return
        if isinstance(mod, tuple):
            if not isinstance(real, tuple):
                raise Diverge("arg", f"{where}: expected a tuple, got {desc(real)}")
            if len(real) != len(mod):
                raise Diverge("all", f"{where}: {len(real)} values, expected {len(mod)}")
            for k, (r, x) in enumerate(zip(real, mod)):
                try:
                    self.match(r, x, f"{where}[{k}]", new=new)
                except Diverge as e:
                    raise Diverge("all" if e.cat == "arg" else e.cat, e.msg)
            return
        # None, context values
        if real is not mod:
            raise Diverge("ctx" if isinstance(mod, Val) or isinstance(real, Val) else "arg",
                          f"{where}: got {desc(real)}, expected {mdesc(mod)}")

    def bind(self, real, mod):
        mod.real = real
        self.bound[id(real)] = mod
        self.keep.append(real)

    def match_args(self, ev, mod, where):
        n = self.g.nodes[mod.node]
        for d in n.deps:
            self.match(ev[1][d.name], mod.args.get(d.name, DEFAULT), f"{where}.n{mod.node}({d.name})", d.pkind)

    # --- steps
    def outcome(self, thunk):
        self.w.ctl.events = []
        try:
            return ("ok", thunk())
        except (Exception, FinBase) as e:
            return ("err", e)

    def settle(self, real, model_thunk, what, wrap="plain"):
        """compare one resolution; returns 'ok'|'err' and raises Diverge"""
        kind, val = real
        try:
            mval = model_thunk()
            mk = None
        except MErr as e:
            mval, mk = None, e.kinds
        built = self.m.built
        if kind == "err":
            rk = err_kind(val)
            if mk is None and rk not in self.m.may:
                raise Diverge("err-" + rk.split(":")[0], f"{what}: raised {type(val).__name__}: {val}; expected a value")
            if mk is not None and rk not in mk and rk not in self.m.may:
                raise Diverge("err-" + ("scope" if R.E_SCOPE in mk else rk.split(":")[0]),
                              f"{what}: raised {type(val).__name__}: {val}; expected {sorted(mk)}")
        elif mk is not None and val is None and wrap == "maybe" and R.E_MISSING in mk:
            self.findings.add("maybe-missing-context")
            raise Stop
        elif mk is not None:
            if inspect.iscoroutine(val):
                val.close()
            raise Diverge("err-" + ("scope" if R.E_SCOPE in mk else sorted(mk)[0]),
                          f"{what}: returned {desc(val)}; expected {sorted(mk)}")
        else:
            self.match(val, mval, what)
        # leftovers: constructions not reachable from the result
        evs = [e for e in self.w.ctl.events if id(e[2]) not in self.bound]
        left = [o for o in built if o.real is None]
        for e in evs:
            cands = [o for o in left if o.node == e[0]]
            if not cands:
                if kind == "err" and err_kind(val) == R.E_MISSING:
                    raise Stop    # a failing lookup may be retried under the normalised key
                raise Diverge("count", f"{what}: node {e[0]} constructed once more than required")
            last = None
            for o in cands:
                snap = (dict(self.bound), len(self.keep), [x.real for x in built], len(self.handles))
                try:
                    self.bind(e[2], o)
                    self.match_args(e, o, what)
                    left.remove(o)
                    last = None
                    break
                except Diverge as ex:
                    last = ex
                    self.bound = snap[0]
                    for x, r in zip(built, snap[2]):
                        x.real = r
                    del self.handles[snap[3]:]
            if last is not None:
                raise last
        left = [o for o in built if o.real is None and self.g.nodes[o.node].kind != "instance"]
        if left and kind == "ok":
            raise Diverge("count", f"{what}: node {left[0].node} not constructed although required")
        for o in left:      # failed step: whatever was not built is forgotten
            if o.scope.cache.get(o.node) is o:
                del o.scope.cache[o.node]
            lv = o.scope.at(self.g.nodes[o.node].level)
            if lv and o in lv.resources:
                lv.resources.remove(o)
        if kind == "err":   # one-shot faults are consumed
            for i, n in enumerate(self.g.nodes):
                if n.fault:
                    n.fault_left = max(0, n.fault - self.w.ctl.calls.get(i, 0))
        return kind

    def resolve(self, si, wrap, key, mode):
        real, ms = self.scopes[si]
        ann = self.w.ann(Dep("x", "PK", wrap, key))
        what = f"{'a' if mode == ASYNC else ''}resolve({wrap} {key}) at scope#{si} level {ms.level}"
        self.log.append(what)
        if mode == SYNC:
            out = self.outcome(lambda: real.resolve(ann))
        else:
            out = self.outcome(lambda: run(real.aresolve(ann)))
        return self.settle(out, lambda: self.m.resolve(ms, wrap, key, mode), what, wrap)

    def call_handle(self, hi):
        real, mh = self.handles[hi]
        what = f"call {'async ' if mh.is_async else ''}provider handle of {mh.key} from level {mh.scope.level}"
        self.log.append(what)
        mode = ASYNC if mh.is_async else SYNC
        out = self.outcome((lambda: run(_aw(real()))) if mh.is_async else real)

        def mod():
            self.m.built = []
            self.m.may = set()
            j = self.g.by_key.get(mh.key)
            if j is None:
                raise MErr({R.E_MISSING})
            return self.m.resolve_node(mh.scope, j, mode)
        return self.settle(out, mod, what)

    def enter(self, si, target, ctx, amode=False):
        real, ms = self.scopes[si]
        what = f"enter_scope({target}) from scope#{si} level {ms.level}" + (f" context={sorted(map(str, ctx))}" if ctx else "")
        self.log.append(what)
        mctx = None if ctx is None else {("ctx", k): v for k, v in ctx.items()}
        try:
            mnew = self.m.enter(ms, target, mctx)
            mk = None
        except MErr as e:
            mk = e.kinds
        rctx = None if ctx is None else {self.w.base(("ctx", k)): v for k, v in ctx.items()}
        tgt = None if target is None else LEVELS[target]
        try:
            rnew = real.enter_scope(tgt, context=rctx)
            if amode:
                rnew2 = run(rnew.__aenter__())
            else:
                rnew2 = rnew.__enter__()
        except Exception as e:
            if mk is None:
                raise Diverge("enter", f"{what}: raised {type(e).__name__}: {e}; expected path to level {mnew.level}")
            if err_kind(e) not in mk:
                raise Diverge("enter", f"{what}: raised {type(e).__name__}: {e}; expected DIWireScopeMismatchError")
            return None
        if mk is not None:
            raise Diverge("enter", f"{what}: returned; expected DIWireScopeMismatchError")
        if mnew is ms:
            if rnew is not real and not self.same(rnew, real):
                raise Diverge("enter", f"{what}: entering the current level returned another scope")
            return si
        self.scopes.append((rnew2, mnew))
        d = self.depth(rnew2)
        want = self.want_depth(mnew.level)
        if d != want:
            raise Diverge("enter", f"{what}: the new scope is {d} default steps from the end of the ladder, expected {want}")
        return len(self.scopes) - 1

    def same(self, a, b):
        return a is b

    def want_depth(self, level):
        n = 0
        while True:
            try:
                p = self.g.path(level, None)
            except MErr:
                return n
            level = p[-1]
            n += 1

    def depth(self, r):
        n = 0
        while True:
            try:
                r = r.enter_scope()
            except X.DIWireScopeMismatchError:
                return n
            n += 1
            if n > 9:
                return n

    def close(self, si, exc=None, amode=True, again=False):
        real, ms = self.scopes[si]
        what = f"{'a' if amode else ''}close scope#{si} level {ms.level} with {type(exc).__name__ if exc else None}"
        self.log.append(what)
        ctl = self.w.ctl
        ctl.fins = []
        et = (type(exc), exc, exc.__traceback__) if exc is not None else (None, None, None)
        raised, ret = None, None
        try:
            if amode:
                ret = run(real.__aexit__(*et))
            else:
                ret = real.__exit__(*et)
        except (Exception, FinBase) as e:
            raised = e
        if ret:
            raise Diverge("fin-err", f"{what}: __exit__ returned a true value (swallows the exception)")
        # expected
        order = [ms] + list(reversed(ms.owned))
        want, errs = [], []
        for s in order:
            res = sorted((o for o in s.resources), key=lambda o: -ctl.opened[id(o.real)])
            for o in res:
                n = self.g.nodes[o.node]
                if n.is_async and not amode:
                    errs.append("async")
                    continue
                want.append(o)
                if n.fin:
                    errs.append(n.fin)
            s.resources = []
            s.closed = True
        got = ctl.fins
        if len(got) != len(want) or {id(o) for o, _ in got} != {id(o.real) for o in want}:
            wn, gn = [o.node for o in want], [o.node for o, _ in got]
            raise Diverge("fin-count", f"{what}: finalised nodes {gn}, expected {wn}")
        if [id(o) for o, _ in got] != [id(o.real) for o in want]:
            raise Diverge("fin-order", f"{what}: finalisation order {[o.node for o, _ in got]}, expected {[o.node for o in want]}")
        for o, e in got:
            if e is not exc:
                raise Diverge("fin-exc", f"{what}: finaliser of node {o.node} received {e!r}, expected {exc!r}")
        if exc is not None:
            if raised is not None:
                raise Diverge("fin-err", f"{what}: raised {raised!r} although an exception was leaving")
        elif errs:
            t = {"E": FinErr, "B": FinBase, "async": X.DIWireAsyncDependencyInSyncContextError}[errs[0]]
            if not isinstance(raised, t):
                raise Diverge("fin-err", f"{what}: raised {raised!r}, expected the first finaliser error ({t.__name__})")
            if t in (FinErr, FinBase):
                first = next(o.node for o in want if self.g.nodes[o.node].fin)
                if raised.args != (first,):
                    raise Diverge("fin-err", f"{what}: raised the error of node {raised.args}, expected that of {first}")
        elif raised is not None:
            raise Diverge("fin-err", f"{what}: raised {raised!r}, expected nothing")


def _aw(x):
    async def go():
        return await x
    return go()


def desc(v):
    if isinstance(v, Prod):
        return f"<node {v.node}>"
    return repr(v)[:80]


def mdesc(v):
    if isinstance(v, MObj):
        return f"<node {v.node}>"
    if isinstance(v, MHandle):
        return "<handle>"
    return repr(v)[:80]


# ------------------------------------------------------------------ generation
BASE = dict(n=(2, 7), levels=[(1, 4), (2, 1), (3, 4), (4, 2), (5, 1)], kinds=[("concrete", 3), ("factory", 4), ("generator", 2), ("cm", 1), ("instance", .6)],
            p_async=.25, p_scoped=.6, ndeps=[(0, 2), (1, 4), (2, 3), (3, 2), (4, 1)],
            wraps=[("plain", 10), ("maybe", 1.5), ("all", 1.2), ("prov", 1), ("aprov", .7), ("ctx", .8), ("none", .5)],
            pkinds=[("PK", 8), ("KO", 3), ("PO", 2), ("VP", 1), ("VK", 1)], p_fault=.06, p_fin=.15, p_comp=.35, p_rereg=.1,
            p_missing=.03, p_lock=.4, p_perm=.2, p_noise=True, steps=(8, 24), p_bias=.75, ops=[("resolve", 6), ("enter", 2.5), ("close", 2), ("handle", 1)],
            dwraps=[("plain", 8), ("maybe", 1), ("all", 1), ("prov", 1), ("aprov", .7), ("ctx", .7), ("maybectx", .6), ("missing", .4)],
            p_amode=.5, p_exc=.4, p_ctx=.7, p_og=.2, p_cleanup=.3, p_rc=.2, roots=[(1, 6), (3, 1), (2, .5)], p_swallow=.1, monotone=.7)


def pick(rng, table):
    t = sum(w for _, w in table)
    r = rng.random() * t
    for v, w in table:
        r -= w
        if r <= 0:
            return v
    return table[-1][0]


def swarm(rng, P):
    """a random sub-profile: single graphs combine few features densely instead of all of them thinly"""
    if rng.random() >= P.get("p_swarm", .5):
        return P
    P = dict(P)
    for k in ("levels", "kinds", "pkinds", "wraps"):
        if rng.random() < .6:
            t = [x for x in P[k] if rng.random() < .5]
            P[k] = t or P[k]
    if all(w in ("ctx", "none") for w, _ in P["wraps"]) and rng.random() < .8:
        P["wraps"] = [*P["wraps"], ("plain", 4)]
    for k in ("p_async", "p_scoped", "monotone", "p_lock", "p_comp", "p_rereg", "p_fault", "p_fin"):
        if P.get(k):
            P[k] = rng.choice([P[k], P[k], 0, .25, .6, .9])
    if P["p_comp"] > .5 and P["p_rereg"] > .5:
        P["p_rereg"] = .1
    if rng.random() < .4:
        P["ndeps"] = [(1, 3), (2, 2), (3, 1)]
    return P


def gen_graph(rng, P, root):
    P = swarm(rng, P)
    levels = [l for l in (1, 2, 3, 4, 5) if l >= root]
    lt = [(l, w) for l, w in P["levels"] if l >= root] or [(root, 1)]
    n = rng.randint(*P["n"])
    nodes = []
    ntypes = rng.choice([1, 2, max(1, int(n * .8))])
    for i in range(n):
        key = (rng.randrange(ntypes), rng.choice([None, "a", "b", "c"])) if rng.random() < P["p_comp"] else (100 + i, None)
        if key[0] >= 100 and rng.random() < .15:
            key = (key[0], "a")
        earlier = [x.key for x in nodes]
        if earlier and rng.random() < P["p_rereg"]:
            key = rng.choice(earlier)
        node = Node(key, pick(rng, P["kinds"]))
        node.variant = rng.randrange(2)
        if node.kind in ("factory", "generator", "cm"):
            node.is_async = rng.random() < P["p_async"]
        node.life = "S" if rng.random() < P["p_scoped"] else "T"
        node.level = pick(rng, lt)
        if rng.random() < P["p_lock"]:
            node.lock = rng.choice(["thread", "async", "none", "none"])
        if node.kind == "instance":
            node.life, node.level = "S", root
            nodes.append(node)
            continue
        if node.kind in ("generator", "cm"):
            if rng.random() < P["p_fin"]:
                node.fin = rng.choice(["E", "E", "B"])
            node.swallow = rng.random() < P["p_swallow"]
        if rng.random() < P["p_fault"]:
            node.fault = rng.randint(1, 2)
        cand = [x for x in nodes if x.key != key]
        if rng.random() < P["monotone"]:
            cand = [x for x in cand if x.level <= node.level]
        pk = sorted((pick(rng, P["pkinds"]) for _ in range(pick(rng, P["ndeps"]))), key=["PO", "PK", "VP", "KO", "VK"].index)
        seen, dflt = set(), False
        for j, k in enumerate(pk):
            if k in ("VP", "VK"):
                if k in seen:
                    continue
                seen.add(k)
            w = pick(rng, P["wraps"])
            if not cand and w in ("plain", "maybe", "all", "prov", "aprov"):
                w = rng.choice(["ctx", "maybe", "none", "all"])
            if k in ("VP", "VK") and w in ("prov", "aprov", "none"):
                w = "plain" if cand else "ctx"
            if k == "VK" and w == "all":
                w = "plain" if cand else "ctx"
            d = Dep(f"p{j}", k, w, None)
            if w == "ctx":
                d.key = ("ctx", rng.randrange(3))
            elif w == "all":
                d.key = (rng.choice(cand).key[0] if cand and rng.random() < .85 else 999, None)
            elif w == "maybe" and (not cand or rng.random() < .5):
                d.key = (998, None)
            elif w in ("prov", "aprov"):
                c2 = [x for x in cand if x.level <= node.level] or cand
                d.key = rng.choice(c2).key
            elif w == "none":
                d.key = (0, None)
            else:
                d.key = rng.choice(cand).key
            if k not in ("VP", "VK"):
                d.default = w == "none" or rng.random() < .3
            if k in ("PO", "PK"):
                d.default = d.default or dflt
                dflt = d.default
            node.deps.append(d)
        fix_signature(node, nodes)
        anns = [(d.wrap, d.key) for d in node.deps if d.wrap != "none"]
        if node.deps and len(set(anns)) == len(anns) and rng.random() < P["p_perm"]:
            node.perm = list(range(len(node.deps)))
            rng.shuffle(node.perm)
        nodes.append(node)
    ri = random.Random("|".join(describe(x) for x in nodes))
    for x in nodes:
        x.inject = injectable(x) and ri.random() < P.get("p_inject", .15)
    return Graph(nodes, [(l, l == 2) for l in levels])


def injectable(n):
    """FromContext parameters of an injected callable are resolved by the wrapper and are no declared dependencies"""
    return n.kind == "factory" and not (n.is_async and n.variant) and not any(d.wrap in ("ctx", "maybectx") for d in n.deps)


def fix_signature(node, nodes):
    """Shapes excluded (KNOWN-FINDING C09-star-after-default, see DESIGN.md): a positional value after a
    positional parameter that is left to its default. Positional-only parameters after an omitted one are
    left to their default as well (pinned by the repository's tests)."""
    deps = node.deps
    if any(d.pkind == "VP" for d in deps) or any(d.pkind == "PO" for d in deps):
        last = max(j for j, d in enumerate(deps) if d.pkind in ("VP", "PO"))
        for j, d in enumerate(deps[:last]):
            if d.pkind in ("PO", "PK") and d.default and d.wrap in ("none", "maybe"):
                d.wrap, d.key = "all", (999, None)


def run_case(seed, P=BASE, stats=None):
    """one graph + history; returns None or (cat, msg, log)"""
    rng = random.Random(seed)
    root = pick(rng, P["roots"])
    for _ in range(20):
        g = gen_graph(rng, P, root)
        if not g.compile_errors() and not stale_conflict(g):
            break
    else:
        return None
    opts = dict(root_level=root, og=rng.random() < P["p_og"], cleanup=rng.random() < P["p_cleanup"],
                ctx=rng.random() < P["p_rc"], noise=random.Random(seed + 1) if P["p_noise"] else NoNoise())
    return run_graph(g, opts, rng, P, stats)


def run_graph(g, opts, rng, P=BASE, stats=None):
    """a random history on one graph"""
    sim = None
    log = [f"options {dict((k, v) for k, v in opts.items() if k != 'noise')}"] + [f"node {i}: {describe(n)}" for i, n in enumerate(g.nodes)]
    try:
        try:
            sim = Sim(g, **opts)
        except Diverge:
            raise
        except Exception as e:
            raise Diverge("compile", f"registering/compiling an acyclic graph raised {type(e).__name__}: {e}")
        sim.log = log
        try:
            history(sim, rng, P, stats)
        except Stop:
            pass
    except Diverge as d:
        return (d.cat, d.msg, log)
    finally:
        if stats is not None and sim is not None:
            stats["_log"] = log
            stats["steps"] = stats.get("steps", 0) + len(log)
            for f in sim.findings:
                stats["finding:" + f] = stats.get("finding:" + f, 0) + 1
            stats["constructed"] = stats.get("constructed", 0) + sim.w.ctl.seq
    return None


class NoNoise:
    def random(self):
        return 1.0


def stale_conflict(g):
    """a replaced registration may leave dependents pointing at deeper/other keys; still a valid graph"""
    return False


def describe(n):
    ds = ", ".join(f"{d.name}:{d.pkind}:{d.wrap}{d.key}{'=' if d.default else ''}" for d in n.deps)
    return (f"key={n.key} {'async ' if n.is_async else ''}{n.kind} {n.life} level={n.level} lock={n.lock}"
            + (f" fault={n.fault}" if n.fault else "") + (f" fin={n.fin}" if n.fin else "") + (" swallow" if n.swallow else "") + (" injected" if n.inject else "")
            + (f" perm={n.perm}" if n.perm else "") + f" deps=[{ds}]")


def fits(g, ms, i):
    for j in g.reach(i):
        n = g.nodes[j]
        if n.kind != "instance" and ms.at(n.level) is None:
            return False
        for d in n.deps:
            if d.wrap == "ctx":
                s = ms
                while s is not None and not (s.ctx and d.key in s.ctx):
                    s = s.parent
                if s is None:
                    return False
    return True


def history(sim, rng, P, stats, extra={}):
    g = sim.g
    live = [0]
    kids = {0: 0}
    parent = {}
    steps = rng.randint(*P["steps"])
    for _ in range(steps):
        op = pick(rng, P["ops"])
        if op in extra:
            extra[op](live)
            continue
        if op == "enter":
            if len(live) > 5:
                continue
            si = rng.choice(live[-3:])
            ms = sim.scopes[si][1]
            r = rng.random()
            if r < .4:
                t = None
            else:
                deeper = [l for l, _ in g.levels if l > ms.level]
                t = rng.choice(deeper) if deeper and r < .9 else rng.choice([l for l, _ in g.levels])
            if t == ms.level and t == g.levels[-1][0]:
                continue        # C03: entering the deepest level from itself is unspecified
            ctx = None
            if rng.random() < P["p_ctx"]:
                ctx = {k: rng.choice([Val(f"{k}.{len(sim.log)}"), Val(f"{k}.{len(sim.log)}"), Val("x")]) for k in range(3) if rng.random() < .6}
                if ctx and rng.random() < .25 and not any(d.wrap == "ctx" and d.pkind in ("VP", "VK") for n in g.nodes for d in n.deps):
                    ctx[rng.choice(list(ctx))] = rng.choice([None, 0, "", False])
            new = sim.enter(si, t, ctx, rng.random() < P["p_amode"])
            if new is not None and new != si:
                live.append(new)
                kids[new] = 0
                kids[si] += 1
                parent[new] = si
        elif op == "close":
            c = [s for s in live if kids[s] == 0 and s != 0]
            if not c:
                continue
            si = rng.choice(c)
            sim.close(si, Leave(len(sim.log)) if rng.random() < P["p_exc"] else None, rng.random() < max(.5, P["p_amode"]))
            if rng.random() < .15:
                sim.close(si, None, True)
            live.remove(si)
            kids[parent[si]] -= 1
        elif op == "handle":
            hs = [i for i, (_, mh) in enumerate(sim.handles) if not mh.scope.closed]
            if hs:
                sim.call_handle(rng.choice(hs))
        else:
            si = rng.choice(live[-4:] if rng.random() < .8 else live)
            w = pick(rng, P["dwraps"])
            pref = rng.random() < P["p_bias"]
            mode = ASYNC if rng.random() < P["p_amode"] else SYNC
            if w == "missing":
                w, key = rng.choice(["plain", "maybe"]), (997, None)
            elif w in ("ctx", "maybectx"):
                key = ("ctx", rng.randrange(3))
            else:
                key = g.nodes[rng.randrange(getattr(g, 'nclosed', len(g.nodes)))].key
                if w == "all":
                    key = (key[0], None)
                j = g.by_key.get(key)
                if pref and j is not None:
                    fit = [x for x in live if fits(g, sim.scopes[x][1], j)]
                    if fit:
                        si = rng.choice(fit)
                        if g.requires_async(j) and w in ("plain", "maybe"):
                            mode = ASYNC
            sim.resolve(si, w, key, mode)
    # drain everything, innermost first
    while len(live) > 1:
        c = [s for s in live if kids[s] == 0 and s != 0]
        si = c[-1]
        sim.close(si, Leave(len(sim.log)) if rng.random() < P["p_exc"] else None, rng.random() < max(.6, P["p_amode"]))
        live.remove(si)
        kids[parent[si]] -= 1
    sim.close(0, Leave(len(sim.log)) if rng.random() < P["p_exc"] else None, rng.random() < max(.6, P["p_amode"]))
