"""Contracts of the container's entry points (container.py: resolve, aresolve, enter_scope, __enter__, __exit__, close, compile,
_ensure_autoregistration and what they call).

requires  a container with any of the policies, with or without a compiled root, with or without a resolver bound by resolver_context; the compiled
          resolvers are any objects with the resolver protocol; auto-registration may change the graph, change nothing, or fail
ensures   policy  : the policy in force is the argument's, else the container's; under ERROR nothing is registered; an invalid policy is rejected first
          result  : value or exception of the deciding resolution is passed on unchanged; a missing key that could not be registered stays the
                    original error
          fresh   : a resolution by the container's own root sees the registrations of that moment
          bound   : an entered resolver of resolver_context is preferred to the root
          autoreg : _ensure_autoregistration adds exactly the missing eligible key (and its dependencies iff recursive), at root scope with the default
                    lifetime, and nothing if the key is registered or an open generic matches it
          compile : the root is built once per graph, wrapped for open generics iff there are any and for resolver_context iff used, entry points are
                    rebound iff the container is strict and without resolver_context; a failing build leaves nothing behind
          scope   : scope entry and exit go to the same resolver with the same arguments"""
from __future__ import annotations
from typing import Annotated, Generic, TypeVar
from .sym import Engine, Obj, Exc, Coro, PyRaise, Unsupported, SV, SVTB, _model
from .c_rcontext import outcome
from . import native
from .c_registry import World, specs, same_map, diff, same_entry, P
from diwire import (exceptions as X, Scope, Lifetime, DependencyRegistrationPolicy as DP, MissingPolicy as MP, Container, Component, ResolverContext, Provider,
                    AsyncProvider, Maybe, All)
from diwire._internal.providers import ProviderDependency
import diwire._internal.container as cm

ASSUMPTIONS = ["container entry points are checked against an abstract compiled resolver (the resolvers themselves are under the slots, scopes and exits contracts)"]


class A:
    pass


class B:
    pass


class E:
    pass


class F:
    pass


class Fixed:
    pass


T = TypeVar("T")


class G(Generic[T]):
    pass


AK = Annotated[A, Component("k")]
DEPS = {"plain": A, "component": AK, "provider": Provider[A], "aprovider": AsyncProvider[A], "maybe": Maybe[A], "generic": G[int]}
INNER = {"provider": A, "aprovider": A}


class Roots:
    """abstract compiled resolvers; a root remembers the registrations it was built from"""

    def __init__(self, p, c, may_fail=True):
        self.p, self.c, self.log, self.may_fail = p, c, [], may_fail
        self.built = 0
        p.intercept(cm.ResolversManager, "build_root_resolver", self.build)
        p.intercept(type(c._resolver_context), "_wrap_resolver", self.wrap)
        p.intercept(Container, "_get_context_bound_resolver_or_none", lambda p, a, k: self.bound)
        self.bound = None
        self.buildexc = None

    def resolver(self, name, stamp=None):
        o = self.p.obj(None, name, lazy=lambda p, o, n: p.fresh(n))
        o.stamp = stamp

        def method(m, is_async):
            def call(p, args, kw):
                def body():
                    ev = dict(kind=m, on=o, args=tuple(args), kw=dict(kw), exc=None, val=None, stale=stamp is not None and not same_map(specs(p, self.c), stamp))
                    self.log.append(ev)
                    n = p.choose(3 if self.may_fail else 1, f"{m} on {name}: value, not registered, other error")
                    if n:
                        ev["exc"] = Exc(X.DIWireDependencyNotRegisteredError, ("missing",)) if n == 1 else p.exc(m)
                        if n == 2:
                            ev["exc"].known[X.DIWireDependencyNotRegisteredError] = False
                        raise PyRaise(ev["exc"])
                    ev["val"] = p.fresh("value")
                    return ev["val"]
                return Coro(body, m) if is_async else body()
            v = self.p.fresh(m)
            v.on_call = call
            return v
        for m, a in (("resolve", False), ("aresolve", True), ("enter_scope", False), ("__enter__", False), ("__aenter__", True), ("__exit__", False), ("__aexit__", True)):
            o.fields[m] = method(m, a)
        return o

    def build(self, p, a, k):
        self.built += 1
        self.built_with = (tuple(a), dict(k))
        if self.may_fail and p.choose(2, "the build fails") == 1:
            self.buildexc = p.exc("build")
            self.buildexc.known[X.DIWireDependencyNotRegisteredError] = False
            raise PyRaise(self.buildexc)
        return self.resolver(f"root{self.built}", specs(p, self.c))

    def wrap(self, p, a, k):
        o = [*a, *k.values()][-1]
        w = self.resolver("bound " + getattr(o, "name", "root"), getattr(o, "stamp", None))
        w.inner = o
        return w


def container(policy, ctx=False):
    c = Container(missing_policy=policy, dependency_registration_policy=DP.IGNORE, resolver_context=ResolverContext(), use_resolver_context=ctx,
                  default_lifetime=Lifetime.TRANSIENT)
    c.add_instance(Fixed(), provides=Fixed)
    return c


def go_resolve(is_async, dep, cpol, arg):
    def setup(p):
        c = container(cpol, ctx=True)
        w = Roots(p, c, may_fail=False)
        if p.choose(2, "compiled before") == 1:
            p.call(p.getattr(c, "compile"), [], {})
        w.may_fail = True
        if p.choose(2, "a resolver is bound") == 1:
            w.bound = w.resolver("bound")
        autos = []

        def auto(p, a, k):
            d, pol = [*a[1:], *k.values()][:2] if len(a) + len(k) > 2 else (*[*a[1:], *k.values()], None)
            ev = dict(kind="auto", dep=d, pol=pol, n=p.choose(3, "auto-registration: changes, nothing, fails"), exc=None)
            autos.append(ev)
            w.log.append(ev)
            if ev["n"] == 2:
                ev["exc"] = p.exc("auto-registration")
                raise PyRaise(ev["exc"])
            if ev["n"] == 0:
                m = w.may_fail
                w.may_fail = False
                p.call(p.getattr(c, "add_instance"), [p.fresh("new")], dict(provides=A))
                w.may_fail = m
            return None
        p.intercept(Container, "_ensure_autoregistration", auto)
        d = DEPS[dep]
        kw = {} if arg is None else dict(on_missing=arg)
        kk, r = outcome(p, lambda: p.call(p.getattr(c, "aresolve" if is_async else "resolve"), [d], kw), is_async)
        eff = cpol if arg in (None, "from_container") else arg
        rs = [e for e in w.log if e["kind"] in ("resolve", "aresolve")]
        last = rs[-1] if rs else None
        if w.buildexc is not None:
            p.must(kk == "raise" and r is w.buildexc, "result", f"the build failed, but the outcome is {kk} {r!r}")
            return
        if not isinstance(eff, MP):
            p.must(kk == "raise" and isinstance(r, Exc) and r.cls is X.DIWireInvalidRegistrationError and not w.log, "policy", f"invalid policy: {kk} {r!r} {w.log}")
            return
        for e in rs:
            p.must(e["kind"] == ("aresolve" if is_async else "resolve") and len(e["args"]) == 1 and e["args"][0] == d and not e["kw"], "result",
                   f"{e['kind']} of {e['args']} {e['kw']}, asked for {d}")
            p.must(not e["stale"], "fresh", "a root built before the last registration is used")
        for e in autos:
            p.must(eff is not MP.ERROR, "policy", "something is auto-registered under ERROR")
            p.must(e["pol"] is eff, "policy", f"auto-registration under {e['pol']}, in force is {eff}")
            p.must(e["dep"] == d or e["dep"] == INNER.get(dep), "policy", f"auto-registration of {e['dep']} for {d}")
        fa = next((e for e in autos if e["n"] == 2), None)
        if fa is not None:
            p.must(kk == "raise" and r is fa["exc"], "result", f"auto-registration failed, but the outcome is {kk} {r!r}")
            return
        p.must(last is not None, "result", f"nothing is resolved: {kk} {r!r}")
        if not any(e["n"] == 0 and w.log.index(e) < w.log.index(rs[0]) for e in autos):
            p.must((rs[0]["on"] is w.bound) == (w.bound is not None), "bound", "the resolver bound by resolver_context is not the one used")
        if last["exc"] is not None:
            p.must(kk == "raise" and r is last["exc"], "result", f"outcome {kk} {r!r} instead of {last['exc']!r}")
            if last["exc"].cls is X.DIWireDependencyNotRegisteredError and eff is not MP.ERROR:
                p.must(bool(autos), "policy", "a missing key is not auto-registered")
                p.must(not any(e["n"] == 0 for e in autos) or w.log.index(autos[-1]) < w.log.index(last), "fresh", "no resolution after a successful auto-registration")
        else:
            p.must(kk == "ok" and r is last["val"], "result", f"outcome {kk} {r!r} instead of the resolved value")
        if dep in INNER and eff is not MP.ERROR:
            p.must(bool(autos) and w.log.index(autos[0]) < w.log.index(rs[0]), "policy", "the key behind a handle is not auto-registered before the handle is made")
    return setup


def go_ensure(state, pol):
    def setup(p):
        c = container(MP.ERROR)
        d = {"plain": A, "provider": Provider[A], "component": AK, "maybe": Maybe[A], "generic": G[int], "registered": Fixed, "registered-provider": Provider[Fixed],
             "note": Annotated[A, "note"], "other-class": int}[state]
        if state == "generic":
            c.add_factory(lambda: None, provides=G[T], dependencies={})
        w = World(p, {A: [ProviderDependency(provides=E, parameter=P("e"))], E: [ProviderDependency(provides=F, parameter=P("f"))], F: [], int: []})
        before = specs(p, c)
        cp = p.choose(2, "policy by argument") == 0
        if not cp:
            p.setattr(c, "_missing_policy", pol)
        kk, r = outcome(p, lambda: p.call(p.getattr(c, "_ensure_autoregistration"), [d], dict(on_missing=pol) if cp else {}), False)
        after = specs(p, c)
        new = [k for k in after if k not in before]
        p.must(all(k in after and same_map({0: before[k]}, {0: after[k]}) for k in before), "autoreg", f"an existing binding changed: {diff(before, after)}")
        key = A if state in ("plain", "provider", "note") else d
        if kk == "raise":
            p.must(w.fault is not None, "autoreg", f"{r!r} without a reason")
            p.must(not new, "autoreg", f"{new} stays registered after a failure")
            return
        if pol is MP.ERROR or state in ("registered", "registered-provider", "generic"):
            p.must(not new, "autoreg", f"{new} is registered for {d} under {pol}")
            return
        if state in ("component",):
            p.must(not new, "autoreg", f"a component key is auto-registered: {new}")
            return
        ok = isinstance(key, type) and w.elig.setdefault(key, True)
        want = [key] if ok and key is not A else []
        if ok and key is A:
            want = [A]
            if pol is MP.REGISTER_RECURSIVE:
                for x in (E, F):
                    if w.fault is not None and w.fault[1] is x or not w.elig.setdefault(x, True):
                        break
                    want.append(x)
        if state == "maybe":
            p.must(set(new) <= {A, E, F}, "autoreg", f"{new}")
            return
        p.must(set(new) == set(want), "autoreg", f"{pol} registers {new} for {d}, expected {want}")
        for k in want:
            s = after[k]
            p.must(s["kind"] == "concrete_type" and s["provider"] is k and s["scope"] is c._root_scope and s["lifetime"] is Lifetime.TRANSIENT, "autoreg",
                   f"{k} is registered as {s}")
    return setup


def go_compile(ctx, cpol, og):
    def setup(p):
        c = container(cpol, ctx)
        orig = {n: getattr(c, n) for n in ("resolve", "aresolve", "enter_scope")}
        asyncf = p.choose(3, "async: nothing, a provider, a template")
        if asyncf == 1:
            async def f():
                return None
            c.add_factory(f, provides=A)
        if og:
            async def g():
                return None
            c.add_factory(g if asyncf == 2 else (lambda: None), provides=G[T], dependencies={})
        w = Roots(p, c)
        kk, r = outcome(p, lambda: p.call(p.getattr(c, "compile"), [], {}), False)
        ent = {n: p.getattr(c, n) for n in orig}
        if kk == "raise":
            p.must(r is w.buildexc, "compile", f"compile raises {r!r}")
            p.must(p.getattr(c, "_root_resolver") is None and all(same_entry(p, ent[n], orig[n]) for n in orig), "compile", "a failing build leaves compiled state behind")
            return
        p.must(w.built == 1, "compile", f"the root is built {w.built} times")
        a, k = w.built_with
        p.must(any(x is c._root_scope for x in [*a, *k.values()]) and any(x is p.getattr(c, "_providers_registrations") for x in [*a, *k.values()]), "compile",
               "the root is not built from the container's registrations and root scope")
        x = r
        if ctx:
            x = x.__dict__.get("inner")
            p.must(x is not None, "compile", "the root does not bind resolver_context")
        else:
            p.must("inner" not in getattr(x, "__dict__", {}), "compile", "the root binds resolver_context")
        isog = isinstance(x, Obj) and x.cls is cm.OpenGenericResolver or isinstance(x, cm.OpenGenericResolver)
        p.must(isog == og, "compile", f"open-generic wrapper: {isog}, open generics registered: {og}")
        if og and isog:
            f = x.fields if isinstance(x, Obj) else vars(x)
            vals = list(f.values())
            p.must(any(v is p.getattr(c, "_open_generic_registry") for v in vals) and any(isinstance(v, Obj) and getattr(v, "stamp", None) is not None for v in vals), "compile",
                   "the wrapper does not use the registry and the compiled root")
            p.must(f.get("_has_async_specs", asyncf > 0) is (asyncf > 0), "compile", f"has_async_specs is {f.get('_has_async_specs')}, async registrations: {asyncf > 0}")
            p.must(f.get("_scope_level", 1) == c._root_scope.level, "compile", "level of the root wrapper")
        for n in orig:
            if cpol is MP.ERROR and not ctx:
                want = p.getattr(r, n) if not isog else None
                p.must(ent[n] is want or isog and same_entry(p, ent[n], p.getattr(r, n)), "compile", f"{n} is not the compiled resolver's: {ent[n]!r}")
            else:
                p.must(same_entry(p, ent[n], orig[n]), "compile", f"{n} is rebound")
        k2, r2 = outcome(p, lambda: p.call(p.getattr(c, "compile"), [], {}), False)
        p.must(k2 == "ok" and r2 is r and w.built == 1, "compile", "a second compile builds again")
    return setup


def go_scope(what):
    def setup(p):
        c = container(MP.REGISTER_RECURSIVE, True)
        w = Roots(p, c, may_fail=False)
        compiled = p.choose(2, "compiled before") == 1
        root0 = p.call(p.getattr(c, "compile"), [], {}) if compiled else None
        w.may_fail = True
        if p.choose(2, "a resolver is bound") == 1:
            w.bound = w.resolver("bound")
        w.log.clear()
        args, kw = [], {}
        if what == "enter_scope":
            sc = [None, Scope.REQUEST][p.choose(2, "scope")]
            args = [sc]
            ctx = None
            if p.choose(2, "context") == 1:
                ctx = kw["context"] = p.fresh("context")
        elif what in ("__exit__", "__aexit__", "close", "aclose"):
            args = [p.fresh("type"), p.fresh("exc"), p.fresh("tb")]
        is_async = what in ("__aenter__", "__aexit__", "aclose")
        kk, r = outcome(p, lambda: p.call(p.getattr(c, what), args, kw), is_async)
        if w.buildexc is not None and not w.log:
            p.must(kk == "raise" and r is w.buildexc, "scope", f"the build failed, the outcome is {kk} {r!r}")
            return
        if what in ("__exit__", "__aexit__", "close", "aclose") and not compiled:
            p.must(kk == "raise" and r.cls is RuntimeError and not w.log, "scope", f"{what} without a compiled root: {kk} {r!r}")
            return
        p.must(len(w.log) == 1, "scope", f"{[e['kind'] for e in w.log]}")
        e = w.log[0]
        target = {"close": "__exit__", "aclose": "__aexit__"}.get(what, what)
        p.must(e["kind"] == target and not e["stale"], "scope", f"{e['kind']} is called for {what}")
        if what == "enter_scope":
            p.must((e["on"] is w.bound) == (w.bound is not None), "bound", "enter_scope does not go to the bound resolver")
            g = dict(zip(("scope",), e["args"])) | e["kw"]
            p.must(g.get("scope") is sc and g.get("context") is ctx and set(g) <= {"scope", "context"}, "scope", f"arguments {g}")
        else:
            p.must(e["on"] is p.getattr(c, "_root_resolver"), "scope", f"{what} does not go to the root")
            p.must(list(e["args"]) == args and not e["kw"], "scope", f"arguments {e['args']}")
        if e["exc"] is not None:
            p.must(kk == "raise" and r is e["exc"], "result", f"{kk} {r!r}")
        else:
            p.must(kk == "ok" and r is e["val"], "result", f"{kk} {r!r}")
    return setup


def units(tier, seed, opts):
    what = opts.get("what", ("resolve", "ensure", "compile", "scope"))
    out = []
    if "resolve" in what:
        out += [("resolve", a, d, cp.name, arg if arg is None or isinstance(arg, str) else (arg.name,)) for a in (False, True) for d in DEPS for cp in MP
                for arg in (None, "from_container", "bogus", *MP)]
    if "ensure" in what:
        out += [("ensure", s, pol.name) for s in ("plain", "provider", "component", "maybe", "generic", "registered", "registered-provider", "note", "other-class") for pol in MP]
    if "compile" in what:
        out += [("compile", ctx, cp.name, og) for ctx in (False, True) for cp in MP for og in (False, True)]
    if "scope" in what:
        out += [("scope", m) for m in ("enter_scope", "__enter__", "__aenter__", "__exit__", "__aexit__", "close", "aclose")]
    return out


def run(u, deadline, col):
    eng = Engine()
    if u[0] == "resolve":
        arg = MP[u[4][0]] if isinstance(u[4], tuple) else u[4]
        g, label = go_resolve(u[1], u[2], MP[u[3]], arg), f"{'aresolve' if u[1] else 'resolve'} of a {u[2]} key, container policy {u[3]}, argument {arg}"
    elif u[0] == "ensure":
        g, label = go_ensure(u[1], MP[u[2]]), f"_ensure_autoregistration of a {u[1]} key under {u[2]}"
    elif u[0] == "compile":
        g, label = go_compile(u[1], MP[u[2]], u[3]), f"compile, resolver_context {u[1]}, policy {u[2]}, open generics {u[3]}"
    else:
        g, label = go_scope(u[1]), u[1]
    r = eng.explore(g, deadline=deadline)
    col.result(label, r, lambda: native.replay(g, r, [label]))
    col.engine(eng)
