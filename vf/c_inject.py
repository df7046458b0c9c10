"""Contracts of the wrapper returned for an injected callable (container.py:_inject_callable and what it calls).

requires  the resolver in charge is any object with the resolver protocol; the function does anything; signatures come from a fixed family
ensures   supplied : arguments given by the caller reach the function unchanged; nothing is resolved for them
          resolved : every missing injected parameter gets the value its key resolves to in the scope of the call, Maybe as documented
          scope    : the target scope is opened before anything is resolved iff it is deeper than the resolver's own level, and closed exactly
                     once after the call with the exception that is leaving; an already deep resolver is used as it is and never closed
          context  : diwire_context reaches exactly the opened scope and is rejected, before anything runs, if none is opened
          result   : result or exception of the function are passed on
          target   : without an explicit scope, the target is the deepest level the parameters need under the registrations at call time"""
from __future__ import annotations
import inspect, itertools
from . import sym
from .sym import Engine, Obj, Exc, Coro, PyRaise, Unsupported, SV, SVTB, _model, NOTIMPL
from .c_rcontext import AnyResolver, strict, outcome
from diwire import (exceptions as X, Scope, Lifetime, DependencyRegistrationPolicy, MissingPolicy, Container, Injected, FromContext, Maybe, Provider,
                    AsyncProvider, All, Component, ResolverContext)
from typing import Annotated, Generic, TypeVar
from diwire._internal.markers import is_from_context_annotation, strip_from_context_annotation

ASSUMPTIONS = ["inspect.Signature.bind_partial and BoundArguments behave as documented", "signatures of injected callables are taken from a fixed family (bounded)"]
LV = {1: Scope.APP, 2: Scope.SESSION, 3: Scope.REQUEST, 4: Scope.ACTION, 5: Scope.STEP}


class A:
    pass


class B:
    pass


class C:
    pass


class E:
    pass


class D:
    def __init__(self, e: E):
        self.e = e


T = TypeVar("T")


class G(Generic[T]):
    pass


AK = Annotated[A, Component("k")]
# name -> source of the parameter list and, per injected parameter, (kind, key)
SIGS = {
    "one": ("a: Injected[A]", {"a": ("plain", A)}),
    "mixed": ("x, a: Injected[A], y=1, *, b: Injected[B]", {"a": ("plain", A), "b": ("plain", B)}),
    "posonly": ("a: Injected[A], x, /, b: Injected[B] = None", {"a": ("plain", A), "b": ("plain", B)}),
    "var": ("x, *args, b: Injected[B], **kw", {"b": ("plain", B)}),
    "component": ("x, *, a: Injected[AK], c: Injected[Annotated[A, 'note', Component('k')]] = None", {"a": ("plain", AK), "c": ("plain", AK)}),
    "maybe": ("a: Injected[Maybe[A]], b: Injected[Maybe[B]] = 7", {"a": ("maybe", A), "b": ("maybe", B)}),
    "context": ("v: FromContext[C], x=2, *, a: Injected[A]", {"v": ("ctx", C), "a": ("plain", A)}),
    "provider": ("p: Injected[Provider[A]], q: Injected[AsyncProvider[B]]", {"p": ("plain", Provider[A]), "q": ("plain", AsyncProvider[B])}),
    "all": ("p: Injected[All[A]], v: FromContext[int] = 3, w: FromContext[C] = 4", {"p": ("plain", All[A]), "v": ("ctx", int), "w": ("ctx", C)}),
    "maybewrap": ("p: Injected[Maybe[Provider[A]]], q: Injected[Maybe[AsyncProvider[B]]] = 5, r: Injected[Maybe[FromContext[C]]] = 6",
                  {"p": ("plain", Maybe[Provider[A]]), "q": ("plain", Maybe[AsyncProvider[B]]), "r": ("plain", Maybe[FromContext[C]])}),
    "nested": ("d: Injected[D], *, a: Injected[Maybe[A]]", {"d": ("plain", D), "a": ("maybe", A)}),
    "generic": ("g: Injected[G[int]]", {"g": ("plain", G[int])}),
}


class BA(Obj):
    """inspect.BoundArguments over values the verifier does not interpret"""

    def __init__(self, sig, arguments):
        super().__init__(None, "BoundArguments", {"arguments": dict(arguments), "signature": sig}, strict("BoundArguments"))


def bound_hook(p, o, name):
    if isinstance(o, BA) and name in ("args", "kwargs"):
        r = inspect.BoundArguments(o.fields["signature"], {k: o.fields["arguments"][k] for k in o.fields["signature"].parameters if k in o.fields["arguments"]})
        return getattr(r, name)
    return NOTIMPL


def bind_partial(p, a, k):
    sig, *args = a
    try:
        b = sig.bind_partial(*args, **k)
    except TypeError as e:
        raise PyRaise(Exc(TypeError, e.args))
    return BA(sig, b.arguments)


def bind_full(p, a, k):
    sig, *args = a
    try:
        b = sig.bind(*args, **k)
    except TypeError as e:
        raise PyRaise(Exc(TypeError, e.args))
    return BA(sig, b.arguments)


def make(is_async, sig):
    ns = dict(globals())
    exec(f"{'async ' if is_async else ''}def f({sig}):\n    raise AssertionError\n", ns)
    return ns["f"]


class Scene:
    """a container with the keys registered at given levels, an injected function and an abstract resolver at some level"""

    def __init__(self, p, sig, is_async, explicit, auto=True, levels=None, ladder_pairs=None):
        self.p, self.sig, self.is_async, self.explicit, self.auto = p, sig, is_async, explicit, auto
        p.attr_hooks.append(bound_hook)
        p.opaque[id(inspect.Signature.bind_partial)] = bind_partial
        p.opaque[id(inspect.Signature.bind)] = bind_full
        self.src, self.params = SIGS[sig]
        self.levels = dict(levels or {A: 1, B: 1, AK: 1})
        self.c = Container(missing_policy=MissingPolicy.ERROR, dependency_registration_policy=DependencyRegistrationPolicy.IGNORE, resolver_context=ResolverContext())
        for k, l in self.levels.items():
            self.register(k, l)
        self.f = make(is_async, self.src)
        self.fsig = inspect.signature(self.f)
        self.log = []
        p.opaque[id(self.f)] = self.call_f
        self.w = self.c._inject_callable(callable_obj=self.f, scope=explicit, dependency_registration_policy=DependencyRegistrationPolicy.IGNORE, auto_open_scope=auto)
        self.fexc = self.fres = None

    def register(self, k, l):
        self.levels[k] = l
        if k in (D, G):
            self.c.add(D if k is D else G, provides=D if k is D else G[T], scope=LV[l], lifetime=Lifetime.TRANSIENT)
        else:
            self.c.add_factory(lambda: object(), provides=k, scope=LV[l], lifetime=Lifetime.TRANSIENT)

    def need(self):
        m = 1
        for kind, key in self.params.values():
            if kind != "ctx":
                for k, l in self.levels.items():
                    if k == key or any(same_key(key, w) for w in (Provider[A], Maybe[Provider[A]])) and k is A \
                            or any(same_key(key, w) for w in (AsyncProvider[B], Maybe[AsyncProvider[B]])) and k is B \
                            or key == All[A] and k in (A, AK) or key is D and k is E or key == G[int] and k is G:
                        m = max(m, l)
        return m

    def call_f(self, p, args, kw):
        def body():
            self.log.append(("call", tuple(args), dict(kw)))
            if self.full and p.choose(2, "the function raises") == 1:
                self.fexc = p.exc("function")
                raise PyRaise(self.fexc)
            self.fres = p.fresh("result")
            return self.fres
        return Coro(body, "f") if self.is_async else body()

    def resolver(self, name, raises):
        p, o = self.p, Obj(AnyResolver, name)
        o.lazy = strict(name)
        o.reg = {}
        o.values = {}

        def resolve(is_async):
            def call(p, args, kw):
                key = args[0]

                def body():
                    self.log.append(("resolve", o, key, is_async))
                    if raises and p.choose(2, "resolution fails") == 1:
                        self.rexc = p.exc("resolution")
                        raise PyRaise(self.rexc)
                    v = p.fresh("value")
                    o.values.setdefault(key, []).append(v)
                    return v
                return Coro(body, "aresolve") if is_async else body()
            v = p.fresh("resolve")
            v.on_call = call
            return v

        def registered(key):
            if key not in o.reg:
                o.reg[key] = not self.full or p.choose(2, f"{name} knows {key}") == 1
            return o.reg[key]

        def enter(is_async):
            def call(p, args, kw):
                def body():
                    self.log.append(("enter", o, is_async))
                    return o
                return Coro(body, "__aenter__") if is_async else body()
            v = p.fresh("enter")
            v.on_call = call
            return v

        def leave(is_async):
            def call(p, args, kw):
                def body():
                    self.log.append(("exit", o, is_async, tuple(args)))
                    if self.full and p.choose(2, "closing fails") == 1:
                        self.xexc = p.exc("finaliser")
                        raise PyRaise(self.xexc)
                    return None
                return Coro(body, "__aexit__") if is_async else body()
            v = p.fresh("exit")
            v.on_call = call
            return v
        o.fields.update(resolve=resolve(False), aresolve=resolve(True), _is_registered_dependency=_model(registered),
                        __enter__=enter(False), __aenter__=enter(True), __exit__=leave(False), __aexit__=leave(True))
        self.rexc = self.xexc = None
        return o


_REAL = {}


def real_entry(frm, to):
    """what a real resolver at level `frm` does on enter_scope(level to): 'same', 'sub' or the error"""
    if (frm, to) not in _REAL:
        c = Container(missing_policy=MissingPolicy.ERROR, dependency_registration_policy=DependencyRegistrationPolicy.IGNORE, use_resolver_context=False)
        c.add(A, scope=Scope.APP)
        r = c.compile()
        for l in range(2, frm + 1):
            r = r.enter_scope(LV[l])
        try:
            s = r.enter_scope(LV[to])
            _REAL[frm, to] = "same" if s is r else "sub"
        except Exception as e:
            _REAL[frm, to] = (type(e), e.args)
    return _REAL[frm, to]


def one_call(p, s, full):
    """call the wrapper once and check everything about it"""
    supplied = {}
    s.full = full
    args, kw = [], {}
    pos = True
    for name, prm in s.fsig.parameters.items():
        if prm.kind is prm.VAR_POSITIONAL:
            if pos and full and p.choose(2, f"extra positional") == 1:
                v = p.fresh("extra")
                args.append(v)
                supplied[name] = (v,)
            continue
        if prm.kind is prm.VAR_KEYWORD:
            if full and p.choose(2, "extra keyword") == 1:
                kw["zz"] = p.fresh("zz")
                supplied[name] = {"zz": kw["zz"]}
            continue
        injected = name in s.params
        if not full and injected:
            give = 0
        elif not full:
            give = 1
        else:
            give = p.choose(2, f"caller supplies {name}") if injected or prm.default is not prm.empty else 1
        if give == 0:
            if prm.kind is prm.POSITIONAL_ONLY or prm.kind is prm.POSITIONAL_OR_KEYWORD:
                pos = False
            continue
        v = p.fresh(name)
        if prm.kind is prm.POSITIONAL_ONLY and not pos:
            return None          # cannot be expressed
        if pos and prm.kind is not prm.KEYWORD_ONLY:
            args.append(v)
        else:
            kw[name] = v
            pos = False
        supplied[name] = v
    given_kw = dict(kw)
    frm = [1, 3, 4, 5][p.choose(4, "level of the resolver")] if full else 1
    target = None if not s.auto else s.explicit.level if s.explicit is not None else s.need()
    base = s.resolver("resolver", full)
    sub = s.resolver("opened scope", full)
    s.entered = []
    nocontext = not full or p.choose(2, "diwire_context given") == 0
    ctx = None
    if not nocontext:
        kw["diwire_context"] = ctx = sym.SymMap(lambda p, k: (False, None), "context")
    odd = full and p.choose(2, "scope entry fails otherwise") == 1
    eexc = [None]

    def enter_scope(p, a, k):
        s.log.append(("enter_scope", a, dict(k)))
        t = a[0] if a else k.get("scope")
        if odd:
            eexc[0] = p.exc("scope entry")
            eexc[0].known[TypeError] = False
            eexc[0].known[X.DIWireScopeMismatchError] = False
            raise PyRaise(eexc[0])
        r = real_entry(frm, t.level)
        if r == "same":
            return base
        if r == "sub":
            return sub
        eexc[0] = Exc(*r)
        raise PyRaise(eexc[0])
    ent = p.fresh("enter_scope")
    ent.on_call = enter_scope
    base.fields["enter_scope"] = ent
    kw["diwire_resolver"] = base
    s.log.clear()
    s.fexc = s.fres = None
    k, r = outcome(p, lambda: p.call(s.w, list(args), dict(kw)), s.is_async)
    log = s.log
    if r is not None and k == "raise" and isinstance(r, Exc) and r.cls is AttributeError:
        raise Unsupported(f"attribute {r.args} of an abstract object")
    names = [x[0] for x in log]
    opens = target is not None and target > 1
    real = real_entry(frm, target) if opens else "same"
    if opens and odd and names == ["enter_scope"]:
        p.must(k == "raise" and r is eexc[0], "scope", f"an error of scope entry became {k} {r!r}")
        return True
    opened = opens and real == "sub" and not odd
    if opens and not odd:
        e = [x for x in log if x[0] == "enter_scope"]
        p.must(len(e) == 1 and (e[0][1][0] if e[0][1] else e[0][2].get("scope")) is LV[target], "target" if s.explicit is None else "scope",
               f"scopes requested: {e}, expected {LV[target].level} once")
        p.must(e[0][2].get("context") is ctx, "context", f"context {e[0][2].get('context')!r} is passed on")
    elif not opens:
        p.must("enter_scope" not in names, "target" if s.explicit is None else "scope", f"a scope is requested although the target is level {target}")
    if ctx is not None and not opened:
        p.must(k == "raise" and r.cls is not None and issubclass(r.cls, X.DIWireInvalidRegistrationError), "context",
               f"diwire_context without an opened scope: {k} {r!r}")
        p.must("call" not in names and "resolve" not in names and "enter" not in names, "context", f"ran {names} before rejecting diwire_context")
        return True
    use = sub if opened else base
    body = [x for x in log if x[0] not in ("enter_scope",)]
    if opened:
        p.must(body and body[0][0] == "enter" and body[0][1] is sub and body[0][2] == s.is_async and sum(x[0] == "enter" for x in body) == 1, "scope",
               f"the opened scope must be entered first: {names}")
        p.must(body[-1][0] == "exit" and body[-1][1] is sub and body[-1][2] == s.is_async and sum(x[0] == "exit" for x in body) == 1, "scope",
               f"the opened scope must be closed once, last: {names}")
        ex = s.fexc or s.rexc_seen(log)
        a3 = body[-1][3]
        p.must(len(a3) == 3 and (a3[1] is ex if ex is not None else a3 == (None, None, None)), "scope", f"the scope is closed with {a3}, {ex!r} is leaving")
        body = body[1:-1]
    else:
        p.must(not any(x[0] in ("enter", "exit") for x in body), "scope", f"no scope is opened, yet {names}")
    p.must(all(x[1] is use and x[3] == s.is_async for x in body if x[0] == "resolve"), "resolved", "values must be resolved in the scope of the call")
    calls = [x for x in body if x[0] == "call"]
    if s.rexc is not None:
        p.must(not calls and k == "raise" and (r is s.rexc or r is s.xexc), "resolved", f"a failing resolution gives {k} {r!r}, calls {calls}")
        return True
    p.must(len(calls) == 1 and body[-1][0] == "call", "result", f"the function must be called once, after resolution: {names}")
    got = s.fsig.bind_partial(*calls[0][1], **calls[0][2]).arguments
    want = dict(supplied)
    vals = {q: list(v) for q, v in use.values.items()}
    for name, (kind, key) in s.params.items():
        prm = s.fsig.parameters[name]
        if name in supplied:
            continue
        if kind == "maybe" and not use.reg.get(key, False):
            p.must(key in use.reg, "resolved", f"{name}: nobody asked whether {key} is registered")
            if prm.default is prm.empty:
                want[name] = None
            continue
        match = [q for q in vals if (is_from_context_annotation(q) and strip_from_context_annotation(q) is key if kind == "ctx" else same_key(q, key)) or kind == "plain" and key == AK and canon(q) == canon(AK)]
        match = [q for q in match if vals[q]]
        p.must(bool(match), "resolved", f"{name}: {key} was not resolved, only {list(vals)}")
        want[name] = vals[match[0]].pop(0)
    p.must(not any(vals.values()), "supplied", f"resolved for nothing: {[(q, v) for q, v in vals.items() if v]}")
    p.must(set(got) == set(want) and all(same(got[n], want[n]) for n in want), "supplied", f"the function receives {dict(got)}, expected {want}")
    if s.fexc is not None:
        p.must(k == "raise" and (r is s.fexc or s.xexc is not None and r is s.xexc), "result", f"the function raised {s.fexc!r}, the caller sees {k} {r!r}")
    elif s.xexc is not None:
        p.must(k == "raise" and r is s.xexc, "result", "a failing finaliser must surface")
    else:
        p.must(k == "ok" and r is s.fres, "result", f"the caller sees {k} {r!r}")
    return True


def same_key(a, b):
    """equality of keys; marker objects without an equality of their own are compared by class"""
    ma, mb = getattr(a, "__metadata__", ()), getattr(b, "__metadata__", ())
    return getattr(a, "__origin__", a) == getattr(b, "__origin__", b) and len(ma) == len(mb) and all(x == y or type(x) is type(y) and type(x).__eq__ is object.__eq__
                                                                                                     for x, y in zip(ma, mb))


def canon(k):
    m = getattr(k, "__metadata__", ())
    return (getattr(k, "__origin__", k), tuple(x for x in m if isinstance(x, Component)))


def same(a, b):
    if isinstance(b, tuple):
        return isinstance(a, tuple) and len(a) == len(b) and all(x is y for x, y in zip(a, b))
    if isinstance(b, dict):
        return isinstance(a, dict) and set(a) == set(b) and all(a[k] is b[k] for k in b)
    return a is b


def rexc_seen(self, log):
    return self.rexc


Scene.rexc_seen = rexc_seen


def levels_of(sig, a, b):
    return {A: a, B: b, AK: a} | ({E: b, D: a} if sig == "nested" else {}) | ({G: b} if sig == "generic" else {})


def go_call(sig, is_async, explicit, auto):
    def setup(p):
        s = Scene(p, sig, is_async, LV[explicit] if explicit else None, auto, levels_of(sig, 1, 3 if not explicit else 1))
        one_call(p, s, True)
    return setup


def go_history(sig, is_async, n):
    """registrations move between levels while the wrapper is called in between"""
    def setup(p):
        s = Scene(p, sig, is_async, None, True, levels_of(sig, 1, 1))
        key = {"mixed": B, "component": AK, "nested": E, "generic": G}.get(sig, A)
        if sig == "all" and p.choose(2, "component") == 1:
            key = AK
        for i in range(n):
            s.register(key, (1, 3, 4)[p.choose(3, "new level")])
            p.copies.clear()       # the container changed for real; nothing of it was written symbolically
            if p.choose(2, "called in between") == 1 or i == n - 1:
                one_call(p, s, False)
    return setup


def go_target(is_async):
    """inductive step for any history: the wrapper's cache is either of this revision and right, or of another revision and arbitrary"""
    def setup(p):
        s = Scene(p, "one", is_async, None, True, {A: 3})
        get = [c.cell_contents for n, c in zip(s.w.__code__.co_freevars, s.w.__closure__) if n == "get_target_scope"]
        if not get or not {"revision", "cached_target_scope"} <= set(get[0].__code__.co_freevars):
            raise Unsupported("the cached target scope is not where the invariant expects it")
        clo = p.clo_of(get[0])
        stale = p.choose(2, "another revision") == 1
        now = s.c._graph_revision
        clo.env.vars["revision"] = now - 1 - p.choose(2, "older") if stale else now
        clo.env.vars["cached_target_scope"] = LV[[1, 3, 4][p.choose(3, "cached")]] if stale else LV[3]
        first = clo.env.vars.get("inferred_scope")
        if first is not None:
            clo.env.vars["inferred_scope"] = LV[[1, 3, 4][p.choose(3, "first")]]
        r = p.call(clo, [], {})
        p.must(r is LV[3], "target", f"target scope {r!r}, level 3 is needed")
        p.must(clo.env.vars["revision"] != now or clo.env.vars["cached_target_scope"] is LV[3], "target", "the cache is marked current but wrong")
    return setup


def units(tier, seed, opts):
    u = []
    what = opts.get("what", ("call", "history", "target"))
    if "call" in what:
        for sig in SIGS:
            for a in (False, True):
                for e in (None, 1, 3, 4) if sig in ("one", "context") or tier != "quick" else (None, 3):
                    u.append(("call", sig, a, e, True))
                u.append(("call", sig, a, None, False))
    if "history" in what:
        for sig in ("one", "mixed", "component", "maybe", "provider", "all", "maybewrap", "nested", "generic"):
            for a in (False, True):
                u.append(("history", sig, a, 3 if tier == "quick" else 5))
    if "target" in what:
        u += [("target", a) for a in (False, True)]
    return u


def run(u, deadline, col):
    eng = Engine()
    if u[0] == "call":
        r = eng.explore(go_call(*u[1:]), deadline=deadline)
        col.result(f"call of {'async ' if u[2] else ''}f({SIGS[u[1]][0]}) explicit scope={u[3]} auto_open={u[4]}", r)
    elif u[0] == "history":
        r = eng.explore(go_history(*u[1:]), deadline=deadline)
        col.result(f"calls of {'async ' if u[2] else ''}f({SIGS[u[1]][0]}) over {u[3]} re-registrations", r)
    else:
        r = eng.explore(go_target(*u[1:]), deadline=deadline)
        if r.status == "violated":
            r.status, r.reason, r.bad = "undecided", "not inductive: " + r.reason, {}
        col.result("target scope over any history", r)
    col.engine(eng)
