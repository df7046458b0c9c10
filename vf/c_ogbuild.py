"""Contracts of open-generic resolution (open_generics.py: OpenGenericResolver.resolve/aresolve and everything they call below find_best_match).

requires  the wrapped resolver is any object with the resolver protocol; templates, values and providers are anything; a key's closed registration is
          resolved by the wrapped resolver
ensures   key     : a key with its own registration gives what the wrapped resolver gives, value or exception; a missing one the best template's value;
                    Provider/AsyncProvider, All, FromContext and Maybe as documented, nothing is resolved before a handle is called
          agree   : aresolve asks the same questions in the same order
          scope   : the provider runs in and is cached on the wrapper of its level in the receiver's chain, or DIWireScopeMismatchError is raised
          once    : SCOPED: a cached value is returned whatever it is, otherwise the provider runs once and its value is cached; TRANSIENT: once, never cached;
                    a failure is passed on and caches nothing
          lock    : the provider of a SCOPED template runs under the lock of its key on the owner when the lock mode asks for it, after the cache was read
                    again; no lock stays held
          async   : a template that requires async is refused in a synchronous resolution before anything runs; awaitables are awaited exactly once
          args    : every parameter receives the value of its binding, in the way its kind demands; omitted ones are left out
          binding : T and type[T] parameters receive the argument of T, others resolve their substituted key in this scope, missing Maybe as documented
          cleanup : one exit callback is pushed where the scope that runs the provider is drained, after the resource was opened
Signatures are enumerated up to four parameters (bounded)."""
from __future__ import annotations
import asyncio, inspect, itertools, random, threading
from contextlib import contextmanager, asynccontextmanager
from typing import Annotated, Generic, TypeVar
from .sym import Engine, Obj, Exc, Coro, PyRaise, Unsupported, SV, Violation, _model, islock
from .c_rcontext import outcome
from . import native
from diwire import exceptions as X, Scope, Lifetime, LockMode, Component, Provider, AsyncProvider, Maybe, All, FromContext
from diwire._internal.providers import ProviderDependency
from diwire._internal.injection import INJECT_RESOLVER_KWARG
import diwire._internal.open_generics as og

ASSUMPTIONS = ["the wrapped resolver of an open-generic resolver is any object with the resolver protocol (its own behaviour is under the slots, scopes and exits contracts)",
               "contextlib.contextmanager and asynccontextmanager behave as documented"]
T, U = TypeVar("T"), TypeVar("U")


class G(Generic[T]):
    pass


class A:
    pass


REG = og.OpenGenericRegistry
RES = og.OpenGenericResolver
LEVELS = {1: Scope.APP, 2: Scope.SESSION, 3: Scope.REQUEST, 4: Scope.ACTION, 5: Scope.STEP}


def spec(level=1, lifetime=Lifetime.SCOPED, kind="factory", provider=None, lock="auto", is_async=False, deps_async=False, bindings=(), positional=(), wrapper=False):
    return og._OpenGenericSpec(canonical_key=G[T], provider_kind=kind, provider=provider, lifetime=lifetime, scope=LEVELS[level], lock_mode=lock, is_async=is_async,
                               is_any_dependency_async=deps_async, needs_cleanup=False, bindings=tuple(bindings), registration_order=1, provider_is_inject_wrapper=wrapper,
                               positional_parameters=frozenset(positional))


def match_of(s, m=None):
    return og._OpenGenericMatch(spec=s, typevar_map=m if m is not None else {T: int}, specificity=1)


def chain(p, levels, has_async=False, base=None):
    """wrappers of these levels, outermost first"""
    ws = []
    if hasattr(p, "never"):
        for n in ("_MISSING_CACHE", "_MAYBE_UNHANDLED", "_OMITTED_ARGUMENT"):
            v = getattr(og, n, None)
            p.never[id(v)] = v
    for l in levels:
        b = base(p, l) if base else p.obj(None, f"base{l}", fields=dict(_cleanup_callbacks=[], _cleanup_enabled=True), lazy=_nothing)
        ws.append(p.call(RES, [], dict(base_resolver=b, registry=REG(), root_scope=LEVELS[levels[0]], has_async_specs=has_async, scope_level=l,
                                       root_wrapper=ws[0] if ws else None, parent_wrapper=ws[-1] if ws else None)))
    return ws


def _nothing(p, o, n):
    from .sym import NOTIMPL
    return NOTIMPL


def method(p, is_async, body, name):
    v = p.fresh(name)

    def call(p, args, kw):
        return Coro(lambda: body(p, args, kw), name) if is_async else body(p, args, kw)
    v.on_call = call
    return v


# ------------------------------------------------------------------------------------------------ resolve / aresolve
KEYS = {"plain": G[int], "note": Annotated[G[int], "note"], "component": Annotated[G[int], Component("k")], "class": A, "provider": Provider[G[int]],
        "aprovider": AsyncProvider[G[int]], "all": All[G[int]], "ctx": FromContext[G[int]], "maybe": Maybe[G[int]], "maybe-note": Maybe[Annotated[G[int], "note"]],
        "maybe-ctx": Maybe[FromContext[G[int]]], "maybe-class": Maybe[A], "maybe-provider": Maybe[Provider[G[int]]], "provider-note": Provider[Annotated[G[int], "note"]]}
INNER = {"note": G[int], "maybe": G[int], "maybe-note": G[int], "maybe-class": A, "provider": G[int], "aprovider": G[int], "provider-note": G[int]}


def go_resolve(is_async, kname):
    dep = KEYS[kname]

    def setup(p):
        log = []
        status = {}       # normalised key -> what the wrapped resolver knows about it

        def norm(d):
            return og.strip_non_component_annotation(d)

        def st(d):
            k = repr(norm(d))
            if k not in status:
                n = p.choose(5, f"{k}: value, not registered, registered but a context value is missing, another error, registered and another error")
                status[k] = dict(n=n, val=p.fresh("value") if n == 0 else None)
                if n:
                    e = status[k]["exc"] = Exc(X.DIWireDependencyNotRegisteredError, (k,)) if n in (1, 2) else p.exc("resolution")
                    e.known[X.DIWireDependencyNotRegisteredError] = n in (1, 2)
            return status[k]

        def base_resolve(p, a, kw):
            d = [*a, *kw.values()][0]
            s = st(d)
            log.append(("base", d))
            if s["n"]:
                raise PyRaise(s["exc"])
            return s["val"]

        def registered(p, a, kw):
            d = [*a, *kw.values()][0]
            return norm(d) is d and st(d)["n"] in (0, 2, 4)

        def context(p, a, kw):
            k = [*a, *kw.values()][0]
            p.must(k == G[int], "key", f"the context is asked for {k}")
            s = st(FromContext[k])
            if s["n"]:
                raise PyRaise(s["exc"])
            return s["val"]

        def base(p, l):
            return p.obj(None, "base", fields=dict(resolve=method(p, False, base_resolve, "resolve"), aresolve=method(p, True, base_resolve, "aresolve"),
                                                   _is_registered_dependency=method(p, False, registered, "registered"), _cleanup_callbacks=[], _cleanup_enabled=True,
                                                   _resolve_from_context=method(p, False, context, "context")), lazy=_nothing)
        w = chain(p, [1], base=base)[0]
        found = {}
        m = match_of(spec())
        bad = Exc(X.DIWireInvalidGenericTypeArgumentError, ("bad",))

        def find(p, a, kw):
            d = [*a[1:], *kw.values()][0]
            if d is A or norm(d) is not d:
                return None
            k = repr(norm(d))
            if k not in found:
                found[k] = p.choose(3, f"{k}: a template matches, none, invalid arguments")
            if found[k] == 2:
                raise PyRaise(bad)
            return m if found[k] == 0 else None
        p.intercept(REG, "find_best_match", find)
        opened = []

        def build(p, a, kw):
            d, mm = kw.get("dependency", a[1] if len(a) > 1 else None), kw.get("match", a[2] if len(a) > 2 else None)
            n = p.choose(3, "the template's value, an error, a missing dependency")
            ev = dict(dep=d, match=mm, on=a[0], val=p.fresh("built") if n == 0 else None, exc=p.exc("build") if n == 1 else Exc(X.DIWireDependencyNotRegisteredError, ("inner",)) if n else None)
            opened.append(ev)
            log.append(("open", d))
            if n:
                raise PyRaise(ev["exc"])
            return ev["val"]
        p.intercept(RES, "_resolve_open_match_sync", build)
        p.intercept(RES, "_resolve_open_match_async", lambda p, a, k: Coro(lambda: build(p, a, k), "open"))

        def check_plain(d, kk, r, where):
            """outcome of resolving the plain key d"""
            k = norm(d)
            s = st(k)
            for e in opened:
                p.must(e["on"] is w and e["match"] is m and norm(e["dep"]) == k, "key", f"{where}: the template is resolved for {e['dep']}")
            if s["n"] == 1:
                if found.get(repr(k)) == 2:
                    p.must(kk == "raise" and r is bad, "key", f"{where}: invalid arguments, outcome {kk} {r!r}")
                elif found.get(repr(k)) == 0:
                    p.must(len(opened) == 1, "key", f"{where}: the template is resolved {len(opened)} times; outcome {kk} {r!r}")
                    e = opened[0]
                    p.must((kk == "ok" and r is e["val"]) if e["exc"] is None else (kk == "raise" and r is e["exc"]), "key", f"{where}: outcome {kk} {r!r} of the template's {e}")
                else:
                    p.must(kk == "raise" and r is s["exc"] and (repr(k) in found or k is A), "key", f"{where}: a missing key gives {kk} {r!r}")
                    p.must(not opened, "key", f"{where}: a template that does not match")
                return
            p.must(not opened, "key", f"{where}: a template is used although the key is registered or failed otherwise")
            p.must((kk == "ok" and r is s["val"]) if s["n"] == 0 else (kk == "raise" and r is s["exc"]), "key", f"{where}: outcome {kk} {r!r} instead of {s}")

        name = "aresolve" if is_async else "resolve"
        kk, r = outcome(p, lambda: p.call(p.getattr(w, name), [dep], {}), is_async)
        if kname in ("plain", "note", "component", "class"):
            return check_plain(dep, kk, r, kname)
        if kname in ("all", "ctx"):
            s = st(dep)
            p.must((kk == "ok" and r is s["val"]) if s["n"] == 0 else (kk == "raise" and r is s["exc"]), "key", f"{kname}: outcome {kk} {r!r}")
            p.must(not opened and all(e[1] == dep for e in log), "key", f"{kname}: {log}")
            return
        if kname in ("provider", "aprovider", "provider-note", "maybe-provider"):
            if kname == "maybe-provider":
                if kk == "raise" and r is bad or kk == "ok" and r is None:
                    return       # whether a handle of a missing key is missing is not prescribed
            p.must(kk == "ok" and callable_(p, r), "key", f"a handle is {kk} {r!r}")
            p.must(not log, "key", "something is resolved before the handle is called")
            ha = kname == "aprovider"
            kk, r = outcome(p, lambda: p.call(r, [], {}), ha)
            return check_plain(G[int], kk, r, "handle")
        if kname == "maybe-ctx":
            s = st(FromContext[G[int]])
            if s["n"] == 0:
                p.must(kk == "ok" and r is s["val"], "key", f"Maybe of a context value: {kk} {r!r}")
            elif s["n"] in (1, 2):
                p.must(kk == "ok" and r is None, "key", f"Maybe of a missing context value: {kk} {r!r}")
            else:
                p.must(kk == "raise" and r is s["exc"], "key", f"Maybe of a context value hides {s['exc']!r}: {kk} {r!r}")
            p.must(not opened, "key", "a template is used for a context value")
            return
        inner = INNER[kname]
        s = st(inner)
        if s["n"] in (1, 3) and not (s["n"] == 1 and found.get(repr(inner)) in (0, 2)) and not (s["n"] == 3 and found.get(repr(inner)) in (0, 2)):
            p.must(kk == "ok" and r is None and not opened, "key", f"Maybe of a missing key: {kk} {r!r}")
            return
        if s["n"] == 3:
            p.must(kk == "raise" and (r is s["exc"] or r is bad), "key", f"Maybe hides {s['exc']!r}: {kk} {r!r}")
            return
        if s["n"] == 1 and found.get(repr(inner)) == 2:
            p.must(kk == "raise" and r is bad, "key", f"Maybe hides invalid arguments: {kk} {r!r}")
            return
        check_plain(inner, kk, r, kname)
    return setup


def callable_(p, r):
    from .sym import Clo, BM
    return isinstance(r, (Clo, BM)) or callable(r)


# ------------------------------------------------------------------------------------------------ the matched template
def go_open(is_async, lifetime, levels, recv, level, lock, has_async, req):
    """req: '' nothing, 'own' the provider is async, 'dep' a dependency is"""
    def setup(p):
        ws = chain(p, levels, has_async)
        me = ws[recv]
        s = spec(level, lifetime, lock=lock, is_async=req == "own", deps_async=req == "dep")
        m = match_of(s)
        dep = G[int]
        owner = next((w for i, w in enumerate(ws) if i <= recv and levels[i] == level), None)
        hit = p.choose(2, "the owner has a cached value") == 1 and owner is not None and lifetime is Lifetime.SCOPED
        cached = p.fresh("cached") if p.choose(2, "the cached value is None") == 0 else None
        if hit:
            p.call(p.getattr(owner, "set_cached"), [], dict(dependency=dep, value=cached))
        # decoys: other keys and other wrappers hold values of their own
        for w in ws:
            p.call(p.getattr(w, "set_cached"), [], dict(dependency=G[str], value=p.fresh("other")))
            if w is not owner:
                p.call(p.getattr(w, "set_cached"), [], dict(dependency=dep, value=p.fresh("foreign")))
        snap = {id(w): dict(p.getattr(w, "_cache")) for w in ws}
        runs, late = [], []
        eff = lock if lock != "auto" else LockMode.ASYNC if has_async else LockMode.THREAD
        need = None
        if lifetime is Lifetime.SCOPED:
            if is_async and eff is LockMode.ASYNC:
                need = asyncio.Lock
            if not is_async and eff is LockMode.THREAD and not req:
                need = type(threading.Lock())

        def on_lock(p, lock, acq):
            if acq and owner is not None and not late and not runs and p.call(p.getattr(owner, "get_cached"), [dep], {}) is og._MISSING_CACHE:
                if p.choose(2, "another call filled the cache before the lock was taken") == 1:
                    v = p.fresh("late")
                    late.append(v)
                    p.call(p.getattr(owner, "set_cached"), [], dict(dependency=dep, value=v))
                    snap[id(owner)][dep] = v
        if hasattr(p, "held"):
            p.on_lock = on_lock

        def build(p, a, kw):
            w, mm = a[0], [*a[1:], *kw.values()][0]
            p.must(mm is m, "args", "another match is built")
            p.must(w is owner, "scope", f"the provider of level {level} runs in {p.getattr(w, '_scope_level')}")
            p.must(not (hit or late) or lifetime is Lifetime.TRANSIENT, "once", "the provider runs although its value is cached")
            if need is not None and hasattr(p, "held"):
                held = [l for l in p.held if isinstance(l, need)]
                p.must(len(held) > 0, "lock", f"the provider runs without {need.__name__}")
                mine = p.call(p.getattr(owner, "get_async_lock" if need is asyncio.Lock else "get_thread_lock"), [dep], {})
                p.must(any(l is mine for l in held), "lock", "the lock is not the one of the key on its owner")
            runs.append(w)
            if p.choose(2, "the provider fails") == 1:
                runs.append(p.exc("provider"))
                raise PyRaise(runs[-1])
            runs.append(p.fresh("built"))
            return runs[-1]
        p.intercept(RES, "_build_open_value_sync", build)
        p.intercept(RES, "_build_open_value_async", lambda p, a, k: Coro(lambda: build(p, a, k), "build"))
        kk, r = outcome(p, lambda: p.call(p.getattr(me, "_resolve_open_match_async" if is_async else "_resolve_open_match_sync"), [], dict(dependency=dep, match=m)), is_async)
        if hasattr(p, "held"):
            p.must(not p.held, "lock", "a lock stays held")
        if hit or late:
            snap[id(owner)][dep] = cached if hit else late[0]
        if not is_async and req:
            p.must(not runs, "async", "the provider runs in a synchronous resolution")
            ok = kk == "raise" and r.cls is X.DIWireAsyncDependencyInSyncContextError or owner is None and kk == "raise" and r.cls is X.DIWireScopeMismatchError or hit and kk == "ok" and r is cached
            p.must(ok, "async", f"synchronous resolution of an asynchronous template: {kk} {r!r}")
        elif owner is None:
            p.must(kk == "raise" and r.cls is X.DIWireScopeMismatchError and not runs, "scope", f"level {level} is not open from {levels[:recv + 1]}: {kk} {r!r}")
        elif hit or late and lifetime is Lifetime.SCOPED:
            p.must(kk == "ok" and (r is cached if hit else r is late[0]) and not runs, "once", f"the cached value is not returned: {kk} {r!r}")
        else:
            p.must(len(runs) == 2, "once", f"the provider runs {len(runs) / 2} times: {kk} {r!r}")
            p.must((kk == "raise" if isinstance(runs[1], Exc) else kk == "ok") and r is runs[1], "once", f"outcome {kk} {r!r} instead of {runs[1]!r}")
            if lifetime is Lifetime.SCOPED and kk == "ok":
                snap[id(owner)][dep] = r
        for w in ws:
            c = p.getattr(w, "_cache")
            p.must(len(c) == len(snap[id(w)]) and all(k in c and c[k] is v for k, v in snap[id(w)].items()), "once", f"cache of level {p.getattr(w, '_scope_level')}: {c} instead of {snap[id(w)]}")
    return setup


# ------------------------------------------------------------------------------------------------ building
def go_build(is_async, kind, spec_async, cleanup, where):
    """where: the base resolver's own list, a shared base resolver, or no list at all"""
    def setup(p):
        lists = {}

        def base(p, l):
            b = p.obj(None, f"base{l}", lazy=_nothing)
            b.fields["_cleanup_enabled"] = cleanup
            if where != "nolist":
                b.fields["_cleanup_callbacks"] = lists.setdefault(l, [])
            return b
        root = None
        if where == "shared":
            b1, b3 = base(p, 1), base(p, 3)
            b1.fields["_scope_resolver_3"] = b3
            bs = {1: b1, 3: b3}
            ws = chain(p, [1, 3], base=lambda p, l: bs[l])
        else:
            ws = chain(p, [1, 3], base=base)
        me = ws[1 if where != "own-root" else 0]
        log = []
        a1, a2 = p.fresh("a1"), p.fresh("a2")
        ca = og._CallArguments(args=(a1,), kwargs={"k": a2})
        aexc = p.exc("arguments") if p.choose(2, "the arguments fail") == 1 else None

        def arguments(p, a, kw):
            log.append("args")
            if aexc is not None:
                raise PyRaise(aexc)
            return ca
        p.intercept(RES, "_resolve_call_arguments_sync", arguments)
        p.intercept(RES, "_resolve_call_arguments_async", lambda p, a, k: Coro(lambda: arguments(p, a, k), "arguments"))
        st = dict(value=p.fresh("value"), exc=None, ready=False)
        sync_pending = lambda: [len(lists[l]) for l in lists]
        exits = dict(exit=p.fresh("exit"), aexit=p.fresh("aexit"))

        def fail(what):
            if p.choose(2, f"{what} fails") == 1:
                st["exc"] = p.exc(what)
                raise PyRaise(st["exc"])

        def opener(is_a):
            def enter(p, a, k):
                log.append("aenter" if is_a else "enter")
                p.must(all(not l for l in lists.values()) and not p.getattr(me, "_cleanup_callbacks"), "cleanup", "the exit is registered before the resource is open")
                fail("enter")
                return st["value"]
            return method(p, is_a, enter, "enter")

        def cm_object():
            return p.obj(None, "cm", fields=dict(__enter__=opener(False), __exit__=exits["exit"], __aenter__=opener(True), __aexit__=exits["aexit"]), lazy=_nothing)

        def provider(p, a, k):
            log.append(("call", tuple(a), dict(k)))
            if kind == "factory" and spec_async:
                return Coro(lambda: (log.append("await"), fail("provider"), st["value"])[-1], "provider")
            fail("provider")
            if kind == "context_manager":
                return cm_object()
            if kind == "generator":
                return p.obj(None, "gen", fields=dict(__next__=method(p, False, step, "next"), __anext__=method(p, True, step, "anext")), lazy=_nothing)
            return st["value"]

        def step(p, a, k):
            log.append("step")
            fail("step")
            return st["value"]
        prov = p.fresh("provider")
        prov.on_call = provider

        def wrapper(is_a):
            def wrap(p, a, k):
                p.must([*a, *k.values()] == [prov], "args", "something else is made a context manager")

                def made(p, a, k):
                    log.append(("call", tuple(a), dict(k)))
                    st["wrapped"] = is_a
                    return cm_object()
                v = p.fresh("cmfactory")
                v.on_call = made
                return v
            return wrap
        p.intercept(og, "contextmanager", wrapper(False))
        p.intercept(og, "asynccontextmanager", wrapper(True))
        for n in ("_as_provider_type", "_as_factory_provider", "_as_generator_provider", "_as_context_manager_provider"):
            if hasattr(og, n):
                p.intercept(og, n, lambda p, a, k: [*a, *k.values()][0])
        s = spec(3, kind=kind, provider=prov, is_async=spec_async)
        m = match_of(s)
        kk, r = outcome(p, lambda: p.call(p.getattr(me, "_build_open_value_async" if is_async else "_build_open_value_sync"), [], dict(match=m)), is_async)
        calls = [e for e in log if isinstance(e, tuple)]
        if aexc is not None:
            p.must(kk == "raise" and r is aexc and not calls, "args", f"the arguments failed, the outcome is {kk} {r!r}")
            return
        p.must(len(calls) == 1 and log.count("args") == 1, "once", f"the provider is called {len(calls)} times")
        p.must(calls[0][1] == (a1,) and calls[0][2] == {"k": a2}, "args", f"the provider receives {calls[0][1:]}")
        p.must((kk == "raise" and r is st["exc"]) if st["exc"] is not None else (kk == "ok" and r is st["value"]), "once", f"outcome {kk} {r!r}, expected {st}")
        own = [e for l in lists.values() for e in l]
        mine = lists.get(3 if where != "own-root" else 1, []) if where != "shared" else []
        mine = list(mine) + list(p.getattr(me, "_cleanup_callbacks"))
        want = 0
        if kind in ("generator", "context_manager") and cleanup and st["exc"] is None:
            want = 1
        total = len(own) + sum(len(p.getattr(w, "_cleanup_callbacks")) for w in ws)
        p.must(total == want and len(mine) == want, "cleanup", f"{total} exit callbacks, {len(mine)} on the scope of the provider, expected {want}")
        if where == "shared":
            p.must(not own, "cleanup", "an exit callback of one scope is pushed on a resolver shared by several")
        if want:
            a = spec_async and is_async
            p.must(mine[0][0] == (1 if a else 0) and mine[0][1] is exits["aexit" if a else "exit"], "cleanup", f"exit callback {mine[0]}")
        ent = [e for e in log if e in ("enter", "aenter", "step", "await")]
        if st["exc"] is None:
            w = {"concrete_type": [], "factory": ["await"] if spec_async else []}.get(kind)
            if w is None:
                w = [("aenter" if spec_async else "enter") if cleanup or kind == "context_manager" else "step"]
            p.must(ent == w, "async", f"{ent} instead of {w}")
    return setup


# ------------------------------------------------------------------------------------------------ arguments
PO, PK, VP, KO, VK = (getattr(inspect.Parameter, n) for n in ("POSITIONAL_ONLY", "POSITIONAL_OR_KEYWORD", "VAR_POSITIONAL", "KEYWORD_ONLY", "VAR_KEYWORD"))


def shapes(n, seed, limit):
    """tuples of (kind, default, declared): valid signatures"""
    out = []
    for k in range(n + 1):
        for kinds in itertools.combinations_with_replacement((PO, PK, VP, KO, VK), k):
            if kinds.count(VP) > 1 or kinds.count(VK) > 1:
                continue
            for ds in itertools.product((False, True), repeat=k):
                if any(d for d, q in zip(ds, kinds) if q in (VP, VK)):
                    continue
                pos = [d for d, q in zip(ds, kinds) if q in (PO, PK)]
                if any(a and not b for a, b in zip(pos, pos[1:])):
                    continue
                for dec in itertools.product((True, False), repeat=k):
                    if any(not c and not d and q not in (VP, VK) for c, d, q in zip(dec, ds, kinds)):
                        continue
                    sh = tuple(zip(kinds, ds, dec))
                    # an undeclared parameter before a positional-only or *args dependency: known finding star-after-default
                    if any(not c and q in (PO, PK) and any(c2 and (q2 is VP or q2 is PO) for q2, _, c2 in sh[i + 1:]) for i, (q, _, c) in enumerate(sh)):
                        continue
                    out.append(sh)
    rnd = random.Random(seed)
    if len(out) > limit:
        small = [s for s in out if len(s) <= 2]
        big = [s for s in out if len(s) > 2]
        out = small + rnd.sample(big, max(0, min(len(big), limit - len(small))))
    return out


def go_args(is_async, sh):
    params = [inspect.Parameter(f"p{i}", q, default=inspect.Parameter.empty if not d else f"default{i}") for i, (q, d, _) in enumerate(sh)]
    sig = inspect.Signature(params)

    def fn(*a, **k):
        pass
    fn.__signature__ = sig
    deps = [ProviderDependency(provides=G[T], parameter=q) for q, (_, _, c) in zip(params, sh) if c]

    def setup(p):
        w = chain(p, [1])[0]
        bindings = tuple(og._build_binding_plan(dependency=d, template_typevars=(T,)) for d in deps)
        positional = p.call(og._positional_parameters, [], dict(provider_kind="factory", provider=fn, dependencies=deps))
        wr = p.choose(2, "the provider is an injected callable") == 1
        s = spec(1, provider=fn, bindings=bindings, positional=positional, wrapper=wr)
        m = match_of(s)
        vals, err = {}, []

        def binding(p, a, kw):
            b, tm = kw.get("binding", a[1] if len(a) > 1 else None), kw.get("typevar_map", a[2] if len(a) > 2 else None)
            q = b.dependency.parameter
            p.must(tm is m.typevar_map or dict(tm) == m.typevar_map, "args", "the arguments of another match are used")
            p.must(q.name not in vals, "args", f"the dependency of {q.name} is resolved twice")
            later_star = any(d.parameter.kind is VP for d in deps) and q.kind in (PO, PK)
            n = p.choose(3 if q.default is not q.empty and not later_star else 2, f"{q.name}: value, error, omitted")
            if n == 1:
                err.append(p.exc(q.name))
                raise PyRaise(err[0])
            if n == 2:
                vals[q.name] = og._OMITTED_ARGUMENT
            elif q.kind is VP:
                vals[q.name] = tuple(p.fresh(f"{q.name}_{i}") for i in range(p.choose(3, "items")))
            elif q.kind is VK:
                vals[q.name] = {f"x{i}": p.fresh(f"x{i}") for i in range(p.choose(3, "items"))}
            else:
                vals[q.name] = p.fresh(q.name)
            return vals[q.name]
        p.intercept(RES, "_resolve_binding_value_sync", binding)
        p.intercept(RES, "_resolve_binding_value_async", lambda p, a, k: Coro(lambda: binding(p, a, k), "binding"))
        kk, r = outcome(p, lambda: p.call(p.getattr(w, "_resolve_call_arguments_async" if is_async else "_resolve_call_arguments_sync"), [], dict(match=m)), is_async)
        if err:
            p.must(kk == "raise" and r is err[0], "args", f"a dependency failed, the outcome is {kk} {r!r}")
            return
        p.must(kk == "ok", "args", f"outcome {kk} {r!r}")
        args, kwargs = p.getattr(r, "args"), dict(p.getattr(r, "kwargs"))
        res = kwargs.pop(INJECT_RESOLVER_KWARG, None)
        p.must(res is (w if wr else None), "args", f"the resolver handed to an injected callable is {res!r}")
        try:
            got = sig.bind(*args, **kwargs).arguments
        except TypeError as e:
            p.must(False, "args", f"the call fails: {e}; {args} {kwargs}")
        po_omitted = False
        for q, (kind, _, dec) in zip(params, sh):
            v = vals.get(q.name)
            if kind is PO and po_omitted or not dec or v is og._OMITTED_ARGUMENT:
                p.must(q.name not in got, "args", f"{q.name} receives {got.get(q.name)!r}, it must keep its default")
                po_omitted = po_omitted or v is og._OMITTED_ARGUMENT and kind is PO
                continue
            p.must(q.name in vals, "args", f"the dependency of {q.name} is not resolved")
            if kind is VP:
                g = got.get(q.name, ())
                p.must(len(g) == len(v) and all(x is y for x, y in zip(g, v)), "args", f"*{q.name} receives {g}, expected {v}")
            elif kind is VK:
                g = got.get(q.name, {})
                p.must(set(g) == set(v) and all(g[k] is v[k] for k in v), "args", f"**{q.name} receives {g}, expected {v}")
            else:
                p.must(q.name in got and got[q.name] is v, "args", f"{q.name} receives {got.get(q.name)!r}, expected {v!r}")
    return setup


def go_binding(is_async, kind):
    dep = {"T": T, "U": U, "typeT": type[T], "plain": A, "generic": G[T], "maybe": Maybe[G[T]], "maybe-ctx": Maybe[FromContext[A]], "left": G[list[U]]}[kind]

    def setup(p):
        w = chain(p, [1])[0]
        q = [inspect.Parameter("x", PK), inspect.Parameter("x", PK, default=None), inspect.Parameter("x", PO, default=3), inspect.Parameter("x", KO), inspect.Parameter("x", VP),
             inspect.Parameter("x", VK)][p.choose(6, "parameter")]
        b = p.call(og._build_binding_plan, [], dict(dependency=ProviderDependency(provides=dep, parameter=q), template_typevars=(T, U)))
        tm = {T: int} if kind == "left" else {T: int, U: str}
        st = dict(reg=None)
        log = []

        def registered(p, a, k):
            d = [*a[1:], *k.values()][0]
            p.must(d == G[int], "binding", f"asked whether {d} is registered")
            if st["reg"] is None:
                st["reg"] = p.choose(2, "the key is registered") == 0
            return st["reg"]

        def resolve(p, a, k):
            d = [*a[1:], *k.values()][0]
            p.must(a[0] is w, "binding", "the dependency is resolved in another scope")
            log.append(d)
            if kind == "maybe" and st["reg"] is None:
                st["reg"] = p.choose(2, "the key is registered") == 0
                if not st["reg"]:
                    return None
            if p.choose(2, "resolution fails") == 1:
                st["exc"] = p.exc("dependency")
                raise PyRaise(st["exc"])
            st["val"] = p.fresh("value")
            return st["val"]
        p.intercept(RES, "_is_registered_dependency", registered)
        p.intercept(RES, "resolve", resolve)
        p.intercept(RES, "aresolve", lambda p, a, k: Coro(lambda: resolve(p, a, k), "aresolve"))
        kk, r = outcome(p, lambda: p.call(p.getattr(w, "_resolve_binding_value_async" if is_async else "_resolve_binding_value_sync"), [], dict(binding=b, typevar_map=tm)), is_async)
        if kind in ("T", "U", "typeT"):
            p.must(kk == "ok" and r is tm[U if kind == "U" else T] and not log, "binding", f"a parameter declared as {dep} receives {kk} {r!r}")
            return
        if kind == "left":
            p.must(kk == "raise" and r.cls is X.DIWireInvalidGenericTypeArgumentError and not log, "binding", f"an unbound type variable gives {kk} {r!r}")
            return
        if kind == "maybe" and st["reg"] is False:
            want = og._OMITTED_ARGUMENT if q.default is not q.empty else () if q.kind is VP else {} if q.kind is VK else None
            p.must(kk == "ok" and (r is want or r == want and type(r) is type(want) and want is not None and want is not og._OMITTED_ARGUMENT) and "exc" not in st, "binding",
                   f"a missing Maybe dependency gives {kk} {r!r}, expected {want!r}")
            return
        key = {"plain": A, "generic": G[int], "maybe": Maybe[G[int]], "maybe-ctx": Maybe[FromContext[A]]}[kind]
        p.must(len(log) == 1 and (same_key(log[0], key) or kind == "maybe" and log == [G[int]]), "binding", f"{log} is resolved instead of {key}")
        p.must((kk == "raise" and r is st["exc"]) if "exc" in st else (kk == "ok" and r is st["val"]), "binding", f"outcome {kk} {r!r}")
    return setup


def same_key(a, b):
    """annotation markers have no equality of their own"""
    for is_, strip in ((og.is_maybe_annotation, og.strip_maybe_annotation), (og.is_from_context_annotation, og.strip_from_context_annotation)):
        if is_(a) and is_(b):
            return same_key(strip(a), strip(b))
    return a == b


def units(tier, seed, opts):
    what = opts.get("what", ("resolve", "open", "build", "args", "binding"))
    out = []
    if "resolve" in what:
        out += [("resolve", a, k) for a in (False, True) for k in KEYS]
    if "open" in what:
        for a in (False, True):
            for lt in ("SCOPED", "TRANSIENT"):
                for levels, recv in (((1,), 0), ((1, 3), 1), ((1, 3), 0), ((1, 3, 4), 2), ((1, 2, 3), 1)):
                    for level in (1, 2, 3, 4):
                        for lock in ("auto", "THREAD", "ASYNC", "NONE"):
                            for ha in (False, True):
                                for req in ("", "own", "dep"):
                                    if lock != "auto" and ha or req and not ha and lock == "auto":
                                        continue
                                    out.append(("open", a, lt, levels, recv, level, lock, ha, req))
    if "build" in what:
        out += [("build", a, k, sa, c, w) for a in (False, True) for k in ("concrete_type", "factory", "generator", "context_manager") for sa in (False, True)
                for c in (False, True) for w in ("own", "own-root", "shared", "nolist") if a or not sa]
    if "args" in what:
        sh = shapes(4, seed, opts.get("shapes", 150 if tier == "quick" else 1500))
        out += [("args", a, x) for x in sh for a in (False, True)]
    if "binding" in what:
        out += [("binding", a, k) for a in (False, True) for k in ("T", "U", "typeT", "plain", "generic", "maybe", "maybe-ctx", "left")]
    n = 24
    return [tuple(out[i::n]) for i in range(n) if out[i::n]]


def one(u):
    if u[0] == "resolve":
        return go_resolve(u[1], u[2]), f"{'aresolve' if u[1] else 'resolve'} of a {u[2]} key through the open-generic resolver"
    if u[0] == "open":
        _, a, lt, levels, recv, level, lock, ha, req = u
        return go_open(a, Lifetime[lt], list(levels), recv, level, lock if lock == "auto" else LockMode[lock], ha, req), \
            f"{'async' if a else 'sync'} resolution of a {lt} template of level {level} from {levels[:recv + 1]}, lock {lock}, async templates {ha}, requires async {req or 'no'}"
    if u[0] == "build":
        return go_build(*u[1:]), f"building a {'async ' if u[3] else ''}{u[2]} {'asynchronously' if u[1] else 'synchronously'}, cleanup {u[4]}, {u[5]}"
    if u[0] == "args":
        return go_args(u[1], u[2]), f"call arguments ({'async' if u[1] else 'sync'}) for ({', '.join(q.name + ('=' if d else '') + ('' if c else ' undeclared') for q, d, c in u[2])})"
    return go_binding(u[1], u[2]), f"binding of a {u[2]} parameter ({'async' if u[1] else 'sync'})"


def run(us, deadline, col):
    for u in us:
        eng = Engine()
        g, label = one(u)
        r = eng.explore(g, deadline=deadline)
        col.result(label, r, lambda: native.replay(g, r, [label]))
        col.engine(eng)
