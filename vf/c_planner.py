"""Contracts of the graph analysis (planner.py: _resolve_requires_async, _resolve_max_required_scope_level, _build_*_by_slot, _dependency_slots_for_graph,
_plan_dependency and what it calls, _build_all_slots_by_key, _collect_specs, _resolve_effective_lock_mode).

Graphs are arbitrary: recursive calls are used by contract (the node under analysis has up to three dependencies with up to two slots each, bounded).
requires  the memo holds, for finished slots only, the value of the slot; the slots in progress all reach the slot under analysis
ensures   async   : the result is: the provider is async or a non-deferred dependency requires async
          level   : the result is the deepest level of the provider and its non-deferred dependencies, and everything below the slot is free of cycles
          cycle   : a slot in progress raises DIWireInvalidProviderSpecError naming it (it reaches itself); nothing else does, and no finished slot is refused
          variant : the slot is in progress during every recursive call (so the recursion ends), and is not afterwards
          memo    : the memo is extended by values of finished slots only
          all     : the maps cover every slot of the graph, an error of any slot leaves the construction
          edges   : FromContext, Provider, AsyncProvider and missing Maybe (or dataclass-factory) dependencies are no edges, All leads to every live key of
                    its base type in slot order, everything else to its registration or DIWireDependencyNotRegisteredError; the plan agrees with the edges
          cached, locks, flags : the plan of a provider has the registration's key, scope, provider and dependencies; SCOPED providers and instances are cached, at
                    their own level and the root; the lock is a thread lock in mode THREAD without async, an asyncio lock in mode ASYNC with async
          order   : dependencies may be passed by position only if every positional-or-keyword one stands at its own place (and are when *args follows)
          mode    : the lock mode in force is the declared one, else ASYNC iff some provider is async"""
from __future__ import annotations
import dataclasses, inspect, itertools, z3
from typing import Annotated, Generic, TypeVar
from .sym import Engine, Obj, Exc, PyRaise, Unsupported, SI, zi
from .c_rcontext import outcome
from . import native
from diwire import exceptions as X, Scope, Lifetime, LockMode, Component, Provider, AsyncProvider, Maybe, All, FromContext
from diwire._internal.providers import ProviderDependency, ProvidersRegistrations, ProviderSpec
from diwire._internal.resolvers.assembly import planner as pl

ASSUMPTIONS = ["planner: nodes have up to three dependencies (bounded); graphs, memo and recursion depth are arbitrary"]
PLAN = pl.ResolverGenerationPlanner


class A:
    pass


class B:
    pass


T = TypeVar("T")


class G(Generic[T]):
    pass


def planner():
    return PLAN(root_scope=Scope.APP, registrations=ProvidersRegistrations())


def symbolic(p):
    return hasattr(p, "fresh_int")


def number(p, name, n):
    """any integer; on a replay one of a few values"""
    return p.fresh_int(name) if symbolic(p) else n


def go_visit(which, succs):
    """succs: slots per dependency of slot 0"""
    fn = "_resolve_requires_async" if which == "async" else "_resolve_max_required_scope_level"
    memo_name = "requires_async_by_slot" if which == "async" else "max_scope_level_by_slot"
    ids = sorted({0, 1, 2, *[s for d in succs for s in d]})

    def setup(p):
        me = planner()
        val = {}        # the value of every slot
        for s in ids:
            if which == "async":
                val[s] = p.choose(2, f"slot {s} requires async") == 1
            else:
                val[s] = number(p, f"level{s}", 10 + 7 * s % 5)
        memo, prog = {}, set()
        if hasattr(p, "own"):
            p.own(memo), p.own(prog)
        for s in ids:
            k = p.choose(3, f"slot {s}: unseen, finished, in progress")
            if k == 1:
                memo[s] = val[s]
            elif k == 2:
                prog.add(s)
        memo0, prog0 = dict(memo), set(prog)
        deps = [p.fresh(f"dependency{i}") for i in range(len(succs))]
        own = p.choose(2, "the provider is async") == 1 if which == "async" else number(p, "own", 3)
        by = {}
        for s in ids:
            sp = p.obj(None, f"spec{s}")
            sp.fields.update(slot=s, provides=f"key{s}", dependencies=list(deps) if s == 0 else [], is_async=own if s == 0 else False,
                             scope=p.obj(None, "scope", fields=dict(level=own if which == "level" else 1)))
            by[s] = sp
        ev = dict(bad=None, asked=[], seen=[])

        def edges(p, a, kw):
            d = kw.get("dependency", a[1] if len(a) > 1 else None)
            i = next((i for i, x in enumerate(deps) if x is d), None)
            p.must(i is not None, which, f"edges of something else: {d!r}")
            ev["asked"].append(i)
            if p.choose(2, f"dependency {i} is not registered") == 1:
                ev["bad"] = Exc(X.DIWireDependencyNotRegisteredError, ("missing",))
                raise PyRaise(ev["bad"])
            return succs[i]
        p.intercept(PLAN, "_dependency_slots_for_graph", edges)

        def visit(p, a, kw):
            s, m, g, b = kw.get("slot"), kw.get(memo_name), kw.get("in_progress"), kw.get("by_slot")
            if s is None or m is None or g is None:
                raise Unsupported("recursion with other arguments")
            p.must(s in {x for i in ev["asked"] for x in succs[i]}, which, f"slot {s} is visited, it is no dependency")
            p.must(set(g) == prog0 | {0}, "variant", f"slots in progress during the visit of {s}: {sorted(g)}, expected {sorted(prog0 | {0})}")
            p.must(0 not in m or 0 in memo0, "memo", "the slot counts as finished while its dependencies are visited")
            if s in m:
                ev["seen"].append(s)
                return m[s]
            if s in g:
                ev["bad"] = Exc(X.DIWireInvalidProviderSpecError, (f"slot {s}",))
                raise PyRaise(ev["bad"])
            if p.choose(2, f"below slot {s} is a cycle or a missing dependency") == 1:
                ev["bad"] = Exc(X.DIWireInvalidProviderSpecError, ("below",))
                raise PyRaise(ev["bad"])
            m[s] = val[s]
            memo0[s] = val[s]
            ev["seen"].append(s)
            return val[s]
        p.recursive(PLAN, fn, visit)
        kk, r = outcome(p, lambda: p.call(p.getattr(me, fn), [], {"slot": 0, "by_slot": by, memo_name: memo, "in_progress": prog}), False)
        eq = lambda a, b: (a is b if isinstance(a, bool) or not symbolic(p) and not isinstance(a, int) else zi(a) == zi(b) if symbolic(p) else a == b)
        same_memo = lambda extra: set(memo) == set(memo0) | extra
        if 0 in memo0 and not ev["asked"]:
            p.must(kk == "ok", "cycle", f"a finished slot gives {kk} {r!r}")
            p.must(eq(r, memo0[0]), which, f"a finished slot gives {r!r}, its value is {memo0[0]!r}")
            p.must(same_memo(set()) and prog == prog0, "memo", "visiting a finished slot changes something")
            return
        if 0 in prog0 and ev["bad"] is None:
            p.must(kk == "raise" and r.cls is X.DIWireInvalidProviderSpecError, "cycle", f"a slot that reaches itself gives {kk} {r!r}")
            msg = r.args[0] if r.args else ""
            p.must("slot 0" in str(msg) if isinstance(msg, str) else True, "cycle", f"the error does not name the slot: {msg!r}")
            return
        if ev["bad"] is not None:
            p.must(kk == "raise" and r is ev["bad"], "cycle", f"a dependency is refused, the outcome is {kk} {r!r}")
            p.must(set(memo) <= set(memo0), "memo", "a refused slot counts as finished")
            return
        p.must(kk == "ok", "cycle", f"refused without a cycle: {r!r}")
        p.must(prog == prog0, "variant", f"slots in progress afterwards: {sorted(prog)}, before {sorted(prog0)}")
        p.must(same_memo({0}) and 0 in memo, "memo", f"finished slots: {sorted(memo)}")
        if which == "async":
            known = bool(own) or any(val[s] for s in ev["seen"])
            p.must(known or set(ev["seen"]) == {s for d in succs for s in d}, "async", "a dependency is left out")
            p.must(r is known and memo[0] is known, "async", f"the result is {r!r}, expected {known}")
            return
        p.must(set(ev["seen"]) == {s for d in succs for s in d}, "level", f"visited {ev['seen']} of {succs}: a cycle may stay undetected")
        want = [own, *[val[s] for d in succs for s in d]]
        if symbolic(p):
            z = [zi(w) for w in want]
            p.must(z3.And([zi(r) >= x for x in z] + [z3.Or([zi(r) == x for x in z])]), "level", "the result is not the deepest level")
            p.must(zi(memo[0]) == zi(r), "memo", "another value is remembered")
        else:
            p.must(r == max(want) == memo[0], "level", f"the result is {r}, expected {max(want)}")
    return setup


def go_build(which, n):
    fn = "_build_requires_async_by_slot" if which == "async" else "_build_max_required_scope_level_by_slot"
    inner = "_resolve_requires_async" if which == "async" else "_resolve_max_required_scope_level"
    memo_name = "requires_async_by_slot" if which == "async" else "max_scope_level_by_slot"

    def setup(p):
        me = planner()
        specs = []
        for s in range(n):
            sp = p.obj(None, f"spec{s}")
            sp.fields.update(slot=s + 3)
            specs.append(sp)
        p.setattr(me, "_work_specs", tuple(specs))
        val = {s + 3: (p.choose(2, "value") == 1) if which == "async" else s + 20 for s in range(n)}
        ev = dict(bad=None)

        def visit(p, a, kw):
            s, m, g = kw.get("slot"), kw.get(memo_name), kw.get("in_progress")
            if s is None or m is None or g is None:
                raise Unsupported("called with other arguments")
            p.must(not g, "variant", "slots are in progress between visits")
            p.must(set(kw["by_slot"]) == set(val), "all", "the graph is not the registered one")
            if s not in m:
                if p.choose(2, f"slot {s} is refused") == 1:
                    ev["bad"] = Exc(X.DIWireInvalidProviderSpecError, (s,))
                    raise PyRaise(ev["bad"])
                m[s] = val[s]
            return m[s]
        p.intercept(PLAN, inner, visit)
        kk, r = outcome(p, lambda: p.call(p.getattr(me, fn), [], {}), False)
        if ev["bad"] is not None:
            p.must(kk == "raise" and r is ev["bad"], "all", f"slot refused, the outcome is {kk} {r!r}")
            return
        p.must(kk == "ok" and dict(r) == val, "all", f"{kk} {r!r}, expected {val}")
    return setup


FACTORY = getattr(dataclasses, "_HAS_DEFAULT_FACTORY", None)
KINDS = {"plain": A, "note": Annotated[A, "note"], "component": Annotated[A, Component("k")], "maybe": Maybe[A], "maybe-component": Maybe[Annotated[A, Component("k")]],
         "ctx": FromContext[A], "maybe-ctx": Maybe[FromContext[A]], "provider": Provider[A], "aprovider": AsyncProvider[A], "all": All[A], "all-none": All[B],
         "generic": G[int], "maybe-note": Maybe[Annotated[A, "note"]], "all-component": All[Annotated[A, "note"]]}
EDGE = {"plain": A, "note": A, "component": KINDS["component"], "maybe": A, "maybe-component": KINDS["component"], "generic": G[int], "maybe-note": A}
INNER = {"provider": A, "aprovider": A}
PARAMS = {"plain": inspect.Parameter("x", inspect.Parameter.POSITIONAL_OR_KEYWORD), "default": inspect.Parameter("x", inspect.Parameter.POSITIONAL_OR_KEYWORD, default=None),
          "factory": inspect.Parameter("x", inspect.Parameter.KEYWORD_ONLY, default=FACTORY), "star": inspect.Parameter("x", inspect.Parameter.VAR_POSITIONAL),
          "kwargs": inspect.Parameter("x", inspect.Parameter.VAR_KEYWORD)}


def go_edges(kind, param, plan):
    def setup(p):
        me = planner()
        reg = {}

        def find(p, a, kw):
            d = [*a[1:], *kw.values()][0]
            if d not in (A, KINDS["component"], G[int]):
                return None
            k = repr(d)
            if k not in reg:
                if p.choose(2, f"{k} is registered") == 1:
                    reg[k] = None
                else:
                    sp = p.obj(ProviderSpec if symbolic(p) else None, "spec")
                    sp.fields.update(slot=5, provides=d, scope=p.obj(None, "scope", fields=dict(level=number(p, "level", 1))))
                    reg[k] = sp
            return reg[k]
        p.intercept(ProvidersRegistrations, "find_by_type", find)
        p.setattr(me, "_all_slots_by_key", {A: (4, 6), G[int]: (9,)})
        req = {4: p.choose(2, "slot 4 requires async") == 1, 5: p.choose(2, "slot 5 requires async") == 1, 6: False, 9: False}
        p.setattr(me, "_requires_async_by_slot", req)
        q = PARAMS[param]
        dep = ProviderDependency(provides=KINDS[kind], parameter=q)
        if plan:
            own = number(p, "own", 2)
            sp = p.obj(None, "requiring", fields=dict(slot=0, provides=B, dependencies=[dep], scope=p.obj(None, "scope", fields=dict(level=own))))
            kk, r = outcome(p, lambda: p.call(p.getattr(me, "_plan_dependency"), [], dict(spec=sp, dependency_index=0, dependency=dep)), False)
        else:
            kk, r = outcome(p, lambda: p.call(p.getattr(me, "_dependency_slots_for_graph"), [], dict(dependency=dep, requiring_provider=B)), False)
        found = {k: s for k, s in reg.items()}
        missing = kind in EDGE and found.get(repr(EDGE[kind]), 0) is None
        refused = missing and not (kind.startswith("maybe") or param == "factory")
        if plan and kind in ("provider", "aprovider"):
            star = param in ("star", "kwargs")
            inner = found.get(repr(A), 0)
            if kk == "raise":
                ok = star and r.cls is X.DIWireInvalidProviderSpecError or inner is None and r.cls is X.DIWireDependencyNotRegisteredError
                deeper = inner not in (0, None) and r.cls is X.DIWireInvalidProviderSpecError
                p.must(ok or deeper, "edges", f"a handle is refused with {r!r}")
                if deeper and not ok:
                    lv = p.getattr(inner.fields["scope"] if isinstance(inner, Obj) else inner, "level")
                    p.must(zi(lv) > zi(own) if symbolic(p) else lv > own, "edges", "a handle of a provider that is not deeper is refused")
                return
            pln = r[0]
            p.must(p.getattr(pln, "kind") == "provider_handle" and p.getattr(pln, "provider_inner_slot") == 5 and p.getattr(pln, "provider_is_async") == (kind == "aprovider"), "edges",
                   f"plan of a handle: {pln!r}")
            p.must(r[1] is None and r[2] is False, "edges", "a handle counts as an edge")
            return
        if plan and param == "kwargs" and kind.startswith("all"):
            p.must(kk == "raise" and r.cls is X.DIWireInvalidProviderSpecError, "edges", f"All for **kwargs: {kk} {r!r}")
            return
        if refused:
            p.must(kk == "raise" and r.cls is X.DIWireDependencyNotRegisteredError, "edges", f"a missing dependency gives {kk} {r!r}")
            return
        p.must(kk == "ok", "edges", f"{kind} is refused: {r!r}")
        want = () if kind in ("ctx", "maybe-ctx", "provider", "aprovider", "all-none") or missing else (4, 6) if kind.startswith("all") else (5,)
        if not plan:
            p.must(tuple(r) == want, "edges", f"edges {r!r}, expected {want}")
            return
        pln, slot, ra = r[0], r[1], r[2]
        k = p.getattr(pln, "kind")
        g = lambda n: p.getattr(pln, n)
        wk = "context" if kind in ("ctx", "maybe-ctx") else "all" if kind.startswith("all") else "provider" if not missing else \
            "omit" if q.default is not inspect.Parameter.empty else "literal"
        p.must(k == wk, "edges", f"the dependency is planned as {k}, expected {wk}")
        p.must(g("dependency") is dep and g("dependency_index") == 0, "edges", "the plan is for another dependency")
        if k == "provider":
            p.must(slot == 5 and g("dependency_slot") == 5 and ra is req[5] and g("dependency_requires_async") is req[5], "edges", f"slot {slot}, async {ra!r}")
        elif k == "all":
            p.must(tuple(g("all_slots")) == want and slot is None and ra is any(req[s] for s in want) and g("dependency_requires_async") is ra, "edges",
                   f"All leads to {g('all_slots')}, async {ra!r}")
        else:
            p.must(slot is None and ra is False, "edges", f"{k}: slot {slot}, async {ra!r}")
            if k == "literal":
                p.must(g("literal_expression") == {"star": "()", "kwargs": "{}"}.get(param, "None"), "edges", f"a missing dependency is {g('literal_expression')!r}")
    return setup


ALLKEYS = [A, Annotated[A, Component("k")], Annotated[A, Component("l")], B, G[int], Annotated[G[int], Component("k")]]
BASES = [A, A, A, B, G[int], G[int]]


def go_all(keys):
    def setup(p):
        me = planner()
        specs = []
        for i, k in enumerate(keys):
            sp = p.obj(None, f"spec{i}")
            sp.fields.update(slot=2 * i + 1, provides=ALLKEYS[k])
            specs.append(sp)
        p.setattr(me, "_work_specs", tuple(specs))
        kk, r = outcome(p, lambda: p.call(p.getattr(me, "_build_all_slots_by_key"), [], {}), False)
        want = {}
        for i, k in enumerate(keys):
            want.setdefault(BASES[k], []).append(2 * i + 1)
        p.must(kk == "ok" and {k: list(v) for k, v in dict(r).items()} == want, "edges", f"All of {[ALLKEYS[k] for k in keys]}: {r!r}, expected {want}")
    return setup


def go_collect(p):
    regs = []
    root = p.choose(2, "root level") + 1
    me = planner()
    p.setattr(me, "_root_scope", p.obj(None, "root", fields=dict(level=root)))
    for slot in (5, 2, 9):
        sp = p.obj(None, f"spec{slot}")
        sp.fields.update(slot=slot, scope=p.obj(None, "scope", fields=dict(level=p.choose(3, f"level of {slot}") + 1)))
        regs.append(sp)
    p.intercept(ProvidersRegistrations, "values", lambda p, a, k: list(regs))
    kk, r = outcome(p, lambda: p.call(p.getattr(me, "_collect_specs"), [], {}), False)
    p.must(kk == "ok", "all", f"{r!r}")
    got = [p.getattr(s, "slot") for s in r]
    want = sorted(p.getattr(s, "slot") for s in regs if p.getattr(p.getattr(s, "scope"), "level") >= root)
    p.must(got == want, "all", f"slots {got}, expected {want}")


def go_mode(p):
    me = planner()
    for lm in ("auto", *LockMode):
        for ha in (False, True):
            kk, r = outcome(p, lambda: p.call(p.getattr(me, "_resolve_effective_lock_mode"), [], dict(lock_mode=lm, has_async_specs=ha)), False)
            want = lm if lm != "auto" else LockMode.ASYNC if ha else LockMode.THREAD
            p.must(kk == "ok" and r is want, "mode", f"lock mode {lm}, async providers {ha}: {r!r}")


# ------------------------------------------------------------------------------------------------ workflow plans
ATTRS = ("instance", "concrete_type", "factory", "generator", "context_manager")


def go_flags(attr, nd):
    def setup(p):
        me = planner()
        root = number(p, "root level", 1)
        p.setattr(me, "_root_scope", p.obj(None, "root", fields=dict(level=root)))
        life = (Lifetime.SCOPED, Lifetime.TRANSIENT)[p.choose(2, "lifetime")]
        lock = ("auto", *LockMode)[p.choose(1 + len(LockMode), "lock mode")]
        has = p.choose(2, "async providers exist") == 1
        req = p.choose(2, "requires async") == 1
        wrapper = attr == "factory" and p.choose(2, "an injected callable") == 1
        level = 3
        prov = p.obj(None, "provider", fields={pl.INJECT_WRAPPER_MARKER: True} if wrapper else {})
        mx = number(p, "max level", 4)
        fields = {a: None for a in ATTRS}
        fields.update({attr: prov, "lifetime": life, "lock_mode": lock, "scope": p.obj(None, "scope", fields=dict(level=level)), "slot": 7, "provides": A if p.choose(2, "key") else G[int],
                       "is_async": p.choose(2, "own async") == 1, "needs_cleanup": attr in ("generator", "context_manager")})
        deps = fields["dependencies"] = [p.fresh(f"dep{i}") for i in range(nd)]
        sp = p.obj(None, "spec", fields=fields)
        p.setattr(me, "_requires_async_by_slot", {7: req})
        p.setattr(me, "_max_required_scope_level_by_slot", {7: mx})
        plans = []

        def plan(p, a, kw):
            i = kw["dependency_index"]
            p.must(kw["dependency"] is deps[i] and kw["spec"] is sp and i == len(plans), "flags", f"dependency {i} is planned out of order")
            plans.append((p.fresh(f"plan{i}"), 10 + i, p.choose(2, f"dependency {i} requires async") == 1, f"s{i}", f"a{i}"))
            return plans[-1]
        p.intercept(PLAN, "_plan_dependency", plan)
        order = p.choose(2, "signature order") == 1
        p.intercept(PLAN, "_dependency_order_is_signature_order", lambda p, a, kw: order)
        ladder = {l: pl.ScopePlan(scope_name=f"n{l}", scope_level=l, class_name=f"C{l}", resolver_arg_name=f"a{l}", resolver_attr_name=f"_r{l}", skippable=False, is_root=l == 1) for l in (1, 3)}
        kk, r = outcome(p, lambda: p.call(p.getattr(me, "_build_workflow_plan"), [], dict(spec=sp, scope_by_level=ladder, has_async_specs=has)), False)
        p.must(kk == "ok", "flags", f"a valid spec raises {r!r}")
        g = lambda n: p.getattr(r, n)
        cached = attr == "instance" or life is Lifetime.SCOPED
        p.must(g("is_cached") is cached and g("is_transient") is (not cached), "cached", f"{attr} {life}: cached {g('is_cached')!r}, transient {g('is_transient')!r}")
        eq = lambda a, b: zi(a) == zi(b) if symbolic(p) and a is not None else a == b
        own = g("cache_owner_scope_level")
        p.must(own is None if not cached else own is not None, "cached", f"{attr} {life}: owner level {own!r}")
        if cached:
            p.must(eq(own, root if attr == "instance" else level), "cached", f"{attr} {life}: owner level {own!r}")
        mode = lock if lock != "auto" else LockMode.ASYNC if has else LockMode.THREAD
        p.must(g("effective_lock_mode") is mode, "mode", f"lock mode {g('effective_lock_mode')!r}")
        p.must(g("uses_thread_lock") is (cached and mode is LockMode.THREAD and not req), "locks", f"{attr} {life} mode {mode} async {req}: thread lock {g('uses_thread_lock')!r}")
        p.must(g("uses_async_lock") is (cached and mode is LockMode.ASYNC and req), "locks", f"{attr} {life} mode {mode} async {req}: async lock {g('uses_async_lock')!r}")
        p.must(g("provider_attribute") == attr and g("provider_reference") is prov, "flags", f"provider {g('provider_attribute')} {g('provider_reference')!r}")
        p.must(g("slot") == 7 and g("provides") is fields["provides"] and g("lifetime") is life and g("scope_level") == level and g("scope_name") == "n3"
               and g("scope_attr_name") == "_r3", "flags", "slot, key, lifetime or scope of the plan differ from the registration's")
        p.must(g("requires_async") is req and g("is_provider_async") is fields["is_async"] and g("needs_cleanup") is fields["needs_cleanup"], "flags", "async or cleanup flags differ")
        p.must(g("provider_is_inject_wrapper") is wrapper, "flags", f"injected callable: {g('provider_is_inject_wrapper')!r}")
        p.must(g("dependency_order_is_signature_order") is order, "flags", "signature order flag")
        p.must(eq(g("max_required_scope_level"), mx), "flags", "deepest level")
        p.must(fields["provides"] is A or g("dispatch_kind") == "equality_map", "flags", f"{fields['provides']} is dispatched by {g('dispatch_kind')}")
        p.must(list(g("dependencies")) == deps and list(g("dependency_plans")) == [x[0] for x in plans] and list(g("dependency_slots")) == [x[1] for x in plans]
               and list(g("dependency_requires_async")) == [x[2] for x in plans], "flags", "dependencies of the plan differ from the registration's")
    return setup


def go_order(attr, shape):
    """shape: parameters (kind, declared) in signature order"""
    params = [inspect.Parameter(f"p{i}", q, default=inspect.Parameter.empty if q in (q.VAR_POSITIONAL, q.VAR_KEYWORD) else 0) for i, (q, _) in enumerate(shape)]

    def setup(p):
        me = planner()

        def fn(*a, **k):
            pass
        first = [inspect.Parameter("self", inspect.Parameter.POSITIONAL_ONLY if params and params[0].kind is inspect.Parameter.POSITIONAL_ONLY else inspect.Parameter.POSITIONAL_OR_KEYWORD)]
        fn.__signature__ = inspect.Signature((first if attr == "concrete_type" else []) + params)
        prov = type("Concrete", (), {"__init__": fn}) if attr == "concrete_type" else fn
        deps = [ProviderDependency(provides=A, parameter=q) for q, (_, d) in zip(params, shape) if d]
        swap = len(deps) > 1 and p.choose(2, "declared in another order") == 1
        if swap:
            deps[0], deps[1] = deps[1], deps[0]
        fields = {a: None for a in ATTRS}
        fields.update({attr: prov, "dependencies": deps, "slot": 1, "provides": A})
        sp = p.obj(None, "spec", fields=fields)
        kk, r = outcome(p, lambda: p.call(p.getattr(me, "_dependency_order_is_signature_order"), [], dict(spec=sp)), False)
        p.must(kk == "ok" and r in (True, False), "order", f"{kk} {r!r}")
        idx = [next(i for i, q in enumerate(params) if q is d.parameter) for d in deps]
        pk = [(n, i) for n, (i, d) in enumerate(zip(idx, deps)) if d.parameter.kind is inspect.Parameter.POSITIONAL_OR_KEYWORD]
        sound = all(n == i for n, i in pk)
        if r:
            p.must(sound, "order", f"dependencies at {idx} of ({', '.join(q.kind.name for q in params)}) count as signature order")
        elif any(d.parameter.kind is inspect.Parameter.VAR_POSITIONAL for d in deps):
            p.must(not (sound and idx == sorted(idx)), "order", f"dependencies at {idx} of ({', '.join(q.kind.name for q in params)}) do not count as signature order")
    return setup


def units(tier, seed, opts):
    what = opts.get("what", ("visit", "build", "edges", "all", "mode", "flags", "order"))
    out = []
    if "visit" in what:
        tups = [(), (0,), (1,), (2,), (1, 2), (2, 1), (1, 1), (0, 1)]
        combos = [c for n in range(3) for c in itertools.product(tups, repeat=n)]
        if tier != "quick":
            combos += [c for c in itertools.product(((), (1,), (2,), (0,), (1, 2)), repeat=3)]
        else:
            combos += [((1,), (2,), (1,)), ((1,), (), (2,)), ((2,), (1, 2), (0,)), ((1,), (2,), (0,))]
        out += [("visit", w, c) for w in ("async", "level") for c in combos]
    if "build" in what:
        out += [("build", w, n) for w in ("async", "level") for n in range(4)] + [("collect",)]
    if "edges" in what:
        out += [("edges", k, q, pl) for k in KINDS for q in PARAMS for pl in (False, True)]
    if "all" in what:
        out += [("all", ks) for n in range(5) for ks in itertools.product(range(6), repeat=n) if n < 4 or sum(ks) % 7 == 0]
    if "mode" in what:
        out += [("mode",)]
    if "flags" in what:
        out += [("flags", a, n) for a in ATTRS for n in range(3)]
    if "order" in what:
        Q = inspect.Parameter
        for n in range(5 if tier == "quick" else 6):
            for ks in itertools.combinations_with_replacement((Q.POSITIONAL_ONLY, Q.POSITIONAL_OR_KEYWORD, Q.VAR_POSITIONAL, Q.KEYWORD_ONLY, Q.VAR_KEYWORD), n):
                if ks.count(Q.VAR_POSITIONAL) < 2 and ks.count(Q.VAR_KEYWORD) < 2:
                    out += [("order", a, tuple(zip(ks, d))) for d in itertools.product((False, True), repeat=n)
                            for a in (("factory", "concrete_type", "generator", "context_manager") if n < 3 else ("concrete_type", ("factory", "generator", "context_manager")[sum(d) % 3]))]
    n = 24
    return [tuple(out[i::n]) for i in range(n) if out[i::n]]


def one(u):
    if u[0] == "visit":
        return go_visit(u[1], u[2]), f"{u[1]} of a slot with dependencies on slots {u[2]}"
    if u[0] == "build":
        return go_build(u[1], u[2]), f"{u[1]} of a graph with {u[2]} slots"
    if u[0] == "edges":
        return go_edges(u[1], u[2], u[3]), f"{'plan' if u[3] else 'edges'} of a {u[1]} dependency for a {u[2]} parameter"
    if u[0] == "all":
        return go_all(u[1]), f"All over {u[1]}"
    if u[0] == "flags":
        return go_flags(u[1], u[2]), f"workflow plan of a {u[1]} with {u[2]} dependencies"
    if u[0] == "order":
        return go_order(u[1], u[2]), f"signature order of a {u[1]}({', '.join(q.name + ('' if d else ' undeclared') for q, d in u[2])})"
    return (go_collect if u[0] == "collect" else go_mode), u[0]


def run(us, deadline, col):
    for u in us:
        eng = Engine()
        g, label = one(u)
        r = eng.explore(g, deadline=deadline)
        col.result(label, r, lambda: native.replay(g, r, [label]))
        col.engine(eng)
