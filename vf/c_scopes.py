"""Contracts of scope entry: emitted enter_scope and __init__ of every scope class (with _resolver_enter_scope, _instantiate_scope_transition,
_build_transition_plan_to_target, _next_scope_options), the open-generic wrapper's enter_scope and its transition path.

requires  the receiver is a scope object with the chain invariant: for every level above its own a reference to the open scope of that level or
          the missing marker, the parent is the deepest open ancestor (the root when there is none)
ensures   target : the result has the level the ladder prescribes for the target, for a missing target and for every integer
          self   : entering the current level returns the receiver
          error  : anything else raises DIWireScopeMismatchError
          frame  : the receiver and the root are not written; nothing is created when an error is raised
          chain  : every scope created satisfies the chain invariant, its parent is the scope it was opened from
          fresh  : its caches are empty, its cleanup list is new and empty, implicitly opened scopes are owned by the result, outermost first
          context: the context reaches exactly the scope asked for
          shared : a shared object is returned only by graphs without state below the root, and only when no context is involved
          root   : the root resolver's __init__ establishes the invariant
The proof covers every chain state, target and context; ladders are enumerated (all skippable patterns up to a size)."""
from __future__ import annotations
import dataclasses, itertools
import z3
from . import src
from .sym import Engine, Obj, Exc, SI, BM, PyRaise, Unsupported, NOTIMPL, Path
from .c_rcontext import strict, outcome
from diwire import exceptions as X, Container, Lifetime, MissingPolicy, DependencyRegistrationPolicy
from diwire._internal.scope import BaseScope, BaseScopes
from typing import Generic, TypeVar

ASSUMPTIONS = ["scope ladders are enumerated: every pattern of skippable flags up to the stated number of levels (bounded)"]
T = TypeVar("T")
VARIANTS = ("stateless", "stateless-cleanup", "scoped", "scoped-cleanup", "generic", "generic-cleanup")


class A:
    pass


class B:
    pass


class G(Generic[T]):
    pass


def gen():
    yield A()


def nm(l):
    return f"S{l}".replace("-", "m")


def make_ladder(levels, skips, name="Ladder"):
    ns = {"__annotations__": {nm(l): BaseScope for l in levels}}
    for l, s in zip(levels, skips):
        ns[nm(l)] = dataclasses.field(default=BaseScope(l, skippable=s))
    cls = type(name, (BaseScopes,), ns)
    cls = dataclasses.dataclass(frozen=True)(cls)
    for l in levels:                       # what class creation does for plain attributes
        getattr(cls, nm(l)).__set_name__(cls, nm(l))
    return cls()


def container(lad, levels, variant):
    c = Container(root_scope=getattr(lad, nm(levels[0])), missing_policy=MissingPolicy.ERROR, dependency_registration_policy=DependencyRegistrationPolicy.IGNORE,
                  use_resolver_context=False)
    root = getattr(lad, nm(levels[0]))
    deep = getattr(lad, nm(levels[-1]))
    if variant.endswith("cleanup"):
        c.add_generator(gen, provides=A, scope=root if variant == "stateless-cleanup" else deep, lifetime=Lifetime.SCOPED)
    else:
        c.add(A, scope=root, lifetime=Lifetime.SCOPED)
    if not variant.startswith("stateless"):
        for l in levels[1:]:
            c.add_factory(lambda: object(), provides=("k", l) and type(f"K{l}", (), {}), scope=getattr(lad, nm(l)), lifetime=Lifetime.SCOPED)
        c.add(B, scope=deep, lifetime=Lifetime.TRANSIENT)
    if variant.startswith("generic"):
        c.add(G, provides=G[T], scope=deep, lifetime=Lifetime.SCOPED)
    return c


def spec(levels, skips, cur, target):
    """levels opened one after the other, 'self', or 'error'"""
    sk = dict(zip(levels, skips))
    deeper = [l for l in levels if l > cur]
    if target == cur and target in levels:
        return "self" if deeper else "either"
    if target is None:
        if not deeper:
            return "error"
        target = next((l for l in deeper if not sk[l]), deeper[0])
    if target not in deeper:
        return "error"
    out = []
    while cur < target:
        d = [l for l in levels if l > cur]
        first, dflt = d[0], next((l for l in d if not sk[l]), d[0])
        cur = dflt if first != target and dflt <= target else first
        out.append(cur)
    return out


def classes(lad, levels, variant):
    import diwire._internal.resolvers.assembly.compiler as comp
    src.hook_compile(comp)
    root = container(lad, levels, variant).compile()
    base = getattr(root, "_base_resolver", root)
    return root, base, type(base)._runtime


def target_of(p, lad, levels):
    """an arbitrary target: none, a scope object, or any integer; returns (value passed, function level -> is it that level)"""
    k = p.choose(2 + len(levels), "target none / integer / scope object")
    if k == 0:
        return None, None
    if k == 1:
        i = p.fresh_int("level")
        return SI(i) if not isinstance(i, SI) else i, "int"
    return getattr(lad, nm(levels[k - 2])), levels[k - 2]


def decided(p, v, kind, levels):
    """the level an integer target denotes on this path (None: not a level)"""
    if kind != "int":
        return kind
    for l in levels:
        if p.branch(v.z == l, f"target is {l}"):
            return l
    return "unknown"


def slots(rt, level):
    cls = rt.class_by_level[level]

    def lazy(p, o, name):
        if name in cls.__slots__:
            raise Unsupported(f"attribute {name} of {o}")
        raise PyRaise(Exc(AttributeError, (name,)))
    return lazy


def missing():
    import diwire._internal.resolvers.assembly.compiler as comp
    return comp._MISSING_RESOLVER, comp._MISSING_CACHE


def abstract_chain(p, rt, levels, cur, root):
    """the open ancestors of an arbitrary scope at level cur: every subset of the levels in between"""
    chain = {}
    for l in levels[1:]:
        if l < cur and p.choose(2, f"level {l} is open") == 1:
            chain[l] = None
    return chain


def emitted_scope(p, rt, levels, cur, root, stateful):
    MR, MC = missing()
    chain = abstract_chain(p, rt, levels, cur, root)
    parent = root
    objs = {}
    for l in [l for l in levels[1:] if l in chain] + ([cur] if cur != levels[0] else []):
        o = Obj(rt.class_by_level[l], f"scope{l}", lazy=slots(rt, l))
        o.fields.update(_root_resolver=root, _parent_context_resolver=parent, _context=None, _owned_scope_resolvers=(), _active=True)
        if rt.has_cleanup:
            o.fields.update(_cleanup_enabled=True, _cleanup_callbacks=[])
        objs[l] = o
        for s in rt.ordered_scopes:
            if not s.is_root and s.scope_level <= l:
                o.fields[s.resolver_attr_name] = objs.get(s.scope_level, MR)
        parent = o
    return objs


class Created:
    """every object an emitted class created on this path"""

    def __init__(self, p):
        self.p, self.new = p, []


def root_obj(p, rt, levels, shared):
    o = Obj(rt.class_by_level[levels[0]], "root", lazy=slots(rt, levels[0]))
    MR, MC = missing()
    o.fields.update(_root_resolver=o, _parent_context_resolver=None, _context=None, _owned_scope_resolvers=(), _active=True)
    if rt.has_cleanup:
        o.fields.update(_cleanup_enabled=True, _cleanup_callbacks=[])
    for s in rt.ordered_scopes:
        if not s.is_root:
            o.fields[s.resolver_attr_name] = MR
            if shared:
                c = Obj(rt.class_by_level[s.scope_level], f"shared{s.scope_level}", lazy=slots(rt, s.scope_level))
                o.fields[f"_scope_resolver_{s.scope_level}"] = c
    return o


def check_new(p, rt, levels, o, level, root, parent, open_, context, owned, made, enabled):
    MR, MC = missing()
    F = o.fields
    p.must(o.cls is rt.class_by_level[level], "target", f"a scope of class {o.cls.__name__} was opened for level {level}")
    p.must(F.get("_root_resolver") is root, "chain", "root of the new scope")
    p.must(F.get("_parent_context_resolver") is parent, "chain", f"parent of the new scope: {F.get('_parent_context_resolver')!r} instead of {parent!r}")
    p.must(F.get("_context") is context, "context", f"context of the scope at level {level}: {F.get('_context')!r}, expected {context!r}")
    p.must(F.get("_active") is True, "fresh", "a new scope is open")
    ow = F.get("_owned_scope_resolvers")
    p.must(isinstance(ow, tuple) and len(ow) == len(owned) and all(a is b for a, b in zip(ow, owned)), "fresh", f"implicitly opened scopes owned: {ow}, expected {owned}")
    for s in rt.ordered_scopes:
        if not s.is_root and s.scope_level <= level:
            want = o if s.scope_level == level else open_.get(s.scope_level, MR)
            p.must(F.get(s.resolver_attr_name) is want, "chain", f"reference to level {s.scope_level}: {F.get(s.resolver_attr_name)!r} instead of {want!r}")
    for slot in rt.cache_slots_by_owner_level.get(level, ()):
        p.must(F.get(f"_cache_{slot}") is MC, "fresh", f"cache of slot {slot} is not empty")
    if rt.has_cleanup:
        p.must(F.get("_cleanup_enabled") is enabled, "fresh", "cleanup switch is inherited")
        cb = F.get("_cleanup_callbacks")
        p.must(type(cb) is list and cb == [] and not any(cb is x for x in made), "fresh", "the cleanup list is not a new empty list")
        made.append(cb)


def go_emitted(lad, levels, skips, variant, cur):
    def setup(p):
        root_real, base, rt = CACHE[levels, skips, variant]
        stateless = rt.uses_stateless_scope_reuse
        stateful_state = any(rt.cache_slots_by_owner_level.get(l) for l in levels[1:])
        p.must(not (stateless and stateful_state), "shared", "scopes are shared although providers are cached below the root")
        root = root_obj(p, rt, levels, stateless or not rt.has_cleanup)
        shared_self = stateless and cur != levels[0] and p.choose(2, "the receiver is a shared scope") == 1
        if cur == levels[0]:
            me, open_ = root, {}
        elif shared_self:
            me = root.fields[f"_scope_resolver_{cur}"]
            open_ = {cur: me}
            MR, _ = missing()
            me.fields.update(_root_resolver=root, _parent_context_resolver=None, _context=None, _owned_scope_resolvers=(), _active=False)
            if rt.has_cleanup:
                me.fields.update(_cleanup_enabled=True, _cleanup_callbacks=[])
            for s in rt.ordered_scopes:
                if not s.is_root and s.scope_level <= cur:
                    me.fields[s.resolver_attr_name] = me if s.scope_level == cur else MR
        else:
            objs = emitted_scope(p, rt, levels, cur, root, True)
            me, open_ = objs[cur], objs
            # scopes whose graph shares them exist only with a context
            if p.choose(2, "the receiver has a context") == 1:
                me.fields["_context"] = {A: 1}
        en = True
        if rt.has_cleanup:
            en = p.choose(2, "cleanup disabled") == 0
            me.fields["_cleanup_enabled"] = en
        ctx = [None, {}, {A: object()}][p.choose(3, "context none / empty / given")]
        t, kind = target_of(p, lad, levels)
        before = {id(o): (o, dict(o.fields)) for o in [root, me, *open_.values()]}
        args, kw = ([t] if t is not None or p.choose(2, "target passed") else []), ({"context": ctx} if ctx is not None else {})
        n0 = len(p.created)
        k, r = outcome(p, lambda: p.call(BM(rt.class_by_level[cur].enter_scope, me), args, kw), False)
        for o, f in before.values():
            p.must(set(o.fields) == set(f) and all(o.fields[x] is f[x] for x in f), "frame", f"{o!r} was written while a scope was entered")
        lv = decided(p, t, kind, levels)
        want = spec(levels, skips, cur, lv)
        made = [x for x in p.created[n0:] if x.cls in rt.class_by_level.values()]
        if want == "either":
            p.must(k == "ok" and r is me or k == "raise" and r.cls is X.DIWireScopeMismatchError, "self", f"entering the deepest level again gives {k} {r!r}")
            return
        if want == "error":
            p.must(k == "raise" and isinstance(r, Exc) and r.cls is X.DIWireScopeMismatchError, "error", f"target {lv} from level {cur}: {k} {r!r}")
            p.must(not made, "frame", f"{made} created although the entry is refused")
            return
        p.must(k == "ok", "target" if want != "self" else "self", f"target {lv} from level {cur}: {k} {r!r}")
        if want == "self":
            p.must(r is me, "self", f"entering the current level gives {r!r}")
            return
        p.must(isinstance(r, Obj), "target", f"result {r!r}")
        if any(r is root.fields.get(f"_scope_resolver_{l}") for l in levels):
            p.must(stateless, "shared", "a shared scope in a graph with state below the root")
            p.must(ctx is None, "context", "a shared scope cannot carry the context")
            p.must(me is root or shared_self or me.fields["_context"] is None and me.fields["_parent_context_resolver"] is None, "context", "a shared scope loses the context of the receiver")
            p.must(r is root.fields.get(f"_scope_resolver_{want[-1]}"), "target", f"shared scope {r!r}, expected level {want[-1]}")
            return
        if stateless and len(want) > 1 and len(made) == 1:
            want = want[-1:]          # nothing can tell whether levels without any provider are opened in between
        p.must(len(made) == len(want) and made[-1] is r, "target", f"{len(made)} scopes were opened, expected levels {want}")
        parent, op, lists = me, dict(open_), [o.fields.get("_cleanup_callbacks") for o, _ in before.values()]
        for i, (o, l) in enumerate(zip(made, want)):
            last = i == len(want) - 1
            check_new(p, rt, levels, o, l, root, parent, op, ctx if last else None, made[:-1] if last else (), lists, en)
            op[l] = o
            parent = o
    return setup


def go_root(lad, levels, skips, variant):
    def setup(p):
        root_real, base, rt = CACHE[levels, skips, variant]
        cls = rt.class_by_level[levels[0]]
        n0 = len(p.created)
        en = p.choose(2, "cleanup disabled") == 0
        given = p.choose(2, "argument passed") == 1
        r = p.call(cls, [en] if rt.has_cleanup and given else [], {})
        MR, MC = missing()
        check_new(p, rt, levels, r, levels[0], r, None, {}, None, (), [], en if given else True)
        for s in rt.ordered_scopes:
            if not s.is_root:
                p.must(r.fields.get(s.resolver_attr_name) is MR, "root", f"reference of the root to level {s.scope_level}")
        if rt.uses_stateless_scope_reuse:
            for l in levels[1:]:
                o = r.fields.get(f"_scope_resolver_{l}")
                p.must(isinstance(o, Obj) and o.cls is rt.class_by_level[l], "root", f"shared scope of level {l}: {o!r}")
                p.must(o.fields["_root_resolver"] is r and o.fields["_context"] is None and o.fields["_parent_context_resolver"] is None
                       and o.fields["_owned_scope_resolvers"] == (), "root", f"shared scope of level {l} is not neutral")
                if rt.has_cleanup:
                    p.must(o.fields["_cleanup_callbacks"] == [] and o.fields["_cleanup_enabled"] is (en if given else True), "root", f"cleanup of the shared scope {l}")
    return setup


class AnyBase:
    def enter_scope(self, scope=None, *, context=None):
        raise AssertionError


def go_wrapper(lad, levels, skips, cur):
    """the open-generic wrapper on any base resolver"""
    def setup(p):
        import diwire._internal.open_generics as og
        log = []

        def base(name):
            o = Obj(AnyBase, name, lazy=strict(name))
            o.fields["_cleanup_enabled"] = True

            def enter(p, a, k):
                b = base(f"base{len(log)}")
                log.append((o, (a[0] if a else k.get("scope")), dict(k), b))
                if p.choose(2, "the base scope cannot be opened") == 1:
                    self_exc.append(p.exc("base"))
                    raise PyRaise(self_exc[0])
                return b
            v = p.fresh("enter_scope")
            v.on_call = enter
            o.fields["enter_scope"] = v
            return o
        self_exc = []
        reg = Obj(og.OpenGenericRegistry, "registry", lazy=strict("registry"))
        root_scope = getattr(lad, nm(levels[0]))

        def wrapper(level, parent, root):
            w = Obj(og.OpenGenericResolver, f"wrapper{level}", lazy=strict("wrapper"))
            w.fields.update(_base_resolver=base("base"), _registry=reg, _root_scope=root_scope, _has_async_specs=has_async, _scope_level=level,
                            _parent_wrapper=parent, _cache={}, _thread_locks={}, _async_locks={}, _cleanup_callbacks=[], _cleanup_enabled=True, _owned_scope_wrappers=())
            w.fields["_root_wrapper"] = root or w
            return w
        has_async = p.choose(2, "asynchronous templates") == 1
        root = wrapper(levels[0], None, None)
        me, anc = root, [root]
        if cur != levels[0]:
            me = wrapper(cur, root, root)
            anc.append(me)
        ctx = [None, {}, {A: object()}][p.choose(3, "context none / empty / given")]
        t, kind = target_of(p, lad, levels)
        before = [(o, dict(o.fields)) for o in anc]
        n0 = len(p.created)
        k, r = outcome(p, lambda: p.call(BM(og.OpenGenericResolver.enter_scope, me), [t] if t is not None else [], {"context": ctx} if ctx is not None else {}), False)
        if k == "raise" and isinstance(r, Exc) and r.cls is AttributeError:
            raise Unsupported(f"attribute {r.args} of an abstract scope")
        for o, f in before:
            p.must(set(o.fields) == set(f) and all(o.fields[x] is f[x] for x in f), "frame", f"{o!r} was written while a scope was entered")
        lv = decided(p, t, kind, levels)
        want = spec(levels, skips, cur, lv)
        made = [x for x in p.created[n0:] if x.cls is og.OpenGenericResolver]
        if want == "either":
            p.must(k == "ok" and r is me or k == "raise" and r.cls is X.DIWireScopeMismatchError, "self", f"entering the deepest level again gives {k} {r!r}")
            return
        if want == "error":
            p.must(k == "raise" and isinstance(r, Exc) and r.cls is X.DIWireScopeMismatchError, "error", f"target {lv} from level {cur}: {k} {r!r}")
            p.must(not log and not made, "frame", "base scopes are opened although the entry is refused")
            return
        if want == "self":
            p.must(k == "ok" and r is me and not log, "self", f"entering the current level gives {k} {r!r}")
            return
        if self_exc:
            p.must(k == "raise" and r is self_exc[0], "error", f"an error of the generated resolver became {k} {r!r}")
            return
        p.must(k == "ok" and isinstance(r, Obj), "target", f"target {lv} from level {cur}: {k} {r!r}")
        p.must(len(made) == len(want) and made[-1] is r, "target", f"{len(made)} wrappers were opened, expected levels {want}")
        p.must([getattr(e[1], "level", e[1]) for e in log] == want, "target", f"base scopes entered: {[e[1] for e in log]}, expected {want}")
        parent = me
        lists = [o.fields[n] for o in anc for n in ("_cache", "_thread_locks", "_async_locks", "_cleanup_callbacks")]
        for i, (o, l, e) in enumerate(zip(made, want, log)):
            F = o.fields
            last = i == len(want) - 1
            p.must(e[0] is parent.fields["_base_resolver"] and F.get("_base_resolver") is e[3], "chain", f"the base of the wrapper at level {l} is not the base scope opened for it")
            p.must(e[2].get("context") is (ctx if last else None), "context", f"context {e[2].get('context')!r} at level {l}")
            p.must(F.get("_scope_level") == l, "target", f"wrapper level {F['_scope_level']}, expected {l}")
            p.must(F.get("_parent_wrapper") is parent and F.get("_root_wrapper") is root, "chain", f"parent or root of the wrapper at level {l}")
            p.must(F.get("_registry") is reg and F.get("_root_scope") is root_scope and F.get("_has_async_specs") is has_async, "chain", f"the wrapper at level {l} forgets the registry or its settings")
            p.must(F.get("_cleanup_enabled") is True, "fresh", "cleanup switch")
            for n in ("_cache", "_thread_locks", "_async_locks", "_cleanup_callbacks"):
                v = F.get(n)
                p.must(type(v) in (dict, list) and not v and not any(v is x for x in lists), "fresh", f"{n} of the wrapper at level {l} is not new and empty")
                lists.append(v)
            ow = F.get("_owned_scope_wrappers")
            exp = made[:-1] if last else []
            p.must(isinstance(ow, tuple) and len(ow) == len(exp) and all(a is b for a, b in zip(ow, exp)), "fresh", f"implicitly opened scopes owned: {ow}")
            parent = o
    return setup


def go_wrapper_root(lad, levels):
    def setup(p):
        import diwire._internal.open_generics as og
        b = Obj(AnyBase, "base", lazy=lambda p, o, n: (_ for _ in ()).throw(PyRaise(Exc(AttributeError, (n,)))))
        en = [None, True, False][p.choose(3, "cleanup of the base: none / on / off")]
        if en is not None:
            b.fields["_cleanup_enabled"] = en
        reg = Obj(og.OpenGenericRegistry, "registry", lazy=strict("registry"))
        asy = p.choose(2, "asynchronous templates") == 1
        root_scope = getattr(lad, nm(levels[0]))
        w = p.call(og.OpenGenericResolver, [], dict(base_resolver=b, registry=reg, root_scope=root_scope, has_async_specs=asy, scope_level=levels[0]))
        F = w.fields
        p.must(F.get("_root_wrapper") is w and F.get("_parent_wrapper") is None and F.get("_base_resolver") is b and F.get("_registry") is reg
               and F.get("_root_scope") is root_scope and F.get("_has_async_specs") is asy and F.get("_scope_level") == levels[0], "root", f"the root wrapper: {F}")
        p.must(F.get("_cleanup_enabled") is (en is not False) and F.get("_owned_scope_wrappers") == () and F.get("_cache") == {} and F.get("_cleanup_callbacks") == []
               and F.get("_thread_locks") == {} and F.get("_async_locks") == {}, "root", f"the root wrapper is not empty: {F}")
    return setup


def ladders(kmax):
    out = []
    for k in range(0, kmax + 1):
        levels = (2, 3, 5, 6, 9, 10, 14)[:k + 1]
        for sk in itertools.product((False, True), repeat=k):
            out.append((levels, (False,) + sk))
    return out


CACHE = {}


def units(tier, seed, opts):
    us = []
    for levels, skips in ladders(opts.get("k") or (3 if tier == "quick" else 5)):
        for v in VARIANTS[:4]:
            us.append(("emitted", levels, skips, v))
        us.append(("wrapper", levels, skips, "generic"))
    us.sort(key=lambda u: -len(u[1]))
    return us


def run(u, deadline, col):
    kind, levels, skips, variant = u
    lad = make_ladder(levels, skips)
    eng = Engine()
    try:
        if kind == "emitted":
            key = (levels, skips, variant)
            CACHE[key] = classes(lad, levels, variant)
            col.program(lambda: dict(levels=levels, skippable=skips, graph=variant))
            rep = lambda: replay_ladder(levels, skips, variant)
            r = eng.explore(go_root(lad, levels, skips, variant), deadline=deadline)
            col.result(f"root of ladder {levels} skippable {skips} {variant}", r, rep)
            for cur in levels:
                r = eng.explore(go_emitted(lad, levels, skips, variant, cur), deadline=deadline)
                col.result(f"enter_scope from level {cur} of ladder {levels} skippable {skips} {variant}", r, rep)
        else:
            if len(levels) == 1:
                col.result("root open-generic wrapper", eng.explore(go_wrapper_root(lad, levels), deadline=deadline))
            for cur in levels:
                r = eng.explore(go_wrapper(lad, levels, skips, cur), deadline=deadline)
                col.result(f"open-generic enter_scope from level {cur} of ladder {levels} skippable {skips}", r,
                           lambda: replay_ladder(levels, skips, "generic") or replay_ladder(levels, skips, "generic-cleanup"))
    finally:
        col.engine(eng)


def replay_ladder(levels, skips, variant):
    from . import ladder
    return ladder.exhaust(levels, skips, variant)
