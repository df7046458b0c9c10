"""Contracts of the registration operations (container.py: add, add_instance, add_factory, add_generator, add_context_manager, decorate and everything
they call, providers.py: ProvidersRegistrations, open_generics.py: OpenGenericRegistry).

requires  the container is in a state reached by one of a fixed family of histories (bounded); the operation's arguments come from a fixed family;
          inspection of providers (extractors, validators, policies, level inference) returns anything or raises anything, at any call
ensures   atomic    : if the operation raises, the registered bindings, decoration rules and chains are what they were
          raises    : the exception of a callee leaves the operation, except a DIWireError of an auto-registered dependency
          binding   : if it returns, its key is bound to the given provider with the given metadata
          chain     : a decorated key resolves through its rules, newest outermost, down to the current base, with the base's lifetime, scope and lock
          frame     : every other binding is what it was
          autoreg   : dependencies are auto-registered exactly as the policy says, and a failed auto-registration leaves nothing behind
          async     : the stored async flags are the ones inspection gave for exactly the stored dependencies
          cleanup   : needs_cleanup is set exactly on providers that own a finaliser or depend on one that does
          invalidate: after a success no compiled state is in use; after a failure the compiled state is the old one or none
          depth     : the nesting depth of mutations is what it was"""
from __future__ import annotations
import inspect
from typing import Annotated, Any, Generic, TypeVar
from .sym import Engine, Obj, Exc, PyRaise, Unsupported, SV
from .c_rcontext import outcome
from . import native
from diwire import (exceptions as X, Scope, Lifetime, DependencyRegistrationPolicy as DP, MissingPolicy, Container, Component, ResolverContext, LockMode)
from diwire._internal.providers import ProviderDependency, ProviderDependenciesExtractor as PDE, ProviderReturnTypeExtractor as PRE, ProviderSpec

ASSUMPTIONS = ["registration operations start from states reached by the listed histories (bounded); provider inspection does not write container state",
               "the fault model of registration operations is one exception per operation, raised by a call that inspects user code or infers levels"]


class K:
    pass


class K2:
    pass


class E:
    pass


class F:
    pass


class Impl(K):
    pass


T = TypeVar("T")


class G(Generic[T]):
    pass


class GImpl(G[T]):
    pass


AK = Annotated[K, Component("k")]


def fac():
    return None


def fac0():
    return None


def gen():
    yield None


def cmf():
    return None


def deco1(inner: K):
    return inner


def deco2(inner: K):
    return inner


def deco3(inner: K):
    return inner


def gdeco1(inner: G[T]) -> G[T]:
    return inner


def gdeco2(inner: G[T]) -> G[T]:
    return inner


def gdeco3(inner: G[T]) -> G[T]:
    return inner


def gfac() -> G[T]:
    return None


def gfac0(value: type[T]) -> G[T]:
    return None


def dep_on_k(k: K):
    return None


def inj(k: K):
    return None


DECO = {"K": [deco1, deco2, deco3], "G": [gdeco1, gdeco2, gdeco3], "AK": [deco1, deco2, deco3]}
KEY = {"K": K, "G": G[T], "AK": AK, "GI": G[int]}
HIST = {
    "empty": [], "bound": ["add"], "decorated": ["add", "deco"], "pending": ["deco"], "pending2": ["deco", "deco"], "decorated2": ["add", "deco", "deco"],
    "pending-bound": ["deco", "deco", "add"], "rebound": ["add", "deco", "add"], "gen-bound": ["gen"], "used": ["dep", "add"], "used-gen": ["gen", "dep"],
    "gen-decorated": ["gen", "deco"], "contract": ["add", "inject"], "contract-decorated": ["add", "deco", "inject"], "other": ["add2"], "other-gen": ["add2", "gen", "dep"],
}


def build(key, hist, policy, compiled, model):
    c = Container(missing_policy=MissingPolicy.ERROR, dependency_registration_policy=policy, resolver_context=ResolverContext(), use_resolver_context=compiled == "ctx",
                  default_lifetime=Lifetime.TRANSIENT)
    entry = {n: getattr(c, n) for n in ("resolve", "aresolve", "enter_scope")}
    n = 0
    for h in HIST[hist]:
        k = KEY[key]
        if h == "add":
            f = gfac0 if key in ("G",) else fac0
            c.add_factory(f, provides=k, scope=Scope.SESSION, lifetime=Lifetime.SCOPED, dependency_registration_policy=DP.IGNORE, lock_mode=LockMode.THREAD)
            model.bind[k] = None
        elif h == "gen":
            c.add_generator(gen, provides=k, scope=Scope.SESSION, lifetime=Lifetime.SCOPED, lock_mode=LockMode.NONE)
            model.bind[k] = None
        elif h == "deco":
            d = DECO[key if key != "GI" else "G"][n]
            n += 1
            c.decorate(decorator=d, provides=k, inner_parameter="inner")
            model.rules.setdefault(k, []).append((d, "inner"))
        elif h == "dep":
            c.add_factory(dep_on_k, provides=K2, dependencies={k: inspect.Parameter("k", inspect.Parameter.POSITIONAL_OR_KEYWORD)}, lifetime=Lifetime.TRANSIENT,
                          dependency_registration_policy=DP.IGNORE)
            model.bind[K2] = None
        elif h == "add2":
            c.add_factory(fac0, provides=K2, scope=Scope.REQUEST, lifetime=Lifetime.TRANSIENT)
            model.bind[K2] = None
        elif h == "inject":
            c._inject_callable(callable_obj=make_injected(k), scope=Scope.ACTION, dependency_registration_policy=DP.IGNORE, auto_open_scope=True)
    if compiled:
        c.compile()
    return c, entry


def make_injected(k):
    from diwire import Injected

    def f(x):
        return x
    f.__annotations__ = {"x": Injected[k]}
    return f


class Model:
    def __init__(self):
        self.bind, self.rules = {}, {}


FIELDS = ("lifetime", "scope", "lock_mode", "is_async", "is_any_dependency_async", "needs_cleanup")
KINDS = ("concrete_type", "factory", "generator", "context_manager")


def deps_of(p, spec):
    d = p.getattr(spec, "dependencies", None)
    if d is None:
        d = [p.getattr(b, "dependency") for b in p.getattr(spec, "bindings")]
    return [(p.getattr(x, "provides"), p.getattr(x, "parameter")) for x in d]


def describe(p, spec):
    """what a registered provider is, whatever class describes it"""
    try:
        kind, prov = p.getattr(spec, "provider_kind"), p.getattr(spec, "provider")
    except PyRaise:
        kind, prov = "instance", p.getattr(spec, "instance")
        for k in KINDS:
            if p.getattr(spec, k) is not None:
                kind, prov = k, p.getattr(spec, k)
    return dict(kind=kind, provider=prov, deps=deps_of(p, spec), **{f: p.getattr(spec, f) for f in FIELDS})


def specs(p, c):
    """key -> description of everything that is registered"""
    out = {}
    for s in p.call(p.getattr(p.getattr(c, "_providers_registrations"), "values"), [], {}):
        out[p.getattr(s, "provides")] = describe(p, s)
    for s in p.call(p.getattr(p.getattr(c, "_open_generic_registry"), "values"), [], {}):
        out[p.getattr(s, "canonical_key")] = describe(p, s)
    return out


def decor(p, c):
    """rules and chains, flattened"""
    rules = {k: [tuple(p.getattr(r, n) for n in ("decorator", "inner_parameter", "dependencies", "is_async")) for r in v]
             for k, v in items(p, p.getattr(c, "_decoration_rules_by_provides"))}
    chains = {k: (p.getattr(v, "base_key"), list(p.shadow(p.getattr(v, "layer_keys")))) for k, v in items(p, p.getattr(c, "_decoration_chain_by_provides"))}
    return {k: v for k, v in rules.items() if v}, chains


def items(p, d):
    return [(k, p.shadow(v)) for k, v in p.shadow(d).items()]


def eq(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(eq(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    if isinstance(a, (SV, Obj)) or isinstance(b, (SV, Obj)):
        return a is b
    return a is b or a == b


def same_map(a, b):
    return set(a) == set(b) and all(eq(a[k], b[k]) for k in a)


def diff(a, b):
    return [f"{k}: {a.get(k)} -> {b.get(k)}" for k in {**a, **b} if not eq(a.get(k), b.get(k))][:4]


class World:
    """opaque inspection of user code, with at most one fault"""

    def __init__(self, p, deps_by_provider):
        self.p, self.deps = p, deps_by_provider
        self.fault, self.asyncs, self.elig, self.isasync, self.levels = None, [], {}, {}, []
        self.seen = {}
        import diwire._internal.container as cm

        def subject(a, k):
            return (list(a) + list(k.values()))[-1]
        for n in ("extract_from_concrete_type", "extract_from_factory", "extract_from_generator", "extract_from_context_manager"):
            self.patch(PDE, n, "extract", subject, self.extract)
        for n in [x for x in vars(PRE) if x.startswith("is_") and x.endswith("_async") and x != "is_any_dependency_async"]:
            self.patch(PRE, n, "is_async", subject, self.flag)
        self.patch(PRE, "is_any_dependency_async", "any_async", lambda a, k: self.owner(subject(a, k)), self.any_async)
        self.patch(cm.DependecyRegistrationValidator, "validate_concrete_type", "validate", subject, lambda s, a, k: None)
        self.patch(cm.ConcreteTypeAutoregistrationPolicy, "is_eligible_concrete", "eligible", subject, self.eligible)
        self.patch(Container, "_infer_injected_scope_level", "level", lambda a, k: "level", self.level)

    def patch(self, cls, name, site, subject, result):
        if hasattr(cls, name):
            self.p.intercept(cls, name, self.handler(site, subject, result))

    def handler(self, site, subject, result):
        def h(p, a, k):
            s = subject(a, k)
            if self.fault is None and s != "nothing" and (site != "eligible" or isinstance(s, type)) and (site, id(s)) not in self.seen:
                self.seen[site, id(s)] = 1
                if self.p.choose(2, f"{site} of {getattr(s, '__name__', s)} raises") == 1:
                    self.fault = (site, s, self.p.exc("fault"))
                    raise PyRaise(self.fault[2])
            elif self.fault is not None and self.fault[0] == site and self.fault[1] is s:
                raise PyRaise(self.fault[2])
            return result(s, a, k)
        return h

    def owner(self, deps):
        d = [self.p.getattr(x, "parameter") for x in deps]
        for k, v in self.deps.items():
            if v and len(v) == len(d) and all(x.parameter is y for x, y in zip(v, d)):
                return k
        return "nothing"

    def extract(self, s, a, k):
        if s not in self.deps:
            raise Unsupported(f"inspection of {s!r}")
        v = self.deps[s]
        return list(v)

    def flag(self, s, a, k):
        if s not in self.isasync:
            self.isasync[s] = self.p.fresh("is_async")
        return self.isasync[s]

    def any_async(self, s, a, k):
        v = self.p.fresh("any_async")
        d = (list(a) + list(k.values()))[-1]
        self.asyncs.append(([(self.p.getattr(x, "provides"), self.p.getattr(x, "parameter")) for x in d], v))
        return v

    def eligible(self, s, a, k):
        if not isinstance(s, type):
            return False       # contract of the policy: only classes are eligible
        if s not in self.elig:
            self.elig[s] = self.p.choose(2, f"{s} may be auto-registered") == 0
        return self.elig[s]

    def level(self, s, a, k):
        if not self.levels:
            self.levels.append(self.p.choose(2, "an injected callable got deeper than its contract"))
        return [1, 9][self.levels[0]]


def P(n):
    return inspect.Parameter(n, inspect.Parameter.KEYWORD_ONLY)


PE, PF, PK, PI, PT = P("e"), P("f"), P("k2"), P("inner"), P("value")

# name -> (method, kind, provider by key)
OPS = {
    "add": ("add", "concrete_type", dict(G=GImpl)), "instance": ("add_instance", "instance", {}), "factory": ("add_factory", "factory", {}),
    "generator": ("add_generator", "generator", {}), "context": ("add_context_manager", "context_manager", {}), "decorate": ("decorate", None, {}),
}


# dependencies of the provider, dependencies of the auto-registered E, scope and lifetime given, policy given
VARIANTS = [(0, 0, False, None), (2, 0, False, None), (1, 1, True, DP.REGISTER_RECURSIVE), (1, 0, True, DP.IGNORE), (2, 0, True, None)]
ALL = [(n, e, o, x) for n in range(3) for e in range(2) if n or not e for o in (False, True) for x in ((None, DP.IGNORE, DP.REGISTER_RECURSIVE) if o else (None,))]


def go(key, hist, op, policy, compiled, opts):
    def setup(p):
        m = Model()
        c, entry = build(key, hist, policy, compiled, m)
        k = KEY[key]
        nk = k if key != "GI" else k
        kind = OPS[op][1]
        prov = {"add": GImpl if key in ("G", "GI") else Impl, "instance": object(), "factory": fac, "generator": gen, "context": cmf,
                "decorate": DECO["G" if key == "GI" else key][len(m.rules.get(k, []))]}[op]
        own_ok = op not in ("instance", "decorate")
        vs = [v for v in (VARIANTS if opts["quick"] else ALL) if own_ok or not v[2]]
        nd, ned, own, pol = vs[p.choose(len(vs), "dependencies, own metadata, policy")] if op != "instance" else (0, 0, False, None)
        top = [[], [ProviderDependency(provides=E, parameter=PE)], [ProviderDependency(provides=E, parameter=PE), ProviderDependency(provides=K2, parameter=PK)]][nd]
        ed = [ProviderDependency(provides=F, parameter=PF)] if ned else []
        tv = key == "GI" and op == "add" and p.choose(2, "a parameter takes the type argument") == 1
        tvd = [ProviderDependency(provides=[T, type[T]][nd % 2], parameter=PT)] if tv else []
        inner = ProviderDependency(provides=k, parameter=PI)
        deps = {prov: [*tvd, *top] if op != "decorate" else [inner, *top], E: ed, F: [], K2: [], K: []} if op != "instance" else {E: [], F: []}
        w = World(p, deps)
        for r in m.rules.values():
            for d, _ in r:
                deps.setdefault(d, [inner])
        before, dbefore = specs(p, c), decor(p, c)
        root0, ent0 = p.getattr(c, "_root_resolver"), [p.getattr(c, n) for n in entry]
        depth0 = p.getattr(c, "_registration_mutation_depth", 0)
        args, kw = ([prov], dict(provides=k)) if op != "decorate" else ([], dict(provides=k, decorator=prov))
        if own:
            kw.update(scope=Scope.REQUEST, lifetime=Lifetime.SCOPED, lock_mode=LockMode.NONE)
            if pol is not None:
                kw["dependency_registration_policy"] = pol
        pol = policy if pol is None else pol
        if op == "decorate" and p.choose(2, "inner_parameter is given") == 0:
            kw["inner_parameter"] = "inner"
        kk, r = outcome(p, lambda: p.call(p.getattr(c, OPS[op][0]), args, kw), False)
        p.must(kk in ("ok", "raise"), "raises", f"outcome {kk}")
        after, dafter = specs(p, c), decor(p, c)
        p.must(p.getattr(c, "_registration_mutation_depth", 0) == depth0, "depth", "the mutation depth changed")
        flt = w.fault
        root = p.getattr(c, "_root_resolver")
        restored = all(same_entry(p, p.getattr(c, n), v) for n, v in entry.items())
        # ------------------------------------------------------------------ expected outcome
        nested = flt is not None and flt[1] in (E, F, K2) and flt[1] is not prov
        swallowed = nested and flt[2].known.get(X.DIWireError) is True
        contract = "contract" in hist
        too_deep = contract and w.levels == [1]
        fails = flt is not None and not swallowed or too_deep
        if fails:
            p.must(kk == "raise", "raises", f"{flt[:2] if flt else 'the contract of an injected callable'} is swallowed")
            p.must(same_map(before, after), "atomic", f"a failed {op} changed the bindings: {diff(before, after)}")
            p.must(same_map(dbefore[0], dafter[0]) and same_map(dbefore[1], dafter[1]), "atomic", "a failed operation changed the decoration rules or chains")
            old = root is root0 and all(same_entry(p, p.getattr(c, n), v) for n, v in zip(entry, ent0))
            p.must(old or root is None and restored, "invalidate", "after a failure the compiled state is neither the old one nor discarded")
            return
        if kk == "raise":
            if op == "decorate" and flt is None and decorate_may_fail(p, kw, deps[prov], k):
                p.must(same_map(before, after) and same_map(dbefore[0], dafter[0]), "atomic", "a rejected decorator changed the state")
                return
            p.must(False, "raises", f"{op} raises {r!r} without a reason")
        changed = not same_map(before, after) or op != "decorate"
        p.must(root is None and restored or not changed, "invalidate", "compiled state stays in use after a registration")
        expect(p, c, w, m, before, after, k, op, kind, prov, own, pol, policy, deps, top, kw, tv)
    return setup


def decorate_may_fail(p, kw, deps, k):
    n = [d for d in deps if d.provides == k]
    return "inner_parameter" not in kw and len(n) != 1


def same_entry(p, a, b):
    if a is b:
        return True
    fa, fb = getattr(a, "__func__", getattr(a, "func", None)), getattr(b, "__func__", getattr(b, "func", None))
    sa, sb = getattr(a, "__self__", getattr(a, "self_", None)), getattr(b, "__self__", getattr(b, "self_", None))
    return fa is not None and fa is fb and sa is sb


def expect(p, c, w, m, before, after, k, op, kind, prov, own, pol, cpol, deps, top, kw, tv=False):
    chains0 = decor(p, c)[1]
    aliases = set()
    autoreg = {}
    isdec = op == "decorate"
    rules = {x: list(v) for x, v in m.rules.items()}
    if isdec:
        rules.setdefault(k, []).append((prov, "inner"))
    bound = set(m.bind) | ({k} if not isdec else set())
    scope = kw.get("scope", Scope.APP)
    life = kw.get("lifetime", Lifetime.TRANSIENT)
    lock = kw.get("lock_mode", "auto")
    if op == "instance":
        lock = LockMode.NONE
    fault_at = w.fault[1] if w.fault else None

    def auto(ds, scope, life, pol):
        if pol is DP.IGNORE:
            return
        for d in ds:
            x = d.provides
            if x in bound or x in autoreg or x == k or x not in (E, F, K2):
                continue
            if fault_at is x or not w.elig.setdefault(x, True):     # never asked: eligible
                continue
            autoreg[x] = (scope, life)
            auto(deps[x], scope, life, DP.REGISTER_RECURSIVE)

    # the base binding and its layers
    base_desc = None
    for kk in sorted(bound | set(rules), key=repr):
        cur, rl = kk, rules.get(kk, [])
        layers = []
        if kk not in bound:
            p.must(kk not in after, "chain", f"{kk} has decorators but no binding, yet it is registered")
            continue
        for d, inner in reversed(rl):
            s = after.get(cur)
            p.must(s is not None and s["kind"] == "factory" and s["provider"] is d, "chain", f"the layer at {cur} of {kk} is {s}, not decorator {d.__name__}")
            nxt = [x for x, par in s["deps"] if par.name == inner]
            p.must(len(nxt) == 1, "chain", f"the decorator {d.__name__} gets {len(nxt)} inner values")
            rest = [(x, par) for x, par in s["deps"] if par.name != inner]
            want = [(x.provides, x.parameter) for x in deps[d] if x.parameter.name != inner] if d in deps else rest
            p.must(eq(rest, want), "chain", f"other dependencies of decorator {d.__name__} are {rest}")
            layers.append((cur, d, s))
            if cur != kk:
                p.must(cur not in aliases, "chain", "two layers share a key")
                aliases.add(cur)
            cur = nxt[0]
        if rl:
            p.must(cur != kk and cur not in aliases, "chain", f"the base of {kk} is one of its layers")
            aliases.add(cur)
        b = after.get(cur)
        p.must(b is not None, "binding", f"{kk} is not registered")
        if kk == k and not isdec:
            p.must(b["kind"] == kind and b["provider"] is prov or tv and b["kind"] == "factory", "binding", f"{kk} is bound to {b['kind']} {b['provider']!r}")
            p.must(b["scope"] is scope and b["lifetime"] is life and b["lock_mode"] is lock or b["lock_mode"] == lock and b["scope"] is scope and b["lifetime"] is life,
                   "binding", f"metadata of {kk}: {b['scope']} {b['lifetime']} {b['lock_mode']}; expected {scope} {life} {lock}")
            p.must(eq(b["deps"], [(x.provides, x.parameter) for x in (top if op != "instance" else [])]), "binding", f"dependencies of {kk}: {b['deps']}")
            if op in ("add", "instance"):
                p.must(b["is_async"] is False, "async", f"{kk} is async")
            else:
                p.must(b["is_async"] is w.isasync.get(prov), "async", f"async flag of {kk}")
            if op == "instance":
                p.must(b["is_any_dependency_async"] is False, "async", "an instance depends on something async")
            else:
                p.must(from_inspection(w, b), "async", f"async dependency flag of {kk} does not come from its dependencies")
        else:
            old = base_before(p, before, m, kk)
            b2 = {x: v for x, v in b.items() if x != "needs_cleanup"}
            o2 = {x: v for x, v in old.items() if x != "needs_cleanup"}
            p.must(eq(b2, o2), "frame", f"the base binding of {kk} changed: {old} -> {b}")
        for cur, d, s in layers:
            p.must(s["lifetime"] is b["lifetime"] and s["scope"] is b["scope"] and eq(s["lock_mode"], b["lock_mode"]), "chain",
                   f"layer {d.__name__} of {kk}: {s['lifetime']} {s['scope']} {s['lock_mode']} instead of the base's {b['lifetime']} {b['scope']} {b['lock_mode']}")
            if d in deps and kk == k:
                p.must(from_inspection(w, s), "async", f"async dependency flag of layer {d.__name__}")
            if isdec and d is prov:
                p.must(s["is_async"] is w.isasync.get(prov), "async", f"async flag of decorator {d.__name__}")
        if kk == k:
            if not isdec and op != "instance":
                auto(top, scope, life, pol)
            for cur, d, s in reversed(layers):
                auto([x for x in deps.get(d, []) if x.parameter.name != "inner"], b["scope"], b["lifetime"], cpol)
    for x, (sc, li) in autoreg.items():
        s = after.get(x)
        p.must(s is not None and s["kind"] == "concrete_type" and s["provider"] is x and s["scope"] is sc and s["lifetime"] is li, "autoreg",
               f"{x.__name__} is {s}, expected auto-registered at {sc} {li}")
    extra = [x for x in after if x not in bound and x not in aliases and x not in autoreg]
    p.must(not extra, "frame", f"unexpected bindings {extra}")
    lost = [x for x in before if x not in after and x not in aliases and x in bound]
    p.must(not lost, "frame", f"lost bindings {lost}")
    cleanup(p, after)


def from_inspection(w, s):
    return any(v is s["is_any_dependency_async"] and eq(d, s["deps"]) for d, v in w.asyncs)


def base_before(p, before, m, kk):
    cur = kk
    for d, inner in reversed(m.rules.get(kk, [])):
        s = before[cur]
        cur = [x for x, par in s["deps"] if par.name == inner][0]
    return before[cur]


def cleanup(p, after):
    """needs_cleanup is the least solution of: own finaliser, or a registered dependency needs cleanup"""
    plain = {k: s for k, s in after.items() if not open_key(k)}
    if cyclic(plain):
        return
    need = {k: s["kind"] in ("generator", "context_manager") for k, s in plain.items()}
    while True:
        new = {k: need[k] or any(need.get(d, False) for d, _ in s["deps"] if hashable(d)) for k, s in plain.items()}
        if new == need:
            break
        need = new
    for k, s in plain.items():
        p.must(s["needs_cleanup"] is need[k], "cleanup", f"needs_cleanup of {k} is {s['needs_cleanup']}, its graph says {need[k]}")


def cyclic(plain):
    left = {k: {d for d, _ in s["deps"] if hashable(d) and d in plain} for k, s in plain.items()}
    while left:
        free = [k for k, d in left.items() if not d & set(left)]
        if not free:
            return True
        for k in free:
            del left[k]
    return False


def open_key(k):
    from diwire._internal.open_generics import canonicalize_open_key
    return canonicalize_open_key(k) is not None


def hashable(k):
    try:
        hash(k)
        return True
    except TypeError:
        return False


def units(tier, seed, opts):
    out, n = [], 0
    for key in opts.get("keys", ("K", "AK", "G", "GI")):
        for hist in opts.get("hists", HIST):
            if key in ("G", "GI") and ("gen" in hist or "used" in hist or "contract" in hist):
                continue
            for op in OPS:
                if op == "instance" and key in ("G", "GI"):
                    continue
                n += 1
                for policy in ((DP.IGNORE, DP.REGISTER_RECURSIVE) if tier != "quick" else ([DP.IGNORE, DP.REGISTER_RECURSIVE][(n + seed) % 2],)):
                    for compiled in ((False, "bare", "ctx") if tier != "quick" else (["bare", "ctx"][n % 2],)):
                        if op in opts.get("ops", OPS):
                            out.append((key, hist, op, policy.name, compiled, tier == "quick"))
    return out[::opts.get("every", 1)]


def run(u, deadline, col):
    key, hist, op, policy, compiled, quick = u
    eng = Engine()
    r = eng.explore(go(key, hist, op, DP[policy], compiled, dict(quick=quick)), deadline=deadline)

    def replay():
        return native.replay(go(key, hist, op, DP[policy], compiled, dict(quick=quick)), r,
                             [f"history of {key}: {HIST[hist]}, compiled: {compiled}, container policy {policy}", f"operation: {op}"])
    col.result(f"{op} of {key} after history {hist}, policy {policy}, compiled {compiled}", r, replay)
    col.engine(eng)
