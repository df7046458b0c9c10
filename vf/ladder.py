"""Scope entry on arbitrary ladders (C03): random walks over scope trees of any size and any skippable pattern, on every kind of graph,
against the transition rule. The level and the ancestors of a scope are observed through one SCOPED marker per level, its context through
FromContext, the implicitly opened scopes through the order in which their resources are closed. Bounded stand-in."""
from __future__ import annotations
import random
from . import lab
from .lab import Diverge, X, Container, MissingPolicy, DependencyRegistrationPolicy, Lifetime
from .c_scopes import make_ladder, nm, spec
from diwire import FromContext
from typing import Generic, TypeVar

T = TypeVar("T")
LBASE = dict(k=(0, 6), steps=(4, 22), variants=["stateless", "stateless-cleanup", "scoped", "scoped-cleanup", "generic", "generic-cleanup", "generic-stateless"])


class Ctx:
    pass


class Mark:
    def __init__(self, level):
        self.level = level


class MS:
    def __init__(self, real, level, parent, ctx):
        self.real, self.level, self.parent, self.ctx = real, level, parent, ctx
        self.owned, self.closed = [], False
        self.opened = []          # resources opened here, in order
        self.mark = None

    def at(self, l):
        s = self
        while s is not None and s.level != l:
            s = s.parent
        return s

    def context(self):
        s = self
        while s is not None:
            if s.ctx is not None:
                return s.ctx
            s = s.parent
        return None


class Sim:
    def __init__(self, rng, levels, skips, variant):
        self.rng, self.levels, self.skips, self.variant = rng, levels, skips, variant
        self.log = [f"ladder {levels} skippable {skips} graph {variant}"]
        order = list(range(len(levels)))
        rng.shuffle(order)
        self.lad = make_ladder([levels[i] for i in order], [skips[i] for i in order])
        root = getattr(self.lad, nm(levels[0]))
        c = Container(root_scope=root, missing_policy=MissingPolicy.ERROR, dependency_registration_policy=DependencyRegistrationPolicy.IGNORE, use_resolver_context=False)
        self.keys, self.events = {}, []
        stateless = "stateless" in variant
        for l in levels[:1] if stateless else levels:
            K = type(f"K{l}", (), {})
            self.keys[l] = K
            sc = getattr(self.lad, nm(l))
            if "cleanup" in variant:
                def g(l=l, K=K):
                    o = K()
                    try:
                        yield o
                    finally:
                        self.events.append((l, o))
                c.add_generator(g, provides=K, scope=sc, lifetime=Lifetime.SCOPED)
            else:
                c.add_factory(lambda K=K: K(), provides=K, scope=sc, lifetime=Lifetime.SCOPED)
        self.G = None
        if variant.startswith("generic"):
            class G(Generic[T]):
                pass
            self.G = G
            c.add(G, provides=G[T], scope=root if stateless else getattr(self.lad, nm(levels[-1])), lifetime=Lifetime.TRANSIENT)
        self.c = c
        self.root = MS(c.compile() if rng.random() < .5 else c, levels[0], None, None)
        self.scopes = [self.root]

    def enter(self, s, t, ctx):
        """t: None, ('obj', level) or ('int', n)"""
        lv = None if t is None else t[1]
        want = spec(self.levels, self.skips, s.level, lv)
        arg = None if t is None else getattr(self.lad, nm(lv)) if t[0] == "obj" else lv
        self.log.append(f"enter {self.scopes.index(s)}@{s.level} target {t} context {ctx is not None} -> {want}")
        kw = {} if ctx is None else {"context": {Ctx: ctx}}
        try:
            r = s.real.enter_scope(arg, **kw) if arg is not None else s.real.enter_scope(**kw)
        except X.DIWireScopeMismatchError as e:
            if want in ("error", "either"):
                return
            raise Diverge("enter", f"entering {t} from level {s.level} is refused ({e}), expected {want}")
        if want == "error":
            raise Diverge("enter", f"entering {t} from level {s.level} is accepted, a DIWireScopeMismatchError is due")
        if want == "self" or want == "either":
            if r is not s.real and not (s is self.root and s.real is self.c):
                raise Diverge("enter", f"entering the current level {s.level} gives another object")
            return
        chain, cur = [], s
        for i, l in enumerate(want):
            cur = MS(r if i == len(want) - 1 else None, l, cur, ctx if i == len(want) - 1 else None)
            chain.append(cur)
        cur.owned = chain[:-1]
        self.scopes.append(cur)
        self.probe(cur)

    def probe(self, s):
        for l, K in self.keys.items():
            o = s.at(l)
            try:
                v = s.real.resolve(K)
            except X.DIWireScopeMismatchError:
                if o is None:
                    continue
                raise Diverge("ident", f"level {l} is open above the scope at {s.level}, its provider is refused")
            if o is None:
                raise Diverge("ident", f"level {l} is not open above the scope at level {s.level}, yet its provider is resolved")
            if o.mark is None:
                if any(x.mark is v for x in self.all()):
                    raise Diverge("ident", f"level {l} seen from {s.level} is a scope opened elsewhere")
                o.mark = v
                o.opened.append((l, v))
            elif o.mark is not v:
                raise Diverge("ident", f"level {l} seen from {s.level} is not the scope it was opened from")
        try:
            v = s.real.resolve(FromContext[Ctx])
        except X.DIWireDependencyNotRegisteredError:
            v = None
        if v is not s.context():
            raise Diverge("ctx", f"context of the scope at level {s.level}: {v!r}, expected {s.context()!r}")
        if self.G is not None and (len(self.keys) == 1 and len(self.levels) > 1 or s.level == self.levels[-1]):
            if type(s.real.resolve(self.G[int])).__name__ != "G":
                raise Diverge("ident", "open generic")

    def all(self):
        for s in self.scopes:
            yield s
            yield from s.owned

    def close(self, s):
        want = list(reversed(s.opened))
        for o in reversed(s.owned):
            want += reversed(o.opened)
            o.closed = True
        if "cleanup" not in self.variant:
            want = []
        self.events.clear()
        self.log.append(f"close {self.scopes.index(s)}@{s.level}")
        s.real.__exit__(None, None, None)
        s.closed = True
        if self.events != want:
            raise Diverge("fin", f"closing the scope at level {s.level} closes {self.events}, expected {want}")

    def usable(self):
        def ok(s):
            while s is not None:
                if s.closed:
                    return False
                s = s.parent
            return True
        return [s for s in self.scopes if ok(s)]


def walk(sim, n):
    rng, levels = sim.rng, sim.levels
    sim.probe(sim.root)
    for _ in range(n):
        s = rng.choice(sim.usable())
        if s is not sim.root and rng.random() < .2 and all(x.closed or x is s or x.at(s.level) is not s for x in sim.scopes):
            sim.close(s)
            continue
        q = rng.random()
        t = None if q < .3 else ("obj", rng.choice(levels)) if q < .75 else ("int", rng.choice(levels) if rng.random() < .6 else rng.randint(levels[0] - 2, levels[-1] + 2))
        sim.enter(s, t, object() if rng.random() < .3 else None)
        if rng.random() < .3:
            sim.probe(rng.choice(sim.usable()))


def run_case(seed, P=LBASE, stats=None):
    rng = random.Random(seed)
    k = rng.randint(*P["k"])
    levels = sorted(rng.sample(range(16), k + 1))
    if rng.random() < .1:
        levels[0] -= rng.randint(1, 20)      # negative levels below the root: known finding negative-level
    p = rng.choice([0, .3, .6, 1])
    skips = [rng.random() < p for _ in levels]
    sim = Sim(rng, tuple(levels), tuple(skips), rng.choice(P["variants"]))
    try:
        walk(sim, rng.randint(*P["steps"]))
        for s in reversed(sim.usable()):
            if s is not sim.root:
                sim.close(s)
    except Diverge as d:
        return (d.cat, d.msg, sim.log)
    if stats is not None:
        stats["_log"] = sim.log
        stats["steps"] = stats.get("steps", 0) + len(sim.log)
        stats[sim.variant] = stats.get(sim.variant, 0) + 1
    return None


def exhaust(levels, skips, variant, n=400):
    """replay for the contracts: walks on one ladder"""
    for seed in range(n):
        sim = Sim(random.Random(seed), tuple(levels), tuple(skips), variant)
        try:
            walk(sim, 8)
            for s in reversed(sim.usable()):
                if s is not sim.root:
                    sim.close(s)
        except Diverge as d:
            return dict(category=d.cat, message=d.msg, log=sim.log, seed=seed)
    return None
