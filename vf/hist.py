"""Registration histories: add / decorate / failing calls / policies / inject, interleaved with resolutions.

Every mutation is mirrored in a small abstract registry (key -> newest base registration, decorator list);
after each step the real container must behave like a container freshly described by that registry.
Bounded stand-in: samples histories from a seed.
"""
from __future__ import annotations
import abc, copy, decimal, inspect, random, types
from typing import Annotated, Any
from . import refmodel as R, lab
from .lab import (Sim, World, Diverge, Stop, Prod, DFLT, LEVELS, SYNC, ASYNC, Fault, pick, run, err_kind, describe,
                  Container, Component, Injected, Maybe, Scope, Lifetime, LockMode, MissingPolicy,
                  DependencyRegistrationPolicy, X)
from .refmodel import Dep, Node, Graph, Model, MErr, MObj

KINDS = ["plain", "plain", "deps", "deps", "abstract", "value", "bad"]

HBASE = dict(lab.BASE, n=(0, 0), ntypes=(3, 6), steps=(10, 30), p_async=.15, p_fault=0, p_fin=0, p_swallow=0, p_lock=.3, p_perm=.15,
             roots=[(1, 8), (3, 1)], levels=[(1, 8), (3, 3), (5, 1)], monotone=.85, p_comp=.3,
             ndeps=[(0, 3), (1, 4), (2, 2), (3, 1)], pkinds=[("PK", 8), ("KO", 2), ("PO", 1)],
             wraps=[("plain", 10), ("maybe", 2), ("all", 2), ("prov", 1), ("aprov", .7), ("ctx", .4), ("none", .5)],
             dwraps=[("plain", 8), ("maybe", 1.5), ("all", 2), ("prov", 1), ("aprov", .5)],
             hops=[("add", 6), ("decorate", 2), ("fail", 2), ("resolve", 5), ("enter", 1), ("compile", 1), ("inject", .7),
                   ("call", 1), ("probe", 1.5), ("handle", .7)],
             policies=[("E", 5), ("RR", 1), ("R", 3)], p_ctxuse=.5, p_deps_missing=.15, p_onmissing=.25, p_evil=.35, p_og=.2)


class HGraph(Graph):
    def __init__(self, levels):
        super().__init__([], levels)
        self.bind = {}        # key -> base node id, in order of latest registration
        self.decos = {}       # key -> [rule node ids]
        self.alias = 0

    def snap(self):
        return dict(self.bind), {k: list(v) for k, v in self.decos.items()}

    def restore(self, s):
        self.bind, self.decos = dict(s[0]), {k: list(v) for k, v in s[1].items()}

    def derive(self):
        self.by_key, self.order, self._async, self._max = {}, [], {}, {}
        for key, nid in self.bind.items():
            rules = self.decos.get(key)
            base = self.nodes[nid]
            if not rules:
                base.key = key
                self.by_key[key] = nid
                self.order.append(nid)
                continue
            prev = (f"alias{key}", None)
            base.key = prev
            self.by_key[prev] = nid
            self.order.append(nid)
            for j, rid in enumerate(rules):
                r = self.nodes[rid]
                r.key = key if j == len(rules) - 1 else (f"alias{key}.{j}", None)
                r.level = base.level
                r.life = base.life if base.kind != "instance" else self.default_life
                next(d for d in r.deps if d.name == r.inner).key = prev
                self.by_key[r.key] = rid
                self.order.append(rid)
                prev = r.key
        # All order: by newest registration of the public key
        pub = [self.by_key[k] for k in self.bind]
        self.order = [i for i in self.order if i not in pub] + pub

    def all_of(self, key):
        return [i for i in self.order if self.nodes[i].key[0] == key[0]]

    def infer_level(self, dep, root, seen=None):
        """deepest level reachable from an injected dependency (through handles as well)"""
        seen = set() if seen is None else seen
        if dep.wrap in ("ctx", "none", "maybectx"):
            return root
        ids = self.all_of(dep.key) if dep.wrap == "all" else [self.by_key[dep.key]] if dep.key in self.by_key else []
        m = root
        for i in ids:
            if i in seen:
                continue
            seen.add(i)
            m = max(m, self.nodes[i].level, *[self.infer_level(d, root, seen) for d in self.nodes[i].deps] or [0])
        return m


class HWorld(World):
    def __init__(self, graph, kinds, rng, **kw):
        self.kinds = kinds
        self.class_deps = {}
        self.rng = rng
        self.auto_node = {}
        super().__init__(graph, **kw)

    def base(self, key):
        t = key[0]
        if t == "ctx" or t in self.types or not isinstance(t, int) or t >= len(self.kinds):
            return super().base(key)
        kind = self.kinds[t]
        ns = {"W": self, "__name__": "scn"}
        if kind == "abstract":
            self.types[t] = abc.ABCMeta(f"T{t}", (), {"m": abc.abstractmethod(lambda self: None)})
        elif kind == "value":
            self.types[t] = type(f"T{t}", (decimal.Decimal,), {})
        else:
            deps = self.class_deps.get(t, [])
            sig = self.signature(types.SimpleNamespace(deps=deps), ns)
            if kind == "bad":
                sig = "zz" + (", " + sig if sig else "")
            args = "{" + ", ".join(f"{d.name!r}: {d.name}" for d in deps) + "}"
            ns.update(Prod=Prod, _DFLT=DFLT)
            exec(f"class C(Prod):\n    def __init__(self{', ' + sig if sig else ''}):\n"
                 f"        W.ctl.construct(W.auto_node[{t}], {args}, self)\n", ns)
            ns["C"].__name__ = f"T{t}"
            self.types[t] = ns["C"]
        return self.types[t]


class Evil(type):
    """a dependency key whose hashing fails at a chosen moment"""
    countdown = 0
    exc = KeyboardInterrupt

    def __hash__(cls):
        if Evil.countdown > 0:
            Evil.countdown -= 1
            if Evil.countdown == 0:
                raise Evil.exc("armed")
        return type.__hash__(cls)


class Proxy:
    """scope #0 of a history: always goes through the container's own entry points"""
    def __init__(self, sim):
        self.sim = sim
        self.kw = {}

    def resolve(self, ann):
        return self.sim.w.container.resolve(ann, **self.kw)

    async def aresolve(self, ann):
        return await self.sim.w.container.aresolve(ann, **self.kw)

    def enter_scope(self, t=None, *, context=None):
        return self.sim.w.container.enter_scope(t, context=context)


class HSim(Sim):
    def __init__(self, rng, P):
        self.rng, self.P = rng, P
        self.log = []
        self.findings = set()
        root = pick(rng, P["roots"])
        self.rootl = root
        g = HGraph([(l, l == 2) for l in (1, 2, 3, 4, 5) if l >= root])
        pols = {"E": (MissingPolicy.ERROR, DependencyRegistrationPolicy.IGNORE),
                "RR": (MissingPolicy.REGISTER_ROOT, DependencyRegistrationPolicy.IGNORE),
                "R": (MissingPolicy.REGISTER_RECURSIVE, DependencyRegistrationPolicy.REGISTER_RECURSIVE),
                "X": (MissingPolicy.ERROR, DependencyRegistrationPolicy.REGISTER_RECURSIVE)}
        self.pol = pols[pick(rng, P["policies"])]
        g.default_life = "S" if rng.random() < .8 else "T"
        self.ctxuse = rng.random() < P["p_ctxuse"]
        self.nt = rng.randint(*P["ntypes"])
        kinds = [rng.choice(KINDS) for _ in range(self.nt)]
        w = HWorld.__new__(HWorld)
        w.class_deps = {}
        self.g = g
        for t, k in enumerate(kinds):
            if k == "deps" and t:
                w.class_deps[t] = self.rand_deps(t, auto=True)
        cd = w.class_deps
        HWorld.__init__(w, g, kinds, rng, root_level=root, ctx=self.ctxuse, policies=self.pol, og=rng.random() < P["p_og"],
                        default_life=Lifetime.SCOPED if g.default_life == "S" else Lifetime.TRANSIENT,
                        noise=random.Random(rng.random()))
        w.class_deps = cd
        self.w = w
        self.kinds = kinds
        self.contracts, self.keep = [], []
        self.injected = []
        self.strict_rebound = self.pol[0] is MissingPolicy.ERROR and not self.ctxuse
        self.proxy = Proxy(self)
        self.old_root = None
        self.evil = Evil("EvilKey", (), {})
        w.container.add_instance(self.evil(), provides=self.evil)
        self.epoch("start")

    # --- state
    def epoch(self, why):
        self.g.derive()
        self.m = Model(self.g, self.rootl)
        self.bound, self.handles = {}, []
        self.scopes = [(self.proxy, self.m.root)]
        self.real_root = self.w.container._root_resolver

    def sync_failed(self):
        """after a rejected call: a new root is allowed, nothing else"""
        if self.w.container._root_resolver is not self.real_root:
            self.epoch("failed")

    def same(self, a, b):
        return a is self.w.container.compile()

    def keys(self, below=None):
        out = []
        for t in range(self.nt if below is None else below):
            out += [(t, None), (t, "a"), (t, "b")]
        return out

    def rand_deps(self, t, auto=False, plain_only=False, n=None):
        rng, P = self.rng, self.P
        cand = [k for k in self.keys(t) if k[1] is None or rng.random() < P["p_comp"]]
        if not auto and rng.random() > P["p_deps_missing"]:
            cand = [k for k in cand if k in self.g.bind] or cand[:0]
        pk = sorted((pick(rng, P["pkinds"]) for _ in range(pick(rng, P["ndeps"]) if n is None else n)), key=["PO", "PK", "KO"].index)
        deps, dflt = [], False
        for j, k in enumerate(pk):
            w = pick(rng, P["wraps"])
            if not cand and w in ("plain", "maybe", "all", "prov", "aprov"):
                w = rng.choice(["none", "maybe", "all"])
            d = Dep(f"p{j}", k, w, None)
            d.key = ("ctx", rng.randrange(3)) if w == "ctx" else rng.choice(cand) if cand else (998, None)
            if w == "all":
                d.key = (d.key[0], None)
            d.default = w == "none" or (rng.random() < .3 if not auto else False)
            if k in ("PO", "PK"):
                d.default = d.default or dflt
                dflt = d.default
            deps.append(d)
        node = types.SimpleNamespace(deps=deps)
        lab.fix_signature(node, None)
        return deps

    def rand_node(self, key=None):
        rng, P = self.rng, self.P
        t = rng.randrange(self.nt)
        key = key or (t, rng.choice("ab") if rng.random() < P["p_comp"] else None)
        node = Node(key, pick(rng, P["kinds"]))
        node.variant = rng.randrange(2)
        if node.kind in ("factory", "generator", "cm"):
            node.is_async = rng.random() < P["p_async"]
        node.life = "S" if rng.random() < P["p_scoped"] else "T"
        node.level = pick(rng, [(l, x) for l, x in P["levels"] if l >= self.rootl])
        if rng.random() < P["p_lock"]:
            node.lock = rng.choice(["thread", "async", "none"])
        if node.kind == "instance":
            node.life, node.level = "S", self.rootl
        else:
            node.deps = self.rand_deps(key[0])
            anns = [(d.wrap, d.key) for d in node.deps if d.wrap != "none"]
            if node.deps and len(set(anns)) == len(anns) and rng.random() < P["p_perm"]:
                node.perm = list(range(len(node.deps)))
                rng.shuffle(node.perm)
        return node

    def add_node(self, node):
        self.g.nodes.append(node)
        return len(self.g.nodes) - 1

    # --- abstract mutations (transactional)
    def mutate(self, fn):
        """apply to the registry; MErr({E_REG}) with rollback when an injected scope contract breaks"""
        s = self.g.snap()
        fn()
        self.g.derive()
        if not self.contracts_hold():
            self.g.restore(s)
            self.g.derive()
            raise MErr({R.E_REG})

    def contracts_hold(self):
        return all(max([self.rootl] + [self.g.infer_level(d, self.rootl) for d in deps]) <= lv for deps, lv in self.contracts)

    def abind(self, key, nid, recursive):
        n = self.g.nodes[nid]
        self.g.bind.pop(key, None)
        self.g.bind[key] = nid
        if recursive:
            self.autodeps(n.deps, n.level, n.life)
        self.deco_deps(key)

    def deco_deps(self, key):
        """dependencies of decorator layers follow the container policy, at the base's scope and lifetime"""
        if self.pol[1] is DependencyRegistrationPolicy.IGNORE:
            return
        rules = self.g.decos.get(key)
        if rules and key in self.g.bind:
            base = self.g.nodes[self.g.bind[key]]
            life = base.life if base.kind != "instance" else self.g.default_life
            for rid in rules:
                r = self.g.nodes[rid]
                self.autodeps([d for d in r.deps if d.name != r.inner], base.level, life)

    def autodeps(self, deps, level, life):
        for d in deps:
            if d.wrap in ("plain", "prov", "aprov"):
                self.autoreg(d.key, level, life, True)

    def autoreg(self, key, level, life, recursive):
        """eligible concrete classes only, never replacing anything; True when something was registered"""
        if key in self.g.bind or key[1] is not None or not isinstance(key[0], int):
            return False
        kind = self.kinds[key[0]] if key[0] < self.nt else "plain"
        if kind in ("abstract", "value"):
            return False
        if kind == "bad":
            return "bad"
        self.w.base(key)
        node = Node(key, "concrete", life=life, level=level, deps=copy.deepcopy(self.w.class_deps.get(key[0], [])))
        nid = self.add_node(node)
        self.w.auto_node[key[0]] = nid
        self.abind(key, nid, recursive)
        return True

    # --- real/abstract pairs
    def compare_mutation(self, what, real, model):
        """both must accept or both reject; a rejected call changes nothing"""
        self.log.append(what)
        before, by_key = self.g.snap(), dict(self.g.by_key)
        try:
            model()
            mk = None
        except MErr as e:
            mk = e.kinds
        n_c = len(self.contracts)
        try:
            real()
            rk = None
        except Exception as e:
            rk = e
        if (rk is None) != (mk is None):
            raise Diverge("mutation", f"{what}: " + (f"raised {type(rk).__name__}: {rk}" if rk else "was accepted") +
                          f"; expected {'success' if mk is None else sorted(mk)}")
        if mk is None and self.g.snap() != before and what.startswith("add") or self.g.by_key != by_key:
            self.epoch(what)
        else:
            self.sync_failed()

    def op_add(self, node=None):
        node = node or self.rand_node()
        dp = self.rng.random()
        pol = None
        if dp < .2 and node.kind != "instance":
            pol = self.rng.choice([DependencyRegistrationPolicy.IGNORE, DependencyRegistrationPolicy.REGISTER_RECURSIVE])
        if self.would_cycle(node):
            return
        nid = self.add_node(node)
        eff = pol or self.pol[1]
        rec = eff is DependencyRegistrationPolicy.REGISTER_RECURSIVE and node.kind != "instance"
        key = node.key
        self.compare_mutation(f"add node {nid}: {describe(node)}" + (f" policy={pol.name}" if pol else ""),
                              lambda: self.real_register(nid, key, pol),
                              lambda: self.mutate(lambda: self.abind(key, nid, rec)))

    def would_cycle(self, node):
        return False

    def real_register(self, nid, key, pol=None):
        n = self.g.nodes[nid]
        saved, n.key = n.key, key
        lv = n.level
        try:
            if pol is not None:
                c = self.w.container
                orig = {m: getattr(type(c), m) for m in ("add", "add_factory", "add_generator", "add_context_manager")}
                self.w.container = _WithPolicy(c, pol)
                try:
                    self.w.register(nid)
                finally:
                    self.w.container = c
            else:
                self.w.register(nid)
        finally:
            n.key = saved

    def op_decorate(self):
        rng = self.rng
        keys = [k for k in self.keys() if k[1] is None or rng.random() < self.P["p_comp"]]
        live = [k for k in keys if k in self.g.bind]
        key = rng.choice(live if live and rng.random() < .75 else keys)
        node = Node(key, rng.choice(["factory", "factory", "concrete"]))
        node.variant = 0
        node.is_async = node.kind == "factory" and rng.random() < self.P["p_async"]
        node.deps = self.rand_deps(key[0], n=pick(rng, [(0, 4), (1, 3), (2, 2)]))
        inner = Dep("inner", rng.choice(["PK", "PK", "KO"]), "plain", key)
        pos = 0 if inner.pkind == "PK" else len(node.deps)
        if inner.pkind == "PK":
            pos = sum(d.pkind == "PO" for d in node.deps)
            if any(d.default for d in node.deps[:pos]):
                inner.pkind, pos = "KO", len(node.deps)
        node.deps.insert(pos, inner)
        node.inner = "inner"
        node.perm = None
        same = [d for d in node.deps if d.key == key and d.wrap == "plain"]
        nid = self.add_node(node)
        explicit = rng.random() < .4 or len(same) > 1
        noise, self.w.noise = self.w.noise, lab.NoNoise()
        try:
            fn = self.w.make(nid)
        finally:
            self.w.noise = noise
        kw = {}
        if explicit:
            kw["inner_parameter"] = "inner"
        if key[1] is not None and rng.random() < .5:
            kw.update(provides=self.w.base(key), component=key[1])
        else:
            kw.update(provides=self.w.key(key, False))

        def model():
            def go():
                self.g.decos.setdefault(key, []).append(nid)
                if key in self.g.bind:
                    b = self.g.bind.pop(key)
                    self.g.bind[key] = b
                    self.deco_deps(key)
            self.mutate(go)
        self.compare_mutation(f"decorate {key} with node {nid}: {describe(node)}", lambda: self.w.container.decorate(decorator=fn, **kw), model)

    def op_fail(self):
        rng, c, w = self.rng, self.w.container, self.w
        key = rng.choice(self.keys())
        ann = w.key(key, False)
        if rng.random() < self.P["p_evil"]:
            return self.op_evil(ann, key)

        def nodep(x):
            return x

        def gen():
            yield 1

        def ambiguous(a, b):
            return a
        ambiguous.__annotations__ = {"a": ann, "b": ann}

        def okd(a):
            return a
        okd.__annotations__ = {"a": ann}
        cases = [
            ("add_factory(non-callable)", lambda: c.add_factory(123, provides=ann)),
            ("add_factory(un-inferable parameter)", lambda: c.add_factory(nodep, provides=ann)),
            ("add(scope='nope')", lambda: c.add(Prod, provides=ann, scope="nope")),
            ("add(lifetime=None)", lambda: c.add(Prod, provides=ann, lifetime=None)),
            ("add_instance(provides=None)", lambda: c.add_instance(object(), provides=None)),
            ("decorate(non-callable)", lambda: c.decorate(provides=ann, decorator=123)),
            ("decorate(generator)", lambda: c.decorate(provides=ann, decorator=gen)),
            ("decorate(unknown inner)", lambda: c.decorate(provides=ann, decorator=okd, inner_parameter="zz")),
            ("decorate(ambiguous inner)", lambda: c.decorate(provides=ann, decorator=ambiguous)),
            ("decorate(no inner)", lambda: c.decorate(provides=ann, decorator=lambda: 1)),
            ("decorate(provides=None)", lambda: c.decorate(provides=None, decorator=okd)),
            ("add(dependencies=5)", lambda: c.add_factory(okd, provides=ann, dependencies=5)),
            ("add_generator(non-callable)", lambda: c.add_generator(3, provides=ann)),
            ("add_context_manager(non-callable)", lambda: c.add_context_manager(3, provides=ann)),
            ("add(policy=5)", lambda: c.add(Prod, provides=ann, dependency_registration_policy=5)),
        ]
        name, fn = rng.choice(cases)
        self.log.append(f"failing call {name} for {key}")
        try:
            fn()
        except Exception:
            pass
        else:
            raise Diverge("mutation", f"{name}: accepted")
        self.sync_failed()

    def op_evil(self, ann, key):
        """a registration that fails at an arbitrary point inside (hashing of one dependency key raises)"""
        rng, c, w = self.rng, self.w.container, self.w
        node = Node(key, "factory", life="S", level=self.rootl, deps=[Dep("p0", "PK", "plain", ("evil", None))])
        auto = [k for k in self.keys(key[0]) if k[1] is None and k not in self.g.bind]
        if auto and rng.random() < .7:
            node.deps.insert(0, Dep("p1", "PK", "plain", rng.choice(auto)))
        w.types["evil"] = self.evil
        deco = rng.random() < .35
        if deco:
            node.deps.insert(0, Dep("inner", "PK", "plain", key))
            node.inner = "inner"
        nid = self.add_node(node)
        noise, w.noise = w.noise, lab.NoNoise()
        try:
            fn = w.make(nid)
        finally:
            w.noise = noise
        Evil.exc = rng.choice([KeyboardInterrupt, Fault, X.DIWireInvalidRegistrationError])
        rec = rng.random() < .6
        pol = DependencyRegistrationPolicy.REGISTER_RECURSIVE if rec else DependencyRegistrationPolicy.IGNORE
        n = rng.randint(1, 14)
        self.log.append(f"{'decorate' if deco else 'add'} node {nid}: {describe(node)} with a fault at the {n}th hash of its dependency key")
        Evil.countdown = n
        try:
            if deco:
                c.decorate(provides=ann, decorator=fn, inner_parameter="inner")
            else:
                c.add_factory(fn, provides=ann, scope=LEVELS[self.rootl], lifetime=Lifetime.SCOPED, dependency_registration_policy=pol)
        except BaseException:
            Evil.countdown = 0
            self.sync_failed()
            return
        left = Evil.countdown
        Evil.countdown = 0
        if left:
            # not reached: undo is not possible, so end here
            raise Stop
        raise Stop    # swallowed inside (suppressed auto-registration); the effect is unspecified

    # --- resolutions
    def compile_kinds(self):
        errs = set()
        g = self.g
        for i in g.order:
            n = g.nodes[i]
            for d in n.deps:
                if d.wrap == "plain" and d.key not in g.by_key and d.key[0] != "evil":
                    errs.add(R.E_MISSING)
                if d.wrap in ("prov", "aprov"):
                    j = g.by_key.get(d.key)
                    if j is None:
                        errs.add(R.E_MISSING)
                    elif g.nodes[j].level > n.level:
                        errs |= {R.E_SPEC, R.E_SCOPE}
        return errs

    def resolve(self, si, wrap, key, mode, on_missing=None):
        if si != 0:
            return super().resolve(si, wrap, key, mode)
        om = on_missing or self.pol[0]
        self.proxy.kw = {} if on_missing is None else {"on_missing": on_missing}
        ann = self.w.ann(Dep("x", "PK", wrap, key))
        what = f"container.{'a' if mode == ASYNC else ''}resolve({wrap} {key}{', ' + om.name})"
        self.log.append(what)
        g = self.g
        pre = self.compile_kinds()
        changed = [False]

        def model():
            if pre:
                raise MErr(pre)
            if om is not MissingPolicy.ERROR:
                need = wrap in ("prov", "aprov") or (wrap == "plain" and key not in g.by_key)
                if need and key not in g.bind:
                    r = []
                    self.mutate(lambda: r.append(self.autoreg(key, self.rootl, g.default_life, om is MissingPolicy.REGISTER_RECURSIVE)))
                    if r[0] == "bad":
                        raise MErr({R.E_SPEC})
                    if r[0]:
                        changed[0] = True
                        g.derive()
                        self.m = Model(g, self.rootl)
                        self.bound, self.handles = {}, []
                        self.scopes = [(self.proxy, self.m.root)]
                        post = self.compile_kinds()
                        if post:
                            raise MErr(post)
            return self.m.resolve(self.m.root, wrap, key, mode)
        snap = g.snap()
        # the registry must change before the real call so that auto classes find their node
        mval, mk = None, None
        self.m.built, self.m.may = [], set()
        try:
            mval = model()
        except MErr as e:
            mk = e.kinds
        if mode == SYNC:
            out = self.outcome(lambda: self.proxy.resolve(ann))
        else:
            out = self.outcome(lambda: run(self.proxy.aresolve(ann)))

        def again():
            if mk is not None:
                raise MErr(mk)
            return mval
        r = self.settle(out, again, what, wrap)
        self.real_root = self.w.container._root_resolver
        return r

    def op_resolve(self):
        rng, P = self.rng, self.P
        wrap = pick(rng, P["dwraps"])
        mode = ASYNC if rng.random() < P["p_amode"] else SYNC
        live = list(self.g.bind)
        key = rng.choice(live) if live and rng.random() < .8 else rng.choice(self.keys())
        if wrap == "all":
            key = (key[0], None)
        si = 0
        if len(self.scopes) > 1 and rng.random() < .5:
            si = rng.randrange(len(self.scopes))
        om = None
        if si == 0 and not self.strict_rebound and rng.random() < P["p_onmissing"]:
            om = rng.choice([MissingPolicy.ERROR, MissingPolicy.REGISTER_ROOT, MissingPolicy.REGISTER_RECURSIVE])
        if si == 0 and wrap in ("prov", "aprov") and key not in self.g.by_key and (om or self.pol[0]) is MissingPolicy.ERROR:
            wrap = "plain"
        if si and wrap in ("prov", "aprov") and key not in self.g.by_key:
            wrap = "plain"
        self.resolve(si, wrap, key, mode, **({"on_missing": om} if si == 0 else {}))

    def op_enter(self):
        if self.compile_kinds() or len(self.scopes) > 3:
            return
        si = self.rng.randrange(len(self.scopes))
        ms = self.scopes[si][1]
        deeper = [l for l, _ in self.g.levels if l > ms.level]
        if not deeper:
            return
        t = self.rng.choice([None] + deeper)
        if si == 0:
            self.real_root = self.real_root or self.w.container.compile()
        self.enter_plain(si, t)

    def enter_plain(self, si, t):
        real, ms = self.scopes[si]
        self.log.append(f"enter_scope({t}) from scope#{si}")
        mnew = self.m.enter(ms, t, None)
        try:
            rnew = real.enter_scope(None if t is None else LEVELS[t])
        except Exception as e:
            raise Diverge("enter", f"enter_scope({t}): raised {type(e).__name__}: {e}")
        self.real_root = self.w.container._root_resolver
        self.scopes.append((rnew, mnew))

    def op_compile(self):
        self.log.append("compile twice")
        c = self.w.container
        kinds = self.compile_kinds()
        try:
            a, b = c.compile(), c.compile()
        except Exception as e:
            if err_kind(e) not in kinds:
                raise Diverge("compile", f"compile raised {type(e).__name__}: {e}; expected {sorted(kinds) or 'success'}")
            return
        if kinds:
            raise Diverge("compile", f"compile succeeded; expected {sorted(kinds)}")
        if a is not b:
            raise Diverge("stale", "two compilations without a change returned different resolvers")
        if self.real_root is not None and a is not self.real_root:
            raise Diverge("stale", "compile without a change returned another resolver than before")
        self.real_root = a

    def op_probe(self):
        """no key appeared, vanished or changed meaning"""
        self.log.append("-- probe every key")
        om = None if self.strict_rebound or self.pol[0] is MissingPolicy.ERROR else MissingPolicy.ERROR
        if self.compile_kinds():
            return self.resolve(0, "plain", (0, None), SYNC, on_missing=om)
        for key in self.keys():
            if key[1] is None or key in self.g.by_key or self.rng.random() < .2:
                self.resolve(0, "plain", key, ASYNC, on_missing=om)
        for t in range(self.nt):
            self.resolve(0, "all", (t, None), ASYNC, on_missing=om)

    def op_handle(self):
        hs = [i for i, (_, mh) in enumerate(self.handles)]
        if hs:
            self.call_handle(self.rng.choice(hs))

    # --- injection (scope contracts, policies, freshness)
    def op_injseq(self):
        """one injected callable called again and again while a dependency it reaches moves between scopes"""
        rng = self.rng
        live = [k for k in self.keys() if k in self.g.bind]
        if not self.ctxuse or not live or len(self.injected) >= 4:
            return
        k = rng.choice(live)
        before = len(self.injected)
        self.op_inject(k)
        if len(self.injected) == before:
            return
        f = self.injected[-1]
        for _ in range(rng.randint(2, 4)):
            if rng.random() < .8:
                n = self.rand_node(k if rng.random() < .7 else None)
                if rng.random() < .6:
                    n.deps, n.perm, n.is_async = [], None, False
                self.op_add(n)
            if rng.random() < .8:
                self.op_call(f)

    def op_inject(self, only=None):
        if not self.ctxuse or len(self.injected) >= (3 if only is None else 4):
            return
        rng = self.rng
        keys = self.keys()
        deps = []
        for j in range(rng.randint(1, 3) if only is None else 1):
            k = only or rng.choice([x for x in keys if x in self.g.bind] if self.g.bind and rng.random() < .8 else [x for x in keys if x[1] is None])
            wrap = pick(rng, [("plain", 6), ("maybe", 2), ("all", 1)])
            deps.append(Dep(f"p{j}", "KO", wrap, (k[0], None) if wrap == "all" else k, default=wrap == "maybe" and rng.random() < .5))
        level = rng.choice([None, None] + [l for l, _ in self.g.levels]) if only is None else None
        pol = rng.choice([None, None, DependencyRegistrationPolicy.IGNORE, DependencyRegistrationPolicy.REGISTER_RECURSIVE])
        is_async = rng.random() < .5
        ns = {"_DFLT": DFLT, "W": self.w}
        parts = []
        for d in deps:
            ns[f"_A_{d.name}"] = Injected[self.w.ann(d)]
            parts.append(f"{d.name}: _A_{d.name}" + (" = _DFLT" if d.default else ""))
        exec(f"{'async ' if is_async else ''}def f(*, {', '.join(parts)}):\n    return {{" + ", ".join(f"{d.name!r}: {d.name}" for d in deps) + "}\n", ns)
        kw = {}
        if level is not None:
            kw["scope"] = LEVELS[level]
        if pol is not None:
            kw["dependency_registration_policy"] = pol
        what = f"inject f({', '.join(f'{d.wrap}{d.key}' for d in deps)}) scope={level} policy={pol.name if pol else None} async={is_async}"
        self.log.append(what)
        eff = pol or self.pol[1]
        changed = [False]

        def model():
            if eff is DependencyRegistrationPolicy.REGISTER_RECURSIVE:
                for d in deps:
                    if d.wrap == "plain":
                        try:
                            r = []
                            self.mutate(lambda: r.append(self.autoreg(d.key, level or self.rootl, self.g.default_life, True)))
                            changed[0] = changed[0] or r[0] is True
                        except MErr:
                            changed[0] = True
            inf = max(self.g.infer_level(d, self.rootl) for d in deps)
            if level is not None and level < inf:
                raise MErr({R.E_REG})
        try:
            model()
            mk = None
        except MErr as e:
            mk = e.kinds
        try:
            fn = self.w.rc.inject(**kw)(ns["f"])
            rk = None
        except Exception as e:
            rk = e
        if (rk is None) != (mk is None):
            raise Diverge("inject", f"{what}: " + (f"raised {type(rk).__name__}: {rk}" if rk else "accepted") + f", expected {'success' if mk is None else sorted(mk)}")
        if mk is None:
            if level is not None:
                self.contracts.append((deps, level))
            self.injected.append((fn, deps, level, is_async))
        if changed[0] or self.w.container._root_resolver is not self.real_root:
            self.epoch("inject")

    def op_call(self, which=None):
        if not self.injected:
            return
        fn, deps, level, is_async = which or self.rng.choice(self.injected)
        what = f"call injected f({', '.join(f'{d.wrap}{d.key}' for d in deps)}) scope={level}"
        self.log.append(what)
        mode = ASYNC if is_async else SYNC
        pre = self.compile_kinds()

        def model():
            if pre:
                raise MErr(pre)
            self.m.built, self.m.may = [], set()
            built, may = [], set()
            t = level if level is not None else max(self.g.infer_level(d, self.rootl) for d in deps)
            s = self.m.root
            if t != self.rootl:
                s = self.m.enter(s, t, None)
            kinds, vals = set(), {}
            for d in deps:
                try:
                    if d.wrap == "maybe" and d.key not in self.g.by_key:
                        vals[d.name] = R.DEFAULT if d.default else None
                        continue
                    vals[d.name] = self.m.resolve(s, "plain" if d.wrap == "maybe" else d.wrap, d.key, mode)
                except MErr as e:
                    kinds |= e.kinds
                built += self.m.built
                may |= self.m.may
                self.m.built = []
            self.m.built, self.m.may = built, may
            if kinds:
                raise MErr(kinds)
            return _Args([vals[d.name] for d in deps])
        out = self.outcome(lambda: run(fn()) if is_async else fn())
        if out[0] == "ok":
            out = ("ok", _Args([out[1][d.name] for d in deps]))
        self.settle(out, model, what)
        self.real_root = self.w.container._root_resolver

    def match(self, real, mod, where, pkind="PK", new=None):
        if isinstance(mod, _Args):
            for k, (r, x) in enumerate(zip(real.v, mod.v)):
                self.match(r, x, f"{where}.p{k}")
            return
        if isinstance(mod, MObj) and self.g.nodes[mod.node].key == ("evil", None):
            return
        return super().match(real, mod, where, pkind, new)


class _Args:
    def __init__(self, v):
        self.v = v


class _WithPolicy:
    def __init__(self, c, pol):
        self.c, self.pol = c, pol

    def __getattr__(self, name):
        f = getattr(self.c, name)
        if name == "add_instance":
            return f
        return lambda *a, **k: f(*a, dependency_registration_policy=self.pol, **k)


def run_case(seed, P=HBASE, stats=None):
    rng = random.Random(seed)
    sim = None
    try:
        sim = HSim(rng, P)
        sim.log = [f"container root={sim.rootl} policies={sim.pol[0].name}/{sim.pol[1].name} context={sim.ctxuse} default={sim.g.default_life} "
                   f"classes={list(enumerate(sim.kinds))} deps={ {t: [(d.wrap, d.key) for d in ds] for t, ds in sim.w.class_deps.items()} }"]
        for _ in range(rng.randint(2, 4)):
            sim.op_add()
        for _ in range(rng.randint(*P["steps"])):
            op = pick(rng, P["hops"])
            if stats is not None:
                stats[op] = stats.get(op, 0) + 1
            getattr(sim, "op_" + op)()
    except Stop:
        pass
    except Diverge as d:
        return (d.cat, d.msg, sim.log if sim else [])
    finally:
        Evil.countdown = 0
        if stats is not None and sim is not None:
            stats["_log"] = sim.log
            stats["steps"] = stats.get("steps", 0) + len(sim.log)
            stats["constructed"] = stats.get("constructed", 0) + sim.w.ctl.seq
    return None
