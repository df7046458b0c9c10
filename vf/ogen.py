"""Open generics (C11, decorated templates for C10): templates, exact closed registrations and plain providers.

Every closed generic key that can be reached is a virtual node of the reference graph (its provider is the template
chosen by `best`, written from the property text), so resolution, lifetimes, scopes, cleanup and arguments are compared
by the same harness as non-generic graphs (vf/lab.py).
"""
from __future__ import annotations
import random, typing
from . import lab, refmodel as R
from .lab import (Diverge, Dep, Node, Graph, MErr, DEFAULT, pick, Leave, Stop, World, Sim, X, Lifetime, LockMode,
                  LEVELS, SYNC, ASYNC)
from diwire import Component
from typing import Annotated, Generic, TypeVar

E_GEN = "generic"


class Base_:
    pass


class Sub_(Base_):
    pass


class X1:
    pass


class X2:
    pass


T = TypeVar("T")
U = TypeVar("U")
B = TypeVar("B", bound=Base_)
K = TypeVar("K", X1, X2)
TV = {"T": T, "U": U, "B": B, "K": K}


class G0(Generic[T]):
    pass


class G1(Generic[T, U]):
    pass


ATOMS = {"base": Base_, "sub": Sub_, "x1": X1, "x2": X2, "int": int}
ORIG = {"G0": G0, "G1": G1, "list": list}
NARGS = {"G0": 1, "G1": 2, "list": 1}

# type terms: "int" | ("list", t) | ("G0", t) ...; typevars "?T"


def real(t):
    if isinstance(t, str):
        return TV[t[1:]] if t[0] == "?" else ATOMS[t]
    o = ORIG[t[0]]
    return o[tuple(real(a) for a in t[1:])] if len(t) > 2 else o[real(t[1])]


def unreal(r):
    for k, v in ATOMS.items():
        if v is r:
            return k
    o = typing.get_origin(r)
    for k, v in ORIG.items():
        if v is o and o is not None:
            a = [unreal(x) for x in typing.get_args(r)]
            return None if None in a else (k, *a)
    return None


def tvars(t):
    if isinstance(t, str):
        return [t] if t[0] == "?" else []
    out = []
    for a in t[1:]:
        for v in tvars(a):
            if v not in out:
                out.append(v)
    return out


def subst(t, m):
    if isinstance(t, str):
        return m.get(t, t)
    return (t[0], *(subst(a, m) for a in t[1:]))


def match(p, c, m):
    if isinstance(p, str):
        if p[0] == "?":
            if p in m:
                return m[p] == c
            m[p] = c
            return True
        return p == c
    return not isinstance(c, str) and p[0] == c[0] and len(p) == len(c) and all(match(a, b, m) for a, b in zip(p[1:], c[1:]))


def valid(m):
    for v, c in m.items():
        if v == "?B" and c not in ("base", "sub"):
            return False
        if v == "?K" and c not in ("x1", "x2"):
            return False
    return True


def score(t):
    if isinstance(t, str):
        return 0 if t[0] == "?" else 2
    return 1 + sum(score(a) for a in t[1:])


def more_general(a, b):
    """a matches every instance of b"""
    return match(a, b, {})


class Template:
    def __init__(self, key, comp, node, order):
        self.key, self.comp, self.node, self.order = key, comp, node, order
        self.decos = []


class OGGraph(Graph):
    """nodes: closed providers, then virtual nodes appended on demand"""

    def __init__(self, nodes, templates, exact, **kw):
        super().__init__(nodes, **kw)
        self.templates = templates
        self.nclosed = len(nodes)
        self.exact = exact
        self.virtual = {}
        self.info = {}

    def best(self, key):
        """key: (("g", term), comp) -> template | E_GEN | None | 'tie'"""
        term = key[0][1]
        ok, bad = [], False
        for t in self.templates:
            if t is None or t.comp != key[1]:
                continue
            m = {}
            if not match(t.key, term, m):
                continue
            if valid(m):
                ok.append(t)
            else:
                bad = True
        if not ok:
            return E_GEN if bad else None
        top = max(score(t.key) for t in ok)
        best = [t for t in ok if score(t.key) == top]
        for a in best:
            for b in best:
                if a is not b and more_general(a.key, b.key) and not more_general(b.key, a.key):
                    return "tie"
        if len(best) > 1 and any(t.decos for t in best):
            return "tie"
        return max(best, key=lambda t: t.order)

    def index(self, key):
        """virtual node for a closed generic key (None: not registered)"""
        j = self.by_key.get(key)
        if j is not None:
            return j
        if not isinstance(key[0], tuple):
            return None
        t = self.best(key)
        if t == "tie":
            raise Stop
        if t == E_GEN:
            raise MErr({E_GEN})
        if t is None:
            return None
        return self.layer(t, key, len(t.decos))

    def layer(self, t, key, n):
        vk = (id(t), key, n)
        if vk in self.virtual:
            return self.virtual[vk]
        m = {}
        match(t.key, key[0][1], m)
        src = t.node if n == 0 else t.decos[n - 1]
        import copy
        node = copy.copy(src)
        node.deps = []
        node.og = True
        node.life, node.level = t.node.life, t.node.level
        for d in src.deps:
            d = copy.copy(d)
            if d.wrap in ("type", "tval"):
                d.key = subst(d.key, m)
            elif d.wrap == "inner":
                d.key = (t, key, n - 1)
            elif isinstance(d.key, tuple) and isinstance(d.key[0], tuple) and d.key[0][0] == "g":
                d.key = (("g", subst(d.key[0][1], m)), d.key[1])
            node.deps.append(d)
        node.key = ("virtual", key, n)
        i = len(self.nodes)
        self.nodes.append(node)
        self.virtual[vk] = i
        self.info[i] = (t, key, n)
        return i

    def requires_async(self, i):
        n = self.nodes[i]
        if getattr(n, "og", False):
            return n.is_async      # dependencies are only known per closed key: they refuse on their own
        return super().requires_async(i)


class OGModel(R.Model):
    def exec_scope(self, scope, i):
        n = self.g.nodes[i]
        if getattr(n, "og", False):
            o = scope.at(n.level)
            if n.level > scope.level or o is None:
                raise MErr({R.E_SCOPE})
            return o
        return super().exec_scope(scope, i)

    def resolve_node(self, scope, i, mode):
        n = self.g.nodes[i]
        if not getattr(n, "og", False):
            return super().resolve_node(scope, i, mode)
        if n.is_async and mode == SYNC:
            # refused even when cached (or returned: see C06)
            E = None
            try:
                E = self.exec_scope(scope, i)
            except MErr as e:
                raise MErr({R.E_ASYNC} | e.kinds)
            if n.life == "S" and i in E.cache:
                self.may.add(R.E_ASYNC)
                return E.cache[i]
            kinds = {R.E_ASYNC}
            for d in n.deps:
                try:
                    self.peek(E, n, d, mode)
                except MErr as e:
                    kinds |= e.kinds
            raise MErr(kinds | ({R.E_FAULT} if n.fault else set()))
        return super().resolve_node(scope, i, mode)

    def peek(self, E, n, d, mode):
        pass

    def dep(self, E, n, d, mode):
        if d.wrap in ("type", "tval"):
            return MType(real(d.key))
        if d.wrap == "inner":
            t, key, k = d.key
            return self.resolve_node(E, self.g.layer(t, key, k), mode)
        if d.wrap in ("plain", "maybe") and isinstance(d.key[0], tuple):
            j = self.g.index(d.key)
            if j is None:
                if d.wrap == "maybe":
                    return DEFAULT if d.default else {"VP": (), "VK": {}}.get(d.pkind)
                raise MErr({R.E_MISSING})
            return self.resolve_node(E, j, mode)
        if d.wrap == "maybectx":
            try:
                return self.context(E, d.key)
            except MErr:
                return None
        return super().dep(E, n, d, mode)

    def resolve(self, scope, wrap, key, mode):
        if isinstance(key[0], tuple) and wrap in ("plain", "maybe"):
            self.built, self.may = [], set()
            j = self.g.index(key)
            if j is None:
                if wrap == "maybe":
                    return None
                raise MErr({R.E_MISSING})
            return self.resolve_node(scope, j, mode)
        return super().resolve(scope, wrap, key, mode)


class MType:
    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"type {self.t}"


class OGWorld(World):
    def __init__(self, g, ops, stir=None, **kw):
        self.tnum = {}
        self.ops = ops
        super().__init__(g, **kw)
        for op in ops:
            getattr(self, "do_" + op[0])(*op[1:])
            if stir is not None and op is not ops[-1] and stir.random() < .5:
                self.use(stir)

    def use(self, rng):
        """use the container before the next registration: whatever it compiled or cached must not survive"""
        self.ctl.stir = True
        c = self.container
        try:
            todo = [t for t in self.g.templates for _ in range(3)] if rng.random() < .7 else []
            c.compile()
            for t in todo:
                if t is not None:
                    k = real(subst(t.key, {v: rng.choice(["base", "sub", "x1", "x2", "int", ("list", "int")]) for v in tvars(t.key)}))
                    try:
                        if rng.random() < .5:
                            c.resolve(k)
                        else:
                            with c.enter_scope(LEVELS[max(t.node.level, self.root_level + 1)]) as r:
                                r.resolve(k)
                    except (X.DIWireError, RecursionError):
                        pass
        except X.DIWireError:
            pass
        finally:
            self.ctl.stir = False

    def register(self, i):
        if i < self.g.nclosed and i not in self.g.exact:
            super().register(i)

    def do_exact(self, i):
        World.register(self, i)

    def base(self, key):
        t = key[0]
        if isinstance(t, tuple) and t[0] == "g":
            return real(t[1])
        return super().base(key)

    def ann(self, d, noisy=True):
        if d.wrap == "type":
            return type[real(d.key)]
        if d.wrap == "tval":
            return real(d.key)
        if d.wrap == "inner":
            return None if d.key is None else self.base((("g", d.key), None))
        return super().ann(d, noisy)

    def provider(self, t, n):
        """compile the provider of a template layer; it reports the virtual node it was called for"""
        node = t.node if n == 0 else t.decos[n - 1]
        wrap = _Reroute(self, t, n)
        saved, self.ctl = self.ctl, wrap
        self.g.nodes.append(node)
        i = len(self.g.nodes) - 1
        wrap.i = i
        skey, node.key = node.key, (("g", t.key), t.comp)
        try:
            return self.make(i)
        finally:
            node.key = skey
            self.g.nodes.pop()
            self.ctl = saved

    def do_template(self, t):
        node = t.node
        prov = self.provider(t, 0)
        kw = dict(provides=real(t.key), scope=LEVELS[node.level],
                  lifetime=Lifetime.SCOPED if node.life == "S" else Lifetime.TRANSIENT)
        if t.comp is not None:
            kw["provides"] = Annotated[real(t.key), Component(t.comp)]
        if node.lock != "auto":
            kw["lock_mode"] = {"thread": LockMode.THREAD, "async": LockMode.ASYNC, "none": LockMode.NONE}[node.lock]
        c = self.container
        {"concrete": c.add, "factory": c.add_factory, "generator": c.add_generator, "cm": c.add_context_manager}[node.kind](prov, **kw)

    def do_decorate(self, t, n):
        node = t.decos[n - 1]
        prov = self.provider(t, n)
        k = real(t.key)
        if t.comp is not None:
            k = Annotated[k, Component(t.comp)]
        self.container.decorate(provides=k, decorator=prov,
                                inner_parameter=next(d.name for d in node.deps if d.wrap == "inner"))


class _Reroute:
    """stands for ctl inside a template provider: maps the received type arguments to the virtual node"""

    def __init__(self, w, t, n):
        self.w, self.t, self.n = w, t, n

    def construct(self, i, args, obj=None):
        if self.w.ctl.stir:
            return self.w.ctl.construct(i, args, obj)
        g = self.w.g
        node = self.t.node if self.n == 0 else self.t.decos[self.n - 1]
        m = {}
        for d in node.deps:
            if d.wrap in ("type", "tval"):
                m[d.key] = unreal(args[d.name])
        if any(v is None for v in m.values()):
            raise Diverge("arg", f"template {self.t.key} called with type arguments "
                          f"{[args[d.name] for d in node.deps if d.wrap in ('type', 'tval')]!r}")
        key = (("g", subst(self.t.key, m)), self.t.comp)
        cur = next(t for t in g.templates if t and t.key == self.t.key and t.comp == self.t.comp)
        if self.n == 0 and cur is not self.t:
            raise Diverge("arg", f"template {self.t.key}: a replaced provider was called")
        return self.w.ctl.construct(g.layer(cur, key, self.n), args, obj)

    def fin(self, obj, exc):
        return self.w.ctl.fin(obj, exc)


class OGSim(Sim):
    def __init__(self, graph, ops, **opts):
        self.g = graph
        self.w = OGWorld(graph, ops, **opts)
        self.m = OGModel(graph, opts.get("root_level", 1))
        self.bound, self.keep, self.handles = {}, [], []
        self.root = self.w.container.compile()
        self.scopes = [(self.root, self.m.root)]
        self.log, self.findings = [], set()

    def match(self, real_, mod, where, pkind="PK", new=None):
        if isinstance(mod, MType):
            if real_ != mod.t:
                raise Diverge("arg", f"{where}: got {real_!r}, expected the type argument {mod.t!r}")
            return
        return super().match(real_, mod, where, pkind, new)

    def outcome(self, thunk):
        out = super().outcome(thunk)
        if out[0] == "err" and isinstance(out[1], Diverge):
            raise out[1]
        return out

    def call_handle(self, hi):
        real_, mh = self.handles[hi]
        if isinstance(mh.key[0], tuple):
            self.g.by_key.pop(None, None)
            try:
                j = self.g.index(mh.key)
            except MErr:
                return
            if j is not None and mh.key not in self.g.by_key:
                self.g.by_key[mh.key] = j
                try:
                    return super().call_handle(hi)
                finally:
                    del self.g.by_key[mh.key]
        return super().call_handle(hi)


TERMS = ["base", "sub", "x1", "x2", "int", ("list", "int"), ("list", "sub"), ("list", ("list", "x1"))]
PATTERNS = [("G0", "?T"), ("G0", "?T"), ("G0", "?B"), ("G0", "?K"), ("G0", ("list", "?T")), ("G0", ("list", ("list", "?T"))),
            ("G1", "?T", "?U"), ("G1", "?T", "?U"), ("G1", "?T", "?T"), ("G1", "?T", "int"), ("G1", "int", "?T"),
            ("G1", ("list", "?T"), "?U"), ("G1", "?B", "?T"), ("G1", "?K", "?K"), ("G1", ("list", "?T"), "?T")]

OBASE = dict(lab.BASE, n=(1, 4), p_fault=.04, p_async=.2, ntempl=(1, 5), p_deco=.3, p_exact=.35, p_comp2=.12, p_rereg2=.2,
             tkinds=[("concrete", 2), ("factory", 4), ("generator", 2), ("cm", 1)], steps=(8, 22),
             ops=[("resolve", 2), ("gresolve", 6), ("enter", 2.5), ("close", 1.6), ("handle", 1)], p_og=0)


def gen(rng, P, root):
    import copy
    PC = dict(P, p_comp=.15)
    for _ in range(30):
        g0 = lab.gen_graph(rng, PC, root)
        if not g0.compile_errors():
            break
    else:
        return None
    nodes = g0.nodes
    levels = [l for l in (1, 2, 3, 4, 5) if l >= root]
    lt = [(l, w) for l, w in P["levels"] if l >= root]
    templates, ops = [], []
    closed = [n.key for n in nodes]

    def deps(term, node, level, inner=False):
        tv = tvars(term)
        out = []
        for k, v in enumerate(tv):
            out.append(Dep(f"t{k}", "PK", "type" if rng.random() < .75 else "tval", v))
        if inner:
            out.append(Dep("inner", "PK", "inner", term))
        for k in range(rng.choice([0, 1, 1, 2])):
            w = pick(rng, [("plain", 6), ("maybe", 2), ("all", 1), ("prov", 1), ("aprov", .6), ("ctx", .8), ("maybectx", .5), ("none", .5)])
            d = Dep(f"p{k}", "PK", w, None)
            low = [n.key for n in nodes if n.level <= level] or closed
            if w in ("plain", "maybe", "prov", "aprov"):
                r = rng.random()
                if r < .45 and low:
                    d.key = rng.choice(low if rng.random() < .85 else closed)
                elif r < .6 and w == "maybe":
                    d.key = (998, None)
                elif term[0] == "G1" and tv:
                    a = rng.choice(tv)
                    d.key = (("g", ("G0", rng.choice([a, a, ("list", a), "sub"]))), None)
                elif low:
                    d.key = rng.choice(low)
                else:
                    w = d.wrap = "none"
            if w == "all":
                if not closed:
                    w = d.wrap = "none"
                else:
                    d.key = (rng.choice(closed)[0], None)
            if w in ("ctx", "maybectx"):
                d.key = ("ctx", rng.randrange(3))
            if w == "none":
                d.key = (0, None)
            d.default = w == "none" or (w == "maybe" and rng.random() < .4)
            out.append(d)
        rng.shuffle(out)
        # parameter kinds: some positional-only prefix, some keyword-only suffix; defaults stay legal
        dflt = False
        a = rng.randint(0, len(out)) if rng.random() < .25 else 0
        b = rng.randint(a, len(out)) if rng.random() < .4 else len(out)
        for k, d in enumerate(out):
            d.pkind = "PO" if k < a else "PK" if k < b else "KO"
            if d.pkind != "KO":
                d.default = d.default or dflt
                dflt = d.default
        if rng.random() < .2 and not any(d.default and d.wrap in ("none", "maybe") for d in out[:b]) and closed:
            low = [n.key for n in nodes if n.level <= level] or closed
            d = Dep("rest", "VP", rng.choice(["plain", "all"]), None)
            k = rng.choice(low)
            d.key = k if d.wrap == "plain" else (k[0], None)
            out.insert(b, d)
        # omitted positional-only parameters leave the later ones to their default
        for k, d in enumerate(out):
            if d.pkind == "PO" and d.default and d.wrap in ("none", "maybe"):
                d.wrap, d.key = "all", (999, None)
            if d.wrap == "none" and not d.default:
                d.wrap, d.key = "all", (999, None)
        return out

    order = 0
    for _ in range(rng.randint(*P["ntempl"])):
        order += 1
        if templates and rng.random() < P["p_rereg2"]:
            old = rng.choice([t for t in templates if t])
            term, comp = old.key, old.comp
        else:
            old, term, comp = None, rng.choice(PATTERNS), rng.choice("ab") if rng.random() < P["p_comp2"] else None
            for t in templates:
                if t and t.key == term and t.comp == comp:
                    old = t
        node = Node((("g", term), comp), pick(rng, P["tkinds"]))
        node.variant = rng.randrange(2)
        node.is_async = node.kind != "concrete" and rng.random() < P["p_async"]
        if node.kind == "factory" and node.is_async:
            node.variant = 0
        node.life = "S" if rng.random() < .6 else "T"
        node.level = pick(rng, lt)
        if rng.random() < .3:
            node.lock = rng.choice(["thread", "async", "none"])
        if node.kind in ("generator", "cm") and rng.random() < P["p_fin"]:
            node.fin = rng.choice(["E", "B"])
        node.deps = deps(term, node, node.level)
        t = Template(term, comp, node, order)
        if old is not None:
            t.decos = old.decos
            templates[templates.index(old)] = None
        templates.append(t)
        ops.append(("template", t))
        if comp is None and rng.random() < P["p_deco"] and not t.decos:
            for _ in range(rng.choice([1, 1, 2])):
                order += 1
                dn = Node(node.key, rng.choice(["factory", "factory", "concrete"]))
                dn.variant = 0
                dn.is_async = dn.kind == "factory" and rng.random() < .15
                dn.lock = node.lock
                dn.deps = deps(term, dn, node.level, inner=True)
                t.decos = t.decos + [dn]
                t.order = order
                ops.append(("decorate", t, len(t.decos)))
    if rng.random() < .4:
        ops.sort(key=lambda o: o[0] == "decorate")
    exact = set()
    for _ in range(2):
        if rng.random() < P["p_exact"]:
            a = rng.choice(TERMS)
            term = ("G0", a) if rng.random() < .6 else ("G1", a, rng.choice(TERMS))
            n = Node((("g", term), None), rng.choice(["factory", "generator", "instance"]))
            n.life, n.level = rng.choice("ST"), pick(rng, lt)
            if n.kind == "instance":
                n.life, n.level = "S", root
            elif rng.random() < .5:
                low = [x.key for x in nodes if x.level <= n.level and not isinstance(x.key[0], tuple)]
                if rng.random() < .3:
                    n.deps = [Dep("p0", "PK", "ctx", ("ctx", 0))]
                elif low:
                    n.deps = [Dep("p0", "PK", "plain", rng.choice(low))]
            if any(x.key == n.key for x in nodes):
                continue
            exact.add(len(nodes))
            nodes.append(n)
            ops.insert(rng.randint(0, len(ops)), ("exact", len(nodes) - 1))
    g = OGGraph(nodes, templates, exact, levels=[(l, l == 2) for l in levels])
    return g, ops


def run_case(seed, P=OBASE, stats=None):
    rng = random.Random(seed)
    root = pick(rng, P["roots"])
    gg = gen(rng, P, root)
    if gg is None:
        return None
    g, ops = gg
    if g.compile_errors():
        return None
    opts = dict(root_level=root, cleanup=rng.random() < P["p_cleanup"], ctx=rng.random() < P["p_rc"],
                noise=random.Random(seed + 1) if P["p_noise"] else lab.NoNoise(), stir=random.Random(seed + 2) if P.get("p_stir", .6) > random.Random(seed + 3).random() else None)
    log = [f"options root={root} cleanup={opts['cleanup']} ctx={opts['ctx']}{' used between registrations' if opts['stir'] else ''}"]
    log += [f"node {i}: {lab.describe(n)}" for i, n in enumerate(g.nodes)]
    for op in ops:
        if op[0] == "template":
            log.append(f"template {op[1].key} comp={op[1].comp}: {lab.describe(op[1].node)}")
        elif op[0] == "decorate":
            log.append(f"decorate {op[1].key}: {lab.describe(op[1].decos[op[2] - 1])}")
        else:
            log.append(f"exact node {op[1]}")
    sim = None
    try:
        try:
            sim = OGSim(g, ops, **opts)
        except Diverge:
            raise
        except Exception as e:
            raise Diverge("compile", f"registering/compiling raised {type(e).__name__}: {e}")
        sim.log = log
        sim.templates = [t for t in g.templates if t]
        try:
            history(sim, rng, P)
        except Stop:
            pass
    except Diverge as d:
        return (d.cat, d.msg, log)
    finally:
        if stats is not None and sim is not None:
            stats["_log"] = log
            stats["steps"] = stats.get("steps", 0) + len(log)
            stats["constructed"] = stats.get("constructed", 0) + sim.w.ctl.seq
            stats["virtual"] = stats.get("virtual", 0) + len(g.virtual)
    return None


def history(sim, rng, P):
    def gresolve(live):
        si = rng.choice(live[-3:])
        keys = [k for (_, k, _) in sim.g.virtual] if rng.random() < .4 else []
        if keys:
            key = rng.choice(keys)
        else:
            t = rng.choice(sim.templates)
            comp = t.comp if rng.random() < .85 else None
            if rng.random() < .8:
                m = {v: rng.choice(["base", "sub"] if v == "?B" and rng.random() < .8 else ["x1", "x2"] if v == "?K" and rng.random() < .8 else TERMS)
                     for v in tvars(t.key)}
                term = subst(t.key, m)
            else:
                term = ("G0", rng.choice(TERMS)) if rng.random() < .5 else ("G1", rng.choice(TERMS), rng.choice(TERMS))
            key = (("g", term), comp)
        t = sim.g.best(key)
        if isinstance(t, Template) and rng.random() < P["p_bias"]:
            fit = [s for s in live if sim.scopes[s][1].at(t.node.level) is not None]
            if fit:
                si = rng.choice(fit)
        mode = ASYNC if rng.random() < .6 else SYNC
        w = pick(rng, [("plain", 8), ("maybe", 1), ("prov", 1), ("aprov", .7)])
        sim.resolve(si, w, key, mode)

    lab.history(sim, rng, P, None, extra={"gresolve": gresolve})
