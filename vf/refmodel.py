"""Reference semantics of a dependency graph (written from the property statements).

Used by the replay harness (vf/lab.py) as oracle: it says which node an execution must construct, from
which scope every argument must come, which errors are admissible, and which resources a scope owns.
It knows nothing about slots, emitted code, planners or caches of the real implementation.
"""
from __future__ import annotations
from dataclasses import dataclass, field
from typing import Any, Optional

SYNC, ASYNC = "sync", "async"
E_SCOPE, E_ASYNC, E_MISSING, E_FAULT = "scope", "async", "missing", "fault"
E_REG, E_SPEC = "registration", "spec"
ROOT = 1


@dataclass
class Dep:
    name: str
    pkind: str            # PO PK VP KO VK
    wrap: str             # plain maybe all prov aprov ctx maybectx
    key: tuple            # (type index, component or None) or ("ctx", i)
    default: bool = False


@dataclass
class Node:
    key: tuple
    kind: str             # instance concrete factory generator cm
    is_async: bool = False
    life: str = "S"
    level: int = 1
    lock: str = "auto"
    deps: list = field(default_factory=list)
    perm: Optional[list] = None   # order of the explicit dependencies mapping (None: inferred)
    fault: int = 0                # provider raises on its first `fault` calls
    fault_left: int = -1
    variant: int = 0              # equivalent ways of writing the same provider
    swallow: bool = False         # finaliser tries to swallow the exception
    fin: str = ""                 # finaliser failure: "", "E" (Exception), "B" (BaseException)
    inject: bool = False          # provider is an injected callable


class MErr(Exception):
    def __init__(self, kinds):
        self.kinds = set(kinds)


class MObj:
    __slots__ = ("node", "args", "scope", "real")

    def __init__(self, node, args, scope):
        self.node, self.args, self.scope, self.real = node, args, scope, None


class MHandle:
    __slots__ = ("scope", "key", "is_async")

    def __init__(self, scope, key, is_async):
        self.scope, self.key, self.is_async = scope, key, is_async


DEFAULT = object()      # parameter left to its own default
ABSENT = object()       # no value passed


class MScope:
    def __init__(self, level, parent, ctx, implicit=False):
        self.level, self.parent, self.ctx, self.implicit = level, parent, ctx, implicit
        self.cache = {}
        self.resources = []       # MObj in model opening order
        self.owned = []
        self.closed = False

    def at(self, level):
        s = self
        while s is not None:
            if s.level == level:
                return s
            s = s.parent
        return None


class Graph:
    def __init__(self, nodes, levels=((1, False), (2, True), (3, False), (4, False), (5, False))):
        self.nodes = nodes
        self.by_key = {}
        self.order = []
        for i, n in enumerate(nodes):
            if n.key in self.by_key:
                self.order.remove(self.by_key[n.key])
            self.by_key[n.key] = i
            self.order.append(i)
        self.levels = list(levels)
        self.skippable = dict(levels)
        self._async = {}
        self._max = {}

    # --- graph facts
    def all_of(self, key):
        return [i for i in self.order if self.nodes[i].key[0] == key[0]]

    def edges(self, i):
        out = []
        for d in self.nodes[i].deps:
            if d.wrap in ("plain", "maybe"):
                j = self.by_key.get(d.key)
                if j is not None:
                    out.append(j)
            elif d.wrap == "all":
                out += self.all_of(d.key)
        return out

    def compile_errors(self):
        errs = set()
        live = self.order
        color = {}

        def dfs(i):
            color[i] = 1
            for j in self.edges(i):
                if color.get(j) == 1:
                    errs.add("cycle")
                elif j not in color:
                    dfs(j)
            color[i] = 2
        for i in live:
            if i not in color:
                dfs(i)
        for i in live:
            n = self.nodes[i]
            for d in n.deps:
                if d.wrap == "plain" and d.key not in self.by_key:
                    errs.add("missing")
                if d.wrap in ("prov", "aprov"):
                    j = self.by_key.get(d.key)
                    if j is None:
                        errs.add("missing")
                    elif self.nodes[j].level > n.level:
                        errs.add("spec")
                    if d.pkind in ("VP", "VK"):
                        errs.add("spec")
                if d.wrap == "all" and d.pkind == "VK":
                    errs.add("spec")
        return errs

    def reach(self, i):
        seen, st = {i}, [i]
        while st:
            for j in self.edges(st.pop()):
                if j not in seen:
                    seen.add(j); st.append(j)
        return seen

    def requires_async(self, i):
        if i not in self._async:
            self._async[i] = any(self.nodes[j].is_async for j in self.reach(i))
        return self._async[i]

    def max_level(self, i):
        if i not in self._max:
            self._max[i] = max(self.nodes[j].level for j in self.reach(i))
        return self._max[i]

    # --- scopes
    def deeper(self, level):
        return [l for l, _ in self.levels if l > level]

    def default_next(self, level):
        d = self.deeper(level)
        if not d:
            return None
        return next((l for l in d if not self.skippable[l]), d[0])

    def path(self, level, target):
        """levels opened when entering target (None: default) from level; 'self'; or MErr"""
        if target is None:
            t = self.default_next(level)
            if t is None:
                raise MErr({E_SCOPE})
            return [t]
        if target == level:
            return []
        if target < level or target not in self.skippable:
            raise MErr({E_SCOPE})
        out = []
        cur = level
        while cur < target:
            d = self.deeper(cur)
            dn = self.default_next(cur)
            if d[0] == target:
                nxt = target
            elif dn <= target:
                nxt = dn
            else:
                nxt = d[0]
            out.append(nxt)
            cur = nxt
        return out


class Model:
    def __init__(self, graph, root_level=1):
        self.g = graph
        self.root = MScope(root_level, None, None)
        self.built = []       # MObj constructed in the current step
        self.may = set()      # errors that are also acceptable in the current step

    def enter(self, scope, target, ctx):
        p = self.g.path(scope.level, target)
        if not p:
            return scope
        cur = scope
        made = []
        for k, lv in enumerate(p):
            cur = MScope(lv, cur, ctx if k == len(p) - 1 else None, implicit=k != len(p) - 1)
            made.append(cur)
        cur.owned = made[:-1]
        return cur

    def context(self, scope, key):
        s = scope
        while s is not None:
            if s.ctx is not None and key in s.ctx:
                return s.ctx[key]
            s = s.parent
        raise MErr({E_MISSING})

    def exec_scope(self, scope, i):
        n = self.g.nodes[i]
        if n.kind == "instance":
            return self.root
        o = scope.at(n.level)
        if n.level > scope.level or o is None:
            raise MErr({E_SCOPE})
        if n.life == "S":
            return o
        return o if self.g.max_level(i) <= n.level else scope

    def resolve_node(self, scope, i, mode):
        n = self.g.nodes[i]
        if n.kind == "instance":
            c = self.root.cache
            if i not in c:
                c[i] = MObj(i, {}, self.root)
            return c[i]
        E = self.exec_scope(scope, i)
        if n.life == "S" and i in E.cache:
            if mode == SYNC and self.g.requires_async(i):
                self.may.add(E_ASYNC)     # a cached async value may be returned or refused in sync mode
            return E.cache[i]
        kinds = set()
        if mode == SYNC and self.g.requires_async(i):
            kinds.add(E_ASYNC)
        args = {}
        for d in n.deps:
            try:
                args[d.name] = self.dep(E, n, d, mode)
            except MErr as e:
                kinds |= e.kinds
        faulty = n.fault and n.fault_left != 0
        if kinds:
            raise MErr(kinds | ({E_FAULT} if faulty else set()))
        if faulty:
            raise MErr({E_FAULT})
        o = MObj(i, args, E)
        self.built.append(o)
        if n.life == "S":
            E.cache[i] = o
        if n.kind in ("generator", "cm"):
            E.at(n.level).resources.append(o)
        return o

    def dep(self, E, n, d, mode):
        if d.wrap == "none":
            return DEFAULT
        if d.wrap in ("ctx", "maybectx"):
            return self.context(E, d.key)
        if d.wrap in ("prov", "aprov"):
            return MHandle(E, d.key, d.wrap == "aprov")
        if d.wrap == "all":
            return self.all_values(E, d.key, mode)
        j = self.g.by_key.get(d.key)
        if j is None:
            if d.wrap == "maybe":
                if d.default:
                    return DEFAULT
                return {"VP": (), "VK": {}}.get(d.pkind)
            raise MErr({E_MISSING})
        return self.resolve_node(E, j, mode)

    def all_values(self, E, key, mode):
        kinds, vals = set(), []
        for j in self.g.all_of(key):
            try:
                vals.append(self.resolve_node(E, j, mode))
            except MErr as e:
                kinds |= e.kinds
        if kinds:
            raise MErr(kinds)
        return tuple(vals)

    def resolve(self, scope, wrap, key, mode):
        """direct resolution of a (wrapped) key"""
        self.built = []
        self.may = set()
        if wrap in ("ctx", "maybectx"):
            try:
                return self.context(scope, key)
            except MErr:
                if wrap == "maybectx":
                    return None
                raise
        if wrap in ("prov", "aprov"):
            return MHandle(scope, key, wrap == "aprov")
        if wrap == "all":
            return self.all_values(scope, key, mode)
        j = self.g.by_key.get(key)
        if j is None:
            if wrap == "maybe":
                return None
            raise MErr({E_MISSING})
        return self.resolve_node(scope, j, mode)
